//! Dehydration and hydration: specific guarantees.
use super::distill::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::ints::*;
use crate::sys::*;
use crate::{ensure, fail};
use rdf_types::{Quad, Term};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::distill::{de, hy};
use treeldr_layouts::layout::{Layout, LayoutType};
use treeldr_layouts::{LayoutRegistry, Prelude, Ref, TypedLiteral, TypedValue, Value};

// ---------------------------------------------------------------- P05
/// Another term of the same form.
fn rival(g: &mut G, t: &Term) -> Term {
    match t {
        Term::Literal(l) => {
            let mut l = l.clone();
            // Malformed base64 is accepted by the dependency that decodes it.
            let base64 = l.type_ == rdf_types::LiteralType::Any(iref::IriBuf::new(xsd("base64Binary")).unwrap());
            l.value = match g.below(4) {
                _ if base64 => "QQ==".into(),
                0 => format!("{}0", l.value),
                1 => "1".into(),
                2 => "true".into(),
                _ => "00".into(),
            };
            Term::Literal(l)
        }
        _ => {
            if g.bool() {
                iri_term("http://rival.org/r")
            } else {
                blank_term("rival")
            }
        }
    }
}
fn p05(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let (w, sys) = inv(g, depth, |_| ())?;
    let reg = w.reg();
    let x = Vg::new(g).value(w.top(), &reg, depth + 1);
    g.note("value", show_value(&x));
    let Ok((mut quads, inputs)) = ref_dehydrate(w.top(), reg.clone(), &x) else { return Ok(Outcome::Discard) };
    if quads.is_empty() {
        return Ok(Outcome::Discard);
    }
    let n = 1 + g.below(2);
    for _ in 0..n {
        if quads.is_empty() {
            break;
        }
        let i = g.below(quads.len());
        match g.weighted(&[4, 3, 3, 1, 1]) {
            // A second candidate.
            0 => {
                g.label("second object");
                let q = quads[i].clone();
                let o = rival(g, &q.2);
                quads.push(Quad(q.0, q.1, o, q.3));
            }
            1 => {
                g.label("removed");
                quads.remove(i);
            }
            // A second candidate with everything that is said about the first.
            2 => {
                g.label("cloned object");
                let q = quads[i].clone();
                let new = blank_term("clone");
                let mut more = vec![Quad(q.0, q.1, new.clone(), q.3)];
                for p in quads.iter().filter(|p| p.0 == q.2) {
                    more.push(Quad(new.clone(), p.1.clone(), p.2.clone(), p.3.clone()));
                }
                quads.extend(more);
            }
            3 => {
                g.label("other graph");
                let q = quads[i].clone();
                let o = rival(g, &q.2);
                quads.push(Quad(q.0, q.1, o, Some(iri_term("http://rival.org/g"))));
            }
            _ => {
                g.label("moved to another graph");
                quads[i].3 = Some(iri_term("http://rival.org/g"));
            }
        }
    }
    let s: BTreeSet<Quad> = quads.into_iter().collect();
    let mut quads: Vec<Quad> = s.into_iter().collect();
    g.note("dataset", show_quads(&quads));
    g.note("inputs", show_terms(&inputs));
    let mut h = Hy::new(reg.clone(), &quads);
    let expected = h.hy(w.top(), &inputs, &None);
    if h.overflow {
        return Ok(Outcome::Discard);
    }
    drop(h);
    g.nontrivial = true;
    g.label(if expected.is_ok() { "still a value" } else { "no value" });
    for round in 0..3 {
        let got = if round == 0 { sys.hydrate(&quads, &inputs) } else { sys.hydrate_scan(&quads, None, &inputs).map(|t| t.into_untyped()) };
        match (&expected, got) {
            (Ok(t), Ok(y)) => ensure!(t.matches(&y), "wrong tree\n  expected: {}\n  got: {}", show_value(&t.value()), show_value(&y)),
            (Err(_), Err(_)) => (),
            (Err(e), Ok(y)) => fail!("a tree comes out of missing or ambiguous data ({e:?}): {}", show_value(&y)),
            (Ok(t), Err(e)) => fail!("rejected with {e}, expected {}", show_value(&t.value())),
        }
        g.shuffle(&mut quads);
    }
    // Directly: a functional property of the entry point with two objects.
    if let L::Def(d) = w.top() {
        if let K::Rec(fs) = &d.1 {
            let Ok((base, inputs)) = ref_dehydrate(w.top(), reg.clone(), &x) else { return Ok(Outcome::Pass) };
            // (Values about the same resource may have been mixed up already.)
            if Hy::new(reg.clone(), &base).hy(w.top(), &inputs, &None).is_err() {
                return Ok(Outcome::Pass);
            }
            for f in fs {
                if f.item.dataset.is_empty() && f.item.intro.len() == 1 {
                    if let Some(P::Iri(p)) = &f.item.property {
                        let p = iri_term(p);
                        if let Some(q) = base.iter().find(|q| q.0 == inputs[0] && q.1 == p && q.3.is_none()) {
                            let mut two = base.clone();
                            two.push(Quad(q.0.clone(), q.1.clone(), iri_term("http://rival.org/second"), None));
                            match sys.hydrate(&two, &inputs) {
                                Err(hy::Error::DataAmbiguity(_)) => (),
                                Err(e) => fail!("two values for the field {:?}: reported as {e}", f.key),
                                Ok(y) => fail!("two values for the field {:?}: {}", f.key, show_value(&y)),
                            }
                            if f.required {
                                let none: Vec<Quad> = base.iter().filter(|r| *r != q).cloned().collect();
                                match sys.hydrate(&none, &inputs) {
                                    Err(hy::Error::MissingData(_)) => (),
                                    Err(e) => fail!("the required field {:?} is missing: reported as {e}", f.key),
                                    Ok(y) => fail!("the required field {:?} is missing: {}", f.key, show_value(&y)),
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(Outcome::Pass)
}
pub const P05: Prop = Prop { id: "P05", quick: 120_000, thorough: 4_000_000, rule: "the dataset of a conforming value, changed at least once", run: p05, known: &[] };

// ---------------------------------------------------------------- P06
/// Whether a value has the form a layout describes.
pub fn conforms(l: &L, reg: &Reg, x: &Value) -> bool {
    let l = match l {
        L::Ref(i) => match reg.get(i) {
            Some(l) => l,
            None => return false,
        },
        l => l,
    };
    let d = match l {
        L::Any => return true,
        L::Never | L::Ref(_) => return false,
        L::Def(d) => d,
    };
    match (&d.1, x) {
        (K::Unit(c), x) => c == x,
        (K::Rec(fs), Value::Map(m)) => {
            m.iter().all(|(k, y)| fs.iter().any(|f| k.as_str() == Some(f.key.as_str()) && conforms(&f.item.value.layout, reg, y)))
                && fs.iter().all(|f| !f.required || m.contains_key(&Value::string(f.key.clone())))
        }
        (K::Sum(vs), x) => vs.iter().filter(|y| conforms(&y.value.layout, reg, x)).count() == 1,
        (K::List { node, .. }, Value::List(xs)) => xs.iter().all(|y| conforms(&node.value.layout, reg, y)),
        (K::Set(i), Value::List(xs)) => xs.iter().all(|y| conforms(&i.value.layout, reg, y)),
        (K::Tuple(is), Value::List(xs)) => is.len() == xs.len() && is.iter().zip(xs).all(|(i, y)| conforms(&i.value.layout, reg, y)),
        (k @ (K::Bool { .. } | K::Num { .. } | K::Bytes { .. } | K::Str { .. } | K::Id { .. }), Value::Literal(y)) => lexical(k, y).is_some(),
        _ => false,
    }
}
fn p06(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let (w, sys) = inv(g, depth, |_| ())?;
    let reg = w.reg();
    for _ in 0..3 {
        let x = if g.chance(1, 6) {
            let d = g.below(4);
            g_value(g, d, false)
        } else {
            let mut x = Vg::new(g).value(w.top(), &reg, depth + 1);
            for _ in 0..g.below(4) {
                x = mutate_value(g, &x);
            }
            x
        };
        g.note("value", show_value(&x));
        g.nontrivial |= value_size(&x) >= 3;
        let c = conforms(w.top(), &reg, &x);
        g.label(if c { "conforms" } else { "does not conform" });
        match (c, sys.dehydrate(&x)) {
            (true, Ok(_)) | (false, Err(_)) => (),
            (true, Err(e)) => fail!("a conforming value is rejected: {e}"),
            (false, Ok((q, _))) => fail!("a value that does not conform is accepted: {}", show_quads(&q)),
        }
    }
    Ok(Outcome::Pass)
}
pub const P06: Prop = Prop { id: "P06", quick: 120_000, thorough: 4_000_000, rule: "one of the values has at least three nodes", run: p06, known: &[] };

// ---------------------------------------------------------------- P07
fn p07(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let (sum, extra) = {
        let mut lg = Lg::new(g);
        lg.sum_with_extra(depth)
    };
    let mut docs = vec![sum];
    docs.extend(extra);
    let n = g.below(3);
    let pool = layout_iris(&docs[0]);
    for _ in 0..n {
        mutate_layout(g, &mut docs[0], &pool);
    }
    let L::Def(d) = docs[0].clone() else { unreachable!() };
    let K::Sum(vs) = &d.1 else { unreachable!() };
    let text = doc_text(&docs, &mut RandomStyle(g));
    note_docs(g, &text);
    label_layout(g, &docs);
    let sys = Sys::compile(&text).map_err(|e| format!("a well-formed layout is rejected: {e}"))?;
    // One layout by variant; the others are defined but not in the sum.
    let mut singles = vec![];
    for i in 0..vs.len() {
        let mut one = vec![L::def(d.0.clone(), K::Sum(vec![vs[i].clone()]))];
        for (j, y) in vs.iter().enumerate() {
            if j != i && matches!(y.value.layout, L::Def(_)) {
                one.push(y.value.layout.clone());
            }
        }
        one.extend(docs[1..].iter().cloned());
        singles.push(Sys::compile(&doc_text(&one, &mut Explicit)).map_err(|e| format!("a layout of one variant is rejected: {e}"))?);
    }
    // The same sum, the variants in another order.
    let mut names: Vec<String> = (0..vs.len()).map(|i| format!("n{i:02}")).collect();
    g.shuffle(&mut names);
    let mut perm = docs.clone();
    if let L::Def(d) = &mut perm[0] {
        if let K::Sum(vs) = &mut d.1 {
            for (i, y) in vs.iter_mut().enumerate() {
                y.name = names[i].clone();
            }
        }
    }
    let perm = Sys::compile(&doc_text(&perm, &mut Explicit))?;
    let w = World::new(docs);
    let reg = w.reg();
    let mut x = Vg::new(g).value(w.top(), &reg, depth + 1);
    if g.chance(1, 4) {
        x = mutate_value(g, &x);
    }
    g.note("value", show_value(&x));
    g.nontrivial = vs.len() >= 2;
    // Dehydration.
    let each: Vec<_> = singles.iter().map(|s| s.dehydrate(&x)).collect();
    // Whether a resource gets two terms is decided on the whole result.
    let ok: Vec<usize> = (0..vs.len()).filter(|i| matches!(each[*i], Ok(_) | Err(de::Error::TermAmbiguity(_)))).collect();
    g.label(match ok.len() {
        0 => "no variant accepts",
        1 => "one variant accepts",
        _ => "several variants accept",
    });
    let all = sys.dehydrate(&x);
    let mut data = None;
    match (&all, &ok[..]) {
        (Ok((q, i)), [a]) => {
            let Ok((q1, i1)) = &each[*a] else { fail!("accepted although the only variant that accepts the value gives two terms to a resource") };
            ensure!(isomorphic(q, i, q1, i1), "the dataset differs from the one of the variant alone\n  sum: {} / {}\n  variant {:?}: {} / {}", show_quads(q), show_terms(i), vs[*a].name, show_quads(q1), show_terms(i1));
            data = Some((q.clone(), i.clone()));
        }
        (Ok(_), _) => fail!("accepted by the sum although {} of its variants accept the value", ok.len()),
        (Err(e), [a]) if each[*a].is_ok() => fail!("rejected ({e}) although exactly one variant ({:?}) accepts the value", vs[*a].name),
        _ => (),
    }
    ensure!(all.is_ok() == perm.dehydrate(&x).is_ok(), "the result depends on the names of the variants");
    // Hydration.
    // The data of one or two variants, for the same value or another one.
    let mut sources: Vec<(Vec<Quad>, Vec<Term>)> = data.into_iter().collect();
    sources.extend(each.into_iter().flatten());
    if g.bool() {
        let y = Vg::new(g).value(w.top(), &reg, depth);
        sources.extend(singles.iter().filter_map(|s| s.dehydrate(&y).ok()));
    }
    if sources.is_empty() {
        return Ok(Outcome::Pass);
    }
    let (mut quads, inputs) = sources[g.below(sources.len())].clone();
    if g.chance(1, 3) {
        let (q, i) = &sources[g.below(sources.len())];
        quads = merge(&quads, &inputs, q, i);
        g.label("merged data");
    }
    let n = g.below(3);
    let pool: Vec<Term> = layout_iris(w.top()).iter().map(|i| iri_term(i)).collect();
    for _ in 0..n {
        mutate_quads(g, &mut quads, &inputs, &pool);
    }
    g.note("dataset", show_quads(&quads));
    g.note("inputs", show_terms(&inputs));
    let each: Vec<_> = singles.iter().map(|s| s.hydrate(&quads, &inputs)).collect();
    let ok: Vec<usize> = (0..vs.len()).filter(|i| each[*i].is_ok()).collect();
    let ambiguous = each.iter().any(|r| matches!(r, Err(hy::Error::DataAmbiguity(_))));
    let all = sys.hydrate(&quads, &inputs);
    match (&all, &ok[..]) {
        (Ok(y), [a]) => {
            let z = each[*a].as_ref().unwrap();
            ensure!(y == z, "the tree differs from the one of the variant alone: {} / {}", show_value(y), show_value(z));
        }
        (Ok(y), _) => fail!("{} comes out of the sum although {} of its variants match", show_value(y), ok.len()),
        (Err(e), [a]) if !ambiguous => fail!("rejected ({e}) although exactly one variant ({:?}) matches", vs[*a].name),
        _ => (),
    }
    match (&all, perm.hydrate(&quads, &inputs)) {
        (Ok(y), Ok(z)) => ensure!(*y == z, "the tree depends on the names of the variants"),
        (Err(_), Err(_)) => (),
        _ => fail!("the result depends on the names of the variants"),
    }
    Ok(Outcome::Pass)
}
pub const P07: Prop = Prop { id: "P07", quick: 50_000, thorough: 2_000_000, rule: "the sum has at least two variants", run: p07, known: &[] };

// ---------------------------------------------------------------- P08
fn collection_item(g: &mut G) -> (L, &'static str) {
    let h = H { input: vec!["self".into()], ..H::default() };
    match g.below(4) {
        0 => (L::def(h, K::Str { res: None, dt: None, pat: None }), "string"),
        1 => (L::def(h, K::Num { res: None, dt: xsd("integer") }), "number"),
        2 => (L::def(h, K::Id { res: None, pat: None }), "id"),
        _ => (
            L::def(
                h,
                K::Rec(vec![Field {
                    key: "n".into(),
                    required: true,
                    item: Item {
                        intro: vec!["value".into()],
                        value: Fmt { layout: L::Ref(format!("{PRELUDE}string")), input: vec![v("value")], graph: None },
                        dataset: vec![],
                        property: Some(iri("http://ex.org/n")),
                    },
                }]),
            ),
            "record",
        ),
    }
}
fn collection_value(g: &mut G, kind: &str) -> Value {
    match kind {
        "string" => Value::string(if g.bool() { format!("s{}", g.below(1000)) } else { g_text(g) }),
        "number" => int(g.below(100_000) as i64 - 50_000),
        "id" => Value::string(format!("http://ex.org/i{}", g.below(100_000))),
        _ => {
            let mut m = BTreeMap::new();
            m.insert(Value::string("n".into()), Value::string(format!("s{}", g.below(1000))));
            Value::Map(m)
        }
    }
}
fn collection_len(g: &mut G) -> usize {
    match g.weighted(&[10, 6, 3, 1]) {
        0 => g.below(4),
        1 => g.below(10),
        2 => g.below(40),
        _ => 40 + g.below(300),
    }
}
/// The object of the only quad with this subject and predicate.
fn the_object(quads: &[Quad], s: &Term, p: &Term, gr: &Option<Term>) -> Option<Term> {
    let mut it = quads.iter().filter(|q| q.0 == *s && q.1 == *p && q.3 == *gr);
    let o = it.next()?.2.clone();
    it.next().is_none().then_some(o)
}
fn read_item(quads: &[Quad], kind: &str, t: &Term, gr: &Option<Term>) -> Option<Value> {
    match (kind, t) {
        ("string", Term::Literal(l)) => Some(Value::string(l.value.clone())),
        ("number", Term::Literal(l)) => Some(num(parse_xsd_decimal(&l.value)?)),
        ("id", Term::Id(rdf_types::Id::Iri(i))) => Some(Value::string(i.to_string())),
        ("record", t) => {
            let Term::Literal(l) = the_object(quads, t, &iri_term("http://ex.org/n"), gr)? else { return None };
            let mut m = BTreeMap::new();
            m.insert(Value::string("n".into()), Value::string(l.value));
            Some(Value::Map(m))
        }
        _ => None,
    }
}
fn p08(g: &mut G) -> R {
    let (item, kind) = collection_item(g);
    let h = H { input: vec!["self".into()], ..H::default() };
    let graph = match g.below(4) {
        0 => Some(Some(iri("http://ex.org/g"))),
        _ => None,
    };
    let item_graph: Option<Term> = graph.as_ref().map(|_| iri_term("http://ex.org/g"));
    let fmt = Fmt { layout: item, input: vec![v("value")], graph };
    match g.below(3) {
        // Ordered lists.
        0 => {
            g.label("list");
            let (custom, via) = (g.bool(), g.chance(1, 3));
            let (first, rest) = if custom { ("http://ex.org/first", "http://ex.org/rest") } else { (&*format!("{RDF}first"), &*format!("{RDF}rest")) };
            let (first, rest) = (first.to_string(), rest.to_string());
            let nil = if g.chance(1, 3) { "http://ex.org/end".to_string() } else { format!("{RDF}nil") };
            let mut h = h;
            let mut head = v("self");
            if via {
                h.intro.push("l".into());
                h.dataset.push((v("self"), iri("http://ex.org/list"), v("l"), None));
                head = v("l");
            }
            let node = Node {
                head: "head".into(),
                rest: "rest".into(),
                intro: vec!["value".into()],
                value: fmt,
                dataset: custom.then(|| vec![(v("head"), P::Iri(first.clone()), v("value"), None), (v("head"), P::Iri(rest.clone()), v("rest"), None)]),
                short: false,
            };
            let top = L::def(h, K::List { head, tail: P::Iri(nil.clone()), node: Box::new(node) });
            let text = doc_text(&[top], &mut RandomStyle(g));
            note_docs(g, &text);
            let sys = Sys::compile(&text)?;
            let n = collection_len(g);
            let items: Vec<Value> = (0..n).map(|_| collection_value(g, kind)).collect();
            let x = Value::List(items.clone());
            g.note("value", show_value(&x));
            g.nontrivial = n >= 2;
            if n >= 40 {
                g.label("long");
            }
            let (quads, inputs) = match sys.dehydrate(&x) {
                Ok(r) => r,
                Err(e) => fail!("a list is rejected: {e}"),
            };
            let (first, rest, nil) = (iri_term(&first), iri_term(&rest), iri_term(&nil));
            // Walk the linked list.
            let mut cur = if via { the_object(&quads, &inputs[0], &iri_term("http://ex.org/list"), &None).ok_or("no list")? } else { inputs[0].clone() };
            let mut nodes = vec![];
            let mut got = vec![];
            while cur != nil {
                ensure!(!nodes.contains(&cur), "the dataset has a cyclic list");
                let o = the_object(&quads, &cur, &first, &None).ok_or("a node has not exactly one item")?;
                got.push(read_item(&quads, kind, &o, &item_graph).ok_or("an item cannot be read")?);
                nodes.push(cur.clone());
                cur = the_object(&quads, &cur, &rest, &None).ok_or("a node has not exactly one next node")?;
            }
            ensure!(got == items, "the linked list has other items: {}", show_value(&Value::List(got)));
            let per = if kind == "record" { 3 } else { 2 };
            ensure!(quads.len() == per * n + via as usize, "the dataset of a list of {n} items has {} quads: {}", quads.len(), show_quads(&quads));
            match sys.hydrate(&quads, &inputs) {
                Ok(y) => ensure!(y == x, "the list does not come back: {}", show_value(&y)),
                Err(e) => fail!("the list cannot be read back: {e}"),
            }
            if n == 0 {
                return Ok(Outcome::Pass);
            }
            // Broken lists have no value.
            let i = g.below(n);
            let mut bad = quads.clone();
            let what = match g.below(5) {
                0 => {
                    bad.retain(|q| !(q.0 == nodes[i] && q.1 == rest));
                    "truncated"
                }
                1 => {
                    bad.retain(|q| !(q.0 == nodes[i] && q.1 == first));
                    "without an item"
                }
                2 => {
                    let j = g.below(i + 1);
                    bad.retain(|q| !(q.0 == nodes[i] && q.1 == rest));
                    bad.push(Quad(nodes[i].clone(), rest.clone(), nodes[j].clone(), None));
                    "cyclic"
                }
                3 => {
                    let o = if g.bool() || i + 1 == n { iri_term("http://ex.org/elsewhere") } else { nil.clone() };
                    bad.push(Quad(nodes[i].clone(), rest.clone(), o, None));
                    "branching"
                }
                _ => {
                    let o = bad.iter().find(|q| q.0 == nodes[i] && q.1 == first).unwrap().2.clone();
                    let o = rival(g, &o);
                    if bad.iter().any(|q| q.0 == nodes[i] && q.1 == first && q.2 == o) {
                        return Ok(Outcome::Pass);
                    }
                    bad.push(Quad(nodes[i].clone(), first.clone(), o, None));
                    "with two items in a node"
                }
            };
            g.label(what);
            if let Ok(y) = sys.hydrate(&bad, &inputs) {
                fail!("a list {what} at {i} is read as {}: {}", show_value(&y), show_quads(&bad));
            }
        }
        // Unordered collections.
        1 => {
            g.label("set");
            let n = collection_len(g).min(120);
            let mid = g.chance(1, 3);
            let mut it = Item { intro: vec!["value".into()], value: fmt, dataset: vec![], property: Some(iri("http://ex.org/item")) };
            if mid {
                it.intro.push("m".into());
                it.property = None;
                it.dataset = vec![(v("self"), iri("http://ex.org/mid"), v("m"), None), (v("m"), iri("http://ex.org/item"), v("value"), None)];
            }
            let top = L::def(h, K::Set(Box::new(it)));
            let text = doc_text(&[top], &mut RandomStyle(g));
            note_docs(g, &text);
            let sys = Sys::compile(&text)?;
            let mut items: Vec<Value> = (0..n).map(|_| collection_value(g, kind)).collect();
            if n > 1 && g.chance(1, 3) {
                items[0] = items[n - 1].clone();
            }
            g.note("value", show_value(&Value::List(items.clone())));
            g.nontrivial = n >= 2;
            let (quads, inputs) = match sys.dehydrate(&Value::List(items.clone())) {
                Ok(r) => r,
                Err(e) => fail!("a set is rejected: {e}"),
            };
            // Items that are the same resource are one.
            let mut want = items.clone();
            want.sort();
            if kind != "record" && !mid {
                want.dedup();
            }
            let y = match sys.hydrate(&quads, &inputs) {
                Ok(Value::List(y)) => y,
                Ok(y) => fail!("not a list: {}", show_value(&y)),
                Err(e) => fail!("the set cannot be read back: {e}"),
            };
            let mut y2 = y.clone();
            y2.sort();
            ensure!(y2 == want, "the set has other items: {}", show_value(&Value::List(y)));
            g.shuffle(&mut items);
            let (q2, i2) = match sys.dehydrate(&Value::List(items)) {
                Ok(r) => r,
                Err(e) => fail!("a set is rejected in another order: {e}"),
            };
            if n <= 12 {
                ensure!(isomorphic(&quads, &inputs, &q2, &i2), "another order of the items gives another dataset: {}", show_quads(&q2));
            } else {
                ensure!(quads.len() == q2.len(), "another order of the items gives another dataset");
            }
        }
        // Tuples.
        _ => {
            g.label("tuple");
            let n = g.below(6);
            let kinds: Vec<(L, &'static str)> = (0..n).map(|_| collection_item(g)).collect();
            let items: Vec<Item> = kinds
                .iter()
                .enumerate()
                .map(|(i, (l, _))| Item { intro: vec!["value".into()], value: Fmt { layout: l.clone(), input: vec![v("value")], graph: None }, dataset: vec![], property: Some(P::Iri(format!("http://ex.org/t{i}"))) })
                .collect();
            let top = L::def(h, K::Tuple(items));
            let text = doc_text(&[top], &mut RandomStyle(g));
            note_docs(g, &text);
            let sys = Sys::compile(&text)?;
            let xs: Vec<Value> = kinds.iter().map(|(_, k)| collection_value(g, k)).collect();
            g.note("value", show_value(&Value::List(xs.clone())));
            g.nontrivial = n >= 2;
            let (quads, inputs) = match sys.dehydrate(&Value::List(xs.clone())) {
                Ok(r) => r,
                Err(e) => fail!("a tuple is rejected: {e}"),
            };
            for (i, (_, k)) in kinds.iter().enumerate() {
                let o = the_object(&quads, &inputs[0], &iri_term(&format!("http://ex.org/t{i}")), &None).ok_or("an item is missing")?;
                ensure!(read_item(&quads, k, &o, &None).as_ref() == Some(&xs[i]), "item {i} is {o}");
            }
            match sys.hydrate(&quads, &inputs) {
                Ok(y) => ensure!(y == Value::List(xs.clone()), "the tuple does not come back: {}", show_value(&y)),
                Err(e) => fail!("the tuple cannot be read back: {e}"),
            }
            let mut long = xs.clone();
            let k = kinds.last().map_or("string", |k| k.1);
            for _ in 0..1 + g.below(2) {
                long.push(collection_value(g, k));
            }
            if let Ok((q, _)) = sys.dehydrate(&Value::List(long.clone())) {
                fail!("a list of {} items is accepted by a tuple of {n}: {}", long.len(), show_quads(&q));
            }
            if n > 0 {
                let i = g.below(n);
                if let Ok((q, _)) = sys.dehydrate(&Value::List(xs[..i].to_vec())) {
                    fail!("a list of {i} items is accepted by a tuple of {n}: {}", show_quads(&q));
                }
                let p = iri_term(&format!("http://ex.org/t{i}"));
                let less: Vec<Quad> = quads.iter().filter(|q| q.1 != p).cloned().collect();
                if let Ok(y) = sys.hydrate(&less, &inputs) {
                    fail!("a tuple without its item {i} is read as {}", show_value(&y));
                }
            }
        }
    }
    Ok(Outcome::Pass)
}
pub const P08: Prop = Prop { id: "P08", quick: 40_000, thorough: 2_000_000, rule: "the collection has at least two items", run: p08, known: &[] };

// ---------------------------------------------------------------- P09
fn p09(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let (w, sys, text) = inv_text(g, depth, |lg| lg.graph_weight = 6)?;
    let reg = w.reg();
    let x = Vg::new(g).value(w.top(), &reg, depth + 1);
    g.note("value", show_value(&x));
    let start: Option<Term> = match g.below(3) {
        0 => None,
        1 => Some(iri_term("http://ex.org/start")),
        _ => Some(blank_term("start")),
    };
    // Expected quads, from the graph `start`.
    let n = input_count(w.top(), &reg).unwrap();
    let inputs: Vec<N> = (0..n).map(N::Input).collect();
    let Ok((quads, inputs)) = ref_dehydrate_in(w.top(), reg.clone(), &x, &inputs, &start) else { return Ok(Outcome::Discard) };
    g.note("graph", start.as_ref().map(|t| t.to_string()).unwrap_or_default());
    g.note("dataset", show_quads(&quads));
    g.note("inputs", show_terms(&inputs));
    let graphs: BTreeSet<&Option<Term>> = quads.iter().map(|q| &q.3).collect();
    g.nontrivial = graphs.len() >= 2;
    if g.nontrivial {
        g.label("several graphs")
    }
    // Dehydration into the graph.
    {
        let got = IntSys::compile(&text, 0)?.dehydrate(&x, start.as_ref(), n);
        match got {
            Ok((q, i)) => ensure!(isomorphic(&quads, &inputs, &q, &i), "wrong dataset from graph {start:?}\n  expected: {}\n  got: {} / {}", show_quads(&quads), show_quads(&q), show_terms(&i)),
            Err(e) => fail!("rejected: {e}"),
        }
    }
    let mut data = quads.clone();
    // Rivals in graphs that are not concerned.
    let k = g.len(3);
    for i in 0..k {
        if data.is_empty() {
            break;
        }
        let mut q = data[g.below(data.len())].clone();
        q.3 = Some(iri_term("http://elsewhere.org/g"));
        q.2 = iri_term(&format!("http://elsewhere.org/o{i}"));
        data.push(q);
    }
    match sys.hydrate_scan(&data, start.as_ref(), &inputs) {
        Ok(y) => ensure!(canon(w.top(), &reg, &x) == canon(w.top(), &reg, &y.clone().into_untyped()), "wrong tree: {}", show_value(&y.into_untyped())),
        Err(e) => fail!("cannot be hydrated from its graph: {e}"),
    }
    // From another graph, or with quads moved: as the reference does.
    let mut moved = quads.clone();
    if !moved.is_empty() && g.bool() {
        let i = g.below(moved.len());
        let gs: Vec<Option<Term>> = graphs.iter().map(|g| (*g).clone()).chain([None, Some(iri_term("http://elsewhere.org/g"))]).collect();
        moved[i].3 = g.pick(&gs).clone();
        let s: BTreeSet<Quad> = moved.into_iter().collect();
        moved = s.into_iter().collect();
    }
    let from: Option<Term> = match g.below(3) {
        0 => start.clone(),
        1 => None,
        _ => quads.first().and_then(|q| q.3.clone()),
    };
    let mut h = Hy::new(reg.clone(), &moved);
    let expected = h.hy(w.top(), &inputs, &from);
    if h.overflow {
        return Ok(Outcome::Pass);
    }
    match (expected, sys.hydrate_scan(&moved, from.as_ref(), &inputs).map(|t| t.into_untyped())) {
        (Ok(t), Ok(y)) => ensure!(t.matches(&y), "wrong tree from graph {from:?} of {}\n  expected: {}\n  got: {}", show_quads(&moved), show_value(&t.value()), show_value(&y)),
        (Err(_), Err(_)) => (),
        (Err(e), Ok(y)) => fail!("hydrated from graph {from:?} of {} (expected {e:?}): {}", show_quads(&moved), show_value(&y)),
        (Ok(t), Err(e)) => fail!("from graph {from:?} of {}: rejected with {e}, expected {}", show_quads(&moved), show_value(&t.value())),
    }
    Ok(Outcome::Pass)
}
pub const P09: Prop = Prop { id: "P09", quick: 100_000, thorough: 3_000_000, rule: "the dataset of the value spans at least two graphs", run: p09, known: &[] };

// ---------------------------------------------------------------- P10
pub fn rename_blanks(g: &mut G, quads: &[Quad], inputs: &[Term]) -> (Vec<Quad>, Vec<Term>) {
    let mut blanks: BTreeSet<Term> = quads.iter().flat_map(quad_terms).chain(inputs).filter(|t| matches!(t, Term::Id(rdf_types::Id::Blank(_)))).cloned().collect();
    blanks.retain(|_| true);
    let mut names: Vec<usize> = (0..blanks.len()).collect();
    g.shuffle(&mut names);
    let map: BTreeMap<Term, Term> = blanks.into_iter().zip(names).map(|(b, n)| (b, blank_term(&format!("{}{n}", ["b", "input", "f", ""][n % 4])))).collect();
    let f = |t: &Term| map.get(t).cloned().unwrap_or_else(|| t.clone());
    (quads.iter().map(|q| Quad(f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f))).collect(), inputs.iter().map(f).collect())
}
fn p10(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let (w, sys, text) = wild_text(g, depth)?;
    let reg = w.reg();
    let mut x = Vg::new(g).value(w.top(), &reg, depth + 1);
    if g.chance(1, 8) {
        x = mutate_value(g, &x);
    }
    g.note("value", show_value(&x));
    // Compiled again, the documents in the other order.
    let mut rev = text.clone();
    rev.reverse();
    let mut sys2 = Sys::compile(&rev).map_err(|e| format!("rejected in another order: {e}"))?;
    sys2.tops.reverse();
    let (a, b, c) = (sys.dehydrate(&x), sys.dehydrate(&x), sys2.dehydrate(&x));
    let (quads, inputs) = match (a, b, c) {
        (Ok(a), Ok(b), Ok(c)) => {
            ensure!(a == b, "two dehydrations differ: {} / {}", show_quads(&a.0), show_quads(&b.0));
            ensure!(isomorphic(&a.0, &a.1, &c.0, &c.1), "the dataset depends on the order of the documents: {} / {}", show_quads(&a.0), show_quads(&c.0));
            a
        }
        (Err(_), Err(_), Err(_)) => return Ok(Outcome::Pass),
        _ => fail!("the same value is accepted once and rejected once"),
    };
    let mut data = quads;
    let n = g.below(3);
    let pool: Vec<Term> = layout_iris(w.top()).iter().map(|i| iri_term(i)).collect();
    for _ in 0..n {
        mutate_quads(g, &mut data, &inputs, &pool);
    }
    g.note("dataset", show_quads(&data));
    g.nontrivial = data.len() >= 3;
    let base = sys.hydrate(&data, &inputs);
    let same = |what: &str, other: Result<Value, hy::Error>| -> Result<(), String> {
        match (&base, &other) {
            (Ok(x), Ok(y)) => {
                // The items of a set are sorted, by layout as well: in another
                // order when the anonymous layouts are not the same.
                if x != y && !(what.starts_with("layouts") && same_up_to_order(x, y)) {
                    return Err(format!("{what}: another tree\n  {}\n  {}", show_value(x), show_value(y)));
                }
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok(x), Err(e)) => Err(format!("{what}: {} or {e}", show_value(x))),
            (Err(e), Ok(x)) => Err(format!("{what}: {} or {e}", show_value(x))),
        }
    };
    same("hydrated again", sys.hydrate(&data, &inputs))?;
    same("layouts compiled in another order", sys2.hydrate(&data, &inputs))?;
    for _ in 0..2 {
        let mut d = data.clone();
        g.shuffle(&mut d);
        same("quads given in another order", sys.hydrate_scan(&d, None, &inputs).map(|t| t.into_untyped()))?;
        same("quads inserted in another order", sys.hydrate(&d, &inputs))?;
        let (r, i) = rename_blanks(g, &d, &inputs);
        same("blank nodes renamed", sys.hydrate(&r, &i))?;
    }
    Ok(Outcome::Pass)
}
/// Equal up to the order of the items of lists.
pub fn same_up_to_order(x: &Value, y: &Value) -> bool {
    fn sorted(x: &Value) -> Value {
        match x {
            Value::List(l) => {
                let mut l: Vec<Value> = l.iter().map(sorted).collect();
                l.sort();
                Value::List(l)
            }
            Value::Map(m) => Value::Map(m.iter().map(|(k, x)| (k.clone(), sorted(x))).collect()),
            x => x.clone(),
        }
    }
    sorted(x) == sorted(y)
}
pub const P10: Prop = Prop { id: "P10", quick: 60_000, thorough: 2_000_000, rule: "the dataset has at least three quads", run: p10, known: &[] };

// ---------------------------------------------------------------- P11
fn p11(g: &mut G) -> R {
    if g.chance(1, 5) {
        return if g.bool() { p11_terms(g) } else { p11_datatypes(g) };
    }
    let depth = 1 + g.below(3);
    let (w, sys, text) = wild_text(g, depth)?;
    let reg = w.reg();
    let mut x = Vg::new(g).value(w.top(), &reg, depth + 1);
    if g.chance(1, 6) {
        x = mutate_value(g, &x);
    }
    g.note("value", show_value(&x));
    let salt = g.below(4096) as u32;
    let mut ints = IntSys::compile(&text, salt).map_err(|e| format!("compiled with terms, not with other resources: {e}"))?;
    let n = input_count(w.top(), &reg).unwrap();
    let (quads, inputs) = match (sys.dehydrate(&x), ints.dehydrate(&x, None, n)) {
        (Ok(a), Ok(b)) => {
            g.label("accepted");
            ensure!(isomorphic(&a.0, &a.1, &b.0, &b.1), "another dataset\n  terms: {} / {}\n  resources: {} / {}", show_quads(&a.0), show_terms(&a.1), show_quads(&b.0), show_terms(&b.1));
            a
        }
        (Err(_), Err(_)) => {
            g.label("rejected");
            return Ok(Outcome::Pass);
        }
        (Ok(a), Err(e)) => fail!("accepted with terms ({}), rejected with resources: {e}", show_quads(&a.0)),
        (Err(e), Ok(b)) => fail!("rejected with terms ({e}), accepted with resources: {}", show_quads(&b.0)),
    };
    let mut data = quads;
    let n = g.below(3);
    let pool: Vec<Term> = layout_iris(w.top()).iter().map(|i| iri_term(i)).collect();
    for _ in 0..n {
        mutate_quads(g, &mut data, &inputs, &pool);
    }
    g.note("dataset", show_quads(&data));
    g.nontrivial = data.len() >= 2;
    // Resources have changed terms in the first interpretation.
    let mut ints = IntSys::compile(&text, salt)?;
    match (sys.hydrate(&data, &inputs), ints.hydrate(&data, None, &inputs).map(|t| t.into_untyped())) {
        (Ok(a), Ok(b)) => ensure!(a == b || same_up_to_order(&a, &b), "another tree\n  terms: {}\n  resources: {}", show_value(&a), show_value(&b)),
        (Err(_), Err(_)) => (),
        (Ok(a), Err(_)) => fail!("hydrated with terms ({}), rejected with resources", show_value(&a)),
        (Err(e), Ok(b)) => fail!("rejected with terms ({e}), hydrated with resources: {}", show_value(&b)),
    }
    Ok(Outcome::Pass)
}
/// A resource with any number of terms.
fn p11_terms(g: &mut G) -> R {
    g.label("several terms");
    let h = H { input: vec!["self".into()], ..H::default() };
    let (k, dt, pool): (K, String, &[&str]) = match g.below(6) {
        0 => (K::Bool { res: None, dt: None }, xsd("boolean"), &["1", "true", "0", "false", "x"]),
        1 => (K::Num { res: None, dt: xsd("integer") }, xsd("integer"), &["1", "01", "0", "11", "x"]),
        2 => (K::Bytes { res: None, dt: xsd("hexBinary") }, xsd("hexBinary"), &["11", "aF", "AF", "", "x"]),
        3 => (K::Bytes { res: None, dt: xsd("base64Binary") }, xsd("base64Binary"), &["AAA=", "QQ==", ""]),
        4 => (K::Str { res: None, dt: None, pat: None }, xsd("string"), &["1", "true", "", "x"]),
        _ => (K::Id { res: None, pat: None }, String::new(), &[]),
    };
    let is_id = matches!(k, K::Id { .. });
    let text = doc_text(&[L::def(h, k.clone())], &mut Explicit);
    note_docs(g, &text);
    let mut sys = IntSys::compile(&text, g.below(64) as u32)?;
    let n = 1 + g.len(4);
    let mut terms: BTreeSet<Term> = BTreeSet::new();
    for i in 0..n {
        terms.insert(match g.below(4) {
            0 => iri_term(&format!("http://ex.org/{i}")),
            1 => blank_term(&format!("b{i}")),
            2 if !is_id => lit_term(g.clone_pick(pool), &dt),
            _ => match g.below(3) {
                0 => lit_term("1", "http://ex.org/dt"),
                1 => lit_term("1", &xsd("decimal")),
                _ => Term::Literal(rdf_types::Literal::new("1".to_string(), rdf_types::LiteralType::LangString(langtag::LangTagBuf::new("en".to_string()).unwrap()))),
            },
        });
    }
    let terms: Vec<Term> = terms.into_iter().collect();
    g.note("terms", show_terms(&terms));
    let r = sys.ints.term(&terms[0]);
    for t in &terms[1..] {
        sys.ints.alias(r, t);
    }
    g.nontrivial = terms.len() >= 2;
    // The candidates.
    let cand: Vec<&Term> = terms
        .iter()
        .filter(|t| match t {
            Term::Literal(l) => !is_id && l.type_ == rdf_types::LiteralType::Any(iref::IriBuf::new(dt.clone()).unwrap()),
            Term::Id(rdf_types::Id::Iri(_)) => is_id,
            _ => false,
        })
        .collect();
    let single = |t: &Term| {
        let l = L::def(H { input: vec!["self".into()], ..H::default() }, k.clone());
        let v = Hy::new(Reg::new(), &[]).hy(&l, &[t.clone()], &None).map(|t| t.value());
        v
    };
    let expected = match &cand[..] {
        [t] => single(t).ok(),
        _ => None,
    };
    let got = sys.hydrate(&[], None, &[terms[0].clone()]).map(|t| t.into_untyped());
    match (expected, got) {
        (Some(x), Ok(y)) => ensure!(x == y, "{} instead of {}", show_value(&y), show_value(&x)),
        (None, Err(_)) => (),
        (Some(x), Err(_)) => fail!("rejected, expected {}", show_value(&x)),
        (None, Ok(y)) => fail!("{} comes out of {} candidates", show_value(&y), cand.len()),
    }
    Ok(Outcome::Pass)
}
/// A datatype with any number of names.
fn p11_datatypes(g: &mut G) -> R {
    g.label("several names of a datatype");
    let h = || H { input: vec!["self".into()], ..H::default() };
    let pool: Vec<String> = ["boolean", "decimal", "integer", "long", "unsignedByte", "hexBinary", "base64Binary", "string", "token", "double", "date"].iter().map(|n| xsd(n)).chain(["http://ex.org/dt".to_string(), "http://ex.org/a".into()]).collect();
    let kind = g.below(4);
    let layout = |dt: &str| match kind {
        0 => K::Bool { res: None, dt: Some(dt.into()) },
        1 => K::Num { res: None, dt: dt.into() },
        2 => K::Bytes { res: None, dt: dt.into() },
        _ => K::Str { res: None, dt: Some(dt.into()), pat: None },
    };
    let good: &[&str] = match kind {
        0 => &["boolean"],
        1 => &["decimal", "integer", "long"],
        2 => &["hexBinary", "base64Binary"],
        _ => &["string", "token"],
    };
    let first = if g.bool() { xsd(g.clone_pick(good)) } else { g.pick(&pool).clone() };
    let mut names: Vec<String> = vec![first.clone()];
    let n = g.below(4);
    for _ in 0..n {
        let d = if g.bool() { xsd(g.clone_pick(good)) } else { g.pick(&pool).clone() };
        if !names.contains(&d) {
            names.push(d);
        }
    }
    let text = doc_text(&[L::def(h(), layout(&first))], &mut Explicit);
    note_docs(g, &text);
    g.note("names", names.join(" "));
    g.nontrivial = names.len() >= 2;
    let x = match kind {
        0 => Value::Literal(treeldr_layouts::Literal::Boolean(g.bool())),
        1 => {
            let (n, d) = (g.below(1000) as i64 - 500, *g.pick(&[1i64, 1, 1, 2, 8, 3, 7]));
            Value::Literal(treeldr_layouts::Literal::Number(treeldr_layouts::value::Number::from(num_rational::BigRational::new(n.into(), d.into()))))
        }
        2 => Value::Literal(treeldr_layouts::Literal::ByteString((0..g.below(5)).map(|i| (i * 77) as u8).collect())),
        _ => Value::string(g.clone_pick(&["", "x", "true", "12", "<é>"]).to_string()),
    };
    g.note("value", show_value(&x));
    let mut sys = IntSys::compile(&text, g.below(64) as u32)?;
    let r = sys.ints.term(&iri_term(&first));
    for d in &names[1..] {
        sys.ints.alias(r, &iri_term(d));
    }
    // The names that have a form for the value.
    let fit: Vec<&String> = names.iter().filter(|d| ref_dehydrate(&L::def(h(), layout(d)), Reg::new(), &x).is_ok()).collect();
    match sys.dehydrate_terms(&x) {
        Err(e) => ensure!(fit.is_empty(), "rejected ({e}), although the value has a form of {}", fit[0]),
        Ok(terms) => {
            g.label("accepted");
            let [Term::Literal(l)] = &terms[..] else { fail!("given the terms {}", show_terms(&terms)) };
            let rdf_types::LiteralType::Any(t) = &l.type_ else { fail!("given a literal with a language") };
            ensure!(fit.iter().any(|d| *d == t.as_str()), "the literal {l} is not of a datatype fit for the value");
            match Hy::new(Reg::new(), &[]).hy(&L::def(h(), layout(t.as_str())), &[terms[0].clone()], &None) {
                Ok(t) => ensure!(t.value() == x, "the literal {l} denotes {}", show_value(&t.value())),
                Err(_) => fail!("the literal {l} denotes no value"),
            }
        }
    }
    Ok(Outcome::Pass)
}
pub const P11: Prop = Prop { id: "P11", quick: 60_000, thorough: 2_000_000, rule: "the dataset has at least two quads, or the resource at least two terms", run: p11, known: &[] };

// ---------------------------------------------------------------- P12
fn typed_matches(t: &TV, y: &TypedValue, sys: &Sys, names: &dyn Fn(&str, usize) -> Option<String>) -> Result<(), String> {
    let id = |r: &Term, id: &Option<String>| -> Result<(), String> {
        match id {
            Some(i) if *r != iri_term(i) => Err(format!("annotated with {r} instead of {i}")),
            _ => Ok(()),
        }
    };
    match (t, y) {
        (TV::Lit(x, i, kind), TypedValue::Literal(l)) => {
            let (k, r) = match l {
                TypedLiteral::Unit(_, r) => ("unit", r.id()),
                TypedLiteral::Boolean(_, r) => ("boolean", r.id()),
                TypedLiteral::Number(_, r) => ("number", r.id()),
                TypedLiteral::ByteString(_, r) => ("bytes", r.id()),
                TypedLiteral::TextString(_, r) => ("string", r.id()),
                TypedLiteral::Id(_, r) => ("id", r.id()),
            };
            if k != *kind {
                return Err(format!("a {kind} is annotated as a {k}"));
            }
            if l.clone().into_untyped() != *x {
                return Err(format!("{:?} instead of {}", l, show_value(x)));
            }
            if y.type_().map(|t| t.id()) != Some(r) {
                return Err("the type of a literal is not its annotation".into());
            }
            id(r, i)
        }
        (TV::Variant(x, i, n), TypedValue::Variant(y, r, m)) => {
            id(r.id(), i)?;
            let Some(Layout::Sum(s)) = sys.layouts.layout(r.id()) else { return Err(format!("{r} is not a sum layout")) };
            let got = s.variants.get(*m as usize).map(|v| v.name.clone()).ok_or("no such variant")?;
            if let Some(i) = i {
                if names(i, *n) != Some(got.clone()) {
                    return Err(format!("annotated with variant {got:?} instead of {:?}", names(i, *n)));
                }
            }
            typed_matches(x, y, sys, names)
        }
        (TV::Map(a, i), TypedValue::Map(b, r)) => {
            id(r.id(), i)?;
            if a.len() != b.len() {
                return Err("wrong keys".into());
            }
            for (k, x) in a {
                let y = b.get(&Value::string(k.clone())).ok_or(format!("no key {k:?}"))?;
                typed_matches(x, y, sys, names)?;
            }
            Ok(())
        }
        (TV::List(a, i, ordered), TypedValue::List(b, r)) => {
            id(r.id(), i)?;
            if a.len() != b.len() {
                return Err("wrong length".into());
            }
            if *ordered {
                a.iter().zip(b).try_for_each(|(x, y)| typed_matches(x, y, sys, names))
            } else {
                let mut left: Vec<&TypedValue> = b.iter().collect();
                for x in a {
                    let Some(j) = left.iter().position(|y| typed_matches(x, y, sys, names).is_ok()) else { return Err(format!("no such item: {:?}", show_value(&x.value()))) };
                    left.remove(j);
                }
                Ok(())
            }
        }
        (TV::Any, TypedValue::Always(x)) => {
            if x.is_unit() {
                Ok(())
            } else {
                Err("not the unit value".into())
            }
        }
        _ => Err(format!("another form: {y:?}")),
    }
}
fn p12(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let (w, sys) = if g.bool() {
        inv(g, depth, |lg| lg.all_ids = true)?
    } else {
        inv(g, depth, |_| ())?
    };
    let reg = w.reg();
    let x = Vg::new(g).value(w.top(), &reg, depth + 1);
    g.note("value", show_value(&x));
    let Ok((mut quads, inputs)) = ref_dehydrate(w.top(), reg.clone(), &x) else { return Ok(Outcome::Discard) };
    if g.chance(1, 4) {
        let pool: Vec<Term> = layout_iris(w.top()).iter().map(|i| iri_term(i)).collect();
        mutate_quads(g, &mut quads, &inputs, &pool);
    }
    g.note("dataset", show_quads(&quads));
    let mut h = Hy::new(reg.clone(), &quads);
    let expected = h.hy(w.top(), &inputs, &None);
    if h.overflow {
        return Ok(Outcome::Discard);
    }
    g.nontrivial = value_size(&x) >= 3;
    let names = |id: &str, n: usize| -> Option<String> {
        let L::Def(d) = reg.get(id)? else { return None };
        let K::Sum(vs) = &d.1 else { return None };
        let mut ns: Vec<&String> = vs.iter().map(|v| &v.name).collect();
        ns.sort();
        ns.get(n).map(|s| s.to_string())
    };
    match (expected, sys.hydrate_typed(&quads, &inputs)) {
        (Ok(t), Ok(y)) => {
            if let Err(e) = typed_matches(&t, &y, &sys, &names) {
                fail!("{e}\n  in {y:?}");
            }
            ensure!(t.matches(&y.clone().into_untyped()), "without its annotations, the tree is {}", show_value(&y.into_untyped()));
        }
        (Err(_), Err(_)) => (),
        (Err(e), Ok(y)) => fail!("hydrated (expected {e:?}): {y:?}"),
        (Ok(t), Err(e)) => fail!("rejected with {e}, expected {}", show_value(&t.value())),
    }
    Ok(Outcome::Pass)
}
pub const P12: Prop = Prop { id: "P12", quick: 120_000, thorough: 3_000_000, rule: "the value has at least three nodes", run: p12, known: &[] };

// ---------------------------------------------------------------- P13
fn p13(g: &mut G) -> R {
    use treeldr_layouts::pattern::{Pattern, Substitution};
    use treeldr_layouts::Matching;
    let universe = 2 + g.below(4);
    let n = if g.chance(1, 100) { 20 + g.below(180) } else { g.below(9) };
    let mut data: BTreeSet<Quad<u8>> = BTreeSet::new();
    for _ in 0..n {
        let r = |g: &mut G| g.below(universe) as u8;
        data.insert(Quad(r(g), r(g), r(g), if g.bool() { None } else { Some(r(g)) }));
    }
    let mut data: Vec<Quad<u8>> = data.into_iter().collect();
    g.shuffle(&mut data);
    let vars = g.below(5);
    let mut bound: Vec<Option<u8>> = (0..vars).map(|_| if g.chance(1, 4) { Some(g.below(universe) as u8) } else { None }).collect();
    let k = if g.chance(1, 30) { 4 + g.below(5) } else { g.below(4) };
    let mut pats: Vec<Quad<Pattern<u8>>> = vec![];
    for _ in 0..k {
        // Often taken from a quad, with terms replaced by variables.
        let from = if !data.is_empty() && g.chance(2, 3) { Some(data[g.below(data.len())].clone()) } else { None };
        let mut p = |g: &mut G, t: Option<u8>| {
            if vars > 0 && g.chance(3, 4) {
                Pattern::Var(g.below(vars) as u32)
            } else {
                Pattern::Resource(t.unwrap_or_else(|| g.below(universe) as u8))
            }
        };
        let s = p(g, from.as_ref().map(|q| q.0));
        let pr = p(g, from.as_ref().map(|q| q.1));
        let o = p(g, from.as_ref().map(|q| q.2));
        let gr = if g.bool() { None } else { Some(p(g, from.as_ref().and_then(|q| q.3))) };
        pats.push(Quad(s, pr, o, gr));
    }
    bound.truncate(vars);
    g.note("dataset", format!("{data:?}"));
    g.note("patterns", format!("{pats:?}"));
    g.note("bound", format!("{bound:?}"));
    let make = |b: &[Option<u8>]| {
        let mut s = Substitution::new();
        for x in b {
            s.push(*x);
        }
        s
    };
    // Every assignment of the variables that occur.
    let mut used: BTreeSet<usize> = BTreeSet::new();
    for q in &pats {
        for p in [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().flatten() {
            if let Pattern::Var(x) = p {
                used.insert(*x as usize);
            }
        }
    }
    let set: BTreeSet<&Quad<u8>> = data.iter().collect();
    let free: Vec<usize> = used.iter().copied().filter(|i| bound[*i].is_none()).collect();
    let total = universe.pow(free.len() as u32);
    let mut expected: Vec<Vec<Option<u8>>> = vec![];
    for mut c in 0..total {
        let mut a = bound.clone();
        for f in &free {
            a[*f] = Some((c % universe) as u8);
            c /= universe;
        }
        let at = |p: &Pattern<u8>| match p {
            Pattern::Resource(r) => *r,
            Pattern::Var(x) => a[*x as usize].unwrap(),
        };
        if pats.iter().all(|q| set.contains(&Quad(at(&q.0), at(&q.1), at(&q.2), q.3.as_ref().map(at)))) {
            expected.push(a);
        }
    }
    expected.sort();
    // A single pattern against a single quad.
    if let (Some(p), Some(q)) = (pats.first(), data.first()) {
        let mut a = bound.clone();
        let mut fits = true;
        let mut bind = |p: &Pattern<u8>, r: u8| match p {
            Pattern::Resource(x) => fits &= *x == r,
            Pattern::Var(x) => fits &= *a[*x as usize].get_or_insert(r) == r,
        };
        bind(&p.0, q.0);
        bind(&p.1, q.1);
        bind(&p.2, q.2);
        if let (Some(p), Some(r)) = (&p.3, q.3) {
            bind(p, r)
        }
        fits &= p.3.is_some() == q.3.is_some();
        let got = make(&bound).with_quad(Quad(p.0.as_ref(), p.1.as_ref(), p.2.as_ref(), p.3.as_ref().map(|p| p.as_ref())), Quad(&q.0, &q.1, &q.2, q.3.as_ref()));
        let got: Option<Vec<Option<u8>>> = got.map(|s| (0..s.len()).map(|i| s.get(i).copied()).collect());
        let want = fits.then_some(a);
        ensure!(got == want, "{p:?} binds {q:?} as {got:?}, expected {want:?}");
    }
    g.nontrivial = pats.len() >= 2 && !data.is_empty();
    g.label(match expected.len() {
        0 => "no match",
        1 => "one match",
        _ => "several matches",
    });
    let refs: Vec<Quad<Pattern<&u8>>> = pats.iter().map(|q| Quad(q.0.as_ref(), q.1.as_ref(), q.2.as_ref(), q.3.as_ref().map(|p| p.as_ref()))).collect();
    let read = |s: &Substitution<u8>| -> Vec<Option<u8>> { (0..s.len()).map(|i| s.get(i).copied()).collect() };
    let scan = Scan(data.clone());
    let indexable = data.iter().all(|q| {
        let t: Vec<u8> = [Some(q.0), Some(q.1), Some(q.2), q.3].into_iter().flatten().collect();
        (0..t.len()).all(|i| !t[..i].contains(&t[i]))
    });
    let idx: rdf_types::dataset::IndexedBTreeDataset<u8> = if indexable { data.iter().cloned().collect() } else { Default::default() };
    for round in 0..1 + indexable as usize {
        macro_rules! all {
            ($d:expr) => {{
                let mut got: Vec<_> = Matching::new($d, make(&bound), refs.iter().copied()).map(|s| read(&s)).collect();
                got.sort();
                ensure!(got == expected, "matches: {got:?}, expected: {expected:?}");
                match Matching::new($d, make(&bound), refs.iter().copied()).into_unique() {
                    Ok(Some(s)) => ensure!(expected.len() == 1 && read(&s) == expected[0], "{:?} given as the only match of {expected:?}", read(&s)),
                    Ok(None) => ensure!(expected.is_empty(), "no match given, expected {expected:?}"),
                    Err(_) => ensure!(expected.len() > 1, "ambiguity reported, expected {expected:?}"),
                }
                match Matching::new($d, make(&bound), refs.iter().copied()).into_required_unique() {
                    Ok(s) => ensure!(expected.len() == 1 && read(&s) == expected[0], "{:?} given as the only match of {expected:?}", read(&s)),
                    Err(treeldr_layouts::matching::Error::Empty) => ensure!(expected.is_empty(), "no match reported, expected {expected:?}"),
                    Err(treeldr_layouts::matching::Error::Ambiguity) => ensure!(expected.len() > 1, "ambiguity reported, expected {expected:?}"),
                }
            }};
        }
        if round == 0 {
            all!(&scan)
        } else {
            all!(&idx)
        }
    }
    // Substitution of a pattern.
    let s = make(&bound);
    for q in &pats {
        for p in [&q.0, &q.1, &q.2] {
            let want = match p {
                Pattern::Var(x) => bound[*x as usize].map_or(*p, Pattern::Resource),
                p => *p,
            };
            ensure!(p.apply(&s) == want, "{p:?} becomes {:?}", p.apply(&s));
        }
    }
    Ok(Outcome::Pass)
}
pub const P13: Prop = Prop { id: "P13", quick: 2_000_000, thorough: 10_000_000, rule: "at least two patterns and one quad", run: p13, known: &[] };
