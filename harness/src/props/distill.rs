//! Dehydration and hydration of trees.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sys::*;
use crate::{ensure, fail};
use rdf_types::{dataset::BTreeDataset, Quad, Term};
use treeldr_layouts::distill::de;
use treeldr_layouts::{LayoutRegistry, Prelude, Value};

pub fn doc_text(docs: &[L], s: &mut dyn Style) -> Vec<J> {
    docs.iter().map(|l| layout_json(l, s)).collect()
}
pub fn note_docs(g: &mut G, docs: &[J]) {
    for d in docs {
        g.note("layout", d);
    }
}
/// Compiled layouts of an invertible world.
pub fn inv(g: &mut G, depth: usize, f: impl FnOnce(&mut Lg)) -> Result<(World, Sys), String> {
    inv_text(g, depth, f).map(|(w, s, _)| (w, s))
}
pub fn inv_text(g: &mut G, depth: usize, f: impl FnOnce(&mut Lg)) -> Result<(World, Sys, Vec<J>), String> {
    let docs = {
        let mut lg = Lg::new(g);
        f(&mut lg);
        lg.docs(depth)
    };
    let text = doc_text(&docs, &mut RandomStyle(g));
    note_docs(g, &text);
    let sys = Sys::compile(&text).map_err(|e| format!("a well-formed layout is rejected: {e}"))?;
    label_layout(g, &docs);
    Ok((World::new(docs), sys, text))
}
pub fn label_layout(g: &mut G, docs: &[L]) {
    let mut ks = vec![];
    let mut refs = false;
    let mut graph = false;
    for d in docs {
        d.visit(&mut |l| match l {
            L::Def(d) => {
                ks.push(kind_name(&d.1));
                let fmts: Vec<&Fmt> = match &d.1 {
                    K::Rec(f) => f.iter().map(|x| &x.item.value).collect(),
                    K::Sum(f) => f.iter().map(|x| &x.value).collect(),
                    K::Set(i) => vec![&i.value],
                    K::Tuple(f) => f.iter().map(|x| &x.value).collect(),
                    K::List { node, .. } => vec![&node.value],
                    _ => vec![],
                };
                graph |= fmts.iter().any(|f| f.graph.is_some());
            }
            L::Ref(_) => refs = true,
            _ => (),
        });
    }
    ks.into_iter().for_each(|k| g.label(k));
    if refs {
        g.label("ref")
    }
    if graph {
        g.label("graph")
    }
}
pub fn value_size(x: &Value) -> usize {
    match x {
        Value::Literal(_) => 1,
        Value::List(l) => 1 + l.iter().map(value_size).sum::<usize>(),
        Value::Map(m) => 1 + m.values().map(value_size).sum::<usize>(),
    }
}
pub fn show_terms(t: &[Term]) -> String {
    t.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ")
}

fn p01(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let (w, sys) = inv(g, depth, |_| ())?;
    let reg = w.reg();
    let x = Vg::new(g).value(w.top(), &reg, depth + 1);
    g.note("value", show_value(&x));
    g.nontrivial = value_size(&x) >= 3;
    let (quads, inputs) = match sys.dehydrate(&x) {
        Ok(r) => r,
        Err(e) => fail!("a conforming value is rejected: {e}"),
    };
    match sys.hydrate(&quads, &inputs) {
        Ok(y) => {
            let (cx, cy) = (canon(w.top(), &reg, &x), canon(w.top(), &reg, &y));
            ensure!(cx == cy, "round trip changed the value\n  dataset: {}\n  inputs: {}\n  expected: {}\n  got: {}", show_quads(&quads), show_terms(&inputs), show_value(&cx), show_value(&cy));
        }
        Err(e) => fail!("the dataset of a value cannot be hydrated back: {e}\n  dataset: {}\n  inputs: {}", show_quads(&quads), show_terms(&inputs)),
    }
    Ok(Outcome::Pass)
}
pub const P01: Prop = Prop { id: "P01", quick: 120_000, thorough: 1_000_000, rule: "the value has at least three nodes", run: p01, known: &[] };

/// An invertible layout, arbitrarily changed `n` times.
pub fn wild(g: &mut G, depth: usize) -> Result<(World, Sys), String> {
    wild_text(g, depth).map(|(w, s, _)| (w, s))
}
pub fn wild_text(g: &mut G, depth: usize) -> Result<(World, Sys, Vec<J>), String> {
    wild_both(g, depth).map(|(_, w, s, t)| (w, s, t))
}
/// Layouts before and after arbitrary changes.
pub fn wild_both(g: &mut G, depth: usize) -> Result<(World, World, Sys, Vec<J>), String> {
    let mut docs = Lg::new(g).docs(depth);
    let before = docs.clone();
    let n = g.below(4);
    let pool = layout_iris(&docs[0]);
    for _ in 0..n {
        mutate_layout(g, &mut docs[0], &pool);
    }
    let text = doc_text(&docs, &mut RandomStyle(g));
    note_docs(g, &text);
    let sys = Sys::compile(&text).map_err(|e| format!("a well-formed layout is rejected: {e}"))?;
    label_layout(g, &docs);
    Ok((World::new(before), World::new(docs), sys, text))
}
/// Puts two datasets together, the inputs of the second being those of the first.
pub fn merge(a: &[Quad], ia: &[Term], b: &[Quad], ib: &[Term]) -> Vec<Quad> {
    let f = |t: &Term| match ib.iter().position(|u| u == t) {
        Some(i) if i < ia.len() => ia[i].clone(),
        _ => match t {
            Term::Id(rdf_types::Id::Blank(x)) => blank_term(&format!("m{}", &x.as_str()[2..])),
            t => t.clone(),
        },
    };
    let mut s: std::collections::BTreeSet<Quad> = a.iter().cloned().collect();
    s.extend(b.iter().map(|q| Quad(f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f))));
    s.into_iter().collect()
}

fn p02(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let (w, sys) = inv(g, depth, |_| ())?;
    let reg = w.reg();
    let x = Vg::new(g).value(w.top(), &reg, depth + 1);
    g.note("value", show_value(&x));
    let Ok((quads, inputs)) = ref_dehydrate(w.top(), reg.clone(), &x) else { return Ok(Outcome::Discard) };
    // Rename blank nodes and add quads about unrelated subjects.
    let salt = g.below(5);
    let ren = |t: &Term| match t {
        Term::Id(rdf_types::Id::Blank(b)) => blank_term(&format!("r{salt}{}", &b.as_str()[2..])),
        t => t.clone(),
    };
    let base: Vec<Quad> = quads.iter().map(|q| Quad(ren(&q.0), ren(&q.1), ren(&q.2), q.3.as_ref().map(ren))).collect();
    let inputs: Vec<Term> = inputs.iter().map(ren).collect();
    let mut noisy = base.clone();
    let n = g.len(5);
    let preds: Vec<Term> = base.iter().map(|q| q.1.clone()).collect();
    for i in 0..n {
        let p = if preds.is_empty() || g.bool() { iri_term("http://noise.org/p") } else { g.pick(&preds).clone() };
        let s = iri_term(&format!("http://noise.org/s{}", g.below(3)));
        let o = match g.below(3) {
            0 => lit_term("noise", &xsd("string")),
            1 if !base.is_empty() => base[g.below(base.len())].2.clone(),
            _ => iri_term(&format!("http://noise.org/o{i}")),
        };
        let gr = match g.below(3) {
            0 => None,
            1 if !base.is_empty() => base[g.below(base.len())].3.clone(),
            _ => Some(iri_term("http://noise.org/g")),
        };
        noisy.push(Quad(s, p, o, gr));
    }
    g.note("dataset", show_quads(&noisy));
    g.note("inputs", show_terms(&inputs));
    g.nontrivial = base.len() >= 2;
    let y = match sys.hydrate(&noisy, &inputs) {
        Ok(y) => y,
        Err(e) => fail!("the dataset cannot be hydrated: {e}"),
    };
    ensure!(canon(w.top(), &reg, &x) == canon(w.top(), &reg, &y), "wrong tree: {}", show_value(&y));
    match sys.dehydrate(&y) {
        Ok((q2, i2)) => ensure!(isomorphic(&base, &inputs, &q2, &i2), "dehydrating the tree gives another dataset: {} / {}", show_quads(&q2), show_terms(&i2)),
        Err(e) => fail!("the hydrated tree {} is rejected: {e}", show_value(&y)),
    }
    Ok(Outcome::Pass)
}
pub const P02: Prop = Prop { id: "P02", quick: 120_000, thorough: 1_000_000, rule: "the dataset described by the layout has at least two quads", run: p02, known: &[] };

/// Dehydration with other names for the anonymous resources, and another number
/// of inputs where the layout does not tell it.
fn named(sys: &Sys, x: &Value, count: Option<u32>) -> Result<(Vec<Quad>, Vec<Term>), de::Error> {
    let o = de::Options::default().with_input_term_generator(|i| iri_term(&format!("http://in.org/{i}"))).with_generator(rdf_types::generator::Blank::new_with_prefix("other".into()));
    let o = match count {
        Some(n) => o.with_input_count(n),
        None => o,
    };
    let (d, t): (BTreeDataset, Vec<Term>) = de::dehydrate(sys.layouts.with(Prelude), x, sys.top(), o)?;
    Ok((d.into_iter().collect(), t))
}
fn p03(g: &mut G) -> R {
    if g.chance(1, 60) {
        // Any value, without any data.
        let sys = Sys::compile(&[J::Bool(true)]).map_err(|e| e.to_string())?;
        let x = g_value(g, 2, false);
        let n = if g.bool() { Some(g.below(5) as u32) } else { None };
        g.note("value", show_value(&x));
        g.note("inputs", format!("{n:?}"));
        g.label("any value");
        let (q, i) = named(&sys, &x, n).map_err(|e| format!("rejected by the layout of any value: {e}"))?;
        let want: Vec<Term> = (0..n.unwrap_or(1)).map(|i| iri_term(&format!("http://in.org/{i}"))).collect();
        ensure!(q.is_empty() && i == want, "wrong dataset: {} / {}", show_quads(&q), show_terms(&i));
        return Ok(Outcome::Pass);
    }
    let depth = 1 + g.below(3);
    let (w, sys) = wild(g, depth)?;
    let reg = w.reg();
    let x = Vg::new(g).value(w.top(), &reg, depth + 1);
    let n = if g.chance(1, 4) { 1 } else { 0 };
    let x = (0..n).fold(x, |x, _| mutate_value(g, &x));
    g.note("value", show_value(&x));
    let expected = ref_dehydrate(w.top(), reg.clone(), &x);
    let got = sys.dehydrate(&x);
    if g.chance(1, 4) {
        let n = g.below(4) as u32;
        match (&expected, named(&sys, &x, if g.bool() { Some(n) } else { None })) {
            (Ok((q1, i1)), Ok((q2, i2))) => {
                let f = |t: &Term| match t.as_iri().and_then(|i| i.as_str().strip_prefix("http://in.org/")) {
                    Some(i) => blank_term(&format!("input{i}")),
                    None => t.clone(),
                };
                ensure!(i2.iter().chain(q2.iter().flat_map(quad_terms)).all(|t| !t.to_string().starts_with("_:") || t.to_string().starts_with("_:other")), "a blank node does not come from the generator: {} / {}", show_quads(&q2), show_terms(&i2));
                let q: Vec<Quad> = q2.iter().map(|q| Quad(f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f))).collect();
                let i: Vec<Term> = i2.iter().map(f).collect();
                ensure!(isomorphic(q1, i1, &q, &i), "wrong dataset with other names\n  expected: {} / {}\n  got: {} / {}", show_quads(q1), show_terms(i1), show_quads(&q2), show_terms(&i2));
            }
            (Err(_), Err(_)) => (),
            (Err(_), Ok(_)) => fail!("accepted with other names"),
            (Ok(_), Err(e)) => fail!("rejected with other names: {e}"),
        }
    }
    match (expected, got) {
        (Ok((q1, i1)), Ok((q2, i2))) => {
            g.label("accepted");
            g.nontrivial = q1.len() >= 2;
            ensure!(isomorphic(&q1, &i1, &q2, &i2), "wrong dataset\n  expected: {} / {}\n  got: {} / {}", show_quads(&q1), show_terms(&i1), show_quads(&q2), show_terms(&i2));
        }
        (Err(_), Err(_)) => g.label("rejected"),
        (Err(e), Ok((q2, i2))) => fail!("accepted (expected {e:?}): {} / {}", show_quads(&q2), show_terms(&i2)),
        (Ok((q1, i1)), Err(e)) => fail!("rejected with {e:?}, expected: {} / {}", show_quads(&q1), show_terms(&i1)),
    }
    Ok(Outcome::Pass)
}
pub const P03: Prop = Prop { id: "P03", quick: 120_000, thorough: 1_000_000, rule: "the value is accepted and gives at least two quads", run: p03, known: &[] };

fn p04(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let (before, w, sys, _) = wild_both(g, depth)?;
    let reg = w.reg();
    let source = if g.bool() { &before } else { &w };
    let x = Vg::new(g).value(source.top(), &source.reg(), depth + 1);
    g.note("value", show_value(&x));
    let Ok((mut quads, mut inputs)) = ref_dehydrate(source.top(), source.reg(), &x) else { return Ok(Outcome::Discard) };
    if let Some((h, _)) = w.top().hk() {
        while inputs.len() < h.input.len() {
            inputs.push(iri_term("http://ex.org/more"));
        }
    }
    if g.chance(1, 6) {
        let y = Vg::new(g).value(before.top(), &before.reg(), depth);
        if let Ok((q, i)) = ref_dehydrate(before.top(), before.reg(), &y) {
            g.label("two values");
            quads = merge(&quads, &inputs, &q, &i);
        }
    }
    let n = g.below(4);
    let pool: Vec<Term> = layout_iris(w.top()).iter().map(|i| iri_term(i)).collect();
    for _ in 0..n {
        mutate_quads(g, &mut quads, &inputs, &pool);
    }
    match g.weighted(&[40, 1, 1]) {
        0 => (),
        1 => inputs.push(iri_term("http://ex.org/more")),
        _ => {
            inputs.pop();
        }
    }
    g.note("dataset", show_quads(&quads));
    g.note("inputs", show_terms(&inputs));
    let mut hy = Hy::new(reg.clone(), &quads);
    let expected = hy.hy(w.top(), &inputs, &None);
    if hy.overflow {
        return Ok(Outcome::Discard);
    }
    g.nontrivial = quads.len() >= 2;
    match (expected, sys.hydrate(&quads, &inputs)) {
        (Ok(t), Ok(y)) => {
            g.label("hydrated");
            ensure!(t.matches(&y), "wrong tree\n  expected: {}\n  got: {}", show_value(&t.value()), show_value(&y));
        }
        (Err(_), Err(_)) => g.label("rejected"),
        (Err(e), Ok(y)) => fail!("hydrated (expected {e:?}): {}", show_value(&y)),
        (Ok(t), Err(e)) => fail!("rejected with {e}, expected {}", show_value(&t.value())),
    }
    Ok(Outcome::Pass)
}
pub const P04: Prop = Prop { id: "P04", quick: 120_000, thorough: 1_000_000, rule: "the dataset has at least two quads", run: p04, known: &[] };
