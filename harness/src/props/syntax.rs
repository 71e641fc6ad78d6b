//! The JSON syntax of layouts.
use super::distill::*;
use crate::compile::*;
use crate::engine::*;
use crate::gen::*;
use crate::jsyn::*;
use crate::model::*;
use crate::sys::*;
use crate::{ensure, fail};
use json_syntax::{Parse, TryFromJson};
use rdf_types::{generator, Quad, Term};
use std::collections::HashSet;
use treeldr_layouts::abs::syntax::{BuildError, Error as SynError, ErrorHint, Layout as SynLayout};
use treeldr_layouts::abs::Builder;
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{Layout, LayoutRegistry, Layouts, Literal, Prelude, Ref, Value};

pub fn read_serde(text: &str) -> Result<SynLayout, String> {
    serde_json::from_str(text).map_err(|e| e.to_string())
}
pub fn compile(all: &[SynLayout]) -> Result<(Layouts, Vec<Ref<LayoutType>>), String> {
    let mut builder = Builder::new();
    let mut tops = vec![];
    {
        let mut ctx = builder.with_generator_mut(generator::Blank::new());
        for l in all {
            tops.push(l.build_with_context(&mut ctx).map_err(|e| e.to_string())?);
        }
    }
    Ok((builder.build(), tops))
}
/// Layouts reachable from another; `sum` only goes through sum variants.
fn cyclic(layouts: &Layouts, sum: bool) -> bool {
    fn go<'a>(all: &'a impl LayoutRegistry, id: &'a Ref<LayoutType>, sum: bool, on: &mut Vec<&'a Ref<LayoutType>>, done: &mut HashSet<&'a Ref<LayoutType>>) -> bool {
        if on.contains(&id) {
            return true;
        }
        if !done.insert(id) {
            return false;
        }
        let Some(l) = all.get(id) else { return false };
        if sum && !matches!(l, Layout::Sum(_)) {
            return false;
        }
        on.push(id);
        let r = l.dependencies().into_iter().any(|d| go(all, d, sum, on, done));
        on.pop();
        r
    }
    let all = layouts.with(Prelude);
    layouts.iter().any(|(id, _)| go(&all, id, sum, &mut vec![], &mut HashSet::new()))
}

/// A value fitting a compiled layout, more or less.
pub fn fitting(g: &mut G, all: &impl LayoutRegistry, id: &Ref<LayoutType>, depth: usize) -> Value {
    use treeldr_layouts::layout::*;
    let Some(l) = all.get(id) else { return Value::unit() };
    if depth == 0 {
        return g_value(g, 0, false);
    }
    match l {
        Layout::Literal(LiteralLayout::Id(_)) => Value::string(g.pick(&["http://ex.org/s", "_:b", "http://ex.org/x#y", "not an id"]).to_string()),
        Layout::Literal(LiteralLayout::Data(d)) => match d {
            DataLayout::Unit(u) => u.const_.clone(),
            DataLayout::Boolean(_) => Value::Literal(Literal::Boolean(g.bool())),
            DataLayout::Number(n) => num(match &n.datatype {
                Term::Id(rdf_types::Id::Iri(i)) => g_number(g, i.as_str()),
                _ => g_number(g, &xsd("decimal")),
            }),
            DataLayout::ByteString(_) => Value::Literal(Literal::ByteString(g_bytes(g))),
            DataLayout::TextString(_) => Value::string(g_text(g)),
        },
        Layout::Product(p) => {
            let mut m = std::collections::BTreeMap::new();
            for (k, f) in &p.fields {
                if f.required || g.bool() {
                    m.insert(k.clone(), fitting(g, all, &f.value.layout, depth - 1));
                }
            }
            Value::Map(m)
        }
        Layout::Sum(s) if !s.variants.is_empty() => {
            let v = &s.variants[g.below(s.variants.len())];
            fitting(g, all, &v.value.layout, depth - 1)
        }
        Layout::List(ListLayout::Ordered(l)) => {
            let n = g.below(4);
            Value::List((0..n).map(|_| fitting(g, all, &l.node.value.layout, depth - 1)).collect())
        }
        Layout::List(ListLayout::Unordered(l)) => {
            let n = g.below(4);
            Value::List((0..n).map(|_| fitting(g, all, &l.item.value.layout, depth - 1)).collect())
        }
        Layout::List(ListLayout::Sized(l)) => Value::List(l.items.iter().map(|i| fitting(g, all, &i.value.layout, depth - 1)).collect()),
        _ => g_value(g, 1, false),
    }
}
fn pool_term(g: &mut G, pool: &[Term]) -> Term {
    g.pick(pool).clone()
}
fn iris_of(docs: &[J], out: &mut Vec<Term>) {
    for d in docs {
        walk(Ctx::Layout, d, &mut |c, j| {
            if let (Ctx::Pat, J::Str(s)) = (c, j) {
                if iref::IriBuf::new(s.clone()).is_ok() && !s.starts_with("_:") {
                    out.push(iri_term(s))
                }
            }
            if let (Ctx::Pat, J::Obj(o)) = (c, j) {
                if let (Some(J::Str(x)), Some(J::Str(t))) = (entry(o, "value"), entry(o, "type")) {
                    if iref::IriBuf::new(t.clone()).is_ok() {
                        out.push(lit_term(x, t))
                    }
                }
            }
        })
    }
}
fn p14(g: &mut G) -> R {
    match g.weighted(&[8, 1, 1, 1]) {
        0 => p14_layout(g),
        1 => {
            // Arbitrary bytes as CBOR.
            let mut bytes = vec![];
            if g.bool() {
                let x = {
                    let x = g_value(g, 3, false);
                    no_empty_map(x)
                };
                bytes = serde_cbor::to_vec(&x).unwrap_or_default();
                let n = g.below(4);
                for _ in 0..n {
                    if bytes.is_empty() {
                        break;
                    }
                    let i = g.below(bytes.len());
                    match g.below(3) {
                        0 => bytes[i] = g.below(256) as u8,
                        1 => {
                            bytes.truncate(i);
                        }
                        _ => bytes.insert(i, g.below(256) as u8),
                    }
                }
            } else {
                let n = g.below(24);
                bytes = (0..n).map(|_| g.below(256) as u8).collect();
            }
            g.note("CBOR", format!("{bytes:02x?}"));
            g.nontrivial = bytes.len() >= 2;
            g.label("cbor");
            // A length prefix may ask for more memory than there is.
            let r = serde_cbor::from_slice::<treeldr_layouts::Value>(&bytes[..]);
            g.label(if r.is_ok() { "cbor read" } else { "cbor rejected" });
            Ok(Outcome::Pass)
        }
        2 => {
            let n = g.below(14);
            let s: String = (0..n).map(|_| *g.pick(&['a', 'b', '[', ']', '(', ')', '*', '+', '?', '|', '\\', '-', '^', '.', 'd', 'w', 's', '{', '}', '0', ',', '\u{10ffff}', '\n'])).collect();
            g.note("pattern", &s);
            g.nontrivial = n >= 2;
            g.label("regexp");
            if let Ok(r) = treeldr_layouts::abs::RegExp::parse(&s) {
                g.label("regexp read");
                let _ = r.to_string();
                let a = r.build();
                let _ = r.is_empty();
                let _ = r.is_simple();
                let _ = r.as_singleton();
                let _ = a;
            }
            Ok(Outcome::Pass)
        }
        _ => {
            // Arbitrary text as JSON.
            let mut s = small_json(g, 3).to_string();
            let n = g.below(4);
            for _ in 0..n {
                let mut c: Vec<char> = s.chars().collect();
                let i = g.below(c.len() + 1);
                let x = *g.pick(&['{', '}', '[', ']', '"', ',', ':', '\\', 'u', '0', '9', '-', '.', 'e', ' ', 't', '\u{0}', '\u{fffd}']);
                if g.bool() || i == c.len() {
                    c.insert(i, x)
                } else {
                    c[i] = x
                }
                s = c.into_iter().collect();
            }
            // Exponents are unbounded for the JSON number type in use.
            if s.contains("{}") || s.bytes().filter(|c| *c == b'e' || *c == b'E').count() > 0 && s.contains(|c: char| c.is_ascii_digit()) {
                return Ok(Outcome::Discard);
            }
            g.note("JSON", &s);
            g.nontrivial = s.len() >= 3;
            g.label("json");
            let _ = parse_syn(&s);
            let _ = read_serde(&s);
            if serde_json::from_str::<treeldr_layouts::Value>(&s).is_ok() {
                g.label("json read")
            }
            if let Ok((v, _)) = json_syntax::Value::parse_str(&s) {
                let _: treeldr_layouts::Value = v.into();
            }
            Ok(Outcome::Pass)
        }
    }
}
fn p14_layout(g: &mut G) -> R {
    let depth = 1 + g.below(2);
    let docs = wild_docs(g, depth, 4);
    note_docs(g, &docs);
    g.label("layout");
    let mut syn = vec![];
    for d in &docs {
        let text = d.to_string();
        let a = parse_syn(&text);
        let b = read_serde(&text);
        match (a, b) {
            (Ok(a), _) => syn.push(a),
            (_, Ok(b)) => {
                let _ = compile(&[b]);
            }
            _ => (),
        }
    }
    if syn.is_empty() {
        g.label("rejected when read");
        return Ok(Outcome::Pass);
    }
    let (layouts, tops) = match compile(&syn) {
        Ok(r) => r,
        Err(_) => {
            g.label("rejected when built");
            g.nontrivial = true;
            return Ok(Outcome::Pass);
        }
    };
    g.nontrivial = true;
    if !cyclic(&layouts, true) {
        let n = 1 + g.below(3);
        for _ in 0..n {
            let top = g.pick(&tops).clone();
            let all = layouts.with(Prelude);
            let x = match g.weighted(&[4, 1, 2]) {
                0 => fitting(g, &all, &top, 5),
                1 => g_value(g, 3, false),
                _ => {
                    let x = fitting(g, &all, &top, 5);
                    mutate_value(g, &x)
                }
            };
            g.note("value", show_value(&x));
            let r: Result<(rdf_types::dataset::BTreeDataset, Vec<Term>), _> = treeldr_layouts::distill::de::dehydrate(layouts.with(Prelude), &x, &top, Default::default());
            g.label(if r.is_ok() { "dehydrated" } else { "dehydration error" });
        }
    }
    if !cyclic(&layouts, false) {
        let mut pool = vec![iri_term("http://ex.org/s"), blank_term("b0"), iri_term(&format!("{RDF}nil")), lit_term("1", &xsd("integer")), lit_term("x", &xsd("string")), lit_term("true", &xsd("boolean"))];
        iris_of(&docs, &mut pool);
        let n = g.below(5);
        let quads: Vec<Quad> = (0..n)
            .map(|_| {
                let gr = if g.chance(1, 4) { Some(pool_term(g, &pool)) } else { None };
                Quad(pool_term(g, &pool), pool_term(g, &pool), pool_term(g, &pool), gr)
            })
            .collect();
        let k = g.below(3);
        let inputs: Vec<Term> = (0..k + 1).map(|_| pool_term(g, &pool)).collect();
        g.note("dataset", show_quads(&quads));
        g.note("inputs", show_terms(&inputs));
        let top = g.pick(&tops).clone();
        let count = layouts.with(Prelude).get(&top).and_then(|l| l.input_count());
        // As many inputs as asked most of the time.
        let inputs = match count {
            Some(c) if !g.chance(1, 6) => (0..c as usize).map(|i| inputs[i % inputs.len()].clone()).collect(),
            _ => inputs,
        };
        let r = treeldr_layouts::distill::hy::hydrate(layouts.with(Prelude), &Scan(quads), &top, &inputs[..]);
        g.label(if r.is_ok() { "hydrated" } else { "hydration error" });
    }
    Ok(Outcome::Pass)
}
fn p14_empty_object() -> Result<(), String> {
    let text = r#"{"type":"record","fields":{},"dataset":[["_:self","http://ex.org/p","http://ex.org/c"]]}"#;
    match parse_syn(text) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}
pub const P14: Prop = Prop {
    id: "P14",
    quick: 100_000,
    thorough: 1_000_000,
    rule: "the input has several nodes, or the layout is read",
    run: p14,
    known: &[("empty-object", "reading a layout with an empty JSON object before a dataset with the position-tracking reader panics", p14_empty_object)],
};

// ---------------------------------------------------------------- P19
fn p19(g: &mut G) -> R {
    let depth = 1 + g.below(2);
    let docs = wild_docs(g, depth, 3);
    let mut checked = false;
    for d in &docs {
        let fs = faults(Ctx::Layout, d);
        // Known finding: the serde reader takes lists for objects.
        if !fs.is_empty() && fs.iter().all(|f| f.lenient) {
            g.label("lenient");
            continue;
        }
        checked = true;
        let text = d.to_string();
        g.note("layout", &text);
        let a = parse_syn(&text);
        let b = read_serde(&text);
        if let J::Obj(o) = d {
            // As a layout of some kinds only.
            if let (1, Some(J::Str(kind))) = (o.iter().filter(|e| e.0 == "type").count(), entry(o, "type")) {
                let readers = kind_readers();
                let (kinds, read) = g.pick(&readers);
                let r = read.1(&text);
                match (&b, kinds.contains(&kind.as_str())) {
                    (Ok(l), true) => {
                        let r = r.map_err(|e| format!("as one of {kinds:?}: {e}"))?;
                        let w = serde_json::to_value(l).map_err(|e| e.to_string())?;
                        ensure!(r == w, "read as one of {kinds:?} and written, the layout is {r}");
                        g.label("kind")
                    }
                    (Ok(_), false) => ensure!(r.is_err(), "a layout of type {kind} is read as one of {kinds:?}"),
                    (Err(e), _) => ensure!(r.is_err(), "a malformed layout is read as one of {kinds:?}, not as a layout ({e})"),
                }
            }
        }
        match (&a, &b) {
            (Ok(x), Ok(y)) => {
                g.label("accepted");
                g.nontrivial |= nodes(d) >= 6;
                ensure!(x == y, "the two readers of the JSON syntax disagree\n  with positions: {x:?}\n  serde: {y:?}")
            }
            (Err(_), Err(_)) => {
                g.label("rejected");
                g.nontrivial |= nodes(d) >= 6;
            }
            (Ok(_), Err(e)) => fail!("the serde reader rejects a layout the other reader accepts: {e}"),
            (Err(e), Ok(y)) => fail!("the serde reader accepts a layout the other reader rejects ({e}), as {y:?}"),
        }
    }
    Ok(if checked { Outcome::Pass } else { Outcome::Discard })
}
fn p19_same(text: &str) -> Result<(), String> {
    match (parse_syn(text), read_serde(text)) {
        (Ok(x), Ok(y)) if x == y => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("{text}: with positions {}, serde {}", if a.is_ok() { "accepts" } else { "rejects" }, if b.is_ok() { "accepts" } else { "rejects" })),
    }
}
fn p19_list() -> Result<(), String> {
    p19_same(r#"{"type":"set","item":["http://ex.org/l"]}"#)?;
    p19_same(r#"{"type":"record","fields":{"a":{"value":["http://ex.org/l"]}}}"#)
}
fn p19_null() -> Result<(), String> {
    p19_same(r#"{"type":"string","datatype":null}"#)
}
fn p19_minus() -> Result<(), String> {
    p19_same(r#"{"type":"unit","extra":{"http://ex.org/p":-0}}"#)
}
pub const P19: Prop = Prop {
    id: "P19",
    quick: 120_000,
    thorough: 1_000_000,
    rule: "the document has at least six nodes",
    run: p19,
    known: &[("list-as-object", "the serde reader accepts a list where an object is expected", p19_list), ("null-entry", "the serde reader accepts null for optional entries", p19_null), ("minus-zero", "the serde reader rejects -0 as an integer", p19_minus)],
};

// ---------------------------------------------------------------- P20
fn p20(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let docs = wild_docs(g, depth, 2);
    let mut first = vec![];
    let mut second = vec![];
    for d in &docs {
        let text = d.to_string();
        let Ok(x) = parse_syn(&text) else { continue };
        let mut exact = true;
        walk(Ctx::Layout, d, &mut |c, j| {
            if c == Ctx::Const {
                exact &= numbers_exact(j)
            }
        });
        if !exact {
            g.label("inexact constant");
            continue;
        }
        g.note("layout", &text);
        g.nontrivial |= nodes(d) >= 8;
        let out = match serde_json::to_string(&x) {
            Ok(t) => t,
            Err(e) => fail!("a layout cannot be written: {e}"),
        };
        let y = match read_serde(&out) {
            Ok(y) => y,
            Err(e) => fail!("a written layout cannot be read back: {e}\n  written: {out}"),
        };
        if !out.contains("{}") {
            match parse_syn(&out) {
                Ok(z) => ensure!(z == y, "the readers disagree on a written layout {out}"),
                Err(e) => fail!("a written layout cannot be read back with positions: {e}\n  written: {out}"),
            }
        }
        let again = serde_json::to_string(&y).map_err(|e| e.to_string())?;
        ensure!(again == out, "writing what was read back gives something else\n  first: {out}\n  then: {again}");
        first.push(x);
        second.push(y);
    }
    if first.is_empty() {
        return Ok(Outcome::Discard);
    }
    match (compile(&first), compile(&second)) {
        (Ok(a), Ok(b)) => {
            g.label("compiled");
            ensure!(a.1 == b.1, "the layouts get other identifiers after a write: {:?} {:?}", a.1, b.1);
            let (x, y): (Vec<_>, Vec<_>) = (a.0.iter().collect(), b.0.iter().collect());
            ensure!(x == y, "layouts compile to something else once written and read back\n  before: {x:?}\n  after: {y:?}");
            for (id, l) in x {
                if !l.extra_properties().is_empty() {
                    g.label("extra");
                    continue;
                }
                let t = serde_json::to_string(l).map_err(|e| format!("a compiled layout cannot be written: {e}"))?;
                let m: Layout = match serde_json::from_str(&t) {
                    Ok(m) => m,
                    Err(e) => fail!("a compiled layout cannot be read back: {e}\n  written: {t}"),
                };
                ensure!(m == *l, "compiled layout {id} changes once written and read back\n  before: {l:?}\n  after: {m:?}");
                ensure!(m.cmp(l) == std::cmp::Ordering::Equal && hash(&m) == hash(l), "equal layouts do not compare or hash equal");
            }
        }
        (Err(a), Err(b)) => {
            g.label("not compiled");
            ensure!(a == b, "the build error changes once written and read back: {a}, then {b}")
        }
        (Ok(_), Err(e)) => fail!("a layout cannot be compiled anymore once written and read back: {e}"),
        (Err(e), Ok(_)) => fail!("a layout that cannot be compiled ({e}) can be once written and read back"),
    }
    Ok(Outcome::Pass)
}
/// Numbers of constants are written as 64 bit integers or floats.
fn numbers_exact(j: &J) -> bool {
    match j {
        J::Num(n) => {
            let Ok(x) = serde_json::from_str::<Value>(n) else { return false };
            let t = serde_json::to_string(&x).unwrap_or_default();
            parse_const(&t) == parse_const(n)
        }
        J::Arr(a) => a.iter().all(numbers_exact),
        J::Obj(o) => o.iter().all(|e| numbers_exact(&e.1)),
        _ => true,
    }
}
fn parse_const(t: &str) -> Option<Value> {
    json_syntax::Value::parse_str(t).ok().map(|v| v.0.into())
}
fn hash(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn p20_extra() -> Result<(), String> {
    let l = parse_syn(r#"{"type":"unit","id":"http://ex.org/l","extra":{"http://ex.org/p":"x"}}"#)?;
    let (all, tops) = compile(&[l])?;
    let l = all.get(&tops[0]).unwrap();
    let t = serde_json::to_string(l).map_err(|e| format!("compiled layout with an extra property: {e}"))?;
    let m: Layout = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    if m == *l {
        Ok(())
    } else {
        Err("changed".into())
    }
}
pub const P20: Prop = Prop {
    id: "P20",
    quick: 80_000,
    thorough: 800_000,
    rule: "a document has at least eight nodes and is read",
    run: p20,
    known: &[("compiled-extra", "compiled layouts with extra properties cannot be written as JSON", p20_extra)],
};

// ---------------------------------------------------------------- P23
fn same_fault(e: &SynError, f: &Fault) -> bool {
    match (e, f) {
        (SynError::Unexpected { .. }, Fault::Unexpected) => true,
        (SynError::MissingRequiredEntry { key, .. }, Fault::Missing(k)) => key == k,
        (SynError::DuplicateEntry { key, .. }, Fault::Duplicate(k)) => key == k,
        (SynError::UnexpectedEntry { key, .. }, Fault::Entry(k)) => key == k,
        (SynError::MissingType(_), Fault::NoType) => true,
        (SynError::InvalidType { .. }, Fault::BadType) => true,
        (SynError::InvalidRegex(..), Fault::Regex) => true,
        (SynError::InvalidPattern(..), Fault::Pattern) => true,
        (SynError::InvalidLangTag(..), Fault::Lang) => true,
        (SynError::InvalidCompactIri(..), Fault::Iri) => true,
        (SynError::MissingQuadPattern(_), Fault::FewQuad) => true,
        (SynError::TooManyQuadPatterns(_), Fault::ManyQuad) => true,
        (SynError::ExpectedInteger(..), Fault::Int) => true,
        (SynError::IntegerOverflow(..), Fault::Overflow) => true,
        _ => false,
    }
}
type KindReader = (fn(&json_syntax::Object, &json_syntax::CodeMap) -> Result<(), SynError>, fn(&str) -> Result<serde_json::Value, String>);
fn kind_reader<T: json_syntax::TryFromJsonObject<Error = SynError> + serde::Serialize + serde::de::DeserializeOwned>() -> KindReader {
    (read_kind::<T>, |text| serde_json::from_str::<T>(text).map_err(|e| e.to_string()).and_then(|x| serde_json::to_value(&x).map_err(|e| format!("writing fails: {e}"))))
}
fn read_kind<T: json_syntax::TryFromJsonObject<Error = SynError>>(o: &json_syntax::Object, m: &json_syntax::CodeMap) -> Result<(), SynError> {
    T::try_from_json_object(o, m).map(|_| ())
}
/// The readers of layouts of some kinds only.
fn kind_readers() -> Vec<(&'static [&'static str], KindReader)> {
    use treeldr_layouts::abs::syntax as a;
    vec![
        (&["id", "unit", "boolean", "number", "bytes", "string"], kind_reader::<a::LiteralLayout>()),
        (&["unit", "boolean", "number", "bytes", "string"], kind_reader::<a::DataLayout>()),
        (&["id"], kind_reader::<a::IdLayout>()),
        (&["unit"], kind_reader::<a::UnitLayout>()),
        (&["boolean"], kind_reader::<a::BooleanLayout>()),
        (&["number"], kind_reader::<a::NumberLayout>()),
        (&["bytes"], kind_reader::<a::ByteStringLayout>()),
        (&["string"], kind_reader::<a::TextStringLayout>()),
        (&["record"], kind_reader::<a::ProductLayout>()),
        (&["sum"], kind_reader::<a::SumLayout>()),
        (&["list", "set", "tuple"], kind_reader::<a::ListLayout>()),
        (&["list"], kind_reader::<a::OrderedListLayout>()),
        (&["set"], kind_reader::<a::UnorderedListLayout>()),
        (&["tuple"], kind_reader::<a::SizedListLayout>()),
        (&["union"], kind_reader::<a::UnionLayout>()),
        (&["intersection"], kind_reader::<a::IntersectionLayout>()),
    ]
}
/// Reads a document as a layout of some kinds.
fn p23_kind(g: &mut G, d: &J, found: &[Found], printed: &Printed, json: &json_syntax::Value, map: &json_syntax::CodeMap) -> Result<(), String> {
    let (J::Obj(o), json_syntax::Value::Object(object)) = (d, json) else { return Ok(()) };
    let types: Vec<usize> = (0..o.len()).filter(|i| o[*i].0 == "type").collect();
    let [at] = types[..] else { return Ok(()) };
    let J::Str(kind) = &o[at].1 else { return Ok(()) };
    let readers = kind_readers();
    let fit: Vec<usize> = (0..readers.len()).filter(|i| readers[*i].0.contains(&kind.as_str())).collect();
    let i = if !fit.is_empty() && g.bool() { *g.pick(&fit) } else { g.below(readers.len()) };
    let (kinds, read) = &readers[i];
    g.note("kinds", format!("{kinds:?}"));
    let r = read.0(object, map);
    let fits = kinds.contains(&kind.as_str());
    let e = match r {
        Ok(()) => {
            ensure!(fits, "a layout of type `{kind}` is read as one of {kinds:?}");
            ensure!(found.is_empty(), "a malformed layout is read as one of {kinds:?}: {:?}", found);
            return Ok(());
        }
        Err(e) => e,
    };
    ensure!(!fits || !found.is_empty(), "a well-formed layout of type `{kind}` is rejected as one of {kinds:?}: {e}");
    let Some(m) = map.get(e.position()) else { fail!("the position of error `{e}` is not one of the document") };
    let span = (m.span.start(), m.span.end());
    if let SynError::InvalidType { .. } = &e {
        if printed.spans.get(&vec![Step::Entry(at)]) == Some(&span) {
            ensure!(!fits, "type `{kind}` is refused as one of {kinds:?}");
            let text: Vec<String> = e.hints().iter().map(|h| h.to_string()).collect();
            ensure!(text.len() == 2, "an invalid type without hints");
            let named: std::collections::BTreeSet<&str> = text[0].split('`').skip(1).step_by(2).collect();
            ensure!(named == kinds.iter().copied().collect(), "hint `{}` does not list {kinds:?}", text[0]);
            ensure!(text[1].contains(kind.as_str()), "hint `{}` is not about `{kind}`", text[1]);
            g.label("kind: other type");
            return Ok(());
        }
    }
    let hit = found.iter().any(|f| same_fault(&e, &f.fault) && printed.spans.get(&f.path) == Some(&span));
    ensure!(hit, "as one of {kinds:?}: error `{e}` ({e:?}) is reported at {span:?} `{}`; expected one of {:?}", &printed.text[span.0..span.1], found);
    g.label("kind: other error");
    Ok(())
}
fn p23(g: &mut G) -> R {
    let depth = 1 + g.below(2);
    let docs = wild_docs(g, depth, 3);
    for d in &docs {
        let found = faults(Ctx::Layout, d);
        let printed = print(d, Some(g));
        g.note("layout", &printed.text);
        let (json, map) = json_syntax::Value::parse_str(&printed.text).map_err(|e| format!("harness: bad JSON {e}"))?;
        p23_kind(g, d, &found, &printed, &json, &map)?;
        let r = SynLayout::try_from_json(&json, &map);
        let e = match (r, found.is_empty()) {
            (Ok(_), true) => {
                g.label("well-formed");
                continue;
            }
            (Ok(_), false) => fail!("a malformed layout is read: {:?}", found),
            (Err(e), true) => fail!("a well-formed layout is rejected: {e} at {:?}", map.get(e.position()).map(|x| x.span)),
            (Err(e), false) => e,
        };
        g.nontrivial = true;
        g.label(if found.len() == 1 { "one error" } else { "several errors" });
        let Some(m) = map.get(e.position()) else { fail!("the position of error `{e}` is not one of the document") };
        let span = (m.span.start(), m.span.end());
        let hit = found.iter().any(|f| same_fault(&e, &f.fault) && printed.spans.get(&f.path) == Some(&span));
        if !hit {
            let expect: Vec<String> = found.iter().map(|f| format!("{:?} at {:?}", f.fault, printed.spans.get(&f.path))).collect();
            fail!("error `{e}` ({e:?}) is reported at {span:?} `{}`; expected one of {}", &printed.text[span.0..span.1], expect.join(", "));
        }
        match &e {
            SynError::DuplicateEntry { key, offset, .. } => {
                let hints = e.hints();
                let [ErrorHint::DuplicateEntry(o)] = hints[..] else { fail!("a duplicate entry without a hint") };
                ensure!(o != *offset, "the hint of a duplicate entry is the entry itself");
                ensure!(hints[0].position() == Some(o), "the hint of a duplicate entry has no position");
                let Some(m) = map.get(o) else { fail!("the hint of a duplicate entry is nowhere") };
                let s = (m.span.start(), m.span.end());
                let ok = found.iter().any(|f| f.fault == Fault::Duplicate(key.clone()) && printed.spans.get(&f.path) == Some(&s));
                ensure!(ok, "the hint of a duplicate entry `{key}` is `{}`", &printed.text[s.0..s.1]);
                g.label("duplicate");
            }
            SynError::InvalidType { .. } => {
                let hints = e.hints();
                let text: Vec<String> = hints.iter().map(|h| h.to_string()).collect();
                ensure!(text.len() == 2, "an invalid type without hints");
                ensure!(KINDS.iter().all(|k| text[0].contains(&format!("`{k}`"))), "hint `{}` does not list all the types", text[0]);
                g.label("bad type");
            }
            SynError::Unexpected { expected, found, .. } => {
                ensure!(!(*expected & *found).iter().next().is_some(), "expected {expected}, found {found}");
                let k = match printed.text.as_bytes()[span.0] {
                    b'{' => json_syntax::Kind::Object,
                    b'[' => json_syntax::Kind::Array,
                    b'"' => json_syntax::Kind::String,
                    b't' | b'f' => json_syntax::Kind::Boolean,
                    b'n' => json_syntax::Kind::Null,
                    _ => json_syntax::Kind::Number,
                };
                ensure!(*found == k, "expected {expected}, found {found} at a {k}");
                g.label("unexpected kind");
            }
            _ => (),
        }
    }
    Ok(Outcome::Pass)
}
pub const P23: Prop = Prop { id: "P23", quick: 120_000, thorough: 1_000_000, rule: "a document is malformed", run: p23, known: &[] };

// ---------------------------------------------------------------- P21
pub fn same_build_error(e: &BuildError, f: &BErr) -> bool {
    match (e, f) {
        (BuildError::NoBaseIri(i), BErr::NoBase(s)) => i.as_str() == s,
        (BuildError::InvalidIri(i), BErr::InvalidIri(s)) => i == s,
        (BuildError::UndeclaredVariable(x), BErr::Undeclared(y)) => x == y,
        (BuildError::LayoutRedefinition, BErr::Redefinition) => true,
        (BuildError::MissingLiteralTargetResource, BErr::MissingTarget) => true,
        (BuildError::NoPropertySubject, BErr::NoSubject) => true,
        (BuildError::NoPropertyObject, BErr::NoObject) => true,
        (BuildError::UnsupportedLayout(x), BErr::Unsupported(y)) => x == y,
        _ => false,
    }
}
pub fn build_all(all: &[SynLayout]) -> Result<(Layouts, Vec<Ref<LayoutType>>), BuildError> {
    let mut builder = Builder::new();
    let mut tops = vec![];
    {
        let mut ctx = builder.with_generator_mut(generator::Blank::new());
        for l in all {
            tops.push(l.build_with_context(&mut ctx)?);
        }
    }
    Ok((builder.build(), tops))
}
/// Builds each document on its own, in the same builder.
pub fn build_each(all: &[SynLayout]) -> Result<(Layouts, Vec<Ref<LayoutType>>), BuildError> {
    let mut builder = Builder::new();
    let tops = all.iter().map(|l| l.build(&mut builder)).collect::<Result<_, _>>()?;
    Ok((builder.build(), tops))
}
fn untyped(l: Layouts) -> std::collections::BTreeMap<Term, Layout> {
    l.into_iter().map(|(r, l)| (r.into_id(), l)).collect()
}
fn p21(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let n = *g.pick(&[0, 0, 1, 2]);
    let plain = wild_docs(g, depth, n);
    if plain.iter().any(|d| !faults(Ctx::Layout, d).is_empty()) {
        return Ok(Outcome::Discard);
    }
    let mut docs = plain.clone();
    let mut used = 0;
    if g.chance(2, 3) {
        for d in &mut docs {
            compact(g, Ctx::Layout, d, &Sc::default(), &mut used);
        }
    }
    note_docs(g, &docs);
    let mut c = Compiler::default();
    let tops: Vec<Ref<LayoutType>> = docs.iter().map(|d| c.layout(d, &Sc::default())).collect();
    if c.duplicates {
        return Ok(Outcome::Discard);
    }
    let mut syn = vec![];
    for d in &docs {
        match parse_syn(&d.to_string()) {
            Ok(l) => syn.push(l),
            Err(e) => fail!("a well-formed layout is rejected: {e}"),
        }
    }
    if used > 0 {
        g.label("compact IRIs")
    }
    let one_by_one = g.bool();
    if one_by_one {
        g.label("built one by one")
    }
    let (layouts, real) = match if one_by_one { build_each(&syn) } else { build_all(&syn) } {
        Ok(r) => r,
        Err(e) => {
            ensure!(c.errors.iter().any(|f| same_build_error(&e, f)), "build error `{e}`; expected {}", if c.errors.is_empty() { "none".to_string() } else { format!("one of {:?}", c.errors) });
            g.label("build error");
            g.nontrivial = true;
            return Ok(Outcome::Pass);
        }
    };
    ensure!(c.errors.is_empty(), "a layout with errors {:?} is compiled", c.errors);
    g.label("compiled");
    g.nontrivial = docs.iter().map(nodes).sum::<usize>() >= 10;
    let real = canonical(untyped(layouts), &real);
    let want = canonical(c.layouts, &tops);
    for (id, w) in &want {
        match real.get(id) {
            None => fail!("layout {id} is not compiled"),
            Some(r) => ensure!(r == w, "layout {id} compiles to something else\n  expected: {w:?}\n  got: {r:?}"),
        }
    }
    ensure!(real.len() == want.len(), "{} layouts are compiled instead of {}", real.len(), want.len());
    // The same layouts without compact IRIs (changed documents may have relative ones).
    if used > 0 && n == 0 {
        let mut syn = vec![];
        for d in &plain {
            syn.push(parse_syn(&d.to_string())?)
        }
        if let Ok((l, t)) = build_all(&syn) {
            let l = canonical(untyped(l), &t);
            ensure!(l == real, "compact IRIs change the layouts\n  without: {l:?}\n  with: {real:?}");
        }
    }
    Ok(Outcome::Pass)
}
pub const P21: Prop = Prop { id: "P21", quick: 100_000, thorough: 1_000_000, rule: "the documents have ten nodes, or an error", run: p21, known: &[] };
