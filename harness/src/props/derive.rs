//! Rust types derived with `SerializeLd` and `DeserializeLd`.
use super::distill::*;
use crate::drv::{subject, CYCLIC, table, value_constants, Entry, WIDTHS};
use crate::engine::*;
use crate::gen::*;
use crate::ints::*;
use crate::model::*;
use crate::sys::*;
use crate::{ensure, fail};
use rdf_types::{Quad, Term};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use treeldr_layouts::Value;

thread_local! { static SUBJECTS: RefCell<HashMap<usize, &'static (World, Sys)>> = RefCell::new(HashMap::new()); }
fn pick(g: &mut G) -> (&'static Entry, &'static (World, Sys)) {
    let e = &table()[g.below(table().len() - table().iter().any(|e| e.index == CYCLIC) as usize)];
    let s = SUBJECTS.with(|m| *m.borrow_mut().entry(e.index).or_insert_with(|| Box::leak(Box::new(subject(e)))));
    for d in &s.0.docs {
        g.note("layout", layout_json(d, &mut Plain));
    }
    label_layout(g, &s.0.docs);
    g.note("type", format!("m{}.rs", e.index));
    (e, s)
}
fn value(g: &mut G, w: &World) -> Value {
    let depth = g.range(1, 5);
    let x = Vg::new(g).long().value(w.top(), &w.reg(), depth);
    g.note("value", show_value(&x));
    x
}

/// The graph the values are written in.
fn start(g: &mut G, w: &World) -> Option<Term> {
    let graph = match g.below(4) {
        0 => iri_term("http://ex.org/start"),
        1 => iri_term(g.pick(&layout_iris(w.top()).into_iter().chain(["http://ex.org/start".to_string()]).collect::<Vec<_>>())),
        _ => return None,
    };
    g.label("from a graph");
    g.note("graph", &graph);
    Some(graph)
}

fn p27(g: &mut G) -> R {
    let (e, (w, _)) = pick(g);
    let x = value(g, w);
    let graph = start(g, w);
    let graph = graph.as_ref();
    g.nontrivial = value_size(&x) >= 3;
    let reg = w.reg();
    let cx = canon(w.top(), &reg, &x);
    let (quads, inputs) = match (e.ser)(&x, graph) {
        None => return Ok(Outcome::Discard),
        Some(Ok(r)) => r,
        Some(Err(m)) => fail!("cannot be written: {m}"),
    };
    match (e.de)(&quads, graph, &inputs) {
        Err(m) => fail!("the value does not come back from its dataset: {m}\n  dataset: {} / {}", show_quads(&quads), show_terms(&inputs)),
        Ok(y) => {
            let cy = canon(w.top(), &reg, &y);
            ensure!(cx == cy, "another value comes back from the dataset: {}\n  dataset: {} / {}", show_value(&y), show_quads(&quads), show_terms(&inputs));
        }
    }
    // From an interpretation where the unused terms of the layout are unknown.
    match (e.de_indexed)(&quads, graph, &inputs, &value_constants(&w.docs), &[]) {
        Err(m) => fail!("the value does not come back from its interpreted dataset: {m}\n  dataset: {} / {}", show_quads(&quads), show_terms(&inputs)),
        Ok(y) => {
            let cy = canon(w.top(), &reg, &y);
            ensure!(cx == cy, "another value comes back from the interpreted dataset: {}\n  dataset: {} / {}", show_value(&y), show_quads(&quads), show_terms(&inputs));
        }
    }
    Ok(Outcome::Pass)
}
pub const P27: Prop = Prop { id: "P27", quick: 60_000, thorough: 1_000_000, rule: "the value has at least three nodes", run: p27, known: &[] };

/// Whether a text denotes a number of an integer type.
fn fits(s: &str, ty: &str) -> bool {
    if ty.starts_with('u') && s.starts_with('-') {
        return false;
    }
    let digits = s.strip_prefix(['+', '-']).unwrap_or(s);
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return false;
    }
    let Ok(n) = s.parse::<i128>() else { return false };
    let (lo, hi): (i128, i128) = match ty {
        "u8" => (0, u8::MAX.into()),
        "u16" => (0, u16::MAX.into()),
        "u32" => (0, u32::MAX.into()),
        "u64" => (0, u64::MAX.into()),
        "i8" => (i8::MIN.into(), i8::MAX.into()),
        "i16" => (i16::MIN.into(), i16::MAX.into()),
        "i32" => (i32::MIN.into(), i32::MAX.into()),
        _ => (i64::MIN.into(), i64::MAX.into()),
    };
    lo <= n && n <= hi
}

fn hydrate(sys: &Sys, quads: &[Quad], graph: Option<&Term>, inputs: &[Term]) -> Result<Value, String> {
    match graph {
        None => sys.hydrate(quads, inputs).map_err(|e| e.to_string()),
        Some(_) => sys.hydrate_scan(quads, graph, inputs).map(|t| t.into_untyped()).map_err(|e| e.to_string()),
    }
}
fn p28(g: &mut G) -> R {
    let (e, (w, sys)) = pick(g);
    let x = value(g, w);
    let reg = w.reg();
    let cx = canon(w.top(), &reg, &x);
    let graph = start(g, w);
    let graph = graph.as_ref();
    let (q1, i1) = match graph {
        None => match sys.dehydrate(&x) {
            Ok(r) => r,
            Err(m) => fail!("dehydration fails: {m}"),
        },
        Some(_) => {
            let text: Vec<J> = w.docs.iter().map(|d| layout_json(d, &mut Plain)).collect();
            let mut ints = IntSys::compile(&text, g.below(256) as u32).map_err(|m| format!("compiled with terms, not with other resources: {m}"))?;
            match ints.dehydrate(&x, graph, w.top().hk().unwrap().0.input.len()) {
                Ok(r) => r,
                Err(m) => fail!("dehydration in a graph fails: {m}"),
            }
        }
    };
    let (q2, i2) = match (e.ser)(&x, graph) {
        None => return Ok(Outcome::Discard),
        Some(Ok(r)) => r,
        Some(Err(m)) => fail!("the derived serialization fails: {m}"),
    };
    g.nontrivial = q1.len() >= 2;
    ensure!(isomorphic(&q1, &i1, &q2, &i2), "different datasets\n  layout: {} / {}\n  type: {} / {}", show_quads(&q1), show_terms(&i1), show_quads(&q2), show_terms(&i2));
    match hydrate(sys, &q2, graph, &i2) {
        Ok(y) => ensure!(cx == canon(w.top(), &reg, &y), "the dataset of the type hydrates to {}", show_value(&y)),
        Err(m) => fail!("the dataset of the type cannot be hydrated: {m}"),
    }
    // A changed dataset.
    let mut quads = q1;
    let n = g.below(4);
    if n == 0 {
        return Ok(Outcome::Pass);
    }
    let pool: Vec<Term> = layout_iris(w.top()).iter().map(|i| iri_term(i)).collect();
    for _ in 0..n {
        mutate_quads(g, &mut quads, &i1, &pool);
    }
    g.note("dataset", show_quads(&quads));
    g.note("inputs", show_terms(&i1));
    let mut hy = Hy::new(reg.clone(), &quads);
    let _ = hy.hy(w.top(), &i1, &graph.cloned());
    // See the known finding. The Rust identifiers may be blank nodes.
    if hy.overflow || hy.cyclic || hy.blank {
        return Ok(Outcome::Discard);
    }
    // Layouts read any number, whatever the range of the datatype.
    let in_type = |t: &Term| match t {
        Term::Literal(l) => match &l.type_ {
            rdf_types::LiteralType::Any(dt) if WIDTHS.iter().any(|w| *dt == *xsd(w.0)) => fits(&l.value, WIDTHS.iter().find(|w| *dt == *xsd(w.0)).unwrap().1),
            _ => true,
        },
        _ => true,
    };
    if !quads.iter().flat_map(quad_terms).chain(&i1).all(in_type) {
        return Ok(Outcome::Discard);
    }
    if g.chance(1, 3) {
        return aliased(g, e, w, quads, graph, i1);
    }
    let z = (e.de)(&quads, graph, &i1);
    match ((e.de_indexed)(&quads, graph, &i1, &value_constants(&w.docs), &[]), &z) {
        (Ok(y), Ok(z)) => ensure!(canon(w.top(), &reg, &y) == canon(w.top(), &reg, z), "read differently through an interpretation\n  terms: {}\n  interpretation: {}", show_value(z), show_value(&y)),
        (Err(_), Err(_)) => (),
        (Ok(y), Err(m)) => fail!("refused ({m}) from terms but read from an interpretation: {}", show_value(&y)),
        (Err(m), Ok(z)) => fail!("refused ({m}) from an interpretation but read from terms: {}", show_value(z)),
    }
    match (hydrate(sys, &quads, graph, &i1), z) {
        (Ok(y), Ok(z)) => {
            g.label("read");
            ensure!(canon(w.top(), &reg, &y) == canon(w.top(), &reg, &z), "read differently\n  layout: {}\n  type: {}", show_value(&y), show_value(&z));
        }
        (Err(_), Err(_)) => g.label("refused"),
        (Ok(y), Err(m)) => fail!("the type refuses ({m}) what the layout reads as {}", show_value(&y)),
        (Err(m), Ok(z)) => fail!("the type reads {} what the layout refuses: {m}", show_value(&z)),
    }
    Ok(Outcome::Pass)
}
/// Resources with several terms.
fn aliased(g: &mut G, e: &Entry, w: &World, quads: Vec<Quad>, graph: Option<&Term>, inputs: Vec<Term>) -> R {
    let terms: Vec<Term> = quads.iter().flat_map(quad_terms).chain(&inputs).cloned().collect::<BTreeSet<_>>().into_iter().collect();
    if terms.is_empty() {
        return Ok(Outcome::Pass);
    }
    let text: Vec<J> = w.docs.iter().map(|d| layout_json(d, &mut Plain)).collect();
    let mut ints = IntSys::compile(&text, g.below(256) as u32).map_err(|m| format!("compiled with terms, not with other resources: {m}"))?;
    let mut used: BTreeSet<Term> = terms.iter().cloned().collect();
    let literals: Vec<Term> = terms.iter().filter(|t| matches!(t, Term::Literal(_))).cloned().collect();
    let mut aliases = vec![];
    for i in 0..1 + g.below(2) {
        let t = if !literals.is_empty() && g.bool() { g.pick(&literals).clone() } else { g.pick(&terms).clone() };
        let u = match (&t, g.below(4)) {
            (Term::Literal(l), 0..=2) => {
                let value = match g.below(3) {
                    0 => g.clone_pick(&["1", "0", "true", "false", "x", "7", ""]).to_string(),
                    _ => format!("{}{}", g.clone_pick(&["0", "+", "1", "-", " "]), l.value),
                };
                Term::Literal(rdf_types::Literal::new(value, l.type_.clone()))
            }
            (Term::Id(_), 0) => blank_term(&format!("alias{i}")),
            (_, 1) => lit_term(&format!("{i}"), &xsd(g.clone_pick(&["string", "boolean", "unsignedByte", "int"]))),
            _ => iri_term(&format!("http://ex.org/alias/{i}")),
        };
        if used.insert(u.clone()) {
            aliases.push((t, u));
        }
    }
    g.note("aliases", aliases.iter().map(|(t, u)| format!("{t} = {u}")).collect::<Vec<_>>().join(", "));
    for (t, u) in &aliases {
        let r = ints.ints.term(t);
        ints.ints.alias(r, u);
    }
    let in_type = |t: &Term| match t {
        Term::Literal(l) => match &l.type_ {
            rdf_types::LiteralType::Any(dt) => match WIDTHS.iter().find(|w| *dt == *xsd(w.0)) {
                Some(w) => fits(&l.value, w.1) || l.value.contains(['x', ' ', 't', 'f']) || l.value.is_empty(),
                None => true,
            },
            _ => true,
        },
        _ => true,
    };
    if !aliases.iter().all(|a| in_type(&a.1)) {
        return Ok(Outcome::Discard);
    }
    g.label("several terms");
    let reg = w.reg();
    let got = (e.de_indexed)(&quads, graph, &inputs, &value_constants(&w.docs), &aliases);
    match (ints.hydrate(&quads, graph, &inputs).map(|t| t.into_untyped()), got) {
        (Ok(y), Ok(z)) => ensure!(canon(w.top(), &reg, &y) == canon(w.top(), &reg, &z), "read differently\n  layout: {}\n  type: {}", show_value(&y), show_value(&z)),
        (Err(_), Err(_)) => (),
        (Ok(y), Err(m)) => fail!("the type refuses ({m}) what the layout reads as {}", show_value(&y)),
        (Err(_), Ok(z)) => fail!("the type reads {} what the layout refuses", show_value(&z)),
    }
    Ok(Outcome::Pass)
}
pub const P28: Prop = Prop { id: "P28", quick: 60_000, thorough: 1_000_000, rule: "the dataset of the value has at least two quads", run: p28, known: &[("cyclic-data", "deserializing cyclic data with a recursive derived type (a set of itself, a node linked to itself) never ends and exhausts the stack, instead of being refused", cyclic)] };

fn cyclic() -> Result<(), String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("cyclic").output().map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    match o.status.code() {
        Some(0) if out.starts_with("refused") => Ok(()),
        Some(0) => Err(out),
        _ => Err(format!("the process dies: {}", String::from_utf8_lossy(&o.stderr).trim())),
    }
}

/// Both, on types made by the code generator.
fn p29(g: &mut G) -> R {
    if g.bool() {
        p27(g)
    } else {
        p28(g)
    }
}
pub const P29: Prop = Prop { id: "P29", quick: 60_000, thorough: 1_000_000, rule: "the value has at least three nodes, or its dataset two quads", run: p29, known: &[] };
