//! Rust types derived from layouts: a program declaring random types with the
//! `SerializeLd` and `DeserializeLd` macros is generated, compiled, and linked
//! with this library to run the checks on them.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sys::*;
use rdf_types::dataset::{BTreeDataset, TraversableDataset};
use rdf_types::interpretation::Indexed as Interp;
use rdf_types::vocabulary::{BlankIdIndex, BlankIdVocabulary, IndexVocabulary, IriIndex, IriVocabulary, LiteralIndex, LiteralVocabulary};
use rdf_types::{Id, InterpretationMut, LiteralTypeRef, Quad, Term};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::OnceLock;
use treeldr::{DeserializeLd, RdfContext, RdfContextMut, SerializeLd};
use treeldr_layouts::{Literal, Value};

// ---------------------------------------------------------------- trees
/// Conversion between a tree and a Rust value.
pub trait Tree: Sized {
    fn from_tree(x: &Value) -> Option<Self>;
    fn to_tree(&self) -> Value;
}
impl Tree for String {
    fn from_tree(x: &Value) -> Option<Self> {
        x.as_str().map(|s| s.to_string())
    }
    fn to_tree(&self) -> Value {
        Value::string(self.clone())
    }
}
impl Tree for bool {
    fn from_tree(x: &Value) -> Option<Self> {
        match x {
            Value::Literal(Literal::Boolean(b)) => Some(*b),
            _ => None,
        }
    }
    fn to_tree(&self) -> Value {
        Value::Literal(Literal::Boolean(*self))
    }
}
impl Tree for () {
    fn from_tree(x: &Value) -> Option<Self> {
        x.is_unit().then_some(())
    }
    fn to_tree(&self) -> Value {
        Value::unit()
    }
}
impl Tree for Id {
    fn from_tree(x: &Value) -> Option<Self> {
        iref::IriBuf::new(x.as_str()?.to_string()).ok().map(Id::Iri)
    }
    fn to_tree(&self) -> Value {
        Value::string(match self {
            Id::Iri(i) => i.as_str().to_string(),
            Id::Blank(b) => b.as_str().to_string(),
        })
    }
}
macro_rules! ints {
    ($($t:ident)*) => { $(impl Tree for $t {
        fn from_tree(x: &Value) -> Option<Self> {
            let Value::Literal(Literal::Number(n)) = x else { return None };
            let r = n.as_big_rational();
            r.is_integer().then(|| $t::try_from(r.to_integer()).ok()).flatten()
        }
        fn to_tree(&self) -> Value {
            num(num_rational::BigRational::from_integer((*self).into()))
        }
    })* };
}
ints! { u8 u16 u32 u64 i8 i16 i32 i64 }
impl<T: Tree> Tree for Vec<T> {
    fn from_tree(x: &Value) -> Option<Self> {
        match x {
            Value::List(l) => l.iter().map(T::from_tree).collect(),
            _ => None,
        }
    }
    fn to_tree(&self) -> Value {
        Value::List(self.iter().map(T::to_tree).collect())
    }
}
/// The entries of a map having no other keys than these.
pub fn map<'a>(x: &'a Value, keys: &[&str]) -> Option<&'a BTreeMap<Value, Value>> {
    match x {
        Value::Map(m) if m.keys().all(|k| k.as_str().is_some_and(|k| keys.contains(&k))) => Some(m),
        _ => None,
    }
}
pub fn req<T: Tree>(m: &BTreeMap<Value, Value>, k: &str) -> Option<T> {
    T::from_tree(m.get(&Value::string(k.to_string()))?)
}
pub fn opt<T: Tree>(m: &BTreeMap<Value, Value>, k: &str) -> Option<Option<T>> {
    match m.get(&Value::string(k.to_string())) {
        Some(x) => T::from_tree(x).map(Some),
        None => Some(None),
    }
}
pub fn put<T: Tree>(m: &mut BTreeMap<Value, Value>, k: &str, x: Option<&T>) {
    if let Some(x) = x {
        m.insert(Value::string(k.to_string()), x.to_tree());
    }
}
pub fn items(x: &Value, n: usize) -> Option<&[Value]> {
    match x {
        Value::List(l) if l.len() == n => Some(l),
        _ => None,
    }
}
pub fn kv(m: BTreeMap<Value, Value>) -> Value {
    Value::Map(m)
}
pub use treeldr_layouts::Value as V;

// ---------------------------------------------------------------- entries
type Ser = Result<(Vec<Quad>, Vec<Term>), String>;
pub struct Entry {
    pub index: usize,
    /// Serializes a tree, in a graph.
    pub ser: fn(&Value, Option<&Term>) -> Option<Ser>,
    /// Deserializes a dataset of terms, from a graph.
    pub de: fn(&[Quad], Option<&Term>, &[Term]) -> Result<Value, String>,
    /// Deserializes a dataset from an indexed interpretation, where IRIs may
    /// be unknown.
    pub de_indexed: fn(&[Quad], Option<&Term>, &[Term], &[String], &[(Term, Term)]) -> Result<Value, String>,
}
static TABLE: OnceLock<(Source, u64, Vec<Entry>)> = OnceLock::new();
pub fn install(source: Source, seed: u64, mut t: Vec<Entry>) {
    t.sort_by_key(|e| e.index);
    let _ = TABLE.set((source, seed, t));
}
pub fn installed() -> bool {
    TABLE.get().is_some()
}
pub fn table() -> &'static [Entry] {
    &TABLE.get().expect("no derived type").2
}
/// The layouts of an entry.
pub fn subject(e: &Entry) -> (World, Sys) {
    let t = TABLE.get().unwrap();
    let d = nth(t.0, t.1, e.index);
    let sys = Sys::compile(&d.docs.iter().map(|l| layout_json(l, &mut Plain)).collect::<Vec<_>>()).expect("well-formed layout");
    (World::new(d.docs), sys)
}

pub type Voc = IndexVocabulary<IriIndex, BlankIdIndex, LiteralIndex>;
use rdf_types::vocabulary::{BlankIdVocabularyMut, IriVocabularyMut, LiteralVocabularyMut};
/// The resource of a term.
fn intern(voc: &mut Voc, interp: &mut Interp, t: &Term) -> <Interp as rdf_types::Interpretation>::Resource {
    use rdf_types::interpretation::{BlankIdInterpretationMut, IriInterpretationMut, LiteralInterpretationMut};
    match t {
        Term::Id(Id::Iri(i)) => {
            let i = voc.insert(i);
            interp.interpret_iri(i)
        }
        Term::Id(Id::Blank(b)) => {
            let b = voc.insert_blank_id(b);
            interp.interpret_blank_id(b)
        }
        Term::Literal(l) => {
            let l = l.clone().insert_type_into_vocabulary(voc);
            let l = voc.insert_owned_literal(l);
            interp.interpret_literal(l)
        }
    }
}
fn write<T: SerializeLd<A, Voc, Interp>, const A: usize>(t: &T, graph: Option<&Term>) -> Result<(Voc, Interp, BTreeDataset<<Interp as rdf_types::Interpretation>::Resource>, [<Interp as rdf_types::Interpretation>::Resource; A]), String> {
    let mut voc = Voc::default();
    let mut interp = Interp::default();
    let inputs: [_; A] = std::array::from_fn(|_| interp.new_resource(&mut voc));
    let graph = graph.map(|t| intern(&mut voc, &mut interp, t));
    let mut out = BTreeDataset::new();
    t.serialize_ld_with(&mut RdfContextMut::new(&mut voc, &mut interp), &inputs, graph.as_ref(), &mut out).map_err(|_| "serialization error".to_string())?;
    Ok((voc, interp, out, inputs))
}
pub fn ser<T: Tree + SerializeLd<A, Voc, Interp>, const A: usize>(x: &Value, graph: Option<&Term>) -> Option<Ser> {
    let t = T::from_tree(x)?;
    Some(write::<T, A>(&t, graph).and_then(|(voc, interp, out, inputs)| {
        use rdf_types::interpretation::{ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation};
        let term = |r: &<Interp as rdf_types::Interpretation>::Resource| -> Result<Term, String> {
            let mut ts: Vec<Term> = vec![];
            for i in interp.iris_of(r) {
                ts.push(iri_term(voc.iri(i).unwrap().as_str()));
            }
            for b in interp.blank_ids_of(r) {
                ts.push(blank_term(&voc.blank_id(b).unwrap().as_str()[2..]));
            }
            for l in interp.literals_of(r) {
                let l = voc.literal(l).unwrap();
                ts.push(match l.type_ {
                    LiteralTypeRef::Any(t) => lit_term(l.value, voc.iri(t).unwrap().as_str()),
                    LiteralTypeRef::LangString(t) => Term::Literal(rdf_types::Literal::new(l.value.to_string(), rdf_types::LiteralType::LangString(t.to_owned()))),
                });
            }
            if ts.len() > 1 {
                return Err(format!("several terms for one resource: {}", ts.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ")));
            }
            Ok(ts.pop().unwrap_or_else(|| blank_term(&format!("z{}", usize::from(*r)))))
        };
        let mut quads = BTreeSet::new();
        for q in out.quads() {
            quads.insert(Quad(term(q.0)?, term(q.1)?, term(q.2)?, q.3.map(term).transpose()?));
        }
        Ok((quads.into_iter().collect(), inputs.iter().map(term).collect::<Result<_, _>>()?))
    }))
}
pub fn de<T: Tree + DeserializeLd<A, (), ()>, const A: usize>(quads: &[Quad], graph: Option<&Term>, inputs: &[Term]) -> Result<Value, String> {
    let inputs: &[Term; A] = inputs.try_into().map_err(|_| "inputs".to_string())?;
    T::deserialize_ld_with(RdfContext::new(&(), &()), &Scan(quads.to_vec()), graph, inputs).map(|t| t.to_tree()).map_err(|e| e.to_string())
}
/// Deserializes from an interpretation knowing only the terms of the dataset,
/// the inputs and `known`. The resources of the first terms of `aliases` have
/// the second ones too.
pub fn de_indexed<T: Tree + DeserializeLd<A, Voc, Interp>, const A: usize>(quads: &[Quad], graph: Option<&Term>, inputs: &[Term], known: &[String], aliases: &[(Term, Term)]) -> Result<Value, String> {
    use rdf_types::interpretation::{ReverseBlankIdInterpretationMut, ReverseIriInterpretationMut, ReverseLiteralInterpretationMut};
    let mut voc = Voc::default();
    let mut interp = Interp::default();
    let mut int = |t: &Term| intern(&mut voc, &mut interp, t);
    let quads: Vec<_> = quads.iter().map(|q| Quad(int(&q.0), int(&q.1), int(&q.2), q.3.as_ref().map(&mut int))).collect();
    let graph = graph.map(&mut int);
    let inputs: Vec<_> = inputs.iter().map(&mut int).collect();
    known.iter().for_each(|i| {
        int(&iri_term(i));
    });
    let aliases: Vec<_> = aliases.iter().map(|(t, u)| (int(t), u)).collect();
    for (r, u) in aliases {
        match u {
            Term::Id(Id::Iri(i)) => interp.assign_iri(&r, voc.insert(i)),
            Term::Id(Id::Blank(b)) => interp.assign_blank_id(&r, voc.insert_blank_id(b)),
            Term::Literal(l) => {
                let l = l.clone().insert_type_into_vocabulary(&mut voc);
                interp.assign_literal(&r, voc.insert_owned_literal(l))
            }
        };
    }
    let inputs: [_; A] = inputs.try_into().map_err(|_| "inputs".to_string())?;
    T::deserialize_ld_with(RdfContext::new(&voc, &interp), &Scan(quads), graph.as_ref(), &inputs).map(|t| t.to_tree()).map_err(|e| e.to_string())
}
/// The constants a layout uses as inputs, graphs, heads, tails and resources.
pub fn value_constants(docs: &[L]) -> Vec<String> {
    let mut out = vec![];
    for d in docs {
        d.visit(&mut |l| {
            let L::Def(d) = l else { return };
            let mut ps: Vec<&P> = vec![];
            let mut fs: Vec<&Fmt> = vec![];
            match &d.1 {
                K::Rec(a) => fs.extend(a.iter().map(|x| &x.item.value)),
                K::Sum(a) => fs.extend(a.iter().map(|x| &x.value)),
                K::Tuple(a) => fs.extend(a.iter().map(|x| &x.value)),
                K::Set(a) => fs.push(&a.value),
                K::List { head, tail, node } => {
                    fs.push(&node.value);
                    ps.extend([head, tail]);
                }
                K::Bool { res, .. } | K::Num { res, .. } | K::Str { res, .. } | K::Id { res, .. } => ps.extend(res),
                _ => (),
            }
            for f in fs {
                ps.extend(&f.input);
                ps.extend(f.graph.iter().flatten());
            }
            out.extend(ps.into_iter().filter_map(|p| match p {
                P::Iri(i) => Some(i.clone()),
                _ => None,
            }));
        });
    }
    out
}

// ---------------------------------------------------------------- types
pub struct Decl {
    pub docs: Vec<L>,
    pub source: String,
    /// Type of the first layout.
    top: String,
    /// Layout files the source refers to.
    files: Vec<(String, String)>,
}
/// Where the types come from.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Source {
    /// Written with the attributes of the derive macros.
    Macros,
    /// Made by the code generator.
    Generator,
}
impl Source {
    pub fn of(id: &str) -> Option<Self> {
        match id {
            "P27" | "P28" => Some(Self::Macros),
            "P29" => Some(Self::Generator),
            _ => None,
        }
    }
}
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
pub const WIDTHS: &[(&str, &str)] = &[
    ("unsignedByte", "u8"),
    ("unsignedShort", "u16"),
    ("unsignedInt", "u32"),
    ("unsignedLong", "u64"),
    ("byte", "i8"),
    ("short", "i16"),
    ("int", "i32"),
    ("long", "i64"),
];
/// Brings a layout in the scope of the derive macros.
pub fn sanitize(docs: &mut [L]) -> bool {
    let mut n = 0;
    let mut ok = true;
    let mut fix_q = |d: &mut Vec<Q>| {
        for q in d {
            for p in [&mut q.0, &mut q.1, &mut q.2].into_iter().chain(q.3.as_mut()) {
                if matches!(p, P::Lit(..)) {
                    n += 1;
                    *p = P::Iri(format!("{EX}k{n}"));
                }
            }
        }
    };
    for l in docs.iter_mut() {
        l.visit_mut(&mut |l| {
            match l {
                L::Any | L::Never => *l = L::Ref(format!("{PRELUDE}string")),
                _ => (),
            }
            let L::Def(d) = l else { return };
            d.0.extra.clear();
            fix_q(&mut d.0.dataset);
            match &mut d.1 {
                K::Unit(c) => *c = Value::unit(),
                K::Num { dt, .. } => {
                    if !WIDTHS.iter().any(|w| *dt == xsd(w.0)) {
                        *dt = xsd("int")
                    }
                }
                K::Bytes { .. } => ok = false,
                K::Rec(fs) => {
                    for f in fs {
                        fix_q(&mut f.item.dataset);
                        f.key = match f.key.as_str() {
                            "" => "empty".into(),
                            "x y" => "x_y".into(),
                            k => k.into(),
                        };
                    }
                }
                K::Sum(vs) => {
                    vs.retain(|x| x.name != "never");
                    let mut units = 0;
                    for x in vs {
                        fix_q(&mut x.dataset);
                        x.name = x.name.replace(' ', "");
                        if x.value.layout.hk().is_some_and(|d| matches!(d.1, K::Unit(_))) {
                            units += 1;
                        }
                    }
                    ok &= units < 2;
                }
                K::List { node, .. } => {
                    if let Some(d) = &mut node.dataset {
                        fix_q(d)
                    }
                }
                K::Set(i) => fix_q(&mut i.dataset),
                K::Tuple(is) => is.iter_mut().for_each(|i| fix_q(&mut i.dataset)),
                _ => (),
            }
        });
    }
    ok
}
struct Em<'a> {
    ids: HashMap<String, String>,
    names: HashMap<*const L, String>,
    g: &'a mut G,
    /// Whether the type has a base IRI instead of a prefix.
    base: bool,
}
/// Random but deterministic notations.
struct Notation<'a>(&'a mut G);
impl Style for Notation<'_> {
    fn alt(&mut self) -> bool {
        self.0.bool()
    }
}
fn strs(j: &J) -> Vec<String> {
    match j {
        J::Arr(a) => a.iter().map(text).collect(),
        j => vec![text(j)],
    }
}
fn text(j: &J) -> String {
    match j {
        J::Str(s) => s.clone(),
        j => panic!("unexpected {j}"),
    }
}
fn get<'a>(j: &'a J, k: &str) -> Option<&'a J> {
    match j {
        J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1),
        _ => None,
    }
}
impl Em<'_> {
    fn type_of(&self, l: &L) -> String {
        match l {
            L::Ref(i) => match i.strip_prefix(PRELUDE) {
                Some("string") => "String".into(),
                Some("id") => "::treeldr::rdf_types::Id".into(),
                Some("boolean") => "bool".into(),
                Some("unit") => "()".into(),
                Some(n) => n.into(),
                None => self.ids[i].clone(),
            },
            l => self.names[&(l as *const L)].clone(),
        }
    }
    fn lit(&mut self, s: &str, ex: bool) -> String {
        match s.strip_prefix(EX) {
            Some(r) if ex && self.g.bool() => match self.base && !r.is_empty() {
                true => format!("{r:?}"),
                false => format!("{:?}", format!("ex:{r}")),
            },
            _ => format!("{s:?}"),
        }
    }
    fn lits(&mut self, j: &J, ex: bool) -> String {
        strs(j).iter().map(|s| self.lit(s, ex)).collect::<Vec<_>>().join(", ")
    }
    fn dataset(&mut self, j: &J, ex: bool) -> String {
        let J::Arr(a) = j else { panic!() };
        let qs: Vec<String> = a.iter().map(|q| format!("({})", self.lits(q, ex))).collect();
        format!("dataset({})", qs.join(", "))
    }
    /// Writes attributes in a random arrangement.
    fn attrs(&mut self, mut parts: Vec<String>) -> String {
        self.g.shuffle(&mut parts);
        let mut out = String::new();
        let mut cur: Vec<String> = vec![];
        for p in parts {
            cur.push(p);
            if self.g.chance(1, 4) {
                let _ = writeln!(out, "#[tldr({})]", cur.join(", "));
                cur.clear();
            }
        }
        if !cur.is_empty() {
            let _ = writeln!(out, "#[tldr({})]", cur.join(", "));
        }
        out
    }
    /// Attributes of a field, variant or item.
    fn component(&mut self, j: &J, ex: bool) -> String {
        let mut parts = vec![];
        if let J::Obj(o) = j {
            for (k, x) in o {
                match k.as_str() {
                    "head" | "rest" => parts.push(format!("{k}({:?})", text(x))),
                    "intro" => parts.push(format!("intro({})", self.lits(x, false))),
                    "property" => parts.push(self.lit(&text(x), ex)),
                    "dataset" => parts.push(self.dataset(x, ex)),
                    "value" => {
                        if let Some(i) = get(x, "input") {
                            parts.push(format!("input({})", self.lits(i, ex)));
                        }
                        match get(x, "graph") {
                            None => {
                                if self.g.chance(1, 8) {
                                    parts.push("graph(_)".into())
                                }
                            }
                            Some(J::Null) => parts.push("graph(None)".into()),
                            Some(p) => parts.push(format!("graph(Some({}))", self.lit(&text(p), ex))),
                        }
                    }
                    "required" => (),
                    k => panic!("unexpected {k}"),
                }
            }
        }
        self.attrs(parts)
    }
    /// Writes the type of a layout, and its conversions to and from trees.
    fn emit(&mut self, l: &L, out: &mut String, imp: &mut String) {
        let L::Def(d) = l else { return };
        let name = self.names[&(l as *const L)].clone();
        // The layout, its components replaced by references.
        let mut flat = (d.0.clone(), d.1.clone());
        let mut subs: Vec<String> = vec![];
        {
            let mut f = |x: &mut Fmt, orig: &Fmt| {
                subs.push(self.type_of(&orig.layout));
                x.layout = L::Ref("urn:x".into());
            };
            match (&mut flat.1, &d.1) {
                (K::Rec(a), K::Rec(b)) => a.iter_mut().zip(b).for_each(|(x, y)| f(&mut x.item.value, &y.item.value)),
                (K::Sum(a), K::Sum(b)) => a.iter_mut().zip(b).for_each(|(x, y)| f(&mut x.value, &y.value)),
                (K::Tuple(a), K::Tuple(b)) => a.iter_mut().zip(b).for_each(|(x, y)| f(&mut x.value, &y.value)),
                (K::Set(a), K::Set(b)) => f(&mut a.value, &b.value),
                (K::List { node: a, .. }, K::List { node: b, .. }) => f(&mut a.value, &b.value),
                _ => (),
            }
        }
        let j = layout_json(&L::Def(Box::new(flat)), &mut Notation(self.g));
        let ex = self.g.bool();
        let kind = kind_name(&d.1);
        let mut parts = vec![];
        if !(matches!(kind, "record" | "tuple" | "sum" | "unit") && self.g.bool()) {
            parts.push(kind.to_string());
        }
        self.base = ex && self.g.chance(1, 4);
        if self.base {
            parts.push(format!("base({EX:?})"));
        } else if ex {
            parts.push(if self.g.chance(1, 4) {
                format!("prefix(\"other\" = \"http://other.org/\", \"ex\" = {EX:?})")
            } else {
                format!("prefix(\"ex\" = {EX:?})")
            });
        }
        let J::Obj(o) = &j else { panic!() };
        for (k, x) in o {
            match k.as_str() {
                "datatype" => parts.push(format!("datatype({})", self.lit(&text(x), ex))),
                "head" | "tail" | "resource" => parts.push(format!("{k}({})", self.lit(&text(x), ex))),
                "input" | "intro" => parts.push(format!("{k}({})", self.lits(x, false))),
                "dataset" => parts.push(self.dataset(x, ex)),
                _ => (),
            }
        }
        let _ = writeln!(out, "#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]");
        let a = self.attrs(parts);
        out.push_str(&a);
        let mut tree = |from: String, to: String| {
            let _ = writeln!(imp, "impl Tree for {name} {{\n    fn from_tree(x: &V) -> Option<Self> {{ {from} }}\n    fn to_tree(&self) -> V {{ {to} }}\n}}");
        };
        let newtype = |out: &mut String, attrs: &str, ty: &str| {
            let _ = writeln!(out, "pub struct {name}({attrs}pub {ty});");
        };
        if matches!(d.1, K::Bool { .. } | K::Num { .. } | K::Str { .. } | K::Id { .. } | K::List { .. } | K::Set(_)) {
            tree("Tree::from_tree(x).map(Self)".into(), "self.0.to_tree()".into());
        }
        match &d.1 {
            K::Unit(_) => {
                let _ = writeln!(out, "pub struct {name};");
                tree(format!("<() as Tree>::from_tree(x).map(|_| {name})"), "().to_tree()".into());
            }
            K::Bool { .. } => newtype(out, "", "bool"),
            K::Num { dt, .. } => newtype(out, "", WIDTHS.iter().find(|w| *dt == xsd(w.0)).unwrap().1),
            K::Str { .. } => newtype(out, "", "String"),
            K::Bytes { .. } => panic!(),
            K::Id { .. } => {
                newtype(out, "", "treeldr::rdf_types::Id");
                let _ = writeln!(out, "impl treeldr::AsId for {name} {{\n    fn as_id(&self) -> treeldr::rdf_types::Id<&treeldr::iref::Iri, &treeldr::rdf_types::BlankId> {{ self.0.as_lexical_id_ref() }}\n}}");
                let _ = writeln!(out, "impl From<treeldr::rdf_types::Id> for {name} {{\n    fn from(x: treeldr::rdf_types::Id) -> Self {{ Self(x) }}\n}}");
            }
            K::Rec(fs) => {
                let _ = writeln!(out, "pub struct {name} {{");
                let (mut from, mut to) = (String::new(), String::new());
                for (f, ty) in fs.iter().zip(&subs) {
                    let a = match get(&j, "fields").and_then(|o| get(o, &f.key)) {
                        Some(x) => self.component(x, ex),
                        None => panic!(),
                    };
                    let k = &f.key;
                    if f.required {
                        let _ = writeln!(out, "{a}pub {k}: {ty},");
                        let _ = write!(from, "{k}: req(m, {k:?})?, ");
                        let _ = write!(to, "put(&mut m, {k:?}, Some(&self.{k})); ");
                    } else {
                        let _ = writeln!(out, "{a}pub {k}: Option<{ty}>,");
                        let _ = write!(from, "{k}: opt(m, {k:?})?, ");
                        let _ = write!(to, "put(&mut m, {k:?}, self.{k}.as_ref()); ");
                    }
                }
                let _ = writeln!(out, "}}");
                let keys: Vec<&str> = fs.iter().map(|f| f.key.as_str()).collect();
                tree(format!("let m = map(x, &{keys:?})?; let _ = m; Some(Self {{ {from} }})"), format!("let mut m = std::collections::BTreeMap::new(); {to} kv(m)"));
            }
            K::Sum(vs) => {
                let _ = writeln!(out, "pub enum {name} {{");
                let (mut from, mut to) = (String::new(), String::new());
                for (f, ty) in vs.iter().zip(&subs) {
                    let x = get(&j, "variants").and_then(|o| get(o, &f.name)).unwrap();
                    let a = self.component(x, ex);
                    let k = &f.name;
                    let _ = writeln!(out, "{a}{k}({ty}),");
                    let _ = write!(from, "if let Some(y) = Tree::from_tree(x) {{ return Some(Self::{k}(y)) }} ");
                    let _ = write!(to, "Self::{k}(y) => y.to_tree(), ");
                }
                let _ = writeln!(out, "}}");
                tree(format!("{from} None"), format!("match self {{ {to} }}"));
            }
            K::List { .. } | K::Set(_) => {
                let x = get(&j, "node").or_else(|| get(&j, "item")).unwrap();
                let a = self.component(x, ex);
                newtype(out, &format!("\n{a}"), &format!("Vec<{}>", subs[0]));
            }
            K::Tuple(is) => {
                let _ = writeln!(out, "pub struct {name}(");
                let (mut from, mut to) = (String::new(), String::new());
                for (i, ty) in subs.iter().enumerate() {
                    let Some(J::Arr(xs)) = get(&j, "items") else { panic!() };
                    let a = self.component(&xs[i], ex);
                    let _ = writeln!(out, "{a}pub {ty},");
                    let _ = write!(from, "Tree::from_tree(&l[{i}])?, ");
                    let _ = write!(to, "self.{i}.to_tree(), ");
                }
                let _ = writeln!(out, ");");
                tree(format!("let l = items(x, {})?; let _ = l; Some(Self({from}))", is.len()), format!("V::List(vec![{to}])"));
            }
        }
    }
}
/// Whether a value would have to contain itself in place.
fn infinite(docs: &[L]) -> bool {
    let mut defs: Vec<&L> = vec![];
    let mut ids: HashMap<&str, *const L> = HashMap::new();
    for d in docs {
        d.visit(&mut |l| {
            if let L::Def(d) = l {
                defs.push(l);
                if let Some(i) = &d.0.id {
                    ids.insert(i, l);
                }
            }
        });
    }
    let mut edges: HashMap<*const L, Vec<*const L>> = HashMap::new();
    for l in &defs {
        let subs: Vec<&L> = match &l.hk().unwrap().1 {
            K::Rec(a) => a.iter().map(|x| &x.item.value.layout).collect(),
            K::Sum(a) => a.iter().map(|x| &x.value.layout).collect(),
            K::Tuple(a) => a.iter().map(|x| &x.value.layout).collect(),
            _ => vec![],
        };
        let e = subs
            .into_iter()
            .filter_map(|s| match s {
                L::Ref(i) => ids.get(i.as_str()).copied(),
                s => Some(s as *const L),
            })
            .collect();
        edges.insert(*l as *const L, e);
    }
    fn cyclic(x: *const L, edges: &HashMap<*const L, Vec<*const L>>, path: &mut Vec<*const L>) -> bool {
        if path.contains(&x) {
            return true;
        }
        path.push(x);
        let r = edges.get(&x).is_some_and(|e| e.iter().any(|y| cyclic(*y, edges, path)));
        path.pop();
        r
    }
    defs.iter().any(|l| cyclic(*l as *const L, &edges, &mut vec![]))
}
fn candidate(g: &mut G, source: Source) -> Option<Decl> {
    let mut docs = {
        let depth = g.below(4);
        let mut lg = Lg::new(g);
        lg.bytes = false;
        lg.graph_weight = 2;
        lg.all_ids = source == Source::Generator;
        lg.docs(depth)
    };
    if !sanitize(&mut docs) || infinite(&docs) {
        return None;
    }
    match source {
        Source::Macros => declare(g, docs),
        Source::Generator => generate(g, docs),
    }
}
fn declare(g: &mut G, docs: Vec<L>) -> Option<Decl> {
    let mut names = HashMap::new();
    let mut ids = HashMap::new();
    let mut defs: Vec<&L> = vec![];
    for d in &docs {
        d.visit(&mut |l| {
            if let L::Def(d) = l {
                let n = format!("T{}", defs.len());
                names.insert(l as *const L, n.clone());
                if let Some(i) = &d.0.id {
                    ids.insert(i.clone(), n);
                }
                defs.push(l);
            }
        });
    }
    if defs.is_empty() || defs.len() > 14 {
        return None;
    }
    let mut source = String::from("#![allow(warnings)]\nuse vh::drv::*;\n");
    let mut em = Em { ids, names, g, base: false };
    let mut imp = String::new();
    for l in &defs {
        em.emit(l, &mut source, &mut imp);
    }
    source.push_str(&imp);
    Some(Decl { docs, source, top: "T0".into(), files: vec![] })
}
/// Declares types with the code generator.
fn generate(g: &mut G, mut docs: Vec<L>) -> Option<Decl> {
    // Modules: one for all layouts, or one for each document.
    let way = g.below(4);
    let split = docs.len() > 1 && way < 2;
    // Names of the layouts, as IRIs and types.
    let style = g.below(4);
    let mut ren: HashMap<String, (String, String)> = HashMap::new();
    let mut paths: HashMap<*const L, String> = HashMap::new();
    let mut count = 0;
    let mut ok = true;
    for (k, d) in docs.iter().enumerate() {
        let m = if split { k } else { 0 };
        d.visit(&mut |l| {
            let L::Def(d) = l else { return };
            let Some(i) = &d.0.id else {
                ok = false;
                return;
            };
            let n = count;
            count += 1;
            let (last, name) = match style {
                0 => (format!("Layout{n}"), format!("Layout{n}")),
                1 => (format!("dir/my_layout_{n}"), format!("MyLayout{n}")),
                2 => (format!("doc#thing{n}"), format!("Thing{n}")),
                _ => (format!("a/b{n}/c#_x{n}_y"), format!("X{n}Y")),
            };
            ren.insert(i.clone(), (format!("{EX}m{m}/{last}"), format!("g{m}::{name}")));
        });
    }
    if !ok || count == 0 || count > 14 {
        return None;
    }
    for d in docs.iter_mut() {
        d.visit_mut(&mut |l| match l {
            L::Def(d) => {
                if let Some(i) = &mut d.0.id {
                    *i = ren[i].0.clone();
                }
            }
            L::Ref(i) => {
                if let Some(r) = ren.get(i) {
                    *i = r.0.clone();
                }
            }
            _ => (),
        });
    }
    let by_iri: HashMap<&str, &str> = ren.values().map(|r| (r.0.as_str(), r.1.as_str())).collect();
    let mut defs: Vec<&L> = vec![];
    for d in &docs {
        d.visit(&mut |l| {
            if let L::Def(d) = l {
                paths.insert(l as *const L, by_iri[d.0.id.as_ref().unwrap().as_str()].to_string());
                defs.push(l);
            }
        });
    }
    let mut source = String::from("#![allow(warnings)]\nuse vh::drv::*;\n");
    let mut files = vec![];
    let mods: Vec<Vec<&L>> = if split { docs.iter().map(|d| vec![d]).collect() } else { vec![docs.iter().collect()] };
    for (m, ds) in mods.iter().enumerate() {
        let texts: Vec<J> = ds.iter().map(|d| layout_json(d, &mut Notation(g))).collect();
        let uses: Vec<usize> = (0..mods.len()).filter(|o| *o != m).collect();
        let mut names = vec![];
        if way < 3 {
            for t in &texts {
                let t = t.to_string();
                // A name of its own for each content.
                let f = format!("{}/target/json/{:016x}.json", root(), case_seed(0, &t, 0));
                names.push(format!("{f:?}"));
                files.push((f, t));
            }
        }
        match way {
            0 | 1 => {
                let u: String = uses.iter().map(|o| format!("#[tldr(\"{EX}m{o}/\")] use super::g{o};")).collect();
                let _ = writeln!(source, "#[treeldr::tldr({})]\npub mod g{m} {{ {u} }}", names.join(", "));
            }
            2 => {
                let _ = writeln!(source, "pub mod g{m} {{ treeldr::tldr_include!({}); }}", names.join(", "));
            }
            _ => {
                let sys = match Sys::compile(&texts) {
                    Ok(s) => s,
                    Err(e) => panic!("{e}"),
                };
                let _ = writeln!(source, "pub mod g{m} {{");
                for (r, _) in &sys.layouts {
                    match treeldr_gen_rust::generate(treeldr_layouts::distill::RdfContext::default(), &sys.layouts, r, &treeldr_gen_rust::Options::new()) {
                        Ok(t) => {
                            let _ = writeln!(source, "{t}");
                        }
                        Err(e) => {
                            let _ = writeln!(source, "compile_error!({:?});", e.to_string());
                        }
                    }
                }
                let _ = writeln!(source, "}}");
            }
        }
    }
    let mut em = Em { ids: ren.into_values().collect(), names: paths.clone(), g, base: false };
    let (mut out, mut imp) = (String::new(), String::new());
    for l in &defs {
        em.emit(l, &mut out, &mut imp);
    }
    source.push_str(&imp);
    let top = paths[&(defs[0] as *const L)].clone();
    Some(Decl { docs, source, top, files })
}
/// A recursive type, part of every program of derived types.
pub const CYCLIC: usize = 1_000_000;
fn finish(mut d: Decl, i: usize) -> Decl {
    let n = d.docs[0].hk().unwrap().0.input.len();
    let t = &d.top;
    let _ = write!(d.source, "pub fn entry() -> Entry {{ Entry {{ index: {i}, ser: ser::<{t}, {n}>, de: de::<{t}, {n}>, de_indexed: de_indexed::<{t}, {n}> }} }}\n");
    d
}
/// Deserializes cyclic data; dies if this never ends.
pub fn cyclic() -> i32 {
    let e = table().iter().find(|e| e.index == CYCLIC).unwrap();
    let a = blank_term("a");
    match (e.de)(&[Quad(a.clone(), iri_term("http://ex.org/p"), a.clone(), None)], None, &[a]) {
        Ok(x) => println!("read {}", show_value(&x)),
        Err(m) => println!("refused: {m}"),
    }
    0
}
/// The `i`th declaration of a program.
pub fn nth(source: Source, seed: u64, i: usize) -> Decl {
    if i == CYCLIC {
        let h = H { id: Some(format!("{EX}L")), input: vec!["self".into()], intro: vec![], dataset: vec![], extra: vec![] };
        let value = Fmt { layout: L::Ref(format!("{EX}L")), input: vec![v("value")], graph: None };
        let item = Item { intro: vec!["value".into()], value, dataset: vec![], property: Some(iri("http://ex.org/p")) };
        return finish(declare(&mut G::random(0), vec![L::def(h, K::Set(Box::new(item)))]).unwrap(), i);
    }
    for k in 0..1000u64 {
        let tag = if source == Source::Macros { "derive" } else { "generate" };
        let mut g = G::random(case_seed(seed, tag, i as u64 * 1000 + k));
        if let Some(d) = candidate(&mut g, source) {
            return finish(d, i);
        }
    }
    panic!("no declaration")
}

// ---------------------------------------------------------------- program
const SHARDS: usize = 8;
fn cargo_toml(name: &str, deps: &str) -> String {
    let own = std::fs::read_to_string("/verif/harness/Cargo.toml").unwrap();
    // Dependencies are shared with the harness: same profile.
    let profile = &own[own.find("[profile.dev]").unwrap()..];
    format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\npublish = false\n{deps}\n{profile}\n[profile.dev.package.{name}]\nopt-level = 0\n")
}
fn put_file(path: &str, text: &str) {
    // Unchanged files keep their modification time.
    if std::fs::read_to_string(path).ok().as_deref() != Some(text) {
        std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap()).unwrap();
        std::fs::write(path, text).unwrap();
    }
}
pub struct Program {
    pub exe: String,
    /// Types the compiler refuses, with its message.
    pub refused: Vec<(usize, String)>,
    pub count: usize,
}
/// Writes and compiles the program of the first types of a seed.
pub fn build(source: Source, seed: u64, indices: &[usize], dir: &str) -> Result<Program, String> {
    let mut indices = indices.to_vec();
    let count = indices.len();
    let mut refused = vec![];
    let shards = SHARDS.min(count.max(1));
    let name = dir.rsplit('/').next().unwrap().to_string();
    for _ in 0..6 {
        let mut deps = String::new();
        for s in 0..shards {
            let _ = writeln!(deps, "{name}{s} = {{ path = \"s{s}\" }}");
            let mine: Vec<usize> = indices.iter().copied().filter(|i| i % shards == s).collect();
            let mut lib = String::from("#![allow(warnings)]\n");
            for i in &mine {
                let d = nth(source, seed, *i);
                d.files.iter().for_each(|f| put_file(&f.0, &f.1));
                put_file(&format!("{dir}/s{s}/src/m{i}.rs"), &d.source);
                let _ = writeln!(lib, "mod m{i};");
            }
            let list: Vec<String> = mine.iter().map(|i| format!("m{i}::entry()")).collect();
            let _ = writeln!(lib, "pub fn entries() -> Vec<vh::drv::Entry> {{ vec![{}] }}", list.join(", "));
            put_file(&format!("{dir}/s{s}/src/lib.rs"), &lib);
            put_file(
                &format!("{dir}/s{s}/Cargo.toml"),
                &format!("[package]\nname = \"{name}{s}\"\nversion = \"0.1.0\"\nedition = \"2021\"\npublish = false\n[dependencies]\nvh = {{ path = \"/verif/harness\" }}\ntreeldr = {{ path = \"/repo/generators/rust/treeldr-rs\" }}\n"),
            );
        }
        let members: Vec<String> = (0..shards).map(|s| format!("\"s{s}\"")).collect();
        put_file(
            &format!("{dir}/Cargo.toml"),
            &cargo_toml(&name, &format!("[workspace]\nmembers = [{}]\n[dependencies]\nvh = {{ path = \"/verif/harness\" }}\n{deps}", members.join(", "))),
        );
        let calls: Vec<String> = (0..shards).map(|s| format!("    t.extend({name}{s}::entries());\n")).collect();
        put_file(
            &format!("{dir}/src/main.rs"),
            &format!("fn main() {{\n    let mut t = vec![];\n{}    vh::drv::install(vh::drv::Source::{}, {seed}, t);\n    vh::run()\n}}\n", calls.concat(), if source == Source::Macros { "Macros" } else { "Generator" }),
        );
        let _ = std::fs::copy("/verif/harness/Cargo.lock", format!("{dir}/Cargo.lock"));
        let o = std::process::Command::new("timeout")
            .args(["700", "cargo", "build", "--offline", "-q", "--keep-going"])
            .current_dir(dir)
            .stdin(std::process::Stdio::null())
            .output()
            .map_err(|e| e.to_string())?;
        let exe = format!("{}/debug/{name}", std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into()));
        if o.status.success() {
            return Ok(Program { exe, refused, count });
        }
        // Which types are refused?
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        let mut found: BTreeMap<usize, String> = BTreeMap::new();
        for part in err.split("\n\n") {
            for w in part.split(|c: char| !(c.is_alphanumeric() || "./".contains(c))) {
                if let Some(i) = w.rsplit('/').next().and_then(|f| f.strip_prefix('m')).and_then(|f| f.strip_suffix(".rs")).and_then(|f| f.parse::<usize>().ok()) {
                    if indices.contains(&i) {
                        found.entry(i).or_insert_with(|| part.trim().to_string());
                    }
                }
            }
        }
        if found.is_empty() {
            return Err(err);
        }
        indices.retain(|i| !found.contains_key(i));
        refused.extend(found);
        if indices.is_empty() {
            return Ok(Program { exe: String::new(), refused, count });
        }
    }
    Err("the program still does not compile".into())
}

const QUICK_TYPES: usize = 240;
const THOROUGH_TYPES: usize = 2400;
/// Builds the program and hands over to it.
pub fn launch(a: &[String]) -> i32 {
    let id = a[2].clone();
    let root = root();
    let source = Source::of(&id).unwrap();
    let tag = if source == Source::Macros { "gen" } else { "gcg" };
    let env = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<u64>().ok());
    let (mut seed, mut thorough, mut only) = (env("VERIF_SEED").unwrap_or(1), a.get(3).is_some_and(|x| x == "thorough"), None);
    if a[1] == "replay" {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
        seed = j["seed"].as_u64().unwrap();
        thorough = j["tier"] == "thorough";
        only = j["type"].as_u64().map(|i| i as usize);
    }
    let n = env("DRV_TYPES").map_or(if thorough { THOROUGH_TYPES } else { QUICK_TYPES }, |n| n as usize);
    let (dir, indices): (_, Vec<usize>) = match only {
        Some(i) => (format!("{root}/target/{tag}one"), vec![i]),
        None => (format!("{root}/target/{tag}{}", if thorough { "t" } else { "q" }), (0..n).chain((source == Source::Macros).then_some(CYCLIC)).collect()),
    };
    let p = match build(source, seed, &indices, &dir) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{e}\nthe generated program does not build");
            return 2;
        }
    };
    if a[1] == "prebuild" {
        return 0;
    }
    if only.is_some() {
        return match p.refused.first() {
            Some(r) => {
                println!("FAIL the compiler refuses the type: {}", r.1);
                1
            }
            None => {
                println!("PASS");
                0
            }
        };
    }
    let mut code = 0;
    if !p.exe.is_empty() {
        let st = std::process::Command::new(&p.exe).args(&a[1..]).env("DRV_BUILT", format!("{} types compiled", p.count - p.refused.len())).status();
        code = st.ok().and_then(|s| s.code()).unwrap_or(2);
    }
    if id != "P28" || p.exe.is_empty() {
        // The smallest of the refused types.
        if let Some((i, m)) = p.refused.iter().min_by_key(|(i, _)| nth(source, seed, *i).source.len()) {
            let d = nth(source, seed, *i);
            std::fs::create_dir_all(format!("{root}/replays")).unwrap();
            let path = format!("{root}/replays/{id}-type{i}-{seed}.json");
            let j = serde_json::json!({"property": id, "seed": seed, "type": i, "message": m, "source": d.source,
                "layouts": d.docs.iter().map(|l| layout_json(l, &mut Plain).to_string()).collect::<Vec<_>>(),
                "replay": format!("bash /verif/run.sh replay {id} {path}")});
            std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            eprintln!("--- {id}: the compiler refuses this type\n{}\n{m}", d.source);
            println!("VIOLATION property={id} replay={path}");
            code = 1;
        }
    }
    code
}
