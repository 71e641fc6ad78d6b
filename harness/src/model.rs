//! Layout AST (by names, absolute IRIs), its JSON rendering, and the reference
//! semantics of dehydration and hydration, written independently of the code
//! under test.
use crate::engine::G;
use rdf_types::{BlankIdBuf, Id, Literal as RLit, LiteralType, Quad, Term};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use treeldr_layouts::{Literal, Value};

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const PRELUDE: &str = "https://treeldr.org/prelude#";

// ---------------------------------------------------------------- JSON
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn js(s: impl Into<String>) -> J {
    J::Str(s.into())
}
pub fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            J::Null => f.write_str("null"),
            J::Bool(b) => write!(f, "{b}"),
            J::Num(n) => f.write_str(n),
            J::Str(s) => f.write_str(&json_str(s)),
            J::Arr(a) => {
                f.write_str("[")?;
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "{x}")?;
                }
                f.write_str("]")
            }
            J::Obj(a) => {
                f.write_str("{")?;
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "{}:{x}", json_str(k))?;
                }
                f.write_str("}")
            }
        }
    }
}

// ---------------------------------------------------------------- AST
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum LT {
    Dt(String),
    Lang(String),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum P {
    Var(String),
    Iri(String),
    Lit(String, LT),
}
pub fn v(s: &str) -> P {
    P::Var(s.into())
}
pub fn iri(s: &str) -> P {
    P::Iri(s.into())
}
pub type Q = (P, P, P, Option<P>);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum X {
    Bool(bool),
    Int(i64),
    Str(String),
    Typed(String, String),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct H {
    pub id: Option<String>,
    pub input: Vec<String>,
    pub intro: Vec<String>,
    pub dataset: Vec<Q>,
    pub extra: Vec<(String, X)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fmt {
    pub layout: L,
    pub input: Vec<P>,
    /// None: inherited, Some(None): default graph.
    pub graph: Option<Option<P>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub intro: Vec<String>,
    pub value: Fmt,
    pub dataset: Vec<Q>,
    pub property: Option<P>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub head: String,
    pub rest: String,
    pub intro: Vec<String>,
    pub value: Fmt,
    /// None: default rdf:first/rdf:rest dataset.
    pub dataset: Option<Vec<Q>>,
    /// Written as a bare layout.
    pub short: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub key: String,
    pub item: Item,
    pub required: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Variant {
    pub name: String,
    pub intro: Vec<String>,
    pub value: Fmt,
    pub dataset: Vec<Q>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Unit(Value),
    Bool { res: Option<P>, dt: Option<String> },
    Num { res: Option<P>, dt: String },
    Bytes { res: Option<P>, dt: String },
    Str { res: Option<P>, dt: Option<String>, pat: Option<String> },
    Id { res: Option<P>, pat: Option<String> },
    Rec(Vec<Field>),
    Sum(Vec<Variant>),
    List { head: P, tail: P, node: Box<Node> },
    Set(Box<Item>),
    Tuple(Vec<Item>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum L {
    Any,
    Never,
    Ref(String),
    Def(Box<(H, K)>),
}
impl L {
    pub fn def(h: H, k: K) -> L {
        L::Def(Box::new((h, k)))
    }
    pub fn hk(&self) -> Option<(&H, &K)> {
        match self {
            L::Def(d) => Some((&d.0, &d.1)),
            _ => None,
        }
    }
    /// Calls `f` on every layout definition, outermost first.
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a L)) {
        f(self);
        if let L::Def(d) = self {
            match &d.1 {
                K::Rec(fs) => fs.iter().for_each(|x| x.item.value.layout.visit(f)),
                K::Sum(vs) => vs.iter().for_each(|x| x.value.layout.visit(f)),
                K::List { node, .. } => node.value.layout.visit(f),
                K::Set(i) => i.value.layout.visit(f),
                K::Tuple(is) => is.iter().for_each(|x| x.value.layout.visit(f)),
                _ => (),
            }
        }
    }
    pub fn visit_mut(&mut self, f: &mut dyn FnMut(&mut L)) {
        f(self);
        if let L::Def(d) = self {
            match &mut d.1 {
                K::Rec(fs) => fs.iter_mut().for_each(|x| x.item.value.layout.visit_mut(f)),
                K::Sum(vs) => vs.iter_mut().for_each(|x| x.value.layout.visit_mut(f)),
                K::List { node, .. } => node.value.layout.visit_mut(f),
                K::Set(i) => i.value.layout.visit_mut(f),
                K::Tuple(is) => is.iter_mut().for_each(|x| x.value.layout.visit_mut(f)),
                _ => (),
            }
        }
    }
    pub fn size(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |_| n += 1);
        n
    }
    pub fn kind_count(&self, pred: impl Fn(&K) -> bool) -> usize {
        let mut n = 0;
        self.visit(&mut |l| {
            if let L::Def(d) = l {
                if pred(&d.1) {
                    n += 1
                }
            }
        });
        n
    }
}

pub fn kind_name(k: &K) -> &'static str {
    match k {
        K::Unit(_) => "unit",
        K::Bool { .. } => "boolean",
        K::Num { .. } => "number",
        K::Bytes { .. } => "bytes",
        K::Str { .. } => "string",
        K::Id { .. } => "id",
        K::Rec(_) => "record",
        K::Sum(_) => "sum",
        K::List { .. } => "list",
        K::Set(_) => "set",
        K::Tuple(_) => "tuple",
    }
}

// ---------------------------------------------------------------- rendering
/// How a layout is written: which equivalent notations are chosen.
pub trait Style {
    /// Draws whether an optional shorthand / alternative notation is used.
    fn alt(&mut self) -> bool;
    fn iri(&mut self, iri: &str) -> String {
        iri.to_string()
    }
    fn header(&mut self, _top: bool) -> Vec<(String, J)> {
        vec![]
    }
    fn order(&mut self, _fields: &mut Vec<(String, J)>) {}
}
/// Always the shortest notation.
pub struct Plain;
impl Style for Plain {
    fn alt(&mut self) -> bool {
        true
    }
}
/// Always the most explicit notation.
pub struct Explicit;
impl Style for Explicit {
    fn alt(&mut self) -> bool {
        false
    }
}
pub struct RandomStyle<'a>(pub &'a mut G);
impl Style for RandomStyle<'_> {
    fn alt(&mut self) -> bool {
        self.0.bool()
    }
    fn order(&mut self, f: &mut Vec<(String, J)>) {
        if self.0.chance(1, 3) {
            self.0.shuffle(f)
        }
    }
}

pub fn pat_json(p: &P, s: &mut dyn Style) -> J {
    match p {
        P::Var(x) => js(format!("_:{x}")),
        P::Iri(i) => js(s.iri(i)),
        P::Lit(val, LT::Dt(dt)) => {
            if dt == &format!("{XSD}string") && s.alt() {
                J::Obj(vec![("value".into(), js(val.clone()))])
            } else {
                let mut o = vec![("value".into(), js(val.clone())), ("type".into(), js(s.iri(dt)))];
                s.order(&mut o);
                J::Obj(o)
            }
        }
        P::Lit(val, LT::Lang(t)) => {
            let mut o = vec![("value".into(), js(val.clone())), ("language".into(), js(t.clone()))];
            s.order(&mut o);
            J::Obj(o)
        }
    }
}
fn names_json(n: &[String], s: &mut dyn Style) -> J {
    if n.len() == 1 && s.alt() {
        js(n[0].clone())
    } else {
        J::Arr(n.iter().map(|x| js(x.clone())).collect())
    }
}
fn pats_json(n: &[P], s: &mut dyn Style) -> J {
    if n.len() == 1 && s.alt() {
        pat_json(&n[0], s)
    } else {
        J::Arr(n.iter().map(|x| pat_json(x, s)).collect())
    }
}
fn ds_json(d: &[Q], s: &mut dyn Style) -> J {
    J::Arr(
        d.iter()
            .map(|q| {
                let mut a = vec![pat_json(&q.0, s), pat_json(&q.1, s), pat_json(&q.2, s)];
                if let Some(g) = &q.3 {
                    a.push(pat_json(g, s))
                }
                J::Arr(a)
            })
            .collect(),
    )
}
pub fn value_json(x: &Value) -> Option<J> {
    Some(match x {
        Value::Literal(Literal::Unit) => J::Null,
        Value::Literal(Literal::Boolean(b)) => J::Bool(*b),
        Value::Literal(Literal::Number(n)) => J::Num(dec_string(n.as_big_rational())?),
        Value::Literal(Literal::TextString(s)) => js(s.clone()),
        Value::Literal(Literal::ByteString(_)) => return None,
        Value::List(l) => J::Arr(l.iter().map(value_json).collect::<Option<_>>()?),
        Value::Map(m) => J::Obj(
            m.iter()
                .map(|(k, x)| Some((k.as_str()?.to_string(), value_json(x)?)))
                .collect::<Option<_>>()?,
        ),
    })
}
/// Exact decimal notation of a rational, written independently: the
/// denominator must be of the form 2^a 5^b.
pub fn dec_string(r: &num_rational::BigRational) -> Option<String> {
    use num_bigint::BigInt;
    use num_traits::{One, Signed, Zero};
    let mut d = r.denom().clone();
    let (mut a, mut b) = (0u32, 0u32);
    let (two, five) = (BigInt::from(2), BigInt::from(5));
    while (&d % &two).is_zero() {
        d /= &two;
        a += 1;
    }
    while (&d % &five).is_zero() {
        d /= &five;
        b += 1;
    }
    if !d.is_one() {
        return None;
    }
    let k = a.max(b);
    let n = (r * num_rational::BigRational::from_integer(BigInt::from(10).pow(k))).to_integer();
    let mut s = n.abs().to_string();
    if k > 0 {
        while s.len() <= k as usize {
            s.insert(0, '0');
        }
        let at = s.len() - k as usize;
        s.insert(at, '.');
    }
    if r.is_negative() {
        s.insert(0, '-');
    }
    Some(s)
}

fn header_json(h: &H, top: bool, s: &mut dyn Style) -> Vec<(String, J)> {
    let mut o: Vec<(String, J)> = vec![];
    if let Some(id) = &h.id {
        // The identifier is resolved outside of the scope of the header.
        o.push(("id".into(), js(id.clone())));
    }
    o.extend(s.header(top));
    if !(h.input.len() == 1 && h.input[0] == "self" && s.alt()) {
        o.push(("input".into(), names_json(&h.input, s)));
    }
    if !(h.intro.is_empty() && s.alt()) {
        o.push(("intro".into(), names_json(&h.intro, s)));
    }
    if !(h.dataset.is_empty() && s.alt()) {
        o.push(("dataset".into(), ds_json(&h.dataset, s)));
    }
    if !h.extra.is_empty() {
        let mut e: Vec<(String, J)> = vec![];
        for (k, x) in &h.extra {
            let j = match x {
                X::Bool(b) => J::Bool(*b),
                X::Int(i) => J::Num(i.to_string()),
                X::Str(x) => js(x.clone()),
                X::Typed(x, t) => J::Obj(vec![("value".into(), js(x.clone())), ("type".into(), js(s.iri(t)))]),
            };
            e.push((s.iri(k), j));
        }
        o.push(("extra".into(), J::Obj(e)));
    }
    o
}
/// `default`: name of the default input variable ("value" or "self").
fn fmt_json(f: &Fmt, default: &str, s: &mut dyn Style) -> J {
    let is_default = f.input.len() == 1 && f.input[0] == P::Var(default.into());
    let layout = layout_json_in(&f.layout, false, s);
    if is_default && f.graph.is_none() && s.alt() {
        return layout;
    }
    let mut o = vec![("layout".into(), layout)];
    if !(is_default && s.alt()) {
        o.push(("input".into(), pats_json(&f.input, s)));
    }
    match &f.graph {
        None => (),
        Some(None) => o.push(("graph".into(), J::Null)),
        Some(Some(p)) => o.push(("graph".into(), pat_json(p, s))),
    }
    s.order(&mut o);
    J::Obj(o)
}
fn item_json(i: &Item, s: &mut dyn Style) -> Vec<(String, J)> {
    let mut o = vec![];
    if !(i.intro.len() == 1 && i.intro[0] == "value" && s.alt()) {
        o.push(("intro".into(), names_json(&i.intro, s)));
    }
    o.push(("value".into(), fmt_json(&i.value, "value", s)));
    if !(i.dataset.is_empty() && s.alt()) {
        o.push(("dataset".into(), ds_json(&i.dataset, s)));
    }
    if let Some(p) = &i.property {
        o.push(("property".into(), pat_json(p, s)));
    }
    s.order(&mut o);
    o
}
pub fn layout_json(l: &L, s: &mut dyn Style) -> J {
    layout_json_in(l, true, s)
}
fn layout_json_in(l: &L, top: bool, s: &mut dyn Style) -> J {
    let d = match l {
        L::Any => return J::Bool(true),
        L::Never => return J::Bool(false),
        L::Ref(i) => return js(s.iri(i)),
        L::Def(d) => d,
    };
    let (h, k) = (&d.0, &d.1);
    let mut o = vec![("type".to_string(), js(kind_name(k)))];
    o.extend(header_json(h, top, s));
    let res_json = |o: &mut Vec<(String, J)>, res: &Option<P>, s: &mut dyn Style| {
        if let Some(r) = res {
            o.push(("resource".into(), pat_json(r, s)));
        }
    };
    match k {
        K::Unit(c) => {
            if !(c.is_unit() && s.alt()) {
                o.push(("const".into(), value_json(c).unwrap()));
            }
        }
        K::Bool { res, dt } => {
            res_json(&mut o, res, s);
            if let Some(d) = dt {
                o.push(("datatype".into(), js(s.iri(d))));
            }
        }
        K::Num { res, dt } | K::Bytes { res, dt } => {
            res_json(&mut o, res, s);
            o.push(("datatype".into(), js(s.iri(dt))));
        }
        K::Str { res, dt, pat } => {
            res_json(&mut o, res, s);
            if let Some(d) = dt {
                o.push(("datatype".into(), js(s.iri(d))));
            }
            if let Some(p) = pat {
                o.push(("pattern".into(), js(p.clone())));
            }
        }
        K::Id { res, pat } => {
            res_json(&mut o, res, s);
            if let Some(p) = pat {
                o.push(("pattern".into(), js(p.clone())));
            }
        }
        K::Rec(fs) => {
            if !fs.is_empty() {
                let mut fo: Vec<(String, J)> = vec![];
                for f in fs {
                    let mut i = item_json(&f.item, s);
                    if f.required {
                        i.push(("required".into(), J::Bool(true)));
                    } else if !s.alt() {
                        i.push(("required".into(), J::Bool(false)));
                    }
                    fo.push((f.key.clone(), J::Obj(i)));
                }
                s.order(&mut fo);
                o.push(("fields".into(), J::Obj(fo)));
            }
        }
        K::Sum(vs) => {
            if !vs.is_empty() {
                let mut vo = vec![];
                for x in vs {
                    let mut i = vec![];
                    if !(x.intro.is_empty() && s.alt()) {
                        i.push(("intro".to_string(), names_json(&x.intro, s)));
                    }
                    i.push(("value".into(), fmt_json(&x.value, "self", s)));
                    if !(x.dataset.is_empty() && s.alt()) {
                        i.push(("dataset".into(), ds_json(&x.dataset, s)));
                    }
                    s.order(&mut i);
                    vo.push((x.name.clone(), J::Obj(i)));
                }
                s.order(&mut vo);
                o.push(("variants".into(), J::Obj(vo)));
            }
        }
        K::List { head, tail, node } => {
            if !(*head == v("self") && s.alt()) {
                o.push(("head".into(), pat_json(head, s)));
            }
            if !(*tail == P::Iri(format!("{RDF}nil")) && s.alt()) {
                o.push(("tail".into(), pat_json(tail, s)));
            }
            if node.short {
                o.push(("node".into(), layout_json_in(&node.value.layout, false, s)));
            } else {
                let mut n = vec![];
                if !(node.head == "head" && s.alt()) {
                    n.push(("head".to_string(), js(node.head.clone())));
                }
                if !(node.rest == "rest" && s.alt()) {
                    n.push(("rest".to_string(), js(node.rest.clone())));
                }
                if !(node.intro.len() == 1 && node.intro[0] == "value" && s.alt()) {
                    n.push(("intro".into(), names_json(&node.intro, s)));
                }
                n.push(("value".into(), fmt_json(&node.value, "value", s)));
                if let Some(d) = &node.dataset {
                    n.push(("dataset".into(), ds_json(d, s)));
                }
                s.order(&mut n);
                o.push(("node".into(), J::Obj(n)));
            }
        }
        K::Set(i) => o.push(("item".into(), J::Obj(item_json(i, s)))),
        K::Tuple(is) => {
            if !(is.is_empty() && s.alt()) {
                o.push(("items".into(), J::Arr(is.iter().map(|i| J::Obj(item_json(i, s))).collect())));
            }
        }
    }
    s.order(&mut o);
    J::Obj(o)
}

// ---------------------------------------------------------------- desugaring
/// Dataset of an item, `property` sugar included. `h`: header of the layout.
pub fn item_dataset(h: &H, i: &Item) -> Vec<Q> {
    let mut d = i.dataset.clone();
    if let Some(p) = &i.property {
        // The subject is the first input, the object the first introduced
        // variable, whatever shadows them.
        d.push((P::Var("\u{1}0".into()), p.clone(), P::Var(format!("\u{1}{}", h.input.len() + h.intro.len())), None));
    }
    d
}
pub fn node_dataset(n: &Node) -> Vec<Q> {
    match &n.dataset {
        Some(d) => d.clone(),
        None => {
            if n.value.input.len() == 1 {
                vec![
                    (v(&n.head), P::Iri(format!("{RDF}first")), n.value.input[0].clone(), None),
                    (v(&n.head), P::Iri(format!("{RDF}rest")), v(&n.rest), None),
                ]
            } else {
                vec![]
            }
        }
    }
}
pub fn res_of(h: &H, r: &Option<P>) -> P {
    r.clone().unwrap_or_else(|| v(&h.input[0]))
}

/// Layouts by identifier.
pub type Reg<'a> = BTreeMap<String, &'a L>;
pub fn registry<'a>(tops: &[&'a L]) -> Reg<'a> {
    let mut r = Reg::new();
    for t in tops {
        t.visit(&mut |l| {
            if let L::Def(d) = l {
                if let Some(id) = &d.0.id {
                    r.insert(id.clone(), l);
                }
            }
        });
    }
    r
}
fn resolve<'a>(l: &'a L, reg: &Reg<'a>) -> Option<&'a L> {
    match l {
        L::Ref(i) => reg.get(i).copied(),
        l => Some(l),
    }
}

/// Environment: declared variables in order. `\u{1}n` names the nth one.
#[derive(Clone)]
pub struct Env<T>(pub Vec<(String, T)>);
impl<T> Env<T> {
    fn idx(&self, n: &str) -> Option<usize> {
        if let Some(i) = n.strip_prefix('\u{1}') {
            return i.parse().ok().filter(|i| *i < self.0.len());
        }
        self.0.iter().rposition(|(m, _)| m == n)
    }
}

// ---------------------------------------------------------------- dehydration
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum N {
    Input(usize),
    Fresh(usize),
    T(Term),
}
pub type NQ = (N, N, N, Option<N>);
#[derive(Clone, Debug, PartialEq)]
pub enum DeErr {
    Incompatible,
    Ambiguous,
    Inputs,
    NotFound,
    MissingKey,
    Undeclared,
    Terms,
}
#[derive(Clone, Default)]
pub struct Out {
    pub quads: BTreeSet<NQ>,
    pub assign: BTreeMap<N, BTreeSet<Term>>,
}
pub struct De<'a> {
    pub reg: Reg<'a>,
    next: usize,
}
pub fn term_of(p: &P) -> Option<Term> {
    Some(match p {
        P::Var(_) => return None,
        P::Iri(i) => iri_term(i),
        P::Lit(val, LT::Dt(d)) => lit_term(val, d),
        P::Lit(val, LT::Lang(t)) => Term::Literal(RLit::new(val.clone(), LiteralType::LangString(langtag::LangTagBuf::new(t.clone()).unwrap()))),
    })
}
pub fn iri_term(i: &str) -> Term {
    Term::Id(Id::Iri(iref::IriBuf::new(i.to_string()).unwrap()))
}
pub fn blank_term(i: &str) -> Term {
    Term::Id(Id::Blank(BlankIdBuf::from_suffix(i).unwrap()))
}
pub fn lit_term(val: &str, dt: &str) -> Term {
    Term::Literal(RLit::new(val.to_string(), LiteralType::Any(iref::IriBuf::new(dt.to_string()).unwrap())))
}
pub fn decimal_family(dt: &str) -> bool {
    let Some(n) = dt.strip_prefix(XSD) else { return false };
    matches!(
        n,
        "decimal" | "integer" | "nonPositiveInteger" | "negativeInteger" | "long" | "int" | "short" | "byte" | "nonNegativeInteger" | "unsignedLong" | "unsignedInt" | "unsignedShort" | "unsignedByte" | "positiveInteger"
    )
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect()
}
pub fn base64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(n >> (18 - 6 * i)) as usize & 63] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}
/// Lexical form of a literal value for a datatype, if it has one.
pub fn lexical(kind: &K, val: &Literal) -> Option<Term> {
    match (kind, val) {
        (K::Bool { dt, .. }, Literal::Boolean(b)) => {
            let b64 = format!("{XSD}boolean");
            let d = dt.as_ref().unwrap_or(&b64);
            (*d == b64).then(|| lit_term(if *b { "true" } else { "false" }, d))
        }
        (K::Num { dt, .. }, Literal::Number(n)) => {
            if !decimal_family(dt) {
                return None;
            }
            dec_string(n.as_big_rational()).map(|s| lit_term(&s, dt))
        }
        (K::Bytes { dt, .. }, Literal::ByteString(b)) => {
            if *dt == format!("{XSD}hexBinary") {
                Some(lit_term(&hex(b), dt))
            } else if *dt == format!("{XSD}base64Binary") {
                Some(lit_term(&base64(b), dt))
            } else {
                None
            }
        }
        (K::Str { dt, .. }, Literal::TextString(s)) => {
            let st = format!("{XSD}string");
            Some(lit_term(s, dt.as_ref().unwrap_or(&st)))
        }
        (K::Id { .. }, Literal::TextString(s)) => iref::IriBuf::new(s.clone()).ok().map(|i| Term::Id(Id::Iri(i))),
        _ => None,
    }
}
impl<'a> De<'a> {
    pub fn new(reg: Reg<'a>) -> Self {
        De { reg, next: 0 }
    }
    fn fresh(&mut self) -> N {
        self.next += 1;
        N::Fresh(self.next - 1)
    }
    fn inst(&self, p: &P, env: &Env<N>) -> Result<N, DeErr> {
        match p {
            P::Var(x) => env.idx(x).map(|i| env.0[i].1.clone()).ok_or(DeErr::Undeclared),
            p => Ok(N::T(term_of(p).unwrap())),
        }
    }
    fn emit(&self, d: &[Q], env: &Env<N>, graph: &Option<N>, out: &mut Out) -> Result<(), DeErr> {
        for q in d {
            let g = match &q.3 {
                Some(g) => Some(self.inst(g, env)?),
                None => graph.clone(),
            };
            out.quads.insert((self.inst(&q.0, env)?, self.inst(&q.1, env)?, self.inst(&q.2, env)?, g));
        }
        Ok(())
    }
    fn intro(&mut self, env: &Env<N>, names: &[String]) -> Env<N> {
        let mut e = env.clone();
        for n in names {
            let x = self.fresh();
            e.0.push((n.clone(), x));
        }
        e
    }
    fn sub(&mut self, f: &'a Fmt, val: &Value, env: &Env<N>, graph: &Option<N>, out: &mut Out) -> Result<(), DeErr> {
        let inputs = f.input.iter().map(|p| self.inst(p, env)).collect::<Result<Vec<_>, _>>()?;
        let g = match &f.graph {
            None => graph.clone(),
            Some(None) => None,
            Some(Some(p)) => Some(self.inst(p, env)?),
        };
        self.de(&f.layout, val, &inputs, &g, out)
    }
    pub fn de(&mut self, l: &'a L, val: &Value, inputs: &[N], graph: &Option<N>, out: &mut Out) -> Result<(), DeErr> {
        let l = resolve(l, &self.reg).ok_or(DeErr::NotFound)?;
        let (h, k) = match l {
            L::Any => return Ok(()),
            L::Never => return Err(DeErr::Incompatible),
            L::Ref(_) => return Err(DeErr::NotFound),
            L::Def(d) => (&d.0, &d.1),
        };
        if h.input.len() != inputs.len() {
            return Err(DeErr::Inputs);
        }
        let env = Env(h.input.iter().cloned().zip(inputs.iter().cloned()).collect());
        let env = self.intro(&env, &h.intro);
        match k {
            K::Unit(c) => {
                if val != c {
                    return Err(DeErr::Incompatible);
                }
                self.emit(&h.dataset, &env, graph, out)
            }
            K::Bool { res, .. } | K::Num { res, .. } | K::Bytes { res, .. } | K::Str { res, .. } | K::Id { res, .. } => {
                let Value::Literal(x) = val else { return Err(DeErr::Incompatible) };
                let t = lexical(k, x).ok_or(DeErr::Incompatible)?;
                self.emit(&h.dataset, &env, graph, out)?;
                let r = self.inst(&res_of(h, res), &env)?;
                out.assign.entry(r).or_default().insert(t);
                Ok(())
            }
            K::Rec(fs) => {
                let Value::Map(m) = val else { return Err(DeErr::Incompatible) };
                for f in fs {
                    if f.required && !m.contains_key(&Value::string(f.key.clone())) {
                        return Err(DeErr::MissingKey);
                    }
                }
                self.emit(&h.dataset, &env, graph, out)?;
                for (key, x) in m {
                    let f = fs.iter().find(|f| key.as_str() == Some(&f.key)).ok_or(DeErr::Incompatible)?;
                    let e = self.intro(&env, &f.item.intro);
                    self.emit(&item_dataset(h, &f.item), &e, graph, out)?;
                    self.sub(&f.item.value, x, &e, graph, out)?;
                }
                Ok(())
            }
            K::Sum(vs) => {
                self.emit(&h.dataset, &env, graph, out)?;
                let mut sel: Option<Out> = None;
                for x in vs {
                    let mut o = Out::default();
                    let e = self.intro(&env, &x.intro);
                    self.emit(&x.dataset, &e, graph, &mut o)?;
                    if self.sub(&x.value, val, &e, graph, &mut o).is_ok() {
                        if sel.is_some() {
                            return Err(DeErr::Ambiguous);
                        }
                        sel = Some(o);
                    }
                }
                let o = sel.ok_or(DeErr::Incompatible)?;
                out.quads.extend(o.quads);
                for (n, t) in o.assign {
                    out.assign.entry(n).or_default().extend(t);
                }
                Ok(())
            }
            K::List { head, tail, node } => {
                let Value::List(items) = val else { return Err(DeErr::Incompatible) };
                self.emit(&h.dataset, &env, graph, out)?;
                let mut cur = self.inst(head, &env)?;
                let end = self.inst(tail, &env)?;
                if items.is_empty() {
                    if let N::T(t @ Term::Id(Id::Iri(_))) = end {
                        out.assign.entry(cur).or_default().insert(t);
                    }
                    return Ok(());
                }
                for (i, x) in items.iter().enumerate() {
                    let rest = if i + 1 == items.len() { end.clone() } else { self.fresh() };
                    let mut e = env.clone();
                    e.0.push((node.head.clone(), cur));
                    e.0.push((node.rest.clone(), rest.clone()));
                    let e = self.intro(&e, &node.intro);
                    self.emit(&node_dataset(node), &e, graph, out)?;
                    self.sub(&node.value, x, &e, graph, out)?;
                    cur = rest;
                }
                Ok(())
            }
            K::Set(item) => {
                let Value::List(items) = val else { return Err(DeErr::Incompatible) };
                self.emit(&h.dataset, &env, graph, out)?;
                for x in items {
                    let e = self.intro(&env, &item.intro);
                    self.emit(&item_dataset(h, item), &e, graph, out)?;
                    self.sub(&item.value, x, &e, graph, out)?;
                }
                Ok(())
            }
            K::Tuple(is) => {
                let Value::List(items) = val else { return Err(DeErr::Incompatible) };
                if items.len() != is.len() {
                    return Err(DeErr::Incompatible);
                }
                self.emit(&h.dataset, &env, graph, out)?;
                for (x, item) in items.iter().zip(is) {
                    let e = self.intro(&env, &item.intro);
                    self.emit(&item_dataset(h, item), &e, graph, out)?;
                    self.sub(&item.value, x, &e, graph, out)?;
                }
                Ok(())
            }
        }
    }
}

pub fn input_count(l: &L, reg: &Reg) -> Option<usize> {
    match resolve(l, reg)? {
        L::Def(d) => Some(d.0.input.len()),
        _ => Some(1),
    }
}

/// Reference result of dehydration: quads and input terms, with `_:input{i}`
/// for anonymous inputs and `_:f{i}` for other anonymous resources.
pub fn ref_dehydrate<'a>(l: &'a L, reg: Reg<'a>, val: &Value) -> Result<(Vec<Quad>, Vec<Term>), DeErr> {
    let n = input_count(l, &reg).ok_or(DeErr::NotFound)?;
    let inputs: Vec<N> = (0..n).map(N::Input).collect();
    ref_dehydrate_in(l, reg, val, &inputs, &None)
}
pub fn ref_dehydrate_in<'a>(l: &'a L, reg: Reg<'a>, val: &Value, inputs: &[N], graph: &Option<Term>) -> Result<(Vec<Quad>, Vec<Term>), DeErr> {
    let mut out = Out::default();
    De::new(reg).de(l, val, inputs, &graph.clone().map(N::T), &mut out)?;
    let mut map: BTreeMap<N, Term> = BTreeMap::new();
    for (n, ts) in &out.assign {
        let mut ts: BTreeSet<Term> = ts.clone();
        if let N::T(t) = n {
            ts.insert(t.clone());
        }
        if ts.len() > 1 {
            return Err(DeErr::Terms);
        }
        map.insert(n.clone(), ts.into_iter().next().unwrap());
    }
    let tr = |n: &N| match map.get(n) {
        Some(t) => t.clone(),
        None => match n {
            N::Input(i) => blank_term(&format!("input{i}")),
            N::Fresh(i) => blank_term(&format!("f{i}")),
            N::T(t) => t.clone(),
        },
    };
    let quads: BTreeSet<Quad> = out.quads.iter().map(|q| Quad(tr(&q.0), tr(&q.1), tr(&q.2), q.3.as_ref().map(&tr))).collect();
    Ok((quads.into_iter().collect(), inputs.iter().map(tr).collect()))
}

// ---------------------------------------------------------------- hydration
#[derive(Clone, Debug, PartialEq)]
pub enum HyErr {
    Ambiguous,
    Missing,
    NoLiteral,
    Incompatible,
    Inputs,
    NotFound,
    Cyclic,
}
/// Tree annotated with the identifier of the layout it comes from.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum TV {
    Lit(Value, Option<String>, &'static str),
    Variant(Box<TV>, Option<String>, usize),
    Map(BTreeMap<String, TV>, Option<String>),
    List(Vec<TV>, Option<String>, bool),
    Any,
}
impl TV {
    pub fn value(&self) -> Value {
        match self {
            TV::Lit(x, _, _) => x.clone(),
            TV::Variant(x, _, _) => x.value(),
            TV::Map(m, _) => Value::Map(m.iter().map(|(k, x)| (Value::string(k.clone()), x.value())).collect()),
            TV::List(l, _, _) => Value::List(l.iter().map(TV::value).collect()),
            TV::Any => Value::unit(),
        }
    }
}
impl TV {
    /// Whether a plain value is this tree, the items of sets in any order.
    pub fn matches(&self, y: &Value) -> bool {
        match (self, y) {
            (TV::Lit(x, _, _), y) => x == y,
            (TV::Variant(x, _, _), y) => x.matches(y),
            (TV::Map(m, _), Value::Map(n)) => m.len() == n.len() && m.iter().all(|(k, x)| n.get(&Value::string(k.clone())).is_some_and(|y| x.matches(y))),
            (TV::List(a, _, true), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.matches(y)),
            (TV::List(a, _, false), Value::List(b)) => {
                fn go(a: &[TV], b: &mut Vec<&Value>) -> bool {
                    let Some((x, rest)) = a.split_first() else { return b.is_empty() };
                    for i in 0..b.len() {
                        if x.matches(b[i]) {
                            let y = b.remove(i);
                            if go(rest, b) {
                                return true;
                            }
                            b.insert(i, y);
                            // Equal candidates fail alike.
                            if b.len() > 8 {
                                return false;
                            }
                        }
                    }
                    false
                }
                a.len() == b.len() && go(a, &mut b.iter().collect())
            }
            (TV::Any, y) => y.is_unit(),
            _ => false,
        }
    }
}
pub type ET = Env<Option<Term>>;

/// All the ways to match the patterns in the dataset, by enumeration.
pub fn solutions(data: &[Quad], pats: &[Q], env: &ET, graph: &Option<Term>, max: usize, work: &mut usize) -> Vec<ET> {
    fn unify(p: &P, t: &Term, env: &mut ET) -> bool {
        match p {
            P::Var(x) => {
                let i = env.idx(x).expect("undeclared variable");
                match &env.0[i].1 {
                    Some(u) => u == t,
                    None => {
                        env.0[i].1 = Some(t.clone());
                        true
                    }
                }
            }
            p => term_of(p).unwrap() == *t,
        }
    }
    let mut sols = vec![env.clone()];
    for p in pats {
        let mut next = vec![];
        for e in &sols {
            *work += data.len();
            for q in data {
                let mut e = e.clone();
                let g_ok = match (&p.3, &q.3) {
                    (Some(pg), Some(qg)) => unify(pg, qg, &mut e),
                    (Some(_), None) => false,
                    (None, g) => g == graph,
                };
                if g_ok && unify(&p.0, &q.0, &mut e) && unify(&p.1, &q.1, &mut e) && unify(&p.2, &q.2, &mut e) {
                    next.push(e);
                    if next.len() > max {
                        return next;
                    }
                }
            }
        }
        sols = next;
    }
    sols
}
const MAXSOL: usize = 4000;

pub struct Hy<'a> {
    pub reg: Reg<'a>,
    pub data: &'a [Quad],
    stack: Vec<(*const L, Vec<Term>, Option<Term>)>,
    /// Set when enumeration was truncated: the reference has no answer.
    pub overflow: bool,
    /// Set when a layout is met again on the same resources.
    pub cyclic: bool,
    /// Set when the identifier layout of the prelude meets a blank node.
    pub blank: bool,
    pub steps: usize,
    work: usize,
}
impl<'a> Hy<'a> {
    pub fn new(reg: Reg<'a>, data: &'a [Quad]) -> Self {
        Hy { reg, data, stack: vec![], overflow: false, cyclic: false, blank: false, steps: 0, work: 0 }
    }
    fn sols(&mut self, pats: &[Q], env: &ET, graph: &Option<Term>) -> Vec<ET> {
        if self.overflow {
            return vec![];
        }
        let s = solutions(self.data, pats, env, graph, MAXSOL, &mut self.work);
        if self.work > 1_000_000 {
            self.overflow = true;
        }
        if s.len() > MAXSOL {
            self.overflow = true;
        }
        s
    }
    fn unique(&mut self, pats: &[Q], env: &ET, graph: &Option<Term>) -> Result<Option<ET>, HyErr> {
        let mut s = self.sols(pats, env, graph);
        match s.len() {
            0 => Ok(None),
            1 => Ok(s.pop()),
            _ => Err(HyErr::Ambiguous),
        }
    }
    fn get(p: &P, env: &ET) -> Result<Term, HyErr> {
        match p {
            P::Var(x) => env.0[env.idx(x).expect("undeclared")].1.clone().ok_or(HyErr::Ambiguous),
            p => Ok(term_of(p).unwrap()),
        }
    }
    fn intro(env: &ET, names: &[String]) -> ET {
        let mut e = env.clone();
        e.0.extend(names.iter().map(|n| (n.clone(), None)));
        e
    }
    fn sub(&mut self, f: &'a Fmt, env: &ET, graph: &Option<Term>) -> Result<TV, HyErr> {
        let inputs = f.input.iter().map(|p| Self::get(p, env)).collect::<Result<Vec<_>, _>>()?;
        let g = match &f.graph {
            None => graph.clone(),
            Some(None) => None,
            Some(Some(p)) => Some(Self::get(p, env)?),
        };
        self.hy(&f.layout, &inputs, &g)
    }
    pub fn hy(&mut self, l: &'a L, inputs: &[Term], graph: &Option<Term>) -> Result<TV, HyErr> {
        self.steps += 1;
        if self.steps > 20_000 || self.overflow {
            self.overflow = true;
            return Err(HyErr::Cyclic);
        }
        let l = resolve(l, &self.reg).ok_or(HyErr::NotFound)?;
        let (h, _) = match l {
            L::Any => return Ok(TV::Any),
            L::Never => return Err(HyErr::Incompatible),
            L::Ref(_) => return Err(HyErr::NotFound),
            L::Def(d) => (&d.0, &d.1),
        };
        if h.input.len() != inputs.len() {
            return Err(HyErr::Inputs);
        }
        let key = (l as *const L, inputs.to_vec(), graph.clone());
        if self.stack.contains(&key) {
            self.cyclic = true;
            return Err(HyErr::Cyclic);
        }
        self.stack.push(key);
        let r = self.body(l, inputs, graph);
        self.stack.pop();
        r
    }
    fn body(&mut self, l: &'a L, inputs: &[Term], graph: &Option<Term>) -> Result<TV, HyErr> {
        let L::Def(d) = l else { unreachable!() };
        let (h, k) = (&d.0, &d.1);
        let env = Env(h.input.iter().cloned().zip(inputs.iter().cloned().map(Some)).collect());
        let env = Self::intro(&env, &h.intro);
        let env = self.unique(&h.dataset, &env, graph)?.ok_or(HyErr::Missing)?;
        let id = h.id.clone();
        match k {
            K::Unit(c) => Ok(TV::Lit(c.clone(), id, "unit")),
            K::Bool { res, .. } | K::Num { res, .. } | K::Bytes { res, .. } | K::Str { res, .. } => {
                let t = Self::get(&res_of(h, res), &env)?;
                let st = format!("{XSD}string");
                let bt = format!("{XSD}boolean");
                let want = match k {
                    K::Bool { dt, .. } => dt.clone().unwrap_or(bt.clone()),
                    K::Str { dt, .. } => dt.clone().unwrap_or(st),
                    K::Num { dt, .. } | K::Bytes { dt, .. } => dt.clone(),
                    _ => unreachable!(),
                };
                let Term::Literal(lit) = t else { return Err(HyErr::NoLiteral) };
                match &lit.type_ {
                    LiteralType::Any(i) if i.as_str() == want => (),
                    _ => return Err(HyErr::NoLiteral),
                }
                let s = lit.value.as_str();
                let x = match k {
                    K::Bool { .. } => {
                        if want != bt {
                            return Err(HyErr::NoLiteral);
                        }
                        match s {
                            "true" | "1" => Literal::Boolean(true),
                            "false" | "0" => Literal::Boolean(false),
                            _ => return Err(HyErr::NoLiteral),
                        }
                    }
                    K::Num { .. } => {
                        if !decimal_family(&want) {
                            return Err(HyErr::NoLiteral);
                        }
                        Literal::Number(parse_xsd_decimal(s).ok_or(HyErr::NoLiteral)?.into())
                    }
                    K::Bytes { .. } => Literal::ByteString(
                        if want == format!("{XSD}hexBinary") {
                            unhex(s)
                        } else if want == format!("{XSD}base64Binary") {
                            unbase64(s)
                        } else {
                            None
                        }
                        .ok_or(HyErr::NoLiteral)?,
                    ),
                    _ => Literal::TextString(s.to_string()),
                };
                Ok(TV::Lit(Value::Literal(x), id, kind_name(k)))
            }
            K::Id { res, .. } => match Self::get(&res_of(h, res), &env)? {
                Term::Id(Id::Iri(i)) => Ok(TV::Lit(Value::string(i.as_str().to_string()), id, "id")),
                Term::Id(_) => {
                    self.blank |= id.is_some_and(|i| i.starts_with(PRELUDE));
                    Err(HyErr::Missing)
                }
                _ => Err(HyErr::Missing),
            },
            K::Rec(fs) => {
                let mut fs: Vec<&Field> = fs.iter().collect();
                fs.sort_by(|a, b| a.key.cmp(&b.key));
                let mut m = BTreeMap::new();
                for f in fs {
                    let e = Self::intro(&env, &f.item.intro);
                    match self.unique(&item_dataset(h, &f.item), &e, graph)? {
                        Some(e) => {
                            m.insert(f.key.clone(), self.sub(&f.item.value, &e, graph)?);
                        }
                        None if f.required => return Err(HyErr::Missing),
                        None => (),
                    }
                }
                Ok(TV::Map(m, id))
            }
            K::Sum(vs) => {
                let mut vs: Vec<&Variant> = vs.iter().collect();
                vs.sort_by(|a, b| a.name.cmp(&b.name));
                let mut sel = None;
                for (i, x) in vs.into_iter().enumerate() {
                    let e = Self::intro(&env, &x.intro);
                    let Some(e) = self.unique(&x.dataset, &e, graph)? else { continue };
                    // Unbound variables of a matching variant are ambiguities.
                    for p in x.value.input.iter().chain(x.value.graph.iter().flatten()) {
                        Self::get(p, &e)?;
                    }
                    if let Ok(t) = self.sub(&x.value, &e, graph) {
                        if sel.is_some() {
                            return Err(HyErr::Ambiguous);
                        }
                        sel = Some(TV::Variant(Box::new(t), id.clone(), i));
                    }
                }
                sel.ok_or(HyErr::Missing)
            }
            K::List { head, tail, node } => {
                let mut cur = Self::get(head, &env)?;
                let end = Self::get(tail, &env)?;
                let mut seen = BTreeSet::new();
                let mut items = vec![];
                let nd = node_dataset(node);
                while cur != end {
                    if !seen.insert(cur.clone()) {
                        return Err(HyErr::Missing);
                    }
                    let mut e = env.clone();
                    e.0.push((node.head.clone(), Some(cur.clone())));
                    e.0.push((node.rest.clone(), None));
                    let at = e.0.len() - 1;
                    let e = Self::intro(&e, &node.intro);
                    let e = self.unique(&nd, &e, graph)?.ok_or(HyErr::Missing)?;
                    items.push(self.sub(&node.value, &e, graph)?);
                    cur = e.0[at].1.clone().ok_or(HyErr::Ambiguous)?;
                }
                Ok(TV::List(items, id, true))
            }
            K::Set(item) => {
                let e = Self::intro(&env, &item.intro);
                let mut items = vec![];
                for e in self.sols(&item_dataset(h, item), &e, graph) {
                    items.push(self.sub(&item.value, &e, graph)?);
                }
                items.sort();
                Ok(TV::List(items, id, false))
            }
            K::Tuple(is) => {
                let mut items = vec![];
                for item in is {
                    let e = Self::intro(&env, &item.intro);
                    let e = self.unique(&item_dataset(h, item), &e, graph)?.ok_or(HyErr::Missing)?;
                    items.push(self.sub(&item.value, &e, graph)?);
                }
                Ok(TV::List(items, id, true))
            }
        }
    }
}

pub fn parse_xsd_decimal(s: &str) -> Option<num_rational::BigRational> {
    let (neg, t) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let (a, b) = match t.find('.') {
        Some(i) => (&t[..i], &t[i + 1..]),
        None => (t, ""),
    };
    if (a.is_empty() && b.is_empty()) || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let n: num_bigint::BigInt = format!("0{a}{b}").parse().ok()?;
    let r = num_rational::BigRational::new(n, num_bigint::BigInt::from(10).pow(b.len() as u32));
    Some(if neg { -r } else { r })
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 == 1 {
        return None;
    }
    b.chunks(2)
        .map(|c| Some(((c[0] as char).to_digit(16)? * 16 + (c[1] as char).to_digit(16)?) as u8))
        .collect()
}
/// Canonical base64 only.
pub fn unbase64(s: &str) -> Option<Vec<u8>> {
    const A: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let t = s.trim_end_matches('=');
    let mut bits = 0u32;
    let mut nb = 0;
    let mut out = vec![];
    for c in t.chars() {
        bits = bits << 6 | A.find(c)? as u32;
        nb += 6;
        if nb >= 8 {
            nb -= 8;
            out.push((bits >> nb) as u8);
            bits &= (1 << nb) - 1;
        }
    }
    if base64(&out) == s {
        Some(out)
    } else {
        None
    }
}

// ---------------------------------------------------------------- comparison
/// Sorts the items of every list produced by a set layout.
pub fn canon<'a>(l: &'a L, reg: &Reg<'a>, x: &Value) -> Value {
    let Some(L::Def(d)) = resolve(l, reg) else { return x.clone() };
    match (&d.1, x) {
        (K::Rec(fs), Value::Map(m)) => Value::Map(
            m.iter()
                .map(|(k, y)| {
                    let c = match fs.iter().find(|f| k.as_str() == Some(&f.key)) {
                        Some(f) => canon(&f.item.value.layout, reg, y),
                        None => y.clone(),
                    };
                    (k.clone(), c)
                })
                .collect(),
        ),
        (K::Set(i), Value::List(xs)) => {
            let mut ys: Vec<Value> = xs.iter().map(|y| canon(&i.value.layout, reg, y)).collect();
            ys.sort();
            Value::List(ys)
        }
        (K::List { node, .. }, Value::List(xs)) => Value::List(xs.iter().map(|y| canon(&node.value.layout, reg, y)).collect()),
        (K::Tuple(is), Value::List(xs)) if is.len() == xs.len() => Value::List(xs.iter().zip(is).map(|(y, i)| canon(&i.value.layout, reg, y)).collect()),
        (K::Sum(vs), x) => {
            // The variants of the sum are disjoint wherever this is used.
            let mut r = reg.clone();
            for vv in vs {
                let mut o = Out::default();
                let n = input_count(&vv.value.layout, reg).unwrap_or(1);
                let inputs: Vec<N> = (0..n).map(N::Input).collect();
                if De::new(std::mem::take(&mut r)).de(&vv.value.layout, x, &inputs, &None, &mut o).is_ok() {
                    return canon(&vv.value.layout, reg, x);
                }
                r = reg.clone();
            }
            x.clone()
        }
        _ => x.clone(),
    }
}

fn is_blank(t: &Term) -> bool {
    matches!(t, Term::Id(Id::Blank(_)))
}
/// Finds whether two datasets are equal up to a renaming of blank nodes that
/// maps `ia[i]` to `ib[i]`.
pub fn isomorphic(a: &[Quad], ia: &[Term], b: &[Quad], ib: &[Term]) -> bool {
    if a.len() != b.len() || ia.len() != ib.len() {
        return false;
    }
    let mut ca: BTreeMap<Term, u64> = BTreeMap::new();
    let mut cb: BTreeMap<Term, u64> = BTreeMap::new();
    let blanks = |qs: &[Quad], c: &mut BTreeMap<Term, u64>| {
        for q in qs {
            for t in [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().flatten() {
                if is_blank(t) {
                    c.insert(t.clone(), 1);
                }
            }
        }
    };
    blanks(a, &mut ca);
    blanks(b, &mut cb);
    for (i, (x, y)) in ia.iter().zip(ib).enumerate() {
        match (is_blank(x), is_blank(y)) {
            (true, true) => {
                let h = |c: u64| c.wrapping_mul(31).wrapping_add(1000 + i as u64);
                let cx = *ca.get(x).unwrap_or(&1);
                let cy = *cb.get(y).unwrap_or(&1);
                ca.insert(x.clone(), h(cx));
                cb.insert(y.clone(), h(cy));
            }
            (false, false) => {
                if x != y {
                    return false;
                }
            }
            _ => return false,
        }
    }
    fn h(xs: &[u64]) -> u64 {
        let mut x = 0xcbf29ce484222325u64;
        for y in xs {
            x ^= *y;
            x = x.wrapping_mul(0x9E3779B97F4A7C15);
            x ^= x >> 29;
        }
        x
    }
    fn refine(qs: &[Quad], c: &BTreeMap<Term, u64>) -> BTreeMap<Term, u64> {
        let col = |t: &Term| c.get(t).copied().unwrap_or_else(|| crate::engine::hash_str(&t.to_string()));
        let mut acc: BTreeMap<Term, Vec<u64>> = c.keys().map(|k| (k.clone(), vec![])).collect();
        for q in qs {
            let cs = [col(&q.0), col(&q.1), col(&q.2), q.3.as_ref().map(col).unwrap_or(7)];
            for (i, t) in [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().enumerate() {
                if let Some(t) = t {
                    if let Some(v) = acc.get_mut(t) {
                        v.push(h(&[cs[0], cs[1], cs[2], cs[3], i as u64]));
                    }
                }
            }
        }
        acc.into_iter()
            .map(|(k, mut x)| {
                x.sort();
                x.insert(0, c[&k]);
                (k, h(&x))
            })
            .collect()
    }
    fn count(c: &BTreeMap<Term, u64>) -> BTreeMap<u64, Vec<Term>> {
        let mut m: BTreeMap<u64, Vec<Term>> = BTreeMap::new();
        for (k, x) in c {
            m.entry(*x).or_default().push(k.clone());
        }
        m
    }
    fn go(a: &[Quad], ca: BTreeMap<Term, u64>, b: &[Quad], cb: BTreeMap<Term, u64>) -> bool {
        let (mut ca, mut cb) = (ca, cb);
        let mut classes = 0;
        loop {
            ca = refine(a, &ca);
            cb = refine(b, &cb);
            let n = count(&ca).len();
            if n == classes {
                break;
            }
            classes = n;
        }
        let (ma, mb) = (count(&ca), count(&cb));
        if ma.len() != mb.len() || ma.iter().any(|(k, x)| mb.get(k).map(|y| y.len()) != Some(x.len())) {
            return false;
        }
        match ma.iter().filter(|(_, x)| x.len() > 1).min_by_key(|(_, x)| x.len()) {
            None => {
                let f: BTreeMap<&Term, &Term> = ma.iter().map(|(k, x)| (&x[0], &mb[k][0])).collect();
                let tr = |t: &Term| f.get(t).map(|t| (*t).clone()).unwrap_or_else(|| t.clone());
                let x: BTreeSet<Quad> = a.iter().map(|q| Quad(tr(&q.0), tr(&q.1), tr(&q.2), q.3.as_ref().map(tr))).collect();
                let y: BTreeSet<Quad> = b.iter().cloned().collect();
                x == y
            }
            Some((k, xs)) => {
                let mut c1 = ca.clone();
                c1.insert(xs[0].clone(), k ^ 0x5555);
                for y in &mb[k] {
                    let mut c2 = cb.clone();
                    c2.insert(y.clone(), k ^ 0x5555);
                    if go(a, c1.clone(), b, c2) {
                        return true;
                    }
                }
                false
            }
        }
    }
    go(a, ca, b, cb)
}
pub fn show_quads(qs: &[Quad]) -> String {
    qs.iter().map(|q| format!("{q} .")).collect::<Vec<_>>().join(" ")
}
