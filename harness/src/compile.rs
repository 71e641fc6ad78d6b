//! Reference compiler of layouts, from their JSON syntax.
use crate::engine::G;
use crate::gen::*;
use crate::jsyn::*;
use crate::model::*;
use num_rational::BigRational;
use rdf_types::{Quad, Term};
use std::collections::{BTreeMap, HashMap};
use treeldr_layouts::abs::RegExp;
use treeldr_layouts::layout::*;
use treeldr_layouts::{Dataset, Layout, Literal, Pattern, Ref, Value, ValueFormat};

#[derive(Clone, Debug, PartialEq)]
pub enum BErr {
    NoBase(String),
    InvalidIri(String),
    Undeclared(String),
    Redefinition,
    MissingTarget,
    NoSubject,
    NoObject,
    Unsupported(String),
}
#[derive(Clone, Default)]
pub struct Sc {
    pub base: Option<String>,
    pub prefixes: BTreeMap<String, String>,
    pub vars: Vec<String>,
}
pub fn expand(s: &str, sc: &Sc) -> Result<String, BErr> {
    let colon = s.find(|c: char| !(c.is_ascii_alphanumeric() || "+-.".contains(c)));
    let scheme = match colon {
        Some(i) if s[i..].starts_with(':') && s.starts_with(|c: char| c.is_ascii_alphabetic()) => Some(&s[..i]),
        _ => None,
    };
    match scheme {
        Some(p) => match sc.prefixes.get(p) {
            Some(x) => {
                let r = format!("{x}{}", &s[p.len() + 1..]);
                if iref::Iri::new(&r).is_ok() {
                    Ok(r)
                } else {
                    Err(BErr::InvalidIri(r))
                }
            }
            None => Ok(s.to_string()),
        },
        None => match &sc.base {
            Some(b) => Ok(iref::IriRef::new(s).unwrap().resolved(iref::Iri::new(b).unwrap()).to_string()),
            None => Err(BErr::NoBase(s.to_string())),
        },
    }
}
#[derive(Default)]
pub struct Compiler {
    pub layouts: BTreeMap<Term, Layout>,
    pub errors: Vec<BErr>,
    /// Two entries of a map have the same key.
    pub duplicates: bool,
    next: usize,
}
struct Head {
    input: u32,
    intro: u32,
    dataset: Dataset,
    extra: BTreeMap<Term, Term>,
}
type O = [(String, J)];
fn names(j: Option<&J>, default: &[&str]) -> Vec<String> {
    match j {
        None => default.iter().map(|s| s.to_string()).collect(),
        Some(J::Str(s)) => vec![s.clone()],
        Some(J::Arr(a)) => a
            .iter()
            .map(|x| match x {
                J::Str(s) => s.clone(),
                _ => unreachable!(),
            })
            .collect(),
        _ => unreachable!(),
    }
}
fn text<'a>(j: Option<&'a J>) -> Option<&'a str> {
    match j {
        Some(J::Str(s)) => Some(s),
        _ => None,
    }
}
fn arr(j: Option<&J>) -> &[J] {
    match j {
        Some(J::Arr(a)) => a,
        _ => &[],
    }
}
fn obj(j: Option<&J>) -> &O {
    match j {
        Some(J::Obj(a)) => a,
        _ => &[],
    }
}
impl Compiler {
    fn iri(&mut self, s: &str, sc: &Sc) -> Term {
        match expand(s, sc) {
            Ok(i) => iri_term(&i),
            Err(e) => {
                self.errors.push(e);
                iri_term("error:")
            }
        }
    }
    fn var(&mut self, x: &str, sc: &Sc) -> Pattern<Term> {
        match sc.vars.iter().rposition(|y| x == y) {
            Some(i) => Pattern::Var(i as u32),
            None => {
                self.errors.push(BErr::Undeclared(x.to_string()));
                Pattern::Var(0)
            }
        }
    }
    fn pat(&mut self, j: &J, sc: &Sc) -> Pattern<Term> {
        match j {
            J::Str(s) => {
                if rdf_types::BlankId::new(s.as_str()).is_ok() {
                    self.var(&s[2..], sc)
                } else {
                    Pattern::Resource(self.iri(s, sc))
                }
            }
            J::Obj(o) => {
                let x = text(entry(o, "value")).unwrap();
                Pattern::Resource(match text(entry(o, "language")) {
                    Some(l) => Term::Literal(rdf_types::Literal::new(x.to_string(), rdf_types::LiteralType::LangString(langtag::LangTagBuf::new(l.to_string()).unwrap()))),
                    None => match text(entry(o, "type")) {
                        Some(t) => match expand(t, sc) {
                            Ok(t) => lit_term(x, &t),
                            Err(e) => {
                                self.errors.push(e);
                                lit_term(x, "error:")
                            }
                        },
                        None => lit_term(x, &xsd("string")),
                    },
                })
            }
            _ => unreachable!(),
        }
    }
    fn pats(&mut self, j: Option<&J>, default: &str, sc: &Sc) -> Vec<Pattern<Term>> {
        match j {
            None => vec![self.var(default, sc)],
            Some(J::Arr(a)) => a.iter().map(|x| self.pat(x, sc)).collect(),
            Some(x) => vec![self.pat(x, sc)],
        }
    }
    fn dataset(&mut self, j: Option<&J>, sc: &Sc) -> Dataset {
        let mut d = Dataset::new();
        for q in arr(j) {
            let q = arr(Some(q));
            let (a, b, c) = (self.pat(&q[0], sc), self.pat(&q[1], sc), self.pat(&q[2], sc));
            let g = q.get(3).map(|g| self.pat(g, sc));
            d.insert(Quad(a, b, c, g));
        }
        d
    }
    fn constant(&mut self, j: &J) -> Value {
        match j {
            J::Null => Value::unit(),
            J::Bool(b) => Value::Literal(Literal::Boolean(*b)),
            J::Num(n) => num(json_number(n)),
            J::Str(s) => Value::string(s.clone()),
            J::Arr(a) => Value::List(a.iter().map(|x| self.constant(x)).collect()),
            J::Obj(o) => {
                let m: BTreeMap<Value, Value> = o.iter().map(|(k, x)| (Value::string(k.clone()), self.constant(x))).collect();
                self.duplicates |= m.len() < o.len();
                Value::Map(m)
            }
        }
    }
    fn header(&mut self, o: &O, sc: &Sc) -> (Head, Sc) {
        let mut inner = sc.clone();
        if let Some(b) = text(entry(o, "base")) {
            match expand(b, sc) {
                Ok(b) => inner.base = Some(b),
                Err(e) => self.errors.push(e),
            }
        }
        for (k, x) in obj(entry(o, "prefixes")) {
            match expand(text(Some(x)).unwrap(), sc) {
                Ok(x) => {
                    inner.prefixes.insert(k.clone(), x);
                }
                Err(e) => self.errors.push(e),
            }
        }
        self.dup(obj(entry(o, "prefixes")));
        let input = names(entry(o, "input"), &["self"]);
        let intro = names(entry(o, "intro"), &[]);
        inner.vars = input.iter().chain(&intro).cloned().collect();
        let dataset = self.dataset(entry(o, "dataset"), &inner);
        let mut extra = BTreeMap::new();
        for (k, x) in obj(entry(o, "extra")) {
            let k = self.iri(k, &inner);
            let x = match x {
                J::Bool(b) => lit_term(&b.to_string(), &xsd("boolean")),
                J::Num(n) => {
                    let i: i64 = n.parse().unwrap();
                    lit_term(&i.to_string(), &xsd(integer_type(i)))
                }
                J::Str(s) => lit_term(s, &xsd("string")),
                J::Obj(t) => match expand(text(entry(t, "type")).unwrap(), &inner) {
                    Ok(t2) => lit_term(text(entry(t, "value")).unwrap(), &t2),
                    Err(e) => {
                        self.errors.push(e);
                        lit_term("", "error:")
                    }
                },
                _ => unreachable!(),
            };
            self.duplicates |= extra.insert(k, x).is_some();
        }
        (Head { input: input.len() as u32, intro: intro.len() as u32, dataset, extra }, inner)
    }
    fn dup(&mut self, o: &O) {
        self.duplicates |= (0..o.len()).any(|i| (0..i).any(|j| o[i].0 == o[j].0));
    }
    fn reference(&mut self, j: &J, sc: &Sc) -> Ref<LayoutType> {
        match j {
            J::Str(s) => Ref::new(self.iri(s, sc)),
            _ => self.layout(j, sc),
        }
    }
    /// The format of a value: a layout or a format object.
    fn format(&mut self, j: &J, default: &str, sc: &Sc) -> ValueFormat<Term> {
        match j {
            J::Obj(o) if entry(o, "type").is_none() => {
                let input = self.pats(entry(o, "input"), default, sc);
                let layout = self.reference(entry(o, "layout").unwrap(), sc);
                let graph = entry(o, "graph").map(|g| if *g == J::Null { None } else { Some(self.pat(g, sc)) });
                ValueFormat { layout, input, graph }
            }
            _ => {
                let input = vec![self.var(default, sc)];
                ValueFormat { layout: self.reference(j, sc), input, graph: None }
            }
        }
    }
    /// Intros, value and dataset of a field or item.
    fn item(&mut self, o: &O, head: &Head, sc: &Sc) -> (u32, ValueFormat<Term>, Dataset) {
        let intro = names(entry(o, "intro"), &["value"]);
        let mut inner = sc.clone();
        let first = inner.vars.len() as u32;
        inner.vars.extend(intro.iter().cloned());
        let mut dataset = self.dataset(entry(o, "dataset"), &inner);
        if let Some(p) = entry(o, "property") {
            if head.input == 0 {
                self.errors.push(BErr::NoSubject)
            }
            if intro.is_empty() {
                self.errors.push(BErr::NoObject)
            }
            let p = self.pat(p, &inner);
            dataset.insert(Quad(Pattern::Var(0), p, Pattern::Var(first), None));
        }
        let value = self.format(entry(o, "value").unwrap(), "value", &inner);
        (intro.len() as u32, value, dataset)
    }
    fn resource(&mut self, o: &O, head: &Head, sc: &Sc) -> Pattern<Term> {
        match entry(o, "resource") {
            Some(p) => self.pat(p, sc),
            None => {
                if head.input == 0 {
                    self.errors.push(BErr::MissingTarget)
                }
                Pattern::Var(0)
            }
        }
    }
    fn datatype(&mut self, o: &O, default: &str, sc: &Sc) -> Term {
        match text(entry(o, "datatype")) {
            Some(t) => self.iri(t, sc),
            None => iri_term(&xsd(default)),
        }
    }
    pub fn layout(&mut self, j: &J, sc: &Sc) -> Ref<LayoutType> {
        let mut id = blank_term(&format!("r{}", self.next));
        self.next += 1;
        let layout = match j {
            J::Bool(true) => Layout::Always,
            J::Bool(false) => Layout::Never,
            J::Obj(o) => {
                if let Some(i) = text(entry(o, "id")) {
                    id = self.iri(i, sc)
                }
                self.object(o, sc)
            }
            _ => unreachable!(),
        };
        if self.layouts.insert(id.clone(), layout).is_some() {
            self.errors.push(BErr::Redefinition)
        }
        Ref::new(id)
    }
    fn object(&mut self, o: &O, outer: &Sc) -> Layout {
        let kind = text(entry(o, "type")).unwrap();
        if kind == "union" || kind == "intersection" {
            self.errors.push(BErr::Unsupported(kind.into()));
            return Layout::Never;
        }
        let (h, sc) = self.header(o, outer);
        let sc = &sc;
        let pattern = text(entry(o, "pattern")).map(|p| RegExp::parse(p).unwrap().build());
        match kind {
            "unit" => {
                let const_ = entry(o, "const").map(|c| self.constant(c)).unwrap_or_else(Value::unit);
                Layout::Literal(LiteralLayout::Data(DataLayout::Unit(UnitLayout { input: h.input, intro: h.intro, dataset: h.dataset, const_, extra_properties: h.extra })))
            }
            "boolean" => {
                let (resource, datatype) = (self.resource(o, &h, sc), self.datatype(o, "boolean", sc));
                Layout::Literal(LiteralLayout::Data(DataLayout::Boolean(BooleanLayout { input: h.input, intro: h.intro, dataset: h.dataset, resource, datatype, extra_properties: h.extra })))
            }
            "number" => {
                let (resource, datatype) = (self.resource(o, &h, sc), self.datatype(o, "", sc));
                Layout::Literal(LiteralLayout::Data(DataLayout::Number(NumberLayout { input: h.input, intro: h.intro, dataset: h.dataset, resource, datatype, extra_properties: h.extra })))
            }
            "bytes" => {
                let (resource, datatype) = (self.resource(o, &h, sc), self.datatype(o, "", sc));
                Layout::Literal(LiteralLayout::Data(DataLayout::ByteString(ByteStringLayout { input: h.input, intro: h.intro, dataset: h.dataset, resource, datatype, extra_properties: h.extra })))
            }
            "string" => {
                let (resource, datatype) = (self.resource(o, &h, sc), self.datatype(o, "string", sc));
                Layout::Literal(LiteralLayout::Data(DataLayout::TextString(TextStringLayout { input: h.input, intro: h.intro, dataset: h.dataset, pattern, resource, datatype, extra_properties: h.extra })))
            }
            "id" => {
                let resource = self.resource(o, &h, sc);
                Layout::Literal(LiteralLayout::Id(IdLayout { input: h.input, intro: h.intro, dataset: h.dataset, pattern, resource, extra_properties: h.extra }))
            }
            "record" => {
                let mut fields = BTreeMap::new();
                self.dup(obj(entry(o, "fields")));
                for (k, f) in obj(entry(o, "fields")) {
                    let f = obj(Some(f));
                    let (intro, value, dataset) = self.item(f, &h, sc);
                    let required = entry(f, "required") == Some(&J::Bool(true));
                    fields.insert(Value::string(k.clone()), product::Field { intro, value, dataset, required });
                }
                Layout::Product(ProductLayout { input: h.input, intro: h.intro, fields, dataset: h.dataset, extra_properties: h.extra })
            }
            "sum" => {
                self.dup(obj(entry(o, "variants")));
                let mut variants = BTreeMap::new();
                for (k, x) in obj(entry(o, "variants")) {
                    let x = obj(Some(x));
                    let intro = names(entry(x, "intro"), &[]);
                    let mut inner = sc.clone();
                    inner.vars.extend(intro.iter().cloned());
                    let value = self.format(entry(x, "value").unwrap(), "self", &inner);
                    let dataset = self.dataset(entry(x, "dataset"), &inner);
                    variants.insert(k.clone(), sum::Variant { name: k.clone(), intro: intro.len() as u32, value, dataset });
                }
                Layout::Sum(SumLayout { input: h.input, intro: h.intro, variants: variants.into_values().collect(), dataset: h.dataset, extra_properties: h.extra })
            }
            "list" => {
                let head = match entry(o, "head") {
                    Some(p) => self.pat(p, sc),
                    None => self.var("self", sc),
                };
                let tail = match entry(o, "tail") {
                    Some(p) => self.pat(p, sc),
                    None => Pattern::Resource(iri_term(&format!("{RDF}nil"))),
                };
                let n = sc.vars.len() as u32;
                let node = entry(o, "node").unwrap();
                let rdf = |p: &str| Pattern::Resource(iri_term(&format!("{RDF}{p}")));
                let links = |first: Pattern<Term>| {
                    let mut d = Dataset::new();
                    d.insert(Quad(Pattern::Var(n), rdf("first"), first, None));
                    d.insert(Quad(Pattern::Var(n), rdf("rest"), Pattern::Var(n + 1), None));
                    d
                };
                let node = match node {
                    J::Obj(x) if entry(x, "type").is_none() => {
                        let intro = names(entry(x, "intro"), &["value"]);
                        let mut inner = sc.clone();
                        inner.vars.push(text(entry(x, "head")).unwrap_or("head").into());
                        inner.vars.push(text(entry(x, "rest")).unwrap_or("rest").into());
                        inner.vars.extend(intro.iter().cloned());
                        let value = self.format(entry(x, "value").unwrap(), "value", &inner);
                        let dataset = match entry(x, "dataset") {
                            Some(d) => self.dataset(Some(d), &inner),
                            None if value.input.len() == 1 => links(value.input[0].clone()),
                            None => Dataset::new(),
                        };
                        NodeLayout2 { intro: intro.len() as u32, value, dataset }
                    }
                    _ => {
                        let value = ValueFormat { layout: self.reference(node, sc), input: vec![Pattern::Var(n + 2)], graph: None };
                        NodeLayout2 { intro: 1, value, dataset: links(Pattern::Var(n + 2)) }
                    }
                };
                Layout::List(ListLayout::Ordered(OrderedListLayout { input: h.input, intro: h.intro, node, head, tail, dataset: h.dataset, extra_properties: h.extra }))
            }
            "set" => {
                let (intro, value, dataset) = self.item(obj(entry(o, "item")), &h, sc);
                Layout::List(ListLayout::Unordered(UnorderedListLayout { input: h.input, intro: h.intro, item: Item2 { intro, value, dataset }, dataset: h.dataset, extra_properties: h.extra }))
            }
            "tuple" => {
                let items = arr(entry(o, "items"))
                    .iter()
                    .map(|i| {
                        let (intro, value, dataset) = self.item(obj(Some(i)), &h, sc);
                        Item2 { intro, value, dataset }
                    })
                    .collect();
                Layout::List(ListLayout::Sized(SizedListLayout { input: h.input, intro: h.intro, items, dataset: h.dataset, extra_properties: h.extra }))
            }
            _ => unreachable!(),
        }
    }
}
use treeldr_layouts::layout::list::{ordered::NodeLayout as NodeLayout2, ItemLayout as Item2};
fn integer_type(i: i64) -> &'static str {
    if i >= 0 {
        if i <= u8::MAX as i64 {
            "unsignedByte"
        } else if i <= u16::MAX as i64 {
            "unsignedShort"
        } else if i <= u32::MAX as i64 {
            "unsignedInt"
        } else {
            "unsignedLong"
        }
    } else if i >= i8::MIN as i64 {
        "byte"
    } else if i >= i16::MIN as i64 {
        "short"
    } else if i >= i32::MIN as i64 {
        "int"
    } else {
        "long"
    }
}
pub fn json_number(n: &str) -> BigRational {
    let (m, e) = match n.find(['e', 'E']) {
        Some(i) => (&n[..i], n[i + 1..].parse::<i64>().unwrap()),
        None => (n, 0),
    };
    let (digits, frac) = match m.find('.') {
        Some(i) => (format!("{}{}", &m[..i], &m[i + 1..]), (m.len() - i - 1) as i64),
        None => (m.to_string(), 0),
    };
    let x: num_bigint::BigInt = digits.parse().unwrap();
    let e = e - frac;
    let p = num_bigint::BigInt::from(10).pow(e.unsigned_abs() as u32);
    if e < 0 {
        BigRational::new(x, p)
    } else {
        BigRational::from_integer(x * p)
    }
}

// ---------------------------------------------------------------- comparison
fn each_ref<'a>(l: &'a mut Layout, f: &mut dyn FnMut(&mut Ref<LayoutType>)) {
    match l {
        Layout::Product(p) => p.fields.values_mut().for_each(|x| f(&mut x.value.layout)),
        Layout::Sum(s) => s.variants.iter_mut().for_each(|x| f(&mut x.value.layout)),
        Layout::List(ListLayout::Ordered(l)) => f(&mut l.node.value.layout),
        Layout::List(ListLayout::Unordered(l)) => f(&mut l.item.value.layout),
        Layout::List(ListLayout::Sized(l)) => l.items.iter_mut().for_each(|x| f(&mut x.value.layout)),
        _ => (),
    }
}
/// Layouts with their anonymous identifiers replaced by the order in which they
/// are met.
pub fn canonical(layouts: BTreeMap<Term, Layout>, tops: &[Ref<LayoutType>]) -> BTreeMap<Term, Layout> {
    let mut names: HashMap<Term, Term> = HashMap::new();
    let mut todo: Vec<Term> = tops.iter().map(|t| t.id().clone()).collect();
    let mut k = 0;
    let mut i = 0;
    let mut layouts = layouts;
    let mut out = BTreeMap::new();
    while i < todo.len() {
        let id = todo[i].clone();
        i += 1;
        let name = |t: &Term, names: &mut HashMap<Term, Term>, k: &mut usize| match t {
            Term::Id(rdf_types::Id::Blank(_)) => names
                .entry(t.clone())
                .or_insert_with(|| {
                    *k += 1;
                    blank_term(&format!("canon{k}"))
                })
                .clone(),
            t => t.clone(),
        };
        let n = name(&id, &mut names, &mut k);
        let Some(mut l) = layouts.remove(&id) else { continue };
        each_ref(&mut l, &mut |r| {
            todo.push(r.id().clone());
            *r = Ref::new(name(r.id(), &mut names, &mut k));
        });
        out.insert(n, l);
    }
    // Layouts out of reach.
    out.extend(layouts);
    out
}

// ---------------------------------------------------------------- compaction
const PREFIXES: &[(&str, &str)] = &[
    ("ex", "http://ex.org/"),
    ("e", "http://ex.org"),
    ("p", "http://ex.org/p"),
    ("tldr", PRELUDE),
    ("xs", XSD),
    ("xs2", "http://www.w3.org/2001/XMLSchema"),
    ("rdf", RDF),
    ("h.t-p+1", "http:"),
    ("a1", "http://"),
    ("Ex", "http://ex.org/"),
    ("EX", "http://ex.org/E"),
    ("frag", "http://ex.org/f#"),
];
const BASES: &[&str] = &["http://ex.org/", "http://ex.org/a/b?q#f", "http://ex.org", "http://www.w3.org/2001/XMLSchema", "https://treeldr.org/prelude", "http://other.org/x/"];
fn shorten(g: &mut G, i: &str, sc: &Sc) -> String {
    if g.chance(1, 3) {
        return i.to_string();
    }
    let mut all = vec![];
    for (p, x) in &sc.prefixes {
        if let Some(rest) = i.strip_prefix(x.as_str()) {
            all.push(format!("{p}:{rest}"))
        }
    }
    if let Some(b) = &sc.base {
        for k in 0..i.len() {
            if i.is_char_boundary(k) && ["/", "#", "?", "//"].iter().any(|c| i[k..].starts_with(c)) {
                all.push(i[k..].to_string());
                all.push(i[k + 1..].to_string());
            }
        }
        if b == i {
            all.push(String::new())
        }
    }
    all.retain(|s| iref::IriRef::new(s).is_ok() && rdf_types::BlankId::new(s.as_str()).is_err() && expand(s, sc).as_deref() == Ok(i));
    if all.is_empty() {
        i.to_string()
    } else {
        g.pick(&all).clone()
    }
}
/// Declares prefixes and base IRIs, and uses them.
pub fn compact(g: &mut G, ctx: Ctx, j: &mut J, sc: &Sc, used: &mut usize) {
    let mut short = |g: &mut G, s: &mut String, sc: &Sc| {
        let x = shorten(g, s, sc);
        *used += (x != *s) as usize;
        *s = x;
    };
    match (ctx, &mut *j) {
        (Ctx::Ref | Ctx::Value | Ctx::Variant | Ctx::NodeV | Ctx::Iri, J::Str(s)) => {
            if iref::Iri::new(s.as_str()).is_ok() {
                short(g, s, sc)
            }
        }
        (Ctx::Pat | Ctx::Pats | Ctx::Graph, J::Str(s)) => {
            if rdf_types::BlankId::new(s.as_str()).is_err() && iref::Iri::new(s.as_str()).is_ok() {
                short(g, s, sc)
            }
        }
        (Ctx::Pats, J::Arr(a)) => a.iter_mut().for_each(|x| compact(g, Ctx::Pat, x, sc, used)),
        (Ctx::Dataset, J::Arr(a)) => a.iter_mut().for_each(|x| compact(g, Ctx::Quad, x, sc, used)),
        (Ctx::Quad, J::Arr(a)) => a.iter_mut().for_each(|x| compact(g, Ctx::Pat, x, sc, used)),
        (Ctx::Items, J::Arr(a)) => a.iter_mut().for_each(|x| compact(g, Ctx::Item, x, sc, used)),
        (Ctx::Fields, J::Obj(o)) => o.iter_mut().for_each(|x| compact(g, Ctx::Field, &mut x.1, sc, used)),
        (Ctx::Variants, J::Obj(o)) => o.iter_mut().for_each(|x| compact(g, Ctx::VariantObj, &mut x.1, sc, used)),
        (Ctx::Extra, J::Obj(o)) => o.iter_mut().for_each(|x| {
            let mut k = x.0.clone();
            if iref::Iri::new(k.as_str()).is_ok() {
                let y = shorten(g, &k, sc);
                *used += (y != k) as usize;
                k = y;
            }
            x.0 = k;
            compact(g, Ctx::ExtraVal, &mut x.1, sc, used)
        }),
        (_, J::Obj(o)) => {
            let Some(c) = object_ctx(ctx, o) else { return };
            let mut inner = sc.clone();
            let mut kind = String::new();
            if c == Ctx::Layout {
                kind = text(entry(o, "type")).unwrap_or("").to_string();
                if entry(o, "base").is_none() && g.chance(1, 5) {
                    let b = *g.pick(BASES);
                    inner.base = Some(b.to_string());
                    let at = g.below(o.len() + 1);
                    o.insert(at, ("base".into(), js(shorten(g, b, sc))));
                }
                if entry(o, "prefixes").is_none() && g.chance(1, 3) {
                    let n = 1 + g.below(3);
                    let mut m: BTreeMap<String, J> = BTreeMap::new();
                    for _ in 0..n {
                        let (p, _) = *g.pick(PREFIXES);
                        // Often another meaning for the same prefix.
                        let x = if g.chance(2, 3) { PREFIXES.iter().find(|q| q.0 == p).unwrap().1 } else { g.pick(PREFIXES).1 };
                        if iref::Iri::new(x).is_err() {
                            continue;
                        }
                        inner.prefixes.insert(p.into(), x.into());
                        m.insert(p.into(), js(shorten(g, x, sc)));
                    }
                    if !m.is_empty() {
                        let at = g.below(o.len() + 1);
                        o.insert(at, ("prefixes".into(), J::Obj(m.into_iter().collect())));
                    }
                }
            }
            for (k, sub, ..) in schema(c, &kind) {
                if k == "base" || k == "prefixes" {
                    continue;
                }
                if let Some(x) = o.iter_mut().find(|e| e.0 == k) {
                    compact(g, sub, &mut x.1, if k == "id" { sc } else { &inner }, used)
                }
            }
        }
        _ => (),
    }
}
