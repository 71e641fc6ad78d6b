//! Faults in the attributes of derived types and in embedded layouts.
use super::cli::Scratch;
use crate::engine::*;
use crate::model::*;
use crate::sys::*;
use crate::{ensure, fail};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Str(String),
    Other(&'static str),
    Punct(char),
    Group(Vec<Tok>),
}
use Tok::*;
fn show(ts: &[Tok]) -> String {
    let mut s = String::new();
    for t in ts {
        if !s.is_empty() && *t != Punct(',') {
            s.push(' ');
        }
        match t {
            Id(i) => s.push_str(i),
            Str(x) => {
                let _ = write!(s, "{x:?}");
            }
            Other(x) => s.push_str(x),
            Punct(c) => s.push(*c),
            Group(g) => {
                let _ = write!(s, "({})", show(g));
            }
        }
    }
    s
}
fn id(s: &str) -> Tok {
    Id(s.into())
}
fn st(s: &str) -> Tok {
    Str(s.into())
}
/// Elements with commas between them, and sometimes one more.
fn commas(g: &mut G, l: Vec<Vec<Tok>>) -> Vec<Tok> {
    let n = l.len();
    let mut out = vec![];
    for (i, x) in l.into_iter().enumerate() {
        out.extend(x);
        if i + 1 < n || g.chance(1, 6) {
            out.push(Punct(','));
        }
    }
    out
}
/// The lists of tokens within a list of tokens.
fn lists<'a>(ts: &'a mut Vec<Tok>, out: &mut Vec<*mut Vec<Tok>>) {
    out.push(ts as *mut _);
    for t in ts.iter_mut() {
        if let Group(g) = t {
            lists(g, out);
        }
    }
}
fn any_token(g: &mut G) -> Tok {
    match g.below(6) {
        0 => id(*g.pick(&["record", "sum", "list", "number", "base", "prefix", "intro", "input", "dataset", "head", "rest", "tail", "graph", "resource", "datatype", "recrod", "None", "Some", "_", "true", "property", "required", "Self"])),
        1 => st(*g.pick(STRINGS)),
        2 => Other(*g.pick(&["42", "'c'", "b\"x\"", "1.5", "b'x'", "-1"])),
        3 => Punct(*g.pick(&[',', '=', ';', '.', '|', '+'])),
        4 => Group(vec![]),
        _ => Group(vec![st(*g.pick(STRINGS))]),
    }
}
fn mutate(g: &mut G, ts: &mut Vec<Tok>) {
    let mut all = vec![];
    lists(ts, &mut all);
    let p = all[g.below(all.len())];
    // The only list accessed from here.
    let l: &mut Vec<Tok> = unsafe { &mut *p };
    if l.is_empty() {
        l.push(any_token(g));
        return;
    }
    let i = g.below(l.len());
    match g.below(7) {
        0 | 1 => {
            l.remove(i);
        }
        2 => l.insert(i, l[i].clone()),
        3 if i > 0 => l.swap(i, i - 1),
        4 => l[i] = any_token(g),
        5 => l[i] = Group(vec![l[i].clone()]),
        _ => l.insert(i, any_token(g)),
    }
}

// ---------------------------------------------------------------- attributes
const STRINGS: &[&str] = &[
    "http://ex.org/p", "http://ex.org/q", "http://ex.org/", "ex:p", "ex:q", "p", "../q#f", "", "#x", "_:self", "_:value", "_:x", "_:y", "_:undeclared", "_:a.b", "_:a-b", "_:", "_: x", "a b", "<x>", "http://[", "%", "x", "y", "self", "ex", "http://www.w3.org/2001/XMLSchema#int",
];
const GOOD: &[&str] = &["http://ex.org/p", "http://ex.org/q", "http://ex.org/r"];
const KINDS: &[&str] = &["id", "unit", "boolean", "number", "string", "bytes", "record", "sum", "set", "list", "tuple"];
/// One attribute of an item.
#[derive(Clone, Debug)]
enum At {
    /// `#[tldr(...)]`
    List(Vec<Tok>),
    /// Another form.
    Bare(&'static str),
    /// Not an attribute for the macros.
    Foreign(&'static str),
}
impl At {
    fn show(&self) -> String {
        match self {
            At::List(t) => format!("#[tldr({})]", show(t)),
            At::Bare(s) | At::Foreign(s) => s.to_string(),
        }
    }
}
struct Scope {
    vars: Vec<String>,
    prefix: bool,
    base: bool,
}
fn iri(g: &mut G, s: &Scope) -> Tok {
    if g.chance(1, 40) {
        return st(*g.pick(STRINGS));
    }
    match g.below(3) {
        0 if s.prefix => st(*g.pick(&["ex:p", "ex:q"])),
        1 if s.base => st(*g.pick(&["p", "../q#f", "", "#x"])),
        _ => st(*g.pick(GOOD)),
    }
}
fn pattern(g: &mut G, s: &Scope) -> Tok {
    if g.bool() && !s.vars.is_empty() {
        Str(format!("_:{}", g.pick(&s.vars)))
    } else {
        iri(g, s)
    }
}
fn quad(g: &mut G, s: &Scope) -> Vec<Tok> {
    let n = if g.chance(1, 4) { 4 } else { 3 };
    let l: Vec<Vec<Tok>> = (0..n).map(|i| vec![if i == 1 { iri(g, s) } else { pattern(g, s) }]).collect();
    let mut t = commas(g, l);
    if n == 3 && g.chance(1, 8) && t.last() != Some(&Punct(',')) {
        t.push(Punct(','));
    }
    vec![Group(t)]
}
fn names(g: &mut G) -> (Vec<String>, Tok) {
    let n = g.below(3);
    let v: Vec<String> = (0..n).map(|_| g.pick(&["x", "y", "z", "a.b", "a-b", "value"]).to_string()).collect();
    let l = v.iter().map(|x| vec![st(x)]).collect();
    (v, Group(commas(g, l)))
}
fn dataset(g: &mut G, s: &Scope) -> Vec<Tok> {
    let n = g.below(3);
    let l = (0..n).map(|_| quad(g, s)).collect();
    vec![id("dataset"), Group(commas(g, l))]
}
/// Spreads entries over attributes.
fn spread(g: &mut G, items: Vec<Vec<Tok>>) -> Vec<At> {
    let mut groups: Vec<Vec<Vec<Tok>>> = vec![vec![]];
    for x in items {
        if g.chance(1, 3) {
            groups.push(vec![]);
        }
        groups.last_mut().unwrap().push(x);
    }
    let mut out: Vec<At> = groups.into_iter().filter(|x| !x.is_empty()).map(|x| At::List(commas(g, x))).collect();
    if g.chance(1, 10) {
        let i = g.below(out.len() + 1);
        out.insert(i, At::Foreign(*g.pick(&["#[allow(dead_code)]", "/// text", "#[doc = \"tldr\"]"])));
    }
    out
}
fn component(g: &mut G, s: &Scope, kind: &str) -> Vec<At> {
    let mut items: Vec<Vec<Tok>> = vec![];
    let mut vars: Vec<String> = s.vars.clone();
    if kind == "list" {
        for k in ["head", "rest"] {
            if g.chance(1, 5) {
                let x = g.pick(&["x", "first", "a.b"]).to_string();
                items.push(vec![id(k), Group(vec![st(&x)])]);
                vars.push(x);
            } else {
                vars.push(k.into());
            }
        }
    }
    if g.chance(1, 3) {
        let (v, t) = names(g);
        vars.extend(v);
        items.push(vec![id("intro"), t]);
    } else {
        vars.push("value".into());
    }
    let s = Scope { vars, prefix: s.prefix, base: s.base };
    if matches!(kind, "record" | "tuple" | "set") && g.chance(3, 4) {
        items.push(vec![iri(g, &s)]);
    }
    if g.chance(1, 4) {
        items.push(dataset(g, &s));
    }
    if g.chance(1, 6) {
        let n = 1 + g.below(2);
        let l = (0..n).map(|_| vec![pattern(g, &s)]).collect();
        items.push(vec![id("input"), Group(commas(g, l))]);
    }
    if g.chance(1, 4) {
        let x = match g.below(3) {
            0 => vec![id("_")],
            1 => vec![id("None")],
            _ => vec![id("Some"), Group(vec![pattern(g, &s)])],
        };
        items.push(vec![id("graph"), Group(x)]);
    }
    g.shuffle(&mut items);
    spread(g, items)
}
#[derive(Clone, Debug, PartialEq)]
enum Shape {
    Unit,
    Named,
    Unnamed,
    Enum,
    Union,
}
/// A part of a type: a field or variant.
#[derive(Clone, Debug)]
struct Part {
    attrs: Vec<At>,
    name: String,
    /// Of a field, or of the single field of a variant.
    ty: &'static str,
    /// Of a variant.
    form: usize,
}
#[derive(Clone, Debug)]
struct Ty {
    de: bool,
    attrs: Vec<At>,
    shape: Shape,
    parts: Vec<Part>,
}
fn natural(kind: &str) -> Shape {
    match kind {
        "unit" => Shape::Unit,
        "record" => Shape::Named,
        "sum" => Shape::Enum,
        _ => Shape::Unnamed,
    }
}
fn ty(g: &mut G) -> Ty {
    let kind = *g.pick(KINDS);
    let mut items: Vec<Vec<Tok>> = vec![];
    let explicit = !matches!(kind, "unit" | "record" | "sum" | "tuple") || g.chance(1, 3);
    if explicit {
        items.push(vec![id(kind)]);
    }
    let (prefix, base) = (g.bool(), g.chance(1, 3));
    if prefix {
        let mut l = vec![vec![st("ex"), Punct('='), st("http://ex.org/")]];
        if g.chance(1, 4) {
            l.push(vec![st(*g.pick(&["rust", "rust-", "", "ey", "ex", "http"])), Punct('='), st(*g.pick(&["http://ex.org/other#", "urn:x:", "http://ex.org/"]))]);
        }
        items.push(vec![id("prefix"), Group(commas(g, l))]);
    }
    if base {
        items.push(vec![id("base"), Group(vec![st(*g.pick(&["http://ex.org/base/", "http://ex.org", "ex:b/"]))])]);
    }
    let mut vars: Vec<String> = vec![];
    if g.chance(1, 3) {
        let (v, t) = names(g);
        vars.extend(v);
        items.push(vec![id("input"), t]);
    } else {
        vars.push("self".into());
    }
    if g.chance(1, 3) {
        let (v, t) = names(g);
        vars.extend(v);
        items.push(vec![id("intro"), t]);
    }
    let s = Scope { vars, prefix, base };
    if g.chance(1, 4) {
        items.push(dataset(g, &s));
    }
    if kind == "list" {
        for k in ["head", "tail"] {
            if g.chance(1, 4) {
                items.push(vec![id(k), Group(vec![pattern(g, &s)])]);
            }
        }
    }
    if matches!(kind, "id" | "boolean" | "number" | "string" | "bytes") && g.chance(1, 3) {
        items.push(vec![id("resource"), Group(vec![pattern(g, &s)])]);
    }
    let xsd = |n: &str| format!("http://www.w3.org/2001/XMLSchema#{n}");
    let dt = match kind {
        "number" | "bytes" if g.chance(11, 12) => Some(if kind == "number" { "int" } else { "hexBinary" }),
        "boolean" if g.chance(1, 4) => Some("boolean"),
        "string" if g.chance(1, 4) => Some("token"),
        _ => None,
    };
    if let Some(d) = dt {
        items.push(vec![id("datatype"), Group(vec![if g.chance(1, 8) { iri(g, &s) } else { Str(xsd(d)) }])]);
    }
    if g.chance(1, 12) && !items.is_empty() {
        // The same entry again.
        let x = g.pick(&items).clone();
        items.push(x);
    }
    g.shuffle(&mut items);
    let mut attrs = spread(g, items);
    let shape = if g.chance(1, 12) { g.pick(&[Shape::Unit, Shape::Named, Shape::Unnamed, Shape::Enum, Shape::Union]).clone() } else { natural(kind) };
    let n = match kind {
        _ if shape == Shape::Unit => 0,
        "record" | "sum" | "tuple" => g.len(3),
        _ if g.chance(1, 20) => g.below(3),
        _ => 1,
    };
    let n = if shape == Shape::Union { n.max(1) } else { n };
    let mut parts: Vec<Part> = (0..n)
        .map(|i| Part {
            attrs: if natural(kind) == shape && !matches!(kind, "id" | "unit" | "boolean" | "number" | "string" | "bytes") { component(g, &s, kind) } else { vec![] },
            name: if shape == Shape::Enum { format!("V{i}") } else { (*g.pick(&["a", "b", "r#type", "value", "r#fn"])).to_string() + &i.to_string() },
            ty: match kind {
                "list" | "set" if g.chance(1, 12) => *g.pick(&["String", "Vec", "Option<String>", "&'static str", "(Vec<String>,)", "[String; 2]", "Vec<String, u8>"]),
                "list" | "set" => *g.pick(&["Vec<String>", "Vec<bool>", "Vec<Vec<u8>>"]),
                "record" => *g.pick(&["String", "Option<String>", "Option<Option<bool>>", "Vec<u8>", "(u8, u8)"]),
                "number" => "i32",
                _ => "String",
            },
            form: if g.chance(1, 20) { 1 + g.below(3) } else { 0 },
        })
        .collect();
    for p in &mut parts {
        if p.name == "r#type0" && g.bool() {
            p.name = "r#type".into();
        } else if p.name == "r#fn1" && g.bool() {
            p.name = "r#fn".into();
        }
    }
    // Damage.
    if g.chance(2, 5) {
        let k = 1 + g.len(2);
        for _ in 0..k {
            let mut all: Vec<&mut At> = attrs.iter_mut().collect();
            for p in parts.iter_mut() {
                all.extend(p.attrs.iter_mut());
            }
            if all.is_empty() {
                break;
            }
            let i = g.below(all.len());
            if g.chance(1, 12) {
                *all[i] = At::Bare(*g.pick(&["#[tldr]", "#[tldr = \"record\"]", "#[tldr = 42]"]));
            } else if let At::List(t) = &mut *all[i] {
                mutate(g, t);
            }
        }
    }
    Ty { de: g.bool(), attrs, shape, parts }
}
impl Ty {
    /// The source, and the line of each attribute.
    fn print(&self, n: usize, first: usize) -> (String, Vec<usize>) {
        let mut s = String::new();
        let mut at = vec![];
        let mut line = first;
        let mut put = |s: &mut String, t: String| {
            s.push_str(&t);
            s.push('\n');
            line += 1;
            line - 1
        };
        put(&mut s, format!("mod m{n} {{"));
        put(&mut s, format!("#[derive(treeldr::{})]", if self.de { "DeserializeLd" } else { "SerializeLd" }));
        for a in &self.attrs {
            at.push(put(&mut s, a.show()));
        }
        let (open, close) = match self.shape {
            Shape::Unit => (format!("pub struct T{n}"), ";"),
            Shape::Named => (format!("pub struct T{n} {{"), "}"),
            Shape::Unnamed => (format!("pub struct T{n}("), ");"),
            Shape::Enum => (format!("pub enum T{n} {{"), "}"),
            Shape::Union => (format!("pub union T{n} {{"), "}"),
        };
        put(&mut s, open);
        for p in &self.parts {
            for a in &p.attrs {
                at.push(put(&mut s, a.show()));
            }
            let t = match self.shape {
                Shape::Unnamed => p.ty.to_string(),
                Shape::Enum => match p.form {
                    0 => format!("{}({})", p.name, p.ty),
                    1 => p.name.clone(),
                    2 => format!("{}({}, {})", p.name, p.ty, p.ty),
                    _ => format!("{} {{ x: {} }}", p.name, p.ty),
                },
                _ => format!("{}: {}", p.name, p.ty),
            };
            put(&mut s, t + ",");
        }
        put(&mut s, close.into());
        put(&mut s, "}".into());
        (s, at)
    }
}

// ---------------------------------------------------------------- reference
#[derive(Debug)]
enum Bad {
    Fault,
    /// Nothing says whether this is right.
    Unclear,
}
type Rd<T> = Result<T, Bad>;
struct Cur<'a>(&'a [Tok], usize);
impl<'a> Cur<'a> {
    fn next(&mut self) -> Option<&'a Tok> {
        let t = self.0.get(self.1);
        self.1 += 1;
        t
    }
    fn comma(&mut self) -> Rd<bool> {
        match self.next() {
            Some(Punct(',')) => Ok(true),
            None => Ok(false),
            _ => Err(Bad::Fault),
        }
    }
    fn end(&mut self) -> Rd<()> {
        self.next().map_or(Ok(()), |_| Err(Bad::Fault))
    }
    fn group(&mut self) -> Rd<Cur<'a>> {
        match self.next() {
            Some(Group(g)) => Ok(Cur(g, 0)),
            _ => Err(Bad::Fault),
        }
    }
    fn string(&mut self) -> Rd<String> {
        match self.next() {
            Some(Str(s)) => Ok(s.clone()),
            _ => Err(Bad::Fault),
        }
    }
    /// A single string between parentheses.
    fn one(&mut self) -> Rd<String> {
        let mut c = self.group()?;
        let s = c.string()?;
        if c.0[c.1..] == [Punct(',')] {
            return Err(Bad::Unclear);
        }
        c.end()?;
        Ok(s)
    }
    fn list<T>(&mut self, f: impl Fn(&mut Cur<'a>) -> Rd<T>) -> Rd<Vec<T>> {
        let mut c = self.group()?;
        let mut out = vec![];
        while c.1 < c.0.len() {
            out.push(f(&mut c)?);
            c.comma()?;
        }
        Ok(out)
    }
}
fn is_ref(s: String) -> Rd<String> {
    if iref::IriRef::new(&s).is_ok() {
        Ok(s)
    } else {
        Err(Bad::Fault)
    }
}
fn is_pattern(s: String) -> Rd<String> {
    if rdf_types::BlankId::new(&s).is_ok() {
        Ok(s)
    } else {
        is_ref(s)
    }
}
fn pat(c: &mut Cur) -> Rd<String> {
    is_pattern(c.string()?)
}
/// What the entries say, as JSON.
#[derive(Default)]
struct Read {
    entries: BTreeMap<String, J>,
    kind: Option<String>,
    prefixes: BTreeMap<String, String>,
}
impl Read {
    fn set(&mut self, k: &str, x: J) -> Rd<()> {
        match self.entries.insert(k.into(), x.clone()) {
            Some(y) if y != x => Err(Bad::Fault),
            _ => Ok(()),
        }
    }
}
fn strs(l: Vec<String>) -> J {
    J::Arr(l.into_iter().map(js).collect())
}
fn read_quad(c: &mut Cur) -> Rd<J> {
    let mut c = c.group()?;
    let mut q = vec![];
    for i in 0..4 {
        if i == 3 && c.1 >= c.0.len() {
            break;
        }
        q.push(pat(&mut c)?);
        let more = c.comma()?;
        if !more {
            if i < 2 {
                return Err(Bad::Fault);
            }
            break;
        }
    }
    c.end()?;
    Ok(strs(q))
}
fn entry(c: &mut Cur, r: &mut Read, part: bool) -> Rd<()> {
    match c.next() {
        Some(Str(s)) if part => r.set("property", js(is_pattern(s.clone())?)),
        Some(Id(k)) => match (k.as_str(), part) {
            ("intro", _) | ("input", false) => {
                let l = c.list(|c| c.string())?;
                r.set(k, strs(l))
            }
            ("input", true) => {
                let l = c.list(pat)?;
                r.set(k, strs(l))
            }
            ("dataset", _) => {
                let l = c.list(read_quad)?;
                r.set(k, J::Arr(l))
            }
            ("head" | "rest", true) => {
                let s = c.one()?;
                r.set(k, js(s))
            }
            ("head" | "tail" | "resource", false) => {
                let s = is_pattern(c.one()?)?;
                r.set(k, js(s))
            }
            ("base" | "datatype", false) => {
                let s = is_ref(c.one()?)?;
                r.set(k, js(s))
            }
            ("graph", true) => {
                let mut a = c.group()?;
                let x = match a.next() {
                    Some(Id(i)) if i == "_" => js("keep"),
                    Some(Id(i)) if i == "None" => J::Null,
                    Some(Id(i)) if i == "Some" => J::Arr(vec![js(is_pattern(a.one()?)?)]),
                    _ => return Err(Bad::Fault),
                };
                if a.0[a.1..] == [Punct(',')] {
                    return Err(Bad::Unclear);
                }
                a.end()?;
                r.set(k, x)
            }
            ("prefix", false) => {
                let l = c.list(|c| {
                    let k = c.string()?;
                    match c.next() {
                        Some(Punct('=')) => Ok((k, is_ref(c.string()?)?)),
                        _ => Err(Bad::Fault),
                    }
                })?;
                r.prefixes.extend(l);
                Ok(())
            }
            (k, false) if KINDS.contains(&k) => {
                if k == "id" && matches!(c.0.get(c.1), Some(Group(_))) {
                    return Err(Bad::Unclear);
                }
                match r.kind.replace(k.into()) {
                    Some(o) if o != k => Err(Bad::Fault),
                    _ => Ok(()),
                }
            }
            _ => Err(Bad::Fault),
        },
        _ => Err(Bad::Fault),
    }
}
/// The entries of attributes, and the attributes at fault.
fn read(attrs: &[At], part: bool) -> Rd<(Read, Vec<usize>)> {
    let mut r = Read::default();
    let mut faults = vec![];
    for (i, a) in attrs.iter().enumerate() {
        match a {
            At::Foreign(_) => (),
            At::Bare(_) => faults.push(i),
            At::List(t) => {
                let mut c = Cur(t, 0);
                while c.1 < t.len() {
                    match entry(&mut c, &mut r, part).and_then(|_| c.comma().map(|_| ())) {
                        Ok(()) => (),
                        Err(Bad::Fault) => {
                            faults.push(i);
                            break;
                        }
                        Err(e) => return Err(e),
                    }
                }
            }
        }
    }
    Ok((r, faults))
}
fn is_vec(t: &str) -> bool {
    matches!(t, "Vec<String>" | "Vec<bool>" | "Vec<Vec<u8>>")
}
/// The verdict on a type.
#[derive(Debug)]
enum Verdict {
    Right,
    /// Refused, because of these attributes.
    Attrs(Vec<usize>),
    /// Refused for another reason.
    Whole(String),
    Unclear,
}
fn verdict(t: &Ty) -> Verdict {
    let mut faults = vec![];
    let Ok((r, f)) = read(&t.attrs, false) else { return Verdict::Unclear };
    faults.extend(f);
    let kind = match (&r.kind, &t.shape) {
        (Some(k), _) => k.clone(),
        (None, Shape::Unit) => "unit".into(),
        (None, Shape::Named) => "record".into(),
        (None, Shape::Unnamed) => "tuple".into(),
        (None, Shape::Enum) => "sum".into(),
        (None, Shape::Union) => return if faults.is_empty() { Verdict::Whole("a union".into()) } else { Verdict::Whole("a union, and attributes".into()) },
    };
    let literal = matches!(kind.as_str(), "id" | "unit" | "boolean" | "number" | "string" | "bytes");
    let mut shape_fault = None;
    if literal {
        let fits = if kind == "unit" { t.shape == Shape::Unit } else { t.shape == Shape::Unnamed && t.parts.len() == 1 };
        if !fits {
            return Verdict::Unclear;
        }
        // Whether the fields fit is told later by the compiler; their
        // attributes have no meaning.
        if t.parts.iter().any(|p| p.attrs.iter().any(|a| !matches!(a, At::Foreign(_)))) {
            return Verdict::Unclear;
        }
        if matches!(kind.as_str(), "number" | "bytes") && !r.entries.contains_key("datatype") {
            shape_fault = Some("no datatype");
        }
    } else if t.shape != natural(&kind) {
        shape_fault = Some("another form of type");
    } else {
        match kind.as_str() {
            "sum" if t.parts.iter().any(|p| p.form != 0) => shape_fault = Some("a variant without a single value"),
            "list" | "set" if t.parts.len() != 1 => shape_fault = Some("not a single field"),
            "list" | "set" if !is_vec(t.parts[0].ty) => shape_fault = Some("not a vector"),
            _ => (),
        }
    }
    let mut parts = vec![];
    let mut at = t.attrs.len();
    for p in &t.parts {
        let Ok((x, f)) = read(&p.attrs, true) else { return Verdict::Unclear };
        if x.entries.contains_key("property") && matches!(kind.as_str(), "sum" | "list") || kind != "list" && (x.entries.contains_key("head") || x.entries.contains_key("rest")) {
            // Entries without a meaning are ignored.
            return Verdict::Unclear;
        }
        faults.extend(f.into_iter().map(|i| at + i));
        at += p.attrs.len();
        parts.push((p, x));
    }
    if let Some(f) = shape_fault {
        return Verdict::Whole(f.into());
    }
    if !faults.is_empty() {
        return Verdict::Attrs(faults);
    }
    for (k, kinds) in [("head", "list"), ("tail", "list"), ("resource", "id boolean number string bytes"), ("datatype", "boolean number string bytes")] {
        if r.entries.contains_key(k) && !kinds.split(' ').any(|x| x == kind) {
            return Verdict::Unclear;
        }
    }
    // The layout they say.
    let mut o: Vec<(String, J)> = vec![("type".into(), js(kind.clone()))];
    o.extend(r.entries);
    if !r.prefixes.is_empty() {
        o.push(("prefixes".into(), J::Obj(r.prefixes.into_iter().map(|(k, x)| (k, js(x))).collect())));
    }
    let mut subs = vec![];
    for (i, (p, x)) in parts.into_iter().enumerate() {
        let mut v = vec![("layout".to_string(), js(format!("unused-scheme:/{i}")))];
        let mut c = vec![];
        for (k, e) in x.entries {
            match (k.as_str(), e) {
                ("input", e) => v.push((k, e)),
                ("graph", J::Null) => v.push((k, J::Null)),
                ("graph", J::Arr(mut a)) => v.push((k, a.pop().unwrap())),
                ("graph", _) => (),
                (_, e) => c.push((k, e)),
            }
        }
        c.push(("value".into(), J::Obj(v)));
        if kind == "record" {
            c.push(("required".into(), J::Bool(!p.ty.starts_with("Option<"))));
        }
        subs.push((p.name.clone(), J::Obj(c)));
    }
    match kind.as_str() {
        "record" | "sum" if !subs.is_empty() => o.push((if kind == "record" { "fields" } else { "variants" }.into(), J::Obj(subs))),
        "list" => o.push(("node".into(), subs.pop().unwrap().1)),
        "set" => o.push(("item".into(), subs.pop().unwrap().1)),
        "tuple" => o.push(("items".into(), J::Arr(subs.into_iter().map(|x| x.1).collect()))),
        _ => (),
    }
    let doc = J::Obj(o).to_string();
    match parse_syn(&doc) {
        Err(_) => Verdict::Unclear,
        Ok(l) => match l.build(&mut treeldr_layouts::abs::Builder::new()) {
            Ok(_) => Verdict::Right,
            Err(e) => Verdict::Whole(format!("{e}")),
        },
    }
}

// ---------------------------------------------------------------- embedded
const FILES: &[(&str, &[u8], bool)] = &[
    ("v0.json", br#"{"type":"string","id":"http://ex.org/V0"}"#, true),
    ("v1.json", br#"{"type":"record","id":"http://ex.org/V1","fields":{"a":{"property":"http://ex.org/p","value":"https://treeldr.org/layouts#string","required":true}}}"#, true),
    ("sub/v2.json", br#"{"type":"unit","id":"http://ex.org/V2"}"#, true),
    ("missing.json", b"", false),
    ("sub", b"", false),
    ("bytes.json", b"\xff\xfe{}", false),
    ("syntax.json", br#"{"type":"string","#, false),
    ("empty.json", b"", false),
    ("kind.json", br#"{"type":"strin","id":"http://ex.org/V3"}"#, false),
    ("iri.json", br#"{"type":"string","id":"relative"}"#, false),
    ("var.json", br#"{"type":"string","id":"http://ex.org/V4","resource":"_:x"}"#, false),
    ("dt.json", br#"{"type":"number","id":"http://ex.org/V5"}"#, false),
    ("ref.json", br#"{"type":"set","id":"http://ex.org/V6","item":{"property":"http://ex.org/p","value":{"layout":"http://ex.org/none","graph":42}}}"#, false),
];
fn write_files(d: &std::path::Path) {
    std::fs::create_dir_all(d.join("sub")).unwrap();
    for (n, b, _) in FILES {
        if !matches!(*n, "missing.json" | "sub") {
            std::fs::write(d.join(n), b).unwrap();
        }
    }
}
/// A module embedding layouts, and what is wrong with it.
fn embed(g: &mut G, n: usize) -> (String, Option<String>) {
    let mut files: Vec<&(&str, &[u8], bool)> = FILES.iter().filter(|f| f.2).collect();
    let k = g.below(files.len() + 1);
    files.truncate(k);
    let mut why = None;
    if g.chance(1, 2) {
        let f = &FILES[3 + g.below(FILES.len() - 3)];
        let i = g.below(files.len() + 1);
        files.insert(i, f);
        why = Some(format!("file {}", f.0));
    }
    let l = files.iter().map(|f| vec![st(f.0)]).collect();
    let mut args = commas(g, l);
    if g.chance(1, 8) {
        args = match g.below(4) {
            0 => vec![id("v0")],
            1 => vec![st("v0.json"), st("v1.json")],
            2 => vec![Other("42")],
            _ => vec![st("v0.json"), Punct(','), Group(vec![st("v1.json")])],
        };
        why = Some("the arguments".into());
    }
    let args = show(&args);
    if g.bool() {
        return (format!("mod m{n} {{\ntreeldr::tldr_include!({args});\n}}\n"), why);
    }
    let mut body = String::new();
    let k = g.below(3);
    for _ in 0..k {
        let (t, w) = match g.below(12) {
            0 => ("#[tldr] use crate::ext as x;", Some("tldr without prefix")),
            1 => ("#[tldr = \"http://ex.org/\"] use crate::ext as x;", Some("tldr with a value")),
            2 => ("#[tldr(ex)] use crate::ext as x;", Some("no string")),
            3 => ("#[allow(unused)] use crate::ext as x;", Some("another attribute")),
            4 => ("struct S;", Some("an item")),
            5 => ("#[tldr(\"http://ex.org/\")] use crate::ext::{a, b};", Some("several names")),
            6 => ("#[tldr(\"http://ex.org/\")] use crate::ext::*;", Some("no name")),
            7 => ("fn f() {}", Some("an item")),
            8 => ("use crate::ext as y;", None),
            9 => ("use crate::ext::*;", None),
            _ => ("#[tldr(\"http://ex.org/other#\")] use crate::ext as z;", None),
        };
        if body.contains(t) {
            continue;
        }
        body.push_str(t);
        body.push('\n');
        if let Some(w) = w {
            why = Some(w.into());
        }
    }
    if g.chance(1, 12) {
        return (format!("#[treeldr::tldr({args})]\nstruct M{n};\n"), Some("no module".into()));
    }
    (format!("#[treeldr::tldr({args})]\nmod m{n} {{\n{body}}}\n"), why)
}

// ---------------------------------------------------------------- compiler
/// The library of the derived types, as built for this harness.
fn library() -> &'static str {
    static L: OnceLock<String> = OnceLock::new();
    L.get_or_init(|| {
        let o = Command::new("cargo").args(["build", "--offline", "-q", "--message-format=json"]).current_dir("/verif/harness").stdin(Stdio::null()).stderr(Stdio::null()).output().unwrap();
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        for l in out.lines() {
            let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if j["reason"] == "compiler-artifact" && j["target"]["name"] == "treeldr" {
                if let Some(f) = j["filenames"].as_array().and_then(|f| f.iter().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib"))) {
                    return f.to_string();
                }
            }
        }
        eprintln!("no library of derived types");
        std::process::exit(2)
    })
}
struct Report {
    line: usize,
    message: String,
}
/// The errors of a source file.
fn compile(source: &str) -> Result<Vec<Report>, String> {
    let dir = Scratch::new();
    write_files(&dir.0);
    std::fs::write(dir.0.join("probe.rs"), source).unwrap();
    let lib = library();
    let deps = std::path::Path::new(lib).parent().unwrap();
    let deps = if deps.ends_with("deps") { deps.to_path_buf() } else { deps.join("deps") };
    let o = Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "probe", "--emit=metadata", "--error-format=json", "-Awarnings", "-o", "probe.rmeta", "-L"])
        .arg(format!("dependency={}", deps.display()))
        .args(["--extern", &format!("treeldr={lib}"), "probe.rs"])
        .env_remove("RUST_BACKTRACE")
        .current_dir(&dir.0)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("rustc: {e}"))?;
    let mut out = vec![];
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        // Types are checked later: those errors have a code.
        if j["level"] != "error" || !j["code"].is_null() {
            continue;
        }
        let mut message = j["message"].as_str().unwrap_or("").to_string();
        for c in j["children"].as_array().into_iter().flatten() {
            let _ = write!(message, " / {}", c["message"].as_str().unwrap_or(""));
        }
        // The place in the file, out of the macros.
        fn place(s: &serde_json::Value) -> Option<usize> {
            if !s["expansion"].is_null() {
                if let Some(l) = place(&s["expansion"]["span"]) {
                    return Some(l);
                }
            }
            (s["file_name"] == "probe.rs").then(|| s["line_start"].as_u64().unwrap_or(0) as usize)
        }
        let spans = j["spans"].as_array().cloned().unwrap_or_default();
        // The span itself, when in the file.
        let line = spans.iter().filter(|s| s["is_primary"] == true).find_map(|s| if s["file_name"] == "probe.rs" { s["line_start"].as_u64().map(|l| l as usize) } else { place(s) });
        match line {
            Some(line) => out.push(Report { line, message }),
            None if message.starts_with("aborting") || message.starts_with("Some errors") => (),
            None => return Err(format!("rustc: {message}")),
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- P33
fn p33(g: &mut G) -> R {
    let mut source = String::from("pub mod ext {}\n");
    let mut line = 2;
    let mut items = vec![];
    for i in 0..120 {
        if i > 0 && !g.chance(49, 50) {
            break;
        }
        let (text, lines, v) = if g.chance(1, 5) {
            let (t, why) = embed(g, i);
            (t, vec![], why.map_or(Verdict::Right, Verdict::Whole))
        } else {
            let t = ty(g);
            let (s, l) = t.print(i, line);
            (s, l, verdict(&t))
        };
        match &v {
            Verdict::Right => g.label("right"),
            Verdict::Attrs(_) => g.label("malformed attribute"),
            Verdict::Whole(_) => g.label("refused"),
            Verdict::Unclear => {
                g.label("unclear");
                continue;
            }
        }
        let k = text.lines().count();
        source.push_str(&text);
        items.push((line, line + k, lines, v));
        line += k;
    }
    source.push_str("compile_error!(\"the end\");\n");
    g.note("source", format!("\n{source}"));
    g.nontrivial = items.iter().any(|i| matches!(i.3, Verdict::Right)) && items.iter().any(|i| matches!(i.3, Verdict::Attrs(_)));
    let errors = compile(&source)?;
    ensure!(errors.iter().any(|e| e.line == line), "the compiler stops before the end: {}", errors.first().map_or(String::new(), |e| e.message.clone()));
    for e in &errors {
        ensure!(!e.message.contains("panicked"), "line {}: {}", e.line, e.message);
        ensure!(e.line == line || items.iter().any(|i| (i.0..i.1).contains(&e.line)), "line {}: {}", e.line, e.message);
    }
    for (from, to, lines, v) in &items {
        let mine: Vec<&Report> = errors.iter().filter(|e| (*from..*to).contains(&e.line)).collect();
        let text = || source.lines().skip(from - 1).take(to - from).collect::<Vec<_>>().join("\n");
        match v {
            Verdict::Right => {
                if let Some(e) = mine.first() {
                    fail!("refused at line {}: {}\n{}", e.line, e.message, text());
                }
            }
            Verdict::Whole(why) => ensure!(!mine.is_empty(), "accepted, despite: {why}\n{}", text()),
            Verdict::Attrs(at) => {
                ensure!(!mine.is_empty(), "accepted, despite the attribute at line {}\n{}", lines[at[0]], text());
                for e in mine {
                    ensure!(at.iter().any(|a| lines[*a] == e.line), "the error of line {} is reported at line {}: {}\n{}", lines[at[0]], e.line, e.message, text());
                }
            }
            Verdict::Unclear => (),
        }
    }
    Ok(Outcome::Pass)
}
pub const P33: Prop = Prop { id: "P33", quick: 480, thorough: 6_000, rule: "both a right type and a malformed attribute are in the program", run: p33, known: &[] };
