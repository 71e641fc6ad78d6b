//! The JSON syntax of layouts, written independently: a table of the entries of
//! every construct, a checker listing everything wrong in a document, arbitrary
//! changes of documents, and a printer keeping track of positions.
use crate::engine::G;
use crate::gen::*;
use crate::model::*;
use std::collections::HashMap;
use treeldr_layouts::abs::RegExp;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Step {
    Item(usize),
    /// Value of the i-th entry.
    Entry(usize),
    /// Key of the i-th entry.
    Key(usize),
}
pub type Path = Vec<Step>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctx {
    Layout,
    Ref,
    Value,
    Variant,
    NodeV,
    Iri,
    Pat,
    Pats,
    Name,
    Names,
    Dataset,
    Quad,
    Graph,
    Regex,
    Type,
    Extra,
    ExtraVal,
    Prefixes,
    Fields,
    Field,
    Variants,
    VariantObj,
    Items,
    Item,
    Bool,
    Text,
    Lang,
    Const,
    // Objects without further choice.
    Fmt,
    VFmt,
    Node,
    Lit,
    Typed,
}
use Ctx::*;
/// (key, context, required, `null` means absent for serde)
type Entry = (&'static str, Ctx, bool, bool);
const HEADER: &[Entry] = &[
    ("type", Type, true, false),
    ("base", Iri, false, true),
    ("prefixes", Prefixes, false, false),
    ("id", Iri, false, true),
    ("input", Names, false, false),
    ("intro", Names, false, false),
    ("dataset", Dataset, false, false),
    ("extra", Extra, false, false),
];
pub const KINDS: &[&str] = &["id", "unit", "boolean", "number", "bytes", "string", "record", "sum", "list", "set", "tuple", "union", "intersection"];
pub fn schema(ctx: Ctx, kind: &str) -> Vec<Entry> {
    match ctx {
        Layout => {
            let mut s = HEADER.to_vec();
            let res = ("resource", Pat, false, true);
            s.extend(match kind {
                "unit" => vec![("const", Const, false, false)],
                "boolean" => vec![res, ("datatype", Iri, false, true)],
                "number" | "bytes" => vec![res, ("datatype", Iri, true, false)],
                "string" => vec![res, ("datatype", Iri, false, true), ("pattern", Regex, false, true)],
                "id" => vec![res, ("pattern", Regex, false, true)],
                "record" => vec![("fields", Fields, false, false)],
                "sum" => vec![("variants", Variants, false, false)],
                "list" => vec![("node", NodeV, true, false), ("head", Pat, false, false), ("tail", Pat, false, false)],
                "set" => vec![("item", Item, true, false)],
                "tuple" => vec![("items", Items, false, false)],
                _ => vec![],
            });
            s
        }
        Field => vec![("intro", Names, false, false), ("value", Value, true, false), ("dataset", Dataset, false, false), ("property", Pat, false, true), ("required", Bool, false, false)],
        Item => vec![("intro", Names, false, false), ("value", Value, true, false), ("dataset", Dataset, false, false), ("property", Pat, false, true)],
        Node => vec![("head", Name, false, false), ("rest", Name, false, false), ("intro", Names, false, false), ("value", Value, true, false), ("dataset", Dataset, false, true)],
        VariantObj => vec![("intro", Names, false, false), ("value", Variant, true, false), ("dataset", Dataset, false, false)],
        Fmt | VFmt => vec![("layout", Ref, true, false), ("input", Pats, false, false), ("graph", Graph, false, false)],
        Lit => vec![("value", Text, true, false), ("type", Iri, false, true), ("language", Lang, false, true)],
        Typed => vec![("value", Text, true, false), ("type", Iri, true, false)],
        _ => vec![],
    }
}
pub fn entry<'a>(o: &'a [(String, J)], k: &str) -> Option<&'a J> {
    o.iter().find(|e| e.0 == k).map(|e| &e.1)
}
/// The object context of a JSON object met in a context.
pub fn object_ctx(ctx: Ctx, o: &[(String, J)]) -> Option<Ctx> {
    let layout = o.iter().any(|e| e.0 == "type");
    Some(match ctx {
        Layout | Ref => Layout,
        Value => {
            if layout {
                Layout
            } else {
                Fmt
            }
        }
        Variant => {
            if layout {
                Layout
            } else {
                VFmt
            }
        }
        NodeV => {
            if layout {
                Layout
            } else {
                Node
            }
        }
        Pat | Pats | Graph => Lit,
        ExtraVal => Typed,
        Field => Field,
        Item => Item,
        VariantObj => VariantObj,
        Fmt | VFmt | Node | Lit | Typed => ctx,
        _ => return None,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Unexpected,
    Missing(String),
    Duplicate(String),
    Entry(String),
    NoType,
    BadType,
    Regex,
    Pattern,
    Lang,
    Iri,
    FewQuad,
    ManyQuad,
    Int,
    Overflow,
}
#[derive(Clone, Debug)]
pub struct Found {
    pub path: Path,
    pub fault: Fault,
    /// Something that serde accepts: an explicit `null` where nothing is an
    /// option, a list instead of an object, or a number (an object for
    /// `serde_json`) instead of prefixes.
    pub lenient: bool,
}
pub fn iri_ref_ok(s: &str) -> bool {
    iref::IriRef::new(s).is_ok()
}
/// Everything wrong in a document.
pub fn faults(ctx: Ctx, j: &J) -> Vec<Found> {
    let mut out = vec![];
    check(ctx, j, &mut vec![], false, &mut out);
    out
}
fn object_like(ctx: Ctx) -> bool {
    matches!(ctx, Layout | Ref | Value | Variant | NodeV | Pat | Pats | Graph | ExtraVal | Field | Item | VariantObj | Fmt | VFmt | Node | Lit | Typed | Fields | Variants | Extra | Prefixes)
}
fn check(ctx: Ctx, j: &J, at: &mut Path, nullable: bool, out: &mut Vec<Found>) {
    macro_rules! bad {
        ($f:expr) => {
            out.push(Found { path: at.clone(), fault: $f, lenient: (nullable && *j == J::Null) || (object_like(ctx) && matches!(j, J::Arr(_))) || (ctx == Prefixes && matches!(j, J::Num(_))) })
        };
    }
    match (ctx, j) {
        (Layout | Ref | Value | Variant | NodeV, J::Bool(_)) => (),
        (Ref | Value | Variant | NodeV, J::Str(s)) => {
            if !iri_ref_ok(s) {
                bad!(Fault::Iri)
            }
        }
        (Iri, J::Str(s)) => {
            if !iri_ref_ok(s) {
                bad!(Fault::Iri)
            }
        }
        (Pat | Pats | Graph, J::Str(s)) => {
            if rdf_types::BlankId::new(s.as_str()).is_err() && !iri_ref_ok(s) {
                bad!(Fault::Pattern)
            }
        }
        (Graph, J::Null) => (),
        (Pats, J::Arr(a)) => {
            let n = out.len();
            items(Pat, a, at, out);
            // Taken for a literal value by serde.
            if a.len() == 3 && a.contains(&J::Null) {
                out[n..].iter_mut().for_each(|f| f.lenient = true)
            }
        }
        (Names, J::Arr(a)) => items(Name, a, at, out),
        (Names | Name | Text, J::Str(_)) => (),
        (Lang, J::Str(s)) => {
            if langtag::LangTagBuf::new(s.clone()).is_err() {
                let last = at.pop();
                bad!(Fault::Lang);
                at.extend(last);
            }
        }
        (Dataset, J::Arr(a)) => items(Quad, a, at, out),
        (Items, J::Arr(a)) => items(Item, a, at, out),
        (Quad, J::Arr(a)) => {
            if a.len() < 3 {
                bad!(Fault::FewQuad)
            } else if a.len() > 4 {
                bad!(Fault::ManyQuad)
            } else {
                for (i, x) in a.iter().enumerate() {
                    at.push(Step::Item(i));
                    check(Pat, x, at, i == 3, out);
                    at.pop();
                }
            }
        }
        (Regex, J::Str(s)) => {
            if RegExp::parse(s).is_err() {
                bad!(Fault::Regex)
            }
        }
        (Bool, J::Bool(_)) | (Const, _) => (),
        (ExtraVal, J::Bool(_) | J::Str(_)) => (),
        (ExtraVal, J::Num(n)) => {
            if n.contains('.') {
                bad!(Fault::Int)
            } else if n.parse::<i64>().is_err() {
                bad!(Fault::Overflow)
            }
        }
        (Extra | Prefixes | Fields | Variants, J::Obj(o)) => {
            let sub = match ctx {
                Extra => ExtraVal,
                Prefixes => Iri,
                Fields => Field,
                _ => VariantObj,
            };
            for (i, (k, x)) in o.iter().enumerate() {
                if ctx == Extra && !iri_ref_ok(k) {
                    at.push(Step::Key(i));
                    out.push(Found { path: at.clone(), fault: Fault::Iri, lenient: false });
                    at.pop();
                }
                at.push(Step::Entry(i));
                check(sub, x, at, false, out);
                at.pop();
            }
        }
        (_, J::Obj(o)) => match object_ctx(ctx, o) {
            None => bad!(Fault::Unexpected),
            Some(c) => object(c, o, at, out),
        },
        _ => bad!(Fault::Unexpected),
    }
}
fn items(ctx: Ctx, a: &[J], at: &mut Path, out: &mut Vec<Found>) {
    for (i, x) in a.iter().enumerate() {
        at.push(Step::Item(i));
        check(ctx, x, at, false, out);
        at.pop();
    }
}
fn object(ctx: Ctx, o: &[(String, J)], at: &mut Path, out: &mut Vec<Found>) {
    let mut kind = "";
    let dup = |k: &str, at: &mut Path, out: &mut Vec<Found>| {
        for (i, e) in o.iter().enumerate() {
            if e.0 == k {
                at.push(Step::Key(i));
                out.push(Found { path: at.clone(), fault: Fault::Duplicate(k.into()), lenient: false });
                at.pop();
            }
        }
    };
    let count = |k: &str| o.iter().filter(|e| e.0 == k).count();
    if ctx == Layout {
        match count("type") {
            0 => return out.push(Found { path: at.clone(), fault: Fault::NoType, lenient: false }),
            1 => (),
            _ => return dup("type", at, out),
        }
        let i = o.iter().position(|e| e.0 == "type").unwrap();
        at.push(Step::Entry(i));
        match &o[i].1 {
            J::Str(s) if KINDS.contains(&s.as_str()) => kind = s,
            J::Str(_) => out.push(Found { path: at.clone(), fault: Fault::BadType, lenient: false }),
            _ => out.push(Found { path: at.clone(), fault: Fault::Unexpected, lenient: false }),
        }
        at.pop();
        if kind.is_empty() {
            return;
        }
    }
    let mut s = schema(ctx, kind);
    if ctx == Lit && count("type") > 0 {
        s.retain(|e| e.0 != "language");
    }
    for (k, c, req, nullable) in &s {
        match count(k) {
            0 => {
                if *req {
                    out.push(Found { path: at.clone(), fault: Fault::Missing(k.to_string()), lenient: false })
                }
            }
            1 => {
                if *c != Type {
                    let i = o.iter().position(|e| e.0 == *k).unwrap();
                    at.push(Step::Entry(i));
                    check(*c, &o[i].1, at, *nullable, out);
                    at.pop();
                }
            }
            _ => dup(k, at, out),
        }
    }
    for (i, (k, _)) in o.iter().enumerate() {
        if s.iter().all(|e| e.0 != k) {
            at.push(Step::Key(i));
            // A language besides a null type is fine for serde.
            let null = ctx == Lit && (entry(o, "type") == Some(&J::Null) || k == "language" && entry(o, k) == Some(&J::Null));
            out.push(Found { path: at.clone(), fault: Fault::Entry(k.clone()), lenient: null });
            at.pop();
        }
    }
}

/// Calls `f` on every fragment, with its context.
pub fn walk<'a>(ctx: Ctx, j: &'a J, f: &mut dyn FnMut(Ctx, &'a J)) {
    f(ctx, j);
    match (ctx, j) {
        (Pats, J::Arr(a)) => a.iter().for_each(|x| walk(Pat, x, f)),
        (Names, J::Arr(a)) => a.iter().for_each(|x| walk(Name, x, f)),
        (Dataset, J::Arr(a)) => a.iter().for_each(|x| walk(Quad, x, f)),
        (Items, J::Arr(a)) => a.iter().for_each(|x| walk(Item, x, f)),
        (Quad, J::Arr(a)) => a.iter().for_each(|x| walk(Pat, x, f)),
        (Extra, J::Obj(o)) => o.iter().for_each(|x| walk(ExtraVal, &x.1, f)),
        (Prefixes, J::Obj(o)) => o.iter().for_each(|x| walk(Iri, &x.1, f)),
        (Fields, J::Obj(o)) => o.iter().for_each(|x| walk(Field, &x.1, f)),
        (Variants, J::Obj(o)) => o.iter().for_each(|x| walk(VariantObj, &x.1, f)),
        (Const, _) => (),
        (_, J::Obj(o)) => {
            if let Some(c) = object_ctx(ctx, o) {
                let kind = match entry(o, "type") {
                    Some(J::Str(s)) if c == Layout => s.as_str(),
                    _ => "",
                };
                for (k, sub, ..) in schema(c, kind) {
                    if let Some(x) = entry(o, k) {
                        walk(sub, x, f)
                    }
                }
            }
        }
        _ => (),
    }
}

// ---------------------------------------------------------------- printing
pub struct Printed {
    pub text: String,
    pub spans: HashMap<Path, (usize, usize)>,
}
/// Prints a document, with arbitrary white spaces if asked.
pub fn print(j: &J, mut g: Option<&mut G>) -> Printed {
    let mut p = Printed { text: String::new(), spans: HashMap::new() };
    put(j, &mut vec![], &mut p, &mut g);
    p
}
fn space(p: &mut Printed, g: &mut Option<&mut G>) {
    if let Some(g) = g {
        match g.weighted(&[6, 1, 1]) {
            0 => (),
            1 => p.text.push(' '),
            _ => p.text.push_str("\n\t"),
        }
    }
}
fn put(j: &J, at: &mut Path, p: &mut Printed, g: &mut Option<&mut G>) {
    let start = p.text.len();
    match j {
        J::Arr(a) => {
            p.text.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    p.text.push(',')
                }
                space(p, g);
                at.push(Step::Item(i));
                put(x, at, p, g);
                at.pop();
                space(p, g);
            }
            p.text.push(']');
        }
        J::Obj(o) => {
            p.text.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    p.text.push(',')
                }
                space(p, g);
                at.push(Step::Key(i));
                let s = p.text.len();
                p.text.push_str(&json_str(k));
                let e = p.text.len();
                p.spans.insert(at.clone(), (s, e));
                at.pop();
                space(p, g);
                p.text.push(':');
                space(p, g);
                at.push(Step::Entry(i));
                put(x, at, p, g);
                at.pop();
                space(p, g);
            }
            p.text.push('}');
        }
        x => p.text.push_str(&x.to_string()),
    }
    p.spans.insert(at.clone(), (start, p.text.len()));
}

// ---------------------------------------------------------------- changes
pub fn nodes(j: &J) -> usize {
    1 + match j {
        J::Arr(a) => a.iter().map(nodes).sum(),
        J::Obj(a) => a.iter().map(|e| nodes(&e.1)).sum(),
        _ => 0,
    }
}
pub fn nth<'a>(j: &'a J, n: &mut usize) -> Option<&'a J> {
    if *n == 0 {
        return Some(j);
    }
    *n -= 1;
    match j {
        J::Arr(a) => a.iter().find_map(|x| nth(x, n)),
        J::Obj(a) => a.iter().find_map(|x| nth(&x.1, n)),
        _ => None,
    }
}
fn nth_mut(j: &mut J, n: &mut usize, f: &mut dyn FnMut(&mut J)) {
    if *n == 0 {
        f(j);
        *n = usize::MAX;
        return;
    }
    *n -= 1;
    let it: Box<dyn Iterator<Item = &mut J>> = match j {
        J::Arr(a) => Box::new(a.iter_mut()),
        J::Obj(a) => Box::new(a.iter_mut().map(|e| &mut e.1)),
        _ => return,
    };
    for x in it {
        nth_mut(x, n, f);
        if *n == usize::MAX {
            return;
        }
    }
}
const KEYS: &[&str] = &[
    "type", "base", "prefixes", "id", "input", "intro", "dataset", "extra", "const", "resource", "datatype", "pattern", "fields", "variants", "node", "head", "tail", "rest", "item", "items", "value",
    "property", "required", "layout", "graph", "language", "foo", "", "Type",
];
const STRINGS: &[&str] = &[
    "self", "value", "_:self", "_:value", "_:head", "_:rest", "_:nope", "http://ex.org/other", "ex:b", "rel/path", "#frag", "", "a b", "_:", "_:a b", "http://ex.org/a b", "%zz", "record", "string", "union", "number", "list", "tuple", "sum", "id", "fr",
    "fr-", "en-US", "[a-", "a|b", "(", "x*", "https://treeldr.org/prelude#string", "http://www.w3.org/2001/XMLSchema#string", "\u{e9}", "<", "::",
];
pub fn small_json(g: &mut G, depth: usize) -> J {
    match g.weighted(&[3, 1, 1, 1, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => js(*g.pick(STRINGS)),
        1 => J::Null,
        2 => J::Bool(g.bool()),
        3 => J::Num(g.pick(&["0", "1", "-5", "1.5", "1.0", "1e3", "9223372036854775808", "-9223372036854775808", "12e1", "1e-2", "300"]).to_string()),
        4 => {
            let n = g.below(5);
            J::Arr((0..n).map(|_| small_json(g, depth - 1)).collect())
        }
        _ => {
            let n = 1 + g.below(3);
            J::Obj((0..n).map(|_| (g.pick(KEYS).to_string(), small_json(g, depth - 1))).collect())
        }
    }
}
/// Makes one arbitrary change.
pub fn mutate_json(g: &mut G, doc: &mut J) {
    let n = nodes(doc);
    let at = g.below(n);
    let other = {
        let mut o = g.below(n);
        nth(doc, &mut o).cloned().unwrap_or(J::Null)
    };
    let mut at = at;
    nth_mut(doc, &mut at, &mut |j| {
        match (g.below(8), &mut *j) {
            (0, _) => *j = small_json(g, 2),
            (1, _) => *j = other.clone(),
            (2, _) => *j = J::Arr(vec![j.clone()]),
            (3, J::Arr(a)) if a.len() == 1 => *j = a[0].clone(),
            (_, J::Str(s)) => *s = g.pick(STRINGS).to_string(),
            (k, J::Arr(a)) => match k {
                4 if !a.is_empty() => {
                    let i = g.below(a.len());
                    a.remove(i);
                }
                5 if !a.is_empty() => {
                    let i = g.below(a.len());
                    let x = a[i].clone();
                    a.insert(i, x);
                }
                _ => {
                    let i = g.below(a.len() + 1);
                    a.insert(i, if k == 6 { other.clone() } else { small_json(g, 1) })
                }
            },
            (k, J::Obj(o)) if !o.is_empty() => {
                let i = g.below(o.len());
                match k {
                    3 => {
                        o.remove(i);
                    }
                    4 => {
                        let x = o[i].clone();
                        o.push(x)
                    }
                    5 => o[i].0 = g.pick(KEYS).to_string(),
                    6 => o.push((g.pick(KEYS).to_string(), other.clone())),
                    _ => o.push((g.pick(KEYS).to_string(), small_json(g, 1))),
                }
            }
            _ => *j = small_json(g, 1),
        }
        if matches!(j, J::Obj(o) if o.is_empty()) {
            *j = J::Null
        }
    });
}
/// The reader of the `json-syntax` dependency gives no size to empty objects.
pub fn no_empty_obj(j: &mut J) {
    match j {
        J::Obj(o) if o.is_empty() => *j = J::Null,
        J::Obj(o) => o.iter_mut().for_each(|e| no_empty_obj(&mut e.1)),
        J::Arr(a) => a.iter_mut().for_each(no_empty_obj),
        _ => (),
    }
}
/// Layout documents, mutated up to `max` times.
pub fn wild_docs(g: &mut G, depth: usize, max: usize) -> Vec<J> {
    let docs = {
        let mut lg = Lg::new(g);
        lg.extras = lg.g.chance(1, 3);
        lg.docs(depth)
    };
    let mut docs: Vec<J> = docs.iter().map(|l| layout_json(l, &mut RandomStyle(g))).collect();
    for d in &mut docs {
        if let J::Obj(o) = d {
            // Entries that the generator never writes.
            if g.chance(1, 8) {
                o.push(("base".into(), js("http://ex.org/base/")));
            }
            if g.chance(1, 8) {
                o.push(("prefixes".into(), J::Obj(vec![("ex".into(), js("http://ex.org/")), ("tldr".into(), js(PRELUDE)), ("frag".into(), js("http://ex.org/f#")), ("Ex".into(), js("http://ex.org/E"))])));
            }
        }
        if g.chance(1, 6) {
            with_patterns(g, d);
        }
    }
    if max > 0 && g.chance(1, 3) {
        let k = 1 + g.below(2);
        for _ in 0..k {
            twist(g, &mut docs);
        }
    }
    let k = g.below(max + 1);
    for _ in 0..k {
        let i = g.below(docs.len());
        mutate_json(g, &mut docs[i]);
    }
    docs.iter_mut().for_each(no_empty_obj);
    docs
}
/// Calls `f` on every fragment, with its context, before its parts.
fn walk_mut(ctx: Ctx, j: &mut J, f: &mut dyn FnMut(Ctx, &mut J)) {
    f(ctx, j);
    match (ctx, j) {
        (Pats | Quad, J::Arr(a)) => a.iter_mut().for_each(|x| walk_mut(Pat, x, f)),
        (Names, J::Arr(a)) => a.iter_mut().for_each(|x| walk_mut(Name, x, f)),
        (Dataset, J::Arr(a)) => a.iter_mut().for_each(|x| walk_mut(Quad, x, f)),
        (Items, J::Arr(a)) => a.iter_mut().for_each(|x| walk_mut(Item, x, f)),
        (Extra, J::Obj(o)) => o.iter_mut().for_each(|x| walk_mut(ExtraVal, &mut x.1, f)),
        (Prefixes, J::Obj(o)) => o.iter_mut().for_each(|x| walk_mut(Iri, &mut x.1, f)),
        (Fields, J::Obj(o)) => o.iter_mut().for_each(|x| walk_mut(Field, &mut x.1, f)),
        (Variants, J::Obj(o)) => o.iter_mut().for_each(|x| walk_mut(VariantObj, &mut x.1, f)),
        (Const, _) => (),
        (_, J::Obj(o)) => {
            if let Some(c) = object_ctx(ctx, o) {
                let kind = match entry(o, "type") {
                    Some(J::Str(s)) if c == Layout => s.clone(),
                    _ => String::new(),
                };
                for (k, sub, ..) in schema(c, &kind) {
                    if let Some(x) = o.iter_mut().find(|e| e.0 == k) {
                        walk_mut(sub, &mut x.1, f)
                    }
                }
            }
        }
        _ => (),
    }
}
fn set(o: &mut Vec<(String, J)>, k: &str, v: Option<J>) {
    o.retain(|e| e.0 != k);
    if let Some(v) = v {
        o.push((k.into(), v))
    }
}
/// Makes one change that gives another well-formed document, often one with
/// unusual variables, IRIs, links or an error of meaning.
pub fn twist(g: &mut G, docs: &mut [J]) {
    let interesting = |c: Ctx, j: &J| matches!((c, j), (Node | NodeV | Item | Field | VariantObj | Layout | Ref | Value | Variant, J::Obj(_)) | (Quad, J::Arr(_)) | (Iri, J::Str(_)) | (Graph | Pat, _) | (Pats, _));
    let mut n = 0;
    let mut ids = vec![];
    for d in docs.iter() {
        walk(Layout, d, &mut |c, j| {
            n += interesting(c, j) as usize;
            if let J::Obj(o) = j {
                if let (Some(_), Some(J::Str(i))) = (entry(o, "type"), entry(o, "id")) {
                    ids.push(i.clone())
                }
            }
        })
    }
    if n == 0 {
        return;
    }
    let mut at = g.below(n) as isize;
    let names: &[&[&str]] = &[&[], &["value"], &["x", "value"], &["value", "x"], &["x"], &["self", "value"], &["head"]];
    let lit = |g: &mut G| J::Obj(vec![("value".into(), js(*g.pick(&["a", "", "12"]))), if g.bool() { ("type".into(), js("http://ex.org/string")) } else { ("language".into(), js("fr")) }]);
    const IRIS: &[&str] = &["http://ex.org/nil", "http://ex.org/string", "http://ex.org/a:b", "http://ex.org/c:d:e", "frag:a#b", "Ex:a", "ex:a:b", "http://www.w3.org/1999/02/22-rdf-syntax-ns#nil", "http://www.w3.org/2001/XMLSchema#string", "http://ex.org/boolean", "http://ex.org/first", "http://ex.org/f#x"];
    for d in docs.iter_mut() {
        walk_mut(Layout, d, &mut |c, j| {
            if !interesting(c, j) {
                return;
            }
            at -= 1;
            if at != -1 {
                return;
            }
            match (c, &mut *j) {
                (Iri, J::Str(s)) => *s = g.pick(IRIS).to_string(),
                (Graph | Pat, _) => *j = if g.bool() { lit(g) } else { js(*g.pick(IRIS)) },
                (Pats, _) => {
                    let n = g.below(3);
                    *j = J::Arr((0..n).map(|_| js(*g.pick(&["_:self", "_:value", "_:x", "http://ex.org/a:b"]))).collect())
                }
                (Quad, J::Arr(a)) => {
                    let i = g.below(a.len().max(1));
                    if i < a.len() {
                        a[i] = lit(g)
                    }
                    if a.len() == 3 && g.bool() {
                        a.push(js("_:self"))
                    }
                }
                (_, J::Obj(o)) => match object_ctx(c, o) {
                    Some(Layout) => match g.below(7) {
                        0 | 1 if !ids.is_empty() => set(o, "id", Some(js(g.pick(&ids).clone()))),
                        2 => set(o, "id", Some(js(*g.pick(IRIS)))),
                        3 => set(o, "input", Some(J::Arr(vec![]))),
                        4 => set(o, "datatype", entry(o, "datatype").map(|_| js(*g.pick(IRIS)))),
                        5 if matches!(entry(o, "type"), Some(J::Str(k)) if k == "list") => {
                            let k = *g.pick(&["head", "tail"]);
                            set(o, k, Some(js(*g.pick(IRIS))))
                        }
                        _ => {
                            let names = *g.pick(names);
                            set(o, "intro", Some(J::Arr(names.iter().map(|x| js(*x)).collect())))
                        }
                    },
                    Some(Lit | Typed) => (),
                    Some(Fmt | VFmt) => {
                        if let Some(l) = entry(o, "layout") {
                            *j = l.clone()
                        }
                    }
                    _ => {
                        let k = 1 + g.below(3);
                        for _ in 0..k {
                            match g.below(7) {
                                5 | 6 if c != VariantObj => {
                                    // No variable of its own: the value is about those of the enclosing layout.
                                    set(o, "intro", Some(J::Arr(vec![])));
                                    let layout = match entry(o, "value") {
                                        Some(J::Obj(f)) => entry(f, "layout").cloned().unwrap_or_else(|| J::Obj(f.clone())),
                                        Some(l) => l.clone(),
                                        None => js("http://ex.org/a"),
                                    };
                                    let mut f = vec![("layout".to_string(), layout)];
                                    if g.chance(4, 5) {
                                        f.push(("input".into(), J::Arr(vec![js(*g.pick(&["_:self", "_:head", "_:rest", "http://ex.org/a"]))])))
                                    }
                                    set(o, "value", Some(J::Obj(f)));
                                    match g.below(4) {
                                        0 => (),
                                        1 if c == Item || c == Field => {
                                            set(o, "property", Some(js("http://ex.org/p")));
                                            set(o, "dataset", None)
                                        }
                                        _ => {
                                            set(o, "property", None);
                                            set(o, "dataset", Some(J::Arr(vec![])))
                                        }
                                    }
                                }
                                0 => set(o, "dataset", None),
                                1 => set(o, "dataset", Some(J::Arr(vec![]))),
                                2 if c == Item || c == Field => set(o, "property", Some(js(*g.pick(&["http://ex.org/a:b", "http://ex.org/p", "_:self"])))),
                                3 => {
                                    if let Some(J::Obj(f)) = entry(o, "value") {
                                        if let Some(l) = entry(f, "layout").cloned() {
                                            set(o, "value", Some(l))
                                        }
                                    }
                                }
                                _ => {
                                    let names = *g.pick(names);
                                    set(o, "intro", Some(J::Arr(names.iter().map(|x| js(*x)).collect())))
                                }
                            }
                        }
                    }
                },
                _ => (),
            }
        })
    }
}
fn with_patterns(g: &mut G, j: &mut J) {
    match j {
        J::Obj(o) => {
            if matches!(entry(o, "type"), Some(J::Str(s)) if s == "string" || s == "id") {
                o.push(("pattern".into(), js(*g.pick(&["[a-z]+", "a|bc*", "(x.)?", "", "\\[", "[^0-9]", "."]))))
            }
            o.iter_mut().for_each(|e| with_patterns(g, &mut e.1))
        }
        J::Arr(a) => a.iter_mut().for_each(|x| with_patterns(g, x)),
        _ => (),
    }
}
