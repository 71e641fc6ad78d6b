//! Generators: layouts, conforming values, mutations of layouts, values and
//! datasets.
use crate::engine::G;
use crate::model::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use rdf_types::{Quad, Term};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::{Literal, Value};

pub const EX: &str = "http://ex.org/";

pub fn num(r: BigRational) -> Value {
    Value::Literal(Literal::Number(r.into()))
}
pub fn int(i: i64) -> Value {
    num(BigRational::from_integer(i.into()))
}
pub fn xsd(n: &str) -> String {
    format!("{XSD}{n}")
}
pub const INT_TYPES: &[(&str, &str, &str)] = &[
    ("integer", "-340282366920938463463374607431768211456", "340282366920938463463374607431768211456"),
    ("decimal", "-340282366920938463463374607431768211456", "340282366920938463463374607431768211456"),
    ("int", "-2147483648", "2147483647"),
    ("byte", "-128", "127"),
    ("short", "-32768", "32767"),
    ("long", "-9223372036854775808", "9223372036854775807"),
    ("unsignedByte", "0", "255"),
    ("unsignedShort", "0", "65535"),
    ("unsignedInt", "0", "4294967295"),
    ("unsignedLong", "0", "18446744073709551615"),
    ("nonNegativeInteger", "0", "340282366920938463463374607431768211456"),
    ("nonPositiveInteger", "-340282366920938463463374607431768211456", "0"),
    ("positiveInteger", "1", "340282366920938463463374607431768211456"),
    ("negativeInteger", "-340282366920938463463374607431768211456", "-1"),
];
pub fn g_big(g: &mut G, lo: &BigInt, hi: &BigInt) -> BigInt {
    let zero = BigInt::from(0);
    let small = BigInt::from(g.below(20) as i64);
    let x = match g.weighted(&[6, 3, 2, 2, 2]) {
        0 => small,
        1 => -small,
        2 => lo + small,
        3 => hi - small,
        _ => {
            let bits = 1 + g.below(130) as u32;
            let mut b = BigInt::from(1) << bits;
            match g.below(4) {
                0 => (),
                1 => b -= 1,
                2 => b += BigInt::from(g.u64()),
                _ => b = BigInt::from(g.u64()),
            }
            if g.bool() {
                -b
            } else {
                b
            }
        }
    };
    if &x < lo || &x > hi {
        if lo <= &zero && hi >= &zero {
            zero
        } else if hi < &zero {
            hi.clone()
        } else {
            lo.clone()
        }
    } else {
        x
    }
}
pub fn g_number(g: &mut G, dt: &str) -> BigRational {
    let t = dt.strip_prefix(XSD).unwrap_or("decimal");
    let (_, lo, hi) = INT_TYPES.iter().find(|x| x.0 == t).unwrap_or(&INT_TYPES[1]);
    let n = g_big(g, &lo.parse().unwrap(), &hi.parse().unwrap());
    if t == "decimal" && g.bool() {
        let k = 1 + g.below(12) as u32;
        BigRational::new(n, BigInt::from(10).pow(k))
    } else {
        BigRational::from_integer(n)
    }
}
pub const CHARS: &[char] = &[
    'a', 'b', 'c', 'Z', '0', '9', ' ', '-', '_', '.', '"', '\\', '\n', '\r', '\t', '/', ':', '#', '<', '>', '{', '}', '\'', '&', 'é', 'ß', '中', '\u{0}', '\u{7f}', '\u{85}', '\u{2028}', '\u{1F600}',
    '\u{FFFD}', '\u{1}', '^', '@', 'E', '+',
];
pub fn g_text(g: &mut G) -> String {
    let n = g.len(8);
    (0..n).map(|_| *g.pick(CHARS)).collect()
}
pub fn g_bytes(g: &mut G) -> Vec<u8> {
    let n = g.len(9);
    (0..n).map(|_| if g.bool() { g.below(256) as u8 } else { *g.pick(&[0u8, 255, 0x3e, 0x3f, 10, 0x80]) }).collect()
}
/// Documents with an empty JSON object are not generated: the JSON parser (a
/// dependency) gives wrong positions to what follows one.
pub fn no_empty_map(x: Value) -> Value {
    match x {
        Value::Map(m) if m.is_empty() => Value::unit(),
        Value::Map(m) => Value::Map(m.into_iter().map(|(k, x)| (k, no_empty_map(x))).collect()),
        Value::List(l) => Value::List(l.into_iter().map(no_empty_map).collect()),
        x => x,
    }
}
/// Any tree value. `json`: only what JSON can express.
pub fn g_value(g: &mut G, depth: usize, json: bool) -> Value {
    let k = g.weighted(&[3, 3, 4, 4, if json { 0 } else { 2 }, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }]);
    match k {
        0 => Value::unit(),
        1 => Value::Literal(Literal::Boolean(g.bool())),
        2 => {
            let dt = if g.bool() { "integer" } else { "decimal" };
            let mut n = g_number(g, &xsd(dt));
            if !json && g.chance(1, 8) {
                n /= BigRational::from_integer(BigInt::from(*g.pick(&[3, 7, 12, 30])));
            }
            num(n)
        }
        3 => Value::string(g_text(g)),
        4 => Value::Literal(Literal::ByteString(g_bytes(g))),
        5 => {
            let n = g.len(4);
            Value::List((0..n).map(|_| g_value(g, depth - 1, json)).collect())
        }
        _ => {
            let n = g.len(4);
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = if json || g.chance(3, 4) { Value::string(g_text(g)) } else { g_value(g, depth - 1, json) };
                m.insert(k, g_value(g, depth - 1, json));
            }
            Value::Map(m)
        }
    }
}

// ---------------------------------------------------------------- layouts
pub struct Lg<'a> {
    pub g: &'a mut G,
    n: usize,
    /// Every layout gets an identifier.
    pub all_ids: bool,
    /// Identified layouts still being defined / completely defined.
    open: Vec<(String, usize)>,
    closed: Vec<(String, usize)>,
    pub prelude: bool,
    pub bytes: bool,
    pub graphs: bool,
    pub extras: bool,
    /// Weight of explicit graphs.
    pub graph_weight: u32,
    no_top_id: bool,
    /// Kinds, first number and constant strings of the next sum.
    nested: Option<(Vec<C>, usize, bool)>,
    nests: usize,
    budget: usize,
}
pub const PRELUDE_IDS: &[&str] = &["unit", "boolean", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "string", "id"];
/// Model of the prelude layouts.
pub fn prelude_layouts() -> Vec<L> {
    PRELUDE_IDS
        .iter()
        .map(|n| {
            let k = match *n {
                "unit" => K::Unit(Value::unit()),
                "boolean" => K::Bool { res: None, dt: None },
                "string" => K::Str { res: None, dt: None, pat: None },
                "id" => K::Id { res: None, pat: None },
                n => K::Num {
                    res: None,
                    dt: xsd(match n {
                        "u8" => "unsignedByte",
                        "u16" => "unsignedShort",
                        "u32" => "unsignedInt",
                        "u64" => "unsignedLong",
                        "i8" => "byte",
                        "i16" => "short",
                        "i32" => "int",
                        _ => "long",
                    }),
                },
            };
            L::def(H { id: Some(format!("{PRELUDE}{n}")), input: vec!["self".into()], ..H::default() }, k)
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq)]
enum C {
    Bool,
    Num,
    Str,
    Id,
    Bytes,
    Unit,
    Rec,
    List,
    Set,
    Tuple,
    Sum,
}

impl<'a> Lg<'a> {
    pub fn new(g: &'a mut G) -> Self {
        Lg { g, n: 0, all_ids: false, open: vec![], closed: vec![], prelude: true, bytes: true, graphs: true, extras: false, graph_weight: 1, no_top_id: false, nested: None, nests: 0, budget: 14 }
    }
    pub fn fresh(&mut self, tag: &str) -> String {
        self.n += 1;
        format!("{EX}{tag}{}", self.n)
    }
    fn pred(&mut self) -> P {
        P::Iri(self.fresh("p"))
    }
    fn constant(&mut self) -> P {
        match self.g.weighted(&[5, 1, 1]) {
            0 => P::Iri(self.fresh("c")),
            1 => {
                let t = g_text(self.g);
                P::Lit(t, LT::Dt(xsd(*self.g.clone_pick(&["string", "date"]))))
            }
            _ => P::Lit("bonjour".into(), LT::Lang(self.g.clone_pick(&["fr", "en-us"]).to_string())),
        }
    }
    fn header(&mut self, c: C) -> H {
        let mut h = H { input: vec!["self".into()], ..H::default() };
        if self.g.chance(1, 6) {
            h.input = vec![self.g.clone_pick(&["self", "me", "x0"]).to_string()];
        }
        let skip = std::mem::take(&mut self.no_top_id);
        if (self.all_ids || self.g.chance(1, 5)) && !skip {
            h.id = Some(self.fresh("L"));
        }
        if self.g.chance(1, 10) && !matches!(c, C::Sum) {
            // More inputs, only used in fully bound quads.
            let n = if self.g.chance(1, 6) { 3 + self.g.below(2) } else { 1 + self.g.below(2) };
            for i in 0..n {
                h.input.push(format!("in{i}"));
            }
        }
        let me = v(&h.input[0]);
        if self.g.chance(1, 4) {
            let q = (me.clone(), self.pred(), self.constant(), None);
            h.dataset.push(q);
        }
        if h.input.len() > 1 && self.g.bool() {
            let q = (me.clone(), self.pred(), v(&h.input[1]), None);
            h.dataset.push(q);
        }
        if matches!(c, C::Rec | C::Tuple | C::Set | C::Unit) && self.g.chance(1, 5) {
            // Introduced resource, reached from the input.
            h.intro.push("mid0".into());
            let q = (me.clone(), self.pred(), v("mid0"), None);
            h.dataset.push(q);
            if self.g.bool() {
                let q = (v("mid0"), self.pred(), self.constant(), None);
                h.dataset.push(q);
            }
        }
        if matches!(c, C::Rec | C::Tuple | C::Set | C::Unit) && self.g.chance(1, 25) {
            // Many quads, one of which reaches another resource.
            h.intro.push("wide".into());
            let n = 4 + self.g.below(3);
            let at = self.g.below(n);
            for i in 0..n {
                let o = if i == at { v("wide") } else { self.constant() };
                let q = (me.clone(), self.pred(), o, None);
                h.dataset.push(q);
            }
        }
        if self.extras && self.g.chance(1, 3) {
            let n = 1 + self.g.below(2);
            for _ in 0..n {
                let k = self.fresh("x");
                let x = match self.g.below(4) {
                    0 => X::Bool(self.g.bool()),
                    1 => X::Int(self.g.below(300) as i64 - 100),
                    2 => X::Str(g_text(self.g)),
                    _ => X::Typed(g_text(self.g), xsd("token")),
                };
                h.extra.push((k, x));
            }
        }
        h
    }
    /// Any layout.
    pub fn layout(&mut self, depth: usize) -> L {
        if self.budget > 0 {
            self.budget -= 1;
        }
        let deep = if depth > 0 && self.budget > 0 { 4 } else { 0 };
        let c = [C::Str, C::Bool, C::Num, C::Id, C::Bytes, C::Unit, C::Rec, C::List, C::Set, C::Tuple, C::Sum];
        let i = self.g.weighted(&[3, 1, 2, 1, if self.bytes { 1 } else { 0 }, 1, deep * 3, deep, deep, deep / 2, deep]);
        self.of(c[i], depth, vec![], false)
    }
    fn of(&mut self, c: C, depth: usize, req_keys: Vec<String>, on_self: bool) -> L {
        let mut h = self.header(c);
        if on_self {
            h.input.truncate(1);
            h.dataset.retain(|q| !matches!(&q.2, P::Var(x) if x.starts_with("in")));
        }
        let lit_res = |s: &mut Self, h: &mut H| -> Option<P> {
            match s.g.weighted(&[5, 1, 1]) {
                0 => None,
                1 => Some(v(&h.input[0])),
                _ => {
                    h.intro.push("lit".into());
                    let q = (v(&h.input[0]), s.pred(), v("lit"), None);
                    h.dataset.push(q);
                    Some(v("lit"))
                }
            }
        };
        let opened = h.id.clone();
        if let Some(id) = &opened {
            self.open.push((id.clone(), h.input.len()));
        }
        let k = match c {
            C::Bool => K::Bool { res: lit_res(self, &mut h), dt: self.g.bool().then(|| xsd("boolean")) },
            C::Num => {
                let t = self.g.below(INT_TYPES.len());
                K::Num { res: lit_res(self, &mut h), dt: xsd(INT_TYPES[t].0) }
            }
            C::Str => {
                let dt = match self.g.weighted(&[4, 1, 1, 1]) {
                    0 => None,
                    1 => Some(xsd("string")),
                    2 => Some(xsd("token")),
                    _ => Some(format!("{EX}datatype")),
                };
                K::Str { res: lit_res(self, &mut h), dt, pat: None }
            }
            C::Id => K::Id { res: lit_res(self, &mut h), pat: None },
            C::Bytes => K::Bytes { res: lit_res(self, &mut h), dt: xsd(*self.g.clone_pick(&["hexBinary", "base64Binary"])) },
            C::Unit => {
                let x = if self.g.bool() { Value::unit() } else { no_empty_map(g_value(self.g, 1, true)) };
                K::Unit(x)
            }
            C::Rec => {
                let n = self.g.len(4);
                let mut keys: Vec<String> = ["a", "b", "c", "name", "x y", "é", ""].iter().map(|s| s.to_string()).collect();
                let mut fs = vec![];
                for k in &req_keys {
                    keys.retain(|x| x != k);
                    fs.push(self.field(k.clone(), depth, &h, Some(true)));
                }
                for _ in 0..n {
                    let i = self.g.below(keys.len());
                    let k = keys.remove(i);
                    fs.push(self.field(k, depth, &h, None));
                }
                if !on_self && self.g.chance(1, 4) {
                    let layout = L::def(
                        H { id: self.all_ids.then(|| self.fresh("L")), input: vec!["self".into()], ..H::default() },
                        K::Id { res: None, pat: None },
                    );
                    fs.push(Field {
                        key: "id".into(),
                        required: self.g.bool(),
                        item: Item {
                            intro: vec![],
                            value: Fmt { layout, input: vec![v(&h.input[0])], graph: None },
                            dataset: vec![],
                            property: None,
                        },
                    });
                }
                if depth > 0 && self.g.chance(1, 8) {
                    // Flattened set or record, about the same subject.
                    let c = if self.g.bool() { C::Set } else { C::Rec };
                    let layout = self.of(c, depth - 1, vec![], true);
                    let graph = self.graph(&h);
                    fs.push(Field {
                        key: "flat".into(),
                        required: self.g.bool(),
                        item: Item { intro: vec![], value: Fmt { layout, input: vec![v(&h.input[0])], graph }, dataset: vec![], property: None },
                    });
                }
                K::Rec(fs)
            }
            C::List => {
                let mut head = v(&h.input[0]);
                let mut tail = P::Iri(format!("{RDF}nil"));
                if self.g.chance(1, 5) {
                    h.intro.push("first".into());
                    let q = (v(&h.input[0]), self.pred(), v("first"), None);
                    h.dataset.push(q);
                    head = v("first");
                    if self.g.chance(1, 3) {
                        h.intro.push("mid0".into());
                        let q = (v(&h.input[0]), self.pred(), v("mid0"), None);
                        h.dataset.push(q);
                    }
                }
                if self.g.chance(1, 5) {
                    tail = P::Iri(self.fresh("nil"));
                }
                let names = if self.g.chance(1, 5) { ("hd", "tl", "val") } else { ("head", "rest", "value") };
                let mut value = self.fmt(depth, &h, names.2, true);
                let mut node = Node { head: names.0.into(), rest: names.1.into(), intro: vec![names.2.into()], value: value.clone(), dataset: None, short: false };
                if value.input.len() != 1 || self.g.chance(1, 3) {
                    let mut d = vec![(v(names.0), self.pred(), v(names.2), None), (v(names.0), self.pred(), v(names.1), None)];
                    if self.g.chance(1, 4) {
                        d.push((v(names.0), self.pred(), self.constant(), None));
                    }
                    node.dataset = Some(d);
                } else if value.input == [v("value")] && value.graph.is_none() && names.0 == "head" && self.g.chance(1, 3) {
                    node.short = true;
                }
                if node.short {
                    // A bare layout: nothing else to say.
                    value.graph = None;
                }
                K::List { head, tail, node: Box::new(node) }
            }
            C::Set => {
                let i = self.item(depth, &h, true);
                K::Set(Box::new(i))
            }
            C::Tuple => {
                let n = self.g.len(3);
                K::Tuple((0..n).map(|_| self.item(depth, &h, false)).collect())
            }
            C::Sum => {
                let vs = self.variants(depth, &h);
                // (Otherwise the resource may be a literal, shared.)
                if vs.iter().all(|f| !f.intro.is_empty()) && self.g.chance(1, 3) {
                    h.intro.push("mid0".into());
                    let q = (v(&h.input[0]), self.pred(), v("mid0"), None);
                    h.dataset.push(q);
                }
                K::Sum(vs)
            }
        };
        if let Some(id) = opened {
            let x = self.open.pop().unwrap();
            debug_assert_eq!(x.0, id);
            self.closed.push(x);
        }
        L::def(h, k)
    }
    fn graph(&mut self, h: &H) -> Option<Option<P>> {
        if !self.graphs {
            return None;
        }
        let w = self.graph_weight;
        match self.g.weighted(&[10, w, 2 * w, w]) {
            0 => None,
            1 => Some(None),
            2 => Some(Some(P::Iri(self.fresh("g")))),
            _ => Some(Some(v(&h.input[0]))),
        }
    }
    /// Sub-layout applied to the resource `first`. `rec_ok`: a recursive
    /// reference is well founded here.
    fn fmt(&mut self, depth: usize, h: &H, first: &str, rec_ok: bool) -> Fmt {
        let mut refs: Vec<(String, usize)> = self.closed.clone();
        if rec_ok {
            refs.extend(self.open.iter().cloned());
        }
        let use_ref = !refs.is_empty() && self.g.chance(1, 5);
        let (layout, n) = if use_ref {
            let (id, n) = self.g.pick(&refs).clone();
            (L::Ref(id), n)
        } else if self.prelude && self.g.chance(1, 8) {
            (L::Ref(format!("{PRELUDE}{}", self.g.pick(PRELUDE_IDS))), 1)
        } else if self.g.chance(1, 40) {
            (L::Any, 1)
        } else {
            let l = self.layout(depth.saturating_sub(1));
            let n = l.hk().map_or(1, |x| x.0.input.len());
            (l, n)
        };
        let mut input = vec![v(first)];
        while input.len() < n {
            let p = match self.g.below(3) {
                0 => v(&h.input[0]),
                1 => v(first),
                _ => P::Iri(self.fresh("c")),
            };
            input.push(p);
        }
        Fmt { layout, input, graph: self.graph(h) }
    }
    fn item(&mut self, depth: usize, h: &H, rec_ok: bool) -> Item {
        let mut name = "value".to_string();
        if self.g.chance(1, 6) {
            name = "val0".into();
        }
        let value = self.fmt(depth, h, &name, rec_ok);
        let me = v(&h.input[0]);
        let form = self.g.weighted(&[10, 4, 2, 2, if self.graphs { 1 } else { 0 }]);
        let mut i = Item { intro: vec![name.clone()], value, dataset: vec![], property: None };
        match form {
            0 => i.property = Some(self.pred()),
            1 => i.dataset.push((me, self.pred(), v(&name), None)),
            2 => {
                i.intro.push("mid".into());
                let (p, q) = (self.pred(), self.pred());
                i.dataset.push((me, p, v("mid"), None));
                i.dataset.push((v("mid"), q, v(&name), None));
            }
            4 => {
                // In a graph of its own.
                i.intro.push("gr".into());
                let (p, q) = (self.pred(), self.pred());
                i.dataset.push((me.clone(), p, v("gr"), None));
                i.dataset.push((me, q, v(&name), Some(v("gr"))));
            }
            _ => {
                // In an explicit graph.
                let g = P::Iri(self.fresh("g"));
                let p = self.pred();
                i.dataset.push((me, p, v(&name), if self.graphs { Some(g) } else { None }));
            }
        }
        i
    }
    fn field(&mut self, key: String, depth: usize, h: &H, req: Option<bool>) -> Field {
        let required = req.unwrap_or_else(|| self.g.chance(1, 3));
        let item = self.item(depth, h, !required);
        Field { key, item, required }
    }
    fn variants(&mut self, depth: usize, h: &H) -> Vec<Variant> {
        let me = v(&h.input[0]);
        // Kinds left, numbers taken, and whether strings are constants.
        let (mut pool, mut recs, enums) = self.nested.take().unwrap_or_else(|| {
            let mut pool = vec![C::Bool, C::Num, C::Str, C::Unit, C::Rec, C::Rec, C::Rec, C::List];
            if self.bytes {
                pool.push(C::Bytes);
            }
            (pool, 0, self.g.chance(1, 6))
        });
        let first = recs;
        let n = 1 + self.g.len(3);
        let mut out = vec![];
        for i in 0..n {
            if pool.is_empty() {
                break;
            }
            let j = self.g.below(pool.len());
            let mut c = pool.remove(j);
            let name = format!("{}{i}", self.g.clone_pick(&["v", "A", "zed "]));
            let d = depth.saturating_sub(1);
            let layout = match c {
                _ if self.g.chance(1, 10) && !pool.is_empty() => {
                    // A sum in the sum, of kinds of its own.
                    let mut own = vec![c];
                    for _ in 0..1 + self.g.below(2) {
                        if !pool.is_empty() {
                            let j = self.g.below(pool.len());
                            own.push(pool.remove(j));
                        }
                    }
                    c = C::Sum;
                    self.nests += 100;
                    self.nested = Some((own, self.nests, enums));
                    self.of(C::Sum, d, vec![], false)
                }
                C::Rec => {
                    recs += 1;
                    let k = format!("k{recs}");
                    self.of(C::Rec, d, vec![k], false)
                }
                C::List => {
                    c = [C::List, C::Set, C::Tuple][self.g.below(3)];
                    self.of(c, d, vec![], false)
                }
                C::Unit => {
                    let L::Def(mut b) = self.of(C::Unit, d, vec![], false) else { unreachable!() };
                    b.1 = K::Unit(Value::unit());
                    L::Def(b)
                }
                C::Str => {
                    if enums {
                        c = C::Unit;
                        let L::Def(mut b) = self.of(C::Unit, d, vec![], false) else { unreachable!() };
                        b.1 = K::Unit(Value::string(format!("const{}", first + i)));
                        pool.push(C::Str);
                        L::Def(b)
                    } else {
                        if self.g.chance(1, 3) {
                            c = C::Id;
                        }
                        self.of(c, d, vec![], false)
                    }
                }
                c => self.of(c, d, vec![], false),
            };
            let n_in = layout.hk().unwrap().0.input.len();
            let literal = matches!(c, C::Bool | C::Num | C::Str | C::Bytes);
            let mut x = Variant { name, intro: vec![], value: Fmt { layout, input: vec![me.clone()], graph: self.graph(h) }, dataset: vec![] };
            if self.g.chance(1, 3) {
                // Through an introduced resource.
                x.intro.push("inner".into());
                let p = self.pred();
                x.dataset.push((me.clone(), p, v("inner"), None));
                x.value.input[0] = v("inner");
            } else if !literal || self.g.chance(1, 4) {
                let p = self.pred();
                let o = self.constant();
                x.dataset.push((me.clone(), p, o, None));
            }
            while x.value.input.len() < n_in {
                let p = P::Iri(self.fresh("c"));
                x.value.input.push(p);
            }
            out.push(x);
        }
        if self.g.chance(1, 10) {
            out.push(Variant { name: "never".into(), intro: vec![], value: Fmt { layout: L::Never, input: vec![me], graph: None }, dataset: vec![] });
        }
        out
    }
    /// An anonymous sum layout and other documents.
    pub fn sum_with_extra(&mut self, depth: usize) -> (L, Vec<L>) {
        let extra = self.extra();
        self.no_top_id = true;
        (self.of(C::Sum, depth, vec![], false), extra)
    }
    fn extra(&mut self) -> Vec<L> {
        let mut extra = vec![];
        if self.g.chance(1, 5) {
            // A separate document, referred to from the main one.
            let L::Def(mut d) = self.layout(1) else { unreachable!() };
            if d.0.id.is_none() {
                let id = self.fresh("L");
                d.0.id = Some(id.clone());
                self.closed.push((id, d.0.input.len()));
            }
            extra.push(L::Def(d));
        }
        extra
    }
    /// A set of documents; the first one is the entry point.
    pub fn docs(&mut self, depth: usize) -> Vec<L> {
        let extra = self.extra();
        let c = match self.g.weighted(&[6, 2, 1, 1, 1, 1]) {
            0 => C::Rec,
            1 => C::Sum,
            2 => C::List,
            3 => C::Set,
            4 => C::Tuple,
            _ => C::Str,
        };
        let mut docs = vec![if c == C::Str { self.layout(depth) } else { self.of(c, depth, vec![], false) }];
        if self.g.chance(1, 25) {
            let iri = self.fresh("about");
            about(&mut docs[0], &iri);
        }
        docs.extend(extra);
        docs
    }
}
/// Gives a layout a fixed subject and no input, if it has some other way to
/// carry its value.
fn about(l: &mut L, iri: &str) {
    let L::Def(d) = l else { return };
    let (h, k) = &mut **d;
    if h.input.len() != 1 || h.id.is_some() {
        return;
    }
    let me = v(&h.input[0]);
    let mut fmts: Vec<&mut Fmt> = vec![];
    let mut items: Vec<&mut Item> = vec![];
    let mut sets: Vec<&mut Vec<Q>> = vec![&mut h.dataset];
    match k {
        K::Rec(fs) => {
            for f in fs {
                items.push(&mut f.item);
            }
        }
        K::Tuple(is) => {
            for i in is {
                items.push(i);
            }
        }
        K::Set(i) => {
            items.push(i);
        }
        K::List { head, node, .. } if *head != me => {
            fmts.push(&mut node.value);
            sets.extend(&mut node.dataset);
        }
        _ => return,
    }
    if fmts.iter().any(|f| f.input.first() == Some(&me)) || items.iter().any(|i| i.value.input.first() == Some(&me)) {
        return;
    }
    for i in items {
        if let Some(p) = i.property.take() {
            i.dataset.push((me.clone(), p, v(&i.intro[0]), None));
        }
        fmts.push(&mut i.value);
        sets.push(&mut i.dataset);
    }
    let fix = |p: &mut P| {
        if *p == me {
            *p = P::Iri(iri.to_string())
        }
    };
    for f in fmts {
        f.input.iter_mut().for_each(fix);
        if let Some(Some(g)) = &mut f.graph {
            fix(g)
        }
    }
    for q in sets.into_iter().flatten() {
        fix(&mut q.0);
        fix(&mut q.1);
        fix(&mut q.2);
        q.3.iter_mut().for_each(fix);
    }
    h.input.clear();
}
impl G {
    pub fn clone_pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        self.pick(xs)
    }
}

/// Registry of the documents and the prelude.
pub struct World {
    pub docs: Vec<L>,
    prelude: Vec<L>,
}
impl World {
    pub fn new(docs: Vec<L>) -> Self {
        World { docs, prelude: prelude_layouts() }
    }
    pub fn top(&self) -> &L {
        &self.docs[0]
    }
    pub fn reg(&self) -> Reg<'_> {
        let mut t: Vec<&L> = self.prelude.iter().collect();
        t.extend(self.docs.iter());
        registry(&t)
    }
}

// ---------------------------------------------------------------- values
pub struct Vg<'a> {
    pub g: &'a mut G,
    n: usize,
    deep: usize,
    long: bool,
}
impl<'a> Vg<'a> {
    pub fn new(g: &'a mut G) -> Self {
        Vg { g, n: 0, deep: 0, long: false }
    }
    /// One list or set of the value, if any, may have hundreds of items.
    pub fn long(mut self) -> Self {
        self.long = self.g.chance(1, 300);
        self
    }
    fn items(&mut self, depth: usize) -> (usize, usize) {
        match depth {
            0 => (0, 0),
            _ if std::mem::take(&mut self.long) => (100 + self.g.below(300), 0),
            _ => (self.g.len(4), depth - 1),
        }
    }
    /// Value conforming to an invertible layout.
    pub fn value(&mut self, l: &L, reg: &Reg, depth: usize) -> Value {
        self.val(l, reg, depth, false)
    }
    fn val(&mut self, l: &L, reg: &Reg, depth: usize, subject: bool) -> Value {
        // Some changed layouts have no finite value.
        if self.deep > 38 {
            return Value::unit();
        }
        let sum = match l {
            L::Ref(i) => reg[i],
            l => l,
        }
        .hk()
        .is_some_and(|d| matches!(d.1, K::Sum(_)));
        let step = if sum { 1 } else { 3 };
        self.deep += step;
        let x = self.val_in(l, reg, depth, subject);
        self.deep -= step;
        x
    }
    fn val_in(&mut self, l: &L, reg: &Reg, depth: usize, subject: bool) -> Value {
        let l = match l {
            L::Ref(i) => reg[i],
            l => l,
        };
        let L::Def(d) = l else { return Value::unit() };
        match &d.1 {
            K::Unit(c) => c.clone(),
            K::Bool { .. } => Value::Literal(Literal::Boolean(self.g.bool())),
            K::Num { dt, .. } => num(g_number(self.g, dt)),
            K::Bytes { .. } => Value::Literal(Literal::ByteString(g_bytes(self.g))),
            K::Str { .. } => Value::string(g_text(self.g)),
            K::Id { .. } => {
                if subject {
                    self.n += 1;
                    Value::string(format!("http://ex.org/subject/{}", self.n))
                } else {
                    let leaf = ["http://ex.org/leaf", "urn:x:y", "https://ex.org/a%20b?q=1#f", "http://ex.org/é"];
                    Value::string(self.g.pick(&leaf).to_string())
                }
            }
            K::Rec(fs) => {
                let mut m = BTreeMap::new();
                for f in fs {
                    let forced = f.item.dataset.is_empty() && f.item.property.is_none();
                    let present = f.required || forced || (depth > 0 && self.g.chance(2, 3));
                    if present {
                        let x = self.val(&f.item.value.layout, reg, depth.saturating_sub(1), forced);
                        m.insert(Value::string(f.key.clone()), x);
                    }
                }
                Value::Map(m)
            }
            K::Sum(vs) => {
                let vs: Vec<&Variant> = vs.iter().filter(|x| !matches!(x.value.layout, L::Never)).collect();
                let x = vs[self.g.below(vs.len())];
                self.val(&x.value.layout, reg, depth, false)
            }
            K::List { node, .. } => {
                let (n, depth) = self.items(depth);
                Value::List((0..n).map(|_| self.val(&node.value.layout, reg, depth, false)).collect())
            }
            K::Set(item) => {
                let (n, depth) = self.items(depth);
                let mut xs: Vec<Value> = (0..n).map(|_| self.val(&item.value.layout, reg, depth, false)).collect();
                let l = match &item.value.layout {
                    L::Ref(i) => reg[i],
                    l => l,
                };
                let keep = item.dataset.len() == 2
                    || match l {
                        L::Def(d) => matches!(d.1, K::Rec(_) | K::Tuple(_) | K::Set(_) | K::Unit(_)),
                        _ => true,
                    };
                if !keep {
                    let mut seen = BTreeSet::new();
                    xs.retain(|x| seen.insert(x.clone()));
                }
                Value::List(xs)
            }
            K::Tuple(is) => Value::List(is.iter().map(|i| self.val(&i.value.layout, reg, depth.saturating_sub(1), false)).collect()),
        }
    }
}

/// Changes a value somewhere.
pub fn mutate_value(g: &mut G, x: &Value) -> Value {
    match x {
        Value::List(xs) if !xs.is_empty() && g.chance(2, 3) => {
            let mut ys = xs.clone();
            let i = g.below(ys.len());
            match g.below(4) {
                0 => {
                    ys.remove(i);
                }
                1 => {
                    let y = ys[i].clone();
                    ys.push(y);
                }
                _ => ys[i] = mutate_value(g, &xs[i]),
            }
            Value::List(ys)
        }
        Value::List(xs) if g.bool() => {
            let mut ys = xs.clone();
            ys.push(g_value(g, 1, false));
            Value::List(ys)
        }
        Value::Map(m) if !m.is_empty() && g.chance(3, 4) => {
            let mut n = m.clone();
            let ks: Vec<&Value> = m.keys().collect();
            let k = ks[g.below(ks.len())].clone();
            match g.below(6) {
                0 => {
                    n.remove(&k);
                }
                1 => {
                    let y = n.remove(&k).unwrap();
                    let nk = g.pick(&["a", "b", "c", "id", "k1", "k2", "k3", "flat", "zz"]).to_string();
                    n.insert(Value::string(nk), y);
                }
                _ => {
                    let y = mutate_value(g, &m[&k]);
                    n.insert(k, y);
                }
            }
            Value::Map(n)
        }
        Value::Map(m) if g.bool() => {
            let mut n = m.clone();
            let nk = g.pick(&["a", "b", "c", "id", "k1", "k2", "k3", "flat", "zz"]).to_string();
            n.insert(Value::string(nk), g_value(g, 1, false));
            Value::Map(n)
        }
        Value::Literal(Literal::Number(n)) if g.bool() => {
            let r = n.as_big_rational().clone();
            num(match g.below(4) {
                0 => r + BigRational::from_integer(1.into()),
                1 => r / BigRational::from_integer(3.into()),
                2 => r / BigRational::from_integer(8.into()),
                _ => -r,
            })
        }
        Value::Literal(Literal::TextString(s)) if g.bool() => match g.below(4) {
            0 => Value::string(format!("{s} ")),
            1 => Value::string("not an iri".into()),
            2 => Value::string("http://ex.org/other".into()),
            _ => Value::string(s.chars().skip(1).collect()),
        },
        _ => match g.below(5) {
            0 => Value::unit(),
            1 => Value::string("http://ex.org/leaf".into()),
            2 => Value::List(vec![x.clone()]),
            3 => Value::Map(BTreeMap::new()),
            _ => g_value(g, 2, false),
        },
    }
}

// ---------------------------------------------------------------- datasets
pub fn quad_terms(q: &Quad) -> Vec<&Term> {
    [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().flatten().collect()
}
/// Changes a dataset; keeps quads unique.
pub fn mutate_quads(g: &mut G, quads: &mut Vec<Quad>, inputs: &[Term], pool: &[Term]) {
    let mut terms: BTreeSet<Term> = quads.iter().flat_map(quad_terms).cloned().collect();
    terms.extend(inputs.iter().cloned());
    terms.extend(pool.iter().cloned());
    terms.insert(iri_term("http://ex.org/other"));
    let mut terms: Vec<Term> = terms.into_iter().collect();
    terms.push(lit_term("stray", &xsd("string")));
    let op = g.weighted(&[3, 3, 3, 2, 2, 1]);
    if quads.is_empty() && op != 1 {
        let q = Quad(terms[g.below(terms.len())].clone(), terms[g.below(terms.len())].clone(), terms[g.below(terms.len())].clone(), None);
        quads.push(q);
        return;
    }
    match op {
        0 => {
            let i = g.below(quads.len());
            quads.remove(i);
        }
        1 => {
            let mut t = |g: &mut G| terms[g.below(terms.len())].clone();
            let mut q = if quads.is_empty() || g.chance(1, 4) {
                Quad(t(g), t(g), t(g), None)
            } else {
                quads[g.below(quads.len())].clone()
            };
            match g.below(4) {
                0 => q.0 = t(g),
                1 => q.1 = t(g),
                2 => q.2 = t(g),
                _ => q.3 = if g.bool() { None } else { Some(t(g)) },
            }
            quads.push(q);
        }
        2 => {
            let i = g.below(quads.len());
            let t = terms[g.below(terms.len())].clone();
            match g.below(4) {
                0 => quads[i].0 = t,
                1 => quads[i].1 = t,
                2 => quads[i].2 = t,
                _ => quads[i].3 = if g.bool() { None } else { Some(t) },
            }
        }
        3 => {
            // Identify two terms.
            let a = terms[g.below(terms.len())].clone();
            let b = terms[g.below(terms.len())].clone();
            let f = |t: &Term| if *t == a { b.clone() } else { t.clone() };
            for q in quads.iter_mut() {
                *q = Quad(f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f));
            }
        }
        4 => {
            // Change a literal.
            let lits: Vec<usize> = (0..quads.len()).filter(|i| matches!(quads[*i].2, Term::Literal(_))).collect();
            if !lits.is_empty() {
                let i = lits[g.below(lits.len())];
                if let Term::Literal(l) = quads[i].2.clone() {
                    let mut l = l;
                    match g.below(3) {
                        0 => l.value = g.pick(&["1", "0", "true", "+1", "-0", "01.50", "abc", "", " 1", ".5", "5.", "1e3", "aF", "AAA=", "QQ==", "0aF"]).to_string(),
                        1 => l.type_ = rdf_types::LiteralType::Any(iref::IriBuf::new(xsd(*g.pick(&["string", "integer", "boolean", "hexBinary", "base64Binary", "double"]))).unwrap()),
                        _ => l.type_ = rdf_types::LiteralType::LangString(langtag::LangTagBuf::new("en".to_string()).unwrap()),
                    }
                    quads[i].2 = Term::Literal(l);
                }
            }
        }
        _ => {
            let i = g.below(quads.len());
            let mut q = quads[i].clone();
            q.3 = match q.3 {
                None => Some(iri_term("http://ex.org/g0")),
                Some(_) => None,
            };
            quads.push(q);
        }
    }
    // Malformed base64 is accepted by the dependency that decodes it: not used.
    for q in quads.iter_mut() {
        if let Term::Literal(l) = &mut q.2 {
            if l.type_ == rdf_types::LiteralType::Any(iref::IriBuf::new(xsd("base64Binary")).unwrap()) && unbase64(&l.value).is_none() {
                l.value = "QQ==".into();
            }
        }
    }
    let s: BTreeSet<Quad> = std::mem::take(quads).into_iter().collect();
    *quads = s.into_iter().collect();
}

// ---------------------------------------------------------------- mutation of layouts
fn rand_pat(g: &mut G, scope: &[String], pool: &[String]) -> P {
    match g.weighted(&[5, 3, 1]) {
        0 if !scope.is_empty() => P::Var(g.pick(scope).clone()),
        2 => match g.below(3) {
            0 => P::Lit("lit".into(), LT::Dt(xsd("string"))),
            1 => P::Lit("1".into(), LT::Dt(xsd("integer"))),
            _ => P::Lit("lit".into(), LT::Lang("en".into())),
        },
        _ => P::Iri(g.pick(pool).clone()),
    }
}
fn mutate_dataset(g: &mut G, d: &mut Vec<Q>, scope: &[String], pool: &[String]) {
    match g.below(4) {
        0 | 1 => {
            let mut q = if d.is_empty() || g.bool() {
                (rand_pat(g, scope, pool), P::Iri(g.pick(pool).clone()), rand_pat(g, scope, pool), None)
            } else {
                let mut q = g.pick(d).clone();
                match g.below(3) {
                    0 => q.0 = rand_pat(g, scope, pool),
                    1 => q.1 = rand_pat(g, scope, pool),
                    _ => q.2 = rand_pat(g, scope, pool),
                }
                q
            };
            if g.chance(1, 4) {
                q.3 = Some(rand_pat(g, scope, pool));
            }
            d.push(q)
        }
        2 if !d.is_empty() => {
            let i = g.below(d.len());
            d.remove(i);
        }
        _ if !d.is_empty() => {
            let i = g.below(d.len());
            match g.below(4) {
                0 => d[i].0 = rand_pat(g, scope, pool),
                1 => d[i].1 = rand_pat(g, scope, pool),
                2 => d[i].2 = rand_pat(g, scope, pool),
                _ => d[i].3 = if g.bool() { None } else { Some(rand_pat(g, scope, pool)) },
            }
        }
        _ => (),
    }
}
fn mutate_fmt(g: &mut G, f: &mut Fmt, scope: &[String], pool: &[String]) {
    if g.chance(1, 16) {
        if g.bool() {
            f.input.push(rand_pat(g, scope, pool))
        } else {
            f.input.pop();
        }
        return;
    }
    match g.below(4) {
        0 if !f.input.is_empty() => {
            let i = g.below(f.input.len());
            f.input[i] = rand_pat(g, scope, pool);
        }
        1 => f.graph = None,
        2 => f.graph = Some(None),
        _ => f.graph = Some(Some(rand_pat(g, scope, pool))),
    }
}
fn mutate_item(g: &mut G, i: &mut Item, scope: &[String], pool: &[String], subject: bool) {
    let mut sc = scope.to_vec();
    sc.extend(i.intro.iter().cloned());
    match g.below(6) {
        0 => mutate_dataset(g, &mut i.dataset, &sc, pool),
        1 => mutate_fmt(g, &mut i.value, &sc, pool),
        2 => {
            // (A property needs an input to be the subject.)
            if subject && !i.intro.is_empty() {
                i.property = Some(P::Iri(g.pick(pool).clone()))
            }
        }
        3 => {
            if i.property.is_some() {
                i.dataset.push((v(&sc[0]), P::Iri(g.pick(pool).clone()), v(&i.intro[0]), None));
                i.property = None;
            }
        }
        4 => {
            let name = g.pick(&["extra", "self", "value", "mid0"]).to_string();
            i.intro.push(name);
        }
        _ => mutate_dataset(g, &mut i.dataset, &sc, pool),
    }
}
/// Makes one arbitrary change to a layout, keeping every variable declared.
pub fn mutate_layout(g: &mut G, l: &mut L, pool: &[String]) {
    let mut n = 0;
    l.visit(&mut |x| {
        if matches!(x, L::Def(_)) {
            n += 1
        }
    });
    if n == 0 {
        return;
    }
    let at = g.below(n);
    let mut i = 0;
    l.visit_mut(&mut |x| {
        if let L::Def(d) = x {
            if i == at {
                mutate_def(g, &mut d.0, &mut d.1, pool);
            }
            i += 1;
        }
    });
}
fn mutate_def(g: &mut G, h: &mut H, k: &mut K, pool: &[String]) {
    let subject = !h.input.is_empty();
    let mut scope = h.input.clone();
    scope.extend(h.intro.iter().cloned());
    match g.weighted(&[3, 1, 6]) {
        0 => return mutate_dataset(g, &mut h.dataset, &scope, pool),
        1 => {
            let name = g.pick(&["extra", "h0"]).to_string();
            if g.chance(1, 3) && !scope.contains(&name) {
                // The formats using this layout now lack an input.
                h.input.push(name);
            } else {
                h.intro.push(name);
            }
            return;
        }
        _ => (),
    }
    match k {
        K::Unit(c) => *c = no_empty_map(g_value(g, 1, true)),
        K::Bool { res, dt } => {
            if g.chance(3, 4) {
                *res = Some(rand_pat(g, &scope, pool))
            } else {
                *dt = Some(xsd(*g.pick(&["boolean", "string", "integer"])))
            }
        }
        K::Id { res, .. } => *res = Some(rand_pat(g, &scope, pool)),
        K::Num { res, dt } => {
            if g.bool() {
                *res = Some(rand_pat(g, &scope, pool))
            } else {
                *dt = xsd(*g.pick(&["integer", "decimal", "byte", "double", "string", "float"]))
            }
        }
        K::Bytes { res, dt } => {
            if g.bool() {
                *res = Some(rand_pat(g, &scope, pool))
            } else {
                *dt = xsd(*g.pick(&["hexBinary", "base64Binary", "string"]))
            }
        }
        K::Str { res, dt, .. } => {
            if g.bool() {
                *res = Some(rand_pat(g, &scope, pool))
            } else {
                *dt = Some(xsd(*g.pick(&["string", "token", "integer"])))
            }
        }
        K::Rec(fs) => {
            if fs.is_empty() {
                return;
            }
            let i = g.below(fs.len());
            match g.below(5) {
                0 => fs[i].required = !fs[i].required,
                1 => {
                    let mut f = fs[i].clone();
                    f.key = format!("dup{}", fs.len());
                    f.item.value.layout.visit_mut(&mut |l| {
                        if let L::Def(d) = l {
                            d.0.id = None
                        }
                    });
                    fs.push(f)
                }
                _ => mutate_item(g, &mut fs[i].item, &scope, pool, subject),
            }
        }
        K::Sum(vs) => {
            if vs.is_empty() {
                return;
            }
            let i = g.below(vs.len());
            let mut sc = scope.clone();
            sc.extend(vs[i].intro.iter().cloned());
            match g.below(5) {
                0 => {
                    let mut f = vs[i].clone();
                    f.name = format!("dup{}", vs.len());
                    f.value.layout.visit_mut(&mut |l| {
                        if let L::Def(d) = l {
                            d.0.id = None
                        }
                    });
                    vs.push(f)
                }
                1 => mutate_fmt(g, &mut vs[i].value, &sc, pool),
                2 => {
                    let name = g.pick(&["extra", "self"]).to_string();
                    vs[i].intro.push(name)
                }
                _ => mutate_dataset(g, &mut vs[i].dataset, &sc, pool),
            }
        }
        K::List { head, tail, node } => {
            let mut sc = scope.clone();
            sc.push(node.head.clone());
            sc.push(node.rest.clone());
            sc.extend(node.intro.iter().cloned());
            match g.below(5) {
                0 => *head = rand_pat(g, &scope, pool),
                1 => *tail = rand_pat(g, &scope, pool),
                2 => {
                    node.short = false;
                    mutate_fmt(g, &mut node.value, &sc, pool)
                }
                3 => {
                    node.short = false;
                    let name = g.pick(&["extra", "self", "value"]).to_string();
                    if node.dataset.is_none() {
                        node.dataset = Some(node_dataset(node));
                    }
                    node.intro.push(name)
                }
                _ => {
                    node.short = false;
                    let mut d = node_dataset(node);
                    mutate_dataset(g, &mut d, &sc, pool);
                    node.dataset = Some(d);
                }
            }
        }
        K::Set(i) => mutate_item(g, i, &scope, pool, subject),
        K::Tuple(is) => {
            if is.is_empty() {
                return;
            }
            let i = g.below(is.len());
            mutate_item(g, &mut is[i], &scope, pool, subject)
        }
    }
}
/// Every IRI used in the datasets of a layout.
pub fn layout_iris(l: &L) -> Vec<String> {
    let mut s = BTreeSet::new();
    l.visit(&mut |l| {
        if let L::Def(d) = l {
            let mut ds = vec![d.0.dataset.clone()];
            match &d.1 {
                K::Rec(fs) => fs.iter().for_each(|f| ds.push(item_dataset(&d.0, &f.item))),
                K::Sum(vs) => vs.iter().for_each(|f| ds.push(f.dataset.clone())),
                K::Set(i) => ds.push(item_dataset(&d.0, i)),
                K::Tuple(is) => is.iter().for_each(|f| ds.push(item_dataset(&d.0, f))),
                K::List { node, tail, .. } => {
                    ds.push(node_dataset(node));
                    if let P::Iri(i) = tail {
                        s.insert(i.clone());
                    }
                }
                _ => (),
            }
            for q in ds.into_iter().flatten() {
                for p in [Some(q.0), Some(q.1), Some(q.2), q.3].into_iter().flatten() {
                    if let P::Iri(i) = p {
                        s.insert(i);
                    }
                }
            }
        }
    });
    s.insert(format!("{EX}other"));
    s.insert(format!("{RDF}nil"));
    s.into_iter().collect()
}
