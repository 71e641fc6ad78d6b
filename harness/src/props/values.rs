//! Values: literals, JSON and CBOR representations.
use super::distill::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sys::*;
use crate::{ensure, fail};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use json_syntax::{Parse, TryFromJson};
use rdf_types::{LiteralType, Term};
use serde_cbor::Value as Cbor;
use std::collections::BTreeMap;
use treeldr_layouts::value::{NativeNumber, Number};
use treeldr_layouts::{Literal, Value};

fn pow10(n: i64) -> BigRational {
    let p = BigRational::from_integer(BigInt::from(10).pow(n.unsigned_abs() as u32));
    if n < 0 {
        p.recip()
    } else {
        p
    }
}
fn digits(g: &mut G, min: usize) -> String {
    let n = min + if g.chance(1, 12) { g.below(60) } else { g.len(6) };
    (0..n).map(|_| *g.pick(&['0', '1', '2', '5', '9', '0', '7'])).collect()
}
/// A decimal text, with an exponent if allowed, and the number it denotes.
fn decimal_text(g: &mut G, exp: bool, json: bool) -> (String, BigRational) {
    let sign = if json { *g.pick(&["", "-"]) } else { *g.pick(&["", "-", "+"]) };
    let mut a = digits(g, 0);
    if json {
        a = a.trim_start_matches('0').to_string();
        if a.is_empty() {
            a.push('0');
        }
    }
    let mut b = if g.bool() { digits(g, json as usize) } else { String::new() };
    let mut dot = !b.is_empty() || (!json && g.chance(1, 8));
    if a.is_empty() && b.is_empty() {
        if g.bool() {
            a = "0".into()
        } else {
            b = "0".into();
            dot = true
        }
    }
    let mut text = format!("{sign}{a}");
    if dot {
        text.push('.');
        text.push_str(&b);
    }
    let mut n = BigRational::from_integer(format!("0{a}{b}").parse::<BigInt>().unwrap()) * pow10(-(b.len() as i64));
    if exp && g.chance(1, 3) {
        let e = g.below(30) as i64 * if g.chance(1, 10) { 10 } else { 1 };
        let s = *g.pick(&["", "-", "+"]);
        text.push_str(g.pick(&["e", "E"]));
        text.push_str(s);
        if g.chance(1, 8) {
            text.push('0');
        }
        text.push_str(&e.to_string());
        n *= pow10(if s == "-" { -e } else { e });
    }
    if sign == "-" {
        n = -n;
    }
    (text, n)
}
/// Reads a decimal text, with or without an exponent.
fn read_decimal(s: &str) -> Option<BigRational> {
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => {
            let e = &s[i + 1..];
            let d = e.strip_prefix(['+', '-']).unwrap_or(e);
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            (&s[..i], e.parse::<i64>().ok()?)
        }
        None => (s, 0),
    };
    Some(parse_xsd_decimal(m)? * pow10(e))
}
fn only_2_and_5(d: &BigInt) -> bool {
    let mut d = d.clone();
    for p in [BigInt::from(2), BigInt::from(5)] {
        while (&d % &p).is_zero() {
            d /= &p;
        }
    }
    d.is_one()
}
/// Rational numbers of every kind.
fn rational(g: &mut G) -> BigRational {
    match g.below(5) {
        0 => g_number(g, &xsd("integer")),
        1 => g_number(g, &xsd("decimal")),
        2 => decimal_text(g, true, false).1,
        3 => {
            let n = g_big(g, &-(BigInt::from(1) << 128u32), &(BigInt::from(1) << 128u32));
            let d = (BigInt::from(2).pow(g.below(40) as u32)) * BigInt::from(5).pow(g.below(20) as u32) * BigInt::from(*g.pick(&[1, 1, 3, 7, 9, 11, 21]));
            BigRational::new(n, d)
        }
        _ => BigRational::new(BigInt::from(g.below(400) as i64 - 200), BigInt::from(1 + g.below(60))),
    }
}
fn number_checks(g: &mut G, r: &BigRational) -> Result<(), String> {
    let n = Number::new(r.clone());
    ensure!(n.is_integer() == r.denom().is_one(), "wrong integrality of {r}");
    ensure!(n.as_integer() == if r.denom().is_one() { Some(r.numer()) } else { None }, "wrong integer part of {r}");
    ensure!(n.as_big_rational() == r && n.clone().into_big_rational() == *r && BigRational::from(n.clone()) == *r && Number::from(r.clone()) == n, "{r} is changed");
    match n.decimal_representation() {
        Some(s) => {
            ensure!(only_2_and_5(r.denom()), "{r} written as {s}, but has no finite decimal expansion");
            ensure!(parse_xsd_decimal(&s).as_ref() == Some(r), "{r} is written {s}");
            ensure!(dec_string(r).as_ref() == Some(&s), "{r} is written {s}, not in its shortest form");
            ensure!(Number::parse_decimal(&s) == Some(n.clone()), "{s} is not read back as {r}");
            let j: json_syntax::NumberBuf = n.clone().try_into().map_err(|_| format!("{r} has no JSON number"))?;
            ensure!(parse_xsd_decimal(j.as_str()).as_ref() == Some(r), "{r} becomes the JSON number {j}");
            ensure!(Number::from(j.clone()) == n && Number::from(j.as_number()) == n, "the JSON number {j} is not read back as {r}");
            let j: serde_json::Number = n.clone().try_into().map_err(|_| format!("{r} has no JSON number (serde)"))?;
            ensure!(parse_xsd_decimal(&j.to_string()).as_ref() == Some(r), "{r} becomes the JSON number {j} (serde)");
            ensure!(Number::from(j.clone()) == n, "the JSON number {j} is not read back as {r} (serde)");
            g.label("decimal");
        }
        None => {
            ensure!(!only_2_and_5(r.denom()), "{r} has a finite decimal expansion, but is not written");
            ensure!(json_syntax::NumberBuf::try_from(n.clone()).is_err() && serde_json::Number::try_from(n.clone()).is_err(), "{r} becomes a JSON number");
            g.label("not decimal");
        }
    }
    let f = nearest(r);
    match n.as_native() {
        NativeNumber::U64(u) => ensure!(*r == BigRational::from_integer(u.into()), "{r} becomes {u}"),
        NativeNumber::I64(i) => ensure!(*r == BigRational::from_integer(i.into()), "{r} becomes {i}"),
        NativeNumber::F64(x) => {
            ensure!(!r.is_integer() || r.numer() > &BigInt::from(u64::MAX) || r.numer() <= &BigInt::from(i64::MIN), "the integer {r} becomes a float");
            ensure!(Some(x) == f || f.is_none(), "{r} becomes the float {x:e} instead of {f:?}");
        }
    }
    ensure!(Some(n.to_f64()) == f || f.is_none(), "{r} becomes the float {:e} instead of {f:?}", n.to_f64());
    Ok(())
}
/// The float nearest to a number.
pub fn nearest(r: &BigRational) -> Option<f64> {
    let s = match dec_string(r) {
        Some(s) => s,
        None => {
            // Enough digits to decide, unless very close to a middle.
            let k = 400u32;
            let n = (r * BigRational::from_integer(BigInt::from(10).pow(k))).floor().to_integer();
            format!("{n}e-{k}")
        }
    };
    s.parse().ok()
}
fn p15(g: &mut G) -> R {
    match g.weighted(&[3, 3, 2, 6, 2, 3]) {
        0 => {
            let (t, r) = decimal_text(g, true, false);
            g.note("text", &t);
            g.nontrivial = t.len() >= 3;
            ensure!(Number::parse_decimal(&t) == Some(Number::new(r.clone())), "{t:?} is read as {:?} instead of {r}", Number::parse_decimal(&t));
            // One change.
            let mut c: Vec<char> = t.chars().collect();
            let x = *g.pick(&['.', 'e', 'E', '-', '+', ' ', 'x', '_', '٣', '0', '/', ':', '\u{0}']);
            let i = g.below(c.len() + 1);
            if i < c.len() && g.bool() {
                c[i] = x;
            } else {
                c.insert(i, x);
            }
            let t: String = c.into_iter().collect();
            g.note("changed", &t);
            if t.find(['e', 'E']).is_some_and(|i| t[i + 1..].len() > 4) {
                return Ok(Outcome::Pass);
            }
            let want = read_decimal(&t).map(Number::new);
            ensure!(Number::parse_decimal(&t) == want, "{t:?} is read as {:?} instead of {want:?}", Number::parse_decimal(&t));
            g.label(if want.is_some() { "text" } else { "not a number" });
        }
        1 => {
            let r = rational(g);
            g.note("number", &r);
            g.nontrivial = !r.is_integer();
            number_checks(g, &r)?;
            let s = if g.chance(1, 4) { r.clone() } else { rational(g) };
            g.note("other", &s);
            let (a, b) = (Number::new(r.clone()), Number::new(s.clone()));
            ensure!(a.cmp(&b) == r.cmp(&s) && (a == b) == (r == s), "{r} and {s} are compared wrongly");
        }
        2 => {
            let x = g.u64();
            g.note("bits", format!("{x:x}"));
            macro_rules! ints { ($($t:ty),*) => { $( let y = x as $t; ensure!(Number::from(y).into_big_rational() == BigRational::from_integer(BigInt::from(y)), "{y} is changed"); )* } }
            ints!(u8, u16, u32, u64, i8, i16, i32, i64);
            let f = f64::from_bits(x);
            match Number::try_from(f) {
                Ok(n) => {
                    ensure!(f.is_finite(), "{f} accepted");
                    ensure!(n.as_big_rational() == &float_exact(f), "{f:e} becomes {n}");
                    ensure!(n.to_f64() == f, "{f:e} comes back as {:e}", n.to_f64());
                }
                Err(_) => ensure!(!f.is_finite(), "{f:e} refused"),
            }
            let f = f32::from_bits(x as u32);
            match Number::try_from(f) {
                Ok(n) => ensure!(f.is_finite() && n.as_big_rational() == &float_exact(f as f64), "{f:e} becomes {n}"),
                Err(_) => ensure!(!f.is_finite(), "{f:e} refused"),
            }
            g.nontrivial = true;
            g.label("native");
        }
        3 => {
            // Through a layout, as an RDF literal.
            let t = *g.pick(INT_TYPES);
            let dt = xsd(t.0);
            let sys = one(K::Num { res: None, dt: dt.clone() })?;
            let r = g_number(g, &dt);
            g.note("datatype", t.0);
            g.note("number", &r);
            let (q, i) = sys.dehydrate(&num(r.clone())).map_err(|e| format!("{r} is refused: {e}"))?;
            ensure!(q.is_empty() && i.len() == 1, "quads for a literal");
            let Term::Literal(l) = &i[0] else { fail!("not a literal: {}", i[0]) };
            ensure!(is_dt(&l.type_, &dt), "the literal {l} does not have datatype {}", t.0);
            ensure!(parse_xsd_decimal(&l.value).as_ref() == Some(&r), "{r} is written {:?}", l.value);
            ensure!(sys.hydrate(&[], &i).ok() == Some(num(r.clone())), "{l} is not read back as {r}");
            // Every other way to write the same number.
            let s = respell(g, &r, t.0 == "decimal");
            g.note("spelling", &s);
            g.nontrivial = s != l.value;
            match sys.hydrate(&[], &[lit_term(&s, &dt)]) {
                Ok(y) => ensure!(y == num(r.clone()), "{s:?} is read as {}", show_value(&y)),
                Err(e) => fail!("{s:?} is refused: {e}"),
            }
            // Not a number.
            let mut c: Vec<char> = s.chars().collect();
            c.insert(g.below(c.len() + 1), *g.pick(&['x', ' ', 'e', '-', '_', '٣', ',']));
            let s: String = c.into_iter().collect();
            if parse_xsd_decimal(&s).is_none() {
                g.note("malformed", &s);
                ensure!(sys.hydrate(&[], &[lit_term(&s, &dt)]).is_err(), "{s:?} is read as a number");
            }
            // Another datatype, or a language.
            let other = *g.pick(&["string", "boolean", "double", "float", "date"]);
            ensure!(sys.hydrate(&[], &[lit_term(&l.value, &xsd(other))]).is_err(), "a literal of type {other} is read as {}", t.0);
            // A layout whose datatype is not made of decimal numbers.
            let sys = one(K::Num { res: None, dt: xsd(other) })?;
            ensure!(sys.hydrate(&[], &[lit_term(&l.value, &xsd(other))]).is_err(), "a literal of type {other} is read as a number");
            ensure!(sys.dehydrate(&num(r.clone())).is_err(), "a number is written as a literal of type {other}");
            g.label("number literal");
        }
        4 => {
            let sys = one(K::Bool { res: None, dt: None })?;
            let b = g.bool();
            let (_, i) = sys.dehydrate(&Value::Literal(Literal::Boolean(b))).map_err(|e| e.to_string())?;
            ensure!(i == vec![lit_term(if b { "true" } else { "false" }, &xsd("boolean"))], "{b} is written {}", show_terms(&i));
            let s = match g.below(3) {
                0 => g.pick(&["true", "false", "1", "0"]).to_string(),
                1 => g.pick(&["True", "FALSE", "", "2", "01", "-1", " true", "true ", "tru", "yes", "00"]).to_string(),
                _ => g_text(g),
            };
            g.note("text", format!("{s:?}"));
            let want = match &*s {
                "true" | "1" => Some(Value::Literal(Literal::Boolean(true))),
                "false" | "0" => Some(Value::Literal(Literal::Boolean(false))),
                _ => None,
            };
            g.nontrivial = !s.is_empty();
            let got = sys.hydrate(&[], &[lit_term(&s, &xsd("boolean"))]).ok();
            ensure!(got == want, "{s:?} is read as {got:?}");
            g.label("boolean literal");
        }
        _ => {
            // Bytes and text.
            let big = g.chance(1, 20);
            if g.bool() {
                let b = if big { (0..g.below(3000)).map(|i| (i * 7 % 256) as u8).collect() } else { g_bytes(g) };
                let t = *g.pick(&["hexBinary", "base64Binary"]);
                let sys = one(K::Bytes { res: None, dt: xsd(t) })?;
                let x = Value::Literal(Literal::ByteString(b.clone()));
                g.note("bytes", hex(&b));
                g.note("datatype", t);
                g.nontrivial = b.len() >= 2;
                let (_, i) = sys.dehydrate(&x).map_err(|e| e.to_string())?;
                let Term::Literal(l) = &i[0] else { fail!("not a literal") };
                let back = if t == "hexBinary" { unhex(&l.value) } else { unbase64(&l.value) };
                ensure!(is_dt(&l.type_, &xsd(t)) && back == Some(b.clone()), "written as {l}");
                ensure!(sys.hydrate(&[], &i).ok() == Some(x.clone()), "{l} is not read back");
                if t == "hexBinary" {
                    let s: String = l.value.chars().map(|c| if g.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
                    ensure!(sys.hydrate(&[], &[lit_term(&s, &xsd(t))]).ok() == Some(x), "{s} is read otherwise");
                    let mut s: Vec<char> = s.chars().collect();
                    s.insert(g.below(s.len() + 1), *g.pick(&['0', 'g', ' ', 'x']));
                    let s: String = s.into_iter().collect();
                    ensure!(sys.hydrate(&[], &[lit_term(&s, &xsd(t))]).is_err(), "{s:?} is read as bytes");
                }
                g.label("bytes literal");
            } else {
                let n = g.below(3000);
                let s = if big { (0..n).map(|i| CHARS[i * 13 % CHARS.len()]).collect() } else { g_text(g) };
                let dt = g.pick(&[xsd("string"), xsd("token"), xsd("anyURI"), xsd("integer"), "http://ex.org/t".to_string()]).clone();
                let sys = one(K::Str { res: None, dt: Some(dt.clone()), pat: None })?;
                g.note("text", format!("{s:?}"));
                g.note("datatype", &dt);
                g.nontrivial = s.len() >= 2;
                let (_, i) = sys.dehydrate(&Value::string(s.clone())).map_err(|e| e.to_string())?;
                ensure!(i == vec![lit_term(&s, &dt)], "written as {}", show_terms(&i));
                ensure!(sys.hydrate(&[], &i).ok() == Some(Value::string(s.clone())), "{s:?} is not read back");
                let other = if dt == xsd("string") { xsd("token") } else { xsd("string") };
                ensure!(sys.hydrate(&[], &[lit_term(&s, &other)]).is_err(), "a literal of another datatype is read");
                let lang = Term::Literal(rdf_types::Literal::new(s.clone(), LiteralType::LangString(langtag::LangTagBuf::new("en".to_string()).unwrap())));
                ensure!(sys.hydrate(&[], &[lang]).is_err(), "a literal with a language is read");
                g.label("text literal");
            }
        }
    }
    Ok(Outcome::Pass)
}
fn is_dt(t: &LiteralType, dt: &str) -> bool {
    matches!(t, LiteralType::Any(i) if i.as_str() == dt)
}
fn one(k: K) -> Result<Sys, String> {
    let l = L::def(H { input: vec!["self".into()], ..H::default() }, k);
    Sys::compile(&doc_text(&[l], &mut Plain))
}
/// Another decimal text for the same number.
fn respell(g: &mut G, r: &BigRational, dot: bool) -> String {
    let s = dec_string(r).unwrap();
    let (sign, s) = match s.strip_prefix('-') {
        Some(s) => ("-", s.to_string()),
        None if r.is_zero() => (*g.pick(&["", "+", "-"]), s),
        None => (*g.pick(&["", "+"]), s),
    };
    let (mut a, mut b) = match s.split_once('.') {
        Some((a, b)) => (a.to_string(), b.to_string()),
        None => (s, String::new()),
    };
    a = "0".repeat(g.len(3)) + &a;
    if dot {
        b += &"0".repeat(g.len(3));
        if a.chars().all(|c| c == '0') && !b.is_empty() && g.bool() {
            a.clear();
        }
        if !b.is_empty() || (!a.is_empty() && g.chance(1, 5)) {
            return format!("{sign}{a}.{b}");
        }
    }
    format!("{sign}{a}")
}
fn float_exact(f: f64) -> BigRational {
    let b = f.to_bits();
    let e = (b >> 52 & 0x7ff) as i64;
    let m = b & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let p = BigRational::from_integer(BigInt::from(1) << e.unsigned_abs());
    let r = BigRational::from_integer(m.into()) * if e < 0 { p.recip() } else { p };
    if b >> 63 == 1 {
        -r
    } else {
        r
    }
}
pub const P15: Prop = Prop { id: "P15", quick: 400_000, thorough: 12_000_000, rule: "not an integer, not the canonical spelling, or a text of several characters", run: p15, known: &[] };

// ---------------------------------------------------------------- P16
/// A JSON document and the value it denotes.
fn json_doc(g: &mut G, depth: usize, out: &mut String) -> Value {
    fn ws(g: &mut G, out: &mut String) {
        if g.chance(1, 10) {
            out.push_str(g.pick(&[" ", "\n", "\t", "\r\n", "   "]));
        }
    }
    ws(g, out);
    let x = match g.weighted(&[1, 2, 4, 4, if depth > 0 { 9 } else { 0 }, if depth > 0 { 9 } else { 0 }]) {
        0 => {
            out.push_str("null");
            Value::unit()
        }
        1 => {
            let b = g.bool();
            out.push_str(if b { "true" } else { "false" });
            Value::Literal(Literal::Boolean(b))
        }
        2 => {
            let (t, r) = if g.chance(1, 3) {
                let r = g_number(g, &xsd("integer"));
                (r.to_string(), r)
            } else {
                decimal_text(g, true, true)
            };
            out.push_str(&t);
            num(r)
        }
        3 => Value::string(json_string(g, out)),
        4 => {
            let n = if g.chance(1, 50) { 40 } else { g.len(4) };
            out.push('[');
            let mut l = vec![];
            for i in 0..n {
                if i > 0 {
                    out.push(',');
                }
                l.push(json_doc(g, depth - 1, out));
            }
            out.push(']');
            Value::List(l)
        }
        _ => {
            let n = 1 + g.len(4);
            out.push('{');
            let mut m = BTreeMap::new();
            for i in 0..n {
                if i > 0 {
                    out.push(',');
                }
                ws(g, out);
                let mark = out.len();
                let mut k = json_string(g, out);
                if m.contains_key(&Value::string(k.clone())) || k.starts_with('$') {
                    k = format!("k{i}");
                    out.truncate(mark);
                    out.push_str(&json_str(&k));
                }
                ws(g, out);
                out.push(':');
                let x = json_doc(g, depth - 1, out);
                m.insert(Value::string(k), x);
            }
            out.push('}');
            Value::Map(m)
        }
    };
    ws(g, out);
    x
}
fn json_string(g: &mut G, out: &mut String) -> String {
    let s = g_text(g);
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '/' if g.bool() => out.push_str("\\/"),
            '\n' if g.bool() => out.push_str("\\n"),
            '\r' if g.bool() => out.push_str("\\r"),
            '\t' if g.bool() => out.push_str("\\t"),
            c if (c as u32) < 0x20 || g.chance(1, 8) => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&if g.bool() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
    s
}
/// Whether JSON can express a value.
fn is_json(x: &Value) -> bool {
    match x {
        Value::Literal(Literal::ByteString(_)) => false,
        Value::Literal(Literal::Number(n)) => only_2_and_5(n.as_big_rational().denom()),
        Value::Literal(_) => true,
        Value::List(l) => l.iter().all(is_json),
        Value::Map(m) => m.iter().all(|(k, x)| matches!(k, Value::Literal(Literal::TextString(_))) && is_json(x)),
    }
}
fn from_js(j: &json_syntax::Value) -> Value {
    use json_syntax::Value as V;
    match j {
        V::Null => Value::unit(),
        V::Boolean(b) => Value::Literal(Literal::Boolean(*b)),
        V::Number(n) => num(read_decimal(n.as_str()).unwrap()),
        V::String(s) => Value::string(s.to_string()),
        V::Array(a) => Value::List(a.iter().map(from_js).collect()),
        V::Object(o) => Value::Map(o.iter().map(|e| (Value::string(e.key.to_string()), from_js(&e.value))).collect()),
    }
}
fn from_sj(j: &serde_json::Value) -> Value {
    use serde_json::Value as V;
    match j {
        V::Null => Value::unit(),
        V::Bool(b) => Value::Literal(Literal::Boolean(*b)),
        V::Number(n) => num(read_decimal(&n.to_string()).unwrap()),
        V::String(s) => Value::string(s.to_string()),
        V::Array(a) => Value::List(a.iter().map(from_sj).collect()),
        V::Object(o) => Value::Map(o.iter().map(|(k, x)| (Value::string(k.to_string()), from_sj(x))).collect()),
    }
}
/// The value with numbers as their native equivalent.
fn native(x: &Value) -> Value {
    match x {
        Value::Literal(Literal::Number(n)) => {
            let r = n.as_big_rational();
            if r.is_integer() && *r.numer() > BigInt::from(i64::MIN) && *r.numer() <= BigInt::from(u64::MAX) {
                x.clone()
            } else {
                num(float_exact(nearest(r).unwrap()))
            }
        }
        Value::List(l) => Value::List(l.iter().map(native).collect()),
        Value::Map(m) => Value::Map(m.iter().map(|(k, x)| (native(k), native(x))).collect()),
        x => x.clone(),
    }
}
/// Whether `y` is `x`, with every number that is not native as near as a float can be.
fn like(x: &Value, y: &Value) -> bool {
    alike(x, y, true)
}
fn alike(x: &Value, y: &Value, ints: bool) -> bool {
    match (x, y) {
        (Value::Literal(Literal::Number(a)), Value::Literal(Literal::Number(b))) => {
            let r = a.as_big_rational();
            a == b || (!(ints && r.is_integer() && *r.numer() > BigInt::from(i64::MIN) && *r.numer() <= BigInt::from(u64::MAX)) && nearest(r) == nearest(b.as_big_rational()))
        }
        (Value::List(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| alike(x, y, ints)),
        (Value::Map(a), Value::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && alike(x, y, ints)),
        (x, y) => x == y,
    }
}
/// A value, most often with several nodes.
pub fn tree(g: &mut G, depth: usize, json: bool) -> Value {
    match g.below(4) {
        0 => g_value(g, depth, json),
        1 | 2 => {
            let n = 1 + g.len(4);
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = if json || g.chance(3, 4) { Value::string(g_text(g)) } else { g_value(g, 1, json) };
                m.insert(k, g_value(g, depth, json));
            }
            Value::Map(m)
        }
        _ => {
            let n = 1 + g.len(5);
            Value::List((0..n).map(|_| g_value(g, depth, json)).collect())
        }
    }
}
fn p16(g: &mut G) -> R {
    if g.bool() {
        let mut t = String::new();
        let d = if g.chance(1, 8) { 0 } else { 1 + g.below(3) };
        let x = json_doc(g, d, &mut t);
        g.note("json", &t);
        g.nontrivial = value_size(&x) >= 3;
        let show = |y: &Value| format!("{} instead of {}", show_value(y), show_value(&x));
        let (j, map) = json_syntax::Value::parse_str(&t).map_err(|e| format!("generator: {e}"))?;
        let y = Value::from(j.clone());
        ensure!(y == x, "(json-syntax) {}", show(&y));
        let y = Value::try_from_json(&j, &map).unwrap();
        ensure!(y == x, "(try_from_json) {}", show(&y));
        let s: serde_json::Value = serde_json::from_str(&t).map_err(|e| format!("generator: {e}"))?;
        let y = Value::from(s.clone());
        ensure!(y == x, "(serde_json) {}", show(&y));
        let y: Value = serde_json::from_str(&t).map_err(|e| format!("(deserialize) refused: {e}"))?;
        ensure!(y == x, "(deserialize) {}", show(&y));
        let y: Value = serde_json::from_value(s).map_err(|e| format!("(deserialize value) refused: {e}"))?;
        ensure!(alike(&x, &y, false), "(deserialize value) {}", show(&y));
        let y: Value = serde_json::from_reader(t.as_bytes()).map_err(|e| format!("(deserialize reader) refused: {e}"))?;
        ensure!(y == x, "(deserialize reader) {}", show(&y));
        g.label("document");
        return Ok(Outcome::Pass);
    }
    let d = g.below(4);
    let json = g.chance(3, 4);
    let x = tree(g, d, json);
    g.note("value", show_value(&x));
    g.nontrivial = value_size(&x) >= 3;
    let a = json_syntax::Value::try_from(x.clone());
    let b = serde_json::Value::try_from(x.clone());
    if is_json(&x) {
        g.label("JSON");
        let Ok(a) = a else { fail!("refused (json-syntax)") };
        let Ok(b) = b else { fail!("refused (serde_json)") };
        ensure!(from_js(&a) == x, "becomes {}", a);
        ensure!(from_sj(&b) == x, "becomes {} (serde_json)", b);
        ensure!(Value::from(a) == x && Value::from(b) == x, "does not come back");
        // Serialization with native numbers.
        let b = serde_json::to_value(&x).map_err(|e| format!("not serialized: {e}"))?;
        ensure!(like(&x, &from_sj(&b)), "serialized as {b}");
        let t = serde_json::to_string(&x).map_err(|e| format!("not serialized: {e}"))?;
        let y: Value = serde_json::from_str(&t).map_err(|e| format!("{t} not read back: {e}"))?;
        ensure!(like(&x, &y), "serialized as {t}");
        if exact_text(&x) {
            ensure!(y == x, "serialized as {t} and read back as {}", show_value(&y));
            g.label("serialized exactly");
        }
    } else {
        g.label("not JSON");
        ensure!(a.is_err(), "becomes {} although JSON cannot express it", a.unwrap());
        ensure!(b.is_err(), "becomes {} although JSON cannot express it", b.unwrap());
    }
    // Display: JSON, except for numbers and bytes.
    if json {
        let t = x.to_string();
        let plain = strip_numbers(&x);
        let t2 = plain.to_string();
        let (j, _) = json_syntax::Value::parse_str(&t2).map_err(|e| format!("displayed as {t2:?}: {e}"))?;
        ensure!(from_js(&j) == plain, "displayed as {t2:?}");
        let _ = t;
    }
    Ok(Outcome::Pass)
}
/// Numbers whose native form is written exactly.
fn exact_text(x: &Value) -> bool {
    match x {
        Value::Literal(Literal::Number(n)) => n.is_integer() && n.as_big_rational().abs() <= BigRational::from_integer(BigInt::from(1) << 50u32) || matches!(n.as_native(), NativeNumber::U64(_) | NativeNumber::I64(_)),
        Value::List(l) => l.iter().all(exact_text),
        Value::Map(m) => m.iter().all(|(k, x)| exact_text(k) && exact_text(x)),
        _ => true,
    }
}
fn strip_numbers(x: &Value) -> Value {
    match x {
        Value::Literal(Literal::Number(n)) if !n.is_integer() => Value::unit(),
        Value::List(l) => Value::List(l.iter().map(strip_numbers).collect()),
        Value::Map(m) => Value::Map(m.iter().map(|(k, x)| (k.clone(), strip_numbers(x))).collect()),
        x => x.clone(),
    }
}
pub const P16: Prop = Prop { id: "P16", quick: 600_000, thorough: 20_000_000, rule: "the value has at least three nodes", run: p16, known: &[] };

// ---------------------------------------------------------------- P17
/// The CBOR form of a value, by the RFC.
pub fn cbor_of(x: &Value) -> Cbor {
    match x {
        Value::Literal(Literal::Unit) => Cbor::Null,
        Value::Literal(Literal::Boolean(b)) => Cbor::Bool(*b),
        Value::Literal(Literal::ByteString(b)) => Cbor::Bytes(b.clone()),
        Value::Literal(Literal::TextString(s)) => Cbor::Text(s.clone()),
        Value::Literal(Literal::Number(n)) => {
            let r = n.as_big_rational();
            if r.is_integer() {
                let i = r.numer();
                let lim = BigInt::from(1) << 64u32;
                if i.abs() < lim {
                    Cbor::Integer(i.to_string().parse().unwrap())
                } else {
                    let (t, m) = if i.is_negative() { (3, -i - 1) } else { (2, i.clone()) };
                    let mut bytes = vec![];
                    let mut m = m;
                    while !m.is_zero() {
                        let d: BigInt = &m % 256;
                        bytes.push(d.to_string().parse::<u8>().unwrap());
                        m /= 256;
                    }
                    bytes.reverse();
                    Cbor::Tag(t, Box::new(Cbor::Bytes(bytes)))
                }
            } else {
                Cbor::Float(nearest(r).unwrap())
            }
        }
        Value::List(l) => Cbor::Array(l.iter().map(cbor_of).collect()),
        Value::Map(m) => Cbor::Map(m.iter().map(|(k, x)| (cbor_of(k), cbor_of(x))).collect()),
    }
}
fn no_bignum(x: &Value) -> bool {
    match x {
        Value::Literal(Literal::Number(n)) => n.as_big_rational().abs() < BigRational::from_integer(BigInt::from(1) << 63u32),
        Value::List(l) => l.iter().all(no_bignum),
        Value::Map(m) => m.iter().all(|(k, x)| no_bignum(k) && no_bignum(x)),
        _ => true,
    }
}
/// Bytes of a CBOR item, written by hand, with any width of head and definite
/// or indefinite length, along with the value it denotes.
fn cbor_bytes(g: &mut G, depth: usize, out: &mut Vec<u8>) -> Value {
    fn head(g: &mut G, major: u8, n: u64, out: &mut Vec<u8>) {
        let min = if n < 24 { 0 } else if n < 256 { 1 } else if n < 65536 { 2 } else if n < 1 << 32 { 3 } else { 4 };
        let w = if g.chance(1, 4) { min + g.below(5 - min) } else { min };
        match w {
            0 => out.push(major << 5 | n as u8),
            1 => out.extend([major << 5 | 24, n as u8]),
            2 => {
                out.push(major << 5 | 25);
                out.extend((n as u16).to_be_bytes())
            }
            3 => {
                out.push(major << 5 | 26);
                out.extend((n as u32).to_be_bytes())
            }
            _ => {
                out.push(major << 5 | 27);
                out.extend(n.to_be_bytes())
            }
        }
    }
    if g.chance(1, 12) {
        // A tag without meaning for a tree.
        let t = 1000 + g.len(3) as u64;
        head(g, 6, t, out);
    }
    match g.weighted(&[3, 3, 2, 2, 2, 2, if depth > 0 { 4 } else { 0 }, if depth > 0 { 4 } else { 0 }, 1]) {
        8 => {
            // A big integer.
            let neg = g.bool();
            head(g, 6, 2 + neg as u64, out);
            let b = if g.bool() {
                g_bytes(g)
            } else {
                let n = g.below(30);
                (0..n).map(|i| (255 - i * 5) as u8).collect()
            };
            head(g, 2, b.len() as u64, out);
            out.extend(&b);
            let mut n = BigInt::from(0);
            for x in b {
                n = n * 256 + x;
            }
            num(BigRational::from_integer(if neg { -n - 1 } else { n }))
        }
        0 => {
            let n = *g.pick(&[0u64, 1, 23, 24, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX]);
            head(g, 0, n, out);
            num(BigRational::from_integer(n.into()))
        }
        1 => {
            let n = *g.pick(&[0u64, 1, 23, 24, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX]);
            head(g, 1, n, out);
            num(BigRational::from_integer(-BigInt::from(n) - 1))
        }
        2 => {
            let b = g_bytes(g);
            head(g, 2, b.len() as u64, out);
            out.extend(&b);
            Value::Literal(Literal::ByteString(b))
        }
        3 => {
            let s = g_text(g);
            head(g, 3, s.len() as u64, out);
            out.extend(s.as_bytes());
            Value::string(s)
        }
        4 => match g.below(4) {
            0 => {
                out.push(0xf6);
                Value::unit()
            }
            1 => {
                out.push(0xf5);
                Value::Literal(Literal::Boolean(true))
            }
            2 => {
                out.push(0xf7);
                Value::unit()
            }
            _ => {
                out.push(0xf4);
                Value::Literal(Literal::Boolean(false))
            }
        },
        5 => {
            let f = *g.pick(&[0.5f64, -1.25, 0.1, 1e300, 5e-324, 3.0, 1e-7, -2.5e10]);
            if g.bool() {
                out.push(0xfb);
                out.extend(f.to_be_bytes());
                num(float_exact(f))
            } else {
                let mut f = f as f32;
                if !f.is_finite() {
                    f = 1.5
                }
                out.push(0xfa);
                out.extend(f.to_be_bytes());
                num(float_exact(f as f64))
            }
        }
        6 => {
            let n = g.len(4);
            let indef = g.chance(1, 4);
            if indef {
                out.push(0x9f)
            } else {
                head(g, 4, n as u64, out)
            }
            let l = (0..n).map(|_| cbor_bytes(g, depth - 1, out)).collect();
            if indef {
                out.push(0xff)
            }
            Value::List(l)
        }
        _ => {
            let n = g.len(4);
            let indef = g.chance(1, 4);
            let mut m: Vec<(Vec<u8>, Value, Vec<u8>, Value)> = vec![];
            for _ in 0..n {
                let (mut a, mut b) = (vec![], vec![]);
                let kd = if g.bool() { 0 } else { depth - 1 };
                let k = cbor_bytes(g, kd, &mut a);
                let x = cbor_bytes(g, depth - 1, &mut b);
                if m.iter().all(|e| e.1 != k) && k.as_str().is_none_or(|s| !s.starts_with('$')) {
                    m.push((a, k, b, x));
                }
            }
            if indef {
                out.push(0xbf)
            } else {
                head(g, 5, m.len() as u64, out)
            }
            for (a, _, b, _) in &m {
                out.extend(a);
                out.extend(b);
            }
            if indef {
                out.push(0xff)
            }
            Value::Map(m.into_iter().map(|(_, k, _, x)| (k, x)).collect())
        }
    }
}
/// Bytes of an item holding a float which is no number, within a few levels.
fn cbor_nan(g: &mut G, depth: usize, out: &mut Vec<u8>) {
    if depth > 0 && g.chance(2, 3) {
        let n = g.below(3);
        let at = g.below(n + 1);
        let map = g.bool();
        out.push(if map { 5 } else { 4 } << 5 | (n + 1) as u8);
        for i in 0..=n {
            if map {
                out.push(0x18);
                out.push(100 + i as u8);
            }
            if i == at {
                cbor_nan(g, depth - 1, out)
            } else {
                cbor_bytes(g, 0, out);
            }
        }
        return;
    }
    match g.below(8) {
        0 => out.extend([0xf9, 0x7e, 0]),
        1 => out.extend([0xf9, 0x7c, 0]),
        2 => out.extend([0xf9, 0xfc, 0]),
        3 => {
            out.push(0xfa);
            out.extend(f32::NEG_INFINITY.to_be_bytes())
        }
        4 => {
            out.push(0xfa);
            out.extend((f32::INFINITY.to_bits() | (1 + g.below(1 << 20) as u32)).to_be_bytes())
        }
        5 => {
            out.push(0xfb);
            out.extend((f64::NEG_INFINITY.to_bits() | (1 + g.below(1 << 20) as u64)).to_be_bytes())
        }
        6 => {
            out.push(0xfb);
            out.extend(f64::INFINITY.to_be_bytes())
        }
        _ => {
            out.push(0xfb);
            out.extend(f64::NEG_INFINITY.to_be_bytes())
        }
    }
}
fn p17(g: &mut G) -> R {
    let d = g.below(4);
    if g.chance(1, 40) {
        let mut b = vec![];
        cbor_nan(g, d, &mut b);
        g.note("cbor", hex(&b));
        g.label("not a number");
        g.nontrivial = b.len() >= 3;
        if let Ok(y) = serde_cbor::from_slice::<Value>(&b) {
            fail!("a float which is no number is read as {}", show_value(&y));
        }
        if let Ok(y) = serde_cbor::from_reader::<Value, _>(&b[..]) {
            fail!("a float which is no number is read as {} by the reader", show_value(&y));
        }
        return Ok(Outcome::Pass);
    }
    if g.chance(1, 3) {
        let mut b = vec![];
        let x = cbor_bytes(g, d, &mut b);
        g.note("cbor", hex(&b));
        g.note("value", show_value(&x));
        g.nontrivial = b.len() >= 3;
        let y: Value = match serde_cbor::from_slice(&b) {
            Ok(y) => y,
            Err(e) => fail!("refused: {e}"),
        };
        ensure!(y == x, "read as {}", show_value(&y));
        let y: Value = serde_cbor::from_reader(&b[..]).map_err(|e| format!("refused by the reader: {e}"))?;
        ensure!(y == x, "read as {} by the reader", show_value(&y));
        g.label("document");
        return Ok(Outcome::Pass);
    }
    let mut x = tree(g, d, false);
    if g.bool() {
        x = small_numbers(&x);
    }
    g.note("value", show_value(&x));
    g.nontrivial = value_size(&x) >= 3;
    let c = Cbor::from(x.clone());
    let want = cbor_of(&x);
    ensure!(c == want, "becomes {c:?} instead of {want:?}");
    let b = serde_cbor::to_vec(&c).map_err(|e| format!("not written: {e}"))?;
    let c2: Cbor = serde_cbor::from_slice(&b).map_err(|e| format!("not read back: {e}"))?;
    ensure!(c2 == want, "read back as {c2:?}");
    let want = cbor_exact(&x);
    let y: Value = serde_cbor::from_slice(&b).map_err(|e| format!("not read back as a value: {e}"))?;
    ensure!(y == want, "read back as {} instead of {}", show_value(&y), show_value(&want));
    if no_bignum(&x) {
        let want = native(&x);
        let b = serde_cbor::to_vec(&x).map_err(|e| format!("not serialized: {e}"))?;
        let y: Value = serde_cbor::from_slice(&b).map_err(|e| format!("not deserialized: {e}"))?;
        ensure!(y == want, "deserialized as {} instead of {}", show_value(&y), show_value(&want));
        g.label("no bignum");
    } else {
        g.label("bignum");
    }
    Ok(Outcome::Pass)
}
/// The value with its fractions as the nearest floats.
pub fn cbor_exact(x: &Value) -> Value {
    match x {
        Value::Literal(Literal::Number(n)) if !n.is_integer() => num(float_exact(nearest(n.as_big_rational()).unwrap())),
        Value::List(l) => Value::List(l.iter().map(cbor_exact).collect()),
        Value::Map(m) => Value::Map(m.iter().map(|(k, x)| (cbor_exact(k), cbor_exact(x))).collect()),
        x => x.clone(),
    }
}
fn small_numbers(x: &Value) -> Value {
    match x {
        Value::Literal(Literal::Number(n)) => {
            let r = n.as_big_rational();
            num(BigRational::from_integer(r.numer() % (BigInt::from(1) << 63u32)))
        }
        Value::List(l) => Value::List(l.iter().map(small_numbers).collect()),
        Value::Map(m) => Value::Map(m.iter().map(|(k, x)| (small_numbers(k), small_numbers(x))).collect()),
        x => x.clone(),
    }
}
pub const P17: Prop = Prop { id: "P17", quick: 800_000, thorough: 30_000_000, rule: "the value has at least three nodes, or the document three bytes", run: p17, known: &[] };

// ---------------------------------------------------------------- P18
pub const TAG: &str = "https://schema.treeldr.org/cbor#tag";
type Tags = BTreeMap<String, Option<u64>>;
fn tagged(c: &Cbor, id: &Option<String>, tags: &Tags) -> Result<Cbor, String> {
    match id.as_ref().and_then(|i| tags.get(i)) {
        Some(Some(t)) => match c {
            Cbor::Tag(u, x) if u == t => Ok((**x).clone()),
            c => Err(format!("{c:?} lacks the tag {t} of {}", id.as_ref().unwrap())),
        },
        _ => Ok(c.clone()),
    }
}
fn cbor_matches(t: &TV, c: &Cbor, tags: &Tags) -> Result<(), String> {
    match t {
        TV::Lit(x, id, _) => {
            let c = tagged(c, id, tags)?;
            if c != cbor_of(x) {
                return Err(format!("{c:?} instead of {:?}", cbor_of(x)));
            }
            Ok(())
        }
        TV::Variant(x, id, _) => cbor_matches(x, &tagged(c, id, tags)?, tags),
        TV::Map(m, id) => match tagged(c, id, tags)? {
            Cbor::Map(n) if n.len() == m.len() => m.iter().try_for_each(|(k, x)| cbor_matches(x, n.get(&Cbor::Text(k.clone())).ok_or(format!("no key {k:?}"))?, tags)),
            c => Err(format!("{c:?} is not a map of {} entries", m.len())),
        },
        TV::List(l, id, ordered) => match tagged(c, id, tags)? {
            Cbor::Array(a) if a.len() == l.len() => {
                if *ordered {
                    l.iter().zip(&a).try_for_each(|(x, c)| cbor_matches(x, c, tags))
                } else {
                    let mut left: Vec<&Cbor> = a.iter().collect();
                    for x in l {
                        let Some(j) = left.iter().position(|c| cbor_matches(x, c, tags).is_ok()) else { return Err(format!("no item for {}", show_value(&x.value()))) };
                        left.remove(j);
                    }
                    Ok(())
                }
            }
            c => Err(format!("{c:?} is not an array of {} items", l.len())),
        },
        TV::Any => {
            if *c == Cbor::Null {
                Ok(())
            } else {
                Err(format!("{c:?} instead of null"))
            }
        }
    }
}
fn used(t: &TV, out: &mut Vec<String>) {
    let id = match t {
        TV::Lit(_, i, _) => i,
        TV::Variant(x, i, _) => {
            used(x, out);
            i
        }
        TV::Map(m, i) => {
            m.values().for_each(|x| used(x, out));
            i
        }
        TV::List(l, i, _) => {
            l.iter().for_each(|x| used(x, out));
            i
        }
        TV::Any => return,
    };
    out.extend(id.clone());
}
/// Layouts, some of which have another tag.
struct Retagged<'a>(&'a treeldr_layouts::Layouts, BTreeMap<Term, treeldr_layouts::Layout>);
impl treeldr_layouts::LayoutRegistry for Retagged<'_> {
    fn get(&self, id: &treeldr_layouts::Ref<treeldr_layouts::layout::LayoutType>) -> Option<&treeldr_layouts::Layout> {
        self.1.get(id.id()).or_else(|| self.0.layout(id.id()))
    }
}
fn extra_of(l: &mut treeldr_layouts::Layout) -> Option<&mut BTreeMap<Term, Term>> {
    use treeldr_layouts::layout::*;
    use treeldr_layouts::Layout;
    Some(match l {
        Layout::Never | Layout::Always => return None,
        Layout::Literal(LiteralLayout::Id(l)) => &mut l.extra_properties,
        Layout::Literal(LiteralLayout::Data(l)) => match l {
            DataLayout::Unit(l) => &mut l.extra_properties,
            DataLayout::Boolean(l) => &mut l.extra_properties,
            DataLayout::Number(l) => &mut l.extra_properties,
            DataLayout::ByteString(l) => &mut l.extra_properties,
            DataLayout::TextString(l) => &mut l.extra_properties,
        },
        Layout::Product(l) => &mut l.extra_properties,
        Layout::Sum(l) => &mut l.extra_properties,
        Layout::List(ListLayout::Unordered(l)) => &mut l.extra_properties,
        Layout::List(ListLayout::Ordered(l)) => &mut l.extra_properties,
        Layout::List(ListLayout::Sized(l)) => &mut l.extra_properties,
    })
}
fn docs_layouts(ints: &mut crate::ints::IntSys, tags: &Tags) -> Vec<crate::ints::Rs> {
    tags.keys().map(|i| ints.ints.term(&iri_term(i))).collect()
}
fn p18(g: &mut G) -> R {
    let depth = 1 + g.below(3);
    let mut docs = {
        let mut lg = Lg::new(g);
        lg.all_ids = true;
        lg.extras = lg.g.chance(1, 4);
        lg.docs(depth)
    };
    let mut tags: Tags = BTreeMap::new();
    let bad = g.chance(1, 12);
    for l in docs.iter_mut() {
        l.visit_mut(&mut |l| {
            if let L::Def(d) = l {
                let Some(id) = d.0.id.clone() else { return };
                if !g.chance(2, 3) {
                    return;
                }
                let t = *g.pick(&[0u64, 1, 2, 3, 23, 24, 42, 255, 256, 1000, 55799, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX]);
                let (x, t) = if bad && g.chance(1, 3) {
                    (
                        match g.below(6) {
                            0 => X::Int(-1 - g.below(1000) as i64),
                            1 => X::Str("42".into()),
                            2 => X::Bool(true),
                            3 => X::Typed("x".into(), xsd("unsignedInt")),
                            4 => X::Typed("18446744073709551616".into(), xsd("unsignedLong")),
                            _ => X::Typed("42".into(), xsd("string")),
                        },
                        None,
                    )
                } else if t <= i64::MAX as u64 && g.bool() {
                    (X::Int(t as i64), Some(t))
                } else {
                    let dt = if t < 256 { *g.pick(&["unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong"]) } else { "unsignedLong" };
                    (X::Typed(t.to_string(), xsd(dt)), Some(t))
                };
                d.0.extra.push((TAG.into(), x));
                tags.insert(id, t);
            }
        });
    }
    let text = doc_text(&docs, &mut RandomStyle(g));
    note_docs(g, &text);
    let sys = Sys::compile(&text).map_err(|e| format!("a well-formed layout is rejected: {e}"))?;
    let w = World::new(docs);
    let reg = w.reg();
    let x = Vg::new(g).value(w.top(), &reg, depth + 1);
    g.note("value", show_value(&x));
    let Ok((quads, inputs)) = ref_dehydrate(w.top(), reg.clone(), &x) else { return Ok(Outcome::Discard) };
    let mut h = Hy::new(reg.clone(), &quads);
    let Ok(t) = h.hy(w.top(), &inputs, &None) else { return Ok(Outcome::Discard) };
    if h.overflow {
        return Ok(Outcome::Discard);
    }
    let y = sys.hydrate_typed(&quads, &inputs).map_err(|e| format!("not hydrated: {e}"))?;
    let mut ids = vec![];
    used(&t, &mut ids);
    let n = ids.iter().filter(|i| tags.contains_key(*i)).count();
    g.nontrivial = n >= 2;
    let invalid = ids.iter().any(|i| matches!(tags.get(i), Some(None)));
    use treeldr_layouts::LayoutRegistry;
    if n > 0 && !invalid && g.chance(1, 8) {
        // The tag of one layout becomes a term that is no typed literal.
        let of: Vec<&String> = ids.iter().filter(|i| tags.contains_key(*i)).collect();
        let id = (*g.pick(&of)).clone();
        let v = match g.below(3) {
            0 => iri_term("http://ex.org/tag"),
            1 => blank_term("42"),
            _ => Term::Literal(rdf_types::Literal::new("42".to_string(), rdf_types::LiteralType::LangString(langtag::LangTagBuf::new("en".to_string()).unwrap()))),
        };
        let mut l = sys.layouts.layout(&iri_term(&id)).cloned().ok_or("no such layout")?;
        if let Some(x) = extra_of(&mut l) {
            x.insert(iri_term(TAG), v.clone());
            g.label("tag without a number");
            let r = Retagged(&sys.layouts, [(iri_term(&id), l)].into_iter().collect());
            if let Ok(c) = y.clone().try_into_tagged_serde_cbor(r.with(treeldr_layouts::Prelude)) {
                fail!("written as {c:?}, the tag of {id} being {v}");
            }
        }
    }
    if g.chance(1, 6) {
        // Resources that are not terms, with more terms than needed.
        g.label("other resources");
        let mut ints = crate::ints::IntSys::compile(&text, g.below(64) as u32)?;
        let y = ints.hydrate(&quads, None, &inputs).map_err(|e| format!("not hydrated with other resources: {e:?}"))?;
        let prop = ints.ints.term(&iri_term(TAG));
        for (i, l) in docs_layouts(&mut ints, &tags).into_iter().enumerate() {
            if let Some(r) = ints.layouts.layout(&l).and_then(|l| l.extra_properties().get(&prop).copied()) {
                match g.below(4) {
                    0 => ints.ints.alias(r, &iri_term(&format!("http://ex.org/alias{i}"))),
                    1 => ints.ints.alias(r, &blank_term(&format!("alias{i}"))),
                    _ => (),
                }
            }
        }
        match y.try_into_tagged_serde_cbor_with(&(), &ints.ints, ints.layouts.with(&ints.prelude)) {
            Ok(c) => {
                ensure!(!invalid, "written as {c:?} with an invalid tag (with other resources)");
                if let Err(e) = cbor_matches(&t, &c, &tags) {
                    fail!("with other resources, {e}\n  in {c:?}");
                }
            }
            Err(e) => ensure!(invalid, "refused with other resources: {e}"),
        }
    }
    match y.clone().try_into_tagged_serde_cbor(sys.layouts.with(treeldr_layouts::Prelude)) {
        Ok(c) => {
            g.label("tagged");
            ensure!(!invalid, "written as {c:?} with an invalid tag");
            if let Err(e) = cbor_matches(&t, &c, &tags) {
                fail!("{e}\n  in {c:?}");
            }
        }
        Err(e) => {
            g.label("invalid tag");
            ensure!(invalid, "refused: {e}");
        }
    }
    let c = Cbor::from(y.clone());
    if let Err(e) = cbor_matches(&t, &c, &BTreeMap::new()) {
        fail!("without tags, {e}\n  in {c:?}");
    }
    ensure!(c == Cbor::from(y.clone().into_untyped()), "the typed and untyped values give different CBOR values");
    Ok(Outcome::Pass)
}
pub const P18: Prop = Prop { id: "P18", quick: 80_000, thorough: 2_000_000, rule: "at least two tagged values", run: p18, known: &[] };
