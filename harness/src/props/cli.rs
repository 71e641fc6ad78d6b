//! The `tldr` command.
use super::distill::*;
use super::values::{cbor_exact, cbor_of, tree, TAG};
use crate::engine::*;
use crate::gen::*;
use crate::jsyn;
use crate::model::*;
use crate::sys::*;
use crate::{ensure, fail};
use json_syntax::{Parse as _, Print as _};
use rdf_types::dataset::BTreeDataset;
use rdf_types::{generator, Generator, Id, Literal as RdfLiteral, LiteralType, Quad, Term};
use serde_cbor::Value as Cbor;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use treeldr_layouts::abs::Builder;
use treeldr_layouts::distill::{de, hy};
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{LayoutRegistry, Layouts, Prelude, Ref, Value};

pub fn tldr_path() -> std::path::PathBuf {
    std::env::current_exe().unwrap().with_file_name("tldr")
}

// ---------------------------------------------------------------- processes
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let d = std::path::PathBuf::from(format!("/verif/target/scratch/{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct Done {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
/// Runs the command on these files (named `f0.json`, ...).
fn tldr(files: &[Vec<u8>], args: &[String], stdin: &[u8]) -> Done {
    let dir = Scratch::new();
    for (i, f) in files.iter().enumerate() {
        std::fs::write(dir.0.join(format!("f{i}.json")), f).unwrap();
    }
    std::fs::write(dir.0.join("stdin"), stdin).unwrap();
    let o = Command::new(tldr_path())
        .args(args)
        .current_dir(&dir.0)
        .stdin(Stdio::from(std::fs::File::open(dir.0.join("stdin")).unwrap()))
        .env_remove("RUST_BACKTRACE")
        .output()
        .unwrap_or_else(|e| {
            eprintln!("cannot run tldr: {e}");
            std::process::exit(2)
        });
    Done { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

// ---------------------------------------------------------------- N-Quads
fn nq_str(s: &str, g: &mut G) -> String {
    let mut t = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => t.push_str("\\\""),
            '\\' => t.push_str("\\\\"),
            '\n' => t.push_str("\\n"),
            '\r' => t.push_str("\\r"),
            '\t' if g.bool() => t.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(t, "\\u{:04X}", c as u32);
            }
            c if g.chance(1, 12) => {
                if c as u32 > 0xffff || g.bool() {
                    let _ = write!(t, "\\U{:08X}", c as u32);
                } else {
                    let _ = write!(t, "\\u{:04x}", c as u32);
                }
            }
            c => t.push(c),
        }
    }
    t.push('"');
    t
}
fn nq_term(t: &Term, g: &mut G) -> String {
    match t {
        Term::Id(Id::Iri(i)) => format!("<{i}>"),
        Term::Id(Id::Blank(b)) => b.to_string(),
        Term::Literal(l) => {
            let s = nq_str(l.value.as_ref(), g);
            match &l.type_ {
                LiteralType::Any(i) if i.as_str() == xsd("string") && g.bool() => s,
                LiteralType::Any(i) => format!("{s}^^<{i}>"),
                LiteralType::LangString(l) => format!("{s}@{l}"),
            }
        }
    }
}
pub fn nquads(qs: &[Quad], g: &mut G) -> String {
    let mut s = String::new();
    for q in qs {
        if g.chance(1, 12) {
            s.push_str(g.pick(&["\n", "# comment <a> .\n", "  \n", "\t# \"\n"]));
        }
        let mut t = vec![nq_term(&q.0, g), nq_term(&q.1, g), nq_term(&q.2, g)];
        t.extend(q.3.as_ref().map(|x| nq_term(x, g)));
        s.push_str(&t.join(if g.chance(1, 12) { "  \t" } else { " " }));
        // The parser (a dependency) takes a full stop for a part of a blank node or language tag.
        s.push_str(if s.ends_with(|c: char| c.is_alphanumeric() || c == '_') { " .\n" } else { g.pick(&[" .\n", " .\n", " .\n", ".\n", " . # end\n"]) });
    }
    s
}
fn parse_nquads(b: &[u8]) -> Result<Vec<Quad>, String> {
    use nquads_syntax::Parse;
    let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let doc = nquads_syntax::GrdfDocument::parse_str(s).map_err(|e| format!("{e:?}"))?.into_value();
    let mut v = vec![];
    for q in doc {
        v.push(nquads_syntax::strip_quad(q.into_value()));
    }
    Ok(v)
}

// ---------------------------------------------------------------- expectation
#[derive(Clone, Copy, PartialEq, Debug)]
enum Tf {
    Json,
    Cbor,
}
impl Tf {
    fn name(self, g: &mut G) -> String {
        match self {
            Tf::Json => *g.pick(&["json", "application/json"]),
            Tf::Cbor => *g.pick(&["cbor", "application/cbor"]),
        }
        .into()
    }
    fn gen(g: &mut G) -> Self {
        if g.chance(2, 5) {
            Tf::Cbor
        } else {
            Tf::Json
        }
    }
}
fn rdf_name(g: &mut G) -> String {
    g.pick(&["n-quads", "nquads", "nq", "application/n-quads"]).to_string()
}
#[derive(Clone, Debug)]
enum Cmd {
    Nothing,
    Hydrate { output: Tf, layout: Option<String>, subjects: Vec<Term>, pretty: bool },
    Dehydrate { input: Tf, layout: Option<String> },
    Tree { input: Tf, output: Tf, pretty: bool },
    Rdf,
}
/// What the standard input holds.
#[derive(Clone)]
enum In {
    /// Nothing the command may read.
    Bad,
    Tree(Value),
    Quads(Vec<Quad>),
}
enum Want {
    Fail(&'static str),
    Nothing,
    Quads(Vec<Quad>),
    Tree(Value, Tf, bool, Option<Cbor>),
}
struct Job {
    /// Layout files: text and whether it is only included.
    files: Vec<(Vec<u8>, bool)>,
    no_prelude: bool,
    cmd: Cmd,
    input: In,
}
/// Place of the error in the first file that is not a layout document:
/// `file:line:`, where a line is known.
fn place(files: &[(Vec<u8>, bool)]) -> Option<String> {
    use json_syntax::TryFromJson;
    let mut order: Vec<_> = files.iter().enumerate().filter(|x| !x.1 .1).collect();
    order.extend(files.iter().enumerate().filter(|x| x.1 .1));
    let all: Vec<_> = order.iter().map(|x| (x.1 .0.clone(), false)).collect();
    for (n, (i, (t, _))) in order.into_iter().enumerate() {
        load(&all[..n])?;
        let t = std::str::from_utf8(t).ok()?;
        let at = match json_syntax::Value::parse_str(t) {
            Err(e) => e.span().start(),
            Ok((j, map)) => match treeldr_layouts::abs::syntax::Layout::try_from_json(&j, &map) {
                Err(e) => map.get(e.position())?.span.start(),
                Ok(_) => continue,
            },
        };
        return Some(format!("f{i}.json:{}:", 1 + t.get(..at)?.matches('\n').count()));
    }
    None
}
/// Layouts of the files by the library, and that of each file.
fn load(files: &[(Vec<u8>, bool)]) -> Option<(Layouts, Vec<Ref<LayoutType>>)> {
    let mut all = Layouts::new();
    let mut tops = vec![];
    let mut gen = generator::Blank::new();
    let mut order: Vec<_> = files.iter().filter(|x| !x.1).collect();
    order.extend(files.iter().filter(|x| x.1));
    for (t, _) in order {
        let l = parse_syn(std::str::from_utf8(t).ok()?).ok()?;
        let mut b = Builder::new();
        tops.push(l.build_with_context(&mut b.with_generator_mut(&mut gen)).ok()?);
        for (id, layout) in b.build() {
            if all.insert(id.into_id(), layout).1.is_some() {
                return None;
            }
        }
    }
    Some((all, tops))
}
fn expect(job: &Job) -> Result<Want, String> {
    let Some((layouts, tops)) = load(&job.files) else { return Ok(Want::Fail("layouts")) };
    let ldefault = |given: &Option<String>| -> Result<Ref<LayoutType>, Want> {
        if let Some(i) = given {
            return Ok(Ref::new(id_term(i)));
        }
        let n = job.files.iter().filter(|x| !x.1).count();
        match n {
            0 => Err(Want::Fail("no default layout")),
            1 => Ok(tops[0].clone()),
            _ => Err(Want::Fail("ambiguous layout")),
        }
    };
    let reg = layouts.with(if job.no_prelude { None } else { Some(Prelude) });
    Ok(match &job.cmd {
        Cmd::Nothing => Want::Nothing,
        Cmd::Rdf => match &job.input {
            In::Quads(q) => Want::Quads(q.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect()),
            _ => Want::Fail("dataset"),
        },
        Cmd::Tree { output, pretty, .. } => match &job.input {
            In::Tree(x) => Want::Tree(x.clone(), *output, *pretty, Some(cbor_of(x))),
            _ => Want::Fail("tree"),
        },
        Cmd::Dehydrate { layout, .. } => {
            let l = match ldefault(layout) {
                Ok(l) => l,
                Err(e) => return Ok(e),
            };
            let In::Tree(x) = &job.input else { return Ok(Want::Fail("tree")) };
            match de::dehydrate(&reg, x, &l, Default::default()) {
                Ok((d, _)) => {
                    let d: BTreeDataset = d;
                    Want::Quads(d.into_iter().collect())
                }
                Err(_) => Want::Fail("dehydration"),
            }
        }
        Cmd::Hydrate { output, layout, subjects, pretty } => {
            let l = match ldefault(layout) {
                Ok(l) => l,
                Err(e) => return Ok(e),
            };
            let In::Quads(q) = &job.input else { return Ok(Want::Fail("dataset")) };
            let d = Scan(q.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect());
            match hy::hydrate(&reg, &d, &l, subjects) {
                Ok(t) => {
                    let c = match output {
                        Tf::Json => None,
                        Tf::Cbor => match t.clone().try_into_tagged_serde_cbor(&reg) {
                            Ok(c) => Some(c),
                            Err(_) => return Ok(Want::Fail("tag")),
                        },
                    };
                    Want::Tree(t.into_untyped(), *output, *pretty, c)
                }
                Err(_) => Want::Fail("hydration"),
            }
        }
    })
}
fn id_term(i: &str) -> Term {
    if i.starts_with("_:") {
        blank_term(&i[2..])
    } else {
        iri_term(i)
    }
}
fn id_text(t: &Term) -> String {
    match t {
        Term::Id(Id::Iri(i)) => i.to_string(),
        Term::Id(Id::Blank(b)) => b.to_string(),
        Term::Literal(_) => unreachable!(),
    }
}
/// The command line of a job.
fn args(job: &Job, g: &mut G) -> Vec<String> {
    let mut a: Vec<String> = vec![];
    let mut globals: Vec<String> = vec![];
    if job.no_prelude {
        globals.push(g.pick(&["-n", "--no-prelude"]).to_string());
    }
    if g.chance(1, 10) {
        globals.push(g.pick(&["-v", "--verbose", "-vv", "-vvvv"]).to_string());
    }
    let late = g.bool();
    if !late {
        a.append(&mut globals);
    }
    for (i, f) in job.files.iter().enumerate() {
        let n = if g.chance(1, 6) { format!("./f{i}.json") } else { format!("f{i}.json") };
        if f.1 {
            match g.below(4) {
                0 => a.extend(["-i".into(), n]),
                1 => a.extend(["--include".into(), n]),
                2 => a.push(format!("--include={n}")),
                _ => a.push(format!("-i{n}")),
            }
        } else {
            a.push(n);
        }
    }
    let mut o: Vec<Vec<String>> = vec![];
    let mut opt = |g: &mut G, short: &str, long: &str, v: String| {
        o.push(match g.below(4) {
            0 => vec![short.into(), v],
            1 => vec![long.into(), v],
            2 => vec![format!("{long}={v}")],
            _ => vec![format!("{short}{v}")],
        })
    };
    let mut pos = vec![];
    let mut pr = false;
    match &job.cmd {
        Cmd::Nothing => (),
        Cmd::Hydrate { output, layout, subjects, pretty } => {
            a.push("hydrate".into());
            if g.chance(1, 3) {
                let n = rdf_name(g);
                opt(g, "-i", "--input", n);
            }
            if *output != Tf::Json || g.bool() {
                let n = output.name(g);
                opt(g, "-o", "--output", n);
            }
            if let Some(l) = layout {
                opt(g, "-l", "--layout", l.clone());
            }
            pr = *pretty;
            pos = subjects.iter().map(id_text).collect();
        }
        Cmd::Dehydrate { input, layout } => {
            a.push("dehydrate".into());
            if *input != Tf::Json || g.bool() {
                let n = input.name(g);
                opt(g, "-i", "--input", n);
            }
            if g.chance(1, 3) {
                let n = rdf_name(g);
                opt(g, "-o", "--output", n);
            }
            if let Some(l) = layout {
                opt(g, "-l", "--layout", l.clone());
            }
        }
        Cmd::Tree { input, output, pretty } => {
            a.extend(["convert".into(), "tree".into()]);
            if *input != Tf::Json || g.bool() {
                let n = input.name(g);
                opt(g, "-i", "--input", n);
            }
            if *output != Tf::Json || g.bool() {
                let n = output.name(g);
                opt(g, "-o", "--output", n);
            }
            pr = *pretty;
        }
        Cmd::Rdf => {
            a.extend(["convert".into(), "rdf".into()]);
            if g.bool() {
                let n = rdf_name(g);
                opt(g, "-i", "--input", n);
            }
            if g.bool() {
                let n = rdf_name(g);
                opt(g, "-o", "--output", n);
            }
        }
    }
    if pr {
        o.push(vec![g.pick(&["-p", "--pretty"]).to_string()]);
    }
    if late {
        o.extend(globals.into_iter().map(|x| vec![x]));
    }
    g.shuffle(&mut o);
    let cut = if pos.is_empty() { 0 } else { g.below(pos.len() + 1) };
    let tail = pos.split_off(cut);
    a.extend(pos);
    a.extend(o.into_iter().flatten());
    a.extend(tail);
    a
}
fn show_done(d: &Done) -> String {
    format!("exit {:?}, stdout {:?}, stderr {:?}", d.code, String::from_utf8_lossy(&d.out), d.err)
}
fn judge(want: &Want, d: &Done) -> R {
    match want {
        Want::Fail(why) => {
            ensure!(d.code == Some(1), "the {why} should make the command fail\n  {}", show_done(d));
            ensure!(d.err.contains("error"), "no diagnostic\n  {}", show_done(d));
            ensure!(d.out.is_empty(), "output in spite of an error\n  {}", show_done(d));
        }
        Want::Nothing => {
            ensure!(d.code == Some(0) && d.out.is_empty(), "valid layouts are not accepted quietly\n  {}", show_done(d));
        }
        Want::Quads(q) => {
            ensure!(d.code == Some(0), "the command fails\n  {}", show_done(d));
            let r = match parse_nquads(&d.out) {
                Ok(r) => r,
                Err(e) => fail!("the output is not N-Quads: {e}\n  {}", show_done(d)),
            };
            ensure!(isomorphic(q, &[], &r, &[]), "wrong dataset\n  expected: {}\n  got: {}", show_quads(q), show_quads(&r));
        }
        Want::Tree(x, Tf::Json, pretty, _) => {
            if value_json(x).is_none() {
                return judge(&Want::Fail("value without a JSON form"), d);
            }
            ensure!(d.code == Some(0), "the command fails\n  {}", show_done(d));
            let s = match std::str::from_utf8(&d.out) {
                Ok(s) => s,
                Err(e) => fail!("{e}\n  {}", show_done(d)),
            };
            let j = match json_syntax::Value::parse_str(s) {
                Ok(j) => j.0,
                Err(e) => fail!("the output is not JSON: {e}\n  {}", show_done(d)),
            };
            let p = if *pretty { j.pretty_print().to_string() } else { j.compact_print().to_string() };
            ensure!(p.trim_end() == s.trim_end(), "not printed {}\n  {}", if *pretty { "prettily" } else { "compactly" }, show_done(d));
            let y: Value = j.into();
            ensure!(&y == x, "wrong tree\n  expected: {}\n  got: {}", show_value(x), show_value(&y));
        }
        Want::Tree(x, Tf::Cbor, _, c) => {
            ensure!(d.code == Some(0), "the command fails\n  {}", show_done(d));
            let r: Cbor = match serde_cbor::from_slice(&d.out) {
                Ok(r) => r,
                Err(e) => fail!("the output is not CBOR: {e}\n  {}", show_done(d)),
            };
            ensure!(Some(&r) == c.as_ref(), "wrong tree\n  value: {}\n  expected: {c:?}\n  got: {r:?}", show_value(x));
        }
    }
    Ok(Outcome::Pass)
}

// ---------------------------------------------------------------- generation
fn print_tree(g: &mut G, x: &Value, f: Tf) -> Option<(Vec<u8>, Value)> {
    match f {
        Tf::Json => {
            let j = value_json(x)?;
            Some((jsyn::print(&j, Some(g)).text.into_bytes(), x.clone()))
        }
        Tf::Cbor => Some((serde_cbor::to_vec(&cbor_of(x)).unwrap(), cbor_exact(x))),
    }
}
fn random_quads(g: &mut G) -> Vec<Quad> {
    let n = if g.chance(1, 15) { 60 + g.below(120) } else { g.len(6) };
    let mut f = |g: &mut G, lit: bool| match g.weighted(&[4, 3, if lit { 6 } else { 1 }]) {
        0 => iri_term(g.pick(&["http://example.org/a", "http://example.org/b#c", "http://example.org/d/", "urn:x:y", "http://example.org/é?q=1"])),
        1 => blank_term(g.pick(&["a", "b", "b0", "x_y"])),
        _ => {
            let s = g_text(g);
            match g.below(4) {
                0 => lit_term(&s, &xsd("string")),
                1 => lit_term(&s, &xsd("decimal")),
                2 => lit_term(&s, "http://example.org/dt"),
                _ => Term::Literal(RdfLiteral::new(s, LiteralType::LangString(langtag::LangTagBuf::new(g.pick(&["en", "fr-BE", "x-klingon"]).to_string()).unwrap()))),
            }
        }
    };
    (0..n)
        .map(|_| {
            let gr = g.chance(1, 3);
            Quad(f(g, false), f(g, false), f(g, true), if gr { Some(f(g, false)) } else { None })
        })
        .collect()
}
/// A job on valid files and input; the text of the input comes along.
fn job(g: &mut G) -> Result<Option<(Job, Vec<u8>)>, String> {
    let kind = g.weighted(&[6, 6, 3, 2, 1]);
    let depth = 1 + g.below(2);
    let mut docs = {
        let mut lg = Lg::new(g);
        lg.all_ids = lg.g.chance(1, 3);
        lg.docs(depth)
    };
    if kind == 1 && g.chance(1, 3) {
        for l in docs.iter_mut() {
            l.visit_mut(&mut |l| {
                if let L::Def(d) = l {
                    if d.0.id.is_some() && g.bool() {
                        let t = *g.pick(&[1i64, 24, 42, 256, 65536, -1]);
                        if t > 0 || g.chance(1, 8) {
                            d.0.extra.push((TAG.into(), X::Int(t)));
                        }
                    }
                }
            })
        }
    }
    let text = doc_text(&docs, &mut RandomStyle(g));
    let id = docs[0].hk().and_then(|x| x.0.id.clone());
    // Where the files go.
    let mut files: Vec<(Vec<u8>, bool)> = vec![];
    let first = if kind >= 2 { g.bool() } else { g.chance(1, 8) };
    for (i, t) in text.iter().enumerate() {
        let inc = if i == 0 { first } else { !g.chance(1, 8) };
        files.push((jsyn::print(t, if g.chance(1, 3) { Some(g) } else { None }).text.into_bytes(), inc));
    }
    if g.chance(1, 12) {
        let i = g.below(files.len());
        let inc = g.chance(2, 3);
        let f = files[i].0.clone();
        files.push((f, inc));
        g.label("file given twice");
    }
    if g.chance(1, 10) {
        files.push((br#"{"type":"string"}"#.to_vec(), g.bool()));
    }
    if g.bool() {
        g.shuffle(&mut files);
    }
    let no_prelude = g.chance(1, 12);
    let ambiguous = files.iter().filter(|x| !x.1).count() != 1;
    let layout = match &id {
        Some(i) if g.chance(if ambiguous { 7 } else { 1 }, 8) => Some(i.clone()),
        _ if g.chance(1, 40) => Some(g.pick(&["http://example.org/unknown", "_:unknown"]).to_string()),
        _ if g.chance(1, 40) => Some(format!("{PRELUDE}string")),
        _ => None,
    };
    let w = World::new(docs);
    let reg = w.reg();
    let mut x = Vg::new(g).value(w.top(), &reg, depth + 1);
    let r = match kind {
        0 => {
            if g.chance(1, 5) {
                x = no_empty_map(mutate_value(g, &x));
                g.label("changed input");
            }
            let input = Tf::gen(g);
            let Some((b, x)) = print_tree(g, &x, input) else { return Ok(None) };
            g.note("value", show_value(&x));
            g.label("dehydrate");
            g.nontrivial = value_size(&x) >= 2;
            (Job { files, no_prelude, cmd: Cmd::Dehydrate { input, layout }, input: In::Tree(x) }, b)
        }
        1 => {
            let Ok((mut quads, inputs)) = ref_dehydrate(w.top(), reg.clone(), &x) else { return Ok(None) };
            if g.chance(1, 5) {
                mutate_quads(g, &mut quads, &inputs, &[]);
                g.label("changed input");
            }
            let mut subjects = inputs;
            if g.chance(1, 20) {
                match subjects.last().cloned() {
                    Some(t) if g.bool() => subjects.push(t),
                    _ => {
                        subjects.pop();
                    }
                }
            }
            if subjects.iter().any(|t| matches!(t, Term::Literal(_))) {
                return Ok(None);
            }
            g.shuffle(&mut quads);
            if !indexable(&quads) {
                return Ok(None);
            }
            g.label("hydrate");
            g.nontrivial = !quads.is_empty();
            let t = nquads(&quads, g);
            g.note("dataset", &t);
            (Job { files, no_prelude, cmd: Cmd::Hydrate { output: Tf::gen(g), layout, subjects, pretty: g.chance(1, 3) }, input: In::Quads(quads) }, t.into_bytes())
        }
        2 => {
            let (input, output) = (Tf::gen(g), Tf::gen(g));
            let d = g.below(4);
            let x = no_empty_map(tree(g, d, input == Tf::Json));
            let Some((b, x)) = print_tree(g, &x, input) else { return Ok(None) };
            g.note("value", show_value(&x));
            g.label("convert tree");
            g.nontrivial = value_size(&x) >= 2;
            (Job { files, no_prelude, cmd: Cmd::Tree { input, output, pretty: g.chance(1, 3) }, input: In::Tree(x) }, b)
        }
        3 => {
            let quads = random_quads(g);
            g.label("convert rdf");
            g.nontrivial = !quads.is_empty();
            let t = nquads(&quads, g);
            g.note("dataset", &t);
            (Job { files, no_prelude, cmd: Cmd::Rdf, input: In::Quads(quads) }, t.into_bytes())
        }
        _ => {
            g.label("layouts only");
            (Job { files, no_prelude, cmd: Cmd::Nothing, input: In::Bad }, vec![])
        }
    };
    Ok(Some(r))
}
fn run_job(g: &mut G, job: &Job, a: &[String], stdin: &[u8]) -> R {
    for (i, f) in job.files.iter().enumerate() {
        g.note(&format!("f{i}.json"), String::from_utf8_lossy(&f.0));
    }
    g.note("args", a.join(" "));
    let want = expect(job)?;
    g.label(match &want {
        Want::Fail("layouts") => "refused layouts",
        Want::Fail("no default layout") => "no default layout",
        Want::Fail("ambiguous layout") => "ambiguous layout",
        Want::Fail(_) => "other failure",
        _ => "success",
    });
    let files: Vec<Vec<u8>> = job.files.iter().map(|f| f.0.clone()).collect();
    let d = tldr(&files, a, stdin);
    if let (Want::Fail("layouts"), false) = (&want, a.iter().any(|x| x.contains("missing") || x == "." || x.contains("/x"))) {
        if let Some(at) = place(&job.files) {
            ensure!(d.err.contains(&at), "the diagnostic does not show the place of the error, {at}\n  {}", show_done(&d));
            g.label("place");
        }
    }
    judge(&want, &d)
}
fn p30(g: &mut G) -> R {
    let Some((job, stdin)) = job(g)? else { return Ok(Outcome::Discard) };
    let a = args(&job, g);
    run_job(g, &job, &a, &stdin)
}
pub const P30: Prop = Prop { id: "P30", quick: 30_000, thorough: 300_000, rule: "the command reads a tree of at least two nodes or a dataset of at least one quad", run: p30, known: &[("repeated-term", "data with a term that occurs twice in the first quad it appears in cannot be hydrated", p30_repeated)] };
fn p30_repeated() -> Result<(), String> {
    let layout = br#"{"type":"record","intro":["o"],"dataset":[["_:self","http://ex.org/p","_:o"]]}"#.to_vec();
    let d = tldr(&[layout], &["f0.json".into(), "hydrate".into(), "http://ex.org/a".into()], b"<http://ex.org/a> <http://ex.org/p> <http://ex.org/p> .\n");
    if d.code == Some(0) && d.out.trim_ascii() == b"{}" {
        Ok(())
    } else {
        Err(show_done(&d))
    }
}

// ---------------------------------------------------------------- P31
fn mangle(g: &mut G, b: &mut Vec<u8>) {
    for _ in 0..1 + g.below(3) {
        let n = b.len();
        let i = g.below(n + 1);
        match g.below(6) {
            0 => b.truncate(i),
            1 => {
                let j = (i + 1 + g.below(8)).min(n);
                b.drain(i.min(j)..j);
            }
            2 if i < n => b[i] = g.below(256) as u8,
            3 => b.insert(i, *g.pick(b"{}[]\",:\\ \n0-+.<>_@^e\x00\x80\xff\xc3\xf0")),
            4 if n > 0 => {
                let j = g.below(n);
                let k = (j + 1 + g.below(12)).min(n);
                let s = b[j..k].to_vec();
                b.splice(i..i, s);
            }
            _ if i < n => b[i] = *g.pick(b"{}[]\",:\\ \n0-+.<>_@^tfn\x00\x80\xff\xc3\xf0"),
            _ => (),
        }
    }
}
/// Numbers with long exponents are left out: reading them takes forever.
fn huge(b: &[u8]) -> bool {
    (0..b.len()).any(|i| {
        (b[i] | 32) == b'e' && i > 0 && (b[i - 1].is_ascii_digit() || b[i - 1] == b'.') && {
            let j = i + 1 + b.get(i + 1).map_or(0, |c| (*c == b'-' || *c == b'+') as usize);
            b[j.min(b.len())..].iter().take_while(|c| c.is_ascii_digit()).count() > 2
        }
    })
}
fn p31(g: &mut G) -> R {
    let Some((mut job, mut stdin)) = job(g)? else { return Ok(Outcome::Discard) };
    let mut a = args(&job, g);
    g.nontrivial = true;
    match g.weighted(&[5, 6, 1, 1]) {
        0 => {
            g.label("layout file");
            let i = g.below(job.files.len());
            if g.chance(1, 3) {
                let Ok(t) = String::from_utf8(job.files[i].0.clone()) else { return Ok(Outcome::Discard) };
                let Some(mut j) = to_j(&t) else { return Ok(Outcome::Discard) };
                for _ in 0..1 + g.below(3) {
                    jsyn::mutate_json(g, &mut j);
                }
                job.files[i].0 = jsyn::print(&j, Some(g)).text.into_bytes();
            } else {
                mangle(g, &mut job.files[i].0);
            }
            if huge(&job.files[i].0) {
                return Ok(Outcome::Discard);
            }
        }
        1 => {
            g.label("standard input");
            mangle(g, &mut stdin);
            if huge(&stdin) {
                return Ok(Outcome::Discard);
            }
            g.note("stdin", format!("{:?}", String::from_utf8_lossy(&stdin)));
            g.note("stdin bytes", hex(&stdin));
            let tf = match &job.cmd {
                Cmd::Dehydrate { input, .. } | Cmd::Tree { input, .. } => Some(*input),
                _ => None,
            };
            job.input = match tf {
                Some(Tf::Json) => match std::str::from_utf8(&stdin) {
                    Ok(s) => match json_syntax::Value::parse_str(s) {
                        Ok((j, _)) => {
                            ensure!(serde_json::from_str::<serde::de::IgnoredAny>(s).is_ok(), "accepted by the JSON parser only");
                            In::Tree(j.into())
                        }
                        Err(_) => In::Bad,
                    },
                    Err(_) => return crash(g, &job, &a, &stdin),
                },
                Some(Tf::Cbor) => match serde_cbor::from_slice(&stdin) {
                    Ok(x) => In::Tree(x),
                    Err(_) => In::Bad,
                },
                None => match std::str::from_utf8(&stdin) {
                    Ok(_) => match parse_nquads(&stdin) {
                        Ok(q) if matches!(job.cmd, Cmd::Rdf) || indexable(&q) => In::Quads(q),
                        Ok(_) => return Ok(Outcome::Discard),
                        Err(_) => In::Bad,
                    },
                    Err(_) => return crash(g, &job, &a, &stdin),
                },
            };
        }
        2 => {
            g.label("missing file");
            let w = match g.below(4) {
                0 => vec!["missing.json".to_string()],
                1 => vec![".".to_string()],
                2 => vec!["--include".to_string(), "missing.json".to_string()],
                _ => vec!["-i".to_string(), "f0.json/x".to_string()],
            };
            a.splice(0..0, w);
            job.files = vec![(b"bad".to_vec(), false)];
        }
        _ => {
            g.label("usage");
            let bad: &[&str] = match g.below(8) {
                0 => &["--no-such-option"],
                1 => &["convert"],
                2 => &["hydrate", "-o", "yaml"],
                3 => &["hydrate", "not a term"],
                4 => &["hydrate", "_:a."],
                5 => &["hydrate", "http://example.org/a", "_:"],
                6 => &["dehydrate", "-l", "relative"],
                _ => &["dehydrate", "-l", "<http://example.org/>"],
            };
            let a: Vec<String> = bad.iter().map(|x| x.to_string()).collect();
            g.note("args", a.join(" "));
            let d = tldr(&[], &a, b"");
            ensure!(d.code == Some(2) && d.out.is_empty() && d.err.contains("error") | d.err.contains("Usage"), "a wrong command line is not refused\n  {}", show_done(&d));
            return Ok(Outcome::Pass);
        }
    }
    run_job(g, &job, &a, &stdin)
}
/// The command must end by itself, with a diagnostic when it fails.
fn crash(g: &mut G, job: &Job, a: &[String], stdin: &[u8]) -> R {
    g.label("not UTF-8");
    let files: Vec<Vec<u8>> = job.files.iter().map(|f| f.0.clone()).collect();
    let d = tldr(&files, a, stdin);
    match d.code {
        Some(0) => Ok(Outcome::Pass),
        _ => judge(&Want::Fail("input"), &d),
    }
}
fn to_j(s: &str) -> Option<J> {
    fn f(v: &json_syntax::Value) -> J {
        use json_syntax::Value as V;
        match v {
            V::Null => J::Null,
            V::Boolean(b) => J::Bool(*b),
            V::Number(n) => J::Num(n.to_string()),
            V::String(s) => js(s.to_string()),
            V::Array(a) => J::Arr(a.iter().map(f).collect()),
            V::Object(o) => J::Obj(o.entries().iter().map(|e| (e.key.to_string(), f(&e.value))).collect()),
        }
    }
    json_syntax::Value::parse_str(s).ok().map(|x| f(&x.0))
}
pub const P31: Prop = Prop { id: "P31", quick: 30_000, thorough: 300_000, rule: "something was damaged", run: p31, known: &[] };
