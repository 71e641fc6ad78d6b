//! The Rust code generator, as a library and as the `tldr-rs` command.
use super::cli::Scratch;
use super::distill::*;
use super::syntax::build_each;
use crate::engine::*;
use crate::gen::*;
use crate::jsyn;
use crate::model::*;
use crate::{ensure, fail};
use quote::ToTokens;
use rdf_types::{Id, Term};
use std::collections::BTreeSet;
use std::process::{Command, Stdio};
use treeldr_gen_rust::{generate, Error, Options};
use treeldr_layouts::abs::syntax::Layout as SynLayout;
use treeldr_layouts::distill::RdfContext;
use treeldr_layouts::layout::{DataLayout, LayoutType, ListLayout, LiteralLayout};
use treeldr_layouts::{Dataset, Layout, Layouts, Literal, Pattern, Ref, Value, ValueFormat};

// ---------------------------------------------------------------- expectation
/// The Rust name made of a part of an IRI.
fn pascal(s: &str) -> Option<String> {
    let words: Vec<String> = s
        .split(|c: char| c == '_' || c.is_whitespace() || c.is_control())
        .map(|w| {
            let mut cs = w.chars();
            cs.next().map(|c| c.to_uppercase().chain(cs).collect()).unwrap_or_default()
        })
        .collect();
    rust_ident(&words.concat())
}
const KEYWORDS: &[&str] = &[
    "_", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return",
    "Self", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
];
fn rust_ident(s: &str) -> Option<String> {
    let mut cs = s.chars();
    let first = cs.next()?;
    let ok = (first == '_' || first.is_alphabetic()) && cs.all(|c| c == '_' || c.is_alphanumeric()) && !KEYWORDS.contains(&s);
    ok.then(|| s.to_string())
}
fn type_name(t: &Term) -> Option<String> {
    let Term::Id(Id::Iri(i)) = t else { return None };
    let s = i.as_str();
    match s.split_once('#') {
        Some((_, f)) => pascal(f),
        None => {
            let rest = &s[s.find(':').unwrap() + 1..];
            let rest = rest.split('?').next().unwrap();
            let path = match rest.strip_prefix("//") {
                Some(r) => &r[r.find('/')?..],
                None => rest,
            };
            pascal(path.rsplit('/').next()?)
        }
    }
}
fn preset(t: &Term) -> Option<&'static str> {
    let Term::Id(Id::Iri(i)) = t else { return None };
    Some(match i.as_str().strip_prefix(PRELUDE)? {
        "id" => "::treeldr::rdf_types::Id",
        "unit" => "()",
        "boolean" => "bool",
        "string" => "String",
        "u8" => "u8",
        "u16" => "u16",
        "u32" => "u32",
        "u64" => "u64",
        "i8" => "i8",
        "i16" => "i16",
        "i32" => "i32",
        "i64" => "i64",
        _ => return None,
    })
}
#[derive(Default, Debug)]
struct Want {
    /// Reasons why there is no Rust form.
    errors: BTreeSet<String>,
    /// Members of the declaration: their name and type.
    members: Vec<(String, String)>,
    name: String,
    is_enum: bool,
    /// Modules of the other layouts, by the start of their identifiers.
    modules: Vec<(String, String)>,
}
impl Want {
    fn pattern(&mut self, p: &Pattern<Term>) {
        if let Pattern::Resource(Term::Literal(_)) | Pattern::Resource(Term::Id(Id::Blank(_))) = p {
            self.errors.insert("no IRI representation".into());
        }
    }
    fn dataset(&mut self, d: &Dataset<Term>) {
        use rdf_types::dataset::TraversableDataset;
        for q in d.quads() {
            for p in [q.0, q.1, q.2].into_iter().chain(q.3) {
                self.pattern(p);
            }
        }
    }
    fn name_of(&mut self, t: &Term) -> String {
        type_name(t).unwrap_or_else(|| {
            self.errors.insert(format!("missing type identifier for layout {t}"));
            String::new()
        })
    }
    fn format(&mut self, f: &ValueFormat<Term>) -> String {
        f.input.iter().for_each(|p| self.pattern(p));
        if let Some(Some(g)) = &f.graph {
            self.pattern(g);
        }
        match preset(f.layout.id()) {
            Some(t) => t.to_string(),
            None => {
                let name = self.name_of(f.layout.id());
                let iri = f.layout.id().as_iri().map(|i| i.to_string()).unwrap_or_default();
                match self.modules.iter().filter(|m| iri.starts_with(&m.0)).max_by_key(|m| m.0.len()) {
                    Some(m) => format!("{}::{name}", m.1),
                    None => name,
                }
            }
        }
    }
    fn of(layouts: &Layouts, r: &Ref<LayoutType>, modules: &[(String, String)]) -> Want {
        let mut w = Want { modules: modules.to_vec(), ..Want::default() };
        w.name = w.name_of(r.id());
        match layouts.get(r).unwrap() {
            Layout::Always | Layout::Never => (),
            Layout::Literal(LiteralLayout::Id(l)) => {
                w.dataset(&l.dataset);
                w.pattern(&l.resource);
                w.members.push(("0".into(), "::treeldr::rdf_types::Id".into()));
            }
            Layout::Literal(LiteralLayout::Data(l)) => {
                let (d, m, ty) = match l {
                    DataLayout::Unit(l) => (&l.dataset, None, None),
                    DataLayout::Boolean(l) => (&l.dataset, Some(&l.resource), Some("bool".to_string())),
                    DataLayout::TextString(l) => (&l.dataset, Some(&l.resource), Some("String".to_string())),
                    DataLayout::ByteString(l) => (&l.dataset, Some(&l.resource), Some("Vec<u8>".to_string())),
                    DataLayout::Number(l) => {
                        let dt = l.datatype.to_string();
                        let ty = crate::drv::WIDTHS.iter().find(|w| l.datatype == iri_term(&xsd(w.0))).map(|w| w.1.to_string());
                        if ty.is_none() {
                            w.errors.insert(format!("unsupported number datatype {dt}"));
                        }
                        (&l.dataset, Some(&l.resource), Some(ty.unwrap_or_default()))
                    }
                };
                w.dataset(d);
                if let Some(p) = m {
                    w.pattern(p);
                }
                w.members.extend(ty.map(|t| ("0".to_string(), t)));
            }
            Layout::Product(l) => {
                w.dataset(&l.dataset);
                for (k, f) in &l.fields {
                    let name = match k {
                        Value::Literal(Literal::TextString(s)) => rust_ident(s.as_str()),
                        _ => None,
                    };
                    if name.is_none() {
                        w.errors.insert(format!("invalid field identifier `{k}`"));
                    }
                    w.dataset(&f.dataset);
                    let t = w.format(&f.value);
                    let t = if f.required { t } else { format!("Option<{t}>") };
                    w.members.push((name.unwrap_or_default(), t));
                }
            }
            Layout::Sum(l) => {
                w.is_enum = true;
                w.dataset(&l.dataset);
                for v in &l.variants {
                    if rust_ident(&v.name).is_none() {
                        w.errors.insert(format!("invalid variant identifier `{}`", v.name));
                    }
                    w.dataset(&v.dataset);
                    let t = w.format(&v.value);
                    w.members.push((v.name.clone(), t));
                }
            }
            Layout::List(ListLayout::Ordered(l)) => {
                w.dataset(&l.dataset);
                w.pattern(&l.head);
                w.pattern(&l.tail);
                w.dataset(&l.node.dataset);
                let t = w.format(&l.node.value);
                w.members.push(("0".into(), format!("Vec<{t}>")));
            }
            Layout::List(ListLayout::Unordered(l)) => {
                w.dataset(&l.dataset);
                w.dataset(&l.item.dataset);
                let t = w.format(&l.item.value);
                w.members.push(("0".into(), format!("Vec<{t}>")));
            }
            Layout::List(ListLayout::Sized(l)) => {
                w.dataset(&l.dataset);
                for (i, x) in l.items.iter().enumerate() {
                    w.dataset(&x.dataset);
                    let t = w.format(&x.value);
                    w.members.push((i.to_string(), t));
                }
            }
        }
        w
    }
    fn check(&self, text: &str) -> Result<(), String> {
        let flat = |t: &dyn ToTokens| t.to_token_stream().to_string().replace(' ', "");
        let file: syn::File = syn::parse_str(text).map_err(|e| format!("the generated code is not Rust: {e}"))?;
        let item = file
            .items
            .iter()
            .find(|i| matches!(i, syn::Item::Struct(_) | syn::Item::Enum(_)))
            .ok_or("no type is declared")?;
        let mut got = vec![];
        let (ident, vis, attrs, is_enum) = match item {
            syn::Item::Struct(s) => {
                for (i, f) in s.fields.iter().enumerate() {
                    got.push((f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()), flat(&f.ty)));
                    if flat(&f.vis) != "pub" {
                        return Err("a member is not public".into());
                    }
                }
                (&s.ident, &s.vis, &s.attrs, false)
            }
            syn::Item::Enum(e) => {
                for v in &e.variants {
                    let ts: Vec<String> = v.fields.iter().map(|f| flat(&f.ty)).collect();
                    got.push((v.ident.to_string(), ts.join(",")));
                }
                (&e.ident, &e.vis, &e.attrs, true)
            }
            _ => unreachable!(),
        };
        if ident != &self.name {
            return Err(format!("the type is named {ident} instead of {}", self.name));
        }
        if flat(vis) != "pub" {
            return Err("the type is not public".into());
        }
        if is_enum != self.is_enum || got != self.members {
            return Err(format!("the type has members {got:?} instead of {:?}", self.members));
        }
        let a: String = attrs.iter().map(|a| flat(a)).collect();
        if !a.contains("SerializeLd") || !a.contains("DeserializeLd") {
            return Err("the type does not derive the conversions".into());
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- layouts
/// Gives other identifiers to the layouts.
fn rename(g: &mut G, docs: &mut [L]) {
    let mut ids: Vec<String> = vec![];
    for d in docs.iter() {
        d.visit(&mut |l| {
            if let L::Def(d) = l {
                ids.extend(d.0.id.clone());
            }
        });
    }
    let hard = g.chance(1, 3);
    let mut ren = std::collections::HashMap::new();
    for (n, i) in ids.into_iter().enumerate() {
        let k = if hard { g.below(16) } else { g.below(5) };
        let new = match k {
            0 => continue,
            1 => format!("{EX}a/my_layOut_{n}"),
            2 => format!("{EX}a/b#thing{n}"),
            3 => format!("{EX}x{n}?query#__Name{n}_z_"),
            4 => format!("urn:schema:{n}/été{n}"),
            5 => format!("{EX}a-b{n}"),
            6 => format!("{EX}{n}"),
            7 => format!("{EX}dir{n}/"),
            8 => format!("{EX}L{n}#"),
            9 => format!("{EX}dir/{n}#fn"),
            10 => format!("http://ex{n}.org"),
            11 => format!("{EX}{n}/Self"),
            12 => format!("{EX}{n}#_self"),
            13 => format!("{EX}{n}#a%20b"),
            14 => format!("{EX}dir{n}/T?q/r"),
            _ => format!("urn:x{n}"),
        };
        ren.insert(i, new);
    }
    for d in docs.iter_mut() {
        d.visit_mut(&mut |l| match l {
            L::Def(d) => {
                if let Some(n) = d.0.id.as_ref().and_then(|i| ren.get(i)) {
                    d.0.id = Some(n.clone());
                }
            }
            L::Ref(i) => {
                if let Some(n) = ren.get(i) {
                    *i = n.clone();
                }
            }
            _ => (),
        });
    }
}
fn tldr_rs() -> std::path::PathBuf {
    std::env::current_exe().unwrap().with_file_name("main")
}

fn p32(g: &mut G) -> R {
    let mut docs = {
        let depth = g.below(4);
        let ids = !g.chance(1, 5);
        let mut lg = Lg::new(g);
        lg.all_ids = ids;
        lg.docs(depth)
    };
    if g.chance(2, 3) {
        crate::drv::sanitize(&mut docs);
    }
    rename(g, &mut docs);
    if g.chance(1, 6) {
        // Names that Rust reserves or refuses.
        let w = g.pick(&["type", "a-b", "self", "", "x y", "1a", "crate", "yield"]).to_string();
        for d in docs.iter_mut() {
            d.visit_mut(&mut |l| {
                if let L::Def(d) = l {
                    match &mut d.1 {
                        K::Rec(fs) if !fs.is_empty() => fs[0].key = w.clone(),
                        K::Sum(vs) if !vs.is_empty() => vs[0].name = w.clone(),
                        _ => (),
                    }
                }
            });
        }
    }
    let mut json: Vec<J> = docs.iter().map(|d| layout_json(d, &mut RandomStyle(g))).collect();
    if g.chance(1, 8) {
        let i = g.below(json.len());
        jsyn::mutate_json(g, &mut json[i]);
    }
    for (i, j) in json.iter().enumerate() {
        g.note(&format!("layout {i}"), j);
    }
    label_layout(g, &docs);
    let mut texts: Vec<String> = json.iter().map(|j| jsyn::print(j, Some(g)).text).collect();
    if g.chance(1, 12) {
        let i = g.below(texts.len());
        let mut n = g.below(texts[i].len() + 1);
        while !texts[i].is_char_boundary(n) {
            n -= 1;
        }
        texts[i].truncate(n);
        g.note("truncated", format!("layout {i} to {n} bytes"));
    }
    // What the library makes of the files.
    let syn: Option<Vec<SynLayout>> = texts.iter().map(|t| serde_json::from_str(t).ok()).collect();
    let built = syn.and_then(|s| build_each(&s).ok());
    let mut outputs: Vec<(Ref<LayoutType>, Result<String, String>)> = vec![];
    let mut modules: Vec<(String, String)> = vec![];
    let mut options = Options::new();
    if g.chance(1, 3) {
        // Some layouts are in other modules.
        let mut starts = vec![EX.to_string(), format!("{EX}a/"), format!("{EX}a/my_"), "http://ex".into(), "urn:".into(), format!("{EX}L"), format!("{EX}L1"), "".into(), PRELUDE.into(), format!("{EX}dir"), "urn:schema:1/".into()];
        g.shuffle(&mut starts);
        for i in 0..1 + g.below(4) {
            let p = g.pick(&["m", "crate::a", "::ext::b", "self::c::d", "super::e"]).to_string() + &i.to_string();
            options.use_module(starts[i].clone(), syn::parse_str(&p).unwrap()).map_err(|e| e.to_string())?;
            modules.push((starts[i].clone(), p));
        }
        g.note("modules", format!("{modules:?}"));
        g.label("modules");
    }
    if let Some((layouts, _)) = &built {
        for (r, _) in layouts {
            if !modules.is_empty() {
                let want = Want::of(layouts, r, &modules);
                if let (true, Ok(t)) = (want.errors.is_empty(), generate(RdfContext::default(), layouts, r, &options)) {
                    if let Err(m) = want.check(&t.to_string()) {
                        fail!("layout {}: {m}\n  code: {t}", r.id())
                    }
                }
            }
            let want = Want::of(layouts, r, &[]);
            if matches!(layouts.get(r), Some(Layout::Always | Layout::Never)) && want.errors.is_empty() {
                return Ok(Outcome::Discard);
            }
            match generate(RdfContext::default(), layouts, r, &Options::new()) {
                Ok(t) => {
                    let t = t.to_string();
                    ensure!(want.errors.is_empty(), "layout {} has no Rust form ({:?}) but becomes {t}", r.id(), want.errors);
                    if let Err(m) = want.check(&t) {
                        fail!("layout {}: {m}\n  code: {t}", r.id())
                    }
                    g.label("generated");
                    outputs.push((r.clone(), Ok(t)));
                }
                Err(e) => {
                    let e: Error<Term> = e;
                    ensure!(want.errors.contains(&e.to_string()), "layout {}: error `{e}`, expected {:?}", r.id(), want.errors);
                    g.label("no Rust form");
                    outputs.push((r.clone(), Err(e.to_string())));
                }
            }
        }
    } else {
        g.label("invalid layouts");
    }
    g.nontrivial = outputs.iter().any(|o| o.1.is_ok());
    // The command.
    if !g.chance(1, 3) {
        return Ok(Outcome::Pass);
    }
    g.label("command");
    let mut args = vec![];
    let mut asked: Option<Term> = None;
    if g.bool() {
        let t = match outputs.is_empty() || g.chance(1, 12) {
            true => iri_term(g.pick(&["http://ex.org/unknown", "https://treeldr.org/layouts#string", "http://ex.org/L1", "http://ex.org/L1#"])),
            false => outputs[g.below(outputs.len())].0.id().clone(),
        };
        if let Term::Id(Id::Iri(i)) = &t {
            if g.bool() {
                args.extend([g.pick(&["-l", "--layout"]).to_string(), i.to_string()]);
            } else {
                args.push(format!("--layout={i}"));
            }
            asked = Some(t);
        }
    }
    let names: Vec<String> = (0..texts.len()).map(|i| format!("f{i}.json")).collect();
    let at = if asked.is_some() && g.bool() { 0 } else { args.len() };
    args.splice(at..at, names);
    g.note("command", format!("tldr-rs {}", args.join(" ")));
    let expected: Option<String> = built.as_ref().and_then(|(_, tops)| {
        let r = match (&asked, &tops[..]) {
            (Some(t), _) => t.clone(),
            (None, [r]) => r.id().clone(),
            _ => return None,
        };
        outputs.iter().find(|o| *o.0.id() == r).and_then(|o| o.1.clone().ok())
    });
    let dir = Scratch::new();
    for (i, t) in texts.iter().enumerate() {
        std::fs::write(dir.0.join(format!("f{i}.json")), t).unwrap();
    }
    let o = Command::new(tldr_rs()).args(&args).current_dir(&dir.0).stdin(Stdio::null()).env_remove("RUST_BACKTRACE").output().unwrap_or_else(|e| {
        eprintln!("cannot run tldr-rs: {e}");
        std::process::exit(2)
    });
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    match (expected, o.status.code()) {
        (Some(t), Some(0)) => {
            g.label("printed");
            ensure!(out.trim_end() == t, "the command prints {out}\n  instead of {t}")
        }
        (Some(t), c) => fail!("the command fails ({c:?}: {err}) instead of printing {t}"),
        (None, Some(0)) => fail!("the command succeeds where there is nothing to print: {out}{err}"),
        (None, Some(_)) => {
            g.label("failed");
            ensure!(out.is_empty() && !err.trim().is_empty(), "the command fails with output `{out}` and diagnostic `{err}`")
        }
        (None, None) => fail!("the command is killed: {err}"),
    }
    Ok(Outcome::Pass)
}
pub const P32: Prop = Prop { id: "P32", quick: 60_000, thorough: 600_000, rule: "one of the layouts has a Rust form", run: p32, known: &[] };
