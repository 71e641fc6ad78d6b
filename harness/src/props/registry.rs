//! Layout registries, typed references, dependencies.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, fail};
use rdf_types::Term;
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::layout::*;
use treeldr_layouts::{abs, Dataset, DerefResource, LayoutRegistry, Layouts, Pattern, Prelude, PresetLayout, Ref, ValueFormat};

type Lay = Layout<Term>;

/// What a layout was made of.
#[derive(Default, Clone, Debug, PartialEq)]
struct Facts {
    deps: Vec<Term>,
    inputs: Option<u32>,
    extra: BTreeMap<Term, Term>,
}
fn pat(g: &mut G, pool: &[Term]) -> Pattern<Term> {
    if g.bool() {
        Pattern::Var(g.below(4) as u32)
    } else {
        Pattern::Resource(g.pick(pool).clone())
    }
}
fn dataset(g: &mut G, pool: &[Term]) -> Dataset<Term> {
    let n = g.below(3);
    (0..n)
        .map(|_| {
            let gr = if g.chance(1, 3) { Some(pat(g, pool)) } else { None };
            rdf_types::Quad(pat(g, pool), pat(g, pool), pat(g, pool), gr)
        })
        .collect()
}
fn format(g: &mut G, pool: &[Term], f: &mut Facts) -> ValueFormat<Term> {
    let layout = g.pick(pool).clone();
    f.deps.push(layout.clone());
    let n = g.below(3);
    ValueFormat {
        layout: Ref::new(layout),
        input: (0..n).map(|_| pat(g, pool)).collect(),
        graph: match g.below(3) {
            0 => None,
            1 => Some(None),
            _ => Some(Some(pat(g, pool))),
        },
    }
}
/// A random layout, as its abstract definition, and what it is made of.
fn layout(g: &mut G, pool: &[Term]) -> (abs::Layout<Term>, Lay, Facts) {
    let mut f = Facts::default();
    let kind = g.below(12);
    if kind == 0 {
        return (abs::Layout::Never, Layout::Never, f);
    }
    if kind == 1 {
        return (abs::Layout::Always, Layout::Always, f);
    }
    let input = g.below(4) as u32;
    let intro = g.below(4) as u32;
    let data = dataset(g, pool);
    let n = g.below(3);
    let extra: BTreeMap<Term, Term> = (0..n).map(|_| (g.pick(pool).clone(), g.pick(pool).clone())).collect();
    f.inputs = Some(input);
    f.extra = extra.clone();
    let resource = pat(g, pool);
    let datatype = g.pick(pool).clone();
    macro_rules! lit {
        ($v:ident, $t:ident) => {{
            let l = $t { input, intro, dataset: data, resource, datatype, extra_properties: extra };
            (
                abs::Layout::Literal(abs::layout::LiteralLayout::Data(abs::layout::DataLayout::$v(l.clone()))),
                Layout::Literal(LiteralLayout::Data(DataLayout::$v(l))),
            )
        }};
    }
    let (a, l) = match kind {
        2 => {
            let l = UnitLayout { input, intro, dataset: data, const_: g_value(g, 1, false), extra_properties: extra };
            (abs::Layout::Literal(abs::layout::LiteralLayout::Data(abs::layout::DataLayout::Unit(l.clone()))), Layout::Literal(LiteralLayout::Data(DataLayout::Unit(l))))
        }
        3 => lit!(Boolean, BooleanLayout),
        4 => lit!(Number, NumberLayout),
        5 => lit!(ByteString, ByteStringLayout),
        6 => {
            let re = if g.bool() { Some(abs::RegExp::parse(*g.pick(&["a", "[ab]c", "", "b+"])).unwrap()) } else { None };
            let p = re.as_ref().map(|r| r.build());
            (
                abs::Layout::Literal(abs::layout::LiteralLayout::Data(abs::layout::DataLayout::TextString(abs::layout::TextStringLayout {
                    input,
                    intro,
                    pattern: re,
                    dataset: data.clone(),
                    resource: resource.clone(),
                    datatype: datatype.clone(),
                    properties: extra.clone(),
                }))),
                Layout::Literal(LiteralLayout::Data(DataLayout::TextString(TextStringLayout { input, intro, pattern: p, dataset: data, resource, datatype, extra_properties: extra }))),
            )
        }
        7 => {
            let re = if g.bool() { Some(abs::RegExp::parse(*g.pick(&["a", "[ab]c", "", "b+"])).unwrap()) } else { None };
            let p = re.as_ref().map(|r| r.build());
            (
                abs::Layout::Literal(abs::layout::LiteralLayout::Id(abs::layout::IdLayout { input, intro, dataset: data.clone(), pattern: re, resource: resource.clone(), properties: extra.clone() })),
                Layout::Literal(LiteralLayout::Id(IdLayout { input, intro, dataset: data, pattern: p, resource, extra_properties: extra })),
            )
        }
        8 => {
            let n = g.below(4);
            let mut fields = BTreeMap::new();
            for i in 0..n {
                let v = format(g, pool, &mut f);
                fields.insert(treeldr_layouts::Value::string(format!("k{i}")), product::Field { intro: g.below(3) as u32, value: v, dataset: dataset(g, pool), required: g.bool() });
            }
            let l = ProductLayout { input, intro, fields, dataset: data, extra_properties: extra };
            (abs::Layout::Product(l.clone()), Layout::Product(l))
        }
        9 => {
            let n = g.below(4);
            let mut variants = vec![];
            for i in 0..n {
                let v = format(g, pool, &mut f);
                variants.push(sum::Variant { name: format!("v{i}"), intro: g.below(3) as u32, value: v, dataset: dataset(g, pool) })
            }
            let l = SumLayout { input, intro, variants, dataset: data, extra_properties: extra };
            (abs::Layout::Sum(l.clone()), Layout::Sum(l))
        }
        _ => {
            let l = match g.below(3) {
                0 => ListLayout::Unordered(UnorderedListLayout {
                    input,
                    intro,
                    item: list::ItemLayout { intro: g.below(3) as u32, value: format(g, pool, &mut f), dataset: dataset(g, pool) },
                    dataset: data,
                    extra_properties: extra,
                }),
                1 => ListLayout::Ordered(OrderedListLayout {
                    input,
                    intro,
                    node: list::ordered::NodeLayout { intro: g.below(3) as u32, value: format(g, pool, &mut f), dataset: dataset(g, pool) },
                    head: pat(g, pool),
                    tail: pat(g, pool),
                    dataset: data,
                    extra_properties: extra,
                }),
                _ => {
                    let n = g.below(4);
                    let items = (0..n).map(|_| list::ItemLayout { intro: g.below(3) as u32, value: format(g, pool, &mut f), dataset: dataset(g, pool) }).collect();
                    ListLayout::Sized(SizedListLayout { input, intro, items, dataset: data, extra_properties: extra })
                }
            };
            (abs::Layout::List(l.clone()), Layout::List(l))
        }
    };
    (a, l, f)
}

fn facts(l: &Lay) -> Result<Facts, String> {
    let mut seen = vec![];
    l.visit_dependencies(|r| seen.push(r.id().clone()));
    let deps: Vec<Term> = l.dependencies().into_iter().map(|r| r.id().clone()).collect();
    let set: BTreeSet<Term> = seen.iter().cloned().collect();
    if deps != set.iter().cloned().collect::<Vec<_>>() {
        return Err(format!("the dependencies {deps:?} are not the sorted references {set:?}"));
    }
    seen.sort();
    Ok(Facts { deps: seen, inputs: l.input_count(), extra: l.extra_properties().clone() })
}

fn prelude_model() -> &'static BTreeMap<Term, Lay> {
    static M: std::sync::OnceLock<BTreeMap<Term, Lay>> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        prelude_layouts()
            .iter()
            .map(|l| {
                let doc = layout_json(l, &mut Explicit);
                let syn = crate::sys::parse_syn(&doc.to_string()).expect("prelude");
                let mut b = abs::Builder::new();
                let r = syn.build(&mut b).expect("prelude");
                let got = b.build();
                let l = got.get(&r).unwrap().clone();
                (r.into_id(), l)
            })
            .collect()
    })
}

type M = BTreeMap<Term, Lay>;
fn same(what: &str, id: &Term, real: Option<&Lay>, want: Option<&Lay>) -> Result<(), String> {
    if real == want {
        Ok(())
    } else {
        Err(format!("{what}: {id} is {real:?}, expected {want:?}"))
    }
}
fn look<'a, T: LayoutRegistry<Term>>(what: &str, t: &T, pool: &[Term], m: &dyn Fn(&Term) -> Option<&'a Lay>) -> Result<(), String> {
    for id in pool {
        let want = m(id);
        let r: Ref<LayoutType> = Ref::new(id.clone());
        same(what, id, t.get(&r), want)?;
        if t.contains(&r) != want.is_some() {
            return Err(format!("{what}: contains({id}) is {}", t.contains(&r)));
        }
    }
    Ok(())
}

fn p22(g: &mut G) -> R {
    let mut pool: Vec<Term> = (0..4).map(|i| iri_term(&format!("http://ex.org/l{i}"))).collect();
    pool.push(blank_term("b0"));
    pool.push(lit_term("x", &xsd("string")));
    for n in PRELUDE_IDS {
        pool.push(iri_term(&format!("https://treeldr.org/prelude#{n}")));
    }
    let small: Vec<Term> = pool[..8].to_vec();

    // Histories of insertions in collections and builders.
    let mut sets: Vec<(Layouts, M)> = vec![];
    let k = 2 + g.below(2);
    for _ in 0..k {
        let mut m: M = BTreeMap::new();
        let n = g.len(8);
        if n > 0 {
            g.nontrivial = true
        }
        let real = if g.bool() {
            g.label("collection");
            let mut s: Layouts = if g.bool() { Layouts::new() } else { Layouts::default() };
            for _ in 0..n {
                let id = g.pick(&small).clone();
                let (_, l, mut f) = layout(g, &pool);
                f.deps.sort();
                let got = facts(&l)?;
                ensure!(got == f, "a layout is said to be made of {got:?}, it is of {f:?}: {l:?}");
                let (r, old) = if g.bool() {
                    s.insert(id.clone(), l.clone())
                } else {
                    let mut given = None;
                    let r = s.insert_with(id.clone(), |r| {
                        given = Some(r.clone());
                        l.clone()
                    });
                    ensure!(given.as_ref().map(|r| r.id()) == Some(&id), "the definition of {id} is asked for {given:?}");
                    r
                };
                ensure!(*r.id() == id, "inserting {id} gives {r}");
                let was = m.insert(id.clone(), l);
                same("insert returns", &id, old.as_ref(), was.as_ref())?;
                let any = g.pick(&pool).clone();
                same("after an insertion", &any, s.layout(&any), m.get(&any))?;
            }
            s
        } else {
            g.label("builder");
            let mut b: abs::Builder = if g.bool() { abs::Builder::new() } else { abs::Builder::default() };
            for _ in 0..n {
                let id = g.pick(&small).clone();
                let (a, l, _) = layout(g, &pool);
                match g.below(3) {
                    0 => {
                        let (r, old) = b.insert(id.clone(), a);
                        ensure!(*r.id() == id, "inserting {id} gives {r}");
                        let was = m.insert(id.clone(), l);
                        same("insert returns", &id, old.map(|o| o.build()).as_ref(), was.as_ref())?;
                    }
                    1 => {
                        let mut given = None;
                        let (r, old) = b.insert_with(id.clone(), |r| {
                            given = Some(r.clone());
                            a
                        });
                        ensure!(given.as_ref().map(|r| r.id()) == Some(&id), "the definition of {id} is asked for {given:?}");
                        ensure!(*r.id() == id, "inserting {id} gives {r}");
                        let was = m.insert(id.clone(), l);
                        same("insert returns", &id, old.map(|o| o.build()).as_ref(), was.as_ref())?;
                    }
                    _ => {
                        let mut given = None;
                        let got = b
                            .get_or_insert_with(Ref::new(id.clone()), |r| {
                                given = Some(r.clone());
                                a
                            })
                            .build();
                        ensure!(given.is_some() != m.contains_key(&id), "get_or_insert_with asks for a definition of {id}: {}", given.is_some());
                        if let Some(r) = given {
                            ensure!(*r.id() == id, "the definition of {id} is asked for {r}")
                        }
                        m.entry(id.clone()).or_insert(l);
                        same("get_or_insert_with", &id, Some(&got), m.get(&id))?;
                    }
                }
                if g.chance(1, 4) {
                    let all = b.build();
                    let got: Vec<_> = all.iter().map(|(r, l)| (r.id().clone(), l.clone())).collect();
                    ensure!(got == m.clone().into_iter().collect::<Vec<_>>(), "a builder builds {got:?}, expected {m:?}");
                }
            }
            b.build()
        };
        look("collection", &real, &pool, &|id| m.get(id))?;
        for id in &pool {
            let want = m.get(id);
            let r: Ref<ProductLayoutType> = Ref::new(id.clone());
            same("layout()", id, real.layout(id), want)?;
            same("deref", id, real.deref_resource(r.as_casted::<LayoutType>()), want)?;
            same("deref", id, real.get(&r.casted::<LayoutType>()), want)?;
            same("deref", id, real.get(&r.cast::<LayoutType>()), want)?;
        }
        let want: Vec<_> = m.iter().collect();
        let a: Vec<_> = real.iter().map(|(r, l)| (r.id(), l)).collect();
        ensure!(a == want, "iteration gives {a:?}, expected {want:?}");
        let b: Vec<_> = (&real).into_iter().map(|(r, l)| (r.id(), l)).collect();
        ensure!(b == want, "iteration gives {b:?}, expected {want:?}");
        g.note("collection", format!("{:?}", m.iter().map(|(k, l)| format!("{k} -> {}", kind(l))).collect::<Vec<_>>()));
        sets.push((real, m));
    }

    // Unions of registries: the one extended has precedence.
    let p = prelude_model();
    let (a, ma) = &sets[0];
    let (b, mb) = &sets[1];
    let (c, mc) = sets.last().unwrap();
    fn first<'a>(ms: Vec<&'a M>, id: &Term) -> Option<&'a Lay> {
        ms.iter().find_map(|m| m.get(id))
    }
    let full = pool;
    let k = g.below(3);
    let mut pool: Vec<Term> = (0..3).map(|i| full[(k + 2 * i) % 6].clone()).collect();
    pool.push(full[6 + g.below(12)].clone());
    look("prelude", &Prelude, &pool, &|id| p.get(id))?;
    look("reference", &a, &pool, &|id| first(vec![ma], id))?;
    look("a.with(b)", &a.with(b), &pool, &|id| first(vec![ma, mb], id))?;
    look("a.into_with(b)", &a.into_with(b), &pool, &|id| first(vec![ma, mb], id))?;
    look("a.with(Prelude)", &a.with(Prelude), &pool, &|id| first(vec![ma, p], id))?;
    look("Prelude.with(a)", &Prelude.with(a), &pool, &|id| first(vec![p, ma], id))?;
    look("a.with(b).with(c)", &a.with(b).with(c), &pool, &|id| first(vec![ma, mb, mc], id))?;
    look("c.with(Prelude.with(b))", &c.with(Prelude.with(b)), &pool, &|id| first(vec![mc, p, mb], id))?;
    look("a.into_with(c).into_with(Prelude)", &a.into_with(c).into_with(Prelude), &pool, &|id| first(vec![ma, mc, p], id))?;
    let some = Some(a);
    let none: Option<&Layouts> = None;
    look("some", &some, &pool, &|id| first(vec![ma], id))?;
    look("none", &none, &pool, &|_| None)?;
    look("some.with(b)", &LayoutRegistry::<Term>::with(&some, b), &pool, &|id| first(vec![ma, mb], id))?;
    look("b.with(some)", &b.with(some), &pool, &|id| first(vec![mb, ma], id))?;
    look("none.with(b)", &LayoutRegistry::<Term>::with(&none, b), &pool, &|id| first(vec![mb], id))?;
    look("b.with(none)", &b.with(none), &pool, &|id| first(vec![mb], id))?;

    // Typed references.
    let (x, y) = (g.pick(&full).clone(), g.pick(&full).clone());
    let (rx, ry): (Ref<LayoutType>, Ref<LayoutType>) = (Ref::new(x.clone()), Ref::new(y.clone()));
    ensure!((rx == ry) == (x == y) && rx.cmp(&ry) == x.cmp(&y) && rx.partial_cmp(&ry) == x.partial_cmp(&y), "references to {x} and {y} do not compare as they do");
    ensure!(Ref::<LayoutType>::new_ref(&x) == &rx && *rx.id() == x && rx.to_string() == x.to_string() && rx.clone().into_id() == x, "the reference to {x} is {rx}");
    ensure!(rx.clone().map(|t| (t, 1)).into_id() == (x.clone(), 1), "mapping changes the reference {x}");
    let t = serde_json::to_string(&rx).map_err(|e| e.to_string())?;
    ensure!(t == serde_json::to_string(&x).unwrap() && serde_json::from_str::<Ref<LayoutType>>(&t).ok() == Some(rx), "the reference {x} is written {t}");

    // Presets.
    let names = ["id", "unit", "boolean", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "string", "f32", "", "ID", "u", "u88"];
    let n = *g.pick(&names);
    let ns = *g.pick(&["https://treeldr.org/prelude#", "https://treeldr.org/prelude#", "http://treeldr.org/prelude#", "https://treeldr.org/layouts#"]);
    let iri = iref::IriBuf::new(format!("{ns}{n}")).unwrap();
    let got = PresetLayout::from_iri(&iri).map(|l| match l {
        PresetLayout::Id => "id",
        PresetLayout::Unit => "unit",
        PresetLayout::Boolean => "boolean",
        PresetLayout::U8 => "u8",
        PresetLayout::U16 => "u16",
        PresetLayout::U32 => "u32",
        PresetLayout::U64 => "u64",
        PresetLayout::I8 => "i8",
        PresetLayout::I16 => "i16",
        PresetLayout::I32 => "i32",
        PresetLayout::I64 => "i64",
        PresetLayout::String => "string",
    });
    let known = ns == "https://treeldr.org/prelude#" && PRELUDE_IDS.contains(&n);
    ensure!(got == known.then_some(n), "{iri} is the preset {got:?}");

    // Consuming iteration comes last.
    for (real, m) in sets {
        let got: Vec<_> = real.into_iter().map(|(r, l)| (r.into_id(), l)).collect();
        let want: Vec<_> = m.into_iter().collect();
        if got != want {
            fail!("consuming iteration gives {got:?}, expected {want:?}")
        }
    }
    Ok(Outcome::Pass)
}
fn kind(l: &Lay) -> &'static str {
    match l {
        Layout::Never => "never",
        Layout::Always => "always",
        Layout::Literal(LiteralLayout::Id(_)) => "id",
        Layout::Literal(_) => "data",
        Layout::Product(_) => "product",
        Layout::Sum(_) => "sum",
        Layout::List(_) => "list",
    }
}
pub const P22: Prop = Prop { id: "P22", quick: 60_000, thorough: 400_000, rule: "a layout is inserted", run: p22, known: &[] };
