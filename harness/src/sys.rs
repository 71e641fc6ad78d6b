//! Thin access to the code under test.
use crate::model::J;
use json_syntax::{Parse, TryFromJson};
use rdf_types::dataset::{BTreeDataset, IndexedBTreeDataset, PatternMatchingDataset};
use rdf_types::pattern::quad::canonical::{PatternGraph, PatternObject, PatternPredicate, PatternSubject};
use rdf_types::pattern::CanonicalQuadPattern;
use rdf_types::{generator, Quad, Term};
use treeldr_layouts::abs::syntax::Layout as SynLayout;
use treeldr_layouts::abs::Builder;
use treeldr_layouts::distill::{de, hy};
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{LayoutRegistry, Layouts, Prelude, Ref, TypedValue, Value};

pub struct Sys {
    pub layouts: Layouts,
    pub tops: Vec<Ref<LayoutType>>,
}

pub fn parse_syn(text: &str) -> Result<SynLayout, String> {
    let (json, map) = json_syntax::Value::parse_str(text).map_err(|e| format!("json: {e}"))?;
    SynLayout::try_from_json(&json, &map).map_err(|e| format!("syntax: {e}"))
}

impl Sys {
    pub fn compile(docs: &[J]) -> Result<Self, String> {
        let mut builder = Builder::new();
        let mut tops = vec![];
        {
            let mut ctx = builder.with_generator_mut(generator::Blank::new());
            for d in docs {
                let l = parse_syn(&d.to_string())?;
                tops.push(l.build_with_context(&mut ctx).map_err(|e| format!("build: {e}"))?);
            }
        }
        Ok(Sys { layouts: builder.build(), tops })
    }
    pub fn top(&self) -> &Ref<LayoutType> {
        &self.tops[0]
    }
    pub fn dehydrate(&self, x: &Value) -> Result<(Vec<Quad>, Vec<Term>), de::Error> {
        let (d, t): (BTreeDataset, Vec<Term>) = de::dehydrate(self.layouts.with(Prelude), x, self.top(), Default::default())?;
        Ok((d.into_iter().collect(), t))
    }
    pub fn hydrate_typed(&self, quads: &[Quad], inputs: &[Term]) -> Result<TypedValue, hy::Error> {
        if indexable(quads) {
            let d: IndexedBTreeDataset = quads.iter().cloned().collect();
            hy::hydrate(self.layouts.with(Prelude), &d, self.top(), inputs)
        } else {
            hy::hydrate(self.layouts.with(Prelude), &Scan(quads.to_vec()), self.top(), inputs)
        }
    }
    pub fn hydrate(&self, quads: &[Quad], inputs: &[Term]) -> Result<Value, hy::Error> {
        self.hydrate_typed(quads, inputs).map(|t| t.into_untyped())
    }
}
pub fn show_value(v: &Value) -> String {
    format!("{v:?}")
}

/// The indexed dataset of the `rdf-types` dependency loses track of a term that
/// occurs twice in the first quad it appears in: such datasets are given as a
/// plain list of quads instead.
pub fn indexable(quads: &[Quad]) -> bool {
    let mut seen = std::collections::BTreeSet::new();
    quads.iter().all(|q| {
        let t = crate::gen::quad_terms(q);
        let ok = (0..t.len()).all(|i| (0..i).all(|j| t[i] != t[j] || seen.contains(&t[i])));
        seen.extend(t);
        ok
    })
}
/// Dataset as a list of quads.
pub struct Scan<R = Term>(pub Vec<Quad<R>>);
impl<R> rdf_types::dataset::Dataset for Scan<R> {
    type Resource = R;
}
pub fn canonical_match<R: PartialEq>(p: &CanonicalQuadPattern<&R>, q: Quad<&R>) -> bool {
    (match p.subject() {
        PatternSubject::Any => true,
        PatternSubject::Given(x) => **x == *q.0,
    }) && (match p.predicate() {
        PatternPredicate::Any => true,
        PatternPredicate::SameAsSubject => q.0 == q.1,
        PatternPredicate::Given(x) => **x == *q.1,
    }) && (match p.object() {
        PatternObject::Any => true,
        PatternObject::SameAsSubject => q.0 == q.2,
        PatternObject::SameAsPredicate => q.1 == q.2,
        PatternObject::Given(x) => **x == *q.2,
    }) && (match p.graph() {
        PatternGraph::Any => true,
        PatternGraph::SameAsSubject => Some(q.0) == q.3,
        PatternGraph::SameAsPredicate => Some(q.1) == q.3,
        PatternGraph::SameAsObject => Some(q.2) == q.3,
        PatternGraph::Given(x) => x.copied() == q.3,
    })
}
impl<R: PartialEq> PatternMatchingDataset for Scan<R> {
    type QuadPatternMatching<'a, 'p>
        = ScanIter<'a, 'p, R>
    where
        Self: 'a,
        R: 'p;
    fn quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p R>) -> ScanIter<'_, 'p, R> {
        ScanIter(self.0.iter(), p)
    }
}
pub struct ScanIter<'a, 'p, R>(std::slice::Iter<'a, Quad<R>>, CanonicalQuadPattern<&'p R>);
impl<'a, R: PartialEq> Iterator for ScanIter<'a, '_, R> {
    type Item = Quad<&'a R>;
    fn next(&mut self) -> Option<Self::Item> {
        let p = &self.1;
        self.0.by_ref().map(|q| q.as_ref()).find(|q| canonical_match(p, *q))
    }
}
impl Sys {
    /// Hydrates from a plain list of quads, in this order, from a graph.
    pub fn hydrate_scan(&self, quads: &[Quad], graph: Option<&Term>, inputs: &[Term]) -> Result<TypedValue, hy::Error> {
        hy::hydrate_with(&(), &(), self.layouts.with(Prelude), &Scan(quads.to_vec()), graph, self.top(), inputs)
    }
}
