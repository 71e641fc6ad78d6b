//! An RDF interpretation of its own: resources are numbers, each with any
//! number of terms.
use crate::model::*;
use crate::sys::*;
use rdf_types::dataset::BTreeDataset;
use rdf_types::interpretation::*;
use rdf_types::{BlankIdBuf, Id, Interpretation, InterpretationMut, Literal, Quad, Term};
use std::collections::{BTreeMap, BTreeSet};
use treeldr_layouts::abs::Builder;
use treeldr_layouts::distill::{de, hy, RdfContextMut};
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{LayoutRegistry, Layouts, Prelude, Ref, TypedValue, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Rs(pub u32);

#[derive(Default, Clone)]
pub struct Ints {
    pub iris: Vec<Vec<iref::IriBuf>>,
    pub lits: Vec<Vec<Literal>>,
    pub blanks: Vec<Vec<BlankIdBuf>>,
    map: BTreeMap<Term, Rs>,
    /// Numbers are given out in a scrambled order.
    pub salt: u32,
}
impl Ints {
    fn at(&self, r: &Rs) -> usize {
        (r.0 ^ self.salt) as usize
    }
    fn fresh(&mut self) -> Rs {
        self.iris.push(vec![]);
        self.lits.push(vec![]);
        self.blanks.push(vec![]);
        Rs((self.iris.len() - 1) as u32 ^ self.salt)
    }
    pub fn term(&mut self, t: &Term) -> Rs {
        if let Some(r) = self.map.get(t) {
            return *r;
        }
        let r = self.fresh();
        self.alias(r, t);
        r
    }
    /// Gives one more term to a resource.
    pub fn alias(&mut self, r: Rs, t: &Term) {
        let i = self.at(&r);
        match t {
            Term::Id(Id::Iri(x)) => self.iris[i].push(x.clone()),
            Term::Id(Id::Blank(x)) => self.blanks[i].push(x.clone()),
            Term::Literal(x) => self.lits[i].push(x.clone()),
        }
        self.map.insert(t.clone(), r);
    }
    pub fn quad(&mut self, q: &Quad) -> Quad<Rs> {
        Quad(self.term(&q.0), self.term(&q.1), self.term(&q.2), q.3.as_ref().map(|g| self.term(g)))
    }
    /// The terms of a resource, anonymous blank nodes excepted.
    pub fn terms(&self, r: &Rs) -> BTreeSet<Term> {
        let i = self.at(r);
        let mut s: BTreeSet<Term> = self.iris[i].iter().map(|x| Term::Id(Id::Iri(x.clone()))).collect();
        s.extend(self.lits[i].iter().map(|x| Term::Literal(x.clone())));
        s.extend(self.blanks[i].iter().map(|x| Term::Id(Id::Blank(x.clone()))));
        s
    }
    /// The term of a resource.
    pub fn the_term(&self, r: &Rs) -> Result<Term, String> {
        let s = self.terms(r);
        match s.len() {
            0 => Ok(blank_term(&format!("anon{}", r.0))),
            1 => Ok(s.into_iter().next().unwrap()),
            _ => Err(format!("several terms: {s:?}")),
        }
    }
}
impl Interpretation for Ints {
    type Resource = Rs;
}
impl InterpretationMut<()> for Ints {
    fn new_resource(&mut self, _: &mut ()) -> Rs {
        self.fresh()
    }
}
impl IriInterpretation<iref::IriBuf> for Ints {
    fn iri_interpretation(&self, iri: &iref::IriBuf) -> Option<Rs> {
        self.map.get(&Term::Id(Id::Iri(iri.clone()))).copied()
    }
}
impl IriInterpretationMut<iref::IriBuf> for Ints {
    fn interpret_iri(&mut self, iri: iref::IriBuf) -> Rs {
        self.term(&Term::Id(Id::Iri(iri)))
    }
}
impl LiteralInterpretationMut<Literal> for Ints {
    fn interpret_literal(&mut self, l: Literal) -> Rs {
        self.term(&Term::Literal(l))
    }
}
impl ReverseIriInterpretation for Ints {
    type Iri = iref::IriBuf;
    type Iris<'a> = std::slice::Iter<'a, iref::IriBuf>;
    fn iris_of<'a>(&'a self, r: &'a Rs) -> Self::Iris<'a> {
        self.iris[self.at(r)].iter()
    }
}
impl ReverseIriInterpretationMut for Ints {
    fn assign_iri(&mut self, r: &Rs, iri: iref::IriBuf) -> bool {
        let i = self.at(r);
        if self.iris[i].contains(&iri) {
            return false;
        }
        self.iris[i].push(iri);
        true
    }
}
impl ReverseLiteralInterpretation for Ints {
    type Literal = Literal;
    type Literals<'a> = std::slice::Iter<'a, Literal>;
    fn literals_of<'a>(&'a self, r: &'a Rs) -> Self::Literals<'a> {
        self.lits[self.at(r)].iter()
    }
}
impl ReverseLiteralInterpretationMut for Ints {
    fn assign_literal(&mut self, r: &Rs, l: Literal) -> bool {
        let i = self.at(r);
        if self.lits[i].contains(&l) {
            return false;
        }
        self.lits[i].push(l);
        true
    }
}

/// Layouts compiled with numbers as resources.
pub struct IntSys {
    pub ints: Ints,
    pub layouts: Layouts<Rs>,
    pub prelude: Layouts<Rs>,
    pub top: Ref<LayoutType, Rs>,
}
impl IntSys {
    pub fn compile(docs: &[J], salt: u32) -> Result<Self, String> {
        let mut ints = Ints { salt, ..Ints::default() };
        let mut builder: Builder<Rs> = Builder::new();
        let mut top = None;
        for d in docs {
            let l = parse_syn(&d.to_string())?;
            let r = l.build_with_interpretation(&mut (), &mut ints, &mut builder).map_err(|e| format!("build: {e}"))?;
            top.get_or_insert(r);
        }
        let used = docs.iter().any(|d| d.to_string().contains(PRELUDE));
        let prelude = if used { Prelude::build_with(&mut (), &mut ints) } else { Layouts::new() };
        Ok(IntSys { ints, layouts: builder.build(), prelude, top: top.unwrap() })
    }
    pub fn dehydrate(&mut self, x: &Value, graph: Option<&Term>, n: usize) -> Result<(Vec<Quad>, Vec<Term>), String> {
        let mut out: BTreeDataset<Rs> = BTreeDataset::new();
        let graph = graph.map(|t| self.ints.term(t));
        let inputs: Vec<Rs> = (0..n).map(|_| self.ints.fresh()).collect();
        let mut voc = ();
        let mut rdf = RdfContextMut::new(&mut voc, &mut self.ints);
        de::dehydrate_with(&mut rdf, self.layouts.with(&self.prelude), x, graph.as_ref(), &self.top, &inputs, &mut out).map_err(|e| e.map_resource_text())?;
        for i in 0..self.ints.iris.len() {
            self.ints.the_term(&Rs(i as u32 ^ self.ints.salt))?;
        }
        let mut quads = BTreeSet::new();
        for q in out {
            let t = |r: &Rs| self.ints.the_term(r);
            quads.insert(Quad(t(&q.0)?, t(&q.1)?, t(&q.2)?, q.3.as_ref().map(t).transpose()?));
        }
        let terms = inputs.iter().map(|r| self.ints.the_term(r)).collect::<Result<_, _>>()?;
        Ok((quads.into_iter().collect(), terms))
    }
    /// The terms given to the single input by a literal layout.
    pub fn dehydrate_terms(&mut self, x: &Value) -> Result<Vec<Term>, String> {
        let mut out: BTreeDataset<Rs> = BTreeDataset::new();
        let input = self.ints.fresh();
        let mut voc = ();
        let mut rdf = RdfContextMut::new(&mut voc, &mut self.ints);
        de::dehydrate_with(&mut rdf, self.layouts.with(&self.prelude), x, None, &self.top, &[input], &mut out).map_err(|e| e.map_resource_text())?;
        Ok(self.ints.terms(&input).into_iter().collect())
    }
    pub fn hydrate(&mut self, quads: &[Quad], graph: Option<&Term>, inputs: &[Term]) -> Result<TypedValue<Rs>, hy::Error<Rs>> {
        let data: Vec<Quad<Rs>> = quads.iter().map(|q| self.ints.quad(q)).collect();
        let graph = graph.map(|t| self.ints.term(t));
        let inputs: Vec<Rs> = inputs.iter().map(|t| self.ints.term(t)).collect();
        hy::hydrate_with(&(), &self.ints, self.layouts.with(&self.prelude), &Scan(data), graph.as_ref(), &self.top, &inputs)
    }
}
pub trait ErrText {
    fn map_resource_text(&self) -> String;
}
impl<Q> ErrText for de::Error<Q> {
    fn map_resource_text(&self) -> String {
        match self {
            de::Error::IncompatibleLayout => "incompatible layout".into(),
            de::Error::InvalidInputCount { .. } => "invalid input count".into(),
            de::Error::UndeclaredVariable(_) => "undeclared variable".into(),
            de::Error::DataAmbiguity => "ambiguity".into(),
            de::Error::TermAmbiguity(_) => "term ambiguity".into(),
            de::Error::LayoutNotFound(_) => "layout not found".into(),
            de::Error::MissingRequiredKey { .. } => "missing required key".into(),
        }
    }
}
