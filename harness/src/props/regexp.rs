//! Regular expressions and automata.
use crate::engine::*;
use crate::{ensure, fail};
use btree_range_map::{AnyRange, RangeSet};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use treeldr_layouts::abs::regexp::{ParseError, RegExp};
use treeldr_layouts::utils::automaton::Automaton;
use treeldr_layouts::utils::{charset_intersection, DetAutomaton};

// ------------------------------------------------------------ reference
type Ranges = Vec<(char, char)>;
const ALL: (char, char) = ('\0', '\u{10ffff}');
fn next(c: char) -> Option<char> {
    match c {
        '\u{d7ff}' => Some('\u{e000}'),
        '\u{10ffff}' => None,
        c => char::from_u32(c as u32 + 1),
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Re {
    Set(Ranges, bool),
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
}
#[derive(Debug, PartialEq)]
enum Bad {
    Closing,
    Opening,
    Escape,
    Set,
}
struct Parser<'a> {
    c: std::iter::Peekable<std::str::Chars<'a>>,
}
impl Parser<'_> {
    fn escape(&mut self) -> Result<char, Bad> {
        Ok(match self.c.next().ok_or(Bad::Escape)? {
            '0' => '\0',
            'a' => '\u{7}',
            'b' => '\u{8}',
            't' => '\t',
            'n' => '\n',
            'v' => '\u{b}',
            'f' => '\u{c}',
            'r' => '\r',
            'e' => '\u{1b}',
            c => c,
        })
    }
    fn options(&mut self, nested: bool) -> Result<Re, Bad> {
        let mut alts = vec![vec![]];
        loop {
            let Some(c) = self.c.next() else {
                if nested {
                    return Err(Bad::Opening);
                }
                break;
            };
            let seq = alts.last_mut().unwrap();
            match c {
                '(' => seq.push(self.options(true)?),
                ')' => {
                    if !nested {
                        return Err(Bad::Closing);
                    }
                    break;
                }
                '|' => alts.push(vec![]),
                '.' => seq.push(Re::Set(vec![ALL], false)),
                '\\' => {
                    let c = self.escape()?;
                    seq.push(Re::Set(vec![(c, c)], false))
                }
                '*' | '+' | '?' => {
                    let e = seq.pop().unwrap_or(Re::Seq(vec![]));
                    let (a, b) = match c {
                        '*' => (0, None),
                        '+' => (1, None),
                        _ => (0, Some(1)),
                    };
                    seq.push(Re::Rep(Box::new(e), a, b))
                }
                '[' => seq.push(self.set()?),
                c => seq.push(Re::Set(vec![(c, c)], false)),
            }
        }
        Ok(Re::Alt(alts.into_iter().map(Re::Seq).collect()))
    }
    fn set(&mut self) -> Result<Re, Bad> {
        let neg = self.c.peek() == Some(&'^');
        if neg {
            self.c.next();
        }
        let mut out = vec![];
        loop {
            let a = match self.c.next().ok_or(Bad::Set)? {
                ']' => return Ok(Re::Set(out, neg)),
                '\\' => self.escape()?,
                c => c,
            };
            if self.c.peek() == Some(&'-') {
                self.c.next();
                let b = match self.c.next().ok_or(Bad::Set)? {
                    '\\' => self.escape()?,
                    c => c,
                };
                out.push((a, b))
            } else {
                out.push((a, a))
            }
        }
    }
}
fn ref_parse(s: &str) -> Result<Re, Bad> {
    Parser { c: s.chars().peekable() }.options(false)
}
/// The reference expression for one of the library.
fn re_of(r: &RegExp) -> Re {
    match r {
        RegExp::Any => Re::Set(vec![ALL], false),
        RegExp::Set(s) => Re::Set(s.iter().map(|r| (r.first().unwrap(), r.last().unwrap())).collect(), false),
        RegExp::Sequence(s) => Re::Seq(s.iter().map(re_of).collect()),
        RegExp::Union(s) => Re::Alt(s.iter().map(re_of).collect()),
        RegExp::Repeat(e, a, b) => Re::Rep(Box::new(re_of(e)), *a, if *b == u32::MAX { None } else { Some(*b) }),
    }
}

/// Non deterministic automaton with epsilon transitions.
#[derive(Default, Clone, Debug)]
struct Nfa {
    n: usize,
    eps: Vec<(usize, usize)>,
    step: Vec<(usize, Ranges, bool, usize)>,
    init: BTreeSet<usize>,
    fin: BTreeSet<usize>,
}
type States = BTreeSet<usize>;
impl Nfa {
    fn state(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }
    fn of(r: &Re) -> Self {
        let mut a = Self::default();
        let (i, f) = (a.state(), a.state());
        a.add(r, i, f);
        a.init.insert(i);
        a.fin.insert(f);
        a
    }
    fn add(&mut self, r: &Re, i: usize, f: usize) {
        match r {
            Re::Set(s, neg) => self.step.push((i, s.clone(), *neg, f)),
            Re::Seq(s) => {
                let mut at = i;
                for e in s {
                    let to = self.state();
                    self.add(e, at, to);
                    at = to
                }
                self.eps.push((at, f))
            }
            Re::Alt(s) => {
                for e in s {
                    // Own states, so that loops do not leak.
                    let (a, b) = (self.state(), self.state());
                    self.eps.push((i, a));
                    self.add(e, a, b);
                    self.eps.push((b, f))
                }
            }
            Re::Rep(e, min, max) => {
                let mut at = self.state();
                self.eps.push((i, at));
                for _ in 0..*min {
                    let to = self.state();
                    self.add(e, at, to);
                    at = to
                }
                match max {
                    None => {
                        let (a, b) = (self.state(), self.state());
                        self.eps.push((at, a));
                        self.add(e, a, b);
                        self.eps.push((b, a));
                        self.eps.push((a, f));
                    }
                    Some(max) => {
                        self.eps.push((at, f));
                        for _ in *min..*max {
                            let to = self.state();
                            self.add(e, at, to);
                            at = to;
                            self.eps.push((at, f))
                        }
                    }
                }
            }
        }
    }
}
fn within(s: &Ranges, c: char) -> bool {
    s.iter().any(|(a, b)| *a <= c && c <= *b)
}
/// A language: anything that is read one character at a time.
trait Lang {
    type S: Clone + Eq + std::hash::Hash;
    fn start(&self) -> Self::S;
    fn accepts(&self, s: &Self::S) -> bool;
    fn step(&self, s: &Self::S, c: char) -> Result<Self::S, String>;
    fn cuts(&self, out: &mut BTreeSet<char>);
}
impl Nfa {
    fn close(&self, mut s: States) -> States {
        loop {
            let n = s.len();
            for (a, b) in &self.eps {
                if s.contains(a) {
                    s.insert(*b);
                }
            }
            if s.len() == n {
                return s;
            }
        }
    }
}
fn cut(out: &mut BTreeSet<char>, a: char, b: char) {
    out.insert(a);
    out.extend(next(b));
}
impl Lang for Nfa {
    type S = States;
    fn start(&self) -> States {
        self.close(self.init.clone())
    }
    fn accepts(&self, s: &States) -> bool {
        s.iter().any(|q| self.fin.contains(q))
    }
    fn step(&self, s: &States, c: char) -> Result<States, String> {
        Ok(self.close(self.step.iter().filter(|(a, r, neg, _)| s.contains(a) && within(r, c) != *neg).map(|t| t.3).collect()))
    }
    fn cuts(&self, out: &mut BTreeSet<char>) {
        for (_, r, _, _) in &self.step {
            for (a, b) in r {
                if a <= b {
                    cut(out, *a, *b)
                }
            }
        }
    }
}
/// The intersection of two languages.
struct Both<A, B>(A, B);
impl<A: Lang, B: Lang> Lang for Both<A, B> {
    type S = (A::S, B::S);
    fn start(&self) -> Self::S {
        (self.0.start(), self.1.start())
    }
    fn accepts(&self, s: &Self::S) -> bool {
        self.0.accepts(&s.0) && self.1.accepts(&s.1)
    }
    fn step(&self, s: &Self::S, c: char) -> Result<Self::S, String> {
        Ok((self.0.step(&s.0, c)?, self.1.step(&s.1, c)?))
    }
    fn cuts(&self, out: &mut BTreeSet<char>) {
        self.0.cuts(out);
        self.1.cuts(out)
    }
}
/// A deterministic automaton of the library, over ranges or letters.
trait Label {
    fn bounds(&self) -> (char, char);
}
impl Label for AnyRange<char> {
    fn bounds(&self) -> (char, char) {
        match (self.first(), self.last()) {
            (Some(a), Some(b)) => (a, b),
            _ => ('b', 'a'),
        }
    }
}
impl Label for char {
    fn bounds(&self) -> (char, char) {
        (*self, *self)
    }
}
impl<L: Label> Label for &L {
    fn bounds(&self) -> (char, char) {
        L::bounds(self)
    }
}
impl<L: Label> Label for (usize, L) {
    fn bounds(&self) -> (char, char) {
        self.1.bounds()
    }
}
impl<Q: Ord + Clone + std::hash::Hash, L: Label + Ord> Lang for DetAutomaton<Q, L> {
    type S = Option<Q>;
    fn start(&self) -> Self::S {
        Some(self.initial_state().clone())
    }
    fn accepts(&self, s: &Self::S) -> bool {
        s.as_ref().is_some_and(|q| self.is_final_state(q))
    }
    fn step(&self, s: &Self::S, c: char) -> Result<Self::S, String> {
        let Some(q) = s else { return Ok(None) };
        let to: Vec<&Q> = self
            .transitions_from(q)
            .filter(|(l, _)| {
                let (a, b) = l.bounds();
                a <= c && c <= b
            })
            .map(|t| t.1)
            .collect();
        if to.len() > 1 {
            return Err(format!("a deterministic automaton has {} transitions for {c:?}", to.len()));
        }
        Ok(to.first().map(|q| (*q).clone()))
    }
    fn cuts(&self, out: &mut BTreeSet<char>) {
        for m in self.transitions().values() {
            for l in m.keys() {
                let (a, b) = l.bounds();
                if a <= b {
                    cut(out, a, b)
                }
            }
        }
    }
}
/// Reads a non deterministic automaton of the library.
fn nfa_of<Q: Ord + Clone>(a: &Automaton<Q>) -> Nfa {
    let mut ids: BTreeMap<Q, usize> = BTreeMap::new();
    for (q, ts) in a.transitions() {
        let n = ids.len();
        ids.entry(q.clone()).or_insert(n);
        for to in ts.values().flatten() {
            let n = ids.len();
            ids.entry(to.clone()).or_insert(n);
        }
    }
    for q in a.final_states() {
        let n = ids.len();
        ids.entry(q.clone()).or_insert(n);
    }
    let mut r = Nfa { n: ids.len(), ..Default::default() };
    for (q, i) in &ids {
        if a.is_initial_state(q) {
            r.init.insert(*i);
        }
        if a.is_final_state(q) {
            r.fin.insert(*i);
        }
        for (l, to) in a.successors(q) {
            for t in to {
                match l {
                    None => r.eps.push((*i, ids[t])),
                    Some(s) => r.step.push((*i, s.iter().map(|r| r.bounds()).collect(), false, ids[t])),
                }
            }
        }
    }
    r
}
/// Compares two languages, with a word that tells them apart.
fn same_language<A: Lang, B: Lang>(a: &A, b: &B) -> Result<(), String> {
    let mut cuts = BTreeSet::from(['\0']);
    a.cuts(&mut cuts);
    b.cuts(&mut cuts);
    let mut seen = HashSet::new();
    let mut todo = VecDeque::from([(a.start(), b.start(), String::new())]);
    while let Some((s, t, w)) = todo.pop_front() {
        if !seen.insert((s.clone(), t.clone())) {
            continue;
        }
        if seen.len() > 4000 {
            return Ok(());
        }
        let (x, y) = (a.accepts(&s), b.accepts(&t));
        if x != y {
            return Err(format!("{w:?} is {} and should {}", if y { "accepted" } else { "rejected" }, if x { "be accepted" } else { "not" }));
        }
        for c in &cuts {
            let mut v = w.clone();
            v.push(*c);
            let p = (a.step(&s, *c)?, b.step(&t, *c)?, v);
            if !seen.contains(&(p.0.clone(), p.1.clone())) {
                todo.push_back(p)
            }
        }
    }
    Ok(())
}
fn word(s: &str) -> Nfa {
    Nfa::of(&Re::Seq(s.chars().map(|c| Re::Set(vec![(c, c)], false)).collect()))
}

// ------------------------------------------------------------ P24
const LETTERS: &[char] = &['a', 'b', 'c', 'd', 'z', '0', '-', '^', ']', '[', '(', ')', '*', '+', '?', '|', '.', '\\', '{', '}', ',', 'n', 'e', '\n', '\0', '\u{7}', '\u{1b}', 'é', '\u{d7ff}', '\u{e000}', '\u{10ffff}', ' '];
fn letter(g: &mut G) -> char {
    if g.chance(2, 3) {
        *g.pick(&LETTERS[..4])
    } else {
        *g.pick(LETTERS)
    }
}
fn g_re(g: &mut G, depth: usize, counts: bool) -> RegExp {
    let k = if depth == 0 { g.below(3) } else { g.below(10) };
    match k {
        0 | 1 => {
            let mut s = RangeSet::new();
            s.insert(letter(g));
            RegExp::Set(s)
        }
        2 => {
            if g.chance(1, 3) {
                return RegExp::Any;
            }
            let n = g.len(4);
            let mut s = RangeSet::new();
            for _ in 0..n {
                let (a, b) = (letter(g), letter(g));
                if g.bool() {
                    s.insert(a)
                } else {
                    s.insert(a.min(b)..=a.max(b))
                }
            }
            if g.chance(1, 3) {
                if !s.is_empty() {
                    s = s.complement()
                }
            }
            RegExp::Set(s)
        }
        3 | 4 | 5 => {
            let n = g.below(4);
            RegExp::Sequence((0..n).map(|_| g_re(g, depth - 1, counts)).collect())
        }
        6 | 7 => {
            let n = 1 + g.below(3);
            RegExp::Union((0..n).map(|_| g_re(g, depth - 1, counts)).collect())
        }
        _ => {
            let e = Box::new(g_re(g, depth - 1, counts));
            if counts && g.bool() {
                let a = g.below(4) as u32;
                let b = a + g.below(3) as u32;
                return RegExp::Repeat(e, a, if g.chance(1, 3) { u32::MAX } else { b });
            }
            let (a, b) = *g.pick(&[(0, 1), (0, u32::MAX), (1, u32::MAX)]);
            RegExp::Repeat(e, a, b)
        }
    }
}
fn size(r: &Re) -> usize {
    match r {
        Re::Set(..) => 1,
        Re::Seq(s) | Re::Alt(s) => 1 + s.iter().map(size).sum::<usize>(),
        Re::Rep(e, a, b) => 1 + size(e) * (b.unwrap_or(*a + 1).max(1) as usize),
    }
}
/// Empty ranges such as `z-a` have no agreed meaning.
fn reversed(r: &Re) -> bool {
    match r {
        Re::Set(s, _) => s.iter().any(|(a, b)| a > b),
        Re::Seq(s) | Re::Alt(s) => s.iter().any(reversed),
        Re::Rep(e, ..) => reversed(e),
    }
}
fn g_text(g: &mut G) -> String {
    fn item(g: &mut G, depth: usize, out: &mut String) {
        match if depth == 0 { g.below(4) } else { g.below(6) } {
            0 | 1 => {
                let c = *g.pick(&LETTERS[..5]);
                out.push(c)
            }
            2 => {
                out.push('\\');
                out.push(letter(g))
            }
            3 => {
                if g.chance(1, 4) {
                    out.push('.');
                    return;
                }
                out.push('[');
                if g.chance(1, 3) {
                    out.push('^')
                }
                let n = g.below(4);
                for _ in 0..n {
                    let mut one = |g: &mut G| {
                        let c = letter(g);
                        if matches!(c, '\\' | ']' | '-' | '^') || g.chance(1, 6) {
                            out.push('\\')
                        }
                        out.push(c)
                    };
                    one(g);
                    if g.chance(1, 3) {
                        out.push('-');
                        let c = *g.pick(&['d', 'z', 'é', '\u{10ffff}', '\\']);
                        out.push(c);
                        if c == '\\' {
                            out.push('|')
                        }
                    }
                }
                out.push(']')
            }
            4 => {
                out.push('(');
                options(g, depth - 1, out);
                out.push(')')
            }
            _ => options(g, depth - 1, out),
        }
        if g.chance(1, 3) {
            out.push(*g.pick(&['*', '+', '?']))
        }
    }
    fn options(g: &mut G, depth: usize, out: &mut String) {
        let n = 1 + if g.chance(1, 3) { g.below(3) } else { 0 };
        for i in 0..n {
            if i > 0 {
                out.push('|')
            }
            let k = g.len(4);
            for _ in 0..k {
                item(g, depth, out)
            }
        }
    }
    let mut s = String::new();
    options(g, 3, &mut s);
    if g.chance(1, 4) {
        let n = 1 + g.below(2);
        for _ in 0..n {
            let mut c: Vec<char> = s.chars().collect();
            let i = g.below(c.len() + 1);
            match g.below(3) {
                0 => c.insert(i, *g.pick(LETTERS)),
                1 if i < c.len() => {
                    c.remove(i);
                }
                _ => c.truncate(i),
            }
            s = c.into_iter().collect()
        }
    }
    s
}
fn counted(r: &RegExp) -> bool {
    match r {
        RegExp::Any | RegExp::Set(_) => false,
        RegExp::Sequence(s) | RegExp::Union(s) => s.iter().any(counted),
        RegExp::Repeat(e, a, b) => counted(e) || !matches!((*a, *b), (0, 1) | (0, u32::MAX) | (1, u32::MAX)),
    }
}
fn show_re(r: &RegExp) -> String {
    match r {
        RegExp::Any => ".".into(),
        RegExp::Set(s) => format!("{s:?}"),
        RegExp::Sequence(s) => format!("seq({})", s.iter().map(show_re).collect::<Vec<_>>().join(", ")),
        RegExp::Union(s) => format!("union({})", s.iter().map(show_re).collect::<Vec<_>>().join(", ")),
        RegExp::Repeat(e, a, b) => format!("repeat({}, {a}, {b})", show_re(e)),
    }
}
fn p24(g: &mut G) -> R {
    let (real, want) = if g.chance(2, 3) {
        // From a text.
        let text = g_text(g);
        g.note("text", format!("{text:?}"));
        let want = ref_parse(&text);
        if want.as_ref().is_ok_and(reversed) {
            return Ok(Outcome::Discard);
        }
        let real = RegExp::parse(&text);
        let other: Result<RegExp, _> = serde_json::from_str(&serde_json::to_string(&text).unwrap());
        ensure!(other.is_ok() == real.is_ok(), "deserializing and parsing disagree");
        let (real, want) = match (real, want) {
            (Ok(a), Ok(b)) => (a, b),
            (Ok(_), Err(e)) => fail!("a malformed expression ({e:?}) is accepted"),
            (Err(e), Ok(_)) => fail!("a well-formed expression is rejected: {e}"),
            (Err(e), Err(f)) => {
                g.label("malformed");
                let same = match (&e, &f) {
                    (ParseError::UnmatchedClosingParenthesis, Bad::Closing) => true,
                    (ParseError::MissingClosingParenthesis, Bad::Opening) => true,
                    (ParseError::IncompleteEscapeSequence, Bad::Escape) => true,
                    (ParseError::IncompleteCharacterSet, Bad::Set) => true,
                    _ => false,
                };
                ensure!(same, "the expression is rejected with `{e}`, expected {f:?}");
                return Ok(Outcome::Pass);
            }
        };
        ensure!(other.ok() == Some(real.clone()) && text.parse::<RegExp>().ok() == Some(real.clone()), "deserializing and parsing disagree");
        g.label("text");
        (real, want)
    } else if g.chance(1, 4) {
        let n = g.below(6);
        let s: String = (0..n).map(|_| letter(g)).collect();
        g.note("literal", format!("{s:?}"));
        g.label("literal");
        let r = RegExp::from(&s);
        ensure!(r.as_singleton().as_ref() == Some(&s), "the expression for {s:?} alone is a singleton for {:?}", r.as_singleton());
        let want = Re::Seq(s.chars().map(|c| Re::Set(vec![(c, c)], false)).collect());
        (r, want)
    } else {
        g.label("built");
        let mut r = g_re(g, 3, true);
        let mut want = re_of(&r);
        let n = g.below(3);
        for _ in 0..n {
            if g.bool() {
                let e = g_re(g, 1, true);
                want = Re::Seq(vec![want, re_of(&e)]);
                r.push(e)
            } else {
                let (a, b) = *g.pick(&[(0, 1), (1, 1), (2, 3), (0, u32::MAX), (1, u32::MAX), (0, 0)]);
                want = Re::Rep(Box::new(want), a, if b == u32::MAX { None } else { Some(b) });
                r.repeat(a, b)
            }
        }
        g.note("expression", show_re(&r));
        (r, want)
    };
    if size(&want) > 60 {
        return Ok(Outcome::Discard);
    }
    g.nontrivial = size(&want) >= 4;
    let lang = Nfa::of(&want);
    let dfa = real.build();
    same_language(&lang, &dfa).map_err(|e| format!("the automaton of {} is wrong: {e}", show_re(&real)))?;
    // Predicates.
    if let Some(s) = real.as_singleton() {
        g.label("singleton");
        ensure!(real.is_singleton(), "an expression with a single value is not a singleton");
        same_language(&lang, &word(&s)).map_err(|e| format!("{} is said to match {s:?} only: {e}", show_re(&real)))?;
    } else {
        ensure!(!real.is_singleton(), "a singleton without a value");
    }
    // Simplification.
    let simple = real.clone().simplified();
    same_language(&lang, &Nfa::of(&re_of(&simple))).map_err(|e| format!("{} is simplified into {}: {e}", show_re(&real), show_re(&simple)))?;
    // Printing.
    if !counted(&real) {
        let text = real.to_string();
        ensure!(serde_json::to_value(&real).ok() == Some(serde_json::Value::String(text.clone())) && format!("{real:?}") == text, "an expression is not written as it is displayed");
        let back = match ref_parse(&text) {
            Ok(b) => b,
            Err(e) => fail!("{} is written {text:?}, which is malformed: {e:?}", show_re(&real)),
        };
        same_language(&lang, &Nfa::of(&back)).map_err(|e| format!("{} is written {text:?}: {e}", show_re(&real)))?;
        match RegExp::parse(&text) {
            Ok(b) => same_language(&lang, &Nfa::of(&re_of(&b))).map_err(|e| format!("{} is written {text:?} and read back as something else: {e}", show_re(&real)))?,
            Err(e) => fail!("{} is written {text:?}, which cannot be read back: {e}", show_re(&real)),
        }
    }
    Ok(Outcome::Pass)
}
fn p24_counted() -> Result<(), String> {
    let mut r = RegExp::from("a");
    r.repeat(2, 2);
    let text = r.to_string();
    let back = RegExp::parse(&text).map_err(|e| e.to_string())?;
    same_language(&Nfa::of(&re_of(&r)), &Nfa::of(&re_of(&back))).map_err(|e| format!("{} is written {text:?}: {e}", show_re(&r)))
}
pub const P24: Prop = Prop {
    id: "P24",
    quick: 200_000,
    thorough: 3_000_000,
    rule: "the expression has at least four nodes",
    run: p24,
    known: &[("counted-repetition", "a counted repetition is written in a form that is not read back", p24_counted)],
};

// ------------------------------------------------------------ P26
fn charset(g: &mut G) -> (RangeSet<char>, Ranges) {
    let n = 1 + g.below(3);
    let mut s = RangeSet::new();
    let mut r = vec![];
    for _ in 0..n {
        let (a, b) = (letter(g), letter(g));
        let (a, b) = if g.bool() { (a, a) } else { (a.min(b), a.max(b)) };
        s.insert(a..=b);
        r.push((a, b))
    }
    (s, r)
}
fn p26_nfa(g: &mut G) -> Result<(Automaton<u8>, Nfa), String> {
    let n = 1 + g.below(5);
    let mut a = if g.bool() { Automaton::new() } else { Automaton::default() };
    let mut m = Nfa { n, ..Default::default() };
    let k = g.len(9);
    let mut labels: Vec<(usize, (RangeSet<char>, Ranges))> = vec![];
    let mut edges: BTreeMap<(u8, Option<Vec<(char, char)>>), BTreeSet<u8>> = BTreeMap::new();
    for _ in 0..k {
        let (p, q) = (g.below(n), g.below(n));
        if g.chance(1, 3) {
            a.add(p as u8, None, q as u8);
            m.eps.push((p, q));
            edges.entry((p as u8, None)).or_default().insert(q as u8);
        } else {
            // The same label may lead from a state to several ones.
            let known: Vec<_> = labels.iter().filter(|l: &&(usize, _)| l.0 == p).cloned().collect();
            let (s, r) = if !known.is_empty() && g.bool() {
                g.pick(&known).1.clone()
            } else if !labels.is_empty() && g.chance(1, 3) {
                g.pick(&labels).1.clone()
            } else {
                charset(g)
            };
            labels.push((p, (s.clone(), r.clone())));
            edges.entry((p as u8, Some(s.iter().map(|r| r.bounds()).collect()))).or_default().insert(q as u8);
            a.add(p as u8, Some(s), q as u8);
            m.step.push((p, r, false, q));
        }
    }
    let k = g.below(3);
    for _ in 0..k {
        let q = g.below(n);
        ensure_eq(a.add_initial_state(q as u8), m.init.insert(q), "add_initial_state")?;
    }
    let k = g.below(3);
    for _ in 0..k {
        let q = g.below(n);
        ensure_eq(a.add_final_state(q as u8), m.fin.insert(q), "add_final_state")?;
    }
    if g.chance(1, 4) {
        a.declare_state(g.below(n) as u8)
    }
    for q in 0..n {
        ensure_eq(a.is_initial_state(&(q as u8)), m.init.contains(&q), "is_initial_state")?;
        ensure_eq(a.is_final_state(&(q as u8)), m.fin.contains(&q), "is_final_state")?;
    }
    ensure_eq(a.final_states().iter().map(|q| *q as usize).collect::<States>(), m.fin.clone(), "final_states")?;
    let mut got: BTreeMap<(u8, Option<Vec<(char, char)>>), BTreeSet<u8>> = BTreeMap::new();
    for q in 0..n as u8 {
        for (l, to) in a.successors(&q) {
            got.insert((q, l.as_ref().map(|s| s.iter().map(|r| r.bounds()).collect())), to.clone());
        }
    }
    ensure_eq(got, edges, "successors")?;
    Ok((a, m))
}
fn ensure_eq<T: PartialEq + std::fmt::Debug>(a: T, b: T, what: &str) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what}: {a:?} instead of {b:?}"))
    }
}
fn show_nfa(m: &Nfa) -> String {
    format!("initial {:?}, final {:?}, empty {:?}, steps {:?}", m.init, m.fin, m.eps, m.step.iter().map(|(a, r, _, b)| format!("{a} {r:?} {b}")).collect::<Vec<_>>())
}
/// A deterministic automaton over letters.
#[derive(Clone, Debug, Default)]
struct Dfa {
    init: u8,
    fin: BTreeSet<u8>,
    step: BTreeMap<u8, BTreeMap<char, u8>>,
}
impl Dfa {
    fn nfa(&self) -> Nfa {
        let mut a = Nfa { n: 256, ..Default::default() };
        a.init.insert(self.init as usize);
        a.fin = self.fin.iter().map(|q| *q as usize).collect();
        for (p, m) in &self.step {
            for (c, q) in m {
                a.step.push((*p as usize, vec![(*c, *c)], false, *q as usize))
            }
        }
        a
    }
    fn reach(&self, q: u8) -> BTreeSet<u8> {
        let mut out = BTreeSet::new();
        let mut todo = vec![q];
        while let Some(q) = todo.pop() {
            if out.insert(q) {
                todo.extend(self.step.get(&q).into_iter().flat_map(|m| m.values()))
            }
        }
        out
    }
    /// The number of classes of the coarsest partition of reachable states
    /// that tells apart final states and is stable.
    fn classes(&self) -> usize {
        let states = self.reach(self.init);
        let mut class: BTreeMap<u8, usize> = states.iter().map(|q| (*q, self.fin.contains(q) as usize)).collect();
        loop {
            let mut ids: HashMap<(usize, Vec<(char, usize)>), usize> = HashMap::new();
            let mut new = BTreeMap::new();
            for q in &states {
                let k = (class[q], self.step.get(q).into_iter().flatten().map(|(c, p)| (*c, class[p])).collect());
                let n = ids.len();
                new.insert(*q, *ids.entry(k).or_insert(n));
            }
            let stable = ids.len() == class.values().collect::<HashSet<_>>().len();
            class = new;
            if stable {
                return ids.len();
            }
        }
    }
}
fn p26_dfa(g: &mut G) -> Result<(DetAutomaton<u8, char>, Dfa), String> {
    let n = 1 + g.below(6);
    let mut m = Dfa { init: g.below(n) as u8, ..Default::default() };
    let k = g.len(12);
    let letters = 1 + g.below(3);
    let steps: Vec<(u8, char, u8)> = (0..k).map(|_| (g.below(n) as u8, LETTERS[g.below(letters)], g.below(n) as u8)).collect();
    let k = g.below(4);
    let finals: Vec<u8> = (0..k).map(|_| g.below(n) as u8).collect();
    for (p, c, q) in &steps {
        m.step.entry(*p).or_default().insert(*c, *q);
    }
    m.fin = finals.iter().cloned().collect();
    let a = if g.bool() {
        DetAutomaton::from_parts(m.init, m.fin.clone(), m.step.clone())
    } else {
        let mut a = DetAutomaton::new(m.init);
        for (p, c, q) in &steps {
            a.add(*p, *c, *q)
        }
        let mut fin = BTreeSet::new();
        for q in finals {
            if g.bool() {
                ensure_eq(a.add_final_state(q), fin.insert(q), "add_final_state")?;
            } else {
                ensure_eq(a.final_states_mut().insert(q), fin.insert(q), "final_states_mut")?;
            }
        }
        if g.chance(1, 4) {
            let q = g.below(n) as u8;
            a.declare_state(q);
            m.step.entry(q).or_default();
        }
        a
    };
    ensure_eq(a.transitions(), &m.step, "transitions")?;
    ensure_eq(a.final_states(), &m.fin, "final_states")?;
    ensure_eq(*a.initial_state(), m.init, "initial_state")?;
    for q in 0..n as u8 {
        ensure_eq(a.is_final_state(&q), m.fin.contains(&q), "is_final_state")?;
        ensure_eq(a.is_initial_state(&q), m.init == q, "is_initial_state")?;
        let want: Vec<(char, u8)> = m.step.get(&q).into_iter().flatten().map(|(c, p)| (*c, *p)).collect();
        ensure_eq(a.successors(&q).map(|(c, p)| (*c, *p)).collect(), want.clone(), "successors")?;
        ensure_eq(a.transitions_from(&q).map(|(c, p)| (*c, *p)).collect(), want, "transitions_from")?;
        let got: Vec<u8> = a.reachable_states_from(&q).cloned().collect();
        let set: BTreeSet<u8> = got.iter().cloned().collect();
        ensure_eq(got.len(), set.len(), "reachable states given once")?;
        ensure_eq(set, m.reach(q), "reachable_states_from")?;
    }
    Ok((a, m))
}
fn p26(g: &mut G) -> R {
    match g.below(4) {
        0 => {
            g.label("character sets");
            let ((a, _), (b, _)) = (charset(g), charset(g));
            let a = if g.chance(1, 4) { a.complement() } else { a };
            let b = if g.chance(1, 4) { b.complement() } else { b };
            let b = if g.chance(1, 8) { RangeSet::new() } else { b };
            g.note("a", format!("{a:?}"));
            g.note("b", format!("{b:?}"));
            let i = charset_intersection(&a, &b);
            let u: Ranges = a.iter().map(|r| r.bounds()).collect();
            let v: Ranges = b.iter().map(|r| r.bounds()).collect();
            let w: Ranges = i.iter().map(|r| r.bounds()).collect();
            g.nontrivial = u.len() + v.len() >= 3;
            let mut cuts = BTreeSet::from(['\0']);
            for (a, b) in u.iter().chain(&v).chain(&w) {
                if a <= b {
                    cut(&mut cuts, *a, *b)
                }
            }
            for c in cuts {
                ensure!(within(&w, c) == (within(&u, c) && within(&v, c)), "{c:?} is {}in the intersection {w:?}", if within(&w, c) { "" } else { "not " });
            }
        }
        1 => {
            g.label("non deterministic");
            let (a, m) = p26_nfa(g)?;
            let (b, n) = p26_nfa(g)?;
            g.note("a", show_nfa(&m));
            g.note("b", show_nfa(&n));
            g.nontrivial = !m.step.is_empty() && !n.step.is_empty();
            let d = a.determinize();
            same_language(&m, &d).map_err(|e| format!("determinize: {e}"))?;
            let e = b.determinize();
            let p = a.product(&b, |p, q| (*p, *q));
            same_language(&Both(m.clone(), n.clone()), &nfa_of(&p)).map_err(|e| format!("product: {e}"))?;
            let de = d.product(
                &e,
                |p, q| (p.clone(), q.clone()),
                |a, b| {
                    let ((a, b), (c, d)) = (a.bounds(), b.bounds());
                    let (x, y) = (a.max(c), b.min(d));
                    (x <= y).then(|| AnyRange::from(x..=y))
                },
            );
            same_language(&Both(m, n), &de).map_err(|e| format!("deterministic product: {e}"))?;
        }
        _ => {
            g.label("deterministic");
            let (a, m) = p26_dfa(g)?;
            g.note("automaton", format!("{m:?}"));
            let lang = m.nfa();
            let reach = m.reach(m.init);
            g.nontrivial = reach.len() >= 3;
            same_language(&lang, &a)?;
            ensure_eq(a.states().into_iter().cloned().collect(), reach.clone(), "states")?;
            let k = g.below(4) as u8;
            ensure_eq(a.select_states(|q| q % 4 <= k).into_iter().cloned().collect(), reach.iter().filter(|q| *q % 4 <= k).cloned().collect::<BTreeSet<u8>>(), "select_states")?;
            let mut groups: BTreeMap<u8, BTreeSet<u8>> = BTreeMap::new();
            for q in &reach {
                groups.entry(q % (k + 1)).or_default().insert(*q);
            }
            let got: BTreeMap<u8, BTreeSet<u8>> = a.partition(|q| q % (k + 1)).into_iter().map(|(p, s)| (p, s.into_iter().cloned().collect())).collect();
            ensure_eq(got, groups.clone(), "partition")?;
            let got = a.try_partition(|q| if *q == k { Err(*q) } else { Ok(q % (k + 1)) });
            match got {
                Err(e) => ensure!(e == k && reach.contains(&k), "try_partition fails with {e}"),
                Ok(p) => {
                    ensure!(!reach.contains(&k), "try_partition ignores an error");
                    ensure_eq(p.into_iter().map(|(p, s)| (p, s.into_iter().cloned().collect())).collect::<BTreeMap<u8, BTreeSet<u8>>>(), groups, "try_partition")?
                }
            }
            // Mapping.
            let mapped = a.map(|q| (*q as u32 + 7) * 3, |l| (l.len_utf8(), *l));
            same_language(&lang, &mapped).map_err(|e| format!("map: {e}"))?;
            ensure_eq(mapped.final_states().clone(), m.fin.iter().map(|q| (*q as u32 + 7) * 3).collect(), "final states once mapped")?;
            let named: BTreeSet<u8> = [m.init].into_iter().chain(m.fin.iter().cloned()).chain(m.step.iter().filter(|e| !e.1.is_empty()).map(|e| *e.0)).chain(m.step.values().flat_map(|m| m.values().cloned())).collect();
            let label = *g.pick(&LETTERS[..4]);
            let bad = named.contains(&k) || m.step.values().any(|m| m.contains_key(&label));
            match a.try_map(|q| if *q == k { Err("state") } else { Ok(*q as u32 * 2) }, |l| if *l == label { Err("label") } else { Ok(*l) }) {
                Ok(b) => {
                    ensure!(!bad, "try_map ignores an error");
                    same_language(&lang, &b).map_err(|e| format!("try_map: {e}"))?
                }
                Err(e) => ensure!(bad, "try_map fails with {e}"),
            }
            // Minimization.
            let min = a.minimize(a.partition(|q| a.is_final_state(q)).into_values());
            same_language(&lang, &min).map_err(|e| format!("minimize: {e}"))?;
            ensure_eq(min.states().len(), m.classes(), "states once minimized")?;
            // Compression: words instead of letters.
            let c = a.compress(|w: &mut String, l| w.push(*l));
            let mut words = Nfa { n: 256, ..Default::default() };
            words.init.insert(*c.initial_state() as usize);
            words.fin = c.final_states().iter().map(|q| *q as usize).collect();
            for (p, ts) in c.transitions() {
                for (w, q) in ts {
                    ensure!(!w.is_empty(), "compress: a transition without letters");
                    let mut at = *p as usize;
                    let k = w.chars().count();
                    for (i, l) in w.chars().enumerate() {
                        let to = if i + 1 == k { *q as usize } else { words.state() };
                        words.step.push((at, vec![(l, l)], false, to));
                        at = to
                    }
                }
            }
            same_language(&lang, &words).map_err(|e| format!("compress: {e}"))?;
            // Product.
            let (b, n) = p26_dfa(g)?;
            g.note("other", format!("{n:?}"));
            let p = a.product(&b, |p, q| (*p, *q), |x, y| (x == y).then_some(*x));
            same_language(&Both(lang.clone(), n.nfa()), &p).map_err(|e| format!("product: {e}"))?;
            // Serialization.
            let t = serde_json::to_string(&a).map_err(|e| e.to_string())?;
            let back: DetAutomaton<u8, char> = match serde_json::from_str(&t) {
                Ok(b) => b,
                Err(e) => fail!("an automaton cannot be read back: {e}\n  written: {t}"),
            };
            let full: BTreeMap<u8, BTreeMap<char, u8>> = m.step.iter().filter(|e| !e.1.is_empty()).map(|(q, m)| (*q, m.clone())).collect();
            ensure_eq(back, DetAutomaton::from_parts(m.init, m.fin.clone(), full), "an automaton read back")?;
        }
    }
    Ok(Outcome::Pass)
}
pub const P26: Prop = Prop { id: "P26", quick: 500_000, thorough: 10_000_000, rule: "the automata have transitions, or three states", run: p26, known: &[] };
