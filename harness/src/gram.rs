//! Grammars as data: `Gr` is an arena of grammar nodes, `Built` the real productions made from it, and `Ref` an
//! independent reference interpreter of the documented parsing expression semantics.
use crate::sym::*;
use lang_pt::production::*;
use lang_pt::*;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt::{Debug, Display, Formatter, Write};
use std::rc::Rc;

pub const A: u8 = 1;
pub const B: u8 = 2;
pub const C: u8 = 3;
pub const EOF: u8 = 5;
/// tokens from here on are not structural
pub const NS: u8 = 8;
pub const S: u8 = 8;
pub const W: u8 = 9;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tk(pub u8);
impl Debug for Tk {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("Tk")
    }
}
impl std::hash::Hash for Tk {
    // a constant hash is a lawful one: hash sets of tokens compare symbolic tokens for equality
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
impl TokenImpl for Tk {
    fn eof() -> Self {
        Tk(EOF)
    }
    fn is_structural(&self) -> bool {
        self.0 < NS
    }
}

type DynP = dyn IProduction<Node = u8, Token = Tk>;

/// A late bound reference to a production, so that any graph can be built.
#[derive(Clone)]
pub struct P(Rc<OnceCell<Rc<DynP>>>);
impl P {
    pub fn new() -> Self {
        P(Rc::new(OnceCell::new()))
    }
    pub fn get(&self) -> &Rc<DynP> {
        self.0.get().unwrap()
    }
}
impl Display for P {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("P")
    }
}
impl IProduction for P {
    type Node = u8;
    type Token = Tk;
    fn is_nullable(&self) -> bool {
        self.get().is_nullable()
    }
    fn is_nullable_n_hidden(&self) -> bool {
        self.get().is_nullable_n_hidden()
    }
    fn obtain_nullability<'id>(&'id self, v: HashMap<&'id str, usize>) -> Result<bool, ImplementationError> {
        self.get().obtain_nullability(v)
    }
    fn impl_first_set(&self, s: &mut HashSet<Tk>) {
        self.get().impl_first_set(s)
    }
    fn impl_grammar(&self, w: &mut dyn Write, r: &mut HashSet<&'static str>) -> Result<(), std::fmt::Error> {
        self.get().impl_grammar(w, r)
    }
    fn validate<'id>(&'id self, c: HashMap<&'id str, usize>, v: &mut HashSet<&'id str>) -> Result<(), ImplementationError> {
        self.get().validate(c, v)
    }
    fn advance_fltr_ptr(&self, code: &Code, i: FltrPtr, s: &TokenStream<Tk>, c: &mut Cache<FltrPtr, u8>) -> ParsedResult<FltrPtr, u8> {
        self.get().advance_fltr_ptr(code, i, s, c)
    }
    fn advance_token_ptr(&self, code: &Code, i: TokenPtr, s: &TokenStream<Tk>, c: &mut Cache<FltrPtr, u8>) -> ParsedResult<TokenPtr, u8> {
        self.get().advance_token_ptr(code, i, s, c)
    }
    fn advance_ptr(&self, code: &Code, i: usize, c: &mut Cache<usize, u8>) -> ParsedResult<usize, u8> {
        self.get().advance_ptr(code, i, c)
    }
}

/// What a validation closure answers.
#[derive(Clone, Copy, PartialEq)]
pub enum V {
    Ok,
    Soft,
    Hard(usize),
    /// hard error unless the children come in an even number
    Even(usize),
    /// hard error if the sum of the values and spans of the children is odd
    Sum(usize),
    /// not matched if the code has an odd length
    Code(usize),
    /// an arbitrary answer for each start and number of children
    Any(usize),
}

#[derive(Clone)]
pub enum G {
    Tok(u8, Option<u8>),
    Set(Vec<(u8, Option<u8>)>),
    Null,
    NullHidden,
    Eof(Option<u8>),
    Concat(Vec<usize>),
    Union(Vec<usize>),
    Suffixes(usize, bool, Vec<(usize, u8)>),
    List(usize),
    Sep(usize, usize, bool),
    Nullable(usize),
    NullableHidden(usize),
    Node(usize, u8),
    Hidden(usize),
    Look(usize, Option<u8>),
    Valid(usize, V),
    NonStr(usize, bool),
    Struct(usize),
    Cache(usize),
    // terminals of the lexerless parser
    Const(&'static str, Option<u8>),
    CSet(Vec<(&'static str, Option<u8>)>),
    Punct(Vec<(&'static str, Option<u8>)>),
    /// a regular expression (of the harness with the regex crate in it)
    Rx(Rc<crate::rex::X>, Option<u8>),
    /// an arbitrary production: which one
    Abs(usize),
}

// ------------------------------------------------------------------------------------------- arbitrary productions
/// The answer of an arbitrary production at one position.
#[derive(Clone, Copy)]
pub struct Ans {
    /// 0 not matched, 1 matched, 2 validation error
    kind: usize,
    adv: usize,
    children: usize,
    /// furthest end of a terminal it matched on the way
    reach: usize,
    /// position of the validation error
    at: usize,
}
/// What arbitrary productions are and answer, made up when they are asked.
pub struct Book {
    /// may match without consuming; the tokens it starts with otherwise
    pub decl: RefCell<Vec<(bool, Vec<u8>)>>,
    ans: RefCell<Vec<((usize, M, usize), Ans)>>,
    verdicts: RefCell<Vec<((usize, usize, usize), usize)>>,
    /// token starts by index (the last is the end of the input), in the modes Filtered and Raw
    ends: RefCell<[Vec<usize>; 2]>,
    pub reaches: Cell<bool>,
    /// validation errors: 0 none, 1 where the token can start the production, 2 anywhere
    pub hard: Cell<usize>,
    pub kids: Cell<usize>,
    /// may be run once at each position only; where they have been run
    pub once: Cell<bool>,
    ran: RefCell<Vec<(usize, M, usize)>>,
}
impl Book {
    fn new() -> Self {
        Book {
            decl: RefCell::new(Vec::new()),
            ans: RefCell::new(Vec::new()),
            verdicts: RefCell::new(Vec::new()),
            ends: RefCell::new([Vec::new(), Vec::new()]),
            reaches: Cell::new(false),
            hard: Cell::new(1),
            kids: Cell::new(2),
            once: Cell::new(false),
            ran: RefCell::new(Vec::new()),
        }
    }
    /// the input: a token stream
    pub fn tokens(&self, toks: &[Lex<Tk>]) {
        let raw: Vec<usize> = toks.iter().map(|t| t.start).collect();
        let filt = toks.iter().filter(|t| t.token.0 < NS).map(|t| t.start).collect();
        *self.ends.borrow_mut() = [filt, raw];
    }
    /// the input: a code of the length
    pub fn bytes(&self, n: usize) {
        *self.ends.borrow_mut() = [Vec::new(), (0..=n).collect()];
    }
    /// the answer of production `id` at `p`; `tok` is the token there
    fn get(&self, id: usize, m: M, p: usize, tok: Option<u8>) -> Ans {
        let key = (id, m, p);
        for (k, a) in self.ans.borrow().iter() {
            if *k == key {
                return *a;
            }
        }
        let (nullable, first) = self.decl.borrow()[id].clone();
        let starts = match tok {
            Some(t) => {
                let mut r = false;
                for f in &first {
                    r |= *f == t;
                }
                r
            }
            None => true,
        };
        let e = self.ends.borrow();
        let ends = &e[(m != M::Filtered) as usize];
        let last = ends.len() - 1;
        let mut a = Ans { kind: 0, adv: 0, children: 0, reach: 0, at: ends[p] };
        let low = if nullable { 0 } else { 1 };
        if nullable || starts {
            // 0 not matched, 1 a validation error, then the lengths of a match
            let x = choose(2 + (last + 1).saturating_sub(p + low));
            a.kind = [0, 2, 1][x.min(2)];
            if a.kind == 2 {
                assume(self.hard.get() > 1 || (self.hard.get() == 1 && starts));
            }
            if a.kind == 1 {
                a.adv = x - 2 + low;
                a.children = choose(self.kids.get());
            }
            let more = if self.reaches.get() && p + a.adv < last { choose(2) } else { 0 };
            if a.adv + more > 0 {
                a.reach = ends[p + a.adv + more];
            }
        }
        self.ans.borrow_mut().push((key, a));
        a
    }
    /// the answer as a result, and how far it reached
    pub fn run(&self, id: usize, m: M, p: usize, tok: Option<u8>) -> (usize, R) {
        let a = self.get(id, m, p, tok);
        let e = self.ends.borrow();
        let (filt, raw) = (&e[0], &e[1]);
        let ends = if m == M::Filtered { filt } else { raw };
        let q = p + a.adv;
        let r = match a.kind {
            0 => Err(E::Soft),
            2 => Err(E::Hard(a.at)),
            _ => {
                let index = |p: usize| raw.iter().position(|x| *x >= ends[p]).unwrap();
                let bound = if m == M::Bytes { None } else { Some((index(p), index(q))) };
                let node = |i: usize| T { v: (40 + 4 * id + i) as u8, start: ends[p], end: ends[q], bound, ch: Vec::new() };
                Ok((q, (0..a.children).map(node).collect()))
            }
        };
        (a.reach, r)
    }
    /// the answer of the validation `id` to children
    fn verdict(&self, id: usize, n: usize, start: usize) -> usize {
        let key = (id, n, start);
        for (k, a) in self.verdicts.borrow().iter() {
            if *k == key {
                return *a;
            }
        }
        let a = choose(3);
        self.verdicts.borrow_mut().push((key, a));
        a
    }
}
pub struct AbsProd {
    id: usize,
    book: Rc<Book>,
}
impl AbsProd {
    fn result<I>(&self, m: M, p: usize, tok: Option<u8>, at: impl Fn(usize) -> I, reach: &mut dyn FnMut(usize)) -> ParsedResult<I, u8> {
        if self.book.once.get() {
            let mut ran = self.book.ran.borrow_mut();
            check(!ran.contains(&(self.id, m, p)), "a cached production is run again at the same position");
            ran.push((self.id, m, p));
        }
        let (x, r) = self.book.run(self.id, m, p, tok);
        reach(x);
        match r {
            Ok((q, ch)) => Ok(SuccessData::new(at(q), real(ch))),
            Err(E::Soft) => Err(ProductionError::Unparsed),
            Err(E::Hard(x)) => Err(ProductionError::Validation(x, String::from("!why"))),
        }
    }
}
fn real(ch: Vec<T>) -> Vec<ASTNode<u8>> {
    ch.into_iter()
        .map(|t| {
            let bound = t.bound.map(|(x, y)| (TokenPtr::from(x), TokenPtr::from(y)));
            ASTNode::new(t.v, t.start, t.end, bound, real(t.ch))
        })
        .collect()
}
impl Display for AbsProd {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("Abs")
    }
}
impl IProduction for AbsProd {
    type Node = u8;
    type Token = Tk;
    fn is_nullable(&self) -> bool {
        self.book.decl.borrow()[self.id].0
    }
    fn is_nullable_n_hidden(&self) -> bool {
        false
    }
    fn obtain_nullability<'id>(&'id self, _: HashMap<&'id str, usize>) -> Result<bool, ImplementationError> {
        Ok(self.is_nullable())
    }
    fn impl_first_set(&self, s: &mut HashSet<Tk>) {
        for t in &self.book.decl.borrow()[self.id].1 {
            s.insert(Tk(*t));
        }
    }
    fn impl_grammar(&self, _: &mut dyn Write, _: &mut HashSet<&'static str>) -> Result<(), std::fmt::Error> {
        Ok(())
    }
    fn validate<'id>(&'id self, _: HashMap<&'id str, usize>, _: &mut HashSet<&'id str>) -> Result<(), ImplementationError> {
        Ok(())
    }
    fn advance_fltr_ptr(&self, _: &Code, i: FltrPtr, s: &TokenStream<Tk>, c: &mut Cache<FltrPtr, u8>) -> ParsedResult<FltrPtr, u8> {
        let n = self.book.ends.borrow()[0].len();
        let mut p = 0;
        while p < n && i != fp(p) {
            p += 1;
        }
        if p == n {
            check(false, "a production is run outside of the stream");
        }
        self.result(M::Filtered, p, Some(s[i].token.0), fp, &mut |x| c.update_index(x))
    }
    fn advance_token_ptr(&self, _: &Code, i: TokenPtr, s: &TokenStream<Tk>, c: &mut Cache<FltrPtr, u8>) -> ParsedResult<TokenPtr, u8> {
        let n = self.book.ends.borrow()[1].len();
        let mut p = 0;
        while p < n && i != TokenPtr::from(p) {
            p += 1;
        }
        if p == n {
            check(false, "a production is run outside of the stream");
        }
        self.result(M::Raw, p, Some(s[i].token.0), TokenPtr::from, &mut |x| c.update_index(x))
    }
    fn advance_ptr(&self, _: &Code, i: usize, c: &mut Cache<usize, u8>) -> ParsedResult<usize, u8> {
        if i >= self.book.ends.borrow()[1].len() {
            check(false, "a production is run outside of the code");
        }
        self.result(M::Bytes, i, None, |p| p, &mut |x| c.update_index(x))
    }
}

pub static IDS: [&str; 40] = [
    "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17",
    "n18", "n19", "n20", "n21", "n22", "n23", "n24", "n25", "n26", "n27", "n28", "n29", "n30", "n31", "n32", "n33",
    "n34", "n35", "n36", "n37", "n38", "n39",
];

#[derive(Clone)]
pub struct Gr {
    pub n: Vec<G>,
    pub book: Rc<Book>,
    /// how the late bound productions get their symbols, where they are bound late: once if nothing is said
    pub bind: Vec<Bind>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Bind {
    Not,
    Once,
    Twice,
}
type VFn = Box<dyn Fn(&Vec<ASTNode<u8>>, &[u8]) -> Result<(), ProductionError>>;

pub fn cache_key(i: usize) -> CacheKey {
    // CacheKey has no public constructor
    unsafe { std::mem::transmute::<usize, CacheKey>(i) }
}

impl Gr {
    pub fn new() -> Self {
        Gr { n: Vec::new(), book: Rc::new(Book::new()), bind: Vec::new() }
    }
    pub fn add(&mut self, g: G) -> usize {
        self.n.push(g);
        self.n.len() - 1
    }
    /// An arbitrary production: may match nothing or not, and starts with some of the tokens A, B and S, where `kinds` of
    /// them are in the input.
    pub fn arbitrary(&mut self, kinds: usize) -> usize {
        let nullable = flag();
        let first = if kinds < 3 { vec![A, S] } else { [vec![A, S], vec![B, S], vec![A, B], vec![A, B, S]][choose(4)].clone() };
        let id = self.book.decl.borrow().len();
        self.book.decl.borrow_mut().push((nullable, first));
        self.add(G::Abs(id))
    }
    /// The real productions, one per node of the arena.
    pub fn build(&self) -> Vec<Rc<P>> {
        self.build_with(0, false)
    }
    /// `log`: the log of every production (see `log_of`). `other`: made by the other public ways of construction (late
    /// bound symbols and builder methods).
    pub fn build_with(&self, log: usize, other: bool) -> Vec<Rc<P>> {
        let ps: Vec<Rc<P>> = self.n.iter().map(|_| Rc::new(P::new())).collect();
        // `$set` is the name of the method which sets the log
        macro_rules! mk {
            ($set:ident, $e:expr) => {{
                let x = $e;
                if let Some(l) = log_of(log) {
                    x.$set(l).unwrap();
                }
                let x: Rc<DynP> = Rc::new(x);
                x
            }};
        }
        for (i, g) in self.n.iter().enumerate() {
            let d = |j: &usize| -> Rc<DynP> { ps[*j].clone() };
            let own = |j: &usize| -> P { (*ps[*j]).clone() };
            let bind = self.bind.get(i).copied().unwrap_or(Bind::Once);
            let p: Rc<DynP> = match g {
                G::Tok(t, n) => mk!(set_log, TokenField::new(Tk(*t), *n)),
                G::Set(v) => mk!(assign_debugger, {
                    let same = v.iter().all(|x| x.1 == v[0].1);
                    if other && same {
                        TokenFieldSet::with_value(v[0].1, v.iter().map(|(t, _)| Tk(*t)).collect())
                    } else {
                        TokenFieldSet::new(v.iter().map(|(t, n)| (Tk(*t), *n)).collect())
                    }
                }),
                G::Null => mk!(set_log, NullProd::new()),
                G::NullHidden => mk!(set_log, NullProd::hidden()),
                G::Eof(n) => mk!(assign_debugger, EOFProd::new(*n)),
                G::Concat(v) => mk!(set_log, {
                    if other {
                        let c = Concat::init(IDS[i]);
                        if bind != Bind::Not {
                            c.set_symbols(v.iter().map(d).collect()).unwrap();
                        }
                        if bind == Bind::Twice {
                            check(c.set_symbols(vec![d(&0)]).is_err(), "symbols assigned twice");
                        }
                        c
                    } else {
                        Concat::new(IDS[i], v.iter().map(d).collect())
                    }
                }),
                G::Union(v) => mk!(set_log, {
                    if other {
                        let c = Union::init(IDS[i]);
                        if bind != Bind::Not {
                            c.set_symbols(v.iter().map(d).collect()).unwrap();
                        }
                        if bind == Bind::Twice {
                            check(c.set_symbols(vec![d(&0)]).is_err(), "symbols assigned twice");
                        }
                        c
                    } else {
                        Union::new(IDS[i], v.iter().map(d).collect())
                    }
                }),
                G::Suffixes(l, st, v) => mk!(set_log, {
                    let v = v.iter().map(|(j, n)| (d(j), *n)).collect();
                    if other {
                        let s = own(l).into_suffixes::<P>(IDS[i], *st);
                        if bind != Bind::Not {
                            s.set_suffixes(v).unwrap();
                        }
                        if bind == Bind::Twice {
                            check(s.set_suffixes(vec![(d(&0), 9)]).is_err(), "suffixes assigned twice");
                        }
                        s
                    } else {
                        Suffixes::new(IDS[i], &ps[*l], *st, v)
                    }
                }),
                G::List(j) => mk!(assign_debugger, if other { own(j).into_list() } else { List::new(&ps[*j]) }),
                G::Sep(j, k, inc) => mk!(assign_debugger, {
                    if other {
                        own(j).into_separated_list(&ps[*k], *inc)
                    } else {
                        SeparatedList::new(&ps[*j], &ps[*k], *inc)
                    }
                }),
                G::Nullable(j) => mk!(set_log, if other { own(j).into_nullable() } else { Nullable::new(&ps[*j]) }),
                G::NullableHidden(j) => {
                    mk!(set_log, if other { own(j).into_null_hidden() } else { Nullable::hidden(&ps[*j]) })
                }
                G::Node(j, v) => mk!(set_log, if other { own(j).into_node(*v) } else { Node::new(&ps[*j], *v) }),
                G::Hidden(j) => mk!(set_log, if other { own(j).into_hidden() } else { Hidden::new(&ps[*j]) }),
                G::Look(j, n) => {
                    mk!(assign_debugger, if other { own(j).into_lookahead(*n) } else { Lookahead::new(&ps[*j], *n) })
                }
                G::Valid(j, v) => {
                    let v = *v;
                    let book = self.book.clone();
                    let f: VFn = Box::new(move |ch, code| {
                        if let V::Any(id) = v {
                            let at = ch.first().map_or(0, |c| c.start + 1);
                            return match book.verdict(id, ch.len(), at) {
                                0 => Ok(()),
                                1 => Err(ProductionError::Unparsed),
                                _ => Err(ProductionError::Validation(at.min(code.len()), String::from("!why"))),
                            };
                        }
                        let mut sum = 0;
                        for c in ch {
                            sum += c.node as usize + c.start + c.end
                        }
                        verdict(v, ch.len(), sum, code)
                    });
                    mk!(assign_debugger, if other { own(j).validate_with(f) } else { Validator::new(&ps[*j], f) })
                }
                G::Abs(id) => Rc::new(AbsProd { id: *id, book: self.book.clone() }),
                G::NonStr(j, f) => mk!(set_log, NonStructural::new(&ps[*j], *f)),
                G::Struct(j) => mk!(set_log, Structural::new(&ps[*j])),
                G::Cache(j) => mk!(assign_debugger, Cacheable::new(cache_key(i), &ps[*j])),
                // the lexerless terminals have i8 tokens: they are wrapped
                G::Const(s, n) => {
                    let x = ConstantField::new(s, *n);
                    if let Some(l) = log_of(log) {
                        x.assign_debugger(l).unwrap();
                    }
                    Rc::new(Ll(x))
                }
                G::CSet(v) => {
                    let x = ConstantFieldSet::new(v.clone());
                    if let Some(l) = log_of(log) {
                        x.assign_debugger(l).unwrap();
                    }
                    Rc::new(Ll(x))
                }
                #[cfg(feature = "rx")]
                G::Rx(x, n) => {
                    let x = RegexField::new(&crate::rex::anchored(x), *n).unwrap();
                    if let Some(l) = log_of(log) {
                        x.assign_debugger(l).unwrap();
                    }
                    Rc::new(Ll(x))
                }
                #[cfg(not(feature = "rx"))]
                G::Rx(..) => unreachable!(),
                G::Punct(v) => {
                    let x = PunctuationsField::new(v.clone()).unwrap();
                    if let Some(l) = log_of(log) {
                        x.assign_debugger(l).unwrap();
                    }
                    Rc::new(Ll(x))
                }
            };
            if ps[i].0.set(p).is_err() {
                unreachable!()
            }
        }
        ps
    }
}

/// 0: no log is set, 1: verbose, 2..5: the other levels, 6: any of them
pub fn log_of(level: usize) -> Option<Log<&'static str>> {
    Some(match if level == 6 { 1 + choose(5) } else { level } {
        0 => return None,
        1 => Log::Verbose("log"),
        2 => Log::Default("log"),
        3 => Log::Success("log"),
        4 => Log::Result("log"),
        _ => Log::None,
    })
}

fn verdict(v: V, n: usize, sum: usize, code: &[u8]) -> Result<(), ProductionError> {
    let hard = |p| Err(ProductionError::Validation(p, String::from("!why")));
    match v {
        V::Soft => Err(ProductionError::Unparsed),
        V::Hard(p) => hard(p),
        V::Even(p) if n % 2 != 0 => hard(p),
        V::Sum(p) if sum % 2 != 0 => hard(p),
        V::Code(_) if code.len() % 2 != 0 => Err(ProductionError::Unparsed),
        _ => Ok(()),
    }
}

/// A lexerless terminal (fixed to `i8` tokens) used in a grammar over `Tk`.
pub struct Ll<T>(pub T);
impl<T> Display for Ll<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ll")
    }
}
impl<T: IProduction<Node = u8, Token = i8>> IProduction for Ll<T> {
    type Node = u8;
    type Token = Tk;
    fn is_nullable(&self) -> bool {
        self.0.is_nullable()
    }
    fn is_nullable_n_hidden(&self) -> bool {
        self.0.is_nullable_n_hidden()
    }
    fn obtain_nullability<'id>(&'id self, v: HashMap<&'id str, usize>) -> Result<bool, ImplementationError> {
        self.0.obtain_nullability(v)
    }
    fn impl_first_set(&self, _: &mut HashSet<Tk>) {
        unreachable!()
    }
    fn impl_grammar(&self, w: &mut dyn Write, r: &mut HashSet<&'static str>) -> Result<(), std::fmt::Error> {
        self.0.impl_grammar(w, r)
    }
    fn validate<'id>(&'id self, c: HashMap<&'id str, usize>, v: &mut HashSet<&'id str>) -> Result<(), ImplementationError> {
        self.0.validate(c, v)
    }
    fn advance_fltr_ptr(&self, _: &Code, _: FltrPtr, _: &TokenStream<Tk>, _: &mut Cache<FltrPtr, u8>) -> ParsedResult<FltrPtr, u8> {
        unreachable!()
    }
    fn advance_token_ptr(&self, _: &Code, _: TokenPtr, _: &TokenStream<Tk>, _: &mut Cache<FltrPtr, u8>) -> ParsedResult<TokenPtr, u8> {
        unreachable!()
    }
    fn advance_ptr(&self, code: &Code, i: usize, c: &mut Cache<usize, u8>) -> ParsedResult<usize, u8> {
        self.0.advance_ptr(code, i, c)
    }
}

// ------------------------------------------------------------------------------------------- reference
#[derive(Clone)]
pub struct T {
    pub v: u8,
    pub start: usize,
    pub end: usize,
    pub bound: Option<(usize, usize)>,
    pub ch: Vec<T>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum E {
    Soft,
    Hard(usize),
}
#[derive(Clone, Copy, PartialEq)]
pub enum M {
    Filtered,
    Raw,
    Bytes,
}
pub struct Ref<'a> {
    pub g: &'a Gr,
    pub toks: &'a [Lex<Tk>],
    pub filt: Vec<usize>,
    pub code: &'a [u8],
    /// furthest end of a matched terminal
    pub max: usize,
    pub depth: usize,
}
pub type R = Result<(usize, Vec<T>), E>;

impl<'a> Ref<'a> {
    pub fn tokens(g: &'a Gr, toks: &'a [Lex<Tk>], code: &'a [u8]) -> Self {
        let mut filt = Vec::new();
        for (i, t) in toks.iter().enumerate() {
            if t.token.0 < NS {
                filt.push(i)
            }
        }
        Ref { g, toks, filt, code, max: 0, depth: 0 }
    }
    pub fn bytes(g: &'a Gr, code: &'a [u8]) -> Self {
        Ref { g, toks: &[], filt: Vec::new(), code, max: 0, depth: 0 }
    }
    fn raw(&self, m: M, p: usize) -> usize {
        if m == M::Filtered {
            self.filt[p]
        } else {
            p
        }
    }
    fn start(&self, m: M, p: usize) -> usize {
        if m == M::Bytes {
            p
        } else {
            self.toks[self.raw(m, p)].start
        }
    }
    fn bound(&self, m: M, p: usize, q: usize) -> Option<(usize, usize)> {
        if m == M::Bytes {
            None
        } else {
            Some((self.raw(m, p), self.raw(m, q)))
        }
    }
    fn reach(&mut self, p: usize) {
        if p > self.max {
            self.max = p
        }
    }
    /// a node which covers what lies between the positions `p` and `q`
    fn node(&self, m: M, v: u8, p: usize, q: usize, ch: Vec<T>) -> T {
        T { v, start: self.start(m, p), end: self.start(m, q), bound: self.bound(m, p, q), ch }
    }
    fn leaf(&self, m: M, v: Option<u8>, p: usize, q: usize) -> Vec<T> {
        match v {
            Some(v) => vec![self.node(m, v, p, q, Vec::new())],
            None => Vec::new(),
        }
    }
    fn token(&mut self, m: M, v: Option<u8>, p: usize) -> R {
        let r = self.raw(m, p);
        let l = &self.toks[r];
        let (s, e) = (l.start, l.end);
        self.reach(e);
        Ok((
            p + 1,
            match v {
                Some(v) => vec![T { v, start: s, end: e, bound: Some((r, r + 1)), ch: Vec::new() }],
                None => Vec::new(),
            },
        ))
    }
    fn string(&mut self, v: Option<u8>, p: usize, n: usize) -> R {
        self.reach(p + n);
        Ok((p + n, self.leaf(M::Bytes, v, p, p + n)))
    }
    fn at(&self, p: usize, s: &str) -> bool {
        let s = s.as_bytes();
        if self.code.len() - p < s.len() {
            return false;
        }
        let mut same = true;
        for i in 0..s.len() {
            same &= self.code[p + i] == s[i];
        }
        same
    }
    pub fn run(&mut self, i: usize, m: M, p: usize) -> R {
        self.depth += 1;
        if self.depth > 60 {
            // outside the bound: the harness grammars never get here
            check(false, "reference recursion bound");
        }
        let r = self.step(i, m, p);
        self.depth -= 1;
        r
    }
    fn step(&mut self, i: usize, m: M, p: usize) -> R {
        let gr = self.g;
        match &gr.n[i] {
            G::Tok(t, v) => {
                let r = self.raw(m, p);
                if self.toks[r].token.0 == *t {
                    self.token(m, *v, p)
                } else {
                    Err(E::Soft)
                }
            }
            G::Set(s) => {
                let r = self.raw(m, p);
                for (t, v) in s {
                    if self.toks[r].token.0 == *t {
                        return self.token(m, *v, p);
                    }
                }
                Err(E::Soft)
            }
            G::Null => Ok((p, self.leaf(m, Some(0), p, p))),
            G::NullHidden => Ok((p, Vec::new())),
            G::Eof(v) => {
                if m == M::Bytes {
                    if p == self.code.len() {
                        self.reach(p);
                        return Ok((p, self.leaf(m, *v, p, p)));
                    }
                    return Err(E::Soft);
                }
                let r = self.raw(m, p);
                if self.toks[r].token.0 == EOF {
                    let n = self.code.len();
                    self.reach(n);
                    Ok((
                        p,
                        match v {
                            Some(v) => vec![T { v: *v, start: n, end: n, bound: Some((r, r)), ch: Vec::new() }],
                            None => Vec::new(),
                        },
                    ))
                } else {
                    Err(E::Soft)
                }
            }
            G::Concat(s) => {
                let mut q = p;
                let mut ch = Vec::new();
                for j in s {
                    let (n, c) = self.run(*j, m, q)?;
                    q = n;
                    ch.extend(c);
                }
                Ok((q, ch))
            }
            G::Union(s) => {
                for j in s {
                    match self.run(*j, m, p) {
                        Err(E::Soft) => {}
                        r => return r,
                    }
                }
                Err(E::Soft)
            }
            G::Suffixes(l, standalone, s) => {
                let (q, mut ch) = self.run(*l, m, p)?;
                for (j, v) in s {
                    match self.run(*j, m, q) {
                        Err(E::Soft) => {}
                        Err(e) => return Err(e),
                        Ok((n, c)) => {
                            ch.extend(c);
                            return Ok((n, vec![self.node(m, *v, p, n, ch)]));
                        }
                    }
                }
                if *standalone {
                    Ok((q, ch))
                } else {
                    Err(E::Soft)
                }
            }
            G::List(j) => {
                let (mut q, mut ch) = self.run(*j, m, p)?;
                if q == p {
                    return Ok((q, ch));
                }
                loop {
                    match self.run(*j, m, q) {
                        Err(E::Soft) => return Ok((q, ch)),
                        Err(e) => return Err(e),
                        Ok((n, c)) => {
                            ch.extend(c);
                            if n == q {
                                return Ok((q, ch));
                            }
                            q = n;
                        }
                    }
                }
            }
            G::Sep(j, s, trailing) => {
                let (mut q, mut ch) = self.run(*j, m, p)?;
                loop {
                    let (n, c) = match self.run(*s, m, q) {
                        Err(E::Soft) => return Ok((q, ch)),
                        Err(e) => return Err(e),
                        Ok(x) => x,
                    };
                    match self.run(*j, m, n) {
                        Err(E::Soft) => {
                            if *trailing {
                                ch.extend(c);
                                return Ok((n, ch));
                            }
                            return Ok((q, ch));
                        }
                        Err(e) => return Err(e),
                        Ok((k, d)) => {
                            ch.extend(c);
                            ch.extend(d);
                            if k == q {
                                return Ok((q, ch));
                            }
                            q = k;
                        }
                    }
                }
            }
            G::Nullable(j) => match self.run(*j, m, p) {
                Err(E::Soft) => Ok((p, self.leaf(m, Some(0), p, p))),
                r => r,
            },
            G::NullableHidden(j) => match self.run(*j, m, p) {
                Err(E::Soft) => Ok((p, Vec::new())),
                r => r,
            },
            G::Node(j, v) => {
                let (q, ch) = self.run(*j, m, p)?;
                Ok((q, vec![self.node(m, *v, p, q, ch)]))
            }
            G::Hidden(j) => {
                let (q, _) = self.run(*j, m, p)?;
                Ok((q, Vec::new()))
            }
            G::Look(j, v) => {
                self.run(*j, m, p)?;
                Ok((p, self.leaf(m, *v, p, p)))
            }
            G::Valid(j, v) => {
                let (q, ch) = self.run(*j, m, p)?;
                if let V::Any(id) = v {
                    let at = ch.first().map_or(0, |c| c.start + 1);
                    return match self.g.book.verdict(*id, ch.len(), at) {
                        0 => Ok((q, ch)),
                        1 => Err(E::Soft),
                        _ => Err(E::Hard(at.min(self.code.len()))),
                    };
                }
                let mut sum = 0;
                for c in &ch {
                    sum += c.v as usize + c.start + c.end
                }
                match verdict(*v, ch.len(), sum, self.code) {
                    Ok(()) => Ok((q, ch)),
                    Err(ProductionError::Unparsed) => Err(E::Soft),
                    Err(ProductionError::Validation(x, _)) => Err(E::Hard(x)),
                }
            }
            G::NonStr(j, fill) => {
                if m != M::Filtered {
                    return self.run(*j, m, p);
                }
                let from = if p == 0 { 0 } else { self.filt[p - 1] + 1 };
                let (q, ch) = self.run(*j, M::Raw, from)?;
                if *fill && q != self.filt[p] {
                    return Err(E::Soft);
                }
                Ok((p, ch))
            }
            G::Struct(j) => {
                if m != M::Raw {
                    return self.run(*j, m, p);
                }
                let mut f = 0;
                while self.filt[f] < p {
                    f += 1;
                }
                let (q, ch) = self.run(*j, M::Filtered, f)?;
                Ok((if q > f { self.filt[q - 1] + 1 } else { p }, ch))
            }
            G::Cache(j) => self.run(*j, m, p),
            G::Abs(id) => {
                let tok = if m == M::Bytes { None } else { Some(self.toks[self.raw(m, p)].token.0) };
                let (x, r) = gr.book.run(*id, m, p, tok);
                self.reach(x);
                r
            }
            G::Const(s, v) => {
                if self.at(p, s) {
                    self.string(*v, p, s.len())
                } else {
                    Err(E::Soft)
                }
            }
            G::Rx(x, v) => match crate::rex::find(x, &self.code[p..]) {
                Some(n) => self.string(*v, p, n),
                None => Err(E::Soft),
            },
            G::CSet(s) | G::Punct(s) => {
                let mut best: Option<(usize, Option<u8>)> = None;
                for (w, v) in s {
                    if best.map_or(true, |(n, _)| w.len() > n) && self.at(p, w) {
                        best = Some((w.len(), *v));
                    }
                }
                match best {
                    Some((n, v)) => self.string(v, p, n),
                    None => Err(E::Soft),
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- comparison
pub fn same_shape(t: &[T], a: &[ASTNode<u8>]) -> bool {
    if t.len() != a.len() {
        return false;
    }
    for i in 0..t.len() {
        if t[i].v != a[i].node || !same_shape(&t[i].ch, &a[i].children) {
            return false;
        }
    }
    true
}
/// every span and bound is as in the reference tree
pub fn check_spans(t: &[T], a: &[ASTNode<u8>]) {
    for i in 0..t.len().min(a.len()) {
        check((t[i].start == a[i].start) & (t[i].end == a[i].end), "span of a node");
        let b = t[i].bound.map(|(x, y)| (TokenPtr::from(x), TokenPtr::from(y)));
        check(b == a[i].bound, "token bound of a node");
        check_spans(&t[i].ch, &a[i].children);
    }
}
pub fn fp(n: usize) -> FltrPtr {
    if n == 0 {
        FltrPtr::default()
    } else {
        FltrPtr::default() + n
    }
}
pub fn digest(a: &[ASTNode<u8>]) {
    for n in a {
        observe(n.node as u64);
        observe(n.start as u64);
        observe(n.end as u64);
        digest(&n.children);
    }
    observe(0xee);
}
