//! The parsing harnesses: a subject combinator over every choice of small operands, run by the real productions and
//! by the reference interpreter on the same symbolic input.
use crate::gram::*;
use crate::sym::*;
use lang_pt::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

// what is compared
pub const KIND: usize = 1;
pub const SHAPE: usize = 2;
pub const SPAN: usize = 4;
pub const ERR: usize = 8;

// ------------------------------------------------------------------------------------------- operands
pub const ATOMS: usize = 27;
/// operands of the tokenized modes
pub fn atom_tok(g: &mut Gr, k: usize) -> usize {
    let v = 10 + 3 * k as u8;
    let t = |g: &mut Gr, t: u8, i: u8| g.add(G::Tok(t, Some(v + i)));
    match k {
        0 => t(g, A, 0),
        1 => t(g, B, 0),
        2 => g.add(G::Tok(B, None)),
        3 => g.add(G::NullHidden),
        4 => {
            let a = t(g, A, 0);
            g.add(G::Nullable(a))
        }
        5 => {
            let a = t(g, A, 0);
            let b = t(g, B, 1);
            g.add(G::Concat(vec![a, b]))
        }
        6 => g.add(G::Eof(Some(v))),
        7 => {
            let a = t(g, A, 0);
            g.add(G::List(a))
        }
        8 => {
            let a = t(g, A, 0);
            g.add(G::Look(a, Some(v + 1)))
        }
        9 => {
            let a = t(g, A, 0);
            g.add(G::Valid(a, V::Hard(1)))
        }
        10 => {
            let a = t(g, S, 0);
            g.add(G::NonStr(a, false))
        }
        11 => {
            let b = t(g, B, 0);
            g.add(G::NullableHidden(b))
        }
        12 => {
            let a = t(g, A, 0);
            let b = t(g, B, 1);
            g.add(G::Union(vec![a, b]))
        }
        13 => {
            let a = t(g, A, 0);
            let b = t(g, B, 1);
            g.add(G::Sep(a, b, false))
        }
        14 => {
            let a = t(g, A, 0);
            let b = t(g, B, 1);
            g.add(G::Suffixes(a, true, vec![(b, v + 2)]))
        }
        15 => g.add(G::Null),
        16 => {
            let a = t(g, A, 0);
            let b = t(g, B, 1);
            g.add(G::Sep(a, b, true))
        }
        17 => g.add(G::Set(vec![(A, Some(v)), (B, None), (C, Some(v + 1))])),
        18 => {
            let a = t(g, S, 0);
            let a = g.add(G::NonStr(a, true));
            g.add(G::Nullable(a))
        }
        19 => {
            let a = t(g, A, 0);
            g.add(G::Node(a, v + 1))
        }
        20 => {
            let a = t(g, A, 0);
            g.add(G::Hidden(a))
        }
        21 => {
            let a = t(g, A, 0);
            g.add(G::Struct(a))
        }
        22 => {
            let a = t(g, A, 0);
            g.add(G::Valid(a, V::Soft))
        }
        23 => {
            let a = t(g, A, 0);
            let b = t(g, B, 1);
            let c = g.add(G::Concat(vec![a, b]));
            g.add(G::Look(c, None))
        }
        24 => {
            let a = t(g, A, 0);
            let a = g.add(G::NullableHidden(a));
            let b = t(g, B, 1);
            g.add(G::Concat(vec![a, b]))
        }
        26 => {
            let b = g.add(G::Tok(B, None));
            let a = t(g, A, 0);
            g.add(G::Concat(vec![b, a]))
        }
        _ => {
            let s = t(g, S, 0);
            let s = g.add(G::Nullable(s));
            let b = t(g, W, 1);
            let c = g.add(G::Concat(vec![s, b]));
            g.add(G::NonStr(c, false))
        }
    }
}

pub const BYTE_ATOMS: usize = 25;
/// operands of the lexerless mode
pub fn atom_bytes(g: &mut Gr, k: usize) -> usize {
    let v = 10 + 3 * k as u8;
    let t = |g: &mut Gr, s: &'static str, i: u8| g.add(G::Const(s, Some(v + i)));
    match k {
        0 => t(g, "a", 0),
        1 => t(g, "b", 0),
        2 => g.add(G::Const("b", None)),
        3 => g.add(G::NullHidden),
        4 => {
            let a = t(g, "a", 0);
            g.add(G::Nullable(a))
        }
        5 => t(g, "ab", 0),
        6 => g.add(G::Eof(Some(v))),
        7 => {
            let a = t(g, "a", 0);
            g.add(G::List(a))
        }
        8 => {
            let a = t(g, "a", 0);
            g.add(G::Look(a, Some(v + 1)))
        }
        9 => {
            let a = t(g, "a", 0);
            g.add(G::Valid(a, V::Hard(1)))
        }
        10 => g.add(G::CSet(vec![("a", Some(v)), ("ab", Some(v + 1)), ("b", None)])),
        11 => {
            let b = t(g, "b", 0);
            g.add(G::NullableHidden(b))
        }
        12 => {
            let a = t(g, "ab", 0);
            let b = t(g, "b", 1);
            g.add(G::Union(vec![a, b]))
        }
        13 => {
            let a = t(g, "a", 0);
            let b = t(g, "b", 1);
            g.add(G::Sep(a, b, false))
        }
        14 => {
            let a = t(g, "a", 0);
            let b = t(g, "b", 1);
            g.add(G::Suffixes(a, true, vec![(b, v + 2)]))
        }
        15 => g.add(G::Null),
        16 => {
            let a = t(g, "a", 0);
            let b = t(g, "b", 1);
            g.add(G::Sep(a, b, true))
        }
        17 => g.add(G::Punct(vec![("a", Some(v)), ("aab", Some(v + 1)), ("b", None)])),
        18 => {
            let a = t(g, "a", 0);
            let b = t(g, "b", 0);
            g.add(G::Concat(vec![a, b]))
        }
        19 => {
            let a = t(g, "a", 0);
            g.add(G::Node(a, v + 1))
        }
        20 => {
            let a = t(g, "a", 0);
            g.add(G::Hidden(a))
        }
        21 => {
            let a = t(g, "a", 0);
            let a = g.add(G::NonStr(a, true));
            g.add(G::Struct(a))
        }
        22 => {
            let a = t(g, "a", 0);
            g.add(G::Valid(a, V::Soft))
        }
        24 => {
            let b = g.add(G::Const("b", None));
            let a = t(g, "a", 0);
            g.add(G::Concat(vec![b, a]))
        }
        _ => {
            let a = t(g, "ba", 0);
            g.add(G::Look(a, None))
        }
    }
}

// ------------------------------------------------------------------------------------------- subjects
pub const CONCAT2: usize = 0;
pub const CONCAT3: usize = 1;
pub const UNION2: usize = 2;
pub const UNION3: usize = 3;
pub const SUFFIXES1: usize = 4;
pub const SUFFIXES2: usize = 5;
pub const LIST: usize = 6;
pub const SEP: usize = 7;
pub const NULLABLE: usize = 8;
pub const NODE: usize = 9;
pub const HIDDEN: usize = 10;
pub const LOOK: usize = 11;
pub const VALID: usize = 12;
pub const NONSTR: usize = 13;
pub const STRUCT: usize = 14;
pub const ATOM: usize = 15;
pub const CONCAT1: usize = 16;
pub const EOFS: usize = 17;
pub const UNION4: usize = 18;
pub const SUFFIXES3: usize = 19;
pub const CONCAT4: usize = 20;
pub const CACHE: usize = 21;

/// One subject; `pick` adds one operand.
pub fn subject(g: &mut Gr, s: usize, pick: &mut dyn FnMut(&mut Gr) -> usize) -> usize {
    match s {
        CONCAT1 => {
            let a = pick(g);
            g.add(G::Concat(vec![a]))
        }
        CONCAT2 => {
            let a = pick(g);
            let b = pick(g);
            g.add(G::Concat(vec![a, b]))
        }
        CONCAT3 => {
            let a = pick(g);
            let b = pick(g);
            let c = pick(g);
            g.add(G::Concat(vec![a, b, c]))
        }
        UNION2 => {
            let a = pick(g);
            let b = pick(g);
            g.add(G::Union(vec![a, b]))
        }
        UNION3 => {
            let a = pick(g);
            let b = pick(g);
            let c = pick(g);
            g.add(G::Union(vec![a, b, c]))
        }
        SUFFIXES1 => {
            let a = pick(g);
            let b = pick(g);
            let st = flag();
            g.add(G::Suffixes(a, st, vec![(b, 101)]))
        }
        SUFFIXES2 => {
            let a = pick(g);
            let b = pick(g);
            let c = pick(g);
            let st = flag();
            g.add(G::Suffixes(a, st, vec![(b, 101), (c, 102)]))
        }
        LIST => {
            let a = pick(g);
            g.add(G::List(a))
        }
        SEP => {
            let a = pick(g);
            let b = pick(g);
            let inc = flag();
            g.add(G::Sep(a, b, inc))
        }
        NULLABLE => {
            let a = pick(g);
            if flag() {
                g.add(G::Nullable(a))
            } else {
                g.add(G::NullableHidden(a))
            }
        }
        NODE => {
            let a = pick(g);
            g.add(G::Node(a, 103))
        }
        HIDDEN => {
            let a = pick(g);
            g.add(G::Hidden(a))
        }
        LOOK => {
            let a = pick(g);
            let v = if flag() { Some(104) } else { None };
            g.add(G::Look(a, v))
        }
        VALID => {
            let a = pick(g);
            let v = if g.book.decl.borrow().is_empty() {
                [V::Ok, V::Soft, V::Hard(2), V::Even(1), V::Sum(1), V::Code(2)][choose(6)]
            } else {
                V::Any(g.n.len())
            };
            g.add(G::Valid(a, v))
        }
        NONSTR => {
            let a = pick(g);
            let f = flag();
            g.add(G::NonStr(a, f))
        }
        STRUCT => {
            let a = pick(g);
            g.add(G::Struct(a))
        }
        CONCAT4 => {
            let v = (0..4).map(|_| pick(g)).collect();
            g.add(G::Concat(v))
        }
        UNION4 => {
            let v = (0..4).map(|_| pick(g)).collect();
            g.add(G::Union(v))
        }
        SUFFIXES3 => {
            let a = pick(g);
            let v = (0..3).map(|i| (pick(g), 101 + i)).collect();
            let st = flag();
            g.add(G::Suffixes(a, st, v))
        }
        CACHE => {
            let a = pick(g);
            g.add(G::Cache(a))
        }
        EOFS => {
            let v = if flag() { Some(105) } else { None };
            g.add(G::Eof(v))
        }
        _ => pick(g),
    }
}

// the terminal `c`, which no operand except the token set matches
fn tc(g: &mut Gr, m: usize, v: Option<u8>) -> usize {
    if m == 2 {
        g.add(G::Const("c", v))
    } else {
        g.add(G::Tok(C, v))
    }
}
pub const CTX: usize = 10;
/// Places the subject in a context, so that it runs from positions other than the start, after failed alternatives,
/// and so that its nullability and first set decide what happens.
pub fn context(g: &mut Gr, m: usize, c: usize, s: usize) -> usize {
    match c {
        0 => s,
        // a prefix: the subject does not start at the beginning of the input
        1 => {
            let a = tc(g, m, Some(120));
            let a = g.add(G::Nullable(a));
            let b = if m == 2 { g.add(G::Const("b", Some(121))) } else { g.add(G::Tok(B, Some(121))) };
            g.add(G::Concat(vec![a, s, b]))
        }
        // the first alternative
        2 => {
            let a = tc(g, m, Some(122));
            g.add(G::Union(vec![s, a]))
        }
        // the second alternative, behind one which shares a prefix with many operands
        3 => {
            let a = if m == 2 { g.add(G::Const("a", Some(123))) } else { g.add(G::Tok(A, Some(123))) };
            let c = tc(g, m, Some(124));
            let x = g.add(G::Concat(vec![a, c]));
            g.add(G::Union(vec![x, s]))
        }
        // a suffix
        4 => {
            let a = tc(g, m, Some(125));
            g.add(G::Suffixes(a, true, vec![(s, 126)]))
        }
        // repeated
        5 => {
            let c = tc(g, m, Some(127));
            let x = g.add(G::Concat(vec![s, c]));
            g.add(G::List(x))
        }
        // behind a nullable production inside an alternative
        6 => {
            let a = tc(g, m, Some(128));
            let a = g.add(G::NullableHidden(a));
            let x = g.add(G::Concat(vec![a, s]));
            let b = if m == 2 { g.add(G::Const("b", Some(129))) } else { g.add(G::Tok(B, Some(129))) };
            g.add(G::Union(vec![x, b]))
        }
        // below a node and before the end of the input
        7 => {
            let x = g.add(G::Node(s, 130));
            let e = g.add(G::Eof(None));
            let x = g.add(G::Concat(vec![x, e]));
            g.add(G::Node(x, 131))
        }
        // the left of suffixes
        8 => {
            let a = tc(g, m, Some(132));
            let b = if m == 2 { g.add(G::Const("b", Some(133))) } else { g.add(G::Tok(B, Some(133))) };
            g.add(G::Suffixes(s, false, vec![(a, 134), (b, 135)]))
        }
        // between separators
        _ => {
            let a = tc(g, m, Some(136));
            g.add(G::Sep(s, a, true))
        }
    }
}

// ------------------------------------------------------------------------------------------- recursive grammars
pub const TEMPLATES: usize = 8;
pub fn template(g: &mut Gr, m: usize, k: usize) -> usize {
    let by = m == 2;
    let t = |g: &mut Gr, i: usize, v: Option<u8>| {
        if by {
            g.add(G::Const(["a", "b", "c"][i], v))
        } else {
            g.add(G::Tok([A, B, C][i], v))
        }
    };
    match k {
        // s = a s b | c
        0 => {
            let a = t(g, 0, Some(1));
            let b = t(g, 1, None);
            let c = t(g, 2, Some(2));
            let s = g.n.len();
            g.add(G::Union(vec![s + 1, c]));
            g.add(G::Concat(vec![a, s, b]));
            g.add(G::Node(s, 3))
        }
        // s = a s? b
        1 => {
            let a = t(g, 0, None);
            let b = t(g, 1, Some(1));
            let s = g.n.len();
            g.add(G::Concat(vec![a, s + 2, b]));
            g.add(G::Node(s, 2));
            g.add(G::Nullable(s + 1));
            s + 1
        }
        // v = a | b (v {c v})? b : nested comma lists
        2 => {
            let a = t(g, 0, Some(1));
            let b = t(g, 1, None);
            let c = t(g, 2, None);
            let v = g.n.len();
            g.add(G::Union(vec![a, v + 4]));
            g.add(G::Sep(v, c, false));
            g.add(G::NullableHidden(v + 1));
            g.add(G::Concat(vec![b, v + 2, c]));
            g.add(G::Node(v + 3, 2));
            let e = g.add(G::Eof(None));
            g.add(G::Concat(vec![v, e]))
        }
        // e = f { b e } ; f = a | c e c
        3 => {
            let a = t(g, 0, Some(1));
            let b = t(g, 1, Some(2));
            let c = t(g, 2, None);
            let e = g.n.len();
            g.add(G::Suffixes(e + 2, true, vec![(e + 1, 3)]));
            g.add(G::Concat(vec![b, e]));
            g.add(G::Union(vec![a, e + 3]));
            g.add(G::Concat(vec![c, e, c]));
            e
        }
        // x = a y ; y = b x | c
        4 => {
            let a = t(g, 0, Some(1));
            let b = t(g, 1, Some(2));
            let c = t(g, 2, Some(3));
            let x = g.n.len();
            g.add(G::Concat(vec![a, x + 2]));
            g.add(G::Concat(vec![b, x]));
            g.add(G::Union(vec![x + 1, x + 3]));
            g.add(G::Node(c, 4));
            x
        }
        // s = &a (a s | a) | b : lookahead in a recursion
        5 => {
            let a = t(g, 0, Some(1));
            let b = t(g, 1, Some(2));
            let l = g.add(G::Look(a, None));
            let s = g.n.len();
            g.add(G::Union(vec![s + 1, b]));
            g.add(G::Concat(vec![l, s + 2]));
            g.add(G::Union(vec![s + 3, a]));
            g.add(G::Concat(vec![a, s]));
            g.add(G::Node(s, 3))
        }
        // list of (a | b list c)
        6 => {
            let a = t(g, 0, Some(1));
            let b = t(g, 1, None);
            let c = t(g, 2, Some(2));
            let l = g.n.len();
            g.add(G::List(l + 1));
            g.add(G::Union(vec![a, l + 3]));
            g.add(G::Concat(vec![b, l, c]));
            g.add(G::Node(l + 2, 3));
            let e = g.add(G::Eof(Some(4)));
            g.add(G::Concat(vec![l, e]))
        }
        // s = (a b)? (b s)? : everything nullable
        _ => {
            let a = t(g, 0, Some(1));
            let b = t(g, 1, Some(2));
            let ab = g.add(G::Concat(vec![a, b]));
            let n = g.add(G::Nullable(ab));
            let s = g.n.len();
            g.add(G::Concat(vec![n, s + 2]));
            g.add(G::Concat(vec![b, s]));
            g.add(G::NullableHidden(s + 1));
            g.add(G::Node(s, 3))
        }
    }
}

// ------------------------------------------------------------------------------------------- inputs and comparison
/// the code below the token streams
pub static TEXT: [u8; 47] = *b"ab\ncd\nefghijklmn\nopqr\n\nstuvwxyzABCDEFGHIJKLMNOP";
/// `n` arbitrary tokens and the end of input; tokens have the lengths 1,2,1,2,...
pub fn tokens(n: usize) -> (Vec<Lex<Tk>>, usize) {
    let mut v = Vec::new();
    let mut p = 0;
    for i in 0..n {
        let t = any();
        assume(t != EOF);
        let e = p + 1 + i % 2;
        v.push(Lex { token: Tk(t), start: p, end: e });
        p = e;
    }
    v.push(Lex { token: Tk(EOF), start: p, end: p });
    (v, p)
}

pub fn validated(root: &P) {
    if root.validate(HashMap::new(), &mut HashSet::new()).is_err() {
        check(false, "a grammar without left recursion is rejected");
    }
}

pub trait Index {
    fn is(&self, p: usize) -> bool;
}
impl Index for FltrPtr {
    fn is(&self, p: usize) -> bool {
        *self == fp(p)
    }
}
impl Index for TokenPtr {
    fn is(&self, p: usize) -> bool {
        *self == TokenPtr::from(p)
    }
}
impl Index for usize {
    fn is(&self, p: usize) -> bool {
        *self == p
    }
}

pub fn compare<I: Index>(real: ParsedResult<I, u8>, r: R, proj: usize) {
    match (real, r) {
        (Ok(d), Ok((q, t))) => {
            cover("accepted");
            if proj & KIND != 0 {
                check(d.consumed_index.is(q), "consumed input");
            }
            if proj & SHAPE != 0 {
                check(same_shape(&t, &d.children), "parsed tree");
            }
            if proj & SPAN != 0 && same_shape(&t, &d.children) {
                check_spans(&t, &d.children);
                let range = t.first().map(|x| (x.start, t.last().unwrap().end));
                check(d.range() == range, "range of the result");
            }
            digest(&d.children);
        }
        (Err(ProductionError::Unparsed), Err(E::Soft)) => {
            cover("rejected");
            observe(0xfe)
        }
        (Err(ProductionError::Validation(p, why)), Err(E::Hard(q))) => {
            cover("aborted");
            observe(p as u64);
            check(p == q, "position of the validation error");
            check(why == "!why", "message of the validation")
        }
        // what is left is out of the scope of the span checks
        _ if proj & KIND == 0 => {}
        (Ok(_), Err(_)) => check(false, "accepted input the grammar does not derive"),
        (Err(_), Ok(_)) => check(false, "rejected input the grammar derives"),
        (Err(_), Err(_)) => check(false, "kind of the error"),
    }
}

/// A tokenizer which answers a fixed stream.
pub struct Fixed(pub Vec<Lex<Tk>>);
impl ITokenization for Fixed {
    type Token = Tk;
    fn tokenize(&self, _: &Code) -> Result<Vec<Lex<Tk>>, ParseError> {
        Ok(self.0.clone())
    }
    fn build_grammar(&self) -> Result<String, std::fmt::Error> {
        Ok(String::new())
    }
}

/// where the parser has to report an error
pub fn error_at(r: &Ref, m: M) -> usize {
    if m == M::Bytes {
        return r.max;
    }
    for f in &r.filt {
        if r.toks[*f].start >= r.max {
            return r.toks[*f].start;
        }
    }
    r.code.len()
}

/// the public parser entry points: trees and reported errors
pub fn compare_parser(real: Result<Vec<ASTNode<u8>>, ParseError>, rf: &Ref, r: R, m: M, proj: usize) {
    match (real, r) {
        (Ok(d), Ok((_, t))) => {
            cover("accepted");
            if proj & SHAPE != 0 {
                check(same_shape(&t, &d), "parsed tree");
            }
            if proj & SPAN != 0 && same_shape(&t, &d) {
                check_spans(&t, &d);
            }
            digest(&d);
        }
        (Err(e), Err(x)) => {
            let at = match x {
                E::Soft => {
                    cover("rejected");
                    error_at(rf, m)
                }
                E::Hard(p) => {
                    cover("aborted");
                    p
                }
            };
            observe(e.pointer as u64);
            if proj & ERR != 0 {
                check(e.pointer == at, "position of the error");
                let pos = format!("{}", Code::new(rf.code).obtain_position(at));
                check(e.message.contains(&pos), "line and column in the error message");
                if x == E::Soft {
                    let eof = at == rf.code.len();
                    check(eof == e.message.contains("end of file"), "error at the end of the input");
                    if !eof && m != M::Bytes {
                        let mut end = 0;
                        for t in rf.toks {
                            if t.start == at {
                                end = t.end
                            }
                        }
                        let s = format!("{:?}", String::from_utf8_lossy(&rf.code[at..end]));
                        check(e.message.contains(&s), "unexpected text in the error message");
                    }
                } else {
                    check(e.message.contains("!why"), "message of the validation");
                }
            }
        }
        // what is left is out of the scope of the span and error checks
        _ if proj & KIND == 0 => {}
        (Ok(_), Err(_)) => check(false, "accepted input the grammar does not derive"),
        (Err(_), Ok(_)) => check(false, "rejected input the grammar derives"),
    }
}

/// runs root on arbitrary input in one mode: 0 tokens, 1 all tokens, 2 bytes, 3 the parser, 4 the lexerless parser
pub fn run(g: &Gr, root: usize, mode: usize, n: usize, proj: usize) {
    let ps = g.build();
    let proot: Rc<P> = ps[root].clone();
    if mode <= 2 {
        validated(&proot);
    }
    match mode {
        0 | 1 | 3 => {
            let (ts, len) = tokens(n);
            let buf = &TEXT[..len];
            let mut rf = Ref::tokens(g, &ts, buf);
            if mode == 3 {
                let parser = match DefaultParser::new(Rc::new(Fixed(ts.clone())), proot) {
                    Ok(p) => p,
                    Err(_) => return check(false, "a grammar without left recursion is rejected"),
                };
                let real = parser.parse(buf);
                let r = rf.run(root, M::Filtered, 0);
                compare_parser(real, &rf, r, M::Filtered, proj);
                return;
            }
            let code = Code::new(buf);
            let s = TokenStream::from(&ts);
            let mut cache = Cache::root();
            if mode == 0 {
                let real = proot.advance_fltr_ptr(&code, FltrPtr::default(), &s, &mut cache);
                let r = rf.run(root, M::Filtered, 0);
                compare(real, r, proj);
            } else {
                let real = proot.advance_token_ptr(&code, TokenPtr::default(), &s, &mut cache);
                let r = rf.run(root, M::Raw, 0);
                compare(real, r, proj);
            }
        }
        _ => {
            let buf: Vec<u8> = (0..n).map(|_| any()).collect();
            if mode == 4 {
                // the message quotes the text: its decoding is not the subject
                for b in &buf {
                    assume(*b < 128);
                }
            }
            let mut rf = Ref::bytes(g, &buf);
            if mode == 4 {
                let parser = match LexerlessParser::new(proot) {
                    Ok(p) => p,
                    Err(_) => return check(false, "a grammar without left recursion is rejected"),
                };
                let real = parser.parse(&buf);
                let r = rf.run(root, M::Bytes, 0);
                compare_parser(real, &rf, r, M::Bytes, proj);
                return;
            }
            let code = Code::new(&buf);
            let mut cache = Cache::root();
            let real = proot.advance_ptr(&code, 0, &mut cache);
            let r = rf.run(root, M::Bytes, 0);
            compare(real, r, proj);
        }
    }
}
/// like `run`, for grammars with arbitrary productions: the tokens are of `kinds` kinds, the bytes do not matter
pub fn run_abs(g: &Gr, root: usize, mode: usize, n: usize, kinds: usize, proj: usize) {
    let ps = g.build();
    let proot: Rc<P> = ps[root].clone();
    g.book.reaches.set(proj & ERR != 0);
    if mode <= 2 {
        validated(&proot);
    }
    if lexerless(mode) {
        let buf = &TEXT[..n];
        g.book.bytes(n);
        let mut rf = Ref::bytes(g, buf);
        if mode == 4 {
            let parser = match LexerlessParser::new(proot) {
                Ok(p) => p,
                Err(_) => return check(false, "a grammar without left recursion is rejected"),
            };
            let real = parser.parse(buf);
            let r = rf.run(root, M::Bytes, 0);
            compare_parser(real, &rf, r, M::Bytes, proj);
        } else {
            let code = Code::new(buf);
            let mut cache = Cache::root();
            let real = proot.advance_ptr(&code, 0, &mut cache);
            let r = rf.run(root, M::Bytes, 0);
            compare(real, r, proj);
        }
        return;
    }
    let mut ts = Vec::new();
    let mut p = 0;
    for i in 0..n {
        let t = match kinds {
            1 => A,
            2 => [A, S][choose(2)],
            _ => [A, S, B][choose(3)],
        };
        let e = p + 1 + i % 2;
        ts.push(Lex { token: Tk(t), start: p, end: e });
        p = e;
    }
    ts.push(Lex { token: Tk(EOF), start: p, end: p });
    g.book.tokens(&ts);
    let buf = &TEXT[..p];
    let mut rf = Ref::tokens(g, &ts, buf);
    if mode == 3 {
        let parser = match DefaultParser::new(Rc::new(Fixed(ts.clone())), proot) {
            Ok(p) => p,
            Err(_) => return check(false, "a grammar without left recursion is rejected"),
        };
        let real = parser.parse(buf);
        let r = rf.run(root, M::Filtered, 0);
        compare_parser(real, &rf, r, M::Filtered, proj);
        return;
    }
    let code = Code::new(buf);
    let s = TokenStream::from(&ts);
    let mut cache = Cache::root();
    if mode == 0 {
        let real = proot.advance_fltr_ptr(&code, FltrPtr::default(), &s, &mut cache);
        let r = rf.run(root, M::Filtered, 0);
        compare(real, r, proj);
    } else {
        let real = proot.advance_token_ptr(&code, TokenPtr::default(), &s, &mut cache);
        let r = rf.run(root, M::Raw, 0);
        compare(real, r, proj);
    }
}
pub const NONE: usize = 99;
fn levels(g: &mut Gr, kinds: usize, ls: &[usize]) -> usize {
    match ls.first() {
        None | Some(&NONE) => g.arbitrary(kinds),
        Some(s) => subject(g, *s, &mut |g: &mut Gr| levels(g, kinds, &ls[1..])),
    }
}
/// Constructs over productions of which nothing is known: mode, input length, kinds of tokens, comparison,
/// children of a match (1 or 2), validation errors (0 no, 1 where the token can start the production, 2 anywhere), constructs from the outside to the inside
#[no_mangle]
pub extern "C-unwind" fn h_abs() {
    let (mode, n, kinds, proj) = (param(0, 0), param(1, 3), param(2, 1), param(3, 3));
    let mut g = Gr::new();
    g.book.kids.set(param(4, 2));
    g.book.hard.set(param(5, 1));
    let ls = [param(6, 99), param(7, 99), param(8, 99)];
    let root = levels(&mut g, kinds, &ls);
    run_abs(&g, root, mode, n, kinds, proj);
}
pub fn lexerless(mode: usize) -> bool {
    mode == 2 || mode == 4
}

/// subject, mode, operands, input length, comparison, context (CTX = choose), shard, shards
#[no_mangle]
pub extern "C-unwind" fn h_parse() {
    let (subj, mode, natoms, n) = (param(0, 0), param(1, 0), param(2, 8), param(3, 3));
    let (proj, ctx, shard, nsh) = (param(4, 3), param(5, 0), param(6, 0), param(7, 1));
    let mut g = Gr::new();
    let mut sum = 0;
    let mut pick = |g: &mut Gr| {
        let k = choose(natoms);
        sum += k;
        if lexerless(mode) {
            atom_bytes(g, k)
        } else {
            atom_tok(g, k)
        }
    };
    let s = subject(&mut g, subj, &mut pick);
    let m = if lexerless(mode) { 2 } else { 0 };
    let c = if ctx == CTX { choose(CTX) } else { ctx };
    assume((sum + c) % nsh == shard);
    let root = context(&mut g, m, c, s);
    run(&g, root, mode, n, proj);
}

/// a subject whose operands are subjects themselves: subject, inner subject, mode, operands, length, comparison, shard, shards
#[no_mangle]
pub extern "C-unwind" fn h_nest() {
    let (subj, inner, mode, natoms, n) = (param(0, 0), param(1, 0), param(2, 0), param(3, 4), param(4, 3));
    let (proj, shard, nsh) = (param(5, 3), param(6, 0), param(7, 1));
    let mut g = Gr::new();
    let mut sum = 0;
    let mut pick = |g: &mut Gr| {
        let mut pick = |g: &mut Gr| {
            let k = choose(natoms);
            sum += k;
            if lexerless(mode) {
                atom_bytes(g, k)
            } else {
                atom_tok(g, k)
            }
        };
        subject(g, inner, &mut pick)
    };
    let root = subject(&mut g, subj, &mut pick);
    assume(sum % nsh == shard);
    run(&g, root, mode, n, proj);
}

/// recursive grammars: template, mode, input length, comparison
#[no_mangle]
pub extern "C-unwind" fn h_rec() {
    let (k, mode, n, proj) = (param(0, 0), param(1, 0), param(2, 4), param(3, 3));
    let mut g = Gr::new();
    let root = template(&mut g, if lexerless(mode) { 2 } else { 0 }, k);
    run(&g, root, mode, n, proj);
}
