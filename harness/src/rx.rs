//! Regular expressions: what is run here is the regex crate as well.
use crate::gram::*;
use crate::parse::*;
use crate::rex::{self, X};
use crate::sym::*;
use lang_pt::lexeme::*;
use lang_pt::production::*;
use lang_pt::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// `n` bytes: arbitrary ones, or letters of `s` only
fn code_of(n: usize, s: &[u8]) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let b = any();
            if s.len() > 0 {
                let mut is = false;
                for x in s {
                    is |= b == *x;
                }
                assume(is);
            }
            b
        })
        .collect()
}
/// A pattern lexeme over arbitrary code: expression, length, bytes before the position, level of the log
#[no_mangle]
pub extern "C-unwind" fn h_pattern() {
    let x = rex::expr(param(0, 0));
    let n = choose(param(1, 3) + 1);
    let pre = choose(param(2, 0) + 1);
    lexeme(&x, n, pre, log_of(param(3, 0)))
}
fn lexeme(x: &X, n: usize, pre: usize, log: Option<Log<&'static str>>) {
    let nullable = rex::find(x, b"").is_some();
    let l = match Pattern::<Tk, u8>::new(Tk(7), &rex::anchored(x)) {
        Ok(l) => l,
        Err(_) => {
            check(nullable, "an expression is refused");
            cover("refused");
            return;
        }
    };
    check(!nullable, "an expression which matches nothing is not refused");
    if let Some(v) = log {
        l.set_log(v).unwrap();
    }
    let b = code_of(pre + n, b"");
    let c = Code::new(&b);
    let before = vec![Lex { token: Tk(3), start: 0, end: pre }];
    let mut states = vec![1, 2];
    let r = l.consume(&c, pre, &before, &mut states);
    check(states.len() == 2 && states[1] == 2, "a pattern changes the states");
    // an empty match is no token
    match (r, rex::find(x, &b[pre..]).filter(|e| *e > 0)) {
        (None, None) => {
            cover("no match");
            observe(0)
        }
        (Some(l), Some(e)) => {
            cover("match");
            observe(l.end as u64);
            check(l.start == pre && l.end == pre + e, "extent of a match");
            check(l.token == Tk(7), "token of a match");
        }
        (Some(_), None) => check(false, "a match of an expression which does not match"),
        (None, Some(_)) => check(false, "no match of an expression which matches"),
    }
}
/// A pattern lexeme with an arbitrary small expression: length, bytes before the position, kinds of elements
#[no_mangle]
pub extern "C-unwind" fn h_pattern_any() {
    let x = arbitrary(param(2, 4));
    let n = choose(param(0, 3) + 1);
    let pre = choose(param(1, 0) + 1);
    lexeme(&x, n, pre, None)
}
fn leaf(kinds: usize) -> X {
    match choose(kinds) {
        0 => X::Str("a"),
        1 => X::Str("b"),
        2 => X::Str("ab"),
        3 => rex::set("[ab]", &[('a', 'b')]),
        4 => rex::not("[^a]", &[('a', 'a')]),
        5 => rex::any_char(),
        _ => X::Str("é"),
    }
}
fn repeat(x: X) -> X {
    let b = Box::new(x);
    match choose(6) {
        0 => return *b,
        1 => X::Rep(b, 0, None, true),
        2 => X::Rep(b, 1, None, true),
        3 => X::Rep(b, 0, Some(1), true),
        4 => X::Rep(b, 0, None, false),
        _ => X::Rep(b, 1, Some(2), false),
    }
}
fn arbitrary(kinds: usize) -> X {
    let a = repeat(leaf(kinds));
    match choose(3) {
        0 => a,
        1 => X::Cat(vec![a, repeat(leaf(kinds))]),
        _ => X::Alt(vec![a, repeat(leaf(kinds))]),
    }
}

/// A regular expression terminal on its own: expression, length, bytes before the position, level of the log
#[no_mangle]
pub extern "C-unwind" fn h_field() {
    let x = rex::expr(param(0, 0));
    let n = choose(param(1, 3) + 1);
    let pre = choose(param(2, 0) + 1);
    let value = if flag() { Some(7u8) } else { None };
    let f = RegexField::<u8, i8>::new(&rex::anchored(&x), value);
    let Ok(f) = f else {
        check(false, "an expression is refused");
        return;
    };
    if let Some(v) = log_of(param(3, 0)) {
        f.assign_debugger(v).unwrap();
    }
    let nullable = rex::find(&x, b"").is_some();
    check(f.is_nullable() == nullable, "nullability of an expression");
    check(f.obtain_nullability(HashMap::new()).ok() == Some(nullable), "nullability of an expression");
    check(f.validate(HashMap::new(), &mut HashSet::new()).is_ok(), "validation of an expression");
    let b = code_of(pre + n, b"");
    let c = Code::new(&b);
    let mut g = Gr::new();
    g.add(G::Rx(Rc::new(x), value));
    let r = Ref::bytes(&g, &b).run(0, M::Bytes, pre);
    let mut cache = Cache::root();
    let d = f.advance_ptr(&c, pre, &mut cache);
    if pre == 0 {
        // furthest position, in an error
        let f = Rc::new(Concat::new("root", vec![Rc::new(f), Rc::new(ConstantField::new("~", None))]));
        let p = LexerlessParser::new(f).unwrap();
        g.add(G::Const("~", None));
        g.add(G::Concat(vec![0, 1]));
        let mut rf = Ref::bytes(&g, &b);
        let x = rf.run(2, M::Bytes, 0);
        compare_parser(p.parse(&b), &rf, x, M::Bytes, KIND | SHAPE | SPAN | ERR);
    }
    compare(d, r, KIND | SHAPE | SPAN)
}

/// A construct over regular expression terminals: construct, terminals, length, context, 0 productions 1 parser
#[no_mangle]
pub extern "C-unwind" fn h_rx() {
    let (s, natoms, n, ctx) = (param(0, 0), param(1, 4), param(2, 3), param(3, 0));
    let parser = param(4, 0) > 0;
    let proj = KIND | SHAPE | SPAN | ERR;
    let mut g = Gr::new();
    let root = subject(&mut g, s, &mut |g| {
        let k = choose(natoms);
        atom(g, k)
    });
    let root = context(&mut g, 2, if ctx > 0 { choose(ctx) } else { 0 }, root);
    crate::parse::run(&g, root, if parser { 4 } else { 2 }, n, proj)
}
fn atom(g: &mut Gr, k: usize) -> usize {
    let v = 10 + 3 * k as u8;
    match k {
        0 => g.add(G::Rx(Rc::new(rex::expr(0)), Some(v))),
        1 => g.add(G::Rx(Rc::new(rex::expr(20)), None)),
        2 => g.add(G::Const("b", Some(v))),
        3 => g.add(G::Rx(Rc::new(rex::expr(1)), Some(v))),
        4 => g.add(G::Rx(Rc::new(rex::expr(21)), Some(v))),
        5 => g.add(G::Rx(Rc::new(rex::expr(14)), Some(v))),
        6 => g.add(G::Rx(Rc::new(rex::expr(8)), None)),
        _ => g.add(G::Rx(Rc::new(rex::expr(23)), Some(v))),
    }
}

// ------------------------------------------------------------------------------------------- the JSON example
/// JSON as the example documents it: what is read, without the code of the crate. A node's end is where the next
/// token begins in a token stream, the end of its last character in the lexerless parser.
struct Json<'a> {
    c: &'a [u8],
    tokens: bool,
    exprs: [X; 4],
}
const STRING: u8 = 0;
const NUMBER: u8 = 1;
const CONSTANT: u8 = 2;
const ARRAY: u8 = 3;
const OBJECT: u8 = 4;
const ITEM: u8 = 5;
const MAIN: u8 = 6;
const NULL: u8 = 7;
const KEY: u8 = 8;
impl<'a> Json<'a> {
    fn new(c: &'a [u8], tokens: bool) -> Self {
        Json { c, tokens, exprs: [rex::star(rex::space()), rex::string(), rex::expr(4), rex::expr(7)] }
    }
    fn blanks(&self, p: usize) -> usize {
        p + rex::find(&self.exprs[0], &self.c[p..]).unwrap()
    }
    fn end(&self, p: usize) -> usize {
        if self.tokens {
            self.blanks(p)
        } else {
            p
        }
    }
    fn leaf(&self, v: u8, s: usize, e: usize) -> T {
        T { v, start: s, end: e, bound: None, ch: Vec::new() }
    }
    fn letter(&self, p: usize, x: u8) -> bool {
        p < self.c.len() && self.c[p] == x
    }
    fn value(&self, p: usize) -> Option<(usize, T)> {
        for (i, v) in [STRING, NUMBER, CONSTANT].into_iter().enumerate() {
            if let Some(n) = rex::find(&self.exprs[1 + i], &self.c[p..]) {
                return Some((p + n, self.leaf(v, p, p + n)));
            }
        }
        if self.letter(p, b'[') {
            let (q, ch) = self.list(p + 1, b']', &|s, p| s.value(p))?;
            return Some((q, T { v: ARRAY, start: p, end: self.end(q), bound: None, ch }));
        }
        if self.letter(p, b'{') {
            let (q, ch) = self.list(p + 1, b'}', &|s, p| s.item(p))?;
            return Some((q, T { v: OBJECT, start: p, end: self.end(q), bound: None, ch }));
        }
        None
    }
    fn item(&self, p: usize) -> Option<(usize, T)> {
        let q = p + rex::find(&self.exprs[1], &self.c[p..])?;
        let key = self.leaf(if self.tokens { KEY } else { STRING }, p, q);
        let q = self.blanks(q);
        if !self.letter(q, b':') {
            return None;
        }
        let (q, v) = self.value(self.blanks(q + 1))?;
        Some((q, T { v: ITEM, start: p, end: self.end(q), bound: None, ch: vec![key, v] }))
    }
    /// elements with commas in between, and perhaps a last one
    fn list(&self, p: usize, close: u8, one: &dyn Fn(&Self, usize) -> Option<(usize, T)>) -> Option<(usize, Vec<T>)> {
        let mut p = self.blanks(p);
        let mut ch = Vec::new();
        while let Some((q, t)) = one(self, p) {
            ch.push(t);
            p = self.blanks(q);
            if !self.letter(p, b',') {
                break;
            }
            p = self.blanks(p + 1);
        }
        if ch.is_empty() {
            // an optional list
            ch.push(self.leaf(NULL, p, p));
        }
        if self.letter(p, close) {
            Some((p + 1, ch))
        } else {
            None
        }
    }
    fn main(&self) -> Option<T> {
        let p = self.blanks(0);
        let (q, v) = self.value(p)?;
        let e = self.blanks(q);
        if e < self.c.len() {
            return None;
        }
        Some(T { v: MAIN, start: if self.tokens { p } else { 0 }, end: e, bound: None, ch: vec![v] })
    }
    /// the code consists of tokens
    fn tokenized(&self) -> bool {
        let mut p = 0;
        loop {
            p = self.blanks(p);
            if p == self.c.len() {
                return p > 0;
            }
            let n = match self.c[p] {
                b'{' | b'}' | b'[' | b']' | b',' | b':' => Some(1),
                _ => self.exprs[1..].iter().find_map(|x| rex::find(x, &self.c[p..])),
            };
            match n {
                Some(n) => p += n,
                None => return false,
            }
        }
    }
}
fn like<N: Copy>(t: &T, a: &ASTNode<N>, kind: &dyn Fn(N) -> u8) {
    check(t.v == kind(a.node), "kind of a node");
    check(t.ch.len() == a.children.len(), "number of children");
    check((t.start == a.start) & (t.end == a.end), "span of a node");
    observe(t.v as u64);
    observe(a.end as u64);
    for (x, y) in t.ch.iter().zip(a.children.iter()) {
        like(x, y, kind);
    }
}
/// The JSON parsers of the examples: 0 the lexerless one, 1 the tokenized one; length of the arbitrary part, what it consists of and
/// what is around it
#[no_mangle]
pub extern "C-unwind" fn h_json() {
    let n = param(1, 3);
    let tokens = param(0, 0) > 0;
    let letters: &[u8] = match param(2, 0) {
        0 => b"",
        1 => b"{}[],:\"1 ",
        2 => b"[],1 \n",
        3 => b"{}:\"1 ",
        4 => b"{}[]\",:",
        5 => b"\"\\ \r\n",
        6 => b"1e.+-0",
        7 => b"{}[], ",
        _ => b"",
    };
    // around arbitrary bytes
    let (before, after): (&str, &str) = match param(2, 0) {
        8 => ("\"", "\""),
        9 => ("[", "]"),
        10 => ("[1", "1]"),
        11 => ("{\"\":", "}"),
        12 => ("{\"\":1", "}"),
        13 => ("{\"\"", "1}"),
        14 => ("tru", ""),
        15 => ("[[]", "{}]"),
        16 => ("1", "1"),
        17 => ("[{\"\":[", "]}]"),
        _ => ("", ""),
    };
    let mut b = before.as_bytes().to_vec();
    b.extend(code_of(n, letters));
    b.extend(after.as_bytes());
    let b = b;
    let j = Json::new(&b, tokens);
    if tokens {
        use lang_pt::examples::json::tokenized::*;
        let p = json_grammar();
        let tokenizer = json_tokenizer();
        match (p.parse(&b), j.main()) {
            (Ok(a), Some(t)) => {
                cover("accepted");
                check(a.len() == 1, "one tree");
                like(&t, &a[0], &|n| match n {
                    JSONNode::String => STRING,
                    JSONNode::Number => NUMBER,
                    JSONNode::Constant => CONSTANT,
                    JSONNode::Array => ARRAY,
                    JSONNode::Object => OBJECT,
                    JSONNode::Item => ITEM,
                    JSONNode::Main => MAIN,
                    JSONNode::NULL => NULL,
                    JSONNode::Key => KEY,
                });
            }
            (Err(_), None) => {
                cover("rejected");
                observe(0xfe)
            }
            (Ok(_), None) => check(false, "what is not JSON is accepted"),
            (Err(_), Some(_)) => check(false, "JSON is rejected"),
        }
        check(tokenizer.tokenize(&Code::new(&b)).is_ok() == j.tokenized(), "code of tokens");
    } else {
        use lang_pt::examples::json::lexerless::*;
        let p = json_lexerless_grammar();
        match (p.parse(&b), j.main()) {
            (Ok(a), Some(t)) => {
                cover("accepted");
                check(a.len() == 1, "one tree");
                like(&t, &a[0], &|n| match n {
                    JSONNode::String => STRING,
                    JSONNode::Number => NUMBER,
                    JSONNode::Constant => CONSTANT,
                    JSONNode::Array => ARRAY,
                    JSONNode::Object => OBJECT,
                    JSONNode::Item => ITEM,
                    JSONNode::Main => MAIN,
                    JSONNode::NULL => NULL,
                });
            }
            (Err(_), None) => {
                cover("rejected");
                observe(0xfe)
            }
            (Ok(_), None) => check(false, "what is not JSON is accepted"),
            (Err(_), Some(_)) => check(false, "JSON is rejected"),
        }
    }
}
