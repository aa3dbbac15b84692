//! Lexemes and tokenizers. Where the property is about what a combinator does with the lexemes it is given, these are
//! stubs whose answers are arbitrary (made up on demand, one per lexeme and position) within their contract.
use crate::gram::{log_of, EOF, Tk};
use crate::sym::*;
use lang_pt::lexeme::*;
use lang_pt::production::*;
use lang_pt::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// a word of ASCII bytes
fn word(len: usize) -> String {
    let mut v = Vec::new();
    for _ in 0..len {
        let b = any();
        assume(b < 128);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
fn prefix(w: &[u8], s: &[u8]) -> bool {
    w.len() <= s.len() && same(w, &s[..w.len()])
}
/// the longest of the words which starts the input, and its index
fn longest(ws: &[String], s: &[u8]) -> Option<(usize, usize)> {
    let mut best: Option<(usize, usize)> = None;
    for (i, w) in ws.iter().enumerate() {
        if best.map_or(true, |(_, n)| w.len() > n) && prefix(w.as_bytes(), s) {
            best = Some((i, w.len()));
        }
    }
    best
}

/// Sets a log; a second one is refused
macro_rules! logged {
    ($log:expr, $set:ident, $x:expr) => {
        if let Some(l) = $log {
            check($x.$set(l).is_ok(), "a log is refused");
            check($x.$set(Log::Verbose("other")).is_err(), "a second log is accepted");
        }
    };
}

/// Arbitrary word sets on arbitrary input. kind: 0 Punctuations, 1 Constants, 2 PunctuationsField,
/// 3 ConstantFieldSet, 4 ConstantField. Parameters: kind, most words, longest word, input length, level of the log.
#[no_mangle]
pub extern "C-unwind" fn h_words() {
    let (kind, nw, wl, n) = (param(0, 0), param(1, 2), param(2, 2), param(3, 3));
    let log = log_of(param(4, 0));
    let k = if kind == 4 { 1 } else { choose(nw) + 1 };
    let mut ws = Vec::new();
    for _ in 0..k {
        let l = choose(wl + 1);
        ws.push(word(l));
    }
    let mut dup = false;
    let mut empty = false;
    for i in 0..k {
        empty |= ws[i].is_empty();
        for j in 0..i {
            dup |= same(ws[i].as_bytes(), ws[j].as_bytes());
        }
    }
    let input: Vec<u8> = (0..n).map(|_| any()).collect();
    let p = choose(n + 1);
    let code = Code::new(&input);
    let (got, e): (Option<(usize, usize, usize)>, Option<(usize, usize)>) = match kind {
        0 | 1 => {
            let fields: Vec<(&str, u8)> = ws.iter().enumerate().map(|(i, w)| (w.as_str(), i as u8)).collect();
            let mut st: Vec<u8> = vec![3, 4];
            let lex: Box<dyn ILexeme<Token = TokU8, State = u8>> = if kind == 0 {
                let f = fields.iter().map(|(s, t)| (*s, TokU8(*t))).collect();
                match Punctuations::new(f) {
                    Err(_) => {
                        check(dup | empty, "a set of distinct punctuations is refused");
                        cover("refused");
                        return;
                    }
                    Ok(p) => {
                        check(!(dup | empty), "an ambiguous set of punctuations is accepted");
                        logged!(log, set_log, p);
                        Box::new(p)
                    }
                }
            } else {
                assume(!dup);
                let c = Constants::new(fields.iter().map(|(s, t)| (*s, TokU8(*t))).collect());
                logged!(log, set_log, c);
                Box::new(c)
            };
            let r = lex.consume(&code, p, &Vec::new(), &mut st);
            check(st.len() == 2 && st[0] == 3 && st[1] == 4, "the state stack changes");
            let e = longest(&ws, &input[p..]).filter(|(_, n)| *n > 0);
            (r.map(|l| (l.token.0 as usize, l.start, l.end)), e)
        }
        _ => {
            let fields: Vec<(&str, Option<u8>)> = ws.iter().enumerate().map(|(i, w)| (w.as_str(), Some(i as u8))).collect();
            let prod: Rc<dyn IProduction<Node = u8, Token = i8>> = match kind {
                2 if ws.len() == 1 && PunctuationsField::<u8, i8>::new(Vec::new()).is_ok() => {
                    check(false, "an empty set of punctuations is accepted");
                    return;
                }
                2 => match PunctuationsField::new(fields) {
                    Err(_) => {
                        check(dup, "a set of distinct punctuations is refused");
                        cover("refused");
                        return;
                    }
                    Ok(p) => {
                        check(!dup, "an ambiguous set of punctuations is accepted");
                        logged!(log, assign_debugger, p);
                        Rc::new(p)
                    }
                },
                3 => {
                    assume(!dup);
                    let c = ConstantFieldSet::new(fields);
                    logged!(log, assign_debugger, c);
                    Rc::new(c)
                }
                _ => {
                    assume(!empty);
                    let c = ConstantField::new(fields[0].0, fields[0].1);
                    logged!(log, assign_debugger, c);
                    Rc::new(c)
                }
            };
            check(prod.is_nullable() == empty, "nullability of the terminal");
            let mut cache = Cache::root();
            let e = longest(&ws, &input[p..]);
            match prod.advance_ptr(&code, p, &mut cache) {
                Ok(d) => {
                    check(d.children.len() == 1 && d.children[0].end == d.consumed_index, "end of the terminal");
                    check(cache.get_index() == d.consumed_index, "furthest position reached");
                    (Some((d.children[0].node as usize, d.children[0].start, d.consumed_index)), e)
                }
                Err(ProductionError::Unparsed) => (None, e),
                Err(_) => return check(false, "kind of the error"),
            }
        }
    };
    match (got, e) {
        (None, None) => cover("no match"),
        (Some((t, s, end)), Some((i, l))) => {
            cover("match");
            observe(t as u64);
            observe(end as u64);
            check(s == p && end == p + l, "longest match");
            check(t == i, "token of the match");
        }
        (None, Some(_)) => check(false, "a word at the position is not matched"),
        (Some(_), None) => check(false, "matched where no word is"),
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TokU8(pub u8);

// ------------------------------------------------------------------------------------------- stubs
/// answers of one stub lexeme by position: None is undecided
#[derive(Clone, Copy)]
pub struct Ans {
    /// 0: no match
    len: usize,
    tok: u8,
    /// an action: 0 none, 1 pop, 2.. append the state, 5.. switch to the state
    act: usize,
    discard: bool,
}
pub struct Book {
    a: RefCell<Vec<Vec<Option<Ans>>>>,
    n: usize,
    longest: usize,
    acts: bool,
    states: usize,
}
impl Book {
    pub fn new(lexemes: usize, n: usize, longest: usize, acts: bool, states: usize) -> Rc<Book> {
        Rc::new(Book { a: RefCell::new(vec![vec![None; n + 1]; lexemes]), n, longest, acts, states })
    }
    pub fn get(&self, id: usize, p: usize) -> Ans {
        let a = &mut self.a.borrow_mut()[id][p];
        if let Some(a) = a {
            return *a;
        }
        let left = self.n - p;
        let len = choose(1 + left.min(self.longest));
        let mut r = Ans { len, tok: 0, act: 0, discard: false };
        if len > 0 {
            r.tok = any();
            if self.acts {
                r.act = choose(2 + 2 * self.states);
                r.discard = flag();
            }
        }
        *a = Some(r);
        r
    }
}
pub struct Stub {
    id: usize,
    book: Rc<Book>,
    calls: Rc<Cell<usize>>,
}
impl ILexeme for Stub {
    type Token = Tk;
    type State = u8;
    fn consume(&self, code: &Code, p: usize, stream: &Vec<Lex<Tk>>, _: &mut Vec<u8>) -> Option<Lex<Tk>> {
        self.calls.set(self.calls.get() + 1);
        if code.value.len() != self.book.n || p > code.value.len() {
            check(false, "a lexeme is consulted outside the code");
            return None;
        }
        // what was tokenized so far reaches the position
        let mut q = 0;
        for l in stream {
            check(l.start == q && l.end > q, "stream passed to a lexeme");
            q = l.end;
        }
        check(q == p, "stream passed to a lexeme");
        let a = self.book.get(self.id, p);
        if a.len == 0 {
            None
        } else {
            Some(Lex { token: Tk(a.tok), start: p, end: p + a.len })
        }
    }
    fn get_grammar_field(&self) -> Vec<(Tk, String)> {
        Vec::new()
    }
}

fn check_tokens(real: Result<Vec<Lex<Tk>>, ParseError>, e: Result<Vec<Lex<Tk>>, usize>, code: &Code) {
    match (real, e) {
        (Ok(v), Ok(w)) => {
            cover("tokenized");
            check(v.len() == w.len(), "number of tokens");
            // the statement itself: contiguous, covering, with one end of input
            let mut p = 0;
            for (i, t) in v.iter().enumerate() {
                check(t.start == p, "tokens are contiguous");
                if i + 1 < v.len() {
                    check(t.end > p, "tokens are not empty");
                }
                p = t.end;
            }
            check(p == code.value.len(), "tokens cover the code");
            for i in 0..v.len().min(w.len()) {
                check(v[i].start == w[i].start && v[i].end == w[i].end, "bounds of a token");
                check(v[i].token == w[i].token, "token");
                observe(v[i].end as u64);
                observe(v[i].token.0 as u64);
            }
        }
        (Err(e), Err(p)) => {
            cover("refused");
            observe(e.pointer as u64);
            check(e.pointer == p, "position of the tokenization error");
            let pos = format!("{}", Code::new(code.value).obtain_position(p));
            check(e.message.contains(&pos), "line and column in the message");
        }
        (Ok(_), Err(_)) => check(false, "tokenized code which no lexeme matches"),
        (Err(_), Ok(_)) => check(false, "refused code which the lexemes match"),
    }
}

/// the code under stub lexemes: they do not look at it, the tokenizer has no reason to
fn some_text(n: usize, arbitrary: bool) -> Vec<u8> {
    if arbitrary {
        (0..n).map(|_| any()).collect()
    } else {
        b"a\nbc\nde"[..n].to_vec()
    }
}
/// Tokenizer over arbitrary lexemes: lexemes, code length, longest token, 1 arbitrary code
#[no_mangle]
pub extern "C-unwind" fn h_tokenizer() {
    let (k, n, longest) = (param(0, 2), param(1, 3), param(2, 2));
    let n = choose(n) + 1;
    let book = Book::new(k, n, longest, false, 0);
    let calls = Rc::new(Cell::new(0));
    let lx: Vec<Rc<dyn ILexeme<Token = Tk, State = u8>>> = (0..k)
        .map(|id| {
            let r: Rc<dyn ILexeme<Token = Tk, State = u8>> = Rc::new(Stub { id, book: book.clone(), calls: calls.clone() });
            r
        })
        .collect();
    let text = some_text(n, param(3, 0) != 0);
    let code = Code::new(&text);
    let real = Tokenizer::new(lx).tokenize(&code);
    let mut out = Vec::new();
    let mut p = 0;
    let mut fail = None;
    while p < n {
        let mut hit = None;
        for id in 0..k {
            let a = book.get(id, p);
            if a.len > 0 {
                hit = Some(a);
                break;
            }
        }
        match hit {
            Some(a) => {
                out.push(Lex { token: Tk(a.tok), start: p, end: p + a.len });
                p += a.len;
            }
            None => {
                fail = Some(p);
                break;
            }
        }
    }
    out.push(Lex { token: Tk(EOF), start: n, end: n });
    check_tokens(real, fail.map_or(Ok(out), Err), &code);
}

fn action(a: &Ans, states: usize) -> Action<u8> {
    let d = a.discard;
    match a.act {
        0 if !d => Action::default(),
        0 => Action::None { discard: d },
        1 => Action::remove(d),
        x if x < 2 + states => Action::append(x as u8 - 2, d),
        x => Action::switch((x - 2 - states) as u8, d),
    }
}
/// the effect of an action on the stack of states; false when there is nothing to pop
fn act(a: &Ans, states: usize, st: &mut Vec<u8>) -> bool {
    match a.act {
        0 => {}
        1 => {
            if st.pop().is_none() {
                return false;
            }
        }
        x if x < 2 + states => st.push(x as u8 - 2),
        x => {
            st.pop();
            st.push((x - 2 - states) as u8)
        }
    }
    true
}

/// CombinedTokenizer over arbitrary lexemes with arbitrary actions: states, lexemes per state, code length, longest token,
/// 1 arbitrary code
#[no_mangle]
pub extern "C-unwind" fn h_combined() {
    let (states, k, n, longest) = (param(0, 2), param(1, 1), param(2, 3), param(3, 1));
    let book = Book::new(states * k, n, longest, true, states);
    let default = choose(states);
    // the reference goes first: it decides the answers on the way, and a pop of the empty stack (a panic by design)
    // ends the case
    let mut out = Vec::new();
    let mut st: Vec<u8> = Vec::new();
    let mut p = 0;
    let mut fail = None;
    while p < n {
        let s = st.last().map_or(default, |s| *s as usize);
        let mut hit = None;
        for i in 0..k {
            let a = book.get(s * k + i, p);
            if a.len > 0 {
                assume(act(&a, states, &mut st));
                if !a.discard {
                    hit = Some(a);
                    break;
                }
            }
        }
        match hit {
            Some(a) => {
                out.push(Lex { token: Tk(a.tok), start: p, end: p + a.len });
                p += a.len;
            }
            None => {
                fail = Some(p);
                break;
            }
        }
    }
    out.push(Lex { token: Tk(EOF), start: n, end: n });

    let calls = Rc::new(Cell::new(0));
    let lexemes = |s: usize| -> Vec<Rc<dyn ILexeme<Token = Tk, State = u8>>> {
        (0..k)
            .map(|i| {
                let id = s * k + i;
                let b = book.clone();
                let stub = Stub { id, book: book.clone(), calls: calls.clone() };
                let r: Rc<dyn ILexeme<Token = Tk, State = u8>> = Rc::new(
                    stub.thunk_mixin(move |l: &Lex<Tk>, _: &[u8], _: &Vec<Lex<Tk>>| action(&b.get(id, l.start), states)),
                );
                r
            })
            .collect()
    };
    let mut t = CombinedTokenizer::new(default as u8, lexemes(default));
    // the other states are added in either order
    let up = flag();
    for j in 0..states {
        let s = if up { j } else { states - 1 - j };
        if s != default {
            t.add_state(s as u8, lexemes(s));
        }
    }
    let text = some_text(n, param(4, 0) != 0);
    let code = Code::new(&text);
    let real = t.tokenize(&code);
    check_tokens(real, fail.map_or(Ok(out), Err), &code);
}

/// One state action on an arbitrary stack, by StateMixin (0) and ThunkStateMixin (1): kind, states on the stack, level of the log
#[no_mangle]
pub extern "C-unwind" fn h_mixin() {
    let (kind, depth, log) = (param(0, 0), param(1, 3), log_of(param(2, 0)));
    let book = Book::new(1, 3, 2, true, 2);
    let d = choose(depth);
    let p = choose(3);
    let mut st: Vec<u8> = (0..d).map(|_| any()).collect();
    let mut e = st.clone();
    let stub = Stub { id: 0, book: book.clone(), calls: Rc::new(Cell::new(0)) };
    let code = Code::new(b"a\nb");
    let mut stream = Vec::new();
    for i in 0..p {
        stream.push(Lex { token: Tk(any()), start: i, end: i + 1 });
    }
    let a = book.get(0, p);
    let hit;
    let real = if kind == 0 {
        // two tokens with actions, in any order; the action of the second is to do nothing and to discard
        let (t1, t2) = (any(), any());
        assume(t1 != t2);
        hit = if a.len == 0 {
            None
        } else if a.tok == t1 {
            assume(act(&a, 2, &mut e));
            Some(!a.discard)
        } else if a.tok == t2 {
            Some(false)
        } else {
            Some(true)
        };
        let v = vec![(Tk(t1), action(&a, 2)), (Tk(t2), Action::None { discard: true })];
        let m = stub.state_mixin(v);
        logged!(log, set_log, m);
        m.consume(&code, p, &stream, &mut st)
    } else {
        hit = if a.len == 0 {
            None
        } else {
            assume(act(&a, 2, &mut e));
            Some(!a.discard)
        };
        let (b, sl) = (book.clone(), stream.len());
        let m = stub.thunk_mixin(move |l: &Lex<Tk>, c: &[u8], s: &Vec<Lex<Tk>>| {
            check(l.start == p && l.end == p + a.len && l.token.0 == a.tok, "token passed to the closure");
            check(c.len() == 3 && c[1] == b'\n', "code passed to the closure");
            check(s.len() == sl, "stream passed to the closure");
            action(&b.get(0, l.start), 2)
        });
        logged!(log, set_log, m);
        m.consume(&code, p, &stream, &mut st)
    };
    check(st.len() == e.len(), "depth of the state stack");
    for i in 0..st.len().min(e.len()) {
        check(st[i] == e[i], "state stack");
        observe(st[i] as u64);
    }
    match real {
        Some(l) => {
            cover("kept");
            check(hit == Some(true), "a discarded token is returned");
            check(l.start == p && l.end == p + a.len, "bounds of the token");
            check(l.token.0 == a.tok, "token");
        }
        None => {
            cover("none");
            check(hit != Some(true), "the token is lost")
        }
    }
}

/// Mapper (0), ThunkMapper (1) and Middleware (2) around an arbitrary lexeme: kind, code length, level of the log
#[no_mangle]
pub extern "C-unwind" fn h_wrap() {
    let (kind, n, log) = (param(0, 0), param(1, 3), log_of(param(2, 0)));
    let book = Book::new(1, n, n, false, 0);
    // the text decides about a mapping: it is explored per letter
    let text: Vec<u8> = (0..n).map(|_| [b'i', b'f', b'\n', 0xff][choose(if kind == 0 { 4 } else { 1 })]).collect();
    let p = choose(n + 1);
    let calls = Rc::new(Cell::new(0));
    let stub = Stub { id: 0, book: book.clone(), calls: calls.clone() };
    let code = Code::new(&text);
    let mut stream = Vec::new();
    for i in 0..p {
        stream.push(Lex { token: Tk(any()), start: i, end: i + 1 });
    }
    let mut st: Vec<u8> = vec![7];
    let a = book.get(0, p);
    let mut tok = a.tok;
    let mut none = a.len == 0;
    let sl = stream.len();
    let real = match kind {
        0 => {
            let (x, y, z) = (any(), any(), any());
            let m = match stub.mapping(vec![("i", Tk(x)), ("fi", Tk(y)), ("if", Tk(z))]) {
                Ok(m) => m,
                Err(_) => return check(false, "distinct words are refused"),
            };
            if !none {
                let w = &text[p..p + a.len];
                if same(w, b"i") {
                    tok = x
                } else if same(w, b"fi") {
                    tok = y
                } else if same(w, b"if") {
                    tok = z
                }
            }
            logged!(log, set_log, m);
            m.consume(&code, p, &stream, &mut st)
        }
        1 => {
            let (to, yes) = (any(), flag());
            if yes {
                tok = to
            }
            let m = stub.thunk_mapping(move |l: &Lex<Tk>, c: &[u8], s: &Vec<Lex<Tk>>| {
                check(l.start == p && l.end == p + a.len && l.token.0 == a.tok, "token passed to the closure");
                check(c.len() == n, "code passed to the closure");
                check(s.len() == sl, "stream passed to the closure");
                if yes {
                    Some(Tk(to))
                } else {
                    None
                }
            });
            logged!(log, set_log, m);
            m.consume(&code, p, &stream, &mut st)
        }
        _ => {
            let yes = flag();
            none |= !yes;
            let m = stub.middleware(move |c: &[u8], s: &Vec<Lex<Tk>>| {
                check(c.len() == n, "code passed to the closure");
                check(s.len() == sl, "stream passed to the closure");
                yes
            });
            logged!(log, set_log, m);
            let r = m.consume(&code, p, &stream, &mut st);
            check(yes == (calls.get() > 0), "lexeme consulted behind a middleware");
            r
        }
    };
    check(st.len() == 1 && st[0] == 7, "the state stack changes");
    match real {
        None => {
            cover("none");
            check(none, "the token is lost")
        }
        Some(l) => {
            cover("some");
            check(!none, "token where the lexeme answers none");
            observe(l.token.0 as u64);
            observe(l.end as u64);
            check(l.start == p && l.end == p + a.len, "bounds of the token");
            check(l.token.0 == tok, "token");
        }
    }
}

/// A mapping with a repeated word is refused, also when extended.
#[no_mangle]
pub extern "C-unwind" fn h_mapper_dup() {
    let ws = ["i", "if", "fi", ""];
    let (a, b, c) = (choose(4), choose(4), choose(4));
    let book = Book::new(1, 1, 1, false, 0);
    let stub = Stub { id: 0, book, calls: Rc::new(Cell::new(0)) };
    match stub.mapping(vec![(ws[a], Tk(1)), (ws[b], Tk(2))]) {
        Err(_) => {
            cover("refused");
            check(a == b, "distinct words are refused")
        }
        Ok(mut m) => {
            cover("made");
            check(a != b, "a repeated word is accepted");
            check(m.extend_fields(vec![(ws[c], Tk(3))]).is_ok() == (c != a && c != b), "extension of a mapping");
        }
    }
}

/// Real lexemes end to end: nested brackets switch between two states. Parameters: code length, level of the logs
#[no_mangle]
pub extern "C-unwind" fn h_nested() {
    let (n, log) = (param(0, 4), log_of(param(1, 0)));
    let input: Vec<u8> = (0..n).map(|_| any()).collect();
    let t = nested(log);
    let code = Code::new(&input);
    // the reference: outside, `a` is 1, `(` is 2 and enters; inside, `b` and `bb` are 3 and 4, `(` is 2 and enters,
    // `)` is 6 and leaves; `[` switches to the outside alphabet and `]` back
    let mut st: Vec<u8> = Vec::new();
    let mut out = Vec::new();
    let mut p = 0;
    let mut fail = None;
    while p < n {
        let outside = st.last().map_or(true, |s| *s == 0);
        let c = input[p];
        let (t, l) = if outside {
            match c {
                b'a' => (1, 1),
                b'(' => (2, 1),
                b']' => (7, 1),
                _ => {
                    fail = Some(p);
                    break;
                }
            }
        } else {
            match c {
                b'b' => {
                    if p + 1 < n && input[p + 1] == b'b' {
                        (4, 2)
                    } else {
                        (3, 1)
                    }
                }
                b'(' => (2, 1),
                b')' => (6, 1),
                b'[' => (8, 1),
                _ => {
                    fail = Some(p);
                    break;
                }
            }
        };
        match t {
            2 => st.push(1),
            6 => {
                st.pop();
            }
            7 => {
                if st.pop().is_none() {
                    // `]` at the top: the state is switched nevertheless
                }
                st.push(1)
            }
            8 => {
                st.pop();
                st.push(0)
            }
            _ => {}
        }
        out.push(Lex { token: Tk(t), start: p, end: p + l });
        p += l;
    }
    out.push(Lex { token: Tk(EOF), start: n, end: n });
    let real = t.tokenize(&code);
    check_tokens(real, fail.map_or(Ok(out), Err), &code);
}
fn nested(log: Option<Log<&'static str>>) -> CombinedTokenizer<Tk, u8> {
    let p0 = Punctuations::new(vec![("a", Tk(1)), ("(", Tk(2)), ("]", Tk(7))]).unwrap();
    let p1 = Constants::new(vec![("b", Tk(3)), ("bb", Tk(4)), ("(", Tk(2)), (")", Tk(6)), ("[", Tk(8))]);
    if let Some(v) = log {
        p0.set_log(v).unwrap();
        p1.set_log(v).unwrap();
    }
    let m0 = p0.state_mixin(vec![
        (Tk(7), Action::switch(1, false)),
        (Tk(2), Action::append(1, false)),
    ]);
    let m1 = p1.state_mixin(vec![
        (Tk(2), Action::append(1, false)),
        (Tk(8), Action::switch(0, false)),
        (Tk(6), Action::remove(false)),
    ]);
    if let Some(v) = log {
        m0.set_log(v).unwrap();
        m1.set_log(v).unwrap();
    }
    let mut t = CombinedTokenizer::new(0, vec![Rc::new(m0)]);
    t.add_state(1, vec![Rc::new(m1)]);
    if let Some(v) = log {
        t.set_log(v).unwrap();
    }
    t
}

/// A set of arbitrary tokens against an arbitrary token: most tokens in the set, raw
#[no_mangle]
pub extern "C-unwind" fn h_tokset() {
    let (k, raw) = (param(0, 3), param(1, 0) != 0);
    let k = choose(k) + 1;
    let set: Vec<u8> = (0..k).map(|_| any()).collect();
    for i in 0..k {
        assume(set[i] != EOF);
        for j in 0..i {
            assume(set[i] != set[j]);
        }
    }
    let hidden = choose(k + 1);
    let one = flag();
    let f: TokenFieldSet<u8, Tk> = if one {
        TokenFieldSet::with_value(Some(9), set.iter().map(|t| Tk(*t)).collect())
    } else {
        TokenFieldSet::new(
            set.iter().enumerate().map(|(i, t)| (Tk(*t), if i == hidden { None } else { Some(i as u8) })).collect(),
        )
    };
    let t = any();
    assume(t != EOF);
    if !raw {
        assume(Tk(t).is_structural());
    }
    let v = vec![Lex { token: Tk(t), start: 0, end: 2 }, Lex { token: Tk(EOF), start: 2, end: 2 }];
    let s = TokenStream::from(&v);
    let code = Code::new(b"ab");
    let mut cache = Cache::root();
    let r = if raw {
        f.advance_token_ptr(&code, TokenPtr::default(), &s, &mut cache).map(|d| (d.consumed_index == TokenPtr::from(1), d.children))
    } else {
        f.advance_fltr_ptr(&code, FltrPtr::default(), &s, &mut cache).map(|d| (d.consumed_index == crate::gram::fp(1), d.children))
    };
    let mut at = k;
    for i in 0..k {
        if set[i] == t {
            at = i
        }
    }
    match r {
        Ok((moved, ch)) => {
            cover("match");
            check(at < k, "a token outside the set is matched");
            check(moved, "one token is consumed");
            check(cache.get_index() == 2, "furthest position reached");
            if !one && at == hidden {
                check(ch.is_empty(), "a hidden token makes no node");
            } else {
                check(ch.len() == 1, "one node");
                check(ch[0].node == if one { 9 } else { at as u8 }, "value of the node");
                check(ch[0].start == 0 && ch[0].end == 2, "span of the node");
                check(ch[0].bound == Some((TokenPtr::from(0), TokenPtr::from(1))), "token bound of the node");
            }
        }
        Err(_) => {
            cover("no match");
            check(at == k, "a token of the set is not matched")
        }
    }
}
