//! Positions, token streams, trees, parsers as a whole, validation of grammars.
use crate::gram::*;
use crate::parse::*;
use crate::sym::*;
use lang_pt::lexeme::*;
use lang_pt::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

fn line_column(b: &[u8], p: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 1);
    for i in 0..p {
        if b[i] == b'\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    (line, col)
}
/// Line and column of every position of arbitrary text: longest text
#[no_mangle]
pub extern "C-unwind" fn h_position() {
    let n = choose(param(0, 5) + 1);
    let b: Vec<u8> = (0..n).map(|_| any()).collect();
    let c = Code::new(&b);
    // in any order: the line breaks are computed once
    let q = choose(n + 1);
    for p in [q, n - q] {
        let (l, k) = line_column(&b, p);
        let pos = c.obtain_position(p);
        check(pos.line == l, "line");
        check(pos.column == k, "column");
        observe(pos.line as u64);
        observe(pos.column as u64);
        let at = Position::from(&b[..p]);
        check(at == pos, "position at the end of a text");
    }
    let mut breaks = 0;
    for (i, x) in b.iter().enumerate() {
        if *x == b'\n' {
            check(breaks < c.obtain_line_breaks().len() && c.obtain_line_breaks()[breaks] == i, "line break");
            breaks += 1;
            cover("break");
        }
    }
    check(c.obtain_line_breaks().len() == breaks, "line breaks");
    cover("end");
}

fn same(v: &[&Lex<Tk>], want: &[usize], ts: &[Lex<Tk>]) -> bool {
    v.len() == want.len() && v.iter().zip(want).all(|(x, i)| std::ptr::eq(*x, &ts[*i]) || **x == ts[*i])
}
/// Lookups in an arbitrary token stream: most tokens
#[no_mangle]
pub extern "C-unwind" fn h_stream() {
    let n = choose(param(0, 4) + 1);
    let mut ts = Vec::new();
    let mut p = 0;
    for _ in 0..n {
        let t = any();
        assume(t != EOF);
        let e = p + 1 + choose(2);
        ts.push(Lex { token: Tk(t), start: p, end: e });
        p = e;
    }
    let len = p;
    ts.push(Lex { token: Tk(EOF), start: p, end: p });
    let s = TokenStream::from(&ts);
    let f: Vec<usize> = (0..=n).filter(|i| ts[*i].token.0 < NS).collect();
    check(s.length() == f.len(), "number of structural tokens");
    observe(f.len() as u64);
    for (k, i) in f.iter().enumerate() {
        let at = fp(k);
        check(s.get_token_ptr(at) == TokenPtr::from(*i), "structural token");
        check(s[at] == ts[*i] && s.get(at) == Some(&ts[*i]), "structural token");
        check(s.pointer(at) == ts[*i].start, "start of a structural token");
        check(s.has_stream(at), "a token of the stream is there");
        check(s.is_eos(at) == (*i == n), "end of the stream");
        let before = if k > 0 { Some(TokenPtr::from(f[k - 1])) } else { None };
        check(s.last_segment_index(&at) == before, "structural token before");
        check(s.find_filter_ptr(TokenPtr::from(*i)) == Ok(at), "index of a structural token");
        let rest: Vec<&Lex<Tk>> = s.iter_lex_at(at).collect();
        check(rest.len() == f.len() - k, "tokens from a position");
        for (x, y) in rest.iter().zip(&f[k..]) {
            check(**x == ts[*y], "tokens from a position");
        }
        let range: Vec<&Lex<Tk>> = s.iter_lex_range(fp(0), at).collect();
        check(same(&range, &f[..k], &ts), "tokens of a range");
        // moving
        for j in 0..f.len() {
            if j > k {
                check(at + (j - k) == fp(j), "a number of structural tokens ahead");
            } else {
                check(at - (k - j) == fp(j), "a number of structural tokens back");
            }
        }
        // a node over the tokens from one structural token to another
        for j in k..f.len() {
            let leaf = ASTNode::leaf(3u8, 0, 0, None);
            let d = s.create_node(at, 7u8, SuccessData::tree(fp(j), leaf));
            check(d.consumed_index == fp(j) && d.children.len() == 1, "a node made from tokens");
            let node = &d.children[0];
            check(node.node == 7 && node.start == ts[*i].start && node.end == ts[f[j]].start, "span of a node made from tokens");
            check(node.bound == Some((TokenPtr::from(*i), TokenPtr::from(f[j]))), "tokens of a node made from tokens");
            check(node.children.len() == 1 && node.children[0].node == 3, "children of a node made from tokens");
        }
    }
    check(!s.has_stream(fp(f.len())) && s.get(fp(f.len())).is_none(), "behind the end of the stream");
    check(s.eos_pointer() == len, "end of the code");
    let all: Vec<&Lex<Tk>> = s.iter_lex().collect();
    check(same(&all, &f, &ts), "all structural tokens");
    let every: Vec<usize> = (0..=n).collect();
    for i in 0..=n {
        check(s.is_eos_segment(TokenPtr::from(i)) == (i == n), "end of the stream");
        check(s[TokenPtr::from(i)] == ts[i], "token");
        // the next structural token
        let mut k = 0;
        while f[k] < i {
            k += 1;
        }
        let e = if f[k] == i { Ok(fp(k)) } else { Err(fp(k)) };
        check(s.find_filter_ptr(TokenPtr::from(i)) == e, "next structural token");
        check(s.find_filtered_index(&TokenPtr::from(i)) == e, "next structural token");
        let v: Vec<&Lex<Tk>> = s.iter_at(i).collect();
        check(same(&v, &every[i..], &ts), "tokens from a position");
        for j in i..=n {
            let v: Vec<&Lex<Tk>> = s.iter_range(i, j).collect();
            check(same(&v, &every[i..j], &ts), "tokens of a range");
            check(TokenPtr::from(i) + (j - i) == TokenPtr::from(j), "a number of tokens ahead");
            check(TokenPtr::from(j) - (j - i) == TokenPtr::from(i), "a number of tokens back");
        }
        check(TokenPtr::from(i).is_origin() == (i == 0), "first token");
    }
    check(TokenPtr::origin() == TokenPtr::from(0) && TokenPtr::default() == TokenPtr::from(0), "first token");
    check(s.get_segments().len() == n + 1, "all tokens");
    let text = &"abcdefghijklmnopqrstuvwxyz"[..len];
    let pairs = s.token_pair(text);
    check(pairs.len() == n + 1, "texts of the tokens");
    for (x, t) in pairs.iter().zip(&ts) {
        check(*x.0 == t.token && x.1 == &text[t.start..t.end], "texts of the tokens");
    }
    // by code pointer: the token which starts there, or else the next one
    let q = choose(len + 2);
    if q > len {
        // there is none: the last one is shown
        check(s.filtered_index_at(q) == Err(fp(f.len())), "structural token behind the code");
        check(s.filtered_data_at(q) == Err(&ts[n]), "structural token behind the code");
        check(s.lex_data_at(q) == Err(&ts[n]), "token behind the code");
        return cover("behind");
    }
    let mut k = 0;
    while ts[f[k]].start < q {
        k += 1;
    }
    let hit = ts[f[k]].start == q;
    let e = if hit { Ok(fp(k)) } else { Err(fp(k)) };
    check(s.filtered_index_at(q) == e, "structural token at a code position");
    let e = if hit { Ok(&ts[f[k]]) } else { Err(&ts[f[k]]) };
    check(s.filtered_data_at(q) == e, "structural token at a code position");
    let mut i = 0;
    while ts[i].start < q {
        i += 1;
    }
    let e = if ts[i].start == q { Ok(&ts[i]) } else { Err(&ts[i]) };
    check(s.lex_data_at(q) == e, "token at a code position");
    cover("end");
}

// ------------------------------------------------------------------------------------------- trees
fn tree(nodes: &mut usize, depth: usize) -> ASTNode<u8> {
    let v = any();
    *nodes -= 1;
    let mut ch = Vec::new();
    if depth > 0 {
        while *nodes > 0 && flag() {
            ch.push(tree(nodes, depth - 1));
        }
    }
    ASTNode::new(v, *nodes, *nodes + 1, None, ch)
}
fn preorder<'a>(t: &'a ASTNode<u8>, out: &mut Vec<&'a ASTNode<u8>>) {
    out.push(t);
    for c in &t.children {
        preorder(c, out);
    }
}
fn same_node(a: Option<&ASTNode<u8>>, b: Option<&ASTNode<u8>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => std::ptr::eq(a, b),
        (None, None) => true,
        _ => false,
    }
}
/// Searches in an arbitrary tree: most nodes, depth
#[no_mangle]
pub extern "C-unwind" fn h_tree() {
    let mut n = param(0, 5);
    let t = tree(&mut n, param(1, 3));
    let mut all = Vec::new();
    preorder(&t, &mut all);
    let x = any();
    let mut hits: Vec<&ASTNode<u8>> = Vec::new();
    for a in &all {
        if a.node == x {
            hits.push(a);
        }
    }
    observe(hits.len() as u64);
    check(same_node(t.find_tree_with_node(&x), hits.first().copied()), "first node with a value");
    check(same_node(t.find_tree(&|a| a.node == x), hits.first().copied()), "first node with a property");
    check(t.contains(&x) == !hits.is_empty(), "presence of a value");
    let l = t.list_tree_with_token(&x);
    check(l.len() == hits.len(), "all nodes with a value");
    let m = t.list_tree(&|a| a.node == x);
    check(m.len() == hits.len(), "all nodes with a property");
    for i in 0..hits.len() {
        check(i < l.len() && std::ptr::eq(l[i], hits[i]), "order of the nodes with a value");
        check(i < m.len() && std::ptr::eq(m[i], hits[i]), "order of the nodes with a property");
    }
    let mut child = None;
    for c in t.children.iter().rev() {
        if c.node == x {
            child = Some(c);
        }
    }
    check(same_node(t.get_child(&x), child), "first child with a value");
    // a chain of values: each is searched from the node found for the one before
    let y = any();
    let mut e = None;
    if let Some(h) = hits.first() {
        let mut sub = Vec::new();
        preorder(h, &mut sub);
        for a in sub.iter().rev() {
            if a.node == y {
                e = Some(*a);
            }
        }
    }
    check(same_node(t.find_nested_tree_with_node(&[x, y]), e), "nested search");
    check(same_node(t.find_nested_tree_with_node(&[]), Some(&t)), "empty nested search");
    cover("end");
}

/// What is printed of a node: its kind and span, and its children in order.
#[no_mangle]
pub extern "C-unwind" fn h_print() {
    use ptree::TreeItem;
    let (kind, start, len, n) = (choose(3), choose(12), choose(12), choose(3));
    let leaf = |i: usize| ASTNode::new(i as u8, i, i + 1, None, Vec::new());
    let t = ASTNode::new(kind as u8 * 50, start, start + len, Some((TokenPtr::default(), TokenPtr::default())), (0..n).map(leaf).collect());
    let mut out = Vec::new();
    check(t.write_self(&mut out, &ptree::Style::default()).is_ok(), "printing a node");
    let want = format!("{} # {}-{}", kind * 50, start, start + len);
    check(out == want.as_bytes(), "text of a node");
    let c = t.children();
    check(c.len() == n && (0..n).all(|i| c[i].node == i as u8 && c[i].start == i), "children which are printed");
    cover("end");
}

// ------------------------------------------------------------------------------------------- whole parsers
/// letters to tokens: `a` is 1 and so on
pub struct ByLetter;
fn letters(code: &[u8]) -> Vec<Lex<Tk>> {
    let mut v: Vec<Lex<Tk>> = code.iter().enumerate().map(|(i, c)| Lex { token: Tk(*c - b'`'), start: i, end: i + 1 }).collect();
    v.push(Lex { token: Tk(EOF), start: code.len(), end: code.len() });
    v
}
impl ITokenization for ByLetter {
    type Token = Tk;
    fn tokenize(&self, code: &Code) -> Result<Vec<Lex<Tk>>, ParseError> {
        Ok(letters(code.value))
    }
    fn build_grammar(&self) -> Result<String, std::fmt::Error> {
        Ok(String::new())
    }
}
fn text(n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let b = any();
            assume((b >= b'a') & (b < b'j') & (b != b'`' + EOF));
            b
        })
        .collect()
}
fn same_tree(a: &[ASTNode<u8>], b: &[ASTNode<u8>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        let (x, y) = (&a[i], &b[i]);
        if x.node != y.node || x.start != y.start || x.end != y.end || x.bound != y.bound || !same_tree(&x.children, &y.children) {
            return false;
        }
    }
    true
}
type Parsed = Result<Vec<ASTNode<u8>>, ParseError>;
fn same_result(a: &Parsed, b: &Parsed) {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            cover("accepted");
            check(same_tree(x, y), "the trees differ")
        }
        (Err(x), Err(y)) => {
            cover("rejected");
            check(x.pointer == y.pointer, "the error positions differ");
            check(x.message.as_bytes() == y.message.as_bytes(), "the error messages differ");
        }
        _ => check(false, "the results differ"),
    }
}
/// a grammar: a subject with operands (arbitrary ones for NONE), or (from 100 on) a recursive template
fn some_grammar(g: &mut Gr, m: usize, s: usize, natoms: usize, ctx: usize) -> usize {
    if s >= 100 {
        return template(g, m, s - 100);
    }
    let mut pick = |g: &mut Gr| {
        if natoms == NONE {
            return g.arbitrary(2);
        }
        let k = choose(natoms);
        if m == 2 {
            atom_bytes(g, k)
        } else {
            atom_tok(g, k)
        }
    };
    let x = subject(g, s, &mut pick);
    let c = if ctx == CTX { choose(CTX) } else { ctx };
    context(g, m, c, x)
}

/// A parser gives the same answer whatever it parsed before: subject, lexerless, operands, length, context
#[no_mangle]
pub extern "C-unwind" fn h_history() {
    let (s, lexerless, natoms, n, ctx) = (param(0, 100), param(1, 0) != 0, param(2, 8), param(3, 2), param(4, 0));
    let mut g = Gr::new();
    let root = some_grammar(&mut g, if lexerless { 2 } else { 0 }, s, natoms, ctx);
    let (x, y) = (text(n), text(n));
    let (r1, r2, r3, f);
    if lexerless {
        let mk = || LexerlessParser::new(g.build()[root].clone() as Rc<P>);
        let (p, q) = match (mk(), mk()) {
            (Ok(p), Ok(q)) => (p, q),
            _ => return check(false, "a grammar without left recursion is rejected"),
        };
        r1 = p.parse(&x);
        r2 = p.parse(&y);
        r3 = p.parse(&x);
        f = q.parse(&y);
    } else {
        let mk = || DefaultParser::new(Rc::new(ByLetter), g.build()[root].clone() as Rc<P>);
        let (p, q) = match (mk(), mk()) {
            (Ok(p), Ok(q)) => (p, q),
            _ => return check(false, "a grammar without left recursion is rejected"),
        };
        r1 = p.parse(&x);
        r2 = p.parse(&y);
        r3 = match p.tokenize_n_parse(&x) {
            Ok((_, t)) => Ok(t),
            Err(e) => Err(e),
        };
        f = q.parse(&y);
    }
    same_result(&r1, &r3);
    same_result(&r2, &f);
}

/// The same productions, with logs or made in the other ways: subject, mode (0 or 4), operands, length, context,
/// 1 logs / 2 other construction, level of the logs
#[no_mangle]
pub extern "C-unwind" fn h_variant() {
    let (s, mode, natoms, n, ctx, how) = (param(0, 0), param(1, 0), param(2, 8), param(3, 3), param(4, 0), param(5, 1));
    let level = param(6, 1);
    let mut g = Gr::new();
    let lexerless = mode != 0;
    let root = some_grammar(&mut g, if lexerless { 2 } else { 0 }, s, natoms, ctx);
    // other bytes are tokens without structure
    let x: Vec<u8> = (0..n)
        .map(|_| {
            let b = any();
            assume(((b >= b'a') & (b < b'j') & (b != b'`' + EOF)) | (b == 0xe9));
            b
        })
        .collect();
    if natoms == NONE {
        g.book.reaches.set(true);
        g.book.hard.set(2);
        if lexerless {
            g.book.bytes(n)
        } else {
            g.book.tokens(&letters(&x))
        }
    }
    let p1 = g.build()[root].clone() as Rc<P>;
    let p2 = g.build_with(if how & 1 != 0 { level } else { 0 }, how & 2 != 0)[root].clone() as Rc<P>;
    if lexerless {
        match (LexerlessParser::new(p1), LexerlessParser::new(p2)) {
            (Ok(p), Ok(q)) => same_result(&p.parse(&x), &q.parse(&x)),
            _ => check(false, "a grammar without left recursion is rejected"),
        }
    } else {
        match (DefaultParser::new(Rc::new(ByLetter), p1), DefaultParser::new(Rc::new(ByLetter), p2)) {
            (Ok(p), Ok(q)) => same_result(&p.parse(&x), &q.parse(&x)),
            _ => check(false, "a grammar without left recursion is rejected"),
        }
    }
}

/// the same grammar over letters instead of tokens
fn lettered(g: &Gr) -> Gr {
    let l = |t: &u8| ["", "a", "b", "c"][*t as usize];
    let mut h = Gr::new();
    for x in &g.n {
        h.add(match x {
            G::Tok(t, v) => G::Const(l(t), *v),
            G::Set(v) => G::CSet(v.iter().map(|(t, v)| (l(t), *v)).collect()),
            x => x.clone(),
        });
    }
    h
}
/// operands without tokens which are not structural
static LETTERS: [usize; 23] = [0, 2, 26, 20, 14, 11, 8, 7, 4, 17, 13, 9, 19, 6, 5, 3, 16, 12, 24, 22, 23, 15, 21];
/// The tokenized and the lexerless parser of the same grammar over single letters: template (or subject from 100 on),
/// length, operands, context
#[no_mangle]
pub extern "C-unwind" fn h_agree() {
    let (k, n) = (param(0, 0), param(1, 4));
    let (mut g, mut h) = (Gr::new(), Gr::new());
    let (rg, rh) = if k < 100 {
        (template(&mut g, 0, k), template(&mut h, 2, k))
    } else {
        let s = subject(&mut g, k - 100, &mut |g: &mut Gr| {
            let a = LETTERS[choose(param(2, 6))];
            atom_tok(g, a)
        });
        let c = if param(3, 0) == CTX { choose(CTX) } else { param(3, 0) };
        let r = context(&mut g, 0, c, s);
        h = lettered(&g);
        (r, r)
    };
    let x: Vec<u8> = (0..n).map(|_| any()).collect();
    for b in &x {
        assume(*b < 128);
    }
    let lex = Punctuations::<Tk, u8>::new(vec![("a", Tk(A)), ("b", Tk(B)), ("c", Tk(C))]).unwrap();
    let t = Tokenizer::new(vec![Rc::new(lex)]);
    let (p, q) = match (
        DefaultParser::new(Rc::new(t), g.build()[rg].clone() as Rc<P>),
        LexerlessParser::new(h.build()[rh].clone() as Rc<P>),
    ) {
        (Ok(p), Ok(q)) => (p, q),
        _ => return check(false, "a grammar without left recursion is rejected"),
    };
    let mut foreign = n;
    for i in (0..n).rev() {
        if !((x[i] == b'a') | (x[i] == b'b') | (x[i] == b'c')) {
            foreign = i;
        }
    }
    match p.tokenize(&Code::new(&x)) {
        Err(e) => {
            cover("foreign letter");
            check(e.pointer == foreign, "position of the foreign letter");
        }
        Ok(_) => {
            check(foreign == n, "a foreign letter is tokenized");
            match (p.parse(&x), q.parse(&x)) {
                (Ok(a), Ok(b)) => {
                    cover("accepted");
                    check(same_letters(&a, &b), "the trees differ");
                }
                (Err(a), Err(b)) => {
                    cover("rejected");
                    check(a.pointer == b.pointer, "the error positions differ");
                }
                _ => check(false, "one parser accepts and the other rejects"),
            }
        }
    }
}
fn same_letters(a: &[ASTNode<u8>], b: &[ASTNode<u8>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        let (x, y) = (&a[i], &b[i]);
        if x.node != y.node || x.start != y.start || x.end != y.end || !same_letters(&x.children, &y.children) {
            return false;
        }
    }
    true
}

/// From bytes to tree through the real tokenizer: template, length. Spaces are tokens without structure.
#[no_mangle]
pub extern "C-unwind" fn h_bytes() {
    let (k, n) = (param(0, 0), param(1, 4));
    let mut g = Gr::new();
    let root = template(&mut g, 0, k);
    let x: Vec<u8> = (0..n).map(|_| any()).collect();
    let lex = Punctuations::<Tk, u8>::new(vec![("a", Tk(A)), ("b", Tk(B)), ("c", Tk(C)), ("ab", Tk(S))]).unwrap();
    let sp = Constants::<Tk, u8>::new(vec![(" ", Tk(S)), ("\n ", Tk(W)), ("\n", Tk(S))]);
    let t = Tokenizer::new(vec![Rc::new(lex), Rc::new(sp)]);
    let p = match DefaultParser::new(Rc::new(t), g.build()[root].clone() as Rc<P>) {
        Ok(p) => p,
        _ => return check(false, "a grammar without left recursion is rejected"),
    };
    // the reference tokenizer
    let mut ts = Vec::new();
    let mut at = 0;
    while at < n {
        let next = if at + 1 < n { x[at + 1] } else { 0 };
        let (t, l) = match x[at] {
            b'a' if next == b'b' => (S, 2),
            b'a' => (A, 1),
            b'b' => (B, 1),
            b'c' => (C, 1),
            b' ' => (S, 1),
            b'\n' if next == b' ' => (W, 2),
            b'\n' => (S, 1),
            _ => {
                cover("not tokenized");
                match p.parse(&x) {
                    Ok(_) => check(false, "accepted code which has no tokens"),
                    Err(e) => check(e.pointer == at, "position of the tokenization error"),
                }
                return;
            }
        };
        ts.push(Lex { token: Tk(t), start: at, end: at + l });
        at += l;
    }
    ts.push(Lex { token: Tk(EOF), start: n, end: n });
    let real = p.tokenize_n_parse(&x);
    let real = match real {
        Ok((v, t)) => {
            check(v.len() == ts.len(), "number of tokens");
            for i in 0..v.len().min(ts.len()) {
                check(v[i] == ts[i], "token");
            }
            Ok(t)
        }
        Err(e) => Err(e),
    };
    let mut rf = Ref::tokens(&g, &ts, &x);
    let r = rf.run(root, M::Filtered, 0);
    compare_parser(real, &rf, r, M::Filtered, KIND | SHAPE | SPAN | ERR);
}

/// Running one production at a position for debugging: subject, lexerless, operands, length
#[cfg(debug_assertions)]
#[no_mangle]
pub extern "C-unwind" fn h_debug() {
    let (s, lexerless, natoms, n) = (param(0, 0), param(1, 0) != 0, param(2, 8), param(3, 3));
    let mut g = Gr::new();
    let m = if lexerless { 2 } else { 0 };
    g.book.reaches.set(true);
    g.book.hard.set(2);
    let sub = some_grammar(&mut g, m, s, natoms, 0);
    let other = g.add(G::Null);
    let root = g.add(G::Union(vec![sub, other]));
    let ps = g.build();
    let proot = ps[root].clone() as Rc<P>;
    if lexerless {
        let x = text(n);
        let q = choose(n + 1);
        g.book.bytes(n);
        let mut p = match LexerlessParser::new(proot) {
            Ok(p) => p,
            Err(_) => return check(false, "a grammar without left recursion is rejected"),
        };
        p.add_debug_production("other", &ps[other]);
        p.add_debug_production("sub", &ps[sub]);
        check(p.debug_parser_at("none", &x, q).is_err(), "an unknown production is run");
        let mut rf = Ref::bytes(&g, &x);
        rf.max = q;
        let r = rf.run(sub, M::Bytes, q);
        compare_parser(p.debug_parser_at("sub", &x, q), &rf, r, M::Bytes, KIND | SHAPE | SPAN | ERR);
    } else {
        let (ts, len) = tokens(n);
        let x = &TEXT[..len];
        let q = choose(len + 1);
        g.book.tokens(&ts);
        let mut p = match DefaultParser::new(Rc::new(Fixed(ts.clone())), proot) {
            Ok(p) => p,
            Err(_) => return check(false, "a grammar without left recursion is rejected"),
        };
        p.add_debug_production("other", &ps[other]);
        p.add_debug_production("sub", &ps[sub]);
        check(p.debug_production_at("none", x, q).is_err(), "an unknown production is run");
        let mut rf = Ref::tokens(&g, &ts, x);
        rf.max = q;
        let mut k = 0;
        while ts[rf.filt[k]].start < q {
            k += 1;
        }
        let r = rf.run(sub, M::Filtered, k);
        compare_parser(p.debug_production_at("sub", x, q), &rf, r, M::Filtered, KIND | SHAPE | SPAN | ERR);
    }
}

/// Cached productions: the same productions behind several alternatives. operands, mode, length, shard, shards
#[no_mangle]
pub extern "C-unwind" fn h_cache() {
    let (natoms, mode, n, shard, nsh) = (param(0, 8), param(1, 0), param(2, 3), param(3, 0), param(4, 1));
    let m = if lexerless(mode) { 2 } else { 0 };
    let mut g = Gr::new();
    let (i, j) = (choose(natoms), choose(natoms));
    assume((i + j) % nsh == shard);
    let atom = |g: &mut Gr, k| if m == 2 { atom_bytes(g, k) } else { atom_tok(g, k) };
    let arbitrary = natoms == 0;
    let (x, y) = if arbitrary {
        g.book.hard.set(param(5, 1));
        g.book.kids.set(param(6, 1));
        g.book.once.set(true);
        (g.arbitrary(2), g.arbitrary(2))
    } else {
        (atom(&mut g, i), atom(&mut g, j))
    };
    let c = if m == 2 { g.add(G::Const("c", Some(1))) } else { g.add(G::Tok(C, Some(1))) };
    let kx = g.add(G::Cache(x));
    let ky = g.add(G::Cache(y));
    let root = match choose(4) {
        // x c | y x | x y | x
        0 => {
            let a = g.add(G::Concat(vec![kx, c]));
            let b = g.add(G::Concat(vec![ky, kx]));
            let d = g.add(G::Concat(vec![kx, ky]));
            g.add(G::Union(vec![a, b, d, kx]))
        }
        // &(x y) x y y | y (x | y)
        1 => {
            let a = g.add(G::Concat(vec![kx, ky]));
            let l = g.add(G::Look(a, None));
            let a = g.add(G::Concat(vec![l, kx, ky, ky]));
            let u = g.add(G::Union(vec![kx, ky]));
            let b = g.add(G::Concat(vec![ky, u]));
            g.add(G::Union(vec![a, b]))
        }
        // one cached production around another: z = (x y), z c | z
        2 => {
            let a = g.add(G::Concat(vec![kx, ky]));
            let z = g.add(G::Cache(a));
            let b = g.add(G::Concat(vec![z, c]));
            g.add(G::Union(vec![b, z, ky]))
        }
        // as nodes of different values
        _ => {
            let a = g.add(G::Node(kx, 2));
            let b = g.add(G::Hidden(kx));
            let e = g.add(G::Concat(vec![a, c]));
            let f = g.add(G::Concat(vec![b, ky]));
            g.add(G::Union(vec![e, f, a]))
        }
    };
    if arbitrary {
        run_abs(&g, root, mode, n, 2, KIND | SHAPE | SPAN | if mode > 2 { ERR } else { 0 });
    } else {
        run(&g, root, mode, n, KIND | SHAPE | SPAN | ERR);
    }
}

// ------------------------------------------------------------------------------------------- left recursion
/// can the node match without consuming anything
/// `zero`: what non-structural symbols consume does not count (structural tokens are not among it)
fn empties(g: &Gr, zero: bool) -> Vec<bool> {
    let mut e = vec![false; g.n.len()];
    loop {
        let mut changed = false;
        for i in 0..g.n.len() {
            let v = match &g.n[i] {
                G::Null | G::NullHidden | G::Eof(_) | G::Look(..) | G::Nullable(_) | G::NullableHidden(_) => true,
                G::Concat(v) => v.iter().all(|j| e[*j]),
                G::Union(v) => v.iter().any(|j| e[*j]),
                G::Suffixes(l, st, v) => e[*l] && (*st || v.iter().any(|(j, _)| e[*j])),
                G::List(j) | G::Sep(j, _, _) | G::Node(j, _) | G::Hidden(j) | G::Valid(j, _) | G::Cache(j) | G::Struct(j) => e[*j],
                G::NonStr(j, _) => zero || e[*j],
                _ => false,
            };
            if v != e[i] {
                e[i] = v;
                changed = true;
            }
        }
        if !changed {
            return e;
        }
    }
}
/// the nodes which a node may run before anything is consumed
fn heads(g: &Gr, e: &[bool], i: usize) -> Vec<usize> {
    match &g.n[i] {
        G::Concat(v) => {
            let mut r = Vec::new();
            for j in v {
                r.push(*j);
                if !e[*j] {
                    break;
                }
            }
            r
        }
        G::Union(v) => v.clone(),
        G::Suffixes(l, _, v) => {
            let mut r = vec![*l];
            if e[*l] {
                r.extend(v.iter().map(|x| x.0));
            }
            r
        }
        G::Sep(j, s, _) => {
            if e[*j] {
                vec![*j, *s]
            } else {
                vec![*j]
            }
        }
        G::List(j) | G::Nullable(j) | G::NullableHidden(j) | G::Node(j, _) | G::Hidden(j) | G::Look(j, _) | G::Valid(j, _) | G::Cache(j) | G::Struct(j) | G::NonStr(j, _) => vec![*j],
        _ => Vec::new(),
    }
}
fn children(g: &Gr, i: usize) -> Vec<usize> {
    match &g.n[i] {
        G::Concat(v) | G::Union(v) => v.clone(),
        G::Suffixes(l, _, v) => {
            let mut r = vec![*l];
            r.extend(v.iter().map(|x| x.0));
            r
        }
        G::Sep(j, s, _) => vec![*j, *s],
        G::List(j) | G::Nullable(j) | G::NullableHidden(j) | G::Node(j, _) | G::Hidden(j) | G::Look(j, _) | G::Valid(j, _) | G::Cache(j) | G::Struct(j) | G::NonStr(j, _) => vec![*j],
        _ => Vec::new(),
    }
}
fn reachable(g: &Gr, root: usize) -> Vec<usize> {
    let mut seen = vec![false; g.n.len()];
    let mut todo = vec![root];
    while let Some(i) = todo.pop() {
        if !seen[i] {
            seen[i] = true;
            todo.extend(children(g, i));
        }
    }
    (0..g.n.len()).filter(|i| seen[*i]).collect()
}
/// is a node reachable from the root which can run itself before anything is consumed
fn left_recursive(g: &Gr, root: usize, zero: bool) -> bool {
    let e = empties(g, zero);
    let n = g.n.len();
    for i in reachable(g, root) {
        let mut at = vec![false; n];
        let mut todo = heads(g, &e, i);
        while let Some(j) = todo.pop() {
            if j == i {
                return true;
            }
            if !at[j] {
                at[j] = true;
                todo.extend(heads(g, &e, j));
            }
        }
    }
    false
}

/// Does the error name the productions of a cycle: each is run by the one named after it before anything is consumed
fn names_a_cycle(g: &Gr, message: &str) -> bool {
    let mut ids = Vec::new();
    for w in message.split_whitespace() {
        // the first stands right behind the kind of the error
        let w = w.rsplit('-').next().unwrap();
        if let Some(i) = (0..g.n.len()).find(|i| IDS[*i] == w) {
            ids.push(i);
        }
    }
    let named = |i: usize| matches!(g.n[i], G::Concat(_) | G::Union(_) | G::Suffixes(..));
    let e = empties(g, false);
    let runs = |i: usize, j: usize| {
        let mut at = vec![false; g.n.len()];
        let mut todo = heads(g, &e, i);
        while let Some(k) = todo.pop() {
            if k == j {
                return true;
            }
            if !at[k] && !named(k) {
                at[k] = true;
                todo.extend(heads(g, &e, k));
            }
        }
        false
    };
    ids.len() > 1 && ids[0] == ids[ids.len() - 1] && ids.windows(2).all(|w| runs(w[1], w[0]))
}

/// Arbitrary graphs of productions, all of them reachable from the first node and numbered in the order in which they
/// are referred to: how many nodes at most, kinds of nodes, terminals, length of the input which is parsed, further
/// kinds the last node is of, (h_unset) which nodes may lack symbols (0 any, 1 the last, 2 the first), kind of the first
/// node (0: any, kind + 1).
/// A grammar is refused if and only if it is left recursive, and what is accepted parses as the reference does.
#[no_mangle]
pub extern "C-unwind" fn h_leftrec() {
    graphs(false);
}
/// The same, where sequences, alternatives and suffixes are bound late: each got its symbols, and refused others, or
/// none. A grammar in which a production without symbols can be reached is refused as well.
#[no_mangle]
pub extern "C-unwind" fn h_unset() {
    graphs(true);
}
fn graphs(unset: bool) {
    let (k, kinds, terms, n, more, lack, root_kind) = (param(0, 2), param(1, 9), param(2, 2), param(3, 1), param(4, 0), param(5, 0), param(6, 0));
    let mut g = Gr::new();
    for t in 0..terms {
        match t {
            0 => g.add(G::Tok(A, Some(1))),
            1 => g.add(G::NullHidden),
            2 => g.add(G::Tok(B, Some(2))),
            3 => g.add(G::Look(0, Some(3))),
            _ => g.add(G::Eof(Some(4))),
        };
    }
    let root = terms;
    // nodes referred to so far
    let seen = std::cell::Cell::new(1);
    // a node referred to before, or the next one
    let any_ref = || {
        let j = choose(terms + (seen.get() + 1).min(k));
        if j == terms + seen.get() {
            seen.set(seen.get() + 1);
        }
        j
    };
    let mut x = 0;
    loop {
        let kind = match x {
            0 if root_kind > 0 => root_kind - 1,
            _ if x + 1 == k && more > 0 => 12 + choose(more),
            _ => choose(kinds),
        };
        let no = unset
            && matches!(kind, 0 | 1 | 3 | 10 | 11)
            && match lack {
                0 => flag(),
                1 => x + 1 == k,
                _ => x == 0,
            };
        g.bind.resize(terms + x, Bind::Twice);
        g.bind.push(if no { Bind::Not } else { Bind::Twice });
        let node = match kind {
            0 | 11 if no => G::Concat(Vec::new()),
            1 if no => G::Union(Vec::new()),
            3 | 10 if no => G::Suffixes(any_ref(), kind == 3, Vec::new()),
            0 => G::Concat(vec![any_ref(), any_ref()]),
            1 => G::Union(vec![any_ref(), any_ref()]),
            2 => G::Nullable(any_ref()),
            3 => {
                let l = any_ref();
                G::Suffixes(l, true, vec![(any_ref(), 5)])
            }
            4 => G::List(any_ref()),
            5 => G::Node(any_ref(), 6),
            6 => {
                let j = any_ref();
                G::Sep(j, any_ref(), false)
            }
            7 => G::Look(any_ref(), None),
            8 => G::Valid(any_ref(), V::Ok),
            9 => G::Hidden(any_ref()),
            10 => {
                let l = any_ref();
                G::Suffixes(l, false, vec![(any_ref(), 7)])
            }
            11 => G::Concat(vec![any_ref(), any_ref(), any_ref()]),
            12 => G::Cache(any_ref()),
            13 => G::Struct(any_ref()),
            14 => G::NullableHidden(any_ref()),
            15 => G::NonStr(any_ref(), false),
            _ => G::NonStr(any_ref(), true),
        };
        g.add(node);
        x += 1;
        if x >= seen.get() {
            break;
        }
    }
    // only sequences, alternatives and suffixes can be bound late: everything else exists before what refers to it
    let mut made: Vec<bool> = g.n.iter().map(|x| matches!(x, G::Concat(_) | G::Union(_))).collect();
    loop {
        let more = (0..g.n.len()).find(|i| {
            let needs = match &g.n[*i] {
                G::Suffixes(l, ..) => vec![*l],
                _ => children(&g, *i),
            };
            !made[*i] && needs.iter().all(|j| made[*j])
        });
        match more {
            Some(i) => made[i] = true,
            None => break,
        }
    }
    assume(made.iter().all(|x| *x));
    let ps = g.build_with(0, unset);
    let missing: Vec<usize> = reachable(&g, root).into_iter().filter(|i| unset && g.bind[*i] == Bind::Not).collect();
    let bad = left_recursive(&g, root, false);
    let tokenizer = Rc::new(crate::parse::Fixed(Vec::new()));
    let said = DefaultParser::new(tokenizer, ps[root].clone()).err().map(|e| e.to_string());
    let refused = said.is_some();
    check(LexerlessParser::new(ps[root].clone()).is_err() == refused, "building a lexerless parser after a tokenized one");
    observe(refused as u64);
    if !missing.is_empty() {
        cover("without symbols");
        check(refused, "a production without symbols is accepted");
        if let Some(m) = said {
            let named = m.split(|c: char| c == '"' || c.is_whitespace()).any(|w| missing.iter().any(|i| IDS[*i] == w));
            check(named || bad, "the production without symbols");
        }
        return;
    }
    // what repeats itself only without structural tokens before is a known finding (h_known)
    if !bad && left_recursive(&g, root, true) {
        return;
    }
    if bad {
        cover("left recursive");
        check(refused, "a left recursive grammar is accepted");
        if let Some(m) = said {
            check(names_a_cycle(&g, &m), "productions of the cycle");
        }
    } else {
        cover("not left recursive");
        check(!refused, "a grammar without left recursion is refused");
    }
    if bad || refused {
        return;
    }
    let (ts, len) = tokens(n);
    let buf = &TEXT[..len];
    let code = Code::new(buf);
    let s = TokenStream::from(&ts);
    let mut cache = Cache::root();
    let real = ps[root].advance_fltr_ptr(&code, FltrPtr::default(), &s, &mut cache);
    let r = Ref::tokens(&g, &ts, buf).run(root, M::Filtered, 0);
    compare(real, r, KIND | SHAPE);
}

/// Grammars of the known findings: which one
#[no_mangle]
pub extern "C-unwind" fn h_known() {
    let k = param(0, 0);
    let mut g = Gr::new();
    let root = match k {
        // c = (without structure: S) c | a, over structural tokens: the first symbol consumes none of them
        _ => {
            let s = g.add(G::Tok(S, Some(1)));
            let s = g.add(G::NonStr(s, false));
            let a = g.add(G::Tok(A, Some(2)));
            let c = g.n.len();
            g.add(G::Union(vec![c + 1, a]));
            g.add(G::Concat(vec![s, c]));
            c
        }
    };
    let ps = g.build();
    if ps[root].validate(HashMap::new(), &mut HashSet::new()).is_err() {
        cover("refused");
        return;
    }
    let ts = vec![
        Lex { token: Tk(any()), start: 0, end: 1 },
        Lex { token: Tk(A), start: 1, end: 2 },
        Lex { token: Tk(EOF), start: 2, end: 2 },
    ];
    assume(ts[0].token.0 != EOF);
    let code = Code::new(&TEXT[..2]);
    let s = TokenStream::from(&ts);
    let mut cache = Cache::root();
    let _ = ps[root].advance_fltr_ptr(&code, FltrPtr::default(), &s, &mut cache);
    cover("parsed");
}
