//! Regular expressions as data: printed for the crate under test, and matched by backtracking, leftmost alternative
//! first, for the reference.

#[derive(Clone)]
pub enum X {
    /// one character of a set (or not of it): how it is written, ranges, negated
    Set(&'static str, Vec<(u32, u32)>, bool),
    /// one byte in a range
    Byte(u8, u8),
    Str(&'static str),
    /// how it is written, what it matches
    Lit(&'static str, &'static str),
    Cat(Vec<X>),
    Alt(Vec<X>),
    /// repeated: at least, at most, as often as possible
    Rep(Box<X>, usize, Option<usize>, bool),
    /// the end of the text
    End,
    /// a boundary of an ASCII word
    Word,
}
use X::*;

pub const SPACE: [(u32, u32); 10] = [
    (9, 13),
    (32, 32),
    (0x85, 0x85),
    (0xa0, 0xa0),
    (0x1680, 0x1680),
    (0x2000, 0x200a),
    (0x2028, 0x2029),
    (0x202f, 0x202f),
    (0x205f, 0x205f),
    (0x3000, 0x3000),
];
/// `[^\S\r\n]`
pub const BLANK: [(u32, u32); 11] = [
    (9, 9),
    (11, 12),
    (32, 32),
    (0x85, 0x85),
    (0xa0, 0xa0),
    (0x1680, 0x1680),
    (0x2000, 0x200a),
    (0x2028, 0x2029),
    (0x202f, 0x202f),
    (0x205f, 0x205f),
    (0x3000, 0x3000),
];

pub fn set(s: &'static str, r: &[(char, char)]) -> X {
    Set(s, r.iter().map(|(a, b)| (*a as u32, *b as u32)).collect(), false)
}
pub fn not(s: &'static str, r: &[(char, char)]) -> X {
    Set(s, r.iter().map(|(a, b)| (*a as u32, *b as u32)).collect(), true)
}
pub fn space() -> X {
    Set("\\s", SPACE.to_vec(), false)
}
pub fn blank() -> X {
    Set("[^\\S\\r\\n]", BLANK.to_vec(), false)
}
pub fn any_char() -> X {
    not(".", &[('\n', '\n')])
}
pub fn digit() -> X {
    set("[0-9]", &[('0', '9')])
}
pub fn star(x: X) -> X {
    Rep(Box::new(x), 0, None, true)
}
pub fn plus(x: X) -> X {
    Rep(Box::new(x), 1, None, true)
}
pub fn opt(x: X) -> X {
    Rep(Box::new(x), 0, Some(1), true)
}

/// The expression as text, in a group where it is not one element.
pub fn text(x: &X) -> String {
    match x {
        Set(s, _, _) => s.to_string(),
        Byte(a, b) => format!("(?-u:[\\x{:02x}-\\x{:02x}])", a, b),
        Str(s) | Lit(s, _) => s.to_string(),
        Cat(v) => v.iter().map(group).collect(),
        Alt(v) => v.iter().map(group).collect::<Vec<_>>().join("|"),
        Rep(y, lo, hi, greedy) => {
            let mut s = group(y);
            match (lo, hi) {
                (0, None) => s.push('*'),
                (1, None) => s.push('+'),
                (0, Some(1)) => s.push('?'),
                (a, Some(b)) if a == b => s.push_str(&format!("{{{}}}", a)),
                (a, Some(b)) => s.push_str(&format!("{{{},{}}}", a, b)),
                (a, None) => s.push_str(&format!("{{{},}}", a)),
            }
            if !greedy {
                s.push('?');
            }
            s
        }
        End => "$".to_string(),
        Word => "(?-u:\\b)".to_string(),
    }
}
fn group(x: &X) -> String {
    match x {
        Set(..) | Byte(..) | End | Word => text(x),
        Str(s) | Lit(_, s) if s.len() == 1 => text(x),
        _ => format!("(?:{})", text(x)),
    }
}
/// The expression, bound to where it is applied.
pub fn anchored(x: &X) -> String {
    match x {
        Alt(_) => format!("^(?:{})", text(x)),
        _ => format!("^{}", text(x)),
    }
}

/// the character at `p` and its length
fn decode(c: &[u8], p: usize) -> Option<(u32, usize)> {
    if p >= c.len() {
        return None;
    }
    let b = c[p];
    if b < 0x80 {
        return Some((b as u32, 1));
    }
    let (n, low, first) = if b >= 0xc2 && b <= 0xdf {
        (2, 0x80, (b & 0x1f) as u32)
    } else if b >= 0xe0 && b <= 0xef {
        (3, 0x800, (b & 0xf) as u32)
    } else if b >= 0xf0 && b <= 0xf4 {
        (4, 0x10000, (b & 7) as u32)
    } else {
        return None;
    };
    if c.len() - p < n {
        return None;
    }
    let mut v = first;
    for i in 1..n {
        let x = c[p + i];
        if x & 0xc0 != 0x80 {
            return None;
        }
        v = v << 6 | (x & 0x3f) as u32;
    }
    if v < low || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff) {
        return None;
    }
    Some((v, n))
}
fn word(c: &[u8], p: usize) -> bool {
    let b = c[p];
    (b >= b'0') & (b <= b'9') | (b >= b'a') & (b <= b'z') | (b >= b'A') & (b <= b'Z') | (b == b'_')
}

/// where the first match of `x` at `p` ends which `k` goes on with
pub fn run(x: &X, c: &[u8], p: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
    match x {
        Set(_, r, neg) => {
            let (v, n) = decode(c, p)?;
            let mut is = false;
            for (a, b) in r {
                is |= (v >= *a) & (v <= *b);
            }
            if is != *neg {
                k(p + n)
            } else {
                None
            }
        }
        Byte(a, b) => {
            if p < c.len() && c[p] >= *a && c[p] <= *b {
                k(p + 1)
            } else {
                None
            }
        }
        Str(s) | Lit(_, s) => {
            let s = s.as_bytes();
            if c.len() - p < s.len() {
                return None;
            }
            for i in 0..s.len() {
                if c[p + i] != s[i] {
                    return None;
                }
            }
            k(p + s.len())
        }
        Cat(v) => cat(v, c, p, k),
        Alt(v) => {
            for y in v {
                if let Some(q) = run(y, c, p, k) {
                    return Some(q);
                }
            }
            None
        }
        Rep(y, lo, hi, greedy) => rep(y, *lo, *hi, *greedy, c, p, k),
        End => {
            if p == c.len() {
                k(p)
            } else {
                None
            }
        }
        Word => {
            let a = p > 0 && word(c, p - 1);
            let b = p < c.len() && word(c, p);
            if a != b {
                k(p)
            } else {
                None
            }
        }
    }
}
fn cat(v: &[X], c: &[u8], p: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
    match v.split_first() {
        None => k(p),
        Some((x, more)) => run(x, c, p, &mut |q| cat(more, c, q, k)),
    }
}
fn rep(x: &X, lo: usize, hi: Option<usize>, greedy: bool, c: &[u8], p: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
    if hi == Some(0) {
        return k(p);
    }
    if !greedy && lo == 0 {
        if let Some(q) = k(p) {
            return Some(q);
        }
    }
    // repeated expressions take at least one byte
    let r = run(x, c, p, &mut |q| rep(x, lo.saturating_sub(1), hi.map(|h| h - 1), greedy, c, q, k));
    if r.is_some() {
        return r;
    }
    if greedy && lo == 0 {
        return k(p);
    }
    None
}
/// length of the match at the beginning of `c`
pub fn find(x: &X, c: &[u8]) -> Option<usize> {
    run(x, c, 0, &mut Some)
}

pub const EXPRS: usize = 24;
/// expressions as they are used in lexers; 20.. also match nothing
pub fn expr(k: usize) -> X {
    let az = || set("[a-z]", &[('a', 'z')]);
    let ab = || set("[ab]", &[('a', 'b')]);
    match k {
        0 => plus(ab()),
        1 => Alt(vec![Str("a"), Str("ab")]),
        2 => Alt(vec![Str("ab"), Str("a")]),
        3 => Cat(vec![
            set("[a-zA-Z_]", &[('a', 'z'), ('A', 'Z'), ('_', '_')]),
            star(set("[a-zA-Z0-9_]", &[('a', 'z'), ('A', 'Z'), ('_', '_'), ('0', '9')])),
        ]),
        // a JSON number, as in the example
        4 => Cat(vec![
            plus(digit()),
            opt(Cat(vec![Lit("\\.", "."), plus(digit())])),
            opt(Cat(vec![set("[eE]", &[('e', 'e'), ('E', 'E')]), opt(set("[+-]", &[('+', '+'), ('-', '-')])), plus(digit())])),
        ]),
        5 => string(),
        6 => plus(space()),
        7 => Alt(vec![Str("true"), Str("false"), Str("null")]),
        8 => Rep(Box::new(ab()), 1, None, false),
        9 => Rep(Box::new(ab()), 2, Some(3), true),
        10 => Rep(Box::new(ab()), 2, Some(3), false),
        // a comment up to the first end
        11 => Cat(vec![Str("/"), Lit("\\*", "*"), Rep(Box::new(not("[^!]", &[('!', '!')])), 0, None, false), Lit("\\*", "*"), Str("/")]),
        12 => Cat(vec![Str("/"), Str("/"), star(any_char())]),
        13 => Cat(vec![plus(az()), Word]),
        14 => Cat(vec![plus(az()), End]),
        15 => plus(Byte(0x80, 0xff)),
        16 => any_char(),
        17 => Cat(vec![not("[^\\n]", &[('\n', '\n')]), Lit("\\n", "\n")]),
        18 => Cat(vec![plus(Alt(vec![Str("ab"), Str("a")])), Str("b")]),
        19 => set("[é-λ]", &[('é', 'λ')]),
        20 => star(ab()),
        21 => opt(Str("ab")),
        22 => star(space()),
        23 => Alt(vec![Str("a"), End]),
        // not nullable, but empty before a letter
        _ => Alt(vec![Str("a"), Word]),
    }
}
/// a JSON string, as in the example
pub fn string() -> X {
    let nl = || set("[\\r\\n]", &[('\r', '\r'), ('\n', '\n')]);
    Cat(vec![
        Str("\""),
        star(Alt(vec![
            not("[^\"\\\\\\r\\n]", &[('"', '"'), ('\\', '\\'), ('\r', '\r'), ('\n', '\n')]),
            Cat(vec![Lit("\\\\", "\\"), star(blank()), nl(), star(blank())]),
            Cat(vec![Lit("\\\\", "\\"), any_char()]),
        ])),
        Str("\""),
    ])
}
