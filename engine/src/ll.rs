//! Parser for textual LLVM IR (LLVM 20+ syntax, opaque pointers) as emitted by rustc.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Meta,
    Label,
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Vec(n, t) => {
                let bits = match &**t {
                    Ty::Int(w) => *w as u64,
                    t => t.size() * 8,
                };
                let b = (*n as u64 * bits + 7) / 8;
                b.next_power_of_two()
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => panic!("count"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    W(Box<u128>),
    A(Rc<Vec<Val>>),
}

impl Val {
    pub fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) if *w > 64 => Val::W(Box::new(0)),
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                Val::A(Rc::new((0..ty.count()).map(|i| Val::zero(ty.elem(i))).collect()))
            }
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Op),
    Ext(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64, count: Op, align: u64 },
    Load { dst: u32, ty: Ty, ptr: Op },
    Store { ty: Ty, val: Op, ptr: Op },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, i64, u32)> },
    Bin { dst: u32, op: Bin, ty: Ty, a: Op, b: Op },
    Icmp { dst: u32, pred: Pred, ty: Ty, a: Op, b: Op },
    Cast { dst: u32, kind: Cast, from: Ty, to: Ty, a: Op },
    Select { dst: u32, cty: Ty, ty: Ty, c: Op, a: Op, b: Op },
    ExtractV { dst: u32, a: Op, idx: Vec<u32> },
    InsertV { dst: u32, a: Op, v: Op, idx: Vec<u32> },
    ExtractE { dst: u32, a: Op, i: Op },
    InsertE { dst: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, n: u32, mask: Vec<i32>, ety: Ty },
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Op, Ty)>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { v: Op, w: u32, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Copy { dst: u32, a: Op },
    Rmw { dst: u32, op: String, ty: Ty, ptr: Op, val: Op },
    CmpXchg { dst: u32, ty: Ty, ptr: Op, cmp: Op, new: Op },
    Nop,
    Bad(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub subprogram: u32,
}

pub struct FuncDecl {
    pub name: String,
    /// line range of the body, none for declarations
    pub body: Option<(usize, usize)>,
    pub parsed: Option<Rc<Func>>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub ty: Ty,
    pub line: usize,
    pub init_pos: usize,
    pub external: bool,
}

pub const FUNC_BASE: u64 = 0x1000;
pub const GLOBAL_BASE: u64 = 0x10_0000;

pub struct Module {
    pub lines: Vec<&'static str>,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    pub globals_end: u64,
    pub meta: HashMap<u32, usize>,
}

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub p: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), p: 0 }
    }
    pub fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!(
                "expected {:?} at {} in: {}",
                c as char,
                self.p,
                String::from_utf8_lossy(self.s)
            );
        }
    }
    pub fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut q = self.p;
        while q < self.s.len() && is_word(self.s[q]) {
            q += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[self.p..q]) }
    }
    pub fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.p += w.len();
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @ : plain or quoted
    pub fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut q = st;
            while self.s[q] != b'"' {
                q += 1;
            }
            self.p = q + 1;
            String::from_utf8_lossy(&self.s[st..q]).into_owned()
        } else {
            self.word().to_string()
        }
    }
    pub fn skip_balanced(&mut self) {
        // at '(' or '[' or '{'
        let mut depth = 0;
        loop {
            let c = self.s[self.p];
            match c {
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                b'(' | b'[' | b'{' => depth += 1,
                b')' | b']' | b'}' => depth -= 1,
                _ => {}
            }
            self.p += 1;
            if depth == 0 {
                return;
            }
        }
    }
    pub fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p..]).into_owned()
    }
}

fn is_type_word(w: &str) -> bool {
    match w {
        "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "x86_fp80" | "token" => true,
        _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()),
    }
}

impl Module {
    pub fn load(text: &'static str) -> Module {
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines,
            types: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            aliases: HashMap::new(),
            globals_end: 0,
            meta: HashMap::new(),
        };
        let mut addr = GLOBAL_BASE;
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.lines[i];
            let b = l.as_bytes();
            if b.is_empty() {
                i += 1;
                continue;
            }
            match b[0] {
                b'%' => {
                    let mut c = Cur::new(l);
                    c.p = 1;
                    let n = c.name();
                    c.expect(b'=');
                    c.eat_word("type");
                    let t = if c.peek_word() == "opaque" { Ty::Other } else { m.ty(&mut c) };
                    m.types.insert(n, t);
                }
                b'@' => {
                    let mut c = Cur::new(l);
                    c.p = 1;
                    let n = c.name();
                    c.expect(b'=');
                    let mut external = false;
                    loop {
                        let w = c.peek_word();
                        match w {
                            "alias" => {
                                let r = c.rest();
                                let k = r.rfind('@').unwrap();
                                let mut cc = Cur::new(&r[k + 1..]);
                                let t = cc.name();
                                m.aliases.insert(n.clone(), t);
                                break;
                            }
                            "global" | "constant" => {
                                c.word();
                                let ty = m.ty(&mut c);
                                let al = ty.align().max(16);
                                addr = (addr + al - 1) / al * al;
                                m.gidx.insert(n.clone(), m.globals.len());
                                let size = ty.size();
                                m.globals.push(Global { name: n.clone(), addr, ty, line: i, init_pos: c.p, external });
                                addr += size.max(1) + 16;
                                break;
                            }
                            "external" | "extern_weak" => {
                                external = true;
                                c.word();
                            }
                            "" => {
                                panic!("bad global line {}", l);
                            }
                            _ => {
                                c.word();
                                if c.p < c.s.len() && c.s[c.p] == b'(' {
                                    c.skip_balanced();
                                }
                            }
                        }
                    }
                }
                b'd' if l.starts_with("declare ") || l.starts_with("define ") => {
                    let isdef = l.starts_with("define ");
                    // function name = first '@' outside of attribute parens
                    let mut c = Cur::new(l);
                    loop {
                        match c.peek() {
                            b'@' => break,
                            b'(' | b'[' | b'{' | b'<' => {
                                if c.peek() == b'<' {
                                    c.p += 1;
                                } else {
                                    c.skip_balanced()
                                }
                            }
                            0 => panic!("no name: {}", l),
                            _ => {
                                if c.word().is_empty() {
                                    c.p += 1;
                                }
                            }
                        }
                    }
                    c.p += 1;
                    let n = c.name();
                    let body = if isdef {
                        let st = i;
                        while m.lines[i] != "}" {
                            i += 1;
                        }
                        Some((st, i))
                    } else {
                        None
                    };
                    m.fidx.insert(n.clone(), m.funcs.len() as u32);
                    m.funcs.push(FuncDecl { name: n, body, parsed: None });
                }
                b'!' => {
                    let mut q = 1;
                    while q < b.len() && b[q].is_ascii_digit() {
                        q += 1;
                    }
                    if q > 1 {
                        if let Ok(k) = l[1..q].parse::<u32>() {
                            m.meta.insert(k, i);
                        }
                    }
                }
                _ => {}
            }
            i += 1;
        }
        m.globals_end = addr;
        m
    }

    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        if let Some(g) = self.gidx.get(n) {
            return Some(self.globals[*g].addr);
        }
        if let Some(f) = self.fidx.get(n) {
            return Some(FUNC_BASE + *f as u64 * 16);
        }
        if let Some(a) = self.aliases.get(n) {
            return self.sym_addr(a);
        }
        None
    }

    pub fn ty(&self, c: &mut Cur) -> Ty {
        let t = match c.peek() {
            b'[' => {
                c.p += 1;
                let n: u64 = c.word().parse().unwrap();
                assert!(c.eat_word("x"));
                let t = self.ty(c);
                c.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'{' => {
                c.p += 1;
                let mut f = vec![];
                if !c.eat(b'}') {
                    loop {
                        f.push(self.ty(c));
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.expect(b'}');
                }
                Ty::Struct(f, false)
            }
            b'<' => {
                c.p += 1;
                if c.eat(b'{') {
                    let mut f = vec![];
                    if !c.eat(b'}') {
                        loop {
                            f.push(self.ty(c));
                            if !c.eat(b',') {
                                break;
                            }
                        }
                        c.expect(b'}');
                    }
                    c.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n: u32 = c.word().parse().unwrap();
                    assert!(c.eat_word("x"));
                    let t = self.ty(c);
                    c.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if c.peek_word() == "addrspace" {
                            c.word();
                            c.skip_balanced();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" => Ty::Meta,
                    "label" => Ty::Label,
                    _ if is_type_word(w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("bad type {:?} in {}", w, String::from_utf8_lossy(c.s)),
                }
            }
        };
        t
    }

    /// skip attribute words until a type starts
    fn skip_attrs_to_type(&self, c: &mut Cur) {
        loop {
            let p = c.peek();
            if p == b'[' || p == b'{' || p == b'<' || p == b'%' {
                return;
            }
            if p == b'#' || p == b'"' {
                // attr group or string attr
                if p == b'"' {
                    c.p += 1;
                    while c.s[c.p] != b'"' {
                        c.p += 1;
                    }
                    c.p += 1;
                    if c.eat(b'=') {
                        continue;
                    }
                    continue;
                }
                c.p += 1;
                c.word();
                continue;
            }
            let w = c.peek_word();
            if is_type_word(w) || w.is_empty() {
                return;
            }
            c.p += w.len();
            if c.p < c.s.len() && c.s[c.p] == b'(' {
                c.skip_balanced();
            } else if w == "align" {
                c.word();
            }
        }
    }
    /// skip attrs between a param type and its value
    fn skip_attrs_to_value(&self, c: &mut Cur) {
        loop {
            let p = c.peek();
            match p {
                b'%' | b'@' | b',' | b')' | b'<' | b'{' | b'[' | b'!' | b'-' | 0 => return,
                b'"' => {
                    c.p += 1;
                    while c.s[c.p] != b'"' {
                        c.p += 1;
                    }
                    c.p += 1;
                    if c.eat(b'=') {}
                    continue;
                }
                _ => {}
            }
            if p.is_ascii_digit() {
                return;
            }
            let w = c.peek_word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                | "inttoptr" | "splat" | "c" | "bitcast" | "trunc" | "add" | "sub" | "none" | "asm" => return,
                _ => {}
            }
            c.p += w.len();
            if c.p < c.s.len() && c.s[c.p] == b'(' {
                c.skip_balanced();
            } else if w == "align" {
                c.word();
            }
        }
    }

    pub fn constant(&self, c: &mut Cur, ty: &Ty) -> Val {
        let p = c.peek();
        match p {
            b'@' => {
                c.p += 1;
                let n = c.name();
                Val::C(self.sym_addr(&n).unwrap_or_else(|| panic!("unknown symbol {}", n)))
            }
            b'{' | b'[' => {
                c.p += 1;
                let close = if p == b'{' { b'}' } else { b']' };
                let mut v = vec![];
                if !c.eat(close) {
                    loop {
                        let t = self.ty(c);
                        v.push(self.constant(c, &t));
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.expect(close);
                }
                Val::A(Rc::new(v))
            }
            b'<' => {
                c.p += 1;
                let mut v = vec![];
                if c.eat(b'{') {
                    if !c.eat(b'}') {
                        loop {
                            let t = self.ty(c);
                            v.push(self.constant(c, &t));
                            if !c.eat(b',') {
                                break;
                            }
                        }
                        c.expect(b'}');
                    }
                } else {
                    loop {
                        let t = self.ty(c);
                        v.push(self.constant(c, &t));
                        if !c.eat(b',') {
                            break;
                        }
                    }
                }
                c.expect(b'>');
                Val::A(Rc::new(v))
            }
            b'c' if c.p + 1 < c.s.len() && c.s[c.p + 1] == b'"' => {
                c.p += 2;
                let mut v = vec![];
                while c.s[c.p] != b'"' {
                    if c.s[c.p] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                        if let Ok(x) = u8::from_str_radix(h, 16) {
                            v.push(Val::C(x as u64));
                            c.p += 3;
                        } else {
                            v.push(Val::C(b'\\' as u64));
                            c.p += 2;
                        }
                    } else {
                        v.push(Val::C(c.s[c.p] as u64));
                        c.p += 1;
                    }
                }
                c.p += 1;
                Val::A(Rc::new(v))
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => Val::C(1),
                    "false" => Val::C(0),
                    "null" => Val::C(0),
                    "undef" | "poison" | "zeroinitializer" | "none" => Val::zero(ty),
                    "splat" => {
                        c.expect(b'(');
                        let t = self.ty(c);
                        let v = self.constant(c, &t);
                        c.expect(b')');
                        Val::A(Rc::new((0..ty.count()).map(|_| v.clone()).collect()))
                    }
                    "getelementptr" => {
                        while c.peek() != b'(' {
                            c.word();
                            if c.peek() == b'(' && c.s[c.p - 1] == b'e' && false {
                                break;
                            }
                        }
                        // possible "inrange(...)" attribute
                        if c.p >= 7 && &c.s[c.p - 7..c.p] == b"inrange" {
                            c.skip_balanced();
                        }
                        c.expect(b'(');
                        let t = self.ty(c);
                        c.expect(b',');
                        let bt = self.ty(c);
                        let b = self.constant(c, &bt);
                        let mut off = 0i64;
                        let mut cur = t.clone();
                        let mut first = true;
                        while c.eat(b',') {
                            let it = self.ty(c);
                            let iv = match self.constant(c, &it) {
                                Val::C(x) => sext(x, it.bits()),
                                _ => panic!(),
                            };
                            if first {
                                off += iv * cur.size() as i64;
                                first = false;
                            } else {
                                off += cur.field_off(iv as usize) as i64;
                                cur = cur.elem(iv as usize).clone();
                            }
                        }
                        c.expect(b')');
                        match b {
                            Val::C(x) => Val::C(x.wrapping_add(off as u64)),
                            _ => panic!(),
                        }
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        c.expect(b'(');
                        let t = self.ty(c);
                        let v = self.constant(c, &t);
                        assert!(c.eat_word("to"));
                        let t2 = self.ty(c);
                        c.expect(b')');
                        match v {
                            Val::C(x) => Val::C(mask(x, t2.bits())),
                            v => v,
                        }
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.expect(b'(');
                        let t = self.ty(c);
                        let a = self.constant(c, &t);
                        c.expect(b',');
                        let t2 = self.ty(c);
                        let b = self.constant(c, &t2);
                        c.expect(b')');
                        match (a, b) {
                            (Val::C(a), Val::C(b)) => Val::C(mask(
                                match w {
                                    "add" => a.wrapping_add(b),
                                    "sub" => a.wrapping_sub(b),
                                    "mul" => a.wrapping_mul(b),
                                    _ => a ^ b,
                                },
                                t.bits(),
                            )),
                            _ => panic!(),
                        }
                    }
                    _ => {
                        // integer (or float)
                        match ty {
                            Ty::Int(wd) => {
                                if let Ok(x) = w.parse::<i128>() {
                                    if *wd > 64 {
                                        Val::W(Box::new(x as u128))
                                    } else {
                                        Val::C(mask(x as u64, *wd))
                                    }
                                } else if let Ok(x) = w.parse::<u128>() {
                                    Val::W(Box::new(x))
                                } else {
                                    panic!("bad int const {:?} at {} in {}", w, c.p, String::from_utf8_lossy(c.s))
                                }
                            }
                            Ty::F64 | Ty::F32 => {
                                if let Some(h) = w.strip_prefix("0x") {
                                    let x = u64::from_str_radix(h, 16).unwrap_or(0);
                                    if *ty == Ty::F32 {
                                        Val::C((f64::from_bits(x) as f32).to_bits() as u64)
                                    } else {
                                        Val::C(x)
                                    }
                                } else {
                                    // 1.000000e+00 style ('+' is not a word char)
                                    let mut s = w.to_string();
                                    if c.p < c.s.len() && c.s[c.p] == b'+' {
                                        c.p += 1;
                                        s.push('+');
                                        s.push_str(c.word());
                                    }
                                    let f: f64 = s.parse().unwrap();
                                    if *ty == Ty::F32 {
                                        Val::C((f as f32).to_bits() as u64)
                                    } else {
                                        Val::C(f.to_bits())
                                    }
                                }
                            }
                            _ => panic!("bad const {:?} for {:?} in {}", w, ty, String::from_utf8_lossy(c.s)),
                        }
                    }
                }
            }
        }
    }

    pub fn func(&mut self, i: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[i as usize].parsed {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(i));
        self.funcs[i as usize].parsed = Some(f.clone());
        f
    }

    fn parse_func(&self, i: u32) -> Func {
        let d = &self.funcs[i as usize];
        let (st, en) = d.body.expect("body");
        let mut fp = FP { m: self, regs: HashMap::new(), nregs: 0, bbs: HashMap::new(), nbbs: 0 };
        let head = self.lines[st];
        let mut c = Cur::new(head);
        // move to the name
        let needle = format!("@{}", d.name);
        let needle_q = format!("@\"{}\"", d.name);
        let k = head
            .find(&format!("{}(", needle))
            .map(|k| k + needle.len())
            .or_else(|| head.find(&needle_q).map(|k| k + needle_q.len()))
            .unwrap();
        c.p = k;
        c.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !c.eat(b')') {
            loop {
                if c.peek() == b'.' {
                    c.p += 3;
                } else {
                    let _t = self.ty(&mut c);
                    self.skip_attrs_to_value(&mut c);
                    if c.eat(b'%') {
                        let n = c.name();
                        if n.parse::<u32>().is_ok() {
                            unnamed += 1;
                        }
                        let r = fp.reg(&n);
                        params.push(r);
                    } else {
                        let n = unnamed.to_string();
                        unnamed += 1;
                        let r = fp.reg(&n);
                        params.push(r);
                    }
                }
                if !c.eat(b',') {
                    break;
                }
            }
            c.expect(b')');
        }
        let tail = c.rest();
        let subprogram = dbg_id(&tail);
        let mut blocks: Vec<Block> = vec![];
        // first pass to name blocks in order
        let mut order: Vec<String> = vec![];
        let mut li = st + 1;
        let mut first = true;
        while li < en {
            let l = self.lines[li];
            li += 1;
            if l.is_empty() || l.as_bytes()[0] == b' ' || l.as_bytes()[0] == b';' || l.as_bytes()[0] == b'\t' {
                if first && !l.is_empty() && l.as_bytes()[0] == b' ' {
                    order.push(unnamed.to_string());
                    first = false;
                }
                continue;
            }
            first = false;
            let mut c = Cur::new(l);
            let n = c.name();
            order.push(n);
        }
        for n in &order {
            fp.bb(n);
            blocks.push(Block::default());
        }
        let mut cur: usize = usize::MAX;
        let mut li = st + 1;
        let mut nb = 0usize;
        while li < en {
            let l = self.lines[li];
            li += 1;
            if l.is_empty() {
                continue;
            }
            let b0 = l.as_bytes()[0];
            if b0 == b';' {
                continue;
            }
            if b0 != b' ' && b0 != b'\t' {
                cur = nb;
                nb += 1;
                continue;
            }
            if cur == usize::MAX {
                cur = 0;
                nb = 1;
            }
            let t = l.trim_start();
            if t.starts_with(';') || t.starts_with('#') {
                continue;
            }
            // multi-line instructions
            let owned: String;
            let mut text: &str = t;
            if t.starts_with("switch ") && t.trim_end().ends_with('[') {
                let mut s = t.to_string();
                loop {
                    let x = self.lines[li];
                    li += 1;
                    s.push(' ');
                    s.push_str(x.trim());
                    if x.trim_start().starts_with(']') {
                        break;
                    }
                }
                owned = s;
                text = &owned;
            } else {
                let body = if let Some(k) = t.find(" = ") {
                    if t.starts_with('%') {
                        &t[k + 3..]
                    } else {
                        t
                    }
                } else {
                    t
                };
                if body.starts_with("invoke ") {
                    let mut s = t.to_string();
                    while !s.contains(" unwind label ") {
                        s.push(' ');
                        s.push_str(self.lines[li].trim());
                        li += 1;
                    }
                    owned = s;
                    text = &owned;
                } else if body.starts_with("landingpad ") {
                    while li < en {
                        let x = self.lines[li].trim_start();
                        if x.starts_with("cleanup") || x.starts_with("catch ") || x.starts_with("filter ") {
                            li += 1;
                        } else {
                            break;
                        }
                    }
                }
            }
            fp.inst(text, &mut blocks[cur]);
        }
        Func { name: d.name.clone(), params, nregs: fp.nregs, blocks, subprogram }
    }
}

pub fn dbg_id(s: &str) -> u32 {
    if let Some(k) = s.rfind("!dbg !") {
        let r = &s[k + 6..];
        let e = r.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().unwrap_or(0)
    } else {
        0
    }
}

pub fn mask(x: u64, w: u32) -> u64 {
    if w >= 64 {
        x
    } else {
        x & ((1u64 << w) - 1)
    }
}
pub fn sext(x: u64, w: u32) -> i64 {
    if w >= 64 || w == 0 {
        x as i64
    } else {
        ((x << (64 - w)) as i64) >> (64 - w)
    }
}

struct FP<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    bbs: HashMap<String, u32>,
    nbbs: u32,
}

impl<'m> FP<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn bb(&mut self, n: &str) -> u32 {
        if let Some(r) = self.bbs.get(n) {
            return *r;
        }
        let r = self.nbbs;
        self.nbbs += 1;
        self.bbs.insert(n.to_string(), r);
        r
    }
    fn op(&mut self, c: &mut Cur, ty: &Ty) -> Op {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            Op::R(self.reg(&n))
        } else {
            Op::C(self.m.constant(c, ty))
        }
    }
    fn tyop(&mut self, c: &mut Cur) -> (Ty, Op) {
        let t = self.m.ty(c);
        let o = self.op(c, &t);
        (t, o)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        assert!(c.eat_word("label"), "label: {}", c.rest());
        c.expect(b'%');
        let n = c.name();
        self.bb(&n)
    }

    fn inst(&mut self, text: &str, blk: &mut Block) {
        let dbg = dbg_id(text);
        let mut c = Cur::new(text);
        let mut dst: Option<u32> = None;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            dst = Some(self.reg(&n));
            c.expect(b'=');
        }
        let d = dst.unwrap_or(0);
        let mut w = c.word();
        while w == "tail" || w == "musttail" || w == "notail" {
            w = c.word();
        }
        let bin = match w {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            _ => None,
        };
        let inst = if let Some(op) = bin {
            while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                c.word();
            }
            let (ty, a) = self.tyop(&mut c);
            c.expect(b',');
            let b = self.op(&mut c, &ty);
            Inst::Bin { dst: d, op, ty, a, b }
        } else {
            match w {
                "alloca" => {
                    if c.peek_word() == "inalloca" {
                        c.word();
                    }
                    let ty = self.m.ty(&mut c);
                    let mut count = Op::C(Val::C(1));
                    let mut align = ty.align();
                    while c.eat(b',') {
                        if c.peek_word() == "align" {
                            c.word();
                            align = c.word().parse().unwrap();
                        } else if c.peek() == b'!' {
                            break;
                        } else {
                            let (_t, o) = self.tyop(&mut c);
                            count = o;
                        }
                    }
                    Inst::Alloca { dst: d, size: ty.size(), count, align }
                }
                "load" => {
                    while matches!(c.peek_word(), "atomic" | "volatile") {
                        c.word();
                    }
                    let ty = self.m.ty(&mut c);
                    c.expect(b',');
                    let (_, ptr) = self.tyop(&mut c);
                    Inst::Load { dst: d, ty, ptr }
                }
                "store" => {
                    while matches!(c.peek_word(), "atomic" | "volatile") {
                        c.word();
                    }
                    let (ty, val) = self.tyop(&mut c);
                    c.expect(b',');
                    let (_, ptr) = self.tyop(&mut c);
                    Inst::Store { ty, val, ptr }
                }
                "getelementptr" => {
                    loop {
                        let w = c.peek_word();
                        if matches!(w, "inbounds" | "nuw" | "nusw") {
                            c.word();
                        } else if w == "inrange" {
                            c.word();
                            c.skip_balanced();
                        } else {
                            break;
                        }
                    }
                    let t = self.m.ty(&mut c);
                    c.expect(b',');
                    let (bt, base) = self.tyop(&mut c);
                    if let Ty::Vec(..) = bt {
                        blk.insts.push(Inst::Bad(text.to_string()));
                        blk.dbg.push(dbg);
                        return;
                    }
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut cur = t;
                    let mut first = true;
                    while c.eat(b',') {
                        if c.peek() == b'!' {
                            break;
                        }
                        let (it, o) = self.tyop(&mut c);
                        let wdt = it.bits();
                        if first {
                            first = false;
                            let sz = cur.size() as i64;
                            match o {
                                Op::C(Val::C(x)) => off += sext(x, wdt) * sz,
                                o => idx.push((o, sz, wdt)),
                            }
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let k = match o {
                                        Op::C(Val::C(x)) => x as usize,
                                        _ => panic!("struct idx"),
                                    };
                                    off += cur.field_off(k) as i64;
                                    cur = cur.elem(k).clone();
                                }
                                _ => {
                                    let e = cur.elem(0).clone();
                                    let sz = e.size() as i64;
                                    match o {
                                        Op::C(Val::C(x)) => off += sext(x, wdt) * sz,
                                        o => idx.push((o, sz, wdt)),
                                    }
                                    cur = e;
                                }
                            }
                        }
                    }
                    Inst::Gep { dst: d, base, off, idx }
                }
                "icmp" => {
                    if c.peek_word() == "samesign" {
                        c.word();
                    }
                    let pred = match c.word() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        p => panic!("pred {}", p),
                    };
                    let (ty, a) = self.tyop(&mut c);
                    c.expect(b',');
                    let b = self.op(&mut c, &ty);
                    Inst::Icmp { dst: d, pred, ty, a, b }
                }
                "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                    while matches!(c.peek_word(), "nneg" | "nuw" | "nsw") {
                        c.word();
                    }
                    let (from, a) = self.tyop(&mut c);
                    assert!(c.eat_word("to"));
                    let to = self.m.ty(&mut c);
                    let kind = match w {
                        "zext" => Cast::Zext,
                        "sext" => Cast::Sext,
                        "trunc" => Cast::Trunc,
                        "bitcast" => Cast::Bit,
                        _ => {
                            if to.bits() < from.bits() {
                                Cast::Trunc
                            } else {
                                Cast::Zext
                            }
                        }
                    };
                    Inst::Cast { dst: d, kind, from, to, a }
                }
                "select" => {
                    let (cty, cc) = self.tyop(&mut c);
                    c.expect(b',');
                    let (ty, a) = self.tyop(&mut c);
                    c.expect(b',');
                    let (_, b) = self.tyop(&mut c);
                    Inst::Select { dst: d, cty, ty, c: cc, a, b }
                }
                "phi" => {
                    let ty = self.m.ty(&mut c);
                    let mut v = vec![];
                    loop {
                        c.expect(b'[');
                        let o = self.op(&mut c, &ty);
                        c.expect(b',');
                        c.expect(b'%');
                        let n = c.name();
                        let b = self.bb(&n);
                        c.expect(b']');
                        v.push((b, o));
                        if !c.eat(b',') || c.peek() != b'[' {
                            break;
                        }
                    }
                    blk.phis.push((d, v));
                    return;
                }
                "br" => {
                    if c.peek_word() == "label" {
                        Inst::Br(self.label(&mut c))
                    } else {
                        let (_, cc) = self.tyop(&mut c);
                        c.expect(b',');
                        let a = self.label(&mut c);
                        c.expect(b',');
                        let b = self.label(&mut c);
                        Inst::CondBr(cc, a, b)
                    }
                }
                "switch" => {
                    let (ty, v) = self.tyop(&mut c);
                    c.expect(b',');
                    let def = self.label(&mut c);
                    c.expect(b'[');
                    let mut cases = vec![];
                    while !c.eat(b']') {
                        let t = self.m.ty(&mut c);
                        let k = match self.m.constant(&mut c, &t) {
                            Val::C(x) => x,
                            _ => panic!("switch const"),
                        };
                        c.expect(b',');
                        let l = self.label(&mut c);
                        cases.push((k, l));
                    }
                    Inst::Switch { v, w: ty.bits(), def, cases }
                }
                "ret" => {
                    if c.peek_word() == "void" {
                        Inst::Ret(None)
                    } else {
                        let (_, o) = self.tyop(&mut c);
                        Inst::Ret(Some(o))
                    }
                }
                "unreachable" => Inst::Unreachable,
                "extractvalue" => {
                    let (_, a) = self.tyop(&mut c);
                    let mut idx = vec![];
                    while c.eat(b',') {
                        if c.peek() == b'!' {
                            break;
                        }
                        idx.push(c.word().parse().unwrap());
                    }
                    Inst::ExtractV { dst: d, a, idx }
                }
                "insertvalue" => {
                    let (_, a) = self.tyop(&mut c);
                    c.expect(b',');
                    let (_, v) = self.tyop(&mut c);
                    let mut idx = vec![];
                    while c.eat(b',') {
                        if c.peek() == b'!' {
                            break;
                        }
                        idx.push(c.word().parse().unwrap());
                    }
                    Inst::InsertV { dst: d, a, v, idx }
                }
                "extractelement" => {
                    let (_, a) = self.tyop(&mut c);
                    c.expect(b',');
                    let (_, i) = self.tyop(&mut c);
                    Inst::ExtractE { dst: d, a, i }
                }
                "insertelement" => {
                    let (_, a) = self.tyop(&mut c);
                    c.expect(b',');
                    let (_, v) = self.tyop(&mut c);
                    c.expect(b',');
                    let (_, i) = self.tyop(&mut c);
                    Inst::InsertE { dst: d, a, v, i }
                }
                "shufflevector" => {
                    let (ta, a) = self.tyop(&mut c);
                    c.expect(b',');
                    let (_, b) = self.tyop(&mut c);
                    c.expect(b',');
                    let (_, mk) = self.tyop(&mut c);
                    let mask = match mk {
                        Op::C(Val::A(v)) => v
                            .iter()
                            .map(|x| match x {
                                Val::C(k) => *k as i32,
                                _ => 0,
                            })
                            .collect(),
                        _ => vec![],
                    };
                    Inst::Shuffle { dst: d, a, b, n: ta.count() as u32, mask, ety: ta.elem(0).clone() }
                }
                "freeze" => {
                    let (_, a) = self.tyop(&mut c);
                    Inst::Copy { dst: d, a }
                }
                "fence" => Inst::Nop,
                "atomicrmw" => {
                    if c.peek_word() == "volatile" {
                        c.word();
                    }
                    let op = c.word().to_string();
                    let (_, ptr) = self.tyop(&mut c);
                    c.expect(b',');
                    let (ty, val) = self.tyop(&mut c);
                    Inst::Rmw { dst: d, op, ty, ptr, val }
                }
                "cmpxchg" => {
                    while matches!(c.peek_word(), "weak" | "volatile") {
                        c.word();
                    }
                    let (_, ptr) = self.tyop(&mut c);
                    c.expect(b',');
                    let (ty, cmp) = self.tyop(&mut c);
                    c.expect(b',');
                    let (_, new) = self.tyop(&mut c);
                    Inst::CmpXchg { dst: d, ty, ptr, cmp, new }
                }
                "call" | "invoke" => {
                    // cc + attrs
                    loop {
                        let p = c.peek();
                        if p == b'[' || p == b'{' || p == b'<' || p == b'%' {
                            break;
                        }
                        let wd = c.peek_word();
                        if is_type_word(wd) {
                            break;
                        }
                        let before = c.p;
                        self.m.skip_attrs_to_type(&mut c);
                        if c.p == before {
                            break;
                        }
                    }
                    let ret = self.m.ty(&mut c);
                    if c.peek() == b'(' {
                        c.skip_balanced();
                    }
                    let callee = match c.peek() {
                        b'@' => {
                            c.p += 1;
                            let mut n = c.name();
                            while let Some(a) = self.m.aliases.get(&n) {
                                n = a.clone();
                            }
                            match self.m.fidx.get(&n) {
                                Some(f) if self.m.funcs[*f as usize].body.is_some() => Callee::Func(*f),
                                _ => Callee::Ext(Rc::from(n.as_str())),
                            }
                        }
                        b'%' => {
                            c.p += 1;
                            let n = c.name();
                            Callee::Ind(Op::R(self.reg(&n)))
                        }
                        _ => {
                            if c.peek_word() == "asm" {
                                let t = c.rest();
                                blk.insts.push(if t.contains("\"\"") || ret == Ty::Void {
                                    Inst::Nop
                                } else if t.contains("cpuid") {
                                    Inst::Copy { dst: d, a: Op::C(Val::zero(&ret)) }
                                } else {
                                    Inst::Bad(text.to_string())
                                });
                                blk.dbg.push(dbg);
                                return;
                            }
                            let t = Ty::Ptr;
                            Callee::Ind(Op::C(self.m.constant(&mut c, &t)))
                        }
                    };
                    c.expect(b'(');
                    let mut args = vec![];
                    if !c.eat(b')') {
                        loop {
                            if c.peek_word() == "metadata" {
                                // metadata args: only in debug intrinsics
                                let mut depth = 0;
                                loop {
                                    let ch = c.s[c.p];
                                    if ch == b'(' {
                                        depth += 1
                                    }
                                    if ch == b')' {
                                        if depth == 0 {
                                            break;
                                        }
                                        depth -= 1
                                    }
                                    if ch == b',' && depth == 0 {
                                        break;
                                    }
                                    c.p += 1;
                                }
                            } else {
                                let t = self.m.ty(&mut c);
                                self.m.skip_attrs_to_value(&mut c);
                                let o = self.op(&mut c, &t);
                                args.push((o, t));
                            }
                            if !c.eat(b',') {
                                break;
                            }
                        }
                        c.expect(b')');
                    }
                    let mut normal = None;
                    if w == "invoke" {
                        let r = c.rest();
                        let k = r.find(" to label %").map(|k| k + 4).or_else(|| r.find("to label %").map(|k| k + 3)).unwrap();
                        let rs = &r[k..];
                        let mut cc = Cur::new(rs);
                        normal = Some(self.label(&mut cc));
                    }
                    if let Callee::Ext(n) = &callee {
                        if n.starts_with("llvm.lifetime")
                            || n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.experimental.noalias")
                            || &**n == "llvm.assume"
                            || n.starts_with("llvm.prefetch")
                        {
                            if normal.is_none() {
                                return;
                            }
                        }
                    }
                    Inst::Call { dst, callee, args, ret, normal }
                }
                "landingpad" | "resume" => Inst::Bad(text.to_string()),
                _ => Inst::Bad(text.to_string()),
            }
        };
        blk.insts.push(inst);
        blk.dbg.push(dbg);
    }
}
