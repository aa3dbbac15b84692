//! Path-forking symbolic executor over LLVM IR: depth-first with a memory undo trail, every branch whose
//! condition depends on a symbolic input is decided by the SMT solver.
use crate::expr::{Pool, K, MANY};
use crate::ll::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub enum Stop {
    /// normal end of the path
    Done,
    /// assumption unsatisfiable on this path
    Infeasible,
    Panic(String),
    Bug(String),
    /// the path belongs to another part of the exploration
    Shard,
    /// engine limitation: the run gives no verdict
    Error(String),
}
type R<T> = Result<T, Stop>;

const STACK_BASE: u64 = 0x0080_0000;
const HEAP_BASE: u64 = 0x0400_0000;
const MEM_SIZE: u64 = 0x2000_0000;

pub struct Mem {
    data: Vec<u8>,
    flag: Vec<u8>,
    sym: Vec<u32>,
    stamp: Vec<u32>,
    epoch: u32,
    trail: Vec<(u32, u64, u64, Option<Box<[u32; 8]>>)>,
}

fn zeroed<T: Clone + Default>(n: usize) -> Vec<T> {
    unsafe {
        let l = std::alloc::Layout::array::<T>(n).unwrap();
        let p = std::alloc::alloc_zeroed(l) as *mut T;
        assert!(!p.is_null());
        Vec::from_raw_parts(p, n, n)
    }
}

impl Mem {
    fn new() -> Mem {
        let n = MEM_SIZE as usize;
        Mem { data: zeroed(n), flag: zeroed(n), sym: zeroed(n), stamp: zeroed(n / 8), epoch: 0, trail: vec![] }
    }
    #[inline]
    fn word(&self, w: usize) -> (u64, u64) {
        unsafe {
            (
                (self.data.as_ptr().add(w * 8) as *const u64).read_unaligned(),
                (self.flag.as_ptr().add(w * 8) as *const u64).read_unaligned(),
            )
        }
    }
    #[inline]
    fn touch(&mut self, a: u64, n: u64) {
        if n == 0 {
            return;
        }
        let (w0, w1) = ((a / 8) as usize, ((a + n - 1) / 8) as usize);
        for w in w0..=w1 {
            if self.stamp[w] != self.epoch {
                let (d, f) = self.word(w);
                let s = if f & 0x0202_0202_0202_0202 != 0 {
                    let mut b = Box::new([0u32; 8]);
                    b.copy_from_slice(&self.sym[w * 8..w * 8 + 8]);
                    Some(b)
                } else {
                    None
                };
                self.trail.push((w as u32, d, f, s));
                self.stamp[w] = self.epoch;
            }
        }
    }
    fn undo(&mut self, to: usize) {
        while self.trail.len() > to {
            let (w, d, f, s) = self.trail.pop().unwrap();
            let w = w as usize;
            unsafe {
                (self.data.as_mut_ptr().add(w * 8) as *mut u64).write_unaligned(d);
                (self.flag.as_mut_ptr().add(w * 8) as *mut u64).write_unaligned(f);
            }
            if let Some(s) = s {
                self.sym[w * 8..w * 8 + 8].copy_from_slice(&s[..]);
            }
        }
    }
}
// flags: 0 = not allocated, 1 = concrete, 2 = symbolic, 4 = allocated but never written

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    fi: u32,
    bb: u32,
    ip: u32,
    base: usize,
    dst: Option<u32>,
    normal: Option<u32>,
    sp: u64,
}

struct Choice {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    heap: u64,
    sp: u64,
    trail: usize,
    known: usize,
    inputs: usize,
    obs: usize,
    panic_ok: bool,
    steps: u64,
    cons: u32,
    model: Vec<u64>,
    epoch: u32,
    dhash: u64,
    dcount: u32,
}

#[derive(Clone)]
pub struct Violation {
    pub msg: String,
    pub kind: &'static str,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
    pub panicked: bool,
}

pub struct Exec {
    pub m: Module,
    mem: Mem,
    frames: Vec<Frame>,
    regs: Vec<Val>,
    heap: u64,
    sp: u64,
    pub pool: Pool,
    pub solver: Solver,
    model: Vec<u64>,
    known: HashMap<u32, bool>,
    known_trail: Vec<u32>,
    choices: Vec<Choice>,
    inputs: Vec<u32>,
    obs: Vec<Val>,
    panic_ok: bool,
    steps: u64,
    fkind: Vec<u8>, // 0 unknown 1 normal 2 panic
    pub params: Vec<u64>,
    // results
    pub total_steps: u64,
    pub paths_ok: u64,
    pub paths_panic: u64,
    pub paths_infeasible: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub violations: BTreeMap<String, Violation>,
    pub samples: Vec<Sample>,
    pub sample_stride: u64,
    pub sample_cap: usize,
    pub covers: BTreeMap<String, u64>,
    pub cov: Vec<u8>,
    pub fcov: BTreeMap<u32, u64>,
    pub step_limit: u64,
    pub max_depth: usize,
    pub max_inputs: usize,
    pub queries_dump: Option<(std::path::PathBuf, u64, u64)>,
    /// which part of the paths to explore: part, parts, decisions which select the part
    pub shard: (u64, u64, u32),
    dhash: u64,
    dcount: u32,
}

fn hash_name(n: &str, w: &str) -> bool {
    n.contains(w)
}

impl Exec {
    pub fn new(m: Module, timeout_ms: u32) -> Exec {
        let nf = m.funcs.len();
        let mut e = Exec {
            m,
            mem: Mem::new(),
            frames: vec![],
            regs: vec![],
            heap: HEAP_BASE,
            sp: STACK_BASE,
            pool: Pool::new(),
            solver: Solver::new(timeout_ms),
            model: vec![],
            known: HashMap::new(),
            known_trail: vec![],
            choices: vec![],
            inputs: vec![],
            obs: vec![],
            panic_ok: false,
            steps: 0,
            fkind: vec![0; nf],
            params: vec![],
            total_steps: 0,
            paths_ok: 0,
            paths_panic: 0,
            paths_infeasible: 0,
            forks: 0,
            asserts: 0,
            asserts_symbolic: 0,
            violations: BTreeMap::new(),
            samples: vec![],
            sample_stride: 1,
            sample_cap: 200,
            covers: BTreeMap::new(),
            cov: vec![],
            fcov: BTreeMap::new(),
            step_limit: 20_000_000,
            max_depth: 0,
            max_inputs: 0,
            queries_dump: None,
            shard: (0, 1, 0),
            dhash: 0,
            dcount: 0,
        };
        e.init_globals();
        e
    }

    fn init_globals(&mut self) {
        assert!(self.m.globals_end < STACK_BASE - 64, "globals too large");
        for b in STACK_BASE - 64..STACK_BASE - 56 {
            self.mem.flag[b as usize] = 1; // errno
        }
        for i in 0..self.m.globals.len() {
            let (addr, ty, line, pos, ext) = {
                let g = &self.m.globals[i];
                (g.addr, g.ty.clone(), g.line, g.init_pos, g.external)
            };
            let sz = ty.size();
            for b in addr..addr + sz {
                self.mem.flag[b as usize] = 1;
            }
            if ext {
                continue;
            }
            let text: &'static str = self.m.lines[line];
            let mut c = Cur::new(text);
            c.p = pos;
            let v = self.m.constant(&mut c, &ty);
            if let Err(_) = self.store(addr, &ty, v) {
                panic!("global init");
            }
        }
    }

    // ---------------------------------------------------------------- symbolic helpers
    fn ex(&mut self, v: &Val, w: u32) -> u32 {
        match v {
            Val::C(x) => self.pool.cst(*x, w),
            Val::S(e) => *e,
            _ => panic!("ex of aggregate"),
        }
    }
    fn val(&self, e: u32) -> Val {
        match self.pool.as_const(e) {
            Some(x) => Val::C(x),
            None => Val::S(e),
        }
    }
    fn know(&mut self, e: u32, b: bool) {
        if self.known.insert(e, b).is_none() {
            self.known_trail.push(e);
        }
    }
    fn norm(&self, e: u32) -> (u32, bool) {
        let n = self.pool.nodes[e as usize];
        if n.op == K::Xor && n.w == 1 && self.pool.as_const(n.b) == Some(1) {
            (n.a, true)
        } else {
            (e, false)
        }
    }
    fn check_with(&mut self, cons: u32) -> R<Option<Vec<u64>>> {
        self.solver.push();
        self.solver.assert(&self.pool, cons);
        if let Some((dir, n, cap)) = &mut self.queries_dump {
            *n += 1;
            let i = *n;
            if i <= *cap || i % 97 == 0 && i / 97 <= *cap {
                let s = self.solver.to_smt2();
                let _ = std::fs::write(dir.join(format!("q{}.smt2", i)), s);
            }
        }
        let r = self.solver.check();
        if let Some((dir, n, _)) = &self.queries_dump {
            let f = dir.join(format!("q{}.smt2", n));
            if f.exists() {
                let _ = std::fs::write(dir.join(format!("q{}.res", n)), if r == Res::Sat { "sat" } else { "unsat" });
            }
        }
        let out = match r {
            Res::Sat => {
                let inp = self.inputs.clone();
                Some(self.solver.model(&self.pool, &inp))
            }
            Res::Unsat => None,
            Res::Unknown => {
                self.solver.pop(1);
                return Err(Stop::Error("solver returned unknown (timeout)".into()));
            }
        };
        self.solver.pop(1);
        Ok(out)
    }
    fn eval(&mut self, e: u32) -> u64 {
        self.pool.eval(e, &self.model)
    }
    fn set_model(&mut self, m: Vec<u64>) {
        self.model = m;
        self.pool.new_gen();
    }
    /// A choice of the harness. The choices of a path are a function of its inputs, whatever the order of the
    /// exploration, so that they split the paths into parts.
    fn decided(&mut self, v: u64) -> R<()> {
        if self.shard.1 < 2 || self.dcount >= self.shard.2 {
            return Ok(());
        }
        self.dcount += 1;
        self.dhash = (self.dhash ^ v.wrapping_add(0x9e37)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
        if self.dcount == self.shard.2 && !self.mine() {
            return Err(Stop::Shard);
        }
        Ok(())
    }
    fn mine(&self) -> bool {
        self.shard.1 < 2 || (self.dhash.wrapping_mul(0xff51_afd7_ed55_8ccd) >> 33) % self.shard.1 == self.shard.0
    }
    /// decide a symbolic condition on the current path; forks when both sides are satisfiable
    fn branch(&mut self, e: u32) -> R<bool> {
        if let Some(k) = self.pool.as_const(e) {
            return Ok(k != 0);
        }
        let (base, neg) = self.norm(e);
        if let Some(b) = self.known.get(&base) {
            return Ok(*b != neg);
        }
        let v = self.eval(e) != 0;
        let ne = self.pool.not1(e);
        let (this, other) = if v { (e, ne) } else { (ne, e) };
        match self.check_with(other)? {
            Some(m2) => {
                self.forks += 1;
                self.choices.push(Choice {
                    frames: self.frames.clone(),
                    regs: self.regs.clone(),
                    heap: self.heap,
                    sp: self.sp,
                    trail: self.mem.trail.len(),
                    known: self.known_trail.len(),
                    inputs: self.inputs.len(),
                    obs: self.obs.len(),
                    panic_ok: self.panic_ok,
                    steps: self.steps,
                    cons: other,
                    model: m2,
                    epoch: self.mem.epoch,
                    dhash: self.dhash,
                    dcount: self.dcount,
                });
                self.mem.epoch = self.next_epoch();
                self.max_depth = self.max_depth.max(self.choices.len());
                self.solver.push();
                self.solver.assert(&self.pool, this);
                self.know(base, v != neg);
                return Ok(v);
            }
            None => {}
        }
        self.know(base, v != neg);
        Ok(v)
    }
    fn next_epoch(&mut self) -> u32 {
        // epochs must never be reused while stale stamps exist
        static mut E: u32 = 0;
        unsafe {
            E += 1;
            E
        }
    }
    fn conc(&mut self, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(e) => {
                let e = *e;
                let x = self.eval(e);
                let w = self.pool.w(e);
                let c = self.pool.cst(x, w);
                let q = self.pool.cmp(K::Eq, e, c);
                self.branch(q)?;
                Ok(x)
            }
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => Err(Stop::Error("conc of aggregate".into())),
        }
    }
    fn conc128(&mut self, v: &Val) -> R<u128> {
        match v {
            Val::W(x) => Ok(**x),
            v => Ok(self.conc(v)? as u128),
        }
    }
    fn assume(&mut self, e: u32) -> R<()> {
        if let Some(k) = self.pool.as_const(e) {
            return if k != 0 { Ok(()) } else { Err(Stop::Infeasible) };
        }
        let (base, neg) = self.norm(e);
        if let Some(b) = self.known.get(&base) {
            return if *b != neg { Ok(()) } else { Err(Stop::Infeasible) };
        }
        if self.eval(e) == 0 {
            match self.check_with(e)? {
                Some(m) => self.set_model(m),
                None => return Err(Stop::Infeasible),
            }
        }
        self.solver.assert(&self.pool, e);
        self.know(base, !neg);
        Ok(())
    }
    fn input_values(&mut self, model: Option<&Vec<u64>>) -> Vec<u64> {
        let n = self.inputs.len();
        let m = model.unwrap_or(&self.model);
        (0..n)
            .map(|i| {
                let w = self.pool.w(self.inputs[i]);
                mask(m.get(i).copied().unwrap_or(0), w)
            })
            .collect()
    }
    fn stack_names(&self) -> Vec<String> {
        self.frames.iter().rev().map(|f| demangle(&f.f.name)).collect()
    }
    fn violation(&mut self, kind: &'static str, msg: String, model: Option<Vec<u64>>) {
        let key = format!("{}: {}", kind, msg);
        if !self.violations.contains_key(&key) {
            let inputs = self.input_values(model.as_ref());
            let stack = self.stack_names();
            self.violations.insert(key, Violation { msg, kind, inputs, stack });
        }
    }

    // ---------------------------------------------------------------- memory
    fn chk(&self, a: u64, n: u64, what: &str) -> R<()> {
        if a < GLOBAL_BASE || a + n > MEM_SIZE {
            return Err(Stop::Bug(format!("invalid memory {} at {:#x} size {}", what, a, n)));
        }
        for i in a..a + n {
            if self.mem.flag[i as usize] == 0 {
                return Err(Stop::Bug(format!("invalid memory {} at {:#x} size {}", what, a, n)));
            }
        }
        Ok(())
    }
    fn load_int(&mut self, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        if a < GLOBAL_BASE || a + n > MEM_SIZE {
            return Err(Stop::Bug(format!("invalid memory read at {:#x} size {}", a, n)));
        }
        let p = a as usize;
        if n <= 8 {
            let (mut d, mut f) = unsafe {
                (
                    (self.mem.data.as_ptr().add(p) as *const u64).read_unaligned(),
                    (self.mem.flag.as_ptr().add(p) as *const u64).read_unaligned(),
                )
            };
            let bits = n as u32 * 8;
            d = mask(d, bits);
            f = mask(f, bits);
            if f == mask(0x0101_0101_0101_0101, bits) {
                return Ok(Val::C(mask(d, w)));
            }
            // detail
            let mut anysym = false;
            for i in p..p + n as usize {
                match self.mem.flag[i] {
                    0 => return Err(Stop::Bug(format!("invalid memory read at {:#x} size {}", a, n))),
                    2 => anysym = true,
                    _ => {}
                }
            }
            if !anysym {
                // never-written bytes read as zero
                let mut x = 0u64;
                for i in 0..n as usize {
                    if self.mem.flag[p + i] == 1 {
                        x |= (self.mem.data[p + i] as u64) << (8 * i);
                    }
                }
                return Ok(Val::C(mask(x, w)));
            }
            let mut e: Option<u32> = None;
            for i in 0..n as usize {
                let b = match self.mem.flag[p + i] {
                    2 => self.mem.sym[p + i],
                    1 => {
                        let x = self.mem.data[p + i] as u64;
                        self.pool.cst(x, 8)
                    }
                    _ => self.pool.cst(0, 8),
                };
                e = Some(match e {
                    None => b,
                    Some(l) => self.pool.concat(b, l),
                });
            }
            let mut e = e.unwrap();
            if w < bits {
                e = self.pool.extract(e, 0, w);
            }
            Ok(self.val(e))
        } else {
            let lo = self.load_int(a, 64)?;
            let hi = self.load_int(a + 8, w - 64)?;
            let lo = self.conc(&lo)? as u128;
            let hi = self.conc(&hi)? as u128;
            Ok(Val::W(Box::new(lo | hi << 64)))
        }
    }
    /// A load whose address depends on one input byte, from memory with known contents: one path per different
    /// value found there instead of one per address.
    fn load_table(&mut self, e: u32, w: u32) -> R<Option<Val>> {
        let n = ((w + 7) / 8) as u64;
        let var = self.pool.only_var(e);
        if n > 8 || var >= MANY || self.pool.w(var) != 8 {
            return Ok(None);
        }
        let addr = self.pool.table(e, var);
        for a in addr.iter() {
            if *a < GLOBAL_BASE || *a + n > MEM_SIZE || self.mem.flag[*a as usize..(*a + n) as usize].iter().any(|f| *f != 1) {
                return Ok(None);
            }
        }
        let mut vals = Vec::with_capacity(256);
        for a in addr.iter() {
            match self.load_int(*a, w)? {
                Val::C(x) => vals.push(x),
                _ => return Ok(None),
            }
        }
        let x = self.eval(var) as usize;
        let x = vals[x];
        let mut cond = None;
        let mut i = 0;
        while i < 256 {
            if vals[i] != x {
                i += 1;
                continue;
            }
            let lo = i;
            while i < 256 && vals[i] == x {
                i += 1;
            }
            let l = self.pool.cst(lo as u64, 8);
            let h = self.pool.cst(i as u64 - 1, 8);
            let a = self.pool.cmp(K::Ule, l, var);
            let b = self.pool.cmp(K::Ule, var, h);
            let c = self.pool.bin(K::And, a, b);
            cond = Some(match cond {
                None => c,
                Some(d) => self.pool.bin(K::Or, d, c),
            });
        }
        if !self.branch(cond.unwrap())? {
            return Err(Stop::Error("branch against its model".into()));
        }
        Ok(Some(Val::C(x)))
    }
    fn load(&mut self, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => self.load_int(a, *w),
            Ty::Ptr | Ty::F64 => self.load_int(a, 64),
            Ty::F32 => self.load_int(a, 32),
            Ty::Vec(n, t) if matches!(**t, Ty::Int(1)) => {
                let x = self.load_int(a, *n)?;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.bits_of(&[(x.clone(), *n)], i, 1)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let mut v = Vec::with_capacity(ty.count());
                for i in 0..ty.count() {
                    v.push(self.load(a + ty.field_off(i), ty.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Error(format!("load of {:?}", ty))),
        }
    }
    fn store_bytes_conc(&mut self, a: u64, x: u64, n: u64) -> R<()> {
        if a < GLOBAL_BASE || a + n > MEM_SIZE {
            return Err(Stop::Bug(format!("invalid memory write at {:#x} size {}", a, n)));
        }
        let p = a as usize;
        for i in p..p + n as usize {
            if self.mem.flag[i] == 0 {
                return Err(Stop::Bug(format!("invalid memory write at {:#x} size {}", a, n)));
            }
        }
        self.mem.touch(a, n);
        let b = x.to_le_bytes();
        for i in 0..n as usize {
            self.mem.data[p + i] = b[i];
            self.mem.flag[p + i] = 1;
        }
        Ok(())
    }
    fn store(&mut self, a: u64, ty: &Ty, v: Val) -> R<()> {
        match (ty, v) {
            (Ty::Arr(..) | Ty::Struct(..), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    self.store(a + ty.field_off(i), ty.elem(i), x.clone())?;
                }
                Ok(())
            }
            (Ty::Vec(n, t), Val::A(vs)) => {
                if matches!(**t, Ty::Int(1)) {
                    let parts: Vec<(Val, u32)> = vs.iter().map(|x| (x.clone(), 1)).collect();
                    let x = self.bits_of(&parts, 0, *n)?;
                    return self.store(a, &Ty::Int(*n), x);
                }
                for (i, x) in vs.iter().enumerate() {
                    self.store(a + ty.field_off(i), t, x.clone())?;
                }
                Ok(())
            }
            (_, Val::W(x)) => {
                self.store_bytes_conc(a, *x as u64, 8)?;
                let n = ty.size() - 8;
                self.store_bytes_conc(a + 8, (*x >> 64) as u64, n.min(8))
            }
            (_, Val::C(x)) => {
                let w = ty.bits();
                if w > 64 {
                    self.store_bytes_conc(a, x, 8)?;
                    self.store_bytes_conc(a + 8, 0, 8)
                } else {
                    self.store_bytes_conc(a, x, ((w + 7) / 8) as u64)
                }
            }
            (_, Val::S(e)) => {
                let w = self.pool.w(e);
                let n = ((w + 7) / 8) as u64;
                self.chk(a, n, "write")?;
                self.mem.touch(a, n);
                let e = self.pool.zext(e, n as u32 * 8);
                for i in 0..n {
                    let b = self.pool.extract(e, i as u32 * 8, 8);
                    self.put_byte(a + i, b);
                }
                Ok(())
            }
            (t, v) => Err(Stop::Error(format!("store {:?} of {:?}", t, v))),
        }
    }
    fn put_byte(&mut self, a: u64, b: u32) {
        let p = a as usize;
        match self.pool.as_const(b) {
            Some(x) => {
                self.mem.data[p] = x as u8;
                self.mem.flag[p] = 1;
            }
            None => {
                self.mem.sym[p] = b;
                self.mem.flag[p] = 2;
            }
        }
    }
    fn get_byte(&mut self, a: u64) -> Val {
        let p = a as usize;
        match self.mem.flag[p] {
            2 => Val::S(self.mem.sym[p]),
            1 => Val::C(self.mem.data[p] as u64),
            _ => Val::C(0),
        }
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        self.chk(s, n, "read")?;
        self.chk(d, n, "write")?;
        self.mem.touch(d, n);
        let (d, s, n) = (d as usize, s as usize, n as usize);
        let f = self.mem.flag[s..s + n].iter().any(|f| *f == 2);
        self.mem.data.copy_within(s..s + n, d);
        self.mem.flag.copy_within(s..s + n, d);
        if f {
            self.mem.sym.copy_within(s..s + n, d);
        }
        Ok(())
    }
    fn memset(&mut self, d: u64, v: Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.chk(d, n, "write")?;
        self.mem.touch(d, n);
        for i in d..d + n {
            match v {
                Val::C(x) => {
                    self.mem.data[i as usize] = x as u8;
                    self.mem.flag[i as usize] = 1;
                }
                Val::S(e) => self.put_byte(i, e),
                _ => return Err(Stop::Error("memset".into())),
            }
        }
        Ok(())
    }
    fn set_flags(&mut self, a: u64, n: u64, f: u8) {
        self.mem.touch(a, n);
        for x in &mut self.mem.flag[a as usize..(a + n) as usize] {
            *x = f;
        }
    }
    fn malloc(&mut self, n: u64, align: u64) -> R<u64> {
        if n > 0x800_0000 {
            return Err(Stop::Bug(format!("huge allocation {}", n)));
        }
        let al = align.max(16);
        let a = (self.heap + 32 + al - 1) / al * al;
        if a + n + 64 > MEM_SIZE {
            return Err(Stop::Error("heap arena exhausted".into()));
        }
        self.heap = a + n + 16;
        // size header, not accessible to the program
        self.mem.touch(a - 16, 8);
        unsafe { (self.mem.data.as_mut_ptr().add(a as usize - 16) as *mut u64).write_unaligned(n) };
        if n > 0 {
            self.set_flags(a, n, 4);
        }
        Ok(a)
    }
    fn blk_size(&self, a: u64) -> u64 {
        unsafe { (self.mem.data.as_ptr().add(a as usize - 16) as *const u64).read_unaligned() }
    }
    fn free(&mut self, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        if a < HEAP_BASE || a >= self.heap {
            return Err(Stop::Bug(format!("free of invalid pointer {:#x}", a)));
        }
        let n = self.blk_size(a);
        if n > 0 {
            if self.mem.flag[a as usize] == 0 {
                return Err(Stop::Bug(format!("double free {:#x}", a)));
            }
            self.set_flags(a, n, 0);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- values
    #[inline]
    fn get(&self, base: usize, o: &Op) -> Val {
        match o {
            Op::R(r) => self.regs[base + *r as usize].clone(),
            Op::C(v) => v.clone(),
        }
    }
    /// `w` bits starting at bit `lo` of the little-endian concatenation of parts
    fn bits_of(&mut self, parts: &[(Val, u32)], lo: u32, w: u32) -> R<Val> {
        if w > 64 {
            let mut r: u128 = 0;
            let l = self.bits_of(parts, lo, 64)?;
            r |= self.conc(&l)? as u128;
            let h = self.bits_of(parts, lo + 64, w - 64)?;
            r |= (self.conc(&h)? as u128) << 64;
            return Ok(Val::W(Box::new(r)));
        }
        let mut pos = 0u32;
        let mut acc: Option<u32> = None;
        let mut cacc: u64 = 0;
        let mut cw = 0u32;
        let mut all_c = true;
        let mut pieces: Vec<(Val, u32, u32)> = vec![];
        for (v, pw) in parts {
            let (s, e) = (pos, pos + pw);
            pos = e;
            let a = s.max(lo);
            let b = e.min(lo + w);
            if a < b {
                if !matches!(v, Val::C(_) | Val::W(_)) {
                    all_c = false;
                }
                pieces.push((v.clone(), a - s, b - a));
            }
        }
        for (v, off, n) in &pieces {
            match v {
                Val::C(x) if all_c => {
                    cacc |= mask(*x >> off, *n) << cw;
                    cw += n;
                }
                Val::W(x) if all_c => {
                    cacc |= mask((**x >> off) as u64, *n) << cw;
                    cw += n;
                }
                _ => {
                    let e = match v {
                        Val::C(x) => self.pool.cst(mask(*x >> off, *n), *n),
                        Val::W(x) => self.pool.cst((**x >> off) as u64, *n),
                        Val::S(e) => self.pool.extract(*e, *off, *n),
                        _ => return Err(Stop::Error("bits_of".into())),
                    };
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.pool.concat(e, l),
                    });
                }
            }
        }
        if all_c {
            Ok(Val::C(cacc))
        } else {
            Ok(self.val(acc.unwrap()))
        }
    }
    fn bin1(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w > 64 {
            let x = self.conc128(a)?;
            let y = self.conc128(b)?;
            let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv => {
                    if y == 0 {
                        return Err(Stop::Bug("division by zero".into()));
                    }
                    x / y
                }
                Bin::URem => {
                    if y == 0 {
                        return Err(Stop::Bug("division by zero".into()));
                    }
                    x % y
                }
                Bin::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                _ => return Err(Stop::Error("128-bit signed op".into())),
            } & m;
            return Ok(Val::W(Box::new(r)));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            return Ok(Val::C(match op {
                Bin::Add => mask(x.wrapping_add(y), w),
                Bin::Sub => mask(x.wrapping_sub(y), w),
                Bin::Mul => mask(x.wrapping_mul(y), w),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        mask(x << y, w)
                    }
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => match Pool::fold(kop(op), w, x, y) {
                    Some(r) => r,
                    None => return Err(Stop::Bug("division by zero".into())),
                },
            }));
        }
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
            // divisor must be nonzero
            let y = self.ex(b, w);
            let z = self.pool.cst(0, w);
            let q = self.pool.cmp(K::Eq, y, z);
            if self.branch(q)? {
                return Err(Stop::Bug("division by zero".into()));
            }
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.pool.bin(kop(op), x, y);
        Ok(self.val(e))
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            return Ok(Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u64));
        }
        if w > 64 {
            let x = self.conc128(a)?;
            let y = self.conc128(b)?;
            return Ok(Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => (x as i128) < (y as i128),
                Pred::Sle => (x as i128) <= (y as i128),
                Pred::Sgt => (x as i128) > (y as i128),
                Pred::Sge => (x as i128) >= (y as i128),
            } as u64));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let pool = &mut self.pool;
        let e = match p {
            Pred::Eq => pool.cmp(K::Eq, x, y),
            Pred::Ne => {
                let q = pool.cmp(K::Eq, x, y);
                pool.not1(q)
            }
            Pred::Ult => pool.cmp(K::Ult, x, y),
            Pred::Ule => pool.cmp(K::Ule, x, y),
            Pred::Ugt => pool.cmp(K::Ult, y, x),
            Pred::Uge => pool.cmp(K::Ule, y, x),
            Pred::Slt => pool.cmp(K::Slt, x, y),
            Pred::Sle => pool.cmp(K::Sle, x, y),
            Pred::Sgt => pool.cmp(K::Slt, y, x),
            Pred::Sge => pool.cmp(K::Sle, y, x),
        };
        Ok(self.val(e))
    }
    fn cast1(&mut self, k: Cast, fw: u32, tw: u32, a: &Val) -> R<Val> {
        if tw > 64 || fw > 64 {
            let x = self.conc128(a)?;
            let r = match k {
                Cast::Zext | Cast::Bit => x,
                Cast::Trunc => x,
                Cast::Sext => {
                    if fw <= 64 {
                        sext(x as u64, fw) as i128 as u128
                    } else {
                        x
                    }
                }
            };
            return Ok(if tw > 64 { Val::W(Box::new(r)) } else { Val::C(mask(r as u64, tw)) });
        }
        Ok(match a {
            Val::C(x) => Val::C(match k {
                Cast::Zext | Cast::Bit => *x,
                Cast::Sext => mask(sext(*x, fw) as u64, tw),
                Cast::Trunc => mask(*x, tw),
            }),
            Val::S(e) => {
                let r = match k {
                    Cast::Zext | Cast::Bit => self.pool.zext(*e, tw),
                    Cast::Sext => self.pool.sext(*e, tw),
                    Cast::Trunc => self.pool.extract(*e, 0, tw),
                };
                self.val(r)
            }
            _ => return Err(Stop::Error("cast".into())),
        })
    }
    fn sel(&mut self, c: &Val, a: Val, b: Val, ty: &Ty) -> R<Val> {
        match c {
            Val::C(x) => Ok(if *x != 0 { a } else { b }),
            Val::S(e) => match ty {
                Ty::Int(w) if *w > 64 => {
                    let e = *e;
                    Ok(if self.branch(e)? { a } else { b })
                }
                Ty::Int(_) | Ty::F32 | Ty::F64 => {
                    let w = ty.bits();
                    let x = self.ex(&a, w);
                    let y = self.ex(&b, w);
                    let r = self.pool.ite(*e, x, y);
                    Ok(self.val(r))
                }
                _ => {
                    let e = *e;
                    Ok(if self.branch(e)? { a } else { b })
                }
            },
            _ => Err(Stop::Error("select cond".into())),
        }
    }

    // ---------------------------------------------------------------- control
    fn fkind(&mut self, fi: u32) -> u8 {
        let k = self.fkind[fi as usize];
        if k != 0 {
            return k;
        }
        let n = &self.m.funcs[fi as usize].name;
        let k = if hash_name(n, "4core9panicking9panic_fmt")
            || hash_name(n, "4core9panicking18panic_nounwind_fmt")
            || hash_name(n, "4core9panicking14panic_nounwind")
            || hash_name(n, "9panicking11begin_panic")
            || hash_name(n, "4core9panicking19panic_cannot_unwind")
            || n.contains("rust_begin_unwind")
            || n.contains("3std9panicking13panic_handler")
            || n.contains("5alloc5alloc18handle_alloc_error")
        {
            2
        } else {
            1
        };
        self.fkind[fi as usize] = k;
        k
    }
    fn panic_msg(&mut self, fi: u32, args: &[Val]) -> String {
        let n = self.m.funcs[fi as usize].name.clone();
        let mut msg = String::new();
        let c = |v: &Val| if let Val::C(x) = v { Some(*x) } else { None };
        if n.contains("panic_fmt") && args.len() >= 2 {
            if let (Some(t), Some(a)) = (c(&args[0]), c(&args[1])) {
                if a & 1 == 1 && (a >> 1) < 4096 {
                    msg = self.rd_str(t, a >> 1);
                }
            }
        } else if n.contains("panic_nounwind") && args.len() >= 2 {
            if let (Some(t), Some(a)) = (c(&args[0]), c(&args[1])) {
                if a < 4096 {
                    msg = self.rd_str(t, a);
                }
            }
        }
        let mut loc = String::new();
        if let Some(l) = args.last().and_then(c) {
            if let (Ok(Val::C(p)), Ok(Val::C(len)), Ok(Val::C(line))) =
                (self.load_int(l, 64), self.load_int(l + 8, 64), self.load_int(l + 16, 32))
            {
                if len < 4096 {
                    loc = format!("{}:{}", self.rd_str(p, len), line);
                }
            }
        }
        format!("panic at {} {}", loc, msg)
    }
    fn rd_str(&mut self, p: u64, n: u64) -> String {
        if self.chk(p, n, "read").is_err() {
            return String::new();
        }
        let b: Vec<u8> = (0..n).map(|i| self.mem.data[(p + i) as usize]).collect();
        String::from_utf8_lossy(&b).into_owned()
    }
    fn push_frame(&mut self, fi: u32, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        if self.frames.len() > 2000 {
            return Err(Stop::Bug("call depth above 2000 (unbounded recursion)".into()));
        }
        let f = self.m.func(fi);
        *self.fcov.entry(fi).or_insert(0) += 1;
        let base = self.regs.len();
        self.regs.resize(base + f.nregs as usize, Val::C(0));
        for (i, p) in f.params.iter().enumerate() {
            if let Some(v) = args.get(i) {
                self.regs[base + *p as usize] = v.clone();
            }
        }
        self.frames.push(Frame { f, fi, bb: 0, ip: 0, base, dst, normal, sp: self.sp });
        Ok(())
    }
    fn goto(&mut self, to: u32) {
        let fr = self.frames.last_mut().unwrap();
        let from = fr.bb;
        let base = fr.base;
        fr.bb = to;
        fr.ip = 0;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, ins) = &b.phis[0];
                for (p, o) in ins {
                    if *p == from {
                        let v = self.get(base, o);
                        self.regs[base + *d as usize] = v;
                        break;
                    }
                }
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (d, ins) in &b.phis {
                    for (p, o) in ins {
                        if *p == from {
                            vals.push((*d, self.get(base, o)));
                            break;
                        }
                    }
                }
                for (d, v) in vals {
                    self.regs[base + d as usize] = v;
                }
            }
        }
    }

    pub fn run(&mut self, entry: &str, max_paths: u64, deadline: std::time::Instant) -> Result<(), String> {
        let fi = match self.m.fidx.get(entry) {
            Some(f) => *f,
            None => return Err(format!("no such harness {}", entry)),
        };
        self.push_frame(fi, vec![], None, None).map_err(|_| "entry".to_string())?;
        self.mem.epoch = self.next_epoch();
        loop {
            let mut end = match self.run_path() {
                Ok(()) => Stop::Done,
                Err(s) => s,
            };
            // a path with fewer choices is in one part as well
            if self.dcount < self.shard.2 && !self.mine() && !matches!(end, Stop::Error(_) | Stop::Bug(_)) {
                end = Stop::Shard;
            }
            match end {
                Stop::Done => {
                    self.paths_ok += 1;
                    self.sample(false);
                }
                Stop::Infeasible => self.paths_infeasible += 1,
                Stop::Shard => {}
                Stop::Panic(m) => {
                    self.paths_panic += 1;
                    if !self.panic_ok {
                        self.violation("panic", m, None);
                    }
                    self.sample(true);
                }
                Stop::Bug(m) => {
                    self.violation("memory", m, None);
                }
                Stop::Error(m) => {
                    let st = self.stack_names();
                    return Err(format!("{} in {}", m, st.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")));
                }
            }
            self.max_inputs = self.max_inputs.max(self.inputs.len());
            if self.violations.len() >= 12 {
                return Ok(());
            }
            if !self.backtrack() {
                return Ok(());
            }
            let n = self.paths_ok + self.paths_panic + self.paths_infeasible;
            if n >= max_paths {
                return Err(format!("path budget {} exhausted", max_paths));
            }
            if std::time::Instant::now() > deadline {
                return Err("time budget exhausted".into());
            }
        }
    }
    fn sample(&mut self, panicked: bool) {
        let n = self.paths_ok + self.paths_panic;
        if n % self.sample_stride != 0 {
            return;
        }
        if self.samples.len() >= self.sample_cap {
            // thin out: keep every second one
            let mut k = 0;
            self.samples.retain(|_| {
                k += 1;
                k % 2 == 0
            });
            self.sample_stride *= 2;
        }
        let inputs = self.input_values(None);
        let obs = self.obs.clone();
        let obs = obs
            .iter()
            .map(|v| match v {
                Val::C(x) => *x,
                Val::S(e) => self.eval(*e),
                _ => 0,
            })
            .collect();
        self.samples.push(Sample { inputs, obs, panicked });
    }
    fn backtrack(&mut self) -> bool {
        let c = match self.choices.pop() {
            Some(c) => c,
            None => return false,
        };
        self.mem.undo(c.trail);
        let _ = c.epoch;
        self.mem.epoch = self.next_epoch();
        self.frames = c.frames;
        self.regs = c.regs;
        self.heap = c.heap;
        self.sp = c.sp;
        while self.known_trail.len() > c.known {
            let k = self.known_trail.pop().unwrap();
            self.known.remove(&k);
        }
        self.inputs.truncate(c.inputs);
        self.obs.truncate(c.obs);
        self.panic_ok = c.panic_ok;
        self.steps = c.steps;
        self.solver.pop(1);
        self.solver.assert(&self.pool, c.cons);
        let (b, neg) = self.norm(c.cons);
        self.know(b, !neg);
        self.set_model(c.model);
        self.dhash = c.dhash;
        self.dcount = c.dcount;
        true
    }

    fn run_path(&mut self) -> R<()> {
        loop {
            let fr = self.frames.last().unwrap();
            let f: *const Func = &*fr.f;
            let base = fr.base;
            let bb = fr.bb;
            let blk = unsafe { &(&(*f).blocks)[bb as usize] };
            let mut ip = fr.ip as usize;
            let depth = self.frames.len();
            // straight-line execution inside one block
            loop {
                let inst = &blk.insts[ip];
                let dbg = blk.dbg[ip] as usize;
                if dbg != 0 {
                    if dbg >= self.cov.len() {
                        self.cov.resize(dbg + 1024, 0);
                    }
                    self.cov[dbg] = 1;
                }
                self.frames[depth - 1].ip = ip as u32;
                self.steps += 1;
                self.total_steps += 1;
                if self.steps > self.step_limit {
                    return Err(Stop::Bug(format!("no termination within {} steps", self.step_limit)));
                }
                let moved = self.exec_inst(inst, base)?;
                if moved {
                    if self.frames.is_empty() {
                        return Ok(());
                    }
                    break;
                }
                ip += 1;
            }
        }
    }

    /// true if control moved (block/frame change)
    fn exec_inst(&mut self, inst: &Inst, base: usize) -> R<bool> {
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                self.regs[base + *$d as usize] = v;
            }};
        }
        match inst {
            Inst::Bin { dst, op, ty, a, b } => {
                let x = self.get(base, a);
                let y = self.get(base, b);
                let r = match ty {
                    Ty::Int(w) => self.bin1(*op, *w, &x, &y)?,
                    Ty::Vec(n, t) => {
                        let w = t.bits();
                        let (Val::A(x), Val::A(y)) = (x, y) else { return Err(Stop::Error("vec bin".into())) };
                        let mut v = vec![];
                        for i in 0..*n as usize {
                            v.push(self.bin1(*op, w, &x[i], &y[i])?);
                        }
                        Val::A(Rc::new(v))
                    }
                    _ => return Err(Stop::Error(format!("bin on {:?}", ty))),
                };
                set!(dst, r);
            }
            Inst::Icmp { dst, pred, ty, a, b } => {
                let x = self.get(base, a);
                let y = self.get(base, b);
                let r = match ty {
                    Ty::Vec(n, t) => {
                        let w = t.bits();
                        let (Val::A(x), Val::A(y)) = (x, y) else { return Err(Stop::Error("vec icmp".into())) };
                        let mut v = vec![];
                        for i in 0..*n as usize {
                            v.push(self.icmp1(*pred, w, &x[i], &y[i])?);
                        }
                        Val::A(Rc::new(v))
                    }
                    _ => self.icmp1(*pred, ty.bits(), &x, &y)?,
                };
                set!(dst, r);
            }
            Inst::Gep { dst, base: b, off, idx } => {
                let p = self.get(base, b);
                let mut v = match p {
                    Val::C(x) => Val::C(x.wrapping_add(*off as u64)),
                    Val::S(e) => {
                        let o = self.pool.cst(*off as u64, 64);
                        let r = self.pool.bin(K::Add, e, o);
                        self.val(r)
                    }
                    _ => return Err(Stop::Error("gep base".into())),
                };
                for (o, sc, w) in idx {
                    let i = self.get(base, o);
                    v = match (v, i) {
                        (Val::C(x), Val::C(i)) => {
                            Val::C(x.wrapping_add((sext(i, *w)).wrapping_mul(*sc) as u64))
                        }
                        (v, i) => {
                            let x = self.ex(&v, 64);
                            let ie = self.ex(&i, *w);
                            let ie = self.pool.sext(ie, 64);
                            let s = self.pool.cst(*sc as u64, 64);
                            let t = self.pool.bin(K::Mul, ie, s);
                            let r = self.pool.bin(K::Add, x, t);
                            self.val(r)
                        }
                    };
                }
                set!(dst, v);
            }
            Inst::Load { dst, ty, ptr } => {
                let p = self.get(base, ptr);
                if let (Val::S(e), Ty::Int(w)) = (&p, ty) {
                    if let Some(v) = self.load_table(*e, *w)? {
                        set!(dst, v);
                        return Ok(false);
                    }
                }
                let a = self.conc(&p)?;
                let v = self.load(a, ty)?;
                set!(dst, v);
            }
            Inst::Store { ty, val, ptr } => {
                let p = self.get(base, ptr);
                let a = self.conc(&p)?;
                let v = self.get(base, val);
                self.store(a, ty, v)?;
            }
            Inst::Cast { dst, kind, from, to, a } => {
                let x = self.get(base, a);
                let r = if *kind == Cast::Bit && (matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..))) {
                    let parts: Vec<(Val, u32)> = match (&x, from) {
                        (Val::A(v), Ty::Vec(_, t)) => v.iter().map(|e| (e.clone(), t.bits())).collect(),
                        (v, t) => vec![(v.clone(), t.bits())],
                    };
                    match to {
                        Ty::Vec(n, t) => {
                            let w = t.bits();
                            let mut v = vec![];
                            for i in 0..*n {
                                v.push(self.bits_of(&parts, i * w, w)?);
                            }
                            Val::A(Rc::new(v))
                        }
                        t => self.bits_of(&parts, 0, t.bits())?,
                    }
                } else {
                    match (from, to) {
                        (Ty::Vec(n, f), Ty::Vec(_, t)) => {
                            let (fw, tw) = (f.bits(), t.bits());
                            let Val::A(x) = x else { return Err(Stop::Error("vec cast".into())) };
                            let mut v = vec![];
                            for i in 0..*n as usize {
                                v.push(self.cast1(*kind, fw, tw, &x[i])?);
                            }
                            Val::A(Rc::new(v))
                        }
                        _ => self.cast1(*kind, from.bits(), to.bits(), &x)?,
                    }
                };
                set!(dst, r);
            }
            Inst::Select { dst, cty, ty, c, a, b } => {
                let cv = self.get(base, c);
                let x = self.get(base, a);
                let y = self.get(base, b);
                let r = match (cty, &cv) {
                    (Ty::Vec(n, _), Val::A(cs)) => {
                        let (Val::A(x), Val::A(y)) = (x, y) else { return Err(Stop::Error("vec select".into())) };
                        let mut v = vec![];
                        for i in 0..*n as usize {
                            v.push(self.sel(&cs[i], x[i].clone(), y[i].clone(), ty.elem(0))?);
                        }
                        Val::A(Rc::new(v))
                    }
                    _ => self.sel(&cv, x, y, ty)?,
                };
                set!(dst, r);
            }
            Inst::Br(b) => {
                self.goto(*b);
                return Ok(true);
            }
            Inst::CondBr(c, a, b) => {
                let v = self.get(base, c);
                let t = match v {
                    Val::C(x) => x != 0,
                    Val::S(e) => self.branch(e)?,
                    _ => return Err(Stop::Error("br".into())),
                };
                self.goto(if t { *a } else { *b });
                return Ok(true);
            }
            Inst::Switch { v, w, def, cases } => {
                let x = self.get(base, v);
                let mut to = *def;
                match x {
                    Val::C(x) => {
                        for (k, b) in cases {
                            if *k == x {
                                to = *b;
                                break;
                            }
                        }
                    }
                    Val::S(e) => {
                        // test the target selected by the current model first
                        let cur = self.eval(e);
                        let mut hit = None;
                        for (k, b) in cases {
                            if *k == cur {
                                hit = Some((*k, *b));
                            }
                        }
                        if let Some((k, b)) = hit {
                            let c = self.pool.cst(k, *w);
                            let q = self.pool.cmp(K::Eq, e, c);
                            self.branch(q)?;
                            to = b;
                        } else {
                            // default: exclude every case value at once
                            let mut any = self.pool.cst(0, 1);
                            for (k, _) in cases {
                                let c = self.pool.cst(*k, *w);
                                let q = self.pool.cmp(K::Eq, e, c);
                                any = self.pool.bin(K::Or, any, q);
                            }
                            if self.branch(any)? {
                                return Err(Stop::Error("switch".into()));
                            }
                        }
                    }
                    _ => return Err(Stop::Error("switch".into())),
                }
                self.goto(to);
                return Ok(true);
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(base, o));
                let fr = self.frames.pop().unwrap();
                self.regs.truncate(fr.base);
                self.sp = fr.sp;
                if let Some(caller) = self.frames.last_mut() {
                    let cb = caller.base;
                    if let (Some(d), Some(v)) = (fr.dst, v) {
                        self.regs[cb + d as usize] = v;
                    }
                    if let Some(n) = fr.normal {
                        self.goto(n);
                    } else {
                        caller.ip += 1;
                    }
                }
                return Ok(true);
            }
            Inst::Call { dst, callee, args, ret, normal } => {
                let mut av: Vec<Val> = Vec::with_capacity(args.len());
                for (o, _) in args {
                    av.push(self.get(base, o));
                }
                let fi = match callee {
                    Callee::Func(f) => *f,
                    Callee::Ind(o) => {
                        let p = self.get(base, o);
                        let a = self.conc(&p)?;
                        if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64
                        {
                            return Err(Stop::Bug(format!("call of invalid function pointer {:#x}", a)));
                        }
                        let fi = ((a - FUNC_BASE) / 16) as u32;
                        if self.m.funcs[fi as usize].body.is_none() {
                            let n = self.m.funcs[fi as usize].name.clone();
                            let v = self.external(&n, &av, args, ret)?;
                            if let (Some(d), Some(v)) = (dst, v) {
                                self.regs[base + *d as usize] = v;
                            }
                            if let Some(n) = normal {
                                self.goto(*n);
                                return Ok(true);
                            }
                            return Ok(false);
                        }
                        fi
                    }
                    Callee::Ext(n) => {
                        let v = self.external(n, &av, args, ret)?;
                        if let (Some(d), Some(v)) = (dst, v) {
                            self.regs[base + *d as usize] = v;
                        }
                        if let Some(n) = normal {
                            self.goto(*n);
                            return Ok(true);
                        }
                        return Ok(false);
                    }
                };
                if self.fkind(fi) == 2 {
                    let m = self.panic_msg(fi, &av);
                    return Err(Stop::Panic(m));
                }
                self.push_frame(fi, av, *dst, *normal)?;
                return Ok(true);
            }
            Inst::Alloca { dst, size, count, align } => {
                let c = self.get(base, count);
                let c = self.conc(&c)?;
                let n = size * c;
                let al = (*align).max(16);
                let a = (self.sp + al - 1) / al * al;
                self.sp = a + n + 16;
                if self.sp > HEAP_BASE {
                    return Err(Stop::Bug("stack overflow".into()));
                }
                if n > 0 {
                    self.set_flags(a, n, 4);
                }
                // red zone behind the object
                self.set_flags(a + n, 16, 0);
                set!(dst, Val::C(a));
            }
            Inst::ExtractV { dst, a, idx } => {
                let mut v = self.get(base, a);
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Error("extractvalue".into())),
                    };
                }
                set!(dst, v);
            }
            Inst::InsertV { dst, a, v, idx } => {
                let agg = self.get(base, a);
                let x = self.get(base, v);
                fn ins(a: Val, v: Val, idx: &[u32]) -> Val {
                    if idx.is_empty() {
                        return v;
                    }
                    match a {
                        Val::A(r) => {
                            let mut n = (*r).clone();
                            let k = idx[0] as usize;
                            n[k] = ins(n[k].clone(), v, &idx[1..]);
                            Val::A(Rc::new(n))
                        }
                        o => o,
                    }
                }
                set!(dst, ins(agg, x, idx));
            }
            Inst::ExtractE { dst, a, i } => {
                let v = self.get(base, a);
                let i = self.get(base, i);
                let i = self.conc(&i)?;
                let Val::A(x) = v else { return Err(Stop::Error("extractelement".into())) };
                set!(dst, x[i as usize].clone());
            }
            Inst::InsertE { dst, a, v, i } => {
                let agg = self.get(base, a);
                let x = self.get(base, v);
                let i = self.get(base, i);
                let i = self.conc(&i)?;
                let Val::A(r) = agg else { return Err(Stop::Error("insertelement".into())) };
                let mut n = (*r).clone();
                n[i as usize] = x;
                set!(dst, Val::A(Rc::new(n)));
            }
            Inst::Shuffle { dst, a, b, n, mask: mk, ety } => {
                let (Val::A(x), Val::A(y)) = (self.get(base, a), self.get(base, b)) else {
                    return Err(Stop::Error("shuffle".into()));
                };
                let mut v = vec![];
                for k in mk {
                    let k = *k;
                    v.push(if k < 0 {
                        Val::zero(ety)
                    } else if (k as u32) < *n {
                        x[k as usize].clone()
                    } else {
                        y[k as usize - *n as usize].clone()
                    });
                }
                set!(dst, Val::A(Rc::new(v)));
            }
            Inst::Copy { dst, a } => {
                let v = self.get(base, a);
                set!(dst, v);
            }
            Inst::Rmw { dst, op, ty, ptr, val } => {
                let p = self.get(base, ptr);
                let a = self.conc(&p)?;
                let old = self.load(a, ty)?;
                let v = self.get(base, val);
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin1(Bin::Add, w, &old, &v)?,
                    "sub" => self.bin1(Bin::Sub, w, &old, &v)?,
                    "and" => self.bin1(Bin::And, w, &old, &v)?,
                    "or" => self.bin1(Bin::Or, w, &old, &v)?,
                    "xor" => self.bin1(Bin::Xor, w, &old, &v)?,
                    "umax" | "umin" => {
                        let c = self.icmp1(if op == "umax" { Pred::Ugt } else { Pred::Ult }, w, &v, &old)?;
                        self.sel(&c, v, old.clone(), ty)?
                    }
                    _ => return Err(Stop::Error(format!("atomicrmw {}", op))),
                };
                self.store(a, ty, new)?;
                set!(dst, old);
            }
            Inst::CmpXchg { dst, ty, ptr, cmp, new } => {
                let p = self.get(base, ptr);
                let a = self.conc(&p)?;
                let old = self.load(a, ty)?;
                let c = self.get(base, cmp);
                let eq = self.icmp1(Pred::Eq, ty.bits(), &old, &c)?;
                let eq = self.conc(&eq)?;
                if eq != 0 {
                    let n = self.get(base, new);
                    self.store(a, ty, n)?;
                }
                set!(dst, Val::A(Rc::new(vec![old, Val::C(eq)])));
            }
            Inst::Nop => {}
            Inst::Unreachable => return Err(Stop::Bug("unreachable instruction executed (undefined behaviour)".into())),
            Inst::Bad(t) => return Err(Stop::Error(format!("unsupported instruction: {}", t))),
        }
        Ok(false)
    }

    // ---------------------------------------------------------------- externals and intrinsics
    fn external(&mut self, n: &str, a: &[Val], tys: &[(Op, Ty)], ret: &Ty) -> R<Option<Val>> {
        if let Some(r) = n.strip_prefix("llvm.") {
            return self.intrinsic(r, a, tys, ret);
        }
        Ok(Some(match n {
            // ---- harness interface
            "sym_u8" => {
                let i = self.inputs.len() as u32;
                let e = self.pool.var(i, 8);
                self.inputs.push(e);
                if self.model.len() < self.inputs.len() {
                    self.model.push(0);
                } else {
                    self.model[i as usize] = 0;
                    self.model.truncate(self.inputs.len());
                    self.pool.new_gen();
                }
                self.pool.new_gen();
                Val::S(e)
            }
            "sym_assume" => {
                let e = self.ex(&a[0], tys[0].1.bits());
                let e = self.nz(e);
                self.assume(e)?;
                return Ok(None);
            }
            "sym_assert" => {
                let p = self.conc(&a[1])?;
                let l = self.conc(&a[2])?;
                self.asserts += 1;
                let e = self.ex(&a[0], tys[0].1.bits());
                let e = self.nz(e);
                match self.pool.as_const(e) {
                    Some(0) => {
                        let m = self.rd_str(p, l);
                        self.violation("assert", m, None);
                        // the rest of this path carries no further information
                        return Err(Stop::Infeasible);
                    }
                    Some(_) => {}
                    None => {
                        self.asserts_symbolic += 1;
                        let ne = self.pool.not1(e);
                        let (b, neg) = self.norm(e);
                        let kn = self.known.get(&b).map(|k| *k != neg);
                        if kn != Some(true) {
                            let bad = if self.eval(e) == 0 {
                                Some(self.model.clone())
                            } else {
                                self.check_with(ne)?
                            };
                            if let Some(m) = bad {
                                let s = self.rd_str(p, l);
                                self.violation("assert", s, Some(m));
                            }
                            self.assume(e)?;
                        }
                    }
                }
                return Ok(None);
            }
            "sym_cover" => {
                let p = self.conc(&a[0])?;
                let l = self.conc(&a[1])?;
                let m = self.rd_str(p, l);
                *self.covers.entry(m).or_insert(0) += 1;
                return Ok(None);
            }
            "sym_observe" => {
                self.obs.push(a[0].clone());
                return Ok(None);
            }
            "sym_fix" => {
                let v = self.conc(&a[0])?;
                self.decided(v)?;
                Val::C(v)
            }
            "sym_param" => {
                let i = self.conc(&a[0])? as usize;
                let d = self.conc(&a[1])?;
                Val::C(self.params.get(i).copied().unwrap_or(d))
            }
            "sym_panic_ok" => {
                self.panic_ok = self.conc(&a[0])? != 0;
                return Ok(None);
            }
            "sym_end" => return Err(Stop::Done),
            // ---- allocation
            "malloc" => {
                let n = self.conc(&a[0])?;
                Val::C(self.malloc(n, 16)?)
            }
            "calloc" => {
                let x = self.conc(&a[0])?;
                let y = self.conc(&a[1])?;
                let p = self.malloc(x * y, 16)?;
                self.memset(p, Val::C(0), x * y)?;
                Val::C(p)
            }
            "posix_memalign" => {
                let out = self.conc(&a[0])?;
                let al = self.conc(&a[1])?;
                let n = self.conc(&a[2])?;
                let p = self.malloc(n, al)?;
                self.store(out, &Ty::Int(64), Val::C(p))?;
                Val::C(0)
            }
            "aligned_alloc" | "memalign" => {
                let al = self.conc(&a[0])?;
                let n = self.conc(&a[1])?;
                Val::C(self.malloc(n, al)?)
            }
            "realloc" => {
                let p = self.conc(&a[0])?;
                let n = self.conc(&a[1])?;
                if p == 0 {
                    return Ok(Some(Val::C(self.malloc(n, 16)?)));
                }
                let old = self.blk_size(p);
                let q = self.malloc(n, 16)?;
                self.memcpy(q, p, old.min(n))?;
                self.free(p)?;
                Val::C(q)
            }
            "free" => {
                let p = self.conc(&a[0])?;
                self.free(p)?;
                return Ok(None);
            }
            "memcmp" | "bcmp" => {
                let p = self.conc(&a[0])?;
                let q = self.conc(&a[1])?;
                let l = self.conc(&a[2])?;
                if l > 0 {
                    self.chk(p, l, "read")?;
                    self.chk(q, l, "read")?;
                }
                self.compare(p, q, l, n == "memcmp")
            }
            "memcpy" | "memmove" => {
                let d = self.conc(&a[0])?;
                let s = self.conc(&a[1])?;
                let l = self.conc(&a[2])?;
                self.memcpy(d, s, l)?;
                Val::C(d)
            }
            "memset" => {
                let d = self.conc(&a[0])?;
                let l = self.conc(&a[2])?;
                let v = self.cast1(Cast::Trunc, 32, 8, &a[1])?;
                self.memset(d, v, l)?;
                Val::C(d)
            }
            "strlen" => {
                let p = self.conc(&a[0])?;
                let mut l = 0;
                loop {
                    self.chk(p + l, 1, "read")?;
                    let b = self.get_byte(p + l);
                    if self.conc(&b)? == 0 {
                        break;
                    }
                    l += 1;
                }
                Val::C(l)
            }
            // ---- operating system: fixed, documented stand-ins
            "getrandom" => {
                let p = self.conc(&a[0])?;
                let l = self.conc(&a[1])?;
                self.memset(p, Val::C(0), l)?;
                Val::C(l)
            }
            "syscall" => Val::C(u64::MAX),
            "write" => Val::C(self.conc(&a[2])?),
            "writev" => Val::C(1 << 20),
            "getenv" => Val::C(0),
            "__cxa_thread_atexit_impl" => Val::C(0),
            "__errno_location" => Val::C(STACK_BASE - 64),
            "sysconf" => match self.conc(&a[0])? {
                83 | 84 => Val::C(1), // processors
                _ => Val::C(4096),
            },
            // there are no files
            "open" | "open64" | "openat" | "openat64" | "readlink" | "stat64" | "statx" | "sched_getaffinity" => {
                self.store(STACK_BASE - 64, &Ty::Int(32), Val::C(2))?;
                Val::C(mask(u64::MAX, ret.bits()))
            }
            "gettid" | "getpid" | "pthread_self" => Val::C(1),
            "getauxval" => Val::C(0),
            "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => Val::C(0),
            "abort" | "exit" | "_exit" => return Err(Stop::Panic(format!("process {}", n))),
            _ => return Err(Stop::Error(format!("unsupported external function {}", n))),
        }))
    }
    fn nz(&mut self, e: u32) -> u32 {
        let w = self.pool.w(e);
        if w == 1 {
            return e;
        }
        let z = self.pool.cst(0, w);
        let q = self.pool.cmp(K::Eq, e, z);
        self.pool.not1(q)
    }
    fn compare(&mut self, p: u64, q: u64, l: u64, ordered: bool) -> Val {
        // leading concrete equal bytes are skipped; first concrete difference bounds the comparison
        let mut acc = self.pool.cst(0, 32);
        let mut end = l;
        for i in 0..l {
            if let (Val::C(x), Val::C(y)) = (self.get_byte(p + i), self.get_byte(q + i)) {
                if x != y {
                    let k = if ordered {
                        if x < y {
                            u32::MAX as u64
                        } else {
                            1
                        }
                    } else {
                        1
                    };
                    acc = self.pool.cst(k, 32);
                    end = i;
                    break;
                }
            }
        }
        for i in (0..end).rev() {
            let (x, y) = (self.get_byte(p + i), self.get_byte(q + i));
            if let (Val::C(_), Val::C(_)) = (&x, &y) {
                continue;
            }
            let x = self.ex(&x, 8);
            let y = self.ex(&y, 8);
            let eq = self.pool.cmp(K::Eq, x, y);
            let one = self.pool.cst(1, 32);
            let diff = if ordered {
                let lt = self.pool.cmp(K::Ult, x, y);
                let m1 = self.pool.cst(u32::MAX as u64, 32);
                self.pool.ite(lt, m1, one)
            } else {
                one
            };
            acc = self.pool.ite(eq, acc, diff);
        }
        self.val(acc)
    }
    fn map_lanes(&mut self, ty: &Ty, a: &[Val], f: &mut dyn FnMut(&mut Self, u32, &[Val]) -> R<Val>) -> R<Val> {
        match ty {
            Ty::Vec(n, t) => {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let lane: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(x) => x[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    out.push(f(self, t.bits(), &lane)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            t => f(self, t.bits(), a),
        }
    }
    fn intrinsic(&mut self, n: &str, a: &[Val], tys: &[(Op, Ty)], ret: &Ty) -> R<Option<Val>> {
        let t0 = tys.get(0).map(|t| t.1.clone()).unwrap_or(Ty::Void);
        let w = t0.bits();
        if n.starts_with("memcpy.") || n.starts_with("memmove.") {
            let d = self.conc(&a[0])?;
            let s = self.conc(&a[1])?;
            let l = self.conc(&a[2])?;
            self.memcpy(d, s, l)?;
            return Ok(None);
        }
        if n.starts_with("memset.") {
            let d = self.conc(&a[0])?;
            let l = self.conc(&a[2])?;
            self.memset(d, a[1].clone(), l)?;
            return Ok(None);
        }
        for (p, pr) in [
            ("umax.", Pred::Ugt),
            ("umin.", Pred::Ult),
            ("smax.", Pred::Sgt),
            ("smin.", Pred::Slt),
        ] {
            if n.starts_with(p) {
                return Ok(Some(self.map_lanes(&t0, a, &mut |s, w, v| {
                    let c = s.icmp1(pr, w, &v[0], &v[1])?;
                    s.sel(&c, v[0].clone(), v[1].clone(), &Ty::Int(w))
                })?));
            }
        }
        if n.contains(".with.overflow.") {
            let k = &n[..4];
            return Ok(Some(self.overflow(k, w, &a[0], &a[1])?));
        }
        if n.starts_with("uadd.sat") || n.starts_with("usub.sat") {
            let add = n.starts_with("uadd");
            return Ok(Some(self.map_lanes(&t0, a, &mut |s, w, v| {
                if add {
                    let r = s.bin1(Bin::Add, w, &v[0], &v[1])?;
                    let ov = s.icmp1(Pred::Ult, w, &r, &v[0])?;
                    s.sel(&ov, Val::C(mask(u64::MAX, w)), r, &Ty::Int(w))
                } else {
                    let r = s.bin1(Bin::Sub, w, &v[0], &v[1])?;
                    let ov = s.icmp1(Pred::Ult, w, &v[0], &v[1])?;
                    s.sel(&ov, Val::C(0), r, &Ty::Int(w))
                }
            })?));
        }
        if n.starts_with("fshl.") || n.starts_with("fshr.") {
            let left = n.starts_with("fshl");
            let sh = self.conc(&a[2])? % w as u64;
            let sh = if left { sh } else { (w as u64 - sh) % w as u64 };
            if !left && sh == 0 {
                return Ok(Some(a[1].clone()));
            }
            if sh == 0 {
                return Ok(Some(a[0].clone()));
            }
            let hi = self.bin1(Bin::Shl, w, &a[0], &Val::C(sh))?;
            let lo = self.bin1(Bin::LShr, w, &a[1], &Val::C(w as u64 - sh))?;
            return Ok(Some(self.bin1(Bin::Or, w, &hi, &lo)?));
        }
        if n.starts_with("ctlz.") || n.starts_with("cttz.") || n.starts_with("ctpop.") || n.starts_with("bswap.") || n.starts_with("bitreverse.") {
            let kind = n.split('.').next().unwrap().to_string();
            return Ok(Some(self.map_lanes(&t0, &a[..1], &mut |s, w, v| {
                if w > 64 {
                    let x = s.conc128(&v[0])?;
                    return Ok(Val::W(Box::new(match kind.as_str() {
                        "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                        "cttz" => x.trailing_zeros().min(w) as u128,
                        "ctpop" => x.count_ones() as u128,
                        _ => return Err(Stop::Error("wide bit intrinsic".into())),
                    })));
                }
                let x = s.conc(&v[0])?;
                Ok(Val::C(match kind.as_str() {
                    "ctlz" => (x.leading_zeros() - (64 - w)) as u64,
                    "cttz" => x.trailing_zeros().min(w) as u64,
                    "ctpop" => x.count_ones() as u64,
                    "bswap" => x.swap_bytes() >> (64 - w),
                    _ => x.reverse_bits() >> (64 - w),
                }))
            })?));
        }
        if n.starts_with("abs.") {
            let neg = self.icmp1(Pred::Slt, w, &a[0], &Val::C(0))?;
            let m = self.bin1(Bin::Sub, w, &Val::C(0), &a[0])?;
            return Ok(Some(self.sel(&neg, m, a[0].clone(), &t0)?));
        }
        if n.starts_with("ucmp.") || n.starts_with("scmp.") {
            let s = n.starts_with("scmp");
            let lt = self.icmp1(if s { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1])?;
            let gt = self.icmp1(if s { Pred::Sgt } else { Pred::Ugt }, w, &a[0], &a[1])?;
            let rw = ret.bits();
            let x = self.sel(&gt, Val::C(1), Val::C(0), ret)?;
            return Ok(Some(self.sel(&lt, Val::C(mask(u64::MAX, rw)), x, ret)?));
        }
        if n.starts_with("threadlocal.address") {
            return Ok(Some(a[0].clone()));
        }
        if n.starts_with("expect.") || n.starts_with("launder.") || n.starts_with("ssa.copy") {
            return Ok(Some(a[0].clone()));
        }
        if n.starts_with("is.constant") {
            return Ok(Some(Val::C(0)));
        }
        if n.starts_with("ptrmask.") {
            return Ok(Some(self.bin1(Bin::And, 64, &a[0], &a[1])?));
        }
        if n.starts_with("vector.reduce.") {
            let k = n["vector.reduce.".len()..].split('.').next().unwrap();
            let Val::A(v) = &a[0] else { return Err(Stop::Error("reduce".into())) };
            let w = t0.elem(0).bits();
            let mut acc = v[0].clone();
            for x in v[1..].iter() {
                acc = match k {
                    "or" => self.bin1(Bin::Or, w, &acc, x)?,
                    "and" => self.bin1(Bin::And, w, &acc, x)?,
                    "add" => self.bin1(Bin::Add, w, &acc, x)?,
                    "xor" => self.bin1(Bin::Xor, w, &acc, x)?,
                    "umax" | "umin" => {
                        let c = self.icmp1(if k == "umax" { Pred::Ugt } else { Pred::Ult }, w, &acc, x)?;
                        self.sel(&c, acc, x.clone(), &Ty::Int(w))?
                    }
                    _ => return Err(Stop::Error(format!("reduce {}", k))),
                };
            }
            return Ok(Some(acc));
        }
        if n == "trap" {
            return Err(Stop::Bug("trap".into()));
        }
        if n.starts_with("assume")
            || n.starts_with("lifetime")
            || n.starts_with("experimental.noalias")
            || n.starts_with("x86.sse2.pause")
            || n.starts_with("dbg.")
            || n.starts_with("prefetch")
        {
            return Ok(None);
        }
        Err(Stop::Error(format!("unsupported intrinsic llvm.{}", n)))
    }
    fn overflow(&mut self, k: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        let mk = |r: Val, o: Val| Val::A(Rc::new(vec![r, o]));
        if w > 64 {
            let x = self.conc128(a)?;
            let y = self.conc128(b)?;
            let (r, o) = match k {
                "uadd" => x.overflowing_add(y),
                "usub" => x.overflowing_sub(y),
                "umul" => x.overflowing_mul(y),
                _ => return Err(Stop::Error("wide overflow op".into())),
            };
            return Ok(mk(Val::W(Box::new(r)), Val::C(o as u64)));
        }
        Ok(match k {
            "uadd" => {
                let r = self.bin1(Bin::Add, w, a, b)?;
                let o = self.icmp1(Pred::Ult, w, &r, a)?;
                mk(r, o)
            }
            "usub" => {
                let r = self.bin1(Bin::Sub, w, a, b)?;
                let o = self.icmp1(Pred::Ult, w, a, b)?;
                mk(r, o)
            }
            "umul" => {
                let r = self.bin1(Bin::Mul, w, a, b)?;
                let (a, b) = if let Val::C(_) = a { (b, a) } else { (a, b) };
                let y = self.conc(b)?;
                let o = if y == 0 {
                    Val::C(0)
                } else {
                    self.icmp1(Pred::Ugt, w, a, &Val::C(mask(u64::MAX, w) / y))?
                };
                mk(r, o)
            }
            "sadd" | "ssub" => {
                let op = if k == "sadd" { Bin::Add } else { Bin::Sub };
                let r = self.bin1(op, w, a, b)?;
                let x = self.bin1(Bin::Xor, w, a, &r)?;
                let y = if k == "sadd" {
                    self.bin1(Bin::Xor, w, b, &r)?
                } else {
                    self.bin1(Bin::Xor, w, a, b)?
                };
                let z = self.bin1(Bin::And, w, &x, &y)?;
                let o = self.icmp1(Pred::Slt, w, &z, &Val::C(0))?;
                mk(r, o)
            }
            "smul" => {
                let x = self.conc(a)?;
                let y = self.conc(b)?;
                let p = sext(x, w) as i128 * sext(y, w) as i128;
                let r = mask(p as u64, w);
                mk(Val::C(r), Val::C((sext(r, w) as i128 != p) as u64))
            }
            _ => return Err(Stop::Error(format!("overflow {}", k))),
        })
    }
}

fn kop(b: Bin) -> K {
    match b {
        Bin::Add => K::Add,
        Bin::Sub => K::Sub,
        Bin::Mul => K::Mul,
        Bin::UDiv => K::UDiv,
        Bin::SDiv => K::SDiv,
        Bin::URem => K::URem,
        Bin::SRem => K::SRem,
        Bin::Shl => K::Shl,
        Bin::LShr => K::LShr,
        Bin::AShr => K::AShr,
        Bin::And => K::And,
        Bin::Or => K::Or,
        Bin::Xor => K::Xor,
    }
}

/// readable approximation of a v0/legacy mangled name: the identifiers it contains
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() && out.len() < 8 {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if let Ok(k) = n[st..i].parse::<usize>() {
                let mut s = i;
                if s < b.len() && b[s] == b'_' {
                    s += 1;
                }
                if s + k <= b.len() && k > 0 && k < 64 && n[s..s + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    // skip crate disambiguators like Cs3BTM885nGDo_
                    out.push(&n[s..s + k]);
                    i = s + k;
                    continue;
                }
            }
        } else if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
            i += 1;
            continue;
        } else if b[i] == b's' || b[i] == b'B' {
            // s_ / s0_ disambiguator or back reference
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j < i + 5 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
