//! Generators of test cases. Every random choice comes from `Rng`.
use crate::model::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Case {
    pub input: Vec<u8>,
    pub fmt: Fmt,
    pub set: Set,
    /// what the case was generated for (only used in reports)
    pub kind: String,
}

pub fn fmt(r: &mut Rng) -> Fmt {
    if r.chance(25) {
        return STD;
    }
    let w = |r: &mut Rng| r.pick(&[4u8, 8]);
    Fmt {
        format: if r.chance(70) { 0 } else { r.below(256) as u8 },
        little: r.chance(50),
        int: w(r),
        size: w(r),
        ins: w(r),
        num: w(r),
        integral: r.chance(25),
    }
}

pub const PERMS: [[char; 4]; 8] = [
    ['O', 'A', 'C', 'B'],
    ['O', 'A', 'B', 'C'],
    ['O', 'C', 'B', 'A'],
    ['O', 'B', 'C', 'A'],
    ['A', 'O', 'B', 'C'],
    ['C', 'B', 'O', 'A'],
    ['B', 'C', 'A', 'O'],
    ['A', 'B', 'C', 'O'],
];

pub fn lay(r: &mut Rng, wide: bool) -> Lay {
    loop {
        let perm = r.pick(&PERMS);
        let size = |r: &mut Rng, k: char| {
            let base: i64 = match k {
                'O' => 6,
                'A' => 8,
                _ => 9,
            };
            match r.below(if wide { 6 } else { 4 }) {
                0 | 1 => base as u64,
                2 => (base + r.range(-1, 1)) as u64,
                3 => (base + r.range(0, 2)) as u64,
                4 => r.range(base, 20) as u64,
                _ => r.range(base, 31) as u64,
            }
        };
        let spec: Spec = perm.map(|k| (k, size(r, k)));
        if let Some(l) = Lay::new(&spec) {
            return l;
        }
    }
}

pub fn set(r: &mut Rng) -> Set {
    let mut s = Set::std();
    if r.chance(30) {
        return s;
    }
    if r.chance(40) {
        s.l50.lay = lay(r, true);
    }
    if r.chance(40) {
        s.l51.lay = lay(r, true);
        s.out.lay = s.l51.lay;
    }
    if r.chance(40) {
        s.out.lay = lay(r, true);
    }
    if r.chance(35) {
        s.l51.fpf = r.pick(&[1, 2, 3, 5, 8, 32, 50]);
    }
    if r.chance(35) {
        s.l50.fpf = r.pick(&[1, 2, 4, 8, 16, 32, 50]);
    }
    if r.chance(35) {
        s.out.fpf = r.pick(&[1, 2, 3, 4, 7, 8, 25, 50, 64]);
    }
    if r.chance(15) {
        s.out.stack_limit = r.pick(&[2, 10, 100, 250, 254, 255, 256, 300, 1 << 20]);
    }
    if r.chance(15) {
        s.l50.stack_limit = r.pick(&[0, 1, 100, 250, 255, 256, 400, 511]);
    }
    if r.chance(10) {
        s.out.sig = r.pick(&["\x1bLua", "\x1bXYZ1", "L", ""]).into();
    }
    if r.chance(10) {
        s.l51.sig = r.pick(&["\x1bLua", "\x1bLux", "Q"]).into();
    }
    if r.chance(10) {
        s.l50.sig = r.pick(&["\x1bLua", "\x1bLu5", "P\u{7f}"]).into();
    }
    s
}

pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1..=6 => r.below(6),
        _ => r.below(40),
    };
    let mut v: Vec<u8> = (0..n).map(|_| if r.chance(60) { b'a' + r.below(26) as u8 } else { r.below(256) as u8 }).collect();
    if n > 0 && r.chance(80) {
        *v.last_mut().unwrap() = 0;
    }
    v
}

pub fn int(r: &mut Rng, w: u8) -> i64 {
    let v = match r.below(8) {
        0..=3 => r.below(100) as i64,
        4 => r.pick(&[0, -1, 1, i32::MAX as i64, i32::MIN as i64]),
        5 => r.next() as i32 as i64,
        6 => r.pick(&[i64::MAX, i64::MIN, 1 << 31, -(1 << 31) - 1, 1 << 32, (1 << 31) - 1, i64::MAX - 1]),
        _ => r.next() as i64,
    };
    if w == 4 {
        v as i32 as i64
    } else {
        v
    }
}

/// A value whose meaning survives the given format.
fn sane_int(r: &mut Rng, w: u8) -> i64 {
    if r.chance(85) {
        r.below(500) as i64
    } else {
        int(r, w)
    }
}

/// Counterexamples of the number conversions, from the verifier.
fn hints() -> &'static [u64] {
    static HINTS: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    HINTS.get_or_init(|| std::env::var("VX_HINTS").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}

pub fn num(r: &mut Rng, f: &Fmt) -> Num {
    if f.num == 8 && !hints().is_empty() && r.chance(50) {
        let bits = r.pick(hints());
        if f.integral {
            return Num::I(bits as i64);
        }
        if !f64::from_bits(bits).is_nan() {
            return Num::F(f64::from_bits(bits));
        }
    }
    if f.integral {
        return Num::I(match r.below(4) {
            0 => {
                let v = r.pick(&[1i64 << 53, (1 << 53) + 1, 1 << 24, (1 << 24) + 1, -(1 << 53) - 1, i64::MAX, i64::MIN, i64::MAX - 1, (1 << 62) + 1]);
                if f.num == 4 {
                    v as i32 as i64
                } else {
                    v
                }
            }
            _ => int(r, f.num),
        });
    }
    let v = match r.below(7) {
        0 => r.below(1000) as f64,
        1 => -(r.below(1000) as f64) / 4.0,
        2 => r.pick(&[
            0.0,
            -0.0,
            f64::INFINITY,
            f64::NEG_INFINITY,
            9223372036854775808.0,
            -9223372036854775808.0,
            9223372036854774784.0,
            -9223372036854777856.0,
            2147483647.0,
            2147483648.0,
            -2147483648.0,
            -2147483649.0,
            1e300,
            1e-300,
            0.5,
            -0.5,
            0.49999999999999994,
            4503599627370497.5,
            9007199254740993.0,
            16777217.0,
            0.1,
        ]),
        3 => (r.next() as i64) as f64,
        4 => (r.next() as i32) as f64,
        5 => f64::from_bits(r.next()),
        _ => r.below(1 << 20) as f64 / 1024.0,
    };
    // a NaN has no portable payload through f32
    let v = if v.is_nan() { 1.5 } else { v };
    Num::F(if f.num == 4 {
        let n = v as f32 as f64;
        if n.is_nan() {
            1.0
        } else {
            n
        }
    } else {
        v
    })
}

pub fn konst(r: &mut Rng, v: Ver, f: &Fmt) -> Konst {
    match r.below(8) {
        0 => Konst::Nil,
        1 if v == Ver::L51 || r.chance(40) => Konst::Bool(r.chance(50)),
        1..=4 => Konst::Num(if r.chance(60) {
            let n = r.below(50) as i64;
            if f.integral {
                Num::I(n)
            } else {
                Num::F(n as f64)
            }
        } else {
            num(r, f)
        }),
        5 if r.chance(40) => Konst::Str(format!("__%lunify%__temp{}_{}\0", r.below(8), r.below(5)).into_bytes()),
        5 => Konst::Str(r.pick(&[&b"type\0"[..], b"table\0", b"next\0", b"type", b"\0", b"", b"__%lunify%__temp0_0\0", b"__%lunify%__temp2_0\0"]).to_vec()),
        _ => Konst::Str(bytes(r)),
    }
}

/// A random field value that fits into `bits`.
fn field(r: &mut Rng, size: u32, small: u64) -> u64 {
    let max = (1u64 << size) - 1;
    match r.below(10) {
        0 => max,
        1 => r.below(max + 1),
        2 => r.pick(&[0, 1, 127, 128, 248, 249, 250, 251, 252, 255, 256, 257, 511]).min(max),
        _ => r.below(small).min(max),
    }
}

/// A random instruction; jumps mostly stay inside of the function.
pub fn ins(r: &mut Rng, v: Ver, pc: i64, n: i64, set: &VSet, wild: bool, nk: u64) -> Ins {
    let table = ops(v);
    let op = if r.chance(25) {
        // prefer instructions that get special treatment
        match v {
            Ver::L50 => op50(r.pick(&["JMP", "FORLOOP", "TFORLOOP", "TFORPREP", "TEST", "CALL", "JMP", "FORLOOP"])),
            Ver::L51 => op51(r.pick(&["JMP", "FORLOOP", "FORPREP", "TESTSET", "CALL", "VARARG"])),
        }
    } else {
        loop {
            let op = r.below(table.len() as u64) as usize;
            if wild || !table[op].0.starts_with("SETLIST") {
                break op;
            }
        }
    };
    let l = &set.lay;
    let (name, mode, _) = table[op];
    let small = 12;
    let mut i = Ins { op, a: if wild { field(r, l.a.size, small) } else { r.below(small) }, b: rg(0), c: rg(0), x: 0 };
    let opnd = |r: &mut Rng, m: M, s: Slot| match m {
        M::U => rg(0),
        M::G | M::R => rg(if wild { field(r, s.size, small) } else { r.below(small) }),
        M::K => {
            let k = r.chance(40);
            let lim = match v {
                Ver::L50 => {
                    if k {
                        s.max().saturating_sub(set.stack_limit)
                    } else {
                        s.max().min(set.stack_limit.saturating_sub(1))
                    }
                }
                Ver::L51 => {
                    let bit = 1u64 << (l.b.size - 1);
                    if k && bit > s.max() {
                        return rg(r.below(small).min(s.max()));
                    }
                    (bit - 1).min(s.max())
                }
            };
            let k = k && (v == Ver::L51 || s.max() >= set.stack_limit);
            let x = if wild && r.chance(20) { r.pick(&[lim, lim / 2, 249, 250, 255, 256]) } else { r.below(small) };
            Opnd { v: x.min(lim), k }
        }
    };
    match mode {
        Mode::BC(mb, mc) => {
            i.b = opnd(r, mb, l.b);
            i.c = opnd(r, mc, l.c);
            match name {
                "LOADNIL" if !wild => i.b.v = i.a + i.b.v % 4,
                "TFORLOOP" if !wild => i.c.v = if v == Ver::L51 { 1 + i.c.v % 4 } else { i.c.v % 4 },
                "SETLIST" if !wild => i.c.v += 1,
                _ => {}
            }
        }
        Mode::Bx => i.x = if wild { field(r, l.bx.size.min(40), 40) as i64 } else { r.below(nk.max(1)) as i64 },
        Mode::SBx => {
            let lo = -(pc + 1);
            let hi = n - pc - 1;
            i.x = match name {
                "FORLOOP" if v == Ver::L50 && !(wild && r.chance(10)) => r.range(lo, -1),
                _ if wild && r.chance(12) => r.pick(&[lo - 1, lo - 7, hi, hi + 1, hi + 9, 0, -1, l.bias(), -l.bias(), l.bias() + 1, -(1 << 15), 1 << 15]),
                _ => r.range(lo, hi),
            }
            .clamp(-l.bias(), l.bias() + 1);
        }
    }
    i
}

pub struct Shape {
    pub wild: bool,
    pub max_code: u64,
    pub depth: u64,
    pub canonical: bool,
}

pub fn func(r: &mut Rng, v: Ver, f: &Fmt, set: &Set, sh: &Shape) -> Func {
    let vset = match v {
        Ver::L50 => &set.l50,
        Ver::L51 => &set.l51,
    };
    let mut d = Func::empty();
    d.source = bytes(r);
    d.line = sane_int(r, f.int);
    d.last_line = sane_int(r, f.int);
    d.nups = { let n = if r.chance(90) { 4 } else { 256 }; r.below(n) } as u8;
    d.params = { let n = if r.chance(90) { 4 } else { 256 }; r.below(n) } as u8;
    d.vararg = if r.chance(60) { 0 } else { r.pick(&[1, 1, 1, 2, 3, 7, 255]) };
    d.maxstack = { let n = if r.chance(90) { 20 } else { 256 }; r.below(n) } as u8;
    let nk = r.below(6);
    d.consts = (0..nk).map(|_| konst(r, v, f)).collect();
    let n = if r.chance(10) { 0 } else { r.below(sh.max_code) as i64 };
    for pc in 0..n {
        let i = ins(r, v, pc, n, vset, sh.wild, nk);
        let mut w = i.encode(v, vset).unwrap_or(0);
        if !sh.canonical && r.chance(20) {
            // garbage in fields the instruction does not use
            if let Mode::BC(mb, mc) = ops(v)[i.op].1 {
                if mb == M::U {
                    w |= vset.lay.b.put(r.next() & vset.lay.b.max());
                }
                if mc == M::U {
                    w |= vset.lay.c.put(r.next() & vset.lay.c.max());
                }
            }
        }
        d.code.push(w);
    }
    if sh.wild && n > 0 && r.chance(4) {
        let at = r.below(n as u64) as usize;
        d.code[at] = r.next() & ((1u128 << vset.lay.bits()) - 1) as u64;
    }
    let nl = match r.below(10) {
        0..=6 => n,
        7 | 8 => 0,
        _ => r.below(n as u64 + 3) as i64,
    };
    d.lines = (0..nl).map(|k| if r.chance(90) { k * 3 + 1 } else { int(r, f.int) }).collect();
    d.locals = (0..r.below(3)).map(|_| Local { name: bytes(r), start: sane_int(r, f.int), end: sane_int(r, f.int) }).collect();
    d.upvals = (0..if r.chance(50) { d.nups as u64 % 5 } else { r.below(3) }).map(|_| bytes(r)).collect();
    if sh.depth > 0 {
        let n = r.below(3);
        let sub = Shape { depth: sh.depth - 1, ..*sh };
        d.protos = (0..n).map(|_| func(r, v, f, set, &sub)).collect();
    }
    d
}

fn case(v: Ver, f: &Func, in_fmt: Fmt, fmt: Fmt, set: Set, kind: &str) -> Case {
    Case { input: encode(v, f, in_fmt, &set), fmt, set, kind: kind.into() }
}

fn in_fmt(r: &mut Rng, v: Ver, set: &Set) -> Fmt {
    let mut f = fmt(r);
    let lay = if v == Ver::L50 { set.l50.lay } else { set.l51.lay };
    if lay.bits() > 32 {
        f.ins = 8;
    }
    if v == Ver::L50 {
        f.format = 0;
    }
    f
}

/// An output format that everything representable in `i` fits into.
fn out_fmt(r: &mut Rng, i: &Fmt, set: &Set) -> Fmt {
    let mut o = fmt(r);
    if r.chance(60) {
        o.integral = i.integral;
    }
    if r.chance(60) {
        o.num = o.num.max(i.num);
        o.int = o.int.max(i.int);
    }
    if set.out.lay.bits() > 32 && r.chance(90) {
        o.ins = 8;
    }
    o
}

pub fn random(r: &mut Rng, v: Ver, wild: bool) -> Case {
    let set = set(r);
    let f = in_fmt(r, v, &set);
    let depth = r.below(3);
    let max_code = r.pick(&[2, 6, 14, 30]);
    let d = func(r, v, &f, &set, &Shape { wild, max_code, depth, canonical: false });
    let o = out_fmt(r, &f, &set);
    case(v, &d, f, o, set, "random chunk")
}

/// A Lua 5.1 chunk with nothing in it that conversion could drop.
pub fn canonical(r: &mut Rng) -> Case {
    let mut s = set(r);
    s.l51.fpf = s.out.fpf;
    let f = in_fmt(r, Ver::L51, &s);
    let d = func(r, Ver::L51, &f, &s, &Shape { wild: false, max_code: 12, depth: 2, canonical: true });
    let o = out_fmt(r, &f, &s);
    case(Ver::L51, &d, f, o, s, "canonical chunk")
}

pub fn mutate(r: &mut Rng, mut c: Case) -> Case {
    for _ in 0..1 + r.below(3) {
        let n = c.input.len() as u64;
        if n == 0 {
            break;
        }
        match r.below(6) {
            0 => c.input.truncate(r.below(n) as usize),
            1 => {
                for _ in 0..1 + r.below(3) {
                    c.input.push(r.below(256) as u8)
                }
            }
            2 => {
                let at = r.below(n.min(20)) as usize;
                c.input[at] = r.pick(&[0, 1, 2, 4, 8, 0x50, 0x51, 255, 5, 6, 9]);
            }
            3 => {
                let at = r.below(n) as usize;
                c.input[at] = r.below(256) as u8;
            }
            4 => {
                // a length or a count of all ones, or with the top bit set
                let at = r.below(n) as usize;
                let k = r.pick(&[4, 8]);
                let fill = r.pick(&[0xFF, 0x80, 0x7F]);
                for b in c.input.iter_mut().skip(at).take(k) {
                    *b = fill;
                }
            }
            _ => {
                let at = r.below(n) as usize;
                c.input[at] ^= 1 << r.below(8);
            }
        }
    }
    c.kind = format!("mutated {}", c.kind);
    c
}

// ------------------------------------------------------------------------
// table constructors, in the shapes the Lua compiler emits
// ------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum El {
    K,
    Nil,
    Local,
    Call,
    Nested,
    Cond,
    And,
    Closure,
    Hash,
    Concat,
}

pub struct Tab<'a> {
    pub v: Ver,
    pub fpf: u64,
    pub code: Vec<Ins>,
    pub r: &'a mut Rng,
    pub k: i64,
    #[allow(dead_code)]
    pub kinds: Vec<El>,
}

impl Tab<'_> {
    fn o(&self, n: &str) -> usize {
        op(self.v, n)
    }
    fn loadk(&mut self, a: u64) {
        self.k += 1;
        let i = Ins::x(self.o("LOADK"), a, self.k);
        self.code.push(i);
    }
    /// Emit an expression into register `to`; returns whether it is open.
    fn expr(&mut self, e: El, to: u64, locals: u64, depth: u64, open: bool) {
        let bc = |op, a, b, c| Ins::bc(op, a, rg(b), rg(c));
        match e {
            El::K | El::Hash => self.loadk(to),
            El::Nil => {
                let op = self.o("LOADNIL");
                match self.code.last_mut() {
                    Some(p) if p.op == op && p.b.v + 1 == to && to > locals + 1 => p.b.v = to,
                    _ => self.code.push(bc(op, to, to, 0)),
                }
            }
            El::Local if locals > 0 => {
                let s = self.r.below(locals);
                let i = bc(self.o("MOVE"), to, s, 0);
                self.code.push(i)
            }
            El::Local => self.loadk(to),
            El::Call => {
                self.k += 1;
                let g = Ins::x(self.o("GETGLOBAL"), to, self.k);
                self.code.push(g);
                let n = self.r.below(3);
                for j in 0..n {
                    self.loadk(to + 1 + j);
                }
                let c = bc(self.o("CALL"), to, n + 1, if open { 0 } else { 2 });
                self.code.push(c);
            }
            El::Nested => {
                let n = self.r.below(3) + 1;
                let kinds = (0..n).map(|_| El::K).collect();
                self.table(to, locals, kinds, depth + 1, false);
            }
            El::Cond => {
                // x == y
                let i = Ins::bc(self.o("EQ"), 1, kk(self.r.below(4)), kk(self.r.below(4)));
                self.code.push(i);
                let j = Ins::x(self.o("JMP"), 0, 1);
                self.code.push(j);
                let l0 = bc(self.o("LOADBOOL"), to, 0, 1);
                let l1 = bc(self.o("LOADBOOL"), to, 1, 0);
                self.code.extend([l0, l1]);
            }
            El::And => {
                // local and k, or a temporary and k
                let src = if locals > 0 {
                    self.r.below(locals)
                } else {
                    self.k += 1;
                    let g = Ins::x(self.o("GETGLOBAL"), to, self.k);
                    self.code.push(g);
                    to
                };
                let cond = self.r.below(2);
                let t = match self.v {
                    Ver::L50 => bc(self.o("TEST"), to, src, cond),
                    Ver::L51 => bc(self.o("TESTSET"), to, src, cond),
                };
                let j = Ins::x(self.o("JMP"), 0, 1);
                self.code.extend([t, j]);
                self.loadk(to);
            }
            El::Closure => {
                self.k += 1;
                let i = Ins::x(self.o("CLOSURE"), to, self.k);
                self.code.push(i);
                for _ in 0..self.r.below(3) {
                    let p = if locals > 0 && self.r.chance(50) {
                        let s = self.r.below(locals);
                        bc(self.o("MOVE"), 0, s, 0)
                    } else {
                        bc(self.o("GETUPVAL"), 0, self.r.below(4), 0)
                    };
                    self.code.push(p);
                }
            }
            El::Concat => {
                self.loadk(to);
                self.loadk(to + 1);
                let i = bc(self.o("CONCAT"), to, to, to + 1);
                self.code.push(i);
            }
        }
    }
    fn flush(&mut self, t: u64, done: u64, n: u64, open: bool) {
        let i = match self.v {
            Ver::L50 => Ins::x(self.o(if open { "SETLISTO" } else { "SETLIST" }), t, (done + n - 1) as i64),
            Ver::L51 => Ins::bc(self.o("SETLIST"), t, rg(if open { 0 } else { n }), rg(done / self.fpf + 1)),
        };
        self.code.push(i);
    }
    pub fn table(&mut self, t: u64, locals: u64, kinds: Vec<El>, depth: u64, open_last: bool) {
        let i = Ins::bc(self.o("NEWTABLE"), t, rg(0), rg(0));
        self.code.push(i);
        let (mut done, mut n) = (0, 0);
        let last = kinds.iter().rposition(|k| *k != El::Hash);
        for (ix, e) in kinds.iter().enumerate() {
            if n == self.fpf {
                self.flush(t, done, n, false);
                done += n;
                n = 0;
            }
            if *e == El::Hash {
                if self.r.chance(50) {
                    self.k += 2;
                    let i = Ins::bc(self.o("SETTABLE"), t, kk(self.k as u64 % 200), kk((self.k as u64 - 1) % 200));
                    self.code.push(i);
                } else {
                    self.k += 1;
                    let k = kk(self.k as u64 % 200);
                    let free = t + n + 1;
                    self.expr(El::Call, free, locals, depth, false);
                    let i = Ins::bc(self.o("SETTABLE"), t, k, rg(free));
                    self.code.push(i);
                }
                continue;
            }
            let open = open_last && Some(ix) == last && ix + 1 == kinds.len() && *e == El::Call;
            let e = if *e == El::Nested && depth > 0 { El::K } else { *e };
            self.expr(e, t + n + 1, locals, depth, open);
            n += 1;
            if open {
                self.flush(t, done, n, true);
                return;
            }
        }
        if n > 0 {
            self.flush(t, done, n, false);
        }
    }
}

/// A function that builds one table and returns it.
pub fn table(r: &mut Rng, v: Ver) -> Case {
    let mut set = Set::std();
    match r.below(4) {
        0 => {
            set.l51.fpf = r.pick(&[50, 32, 20]);
            set.l50.fpf = r.pick(&[32, 64]);
            set.out.fpf = r.pick(&[50, 32, 64, 40]);
        }
        _ => {
            set.l50.fpf = r.pick(&[1, 2, 4, 8, 16]);
            set.l51.fpf = r.pick(&[1, 2, 3, 4, 5, 8]);
            set.out.fpf = r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 12]);
        }
    }
    let fpf = if v == Ver::L50 { set.l50.fpf } else { set.l51.fpf };
    let limit = set.out.fpf.max(fpf) * 3 + 3;
    let n = match r.below(4) {
        0 => r.pick(&[fpf, set.out.fpf, fpf * 2, set.out.fpf * 2, fpf + 1, set.out.fpf + 1, fpf * set.out.fpf]).min(limit),
        _ => r.below(limit) + 1,
    };
    let mix = r.below(4);
    let kinds: Vec<El> = (0..n)
        .map(|_| match mix {
            0 => El::K,
            1 => r.pick(&[El::K, El::Local, El::K, El::Hash]),
            _ => r.pick(&[El::K, El::K, El::Nil, El::Local, El::Call, El::Nested, El::Cond, El::And, El::Closure, El::Hash, El::Concat]),
        })
        .collect();
    let mut kinds = kinds;
    let open = mix != 0 && r.chance(40);
    if open {
        *kinds.last_mut().unwrap() = El::Call;
    }
    let locals = r.below(3);
    let k0 = r.below(5) as i64;
    let mut t = Tab { v, fpf, code: vec![], r: &mut *r, k: k0, kinds: vec![] };
    for l in 0..locals {
        t.loadk(l);
    }
    t.table(locals, locals, kinds, 0, open);
    let mut code = std::mem::take(&mut t.code);
    code.push(Ins::bc(op(v, "RETURN"), locals, rg(2), rg(0)));
    let vset = if v == Ver::L50 { &set.l50 } else { &set.l51 };
    let mut d = Func::empty();
    d.code = code.iter().map(|i| i.encode(v, vset).unwrap_or(0)).collect();
    d.lines = (0..d.code.len() as i64).collect();
    case(v, &d, STD, STD, set, "table constructor")
}

/// Instructions that are converted specially, in any order and mostly about the
/// same few registers: nothing a compiler would emit.
pub fn soup(r: &mut Rng, v: Ver) -> Case {
    let mut set = Set::std();
    set.l50.fpf = r.pick(&[1, 2, 3, 4, 8]);
    set.l51.fpf = r.pick(&[1, 2, 3, 4, 5]);
    set.out.fpf = r.pick(&[1, 2, 3, 4, 5, 7]);
    let vset = if v == Ver::L50 { &set.l50 } else { &set.l51 };
    let mut d = Func::empty();
    d.maxstack = r.below(8) as u8;
    d.params = r.below(3) as u8;
    d.vararg = if r.chance(30) { r.pick(&[1, 1, 2, 7]) } else { 0 };
    let nk = r.below(4);
    d.consts = (0..nk).map(|_| konst(r, v, &STD)).collect();
    let n = r.pick(&[4, 8, 14, 24]) as i64;
    let names: &[&str] = match v {
        Ver::L50 => &["NEWTABLE", "SETLIST", "SETLIST", "SETLISTO", "LOADK", "LOADK", "MOVE", "GETUPVAL", "CLOSURE", "JMP", "FORLOOP", "TFORLOOP", "TFORPREP", "CALL", "LOADNIL", "SELF", "TEST"],
        Ver::L51 => &["NEWTABLE", "SETLIST", "SETLIST", "LOADK", "LOADK", "MOVE", "GETUPVAL", "CLOSURE", "JMP", "FORLOOP", "FORPREP", "TFORLOOP", "CALL", "LOADNIL", "SELF", "VARARG", "TESTSET"],
    };
    let t = r.below(3);
    for pc in 0..n {
        let o = op(v, r.pick(names));
        let (name, mode, _) = ops(v)[o];
        let mut i = Ins { op: o, a: r.below(6), b: rg(0), c: rg(0), x: 0 };
        match name {
            "NEWTABLE" => i.a = t,
            "SETLIST" | "SETLISTO" => {
                i.a = if r.chance(80) { t } else { r.below(4) };
                i.x = r.below(vset.fpf * 4) as i64;
                i.b = rg(if r.chance(20) { 0 } else { r.below(vset.fpf) + 1 });
                i.c = rg(r.below(3) + 1);
            }
            "LOADNIL" => i.b = rg(i.a + r.below(3)),
            "TFORLOOP" => i.c = rg(r.below(3) + (v == Ver::L51) as u64),
            "CALL" | "VARARG" => {
                i.b = rg(r.below(3));
                i.c = rg(if mode == Mode::BC(M::G, M::U) { 0 } else { r.below(4) });
            }
            _ => match mode {
                Mode::BC(mb, mc) => {
                    if mb != M::U {
                        i.b = rg(r.below(6));
                    }
                    if mc != M::U {
                        i.c = rg(r.below(6));
                    }
                }
                Mode::Bx => i.x = r.below(4) as i64,
                Mode::SBx => i.x = if name == "FORLOOP" && v == Ver::L50 { r.range(-(pc + 1), -1) } else { r.range(-(pc + 1), n - pc - 1) },
            },
        }
        d.code.push(i.encode(v, vset).unwrap_or(0));
    }
    if r.chance(80) {
        d.lines = (0..n).map(|k| k * 3 + 1).collect();
    }
    case(v, &d, STD, STD, set, "instruction soup")
}

/// Lists and strings that are longer than the usual ones.
pub fn big(which: u64, n: usize, v: Ver) -> Case {
    let mut d = Func::empty();
    let set = Set::std();
    let vset = if v == Ver::L50 { &set.l50 } else { &set.l51 };
    let mov = Ins::bc(op(v, "MOVE"), 1, rg(0), rg(0)).encode(v, vset).unwrap();
    let text: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    match which {
        0 => d.source = text,
        1 => d.consts = vec![Konst::Str(text), Konst::Nil],
        2 => d.upvals = vec![text, vec![b'a', 0]],
        3 => d.locals = vec![Local { name: text, start: 0, end: 1 }],
        4 => {
            d.code = vec![mov; n];
            d.lines = (0..n as i64).collect();
        }
        5 => d.consts = (0..n).map(|i| Konst::Num(Num::F(i as f64))).collect(),
        6 => d.protos = (0..n.min(3000)).map(|i| Func { line: i as i64, ..Func::empty() }).collect(),
        7 => d.locals = (0..n).map(|i| Local { name: vec![b'x', 0], start: i as i64, end: i as i64 + 1 }).collect(),
        8 => d.upvals = (0..n).map(|i| vec![b'a' + (i % 26) as u8, 0]).collect(),
        9 => {
            // a jump over everything, there and back
            d.code = vec![mov; n];
            d.code[0] = Ins::x(op(v, "JMP"), 0, n as i64 - 2).encode(v, vset).unwrap();
            d.code[n - 1] = Ins::x(op(v, if v == Ver::L50 { "FORLOOP" } else { "JMP" }), 1, 1 - n as i64).encode(v, vset).unwrap();
        }
        _ => {
            // helpers behind many constants
            d.consts = (0..n).map(|i| Konst::Str(format!("k{i}\0").into_bytes())).collect();
            d.code = match v {
                Ver::L50 => vec![mov, Ins::bc(op50("TFORLOOP"), 2, rg(0), rg(2)).encode(v, vset).unwrap(), Ins::x(op50("JMP"), 0, -3).encode(v, vset).unwrap(), Ins::x(op50("TFORPREP"), 2, 0).encode(v, vset).unwrap()],
                Ver::L51 => vec![Ins::x(op51("LOADK"), 0, n as i64 - 1).encode(v, vset).unwrap()],
            };
        }
    }
    case(v, &d, STD, Fmt { little: false, ..STD }, set, "large lists")
}

/// Names of helper globals that are taken already: `n` for one program counter,
/// without one of them, in some order, with some constants in between.
pub fn taken(r: &mut Rng, n: u64, without: u64) -> Case {
    let set = Set::std();
    let pc = r.below(6);
    let mut d = Func::empty();
    let mut names: Vec<u64> = (0..n).filter(|k| *k != without).collect();
    match r.below(3) {
        0 => names.reverse(),
        1 => {
            for k in (1..names.len()).rev() {
                let j = r.below(k as u64 + 1) as usize;
                names.swap(k, j);
            }
        }
        _ => {}
    }
    for k in names {
        if r.chance(20) {
            d.consts.push(konst(r, Ver::L50, &STD));
        }
        d.consts.push(Konst::Str(format!("__%lunify%__temp{pc}_{k}\0").into_bytes()));
    }
    let rest = r.below(4);
    d.consts.extend((0..rest).map(|_| konst(r, Ver::L50, &STD)));
    let mov = Ins::bc(op50("MOVE"), 1, rg(0), rg(0)).encode(Ver::L50, &set.l50).unwrap();
    let len = 1 + pc.saturating_sub(r.below(3)) as usize;
    d.code = vec![mov; len];
    d.code.push(Ins::x(op50(r.pick(&["TFORPREP", "FORLOOP"])), 2, -1).encode(Ver::L50, &set.l50).unwrap());
    d.code.push(mov);
    d.code.push(Ins::x(op50("FORLOOP"), 2, -2).encode(Ver::L50, &set.l50).unwrap());
    case(Ver::L50, &d, STD, Fmt { little: false, ..STD }, set, "helper globals")
}

/// Functions nested `n` deep.
pub fn deep(n: usize, v: Ver) -> Case {
    let mut d = Func::empty();
    for _ in 1..n {
        let mut p = Func::empty();
        p.protos.push(d);
        d = p;
    }
    case(v, &d, STD, Fmt { little: false, ..STD }, Set::std(), "nested functions")
}
