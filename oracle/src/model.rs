//! Independent model of Lua 5.0 / 5.1 binary chunks and of the lunify settings.
//! Nothing in here is derived from the code under test; the opcode tables are
//! typed in from lopcodes.h of Lua 5.0.3 and Lua 5.1.5.
use lunify::{BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ver {
    L50,
    L51,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fmt {
    pub format: u8,
    pub little: bool,
    pub int: u8,
    pub size: u8,
    pub ins: u8,
    pub num: u8,
    pub integral: bool,
}

impl Fmt {
    pub fn lunify(&self) -> Format {
        let w = |n: u8| if n == 4 { BitWidth::Bit32 } else { BitWidth::Bit64 };
        Format {
            format: self.format,
            endianness: if self.little { Endianness::Little } else { Endianness::Big },
            integer_width: w(self.int),
            size_t_width: w(self.size),
            instruction_width: w(self.ins),
            number_width: w(self.num),
            is_number_integral: self.integral,
        }
    }
    pub fn bytes(&self) -> [u8; 7] {
        [self.format, self.little as u8, self.int, self.size, self.ins, self.num, self.integral as u8]
    }
    pub fn from_bytes(b: &[u8]) -> Fmt {
        Fmt { format: b[0], little: b[1] == 1, int: b[2], size: b[3], ins: b[4], num: b[5], integral: b[6] == 1 }
    }
}

pub const STD: Fmt = Fmt { format: 0, little: true, int: 4, size: 8, ins: 4, num: 8, integral: false };

/// An operand slot: (position, size).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Slot {
    pub pos: u32,
    pub size: u32,
}

impl Slot {
    pub fn max(&self) -> u64 {
        (1u64 << self.size) - 1
    }
    pub fn get(&self, w: u64) -> u64 {
        ((w as u128 >> self.pos) & ((1u128 << self.size) - 1)) as u64
    }
    pub fn put(&self, v: u64) -> u64 {
        ((v as u128) << self.pos) as u64
    }
}

/// 'O','A','B','C' in order of increasing position, with sizes.
pub type Spec = [(char, u64); 4];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Lay {
    pub spec: Spec,
    pub op: Slot,
    pub a: Slot,
    pub b: Slot,
    pub c: Slot,
    pub bx: Slot,
}

pub fn spec_to_lunify(spec: &Spec) -> [OperandType; 4] {
    spec.map(|(k, n)| match k {
        'O' => OperandType::Opcode(n),
        'A' => OperandType::A(n),
        'B' => OperandType::B(n),
        _ => OperandType::C(n),
    })
}

impl Lay {
    /// The documented validity rules of `InstructionLayout::from_specification`.
    pub fn new(spec: &Spec) -> Option<Lay> {
        let mut slot = [None; 4];
        let mut pos = 0u64;
        for (k, n) in spec {
            let (idx, min) = match k {
                'O' => (0, 6),
                'A' => (1, 7),
                'B' => (2, 8),
                _ => (3, 8),
            };
            if *n < min || *n > 31 || slot[idx].is_some() {
                return None;
            }
            slot[idx] = Some(Slot { pos: pos as u32, size: *n as u32 });
            pos += n;
        }
        if pos > 64 {
            return None;
        }
        let [op, a, b, c] = slot.map(|s| s.unwrap());
        if b.pos + b.size != c.pos && c.pos + c.size != b.pos {
            return None;
        }
        let bx = Slot { pos: b.pos.min(c.pos), size: b.size + c.size };
        Some(Lay { spec: *spec, op, a, b, c, bx })
    }
    pub fn lunify(&self) -> InstructionLayout {
        InstructionLayout::from_specification(spec_to_lunify(&self.spec)).expect("valid layout")
    }
    pub fn bias(&self) -> i64 {
        ((1u64 << (self.bx.size - 1)) - 1) as i64
    }
    /// Number of bits of an instruction.
    pub fn bits(&self) -> u32 {
        self.op.size + self.a.size + self.b.size + self.c.size
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct VSet {
    pub stack_limit: u64,
    pub fpf: u64,
    pub sig: String,
    pub lay: Lay,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Set {
    pub l50: VSet,
    pub l51: VSet,
    pub out: VSet,
}

pub fn std_lay50() -> Lay {
    Lay::new(&[('O', 6), ('C', 9), ('B', 9), ('A', 8)]).unwrap()
}
pub fn std_lay51() -> Lay {
    Lay::new(&[('O', 6), ('A', 8), ('C', 9), ('B', 9)]).unwrap()
}

impl Set {
    pub fn std() -> Set {
        let l51 = VSet { stack_limit: 250, fpf: 50, sig: "\x1bLua".into(), lay: std_lay51() };
        Set { l50: VSet { stack_limit: 250, fpf: 32, sig: "\x1bLua".into(), lay: std_lay50() }, l51: l51.clone(), out: l51 }
    }
    /// The valid layout of these settings that the code under test doesn't accept.
    pub fn rejected(&self) -> Option<String> {
        [&self.l50, &self.l51, &self.out].iter().find_map(|s| {
            let spec = &s.lay.spec;
            match std::panic::catch_unwind(|| InstructionLayout::from_specification(spec_to_lunify(spec))) {
                Ok(Ok(_)) => None,
                Ok(Err(e)) => Some(format!("from_specification({spec:?}) rejects a valid layout: {e:?}")),
                Err(_) => Some(format!("from_specification({spec:?}) panics")),
            }
        })
    }
    pub fn lunify(&self) -> lunify::Settings<'_> {
        lunify::Settings {
            lua50: lunify::lua50::Settings {
                stack_limit: self.l50.stack_limit,
                fields_per_flush: self.l50.fpf,
                binary_signature: &self.l50.sig,
                layout: self.l50.lay.lunify(),
            },
            lua51: lunify::lua51::Settings {
                stack_limit: self.l51.stack_limit,
                fields_per_flush: self.l51.fpf,
                binary_signature: &self.l51.sig,
                layout: self.l51.lay.lunify(),
            },
            output: lunify::lua51::Settings {
                stack_limit: self.out.stack_limit,
                fields_per_flush: self.out.fpf,
                binary_signature: &self.out.sig,
                layout: self.out.lay.lunify(),
            },
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M {
    /// unused
    U,
    /// plain number
    G,
    /// register
    R,
    /// register or constant
    K,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    BC(M, M),
    Bx,
    SBx,
}

use M::*;
use Mode::{Bx as X, SBx as S, BC};

/// (name, operand modes, whether A is a register)
pub type OpTable = &'static [(&'static str, Mode, bool)];

pub const OPS50: OpTable = &[
    ("MOVE", BC(R, U), true),
    ("LOADK", X, true),
    ("LOADBOOL", BC(G, G), true),
    ("LOADNIL", BC(R, U), true),
    ("GETUPVAL", BC(G, U), true),
    ("GETGLOBAL", X, true),
    ("GETTABLE", BC(R, K), true),
    ("SETGLOBAL", X, true),
    ("SETUPVAL", BC(G, U), true),
    ("SETTABLE", BC(K, K), true),
    ("NEWTABLE", BC(U, U), true),
    ("SELF", BC(R, K), true),
    ("ADD", BC(K, K), true),
    ("SUB", BC(K, K), true),
    ("MUL", BC(K, K), true),
    ("DIV", BC(K, K), true),
    ("POW", BC(K, K), true),
    ("UNM", BC(R, K), true),
    ("NOT", BC(R, U), true),
    ("CONCAT", BC(R, R), true),
    ("JMP", S, false),
    ("EQ", BC(K, K), false),
    ("LT", BC(K, K), false),
    ("LE", BC(K, K), false),
    ("TEST", BC(R, G), true),
    ("CALL", BC(G, G), true),
    ("TAILCALL", BC(G, G), true),
    ("RETURN", BC(G, U), true),
    ("FORLOOP", S, true),
    ("TFORLOOP", BC(U, G), true),
    ("TFORPREP", S, true),
    ("SETLIST", X, true),
    ("SETLISTO", X, true),
    ("CLOSE", BC(U, U), true),
    ("CLOSURE", X, true),
];

pub const OPS51: OpTable = &[
    ("MOVE", BC(R, U), true),
    ("LOADK", X, true),
    ("LOADBOOL", BC(G, G), true),
    ("LOADNIL", BC(R, U), true),
    ("GETUPVAL", BC(G, U), true),
    ("GETGLOBAL", X, true),
    ("GETTABLE", BC(R, K), true),
    ("SETGLOBAL", X, true),
    ("SETUPVAL", BC(G, U), true),
    ("SETTABLE", BC(K, K), true),
    ("NEWTABLE", BC(U, U), true),
    ("SELF", BC(R, K), true),
    ("ADD", BC(K, K), true),
    ("SUB", BC(K, K), true),
    ("MUL", BC(K, K), true),
    ("DIV", BC(K, K), true),
    ("MOD", BC(K, K), true),
    ("POW", BC(K, K), true),
    ("UNM", BC(R, K), true),
    ("NOT", BC(R, U), true),
    ("LEN", BC(R, U), true),
    ("CONCAT", BC(R, R), true),
    ("JMP", S, false),
    ("EQ", BC(K, K), false),
    ("LT", BC(K, K), false),
    ("LE", BC(K, K), false),
    ("TEST", BC(R, G), true),
    ("TESTSET", BC(K, G), true),
    ("CALL", BC(G, G), true),
    ("TAILCALL", BC(G, G), true),
    ("RETURN", BC(G, U), true),
    ("FORLOOP", S, true),
    ("FORPREP", S, true),
    ("TFORLOOP", BC(U, G), true),
    ("SETLIST", BC(G, G), true),
    ("CLOSE", BC(U, U), true),
    ("CLOSURE", X, true),
    ("VARARG", BC(G, U), true),
];

pub fn ops(v: Ver) -> OpTable {
    match v {
        Ver::L50 => OPS50,
        Ver::L51 => OPS51,
    }
}
pub fn op(v: Ver, name: &str) -> usize {
    ops(v).iter().position(|o| o.0 == name).unwrap_or_else(|| panic!("no op {name}"))
}
pub fn op51(name: &str) -> usize {
    op(Ver::L51, name)
}
pub fn op50(name: &str) -> usize {
    op(Ver::L50, name)
}

/// A register or a constant index.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Opnd {
    pub v: u64,
    pub k: bool,
}
pub fn rg(v: u64) -> Opnd {
    Opnd { v, k: false }
}
pub fn kk(v: u64) -> Opnd {
    Opnd { v, k: true }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ins {
    pub op: usize,
    pub a: u64,
    pub b: Opnd,
    pub c: Opnd,
    /// Bx, or sBx (signed)
    pub x: i64,
}

impl Ins {
    pub fn bc(op: usize, a: u64, b: Opnd, c: Opnd) -> Ins {
        Ins { op, a, b, c, x: 0 }
    }
    pub fn x(op: usize, a: u64, x: i64) -> Ins {
        Ins { op, a, b: rg(0), c: rg(0), x }
    }
    pub fn show(&self, v: Ver) -> String {
        let (n, m, _) = ops(v)[self.op];
        let o = |o: Opnd| if o.k { format!("K{}", o.v) } else { format!("{}", o.v) };
        match m {
            Mode::BC(..) => format!("{n} {} {} {}", self.a, o(self.b), o(self.c)),
            _ => format!("{n} {} {}", self.a, self.x),
        }
    }
    pub fn decode(v: Ver, w: u64, set: &VSet) -> Result<Ins, LunifyError> {
        let lay = &set.lay;
        let op = lay.op.get(w);
        let Some((_, mode, _)) = ops(v).get(op as usize) else {
            return Err(LunifyError::InvalidOpcode(op));
        };
        let field = |m: M, raw: u64| match m {
            U => rg(0),
            G | R => rg(raw),
            K => match v {
                // Lua 5.0: MAXSTACK and up are constants
                Ver::L50 => {
                    if raw >= set.stack_limit {
                        kk(raw - set.stack_limit)
                    } else {
                        rg(raw)
                    }
                }
                // Lua 5.1: BITRK
                Ver::L51 => {
                    let bit = 1u64 << (lay.b.size - 1);
                    if raw & bit != 0 {
                        kk(raw & !bit)
                    } else {
                        rg(raw)
                    }
                }
            },
        };
        let mut ins = Ins { op: op as usize, a: lay.a.get(w), b: rg(0), c: rg(0), x: 0 };
        match mode {
            Mode::BC(mb, mc) => {
                ins.b = field(*mb, lay.b.get(w));
                ins.c = field(*mc, lay.c.get(w));
            }
            Mode::Bx => ins.x = lay.bx.get(w) as i64,
            Mode::SBx => ins.x = lay.bx.get(w) as i64 - lay.bias(),
        }
        Ok(ins)
    }
    pub fn encode(&self, v: Ver, set: &VSet) -> Result<u64, LunifyError> {
        let lay = &set.lay;
        let e = LunifyError::ValueTooBigForOperand;
        let put = |s: Slot, val: u64| if val > s.max() { Err(e) } else { Ok(s.put(val)) };
        let field = |m: M, s: Slot, o: Opnd| match m {
            U => Ok(0),
            G | R => put(s, o.v),
            K => match v {
                Ver::L50 => put(s, if o.k { o.v + set.stack_limit } else { o.v }),
                Ver::L51 => {
                    let bit = 1u64 << (lay.b.size - 1);
                    if o.v >= bit {
                        return Err(e);
                    }
                    put(s, if o.k { o.v | bit } else { o.v })
                }
            },
        };
        let mut w = put(lay.op, self.op as u64)? | put(lay.a, self.a)?;
        match ops(v)[self.op].1 {
            Mode::BC(mb, mc) => w |= field(mb, lay.b, self.b)? | field(mc, lay.c, self.c)?,
            Mode::Bx => w |= put(lay.bx, self.x as u64)?,
            Mode::SBx => {
                let biased = self.x as i128 + lay.bias() as i128;
                if biased < 0 || biased > lay.bx.max() as i128 {
                    return Err(e);
                }
                w |= lay.bx.put(biased as u64);
            }
        }
        Ok(w)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Num {
    F(f64),
    I(i64),
}
impl PartialEq for Num {
    fn eq(&self, o: &Num) -> bool {
        match (self, o) {
            (Num::F(a), Num::F(b)) => a.to_bits() == b.to_bits(),
            (Num::I(a), Num::I(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Konst {
    Nil,
    Bool(bool),
    Num(Num),
    Str(Vec<u8>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Local {
    pub name: Vec<u8>,
    pub start: i64,
    pub end: i64,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Func {
    pub source: Vec<u8>,
    pub line: i64,
    pub last_line: i64,
    pub nups: u8,
    pub params: u8,
    pub vararg: u8,
    pub maxstack: u8,
    /// raw instruction words
    pub code: Vec<u64>,
    pub consts: Vec<Konst>,
    pub protos: Vec<Func>,
    pub lines: Vec<i64>,
    pub locals: Vec<Local>,
    pub upvals: Vec<Vec<u8>>,
}

impl Func {
    pub fn empty() -> Func {
        Func {
            source: b"@t\0".to_vec(),
            line: 0,
            last_line: 0,
            nups: 0,
            params: 0,
            vararg: 0,
            maxstack: 2,
            code: vec![],
            consts: vec![],
            protos: vec![],
            lines: vec![],
            locals: vec![],
            upvals: vec![],
        }
    }
}

/// Chunk encoder (used to build inputs; never fails, truncates silently, so
/// callers only give it values that fit).
pub struct Enc {
    pub out: Vec<u8>,
    pub fmt: Fmt,
}

impl Enc {
    pub fn fixed(&mut self, width: u8, value: u64) {
        let le = value.to_le_bytes();
        let mut b = le[..width as usize].to_vec();
        if !self.fmt.little {
            b.reverse();
        }
        self.out.extend(b);
    }
    pub fn int(&mut self, v: i64) {
        self.fixed(self.fmt.int, v as u64)
    }
    pub fn string(&mut self, s: &[u8]) {
        self.fixed(self.fmt.size, s.len() as u64);
        self.out.extend_from_slice(s);
    }
    pub fn num(&mut self, n: Num) {
        let bits = match (n, self.fmt.integral, self.fmt.num) {
            (Num::F(f), false, 4) => (f as f32).to_bits() as u64,
            (Num::F(f), false, _) => f.to_bits(),
            (Num::I(i), false, 4) => (i as f32).to_bits() as u64,
            (Num::I(i), false, _) => (i as f64).to_bits(),
            (Num::I(i), true, _) => i as u64,
            (Num::F(f), true, _) => f as i64 as u64,
        };
        self.fixed(self.fmt.num, bits)
    }
    fn code(&mut self, f: &Func) {
        self.int(f.code.len() as i64);
        for w in &f.code {
            self.fixed(self.fmt.ins, *w);
        }
    }
    fn consts(&mut self, f: &Func) {
        self.int(f.consts.len() as i64);
        for k in &f.consts {
            match k {
                Konst::Nil => self.out.push(0),
                // every byte other than 0 is true
                Konst::Bool(b) => self.out.extend([1, if !*b { 0 } else if f.last_line % 4 == 1 { f.maxstack | 2 } else { 1 }]),
                Konst::Num(n) => {
                    self.out.push(3);
                    self.num(*n)
                }
                Konst::Str(s) => {
                    self.out.push(4);
                    self.string(s)
                }
            }
        }
    }
    fn protos(&mut self, f: &Func, v: Ver) {
        self.int(f.protos.len() as i64);
        for p in &f.protos {
            self.func(p, v);
        }
    }
    fn debug(&mut self, f: &Func) {
        self.int(f.lines.len() as i64);
        for l in &f.lines {
            self.int(*l);
        }
        self.int(f.locals.len() as i64);
        for l in &f.locals {
            self.string(&l.name);
            self.int(l.start);
            self.int(l.end);
        }
        self.int(f.upvals.len() as i64);
        for u in &f.upvals {
            self.string(u);
        }
    }
    pub fn func(&mut self, f: &Func, v: Ver) {
        self.string(&f.source);
        self.int(f.line);
        if v == Ver::L51 {
            self.int(f.last_line);
        }
        self.out.extend([f.nups, f.params, f.vararg, f.maxstack]);
        match v {
            Ver::L51 => {
                self.code(f);
                self.consts(f);
                self.protos(f, v);
                self.debug(f);
            }
            Ver::L50 => {
                self.debug(f);
                self.consts(f);
                self.protos(f, v);
                self.code(f);
            }
        }
    }
    pub fn header(&mut self, v: Ver, set: &Set) {
        let f = self.fmt;
        match v {
            Ver::L51 => {
                self.out.extend(set.l51.sig.as_bytes());
                self.out.push(0x51);
                self.out.extend(f.bytes());
            }
            Ver::L50 => {
                self.out.extend(set.l50.sig.as_bytes());
                self.out.extend([0x50, f.little as u8, f.int, f.size, f.ins]);
                let l = &set.l50.lay;
                self.out.extend([l.op.size as u8, l.a.size as u8, l.b.size as u8, l.c.size as u8, f.num]);
                // TEST_NUMBER of Lua 5.0, as lua_Number
                let test = 3.14159265358979323846E7f64;
                self.num(if f.integral { Num::I(test as i64) } else { Num::F(test) });
            }
        }
    }
}

pub fn encode(v: Ver, f: &Func, fmt: Fmt, set: &Set) -> Vec<u8> {
    let mut e = Enc { out: vec![], fmt };
    e.header(v, set);
    e.func(f, v);
    e.out
}
