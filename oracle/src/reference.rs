//! Executable statement of what `unify` has to do, written against the Lua
//! manuals and the documentation of lunify, and used to replay and search for
//! concrete inputs that violate a property.
use crate::model::*;
use lunify::LunifyError as E;

pub struct Reader<'a> {
    pub d: &'a [u8],
    pub p: usize,
    pub fmt: Fmt,
}

type R<T> = Result<T, E>;

impl<'a> Reader<'a> {
    fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if n > (self.d.len() - self.p.min(self.d.len())) as u64 {
            return Err(E::InputTooShort);
        }
        let s = &self.d[self.p..self.p + n as usize];
        self.p += n as usize;
        Ok(s)
    }
    fn byte(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn bits(&mut self, w: u8) -> R<u64> {
        let little = self.fmt.little;
        let s = self.take(w as u64)?;
        let mut v = 0u64;
        for i in 0..s.len() {
            let byte = if little { s[s.len() - 1 - i] } else { s[i] };
            v = v << 8 | byte as u64;
        }
        Ok(v)
    }
    fn sext(&mut self, w: u8) -> R<i64> {
        let v = self.bits(w)?;
        Ok(if w == 4 { v as u32 as i32 as i64 } else { v as i64 })
    }
    pub fn int(&mut self) -> R<i64> {
        self.sext(self.fmt.int)
    }
    fn float(&mut self) -> R<f64> {
        let w = self.fmt.num;
        let v = self.bits(w)?;
        Ok(if w == 4 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) })
    }
    pub fn num(&mut self) -> R<Num> {
        if self.fmt.integral {
            Ok(Num::I(self.sext(self.fmt.num)?))
        } else {
            Ok(Num::F(self.float()?))
        }
    }
    pub fn string(&mut self) -> R<Vec<u8>> {
        let n = self.sext(self.fmt.size)?;
        Ok(self.take(n as u64)?.to_vec())
    }
    fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.int()? as u64;
        let mut v = vec![];
        let mut i = 0;
        while i < n {
            v.push(f(self)?);
            i += 1;
        }
        Ok(v)
    }
    fn konst(&mut self) -> R<Konst> {
        Ok(match self.byte()? {
            0 => Konst::Nil,
            1 => Konst::Bool(self.byte()? != 0),
            3 => Konst::Num(self.num()?),
            4 => Konst::Str(self.string()?),
            t => return Err(E::InvalidConstantType(t)),
        })
    }
    fn local(&mut self) -> R<Local> {
        Ok(Local { name: self.string()?, start: self.int()?, end: self.int()? })
    }
}

/// A function whose instructions are decoded (input side) or already converted.
#[derive(Clone, PartialEq, Debug)]
pub struct DFunc {
    pub f: Func,
    pub ins: Vec<Ins>,
    pub protos: Vec<DFunc>,
}

pub const MAX_DEPTH: usize = 200;

/// Reads a function; `post` converts its instructions as soon as they are
/// complete, because lunify reports errors in that order.
pub fn read_func(r: &mut Reader, v: Ver, set: &Set, depth: usize, post: &dyn Fn(&mut DFunc) -> R<()>) -> R<DFunc> {
    if depth > MAX_DEPTH {
        return Err(E::NestingTooDeep);
    }
    let mut f = Func::empty();
    let vset = match v {
        Ver::L50 => &set.l50,
        Ver::L51 => &set.l51,
    };
    f.source = r.string()?;
    f.line = r.int()?;
    f.last_line = if v == Ver::L51 { r.int()? } else { f.line };
    f.nups = r.byte()?;
    f.params = r.byte()?;
    f.vararg = r.byte()?;
    f.maxstack = r.byte()?;
    let code = |r: &mut Reader| {
        let w = r.fmt.ins;
        r.list(|r| Ins::decode(v, r.bits(w)?, vset))
    };
    let ins;
    let protos;
    match v {
        Ver::L51 => {
            ins = code(r)?;
            f.consts = r.list(|r| r.konst())?;
            protos = r.list(|r| read_func(r, v, set, depth + 1, post))?;
            f.lines = r.list(|r| r.int())?;
            f.locals = r.list(|r| r.local())?;
            f.upvals = r.list(|r| r.string())?;
        }
        Ver::L50 => {
            f.lines = r.list(|r| r.int())?;
            f.locals = r.list(|r| r.local())?;
            f.upvals = r.list(|r| r.string())?;
            f.consts = r.list(|r| r.konst())?;
            protos = r.list(|r| read_func(r, v, set, depth + 1, post))?;
            ins = code(r)?;
        }
    }
    let mut d = DFunc { f, ins, protos };
    post(&mut d)?;
    Ok(d)
}

pub fn read_header(input: &[u8], set: &Set) -> R<(Ver, Fmt, usize)> {
    let mut r = Reader { d: input, p: 0, fmt: STD };
    let sig = [&set.l50.sig, &set.l51.sig].into_iter().find(|s| input.len() > s.len() && input.starts_with(s.as_bytes()));
    match sig {
        Some(s) => r.p = s.len(),
        None => return Err(E::IncorrectSignature),
    }
    let v = match r.byte()? {
        0x50 => Ver::L50,
        0x51 => Ver::L51,
        x => return Err(E::UnsupportedVersion(x)),
    };
    let mut f = STD;
    f.format = if v == Ver::L51 { r.byte()? } else { 0 };
    f.little = match r.byte()? {
        0 => false,
        1 => true,
        x => return Err(E::InvaildEndianness(x)),
    };
    let width = |r: &mut Reader, e: fn(u8) -> E| match r.byte()? {
        x @ (4 | 8) => Ok(x),
        x => Err(e(x)),
    };
    f.int = width(&mut r, E::UnsupportedIntegerWidth)?;
    f.size = width(&mut r, E::UnsupportedSizeTWidth)?;
    f.ins = width(&mut r, E::UnsupportedInstructionWidth)?;
    if v == Ver::L50 {
        let got = r.take(4)?;
        let l = &set.l50.lay;
        let want = [l.op.size, l.a.size, l.b.size, l.c.size];
        if (0..4).any(|i| got[i] as u32 != want[i]) {
            return Err(E::UnsupportedInstructionFormat([got[0], got[1], got[2], got[3]]));
        }
    }
    f.num = width(&mut r, E::UnsupportedNumberWidth)?;
    r.fmt = f;
    if v == Ver::L51 {
        f.integral = r.byte()? == 1;
    } else {
        // the test number of Lua 5.0 tells integral builds from floating point builds
        let n = r.float()?;
        let test = 3.14159265358979323846E7f64;
        f.integral = n != if f.num == 4 { test as f32 as f64 } else { test };
    }
    Ok((v, f, r.p))
}

/// Decode a whole chunk without converting anything.
pub fn decode(input: &[u8], set: &Set) -> R<(Ver, Fmt, DFunc)> {
    let (v, fmt, p) = read_header(input, set)?;
    let mut r = Reader { d: input, p, fmt };
    let d = read_func(&mut r, v, set, 0, &|_| Ok(()))?;
    if r.p < input.len() {
        return Err(E::InputTooLong);
    }
    Ok((v, fmt, d))
}

// ------------------------------------------------------------------------
// instruction conversion
// ------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum J {
    /// not a jump, or a jump that is already relative to the output
    No,
    /// jumps to the (position of the) original instruction, plus a delta
    To(i64, i64),
}

#[derive(Clone, Debug)]
struct Item {
    i: Ins,
    line: i64,
    j: J,
    /// original instructions that begin here
    at: Vec<i64>,
}

/// First and last register (as lunify counts them) written by an instruction.
pub fn writes(i: &Ins) -> Option<(u64, u64)> {
    let a = i.a;
    Some(match OPS51[i.op].0 {
        "SETGLOBAL" | "SETUPVAL" | "JMP" | "EQ" | "LT" | "LE" | "TEST" | "TAILCALL" | "RETURN" | "CLOSE" => return None,
        "LOADNIL" => (a, i.b.v),
        "SELF" => (a, a + 1),
        "CALL" => (a, a.max((a + i.c.v).saturating_sub(1))),
        "FORLOOP" => (a, a + 3),
        "FORPREP" => (a, a + 2),
        "TFORLOOP" => (a, a + 2 + i.c.v),
        "VARARG" => (a, a.max((a + i.b.v).saturating_sub(1))),
        _ => (a, a),
    })
}

fn shift(i: &mut Ins, from: u64, by: i64) {
    let (_, mode, reg_a) = OPS51[i.op];
    let sh = |v: &mut u64| {
        if *v >= from {
            *v = (*v as i128 + by as i128).clamp(0, u64::MAX as i128) as u64
        }
    };
    if reg_a {
        sh(&mut i.a);
    }
    if let Mode::BC(b, c) = mode {
        for (m, o) in [(b, &mut i.b), (c, &mut i.c)] {
            if m == M::R || (m == M::K && !o.k) {
                sh(&mut o.v);
            }
        }
    }
}

struct Code {
    v: Vec<Item>,
    n: i64,
}

impl Code {
    fn push(&mut self, orig: Option<i64>, line: i64, i: Ins, j: J) {
        self.v.push(Item { i, line, j, at: orig.into_iter().collect() });
    }
    fn pos(&self, t: i64) -> i64 {
        if t < 0 {
            return t;
        }
        match self.v.iter().position(|x| x.at.contains(&t)) {
            Some(p) => p as i64,
            None => self.v.len() as i64 + (t - self.n),
        }
    }
    fn setlist(a: u64, b: u64, c: u64) -> Ins {
        Ins::bc(op51("SETLIST"), a, rg(b), rg(c))
    }
    /// `stored` elements are in the table, `pending` more are on the stack at
    /// A+1 and up (the last of them open if `open`).
    fn set_list(&mut self, orig: i64, line: i64, a: u64, stored: u64, pending: u64, open: bool, fpf: u64) {
        let (mut page, mut off) = (stored / fpf + 1, (stored % fpf) as i64);
        let n = self.v.len();
        let owner = (0..n.saturating_sub(1)).rev().find(|i| {
            let x = &self.v[*i].i;
            x.a == a && (x.op == op51("NEWTABLE") || x.op == op51("SETLIST"))
        });
        if let Some(o) = owner {
            let mut start = o + 1;
            if self.v[o].i.op == op51("SETLIST") {
                let (b, c) = (self.v[o].i.b.v, self.v[o].i.c.v);
                if b % fpf == 0 {
                    page = c + b / fpf;
                    off = 0;
                } else {
                    let gone = self.v.remove(o);
                    self.v[o].at.extend(gone.at);
                    (page, off, start) = (c, b as i64, o);
                }
            }
            while pending as i64 + off > fpf as i64 {
                let last = (a + fpf) as i64 - off;
                let Some(w) = (start..self.v.len())
                    .rev()
                    .find(|i| matches!(writes(&self.v[*i].i), Some((s, _)) if s > a && s as i64 <= last))
                else {
                    break;
                };
                if writes(&self.v[w].i).unwrap().1 as i64 > last {
                    break;
                }
                let mut end = w + 1;
                if self.v[w].i.op == op51("CLOSURE") {
                    while end < self.v.len()
                        && self.v[end].i.a == 0
                        && (self.v[end].i.op == op51("MOVE") || self.v[end].i.op == op51("GETUPVAL"))
                    {
                        end += 1;
                    }
                }
                for x in &mut self.v[start..end] {
                    shift(&mut x.i, a + 1, off);
                }
                let (l, at) = match self.v.get_mut(end) {
                    Some(next) => (next.line, std::mem::take(&mut next.at)),
                    None => (line, vec![]),
                };
                self.v.insert(end, Item { i: Self::setlist(a, fpf, page), line: l, j: J::No, at });
                start = end + 1;
                off -= fpf as i64;
                page += 1;
            }
            for x in &mut self.v[start..] {
                shift(&mut x.i, a + 1, off);
            }
        }
        let b = if open { 0 } else { (pending as i64 + off) as u64 };
        self.push(Some(orig), line, Self::setlist(a, b, page), J::No);
    }
    fn finish(mut self, maxstack: &mut u8, set: &Set) -> R<(Vec<Ins>, Vec<i64>)> {
        for p in 0..self.v.len() {
            if let Some((_, last)) = writes(&self.v[p].i) {
                if last + 1 > set.out.stack_limit.min(255) {
                    return Err(E::StackTooLarge(last + 1));
                }
                *maxstack = (*maxstack).max((last + 1) as u8);
            }
            if let J::To(t, d) = self.v[p].j {
                self.v[p].i.x = self.pos(t) + d - (p as i64 + 1);
            }
        }
        Ok((self.v.iter().map(|x| x.i).collect(), self.v.iter().map(|x| x.line).collect()))
    }
}

pub fn const_index(consts: &mut Vec<Konst>, k: Konst) -> i64 {
    match consts.iter().position(|c| *c == k) {
        Some(p) => p as i64,
        None => {
            consts.push(k);
            consts.len() as i64 - 1
        }
    }
}

fn fresh(consts: &mut Vec<Konst>, pc: usize) -> i64 {
    let mut n = 0;
    loop {
        let k = Konst::Str(format!("__%lunify%__temp{pc}_{n}\0").into_bytes());
        if !consts.contains(&k) {
            consts.push(k);
            return consts.len() as i64 - 1;
        }
        n += 1;
    }
}

pub fn convert(d: &mut DFunc, v: Ver, set: &Set) -> R<()> {
    if v == Ver::L51 && set.l51.fpf == set.out.fpf {
        return Ok(());
    }
    let stripped = d.f.lines.is_empty();
    let n = d.ins.len();
    let mut lines = d.f.lines.clone();
    lines.resize(n, 0);
    let mut code = Code { v: vec![], n: n as i64 };
    let consts = &mut d.f.consts;

    for t in 0..n {
        let i = d.ins[t];
        let (o, line) = (t as i64, lines[t]);
        let a = i.a;
        let name = ops(v)[i.op].0;
        let m = |n: &str, a: u64, b: u64| Ins::bc(op51(n), a, rg(b), rg(0));
        let x = |n: &str, a: u64, x: i64| Ins::x(op51(n), a, x);
        let target = J::To(o + 1 + i.x, 0);
        match (v, name) {
            (Ver::L51, "SETLIST") => {
                if i.c.v == 0 {
                    return Err(E::ValueTooBigForOperand);
                }
                let open = i.b.v == 0;
                let pending = if open {
                    code.v.last().and_then(|l| writes(&l.i)).map_or(0, |w| w.0).saturating_sub(a)
                } else {
                    i.b.v
                };
                code.set_list(o, line, a, set.l51.fpf * (i.c.v - 1), pending, open, set.out.fpf);
            }
            (Ver::L51, "JMP" | "FORLOOP" | "FORPREP") => code.push(Some(o), line, i, target),
            (Ver::L51, _) => code.push(Some(o), line, i, J::No),
            (Ver::L50, "SETLIST" | "SETLISTO") => {
                let bx = i.x as u64;
                let pending = bx % set.l50.fpf + 1;
                code.set_list(o, line, a, bx + 1 - pending, pending, name == "SETLISTO", set.out.fpf);
            }
            (Ver::L50, "TEST") => code.push(Some(o), line, Ins { op: op51("TESTSET"), ..i }, J::No),
            (Ver::L50, "JMP") => code.push(Some(o), line, Ins { op: op51("JMP"), ..i }, target),
            (Ver::L50, "FORLOOP") => {
                let save = fresh(consts, code.v.len());
                code.push(Some(o), line, x("SETGLOBAL", a + 3, save), J::No);
                if i.x >= 0 {
                    return Err(E::UnexpectedForwardJump);
                }
                let dest = o + 1 + i.x;
                if dest < 0 {
                    return Err(E::InvalidJumpDestination);
                }
                code.push(None, line, x("FORLOOP", a, 0), J::To(dest, -1));
                let p = code.pos(dest) as usize;
                let line = code.v[p].line;
                code.v.insert(p, Item { i: x("GETGLOBAL", a + 3, save), line, j: J::No, at: vec![] });
            }
            (Ver::L50, "TFORLOOP") => {
                let nvar = i.c.v + 1;
                if nvar == 1 {
                    code.push(Some(o), line, Ins::bc(op51("TFORLOOP"), a, rg(0), rg(1)), J::No);
                } else {
                    let cb = a + nvar + 2;
                    if cb + nvar + 1 > set.out.stack_limit.min(255) {
                        return Err(E::StackTooLarge(cb + nvar + 1));
                    }
                    let nil = const_index(consts, Konst::Nil);
                    code.push(Some(o), line, m("MOVE", cb, a), J::No);
                    code.push(None, line, m("MOVE", cb + 1, a + 1), J::No);
                    code.push(None, line, m("MOVE", cb + 2, a + 2), J::No);
                    code.push(None, line, Ins::bc(op51("CALL"), cb, rg(3), rg(nvar + 1)), J::No);
                    for k in (0..nvar).rev() {
                        code.push(None, line, m("MOVE", a + 2 + k, cb + k), J::No);
                    }
                    code.push(None, line, x("LOADK", cb, nil), J::No);
                    code.push(None, line, Ins::bc(op51("EQ"), 0, rg(a + 2), rg(cb)), J::No);
                }
            }
            (Ver::L50, "TFORPREP") => {
                let g1 = fresh(consts, code.v.len());
                let g2 = fresh(consts, code.v.len() + 1);
                let ty = const_index(consts, Konst::Str(b"type\0".to_vec()));
                let tb = const_index(consts, Konst::Str(b"table\0".to_vec()));
                let nx = const_index(consts, Konst::Str(b"next\0".to_vec()));
                let seq = [
                    (x("SETGLOBAL", a + 1, g1), J::No),
                    (x("SETGLOBAL", a + 2, g2), J::No),
                    (x("GETGLOBAL", a + 1, ty), J::No),
                    (m("MOVE", a + 2, a), J::No),
                    (Ins::bc(op51("CALL"), a + 1, rg(2), rg(2)), J::No),
                    (x("LOADK", a + 2, tb), J::No),
                    (Ins::bc(op51("EQ"), 0, rg(a + 1), rg(a + 2)), J::No),
                    (x("JMP", a, 2), J::No),
                    (x("SETGLOBAL", a, g1), J::No),
                    (x("GETGLOBAL", a, nx), J::No),
                    (x("GETGLOBAL", a + 1, g1), J::No),
                    (x("GETGLOBAL", a + 2, g2), J::No),
                    (x("JMP", a, 0), target),
                ];
                for (k, (i, j)) in seq.into_iter().enumerate() {
                    code.push(if k == 0 { Some(o) } else { None }, line, i, j);
                }
            }
            (Ver::L50, other) => code.push(Some(o), line, Ins { op: op51(other), ..i }, J::No),
        }
    }

    if v == Ver::L50 && d.f.vararg != 0 {
        d.f.vararg |= 2;
        let p = d.f.params as u64;
        let line = code.v.first().map_or(0, |i| i.line);
        let pre = [
            Ins::bc(op51("NEWTABLE"), p + 1, rg(0), rg(0)),
            Ins::bc(op51("VARARG"), p + 2, rg(0), rg(0)),
            Code::setlist(p + 1, 0, 1),
            Ins::bc(op51("MOVE"), p, rg(p + 1), rg(0)),
        ];
        for (k, i) in pre.into_iter().enumerate() {
            code.v.insert(k, Item { i, line, j: J::No, at: vec![] });
        }
    }

    let (ins, lines) = code.finish(&mut d.f.maxstack, set)?;
    d.ins = ins;
    d.f.lines = if stripped { vec![] } else { lines };
    Ok(())
}

// ------------------------------------------------------------------------
// writing, with range checks
// ------------------------------------------------------------------------

struct Writer {
    e: Enc,
}

fn exact_int(n: Num) -> R<i64> {
    match n {
        Num::I(i) => Ok(i),
        Num::F(f) if f.is_nan() || (f.is_finite() && f.fract() != 0.0) => Err(E::FloatPrecisionLoss),
        Num::F(f) if !(-9223372036854775808.0..9223372036854775808.0).contains(&f) => Err(E::IntegerOverflow),
        Num::F(f) => Ok(f as i64),
    }
}

impl Writer {
    fn int_w(&mut self, w: u8, v: i64) -> R<()> {
        if w == 4 && i32::try_from(v).is_err() {
            return Err(E::IntegerOverflow);
        }
        self.e.fixed(w, v as u64);
        Ok(())
    }
    fn int(&mut self, v: i64) -> R<()> {
        self.int_w(self.e.fmt.int, v)
    }
    fn string(&mut self, s: &[u8]) -> R<()> {
        self.int_w(self.e.fmt.size, s.len() as i64)?;
        self.e.out.extend_from_slice(s);
        Ok(())
    }
    fn num(&mut self, n: Num) -> R<()> {
        let w = self.e.fmt.num;
        if self.e.fmt.integral {
            return self.int_w(w, exact_int(n)?);
        }
        let f = match n {
            Num::F(f) => f,
            Num::I(i) => {
                let f = i as f64;
                let same = |f: f64| f < 9223372036854775808.0 && f as i128 == i as i128;
                if !same(f) || (w == 4 && !same(f as f32 as f64)) {
                    return Err(E::IntegerOverflow);
                }
                f
            }
        };
        self.e.fixed(w, if w == 4 { (f as f32).to_bits() as u64 } else { f.to_bits() });
        Ok(())
    }
    fn func(&mut self, d: &DFunc, set: &Set) -> R<()> {
        let f = &d.f;
        self.string(&f.source)?;
        self.int(f.line)?;
        self.int(f.last_line)?;
        self.e.out.extend([f.nups, f.params, f.vararg, f.maxstack]);
        self.int(f.code.len() as i64)?;
        let w = self.e.fmt.ins;
        for word in &f.code {
            if w == 4 && *word > u32::MAX as u64 {
                return Err(E::ValueTooBigForOperand);
            }
            self.e.fixed(w, *word);
        }
        self.int(f.consts.len() as i64)?;
        for k in &f.consts {
            match k {
                Konst::Nil => self.e.out.push(0),
                Konst::Bool(b) => self.e.out.extend([1, *b as u8]),
                Konst::Num(n) => {
                    self.e.out.push(3);
                    self.num(*n)?
                }
                Konst::Str(s) => {
                    self.e.out.push(4);
                    self.string(s)?
                }
            }
        }
        self.int(d.protos.len() as i64)?;
        for p in &d.protos {
            self.func(p, set)?;
        }
        self.int(f.lines.len() as i64)?;
        for l in &f.lines {
            self.int(*l)?;
        }
        self.int(f.locals.len() as i64)?;
        for l in &f.locals {
            self.string(&l.name)?;
            self.int(l.start)?;
            self.int(l.end)?;
        }
        self.int(f.upvals.len() as i64)?;
        for u in &f.upvals {
            self.string(u)?;
        }
        Ok(())
    }
}

pub fn unify(input: &[u8], fmt: Fmt, set: &Set) -> R<Vec<u8>> {
    let (v, in_fmt, p) = read_header(input, set)?;
    if v == Ver::L51 && in_fmt == fmt && set.l51 == set.out && input.starts_with(set.out.sig.as_bytes()) {
        return Ok(input.to_vec());
    }
    let mut r = Reader { d: input, p, fmt: in_fmt };
    let d = read_func(&mut r, v, set, 0, &|d| {
        convert(d, v, set)?;
        d.f.code = d.ins.iter().map(|i| i.encode(Ver::L51, &set.out)).collect::<R<Vec<u64>>>()?;
        Ok(())
    })?;
    if r.p < input.len() {
        return Err(E::InputTooLong);
    }
    let mut w = Writer { e: Enc { out: vec![], fmt } };
    w.e.out.extend(set.out.sig.as_bytes());
    w.e.out.push(0x51);
    w.e.out.extend(fmt.bytes());
    w.func(&d, set)?;
    Ok(w.e.out)
}
