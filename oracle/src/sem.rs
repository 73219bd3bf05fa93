//! A symbolic interpreter for loop-free instruction sequences, used to compare
//! what table constructors build before and after conversion, without looking
//! at how they do it.
use crate::model::*;
use std::collections::BTreeMap;

fn h(parts: &[u64]) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            x = (x ^ b as u64).wrapping_mul(0x100000001b3);
        }
        x ^= x >> 29;
    }
    x
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Outcome {
    /// table number -> key -> value
    pub tables: BTreeMap<u64, BTreeMap<u64, u64>>,
    /// calls in order: function and arguments
    pub calls: Vec<u64>,
    pub returned: Vec<u64>,
}

/// Runs `code`; `None` if it does something this interpreter does not model.
pub fn exec(code: &[Ins], v: Ver, fpf: u64) -> Option<Outcome> {
    let mut regs: Vec<u64> = (0..600).map(|r| h(&[1, r])).collect();
    let mut top = 0usize;
    let mut out = Outcome::default();
    let mut ntab = 0;
    let mut pc = 0usize;
    let mut steps = 0;
    let is_table = |x: u64| x >> 40 == 0xAAAAAA;
    while pc < code.len() {
        steps += 1;
        if steps > 100_000 {
            return None;
        }
        let i = code[pc];
        pc += 1;
        let a = i.a as usize;
        if a + 300 >= regs.len() {
            return None;
        }
        let rk = |o: Opnd, regs: &Vec<u64>| if o.k { Some(h(&[2, o.v])) } else { regs.get(o.v as usize).copied() };
        match ops(v)[i.op].0 {
            "MOVE" => regs[a] = *regs.get(i.b.v as usize)?,
            "LOADK" => regs[a] = h(&[2, i.x as u64]),
            "LOADBOOL" => {
                regs[a] = h(&[3, (i.b.v != 0) as u64]);
                if i.c.v != 0 {
                    pc += 1;
                }
            }
            "LOADNIL" => {
                for r in a..=i.b.v as usize {
                    *regs.get_mut(r)? = h(&[4]);
                }
            }
            "GETUPVAL" => regs[a] = h(&[5, i.b.v]),
            "GETGLOBAL" => regs[a] = h(&[6, i.x as u64]),
            "SETGLOBAL" => out.calls.push(h(&[7, i.x as u64, regs[a]])),
            "GETTABLE" => regs[a] = h(&[8, *regs.get(i.b.v as usize)?, rk(i.c, &regs)?]),
            "SETTABLE" => {
                let (k, val) = (rk(i.b, &regs)?, rk(i.c, &regs)?);
                if is_table(regs[a]) {
                    out.tables.get_mut(&regs[a])?.insert(h(&[9, k]), val);
                } else {
                    out.calls.push(h(&[10, regs[a], k, val]));
                }
            }
            "NEWTABLE" => {
                ntab += 1;
                regs[a] = 0xAAAAAA << 40 | ntab;
                out.tables.insert(regs[a], BTreeMap::new());
            }
            "ADD" | "SUB" | "MUL" | "DIV" | "POW" => regs[a] = h(&[11, 0, rk(i.b, &regs)?, rk(i.c, &regs)?]),
            "CONCAT" => {
                let mut x = h(&[12]);
                for r in i.b.v..=i.c.v {
                    x = h(&[x, *regs.get(r as usize)?]);
                }
                regs[a] = x;
            }
            "JMP" => {
                let t = pc as i64 + i.x;
                if t < pc as i64 || t > code.len() as i64 {
                    return None;
                }
                pc = t as usize;
            }
            "EQ" | "LT" | "LE" => {
                let r = h(&[13, rk(i.b, &regs)?, rk(i.c, &regs)?]) & 1;
                if r != i.a {
                    pc += 1;
                }
            }
            // 5.0 TEST is 5.1 TESTSET
            "TEST" if v == Ver::L51 => {
                if (h(&[14, regs[a]]) & 1) != (i.c.v & 1) {
                    pc += 1;
                }
            }
            "TEST" | "TESTSET" => {
                let b = *regs.get(i.b.v as usize)?;
                if (h(&[14, b]) & 1) == (i.c.v & 1) {
                    regs[a] = b;
                } else {
                    pc += 1;
                }
            }
            "CALL" => {
                let end = if i.b.v == 0 { top } else { a + i.b.v as usize };
                let mut call = vec![15];
                call.extend_from_slice(regs.get(a..end)?);
                let id = h(&call);
                out.calls.push(id);
                if i.c.v == 0 {
                    let n = (id % 4) as usize;
                    for k in 0..n {
                        regs[a + k] = h(&[id, k as u64]);
                    }
                    top = a + n;
                } else {
                    for k in 0..i.c.v as usize - 1 {
                        *regs.get_mut(a + k)? = h(&[id, k as u64]);
                    }
                }
            }
            "VARARG" => {
                let n = if i.b.v == 0 { 3 } else { i.b.v as usize - 1 };
                for k in 0..n {
                    regs[a + k] = h(&[16, k as u64]);
                }
                if i.b.v == 0 {
                    top = a + n;
                }
            }
            "CLOSURE" => {
                let mut x = h(&[17, i.x as u64]);
                // upvalue pseudo instructions
                while pc < code.len() && code[pc].a == 0 && matches!(ops(v)[code[pc].op].0, "MOVE" | "GETUPVAL") {
                    let p = code[pc];
                    let val = if ops(v)[p.op].0 == "MOVE" { *regs.get(p.b.v as usize)? } else { h(&[5, p.b.v]) };
                    x = h(&[x, val]);
                    pc += 1;
                }
                regs[a] = x;
            }
            "SETLIST" | "SETLISTO" => {
                let (start, n) = if v == Ver::L51 {
                    if i.c.v == 0 {
                        return None;
                    }
                    let n = if i.b.v == 0 { top as u64 - i.a - 1 } else { i.b.v };
                    (fpf * (i.c.v - 1), n)
                } else {
                    let bx = i.x as u64;
                    let n = if ops(v)[i.op].0 == "SETLIST" { bx % fpf + 1 } else { top as u64 - i.a - 1 };
                    (bx - bx % fpf, n)
                };
                let t = regs[a];
                if !is_table(t) {
                    return None;
                }
                for k in 1..=n {
                    let val = *regs.get(a + k as usize)?;
                    out.tables.get_mut(&t)?.insert(start + k, val);
                }
                // the compiler reuses these registers, whatever they hold is dead
                for k in 1..=n as usize {
                    regs[a + k] = h(&[18]);
                }
            }
            "RETURN" => {
                let end = if i.b.v == 0 { top } else { a + i.b.v as usize - 1 };
                out.returned = regs.get(a..end)?.to_vec();
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}
