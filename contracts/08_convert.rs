/// Specification of the two conversions (C09, C10, C11, C13, C14, C15).
pub mod sp_convert {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::builder::*;
use crate::function::constant::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// An instruction as it can be read with a well-formed layout.
pub open spec fn raw51(i: Ins) -> bool {
    &&& highest(i) < 0x8000_0000 && extent51(i) < 0x8000_0000
    &&& match i { lua51::Instruction::SetList { mode, .. } => mode.0.0 < 0x8000_0000 && mode.1.0 < 0x8000_0000, _ => true }
    &&& tight_instruction(i, 0)
}
/// C13: one line for every instruction, also if there is no line information.
pub open spec fn lines(l: Seq<i64>, n: int) -> Seq<i64> { Seq::new(n as nat, |i: int| if i < l.len() { l[i] } else { 0 }) }
pub open spec fn stripped(l: Seq<i64>, r: Seq<i64>) -> Seq<i64> { if l.len() == 0 { Seq::empty() } else { r } }

// ------------------------------------------------------------------ Lua 5.1

pub open spec fn convert_one(b: Bld, i: Ins, s: Settings) -> Result<Bld, LunifyError> {
    match i {
        lua51::Instruction::SetList { a, mode } => {
            if mode.1.0 == 0 { Err(LunifyError::ValueTooBigForOperand) } else {
                let pending = if mode.0.0 != 0 { mode.0.0 } else { let d = last_destination(b.c); if d >= a { (d - a) as u64 } else { 0 } };
                Ok(b_set_list(b, a, (s.lua51.fields_per_flush * (mode.1.0 - 1)) as u64, pending, mode.0.0 == 0, s.output.fields_per_flush))
            }
        },
        i => Ok(b_new(b, i)),
    }
}
/// The first `n` instructions.
pub open spec fn convert_all(i: Seq<Ins>, l: Seq<i64>, n: int, s: Settings) -> Result<Bld, LunifyError>
    decreases n
{
    if n <= 0 { Ok(b_empty()) } else {
        match convert_all(i, l, n - 1, s) { Err(e) => Err(e), Ok(b) => convert_one(b_line(b, l[n - 1]), i[n - 1], s) }
    }
}
/// Instructions, line information and stack size.
pub type Converted = Result<(Seq<Ins>, Seq<i64>, u8), LunifyError>;
pub open spec fn finished(b: Result<Bld, LunifyError>, l: Seq<i64>, m: u8, s: Settings) -> Converted {
    match b {
        Err(e) => Err(e),
        Ok(b) => match b_final(b, m, s.output.stack_limit) { Err(e) => Err(e), Ok((i, r, m)) => Ok((i, stripped(l, r), m)) },
    }
}
pub open spec fn spec_convert(i: Seq<Ins>, l: Seq<i64>, m: u8, s: Settings) -> Converted {
    if s.lua51.fields_per_flush == s.output.fields_per_flush { Ok((i, l, m)) }
    else { finished(convert_all(i, lines(l, i.len() as int), i.len() as int, s), l, m, s) }
}

// ------------------------------------------------------------------ Lua 5.0

pub open spec fn set_global(a: int, k: int) -> Ins { lua51::Instruction::SetGlobal { a: a as u64, mode: Bx(k as u64) } }
pub open spec fn get_global(a: int, k: int) -> Ins { lua51::Instruction::GetGlobal { a: a as u64, mode: Bx(k as u64) } }
pub open spec fn load_k(a: int, k: int) -> Ins { lua51::Instruction::LoadK { a: a as u64, mode: Bx(k as u64) } }
pub open spec fn mov(a: int, b: int) -> Ins { lua51::Instruction::Move { a: a as u64, mode: BC(Register(b as u64), Unused) } }
pub open spec fn call(a: int, b: int, c: int) -> Ins { lua51::Instruction::Call { a: a as u64, mode: BC(Generic(b as u64), Generic(c as u64)) } }
pub open spec fn equals(b: int, c: int) -> Ins { lua51::Instruction::Equals { a: 0, mode: BC(ConstantRegister(b as u64, false), ConstantRegister(c as u64, false)) } }
/// Several added instructions.
pub open spec fn b_extras(b: Bld, i: Seq<Ins>) -> Bld
    decreases i.len()
{ if i.len() == 0 { b } else { b_extra(b_extras(b, i.drop_last()), i.last()) } }
/// One instruction, and the constants that it needs.
pub struct Up { pub b: Bld, pub k: Seq<Const> }

/// Lua 5.1 writes to A+3, so that its value has to be saved before and restored
/// in the loop.
pub open spec fn up_for_loop(u: Up, a: u64, d: i64) -> Result<Up, LunifyError> {
    let g = u.k.len() as int;
    let b = b_offset(b_extra(b_new(u.b, set_global(a + 3, g)), lua51::Instruction::ForLoop { a, mode: SignedBx(d) }), -1i64);
    match adjusted(b, d as int) {
        Err(e) => Err(e),
        Ok(t) => Ok(Up { b: b_insert(b, t, get_global(a + 3, g)), k: u.k.push(Const::String(fresh(u.k, u.b.c.len()))) }),
    }
}
/// Copies of the last `n` of the results of the iterator.
pub open spec fn up_results(a: u64, base: int, variables: int, n: int) -> Seq<Ins>
    decreases n
{ if n <= 0 { Seq::empty() } else { up_results(a, base, variables, n - 1).push(mov(a + 2 + (variables - n), base + (variables - n))) } }
/// More than one variable: call the iterator and copy its results.
pub open spec fn up_tfor_loop(u: Up, a: u64, c: u64, s: Settings) -> Result<Up, LunifyError> {
    if c == 0 { Ok(Up { b: b_new(u.b, lua51::Instruction::TForLoop { a, mode: BC(Unused, Generic(1)) }), ..u }) } else {
        let n = c + 1;
        let base = a + n + 2;
        let size = base + n + 1;
        if size > s.output.stack_limit || size > 255 { Err(LunifyError::StackTooLarge(size as u64)) } else {
            let nil = first(u.k, Const::Nil);
            Ok(Up {
                b: b_extra(b_extra(b_extras(b_extra(b_extra(b_extra(b_new(u.b,
                    mov(base, a as int)),
                    mov(base + 1, a + 1)),
                    mov(base + 2, a + 2)),
                    call(base, 3, n + 1)),
                    up_results(a, base, n, n)),
                    load_k(base, nil)),
                    equals(a + 2, base)),
                k: interned(u.k, Const::Nil),
            })
        }
    }
}
/// Lua 5.1 has no `TFORPREP`: if the value is a table, iterate over it with
/// `next`.
pub open spec fn up_tfor_prep(u: Up, a: u64, d: i64) -> Up {
    let pc = u.b.c.len();
    let g1 = u.k.len() as int;
    let g2 = g1 + 1;
    let k2 = u.k.push(Const::String(fresh(u.k, pc)));
    let k2 = k2.push(Const::String(fresh(k2, (pc + 1) as nat)));
    let k3 = interned(k2, terminated("type"@));
    let k4 = interned(k3, terminated("table"@));
    let k5 = interned(k4, terminated("next"@));
    let b = b_extra(b_extra(b_extra(b_extra(b_extra(b_extra(b_extra(b_new(u.b,
        set_global(a + 1, g1)),
        set_global(a + 2, g2)),
        get_global(a + 1, first(k2, terminated("type"@)))),
        mov(a + 2, a as int)),
        call(a + 1, 2, 2)),
        load_k(a + 2, first(k3, terminated("table"@)))),
        equals(a + 1, a + 2)),
        lua51::Instruction::Jump { a, mode: SignedBx(2) });
    let b = b_extra(b_extra(b_extra(b_extra(b_extra(b_fixed(b),
        set_global(a as int, g1)),
        get_global(a as int, first(k4, terminated("next"@)))),
        get_global(a + 1, g1)),
        get_global(a + 2, g2)),
        lua51::Instruction::Jump { a, mode: SignedBx(d) });
    Up { b, k: k5 }
}
pub open spec fn up_set_list(u: Up, a: u64, bx: u64, open: bool, s: Settings) -> Up {
    let pending = (bx % s.lua50.fields_per_flush + 1) as u64;
    Up { b: b_set_list(u.b, a, (bx + 1 - pending) as u64, pending, open, s.output.fields_per_flush), ..u }
}
/// C09: instructions that both versions share stay the same.
pub open spec fn shared(i: lua50::Instruction) -> Option<Ins> {
    match i {
        lua50::Instruction::Move { a, mode } => Some(lua51::Instruction::Move { a, mode }),
        lua50::Instruction::LoadK { a, mode } => Some(lua51::Instruction::LoadK { a, mode }),
        lua50::Instruction::LoadBool { a, mode } => Some(lua51::Instruction::LoadBool { a, mode }),
        lua50::Instruction::LoadNil { a, mode } => Some(lua51::Instruction::LoadNil { a, mode }),
        lua50::Instruction::GetUpValue { a, mode } => Some(lua51::Instruction::GetUpValue { a, mode }),
        lua50::Instruction::GetGlobal { a, mode } => Some(lua51::Instruction::GetGlobal { a, mode }),
        lua50::Instruction::GetTable { a, mode } => Some(lua51::Instruction::GetTable { a, mode }),
        lua50::Instruction::SetGlobal { a, mode } => Some(lua51::Instruction::SetGlobal { a, mode }),
        lua50::Instruction::SetUpValue { a, mode } => Some(lua51::Instruction::SetUpValue { a, mode }),
        lua50::Instruction::SetTable { a, mode } => Some(lua51::Instruction::SetTable { a, mode }),
        lua50::Instruction::NewTable { a, mode } => Some(lua51::Instruction::NewTable { a, mode }),
        lua50::Instruction::_Self { a, mode } => Some(lua51::Instruction::_Self { a, mode }),
        lua50::Instruction::Add { a, mode } => Some(lua51::Instruction::Add { a, mode }),
        lua50::Instruction::Subtract { a, mode } => Some(lua51::Instruction::Subtract { a, mode }),
        lua50::Instruction::Multiply { a, mode } => Some(lua51::Instruction::Multiply { a, mode }),
        lua50::Instruction::Divide { a, mode } => Some(lua51::Instruction::Divide { a, mode }),
        lua50::Instruction::Power { a, mode } => Some(lua51::Instruction::Power { a, mode }),
        lua50::Instruction::Unary { a, mode } => Some(lua51::Instruction::Unary { a, mode }),
        lua50::Instruction::Not { a, mode } => Some(lua51::Instruction::Not { a, mode }),
        lua50::Instruction::Concatinate { a, mode } => Some(lua51::Instruction::Concatinate { a, mode }),
        lua50::Instruction::Jump { a, mode } => Some(lua51::Instruction::Jump { a, mode }),
        lua50::Instruction::Equals { a, mode } => Some(lua51::Instruction::Equals { a, mode }),
        lua50::Instruction::LessThan { a, mode } => Some(lua51::Instruction::LessThan { a, mode }),
        lua50::Instruction::LessEquals { a, mode } => Some(lua51::Instruction::LessEquals { a, mode }),
        lua50::Instruction::Test { a, mode } => Some(lua51::Instruction::TestSet { a, mode: BC(ConstantRegister(mode.0.0, false), mode.1) }),
        lua50::Instruction::Call { a, mode } => Some(lua51::Instruction::Call { a, mode }),
        lua50::Instruction::TailCall { a, mode } => Some(lua51::Instruction::TailCall { a, mode }),
        lua50::Instruction::Return { a, mode } => Some(lua51::Instruction::Return { a, mode }),
        lua50::Instruction::Close { a, mode } => Some(lua51::Instruction::Close { a, mode }),
        lua50::Instruction::Closure { a, mode } => Some(lua51::Instruction::Closure { a, mode }),
        lua50::Instruction::ForLoop { .. } | lua50::Instruction::TForLoop { .. } | lua50::Instruction::TForPrep { .. }
        | lua50::Instruction::SetList { .. } | lua50::Instruction::SetListO { .. } => None,
    }
}
pub open spec fn up_one(u: Up, i: lua50::Instruction, s: Settings) -> Result<Up, LunifyError> {
    match i {
        lua50::Instruction::ForLoop { a, mode } => up_for_loop(u, a, mode.0),
        lua50::Instruction::TForLoop { a, mode } => up_tfor_loop(u, a, mode.1.0, s),
        lua50::Instruction::TForPrep { a, mode } => Ok(up_tfor_prep(u, a, mode.0)),
        lua50::Instruction::SetList { a, mode } => Ok(up_set_list(u, a, mode.0, false, s)),
        lua50::Instruction::SetListO { a, mode } => Ok(up_set_list(u, a, mode.0, true, s)),
        i => Ok(Up { b: b_new(u.b, shared(i)->0), ..u }),
    }
}
pub open spec fn up_all(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, n: int, s: Settings) -> Result<Up, LunifyError>
    decreases n
{
    if n <= 0 { Ok(Up { b: b_empty(), k }) } else {
        match up_all(i, l, k, n - 1, s) { Err(e) => Err(e), Ok(u) => up_one(Up { b: b_line(u.b, l[n - 1]), ..u }, i[n - 1], s) }
    }
}
/// C14: `local arg = {...}` behind the parameters.
pub open spec fn variadic(b: Bld, p: u8) -> Bld {
    b_insert(b_insert(b_insert(b_insert(b,
        0, lua51::Instruction::NewTable { a: (p + 1) as u64, mode: BC(Unused, Unused) }),
        1, lua51::Instruction::VarArg { a: (p + 2) as u64, mode: BC(Generic(0), Unused) }),
        2, list((p + 1) as u64, 0, 1)),
        3, mov(p as int, p + 1))
}
pub open spec fn spec_upcast(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, m: u8, p: u8, is_variadic: bool, s: Settings) -> Result<(Seq<Ins>, Seq<i64>, u8, Seq<Const>), LunifyError> {
    match up_all(i, lines(l, i.len() as int), k, i.len() as int, s) {
        Err(e) => Err(e),
        Ok(u) => match finished(Ok(if is_variadic { variadic(u.b, p) } else { u.b }), l, m, s) { Err(e) => Err(e), Ok((i, l, m)) => Ok((i, l, m, u.k)) },
    }
}

// ------------------------------------------------------------------- bounds

/// An instruction as it can be read with a well-formed layout.
pub open spec fn raw50(i: lua50::Instruction) -> bool {
    match i {
        lua50::Instruction::ForLoop { a, mode } => a < 0x8000_0000 && tight(mode.0 as int),
        lua50::Instruction::TForLoop { a, mode } => a < 0x8000_0000 && mode.1.0 < 0x8000_0000,
        lua50::Instruction::TForPrep { a, mode } => a < 0x8000_0000 && tight(mode.0 as int),
        lua50::Instruction::SetList { a, mode } => a < 0x8000_0000 && mode.0 < 0x4000_0000_0000_0000,
        lua50::Instruction::SetListO { a, mode } => a < 0x8000_0000 && mode.0 < 0x4000_0000_0000_0000,
        i => raw51(shared(i)->0),
    }
}
/// What is known about the builder after `n` instructions.
pub open spec fn building(b: Bld, n: int) -> bool {
    &&& b_ok(b) && units(b.c, b.c.len() as int) == n
    &&& bounded(b.c, 0x1_0000_0000 * (n + 1), 0x4000_0000_0000_0002 + 0x8000_0000 * n)
}
pub open spec fn last_raw(b: Bld) -> bool { b.c.len() > 0 ==> a51(b.c.last().instruction) <= 0x8000_0000 }
pub proof fn lemma_bounded_more(c: Seq<Ctx>, m: int, k: int, m2: int, k2: int)
    requires bounded(c, m, k), m <= m2, k <= k2
    ensures bounded(c, m2, k2)
{
    hide(highest);
    assert forall|i: int| 0 <= i < c.len() implies highest((#[trigger] c[i]).instruction) + listed_before(c, i) <= m2 && calm(c[i], k2) by { assert(calm(c[i], k)); }
}
pub proof fn lemma_destination(c: Seq<Ctx>)
    ensures c.len() > 0 ==> last_destination(c) <= a51(c.last().instruction), c.len() == 0 ==> last_destination(c) == 0
{}
pub proof fn lemma_can_set_list(b: Bld, n: int, a: u64, stored: u64, pending: u64, open: bool, f: u64)
    requires building(b, n), 0 <= n < 0x4000_0000, a < 0x8000_0000, stored <= 0x4000_0000_0000_0000, pending <= 0x8000_0000, 1 <= f <= 0x8000_0000
    ensures can_set_list(b, a, stored, pending, f), building(b_set_list(b, a, stored, pending, open, f), n + 1), last_raw(b_set_list(b, a, stored, pending, open, f))
{
    let m = 0x1_0000_0000 * (n + 1);
    let k = 0x4000_0000_0000_0002 + 0x8000_0000 * n;
    lemma_bounded_more(b.c, m, k, m_limit(pending, f), k_limit());
    lemma_set_list(b, a, stored, pending, open, f, m, k);
    let d = b_set_list(b, a, stored, pending, open, f);
    lemma_bounded_more(d.c, m + f + pending, larger(k, stored + 1) + pending, 0x1_0000_0000 * (n + 2), 0x4000_0000_0000_0002 + 0x8000_0000 * (n + 1));
}
/// Instructions that the conversions add.
pub open spec fn plain(i: Ins) -> bool { highest(i) <= 0x1_0000_0000 && listed(i) == 0 && calm_instruction(i, 0, 0x4000_0000_0000_0000) }
pub proof fn lemma_building_push(b: Bld, n: int, x: Ctx)
    requires building(b, n), 0 <= n < 0x4000_0000, 0 <= x.line_weight <= 1, plain(x.instruction), x.final_offset == 0
    ensures building(b_push(b, x), n + 1 - x.line_weight)
{
    let m = 0x1_0000_0000 * (n + 1);
    let k = 0x4000_0000_0000_0002 + 0x8000_0000 * n;
    lemma_push(b, x, m, k);
    lemma_units_push(b.c, x);
    let d = b_push(b, x);
    lemma_bounded_more(d.c, m, k, 0x1_0000_0000 * (n + 2), 0x4000_0000_0000_0002 + 0x8000_0000 * (n + 1));
    assert forall|i: int| 0 <= i < d.c.len() implies (#[trigger] d.c[i]).line_weight <= 1 by { if i < b.c.len() { assert(b.c[i].line_weight <= 1); } }
}
pub proof fn lemma_building_insert(b: Bld, n: int, at: int, i: Ins)
    requires building(b, n), 0 <= at <= b.c.len(), plain(i), 0 <= n < 0x4000_0000
    ensures building(b_insert(b, at, i), n)
{
    let m = 0x1_0000_0000 * (n + 1);
    let k = 0x4000_0000_0000_0002 + 0x8000_0000 * n;
    let x = ctx_extra(i);
    let d = b_insert(b, at, i);
    lemma_units_insert(b.c, at, x, b.c.len() as int);
    assert forall|j: int| 0 <= j <= d.c.len() implies #[trigger] listed_before(d.c, j) == (if j <= at { listed_before(b.c, j) } else { listed_before(b.c, j - 1) }) by { lemma_listed_insert(b.c, d.c, at, j); }
    lemma_listed_more(b.c, at, b.c.len() as int);
    assert forall|j: int| 0 <= j < d.c.len() implies highest((#[trigger] d.c[j]).instruction) + listed_before(d.c, j) <= m && calm(d.c[j], k) && d.c[j].line_weight <= 1 by {
        if j < at { assert(calm(b.c[j], k) && b.c[j].line_weight <= 1); } else if j > at { assert(calm(b.c[j - 1], k) && b.c[j - 1].line_weight <= 1); }
    }
}
pub proof fn lemma_building_last(b: Bld, n: int, o: i64)
    requires building(b, n), b.c.len() > 0, -2 <= o <= 2
    ensures building(b_fixed(b), n), building(b_offset(b, o), n)
{
    lemma_building_update(b, n, InstructionContext { is_fixed: true, ..b.c.last() });
    lemma_building_update(b, n, InstructionContext { final_offset: o, ..b.c.last() });
}
pub proof fn lemma_building_update(b: Bld, n: int, x: Ctx)
    requires building(b, n), b.c.len() > 0, x.instruction == b.c.last().instruction, x.line_weight == b.c.last().line_weight, -2 <= x.final_offset <= 2
    ensures building(b_update_last(b, x), n)
{
    let m = 0x1_0000_0000 * (n + 1);
    let k = 0x4000_0000_0000_0002 + 0x8000_0000 * n;
    let d = b_update_last(b, x);
    lemma_same_weights(b, d);
    lemma_units_same(b.c, d.c, b.c.len() as int);
    assert forall|j: int| 0 <= j <= d.c.len() implies #[trigger] listed_before(d.c, j) == listed_before(b.c, j) by { lemma_listed_same(b.c, d.c, j); }
    assert forall|j: int| 0 <= j < d.c.len() implies highest((#[trigger] d.c[j]).instruction) + listed_before(d.c, j) <= m && calm(d.c[j], k) by { assert(calm(b.c[j], k)); assert(highest(b.c[j].instruction) + listed_before(b.c, j) <= m); }
}
/// The builder can be finalized.
pub proof fn lemma_finalize(b: Bld, n: int)
    requires building(b, n), 0 <= n <= 0x4000_0000
    ensures b_ok(b), forall|i: int| 0 <= i < b.c.len() ==> regs51((#[trigger] b.c[i]).instruction) && jump_tight(b.c[i])
{
    hide(highest); hide(calm_instruction);
    assert forall|i: int| 0 <= i < b.c.len() implies highest((#[trigger] b.c[i]).instruction) + listed_before(b.c, i) <= 0x1_0000_0000 * (n + 1) && calm(b.c[i], 0x4000_0000_0000_0002 + 0x8000_0000 * n) by {}
    lemma_regs(b.c, 0x1_0000_0000 * (n + 1), 0x4000_0000_0000_0002 + 0x8000_0000 * n);
}
pub proof fn lemma_empty()
    ensures building(b_empty(), 0), last_raw(b_empty())
{}
pub proof fn lemma_raw_small(i: Ins)
    ensures raw51(i) ==> jump_small51(i)
{}
pub proof fn lemma_raw_plain(i: Ins)
    requires raw51(i), !(i is SetList)
    ensures plain(i), a51(i) < 0x8000_0000
{}
pub open spec fn pending51(b: Bld, a: u64, n: u64) -> u64 { if n != 0 { n } else { let d = last_destination(b.c); if d >= a { (d - a) as u64 } else { 0 } } }
pub proof fn lemma_convert_one(p: Bld, line: i64, n: int, i: Ins, s: Settings)
    requires building(p, n), last_raw(p), raw51(i), settings_wf(s), 0 <= n < 0x4000_0000
    ensures ({
        let b = b_line(p, line);
        &&& b_ok(b) && forall|i: int| 0 <= i < b.c.len() ==> regs51((#[trigger] b.c[i]).instruction)
        &&&
        (convert_one(b, i, s) matches Ok(d) ==> building(d, n + 1) && last_raw(d))
        &&& i matches lua51::Instruction::SetList { a, mode } ==> mode.1.0 > 0 ==>
            0 <= s.lua51.fields_per_flush * (mode.1.0 - 1) <= 0x4000_0000_0000_0000
            && can_set_list(b, a, (s.lua51.fields_per_flush * (mode.1.0 - 1)) as u64, pending51(b, a, mode.0.0), s.output.fields_per_flush)
    })
{
    let b = b_line(p, line);
    lemma_finalize(b, n);
    match i {
        lua51::Instruction::SetList { a, mode } => {
            if mode.1.0 > 0 {
                let f = s.lua51.fields_per_flush as int;
                let c = mode.1.0 - 1;
                assert(0 <= f * c <= 0x8000_0000 * 0x8000_0000) by (nonlinear_arith) requires 0 <= f <= 0x8000_0000, 0 <= c <= 0x8000_0000;
                lemma_destination(b.c);
                assert(last_destination(b.c) <= 0x8000_0000);
                lemma_can_set_list(b, n, a, (f * c) as u64, pending51(b, a, mode.0.0), mode.0.0 == 0, s.output.fields_per_flush);
            }
        },
        _ => { lemma_raw_plain(i); lemma_building_push(b, n, ctx_new(i)); },
    }
}
pub proof fn lemma_convert_error(i: Seq<Ins>, l: Seq<i64>, n: int, k: int, s: Settings)
    requires n <= k
    ensures convert_all(i, l, n, s) is Err ==> convert_all(i, l, k, s) == convert_all(i, l, n, s)
    decreases k - n
{ if n < k { lemma_convert_error(i, l, n, k - 1, s); } }

pub proof fn lemma_backward(c: Seq<Ctx>, i: int, steps: int)
    requires forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).line_weight <= 1
    ensures backward(c, i, steps) >= 0, steps > 0 ==> backward(c, i, steps) >= 1
    decreases i + 1
{ if steps > 0 && 0 <= i < c.len() { lemma_backward(c, i - 1, steps + c[i].line_weight - 1); } }
pub proof fn lemma_adjusted(b: Bld, d: int)
    requires b_ok(b)
    ensures adjusted(b, d) matches Ok(t) ==> 0 <= t < b.c.len()
{ if d < 0 { lemma_backward(b.c, b.c.len() - 1, -d); } }
pub proof fn lemma_extras(b: Bld, i: Seq<Ins>, x: Ins)
    ensures b_extras(b, i.push(x)) == b_extra(b_extras(b, i), x), b_extras(b, Seq::empty()) == b
{ assert(i.push(x).drop_last() =~= i); }
pub broadcast proof fn lemma_len_new(b: Bld, i: Ins)
    ensures (#[trigger] b_new(b, i)).c.len() == b.c.len() + 1
{}
pub broadcast proof fn lemma_len_extra(b: Bld, i: Ins)
    ensures (#[trigger] b_extra(b, i)).c.len() == b.c.len() + 1
{}
pub broadcast proof fn lemma_len_insert(b: Bld, at: int, i: Ins)
    requires 0 <= at <= b.c.len()
    ensures (#[trigger] b_insert(b, at, i)).c.len() == b.c.len() + 1
{}
pub broadcast proof fn lemma_len_last(b: Bld, o: i64)
    ensures (#[trigger] b_offset(b, o)).c.len() == b.c.len(), b_fixed(b).c.len() == b.c.len()
{}
pub broadcast proof fn lemma_len_line(b: Bld, o: i64)
    ensures (#[trigger] b_line(b, o)).c == b.c
{}
pub broadcast group lengths { lemma_constants_len, lemma_len_new, lemma_len_extra, lemma_len_insert, lemma_len_last, lemma_len_line }

/// An added instruction.
proof fn lemma_building_new(b: Bld, n: int, i: Ins)
    requires building(b, n), 0 <= n < 0x4000_0000, plain(i)
    ensures building(b_new(b, i), n + 1)
{ lemma_building_push(b, n, ctx_new(i)); }
proof fn lemma_building_extra(b: Bld, n: int, i: Ins)
    requires building(b, n), 0 <= n < 0x4000_0000, plain(i)
    ensures building(b_extra(b, i), n)
{ lemma_building_push(b, n, ctx_extra(i)); }
proof fn lemma_plain(a: int, b: int, c: int)
    requires 0 <= a <= 0x1_0000_0000, 0 <= b, 0 <= c <= 0x1_0000_0000
    ensures plain(call(a, b, c))
{}
proof fn lemma_plain2(a: int, b: int)
    requires 0 <= a <= 0x1_0000_0000
    ensures
        plain(set_global(a, b)), plain(get_global(a, b)), plain(load_k(a, b)), plain(mov(a, b)), plain(equals(a, b)),
{}
proof fn lemma_building_ok(b: Bld, n: int)
    requires building(b, n)
    ensures b_ok(b)
{}
proof fn lemma_plain_jump(a: u64, d: i64)
    requires a < 0x8000_0000, tight(d as int)
    ensures plain(lua51::Instruction::Jump { a, mode: SignedBx(d) }), plain(lua51::Instruction::ForLoop { a, mode: SignedBx(d) })
{}
proof fn lemma_plain_tfor(a: u64)
    requires a < 0x8000_0000
    ensures plain(lua51::Instruction::TForLoop { a, mode: BC(Unused, Generic(1)) })
{}
proof fn lemma_building_extras(b: Bld, n: int, a: u64, base: int, m: int, k: int)
    requires building(b, n), 0 <= n < 0x4000_0000, 0 <= k <= m, a + m + 2 <= 0x1_0000_0000
    ensures building(b_extras(b, up_results(a, base, m, k)), n)
    decreases k
{
    hide(building); hide(plain); hide(b_extra);
    if k > 0 {
        lemma_building_extras(b, n, a, base, m, k - 1);
        lemma_extras(b, up_results(a, base, m, k - 1), mov(a + 2 + (m - k), base + (m - k)));
        lemma_plain2(a + 2 + (m - k), base + (m - k));
        lemma_building_extra(b_extras(b, up_results(a, base, m, k - 1)), n, mov(a + 2 + (m - k), base + (m - k)));
    } else { lemma_extras(b, Seq::empty(), mov(0, 0)); }
}

/// The builder of `FORLOOP` in front of the last step.
pub open spec fn up_for_loop_body(u: Up, a: u64, d: i64) -> Bld {
    b_offset(b_extra(b_new(u.b, set_global(a + 3, u.k.len() as int)), lua51::Instruction::ForLoop { a, mode: SignedBx(d) }), -1i64)
}
proof fn lemma_up_for_loop(u: Up, n: int, a: u64, d: i64)
    requires building(u.b, n), 0 <= n < 0x2000_0000, a < 0x8000_0000, tight(d as int)
    ensures b_ok(up_for_loop_body(u, a, d)),
        up_for_loop(u, a, d) matches Ok(v) ==> building(v.b, n + 1),
        adjusted(up_for_loop_body(u, a, d), d as int) matches Ok(t) ==> 0 <= t < up_for_loop_body(u, a, d).c.len()
{
    hide(plain); hide(building); hide(b_new); hide(b_extra); hide(b_offset); hide(b_insert);
    broadcast use lengths;
    let g = u.k.len() as int;
    lemma_plain2(a + 3, g);
    let i = lua51::Instruction::ForLoop { a, mode: SignedBx(d) };
    lemma_plain_jump(a, d);
    let b1 = b_new(u.b, set_global(a + 3, g));
    lemma_building_new(u.b, n, set_global(a + 3, g));
    let b2 = b_extra(b1, i);
    lemma_building_extra(b1, n + 1, i);
    lemma_building_last(b2, n + 1, -1i64);
    let b3 = b_offset(b2, -1i64);
    lemma_building_ok(b3, n + 1);
    lemma_adjusted(b3, d as int);
    match adjusted(b3, d as int) { Ok(t) => { lemma_building_insert(b3, n + 1, t, get_global(a + 3, g)); }, Err(_) => {} }
}
proof fn lemma_up_tfor_loop(u: Up, n: int, a: u64, c: u64, s: Settings)
    requires building(u.b, n), 0 <= n < 0x2000_0000, a < 0x8000_0000, c < 0x8000_0000
    ensures up_tfor_loop(u, a, c, s) matches Ok(v) ==> building(v.b, n + 1)
{
    hide(plain); hide(building); hide(b_new); hide(b_extra); hide(b_extras);
    if c == 0 {
        lemma_plain_tfor(a);
        lemma_building_new(u.b, n, lua51::Instruction::TForLoop { a, mode: BC(Unused, Generic(1)) });
    } else {
        let m = c + 1;
        let base = a + m + 2;
        let size = base + m + 1;
        if size <= s.output.stack_limit && size <= 255 {
            let nil = first(u.k, Const::Nil);
            lemma_plain2(base, a as int); lemma_plain2(base + 1, a + 1); lemma_plain2(base + 2, a + 2); lemma_plain(base, 3, m + 1); lemma_plain2(base, nil); lemma_plain2(a + 2, base);
            let b1 = b_new(u.b, mov(base, a as int)); lemma_building_new(u.b, n, mov(base, a as int));
            let b2 = b_extra(b1, mov(base + 1, a + 1)); lemma_building_extra(b1, n + 1, mov(base + 1, a + 1));
            let b3 = b_extra(b2, mov(base + 2, a + 2)); lemma_building_extra(b2, n + 1, mov(base + 2, a + 2));
            let b4 = b_extra(b3, call(base, 3, m + 1)); lemma_building_extra(b3, n + 1, call(base, 3, m + 1));
            let b5 = b_extras(b4, up_results(a, base, m, m)); lemma_building_extras(b4, n + 1, a, base, m, m);
            let b6 = b_extra(b5, load_k(base, nil)); lemma_building_extra(b5, n + 1, load_k(base, nil));
            lemma_building_extra(b6, n + 1, equals(a + 2, base));
        }
    }
}
proof fn lemma_up_tfor_prep(u: Up, n: int, a: u64, d: i64)
    requires building(u.b, n), 0 <= n < 0x2000_0000, a < 0x8000_0000, tight(d as int)
    ensures building(up_tfor_prep(u, a, d).b, n + 1)
{
    hide(plain); hide(building); hide(b_new); hide(b_extra); hide(b_fixed); hide(fresh); hide(first); hide(interned);
    broadcast use lengths;
    let pc = u.b.c.len();
    let g1 = u.k.len() as int;
    let g2 = g1 + 1;
    let k2 = u.k.push(Const::String(fresh(u.k, pc)));
    let k2 = k2.push(Const::String(fresh(k2, (pc + 1) as nat)));
    let k3 = interned(k2, terminated("type"@));
    let k4 = interned(k3, terminated("table"@));
    let j1 = lua51::Instruction::Jump { a, mode: SignedBx(2) };
    let j2 = lua51::Instruction::Jump { a, mode: SignedBx(d) };
    lemma_plain_jump(a, 2); lemma_plain_jump(a, d);
    let i0 = set_global(a + 1, g1); lemma_plain2(a + 1, g1);
    let i1 = set_global(a + 2, g2); lemma_plain2(a + 2, g2);
    let i2 = get_global(a + 1, first(k2, terminated("type"@))); lemma_plain2(a + 1, first(k2, terminated("type"@)));
    let i3 = mov(a + 2, a as int); lemma_plain2(a + 2, a as int);
    let i4 = call(a + 1, 2, 2); lemma_plain(a + 1, 2, 2);
    let i5 = load_k(a + 2, first(k3, terminated("table"@))); lemma_plain2(a + 2, first(k3, terminated("table"@)));
    let i6 = equals(a + 1, a + 2); lemma_plain2(a + 1, a + 2);
    let i8 = set_global(a as int, g1); lemma_plain2(a as int, g1);
    let i9 = get_global(a as int, first(k4, terminated("next"@))); lemma_plain2(a as int, first(k4, terminated("next"@)));
    let b0 = b_new(u.b, i0); lemma_building_new(u.b, n, i0);
    let b1 = b_extra(b0, i1); lemma_building_extra(b0, n + 1, i1);
    let b2 = b_extra(b1, i2); lemma_building_extra(b1, n + 1, i2);
    let b3 = b_extra(b2, i3); lemma_building_extra(b2, n + 1, i3);
    let b4 = b_extra(b3, i4); lemma_building_extra(b3, n + 1, i4);
    let b5 = b_extra(b4, i5); lemma_building_extra(b4, n + 1, i5);
    let b6 = b_extra(b5, i6); lemma_building_extra(b5, n + 1, i6);
    let b7 = b_extra(b6, j1); lemma_building_extra(b6, n + 1, j1);
    lemma_building_last(b7, n + 1, 0);
    let b8 = b_extra(b_fixed(b7), i8); lemma_building_extra(b_fixed(b7), n + 1, i8);
    let b9 = b_extra(b8, i9); lemma_building_extra(b8, n + 1, i9);
    let b10 = b_extra(b9, get_global(a + 1, g1)); lemma_building_extra(b9, n + 1, get_global(a + 1, g1));
    let b11 = b_extra(b10, get_global(a + 2, g2)); lemma_building_extra(b10, n + 1, get_global(a + 2, g2));
    lemma_building_extra(b11, n + 1, j2);
}
proof fn lemma_up_set_list(u: Up, n: int, a: u64, bx: u64, open: bool, s: Settings)
    requires building(u.b, n), 0 <= n < 0x2000_0000, a < 0x8000_0000, bx < 0x4000_0000_0000_0000, settings_wf(s)
    ensures building(up_set_list(u, a, bx, open, s).b, n + 1),
        bx % s.lua50.fields_per_flush + 1 <= bx + 1,
        can_set_list(u.b, a, (bx - bx % s.lua50.fields_per_flush) as u64, (bx % s.lua50.fields_per_flush + 1) as u64, s.output.fields_per_flush)
{
    let f = s.lua50.fields_per_flush;
    let r = bx % f;
    vstd::arithmetic::div_mod::lemma_mod_bound(bx as int, f as int);
    vstd::arithmetic::div_mod::lemma_mod_decreases(bx as nat, f as nat);
    lemma_can_set_list(u.b, n, a, (bx - r) as u64, (r + 1) as u64, open, s.output.fields_per_flush);
}
proof fn lemma_building_line(b: Bld, line: i64, n: int)
    requires building(b, n)
    ensures building(b_line(b, line), n)
{}
proof fn lemma_up_constants(u: Up, i: lua50::Instruction, s: Settings)
    ensures up_one(u, i, s) matches Ok(v) ==> v.k.len() <= u.k.len() + 5
{
    hide(b_new); hide(b_extra); hide(b_fixed); hide(b_extras); hide(b_insert); hide(b_offset); hide(b_set_list); hide(adjusted); hide(fresh); hide(first); hide(shared); hide(b_fixed); hide(up_results);
}
/// What is needed to process one instruction, and what holds behind it.
pub proof fn lemma_up_one(p: Up, line: i64, n: int, i: lua50::Instruction, s: Settings)
    requires building(p.b, n), raw50(i), settings_wf(s), 0 <= n < 0x2000_0000
    ensures ({
        let u = Up { b: b_line(p.b, line), ..p };
        &&& b_ok(u.b)
        &&& (up_one(u, i, s) matches Ok(v) ==> building(v.b, n + 1) && v.k.len() <= u.k.len() + 5)
        &&& match i {
            lua50::Instruction::ForLoop { a, mode } => a < 0x8000_0000 && tight(mode.0 as int) && b_ok(up_for_loop_body(u, a, mode.0))
                && (adjusted(up_for_loop_body(u, a, mode.0), mode.0 as int) matches Ok(t) ==> 0 <= t < up_for_loop_body(u, a, mode.0).c.len()),
            lua50::Instruction::TForLoop { a, mode } => a < 0x8000_0000 && mode.1.0 < 0x8000_0000,
            lua50::Instruction::TForPrep { a, mode } => a < 0x8000_0000,
            lua50::Instruction::SetList { a, mode } => mode.0 < 0x4000_0000_0000_0000 && mode.0 % s.lua50.fields_per_flush + 1 <= mode.0 + 1
                && can_set_list(u.b, a, (mode.0 - mode.0 % s.lua50.fields_per_flush) as u64, (mode.0 % s.lua50.fields_per_flush + 1) as u64, s.output.fields_per_flush),
            lua50::Instruction::SetListO { a, mode } => mode.0 < 0x4000_0000_0000_0000 && mode.0 % s.lua50.fields_per_flush + 1 <= mode.0 + 1
                && can_set_list(u.b, a, (mode.0 - mode.0 % s.lua50.fields_per_flush) as u64, (mode.0 % s.lua50.fields_per_flush + 1) as u64, s.output.fields_per_flush),
            _ => true,
        }
    })
{
    hide(up_for_loop_body); hide(can_set_list); hide(building); hide(up_for_loop); hide(up_tfor_loop); hide(up_tfor_prep); hide(up_set_list); hide(raw51); hide(plain);
    let u = Up { b: b_line(p.b, line), ..p };
    lemma_building_line(p.b, line, n);
    lemma_building_ok(u.b, n);
    lemma_up_constants(u, i, s);
    match i {
        lua50::Instruction::ForLoop { a, mode } => { lemma_up_for_loop(u, n, a, mode.0); },
        lua50::Instruction::TForLoop { a, mode } => { lemma_up_tfor_loop(u, n, a, mode.1.0, s); },
        lua50::Instruction::TForPrep { a, mode } => { lemma_up_tfor_prep(u, n, a, mode.0); },
        lua50::Instruction::SetList { a, mode } => { lemma_up_set_list(u, n, a, mode.0, false, s); },
        lua50::Instruction::SetListO { a, mode } => { lemma_up_set_list(u, n, a, mode.0, true, s); },
        i => { lemma_shared(i); lemma_raw_plain(shared(i)->0); lemma_building_new(u.b, n, shared(i)->0); },
    }
}
proof fn lemma_shared(i: lua50::Instruction)
    ensures !(i is ForLoop || i is TForLoop || i is TForPrep || i is SetList || i is SetListO) ==> !(shared(i)->0 is SetList)
{}
pub proof fn lemma_up_error(i: Seq<lua50::Instruction>, l: Seq<i64>, c: Seq<Const>, n: int, k: int, s: Settings)
    requires n <= k
    ensures up_all(i, l, c, n, s) is Err ==> up_all(i, l, c, k, s) == up_all(i, l, c, n, s)
    decreases k - n
{ if n < k { lemma_up_error(i, l, c, n, k - 1, s); } }
pub open spec fn variadic1(b: Bld, p: u8) -> Bld { b_insert(b, 0, lua51::Instruction::NewTable { a: (p + 1) as u64, mode: BC(Unused, Unused) }) }
pub open spec fn variadic2(b: Bld, p: u8) -> Bld { b_insert(variadic1(b, p), 1, lua51::Instruction::VarArg { a: (p + 2) as u64, mode: BC(Generic(0), Unused) }) }
pub open spec fn variadic3(b: Bld, p: u8) -> Bld { b_insert(variadic2(b, p), 2, list((p + 1) as u64, 0, 1)) }
pub broadcast proof fn lemma_constants_len(c: Seq<Constant>)
    ensures (#[trigger] view_constants(c)).len() == c.len()
{}
pub proof fn lemma_variadic(b: Bld, n: int, p: u8)
    requires building(b, n), 0 <= n < 0x2000_0000
    ensures building(variadic(b, p), n), b_ok(b), b_ok(variadic1(b, p)), b_ok(variadic2(b, p)), b_ok(variadic3(b, p)), b_ok(variadic(b, p)),
{
    let i0 = lua51::Instruction::NewTable { a: (p + 1) as u64, mode: BC(Unused, Unused) };
    let i1 = lua51::Instruction::VarArg { a: (p + 2) as u64, mode: BC(Generic(0), Unused) };
    let i2 = list((p + 1) as u64, 0, 1);
    let i3 = mov(p as int, p + 1);
    assert(plain(i0)); assert(plain(i1)); assert(plain(i2)); assert(plain(i3));
    let b1 = b_insert(b, 0, i0); lemma_building_insert(b, n, 0, i0);
    let b2 = b_insert(b1, 1, i1); lemma_building_insert(b1, n, 1, i1);
    let b3 = b_insert(b2, 2, i2); lemma_building_insert(b2, n, 2, i2);
    lemma_building_insert(b3, n, 3, i3);
}
}
