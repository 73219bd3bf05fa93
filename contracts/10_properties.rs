/// The properties that follow from the contracts of single functions, and the
/// lemmas about all of their specifications together.

/// C07, C08: what is written with a layout is read back with it.
pub mod prop_c07 {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

proof fn lemma_own(o: OperandLayout, v: u64)
    requires op_wf(o), v <= maximum(o.size)
    ensures op_get(o, v << o.position) == v
{
    let p = o.position; let s = o.size;
    assert(1 <= s <= 62 && p <= 63 && p + s <= 64 && v <= sub(1u64 << s, 1) ==> ((v << p) >> p) & sub(1u64 << s, 1) == v) by (bit_vector);
    lemma_maximum(s);
}
proof fn lemma_other(o: OperandLayout, x: OperandLayout, v: u64)
    requires op_wf(o), op_wf(x), disjoint(o, x), v <= maximum(x.size)
    ensures op_get(o, v << x.position) == 0
{
    let p = o.position; let s = o.size; let q = x.position; let t = x.size;
    lemma_maximum(s); lemma_maximum(t);
    assert(1 <= s <= 62 && 1 <= t <= 62 && p <= 63 && q <= 63 && p + s <= 64 && q + t <= 64 && v <= sub(1u64 << t, 1) && q + t <= p ==> ((v << q) >> p) & sub(1u64 << s, 1) == 0) by (bit_vector);
    assert(1 <= s <= 62 && 1 <= t <= 62 && p <= 63 && q <= 63 && p + s <= 64 && q + t <= 64 && v <= sub(1u64 << t, 1) && p + s <= q ==> ((v << q) >> p) & sub(1u64 << s, 1) == 0) by (bit_vector);
}
proof fn lemma_or(o: OperandLayout, x: u64, y: u64)
    requires op_wf(o)
    ensures op_get(o, x | y) == op_get(o, x) | op_get(o, y)
{
    let p = o.position; let m = maximum(o.size);
    assert(p <= 63 ==> ((x | y) >> p) & m == ((x >> p) & m) | ((y >> p) & m)) by (bit_vector);
}

pub open spec fn fits(o: OperandLayout, v: u64) -> bool { v <= maximum(o.size) }
pub open spec fn word(l: InstructionLayout, o: u64, a: u64, b: u64, c: u64) -> u64 { ((o << l.opcode.position) | (a << l.a.position)) | ((b << l.b.position) | (c << l.c.position)) }
pub open spec fn word_bx(l: InstructionLayout, o: u64, a: u64, bx: u64) -> u64 { ((o << l.opcode.position) | (a << l.a.position)) | (bx << l.bx.position) }
/// C08: the fields of a word can be read back.
pub proof fn lemma_word(l: InstructionLayout, o: u64, a: u64, b: u64, c: u64)
    requires layout_wf(l), fits(l.opcode, o), fits(l.a, a), fits(l.b, b), fits(l.c, c)
    ensures ({
        let w = word(l, o, a, b, c);
        op_get(l.opcode, w) == o && op_get(l.a, w) == a && op_get(l.b, w) == b && op_get(l.c, w) == c
    })
{
    lemma_field(l, l.opcode, o, a, b, c); lemma_field(l, l.a, o, a, b, c); lemma_field(l, l.b, o, a, b, c); lemma_field(l, l.c, o, a, b, c);
    lemma_own(l.opcode, o); lemma_own(l.a, a); lemma_own(l.b, b); lemma_own(l.c, c);
    lemma_other(l.opcode, l.a, a); lemma_other(l.opcode, l.b, b); lemma_other(l.opcode, l.c, c);
    lemma_other(l.a, l.opcode, o); lemma_other(l.a, l.b, b); lemma_other(l.a, l.c, c);
    lemma_other(l.b, l.opcode, o); lemma_other(l.b, l.a, a); lemma_other(l.b, l.c, c);
    lemma_other(l.c, l.opcode, o); lemma_other(l.c, l.a, a); lemma_other(l.c, l.b, b);
    assert(forall|x: u64| #![auto] x | 0 == x && 0 | x == x) by (bit_vector);
}
proof fn lemma_field(l: InstructionLayout, x: OperandLayout, o: u64, a: u64, b: u64, c: u64)
    requires op_wf(x)
    ensures op_get(x, word(l, o, a, b, c)) == (op_get(x, o << l.opcode.position) | op_get(x, a << l.a.position)) | (op_get(x, b << l.b.position) | op_get(x, c << l.c.position))
{
    lemma_or(x, o << l.opcode.position, a << l.a.position);
    lemma_or(x, b << l.b.position, c << l.c.position);
    lemma_or(x, (o << l.opcode.position) | (a << l.a.position), (b << l.b.position) | (c << l.c.position));
}
pub proof fn lemma_word_bx(l: InstructionLayout, o: u64, a: u64, bx: u64)
    requires layout_wf(l), fits(l.opcode, o), fits(l.a, a), fits(l.bx, bx)
    ensures ({ let w = word_bx(l, o, a, bx); op_get(l.opcode, w) == o && op_get(l.a, w) == a && op_get(l.bx, w) == bx })
{
    let x = o << l.opcode.position; let y = a << l.a.position; let z = bx << l.bx.position;
    lemma_or(l.opcode, x, y); lemma_or(l.opcode, x | y, z);
    lemma_or(l.a, x, y); lemma_or(l.a, x | y, z);
    lemma_or(l.bx, x, y); lemma_or(l.bx, x | y, z);
    lemma_own(l.opcode, o); lemma_own(l.a, a); lemma_own(l.bx, bx);
    lemma_other(l.opcode, l.a, a); lemma_other(l.opcode, l.bx, bx);
    lemma_other(l.a, l.opcode, o); lemma_other(l.a, l.bx, bx);
    lemma_other(l.bx, l.opcode, o); lemma_other(l.bx, l.a, a);
    assert(forall|x: u64| #![auto] x | 0 == x && 0 | x == x) by (bit_vector);
}
/// A constant operand keeps its index and its kind.
pub proof fn lemma_constant(l: InstructionLayout, s: Settings, t: Settings, r: ConstantRegister, o: OperandLayout)
    requires layout_wf(l), s.output.layout == l, t.lua51.layout == l
    ensures put_constant(r, o, s) matches Ok(x) ==> ({ let v = if r.1 { r.0 | constant_bit(l) } else { r.0 }; fits(o, v) && x == v << o.position && constant_register51(v, t) == r })
{
    lemma_constant_bit(l);
    let n = (l.b.size - 1) as u64;
    let v = r.0;
    assert(7 <= n <= 30 && v < (1u64 << n) ==> v & (1u64 << n) == 0 && (v | (1u64 << n)) & (1u64 << n) != 0 && (v | (1u64 << n)) ^ (1u64 << n) == v) by (bit_vector);
}
pub proof fn lemma_zero(l: InstructionLayout)
    ensures fits(l.b, 0), fits(l.c, 0), 0u64 << l.b.position == 0, 0u64 << l.c.position == 0
{
    let p = l.b.position; let q = l.c.position;
    assert(0u64 << p == 0 && 0u64 << q == 0) by (bit_vector);
}
pub proof fn lemma_signed_back(l: InstructionLayout, v: i64)
    requires layout_wf(l)
    ensures put_signed(v, l) matches Ok(x) ==> ({ let u = (v + l.signed_offset) as u64; fits(l.bx, u) && x == u << l.bx.position && (u as i64 - l.signed_offset) as i64 == v })
{
    lemma_signed_offset(l); lemma_maximum_63(l.bx.size); lemma_maximum(l.bx.size);
}
/// Every opcode fits its field.
pub proof fn lemma_fits(l: InstructionLayout)
    requires layout_wf(l)
    ensures forall|o: u64| o < 64 ==> #[trigger] fits(l.opcode, o)
{
    lemma_maximum(l.opcode.size);
    let s = l.opcode.size;
    assert(6 <= s <= 62 ==> sub(1u64 << s, 1) >= 63) by (bit_vector);
}
proof fn lemma_unused(u: Unused)
    ensures u == Unused
{}
pub open spec fn with_bit(r: ConstantRegister, l: InstructionLayout) -> u64 { if r.1 { r.0 | constant_bit(l) } else { r.0 } }
proof fn word_is(l: InstructionLayout, w: u64, o: u64, a: u64, b: u64, c: u64)
    requires layout_wf(l), fits(l.opcode, o), fits(l.a, a), fits(l.b, b), fits(l.c, c), w == ((o << l.opcode.position) | (a << l.a.position)) | ((b << l.b.position) | (c << l.c.position))
    ensures op_get(l.opcode, w) == o && op_get(l.a, w) == a && op_get(l.b, w) == b && op_get(l.c, w) == c
{ lemma_word(l, o, a, b, c); }
proof fn word_bx_is(l: InstructionLayout, w: u64, o: u64, a: u64, bx: u64)
    requires layout_wf(l), fits(l.opcode, o), fits(l.a, a), fits(l.bx, bx), w == ((o << l.opcode.position) | (a << l.a.position)) | (bx << l.bx.position)
    ensures op_get(l.opcode, w) == o && op_get(l.a, w) == a && op_get(l.bx, w) == bx
{ lemma_word_bx(l, o, a, bx); }
/// C07: every instruction that is written is read back as the same instruction,
/// with the same operands.
#[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub proof fn prop_c07(i: lua51::Instruction, s: Settings, t: Settings, l: InstructionLayout)
    requires layout_wf(l), s.output.layout == l, t.lua51.layout == l
    ensures encode51(i, s) matches Ok(w) ==> decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)
{
    hide(op_get); hide(maximum); hide(constant_register51); hide(put_constant); hide(put_signed); hide(constant_bit);
    lemma_zero(l);
    if encode51(i, s) is Ok {
        let w = encode51(i, s)->Ok_0;
        lemma_fits(l);
        match i {
            lua51::Instruction::Move { a, mode } => { lemma_unused(mode.1); word_is(l, w, 0, a, mode.0.0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::LoadK { a, mode } => { word_bx_is(l, w, 1, a, mode.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::LoadBool { a, mode } => { word_is(l, w, 2, a, mode.0.0, mode.1.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::LoadNil { a, mode } => { lemma_unused(mode.1); word_is(l, w, 3, a, mode.0.0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::GetUpValue { a, mode } => { lemma_unused(mode.1); word_is(l, w, 4, a, mode.0.0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::GetGlobal { a, mode } => { word_bx_is(l, w, 5, a, mode.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::GetTable { a, mode } => { lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 6, a, mode.0.0, with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::SetGlobal { a, mode } => { word_bx_is(l, w, 7, a, mode.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::SetUpValue { a, mode } => { lemma_unused(mode.1); word_is(l, w, 8, a, mode.0.0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::SetTable { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 9, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::NewTable { a, mode } => { lemma_unused(mode.0); lemma_unused(mode.1); word_is(l, w, 10, a, 0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::_Self { a, mode } => { lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 11, a, mode.0.0, with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Add { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 12, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Subtract { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 13, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Multiply { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 14, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Divide { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 15, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Modulo { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 16, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Power { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 17, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Unary { a, mode } => { lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 18, a, mode.0.0, with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Not { a, mode } => { lemma_unused(mode.1); word_is(l, w, 19, a, mode.0.0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Length { a, mode } => { lemma_unused(mode.1); word_is(l, w, 20, a, mode.0.0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Concatinate { a, mode } => { word_is(l, w, 21, a, mode.0.0, mode.1.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Jump { a, mode } => { lemma_signed_back(l, mode.0); word_bx_is(l, w, 22, a, (mode.0 + l.signed_offset) as u64); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Equals { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 23, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::LessThan { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 24, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::LessEquals { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); lemma_constant(l, s, t, mode.1, l.c); word_is(l, w, 25, a, with_bit(mode.0, l), with_bit(mode.1, l)); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Test { a, mode } => { word_is(l, w, 26, a, mode.0.0, mode.1.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::TestSet { a, mode } => { lemma_constant(l, s, t, mode.0, l.b); word_is(l, w, 27, a, with_bit(mode.0, l), mode.1.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Call { a, mode } => { word_is(l, w, 28, a, mode.0.0, mode.1.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::TailCall { a, mode } => { word_is(l, w, 29, a, mode.0.0, mode.1.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Return { a, mode } => { lemma_unused(mode.1); word_is(l, w, 30, a, mode.0.0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::ForLoop { a, mode } => { lemma_signed_back(l, mode.0); word_bx_is(l, w, 31, a, (mode.0 + l.signed_offset) as u64); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::ForPrep { a, mode } => { lemma_signed_back(l, mode.0); word_bx_is(l, w, 32, a, (mode.0 + l.signed_offset) as u64); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::TForLoop { a, mode } => { lemma_unused(mode.0); word_is(l, w, 33, a, 0, mode.1.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::SetList { a, mode } => { word_is(l, w, 34, a, mode.0.0, mode.1.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Close { a, mode } => { lemma_unused(mode.0); lemma_unused(mode.1); word_is(l, w, 35, a, 0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::Closure { a, mode } => { word_bx_is(l, w, 36, a, mode.0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
            lua51::Instruction::VarArg { a, mode } => { lemma_unused(mode.1); word_is(l, w, 37, a, mode.0.0, 0); assert(decode51(w, t, l) == Ok::<lua51::Instruction, LunifyError>(i)); },
        }
    }
}
}

/// C10: jumps land where they did.
pub mod prop_c10 {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::builder::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

pub open spec fn weights_ok(c: Seq<Ctx>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).line_weight <= 1 }
/// The instruction `t` is the first one that stands for the input instruction
/// `u` or one behind it. Past both ends the distance to the end stays the same.
pub open spec fn lands(c: Seq<Ctx>, t: int, u: int) -> bool {
    let total = units(c, c.len() as int);
    if u < 0 { t == u } else if u >= total { t == c.len() + (u - total) } else { 0 <= t < c.len() && units(c, t) <= u < units(c, t + 1) }
}
proof fn lemma_forward(c: Seq<Ctx>, i: int, steps: int)
    requires 0 <= i <= c.len(), weights_ok(c), steps > 0
    ensures ({
        let m = forward(c, i, steps);
        let left = units(c, c.len() as int) - units(c, i);
        if left >= steps { 1 <= m && i + m <= c.len() && units(c, i + m) >= units(c, i) + steps && units(c, i + m - 1) < units(c, i) + steps }
        else { m == c.len() - i + steps - left }
    })
    decreases c.len() - i
{
    lemma_units(c, i, c.len() as int);
    if i < c.len() {
        let rest = steps + c[i].line_weight - 1;
        assert(units(c, i + 1) == units(c, i) + 1 - c[i].line_weight);
        if rest > 0 { lemma_forward(c, i + 1, rest); } else { lemma_units(c, i + 1, c.len() as int); }
    }
}
proof fn lemma_back(c: Seq<Ctx>, i: int, steps: int)
    requires -1 <= i < c.len(), weights_ok(c), steps > 0
    ensures ({
        let m = backward(c, i, steps);
        let t = i + 1 - m;
        let u = units(c, i + 1) - steps;
        if u >= 0 { 0 <= t <= i && units(c, t) <= u < units(c, t + 1) } else { t == u }
    })
    decreases i + 1
{
    if i >= 0 {
        let rest = steps + c[i].line_weight - 1;
        assert(units(c, i + 1) == units(c, i) + 1 - c[i].line_weight);
        lemma_units(c, 0, i);
        if rest > 0 { lemma_back(c, i - 1, rest); }
    }
}
/// A jump over `d` instructions of the input.
pub proof fn lemma_lands(c: Seq<Ctx>, at: int, d: int, offset: int)
    requires 0 <= at < c.len(), weights_ok(c)
    ensures lands(c, at + 1 + jump(c, at, d, offset) - offset, units(c, at + 1) + d)
{
    lemma_units(c, at + 1, c.len() as int);
    lemma_units(c, 0, at + 1);
    if d >= 0 { lemma_forward(c, at + 1, d + 1); } else { lemma_back(c, at, -d); }
}

// ---- every jump of the output belongs to the jump of the input that it was

pub type Jump = Option<(int, int)>;
pub open spec fn distance51(i: Ins) -> Option<int> {
    match i {
        lua51::Instruction::Jump { mode, .. } => Some(mode.0 as int),
        lua51::Instruction::ForLoop { mode, .. } => Some(mode.0 as int),
        lua51::Instruction::ForPrep { mode, .. } => Some(mode.0 as int),
        _ => None,
    }
}
/// Distance of a jump over instructions of the input, and the offset of its
/// target.
pub open spec fn jump_of(x: Ctx) -> Jump { if x.is_fixed { None } else { match distance51(x.instruction) { Some(d) => Some((d, x.final_offset as int)), None => None } } }
pub open spec fn jump51(i: Ins) -> Jump { match distance51(i) { Some(d) => Some((d, 0)), None => None } }
pub open spec fn jump50(i: lua50::Instruction) -> Jump {
    match i {
        lua50::Instruction::Jump { mode, .. } => Some((mode.0 as int, 0)),
        // lands on the instruction in front of its target, which restores the
        // register that the loop overwrote
        lua50::Instruction::ForLoop { mode, .. } => Some((mode.0 as int, -1)),
        lua50::Instruction::TForPrep { mode, .. } => Some((mode.0 as int, 0)),
        _ => None,
    }
}
/// The input instruction that an instruction stands for.
pub open spec fn home(c: Seq<Ctx>, j: int) -> int { units(c, j + 1) - 1 }
pub open spec fn belongs(c: Seq<Ctx>, j: int, d: Seq<Jump>) -> bool { jump_of(c[j]) is Some ==> 0 <= home(c, j) < d.len() && d[home(c, j)] == jump_of(c[j]) }
pub open spec fn jumps_ok(c: Seq<Ctx>, d: Seq<Jump>) -> bool {
    &&& weights_ok(c) && units(c, c.len() as int) == d.len()
    &&& forall|j: int| 0 <= j < c.len() ==> #[trigger] belongs(c, j, d)
}
proof fn lemma_jumps_push(c: Seq<Ctx>, d: Seq<Jump>, x: Ctx, e: Jump)
    requires jumps_ok(c, d), x.line_weight == 0, jump_of(x) is Some ==> jump_of(x) == e
    ensures jumps_ok(c.push(x), d.push(e))
{
    let n = c.push(x);
    lemma_units_push(c, x);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] belongs(n, j, d.push(e)) by {
        if j < c.len() { assert(belongs(c, j, d)); lemma_units_same(c, n, j + 1); }
    }
    assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]).line_weight <= 1 by { if j < c.len() { assert(c[j].line_weight <= 1); } }
}
proof fn lemma_jumps_extra(c: Seq<Ctx>, d: Seq<Jump>, x: Ctx)
    requires jumps_ok(c, d), x.line_weight == 1, jump_of(x) is Some ==> d.len() > 0 && jump_of(x) == d.last()
    ensures jumps_ok(c.push(x), d)
{
    let n = c.push(x);
    lemma_units_push(c, x);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] belongs(n, j, d) by {
        if j < c.len() { assert(belongs(c, j, d)); lemma_units_same(c, n, j + 1); }
    }
    assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]).line_weight <= 1 by { if j < c.len() { assert(c[j].line_weight <= 1); } }
}
proof fn lemma_jumps_insert(c: Seq<Ctx>, d: Seq<Jump>, at: int, x: Ctx)
    requires jumps_ok(c, d), 0 <= at <= c.len(), x.line_weight == 1, jump_of(x) is None
    ensures jumps_ok(c.insert(at, x), d)
{
    let n = c.insert(at, x);
    lemma_units_insert(c, at, x, c.len() as int);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] belongs(n, j, d) by {
        if j < at { assert(belongs(c, j, d)); lemma_units_same(c, n, j + 1); }
        else if j > at { assert(belongs(c, j - 1, d)); lemma_units_insert(c, at, x, j); }
    }
    assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]).line_weight <= 1 by { if j < at { assert(c[j].line_weight <= 1); } else if j > at { assert(c[j - 1].line_weight <= 1); } }
}
proof fn lemma_jumps_remove(b: Bld, d: Seq<Jump>, at: int)
    requires jumps_ok(b.c, d), b_ok(b), 0 <= at, at + 1 < b.c.len(), jump_of(b.c[at]) is None
    ensures jumps_ok(b_remove(b, at).c, d), b_ok(b_remove(b, at))
{
    let c = b.c;
    let n = b_remove(b, at).c;
    lemma_weight(b, at); lemma_weight(b, at + 1);
    lemma_units_remove(b, at, c.len() - 1);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] belongs(n, j, d) by {
        if j < at { assert(belongs(c, j, d)); lemma_units_same(c, n, j + 1); }
        else { assert(belongs(c, j + 1, d)); lemma_units_remove(b, at, j + 1); }
    }
    assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]).line_weight <= 1 by { if j < at { assert(c[j].line_weight <= 1); } else { assert(c[j + 1].line_weight <= 1); } }
}
proof fn lemma_jumps_same(c: Seq<Ctx>, n: Seq<Ctx>, d: Seq<Jump>)
    requires jumps_ok(c, d), same_weights(c, n), forall|j: int| 0 <= j < c.len() ==> jump_of(#[trigger] n[j]) == jump_of(c[j])
    ensures jumps_ok(n, d)
{
    lemma_units_same(c, n, c.len() as int);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] belongs(n, j, d) by { assert(belongs(c, j, d)); lemma_units_same(c, n, j + 1); }
    assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]).line_weight <= 1 by { assert(c[j].line_weight <= 1); }
}
proof fn lemma_moved_jump(i: Ins, start: u64, offset: i64)
    ensures distance51(moved51(i, start, offset)) == distance51(i)
{}
proof fn lemma_jumps_move(b: Bld, d: Seq<Jump>, from: int, to: int, start: u64, offset: i64)
    requires jumps_ok(b.c, d)
    ensures jumps_ok(b_move(b, from, to, start, offset).c, d)
{
    let n = b_move(b, from, to, start, offset).c;
    assert forall|j: int| 0 <= j < b.c.len() implies jump_of(#[trigger] n[j]) == jump_of(b.c[j]) by { lemma_moved_jump(b.c[j].instruction, start, offset); }
    lemma_jumps_same(b.c, n, d);
}
proof fn lemma_jumps_insert_list(b: Bld, d: Seq<Jump>, at: int, i: Ins)
    requires jumps_ok(b.c, d), 0 <= at <= b.c.len(), i is SetList
    ensures jumps_ok(b_insert_list(b, at, i).c, d) || at == b.c.len(),
        at == b.c.len() ==> jumps_ok(b_insert_list(b, at, i).c, d)
{
    let c = b.c;
    let n = b_insert_list(b, at, i).c;
    lemma_units_insert_list(b, at, i, c.len() as int);
    assert forall|j: int| 0 <= j < n.len() implies #[trigger] belongs(n, j, d) by {
        if j < at { assert(belongs(c, j, d)); lemma_units_same(c, n, j + 1); }
        else if j > at { assert(belongs(c, j - 1, d)); lemma_units_insert_list(b, at, i, j); }
    }
    assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]).line_weight <= 1 by { if j < at { assert(c[j].line_weight <= 1); } else if j > at { assert(c[j - 1].line_weight <= 1); } else if at < c.len() { assert(c[at].line_weight <= 1); } }
}
proof fn lemma_jumps_loop(p: Pages, d: Seq<Jump>, a: u64, pending: u64, f: u64)
    requires jumps_ok(p.b.c, d), 0 <= p.start <= p.b.c.len(), f >= 1
    ensures jumps_ok(pages_loop(p, a, pending, f).b.c, d)
    decreases pending + p.offset
{
    if pending + p.offset > f {
        let first = (a + 1) as u64;
        lemma_end_of_elements(p.b.c, p.start, first, last_position(a, f, p.offset), p.b.c.len() as int);
        match end_of_elements(p.b.c, p.start, first, last_position(a, f, p.offset), p.b.c.len() as int) {
            None => {},
            Some(end) => {
                lemma_jumps_move(p.b, d, p.start, end, first, p.offset as i64);
                lemma_jumps_insert_list(b_move(p.b, p.start, end, first, p.offset as i64), d, end, list(a, f, p.page as u64));
                lemma_jumps_loop(pages_next(p, a, end, f), d, a, pending, f);
            },
        }
    }
}
proof fn lemma_jumps_set_list(b: Bld, d: Seq<Jump>, a: u64, stored: u64, pending: u64, open: bool, f: u64)
    requires jumps_ok(b.c, d), b_ok(b), f >= 1
    ensures jumps_ok(b_set_list(b, a, stored, pending, open, f).c, d.push(None))
{
    lemma_setup(b.c, a, b.c.len() - 1);
    match pages_start(b, a, stored, f) {
        None => { lemma_jumps_push(b.c, d, ctx_new(list(a, if open { 0 } else { (pending + stored % f) as u64 }, (stored / f + 1) as u64)), None); },
        Some(p0) => {
            let k = setup(b.c, a, b.c.len() - 1)->0;
            if b.c[k].instruction is SetList && p0.start == k { lemma_jumps_remove(b, d, k); }
            lemma_jumps_loop(p0, d, a, pending, f);
            let p = pages_loop(p0, a, pending, f);
            let to = p.b.c.len() as int;
            lemma_jumps_move(p.b, d, p.start, to, (a + 1) as u64, p.offset as i64);
            lemma_jumps_push(b_move(p.b, p.start, to, (a + 1) as u64, p.offset as i64).c, d, ctx_new(list(a, if open { 0 } else { (pending + p.offset) as u64 }, p.page as u64)), None);
        },
    }
}
proof fn lemma_jumps_convert_one(b: Bld, d: Seq<Jump>, i: Ins, s: Settings)
    requires jumps_ok(b.c, d), b_ok(b), settings_wf(s)
    ensures convert_one(b, i, s) matches Ok(n) ==> jumps_ok(n.c, d.push(jump51(i)))
{
    hide(jumps_ok);
    match i {
        lua51::Instruction::SetList { a, mode } => {
            if mode.1.0 != 0 { lemma_jumps_set_list(b, d, a, (s.lua51.fields_per_flush * (mode.1.0 - 1)) as u64, pending51(b, a, mode.0.0), mode.0.0 == 0, s.output.fields_per_flush); }
        },
        i => { lemma_jumps_push(b.c, d, ctx_new(i), jump51(i)); },
    }
}
pub open spec fn jumps51(i: Seq<Ins>, n: int) -> Seq<Jump> { Seq::new(n as nat, |k: int| jump51(i[k])) }
pub open spec fn jumps50(i: Seq<lua50::Instruction>, n: int) -> Seq<Jump> { Seq::new(n as nat, |k: int| jump50(i[k])) }
proof fn lemma_jumps_line(b: Bld, l: i64, d: Seq<Jump>)
    requires jumps_ok(b.c, d)
    ensures jumps_ok(b_line(b, l).c, d)
{}
pub proof fn lemma_jumps_convert_all(i: Seq<Ins>, l: Seq<i64>, n: int, s: Settings)
    requires 0 <= n <= i.len(), n < 0x4000_0000, settings_wf(s), forall|k: int| 0 <= k < i.len() ==> raw51(#[trigger] i[k])
    ensures convert_all(i, l, n, s) matches Ok(b) ==> building(b, n) && last_raw(b) && jumps_ok(b.c, jumps51(i, n))
    decreases n
{
    hide(jumps_ok); hide(building); hide(last_raw); hide(convert_one); hide(raw51);
    if n > 0 {
        lemma_jumps_convert_all(i, l, n - 1, s);
        if convert_all(i, l, n - 1, s) is Ok {
            let b = convert_all(i, l, n - 1, s)->Ok_0;
            assert(raw51(i[n - 1]));
            lemma_convert_one(b, l[n - 1], n - 1, i[n - 1], s);
            lemma_jumps_line(b, l[n - 1], jumps51(i, n - 1));
            lemma_jumps_convert_one(b_line(b, l[n - 1]), jumps51(i, n - 1), i[n - 1], s);
            assert(jumps51(i, n - 1).push(jump51(i[n - 1])) =~= jumps51(i, n));
        }
    } else { lemma_empty(); lemma_jumps_empty(); assert(jumps51(i, n) =~= Seq::empty()); }
}
proof fn lemma_jumps_empty()
    ensures jumps_ok(b_empty().c, Seq::empty())
{}

proof fn lemma_jumps_new(b: Bld, d: Seq<Jump>, i: Ins, e: Jump)
    requires jumps_ok(b.c, d), distance51(i) is None
    ensures jumps_ok(b_new(b, i).c, d.push(e))
{ lemma_jumps_push(b.c, d, ctx_new(i), e); }
proof fn lemma_jumps_one_extra(b: Bld, d: Seq<Jump>, i: Ins)
    requires jumps_ok(b.c, d), distance51(i) is None
    ensures jumps_ok(b_extra(b, i).c, d)
{ lemma_jumps_extra(b.c, d, ctx_extra(i)); }
proof fn lemma_jumps_extras(b: Bld, d: Seq<Jump>, i: Seq<Ins>)
    requires jumps_ok(b.c, d), forall|k: int| 0 <= k < i.len() ==> distance51(#[trigger] i[k]) is None
    ensures jumps_ok(b_extras(b, i).c, d)
    decreases i.len()
{ if i.len() > 0 { lemma_jumps_extras(b, d, i.drop_last()); lemma_jumps_one_extra(b_extras(b, i.drop_last()), d, i.last()); } }
proof fn lemma_results(a: u64, base: int, variables: int, n: int)
    ensures forall|k: int| 0 <= k < up_results(a, base, variables, n).len() ==> distance51(#[trigger] up_results(a, base, variables, n)[k]) is None
    decreases n
{ if n > 0 { lemma_results(a, base, variables, n - 1); } }
proof fn lemma_jumps_for_loop(u: Up, d: Seq<Jump>, a: u64, x: i64)
    requires jumps_ok(u.b.c, d), b_ok(u.b)
    ensures up_for_loop(u, a, x) matches Ok(v) ==> jumps_ok(v.b.c, d.push(Some((x as int, -1))))
{
    hide(jumps_ok);
    let g = u.k.len() as int;
    let e = Some((x as int, -1int));
    let i1 = lua51::Instruction::ForLoop { a, mode: SignedBx(x) };
    let b0 = b_new(u.b, set_global(a + 3, g));
    let b = b_offset(b_extra(b0, i1), -1i64);
    lemma_jumps_new(u.b, d, set_global(a + 3, g), e);
    let y = InstructionContext { final_offset: -1i64, ..ctx_extra(i1) };
    lemma_jumps_extra(b0.c, d.push(e), y);
    assert(b.c =~= b0.c.push(y));
    if adjusted(b, x as int) is Ok {
        let t = adjusted(b, x as int)->Ok_0;
        lemma_below(b.c, b.c.len() - 1, -(x as int));
        lemma_jumps_insert(b.c, d.push(e), t, ctx_extra(get_global(a + 3, g)));
    }
}
/// A jump backwards is a jump backwards.
proof fn lemma_below(c: Seq<Ctx>, i: int, steps: int)
    requires -1 <= i < c.len(), steps > 0
    ensures backward(c, i, steps) >= 1
    decreases i + 1
{ reveal_with_fuel(backward, 2); if i >= 0 && steps + c[i].line_weight - 1 > 0 { lemma_below(c, i - 1, steps + c[i].line_weight - 1); } }
proof fn lemma_jumps_tfor_loop(u: Up, d: Seq<Jump>, a: u64, c: u64, s: Settings)
    requires jumps_ok(u.b.c, d)
    ensures up_tfor_loop(u, a, c, s) matches Ok(v) ==> jumps_ok(v.b.c, d.push(None))
{
    hide(jumps_ok);
    if c == 0 { lemma_jumps_new(u.b, d, lua51::Instruction::TForLoop { a, mode: BC(Unused, Generic(1)) }, None); }
    else {
        let n = c + 1;
        let base = a + n + 2;
        let nil = first(u.k, Const::Nil);
        let e = d.push(None);
        let b0 = b_new(u.b, mov(base, a as int)); lemma_jumps_new(u.b, d, mov(base, a as int), None);
        let b1 = b_extra(b0, mov(base + 1, a + 1)); lemma_jumps_one_extra(b0, e, mov(base + 1, a + 1));
        let b2 = b_extra(b1, mov(base + 2, a + 2)); lemma_jumps_one_extra(b1, e, mov(base + 2, a + 2));
        let b3 = b_extra(b2, call(base, 3, n + 1)); lemma_jumps_one_extra(b2, e, call(base, 3, n + 1));
        let r = up_results(a, base, n, n);
        let b4 = b_extras(b3, r); lemma_results(a, base, n, n); lemma_jumps_extras(b3, e, r);
        let b5 = b_extra(b4, load_k(base, nil)); lemma_jumps_one_extra(b4, e, load_k(base, nil));
        lemma_jumps_one_extra(b5, e, equals(a + 2, base));
    }
}
proof fn lemma_jumps_tfor_prep(u: Up, d: Seq<Jump>, a: u64, x: i64)
    requires jumps_ok(u.b.c, d)
    ensures jumps_ok(up_tfor_prep(u, a, x).b.c, d.push(Some((x as int, 0int))))
{
    hide(jumps_ok);
    let pc = u.b.c.len();
    let g1 = u.k.len() as int;
    let g2 = g1 + 1;
    let k2 = u.k.push(Const::String(fresh(u.k, pc)));
    let k2 = k2.push(Const::String(fresh(k2, (pc + 1) as nat)));
    let k3 = interned(k2, terminated("type"@));
    let k4 = interned(k3, terminated("table"@));
    let k5 = interned(k4, terminated("next"@));
    let j = Some((x as int, 0int));
    let e = d.push(j);
    let i0 = set_global(a + 1, g1);
    let i1 = set_global(a + 2, g2);
    let i2 = get_global(a + 1, first(k2, terminated("type"@)));
    let i3 = mov(a + 2, a as int);
    let i4 = call(a + 1, 2, 2);
    let i5 = load_k(a + 2, first(k3, terminated("table"@)));
    let i6 = equals(a + 1, a + 2);
    let i7 = lua51::Instruction::Jump { a, mode: SignedBx(2) };
    let i8 = set_global(a as int, g1);
    let i9 = get_global(a as int, first(k4, terminated("next"@)));
    let i10 = get_global(a + 1, g1);
    let i11 = get_global(a + 2, g2);
    let i12 = lua51::Instruction::Jump { a, mode: SignedBx(x) };
    let b0 = b_new(u.b, i0); lemma_jumps_new(u.b, d, i0, j);
    let b1 = b_extra(b0, i1); lemma_jumps_one_extra(b0, e, i1);
    let b2 = b_extra(b1, i2); lemma_jumps_one_extra(b1, e, i2);
    let b3 = b_extra(b2, i3); lemma_jumps_one_extra(b2, e, i3);
    let b4 = b_extra(b3, i4); lemma_jumps_one_extra(b3, e, i4);
    let b5 = b_extra(b4, i5); lemma_jumps_one_extra(b4, e, i5);
    let b6 = b_extra(b5, i6); lemma_jumps_one_extra(b5, e, i6);
    let b7 = b_fixed(b_extra(b6, i7));
    let y = InstructionContext { is_fixed: true, ..ctx_extra(i7) };
    lemma_jumps_extra(b6.c, e, y);
    assert(b7.c =~= b6.c.push(y));
    let b8 = b_extra(b7, i8); lemma_jumps_one_extra(b7, e, i8);
    let b9 = b_extra(b8, i9); lemma_jumps_one_extra(b8, e, i9);
    let b10 = b_extra(b9, i10); lemma_jumps_one_extra(b9, e, i10);
    let b11 = b_extra(b10, i11); lemma_jumps_one_extra(b10, e, i11);
    lemma_jumps_extra(b11.c, e, ctx_extra(i12));
}
proof fn lemma_shared_jump(i: lua50::Instruction)
    ensures shared(i) is Some ==> jump51(shared(i)->0) == jump50(i), shared(i) is None <==> (i is ForLoop || i is TForLoop || i is TForPrep || i is SetList || i is SetListO)
{}
proof fn lemma_jumps_up_one(u: Up, d: Seq<Jump>, i: lua50::Instruction, s: Settings)
    requires jumps_ok(u.b.c, d), b_ok(u.b), settings_wf(s), raw50(i)
    ensures up_one(u, i, s) matches Ok(v) ==> jumps_ok(v.b.c, d.push(jump50(i)))
{
    hide(jumps_ok); hide(up_for_loop); hide(up_tfor_loop); hide(up_tfor_prep); hide(b_set_list); hide(shared); hide(jump51); hide(raw50); hide(b_ok);
    lemma_shared_jump(i);
    match i {
        lua50::Instruction::ForLoop { a, mode } => { lemma_jumps_for_loop(u, d, a, mode.0); },
        lua50::Instruction::TForLoop { a, mode } => { lemma_jumps_tfor_loop(u, d, a, mode.1.0, s); },
        lua50::Instruction::TForPrep { a, mode } => { lemma_jumps_tfor_prep(u, d, a, mode.0); },
        lua50::Instruction::SetList { a, mode } => { lemma_jumps_set_list50(u, d, a, mode.0, false, s); },
        lua50::Instruction::SetListO { a, mode } => { lemma_jumps_set_list50(u, d, a, mode.0, true, s); },
        i => { let x = shared(i)->0; lemma_new_jump(x); lemma_jumps_push(u.b.c, d, ctx_new(x), jump51(x)); },
    }
}
proof fn lemma_new_jump(i: Ins)
    ensures jump_of(ctx_new(i)) == jump51(i)
{}
proof fn lemma_jumps_set_list50(u: Up, d: Seq<Jump>, a: u64, bx: u64, open: bool, s: Settings)
    requires jumps_ok(u.b.c, d), b_ok(u.b), settings_wf(s)
    ensures jumps_ok(up_set_list(u, a, bx, open, s).b.c, d.push(None))
{
    let pending = (bx % s.lua50.fields_per_flush + 1) as u64;
    lemma_jumps_set_list(u.b, d, a, (bx + 1 - pending) as u64, pending, open, s.output.fields_per_flush);
}
pub proof fn lemma_jumps_up_all(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, n: int, s: Settings)
    requires 0 <= n <= i.len(), n < 0x2000_0000, settings_wf(s), forall|j: int| 0 <= j < i.len() ==> raw50(#[trigger] i[j])
    ensures up_all(i, l, k, n, s) matches Ok(u) ==> building(u.b, n) && jumps_ok(u.b.c, jumps50(i, n))
    decreases n
{
    hide(jumps_ok); hide(building); hide(up_one); hide(raw50); hide(b_ok);
    if n > 0 {
        lemma_jumps_up_all(i, l, k, n - 1, s);
        if up_all(i, l, k, n - 1, s) is Ok {
            let p = up_all(i, l, k, n - 1, s)->Ok_0;
            assert(raw50(i[n - 1]));
            lemma_up_one(p, l[n - 1], n - 1, i[n - 1], s);
            lemma_jumps_line(p.b, l[n - 1], jumps50(i, n - 1));
            lemma_jumps_up_one(Up { b: b_line(p.b, l[n - 1]), ..p }, jumps50(i, n - 1), i[n - 1], s);
            assert(jumps50(i, n - 1).push(jump50(i[n - 1])) =~= jumps50(i, n));
        }
    } else { lemma_empty(); lemma_jumps_empty(); assert(jumps50(i, n) =~= Seq::empty()); }
}
proof fn lemma_jumps_variadic(b: Bld, d: Seq<Jump>, p: u8)
    requires jumps_ok(b.c, d)
    ensures jumps_ok(variadic(b, p).c, d)
{
    hide(jumps_ok);
    let i0 = lua51::Instruction::NewTable { a: (p + 1) as u64, mode: BC(Unused, Unused) };
    let i1 = lua51::Instruction::VarArg { a: (p + 2) as u64, mode: BC(Generic(0), Unused) };
    let i2 = list((p + 1) as u64, 0, 1);
    let b1 = b_insert(b, 0, i0); lemma_jumps_insert(b.c, d, 0, ctx_extra(i0));
    let b2 = b_insert(b1, 1, i1); lemma_jumps_insert(b1.c, d, 1, ctx_extra(i1));
    let b3 = b_insert(b2, 2, i2); lemma_jumps_insert(b2.c, d, 2, ctx_extra(i2));
    lemma_jumps_insert(b3.c, d, 3, ctx_extra(mov(p as int, p + 1)));
}

// ---- the theorem

/// Instruction `j` of the output `r`, made from `c`, is either no jump, or one
/// within the instructions that replaced a single instruction of the input, or
/// it belongs to the jump of the input with the index `p`, and goes to the first
/// instruction that stands for the target of that jump.
pub open spec fn arrives(c: Seq<Ctx>, r: Seq<Ins>, j: int, d: Seq<Jump>) -> bool {
    let p = home(c, j);
    distance51(r[j]) is Some ==> c[j].is_fixed || (0 <= p < d.len() && d[p] is Some
        && lands(c, j + 1 + distance51(r[j])->0 - (d[p]->0).1, p + 1 + (d[p]->0).0))
}
proof fn lemma_jump_bound(c: Seq<Ctx>, i: int, steps: int)
    requires -1 <= i <= c.len(), weights_ok(c), steps > 0
    ensures 0 <= forward(c, i, steps) <= c.len() + 1 + steps, 0 <= backward(c, i, steps) <= c.len() + 1 + steps
{
    if i >= 0 { lemma_forward(c, i, steps); lemma_units(c, i, c.len() as int); if i < c.len() { lemma_units(c, 0, i + 1); } }
    if i < c.len() { lemma_back(c, i, steps); lemma_units(c, 0, i + 1); lemma_units(c, i + 1, c.len() as int); }
}
/// C10: every jump of the output arrives where the jump of the input did.
pub proof fn lemma_arrives(c: Seq<Ctx>, d: Seq<Jump>, j: int)
    requires jumps_ok(c, d), 0 <= j < c.len() < 0x1000_0000_0000_0000, jump_tight(c[j])
    ensures arrives(c, final_instructions(c), j, d)
{
    let r = final_instructions(c);
    if distance51(r[j]) is Some && !c[j].is_fixed {
        let x = distance51(c[j].instruction)->0;
        let o = c[j].final_offset as int;
        assert(belongs(c, j, d));
        lemma_lands(c, j, x, o);
        if x >= 0 { lemma_forward_bound(c, j + 1, x + 1); } else { lemma_jump_bound(c, j, -x); }
        assert(distance51(r[j]) == Some(jump(c, j, x, o)));
    }
}
proof fn lemma_forward_bound(c: Seq<Ctx>, i: int, steps: int)
    ensures 0 <= forward(c, i, steps), 0 <= i <= c.len() && weights_ok(c) ==> forward(c, i, steps) <= c.len() - i + (if steps > 0 { steps } else { 0 })
    decreases c.len() - i
{
    if steps > 0 && 0 <= i < c.len() {
        lemma_forward_bound(c, i + 1, steps + c[i].line_weight - 1);
        if weights_ok(c) { assert(c[i].line_weight <= 1); }
    }
}
pub proof fn prop_c10_convert(i: Seq<Ins>, l: Seq<i64>, m: u8, s: Settings)
    requires i.len() < 0x4000_0000, settings_wf(s), forall|k: int| 0 <= k < i.len() ==> raw51(#[trigger] i[k]), s.lua51.fields_per_flush != s.output.fields_per_flush
    ensures spec_convert(i, l, m, s) matches Ok((r, _, _)) ==> r.len() < 0x1000_0000_0000_0000 ==> ({
        let c = convert_all(i, lines(l, i.len() as int), i.len() as int, s)->Ok_0.c;
        c.len() == r.len() && units(c, c.len() as int) == i.len() && forall|j: int| 0 <= j < r.len() ==> #[trigger] arrives(c, r, j, jumps51(i, i.len() as int))
    })
{
    hide(arrives); hide(jumps_ok); hide(building);
    let n = i.len() as int;
    lemma_jumps_convert_all(i, lines(l, n), n, s);
    if spec_convert(i, l, m, s) is Ok {
        let b = convert_all(i, lines(l, n), n, s)->Ok_0;
        let d = jumps51(i, n);
        if b.c.len() < 0x1000_0000_0000_0000 {
            lemma_finalize(b, n);
            lemma_jumps_units(b.c, d);
            assert forall|j: int| 0 <= j < b.c.len() implies #[trigger] arrives(b.c, final_instructions(b.c), j, d) by { lemma_arrives(b.c, d, j); }
        }
    }
}
proof fn lemma_jumps_units(c: Seq<Ctx>, d: Seq<Jump>)
    requires jumps_ok(c, d)
    ensures units(c, c.len() as int) == d.len()
{}
pub proof fn prop_c10_upcast(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, m: u8, p: u8, v: bool, s: Settings)
    requires i.len() < 0x2000_0000, settings_wf(s), forall|k: int| 0 <= k < i.len() ==> raw50(#[trigger] i[k])
    ensures spec_upcast(i, l, k, m, p, v, s) matches Ok((r, _, _, _)) ==> r.len() < 0x1000_0000_0000_0000 ==> ({
        let b = up_all(i, lines(l, i.len() as int), k, i.len() as int, s)->Ok_0.b;
        let c = (if v { variadic(b, p) } else { b }).c;
        c.len() == r.len() && units(c, c.len() as int) == i.len() && forall|j: int| 0 <= j < r.len() ==> #[trigger] arrives(c, r, j, jumps50(i, i.len() as int))
    })
{
    hide(arrives); hide(jumps_ok); hide(building); hide(variadic);
    let n = i.len() as int;
    lemma_jumps_up_all(i, lines(l, n), k, n, s);
    if spec_upcast(i, l, k, m, p, v, s) is Ok {
        let b0 = up_all(i, lines(l, n), k, n, s)->Ok_0.b;
        let d = jumps50(i, n);
        lemma_variadic(b0, n, p); lemma_jumps_variadic(b0, d, p);
        let b = if v { variadic(b0, p) } else { b0 };
        if b.c.len() < 0x1000_0000_0000_0000 {
            lemma_finalize(b, n);
            lemma_jumps_units(b.c, d);
            assert forall|j: int| 0 <= j < b.c.len() implies #[trigger] arrives(b.c, final_instructions(b.c), j, d) by { lemma_arrives(b.c, d, j); }
        }
    }
}
/// A numeric loop that doesn't jump backwards, or out of the function, is an error.
pub proof fn prop_c10_errors(u: Up, a: u64, x: i64)
    requires b_ok(u.b)
    ensures
        x >= 0 ==> up_for_loop(u, a, x) == Err::<Up, LunifyError>(LunifyError::UnexpectedForwardJump),
        x < 0 && units(u.b.c, u.b.c.len() as int) + 1 + x < 0 ==> up_for_loop(u, a, x) == Err::<Up, LunifyError>(LunifyError::InvalidJumpDestination),
{
    if x < 0 {
        let b0 = b_new(u.b, set_global(a + 3, u.k.len() as int));
        let i1 = lua51::Instruction::ForLoop { a, mode: SignedBx(x) };
        let y = InstructionContext { final_offset: -1i64, ..ctx_extra(i1) };
        let b = b_offset(b_extra(b0, i1), -1i64);
        assert(b.c =~= b0.c.push(y));
        lemma_units_push(u.b.c, ctx_new(set_global(a + 3, u.k.len() as int)));
        lemma_units_push(b0.c, y);
        lemma_lands(b.c, b.c.len() - 1, x as int, 0);
    }
}
}
