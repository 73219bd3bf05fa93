/// Specification of instructions (C07, C11).
pub mod sp_instruction {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// Settings that this proof is about: layouts come from `from_specification`,
/// at least one field per flush and at most 2^31 of them.
pub open spec fn settings_wf(s: Settings) -> bool {
    &&& layout_wf(s.lua50.layout) && layout_wf(s.lua51.layout) && layout_wf(s.output.layout)
    &&& 1 <= s.lua50.fields_per_flush <= 0x8000_0000
    &&& 1 <= s.lua51.fields_per_flush <= 0x8000_0000
    &&& 1 <= s.output.fields_per_flush <= 0x8000_0000
}
pub open spec fn small(d: i64) -> bool { -0x4000_0000_0000_0000 <= d < 0x4000_0000_0000_0000 }
/// Lua 5.0: values from the stack limit on are constants.
pub open spec fn constant_register50(v: u64, s: Settings) -> ConstantRegister {
    if v >= s.lua50.stack_limit { ConstantRegister((v - s.lua50.stack_limit) as u64, true) } else { ConstantRegister(v, false) }
}
pub open spec fn constant_bit(l: InstructionLayout) -> u64 { 1u64 << ((l.b.size - 1) as u64) }
/// Different ways to set, clear and test the constant bit.
pub proof fn lemma_flag(l: InstructionLayout, v: u64)
    requires layout_wf(l)
    ensures ({
        let b = constant_bit(l);
        &&& b | v == v | b && b ^ v == v ^ b && b & v == v & b
        &&& v < b ==> v & b == 0
        &&& v & b == 0 ==> v | b == v + b && v ^ b == v + b
        &&& v & b != 0 ==> v & b == b && v | b == v && v ^ b == v - b && v & !b == v - b && v >= b
        &&& v & b == 0 ==> v & !b == v
        &&& v < 2 * b ==> ((v >= b) == (v & b != 0)) && v & ((b - 1) as u64) == v & !b
    })
{
    let n = (l.b.size - 1) as u64;
    let b = constant_bit(l);
    assert(1 <= b <= 0x4000_0000) by(bit_vector) requires b == 1u64 << n, 7 <= n < 31;
    assert(b | v == v | b && b ^ v == v ^ b && b & v == v & b) by(bit_vector);
    assert(v < b ==> v & b == 0) by(bit_vector) requires b == 1u64 << n, 7 <= n < 31;
    assert(v & b == 0 ==> v | b == add(v, b) && v ^ b == add(v, b) && v <= 0xffff_ffff_ffff_ffff - b) by(bit_vector) requires b == 1u64 << n, 7 <= n < 31;
    assert(v & b != 0 ==> v & b == b && v | b == v && v ^ b == sub(v, b) && v & !b == sub(v, b) && v >= b) by(bit_vector) requires b == 1u64 << n, 7 <= n < 31;
    assert(v & b == 0 ==> v & !b == v) by(bit_vector);
    assert(v < 2 * b ==> ((v >= b) == (v & b != 0)) && v & sub(b, 1) == v & !b) by(bit_vector) requires b == 1u64 << n, 7 <= n < 31;
}
/// Lua 5.1: values with the constant bit are constants.
pub open spec fn constant_register51(v: u64, s: Settings) -> ConstantRegister {
    if v & constant_bit(s.lua51.layout) != 0 { ConstantRegister(v ^ constant_bit(s.lua51.layout), true) } else { ConstantRegister(v, false) }
}
pub open spec fn put_constant(r: ConstantRegister, o: OperandLayout, s: Settings) -> Result<u64, LunifyError> {
    if r.0 >= constant_bit(s.output.layout) { Err(LunifyError::ValueTooBigForOperand) }
    else if r.1 { op_put(o, r.0 | constant_bit(s.output.layout)) }
    else { op_put(o, r.0) }
}
pub open spec fn put_signed(v: i64, l: InstructionLayout) -> Result<u64, LunifyError> {
    if v + l.signed_offset < 0 { Err(LunifyError::ValueTooBigForOperand) } else { op_put(l.bx, (v + l.signed_offset) as u64) }
}
pub open spec fn either(x: Result<u64, LunifyError>, y: Result<u64, LunifyError>) -> Result<u64, LunifyError> {
    match x { Ok(v) => match y { Ok(w) => Ok(v | w), Err(e) => Err(e) }, Err(e) => Err(e) }
}
pub open spec fn moved(v: u64, start: u64, offset: i64) -> u64 {
    if v >= start { if v + offset < 0 { 0 } else if v + offset > u64::MAX { u64::MAX } else { (v + offset) as u64 } } else { v }
}
pub open spec fn moved_constant(r: ConstantRegister, start: u64, offset: i64) -> ConstantRegister {
    if r.1 { r } else { ConstantRegister(moved(r.0, start, offset), false) }
}
/// The instruction that a Lua 5.0 word stands for.
pub open spec fn decode50(w: u64, s: Settings, l: InstructionLayout) -> Result<lua50::Instruction, LunifyError> {
    let a = op_get(l.a, w);
    let opcode = op_get(l.opcode, w);
    if opcode == 0 { Ok(lua50::Instruction::Move { a, mode: BC(Register(op_get(l.b, w)), Unused) }) } else
    if opcode == 1 { Ok(lua50::Instruction::LoadK { a, mode: Bx(op_get(l.bx, w)) }) } else
    if opcode == 2 { Ok(lua50::Instruction::LoadBool { a, mode: BC(Generic(op_get(l.b, w)), Generic(op_get(l.c, w))) }) } else
    if opcode == 3 { Ok(lua50::Instruction::LoadNil { a, mode: BC(Register(op_get(l.b, w)), Unused) }) } else
    if opcode == 4 { Ok(lua50::Instruction::GetUpValue { a, mode: BC(Generic(op_get(l.b, w)), Unused) }) } else
    if opcode == 5 { Ok(lua50::Instruction::GetGlobal { a, mode: Bx(op_get(l.bx, w)) }) } else
    if opcode == 6 { Ok(lua50::Instruction::GetTable { a, mode: BC(Register(op_get(l.b, w)), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 7 { Ok(lua50::Instruction::SetGlobal { a, mode: Bx(op_get(l.bx, w)) }) } else
    if opcode == 8 { Ok(lua50::Instruction::SetUpValue { a, mode: BC(Generic(op_get(l.b, w)), Unused) }) } else
    if opcode == 9 { Ok(lua50::Instruction::SetTable { a, mode: BC(constant_register50(op_get(l.b, w), s), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 10 { Ok(lua50::Instruction::NewTable { a, mode: BC(Unused, Unused) }) } else
    if opcode == 11 { Ok(lua50::Instruction::_Self { a, mode: BC(Register(op_get(l.b, w)), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 12 { Ok(lua50::Instruction::Add { a, mode: BC(constant_register50(op_get(l.b, w), s), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 13 { Ok(lua50::Instruction::Subtract { a, mode: BC(constant_register50(op_get(l.b, w), s), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 14 { Ok(lua50::Instruction::Multiply { a, mode: BC(constant_register50(op_get(l.b, w), s), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 15 { Ok(lua50::Instruction::Divide { a, mode: BC(constant_register50(op_get(l.b, w), s), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 16 { Ok(lua50::Instruction::Power { a, mode: BC(constant_register50(op_get(l.b, w), s), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 17 { Ok(lua50::Instruction::Unary { a, mode: BC(Register(op_get(l.b, w)), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 18 { Ok(lua50::Instruction::Not { a, mode: BC(Register(op_get(l.b, w)), Unused) }) } else
    if opcode == 19 { Ok(lua50::Instruction::Concatinate { a, mode: BC(Register(op_get(l.b, w)), Register(op_get(l.c, w))) }) } else
    if opcode == 20 { Ok(lua50::Instruction::Jump { a, mode: SignedBx((op_get(l.bx, w) as i64 - l.signed_offset) as i64) }) } else
    if opcode == 21 { Ok(lua50::Instruction::Equals { a, mode: BC(constant_register50(op_get(l.b, w), s), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 22 { Ok(lua50::Instruction::LessThan { a, mode: BC(constant_register50(op_get(l.b, w), s), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 23 { Ok(lua50::Instruction::LessEquals { a, mode: BC(constant_register50(op_get(l.b, w), s), constant_register50(op_get(l.c, w), s)) }) } else
    if opcode == 24 { Ok(lua50::Instruction::Test { a, mode: BC(Register(op_get(l.b, w)), Generic(op_get(l.c, w))) }) } else
    if opcode == 25 { Ok(lua50::Instruction::Call { a, mode: BC(Generic(op_get(l.b, w)), Generic(op_get(l.c, w))) }) } else
    if opcode == 26 { Ok(lua50::Instruction::TailCall { a, mode: BC(Generic(op_get(l.b, w)), Generic(op_get(l.c, w))) }) } else
    if opcode == 27 { Ok(lua50::Instruction::Return { a, mode: BC(Generic(op_get(l.b, w)), Unused) }) } else
    if opcode == 28 { Ok(lua50::Instruction::ForLoop { a, mode: SignedBx((op_get(l.bx, w) as i64 - l.signed_offset) as i64) }) } else
    if opcode == 29 { Ok(lua50::Instruction::TForLoop { a, mode: BC(Unused, Generic(op_get(l.c, w))) }) } else
    if opcode == 30 { Ok(lua50::Instruction::TForPrep { a, mode: SignedBx((op_get(l.bx, w) as i64 - l.signed_offset) as i64) }) } else
    if opcode == 31 { Ok(lua50::Instruction::SetList { a, mode: Bx(op_get(l.bx, w)) }) } else
    if opcode == 32 { Ok(lua50::Instruction::SetListO { a, mode: Bx(op_get(l.bx, w)) }) } else
    if opcode == 33 { Ok(lua50::Instruction::Close { a, mode: BC(Unused, Unused) }) } else
    if opcode == 34 { Ok(lua50::Instruction::Closure { a, mode: Bx(op_get(l.bx, w)) }) } else
    { Err(LunifyError::InvalidOpcode(opcode)) }
}
pub open spec fn opcode50(i: lua50::Instruction) -> u64 {
    match i {
        lua50::Instruction::Move { .. } => 0,
        lua50::Instruction::LoadK { .. } => 1,
        lua50::Instruction::LoadBool { .. } => 2,
        lua50::Instruction::LoadNil { .. } => 3,
        lua50::Instruction::GetUpValue { .. } => 4,
        lua50::Instruction::GetGlobal { .. } => 5,
        lua50::Instruction::GetTable { .. } => 6,
        lua50::Instruction::SetGlobal { .. } => 7,
        lua50::Instruction::SetUpValue { .. } => 8,
        lua50::Instruction::SetTable { .. } => 9,
        lua50::Instruction::NewTable { .. } => 10,
        lua50::Instruction::_Self { .. } => 11,
        lua50::Instruction::Add { .. } => 12,
        lua50::Instruction::Subtract { .. } => 13,
        lua50::Instruction::Multiply { .. } => 14,
        lua50::Instruction::Divide { .. } => 15,
        lua50::Instruction::Power { .. } => 16,
        lua50::Instruction::Unary { .. } => 17,
        lua50::Instruction::Not { .. } => 18,
        lua50::Instruction::Concatinate { .. } => 19,
        lua50::Instruction::Jump { .. } => 20,
        lua50::Instruction::Equals { .. } => 21,
        lua50::Instruction::LessThan { .. } => 22,
        lua50::Instruction::LessEquals { .. } => 23,
        lua50::Instruction::Test { .. } => 24,
        lua50::Instruction::Call { .. } => 25,
        lua50::Instruction::TailCall { .. } => 26,
        lua50::Instruction::Return { .. } => 27,
        lua50::Instruction::ForLoop { .. } => 28,
        lua50::Instruction::TForLoop { .. } => 29,
        lua50::Instruction::TForPrep { .. } => 30,
        lua50::Instruction::SetList { .. } => 31,
        lua50::Instruction::SetListO { .. } => 32,
        lua50::Instruction::Close { .. } => 33,
        lua50::Instruction::Closure { .. } => 34,
    }
}
/// Opcode, A and the remaining operands.
pub open spec fn encode50(i: lua50::Instruction, s: Settings) -> Result<u64, LunifyError> {
    let o = s.output.layout;
    match i {
        lua50::Instruction::Move { a, mode } => either(either(op_put(o.opcode, 0), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua50::Instruction::LoadK { a, mode } => either(either(op_put(o.opcode, 1), op_put(o.a, a)), op_put(o.bx, mode.0)),
        lua50::Instruction::LoadBool { a, mode } => either(either(op_put(o.opcode, 2), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua50::Instruction::LoadNil { a, mode } => either(either(op_put(o.opcode, 3), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua50::Instruction::GetUpValue { a, mode } => either(either(op_put(o.opcode, 4), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua50::Instruction::GetGlobal { a, mode } => either(either(op_put(o.opcode, 5), op_put(o.a, a)), op_put(o.bx, mode.0)),
        lua50::Instruction::GetTable { a, mode } => either(either(op_put(o.opcode, 6), op_put(o.a, a)), either(op_put(o.b, mode.0.0), put_constant(mode.1, o.c, s))),
        lua50::Instruction::SetGlobal { a, mode } => either(either(op_put(o.opcode, 7), op_put(o.a, a)), op_put(o.bx, mode.0)),
        lua50::Instruction::SetUpValue { a, mode } => either(either(op_put(o.opcode, 8), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua50::Instruction::SetTable { a, mode } => either(either(op_put(o.opcode, 9), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua50::Instruction::NewTable { a, mode } => either(either(op_put(o.opcode, 10), op_put(o.a, a)), either(Ok(0), Ok(0))),
        lua50::Instruction::_Self { a, mode } => either(either(op_put(o.opcode, 11), op_put(o.a, a)), either(op_put(o.b, mode.0.0), put_constant(mode.1, o.c, s))),
        lua50::Instruction::Add { a, mode } => either(either(op_put(o.opcode, 12), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua50::Instruction::Subtract { a, mode } => either(either(op_put(o.opcode, 13), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua50::Instruction::Multiply { a, mode } => either(either(op_put(o.opcode, 14), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua50::Instruction::Divide { a, mode } => either(either(op_put(o.opcode, 15), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua50::Instruction::Power { a, mode } => either(either(op_put(o.opcode, 16), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua50::Instruction::Unary { a, mode } => either(either(op_put(o.opcode, 17), op_put(o.a, a)), either(op_put(o.b, mode.0.0), put_constant(mode.1, o.c, s))),
        lua50::Instruction::Not { a, mode } => either(either(op_put(o.opcode, 18), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua50::Instruction::Concatinate { a, mode } => either(either(op_put(o.opcode, 19), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua50::Instruction::Jump { a, mode } => either(either(op_put(o.opcode, 20), op_put(o.a, a)), put_signed(mode.0, o)),
        lua50::Instruction::Equals { a, mode } => either(either(op_put(o.opcode, 21), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua50::Instruction::LessThan { a, mode } => either(either(op_put(o.opcode, 22), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua50::Instruction::LessEquals { a, mode } => either(either(op_put(o.opcode, 23), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua50::Instruction::Test { a, mode } => either(either(op_put(o.opcode, 24), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua50::Instruction::Call { a, mode } => either(either(op_put(o.opcode, 25), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua50::Instruction::TailCall { a, mode } => either(either(op_put(o.opcode, 26), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua50::Instruction::Return { a, mode } => either(either(op_put(o.opcode, 27), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua50::Instruction::ForLoop { a, mode } => either(either(op_put(o.opcode, 28), op_put(o.a, a)), put_signed(mode.0, o)),
        lua50::Instruction::TForLoop { a, mode } => either(either(op_put(o.opcode, 29), op_put(o.a, a)), either(Ok(0), op_put(o.c, mode.1.0))),
        lua50::Instruction::TForPrep { a, mode } => either(either(op_put(o.opcode, 30), op_put(o.a, a)), put_signed(mode.0, o)),
        lua50::Instruction::SetList { a, mode } => either(either(op_put(o.opcode, 31), op_put(o.a, a)), op_put(o.bx, mode.0)),
        lua50::Instruction::SetListO { a, mode } => either(either(op_put(o.opcode, 32), op_put(o.a, a)), op_put(o.bx, mode.0)),
        lua50::Instruction::Close { a, mode } => either(either(op_put(o.opcode, 33), op_put(o.a, a)), either(Ok(0), Ok(0))),
        lua50::Instruction::Closure { a, mode } => either(either(op_put(o.opcode, 34), op_put(o.a, a)), op_put(o.bx, mode.0)),
    }
}
/// Moving all stack positions from `start` on by an offset.
pub open spec fn moved50(i: lua50::Instruction, start: u64, offset: i64) -> lua50::Instruction {
    match i {
        lua50::Instruction::Move { a, mode } => lua50::Instruction::Move { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), Unused) },
        lua50::Instruction::LoadK { a, mode } => lua50::Instruction::LoadK { a: moved(a, start, offset), mode: mode },
        lua50::Instruction::LoadBool { a, mode } => lua50::Instruction::LoadBool { a: moved(a, start, offset), mode: BC(mode.0, mode.1) },
        lua50::Instruction::LoadNil { a, mode } => lua50::Instruction::LoadNil { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), Unused) },
        lua50::Instruction::GetUpValue { a, mode } => lua50::Instruction::GetUpValue { a: moved(a, start, offset), mode: BC(mode.0, Unused) },
        lua50::Instruction::GetGlobal { a, mode } => lua50::Instruction::GetGlobal { a: moved(a, start, offset), mode: mode },
        lua50::Instruction::GetTable { a, mode } => lua50::Instruction::GetTable { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::SetGlobal { a, mode } => lua50::Instruction::SetGlobal { a: moved(a, start, offset), mode: mode },
        lua50::Instruction::SetUpValue { a, mode } => lua50::Instruction::SetUpValue { a: moved(a, start, offset), mode: BC(mode.0, Unused) },
        lua50::Instruction::SetTable { a, mode } => lua50::Instruction::SetTable { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::NewTable { a, mode } => lua50::Instruction::NewTable { a: moved(a, start, offset), mode: BC(Unused, Unused) },
        lua50::Instruction::_Self { a, mode } => lua50::Instruction::_Self { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::Add { a, mode } => lua50::Instruction::Add { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::Subtract { a, mode } => lua50::Instruction::Subtract { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::Multiply { a, mode } => lua50::Instruction::Multiply { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::Divide { a, mode } => lua50::Instruction::Divide { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::Power { a, mode } => lua50::Instruction::Power { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::Unary { a, mode } => lua50::Instruction::Unary { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::Not { a, mode } => lua50::Instruction::Not { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), Unused) },
        lua50::Instruction::Concatinate { a, mode } => lua50::Instruction::Concatinate { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), Register(moved(mode.1.0, start, offset))) },
        lua50::Instruction::Jump { a, mode } => lua50::Instruction::Jump { a: a, mode: mode },
        lua50::Instruction::Equals { a, mode } => lua50::Instruction::Equals { a: a, mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::LessThan { a, mode } => lua50::Instruction::LessThan { a: a, mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::LessEquals { a, mode } => lua50::Instruction::LessEquals { a: a, mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua50::Instruction::Test { a, mode } => lua50::Instruction::Test { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), mode.1) },
        lua50::Instruction::Call { a, mode } => lua50::Instruction::Call { a: moved(a, start, offset), mode: BC(mode.0, mode.1) },
        lua50::Instruction::TailCall { a, mode } => lua50::Instruction::TailCall { a: moved(a, start, offset), mode: BC(mode.0, mode.1) },
        lua50::Instruction::Return { a, mode } => lua50::Instruction::Return { a: moved(a, start, offset), mode: BC(mode.0, Unused) },
        lua50::Instruction::ForLoop { a, mode } => lua50::Instruction::ForLoop { a: moved(a, start, offset), mode: mode },
        lua50::Instruction::TForLoop { a, mode } => lua50::Instruction::TForLoop { a: moved(a, start, offset), mode: BC(Unused, mode.1) },
        lua50::Instruction::TForPrep { a, mode } => lua50::Instruction::TForPrep { a: moved(a, start, offset), mode: mode },
        lua50::Instruction::SetList { a, mode } => lua50::Instruction::SetList { a: moved(a, start, offset), mode: mode },
        lua50::Instruction::SetListO { a, mode } => lua50::Instruction::SetListO { a: moved(a, start, offset), mode: mode },
        lua50::Instruction::Close { a, mode } => lua50::Instruction::Close { a: moved(a, start, offset), mode: BC(Unused, Unused) },
        lua50::Instruction::Closure { a, mode } => lua50::Instruction::Closure { a: moved(a, start, offset), mode: mode },
    }
}
/// Jump distances stay far from overflowing.
pub open spec fn jump_small50(i: lua50::Instruction) -> bool {
    match i {
        lua50::Instruction::Jump { mode, .. } => small(mode.0),
        lua50::Instruction::ForLoop { mode, .. } => small(mode.0),
        lua50::Instruction::TForPrep { mode, .. } => small(mode.0),
        _ => true,
    }
}
/// The instruction that a Lua 5.1 word stands for.
pub open spec fn decode51(w: u64, s: Settings, l: InstructionLayout) -> Result<lua51::Instruction, LunifyError> {
    let a = op_get(l.a, w);
    let opcode = op_get(l.opcode, w);
    if opcode == 0 { Ok(lua51::Instruction::Move { a, mode: BC(Register(op_get(l.b, w)), Unused) }) } else
    if opcode == 1 { Ok(lua51::Instruction::LoadK { a, mode: Bx(op_get(l.bx, w)) }) } else
    if opcode == 2 { Ok(lua51::Instruction::LoadBool { a, mode: BC(Generic(op_get(l.b, w)), Generic(op_get(l.c, w))) }) } else
    if opcode == 3 { Ok(lua51::Instruction::LoadNil { a, mode: BC(Register(op_get(l.b, w)), Unused) }) } else
    if opcode == 4 { Ok(lua51::Instruction::GetUpValue { a, mode: BC(Generic(op_get(l.b, w)), Unused) }) } else
    if opcode == 5 { Ok(lua51::Instruction::GetGlobal { a, mode: Bx(op_get(l.bx, w)) }) } else
    if opcode == 6 { Ok(lua51::Instruction::GetTable { a, mode: BC(Register(op_get(l.b, w)), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 7 { Ok(lua51::Instruction::SetGlobal { a, mode: Bx(op_get(l.bx, w)) }) } else
    if opcode == 8 { Ok(lua51::Instruction::SetUpValue { a, mode: BC(Generic(op_get(l.b, w)), Unused) }) } else
    if opcode == 9 { Ok(lua51::Instruction::SetTable { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 10 { Ok(lua51::Instruction::NewTable { a, mode: BC(Unused, Unused) }) } else
    if opcode == 11 { Ok(lua51::Instruction::_Self { a, mode: BC(Register(op_get(l.b, w)), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 12 { Ok(lua51::Instruction::Add { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 13 { Ok(lua51::Instruction::Subtract { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 14 { Ok(lua51::Instruction::Multiply { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 15 { Ok(lua51::Instruction::Divide { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 16 { Ok(lua51::Instruction::Modulo { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 17 { Ok(lua51::Instruction::Power { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 18 { Ok(lua51::Instruction::Unary { a, mode: BC(Register(op_get(l.b, w)), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 19 { Ok(lua51::Instruction::Not { a, mode: BC(Register(op_get(l.b, w)), Unused) }) } else
    if opcode == 20 { Ok(lua51::Instruction::Length { a, mode: BC(Register(op_get(l.b, w)), Unused) }) } else
    if opcode == 21 { Ok(lua51::Instruction::Concatinate { a, mode: BC(Register(op_get(l.b, w)), Register(op_get(l.c, w))) }) } else
    if opcode == 22 { Ok(lua51::Instruction::Jump { a, mode: SignedBx((op_get(l.bx, w) as i64 - l.signed_offset) as i64) }) } else
    if opcode == 23 { Ok(lua51::Instruction::Equals { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 24 { Ok(lua51::Instruction::LessThan { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 25 { Ok(lua51::Instruction::LessEquals { a, mode: BC(constant_register51(op_get(l.b, w), s), constant_register51(op_get(l.c, w), s)) }) } else
    if opcode == 26 { Ok(lua51::Instruction::Test { a, mode: BC(Register(op_get(l.b, w)), Generic(op_get(l.c, w))) }) } else
    if opcode == 27 { Ok(lua51::Instruction::TestSet { a, mode: BC(constant_register51(op_get(l.b, w), s), Generic(op_get(l.c, w))) }) } else
    if opcode == 28 { Ok(lua51::Instruction::Call { a, mode: BC(Generic(op_get(l.b, w)), Generic(op_get(l.c, w))) }) } else
    if opcode == 29 { Ok(lua51::Instruction::TailCall { a, mode: BC(Generic(op_get(l.b, w)), Generic(op_get(l.c, w))) }) } else
    if opcode == 30 { Ok(lua51::Instruction::Return { a, mode: BC(Generic(op_get(l.b, w)), Unused) }) } else
    if opcode == 31 { Ok(lua51::Instruction::ForLoop { a, mode: SignedBx((op_get(l.bx, w) as i64 - l.signed_offset) as i64) }) } else
    if opcode == 32 { Ok(lua51::Instruction::ForPrep { a, mode: SignedBx((op_get(l.bx, w) as i64 - l.signed_offset) as i64) }) } else
    if opcode == 33 { Ok(lua51::Instruction::TForLoop { a, mode: BC(Unused, Generic(op_get(l.c, w))) }) } else
    if opcode == 34 { Ok(lua51::Instruction::SetList { a, mode: BC(Generic(op_get(l.b, w)), Generic(op_get(l.c, w))) }) } else
    if opcode == 35 { Ok(lua51::Instruction::Close { a, mode: BC(Unused, Unused) }) } else
    if opcode == 36 { Ok(lua51::Instruction::Closure { a, mode: Bx(op_get(l.bx, w)) }) } else
    if opcode == 37 { Ok(lua51::Instruction::VarArg { a, mode: BC(Generic(op_get(l.b, w)), Unused) }) } else
    { Err(LunifyError::InvalidOpcode(opcode)) }
}
pub open spec fn opcode51(i: lua51::Instruction) -> u64 {
    match i {
        lua51::Instruction::Move { .. } => 0,
        lua51::Instruction::LoadK { .. } => 1,
        lua51::Instruction::LoadBool { .. } => 2,
        lua51::Instruction::LoadNil { .. } => 3,
        lua51::Instruction::GetUpValue { .. } => 4,
        lua51::Instruction::GetGlobal { .. } => 5,
        lua51::Instruction::GetTable { .. } => 6,
        lua51::Instruction::SetGlobal { .. } => 7,
        lua51::Instruction::SetUpValue { .. } => 8,
        lua51::Instruction::SetTable { .. } => 9,
        lua51::Instruction::NewTable { .. } => 10,
        lua51::Instruction::_Self { .. } => 11,
        lua51::Instruction::Add { .. } => 12,
        lua51::Instruction::Subtract { .. } => 13,
        lua51::Instruction::Multiply { .. } => 14,
        lua51::Instruction::Divide { .. } => 15,
        lua51::Instruction::Modulo { .. } => 16,
        lua51::Instruction::Power { .. } => 17,
        lua51::Instruction::Unary { .. } => 18,
        lua51::Instruction::Not { .. } => 19,
        lua51::Instruction::Length { .. } => 20,
        lua51::Instruction::Concatinate { .. } => 21,
        lua51::Instruction::Jump { .. } => 22,
        lua51::Instruction::Equals { .. } => 23,
        lua51::Instruction::LessThan { .. } => 24,
        lua51::Instruction::LessEquals { .. } => 25,
        lua51::Instruction::Test { .. } => 26,
        lua51::Instruction::TestSet { .. } => 27,
        lua51::Instruction::Call { .. } => 28,
        lua51::Instruction::TailCall { .. } => 29,
        lua51::Instruction::Return { .. } => 30,
        lua51::Instruction::ForLoop { .. } => 31,
        lua51::Instruction::ForPrep { .. } => 32,
        lua51::Instruction::TForLoop { .. } => 33,
        lua51::Instruction::SetList { .. } => 34,
        lua51::Instruction::Close { .. } => 35,
        lua51::Instruction::Closure { .. } => 36,
        lua51::Instruction::VarArg { .. } => 37,
    }
}
/// Opcode, A and the remaining operands.
pub open spec fn encode51(i: lua51::Instruction, s: Settings) -> Result<u64, LunifyError> {
    let o = s.output.layout;
    match i {
        lua51::Instruction::Move { a, mode } => either(either(op_put(o.opcode, 0), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua51::Instruction::LoadK { a, mode } => either(either(op_put(o.opcode, 1), op_put(o.a, a)), op_put(o.bx, mode.0)),
        lua51::Instruction::LoadBool { a, mode } => either(either(op_put(o.opcode, 2), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua51::Instruction::LoadNil { a, mode } => either(either(op_put(o.opcode, 3), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua51::Instruction::GetUpValue { a, mode } => either(either(op_put(o.opcode, 4), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua51::Instruction::GetGlobal { a, mode } => either(either(op_put(o.opcode, 5), op_put(o.a, a)), op_put(o.bx, mode.0)),
        lua51::Instruction::GetTable { a, mode } => either(either(op_put(o.opcode, 6), op_put(o.a, a)), either(op_put(o.b, mode.0.0), put_constant(mode.1, o.c, s))),
        lua51::Instruction::SetGlobal { a, mode } => either(either(op_put(o.opcode, 7), op_put(o.a, a)), op_put(o.bx, mode.0)),
        lua51::Instruction::SetUpValue { a, mode } => either(either(op_put(o.opcode, 8), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua51::Instruction::SetTable { a, mode } => either(either(op_put(o.opcode, 9), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::NewTable { a, mode } => either(either(op_put(o.opcode, 10), op_put(o.a, a)), either(Ok(0), Ok(0))),
        lua51::Instruction::_Self { a, mode } => either(either(op_put(o.opcode, 11), op_put(o.a, a)), either(op_put(o.b, mode.0.0), put_constant(mode.1, o.c, s))),
        lua51::Instruction::Add { a, mode } => either(either(op_put(o.opcode, 12), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::Subtract { a, mode } => either(either(op_put(o.opcode, 13), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::Multiply { a, mode } => either(either(op_put(o.opcode, 14), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::Divide { a, mode } => either(either(op_put(o.opcode, 15), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::Modulo { a, mode } => either(either(op_put(o.opcode, 16), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::Power { a, mode } => either(either(op_put(o.opcode, 17), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::Unary { a, mode } => either(either(op_put(o.opcode, 18), op_put(o.a, a)), either(op_put(o.b, mode.0.0), put_constant(mode.1, o.c, s))),
        lua51::Instruction::Not { a, mode } => either(either(op_put(o.opcode, 19), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua51::Instruction::Length { a, mode } => either(either(op_put(o.opcode, 20), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua51::Instruction::Concatinate { a, mode } => either(either(op_put(o.opcode, 21), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua51::Instruction::Jump { a, mode } => either(either(op_put(o.opcode, 22), op_put(o.a, a)), put_signed(mode.0, o)),
        lua51::Instruction::Equals { a, mode } => either(either(op_put(o.opcode, 23), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::LessThan { a, mode } => either(either(op_put(o.opcode, 24), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::LessEquals { a, mode } => either(either(op_put(o.opcode, 25), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), put_constant(mode.1, o.c, s))),
        lua51::Instruction::Test { a, mode } => either(either(op_put(o.opcode, 26), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua51::Instruction::TestSet { a, mode } => either(either(op_put(o.opcode, 27), op_put(o.a, a)), either(put_constant(mode.0, o.b, s), op_put(o.c, mode.1.0))),
        lua51::Instruction::Call { a, mode } => either(either(op_put(o.opcode, 28), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua51::Instruction::TailCall { a, mode } => either(either(op_put(o.opcode, 29), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua51::Instruction::Return { a, mode } => either(either(op_put(o.opcode, 30), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
        lua51::Instruction::ForLoop { a, mode } => either(either(op_put(o.opcode, 31), op_put(o.a, a)), put_signed(mode.0, o)),
        lua51::Instruction::ForPrep { a, mode } => either(either(op_put(o.opcode, 32), op_put(o.a, a)), put_signed(mode.0, o)),
        lua51::Instruction::TForLoop { a, mode } => either(either(op_put(o.opcode, 33), op_put(o.a, a)), either(Ok(0), op_put(o.c, mode.1.0))),
        lua51::Instruction::SetList { a, mode } => either(either(op_put(o.opcode, 34), op_put(o.a, a)), either(op_put(o.b, mode.0.0), op_put(o.c, mode.1.0))),
        lua51::Instruction::Close { a, mode } => either(either(op_put(o.opcode, 35), op_put(o.a, a)), either(Ok(0), Ok(0))),
        lua51::Instruction::Closure { a, mode } => either(either(op_put(o.opcode, 36), op_put(o.a, a)), op_put(o.bx, mode.0)),
        lua51::Instruction::VarArg { a, mode } => either(either(op_put(o.opcode, 37), op_put(o.a, a)), either(op_put(o.b, mode.0.0), Ok(0))),
    }
}
/// Moving all stack positions from `start` on by an offset.
pub open spec fn moved51(i: lua51::Instruction, start: u64, offset: i64) -> lua51::Instruction {
    match i {
        lua51::Instruction::Move { a, mode } => lua51::Instruction::Move { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), Unused) },
        lua51::Instruction::LoadK { a, mode } => lua51::Instruction::LoadK { a: moved(a, start, offset), mode: mode },
        lua51::Instruction::LoadBool { a, mode } => lua51::Instruction::LoadBool { a: moved(a, start, offset), mode: BC(mode.0, mode.1) },
        lua51::Instruction::LoadNil { a, mode } => lua51::Instruction::LoadNil { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), Unused) },
        lua51::Instruction::GetUpValue { a, mode } => lua51::Instruction::GetUpValue { a: moved(a, start, offset), mode: BC(mode.0, Unused) },
        lua51::Instruction::GetGlobal { a, mode } => lua51::Instruction::GetGlobal { a: moved(a, start, offset), mode: mode },
        lua51::Instruction::GetTable { a, mode } => lua51::Instruction::GetTable { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::SetGlobal { a, mode } => lua51::Instruction::SetGlobal { a: moved(a, start, offset), mode: mode },
        lua51::Instruction::SetUpValue { a, mode } => lua51::Instruction::SetUpValue { a: moved(a, start, offset), mode: BC(mode.0, Unused) },
        lua51::Instruction::SetTable { a, mode } => lua51::Instruction::SetTable { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::NewTable { a, mode } => lua51::Instruction::NewTable { a: moved(a, start, offset), mode: BC(Unused, Unused) },
        lua51::Instruction::_Self { a, mode } => lua51::Instruction::_Self { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::Add { a, mode } => lua51::Instruction::Add { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::Subtract { a, mode } => lua51::Instruction::Subtract { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::Multiply { a, mode } => lua51::Instruction::Multiply { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::Divide { a, mode } => lua51::Instruction::Divide { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::Modulo { a, mode } => lua51::Instruction::Modulo { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::Power { a, mode } => lua51::Instruction::Power { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::Unary { a, mode } => lua51::Instruction::Unary { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::Not { a, mode } => lua51::Instruction::Not { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), Unused) },
        lua51::Instruction::Length { a, mode } => lua51::Instruction::Length { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), Unused) },
        lua51::Instruction::Concatinate { a, mode } => lua51::Instruction::Concatinate { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), Register(moved(mode.1.0, start, offset))) },
        lua51::Instruction::Jump { a, mode } => lua51::Instruction::Jump { a: a, mode: mode },
        lua51::Instruction::Equals { a, mode } => lua51::Instruction::Equals { a: a, mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::LessThan { a, mode } => lua51::Instruction::LessThan { a: a, mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::LessEquals { a, mode } => lua51::Instruction::LessEquals { a: a, mode: BC(moved_constant(mode.0, start, offset), moved_constant(mode.1, start, offset)) },
        lua51::Instruction::Test { a, mode } => lua51::Instruction::Test { a: moved(a, start, offset), mode: BC(Register(moved(mode.0.0, start, offset)), mode.1) },
        lua51::Instruction::TestSet { a, mode } => lua51::Instruction::TestSet { a: moved(a, start, offset), mode: BC(moved_constant(mode.0, start, offset), mode.1) },
        lua51::Instruction::Call { a, mode } => lua51::Instruction::Call { a: moved(a, start, offset), mode: BC(mode.0, mode.1) },
        lua51::Instruction::TailCall { a, mode } => lua51::Instruction::TailCall { a: moved(a, start, offset), mode: BC(mode.0, mode.1) },
        lua51::Instruction::Return { a, mode } => lua51::Instruction::Return { a: moved(a, start, offset), mode: BC(mode.0, Unused) },
        lua51::Instruction::ForLoop { a, mode } => lua51::Instruction::ForLoop { a: moved(a, start, offset), mode: mode },
        lua51::Instruction::ForPrep { a, mode } => lua51::Instruction::ForPrep { a: moved(a, start, offset), mode: mode },
        lua51::Instruction::TForLoop { a, mode } => lua51::Instruction::TForLoop { a: moved(a, start, offset), mode: BC(Unused, mode.1) },
        lua51::Instruction::SetList { a, mode } => lua51::Instruction::SetList { a: moved(a, start, offset), mode: BC(mode.0, mode.1) },
        lua51::Instruction::Close { a, mode } => lua51::Instruction::Close { a: moved(a, start, offset), mode: BC(Unused, Unused) },
        lua51::Instruction::Closure { a, mode } => lua51::Instruction::Closure { a: moved(a, start, offset), mode: mode },
        lua51::Instruction::VarArg { a, mode } => lua51::Instruction::VarArg { a: moved(a, start, offset), mode: BC(mode.0, Unused) },
    }
}
/// Jump distances stay far from overflowing.
pub open spec fn jump_small51(i: lua51::Instruction) -> bool {
    match i {
        lua51::Instruction::Jump { mode, .. } => small(mode.0),
        lua51::Instruction::ForLoop { mode, .. } => small(mode.0),
        lua51::Instruction::ForPrep { mode, .. } => small(mode.0),
        _ => true,
    }
}

}
