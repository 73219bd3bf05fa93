/// What instructions do to the stack (C12, C15).
pub mod sp_stack {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// Reading an instruction: a word, and then what it stands for.
pub open spec fn decoder<T: crate::function::instruction::interface::LuaInstruction>(s: crate::Settings, l: InstructionLayout) -> spec_fn(u64) -> Result<T, LunifyError> { |w: u64| T::vx_decode(w, s, l) }
pub open spec fn p_decode<T>(d: Seq<u8>, o: int, f: Format, decode: spec_fn(u64) -> Result<T, LunifyError>) -> Parse<T> {
    match p_instruction(d, o, f) {
        Ok((w, o)) => match decode(w) { Ok(i) => Ok((i, o)), Err(e) => Err(e) },
        Err(e) => Err(e),
    }
}

pub broadcast proof fn lemma_zero_or(x: u64)
    ensures #[trigger] (0u64 | x) == x
{ assert(0u64 | x == x) by (bit_vector); }

pub open spec fn upto(a: u64, b: int) -> Option<core::ops::Range<u64>> { Some(core::ops::Range { start: a, end: b as u64 }) }
/// First and last stack position that an instruction writes to (or, for
/// `SETTABLE` and `SETLIST`, the position of the table).
pub open spec fn destination51(i: lua51::Instruction) -> Option<core::ops::Range<u64>> {
    match i {
        lua51::Instruction::SetGlobal { .. } | lua51::Instruction::SetUpValue { .. } | lua51::Instruction::Jump { .. }
        | lua51::Instruction::Equals { .. } | lua51::Instruction::LessThan { .. } | lua51::Instruction::LessEquals { .. }
        | lua51::Instruction::Test { .. } | lua51::Instruction::TailCall { .. } | lua51::Instruction::Return { .. }
        | lua51::Instruction::Close { .. } => None,
        lua51::Instruction::LoadNil { a, mode } => upto(a, mode.0.0 as int),
        lua51::Instruction::_Self { a, mode } => upto(a, a + 1),
        lua51::Instruction::ForPrep { a, mode } => upto(a, a + 2),
        lua51::Instruction::ForLoop { a, mode } => upto(a, a + 3),
        lua51::Instruction::TForLoop { a, mode } => upto(a, a + 2 + mode.1.0),
        // C - 1 results from A on, and B - 1 variadic arguments from A on; 0 stands
        // for as many as there are
        lua51::Instruction::Call { a, mode } => upto(a, if mode.1.0 <= 1 { a as int } else { a + mode.1.0 - 1 }),
        lua51::Instruction::VarArg { a, mode } => upto(a, if mode.0.0 <= 1 { a as int } else { a + mode.0.0 - 1 }),
        lua51::Instruction::Move { a, .. } | lua51::Instruction::LoadK { a, .. } | lua51::Instruction::LoadBool { a, .. }
        | lua51::Instruction::GetUpValue { a, .. } | lua51::Instruction::GetGlobal { a, .. } | lua51::Instruction::GetTable { a, .. }
        | lua51::Instruction::SetTable { a, .. } | lua51::Instruction::NewTable { a, .. } | lua51::Instruction::Add { a, .. }
        | lua51::Instruction::Subtract { a, .. } | lua51::Instruction::Multiply { a, .. } | lua51::Instruction::Divide { a, .. }
        | lua51::Instruction::Modulo { a, .. } | lua51::Instruction::Power { a, .. } | lua51::Instruction::Unary { a, .. }
        | lua51::Instruction::Not { a, .. } | lua51::Instruction::Length { a, .. } | lua51::Instruction::Concatinate { a, .. }
        | lua51::Instruction::TestSet { a, .. } | lua51::Instruction::SetList { a, .. } | lua51::Instruction::Closure { a, .. } => upto(a, a as int),
    }
}
/// The register that an instruction names in A, if it is one.
pub open spec fn a51(i: lua51::Instruction) -> u64 {
    match i {
        lua51::Instruction::Move { a, .. } | lua51::Instruction::LoadK { a, .. } | lua51::Instruction::LoadBool { a, .. }
        | lua51::Instruction::LoadNil { a, .. } | lua51::Instruction::GetUpValue { a, .. } | lua51::Instruction::GetGlobal { a, .. }
        | lua51::Instruction::GetTable { a, .. } | lua51::Instruction::SetGlobal { a, .. } | lua51::Instruction::SetUpValue { a, .. }
        | lua51::Instruction::SetTable { a, .. } | lua51::Instruction::NewTable { a, .. } | lua51::Instruction::_Self { a, .. }
        | lua51::Instruction::Add { a, .. } | lua51::Instruction::Subtract { a, .. } | lua51::Instruction::Multiply { a, .. }
        | lua51::Instruction::Divide { a, .. } | lua51::Instruction::Modulo { a, .. } | lua51::Instruction::Power { a, .. }
        | lua51::Instruction::Unary { a, .. } | lua51::Instruction::Not { a, .. } | lua51::Instruction::Length { a, .. }
        | lua51::Instruction::Concatinate { a, .. } | lua51::Instruction::Test { a, .. }
        | lua51::Instruction::TestSet { a, .. } | lua51::Instruction::Call { a, .. } | lua51::Instruction::TailCall { a, .. }
        | lua51::Instruction::Return { a, .. } | lua51::Instruction::ForLoop { a, .. } | lua51::Instruction::ForPrep { a, .. }
        | lua51::Instruction::TForLoop { a, .. } | lua51::Instruction::SetList { a, .. } | lua51::Instruction::Close { a, .. }
        | lua51::Instruction::Closure { a, .. } | lua51::Instruction::VarArg { a, .. } => a,
        lua51::Instruction::Jump { .. } | lua51::Instruction::Equals { .. } | lua51::Instruction::LessThan { .. } | lua51::Instruction::LessEquals { .. } => 0,
    }
}
/// The number of registers that an instruction names in addition to A.
pub open spec fn extent51(i: lua51::Instruction) -> u64 {
    match i {
        lua51::Instruction::Call { a, mode } => mode.1.0,
        lua51::Instruction::VarArg { a, mode } => mode.0.0,
        lua51::Instruction::TForLoop { a, mode } => mode.1.0,
        _ => 0,
    }
}
/// The end of the range of `LOADNIL`, a register as well.
pub open spec fn upper51(i: lua51::Instruction) -> u64 {
    match i { lua51::Instruction::LoadNil { a, mode } => mode.0.0, _ => a51(i) }
}
/// Stack positions that are far from overflowing.
pub open spec fn regs51(i: lua51::Instruction) -> bool {
    a51(i) <= 0x6000_0000_0000_0000 && upper51(i) <= 0x6000_0000_0000_0000 && extent51(i) <= 0x1_0000_0000
}

}
