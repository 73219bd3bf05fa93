/// Specification of the header (C02, C16).
pub mod sp_format {
use vstd::prelude::*;
use crate::vx::*;
use crate::number::*;
use crate::format::*;
use crate::function::instruction::*;
use crate::*;

/// The sizes that the Lua 5.0 header states, in the order of the header.
pub open spec fn layout_sizes(l: InstructionLayout) -> Seq<u8> {
    seq![l.opcode.size as u8, l.a.size as u8, l.b.size as u8, l.c.size as u8]
}
pub open spec fn p_width_at(d: Seq<u8>, o: int, e: spec_fn(u8) -> LunifyError) -> Parse<BitWidth> {
    match p_byte(d, o) {
        Ok((b, o)) => match p_width(b) { Ok(w) => Ok((w, o)), Err(b) => Err(e(b)) },
        Err(x) => Err(x),
    }
}
/// Endianness and the widths of integers, sizes and instructions.
pub open spec fn p_widths(d: Seq<u8>, o: int) -> Parse<(Endianness, BitWidth, BitWidth, BitWidth)> {
    match p_byte(d, o) { Err(x) => Err(x), Ok((b, o)) =>
    match p_endian(b) { Err(x) => Err(x), Ok(e) =>
    match p_width_at(d, o, |b: u8| LunifyError::UnsupportedIntegerWidth(b)) { Err(x) => Err(x), Ok((i, o)) =>
    match p_width_at(d, o, |b: u8| LunifyError::UnsupportedSizeTWidth(b)) { Err(x) => Err(x), Ok((s, o)) =>
    match p_width_at(d, o, |b: u8| LunifyError::UnsupportedInstructionWidth(b)) { Err(x) => Err(x), Ok((n, o)) =>
        Ok(((e, i, s, n), o)) } } } } }
}
pub open spec fn array4(s: Seq<u8>) -> [u8; 4] { choose|a: [u8; 4]| a@ == s }
pub open spec fn p_format(d: Seq<u8>, o: int, v: LuaVersion, layout50: InstructionLayout) -> Parse<Format> {
    match v { LuaVersion::Lua51 => p_format51(d, o), LuaVersion::Lua50 => p_format50(d, o, layout50) }
}
pub open spec fn p_format51(d: Seq<u8>, o: int) -> Parse<Format> {
    match p_byte(d, o) { Err(x) => Err(x), Ok((format, o)) =>
    match p_widths(d, o) { Err(x) => Err(x), Ok(((endianness, integer_width, size_t_width, instruction_width), o)) =>
    match p_width_at(d, o, |b: u8| LunifyError::UnsupportedNumberWidth(b)) { Err(x) => Err(x), Ok((number_width, o)) =>
    match p_byte(d, o) { Err(x) => Err(x), Ok((integral, o)) =>
        Ok((Format { format, endianness, integer_width, size_t_width, instruction_width, number_width, is_number_integral: integral == 1 }, o)) } } } }
}
/// C16: Lua 5.0 states the sizes of the operands, which have to be the ones
/// from the settings, and a test number. Numbers are floats if and only if the
/// test number is the expected one.
pub open spec fn p_format50(d: Seq<u8>, o: int, layout50: InstructionLayout) -> Parse<Format> {
    match p_widths(d, o) { Err(x) => Err(x), Ok(((endianness, integer_width, size_t_width, instruction_width), o)) =>
    match p_slice(d, o, 4) { Err(x) => Err(x), Ok((sizes, o)) =>
    if sizes != layout_sizes(layout50) { Err(LunifyError::UnsupportedInstructionFormat(array4(sizes))) } else {
    match p_width_at(d, o, |b: u8| LunifyError::UnsupportedNumberWidth(b)) { Err(x) => Err(x), Ok((number_width, o)) =>
    match p_f(d, o, number_width, endianness) { Err(x) => Err(x), Ok((value, o)) =>
        Ok((Format { format: 0, endianness, integer_width, size_t_width, instruction_width, number_width, is_number_integral: !f64_eq(value, test_number(number_width)) }, o)) } } } } }
}
pub broadcast proof fn lemma_sizes_ext(s: Seq<u8>, l: InstructionLayout)
    requires s.len() == 4, s[0] == l.opcode.size as u8, s[1] == l.a.size as u8, s[2] == l.b.size as u8, s[3] == l.c.size as u8
    ensures #![trigger s.len(), layout_sizes(l)] s == layout_sizes(l)
{ assert(s =~= layout_sizes(l)); }
pub broadcast proof fn lemma_array4(a: [u8; 4])
    ensures array4(#[trigger] a@) == a
{ assert(array4(a@)@ == a@); assert(array4(a@) =~= a); }

}
