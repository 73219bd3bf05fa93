/// Specification of the whole conversion (C02, C03).
pub mod sp_unify {
use vstd::prelude::*;
use crate::vx::*;
use crate::format::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::layout::*;
use crate::*;

pub open spec fn settings_eq(a: lua51::Settings, b: lua51::Settings) -> bool {
    a.stack_limit == b.stack_limit && a.fields_per_flush == b.fields_per_flush && a.binary_signature@ == b.binary_signature@ && a.layout == b.layout
}
/// Where the version is: behind one of the signatures.
pub open spec fn p_signature(d: Seq<u8>, s: Settings) -> Parse<()> {
    if has_signature(d, s.lua50.binary_signature.spec_bytes()) { Ok(((), s.lua50.binary_signature.spec_bytes().len() as int)) }
    else if has_signature(d, s.lua51.binary_signature.spec_bytes()) { Ok(((), s.lua51.binary_signature.spec_bytes().len() as int)) }
    else { Err(LunifyError::IncorrectSignature) }
}
pub open spec fn p_header(d: Seq<u8>, s: Settings) -> Parse<(LuaVersion, Format)> {
    match p_signature(d, s) { Err(e) => Err(e), Ok((_, o)) =>
    match p_byte(d, o) { Err(e) => Err(e), Ok((b, o)) =>
    match p_version(b) { Err(e) => Err(e), Ok(v) =>
    match p_format(d, o, v, s.lua50.layout) { Err(e) => Err(e), Ok((f, o)) => Ok(((v, f), o)) } } } }
}
pub open spec fn starts(d: Seq<u8>, sig: Seq<u8>) -> bool { sig.len() <= d.len() && d.subrange(0, sig.len() as int) == sig }
/// C02: the input is in the output format already.
pub open spec fn is_unified(d: Seq<u8>, v: LuaVersion, f: Format, out: Format, s: Settings) -> bool {
    v is Lua51 && f == out && settings_eq(s.lua51, s.output) && starts(d, s.output.binary_signature.spec_bytes())
}
/// C02: the header in the output format.
pub open spec fn w_header(out: Format, s: Settings) -> Seq<u8> { s.output.binary_signature.spec_bytes().push(0x51) + header_bytes(out) }
pub open spec fn spec_unify(d: Seq<u8>, out: Format, s: Settings) -> Written {
    match p_header(d, s) { Err(e) => Err(e), Ok(((v, f), o)) =>
    if is_unified(d, v, f, out, s) { Ok(d) } else {
    match p_function(d, o, f, v, s, 0) { Err(e) => Err(e), Ok((x, o)) =>
    if o < d.len() { Err(LunifyError::InputTooLong) } else { cat(Ok(w_header(out, s)), w_function(x, out)) } } } }
}

/// The layouts of the original Lua compilers.
pub open spec fn standard_layout50() -> InstructionLayout {
    InstructionLayout { opcode: op(6, 0), c: op(9, 6), b: op(9, 15), a: op(8, 24), bx: op(18, 6), signed_offset: 0x1ffff }
}
pub open spec fn standard_layout51() -> InstructionLayout {
    InstructionLayout { opcode: op(6, 0), a: op(8, 6), c: op(9, 14), b: op(9, 23), bx: op(18, 14), signed_offset: 0x1ffff }
}
pub open spec fn default50(s: lua50::Settings) -> bool { s.stack_limit == 250 && s.fields_per_flush == 32 && s.binary_signature@ == "\x1bLua"@ && s.layout == standard_layout50() && layout_wf(s.layout) }
pub open spec fn default51(s: lua51::Settings) -> bool { s.stack_limit == 250 && s.fields_per_flush == 50 && s.binary_signature@ == "\x1bLua"@ && s.layout == standard_layout51() && layout_wf(s.layout) }
pub proof fn lemma_default_layouts()
    ensures
        spec_layout(seq![OperandType::Opcode(6), OperandType::C(9), OperandType::B(9), OperandType::A(8)]) == Ok::<InstructionLayout, LunifyError>(standard_layout50()),
        spec_layout(seq![OperandType::Opcode(6), OperandType::A(8), OperandType::C(9), OperandType::B(9)]) == Ok::<InstructionLayout, LunifyError>(standard_layout51()),
        forall|a: [OperandType; 4]| a[0] == OperandType::Opcode(6) && a[1] == OperandType::C(9) && a[2] == OperandType::B(9) && a[3] == OperandType::A(8) ==> #[trigger] a@ =~= seq![OperandType::Opcode(6), OperandType::C(9), OperandType::B(9), OperandType::A(8)],
        forall|a: [OperandType; 4]| a[0] == OperandType::Opcode(6) && a[1] == OperandType::A(8) && a[2] == OperandType::C(9) && a[3] == OperandType::B(9) ==> #[trigger] a@ =~= seq![OperandType::Opcode(6), OperandType::A(8), OperandType::C(9), OperandType::B(9)],
{
    reveal_with_fuel(position, 5); reveal_with_fuel(find_kind, 5);
    assert(maximum(17) == 0x1ffff) by (compute);
}
}
