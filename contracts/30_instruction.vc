@module function::instruction::interface
@inject LuaInstruction
    spec fn vx_decode(w: u64, s: crate::Settings, l: InstructionLayout) -> Result<Self, LunifyError>;
    spec fn vx_encode(&self, s: crate::Settings) -> Result<u64, LunifyError>;
    spec fn vx_moved(&self, start: u64, offset: i64) -> Self;
    spec fn vx_ok(&self) -> bool;
@fn LuaInstruction::from_byte_stream
@spec
    requires stream_ok(old(byte_stream)), settings_wf(*settings), layout_wf(*layout)
    ensures reads(old(byte_stream), final(byte_stream), r, p_decode(old(byte_stream).data@, old(byte_stream).offset as int, old(byte_stream).format, |w: u64| Self::vx_decode(w, *settings, *layout)), |x: Self| x)
@fn LuaInstruction::move_stack_accesses
@spec
    ensures *final(self) == old(self).vx_moved(stack_start, offset)
@fn LuaInstruction::to_u64
@spec
    requires settings_wf(*settings), self.vx_ok()
    ensures r == self.vx_encode(*settings)
@module function::instruction::lua50
@inject LuaInstruction for Instruction
    open spec fn vx_decode(w: u64, s: crate::Settings, l: InstructionLayout) -> Result<Self, LunifyError> { decode50(w, s, l) }
    open spec fn vx_encode(&self, s: crate::Settings) -> Result<u64, LunifyError> { encode50(*self, s) }
    open spec fn vx_moved(&self, start: u64, offset: i64) -> Self { moved50(*self, start, offset) }
    open spec fn vx_ok(&self) -> bool { jump_small50(*self) }
@fn LuaInstruction for Instruction::from_byte_stream
@props C07 C03 C01 C17 C09
@fn LuaInstruction for Instruction::move_stack_accesses
@props C07
@fn LuaInstruction for Instruction::to_u64
@props C07 C17 C09
@begin
    broadcast use lemma_zero_or;
@module function::instruction::lua51
@inject LuaInstruction for Instruction
    open spec fn vx_decode(w: u64, s: crate::Settings, l: InstructionLayout) -> Result<Self, LunifyError> { decode51(w, s, l) }
    open spec fn vx_encode(&self, s: crate::Settings) -> Result<u64, LunifyError> { encode51(*self, s) }
    open spec fn vx_moved(&self, start: u64, offset: i64) -> Self { moved51(*self, start, offset) }
    open spec fn vx_ok(&self) -> bool { jump_small51(*self) }
@fn LuaInstruction for Instruction::from_byte_stream
@props C07 C03 C01 C17 C10
@fn LuaInstruction for Instruction::move_stack_accesses
@props C15 C01
@fn LuaInstruction for Instruction::to_u64
@props C07 C01 C17 C09 C10
@begin
    broadcast use lemma_zero_or;
@fn Instruction::stack_destination
@props C12 C15 C01
@spec
    requires regs51(*self)
    ensures r == destination51(*self)
@end
@module function::instruction::lua50
@fn Default for Settings::default
@props C07 C01 C09 C15 C16
@ret r
@spec
    ensures default50(r)
@begin
    proof { lemma_default_layouts(); }
@module function::instruction::lua51
@fn Default for Settings::default
@props C07 C01 C15 C12 C11
@ret r
@spec
    ensures default51(r)
@begin
    proof { lemma_default_layouts(); }
@module function::instruction::settings
@fn Default for Settings::default
@props C07 C01 C15 C12 C11 C16
@ret r
@spec
    ensures default50(r.lua50), default51(r.lua51), default51(r.output), settings_wf(r)
@end
