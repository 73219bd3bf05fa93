@module function::instruction::operand::mode
@inject ModeGet
    spec fn vx_get(value: u64, settings: &Settings, layout: &OperandLayout) -> Self;
@inject ModePut
    spec fn vx_put(&self, settings: &Settings, layout: &OperandLayout) -> Result<u64, LunifyError>;
@inject ModeOffset
    spec fn vx_offset(&self, start: u64, offset: i64) -> Self;
@head ModeOffset ## trait ModeOffset => trait ModeOffset: Sized
@fn ModeGet::get
@spec
    requires op_wf(*layout), settings_wf(*settings)
    ensures r == Self::vx_get(value, settings, layout)
@fn ModePut::put
@spec
    requires op_wf(*layout), settings_wf(*settings)
    ensures r == self.vx_put(settings, layout)
@fn ModeOffset::offset
@spec
    ensures *final(self) == old(self).vx_offset(_stack_start, _offset)
@inject ModeGet<T> for Unused
    open spec fn vx_get(value: u64, settings: &Settings, layout: &OperandLayout) -> Self { Unused }
@inject ModePut for Unused
    open spec fn vx_put(&self, settings: &Settings, layout: &OperandLayout) -> Result<u64, LunifyError> { Ok(0) }
@inject ModeOffset for Unused
    open spec fn vx_offset(&self, start: u64, offset: i64) -> Self { *self }
@inject ModeGet<T> for Generic
    open spec fn vx_get(value: u64, settings: &Settings, layout: &OperandLayout) -> Self { Generic(op_get(*layout, value)) }
@inject ModePut for Generic
    open spec fn vx_put(&self, settings: &Settings, layout: &OperandLayout) -> Result<u64, LunifyError> { op_put(*layout, self.0) }
@inject ModeOffset for Generic
    open spec fn vx_offset(&self, start: u64, offset: i64) -> Self { *self }
@inject ModeGet<T> for Register
    open spec fn vx_get(value: u64, settings: &Settings, layout: &OperandLayout) -> Self { Register(op_get(*layout, value)) }
@inject ModePut for Register
    open spec fn vx_put(&self, settings: &Settings, layout: &OperandLayout) -> Result<u64, LunifyError> { op_put(*layout, self.0) }
@inject ModeOffset for Register
    open spec fn vx_offset(&self, start: u64, offset: i64) -> Self { Register(moved(self.0, start, offset)) }
@inject ModeGet<lua50::Instruction> for ConstantRegister
    open spec fn vx_get(value: u64, settings: &Settings, layout: &OperandLayout) -> Self { constant_register50(op_get(*layout, value), *settings) }
@inject ModeGet<lua51::Instruction> for ConstantRegister
    open spec fn vx_get(value: u64, settings: &Settings, layout: &OperandLayout) -> Self { constant_register51(op_get(*layout, value), *settings) }
@inject ModePut for ConstantRegister
    open spec fn vx_put(&self, settings: &Settings, layout: &OperandLayout) -> Result<u64, LunifyError> { put_constant(*self, *layout, *settings) }
@inject ModeOffset for ConstantRegister
    open spec fn vx_offset(&self, start: u64, offset: i64) -> Self { moved_constant(*self, start, offset) }
@fn ModeGet<T> for Unused::get
@props C07 C17
@fn ModePut for Unused::put
@props C07 C17
@fn ModeOffset for Unused::offset
@props C15
@fn ModeGet<T> for Generic::get
@props C07 C17
@fn ModePut for Generic::put
@props C07 C17
@fn ModeOffset for Generic::offset
@props C15
@fn ModeGet<T> for Register::get
@props C07 C17
@fn ModePut for Register::put
@props C07 C17
@fn ModeOffset for Register::offset
@props C15 C01
@fn ModeGet<lua50::Instruction> for ConstantRegister::get
@props C11 C01 C07 C17
@fn ModeGet<lua51::Instruction> for ConstantRegister::get
@props C11 C01 C07 C17
@begin
    proof { lemma_flag(settings.lua51.layout, op_get(*layout, value)); }
@fn ModePut for ConstantRegister::put
@props C11 C01 C07 C17
@begin
    proof { lemma_flag(settings.output.layout, self.0); }
@fn ModeOffset for ConstantRegister::offset
@props C15 C01

@module function::instruction::operand
@inject OperandGet
    spec fn vx_get(value: u64, settings: &Settings, layout: &InstructionLayout) -> Self;
@inject OperandPut
    spec fn vx_put(&self, settings: &Settings) -> Result<u64, LunifyError>;
    spec fn vx_ok(&self) -> bool;
@inject OperandOffset
    spec fn vx_offset(&self, start: u64, offset: i64) -> Self;
@head OperandPut ## trait OperandPut => trait OperandPut: Sized
@head OperandOffset ## trait OperandOffset => trait OperandOffset: Sized
@fn OperandGet::get
@spec
    requires layout_wf(*layout), settings_wf(*settings)
    ensures r == Self::vx_get(value, settings, layout)
@fn OperandPut::put
@spec
    requires settings_wf(*settings), self.vx_ok()
    ensures r == self.vx_put(settings)
@fn OperandOffset::offset
@spec
    ensures *final(self) == old(self).vx_offset(_stack_start, _offset)
@inject OperandGet<T> for Opcode
    open spec fn vx_get(value: u64, settings: &Settings, layout: &InstructionLayout) -> Self { Opcode(op_get(layout.opcode, value)) }
@inject OperandPut for Opcode
    open spec fn vx_put(&self, settings: &Settings) -> Result<u64, LunifyError> { op_put(settings.output.layout.opcode, self.0) }
    open spec fn vx_ok(&self) -> bool { true }
@inject OperandGet<T> for A
    open spec fn vx_get(value: u64, settings: &Settings, layout: &InstructionLayout) -> Self { A(op_get(layout.a, value)) }
@inject OperandPut for A
    open spec fn vx_put(&self, settings: &Settings) -> Result<u64, LunifyError> { op_put(settings.output.layout.a, self.0) }
    open spec fn vx_ok(&self) -> bool { true }
@inject OperandGet<lua50::Instruction> for BC<B,C>
    open spec fn vx_get(value: u64, settings: &Settings, layout: &InstructionLayout) -> Self { BC(B::vx_get(value, settings, &layout.b), C::vx_get(value, settings, &layout.c)) }
@inject OperandGet<lua51::Instruction> for BC<B,C>
    open spec fn vx_get(value: u64, settings: &Settings, layout: &InstructionLayout) -> Self { BC(B::vx_get(value, settings, &layout.b), C::vx_get(value, settings, &layout.c)) }
@inject OperandPut for BC<B,C>
    open spec fn vx_put(&self, settings: &Settings) -> Result<u64, LunifyError> { either(self.0.vx_put(settings, &settings.output.layout.b), self.1.vx_put(settings, &settings.output.layout.c)) }
    open spec fn vx_ok(&self) -> bool { true }
@inject OperandOffset for BC<B,C>
    open spec fn vx_offset(&self, start: u64, offset: i64) -> Self { BC(self.0.vx_offset(start, offset), self.1.vx_offset(start, offset)) }
@inject OperandGet<T> for Bx
    open spec fn vx_get(value: u64, settings: &Settings, layout: &InstructionLayout) -> Self { Bx(op_get(layout.bx, value)) }
@inject OperandPut for Bx
    open spec fn vx_put(&self, settings: &Settings) -> Result<u64, LunifyError> { op_put(settings.output.layout.bx, self.0) }
    open spec fn vx_ok(&self) -> bool { true }
@inject OperandOffset for Bx
    open spec fn vx_offset(&self, start: u64, offset: i64) -> Self { *self }
@inject OperandGet<T> for SignedBx
    open spec fn vx_get(value: u64, settings: &Settings, layout: &InstructionLayout) -> Self { SignedBx((op_get(layout.bx, value) as i64 - layout.signed_offset) as i64) }
@inject OperandPut for SignedBx
    open spec fn vx_put(&self, settings: &Settings) -> Result<u64, LunifyError> { put_signed(self.0, settings.output.layout) }
    open spec fn vx_ok(&self) -> bool { small(self.0) }
@inject OperandOffset for SignedBx
    open spec fn vx_offset(&self, start: u64, offset: i64) -> Self { *self }
@fn OperandGet<T> for Opcode::get
@props C07 C17
@fn OperandPut for Opcode::put
@props C07 C17
@fn OperandGet<T> for A::get
@props C07 C17
@fn OperandPut for A::put
@props C07 C17
@fn OperandGet<lua50::Instruction> for BC<B,C>::get
@props C07 C17
@fn OperandGet<lua51::Instruction> for BC<B,C>::get
@props C07 C17
@fn OperandPut for BC<B,C>::put
@props C07 C17
@fn OperandOffset for BC<B,C>::offset
@props C15
@fn OperandGet<T> for Bx::get
@props C07 C17
@fn OperandPut for Bx::put
@props C07 C17
@fn OperandOffset for Bx::offset
@props C15
@fn OperandGet<T> for SignedBx::get
@props C01 C07 C10 C17
@begin
    proof { lemma_signed_offset(*layout); }
@fn OperandPut for SignedBx::put
@props C01 C07 C10 C17
@begin
    proof { lemma_signed_offset(settings.output.layout); lemma_negative_u64((self.0 + settings.output.layout.signed_offset) as i64); }
@fn OperandOffset for SignedBx::offset
@props C15
@module function::instruction::lua51
@fn Settings::get_constant_bit
@props C11 C07 C17
@spec
    requires layout_wf(self.layout)
    ensures r == constant_bit(self.layout), r >= 128
@begin
    proof { lemma_constant_bit(self.layout); }
@fn Settings::get_maximum_constant_index
@props C11 C07 C17
@spec
    requires layout_wf(self.layout)
    ensures r == constant_bit(self.layout) - 1
@end
