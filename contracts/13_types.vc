@module
@type error::LunifyError ## #[derive(Clone, Copy, PartialEq, Eq, Debug)]
@type number::Number ## #[derive(Clone, Copy, PartialEq)]
@type function::constant::Constant ## #[derive(PartialEq)]
@type function::instruction::lua50::Settings ## #[derive(Clone, Copy)]
@type function::instruction::lua51::Settings ## #[derive(Clone, Copy, PartialEq)]
@type function::instruction::settings::Settings ## #[derive(Clone, Copy)]
@type function::instruction::lua50::Instruction ## #[derive(Clone, Copy, PartialEq, Eq)] #[allow(inconsistent_fields)]
@type function::instruction::lua51::Instruction ## #[derive(Clone, Copy, PartialEq, Eq)] #[allow(inconsistent_fields)]
@head function::instruction::operand::mode::ModeGet ## trait ModeGet<T> => trait ModeGet<T>: Sized
@head function::instruction::operand::OperandGet ## trait OperandGet<T> => trait OperandGet<T>: Sized
@end
