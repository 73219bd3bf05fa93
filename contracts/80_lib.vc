@module
@fn unify
@props C01 C02 C03 C06 C17 C04 C05 C07 C16
@attr #[verifier::spinoff_prover]
@spec
    requires settings_wf(*settings), input_bytes@.len() <= 0x2000_0000
    ensures (match r { Ok(v) => Ok::<Seq<u8>, LunifyError>(v@), Err(e) => Err(e) }) == spec_unify(input_bytes@, *output_format, *settings)
@begin
    hide(p_function); hide(w_function); hide(p_format); hide(view_function);
    broadcast use lemma_cat_assoc;
    proof { let vx_s = settings.output.binary_signature.spec_bytes(); if vx_s.len() <= input_bytes@.len() && input_bytes@.subrange(0, vx_s.len() as int) =~= vx_s {} }
@end
@inject function::instruction::lua51
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Settings<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { settings_eq(*self, *other) }
}
@end
