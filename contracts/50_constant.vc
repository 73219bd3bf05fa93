@module function::constant
@fn ConstantManager::create_unique
@props C11 C01
@sub self . constants . contains ( => vx_contains ( & * self . constants ,
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
    requires old(self).constants@.len() < 0x7fff_ffff
    ensures
        r == old(self).constants@.len(),
        view_constants(final(self).constants@) == view_constants(old(self).constants@).push(Const::String(fresh(view_constants(old(self).constants@), program_counter as nat))),
        *final(final(self).constants) == *final(old(self).constants),
@loop 1
    invariant
        0 <= index, old(self).constants@.len() < 0x7fff_ffff,
        self.constants@ == old(self).constants@, *final(self.constants) == *final(old(self).constants),
        constant_index == self.constants@.len(),
        forall|j: nat| j < index ==> view_constants(self.constants@).contains(Const::String(#[trigger] temp_name(program_counter as nat, j))),
    ensures is_fresh(view_constants(self.constants@), program_counter as nat, index as nat), /*vx_loop:*/ view_constant(vx_loop) == Const::String(temp_name(program_counter as nat, index as nat)), /*:vx_loop*/
    decreases self.constants@.len() - index
@loopbegin 1
    proof { lemma_names(view_constants(self.constants@), program_counter as nat, index as nat); }
@before ? index += 1
    proof { lemma_names(view_constants(self.constants@), program_counter as nat, (index + 1) as nat); }
@after ? self . constants . push ( constant )
    ; proof { lemma_fresh(view_constants(old(self).constants@), program_counter as nat, index as nat);
        assert(view_constants(self.constants@) =~= view_constants(old(self).constants@).push(view_constant(constant))); }
@fn ConstantManager::constant_for_str
@props C11 C01
@sub string == zero_terminated . as_str ( ) => vx_string_eq(string, &zero_terminated)
@sub let matches = | constant : & _ | $* ; => let matches = |constant: &Constant| -> (vx_b: bool) ensures vx_b == (view_constant(*constant) == Const::String(zero_terminated@)) { $* } ;
@spec
    ensures
        r == first(view_constants(old(self).constants@), terminated(constant_str@)),
        view_constants(final(self).constants@) == interned(view_constants(old(self).constants@), terminated(constant_str@)),
        *final(final(self).constants) == *final(old(self).constants),
@before ? if let Some ( index ) = self
    let ghost vx_cs = view_constants(self.constants@); let ghost vx_c = terminated(constant_str@);
@before ? return index as u64
    proof { lemma_first(vx_cs, vx_c, 0, index as int); }
@before ? let constant_index =
    proof { assert forall|j: int| 0 <= j < vx_cs.len() implies vx_cs[j] != vx_c by { assert(vx_cs[j] == view_constant(self.constants@[j])); } lemma_first(vx_cs, vx_c, 0, vx_cs.len() as int); }
@after ? self . constants . push ( Constant :: String ( zero_terminated ) )
    ; proof { assert(view_constants(self.constants@) =~= vx_cs.push(vx_c)); }
@fn ConstantManager::constant_nil
@props C11 C01
@sub let matches = | constant : & _ | $* ; => let matches = |constant: &Constant| -> (vx_b: bool) ensures vx_b == (view_constant(*constant) == Const::Nil) { $* } ;
@spec
    ensures
        r == first(view_constants(old(self).constants@), Const::Nil),
        view_constants(final(self).constants@) == interned(view_constants(old(self).constants@), Const::Nil),
        *final(final(self).constants) == *final(old(self).constants),
@before ? if let Some ( index ) = self
    let ghost vx_cs = view_constants(self.constants@); let ghost vx_c = Const::Nil;
@before ? return index as u64
    proof { lemma_first(vx_cs, vx_c, 0, index as int); }
@before ? let constant_index =
    proof { assert forall|j: int| 0 <= j < vx_cs.len() implies vx_cs[j] != vx_c by { assert(vx_cs[j] == view_constant(self.constants@[j])); } lemma_first(vx_cs, vx_c, 0, vx_cs.len() as int); }
@after ? self . constants . push ( Constant :: Nil )
    ; proof { assert(view_constants(self.constants@) =~= vx_cs.push(vx_c)); }
@end
