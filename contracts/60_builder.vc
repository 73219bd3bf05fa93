@module function::builder
@type InstructionContext ## #[derive(Clone, Copy, PartialEq, Eq)]
@inject FunctionBuilder
    pub open spec fn vx(&self) -> Bld { Bld { c: self.contexts@, l: self.line_info@, n: self.line_number } }
@fn InstructionContext::new
@props C10 C09
@spec
    ensures r == ctx_new(instruction)
@fn InstructionContext::new_extra
@props C10 C09
@spec
    ensures r == ctx_extra(instruction)
@fn Default for FunctionBuilder::default
@props C09
@sub contexts : :: core :: default :: Default :: default ( ) => contexts: Vec::new()
@sub line_info : :: core :: default :: Default :: default ( ) => line_info: Vec::new()
@sub line_number : :: core :: default :: Default :: default ( ) => line_number: 0
@spec
    ensures r.vx() =~= b_empty()
@fn FunctionBuilder::set_line_number
@props C13
@spec
    ensures final(self).vx() =~= b_line(old(self).vx(), line_number)
@fn FunctionBuilder::instruction
@props C09 C10 C13 C15
@spec
    ensures final(self).vx() =~= b_new(old(self).vx(), instruction)
@fn FunctionBuilder::extra_instruction
@props C09 C10 C13 C15
@spec
    ensures final(self).vx() =~= b_extra(old(self).vx(), instruction)
@fn FunctionBuilder::insert_extra_instruction
@props C09 C10 C13 C01 C15 C14
@spec
    requires b_ok(old(self).vx()), index <= old(self).contexts@.len()
    ensures final(self).vx() =~= b_insert(old(self).vx(), index as int, instruction)
@fn FunctionBuilder::remove_instruction
@props C10 C13 C15 C01 C09
@spec
    requires b_ok(old(self).vx()), index + 1 < old(self).contexts@.len()
    ensures final(self).vx() =~= b_remove(old(self).vx(), index as int)
@begin
    proof { lemma_weight(self.vx(), index as int); lemma_weight(self.vx(), index + 1); }
@fn FunctionBuilder::last_instruction_fixed
@props C10 C01 C09
@spec
    requires old(self).contexts@.len() > 0
    ensures final(self).vx() =~= b_fixed(old(self).vx())
@fn FunctionBuilder::last_instruction_offset
@props C10 C01 C09
@spec
    requires old(self).contexts@.len() > 0
    ensures final(self).vx() =~= b_offset(old(self).vx(), final_offset)
@fn FunctionBuilder::get_instruction
@props C15 C01
@spec
    requires index < old(self).contexts@.len()
    ensures
        *r == old(self).contexts@[index as int].instruction,
        final(self).vx() == (Bld { c: old(self).contexts@.update(index as int, InstructionContext { instruction: *final(r), ..old(self).contexts@[index as int] }), ..old(self).vx() }),
@fn FunctionBuilder::get_program_counter
@props C09 C11 C10
@spec
    ensures r == self.contexts@.len()
@fn FunctionBuilder::jump_destination
@props C10 C01 C09
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
    requires b_ok(self.vx()), context_index < self.contexts@.len(), tight(destination as int), -2 <= final_offset <= 2
    ensures r == jump(self.contexts@, context_index as int, destination as int, final_offset as int), small(r)
@begin
    broadcast use lemma_sign;
@loop 1
    invariant_except_break
        0 <= offset <= self.contexts@.len(), -0x200_0000_0000 <= steps <= 0x2000_0000_0000_0001,
        is_forward ==> context_index + 1 + offset <= self.contexts@.len() && offset + forward(self.contexts@, context_index + 1 + offset, steps as int) == forward(self.contexts@, context_index + 1, destination + 1),
        !is_forward ==> context_index - offset >= -1 && offset + backward(self.contexts@, context_index - offset, steps as int) == backward(self.contexts@, context_index as int, -destination),
    invariant
        b_ok(self.vx()), context_index < self.contexts@.len(), tight(destination as int), is_forward == (destination >= 0),
    ensures
        is_forward ==> offset == forward(self.contexts@, context_index + 1, destination + 1), !is_forward ==> offset == backward(self.contexts@, context_index as int, -destination),
        0 <= offset <= 0x2000_0000_0000_0001 + self.contexts@.len(),
    decreases (if is_forward { self.contexts@.len() - context_index - offset } else { context_index + 1 - offset })
@before ? steps += $*
    proof { lemma_weight(self.vx(), index as int); }
@fn FunctionBuilder::last_stack_destination
@props C15 C01
@sub and_then ( | context | $* ) => and_then(|context: &InstructionContext| -> (vx_r: Option<core::ops::Range<u64>>) requires regs51(context.instruction) ensures vx_r == destination51(context.instruction) { $* })
@sub map ( | destination | destination . start ) => map(|destination: core::ops::Range<u64>| -> (vx_r: u64) ensures vx_r == destination.start { destination.start })
@spec
    requires forall|i: int| 0 <= i < self.contexts@.len() ==> regs51((#[trigger] self.contexts@[i]).instruction)
    ensures r == last_destination(self.contexts@)
@fn FunctionBuilder::table_setup
@props C15 C01
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
    ensures match r { Some(i) => setup(self.contexts@, a, self.contexts@.len() - 1) == Some(i as int), None => setup(self.contexts@, a, self.contexts@.len() - 1) is None }
@loop 1
    invariant
        index == 0 || index <= self.contexts@.len() - 1,
        setup(self.contexts@, a, self.contexts@.len() - 1) == setup(self.contexts@, a, index as int),
    decreases index
@fn FunctionBuilder::elements_end
@props C15 C01
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
    requires forall|i: int| 0 <= i < self.contexts@.len() ==> regs51((#[trigger] self.contexts@[i]).instruction)
    ensures match r {
        Some(i) => end_of_elements(self.contexts@, start as int, first_position, last_position, self.contexts@.len() as int) == Some(i as int) && start < i <= self.contexts@.len(),
        None => end_of_elements(self.contexts@, start as int, first_position, last_position, self.contexts@.len() as int) is None }
@loop 1
    invariant
        forall|i: int| 0 <= i < self.contexts@.len() ==> regs51((#[trigger] self.contexts@[i]).instruction),
        index <= self.contexts@.len(),
        end_of_elements(self.contexts@, start as int, first_position, last_position, self.contexts@.len() as int) == end_of_elements(self.contexts@, start as int, first_position, last_position, index as int),
    decreases index
@loop 2
    invariant
        start < index <= self.contexts@.len(),
        end_of_elements(self.contexts@, start as int, first_position, last_position, self.contexts@.len() as int) == Some(if is_closure { behind_pseudo(self.contexts@, index as int) } else { index as int }),
    ensures
        end_of_elements(self.contexts@, start as int, first_position, last_position, self.contexts@.len() as int) == Some(index as int),
    decreases self.contexts@.len() - index
@fn FunctionBuilder::move_stack_accesses
@props C15 C01
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
    requires end <= old(self).contexts@.len()
    ensures final(self).vx() =~= b_move(old(self).vx(), start as int, end as int, stack_start, offset)
@loop 1
    invariant
        end <= old(self).contexts@.len(),
        start <= end ==> self.vx() == b_move(old(self).vx(), start as int, index as int, stack_start, offset),
        start > end ==> self.vx() == old(self).vx(),
@loopbefore 1
    proof { assert(self.vx().c =~= b_move(old(self).vx(), start as int, start as int, stack_start, offset).c); }
@loopend 1
    proof { if start <= end { assert(self.vx().c =~= b_move(old(self).vx(), start as int, index + 1, stack_start, offset).c); } }
@loopafter 1
    proof { assert(self.vx().c =~= b_move(old(self).vx(), start as int, end as int, stack_start, offset).c); }
@fn FunctionBuilder::insert_set_list
@props C15 C10 C01 C13
@spec
    requires b_ok(old(self).vx()), index <= old(self).contexts@.len(), 
    ensures final(self).vx() =~= b_insert_list(old(self).vx(), index as int, list(a, b, c))
@fn FunctionBuilder::set_list
@props C15 C10 C01 C09 C13 C12
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
    requires can_set_list(old(self).vx(), a, stored, pending, fields_per_flush)
    ensures final(self).vx() =~= b_set_list(old(self).vx(), a, stored, pending, is_open, fields_per_flush)
@begin
    broadcast use lemma_split;
    proof {
        lemma_pages_start(self.vx(), a, stored, pending as int, fields_per_flush, m_limit(pending, fields_per_flush), k_limit());
        lemma_setup(self.contexts@, a, self.contexts@.len() - 1);
    }
@loop 1
    invariant_except_break
        pages_loop(Pages { b: self.vx(), start: start as int, page: page as int, offset: offset as int }, a, pending, fields_per_flush) == pages_loop(pages_start(old(self).vx(), a, stored, fields_per_flush)->0, a, pending, fields_per_flush),
    invariant
        can_set_list(old(self).vx(), a, stored, pending, fields_per_flush),
        pages_start(old(self).vx(), a, stored, fields_per_flush) is Some,
        pages_ok(Pages { b: self.vx(), start: start as int, page: page as int, offset: offset as int }, pending as int, fields_per_flush as int, m_limit(pending, fields_per_flush), larger(k_limit(), stored + 1)),
    ensures
        (Pages { b: self.vx(), start: start as int, page: page as int, offset: offset as int }) == pages_loop(pages_start(old(self).vx(), a, stored, fields_per_flush)->0, a, pending, fields_per_flush),
    decreases pending + offset
@loopbegin 1
    let ghost p = Pages { b: self.vx(), start: start as int, page: page as int, offset: offset as int };
    proof {
        lemma_pages_regs(p, pending as int, fields_per_flush as int, m_limit(pending, fields_per_flush), larger(k_limit(), stored + 1));
        lemma_end_of_elements(p.b.c, p.start, (a + 1) as u64, last_position(a, fields_per_flush, p.offset), p.b.c.len() as int);
        match end_of_elements(p.b.c, p.start, (a + 1) as u64, last_position(a, fields_per_flush, p.offset), p.b.c.len() as int) {
            None => {},
            Some(end) => {
                lemma_pages_step(p, a, end, pending as int, fields_per_flush, m_limit(pending, fields_per_flush), larger(k_limit(), stored + 1));
                lemma_pages_move(p, a, end, pending as int, fields_per_flush as int, m_limit(pending, fields_per_flush), larger(k_limit(), stored + 1));
            },
        }
    }
@fn FunctionBuilder::adjusted_jump_destination
@props C10 C01 C09
@spec
    requires b_ok(self.vx()), self.contexts@.len() > 0, tight(bx as int)
    ensures match r { Ok(i) => adjusted(self.vx(), bx as int) == Ok::<int, LunifyError>(i as int), Err(e) => adjusted(self.vx(), bx as int) == Err::<int, LunifyError>(e) }
@fn FunctionBuilder::finalize
@props C10 C12 C13 C01 C09
@sub map ( | context | context . instruction ) => map(|context: InstructionContext| -> (vx_r: Instruction) ensures vx_r == context.instruction { context.instruction })
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
    requires
        b_ok(self.vx()),
        forall|i: int| 0 <= i < self.contexts@.len() ==> regs51((#[trigger] self.contexts@[i]).instruction) && jump_tight(self.contexts@[i]),
    ensures match r {
        Ok((i, l)) => b_final(self.vx(), *old(maximum_stack_size), settings.output.stack_limit) == Ok::<(Seq<Ins>, Seq<i64>, u8), LunifyError>((i@, l@, *final(maximum_stack_size))),
        Err(e) => b_final(self.vx(), *old(maximum_stack_size), settings.output.stack_limit) == Err::<(Seq<Ins>, Seq<i64>, u8), LunifyError>(e),
    },
    r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.0@.len() ==> jump_small51(#[trigger] r->Ok_0.0@[i])
@loopiter 1
    vx_it
@loop 1
    invariant
        vx_it.iter.end == self.contexts@.len(),
        b_ok(self.vx()), vx_self.line_info@ == self.line_info@, vx_self.contexts@.len() == self.contexts@.len(),
        forall|i: int| 0 <= i < self.contexts@.len() ==> regs51((#[trigger] self.contexts@[i]).instruction) && jump_tight(self.contexts@[i]),
        forall|i: int| 0 <= i < context_index ==> (#[trigger] vx_self.contexts@[i]) == (InstructionContext { instruction: final_instruction(self.contexts@, i), ..self.contexts@[i] }),
        forall|i: int| 0 <= i < context_index ==> jump_small51((#[trigger] vx_self.contexts@[i]).instruction),
        forall|i: int| context_index <= i < self.contexts@.len() ==> (#[trigger] vx_self.contexts@[i]) == self.contexts@[i],
        stack_size(self.contexts@, context_index as int, *old(maximum_stack_size), settings.output.stack_limit) == Ok::<u8, LunifyError>(*maximum_stack_size),
@loopbegin 1
    proof {
        lemma_same_weights(self.vx(), vx_self.vx());
        lemma_jump_same(self.contexts@, vx_self.contexts@);
        lemma_stack_error(self.contexts@, context_index + 1, self.contexts@.len() as int, *old(maximum_stack_size), settings.output.stack_limit);
    }
@loopafter 1
    proof {
        assert forall|s: Seq<Ins>| (#[trigger] s.len()) == self.contexts@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == (#[trigger] vx_self.contexts@[i]).instruction)
            implies s == final_instructions(self.contexts@) && forall|i: int| 0 <= i < s.len() ==> jump_small51(#[trigger] s[i]) by {
            assert forall|i: int| 0 <= i < s.len() implies s[i] == final_instructions(self.contexts@)[i] && jump_small51(#[trigger] s[i]) by { assert(s[i] == vx_self.contexts@[i].instruction); }
            assert(s =~= final_instructions(self.contexts@));
        }
    }
@end
