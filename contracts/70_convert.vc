@module function::convert
@fn convert
@props C15 C10 C13 C01 C12 C07 C06
@attr #[verifier::loop_isolation(false)]
@spec
    requires
        settings_wf(*settings), instructions@.len() <= 0x4000_0000,
        forall|i: int| 0 <= i < instructions@.len() ==> raw51(#[trigger] instructions@[i]),
    ensures
        match r {
            Ok((i, l)) => spec_convert(instructions@, line_info@, *old(maximum_stack_size), *settings) == Ok::<(Seq<Ins>, Seq<i64>, u8), LunifyError>((i@, l@, *final(maximum_stack_size))),
            Err(e) => spec_convert(instructions@, line_info@, *old(maximum_stack_size), *settings) == Err::<(Seq<Ins>, Seq<i64>, u8), LunifyError>(e),
        },
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.0@.len() ==> jump_small51(#[trigger] r->Ok_0.0@[i]),
@begin
    hide(b_set_list); hide(building); hide(last_raw); hide(can_set_list); hide(b_ok); hide(last_destination); hide(b_final); hide(raw51);
    broadcast use vstd::arithmetic::mul::lemma_mul_is_commutative;
    proof { assert forall|i: int| 0 <= i < instructions@.len() implies jump_small51(#[trigger] instructions@[i]) by { lemma_raw_small(instructions@[i]); } }
    let ghost vx_line_info = line_info@;
@loopiter 1
    vx_it
@loopbefore 1
    let ghost vx_i = instructions@;
    let ghost vx_l = lines(vx_line_info, vx_i.len() as int);
    proof { lemma_empty(); assert(line_info@ =~= vx_l); }
@loop 1
    invariant
        vx_it.seq().len() == vx_i.len(), forall|i: int| 0 <= i < vx_i.len() ==> #[trigger] vx_it.seq()[i] == (vx_i[i], vx_l[i]),
        convert_all(vx_i, vx_l, vx_it.index@, *settings) == Ok::<Bld, LunifyError>(builder.vx()),
        building(builder.vx(), vx_it.index@), last_raw(builder.vx()),
@loopbegin 1
    proof {
        assert(convert_all(vx_i, vx_l, vx_it.index@ + 1, *settings) == convert_one(b_line(builder.vx(), vx_l[vx_it.index@]), vx_i[vx_it.index@], *settings));
        assert(instruction == vx_i[vx_it.index@] && line_number == vx_l[vx_it.index@]);
        lemma_convert_one(builder.vx(), line_number, vx_it.index@, instruction, *settings);
        lemma_convert_error(vx_i, vx_l, vx_it.index@ + 1, vx_i.len() as int, *settings);
    }
@loopafter 1
    proof { lemma_finalize(builder.vx(), vx_i.len() as int); }
@end
@module function::upcast
@fn upcast
@props C09 C10 C11 C13 C14 C15 C01 C12 C06 C07
@attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@spec
    requires
        settings_wf(*settings), instructions@.len() <= 0x800_0000, old(constants)@.len() <= 0x2000_0000,
        forall|i: int| 0 <= i < instructions@.len() ==> raw50(#[trigger] instructions@[i]),
    ensures
        match r {
            Ok((i, l)) => spec_upcast(instructions@, line_info@, view_constants(old(constants)@), *old(maximum_stack_size), parameter_count, is_variadic, *settings)
                == Ok::<(Seq<Ins>, Seq<i64>, u8, Seq<Const>), LunifyError>((i@, l@, *final(maximum_stack_size), view_constants(final(constants)@))),
            Err(e) => spec_upcast(instructions@, line_info@, view_constants(old(constants)@), *old(maximum_stack_size), parameter_count, is_variadic, *settings)
                == Err::<(Seq<Ins>, Seq<i64>, u8, Seq<Const>), LunifyError>(e),
        },
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.0@.len() ==> jump_small51(#[trigger] r->Ok_0.0@[i]),
@begin
    hide(b_new); hide(b_extra); hide(b_insert); hide(b_fixed); hide(b_offset); hide(b_set_list); hide(building); hide(last_raw); hide(can_set_list); hide(b_ok); hide(b_final); hide(raw50); hide(adjusted); hide(fresh); hide(first); hide(interned);
    broadcast use lengths; broadcast use lemma_split;
    let ghost vx_line_info = line_info@;
    let ghost vx_k = view_constants(constants@);
    let ghost vx_final = *final(constants);
@loopiter 1
    vx_it
@loopbefore 1
    let ghost vx_i = instructions@;
    let ghost vx_l = lines(vx_line_info, vx_i.len() as int);
    proof { lemma_empty(); assert(line_info@ =~= vx_l); }
@loop 1
    invariant
        vx_it.seq().len() == vx_i.len(), forall|i: int| 0 <= i < vx_i.len() ==> #[trigger] vx_it.seq()[i] == (vx_i[i], vx_l[i]),
        up_all(vx_i, vx_l, vx_k, vx_it.index@, *settings) == Ok::<Up, LunifyError>(Up { b: builder.vx(), k: view_constants(constant_manager.constants@) }),
        building(builder.vx(), vx_it.index@), constant_manager.constants@.len() <= 0x2000_0000 + 5 * vx_it.index@,
        *final(constant_manager.constants) == vx_final,
@loopbegin 1
    let ghost vx_p = Up { b: b_line(builder.vx(), line_number), k: view_constants(constant_manager.constants@) };
    proof {
        assert(up_all(vx_i, vx_l, vx_k, vx_it.index@ + 1, *settings) == up_one(vx_p, vx_i[vx_it.index@], *settings));
        assert(instruction == vx_i[vx_it.index@] && line_number == vx_l[vx_it.index@]);
        lemma_up_one(Up { b: builder.vx(), k: vx_p.k }, line_number, vx_it.index@, instruction, *settings);
        lemma_up_error(vx_i, vx_l, vx_k, vx_it.index@ + 1, vx_i.len() as int, *settings);
    }
@loopiter 2
    vx_results
@loopbefore 2
    let ghost vx_b = builder.vx();
    proof { lemma_extras(vx_b, up_results(a, call_base as int, variable_count as int, 0), mov(0, 0)); }
@loop 2
    invariant
        builder.vx() == b_extras(vx_b, up_results(a, call_base as int, variable_count as int, vx_results.index@)),
@loopbegin 2
    proof { lemma_extras(vx_b, up_results(a, call_base as int, variable_count as int, vx_results.index@), mov(a + 2 + offset, call_base + offset)); }
@loopafter 1
    proof { lemma_variadic(builder.vx(), vx_i.len() as int, parameter_count); lemma_finalize(builder.vx(), vx_i.len() as int); lemma_finalize(variadic(builder.vx(), parameter_count), vx_i.len() as int); }
@end
