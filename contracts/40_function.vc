@module function
@fn Function::get_instructions
@props C07 C03 C01 C06 C17 C09
@attr #[verifier::loop_isolation(false)]
@headsub LuaInstruction + Debug => LuaInstruction
@spec
    requires stream_ok(old(byte_stream)), settings_wf(*settings), layout_wf(*layout)
    ensures reads(old(byte_stream), final(byte_stream), r, p_instructions::<T>(old(byte_stream).data@, old(byte_stream).offset as int, old(byte_stream).format, *settings, *layout), |x: Vec<T>| x@)
@begin
    hide(p_many); hide(p_function); hide(p_functions_n); hide(view_function);
    let ghost vx_d = byte_stream.data@; let ghost vx_f = byte_stream.format;
@loopiter 1
    vx_it
@loopbefore 1
    let ghost vx_o = byte_stream.offset as int; let ghost vx_n = instruction_count as usize as int;
    proof { lemma_many_empty(vx_o, instruction_item::<T>(vx_d, vx_f, *settings, *layout)); }
@loop 1
    invariant
        vx_it.iter.end == vx_n, stream_ok(byte_stream), byte_stream.data@ == vx_d, byte_stream.format == vx_f, settings_wf(*settings), layout_wf(*layout),
        p_many(vx_o, vx_it.index@, instruction_item::<T>(vx_d, vx_f, *settings, *layout)) == Ok::<(Seq<T>, int), LunifyError>((instructions@, byte_stream.offset as int)),
@loopbegin 1
    proof { lemma_many_step(vx_o, vx_it.index@, vx_n, instruction_item::<T>(vx_d, vx_f, *settings, *layout)); }
@fn Function::get_constants
@props C06 C05 C04 C03 C01 C17 C11 C16
@attr #[verifier::loop_isolation(false)]
@spec
    requires stream_ok(old(byte_stream))
    ensures reads(old(byte_stream), final(byte_stream), r, p_constants(old(byte_stream).data@, old(byte_stream).offset as int, old(byte_stream).format), |x: Vec<Constant>| view_constants(x@))
@begin
    hide(p_many); hide(p_function); hide(p_functions_n); hide(view_function);
    broadcast use lemma_view_constants_push;
    let ghost vx_d = byte_stream.data@; let ghost vx_f = byte_stream.format;
@loopiter 1
    vx_it
@loopbefore 1
    let ghost vx_o = byte_stream.offset as int; let ghost vx_n = constant_count as usize as int;
    proof { lemma_view_empty(); lemma_many_empty(vx_o, constant_item(vx_d, vx_f)); }
@loop 1
    invariant
        vx_it.iter.end == vx_n, stream_ok(byte_stream), byte_stream.data@ == vx_d, byte_stream.format == vx_f,
        p_many(vx_o, vx_it.index@, constant_item(vx_d, vx_f)) == Ok::<(Seq<Const>, int), LunifyError>((view_constants(constants@), byte_stream.offset as int)),
@loopbegin 1
    proof { lemma_many_step(vx_o, vx_it.index@, vx_n, constant_item(vx_d, vx_f)); }
@fn Function::get_functions
@props C06 C03 C01 C17
@attr #[verifier::loop_isolation(false)]
@spec
    requires stream_ok(old(byte_stream)), settings_wf(*settings), depth <= 200, old(byte_stream).data@.len() <= 0x2000_0000
    ensures reads(old(byte_stream), final(byte_stream), r, p_functions(old(byte_stream).data@, old(byte_stream).offset as int, old(byte_stream).format, version, *settings, depth as int), |x: Vec<Function>| view_functions(x@))
    decreases 2 * (201 - depth), 1int
@begin
    hide(p_many); hide(p_function); hide(p_functions_n); hide(p_functions); hide(view_function);
    broadcast use lemma_view_functions_push;
    let ghost vx_d = byte_stream.data@; let ghost vx_f = byte_stream.format;
    proof { lemma_functions_empty(vx_d, byte_stream.offset as int, vx_f, version, *settings, depth as int); }
@loopiter 1
    vx_it
@loopbefore 1
    let ghost vx_o = byte_stream.offset as int; let ghost vx_n = function_count as usize as int;
    proof { lemma_view_empty(); }
@loop 1
    invariant
        vx_it.iter.end == vx_n, stream_ok(byte_stream), byte_stream.data@ == vx_d, byte_stream.format == vx_f, settings_wf(*settings), depth <= 200, vx_d.len() <= 0x2000_0000,
        p_functions_n(vx_d, vx_o, vx_f, version, *settings, depth as int, vx_it.index@) == Ok::<(Seq<Fun>, int), LunifyError>((view_functions(functions@), byte_stream.offset as int)),
@loopbegin 1
    proof { lemma_functions_step(vx_d, vx_o, vx_f, version, *settings, depth as int, vx_it.index@, vx_n); }
@fn Function::get_local_variables
@props C06 C03 C01 C17 C05 C04
@attr #[verifier::loop_isolation(false)]
@spec
    requires stream_ok(old(byte_stream))
    ensures reads(old(byte_stream), final(byte_stream), r, p_locals(old(byte_stream).data@, old(byte_stream).offset as int, old(byte_stream).format), |x: Vec<LocalVariable>| view_locals(x@))
@begin
    hide(p_many); hide(p_function); hide(p_functions_n); hide(view_function);
    broadcast use lemma_view_locals_push;
    let ghost vx_d = byte_stream.data@; let ghost vx_f = byte_stream.format;
@loopiter 1
    vx_it
@loopbefore 1
    let ghost vx_o = byte_stream.offset as int; let ghost vx_n = local_variable_count as usize as int;
    proof { lemma_view_empty(); lemma_many_empty(vx_o, local_item(vx_d, vx_f)); }
@loop 1
    invariant
        vx_it.iter.end == vx_n, stream_ok(byte_stream), byte_stream.data@ == vx_d, byte_stream.format == vx_f,
        p_many(vx_o, vx_it.index@, local_item(vx_d, vx_f)) == Ok::<(Seq<Loc>, int), LunifyError>((view_locals(local_variables@), byte_stream.offset as int)),
@loopbegin 1
    proof { lemma_many_step(vx_o, vx_it.index@, vx_n, local_item(vx_d, vx_f)); }
@fn Function::get_line_info
@props C13 C06 C03 C01 C17 C05
@attr #[verifier::loop_isolation(false)]
@spec
    requires stream_ok(old(byte_stream))
    ensures reads(old(byte_stream), final(byte_stream), r, p_lines(old(byte_stream).data@, old(byte_stream).offset as int, old(byte_stream).format), |x: Vec<i64>| x@)
@begin
    hide(p_many); hide(p_function); hide(p_functions_n); hide(view_function);
    broadcast use lemma_view_locals_push;
    let ghost vx_d = byte_stream.data@; let ghost vx_f = byte_stream.format;
@loopiter 1
    vx_it
@loopbefore 1
    let ghost vx_o = byte_stream.offset as int; let ghost vx_n = line_info_count as usize as int;
    proof { lemma_view_empty(); lemma_many_empty(vx_o, integer_item(vx_d, vx_f)); }
@loop 1
    invariant
        vx_it.iter.end == vx_n, stream_ok(byte_stream), byte_stream.data@ == vx_d, byte_stream.format == vx_f,
        p_many(vx_o, vx_it.index@, integer_item(vx_d, vx_f)) == Ok::<(Seq<i64>, int), LunifyError>((line_info@, byte_stream.offset as int)),
@loopbegin 1
    proof { lemma_many_step(vx_o, vx_it.index@, vx_n, integer_item(vx_d, vx_f)); }
@fn Function::get_upvalues
@props C06 C04 C03 C01 C17
@attr #[verifier::loop_isolation(false)]
@spec
    requires stream_ok(old(byte_stream))
    ensures reads(old(byte_stream), final(byte_stream), r, p_upvalues(old(byte_stream).data@, old(byte_stream).offset as int, old(byte_stream).format), |x: Vec<String>| view_strings(x@))
@begin
    hide(p_many); hide(p_function); hide(p_functions_n); hide(view_function);
    broadcast use lemma_view_strings_push;
    let ghost vx_d = byte_stream.data@; let ghost vx_f = byte_stream.format;
@loopiter 1
    vx_it
@loopbefore 1
    let ghost vx_o = byte_stream.offset as int; let ghost vx_n = upvalue_count as usize as int;
    proof { lemma_view_empty(); lemma_many_empty(vx_o, string_item(vx_d, vx_f)); }
@loop 1
    invariant
        vx_it.iter.end == vx_n, stream_ok(byte_stream), byte_stream.data@ == vx_d, byte_stream.format == vx_f,
        p_many(vx_o, vx_it.index@, string_item(vx_d, vx_f)) == Ok::<(Seq<Seq<char>>, int), LunifyError>((view_strings(upvalues@), byte_stream.offset as int)),
@loopbegin 1
    proof { lemma_many_step(vx_o, vx_it.index@, vx_n, string_item(vx_d, vx_f)); }
@fn Function::strip_instructions
@props C07 C01 C13 C06 C17 C09
@headsub instructions : Vec < impl LuaInstruction > => instructions: Vec<T>
@headsub strip_instructions => strip_instructions<T: LuaInstruction>
@sub instructions . into_iter ( ) . map ( | instruction | $* ) . collect ( ) => { let vx_r = vx_try_map(instructions, |instruction: T| -> (vx_r: Result<u64, LunifyError>) requires settings_wf(*settings), instruction.vx_ok() ensures vx_r == instruction.vx_encode(*settings) { $* }); proof { lemma_encode_all(vx_i, vx_r, *settings); } vx_r }
@ret r
@spec
    requires settings_wf(*settings), forall|i: int| 0 <= i < instructions@.len() ==> (#[trigger] instructions@[i]).vx_ok()
    ensures encode_all(instructions@, instructions@.len() as int, *settings) == (match r { Ok(w) => Ok(w@), Err(e) => Err(e) })
@begin
    let ghost vx_i = instructions@;
@fn Function::from_byte_stream
@props C06 C14 C13 C03 C01 C04 C05 C11 C12 C15 C17 C07 C09 C10
@attr #[verifier::spinoff_prover]
@spec
    requires stream_ok(old(byte_stream)), settings_wf(*settings), depth <= 201, old(byte_stream).data@.len() <= 0x2000_0000
    ensures reads(old(byte_stream), final(byte_stream), r, p_function(old(byte_stream).data@, old(byte_stream).offset as int, old(byte_stream).format, version, *settings, depth as int), |x: Self| view_function(x))
    decreases 2 * (201 - depth) + 1, 0int
@begin
    hide(p_function); hide(p_functions); hide(p_list); hide(p_instructions); hide(p_constants); hide(view_function); hide(spec_convert); hide(spec_upcast); hide(encode_all); hide(raw51); hide(raw50); hide(p_string);
    broadcast use lemma_flags, lemma_view_function, lemma_instructions51, lemma_instructions50, lemma_constants_few, lemma_constants_len;
    proof { lemma_function_step(byte_stream.data@, byte_stream.offset as int, byte_stream.format, version, *settings, depth as int); }
@fn Function::write
@props C06 C04 C05 C03 C17 C07 C11 C12 C13 C14 C02 C01
@attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
@spec
    ensures writes(old(byte_writer), final(byte_writer), r, w_function(view_function(self), *old(byte_writer).format))
    decreases self
@begin
    hide(w_many); hide(w_function); hide(w_functions); hide(view_function); hide(w_string); hide(w_integer); hide(w_number); hide(w_instruction);
    broadcast use lemma_view_function, lemma_constants_len;
    let ghost vx_x = view_function(self); let ghost vx_f = *byte_writer.format; let ghost vx_data = byte_writer.data@; let ghost vx_self = self;
    proof { lemma_w_function_step(vx_x, vx_f);
        lemma_w_head(vx_data, w_string(vx_x.source, vx_f)->Ok_0, w_integer(vx_x.line_defined, vx_f)->Ok_0, w_integer(vx_x.last_line_defined, vx_f)->Ok_0, vx_x.upvalue_count, vx_x.parameter_count, vx_x.is_variadic, vx_x.maximum_stack_size); }
@loopiter 1
    vx_it1
@loopbefore 1
    let ghost vx_data1 = byte_writer.data@;
    proof { lemma_w_many_empty(vx_x.instructions, w_word_item(vx_f)); assert(vx_data1 =~= vx_data1 + Seq::<u8>::empty()); }
@loop 1
    invariant
        *byte_writer.format == vx_f, byte_writer.format == old(byte_writer).format, *old(byte_writer).format == vx_f, vx_self == self, vx_x == view_function(vx_self), vx_it1.seq().len() == vx_x.instructions.len(), forall|i: int| 0 <= i < vx_x.instructions.len() ==> vx_x.instructions[i] == (#[trigger] vx_it1.seq()[i]),
        w_many(vx_x.instructions, vx_it1.index@, w_word_item(vx_f)) is Ok, byte_writer.data@ == vx_data1 + w_many(vx_x.instructions, vx_it1.index@, w_word_item(vx_f))->Ok_0,
        w_integer(vx_x.instructions.len() as i64, vx_f) is Ok, w_head(vx_x, vx_f) is Ok, w_function(vx_x, vx_f) == w_part6(vx_x, vx_f),
@loopbegin 1
    let ghost vx_from1 = byte_writer.data@;
    proof { lemma_w_many_step(vx_x.instructions, vx_it1.index@, w_word_item(vx_f)); lemma_cat_assoc(vx_data1, w_many(vx_x.instructions, vx_it1.index@, w_word_item(vx_f))->Ok_0, w_word_item(vx_f)(vx_x.instructions[vx_it1.index@])->Ok_0); }
@loopafter 1
    proof { lemma_part(vx_data, w_head(vx_x, vx_f)->Ok_0, w_integer(vx_x.instructions.len() as i64, vx_f)->Ok_0, w_many(vx_x.instructions, vx_x.instructions.len() as int, w_word_item(vx_f))->Ok_0); }
@loopiter 2
    vx_it2
@loopbefore 2
    let ghost vx_data2 = byte_writer.data@;
    proof { lemma_w_many_empty(vx_x.constants, w_constant_item(vx_f)); assert(vx_data2 =~= vx_data2 + Seq::<u8>::empty()); }
@loop 2
    invariant
        *byte_writer.format == vx_f, byte_writer.format == old(byte_writer).format, *old(byte_writer).format == vx_f, vx_self == self, vx_x == view_function(vx_self), vx_it2.seq().len() == vx_x.constants.len(), forall|i: int| 0 <= i < vx_x.constants.len() ==> vx_x.constants[i] == view_constant((#[trigger] vx_it2.seq()[i])),
        w_many(vx_x.constants, vx_it2.index@, w_constant_item(vx_f)) is Ok, byte_writer.data@ == vx_data2 + w_many(vx_x.constants, vx_it2.index@, w_constant_item(vx_f))->Ok_0,
        w_integer(vx_x.constants.len() as i64, vx_f) is Ok, w_part1(vx_x, vx_f) is Ok, w_function(vx_x, vx_f) == w_part6(vx_x, vx_f),
@loopbegin 2
    let ghost vx_from2 = byte_writer.data@;
    proof { lemma_w_many_step(vx_x.constants, vx_it2.index@, w_constant_item(vx_f)); lemma_cat_assoc(vx_data2, w_many(vx_x.constants, vx_it2.index@, w_constant_item(vx_f))->Ok_0, w_constant_item(vx_f)(vx_x.constants[vx_it2.index@])->Ok_0);
        let vx_c = vx_x.constants[vx_it2.index@];
        lemma_w_constant(vx_from2, 0, 0, Seq::empty()); lemma_w_constant(vx_from2, 1, if vx_c->Boolean_0 { 1u8 } else { 0u8 }, Seq::empty());
        lemma_w_constant(vx_from2, 3, 0, w_number(vx_c->Number_0, vx_f)->Ok_0); lemma_w_constant(vx_from2, 4, 0, w_string(vx_c->String_0, vx_f)->Ok_0); }
@loopafter 2
    proof { lemma_part(vx_data, w_part1(vx_x, vx_f)->Ok_0, w_integer(vx_x.constants.len() as i64, vx_f)->Ok_0, w_many(vx_x.constants, vx_x.constants.len() as int, w_constant_item(vx_f))->Ok_0); }
@loopiter 3
    vx_it3
@loopbefore 3
    let ghost vx_data3 = byte_writer.data@;
    proof { lemma_w_functions_empty(vx_x, vx_f); assert(vx_data3 =~= vx_data3 + Seq::<u8>::empty()); }
@loop 3
    invariant
        *byte_writer.format == vx_f, byte_writer.format == old(byte_writer).format, *old(byte_writer).format == vx_f, vx_self == self, vx_x == view_function(vx_self), vx_it3.seq() == vx_self.functions@, vx_x.functions == view_functions(vx_self.functions@), vx_x.functions.len() == vx_self.functions@.len(),
        w_functions(vx_x, vx_it3.index@, vx_f) is Ok, byte_writer.data@ == vx_data3 + w_functions(vx_x, vx_it3.index@, vx_f)->Ok_0,
        w_integer(vx_x.functions.len() as i64, vx_f) is Ok, w_part2(vx_x, vx_f) is Ok, w_function(vx_x, vx_f) == w_part6(vx_x, vx_f),
@loopbegin 3
    let ghost vx_from3 = byte_writer.data@;
    proof { lemma_w_functions_step(vx_x, vx_it3.index@, vx_f); lemma_cat_assoc(vx_data3, w_functions(vx_x, vx_it3.index@, vx_f)->Ok_0, w_function(vx_x.functions[vx_it3.index@], vx_f)->Ok_0); }
@loopafter 3
    proof { lemma_part(vx_data, w_part2(vx_x, vx_f)->Ok_0, w_integer(vx_x.functions.len() as i64, vx_f)->Ok_0, w_functions(vx_x, vx_x.functions.len() as int, vx_f)->Ok_0); }
@loopiter 4
    vx_it4
@loopbefore 4
    let ghost vx_data4 = byte_writer.data@;
    proof { lemma_w_many_empty(vx_x.lines, w_line_item(vx_f)); assert(vx_data4 =~= vx_data4 + Seq::<u8>::empty()); }
@loop 4
    invariant
        *byte_writer.format == vx_f, byte_writer.format == old(byte_writer).format, *old(byte_writer).format == vx_f, vx_self == self, vx_x == view_function(vx_self), vx_it4.seq().len() == vx_x.lines.len(), forall|i: int| 0 <= i < vx_x.lines.len() ==> vx_x.lines[i] == (#[trigger] vx_it4.seq()[i]),
        w_many(vx_x.lines, vx_it4.index@, w_line_item(vx_f)) is Ok, byte_writer.data@ == vx_data4 + w_many(vx_x.lines, vx_it4.index@, w_line_item(vx_f))->Ok_0,
        w_integer(vx_x.lines.len() as i64, vx_f) is Ok, w_part3(vx_x, vx_f) is Ok, w_function(vx_x, vx_f) == w_part6(vx_x, vx_f),
@loopbegin 4
    let ghost vx_from4 = byte_writer.data@;
    proof { lemma_w_many_step(vx_x.lines, vx_it4.index@, w_line_item(vx_f)); lemma_cat_assoc(vx_data4, w_many(vx_x.lines, vx_it4.index@, w_line_item(vx_f))->Ok_0, w_line_item(vx_f)(vx_x.lines[vx_it4.index@])->Ok_0); }
@loopafter 4
    proof { lemma_part(vx_data, w_part3(vx_x, vx_f)->Ok_0, w_integer(vx_x.lines.len() as i64, vx_f)->Ok_0, w_many(vx_x.lines, vx_x.lines.len() as int, w_line_item(vx_f))->Ok_0); }
@loopiter 5
    vx_it5
@loopbefore 5
    let ghost vx_data5 = byte_writer.data@;
    proof { lemma_w_many_empty(vx_x.locals, w_local_item(vx_f)); assert(vx_data5 =~= vx_data5 + Seq::<u8>::empty()); }
@loop 5
    invariant
        *byte_writer.format == vx_f, byte_writer.format == old(byte_writer).format, *old(byte_writer).format == vx_f, vx_self == self, vx_x == view_function(vx_self), vx_it5.seq().len() == vx_x.locals.len(), forall|i: int| 0 <= i < vx_x.locals.len() ==> vx_x.locals[i] == view_local((#[trigger] vx_it5.seq()[i])),
        w_many(vx_x.locals, vx_it5.index@, w_local_item(vx_f)) is Ok, byte_writer.data@ == vx_data5 + w_many(vx_x.locals, vx_it5.index@, w_local_item(vx_f))->Ok_0,
        w_integer(vx_x.locals.len() as i64, vx_f) is Ok, w_part4(vx_x, vx_f) is Ok, w_function(vx_x, vx_f) == w_part6(vx_x, vx_f),
@loopbegin 5
    let ghost vx_from5 = byte_writer.data@;
    proof { lemma_w_many_step(vx_x.locals, vx_it5.index@, w_local_item(vx_f)); lemma_cat_assoc(vx_data5, w_many(vx_x.locals, vx_it5.index@, w_local_item(vx_f))->Ok_0, w_local_item(vx_f)(vx_x.locals[vx_it5.index@])->Ok_0);
        let vx_l = vx_x.locals[vx_it5.index@];
        lemma_w_local(vx_from5, w_string(vx_l.name, vx_f)->Ok_0, w_integer(vx_l.start, vx_f)->Ok_0, w_integer(vx_l.end, vx_f)->Ok_0); }
@loopafter 5
    proof { lemma_part(vx_data, w_part4(vx_x, vx_f)->Ok_0, w_integer(vx_x.locals.len() as i64, vx_f)->Ok_0, w_many(vx_x.locals, vx_x.locals.len() as int, w_local_item(vx_f))->Ok_0); }
@loopiter 6
    vx_it6
@loopbefore 6
    let ghost vx_data6 = byte_writer.data@;
    proof { lemma_w_many_empty(vx_x.upvalues, w_string_item(vx_f)); assert(vx_data6 =~= vx_data6 + Seq::<u8>::empty()); }
@loop 6
    invariant
        *byte_writer.format == vx_f, byte_writer.format == old(byte_writer).format, *old(byte_writer).format == vx_f, vx_self == self, vx_x == view_function(vx_self), vx_it6.seq().len() == vx_x.upvalues.len(), forall|i: int| 0 <= i < vx_x.upvalues.len() ==> vx_x.upvalues[i] == (#[trigger] vx_it6.seq()[i])@,
        w_many(vx_x.upvalues, vx_it6.index@, w_string_item(vx_f)) is Ok, byte_writer.data@ == vx_data6 + w_many(vx_x.upvalues, vx_it6.index@, w_string_item(vx_f))->Ok_0,
        w_integer(vx_x.upvalues.len() as i64, vx_f) is Ok, w_part5(vx_x, vx_f) is Ok, w_function(vx_x, vx_f) == w_part6(vx_x, vx_f),
@loopbegin 6
    let ghost vx_from6 = byte_writer.data@;
    proof { lemma_w_many_step(vx_x.upvalues, vx_it6.index@, w_string_item(vx_f)); lemma_cat_assoc(vx_data6, w_many(vx_x.upvalues, vx_it6.index@, w_string_item(vx_f))->Ok_0, w_string_item(vx_f)(vx_x.upvalues[vx_it6.index@])->Ok_0); }
@loopafter 6
    proof { lemma_part(vx_data, w_part5(vx_x, vx_f)->Ok_0, w_integer(vx_x.upvalues.len() as i64, vx_f)->Ok_0, w_many(vx_x.upvalues, vx_x.upvalues.len() as int, w_string_item(vx_f))->Ok_0); }
@end
