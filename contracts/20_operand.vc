@module function::instruction::operand::layout
@fn Default for OperandLayout::default
@props C08 C07
@ret r
@spec
    ensures r.size == 0, r.position == 0, r.bit_mask == 0
@fn OperandLayout::new
@props C08 C07 C17
@spec
    requires 1 <= size <= 63
    ensures r == op(size, position)
@begin
    proof { lemma_maximum(size); }
@fn OperandLayout::get
@props C01 C07 C08 C17
@spec
    requires op_wf(*self)
    ensures r == op_get(*self, value), r <= maximum(self.size)
@begin
    proof { lemma_get_fits(*self, value); lemma_fits(value, self.size, self.position); }
@fn OperandLayout::put
@props C01 C07 C08 C17
@spec
    requires op_wf(*self)
    ensures r == op_put(*self, value)
@begin
    proof { lemma_maximum(self.size); lemma_masked(value, self.size); lemma_fits(value, self.size, self.position); }
@fn InstructionLayout::from_specification
@props C01 C08 C07
@spec
    ensures r == spec_layout(specification@), r is Ok ==> layout_wf(r->Ok_0)
@begin
    proof { reveal_with_fuel(position, 5); reveal_with_fuel(find_kind, 5); }
@sub for operand in specification => for operand in vx_it: vx_array_into_vec(specification)
@loop 1
    invariant
        vx_it.seq() == specification@,
        operands_ok(specification@, vx_it.index@),
        offset == position(specification@, vx_it.index@),
        opcode == find_kind(specification@, vx_it.index@, 0),
        a == find_kind(specification@, vx_it.index@, 1),
        b == find_kind(specification@, vx_it.index@, 2),
        c == find_kind(specification@, vx_it.index@, 3),
@loopbegin 1
    proof {
        lemma_position_bound(specification@, vx_it.index@);
        lemma_find_none(specification@, vx_it.index@, kind(operand));
        if !operands_ok(specification@, vx_it.index@ + 1) { assert(!operands_ok(specification@, 4)) by { assert(operand == specification@[vx_it.index@]); } }
    }
@loopafter 1
    proof { lemma_position_bound(specification@, 4); lemma_all_kinds(specification@);
        if position(specification@, 4) <= 64 {
            let vx_size = (find_kind(specification@, 4, 2)->0.size + find_kind(specification@, 4, 3)->0.size) as u64;
            lemma_maximum(vx_size); lemma_maximum((vx_size - 1) as u64); lemma_maximum_63((vx_size - 1) as u64);
        } }
@end
