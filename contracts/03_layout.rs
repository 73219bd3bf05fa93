/// Specification of instruction layouts and operands (C07, C08).
pub mod sp_layout {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// The biggest value that fits into `size` bits.
pub open spec fn maximum(size: u64) -> u64 { ((1u64 << size) - 1) as u64 }
pub open spec fn op(size: u64, position: u64) -> OperandLayout { OperandLayout { size, position, bit_mask: maximum(size) } }
pub open spec fn op_wf(o: OperandLayout) -> bool {
    &&& 1 <= o.size <= 62
    &&& o.position + o.size <= 64
    &&& o.bit_mask == maximum(o.size)
}
/// Two operands that share no bits.
pub open spec fn disjoint(x: OperandLayout, y: OperandLayout) -> bool {
    x.position + x.size <= y.position || y.position + y.size <= x.position
}
pub open spec fn layout_wf(l: InstructionLayout) -> bool {
    &&& op_wf(l.opcode) && op_wf(l.a) && op_wf(l.b) && op_wf(l.c) && op_wf(l.bx)
    &&& 6 <= l.opcode.size < 32 && 7 <= l.a.size < 32 && 8 <= l.b.size < 32 && 8 <= l.c.size < 32
    &&& disjoint(l.opcode, l.a) && disjoint(l.opcode, l.b) && disjoint(l.opcode, l.c)
    &&& disjoint(l.a, l.b) && disjoint(l.a, l.c) && disjoint(l.b, l.c)
    &&& l.b.position + l.b.size == l.c.position || l.c.position + l.c.size == l.b.position
    &&& l.bx.size == l.b.size + l.c.size
    &&& l.bx.position == (if l.b.position <= l.c.position { l.b.position } else { l.c.position })
    &&& l.signed_offset == maximum((l.bx.size - 1) as u64)
}
/// The value of an operand in an instruction word.
pub open spec fn op_get(o: OperandLayout, w: u64) -> u64 { (w >> o.position) & maximum(o.size) }
/// The bits of an operand, or an error if the value doesn't fit.
pub open spec fn op_put(o: OperandLayout, v: u64) -> Result<u64, LunifyError> {
    if v <= maximum(o.size) { Ok(v << o.position) } else { Err(LunifyError::ValueTooBigForOperand) }
}

// ------------------------------------------------------- specification (C08)

pub open spec fn kind(o: OperandType) -> int {
    match o { OperandType::Opcode(_) => 0, OperandType::A(_) => 1, OperandType::B(_) => 2, OperandType::C(_) => 3 }
}
pub open spec fn size(o: OperandType) -> u64 {
    match o { OperandType::Opcode(s) => s, OperandType::A(s) => s, OperandType::B(s) => s, OperandType::C(s) => s }
}
pub open spec fn size_allowed(o: OperandType) -> bool {
    match o { OperandType::Opcode(s) => 6 <= s < 32, OperandType::A(s) => 7 <= s < 32, OperandType::B(s) => 8 <= s < 32, OperandType::C(s) => 8 <= s < 32 }
}
/// Position of the operand at an index: all the operands in front of it.
pub open spec fn position(s: Seq<OperandType>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { position(s, n - 1) + size(s[n - 1]) } }
/// Every operand is there once, and its size is allowed.
pub open spec fn operands_ok(s: Seq<OperandType>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> size_allowed(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < n ==> kind(#[trigger] s[i]) != kind(#[trigger] s[j])
}
/// Where an operand of some kind is.
pub open spec fn find_kind(s: Seq<OperandType>, n: int, k: int) -> Option<OperandLayout>
    decreases n
{
    if n <= 0 { None }
    else if kind(s[n - 1]) == k { Some(op(size(s[n - 1]), position(s, n - 1) as u64)) }
    else { find_kind(s, n - 1, k) }
}
pub open spec fn adjacent(b: OperandLayout, c: OperandLayout) -> bool {
    b.position + b.size == c.position || c.position + c.size == b.position
}
/// C08: which specifications are accepted, and the layout that they result in.
pub open spec fn spec_layout(s: Seq<OperandType>) -> Result<InstructionLayout, LunifyError> {
    let opcode = find_kind(s, 4, 0)->0;
    let a = find_kind(s, 4, 1)->0;
    let b = find_kind(s, 4, 2)->0;
    let c = find_kind(s, 4, 3)->0;
    if operands_ok(s, 4) && position(s, 4) <= 64 && adjacent(b, c) {
        let bx = op((b.size + c.size) as u64, if b.position <= c.position { b.position } else { c.position });
        Ok(InstructionLayout { opcode, a, b, c, bx, signed_offset: maximum((bx.size - 1) as u64) as i64 })
    } else {
        Err(LunifyError::InvalidInstructionLayout)
    }
}

// ------------------------------------------------------------------ lemmas

pub proof fn lemma_maximum(s: u64)
    requires 1 <= s <= 63
    ensures
        maximum(s) == !0u64 >> ((64 - s) as u64), (1u64 << s) >= 2,
        maximum(s) + 1 == 1u64 << s,
        !0u64 == u64::MAX, maximum(s) == !(!0u64 << s),
        s <= 62 ==> (1i64 << s) == (1u64 << s),
        s >= 2 ==> maximum(s) >> 1u64 == maximum((s - 1) as u64) && maximum(s) / 2 == maximum((s - 1) as u64),
{
    assert(1 <= s <= 63 ==> (1u64 << s) >= 2) by (bit_vector);
    assert(1 <= s <= 63 ==> sub(1u64 << s, 1) == !0u64 >> sub(64, s)) by (bit_vector);
    assert(!0u64 == 0xffff_ffff_ffff_ffff) by (bit_vector);
    assert(s <= 62 ==> (1i64 << s) > 0 && (1i64 << s) as u64 == 1u64 << s) by (bit_vector);
    assert(1 <= s <= 63 ==> sub(1u64 << s, 1) == !(!0u64 << s)) by (bit_vector);
    if s >= 2 {
        assert(2 <= s <= 63 ==> sub(1u64 << s, 1) >> 1u64 == sub(1u64 << sub(s, 1), 1)) by (bit_vector);
        assert(2 <= s <= 63 ==> sub(1u64 << s, 1) / 2 == sub(1u64 << sub(s, 1), 1)) by (bit_vector);
    }
}
pub proof fn lemma_maximum_mono(s: u64, t: u64)
    requires 1 <= s <= t <= 63
    ensures maximum(s) <= maximum(t)
{
    lemma_maximum(s); lemma_maximum(t);
    assert(1 <= s <= t <= 63 ==> (1u64 << s) <= (1u64 << t)) by (bit_vector);
}
pub proof fn lemma_maximum_63(s: u64)
    requires 1 <= s <= 62
    ensures maximum(s) <= 0x3fff_ffff_ffff_ffff, s < 32 ==> maximum(s) <= 0x7fff_ffff
{
    lemma_maximum(s);
    assert(1 <= s <= 62 ==> (1u64 << s) <= 0x4000_0000_0000_0000) by (bit_vector);
    assert(1 <= s <= 31 ==> (1u64 << s) <= 0x8000_0000) by (bit_vector);
}
/// Different ways to see that a value fits into `s` bits at `p`.
pub proof fn lemma_fits(v: u64, s: u64, p: u64)
    requires 1 <= s <= 62, p + s <= 64
    ensures
        v <= maximum(s) <==> v & !maximum(s) == 0,
        v <= maximum(s) <==> v & maximum(s) == v, maximum(s) & v == v & maximum(s),
        v <= maximum(s) <==> v >> s == 0,
        v <= maximum(s) <==> v < 1u64 << s,
        v <= maximum(s) ==> (v << p) >> p == v && (v << p) & (maximum(s) << p) == v << p,
        (v >> p) & maximum(s) == (v & (maximum(s) << p)) >> p, maximum(s) & (v >> p) == (v >> p) & maximum(s),
        ((maximum(s) << p) & v) >> p == (v >> p) & maximum(s),
{
    lemma_maximum(s);
    let m = maximum(s);
    let b = 1u64 << s;
    assert(m == sub(b, 1));
    assert(v <= m <==> v & !m == 0) by(bit_vector) requires m == sub(1u64 << s, 1), 1 <= s <= 62;
    assert(v <= m <==> v & m == v) by(bit_vector) requires m == sub(1u64 << s, 1), 1 <= s <= 62;
    assert(m & v == v & m) by(bit_vector);
    assert(v <= m <==> v >> s == 0) by(bit_vector) requires m == sub(1u64 << s, 1), 1 <= s <= 62;
    assert(v <= m ==> (v << p) >> p == v && (v << p) & (m << p) == v << p) by(bit_vector) requires m == sub(1u64 << s, 1), 1 <= s <= 62, p <= sub(64, s);
    assert(m & (v >> p) == (v >> p) & m) by(bit_vector);
    assert(((m << p) & v) >> p == (v >> p) & m) by(bit_vector) requires m == sub(1u64 << s, 1), 1 <= s <= 62, p <= sub(64, s);
    assert((v >> p) & m == (v & (m << p)) >> p) by(bit_vector) requires m == sub(1u64 << s, 1), 1 <= s <= 62, p <= sub(64, s);
}
pub proof fn lemma_masked(v: u64, s: u64)
    requires 1 <= s <= 62
    ensures v <= maximum(s) ==> v & maximum(s) == v, v & maximum(s) <= maximum(s)
{
    lemma_maximum(s);
    assert(1 <= s <= 62 && v <= sub(1u64 << s, 1) ==> v & sub(1u64 << s, 1) == v) by (bit_vector);
    assert(v & sub(1u64 << s, 1) <= sub(1u64 << s, 1)) by (bit_vector);
}
/// An operand that is read always fits into the operand.
pub proof fn lemma_get_fits(o: OperandLayout, w: u64)
    requires op_wf(o)
    ensures op_get(o, w) <= maximum(o.size)
{ lemma_masked(w >> o.position, o.size); }

pub proof fn lemma_position_bound(s: Seq<OperandType>, n: int)
    requires 0 <= n <= 4, operands_ok(s, n)
    ensures 0 <= position(s, n) <= 31 * n
    decreases n
{ if n > 0 { lemma_position_bound(s, n - 1); } }
pub proof fn lemma_position_mono(s: Seq<OperandType>, i: int, n: int)
    requires 0 <= i < n <= 4, operands_ok(s, 4)
    ensures position(s, i) + size(s[i]) <= position(s, n)
    decreases n
{ if i < n - 1 { lemma_position_mono(s, i, n - 1); } }
pub proof fn lemma_find_kind(s: Seq<OperandType>, n: int, i: int)
    requires 0 <= i < n <= 4, operands_ok(s, n)
    ensures find_kind(s, n, kind(s[i])) == Some(op(size(s[i]), position(s, i) as u64))
    decreases n
{ if i < n - 1 { assert(kind(s[i]) != kind(s[n - 1])); lemma_find_kind(s, n - 1, i); } }
/// A kind that was not seen is not found.
pub proof fn lemma_find_none(s: Seq<OperandType>, n: int, k: int)
    requires 0 <= n
    ensures find_kind(s, n, k) is None <==> forall|i: int| 0 <= i < n ==> kind(#[trigger] s[i]) != k
    decreases n
{
    if n > 0 {
        lemma_find_none(s, n - 1, k);
        if find_kind(s, n, k) is None {
            assert forall|i: int| 0 <= i < n implies kind(#[trigger] s[i]) != k by { if i < n - 1 {} }
        } else if kind(s[n - 1]) == k { } else {
            assert(!(forall|i: int| 0 <= i < n - 1 ==> kind(#[trigger] s[i]) != k));
        }
    }
}
/// All kinds are there if there are four different ones.
pub proof fn lemma_all_kinds(s: Seq<OperandType>)
    requires operands_ok(s, 4)
    ensures
        find_kind(s, 4, 0) is Some, find_kind(s, 4, 1) is Some, find_kind(s, 4, 2) is Some, find_kind(s, 4, 3) is Some,
        position(s, 4) <= 64 && adjacent(find_kind(s, 4, 2)->0, find_kind(s, 4, 3)->0) ==> layout_wf(spec_layout(s)->Ok_0),
{
    assert(kind(s[0]) != kind(s[1]) && kind(s[0]) != kind(s[2]) && kind(s[0]) != kind(s[3]) && kind(s[1]) != kind(s[2]) && kind(s[1]) != kind(s[3]) && kind(s[2]) != kind(s[3]));
    lemma_find_kind(s, 4, 0); lemma_find_kind(s, 4, 1); lemma_find_kind(s, 4, 2); lemma_find_kind(s, 4, 3);
    assert(size_allowed(s[0]) && size_allowed(s[1]) && size_allowed(s[2]) && size_allowed(s[3]));
    lemma_position_bound(s, 4);
    reveal_with_fuel(position, 5);
    let b = find_kind(s, 4, 2)->0;
    let c = find_kind(s, 4, 3)->0;
    if position(s, 4) <= 64 && adjacent(b, c) {
        lemma_maximum_63((b.size + c.size - 1) as u64);
    }
}


pub proof fn lemma_signed_offset(l: InstructionLayout)
    requires layout_wf(l)
    ensures 0 <= l.signed_offset <= 0x1fff_ffff_ffff_ffff, maximum(l.bx.size) <= 0x3fff_ffff_ffff_ffff
{
    lemma_maximum_63(l.bx.size);
    lemma_maximum_63((l.bx.size - 1) as u64);
    lemma_maximum((l.bx.size - 1) as u64);
    let s = (l.bx.size - 1) as u64;
    assert(1 <= s <= 61 ==> (1u64 << s) <= 0x2000_0000_0000_0000) by (bit_vector);
}
pub proof fn lemma_negative_u64(n: i64)
    ensures n < 0 ==> (n as u64) >= 0x8000_0000_0000_0000
{ assert(n < 0 ==> (n as u64) >= 0x8000_0000_0000_0000u64) by (bit_vector); }
pub proof fn lemma_constant_bit(l: InstructionLayout)
    requires layout_wf(l)
    ensures 128 <= constant_bit(l) <= 0x4000_0000, constant_bit(l) == 1u64 << ((l.b.size - 1) as u64)
{
    let s = (l.b.size - 1) as u64;
    assert(7 <= s <= 30 ==> 128 <= (1u64 << s) <= 0x4000_0000) by (bit_vector);
}

}
