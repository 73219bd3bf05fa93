/// Specification of the list of converted instructions (C09, C10, C12, C13, C15).
pub mod sp_builder {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::builder::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

pub type Ctx = InstructionContext;
pub type Ins = lua51::Instruction;
/// Contents of a builder: instructions, line information and current line.
#[verifier::ext_equal]
pub struct Bld { pub c: Seq<Ctx>, pub l: Seq<i64>, pub n: i64 }

/// An instruction that replaces an instruction of the input, and one that was
/// added to it.
pub open spec fn ctx_new(i: Ins) -> Ctx { InstructionContext { instruction: i, line_weight: 0, final_offset: 0, is_fixed: false } }
pub open spec fn ctx_extra(i: Ins) -> Ctx { InstructionContext { instruction: i, line_weight: 1, final_offset: 0, is_fixed: false } }
pub open spec fn b_empty() -> Bld { Bld { c: Seq::empty(), l: Seq::empty(), n: 0 } }
pub open spec fn b_line(b: Bld, n: i64) -> Bld { Bld { n, ..b } }
pub open spec fn b_push(b: Bld, c: Ctx) -> Bld { Bld { c: b.c.push(c), l: b.l.push(b.n), n: b.n } }
pub open spec fn b_new(b: Bld, i: Ins) -> Bld { b_push(b, ctx_new(i)) }
pub open spec fn b_extra(b: Bld, i: Ins) -> Bld { b_push(b, ctx_extra(i)) }
/// C13: an inserted instruction gets the line of the one it is inserted in front of.
pub open spec fn b_insert(b: Bld, at: int, i: Ins) -> Bld {
    Bld { c: b.c.insert(at, ctx_extra(i)), l: b.l.insert(at, if at < b.l.len() { b.l[at] } else { b.n }), n: b.n }
}
/// The instruction behind a removed one takes over its weight, so that jumps to
/// the removed instruction land on it.
pub open spec fn b_remove(b: Bld, at: int) -> Bld {
    let c = b.c.remove(at);
    Bld { c: c.update(at, InstructionContext { line_weight: (c[at].line_weight + b.c[at].line_weight - 1) as i64, ..c[at] }), l: b.l.remove(at), n: b.n }
}
pub open spec fn b_update_last(b: Bld, c: Ctx) -> Bld { Bld { c: b.c.update(b.c.len() - 1, c), ..b } }
pub open spec fn b_fixed(b: Bld) -> Bld { b_update_last(b, InstructionContext { is_fixed: true, ..b.c.last() }) }
pub open spec fn b_offset(b: Bld, o: i64) -> Bld { b_update_last(b, InstructionContext { final_offset: o, ..b.c.last() }) }

// ------------------------------------------------------------ weights, jumps

/// Number of input instructions that the first `n` instructions stand for.
pub open spec fn units(c: Seq<Ctx>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { units(c, n - 1) + 1 - c[n - 1].line_weight } }
/// Weights are at most 1, and there are not more units than fit in the input.
pub open spec fn b_ok(b: Bld) -> bool {
    &&& b.c.len() == b.l.len()
    &&& units(b.c, b.c.len() as int) <= 0x100_0000_0000
    &&& forall|i: int| 0 <= i < b.c.len() ==> (#[trigger] b.c[i]).line_weight <= 1
}
/// Number of instructions from `i` on that `steps` input instructions became.
pub open spec fn forward(c: Seq<Ctx>, i: int, steps: int) -> int
    decreases c.len() - i
{ if steps <= 0 { 0 } else if i < 0 || i >= c.len() { steps } else { 1 + forward(c, i + 1, steps + c[i].line_weight - 1) } }
/// Number of instructions up to `i` that `steps` input instructions became.
pub open spec fn backward(c: Seq<Ctx>, i: int, steps: int) -> int
    decreases i + 1
{ if steps <= 0 { 0 } else if i < 0 || i >= c.len() { steps } else { 1 + backward(c, i - 1, steps + c[i].line_weight - 1) } }
/// The distance of a jump, and the distance in the converted function.
pub open spec fn tight(d: int) -> bool { -0x2000_0000_0000_0000 <= d <= 0x2000_0000_0000_0000 }
pub open spec fn jump(c: Seq<Ctx>, at: int, d: int, offset: int) -> int {
    if d >= 0 { forward(c, at + 1, d + 1) - 1 + offset } else { offset - backward(c, at, -d) }
}
pub open spec fn adjusted(b: Bld, d: int) -> Result<int, LunifyError> {
    if d >= 0 { Err(LunifyError::UnexpectedForwardJump) }
    else {
        let t = b.c.len() + jump(b.c, b.c.len() - 1, d, 0);
        if t < 0 { Err(LunifyError::InvalidJumpDestination) } else { Ok(t) }
    }
}

// ------------------------------------------------------------------- SETLIST

pub open spec fn is_setup(i: Ins, a: u64) -> bool {
    match i { lua51::Instruction::NewTable { a: t, .. } => t == a, lua51::Instruction::SetList { a: t, .. } => t == a, _ => false }
}
/// Index of the last of the first `n` instructions that created the table in A
/// or stored elements in it.
pub open spec fn setup(c: Seq<Ctx>, a: u64, n: int) -> Option<int>
    decreases n
{ if n <= 0 { None } else if is_setup(c[n - 1].instruction, a) { Some(n - 1) } else { setup(c, a, n - 1) } }
pub open spec fn is_pseudo(i: Ins) -> bool {
    match i { lua51::Instruction::Move { a: 0, .. } => true, lua51::Instruction::GetUpValue { a: 0, .. } => true, _ => false }
}
/// The instruction behind the pseudo instructions of a `CLOSURE`.
pub open spec fn behind_pseudo(c: Seq<Ctx>, i: int) -> int
    decreases c.len() - i
{ if i < c.len() && is_pseudo(c[i].instruction) { behind_pseudo(c, i + 1) } else { i } }
/// Index behind the last of the instructions `start..n` that writes one of the
/// stack positions first..=last, if it doesn't write beyond them.
pub open spec fn end_of_elements(c: Seq<Ctx>, start: int, first: u64, last: u64, n: int) -> Option<int>
    decreases n
{
    if n <= start || n <= 0 { None } else {
        match destination51(c[n - 1].instruction) {
            Some(d) => if first <= d.start <= last {
                    if d.end > last { None }
                    else if c[n - 1].instruction is Closure { Some(behind_pseudo(c, n)) }
                    else { Some(n) }
                } else { end_of_elements(c, start, first, last, n - 1) },
            None => end_of_elements(c, start, first, last, n - 1),
        }
    }
}
/// Stack accesses of the instructions from..to moved.
pub open spec fn b_move(b: Bld, from: int, to: int, start: u64, offset: i64) -> Bld {
    Bld { c: Seq::new(b.c.len(), |i: int| if from <= i < to { InstructionContext { instruction: moved51(b.c[i].instruction, start, offset), ..b.c[i] } } else { b.c[i] }), ..b }
}
pub open spec fn list(a: u64, b: u64, c: u64) -> Ins { lua51::Instruction::SetList { a, mode: BC(Generic(b), Generic(c)) } }
/// A `SETLIST` takes the weight of the instruction it is inserted in front of.
pub open spec fn b_insert_list(b: Bld, at: int, i: Ins) -> Bld {
    let n = b_insert(b, at, i);
    if at + 1 < n.c.len() {
        Bld { c: n.c.update(at, InstructionContext { line_weight: n.c[at + 1].line_weight, ..n.c[at] })
                    .update(at + 1, InstructionContext { line_weight: 1, ..n.c[at + 1] }), ..n }
    } else { n }
}
/// State of the repagination: instructions, start of the elements that are not
/// stored yet, page that the next one of them goes to and how many positions
/// their values have to be moved.
pub struct Pages { pub b: Bld, pub start: int, pub page: int, pub offset: int }
/// Elements that were stored by the previous `SETLIST` but don't fill a page
/// are stored again.
pub open spec fn pages_start(b: Bld, a: u64, stored: u64, f: u64) -> Option<Pages> {
    match setup(b.c, a, b.c.len() - 1) {
        None => None,
        Some(k) => Some(match b.c[k].instruction {
            lua51::Instruction::SetList { mode, .. } =>
                if mode.0.0 % f != 0 { Pages { b: b_remove(b, k), start: k, page: mode.1.0 as int, offset: mode.0.0 as int } }
                else { Pages { b, start: k + 1, page: mode.1.0 + mode.0.0 / f, offset: 0 } },
            _ => Pages { b, start: k + 1, page: stored / f + 1, offset: (stored % f) as int },
        }),
    }
}
/// Store as many full pages as possible.
pub open spec fn last_position(a: u64, f: u64, offset: int) -> u64 { let p = a + f - offset; if p < 0 { 0 } else { p as u64 } }
pub open spec fn pages_loop(p: Pages, a: u64, pending: u64, f: u64) -> Pages
    decreases pending + p.offset
{
    if pending + p.offset <= f || f == 0 { p } else {
        match end_of_elements(p.b.c, p.start, (a + 1) as u64, last_position(a, f, p.offset), p.b.c.len() as int) {
            None => p,
            Some(end) => pages_loop(Pages {
                b: b_insert_list(b_move(p.b, p.start, end, (a + 1) as u64, p.offset as i64), end, list(a, f, p.page as u64)),
                start: end + 1, page: p.page + 1, offset: p.offset - f,
            }, a, pending, f),
        }
    }
}
pub open spec fn b_set_list(b: Bld, a: u64, stored: u64, pending: u64, open: bool, f: u64) -> Bld {
    match pages_start(b, a, stored, f) {
        None => b_new(b, list(a, if open { 0 } else { (pending + stored % f) as u64 }, (stored / f + 1) as u64)),
        Some(p) => {
            let p = pages_loop(p, a, pending, f);
            b_new(b_move(p.b, p.start, p.b.c.len() as int, (a + 1) as u64, p.offset as i64), list(a, if open { 0 } else { (pending + p.offset) as u64 }, p.page as u64))
        },
    }
}

/// First stack position that the last instruction writes to.
pub open spec fn last_destination(c: Seq<Ctx>) -> u64 {
    if c.len() == 0 { 0 } else { match destination51(c.last().instruction) { Some(d) => d.start, None => 0 } }
}

// -------------------------------------------------------------------- result

/// C12: the stack covers every position that is written to.
pub open spec fn stack_size(c: Seq<Ctx>, n: int, m: u8, limit: u64) -> Result<u8, LunifyError>
    decreases n
{
    if n <= 0 { Ok(m) } else {
        match stack_size(c, n - 1, m, limit) {
            Err(e) => Err(e),
            Ok(m) => match destination51(c[n - 1].instruction) {
                None => Ok(m),
                Some(d) => if d.end + 1 <= limit && d.end + 1 <= 255 { Ok(if d.end + 1 > m { (d.end + 1) as u8 } else { m }) }
                    else { Err(LunifyError::StackTooLarge((d.end + 1) as u64)) },
            },
        }
    }
}
/// C10: jumps are adjusted to the instructions that were added and removed.
pub open spec fn final_instruction(c: Seq<Ctx>, i: int) -> Ins {
    if c[i].is_fixed { c[i].instruction } else {
        match c[i].instruction {
            lua51::Instruction::Jump { a, mode } => lua51::Instruction::Jump { a, mode: SignedBx(jump(c, i, mode.0 as int, c[i].final_offset as int) as i64) },
            lua51::Instruction::ForLoop { a, mode } => lua51::Instruction::ForLoop { a, mode: SignedBx(jump(c, i, mode.0 as int, c[i].final_offset as int) as i64) },
            lua51::Instruction::ForPrep { a, mode } => lua51::Instruction::ForPrep { a, mode: SignedBx(jump(c, i, mode.0 as int, c[i].final_offset as int) as i64) },
            i => i,
        }
    }
}
pub open spec fn final_instructions(c: Seq<Ctx>) -> Seq<Ins> { Seq::new(c.len(), |i: int| final_instruction(c, i)) }
pub open spec fn b_final(b: Bld, m: u8, limit: u64) -> Result<(Seq<Ins>, Seq<i64>, u8), LunifyError> {
    match stack_size(b.c, b.c.len() as int, m, limit) {
        Ok(m) => Ok((final_instructions(b.c), b.l, m)),
        Err(e) => Err(e),
    }
}

// -------------------------------------------------------------------- bounds
// An instruction may be moved by every SETLIST, so that its stack positions
// could grow without bound. They don't, because moving them by B removes a
// SETLIST with B elements in front of them.

/// Number of elements of a `SETLIST`.
pub open spec fn listed(i: Ins) -> int { match i { lua51::Instruction::SetList { mode, .. } => mode.0.0 as int, _ => 0 } }
/// ... of all of the first `n` instructions.
pub open spec fn listed_before(c: Seq<Ctx>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { listed_before(c, n - 1) + listed(c[n - 1].instruction) } }
pub open spec fn highest(i: Ins) -> int { if upper51(i) > a51(i) { upper51(i) as int } else { a51(i) as int } }
/// The parts of an instruction that a move doesn't change.
pub open spec fn calm(c: Ctx, k: int) -> bool { calm_instruction(c.instruction, c.final_offset, k) }
pub open spec fn calm_instruction(i: Ins, offset: i64, k: int) -> bool { extent51(i) <= 0x1_0000_0000 && page_bounded(i, k) && tight_instruction(i, offset) }
/// Every stack position, and the elements that were stored in front of it, are
/// below a bound.
pub open spec fn bounded(c: Seq<Ctx>, m: int, k: int) -> bool {
    &&& listed_before(c, c.len() as int) + 0x1_0000_0000 <= m && 0 <= k
    &&& forall|i: int| 0 <= i < c.len() ==> highest((#[trigger] c[i]).instruction) + listed_before(c, i) <= m && calm(c[i], k)
}
pub open spec fn page_bounded(i: Ins, k: int) -> bool { match i { lua51::Instruction::SetList { mode, .. } => mode.1.0 + mode.0.0 <= k, _ => true } }
/// ... while elements are repaginated.
pub open spec fn pages_ok(p: Pages, pending: int, f: int, m: int, k: int) -> bool {
    let c = p.b.c;
    &&& b_ok(p.b)
    &&& 0 <= p.start <= c.len() && p.page >= 0 && p.page + p.offset <= k && -p.offset <= pending && p.offset <= k
    &&& listed_before(c, c.len() as int) + p.offset + 0x1_0000_0000 <= m + f
    &&& forall|i: int| 0 <= i < c.len() ==> calm(#[trigger] c[i], k + pending)
    &&& forall|i: int| 0 <= i < p.start ==> highest((#[trigger] c[i]).instruction) + listed_before(c, i) <= m + f + pending
    &&& forall|i: int| p.start <= i < c.len() ==> highest((#[trigger] c[i]).instruction) + listed_before(c, i) <= m + f - p.offset
}
pub open spec fn larger(x: int, y: int) -> int { if x > y { x } else { y } }
pub open spec fn jump_tight(c: Ctx) -> bool { tight_instruction(c.instruction, c.final_offset) }
pub open spec fn tight_instruction(i: Ins, offset: i64) -> bool {
    &&& -2 <= offset <= 2
    &&& match i {
        lua51::Instruction::Jump { mode, .. } => tight(mode.0 as int),
        lua51::Instruction::ForLoop { mode, .. } => tight(mode.0 as int),
        lua51::Instruction::ForPrep { mode, .. } => tight(mode.0 as int),
        _ => true,
    }
}

// -------------------------------------------------------------------- lemmas

pub proof fn lemma_units(c: Seq<Ctx>, i: int, n: int)
    requires 0 <= i <= n <= c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).line_weight <= 1
    ensures 0 <= units(c, i) <= units(c, n)
    decreases n
{ if i < n { lemma_units(c, i, n - 1); } else if n > 0 { lemma_units(c, n - 1, n - 1); } }
pub proof fn lemma_weight(b: Bld, i: int)
    requires b_ok(b), 0 <= i < b.c.len()
    ensures -0x100_0000_0000 <= b.c[i].line_weight <= 1
{ lemma_units(b.c, 0, i); lemma_units(b.c, i + 1, b.c.len() as int); }
pub proof fn lemma_units_same(c: Seq<Ctx>, d: Seq<Ctx>, n: int)
    requires n <= c.len(), n <= d.len(), forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).line_weight == d[i].line_weight
    ensures units(c, n) == units(d, n)
    decreases n
{ if n > 0 { lemma_units_same(c, d, n - 1); } }
pub proof fn lemma_units_push(c: Seq<Ctx>, x: Ctx)
    ensures units(c.push(x), (c.len() + 1) as int) == units(c, c.len() as int) + 1 - x.line_weight
{ lemma_units_same(c, c.push(x), c.len() as int); }
pub proof fn lemma_units_insert(c: Seq<Ctx>, at: int, x: Ctx, n: int)
    requires 0 <= at <= n <= c.len()
    ensures units(c.insert(at, x), n + 1) == units(c, n) + 1 - x.line_weight
    decreases n
{
    if n > at { lemma_units_insert(c, at, x, n - 1); assert(c.insert(at, x)[n] == c[n - 1]); }
    else { lemma_units_same(c, c.insert(at, x), n); assert(c.insert(at, x)[at] == x); }
}
pub proof fn lemma_units_remove(b: Bld, at: int, n: int)
    requires b_ok(b), 0 <= at < n < b.c.len()
    ensures units(b_remove(b, at).c, n) == units(b.c, n + 1),
    decreases n
{
    let d = b_remove(b, at).c;
    lemma_weight(b, at); lemma_weight(b, at + 1);
    if n > at + 1 { lemma_units_remove(b, at, n - 1); assert(d[n - 1] == b.c[n]); }
    else { lemma_units_same(b.c, d, at); assert(b.c.remove(at)[at] == b.c[at + 1]); reveal_with_fuel(units, 3); }
}

pub open spec fn same_weights(c: Seq<Ctx>, d: Seq<Ctx>) -> bool {
    c.len() == d.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).line_weight == d[i].line_weight
}
pub proof fn lemma_same_weights(b: Bld, d: Bld)
    requires b_ok(b), same_weights(b.c, d.c), d.l.len() == b.l.len()
    ensures b_ok(d)
{ lemma_units_same(b.c, d.c, b.c.len() as int); assert forall|i: int| 0 <= i < d.c.len() implies (#[trigger] d.c[i]).line_weight <= 1 by { assert(b.c[i].line_weight <= 1); } }
pub proof fn lemma_forward_same(c: Seq<Ctx>, d: Seq<Ctx>, i: int, steps: int)
    requires same_weights(c, d)
    ensures forward(c, i, steps) == forward(d, i, steps)
    decreases c.len() - i
{ if steps > 0 && 0 <= i < c.len() { lemma_forward_same(c, d, i + 1, steps + c[i].line_weight - 1); } }
pub proof fn lemma_backward_same(c: Seq<Ctx>, d: Seq<Ctx>, i: int, steps: int)
    requires same_weights(c, d)
    ensures backward(c, i, steps) == backward(d, i, steps)
    decreases i + 1
{ if steps > 0 && 0 <= i < c.len() { lemma_backward_same(c, d, i - 1, steps + c[i].line_weight - 1); } }
pub proof fn lemma_jump_same(c: Seq<Ctx>, d: Seq<Ctx>)
    requires same_weights(c, d)
    ensures forall|at: int, t: int, o: int| jump(c, at, t, o) == #[trigger] jump(d, at, t, o)
{
    assert forall|at: int, t: int, o: int| jump(c, at, t, o) == #[trigger] jump(d, at, t, o) by { lemma_forward_same(c, d, at + 1, t + 1); lemma_backward_same(c, d, at, -t); }
}
pub proof fn lemma_stack_error(c: Seq<Ctx>, n: int, k: int, m: u8, limit: u64)
    requires n <= k
    ensures stack_size(c, n, m, limit) is Err ==> stack_size(c, k, m, limit) == stack_size(c, n, m, limit)
    decreases k - n
{ if n < k { lemma_stack_error(c, n, k - 1, m, limit); } }

pub proof fn lemma_listed_same(c: Seq<Ctx>, d: Seq<Ctx>, n: int)
    requires n <= c.len(), n <= d.len(), forall|i: int| 0 <= i < n ==> listed((#[trigger] c[i]).instruction) == listed(d[i].instruction)
    ensures listed_before(c, n) == listed_before(d, n)
    decreases n
{ if n > 0 { lemma_listed_same(c, d, n - 1); } }
pub proof fn lemma_listed_more(c: Seq<Ctx>, i: int, n: int)
    requires 0 <= i <= n <= c.len()
    ensures 0 <= listed_before(c, i) <= listed_before(c, n)
    decreases n
{ if i < n { lemma_listed_more(c, i, n - 1); } else if n > 0 { lemma_listed_more(c, n - 1, n - 1); } }
pub proof fn lemma_listed_insert(c: Seq<Ctx>, d: Seq<Ctx>, at: int, n: int)
    requires 0 <= at <= c.len(), 0 <= n <= d.len(), d.len() == c.len() + 1,
        forall|i: int| 0 <= i < at ==> (#[trigger] d[i]).instruction == c[i].instruction,
        forall|i: int| at < i < d.len() ==> (#[trigger] d[i]).instruction == c[i - 1].instruction,
    ensures listed_before(d, n) == (if n <= at { listed_before(c, n) } else { listed_before(c, n - 1) + listed(d[at].instruction) })
    decreases n
{ if n > 0 { lemma_listed_insert(c, d, at, n - 1); } }

/// Moving an instruction doesn't change more than its stack positions.
pub proof fn lemma_moved(c: Ctx, start: u64, offset: i64)
    ensures ({
        let d = InstructionContext { instruction: moved51(c.instruction, start, offset), ..c };
        &&& listed(d.instruction) == listed(c.instruction) && forall|k: int| calm(c, k) ==> #[trigger] calm(d, k)
        &&& highest(d.instruction) <= (if offset >= 0 { highest(c.instruction) + offset } else { larger(start as int, highest(c.instruction) + offset) })
    })
{
    lemma_moved_highest(c.instruction, start, offset);
    lemma_moved_parts(c.instruction, start, offset);
    let d = InstructionContext { instruction: moved51(c.instruction, start, offset), ..c };
    assert forall|k: int| calm(c, k) implies #[trigger] calm(d, k) by { lemma_moved_calm(c.instruction, start, offset, c.final_offset, k); }
}
proof fn lemma_moved_highest(i: Ins, start: u64, offset: i64)
    ensures highest(moved51(i, start, offset)) <= (if offset >= 0 { highest(i) + offset } else { larger(start as int, highest(i) + offset) })
{}
proof fn lemma_moved_parts(i: Ins, start: u64, offset: i64)
    ensures listed(moved51(i, start, offset)) == listed(i), extent51(moved51(i, start, offset)) == extent51(i)
{}
proof fn lemma_moved_calm(i: Ins, start: u64, offset: i64, o: i64, k: int)
    requires calm_instruction(i, o, k)
    ensures calm_instruction(moved51(i, start, offset), o, k)
{ lemma_moved_parts(i, start, offset); }
pub proof fn lemma_move(b: Bld, from: int, to: int, start: u64, offset: i64)
    requires b_ok(b)
    ensures b_ok(b_move(b, from, to, start, offset)),
        forall|n: int| n <= b.c.len() ==> listed_before(b_move(b, from, to, start, offset).c, n) == #[trigger] listed_before(b.c, n),
        units(b_move(b, from, to, start, offset).c, b.c.len() as int) == units(b.c, b.c.len() as int),
{
    let d = b_move(b, from, to, start, offset);
    lemma_same_weights(b, d);
    lemma_units_same(b.c, d.c, b.c.len() as int);
    assert forall|i: int| 0 <= i < b.c.len() implies listed((#[trigger] b.c[i]).instruction) == listed(d.c[i].instruction) by { lemma_moved(b.c[i], start, offset); }
    assert forall|n: int| n <= b.c.len() implies listed_before(d.c, n) == #[trigger] listed_before(b.c, n) by { lemma_listed_same(b.c, d.c, n); }
}
pub proof fn lemma_units_insert_list(b: Bld, at: int, i: Ins, n: int)
    requires 0 <= at <= b.c.len(), at <= n <= b.c.len()
    ensures ({ let d = b_insert_list(b, at, i).c; d.len() == b.c.len() + 1 && (n > at ==> units(d, n + 1) == units(b.c, n)) && (n == at == b.c.len() ==> units(d, n + 1) == units(b.c, n)) })
    decreases n
{
    let d = b_insert_list(b, at, i).c;
    lemma_units_same(b.c, d, at);
    if n > at + 1 { lemma_units_insert_list(b, at, i, n - 1); assert(d[n] == b.c[n - 1]); }
    else { reveal_with_fuel(units, 3); if n > at { assert(d[at].line_weight == b.c[at].line_weight); assert(d[at + 1].line_weight == 1); assert(units(d, at + 2) == units(d, at + 1)); assert(units(d, at + 1) == units(b.c, at) + 1 - b.c[at].line_weight); } }
}
pub proof fn lemma_insert_list(b: Bld, at: int, i: Ins)
    requires b_ok(b), 0 <= at <= b.c.len()
    ensures ({
        let d = b_insert_list(b, at, i);
        &&& d.c.len() == b.c.len() + 1 && d.l.len() == b.l.len() + 1 && units(d.c, d.c.len() as int) == units(b.c, b.c.len() as int)
        &&& forall|j: int| 0 <= j < d.c.len() ==> (#[trigger] d.c[j]).line_weight <= 1
        &&& forall|j: int| 0 <= j < d.c.len() ==> (#[trigger] d.c[j]).instruction == (if j < at { b.c[j].instruction } else if j == at { i } else { b.c[j - 1].instruction })
        &&& forall|j: int| 0 <= j < d.c.len() ==> (#[trigger] d.c[j]).final_offset == (if j < at { b.c[j].final_offset } else if j == at { 0 } else { b.c[j - 1].final_offset })
    })
{
    lemma_units_insert_list(b, at, i, b.c.len() as int);
    let d = b_insert_list(b, at, i);
    assert forall|j: int| 0 <= j < d.c.len() implies (#[trigger] d.c[j]).line_weight <= 1 by {
        if j < at { assert(b.c[j].line_weight <= 1); } else if j == at { if at < b.c.len() { assert(b.c[at].line_weight <= 1); } } else { assert(b.c[j - 1].line_weight <= 1); }
    }
}
pub proof fn lemma_list(a: u64, b: u64, c: u64, k: int)
    requires b + c <= k
    ensures listed(list(a, b, c)) == b, highest(list(a, b, c)) == a, calm_instruction(list(a, b, c), 0, k)
{}
/// Storing a page keeps the bounds.
pub open spec fn pages_next(p: Pages, a: u64, end: int, f: u64) -> Pages {
    Pages {
        b: b_insert_list(b_move(p.b, p.start, end, (a + 1) as u64, p.offset as i64), end, list(a, f, p.page as u64)),
        start: end + 1, page: p.page + 1, offset: p.offset - f,
    }
}
pub proof fn lemma_pages_move(p: Pages, a: u64, end: int, pending: int, f: int, m: int, k: int)
    requires pages_ok(p, pending, f, m, k), p.start <= end <= p.b.c.len(), a < 0x8000_0000, k <= 0x7000_0000_0000_0000, 0 <= pending <= 0x8000_0000
    ensures ({
        let d = b_move(p.b, p.start, end, (a + 1) as u64, p.offset as i64);
        &&& b_ok(d) && d.c.len() == p.b.c.len() && listed_before(d.c, d.c.len() as int) == listed_before(p.b.c, d.c.len() as int)
        &&& units(d.c, d.c.len() as int) == units(p.b.c, p.b.c.len() as int)
        &&& forall|i: int| 0 <= i < d.c.len() ==> calm(#[trigger] d.c[i], k + pending)
        &&& forall|i: int| 0 <= i < end ==> highest((#[trigger] d.c[i]).instruction) + listed_before(d.c, i) <= m + f + pending
        &&& forall|i: int| end <= i < d.c.len() ==> highest((#[trigger] d.c[i]).instruction) + listed_before(d.c, i) <= m + f - p.offset
        &&& forall|i: int| 0 <= i <= d.c.len() ==> a + #[trigger] listed_before(d.c, i) <= m + f + pending
    })
{
    let c = p.b.c;
    let o = p.offset as i64;
    let d = b_move(p.b, p.start, end, (a + 1) as u64, o);
    lemma_move(p.b, p.start, end, (a + 1) as u64, o);
    assert forall|i: int| 0 <= i <= d.c.len() implies a + #[trigger] listed_before(d.c, i) <= m + f + pending by { lemma_listed_more(d.c, i, d.c.len() as int); assert(listed_before(d.c, d.c.len() as int) == listed_before(c, d.c.len() as int)); }
    assert forall|i: int| 0 <= i < d.c.len() implies calm(#[trigger] d.c[i], k + pending) by { lemma_moved(c[i], (a + 1) as u64, o); assert(calm(c[i], k + pending)); }
    assert forall|i: int| 0 <= i < end implies highest((#[trigger] d.c[i]).instruction) + listed_before(d.c, i) <= m + f + pending by {
        assert(listed_before(d.c, i) == listed_before(c, i));
        lemma_listed_more(c, i, c.len() as int);
        if i >= p.start { lemma_moved(c[i], (a + 1) as u64, o); assert(highest(c[i].instruction) + listed_before(c, i) <= m + f - p.offset); }
        else { assert(highest(c[i].instruction) + listed_before(c, i) <= m + f + pending); }
    }
    assert forall|i: int| end <= i < d.c.len() implies highest((#[trigger] d.c[i]).instruction) + listed_before(d.c, i) <= m + f - p.offset by {
        assert(listed_before(d.c, i) == listed_before(c, i));
        assert(highest(c[i].instruction) + listed_before(c, i) <= m + f - p.offset);
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_pages_step(p: Pages, a: u64, end: int, pending: int, f: u64, m: int, k: int)
    requires pages_ok(p, pending, f as int, m, k), p.start <= end <= p.b.c.len(), a < 0x8000_0000, k <= 0x7000_0000_0000_0000, 0 <= pending <= 0x8000_0000,
        pending + p.offset > f, 1 <= f,
    ensures pages_ok(pages_next(p, a, end, f), pending, f as int, m, k), units(pages_next(p, a, end, f).b.c, (p.b.c.len() + 1) as int) == units(p.b.c, p.b.c.len() as int),
        pages_next(p, a, end, f).b.c.len() == p.b.c.len() + 1
{
    hide(calm_instruction); hide(highest); hide(listed); hide(units); hide(b_move);
    lemma_pages_move(p, a, end, pending, f as int, m, k);
    lemma_list(a, f, p.page as u64, k + pending);
    let b = b_move(p.b, p.start, end, (a + 1) as u64, p.offset as i64);
    let i = list(a, f, p.page as u64);
    lemma_insert_list(b, end, i);
    let n = pages_next(p, a, end, f);
    let c = n.b.c;
    assert forall|j: int| 0 <= j <= c.len() implies #[trigger] listed_before(c, j) == (if j <= end { listed_before(b.c, j) } else { listed_before(b.c, j - 1) + f }) by { lemma_listed_insert(b.c, c, end, j); }
    assert forall|j: int| 0 <= j < c.len() implies calm(#[trigger] c[j], k + pending) by {
        if j < end { assert(calm(b.c[j], k + pending)); } else if j > end { assert(calm(b.c[j - 1], k + pending)); }
    }
    assert forall|j: int| 0 <= j < n.start implies highest((#[trigger] c[j]).instruction) + listed_before(c, j) <= m + f + pending by {
        if j < end { assert(highest(b.c[j].instruction) + listed_before(b.c, j) <= m + f + pending); } else { assert(a + listed_before(b.c, j) <= m + f + pending); }
    }
    assert forall|j: int| n.start <= j < c.len() implies highest((#[trigger] c[j]).instruction) + listed_before(c, j) <= m + f - n.offset by {
        assert(highest(b.c[j - 1].instruction) + listed_before(b.c, j - 1) <= m + f - p.offset);
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn lemma_pages_start(b: Bld, a: u64, stored: u64, pending: int, f: u64, m: int, k: int)
    requires b_ok(b), bounded(b.c, m, k), 1 <= f, 0 <= pending, stored < 0x6000_0000_0000_0000, k <= 0x7000_0000_0000_0000
    ensures match pages_start(b, a, stored, f) {
        None => true,
        Some(p) => pages_ok(p, pending, f as int, m, larger(k, stored + 1)) && units(p.b.c, p.b.c.len() as int) == units(b.c, b.c.len() as int),
    }
{
    lemma_setup(b.c, a, b.c.len() - 1);
    let q = larger(k, stored + 1);
    match setup(b.c, a, b.c.len() - 1) {
        None => {},
        Some(x) => {
            let p = pages_start(b, a, stored, f)->0;
            assert(calm(b.c[x], k));
            match b.c[x].instruction {
                lua51::Instruction::SetList { mode, .. } => {
                    let n = mode.0.0;
                    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, f as int);
                    assert(n / f <= f * (n / f)) by (nonlinear_arith) requires f >= 1, n / f >= 0;
                    if n % f != 0 {
                        lemma_weight(b, x); lemma_weight(b, x + 1);
                        lemma_units_remove(b, x, b.c.len() - 1);
                        let c = p.b.c;
                        assert forall|j: int| 0 <= j <= c.len() implies #[trigger] listed_before(c, j) == (if j <= x { listed_before(b.c, j) } else { listed_before(b.c, j + 1) - n }) by { lemma_listed_remove(b, x, j); }
                        assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).line_weight <= 1 by { if j < x { assert(b.c[j].line_weight <= 1); } else { assert(b.c[j + 1].line_weight <= 1); } }
                        assert forall|j: int| 0 <= j < c.len() implies calm(#[trigger] c[j], q + pending) by {
                            if j < x { assert(calm(b.c[j], k)); } else { assert(calm(b.c[j + 1], k)); }
                        }
                        assert forall|j: int| 0 <= j < p.start implies highest((#[trigger] c[j]).instruction) + listed_before(c, j) <= m + f + pending by { assert(highest(b.c[j].instruction) + listed_before(b.c, j) <= m); }
                        assert forall|j: int| p.start <= j < c.len() implies highest((#[trigger] c[j]).instruction) + listed_before(c, j) <= m + f - p.offset by {
                            assert(highest(b.c[j + 1].instruction) + listed_before(b.c, j + 1) <= m);
                            if j == x { assert(listed_before(b.c, x + 1) == listed_before(b.c, x) + n); }
                        }
                    }
                },
                _ => {
                    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(stored as int, f as int);
                    assert(stored / f <= f * (stored / f)) by (nonlinear_arith) requires f >= 1, stored / f >= 0;
                    vstd::arithmetic::div_mod::lemma_mod_bound(stored as int, f as int);
                },
            }
            if p.b == b {
                assert forall|j: int| 0 <= j < b.c.len() implies calm(#[trigger] b.c[j], q + pending) && highest(b.c[j].instruction) + listed_before(b.c, j) <= m by { assert(calm(b.c[j], k)); }
            }
        },
    }
}
pub proof fn lemma_setup(c: Seq<Ctx>, a: u64, n: int)
    requires n <= c.len()
    ensures match setup(c, a, n) { Some(k) => 0 <= k < n && is_setup(c[k].instruction, a), None => true }
    decreases n
{ if n > 0 { lemma_setup(c, a, n - 1); } }
pub proof fn lemma_listed_remove(b: Bld, at: int, n: int)
    requires b_ok(b), 0 <= at, at + 1 < b.c.len(), n < b.c.len()
    ensures listed_before(b_remove(b, at).c, n) == (if n <= at { listed_before(b.c, n) } else { listed_before(b.c, n + 1) - listed(b.c[at].instruction) })
    decreases n
{
    let d = b_remove(b, at).c;
    if n > 0 {
        lemma_listed_remove(b, at, n - 1);
        if n - 1 >= at { assert(d[n - 1].instruction == b.c[n].instruction); if n - 1 == at { assert(listed_before(b.c, n) == listed_before(b.c, n - 1) + listed(b.c[n - 1].instruction)); } } else { assert(d[n - 1] == b.c[n - 1]); }
    }
}
/// Adding an instruction with stack positions below 2^32.
pub open spec fn fresh_instruction(c: Ctx, k: int) -> bool { highest(c.instruction) <= 0x1_0000_0000 && calm(c, k) }
pub proof fn lemma_push(b: Bld, x: Ctx, m: int, k: int)
    requires bounded(b.c, m, k), fresh_instruction(x, k)
    ensures bounded(b.c.push(x), m + listed(x.instruction), k)
{
    let d = b.c.push(x);
    assert forall|i: int| 0 <= i <= b.c.len() implies listed_before(d, i) == #[trigger] listed_before(b.c, i) by { lemma_listed_same(b.c, d, i); }
    assert forall|i: int| 0 <= i < d.len() implies highest((#[trigger] d[i]).instruction) + listed_before(d, i) <= m + listed(x.instruction) && calm(d[i], k) by {
        assert(listed_before(d, i) == listed_before(b.c, i));
        if i < b.c.len() { assert(calm(b.c[i], k)); }
    }
    assert(listed_before(d, d.len() as int) == listed_before(b.c, b.c.len() as int) + listed(x.instruction));
}

pub proof fn lemma_end_of_elements(c: Seq<Ctx>, start: int, first: u64, last: u64, n: int)
    requires n <= c.len(), 0 <= start
    ensures match end_of_elements(c, start, first, last, n) { Some(e) => start < e <= c.len(), None => true }
    decreases n
{ if n > start && n > 0 { lemma_end_of_elements(c, start, first, last, n - 1); lemma_behind_pseudo(c, n); } }
pub proof fn lemma_behind_pseudo(c: Seq<Ctx>, i: int)
    requires 0 <= i <= c.len()
    ensures i <= behind_pseudo(c, i) <= c.len()
    decreases c.len() - i
{ if i < c.len() && is_pseudo(c[i].instruction) { lemma_behind_pseudo(c, i + 1); } }
pub proof fn lemma_pages_loop(p: Pages, a: u64, pending: u64, f: u64, m: int, k: int)
    requires pages_ok(p, pending as int, f as int, m, k), a < 0x8000_0000, k <= 0x7000_0000_0000_0000, pending <= 0x8000_0000, 1 <= f
    ensures pages_ok(pages_loop(p, a, pending, f), pending as int, f as int, m, k),
        units(pages_loop(p, a, pending, f).b.c, pages_loop(p, a, pending, f).b.c.len() as int) == units(p.b.c, p.b.c.len() as int)
    decreases pending + p.offset
{
    hide(calm_instruction); hide(highest); hide(listed); hide(units); hide(b_move); hide(b_insert_list); hide(end_of_elements); hide(b_ok); hide(listed_before);
    if pending + p.offset > f {
        lemma_end_of_elements(p.b.c, p.start, (a + 1) as u64, last_position(a, f, p.offset), p.b.c.len() as int);
        match end_of_elements(p.b.c, p.start, (a + 1) as u64, last_position(a, f, p.offset), p.b.c.len() as int) {
            None => {},
            Some(end) => { lemma_pages_step(p, a, end, pending as int, f, m, k); lemma_pages_loop(pages_next(p, a, end, f), a, pending, f, m, k); },
        }
    }
}
/// A `SETLIST` adds as much to the bounds as it stores, and at most a page.
pub proof fn lemma_set_list(b: Bld, a: u64, stored: u64, pending: u64, open: bool, f: u64, m: int, k: int)
    requires b_ok(b), bounded(b.c, m, k), 1 <= f, a < 0x8000_0000, pending <= 0x8000_0000, stored < 0x6000_0000_0000_0000, k <= 0x7000_0000_0000_0000,
        units(b.c, b.c.len() as int) < 0x100_0000_0000,
    ensures ({
        let d = b_set_list(b, a, stored, pending, open, f);
        &&& b_ok(d) && bounded(d.c, m + f + pending, larger(k, stored + 1) + pending)
        &&& units(d.c, d.c.len() as int) == units(b.c, b.c.len() as int) + 1
        &&& d.c.len() > 0 && d.c.last().instruction is SetList && a51(d.c.last().instruction) == a
    })
{
    let q = larger(k, stored + 1);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(stored as int, f as int);
    assert(stored / f <= f * (stored / f)) by (nonlinear_arith) requires f >= 1, stored / f >= 0;
    vstd::arithmetic::div_mod::lemma_mod_bound(stored as int, f as int);
    lemma_pages_start(b, a, stored, pending as int, f, m, k);
    match pages_start(b, a, stored, f) {
        None => {
            let i = list(a, if open { 0 } else { (pending + stored % f) as u64 }, (stored / f + 1) as u64);
            lemma_list(a, if open { 0 } else { (pending + stored % f) as u64 }, (stored / f + 1) as u64, q + pending);
            lemma_push_list(b, i, m, q + pending, m + f + pending);
        },
        Some(p0) => {
            lemma_pages_loop(p0, a, pending, f, m, q);
            let p = pages_loop(p0, a, pending, f);
            lemma_pages_move(p, a, p.b.c.len() as int, pending as int, f as int, m, q);
            let d = b_move(p.b, p.start, p.b.c.len() as int, (a + 1) as u64, p.offset as i64);
            let n = if open { 0 } else { (pending + p.offset) as u64 };
            lemma_list(a, n, p.page as u64, q + pending);
            assert forall|i: int| 0 <= i < d.c.len() implies highest((#[trigger] d.c[i]).instruction) + listed_before(d.c, i) <= m + f + pending && calm(d.c[i], q + pending) by {}
            lemma_push_list(d, list(a, n, p.page as u64), m, q + pending, m + f + pending);
        },
    }
}
proof fn lemma_push_list(b: Bld, i: Ins, m: int, k: int, n: int)
    requires b_ok(b), highest(i) + 1 <= 0x8000_0000, calm_instruction(i, 0, k), listed_before(b.c, b.c.len() as int) + listed(i) + 0x1_0000_0000 <= n, 0 <= k,
        forall|j: int| 0 <= j < b.c.len() ==> highest((#[trigger] b.c[j]).instruction) + listed_before(b.c, j) <= n && calm(b.c[j], k),
        units(b.c, b.c.len() as int) < 0x100_0000_0000,
    ensures b_ok(b_new(b, i)), bounded(b_new(b, i).c, n, k), units(b_new(b, i).c, b_new(b, i).c.len() as int) == units(b.c, b.c.len() as int) + 1
{
    let d = b_new(b, i).c;
    lemma_units_push(b.c, ctx_new(i));
    lemma_listed_i(i);
    assert forall|j: int| 0 <= j <= b.c.len() implies listed_before(d, j) == #[trigger] listed_before(b.c, j) by { lemma_listed_same(b.c, d, j); }
    assert forall|j: int| 0 <= j < d.len() implies highest((#[trigger] d[j]).instruction) + listed_before(d, j) <= n && calm(d[j], k) by {
        assert(listed_before(d, j) == listed_before(b.c, j));
        if j < b.c.len() { assert(calm(b.c[j], k)); }
    }
    assert(listed_before(d, d.len() as int) == listed_before(b.c, b.c.len() as int) + listed(i));
}
proof fn lemma_listed_i(i: Ins)
    ensures listed(i) >= 0
{}

/// However the code splits a number of elements in pages.
/// Products with a sign.
pub broadcast proof fn lemma_sign(x: int, y: int)
    ensures x == 1 ==> #[trigger] (x * y) == y, x == -1 ==> x * y == -y, y == 1 ==> x * y == x, y == -1 ==> x * y == -x
{
    assert(x == 1 ==> x * y == y) by (nonlinear_arith);
    assert(x == -1 ==> x * y == -y) by (nonlinear_arith);
    assert(y == 1 ==> x * y == x) by (nonlinear_arith);
    assert(y == -1 ==> x * y == -x) by (nonlinear_arith);
}
pub broadcast proof fn lemma_split(x: int, y: int)
    ensures #![trigger x / y] x >= 0 && y > 0 ==> x == (x / y) * y + x % y && x == y * (x / y) + x % y && 0 <= x % y < y && 0 <= (x / y) * y <= x && 0 <= x / y <= x
{
    if x >= 0 && y > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y);
        vstd::arithmetic::div_mod::lemma_mod_bound(x, y);
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, y);
        assert((x / y) * y == y * (x / y)) by (nonlinear_arith);
        assert(x / y <= y * (x / y)) by (nonlinear_arith) requires y > 0, x / y >= 0;
    }
}
/// Bounds that `set_list` relies on.
pub open spec fn m_limit(pending: u64, f: u64) -> int { 0x6000_0000_0000_0000 - f - pending }
pub open spec fn k_limit() -> int { 0x7000_0000_0000_0000 }
pub open spec fn can_set_list(b: Bld, a: u64, stored: u64, pending: u64, f: u64) -> bool {
    &&& b_ok(b) && units(b.c, b.c.len() as int) < 0x100_0000_0000 && bounded(b.c, m_limit(pending, f), k_limit())
    &&& a < 0x8000_0000 && stored < 0x6000_0000_0000_0000 && pending <= 0x8000_0000 && 1 <= f <= 0x8000_0000
}
pub proof fn lemma_regs(c: Seq<Ctx>, m: int, k: int)
    requires forall|i: int| 0 <= i < c.len() ==> highest((#[trigger] c[i]).instruction) + listed_before(c, i) <= m && calm(c[i], k), m <= 0x6000_0000_0000_0000
    ensures forall|i: int| 0 <= i < c.len() ==> regs51((#[trigger] c[i]).instruction) && jump_tight(c[i])
{
    assert forall|i: int| 0 <= i < c.len() implies regs51((#[trigger] c[i]).instruction) && jump_tight(c[i]) by { lemma_listed_more(c, 0, i); assert(calm(c[i], k)); }
}
pub proof fn lemma_pages_regs(p: Pages, pending: int, f: int, m: int, k: int)
    requires pages_ok(p, pending, f, m, k), m + f + pending <= 0x6000_0000_0000_0000
    ensures forall|i: int| 0 <= i < p.b.c.len() ==> regs51((#[trigger] p.b.c[i]).instruction)
{
    hide(calm_instruction); hide(highest);
    assert forall|i: int| 0 <= i < p.b.c.len() implies highest((#[trigger] p.b.c[i]).instruction) + listed_before(p.b.c, i) <= m + f + pending && calm(p.b.c[i], k + pending) by { assert(calm(p.b.c[i], k + pending)); }
    lemma_regs(p.b.c, m + f + pending, k + pending);
}
}
