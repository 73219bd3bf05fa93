/// C13: the line information stays aligned with the instructions.
pub mod prop_c13 {
use vstd::prelude::*;
use crate::vx::*;
use crate::prop_c10::*;
use crate::function::builder::*;
use crate::function::constant::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// Kinds of instructions that are inserted in front of others.
pub open spec fn inserted(i: Ins) -> bool { i is SetList || i is GetGlobal }
/// `o` maps every instruction to the instruction of the input whose line it has:
/// in order, the last one that it replaces, or, for inserted ones, one up to the
/// one it was inserted in front of. `t` is the current instruction of the input.
pub open spec fn origin(c: Seq<Ctx>, o: Seq<int>, t: int) -> bool {
    &&& o.len() == c.len()
    &&& forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).line_weight <= 1
    &&& forall|j: int| 0 <= j < c.len() ==> 0 <= #[trigger] o[j] <= t && units(c, j + 1) - 1 <= o[j] && (inserted(c[j].instruction) || o[j] == units(c, j + 1) - 1)
    &&& forall|i: int, j: int| 0 <= i <= j < c.len() ==> #[trigger] o[i] <= #[trigger] o[j]
}
/// ... and these are the lines of the builder.
pub open spec fn aligned(b: Bld, o: Seq<int>, l: Seq<i64>, t: int) -> bool {
    &&& origin(b.c, o, t) && b.l.len() == b.c.len() && 0 <= t < l.len() && b.n == l[t]
    &&& forall|j: int| 0 <= j < b.c.len() ==> #[trigger] b.l[j] == l[o[j]]
}
proof fn lemma_push(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, x: Ctx)
    requires aligned(b, o, l, t), x.line_weight <= 1, units(b.c, b.c.len() as int) + 1 - x.line_weight == t + 1
    ensures aligned(b_push(b, x), o.push(t), l, t), units(b_push(b, x).c, (b.c.len() + 1) as int) == t + 1
{
    let d = b_push(b, x);
    lemma_units_push(b.c, x);
    assert forall|j: int| 0 <= j < d.c.len() implies 0 <= #[trigger] o.push(t)[j] <= t && units(d.c, j + 1) - 1 <= o.push(t)[j] && (inserted(d.c[j].instruction) || o.push(t)[j] == units(d.c, j + 1) - 1) && d.c[j].line_weight <= 1 by {
        if j < b.c.len() { lemma_units_same(b.c, d.c, j + 1); assert(0 <= o[j]); assert(b.c[j].line_weight <= 1); }
    }
    assert forall|j: int| 0 <= j < d.c.len() implies #[trigger] d.l[j] == l[o.push(t)[j]] by { if j < b.c.len() { assert(b.l[j] == l[o[j]]); } }
    assert forall|i: int, j: int| 0 <= i <= j < d.c.len() implies #[trigger] o.push(t)[i] <= #[trigger] o.push(t)[j] by { if j < b.c.len() { assert(o[i] <= o[j]); } else if i < b.c.len() { assert(o[i] <= t); } }
}
proof fn lemma_insert_units(b: Bld, at: int, i: Ins, n: int)
    requires 0 <= at <= b.c.len(), 0 <= n <= b.c.len()
    ensures n <= at ==> units(b_insert(b, at, i).c, n) == units(b.c, n), n >= at ==> units(b_insert(b, at, i).c, n + 1) == units(b.c, n)
{
    let d = b_insert(b, at, i);
    if n <= at { lemma_units_same(b.c, d.c, n); }
    if n >= at { lemma_units_insert(b.c, at, ctx_extra(i), n); }
}
/// `o` for an inserted instruction.
pub open spec fn o_insert(b: Bld, o: Seq<int>, at: int, t: int) -> Seq<int> { o.insert(at, if at < o.len() { o[at] } else { t }) }
proof fn lemma_insert(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, at: int, i: Ins)
    requires aligned(b, o, l, t), 0 <= at <= b.c.len(), inserted(i), units(b.c, b.c.len() as int) <= t + 1
    ensures aligned(b_insert(b, at, i), o_insert(b, o, at, t), l, t), units(b_insert(b, at, i).c, (b.c.len() + 1) as int) == units(b.c, b.c.len() as int)
{
    let d = b_insert(b, at, i);
    let p = o_insert(b, o, at, t);
    lemma_insert_units(b, at, i, b.c.len() as int);
    assert forall|j: int| 0 <= j < d.c.len() implies 0 <= #[trigger] p[j] <= t && units(d.c, j + 1) - 1 <= p[j] && (inserted(d.c[j].instruction) || p[j] == units(d.c, j + 1) - 1) && d.c[j].line_weight <= 1 && d.l[j] == l[p[j]] by {
        if j < at { lemma_insert_units(b, at, i, j + 1); assert(0 <= o[j]); assert(b.c[j].line_weight <= 1); assert(b.l[j] == l[o[j]]); }
        else if j > at { lemma_insert_units(b, at, i, j); assert(0 <= o[j - 1]); assert(b.c[j - 1].line_weight <= 1); assert(b.l[j - 1] == l[o[j - 1]]); }
        else { lemma_insert_units(b, at, i, at); if at < b.c.len() { assert(0 <= o[at]); assert(b.c[at].line_weight <= 1); assert(b.l[at] == l[o[at]]); } }
    }
    assert forall|i: int, j: int| 0 <= i <= j < d.c.len() implies #[trigger] p[i] <= #[trigger] p[j] by {
        let x = if i <= at { i } else { i - 1 };
        let y = if j <= at { j } else { j - 1 };
        if y < b.c.len() { assert(o[x] <= o[y]); } else if x < b.c.len() { assert(o[x] <= t); }
    }
}
/// The weight of `SETLIST` and the instruction behind it are swapped.
proof fn lemma_insert_list(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, at: int, i: Ins)
    requires aligned(b, o, l, t), 0 <= at <= b.c.len(), i is SetList, units(b.c, b.c.len() as int) <= t + 1
    ensures aligned(b_insert_list(b, at, i), o_insert(b, o, at, t), l, t), units(b_insert_list(b, at, i).c, (b.c.len() + 1) as int) == units(b.c, b.c.len() as int)
{
    let n = b_insert(b, at, i);
    let d = b_insert_list(b, at, i);
    let p = o_insert(b, o, at, t);
    lemma_insert(b, o, l, t, at, i);
    if at + 1 < n.c.len() {
        assert forall|j: int| 0 <= j <= d.c.len() implies units(d.c, j) == (if j == at + 1 { units(n.c, at + 2) } else { #[trigger] units(n.c, j) }) by { lemma_swap(n, d, at, j); }
        assert forall|j: int| 0 <= j < d.c.len() implies 0 <= #[trigger] p[j] <= t && units(d.c, j + 1) - 1 <= p[j] && (inserted(d.c[j].instruction) || p[j] == units(d.c, j + 1) - 1) && d.c[j].line_weight <= 1 by {
            assert(units(d.c, j + 1) == (if j == at { units(n.c, at + 2) } else { units(n.c, j + 1) }));
            assert(n.c[j].line_weight <= 1);
            if j == at { assert(n.c[at + 1].line_weight <= 1); assert(0 <= p[at + 1]); assert(p[at + 1] == p[at]); }
        }
    }
}
proof fn lemma_swap(n: Bld, d: Bld, at: int, j: int)
    requires 0 <= at, at + 1 < n.c.len(), d.c.len() == n.c.len(), 0 <= j <= n.c.len(),
        d.c[at].line_weight == n.c[at + 1].line_weight, d.c[at + 1].line_weight == 1, n.c[at].line_weight == 1,
        forall|x: int| 0 <= x < n.c.len() && x != at && x != at + 1 ==> (#[trigger] d.c[x]).line_weight == n.c[x].line_weight
    ensures units(d.c, j) == (if j == at + 1 { units(n.c, at + 2) } else { units(n.c, j) })
    decreases j
{
    if j > 0 {
        lemma_swap(n, d, at, j - 1);
        if j == at + 1 { assert(units(n.c, at + 2) == units(n.c, at + 1) + 1 - n.c[at + 1].line_weight); assert(units(n.c, at + 1) == units(n.c, at)); }
        else if j == at + 2 { assert(units(n.c, at + 2) == units(d.c, at + 1)); }
        else { assert(d.c[j - 1].line_weight == n.c[j - 1].line_weight); }
    }
}
proof fn lemma_remove(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, at: int)
    requires aligned(b, o, l, t), 0 <= at, at + 1 < b.c.len(), b_ok(b)
    ensures aligned(b_remove(b, at), o.remove(at), l, t), units(b_remove(b, at).c, b.c.len() - 1) == units(b.c, b.c.len() as int)
{
    let d = b_remove(b, at);
    let p = o.remove(at);
    lemma_units_remove(b, at, b.c.len() - 1);
    assert forall|j: int| 0 <= j < d.c.len() implies 0 <= #[trigger] p[j] <= t && units(d.c, j + 1) - 1 <= p[j] && (inserted(d.c[j].instruction) || p[j] == units(d.c, j + 1) - 1) && d.c[j].line_weight <= 1 && d.l[j] == l[p[j]] by {
        assert(b.c[at].line_weight <= 1);
        if j < at { lemma_units_same(b.c, d.c, j + 1); assert(0 <= o[j]); assert(b.c[j].line_weight <= 1); assert(b.l[j] == l[o[j]]); }
        else {
            assert(0 <= o[j + 1]); assert(b.c[j + 1].line_weight <= 1); assert(b.l[j + 1] == l[o[j + 1]]);
            lemma_units_remove(b, at, j + 1); lemma_weight(b, at); lemma_weight(b, at + 1);
        }
    }
    assert forall|j: int| 0 <= j < d.c.len() implies (#[trigger] d.c[j]).line_weight <= 1 by { assert(0 <= p[j]); }
    assert forall|j: int| 0 <= j < d.c.len() implies #[trigger] d.l[j] == l[p[j]] by { assert(0 <= p[j]); }
    assert forall|i: int, j: int| 0 <= i <= j < d.c.len() implies #[trigger] p[i] <= #[trigger] p[j] by {
        assert(o[if i < at { i } else { i + 1 }] <= o[if j < at { j } else { j + 1 }]);
    }
}
proof fn lemma_move_kind(i: Ins, start: u64, offset: i64)
    ensures inserted(moved51(i, start, offset)) == inserted(i)
{}
proof fn lemma_move(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, from: int, to: int, start: u64, offset: i64)
    requires aligned(b, o, l, t)
    ensures aligned(b_move(b, from, to, start, offset), o, l, t), units(b_move(b, from, to, start, offset).c, b.c.len() as int) == units(b.c, b.c.len() as int)
{
    hide(moved51);
    let d = b_move(b, from, to, start, offset);
    assert forall|j: int| 0 <= j < d.c.len() implies 0 <= #[trigger] o[j] <= t && units(d.c, j + 1) - 1 <= o[j] && (inserted(d.c[j].instruction) || o[j] == units(d.c, j + 1) - 1) && d.c[j].line_weight <= 1 && d.l[j] == l[o[j]] by {
        assert(b.c[j].line_weight <= 1);
        lemma_units_same(b.c, d.c, j + 1);
        lemma_move_kind(b.c[j].instruction, start, offset);
        assert(b.l[j] == l[o[j]]);
    }
    lemma_units_same(b.c, d.c, b.c.len() as int);
}

/// A `SETLIST` of the output comes from storing some of the pending elements.
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
proof fn lemma_pages(p: Pages, o: Seq<int>, l: Seq<i64>, t: int, a: u64, pending: u64, f: u64) -> (r: Seq<int>)
    requires aligned(p.b, o, l, t), units(p.b.c, p.b.c.len() as int) <= t + 1, 0 <= p.start <= p.b.c.len()
    ensures ({ let q = pages_loop(p, a, pending, f); aligned(q.b, r, l, t) && units(q.b.c, q.b.c.len() as int) == units(p.b.c, p.b.c.len() as int) && 0 <= q.start <= q.b.c.len() })
    decreases pending + p.offset
{
    hide(aligned); hide(b_move); hide(b_insert_list); hide(end_of_elements); hide(units);
    if pending + p.offset <= f || f == 0 { o } else {
        lemma_end_of_elements(p.b.c, p.start, (a + 1) as u64, last_position(a, f, p.offset), p.b.c.len() as int);
        match end_of_elements(p.b.c, p.start, (a + 1) as u64, last_position(a, f, p.offset), p.b.c.len() as int) {
            None => o,
            Some(end) => {
                let m = b_move(p.b, p.start, end, (a + 1) as u64, p.offset as i64);
                lemma_moved_len(p.b, p.start, end, (a + 1) as u64, p.offset as i64);
                lemma_move(p.b, o, l, t, p.start, end, (a + 1) as u64, p.offset as i64);
                lemma_insert_list(m, o, l, t, end, list(a, f, p.page as u64));
                lemma_insert_len(m, end, list(a, f, p.page as u64));
                lemma_pages(pages_next(p, a, end, f), o_insert(m, o, end, t), l, t, a, pending, f)
            },
        }
    }
}
proof fn lemma_moved_len(b: Bld, from: int, to: int, start: u64, offset: i64)
    ensures b_move(b, from, to, start, offset).c.len() == b.c.len()
{}
proof fn lemma_insert_len(b: Bld, at: int, i: Ins)
    requires 0 <= at <= b.c.len()
    ensures b_insert_list(b, at, i).c.len() == b.c.len() + 1
{}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
proof fn lemma_set_list(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, a: u64, stored: u64, pending: u64, open: bool, f: u64) -> (r: Seq<int>)
    requires aligned(b, o, l, t), b_ok(b), units(b.c, b.c.len() as int) == t
    ensures ({ let d = b_set_list(b, a, stored, pending, open, f); aligned(d, r, l, t) && units(d.c, d.c.len() as int) == t + 1 })
{
    hide(aligned); hide(b_move); hide(b_insert_list); hide(end_of_elements); hide(units); hide(pages_loop); hide(b_remove);
    lemma_setup(b.c, a, b.c.len() - 1);
    match pages_start(b, a, stored, f) {
        None => {
            lemma_push(b, o, l, t, ctx_new(list(a, if open { 0 } else { (pending + stored % f) as u64 }, (stored / f + 1) as u64)));
            o.push(t)
        },
        Some(p) => {
            let k = setup(b.c, a, b.c.len() - 1)->0;
            let q = if p.b == b { o } else { lemma_remove(b, o, l, t, k); lemma_removed_len(b, k); o.remove(k) };
            let r = lemma_pages(p, q, l, t, a, pending, f);
            let p = pages_loop(p, a, pending, f);
            let m = b_move(p.b, p.start, p.b.c.len() as int, (a + 1) as u64, p.offset as i64);
            lemma_move(p.b, r, l, t, p.start, p.b.c.len() as int, (a + 1) as u64, p.offset as i64);
            lemma_moved_len(p.b, p.start, p.b.c.len() as int, (a + 1) as u64, p.offset as i64);
            lemma_push(m, r, l, t, ctx_new(list(a, if open { 0 } else { (pending + p.offset) as u64 }, p.page as u64)));
            r.push(t)
        },
    }
}
proof fn lemma_removed_len(b: Bld, k: int)
    requires 0 <= k < b.c.len()
    ensures b_remove(b, k).c.len() == b.c.len() - 1
{}
/// Everything that was added for one instruction has its line.
proof fn lemma_extra(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, i: Ins) -> (r: Seq<int>)
    requires aligned(b, o, l, t), units(b.c, b.c.len() as int) == t + 1
    ensures aligned(b_extra(b, i), r, l, t), units(b_extra(b, i).c, (b.c.len() + 1) as int) == t + 1
{ lemma_push(b, o, l, t, ctx_extra(i)); o.push(t) }
/// `o` after the instruction `t` of the input.
pub open spec fn done(b: Bld, o: Seq<int>, l: Seq<i64>, t: int) -> bool { aligned(b, o, l, t) && units(b.c, b.c.len() as int) == t + 1 }
proof fn lemma_step(b: Bld, o: Seq<int>, l: Seq<i64>, t: int)
    requires done(b, o, l, t), t + 1 < l.len()
    ensures aligned(b_line(b, l[t + 1]), o, l, t + 1)
{}
proof fn lemma_new(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, i: Ins) -> (r: Seq<int>)
    requires aligned(b, o, l, t), units(b.c, b.c.len() as int) == t
    ensures done(b_new(b, i), r, l, t)
{ lemma_push(b, o, l, t, ctx_new(i)); o.push(t) }
proof fn lemma_extra_done(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, i: Ins) -> (r: Seq<int>)
    requires done(b, o, l, t)
    ensures done(b_extra(b, i), r, l, t)
{ lemma_extra(b, o, l, t, i) }
/// Lua 5.1, with another number of fields per flush.
proof fn lemma_convert_one(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, i: Ins, s: Settings) -> (r: Seq<int>)
    requires aligned(b, o, l, t), b_ok(b), units(b.c, b.c.len() as int) == t
    ensures convert_one(b, i, s) matches Ok(d) ==> done(d, r, l, t)
{
    hide(aligned); hide(b_set_list); hide(units);
    match i {
        lua51::Instruction::SetList { a, mode } => if mode.1.0 == 0 { o } else {
            let pending = pending51(b, a, mode.0.0);
            lemma_set_list(b, o, l, t, a, (s.lua51.fields_per_flush * (mode.1.0 - 1)) as u64, pending, mode.0.0 == 0, s.output.fields_per_flush)
        },
        i => lemma_new(b, o, l, t, i),
    }
}
proof fn lemma_ok(b: Bld, n: int)
    requires building(b, n)
    ensures b_ok(b), units(b.c, b.c.len() as int) == n
{}
/// Nothing yet.
proof fn lemma_start(l: Seq<i64>)
    requires l.len() > 0
    ensures aligned(b_line(b_empty(), l[0]), Seq::empty(), l, 0), units(b_empty().c, 0) == 0
{}
/// A line of the input for every instruction, after the first `n`.
pub proof fn lemma_convert_all(i: Seq<Ins>, l: Seq<i64>, n: int, s: Settings) -> (r: Seq<int>)
    requires settings_wf(s), 0 <= n <= i.len() <= 0x1fff_ffff, l.len() == i.len(), forall|j: int| 0 <= j < i.len() ==> raw51(#[trigger] i[j])
    ensures convert_all(i, l, n, s) matches Ok(b) ==> (n > 0 ==> done(b, r, l, n - 1))
    decreases n
{
    hide(aligned); hide(convert_one); hide(units); hide(raw51); hide(building);
    if n > 0 {
        let o = lemma_convert_all(i, l, n - 1, s);
        match convert_all(i, l, n - 1, s) {
            Ok(b) => {
                let o = if n == 1 { lemma_start(l); Seq::empty() } else { lemma_step(b, o, l, n - 2); o };
                lemma_jumps_convert_all(i, l, n - 1, s);
                lemma_ok(b, n - 1);
                lemma_convert_one(b_line(b, l[n - 1]), o, l, n - 1, i[n - 1], s)
            },
            Err(_) => Seq::empty(),
        }
    } else { Seq::empty() }
}

// ------------------------------------------------------------------ Lua 5.0

proof fn lemma_update(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, x: Ctx)
    requires done(b, o, l, t), b.c.len() > 0, x.instruction == b.c.last().instruction, x.line_weight == b.c.last().line_weight
    ensures done(b_update_last(b, x), o, l, t)
{
    let d = b_update_last(b, x);
    assert forall|j: int| 0 <= j < d.c.len() implies 0 <= #[trigger] o[j] <= t && units(d.c, j + 1) - 1 <= o[j] && (inserted(d.c[j].instruction) || o[j] == units(d.c, j + 1) - 1) && d.c[j].line_weight <= 1 && d.l[j] == l[o[j]] by {
        assert(b.c[j].line_weight <= 1);
        lemma_units_same(b.c, d.c, j + 1);
        assert(b.l[j] == l[o[j]]);
    }
    assert forall|j: int| 0 <= j < d.c.len() implies (#[trigger] d.c[j]).line_weight <= 1 by { assert(0 <= o[j]); }
    lemma_units_same(b.c, d.c, b.c.len() as int);
}
proof fn lemma_offset(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, x: i64)
    requires done(b, o, l, t), b.c.len() > 0
    ensures done(b_offset(b, x), o, l, t)
{ lemma_update(b, o, l, t, InstructionContext { final_offset: x, ..b.c.last() }); }
proof fn lemma_fixed(b: Bld, o: Seq<int>, l: Seq<i64>, t: int)
    requires done(b, o, l, t), b.c.len() > 0
    ensures done(b_fixed(b), o, l, t)
{ lemma_update(b, o, l, t, InstructionContext { is_fixed: true, ..b.c.last() }); }
proof fn lemma_insert_done(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, at: int, i: Ins) -> (r: Seq<int>)
    requires done(b, o, l, t), 0 <= at <= b.c.len(), inserted(i)
    ensures done(b_insert(b, at, i), r, l, t)
{ lemma_insert(b, o, l, t, at, i); o_insert(b, o, at, t) }
proof fn lemma_extras(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, i: Seq<Ins>) -> (r: Seq<int>)
    requires done(b, o, l, t)
    ensures done(b_extras(b, i), r, l, t)
    decreases i.len()
{
    hide(done);
    if i.len() == 0 { o } else { let o = lemma_extras(b, o, l, t, i.drop_last()); lemma_extra_done(b_extras(b, i.drop_last()), o, l, t, i.last()) }
}
proof fn lemma_for_loop(u: Up, o: Seq<int>, l: Seq<i64>, t: int, a: u64, d: i64) -> (r: Seq<int>)
    requires aligned(u.b, o, l, t), units(u.b.c, u.b.c.len() as int) == t
    ensures up_for_loop(u, a, d) matches Ok(v) ==> done(v.b, r, l, t)
{
    hide(done); hide(aligned); hide(units); hide(jump); hide(b_insert);
    let g = u.k.len() as int;
    let o = lemma_new(u.b, o, l, t, set_global(a + 3, g));
    let x = lua51::Instruction::ForLoop { a, mode: SignedBx(d) };
    let o = lemma_extra_done(b_new(u.b, set_global(a + 3, g)), o, l, t, x);
    lemma_offset(b_extra(b_new(u.b, set_global(a + 3, g)), x), o, l, t, -1i64);
    let b = b_offset(b_extra(b_new(u.b, set_global(a + 3, g)), x), -1i64);
    match adjusted(b, d as int) {
        Err(_) => o,
        Ok(p) => { lemma_behind(b, d as int); lemma_insert_done(b, o, l, t, p, get_global(a + 3, g)) },
    }
}
proof fn lemma_behind(b: Bld, d: int)
    ensures adjusted(b, d) matches Ok(p) ==> 0 <= p <= b.c.len()
{ lemma_backward_some(b.c, b.c.len() - 1, -d); }
proof fn lemma_backward_some(c: Seq<Ctx>, i: int, steps: int)
    ensures backward(c, i, steps) >= 0
    decreases i + 1
{ reveal_with_fuel(backward, 2); if steps > 0 && 0 <= i < c.len() { lemma_backward_some(c, i - 1, steps + c[i].line_weight - 1); } }
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
proof fn lemma_tfor_loop(u: Up, o: Seq<int>, l: Seq<i64>, t: int, a: u64, c: u64, s: Settings) -> (r: Seq<int>)
    requires aligned(u.b, o, l, t), units(u.b.c, u.b.c.len() as int) == t
    ensures up_tfor_loop(u, a, c, s) matches Ok(v) ==> done(v.b, r, l, t)
{
    hide(done); hide(aligned); hide(units); hide(b_extra); hide(b_new);
    if c == 0 { lemma_new(u.b, o, l, t, lua51::Instruction::TForLoop { a, mode: BC(Unused, Generic(1)) }) } else {
        let n = c + 1;
        let base = a + n + 2;
        let b = u.b;
        let i = mov(base, a as int); let o = lemma_new(b, o, l, t, i); let b = b_new(b, i);
        let i = mov(base + 1, a + 1); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
        let i = mov(base + 2, a + 2); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
        let i = call(base, 3, n + 1); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
        let i = up_results(a, base, n, n); let o = lemma_extras(b, o, l, t, i); let b = b_extras(b, i);
        let i = load_k(base, first(u.k, Const::Nil)); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
        lemma_extra_done(b, o, l, t, equals(a + 2, base))
    }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
proof fn lemma_tfor_prep(u: Up, o: Seq<int>, l: Seq<i64>, t: int, a: u64, d: i64) -> (r: Seq<int>)
    requires aligned(u.b, o, l, t), units(u.b.c, u.b.c.len() as int) == t
    ensures done(up_tfor_prep(u, a, d).b, r, l, t)
{
    hide(done); hide(aligned); hide(units); hide(b_fixed); hide(first); hide(interned); hide(fresh);
    let pc = u.b.c.len();
    let g1 = u.k.len() as int;
    let g2 = g1 + 1;
    let k2 = u.k.push(Const::String(fresh(u.k, pc)));
    let k2 = k2.push(Const::String(fresh(k2, (pc + 1) as nat)));
    let k3 = interned(k2, terminated("type"@));
    let k4 = interned(k3, terminated("table"@));
    let b = u.b;
    let i = set_global(a + 1, g1); let o = lemma_new(b, o, l, t, i); let b = b_new(b, i);
    let i = set_global(a + 2, g2); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    let i = get_global(a + 1, first(k2, terminated("type"@))); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    let i = mov(a + 2, a as int); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    let i = call(a + 1, 2, 2); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    let i = load_k(a + 2, first(k3, terminated("table"@))); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    let i = equals(a + 1, a + 2); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    let i = lua51::Instruction::Jump { a, mode: SignedBx(2) }; let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    lemma_fixed(b, o, l, t); let b = b_fixed(b);
    let i = set_global(a as int, g1); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    let i = get_global(a as int, first(k4, terminated("next"@))); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    let i = get_global(a + 1, g1); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    let i = get_global(a + 2, g2); let o = lemma_extra_done(b, o, l, t, i); let b = b_extra(b, i);
    lemma_extra_done(b, o, l, t, lua51::Instruction::Jump { a, mode: SignedBx(d) })
}
proof fn lemma_up_one(u: Up, o: Seq<int>, l: Seq<i64>, t: int, i: lua50::Instruction, s: Settings) -> (r: Seq<int>)
    requires aligned(u.b, o, l, t), b_ok(u.b), units(u.b.c, u.b.c.len() as int) == t
    ensures up_one(u, i, s) matches Ok(v) ==> done(v.b, r, l, t)
{
    hide(aligned); hide(units); hide(b_new); hide(up_for_loop); hide(up_tfor_loop); hide(up_tfor_prep); hide(b_set_list); hide(shared); hide(done);
    let f = s.output.fields_per_flush;
    match i {
        lua50::Instruction::ForLoop { a, mode } => lemma_for_loop(u, o, l, t, a, mode.0),
        lua50::Instruction::TForLoop { a, mode } => lemma_tfor_loop(u, o, l, t, a, mode.1.0, s),
        lua50::Instruction::TForPrep { a, mode } => lemma_tfor_prep(u, o, l, t, a, mode.0),
        lua50::Instruction::SetList { a, mode } => { let p = (mode.0 % s.lua50.fields_per_flush + 1) as u64; lemma_set_done(u.b, o, l, t, a, (mode.0 + 1 - p) as u64, p, false, f) },
        lua50::Instruction::SetListO { a, mode } => { let p = (mode.0 % s.lua50.fields_per_flush + 1) as u64; lemma_set_done(u.b, o, l, t, a, (mode.0 + 1 - p) as u64, p, true, f) },
        i => lemma_new(u.b, o, l, t, shared(i)->0),
    }
}
proof fn lemma_set_done(b: Bld, o: Seq<int>, l: Seq<i64>, t: int, a: u64, stored: u64, pending: u64, open: bool, f: u64) -> (r: Seq<int>)
    requires aligned(b, o, l, t), b_ok(b), units(b.c, b.c.len() as int) == t
    ensures done(b_set_list(b, a, stored, pending, open, f), r, l, t)
{ lemma_set_list(b, o, l, t, a, stored, pending, open, f) }
pub proof fn lemma_up_all(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, n: int, s: Settings) -> (r: Seq<int>)
    requires settings_wf(s), 0 <= n <= i.len() <= 0x1fff_ffff, l.len() == i.len(), forall|j: int| 0 <= j < i.len() ==> raw50(#[trigger] i[j])
    ensures up_all(i, l, k, n, s) matches Ok(u) ==> (n > 0 ==> done(u.b, r, l, n - 1))
    decreases n
{
    hide(aligned); hide(up_one); hide(units); hide(raw50); hide(building); hide(done);
    if n > 0 {
        let o = lemma_up_all(i, l, k, n - 1, s);
        match up_all(i, l, k, n - 1, s) {
            Ok(u) => {
                let o = if n == 1 { lemma_start(l); Seq::empty() } else { lemma_step(u.b, o, l, n - 2); o };
                lemma_jumps_up_all(i, l, k, n - 1, s);
                lemma_ok(u.b, n - 1);
                lemma_up_one(Up { b: b_line(u.b, l[n - 1]), ..u }, o, l, n - 1, i[n - 1], s)
            },
            Err(_) => Seq::empty(),
        }
    } else { Seq::empty() }
}

// ----------------------------------------------------------------- the result

/// The line of every instruction is the one of the instruction in `o`.
pub open spec fn lined(c: Seq<Ctx>, r: Seq<i64>, o: Seq<int>, l: Seq<i64>, n: int) -> bool {
    origin(c, o, n - 1) && r.len() == c.len() && forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == l[o[j]]
}
/// C13: stripped functions stay stripped, all others have one line for each
/// instruction: the one of the instruction of the input that it came from.
pub proof fn prop_c13_convert(i: Seq<Ins>, l: Seq<i64>, m: u8, s: Settings) -> (o: Seq<int>)
    requires settings_wf(s), 0 < i.len() <= 0x1fff_ffff, forall|j: int| 0 <= j < i.len() ==> raw51(#[trigger] i[j])
    ensures spec_convert(i, l, m, s) matches Ok((c, r, _)) ==> if s.lua51.fields_per_flush == s.output.fields_per_flush { c == i && r == l } else {
        let b = convert_all(i, lines(l, i.len() as int), i.len() as int, s)->Ok_0;
        c.len() == b.c.len() && (l.len() == 0 ==> r.len() == 0) && (l.len() > 0 ==> lined(b.c, r, o, lines(l, i.len() as int), i.len() as int))
    }
{ lemma_convert_all(i, lines(l, i.len() as int), i.len() as int, s) }
/// ... and the four instructions that collect the arguments of a variadic
/// function have the line of its first instruction.
pub proof fn prop_c13_upcast(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, m: u8, p: u8, v: bool, s: Settings) -> (o: Seq<int>)
    requires settings_wf(s), 0 < i.len() <= 0x1fff_ffff, forall|j: int| 0 <= j < i.len() ==> raw50(#[trigger] i[j])
    ensures spec_upcast(i, l, k, m, p, v, s) matches Ok((c, r, _, _)) ==> ({
        let b = up_all(i, lines(l, i.len() as int), k, i.len() as int, s)->Ok_0.b;
        let x: int = if v { 4 } else { 0 };
        &&& c.len() == b.c.len() + x && b.c.len() > 0 && (l.len() == 0 ==> r.len() == 0)
        &&& l.len() > 0 ==> r.len() == c.len() && lined(b.c, r.skip(x), o, lines(l, i.len() as int), i.len() as int) && forall|j: int| 0 <= j < x ==> #[trigger] r[j] == r[x]
    })
{
    hide(origin); hide(units);
    let n = i.len() as int;
    let o = lemma_up_all(i, lines(l, n), k, n, s);
    match up_all(i, lines(l, n), k, n, s) {
        Ok(u) => {
            lemma_some(u.b, o, lines(l, n), n);
            let b = if v { variadic(u.b, p) } else { u.b };
            assert(b.l.skip(if v { 4 } else { 0 }) =~= u.b.l);
            assert(b.c.len() == u.b.c.len() + if v { 4int } else { 0 });
            if v { assert(b.l[0] == u.b.l[0] && b.l[1] == u.b.l[0] && b.l[2] == u.b.l[0] && b.l[3] == u.b.l[0] && b.l[4] == u.b.l[0]); }
        },
        Err(_) => {},
    }
    o
}
proof fn lemma_some(b: Bld, o: Seq<int>, l: Seq<i64>, n: int)
    requires done(b, o, l, n - 1), n > 0
    ensures b.c.len() > 0
{}
}
