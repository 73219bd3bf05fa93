/// C12: the stack covers every register that is written.
pub mod prop_c12 {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::builder::*;
use crate::function::constant::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// Stack size that an instruction needs.
pub open spec fn needs(i: Ins) -> int { match destination51(i) { Some(d) => d.end + 1, None => 0 } }
pub open spec fn allowed(limit: u64) -> int { if limit < 255 { limit as int } else { 255 } }
/// `r` is the smallest stack for the first `n` instructions that is not smaller
/// than `m`.
pub open spec fn smallest(i: Seq<Ins>, n: int, m: int, r: int) -> bool {
    &&& m <= r
    &&& forall|j: int| 0 <= j < n ==> #[trigger] needs(i[j]) <= r
    &&& r == m || exists|j: int| 0 <= j < n && #[trigger] needs(i[j]) == r
}
/// The first instruction that doesn't fit, and what it needs.
pub open spec fn too_large(i: Seq<Ins>, n: int, limit: u64, x: u64) -> bool {
    exists|j: int| 0 <= j < n && #[trigger] needs(i[j]) as u64 == x && needs(i[j]) > allowed(limit) && forall|k: int| 0 <= k < j ==> #[trigger] needs(i[k]) <= allowed(limit)
}
proof fn lemma_same_destination(c: Seq<Ctx>, j: int)
    requires 0 <= j < c.len()
    ensures destination51(final_instruction(c, j)) == destination51(c[j].instruction)
{}
proof fn lemma_stack(c: Seq<Ctx>, n: int, m: u8, limit: u64)
    requires 0 <= n <= c.len()
    ensures match stack_size(c, n, m, limit) {
        Ok(r) => smallest(final_instructions(c), n, m as int, r as int) && forall|j: int| 0 <= j < n ==> #[trigger] needs(final_instructions(c)[j]) <= allowed(limit),
        Err(e) => e is StackTooLarge && too_large(final_instructions(c), n, limit, e->StackTooLarge_0),
    }
    decreases n
{
    let i = final_instructions(c);
    if n > 0 {
        lemma_stack(c, n - 1, m, limit);
        lemma_same_destination(c, n - 1);
        assert(i[n - 1] == final_instruction(c, n - 1));
        assert(destination51(i[n - 1]) == destination51(c[n - 1].instruction));
        let x = needs(i[n - 1]);
        match stack_size(c, n - 1, m, limit) {
            Err(e) => {
                let j = choose|j: int| 0 <= j < n - 1 && #[trigger] needs(i[j]) as u64 == e->StackTooLarge_0 && needs(i[j]) > allowed(limit) && forall|k: int| 0 <= k < j ==> #[trigger] needs(i[k]) <= allowed(limit);
                assert(needs(i[j]) > allowed(limit));
            },
            Ok(y) => {
                if y != m {
                    let j = choose|j: int| 0 <= j < n - 1 && #[trigger] needs(i[j]) == y;
                    assert(needs(i[j]) == y);
                }
            },
        }
    }
}
/// C12: on success the stack is as small as possible; the first instruction that
/// doesn't fit on a stack of the output is an error.
pub proof fn prop_c12(b: Bld, l: Seq<i64>, m: u8, s: Settings)
    ensures match finished(Ok(b), l, m, s) {
        Ok((i, _, r)) => i.len() == b.c.len() && smallest(i, i.len() as int, m as int, r as int) && (r == m || r <= allowed(s.output.stack_limit))
            && forall|j: int| 0 <= j < i.len() ==> #[trigger] needs(i[j]) <= allowed(s.output.stack_limit),
        Err(e) => e is StackTooLarge && too_large(final_instructions(b.c), b.c.len() as int, s.output.stack_limit, e->StackTooLarge_0),
    }
{
    lemma_stack(b.c, b.c.len() as int, m, s.output.stack_limit);
    if stack_size(b.c, b.c.len() as int, m, s.output.stack_limit) is Ok {
        let r = stack_size(b.c, b.c.len() as int, m, s.output.stack_limit)->Ok_0;
        let i = final_instructions(b.c);
        if r != m {
            let j = choose|j: int| 0 <= j < i.len() && #[trigger] needs(i[j]) == r;
            assert(needs(i[j]) <= allowed(s.output.stack_limit));
        }
    }
}
pub proof fn prop_c12_convert(i: Seq<Ins>, l: Seq<i64>, m: u8, s: Settings)
    requires s.lua51.fields_per_flush != s.output.fields_per_flush
    ensures spec_convert(i, l, m, s) matches Ok((r, _, x)) ==> smallest(r, r.len() as int, m as int, x as int)
{
    match convert_all(i, lines(l, i.len() as int), i.len() as int, s) { Ok(b) => { prop_c12(b, l, m, s); }, Err(_) => {} }
}
pub proof fn prop_c12_upcast(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, m: u8, p: u8, v: bool, s: Settings)
    ensures spec_upcast(i, l, k, m, p, v, s) matches Ok((r, _, x, _)) ==> smallest(r, r.len() as int, m as int, x as int)
{
    match up_all(i, lines(l, i.len() as int), k, i.len() as int, s) { Ok(u) => { prop_c12(if v { variadic(u.b, p) } else { u.b }, l, m, s); }, Err(_) => {} }
}
}

/// C14: variadic functions.
pub mod prop_c14 {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::builder::*;
use crate::function::constant::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// `local arg = {...}` with `arg` behind the parameters.
pub open spec fn collect(p: u8) -> Seq<Ins> {
    seq![
        lua51::Instruction::NewTable { a: (p + 1) as u64, mode: BC(Unused, Unused) },
        lua51::Instruction::VarArg { a: (p + 2) as u64, mode: BC(Generic(0), Unused) },
        list((p + 1) as u64, 0, 1),
        lua51::Instruction::Move { a: p as u64, mode: BC(Register((p + 1) as u64), Unused) },
    ]
}
pub open spec fn same_but_jumps(x: Ins, y: Ins) -> bool {
    match (x, y) {
        (lua51::Instruction::Jump { a, .. }, lua51::Instruction::Jump { a: b, .. }) => a == b,
        (lua51::Instruction::ForLoop { a, .. }, lua51::Instruction::ForLoop { a: b, .. }) => a == b,
        (lua51::Instruction::ForPrep { a, .. }, lua51::Instruction::ForPrep { a: b, .. }) => a == b,
        _ => x == y,
    }
}
proof fn lemma_final(c: Seq<Ctx>, j: int)
    requires 0 <= j < c.len()
    ensures same_but_jumps(final_instruction(c, j), c[j].instruction)
{}
proof fn lemma_variadic_is(b: Bld, p: u8)
    ensures variadic(b, p).c.len() == b.c.len() + 4,
        forall|j: int| 0 <= j < 4 ==> (#[trigger] variadic(b, p).c[j]).instruction == collect(p)[j] && variadic(b, p).c[j].line_weight == 1,
        forall|j: int| 4 <= j < b.c.len() + 4 ==> #[trigger] variadic(b, p).c[j] == b.c[j - 4],
{}
/// C14: a variadic function starts with these instructions, its own follow;
/// there is nothing like that in another function.
pub proof fn prop_c14(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, m: u8, p: u8, v: bool, s: Settings)
    ensures spec_upcast(i, l, k, m, p, v, s) matches Ok((r, _, _, _)) ==> ({
        let c = up_all(i, lines(l, i.len() as int), k, i.len() as int, s)->Ok_0.b.c;
        let n = if v { 4int } else { 0 };
        &&& r.len() == c.len() + n
        &&& v ==> r.subrange(0, 4) =~= collect(p)
        &&& forall|j: int| n <= j < r.len() ==> same_but_jumps(#[trigger] r[j], c[j - n].instruction)
    })
{
    hide(variadic);
    match up_all(i, lines(l, i.len() as int), k, i.len() as int, s) {
        Err(_) => {},
        Ok(u) => {
            lemma_variadic_is(u.b, p);
            let d = if v { variadic(u.b, p).c } else { u.b.c };
            assert forall|j: int| 0 <= j < d.len() implies same_but_jumps(#[trigger] final_instructions(d)[j], d[j].instruction) by { lemma_final(d, j); }
            assert forall|j: int| 0 <= j < 4 && v implies #[trigger] final_instructions(d)[j] == collect(p)[j] by { assert(d[j].instruction == collect(p)[j]); }
        },
    }
}
/// C14: the flags of a Lua 5.0 function that takes variable arguments include
/// `VARARG_ISVARARG` and keep what they were; those of others stay as they are.
pub proof fn prop_c14_flags(v: u8)
    ensures v != 0 ==> variadic_flags(v) & 2 == 2 && variadic_flags(v) & !2u8 == v & !2u8, v == 0 ==> variadic_flags(v) == 0
{ assert((v | 2) & 2 == 2 && (v | 2) & !2u8 == v & !2u8) by (bit_vector); }
}

/// C15: table constructors.
pub mod prop_c15 {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::builder::*;
use crate::function::constant::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// `SETLIST` stores the register A + i at the index (C - 1) * F + i: the number
/// of elements in front of those it stores.
pub open spec fn in_front(page: int, f: int) -> int { (page - 1) * f }
/// An element in A + k, after it was moved by the offset, is stored at the index
/// `stored` + k.
pub open spec fn page_ok(page: int, offset: int, stored: int, f: int) -> bool { in_front(page, f) + offset == stored }
/// The table in A contains `stored` elements behind this instruction.
pub open spec fn holds(i: Ins, stored: int, f: int) -> bool { match i { lua51::Instruction::SetList { mode, .. } => in_front(mode.1.0 as int, f) + mode.0.0 == stored, _ => true } }

/// C15: the pages start where the elements that were stored already end.
pub proof fn lemma_start(b: Bld, a: u64, stored: u64, f: u64)
    requires f >= 1, setup(b.c, a, b.c.len() - 1) matches Some(k) ==> holds(b.c[k].instruction, stored as int, f as int)
    ensures pages_start(b, a, stored, f) matches Some(p) ==> page_ok(p.page, p.offset, stored as int, f as int)
{
    match setup(b.c, a, b.c.len() - 1) {
        None => {},
        Some(k) => {
            let n = f as int;
            match b.c[k].instruction {
                lua51::Instruction::SetList { mode, .. } => {
                    let x = mode.0.0 as int;
                    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
                    let page = mode.1.0 as int;
                    assert((page + x / n - 1) * n == (page - 1) * n + (x / n) * n) by (nonlinear_arith);
                    assert((x / n) * n == n * (x / n)) by (nonlinear_arith);
                },
                _ => {
                    let x = stored as int;
                    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
                    assert((x / n + 1 - 1) * n == n * (x / n)) by (nonlinear_arith);
                },
            }
        },
    }
}
/// ... and stay there while full pages are stored.
pub proof fn lemma_loop(p: Pages, a: u64, pending: u64, f: u64, stored: int)
    requires page_ok(p.page, p.offset, stored, f as int)
    ensures page_ok(pages_loop(p, a, pending, f).page, pages_loop(p, a, pending, f).offset, stored, f as int)
    decreases pending + p.offset
{
    if pending + p.offset > f && f != 0 {
        match end_of_elements(p.b.c, p.start, (a + 1) as u64, last_position(a, f, p.offset), p.b.c.len() as int) {
            None => {},
            Some(end) => {
                let page = p.page; let n = f as int;
                assert((page + 1 - 1) * n == (page - 1) * n + n) by (nonlinear_arith);
                lemma_loop(Pages {
                    b: b_insert_list(b_move(p.b, p.start, end, (a + 1) as u64, p.offset as i64), end, list(a, f, p.page as u64)),
                    start: end + 1, page: p.page + 1, offset: p.offset - f,
                }, a, pending, f, stored);
            },
        }
    }
}
/// C15: the last `SETLIST` of the pending elements stores the element in A + k,
/// moved by the offset of its page, at the index `stored` + k, and behind it
/// `stored` + `pending` elements are in the table. A constructor that ends in a
/// variable number of values still ends in one.
pub proof fn prop_c15(b: Bld, a: u64, stored: u64, pending: u64, open: bool, f: u64)
    requires can_set_list(b, a, stored, pending, f), b_ok(b),
        setup(b.c, a, b.c.len() - 1) matches Some(k) ==> holds(b.c[k].instruction, stored as int, f as int)
    ensures ({
        let n = b_set_list(b, a, stored, pending, open, f);
        let i = n.c.last().instruction;
        n.c.len() > 0 && i is SetList && a51(i) == a && (open ==> listed(i) == 0) && (!open ==> holds(i, stored + pending, f as int))
    })
{
    lemma_start(b, a, stored, f);
    let n = f as int;
    let x = stored as int;
    let k = larger(k_limit(), x + 1);
    let m = m_limit(pending, f);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, n);
    assert((x / n + 1 - 1) * n == n * (x / n)) by (nonlinear_arith);
    assert(x / n <= n * (x / n)) by (nonlinear_arith) requires n >= 1, x / n >= 0;
    lemma_pages_start(b, a, stored, pending as int, f, m, k_limit());
    match pages_start(b, a, stored, f) {
        None => { lemma_last(b, list(a, if open { 0 } else { (pending + stored % f) as u64 }, (stored / f + 1) as u64)); },
        Some(p0) => {
            lemma_loop(p0, a, pending, f, x);
            lemma_pages_loop(p0, a, pending, f, m, k);
            let p = pages_loop(p0, a, pending, f);
            assert(0 <= pending + p.offset && p.page + p.offset <= k);
            lemma_last(b_move(p.b, p.start, p.b.c.len() as int, (a + 1) as u64, p.offset as i64), list(a, if open { 0 } else { (pending + p.offset) as u64 }, p.page as u64));
        },
    }
}
proof fn lemma_last(b: Bld, i: Ins)
    ensures b_new(b, i).c.len() > 0 && b_new(b, i).c.last().instruction == i
{}
}
