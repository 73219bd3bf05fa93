/// C11: constants keep their index, helper constants are new.
pub mod prop_c11 {
use vstd::prelude::*;
use crate::vx::*;
use crate::function::builder::*;
use crate::function::constant::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::*;
use crate::function::instruction::operand::layout::*;
use crate::function::instruction::operand::mode::*;
use crate::*;

/// `n` starts with `k`, and everything behind differs from everything in front
/// of it.
pub open spec fn extends(k: Seq<Const>, n: Seq<Const>) -> bool {
    &&& k.len() <= n.len()
    &&& forall|i: int| 0 <= i < k.len() ==> #[trigger] n[i] == k[i]
    &&& forall|i: int, j: int| 0 <= i < j < n.len() && j >= k.len() ==> #[trigger] n[i] != #[trigger] n[j]
}
/// The constants that a conversion may add.
pub open spec fn helper(c: Const) -> bool {
    ||| c is Nil
    ||| c == terminated("type"@) || c == terminated("table"@) || c == terminated("next"@)
    ||| exists|pc: nat, index: nat| c == Const::String(temp_name(pc, index))
}
pub open spec fn helpers(k: Seq<Const>, n: Seq<Const>) -> bool { extends(k, n) && forall|i: int| k.len() <= i < n.len() ==> helper(#[trigger] n[i]) }
proof fn lemma_helpers_same(k: Seq<Const>)
    ensures helpers(k, k)
{}
proof fn lemma_extends_push(k: Seq<Const>, n: Seq<Const>, c: Const)
    requires helpers(k, n), !n.contains(c), helper(c)
    ensures helpers(k, n.push(c)), n.push(c)[n.len() as int] == c
{
    let r = n.push(c);
    assert forall|i: int, j: int| 0 <= i < j < r.len() && j >= k.len() implies #[trigger] r[i] != #[trigger] r[j] by {
        assert(r[i] == n[i]);
        if j == n.len() { assert(n.contains(n[i])); } else { assert(n[i] != n[j]); }
    }
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] r[i] == k[i] by { assert(n[i] == k[i]); }
    assert forall|i: int| k.len() <= i < r.len() implies helper(#[trigger] r[i]) by { if i < n.len() { assert(helper(n[i])); } }
}
/// There is always a name that is not taken.
proof fn lemma_search(k: Seq<Const>, pc: nat, n: nat) -> (r: nat)
    requires forall|j: nat| j < n ==> k.contains(Const::String(#[trigger] temp_name(pc, j)))
    ensures is_fresh(k, pc, r)
    decreases k.len() + 1 - n
{
    lemma_names(k, pc, n);
    if k.contains(Const::String(temp_name(pc, n))) { lemma_search(k, pc, n + 1) } else { n }
}
pub proof fn lemma_fresh_new(k: Seq<Const>, pc: nat)
    ensures !k.contains(Const::String(fresh(k, pc))), helper(Const::String(fresh(k, pc)))
{
    let r = lemma_search(k, pc, 0);
    lemma_fresh(k, pc, r);
    assert(helper(Const::String(temp_name(pc, r))));
}
proof fn lemma_fresh_push(k: Seq<Const>, n: Seq<Const>, pc: nat)
    requires helpers(k, n)
    ensures helpers(k, n.push(Const::String(fresh(n, pc))))
{ lemma_fresh_new(n, pc); lemma_extends_push(k, n, Const::String(fresh(n, pc))); }
/// A well known constant is there afterwards, and only once if it wasn't there
/// more often before.
proof fn lemma_interned(k: Seq<Const>, n: Seq<Const>, c: Const)
    requires helpers(k, n), helper(c)
    ensures helpers(k, interned(n, c)), 0 <= first(n, c) < interned(n, c).len(), interned(n, c)[first(n, c)] == c,
        n.contains(c) ==> interned(n, c) == n, n.len() <= interned(n, c).len(), forall|i: int| 0 <= i < n.len() ==> #[trigger] interned(n, c)[i] == n[i]
{
    lemma_first_is(n, c, 0);
    if n.contains(c) {
        let i = choose|i: int| 0 <= i < n.len() && n[i] == c;
        assert(first(n, c) <= i);
    } else {
        if first(n, c) < n.len() { assert(n.contains(n[first(n, c)])); }
        lemma_extends_push(k, n, c);
    }
}
/// The constants of one instruction are what its instructions refer to.
pub open spec fn is_temp(n: Seq<Const>, g: int, before: Seq<Const>) -> bool {
    0 <= g < n.len() && (exists|pc: nat, index: nat| n[g] == Const::String(temp_name(pc, index))) && !before.contains(n[g])
}
pub proof fn prop_c11_for_loop(k: Seq<Const>, u: Up, a: u64, d: i64)
    requires helpers(k, u.k)
    ensures up_for_loop(u, a, d) matches Ok(v) ==> helpers(k, v.k) && is_temp(v.k, u.k.len() as int, u.k) && v.k.len() == u.k.len() + 1
{
    hide(b_new); hide(b_extra); hide(b_offset); hide(b_insert); hide(adjusted); hide(fresh); hide(helpers); hide(helper);
    lemma_fresh_push(k, u.k, u.b.c.len());
    lemma_temp(u.k, u.b.c.len());
}
proof fn lemma_temp(k: Seq<Const>, pc: nat)
    ensures is_temp(k.push(Const::String(fresh(k, pc))), k.len() as int, k)
{
    let r = lemma_search(k, pc, 0);
    lemma_fresh(k, pc, r);
    lemma_fresh_new(k, pc);
    assert(k.push(Const::String(fresh(k, pc)))[k.len() as int] == Const::String(temp_name(pc, r)));
}
pub proof fn prop_c11_tfor_loop(k: Seq<Const>, u: Up, a: u64, c: u64, s: Settings)
    requires helpers(k, u.k)
    ensures up_tfor_loop(u, a, c, s) matches Ok(v) ==> helpers(k, v.k) && (c != 0 ==> { let i = first(u.k, Const::Nil); 0 <= i < v.k.len() && v.k[i] is Nil })
{
    hide(b_new); hide(b_extra); hide(b_extras); hide(helpers); hide(first); hide(interned);
    lemma_interned(k, u.k, Const::Nil);
}
pub open spec fn prep_constants(u: Up, k: Seq<Const>) -> bool {
    let g = u.k.len() as int;
    let pc = u.b.c.len();
    let k2 = u.k.push(Const::String(fresh(u.k, pc)));
    let k2 = k2.push(Const::String(fresh(k2, (pc + 1) as nat)));
    let k3 = interned(k2, terminated("type"@));
    let k4 = interned(k3, terminated("table"@));
    let t = first(k2, terminated("type"@));
    let b = first(k3, terminated("table"@));
    let n = first(k4, terminated("next"@));
    &&& is_temp(k, g, u.k) && is_temp(k, g + 1, u.k) && k[g] != k[g + 1]
    &&& 0 <= t < k.len() && k[t] == terminated("type"@)
    &&& 0 <= b < k.len() && k[b] == terminated("table"@)
    &&& 0 <= n < k.len() && k[n] == terminated("next"@)
}
pub proof fn prop_c11_tfor_prep(k: Seq<Const>, u: Up, a: u64, d: i64)
    requires helpers(k, u.k)
    ensures helpers(k, up_tfor_prep(u, a, d).k), prep_constants(u, up_tfor_prep(u, a, d).k)
{
    hide(b_new); hide(b_extra); hide(b_fixed); hide(fresh); hide(helpers); hide(first); hide(interned); hide(helper); hide(terminated);
    let pc = u.b.c.len();
    let k1 = u.k.push(Const::String(fresh(u.k, pc)));
    let k2 = k1.push(Const::String(fresh(k1, (pc + 1) as nat)));
    let k3 = interned(k2, terminated("type"@));
    let k4 = interned(k3, terminated("table"@));
    let k5 = interned(k4, terminated("next"@));
    lemma_fresh_push(k, u.k, pc); lemma_temp(u.k, pc);
    lemma_fresh_push(k, k1, (pc + 1) as nat); lemma_temp(k1, (pc + 1) as nat);
    lemma_named();
    lemma_interned(k, k2, terminated("type"@));
    lemma_interned(k, k3, terminated("table"@));
    lemma_interned(k, k4, terminated("next"@));
    let g = u.k.len() as int;
    assert(k2[g] == k1[g] && k5[g] == k2[g] && k5[g + 1] == k2[g + 1]);
    assert(k1.contains(k1[g]));
    if u.k.contains(k2[g + 1]) {
        let i = choose|i: int| 0 <= i < u.k.len() && u.k[i] == k2[g + 1];
        assert(k1[i] == u.k[i]);
        assert(k1.contains(k2[g + 1]));
    }
    assert(k3[first(k2, terminated("type"@))] == terminated("type"@));
    assert(k4[first(k2, terminated("type"@))] == terminated("type"@));
    assert(k5[first(k2, terminated("type"@))] == terminated("type"@));
    assert(k5[first(k3, terminated("table"@))] == terminated("table"@));
}
proof fn lemma_named()
    ensures helper(terminated("type"@)), helper(terminated("table"@)), helper(terminated("next"@))
{}
proof fn lemma_extends_up_one(k: Seq<Const>, u: Up, i: lua50::Instruction, s: Settings)
    requires helpers(k, u.k)
    ensures up_one(u, i, s) matches Ok(v) ==> helpers(k, v.k) && helpers(u.k, v.k)
{
    hide(b_new); hide(up_for_loop); hide(up_tfor_loop); hide(up_tfor_prep); hide(b_set_list); hide(shared); hide(helpers);
    lemma_helpers_same(u.k);
    match i {
        lua50::Instruction::ForLoop { a, mode } => { prop_c11_for_loop(k, u, a, mode.0); prop_c11_for_loop(u.k, u, a, mode.0); },
        lua50::Instruction::TForLoop { a, mode } => { prop_c11_tfor_loop(k, u, a, mode.1.0, s); prop_c11_tfor_loop(u.k, u, a, mode.1.0, s); },
        lua50::Instruction::TForPrep { a, mode } => { prop_c11_tfor_prep(k, u, a, mode.0); prop_c11_tfor_prep(u.k, u, a, mode.0); },
        _ => {},
    }
}
pub proof fn lemma_extends_up_all(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, n: int, s: Settings)
    ensures up_all(i, l, k, n, s) matches Ok(u) ==> helpers(k, u.k)
    decreases n
{
    hide(helpers); hide(up_one);
    if n > 0 {
        lemma_extends_up_all(i, l, k, n - 1, s);
        match up_all(i, l, k, n - 1, s) {
            Ok(u) => { lemma_extends_up_one(k, Up { b: b_line(u.b, l[n - 1]), ..u }, i[n - 1], s); },
            Err(_) => {},
        }
    } else { lemma_helpers_same(k); }
}
/// Constants that an instruction refers to are still there at the end.
pub proof fn lemma_extends_later(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, m: int, n: int, s: Settings)
    requires m <= n
    ensures up_all(i, l, k, n, s) matches Ok(u) ==> up_all(i, l, k, m, s) is Ok && helpers(up_all(i, l, k, m, s)->Ok_0.k, u.k)
    decreases n - m
{
    hide(helpers); hide(up_one);
    if m < n {
        lemma_extends_later(i, l, k, m, n - 1, s);
        if n > 0 {
            match up_all(i, l, k, n - 1, s) {
                Ok(u) => { if up_all(i, l, k, m, s) is Ok { lemma_extends_up_one(up_all(i, l, k, m, s)->Ok_0.k, Up { b: b_line(u.b, l[n - 1]), ..u }, i[n - 1], s); } },
                Err(_) => {},
            }
        } else { lemma_helpers_same(k); }
    } else { match up_all(i, l, k, n, s) { Ok(u) => { lemma_helpers_same(u.k); }, Err(_) => {} } }
}
/// C11: existing constants keep their index and value; only helper constants are
/// added, all of them different from each other and from every existing one.
pub proof fn prop_c11(i: Seq<lua50::Instruction>, l: Seq<i64>, k: Seq<Const>, m: u8, p: u8, v: bool, s: Settings)
    ensures spec_upcast(i, l, k, m, p, v, s) matches Ok((_, _, _, n)) ==> helpers(k, n)
{ hide(helpers); lemma_extends_up_all(i, lines(l, i.len() as int), k, i.len() as int, s); }
}
