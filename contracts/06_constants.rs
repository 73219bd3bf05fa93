/// Specification of constants (C05, C06, C11).
pub mod sp_constants {
use vstd::prelude::*;
use crate::vx::*;
use crate::number::*;
use crate::function::constant::*;
use crate::*;

/// A constant, with strings as sequences of characters.
pub enum Const { Nil, Boolean(bool), Number(Number), String(Seq<char>) }
pub open spec fn view_constant(c: Constant) -> Const {
    match c {
        Constant::Nil => Const::Nil,
        Constant::Boolean(b) => Const::Boolean(b),
        Constant::Number(n) => Const::Number(n),
        Constant::String(s) => Const::String(s@),
    }
}
pub open spec fn view_constants(c: Seq<Constant>) -> Seq<Const> { Seq::new(c.len(), |i: int| view_constant(c[i])) }

/// Decimal digits of a number.
pub open spec fn decimal(n: nat) -> Seq<char>
    decreases n
{ if n < 10 { seq![digit(n)] } else { decimal(n / 10).push(digit(n % 10)) } }
pub open spec fn digit(n: nat) -> char { (('0' as u32) + n) as char }
/// `__%lunify%__temp`
pub open spec fn temp_prefix() -> Seq<char> { seq!['_', '_', '%', 'l', 'u', 'n', 'i', 'f', 'y', '%', '_', '_', 't', 'e', 'm', 'p'] }
/// Name of the global that saves a register: `__%lunify%__temp<pc>_<index>`,
/// zero terminated.
pub open spec fn temp_name(pc: nat, index: nat) -> Seq<char> { temp_prefix() + decimal(pc) + seq!['_'] + decimal(index) + seq!['\0'] }

/// Index of the first constant of a value from some index on.
pub open spec fn first_from(cs: Seq<Const>, c: Const, i: int) -> int
    decreases cs.len() - i
{ if i >= cs.len() { cs.len() as int } else if cs[i] == c { i } else { first_from(cs, c, i + 1) } }
pub open spec fn first(cs: Seq<Const>, c: Const) -> int { first_from(cs, c, 0) }
/// C11: a helper constant is only added if there is none with its value yet.
pub open spec fn interned(cs: Seq<Const>, c: Const) -> Seq<Const> { if first(cs, c) < cs.len() { cs } else { cs.push(c) } }
/// C11: the name of a new global is that with the smallest index that is not
/// the value of any string constant.
pub open spec fn is_fresh(cs: Seq<Const>, pc: nat, index: nat) -> bool {
    &&& !cs.contains(Const::String(temp_name(pc, index)))
    &&& forall|j: nat| j < index ==> cs.contains(Const::String(#[trigger] temp_name(pc, j)))
}
pub open spec fn fresh(cs: Seq<Const>, pc: nat) -> Seq<char> { temp_name(pc, choose|j: nat| is_fresh(cs, pc, j)) }
pub open spec fn terminated(s: Seq<char>) -> Const { Const::String(s.push('\0')) }

pub proof fn lemma_first(cs: Seq<Const>, c: Const, i: int, k: int)
    requires 0 <= i <= k <= cs.len(), forall|j: int| i <= j < k ==> cs[j] != c, k == cs.len() || cs[k] == c
    ensures first_from(cs, c, i) == k
    decreases k - i
{ if i < k { lemma_first(cs, c, i + 1, k); } }
pub proof fn lemma_first_is(cs: Seq<Const>, c: Const, i: int)
    requires 0 <= i <= cs.len()
    ensures i <= first_from(cs, c, i) <= cs.len(), first_from(cs, c, i) < cs.len() ==> cs[first_from(cs, c, i)] == c,
        forall|j: int| i <= j < first_from(cs, c, i) ==> cs[j] != c
    decreases cs.len() - i
{ if i < cs.len() && cs[i] != c { lemma_first_is(cs, c, i + 1); } }

pub proof fn lemma_digit(n: nat, m: nat)
    requires n < 10, m < 10
    ensures digit(n) == digit(m) ==> n == m, digit(n) != '_', digit(n) != '\0'
{}
pub proof fn lemma_decimal_len(n: nat)
    ensures decimal(n).len() >= 1, n >= 10 ==> decimal(n).len() == decimal(n / 10).len() + 1
    decreases n
{ if n >= 10 { lemma_decimal_len(n / 10); } }
pub proof fn lemma_decimal(n: nat, m: nat)
    requires decimal(n) == decimal(m)
    ensures n == m
    decreases n
{
    lemma_decimal_len(n); lemma_decimal_len(m);
    if n >= 10 { lemma_decimal_len(n / 10); }
    if m >= 10 { lemma_decimal_len(m / 10); }
    assert(n < 10 ==> decimal(n).len() == 1);
    assert(m < 10 ==> decimal(m).len() == 1);
    assert(decimal(n).last() == decimal(m).last());
    assert(decimal(n).drop_last() == decimal(m).drop_last());
    assert(decimal(n).last() == digit(n % 10));
    assert(decimal(m).last() == digit(m % 10));
    lemma_digit(n % 10, m % 10);
    if n >= 10 && m >= 10 {
        assert(decimal(n).drop_last() =~= decimal(n / 10));
        assert(decimal(m).drop_last() =~= decimal(m / 10));
        lemma_decimal(n / 10, m / 10);
    } else if n < 10 && m < 10 {
        lemma_digit(n, m);
    }
}
/// Names with different indices are different.
pub proof fn lemma_temp_name(pc: nat, i: nat, j: nat)
    requires temp_name(pc, i) == temp_name(pc, j)
    ensures i == j
{
    let p = temp_prefix() + decimal(pc) + seq!['_'];
    let n = temp_name(pc, i);
    assert(n.subrange(p.len() as int, n.len() - 1) =~= decimal(i));
    assert(n.subrange(p.len() as int, n.len() - 1) =~= decimal(j));
    lemma_decimal(i, j);
}
/// There can't be more different names than constants.
pub proof fn lemma_names(cs: Seq<Const>, pc: nat, n: nat)
    requires forall|j: nat| j < n ==> cs.contains(Const::String(#[trigger] temp_name(pc, j)))
    ensures n <= cs.len()
{
    let f = |j: int| first(cs, Const::String(temp_name(pc, j as nat)));
    let a = vstd::set_lib::set_int_range(0, n as int);
    let b = vstd::set_lib::set_int_range(0, cs.len() as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    vstd::set_lib::lemma_int_range(0, cs.len() as int);
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] f(j) < cs.len() && cs[f(j)] == Const::String(temp_name(pc, j as nat)) by {
        let c = Const::String(temp_name(pc, j as nat));
        lemma_first_is(cs, c, 0);
        let k = choose|k: int| 0 <= k < cs.len() && cs[k] == c;
        assert(cs.contains(c));
        assert(0 <= k < cs.len() && cs[k] == c);
    }
    let m = a.map(f);
    assert forall|i: int, j: int| a.contains(i) && a.contains(j) && f(i) == f(j) implies i == j by { lemma_temp_name(pc, i as nat, j as nat); }
    vstd::set_lib::lemma_map_size(a, m, f);
    assert(m.subset_of(b));
    vstd::set_lib::lemma_len_subset(m, b);
}
pub proof fn lemma_fresh(cs: Seq<Const>, pc: nat, index: nat)
    requires is_fresh(cs, pc, index)
    ensures fresh(cs, pc) == temp_name(pc, index)
{
    let c = choose|j: nat| is_fresh(cs, pc, j);
    assert(is_fresh(cs, pc, c));
    if c < index { assert(cs.contains(Const::String(temp_name(pc, c)))); }
    if index < c { assert(cs.contains(Const::String(temp_name(pc, index)))); }
}
}
