pub mod vx {
pub use crate::sp_bytes::*;
pub use crate::sp_format::*;
pub use crate::sp_layout::*;
pub use crate::sp_instruction::*;
pub use crate::sp_stack::*;
pub use crate::sp_constants::*;
pub use crate::sp_builder::*;
pub use crate::sp_convert::*;
pub use crate::sp_function::*;
pub use crate::sp_unify::*;
pub use vstd::string::StringSliceAdditionalSpecFns;
global size_of usize == 8;
use vstd::prelude::*;
use vstd::slice::*;
use vstd::string::*;
use crate::*;
use crate::number::*;
use crate::format::*;

// ------------------------------------------------------------------ wrappers
// One function of the standard library each, with the contract that its
// documentation states. The Kani harnesses in /verif/kani check every one of
// them over its full domain.

pub trait VxToBytes<const N: usize>: Sized {
    spec fn vx_le(self) -> Seq<u8>;
    spec fn vx_be(self) -> Seq<u8>;
    fn vx_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == self.vx_le();
    fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.vx_be();
}

pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { s.reverse() }
/// Little endian bytes of a 32 bit word.
pub open spec fn le32(w: u32) -> Seq<u8> {
    seq![(w & 0xff) as u8, ((w >> 8) & 0xff) as u8, ((w >> 16) & 0xff) as u8, ((w >> 24) & 0xff) as u8]
}
/// Little endian bytes of a 64 bit word.
pub open spec fn le64(w: u64) -> Seq<u8> {
    seq![(w & 0xff) as u8, ((w >> 8) & 0xff) as u8, ((w >> 16) & 0xff) as u8, ((w >> 24) & 0xff) as u8,
         ((w >> 32) & 0xff) as u8, ((w >> 40) & 0xff) as u8, ((w >> 48) & 0xff) as u8, ((w >> 56) & 0xff) as u8]
}
pub open spec fn un_le32(s: Seq<u8>) -> u32 {
    (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24)
}
pub open spec fn un_le64(s: Seq<u8>) -> u64 {
    (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24)
    | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56)
}

/// Bit patterns of floating point numbers; never interpreted by the verifier.
pub uninterp spec fn f64_bits(f: f64) -> u64;
pub uninterp spec fn f64_of_bits(b: u64) -> f64;
pub uninterp spec fn f32_bits(f: f32) -> u32;
pub uninterp spec fn f32_of_bits(b: u32) -> f32;

/// The value of an `f32`, which is exact, and the nearest `f32` of an `f64`.
pub open spec fn f64_of_f32(f: f32) -> f64 { vstd::float::ieee_float_cast::<f32, f64>(f) }
pub open spec fn f32_of_f64(f: f64) -> f32 { vstd::float::ieee_float_cast::<f64, f32>(f) }
/// IEEE equality.
pub open spec fn f64_eq(a: f64, b: f64) -> bool { vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) }
/// Casts and comparisons of floating point numbers are deterministic.
pub broadcast axiom fn ax_cast_f32_f64(a: f32, r: f64)
    ensures #[trigger] vstd::float::float_cast_spec::<f32, f64>(a, r) ==> r == f64_of_f32(a);
pub broadcast axiom fn ax_cast_f64_f32(a: f64, r: f32)
    ensures #[trigger] vstd::float::float_cast_spec::<f64, f32>(a, r) ==> r == f32_of_f64(a);
pub broadcast axiom fn ax_f64_eq()
    ensures #[trigger] <f64 as vstd::std_specs::cmp::PartialEqSpec<f64>>::obeys_eq_spec();
/// No string is bigger than `isize::MAX` bytes.
pub broadcast axiom fn ax_str_len(s: &str)
    ensures (#[trigger] s.spec_bytes()).len() <= 0x7fff_ffff_ffff_ffff;
/// Floating point numbers are their bit patterns.
pub axiom fn ax_float_bits(f: f64, g: f32)
    ensures f64_of_bits(f64_bits(f)) == f, f32_of_bits(f32_bits(g)) == g;
/// Strings with the same characters have the same bytes.
pub axiom fn ax_str_same(a: &str, b: &str)
    ensures a@ == b@ ==> a.spec_bytes() == b.spec_bytes();
/// A `Vec` never holds more than `isize::MAX` bytes, and a context has more than 16.
pub broadcast axiom fn ax_contexts_len(v: Vec<crate::function::builder::InstructionContext>)
    ensures (#[trigger] v@).len() <= 0x7ff_ffff_ffff_ffff;
pub broadcast group vx_axioms { ax_str_len, ax_contexts_len, ax_usize_i64, ax_usize_from_i64, ax_cast_f32_f64, ax_cast_f64_f32, ax_f64_eq }

/// Conversion of a number to an integer or a float. Their meaning is decided by
/// Kani over the full domain of the real functions (property C05).
pub uninterp spec fn number_integer(n: Number) -> Result<i64, LunifyError>;
pub uninterp spec fn number_float(n: Number) -> Result<f64, LunifyError>;
/// The number that Lua 5.0 stores in its header.
pub uninterp spec fn test_number(w: BitWidth) -> f64;
#[verifier::external_body]
pub fn vx_test_number_32() -> (r: f64) ensures r == test_number(BitWidth::Bit32) { 31415926.535897933f32 as f64 }
#[verifier::external_body]
pub fn vx_test_number_64() -> (r: f64) ensures r == test_number(BitWidth::Bit64) { 31415926.535897933 }

macro_rules! vx_to_bytes {
    ($($t:ty, $n:literal, $f:ident, $c:expr, $w:ty);*) => { vstd::prelude::verus! { $(
        impl VxToBytes<$n> for $t {
            open spec fn vx_le(self) -> Seq<u8> { $f(self as $w) }
            open spec fn vx_be(self) -> Seq<u8> { rev($f(self as $w)) }
            #[verifier::external_body]
            fn vx_to_le_bytes(self) -> (r: [u8; $n]) { self.to_le_bytes() }
            #[verifier::external_body]
            fn vx_to_be_bytes(self) -> (r: [u8; $n]) { self.to_be_bytes() }
        }
    )* } }
}
vx_to_bytes! { i32, 4, le32, a, u32; u32, 4, le32, a, u32; i64, 8, le64, a, u64; u64, 8, le64, a, u64 }

impl VxToBytes<4> for f32 {
    open spec fn vx_le(self) -> Seq<u8> { le32(f32_bits(self)) }
    open spec fn vx_be(self) -> Seq<u8> { rev(le32(f32_bits(self))) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
}
impl VxToBytes<8> for f64 {
    open spec fn vx_le(self) -> Seq<u8> { le64(f64_bits(self)) }
    open spec fn vx_be(self) -> Seq<u8> { rev(le64(f64_bits(self))) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
}

#[verifier::external_body]
pub fn vx_i32_from_le_bytes(b: [u8; 4]) -> (r: i32) ensures r == un_le32(b@) as i32 { i32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_i32_from_be_bytes(b: [u8; 4]) -> (r: i32) ensures r == un_le32(rev(b@)) as i32 { i32::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_i64_from_le_bytes(b: [u8; 8]) -> (r: i64) ensures r == un_le64(b@) as i64 { i64::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_i64_from_be_bytes(b: [u8; 8]) -> (r: i64) ensures r == un_le64(rev(b@)) as i64 { i64::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == un_le32(b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == un_le32(rev(b@)) { u32::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == un_le64(b@) { u64::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == un_le64(rev(b@)) { u64::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_f32_from_le_bytes(b: [u8; 4]) -> (r: f32) ensures r == f32_of_bits(un_le32(b@)) { f32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_f32_from_be_bytes(b: [u8; 4]) -> (r: f32) ensures r == f32_of_bits(un_le32(rev(b@))) { f32::from_be_bytes(b) }
#[verifier::external_body]
pub fn vx_f64_from_le_bytes(b: [u8; 8]) -> (r: f64) ensures r == f64_of_bits(un_le64(b@)) { f64::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_f64_from_be_bytes(b: [u8; 8]) -> (r: f64) ensures r == f64_of_bits(un_le64(rev(b@))) { f64::from_be_bytes(b) }

pub trait VxIntoArray {
    spec fn vx_seq(&self) -> Seq<u8>;
    fn vx_try_into_array<const N: usize>(self) -> (r: [u8; N]) where Self: Sized requires self.vx_seq().len() == N ensures r@ == self.vx_seq();
}
impl<'a> VxIntoArray for &'a [u8] {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_try_into_array<const N: usize>(self) -> (r: [u8; N]) { self.try_into().unwrap() }
}

/// Iterating over an array by value.
#[verifier::external_body]
pub fn vx_array_into_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { a.into_iter().collect() }

pub assume_specification [u64::saturating_add_signed](x: u64, y: i64) -> (r: u64)
    ensures r == (if x + y < 0 { 0 } else if x + y > u64::MAX { u64::MAX as int } else { x + y });

pub assume_specification<'a, T: Copy> [Option::<&T>::copied] (x: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match x { Some(v) => Some(*v), None => None });
// Documented meaning of functions of the standard library that this code could use.
pub assume_specification<T> [core::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);
pub assume_specification [i64::abs](x: i64) -> (r: i64) requires x > i64::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [i64::unsigned_abs](x: i64) -> (r: u64) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [i64::signum](x: i64) -> (r: i64) ensures r == (if x < 0 { -1int } else if x == 0 { 0 } else { 1 });
pub assume_specification [i64::is_negative](x: i64) -> (r: bool) ensures r == (x < 0);
pub assume_specification [i64::is_positive](x: i64) -> (r: bool) ensures r == (x > 0);
pub assume_specification [u64::rem_euclid](x: u64, y: u64) -> (r: u64) requires y != 0 ensures r == x % y;
pub assume_specification [u64::div_euclid](x: u64, y: u64) -> (r: u64) requires y != 0 ensures r == x / y;
pub assume_specification [u64::div_ceil](x: u64, y: u64) -> (r: u64) requires y != 0 ensures r == x / y + (if x % y == 0 { 0int } else { 1 });
pub assume_specification [u64::abs_diff](x: u64, y: u64) -> (r: u64) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification<T> [bool::then_some](b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o->Some_0,))
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o->Some_0,)), o is None ==> call_requires(d, ())
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => call_ensures(d, (), r) };
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter](o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> call_requires(p, (&o->Some_0,))
    ensures match o { Some(x) => r == Some(x) && call_ensures(p, (&x,), true) || r is None && call_ensures(p, (&x,), false), None => r is None };
pub assume_specification<T, P: FnOnce(T) -> bool> [Option::<T>::is_some_and](o: Option<T>, p: P) -> (r: bool)
    requires o is Some ==> call_requires(p, (o->Some_0,))
    ensures match o { Some(x) => call_ensures(p, (x,), r), None => !r };
pub assume_specification<T, P: FnOnce(T) -> bool> [Option::<T>::is_none_or](o: Option<T>, p: P) -> (r: bool)
    requires o is Some ==> call_requires(p, (o->Some_0,))
    ensures match o { Some(x) => call_ensures(p, (x,), r), None => r };
pub assume_specification<T> [Option::<T>::replace](o: &mut Option<T>, t: T) -> (r: Option<T>)
    ensures *final(o) == Some(t), r == *old(o);
pub assume_specification<T> [Option::<T>::or](o: Option<T>, t: Option<T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(x), None => t });
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> call_requires(f, ())
    ensures match o { Some(x) => r == Some(x), None => call_ensures(f, (), r) };
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> call_requires(f, (o->Ok_0,))
    ensures match o { Ok(x) => call_ensures(f, (x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E> [Result::<T, E>::unwrap_or](o: Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, F> [Result::<T, E>::or](o: Result<T, E>, d: Result<T, F>) -> (r: Result<T, F>)
    ensures match o { Ok(x) => r == Ok::<T, F>(x), Err(_) => r == d };
pub assume_specification [u64::pow](x: u64, n: u32) -> (r: u64)
    requires vstd::arithmetic::power::pow(x as int, n as nat) <= u64::MAX
    ensures r == vstd::arithmetic::power::pow(x as int, n as nat);
pub assume_specification [u64::checked_shl](x: u64, n: u32) -> (r: Option<u64>)
    ensures r == (if n < 64 { Some(x << n) } else { None });
pub assume_specification<T> [<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification [i64::rem_euclid](x: i64, y: i64) -> (r: i64) requires y > 0 ensures r == x as int % y as int;
pub assume_specification [i64::div_euclid](x: i64, y: i64) -> (r: i64) requires y > 0 ensures r == x as int / y as int;
pub assume_specification [usize::abs_diff](x: usize, y: usize) -> (r: usize) ensures r == (if x < y { y - x } else { x - y });
pub broadcast axiom fn ax_usize_i64()
    ensures #[trigger] <usize as vstd::std_specs::convert::TryFromSpec<i64>>::obeys_try_from_spec();
pub broadcast axiom fn ax_usize_from_i64(v: i64)
    ensures
        v >= 0 ==> #[trigger] <usize as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) == Ok::<usize, core::num::TryFromIntError>(v as usize),
        v < 0 ==> <usize as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) is Err;

/// Comparing constants, strings only.
#[verifier::external_body]
pub fn vx_contains(v: &Vec<crate::function::constant::Constant>, c: &crate::function::constant::Constant) -> (r: bool)
    requires view_constant(*c) is String
    ensures r == view_constants(v@).contains(view_constant(*c))
{ v.contains(c) }
#[verifier::external_body]
pub fn vx_string_eq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub trait VxPosition<T> {
    spec fn vx_items(&self) -> Seq<T>;
    fn vx_position<F: Fn(&T) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.vx_items().len() ==> call_requires(f, (&#[trigger] self.vx_items()[i],))
        ensures match r {
            Some(k) => k < self.vx_items().len() && call_ensures(f, (&self.vx_items()[k as int],), true)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.vx_items()[i],), false),
            None => forall|i: int| 0 <= i < self.vx_items().len() ==> call_ensures(f, (&#[trigger] self.vx_items()[i],), false),
        };
}
impl<T> VxPosition<T> for Vec<T> {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_position<F: Fn(&T) -> bool>(&self, f: F) -> (r: Option<usize>) { self.iter().position(f) }
}

/// Room for `n` elements can be allocated: true for small numbers, and for as
/// many as something that is in memory has. Asking for more than that panics, or
/// ends the process.
pub uninterp spec fn vx_allocated(n: int) -> bool;
pub broadcast axiom fn ax_allocated<T>(v: Vec<T>, n: int)
    requires 0 <= n <= v@.len() + 0x10000
    ensures #![trigger v@.len(), vx_allocated(n)] vx_allocated(n);
pub broadcast axiom fn ax_allocated_slice<T>(v: &[T], n: int)
    requires 0 <= n <= v@.len() + 0x10000
    ensures #![trigger v@.len(), vx_allocated(n)] vx_allocated(n);
#[verifier::external_body]
pub fn vx_vec_with_capacity<T>(n: usize) -> (r: Vec<T>) requires n <= 0x10000 || vx_allocated(n as int) ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vx_string_with_capacity(n: usize) -> (r: String) requires n <= 0x10000 || vx_allocated(n as int) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
pub trait VxReserve {
    spec fn vx_same(&self, other: &Self) -> bool;
    fn vx_reserve(&mut self, n: usize) requires n <= 0x10000 || vx_allocated(n as int) ensures old(self).vx_same(final(self));
}
impl<T> VxReserve for Vec<T> {
    open spec fn vx_same(&self, other: &Self) -> bool { self@ == other@ }
    #[verifier::external_body]
    fn vx_reserve(&mut self, n: usize) { self.reserve(n) }
}

/// `into_iter().map(f).collect()` into a `Result`.
#[verifier::external_body]
pub fn vx_try_map<T, U, E, F: Fn(T) -> Result<U, E>>(v: Vec<T>, f: F) -> (r: Result<Vec<U>, E>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures match r {
        Ok(u) => u@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (#[trigger] v@[i],), Ok::<U, E>(u@[i])),
        Err(e) => exists|k: int| 0 <= k < v@.len() && call_ensures(f, (#[trigger] v@[k],), Err::<U, E>(e))
            && forall|i: int| 0 <= i < k ==> exists|u: U| call_ensures(f, (#[trigger] v@[i],), Ok::<U, E>(u)),
    }
{ v.into_iter().map(f).collect() }

pub trait VxToVec<T> {
    spec fn vx_slice(&self) -> Seq<T>;
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_slice();
}
impl VxToVec<u8> for [u8] {
    open spec fn vx_slice(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}

pub trait VxIntoString: Sized {
    spec fn vx_chars(&self) -> Seq<char>;
    fn vx_into_string(self) -> (r: String) ensures r@ == self.vx_chars();
}
impl VxIntoString for Vec<char> {
    open spec fn vx_chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_into_string(self) -> (r: String) { self.into_iter().collect() }
}

/// The first byte of the number one in memory, which is how the code finds the endianness of the machine.
#[verifier::external_body]
pub fn vx_first_byte_of_one() -> (r: u8) ensures r <= 1 { unsafe { *(&1u32 as *const u32 as *const u8) } }
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { unreachable!() }

pub trait VxInt: core::fmt::Display + Copy { spec fn vx_value(self) -> int; }
impl VxInt for i32 { open spec fn vx_value(self) -> int { self as int } }
impl VxInt for u32 { open spec fn vx_value(self) -> int { self as int } }
impl VxInt for i64 { open spec fn vx_value(self) -> int { self as int } }
impl VxInt for u64 { open spec fn vx_value(self) -> int { self as int } }
impl VxInt for usize { open spec fn vx_value(self) -> int { self as int } }
#[verifier::external_body]
pub fn vx_format_temp<A: VxInt, B: VxInt>(a: A, b: B) -> (r: String)
    requires a.vx_value() >= 0, b.vx_value() >= 0
    ensures r@ == temp_name(a.vx_value() as nat, b.vx_value() as nat)
{ format!("__%lunify%__temp{}_{}\0", a, b) }
#[verifier::external_body]
pub fn vx_format_terminated(s: &str) -> (r: String) ensures r@ == s@.push('\0') { format!("{}\0", s) }

}
