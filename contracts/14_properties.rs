/// C02, C04, C05 and C16 as theorems over the specifications of the bytes.
pub mod prop_bytes {
use vstd::prelude::*;
use crate::vx::*;
use crate::number::*;
use crate::format::*;
use crate::function::instruction::*;
use crate::function::instruction::operand::layout::*;
use crate::*;

/// `b` is what the input holds at `o`.
pub open spec fn at(d: Seq<u8>, o: int, b: Seq<u8>) -> bool { 0 <= o && o + b.len() <= d.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] d[o + i] == b[i] }
pub proof fn lemma_at(d: Seq<u8>, o: int, a: Seq<u8>, b: Seq<u8>)
    ensures at(d, o, a + b) == (at(d, o, a) && at(d, o + a.len(), b))
{
    if at(d, o, a + b) {
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] d[o + i] == a[i] by { assert((a + b)[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] d[o + a.len() + i] == b[i] by { assert((a + b)[a.len() + i] == b[i]); assert(d[o + (a.len() + i)] == b[i]); }
    }
    if at(d, o, a) && at(d, o + a.len(), b) {
        assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] d[o + i] == (a + b)[i] by {
            if i >= a.len() { let j = i - a.len(); assert(d[o + a.len() + j] == b[j]); }
        }
    }
}
pub proof fn lemma_at_slice(d: Seq<u8>, o: int, b: Seq<u8>)
    requires 0 <= o
    ensures at(d, o, b) == (p_slice(d, o, b.len() as int) == Ok::<(Seq<u8>, int), LunifyError>((b, (o + b.len()) as int)))
{
    if at(d, o, b) {
        let x = d.subrange(o, o + b.len());
        assert forall|i: int| 0 <= i < x.len() implies x[i] == b[i] by { assert(d[o + i] == b[i]); }
        assert(x =~= b);
    }
    if p_slice(d, o, b.len() as int) == Ok::<(Seq<u8>, int), LunifyError>((b, o + b.len())) {
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] d[o + i] == b[i] by { assert(d.subrange(o, o + b.len())[i] == b[i]); }
    }
}
proof fn lemma_un32(w: u32)
    ensures un_le32(le32(w)) == w
{
    let (a, b, c, d) = ((w & 0xff) as u8, ((w >> 8) & 0xff) as u8, ((w >> 16) & 0xff) as u8, ((w >> 24) & 0xff) as u8);
    assert((((w & 0xff) as u8) as u32) | ((((w >> 8) & 0xff) as u8) as u32) << 8 | ((((w >> 16) & 0xff) as u8) as u32) << 16 | ((((w >> 24) & 0xff) as u8) as u32) << 24 == w) by (bit_vector);
}
proof fn lemma_un64(w: u64)
    ensures un_le64(le64(w)) == w
{
    assert((((w & 0xff) as u8) as u64) | ((((w >> 8) & 0xff) as u8) as u64) << 8 | ((((w >> 16) & 0xff) as u8) as u64) << 16 | ((((w >> 24) & 0xff) as u8) as u64) << 24
        | ((((w >> 32) & 0xff) as u8) as u64) << 32 | ((((w >> 40) & 0xff) as u8) as u64) << 40 | ((((w >> 48) & 0xff) as u8) as u64) << 48 | ((((w >> 56) & 0xff) as u8) as u64) << 56 == w) by (bit_vector);
}
pub proof fn lemma_ordered(s: Seq<u8>, e: Endianness)
    ensures ordered(ordered(s, e), e) == s, ordered(s, e).len() == s.len()
{ assert(s.reverse().reverse() =~= s); }

/// C05: every integer that can be written is read back as it is; otherwise writing fails.
pub proof fn prop_c05_integer(v: i64, w: BitWidth, e: Endianness, d: Seq<u8>, o: int)
    ensures
        w_i(v, w, e) is Err <==> w is Bit32 && !(i32::MIN <= v <= i32::MAX),
        w_i(v, w, e) matches Err(x) ==> x == LunifyError::IntegerOverflow,
        w_i(v, w, e) matches Ok(b) ==> b.len() == width_bytes(w) && (at(d, o, b) ==> p_i(d, o, w, e) == Ok::<(i64, int), LunifyError>((v, (o + b.len()) as int))),
{
    let (a, b) = (le32((v as i32) as u32), le64(v as u64));
    lemma_ordered(a, e); lemma_ordered(b, e);
    lemma_un32((v as i32) as u32); lemma_un64(v as u64);
    assert(i32::MIN <= v <= i32::MAX ==> (((v as i32) as u32) as i32) as i64 == v) by (bit_vector);
    assert((v as u64) as i64 == v) by (bit_vector);
    match w_i(v, w, e) { Ok(b) => if at(d, o, b) { lemma_at_slice(d, o, b); }, Err(_) => {} }
}
/// C05, C07: the same for instruction words.
pub proof fn prop_c05_word(v: u64, f: Format, d: Seq<u8>, o: int)
    ensures
        w_instruction(v, f) is Err <==> f.instruction_width is Bit32 && v > u32::MAX,
        w_instruction(v, f) matches Err(x) ==> x == LunifyError::ValueTooBigForOperand,
        w_instruction(v, f) matches Ok(b) ==> b.len() == width_bytes(f.instruction_width) && (at(d, o, b) ==> p_instruction(d, o, f) == Ok::<(u64, int), LunifyError>((v, (o + b.len()) as int))),
{
    let (a, b) = (le32(v as u32), le64(v));
    lemma_ordered(a, f.endianness); lemma_ordered(b, f.endianness);
    lemma_un32(v as u32); lemma_un64(v);
    match w_instruction(v, f) { Ok(b) => if at(d, o, b) { lemma_at_slice(d, o, b); }, Err(_) => {} }
}
/// The number that is stored for `n`.
pub open spec fn stored(n: Number, f: Format) -> Number {
    if f.is_number_integral { Number::Integer(number_integer(n)->Ok_0) }
    else if f.number_width is Bit64 { Number::Float(number_float(n)->Ok_0) }
    else { Number::Float(f64_of_f32(f32_of_f64(number_float(n)->Ok_0))) }
}
/// C05: the output holds the value of the number as an integer or as a float
/// (number_integer and number_float are exact or fail, which Kani decides), and
/// only floats are ever rounded, to single precision.
pub proof fn prop_c05_number(n: Number, f: Format, d: Seq<u8>, o: int)
    ensures w_number(n, f) matches Ok(b) ==> {
        &&& b.len() == width_bytes(f.number_width)
        &&& at(d, o, b) ==> p_number(d, o, f) == Ok::<(Number, int), LunifyError>((stored(n, f), (o + b.len()) as int))
        &&& if f.is_number_integral { number_integer(n) is Ok } else {
            &&& number_float(n) is Ok
            &&& n is Integer && f.number_width is Bit32 ==> f64_eq(f64_of_f32(f32_of_f64(number_float(n)->Ok_0)), number_float(n)->Ok_0)
        }
    }
{
    if f.is_number_integral {
        if number_integer(n) is Ok { prop_c05_integer(number_integer(n)->Ok_0, f.number_width, f.endianness, d, o); }
    } else if number_float(n) is Ok {
        let v = number_float(n)->Ok_0;
        let (a, b) = (f32_bits(f32_of_f64(v)), f64_bits(v));
        ax_float_bits(v, f32_of_f64(v));
        lemma_un32(a); lemma_un64(b);
        lemma_ordered(le32(a), f.endianness); lemma_ordered(le64(b), f.endianness);
        match w_number(n, f) { Ok(b) => if at(d, o, b) { lemma_at_slice(d, o, b); }, Err(_) => {} }
    }
}

pub proof fn lemma_bytes_of_chars(s: Seq<u8>)
    ensures bytes_of(chars(s)) == s
{ assert(bytes_of(chars(s)) =~= s); }
/// Every character stands for a byte.
pub open spec fn byte_string(s: Seq<char>) -> bool { s == chars(bytes_of(s)) && s.len() <= 0x7fff_ffff_ffff_ffff }
/// C04: the output holds exactly the bytes of the input, behind their number in
/// the width of the output; and it fails exactly if the number doesn't fit.
pub proof fn prop_c04(d: Seq<u8>, o: int, f: Format, g: Format, e: Seq<u8>, q: int)
    requires 0 <= o, d.len() <= 0x7fff_ffff_ffff_ffff
    ensures p_string(d, o, f) matches Ok((s, p)) ==> {
        let text = o + width_bytes(f.size_t_width);
        &&& text <= p <= d.len() && byte_string(s)
        &&& p_size_t(d, o, f) == Ok::<(i64, int), LunifyError>(((p - text) as i64, text))
        &&& bytes_of(s) == d.subrange(text, p)
        &&& w_string(s, g) is Err <==> g.size_t_width is Bit32 && p - text > i32::MAX
        &&& w_string(s, g) matches Err(x) ==> x == LunifyError::IntegerOverflow
        &&& w_string(s, g) matches Ok(b) ==> {
            &&& b == w_size_t((p - text) as i64, g)->Ok_0 + d.subrange(text, p)
            &&& at(e, q, b) ==> p_string(e, q, g) == Ok::<(Seq<char>, int), LunifyError>((s, (q + b.len()) as int))
        }
    }
{
    match p_string(d, o, f) {
        Ok((s, p)) => {
            let text = o + width_bytes(f.size_t_width);
            lemma_bytes_of_chars(d.subrange(text, p));
            lemma_string(s, g, e, q);
        },
        Err(_) => {},
    }
}
pub proof fn lemma_string(s: Seq<char>, g: Format, e: Seq<u8>, q: int)
    requires byte_string(s)
    ensures
        w_string(s, g) is Err <==> g.size_t_width is Bit32 && s.len() > i32::MAX,
        w_string(s, g) matches Err(x) ==> x == LunifyError::IntegerOverflow,
        w_string(s, g) matches Ok(b) ==> b.len() >= 4 && (at(e, q, b) ==> p_string(e, q, g) == Ok::<(Seq<char>, int), LunifyError>((s, (q + b.len()) as int)))
{
    let n = s.len() as i64;
    prop_c05_integer(n, g.size_t_width, g.endianness, e, q);
    match w_string(s, g) {
        Ok(b) => {
            let l = w_size_t(n, g)->Ok_0;
            if at(e, q, b) { lemma_at(e, q, l, bytes_of(s)); lemma_at_slice(e, q + l.len(), bytes_of(s)); }
        },
        Err(_) => {},
    }
}

/// C02: what is accepted, and the header of the output. `s` has no signature
/// that would make it ambiguous where the version is.
pub open spec fn clear(s: Settings) -> bool {
    let (a, b) = (s.lua50.binary_signature.spec_bytes(), s.output.binary_signature.spec_bytes());
    a.len() == b.len() || !starts(b, a) && !starts(a, b)
}
pub open spec fn read_signature(d: Seq<u8>, s: Settings) -> Seq<u8> {
    if has_signature(d, s.lua50.binary_signature.spec_bytes()) { s.lua50.binary_signature.spec_bytes() } else { s.lua51.binary_signature.spec_bytes() }
}
pub open spec fn kind_byte(b: u8, integral: bool) -> bool { (b == 1) == integral }
proof fn lemma_format51(d: Seq<u8>, o: int)
    requires 0 <= o
    ensures p_format51(d, o) matches Ok((f, p)) ==> p == o + 7 && p <= d.len() && d[o] == f.format && d[o + 1] == endian_byte(f.endianness) && d[o + 2] == width_byte(f.integer_width) && d[o + 3] == width_byte(f.size_t_width)
                && d[o + 4] == width_byte(f.instruction_width) && d[o + 5] == width_byte(f.number_width) && kind_byte(d[o + 6], f.is_number_integral)
{}
proof fn lemma_header(d: Seq<u8>, s: Settings)
    ensures p_header(d, s) matches Ok(((v, f), o)) ==> {
        let n = read_signature(d, s).len() as int;
        &&& has_signature(d, read_signature(d, s))
        &&& (d[n] == 0x50 || d[n] == 0x51) && version_byte(v) == d[n]
        &&& v is Lua51 ==> p_format51(d, n + 1) == Ok::<(Format, int), LunifyError>((f, o))
    }
{ hide(p_format51); hide(p_format50); }
pub proof fn prop_c02(d: Seq<u8>, out: Format, s: Settings)
    ensures spec_unify(d, out, s) matches Ok(r) ==> {
        let n = read_signature(d, s).len() as int;
        let sig = s.output.binary_signature.spec_bytes();
        let m = sig.len() as int;
        // what is accepted
        &&& has_signature(d, read_signature(d, s))
        &&& d[n] == 0x50 || d[n] == 0x51
        &&& p_header(d, s) matches Ok(((v, f), o)) && version_byte(v) == d[n] && {
            &&& v is Lua51 ==> o == n + 8 && o <= d.len() && d[n + 1] == f.format && d[n + 2] == endian_byte(f.endianness) && d[n + 3] == width_byte(f.integer_width) && d[n + 4] == width_byte(f.size_t_width)
                && d[n + 5] == width_byte(f.instruction_width) && d[n + 6] == width_byte(f.number_width) && kind_byte(d[n + 7], f.is_number_integral)
            // the input, if nothing has to be converted
            &&& v is Lua51 && f == out && settings_eq(s.lua51, s.output) && starts(d, sig) ==> r == d
            // the header of the output
            &&& !(v is Lua51 && f == out && settings_eq(s.lua51, s.output) && starts(d, sig)) ==> r.len() >= m + 8 && r.subrange(0, m + 8) == (sig.push(0x51) + header_bytes(out))
        }
    }
{
    hide(p_header); hide(p_format51); hide(w_function); hide(p_function);
    lemma_header(d, s); lemma_format51(d, read_signature(d, s).len() as int + 1);
    match spec_unify(d, out, s) {
        Ok(r) => {
            let ((v, f), o) = p_header(d, s)->Ok_0;
            if !is_unified(d, v, f, out, s) {
                let w = w_header(out, s);
                let x = w_function(p_function(d, o, f, v, s, 0)->Ok_0.0, out)->Ok_0;
                assert(r == w + x);
                assert(w.len() == s.output.binary_signature.spec_bytes().len() + 8);
                assert(r.subrange(0, w.len() as int) =~= w);
            }
        },
        Err(_) => {},
    }
}
/// C02: the same header, if the input is returned as it is.
pub proof fn prop_c02_same(d: Seq<u8>, out: Format, s: Settings)
    requires clear(s)
    ensures spec_unify(d, out, s) matches Ok(r) ==> {
        let sig = s.output.binary_signature.spec_bytes();
        let m = sig.len() as int;
        r.len() >= m + 8 && r.subrange(0, m) == sig && r[m] == 0x51 && r.subrange(m + 1, m + 7) == header_bytes(out).subrange(0, 6) && kind_byte(r[m + 7], out.is_number_integral)
    }
{
    hide(p_header); hide(w_function); hide(p_function);
    let sig = s.output.binary_signature.spec_bytes();
    let m = sig.len() as int;
    prop_c02(d, out, s);
    match spec_unify(d, out, s) {
        Ok(r) => {
            let ((v, f), o) = p_header(d, s)->Ok_0;
            if is_unified(d, v, f, out, s) {
                let a = read_signature(d, s);
                let n = a.len() as int;
                if has_signature(d, s.lua50.binary_signature.spec_bytes()) {
                    if n < m { assert(sig.subrange(0, n) =~= d.subrange(0, n)); assert(starts(sig, a)); }
                    if m < n { assert(a.subrange(0, m) =~= d.subrange(0, m)); assert(starts(a, sig)); }
                } else {
                    assert(settings_eq(s.lua51, s.output));
                    ax_str_same(s.lua51.binary_signature, s.output.binary_signature);
                }
                assert(n == m);
                assert(r.subrange(m + 1, m + 7) =~= header_bytes(out).subrange(0, 6));
            } else {
                let w = sig.push(0x51) + header_bytes(out);
                assert forall|i: int| 0 <= i < m + 8 implies #[trigger] r[i] == w[i] by { assert(r.subrange(0, m + 8)[i] == r[i]); }
                assert(r.subrange(0, m) =~= sig);
                assert(r[m] == w[m]);
                assert(r.subrange(m + 1, m + 7) =~= header_bytes(out).subrange(0, 6));
                assert(r[m + 7] == w[m + 7]);
            }
        },
        Err(_) => {},
    }
}

/// C16: what a Lua 5.0 header has to be, and how it selects the kind of numbers.
pub proof fn prop_c16(d: Seq<u8>, o: int, l: InstructionLayout)
    requires 0 <= o
    ensures
        p_format50(d, o, l) matches Ok((f, p)) ==> {
            &&& p == o + 9 + width_bytes(f.number_width) && p <= d.len()
            &&& d[o] == endian_byte(f.endianness) && d[o + 1] == width_byte(f.integer_width) && d[o + 2] == width_byte(f.size_t_width) && d[o + 3] == width_byte(f.instruction_width)
            &&& d[o + 4] == l.opcode.size as u8 && d[o + 5] == l.a.size as u8 && d[o + 6] == l.b.size as u8 && d[o + 7] == l.c.size as u8
            &&& d[o + 8] == width_byte(f.number_width)
            &&& f.is_number_integral == !f64_eq(de_f(d.subrange(o + 9, p), f.number_width, f.endianness), test_number(f.number_width))
        },
        o + 17 <= d.len() ==> match p_format50(d, o, l) {
            Ok(_) => true,
            Err(e) =>
                if d[o] > 1 { e == LunifyError::InvaildEndianness(d[o]) }
                else if d[o + 1] != 4 && d[o + 1] != 8 { e == LunifyError::UnsupportedIntegerWidth(d[o + 1]) }
                else if d[o + 2] != 4 && d[o + 2] != 8 { e == LunifyError::UnsupportedSizeTWidth(d[o + 2]) }
                else if d[o + 3] != 4 && d[o + 3] != 8 { e == LunifyError::UnsupportedInstructionWidth(d[o + 3]) }
                else if d.subrange(o + 4, o + 8) != layout_sizes(l) { e matches LunifyError::UnsupportedInstructionFormat(a) && a == array4(d.subrange(o + 4, o + 8)) }
                else { d[o + 8] != 4 && d[o + 8] != 8 && e == LunifyError::UnsupportedNumberWidth(d[o + 8]) },
        },
{
    match p_format50(d, o, l) {
        Ok((f, p)) => {
            let sizes = d.subrange(o + 4, o + 8);
            assert(sizes == layout_sizes(l));
            assert(sizes[0] == d[o + 4] && sizes[1] == d[o + 5] && sizes[2] == d[o + 6] && sizes[3] == d[o + 7]);
        },
        Err(_) => {},
    }
}
}
