/// Specification of the byte level: what the reader takes from the input and
/// what the writer puts into the output.
pub mod sp_bytes {
use vstd::prelude::*;
use crate::vx::*;
use crate::number::*;
use crate::format::*;
use crate::serialization::*;
use crate::*;

/// Result of reading a value: the value and the offset behind it.
pub type Parse<T> = Result<(T, int), LunifyError>;

pub open spec fn width_bytes(w: BitWidth) -> int { match w { BitWidth::Bit32 => 4, BitWidth::Bit64 => 8 } }

/// C03: reading beyond the end of the input is always `InputTooShort`.
pub open spec fn p_slice(d: Seq<u8>, o: int, n: int) -> Parse<Seq<u8>> {
    if o + n <= d.len() { Ok((d.subrange(o, o + n), o + n)) } else { Err(LunifyError::InputTooShort) }
}
/// C02: the input starts with the signature and doesn't end there.
pub open spec fn has_signature(d: Seq<u8>, sig: Seq<u8>) -> bool { sig.len() < d.len() && d.subrange(0, sig.len() as int) == sig }
pub open spec fn p_byte(d: Seq<u8>, o: int) -> Parse<u8> {
    if o < d.len() { Ok((d[o], o + 1)) } else { Err(LunifyError::InputTooShort) }
}
/// Bytes in little endian order.
pub open spec fn ordered(s: Seq<u8>, e: Endianness) -> Seq<u8> {
    match e { Endianness::Little => s, Endianness::Big => rev(s) }
}
/// C05: a signed integer of the given width, sign extended.
pub open spec fn de_i(s: Seq<u8>, w: BitWidth, e: Endianness) -> i64 {
    match w { BitWidth::Bit32 => (un_le32(ordered(s, e)) as i32) as i64, BitWidth::Bit64 => un_le64(ordered(s, e)) as i64 }
}
/// C07: an instruction word of the given width, zero extended.
pub open spec fn de_u(s: Seq<u8>, w: BitWidth, e: Endianness) -> u64 {
    match w { BitWidth::Bit32 => un_le32(ordered(s, e)) as u64, BitWidth::Bit64 => un_le64(ordered(s, e)) }
}
/// C05: a floating point number of the given width.
pub open spec fn de_f(s: Seq<u8>, w: BitWidth, e: Endianness) -> f64 {
    match w {
        BitWidth::Bit32 => f64_of_f32(f32_of_bits(un_le32(ordered(s, e)))),
        BitWidth::Bit64 => f64_of_bits(un_le64(ordered(s, e))),
    }
}
pub open spec fn p_i(d: Seq<u8>, o: int, w: BitWidth, e: Endianness) -> Parse<i64> {
    match p_slice(d, o, width_bytes(w)) { Ok((s, o)) => Ok((de_i(s, w, e), o)), Err(x) => Err(x) }
}
pub open spec fn p_u(d: Seq<u8>, o: int, w: BitWidth, e: Endianness) -> Parse<u64> {
    match p_slice(d, o, width_bytes(w)) { Ok((s, o)) => Ok((de_u(s, w, e), o)), Err(x) => Err(x) }
}
pub open spec fn p_f(d: Seq<u8>, o: int, w: BitWidth, e: Endianness) -> Parse<f64> {
    match p_slice(d, o, width_bytes(w)) { Ok((s, o)) => Ok((de_f(s, w, e), o)), Err(x) => Err(x) }
}
pub open spec fn p_integer(d: Seq<u8>, o: int, f: Format) -> Parse<i64> { p_i(d, o, f.integer_width, f.endianness) }
pub open spec fn p_size_t(d: Seq<u8>, o: int, f: Format) -> Parse<i64> { p_i(d, o, f.size_t_width, f.endianness) }
pub open spec fn p_instruction(d: Seq<u8>, o: int, f: Format) -> Parse<u64> { p_u(d, o, f.instruction_width, f.endianness) }
pub open spec fn p_number(d: Seq<u8>, o: int, f: Format) -> Parse<Number> {
    if f.is_number_integral {
        match p_i(d, o, f.number_width, f.endianness) { Ok((n, o)) => Ok((Number::Integer(n), o)), Err(x) => Err(x) }
    } else {
        match p_f(d, o, f.number_width, f.endianness) { Ok((n, o)) => Ok((Number::Float(n), o)), Err(x) => Err(x) }
    }
}
/// C04: one character for every byte.
pub open spec fn chars(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
pub open spec fn p_string(d: Seq<u8>, o: int, f: Format) -> Parse<Seq<char>> {
    match p_size_t(d, o, f) {
        Ok((n, o)) => if n < 0 { Err(LunifyError::InputTooShort) } else {
            match p_slice(d, o, n as int) { Ok((s, o)) => Ok((chars(s), o)), Err(x) => Err(x) }
        },
        Err(x) => Err(x),
    }
}

/// Number of bytes that a proof about a stream may assume: an allocation never
/// has more than `isize::MAX` bytes.
pub open spec fn stream_ok(s: &crate::serialization::stream::ByteStream) -> bool {
    s.offset <= s.data@.len() && s.data@.len() <= 0x7fff_ffff_ffff_ffff
}
/// What a read of `T` does to the stream.
pub open spec fn reads<T, S>(old: &crate::serialization::stream::ByteStream, new: &crate::serialization::stream::ByteStream, r: Result<T, LunifyError>, p: Parse<S>, v: spec_fn(T) -> S) -> bool {
    &&& new.data@ == old.data@
    &&& new.format == old.format
    &&& match p {
        Ok((x, o)) => r is Ok && v(r->Ok_0) == x && new.offset == o && stream_ok(new),
        Err(e) => r is Err && r->Err_0 == e,
    }
}

// ------------------------------------------------------------------ writing

pub type Written = Result<Seq<u8>, LunifyError>;

pub open spec fn reordered(s: Seq<u8>, e: Endianness) -> Seq<u8> { ordered(s, e) }
/// C05: integers that don't fit are an error and never truncated.
pub open spec fn w_i(v: i64, w: BitWidth, e: Endianness) -> Written {
    match w {
        BitWidth::Bit32 => if -0x8000_0000 <= v <= 0x7fff_ffff { Ok(ordered(le32((v as i32) as u32), e)) } else { Err(LunifyError::IntegerOverflow) },
        BitWidth::Bit64 => Ok(ordered(le64(v as u64), e)),
    }
}
pub open spec fn w_integer(v: i64, f: Format) -> Written { w_i(v, f.integer_width, f.endianness) }
pub open spec fn w_size_t(v: i64, f: Format) -> Written { w_i(v, f.size_t_width, f.endianness) }
/// C07: instructions that don't fit are an error and never truncated.
pub open spec fn w_instruction(v: u64, f: Format) -> Written {
    match f.instruction_width {
        BitWidth::Bit32 => if v <= 0xffff_ffff { Ok(ordered(le32(v as u32), f.endianness)) } else { Err(LunifyError::ValueTooBigForOperand) },
        BitWidth::Bit64 => Ok(ordered(le64(v), f.endianness)),
    }
}
pub open spec fn w_number(n: Number, f: Format) -> Written {
    if f.is_number_integral {
        match number_integer(n) { Ok(v) => w_i(v, f.number_width, f.endianness), Err(x) => Err(x) }
    } else {
        match number_float(n) {
            Ok(v) => match f.number_width {
                BitWidth::Bit32 =>
                    if n is Integer && !f64_eq(f64_of_f32(f32_of_f64(v)), v) { Err(LunifyError::IntegerOverflow) }
                    else { Ok(ordered(le32(f32_bits(f32_of_f64(v))), f.endianness)) },
                BitWidth::Bit64 => Ok(ordered(le64(f64_bits(v)), f.endianness)),
            },
            Err(x) => Err(x),
        }
    }
}
/// C04: one byte for every character.
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub open spec fn w_string(s: Seq<char>, f: Format) -> Written {
    match w_size_t(s.len() as i64, f) { Ok(b) => Ok(b + bytes_of(s)), Err(x) => Err(x) }
}
pub open spec fn cat(a: Written, b: Written) -> Written {
    match a { Ok(x) => match b { Ok(y) => Ok(x + y), Err(e) => Err(e) }, Err(e) => Err(e) }
}
pub open spec fn writes(old: &crate::serialization::writer::ByteWriter, new: &crate::serialization::writer::ByteWriter, r: Result<(), LunifyError>, w: Written) -> bool {
    &&& new.format == old.format
    &&& match w {
        Ok(x) => r is Ok && new.data@ == old.data@ + x,
        Err(e) => r is Err && r->Err_0 == e,
    }
}
pub open spec fn header_bytes(f: Format) -> Seq<u8> {
    seq![f.format, endian_byte(f.endianness), width_byte(f.integer_width), width_byte(f.size_t_width), width_byte(f.instruction_width), width_byte(f.number_width), if f.is_number_integral { 1u8 } else { 0u8 }]
}
pub open spec fn endian_byte(e: Endianness) -> u8 { match e { Endianness::Big => 0, Endianness::Little => 1 } }
pub open spec fn width_byte(w: BitWidth) -> u8 { match w { BitWidth::Bit32 => 4, BitWidth::Bit64 => 8 } }
pub open spec fn p_width(b: u8) -> Result<BitWidth, u8> { if b == 4 { Ok(BitWidth::Bit32) } else if b == 8 { Ok(BitWidth::Bit64) } else { Err(b) } }
pub open spec fn p_endian(b: u8) -> Result<Endianness, LunifyError> {
    if b == 0 { Ok(Endianness::Big) } else if b == 1 { Ok(Endianness::Little) } else { Err(LunifyError::InvaildEndianness(b)) }
}
pub open spec fn p_version(b: u8) -> Result<LuaVersion, LunifyError> {
    if b == 0x50 { Ok(LuaVersion::Lua50) } else if b == 0x51 { Ok(LuaVersion::Lua51) } else { Err(LunifyError::UnsupportedVersion(b)) }
}
pub open spec fn version_byte(v: LuaVersion) -> u8 { match v { LuaVersion::Lua50 => 0x50, LuaVersion::Lua51 => 0x51 } }


// ------------------------------------------------------------------ lemmas

pub broadcast proof fn lemma_chars_ext(a: Seq<char>, s: Seq<u8>)
    requires a.len() == s.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == s[i] as char
    ensures #![trigger a.len(), chars(s)] a == chars(s)
{ assert(a =~= chars(s)); }
pub broadcast proof fn lemma_bytes_of_ext(a: Seq<u8>, s: Seq<char>)
    requires a.len() == s.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == s[i] as u8
    ensures #![trigger a.len(), bytes_of(s)] a == bytes_of(s)
{ assert(a =~= bytes_of(s)); }
pub broadcast proof fn lemma_cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_negative_usize(n: i64)
    ensures n < 0 ==> #[trigger] (n as usize) >= 0x8000_0000_0000_0000
{ assert(n < 0 ==> (n as u64) >= 0x8000_0000_0000_0000u64) by (bit_vector); }

}
