//! The functions that Verus takes on trust, each decided over its full domain
//! by Kani: the number conversions of /repo, whose source is included here as
//! it is, and the functions of the standard library behind the wrappers of
//! contracts/00_prelude.rs.
#![allow(dead_code, unused)]

#[path = "/repo/src/error.rs"]
mod error;
#[path = "/repo/src/number.rs"]
mod number;
pub use error::LunifyError;

#[cfg(kani)]
mod harness {
    use super::number::Number;
    use super::LunifyError;

    /// An integer number keeps its value.
    #[kani::proof]
    fn integer_as_integer() {
        let v: i64 = kani::any();
        assert!(Number::Integer(v).as_integer() == Ok(v));
    }
    /// A float is an integer of the same value, or the conversion fails.
    #[kani::proof]
    fn float_as_integer() {
        let f: f64 = kani::any();
        match Number::Float(f).as_integer() {
            Ok(v) => {
                // Both conversions are exact: the magnitude of `f` is below 2^63 and it is integral.
                assert!(f >= -9223372036854775808.0 && f < 9223372036854775808.0);
                assert!(v as f64 == f);
                // Beyond 2^53 the float has no fraction and steps over integers, so check the way back too.
                assert!((v as f64) as i64 == v);
            }
            // Only what is out of range: 2^63 and everything bigger, infinities included.
            Err(LunifyError::IntegerOverflow) => assert!(f >= 9223372036854775808.0 || f < -9223372036854775808.0),
            // Only what has a fraction, or is not a number.
            Err(LunifyError::FloatPrecisionLoss) => {
                assert!(f.is_nan() || f > -4503599627370496.0 && f < 4503599627370496.0 && (f as i64) as f64 != f)
            }
            Err(_) => panic!(),
        }
    }
    /// A float keeps its bits.
    #[kani::proof]
    fn float_as_float() {
        let f: f64 = kani::any();
        assert!(matches!(Number::Float(f).as_float(), Ok(g) if g.to_bits() == f.to_bits()));
    }
    /// An integer becomes a float exactly if a float has the same value.
    #[kani::proof]
    fn integer_as_float() {
        let v: i64 = kani::any();
        // Exact if the magnitude without its trailing zeros fits the 53 bits of the significand.
        let magnitude = v.unsigned_abs();
        let exact = v == 0 || (magnitude >> magnitude.trailing_zeros()) < 1 << 53;
        match Number::Integer(v).as_float() {
            Ok(f) => assert!(exact && f == v as f64 && f as i64 == v),
            Err(e) => assert!(!exact && e == LunifyError::IntegerOverflow),
        }
    }

    fn le32(w: u32) -> [u8; 4] {
        [(w & 0xff) as u8, ((w >> 8) & 0xff) as u8, ((w >> 16) & 0xff) as u8, ((w >> 24) & 0xff) as u8]
    }
    fn le64(w: u64) -> [u8; 8] {
        let mut r = [0; 8];
        r[..4].copy_from_slice(&le32(w as u32));
        r[4..].copy_from_slice(&le32((w >> 32) as u32));
        r
    }
    fn un_le32(b: [u8; 4]) -> u32 {
        b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24
    }
    fn un_le64(b: [u8; 8]) -> u64 {
        un_le32([b[0], b[1], b[2], b[3]]) as u64 | (un_le32([b[4], b[5], b[6], b[7]]) as u64) << 32
    }
    fn rev4(b: [u8; 4]) -> [u8; 4] {
        [b[3], b[2], b[1], b[0]]
    }
    fn rev8(b: [u8; 8]) -> [u8; 8] {
        [b[7], b[6], b[5], b[4], b[3], b[2], b[1], b[0]]
    }

    #[kani::proof]
    fn bytes_of_words() {
        let a: u32 = kani::any();
        let b: u64 = kani::any();
        assert!(a.to_le_bytes() == le32(a) && a.to_be_bytes() == rev4(le32(a)));
        assert!(b.to_le_bytes() == le64(b) && b.to_be_bytes() == rev8(le64(b)));
        assert!((a as i32).to_le_bytes() == le32(a) && (a as i32).to_be_bytes() == rev4(le32(a)));
        assert!((b as i64).to_le_bytes() == le64(b) && (b as i64).to_be_bytes() == rev8(le64(b)));
        let f = f32::from_bits(a);
        let g = f64::from_bits(b);
        assert!(f.to_le_bytes() == le32(f.to_bits()) && f.to_be_bytes() == rev4(le32(f.to_bits())));
        assert!(g.to_le_bytes() == le64(g.to_bits()) && g.to_be_bytes() == rev8(le64(g.to_bits())));
    }
    #[kani::proof]
    fn words_of_bytes() {
        let a: [u8; 4] = kani::any();
        let b: [u8; 8] = kani::any();
        assert!(u32::from_le_bytes(a) == un_le32(a) && u32::from_be_bytes(a) == un_le32(rev4(a)));
        assert!(u64::from_le_bytes(b) == un_le64(b) && u64::from_be_bytes(b) == un_le64(rev8(b)));
        assert!(i32::from_le_bytes(a) == un_le32(a) as i32 && i32::from_be_bytes(a) == un_le32(rev4(a)) as i32);
        assert!(i64::from_le_bytes(b) == un_le64(b) as i64 && i64::from_be_bytes(b) == un_le64(rev8(b)) as i64);
        assert!(f32::from_le_bytes(a).to_bits() == un_le32(a) && f32::from_be_bytes(a).to_bits() == un_le32(rev4(a)));
        assert!(f64::from_le_bytes(b).to_bits() == un_le64(b) && f64::from_be_bytes(b).to_bits() == un_le64(rev8(b)));
    }
    #[kani::proof]
    fn arithmetic() {
        let x: u64 = kani::any();
        let y: i64 = kani::any();
        let z = x as i128 + y as i128;
        let r = if z < 0 { 0 } else if z > u64::MAX as i128 { u64::MAX as i128 } else { z };
        assert!(x.saturating_add_signed(y) as i128 == r);
        assert!(match usize::try_from(y) { Ok(u) => y >= 0 && u == y as usize, Err(_) => y < 0 });
        let o: Option<u64> = kani::any();
        assert!(o.as_ref().copied() == o);
    }
    /// The value of a float that was widened is never lost when it is narrowed again.
    #[kani::proof]
    fn float_round_trip() {
        let f: f32 = kani::any();
        let g = f as f64 as f32;
        assert!(f.is_nan() && g.is_nan() || f.to_bits() == g.to_bits());
    }
}
