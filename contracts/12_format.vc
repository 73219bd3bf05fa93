@module format::endianness
@fn TryFrom<u8> for Endianness::try_from
@props C02 C03 C16 C17
@fn From<Endianness> for u8::from
@props C02 C17
@module format::width
@fn TryFrom<u8> for BitWidth::try_from
@props C02 C03 C16 C17
@fn From<BitWidth> for u8::from
@props C02 C17
@module format::version
@fn TryFrom<u8> for LuaVersion::try_from
@props C02 C03 C17
@fn From<LuaVersion> for u8::from
@props C02 C17
@module format
@fn Default for Format::default
@props C01 C02 C17
@ret r
@spec
    ensures r.format == 0, r.integer_width is Bit32, r.size_t_width is Bit64, r.instruction_width is Bit32, r.number_width is Bit64, !r.is_number_integral
@sub unsafe { * ( & 1u32 as * const u32 as * const u8 ) } => vx_first_byte_of_one()
@fn Format::from_byte_stream
@props C01 C02 C03 C16 C17
@spec
    requires stream_ok(old(byte_stream))
    ensures reads(old(byte_stream), final(byte_stream), r, p_format(old(byte_stream).data@, old(byte_stream).offset as int, version, settings.lua50.layout), |x: Format| x)
@begin
    broadcast use lemma_array4, lemma_sizes_ext;
@sub 31415926.535897933f32 as f64 => vx_test_number_32()
@sub 31415926.535897933 => vx_test_number_64()
@fn Format::write
@props C02 C17
@spec
    ensures final(byte_writer).data@ == old(byte_writer).data@ + header_bytes(*self), final(byte_writer).format == old(byte_writer).format
@module
@inject format::endianness
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for Endianness {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u8) -> Result<Self, Self::Error> { p_endian(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<Endianness> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Endianness) -> Self { endian_byte(v) }
}
@inject format::width
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for BitWidth {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u8) -> Result<Self, Self::Error> { p_width(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<BitWidth> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: BitWidth) -> Self { width_byte(v) }
}
@inject format::version
impl vstd::std_specs::convert::TryFromSpecImpl<u8> for LuaVersion {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u8) -> Result<Self, Self::Error> { p_version(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<LuaVersion> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: LuaVersion) -> Self { version_byte(v) }
}
@end
