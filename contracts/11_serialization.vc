@module serialization::stream
@fn ByteStream::new
@props C01
@spec
    ensures r.data@ == data@, r.offset == 0
@fn ByteStream::set_format
@props C03 C05 C17 C02 C16
@spec
    ensures final(self).data@ == old(self).data@, final(self).offset == old(self).offset, final(self).format == format
@fn ByteStream::remove_signature
@props C02 C03
@spec
    requires old(self).offset == 0, stream_ok(old(self)), old(self).data@.len() <= 0x7fff_ffff_ffff_ffff
    ensures
        final(self).data@ == old(self).data@, final(self).format == old(self).format, stream_ok(final(self)),
        r == has_signature(old(self).data@, signature.spec_bytes()),
        final(self).offset == (if r { signature.spec_bytes().len() } else { 0 }),
@after ? let signature_found = $* ;
    proof { let vx_s = signature.spec_bytes(); if old(self).data@.subrange(0, vx_s.len() as int) =~= vx_s {} }
@fn ByteStream::byte
@props C01 C03 C17 C02 C16 C06 C14
@spec
    requires stream_ok(old(self))
    ensures reads(old(self), final(self), r, p_byte(old(self).data@, old(self).offset as int), |x: u8| x)
@fn ByteStream::slice
@props C01 C03 C17 C04 C16
@spec
    requires stream_ok(old(self))
    ensures reads(old(self), final(self), r, p_slice(old(self).data@, old(self).offset as int, length as int), |x: &[u8]| x@)
@fn ByteStream::integer
@props C01 C03 C05 C06 C17 C13
@spec
    requires stream_ok(old(self))
    ensures reads(old(self), final(self), r, p_integer(old(self).data@, old(self).offset as int, old(self).format), |x: i64| x)
@fn ByteStream::size_t
@props C01 C03 C04 C05 C17
@spec
    requires stream_ok(old(self))
    ensures reads(old(self), final(self), r, p_size_t(old(self).data@, old(self).offset as int, old(self).format), |x: i64| x)
@fn ByteStream::instruction
@props C01 C03 C07 C17
@spec
    requires stream_ok(old(self))
    ensures reads(old(self), final(self), r, p_instruction(old(self).data@, old(self).offset as int, old(self).format), |x: u64| x)
@fn ByteStream::number
@props C01 C03 C05 C17 C16
@spec
    requires stream_ok(old(self))
    ensures reads(old(self), final(self), r, p_number(old(self).data@, old(self).offset as int, old(self).format), |x: Number| x)
@fn ByteStream::string
@props C01 C03 C04 C17
@spec
    requires stream_ok(old(self))
    ensures reads(old(self), final(self), r, p_string(old(self).data@, old(self).offset as int, old(self).format), |x: String| x@)
@begin
    broadcast use lemma_chars_ext, lemma_negative_usize;
@sub . map ( | & byte | byte as char ) . collect ( ) => .map(|vx_b: &u8| -> (vx_c: char) ensures vx_c == *vx_b as char { *vx_b as char }).collect::<Vec<char>>().vx_into_string()
@fn ByteStream::is_empty
@props C03
@spec
    ensures r == (self.offset >= self.data@.len())
@module serialization::writer
@fn ByteWriter::new
@props C02 C17
@spec
    ensures r.data@ == Seq::<u8>::empty(), r.format == format
@fn ByteWriter::byte
@props C06 C17 C02 C12 C14
@spec
    ensures final(self).data@ == old(self).data@.push(byte), final(self).format == old(self).format
@fn ByteWriter::slice
@props C04 C06 C17 C02 C05 C07
@spec
    ensures final(self).data@ == old(self).data@ + slice@, final(self).format == old(self).format
@fn ByteWriter::integer
@props C05 C06 C17 C13 C01
@spec
    ensures writes(old(self), final(self), r, w_integer(value, *old(self).format))
@fn ByteWriter::size_t
@props C04 C05 C17 C01
@spec
    ensures writes(old(self), final(self), r, w_size_t(value, *old(self).format))
@fn ByteWriter::instruction
@props C07 C17
@spec
    ensures writes(old(self), final(self), r, w_instruction(instruction, *old(self).format))
@fn ByteWriter::number
@props C05 C17
@spec
    ensures writes(old(self), final(self), r, w_number(value, *old(self).format))
@fn ByteWriter::narrow_integer
@props C05 C17
@spec
    ensures r == (if -0x8000_0000 <= value <= 0x7fff_ffff { Ok::<i32, LunifyError>(value as i32) } else { Err(LunifyError::IntegerOverflow) })
@fn ByteWriter::narrow_instruction
@props C07 C17
@spec
    ensures r == (if instruction <= 0xffff_ffff { Ok::<u32, LunifyError>(instruction as u32) } else { Err(LunifyError::ValueTooBigForOperand) })
@fn ByteWriter::string
@props C04 C17 C06
@spec
    ensures writes(old(self), final(self), r, w_string(value@, *old(self).format))
@begin
    broadcast use lemma_bytes_of_ext, lemma_cat_assoc;
@sub . map ( | character | character as u8 ) => .map(|character: char| -> (vx_r: u8) ensures vx_r == character as u8 { character as u8 })
@fn ByteWriter::finalize
@props C02 C06 C17
@spec
    ensures r@ == self.data@
@end
