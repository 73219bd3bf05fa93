@module number
@fn Number::as_integer
@props C05 C17 C01
@trusted kani: floating point arithmetic, decided over its full domain on every run of C01, C05 and C17
@spec
    ensures r == number_integer(self)
@fn Number::as_float
@props C05 C17 C01
@trusted kani: floating point arithmetic, decided over its full domain on every run of C01, C05 and C17
@spec
    ensures r == number_float(self)
@end
