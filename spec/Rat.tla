--------------------------------- MODULE Rat ---------------------------------
(* Exact rational numbers of any size (TLC's integers have 32 bits).  A number  *)
(* is the string "n" or "n/d" in lowest terms with d > 1, so that equality is   *)
(* string equality.  The operators below are evaluated by java/Rat.java, which  *)
(* TLC loads as the override class of this module; the definitions here only    *)
(* state their meaning.                                                         *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

LOCAL Native == Assert(FALSE, "Rat.class is not on the class path")

QInt(i)     == Native      \* the number of an integer
QAdd(a, b)  == Native      \* a + b
QSub(a, b)  == Native      \* a - b
QMul(a, b)  == Native      \* a * b
QDiv(a, b)  == Native      \* a / b
QPow(a, k)  == Native      \* a to the integer power k (k may be negative)
QNeg(a)     == Native
QAbs(a)     == Native
QLe(a, b)   == Native      \* a <= b
QLt(a, b)   == Native      \* a < b
QMax(a, b)  == Native
QFloor(a)   == Native
QToInt(a)   == Native      \* the integer of an integral number of 32 bits
QFits(a)    == Native      \* whether QToInt(a) exists
QScale(a, k) == Native     \* round(a * 10^k), as an integral number
\* the n bits of the octet sequence s that start at bit k (0 = first bit of s[1])
QBits(s, k, n) == Native
\* n octets of s starting at offset o (0-based), big endian
QU(s, o, n) == Native
\* the same as a sign-and-magnitude number
QS(s, o, n) == Native
\* the IEEE 754 single-precision number in the octets o..o+3, or "nan"/"inf"
QF32(s, o) == Native
\* the single- (double-) precision number of that bit pattern, given as an integral
\* number; a negative pattern stands for "nan"
QF32Of(b) == Native
QF64Of(b) == Native
\* n octets, big endian, of a natural number
QOctets(a, n) == Native
\* the cyclic redundancy check of PNG (ISO 3309) of a sequence of octets
QCrc32(s) == Native
\* the number written as a decimal fraction, or "nan"
QDec(s) == Native
\* the sine of x (radians), truncated after d decimal digits
QSin(x, d) == Native
\* Newton steps are for the real code; this one evaluates the Legendre polynomial
\* of degree n at x with d decimal digits (fixed point, truncated), and returns
\* its sign (-1, 0, 1); 0 if the value is below 10^-(d/2), which bounds the errors
QLegendreSign(n, x, d) == Native
\* octets of the file of that name: n from an offset (fewer at its end); the first
\* offset from there on at which "GRIB" and 12 more octets are, or -1; the length
FBytes(path, off, n) == Native
FFind(path, off) == Native
FLen(path) == Native
=============================================================================
