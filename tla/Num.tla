-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real (IEEE double) numbers for TLC.  A number is a TLA+ STRING holding  *)
(* a decimal literal ("-0.25", "1e-05", "inf", "nan").  Every operator     *)
(* below is interpreted by the Java class Num.class (source: Num.java),    *)
(* which contains SCALAR arithmetic and comparisons only: all of the       *)
(* system's semantics is in the TLA+ modules.                              *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

NUndef == CHOOSE x \in {} : TRUE   \* never evaluated: overridden

Add(a, b) == NUndef
Sub(a, b) == NUndef
Mul(a, b) == NUndef
Div(a, b) == NUndef
NNeg(a) == NUndef
Abs(a) == NUndef
Sqrt(a) == NUndef
Sin(a) == NUndef
Cos(a) == NUndef
Tan(a) == NUndef
Asin(a) == NUndef
Acos(a) == NUndef
Atan2(a, b) == NUndef
Exp(a) == NUndef
Log(a) == NUndef
Pow(a, b) == NUndef
Sinh(a) == NUndef
Cosh(a) == NUndef
Tanh(a) == NUndef
Atanh(a) == NUndef
Floor(a) == NUndef
Ceil(a) == NUndef
Rint(a) == NUndef           \* round half to even
Trunc(a) == NUndef
Fmod(a, b) == NUndef        \* floor modulus, result has the sign of b
Min2(a, b) == NUndef
Max2(a, b) == NUndef
F32(a) == NUndef            \* round to nearest IEEE single
WrapInt(a, bits, signed) == NUndef  \* two's complement wrap of an integral number
Lt(a, b) == NUndef
Le(a, b) == NUndef
NEq(a, b) == NUndef         \* numeric equality (nan = nan)
IsNum(a) == NUndef          \* does the string denote a number?
IsNan(a) == NUndef
IsInt(a) == NUndef          \* integral value
Close(a, b, rtol, atol) == NUndef \* |a-b| <= atol + rtol*max(|a|,|b|); equal strings also match
N(i) == NUndef              \* TLA+ integer -> number
I(a) == NUndef              \* integral number -> TLA+ integer
NWave(tab, x, y) == NUndef              \* sum over <<kx, ky, re, im>> in tab of re cos(kx x + ky y) - im sin(kx x + ky y)
NWaveSum(tab, x, nx, y, ny) == NUndef   \* NWave summed over x, .., x+nx-1 by y, .., y+ny-1
NSum(s) == NUndef           \* left-to-right sum of a sequence
BesselJ0(x) == NUndef
BesselJ1(x) == NUndef       \* used by closed-form profiles only
LGamma(x) == NUndef
BesselK(nu, x) == NUndef
Pi == "3.141592653589793"
Erf(a) == NUndef
SinInt(a) == NUndef          \* integral of sin(t)/t from 0 to a
Sinc(a) == NUndef           \* sin(pi a)/(pi a)
Xor64(a, b) == NUndef        \* bitwise operators on integral numbers
And64(a, b) == NUndef
Or64(a, b) == NUndef

Gt(a, b) == Lt(b, a)
Ge(a, b) == Le(b, a)
Sq(a) == Mul(a, a)
Half(a) == Mul("0.5", a)
SeqClose(s, t, rtol, atol) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : Close(s[i], t[i], rtol, atol)
=============================================================================
