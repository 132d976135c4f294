------------------------------- MODULE Scalar -------------------------------
(***************************************************************************)
(* The numbers in which the specification gives meaning to expressions.    *)
(*                                                                         *)
(* A scalar is one of (represented as a string)                            *)
(*   "n" or "n/d"  an exact rational (any size, lowest terms)              *)
(*   "~m@r"        a real known to lie in the ball m +- r                  *)
(*   "undef"       the operation has no value (division by zero, ln 0 ...) *)
(*   "unk"         nothing is known (ball too wide, magnitude too big)     *)
(*                                                                         *)
(* TLC's integers have 32 bits, so the operators below are evaluated by    *)
(* java/Scalar.java (a TLC module override: big rationals and conservative *)
(* ball arithmetic).  The definitions here only fix arity; the comment     *)
(* after each one is its definition.  No verdict is taken in Java: all     *)
(* semantics of expressions, calculus, printing and limits is TLA+.        *)
(***************************************************************************)
LOCAL Ov(x) == CHOOSE y : y = x \* never evaluated: always overridden

SAdd(a, b) == Ov(<<a, b>>)      \* a + b
SSub(a, b) == Ov(<<a, b>>)      \* a - b
SMul(a, b) == Ov(<<a, b>>)      \* a * b
SDiv(a, b) == Ov(<<a, b>>)      \* a / b;      b = 0 : undef
SNeg(a)    == Ov(a)             \* - a
SSin(a)    == Ov(a)
SCos(a)    == Ov(a)
SExp(a)    == Ov(a)
SLn(a)     == Ov(a)             \* a <= 0 : undef
SPow(a, b) == Ov(<<a, b>>)      \* real power; 0^0, 0^negative, negative^non-integer: undef
SPi        == Ov("pi")
SE         == Ov("e")
SInt(i)    == Ov(i)             \* TLA+ integer to scalar
SStr(s)    == Ov(s)             \* "12", "-7/4", "!0/1", "1e-1r" (float literal) to scalar
SReal(s)   == Ov(s)             \* decimal text of a float: ball of a few ulps around it
SDyad(s)   == Ov(s)             \* decimal text of a float: its exact rational value (nan/inf: undef)
SF32(s)    == Ov(s)             \* exact value of the f32 nearest to the decimal text
SFloat(a)  == Ov(a)             \* exact rational to the text of the nearest f64
SVar(i, v) == Ov(<<i, v>>)      \* value of variable v in the i-th environment (exact)
SVarB(i,v) == Ov(<<i, v>>)      \* same, as a narrow ball: equalities between parameters are not decided

SIsDef(a)   == Ov(a)            \* exact or ball
SIsUndef(a) == Ov(a)            \* "undef"
SIsExact(a) == Ov(a)
SIsInt(a)   == Ov(a)            \* exact integer
SIsZero(a)  == Ov(a)            \* exactly zero
SNonZero(a) == Ov(a)            \* certainly not zero
SDiffer(a, b) == Ov(<<a, b>>)   \* both defined and certainly different
SSign(a)    == Ov(a)            \* -1, 0, 1 ; 2 if not certain
SLt(a, b)   == Ov(<<a, b>>)     \* certainly a < b
SAbs(a)     == Ov(a)
SNum(a)     == Ov(a)            \* numerator of an exact rational, as scalar
SDen(a)     == Ov(a)            \* denominator of an exact rational, as scalar
SRawN(s)    == Ov(s)            \* numerator of a literal as written (unreduced, no sign)
SRawD(s)    == Ov(s)            \* denominator of a literal as written
SRawSign(s) == Ov(s)            \* stored sign of a literal: -1, 1, or 0 when it is neither
SToInt(a)   == Ov(a)            \* exact small integer to TLA+ integer

(* IEEE double arithmetic on decimal texts, used only by the reference design *)
FAdd(a, b) == Ov(<<a, b>>)
FSub(a, b) == Ov(<<a, b>>)
FMul(a, b) == Ov(<<a, b>>)
FDiv(a, b) == Ov(<<a, b>>)
FNeg(a)    == Ov(a)
FOfRat(a)  == Ov(a)             \* exact rational to the text of the nearest f64
FShow3(a)  == Ov(a)             \* three-decimal text of a float, as a sequence of characters
StrChars(s) == Ov(s)            \* characters of a string, as a sequence
CharsStr(q) == Ov(q)            \* inverse
IsDigit(c) == Ov(c)
IsAlpha(c) == Ov(c)
=============================================================================
