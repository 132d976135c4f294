-------------------------------- MODULE NumOps --------------------------------
(***************************************************************************)
(* Calls on numbers (SmartNum), rationals (RationalNum) and limit classes, *)
(* in the same form as Ops: number registers 1..NR, rational registers.    *)
(***************************************************************************)
EXTENDS Gen

NOut(cmds, ok) == [cmds |-> cmds, ok |-> ok]

\* a literal is [how |-> "prim"|"rat"|"const", ty, a, b, c]
Prim(ty, v) == [how |-> "prim", ty |-> ty, v |-> v]
RatL(s, n, d) == [how |-> "rat", s |-> s, n |-> n, d |-> d]
Cst(c) == [how |-> "const", c |-> c]
LitCmd(d, x) == IF x.how = "prim" THEN "nnew " \o S(d) \o " " \o x.ty \o " " \o x.v
                ELSE IF x.how = "rat" THEN "nrat " \o S(d) \o " " \o x.s \o " " \o x.n \o " " \o x.d
                ELSE "nconst " \o S(d) \o " " \o x.c
\* design value of a literal
LitNum(x) ==
  IF x.how = "const" THEN (IF x.c = "pi" THEN PiNode ELSE IF x.c = "e" THEN ENode ELSE IF x.c = "one" THEN One ELSE Zero)
  ELSE IF x.how = "rat" THEN Rat((IF x.s = "-1" THEN "-" ELSE "") \o x.n \o "/" \o x.d)
  ELSE IF x.ty \in {"f64", "f32"} THEN Real(x.v)
  ELSE IF FitsI64(x.v) THEN MkNum("int", x.v) ELSE MkNum("rat", x.v \o "/1")

I64(v) == Prim("i64", v)
R1(n, d) == RatL("1", n, d)
RN(n, d) == RatL("-1", n, d)

\* boundary pool
Pool == <<
  I64("0"), I64("1"), I64("-1"), I64("2"), I64("-3"), I64("7"), I64("12"),
  I64(I64Max), I64(I64Min), I64("-9223372036854775807"), I64("4611686018427387904"), I64("3037000499"), I64("-3037000500"),
  Prim("u64", U64Max), Prim("u64", "9223372036854775808"), Prim("u8", "255"),
  R1("1", "2"), RN("1", "2"), R1("2", "4"), RN("3", "6"), R1("4", "2"), RN("4", "4"), R1("3", "3"), R1("0", "5"), RN("0", "7"), I64("4"), R1(U64Max, "2"), RN("9223372036854775811", "4"), R1("5", U64Max),
  R1("2", "3"), RN("7", "3"), R1("1", "3"), R1("10", "1"), R1("15", "25"),
  R1(I64Max, "2"), R1("1", I64Max), RN(U64Max, "1"), R1("1", U64Max), R1(U64Max, U64Max), R1("9223372036854775808", "3"), RN("4294967296", "4294967295"),
  Prim("f64", "0.5"), Prim("f64", "0.0"), Prim("f64", "1.0"), Prim("f64", "-2.25"), Prim("f64", "1e-3"), Prim("f32", "0.1"), Prim("f64", "3.141592653589793"), Prim("f64", "1e18"), Prim("f64", "3.14159265358979"), Prim("f64", "3.141592653589794"), Prim("f64", "2.71828182845904"), Prim("f32", "3.1415927"),
  Prim("f64", "0.9999999999999"), Prim("f64", "1e-15"), Prim("f64", "-1.0"), Prim("f64", "2.718281828459045"), I64("123456789"), I64("-9007199254740993"), R1("1000003", "999983"), RN("5", "1"), R1("8", "2"),
  R1(U64Max, "18446744073709551614"), R1("4611686018427387905", "4611686018427387904"), RN("9007199254740993", "9007199254740992"),
  Cst("pi"), Cst("e"), Cst("zero"), Cst("one") >>

NumBin == {"add", "sub", "mul", "div"}

CheckNop(P, o, a, b) ==
  LET x == IF o = "neg" THEN DNeg(a) ELSE DNum(o, a, b) IN
  IF IsHuge(x) THEN TRUE
  ELSE CASE P = "C03" -> OpValueOk(o, a, b, x)
         [] P = "C05" -> TagOk(x) /\ OpConstOk(o, a, b, x)
         [] OTHER -> TRUE
NopCmd(d, o, a, b) == "nop " \o S(d) \o " " \o o \o " " \o S(a) \o " " \o S(b)
NRes(o, a, b) == IF o = "neg" THEN DNeg(a) ELSE DNum(o, a, b)

\* a natural number of any width up to 64 bits
Wide(key) ==
  LET m == From(<<"4294967296", "4294967311", "6000000000", "8589934592", "1", "2", "1", "17", "255", "256", "65536", "65537", "1048576", "16777216", "67108863", "2147483648", "2147483659", "4294967296", "8589934592">>, Hash(key, 1))
      v == SAdd(SMul(S(Pick(Hash(key, 2), 2147483647)), m), S(Pick(Hash(key, 3), 2147483647)))
  IN IF SLt(v, "18446744073709551616") THEN v ELSE U64Max
\* a ratio a/b made from another one n/d: a multiple of its denominator, its reciprocal, a neighbour, the same
\* denominator, the same ratio scaled, ...; <<"", "">> when it does not fit
Related(n, d, key) ==
  LET w == Pick(Hash(key, 1), 15)
      m == IF Chance(Hash(key, 2), 75) THEN S(Pick(Hash(key, 3), IF Chance(Hash(key, 5), 35) THEN 2 ELSE 12)) ELSE Wide(Hash(key, 4))
      p == CASE w <= 3 -> <<SMul(m, d), "1">> [] w = 4 -> <<SMul(m, n), "1">> [] w = 5 -> <<d, n>> [] w = 6 -> <<m, d>> [] w = 7 -> <<SAdd(n, "1"), d>>
             [] w = 8 -> <<n, SAdd(d, "1")>> [] w = 9 -> <<SMul(m, n), SMul(m, d)>> [] w = 10 -> <<n, m>> [] w = 11 -> <<d, m>> [] w = 12 -> <<SAbs(SSub(d, n)), d>>
             [] w = 13 -> <<SAdd(n, d), d>> [] w = 14 -> <<m, SMul(d, "2")>> [] OTHER -> <<n, d>>
  IN IF p[2] = "0" \/ ~SLt(p[1], "18446744073709551616") \/ ~SLt(p[2], "18446744073709551616") THEN <<"", "">> ELSE p
\* neighbouring Fibonacci numbers: Euclid's algorithm takes most steps on them
RECURSIVE FibPair(_)
FibPair(n) == IF n = 0 THEN <<"0", "1">> ELSE LET p == FibPair(n - 1) IN <<p[2], SAdd(p[1], p[2])>>
FibFrac(key) ==
  LET k == 20 + Pick(Hash(key, 1), 72)  f == FibPair(k)
      g == SInt(IF k <= 60 THEN Pick(Hash(key, 2), 1000) ELSE IF k <= 80 THEN Pick(Hash(key, 2), 12) ELSE IF k <= 88 THEN 1 + (k % 2) ELSE 1)
      a == SMul(f[1], g)  b == SMul(f[2], g) IN
  IF Chance(Hash(key, 3), 50) THEN a \o "/" \o b ELSE b \o "/" \o a

\* rationals
QRes(o, a, b) ==  \* design: exact and reduced, or refusal ("huge")
  IF o = "neg" THEN (IF SRawSign(a) = -1 THEN SRawN(a) \o "/" \o SRawD(a) ELSE "-" \o SRawN(a) \o "/" \o SRawD(a))
  ELSE IF o = "reduce" THEN SStr(a)
  ELSE IF RatMayRefuse(o, a, b) THEN "huge"
  ELSE LET v == SOp(o, SStr(a), SStr(b)) IN
       IF v = "undef" THEN "huge" ELSE v
QFull(v) == IF v = "huge" THEN v ELSE LET s == (IF SSign(SStr(v)) = -1 THEN "-" ELSE "") IN
            s \o SAbs(SNum(SStr(v))) \o "/" \o SDen(SStr(v))
=============================================================================
