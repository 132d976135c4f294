-------------------------------- MODULE Germ --------------------------------
(***************************************************************************)
(* Local behaviour of an expression as x -> a, written without reference   *)
(* to the library's limit rules.  A germ in t = x - a is one of            *)
(*   <<"L", v, c>>  Laurent series t^v (c_1 + c_2 t + ... + O(t^Len(c))),  *)
(*                  c_1 certainly nonzero                                  *)
(*   <<"O", n>>     O(t^n), nothing more known                             *)
(*   <<"0">>        identically zero near a                                *)
(*   <<"T", c>>     tends to c (a scalar)                                  *)
(*   <<"I">>        absolute value tends to infinity                       *)
(*   <<"K", S, R>>  facts known about the function on its domain near a:   *)
(*                  "bd"  bounded           "ub"  unbounded                *)
(*                  "z"   zeros accumulate at a                            *)
(*                  "n0"  stays away from 0 along some sequence            *)
(*                  "fin" stays bounded along some sequence                *)
(*                  "nl"  tends to nothing, neither a value nor infinity   *)
(*                  "def" defined everywhere near a (except a)             *)
(*                  and, if R = <<lo, hi>>, the function is continuous     *)
(*                  near a and its values there fill exactly the interval  *)
(*                  between lo and hi, up to what vanishes at a            *)
(*   <<"undef">>    defined nowhere near a                                 *)
(*   <<"unk">>      nothing known                                          *)
(* Parameters (the other variables) are narrow balls, so a cancellation    *)
(* that depends on them is never decided.                                  *)
(***************************************************************************)
EXTENDS Sem

GUnk == <<"unk">>
GUndef == <<"undef">>
GZero == <<"0">>
GInf == <<"I">>
\* what follows from a set of facts
FactsOf(S) ==
  LET f == S \cup (IF S \cap {"bd", "z"} # {} THEN {"fin"} ELSE {})
      g == f \cup (IF "fin" \in f /\ (("z" \in f /\ "n0" \in f) \/ "ub" \in f) THEN {"nl"} ELSE {})
  IN g \cup (IF g \cap {"nl", "ub"} # {} THEN {"n0"} ELSE {})
GK(S) == <<"K", FactsOf(S), <<>>>>
GBnd == GK({"bd"})
\* oscillation between lo and hi
GR(lo, hi) ==
  IF ~SIsDef(lo) \/ ~SIsDef(hi) THEN GBnd
  ELSE <<"K", FactsOf({"bd", "def"} \cup (IF SLt(lo, hi) THEN {"nl"} ELSE {})
                      \cup (IF SSign(lo) = -1 /\ SSign(hi) = 1 THEN {"z"} ELSE {})
                      \cup (IF SSign(lo) = 1 \/ SSign(hi) = -1 THEN {"n0"} ELSE {})), <<lo, hi>>>>
GOsc == GR("-1", "1")     \* sin(1/x), cos(1/x)
IsR(g) == g[1] = "K" /\ g[3] # <<>>
GRScale(k, c) == IF SSign(c) = 1 THEN GR(SMul(k[3][1], c), SMul(k[3][2], c))
                 ELSE IF SSign(c) = -1 THEN GR(SMul(k[3][2], c), SMul(k[3][1], c)) ELSE GK({"bd", "def"})
GRSin(k) == LET lo == k[3][1]  hi == k[3][2] IN
            IF SLt("-3/2", lo) /\ SLt(hi, "3/2") THEN GR(SSin(lo), SSin(hi)) ELSE GK({"bd", "def"})
GRCos(k) == LET lo == k[3][1]  hi == k[3][2] IN
            IF ~(SLt("-3", lo) /\ SLt(hi, "3")) THEN GK({"bd", "def"})
            ELSE IF SSign(lo) \in {0, 1} THEN GR(SCos(hi), SCos(lo))
            ELSE IF SSign(hi) \in {0, -1} THEN GR(SCos(lo), SCos(hi))
            ELSE IF SSign(lo) # -1 \/ SSign(hi) # 1 THEN GK({"bd", "def"})
            ELSE IF SLt(SNeg(lo), hi) THEN GR(SCos(hi), "1")
            ELSE IF SLt(hi, SNeg(lo)) \/ lo = SNeg(hi) THEN GR(SCos(lo), "1") ELSE GK({"bd", "def"})
GRExp(k) == GR(SExp(k[3][1]), SExp(k[3][2]))
\* c / k, the interval away from zero
GRInv(c, k) == LET lo == k[3][1]  hi == k[3][2] IN
               IF SSign(c) = 1 THEN GR(SDiv(c, hi), SDiv(c, lo))
               ELSE IF SSign(c) = -1 THEN GR(SDiv(c, lo), SDiv(c, hi)) ELSE GBnd
GRAway(k) == IsR(k) /\ (SSign(k[3][1]) = 1 \/ SSign(k[3][2]) = -1)
GTo(c) == IF SIsDef(c) THEN <<"T", c>> ELSE GUnk
Prec == 8

RECURSIVE LeadZeros(_, _)
LeadZeros(c, k) == IF k > Len(c) THEN Len(c)
                   ELSE IF SIsZero(c[k]) THEN LeadZeros(c, k + 1) ELSE k - 1

\* normalise t^v * c
GL(v, c) ==
  LET z == LeadZeros(c, 1) IN
  IF z = Len(c) THEN <<"O", v + Len(c)>>
  ELSE IF ~SIsDef(c[z + 1]) \/ ~SNonZero(c[z + 1]) THEN GUnk
  ELSE LET d == SubSeq(c, z + 1, Len(c)) IN
       <<"L", v + z, IF Len(d) > Prec THEN SubSeq(d, 1, Prec) ELSE d>>

GConst(c) == IF SIsZero(c) THEN GZero
             ELSE IF ~SIsDef(c) \/ ~SNonZero(c) THEN GUnk
             ELSE <<"L", 0, [k \in 1..Prec |-> IF k = 1 THEN c ELSE "0"]>>

\* the class of a germ: T, I, K, unk, undef
Cls(g) == IF g[1] = "L" THEN (IF g[2] > 0 THEN <<"T", "0">> ELSE IF g[2] = 0 THEN <<"T", g[3][1]>> ELSE GInf)
          ELSE IF g[1] = "O" THEN (IF g[2] > 0 THEN <<"T", "0">> ELSE IF g[2] = 0 THEN GBnd ELSE GUnk)
          ELSE IF g[1] = "0" THEN <<"T", "0">> ELSE g

IsBad(g) == g[1] \in {"unk", "undef"}
Worse(f, g) == IF f[1] = "undef" \/ g[1] = "undef" THEN GUndef ELSE GUnk
IsSer(g) == g[1] \in {"L", "O", "0"}
Min2(a, b) == IF a < b THEN a ELSE b

\* coefficient of t^n in a Laurent germ whose known part reaches n
CoefAt(g, n) == IF n < g[2] THEN "0" ELSE g[3][n - g[2] + 1]
EndOf(g) == IF g[1] = "L" THEN g[2] + Len(g[3]) ELSE g[2]        \* first unknown power
StartOf(g) == g[2]

GNeg(g) == IF g[1] = "L" THEN <<"L", g[2], PNeg(g[3])>>
           ELSE IF g[1] = "T" THEN <<"T", SNeg(g[2])>>
           ELSE IF IsR(g) THEN GR(SNeg(g[3][2]), SNeg(g[3][1])) ELSE g

GAddSer(f, g) ==
  IF f[1] = "0" THEN g ELSE IF g[1] = "0" THEN f ELSE
  LET hi == Min2(EndOf(f), EndOf(g))
      lo == Min2(StartOf(f), StartOf(g))
      at(h, n) == IF h[1] = "O" THEN "0" ELSE CoefAt(h, n)
  IN IF lo >= hi THEN <<"O", hi>>
     ELSE GL(lo, TLCEval([k \in 1..(hi - lo) |-> SAdd(at(f, lo + k - 1), at(g, lo + k - 1))]))
IsK(g) == g[1] = "K"
Has1(k, a) == a \in k[2]
\* facts plus a function that is defined near a and tends to a finite value
KPlusSer(k, g) ==
  IF g[1] = "0" THEN k
  ELSE IF g[1] = "L" /\ g[2] < 0 THEN (IF Has1(k, "bd") THEN GInf ELSE GUnk)
  ELSE IF g[1] = "O" /\ g[2] < 0 THEN GUnk
  ELSE IF g[1] = "O" /\ g[2] = 0 THEN GK(k[2] \cap {"bd", "ub", "fin", "def"})
  ELSE IF IsR(k) THEN LET c == IF g[1] = "L" /\ g[2] = 0 THEN g[3][1] ELSE "0" IN GR(SAdd(k[3][1], c), SAdd(k[3][2], c))
  ELSE GK(k[2] \cap {"bd", "ub", "fin", "nl", "def"})
KPlusK(k, g) == GK(IF Has1(k, "bd") /\ Has1(g, "bd") THEN {"bd"} \cup (k[2] \cap g[2] \cap {"def"}) ELSE {})
\* facts times t^v * (something tending to a nonzero value), defined near a
KTimesPow(k, v) ==
  IF v = 0 THEN k
  ELSE IF v > 0 THEN (IF Has1(k, "bd") THEN <<"T", "0">> ELSE GK(k[2] \cap {"z", "def"}))
  ELSE GK((k[2] \cap {"z", "def", "n0"}) \cup (IF Has1(k, "n0") THEN {"ub"} ELSE {}))
KTimesSer(k, g) ==
  IF g[1] = "0" THEN (IF Has1(k, "def") THEN GZero ELSE <<"T", "0">>)
  ELSE IF g[1] = "L" /\ g[2] = 0 /\ IsR(k) THEN GRScale(k, g[3][1])
  ELSE IF g[1] = "L" THEN KTimesPow(k, g[2])
  ELSE IF g[2] > 0 /\ Has1(k, "bd") THEN <<"T", "0">>
  ELSE GK((k[2] \cap {"z", "def"}) \cup (IF g[2] = 0 THEN k[2] \cap {"bd"} ELSE {}))
KTimesK(k, g) ==
  GK((IF Has1(k, "bd") /\ Has1(g, "bd") THEN {"bd"} ELSE {})
     \cup (k[2] \cap g[2] \cap {"def"})
     \cup (IF (Has1(k, "z") /\ Has1(g, "def")) \/ (Has1(g, "z") /\ Has1(k, "def")) THEN {"z"} ELSE {}))
\* quotient by facts: near an isolated zero of the divisor the quotient is unbounded
SerOverK(f, k) ==
  IF f[1] = "0" THEN (IF Has1(k, "n0") THEN <<"T", "0">> ELSE GUnk)
  ELSE IF f[1] # "L" THEN GUnk
  ELSE IF f[2] < 0 THEN (IF Has1(k, "bd") THEN GInf ELSE GUnk)
  ELSE IF GRAway(k) THEN (IF f[2] = 0 THEN GRInv(f[3][1], k) ELSE <<"T", "0">>)
  ELSE GK((IF Has1(k, "z") /\ Has1(k, "n0") /\ Has1(k, "def") THEN {"ub"} ELSE {})
          \cup (IF Has1(k, "n0") THEN {"fin"} ELSE {})
          \cup (IF f[2] = 0 /\ Has1(k, "bd") THEN {"n0"} ELSE {}))

GAdd(f, g) ==
  IF IsBad(f) \/ IsBad(g) THEN Worse(f, g)
  ELSE IF IsSer(f) /\ IsSer(g) THEN GAddSer(f, g)
  ELSE IF IsK(f) /\ IsK(g) THEN KPlusK(f, g)
  ELSE IF IsK(f) /\ IsSer(g) THEN KPlusSer(f, g)
  ELSE IF IsK(g) /\ IsSer(f) THEN KPlusSer(g, f)
  ELSE LET a == Cls(f)  b == Cls(g) IN
       IF IsBad(a) \/ IsBad(b) THEN GUnk
       ELSE IF a[1] = "I" /\ b[1] = "I" THEN GUnk
       ELSE IF a[1] = "I" \/ b[1] = "I"
            THEN LET o == IF a[1] = "I" THEN b ELSE a IN
                 IF IsK(o) /\ ~Has1(o, "bd") THEN GUnk ELSE GInf
       ELSE IF IsK(a) \/ IsK(b)
            THEN (IF Has1(IF IsK(a) THEN a ELSE b, "bd") THEN GBnd ELSE GUnk)   \* the other one is T
       ELSE GTo(SAdd(a[2], b[2]))

GMulSer(f, g) ==
  IF f[1] = "0" \/ g[1] = "0" THEN GZero
  ELSE IF f[1] = "O" \/ g[1] = "O" THEN <<"O", f[2] + g[2]>>
  ELSE LET p == Min2(Len(f[3]), Len(g[3])) IN
       GL(f[2] + g[2], PMul(SubSeq(f[3], 1, p), SubSeq(g[3], 1, p)))
GMul(f, g) ==
  IF IsBad(f) \/ IsBad(g) THEN Worse(f, g)
  ELSE IF IsSer(f) /\ IsSer(g) THEN GMulSer(f, g)
  ELSE IF IsK(f) /\ IsK(g) THEN KTimesK(f, g)
  ELSE IF IsK(f) /\ IsSer(g) THEN KTimesSer(f, g)
  ELSE IF IsK(g) /\ IsSer(f) THEN KTimesSer(g, f)
  ELSE IF f[1] = "0" \/ g[1] = "0" THEN GZero
  ELSE LET a == Cls(f)  b == Cls(g) IN
       IF IsBad(a) \/ IsBad(b) THEN GUnk
       ELSE IF a[1] = "I" /\ b[1] = "I" THEN GInf
       ELSE IF a[1] = "I" \/ b[1] = "I"
            THEN LET o == IF a[1] = "I" THEN b ELSE a IN
                 IF o[1] = "T" /\ SNonZero(o[2]) THEN GInf ELSE GUnk
       ELSE IF IsK(a) \/ IsK(b)                     \* the other one is T
            THEN LET o == IF IsK(a) THEN b ELSE a  k == IF IsK(a) THEN a ELSE b IN
                 IF ~Has1(k, "bd") THEN GUnk
                 ELSE IF SIsZero(o[2]) THEN <<"T", "0">> ELSE GBnd
       ELSE GTo(SMul(a[2], b[2]))

\* quotient; a zero of the divisor at points accumulating at a makes no claim
GDiv(f, g) ==
  IF IsBad(f) \/ IsBad(g) THEN Worse(f, g)
  ELSE IF g[1] = "0" THEN GUndef
  ELSE IF g[1] = "L" /\ f[1] = "L"
  THEN LET p == Min2(Len(f[3]), Len(g[3])) IN
       GL(f[2] - g[2], PDiv(SubSeq(f[3], 1, p), SubSeq(g[3], 1, p)))
  ELSE IF g[1] = "L" /\ f[1] = "0" THEN GZero
  ELSE IF g[1] = "L" /\ f[1] = "O" THEN <<"O", f[2] - g[2]>>
  ELSE IF g[1] = "L" /\ g[2] = 0 /\ IsR(f) THEN GRScale(f, SDiv("1", g[3][1]))
  ELSE IF g[1] = "L" /\ IsK(f) THEN KTimesPow(f, 0 - g[2])
  ELSE IF IsK(g) /\ IsSer(f) THEN SerOverK(f, g)
  ELSE LET a == Cls(f)  b == Cls(g) IN
       IF IsBad(a) \/ IsBad(b) THEN GUnk
       ELSE IF b[1] = "I" THEN (IF a[1] = "I" \/ (IsK(a) /\ ~Has1(a, "bd")) THEN GUnk ELSE <<"T", "0">>)
       ELSE IF b[1] = "T" /\ SNonZero(b[2])
            THEN (IF a[1] = "T" THEN GTo(SDiv(a[2], b[2]))
                  ELSE IF IsK(a) THEN (IF Has1(a, "bd") THEN GBnd ELSE GUnk) ELSE a)
       ELSE IF IsK(b) /\ Has1(b, "bd") /\ a[1] = "T" /\ SNonZero(a[2]) THEN GK({"n0"})
       ELSE GUnk

\* series of F(g) for an analytic F, given the coefficients builder on plain power series
Plain(g) == \* g as a plain power series of nonnegative powers, from t^0
  IF g[1] = "0" THEN TLCEval([k \in 1..Prec |-> "0"])
  ELSE IF g[1] = "O" THEN TLCEval([k \in 1..Min2(Prec, g[2]) |-> "0"])
  ELSE TLCEval([k \in 1..Min2(Prec, EndOf(g)) |-> CoefAt(g, k - 1)])
HasPlain(g) == IsSer(g) /\ (IF g[1] = "0" THEN TRUE ELSE g[2] >= (IF g[1] = "O" THEN 1 ELSE 0))

GSin(g) == IF IsBad(g) THEN g
           ELSE IF g[1] = "0" THEN GZero
           ELSE IF HasPlain(g) THEN GL(0, PSinCos(Plain(g))[1])
           ELSE IF g[1] = "L" THEN GOsc
           ELSE IF IsR(g) THEN GRSin(g)
           ELSE IF IsK(g) THEN GK({"bd"} \cup (g[2] \cap {"z", "def"}))
           ELSE LET a == Cls(g) IN
                IF a[1] = "T" THEN GTo(SSin(a[2])) ELSE IF IsBad(a) THEN a ELSE GBnd
GCos(g) == IF IsBad(g) THEN g
           ELSE IF HasPlain(g) THEN GL(0, PSinCos(Plain(g))[2])
           ELSE IF g[1] = "L" THEN GOsc
           ELSE IF IsR(g) THEN GRCos(g)
           ELSE IF IsK(g) THEN GK({"bd"} \cup (g[2] \cap {"def"}))
           ELSE LET a == Cls(g) IN
                IF a[1] = "T" THEN GTo(SCos(a[2])) ELSE IF IsBad(a) THEN a ELSE GBnd
GExp(g) == IF IsBad(g) THEN g
           ELSE IF HasPlain(g) THEN GL(0, PExp(Plain(g)))
           ELSE IF IsR(g) THEN GRExp(g)
           \* exp of a pole: infinite, vanishing, or (odd order) one on each side
           ELSE IF g[1] = "L" /\ g[2] < 0
                THEN (IF (0 - g[2]) % 2 = 1 THEN GK({"ub", "fin", "def"})
                      ELSE IF SSign(g[3][1]) = 1 THEN GInf ELSE IF SSign(g[3][1]) = -1 THEN <<"T", "0">> ELSE GUnk)
           ELSE IF IsK(g) THEN (IF Has1(g, "bd") THEN GK({"bd", "n0"} \cup (g[2] \cap {"def"})) ELSE GUnk)
           ELSE LET a == Cls(g) IN IF a[1] = "T" THEN GTo(SExp(a[2])) ELSE GUnk
GLn(g) == IF IsBad(g) THEN g
          ELSE IF g[1] = "0" THEN GUndef
          ELSE IF HasPlain(g) /\ Len(Plain(g)) > 0
               THEN LET p == Plain(g) IN
                    IF SSign(p[1]) = 1 THEN GL(0, PLn(p)) ELSE IF SSign(p[1]) = -1 THEN GUndef
                    ELSE IF g[1] # "L" \/ SSign(g[3][1]) \notin {1, -1} THEN GUnk
                    ELSE IF g[2] % 2 = 0 /\ SSign(g[3][1]) = -1 THEN GUndef
                    ELSE GInf                  \* where it is defined
          ELSE IF g[1] = "L" /\ g[2] < 0
               THEN (IF SSign(g[3][1]) \notin {1, -1} THEN GUnk
                     ELSE IF (0 - g[2]) % 2 = 0 /\ SSign(g[3][1]) = -1 THEN GUndef ELSE GInf)
          ELSE GUnk
RECURSIVE GIntPow(_, _)
GIntPow(g, n) == IF n = 1 THEN g ELSE GMul(g, GIntPow(g, n - 1))

RECURSIVE Germ(_, _, _, _)
Germ(e, i, x, a) ==
  LET o == e[1] IN
  IF o = "num" THEN GConst(LitVal(e)) ELSE
  IF o = "var" THEN (IF e[2] = x
                     THEN GL(0, TLCEval([k \in 1..(Prec + 1) |-> IF k = 1 THEN a ELSE IF k = 2 THEN "1" ELSE "0"]))
                     ELSE GConst(SVarB(i, e[2]))) ELSE
  LET u == Germ(e[2], i, x, a) IN
  IF o = "neg" THEN GNeg(u) ELSE
  IF o = "sin" THEN GSin(u) ELSE
  IF o = "cos" THEN GCos(u) ELSE
  IF o = "exp" THEN GExp(u) ELSE
  IF o = "ln"  THEN GLn(u) ELSE
  LET v == Germ(e[3], i, x, a) IN
  IF o = "add" THEN GAdd(u, v) ELSE
  IF o = "sub" THEN GAdd(u, GNeg(v)) ELSE
  IF o = "mul" THEN GMul(u, v) ELSE
  IF o = "div" THEN GDiv(u, v) ELSE
  IF IsNum(e[3]) /\ SmallInt(LitVal(e[3]))
  THEN LET n == SToInt(LitVal(e[3])) IN
       IF n > 0 /\ n <= 12 THEN GIntPow(u, n)
       ELSE IF n < 0 /\ n >= -12 THEN GDiv(GConst("1"), GIntPow(u, 0 - n)) ELSE GUnk
  \* a positive base: u^v = exp(v ln u)
  ELSE IF HasPlain(u) /\ u[1] = "L" /\ u[2] = 0 /\ SSign(u[3][1]) = 1 THEN GExp(GMul(v, GLn(u)))
  ELSE GUnk
=============================================================================
