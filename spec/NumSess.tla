------------------------------- MODULE NumSess -------------------------------
(***************************************************************************)
(* Sampled chains of number and rational operations: results are fed back. *)
(***************************************************************************)
EXTENDS NumOps, IOUtils

P    == IOEnv.V_PROP
Seed == SToInt(IOEnv.V_SEED)
Lo   == SToInt(IOEnv.V_LO)
Hi   == SToInt(IOEnv.V_HI)
Steps == SToInt(IOEnv.V_STEPS)
Big  == SToInt(IOEnv.V_BIG)

VARIABLES s, k, r, h, ok
vars == <<s, k, r, h, ok>>
Key == Hash(Hash(Seed, s + 5000), k)
Reg(key) == Pick(key, 6)

SubSeqStr(s0, i) == CharsStr(SubSeq(StrChars(s0), i, Len(StrChars(s0))))
\* a random literal
Digits(key, d) == IF d <= 4 THEN S(Pick(key, IF d <= 1 THEN 9 ELSE IF d = 2 THEN 99 ELSE 9999))
                  ELSE S(Pick(key, 999999999)) \o S(Pick(Hash(key, 1), 999999999))
\* a value of any primitive type
AnyPrim(key) ==
  LET ty == From(<<"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64">>, Hash(key, 1))
      a == Hash(key, 2)  b == Hash(key, 3)  neg == IF Chance(Hash(key, 4), 45) THEN "-" ELSE ""
      big == S(Pick(a, 922337203)) \o SubSeqStr(S(1000000000 + Pick(b, 999999999)), 2)
      frac == neg \o S(Pick(a, 5000) - 1) \o "." \o S(Pick(b, 9999999)) \o From(<<"", "", "", "e-5", "e7", "e20", "e-20">>, Hash(key, 5))
  IN Prim(ty, CASE ty = "i8" -> neg \o S(Pick(a, 127)) [] ty = "u8" -> S(Pick(a, 256) - 1) [] ty = "i16" -> neg \o S(Pick(a, 32767))
                [] ty = "u16" -> S(Pick(a, 65536) - 1) [] ty = "i32" -> neg \o S(Pick(a, 2147483647))
                [] ty = "u32" -> (IF Chance(b, 50) THEN S(Pick(a, 2147483647)) ELSE SAdd(SInt(Pick(a, 2147483647)), "2147483648"))
                [] ty = "i64" -> neg \o (IF Chance(Hash(b, 1), 50) THEN big ELSE S(Pick(a, 2147483647)))
                [] ty = "u64" -> (IF Chance(Hash(b, 1), 40) THEN big ELSE IF Chance(Hash(b, 2), 60) THEN SAdd(big, I64Max) ELSE S(Pick(a, 2147483647)))
                [] OTHER -> frac)
Lit(key) ==
  IF DChance(DPos, Hash(key, 8), 12)
  THEN LET n == From(DPos, Hash(key, 9))  sg == IF Chance(Hash(key, 10), 40) THEN "-1" ELSE "1"  m == Digits(Hash(key, 11), Pick(Hash(key, 12), 3)) IN
       IF Chance(Hash(key, 13), 40) THEN I64((IF sg = "-1" THEN "-" ELSE "") \o n)
       ELSE IF Chance(Hash(key, 14), 50) THEN RatL(sg, n, m) ELSE RatL(sg, m, n)
  ELSE IF DChance(DReals, Hash(key, 8), 24) THEN Prim("f64", From(DReals, Hash(key, 9)))
  ELSE IF Chance(Hash(key, 20), 5)
  THEN LET f == FibFrac(Hash(key, 22)) IN RatL(IF Chance(Hash(key, 21), 40) THEN "-1" ELSE "1", SRawN(f), SRawD(f))
  ELSE IF P = "C06" /\ Chance(Hash(key, 6), 35) THEN AnyPrim(Hash(key, 7)) ELSE
  IF Chance(Hash(key, 23), 8) THEN RatL(IF Chance(Hash(key, 24), 40) THEN "-1" ELSE "1", Wide(Hash(key, 25)), IF Chance(Hash(key, 26), 60) THEN S(Pick(Hash(key, 27), 60)) ELSE Wide(Hash(key, 28))) ELSE
  LET w == Pick(Hash(key, 1), 14)  f == Hash(key, 2)  g == Hash(key, 3)  neg == Chance(Hash(key, 4), 40) IN
  CASE w <= 3 -> From(Pool, f)
    [] w <= 5 -> I64((IF neg THEN "-" ELSE "") \o Digits(f, Pick(g, 4)))
    [] w <= 8 -> RatL(IF neg THEN "-1" ELSE "1", Digits(f, Pick(g, 4)), Digits(Hash(f, 5), Pick(Hash(g, 5), 3)))
    [] w = 9  -> I64((IF neg THEN "-" ELSE "") \o S(Pick(f, 999999999)) \o S(Pick(g, 999999999)))
    [] w = 10 -> RatL(IF neg THEN "-1" ELSE "1", S(Pick(f, 999999999)), S(Pick(g, 999999999)))
    [] w = 11 -> From(<<Cst("pi"), Cst("e"), Cst("one"), Cst("zero")>>, f)
    [] w = 12 -> I64((IF neg THEN "-" ELSE "") \o S(Pick(f, 999999999)))
    [] w = 13 -> RatL(IF neg THEN "-1" ELSE "1", S(Pick(f, 99999)), S(Pick(g, 99999)))
    [] OTHER -> Prim("f64", (IF neg THEN "-" ELSE "") \o S(Pick(f, 100) - 1) \o "." \o S(Pick(g, 9999)))

\* a literal related to the number in a register
RelLit(v, key) ==
  IF v[2] = "real" THEN Lit(key)
  ELSE LET p == Related(SNum(SAbs(SStr(v[3]))), SDen(SStr(v[3])), Hash(key, 30))  neg == Chance(Hash(key, 31), 40) IN
       IF p[1] = "" THEN Lit(key)
       ELSE IF p[2] = "1" /\ FitsI64(p[1]) /\ Chance(Hash(key, 32), 70) THEN I64(IF neg /\ p[1] # "0" THEN "-" \o p[1] ELSE p[1])
       ELSE RatL(IF neg THEN "-1" ELSE "1", p[1], p[2])
NStep(key, q) ==
  LET w == Pick(Hash(key, 10), 10)  d == Reg(Hash(key, 11))  a == Reg(Hash(key, 12))  b == Reg(Hash(key, 13))
      x == IF Chance(Hash(key, 17), 35) THEN RelLit(q[b], Hash(key, 18)) ELSE Lit(Hash(key, 14)) IN
  IF w <= 3
  THEN LET n == [q EXCEPT ![d] = LitNum(x)]
           o == From(<<"add", "sub", "mul", "mul">>, Hash(key, 19))  l == IF Chance(Hash(key, 20), 50) THEN b ELSE d  rr == IF l = b THEN d ELSE b  c == 1 + (d % 6)
           z == NRes(o, n[l], n[rr])
       IN \* the literal is related to register b: combine the two at once
          IF ~Chance(Hash(key, 17), 35) \/ b = d THEN [cmds |-> <<LitCmd(d - 1, x)>>, r |-> n, ok |-> TRUE]
          ELSE [cmds |-> <<LitCmd(d - 1, x), NopCmd(c - 1, o, l - 1, rr - 1)>>, r |-> IF IsHuge(z) THEN n ELSE [n EXCEPT ![c] = z], ok |-> CheckNop(P, o, n[l], n[rr])]
  ELSE IF w <= 8
  THEN LET o == From(<<"add", "sub", "mul", "div", "neg", "add", "mul">>, Hash(key, 15))
           c == IF o = "div" /\ IsZeroLit(q[b]) THEN "sub" ELSE o
           z == NRes(c, q[a], q[b])
       IN [cmds |-> <<NopCmd(d - 1, c, a - 1, b - 1)>> \o (IF P \in {"C05", "C06"} THEN <<"nobs " \o S(d - 1)>> ELSE <<>>),
           r |-> IF IsHuge(z) THEN q ELSE [q EXCEPT ![d] = z],
           ok |-> CheckNop(P, c, q[a], q[b])]
  ELSE [cmds |-> <<IF P = "C06" THEN "nclose " \o S(a - 1) \o " " \o S(b - 1) \o " " \o From(<<"0.5", "1e-6", "10.0", "1e-12", "0.001", "2.0", "1.0", "0.25", "1e9", "-0.5", "0", "100">>, Hash(key, 16))
                   ELSE "nobs " \o S(a - 1)>>, r |-> q, ok |-> TRUE]

\* rationals
QLit(key) == IF Chance(Hash(key, 23), 10) THEN (IF Chance(Hash(key, 24), 40) THEN "-" ELSE "") \o Wide(Hash(key, 25)) \o "/" \o (IF Chance(Hash(key, 26), 60) THEN S(Pick(Hash(key, 27), 60)) ELSE Wide(Hash(key, 28)))
   ELSE IF Chance(Hash(key, 20), 12) THEN (IF Chance(Hash(key, 21), 40) THEN "-" ELSE "") \o FibFrac(Hash(key, 22)) ELSE (IF Chance(Hash(key, 1), 45) THEN "-" ELSE "") \o
   (IF Chance(Hash(key, 2), 12) THEN "0" ELSE IF DChance(DPos, Hash(key, 7), 12) THEN From(DPos, Hash(key, 8)) ELSE Digits(Hash(key, 3), Pick(Hash(key, 4), 4))) \o "/" \o
   (IF DChance(DPos, Hash(key, 9), 12) THEN From(DPos, Hash(key, 8)) ELSE Digits(Hash(key, 5), Pick(Hash(key, 6), 4)))
QRel(v, key) == LET p == Related(SRawN(v), SRawD(v), Hash(key, 30)) IN IF p[1] = "" THEN QLit(key) ELSE (IF Chance(Hash(key, 31), 40) THEN "-" ELSE "") \o p[1] \o "/" \o p[2]
QStep(key, q) ==
  LET w == Pick(Hash(key, 10), 10)  d == Reg(Hash(key, 11))  a == Reg(Hash(key, 12))  b == Reg(Hash(key, 13))
      x == IF Chance(Hash(key, 17), 35) THEN QRel(q[b], Hash(key, 18)) ELSE QLit(Hash(key, 14)) IN
  IF w <= 3 THEN [cmds |-> <<"qnew " \o S(d - 1) \o " " \o (IF SRawSign(x) = -1 THEN "-1 " ELSE "1 ") \o SRawN(x) \o " " \o SRawD(x) \o " new">>,
                  r |-> [q EXCEPT ![d] = x], ok |-> TRUE]
  ELSE IF w <= 8
  THEN LET o == From(<<"add", "sub", "mul", "div", "neg", "reduce", "add", "sub", "mul">>, Hash(key, 15))
           c == IF o = "div" /\ SStr(q[b]) = "0" THEN "mul" ELSE o
           z == QFull(QRes(c, q[a], q[b]))
       IN [cmds |-> <<"qop " \o S(d - 1) \o " " \o c \o " " \o S(a - 1) \o " " \o S(b - 1)>>,
           r |-> IF z = "huge" THEN q ELSE [q EXCEPT ![d] = z],
           ok |-> z = "huge" \/ RatOpOk(c, q[a], q[b], z)]
  ELSE IF w = 9 THEN [cmds |-> <<"qcmp " \o S(a - 1) \o " " \o S(b - 1)>>, r |-> q, ok |-> TRUE]
  ELSE [cmds |-> <<"qobs " \o S(a - 1)>>, r |-> q, ok |-> TRUE]

\* limit classes with sampled value expressions
NZ(key) == LET p == [PAll EXCEPT !.leaf = <<"int", "rat", "var", "var", "one", "pi", "real">>, !.vars = <<"y", "z">>, !.un = <<"neg", "sin", "cos">>,
                               !.bin = <<"add", "mul", "sub", "div">>] IN
           Tree(p, Pick(Hash(key, 1), 6), Hash(key, 2))
Cl(key) == IF Chance(Hash(key, 1), 45) THEN <<From(<<"zero", "inf", "bf">>, Hash(key, 2))>> ELSE <<"normal", NZ(Hash(key, 3))>>
LStep(key, q) ==
  LET near == Chance(Hash(key, 23), 8)  nr == Near(Hash(key, 24))
      like(i) == PutReal(<<From(<<"mul", "add", "div">>, Hash(key, 25)), NZ(Hash(key, 26)), Real("0.5")>>, Real(nr[i]))
      a == IF near THEN <<"normal", like(1)>> ELSE Cl(Hash(key, 20))  b == IF near THEN <<"normal", like(2)>> ELSE Cl(Hash(key, 21))  o == From(<<"add", "sub", "mul", "div", "neg">>, Hash(key, 22))
      arg(c, d) == IF c[1] = "normal" THEN S(d) ELSE c[1]
      set(c, d) == IF c[1] = "normal" THEN <<CRpn(d, c[2])>> ELSE <<>>
      z == IF o = "neg" THEN LNeg(a) ELSE LOp(o, a, b)
  IN [cmds |-> set(a, 0) \o set(b, 1) \o <<"lop " \o o \o " " \o arg(a, 0) \o " " \o arg(b, 1)>>, r |-> q,
      ok |-> z[1] = "huge" \/ ClassOk(o, a, b, z)]

\* many small fractions in a row (C19)
RECURSIVE QRun(_, _)
QRun(n, key) == IF n = 0 THEN <<>> ELSE
  <<"blk", "qnew 0 " \o From(<<"1 ", "-1 ">>, Hash(key, 1)) \o S(Pick(Hash(key, 2), 12)) \o " " \o S(Pick(Hash(key, 3), 48)) \o " new",
    "qop 1 " \o From(<<"reduce 0 0", "reduce 0 0", "add 0 0", "mul 0 0">>, Hash(key, 4))>> \o QRun(n - 1, Hash(key, 5))
IsQ == P = "C04" \/ (P = "C19" /\ s % 3 = 0)
IsL == P = "C14" \/ (P = "C19" /\ s % 3 = 1)
Step(key, q) ==
  LET z == IF IsQ THEN QStep(key, q) ELSE IF IsL THEN LStep(key, q) ELSE NStep(key, q) IN
  IF P = "C19" /\ IsQ /\ Chance(Hash(key, 40), 35) THEN [cmds |-> QRun(14, Hash(key, 41)), r |-> q, ok |-> TRUE]
  ELSE IF P = "C19" /\ (IsL \/ Chance(Hash(key, 42), 35)) THEN [z EXCEPT !.cmds = <<"blk">> \o @] ELSE z
Init == /\ s \in Lo..Hi /\ k = 0 /\ h = <<>> /\ ok = TRUE
        /\ r = [x \in 1..6 |-> IF IsQ THEN "0/1" ELSE Zero]
Next == /\ k < Steps
        /\ \E o \in {Step(Key, r)} :
             /\ r' = o.r /\ h' = h \o o.cmds /\ ok' = o.ok
             /\ (k + 1 = Steps => PrintT("SESS|" \o S(s) \o Join(h')))
        /\ k' = k + 1 /\ s' = s
Spec == Init /\ [][Next]_vars
DesignOk == ok
=============================================================================
