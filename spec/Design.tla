------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* Reference design: how the library computes, rule by rule, transcribed   *)
(* from src/ (smart_num, compute/num_aggregate, compute/derivative,        *)
(* compute/substitute, compute/taylor_expansion, compute/limit, ast/tree). *)
(*                                                                         *)
(* Role: TLC checks the design against the contracts of Contract.tla (the  *)
(* semantic properties); its transitions are the programs replayed on the  *)
(* real code; and it says which refusals are legitimate.  Recorded code    *)
(* behaviour is judged by the contracts, not by equality with this design, *)
(* so an implementation may restructure its results.                       *)
(*                                                                         *)
(* Numbers are computed exactly; an operation one of whose intermediate    *)
(* 64-bit values could come near the limits yields Huge, which absorbs     *)
(* everything computed from it: there the library may refuse (panic).      *)
(***************************************************************************)
EXTENDS Sem

Huge == <<"num", "huge", "0", "none">>
IsHuge(e) == IF IsNum(e) THEN e[2] = "huge" ELSE FALSE

Un(o, a)     == IF IsHuge(a) THEN Huge ELSE <<o, a>>
Bin(o, a, b) == IF IsHuge(a) \/ IsHuge(b) THEN Huge ELSE <<o, a, b>>

-----------------------------------------------------------------------------
(* smart_num *)

SafeBound == "4611686018427387904"                                      \* 2^62
Safe(s) == SLt(SAbs(s), SafeBound)

\* what the code reads of an exact number as a rational: sign, numerator, denominator
RawN(a) == SRawN(a[3])
RawD(a) == SRawD(a[3])

\* every product the code forms for a op b, so that overflow is impossible when all are Safe
NaiveSafe(o, a, b) ==
  /\ Safe(RawN(a)) /\ Safe(RawD(a)) /\ Safe(RawN(b)) /\ Safe(RawD(b))
  /\ IF o \in {"add", "sub"}
     THEN IF a[2] = "int" /\ b[2] = "int" THEN TRUE
          ELSE LET p == SMul(RawN(a), RawD(b)) q == SMul(RawD(a), RawN(b)) IN
               Safe(p) /\ Safe(q) /\ Safe(SAdd(p, q)) /\ Safe(SMul(RawD(a), RawD(b)))
     ELSE IF o = "mul" THEN Safe(SMul(RawN(a), RawN(b))) /\ Safe(SMul(RawD(a), RawD(b)))
     ELSE Safe(SMul(RawN(a), RawD(b))) /\ Safe(SMul(RawD(a), RawN(b)))

AsFloat(a) == IF a[2] = "real" THEN a[3] ELSE FOfRat(SStr(a[3]))
FOp(o, x, y) == IF o = "add" THEN FAdd(x, y) ELSE IF o = "sub" THEN FSub(x, y)
                ELSE IF o = "mul" THEN FMul(x, y) ELSE FDiv(x, y)
SOp(o, x, y) == IF o = "add" THEN SAdd(x, y) ELSE IF o = "sub" THEN SSub(x, y)
                ELSE IF o = "mul" THEN SMul(x, y) ELSE SDiv(x, y)

DNeg(a) == IF IsHuge(a) THEN Huge
           ELSE IF a[2] = "real" THEN <<"num", "real", FNeg(a[3]), "none">>
           ELSE IF ~Safe(RawN(a)) THEN Huge
           ELSE LET v == SNeg(SStr(a[3])) IN
                IF v = "0" THEN Zero ELSE IF v = "1" THEN One ELSE MkNum(a[2], v)

\* o in add, sub, mul, div on number leaves
DNum(o, a, b) ==
  IF IsHuge(a) \/ IsHuge(b) THEN Huge ELSE
  IF o = "add" /\ IsZeroLit(a) THEN b ELSE
  IF o \in {"add", "sub"} /\ IsZeroLit(b) THEN a ELSE
  IF o = "sub" /\ IsZeroLit(a) THEN DNeg(b) ELSE
  IF o = "mul" /\ IsOneLit(a) THEN b ELSE
  IF o = "mul" /\ IsOneLit(b) THEN a ELSE
  IF o = "mul" /\ (IsZeroLit(a) \/ IsZeroLit(b)) THEN Zero ELSE
  IF o = "div" /\ IsZeroLit(a) THEN Zero ELSE
  IF a[2] = "real" \/ b[2] = "real"
  THEN <<"num", "real", FOp(o, AsFloat(a), AsFloat(b)), "none">>
  ELSE IF ~NaiveSafe(o, a, b) THEN Huge
  ELSE LET v == SOp(o, SStr(a[3]), SStr(b[3])) IN
       IF v = "0" THEN Zero ELSE IF v = "1" THEN One ELSE
       IF v = "undef" THEN Huge ELSE
       MkNum(IF o # "div" /\ a[2] = "int" /\ b[2] = "int" THEN "int" ELSE "rat", v)

-----------------------------------------------------------------------------
(* compute/num_aggregate: one rule per operator on already folded children *)

FNegRule(a) == IF IsNum(a) THEN DNeg(a) ELSE IF Op(a) = "neg" THEN a[2] ELSE <<"neg", a>>
FAddRule(l, r) == IF IsNum(l) /\ IsNum(r) THEN DNum("add", l, r)
                  ELSE IF IsZeroLit(l) THEN r ELSE IF IsZeroLit(r) THEN l ELSE <<"add", l, r>>
FSubRule(l, r) == IF IsNum(l) /\ IsNum(r) THEN DNum("sub", l, r)
                  ELSE IF IsZeroLit(l) THEN FNegRule(r) ELSE IF IsZeroLit(r) THEN l
                  ELSE <<"sub", l, r>>
FMulRule(l, r) == IF IsNum(l) /\ IsNum(r) THEN DNum("mul", l, r)
                  ELSE IF IsZeroLit(l) \/ IsZeroLit(r) THEN Zero
                  ELSE IF IsOneLit(l) THEN r ELSE IF IsOneLit(r) THEN l ELSE <<"mul", l, r>>
FDivRule(l, r) == IF IsZeroLit(r) THEN <<"div", l, r>>
                  ELSE IF IsNum(l) /\ IsNum(r) THEN DNum("div", l, r)
                  ELSE IF IsZeroLit(l) THEN Zero ELSE <<"div", l, r>>
FSinRule(a) == IF IsZeroLit(a) \/ IsPiLit(a) THEN Zero ELSE <<"sin", a>>
FCosRule(a) == IF IsZeroLit(a) THEN One ELSE IF IsPiLit(a) THEN MkInt(-1) ELSE <<"cos", a>>
FExpRule(a) == IF IsZeroLit(a) THEN One ELSE IF IsOneLit(a) THEN ENode
               ELSE IF Op(a) = "ln" THEN a[2] ELSE <<"exp", a>>
FLnRule(a)  == IF IsELit(a) THEN One ELSE IF IsOneLit(a) THEN Zero
               ELSE IF Op(a) = "exp" THEN a[2] ELSE <<"ln", a>>
FPowRule(l, r) == IF IsZeroLit(r) \/ IsOneLit(l) THEN One
                  ELSE IF IsOneLit(r) THEN l
                  ELSE IF IsZeroLit(l) /\ IsNum(r) /\ SSign(LitVal(r)) = 1 THEN Zero
                  ELSE <<"pow", l, r>>

FRule1(o, a) == IF IsHuge(a) THEN Huge
                ELSE IF o = "neg" THEN FNegRule(a) ELSE IF o = "sin" THEN FSinRule(a)
                ELSE IF o = "cos" THEN FCosRule(a) ELSE IF o = "exp" THEN FExpRule(a) ELSE FLnRule(a)
FRule2(o, l, r) == IF IsHuge(l) \/ IsHuge(r) THEN Huge
                   ELSE IF o = "add" THEN FAddRule(l, r) ELSE IF o = "sub" THEN FSubRule(l, r)
                   ELSE IF o = "mul" THEN FMulRule(l, r) ELSE IF o = "div" THEN FDivRule(l, r)
                   ELSE FPowRule(l, r)

RECURSIVE DFold(_)
DFold(e) == IF IsLeaf(e) THEN e
            ELSE IF IsUn(e) THEN FRule1(e[1], DFold(e[2]))
            ELSE FRule2(e[1], DFold(e[2]), DFold(e[3]))

-----------------------------------------------------------------------------
(* compute/derivative: the rule, then folding, at every level *)

RECURSIVE DDer(_, _)
DDer(e, x) ==
  LET o == e[1] IN
  IF o = "num" THEN Zero ELSE
  IF o = "var" THEN (IF e[2] = x THEN One ELSE Zero) ELSE
  LET u == e[2]  du == DDer(u, x) IN
  IF o = "neg" THEN DFold(Un("neg", du)) ELSE
  IF o = "sin" THEN DFold(Bin("mul", <<"cos", u>>, du)) ELSE
  IF o = "cos" THEN DFold(Bin("mul", <<"neg", <<"sin", u>>>>, du)) ELSE
  IF o = "exp" THEN DFold(Bin("mul", du, <<"exp", u>>)) ELSE
  IF o = "ln"  THEN DFold(Bin("div", du, u)) ELSE
  LET v == e[3]  dv == DDer(v, x) IN
  IF o = "add" THEN DFold(Bin("add", du, dv)) ELSE
  IF o = "sub" THEN DFold(Bin("sub", du, dv)) ELSE
  IF o = "mul" THEN DFold(Bin("add", Bin("mul", du, v), Bin("mul", u, dv))) ELSE
  IF o = "div" THEN DFold(Bin("div", Bin("sub", Bin("mul", du, v), Bin("mul", u, dv)), <<"mul", v, v>>)) ELSE
  IF IsZeroLit(dv)
  THEN DFold(Bin("mul", Bin("mul", v, <<"pow", u, <<"sub", v, One>>>>), du))
  ELSE DFold(Bin("mul", <<"pow", u, v>>,
                 Bin("add", Bin("mul", dv, <<"ln", u>>), Bin("div", Bin("mul", v, du), u))))

-----------------------------------------------------------------------------
(* compute/substitute *)

RECURSIVE DSub(_, _, _)
DSub(e, x, v) == IF IsNum(e) THEN e
                 ELSE IF IsVar(e) THEN (IF e[2] = x THEN v ELSE e)
                 ELSE IF IsUn(e) THEN Un(e[1], DSub(e[2], x, v))
                 ELSE Bin(e[1], DSub(e[2], x, v), DSub(e[3], x, v))

-----------------------------------------------------------------------------
(* compute/taylor_expansion: sequence of order+1 coefficients, then the residual *)

RECURSIVE DTaylorAux(_, _, _, _, _, _)
DTaylorAux(res, x, a, k, order, fact) ==
  LET f == DNum("mul", fact, MkInt(IF k = 0 THEN 1 ELSE k))
      c == DFold(Bin("div", DFold(DSub(res, x, a)), f))
      d == DDer(res, x)
  IN IF IsHuge(res) THEN [coef |-> <<Huge>>, residual |-> Huge]
     ELSE IF k = order THEN [coef |-> <<c>>, residual |-> d]
     ELSE LET t == DTaylorAux(d, x, a, k + 1, order, f)
          IN [coef |-> <<c>> \o t.coef, residual |-> t.residual]
DTaylor(e, x, a, order) == DTaylorAux(e, x, a, 0, order, One)
TaylorHuge(t) == IsHuge(t.residual) \/ \E k \in 1..Len(t.coef) : IsHuge(t.coef[k])

-----------------------------------------------------------------------------
(* ast/tree: printing, as a sequence of characters *)

Prio(o) == IF o = "neg" THEN 1 ELSE IF o \in {"add", "sub"} THEN 2 ELSE IF o = "mul" THEN 3
           ELSE IF o \in {"div", "pow"} THEN 4 ELSE 5
Sym(o) == CASE o = "neg" -> <<"-">> [] o = "add" -> <<"+">> [] o = "sub" -> <<"-">>
            [] o = "mul" -> <<"*">> [] o = "div" -> <<"/">> [] o = "pow" -> <<"^">>
            [] o = "sin" -> <<"s", "i", "n">> [] o = "cos" -> <<"c", "o", "s">>
            [] o = "exp" -> <<"e", "x", "p">> [] o = "ln" -> <<"l", "n">>
NumChars(a) == IF a[4] = "zero" THEN <<"0">> ELSE IF a[4] = "one" THEN <<"1">>
               ELSE IF a[4] = "pi" THEN <<"p", "i">> ELSE IF a[4] = "e" THEN <<"e">>
               ELSE IF a[2] = "real" THEN FShow3(a[3])
               ELSE IF a[2] = "int" THEN StrChars(a[3])
               ELSE LET v == SStr(a[3]) IN StrChars(SNum(v)) \o <<"/">> \o StrChars(SDen(v))
Paren(q) == <<"(">> \o q \o <<")">>
RECURSIVE DShowRaw(_, _)
DShowRaw(e, up) ==
  IF IsNum(e) THEN LET q == NumChars(e) IN IF q[1] = "-" /\ up > 1 THEN Paren(q) ELSE q
  ELSE IF IsVar(e) THEN StrChars(e[2])
  ELSE LET p == Prio(e[1])
           q == IF IsUn(e) THEN Sym(e[1]) \o DShowRaw(e[2], p)
                ELSE DShowRaw(e[2], p) \o <<" ">> \o Sym(e[1]) \o <<" ">>
                     \o DShowRaw(e[3], IF e[1] \in {"sub", "div", "pow"} THEN p + 1 ELSE p)
       IN IF p < up THEN Paren(q) ELSE q
DShow(e) == DShowRaw(e, 0)

\* PartialExpansion
RECURSIVE DShowTerms(_, _, _)
DShowTerms(coef, b, k) ==
  IF k > Len(coef) THEN <<>>
  ELSE (IF IsZeroLit(coef[k]) THEN <<>>
        ELSE DShow(<<"mul", coef[k], <<"pow", b, MkInt(k - 1)>>>>) \o <<" ", "+", " ">>)
       \o DShowTerms(coef, b, k + 1)
DShowTaylor(t, x, a) ==
  LET b == DFold(<<"sub", <<"var", x>>, a>>) IN
  DShowTerms(t.coef, b, 1) \o <<"O">> \o Paren(DShow(<<"pow", b, MkInt(Len(t.coef))>>))

-----------------------------------------------------------------------------
(* compute/limit: limit classes and their algebra *)

LZero == <<"zero">>
LInf  == <<"inf">>
LBf   == <<"bf">>
LErr  == <<"err">>
LHuge == <<"huge">>
LNormal(e) == IF IsHuge(e) THEN LHuge ELSE <<"normal", e>>

LNeg(a) == IF a[1] = "normal" THEN LNormal(<<"neg", a[2]>>) ELSE a
LAdd(a, b) ==
  IF a[1] = "zero" THEN b
  ELSE IF b[1] = "zero" THEN a
  ELSE IF a[1] = "inf" THEN (IF b[1] = "inf" THEN LErr ELSE LInf)
  ELSE IF b[1] = "inf" THEN LInf
  ELSE IF a[1] = "bf" \/ b[1] = "bf" THEN LBf
  ELSE LNormal(Bin("add", a[2], b[2]))
LMul(a, b) ==
  IF a[1] = "inf" THEN (IF b[1] \in {"zero", "bf"} THEN LErr ELSE LInf)
  ELSE IF b[1] = "inf" THEN (IF a[1] \in {"zero", "bf"} THEN LErr ELSE LInf)
  ELSE IF a[1] = "zero" \/ b[1] = "zero" THEN LZero
  ELSE IF a[1] = "bf" \/ b[1] = "bf" THEN LBf
  ELSE LNormal(Bin("mul", a[2], b[2]))
LDiv(a, b) ==
  IF b[1] = "inf" THEN (IF a[1] = "inf" THEN LErr ELSE LZero)
  ELSE IF b[1] = "bf" THEN LErr
  ELSE IF b[1] = "zero" THEN (IF a[1] = "inf" THEN LInf
                              ELSE IF a[1] = "normal" THEN (IF IsZeroLit(a[2]) THEN LErr ELSE LInf)
                              ELSE LErr)
  ELSE IF a[1] = "inf" THEN LInf
  ELSE IF a[1] = "normal" THEN LNormal(Bin("div", a[2], b[2]))
  ELSE IF IsZeroLit(b[2]) THEN LErr ELSE a
LOp(o, a, b) == IF o = "add" THEN LAdd(a, b) ELSE IF o = "sub" THEN LAdd(a, LNeg(b))
                ELSE IF o = "mul" THEN LMul(a, b) ELSE LDiv(a, b)

LStop(a) == a[1] \in {"err", "huge"}
LFin(a) == IF a[1] # "normal" THEN a
           ELSE LET f == DFold(a[2]) IN
                IF IsHuge(f) THEN LHuge ELSE IF IsZeroLit(f) THEN LZero ELSE LNormal(f)

MaxNodes == 4000
RECURSIVE DLimit(_, _, _, _), DLimDiv(_, _, _, _, _)
DLimit(e, x, to, n) ==
  LET o == e[1] IN
  IF o = "num" THEN LFin(LNormal(e)) ELSE
  IF o = "var" THEN (IF e[2] = x THEN (IF IsZeroLit(to) THEN LZero ELSE LFin(LNormal(to)))
                     ELSE LFin(LNormal(e))) ELSE
  IF o \in {"exp", "ln", "pow"} THEN LErr ELSE
  IF o = "neg" THEN LET u == DLimit(e[2], x, to, n) IN IF LStop(u) THEN u ELSE LFin(LNeg(u)) ELSE
  IF o = "sin" THEN LET u == DLimit(e[2], x, to, n) IN
       IF LStop(u) \/ u[1] = "zero" THEN u ELSE IF u[1] \in {"inf", "bf"} THEN LBf
       ELSE LFin(LNormal(<<"sin", u[2]>>)) ELSE
  IF o = "cos" THEN LET u == DLimit(e[2], x, to, n) IN
       IF LStop(u) THEN u ELSE IF u[1] = "zero" THEN LNormal(One)
       ELSE IF u[1] \in {"inf", "bf"} THEN LBf
       ELSE LFin(LNormal(<<"cos", u[2]>>)) ELSE
  IF o = "sub" THEN DLimit(<<"add", e[2], <<"neg", e[3]>>>>, x, to, n) ELSE
  IF o = "div" THEN DLimDiv(e[2], e[3], x, to, n) ELSE
  LET r == DLimit(e[3], x, to, n) IN
  IF LStop(r) THEN r ELSE
  LET l == DLimit(e[2], x, to, n) IN
  IF LStop(l) THEN l ELSE
  LET f == LOp(o, l, r) IN
  IF f[1] # "err" THEN LFin(f)
  ELSE IF o = "add"
       THEN DLimit(<<"div", <<"add", <<"div", e[2], e[3]>>, One>>, <<"div", One, e[3]>>>>, x, to, n)
       ELSE IF r[1] = "zero"
            THEN DLimit(<<"div", e[3], <<"div", One, e[2]>>>>, x, to, n)
            ELSE DLimit(<<"div", e[2], <<"div", One, e[3]>>>>, x, to, n)
DLimDiv(l, r, x, to, left) ==
  LET a == DLimit(l, x, to, left) IN
  IF LStop(a) THEN a ELSE
  LET b == DLimit(r, x, to, left) IN
  IF LStop(b) THEN b ELSE
  LET z == LDiv(a, b) IN
  IF z[1] # "err" THEN LFin(z)
  ELSE IF ~((a[1] = "zero" /\ b[1] = "zero") \/ (a[1] = "inf" /\ b[1] = "inf")) THEN LErr
  ELSE IF left = 0 THEN LErr
  ELSE LET dl == DDer(l, x)  dr == DDer(r, x) IN
       IF IsHuge(dl) \/ IsHuge(dr) THEN LHuge
       ELSE DLimDiv(dl, dr, x, to, left - 1)

(* Whether the limit of e can come upon a number too large to evaluate when sub-limits are   *)
(* taken in another order than above: the operands of an operator are looked at even where   *)
(* the limit of the other one already decides the outcome.                                   *)
RECURSIVE DLimMay(_, _, _, _), DLimDivMay(_, _, _, _, _)
DLimMay(e, x, to, n) ==
  LET o == e[1] IN
  IF o \in {"num", "var"} THEN DLimit(e, x, to, n) = LHuge ELSE
  IF o \in {"exp", "ln", "pow"} THEN FALSE ELSE
  IF o \in {"neg", "sin", "cos"} THEN DLimMay(e[2], x, to, n) \/ DLimit(e, x, to, n) = LHuge ELSE
  IF o = "sub" THEN DLimMay(<<"add", e[2], <<"neg", e[3]>>>>, x, to, n) ELSE
  IF o = "div" THEN DLimDivMay(e[2], e[3], x, to, n) ELSE
  \/ DLimMay(e[2], x, to, n)
  \/ DLimMay(e[3], x, to, n)
  \/ LET l == DLimit(e[2], x, to, n)  r == DLimit(e[3], x, to, n) IN
     /\ ~LStop(l) /\ ~LStop(r)
     /\ LET f == LOp(o, l, r) IN
        IF f[1] # "err" THEN LFin(f) = LHuge
        ELSE IF o = "add"
             THEN DLimMay(<<"div", <<"add", <<"div", e[2], e[3]>>, One>>, <<"div", One, e[3]>>>>, x, to, n)
             ELSE IF r[1] = "zero"
                  THEN DLimMay(<<"div", e[3], <<"div", One, e[2]>>>>, x, to, n)
                  ELSE DLimMay(<<"div", e[2], <<"div", One, e[3]>>>>, x, to, n)
DLimDivMay(l, r, x, to, left) ==
  \/ DLimMay(l, x, to, left)
  \/ DLimMay(r, x, to, left)
  \/ LET a == DLimit(l, x, to, left)  b == DLimit(r, x, to, left) IN
     /\ ~LStop(a) /\ ~LStop(b)
     /\ LET z == LDiv(a, b) IN
        IF z[1] # "err" THEN LFin(z) = LHuge
        ELSE /\ left > 0
             /\ (a[1] = "zero" /\ b[1] = "zero") \/ (a[1] = "inf" /\ b[1] = "inf")
             /\ LET dl == DDer(l, x)  dr == DDer(r, x) IN
                IF IsHuge(dl) \/ IsHuge(dr) THEN TRUE ELSE DLimDivMay(dl, dr, x, to, left - 1)
=============================================================================
