--------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* The calls of the library as operators from register states to outcomes: *)
(*   [cmds |-> harness commands, r |-> registers after, ok |-> the design's *)
(*    result satisfies the contract of property P]                         *)
(* Registers 1..NR hold expressions (harness register i-1).                *)
(***************************************************************************)
EXTENDS Gen

NR == 9
Cap == 160        \* results above this size are not produced by the sampled sessions

Put(r, d, x) == IF IsHuge(x) THEN r ELSE [r EXCEPT ![d] = x]
Out(cmds, r, ok) == [cmds |-> cmds, r |-> r, ok |-> ok]
R(i) == S(i - 1)

MoreTags(x) == TagsOk(x)

\* design checks per property for the result x of the named call
CheckFold(P, e, x) ==
  IF IsHuge(x) THEN TRUE
  ELSE CASE P = "C01" -> FoldValueOk(e, x)
         [] P = "C02" -> FoldComplete(x) /\ FoldExactOk(e, x) /\ FoldDivOk(e, x) /\ DFold(x) = x
         [] P = "C05" -> MoreTags(x)
         [] P = "C18" -> ShapeOk(x)
         [] P = "C21" -> FoldSizeOk(e, x)
         [] OTHER -> TRUE
CheckDer(P, e, v, x) ==
  IF IsHuge(x) THEN TRUE
  ELSE CASE P = "C07" -> DerValueOk(e, v, x)
         [] P = "C08" -> DerShapeOk(e, v, x)
         [] P = "C21" -> DerSizeOk(e, x)
         [] P = "C18" -> ShapeOk(x)
         [] P = "C05" -> MoreTags(x)
         [] OTHER -> TRUE
CheckSub(P, e, v, w, x) ==
  IF IsHuge(x) THEN TRUE
  ELSE CASE P = "C09" -> SubOk(e, v, w, x) /\ SubValueOk(e, v, w, x)
         [] P = "C18" -> ShapeOk(x)
         [] OTHER -> TRUE
CheckTaylor(P, e, v, at, n, t) ==
  IF TaylorHuge(t) THEN TRUE
  ELSE CASE P = "C11" -> TaylorCoefOk(e, v, at, n, t.coef)
         [] P = "C12" -> Len(t.coef) = n + 1 /\ ResidualOk(e, v, n, t.residual)
                         /\ (TaylorPrintable(t.coef, v, at) => DispOk(DShowTaylor(t, v, at), t.coef, v, at, n))
         [] OTHER -> TRUE
CheckLimit(P, e, v, to, n, a) ==
  IF a[1] = "huge" THEN TRUE
  ELSE CASE P = "C13" -> LimitOk(e, v, to, a)
         [] P = "C15" -> MustAnswer(e, v, to, n) => a[1] # "err"
         [] P = "C20" -> a[1] = "normal" => LimitFormOk(e, v, to, a[2])
         [] OTHER -> TRUE

\* ---- calls --------------------------------------------------------------------
DoTree(r, d, e) == Out(<<CRpn(d - 1, e)>>, Put(r, d, e), TRUE)
DoFold(P, r, d, s) ==
  LET x == DFold(r[s]) IN
  Out(<<"fold " \o R(d) \o " " \o R(s)>>, Put(r, d, x), CheckFold(P, r[s], x))
\* derivative: by variable, or by an expression target (own / ref)
DoDer(P, r, d, s, v, form) ==
  LET x == DDer(r[s], v) IN
  IF ~IsHuge(x) /\ Size(x) > Cap THEN Out(<<>>, r, TRUE)
  ELSE Out(IF form = "var" THEN <<"der " \o R(d) \o " " \o R(s) \o " " \o v>>
           ELSE <<"var 8 " \o v \o " expr", "derx " \o R(d) \o " " \o R(s) \o " 8 " \o form>>,
           Put(IF form = "var" THEN r ELSE [r EXCEPT ![9] = MkVar(v)], d, x),
           CheckDer(P, r[s], v, x))
DoSub(P, r, d, s, v, w, form) ==
  LET x == DSub(r[s], v, r[w]) IN
  IF IsHuge(x) \/ Size(x) > Cap THEN Out(<<>>, r, TRUE)
  ELSE Out(IF form = "var" THEN <<"sub " \o R(d) \o " " \o R(s) \o " " \o v \o " " \o R(w)>>
           ELSE <<"var 8 " \o v \o " expr",
                  "subx " \o R(d) \o " " \o R(s) \o " 8 " \o R(w) \o " " \o form>>,
           Put(IF form = "var" THEN r ELSE [r EXCEPT ![9] = MkVar(v)], d, x),
           CheckSub(P, r[s], v, r[w], x))
DoShow(P, r, s) ==
  Out(<<"show " \o R(s)>>, r, IF P = "C10" THEN ShowOk(r[s], DShow(r[s])) ELSE TRUE)
DoObs(r, s) == Out(<<"obs " \o R(s)>>, r, TRUE)
DoNear(r, a, b, eps) == Out(<<"near " \o R(a) \o " " \o R(b) \o " " \o eps>>, r, TRUE)
\* expansion around register 8 (harness 7)
TCap == 700
RECURSIVE TSize(_, _, _)
TSize(e, v, n) == IF n = 0 THEN Size(e)
                  ELSE IF Size(e) > TCap THEN Size(e) ELSE TSize(DDer(e, v), v, n - 1)
DoTaylor(P, r, s, v, at, n, form) ==
  LET t == DTaylor(r[s], v, at, n) IN
  Out(<<CRpn(7, at)>> \o
      (IF form = "var" THEN <<"taylor " \o R(s) \o " " \o v \o " 7 " \o S(n)>>
       ELSE <<"var 8 " \o v \o " expr", "taylorx " \o R(s) \o " 8 7 " \o S(n)>>),
      [r EXCEPT ![8] = at, ![9] = IF form = "var" THEN @ ELSE MkVar(v)],
      CheckTaylor(P, r[s], v, at, n, t))
\* limit at register 8
DoLimit(P, r, s, v, to, n, form) ==
  LET a == DLimit(r[s], v, to, n) IN
  Out(<<CRpn(7, to)>> \o
      (IF form = "var" THEN <<"limit " \o R(s) \o " " \o v \o " 7 " \o S(n)>>
       ELSE <<"var 8 " \o v \o " expr", "limitx " \o R(s) \o " 8 7 " \o S(n)>>),
      [r EXCEPT ![8] = to, ![9] = IF form = "var" THEN @ ELSE MkVar(v)],
      CheckLimit(P, r[s], v, to, n, a))
DoUn(r, d, o, a, form) == 
  LET x == <<o, r[a]>> IN
  IF Size(x) > Cap THEN Out(<<>>, r, TRUE)
  ELSE Out(<<"un " \o R(d) \o " " \o o \o " " \o R(a) \o " " \o form>>, Put(r, d, x), TRUE)
DoBin(r, d, o, a, b) ==
  LET x == <<o, r[a], r[b]>> IN
  IF Size(x) > Cap THEN Out(<<>>, r, TRUE)
  ELSE Out(<<"bin " \o R(d) \o " " \o o \o " " \o R(a) \o " " \o R(b)>>, Put(r, d, x), TRUE)
DoPowi(r, d, a, n) ==
  LET x == <<"pow", r[a], MkNum("int", n)>> IN
  IF Size(x) > Cap THEN Out(<<>>, r, TRUE)
  ELSE Out(<<"powi " \o R(d) \o " " \o R(a) \o " " \o n>>, Put(r, d, x), TRUE)
PrimNode(ty, v) == IF ty = "var" THEN MkVar(v) ELSE IF ty = "f64" THEN Real(v)
                   ELSE IF FitsI64(v) THEN MkNum("int", v) ELSE MkNum("rat", v)
DoPowf(r, d, a, ty, v) ==
  LET x == <<"pow", r[a], PrimNode(ty, v)>> IN
  IF Size(x) > Cap THEN Out(<<>>, r, TRUE)
  ELSE Out(<<"powf " \o R(d) \o " " \o R(a) \o " " \o ty \o " " \o v>>, Put(r, d, x), TRUE)
DoUnl(r, d, o, ty, v) ==
  Out(<<"unl " \o R(d) \o " " \o o \o " " \o ty \o " " \o v>>, Put(r, d, <<o, PrimNode(ty, v)>>), TRUE)
DoOpeq(r, a, b) == Out(<<"opeq " \o R(a) \o " " \o R(b)>>, r, TRUE)
DoVar(r, d, v, form) == Out(<<"var " \o R(d) \o " " \o v \o " " \o form>>, Put(r, d, MkVar(v)), TRUE)
DoConst(r, d, c) ==
  Out(<<"const " \o R(d) \o " " \o c>>,
      Put(r, d, IF c = "pi" THEN PiNode ELSE IF c = "e" THEN ENode ELSE IF c = "one" THEN One ELSE Zero), TRUE)
DoNum(r, d, ty, v) ==
  Out(<<"num " \o R(d) \o " " \o ty \o " " \o v>>,
      Put(r, d, IF ty \in {"f64", "f32"} THEN Real(v) ELSE IF FitsI64(v) THEN MkNum("int", v) ELSE MkNum("rat", v)), TRUE)
DoRat(r, d, sg, n, m) ==
  Out(<<"rat " \o R(d) \o " " \o sg \o " " \o n \o " " \o m>>,
      IF sg \in {"1", "-1"} /\ m # "0" THEN Put(r, d, Rat((IF sg = "-1" THEN "-" ELSE "") \o n \o "/" \o m)) ELSE r, TRUE)

Then(a, f(_)) == LET b == f(a.r) IN [cmds |-> a.cmds \o b.cmds, r |-> b.r, ok |-> a.ok /\ b.ok]
=============================================================================
