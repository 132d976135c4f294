-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  The events recorded from the real code (one per call *)
(* in a session) are consumed one by one; the logged results are adopted   *)
(* into the abstract state (expression, number and rational registers) and *)
(* every event must be allowed by the contract of the property under check *)
(* for the operands that are really there.  Sessions are independent       *)
(* initial states; the run is accepted when every event was consumed.      *)
(*                                                                         *)
(* Event: [cmd |-> words, st |-> "ok"|"err"|"none"|"big"|"panic"|"abort"|  *)
(*         "hang"|"harness", ... logged results].                          *)
(***************************************************************************)
EXTENDS Contract, IOUtils, Json, TLC, TLCExt, SequencesExt

P     == IOEnv.V_PROP
Log   == ndJsonDeserialize(IOEnv.V_TRACE)

VARIABLES s0, l, e, n, q, mk, mem
vars == <<s0, l, e, n, q, mk, mem>>

Ev == Log[l]
C(i) == Ev.cmd[i]
I(i) == SToInt(SStr(C(i)))
EReg(i) == e[I(i) + 1]
NReg(i) == n[I(i) + 1]
QReg(i) == q[I(i) + 1]
Has(f) == f \in DOMAIN Ev
Ok == Ev.st = "ok"
\* deep results are logged in postfix form
RECURSIVE Unflat(_, _, _)
Unflat(ws, i, st) ==
  IF i > Len(ws) THEN (IF Len(st) = 1 THEN st[1] ELSE <<"malformed">>)
  ELSE LET t == ws[i]  k == Len(st)  w == IF t[1] = "op" THEN SToInt(SStr(t[3])) ELSE 0 IN
    IF t[1] # "op" THEN Unflat(ws, i + 1, Append(st, t))
    ELSE IF w \notin 1..2 \/ k < w \/ (w = 1) # (t[2] \in UnOps) THEN <<"malformed">>
    ELSE Unflat(ws, i + 1, Append(SubSeq(st, 1, k - w), IF w = 1 THEN <<t[2], st[k]>> ELSE <<t[2], st[k - 1], st[k]>>))
HasRes == Has("res") \/ Has("flat")
Res == IF Has("flat") THEN Unflat(Ev.flat, 1, <<>>) ELSE Ev.res
Crash == Ev.st \in {"panic", "abort", "hang"}
\* a refusal the design itself may make: only panics, never aborts or hangs
Refused(may) == Crash /\ ~(Ev.st = "panic" /\ may)

Q0 == "0/1"

-----------------------------------------------------------------------------
(* C17: what a construction must build *)

Tail1(s) == LET c == StrChars(s) IN CharsStr(SubSeq(c, 2, Len(c)))
NumTok(w) ==
  LET c == StrChars(w)[1] IN
  IF w = "pi" THEN PiNode ELSE IF w = "e" THEN ENode
  ELSE IF c = "v" THEN MkVar(Tail1(w))
  ELSE IF c = "i" THEN MkNum("int", Tail1(w))
  ELSE IF c = "q" THEN MkNum("rat", Tail1(w))
  ELSE <<"num", "real", Tail1(w), "none">>
RECURSIVE RpnTree(_, _, _)
RpnTree(ws, i, st) ==
  IF i > Len(ws) THEN st[1]
  ELSE LET w == ws[i] k == Len(st) IN
    IF w \in UnOps THEN RpnTree(ws, i + 1, Append(SubSeq(st, 1, k - 1), <<w, st[k]>>))
    ELSE IF w \in BinOps THEN RpnTree(ws, i + 1, Append(SubSeq(st, 1, k - 2), <<w, st[k - 1], st[k]>>))
    ELSE RpnTree(ws, i + 1, Append(st, NumTok(w)))

\* exact value of a primitive literal of type ty
PrimVal(ty, v) == IF ty = "f64" THEN SDyad(v) ELSE IF ty = "f32" THEN SF32(v) ELSE SStr(v)
IsFloatTy(ty) == ty \in {"f64", "f32"}
PrimOk(ty, v, a) ==
  IF IsFloatTy(ty) THEN a[2] = "real" /\ SDyad(a[3]) = PrimVal(ty, v)
  ELSE a[2] # "real" /\ SRawD(a[3]) # "0" /\ ExactVal(a) = SStr(v) /\ (FitsI64(SStr(v)) => a[2] = "int")

RatLit == (IF C(3) = "-1" THEN "-" ELSE "") \o C(4) \o "/" \o C(5)
RatValidArgs(sg, d) == sg \in {"1", "-1"} /\ SStr(d) # "0"

PrimNode(ty, v) == IF ty = "var" THEN MkVar(v)
                   ELSE IF IsFloatTy(ty) THEN <<"num", "real", v, "none">>
                   ELSE IF FitsI64(SStr(v)) THEN MkNum("int", v) ELSE MkNum("rat", v)
\* the node a constructor command must build, given the registers
Built ==
  LET o == C(1) IN
  CASE o = "rpn" -> RpnTree(SubSeq(Ev.cmd, 3, Len(Ev.cmd)), 1, <<>>)
    [] o = "un"  -> <<C(3), EReg(4)>>
    [] o = "bin" -> <<C(3), EReg(4), EReg(5)>>
    [] o = "powi" -> <<"pow", EReg(3), MkNum("int", C(4))>>
    [] o = "powf" -> <<"pow", EReg(3), PrimNode(C(4), C(5))>>
    [] o = "unl" -> <<C(3), PrimNode(C(4), C(5))>>
    [] o = "var" -> MkVar(C(3))
    [] o = "const" -> (IF C(3) = "pi" THEN PiNode ELSE IF C(3) = "e" THEN ENode ELSE IF C(3) = "one" THEN One ELSE Zero)
Constructors == {"rpn", "un", "bin", "powi", "powf", "unl", "var", "const"}

RatView(a) == IF IsNum(a) THEN (IF a[2] = "real" THEN "none" ELSE ExactVal(a)) ELSE "none"
ViewOk(view, a) == IF RatView(a) = "none" THEN view = "none"
                   ELSE IF ~Denotes(a) THEN TRUE          \* a quotient by zero: no value to show
                   ELSE view # "none" /\ RatValid(view) /\ SStr(view) = RatView(a)
TF(b) == IF b THEN "true" ELSE "false"
ObsOk(a) ==
  LET num == IsNum(a) IN
  /\ Ev.is_num = num
  /\ Ev.is_operator = ~IsLeaf(a)
  /\ Ev.is_operand = IsLeaf(a)
  /\ Ev.is_zero = IsZeroLit(a) /\ Ev.is_one = IsOneLit(a)
  /\ Ev.is_pi = IsPiLit(a) /\ Ev.is_e = IsELit(a)
  /\ Ev.varname = (IF IsVar(a) THEN "=" \o a[2] ELSE "none")
  /\ Ev.varnameref = Ev.varname
  /\ ViewOk(Ev.rat, a) /\ ViewOk(Ev.ratown, a)
  /\ IsLeaf(a) => /\ Ev.opviews = TF(num) \o " " \o TF(IsZeroLit(a)) \o " " \o TF(IsOneLit(a)) \o " " \o TF(IsPiLit(a)) \o " "
                                   \o TF(IsELit(a)) \o " " \o TF(num) \o " " \o TF(num) \o " true"
                  /\ Ev.optext = Ev.opdisp
CastOk(a) == Ev.cast_ref = IsNum(a) /\ Ev.cast_own = IsNum(a)

-----------------------------------------------------------------------------
(* verdict per call: TRUE when the event is allowed under property P *)

-----------------------------------------------------------------------------
(* C19: every call is a function of its operands.  mem is the sequence of the calls made so  *)
(* far and what came of them; "again" starts a second pass in another process, in another    *)
(* order, with the same mem.                                                                 *)

\* positions of register operands in a command
ERegPos == [fold |-> {3}, der |-> {3}, derx |-> {3, 4}, sub |-> {3, 5}, subx |-> {3, 4, 5}, show |-> {2}, obs |-> {2}, near |-> {2, 3},
            taylor |-> {2, 4}, taylorx |-> {2, 3, 4}, limit |-> {2, 4}, limitx |-> {2, 3, 4}, un |-> {4}, bin |-> {4, 5}, lop |-> {3, 4}]
NRegPos == [nop |-> {4, 5}, nobs |-> {2}, nclose |-> {2, 3}, nnew |-> {}, nrat |-> {}, nconst |-> {}]
QRegPos == [qop |-> {4, 5}, qcmp |-> {2, 3}, qobs |-> {2}, qnew |-> {}, qfrom |-> {}]
Pure == C(1) \in DOMAIN ERegPos \cup DOMAIN NRegPos \cup DOMAIN QRegPos
HasDst == C(1) \in {"fold", "der", "derx", "sub", "subx", "un", "bin", "nop", "nnew", "nrat", "nconst", "qop", "qnew", "qfrom"}
Operand(k) ==
  IF C(1) \in DOMAIN ERegPos /\ C(k) \notin {"zero", "inf", "bf"}
  THEN IF k \in ERegPos[C(1)] THEN ToString(EReg(k)) ELSE C(k)
  ELSE IF C(1) \in DOMAIN NRegPos THEN IF k \in NRegPos[C(1)] THEN ToString(NReg(k)) ELSE C(k)
  ELSE IF C(1) \in DOMAIN QRegPos THEN IF k \in QRegPos[C(1)] THEN QReg(k) ELSE C(k)
  ELSE C(k)
CallKey == ToString([k \in 1..Len(Ev.cmd) |-> IF k = 2 /\ HasDst THEN "" ELSE Operand(k)])
Outcome == ToString([f \in DOMAIN Ev \ {"cmd", "msg"} |-> ToString(Ev[f])])
PureOk == IF Pure THEN \A k \in 1..Len(mem) : mem[k][1] = CallKey => mem[k][2] = Outcome
          ELSE IF C(1) = "get" THEN Ok /\ ToString(Res) = ToString(EReg(2)) ELSE TRUE

GoodRes == IF HasRes THEN WellFormed(Res) ELSE TRUE

VFold(a) ==
  IF Crash
  THEN P \in {"C01", "C02", "C18", "C21"} => ~Refused(IsHuge(DFold(a)))
  ELSE IF ~Ok THEN P = "C21" /\ Ev.st = "big" => ~SLt(SInt(Size(a)), SStr(Ev.nodes))
  ELSE IF ~GoodRes THEN FALSE
  ELSE LET f == Res IN
    CASE P = "C01" -> FoldValueOk(a, f)
      [] P = "C02" -> /\ FoldComplete(f) /\ FoldExactOk(a, f) /\ FoldDivOk(a, f)
                      /\ (I(3) + 1) \in mk => Same(a, f)
      [] P = "C05" -> TagsOk(f)
      [] P = "C18" -> ShapeOk(f)
      [] P = "C21" -> FoldSizeOk(a, f)
      [] P = "C08" -> (100 + I(3) + 1) \in mk => Same(a, f)
      [] OTHER -> TRUE

\* derivative w.r.t. v; a target that is not a variable must be refused
VDer(a, v) ==
  IF Crash THEN P \in {"C07", "C08", "C18", "C21"} => ~Refused(IsHuge(DDer(a, v)))
  ELSE IF ~Ok THEN /\ Ev.st = "err" => P \notin {"C07", "C08", "C16"}
                   /\ P = "C21" /\ Ev.st = "big" => ~SLt(SInt(12 * Size(a) * Depth(a)), SStr(Ev.nodes))
  ELSE IF ~GoodRes THEN FALSE
  ELSE CASE P = "C07" -> DerValueOk(a, v, Res)
         [] P = "C08" -> DerShapeOk(a, v, Res)
         [] P = "C21" -> DerSizeOk(a, Res)
         [] P = "C05" -> TagsOk(Res)
         [] P = "C18" -> ShapeOk(Res)
         [] OTHER -> TRUE
VSub(a, v, w) ==
  IF Crash THEN P \notin {"C09", "C18"}
  ELSE IF ~Ok THEN (Ev.st = "err" => P \notin {"C09", "C16"})
  ELSE IF ~GoodRes THEN FALSE
  ELSE CASE P = "C09" -> SubOk(a, v, w, Res) /\ SubValueOk(a, v, w, Res)
         [] P = "C18" -> ShapeOk(Res)
         [] OTHER -> TRUE
VTaylor(a, v, at, order) ==
  IF Crash THEN P \in {"C11", "C12", "C18"} => ~Refused(TaylorHuge(DTaylor(a, v, at, order)))
  ELSE IF ~Ok THEN (Ev.st = "err" => P \notin {"C11", "C12", "C16"})
  ELSE IF ~(\A k \in 1..Len(Ev.coef) : WellFormed(Ev.coef[k])) \/ ~WellFormed(Ev.residual) THEN FALSE
  ELSE CASE P = "C11" -> TaylorCoefOk(a, v, at, order, Ev.coef)
         [] P = "C12" -> /\ SStr(Ev.order) = SInt(order) /\ Len(Ev.coef) = order + 1
                         /\ Same(Ev.of, MkVar(v)) /\ Same(Ev.at, at)
                         /\ ResidualOk(a, v, order, Ev.residual)
                         /\ TaylorPrintable(Ev.coef, v, at) => DispOk(Ev.chars, Ev.coef, v, at, order)
         [] P = "C18" -> ShapeOk(Ev.residual) /\ \A k \in 1..Len(Ev.coef) : ShapeOk(Ev.coef[k])
         [] OTHER -> TRUE
Answer == IF Ev.st = "err" THEN <<"err">> ELSE IF Ev.cls = "normal" THEN <<"normal", Res>> ELSE <<Ev.cls>>
LimKey(a, v, to) == ToString(<<a, v, to>>)
VLimit(a, v, to, order) ==
  IF Crash THEN P \in {"C13", "C15", "C20"} => ~Refused(DLimit(a, v, to, order)[1] = "huge" \/ DLimMay(a, v, to, order))
  ELSE IF Ev.st \notin {"ok", "err"} THEN TRUE
  ELSE IF ~GoodRes THEN FALSE
  ELSE CASE P = "C13" -> LimitOk(a, v, to, Answer)
         [] P = "C15" -> Ev.st = "err" => ~MustAnswer(a, v, to, order)
         [] P = "C20" -> /\ Answer[1] = "normal" => LimitFormOk(a, v, to, Answer[2])
                         /\ \A k \in 1..Len(mem) : mem[k][1] = LimKey(a, v, to) => LimitStable(mem[k][2], mem[k][3], order, Answer)
         [] OTHER -> TRUE
\* the text of an answer shows its class
LimitTextOk ==
  CASE Ev.cls = "zero" -> Ev.chars = <<"0">>
    [] Ev.cls = "inf" -> Ev.chars = StrChars("infinity")
    [] Ev.cls = "bf" -> Ev.chars = <<"~">>
    [] OTHER -> ShowOk(Res, Ev.chars)
LArg(i, f) == IF C(i) \in {"zero", "inf", "bf"} THEN <<C(i)>> ELSE <<"normal", f>>
VLop ==
  LET a == LArg(3, EReg(3))  b == LArg(4, EReg(4)) IN
  IF P # "C14" THEN TRUE
  ELSE IF Crash THEN FALSE
  ELSE IF ~GoodRes THEN FALSE
  ELSE /\ ClassOk(C(2), a, b, Answer)
       /\ Ev.st = "err" => ~ClassMustAnswer(C(2), a, b)
       /\ Ok => LimitTextOk

VNop(o, a, b) ==
  IF Crash THEN P \in {"C03"} => ~Refused(OpMayRefuse(o, a, b) \/ (o = "div" /\ b[2] # "real" /\ ExactVal(b) = "0"))
  ELSE CASE P = "C03" -> OpValueOk(o, a, b, Res)
         [] P = "C05" -> TagOk(Res) /\ OpConstOk(o, a, b, Res)
         [] OTHER -> TRUE
\* the text marks exactly the special numbers
MarkText(a) == /\ (Ev.chars = <<"0">>) = (a[4] = "zero")
               /\ (Ev.chars = <<"1">>) = (a[4] = "one")
               /\ (Ev.chars = <<"p", "i">>) = (a[4] = "pi")
               /\ (Ev.chars = <<"e">>) = (a[4] = "e")
SignView(a) == LET v == DyadVal(a) IN
  ~Denotes(a) \/ SIsZero(v) \/ SStr(Ev.sign) = SInt(SSign(v))
VNobs(a) ==
  IF Crash THEN P \notin {"C05", "C06"}
  ELSE CASE P = "C05" -> MarkText(a) /\ TagOk(a)
         [] P = "C06" -> /\ (IF a[2] = "int" THEN Ev.i64 # "none" /\ SStr(Ev.i64) = ExactVal(a) ELSE Ev.i64 = "none")
                         /\ ViewOk(Ev.rat, a) /\ ViewOk(Ev.ratref, a)
                         /\ FloatViewOk(Ev.f64, a)
                         /\ SignView(a)
         [] OTHER -> TRUE
VNew(ty, v) ==
  IF Crash THEN P # "C06"
  ELSE IF ~GoodRes THEN FALSE
  ELSE CASE P = "C06" -> PrimOk(ty, v, Res)
         [] P = "C05" -> TagOk(Res)
         [] OTHER -> TRUE
\* rationals through the number type
VNrat ==
  IF Crash THEN P \notin {"C03", "C04", "C06"}
  ELSE IF Ev.st = "none" THEN (P \in {"C04", "C06"} => ~RatValidArgs(C(3), C(5)))
  ELSE CASE P = "C04" -> RatValidArgs(C(3), C(5))
         [] P = "C06" -> Res[2] = "rat" /\ ExactVal(Res) = SStr(RatLit)
         [] P = "C05" -> TagOk(Res)
         [] OTHER -> TRUE
ConstNode(c) == IF c = "pi" THEN PiNode ELSE IF c = "e" THEN ENode ELSE IF c = "one" THEN One ELSE Zero

QText(cs) == LET s == CharsStr(cs) IN s
VQ ==
  IF P # "C04" THEN TRUE
  ELSE LET o == C(1) IN
    CASE o = "qnew" ->
           LET sg == IF C(6) = "new" THEN C(3) ELSE IF C(6) = "pos" THEN "1" ELSE "-1"
               valid == RatValidArgs(sg, C(5)) IN
           IF Crash THEN FALSE
           ELSE IF valid THEN Ok /\ Res = (IF sg = "-1" THEN "-" ELSE "") \o C(4) \o "/" \o C(5)
           ELSE Ev.st = "none"
      [] o = "qfrom" -> IF Crash THEN FALSE ELSE RatValid(Res) /\ SStr(Res) = SStr(C(4))
      [] o = "qop" -> IF Crash THEN ~Refused(RatMayRefuse(C(3), QReg(4), QReg(5))
                                             \/ (C(3) = "div" /\ SStr(QReg(5)) = "0"))
                      ELSE RatOpOk(C(3), QReg(4), QReg(5), Res)
      [] o = "qcmp" -> IF Crash THEN FALSE
                       ELSE RatValid(QReg(2)) /\ RatValid(QReg(3))
                            => Ev.eq = (SStr(QReg(2)) = SStr(QReg(3))) /\ Ev.ne = ~Ev.eq
      [] OTHER -> IF Crash THEN FALSE  \* qobs
                  ELSE RatValid(QReg(2)) => CloseF(Ev.f64, SStr(QReg(2))) /\ RatValid(QText(Ev.chars))
                                            /\ SStr(QText(Ev.chars)) = SStr(QReg(2))

\* output of the example program: expansions of exp x at 0 and ln x at 1, order 5
EXP == <<"exp", MkVar("x")>>
LNX == <<"ln", MkVar("x")>>
RECURSIVE Find(_, _, _)
Find(cs, w, k) == IF k + Len(w) - 1 > Len(cs) THEN 0
                  ELSE IF SubSeq(cs, k, k + Len(w) - 1) = w THEN k ELSE Find(cs, w, k + 1)
AfterColon(cs) == LET k == Find(cs, <<":", " ">>, 1) IN IF k = 0 THEN <<>> ELSE SubSeq(cs, k + 2, Len(cs))
VMain ==
  IF P # "C12" THEN TRUE
  ELSE IF ~Ok THEN FALSE
  ELSE \A f \in {<<EXP, Zero>>, <<LNX, One>>} :
         \E j \in 1..Len(Ev.lines) :
           LET t == DTaylor(f[1], "x", f[2], 5) cs == Ev.lines[j] IN
           /\ Find(cs, DShow(f[1]), 1) > 0
           /\ DispOk(AfterColon(cs), t.coef, "x", f[2], 5)

\* every operation takes two names for one variable exactly when they are equal
NamesOk ==
  LET nm(i) == C(3 + SToInt(i))  N == Len(Ev.cmd) - 2 IN
  IF Crash THEN FALSE
  ELSE /\ Ok /\ Ev.odd = <<>>
       /\ \A k \in 1..Len(Ev.pairs) : nm(Ev.pairs[k][1]) = nm(Ev.pairs[k][2])
       /\ C(2) # "fold" => \A i \in 1..N : \E k \in 1..Len(Ev.pairs) : Ev.pairs[k] = <<SInt(i - 1), SInt(i - 1)>>
Allowed ==
  LET o == C(1) IN
  CASE P = "C19" -> PureOk
    [] o \in {"new", "again", "get"} -> TRUE
    [] o \in Constructors -> (IF P = "C17" THEN Ok /\ GoodRes /\ Same(Built, Res)
                              ELSE IF P = "C05" /\ Ok THEN TagsOk(Res)
                              ELSE TRUE)
    [] o = "num" -> (CASE P = "C06" -> Ok /\ GoodRes /\ IsNum(Res) /\ PrimOk(C(3), C(4), Res)
                       [] P = "C17" -> Ok /\ GoodRes /\ IsNum(Res)
                       [] P = "C05" -> Ok => TagOk(Res)
                       [] OTHER -> TRUE)
    [] o = "rat" -> (IF P \in {"C17", "C06"}
                     THEN IF RatValidArgs(C(3), C(5))
                          THEN Ok /\ GoodRes /\ IsNum(Res) /\ Res[2] = "rat" /\ ExactVal(Res) = SStr(RatLit)
                          ELSE Ev.st = "none"
                     ELSE TRUE)
    [] o = "fold" -> VFold(EReg(3))
    [] o = "der" -> VDer(EReg(3), C(4))
    [] o = "derx" -> (IF IsVar(EReg(4)) THEN VDer(EReg(3), EReg(4)[2])
                      ELSE P \in {"C16", "C18"} => Ev.st = "err")
    [] o = "sub" -> VSub(EReg(3), C(4), EReg(5))
    [] o = "subx" -> (IF IsVar(EReg(4)) THEN VSub(EReg(3), EReg(4)[2], EReg(5))
                      ELSE P \in {"C16", "C18"} => Ev.st = "err")
    [] o = "show" -> (IF Crash THEN P \notin {"C10", "C18"} ELSE P = "C10" => ShowOk(EReg(2), Ev.chars))
    [] o = "obs" -> (IF Crash THEN P \notin {"C16", "C17"}
                     ELSE CASE P = "C17" -> ObsOk(EReg(2))
                            [] P = "C16" -> CastOk(EReg(2))
                            [] P = "C05" -> Ev.is_zero = IsZeroLit(EReg(2)) /\ Ev.is_one = IsOneLit(EReg(2))
                            [] OTHER -> TRUE)
    [] o = "near" -> LET a == EReg(2) b == EReg(3) both == IsNum(a) /\ IsNum(b) IN
                     (IF Crash THEN P \in {"C16", "C06"} => ~Refused(both /\ OpMayRefuse("sub", a, b))
                      ELSE CASE P = "C16" -> (Ev.st = "err") = ~both
                             [] P = "C06" -> (both => Ok /\ CloseOk(a, b, C(4), Ev.ans))
                             [] OTHER -> TRUE)
    [] o = "names" -> NamesOk
    [] o = "taylor" -> VTaylor(EReg(2), C(3), EReg(4), I(5))
    [] o = "taylorx" -> (IF IsVar(EReg(3)) THEN VTaylor(EReg(2), EReg(3)[2], EReg(4), I(5))
                         ELSE P \in {"C16", "C18"} => Ev.st = "err")
    [] o = "limit" -> VLimit(EReg(2), C(3), EReg(4), I(5))
    [] o = "limitx" -> (IF IsVar(EReg(3)) THEN VLimit(EReg(2), EReg(3)[2], EReg(4), I(5))
                        ELSE P \in {"C13", "C16"} => Ev.st = "err")
    [] o = "opeq" -> (LET a == EReg(2) b == EReg(3) IN
                      P = "C17" => IF IsLeaf(a) \/ IsLeaf(b) THEN Ev.st = "none" ELSE Ok /\ Ev.eq = (a[1] = b[1]) /\ Ev.ne = ~Ev.eq)
    [] o = "lop" -> VLop
    [] o = "nnew" -> VNew(C(3), C(4))
    [] o = "nrat" -> VNrat
    [] o = "nconst" -> (IF P \in {"C05", "C06"} THEN Ok /\ SameNum(ConstNode(C(3)), Res) ELSE TRUE)
    [] o = "nop" -> VNop(C(3), NReg(4), NReg(5))
    [] o = "nobs" -> VNobs(NReg(2))
    [] o = "nclose" -> (IF P # "C06" THEN TRUE
                        ELSE IF Crash THEN FALSE
                        ELSE Ev.ansref = Ev.ans /\ CloseOk(NReg(2), NReg(3), C(4), Ev.ans))
    [] o \in {"qnew", "qfrom", "qop", "qcmp", "qobs"} -> VQ
    [] o = "main" -> VMain
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* state adoption *)

ERes == {"rpn", "un", "bin", "powi", "powf", "unl", "var", "const", "num", "rat", "fold", "der", "derx", "sub", "subx"}
NRes == {"nnew", "nrat", "nconst", "nop"}
QRes == {"qnew", "qfrom", "qop"}
Adopt == Ok /\ HasRes /\ (C(1) \in ERes => WellFormed(Res))

Fresh == C(1) = "new"
E0 == [i \in 1..10 |-> Zero]
Q1 == [i \in 1..10 |-> Q0]
Init ==
  /\ s0 \in {i \in 1..Len(Log) : Log[i].cmd[1] = "new"}
  /\ l = s0
  /\ e = E0 /\ n = E0 /\ q = Q1 /\ mk = {} /\ mem = <<>>
Next ==
  /\ l <= Len(Log)
  /\ l = s0 \/ C(1) # "new"          \* the next session is its own initial state
  /\ l' = l + 1 /\ s0' = s0
  /\ IF Allowed THEN TRUE ELSE PrintT("BAD|" \o ToString(l))
  /\ mem' = IF P = "C19" /\ Pure THEN Append(mem, <<CallKey, Outcome>>)
            ELSE IF P = "C20" /\ C(1) = "limit" /\ Ev.st \in {"ok", "err"} /\ GoodRes
            THEN Append(mem, <<LimKey(EReg(2), C(3), EReg(4)), I(5), Answer>>) ELSE mem
  /\ e' = IF C(1) = "again" THEN E0 ELSE IF Adopt /\ C(1) \in ERes THEN [e EXCEPT ![I(2) + 1] = Res] ELSE e
  /\ n' = IF C(1) = "again" THEN E0 ELSE IF Adopt /\ C(1) \in NRes THEN [n EXCEPT ![I(2) + 1] = Res] ELSE n
  /\ q' = IF C(1) = "again" THEN Q1 ELSE IF Adopt /\ C(1) \in QRes THEN [q EXCEPT ![I(2) + 1] = Res] ELSE q
  /\ mk' = IF Adopt /\ C(1) \in ERes
           THEN (mk \ {I(2) + 1, 101 + I(2)})
                \cup (IF C(1) = "fold" THEN {I(2) + 1} ELSE {})
                \cup (IF C(1) \in {"der", "derx"} THEN {101 + I(2)} ELSE {})
           ELSE mk
Spec == Init /\ [][Next]_vars
=============================================================================
