------------------------------- MODULE NumEnum -------------------------------
(***************************************************************************)
(* All ordered pairs of the boundary pool, all operators, all views (C03,  *)
(* C05, C06); all pairs of rationals over small components and boundary    *)
(* ones (C04); all pairs of limit classes with value expressions (C14).    *)
(***************************************************************************)
EXTENDS NumOps, IOUtils

P    == IOEnv.V_PROP
Deep == SToInt(IOEnv.V_BIG) > 1
VARIABLES i, j, stage

\* ---- numbers ----------------------------------------------------------------
Ops4 == <<"add", "sub", "mul", "div">>
NumScript(a, b) ==
  LET x == LitNum(a)  y == LitNum(b) IN
  CASE P \in {"C03", "C05"} ->
    NOut(<<LitCmd(0, a), LitCmd(1, b), NopCmd(2, "add", 0, 1), NopCmd(3, "sub", 0, 1), NopCmd(4, "mul", 0, 1), NopCmd(5, "div", 0, 1),
           NopCmd(6, "neg", 0, 0)>> \o
         (IF P = "C05" THEN <<"nobs 2", "nobs 3", "nobs 4", "nobs 5", "nobs 6", "nobs 0">> ELSE <<>>),
         (\A o \in NumBin : CheckNop(P, o, x, y)) /\ CheckNop(P, "neg", x, x))
    [] OTHER -> \* C06
    NOut((IF i = j THEN <<LitCmd(0, a), "nobs 0">> ELSE <<LitCmd(0, a)>>) \o
         <<LitCmd(1, b), "nclose 0 1 0.5", "nclose 0 1 1e-9", "nclose 1 0 3.0", "nclose 0 1 1e-15", "nclose 0 1 0">> \o
         (IF j = 1 THEN <<NopCmd(2, "add", 0, 1), "nobs 2">> ELSE <<>>), TRUE)

\* ---- conversions (C06): every primitive type, extreme and ordinary values ------
PrimPool == <<
  <<"i8", "-128">>, <<"i8", "127">>, <<"i8", "0">>, <<"i8", "-1">>, <<"u8", "0">>, <<"u8", "255">>, <<"u8", "1">>, <<"u8", "128">>,
  <<"i16", "-32768">>, <<"i16", "32767">>, <<"i16", "-2">>, <<"u16", "65535">>, <<"u16", "32768">>, <<"u16", "0">>,
  <<"i32", "-2147483648">>, <<"i32", "2147483647">>, <<"i32", "5">>, <<"u32", "4294967295">>, <<"u32", "2147483648">>, <<"u32", "1">>,
  <<"i64", I64Min>>, <<"i64", I64Max>>, <<"i64", "-1">>, <<"i64", "0">>, <<"i64", "1">>, <<"i64", "9007199254740993">>,
  <<"u64", U64Max>>, <<"u64", "9223372036854775807">>, <<"u64", "9223372036854775808">>, <<"u64", "18446744073709551614">>, <<"u64", "0">>, <<"u64", "1">>, <<"u64", "42">>,
  <<"f64", "0.0">>, <<"f64", "-0.0">>, <<"f64", "1.0">>, <<"f64", "0.1">>, <<"f64", "-1e308">>, <<"f64", "5e-324">>, <<"f64", "123456789.125">>, <<"f64", "3.0">>,
  <<"f64", "1e19">>, <<"f64", "-0.3333333333333333">>,
  <<"f32", "0.1">>, <<"f32", "1.0">>, <<"f32", "-3.4e38">>, <<"f32", "1e-40">>, <<"f32", "16777217">>, <<"f32", "0.0">> >>
PrimScript(p) ==
  NOut(<<"nnew 0 " \o p[1] \o " " \o p[2], "nobs 0", "num 0 " \o p[1] \o " " \o p[2], "near 0 0 1e-3", "obs 0",
         "num 1 i64 3", "near 0 1 0.25", "near 1 0 100.5", "nnew 1 i64 0", NopCmd(2, "sub", 0, 1), "nobs 2">>, TRUE)
\* infinite values and values that are not numbers, each against ordinary ones and each other
NonFin == <<"inf", "-inf", "nan">>
NonFinScript(a) ==
  LET other == <<"nnew 1 f64 0.5", "nnew 1 f64 inf", "nnew 1 f64 -inf", "nnew 1 f64 nan", "nnew 1 i64 " \o I64Max, "nrat 1 -1 2 3", "nconst 1 pi">>
      one(y) == <<other[y], "nclose 0 1 0.5", "nclose 1 0 0.5", "nclose 0 1 1e300", "nclose 1 0 0">>
  IN NOut(<<"nnew 0 f64 " \o a>> \o one(1) \o one(2) \o one(3) \o one(4) \o one(5) \o one(6) \o one(7) \o <<"nclose 0 0 1.0", "num 0 f64 " \o a, "num 1 f64 1.5", "near 0 1 0.25", "near 1 0 0.25", "near 0 0 0.25">>, TRUE)

\* ---- rationals -------------------------------------------------------------------
QNs == IF Deep THEN <<"0", "1", "2", "3", "4", "5", "6", "8", "9", "12">> ELSE <<"0", "1", "2", "3", "4", "6">>
QDs == IF Deep THEN <<"1", "2", "3", "4", "5", "6", "9">> ELSE <<"1", "2", "3", "4", "6">>
QSmall == {s \o a \o "/" \o b : s \in {"", "-"}, a \in {QNs[x] : x \in DOMAIN QNs}, b \in {QDs[x] : x \in DOMAIN QDs}}
QBig == {I64Max \o "/1", "1/" \o I64Max, "-" \o U64Max \o "/1", "1/" \o U64Max, U64Max \o "/" \o U64Max, "4294967296/3", "-3/4294967296",
         "9223372036854775808/6", "6074001000/6074001000", "-2147483648/4294967295", I64Max \o "/" \o "9223372036854775806",
         "0/" \o U64Max, "-0/4294967296", "3037000500/7", "1000000007/998244353"}
RECURSIVE SetSeq(_)
SetSeq(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o SetSeq(T \ {x})
QPool == SetSeq(QSmall) \o SetSeq(QBig)
QNew(d, v) == "qnew " \o S(d) \o " " \o (IF SRawSign(v) = -1 THEN "-1" ELSE "1") \o " " \o SRawN(v) \o " " \o SRawD(v) \o " " \o
              (IF SRawN(v) \in {"1", "4"} THEN (IF SRawSign(v) = -1 THEN "neg" ELSE "pos") ELSE "new")
QCheck(o, a, b) == LET v == QFull(QRes(o, a, b)) IN v = "huge" \/ RatOpOk(o, a, b, v)
QScript(a, b) ==
  NOut(<<QNew(0, a), QNew(1, b), "qcmp 0 1", "qop 2 add 0 1", "qop 3 sub 0 1", "qop 4 mul 0 1", "qop 5 div 0 1", "qcmp 2 3", "qcmp 0 2">> \o
       (IF i = j THEN <<"qobs 0", "qop 2 neg 0 0", "qobs 2", "qop 3 reduce 0 0", "qcmp 0 3", "qcmp 0 2", "qobs 3">> ELSE <<>>),
       \A o \in NumBin : QCheck(o, a, b))
\* constructor arguments: valid and invalid ones
QArgs == {<<s, a, b, f>> : s \in {"1", "-1", "0", "2", "-2", "9223372036854775807"}, a \in {"0", "1", "6"}, b \in {"0", "1", "4"}, f \in {"new", "pos", "neg"}}
         \cup {<<"-9223372036854775807", "1", "1", "new">>, <<I64Min, "1", "1", "new">>}
QArgSeq == SetSeq(QArgs)
QArgScript(x) ==
  NOut(<<"qnew 0 " \o x[1] \o " " \o x[2] \o " " \o x[3] \o " " \o x[4], "qobs 0",
         "nrat 0 " \o x[1] \o " " \o x[2] \o " " \o x[3], "qfrom 1 i64 -" \o x[2], "qfrom 2 u64 " \o x[2], "qcmp 1 2",
         "qfrom 1 i64 " \o I64Min, "qobs 1", "qfrom 2 u64 " \o U64Max, "qobs 2">>, TRUE)

\* ---- limit classes ---------------------------------------------------------------------
VBs == <<"sub", MkVar("y"), MkInt(9)>>
Normals == <<MkInt(2), MkInt(-3), Rat("1/2"), PiNode, MkVar("y"), <<"add", MkVar("y"), One>>, <<"cos", MkVar("z")>>, One, Real("0.25"), VBs,
             <<"mul", MkVar("y"), Real("0.1001")>>, <<"mul", MkVar("y"), Real("0.1004")>>, <<"sin", Real("1.0001")>>, <<"sin", Real("1.0002")>>>>
Classes == << <<"zero">>, <<"inf">>, <<"bf">> >> \o [x \in 1..Len(Normals) |-> <<"normal", Normals[x]>>]
ClArg(c, d) == IF c[1] = "normal" THEN S(d) ELSE c[1]
ClSet(c, d) == IF c[1] = "normal" THEN <<CRpn(d, c[2])>> ELSE <<>>
ClOk(o, a, b) ==
  LET z == IF o = "neg" THEN LNeg(a) ELSE LOp(o, a, b) IN
  z[1] = "huge" \/ ClassOk(o, a, b, z)
LopScript(a, b) ==
  NOut(ClSet(a, 0) \o ClSet(b, 1) \o
       [x \in 1..5 |-> LET o == <<"add", "sub", "mul", "div", "neg">>[x] IN "lop " \o o \o " " \o ClArg(a, 0) \o " " \o ClArg(b, 1)],
       \A o \in {"add", "sub", "mul", "div", "neg"} : ClOk(o, a, b))

\* ---- the state graph: rows, then pairs ------------------------------------------------
Rows == CASE P = "C04" -> Len(QPool) [] P = "C14" -> Len(Classes) [] OTHER -> Len(Pool)
Extra == CASE P = "C04" -> Len(QArgSeq) [] P = "C06" -> Len(PrimPool) + Len(NonFin) [] OTHER -> 0
Init == i \in 1..Rows /\ j = 0 /\ stage = "row"
Next == \/ /\ stage = "row" /\ j' \in 1..Rows /\ stage' = "pair" /\ i' = i
        \/ /\ stage = "row" /\ i = 1 /\ j' \in 1..Extra /\ stage' = "extra" /\ i' = i
Spec == Init /\ [][Next]_<<i, j, stage>>
Final == IF stage = "extra" THEN (IF P = "C04" THEN QArgScript(QArgSeq[j]) ELSE IF j > Len(PrimPool) THEN NonFinScript(NonFin[j - Len(PrimPool)]) ELSE PrimScript(PrimPool[j]))
         ELSE CASE P = "C04" -> QScript(QPool[i], QPool[j])
                [] P = "C14" -> LopScript(Classes[i], Classes[j])
                [] OTHER -> NumScript(Pool[i], Pool[j])
DesignOk == stage # "row" => \E o \in {Final} : o.ok /\ PrintT("SESS|" \o "0" \o Join(o.cmds))
=============================================================================
