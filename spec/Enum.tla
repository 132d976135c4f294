--------------------------------- MODULE Enum ---------------------------------
(***************************************************************************)
(* Exhaustive small scope.  A stack machine builds every expression of at  *)
(* most MaxN nodes over the leaf library of property P (actions Push, Ap1, *)
(* Ap2 = the constructors of the library); in every state whose stack is   *)
(* one expression, all calls of interest to P are made on the reference    *)
(* design and judged by the contract (invariant DesignOk), and the same    *)
(* calls are printed for replay on the real code.                          *)
(***************************************************************************)
EXTENDS Ops, IOUtils

P    == IOEnv.V_PROP
Deep == SToInt(IOEnv.V_BIG) > 1
VARIABLES stk, lb

\* libraries: [leaf, un, bin, n]; a leaf may be a small compound that counts as one node
D1x == <<"div", One, VX>>
LimBin == {"add", "sub", "mul", "div"}
More(a, b) == IF Deep THEN a \cup b ELSE a
L4(leaf) == [leaf |-> leaf, un |-> UnOps, bin |-> BinOps, n |-> 4]
L5(leaf) == [leaf |-> leaf, un |-> UnOps, bin |-> BinOps, n |-> 5]
\* two operators over two constants and a variable
LB(leaf) == [leaf |-> leaf, un |-> {}, bin |-> BinOps, n |-> 5]
\* variables named like constants
NameLike == {VX, MkVar("e"), MkVar("pi"), MkVar("0"), MkVar("1"), One}
LN(leaf, m) == [leaf |-> leaf, un |-> UnOps, bin |-> BinOps, n |-> m]
\* powers of e and of 2, products and quotients of variables as exponents
LE == LB({VX, VY, ENode})
Libs ==
  CASE P = "C01" -> <<L4(More({VX, Zero, One, MkInt(2), Rat("-1/2"), PiNode, ENode}, {MkInt(-1), Real("1.5"), Rat("2/2"), VY})),
                      L5(More({VX, MkInt(2), PiNode}, {Rat("-1/2")})), L5({VX, MkInt(-1), Zero}),
                      LN({VX, <<"mul", VX, Real("0.1001")>>, <<"mul", VX, Real("0.1004")>>, Real("0.1001"), Real("0.1002")}, 3),
                      LN({VX, Real("5e-5"), Real("-1e-7"), Real("3e-10"), Zero, Rat("1/100000")}, 3),
                      LN({<<"sin", VX>>, <<"sin", VY>>, <<"add", VX, One>>, <<"add", One, VX>>, <<"neg", VX>>, <<"mul", MkInt(2), VX>>}, 3),
                      LB({VX, IntS("1000003"), MkInt(7)}), LB({VX, IntS("9000000000001"), MkInt(3)}), LB({VX, MkInt(-6), Rat("3/4")}), LB({VX, Real("0.5"), Rat("-4/6")}), LN(NameLike, 3), LE, LB({VX, ENode, MkInt(-2)}), LB({VX, PiNode, Rat("1/2")})>>
    [] P = "C21" -> <<L4({VX, Zero, One, MkInt(-1), PiNode, ENode}), L5({VX, MkInt(2)}), LB({VX, IntS("1000003"), MkInt(7)}), LB({VX, MkInt(-6), Rat("3/4")}), LN(More({VX, VY, <<"neg", VX>>, <<"add", VX, One>>, <<"mul", MkInt(2), VX>>, <<"pow", VX, MkInt(2)>>, <<"ln", VX>>}, {Rat("1/2"), <<"exp", VX>>}), 3)>>
    [] P = "C02" -> <<L4(More({VX, Zero, One, MkInt(-2), Rat("1/2"), PiNode, ENode}, {MkInt(-1), Real("1.5"), Rat("0/3"), Rat("2/2"), VY})),
                      L5(More({VX, Rat("-1/2"), ENode}, {Zero})), L5({VX, One, MkInt(-1)}),
                      LB({VX, IntS("1000003"), MkInt(7)}), LB({VX, IntS("9000000000001"), MkInt(3)}), LB({VX, MkInt(-6), Rat("3/4")}), LB({VX, Real("0.5"), Rat("-4/6")})>>
    [] P = "C05" -> <<L4(More({VX, Zero, One, MkInt(-1), Rat("1/2"), PiNode, ENode}, {MkInt(2), Rat("-2/2"), Rat("0/3"), Real("1.0")})),
                      L4({VX, Rat("2/2"), Rat("0/3"), Real("1.0"), Real("0.0"), PiNode, MkInt(2)})>>
    [] P = "C07" -> <<L4(More({VX, VY, MkInt(2), Rat("-1/2")}, {Zero, One, ENode, Real("1.5")})), L5(More({VX, MkInt(3)}, {VY})), L4({VX, Rat("1/2"), MkInt(-2)}), LN(NameLike, 3), LE, LB({VX, VY, MkInt(2)})>>
    [] P = "C08" -> <<L4(More({VX, VY, MkInt(2), Rat("-1/2")}, {Zero, One, ENode, Real("1.5")})), L5(More({VX, MkVar("xx")}, {MkInt(2)})), LN(NameLike, 3), LE>>
    [] P = "C09" -> <<L4(More({VX, VY, One}, {MkVar("xx"), Rat("1/2")})), L4({VX, MkVar("xx"), MkVar("X"), MkVar("x1")}), LN(NameLike, 3)>>
    [] P = "C10" -> <<L5(More({VX, MkInt(-2)}, {Rat("1/2")})), L4({VX, VY, Rat("-1/2"), Rat("3/2"), Real("-1.5"), MkInt(-1), PiNode, ENode}), LB({VX, ENode, Rat("-1/2")})>>
    [] P \in {"C11", "C12"} -> <<LN(More({VX, One, MkInt(3)}, {VY, Rat("-1/2")}), IF Deep THEN 4 ELSE 3), L4({VX}), LN(NameLike \ {MkVar("0"), MkVar("1")}, 3)>>
    [] P \in {"C13", "C15"} ->
         <<[leaf |-> {VX, D1x, One, <<"neg", D1x>>, <<"sin", D1x>>, <<"div", One, <<"mul", VX, VX>>>>, Zero}, un |-> {"exp", "ln"}, bin |-> {"add", "mul", "div", "pow"}, n |-> 3],
           [leaf |-> {VX, Real("0.1001"), Real("0.1004"), Rat("999/1000")}, un |-> {}, bin |-> LimBin, n |-> 3],
           [leaf |-> More({VX, One}, {MkInt(-2)}), un |-> {"neg", "sin", "cos"}, bin |-> LimBin, n |-> 5],
           [leaf |-> More({VX, MkInt(2), D1x, <<"sin", D1x>>, <<"cos", D1x>>, <<"sin", VX>>, <<"sub", One, <<"cos", VX>>>>}, {Rat("1/2000"), <<"mul", VX, VX>>}),
            un |-> {"neg", "sin", "cos"}, bin |-> LimBin, n |-> 4],
           [leaf |-> {VX, D1x, <<"sin", D1x>>, One}, un |-> {}, bin |-> LimBin, n |-> 5],
           [leaf |-> {<<"div", <<"sin", VX>>, VX>>, VX, MkInt(2), D1x, <<"div", VX, <<"sub", <<"cos", VX>>, One>>>>,
                      <<"div", <<"sub", One, <<"cos", VX>>>>, <<"mul", VX, VX>>>>}, un |-> {"cos"}, bin |-> LimBin, n |-> 3],
           [leaf |-> {VX, Rat("1/2000"), MkInt(1000), VY, Rat("1/1000000"), PiNode}, un |-> {"sin"}, bin |-> LimBin, n |-> 3]>>
    [] P = "C20" ->
         <<[leaf |-> More({VX, One}, {MkInt(-2)}), un |-> {"neg", "sin", "cos"}, bin |-> LimBin, n |-> 4],
           [leaf |-> {VX, D1x, <<"sin", D1x>>, <<"sin", VX>>, <<"sub", One, <<"cos", VX>>>>, MkInt(2), VY}, un |-> {"sin"}, bin |-> LimBin, n |-> 3],
           [leaf |-> {<<"mul", VX, VX>>, <<"sin", VX>>, <<"mul", VX, <<"sin", VX>>>>, D1x, One, <<"sub", <<"sin", VX>>, VX>>}, un |-> {}, bin |-> LimBin, n |-> 3],
           [leaf |-> {VX, Real("0.1001"), Real("0.1004"), Real("-2.0002"), Rat("999/1000"), PiNode, VY}, un |-> {}, bin |-> LimBin, n |-> 3]>>
    [] P = "C19" -> <<LN({VX, VY, One, Real("0.5"), MkVar("xx")}, 3)>>
    [] P = "C16" -> <<LN({VX, One, PiNode}, IF Deep THEN 4 ELSE 3)>>
    [] P = "C17" -> <<LN({VX, VY, One, Rat("1/2")}, 3), LN(More({VX, Rat("1/2")}, {VY, One}), 4), LN({VX, Zero, One, Rat("2/2"), PiNode, ENode, Real("1.5"), MkInt(-1)}, 2 + (IF Deep THEN 1 ELSE 0))>>
    [] OTHER     -> <<L4(More({VX, Zero, MkInt(-1), Rat("1/2")}, {One, ENode, PiNode, Real("0.0"), Rat("0/2")})), L4({VX, MkInt(2), PiNode, Real("1.5")}),
                      L5({VX, MkInt(2)})>>
Lib == Libs[lb]

RECURSIVE Wt(_)
Wt(e) == IF e \in Lib.leaf THEN 1 ELSE IF IsUn(e) THEN 1 + Wt(e[2]) ELSE 1 + Wt(e[2]) + Wt(e[3])
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Wt(Head(q)) + Total(Tail(q))
\* a stack of j trees needs j-1 more binary nodes
Room(q) == Total(q) + (IF Len(q) = 0 THEN 0 ELSE Len(q) - 1) <= Lib.n

Push == \E a \in Lib.leaf : stk' = Append(stk, a)
Ap1 == Len(stk) >= 1 /\ \E o \in Lib.un :
         stk' = Append(SubSeq(stk, 1, Len(stk) - 1), <<o, stk[Len(stk)]>>)
Ap2 == Len(stk) >= 2 /\ \E o \in Lib.bin :
         stk' = Append(SubSeq(stk, 1, Len(stk) - 2), <<o, stk[Len(stk) - 1], stk[Len(stk)]>>)
Init == stk = <<>> /\ lb \in 1..Len(Libs)
Next == (Push \/ Ap1 \/ Ap2) /\ lb' = lb /\ Room(stk')
Spec == Init /\ [][Next]_<<stk, lb>>

-----------------------------------------------------------------------------
Regs(x) == [i \in 1..NR |-> IF i = 1 THEN x ELSE IF i = 2 THEN <<"add", VX, One>> ELSE IF i = 3 THEN VY ELSE IF i = 4 THEN MkInt(2) ELSE Zero]
Pre == <<CRpn(1, <<"add", VX, One>>), CRpn(2, VY), CRpn(3, MkInt(2))>>

RECURSIVE Seqs(_, _)
Seqs(fs, a) == IF fs = <<>> THEN a ELSE Seqs(Tail(fs), LET b == Head(fs) IN [cmds |-> a.cmds \o b.cmds, r |-> b.r, ok |-> a.ok /\ b.ok])

\* construction by the individual constructors, by value and by reference
RECURSIVE Cons(_, _)
Cons(x, d) ==   \* commands leaving x in harness register d
  IF IsVar(x) THEN <<"var " \o S(d) \o " " \o x[2] \o " " \o (IF d % 2 = 0 THEN "expr" ELSE "operand")>>
  ELSE IF IsNum(x) THEN (IF x[2] = "int" THEN <<"num " \o S(d) \o " i64 " \o x[3]>> ELSE <<CRpn(d, x)>>)
  ELSE IF IsUn(x) THEN Append(Cons(x[2], d), "un " \o S(d) \o " " \o x[1] \o " " \o S(d) \o " "
                              \o (IF Size(x) % 3 = 0 THEN "ref" ELSE IF Size(x) % 3 = 1 THEN "val" ELSE "fn"))
  ELSE Cons(x[2], d) \o Cons(x[3], d + 1) \o <<"bin " \o S(d) \o " " \o x[1] \o " " \o S(d) \o " " \o S(d + 1)>>

Out0(x) == Out(<<CRpn(0, x)>>, Regs(x), TRUE)
TargetsBad == {One, PiNode, <<"neg", VX>>, <<"mul", VX, VY>>}
\* limits at points that are themselves expressions
VB == MkVar("b")
OddPoints == <<<<"add", VB, Zero>>, <<"sub", <<"neg", One>>, One>>, PiNode, <<"mul", One, VB>>, <<"sub", <<"mul", VB, VB>>, Rat("3/3")>>, <<"neg", <<"neg", VB>>>>,
               <<"div", MkInt(4), MkInt(-6)>>, VB, Real("0.25"), <<"pow", VB, One>>, <<"add", Zero, <<"cos", VB>>>>, <<"sub", VB, VB>>>>
\* expansions at points that are themselves expressions
TayPoints == <<<<"sub", VB, One>>, <<"add", VB, MkVar("c")>>, <<"sub", VB, <<"sub", MkVar("c"), One>>>>, <<"neg", VB>>, <<"mul", MkInt(2), VB>>, <<"div", VB, MkInt(-2)>>,
               <<"neg", <<"add", VB, One>>>>, <<"sub", One, VB>>, <<"add", One, MkInt(-3)>>, <<"pow", VB, MkInt(2)>>, VX, <<"sin", VB>>>>
AtPoints(q, as) == Seqs([i \in 1..Len(as) |-> DoLimit(P, q, 1, "x", as[i], 1, "var")], Out(<<>>, q, TRUE))
Final(x) ==
  LET q == Regs(x)  a == Out0(x) IN
  CASE P = "C01" -> Then(a, LAMBDA z : DoFold(P, z, 5, 1))
    [] P = "C02" -> Then(a, LAMBDA z : Then(DoFold(P, z, 5, 1), LAMBDA y : DoFold(P, y, 6, 5)))
    [] P = "C05" -> Then(a, LAMBDA z : Then(DoFold(P, z, 5, 1), LAMBDA y : DoObs(y, 5)))
    [] P = "C21" -> Then(a, LAMBDA z : Then(DoFold(P, z, 5, 1), LAMBDA y : DoDer(P, y, 6, 1, "x", "var")))
    [] P = "C07" -> Then(a, LAMBDA z : Then(DoDer(P, z, 5, 1, "x", "var"), LAMBDA y :
                       Then(DoDer(P, y, 6, 5, "x", "var"), LAMBDA w : DoDer(P, w, 6, 5, "y", "own"))))
    [] P = "C08" -> Then(a, LAMBDA z : Then(DoDer(P, z, 5, 1, "x", "var"), LAMBDA y :
                       Then(DoDer(P, y, 6, 1, "xx", "ref"), LAMBDA w : DoFold(P, w, 6, 5))))
    [] P = "C09" -> Then(Out(Pre \o a.cmds, q, TRUE), LAMBDA z : Then(DoSub(P, z, 5, 1, "x", 2, "var"), LAMBDA y :
                       Then(DoSub(P, y, 6, 1, "y", 4, "own"), LAMBDA w : DoSub(P, w, 6, 1, "x", 3, "ref"))))
    [] P = "C10" -> Then(a, LAMBDA z : DoShow(P, z, 1))
    [] P \in {"C11", "C12"} ->
         Then(a, LAMBDA z : Then(DoTaylor(P, z, 1, "x", Zero, 3, "var"), LAMBDA y :
                 Then(DoTaylor(P, y, 1, "x", One, IF Deep THEN 4 ELSE 2, "expr"), LAMBDA w :
                 Then(DoTaylor(P, w, 1, "x", VA, 2, "var"), LAMBDA v :
                 IF Wt(x) > 2 THEN Out(<<>>, v, TRUE)
                 ELSE Seqs([i \in 1..Len(TayPoints) |-> DoTaylor(P, v, 1, "x", TayPoints[i], 2, "var")], Out(<<>>, v, TRUE))))))
    [] P \in {"C13", "C15"} ->
         Then(a, LAMBDA z : Then(IF Wt(x) > 3 THEN DoLimit(P, z, 1, "x", Zero, 2, "var")
                                 ELSE Then(DoLimit(P, z, 1, "x", Zero, 1, "var"), LAMBDA v : DoLimit(P, v, 1, "x", Zero, 2, "var")), LAMBDA y :
                 IF Wt(x) > (IF Deep THEN 5 ELSE 4) THEN Out(<<>>, y, TRUE)
                 ELSE IF Wt(x) < 3 THEN AtPoints(y, OddPoints \o <<One, Rat("-1/2")>>)
                 ELSE Then(DoLimit(P, y, 1, "x", One, 1, "expr"), LAMBDA w : DoLimit(P, w, 1, "x", Rat("-1/2"), 0, "var"))))
    [] P = "C20" ->
         Then(a, LAMBDA z : Then(DoLimit(P, z, 1, "x", Zero, 1, "var"), LAMBDA y : Then(DoLimit(P, y, 1, "x", Zero, 3, "var"), LAMBDA w :
              Then(DoLimit(P, w, 1, "x", Zero, 0, "var"), LAMBDA v : Then(DoLimit(P, v, 1, "x", One, 0, "var"), LAMBDA u :
              Then(DoLimit(P, u, 1, "x", One, 1, "var"), LAMBDA t : IF Wt(x) > 2 THEN Out(<<>>, t, TRUE) ELSE AtPoints(t, OddPoints)))))))
    [] P = "C19" -> Out(<<"blk">> \o a.cmds \o <<CRpn(1, Zero), CRpn(2, <<"add", VX, VY>>), "fold 5 0", "der 6 0 x", "sub 7 0 x 2", "show 0", "obs 0", "taylor 0 x 1 1", "limit 0 x 1 1",
                         "get 0", "fold 8 0", "der 8 0 x", "sub 8 0 x 2", "show 0", "taylor 0 x 1 1", "limit 0 x 1 1", "get 2">>, q, TRUE)
    [] P = "C16" ->
         Out(a.cmds \o <<"obs 0", CRpn(1, One), CRpn(2, <<"neg", VX>>), CRpn(3, <<"mul", VX, VY>>), CRpn(4, PiNode),
                         "derx 5 0 1 own", "derx 5 0 2 ref", "derx 5 0 3 own", "derx 5 0 4 ref", "derx 5 0 0 own",
                         "subx 5 0 1 2 own", "subx 5 0 2 0 ref", "subx 5 0 3 0 own", "subx 5 0 4 1 ref", "subx 5 0 0 1 ref",
                         "taylorx 0 1 1 1", "taylorx 0 2 1 0", "taylorx 0 3 4 1", "taylorx 0 4 0 1", "limitx 0 1 1 1", "limitx 0 2 1 0", "limitx 0 3 4 1", "limitx 0 4 0 2",
                         "near 0 1 0.5", "near 1 0 0.5", "near 0 0 0.5", CRpn(5, MkInt(10000000)), CRpn(6, Real("1e-9")), CRpn(7, VX),
                         "near 0 5 0.5", "near 5 0 0.5", "near 6 0 1e-3", "near 0 6 1e9", "near 7 0 0.5", "near 0 7 0.5">>, q, TRUE)
    [] P = "C17" -> Out(Cons(x, 0) \o <<"obs 0">> \o a.cmds, q, TRUE)
    [] OTHER -> \* C18
         Then(a, LAMBDA z : Then(DoFold(P, z, 5, 1), LAMBDA y : Then(DoDer(P, y, 6, 1, "x", "var"), LAMBDA w :
              Then(DoShow(P, w, 1), LAMBDA v : Then(DoShow(P, v, 6), LAMBDA u :
                 Then(DoSub(P, u, 5, 1, "x", 4, "var"), LAMBDA t : DoTaylor(P, t, 1, "x", Zero, 1, "var")))))))

DesignOk == Len(stk) = 1 =>
  \E o \in {Final(stk[1])} : o.ok /\ PrintT("SESS|" \o "0" \o Join(o.cmds))
=============================================================================
