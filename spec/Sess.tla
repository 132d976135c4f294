--------------------------------- MODULE Sess ---------------------------------
(***************************************************************************)
(* Sampled sessions: histories of calls on a register machine.  Each step  *)
(* makes one or more calls of Ops, chosen by Rand; the state is the        *)
(* register contents of the reference design.  Invariant DesignOk: every   *)
(* result of the design satisfies the contract of property P.              *)
(* The history h is what is replayed on the real code.                     *)
(***************************************************************************)
EXTENDS Ops, IOUtils, SequencesExt

P    == IOEnv.V_PROP
Seed == SToInt(IOEnv.V_SEED)
Lo   == SToInt(IOEnv.V_LO)
Hi   == SToInt(IOEnv.V_HI)
Steps == SToInt(IOEnv.V_STEPS)
Big  == SToInt(IOEnv.V_BIG)          \* how far sizes reach: 1 quick, 2 thorough

VARIABLES s, k, r, h, ok
vars == <<s, k, r, h, ok>>

Regs0 == [i \in 1..NR |-> Zero]
Key == Hash(Hash(Seed, s), k)

\* source register and how it came about: a fresh tree, a combination, or an older result
Prof(key) ==
  CASE P \in {"C01", "C21"} -> From(<<PAll, PAll, PNum, PExact, PExact, PNum>>, key)
    [] P = "C02" -> From(<<PNum, PNum, PExact, PExactNoExp, PAll>>, key)
    [] P = "C05" -> From(<<PNum, PExact, PNum>>, key)
    [] P = "C08" -> From(<<PNames, PNames, PSmooth, PAll>>, key)
    [] P = "C09" -> From(<<PNames, PAll, PNames>>, key)
    [] P \in {"C07", "C11", "C12"} -> From(<<PSmooth, PSmooth, PAll, PSmooth, PNames, PSmooth>>, key)
    [] P = "C10" -> From(<<PAll, PExact, PNames, PNum>>, key)
    [] P \in {"C16", "C17"} -> From(<<PNames, PAll>>, key)
    [] P = "C18" -> From(<<PAll, PNum, PNames, PHuge, PExact>>, key)
    [] OTHER -> PAll
MaxSize == CASE P \in {"C07", "C08"} -> 9 + 3 * Big
             [] P \in {"C11", "C12"} -> 6 + 2 * Big
             [] OTHER -> 12 + 6 * Big
Fresh(key) == LET p == Prof(Hash(key, 31)) IN
  IF P \in {"C01", "C07", "C08", "C09", "C10", "C21"} /\ Chance(Hash(key, 39), 2)
  THEN NameSum(Pick(Hash(key, 33), 200000), 24 + Pick(Hash(key, 34), 40), Hash(key, 36)) ELSE
  IF DChance(Sizes(6, 60), Hash(key, 37), 5) /\ P \notin {"C11", "C12"}
  THEN Chain(IF P \in {"C07", "C08"} THEN [p EXCEPT !.un = <<"neg">>, !.bin = <<"add", "sub">>] ELSE p, From(Sizes(6, 60), Hash(key, 38)), Hash(key, 34))
  ELSE IF P = "C18" /\ Chance(Hash(key, 32), 15) THEN Chain(p, 10 + Pick(Hash(key, 33), 30 * Big), Hash(key, 34))
  ELSE IF P \in {"C01", "C02", "C09", "C10"} /\ Chance(Hash(key, 32), 10) THEN Chain(p, 4 + Pick(Hash(key, 33), 16), Hash(key, 34))
  ELSE IF P \in {"C16", "C17", "C09"} THEN Tree(p, 1 + Pick(Hash(key, 35), MaxSize - 1), Hash(key, 36))
  ELSE Mixed(p, MaxSize, Hash(key, 36))

AnyReg(key) == Pick(Hash(key, 40), 6)
Names(p) == p.vars
VarFor(e, key) == \* mostly a variable of e
  LET vs == SetToSeq(Vars(e)) IN
  IF Len(vs) > 0 /\ Chance(Hash(key, 41), 68) THEN From(vs, Hash(key, 42))
  ELSE IF Len(vs) > 0 /\ Chance(Hash(key, 46), 55) THEN Sib(From(vs, Hash(key, 42)), Hash(key, 47))
  ELSE From(IF Chance(Hash(key, 43), 50) THEN VarsOdd ELSE VarsStd, Hash(key, 44))
Form(key) == From(<<"var", "var", "own", "ref">>, Hash(key, 45))

\* the operand of the step ends up in register 1
Operand(key, q) ==
  IF Chance(Hash(key, 50), 72) THEN DoTree(q, 1, Fresh(Hash(key, 51)))
  ELSE IF Chance(Hash(key, 52), 40)
  THEN LET a == AnyReg(Hash(key, 53)) b == AnyReg(Hash(key, 54)) IN
       DoBin(q, 1, From(AllBin, Hash(key, 55)), a, b)
  ELSE IF Chance(Hash(key, 56), 50)
  THEN DoSub(P, q, 1, AnyReg(Hash(key, 57)), From(VarsStd, Hash(key, 58)), AnyReg(Hash(key, 59)), "var")
  ELSE LET a == AnyReg(Hash(key, 60)) IN DoUn(q, 1, From(AllUn, Hash(key, 61)), a, "val")

Dst(key) == 1 + Pick(Hash(key, 62), 5)

\* points of expansion
Points == <<VX, <<"add", VX, One>>, <<"neg", One>>, <<"add", One, One>>, Zero, One, Zero, One,
            Zero, Zero, One, One, MkInt(-1), Rat("1/2"), MkInt(2), PiNode, VA, Real("0.5"), <<"add", VA, One>>,
            Rat("-4/6"), Rat("7/5"), Rat("-8/3"), MkInt(-3), Real("-1.25"), <<"sin", VY>>, <<"mul", MkInt(2), VY>>,
            <<"sub", VA, One>>, <<"sub", VA, VY>>, <<"neg", VA>>, <<"sub", One, VA>>, <<"div", VA, MkInt(2)>>, <<"sub", <<"sub", VA, One>>, VY>>, <<"mul", VA, VA>>,
            <<"sub", VA, <<"add", VY, One>>>>, <<"neg", <<"sub", VA, One>>>>, <<"add", VA, MkInt(-2)>>, <<"sub", One, One>>, <<"div", One, MkInt(-4)>>>>
PAt == [leaf |-> <<"small", "one", "rat", "int", "var", "var">>, vars |-> <<"a", "y">>, un |-> <<"neg", "neg", "cos", "exp">>, bin |-> AllBin, pun |-> 25]
PointFor(key) == IF Chance(Hash(key, 1), 12) THEN Tree(PAt, 2 + Pick(Hash(key, 2), 4), Hash(key, 3)) ELSE From(Points, key)
\* a function analytic at 0 and 1, to make the expansion defined more often
Benign(key) ==
  LET c == LeafOf("small", VarsStd, Hash(key, 70)) IN
  From(<< <<"exp", VX>>, <<"sin", VX>>, <<"cos", VX>>, <<"ln", <<"add", VX, One>>>>,
          <<"div", One, <<"add", VX, MkInt(2)>>>>, <<"pow", <<"add", VX, MkInt(3)>>, Rat("1/2")>>,
          <<"mul", VX, <<"exp", <<"neg", VX>>>>>>, <<"mul", <<"sin", VX>>, <<"cos", VX>>>>,
          <<"exp", <<"sin", VX>>>>, <<"ln", <<"add", MkInt(2), <<"cos", VX>>>>>>,
          <<"pow", VX, MkInt(Pick(Hash(key, 71), 9))>>, <<"sub", <<"pow", VX, MkInt(3)>>, <<"mul", c, VX>>>>,
          <<"div", <<"sin", VX>>, <<"add", VX, MkInt(3)>>>>, <<"mul", VY, <<"exp", <<"mul", VY, VX>>>>>>,
          <<"pow", <<"add", VX, MkInt(2)>>, VX>>, <<"exp", <<"mul", VX, VX>>>>,
          <<"add", <<"mul", VX, VX>>, <<"sub", <<"mul", c, VX>>, VY>>>>, c, VX, VY,
          <<"pow", <<"sub", VX, c>>, MkInt(Pick(Hash(key, 72), 5))>>,
          <<"neg", <<"div", VX, <<"sub", MkInt(5), VX>>>>>>,
          <<"ln", VX>>, <<"pow", VX, VX>>, <<"exp", <<"exp", VX>>>> >>, Hash(key, 73))
\* floats stay within the range of the representation
TameReals(e) == AllNodes(e, LAMBDA n : IF IsNum(n) /\ n[2] = "real" THEN LET d == SDyad(n[3]) IN
                              SIsDef(d) /\ (SIsZero(d) \/ (SLt(SAbs(d), "1000000000000000000000000000000") /\ SLt("1/1000000000000000000000000000000", SAbs(d)))) ELSE TRUE)
RECURSIVE OrderFor(_, _, _, _)
OrderFor(e, v, n, budget) ==  \* largest order <= n whose derivatives stay within the budget
  IF n = 0 THEN 0
  ELSE LET d == DDer(e, v) IN
       IF IsHuge(d) \/ Size(d) > budget \/ ~TameReals(d) THEN 0 ELSE 1 + OrderFor(d, v, n - 1, budget)

\* functions whose derivatives stay small, for high orders
Cheap(key) ==
  LET c == MkInt(From(<<2, -1, 3, -2>>, Hash(key, 74))) IN
  From(<< <<"exp", VX>>, <<"sin", VX>>, <<"cos", VX>>, <<"exp", <<"neg", VX>>>>, <<"sin", <<"mul", c, VX>>>>, <<"exp", <<"mul", c, VX>>>>,
          <<"pow", VX, MkInt(9 + Pick(Hash(key, 75), 9))>>, <<"add", <<"pow", VX, MkInt(7 + Pick(Hash(key, 75), 9))>>, <<"mul", c, VX>>>>,
          <<"sub", <<"cos", VX>>, <<"exp", VX>>>>, <<"mul", VY, <<"exp", VX>>>>, <<"neg", <<"sin", VX>>>>, <<"add", <<"exp", VX>>, <<"sin", VX>>>>,
          <<"pow", <<"add", VX, One>>, MkInt(10 + Pick(Hash(key, 75), 9))>> >>, Hash(key, 76))
HighStep(key, q) ==
  LET src == Cheap(Hash(key, 77))
      n == OrderFor(src, "x", IF DChance(Sizes(6, 20), Hash(key, 78), 40) THEN From(Sizes(6, 20), Hash(key, 79)) ELSE 7 + Pick(Hash(key, 78), 11), 200)
      at == From(<<Zero, Zero, One, MkInt(-1), VA, PiNode>>, Hash(key, 79))
  IN Then(DoTree(q, 1, src), LAMBDA z : DoTaylor(P, z, 1, "x", at, n, From(<<"var", "expr">>, Hash(key, 89))))
TaylorStep(key, q) ==
  IF Chance(Hash(key, 64), 12) THEN HighStep(key, q) ELSE
  LET src == IF Chance(Hash(key, 80), 60)
             THEN (IF Chance(Hash(key, 81), 60) THEN Benign(Hash(key, 82))
                   ELSE LET a == Benign(Hash(key, 82)) b == Benign(Hash(key, 83)) IN
                        <<From(<<"add", "sub", "mul">>, Hash(key, 84)), a, b>>)
             ELSE Fresh(Hash(key, 85))
      odd == Chance(Hash(key, 119), 12)
      nm == From(VarsOdd, Hash(key, 120))
      src9 == IF odd THEN Ren(src, "x", nm) ELSE src
      v == IF odd THEN nm ELSE IF Chance(Hash(key, 86), 85) THEN "x" ELSE VarFor(src, key)
      n == OrderFor(src9, v, Pick(Hash(key, 87), 6 + 6 * Big) - 1, 60 + 90 * Big)
      a == DoTree(q, 1, src9)
  IN Then(a, LAMBDA z : DoTaylor(P, z, 1, v, PointFor(Hash(key, 88)), n,
                                 From(<<"var", "var", "expr">>, Hash(key, 89))))

\* ---- limits ---------------------------------------------------------------
LimPoints == <<<<"add", One, One>>, <<"neg", One>>, <<"div", One, MkInt(4)>>, <<"sub", One, One>>, <<"mul", MkInt(2), Rat("1/2")>>, MkInt(5), MkInt(-3), Rat("7/5"),
               Zero, Zero, Zero, Zero, One, MkInt(-1), MkInt(2), Zero,
               Zero, Zero, Zero, Zero, One, MkInt(-1), Rat("1/2"), MkInt(2), Rat("-3/4"), PiNode, MkVar("b"), Real("0.5"), Rat("0/3"), Rat("4/4")>>
\* points that are themselves expressions: of numbers, or of another variable
PPoint == [leaf |-> <<"small", "small", "one", "zero", "rat", "int", "var">>, vars |-> <<"b">>, un |-> <<"neg", "neg", "cos", "exp">>, bin |-> AllBin, pun |-> 25]
LimPoint(key) == IF Chance(Hash(key, 1), 14) THEN Tree(PPoint, 2 + Pick(Hash(key, 2), 4), Hash(key, 3)) ELSE From(LimPoints, key)
Off(a) == IF IsZeroLit(a) THEN VX ELSE <<"sub", VX, a>>
Vanish(a, key) ==
  LET d == Off(a)  c == MkInt(From(<<2, 3, -1, -2, 5>>, Hash(key, 90))) IN
  From(<<d, d, d, <<"sin", d>>, <<"sin", d>>, <<"sub", <<"cos", d>>, One>>, <<"sub", One, <<"cos", d>>>>, <<"mul", d, d>>,
         <<"sub", <<"mul", VX, VX>>, <<"mul", a, a>>>>, <<"sin", <<"mul", c, d>>>>, <<"mul", c, d>>,
         <<"sub", <<"sin", d>>, d>>, <<"neg", d>>, <<"mul", d, <<"cos", VX>>>>, <<"sin", <<"sin", d>>>>,
         <<"div", d, c>>, <<"mul", <<"sin", d>>, <<"sin", d>>>>, <<"sub", d, d>>,
         <<"div", d, MkInt(2000)>>, <<"mul", Rat("-1/4096"), d>>, <<"mul", MkInt(1000), d>>,
         <<"sub", <<"mul", d, <<"cos", d>>>>, <<"sin", d>>>>, <<"mul", d, <<"sin", <<"div", One, d>>>>>>,
         <<"div", d, <<"add", <<"cos", d>>, MkInt(2)>>>> >>, Hash(key, 91))
RECURSIVE Factors(_, _, _)
Factors(a, n, key) == IF n = 1 THEN Vanish(a, key)
  ELSE <<IF Chance(Hash(key, 92), 80) THEN "mul" ELSE "add", Vanish(a, key), Factors(a, n - 1, Hash(key, 93))>>
NonVanish(key) ==
  From(<<One, MkInt(2), MkInt(-3), Rat("2/3"), <<"cos", VX>>, <<"add", VX, MkInt(5)>>, <<"add", <<"sin", VX>>, MkInt(3)>>, VY,
         <<"sub", MkInt(7), <<"mul", VX, VX>>>>, PiNode, Rat("1/2000"), MkInt(-4096), <<"div", <<"cos", VX>>, MkInt(2000)>>,
         <<"add", VX, Rat("1/1000000")>>, <<"sub", MkInt(-9), VX>>, <<"div", <<"add", VX, MkInt(7)>>, <<"sub", VX, MkInt(6)>>>>, VY>>, Hash(key, 94))
\* oscillating and infinite parts
Osc(a, key) == <<From(<<"sin", "cos">>, Hash(key, 103)), <<"div", NonVanish(Hash(key, 104)), Vanish(a, Hash(key, 105))>>>>
InfPart(a, key) == <<"div", NonVanish(Hash(key, 106)), Vanish(a, Hash(key, 107))>>
SmallQuo(a, key) == <<"div", Vanish(a, Hash(key, 95)), Vanish(a, Hash(key, 96))>>
Part(a, key) == From(<<Osc(a, key), InfPart(a, key), Vanish(a, key), NonVanish(key), SmallQuo(a, key), SmallQuo(a, key)>>, Hash(key, 108))
Quo(a, key) ==
  LET n == Factors(a, Pick(Hash(key, 95), 3), Hash(key, 96))
      d == Factors(a, Pick(Hash(key, 97), 3), Hash(key, 98))
      m == IF Chance(Hash(key, 99), 30) THEN <<"mul", n, NonVanish(Hash(key, 100))>> ELSE n
  IN <<"div", m, IF Chance(Hash(key, 101), 30) THEN <<"mul", NonVanish(Hash(key, 102)), d>> ELSE d>>
RECURSIVE LimExpr(_, _, _)
LimExpr(a, key, depth) ==
  LET w == Pick(Hash(key, 110), 24)  k1 == Hash(key, 111)  k2 == Hash(key, 112) IN
  IF w <= 6 THEN Quo(a, k1)
  ELSE IF w <= 9 THEN Tree(PTrig, 2 + Pick(k1, 9), k2)
  ELSE IF w = 10 THEN Tree(PTrigP, 2 + Pick(k1, 9), k2)
  ELSE IF w = 11 THEN <<"div", NonVanish(k1), Vanish(a, k2)>>
  ELSE IF w = 12 THEN <<"sin", <<"div", NonVanish(k1), Vanish(a, k2)>>>>
  ELSE IF w = 13 THEN <<"mul", Vanish(a, k1), <<From(<<"sin", "cos">>, k2), <<"div", One, Vanish(a, Hash(key, 113))>>>>>>
  ELSE IF w = 14 THEN <<From(<<"add", "sub">>, Hash(key, 117)), <<"div", NonVanish(k1), Vanish(a, k2)>>, <<"div", NonVanish(Hash(key, 114)), Vanish(a, Hash(key, 115))>>>>
  ELSE IF w = 15 THEN <<"mul", Vanish(a, k1), <<"div", NonVanish(k2), Vanish(a, Hash(key, 116))>>>>
  ELSE IF w = 16 \/ depth = 0 THEN NonVanish(k1)
  ELSE IF w = 21 THEN <<From(<<"add", "sub", "mul", "div">>, Hash(key, 119)), Part(a, k1), Part(a, k2)>>
  ELSE IF w = 22 THEN <<From(<<"add", "sub", "mul", "div">>, Hash(key, 119)), Part(a, k1),
                        <<From(<<"add", "sub", "mul", "div">>, Hash(key, 113)), Part(a, k2), Part(a, Hash(key, 114))>>>>
  ELSE IF w = 23 THEN <<"div", Part(a, k1), From(<<Rat("1/2000"), MkInt(2000), NonVanish(k2), MkInt(-7), Rat("1/1000000")>>, Hash(key, 115))>>
  ELSE IF w = 24 THEN  \* terms whose coefficients differ, but not in their first decimals
       LET c == Near(k1)  y == InfPart(a, k2)  z == IF Chance(Hash(key, 113), 70) THEN y ELSE InfPart(a, Hash(key, 114)) IN
       <<From(<<"sub", "add", "sub", "div">>, Hash(key, 115)), <<"mul", Real(c[1]), y>>, <<"mul", Real(c[2]), z>>>>
  ELSE IF w = 17 THEN <<From(<<"neg", "sin", "cos", "sin", "cos", "exp", "ln">>, k1), LimExpr(a, k2, depth - 1)>>
  ELSE <<From(<<"add", "sub", "mul", "div">>, k1), LimExpr(a, k2, depth - 1), LimExpr(a, Hash(key, 118), depth - 1)>>
\* large allowances, only where two differentiations are enough (the design's cost is exponential in those it uses)
HighOrder(key) == IF DChance(Sizes(6, 40), Hash(key, 1), 50) THEN From(Sizes(6, 40), Hash(key, 2)) ELSE 6 + Pick(Hash(key, 3), 20)
LimitStep(key, q) ==
  LET a == LimPoint(Hash(key, 120))
      e0 == IF Chance(Hash(key, 121), 4) THEN Tree(PSmooth, 2 + Pick(Hash(key, 122), 6), Hash(key, 123))
            ELSE LimExpr(a, Hash(key, 124), 2)
      e == IF Size(e0) > 26 THEN Quo(a, Hash(key, 125)) ELSE e0
      odd == Chance(Hash(key, 129), 12)
      nm == From(VarsOdd, Hash(key, 119))
      e9 == IF odd THEN Ren(e, "x", nm) ELSE e
      v == IF odd THEN nm ELSE IF Chance(Hash(key, 126), 94) THEN "x" ELSE "y"
      n0 == From(<<0, 1, 1, 2, 2, 3, 4, 5>>, Hash(key, 127))
      n == IF Chance(Hash(key, 130), 12) /\ ~LStop(DLimit(e9, v, a, 2)) THEN HighOrder(Hash(key, 131)) ELSE n0
  IN Then(DoTree(q, 1, e9),
          LAMBDA z : DoLimit(P, z, 1, v, a, n, From(<<"var", "var", "var", "expr">>, Hash(key, 128))))

\* two or three allowances of differentiations for the same limit (C20)
LimitTwice(key, q) ==
  LET a == LimPoint(Hash(key, 120))
      e0 == LimExpr(a, Hash(key, 124), 2)
      e == IF Size(e0) > 22 THEN Quo(a, Hash(key, 125)) ELSE e0
      n == From(<<0, 0, 1, 1, 2>>, Hash(key, 127))
      an == DLimit(e, "x", a, n)
      m == IF ~LStop(an) /\ Chance(Hash(key, 130), 30) THEN HighOrder(Hash(key, 131)) ELSE n + From(<<1, 1, 2>>, Hash(key, 126))
      am == DLimit(e, "x", a, m)
      one == Then(DoTree(q, 1, e), LAMBDA z : Then(DoLimit(P, z, 1, "x", a, IF Chance(Hash(key, 128), 50) THEN n ELSE m, "var"),
                  LAMBDA y : DoLimit(P, y, 1, "x", a, IF Chance(Hash(key, 128), 50) THEN m ELSE n, "var")))
  IN [one EXCEPT !.ok = @ /\ (LStop(an) \/ am[1] = "huge" \/ SameAnswer(an, am))]

\* ---- purity (C19): blocks of calls; neighbouring blocks work on look-alike operands ----------
RECURSIVE PickSeq(_, _, _)
PickSeq(c, n, key) == IF n = 0 THEN <<>> ELSE From(c, key) \o PickSeq(c, n - 1, Hash(key, 1))
PureBlock(key, q) ==
  LET g == Hash(Hash(Seed, s), 7000 + k \div 2)     \* shared by the two blocks of a pair
      p == From(<<PNames, PAll, PSmooth, PNum, PExact, PTrig>>, Hash(g, 1))
      t0 == Tree(p, 2 + Pick(Hash(g, 2), 9), Hash(g, 3))
      c == Near(Hash(g, 4))
      x == LET vs == SetToSeq(Vars(t0)) IN IF Len(vs) = 0 THEN "x" ELSE From(vs, Hash(g, 5))
      x2 == Sib(x, Hash(g, 6))
      w == Pick(Hash(g, 7), 10)
      first == k % 2 = 0
      t == IF w <= 4 THEN LET u == PutReal(<<From(<<"mul", "add", "pow">>, Hash(g, 8)), t0, Real("0.5")>>, Real(c[IF first THEN 1 ELSE 2])) IN
                          IF Chance(Hash(g, 9), 40) THEN <<From(<<"sin", "exp", "neg", "ln">>, Hash(g, 10)), u>> ELSE u
           ELSE IF w <= 6 THEN (IF first THEN t0 ELSE Mut(t0, Hash(g, 11)))
           ELSE IF w <= 8 THEN (IF first THEN t0 ELSE Ren(t0, x, x2))
           ELSE t0
      v == IF w \in {7, 8} /\ ~first THEN x2 ELSE x
      r2 == IF first THEN MkVar("y") ELSE <<"add", MkVar(x), One>>
      n == OrderFor(t, v, 2, 60)
      small == Size(t) <= 12 /\ ~IsHuge(DDer(t, v))
      menu == <<<<"fold 5 0">>, <<"der 6 0 " \o v>>, <<"der 5 0 " \o v, "fold 5 5">>, <<"sub 7 0 " \o v \o " 1">>, <<"show 0">>, <<"obs 0">>,
                <<"get 0">>, <<"get 1">>, <<"der 6 0 " \o v, "show 6">>, <<"sub 7 0 " \o v \o " 2", "fold 7 7">>, <<"var 8 " \o v \o " expr", "derx 6 0 8 own">>,
                <<"var 8 " \o v \o " expr", "subx 7 0 8 1 ref">>, <<"near 3 4 0.0002">>>>
              \o (IF small THEN <<<<"taylor 0 " \o v \o " 2 " \o S(n)>>, <<"limit 0 " \o v \o " 2 0">>, <<"limit 0 " \o v \o " 1 0">>>> ELSE <<>>)
      \* a function with many cheap derivatives, or a quotient that vanishes above and below: several orders of each
      lim == Chance(Hash(g, 17), 50)
      hi == IF lim THEN Quo(Zero, Hash(g, 18)) ELSE Cheap(Hash(g, 18))
      top == IF lim THEN 3 ELSE OrderFor(hi, "x", 9, 120)
      ord(i) == S(Pick(Hash(g, 20 + i), top + 1) - 1)
      extra == IF lim THEN (IF Size(hi) > 14 THEN <<>> ELSE [i \in 1..4 |-> <<"limit 9 x 2 " \o ord(i)>>])
               ELSE [i \in 1..4 |-> <<"taylor 9 x " \o From(<<"2 ", "2 ", "4 ">>, Hash(g, 30 + i)) \o ord(i)>>]
      calls == PickSeq(menu \o extra, 5 + Pick(Hash(g, 12), 6), Hash(g, 13))
  IN Out(<<"blk", CRpn(0, t), CRpn(1, r2), CRpn(2, IF Chance(Hash(g, 14), 60) THEN Zero ELSE One), CRpn(3, Real(c[1])), CRpn(4, Real(c[2])), CRpn(9, hi)>>
         \o calls \o <<"get 0">> \o (IF Chance(Hash(g, 15), 50) THEN calls ELSE <<>>), q, TRUE)

\* literals of every primitive type
NumLits == << <<"i8", "-128">>, <<"i8", "127">>, <<"u8", "255">>, <<"u8", "0">>, <<"i16", "-32768">>, <<"u16", "65535">>,
              <<"i32", "-2147483648">>, <<"i32", "2147483647">>, <<"u32", "4294967295">>, <<"i64", I64Max>>, <<"i64", I64Min>>,
              <<"i64", "0">>, <<"i64", "1">>, <<"u64", "1">>, <<"u64", U64Max>>, <<"u64", "9223372036854775808">>,
              <<"f64", "0.5">>, <<"f64", "0">>, <<"f64", "1">>, <<"f32", "0.1">>, <<"f32", "-2.5">>, <<"f64", "-0.0">>,
              <<"i64", "-7">>, <<"i32", "12">>, <<"f64", "1e300">>, <<"u64", "7">>,
              <<"f64", "inf">>, <<"f64", "-inf">>, <<"f64", "nan">>, <<"f32", "1e30">>, <<"f64", "5e-324">>, <<"f64", "3.141592653589793">> >>

\* ---- calls with targets that are not variables ------------------------------------
NonVar(key) ==
  From(<<Zero, One, PiNode, ENode, Rat("1/2"), Real("1.5"), <<"neg", VX>>, <<"sin", VX>>, <<"cos", VX>>, <<"exp", VX>>, <<"ln", VX>>,
         <<"add", VX, One>>, <<"sub", VX, VY>>, <<"mul", VX, VX>>, <<"div", VX, VY>>, <<"pow", VX, One>>, MkInt(3),
         <<"add", VX, Zero>>, <<"mul", One, VX>>, <<"neg", <<"neg", VX>>>> >>, Hash(key, 130))
NearNums == <<Zero, One, MkInt(10000000), IntS("-9007199254740993"), Rat("1/3"), Rat("-4/2"), Real("1e12"), Real("-1e-12"), Real("0.5"), PiNode, ENode, Real("1e300"), MkInt(-1), MkInt(7)>>
BadStep(key, q) ==
  LET w == Pick(Hash(key, 131), 8)
      l == From(NumLits, Hash(key, 136))
      t == IF Chance(Hash(key, 135), 15) THEN DoNum(q, 9, l[1], l[2])
           ELSE DoTree(q, 9, IF Chance(Hash(key, 132), 70) THEN NonVar(key) ELSE Fresh(Hash(key, 133)))
      f == From(<<"own", "ref">>, Hash(key, 134))
      keep(c) == Out(c, t.r, TRUE)
      \* a fresh tree may be a variable by chance: then the design's own result applies
  IN IF IsVar(t.r[9])
     THEN Then(t, LAMBDA z : DoDer(P, z, Dst(key), 1, t.r[9][2], "var"))
     ELSE [cmds |-> t.cmds \o
            (CASE w \in {1, 2} -> <<"derx " \o R(Dst(key)) \o " 0 8 " \o f>>
               [] w \in {3, 4} -> <<"subx " \o R(Dst(key)) \o " 0 8 " \o R(AnyReg(key)) \o " " \o f>>
               [] w = 5 -> <<"taylorx 0 8 " \o R(AnyReg(key)) \o " " \o S(Pick(key, 3) - 1)>>
               [] w = 6 -> <<"obs 8">>
               [] w = 8 -> <<"limitx 0 8 " \o R(AnyReg(key)) \o " " \o S(Pick(key, 3) - 1)>>
               [] OTHER -> LET m == From(NearNums, Hash(key, 137))  eps == From(<<"0.25", "0.25", "1e-9", "1e9", "0", "-1.0">>, Hash(key, 138)) IN
                           <<CRpn(5, m), CRpn(6, IF Chance(Hash(key, 139), 50) THEN MkVar(From(<<"x", "y", "pi", "1", "e">>, Hash(key, 136))) ELSE NonVar(Hash(key, 136))),
                             "near 0 8 0.25", "near 5 8 " \o eps, "near 8 5 " \o eps, "near 5 6 " \o eps, "near 6 5 " \o eps>>),
           r |-> t.r, ok |-> TRUE]

\* ---- constructors -------------------------------------------------------------------
ConsStep(key, q) ==
  LET w == Pick(Hash(key, 140), 15)  d == Dst(key)  a == AnyReg(Hash(key, 141))  b == AnyReg(Hash(key, 142))
      f == Hash(key, 143) IN
  CASE w <= 3 -> DoUn(q, d, From(AllUn, f), a, From(<<"ref", "val", "fn">>, Hash(f, 1)))
    [] w <= 6 -> DoBin(q, d, From(AllBin, f), a, b)
    [] w = 7 -> DoPowi(q, d, a, From(<<"0", "1", "-1", "2", "3", "7", "-4", I64Max>>, f))
    [] w = 8 -> DoVar(q, d, From(VarsOdd, f), From(<<"expr", "var", "operand">>, Hash(f, 1)))
    [] w = 9 -> DoConst(q, d, From(<<"pi", "e", "one", "zero">>, f))
    [] w = 10 -> LET l == From(NumLits, f) IN DoNum(q, d, l[1], l[2])
    [] w = 11 -> DoRat(q, d, From(<<"1", "-1", "1", "0", "2", "-2">>, f), From(<<"0", "1", "2", "3", "6", U64Max>>, Hash(f, 1)),
                       From(<<"1", "2", "3", "0", "6", "4", U64Max>>, Hash(f, 2)))
    [] w = 12 -> LET l == From(<< <<"i64", "3">>, <<"i64", "0">>, <<"i64", "-1">>, <<"f64", "1.5">>, <<"f64", "0.0">>, <<"u32", "1">>,
                                  <<"u32", "4294967295">>, <<"var", "x">>, <<"var", "xx">> >>, f) IN
                 DoUnl(q, d, From(<<"sin", "cos">>, Hash(f, 1)), l[1], l[2])
    [] w = 13 -> LET l == From(<< <<"f64", "0.5">>, <<"f64", "-2">>, <<"u64", "0">>, <<"u64", "1">>, <<"u64", U64Max>>, <<"var", "y">> >>, f) IN
                 DoPowf(q, d, a, l[1], l[2])
    [] w = 14 -> DoOpeq(q, a, b)
    [] OTHER -> DoTree(q, d, Fresh(f))

\* deep nesting: a chain far deeper than anything else, one call on it
PDeep == [PAll EXCEPT !.leaf = <<"var", "small", "one", "pi">>, !.un = <<"neg", "sin", "ln", "exp">>, !.pun = 12, !.bin = <<"add", "sub", "mul", "div", "pow">>]
PDeepLin == [PDeep EXCEPT !.un = <<"neg">>, !.bin = <<"add", "sub">>]
PDeepLim == [PTrig EXCEPT !.leaf = <<"var", "small", "one", "rat">>, !.un = <<"neg", "sin", "cos">>, !.bin = <<"add", "sub", "add", "sub", "mul">>, !.pun = 25]
DeepStep(key, q) ==
  LET w == Pick(Hash(key, 160), 5)
      n == IF DChance(Sizes(20, 450), Hash(key, 161), 40) THEN From(Sizes(20, 450), Hash(key, 163)) + Pick(Hash(key, 164), 5) ELSE 60 + Pick(Hash(key, 161), 340)
      e == IF w = 2 THEN Chain(PDeepLin, n, Hash(key, 162)) ELSE Chain(PDeep, n, Hash(key, 162))
      t == DoTree(q, 7, e)
      wt == DoTree(q, 7, Tower(AllUn, AllBin, 26 + Pick(Hash(key, 167), 34), Hash(key, 168)))
      lt == DoTree(q, 7, Tower(PDeepLim.un, <<"add", "sub", "mul", "div">>, 26 + Pick(Hash(key, 167), 24), Hash(key, 168)))
  IN IF P \in {"C18", "C01", "C02", "C09", "C10", "C21"} /\ Chance(Hash(key, 166), 45)
     THEN Out(wt.cmds \o (CASE P \in {"C01", "C02"} -> <<"fold 7 6">> [] P = "C21" -> <<"fold 7 6", "der 7 6 x">> [] P = "C09" -> <<"sub 7 6 x 2">> [] P = "C10" -> <<"show 6">>
                             [] w = 1 -> <<"fold 7 6">> [] w \in {2, 3} -> <<"der 7 6 x">> [] w = 4 -> <<"show 6", "sub 7 6 x 2">>
                             [] OTHER -> <<CRpn(7, One), "taylor 6 x 7 1">>), q, TRUE)
     ELSE IF P \in {"C13", "C15", "C20"} /\ Chance(Hash(key, 166), 45)
     THEN Out(lt.cmds \o <<CRpn(7, From(<<Zero, One, Rat("1/2")>>, Hash(key, 165))), "limit 6 x 7 0">>
              \o (IF P = "C20" THEN <<"limit 6 x 7 1">> ELSE <<>>), q, TRUE)
     ELSE IF P = "C09" THEN Out(t.cmds \o <<"sub 7 6 x 2">>, q, TRUE)
     ELSE IF P = "C10" THEN Out(t.cmds \o <<"show 6">>, q, TRUE)
     ELSE IF P \in {"C01", "C02", "C21"} THEN Out(t.cmds \o <<"fold 7 6">>, q, TRUE)
     ELSE IF P \in {"C07", "C08"} THEN Out(DoTree(q, 7, Chain(PDeepLin, n, Hash(key, 162))).cmds \o <<"der 7 6 " \o From(<<"x", "x", "y", "q">>, Hash(key, 165))>>, q, TRUE)
     ELSE IF P \in {"C13", "C15", "C20"}
     THEN Out(DoTree(q, 7, Chain(PDeepLim, 20 + Pick(Hash(key, 161), 60), Hash(key, 162))).cmds \o <<CRpn(7, From(<<Zero, One, Rat("1/2")>>, Hash(key, 165))), "limit 6 x 7 0">>
              \o (IF P = "C20" THEN <<"limit 6 x 7 1">> ELSE <<>>), q, TRUE)
     ELSE IF P \in {"C11", "C12"} THEN Out(DoTree(q, 7, Chain(PDeepLin, 20 + n \div 4, Hash(key, 162))).cmds \o <<CRpn(7, From(<<Zero, One, VA>>, Hash(key, 165))), "taylor 6 x 7 2">>, q, TRUE)
     ELSE Out(t.cmds \o (CASE w = 1 -> <<"fold 7 6">> [] w = 2 -> <<"der 7 6 x", "show 7">> [] w = 3 -> <<"sub 7 6 x 2">>
                            [] w = 4 -> <<"show 6">> [] OTHER -> <<"fold 7 6", "show 7", "fold 7 7">>), q, TRUE)
FoldStep(key, q) ==
  LET d == Dst(key) IN
  IF P = "C02" \/ Chance(Hash(key, 150), 15)
  THEN Then(DoFold(P, q, d, 1), LAMBDA z : DoFold(P, z, 6, d))
  ELSE DoFold(P, q, d, 1)
DerStep(key, q) ==
  LET d == Dst(key)  v == VarFor(q[1], Hash(key, 151))
      one == DoDer(P, q, d, 1, v, Form(key)) IN
  IF Len(one.cmds) > 0 /\ Chance(Hash(key, 152), 25) /\ Size(one.r[d]) < 50
  THEN Then(one, LAMBDA z : DoDer(P, z, 6, d, VarFor(z[d], Hash(key, 153)), "var")) ELSE one
SubStep(key, q) ==
  LET w == Dst(Hash(key, 154))
      t == IF Chance(Hash(key, 155), 50) THEN DoTree(q, w, Tree(Prof(key), Pick(Hash(key, 156), 6), Hash(key, 157)))
           ELSE Out(<<>>, q, TRUE)
  IN Then(t, LAMBDA z : DoSub(P, z, Dst(Hash(key, 158)), 1, VarFor(z[1], Hash(key, 159)), w, Form(key)))

\* all pairs of many names
NameKind == CASE P \in {"C07", "C08"} -> "der" [] P = "C09" -> "sub" [] P = "C10" -> "show" [] P \in {"C01", "C02"} -> "fold"
              [] P \in {"C13", "C15"} -> "limit" [] P \in {"C11", "C12"} -> "taylor" [] OTHER -> ""
NamesStep(key, q) == Out(<<"names " \o NameKind \o " " \o Spaced(ManyNames(IF NameKind = "taylor" THEN 200 ELSE 400 * Big, key))>>, q, TRUE)

Step(key, q) ==
  LET w == Pick(Hash(key, 1), 100) IN
  IF k = 0 /\ s % 97 = 5 /\ NameKind # "" THEN NamesStep(key, q) ELSE
  IF P \in {"C01", "C02", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C18", "C20", "C21"} /\ Pick(Hash(key, 2), 1000) <= (IF P = "C18" THEN 40 ELSE 8) THEN DeepStep(key, q) ELSE
  CASE P = "C21" -> Then(Operand(key, q), LAMBDA z : IF w <= 70 THEN FoldStep(key, z) ELSE DerStep(key, z))
    [] P = "C01" -> Then(Operand(key, q), LAMBDA z : IF w <= 80 THEN FoldStep(key, z) ELSE IF w <= 90 THEN DerStep(key, z) ELSE SubStep(key, z))
    [] P = "C02" -> Then(Operand(key, q), LAMBDA z : IF w <= 85 THEN FoldStep(key, z)
                         ELSE Then(DerStep(key, z), LAMBDA y : DoFold(P, y, 5, Dst(key))))
    [] P = "C05" -> Then(Operand(key, q), LAMBDA z : IF w <= 70 THEN FoldStep(key, z) ELSE IF w <= 85 THEN DerStep(key, z) ELSE DoObs(z, AnyReg(key)))
    [] P \in {"C07", "C08"} -> Then(Operand(key, q), LAMBDA z : IF w <= 92 THEN DerStep(key, z) ELSE FoldStep(key, z))
    [] P = "C09" -> Then(Operand(key, q), LAMBDA z : SubStep(key, z))
    [] P = "C10" -> Then(Operand(key, q), LAMBDA z : IF w <= 60 THEN DoShow(P, z, 1)
                         ELSE IF w <= 80 THEN Then(FoldStep(key, z), LAMBDA y : DoShow(P, y, Dst(key)))
                         ELSE Then(DerStep(key, z), LAMBDA y : DoShow(P, y, Dst(key))))
    [] P \in {"C11", "C12"} -> TaylorStep(key, q)
    [] P \in {"C13", "C15"} -> LimitStep(key, q)
    [] P = "C20" -> LimitTwice(key, q)
    [] P = "C19" -> PureBlock(key, q)
    [] P = "C16" -> IF w <= 25 THEN Operand(key, q) ELSE BadStep(key, q)
    [] P = "C17" -> IF w <= 80 THEN ConsStep(key, q) ELSE DoObs(q, AnyReg(key))
    [] OTHER -> Then(Operand(key, q), LAMBDA z :
         IF w <= 30 THEN FoldStep(key, z) ELSE IF w <= 55 THEN DerStep(key, z)
         ELSE IF w <= 68 THEN SubStep(key, z) ELSE IF w <= 84 THEN DoShow(P, z, 1)
         ELSE LET n == OrderFor(z[1], "x", 3, 120) IN
              IF w <= 92 THEN DoTaylor(P, z, 1, "x", From(Points, Hash(key, 88)), n, "var") ELSE ConsStep(key, z))

Init == /\ s \in Lo..Hi /\ k = 0 /\ r = Regs0 /\ h = <<>> /\ ok = TRUE
Next == /\ k < Steps
        /\ \E o \in {Step(Key, r)} :
             /\ r' = o.r /\ h' = h \o o.cmds /\ ok' = o.ok
             /\ (k + 1 = Steps => PrintT("SESS|" \o S(s) \o Join(h')))
        /\ k' = k + 1 /\ s' = s
Spec == Init /\ [][Next]_vars
DesignOk == ok
=============================================================================
