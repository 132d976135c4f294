------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* The properties, as contracts between the operands and the result of one *)
(* call.  They are stated over values and observable shape only, never     *)
(* over how the library computes.  The same operators judge                *)
(*   - the reference design, over every state TLC enumerates (Calc.tla),   *)
(*   - the recorded behaviour of the real code (Trace.tla).                *)
(***************************************************************************)
EXTENDS Design, Show, Germ

Envs == 1..6

-----------------------------------------------------------------------------
(* numbers *)

ExactVal(a) == SStr(a[3])
Denotes(a)  == IF a[2] = "real" THEN ~SIsUndef(SDyad(a[3])) ELSE SRawD(a[3]) # "0"
SignOk(a)   == IF a[2] = "rat" THEN SRawSign(a[3]) # 0 ELSE TRUE
\* the marks a number reports are truthful (C05)
PiDyad == SDyad("3.141592653589793")
EDyad  == SDyad("2.718281828459045")
TagOk(a) ==
  IF ~Denotes(a) THEN TRUE
  ELSE /\ (a[4] = "zero") <=> (a[2] # "real" /\ ExactVal(a) = "0")
       /\ (a[4] = "one")  <=> (a[2] # "real" /\ ExactVal(a) = "1")
       /\ a[4] = "pi" => a[2] = "real" /\ SDyad(a[3]) = PiDyad
       /\ a[4] = "e"  => a[2] = "real" /\ SDyad(a[3]) = EDyad
       /\ a[4] \in {"zero", "one", "pi", "e", "none"}

SameNum(a, b) == /\ (a[2] = "real") = (b[2] = "real")
                 /\ IF a[2] = "real" THEN SDyad(a[3]) = SDyad(b[3]) ELSE ExactVal(a) = ExactVal(b)
                 /\ a[4] = b[4]

\* structural equality up to the representation of exact numbers
RECURSIVE Same(_, _)
Same(a, b) ==
  IF a[1] # b[1] THEN FALSE
  ELSE IF IsNum(a) THEN SameNum(a, b)
  ELSE IF IsVar(a) THEN a[2] = b[2]
  ELSE IF IsUn(a) THEN Same(a[2], b[2])
  ELSE Same(a[2], b[2]) /\ Same(a[3], b[3])

LeafOk(n) == IF IsNum(n) THEN (n[2] = "real" \/ (SRawD(n[3]) # "0" /\ SRawSign(n[3]) # 0)) ELSE TRUE
\* a result is a well-formed expression: shape, arity, valid rationals
ShapeOk(e) == WellFormed(e) /\ AllNodes(e, LeafOk)
TagsOk(e)  == AllNodes(e, LAMBDA n : IF IsNum(n) THEN TagOk(n) ELSE TRUE)

\* two numbers: result value of an operation (C03)
OpValueOk(o, a, b, r) ==
  IF o = "div" /\ b[2] # "real" /\ ExactVal(b) = "0" THEN TRUE
  ELSE IF ~Denotes(a) \/ ~Denotes(b) THEN TRUE
  ELSE IF a[2] # "real" /\ (o = "neg" \/ b[2] # "real")
  THEN /\ r[2] # "real" /\ SRawD(r[3]) # "0"
       /\ ExactVal(r) = (IF o = "neg" THEN SNeg(ExactVal(a)) ELSE SOp(o, ExactVal(a), ExactVal(b)))
       /\ (a[2] = "int" /\ o = "neg") => r[2] = "int"
       /\ (a[2] = "int" /\ b[2] = "int" /\ o \in {"add", "sub", "mul"}) => r[2] = "int"
  ELSE LET v == IF o = "neg" THEN SNeg(LitVal(a)) ELSE SOp(o, LitVal(a), LitVal(b)) IN
       SIsDef(v) => ~SIsUndef(LitVal(r)) /\ ~SDiffer(v, LitVal(r))
OpMayRefuse(o, a, b) ==
  IF ~Denotes(a) \/ (o # "neg" /\ ~Denotes(b)) THEN TRUE
  ELSE IF o = "neg" THEN a[2] # "real" /\ ~Safe(RawN(a))
  ELSE IF a[2] = "real" \/ b[2] = "real" THEN FALSE
  ELSE ~NaiveSafe(o, a, b)
\* pi and e survive neutral elements and nothing else (C05)
IsC(a) == a[4] \in {"pi", "e"}
OpConstOk(o, a, b, r) ==
  LET keep == IF o = "add" /\ IsC(a) /\ IsZeroLit(b) THEN a[4]
              ELSE IF o = "add" /\ IsC(b) /\ IsZeroLit(a) THEN b[4]
              ELSE IF o = "sub" /\ IsC(a) /\ IsZeroLit(b) THEN a[4]
              ELSE IF o = "mul" /\ IsC(a) /\ IsOneLit(b) THEN a[4]
              ELSE IF o = "mul" /\ IsC(b) /\ IsOneLit(a) THEN b[4] ELSE "none"
      real == a[2] = "real" \/ (o # "neg" /\ b[2] = "real")
  IN /\ IF keep = "none" THEN r[4] \notin {"pi", "e"} ELSE r[4] = keep
     \* what floats yield is not known exactly: it is exactly zero only by an exact zero, and never exactly one
     /\ (real /\ Denotes(a) /\ (o = "neg" \/ Denotes(b))) =>
          /\ r[4] # "one"
          /\ r[4] = "zero" => (o \in {"mul", "div"} /\ IsZeroLit(a)) \/ (o = "mul" /\ IsZeroLit(b))

\* rationals (C04): values as written by the harness, e.g. "-4/6"
RatValid(q) == SRawD(q) # "0" /\ SRawSign(q) # 0
Lowest(q) == LET v == SStr(q) IN SAbs(SNum(v)) = SRawN(q) /\ SDen(v) = SRawD(q)
RatOpOk(o, a, b, r) ==
  IF ~RatValid(a) \/ (o \in {"add", "sub", "mul", "div"} /\ ~RatValid(b)) THEN TRUE
  ELSE IF o = "div" /\ SStr(b) = "0" THEN TRUE
  ELSE /\ RatValid(r)
       /\ SStr(r) = (IF o = "neg" THEN SNeg(SStr(a)) ELSE IF o = "reduce" THEN SStr(a)
                     ELSE SOp(o, SStr(a), SStr(b)))
       /\ o # "neg" => Lowest(r)
RatMayRefuse(o, a, b) ==
  IF o \in {"neg", "reduce"} THEN FALSE
  ELSE IF ~RatValid(a) \/ ~RatValid(b) THEN TRUE
  ELSE ~NaiveSafe(o, <<"num", "rat", a, "none">>, <<"num", "rat", b, "none">>)

\* the float f is the value v up to two roundings
TwoUlp == "1/1125899906842624"
CloseF(f, v) == LET d == SDyad(f) IN
  ~SIsUndef(d) /\ (d = v \/ ~SLt(SMul(SAbs(v), TwoUlp), SAbs(SSub(d, v))))
FloatViewOk(f, a) ==
  IF ~Denotes(a) THEN TRUE
  ELSE IF a[2] = "real" THEN SDyad(f) = SDyad(a[3]) ELSE CloseF(f, ExactVal(a))

DyadVal(a) == IF a[2] = "real" THEN SDyad(a[3]) ELSE ExactVal(a)
NonFinite(a) == a[2] = "real" /\ ~Denotes(a)
CloseOk(a, b, eps, ans) ==
  IF NonFinite(a) \/ NonFinite(b) THEN ~ans      \* infinite or not a number: close to nothing
  ELSE IF ~Denotes(a) \/ ~Denotes(b) THEN TRUE
  ELSE LET va == DyadVal(a)  vb == DyadVal(b)
           d == SAbs(SSub(va, vb))
           \* no rounding when the difference is a short multiple of 2^-20
           short(v) == SIsInt(SMul(v, "1048576")) /\ SLt(SAbs(v), "4294967296")
           s == IF short(va) /\ short(vb) THEN "0" ELSE SMul(SAdd(SAbs(va), SAbs(vb)), "1/281474976710656")
           e == SDyad(eps)
       IN IF SLt(d, SSub(e, s)) THEN ans ELSE IF SLt(SAdd(e, s), d) \/ (s = "0" /\ d = e) THEN ~ans ELSE TRUE

-----------------------------------------------------------------------------
(* folding *)

\* C01
FoldValueOk(e, f) == \A i \in Envs : Agrees(Eval(e, i), Eval(f, i))
\* C02: nothing foldable left in any node
NodeFolded(n) ==
  LET o == n[1] IN
  IF o \in {"num", "var"} THEN TRUE
  ELSE IF o = "neg" THEN ~IsNum(n[2]) /\ Op(n[2]) # "neg"
  ELSE IF o = "sin" \/ o = "cos" THEN ~IsZeroLit(n[2]) /\ ~IsPiLit(n[2])
  ELSE IF o = "exp" THEN ~IsZeroLit(n[2]) /\ ~IsOneLit(n[2]) /\ Op(n[2]) # "ln"
  ELSE IF o = "ln"  THEN ~IsOneLit(n[2]) /\ ~IsELit(n[2]) /\ Op(n[2]) # "exp"
  ELSE IF o = "pow" THEN ~IsZeroLit(n[3]) /\ ~IsOneLit(n[3]) /\ ~IsOneLit(n[2])
  ELSE IF o = "div" THEN IsZeroLit(n[3]) \/ (~(IsNum(n[2]) /\ IsNum(n[3])) /\ ~IsZeroLit(n[2]))
  ELSE /\ ~(IsNum(n[2]) /\ IsNum(n[3]))
       /\ ~IsZeroLit(n[2]) /\ ~IsZeroLit(n[3])
       /\ o = "mul" => ~IsOneLit(n[2]) /\ ~IsOneLit(n[3])
FoldComplete(f) == AllNodes(f, NodeFolded)
\* only integers and rationals in, no exp: no reals out
AllExact(e) == AllNodes(e, LAMBDA n : IF IsNum(n) THEN n[2] # "real" ELSE TRUE)
NoExp(e) == CountOps(e, {"exp"}) = 0
FoldExactOk(e, f) == AllExact(e) /\ NoExp(e) => AllExact(f)
\* an exact zero divisor never becomes a number
FoldDivOk(e, f) == IsNum(f) /\ ~IsNum(e) => Denotes(f) \/ f[2] = "real"

\* C21: folding never grows an expression
CountVar(e, x) == LET q == Nodes(e) IN Cardinality({i \in 1..Len(q) : IsVar(q[i]) /\ q[i][2] = x})
OpsOf(e) == LET q == Nodes(e) IN {q[i][1] : i \in 1..Len(q)} \ {"num", "var"}
FoldSizeOk(e, f) ==
  /\ Size(f) <= Size(e) /\ Depth(f) <= Depth(e)
  /\ OpsOf(f) \subseteq OpsOf(e) \cup (IF "sub" \in OpsOf(e) THEN {"neg"} ELSE {})
  /\ \A x \in Vars(f) : CountVar(f, x) <= CountVar(e, x)
\* and a derivative grows moderately
DerSizeOk(e, d) == Size(d) <= 12 * Size(e) * Depth(e)

-----------------------------------------------------------------------------
(* derivatives *)

\* C07
DerValueOk(e, x, d) ==
  /\ AllExact(e) /\ NoExp(e) => AllExact(d)     \* exact input, exact derivative
  /\ \A i \in Envs : LET v == Dual(e, i, x) IN
    SIsDef(v[1]) /\ SIsDef(v[2]) => ~SIsUndef(Eval(d, i)) /\ ~SDiffer(v[2], Eval(d, i))
\* C08
SomewhereDef(e) == \E i \in Envs : SIsDef(Eval(e, i))
DerShapeOk(e, x, d) ==
  /\ Vars(d) \subseteq Vars(e)
  /\ IsVarNamed(e, x) => IsOneLit(d)
  /\ ~Occurs(x, e) /\ SomewhereDef(e) => IsZeroLit(d)
  /\ FoldComplete(d)

-----------------------------------------------------------------------------
(* substitution, C09 *)
SubOk(e, x, v, r) == Same(DSub(e, x, v), r)
SubValueOk(e, x, v, r) ==
  \A i \in Envs : LET w == Eval(v, i) IN
    SIsDef(w) => Agrees(EvalB(e, i, <<x, w>>), Eval(r, i))

-----------------------------------------------------------------------------
(* printing, C10 *)
Printable(e) == (\A x \in Vars(e) : NameOk(x)) /\ FiniteReals(e) /\ AllNodes(e, LeafOk)
ReadsAs(chars, e) ==   \* e already rounded
  LET p == Read(chars) IN p # NoTree /\ \A i \in Envs : Agrees(Eval(e, i), Eval(p, i))
ShowOk(e, chars) == Printable(e) => ReadsAs(chars, Rounded(e))

-----------------------------------------------------------------------------
(* Taylor expansion *)
\* C11
TaylorCoefOk(e, x, at, order, coef) ==
  /\ AllExact(e) /\ NoExp(e) /\ AllExact(at) /\ NoExp(at) => \A k \in 1..Len(coef) : AllExact(coef[k])
  /\ \A i \in Envs :
    LET a == Eval(at, i) IN
    SIsDef(a) =>
      LET s == Series(e, i, x, a, order) IN
      SeriesDef(s) =>
        /\ Len(coef) >= order + 1
        /\ \A k \in 1..(order + 1) : ~SIsUndef(Eval(coef[k], i)) /\ ~SDiffer(s[k], Eval(coef[k], i))
\* C12
RECURSIVE Factorial(_)
Factorial(n) == IF n = 0 THEN "1" ELSE SMul(SInt(n), Factorial(n - 1))
ResidualOk(e, x, order, res) ==
  \A i \in Envs :
    LET s == Series(e, i, x, SVar(i, x), order + 1) IN
    SeriesDef(s) => ~SIsUndef(Eval(res, i))
                    /\ ~SDiffer(SMul(Factorial(order + 1), s[order + 2]), Eval(res, i))

RECURSIVE LastO(_, _)
LastO(q, k) == IF k = 0 THEN 0
               ELSE IF q[k] = "O" /\ At(q, k + 1) = "(" /\ (k = 1 \/ q[k - 1] = " ") THEN k
               ELSE LastO(q, k - 1)
RECURSIVE PolyVal(_, _, _, _)
PolyVal(coef, i, h, k) == IF k > Len(coef) THEN "0"
  ELSE SAdd(SMul(Eval(Rounded(coef[k]), i), IF k = 1 THEN "1" ELSE SPow(h, SInt(k - 1))),
            PolyVal(coef, i, h, k + 1))
DispOk(chars, coef, x, at, order) ==
  LET o == LastO(chars, Len(chars))
      b == Rounded(DFold(<<"sub", <<"var", x>>, at>>))
  IN o > 0 /\
     LET head == SubSeq(chars, 1, o - 1)
         tail == SubSeq(chars, o + 1, Len(chars))
         t == Read(tail)
         h == IF Len(head) = 0 THEN Zero
              ELSE IF Len(head) > 3 /\ SubSeq(head, Len(head) - 2, Len(head)) = <<" ", "+", " ">>
                   THEN Read(SubSeq(head, 1, Len(head) - 3)) ELSE NoTree
     IN /\ t # NoTree /\ h # NoTree
        /\ \A i \in Envs :
             LET d == Eval(b, i) IN
             SIsDef(d) /\ SNonZero(d) =>
               /\ Agrees(SPow(d, SInt(order + 1)), Eval(t, i))
               /\ Agrees(PolyVal(coef, i, d, 1), Eval(h, i))
TaylorPrintable(coef, x, at) ==
  NameOk(x) /\ Printable(at) /\ \A k \in 1..Len(coef) : Printable(coef[k])

-----------------------------------------------------------------------------
(* limits.  An answer is <<cls>> or <<"normal", e>>. *)

\* the answer does not contradict the germ (C13)
AnswerOk(ans, g, i) ==
  LET c == Cls(g) IN
  IF IsBad(c) THEN TRUE
  ELSE IF ans[1] = "err" THEN TRUE
  ELSE IF IsK(c)
  THEN IF ans[1] = "zero" THEN ~Has1(c, "n0")
       ELSE IF ans[1] = "inf" THEN ~Has1(c, "fin")
       ELSE IF ans[1] = "bf" THEN ~Has1(c, "ub")
       ELSE ~Has1(c, "nl") /\ ~Has1(c, "ub") /\ (Has1(c, "z") => Agrees("0", Eval(ans[2], i)))
  ELSE IF ans[1] = "zero" THEN ~(c[1] = "I") /\ ~(c[1] = "T" /\ SNonZero(c[2]))
  ELSE IF ans[1] = "inf" THEN c[1] = "I"
  ELSE IF ans[1] = "bf" THEN c[1] # "I"
  ELSE IF c[1] = "I" THEN FALSE
  ELSE IF c[1] = "T" THEN Agrees(c[2], Eval(ans[2], i))
  ELSE TRUE
LimitOk(e, x, to, ans) ==
  Occurs(x, to) \/
  \A i \in 1..2 : LET a == Eval(to, i) IN
    SIsDef(a) => AnswerOk(ans, Germ(e, i, x, IF Vars(to) = {} THEN a ELSE EvalPar(to, i)), i)
\* C15
OnlyTrig(e) == UsesOnly(e, {"neg", "add", "sub", "mul", "div", "sin", "cos"})
\* evaluating bottom-up meets no indeterminate form at the point: every divisor is analytic
\* there with a certainly nonzero value
RECURSIVE Direct(_, _, _)
Direct(e, x, a) ==
  IF IsLeaf(e) THEN TRUE
  ELSE IF IsUn(e) THEN e[1] \in {"neg", "sin", "cos"} /\ Direct(e[2], x, a)
  ELSE /\ e[1] \in {"add", "sub", "mul", "div"}
       /\ Direct(e[2], x, a) /\ Direct(e[3], x, a)
       /\ e[1] = "div" => LET g == Cls(Germ(e[3], 1, x, a)) IN g[1] = "T" /\ SNonZero(g[2])
Val(g) == IF g[1] = "L" THEN g[2] ELSE 1000
\* a quotient of functions analytic at the point, resolved by at most n differentiations
Resolved(e, x, a, n) ==
  IF e[1] # "div" THEN FALSE
  ELSE IF ~(Direct(e[2], x, a) /\ Direct(e[3], x, a)) THEN FALSE
  ELSE LET l == Germ(e[2], 1, x, a)  r == Germ(e[3], 1, x, a) IN
       /\ l[1] \in {"L", "0"} /\ r[1] = "L"
       /\ (IF Val(l) < Val(r) THEN Val(l) ELSE Val(r)) <= n
\* the class met when evaluating bottom-up: Z zero, I infinite, B bounded, N a nonzero value;
\* fail when an indeterminate combination arises (other than a resolved quotient) or a value is not certain
RECURSIVE ClsUp(_, _, _, _)
ClsUp(e, x, a, n) ==
  LET o == e[1]
      here(k) == LET c == Cls(Germ(e, 1, x, a)) IN
                 IF c[1] # "T" THEN k ELSE IF SIsZero(c[2]) THEN "Z" ELSE IF SNonZero(c[2]) THEN "N" ELSE "fail"
  IN IF IsLeaf(e) THEN here("fail")
     ELSE IF o \notin {"neg", "sin", "cos", "add", "sub", "mul", "div"} THEN "fail" ELSE
     LET l == ClsUp(e[2], x, a, n) IN
     IF l = "fail" THEN "fail"
     ELSE IF o = "neg" THEN l
     ELSE IF o = "sin" \/ o = "cos" THEN (IF l \in {"I", "B"} THEN "B" ELSE here("fail"))
     ELSE LET r == ClsUp(e[3], x, a, n)  two == {l, r} IN
     IF r = "fail" THEN "fail"
     ELSE IF o = "add" \/ o = "sub"
          THEN (IF l = "I" /\ r = "I" THEN "fail" ELSE IF "I" \in two THEN "I" ELSE IF "B" \in two THEN "B" ELSE here("fail"))
     ELSE IF o = "mul"
          THEN (IF "I" \in two THEN (IF two \cap {"Z", "B"} # {} THEN "fail" ELSE "I")
                ELSE IF "Z" \in two THEN "Z" ELSE IF "B" \in two THEN "B" ELSE here("fail"))
     ELSE IF r = "B" THEN "fail"
     ELSE IF r = "I" THEN (IF l = "I" THEN "fail" ELSE "Z")
     ELSE IF r = "Z"
          THEN (IF l \in {"N", "I"} THEN "I"
                ELSE IF l # "Z" \/ ~Resolved(e, x, a, n) THEN "fail"
                ELSE LET p == Val(Germ(e[2], 1, x, a))  q == Val(Germ(e[3], 1, x, a)) IN
                     IF p > q THEN "Z" ELSE IF p < q THEN "I" ELSE here("fail"))
     ELSE IF l \in {"I", "B"} THEN l ELSE here("fail")
\* decidable by the property's own criterion: x -> rational point, exact arithmetic
MustAnswer(e, x, to, n) ==
  /\ OnlyTrig(e) /\ Vars(e) \subseteq {x}
  /\ IF IsNum(to) THEN to[2] # "real" /\ SRawD(to[3]) # "0" ELSE FALSE
  /\ LET a == LitVal(to) IN
     \/ ClsUp(e, x, a, n) # "fail"
     \/ Resolved(e, x, a, n)

\* C20: the form of a value answer, and answers for the same limit with more differentiations allowed
LimitFormOk(e, x, to, v) == WellFormed(v) /\ FoldComplete(v) /\ ~IsZeroLit(v) /\ Vars(v) \subseteq ((Vars(e) \ {x}) \cup Vars(to))
SameAnswer(a, b) == a[1] = b[1] /\ (a[1] = "normal" => \A i \in Envs : Agrees(Eval(a[2], i), Eval(b[2], i)))
LimitStable(n1, a1, n2, a2) ==
  /\ n1 <= n2 /\ a1[1] # "err" => SameAnswer(a1, a2)
  /\ n2 <= n1 /\ a2[1] # "err" => SameAnswer(a2, a1)

\* limit classes as sets of witness germs (C14)
WitnessZero == {GL(1, <<"1", "0", "0", "0">>), GL(1, <<"-1", "2", "0", "0">>), GL(2, <<"3", "0", "1", "0">>),
                <<"T", "0">>}
WitnessInf  == {GL(0 - 1, <<"1", "0", "0", "0">>), GL(0 - 1, <<"-1", "1", "0", "0">>), GL(0 - 2, <<"2", "0", "1", "0">>)}
WitnessBf   == {GBnd, GOsc, GL(0, <<"1", "0", "0", "0">>), GL(0, <<"-1", "1", "0", "0">>)}
WitnessNormal(e, i) == LET v == Eval(e, i) IN
  IF SNonZero(v) THEN {GL(0, <<v, "0", "0", "0">>), GL(0, <<v, "1", "-2", "0">>), <<"T", v>>} ELSE {}
Witness(a, i) == IF a[1] = "zero" THEN WitnessZero ELSE IF a[1] = "inf" THEN WitnessInf
                 ELSE IF a[1] = "bf" THEN WitnessBf ELSE WitnessNormal(a[2], i)
GOp(o, f, g) == IF o = "add" THEN GAdd(f, g) ELSE IF o = "sub" THEN GAdd(f, GNeg(g))
                ELSE IF o = "mul" THEN GMul(f, g) ELSE GDiv(f, g)
ClassOk(o, a, b, ans) ==
  \A i \in 1..2 :
    IF o = "neg" THEN \A f \in Witness(a, i) : AnswerOk(ans, GNeg(f), i)
    ELSE \A f \in Witness(a, i), g \in Witness(b, i) : AnswerOk(ans, GOp(o, f, g), i)
\* the class-level design table decides where an answer is due
ClassMustAnswer(o, a, b) == IF o = "neg" THEN TRUE ELSE LOp(o, a, b)[1] # "err"
=============================================================================
