-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Expression trees, the abstract state of the library.                    *)
(*                                                                         *)
(*   <<"num", kind, val, tag>>   kind "int" | "rat" | "real"               *)
(*                               val  text of the stored value             *)
(*                               tag  marks the number reports (zero, one, *)
(*                                    pi, e, or none)                      *)
(*   <<"var", name>>                                                       *)
(*   <<op, a>>                   op in UnOps                               *)
(*   <<op, a, b>>                op in BinOps                              *)
(***************************************************************************)
EXTENDS Scalar, Integers, Sequences, FiniteSets

UnOps  == {"neg", "sin", "cos", "exp", "ln"}
BinOps == {"add", "sub", "mul", "div", "pow"}
ArithOps == {"neg", "add", "sub", "mul", "div"}

Op(e)    == e[1]
IsNum(e) == e[1] = "num"
IsVar(e) == e[1] = "var"
IsLeaf(e) == e[1] \in {"num", "var"}
IsUn(e)  == e[1] \in UnOps
IsBin(e) == e[1] \in BinOps
IsVarNamed(e, x) == IF IsVar(e) THEN e[2] = x ELSE FALSE

Kids(e) == IF IsLeaf(e) THEN <<>> ELSE Tail(e)

RECURSIVE WellFormed(_)
WellFormed(e) ==
  IF e[1] = "num" THEN Len(e) = 4 ELSE
  IF e[1] = "var" THEN Len(e) = 2 ELSE
  IF e[1] \in UnOps THEN Len(e) = 2 /\ WellFormed(e[2]) ELSE
  IF e[1] \in BinOps THEN Len(e) = 3 /\ WellFormed(e[2]) /\ WellFormed(e[3]) ELSE FALSE

RECURSIVE Size(_)
Size(e) == IF IsLeaf(e) THEN 1
           ELSE IF IsUn(e) THEN 1 + Size(e[2])
           ELSE 1 + Size(e[2]) + Size(e[3])

RECURSIVE Depth(_)
Depth(e) == IF IsLeaf(e) THEN 1
            ELSE IF IsUn(e) THEN 1 + Depth(e[2])
            ELSE LET l == Depth(e[2]) r == Depth(e[3]) IN 1 + (IF l > r THEN l ELSE r)

RECURSIVE Vars(_)
Vars(e) == IF IsNum(e) THEN {}
           ELSE IF IsVar(e) THEN {e[2]}
           ELSE IF IsUn(e) THEN Vars(e[2])
           ELSE Vars(e[2]) \cup Vars(e[3])

RECURSIVE Occurs(_, _)
Occurs(x, e) == IF IsNum(e) THEN FALSE
                ELSE IF IsVar(e) THEN e[2] = x
                ELSE IF IsUn(e) THEN Occurs(x, e[2])
                ELSE Occurs(x, e[2]) \/ Occurs(x, e[3])

\* number of nodes whose operator (or "num"/"var") is in S
RECURSIVE CountOps(_, _)
CountOps(e, S) ==
  (IF e[1] \in S THEN 1 ELSE 0) +
  (IF IsLeaf(e) THEN 0 ELSE IF IsUn(e) THEN CountOps(e[2], S)
   ELSE CountOps(e[2], S) + CountOps(e[3], S))

UsesOnly(e, S) == CountOps(e, (UnOps \cup BinOps) \ S) = 0

\* all subexpressions (with repetitions), the expression itself first
RECURSIVE Nodes(_)
Nodes(e) == IF IsLeaf(e) THEN <<e>>
            ELSE IF IsUn(e) THEN <<e>> \o Nodes(e[2])
            ELSE <<e>> \o Nodes(e[2]) \o Nodes(e[3])
\* every node satisfies P (P(_) is an operator on trees)
AllNodes(e, P(_)) == LET q == Nodes(e) IN \A i \in 1..Len(q) : P(q[i])

-----------------------------------------------------------------------------
(* Numbers *)

KindOf(e) == e[2]
ValOf(e)  == e[3]
TagOf(e)  == e[4]

\* value of a number leaf
LitVal(e) == IF e[2] = "real" THEN SReal(e[3]) ELSE SStr(e[3])
ExactNum(e) == IF IsNum(e) THEN e[2] \in {"int", "rat"} ELSE FALSE
NumIs(e, s) == IF ExactNum(e) THEN SStr(e[3]) = s ELSE FALSE
IsZeroLit(e) == NumIs(e, "0")
IsOneLit(e)  == NumIs(e, "1")
IsPiLit(e)   == IF IsNum(e) THEN e[4] = "pi" ELSE FALSE
IsELit(e)    == IF IsNum(e) THEN e[4] = "e" ELSE FALSE

\* the mark an exact or real value must carry when it is not a named constant
TagFor(kind, val) ==
  IF kind = "real" THEN "none"
  ELSE IF SStr(val) = "0" THEN "zero" ELSE IF SStr(val) = "1" THEN "one" ELSE "none"

MkNum(kind, val) == <<"num", kind, val, TagFor(kind, val)>>
MkInt(i) == MkNum("int", SInt(i))
PiNode == <<"num", "real", "3.141592653589793e0", "pi">>
ENode  == <<"num", "real", "2.718281828459045e0", "e">>
Zero == <<"num", "int", "0", "zero">>
One  == <<"num", "int", "1", "one">>
MkVar(x) == <<"var", x>>

I64Min == "-9223372036854775808"
I64Max == "9223372036854775807"
U64Max == "18446744073709551615"
FitsI64(s) == ~SLt(s, I64Min) /\ ~SLt(I64Max, s)
FitsU64(s) == ~SLt(s, "0") /\ ~SLt(U64Max, s)
=============================================================================
