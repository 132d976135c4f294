-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* How a reader reads printed expressions: a lexer and a recursive-descent *)
(* parser over character sequences with the library's own precedences.     *)
(*   negation (loosest) < + - < * < / ^ < functions (tightest)             *)
(* binary operators associate to the left, n/d without blanks is a         *)
(* rational literal, a function name is followed by its argument directly. *)
(* NoTree is the result for text that cannot be read.                        *)
(***************************************************************************)
EXTENDS Expr

NoTree == <<"fail">>
Fail == <<NoTree, 0>>
IsFail(p) == p[2] = 0

\* ---- lexer: tokens <<kind, text>> ------------------------------------------
IsSpace(c) == c = " "
NameChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c = "_" \/ c = "'"

RECURSIVE DigitsEnd(_, _)
DigitsEnd(q, i) == IF i <= Len(q) /\ IsDigit(q[i]) THEN DigitsEnd(q, i + 1) ELSE i
RECURSIVE NameEnd(_, _)
NameEnd(q, i) == IF i <= Len(q) /\ NameChar(q[i]) THEN NameEnd(q, i + 1) ELSE i

At(q, i) == IF i <= Len(q) THEN q[i] ELSE "end"
Starts(q, i, w) == i + Len(w) - 1 <= Len(q) /\ \A k \in 1..Len(w) : q[i + k - 1] = w[k]
FunAt(q, i) == IF Starts(q, i, <<"s", "i", "n">>) THEN "sin"
               ELSE IF Starts(q, i, <<"c", "o", "s">>) THEN "cos"
               ELSE IF Starts(q, i, <<"e", "x", "p">>) THEN "exp"
               ELSE IF Starts(q, i, <<"l", "n">>) THEN "ln" ELSE "none"
FunLen(f) == IF f = "ln" THEN 2 ELSE 3

\* number literal starting at i: <<token, next>>
LexNum(q, i) ==
  LET j == DigitsEnd(q, i) IN
  IF At(q, j) = "." /\ IsDigit(At(q, j + 1))
  THEN LET k == DigitsEnd(q, j + 1) IN
       << <<"real", CharsStr(SubSeq(q, i, k - 1))>>, k >>
  ELSE IF At(q, j) = "/" /\ IsDigit(At(q, j + 1))
  THEN LET k == DigitsEnd(q, j + 1) IN
       << <<"rat", CharsStr(SubSeq(q, i, k - 1))>>, k >>
  ELSE << <<"int", CharsStr(SubSeq(q, i, j - 1))>>, j >>

RECURSIVE Lex(_, _, _)
Lex(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET c == q[i] IN
    IF IsSpace(c) THEN Lex(q, i + 1, acc)
    ELSE IF c \in {"+", "-", "*", "/", "^", "(", ")"} THEN Lex(q, i + 1, Append(acc, <<"sym", c>>))
    ELSE IF IsDigit(c) THEN LET t == LexNum(q, i) IN Lex(q, t[2], Append(acc, t[1]))
    ELSE IF IsAlpha(c) THEN
         LET f == FunAt(q, i) IN
         IF f # "none" THEN Lex(q, i + FunLen(f), Append(acc, <<"fun", f>>))
         ELSE LET j == NameEnd(q, i) IN
              Lex(q, j, Append(acc, <<"name", CharsStr(SubSeq(q, i, j - 1))>>))
    ELSE Append(acc, <<"bad", c>>)

\* ---- parser: each returns <<tree, next>> or Fail -----------------------------
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE <<"eof", "">>
IsSym(t, c) == t[1] = "sym" /\ t[2] = c

RECURSIVE PNegation(_, _), PSum(_, _), PSumRest(_, _), PProd(_, _), PProdRest(_, _),
          PQuot(_, _), PQuotRest(_, _), PFun(_, _)

Minus(ts, i) == IsSym(Tok(ts, i), "-")

PNegation(ts, i) ==
  IF IsSym(Tok(ts, i), "-")
  THEN LET p == PNegation(ts, i + 1) IN IF IsFail(p) THEN Fail ELSE << <<"neg", p[1]>>, p[2] >>
  ELSE PSum(ts, i)

PSum(ts, i) == LET p == PProd(ts, i) IN IF IsFail(p) THEN Fail ELSE PSumRest(ts, p)
PSumRest(ts, p) ==
  LET t == Tok(ts, p[2]) IN
  IF IsSym(t, "+") \/ IsSym(t, "-")
  THEN LET r == (IF Minus(ts, p[2] + 1) THEN PNegation(ts, p[2] + 1) ELSE PProd(ts, p[2] + 1)) IN
       IF IsFail(r) THEN Fail
       ELSE PSumRest(ts, << <<IF t[2] = "+" THEN "add" ELSE "sub", p[1], r[1]>>, r[2] >>)
  ELSE p

PProd(ts, i) == LET p == PQuot(ts, i) IN IF IsFail(p) THEN Fail ELSE PProdRest(ts, p)
PProdRest(ts, p) ==
  LET t == Tok(ts, p[2]) IN
  IF IsSym(t, "*")
  THEN LET r == (IF Minus(ts, p[2] + 1) THEN PNegation(ts, p[2] + 1) ELSE PQuot(ts, p[2] + 1)) IN
       IF IsFail(r) THEN Fail ELSE PProdRest(ts, << <<"mul", p[1], r[1]>>, r[2] >>)
  ELSE p

PQuot(ts, i) == LET p == PFun(ts, i) IN IF IsFail(p) THEN Fail ELSE PQuotRest(ts, p)
PQuotRest(ts, p) ==
  LET t == Tok(ts, p[2]) IN
  IF IsSym(t, "/") \/ IsSym(t, "^")
  THEN LET r == (IF Minus(ts, p[2] + 1) THEN PNegation(ts, p[2] + 1) ELSE PFun(ts, p[2] + 1)) IN
       IF IsFail(r) THEN Fail
       ELSE PQuotRest(ts, << <<IF t[2] = "/" THEN "div" ELSE "pow", p[1], r[1]>>, r[2] >>)
  ELSE p

PFun(ts, i) ==
  LET t == Tok(ts, i) IN
  IF t[1] = "fun"
  THEN LET p == (IF Minus(ts, i + 1) THEN PNegation(ts, i + 1) ELSE PFun(ts, i + 1)) IN IF IsFail(p) THEN Fail ELSE << <<t[2], p[1]>>, p[2] >>
  ELSE IF t[1] = "int" THEN << MkNum("int", SStr(t[2])), i + 1 >>
  ELSE IF t[1] = "rat"
  THEN (IF SRawD(t[2]) = "0" THEN Fail ELSE << MkNum("rat", t[2]), i + 1 >>)
  ELSE IF t[1] = "real" THEN << <<"num", "real", t[2], "none">>, i + 1 >>
  ELSE IF t[1] = "name"
  THEN << (IF t[2] = "pi" THEN PiNode ELSE IF t[2] = "e" THEN ENode ELSE <<"var", t[2]>>), i + 1 >>
  ELSE IF IsSym(t, "(")
  THEN LET p == PNegation(ts, i + 1) IN
       IF IsFail(p) THEN Fail
       ELSE IF IsSym(Tok(ts, p[2]), ")") THEN << p[1], p[2] + 1 >> ELSE Fail
  ELSE Fail

\* read a whole text
Read(q) == LET ts == Lex(q, 1, <<>>)
               p == PNegation(ts, 1)
           IN IF IsFail(p) THEN NoTree ELSE IF p[2] = Len(ts) + 1 THEN p[1] ELSE NoTree

\* what the printed text of e can convey: untagged reals are printed with three decimals
RECURSIVE Rounded(_)
Rounded(e) == IF IsVar(e) THEN e
              ELSE IF IsNum(e)
                   THEN IF e[2] = "real" /\ e[4] = "none"
                        THEN <<"num", "real", CharsStr(FShow3(e[3])), "none">> ELSE e
              ELSE IF IsUn(e) THEN <<e[1], Rounded(e[2])>>
              ELSE <<e[1], Rounded(e[2]), Rounded(e[3])>>

\* names the text can carry unambiguously
NameOk(x) == LET q == StrChars(x) IN
  /\ Len(q) > 0 /\ IsAlpha(q[1]) /\ \A k \in 1..Len(q) : NameChar(q[k])
  /\ FunAt(q, 1) = "none" /\ x # "e" /\ x # "pi" /\ x # "O"
FiniteReals(e) == AllNodes(e, LAMBDA n : IF n[1] = "num" THEN ~(n[2] = "real" /\ n[3] \in {"nan", "inf", "-inf"}) ELSE TRUE)
=============================================================================
