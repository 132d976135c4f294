--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Inputs: leaf libraries, sampled expression trees, and the command       *)
(* language of the harness (one command = one call into the library).      *)
(***************************************************************************)
EXTENDS Contract, Rand, TLC, IOUtils, Json

From(q, k) == q[Pick(k, Len(q))]
Chance(k, pct) == Pick(Hash(k, 900), 100) <= pct
S(n) == ToString(n)

\* literals found in the code under test (check.py): where special cases may begin
Dict == ndJsonDeserialize(IOEnv.V_DICT)[1]
DInts == Dict.ints  DPos == Dict.pos  DReals == Dict.reals  DNames == Dict.names
DSizes == Dict.sizes
Sizes(lo, hi) == SelectSeq(DSizes, LAMBDA n : n >= lo /\ n <= hi)
DChance(q, k, pct) == Len(q) > 0 /\ Pick(Hash(k, 901), 100) <= pct

\* ---- command text -----------------------------------------------------------
Word(e) == IF IsVar(e) THEN "v" \o e[2]
          ELSE IF e[4] \in {"pi", "e"} THEN e[4]
          ELSE IF e[2] = "int" THEN "i" \o e[3]
          ELSE IF e[2] = "rat" THEN "q" \o e[3] ELSE "f" \o e[3]
RECURSIVE Rpn(_)
Rpn(e) == IF IsLeaf(e) THEN Word(e)
          ELSE IF IsUn(e) THEN Rpn(e[2]) \o " " \o e[1]
          ELSE Rpn(e[2]) \o " " \o Rpn(e[3]) \o " " \o e[1]
\* one line per session, commands separated by |
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE "|" \o Head(q) \o Join(Tail(q))
CRpn(d, e) == "rpn " \o S(d) \o " " \o Rpn(e)

\* ---- leaves -----------------------------------------------------------------
Rat(s) == <<"num", "rat", s, TagFor("rat", s)>>
Real(s) == <<"num", "real", s, "none">>
IntS(s) == MkNum("int", s)
VX == MkVar("x")  VY == MkVar("y")  VA == MkVar("a")  VT == MkVar("t")
VarsStd == <<"x", "x", "x", "y", "z", "a">>
\* names that are prefixes, extensions, case variants, digits, primes, non-ASCII
VarsOdd == <<"x", "xx", "X", "x1", "x_1", "xy", "y", "yx", "x'", "%CE%B1", "%CE%B1x", "tt", "T", "pie", "ee", "O1",
             "pi", "e", "sin", "1", "0", "x_a_1", "x_b_1", "velocity_x", "velocity_y", "velocity", "%", "%CE%B2", "x%CE%B1", "_", "lnx", "abcdefghijklmnopq", "abcdefghijklmnopr", "%20x", "x%20", "x%20y", "-x", "x+y", "(x)", "2x", "1.5", "%09", "%25", "Aa", "BB", "ab", "ba"
            >> \o DNames
RatPool == <<"1/2", "-1/2", "1/3", "2/3", "-3/4", "5/2", "4/6", "-2/4", "6/3", "-9/3", "7/5", "3/2", "5/5", "0/7", "-0/3", "-7/7",
             "11/4", "1/10", "-13/6", "9/1", "1/1", "22/7", "100/7", "15/25", "1/2000", "-1/4096", "2000/3", "999/1000", "1000/999", "1/1000000">>
RealPool == <<"0.5", "-0.5", "2.0", "1.0", "0.0", "-1.0", "1.5", "0.1", "3.25", "-2.75", "1e-3", "12.125", "0.333", "2.718281828459045",
              "3.141592653589793", "-0.0", "1e3", "7.0", "0.1001", "0.1004", "0.3333", "2.7183", "3.14159", "1.0001", "0.9996", "0.0004", "1e-9",
              "123456.789", "1e15", "-0.0004", "0.9995", "5e-5", "-2e-5", "1e-7", "3e-12", "8e-6", "99999.5", "3.1415926535", "3.14159265358979", "2.7182818284590", "2.718281828", "0.9999999999", "1.0000000001", "1e-12", "3.1415927410125732">>
IntPool == <<0, 1, -1, 2, 3, -2, 4, 5, -3, 6, 7, 8, 9, 10, 12, -5, -7, -10, 16, 25, 30, 100, -64, 255, 1000, 2000, -4096, 1000000>>
\* integers of any number of digits
RECURSIVE DigitsOf(_, _)
DigitsOf(n, k) == IF n <= 8 THEN S(Pick(Hash(k, n), 10 ^ n)) ELSE S(Pick(Hash(k, n), 99999999)) \o DigitsOf(n - 8, k)
LogInt(k, n) == DigitsOf(Pick(k, n), Hash(k, 3))
LeafOf(kind, vars, k) ==
  CASE kind = "int" /\ Chance(Hash(k, 906), 12) -> IntS((IF Chance(Hash(k, 907), 40) THEN "-" ELSE "") \o LogInt(Hash(k, 908), IF Chance(k, 70) THEN 12 ELSE 17))
    [] kind = "ratr" /\ Chance(Hash(k, 906), 12) -> Rat((IF Chance(Hash(k, 907), 40) THEN "-" ELSE "") \o LogInt(Hash(k, 908), 9) \o "/" \o LogInt(Hash(k, 909), 9))
    [] kind = "var" /\ Len(vars) > 20 /\ Chance(Hash(k, 906), 6) -> MkVar(From(<<"n", "v", "x_", "t">>, Hash(k, 907)) \o S(Pick(Hash(k, 908), 3000)))
    [] kind \in {"small", "int"} /\ DChance(DInts, k, 15) -> IntS(From(DInts, Hash(k, 902)))
    [] kind \in {"rat", "ratr"} /\ DChance(DPos, k, 15) ->
         (LET n == From(DPos, Hash(k, 902))  s == IF Chance(Hash(k, 903), 30) THEN "-" ELSE "" IN
          IF Chance(Hash(k, 904), 50) THEN Rat(s \o n \o "/" \o S(Pick(Hash(k, 905), 24))) ELSE Rat(s \o S(Pick(Hash(k, 905), 24)) \o "/" \o n))
    [] kind \in {"real", "realr"} /\ DChance(DReals, k, 25) -> Real(From(DReals, Hash(k, 902)))
    [] kind = "var"  -> MkVar(From(vars, k))
    [] kind = "zero" -> Zero
    [] kind = "one"  -> One
    [] kind = "pi"   -> PiNode
    [] kind = "e"    -> ENode
    [] kind = "small" -> MkInt(Pick(k, 7) - 4)
    [] kind = "int"  -> (IF Chance(Hash(k, 1), 55) THEN MkInt(From(IntPool, k))
                         ELSE IF Chance(Hash(k, 2), 70) THEN MkInt(Pick(k, 201) - 101) ELSE MkInt(Pick(k, 20001) - 10001))
    [] kind = "rat"  -> Rat(From(RatPool, k))
    [] kind = "ratr" -> Rat((IF Chance(k, 40) THEN "-" ELSE "") \o S(Pick(Hash(k, 1), 40) - 1) \o "/" \o S(Pick(Hash(k, 2), 24)))
    [] kind = "real" -> Real(From(RealPool, k))
    [] kind = "realr" -> Real((IF Chance(k, 40) THEN "-" ELSE "") \o S(Pick(Hash(k, 1), 30) - 1) \o "." \o S(Pick(Hash(k, 2), 999)))
    [] kind = "tiny" -> From(<<Rat("1/2000"), Rat("-1/4096"), MkInt(2000), Rat("1/1000000"), Rat("999/1000"), MkInt(-1000)>>, k)
    [] kind = "big"  -> From(<<MkInt(1000000), MkInt(-1000003), IntS("3000000019"), IntS("-1000000007"), IntS("1000000000000"),
                               Rat("1000003/1000"), Rat("-999/1000001")>>, k)
    [] OTHER         -> From(<<IntS(I64Max), IntS(I64Min), IntS("9223372036854775806"), IntS("4611686018427387904"),
                               Rat("9223372036854775807/2"), Rat("1/9223372036854775807"), Rat("18446744073709551615/1"),
                               Rat("-1/18446744073709551615"), IntS("3037000500")>>, k)

AllUn0 == <<"neg", "sin", "cos", "exp", "ln">>
\* a profile p: [leaf |-> kinds, vars |-> names, un |-> ops, bin |-> ops, pun |-> percent unary]
Leaf(p, k) == LeafOf(From(p.leaf, Hash(k, 3)), p.vars, Hash(k, 4))
PowExp(p, k) == IF DChance(Sizes(6, 40), k, 12) THEN MkInt(From(Sizes(6, 40), Hash(k, 902)))
                ELSE IF Chance(k, 55) THEN LeafOf("small", p.vars, Hash(k, 5))
                ELSE IF Chance(Hash(k, 8), 40) THEN MkInt(Pick(Hash(k, 5), 28) - 11)
                ELSE IF Chance(Hash(k, 6), 50) THEN LeafOf("rat", p.vars, Hash(k, 5)) ELSE Leaf(p, Hash(k, 7))
RECURSIVE Tree(_, _, _)
Tree(p, n, k) ==
  IF n <= 1 THEN Leaf(p, k)
  ELSE IF Len(p.un) > 0 /\ (n = 2 \/ Chance(k, p.pun))
  THEN <<From(p.un, Hash(k, 10)), Tree(p, n - 1, Hash(k, 11))>>
  ELSE LET o == From(p.bin, Hash(k, 12)) IN
       IF o = "pow" /\ Chance(Hash(k, 13), 65)
       THEN <<o, Tree(p, n - 2, Hash(k, 14)), PowExp(p, Hash(k, 15))>>
       ELSE IF n = 2 THEN <<o, Leaf(p, Hash(k, 16)), Leaf(p, Hash(k, 17))>>
       ELSE LET m == Pick(Hash(k, 18), n - 2) IN
            <<o, Tree(p, m, Hash(k, 19)), Tree(p, n - 1 - m, Hash(k, 20))>>

\* a chain: depth without width (totality, deep nesting)
RECURSIVE Chain(_, _, _)
Chain(p, n, k) ==
  IF n <= 0 THEN Leaf(p, k)
  ELSE IF Len(p.un) > 0 /\ Chance(k, p.pun) THEN <<From(p.un, Hash(k, 10)), Chain(p, n - 1, Hash(k, 11))>>
  ELSE IF Chance(Hash(k, 21), 50) THEN <<From(p.bin, Hash(k, 12)), Chain(p, n - 1, Hash(k, 13)), Leaf(p, Hash(k, 14))>>
  ELSE <<From(p.bin, Hash(k, 12)), Leaf(p, Hash(k, 14)), Chain(p, n - 1, Hash(k, 13))>>

\* a tower: one or two operators, each applied on top of the other, always on the same side
RECURSIVE TowerOf(_, _, _, _)
TowerOf(ops, left, leaf, n) ==
  IF n <= 0 THEN leaf
  ELSE LET o == ops[1 + (n % Len(ops))]  z == TowerOf(ops, left, leaf, n - 1) IN
       IF o \in UnOps THEN <<o, z>> ELSE IF left THEN <<o, z, leaf>> ELSE <<o, leaf, z>>
Tower(un, bin, n, key) ==
  LET any(i) == IF Chance(Hash(key, i), 60) THEN From(un, Hash(key, i + 1)) ELSE From(bin, Hash(key, i + 2))
      ops == IF Chance(Hash(key, 1), 50) THEN <<any(10)>> ELSE <<any(10), any(20)>>
  IN TowerOf(ops, Chance(Hash(key, 2), 50), IF Chance(Hash(key, 3), 75) THEN MkVar("x") ELSE From(<<MkInt(2), Rat("1/3"), MkVar("y"), One>>, Hash(key, 4)), n)
\* a sum of many names that occur nowhere else
RECURSIVE NameSum(_, _, _)
NameSum(b, n, key) == IF n <= 1 THEN MkVar("n" \o S(b))
  ELSE LET m == n \div 2 IN <<From(<<"add", "add", "sub", "add">>, Hash(key, n + b)), NameSum(b, m, key), NameSum(b + m, n - m, key)>>
\* pairs of names that simple ways of comparing names (hashes, sums of characters, ...) confuse
Alike == <<"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "ab", "ba", "bA", "FB", "Ea", "costarring", "liquid", "declinate", "macallums",
           "altarage", "zinke", "plumless", "buckeroo", "codding", "gnu", "hetairas", "mentioner", "heliotropes", "neurospora",
           "depravement", "serafins", "stylist", "subgenera", "joyful", "synaphea", "creamwove", "quists", "abc", "cab", "acb", "aabb", "abab", "bbaa">>
\* names that differ by a leading zero, a mark, a code point or an invisible character only, and names
\* that look like something else the crate knows (functions, constants, numbers, whole expressions)
Twins == <<"x1", "x01", "x001", "x_1", "x-1", "x1_", "_x1", "x10", "x.1", "x", "X", "xx", "x_", "_x", "x__", "x'", "x''", "x'''", "x%E2%80%B2", "x%E2%80%B3",
           "%D1%85", "%CF%87", "%EF%BD%98", "%F0%9D%91%A5", "%CC%81x", "x%CC%81", "%C3%A9", "e%CC%81", "e", "%E2%84%AF", "%C3%89", "E", "a", "%D0%B0", "%C3%A5", "%E2%84%AB", "%C3%85", "A",
           "k", "K", "%E2%84%AA", "s", "S", "%C5%BF", "%C3%9F", "ss", "SS", "%E1%BA%9E", "i", "I", "%C4%B0", "%C4%B1", "j", "o", "0", "O", "%CE%BF", "l", "1", "%7C",
           "%CE%BC", "%C2%B5", "%CE%A9", "%E2%84%A6", "%CF%83", "%CF%82", "%CE%A3", "x%20", "%20x", "x%09", "x%0A", "x%C2%A0", "x%E2%80%8B", "%EF%BB%BFx", "x%00", "x%7F", "x%20y", "x%20%20y", "xy", "x,y",
           "%F0%9F%98%80", "%EF%98%80", "%C2%B2", "x%C2%B2", "x2", "x%E2%82%82", "theta", "%CE%B8", "Theta", "tau", "%CF%84", "phi", "%CF%86", "%CF%95", "h", "%E2%84%8F", "%E2%84%8E",
           "sin", "cos", "tan", "ln", "log", "exp", "sqrt", "asin", "arcsin", "inf", "Inf", "infinity", "nan", "NaN", "pi", "Pi", "%CF%80", "PI", "1.0", "01", "-1", "--x", "-x", "+x", "(x)", "x()", "x^2", "x*y", "x+y", "1e3", "1000", "2x", "x/y", "%25", "%2520">>
RECURSIVE Letters(_, _)
Letters(n, key) == IF n = 0 THEN <<>> ELSE <<From(<<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>, Hash(key, n))>> \o Letters(n - 1, key)
\* n names: the confusable ones, names of letters, numbered names
ManyNames(n, key) ==
  LET nm(i) == IF i % 4 = 0 THEN "v" \o S(i) ELSE CharsStr(Letters(4 + (i % 4), Hash(key, i))) IN
  Alike \o Twins \o [i \in 1..n |-> nm(i)]
RECURSIVE Spaced(_)
Spaced(q) == IF Len(q) = 1 THEN q[1] ELSE LET m == Len(q) \div 2 IN Spaced(SubSeq(q, 1, m)) \o " " \o Spaced(SubSeq(q, m + 1, Len(q)))
\* the same expression in another variable
RECURSIVE Ren(_, _, _)
Ren(e, x, y) == IF IsNum(e) THEN e ELSE IF IsVar(e) THEN (IF e[2] = x THEN MkVar(y) ELSE e)
                ELSE IF IsUn(e) THEN <<e[1], Ren(e[2], x, y)>> ELSE <<e[1], Ren(e[2], x, y), Ren(e[3], x, y)>>
\* a name that is easily confused with x
Sib(x, k) ==
  LET q == StrChars(x)  n == Len(q)  w == Pick(k, 7)  c == From(<<"a", "b", "1", "_", "x", "y", "Z">>, Hash(k, 1)) IN
  IF \E i \in 1..Len(Alike) : Alike[i] = x THEN From(Alike, Hash(k, 3)) ELSE IF x = "%" THEN "x" ELSE IF n = 0 \/ \E i \in 1..n : q[i] = "%" THEN x \o "1"
  ELSE CASE w = 1 /\ n > 1 -> CharsStr(SubSeq(q, 1, n - 1))
         [] w = 2 /\ n > 1 -> CharsStr(SubSeq(q, 2, n))
         [] w = 3 -> x \o c
         [] w = 4 -> c \o x
         [] w = 5 /\ n > 2 -> LET i == 1 + Pick(Hash(k, 2), n - 2) IN CharsStr([q EXCEPT ![i] = c])
         [] w = 6 /\ n > 1 -> CharsStr([i \in 1..n |-> q[n + 1 - i]])
         [] OTHER -> CharsStr([q EXCEPT ![From(<<1, n>>, Hash(k, 2))] = c])
\* ---- near-equal trees and algebraic patterns ---------------------------------
\* the same tree with one leaf or operator slightly changed
MutLeaf(e, k) ==
  IF IsVar(e) THEN From(<<MkVar(e[2] \o "1"), VX, VY, VA, <<"neg", e>>>>, k)
  ELSE IF e[2] = "real" THEN Real(From(<<"0.1001", "0.1002", "0.1004", "2.0001", "3.1416", "1.0001">>, k))
  ELSE IF e[2] = "int" THEN (IF Chance(Hash(k, 1), 40) THEN Rat(e[3] \o "/1") ELSE MkNum("int", SAdd(SStr(e[3]), "1")))
  ELSE IF Chance(Hash(k, 1), 60) THEN Rat((IF SRawSign(e[3]) = -1 THEN "-" ELSE "") \o SMul(SRawN(e[3]), "2") \o "/" \o SMul(SRawD(e[3]), "2"))
  ELSE Rat(SRawN(e[3]) \o "/" \o SAdd(SRawD(e[3]), "1"))
RECURSIVE Mut(_, _)
Mut(e, k) ==
  IF IsLeaf(e) THEN MutLeaf(e, k)
  ELSE IF IsUn(e) THEN (IF Chance(k, 15) THEN <<From(AllUn0, Hash(k, 2)), e[2]>> ELSE <<e[1], Mut(e[2], Hash(k, 3))>>)
  ELSE IF Chance(k, 20) THEN <<e[1], e[3], e[2]>>
  ELSE IF Chance(Hash(k, 4), 50) THEN <<e[1], Mut(e[2], Hash(k, 5)), e[3]>> ELSE <<e[1], e[2], Mut(e[3], Hash(k, 5))>>
\* two numbers that differ, but not in their first decimals
Near(k) == From(<< <<"0.1001", "0.1004">>, <<"2.0001", "1.9999">>, <<"0.3333", "0.333">>, <<"-1.5001", "-1.5003">>, <<"0.0001", "0.0002">>,
                   <<"0.5004", "0.5">>, <<"1e-9", "1e-8">>, <<"3.14159", "3.1416">> >>, k)
\* the same tree with every real (or one variable) replaced by c
RECURSIVE PutReal(_, _)
PutReal(e, c) == IF IsNum(e) THEN (IF e[2] = "real" /\ e[4] = "none" THEN c ELSE e) ELSE IF IsVar(e) THEN e
                 ELSE IF IsUn(e) THEN <<e[1], PutReal(e[2], c)>> ELSE <<e[1], PutReal(e[2], c), PutReal(e[3], c)>>
NearTwin(p, n, k) ==
  LET c == Near(Hash(k, 1))
      t0 == Tree(p, 1 + Pick(Hash(k, 2), n), Hash(k, 3))
      t == <<From(<<"mul", "add", "pow", "div", "sub">>, Hash(k, 4)), t0, Real("0.5")>>
  IN IF Len(p.bin) = 0 THEN t0 ELSE
     <<From(<<"sub", "div", "add", "mul", "sub">>, Hash(k, 5)), PutReal(t, Real(c[1])), PutReal(t, Real(c[2]))>>
Twin(p, n, k) ==
  IF Chance(Hash(k, 90), 20) THEN NearTwin(p, n, Hash(k, 91)) ELSE
  LET u == Tree(p, 1 + Pick(Hash(k, 1), n), Hash(k, 2))
      v == IF Chance(Hash(k, 3), 50) THEN u ELSE Mut(u, Hash(k, 4))
  IN IF Len(p.bin) = 0 THEN u ELSE <<From(p.bin, Hash(k, 5)), u, v>>
\* shapes that invite rewriting
Idiom(p, n, k) ==
  LET u == Tree(p, Pick(Hash(k, 1), n), Hash(k, 2))
      v == Tree(p, Pick(Hash(k, 3), n), Hash(k, 4))
      num(i) == LeafOf(From(<<"small", "small", "int", "rat", "rat", "pi", "e", "real", "one", "zero">>, Hash(k, i)), p.vars, Hash(k, i + 1))
      c == num(10)  d == num(12)
      w == IF Chance(Hash(k, 6), 50) THEN u ELSE Mut(u, Hash(k, 7))
      Two == MkInt(2)  Half == Rat("1/2")
      A(x, y) == <<"add", x, y>>  B(x, y) == <<"sub", x, y>>  M(x, y) == <<"mul", x, y>>  D(x, y) == <<"div", x, y>>  W(x, y) == <<"pow", x, y>>
      Ng(x) == <<"neg", x>>  Sn(x) == <<"sin", x>>  Cs(x) == <<"cos", x>>  E(x) == <<"exp", x>>  L(x) == <<"ln", x>>
      m == Pick(Hash(k, 8), 84)
  IN CASE m = 1 -> M(c, D(d, u)) [] m = 2 -> M(D(d, u), c) [] m = 3 -> M(M(c, u), d) [] m = 4 -> M(c, M(u, d)) [] m = 5 -> D(D(u, c), d)
       [] m = 6 -> D(c, D(u, d)) [] m = 7 -> A(A(c, u), d) [] m = 8 -> A(c, A(u, d)) [] m = 9 -> B(B(c, u), d) [] m = 10 -> B(u, B(c, u))
       [] m = 11 -> B(B(u, c), d) [] m = 12 -> B(c, B(d, u)) [] m = 13 -> M(E(u), E(v)) [] m = 14 -> E(A(u, v)) [] m = 15 -> L(M(u, v))
       [] m = 16 -> L(D(u, v)) [] m = 17 -> L(W(u, c)) [] m = 18 -> W(W(u, c), d) [] m = 19 -> M(W(u, c), W(w, d)) [] m = 20 -> D(W(u, c), W(w, d))
       [] m = 21 -> D(u, w) [] m = 22 -> B(u, w) [] m = 23 -> A(u, w) [] m = 24 -> A(u, Ng(w)) [] m = 25 -> M(Ng(u), v) [] m = 26 -> M(Ng(u), Ng(v))
       [] m = 27 -> Ng(A(u, v)) [] m = 28 -> Ng(B(u, v)) [] m = 29 -> B(u, Ng(v)) [] m = 30 -> A(u, Ng(v)) [] m = 31 -> D(Ng(u), Ng(v))
       [] m = 32 -> Sn(Ng(u)) [] m = 33 -> Cs(Ng(u)) [] m = 34 -> A(W(Sn(u), Two), W(Cs(w), Two)) [] m = 35 -> Sn(M(c, PiNode)) [] m = 36 -> Cs(D(PiNode, d))
       [] m = 37 -> E(L(u)) [] m = 38 -> L(E(u)) [] m = 39 -> E(M(c, L(u))) [] m = 40 -> E(Ng(L(u))) [] m = 41 -> W(u, MkInt(-1)) [] m = 42 -> W(M(u, v), c)
       [] m = 43 -> W(D(u, v), c) [] m = 44 -> D(One, D(u, v)) [] m = 45 -> D(D(u, v), w) [] m = 46 -> D(u, D(v, w)) [] m = 47 -> W(W(u, Two), Half)
       [] m = 48 -> W(E(u), c) [] m = 49 -> M(W(c, u), W(d, w)) [] m = 50 -> W(ENode, u) [] m = 51 -> W(u, Zero) [] m = 52 -> W(Zero, u) [] m = 53 -> W(One, u)
       [] m = 54 -> M(u, Zero) [] m = 55 -> D(Zero, u) [] m = 56 -> M(u, w) [] m = 57 -> W(u, w) [] m = 58 -> A(M(c, u), M(d, w)) [] m = 59 -> B(M(c, u), M(d, w))
       [] m = 60 -> M(c, A(u, d)) [] m = 61 -> M(B(u, c), B(u, d)) [] m = 62 -> D(A(u, c), d) [] m = 63 -> Ng(Ng(Ng(u))) [] m = 64 -> W(Ng(u), c)
       [] m = 65 -> Ng(W(u, c)) [] m = 66 -> D(M(c, u), M(d, w)) [] m = 67 -> D(M(u, v), w) [] m = 68 -> W(u, A(c, d)) [] m = 69 -> W(u, M(c, v))
       [] m = 70 -> D(u, One) [] m = 71 -> D(One, u) [] m = 72 -> B(Zero, u) [] m = 73 -> A(Zero, u) [] m = 74 -> M(MkInt(-1), u) [] m = 75 -> M(u, D(c, d))
       [] m = 76 -> L(D(One, u)) [] m = 77 -> W(c, L(u)) [] m = 78 -> E(E(L(u))) [] m = 79 -> Ng(D(c, u)) [] m = 80 -> Ng(M(c, u)) [] m = 81 -> D(u, Ng(c))
       [] m = 82 -> D(D(c, d), u) [] m = 83 -> B(c, A(d, u)) [] OTHER -> W(u, D(c, d))
\* two operators over two constants and one tree, in every position
Pattern(p, n, k) ==
  LET u == Tree(p, Pick(Hash(k, 1), n), Hash(k, 2))
      num(i) == LeafOf(From(<<"small", "int", "int", "rat", "ratr", "real">>, Hash(k, i)), p.vars, Hash(k, i + 1))
      c == num(10)  d == num(12)
      q == From(<<<<c, u, d>>, <<u, c, d>>, <<c, d, u>>, <<u, c, u>>, <<c, u, u>>>>, Hash(k, 3))
      o1 == From(p.bin, Hash(k, 4))  o2 == From(p.bin, Hash(k, 5))
      z == IF Chance(Hash(k, 6), 30) /\ Len(p.un) > 0 THEN <<From(p.un, Hash(k, 7)), <<o2, q[1], q[2]>>>> ELSE <<o2, q[1], q[2]>>
  IN IF Len(p.bin) = 0 THEN u ELSE IF Chance(Hash(k, 8), 55) THEN <<o1, z, q[3]>> ELSE <<o1, q[3], z>>
\* a tree inside a context
RECURSIVE Wrap(_, _, _, _)
Wrap(p, e, n, k) ==
  IF n = 0 THEN e
  ELSE LET z == Wrap(p, e, n - 1, Hash(k, 1)) IN
    IF Len(p.un) > 0 /\ Chance(k, p.pun + 10) THEN <<From(p.un, Hash(k, 2)), z>>
    ELSE IF Chance(Hash(k, 3), 50) THEN <<From(p.bin, Hash(k, 4)), z, Leaf(p, Hash(k, 5))>>
    ELSE <<From(p.bin, Hash(k, 4)), Leaf(p, Hash(k, 5)), z>>
\* the mix of trees drawn by the sampled sessions
Mixed(p, n, k) ==
  LET w == Pick(Hash(k, 60), 100) IN
  IF w <= 22 THEN Wrap(p, Idiom(p, 1 + n \div 5, Hash(k, 61)), Pick(Hash(k, 62), 4) - 1, Hash(k, 63))
  ELSE IF w <= 44 /\ w > 34 THEN Wrap(p, Pattern(p, 1 + n \div 5, Hash(k, 69)), Pick(Hash(k, 62), 3) - 1, Hash(k, 63))
  ELSE IF w <= 34 THEN Wrap(p, Twin(p, 1 + n \div 4, Hash(k, 64)), Pick(Hash(k, 65), 3) - 1, Hash(k, 66))
  ELSE Tree(p, 1 + Pick(Hash(k, 67), n - 1), Hash(k, 68))

\* ---- profiles ---------------------------------------------------------------
AllUn == <<"neg", "sin", "cos", "exp", "ln">>
AllBin == <<"add", "sub", "mul", "div", "pow">>
\* full language
PAll == [leaf |-> <<"var", "var", "var", "small", "small", "int", "rat", "ratr", "real", "realr", "pi", "e", "zero", "one">>,
         vars |-> VarsStd, un |-> AllUn, bin |-> AllBin, pun |-> 30]
\* numbers mostly: what folding works on
PNum == [PAll EXCEPT !.leaf = <<"var", "small", "small", "int", "int", "rat", "ratr", "ratr", "real", "pi", "e", "zero", "one", "one">>]
\* exact numbers only
PExact == [PAll EXCEPT !.leaf = <<"var", "var", "small", "int", "rat", "ratr", "zero", "one">>]
PExactNoExp == [PExact EXCEPT !.un = <<"neg", "sin", "cos", "ln">>]
\* smooth expressions (differentiation, expansion)
PSmooth == [PAll EXCEPT !.leaf = <<"var", "var", "var", "var", "small", "int", "rat", "real", "pi", "e", "one">>,
                       !.bin = <<"add", "sub", "mul", "mul", "div", "pow">>, !.pun = 38]
PNames == [PSmooth EXCEPT !.vars = VarsOdd]
\* limits
PTrig == [leaf |-> <<"var", "var", "var", "var", "small", "small", "rat", "one", "tiny">>, vars |-> <<"x">>,
          un |-> <<"neg", "sin", "cos", "sin", "cos">>, bin |-> <<"add", "sub", "mul", "div">>, pun |-> 35]
PTrigP == [PTrig EXCEPT !.vars = <<"x", "x", "x", "y">>, !.leaf = <<"var", "var", "var", "small", "rat", "zero", "pi", "real">>]
\* near the limits of the representation
PHuge == [PAll EXCEPT !.leaf = <<"var", "small", "big", "huge", "huge", "rat">>, !.un = <<"neg", "sin">>]
=============================================================================
