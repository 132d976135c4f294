-------------------------------- MODULE Sem ---------------------------------
(***************************************************************************)
(* Denotational semantics, written independently of how the library works: *)
(*   Eval    the value of an expression at an assignment                   *)
(*   Dual    value and partial derivative (forward differentiation)        *)
(*   Series  truncated power series around a point                         *)
(*   Germ    local behaviour at a point (Laurent series and limit classes) *)
(* Environments are numbered; SVar(i, x) is the value of x in number i.    *)
(***************************************************************************)
EXTENDS Expr, TLC

\* Environments: 1..6, see Scalar.java.  Eval under environment i with optional
\* overriding of one variable b[1] by the scalar b[2]  (b = <<>> : none).
RECURSIVE EvalB(_, _, _)
EvalB(e, i, b) ==
  LET o == e[1] IN
  IF o = "num" THEN LitVal(e) ELSE
  IF o = "var" THEN (IF b # <<>> /\ b[1] = e[2] THEN b[2] ELSE SVar(i, e[2])) ELSE
  LET u == EvalB(e[2], i, b) IN
  IF o = "neg" THEN SNeg(u) ELSE
  IF o = "sin" THEN SSin(u) ELSE
  IF o = "cos" THEN SCos(u) ELSE
  IF o = "exp" THEN SExp(u) ELSE
  IF o = "ln"  THEN SLn(u) ELSE
  LET v == EvalB(e[3], i, b) IN
  IF o = "add" THEN SAdd(u, v) ELSE
  IF o = "sub" THEN SSub(u, v) ELSE
  IF o = "mul" THEN SMul(u, v) ELSE
  IF o = "div" THEN SDiv(u, v) ELSE SPow(u, v)

Eval(e, i) == EvalB(e, i, <<>>)

\* the same with the variables as narrow balls: nothing about them is decided exactly
RECURSIVE EvalPar(_, _)
EvalPar(e, i) ==
  IF IsNum(e) THEN LitVal(e)
  ELSE IF IsVar(e) THEN SVarB(i, e[2])
  ELSE IF IsUn(e)
  THEN LET u == EvalPar(e[2], i) IN
       IF e[1] = "neg" THEN SNeg(u) ELSE IF e[1] = "sin" THEN SSin(u)
       ELSE IF e[1] = "cos" THEN SCos(u) ELSE IF e[1] = "exp" THEN SExp(u) ELSE SLn(u)
  ELSE LET u == EvalPar(e[2], i)  v == EvalPar(e[3], i) IN
       IF e[1] = "add" THEN SAdd(u, v) ELSE IF e[1] = "sub" THEN SSub(u, v)
       ELSE IF e[1] = "mul" THEN SMul(u, v) ELSE IF e[1] = "div" THEN SDiv(u, v) ELSE SPow(u, v)

\* out is an acceptable stand-in for the value v: no claim where v has no value
Agrees(v, out) == SIsDef(v) => ~SIsUndef(out) /\ ~SDiffer(v, out)

-----------------------------------------------------------------------------
RECURSIVE Dual(_, _, _)
Dual(e, i, x) ==
  LET o == e[1] IN
  IF o = "num" THEN <<LitVal(e), "0">> ELSE
  IF o = "var" THEN <<SVar(i, e[2]), IF e[2] = x THEN "1" ELSE "0">> ELSE
  LET u == Dual(e[2], i, x) IN
  IF o = "neg" THEN <<SNeg(u[1]), SNeg(u[2])>> ELSE
  IF o = "sin" THEN <<SSin(u[1]), SMul(SCos(u[1]), u[2])>> ELSE
  IF o = "cos" THEN <<SCos(u[1]), SNeg(SMul(SSin(u[1]), u[2]))>> ELSE
  IF o = "exp" THEN LET w == SExp(u[1]) IN <<w, SMul(w, u[2])>> ELSE
  IF o = "ln"  THEN LET w == SLn(u[1]) IN
                    <<w, IF SIsUndef(w) THEN w ELSE SDiv(u[2], u[1])>> ELSE
  LET v == Dual(e[3], i, x) IN
  IF o = "add" THEN <<SAdd(u[1], v[1]), SAdd(u[2], v[2])>> ELSE
  IF o = "sub" THEN <<SSub(u[1], v[1]), SSub(u[2], v[2])>> ELSE
  IF o = "mul" THEN <<SMul(u[1], v[1]), SAdd(SMul(u[2], v[1]), SMul(u[1], v[2]))>> ELSE
  IF o = "div" THEN <<SDiv(u[1], v[1]),
                      SDiv(SSub(SMul(u[2], v[1]), SMul(u[1], v[2])), SMul(v[1], v[1]))>> ELSE
  \* u ^ v
  \* a zero base under an exponent with variables: no claim (the derivative may read 0^0)
  IF Vars(e[3]) # {} /\ ~SNonZero(u[1]) THEN <<"undef", "undef">> ELSE
  IF ~Occurs(x, e[3])
  THEN IF SIsInt(v[1])
       THEN IF v[1] = "0" THEN (IF SNonZero(u[1]) THEN <<"1", "0">> ELSE <<"undef", "undef">>)
            ELSE IF v[1] = "1" THEN u
            ELSE <<SPow(u[1], v[1]),
                   SMul(SMul(v[1], SPow(u[1], SSub(v[1], "1"))), u[2])>>
       ELSE IF SSign(u[1]) = 1
            THEN <<SPow(u[1], v[1]), SMul(SMul(v[1], SPow(u[1], SSub(v[1], "1"))), u[2])>>
            ELSE <<"undef", "undef">>
  ELSE IF SSign(u[1]) = 1
       THEN LET w == SPow(u[1], v[1]) IN
            <<w, SMul(w, SAdd(SMul(v[2], SLn(u[1])), SDiv(SMul(v[1], u[2]), u[1])))>>
       ELSE <<"undef", "undef">>

-----------------------------------------------------------------------------
(* Truncated power series: sequences of N+1 scalars, index k+1 = t^k. *)

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN "0" ELSE SAdd(SumTo(f, n - 1), f[n])   \* f: 1..n -> scalar

PConst(c, N) == TLCEval([k \in 1..(N + 1) |-> IF k = 1 THEN c ELSE "0"])
PAdd(a, b) == TLCEval([k \in 1..Len(a) |-> SAdd(a[k], b[k])])
PSub(a, b) == TLCEval([k \in 1..Len(a) |-> SSub(a[k], b[k])])
PNeg(a)    == TLCEval([k \in 1..Len(a) |-> SNeg(a[k])])
PScale(c, a) == TLCEval([k \in 1..Len(a) |-> SMul(c, a[k])])
PMul(a, b) == TLCEval([k \in 1..Len(a) |-> SumTo([j \in 1..k |-> SMul(a[j], b[k + 1 - j])], k)])
PUndef(N) == TLCEval([k \in 1..(N + 1) |-> "undef"])

\* each builds its coefficients left to right; p holds the ones known so far
RECURSIVE PDivAux(_, _, _)
PDivAux(p, a, b) ==
  IF Len(p) >= Len(a) THEN p
  ELSE LET k == Len(p) + 1 IN
       PDivAux(Append(p, SDiv(SSub(a[k], SumTo([j \in 1..(k - 1) |-> SMul(p[j], b[k + 1 - j])], k - 1)), b[1])),
               a, b)
PDiv(a, b) == PDivAux(<<>>, a, b)
\* exp: n*c_n = sum_{k=1..n} k*u_k*c_{n-k}
RECURSIVE PExpAux(_, _)
PExpAux(p, u) ==
  IF Len(p) >= Len(u) THEN p
  ELSE LET n == Len(p) IN
       PExpAux(Append(p, SDiv(SumTo([k \in 1..n |-> SMul(SMul(SInt(k), u[k + 1]), p[n - k + 1])], n), SInt(n))), u)
PExp(u) == PExpAux(<<SExp(u[1])>>, u)
\* ln: c_n = (u_n - (1/n) sum_{k=1..n-1} k*c_k*u_{n-k}) / u_0
RECURSIVE PLnAux(_, _)
PLnAux(p, u) ==
  IF Len(p) >= Len(u) THEN p
  ELSE LET n == Len(p) IN
       PLnAux(Append(p, SDiv(SSub(u[n + 1],
                SDiv(SumTo([k \in 1..(n - 1) |-> SMul(SMul(SInt(k), p[k + 1]), u[n - k + 1])], n - 1), SInt(n))),
              u[1])), u)
PLn(u) == PLnAux(<<SLn(u[1])>>, u)
\* sin and cos together: pairs
RECURSIVE PSinCosAux(_, _, _)
PSinCosAux(s, c, u) ==
  IF Len(s) >= Len(u) THEN <<s, c>>
  ELSE LET n == Len(s)
           sn == SDiv(SumTo([k \in 1..n |-> SMul(SMul(SInt(k), u[k + 1]), c[n - k + 1])], n), SInt(n))
           cn == SNeg(SDiv(SumTo([k \in 1..n |-> SMul(SMul(SInt(k), u[k + 1]), s[n - k + 1])], n), SInt(n)))
       IN PSinCosAux(Append(s, sn), Append(c, cn), u)
PSinCos(u) == PSinCosAux(<<SSin(u[1])>>, <<SCos(u[1])>>, u)

RECURSIVE PIntPow(_, _)
PIntPow(u, n) ==
  IF n = 1 THEN u
  ELSE IF n % 2 = 0 THEN LET h == PIntPow(u, n \div 2) IN PMul(h, h)
  ELSE PMul(u, PIntPow(u, n - 1))
\* u^r, r constant, u_0 > 0:  p_k = (1/(k u0)) sum_{j=1..k} (j r - (k - j)) u_j p_{k-j}
RECURSIVE PConstPowAux(_, _, _)
PConstPowAux(p, u, r) ==
  IF Len(p) >= Len(u) THEN p
  ELSE LET k == Len(p) IN
       PConstPowAux(Append(p, SDiv(SumTo([j \in 1..k |->
                       SMul(SSub(SMul(SInt(j), r), SInt(k - j)), SMul(u[j + 1], p[k - j + 1]))], k),
                     SMul(SInt(k), u[1]))), u, r)
PConstPow(u, r) == PConstPowAux(<<SPow(u[1], r)>>, u, r)

SmallInt(s) == SIsInt(s) /\ ~SLt("60", s) /\ ~SLt(s, "-60")

RECURSIVE Series(_, _, _, _, _)
Series(e, i, x, a, N) ==
  LET o == e[1] IN
  IF o = "num" THEN PConst(LitVal(e), N) ELSE
  IF o = "var" THEN (IF e[2] = x
                     THEN TLCEval([k \in 1..(N + 1) |-> IF k = 1 THEN a ELSE IF k = 2 THEN "1" ELSE "0"])
                     ELSE PConst(SVar(i, e[2]), N)) ELSE
  LET u == Series(e[2], i, x, a, N) IN
  IF o = "neg" THEN PNeg(u) ELSE
  IF o = "sin" THEN PSinCos(u)[1] ELSE
  IF o = "cos" THEN PSinCos(u)[2] ELSE
  IF o = "exp" THEN PExp(u) ELSE
  IF o = "ln"  THEN PLn(u) ELSE
  LET v == Series(e[3], i, x, a, N) IN
  IF o = "add" THEN PAdd(u, v) ELSE
  IF o = "sub" THEN PSub(u, v) ELSE
  IF o = "mul" THEN PMul(u, v) ELSE
  IF o = "div" THEN PDiv(u, v) ELSE
  IF Vars(e[3]) # {} /\ ~SNonZero(u[1]) THEN PUndef(N) ELSE
  IF ~Occurs(x, e[3])
  THEN IF SmallInt(v[1])
       THEN LET n == SToInt(v[1]) IN
            IF n = 0 THEN (IF SNonZero(u[1]) THEN PConst("1", N) ELSE PUndef(N))
            ELSE IF n > 0 THEN PIntPow(u, n)
            ELSE PDiv(PConst("1", N), PIntPow(u, 0 - n))
       ELSE IF SSign(u[1]) = 1 THEN PConstPow(u, v[1]) ELSE PUndef(N)
  ELSE IF SSign(u[1]) = 1 THEN PExp(PMul(v, PLn(u))) ELSE PUndef(N)

SeriesDef(p) == \A k \in 1..Len(p) : SIsDef(p[k])
=============================================================================
