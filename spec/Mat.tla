-------------------------------- MODULE Mat --------------------------------
(* Inverse and pseudo-inverse of matrices of quantities, with exact rational *)
(* arithmetic (integer matrices and a common denominator).                   *)
(*                                                                           *)
(* An element is c + sum of coef[k]*v[k], for variables v[k]: the derivative *)
(* of the matrix with respect to variable k is an integer matrix.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Sim, MaxN, MaxM, MaxE, MaxV, MaxC, MaxElem, Ways

VARIABLES phase, case, res
vs == <<phase, case, res>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Rnd(S, dummy) == RandomElement(S)

-----------------------------------------------------------------------------
\* Integer matrices: sequences of rows
NR(a) == Len(a)
NC(a) == Len(a[1])
MatOf(n, m, F(_, _)) == TLCEval([i \in 1..n |-> [j \in 1..m |-> F(i, j)]])
TrV(a) == MatOf(NC(a), NR(a), LAMBDA i, j : a[j][i])
Tr(a0) == CHOOSE x \in {TrV(a) : a \in {a0}} : TRUE
SumN(n, F(_)) == FoldLeftDomain(LAMBDA acc, i : acc + F(i), 0, [i \in 1..n |-> 0])
\* (Bound to values: TLC would calculate the arguments again for each element)
The(S) == CHOOSE x \in S : TRUE
MulV(a, b) == MatOf(NR(a), NC(b), LAMBDA i, j : SumN(NC(a), LAMBDA k : a[i][k]*b[k][j]))
Mul(a0, b0) == The({MulV(a, b) : a \in {a0}, b \in {b0}})
AddV(a, b) == MatOf(NR(a), NC(a), LAMBDA i, j : a[i][j] + b[i][j])
Add(a0, b0) == The({AddV(a, b) : a \in {a0}, b \in {b0}})
ScaleV(x, a) == MatOf(NR(a), NC(a), LAMBDA i, j : x*a[i][j])
Scale(x0, a0) == The({ScaleV(x, a) : x \in {x0}, a \in {a0}})
Neg(a) == Scale(-1, a)
Id(n) == MatOf(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Zero(n, m) == MatOf(n, m, LAMBDA i, j : 0)
Minor(a, i, j) == MatOf(NR(a)-1, NC(a)-1,
    LAMBDA x, y : a[IF x < i THEN x ELSE x+1][IF y < j THEN y ELSE y+1])
RECURSIVE Det(_)
Det(a) == IF NR(a) = 0 THEN 1 ELSE IF NR(a) = 1 THEN a[1][1]
          ELSE SumN(NR(a), LAMBDA j : IF a[1][j] = 0 THEN 0
                   ELSE (IF j % 2 = 1 THEN 1 ELSE -1)*a[1][j]*Det(Minor(a, 1, j)))
AdjV(a) == IF NR(a) = 1 THEN <<<<1>>>>
          ELSE MatOf(NR(a), NR(a), LAMBDA i, j :
                  (IF (i+j) % 2 = 0 THEN 1 ELSE -1)*Det(Minor(a, j, i)))

Adj(a0) == The({AdjV(a) : a \in {a0}})

\* Inverse: [num, den], derivatives: numerators over den^2
Inv(a) == [num |-> Adj(a), den |-> Det(a)]
DInv(a, d) == Neg(Mul(Mul(Adj(a), d), Adj(a)))

\* Pseudo-inverse, from its definition for full column rank: G^-1 At with G = At A
ColG(a) == Mul(Tr(a), a)
PinvC(a) == [num |-> Mul(Adj(ColG(a)), Tr(a)), den |-> Det(ColG(a))]
DPinvC(a0, d0) == The({
    Add(Neg(Mul(Mul(Mul(adj, Add(Mul(Tr(d), a), Mul(Tr(a), d))), adj), Tr(a))),
        Scale(Det(ColG(a)), Mul(adj, Tr(d))))
    : a \in {a0}, d \in {d0}, adj \in {Adj(ColG(a0))}})
\* Full row rank: the transposed problem
PinvR(a) == [num |-> Tr(PinvC(Tr(a)).num), den |-> PinvC(Tr(a)).den]
DPinvR(a, d) == Tr(DPinvC(Tr(a), Tr(d)))
Tall(a) == NR(a) >= NC(a)
FullRank(a) == IF Tall(a) THEN Det(ColG(a)) # 0 ELSE Det(ColG(Tr(a))) # 0
Pinv(a) == IF Tall(a) THEN PinvC(a) ELSE PinvR(a)
DPinv(a, d) == IF Tall(a) THEN DPinvC(a, d) ELSE DPinvR(a, d)

-----------------------------------------------------------------------------
\* Building a matrix: vn: values of the variables; elements: [c, co]
Nom(vn, el) == el.c + SumN(Len(vn), LAMBDA k : el.co[k]*vn[k])
A(case_) == MatOf(Len(case_.el), Len(case_.el[1]), LAMBDA i, j : Nom(case_.vn, case_.el[i][j]))
D(case_, k) == MatOf(Len(case_.el), Len(case_.el[1]), LAMBDA i, j : case_.el[i][j].co[k])

Zeros(n) == [k \in 1..n |-> 0]
One(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
\* A random element: plain, a variable, a combination
RndEl(vn, d) ==
    LET nv == Len(vn)
        kind == IF nv = 0 THEN 1 ELSE Rnd(1..5, d)
    IN CASE kind = 1 -> [c |-> Rnd(-MaxE..MaxE, d), co |-> Zeros(nv)]
         [] kind \in 2..3 -> [c |-> 0, co |-> One(nv, Rnd(1..nv, d))]
         [] OTHER -> LET co == TLCEval([k \in 1..nv |-> Rnd({0, 0, 1} \cup (-MaxC..MaxC), <<d, k>>)])
                     IN [c |-> Rnd(-MaxE..MaxE, d) - SumN(nv, LAMBDA k : co[k]*vn[k]), co |-> co]
\* Each element its own variable, or some
RndOwn(n, m, vn) ==
    MatOf(n, m, LAMBDA i, j :
        LET k == (i-1)*m + j
        IN IF k <= Len(vn) THEN [c |-> 0, co |-> One(Len(vn), k)]
           ELSE [c |-> Rnd(-MaxE..MaxE, <<vn, i, j>>), co |-> Zeros(Len(vn))])
\* Symmetric with shared elements
RndSym(n, vn) ==
    LET up == TLCEval([i \in 1..n |-> [j \in 1..n |-> RndEl(vn, <<i, j, vn>>)]])
    IN MatOf(n, n, LAMBDA i, j : IF i <= j THEN up[i][j] ELSE up[j][i])

\* How the contents came there: "new": the container is created with them;
\* "assigned", "row": it had other contents, was inverted, then its elements (or
\* its rows) were replaced; "again": it was inverted before, and what was obtained
\* was modified. The result only depends on the current contents.
Forms == {"list", "ndarray", "npmatrix", "umatrix"}
SDs == {"0.1", "0", "2", "1e-3", "0.5"}
Fresh == [el |-> << >>, vn |-> << >>, sd |-> << >>, form |-> "", f |-> "", scale |-> 0,
          rows |-> << >>, arg |-> "", fill |-> "new"]

BuildSim ==
    \E n \in Pick(1..MaxN), m0 \in Pick(1..MaxM), sq \in Pick({TRUE, TRUE, FALSE}), nv \in Pick(0..MaxV),
       form \in Pick(Forms), style \in Pick({"own", "mix", "mix", "sym"}), f \in Pick(Ways \ {"cut"}),
       scale \in Pick({0, 0, 7, -30, 40}) :
      LET sqr == sq \/ f \in {"inv", "wrapped"}
          m == IF sqr THEN n ELSE m0
          count == IF style = "own" /\ nv = 0 THEN n*m ELSE nv
      IN \E vn \in {TLCEval([k \in 1..count |-> Rnd(-MaxE..MaxE, <<n, k, case>>)])} :
         \E el \in {TLCEval(IF style = "own" THEN RndOwn(n, m, vn)
                ELSE IF style = "sym" /\ n = m THEN RndSym(n, vn)
                ELSE MatOf(n, m, LAMBDA i, j : RndEl(vn, <<i, j, vn>>)))} :
         case' = TLCEval([Fresh EXCEPT !.el = el, !.vn = vn, !.form = form, !.f = f, !.scale = scale,
                  !.sd = [k \in 1..Len(vn) |-> Rnd(SDs, <<n, k>>)],
                  !.rows = [i \in 1..n |-> IF f = "inv" THEN Rnd({0, 0, 0, 3, -5, 20}, <<i, vn>>)
                                           ELSE 0],
                  !.arg = Rnd({"", "1e-10", "rcond=1e-12"}, vn),
                  !.fill = Rnd({"new", "new", "assigned", "row", "again"}, <<vn, el>>)])
\* Small matrices, each element plain or a variable; or all of them the same one
BuildAll ==
    \E n \in 1..MaxN, m \in 1..MaxM, f \in Ways, form \in {"list", "npmatrix"} :
    \E a \in [1..n -> [1..m -> 0..MaxE]], own \in SUBSET (1..n*m), same \in {TRUE, FALSE} :
      /\ f = "inv" => n = m
      /\ same => \A i \in 1..n : \A j \in 1..m : ((i-1)*m + j) \in own => a[i][j] = a[1][1]
      /\ case' = LET idx == SetToSortSeq(own, <)
                     nv == IF same THEN (IF own = {} THEN 0 ELSE 1) ELSE Cardinality(own)
                     At(k) == a[((k-1) \div m) + 1][((k-1) % m) + 1]
                     vn == [k \in 1..nv |-> At(idx[k])]
                 IN [Fresh EXCEPT
                     !.el = MatOf(n, m, LAMBDA i, j :
                        LET k == (i-1)*m + j
                        IN IF k \notin own THEN [c |-> a[i][j], co |-> Zeros(nv)]
                           ELSE [c |-> IF same THEN a[i][j] - a[1][1] ELSE 0,
                                 co |-> One(nv, IF same THEN 1 ELSE CHOOSE x \in 1..nv : idx[x] = k)]),
                     !.vn = IF same /\ nv = 1 THEN <<a[1][1]>> ELSE vn,
                     !.sd = [k \in 1..nv |-> "0.5"], !.form = form, !.f = f,
                     !.rows = [i \in 1..n |-> 0]]

\* What can be calculated
Square(c) == Len(c.el) = Len(c.el[1])
Possible(c) == IF c.f \in {"inv", "wrapped"} THEN Square(c) /\ Det(A(c)) # 0 ELSE FullRank(A(c))
Result(c) ==
    LET a == A(c) r == IF c.f \in {"inv", "wrapped"} THEN Inv(a) ELSE Pinv(a)
    IN [num |-> r.num, den |-> r.den,
        d |-> [k \in 1..Len(c.vn) |->
                 IF c.f \in {"inv", "wrapped"} THEN DInv(a, D(c, k)) ELSE DPinv(a, D(c, k))]]

\* Pseudo-inverse with a cut-off: U.S.V with U and V 5 times orthogonal (or
\* orthogonal): the singular values are known. S: <<m, e>> means m*2^e
Orth == {<<<<1, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<-1, 0>>>>, <<<<3, 4>>, <<-4, 3>>>>,
         <<<<4, -3>>, <<3, 4>>>>, <<<<0, 5>>, <<5, 0>>>>}
Orth3 == {<<<<2, -1, 2>>, <<2, 2, -1>>, <<-1, 2, 2>>>>, <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>,
          <<<<0, 3, 4>>, <<0, -4, 3>>, <<5, 0, 0>>>>}
BuildCut ==
    \E n \in Pick({2, 3}) :
    \E u \in Pick(IF n = 2 THEN Orth ELSE Orth3), v \in Pick(IF n = 2 THEN Orth ELSE Orth3),
       e \in {TLCEval([i \in 1..n |-> Rnd({0, -10, -20, -34, 99}, <<case, i>>)])},
       rc \in Pick({"0", "default", "-5", "-15", "-27", "kw-15", "pos-27"}), form \in Pick(Forms),
       wide \in Pick({0, 1, 2}) :
         case' = [cut |-> TRUE, u |-> u, v |-> v, e |-> e, rc |-> rc, form |-> form, wide |-> wide,
                  f |-> "cut"]
\* Exponent of the cut-off (relative to the largest singular value; 99: a zero value)
RcExp(rc) == CASE rc = "0" -> -100 [] rc = "default" -> -49 [] rc = "-5" -> -5
                [] rc \in {"-15", "kw-15"} -> -15 [] OTHER -> -27
CutKept(c) == LET nz == {c.e[i] : i \in 1..Len(c.e)} \ {99}
                  top == IF nz = {} THEN 0 ELSE Max(nz)
              IN [i \in 1..Len(c.e) |-> c.e[i] # 99 /\ c.e[i] > top + RcExp(c.rc)]

\* Larger matrices: products of elementary matrices Id + c E_ij, E_ij being 0 but in
\* (i, j). The inverse is the product of the matrices Id - c E_ij, in reverse order.
\* Derivatives with respect to a few elements, found in several places
Elem(n, o) == MatOf(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE IF i = o.i /\ j = o.j THEN o.c ELSE 0)
BuildElem ==
    \* (few operations for numerical derivatives)
    \E f \in Pick({"inv", "pinv", "attr", "wrapped"}) :
    \E n \in Pick(4..MaxElem), k \in Pick(IF f = "wrapped" THEN 1..3 ELSE 2..14), nv \in Pick({0, 1, 2, 4, 4}), form \in Pick(Forms),
       arg \in Pick({"", "1e-10"}) :
    \E ops \in {TLCEval([x \in 1..k |-> LET i == Rnd(1..n, <<case, x>>)
                                         j == Rnd((1..n) \ {i}, <<case, x>>)
                                     IN [i |-> i, j |-> j, c |-> Rnd({1, -1, 1, -1, 2}, <<case, x>>)]])},
       place \in {TLCEval([i \in 1..n |-> [j \in 1..n |->
                      IF nv = 0 \/ Rnd(1..3, <<i, j, case>>) > 1 THEN 0 ELSE Rnd(1..nv, <<i, j, case>>)]])} :
    \E a \in {FoldLeft(LAMBDA acc, o : Mul(acc, Elem(n, o)), Id(n), ops)},
       b \in {FoldLeft(LAMBDA acc, o : Mul(Elem(n, [o EXCEPT !.c = -@]), acc), Id(n), ops)} :
      case' = TLCEval([Fresh EXCEPT !.f = f, !.form = form, !.arg = arg, !.scale = 0,
                 !.vn = [x \in 1..nv |-> x], !.sd = [x \in 1..nv |-> "0.5"],
                 !.el = MatOf(n, n, LAMBDA i, j :
                     IF place[i][j] = 0 THEN [c |-> a[i][j], co |-> Zeros(nv)]
                     ELSE [c |-> a[i][j] - place[i][j], co |-> One(nv, place[i][j])]),
                 !.rows = [i \in 1..n |-> 0]]) @@ [elem |-> b]

IsElem == "elem" \in DOMAIN case
ElemResult(c) == [num |-> c.elem, den |-> 1,
                  d |-> [k \in 1..Len(c.vn) |-> Neg(Mul(Mul(c.elem, D(c, k)), c.elem))]]
IsCut == "cut" \in DOMAIN case
Init == phase = "start" /\ case = Fresh /\ res = << >>
Build == /\ phase = "start" /\ phase' = "built" /\ UNCHANGED res
         /\ IF Sim /\ MaxElem > 0 THEN BuildElem
            ELSE IF Sim THEN (IF "cut" \in Ways /\ RandomElement(1..4) = 1 /\ case = Fresh THEN BuildCut ELSE BuildSim)
            ELSE BuildAll
Emit(r) == PrintT("@@" \o ToJson([case |-> case, r |-> r,
              a |-> IF IsCut THEN << >> ELSE A(case)]))
Solve ==
    /\ phase = "built" /\ phase' = "done" /\ UNCHANGED case
    /\ IF IsCut
       THEN res' = CutKept(case) /\ Emit([kept |-> CutKept(case)])
       ELSE IF IsElem
       THEN \E r \in {ElemResult(case)} : res' = r /\ Emit(r)
       ELSE IF Possible(case)
       THEN res' = Result(case) /\ Emit(Result(case))
       ELSE /\ res' = << >>
            /\ IF case.f = "inv" /\ \E i \in 1..Len(case.el) : \A j \in 1..Len(case.el[1]) : A(case)[i][j] = 0
               THEN Emit([singular |-> TRUE]) ELSE TRUE
Next == Build \/ Solve
Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
\* What is calculated is an inverse, and its derivatives are the ones obtained by
\* differentiation of the definitions
Done == phase = "done" /\ ~IsCut /\ res # << >>
InverseOk == Done /\ (IsElem \/ case.f \in {"inv", "wrapped"}) =>
    LET a == A(case) n == NR(a)
    IN /\ Mul(a, res.num) = Scale(res.den, Id(n))
       /\ Mul(res.num, a) = Scale(res.den, Id(n))
       \* d(A A^-1) = 0
       /\ \A k \in 1..Len(case.vn) :
            Add(Scale(res.den, Mul(D(case, k), res.num)), Mul(a, res.d[k])) = Zero(n, n)
PinvOk == Done /\ ~IsElem /\ case.f \notin {"inv", "wrapped"} =>
    LET a == A(case) p == res.num g == res.den
        ap == Mul(a, p) pa == Mul(p, a)
    IN /\ Mul(ap, a) = Scale(g, a)
       /\ Tr(ap) = ap /\ Tr(pa) = pa
       \* d(A P A) = dA
       /\ \A k \in 1..Len(case.vn) :
            LET d == D(case, k)
            IN Add(Add(Scale(g, Mul(Mul(d, p), a)), Mul(Mul(a, res.d[k]), a)),
                   Scale(g, Mul(ap, d))) = Scale(g*g, d)
\* Equal to the inverse for invertible matrices
SameAsInverse == Done /\ ~IsElem /\ Square(case) =>
    LET a == A(case) i == Inv(a) p == Pinv(a) IN Scale(i.den, p.num) = Scale(p.den, i.num)
=============================================================================
