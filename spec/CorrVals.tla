------------------------------ MODULE CorrVals ------------------------------
(* Quantities created from a covariance (or correlation) matrix, and what is *)
(* calculated from them.                                                     *)
(*                                                                           *)
(* A quantity is a nominal value and an integer vector (its coordinates on   *)
(* independent variables, with a standard deviation 2^-s: 1 for most, much   *)
(* smaller for some, which gives almost singular matrices): the covariance   *)
(* of two quantities is the sum over s of 2^(-2s) times the scalar product   *)
(* of their vectors restricted to the variables of scale s. This             *)
(* represents exactly any covariance   *)
(* matrix L.Lt with an integer L: full rank or singular, with null rows      *)
(* (exact quantities), repeated or opposite rows, etc. The implementation    *)
(* only gets the covariance (or correlation) matrix.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim, MaxLen, MaxN, MaxK, MaxE, MaxObjs

VARIABLES objs,
    sc,      \* scales of the independent variables
    log, done
vs == <<objs, sc, log, done>>
dims == Len(sc)
\* Possible scales
Scales == <<0, 9, 16, 18>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

\* Scalar product of vectors of different lengths (missing coordinates are 0), for the
\* variables of scale x
At(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
CovS(a, b, x, scs) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
    FoldLeftDomain(LAMBDA acc, i : IF i > n THEN acc ELSE IF scs[i] = x THEN acc + a[i]*b[i] ELSE acc, 0, scs)
CovAt(a, b, used, scs) == [x \in 1..Len(Scales) |-> IF Scales[x] \in used THEN CovS(a, b, Scales[x], scs) ELSE 0]
CovMat(q, scs) == LET used == Range(scs) IN
    [i \in 1..Len(q) |-> [j \in 1..Len(q) |-> CovAt(q[i].g, q[j].g, used, scs)]]

Zeros(n) == [i \in 1..n |-> 0]
MaxL(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
Comb(x, a, y, b) == [i \in 1..MaxL(a, b) |-> x*At(a, i) + y*At(b, i)]

Running == ~done /\ Len(log) < MaxLen
Log(e) == log' = Append(log, e) /\ done' = done

\* Rows of the block: integer vectors, on k new dimensions
Rows(n, k) == IF Sim
    THEN {[i \in 1..n |-> LET kind == RandomElement(1..8)
                          IN [j \in 1..k |-> IF kind = 1 THEN 0
                                             ELSE RandomElement(-MaxE..MaxE)]]}
    ELSE [1..n -> [1..k -> -MaxE..MaxE]]
Units(n) == IF Sim THEN {[i \in 1..n |-> RandomElement(IF RandomElement(1..2) = 1 THEN {0, 7} ELSE {0, 7, 40, -40, 200, -200, 480, -490, -500})]}
            ELSE {[i \in 1..n |-> 0]}
NewScales(k) == IF Sim THEN {[i \in 1..k |-> IF RandomElement(1..3) = 1 THEN Scales[RandomElement(1..Len(Scales))] ELSE 0]}
                ELSE {[i \in 1..k |-> 0]}
Noms(n) == IF Sim THEN {[i \in 1..n |-> RandomElement(-9..9)]} ELSE {[i \in 1..n |-> 2*i]}

\* how: "cov" (covariance matrix), "corr0"/"corr1" (correlation matrix, with 0
\* or 1 on the diagonal for exact quantities); tags: given and their container;
\* ty: kind of container of the matrix, vt: of the values
Block ==
    /\ Running
    /\ \E n \in Pick(1..MaxN), k \in Pick(1..MaxK), how \in Pick({"cov", "corr0", "corr1"}),
          ty \in Pick({"array", "list"} \cup (IF Sim THEN {"tuple", "int", "fortran", "strided", "readonly",
                                                          "npmatrix"} ELSE {})),
          vt \in Pick({"list"} \cup (IF Sim THEN {"tuple", "array", "strided", "readonly"} ELSE {})),
          tags \in Pick({"no", "list"} \cup (IF Sim THEN {"tuple", "array", "same", "objects"} ELSE {})) :
       \E L \in Rows(n, k), u \in Units(n), nom \in Noms(n), ns \in NewScales(k) :
         /\ Len(objs) + n <= MaxObjs
         /\ LET new == [i \in 1..n |-> [n |-> nom[i], g |-> Zeros(dims) \o L[i]]]
            IN /\ objs' = objs \o new
               /\ sc' = sc \o ns
               /\ Log([a |-> "block", how |-> how, ty |-> ty, tags |-> tags, u |-> u, vt |-> vt,
                       nom |-> nom, cov |-> CovMat(new, sc \o ns), r |-> Len(objs) + 1])

\* Quantities with the covariance matrix of existing ones, but independent of
\* them (the matrix is the one calculated by the implementation)
Again ==
    /\ Running /\ objs # << >>
    /\ \E n \in Pick(1..MaxN) : \E ix \in (IF Sim THEN {[i \in 1..n |-> RandomElement(1..Len(objs))]}
                                           ELSE [1..n -> 1..Len(objs)]) :
         /\ Len(objs) + n <= MaxObjs
         /\ objs' = objs \o [i \in 1..n |-> [n |-> objs[ix[i]].n,
                                            g |-> Zeros(dims) \o objs[ix[i]].g]]
         /\ sc' = sc \o sc
         /\ dims <= 40
         /\ Log([a |-> "again", ix |-> ix, r |-> Len(objs) + 1])

Small(o) == /\ o.n \in -200..200
            /\ \A i \in 1..Len(o.g) : o.g[i] \in -300..300
Push(o, e) == /\ Len(objs) < MaxObjs
              /\ Small(o)
              /\ objs' = Append(objs, o) /\ sc' = sc
              /\ Log(e @@ ("r" :> Len(objs) + 1))
Lin == /\ Running /\ objs # << >>
       /\ \E i \in Pick(1..Len(objs)), j \in Pick(1..Len(objs)), x \in Pick(-3..3),
             y \in Pick(-3..3) :
            Push([n |-> x*objs[i].n + y*objs[j].n, g |-> Comb(x, objs[i].g, y, objs[j].g)],
                 [a |-> "lin", i |-> i, j |-> j, x |-> x, y |-> y])
Mul == /\ Running /\ objs # << >>
       /\ \E i \in Pick(1..Len(objs)), j \in Pick(1..Len(objs)) :
            Push([n |-> objs[i].n * objs[j].n,
                  g |-> Comb(objs[j].n, objs[i].g, objs[i].n, objs[j].g)],
                 [a |-> "mul", i |-> i, j |-> j])

Finish == /\ ~done /\ objs # << >> /\ (Len(log) = MaxLen \/ (Sim /\ RandomElement(1..12) = 1))
          /\ done' = TRUE /\ UNCHANGED <<objs, sc, log>>
          /\ PrintT("@@" \o ToJson([log |-> log, n |-> [i \in 1..Len(objs) |-> objs[i].n],
                                    cov |-> CovMat(objs, sc)]))

Init == objs = << >> /\ sc = << >> /\ log = << >> /\ done = FALSE
Next == Block \/ Again \/ Lin \/ Mul \/ Finish
Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
Indices == 1..Len(objs)
C(i, j, x) == CovS(objs[i].g, objs[j].g, x, sc)
Used == Range(sc)
\* The covariance matrices are valid ones
Symmetric == \A i, j \in Indices : \A x \in Used : C(i, j, x) = C(j, i, x)
Positive == \A i \in Indices : \A x \in Used : C(i, i, x) >= 0
\* An exact quantity is correlated to nothing
ExactUncorrelated == \A i, j \in Indices : \A x \in Used : C(i, i, x) = 0 => C(i, j, x) = 0
\* 2x2 minors are positive (Cauchy-Schwarz)
Minors == \A i, j \in Indices : \A x \in Used :
    C(i, i, x) < 30000 /\ C(j, j, x) < 30000 => C(i, j, x) * C(i, j, x) <= C(i, i, x) * C(j, j, x)
=============================================================================
