-------------------------------- MODULE Wide --------------------------------
(* Quantities that depend on many independent variables, with magnitudes     *)
(* that differ widely.                                                       *)
(*                                                                           *)
(* Variable v has nominal value u*2^-ce and standard deviation k*2^se (or    *)
(* NaN: k = -1). It is used through the quantities w_v = 2^ce * v, whose     *)
(* nominal value is the integer u. The quantities of the user are            *)
(* combinations of the w_v with integer coefficients c: their nominal value  *)
(* is the integer Sum c_v*u_v, the derivative with respect to v is           *)
(* c_v*2^ce, the component of the uncertainty is |c_v|*k*2^(ce+se), and the  *)
(* covariance of two quantities is the sum of c_v*c'_v*k^2*2^(2*(ce+se)).    *)
(* All of them are exact in binary floating-point, whatever the order of the *)
(* operations: only the exponents have to be carried along.                  *)
(*                                                                           *)
(* A coefficient that is 0 because terms cancel is 0 exactly.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS
    Acts,        \* names of the actions that can be taken
    Sizes,       \* possible numbers of variables
    Ranges,      \* possible ranges of the exponents
    MaxObjs, MaxLen, MaxTerms

VARIABLES vars, objs, log, mode, done
vs == <<vars, objs, log, mode, done>>

AbsI(i) == IF i < 0 THEN -i ELSE i
MaxC == 3000

\* Random numbers: a new one for each call, as they depend on the state
Rnd(S) == RandomElement(IF Len(log) >= 0 THEN S ELSE {})
Pk(S) == {Rnd(S)}        \* (drawn once, when used as a bound)

-----------------------------------------------------------------------------
(* The variables *)

\* ce + se (size of the components); ce
Total(range) ==
    CASE range = "flat" -> 0
      [] range = "near" -> Rnd(-20..20)
      [] range = "wide" -> IF Rnd(1..2) = 1 THEN Rnd(-450..430) ELSE Rnd(-60..60)
      [] range = "tiny" -> Rnd(-1015..-950)
      [] range = "huge" -> Rnd(900..965)
      [] range = "mixed" -> IF Rnd(1..3) = 1 THEN Rnd(-1000..-900) ELSE Rnd(-600..300)
Coef(range) == CASE range = "flat" -> 0
                 [] range = "near" -> Rnd(-10..10)
                 [] OTHER -> IF Rnd(1..3) = 1 THEN Rnd(-5..5) ELSE Rnd(-500..500)
MinE == -1050
MaxE == 1000
RndK(nan, zeros) ==
    LET r == Rnd(1..20)
    IN CASE r = 1 -> IF nan THEN -1 ELSE 0
         [] r \in 2..zeros -> 0
         [] OTHER -> Rnd(1..7)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* (the standard deviation must be a normal float too)
MkVar(range, nan, tag) ==
    CHOOSE r \in {[u |-> Rnd(-3..3), ce |-> tot - Clip(tot - ce0, MinE, MaxE),
                   se |-> Clip(tot - ce0, MinE, MaxE), t |-> tag, k |-> RndK(nan, 3)]
                    : tot \in {Total(range)}, ce0 \in {Coef(range)}} : TRUE
TagFor(tm, i) == CASE tm = "unique" -> i [] tm = "none" -> 0 [] tm = "few" -> Rnd(0..2)
\* New standard deviations for v: the range of the components is kept
NewDev(v) == {[k |-> RndK(mode.nan, 4), se |-> Clip(tot - vars[v].ce, MinE, MaxE)]
                 : tot \in {Total(mode.range)}}

Vars == 1..Len(vars)
Objs == 1..Len(objs)

-----------------------------------------------------------------------------
(* Quantities: coefficients *)

Get(c, v) == IF v \in DOMAIN c THEN c[v] ELSE 0
Lin(a, c, b, d) == [v \in DOMAIN c \cup DOMAIN d |-> a * Get(c, v) + b * Get(d, v)]
Nominal(c) == FoldSet(LAMBDA v, acc : acc + c[v] * vars[v].u, 0, DOMAIN c)
Small(c) == \A v \in DOMAIN c : AbsI(c[v]) <= MaxC

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Coefs(c) == CHOOSE r \in {[i \in 1..Len(s) |-> <<s[i], c[s[i]]>>] : s \in {Sorted(DOMAIN c)}} : TRUE
Devs(c) == CHOOSE r \in {[i \in 1..Len(s) |-> <<vars[s[i]].k, vars[s[i]].se>>] : s \in {Sorted(DOMAIN c)}} : TRUE
\* What is read: coefficients, and the standard deviations that go with them
View(c) == [c |-> Coefs(c), n |-> Nominal(c),
            s |-> Devs(c)]

\* Covariance: terms <<variable, c_v, c'_v>>
CovTerms(c, d) ==
    CHOOSE r \in {[i \in 1..Len(s) |-> <<s[i], c[s[i]], d[s[i]]>>] : s \in {Sorted(
        {v \in DOMAIN c \cap DOMAIN d : vars[v].k # 0 /\ c[v] # 0 /\ d[v] # 0})}} : TRUE

\* Is the uncertainty of a combination exactly 0?
NoUncert(c) == \A v \in DOMAIN c : c[v] = 0 \/ vars[v].k = 0
Exact(c) == \A v \in DOMAIN c : ~(c[v] = 0 /\ vars[v].k = -1)   \* (otherwise not specified)

-----------------------------------------------------------------------------
(* Actions *)

Running == ~done /\ Len(log) < MaxLen
On(a) == Running /\ a \in Acts
Log(e) == log' = Append(log, e) /\ UNCHANGED <<done, mode>>
Same == UNCHANGED <<vars, objs>>
Room(n) == Len(objs) + n <= MaxObjs
Push(c0, e) == \E c \in {TLCEval(c0)} :
              /\ Small(c)
              /\ objs' = Append(objs, c)
              /\ UNCHANGED vars
              /\ Log(e @@ ("r" :> Len(objs) + 1))

\* Sums of terms +w or -w, in an order given by a start, a step, a number of
\* terms (terms can be repeated), calculated in different ways. 'start' is a quantity too,
\* or 0 (none)
Forms == {"left", "right", "balanced", "sum", "fsum", "npsum", "npdot", "wrap", "iadd", "chunks", "mul"}
Signs == {"plus", "minus", "alt", "mod3"}
Sign(sg, x) == CASE sg = "plus" -> 1
                 [] sg = "minus" -> -1
                 [] sg = "alt" -> IF x % 2 = 0 THEN 1 ELSE -1
                 [] sg = "mod3" -> (x % 3) - 1
Sum(idx, sg) ==
    FoldLeft(LAMBDA acc, x : [acc EXCEPT ![idx[x]] = @ + Sign(sg, x)],
             [v \in Range(idx) |-> 0], [x \in 1..Len(idx) |-> x])
Walk(first, step, n) == [x \in 1..n |-> ((first - 1 + (x - 1) * step) % Len(vars)) + 1]
PatLen(N) == IF N > 1000 THEN Rnd({N, N - 1, N \div 2}) ELSE Clip(Rnd({1, 2, 3, N \div 2, N, N, N + 3}), 1, MaxTerms)
PatStep(N) == Clip(Rnd({1, 2, 3, N - 1, Rnd(1..N)}), 1, N)
Pat == /\ On("pat") /\ Room(1)
       /\ \E first \in Pk(Vars), step \in {PatStep(Len(vars))}, n \in {PatLen(Len(vars))},
             form \in Pk(Forms), sg \in Pk(Signs) :
          \E idx \in {TLCEval(Walk(first, step, n))} :
             Push(Sum(idx, sg), [a |-> "pat", form |-> form, idx |-> idx,
                                 sg |-> [x \in 1..n |-> Sign(sg, x)]])

\* A single variable, as such
One == /\ On("one") /\ Room(1)
       /\ \E v \in Pk(Vars) : Push(v :> 1, [a |-> "one", v |-> v])

Comb == /\ On("comb") /\ Room(1) /\ Objs # {}
        /\ \E i \in Pk(Objs), j \in Pk(Objs), a \in Pk({1, -1, 2, 3, 0}), b \in Pk({1, -1, -2, 4, 0}) :
             Push(Lin(a, objs[i], b, objs[j]), [a |-> "comb", i |-> i, j |-> j, x |-> a, y |-> b])

\* Some terms of a quantity are cancelled
Cancel == /\ On("cancel") /\ Room(1) /\ Objs # {}
          /\ \E i \in Pk(Objs), p \in Pk(1..4) :
             \E dom \in {Sorted(DOMAIN objs[i])} :
             \E S \in {{dom[x] : x \in {y \in 1..Len(dom) : (y % p) # 1 \/ p = 1}}} :
             \E s \in {Sorted(S)} :
                Push([v \in DOMAIN objs[i] |-> IF v \in S THEN 0 ELSE objs[i][v]],
                     [a |-> "cancel", i |-> i, w |-> [x \in 1..Len(s) |-> <<s[x], objs[i][s[x]]>>]])

\* Standard deviations: one, two exchanged, all the ones of a quantity permuted
Bounds == IF mode.range \in {"flat", "near", "wide"} THEN -460..460 ELSE -1016..966
InReach(v, s) == IF s.k = 0 THEN TRUE ELSE vars[v].ce + s.se \in Bounds
SetDevs(w) ==   \* w: sequence of <<v, k, se>>
    /\ {x \in 1..Len(w) : ~InReach(w[x][1], [k |-> w[x][2], se |-> w[x][3]])} = {}
    /\ vars' = FoldLeft(LAMBDA acc, t : [acc EXCEPT ![t[1]].k = t[2], ![t[1]].se = t[3]], vars, w)
    /\ UNCHANGED objs
    /\ Log([a |-> "set", w |-> w])
SetOne == /\ On("set")
          /\ \E v \in Pk(Vars) : \E s \in NewDev(v) : SetDevs(<<<<v, s.k, s.se>>>>)
\* Two of the variables of a quantity
SetSwap == /\ On("swap") /\ Objs # {}
           /\ \E i \in Pk(Objs) : Cardinality(DOMAIN objs[i]) > 1 /\
              \E v \in Pk(DOMAIN objs[i]) : \E w \in Pk(DOMAIN objs[i] \ {v}) :
                 SetDevs(<<<<v, vars[w].k, vars[w].se>>, <<w, vars[v].k, vars[v].se>>>>)
\* k is permuted, or all the standard deviations of a quantity are multiplied by a power of 2
SetAll == /\ On("setall") /\ Objs # {}
          /\ \E i \in Pk(Objs), sh \in Pk({0, 1, -3}) : \E s \in {Sorted(DOMAIN objs[i])} :
             \E w \in {TLCEval([x \in 1..Len(s) |->
                            <<s[x], vars[s[(x % Len(s)) + 1]].k, Clip(vars[s[x]].se + sh, MinE, MaxE)>>])} :
                SetDevs(w)

DistinctTags(dom) == Cardinality({vars[dom[x]].t : x \in 1..Len(dom)} \ {0}) = Len(dom)
\* Quantities are pickled (or deeply copied) together: new variables
Pickle == /\ On("pickle") /\ Objs # {}
          /\ \E i \in Pk(Objs), j \in Pk(Objs), p \in Pk(0..5), wv \in Pk(BOOLEAN) :
             \E sel \in {Sorted({i, j})}, dom \in {Sorted(DOMAIN objs[i] \cup DOMAIN objs[j])} :
             LET base == Len(vars)
                 Mk(c) == TLCEval([y \in {base + x : x \in {z \in 1..Len(dom) : dom[z] \in DOMAIN c}}
                                    |-> c[dom[y - base]]])
             IN /\ Room(Len(sel)) /\ Len(vars) + Len(dom) <= 3000
                /\ vars' = vars \o [x \in 1..Len(dom) |-> vars[dom[x]]]
                /\ objs' = objs \o [x \in 1..Len(sel) |-> Mk(objs[sel[x]])]
                \* with the variables themselves, or not (they are then known by their tags)
                /\ Log([a |-> "pickle", sel |-> sel, dom |-> dom, r |-> Len(objs) + 1, base |-> base,
                        p |-> p, withvars |-> wv \/ ~DistinctTags(dom)])
DeepCopy == /\ On("deepcopy") /\ Objs # {}
            /\ \E i \in Pk(Objs) :
               \E dom \in {Sorted(DOMAIN objs[i])} :
               LET base == Len(vars)
               IN /\ Room(1) /\ Len(vars) + Len(dom) <= 3000 /\ DistinctTags(dom)
                  /\ vars' = vars \o [x \in 1..Len(dom) |-> vars[dom[x]]]
                  /\ objs' = Append(objs, [y \in {base + x : x \in 1..Len(dom)} |-> objs[i][dom[y - base]]])
                  /\ Log([a |-> "deepcopy", i |-> i, dom |-> dom, base |-> base, r |-> Len(objs) + 1])
Copy == /\ On("copy") /\ Room(1) /\ Objs # {}
        /\ \E i \in Pk(Objs) : Push(objs[i], [a |-> "copy", i |-> i])

Observe(e) == Same /\ Log(e)
Read == On("read") /\ \E i \in (IF Objs = {} THEN {} ELSE Pk(Objs)) :
          Observe([a |-> "read", i |-> i, o |-> View(objs[i])])
Peek == On("peek") /\ \E i \in (IF Objs = {} THEN {} ELSE Pk(Objs)),
            w \in Pk({"std_dev", "derivatives", "components", "repr", "cov", "cmp", "pickle"}) :
          Observe([a |-> "peek", i |-> i, w |-> w])
Cov == On("cov") /\ Objs # {} /\ \E n \in Pk(IF Len(vars) <= 21 THEN {1, 2, 3, 4, 4, 9, 30} ELSE 1..4) :
       \E q \in {TLCEval([x \in 1..n |-> Rnd(IF x > 0 THEN Objs ELSE {})])} :
       Observe([a |-> "cov", q |-> q,
                dev |-> [x \in 1..n |-> Devs(objs[q[x]])],
                o |-> [x \in 1..n |-> [y \in 1..n |-> CovTerms(objs[q[x]], objs[q[y]])]]])
Cmp == On("cmp") /\ Objs # {} /\ \E i \in Pk(Objs), j \in Pk(Objs) :
       LET d == Lin(1, objs[i], -1, objs[j])
       IN Exact(d) /\
          Observe([a |-> "cmp", i |-> i, j |-> j, eq |-> Nominal(objs[i]) = Nominal(objs[j]) /\ NoUncert(d),
                   lt |-> Nominal(objs[i]) < Nominal(objs[j])])

Finish == /\ ~done /\ Len(log) >= MaxLen
          /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([mode |-> mode, log |-> log, vars |-> vars,
                                    objs |-> [i \in Objs |-> View(objs[i])]]))
          /\ UNCHANGED <<vars, objs, log, mode>>

Next == Pat \/ One \/ Comb \/ Cancel \/ SetOne \/ SetSwap \/ SetAll \/ Pickle \/ DeepCopy \/ Copy
        \/ Read \/ Peek \/ Cov \/ Cmp \/ Finish

\* The variables are created first: the first event of the log gives them
Start == \E range \in Pk(Ranges), n \in Pk(Sizes), nan \in {Rnd(1..4) = 1},
            tm \in Pk({"unique", "none", "few"}), use \in Pk({"ldexp", "mul", "rmul", "div"}) :
         \E w \in {TLCEval([i \in 1..n |-> MkVar(range, nan, TagFor(tm, i))])} :
         /\ mode' = [range |-> range, nan |-> nan, tags |-> tm]
         /\ vars' = w
         /\ log' = <<[a |-> "vars", w |-> w, use |-> use]>>
         /\ UNCHANGED <<objs, done>>

Init == vars = <<>> /\ objs = <<>> /\ log = <<>> /\ done = FALSE
        /\ mode = [range |-> "flat", nan |-> FALSE, tags |-> "none"]
Spec == Init /\ [][IF log = <<>> THEN Start ELSE Next]_vs

-----------------------------------------------------------------------------
TypeOK == /\ \A i \in Objs : DOMAIN objs[i] \subseteq Vars /\ Small(objs[i])
          /\ \A v \in Vars : vars[v].k >= -1 /\ vars[v].se \in MinE..MaxE
\* The difference with itself has no uncertainty; copies have the same nominal value
SelfZero == \A i \in Objs : LET d == Lin(1, objs[i], -1, objs[i]) IN
              (\A v \in DOMAIN d : d[v] = 0) /\ NoUncert(d) /\ Nominal(d) = 0
CopiesEqual == \A x \in 1..Len(log) : log[x].a \in {"copy", "deepcopy"} =>
                  Nominal(objs[log[x].r]) = Nominal(objs[log[x].i])
\* Only 'set' changes the standard deviation of an existing variable, and nothing changes
\* its nominal value, or existing quantities
Stable == [][ /\ \A i \in Objs : objs'[i] = objs[i]
              /\ \A v \in Vars : /\ vars'[v].u = vars[v].u /\ vars'[v].ce = vars[v].ce
                                 /\ vars'[v] # vars[v] => log'[Len(log')].a = "set" ]_vs
=============================================================================
