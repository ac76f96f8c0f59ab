-------------------------------- MODULE Quant --------------------------------
(* The abstract machine behind quantities with uncertainty.                  *)
(*                                                                           *)
(* State: the independent variables created so far (standard deviation, tag) *)
(* and the quantities held by the user: a nominal value and the *eager*      *)
(* derivatives with respect to the independent variables. The implementation *)
(* keeps the derivatives lazily; nothing here depends on that: observations  *)
(* leave the state unchanged, whatever their order.                          *)
(*                                                                           *)
(* Every action appends to 'log' what a user did and, for observations, what *)
(* has to be observed. Finish prints the log together with the final state:  *)
(* it is the behaviour that is replayed in the implementation.               *)
EXTENDS Dyadic, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS
    Sim,        \* TRUE: parameters are drawn at random (simulation mode)
    Acts,       \* names of the actions that can be taken
    MaxVars, MaxObjs, MaxLen,
    Preset      \* name of the initial state

VARIABLES vars, objs, log, done
vs == <<vars, objs, log, done>>

Pick(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S

-----------------------------------------------------------------------------
(* Data *)

Nominals == {Zero, One, <<-1,0>>, <<1,1>>, <<-1,1>>, <<3,0>>, <<1,-1>>,
             <<-3,-1>>, <<5,-2>>, <<1,2>>, <<-7,0>>, <<1,-3>>}
\* (values whose square is not representable: they are not computed with, except for
\* additions of 0)
Tiny == <<1,-700>>
StdDevs == {Zero, One, <<1,-1>>, <<1,1>>, <<3,-2>>, <<5,0>>, <<1,-5>>, NaN}
Consts == {Zero, One, <<-1,0>>, <<1,1>>, <<3,0>>, <<-1,-1>>, <<5,-1>>, <<1,2>>, <<-1,1>>}
\* "": no tag, "e": an empty string, "z": the number 0, "t": a tuple (names
\* for the harness: any object can be a tag)
Tags == {"", "a", "b", "e", "z", "t"}
CTypes(c) == {"float", "npfloat"} \cup (IF AbsI(c[2]) < 100 THEN {"npf32"} ELSE {})
             \cup (IF IsInt(c) THEN {"int", "npint"} ELSE {})
             \cup (IF c \in {Zero, One} THEN {"bool"} ELSE {})

-----------------------------------------------------------------------------
(* Derivatives: functions from the index of variables *)

Empty == [v \in {} |-> Zero]
Get(d, v) == IF v \in DOMAIN d THEN d[v] ELSE Zero
Lin(c1, d1, c2, d2) ==
    [v \in DOMAIN d1 \cup DOMAIN d2 |->
        Add(IF v \in DOMAIN d1 THEN Mul(c1, d1[v]) ELSE Zero,
            IF v \in DOMAIN d2 THEN Mul(c2, d2[v]) ELSE Zero)]
\* A coefficient that is NaN makes all the derivatives NaN, even 0 ones
\* (Mul does this).
Scale(c, d) == [v \in DOMAIN d |-> Mul(c, d[v])]
MaxW == 20000
Fits(o) == o.w <= MaxW /\ o.n \notin {Bad, NaN} /\ \A v \in DOMAIN o.d : o.d[v] # Bad

\* w: size of the expression that defines a quantity, when its shared parts
\* are repeated. This bounds the cost of the (lazy) evaluation.
Fun(n, d) == [k |-> "fun", n |-> n, d |-> d, v |-> 0, w |-> 1]
FunW(n, d, w) == [k |-> "fun", n |-> n, d |-> d, v |-> 0, w |-> w]
VarObj(n, v) == [k |-> "var", n |-> n, d |-> (v :> One), v |-> v, w |-> 1]
Gone == [k |-> "gone", n |-> Zero, d |-> Empty, v |-> 0, w |-> 1]

Live == {i \in 1..Len(objs) : objs[i].k # "gone"}
VarObjs == {i \in Live : objs[i].k = "var"}
FunObjs == {i \in Live : objs[i].k = "fun"}
Idx(S) == Pick(S)

-----------------------------------------------------------------------------
(* Observables *)

\* Error components: sequence of <<variable, derivative, standard deviation>>
SortedDom(d) == SetToSortSeq(DOMAIN d, LAMBDA a, b : a < b)
Ders(d) == LET s == SortedDom(d) IN [i \in 1..Len(s) |-> <<s[i], d[s[i]]>>]
\* An exact variable does not contribute (even if the derivative is
\* undefined); otherwise, the component is |derivative * std dev|, given as
\* the pair of factors.
Comp(x, s) == IF s = Zero THEN <<Zero, Zero>>
              ELSE IF x = NaN \/ s = NaN THEN <<NaN, NaN>>
              ELSE <<Abs(x), s>>
Comps(d) == LET s == SortedDom(d) IN
            [i \in 1..Len(s) |-> <<s[i], Comp(d[s[i]], vars[s[i]].s)>>]

\* What is read on a quantity
View(o) == [n |-> o.n, d |-> Ders(o.d), c |-> Comps(o.d)]

\* Is the uncertainty of a linear form exactly 0? {TRUE}, {FALSE}, or both
\* if it is not specified (0 derivative with a NaN standard deviation)
NoUncert(d) ==
    LET unknown == {v \in DOMAIN d : d[v] = Zero /\ vars[v].s = NaN}
        bad == {v \in DOMAIN d : d[v] # Zero /\ vars[v].s # Zero}
    IN IF bad # {} THEN {FALSE} ELSE IF unknown # {} THEN {TRUE, FALSE} ELSE {TRUE}

EqSet(o1, o2) ==
    IF o1.n # o2.n THEN {FALSE}
    ELSE NoUncert(Lin(One, o1.d, <<-1,0>>, o2.d))
Rel(o1, o2) ==
    LET eq == EqSet(o1, o2)
        lt == Lt(o1.n, o2.n)
        gt == Lt(o2.n, o1.n)
    IN [eq |-> eq, ne |-> {~b : b \in eq}, lt |-> {lt}, gt |-> {gt},
        le |-> {lt \/ b : b \in eq}, ge |-> {gt \/ b : b \in eq}]
BoolSet(o) == IF o.n # Zero THEN {TRUE} ELSE {~b : b \in NoUncert(o.d)}

\* Covariance of two quantities, as a sum of products
\* (derivative, derivative, std dev), over the common variables
CovTerms(o1, o2) ==
    LET c == {v \in DOMAIN o1.d \cap DOMAIN o2.d : vars[v].s # Zero}
        s == SetToSortSeq(c, LAMBDA a, b : a < b)
    IN [i \in 1..Len(s) |-> <<o1.d[s[i]], o2.d[s[i]], vars[s[i]].s>>]

-----------------------------------------------------------------------------
(* Actions *)

Running == ~done /\ Len(log) < MaxLen
On(a) == Running /\ a \in Acts
Log(e) == log' = Append(log, e) /\ done' = done
SameVars == vars' = vars
SameObjs == objs' = objs
Room == Len(objs) < MaxObjs

Push(o, e) == /\ Fits(o)
              /\ objs' = Append(objs, o)
              /\ SameVars
              /\ Log(e @@ ("r" :> Len(objs) + 1))

New == /\ On("new") /\ Room /\ Len(vars) < MaxVars
       /\ \E n \in Pick(IF On("tiny") THEN Nominals \cup {Tiny, Neg(Tiny)} ELSE Nominals), s \in Pick(StdDevs), t \in Pick(Tags),
            ty \in Pick({"float", "int", "np"}) :
            /\ vars' = Append(vars, [s |-> s, t |-> t])
            /\ objs' = Append(objs, VarObj(n, Len(vars) + 1))
            /\ Log([a |-> "new", n |-> n, s |-> s, t |-> t, ty |-> ty, r |-> Len(objs) + 1])

\* Value and partial derivatives of the binary operators at (x, y):
\* <<value, d/dx, d/dy>>; usex/usey: the derivative is needed
PowRes(x, y, usey) ==
    IF y = Zero THEN <<One, Zero,
            IF ~usey \/ x = One THEN Zero ELSE IF x = Zero \/ Sgn(x) < 0 THEN NaN ELSE Bad>>
    ELSE IF x = One THEN <<One, y, Zero>>
    ELSE IF x = Zero THEN
        IF Sgn(y) < 0 THEN <<Bad, Bad, Bad>>
        ELSE <<Zero, IF ~IsInt(y) THEN NaN ELSE IF y = One THEN One ELSE Zero, Zero>>
    ELSE IF IsInt(y) /\ Sgn(y) > 0 /\ ~Lt(<<1,2>>, y) THEN
        <<PowI(x, IntVal(y)), Mul(y, PowI(x, IntVal(y) - 1)),
          IF ~usey THEN Zero ELSE IF Sgn(x) < 0 THEN NaN ELSE Bad>>
    ELSE IF y = <<-1, 0>> THEN
        <<Inv(x), Neg(Mul(Inv(x), Inv(x))),
          IF ~usey THEN Zero ELSE IF Sgn(x) < 0 THEN NaN ELSE Bad>>
    ELSE <<Bad, Bad, Bad>>

OpRes(op, x, y, usey) ==
    CASE op = "+" -> <<Add(x, y), One, One>>
      [] op = "-" -> <<Sub(x, y), One, <<-1,0>>>>
      [] op = "*" -> <<Mul(x, y), y, x>>
      [] op = "/" -> IF ~IsPow2(y) THEN <<Bad, Bad, Bad>>
                     ELSE <<Mul(x, Inv(y)), Inv(y), Neg(Mul(x, Mul(Inv(y), Inv(y))))>>
      [] op = "//" -> IF y = Zero THEN <<Bad, Bad, Bad>>
                      ELSE <<FloorDiv(x, y), Zero, Zero>>
      [] op = "%" -> \* only used with a constant y (numerical derivative)
                     IF y = Zero \/ usey THEN <<Bad, Bad, Bad>>
                     ELSE <<Sub(x, Mul(y, FloorDiv(x, y))), One, Bad>>
      [] op = "**" -> PowRes(x, y, usey)

BinOps == {"+", "-", "*", "/", "//", "**"}

Bin == /\ On("bin") /\ Room
       /\ \E op \in Pick({"+", "-", "*"}), i \in Idx(Live), j \in Idx(Live) :
            LET r == OpRes(op, objs[i].n, objs[j].n, TRUE)
            IN Push(FunW(r[1], Lin(r[2], objs[i].d, r[3], objs[j].d), objs[i].w + objs[j].w),
                    [a |-> "bin", op |-> op, i |-> i, j |-> j])

Bin2 == /\ On("bin2") /\ Room
        /\ \E op \in Pick({"/", "//", "**", "pow", "hypot", "atan2", "copysign"}),
              i \in Idx(Live), j \in Idx(Live) :
            LET x == objs[i].n
                y == objs[j].n
                sgx == IF Sgn(x) < 0 THEN <<-1,0>> ELSE One
                sgy == IF Sgn(y) < 0 THEN <<-1,0>> ELSE One
                r == CASE op \in BinOps -> OpRes(op, x, y, TRUE)
                       [] op = "pow" -> PowRes(x, y, TRUE)
                       [] op = "hypot" ->
                            IF x = Zero /\ y = Zero THEN <<Zero, NaN, NaN>>
                            ELSE IF y = Zero THEN <<Abs(x), sgx, Zero>>
                            ELSE IF x = Zero THEN <<Abs(y), Zero, sgy>>
                            ELSE <<Bad, Bad, Bad>>
                       [] op = "atan2" ->   \* atan2(x, y)
                            IF x = Zero /\ Sgn(y) > 0 /\ IsPow2(y)
                            THEN <<Zero, Inv(y), Zero>>
                            ELSE <<Bad, Bad, Bad>>
                       [] op = "copysign" ->   \* (the sign of 0 is not modelled)
                            IF y = Zero THEN <<Bad, Bad, Bad>> ELSE <<Mul(Abs(x), sgy), Mul(sgx, sgy), Zero>>
            IN Push(FunW(r[1], Lin(r[2], objs[i].d, r[3], objs[j].d), objs[i].w + objs[j].w),
                    [a |-> "bin", op |-> op, i |-> i, j |-> j])

\* Constant on the right or on the left
BinC == /\ On("binc") /\ Room
        /\ \E op \in Pick(BinOps \cup {"%"}), i \in Idx(Live), c \in Pick(Consts),
              left \in Pick(BOOLEAN) : \E ty \in Pick(CTypes(c)) :
            LET x == objs[i].n
                r == IF left THEN OpRes(op, c, x, TRUE) ELSE OpRes(op, x, c, FALSE)
                d == Scale(IF left THEN r[3] ELSE r[2], objs[i].d)
            IN Push(FunW(r[1], d, objs[i].w),
                    [a |-> "binc", op |-> op, i |-> i, c |-> c, left |-> left, ty |-> ty])

Un == /\ On("un") /\ Room
      /\ \E op \in Pick({"neg", "pos", "abs", "fabs"}), i \in Idx(Live) :
            LET x == objs[i].n
                c == CASE op = "neg" -> <<-1,0>>
                       [] op = "pos" -> One
                       [] op \in {"abs", "fabs"} -> IF Sgn(x) < 0 THEN <<-1,0>> ELSE One
                n == IF op = "neg" THEN Neg(x) ELSE IF op = "pos" THEN x ELSE Abs(x)
            IN Push(FunW(n, Scale(c, objs[i].d), objs[i].w), [a |-> "un", op |-> op, i |-> i])

\* Mathematical functions at points where everything is exact:
\* <<function, argument, value, derivative>>
FunTable ==
    {<<f, Zero, Zero, One>> : f \in {"sin", "tan", "sinh", "tanh", "asin", "asinh",
                                     "atan", "atanh", "log1p", "expm1"}}
    \cup {<<"cos", Zero, One, Zero>>, <<"cosh", Zero, One, Zero>>,
          <<"exp", Zero, One, One>>, <<"log", One, Zero, One>>,
          <<"acosh", One, Zero, NaN>>, <<"acos", One, Zero, NaN>>,
          <<"sqrt", Zero, Zero, NaN>>, <<"sqrt", One, One, <<1,-1>>>>,
          <<"sqrt", <<1,2>>, <<1,1>>, <<1,-2>>>>,
          <<"sqrt", <<1,4>>, <<1,2>>, <<1,-3>>>>}
Math == /\ On("math") /\ Room
        /\ \E i \in Idx(Live) :
           \E f \in Pick({g \in FunTable : g[2] = objs[i].n}) :
              Push(FunW(f[3], Scale(f[4], objs[i].d), objs[i].w), [a |-> "math", f |-> f[1], i |-> i])

Ldexp == /\ On("ldexp") /\ Room
         /\ \E i \in Idx(Live), k \in Pick(-3..3) :
              Push(FunW(Mul(objs[i].n, Norm(1, k)), Scale(Norm(1, k), objs[i].d), objs[i].w),
                   [a |-> "ldexp", i |-> i, p |-> k])

\* Fractional part (with the sign of x); the derivative is 1
Modf == /\ On("modf") /\ Room
        /\ \E i \in Idx(Live) :
              LET x == objs[i].n
                  ip == FloorDiv(Abs(x), One)
                  f == Sub(Abs(x), ip)
              IN Push(FunW(IF Sgn(x) < 0 THEN Neg(f) ELSE f, objs[i].d, objs[i].w), [a |-> "modf", i |-> i])

\* Mantissa, in [1/2, 1)
RECURSIVE BitLen(_)
BitLen(m) == IF m = 0 THEN 0 ELSE 1 + BitLen(m \div 2)
Frexp == /\ On("frexp") /\ Room
         /\ \E i \in Idx(Live) :
              LET x == objs[i].n
                  e == IF x = Zero THEN 0 ELSE BitLen(AbsI(x[1])) + x[2]
              IN Push(FunW(Mul(x, Norm(1, -e)), Scale(Norm(1, -e), objs[i].d), objs[i].w),
                      [a |-> "frexp", i |-> i, p |-> e])

\* Long computations: r = x_i, then n times r = r + x_j (and variants)
Long == /\ On("long") /\ Room
        /\ \E i \in Idx(Live), j \in Idx(Live), n \in Pick({2, 7, 100, 1000, 1500}),
              form \in Pick({"r+b", "b+r", "r-b", "b-r", "iadd", "sum", "fsum"}) :
            LET k == IntD(n)
                ck == IF form = "r-b" THEN Neg(k) ELSE k
                even == n % 2 = 0
                ci == IF form = "b-r" /\ ~even THEN <<-1,0>> ELSE One
                cj == IF form = "b-r" THEN (IF even THEN Zero ELSE One) ELSE ck
            IN Push(FunW(Add(Mul(ci, objs[i].n), Mul(cj, objs[j].n)),
                        Lin(ci, objs[i].d, cj, objs[j].d), objs[i].w + n * objs[j].w),
                    [a |-> "long", i |-> i, j |-> j, m |-> n, form |-> form])

\* y = y + y, repeated
Double == /\ On("double") /\ Room
          /\ \E i \in Idx(Live), n \in Pick(1..9) :
               Push(FunW(Mul(objs[i].n, Norm(1, n)), Scale(Norm(1, n), objs[i].d),
                         objs[i].w * Pow2(n)),
                    [a |-> "double", i |-> i, m |-> n])

\* Sum of a list with quantities and constants
Fsum == /\ On("fsum") /\ Room
        /\ \E i \in Idx(Live), j \in Idx(Live), k \in Idx(Live), c \in Pick(Consts) :
             Push(FunW(Add(Add(objs[i].n, objs[j].n), Add(objs[k].n, c)),
                      Lin(One, Lin(One, objs[i].d, One, objs[j].d), One, objs[k].d),
                      objs[i].w + objs[j].w + objs[k].w),
                  [a |-> "fsum", i |-> i, j |-> j, kk |-> k, c |-> c])

\* A user function f(x, y) = x*y + 2*x, wrapped with both, one or no
\* analytical derivatives (numerical ones are exact enough)
Wrapped == /\ On("wrapped") /\ Room
           /\ \E i \in Idx(Live), j \in Idx(Live), kw \in Pick(BOOLEAN) :
              Push(FunW(Add(Mul(objs[i].n, objs[j].n), Mul(<<1,1>>, objs[i].n)),
                       Lin(Add(objs[j].n, <<1,1>>), objs[i].d, objs[i].n, objs[j].d),
                       objs[i].w + objs[j].w),
                   [a |-> "wrapped", i |-> i, j |-> j, kw |-> kw])

SetStd == /\ On("set")
          /\ \E i \in Idx(VarObjs), s \in Pick(StdDevs), how \in Pick({"attr", "legacy"}) :
               /\ vars' = [vars EXCEPT ![objs[i].v].s = s]
               /\ SameObjs
               /\ Log([a |-> "set", i |-> i, s |-> s, how |-> how])

\* Refused updates: nothing changes
SetBad == /\ On("setbad")
          /\ \E i \in Idx(VarObjs), s \in Pick({"-1", "-0.5", "-inf", "-1e-300", "str"}),
                how \in Pick({"attr", "method"}), ty \in Pick({"float", "np", "sub"}) :
               SameVars /\ SameObjs
               /\ Log([a |-> "setbad", i |-> i, x |-> s, how |-> how, ty |-> ty])
SetRefused == /\ On("setref")
              /\ \E i \in Idx(Live), w \in Pick({"n", "nominal_value", "std_dev", "derivatives"}) :
                 /\ (w = "std_dev" => objs[i].k = "fun")
                 /\ SameVars /\ SameObjs /\ Log([a |-> "setref", i |-> i, w |-> w])

Copy == /\ On("copy") /\ Room /\ Len(vars) < MaxVars
        /\ \E i \in Idx(Live), deep \in Pick(BOOLEAN) :
            LET o == objs[i] IN
            IF o.k = "var"
            THEN /\ vars' = Append(vars, vars[o.v])
                 /\ objs' = Append(objs, VarObj(o.n, Len(vars) + 1))
                 /\ Log([a |-> "copy", i |-> i, deep |-> deep, src |-> <<o.v>>, r |-> Len(objs) + 1])
            ELSE IF ~deep THEN Push(o, [a |-> "copy", i |-> i, deep |-> FALSE, src |-> <<>>])
            ELSE LET dom == SortedDom(o.d)
                     new == [v \in 1..Len(dom) |-> vars[dom[v]]]
                     nd == [v \in (Len(vars) + 1)..(Len(vars) + Len(dom)) |-> o.d[dom[v - Len(vars)]]]
                 IN /\ Len(vars) + Len(dom) <= MaxVars
                    /\ vars' = vars \o new
                    /\ objs' = Append(objs, Fun(o.n, nd))
                    /\ Log([a |-> "copy", i |-> i, deep |-> TRUE, src |-> dom, r |-> Len(objs) + 1])

\* [i, j, i] is deep-copied: the two copies are independent of one another,
\* the repeated element is the same object
DeepList == /\ On("deeplist") /\ Len(objs) + 1 < MaxObjs
            /\ \E i \in Idx(Live), j \in Idx(Live) :
               /\ i # j
               /\ LET di == SortedDom(objs[i].d)
                      dj == SortedDom(objs[j].d)
                      base == Len(vars)
                      base2 == base + Len(di)
                      Mk(o, dom, b) ==
                        IF o.k = "var" THEN VarObj(o.n, b + 1)
                        ELSE Fun(o.n, [v \in (b + 1)..(b + Len(dom)) |-> o.d[dom[v - b]]])
                  IN /\ base2 + Len(dj) <= MaxVars
                     /\ vars' = vars \o [v \in 1..Len(di) |-> vars[di[v]]]
                                     \o [v \in 1..Len(dj) |-> vars[dj[v]]]
                     /\ objs' = objs \o <<Mk(objs[i], di, base), Mk(objs[j], dj, base2)>>
                     /\ Log([a |-> "deeplist", i |-> i, j |-> j, src |-> di \o dj, r |-> Len(objs) + 1])

\* Quantities pickled together: one new variable for each variable involved
PickleRT ==
    /\ On("pickle")
    /\ \E i \in Idx(Live), j \in Idx(Live), k \in Idx(Live), p \in Pick(0..5) :
        LET sel == SetToSortSeq({i, j, k}, LAMBDA a, b : a < b)
            used == UNION {DOMAIN objs[o].d : o \in {i, j, k}}
            dom == SetToSortSeq(used, LAMBDA a, b : a < b)
            base == Len(vars)
            New_(v) == base + CHOOSE x \in 1..Len(dom) : dom[x] = v
            Mk(o) == IF o.k = "var" THEN VarObj(o.n, New_(o.v))
                     ELSE Fun(o.n, [v \in {New_(u) : u \in DOMAIN o.d} |-> o.d[dom[v - base]]])
        IN /\ Len(objs) + Len(sel) <= MaxObjs
           /\ base + Len(dom) <= MaxVars
           /\ vars' = vars \o [v \in 1..Len(dom) |-> vars[dom[v]]]
           /\ objs' = objs \o [x \in 1..Len(sel) |-> Mk(objs[sel[x]])]
           /\ Log([a |-> "pickle", sel |-> sel, p |-> p, src |-> dom, r |-> Len(objs) + 1])

\* The user forgets about a quantity
Drop == /\ On("drop")
        /\ \E i \in Idx(Live) :
             /\ Cardinality(Live) > 1
             /\ objs' = [objs EXCEPT ![i] = Gone]
             /\ SameVars /\ Log([a |-> "drop", i |-> i])

Observe(e) == SameVars /\ SameObjs /\ Log(e)

Read == On("read") /\ \E i \in Idx(Live) :
          Observe([a |-> "read", i |-> i, o |-> View(objs[i])])
\* Observations whose results are checked elsewhere, taken here for their
\* possible side effects
Peek == On("peek") /\ \E i \in Idx(Live), w \in Pick({"str", "repr", "format", "std_dev",
                            "error_components", "derivatives", "bool", "eq", "pickle",
                            "copy", "deepcopy", "cov", "hash", "std_score", "missing"}) :
          Observe([a |-> "peek", i |-> i, w |-> w])
Cmp == On("cmp") /\ \E i \in Idx(Live), j \in Idx(Live) :
          Observe([a |-> "cmp", i |-> i, j |-> j, o |-> Rel(objs[i], objs[j]),
                   vw |-> <<<<i, View(objs[i])>>, <<j, View(objs[j])>>>>])
CmpC == On("cmpc") /\ \E i \in Idx(Live), c \in Pick(Consts \cup {objs[x].n : x \in Live}) :
          \E ty \in Pick(CTypes(c)) :
          Observe([a |-> "cmpc", i |-> i, c |-> c, ty |-> ty, vw |-> <<<<i, View(objs[i])>>>>,
                   o |-> Rel(objs[i], Fun(c, Empty)), ro |-> Rel(Fun(c, Empty), objs[i])])
\* Objects that are not numbers: different, and not ordered, even when they show, contain
\* or hash like the same number
Foreigners == {"text", "bytes", "list", "tuple", "none", "pair", "set", "dict", "type", "object"}
CmpF == On("cmpf") /\ \E i \in Idx(Live), f \in Pick(Foreigners) :
          Observe([a |-> "cmpf", i |-> i, f |-> f, c |-> objs[i].n, vw |-> <<<<i, View(objs[i])>>>>])
Bool == On("bool") /\ \E i \in Idx(Live) :
          Observe([a |-> "bool", i |-> i, vw |-> <<<<i, View(objs[i])>>>>, o |-> BoolSet(objs[i])])
\* Covariance matrix of a list of quantities (possibly repeated, in any order)
CovLists == IF Sim
    THEN LET n == IF RandomElement(1..3) = 1 THEN RandomElement(5..9) ELSE RandomElement(0..4)
         IN {TLCEval([x \in 1..n |-> RandomElement(Live)])}
    ELSE [1..3 -> Live]
Cov == On("cov") /\ Live # {} /\ \E q \in CovLists :
          Observe([a |-> "cov", q |-> q,
                   vw |-> [x \in 1..Len(q) |-> <<q[x], View(objs[q[x]])>>],
                   o |-> [x \in 1..Len(q) |->
                            [y \in 1..Len(q) |-> CovTerms(objs[q[x]], objs[q[y]])]]])

Finish == /\ ~done /\ Len(log) >= MaxLen
          /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([log |-> log, vars |-> vars,
                objs |-> [i \in 1..Len(objs) |->
                            [k |-> objs[i].k, n |-> objs[i].n, v |-> objs[i].v,
                             d |-> Ders(objs[i].d), c |-> Comps(objs[i].d)]]]))
          /\ UNCHANGED <<vars, objs, log>>

Next == New \/ Bin \/ Bin2 \/ BinC \/ Un \/ Math \/ Ldexp \/ Modf \/ Frexp \/ Long
        \/ Double \/ Fsum \/ Wrapped \/ SetStd \/ SetBad \/ SetRefused \/ Copy
        \/ DeepList \/ PickleRT \/ Drop \/ Read \/ Peek \/ Cmp \/ CmpC \/ CmpF \/ Bool \/ Cov
        \/ Finish

Init == /\ log = <<>> /\ done = FALSE
        /\ \/ Preset = "none" /\ vars = <<>> /\ objs = <<>>
           \/ /\ Preset = "two"
              /\ vars = <<[s |-> <<1,-1>>, t |-> "a"], [s |-> <<3,-2>>, t |-> ""]>>
              /\ objs = <<VarObj(<<1,1>>, 1), VarObj(<<3,0>>, 2)>>

Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
(* Invariants of the abstract machine *)

TypeOK == /\ \A i \in 1..Len(objs) : Fits(objs[i]) /\ DOMAIN objs[i].d \subseteq 1..Len(vars)
          /\ \A v \in 1..Len(vars) : vars[v].s = NaN \/ (IsNum(vars[v].s) /\ Sgn(vars[v].s) >= 0)
\* An independent variable is held by one object only, with derivative 1
Identity == \A i, j \in VarObjs : objs[i].v = objs[j].v => i = j
VarIsItself == \A i \in VarObjs : objs[i].d = (objs[i].v :> One)
\* x - x is exactly 0; a quantity equals itself
SelfCancel == \A i \in Live :
    \A v \in DOMAIN objs[i].d : objs[i].d[v] # NaN =>
        Get(Lin(One, objs[i].d, <<-1,0>>, objs[i].d), v) = Zero
\* Covariance is symmetric
CovSym == \A i, j \in Live : Len(CovTerms(objs[i], objs[j])) = Len(CovTerms(objs[j], objs[i]))
\* Observations and refusals never change anything; only 'set' changes the
\* standard deviation of an existing variable; nominal values and derivatives
\* of existing objects never change.
Stable == [][ /\ \A i \in 1..Len(objs) : objs'[i] = objs[i] \/ objs'[i] = Gone
              /\ Len(vars') >= Len(vars)
              /\ \A v \in 1..Len(vars) :
                    vars'[v] # vars[v] =>
                      (Len(log') > Len(log) /\ log'[Len(log')].a = "set"
                       /\ objs[log'[Len(log')].i].v = v) ]_vs
=============================================================================
