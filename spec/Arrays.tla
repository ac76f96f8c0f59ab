------------------------------- MODULE Arrays -------------------------------
(* Arrays and matrices of quantities.                                        *)
(*                                                                           *)
(* nodes is a table of scalars: variables, plain numbers, and operations on  *)
(* previous scalars. An array is a shape and a sequence of nodes (row-major  *)
(* order). What an operation on arrays does is thus defined as operations on *)
(* scalars (whose meaning is in Quant.tla and Deriv.tla): the specification  *)
(* says which scalar calculation is found in which element of the result.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim, MaxLen, MaxDim, Dims, MaxSize, MaxNodes

VARIABLES nodes, arrs, log, done
vs == <<nodes, arrs, log, done>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
\* (parameter: TLC calculates constants once)
Rnd(S, dummy) == RandomElement(S)

-----------------------------------------------------------------------------
\* Shapes and positions (indices from 0)
Prod(s) == FoldLeft(LAMBDA a, b : a*b, 1, s)
Size(sh) == Prod(sh)
Stride(sh, d) == Prod(SubSeq(sh, d+1, Len(sh)))
Unflat(sh, k) == [d \in 1..Len(sh) |-> (k \div Stride(sh, d)) % sh[d]]
Flat(sh, mi) == FoldLeftDomain(LAMBDA acc, d : acc + mi[d]*Stride(sh, d), 0, sh)

MaxI(a, b) == IF a >= b THEN a ELSE b
\* Size of dimension d counted from the last one (1 if missing)
Back(sh, d) == IF d <= Len(sh) THEN sh[Len(sh)+1-d] ELSE 1
Compatible(s1, s2) == \A d \in 1..MaxI(Len(s1), Len(s2)) :
    Back(s1, d) = Back(s2, d) \/ Back(s1, d) = 1 \/ Back(s2, d) = 1
BShape(s1, s2) ==
    LET n == MaxI(Len(s1), Len(s2))
    IN [d \in 1..n |-> LET a == Back(s1, n+1-d) b == Back(s2, n+1-d)
                       IN IF a = 1 THEN b ELSE a]
\* Position in an array of shape sh of what goes to multi-index mi of the result
BPos(sh, mi) == Flat(sh, [d \in 1..Len(sh) |->
                    IF sh[d] = 1 THEN 0 ELSE mi[Len(mi) - Len(sh) + d]])

Shapes == UNION {[1..n -> Dims] : n \in 0..MaxDim}
ASSUME \A sh \in {x \in Shapes : Size(x) <= 100} :
    /\ \A k \in 0..(Size(sh)-1) : Flat(sh, Unflat(sh, k)) = k
    /\ Compatible(sh, sh) /\ BShape(sh, sh) = sh
    /\ \A k \in 0..(Size(sh)-1) : BPos(sh, Unflat(sh, k)) = k
    /\ Compatible(sh, << >>) /\ BShape(sh, << >>) = sh
ASSUME \A s1, s2 \in Shapes : Compatible(s1, s2) =>
    /\ Compatible(s2, s1) /\ BShape(s1, s2) = BShape(s2, s1)
    /\ Size(BShape(s1, s2)) = 0 \/ (Size(BShape(s1, s2)) % Size(s1) = 0)

-----------------------------------------------------------------------------
\* Nodes: variables, constants, operations
Var(n, s) == [op |-> "var", v |-> n, s |-> s, t |-> "", a |-> << >>]
Const(v, t) == [op |-> "const", v |-> v, s |-> "0", t |-> t, a |-> << >>]
Op(f, a) == [op |-> f, v |-> "", s |-> "", t |-> "", a |-> a]

\* An array. k: "array", "matrix", "list" (nested lists); q: contains objects
\* (quantities can be there), not only plain numbers; use: can be used again;
\* c: the places in memory <<array, position>> of the elements. Views of an array
\* have places in common with it.
Arr(k, sh, el, q) == [k |-> k, sh |-> sh, el |-> el, q |-> q, use |-> TRUE,
                      c |-> [i \in 1..Len(el) |-> <<Len(arrs) + 1, i>>]]
\* The view of a where element i is element P(i) of a
View(a, k, sh, P(_)) == [k |-> k, sh |-> sh, q |-> a.q, use |-> a.use,
                         el |-> [i \in 1..Size(sh) |-> a.el[P(i)]],
                         c |-> [i \in 1..Size(sh) |-> a.c[P(i)]]]

Running == ~done /\ Len(log) < MaxLen
Step(newnodes, newarrs, e) ==
    /\ Len(nodes) + Len(newnodes) <= MaxNodes
    /\ nodes' = nodes \o newnodes
    /\ arrs' = arrs \o newarrs
    /\ log' = Append(log, e @@ ("res" :> [i \in 1..Len(newarrs) |-> Len(arrs) + i])
                            @@ ("els" :> [i \in 1..Len(newarrs) |-> newarrs[i].el])
                            @@ ("nn" :> Len(nodes) + Len(newnodes)))
    /\ done' = done
N0 == Len(nodes)

SomeShapes(n, empty) == {sh \in Shapes : Len(sh) \in n /\ Size(sh) <= MaxSize
                                         /\ (empty \/ Size(sh) > 0)}

\* Numbers, by class: arguments in ]0, 1[, positive, any sign, large
Nums(c) == CASE c = "unit" -> {"0.25", "0.5", "0.75", "0.1", "0.9"}
             [] c = "pos" -> {"1.5", "2", "3.25", "0.5", "1", "7"}
             [] c = "any" -> {"-1.5", "2", "0", "-0.25", "1", "-3", "0.5"}
             [] c = "big" -> {"1e10", "-3.5e6", "2e-5", "1234567.875", "3e30", "-1e19"}
             [] c = "special" -> {"nan", "inf", "-inf", "1.5", "0"}
Classes == {"unit", "pos", "any", "big", "special"}
SDs == {"0.1", "0", "0.25", "2", "1e-3", "0.1"}
Seqs(S, n, d) == IF Sim THEN {[i \in 1..n |-> Rnd(S, <<d, i>>)]} ELSE [1..n -> S]

-----------------------------------------------------------------------------
\* Creation with uarray() or umatrix(). The standard deviations can have a
\* different shape (broadcast)
\* Types of NumPy numbers, and what they represent exactly
Types == {"float64", "float32", "float16", "longdouble", "int64", "int8", "uint8", "bool", "object"}
NumsOf(ty, c) == CASE ty \in {"float32", "float16"} -> {"0.25", "0.5", "-1.5", "2", "3.25", "0", "1"}
                   [] ty \in {"int64", "int8"} -> {"-3", "1", "2", "5", "0"}
                   [] ty = "uint8" -> {"1", "2", "5", "0"}
                   [] ty = "bool" -> {"1", "0"}
                   [] OTHER -> Nums(c)
SDsOf(ty) == IF ty \in {"float32", "float16"} THEN {"0.25", "0", "2", "0.125"}
             ELSE IF ty \in {"float64", "longdouble", "object"} THEN SDs
             ELSE {"0", "1"}
Create ==
    /\ Running
    /\ \E kind \in Pick({"array", "matrix"}), c \in Pick(Classes),
          how \in Pick(IF MaxSize > 1000 THEN {"list", "typed"}
                       ELSE {"list", "ndarray", "tuple", "typed", "obsolete", "npmatrix", "int"}),
          tn \in Pick(IF Sim THEN Types ELSE {"float64"}),
          ts \in Pick(IF Sim THEN Types ELSE {"float64"}),
          mem \in Pick(IF Sim THEN {"C", "F", "strided", "reversed"} ELSE {"C"}) :
       \E sh \in Pick(IF kind = "matrix" THEN SomeShapes({2}, FALSE) ELSE SomeShapes(0..MaxDim, TRUE)) :
       \E sn \in Pick({sh} \cup {s \in Shapes : how \in {"ndarray", "typed"}
                                                /\ kind = "array" /\ Compatible(s, sh) /\ BShape(s, sh) = sh}) :
       \E noms \in Seqs(IF how = "int" THEN {"-3", "1", "2", "5"}
                        ELSE IF how = "typed" THEN NumsOf(tn, c) ELSE Nums(c), Size(sh), log),
          sds \in Seqs(IF how = "int" THEN {"0", "1", "3"}
                       ELSE IF how = "typed" THEN SDsOf(ts) ELSE SDs, Size(sn), log) :
         /\ how = "npmatrix" => kind = "matrix"
         /\ Step([i \in 1..Size(sh) |-> Var(noms[i], sds[BPos(sn, Unflat(sh, i-1)) + 1])],
                 <<Arr(kind, sh, [i \in 1..Size(sh) |-> N0 + i], TRUE)>>,
                 [a |-> "create", how |-> how, noms |-> noms, sds |-> sds, sn |-> sn,
                  tn |-> tn, ts |-> ts, mem |-> mem])

\* An array (or nested lists) with chosen contents: elements of other arrays
\* and plain numbers
Mixed ==
    /\ Running
    /\ \E kind \in Pick({"array", "matrix", "list", "array"}), c \in Pick(Classes) :
       \E sh \in Pick(IF kind = "matrix" THEN SomeShapes({2}, FALSE)
                      ELSE IF kind = "list" THEN SomeShapes({1, 2}, FALSE)
                      ELSE SomeShapes(0..MaxDim, TRUE)),
          pool \in Pick({{}, UNION {ToSet(arrs[i].el) : i \in {j \in 1..Len(arrs) : arrs[j].use}}}) :
         LET n == Size(sh)
             olds == Seqs(IF pool = {} THEN {0} ELSE pool \cup {0}, n, log)
         IN \E old \in olds :
              \E cs \in (IF Sim THEN {[i \in 1..n |->
                                         Const(Rnd(Nums(c), <<log, i>>), Rnd({"f", "f", "i"}, <<log, i>>))]}
                         ELSE {[i \in 1..n |-> Const("2", "f")]}) :
                Step(cs, <<Arr(kind, sh, [i \in 1..n |-> IF old[i] = 0 THEN N0 + i ELSE old[i]],
                               TRUE)>>,
                     [a |-> "mixed"])

\* An array of plain numbers
Plain ==
    /\ Running
    /\ \E ty \in Pick({"f", "i"}), c \in Pick(Classes),
          k \in Pick(IF Sim THEN {"array", "array", "matrix"} ELSE {"array"}) :
       \E sh \in Pick(IF k = "matrix" THEN SomeShapes({2}, FALSE) ELSE SomeShapes(0..MaxDim, TRUE)) :
       \E vals \in Seqs(IF ty = "i" THEN {"-3", "0", "1", "2", "5"} ELSE Nums(c), Size(sh), log) :
         Step([i \in 1..Size(sh) |-> Const(vals[i], ty)],
              <<Arr(k, sh, [i \in 1..Size(sh) |-> N0 + i], FALSE)>>,
              [a |-> "plain", ty |-> ty])

-----------------------------------------------------------------------------
\* An operand is an array, or an element of an array alone, or a plain number
Usable == {i \in 1..Len(arrs) : arrs[i].use}
Arrays(S) == {i \in Usable : arrs[i].k \in S}

\* The scalars that can be operands: [w: what, i: array, j: position, node]
ScalarOf(i, j) == [w |-> "elem", i |-> i, j |-> j]
\* Kind of the result of an element-wise operation
Kind2(k1, k2) == IF "matrix" \in {k1, k2} THEN "matrix" ELSE "array"

ElemOps == {"+", "-", "*", "/", "**", "%", "//", "<", "<=", ">", ">=", "==", "!="}
Cmp == {"<", "<=", ">", ">=", "==", "!="}
\* Both arrays; at least one has objects
BinArr ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix"})), j \in Pick(Arrays({"array", "matrix", "list"})),
          f \in Pick(ElemOps), swap \in Pick({TRUE, FALSE}) :
         LET a == IF swap THEN arrs[j] ELSE arrs[i]
             b == IF swap THEN arrs[i] ELSE arrs[j]
             sh == BShape(a.sh, b.sh)
             mat == "matrix" \in {a.k, b.k}
         IN /\ Compatible(a.sh, b.sh)
            /\ (a.q /\ a.k # "list") \/ (b.q /\ b.k # "list")
            /\ mat => f \notin {"*", "**"} /\ Len(a.sh) = 2 /\ Len(b.sh) = 2
            /\ Size(sh) <= MaxSize
            /\ LET new == [k \in 1..Size(sh) |->
                        LET mi == Unflat(sh, k-1)
                        IN Op(f, <<a.el[BPos(a.sh, mi) + 1], b.el[BPos(b.sh, mi) + 1]>>)]
                   r == Arr(Kind2(a.k, b.k), sh, [k \in 1..Size(sh) |-> N0 + k], TRUE)
               IN Step(new, <<[r EXCEPT !.use = f \notin Cmp]>>,
                       [a |-> "bin", f |-> f, x |-> IF swap THEN j ELSE i,
                        y |-> IF swap THEN i ELSE j])

\* Array and scalar
BinScalar ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix"})), j \in Pick(Usable), f \in Pick(ElemOps),
          left \in Pick({TRUE, FALSE}), c \in Pick({"2", "0.5", "-1", "3", "0"}),
          ty \in Pick({"f", "i", "np", "elem", "elem", "elem"}) :
       \E e \in Pick(1..MaxI(1, Len(arrs[j].el))) :
         LET a == arrs[i]
             n == Size(a.sh)
             elem == ty = "elem" /\ arrs[j].el # << >> /\ arrs[j].q
             first == IF elem THEN << >> ELSE <<Const(c, IF ty = "i" /\ c # "0.5" THEN "i"
                                                         ELSE IF ty = "np" THEN "np" ELSE "f")>>
             s == IF elem THEN arrs[j].el[e] ELSE N0 + 1
             new == [k \in 1..n |-> Op(f, IF left THEN <<s, a.el[k]>> ELSE <<a.el[k], s>>)]
             r == Arr(a.k, a.sh, [k \in 1..n |-> N0 + Len(first) + k], TRUE)
         IN /\ a.q \/ (elem /\ nodes[s].op = "var")
            /\ a.k = "matrix" => f # "**"
            /\ Step(first \o new, <<[r EXCEPT !.use = f \notin Cmp]>>,
                    [a |-> "binscalar", f |-> f, x |-> i, s |-> s, left |-> left])

\* Matrix product: arrays with "@" or dot(), matrices with "*" too
MatOp(a, b) ==
    LET ra == IF Len(a.sh) = 1 THEN <<1>> \o a.sh ELSE a.sh
        rb == IF Len(b.sh) = 1 THEN b.sh \o <<1>> ELSE b.sh
        m == ra[1] k == ra[2] n == rb[2]
        per == 2*k - 1
        sh == (IF Len(a.sh) = 1 THEN << >> ELSE <<m>>) \o (IF Len(b.sh) = 1 THEN << >> ELSE <<n>>)
        \* Element (i, j), l-th operation: products, then sums
        Nd(i, j, l, base) ==
            IF l <= k THEN Op("*", <<a.el[i*k + l], b.el[(l-1)*n + j + 1]>>)
            ELSE Op("+", <<IF l = k+1 THEN base + 1 ELSE base + l - 1, base + l - k + 1>>)
    IN [sh |-> sh,
        nodes |-> [t \in 1..m*n*per |->
            LET e == (t-1) \div per l == ((t-1) % per) + 1
            IN Nd(e \div n, e % n, l, N0 + e*per)],
        el |-> [e \in 1..m*n |-> N0 + e*per]]
MatMul ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix"})), j \in Pick(Arrays({"array", "matrix"})),
          f \in Pick({"@", "dot", "*"}) :
         LET a == arrs[i] b == arrs[j]
             mat == "matrix" \in {a.k, b.k}
         IN /\ Len(a.sh) \in {1, 2} /\ Len(b.sh) \in {1, 2}
            /\ a.q \/ b.q
            /\ mat => Len(a.sh) = 2 /\ Len(b.sh) = 2
            /\ f = "*" => mat
            /\ a.sh[Len(a.sh)] = b.sh[1]
            /\ Size(a.sh) > 0 /\ Size(b.sh) > 0
            /\ LET m == Size(a.sh) \div a.sh[Len(a.sh)] n == Size(b.sh) \div b.sh[1]
               IN m*n <= MaxSize /\ 2*m*n*a.sh[Len(a.sh)] <= MaxNodes
            /\ LET r == MatOp(a, b)
               IN Step(r.nodes, <<Arr(Kind2(a.k, b.k), r.sh, r.el, TRUE)>>,
                       [a |-> "matmul", f |-> f, x |-> i, y |-> j])

\* Powers of square matrices
MatPow ==
    /\ Running
    /\ \E i \in Pick(Arrays({"matrix"})), p \in Pick({1, 2}) :
         LET a == arrs[i]
         IN /\ a.sh[1] = a.sh[2] /\ a.q
            /\ IF p = 2 THEN LET r == MatOp(a, a)
                            IN Step(r.nodes, <<Arr("matrix", a.sh, r.el, TRUE)>>,
                                    [a |-> "matpow", x |-> i, p |-> p])
               ELSE Step(<< >>, <<View(a, "matrix", a.sh, LAMBDA x : x)>>,
                         [a |-> "matpow", x |-> i, p |-> p])

Unary ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix"})), f \in Pick({"neg", "pos", "abs"}) :
         LET a == arrs[i] n == Size(a.sh)
         IN /\ a.q
            /\ Step([k \in 1..n |-> Op(f, <<a.el[k]>>)],
                    <<Arr(a.k, a.sh, [k \in 1..n |-> N0 + k], TRUE)>>,
                    [a |-> "unary", f |-> f, x |-> i])

\* Functions: NumPy name, scalar function. Plain results: not quantities
Table == {<<"arccos", "acos">>, <<"arccosh", "acosh">>, <<"arcsin", "asin">>,
          <<"arcsinh", "asinh">>, <<"asinh", "asinh">>, <<"arctan", "atan">>,
          <<"arctanh", "atanh">>, <<"ceil", "ceil">>, <<"cos", "cos">>, <<"cosh", "cosh">>,
          <<"degrees", "degrees">>, <<"erf", "erf">>, <<"erfc", "erfc">>, <<"exp", "exp">>,
          <<"expm1", "expm1">>, <<"fabs", "fabs">>, <<"floor", "floor">>, <<"gamma", "gamma">>,
          <<"isinf", "isinf">>, <<"isnan", "isnan">>, <<"lgamma", "lgamma">>, <<"log", "log">>,
          <<"log10", "log10">>, <<"log1p", "log1p">>, <<"modf", "modf">>,
          <<"radians", "radians">>, <<"sin", "sin">>, <<"sinh", "sinh">>, <<"sqrt", "sqrt">>,
          <<"tan", "tan">>, <<"tanh", "tanh">>, <<"trunc", "trunc">>}
Table2 == {<<"arctan2", "atan2">>, <<"copysign", "copysign">>, <<"fmod", "fmod">>,
           <<"hypot", "hypot">>, <<"pow", "pow">>, <<"ldexp", "ldexp">>}
PlainRes == {"ceil", "floor", "isinf", "isnan", "trunc"}
NotUsedAgain == {"isinf", "isnan", "modf"}
Func1 ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix", "list"})), f \in Pick(Table) :
         LET a == arrs[i] n == Size(a.sh)
             r == Arr(IF a.k = "list" THEN "array" ELSE a.k, a.sh, [k \in 1..n |-> N0 + k],
                      f[2] \notin PlainRes)
         IN \* (for 0-d arrays, the pair of results of modf() is made into an array)
            /\ f[2] = "modf" => a.sh # << >>
            \* (math.trunc() does not exist for NumPy integers)
            /\ f[2] = "trunc" => a.q /\ a.k # "list"
            /\ Step([k \in 1..n |-> Op(f[2], <<a.el[k]>>)],
                    <<[r EXCEPT !.use = f[2] \notin NotUsedAgain]>>,
                    [a |-> "func", f |-> f[1], x |-> i])
Func2 ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix", "list"})), j \in Pick(Arrays({"array", "list", "matrix"})),
          f \in Pick(Table2), c \in Pick({"0", "0", "2", "-1", "0.5"}), ty \in Pick({"f", "i"}) :
         LET a == arrs[i]
             \* Second argument: an array or a number (always, an integer, for ldexp())
             num == c # "0" \/ f[1] = "ldexp"
             cn == Const(IF f[1] = "ldexp" /\ c = "0.5" THEN "3" ELSE c,
                         IF f[1] = "ldexp" \/ (ty = "i" /\ c # "0.5") THEN "i" ELSE "f")
             b == IF num THEN Arr("scalar", << >>, <<N0 + 1>>, TRUE) ELSE arrs[j]
             sh == BShape(a.sh, b.sh)
             off == IF num THEN 1 ELSE 0
         IN /\ Compatible(a.sh, b.sh) /\ Size(sh) <= MaxSize
            /\ ("matrix" \in {a.k, b.k}) => Len(sh) = 2
            /\ Step((IF num THEN <<cn>> ELSE << >>)
                    \o [k \in 1..Size(sh) |->
                        LET mi == Unflat(sh, k-1)
                        IN Op(f[2], <<a.el[BPos(a.sh, mi) + 1], b.el[BPos(b.sh, mi) + 1]>>)],
                    <<Arr(Kind2(a.k, b.k), sh, [k \in 1..Size(sh) |-> N0 + off + k], TRUE)>>,
                    [a |-> "func2", f |-> f[1], x |-> i, y |-> IF num THEN 0 ELSE j,
                     s |-> IF num THEN N0 + 1 ELSE 0])

\* The functions applied to one quantity or number
FuncScalar ==
    /\ Running
    /\ \E i \in Pick(Usable), f \in Pick(Table) :
       \E e \in Pick(1..MaxI(1, Len(arrs[i].el))) :
         /\ arrs[i].el # << >> /\ f[2] # "modf"
         /\ f[2] = "trunc" => nodes[arrs[i].el[e]].op = "var"
         /\ Step(<<Op(f[2], <<arrs[i].el[e]>>)>>,
                 <<[Arr("array", << >>, <<N0 + 1>>, f[2] \notin PlainRes) EXCEPT !.use = FALSE]>>,
                 [a |-> "funcscalar", f |-> f[1], s |-> arrs[i].el[e]])

-----------------------------------------------------------------------------
\* Sums, means, products over an axis (0: all)
Reduce ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix"})), f \in Pick({"sum", "mean", "prod"}) :
       \E ax \in Pick(0..Len(arrs[i].sh)) :
         LET a == arrs[i]
             d == Len(a.sh)
             n == IF ax = 0 THEN Size(a.sh) ELSE a.sh[ax]
             rsh == IF ax = 0 THEN << >>
                    ELSE IF a.k = "matrix" THEN [a.sh EXCEPT ![ax] = 1]
                    ELSE [x \in 1..(d-1) |-> IF x < ax THEN a.sh[x] ELSE a.sh[x+1]]
             m == Size(rsh)
             \* t-th element of the e-th sum
             At(e, t) == IF ax = 0 THEN a.el[t]
                 ELSE LET ri == Unflat(rsh, e-1)
                          mi == [x \in 1..d |-> IF x = ax THEN t-1
                                    ELSE IF a.k = "matrix" \/ x < ax THEN ri[x] ELSE ri[x-1]]
                      IN a.el[Flat(a.sh, mi) + 1]
             extra == IF f = "mean" THEN 1 ELSE 0
             per == n - 1 + extra
             op == IF f = "prod" THEN "*" ELSE "+"
             count == IF f = "mean" THEN <<Const(ToString(n), "i")>> ELSE << >>
             base == N0 + Len(count)
             new == [u \in 1..m*per |->
                 LET e == (u-1) \div per + 1 t == ((u-1) % per) + 1
                     prev == IF t = 1 THEN At(e, 1) ELSE base + u - 1
                 IN IF extra = 1 /\ t = per THEN Op("/", <<prev, N0 + 1>>)
                    ELSE Op(op, <<prev, At(e, t+1)>>)]
         IN /\ a.q /\ n > 0 /\ m > 0
            /\ Step(count \o new,
                    <<Arr(IF rsh = << >> THEN "array" ELSE a.k, rsh,
                          [e \in 1..m |-> IF per = 0 THEN At(e, 1) ELSE base + e*per], TRUE)>>,
                    [a |-> "reduce", f |-> f, x |-> i, ax |-> ax])

Perm(sh, p) == [d \in 1..Len(sh) |-> sh[p[d]]]
Transpose ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix"})) :
         LET a == arrs[i] d == Len(a.sh)
             rsh == [x \in 1..d |-> a.sh[d+1-x]]
         IN Step(<< >>, <<View(a, a.k, rsh, LAMBDA k :
                               Flat(a.sh, [x \in 1..d |-> Unflat(rsh, k-1)[d+1-x]]) + 1)>>,
                 [a |-> "transpose", x |-> i])
\* (a copy)
Reshape ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array"})) :
       \E sh \in Pick({s \in Shapes : Size(s) = Size(arrs[i].sh)}) :
         Step(<< >>, <<Arr("array", sh, arrs[i].el, arrs[i].q)>>,
              [a |-> "reshape", x |-> i])
\* One index or reversal on the first dimension
Index ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix"})), rev \in Pick({TRUE, FALSE}) :
         LET a == arrs[i]
         IN /\ Len(a.sh) > 0 /\ a.sh[1] > 0
            /\ \E x \in Pick(1..a.sh[1]) :
                LET st == Stride(a.sh, 1)
                    rsh == IF rev THEN a.sh
                           ELSE IF a.k = "matrix" THEN [a.sh EXCEPT ![1] = 1] ELSE Tail(a.sh)
                    P(k) == IF rev THEN (a.sh[1]-1-(k-1) \div st)*st + ((k-1) % st) + 1
                            ELSE (x-1)*st + k
                    \* (alone, an element is not a view)
                    r == IF rsh = << >> THEN Arr("array", rsh, <<a.el[x]>>, a.q)
                         ELSE View(a, a.k, rsh, P)
                IN Step(<< >>, <<[r EXCEPT !.use = TRUE]>>,
                        [a |-> "index", x |-> i, rev |-> rev, n |-> x])

-----------------------------------------------------------------------------
\* An element is replaced, in an array and in what shares its memory: by another
\* element, or by a number
Put(cell, n) == [i \in 1..Len(arrs) |->
    [arrs[i] EXCEPT !.el = [k \in 1..Len(@) |-> IF arrs[i].c[k] = cell THEN n ELSE @[k]]]]
Assign ==
    /\ Running
    /\ \E i \in Pick(Arrays({"array", "matrix"})), j \in Pick(Usable),
          c \in Pick({"2", "-0.5", "0", "elem", "elem", "elem"}) :
       \E k \in Pick(1..MaxI(1, Len(arrs[i].el))), e \in Pick(1..MaxI(1, Len(arrs[j].el))) :
         LET elem == c = "elem"
             n == IF elem THEN arrs[j].el[e] ELSE N0 + 1
             new == IF elem THEN << >> ELSE <<Const(c, "f")>>
         IN /\ arrs[i].q /\ arrs[i].el # << >>
            /\ elem => arrs[j].el # << >> /\ arrs[j].q
            /\ Len(nodes) < MaxNodes
            /\ nodes' = nodes \o new
            /\ arrs' = Put(arrs[i].c[k], n)
            /\ log' = Append(log, [a |-> "assign", x |-> i, mi |-> Unflat(arrs[i].sh, k-1), s |-> n,
                                   res |-> << >>, nn |-> Len(nodes) + Len(new),
                                   els |-> << >>,
                                   upd |-> SetToSeq({<<p, q>> \in (1..Len(arrs)) \X (1..MaxSize) :
                                       q <= Len(arrs[p].c) /\ arrs[p].c[q] = arrs[i].c[k]})])
            /\ UNCHANGED done

\* Values and standard deviations are read on one array (all of them are read
\* at the end); alone: of one element
Extract ==
    /\ Running
    /\ \E i \in Pick(Usable), first \in Pick({"n", "s"}), alone \in Pick({TRUE, FALSE, FALSE}) :
         Step(<< >>, << >>, [a |-> "extract", x |-> i, first |-> first,
                             alone |-> alone /\ arrs[i].el # << >>])
\* The standard deviation of a variable changes
Vars == {k \in 1..Len(nodes) : nodes[k].op = "var"}
Set ==
    /\ Running
    /\ \E k \in Pick(Vars), s \in Pick({"0", "0.5", "3"}) :
         Step(<< >>, << >>, [a |-> "set", n |-> k, s |-> s])

Finish == /\ ~done /\ log # << >> /\ (Len(log) = MaxLen \/ (Sim /\ Rnd(1..20, log) = 1))
          /\ done' = TRUE /\ UNCHANGED <<nodes, arrs, log>>
          /\ PrintT("@@" \o ToJson([nodes |-> nodes, arrs |-> arrs, log |-> log]))

Init == nodes = << >> /\ arrs = << >> /\ log = << >> /\ done = FALSE
Next == \/ Create \/ Mixed \/ Plain \/ BinArr \/ BinScalar \/ MatMul \/ MatPow \/ Unary
        \/ Func1 \/ Func2 \/ FuncScalar \/ Reduce \/ Transpose \/ Reshape \/ Index \/ Assign
        \/ Extract \/ Set \/ Finish
Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
Consistent == \A i \in 1..Len(arrs) : LET a == arrs[i] IN
    /\ Size(a.sh) = Len(a.el)
    /\ \A k \in 1..Len(a.el) : a.el[k] \in 1..Len(nodes)
    /\ Len(a.c) = Len(a.el)
    /\ a.k = "matrix" => Len(a.sh) = 2
\* A place in memory has one content
SharedAgree == \A i, j \in 1..Len(arrs) : \A k \in 1..Len(arrs[i].c), l \in 1..Len(arrs[j].c) :
    arrs[i].c[k] = arrs[j].c[l] => arrs[i].el[k] = arrs[j].el[l]
\* A scalar is calculated from previous ones only
Acyclic == \A k \in 1..Len(nodes) : \A j \in 1..Len(nodes[k].a) : nodes[k].a[j] < k
\* Operations do not modify existing arrays, except assignments: one place
Assigned == Len(log') > Len(log) /\ log'[Len(log')].a = "assign"
Unmodified == [][IF Assigned
    THEN Cardinality(UNION {{arrs[i].c[k] : k \in {k \in 1..Len(arrs[i].el) :
                                                    arrs'[i].el[k] # arrs[i].el[k]}}
                            : i \in 1..Len(arrs)}) <= 1
    ELSE \A i \in 1..Len(arrs) : arrs'[i] = arrs[i]]_vs
NodesKept == [][\A i \in 1..Len(nodes) : nodes'[i] = nodes[i]]_vs
=============================================================================
