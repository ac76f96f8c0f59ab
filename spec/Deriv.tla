-------------------------------- MODULE Deriv --------------------------------
(* The mathematical functions and operators: domain, partial derivatives and *)
(* the rule for undefined derivatives. Arguments are exact rationals         *)
(* <<numerator, denominator>>, so that domains and singular points are       *)
(* decided exactly here. Derivatives are *terms* over x and y (first and     *)
(* second argument), evaluated as they are by the harness: they are          *)
(* deliberately written in other forms than in the implementation.           *)
(*                                                                           *)
(* A case: function, arguments, which arguments carry an uncertainty (and    *)
(* how), whether their standard deviation is 0. Each case is one behaviour:  *)
(* Init chooses it, Eval computes and prints what must be observed.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, Family, NRandom,
    Funs        \* functions of the family that are considered ({}: all)

VARIABLES case, res
vs == <<case, res>>

-----------------------------------------------------------------------------
(* Rationals: small numerators and denominators, positive denominators *)
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
R(i) == <<i, 1>>
IsZ(a) == a[1] = 0
IsPos(a) == a[1] > 0
IsNeg(a) == a[1] < 0
IsI(a) == a[1] % a[2] = 0
AbsR(a) == IF a[1] < 0 THEN <<-a[1], a[2]>> ELSE a
\* floor(x/y), y # 0
Fdiv(x, y) == LET p == x[1] * y[2]
                  q == x[2] * y[1]
              IN IF q > 0 THEN p \div q ELSE (-p) \div (-q)
IntRatio(x, y) == (x[1] * y[2]) % AbsR(<<x[2] * y[1], 1>>)[1] = 0
Trunc(x, y) == LET f == Fdiv(AbsR(x), AbsR(y))
               IN IF (x[1] < 0) # (y[1] < 0) THEN -f ELSE f

-----------------------------------------------------------------------------
(* Terms *)
X == <<"x">>
Y == <<"y">>
Q(n, d) == <<"q", n, d>>
N(i) == Q(i, 1)
PI == <<"pi">>
F(f, t) == <<"f", f, t>>
Plus(a, b) == <<"+", a, b>>
Minus(a, b) == <<"-", a, b>>
Times(a, b) == <<"*", a, b>>
Over(a, b) == <<"/", a, b>>
Power(a, b) == <<"^", a, b>>
Sq(a) == Times(a, a)
F2(a, b) == F("sqrt", Plus(Times(a, a), Times(b, b)))
Undef == <<"undef">>
Overflows == <<"over">>         \* a derivative too large for a float (NaN or infinite)
AnyOf(i) == <<"right", i>>      \* one-sided derivative (documented convention)
\* numerically calculated in the implementation: looser comparison
Num(t) == <<"num", t>>

Funcs1 == {"acos", "acosh", "asin", "asinh", "atan", "atanh", "cos", "cosh",
           "degrees", "erf", "erfc", "exp", "expm1", "fabs", "gamma", "lgamma", "log",
           "log10", "log1p", "radians", "sin", "sinh", "sqrt", "tan", "tanh",
           "neg", "pos", "abs"}
Funcs2 == {"atan2", "copysign", "hypot", "pow", "fmod", "log2args"}
Ops == {"+", "-", "*", "/", "//", "%", "**"}
LocallyConst == {"ceil", "floor", "isinf", "isnan", "trunc"}

\* Is f defined there? "yes", "no" (the standard function raises), "skip" (the
\* value overflows, or is not modelled)
Dom1(f, x) ==
    CASE f \in {"acos", "asin"} -> IF RLe(R(-1), x) /\ RLe(x, R(1)) THEN "yes" ELSE "no"
      [] f = "acosh" -> IF RLe(R(1), x) THEN "yes" ELSE "no"
      [] f = "atanh" -> IF RLt(R(-1), x) /\ RLt(x, R(1)) THEN "yes" ELSE "no"
      [] f \in {"log", "log10"} -> IF IsPos(x) THEN "yes" ELSE "no"
      [] f = "log1p" -> IF RLt(R(-1), x) THEN "yes" ELSE "no"
      [] f = "sqrt" -> IF IsNeg(x) THEN "no" ELSE "yes"
      [] f \in {"gamma", "lgamma"} ->
            IF ~IsPos(x) /\ IsI(x) THEN "no"
            ELSE IF RLt(AbsR(x), R(20)) /\ RLt(<<1, 100>>, AbsR(x)) THEN "yes" ELSE "skip"
      [] f \in {"exp", "expm1", "cosh", "sinh"} ->
            IF RLt(AbsR(x), R(300)) THEN "yes" ELSE "skip"
      [] OTHER -> "yes"

Der1(f, x) ==
    CASE f = "acos" -> IF RLt(R(-1), x) /\ RLt(x, R(1))
                       THEN Over(N(-1), F("sqrt", Times(Minus(N(1), X), Plus(N(1), X))))
                       ELSE Undef
      [] f = "asin" -> IF RLt(R(-1), x) /\ RLt(x, R(1))
                       THEN Over(N(1), F("cos", F("asin", X)))
                       ELSE Undef
      [] f = "acosh" -> IF RLt(R(1), x)
                        THEN Over(N(1), F("sqrt", Times(Minus(X, N(1)), Plus(X, N(1)))))
                        ELSE Undef
      [] f = "asinh" -> Over(N(1), F("cosh", F("asinh", X)))
      [] f = "atan" -> Sq(F("cos", F("atan", X)))
      [] f = "atanh" -> Over(N(1), Times(Minus(N(1), X), Plus(N(1), X)))
      [] f = "cos" -> Times(N(-1), F("sin", X))
      [] f = "cosh" -> Over(Minus(F("exp", X), F("exp", Times(N(-1), X))), N(2))
      [] f = "sinh" -> Over(Plus(F("exp", X), F("exp", Times(N(-1), X))), N(2))
      [] f = "tan" -> Over(N(1), Sq(F("cos", X)))
      [] f = "tanh" -> Over(N(1), Sq(F("coshx", X)))
      [] f = "degrees" -> Over(N(180), PI)
      [] f = "radians" -> Over(PI, N(180))
      [] f = "erf" -> Times(Over(N(2), F("sqrt", PI)), F("exp", Times(N(-1), Sq(X))))
      [] f = "erfc" -> Times(Over(N(-2), F("sqrt", PI)), F("exp", Times(N(-1), Sq(X))))
      [] f = "exp" -> F("exp", X)
      [] f = "expm1" -> F("exp", X)
      [] f \in {"fabs", "abs"} -> IF IsZ(x) THEN AnyOf(1) ELSE IF IsPos(x) THEN N(1) ELSE N(-1)
      [] f = "log" -> Over(N(1), X)
      [] f = "log10" -> Over(N(1), Times(X, F("log", N(10))))
      [] f = "log1p" -> Over(N(1), Plus(X, N(1)))
      [] f = "sin" -> F("cos", X)
      [] f = "sqrt" -> IF IsZ(x) THEN Undef ELSE Over(F("sqrt", X), Times(N(2), X))
      [] f = "gamma" -> Num(Times(F("gamma", X), F("digamma", X)))
      [] f = "lgamma" -> Num(F("digamma", X))
      [] f = "neg" -> N(-1)
      [] f = "pos" -> N(1)

Dom2(f, x, y) ==
    CASE f \in {"pow", "**"} ->
            IF IsZ(x) /\ IsNeg(y) THEN "no"
            ELSE IF IsNeg(x) /\ ~IsI(y) THEN "no"
            ELSE IF RLt(AbsR(y), R(40)) THEN "yes" ELSE "skip"
      [] f = "fmod" -> IF IsZ(y) THEN "no"
                       ELSE IF IntRatio(x, y) /\ ~IsZ(x) THEN "jump" ELSE "yes"
      [] f = "log2args" -> IF ~IsPos(x) \/ ~IsPos(y) \/ REq(y, R(1)) THEN "no" ELSE "yes"
      [] f \in {"/", "//"} -> IF IsZ(y) THEN "no" ELSE "yes"
      [] f = "%" -> IF IsZ(y) THEN "no" ELSE IF IntRatio(x, y) THEN "jump" ELSE "yes"
      [] OTHER -> "yes"

Sgn(a) == IF a[1] < 0 THEN -1 ELSE 1

Der2(f, i, x, y) ==
    CASE f = "atan2" ->     \* atan2(x, y): x is the ordinate
            IF IsZ(x) /\ IsZ(y) THEN Undef
            ELSE IF i = 1 THEN Over(Y, Sq(F2(X, Y))) ELSE Over(Times(N(-1), X), Sq(F2(X, Y)))
      [] f = "copysign" ->
            IF i = 2 THEN N(0) ELSE IF IsZ(x) THEN AnyOf(Sgn(y)) ELSE N(Sgn(x) * Sgn(y))
      [] f = "hypot" ->
            IF IsZ(x) /\ IsZ(y) THEN Undef
            ELSE Over(IF i = 1 THEN X ELSE Y, F2(X, Y))
      [] f \in {"pow", "**"} ->
            IF i = 1
            THEN IF IsZ(y) THEN N(0)
                 ELSE IF IsZ(x) /\ ~IsI(y) THEN Undef
                 ELSE IF IsZ(x) THEN (IF REq(y, R(1)) THEN N(1) ELSE N(0))
                 ELSE Over(Times(Y, Power(X, Y)), X)
            ELSE IF IsZ(x) /\ IsPos(y) THEN N(0)
                 ELSE IF ~IsPos(x) THEN Undef
                 ELSE Times(Power(X, Y), F("log", X))
      [] f = "fmod" -> IF i = 1 THEN N(1) ELSE N(-Trunc(x, y))
      [] f = "log2args" ->
            IF i = 1 THEN Over(N(1), Times(X, F("log", Y)))
            ELSE Over(Times(N(-1), F("log", X)), Times(Y, Sq(F("log", Y))))
      [] f = "+" -> N(1)
      [] f = "-" -> IF i = 1 THEN N(1) ELSE N(-1)
      [] f = "*" -> IF i = 1 THEN Y ELSE X
      [] f = "/" -> IF i = 1 THEN Over(N(1), Y) ELSE Over(Times(N(-1), X), Sq(Y))
      [] f = "//" -> N(0)
      [] f = "%" -> IF i = 1 THEN N(1) ELSE N(-Fdiv(x, y))

(* Very large and very small numbers: <<n, d, e>> is n/d * 10^e. The domains   *)
(* and the singular points are those of a proxy, that has the same position   *)
(* with respect to all the special points (large floats are even integers).   *)
(* What has to be decided is whether the value and the derivatives can be     *)
(* represented.                                                               *)
Ex(x) == IF Len(x) = 3 THEN x[3] ELSE 0
Pr(x) == IF Len(x) = 2 THEN x
         ELSE IF x[3] > 0 THEN R(Sgn(x) * 1000000) ELSE <<Sgn(x), 1000000>>
IsBig(x) == Len(x) = 3
\* (the value can underflow: its derivatives are those of the function)
Within(e) == e < 300
TooLarge(e) == e > 308
DomBig(f, x) ==     \* sequence of arguments, at least one being big
    LET e1 == Ex(x[1])
        e2 == Ex(x[2])
    IN CASE f \in {"gamma", "lgamma"} -> IF e1 < 0 THEN "yes" ELSE "skip"
         [] f \in {"+", "-", "atan2", "hypot", "copysign"} -> "yes"
         [] f = "*" -> IF Within(e1 + e2) THEN "yes" ELSE "skip"
         [] f \in {"/", "//"} -> IF IsZ(x[2]) THEN "no"
                                 ELSE IF Within(e1 - e2) THEN "yes" ELSE "skip"
         [] f \in {"pow", "**"} ->
                IF ~IsBig(x[2]) /\ Within((e1 * x[2][1]) \div x[2][2])
                THEN Dom2(f, Pr(x[1]), x[2]) ELSE "skip"
         [] f \in {"modf", "frexp", "ldexp"} -> "yes"
         [] Len(x) = 1 -> Dom1(f, Pr(x[1]))
         [] f = "log2args" -> Dom2(f, Pr(x[1]), Pr(x[2]))
DerBig(f, i, x) ==
    LET e1 == Ex(x[1])
        e2 == Ex(x[2])
    IN CASE f = "gamma" -> IF TooLarge(-2 * e1) THEN Overflows
                           ELSE Num(Over(N(-1), Sq(X)))
         [] f = "lgamma" -> Num(Over(N(-1), X))
         [] f = "/" /\ i = 2 -> IF IsZ(x[1]) THEN N(0)
                                ELSE IF TooLarge(e1 - 2 * e2) THEN Overflows
                                ELSE Over(Times(N(-1), X), Sq(Y))
         [] f \in {"pow", "**"} /\ i = 1 /\ ~IsZ(x[2]) ->
                IF TooLarge((e1 * (x[2][1] - x[2][2])) \div x[2][2]) THEN Overflows
                ELSE Over(Times(Y, Power(X, Y)), X)
         [] f = "ldexp" -> IF i = 2 THEN <<"none">>
                           ELSE IF x[2][1] > 1023 THEN Overflows
                           ELSE Power(N(2), Q(x[2][1], 1))
         [] f = "modf" -> N(1)
         [] f = "frexp" -> <<"scale">>      \* result divided by the argument
         [] Len(x) = 1 -> Der1(f, Pr(x[1]))
         [] OTHER -> Der2(f, i, Pr(x[1]), Pr(x[2]))

(* Functions of another kind: several results, integer argument, sequences *)
FuncsSp == {"modf", "frexp", "ldexp", "fsum", "hypot3", "hypot1"}
RECURSIVE Expo(_)
\* frexp: x = m * 2^e, 1/2 <= |m| < 1 (0 for 0)
Expo(a) == IF IsZ(a) THEN 0
           ELSE IF RLe(R(1), AbsR(a)) THEN 1 + Expo(<<a[1], 2*a[2]>>)
           ELSE IF RLt(AbsR(a), <<1, 2>>) THEN Expo(<<2*a[1], a[2]>>) - 1
           ELSE 0
DomSp(f, x) == IF f = "frexp" /\ IsZ(x[1]) THEN "yes" ELSE "yes"
DerSp(f, i, x) ==
    CASE f = "modf" -> N(1)
      [] f = "frexp" -> Power(N(2), N(-Expo(x[1])))
      [] f = "ldexp" -> IF i = 1 THEN Power(N(2), Q(x[2][1], x[2][2])) ELSE <<"none">>
      [] f = "fsum" -> N(1)
      [] f \in {"hypot3", "hypot1"} ->
            IF \A j \in 1..Len(x) : IsZ(x[j]) THEN Undef
            ELSE Over(Q(x[i][1], x[i][2]), <<"hyp", x>>)

-----------------------------------------------------------------------------
(* Points *)
Grid1 == {R(i) : i \in {-3, -2, -1, 0, 1, 2, 3, 5, 12, 100}}
         \cup {<<1,2>>, <<-1,2>>, <<1,3>>, <<-2,3>>, <<9,10>>, <<-9,10>>, <<999,1000>>,
               <<-999,1000>>, <<3,2>>, <<-5,2>>, <<22,7>>, <<-22,7>>, <<1,1000>>,
               <<-1,1000>>, <<1001,1000>>, <<1000000,1>>, <<-1000000,1>>, <<1,1000000>>,
               <<7,2>>, <<37,10>>, <<-17,10>>}
Grid2 == {R(i) : i \in {-4, -2, -1, 0, 1, 2, 3, 5}}
         \cup {<<1,2>>, <<-1,2>>, <<3,2>>, <<-5,3>>, <<1,4>>, <<100,7>>, <<-7,4>>}
Rnd(S) == IF Sim THEN {<<RandomElement(-500..500), RandomElement(1..60)>> : n \in 1..NRandom}
          ELSE {}
RndDom == IF Sim THEN {<<RandomElement(1..400), RandomElement(1..400)>> : n \in 1..NRandom}
               \cup {<<RandomElement(-399..399), 400>> : n \in 1..NRandom}
          ELSE {}
RndPair == IF Sim THEN {<<<<RandomElement(-60..60), RandomElement(1..8)>>,
                          <<RandomElement(-60..60), RandomElement(1..8)>>>> : n \in 1..NRandom}
           ELSE {}

\* How an argument is given:
\* "U"  a variable, "D" a derived quantity (twice a variable, minus itself),
\* "Z"  a variable with a null standard deviation, "C" a constant (no uncertainty),
\* "K" a quantity without variables; "S" (2nd argument) the same object as the first
\* one (equal arguments only)
\* "V" a variable whose nominal value is -0.0, "W" the constant -0.0
Forms1 == {"U", "D", "Z", "C", "K", "V", "W"}
Forms2 == {<<"U", "U">>, <<"U", "C">>, <<"C", "U">>, <<"U", "Z">>, <<"Z", "U">>,
           <<"Z", "Z">>, <<"D", "U">>, <<"U", "D">>, <<"C", "C">>, <<"K", "U">>, <<"Z", "C">>,
           <<"C", "Z">>, <<"U", "S">>, <<"Z", "S">>, <<"U", "W">>, <<"W", "U">>,
           <<"U", "V">>, <<"V", "U">>, <<"C", "V">>, <<"V", "C">>, <<"V", "V">>,
           <<"W", "W">>}

\* Values that are not finite: <<1,0>> is inf, <<-1,0>> -inf, <<0,0>> nan. Only
\* the nominal value is specified.
Odd == {<<1, 0>>, <<-1, 0>>, <<0, 0>>}
CasesInf ==
    {<<f, <<x>>, <<m>>>> : f \in Funcs1 \cup LocallyConst \cup {"modf", "frexp"}, x \in Odd,
                            m \in {"U", "Z", "C"}}
    \cup UNION {{<<f, <<x, y>>, m>> : x \in Odd \cup {R(0), R(1), R(-2)},
                 y \in Odd \cup {R(0), R(1), R(-2)}} : f \in (Funcs2 \ {"log2args"}) \cup Ops,
                                 m \in {<<"U", "U">>, <<"U", "C">>, <<"C", "U">>}}
GridS == {R(i) : i \in {-8, -3, -1, 0, 1, 2, 5, 64}} \cup {<<1,2>>, <<-1,2>>, <<3,8>>, <<-7,4>>,
          <<1,3>>, <<1,1024>>, <<1000,3>>}
Forms3 == {<<a, b, d>> : a \in {"U", "Z", "C", "D"}, b \in {"U", "C", "K"}, d \in {"U", "C"}}
CasesSp ==
    {<<f, <<x>>, <<m>>>> : f \in {"modf", "frexp", "fsum", "hypot1"}, x \in GridS \cup RndDom,
                            m \in Forms1}
    \cup {<<"ldexp", <<x, R(i)>>, <<m, "C">>>> : x \in GridS, i \in {-30, -3, -1, 0, 1, 2, 10},
                                             m \in Forms1}
    \cup {<<"fsum", <<x, y>>, m>> : x \in GridS, y \in GridS, m \in Forms2}
    \cup UNION {{<<f, <<x, y, z>>, m>> : x \in {R(0), R(-2), <<3,2>>}, y \in {R(0), R(1)},
                  z \in {R(0), R(5), <<-1,4>>}} : f \in {"fsum", "hypot3"},
                 m \in Forms3}

Exps == {-200, -120, 120, 200}
Bigs == {<<k, 1, e>> : k \in {1, -1, 3, -7}, e \in Exps}
CasesBig ==
    {<<f, <<x>>, <<m>>>> : f \in Funcs1 \cup LocallyConst \cup {"modf", "frexp"},
                           x \in Bigs, m \in {"U", "D", "Z", "C"}}
    \cup UNION {{<<f, <<x, y>>, m>> : x \in Bigs, y \in Bigs \cup {R(0), R(1), <<-7, 3>>}}
                \cup {<<f, <<y, x>>, m>> : x \in Bigs, y \in {R(0), R(1), <<-7, 3>>}} :
            f \in {"atan2", "hypot", "copysign", "log2args", "+", "-", "*", "/", "//"},
            m \in {<<"U", "U">>, <<"U", "C">>, <<"C", "U">>, <<"Z", "U">>, <<"U", "Z">>}}
    \cup UNION {{<<f, <<x, y>>, m>> : x \in Bigs, y \in {R(-3), R(-1), R(0), R(1), R(2), R(3),
                    <<-3, 2>>, <<-1, 2>>, <<1, 2>>, <<3, 2>>, <<-5, 4>>}} :
            f \in {"pow", "**"},
            m \in {<<"U", "U">>, <<"U", "C">>, <<"C", "U">>, <<"Z", "U">>, <<"U", "Z">>}}
    \cup {<<"ldexp", <<x, R(i)>>, <<m, "C">>>> : x \in {<<1, 1, -300>>, <<-3, 1, -250>>},
            i \in {1100, 1200, 1024, 1023, 900, 3}, m \in {"U", "D", "Z", "C"}}
\* Large quotients
CasesQuo ==
    UNION {{<<f, <<x, y>>, m>> : x \in {R(1000000000), R(-1000000000), R(999999937)},
            y \in {R(3), R(-3), R(7), R(-11), <<7, 2>>, <<-3, 2>>}} : f \in {"%", "fmod"},
            m \in Forms2}

\* Next to the borders of domains: <<n, d, 0, s>> is the s-th float after n/d (before, if
\* negative). Values, domains.
Nudges == {-1, 0, 1}
Edge(n, d) == {<<n, d, 0, s>> : s \in Nudges}
EdgeQ(q) == <<q[1], q[2]>>
EdgePts == UNION {Edge(b, 1) : b \in {-1, 0, 1}}
CasesEdge ==
    {<<f, <<x>>, <<m>>>> : f \in Funcs1 \cup LocallyConst \cup {"modf", "frexp"},
                           x \in EdgePts \cup Edge(2, 1) \cup Edge(-5, 2), m \in {"U", "D", "Z", "C"}}
    \cup UNION {{<<f, <<x, y>>, m>> : x \in UNION {Edge(b, 1) : b \in {-3, -2, -1, 0, 1, 2}},
                 y \in UNION {Edge(b, 1) : b \in {-3, -1, 0, 1, 2, 5}} \cup Edge(1, 2)} :
            f \in Funcs2 \cup Ops, m \in {<<"U", "U">>, <<"U", "C">>, <<"C", "U">>, <<"Z", "U">>}}
\* Sign of q - b
SideOf(q, b) == IF REq(EdgeQ(q), R(b)) THEN q[4] ELSE IF RLt(EdgeQ(q), R(b)) THEN -1 ELSE 1
IntEdge(q) == q[4] = 0 /\ IsI(EdgeQ(q))
OutOfEdge(f, x) ==
    CASE f \in {"acos", "asin"} -> SideOf(x[1], 1) > 0 \/ SideOf(x[1], -1) < 0
      [] f = "atanh" -> SideOf(x[1], 1) >= 0 \/ SideOf(x[1], -1) <= 0
      [] f = "acosh" -> SideOf(x[1], 1) < 0
      [] f \in {"log", "log10"} -> SideOf(x[1], 0) <= 0
      [] f = "log1p" -> SideOf(x[1], -1) <= 0
      [] f = "sqrt" -> SideOf(x[1], 0) < 0
      [] f \in {"gamma", "lgamma"} -> SideOf(x[1], 0) <= 0 /\ IntEdge(x[1])
      [] f = "log2args" -> SideOf(x[1], 0) <= 0 \/ SideOf(x[2], 0) <= 0 \/ SideOf(x[2], 1) = 0
      [] f \in {"pow", "**"} -> (SideOf(x[1], 0) = 0 /\ SideOf(x[2], 0) < 0)
                               \/ (SideOf(x[1], 0) < 0 /\ ~IntEdge(x[2]))
      [] f \in {"fmod", "/", "//", "%"} -> SideOf(x[2], 0) = 0
      [] OTHER -> FALSE

Chosen(S) == IF Funs = {} THEN S ELSE S \cap Funs
Cases ==
    CASE Family = "f1" ->
            {<<f, <<x>>, <<m>>>> : f \in Funcs1 \cup LocallyConst,
                                   x \in Grid1 \cup Rnd(1) \cup RndDom, m \in Forms1}
      [] Family = "f2" ->
            UNION {{<<f, <<x, y>>, m>> : x \in Grid2, y \in Grid2} : f \in Chosen(Funcs2), m \in Forms2}
      [] Family = "sp" -> CasesSp
      [] Family = "inf" -> CasesInf
      [] Family = "big" -> CasesBig
      [] Family = "edge" -> CasesEdge
      [] Family = "quo" -> CasesQuo
      [] Family = "f2r" ->
            {<<f, p, m>> : f \in Chosen(Funcs2), p \in RndPair, m \in Forms2}
      [] Family = "op" ->
            UNION {{<<f, <<x, y>>, m>> : x \in Grid2, y \in Grid2} : f \in Chosen(Ops), m \in Forms2}
      [] Family = "opr" ->
            {<<f, p, m>> : f \in Chosen(Ops), p \in RndPair, m \in Forms2}

Sensible(c) ==
    /\ Len(c[2]) = 2 /\ Family \notin {"inf", "edge"} => /\ (c[3][2] = "S" => REq(c[2][1], c[2][2]))
    /\ \A i \in 1..Len(c[2]) : c[3][i] \in {"V", "W"} => REq(c[2][i], R(0)) /\ Family # "inf"

-----------------------------------------------------------------------------
(* What must be observed *)

Arity(c) == Len(c[2])
Domain(c) == IF Family = "inf" THEN "any"
             ELSE IF Family = "edge" THEN (IF OutOfEdge(c[1], c[2]) THEN "no" ELSE "any")
             ELSE IF c[1] \in LocallyConst THEN "yes"
             ELSE IF \E i \in 1..Arity(c) : IsBig(c[2][i]) THEN DomBig(c[1], c[2])
             ELSE IF c[1] \in FuncsSp THEN DomSp(c[1], c[2])
             ELSE IF Arity(c) = 1 THEN Dom1(c[1], c[2][1])
             ELSE Dom2(c[1], c[2][1], c[2][2])
Der(c, i) == IF \E j \in 1..Arity(c) : IsBig(c[2][j]) THEN DerBig(c[1], i, c[2])
             ELSE IF c[1] = "copysign" /\ c[3][2] \in {"V", "W"}
             THEN Der2("copysign", i, c[2][1], R(-1))   \* (the sign of -0.0)
             ELSE IF c[1] \in FuncsSp THEN DerSp(c[1], i, c[2])
             ELSE IF Arity(c) = 1 THEN Der1(c[1], c[2][1])
             ELSE Der2(c[1], i, c[2][1], c[2][2])

HasVar(m) == m \in {"U", "D", "Z", "S", "V"}
\* Is the result a plain number? (only when no argument is a quantity)
Plain(c) == c[1] \in LocallyConst \/ \A i \in 1..Arity(c) : c[3][i] \in {"C", "W"}

Eval ==
    /\ res = "none"
    /\ Sensible(case)
    /\ LET dom == Domain(case)
           n == Arity(case)
           need == {i \in 1..n : HasVar(case[3][i])}
           ds == [i \in 1..n |-> IF dom = "yes" /\ ~Plain(case) /\ HasVar(case[3][i])
                                 THEN Der(case, i) ELSE <<"none">>]
           \* an undefined derivative matters unless the argument is exact
           nan == \E i \in 1..n : ds[i] = Undef /\ (case[3][i] \in {"U", "D", "V"}
                                    \/ (case[3][i] = "S" /\ case[3][1] = "U"))
       IN IF dom \in {"skip", "jump"} /\ need # {} THEN res' = "skip"
          ELSE /\ res' = "done"
               /\ PrintT("@@" \o ToJson([f |-> case[1], x |-> case[2], m |-> case[3],
                     dom |-> dom, plain |-> Plain(case), d |-> ds,
                     std |-> IF nan THEN "nan" ELSE "num"]))
    /\ UNCHANGED case

Init == case \in Cases /\ res = "none"
Spec == Init /\ [][Eval]_vs

-----------------------------------------------------------------------------
(* Meta-properties of the table *)
\* Every function has derivatives wherever it is defined (the table is total)
Total == (Sensible(case) /\ Domain(case) = "yes" /\ case[1] \notin LocallyConst) =>
            \A i \in 1..Arity(case) : Len(Der(case, i)) >= 1
=============================================================================
