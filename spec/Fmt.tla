-------------------------------- MODULE Fmt ---------------------------------
(* Formatting of quantities: from a value, a standard deviation and a format *)
(* specification to the set of acceptable texts (there is more than one only *)
(* when a value is exactly half-way between two roundings).                  *)
(*                                                                           *)
(* A machine picks numbers, then specifications; each step is one expected   *)
(* result, printed for the harness.                                          *)
EXTENDS Decimals, FiniteSets, TLC, Json

CONSTANTS Sim,        \* random behaviours
          Len_,       \* length of the behaviours
          Family      \* which numbers and specifications ("digits", "layout"...)

VARIABLES num, hist, out
vs == <<num, hist, out>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

-----------------------------------------------------------------------------
(* Format specifications:                                                    *)
(*  [fill, align, sign, zero, width, comma, prec, u, type, opts, cust]       *)
(* width 0: none; prec -1: none; opts: set of "P", "S", "L", "p";            *)
(* cust: what the user customized globally (see the end of "Layout")         *)
SpecText(f) ==
    f.fill \o f.align \o f.sign \o (IF f.zero THEN "0" ELSE "")
    \o (IF f.width > 0 THEN NatStr(f.width) ELSE "")
    \o (IF f.comma THEN "," ELSE "")
    \o (IF f.prec >= 0 THEN "." \o NatStr(f.prec) ELSE "")
    \o (IF f.u THEN "u" ELSE "") \o f.type
    \o (IF "S" \in f.opts THEN "S" ELSE "") \o (IF "P" \in f.opts THEN "P" ELSE "")
    \o (IF "L" \in f.opts THEN "L" ELSE "") \o (IF "p" \in f.opts THEN "p" ELSE "")

PlainSpec == [fill |-> "", align |-> "", sign |-> "", zero |-> FALSE, width |-> 0,
              comma |-> FALSE, prec |-> -1, u |-> FALSE, type |-> "", opts |-> {}, cust |-> {}]

Upper(f) == f.type \in {"E", "F", "G"}
General(f) == f.type \in {"", "g", "G"}
Expo(f) == f.type \in {"e", "E"}
FixedType(f) == f.type \in {"f", "F", "%"}

-----------------------------------------------------------------------------
(* Where the digits stop, and the common exponent                            *)

\* Position of the last digit so that |x| # 0 has k significant digits
LimitSet(x, k) ==
    LET lim == First(x) - k + 1
    IN {IF First(r) > First(x) THEN lim + 1 ELSE lim : r \in RoundSet(x, lim)}

\* Particle Data Group rule: number of digits and standard deviation displayed
PdgOf(d, s) == IF d <= 354 THEN [k |-> 2, s |-> s]
               ELSE IF d <= 949 THEN [k |-> 1, s |-> s]
               ELSE [k |-> 2, s |-> [s EXCEPT !.ds = <<1>>, !.e = s.e + 1]]
PdgSet(s) ==
    LET d == 100 * At(s, s.e) + 10 * At(s, s.e - 1) + At(s, s.e - 2)
    IN {PdgOf(d, s)}
       \* A limit of the rule, reached exactly, can be on either side
       \cup (IF Len(s.ds) <= 3 THEN {PdgOf(d - 1, s)} ELSE {})

\* Control of the digits of the uncertainty
Controlled(n, s, f) == /\ (f.prec = -1 /\ Fin(n) /\ Fin(s)) \/ f.u
                       /\ Fin(s) /\ s.ds # << >>
Refused(n, s, f) == Controlled(n, s, f) /\ f.prec = 0

Reference(n, s) == IF ~Fin(n) THEN s
                   ELSE IF ~Fin(s) THEN Abs(n)
                   ELSE IF Less(n, s) THEN s ELSE Abs(n)
SomeFinite(n, s) == Fin(n) \/ Fin(s)

FloatPrec(f) == IF f.prec >= 0 THEN f.prec ELSE IF f.type = "" THEN 12 ELSE 6

\* Set of [s: standard deviation displayed, lim: position of the last digit]
Limits(n, s, f) ==
    IF Controlled(n, s, f)
    THEN UNION {{[s |-> p.s, lim |-> l] : l \in LimitSet(p.s, p.k)}
                : p \in (IF f.prec >= 0 THEN {[k |-> f.prec, s |-> s]} ELSE PdgSet(s))}
    ELSE IF ~SomeFinite(n, s) THEN {[s |-> s, lim |-> 0]}
    ELSE IF FixedType(f) THEN {[s |-> s, lim |-> -FloatPrec(f)]}
    ELSE LET k == IF Expo(f) THEN FloatPrec(f) + 1 ELSE Max(FloatPrec(f), 1)
         IN {[s |-> s, lim |-> l] : l \in LimitSet(Reference(n, s), k)}

\* Set of choices: exponent factored out or not, number of decimals
Choices(n, s, f) ==
    UNION {{LET exp == IF FixedType(f) \/ ~SomeFinite(n, s) THEN FALSE
                       ELSE IF Expo(f) THEN TRUE
                       ELSE ~(-4 <= ce /\ l.lim <= 0)
                ce2 == IF exp THEN ce ELSE 0
            IN [s |-> l.s, exp |-> exp, ce |-> ce2,
                prec |-> IF ~SomeFinite(n, s) THEN FloatPrec(f)
                         ELSE Max(ce2 - l.lim, IF f.type = "" /\ IsZero(s) THEN 1 ELSE 0)]
            : ce \in {First(r) : r \in RoundSet(Reference(n, s), l.lim)}}
           : l \in Limits(n, s, f)}

-----------------------------------------------------------------------------
(* Texts of unsigned numbers: [int: digits of the integer part, rest, alpha] *)
BodyText(b, comma) ==   \* with the thousands separators
    LET RECURSIVE Sep(_)
        Sep(t) == IF Len(t) <= 3 THEN t
                  ELSE Sep(SubSeq(t, 1, Len(t) - 3)) \o "," \o SubSeq(t, Len(t) - 2, Len(t))
    IN (IF comma /\ ~b.alpha THEN Sep(b.int) ELSE b.int) \o b.rest
RECURSIVE ZeroPad(_, _, _)
ZeroPad(b, comma, width) ==
    IF Len(BodyText(b, comma)) >= width THEN BodyText(b, comma)
    ELSE ZeroPad([b EXCEPT !.int = "0" \o @], comma, width)

FixedBody(x, prec) == [int |-> IntDigits(x), rest |-> FixedRest(x, prec), alpha |-> FALSE]
AlphaBody(x, up) == [int |-> "", alpha |-> TRUE,
                     rest |-> IF x.k = "nan" THEN IF up THEN "NAN" ELSE "nan"
                              ELSE IF up THEN "INF" ELSE "inf"]
FixedBodies(x, prec, up) ==
    IF Fin(x) THEN {FixedBody(r, prec) : r \in RoundSet(x, -prec)} ELSE {AlphaBody(x, up)}

\* Like a float with the same precision and type ("", "g" or "G")
FloatBody(r, x, exp, dot, up) ==    \* rounded number
    IF exp
    THEN [int |-> DigitStr[At(r, First(r)) + 1], alpha |-> FALSE,
          rest |-> (IF Len(r.ds) > 1 THEN "." \o DsStr(Tail(r.ds)) ELSE "")
                   \o (IF up THEN "E" ELSE "e")
                   \o (IF First(r) < 0 THEN "-" ELSE "+")
                   \o Nat2Str(IF First(r) < 0 THEN -First(r) ELSE First(r))]
    ELSE FixedBody(r, Max(Len(r.ds) - 1 - First(r), IF dot THEN 1 ELSE 0))
FloatBodies(x, f) ==
    IF ~Fin(x) THEN {AlphaBody(x, Upper(f))}
    ELSE IF f.type = "" /\ f.prec = -1
    THEN {FloatBody(x, x, First(x) < -4 \/ First(x) >= 16, TRUE, FALSE)}
    ELSE LET p == Max(FloatPrec(f), 1)
         IN {FloatBody(r, x, First(r) < -4 \/ First(r) >= (IF f.type = "" THEN p - 1 ELSE p),
                       f.type = "", Upper(f)) : r \in RoundSet(x, First(x) - p + 1)}

SignText(neg, f) == IF neg THEN "-" ELSE IF f.sign = "-" THEN "" ELSE f.sign
\* Signed number, zeros being added up to the width
Number(b, sign, f, width) ==
    sign \o ZeroPad(b, f.comma, IF f.zero /\ f.width > 0 THEN width - Len(sign) ELSE 0)

-----------------------------------------------------------------------------
(* Layout                                                                    *)
Align(t, f) ==
    LET al == IF f.align = "" THEN ">" ELSE f.align
        c == IF f.fill = "" THEN " " ELSE f.fill
        miss == Max(f.width - Len(t), 0)
        signed == Len(t) > 0 /\ SubSeq(t, 1, 1) \in {"+", "-", " "}
    IN CASE al = ">" -> Rep(c, miss) \o t
         [] al = "<" -> t \o Rep(c, miss)
         [] al = "^" -> Rep(c, miss \div 2) \o t \o Rep(c, miss - miss \div 2)
         [] al = "=" -> IF signed THEN SubSeq(t, 1, 1) \o Rep(c, miss) \o SubSeq(t, 2, Len(t))
                        ELSE Rep(c, miss) \o t

RECURSIVE SuperStr(_)
SupDigits == <<"⁰", "¹", "²", "³", "⁴", "⁵", "⁶", "⁷", "⁸", "⁹">>
SuperStr(i) == IF i < 0 THEN "⁻" \o SuperStr(-i)
               ELSE IF i < 10 THEN SupDigits[i + 1]
               ELSE SuperStr(i \div 10) \o SupDigits[(i % 10) + 1]
\* Global customization, by the user, of the exponents (LaTeX and pretty-print) and of the
\* symbols around groups
CustomExp(ce, pretty) == IF pretty THEN " x 10^" \o IntStr(ce) ELSE " \\cdot 10^{" \o IntStr(ce) \o "}"
CustomGroup(t, f) == IF "P" \in f.opts THEN "<" \o t \o ">"
                     ELSE IF "L" \in f.opts THEN "\\big(" \o t \o "\\big)"
                     ELSE "[" \o t \o "]"
ExpText(c, f) ==
    IF ~c.exp THEN ""
    ELSE IF "exp" \in f.cust /\ f.opts \cap {"P", "L"} # {}
    THEN CustomExp(c.ce, "P" \in f.opts)
    ELSE IF "P" \in f.opts THEN "×10" \o SuperStr(c.ce)
    ELSE IF "L" \in f.opts THEN " \\times 10^{" \o IntStr(c.ce) \o "}"
    ELSE (IF Upper(f) THEN "E" ELSE "e") \o (IF c.ce < 0 THEN "-" ELSE "+")
         \o Nat2Str(IF c.ce < 0 THEN -c.ce ELSE c.ce)
PercentText(f) == IF f.type # "%" THEN "" ELSE IF "L" \in f.opts THEN " \\%" ELSE "%"
Group(t, f) == IF "group" \in f.cust THEN CustomGroup(t, f)
               ELSE IF "L" \in f.opts /\ "P" \notin f.opts THEN "\\left(" \o t \o "\\right)"
               ELSE "(" \o t \o ")"
PlusMinus(f) == IF "P" \in f.opts THEN "±" ELSE IF "L" \in f.opts THEN " \\pm " ELSE "+/-"

\* Names of the non-finite numbers in LaTeX
Latex(x, t, f) ==
    IF "L" \notin f.opts \/ Fin(x) THEN t
    ELSE IF x.k = "nan" THEN "\\mathrm{" \o t \o "}"
    ELSE (IF x.neg THEN "-" ELSE "") \o "\\infty"

\* No meaningful digit in the standard deviation
Special(s) == ~Fin(s) \/ IsZero(s)
NomBodies(n, c, f) == IF Special(c.s) /\ General(f) THEN FloatBodies(Shift(n, -c.ce), f)
                      ELSE FixedBodies(Shift(n, -c.ce), c.prec, Upper(f))
NomTexts(n, c, f, width) ==
    {Latex(n, Number(b, SignText(n.neg, f), f, width), f) : b \in NomBodies(n, c, f)}

\* Digits of the uncertainty between the parentheses of the shorthand notation
ShortTexts(c, f) ==
    IF IsZero(c.s) THEN {"0"}
    ELSE IF ~Fin(c.s) THEN {Latex(c.s, AlphaBody(c.s, Upper(f)).rest, f)}
    ELSE {IF c.prec > 0 /\ First(r) >= 0 THEN Fixed(r, c.prec)
          ELSE IF r.ds # << >> THEN IntDigits(Shift(r, c.prec))
          ELSE "0." : r \in RoundSet(Shift(c.s, -c.ce), -c.prec)}

Shorthand(n, c, f) ==
    UNION {LET end == "(" \o u \o ")" \o ExpText(c, f) \o PercentText(f)
           IN {Align(t \o end, f) : t \in NomTexts(n, c, f, f.width - Len(end))}
           : u \in ShortTexts(c, f)}

ErrBodies(n, c, f) == IF IsZero(c.s) THEN {FixedBody(c.s, 0)}
                      ELSE IF ~Fin(n) /\ General(f) THEN FloatBodies(Shift(c.s, -c.ce), f)
                      ELSE FixedBodies(Shift(c.s, -c.ce), c.prec, Upper(f))
PlusMinusNotation(n, c, f) ==
    LET factored == f.width = 0
        exp == ExpText(c, f)
        nexp == ~factored /\ Fin(n)
        sexp == ~factored /\ ~Special(c.s)
        ns == {Align(t \o (IF nexp THEN exp ELSE ""), f)
               : t \in NomTexts(n, c, f, f.width - (IF nexp THEN Len(exp) ELSE 0))}
        ss == {Align(Latex(c.s, Number(b, "", f,
                                       f.width - (IF sexp THEN Len(exp) ELSE 0)), f)
                     \o (IF sexp THEN exp ELSE ""), f) : b \in ErrBodies(n, c, f)}
        both == UNION {{a \o PlusMinus(f) \o b : b \in ss} : a \in ns}
    IN {IF factored /\ c.exp THEN Group(t, f) \o exp \o PercentText(f)
        ELSE IF f.type = "%" THEN Group(t, f) \o PercentText(f)
        ELSE IF "p" \in f.opts THEN Group(t, f) ELSE t : t \in both}

\* The values that the percent type displays
Scaled(x, f) == IF f.type = "%" THEN Shift(x, 2) ELSE x

Texts(n0, s0, f) ==
    LET n == Scaled(n0, f)
        s == Scaled(s0, f)
    IN UNION {IF "S" \in f.opts THEN Shorthand(n, c, f) ELSE PlusMinusNotation(n, c, f)
              : c \in Choices(n, s, f)}

\* The numbers displayed: set of [n, s] in which n or s is [k, neg, ds, e], and the
\* position of their last digit ("float": no position, the digits are those of a float)
Shown(n0, s0, f) ==
    LET n == Scaled(n0, f)
        s == Scaled(s0, f)
    IN UNION {LET pos == c.ce - c.prec
                  nf == Special(c.s) /\ General(f)
                  sf == ~Fin(n) /\ General(f)
                  p == IF f.type = "" /\ f.prec = -1 THEN 17 ELSE Max(FloatPrec(f), 1)
                  Rs(x, native) == IF ~Fin(x) THEN {x}
                                   ELSE RoundSet(x, IF native THEN First(x) - p + 1 ELSE pos)
              IN {[n |-> a, s |-> b, pos |-> pos, nfloat |-> nf \/ ~Fin(n),
                   sfloat |-> sf \/ Special(c.s), exp |-> c.exp]
                  : a \in Rs(n, nf), b \in Rs(c.s, sf)}
              : c \in Choices(n, s, f)}

-----------------------------------------------------------------------------
(* What is decided: enough significant digits in floats, and combinations    *)
(* for which the documentation says what is expected.                        *)
Noisy(n, s, f, c) == f.type = "" /\ f.prec = -1 /\ c.exp /\ (~Fin(n) \/ Special(s))

\* Numbers with few bits have all the digits that one wants
MaxDigits(x0, x, c, f) ==
    IF Dyadic(x0) /\ Dyadic(x) /\ Dyadic(Shift(x, -c.ce)) /\ c.ce >= 0
    THEN IF "S" \notin f.opts THEN 60 ELSE IF c.prec <= 22 THEN 17 ELSE 13
    ELSE 13
Decided(n0, s0, f) ==
    LET n == Scaled(n0, f)
        s == Scaled(s0, f)
    IN /\ f.zero => f.width > 0 /\ f.align = ""
       /\ f.fill # "" => f.align # ""
       /\ ~Refused(n, s, f) =>
          /\ ~(f.zero /\ "L" \in f.opts /\ (~Fin(n) \/ ~Fin(s)))
          /\ ~(f.sign \in {"+", " "} /\ "L" \in f.opts /\ n.k = "inf")
          /\ \A c \in Choices(n, s, f) :
               /\ Fin(n) => First(n) - (c.ce - c.prec) <= MaxDigits(n0, n, c, f)
               /\ Fin(s) => First(s) - (c.ce - c.prec) <= MaxDigits(s0, s, c, f)
               \* Exponent of a float inside a common exponent
               /\ ~(f.type = "" /\ f.prec \in {0, 1} /\ c.exp /\ (~Fin(n) \/ Special(s)))
               /\ ~(f.type = "" /\ f.prec >= 0 /\ "L" \in f.opts /\ (~Fin(n) \/ Special(s)))
               \* Digits of the division by the common exponent
               /\ ~(Noisy(n, s, f, c) /\ f.width > 0)

-----------------------------------------------------------------------------
(* Numbers and specifications                                                *)
Fl(neg, ds, e) == [k |-> "fin", neg |-> neg, ds |-> ds, e |-> e]

\* Digits around the limits of the rules
EdgeDs == {<<1>>, <<2>>, <<5>>, <<9>>, <<1, 5>>, <<3, 5, 4>>, <<3, 5, 4, 9>>, <<3, 5, 5>>,
           <<3, 5, 5, 1>>, <<9, 4>>, <<9, 4, 9>>, <<9, 4, 9, 6>>, <<9, 5>>, <<9, 5, 0, 1>>,
           <<9, 9, 4>>, <<9, 9, 6>>, <<9, 9, 9, 6>>, <<9, 9, 9, 9, 9, 6>>, <<1, 0, 4>>,
           <<1, 0, 6>>, <<1, 0, 5, 1>>, <<2, 4, 4, 6>>, <<1, 4, 9>>, <<4, 9, 6>>, <<4, 5>>,
           <<3, 4, 9, 7>>, <<9, 4, 4, 9, 9, 9>>, <<6, 5, 4>>, <<5, 0, 1>>, <<4, 9>>}
RandDs(len) == DropTrail([i \in 1..len |-> IF i = 1 THEN RandomElement(1..9)
                                           ELSE RandomElement(0..9)])
Sometimes(i, of) == RandomElement(1..of) <= i
\* Just below or above a limit: many nines or zeros
NearDs(len, head, d) == DropTrail(head \o [i \in 1..len |-> d] \o <<RandomElement(1..9)>>)
RandDigits(z) == IF Sometimes(1, 2) THEN RandomElement(EdgeDs)
              ELSE IF Sometimes(1, 4)
              THEN NearDs(RandomElement(3..13),
                          RandomElement({<<9>>, <<1>>, <<3, 5>>, <<9, 4>>, <<1, 4>>, <<5>>, <<2>>}),
                          RandomElement({0, 9, 9}))
              ELSE RandDs(RandomElement(1..RandomElement({3, 6, 11})))
RandExp(z) == IF Sometimes(3, 4) THEN RandomElement(-6..7)
           ELSE IF Sometimes(3, 4) THEN RandomElement(-25..25)
           ELSE RandomElement({-270, -180, -101, -100, -99, 99, 100, 101, 150, 270})
\* Equal probabilities are not the best choice for a search of counterexamples
RandS(z) == CASE Sometimes(1, 14) -> Zero
           [] Sometimes(1, 20) -> NaN
           [] Sometimes(1, 20) -> Inf(FALSE)
           [] OTHER -> Fl(FALSE, RandDigits(z), RandExp(z))
RandN(s, z) == CASE Sometimes(1, 20) -> Zero
              [] Sometimes(1, 24) -> NaN
              [] Sometimes(1, 24) -> Inf(Sometimes(1, 2))
              [] OTHER -> Fl(Sometimes(1, 3), RandDigits(z),
                             IF IsZero(s) \/ ~Fin(s) THEN RandExp(z)
                             ELSE s.e + RandomElement(-4..RandomElement({2, 8})))

RandWidth(z) == IF Sometimes(1, 2) THEN 0
                ELSE IF Sometimes(1, 16) THEN RandomElement({40, 99, 100, 105, 130})
                ELSE RandomElement({1, 4, 6, 8, 10, 13, 17, 24})
RandOpts(z) == CASE Sometimes(1, 3) -> {}
              [] Sometimes(1, 2) -> {RandomElement({"S", "P", "L", "p"})}
              [] OTHER -> RandomElement(SUBSET {"S", "P", "L", "p"})
RandLayout(f, z) ==
    LET al == IF Sometimes(1, 2) THEN "" ELSE RandomElement({"<", ">", "^", "="})
    IN [f EXCEPT !.align = al,
                 !.fill = IF al # "" /\ Sometimes(1, 2)
                          THEN RandomElement({"*", "x", "0", " ", "é", "<", "+"}) ELSE "",
                 !.sign = IF Sometimes(1, 2) THEN "" ELSE RandomElement({"+", "-", " "}),
                 !.zero = al = "" /\ Sometimes(1, 3),
                 !.width = RandWidth(z),
                 !.comma = Sometimes(1, 4)]
RandPrec(f, z) ==
    LET t == RandomElement({"", "e", "E", "f", "F", "g", "G", "%"})
        g == IF Sometimes(1, 2) THEN RandomElement({"", "e", "f", "g"}) ELSE t
    IN [f EXCEPT !.type = g,
                 !.prec = IF Sometimes(2, 5) THEN -1
                          ELSE RandomElement(0..RandomElement({2, 4, 9, 14})),
                 !.u = Sometimes(1, 3)]

\* Numbers with few bits, for many digits
FewBits == {Fl(FALSE, <<5>>, -1), Fl(FALSE, <<2, 5>>, -1), Fl(FALSE, <<1, 2, 5>>, -1),
            Fl(FALSE, <<7, 5>>, -1), Fl(FALSE, <<6, 2, 5>>, -2), Fl(FALSE, <<1, 5>>, 0),
            Fl(FALSE, <<3>>, 0), Fl(FALSE, <<6, 2, 5>>, 0), Fl(FALSE, <<1, 2, 5>>, 1),
            Fl(FALSE, <<9, 9, 5>>, 1), Fl(FALSE, <<1, 0, 2, 4>>, 3), Fl(FALSE, <<1, 5>>, 3),
            Fl(FALSE, <<2, 0, 0, 0, 0, 2, 5>>, 4), Fl(FALSE, <<5>>, 7), Fl(FALSE, <<1>>, 0),
            Fl(FALSE, <<1>>, 12), Fl(FALSE, <<1, 9, 5, 3, 1, 2, 5>>, -3)}
RandFew(z) == LET s == RandomElement(FewBits \cup {Zero})
              IN <<[RandomElement(FewBits) EXCEPT !.neg = Sometimes(1, 3)], s>>
IsFew(p) == [p[1] EXCEPT !.neg = FALSE] \in FewBits /\ p[2] \in FewBits \cup {Zero}
MorePrec(f, p) == IF IsFew(p)
                  THEN [f EXCEPT !.prec = IF Sometimes(1, 2) THEN RandomElement(14..23)
                                          ELSE RandomElement(12..50)]
                  ELSE f

\* Exhaustive instances
SmallS == {Zero, NaN, Inf(FALSE)}
          \cup {Fl(FALSE, d, e) : d \in EdgeDs, e \in {-6, -1, 0, 1, 3}}
SmallN == {Zero, NaN, Inf(TRUE), Fl(FALSE, <<1, 2, 3, 4, 5, 6, 7, 8>>, 2),
           Fl(TRUE, <<9, 9, 9, 9, 5, 1>>, 0), Fl(FALSE, <<7>>, 5)}
LayN == {Zero, NaN, Inf(TRUE), Fl(FALSE, <<1, 2, 3, 4, 5, 6, 7, 8>>, 3), Fl(TRUE, <<3, 1, 4>>, -1),
         Fl(FALSE, <<2, 7>>, 8)}
LayS == {Zero, NaN, Inf(FALSE), Fl(FALSE, <<1, 2>>, -2), Fl(FALSE, <<3, 4, 6>>, 1),
         Fl(FALSE, <<5, 5>>, 6)}
Layouts == {[PlainSpec EXCEPT !.align = a, !.fill = IF a = "" THEN "" ELSE fi, !.sign = sg,
                              !.zero = z, !.width = w, !.comma = cm]
            : a \in {"", "^", "="}, fi \in {"*"}, sg \in {"", "+"}, z \in BOOLEAN,
              w \in {0, 14}, cm \in BOOLEAN}

Numbers == CASE Family = "digits" -> SmallN \X SmallS
             [] OTHER -> LayN \X LayS
Specs == CASE Family = "digits" ->
                  {[PlainSpec EXCEPT !.prec = p, !.u = u, !.type = t]
                   : p \in {-1, 0, 1, 2, 3, 6}, u \in BOOLEAN, t \in {"", "e", "f", "g", "%"}}
           [] Family = "options" ->
                  {[PlainSpec EXCEPT !.prec = p[1], !.u = p[2], !.type = t, !.opts = o]
                   : p \in {<<-1, FALSE>>, <<1, TRUE>>, <<3, FALSE>>},
                     t \in {"", "e", "E", "f", "F", "g", "G", "%"},
                     o \in SUBSET {"S", "P", "L", "p"}}
           [] Family = "custom" ->
                  {[PlainSpec EXCEPT !.type = t, !.opts = o, !.cust = cu, !.width = w]
                   : t \in {"", "e", "f", "%"}, o \in SUBSET {"S", "P", "L", "p"},
                     cu \in (SUBSET {"exp", "group"}) \ {{}}, w \in {0, 14}}
           [] Family = "layout" ->
                  {[l EXCEPT !.type = t, !.opts = o]
                   : l \in Layouts, t \in {"", "e", "%"}, o \in {{}, {"S"}, {"P"}, {"L"}, {"p"}}}
           [] OTHER -> {}

RandSpec(z) == CASE Family = "digits" ->
                     RandPrec([PlainSpec EXCEPT !.opts = IF Sometimes(2, 3) THEN {} ELSE
                                  RandomElement({{"S"}, {"P"}, {"p"}, {"S", "P"}, {"P", "p"}})], z)
              [] OTHER -> RandPrec([RandLayout(PlainSpec, z) EXCEPT
                                 !.opts = RandOpts(z),
                                 !.cust = IF Sometimes(1, 12)
                                          THEN RandomElement(SUBSET {"exp", "group"})
                                          ELSE {}], z)

Item(n, s, f) ==
    [n |-> n, s |-> s, f |-> SpecText(f),
     plain |-> SpecText([PlainSpec EXCEPT !.prec = f.prec, !.u = f.u, !.type = f.type]),
     short |-> "S" \in f.opts, cust |-> f.cust,
     layout |-> f.width > 0 \/ f.comma \/ "L" \in f.opts,
     refused |-> Refused(Scaled(n, f), Scaled(s, f), f),
     texts |-> IF Refused(Scaled(n, f), Scaled(s, f), f) THEN {} ELSE Texts(n, s, f),
     shown |-> IF Refused(Scaled(n, f), Scaled(s, f), f) THEN {} ELSE Shown(n, s, f),
     noisy |-> ~Refused(n, s, f)
               /\ \E c \in Choices(Scaled(n, f), Scaled(s, f), f) :
                     Noisy(Scaled(n, f), Scaled(s, f), f, c)]

PickNumber ==
    /\ num = << >> /\ hist < Len_
    /\ IF Sim THEN IF Sometimes(1, 14) THEN num' = RandFew(hist)
                  ELSE LET s == RandS(hist) IN \E st \in {s} : num' = <<RandN(st, hist), st>>
       ELSE \E p \in Numbers : num' = p
    /\ UNCHANGED <<hist, out>>
Format ==
    /\ num # << >>
    /\ \E f \in (IF Sim THEN {MorePrec(RandSpec(hist), num)} ELSE Specs) :
         /\ out' = [n |-> num[1], s |-> num[2], f |-> f]
         /\ Decided(num[1], num[2], f) => PrintT("@@" \o ToJson(Item(num[1], num[2], f)))
    /\ num' = << >>
    /\ hist' = hist + 1
Init == num = << >> /\ hist = 0 /\ out = << >>
Next == PickNumber \/ Format
Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
(* Properties of the formatting that is specified                            *)
HasOut == out # << >> /\ Decided(out.n, out.s, out.f)
          /\ ~Refused(Scaled(out.n, out.f), Scaled(out.s, out.f), out.f)
OutChoices == Choices(Scaled(out.n, out.f), Scaled(out.s, out.f), out.f)

\* The value shown is within half a unit of the last place of the value
HalfUnit(x, r, p) ==
    \* 2|x - r| <= 10^p: r is one of the two multiples of 10^p around x, on the side of the
    \* digit that follows
    r \in {Down(x, p), Up(x, p), x}
    /\ (r = Up(x, p) /\ r # x => At(x, p - 1) >= 5)
    /\ (r = Down(x, p) /\ r # x => At(x, p - 1) <= 5)
WithinHalfUnit ==
    HasOut => \A sh \in Shown(out.n, out.s, out.f) :
        (~sh.nfloat => HalfUnit(Scaled(out.n, out.f), sh.n, sh.pos))
\* One or two digits in an uncertainty without a requested precision
PdgDigits ==
    HasOut /\ Controlled(out.n, out.s, out.f) /\ out.f.prec = -1
    /\ Cardinality(Shown(out.n, out.s, out.f)) = 1 =>
        \A sh \in Shown(out.n, out.s, out.f) :
           Max(First(sh.s), sh.pos) - sh.pos + 1 \in
              (IF FixedType(out.f) \/ sh.exp = FALSE THEN 1..99 ELSE {1, 2})
\* The requested number of digits otherwise (when the decimal point allows it; apart from ties)
RequestedDigits ==
    HasOut /\ Controlled(out.n, out.s, out.f) /\ out.f.prec > 0
    /\ Cardinality(Shown(out.n, out.s, out.f)) = 1 =>
        \A sh \in Shown(out.n, out.s, out.f) :
           LET d == First(sh.s) - sh.pos + 1
           IN d = out.f.prec \/ (sh.exp = FALSE /\ sh.pos = 0 /\ d >= out.f.prec)
\* The larger of the numbers has a mantissa between 1 and 10
Mantissa ==
    HasOut => \A c \in OutChoices :
        c.exp => LET ref == Reference(Scaled(out.n, out.f), Scaled(out.s, out.f))
                 IN c.ce - First(ref) \in {0, 1}
\* Adding a width only pads, in the shorthand notation
RECURSIVE Strip(_, _)
Strip(t, c) == IF t # "" /\ SubSeq(t, 1, 1) = c THEN Strip(SubSeq(t, 2, Len(t)), c)
               ELSE IF t # "" /\ SubSeq(t, Len(t), Len(t)) = c
                    THEN Strip(SubSeq(t, 1, Len(t) - 1), c)
               ELSE t
WidthPads ==
    HasOut /\ "S" \in out.f.opts /\ ~out.f.zero /\ out.f.width > 0 /\ out.f.align # "="
    /\ out.f.fill = "*" =>
        {Strip(t, "*") : t \in Texts(out.n, out.s, out.f)}
          = Texts(out.n, out.s, [out.f EXCEPT !.width = 0])
AtLeastWidth ==
    HasOut => \A t \in Texts(out.n, out.s, out.f) : Len(t) >= out.f.width
\* Options P, L and S never change the numbers
SameNumbers ==
    HasOut => Shown(out.n, out.s, out.f) = Shown(out.n, out.s, [out.f EXCEPT !.opts = {}])
=============================================================================
