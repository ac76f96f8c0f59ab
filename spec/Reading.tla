------------------------------ MODULE Reading -------------------------------
(* Reading of texts: from a text to the decimal numbers it denotes.          *)
(*                                                                           *)
(* Read(t) = [st, n, s]: st is "ok" (n and s are the numbers), "no" (not a   *)
(* documented form: must be refused), or "any" (undecided: blanks at unusual *)
(* places, exponents that are not in the range of floats, a sign before the  *)
(* uncertainty, etc.).                                                       *)
EXTENDS Decimals

Ch(t, i) == SubSeq(t, i, i)
From(t, i) == SubSeq(t, i, Len(t))
UpTo(t, i) == SubSeq(t, 1, i)
DigitSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CHOOSE d \in 0..9 : DigitStr[d + 1] = c
Supers == <<"⁰", "¹", "²", "³", "⁴", "⁵", "⁶", "⁷", "⁸", "⁹">>
SuperSet == {Supers[i] : i \in 1..10}
SuperVal(c) == CHOOSE d \in 0..9 : Supers[d + 1] = c
Blank(c) == c = " "

\* First position of c in t, from position i (0: none)
RECURSIVE Find(_, _, _)
Find(t, c, i) == IF i > Len(t) THEN 0 ELSE IF Ch(t, i) = c THEN i ELSE Find(t, c, i + 1)
RECURSIVE All(_, _)
All(t, S) == t = "" \/ (Ch(t, 1) \in S /\ All(From(t, 2), S))
RECURSIVE Lstrip(_), Rstrip(_)
Lstrip(t) == IF t # "" /\ Blank(Ch(t, 1)) THEN Lstrip(From(t, 2)) ELSE t
Rstrip(t) == IF t # "" /\ Blank(Ch(t, Len(t))) THEN Rstrip(UpTo(t, Len(t) - 1)) ELSE t
Strip(t) == Lstrip(Rstrip(t))

No == [st |-> "no"]
Any == [st |-> "any"]
Worst(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "any" \in {a, b} THEN "any" ELSE "ok"

RECURSIVE ToDs(_)
ToDs(t) == IF t = "" THEN << >> ELSE <<DigitVal(Ch(t, 1))>> \o ToDs(From(t, 2))

\* Unsigned number, with the number of its decimals; dot: there is a decimal point
Unsigned(t) ==
    IF t \in {"nan", "NAN"} THEN [st |-> "ok", x |-> NaN, dec |-> 0, dot |-> FALSE]
    ELSE IF t \in {"inf", "INF"} THEN [st |-> "ok", x |-> Inf(FALSE), dec |-> 0, dot |-> FALSE]
    ELSE LET p == Find(t, ".", 1)
             ip == IF p = 0 THEN t ELSE UpTo(t, p - 1)
             fp == IF p = 0 THEN "" ELSE From(t, p + 1)
         IN IF ip \o fp = "" \/ ~All(ip \o fp, DigitSet) THEN No
            ELSE [st |-> "ok", x |-> Norm(FALSE, ToDs(ip \o fp), Len(ip) - 1),
                  dec |-> Len(fp), dot |-> p # 0]
Sign(t) == IF t # "" /\ Ch(t, 1) \in {"+", "-"} THEN Ch(t, 1) ELSE ""
Signed(x, sign) == IF sign = "-" THEN [x EXCEPT !.neg = ~@] ELSE x

\* Integers, in normal or in superscript characters
RECURSIVE NatVal(_, _), SupVal(_, _)
NatVal(t, acc) == IF t = "" THEN acc ELSE NatVal(From(t, 2), 10 * acc + DigitVal(Ch(t, 1)))
SupVal(t, acc) == IF t = "" THEN acc ELSE SupVal(From(t, 2), 10 * acc + SuperVal(Ch(t, 1)))
Integer_(t) ==
    LET sign == Sign(t)
        d == From(t, 1 + Len(sign))
    IN IF d = "" \/ ~All(d, DigitSet) THEN No
       ELSE IF Len(d) > 3 THEN Any
       ELSE [st |-> "ok", v |-> IF sign = "-" THEN -NatVal(d, 0) ELSE NatVal(d, 0)]
Super(t) ==
    LET sign == IF t # "" /\ Ch(t, 1) \in {"⁺", "⁻"} THEN Ch(t, 1) ELSE ""
        d == From(t, 1 + Len(sign))
    IN IF d = "" \/ ~All(d, SuperSet) THEN No
       ELSE IF Len(d) > 3 THEN Any
       ELSE [st |-> "ok", v |-> IF sign = "⁻" THEN -SupVal(d, 0) ELSE SupVal(d, 0)]
\* Exponents mixing the two kinds of characters
Mixed(t) == t # "" /\ All(t, DigitSet \cup SuperSet \cup {"+", "-", "⁺", "⁻"})

\* Any exponent at the end of t: [st, m: text before, v: value (0 if none)]
Exponent(t) ==
    LET i == Find(t, "e", 1)
        j == Find(t, "E", 1)
        k == Find(t, "×", 1)
        p == IF i = 0 THEN j ELSE IF j = 0 THEN i ELSE Min(i, j)
    IN IF k # 0 /\ p # 0 THEN Any
       ELSE IF k # 0
       THEN IF SubSeq(t, k + 1, Min(k + 2, Len(t))) # "10" THEN No
            ELSE LET e == Super(From(t, k + 3))
                 IN IF e.st = "no" /\ Mixed(From(t, k + 3)) THEN Any
                    ELSE IF e.st # "ok" THEN e
                    ELSE [st |-> "ok", m |-> UpTo(t, k - 1), v |-> e.v]
       ELSE IF p # 0
       THEN LET e == Integer_(From(t, p + 1))
            IN IF e.st = "no" /\ Mixed(From(t, p + 1)) THEN Any
               ELSE IF e.st # "ok" THEN e
               ELSE [st |-> "ok", m |-> UpTo(t, p - 1), v |-> e.v]
       ELSE [st |-> "ok", m |-> t, v |-> 0]

\* Number on one side of the plus-or-minus symbol
Side(t) ==
    LET e == Exponent(t)
    IN IF e.st # "ok" THEN e
       ELSE LET sign == Sign(e.m)
                u == Unsigned(From(e.m, 1 + Len(sign)))
            IN IF u.st # "ok" THEN u
               \* No exponent on what is not finite
               ELSE IF ~Fin(u.x) /\ e.m # t THEN Any
               ELSE [st |-> "ok", x |-> Signed(Shift(u.x, e.v), sign), sign |-> sign]

PlusMinus(t, i, len) ==    \* symbol of len characters at i
    LET a == Side(UpTo(t, i - 1))
        b == Side(From(t, i + len))
        st == Worst(a.st, b.st)
    IN IF st # "ok" THEN [st |-> st]
       ELSE IF b.sign # "" THEN Any
       ELSE [st |-> "ok", n |-> a.x, s |-> b.x]

\* 12.34(5), 12.3(0.4)e5, 12.3
Short(t) ==
    LET sign == Sign(t)
        l == Find(t, "(", 1)
        r == Find(t, ")", 1)
        par == l # 0 \/ r # 0
        ok == ~par \/ (l # 0 /\ r > l)
        \* Exponent: after the parentheses, if any
        e == IF ~par THEN Exponent(t) ELSE Exponent(From(t, r + 1))
    IN IF ~ok THEN No
       ELSE IF e.st # "ok" THEN e
       ELSE IF par /\ e.m # "" THEN No
       ELSE LET main == IF par THEN UpTo(t, l - 1) ELSE e.m
                m == Unsigned(From(main, 1 + Len(sign)))
                u == IF par THEN Unsigned(SubSeq(t, l + 1, r - 1))
                     ELSE [st |-> "ok", x |-> [Zero EXCEPT !.ds = <<1>>], dec |-> 0,
                           dot |-> FALSE]
                st == Worst(m.st, u.st)
            IN IF st # "ok" THEN [st |-> st]
               ELSE IF ~Fin(m.x) /\ (e.v # 0 \/ (~u.dot /\ Fin(u.x))) THEN Any
               ELSE [st |-> "ok", n |-> Signed(Shift(m.x, e.v), sign),
                     s |-> Shift(u.x, e.v - (IF u.dot \/ ~Fin(u.x) THEN 0 ELSE m.dec))]

\* Without a common exponent
Simple(t) ==
    LET a == Find(t, "/", 1)
        b == Find(t, "±", 1)
    IN IF a # 0
       THEN IF a = 1 \/ a = Len(t) \/ Ch(t, Max(a - 1, 1)) # "+" \/ Ch(t, Min(a + 1, Len(t))) # "-"
            THEN No ELSE PlusMinus(t, a - 1, 3)
       ELSE IF b # 0 THEN PlusMinus(t, b, 1)
       ELSE Short(t)

\* Numbers in the range of floats, with room
InRange(x) == ~Fin(x) \/ x.ds = << >> \/ (x.e > -303 /\ x.e < 305)

\* Position of the last closing parenthesis
RECURSIVE Last(_, _)
Last(t, i) == IF i = 0 THEN 0 ELSE IF Ch(t, i) = ")" THEN i ELSE Last(t, i - 1)
Body(t) ==
    LET r == Last(t, Len(t))
        e == Exponent(From(t, r + 1))
    IN IF t # "" /\ Ch(t, 1) = "(" /\ r > 1 /\ r < Len(t)
       THEN LET x == Simple(SubSeq(t, 2, r - 1))
                \* What is after the parenthesis must be an exponent
                st == IF e.st = "ok" /\ e.m # "" THEN "no" ELSE e.st
                both == Worst(x.st, st)
            IN IF both # "ok" THEN [st |-> both]
               \* (both exponents, separately)
               ELSE IF ~InRange(x.n) \/ ~InRange(x.s) THEN Any
               ELSE [st |-> "ok", n |-> Shift(x.n, e.v), s |-> Shift(x.s, e.v)]
       ELSE Simple(t)

Enclosed(t) == IF Len(t) >= 2 /\ Ch(t, 1) = "(" /\ Ch(t, Len(t)) = ")"
               THEN Body(SubSeq(t, 2, Len(t) - 1)) ELSE Body(t)

-----------------------------------------------------------------------------
(* Blanks: ignored at both ends, around the plus-or-minus symbols, around ×  *)
NextCh(t, i) == LET r == Lstrip(From(t, i)) IN r
PrevCh(t, i) == LET l == Rstrip(UpTo(t, i)) IN l
Starts(t, c) == Len(t) >= Len(c) /\ UpTo(t, Len(c)) = c
Ends(t, c) == Len(t) >= Len(c) /\ From(t, Len(t) - Len(c) + 1) = c
UsualBlank(t, i) ==
    LET after == NextCh(t, i)
        before == PrevCh(t, i)
    IN \/ Starts(after, "+/-") \/ Starts(after, "±") \/ Starts(after, "×")
       \/ Ends(before, "+/-") \/ Ends(before, "±") \/ Ends(before, "×")
Numeral(c) == c \in DigitSet \cup {"."}
TimesTen(t) == Ends(t, "10") /\ Ends(Rstrip(UpTo(t, Len(t) - 2)), "×")
RECURSIVE Unblank(_, _)
\* [st, t]: without the usual blanks
Unblank(t, i) ==
    IF i > Len(t) THEN [st |-> "ok", t |-> t]
    ELSE IF ~Blank(Ch(t, i)) THEN Unblank(t, i + 1)
    ELSE IF UsualBlank(t, i) THEN Unblank(UpTo(t, i - 1) \o From(t, i + 1), i)
    ELSE LET after == NextCh(t, i)
             before == PrevCh(t, i)
             rest == Unblank(t, i + 1)
         IN IF before # "" /\ after # "" /\ Numeral(Ch(before, Len(before))) /\ Numeral(Ch(after, 1))
               /\ ~TimesTen(before)
            THEN [st |-> "no"]
            ELSE [st |-> IF rest.st = "no" THEN "no" ELSE "any"]
\* Exponents that are not in the range of floats
RECURSIVE Run(_, _, _)
Run(t, i, S) == IF i > Len(t) \/ Ch(t, i) \notin S THEN "" ELSE Ch(t, i) \o Run(t, i + 1, S)
AnyDigits == DigitSet \cup SuperSet
RECURSIVE AnyVal(_, _)
AnyVal(t, acc) == IF t = "" THEN acc
                  ELSE AnyVal(From(t, 2), 10 * acc + (IF Ch(t, 1) \in DigitSet THEN DigitVal(Ch(t, 1))
                                                     ELSE SuperVal(Ch(t, 1))))
BigRun(t) ==    \* t: after an exponent symbol
    LET a == Lstrip(t)
        b == IF a # "" /\ Ch(a, 1) \in {"+", "-", "⁺", "⁻"} THEN From(a, 2) ELSE a
        d == Run(b, 1, AnyDigits)
    IN Len(d) > 3 \/ (Len(d) = 3 /\ AnyVal(d, 0) > 305)
BigExponent(t) ==
    \E i \in 1..Len(t) :
        \/ Ch(t, i) \in {"e", "E"} /\ BigRun(From(t, i + 1))
        \/ Ch(t, i) = "×" /\ Starts(Lstrip(From(t, i + 1)), "10")
           /\ BigRun(From(Lstrip(From(t, i + 1)), 3))

Read(text) ==
    IF BigExponent(text) THEN Any ELSE
    LET u == Unblank(Strip(text), 1)
    IN IF u.st # "ok" THEN u
       ELSE LET r == Enclosed(u.t)
            IN IF r.st = "ok" /\ (~InRange(r.n) \/ ~InRange(r.s)) THEN Any ELSE r
=============================================================================
