------------------------------ MODULE Decimals ------------------------------
(* Decimal numbers of any size as digits: what formatting and parsing need.  *)
(*                                                                           *)
(* A number is [k, neg, ds, e]: k is "fin", "nan" or "inf"; ds is a sequence *)
(* of digits without zeros at either end (empty for zero) and the number is  *)
(* d1.d2d3... * 10^e (e = 0 for zero).                                       *)
EXTENDS Integers, Sequences

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE DropLead(_), DropTrail(_)
DropLead(ds) == IF ds # << >> /\ Head(ds) = 0 THEN DropLead(Tail(ds)) ELSE ds
DropTrail(ds) == IF ds # << >> /\ ds[Len(ds)] = 0 THEN DropTrail(SubSeq(ds, 1, Len(ds) - 1))
                 ELSE ds

\* ds with any zeros at the ends, the first digit being at position e
Norm(neg, ds, e) ==
    LET a == DropLead(ds)
        b == DropTrail(a)
    IN [k |-> "fin", neg |-> neg, ds |-> b,
        e |-> IF b = << >> THEN 0 ELSE e - (Len(ds) - Len(a))]
Zero == [k |-> "fin", neg |-> FALSE, ds |-> << >>, e |-> 0]
NaN == [k |-> "nan", neg |-> FALSE, ds |-> << >>, e |-> 0]
Inf(neg) == [k |-> "inf", neg |-> neg, ds |-> << >>, e |-> 0]

Fin(x) == x.k = "fin"
IsZero(x) == Fin(x) /\ x.ds = << >>
Abs(x) == [x EXCEPT !.neg = FALSE]
\* Product by 10^i
Shift(x, i) == IF Fin(x) /\ x.ds # << >> THEN [x EXCEPT !.e = @ + i] ELSE x
\* Digit at position p (0 for the units)
At(x, p) == LET i == x.e - p + 1
            IN IF i >= 1 /\ i <= Len(x.ds) THEN x.ds[i] ELSE 0
\* Position of the first digit (0 for 0)
First(x) == x.e

RECURSIVE LessDs(_, _)
LessDs(a, b) == IF b = << >> THEN FALSE
                ELSE IF a = << >> THEN TRUE
                ELSE IF a[1] # b[1] THEN a[1] < b[1]
                ELSE LessDs(Tail(a), Tail(b))
\* |x| < |y| (finite)
Less(x, y) == IF y.ds = << >> THEN FALSE
              ELSE IF x.ds = << >> THEN TRUE
              ELSE IF x.e # y.e THEN x.e < y.e ELSE LessDs(x.ds, y.ds)

\* Successor of a sequence of digits (may have one more digit)
RECURSIVE Incr(_)
Incr(ds) == IF ds = << >> THEN <<1>>
            ELSE IF ds[Len(ds)] < 9 THEN [ds EXCEPT ![Len(ds)] = @ + 1]
            ELSE Incr(SubSeq(ds, 1, Len(ds) - 1)) \o <<0>>

\* x truncated at position p, and the multiple of 10^p just above (in absolute value)
Down(x, p) == IF x.e < p THEN [Zero EXCEPT !.neg = x.neg]
              ELSE Norm(x.neg, SubSeq(x.ds, 1, Min(Len(x.ds), x.e - p + 1)), x.e)
Up(x, p) == IF x.e < p THEN [k |-> "fin", neg |-> x.neg, ds |-> <<1>>, e |-> p]
            ELSE LET kept == [i \in 1..(x.e - p + 1) |->
                                IF i <= Len(x.ds) THEN x.ds[i] ELSE 0]
                     up == Incr(kept)
                 IN Norm(x.neg, up, x.e + (Len(up) - Len(kept)))
\* The roundings of x at position p: there are two of them if x is half-way
RoundSet(x, p) ==
    IF x.ds = << >> \/ x.e - Len(x.ds) + 1 >= p THEN {x}
    ELSE LET next == At(x, p - 1)
             tie == next = 5 /\ x.e - Len(x.ds) + 1 = p - 1
                    /\ x.e >= p - 1
         IN IF x.e < p - 1 THEN {Down(x, p)}
            ELSE IF tie THEN {Down(x, p), Up(x, p)}
            ELSE IF next >= 5 THEN {Up(x, p)} ELSE {Down(x, p)}

\* Is x exactly a float with few bits? (Sufficient condition: a multiple of 2^-9.)
RECURSIVE Rem(_, _)
Rem(ds, m) == IF ds = << >> THEN 0
              ELSE (10*Rem(SubSeq(ds, 1, Len(ds) - 1), m) + ds[Len(ds)]) % m
RECURSIVE Five(_)
Five(k) == IF k = 0 THEN 1 ELSE 5*Five(k - 1)
Dyadic(x) == LET q == x.e - Len(x.ds) + 1
             IN x.ds = << >>
                \/ IF q >= 0 THEN x.e <= 14
                   ELSE IF q < -9 \/ Len(x.ds) > 15 THEN FALSE
                   ELSE Rem(x.ds, Five(-q)) = 0

-----------------------------------------------------------------------------
\* Text
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
DigitStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE DsStr(_)
DsStr(ds) == IF ds = << >> THEN "" ELSE DigitStr[ds[1] + 1] \o DsStr(Tail(ds))
RECURSIVE NatStr(_)
NatStr(i) == IF i < 10 THEN DigitStr[i + 1] ELSE NatStr(i \div 10) \o DigitStr[(i % 10) + 1]
IntStr(i) == IF i < 0 THEN "-" \o NatStr(-i) ELSE NatStr(i)
\* Two digits or more
Nat2Str(i) == IF i < 10 THEN "0" \o NatStr(i) ELSE NatStr(i)
\* Digits of |x| from position hi to position lo
RECURSIVE Digits(_, _, _)
Digits(x, hi, lo) == IF hi < lo THEN "" ELSE DigitStr[At(x, hi) + 1] \o Digits(x, hi - 1, lo)
IntDigits(x) == Digits(x, Max(x.e, 0), 0)
\* Fixed point text of |x|, rounded at position -prec
FixedRest(x, prec) == IF prec > 0 THEN "." \o Digits(x, -1, -prec) ELSE ""
Fixed(x, prec) == IntDigits(x) \o FixedRest(x, prec)
=============================================================================
