----------------------------- MODULE RoundTrip ------------------------------
(* Printing, then reading: the texts of Fmt.tla are readable in the sense of *)
(* Reading.tla, and denote the numbers shown (invariant ReadBack); the       *)
(* harness does the same with the code. The representation denotes exactly   *)
(* the numbers (invariant Exact).                                            *)
EXTENDS Fmt
R == INSTANCE Reading

\* Specifications without LaTeX, percent, filling and comma
RandTextSpec(z) ==
    LET al == IF Sometimes(2, 3) THEN "" ELSE RandomElement({"<", ">", "^"})
        p == RandPrec(PlainSpec, z)
    IN [p EXCEPT !.type = IF @ = "%" THEN "e" ELSE @,
                 !.align = al,
                 !.sign = IF Sometimes(2, 3) THEN "" ELSE RandomElement({"+", "-", " "}),
                 !.zero = al = "" /\ Sometimes(1, 4),
                 !.width = IF Sometimes(2, 3) THEN 0 ELSE RandomElement({1, 5, 8, 10, 13, 17}),
                 !.opts = RandomElement(SUBSET {"S", "P", "p"})]
TextSpecs == {[PlainSpec EXCEPT !.prec = p[1], !.u = p[2], !.type = t, !.opts = o]
              : p \in {<<-1, FALSE>>, <<1, TRUE>>, <<2, FALSE>>, <<4, TRUE>>},
                t \in {"", "e", "E", "f", "F", "g", "G"},
                o \in SUBSET {"S", "P", "p"}}

Readable(n, s, f) ==
    /\ Decided(n, s, f)
    \* The shorthand notation does not give the scale of the uncertainty of nan and inf
    /\ "S" \in f.opts => Fin(n)
    \* Formatted like a float, possibly with an exponent before the parentheses
    /\ f.type = "" /\ f.prec >= 0 => Fin(n) /\ ~Special(s)
    /\ General(f) /\ (~Fin(n) \/ Special(s)) /\ ~Refused(n, s, f) => Cardinality(Shown(n, s, f)) = 1
    \* Zeros are put before nan and inf
    /\ f.zero => Fin(n) /\ Fin(s)

FormatText ==
    /\ num # << >>
    /\ \E f \in (IF Sim THEN {RandTextSpec(hist)} ELSE TextSpecs) :
         /\ out' = [n |-> num[1], s |-> num[2], f |-> f]
         /\ Readable(num[1], num[2], f) => PrintT("@@" \o ToJson(Item(num[1], num[2], f)))
    /\ num' = << >>
    /\ hist' = hist + 1

\* Representations
ReprText(n, s) ==
    LET Body(x) == BodyText(FloatBody(x, x, First(x) < -4 \/ First(x) >= 16, TRUE, FALSE), FALSE)
        Text(x) == (IF x.neg THEN "-" ELSE "")
                   \o (IF Fin(x) THEN Body(x) ELSE AlphaBody(x, FALSE).rest)
    IN Text(n) \o "+/-" \o (IF IsZero(s) THEN "0" ELSE Text(s))
Repr ==
    /\ num # << >>
    /\ out' = [n |-> num[1], s |-> num[2], repr |-> ReprText(num[1], num[2])]
    /\ PrintT("@@" \o ToJson(out'))
    /\ num' = << >>
    /\ hist' = hist + 1
NextRT == PickNumber \/ (IF Family = "repr" THEN Repr ELSE FormatText)
SpecRT == Init /\ [][NextRT]_vs

-----------------------------------------------------------------------------
Printed == out # << >> /\ Family # "repr" /\ Readable(out.n, out.s, out.f)
           /\ ~Refused(out.n, out.s, out.f)
SameNum(x, y) == x = y \/ (x.k = y.k /\ x.ds = y.ds /\ x.e = y.e
                           /\ (x.neg = y.neg \/ (x.ds = << >> /\ x.k # "inf")))
ReadBack ==
    Printed => \A t \in Texts(out.n, out.s, out.f) :
        LET r == R!Read(t)
            shown == Shown(out.n, out.s, out.f)
        IN r.st = "ok" => \E sh \in shown : SameNum(r.n, sh.n) /\ SameNum(r.s, sh.s)
\* Only exponents out of the usual range, and the blanks of the width, are not decided by
\* Reading.tla
Documented ==
    Printed => \A t \in Texts(out.n, out.s, out.f) :
        LET r == R!Read(t)
        IN r.st = "ok" \/ (r.st = "any" /\ (out.f.width > 0 \/ out.f.sign = " "
                                            \/ ~R!InRange(out.n) \/ ~R!InRange(out.s)
                                            \/ ~Fin(out.n) \/ ~Fin(out.s)))
Exact ==
    (out # << >> /\ Family = "repr") =>
        LET r == R!Read(out.repr)
        IN r.st = "ok" => SameNum(r.n, out.n) /\ SameNum(r.s, out.s)
=============================================================================
