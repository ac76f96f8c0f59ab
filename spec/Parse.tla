------------------------------- MODULE Parse --------------------------------
(* Texts given for reading: all short texts over an alphabet, growing by one *)
(* token at each step (the accepted ones are printed: any other one must be  *)
(* refused), and longer texts of all the documented forms, followed by       *)
(* alterations.                                                              *)
EXTENDS Reading, FiniteSets, TLC, Json

CONSTANTS Sim, MaxLen, Alphabet

\* (The tokens of toks only have ASCII characters: TLC does not store other ones reliably)
VARIABLES toks, text, hist
vs == <<toks, text, hist>>

Tokens == CASE Alphabet = "short" -> {"3", "0", ".", "(", ")", "+/-", "e", "-"}
            [] Alphabet = "pretty" -> {"3", ".", "(", ")", "pm", "x10", "sup2", "sup-", "nan", " "}
            [] Alphabet = "signs" -> {"1", "+", "-", "/", "e", "E", "x10", "sup+", "sup3", " "}
            [] Alphabet = "names" -> {"2", ".", "(", ")", "nan", "INF", "inf", "n", "+/-", "-", "e"}

TokenText(k) == CASE k = "pm" -> "±" [] k = "x10" -> "×10" [] k = "sup2" -> "²" [] k = "sup3" -> "³"
                  [] k = "sup-" -> "⁻" [] k = "sup+" -> "⁺" [] OTHER -> k
RECURSIVE ToksText(_)
ToksText(ks) == IF ks = << >> THEN "" ELSE TokenText(Head(ks)) \o ToksText(Tail(ks))

Emit(t) == LET r == Read(t)
           IN IF Sim \/ r.st # "no" THEN PrintT("@@" \o ToJson([t |-> t, r |-> r])) ELSE TRUE

Grow == /\ ~Sim /\ hist < MaxLen
        /\ \E k \in Tokens : toks' = Append(toks, k) /\ Emit(ToksText(toks \o <<k>>))
        /\ hist' = hist + 1
        /\ UNCHANGED text

-----------------------------------------------------------------------------
Sometimes(i, of) == RandomElement(1..of) <= i
RECURSIVE RandDigits(_)
RandDigits(n) == IF n = 0 THEN "" ELSE RandomElement(DigitSet) \o RandDigits(n - 1)
RandUnsigned(z) ==
    CASE Sometimes(1, 16) -> RandDigits(RandomElement(1..30)) \o "." \o RandDigits(RandomElement(20..36))
      [] Sometimes(1, 16) -> "0." \o RandomElement({"00000000", "0000000000000000000000000000"})
                             \o RandDigits(RandomElement(1..6))
      [] Sometimes(1, 2) -> RandDigits(RandomElement(1..4)) \o "." \o RandDigits(RandomElement(1..7))
      [] Sometimes(1, 2) -> RandDigits(RandomElement(1..6))
      [] Sometimes(1, 2) -> RandDigits(RandomElement(1..3)) \o "."
      [] OTHER -> "." \o RandDigits(RandomElement(1..5))
RandSign(z) == IF Sometimes(1, 2) THEN "" ELSE RandomElement({"-", "+", "-"})
RandNumber(z) == CASE Sometimes(1, 20) -> RandSign(z) \o RandomElement({"nan", "inf", "NAN", "INF"})
                   [] OTHER -> RandSign(z) \o RandUnsigned(z)
RandBlank(z) == IF Sometimes(2, 3) THEN "" ELSE IF Sometimes(2, 3) THEN " " ELSE "  "
RECURSIVE SupStr(_)
SupStr(i) == IF i < 0 THEN "⁻" \o SupStr(-i)
             ELSE IF i < 10 THEN Supers[i + 1] ELSE SupStr(i \div 10) \o Supers[(i % 10) + 1]
RandExp(z) ==
    LET v == IF Sometimes(3, 4) THEN RandomElement(-12..12)
             ELSE IF Sometimes(1, 2) THEN RandomElement(-120..120)
             ELSE RandomElement({-305, 305, -300, 290}) + RandomElement(-10..10)
        a == IF v < 0 THEN -v ELSE v
    IN IF Sometimes(1, 3)
       THEN RandBlank(z) \o "×" \o RandBlank(z) \o "10" \o (IF v >= 0 /\ Sometimes(1, 6) THEN "⁺" ELSE "")
            \o SupStr(v)
       ELSE RandomElement({"e", "e", "E"}) \o (IF v < 0 THEN "-" ELSE IF Sometimes(1, 2) THEN "+" ELSE "")
            \o (IF Sometimes(1, 3) THEN "0" ELSE "") \o NatStr(a)
RandFloat(z) == RandNumber(z) \o (IF Sometimes(1, 3) THEN RandExp(z) ELSE "")
RandUncert(z) == CASE Sometimes(1, 12) -> RandomElement({"nan", "inf", "NAN", "INF"})
                   [] OTHER -> RandUnsigned(z) \o (IF Sometimes(1, 3) THEN RandExp(z) ELSE "")
RandPm(z) == RandBlank(z) \o RandomElement({"+/-", "+/-", "±"}) \o RandBlank(z)
RandParen(z) == CASE Sometimes(1, 12) -> RandomElement({"nan", "inf", "NAN", "INF"})
                  [] Sometimes(1, 3) -> RandUnsigned(z)
                  [] Sometimes(1, 12) -> RandDigits(RandomElement(5..25))
                  [] OTHER -> RandDigits(RandomElement(1..4))
RandForm(z) ==
    LET k == RandomElement(1..10)
    IN CASE k = 1 -> RandFloat(z)
         [] k \in {2, 3} -> RandFloat(z) \o RandPm(z) \o RandUncert(z)
         [] k \in {4, 5} -> RandNumber(z) \o "(" \o RandParen(z) \o ")"
         [] k = 6 -> RandNumber(z) \o "(" \o RandParen(z) \o ")" \o RandExp(z)
         [] k \in {7, 8} -> "(" \o RandFloat(z) \o RandPm(z) \o RandUncert(z) \o ")" \o RandExp(z)
         [] k = 9 -> "(" \o RandNumber(z) \o "(" \o RandParen(z) \o "))" \o RandExp(z)
         [] OTHER -> "(" \o RandNumber(z) \o ")" \o RandExp(z)
RandText(z) ==
    LET f == RandForm(z)
        p == IF Sometimes(1, 6) THEN "(" \o f \o ")" ELSE f
    IN IF Sometimes(1, 6) THEN RandBlank(z) \o p \o RandBlank(z) ELSE p

Chars == DigitSet \cup {".", "(", ")", "+", "-", "/", "e", "E", "±", "×", "²", "⁻", " ", "n", "x"}
Alter(t) ==
    LET i == RandomElement(1..(Len(t) + 1))
        k == RandomElement(1..4)
        c == RandomElement(Chars)
    IN CASE k = 1 -> UpTo(t, i - 1) \o From(t, i + 1)                  \* removed
         [] k = 2 -> UpTo(t, i - 1) \o c \o From(t, i)                 \* inserted
         [] k = 3 -> UpTo(t, i - 1) \o c \o From(t, i + 1)             \* replaced
         [] OTHER -> LET j == RandomElement(1..(Len(t) + 1))           \* repeated
                     IN UpTo(t, i - 1) \o SubSeq(t, Min(i, j), Min(Max(i, j), Len(t))) \o From(t, i)

New == /\ Sim /\ hist = 0
       /\ \E t \in {RandText(text)} : text' = t /\ Emit(t)
       /\ hist' = 1 /\ UNCHANGED toks
Change == /\ Sim /\ hist \in 1..3
          /\ \E t \in {Alter(text)} : text' = t /\ Emit(t)
          /\ hist' = (hist + 1) % 4 /\ UNCHANGED toks

Init == toks = << >> /\ text = "" /\ hist = 0
Next == Grow \/ New \/ Change
Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
(* Properties of the reading that is specified                               *)
Text == IF Sim THEN text ELSE ToksText(toks)
R == Read(Text)
\* Standard deviations are never negative
Positive == R.st = "ok" => ~R.s.neg
\* Enclosing parentheses and surrounding blanks do not matter
Blanks == R.st = "ok" => Read("  " \o Text \o " ") = R
Parentheses == R.st = "ok" /\ (Text = "" \/ ~(Starts(Strip(Text), "(") /\ Ends(Strip(Text), ")")))
               => Read("(" \o Strip(Text) \o ")") = R
\* A minus sign only changes the sign of the nominal value
Opposite == (R.st = "ok" /\ Len(Text) > 0 /\ Numeral(Ch(Text, 1))) =>
                LET o == Read("-" \o Text)
                IN o.st = "ok" /\ o.s = R.s /\ o.n = [R.n EXCEPT !.neg = TRUE]
=============================================================================
