-------------------------------- MODULE Make --------------------------------
(* Creation of quantities (current and obsolete forms) and simple accessors. *)
(*                                                                           *)
(* Numbers are tokens with the attributes that matter here (sign, integer or *)
(* not, finite or not): the harness takes arbitrary floating-point numbers   *)
(* for them (all bits significant), several times.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, MaxLen, Ways

VARIABLES objs, log, done
vs == <<objs, log, done>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Tokens == {"zero", "one", "int", "negint", "pos", "neg", "big", "small", "nan", "inf", "-inf"}
\* Numbers compared to a quantity: its own value, or the next floating-point number
Close == {"equal", "next"}
Negative == {"negint", "neg", "-inf"}
Types(k) == {"float", "np64"}
            \cup (IF k \in {"zero", "one", "int", "negint"}
                  THEN {"int", "np32", "npint", "Fraction", "Decimal"} ELSE {})
            \cup (IF k \in {"zero", "one"} THEN {"bool", "npbool"} ELSE {})
\* "": no tag; "e": an empty string, "z": the number 0, "t": a tuple (names for
\* the harness). The second argument of ufloat(string, tag) cannot be a number.
Tags == {"", "a tag", "e", "z", "t"}

\* Current forms: number, standard deviation, (tag): positional or keywords
\* "Subclass": a subclass of Variable defined by the user, with a __dict__
Current == {"2", "3", "tagkw", "allkw", "Variable", "Subclass"}
\* Obsolete forms, which give a warning
Pairs == {"pair", "pair-tag", "pair-tagkw"}
Strings == {"str", "str-tag", "str-tagkw"}
FromStr == {"fromstr", "fromstr-tag", "fromstr-tagkw"}
TakesTag(f) == f \notin {"2", "pair", "str", "fromstr"}
TagsOf(form) == IF ~TakesTag(form) THEN {""}
                ELSE IF form = "str-tag" THEN Tags \ {"z"} ELSE Tags
Warns(f) == f \in Pairs \cup Strings
TextTokens == Tokens \ {"-inf"}

Wrong == {"nothing", "number-alone", "number-and-tag", "no-std-dev", "None", "list", "complex",
          "complex-std", "text", "text-std", "pair-of-1", "pair-of-text", "empty-text",
          "fromstr-number", "fromstr-text", "fromstr-none", "unknown-keyword", "pair-negative",
          "array"}

Running == ~done /\ Len(log) < MaxLen
On(w) == Running /\ w \in Ways

Create ==
    /\ On("create")
    /\ \E form \in Pick(Current \cup Pairs \cup Strings \cup FromStr) :
       \E n \in Pick(IF form \in Strings \cup FromStr THEN TextTokens ELSE Tokens),
          s \in Pick(IF form \in Strings \cup FromStr THEN TextTokens \ Negative ELSE Tokens),
          t \in Pick(TagsOf(form)) :
       \E tn \in Pick(Types(n)), ts \in Pick(Types(s)) :
         LET ok == s \notin Negative
         IN /\ objs' = IF ok THEN Append(objs, [n |-> n, s |-> s, t |-> t, var |-> TRUE])
                       ELSE objs
            /\ log' = Append(log, [a |-> "create", f |-> form, n |-> n, s |-> s, t |-> t,
                                   tn |-> tn, ts |-> ts, ok |-> ok, warn |-> Warns(form) /\ ok,
                                   r |-> Len(objs) + 1])
    /\ UNCHANGED done

Refused ==
    /\ On("refused")
    /\ \E w \in Pick(Wrong) : log' = Append(log, [a |-> "refused", w |-> w])
    /\ UNCHANGED <<objs, done>>

Vars == {i \in 1..Len(objs) : objs[i].var}
SetStd ==
    /\ On("set") /\ Vars # {}
    /\ \E i \in Pick(Vars), s \in Pick(Tokens), how \in Pick({"attr", "obsolete"}) :
       \E ts \in Pick(Types(s)) :
         LET ok == s \notin Negative
         IN /\ objs' = IF ok THEN [objs EXCEPT ![i].s = s] ELSE objs
            /\ log' = Append(log, [a |-> "set", i |-> i, s |-> s, ts |-> ts, how |-> how,
                                   ok |-> ok, warn |-> how = "obsolete"])
    /\ UNCHANGED done
SetTag ==
    /\ On("tag") /\ Vars # {}
    /\ \E i \in Pick(Vars), t \in Pick(Tags) :
         /\ objs' = [objs EXCEPT ![i].t = t]
         /\ log' = Append(log, [a |-> "tag", i |-> i, t |-> t])
    /\ UNCHANGED done

\* Reading: all the accessors, on the quantity and on twice the quantity
ScoreDefined(i) == objs[i].s # "zero"
Read ==
    /\ On("read") /\ objs # << >>
    /\ \E i \in Pick(1..Len(objs)), x \in Pick(Tokens \cup Close) : \E tx \in Pick(Types(x)) :
         log' = Append(log, [a |-> "read", i |-> i, n |-> objs[i].n, s |-> objs[i].s,
                             t |-> objs[i].t, x |-> x, tx |-> tx, score |-> ScoreDefined(i)])
    /\ UNCHANGED <<objs, done>>
\* Plain objects, among them objects of other classes, with their own attributes
\* nominal_value, std_dev, n, s, etc. (they are not quantities)
Others == {"text", "list", "none", "foreign", "foreign-class", "foreign-slots", "named-tuple"}
Plain ==
    /\ On("plain")
    /\ \E x \in Pick(Tokens \cup Others) :
       \E tx \in Pick(IF x \in Tokens THEN Types(x) ELSE {"float"}) :
         log' = Append(log, [a |-> "plain", x |-> x, tx |-> tx])
    /\ UNCHANGED <<objs, done>>

Finish == /\ ~done /\ Len(log) = MaxLen
          /\ done' = TRUE /\ UNCHANGED <<objs, log>>
          /\ PrintT("@@" \o ToJson([log |-> log, objs |-> objs]))
Init == objs = << >> /\ log = << >> /\ done = FALSE
Next == Create \/ Refused \/ SetStd \/ SetTag \/ Read \/ Plain \/ Finish
Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
\* Standard deviations are never negative
NonNegative == \A i \in 1..Len(objs) : objs[i].s \notin Negative
\* What is refused changes nothing
RefusedHarmless == [][LET e == log'[Len(log')]
                      IN (Len(log') > Len(log) /\ e.a \in {"create", "set"}) =>
                            (~e.ok => objs' = objs)]_vs
=============================================================================
