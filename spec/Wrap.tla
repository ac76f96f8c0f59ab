-------------------------------- MODULE Wrap --------------------------------
(* Wrapping of functions: wrap(f, derivatives_args, derivatives_kwargs).     *)
(*                                                                           *)
(* A behaviour wraps one function (signature, kind of callable, derivatives  *)
(* that are provided and how), and then calls it several times in various    *)
(* ways: positional, keyword and variable arguments; plain, opaque,          *)
(* uncertain, or sharing variables. Each call is bound to the signature      *)
(* here, which says what must be obtained: an exception, a plain value, or a *)
(* quantity, with the derivatives and where each comes from.                 *)
(*                                                                           *)
(* The function is f = sum W(s) v(s) + (sum V(s) v(s))^2 + sum v(s)^3 over   *)
(* the slots s (parameters and variable arguments). The derivatives provided *)
(* are the partial derivatives *plus Mark*, so that which one is used is     *)
(* observable. A second function, f + sum Shift2 v(s), can be wrapped with   *)
(* the same derivatives (same objects), before or after the first one, and   *)
(* calls are done to both. All the values are in units of 2^e: numerical derivatives     *)
(* must be correct for small and for large arguments.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Sim, MaxCalls, MaxPos

VARIABLES sig, log, done
vs == <<sig, log, done>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Mark == 1024
Shift2 == 41

PosNames == <<"a", "b", "c">>
KoNames == <<"k", "m">>
Extra == {"x", "y"}
AllNames == {"a", "b", "c", "k", "m", "x", "y"}
Slots == AllNames \cup {"*1", "*2", "*3", "*4", "*5", "*6", "*7", "*8", "*9", "*10", "*11", "*12"}
W(s) == CASE s = "a" -> 3 [] s = "b" -> -5 [] s = "c" -> 7 [] s = "k" -> 11 [] s = "m" -> -13
          [] s = "x" -> 17 [] s = "y" -> 19 [] s = "*1" -> 23 [] s = "*2" -> -29
          [] s = "*3" -> 31 [] s = "*4" -> 37 [] s = "*5" -> 41 [] s = "*6" -> -43
          [] s = "*7" -> 47 [] s = "*8" -> -53 [] s = "*9" -> 59 [] s = "*10" -> -61
          [] s = "*11" -> 67 [] s = "*12" -> -71
V(s) == CASE s = "a" -> 1 [] s = "b" -> -1 [] s = "c" -> 2 [] s = "k" -> -2 [] s = "m" -> 3
          [] s = "x" -> 1 [] s = "y" -> -3 [] s = "*1" -> 2 [] s = "*2" -> 1
          [] s = "*3" -> -1 [] s = "*4" -> 0 [] s = "*5" -> 1 [] s = "*6" -> -1
          [] s = "*7" -> 0 [] s = "*8" -> 2 [] s = "*9" -> -2 [] s = "*10" -> 1
          [] s = "*11" -> 0 [] s = "*12" -> -1
Default(s) == CASE s = "a" -> 2 [] s = "b" -> -3 [] s = "c" -> 5 [] s = "k" -> 1 [] s = "m" -> 4
                [] OTHER -> 0

-----------------------------------------------------------------------------
(* Wrapping *)

Kinds == {"def", "lambda", "method", "classmethod", "staticmethod"}
\* What the given derivatives are: functions, or other callable objects (which can
\* be considered as false)
Callables == {"function", "function", "object", "falsy", "partial", "method"}
Containers == {"list", "tuple", "iter", "inf"}
NonNumerical == {"str", "list", "array", "none"}
Results == {"float", "int", "npfloat", "Fraction", "npint", "np32"} \cup NonNumerical
Exponents == {0, -3, 5, -40, 40, -150, 150}
Signatures ==
    {[pos |-> p, def |-> d, var |-> v, ko |-> k, kodef |-> kd, vk |-> x] :
        p \in 0..3, d \in 0..3, v \in BOOLEAN, k \in 0..2, kd \in BOOLEAN, x \in BOOLEAN}
Legal(s) == s.def <= s.pos /\ (s.ko = 0 => s.kodef)
PosSet(s) == {PosNames[i] : i \in 1..s.pos}
KoSet(s) == {KoNames[i] : i \in 1..s.ko}
\* Derivatives: "g": given, "n": None, "p": numerical, explicitly calculated with the
\* library (by position: not for parameters, which can be given by name)
DArgs == UNION {[1..n -> {"g", "n", "p"}] : n \in 0..4}
Clean(s, da) == [i \in 1..Len(da) |-> IF da[i] = "p" /\ ~(s.var /\ i > s.pos) THEN "n" ELSE da[i]]
Wrapping ==
    /\ sig.w = FALSE
    \* (many arguments: variable ones)
    /\ \E s \in Pick({t \in Signatures : Legal(t) /\ (MaxPos > 4 => t.var)}), kind \in Pick(Kinds),
          c \in Pick(Containers), dc \in Pick(Callables), da \in (IF Sim THEN {TLCEval([i \in 1..RandomElement(0..MaxPos) |->
                                         RandomElement({"g", "n", "p"})])} ELSE DArgs),
          \* (float results: most of the time)
          e \in Pick(Exponents), res \in (IF Sim /\ RandomElement(1..3) > 1 THEN {"float"} ELSE Pick(Results)) :
       \E dkn \in Pick(SUBSET (AllNames \ PosSet(s))) :
       \E dk \in Pick([dkn -> {"g", "n", "p"}]),
          \* (an iterator can only be used once)
          sec \in Pick(IF c \in {"list", "tuple"} THEN {"none", "before", "after"} ELSE {"none"}) :
         sig' = s @@ [w |-> TRUE, kind |-> kind, c |-> c, dc |-> dc, e |-> e, da |-> Clean(s, da), dk |-> dk,
                      res |-> res, second |-> sec]
    /\ UNCHANGED <<log, done>>

-----------------------------------------------------------------------------
(* Binding of a call: positional arguments and keyword arguments *)

Min2(a, b) == IF a < b THEN a ELSE b
PosSlot(i) == IF i <= sig.pos THEN PosNames[i]
              ELSE <<"*1", "*2", "*3", "*4", "*5", "*6", "*7", "*8", "*9", "*10", "*11",
                     "*12">>[i - sig.pos]

Bindable(np, kw) ==
    /\ np > sig.pos => sig.var
    /\ \A i \in 1..Min2(np, sig.pos) : PosNames[i] \notin kw
    /\ \A i \in (np+1)..(sig.pos - sig.def) : PosNames[i] \in kw
    /\ ~sig.kodef => KoSet(sig) \subseteq kw
    /\ kw \ (PosSet(sig) \cup KoSet(sig)) # {} => sig.vk

\* Which derivative is used for the positional argument i / the keyword n
SourcePos(i) == IF i <= Len(sig.da) THEN sig.da[i] ELSE IF sig.c = "inf" THEN "g" ELSE "n"
PosIndex(n) == CHOOSE i \in 1..3 : PosNames[i] = n
SourceKw(n) == IF n \in PosSet(sig) THEN SourcePos(PosIndex(n))
               ELSE IF n \in DOMAIN sig.dk THEN sig.dk[n] ELSE "n"
\* What the source of a derivative adds to the partial derivative of the first function
Added(src, which) == CASE src = "g" -> Mark [] src = "p" -> 0
                       [] src = "n" -> IF which = 2 THEN Shift2 ELSE 0

(* Arguments: [k |-> kind, v |-> value or variable]                          *)
(* "c": number v; "o": opaque object of value v; "u": variable number v;     *)
(* "d": twice the variable v, minus 1                                        *)
VarValue(v) == <<2, -3, 5, 0>>[v]
\* (The step of the numerical derivatives is arbitrary for 0: not with all units)
NVars == IF sig.e \in {0, -3} THEN 4 ELSE 3
ArgKinds == <<"u", "u", "c", "d", "o", "u">>
ArgValue(a) == CASE a.k \in {"c", "o"} -> a.v [] a.k = "u" -> VarValue(a.v)
                 [] a.k = "d" -> 2*VarValue(a.v) - 1
Mult(a) == IF a.k = "u" THEN 1 ELSE IF a.k = "d" THEN 2 ELSE 0
RandomArg(plain) ==
    LET k == IF plain THEN RandomElement({"c", "o"}) ELSE ArgKinds[RandomElement(1..6)]
    IN [k |-> k, v |-> IF k \in {"c", "o"} THEN RandomElement(-4..4) ELSE RandomElement(1..NVars)]
FewArgs == {[k |-> "u", v |-> 1], [k |-> "c", v |-> 3]}
Uncertain(a) == a.k \in {"u", "d"}

\* args: sequence; kwargs: function from names to arguments
Outcome(args, kwargs, which) ==
    IF ~Bindable(Len(args), DOMAIN kwargs) THEN [t |-> "TypeError"]
    ELSE LET given == {PosSlot(i) : i \in 1..Len(args)} \cup DOMAIN kwargs
             slots == PosSet(sig) \cup KoSet(sig) \cup given
             val == [s \in slots |->
                        IF s \in DOMAIN kwargs THEN ArgValue(kwargs[s])
                        ELSE IF s \in given
                             THEN ArgValue(args[CHOOSE i \in 1..Len(args) : PosSlot(i) = s])
                        ELSE Default(s)]
             lin == FoldSet(LAMBDA s, acc : acc + (W(s) + IF which = 2 THEN Shift2 ELSE 0)*val[s],
                            0, slots)
             sq == FoldSet(LAMBDA s, acc : acc + V(s)*val[s], 0, slots)
             cub == FoldSet(LAMBDA s, acc : acc + val[s]*val[s]*val[s], 0, slots)
             part(s) == W(s) + 2*V(s)*sq + 3*val[s]*val[s]
             dpos(v) == FoldSet(LAMBDA i, acc : acc +
                            (IF Uncertain(args[i]) /\ args[i].v = v
                             THEN Mult(args[i])*(part(PosSlot(i)) + Added(SourcePos(i), which))
                             ELSE 0), 0, 1..Len(args))
             dkw(v) == FoldSet(LAMBDA n, acc : acc +
                            (IF Uncertain(kwargs[n]) /\ kwargs[n].v = v
                             THEN Mult(kwargs[n])*(part(n) + Added(SourceKw(n), which))
                             ELSE 0), 0, DOMAIN kwargs)
             num == (\E i \in 1..Len(args) : Uncertain(args[i]) /\ SourcePos(i) # "g")
                    \/ (\E n \in DOMAIN kwargs : Uncertain(kwargs[n]) /\ SourceKw(n) # "g")
             unc == (\E i \in 1..Len(args) : Uncertain(args[i]))
                    \/ (\E n \in DOMAIN kwargs : Uncertain(kwargs[n]))
         IN IF ~unc THEN [t |-> "plain", n |-> lin + sq*sq + cub]
            ELSE IF sig.res \in NonNumerical THEN [t |-> "NotImplemented"]
            ELSE [t |-> "quantity", n |-> lin + sq*sq + cub, num |-> num,
                  d |-> [v \in 1..NVars |-> dpos(v) + dkw(v)]]

Call ==
    /\ sig.w /\ ~done /\ Len(log) < MaxCalls
    \* Calls that can be bound, most of the time
    /\ \E np \in Pick(0..MaxPos) : \E kw \in (IF Sim
                  THEN LET must == {PosNames[i] : i \in (np+1)..(sig.pos - sig.def)}
                                   \cup (IF sig.kodef THEN {} ELSE KoSet(sig))
                           may == ((PosSet(sig) \ {PosNames[i] : i \in 1..Min2(np, sig.pos)})
                                   \cup KoSet(sig) \cup (IF sig.vk THEN Extra ELSE {}))
                       IN {IF RandomElement(1..8) = 1 THEN RandomElement(SUBSET AllNames)
                           ELSE must \cup RandomElement(SUBSET may)}
                  ELSE SUBSET AllNames) :
         LET plain == Sim /\ RandomElement(1..6) = 1 IN
         \E n2 \in {IF Sim /\ ~sig.var /\ RandomElement(1..8) > 1 THEN Min2(np, sig.pos) ELSE np} :
         \E args \in (IF Sim THEN {[i \in 1..n2 |-> RandomArg(plain)]} ELSE [1..n2 -> FewArgs]),
            kwargs \in (IF Sim THEN {[n \in kw |-> RandomArg(plain)]} ELSE [kw -> FewArgs]),
            which \in Pick(IF sig.second = "none" THEN {1} ELSE {1, 2}) :
            log' = Append(log, [args |-> args, kwargs |-> kwargs, f |-> which,
                                o |-> Outcome(args, kwargs, which)])
    /\ UNCHANGED <<sig, done>>

Finish == /\ sig.w /\ ~done /\ Len(log) = MaxCalls
          /\ done' = TRUE /\ UNCHANGED <<sig, log>>
          /\ PrintT("@@" \o ToJson([sig |-> sig, log |-> log]))

Init == sig = [w |-> FALSE] /\ log = << >> /\ done = FALSE
Next == Wrapping \/ Call \/ Finish
Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
(* The outcome of a call only depends on the wrapping, not on earlier calls *)
NoHistory == \A i, j \in 1..Len(log) :
    (log[i].args = log[j].args /\ log[i].kwargs = log[j].kwargs /\ log[i].f = log[j].f) => log[i].o = log[j].o
\* Giving a positional parameter by its name changes nothing
ByName == \A i, j \in 1..Len(log) :
    (/\ Len(log[i].args) = 1 /\ DOMAIN log[i].kwargs = {}
     /\ log[j].args = << >> /\ DOMAIN log[j].kwargs = {"a"} /\ sig.pos > 0
     /\ log[i].f = log[j].f
     /\ log[j].kwargs["a"] = log[i].args[1]) => log[i].o = log[j].o
=============================================================================
