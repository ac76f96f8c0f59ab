------------------------------- MODULE Layout -------------------------------
(* Pickling of instances of user subclasses.                                 *)
(*                                                                           *)
(* A behaviour builds a hierarchy of classes above one of the classes of the *)
(* package (the root), then an instance of its last class, whose attributes  *)
(* are set, deleted, and which is pickled (the unpickled instance replaces   *)
(* it). The state of an instance is what Python's rules of attribute lookup  *)
(* make of it: slots of all the classes (private names are mangled by their  *)
(* class), and an instance dictionary, if a class of the hierarchy gives     *)
(* one, whose entries can be shadowed by slots. Pickling keeps this state.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim, MaxClasses, MaxLen

VARIABLES classes, obj, start, log, done
vs == <<classes, obj, start, log, done>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Empty == << >>

Root == 0
\* A class: bases (sequence of earlier classes, Root, or none: object), names
\* in __slots__, whether it has any __slots__, and the form of __slots__
Names == {"p", "q", "r"}          \* "r" stands for the private name __r
Special == {"dict", "weakref"}    \* __dict__ and __weakref__
Forms == {"tuple", "list", "str", "set", "dict"}

RECURSIVE Anc(_, _)
\* Classes above i, including i
Anc(cs, i) == IF i = Root THEN {Root}
              ELSE {i} \cup UNION {Anc(cs, cs[i].bases[k]) : k \in 1..Len(cs[i].bases)}

\* Linearization of the ancestors (C3), << >> if there is none
RECURSIVE Merge(_)
Merge(ss) ==
    LET s == SelectSeq(ss, LAMBDA x : x # << >>)
    IN IF s = << >> THEN << >>
       ELSE LET good == {k \in 1..Len(s) :
                            \A m \in 1..Len(s) : \A x \in 2..Len(s[m]) : s[m][x] # s[k][1]}
            IN IF good = {} THEN << -1 >>
               ELSE LET k == CHOOSE k \in good : \A m \in good : k <= m
                        h == s[k][1]
                    IN <<h>> \o Merge([m \in 1..Len(s) |->
                                         IF s[m][1] = h THEN Tail(s[m]) ELSE s[m]])
RECURSIVE Mro(_, _)
Mro(cs, i) == IF i = Root THEN <<Root>>
              ELSE <<i>> \o Merge([k \in 1..Len(cs[i].bases) |-> Mro(cs, cs[i].bases[k])]
                                  \o <<cs[i].bases>>)
Linear(cs, i) == \A k \in 1..Len(Mro(cs, i)) : Mro(cs, i)[k] # -1

HasDict(cs, i) == \E k \in Anc(cs, i) \ {Root} : ~cs[k].has \/ "dict" \in cs[k].slots
HasWeak(cs, i) == \E k \in Anc(cs, i) \ {Root} : ~cs[k].has \/ "weakref" \in cs[k].slots

\* Class that determines the layout in memory (-1: that of object)
RECURSIVE Solid(_, _)
SolidOf(cs, c) == IF c = Root THEN Root ELSE Solid(cs, c)
Above(cs, s, t) == s = -1 \/ (t # -1 /\ s \in Anc(cs, t))
Solid(cs, i) ==
    IF cs[i].slots \cap Names # {} THEN i
    ELSE LET b == {SolidOf(cs, cs[i].bases[k]) : k \in 1..Len(cs[i].bases)}
         IN IF b = {} THEN -1
            ELSE CHOOSE s \in b : \A t \in b : Above(cs, t, s) \/ ~Above(cs, s, t)
Compatible(cs, i) ==
    \A k, m \in 1..Len(cs[i].bases) :
        LET s == SolidOf(cs, cs[i].bases[k]) t == SolidOf(cs, cs[i].bases[m])
        IN Above(cs, s, t) \/ Above(cs, t, s)
Legal(cs, i) ==
    /\ ~cs[i].has => cs[i].slots = {}
    /\ cs[i].form = "str" => Cardinality(cs[i].slots) = 1
    /\ "dict" \in cs[i].slots => \A k \in 1..Len(cs[i].bases) :
          cs[i].bases[k] = Root \/ ~HasDict(cs, cs[i].bases[k])
    /\ "weakref" \in cs[i].slots => \A k \in 1..Len(cs[i].bases) :
          cs[i].bases[k] = Root \/ ~HasWeak(cs, cs[i].bases[k])
    /\ Compatible(cs, i)
    /\ Linear(cs, i)

\* Attributes of an instance of class i that are stored in slots; a private
\* name of class k is "r" with the number of the class
Attr(k, n) == IF n = "r" THEN "r" \o ToString(k) ELSE n
SlotAttrs(cs, i) == UNION {{Attr(k, n) : n \in cs[k].slots \cap Names} : k \in Anc(cs, i) \ {Root}}

-----------------------------------------------------------------------------
BaseLists(n) == {<< >>} \cup {<<i>> : i \in 0..n}
                \cup {b \in (0..n) \X (0..n) : b[1] # b[2]}
AddClass ==
    /\ obj = Empty /\ Len(classes) < MaxClasses
    /\ \E b \in Pick(BaseLists(Len(classes))), has \in Pick({TRUE, FALSE}),
          sl \in Pick(SUBSET (Names \cup Special)), f \in Pick(Forms) :
         LET c == [bases |-> b, has |-> has, slots |-> IF has THEN sl ELSE {},
                   form |-> IF ~has THEN "tuple"
                            ELSE IF f = "str" /\ Cardinality(sl) # 1 THEN "list" ELSE f]
             cs == Append(classes, c)
         IN /\ Legal(cs, Len(cs))
            \* (two spellings of the same class)
            /\ Sim \/ (f = c.form /\ sl = c.slots /\ f \in {"tuple", "str"})
            /\ classes' = cs
    /\ UNCHANGED <<obj, start, log, done>>

\* The attributes whose value is considered
Me == Len(classes)
Tracked == {"p", "q", "t"} \cup {"r" \o ToString(k) : k \in 1..Len(classes)}
Values == IF Sim THEN {"1", "2", "self", "list", "twice", "other", "None"} ELSE {"1", "twice"}
Instance ==
    /\ obj = Empty /\ classes # << >> /\ (Sim => Len(classes) >= MaxClasses \div 2)
    /\ Root \in Anc(classes, Me)
    /\ \E r \in Pick({"variable", "function"}), s \in Pick(IF Sim THEN {0, 1, 3} ELSE {3}),
          t \in Pick(IF Sim THEN {"", "a"} ELSE {"a"}) :
         obj' = [root |-> r, s |-> s, tag |-> t, slots |-> Empty, dict |-> Empty]
         /\ start' = s
    /\ UNCHANGED <<classes, log, done>>

Running == obj # Empty /\ ~done /\ Len(log) < MaxLen
\* (Without Sim: the instance is only pickled at the end)
Change == Running /\ (Sim \/ Len(log) < MaxLen - 1)
Log(e) == log' = Append(log, e) /\ UNCHANGED <<classes, start, done>>
Put(f, n, v) == (n :> v) @@ f
Del(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]

Set == /\ Change
       /\ \E n \in Pick(Tracked), v \in Pick(Values) :
            \/ /\ n \in SlotAttrs(classes, Me)
               /\ obj' = [obj EXCEPT !.slots = Put(@, n, v)]
               /\ Log([a |-> "set", n |-> n, v |-> v, ok |-> TRUE])
            \/ /\ n \notin SlotAttrs(classes, Me) /\ HasDict(classes, Me)
               /\ obj' = [obj EXCEPT !.dict = Put(@, n, v)]
               /\ Log([a |-> "set", n |-> n, v |-> v, ok |-> TRUE])
            \/ /\ n \notin SlotAttrs(classes, Me) /\ ~HasDict(classes, Me)
               /\ obj' = obj
               /\ Log([a |-> "set", n |-> n, v |-> v, ok |-> FALSE])
\* Directly in the instance dictionary: possibly shadowed
SetDict == /\ Change /\ HasDict(classes, Me)
           /\ \E n \in Pick(Tracked \cup {"tag"}), v \in Pick(Values) :
                /\ obj' = [obj EXCEPT !.dict = Put(@, n, v)]
                /\ Log([a |-> "setdict", n |-> n, v |-> v])
DelAttr == /\ Change /\ DOMAIN obj.slots \cup DOMAIN obj.dict # {}
           /\ \E n \in Pick(DOMAIN obj.slots \cup DOMAIN obj.dict) :
                /\ n # "tag"
                /\ \/ /\ n \in DOMAIN obj.slots
                      /\ obj' = [obj EXCEPT !.slots = Del(@, n)]
                   \/ /\ n \notin SlotAttrs(classes, Me) /\ n \in DOMAIN obj.dict
                      /\ obj' = [obj EXCEPT !.dict = Del(@, n)]
                /\ Log([a |-> "del", n |-> n])
SetStd == /\ Change /\ obj.root = "variable"
          /\ \E s \in Pick({0, 1, 3, 5}) :
               /\ obj' = [obj EXCEPT !.s = s]
               /\ Log([a |-> "std", s |-> s])
\* What is seen, of an attribute: slots first
Seen(n) == IF n \in DOMAIN obj.slots THEN obj.slots[n]
           ELSE IF n \in SlotAttrs(classes, Me) THEN "undefined"
           ELSE IF n \in DOMAIN obj.dict THEN obj.dict[n] ELSE "undefined"
View == [s |-> obj.s, tag |-> obj.tag, dict |-> obj.dict, hasdict |-> HasDict(classes, Me),
         seen |-> [n \in Tracked |-> Seen(n)]]
Pickle == /\ Running /\ (Sim \/ Len(log) = MaxLen - 1)
          /\ \E p \in Pick(IF Sim THEN 0..5 ELSE {1, 2, 5}),
             how \in Pick(IF Sim THEN {"alone", "twice", "with"} ELSE {"with"}) :
               Log([a |-> "pickle", p |-> p, how |-> how, o |-> View])
          /\ UNCHANGED obj

Finish == /\ obj # Empty /\ ~done /\ Len(log) = MaxLen
          /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([classes |-> classes, root |-> obj.root, start |-> start,
                                    mro |-> Mro(classes, Me), log |-> log, o |-> View]))
          /\ UNCHANGED <<classes, obj, start, log>>

Init == classes = << >> /\ obj = Empty /\ start = 0 /\ log = << >> /\ done = FALSE
Next == AddClass \/ Instance \/ Set \/ SetDict \/ DelAttr \/ SetStd \/ Pickle \/ Finish
Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
\* A linearization has all the ancestors, each before its own ancestors
MroOK == \A i \in 1..Len(classes) :
    LET m == Mro(classes, i)
    IN /\ ToSet(m) = Anc(classes, i) /\ Len(m) = Cardinality(Anc(classes, i))
       /\ \A j, k \in 1..Len(m) : (m[k] # m[j] /\ m[k] \in Anc(classes, m[j])) => j < k
\* An instance without a dictionary has nothing but slots
NoDict == obj # Empty => /\ ~HasDict(classes, Me) => obj.dict = Empty
                         /\ DOMAIN obj.slots \subseteq SlotAttrs(classes, Me)
\* Pickling is the identity on states; hidden entries never show
PickleIdentity == [][Len(log') > Len(log) =>
                        (log'[Len(log')].a = "pickle" => obj' = obj)]_vs
=============================================================================
