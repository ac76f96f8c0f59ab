------------------------------ MODULE Services ------------------------------
(* Threads that use different quantities: their operations are independent.  *)
(*                                                                           *)
(* An operation <<kind, argument>> has a result that is a function of its    *)
(* arguments only, whatever other threads do and whatever was done before.   *)
(* It proceeds by steps: looking for a remembered result, putting its        *)
(* argument in a working space, reading it back (calculating), remembering   *)
(* the result. All the interleavings of these accesses are possible.         *)
(*                                                                           *)
(* Space: where the working space is: "call" (one for each call) or "shared" *)
(* (one for each kind of operation), which is unsafe.                        *)
(* Memory: "none", "pair" (the last argument and its result are replaced in  *)
(* one step) or "parts" (in two steps, and read in two steps), unsafe.       *)
(* TLC must find a counter-example for the unsafe ones.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim, NT, MaxOps, Kinds, NArgs, Space, Memory

Threads == 1..NT
OpSet == Kinds \X (1..NArgs)
Result(op) == op
VARIABLES prog, th, space, memo, sched
vs == <<prog, th, space, memo, sched>>

Idle == [pc |-> "begin", i |-> 1, w |-> 0, r |-> << >>]
NoMemo == [k \in Kinds |-> [a |-> 0, r |-> << >>]]
Empty == [k \in Kinds |-> 0]

Op(t) == prog[t][th[t].i]
Go(t, s) == /\ th' = [th EXCEPT ![t] = s]
            /\ sched' = (IF Sim THEN Append(sched, t) ELSE sched) /\ UNCHANGED prog
Return(s, res) == [Idle EXCEPT !.i = s.i + 1, !.r = Append(s.r, res)]

Begin(t) ==
    /\ th[t].pc = "begin" /\ th[t].i <= Len(prog[t]) /\ UNCHANGED <<space, memo>>
    /\ LET op == Op(t) m == memo[op[1]]
       IN Go(t, IF Memory = "pair" /\ m.a = op[2] THEN Return(th[t], m.r)
                ELSE IF Memory = "parts" /\ m.a = op[2] THEN [th[t] EXCEPT !.pc = "recall"]
                ELSE [th[t] EXCEPT !.pc = "put"])
Recall(t) == /\ th[t].pc = "recall" /\ UNCHANGED <<space, memo>>
             /\ Go(t, Return(th[t], memo[Op(t)[1]].r))
Put(t) ==
    /\ th[t].pc = "put" /\ UNCHANGED memo
    /\ space' = IF Space = "shared" THEN [space EXCEPT ![Op(t)[1]] = Op(t)[2]] ELSE space
    /\ Go(t, [th[t] EXCEPT !.pc = "get", !.w = Op(t)[2]])
Get(t) ==
    /\ th[t].pc = "get" /\ UNCHANGED <<space, memo>>
    /\ LET op == Op(t) a == IF Space = "shared" THEN space[op[1]] ELSE th[t].w
       IN Go(t, IF Memory = "none" THEN Return(th[t], Result(<<op[1], a>>))
                ELSE [th[t] EXCEPT !.pc = "keep", !.w = a])
Keep(t) ==
    /\ th[t].pc = "keep" /\ UNCHANGED space
    /\ LET op == Op(t) res == Result(<<op[1], th[t].w>>)
       IN IF Memory = "pair"
          THEN /\ memo' = [memo EXCEPT ![op[1]] = [a |-> op[2], r |-> res]]
               /\ Go(t, Return(th[t], res))
          ELSE /\ memo' = [memo EXCEPT ![op[1]].a = op[2]]
               /\ Go(t, [th[t] EXCEPT !.pc = "keep2"])
Keep2(t) ==
    /\ th[t].pc = "keep2" /\ UNCHANGED space
    /\ LET op == Op(t) res == Result(<<op[1], th[t].w>>)
       IN /\ memo' = [memo EXCEPT ![op[1]].r = res]
          /\ Go(t, Return(th[t], res))

Step(t) == Begin(t) \/ Recall(t) \/ Put(t) \/ Get(t) \/ Keep(t) \/ Keep2(t)
Finished == prog # << >> /\ \A t \in Threads : th[t].i > Len(prog[t])

Emit == /\ Sim /\ sched # << >> /\ Finished
        /\ PrintT("@@" \o ToJson([prog |-> prog, sched |-> sched,
                                  results |-> [t \in Threads |-> th[t].r]]))
        /\ sched' = << >> /\ UNCHANGED <<prog, th, space, memo>>

Rnd(S) == IF prog = << >> THEN RandomElement(S) ELSE RandomElement(S)
RECURSIVE RndOps(_, _)
\* (mostly operations of the same kind, with different arguments)
RndOps(k, n) == IF n = 0 THEN << >>
                ELSE <<<<IF Rnd(1..8) = 1 THEN Rnd(Kinds) ELSE k, Rnd(1..NArgs)>>>> \o RndOps(k, n - 1)
Start(p) == /\ prog' = p /\ th' = [t \in Threads |-> Idle] /\ space' = Empty /\ memo' = NoMemo
            /\ sched' = << >>
Choose == /\ Sim /\ prog = << >>
          /\ \E k \in {TLCEval(Rnd(Kinds))} :
             \E p \in {TLCEval([t \in Threads |-> TLCEval(RndOps(k, TLCEval(Rnd(1..MaxOps))))])} : Start(p)
Init == /\ IF Sim THEN prog = << >>
           ELSE prog \in [Threads -> UNION {[1..n -> OpSet] : n \in 1..MaxOps}]
        /\ th = [t \in Threads |-> Idle] /\ space = Empty /\ memo = NoMemo /\ sched = << >>
Next == Choose \/ Emit \/ (prog # << >> /\ \E t \in Threads : Step(t))
Spec == Init /\ [][Next]_vs /\ \A t \in Threads : WF_vs(prog # << >> /\ Step(t))

\* --- properties
\* Every thread gets what it would have got alone, in order
Results == \A t \in Threads : \A i \in 1..Len(th[t].r) : th[t].r[i] = Result(prog[t][i])
Progress == \A t \in Threads : prog # << >> => Len(th[t].r) = th[t].i - 1
Termination == <>Finished
=============================================================================
