------------------------------- MODULE Expand -------------------------------
(* Threads that use quantities sharing intermediate results.                 *)
(*                                                                           *)
(* The linear part of a quantity is a sum of terms (factor, other linear     *)
(* part) that is expanded (to derivatives with respect to variables) when it *)
(* is first read; the expanded form replaces the sum. Wrapped functions get  *)
(* their derivatives from an iterator, when they are first needed.           *)
(*                                                                           *)
(* Each action is an access to something shared. All the interleavings of    *)
(* the threads are possible. What users rely on:                             *)
(*  - Results: every thread gets what it would have got alone;               *)
(*  - SameValue: the shared quantities keep their value;                     *)
(*  - Termination: every thread gets its results.                            *)
(*                                                                           *)
(* Expansion: "swap" (the sum is not modified; the expanded form is put in   *)
(* place in one step) or "inplace" (the sum is consumed), which is unsafe.   *)
(* Filling: "lock" (one thread at a time gets derivatives from the iterator) *)
(* or "free", which is unsafe. The unsafe ones show that the properties are  *)
(* not trivial: TLC must find a counter-example.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim, NV, NN, NT, MaxOps, MaxTerms, Expansion, Filling

Vars == 1..NV
Nodes == 1..(NV + NN)
Private(t, i) == NV + NN + (t - 1) * MaxOps + i     \* node created by operation i of thread t
AllNodes == 1..(NV + NN + NT * MaxOps)
Threads == 1..NT
Zero == [v \in Vars |-> 0]
Unit(v) == [w \in Vars |-> IF v = w THEN 1 ELSE 0]
\* Derivatives of the wrapped function, given by the iterator
Coefs == <<2, -3, 5>>

VARIABLES dag, prog, combo, iter, cache, th, sched
vs == <<dag, prog, combo, iter, cache, th, sched>>

Expanded(d) == [x |-> TRUE, t |-> << >>, d |-> d]
Sum(t) == [x |-> FALSE, t |-> t, d |-> Zero]
Add(d, f, e) == [v \in Vars |-> d[v] + f * e[v]]

\* The value of a node of the initial graph, and of a linear part
RECURSIVE Den(_, _), DenC(_, _)
Den(g, n) == IF n \in Vars THEN Unit(n)
             ELSE FoldLeft(LAMBDA acc, ft : Add(acc, ft[1], Den(g, ft[2])), Zero, g[n])
DenC(c, n) == IF c[n].x THEN c[n].d
              ELSE FoldLeft(LAMBDA acc, ft : Add(acc, ft[1], DenC(c, ft[2])), Zero, c[n].t)

\* What operation i of thread t gives
OpTerms(op) == IF op.k = "read" THEN <<<<1, op.n>>>>
               ELSE IF op.k = "new" THEN op.t
               ELSE [j \in 1..Len(op.t) |-> <<Coefs[op.t[j][1]], op.t[j][2]>>]
Expected(g, op) ==
    FoldLeft(LAMBDA acc, ft : Add(acc, ft[1], Den(g, ft[2])), Zero, OpTerms(op))

-----------------------------------------------------------------------------
Idle == [pc |-> "next", i |-> 1, n |-> 0, l |-> << >>, d |-> Zero, c |-> <<0, 0>>, a |-> 0,
         r |-> << >>]
Op(t) == prog[t][th[t].i]
Go(t, s) == /\ th' = [th EXCEPT ![t] = s]
            /\ sched' = IF Sim THEN Append(sched, t) ELSE sched
Keep == UNCHANGED <<dag, prog>>

\* Start of an operation: the nodes created are private until they are read
Begin(t) ==
    /\ th[t].pc = "next" /\ th[t].i <= Len(prog[t]) /\ Keep
    /\ LET op == Op(t) s == th[t] p == Private(t, s.i)
       IN CASE op.k = "read" -> Go(t, [s EXCEPT !.pc = "test", !.n = op.n]) /\ UNCHANGED <<combo, iter, cache>>
            [] op.k = "new" -> /\ combo' = [combo EXCEPT ![p] = Sum(op.t)]
                               /\ Go(t, [s EXCEPT !.pc = "test", !.n = p]) /\ UNCHANGED <<iter, cache>>
            [] op.k = "call" -> /\ combo' = [combo EXCEPT ![p] = Sum(<< >>)]
                                /\ Go(t, [s EXCEPT !.pc = "arg", !.n = p, !.a = 1]) /\ UNCHANGED <<iter, cache>>

\* Call of the wrapped function: the derivative of each of its arguments
Arg(t) ==
    /\ th[t].pc = "arg" /\ Keep
    /\ LET s == th[t] ts == Op(t).t IN
       IF s.a > Len(ts) THEN Go(t, [s EXCEPT !.pc = "test"]) /\ UNCHANGED <<combo, iter, cache>>
       ELSE LET pos == ts[s.a][1] IN
            IF pos <= Len(cache)
            THEN /\ combo' = [combo EXCEPT ![s.n].t = Append(@, <<cache[pos], ts[s.a][2]>>)]
                 /\ Go(t, [s EXCEPT !.a = @ + 1]) /\ UNCHANGED <<iter, cache>>
            ELSE IF Filling = "lock"
                 THEN /\ cache' = cache \o SubSeq(Coefs, Len(cache) + 1, pos)
                      /\ iter' = pos /\ Go(t, s) /\ UNCHANGED combo
                 \* The iterator is advanced, and then the derivative is put in the list, as
                 \* many times as what was missing at the beginning
                 ELSE /\ Go(t, [s EXCEPT !.pc = "fill", !.l = <<pos - Len(cache)>>])
                      /\ UNCHANGED <<combo, iter, cache>>
Fill(t) ==
    /\ th[t].pc = "fill" /\ Keep /\ UNCHANGED combo
    /\ LET s == th[t] IN
       IF s.l[1] = 0 THEN Go(t, [s EXCEPT !.pc = "arg", !.l = << >>]) /\ UNCHANGED <<iter, cache>>
       ELSE /\ iter' = iter + 1 /\ UNCHANGED cache
            /\ Go(t, [s EXCEPT !.pc = "put", !.c = <<IF iter < Len(Coefs) THEN Coefs[iter+1] ELSE 0, 0>>])
Put(t) ==
    /\ th[t].pc = "put" /\ Keep /\ UNCHANGED <<combo, iter>>
    /\ cache' = Append(cache, th[t].c[1])
    /\ Go(t, [th[t] EXCEPT !.pc = "fill", !.l = <<th[t].l[1] - 1>>])

\* Reading of the derivatives of node n
Test(t) ==
    /\ th[t].pc = "test" /\ Keep /\ UNCHANGED <<combo, iter, cache>>
    /\ LET s == th[t] c == combo[s.n]
       IN Go(t, IF c.x THEN [s EXCEPT !.pc = "get"]
                ELSE [s EXCEPT !.pc = "pop", !.l = c.t, !.d = Zero])
\* One more term: consumed in the shared sum, or in a copy
Pop(t) ==
    /\ th[t].pc = "pop" /\ Keep /\ UNCHANGED <<iter, cache>>
    /\ LET s == th[t]
           c == combo[s.n]
           l == IF Expansion = "swap" THEN s.l ELSE c.t
       IN IF Expansion = "inplace" /\ c.x  \* replaced by another thread: its items are popped
          THEN Go(t, [s EXCEPT !.pc = "crash"]) /\ UNCHANGED combo
          ELSE IF l = << >> THEN Go(t, [s EXCEPT !.pc = "write"]) /\ UNCHANGED combo
          ELSE /\ combo' = IF Expansion = "swap" THEN combo ELSE [combo EXCEPT ![s.n].t = Front(@)]
               /\ Go(t, [s EXCEPT !.pc = "look", !.l = Front(l), !.c = Last(l)])
\* The factors of the popped term are added, or its terms put in the sum
Look(t) ==
    /\ th[t].pc = "look" /\ Keep /\ UNCHANGED <<iter, cache>>
    /\ LET s == th[t] m == combo[s.c[2]]
           more == [j \in 1..Len(m.t) |-> <<s.c[1] * m.t[j][1], m.t[j][2]>>]
       IN IF m.x THEN Go(t, [s EXCEPT !.pc = "pop", !.d = Add(@, s.c[1], m.d)]) /\ UNCHANGED combo
          ELSE IF Expansion = "swap"
          THEN Go(t, [s EXCEPT !.pc = "pop", !.l = @ \o more]) /\ UNCHANGED combo
          ELSE IF combo[s.n].x THEN Go(t, [s EXCEPT !.pc = "crash"]) /\ UNCHANGED combo
          ELSE /\ combo' = [combo EXCEPT ![s.n].t = @ \o more]
               /\ Go(t, [s EXCEPT !.pc = "pop"])
Write(t) ==
    /\ th[t].pc = "write" /\ Keep /\ UNCHANGED <<iter, cache>>
    /\ combo' = [combo EXCEPT ![th[t].n] = Expanded(th[t].d)]
    /\ Go(t, [th[t] EXCEPT !.pc = "get"])
Get(t) ==
    /\ th[t].pc = "get" /\ Keep /\ UNCHANGED <<combo, iter, cache>>
    /\ Go(t, [Idle EXCEPT !.i = th[t].i + 1, !.r = Append(th[t].r, combo[th[t].n].d)])

Step(t) == Begin(t) \/ Arg(t) \/ Fill(t) \/ Put(t) \/ Test(t) \/ Pop(t) \/ Look(t) \/ Write(t) \/ Get(t)

Finished == \A t \in Threads : th[t].pc = "next" /\ th[t].i > Len(prog[t])
\* Ends of simulated behaviours: the case is printed
Emit == /\ Sim /\ sched # << >> /\ Finished
        /\ PrintT("@@" \o ToJson([nv |-> NV, dag |-> [n \in 1..NN |-> dag[NV + n]], prog |-> prog,
                 results |-> [t \in Threads |-> th[t].r],
                 values |-> [n \in 1..NN |-> Den(dag, NV + n)], sched |-> sched]))
        /\ sched' = << >> /\ UNCHANGED <<dag, prog, combo, iter, cache, th>>

-----------------------------------------------------------------------------
Factors == {1, -1, 2}
Rnd(S, dummy) == IF dag = << >> THEN RandomElement(S) ELSE RandomElement(S)
\* (a term is an earlier node)
RndTerms(below, d) == [j \in 1..TLCEval(Rnd(1..MaxTerms, d)) |-> <<Rnd(Factors, <<d, j>>),
                        \* mostly the last nodes, so that calculations are nested
                        IF Rnd(1..2, <<d, j, 1>>) = 1 /\ below > 2 THEN below - Rnd(0..1, <<d, j, 2>>)
                        ELSE Rnd(1..below, <<d, j, 3>>)>>]
The(S) == CHOOSE x \in S : TRUE
CallOf(ps, d) == [j \in 1..Cardinality(ps) |-> <<SetToSortSeq(ps, <)[j], Rnd(Nodes, <<d, j, 5>>)>>]
RndCall(d) == The({CallOf(ps, d) : ps \in {TLCEval(Rnd({p \in SUBSET (1..Len(Coefs)) : p # {}}, d))}})
OpOf(k, d) ==
    CASE k = "read" -> [k |-> k, n |-> Rnd(NV+1..NV+NN, <<d, 7>>), t |-> << >>]
      [] k = "new" -> [k |-> k, n |-> 0, t |-> TLCEval(RndTerms(NV + NN, <<d, 8>>))]
      [] k = "call" -> [k |-> k, n |-> 0, t |-> TLCEval(RndCall(<<d, 9>>))]
RndOp(d) == The({OpOf(k, d) : k \in {TLCEval(Rnd({"read", "read", "new", "call"}, d))}})InitWith(g, p) ==
    /\ dag = g /\ prog = p /\ iter = 0 /\ cache = << >> /\ sched = << >>
    /\ combo = [n \in AllNodes |-> IF n \in Vars THEN Expanded(Unit(n))
                                   ELSE IF n \in Nodes THEN Sum(g[n]) ELSE Sum(<< >>)]
    /\ th = [t \in Threads |-> Idle]

\* Small instance: all the graphs with up to MaxTerms terms per node, all the programs
Factors2 == {2}
TermSets(below) == UNION {[1..k -> Factors2 \X (1..below)] : k \in 1..MaxTerms}
OpsOf == {[k |-> "read", n |-> n, t |-> << >>] : n \in (NV+1)..(NV+NN)}
         \cup {[k |-> "new", n |-> 0, t |-> <<<<2, NV + NN>>, <<-1, m>>>>] : m \in Nodes}
         \cup {[k |-> "call", n |-> 0, t |-> x] : x \in {<<<<1, NV+NN>>, <<3, 1>>>>, <<<<2, 1>>, <<3, NV+1>>>>}}
Graphs == {g \in [(NV+1)..(NV+NN) -> TermSets(NV + NN - 1)] : \A n \in DOMAIN g : \A j \in 1..Len(g[n]) :
             g[n][j][2] < n /\ (j > 1 => g[n][j-1][2] <= g[n][j][2])}
Init == IF Sim THEN dag = << >> /\ prog = << >> /\ combo = << >> /\ iter = 0 /\ cache = << >>
                    /\ th = << >> /\ sched = << >>
        ELSE \E g \in Graphs, p \in [Threads -> UNION {[1..k -> OpsOf] : k \in 1..MaxOps}] : InitWith(g, p)
\* (random choices are made in a step, so that each behaviour has its own)
Choose == /\ Sim /\ dag = << >>
          /\ \E g \in {TLCEval([n \in (NV+1)..(NV+NN) |-> TLCEval(RndTerms(n - 1, n))])},
                p \in {TLCEval([t \in Threads |-> TLCEval([i \in 1..Rnd(1..MaxOps, t) |-> TLCEval(RndOp(<<t, i>>))])])} :
             /\ dag' = g /\ prog' = p /\ iter' = 0 /\ cache' = << >> /\ sched' = << >>
             /\ combo' = [n \in AllNodes |-> IF n \in Vars THEN Expanded(Unit(n))
                                             ELSE IF n \in Nodes THEN Sum(g[n]) ELSE Sum(<< >>)]
             /\ th' = [t \in Threads |-> Idle]
Next == Choose \/ Emit \/ (dag # << >> /\ \E t \in Threads : Step(t))
Spec == Init /\ [][Next]_vs /\ \A t \in Threads : WF_vs(dag # << >> /\ Step(t))

\* --- properties
Results == dag # << >> => \A t \in Threads :
    /\ th[t].pc # "crash"
    /\ \A i \in 1..Len(th[t].r) : th[t].r[i] = Expected(dag, prog[t][i])
SameValue == dag # << >> => \A n \in Nodes : DenC(combo, n) = Den(dag, n)
RightCache == \A i \in 1..Len(cache) : i <= Len(Coefs) /\ cache[i] = Coefs[i]
Termination == <>Finished
=============================================================================
