------------------------------ MODULE Listener ------------------------------
(* qCoroSignalListener(obj, &Signal[, timeout]): generators of all emissions.  Emissions are posted
   (p) to every listener, delivered (q) when the event loop runs, and consumed when the consumer asks. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, MaxEmit, Bursts, Tos, Modes, Jumps

Ls == 1..N
VARIABLES l, em, alive, lbl, ev
vars == <<l, em, alive, lbl, ev>>
vw   == <<l, em, alive>>

(* st: none, busy (the consumer holds an element or has not begun), wait, ended, dropped.
   mode: "step" the consumer asks when told to, "auto" it asks again at once.
   from: number of the first emission it may see; n: elements consumed so far *)
NoTo == 99
No == [st |-> "none", mode |-> "", to |-> 0, rem |-> NoTo, p |-> <<>>, q |-> <<>>, from |-> 0, n |-> 0, begun |-> FALSE]
S0 == [l |-> l, em |-> em, alive |-> alive, ev |-> <<>>]
Take(S, lb) == /\ l' = S.l /\ em' = S.em /\ alive' = S.alive /\ ev' = S.ev /\ lbl' = lb
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]
Active(i) == l[i].st \in {"busy", "wait"}

RECURSIVE AskF(_, _)
Elem(S, i) ==
    LET S1 == [Log(S, [e |-> "elem", l |-> i, v |-> Head(S.l[i].q)]) EXCEPT !.l[i].q = Tail(@), !.l[i].st = "busy",
                   !.l[i].rem = NoTo, !.l[i].n = @ + 1]
    IN  IF S.l[i].mode = "auto" THEN AskF(S1, i) ELSE S1
EndF(S, i) == [Log(S, [e |-> "end", l |-> i]) EXCEPT !.l[i].st = "ended", !.l[i].rem = NoTo, !.l[i].p = <<>>, !.l[i].q = <<>>]
AskF(S, i) ==
    IF S.l[i].q # <<>> THEN Elem(S, i)
    ELSE IF ~S.alive THEN EndF(S, i)
    ELSE [S EXCEPT !.l[i].st = "wait", !.l[i].rem = S.l[i].to]

Listen(i, to, m) ==
    /\ l[i].st = "none" /\ alive /\ (i > 1 => l[i - 1].st # "none")
    /\ Take([S0 EXCEPT !.l[i] = [No EXCEPT !.st = "busy", !.mode = m, !.to = to, !.from = em + 1]],
            [a |-> "Listen", l |-> i, to |-> to, mode |-> m, ns |-> TRUE])
(* the sender is gone and emissions are still on their way: what asking then gives is left open *)
Ask(i) == /\ l[i].st = "busy" /\ ~(~alive /\ l[i].p # <<>>)
          /\ Take([AskF(S0, i) EXCEPT !.l[i].begun = TRUE], [a |-> "Ask", l |-> i, ns |-> TRUE])
Drop(i) == l[i].st = "busy" /\ Take([S0 EXCEPT !.l[i] = [@ EXCEPT !.st = "dropped", !.p = <<>>, !.q = <<>>]], [a |-> "Drop", l |-> i, ns |-> TRUE])
(* k emissions in a row *)
Emission(k) ==
    /\ alive /\ em + k <= MaxEmit
    /\ Take([S0 EXCEPT !.em = @ + k, !.l = [i \in Ls |-> IF Active(i) THEN [l[i] EXCEPT !.p = @ \o [j \in 1..k |-> em + j]] ELSE l[i]]],
            [a |-> "Emit", k |-> k, ns |-> TRUE])
(* a consumer that asks again at once may find the sender gone before all emissions on their way arrived: left open *)
Destroy == alive /\ (\E i \in Ls : Active(i)) /\ (\A i \in Ls : l[i].mode = "auto" => l[i].p = <<>>) /\ Take([S0 EXCEPT !.alive = FALSE], [a |-> "Destroy", ns |-> TRUE])

DeliverOne(S, i) ==
    LET S1 == [S EXCEPT !.l[i].q = @ \o S.l[i].p, !.l[i].p = <<>>]
    IN  IF S.l[i].p # <<>> /\ S.l[i].st = "wait" THEN Elem(S1, i) ELSE S1
RECURSIVE DeliverAll(_, _), FireAll(_, _), Loop(_)
DeliverAll(S, i) == IF i > N THEN S ELSE DeliverAll(DeliverOne(S, i), i + 1)
Due(S) == {i \in Ls : S.l[i].st = "wait" /\ S.l[i].rem <= 0}
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(EndF(S, Min(D)), D \ {Min(D)})
Loop(S) == LET S1 == DeliverAll(S, 1) IN FireAll(S1, Due(S1))

Busy == \E i \in Ls : l[i].st = "wait" \/ l[i].p # <<>>
Aged(d) == [S0 EXCEPT !.l = [i \in Ls |-> IF l[i].rem # NoTo THEN [l[i] EXCEPT !.rem = @ - d] ELSE l[i]]]
(* weeks pass in one step only up to the next timeout, and when nothing else is to be done meanwhile *)
Calm(d) == \/ (\A j \in Jumps : j < 1000) \/ d = 0
           \/ (\A i \in Ls : l[i].p = <<>> /\ (l[i].rem = NoTo \/ l[i].rem >= d)) /\ (d = 1 => \E i \in Ls : l[i].rem = 1)
Settle(d) == Busy /\ Calm(d) /\ Take(Loop(Aged(d)), [a |-> "Settle", d |-> d, first |-> "p"])
(* the loop handles its timers first: an emission racing with a due timeout may come too late *)
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.l[i].p # <<>>}
    IN  R # {} /\ Calm(d) /\ \E A \in SUBSET R : Take(Loop(FireAll(S, (Due(S) \ R) \cup A)), [a |-> "Settle", d |-> d, first |-> "t"])

Init == l = [i \in Ls |-> No] /\ em = 0 /\ alive = TRUE /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ls : \/ \E to \in Tos, m \in Modes : Listen(i, to, m)
                         \/ Ask(i) \/ Drop(i)
        \/ \E k \in Bursts : Emission(k)
        \/ Destroy
        \/ \E d \in Jumps \cup {0} : Settle(d) \/ Race(d)
Spec == Init /\ [][Next]_vars

ObsSt(x) == IF x.st = "dropped" THEN "busy" ELSE x.st
Obs == [l |-> [i \in Ls |-> ObsSt(l[i])],
        seen |-> [i \in Ls |-> [k \in 1..l[i].n |-> l[i].from + k - 1]]]
TypeOK == \A i \in Ls : l[i].st \in {"none", "busy", "wait", "ended", "dropped"}
(* everything emitted since the call is consumed, waiting to be, or on its way: nothing is lost, nothing made up *)
Complete == \A i \in Ls : Active(i) =>
    [k \in 1..l[i].n |-> l[i].from + k - 1] \o l[i].q \o l[i].p = [k \in 1..(em - l[i].from + 1) |-> l[i].from + k - 1]
WaitingMeansEmpty == \A i \in Ls : l[i].st = "wait" => l[i].q = <<>>
NeverInEmit == lbl.a \in {"Emit", "Destroy", "Listen", "Drop"} => ev = <<>>
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
