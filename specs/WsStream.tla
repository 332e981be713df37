------------------------------ MODULE WsStream ------------------------------
(* The text and binary message and frame streams of a web socket: generators of everything received.
   What is received is posted (p) to every stream, delivered (q) when the event loop runs, and consumed
   when the consumer asks.  0 marks the end of the stream: the socket got disconnected. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, MaxDowns, MaxEmit, Bursts, Tos, Modes, Jumps

Ls == 1..N
VARIABLES l, em, alive, downs, lbl, ev
vars == <<l, em, alive, downs, lbl, ev>>
vw   == <<l, em, alive, downs>>

(* st: none, busy (the consumer holds an element or has not begun), wait, ended, dropped.
   mode: "step" the consumer asks when told to, "auto" it asks again at once.
   from: number of the first emission it may see; n: elements consumed so far *)
NoTo == 99
No == [st |-> "none", mode |-> "", to |-> 0, rem |-> NoTo, p |-> <<>>, q |-> <<>>, from |-> 0, n |-> 0, begun |-> FALSE]
S0 == [l |-> l, em |-> em, alive |-> alive, downs |-> downs, ev |-> <<>>]
Take(S, lb) == /\ l' = S.l /\ em' = S.em /\ alive' = S.alive /\ downs' = S.downs /\ ev' = S.ev /\ lbl' = lb
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]
Active(i) == l[i].st \in {"busy", "wait"}

RECURSIVE AskF(_, _)
Elem(S, i) ==
    LET S1 == [Log(S, [e |-> "elem", l |-> i, v |-> Head(S.l[i].q)]) EXCEPT !.l[i].q = Tail(@), !.l[i].st = "busy",
                   !.l[i].rem = NoTo, !.l[i].n = @ + 1]
    IN  IF S.l[i].mode = "auto" THEN AskF(S1, i) ELSE S1
EndF(S, i) == [Log(S, [e |-> "end", l |-> i]) EXCEPT !.l[i].st = "ended", !.l[i].rem = NoTo, !.l[i].p = <<>>, !.l[i].q = <<>>]
AskF(S, i) ==
    IF S.l[i].q # <<>> THEN (IF Head(S.l[i].q) = 0 THEN EndF(S, i) ELSE Elem(S, i))
    ELSE [S EXCEPT !.l[i].st = "wait", !.l[i].rem = S.l[i].to]

Listen(i, to, m) ==
    /\ l[i].st = "none" /\ alive /\ (i > 1 => l[i - 1].st # "none")
    /\ Take([S0 EXCEPT !.l[i] = [No EXCEPT !.st = "busy", !.mode = m, !.to = to, !.from = em + 1]],
            [a |-> "Listen", l |-> i, to |-> to, mode |-> m, ns |-> TRUE])
Ask(i) == /\ l[i].st = "busy"
          /\ Take([AskF(S0, i) EXCEPT !.l[i].begun = TRUE], [a |-> "Ask", l |-> i, ns |-> TRUE])
Drop(i) == l[i].st = "busy" /\ Take([S0 EXCEPT !.l[i] = [@ EXCEPT !.st = "dropped", !.p = <<>>, !.q = <<>>]], [a |-> "Drop", l |-> i, ns |-> TRUE])
Emission(k) ==
    /\ alive /\ em + k <= MaxEmit
    /\ Take([S0 EXCEPT !.em = @ + k, !.l = [i \in Ls |-> IF Active(i) THEN [l[i] EXCEPT !.p = @ \o [j \in 1..k |-> em + j]] ELSE l[i]]],
            [a |-> "Emit", k |-> k, ns |-> TRUE])
Posted(n) == [i \in Ls |-> IF Active(i) THEN [l[i] EXCEPT !.p = Append(@, n)] ELSE l[i]]
Down == alive /\ downs < MaxDowns /\ Take([S0 EXCEPT !.alive = FALSE, !.downs = @ + 1, !.l = Posted(0)], [a |-> "Down", ns |-> TRUE])
Up_ == ~alive /\ Take([S0 EXCEPT !.alive = TRUE], [a |-> "Up", ns |-> TRUE])

DeliverOne(S, i) ==
    LET S1 == [S EXCEPT !.l[i].q = @ \o S.l[i].p, !.l[i].p = <<>>]
    IN  IF S.l[i].p # <<>> /\ S.l[i].st = "wait" THEN AskF(S1, i) ELSE S1
RECURSIVE DeliverAll(_, _), FireAll(_, _), Loop(_)
DeliverAll(S, i) == IF i > N THEN S ELSE DeliverAll(DeliverOne(S, i), i + 1)
Due(S) == {i \in Ls : S.l[i].st = "wait" /\ S.l[i].rem <= 0}
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(EndF(S, Min(D)), D \ {Min(D)})
Loop(S) == LET S1 == DeliverAll(S, 1) IN FireAll(S1, Due(S1))

Busy == \E i \in Ls : l[i].st = "wait" \/ l[i].p # <<>>
Aged(d) == [S0 EXCEPT !.l = [i \in Ls |-> IF l[i].rem # NoTo THEN [l[i] EXCEPT !.rem = @ - d] ELSE l[i]]]
Settle(d) == Busy /\ Take(Loop(Aged(d)), [a |-> "Settle", d |-> d, first |-> "p"])
(* the loop handles its timers first: an emission racing with a due timeout may come too late *)
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.l[i].p # <<>>}
    IN  R # {} /\ \E A \in SUBSET R : Take(Loop(FireAll(S, (Due(S) \ R) \cup A)), [a |-> "Settle", d |-> d, first |-> "t"])

Init == l = [i \in Ls |-> No] /\ em = 0 /\ alive = TRUE /\ downs = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ls : \/ \E to \in Tos, m \in Modes : Listen(i, to, m)
                         \/ Ask(i) \/ Drop(i)
        \/ \E k \in Bursts : Emission(k)
        \/ Down \/ Up_
        \/ \E d \in Jumps \cup {0} : Settle(d) \/ Race(d)
Spec == Init /\ [][Next]_vars

ObsSt(x) == IF x.st = "dropped" THEN "busy" ELSE x.st
Obs == [l |-> [i \in Ls |-> ObsSt(l[i])],
        seen |-> [i \in Ls |-> [k \in 1..l[i].n |-> l[i].from + k - 1]]]
TypeOK == \A i \in Ls : l[i].st \in {"none", "busy", "wait", "ended", "dropped"}
(* everything received since the call until the socket disconnected is consumed, waiting to be, or on its way *)
UpTo0(s) == IF \E k \in DOMAIN s : s[k] = 0 THEN SubSeq(s, 1, (CHOOSE k \in DOMAIN s : s[k] = 0 /\ \A j \in 1..(k - 1) : s[j] # 0) - 1) ELSE s
Complete == \A i \in Ls : Active(i) =>
    LET s == [k \in 1..l[i].n |-> l[i].from + k - 1] \o UpTo0(l[i].q \o l[i].p)
    IN  /\ s = [k \in 1..Len(s) |-> l[i].from + k - 1]
        /\ (\A k \in DOMAIN (l[i].q \o l[i].p) : (l[i].q \o l[i].p)[k] # 0) => Len(s) = em - l[i].from + 1
WaitingMeansEmpty == \A i \in Ls : l[i].st = "wait" => l[i].q = <<>>
NoneStuck == lbl.a = "Settle" => \A i \in Ls : l[i].st = "wait" => alive
NeverInEmit == lbl.a \in {"Emit", "Down", "Up", "Listen", "Drop"} => ev = <<>>
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
