-------------------------------- MODULE Reply --------------------------------
(* Awaiting a QNetworkReply to finish, directly or with waitForFinished(). *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Tos, Jumps, Kinds, MaxRounds

Ws == 1..N
VARIABLES w, rs, rounds, lbl, ev
vars == <<w, rs, rounds, lbl, ev>>
vw   == <<w, rs, rounds>>

(* rs: running, failing (an error was reported, not finished yet), finished, dead *)
NoTo == 99
No == [st |-> "none", k |-> "", rem |-> NoTo, pend |-> FALSE]
S0 == [w |-> w, rs |-> rs, ev |-> <<>>]
Take(S, l) == w' = S.w /\ rs' = S.rs /\ ev' = S.ev /\ lbl' = l
Done(S, i, r) == [S EXCEPT !.w[i] = No, !.ev = Append(@, [e |-> "done", w |-> i, r |-> r])]
Free(i) == w[i].st = "none" /\ rs # "dead" /\ rounds < MaxRounds /\ (i > 1 => w[i - 1].st # "none" \/ \A j \in Ws : w[j].st = "none" => j >= i)
(* awaited directly, the reply itself is what comes out; 0: it has been destroyed *)
Answer(S, i) == Done(S, i, IF S.w[i].k = "direct" THEN (IF S.rs = "dead" THEN 0 ELSE 1) ELSE TRUE)

Await(i, k, to) ==
    /\ Free(i) /\ rounds' = rounds + 1 /\ (k # "wait" => to = NoTo)
    /\ LET S1 == [S0 EXCEPT !.w[i] = [st |-> "wait", k |-> IF k = "wait" THEN k ELSE "direct", rem |-> to, pend |-> FALSE]]
       IN  Take(IF rs = "finished" THEN Answer(S1, i) ELSE S1, [a |-> "Await", w |-> i, k |-> k, to |-> to, ns |-> TRUE])
Error == rs = "running" /\ UNCHANGED rounds /\ Take([S0 EXCEPT !.rs = "failing"], [a |-> "Error", ns |-> TRUE])
Finish == /\ rs \in {"running", "failing"} /\ UNCHANGED rounds
          /\ Take([S0 EXCEPT !.rs = "finished", !.w = [i \in Ws |-> [w[i] EXCEPT !.pend = w[i].st = "wait"]]], [a |-> "Finish", ns |-> TRUE])
(* bytes that come in are not the end *)
Feed == rs = "running" /\ (\E i \in Ws : w[i].st = "wait") /\ UNCHANGED rounds /\ Take(S0, [a |-> "Feed", ns |-> TRUE])
(* nobody waits for a reply which is destroyed before it finishes *)
Destroy == /\ rs # "dead" /\ UNCHANGED rounds
           /\ \A i \in Ws : w[i].st = "wait" => w[i].pend \/ w[i].rem # NoTo
           /\ Take([S0 EXCEPT !.rs = "dead"], [a |-> "Destroy", ns |-> TRUE])

RECURSIVE Outs(_), FireAll(_, _)
Woken(S) == {i \in Ws : S.w[i].pend}
Outs(S) == IF Woken(S) = {} THEN {S} ELSE UNION {Outs(Answer(S, i)) : i \in Woken(S)}
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(Done(S, Min(D), FALSE), D \ {Min(D)})
Due(S) == {i \in Ws : S.w[i].st = "wait" /\ S.w[i].rem <= 0}
Aged(d) == [S0 EXCEPT !.w = [i \in Ws |-> IF w[i].st = "wait" /\ w[i].rem # NoTo THEN [w[i] EXCEPT !.rem = @ - d] ELSE w[i]]]
Busy == \E i \in Ws : w[i].st = "wait"
Settle(d) == /\ Busy /\ UNCHANGED rounds
             /\ \E T \in Outs(Aged(d)) : Take(FireAll(T, Due(T)), [a |-> "Settle", d |-> d, first |-> "p"])
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.w[i].pend}
    IN  /\ R # {} /\ UNCHANGED rounds
        /\ \E A \in SUBSET R : \E T \in Outs(FireAll(S, (Due(S) \ R) \cup A)) : Take(T, [a |-> "Settle", d |-> d, first |-> "t"])

Init == w = [i \in Ws |-> No] /\ rs = "running" /\ rounds = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws, k \in Kinds, to \in Tos : Await(i, k, to)
        \/ Error \/ Finish \/ Feed \/ Destroy
        \/ \E d \in Jumps \cup {0} : Settle(d) \/ Race(d)
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i].st = "wait" THEN 1 ELSE 0]]
TypeOK == rounds <= MaxRounds
NoneStuck == lbl.a = "Settle" => \A i \in Ws : w[i].st = "wait" => ~w[i].pend /\ rs # "finished"
NeverInline == lbl.a \in {"Error", "Finish", "Feed", "Destroy"} => ev = <<>>
NeverEarly == \A k \in 1..Len(ev) : ToString(ev[k].r) # "FALSE" => rs \in {"finished", "dead"}
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
