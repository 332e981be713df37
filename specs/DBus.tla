-------------------------------- MODULE DBus --------------------------------
(* Awaiting pending DBus calls and replies. A reply is received by a thread of its own: a call
   may finish at any moment, also between an await's checking and its beginning to wait. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, C, Ways, Kinds, Outcomes, MaxRounds, Races

Ws == 1..N
Cs == 1..C
VARIABLES c, w, link, rounds, lbl, ev
vars == <<c, w, link, rounds, lbl, ev>>
vw   == <<c, w, link, rounds>>

(* call: none, pending, or how it finished: ok, error, wrong (arguments of other types), gone (the peer disconnected), nocall *)
No == [st |-> "none", k |-> "", c |-> 0, pend |-> FALSE]
S0 == [c |-> c, w |-> w, link |-> link, ev |-> <<>>]
Take(S, l) == c' = S.c /\ w' = S.w /\ link' = S.link /\ ev' = S.ev /\ lbl' = l

Done(S, i) == [S EXCEPT !.w[i] = No, !.ev = Append(@, [e |-> "done", w |-> i, c |-> S.w[i].c, r |-> S.c[S.w[i].c]])]
Finished(S, x) == S.c[x] \notin {"none", "pending"}
Free(i) == w[i].st = "none" /\ rounds < MaxRounds /\ (\A j \in Ws : w[j].st = "none" => j >= i)

Call(x, way) ==
    /\ c[x] = "none" /\ (\A y \in 1..(x - 1) : c[y] # "none") /\ (way = "net" => link)
    /\ UNCHANGED rounds
    /\ Take([S0 EXCEPT !.c[x] = CASE way = "net" -> "pending" [] way = "completed" -> "ok" [] way = "failed" -> "error" [] OTHER -> "nocall"],
            [a |-> "Call", c |-> x, way |-> way, ns |-> TRUE])
Begun(i, x, k) == [S0 EXCEPT !.w[i] = [st |-> "wait", k |-> k, c |-> x, pend |-> FALSE]]
Await(i, x, k) ==
    /\ Free(i) /\ c[x] # "none" /\ rounds' = rounds + 1
    /\ LET S1 == Begun(i, x, k)
       IN  Take(IF Finished(S0, x) THEN Done(S1, i) ELSE S1, [a |-> "Await", w |-> i, c |-> x, k |-> k, ns |-> TRUE])
Arrived(S, x, o) == [S EXCEPT !.c[x] = o, !.w = [i \in Ws |-> IF S.w[i].st = "wait" /\ S.w[i].c = x THEN [S.w[i] EXCEPT !.pend = TRUE] ELSE S.w[i]]]
(* the reply arrives while the await begins: continues at once or with the next events *)
AwaitRace(i, x, k, o) ==
    /\ Races /\ Free(i) /\ c[x] = "pending" /\ link /\ rounds' = rounds + 1
    /\ LET S1 == Arrived(Begun(i, x, k), x, o)
       IN  \E atOnce \in BOOLEAN : Take(IF atOnce THEN Done(S1, i) ELSE S1, [a |-> "Await", w |-> i, c |-> x, k |-> k, race |-> o, ns |-> TRUE])
Reply(x, o) == /\ c[x] = "pending" /\ link /\ UNCHANGED rounds
               /\ Take(Arrived(S0, x, o), [a |-> "Reply", c |-> x, o |-> o, ns |-> TRUE])
Drop == /\ link /\ (\E x \in Cs : c[x] = "pending") /\ UNCHANGED rounds
        /\ LET f[x \in 0..C] == IF x = 0 THEN [S0 EXCEPT !.link = FALSE]
                                ELSE IF c[x] = "pending" THEN Arrived(f[x - 1], x, "gone") ELSE f[x - 1]
           IN  Take(f[C], [a |-> "Drop", ns |-> TRUE])
RECURSIVE Outs(_)
Woken(S) == {i \in Ws : S.w[i].pend}
Outs(S) == IF Woken(S) = {} THEN {S} ELSE UNION {Outs(Done(S, i)) : i \in Woken(S)}
Settle == /\ (\E i \in Ws : w[i].st = "wait") /\ UNCHANGED rounds
          /\ \E T \in Outs(S0) : Take(T, [a |-> "Settle"])

Init == /\ c = [x \in Cs |-> "none"] /\ w = [i \in Ws |-> No] /\ link = TRUE /\ rounds = 0
        /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E x \in Cs, way \in Ways : Call(x, way)
        \/ \E i \in Ws, x \in Cs, k \in Kinds : Await(i, x, k) \/ \E o \in Outcomes : AwaitRace(i, x, k, o)
        \/ \E x \in Cs, o \in Outcomes : Reply(x, o)
        \/ Drop \/ Settle
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i].st = "wait" THEN 1 ELSE 0]]
TypeOK == rounds <= MaxRounds
NoneStuck == lbl.a = "Settle" => \A i \in Ws : w[i].st = "wait" => c[w[i].c] = "pending"
NeverInline == lbl.a \in {"Call", "Reply", "Drop"} => ev = <<>>
NeverEarly == \A k \in 1..Len(ev) : c[ev[k].c] \notin {"none", "pending"}
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
