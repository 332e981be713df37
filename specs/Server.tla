-------------------------------- MODULE Server --------------------------------
(* Awaiting incoming connections.  Connections are numbered as they arrive and queue up until somebody
   takes them: a coroutine awaiting one or the application itself.  Any number of coroutines wait; those
   woken in the same pass of the loop run in any order. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Tos, Jumps, MaxRounds, MaxConns, Ops, Real

Ws == 1..N
VARIABLES w, q, arrived, sv, rounds, lbl, ev
vars == <<w, q, arrived, sv, rounds, lbl, ev>>
vw   == <<w, q, arrived, sv, rounds>>

(* sv: listening, closed, dead; pend: "", "new", "closed" (only a web socket server tells that it closes) *)
NoTo == 99
Nothing == 0
No == [st |-> "none", rem |-> NoTo, pend |-> ""]
S0 == [w |-> w, q |-> q, arrived |-> arrived, sv |-> sv, ev |-> <<>>]
Take(S, l) == w' = S.w /\ q' = S.q /\ arrived' = S.arrived /\ sv' = S.sv /\ ev' = S.ev /\ lbl' = l
Done(S, i, r) == [S EXCEPT !.w[i] = No, !.ev = Append(@, [e |-> "done", w |-> i, r |-> r])]
Free(i) == w[i].st = "none" /\ sv # "dead" /\ rounds < MaxRounds /\ (i > 1 => w[i - 1].st # "none" \/ \A j \in Ws : w[j].st = "none" => j >= i)
Gets(S, i) == Done([S EXCEPT !.q = Tail(@)], i, Head(S.q))
Look(S, i) == IF S.sv # "listening" \/ S.w[i].pend = "closed" THEN Done(S, i, Nothing)
              ELSE IF S.q # <<>> THEN Gets(S, i)
              ELSE [S EXCEPT !.w[i].pend = ""]
Wake(S, why) == [S EXCEPT !.w = [i \in Ws |-> IF S.w[i].st = "wait" /\ S.w[i].pend = "" THEN [S.w[i] EXCEPT !.pend = why] ELSE S.w[i]]]

Await(i, to) ==
    /\ Free(i) /\ rounds' = rounds + 1
    /\ Take(Look([S0 EXCEPT !.w[i] = [st |-> "wait", rem |-> to, pend |-> ""]], i), [a |-> "Await", w |-> i, to |-> to, ns |-> TRUE])
Enqueued(k) == Wake([S0 EXCEPT !.q = @ \o [j \in 1..k |-> arrived + j], !.arrived = @ + k], "new")
Arrive(k) == /\ sv = "listening" /\ arrived + k <= MaxConns /\ UNCHANGED rounds
             /\ Take(Enqueued(k), [a |-> "Arrive", n |-> k, ns |-> TRUE])
(* the application takes a connection itself *)
Steal == "steal" \in Ops /\ q # <<>> /\ UNCHANGED rounds /\ Take([S0 EXCEPT !.q = Tail(@), !.ev = <<[e |-> "took", r |-> Head(q)]>>], [a |-> "Steal", ns |-> TRUE])
(* what is pending is gone when the server closes *)
Close == "close" \in Ops /\ sv = "listening" /\ UNCHANGED rounds /\ Take([(IF "tells" \in Ops THEN Wake(S0, "closed") ELSE S0) EXCEPT !.sv = "closed", !.q = <<>>], [a |-> "Close", ns |-> TRUE])
Listen == "close" \in Ops /\ sv = "closed" /\ UNCHANGED rounds /\ Take([S0 EXCEPT !.sv = "listening"], [a |-> "Listen", ns |-> TRUE])
(* a server tells nobody that it is destroyed: those who already heard of a connection, or have a timeout, end *)
Destroy == /\ "destroy" \in Ops /\ sv # "dead" /\ UNCHANGED rounds
           /\ \A i \in Ws : w[i].st = "wait" => w[i].pend # "" \/ w[i].rem # NoTo
           /\ Take([S0 EXCEPT !.sv = "dead", !.q = <<>>], [a |-> "Destroy", ns |-> TRUE])

RECURSIVE Outs(_), FireAll(_, _)
Woken(S) == {i \in Ws : S.w[i].st = "wait" /\ S.w[i].pend # ""}
Outs(S) == IF Woken(S) = {} THEN {S} ELSE UNION {Outs(Look(S, i)) : i \in Woken(S)}
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(Done(S, Min(D), Nothing), D \ {Min(D)})
Due(S) == {i \in Ws : S.w[i].st = "wait" /\ S.w[i].rem <= 0}
Aged(d) == [S0 EXCEPT !.w = [i \in Ws |-> IF w[i].st = "wait" /\ w[i].rem # NoTo THEN [w[i] EXCEPT !.rem = @ - d] ELSE w[i]]]
Busy == \E i \in Ws : w[i].st = "wait"
Settle(d) == /\ Busy /\ UNCHANGED rounds
             /\ \E T \in Outs(Aged(d)) : Take(FireAll(T, Due(T)), [a |-> "Settle", d |-> d, first |-> "p"])
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.w[i].pend # ""}
    IN  /\ R # {} /\ UNCHANGED rounds
        /\ \E A \in SUBSET R : \E T \in Outs(FireAll(S, (Due(S) \ R) \cup A)) :
               Take(FireAll(T, Due(T)), [a |-> "Settle", d |-> d, first |-> "t"])

Init == w = [i \in Ws |-> No] /\ q = <<>> /\ arrived = 0 /\ sv = "listening" /\ rounds = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws, to \in Tos : Await(i, to)
        \/ IF Real THEN arrived < MaxConns /\ sv = "listening" /\ UNCHANGED rounds /\ \E T \in Outs(Enqueued(1)) : Take(T, [a |-> "Arrive", n |-> 1])
           ELSE \E k \in 1..2 : Arrive(k)
        \/ Steal \/ Close \/ Listen \/ Destroy
        \/ \E d \in Jumps \cup {0} : Settle(d) \/ Race(d)
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i].st = "wait" THEN 1 ELSE 0], q |-> Len(q)]
TypeOK == Len(q) <= MaxConns /\ \A i \in 1..Len(q) : i > 1 => q[i - 1] < q[i]
NoneStuck == lbl.a = "Settle" => \A i \in Ws : w[i].st = "wait" => w[i].pend = "" /\ (sv = "listening" => q = <<>>)
NeverInline == lbl.a \in {"Close", "Listen", "Destroy"} \/ (lbl.a = "Arrive" /\ ~Real) => ev = <<>>
(* a wait ends with nothing only when its time is up or there is no server to wait for *)
NothingOnlyWhenOver == [][\A k \in 1..Len(ev') : (ev'[k].e = "done" /\ ev'[k].r = Nothing) =>
    sv' # "listening" \/ w[ev'[k].w].pend = "closed" \/ (lbl'.a = "Settle" /\ w[ev'[k].w].rem - lbl'.d <= 0)]_vars
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
