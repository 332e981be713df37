------------------------------- MODULE Signal -------------------------------
(* co_await qCoro(obj, &Signal[, timeout]).  Emissions are only posted to the waiters; everything else
   happens in Settle (the event loop runs until idle) and Jump (time passes, then the loop runs). *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Sg, MaxEmit, Tos, Progs, Jumps

Ws == 1..N
VARIABLES w, cq, pq, em, alive, lbl, ev
vars == <<w, cq, pq, em, alive, lbl, ev>>
vw   == <<w, cq, pq, em, alive>>

(* st: none, wait, done; rem: time left until the timeout (NoTo if none); pend: the emission on its way
   (0 if none); cq: the waiting coroutines in the order they began; pq: those an emission is on its way to *)
NoTo == 99
No == [st |-> "none", s |-> 0, to |-> 0, prog |-> "", left |-> 0, rem |-> NoTo, pend |-> 0, n |-> 0]
S0 == [w |-> w, cq |-> cq, pq |-> pq, em |-> em, alive |-> alive, ev |-> <<>>, clash |-> FALSE]
Take(S, l) == /\ ~S.clash /\ w' = S.w /\ cq' = S.cq /\ pq' = S.pq /\ em' = S.em /\ alive' = S.alive /\ ev' = S.ev /\ lbl' = l
Without(q, i) == SelectSeq(q, LAMBDA x : x # i)
Other(s) == IF Cardinality(Sg) = 1 THEN s ELSE CHOOSE x \in Sg : x # s

EmitF(S, s) ==
    IF ~S.alive \/ S.em >= MaxEmit THEN S
    ELSE LET v == S.em + 1
             hit == SelectSeq(S.cq, LAMBDA i : S.w[i].s = s /\ S.w[i].pend = 0)
         IN  [S EXCEPT !.em = v, !.pq = @ \o hit,
                       !.w = [i \in Ws |-> IF i \in Range(hit) THEN [S.w[i] EXCEPT !.pend = v] ELSE S.w[i]]]
AwaitF(S, i) == [S EXCEPT !.cq = Append(@, i), !.w[i].st = "wait", !.w[i].pend = 0, !.w[i].rem = S.w[i].to]

Resume(S, i, r, v) ==
    LET S1 == [S EXCEPT !.cq = Without(@, i), !.pq = Without(@, i), !.w[i].st = "done", !.w[i].left = @ - 1,
                        !.w[i].pend = 0, !.w[i].rem = NoTo, !.w[i].n = @ + 1,
                        !.ev = Append(@, [e |-> "resume", w |-> i, r |-> r, v |-> v])]
        p == S.w[i].prog
        S2 == IF p = "emit" /\ r = "val" THEN EmitF(S1, Other(S.w[i].s))
              ELSE IF p = "kill" THEN [S1 EXCEPT !.alive = FALSE] ELSE S1
    IN  IF S2.w[i].left > 0 /\ S2.alive THEN AwaitF(S2, i) ELSE S2

RECURSIVE DeliverAll(_, _), FireAll(_, _), Loop(_)
(* one pass of the loop delivers what was posted before it began *)
DeliverAll(S, q) == IF q = <<>> THEN S ELSE DeliverAll(Resume(S, Head(q), "val", S.w[Head(q)].pend), Tail(q))
Deliver(S) == DeliverAll(S, S.pq)
Due(S) == {i \in Range(S.cq) : S.w[i].rem <= 0}
(* due timers in deadline order *)
Sorted(S, D) == SortSeq(SelectSeq(S.cq, LAMBDA i : i \in D), LAMBDA a, b : S.w[a].rem < S.w[b].rem)
FireAll(S, q) == IF q = <<>> THEN S ELSE FireAll(Resume(S, Head(q), "empty", 0), Tail(q))
Fire(S, D) == FireAll(S, Sorted(S, D))
Loop(S) == IF S.pq = <<>> /\ Due(S) = {} THEN S
           ELSE LET S1 == Deliver(S)
                    D == Due(S1)
                IN  IF \E i \in D : S1.w[i].pend # 0
                    THEN [S1 EXCEPT !.clash = TRUE]   \* an emission made in this pass races with a due timeout
                    ELSE Loop(Fire(S1, D))

Kinds == {"once", "twice", "emit", "kill"}
Await(i, s, to, p) ==
    /\ w[i].st = "none" /\ alive /\ (i > 1 => w[i - 1].st # "none")
    /\ Take(AwaitF([S0 EXCEPT !.w[i] = [No EXCEPT !.s = s, !.to = to, !.prog = p, !.left = IF p = "twice" THEN 2 ELSE 1]], i),
            [a |-> "Await", w |-> i, s |-> s, to |-> to, prog |-> p, ns |-> TRUE])
Emission(s) == alive /\ em < MaxEmit /\ Take(EmitF(S0, s), [a |-> "Emit", s |-> s, v |-> em + 1, ns |-> TRUE])
Destroy == alive /\ Take([S0 EXCEPT !.alive = FALSE], [a |-> "Destroy", ns |-> TRUE])
Busy == cq # <<>>

(* weeks pass in one step only up to the next timeout, and when nothing else is to be done meanwhile *)
Calm(d) == (\A j \in Jumps : j < 1000) \/ d = 0 \/ (pq = <<>> /\ (\A i \in Range(cq) : w[i].rem = NoTo \/ w[i].rem >= d) /\ (d = 1 => \E i \in Range(cq) : w[i].rem = 1))
(* the loop runs; posted events come first *)
Settle == Busy /\ Take(Loop(S0), [a |-> "Settle", d |-> 0, first |-> "p"])
Aged(d) == [S0 EXCEPT !.w = [i \in Ws |-> IF i \in Range(cq) /\ w[i].rem # NoTo THEN [w[i] EXCEPT !.rem = @ - d] ELSE w[i]]]
Jump(d) == /\ Busy /\ d > 0 /\ Calm(d) /\ Take(Loop(Aged(d)), [a |-> "Settle", d |-> d, first |-> "p"])
(* the loop happens to handle its timers first: a waiter with both due may go either way *)
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.w[i].pend # 0}
    IN  /\ Busy /\ R # {} /\ Calm(d)
        /\ \E A \in SUBSET R : Take(Loop(Fire(S, (Due(S) \ R) \cup A)), [a |-> "Settle", d |-> d, first |-> "t"])

Init == w = [i \in Ws |-> No] /\ cq = <<>> /\ pq = <<>> /\ em = 0 /\ alive = TRUE /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws, s \in Sg, to \in Tos, p \in Progs : Await(i, s, to, p)
        \/ \E s \in Sg : Emission(s)
        \/ Destroy \/ Settle
        \/ \E d \in Jumps : Jump(d)
        \/ \E d \in Jumps \cup {0} : Race(d)
Spec == Init /\ [][Next]_vars

Obs == [n |-> [i \in Ws |-> w[i].n], alive |-> IF alive THEN 1 ELSE 0]
TypeOK == \A i \in Ws : w[i].n <= 2 /\ w[i].pend \in 0..MaxEmit
Registered == Range(cq) = {i \in Ws : w[i].st = "wait"} /\ Range(pq) = {i \in Ws : w[i].pend # 0}
(* an emission is never delivered to a coroutine that began to wait after it; the first one counts *)
Rounds == \A i \in Ws : w[i].st # "none" => w[i].n + w[i].left = IF w[i].prog = "twice" THEN 2 ELSE 1
(* nothing resumes inside an emit *)
NeverInEmit == lbl.a \in {"Emit", "Await", "Destroy"} => ev = <<>>
(* once the loop ran, no coroutine is left that should have resumed *)
NoneLost == lbl.a = "Settle" => pq = <<>> /\ \A i \in Range(cq) : w[i].rem > 0
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
