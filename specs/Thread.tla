------------------------------- MODULE Thread -------------------------------
(* Awaiting a QThread to start or finish while the thread makes progress at any moment, also in the
   middle of the call which begins to wait (mid, at: what happens, and at which of the call's queries of
   the thread's state). *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Tos, Jumps, Kinds, Mids, Ats, Stages, MaxRounds, MaxRuns, Destroying

Ws == 1..N
VARIABLES w, ts, rounds, runs, lbl, ev
vars == <<w, ts, rounds, runs, lbl, ev>>
vw   == <<w, ts, rounds, runs>>

(* ts: new, starting (running, but started() has not reached its receivers), running, finishing (no longer
   running, but finished() has not reached its receivers), finished, dead *)
NoTo == 99
No == [st |-> "none", k |-> "", rem |-> NoTo, pend |-> ""]
S0 == [w |-> w, ts |-> ts, ev |-> <<>>]
Take(S, l) == w' = S.w /\ ts' = S.ts /\ ev' = S.ev /\ lbl' = l
Done(S, i, r) == [S EXCEPT !.w[i] = No, !.ev = Append(@, [e |-> "done", w |-> i, r |-> r])]
Free(i) == w[i].st = "none" /\ ts # "dead" /\ rounds < MaxRounds /\ (i > 1 => w[i - 1].st # "none" \/ \A j \in Ws : w[j].st = "none" => j >= i)
Waiting(S, i, k, to, p) == [S EXCEPT !.w[i] = [No EXCEPT !.st = "wait", !.k = k, !.rem = to, !.pend = p]]
Up(t) == t \in {"starting", "running"}
Over(t) == t \in {"finishing", "finished"}

(* the answer of a call which finds the thread in state S.ts *)
Call(S, i, k, to) ==
    CASE k = "started" /\ Up(S.ts) -> Done(S, i, TRUE)
      [] k = "started" /\ Over(S.ts) -> Done(S, i, FALSE)
      [] k = "finished" /\ Over(S.ts) -> Done(S, i, TRUE)
      [] k = "finished" /\ S.ts = "new" -> Done(S, i, FALSE)
      [] OTHER -> Waiting(S, i, k, to, "")
Wake(S, k, r) == [S EXCEPT !.w = [i \in Ws |-> IF S.w[i].st = "wait" /\ S.w[i].k \in k /\ S.w[i].pend = "" THEN [S.w[i] EXCEPT !.pend = r] ELSE S.w[i]]]
Run1(S) == [Wake(S, {"started"}, "yes") EXCEPT !.ts = "running"]
Fin1(S) == [Wake(S, {"finished"}, "yes") EXCEPT !.ts = "finished"]
CanStart(t) == t \in {"new", "finished"}
Progress(S, m) == CASE m = "start" -> Run1(S) [] m = "finish" -> Fin1(S) [] m = "startfinish" -> Fin1(Run1(S))
(* the thread goes from S to Progress(S, m) during the call: it may look at it before, after and, with two
   steps, in between *)
MidCalls(S, i, k, to, m) ==
    {Progress(Call(S, i, k, to), m), Call(Progress(S, m), i, k, to)}
    \cup (IF m = "startfinish" THEN {Fin1(Call(Run1(S), i, k, to))} ELSE {})

Await(i, k, to) ==
    /\ Free(i) /\ rounds' = rounds + 1 /\ UNCHANGED runs
    /\ Take(Call(S0, i, k, to), [a |-> "Await", w |-> i, k |-> k, to |-> to, mid |-> "", at |-> 0, ns |-> TRUE])
AwaitMid(i, k, to, m, at) ==
    /\ Free(i) /\ rounds' = rounds + 1
    /\ IF m = "finish" THEN ts = "running" /\ UNCHANGED runs ELSE CanStart(ts) /\ runs < MaxRuns /\ runs' = runs + 1
    /\ \E T \in MidCalls(S0, i, k, to, m) :
           Take(T, [a |-> "Await", w |-> i, k |-> k, to |-> to, mid |-> m, at |-> at, ns |-> TRUE])
Step(a, from, S, r) == ts \in from /\ UNCHANGED rounds /\ runs' = runs + r /\ runs' <= MaxRuns /\ Take(S, [a |-> a, ns |-> TRUE])
Go == \/ Step("Start", {"new", "finished"}, Run1(S0), 1)
      \/ Step("Finish", {"running"}, Fin1(S0), 0)
      \/ Stages /\ \/ Step("BeginStart", {"new", "finished"}, [S0 EXCEPT !.ts = "starting"], 1)
                   \/ Step("EndStart", {"starting"}, Run1(S0), 0)
                   \/ Step("BeginFinish", {"running"}, [S0 EXCEPT !.ts = "finishing"], 0)
                   \/ Step("EndFinish", {"finishing"}, Fin1(S0), 0)
      \/ Destroying /\ Step("Destroy", {"new", "finished"}, [Wake(S0, {"started", "finished"}, "no") EXCEPT !.ts = "dead"], 0)

RECURSIVE Outs(_), FireAll(_, _)
Woken(S) == {i \in Ws : S.w[i].pend # ""}
Outs(S) == IF Woken(S) = {} THEN {S} ELSE UNION {Outs(Done(S, i, S.w[i].pend = "yes")) : i \in Woken(S)}
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(Done(S, Min(D), FALSE), D \ {Min(D)})
Due(S) == {i \in Ws : S.w[i].st = "wait" /\ S.w[i].rem <= 0}
Aged(d) == [S0 EXCEPT !.w = [i \in Ws |-> IF w[i].st = "wait" /\ w[i].rem # NoTo THEN [w[i] EXCEPT !.rem = @ - d] ELSE w[i]]]
Busy == \E i \in Ws : w[i].st = "wait"
(* a timeout which passes just as the thread makes its step may be seen before or after it: the news has to
   cross threads *)
Settle(d, first) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.w[i].pend # ""}
    IN  /\ Busy /\ UNCHANGED <<rounds, runs>>
        /\ first = "t" => R # {}
        /\ \E A \in SUBSET R : \E T \in Outs(FireAll(S, (Due(S) \ R) \cup A)) : Take(T, [a |-> "Settle", d |-> d, first |-> first])

Init == w = [i \in Ws |-> No] /\ ts = "new" /\ rounds = 0 /\ runs = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws, to \in Tos, k \in Kinds : Await(i, k, to) \/ \E m \in Mids, at \in Ats : AwaitMid(i, k, to, m, at)
        \/ Go
        \/ \E d \in Jumps \cup {0} : Settle(d, "p") \/ Settle(d, "t")
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i].st = "wait" THEN 1 ELSE 0]]
TypeOK == rounds <= MaxRounds /\ runs <= MaxRuns
NoneStuck == lbl.a = "Settle" => \A i \in Ws : w[i].st = "wait" => w[i].pend = "" /\ ts # "dead" /\ (w[i].k = "started" => ~Up(ts) \/ ts = "starting")
                                                   /\ (w[i].k = "finished" => ~Over(ts) \/ ts = "finishing")
NeverInline == lbl.a \notin {"Settle", "Await"} => ev = <<>>
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
