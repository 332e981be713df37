----------------------------- MODULE ThreadHop -----------------------------
(* Which thread a coroutine continues on: after moveToThread(t) on t, after every other await on the thread
   it awaited from.  Thread 0 is the main thread, the others run when told (Run), one at a time. *)
EXTENDS Conf, FiniteSets

CONSTANTS C, T, Senders, Kinds, Orders, StartAts, MaxRounds

Cs == 1..C
Ts == 0..T
VARIABLES c, up, fut, rounds, lbl, ev
vars == <<c, up, fut, rounds, lbl, ev>>
vw   == <<c, {t \in Ts : up[t]}, fut, rounds>>

(* st: idle, move, sig, timed (a signal with a timeout), fut, sleep; woke: what it waits for has happened *)
S0 == [c |-> c, up |-> up, fut |-> fut, ev |-> <<>>]
Take(S, l) == c' = S.c /\ up' = S.up /\ fut' = S.fut /\ ev' = S.ev /\ lbl' = l
Arrive(S, i, t) == [S EXCEPT !.c[i] = [loc |-> t, st |-> "idle", tgt |-> 0, woke |-> FALSE], !.ev = Append(@, [e |-> "on", c |-> i, t |-> t])]
Idle(i) == c[i].st = "idle" /\ rounds < MaxRounds /\ rounds' = rounds + 1

Move(i, t, at) ==
    /\ Idle(i) /\ "move" \in Kinds
    /\ at > 0 => ~up[t]
    /\ Take([S0 EXCEPT !.c[i].st = "move", !.c[i].tgt = t, !.c[i].woke = TRUE, !.up[t] = @ \/ at > 0],
            [a |-> "Move", c |-> i, loc |-> c[i].loc, t |-> t, at |-> at, ns |-> TRUE])
Await(i, k, o) ==
    /\ Idle(i) /\ k \in Kinds
    /\ Take(IF k = "fut" /\ fut THEN Arrive(S0, i, c[i].loc) ELSE [S0 EXCEPT !.c[i].st = k, !.c[i].tgt = o],
            [a |-> "Await", c |-> i, loc |-> c[i].loc, k |-> k, o |-> o, ns |-> TRUE])
WakeIf(S, P(_)) == [S EXCEPT !.c = [i \in Cs |-> IF P(i) THEN [S.c[i] EXCEPT !.woke = TRUE] ELSE S.c[i]]]
Emit_(o, y) ==
    /\ up[y] /\ \E i \in Cs : c[i].st \in {"sig", "timed"} /\ c[i].tgt = o /\ ~c[i].woke
    /\ UNCHANGED rounds
    /\ Take(WakeIf(S0, LAMBDA i : c[i].st \in {"sig", "timed"} /\ c[i].tgt = o), [a |-> "Emit", o |-> o, y |-> y, ns |-> TRUE])
Finish(y) ==
    /\ "fut" \in Kinds /\ up[y] /\ ~fut /\ UNCHANGED rounds
    /\ Take([WakeIf(S0, LAMBDA i : c[i].st = "fut") EXCEPT !.fut = TRUE], [a |-> "Finish", y |-> y, ns |-> TRUE])
Start(t) == ~up[t] /\ UNCHANGED rounds /\ Take([S0 EXCEPT !.up[t] = TRUE], [a |-> "Start", t |-> t, ns |-> TRUE])

To(S, i) == IF S.c[i].st = "move" THEN S.c[i].tgt ELSE S.c[i].loc
Can(S, i) == S.c[i].woke /\ S.up[To(S, i)]
RECURSIVE All(_, _)
All(S, D) == IF D = {} THEN S ELSE All(Arrive(S, Min(D), To(S, Min(D))), D \ {Min(D)})
(* one thread processes its events: those it may resume may also need another thread's help *)
Run(t) ==
    /\ up[t] /\ \E i \in Cs : c[i].woke /\ (c[i].loc = t \/ To(S0, i) = t)
    /\ UNCHANGED rounds
    /\ \E D \in SUBSET {i \in Cs : Can(S0, i) /\ To(S0, i) = t} : Take(All(S0, D), [a |-> "Run", t |-> t, ns |-> t # 0])
(* every thread processes its events until none has any, time passes *)
SettleAll(ord) ==
    /\ \E i \in Cs : c[i].st # "idle"
    /\ UNCHANGED rounds
    /\ LET S == WakeIf(S0, LAMBDA i : c[i].st \in {"sleep", "timed"})
       IN  Take(All(S, {i \in Cs : Can(S, i)}), [a |-> "SettleAll", ord |-> ord])

Init == /\ c = [i \in Cs |-> [loc |-> 0, st |-> "idle", tgt |-> 0, woke |-> FALSE]]
        /\ up = [t \in Ts |-> t = 0] /\ fut = FALSE /\ rounds = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Cs : \/ \E t \in Ts, at \in StartAts \cup {0} : Move(i, t, at)
                         \/ \E k \in Kinds \ {"move"}, o \in Senders : (k \in {"fut", "sleep"} => o = 0) /\ Await(i, k, o)
        \/ \E o \in Senders, y \in Ts : Emit_(o, y)
        \/ \E y \in Ts : Finish(y)
        \/ \E t \in Ts \ {0} : Start(t)
        \/ \E t \in Ts : Run(t)
        \/ \E o \in Orders : SettleAll(o)
Spec == Init /\ [][Next]_vars

Obs == [st |-> [i \in Cs |-> IF c[i].st = "idle" THEN 0 ELSE 1]]
TypeOK == rounds <= MaxRounds /\ \A i \in Cs : c[i].loc \in Ts
OnlyRunning == \A i \in Cs : up[c[i].loc]
NoneLeft == lbl.a = "SettleAll" => \A i \in Cs : c[i].st # "idle" => (c[i].st = "move" /\ ~up[c[i].tgt]) \/ ~c[i].woke
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
