------------------------------ MODULE Process ------------------------------
(* Awaiting a QProcess to start or finish.  Any number of coroutines may wait; those woken in the same
   pass of the loop run in any order. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Tos, Jumps, Kinds, MaxRounds, MaxRuns

Ws == 1..N
VARIABLES w, ps, rounds, runs, lbl, ev
vars == <<w, ps, rounds, runs, lbl, ev>>
vw   == <<w, ps, rounds, runs>>

(* ps: not, starting, running; k: started, finished; pend: "", "yes", "no" *)
NoTo == 99
No == [st |-> "none", k |-> "", rem |-> NoTo, pend |-> ""]
S0 == [w |-> w, ps |-> ps, ev |-> <<>>]
Take(S, l) == w' = S.w /\ ps' = S.ps /\ ev' = S.ev /\ lbl' = l
Done(S, i, r) == [S EXCEPT !.w[i] = No, !.ev = Append(@, [e |-> "done", w |-> i, r |-> r])]
Free(i) == w[i].st = "none" /\ rounds < MaxRounds /\ (i > 1 => w[i - 1].st # "none" \/ \A j \in Ws : w[j].st = "none" => j >= i)
Waiting(S, i, k, to) == [S EXCEPT !.w[i] = [No EXCEPT !.st = "wait", !.k = k, !.rem = to]]
Started(S, i, to) == CASE S.ps \in {"starting", "starting!"} -> Waiting(S, i, "started", to)
                       [] OTHER -> Done(S, i, S.ps # "not")

Await(i, k, to) ==
    /\ Free(i) /\ rounds' = rounds + 1 /\ UNCHANGED runs
    /\ Take(IF k = "started" THEN Started(S0, i, to) ELSE IF ps = "not" THEN Done(S0, i, FALSE) ELSE Waiting(S0, i, k, to),
            [a |-> "Await", w |-> i, k |-> k, to |-> to, ns |-> TRUE])
(* start(): a process which is already starting or running stays as it is *)
Start(i, to, how, good) ==
    /\ Free(i) /\ rounds' = rounds + 1
    /\ ps = "not" => runs < MaxRuns
    /\ ps # "not" => good = TRUE
    /\ runs' = IF ps = "not" THEN runs + 1 ELSE runs
    /\ Take(Started([S0 EXCEPT !.ps = IF @ = "not" THEN (IF good THEN "starting" ELSE "starting!") ELSE @], i, to),
            [a |-> "Start", w |-> i, to |-> to, how |-> how, good |-> good, ns |-> TRUE])
Launch == ps = "not" /\ runs < MaxRuns /\ runs' = runs + 1 /\ UNCHANGED rounds
          /\ Take([S0 EXCEPT !.ps = "starting"], [a |-> "Launch", ns |-> TRUE])
Wake(S, k, r) == [S EXCEPT !.w = [i \in Ws |-> IF S.w[i].st = "wait" /\ S.w[i].k \in k /\ S.w[i].pend = "" THEN [S.w[i] EXCEPT !.pend = r] ELSE S.w[i]]]
Up == ps = "starting" /\ UNCHANGED <<rounds, runs>>
      /\ Take([Wake(S0, {"started"}, "yes") EXCEPT !.ps = "running"], [a |-> "Up", ns |-> TRUE])
Fail == ps = "starting" /\ UNCHANGED <<rounds, runs>>
        /\ Take([Wake(S0, {"started", "finished"}, "no") EXCEPT !.ps = "not"], [a |-> "Fail", ns |-> TRUE])
Finish(crash) == ps = "running" /\ UNCHANGED <<rounds, runs>>
        /\ Take([Wake(S0, {"finished"}, "yes") EXCEPT !.ps = "not"], [a |-> "Finish", crash |-> crash, ns |-> TRUE])

RECURSIVE Outs(_), FireAll(_, _)
Woken(S) == {i \in Ws : S.w[i].pend # ""}
Outs(S) == IF Woken(S) = {} THEN {S} ELSE UNION {Outs(Done(S, i, S.w[i].pend = "yes")) : i \in Woken(S)}
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(Done(S, Min(D), FALSE), D \ {Min(D)})
Due(S) == {i \in Ws : S.w[i].st = "wait" /\ S.w[i].rem <= 0}
Aged(d) == [S0 EXCEPT !.w = [i \in Ws |-> IF w[i].st = "wait" /\ w[i].rem # NoTo THEN [w[i] EXCEPT !.rem = @ - d] ELSE w[i]]]
Busy == \E i \in Ws : w[i].st = "wait"
Settle(d) == /\ Busy /\ UNCHANGED <<rounds, runs>>
             /\ \E T \in Outs(Aged(d)) : Take(FireAll(T, Due(T)), [a |-> "Settle", d |-> d, first |-> "p"])
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.w[i].pend # ""}
    IN  /\ R # {} /\ UNCHANGED <<rounds, runs>>
        /\ \E A \in SUBSET R : \E T \in Outs(FireAll(S, (Due(S) \ R) \cup A)) : Take(T, [a |-> "Settle", d |-> d, first |-> "t"])

Init == w = [i \in Ws |-> No] /\ ps = "not" /\ rounds = 0 /\ runs = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Fake == \/ "starts" \in Kinds /\ ps # "not" /\ \E i \in Ws, to \in Tos, how \in {"ref", "args"} : Start(i, to, how, TRUE)
        \/ Launch \/ Up \/ Fail \/ \E c \in BOOLEAN : Finish(c)
        \/ \E d \in Jumps \cup {0} : Settle(d) \/ Race(d)

(* the same with real processes: whatever was asked of the process has happened when the loop settles *)
RealWake == CASE ps = "starting" -> [Wake(S0, {"started"}, "yes") EXCEPT !.ps = "running"]
              [] ps = "starting!" -> [Wake(S0, {"started", "finished"}, "no") EXCEPT !.ps = "not"]
              [] ps = "stopping" -> [Wake(S0, {"finished"}, "yes") EXCEPT !.ps = "not"]
              [] OTHER -> S0
RealSettle == /\ (Busy \/ ps # "not") /\ UNCHANGED <<rounds, runs>>
              /\ \E T \in Outs(RealWake) : Take(T, [a |-> "Settle", d |-> 0, first |-> "p"])
Stop(how) == ps = "running" /\ UNCHANGED <<rounds, runs>> /\ Take([S0 EXCEPT !.ps = "stopping"], [a |-> "Stop", how |-> how, ns |-> TRUE])

Real == \/ "start" \in Kinds /\ (RealSettle \/ (\E h \in {"kill", "eof"} : Stop(h))
               \/ \E i \in Ws, how \in {"ref", "args"}, good \in BOOLEAN : Start(i, NoTo, how, good))
Next == \/ \E i \in Ws, to \in Tos, k \in Kinds \ {"start", "starts"} : (ps \notin {"stopping", "starting!"} /\ Await(i, k, to))
        \/ IF "start" \in Kinds THEN Real ELSE Fake
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i].st = "wait" THEN 1 ELSE 0],
        st |-> CASE ps = "not" -> 0 [] ps \in {"starting", "starting!"} -> 1 [] OTHER -> 2]
TypeOK == rounds <= MaxRounds
NoneStuck == lbl.a = "Settle" => \A i \in Ws : w[i].st = "wait" => w[i].pend = "" /\ ps # "not" /\ (w[i].k = "started" => ps = "starting")
NeverInline == lbl.a \in {"Up", "Fail", "Finish", "Launch", "Stop"} => ev = <<>>
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
