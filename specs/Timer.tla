------------------------------- MODULE Timer -------------------------------
(* Awaiting QTimers, sleepFor, sleepUntil.  One unit of time is a millisecond; amounts of Big and more
   stand for amounts just beyond what fits in an int (see the driver). *)
EXTENDS Conf, FiniteSets

CONSTANTS N, NT, Intervals, Kinds, Progs, Sleeps, Clocks, Jumps, Ops

Ws == 1..N
Ts == 1..NT
Big == 1000
VARIABLES tm, wt, cq, lbl, ev
vars == <<tm, wt, cq, lbl, ev>>
vw   == <<tm, wt, cq>>

(* waiters: st none/wait/posted/done; kind direct (co_await timer), wrapped (waitForTimeout), sleep *)
NoW == [st |-> "none", kind |-> "", t |-> 0, prog |-> "", left |-> 0, rem |-> 0, n |-> 0]
NoT == [act |-> FALSE, rem |-> 0, int |-> 1, single |-> FALSE]
S0 == [tm |-> tm, wt |-> wt, cq |-> cq, ev |-> <<>>]
Norm(x) == IF x.act THEN x ELSE IF {"restart", "spin"} \cap Progs # {} THEN [x EXCEPT !.rem = 0] ELSE NoT
Take(S, l) == /\ tm' = [t \in Ts |-> Norm(S.tm[t])] /\ wt' = S.wt /\ cq' = S.cq /\ ev' = S.ev /\ lbl' = l
Without(q, i) == SelectSeq(q, LAMBDA x : x # i)
Started(x) == [x EXCEPT !.act = TRUE, !.rem = x.int]

RECURSIVE AwaitF(_, _)
Resume(S, i) ==
    LET S1 == [S EXCEPT !.wt[i].st = "done", !.wt[i].left = @ - 1, !.wt[i].n = @ + 1, !.cq = Without(@, i),
                        !.ev = Append(@, [e |-> "resume", w |-> i])]
        t == S.wt[i].t
        p == S.wt[i].prog
        S2 == IF p = "stop" THEN [S1 EXCEPT !.tm[t].act = FALSE]
              ELSE IF p = "restart" THEN [S1 EXCEPT !.tm[t] = Started(@)]
              \* starts the timer again and runs an event loop until it has fired (only with N = 1)
              ELSE IF p = "spin" THEN [S1 EXCEPT !.tm[t] = [Started(@) EXCEPT !.act = ~S1.tm[t].single]] ELSE S1
    IN  IF S2.wt[i].left > 0 THEN AwaitF(S2, i) ELSE [S2 EXCEPT !.wt[i] = [NoW EXCEPT !.st = "done", !.n = S2.wt[i].n]]
AwaitF(S, i) == IF S.tm[S.wt[i].t].act THEN [S EXCEPT !.wt[i].st = "wait", !.cq = Append(@, i)] ELSE Resume(S, i)

Free(i) == wt[i].st = "none" /\ (i > 1 => wt[i - 1].st # "none")
Await(i, k, t, p) ==
    /\ Free(i) /\ (p \in {"restart", "spin"} => tm[t].int > 0)
    /\ Take(AwaitF([S0 EXCEPT !.wt[i] = [NoW EXCEPT !.kind = k, !.t = t, !.prog = p, !.left = IF p = "twice" THEN 2 ELSE 1]], i),
            [a |-> "Await", w |-> i, k |-> k, t |-> t, prog |-> p, ns |-> TRUE])
(* 7777777 stands for a time in the past *)
Past == 7777777
Ceil(us) == IF us = Past THEN 0 ELSE IF us <= 0 THEN 0 ELSE (us + 999) \div 1000
(* a sleep that is already over may continue at once or in the next pass of the loop *)
Sleep(i, us, c) ==
    /\ Free(i)
    /\ \E now \in IF us \in {0, Past} THEN {TRUE, FALSE} ELSE {FALSE} :
         LET S == [S0 EXCEPT !.wt[i] = [NoW EXCEPT !.kind = "sleep", !.st = "wait", !.left = 1, !.rem = Ceil(us)], !.cq = Append(@, i)]
         IN  Take(IF now THEN Resume([S EXCEPT !.wt[i].t = 1], i) ELSE S, [a |-> "Sleep", w |-> i, us |-> us, c |-> c, ns |-> TRUE])
Start(t, n, s) == /\ (n = 0 => s) /\ \A i \in Ws : wt[i].t = t /\ wt[i].prog \in {"restart", "spin"} => n > 0
                  /\ Take([S0 EXCEPT !.tm[t] = [act |-> TRUE, rem |-> n, int |-> n, single |-> s]],
                          [a |-> "Start", t |-> t, n |-> n, s |-> s, ns |-> TRUE])
Stop(t) == tm[t].act /\ Take([S0 EXCEPT !.tm[t].act = FALSE], [a |-> "Stop", t |-> t, ns |-> TRUE])

RECURSIVE ResumeAll(_, _), FireAll(_, _), Loop(_), Age(_, _)
ResumeAll(S, q) == IF q = <<>> THEN S ELSE ResumeAll(Resume(S, Head(q)), Tail(q))
FireOne(S, t) ==
    LET S1 == [S EXCEPT !.tm[t] = IF @.single THEN [@ EXCEPT !.act = FALSE] ELSE [@ EXCEPT !.rem = @ + S.tm[t].int],
                        !.wt = [i \in Ws |-> IF S.wt[i].st = "wait" /\ S.wt[i].kind = "wrapped" /\ S.wt[i].t = t
                                             THEN [S.wt[i] EXCEPT !.st = "posted"] ELSE S.wt[i]]]
    IN  ResumeAll(S1, SelectSeq(S.cq, LAMBDA i : S.wt[i].kind = "direct" /\ S.wt[i].t = t))
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(FireOne(S, Min(D)), D \ {Min(D)})
DueT(S) == {t \in Ts : S.tm[t].act /\ S.tm[t].rem <= 0}
DueS(S) == SelectSeq(S.cq, LAMBDA i : S.wt[i].kind = "sleep" /\ S.wt[i].rem <= 0)
Posted(S) == SelectSeq(S.cq, LAMBDA i : S.wt[i].st = "posted")
Loop(S) == IF DueT(S) = {} /\ DueS(S) = <<>> /\ Posted(S) = <<>> THEN S
           ELSE LET S1 == FireAll(S, DueT(S))
                    S2 == ResumeAll(S1, DueS(S1))
                IN  Loop(ResumeAll(S2, Posted(S2)))
(* time passes to the next deadline, at most d *)
MinOf(D) == IF D = {} THEN 100000 ELSE Min(D)
Age(S, d) ==
    IF d = 0 THEN Loop(S)
    ELSE LET S1 == Loop(S)
             D == {S1.tm[t].rem : t \in {t \in Ts : S1.tm[t].act}} \cup {S1.wt[i].rem : i \in {i \in Ws : S1.wt[i].st = "wait" /\ S1.wt[i].kind = "sleep"}}
             k == Min({d, MinOf(D)})
         IN  Age([S1 EXCEPT !.tm = [t \in Ts |-> IF S1.tm[t].act THEN [S1.tm[t] EXCEPT !.rem = @ - k] ELSE S1.tm[t]],
                            !.wt = [i \in Ws |-> IF S1.wt[i].st = "wait" /\ S1.wt[i].kind = "sleep" THEN [S1.wt[i] EXCEPT !.rem = @ - k] ELSE S1.wt[i]]], d - k)
(* small steps only when something is near, to keep the graph small *)
Near == \A i \in Range(cq) : wt[i].kind = "sleep" => wt[i].rem <= 5
Advance(d) == cq # <<>> /\ (d \in 1..5 => Near \/ \E i \in Range(cq) : wt[i].rem \in 1..5) /\ (d >= Big => \A t \in Ts : ~tm[t].act) /\ Take(Age(S0, d), [a |-> "Advance", d |-> d])

Init == tm = [t \in Ts |-> NoT] /\ wt = [i \in Ws |-> NoW] /\ cq = <<>> /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws : \/ \E k \in Kinds, t \in Ts, p \in Progs : Await(i, k, t, p)
                         \/ \E us \in Sleeps, c \in Clocks : Sleep(i, us, c)
        \/ "timer" \in Ops /\ \E t \in Ts : (\E n \in Intervals, s \in BOOLEAN : Start(t, n, s)) \/ Stop(t)
        \/ \E d \in Jumps : Advance(d)
Spec == Init /\ [][Next]_vars

Obs == [n |-> [i \in Ws |-> wt[i].n], act |-> [t \in Ts |-> IF tm[t].act THEN 1 ELSE 0]]
TypeOK == \A i \in Ws : wt[i].n <= 2 /\ wt[i].rem >= 0
Registered == Range(cq) = {i \in Ws : wt[i].st \in {"wait", "posted"}}
NothingDue == lbl.a = "Advance" => DueT(S0) = {} /\ DueS(S0) = <<>> /\ Posted(S0) = <<>>
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
