------------------------------ MODULE Connect ------------------------------
(* QCoro::connect(task, context, callback). *)
EXTENDS Conf, FiniteSets

CONSTANTS N, NX, Kinds, Modes, Forms, Outcomes, Lvs

Nd == 1..N
Xs == 1..NX
VARIABLES nd, cx, lbl, ev
vars == <<nd, cx, lbl, ev>>
vw   == <<nd, cx>>

(* st: none, pause, done; con: context of the connection, 0 if not connected *)
No == [st |-> "none", kind |-> "", res |-> "none", con |-> 0, form |-> "", obj |-> FALSE]
S0 == [nd |-> nd, cx |-> cx, ev |-> <<>>]
Take(S, l) == nd' = S.nd /\ cx' = S.cx /\ ev' = S.ev /\ lbl' = l
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]

Fire(S, n) ==
    LET m == S.nd[n]
    IN  IF m.con = 0 \/ m.res # "val" \/ ~S.cx[m.con] THEN S
        ELSE LET S1 == Log(S, [e |-> "call", n |-> n, x |-> m.con, v |-> IF m.form \in {"arg", "cref", "marg", "mcref"} THEN n * 10 ELSE 0])
             IN  IF m.form = "suicide" THEN [S1 EXCEPT !.cx[m.con] = FALSE] ELSE S1

Unused == {n \in Nd : nd[n].st = "none"}
New(k, m) ==
    /\ Unused # {}
    /\ LET n == Min(Unused)
       IN  Take([S0 EXCEPT !.nd[n] = [No EXCEPT !.st = IF m = "pause" THEN "pause" ELSE "done", !.res = IF m = "pause" THEN "none" ELSE m,
                                                 !.kind = k, !.obj = TRUE]],
                [a |-> "New", n |-> n, k |-> k, m |-> m])
(* lv: the task or awaitable is an lvalue: its owner keeps it *)
Connect_(n, x, f, lv) ==
    /\ nd[n].obj /\ nd[n].con = 0 /\ cx[x]
    /\ lv => f \in {"noarg", "member", "suicide"}
    /\ LET S1 == [S0 EXCEPT !.nd[n].con = x, !.nd[n].form = f, !.nd[n].obj = lv]
       IN  Take(IF nd[n].st = "done" THEN Fire(S1, n) ELSE S1, [a |-> "Connect", n |-> n, x |-> x, f |-> f, lv |-> lv])
(* tasks and futures may go while they are awaited, other awaitables not *)
Drop(n) ==
    /\ nd[n].obj /\ (nd[n].con # 0 \/ nd[n].kind # "lazy")
    /\ nd[n].kind \in {"awaiter", "awaitable"} => nd[n].st = "done"
    /\ Take([S0 EXCEPT !.nd[n].obj = FALSE], [a |-> "Drop", n |-> n])
Finish(n, o) ==
    /\ nd[n].st = "pause"
    /\ Take(Fire([S0 EXCEPT !.nd[n].st = "done", !.nd[n].res = o], n), [a |-> "Finish", n |-> n, o |-> o])
Destroy(x) == cx[x] /\ Take([S0 EXCEPT !.cx[x] = FALSE], [a |-> "Destroy", x |-> x])

Init == nd = [n \in Nd |-> No] /\ cx = [x \in Xs |-> TRUE] /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E k \in Kinds, m \in Modes : New(k, m)
        \/ \E n \in Nd, x \in Xs, f \in Forms, lv \in Lvs : Connect_(n, x, f, lv)
        \/ \E n \in Nd : TRUE \in Lvs /\ Drop(n)
        \/ \E n \in Nd, o \in Outcomes : Finish(n, o)
        \/ \E x \in Xs : Destroy(x)
Spec == Init /\ [][Next]_vars

Obs == [x |-> [x \in Xs |-> IF cx[x] THEN 1 ELSE 0],
        (* the coroutine's frame is gone: it finished and nothing holds its task *)
        fr |-> [n \in Nd |-> IF nd[n].st = "done" /\ ~nd[n].obj THEN 1 ELSE 0],
        (* the callback object is alive while its invocation is still possible *)
        cb |-> [n \in Nd |-> IF nd[n].con # 0 /\ nd[n].st = "pause" THEN 1 ELSE 0]]
TypeOK == \A n \in Nd : nd[n].con \in 0..NX
CalledOnce == \A i, j \in DOMAIN ev : i # j => ev[i].n # ev[j].n
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
