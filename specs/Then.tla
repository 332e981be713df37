-------------------------------- MODULE Then --------------------------------
(* Task::then(): chains of continuations.  Nodes are Tasks: "base" coroutines the environment
   completes, and continuations attached to any earlier node (through the Task object, or consuming
   it).  Callbacks return a value, throw, or return a Task (finished or still running); error
   handlers return or throw.  Observer coroutines await the nodes and report the outcome. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, BaseModes, CbKinds, ErrKinds, Forms, Outcomes, Ops

Nd == 1..N
VARIABLES nd, lbl, ev
vars == <<nd, lbl, ev>>
vw   == <<nd>>

(* st: none, pause, wait (for the source), inner (for the callback's task), done *)
No == [st |-> "none", kind |-> "", src |-> 0, cb |-> "", err |-> "", res |-> "none", v |-> 0, taken |-> FALSE,
       aw |-> <<>>, obj |-> FALSE, held |-> 0, seen |-> FALSE]

S0 == [nd |-> nd, ev |-> <<>>]
Take(S, l) == nd' = S.nd /\ ev' = S.ev /\ lbl' = l
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]

RECURSIVE Complete(_, _, _, _), ResumeAll(_, _, _), Continue(_, _, _)

Complete(S, n, kind, v) ==
    LET q  == S.nd[n].aw
        S1 == [S EXCEPT !.nd[n].st = "done", !.nd[n].res = kind, !.nd[n].v = v, !.nd[n].aw = <<>>]
    IN  ResumeAll(IF S.nd[n].kind = "base" THEN Log(S1, [e |-> "end", n |-> n]) ELSE S1, n, q)

ResumeAll(S, n, q) ==
    IF q = <<>> THEN S ELSE ResumeAll(Continue(S, Head(q), n), n, Tail(q))

(* waiter w (a node, or -n for the observer of n) continues: n is finished *)
Continue(S, w, n) ==
    LET r  == S.nd[n]
        S1 == [S EXCEPT !.nd[n].taken = TRUE]
    IN  IF w < 0
        THEN Log(S1, [e |-> IF r.res = "val" THEN "got" ELSE "exc", n |-> n, v |-> r.v, q_first |-> ~r.taken])
        ELSE LET m == S.nd[w]
             IN  IF r.res = "val"
                 THEN LET S2 == Log(S1, [e |-> "cb", n |-> w, v |-> r.v, q_first |-> ~r.taken])
                      IN  CASE m.cb \in {"val", "taskval"} -> Complete(S2, w, "val", w * 10)
                            [] m.cb \in {"thr", "taskthr"} -> Complete(S2, w, "exc", w * 10 + 1)
                            [] m.cb = "task" -> [S2 EXCEPT !.nd[w].st = "inner"]
                 ELSE IF r.res = "odd" \/ m.err = "none" THEN Complete(S1, w, r.res, r.v)
                 ELSE LET S2 == Log(S1, [e |-> "err", n |-> w, v |-> r.v])
                      IN  IF m.err = "ok" THEN Complete(S2, w, "val", 0) ELSE Complete(S2, w, "exc", w * 10 + 2)

Unused == {n \in Nd : nd[n].st = "none"}

Value(n, out) == IF out = "val" THEN n * 10 ELSE n * 10 + 1

New(mode) ==
    /\ Unused # {}
    /\ LET n  == Min(Unused)
           S1 == [S0 EXCEPT !.nd[n] = [No EXCEPT !.st = "pause", !.kind = "base", !.obj = TRUE]]
       IN  Take(IF mode = "pause" THEN S1 ELSE Complete(S1, n, mode, Value(n, mode)), [a |-> "New", n |-> n, m |-> mode])

Then_(s, form, cb, err) ==
    /\ Unused # {} /\ nd[s].obj
    /\ LET n  == Min(Unused)
           S1 == [S0 EXCEPT !.nd[n] = [No EXCEPT !.st = "wait", !.kind = "then", !.src = s, !.cb = cb, !.err = err, !.obj = TRUE],
                            !.nd[s].obj = (form = "l"), !.nd[s].held = IF form = "r" THEN n ELSE @]
       IN  Take(IF nd[s].st = "done" THEN Continue(S1, n, s) ELSE [S1 EXCEPT !.nd[s].aw = Append(@, n)],
                [a |-> "Then", n |-> n, s |-> s, form |-> form, cb |-> cb, err |-> err])

Finish(n, out) ==
    /\ nd[n].st \in {"pause", "inner"}
    /\ Take(Complete(S0, n, out, Value(n, out)), [a |-> "Finish", n |-> n, out |-> out])

Await(n) ==
    /\ nd[n].obj /\ ~nd[n].seen
    /\ LET S1 == [S0 EXCEPT !.nd[n].seen = TRUE]
       IN  Take(IF nd[n].st = "done" THEN Continue(S1, -n, n) ELSE [S1 EXCEPT !.nd[n].aw = Append(@, -n)],
                [a |-> "Await", n |-> n])
Drop(n) == nd[n].obj /\ Take([S0 EXCEPT !.nd[n].obj = FALSE], [a |-> "Drop", n |-> n])

Init == nd = [n \in Nd |-> No] /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E m \in BaseModes : New(m)
        \/ \E s \in Nd, f \in Forms, c \in CbKinds, e \in ErrKinds : Then_(s, f, c, e)
        \/ \E n \in Nd, o \in Outcomes : Finish(n, o)
        \/ \E n \in Nd : Await(n)
        \/ "drop" \in Ops /\ \E n \in Nd : Drop(n)
Spec == Init /\ [][Next]_vars

RECURSIVE Freed(_)
Freed(n) == /\ nd[n].st = "done" /\ ~nd[n].obj
            /\ IF nd[n].held = 0 THEN TRUE ELSE Freed(nd[n].held)
Obs == [rd |-> [n \in Nd |-> IF ~nd[n].obj THEN "none" ELSE IF nd[n].st = "done" THEN "ready" ELSE "busy"],
        fr |-> [n \in Nd |-> IF nd[n].kind = "base" /\ Freed(n) THEN 1 ELSE 0],
        cb |-> [n \in Nd |-> IF nd[n].kind = "then" /\ nd[n].st # "done" THEN 1 ELSE 0]]

TypeOK == \A n \in Nd : nd[n].st \in {"none", "pause", "wait", "inner", "done"}
Registered == \A n \in Nd : (nd[n].kind = "then" /\ nd[n].st = "wait") =>
                 /\ nd[nd[n].src].st # "done"
                 /\ Cardinality({i \in DOMAIN nd[nd[n].src].aw : nd[nd[n].src].aw[i] = n}) = 1
(* at most one of the two callbacks, at most once *)
OnceOnly == \A i, j \in DOMAIN ev : (i # j /\ ev[i].e \in {"cb", "err"} /\ ev[j].e \in {"cb", "err"}) => ev[i].n # ev[j].n
NothingLost == \A n \in Nd : nd[n].st = "done" => nd[n].aw = <<>>
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
