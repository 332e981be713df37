-------------------------------- MODULE Lazy --------------------------------
(* QCoro::LazyTask: bodies that start when first awaited.  Nodes are lazy coroutines and the
   continuations attached to them with then(): lazy ones (the callback returns a value or a LazyTask)
   and eager ones (the callback returns a Task).  Observer coroutines await the nodes. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, MaxObs, BaseModes, CbKinds, ErrKinds, Forms, Outcomes, Ops

Nd == 1..N
VARIABLES nd, lbl, ev
vars == <<nd, lbl, ev>>
vw   == <<nd>>

(* st: none, new, pause, wait (for the source), inner (for the callback's task), done *)
No == [st |-> "none", kind |-> "", mode |-> "", src |-> 0, cb |-> "", err |-> "", res |-> "none", v |-> 0,
       taken |-> FALSE, aw |-> <<>>, obj |-> FALSE, held |-> 0, seen |-> 0, user |-> 0, kill |-> FALSE]

S0 == [nd |-> nd, ev |-> <<>>]
Take(S, l) == nd' = S.nd /\ ev' = S.ev /\ lbl' = l
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]
Value(n, out) == IF out = "val" THEN n * 10 ELSE n * 10 + 1

RECURSIVE Complete(_, _, _, _), ResumeAll(_, _, _), Continue(_, _, _), Start(_, _), AwaitBy(_, _, _)

Complete(S, n, kind, v) ==
    LET q  == S.nd[n].aw
        S1 == [S EXCEPT !.nd[n].st = "done", !.nd[n].res = kind, !.nd[n].v = v, !.nd[n].aw = <<>>]
    IN  ResumeAll(IF S.nd[n].kind = "base" THEN Log(S1, [e |-> "end", n |-> n]) ELSE S1, n, q)

ResumeAll(S, n, q) ==
    IF q = <<>> THEN S ELSE ResumeAll(Continue(S, Head(q), n), n, Tail(q))

(* w awaits n: w > 0 is a continuation, w < 0 an observer *)
AwaitBy(S, w, n) ==
    IF S.nd[n].st = "done" THEN Continue(S, w, n)
    ELSE LET S1 == [S EXCEPT !.nd[n].aw = Append(@, w)]
         IN  IF S.nd[n].st = "new" THEN Start(S1, n) ELSE S1

Start(S, n) ==
    LET m == S.nd[n]
    IN  IF m.kind = "base"
        THEN LET S1 == Log(S, [e |-> "begin", n |-> n])
             IN  IF m.mode = "pause" THEN [S1 EXCEPT !.nd[n].st = "pause"] ELSE Complete(S1, n, m.mode, Value(n, m.mode))
        ELSE AwaitBy([S EXCEPT !.nd[n].st = "wait"], n, m.src)

Continue(S, w, n) ==
    LET r  == S.nd[n]
        S1 == [S EXCEPT !.nd[n].taken = TRUE]
    IN  IF w < 0
        THEN Log(S1, [e |-> IF r.res = "val" THEN "got" ELSE "exc", n |-> n, v |-> r.v, q_first |-> ~r.taken])
        ELSE LET m == S.nd[w]
             IN  IF r.res = "val"
                 THEN LET S2 == Log(S1, [e |-> "cb", n |-> w, v |-> r.v, q_first |-> ~r.taken])
                      IN  CASE m.cb \in {"val", "lazyval"} -> Complete(S2, w, "val", w * 10)
                            [] m.cb = "thr" -> Complete(S2, w, "exc", w * 10 + 1)
                            [] m.cb \in {"lazy", "eager"} -> [S2 EXCEPT !.nd[w].st = "inner"]
                 ELSE IF r.res = "odd" \/ m.err = "none" THEN Complete(S1, w, r.res, r.v)
                 ELSE Complete(Log(S1, [e |-> "err", n |-> w, v |-> r.v]), w, "val", 0)

Unused == {n \in Nd : nd[n].st = "none"}

New(mode) ==
    /\ Unused # {}
    /\ LET n == Min(Unused)
       IN  Take([S0 EXCEPT !.nd[n] = [No EXCEPT !.st = "new", !.kind = "base", !.mode = mode, !.obj = TRUE]],
                [a |-> "New", n |-> n, m |-> mode])

Then_(s, form, cb, err) ==
    /\ Unused # {} /\ nd[s].obj /\ nd[s].cb # "eager"
    /\ form = "r" => nd[s].user = 0
    /\ LET n  == Min(Unused)
           S1 == [S0 EXCEPT !.nd[n] = [No EXCEPT !.st = "new", !.kind = "then", !.src = s, !.cb = cb, !.err = err, !.obj = TRUE],
                            !.nd[s].obj = (form = "l"), !.nd[s].held = IF form = "r" THEN n ELSE @,
                            !.nd[s].user = IF form = "l" THEN n ELSE @]
       IN  Take(IF cb = "eager" THEN Start(S1, n) ELSE S1,
                [a |-> "Then", n |-> n, s |-> s, form |-> form, cb |-> cb, err |-> err])

Finish(n, out) ==
    /\ nd[n].st \in {"pause", "inner"}
    /\ Take(Complete(S0, n, out, Value(n, out)), [a |-> "Finish", n |-> n, out |-> out])

Await(n) ==
    /\ nd[n].obj /\ nd[n].seen < MaxObs
    /\ Take(AwaitBy([S0 EXCEPT !.nd[n].seen = @ + 1], -n, n), [a |-> "Await", n |-> n])

(* the object may go unless a continuation that has not started yet still refers to it *)
NeededBy(n) == \E m \in Nd : nd[m].kind = "then" /\ nd[m].src = n /\ nd[m].st = "new" /\ nd[n].held = 0
                              /\ (nd[m].obj \/ nd[m].held # 0 \/ nd[m].st # "new")
Drop(n) == nd[n].obj /\ ~NeededBy(n)
           /\ Take([S0 EXCEPT !.nd[n].obj = FALSE], [a |-> "Drop", n |-> n])

(* the LazyTask object moves to another one: a new one, itself, or the one of d, which thereby goes *)
Move(n, how, d) ==
    /\ nd[n].obj /\ nd[n].cb # "eager" /\ ~NeededBy(n)
    /\ IF how # "over" THEN d = n ELSE d # n /\ nd[d].obj /\ nd[d].cb # "eager" /\ ~NeededBy(d)
    /\ Take(IF how = "over" THEN [S0 EXCEPT !.nd[d].obj = FALSE] ELSE S0, [a |-> "Move", n |-> n, how |-> how, d |-> d])

Init == nd = [n \in Nd |-> No] /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E m \in BaseModes : New(m)
        \/ \E s \in Nd, f \in Forms, c \in CbKinds, e \in ErrKinds : Then_(s, f, c, e)
        \/ \E n \in Nd, o \in Outcomes : Finish(n, o)
        \/ \E n \in Nd : Await(n)
        \/ "drop" \in Ops /\ \E n \in Nd : Drop(n)
        \/ "move" \in Ops /\ \E n, d \in Nd, how \in {"new", "self", "over"} : Move(n, how, d)
Spec == Init /\ [][Next]_vars

RECURSIVE Freed(_)
Freed(n) == /\ nd[n].st \in {"done", "new"} /\ ~nd[n].obj
            /\ IF nd[n].held = 0 THEN TRUE ELSE Freed(nd[n].held)
Obs == [rd |-> [n \in Nd |-> IF ~nd[n].obj THEN "none" ELSE IF nd[n].st = "done" THEN "ready" ELSE "busy"],
        fr |-> [n \in Nd |-> IF nd[n].kind = "base" /\ Freed(n) THEN 1 ELSE 0]]

TypeOK == \A n \in Nd : nd[n].st \in {"none", "new", "pause", "wait", "inner", "done"}
(* nothing runs that was not awaited *)
Lazy == \A n \in Nd : (nd[n].st # "none" /\ nd[n].seen = 0 /\ nd[n].cb # "eager"
                        /\ \A m \in Nd : nd[m].src # n) => nd[n].st = "new"
BeginsOnce == \A i, j \in DOMAIN ev : (i # j /\ ev[i].e = "begin" /\ ev[j].e = "begin") => ev[i].n # ev[j].n
NothingLost == \A n \in Nd : nd[n].st = "done" => nd[n].aw = <<>>
Registered == \A n \in Nd : (nd[n].kind = "then" /\ nd[n].st = "wait") =>
                 Cardinality({i \in DOMAIN nd[nd[n].src].aw : nd[nd[n].src].aw[i] = n}) = 1
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
