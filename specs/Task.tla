------------------------------- MODULE Task -------------------------------
(* QCoro::Task<T>: an eagerly started coroutine, the Task objects referring to it, and the
   coroutines awaiting it.  Coroutine bodies are programs over a small instruction set, chosen by the
   environment, so every schedule of starts, suspensions, awaits, completions and Task-object
   operations within the constants is explored.

   A step runs until every coroutine is blocked again; completing a coroutine resumes the coroutines
   waiting for it, in the order in which they started to wait, and each of those may in turn
   complete, await, or destroy Task objects (RECURSIVE operators below). *)
EXTENDS Conf, FiniteSets

CONSTANTS NC,      \* coroutines
          NS,      \* Task variables ("slots")
          ProgSel, \* which programs bodies may run
          SlotOps  \* which operations on Task variables the environment performs

Co == 1..NC
Sl == 1..NS

VARIABLES co, sl, lbl, ev
vars == <<co, sl, lbl, ev>>
vw   == <<co, sl>>

NoCo == [st |-> "none", prog |-> <<>>, aw |-> <<>>, wt |-> 0, x |-> FALSE, tmp |-> 0,
         res |-> "none", v |-> 0, taken |-> FALSE, own |-> FALSE]

Op(k, s) == [k |-> k, s |-> s]
AwaitKinds == {"await", "awaitx", "awaittmp"}

Progs ==
    LET s1(k)  == {<<Op(k, s)>> : s \in Sl}
        s2(k)  == {<<Op(k, s), Op("ret", 0)>> : s \in Sl}
        s3(k)  == {<<Op(k, s), Op("thr", 0)>> : s \in Sl}
        basic  == {<<>>, <<Op("ret", 0)>>, <<Op("thr", 0)>>}
    IN  CASE ProgSel = "await" -> basic \cup s1("await") \cup s2("await") \cup s2("awaitx")
          [] ProgSel = "life"  -> basic \cup s2("await") \cup s2("awaittmp") \cup s2("drop")
                                  \cup s3("drop") \cup s1("awaittmp")
          [] ProgSel \in {"wide", "deep"} -> basic \cup s2("await")
          [] ProgSel = "mini"  -> {<<>>, <<Op("ret", 0)>>, <<Op("thr", 0)>>} \cup s2("await")

Refs(S, c) == Cardinality({s \in Sl : S.sl[s] = c}) + Cardinality({d \in Co : S.co[d].tmp = c})
Freed(S, c) == S.co[c].st = "done" /\ ~S.co[c].own /\ Refs(S, c) = 0

Log(S, e) == [S EXCEPT !.ev = Append(@, e)]

RECURSIVE Run(_, _), Complete(_, _, _, _), ResumeAll(_, _, _), Got(_, _, _)

(* coroutine c continues after awaiting the finished coroutine t *)
Got(S, c, t) ==
    LET r  == S.co[t]
        S1 == [S EXCEPT !.co[c].wt = 0, !.co[c].tmp = 0, !.co[c].x = FALSE, !.co[t].taken = TRUE]
        e  == [e |-> IF r.res = "val" THEN "got" ELSE "exc", c |-> c, t |-> t, v |-> r.v, q_first |-> ~r.taken]
    IN  IF r.res = "exc" /\ S.co[c].x
        THEN Complete([S1 EXCEPT !.co[c].prog = <<>>], c, "exc", r.v)
        ELSE Run(Log(S1, e), c)

Run(S, c) ==
    IF S.co[c].prog = <<>> THEN [S EXCEPT !.co[c].st = "pause"]
    ELSE LET op == Head(S.co[c].prog)
             S1 == [S EXCEPT !.co[c].prog = Tail(@), !.co[c].st = "run"]
         IN  CASE op.k = "ret" -> Complete(S1, c, "val", c * 10)
               [] op.k = "thr" -> Complete(S1, c, "exc", c * 10 + 1)
               [] op.k = "drop" -> Run([S1 EXCEPT !.sl[op.s] = 0], c)
               [] op.k \in AwaitKinds ->
                    LET t  == S.sl[op.s]
                        S2 == [S1 EXCEPT !.co[c].x = (op.k = "awaitx"),
                                         !.co[c].tmp = IF op.k = "awaittmp" THEN t ELSE 0,
                                         !.sl[op.s] = IF op.k = "awaittmp" THEN 0 ELSE @]
                    IN  IF t = 0 THEN Run(S1, c)              \* no such object: nothing to await
                        ELSE IF t = -1 THEN [S2 EXCEPT !.co[c].st = "hang"]
                        ELSE IF S.co[t].st = "done" THEN Got(S2, c, t)
                        ELSE [S2 EXCEPT !.co[c].st = "wait", !.co[c].wt = t, !.co[t].aw = Append(@, c)]

Complete(S, c, kind, val) ==
    LET S1 == [S EXCEPT !.co[c].st = "done", !.co[c].prog = <<>>, !.co[c].tmp = 0, !.co[c].res = kind,
                        !.co[c].v = val, !.co[c].aw = <<>>]
        S2 == ResumeAll(Log(S1, [e |-> "end", c |-> c]), c, S.co[c].aw)
    IN  [S2 EXCEPT !.co[c].own = FALSE]

ResumeAll(S, c, q) ==
    IF q = <<>> THEN S
    ELSE ResumeAll(Got([S EXCEPT !.co[Head(q)].st = "run"], Head(q), c), c, Tail(q))

Cur == [co |-> co, sl |-> sl, ev |-> <<>>]
Take(S, l) == /\ co' = S.co /\ sl' = S.sl /\ ev' = S.ev /\ lbl' = l

Unused == {c \in Co : co[c].st = "none"}

(* many coroutines awaiting the first one, or each awaiting the one before *)
Many(c, s, p) == ProgSel \in {"wide", "deep"} =>
    s = c /\ p = IF c = 1 THEN <<>> ELSE <<Op("await", IF ProgSel = "wide" THEN 1 ELSE c - 1), Op("ret", 0)>>

(* slot s := body(); the coroutine runs eagerly up to its first suspension *)
Start(s, p, assign) ==
    /\ Unused # {}
    /\ IF assign THEN sl[s] # 0 ELSE sl[s] = 0
    /\ Many(Min(Unused), s, p)
    /\ LET c  == Min(Unused)
           S1 == Run([Cur EXCEPT !.co[c] = [NoCo EXCEPT !.st = "run", !.prog = p, !.own = TRUE]], c)
           S2 == [S1 EXCEPT !.sl[s] = c]
       IN  Take(S2, [a |-> IF assign THEN "StartAssign" ELSE "Start", c |-> c, s |-> s, p |-> p])

Give(c, p) ==
    /\ co[c].st = "pause" /\ p # <<>>
    /\ Take(Run([Cur EXCEPT !.co[c].prog = p], c), [a |-> "Give", c |-> c, p |-> p])

Drop(s) == sl[s] # 0 /\ Take([Cur EXCEPT !.sl[s] = 0], [a |-> "Drop", s |-> s])
Null(s) == sl[s] = 0 /\ Take([Cur EXCEPT !.sl[s] = -1], [a |-> "Null", s |-> s])
Move(s, t) == s # t /\ sl[s] # 0 /\ Take([Cur EXCEPT !.sl[t] = sl[s], !.sl[s] = -1], [a |-> "Move", s |-> s, t |-> t])
SelfMove(s) == sl[s] # 0 /\ Take(Cur, [a |-> "SelfMove", s |-> s])

Init == co = [c \in Co |-> NoCo] /\ sl = [s \in Sl |-> 0] /\ lbl = [a |-> "Init"] /\ ev = <<>>

Next == \/ \E s \in Sl, p \in Progs : Start(s, p, FALSE)
        \/ "assign" \in SlotOps /\ \E s \in Sl, p \in Progs : Start(s, p, TRUE)
        \/ \E c \in Co, p \in Progs : Give(c, p)
        \/ "drop" \in SlotOps /\ \E s \in Sl : Drop(s)
        \/ "null" \in SlotOps /\ \E s \in Sl : Null(s)
        \/ "move" \in SlotOps /\ \E s, t \in Sl : Move(s, t)
        \/ "self" \in SlotOps /\ \E s \in Sl : SelfMove(s)

Spec == Init /\ [][Next]_vars

Phase(c) == IF co[c].st \in {"wait", "hang"} THEN "await" ELSE co[c].st
Obs == [ph |-> [c \in Co |-> Phase(c)],
        fr |-> [c \in Co |-> IF Freed(Cur, c) THEN 1 ELSE 0],
        rd |-> [s \in Sl |-> IF sl[s] = 0 THEN "none"
                             ELSE IF sl[s] = -1 THEN "ready"
                             ELSE IF co[sl[s]].st = "done" THEN "ready" ELSE "busy"],
        live |-> Cardinality({c \in Co : co[c].st = "done" /\ co[c].res = "val" /\ ~Freed(Cur, c)})]

(* ---- properties checked on the specification itself ---- *)
TypeOK == /\ \A s \in Sl : sl[s] \in -1..NC
          /\ \A c \in Co : co[c].st \in {"none", "pause", "wait", "hang", "done"}
(* a waiting coroutine is registered exactly once, with an unfinished coroutine *)
WaitersRegistered ==
    \A c, t \in Co : (co[c].st = "wait" /\ co[c].wt = t) =>
        /\ co[t].st # "done" /\ Cardinality({i \in DOMAIN co[t].aw : co[t].aw[i] = c}) = 1
NoWaiterLost == \A t \in Co : co[t].st = "done" => co[t].aw = <<>>
(* the frame outlives every Task object and every unfinished computation *)
FrameLifetime == \A c \in Co : Freed(Cur, c) => /\ co[c].st = "done"
                                                /\ \A s \in Sl : sl[s] # c
(* a result is delivered only after completion, and each await completes at most once per step *)
DeliveredAfterEnd ==
    \A i \in DOMAIN ev : ev[i].e \in {"got", "exc"} => co[ev[i].t].st = "done"
NeverResumedTwice == \A i, j \in DOMAIN ev : (i # j /\ ev[i].e = "end" /\ ev[j].e = "end") => ev[i].c # ev[j].c

Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
