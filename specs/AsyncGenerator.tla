--------------------------- MODULE AsyncGenerator ---------------------------
(* QCoro::AsyncGenerator<T>: a lazy sequence whose body and whose consumers may suspend.  A body is a
   program over y (yield) and s (suspend until the environment opens its gate), ending in a return or
   a throw.  Consumers are coroutines; the environment tells each what to do next: begin, advance,
   iterate with QCORO_FOREACH (over a generator object, or over a temporary), leave the loop. *)
EXTENDS Conf, FiniteSets

CONSTANTS NC, NS, NK, MaxLen, Ops

Co == 1..NC
Sl == 1..NS
Ks == 1..NK

VARIABLES gen, sl, con, lbl, ev
vars == <<gen, sl, con, lbl, ev>>
vw   == <<gen, sl, con>>

NoGen == [st |-> "none", prog |-> <<>>, thr |-> FALSE, pos |-> 0, val |-> 0, by |-> 0]
(* st: idle, wait; mode of the current await; it: 0 none, -1 end, c; loop: 0 none, else generator *)
NoCon == [st |-> "idle", mode |-> "", it |-> 0, loop |-> 0, own |-> FALSE]

Bodies == UNION {[1..n -> {"y", "s"}] : n \in 0..MaxLen}

S0 == [gen |-> gen, sl |-> sl, con |-> con, ev |-> <<>>]
Take(S, l) == gen' = S.gen /\ sl' = S.sl /\ con' = S.con /\ ev' = S.ev /\ lbl' = l
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]

Destroy(S, c) ==
    IF c <= 0 THEN S
    ELSE LET S1 == IF S.gen[c].st = "sus" THEN Log(S, [e |-> "locals", c |-> c]) ELSE S
         IN  [Log(S1, [e |-> "frame", c |-> c]) EXCEPT !.gen[c].st = "gone",
                 !.con = [k \in Ks |-> IF S.con[k].it = c THEN [S.con[k] EXCEPT !.it = 0] ELSE S.con[k]]]

LeaveLoop(S, k) ==
    LET c  == S.con[k].loop
        S1 == [S EXCEPT !.con[k].loop = 0, !.con[k].own = FALSE]
    IN  IF S.con[k].own THEN Destroy(S1, c) ELSE S1

(* consumer k is resumed: the body of c yielded or finished *)
Arrive(S, k, c) ==
    LET m  == S.con[k].mode
        S1 == [S EXCEPT !.con[k].st = "idle", !.con[k].mode = "", !.gen[c].by = 0]
        x  == [e |-> "exc", k |-> k, c |-> c, v |-> c * 100 + 99]
    IN  IF S.gen[c].st = "sus"
        THEN LET S2 == Log(S1, [e |-> "elem", k |-> k, c |-> c, v |-> S.gen[c].val])
             IN  IF m = "loop" THEN S2 ELSE [S2 EXCEPT !.con[k].it = c]
        ELSE CASE m = "loop"  -> IF S.gen[c].thr THEN Log(LeaveLoop(S1, k), x)
                                 ELSE Log(LeaveLoop(S1, k), [e |-> "loopend", k |-> k, c |-> c])
               [] m = "begin" -> IF S.gen[c].thr THEN Log(S1, x)
                                 ELSE [Log(S1, [e |-> "end", k |-> k, c |-> c]) EXCEPT !.con[k].it = -1]
               [] m = "inc"   -> [Log(S1, IF S.gen[c].thr THEN x ELSE [e |-> "end", k |-> k, c |-> c])
                                    EXCEPT !.con[k].it = -1]

(* run the body of c until it yields, finishes or suspends; S.gen[c].by is the waiting consumer *)
RunBody(S, c) ==
    LET g == S.gen[c]
        k == g.by
    IN  IF g.prog = <<>> THEN Arrive(Log([S EXCEPT !.gen[c].st = "done"], [e |-> "locals", c |-> c]), k, c)
        ELSE IF Head(g.prog) = "y"
             THEN Arrive([S EXCEPT !.gen[c].prog = Tail(@), !.gen[c].st = "sus", !.gen[c].pos = @ + 1,
                                   !.gen[c].val = c * 100 + g.pos + 1], k, c)
             ELSE [Log(S, [e |-> "susp", c |-> c]) EXCEPT !.gen[c].prog = Tail(@), !.gen[c].st = "gate"]

(* consumer k awaits the next value of c *)
Ask(S, k, c, mode) ==
    LET S1 == [S EXCEPT !.con[k].st = "wait", !.con[k].mode = mode, !.gen[c].by = k]
        S2 == Log(S1, IF S.gen[c].st = "new" THEN [e |-> "begin", c |-> c]
                      ELSE [e |-> "after", c |-> c, v |-> S.gen[c].val])
    IN  RunBody(S2, c)

Unused == {c \in Co : gen[c].st = "none"}
(* c may be destroyed: its body is not suspended inside an await, and no loop is using it *)
Free(c) == IF c <= 0 THEN TRUE ELSE gen[c].st # "gate" /\ \A k \in Ks : con[k].loop # c

Create(s, p, t, assign) ==
    /\ Unused # {} /\ (assign <=> sl[s] # 0) /\ Free(sl[s])
    /\ LET c  == Min(Unused)
           S1 == [S0 EXCEPT !.gen[c] = [NoGen EXCEPT !.st = "new", !.prog = p, !.thr = t]]
       IN  Take([Destroy(S1, sl[s]) EXCEPT !.sl[s] = c], [a |-> "Create", c |-> c, s |-> s, p |-> p, t |-> t])

BeginIt(k, s) ==
    /\ con[k].st = "idle" /\ con[k].loop = 0 /\ con[k].it = 0 /\ sl[s] # 0
    /\ IF sl[s] = -1
       THEN Take(Log([S0 EXCEPT !.con[k].it = -1], [e |-> "end", k |-> k, c |-> -1]), [a |-> "Begin", k |-> k, s |-> s])
       ELSE gen[sl[s]].st = "new" /\ Take(Ask(S0, k, sl[s], "begin"), [a |-> "Begin", k |-> k, s |-> s])
Inc(k) == /\ con[k].st = "idle" /\ con[k].it > 0 /\ con[k].loop = 0
          /\ Take(Ask(S0, k, con[k].it, "inc"), [a |-> "Inc", k |-> k])
Set(k) == /\ con[k].st = "idle" /\ con[k].it > 0 /\ gen[con[k].it].val < 1000
          /\ Take([S0 EXCEPT !.gen[con[k].it].val = @ + 1000], [a |-> "Set", k |-> k])
Forget(k) == con[k].st = "idle" /\ con[k].it # 0 /\ Take([S0 EXCEPT !.con[k].it = 0], [a |-> "Forget", k |-> k])

(* another consumer goes on where k is *)
Give(k, t) == /\ k # t /\ con[k].st = "idle" /\ con[k].it > 0 /\ con[t].st = "idle" /\ con[t].it = 0 /\ con[t].loop = 0
              /\ Take([S0 EXCEPT !.con[k].it = 0, !.con[t].it = con[k].it], [a |-> "Give", k |-> k, t |-> t])

Loop(k, s, own) ==
    /\ con[k].st = "idle" /\ con[k].loop = 0 /\ con[k].it = 0 /\ sl[s] > 0 /\ gen[sl[s]].st = "new"
    /\ LET c  == sl[s]
           S1 == [S0 EXCEPT !.con[k].loop = c, !.con[k].own = own, !.sl[s] = IF own THEN -1 ELSE @]
       IN  Take(Ask(S1, k, c, "loop"), [a |-> "Loop", k |-> k, s |-> s, own |-> own])
Next_(k) == /\ con[k].st = "idle" /\ con[k].loop > 0
            /\ Take(Ask(S0, k, con[k].loop, "loop"), [a |-> "Next", k |-> k])
Break(k) == /\ con[k].st = "idle" /\ con[k].loop > 0
            /\ Take(Log(LeaveLoop(S0, k), [e |-> "break", k |-> k, c |-> con[k].loop]), [a |-> "Break", k |-> k])

Open(c) == /\ gen[c].st = "gate"
           /\ Take(RunBody(Log(S0, [e |-> "cont", c |-> c]), c), [a |-> "Open", c |-> c])

Drop(s) == sl[s] # 0 /\ Free(sl[s]) /\ Take([Destroy(S0, sl[s]) EXCEPT !.sl[s] = 0], [a |-> "Drop", s |-> s])
Null(s) == sl[s] = 0 /\ Take([S0 EXCEPT !.sl[s] = -1], [a |-> "Null", s |-> s])
Move(s, t) == /\ s # t /\ sl[s] # 0 /\ Free(sl[t])
              /\ Take([Destroy(S0, sl[t]) EXCEPT !.sl[t] = sl[s], !.sl[s] = -1], [a |-> "Move", s |-> s, t |-> t])
SelfMove(s) == sl[s] # 0 /\ Take(S0, [a |-> "SelfMove", s |-> s])
Swap(s, t) == /\ s < t /\ sl[s] # 0 /\ sl[t] # 0
              /\ Take([S0 EXCEPT !.sl[s] = sl[t], !.sl[t] = sl[s]], [a |-> "Swap", s |-> s, t |-> t])

Init == /\ gen = [c \in Co |-> NoGen] /\ sl = [s \in Sl |-> 0] /\ con = [k \in Ks |-> NoCon]
        /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E s \in Sl, p \in Bodies, t, as \in BOOLEAN : Create(s, p, t, as)
        \/ \E s \in Sl, k \in Ks : BeginIt(k, s)
        \/ \E k \in Ks : Inc(k) \/ Set(k) \/ Forget(k)
        \/ "give" \in Ops /\ \E k, t \in Ks : Give(k, t)
        \/ "loop" \in Ops /\ \E k \in Ks, s \in Sl, own \in BOOLEAN : Loop(k, s, own)
        \/ "loop" \in Ops /\ \E k \in Ks : Next_(k) \/ Break(k)
        \/ \E c \in Co : Open(c)
        \/ \E s \in Sl : Drop(s)
        \/ "null" \in Ops /\ \E s \in Sl : Null(s)
        \/ "move" \in Ops /\ \E s, t \in Sl : Move(s, t) \/ Swap(s, t)
        \/ "move" \in Ops /\ \E s \in Sl : SelfMove(s)
Spec == Init /\ [][Next]_vars

Obs == [k |-> [k \in Ks |-> IF con[k].st = "wait" THEN "wait" ELSE IF con[k].loop > 0 THEN "loop"
                            ELSE IF con[k].it = 0 THEN "none" ELSE IF con[k].it = -1 THEN "end" ELSE "at"],
        v |-> [k \in Ks |-> IF con[k].st = "idle" /\ con[k].it > 0 /\ gen[con[k].it].st = "sus" THEN gen[con[k].it].val ELSE 0],
        live |-> Cardinality({c \in Co : gen[c].st = "sus"})]

TypeOK == /\ \A s \in Sl : sl[s] \in -1..NC
          /\ \A c \in Co : gen[c].st \in {"none", "new", "sus", "gate", "done", "gone"}
(* exactly one consumer waits for a suspended body, and consumers only wait for suspended bodies *)
OneWaiter == /\ \A c \in Co : gen[c].st = "gate" => gen[c].by > 0 /\ con[gen[c].by].st = "wait"
             /\ \A c \in Co : gen[c].st # "gate" => gen[c].by = 0
             /\ \A k \in Ks : con[k].st = "wait" => \E c \in Co : gen[c].by = k
Owned == \A c \in Co : gen[c].st \in {"new", "sus", "gate", "done"} =>
            Cardinality({s \in Sl : sl[s] = c}) + Cardinality({k \in Ks : con[k].loop = c /\ con[k].own}) = 1
Lazy == \A c \in Co : gen[c].st = "new" => gen[c].pos = 0
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
