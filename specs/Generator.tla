----------------------------- MODULE Generator -----------------------------
(* QCoro::Generator<T>: a lazy, synchronous sequence.  The environment chooses each generator's body
   (how many values, return or throw at the end), and performs any sequence of operations on the
   generator objects and their iterators.  Yielded values are c*100 + position; an iterator may write
   to the element it points at, which the body sees when it continues. *)
EXTENDS Conf, FiniteSets

CONSTANTS NC, NS, NI, MaxLen, Ops

Co == 1..NC
Sl == 1..NS
It == 1..NI

VARIABLES gen, sl, it, lbl, ev
vars == <<gen, sl, it, lbl, ev>>
vw   == <<gen, sl, it>>

NoGen == [st |-> "none", n |-> 0, thr |-> FALSE, pos |-> 0, val |-> 0]
S0 == [gen |-> gen, sl |-> sl, it |-> it, ev |-> <<>>]
Take(S, l) == gen' = S.gen /\ sl' = S.sl /\ it' = S.it /\ ev' = S.ev /\ lbl' = l
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]

(* run the body of c to its next yield or its end *)
Advance(S, c) ==
    LET g  == S.gen[c]
        S1 == IF g.st = "sus" THEN Log(S, [e |-> "after", c |-> c, v |-> g.val]) ELSE Log(S, [e |-> "begin", c |-> c])
    IN  IF g.pos < g.n
        THEN [S1 EXCEPT !.gen[c].st = "sus", !.gen[c].pos = @ + 1, !.gen[c].val = c * 100 + g.pos + 1]
        ELSE Log([S1 EXCEPT !.gen[c].st = "done"], [e |-> "locals", c |-> c])

(* the iterator that asked for the value, after Advance *)
Arrive(S, i, c) ==
    IF S.gen[c].st = "sus" THEN [S EXCEPT !.it[i] = c]
    ELSE LET S1 == [S EXCEPT !.it[i] = -1]
         IN  IF S.gen[c].thr THEN Log(S1, [e |-> "exc", c |-> c, v |-> c * 100 + 99]) ELSE S1

Destroy(S, c) ==
    IF c <= 0 THEN S
    ELSE LET S1 == IF S.gen[c].st = "sus" THEN Log(S, [e |-> "locals", c |-> c]) ELSE S
         IN  [Log(S1, [e |-> "frame", c |-> c]) EXCEPT !.gen[c].st = "gone",
                 !.it = [i \in It |-> IF S.it[i] = c THEN 0 ELSE S.it[i]]]

Unused == {c \in Co : gen[c].st = "none"}

Create(s, n, t, assign) ==
    /\ Unused # {} /\ (assign <=> sl[s] # 0)
    /\ LET c  == Min(Unused)
           S1 == [S0 EXCEPT !.gen[c] = [NoGen EXCEPT !.st = "new", !.n = n, !.thr = t]]
           S2 == [Destroy(S1, sl[s]) EXCEPT !.sl[s] = c]
       IN  Take(S2, [a |-> "Create", c |-> c, s |-> s, n |-> n, t |-> t, assign |-> assign])

Begin_(s, i) ==
    /\ sl[s] # 0 /\ it[i] = 0
    /\ IF sl[s] = -1 THEN Take([S0 EXCEPT !.it[i] = -1], [a |-> "Begin", s |-> s, i |-> i])
       ELSE /\ gen[sl[s]].st = "new"
            /\ Take(Arrive(Advance(S0, sl[s]), i, sl[s]), [a |-> "Begin", s |-> s, i |-> i])
Inc(i) ==
    /\ it[i] # 0
    /\ Take(IF it[i] = -1 THEN S0 ELSE Arrive(Advance(S0, it[i]), i, it[i]), [a |-> "Inc", i |-> i])
Set(i) == /\ it[i] > 0 /\ gen[it[i]].val < 1000
          /\ Take([S0 EXCEPT !.gen[it[i]].val = @ + 1000], [a |-> "Set", i |-> i])
Forget(i) == it[i] # 0 /\ Take([S0 EXCEPT !.it[i] = 0], [a |-> "Forget", i |-> i])

(* a range-for over the whole generator, leaving it after at most k elements *)
RECURSIVE LoopFrom(_, _, _)
LoopFrom(S, c, k) ==
    LET S1 == Advance(S, c)
    IN  IF S1.gen[c].st = "done"
        THEN IF S1.gen[c].thr THEN Log(S1, [e |-> "exc", c |-> c, v |-> c * 100 + 99])
             ELSE Log(S1, [e |-> "loopend", c |-> c])
        ELSE LET S2 == Log(S1, [e |-> "elem", c |-> c, v |-> S1.gen[c].val])
             IN  IF k <= 1 THEN Log(S2, [e |-> "break", c |-> c]) ELSE LoopFrom(S2, c, k - 1)
Loop(s, k) == /\ sl[s] > 0 /\ gen[sl[s]].st = "new"
              /\ Take(LoopFrom(S0, sl[s], k), [a |-> "Loop", s |-> s, k |-> k])

Drop(s) == sl[s] # 0 /\ Take([Destroy(S0, sl[s]) EXCEPT !.sl[s] = 0], [a |-> "Drop", s |-> s])
Null(s) == sl[s] = 0 /\ Take([S0 EXCEPT !.sl[s] = -1], [a |-> "Null", s |-> s])
Move(s, t) == /\ s # t /\ sl[s] # 0
              /\ Take([Destroy(S0, sl[t]) EXCEPT !.sl[t] = sl[s], !.sl[s] = -1], [a |-> "Move", s |-> s, t |-> t])
SelfMove(s) == sl[s] # 0 /\ Take(S0, [a |-> "SelfMove", s |-> s])

Init == /\ gen = [c \in Co |-> NoGen] /\ sl = [s \in Sl |-> 0] /\ it = [i \in It |-> 0]
        /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E s \in Sl, n \in 0..MaxLen, t, as \in BOOLEAN : Create(s, n, t, as)
        \/ \E s \in Sl, i \in It : Begin_(s, i)
        \/ \E i \in It : Inc(i) \/ Set(i) \/ Forget(i)
        \/ "loop" \in Ops /\ \E s \in Sl, k \in 1..(MaxLen + 1) : Loop(s, k)
        \/ \E s \in Sl : Drop(s)
        \/ "null" \in Ops /\ \E s \in Sl : Null(s)
        \/ "move" \in Ops /\ \E s, t \in Sl : Move(s, t)
        \/ "move" \in Ops /\ \E s \in Sl : SelfMove(s)
Spec == Init /\ [][Next]_vars

Obs == [it |-> [i \in It |-> IF it[i] = 0 THEN "none" ELSE IF it[i] = -1 THEN "end" ELSE "at"],
        v  |-> [i \in It |-> IF it[i] > 0 THEN gen[it[i]].val ELSE 0],
        live |-> Cardinality({c \in Co : gen[c].st = "sus"})]

TypeOK == /\ \A s \in Sl : sl[s] \in -1..NC
          /\ \A i \in It : it[i] \in -1..NC
(* an iterator that can be dereferenced belongs to a live generator suspended at a yield *)
IterValid == \A i \in It : it[i] > 0 => gen[it[i]].st = "sus" \/ \E j \in It : j # i
(* generators are owned by exactly one object, or gone *)
Owned == \A c \in Co : gen[c].st \in {"new", "sus", "done"} => Cardinality({s \in Sl : sl[s] = c}) = 1
NotOwnedGone == \A c \in Co : gen[c].st = "gone" => \A s \in Sl : sl[s] # c
(* the body never runs ahead of what was asked *)
Lazy == \A c \in Co : gen[c].st = "new" => gen[c].pos = 0
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
