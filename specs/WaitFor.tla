------------------------------ MODULE WaitFor ------------------------------
(* QCoro::waitFor(): blocking waits, nested through event handlers and through coroutines.  A waitFor
   that must block runs an event loop in which the environment goes on acting; the calls form a stack
   and only the innermost can return.  A completed operation resumes its waiters in order; one of them
   may itself call waitFor ("chain"), which suspends the resumption of the others until it returns. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, MaxDepth, Kinds, Modes, Outcomes, Ops

Nd == 1..N
VARIABLES nd, stk, nw, lbl, ev
vars == <<nd, stk, nw, lbl, ev>>
vw   == <<nd, stk, nw>>

(* aw: waiters: [w |-> id] of a waitFor call, or [w |-> 0, m |-> k] a coroutine that calls waitFor(k) *)
No == [st |-> "none", kind |-> "", mode |-> "", res |-> "none", v |-> 0, taken |-> FALSE, aw |-> <<>>, used |-> FALSE]
S0 == [nd |-> nd, stk |-> stk, nw |-> nw, ev |-> <<>>]
Take(S, l) == nd' = S.nd /\ stk' = S.stk /\ nw' = S.nw /\ ev' = S.ev /\ lbl' = l
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]
Value(n, out) == IF out = "val" THEN n * 10 ELSE n * 10 + 1

(* the result of an operation goes to its waiters in order; the first takes the value *)
RetF(S, n, f) == Log(S, [e |-> "ret", n |-> n, r |-> S.nd[n].res, v |-> S.nd[n].v, q_first |-> f])
Ret(S, n) == [RetF(S, n, ~S.nd[n].taken) EXCEPT !.nd[n].taken = TRUE]

RECURSIVE Resume(_, _), Unwind(_), Wait(_, _, _), Complete(_, _, _)

(* waitFor(n) called; rest: waiters to resume after it returns *)
Wait(S, n, rest) ==
    LET id == Len(S.stk) + 1
        S1 == [S EXCEPT !.nd[n].used = TRUE]
    IN  IF S1.nd[n].st = "new"
        THEN IF S1.nd[n].mode = "pause"
             THEN [S1 EXCEPT !.nd[n].st = "pause", !.nd[n].aw = <<[w |-> id, m |-> 0, n |-> n]>>,
                             !.stk = Append(@, [n |-> n, fin |-> FALSE, first |-> FALSE, rest |-> rest])]
             ELSE Resume(Ret([S1 EXCEPT !.nd[n].st = "done", !.nd[n].res = S1.nd[n].mode, !.nd[n].v = Value(n, S1.nd[n].mode)], n), rest)
        ELSE IF S1.nd[n].st = "done" THEN Resume(Ret(S1, n), rest)
        ELSE [S1 EXCEPT !.nd[n].aw = Append(@, [w |-> id, m |-> 0, n |-> n]),
                        !.stk = Append(@, [n |-> n, fin |-> FALSE, first |-> FALSE, rest |-> rest])]

Resume(S, q) ==
    IF q = <<>> THEN S
    ELSE LET h == Head(q)
         IN  IF h.w > 0 THEN Resume([S EXCEPT !.stk[h.w].fin = TRUE, !.stk[h.w].first = ~S.nd[h.n].taken, !.nd[h.n].taken = TRUE], Tail(q))
             ELSE Wait([Log(S, [e |-> "chain", m |-> h.m]) EXCEPT !.nd[h.n].taken = TRUE], h.m, Tail(q))

(* the innermost waitFor returns if its operation finished; whatever its caller does next follows *)
Unwind(S) ==
    IF S.stk = <<>> THEN S
    ELSE LET top == S.stk[Len(S.stk)]
         IN  IF ~top.fin THEN S
             ELSE Unwind(Resume(RetF([S EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)], top.n, top.first), top.rest))

Complete(S, n, out) ==
    LET q == S.nd[n].aw
    IN  Unwind(Resume([S EXCEPT !.nd[n].st = "done", !.nd[n].res = out, !.nd[n].v = Value(n, out), !.nd[n].aw = <<>>], q))

Unused == {n \in Nd : nd[n].st = "none"}
Eager(k) == k \in {"lref", "rref"}

New(k, m) ==
    /\ Unused # {}
    /\ LET n == Min(Unused)
           S1 == [S0 EXCEPT !.nd[n] = [No EXCEPT !.st = IF Eager(k) THEN "pause" ELSE "new", !.kind = k, !.mode = m]]
       IN  Take(IF Eager(k) /\ m # "pause" THEN Complete(S1, n, m) ELSE S1, [a |-> "New", n |-> n, k |-> k, m |-> m])

CanWait(n) == /\ nd[n].st # "none" /\ (nd[n].kind = "cust" => ~nd[n].used)
DoWait(n) == /\ CanWait(n) /\ Len(stk) < MaxDepth
             /\ Take(Wait(S0, n, <<>>), [a |-> "Wait", n |-> n])
(* a coroutine awaits n and then calls waitFor(m) *)
Chain(n, m) ==
    /\ n # m /\ nd[n].st \in {"pause"} /\ Eager(nd[n].kind) /\ nd[m].st # "none" /\ nd[m].kind # "cust"
    /\ Len(stk) < MaxDepth /\ \A i \in DOMAIN nd[n].aw : nd[n].aw[i].w # 0
    /\ \A k \in Nd : \A i \in DOMAIN nd[k].aw : nd[k].aw[i].w # 0   \* one such coroutine at a time
    /\ Take([S0 EXCEPT !.nd[n].aw = Append(@, [w |-> 0, m |-> m, n |-> n])], [a |-> "Chain", n |-> n, m |-> m])
Finish(n, out) == nd[n].st = "pause" /\ Take(Complete(S0, n, out), [a |-> "Finish", n |-> n, out |-> out])
Post == Take([Log(S0, [e |-> "posted"]) EXCEPT !.nw = 1 - nw], [a |-> "Post"])
Tick == Take([Log(S0, [e |-> "timer"]) EXCEPT !.nw = 1 - nw], [a |-> "Tick"])

Init == nd = [n \in Nd |-> No] /\ stk = <<>> /\ nw = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E k \in Kinds, m \in Modes : New(k, m)
        \/ \E n \in Nd : DoWait(n)
        \/ "chain" \in Ops /\ \E n, m \in Nd : Chain(n, m)
        \/ \E n \in Nd, o \in Outcomes : Finish(n, o)
        \/ "post" \in Ops /\ (Post \/ Tick)
Spec == Init /\ [][Next]_vars

Obs == [depth |-> Len(stk)]
TypeOK == Len(stk) <= MaxDepth + 1
(* a waitFor that is still on the stack is waiting for an unfinished operation, or is below one that is *)
Blocked == stk # <<>> => ~stk[Len(stk)].fin
NeverEarly == \A i \in DOMAIN ev : ev[i].e = "ret" => nd[ev[i].n].st = "done"
(* an unfinished waitFor waits for an unfinished operation, or its turn comes after a nested waitFor made
   by an earlier waiter of the same operation *)
InRest(i) == \E k \in DOMAIN stk : \E j \in DOMAIN stk[k].rest : stk[k].rest[j].w = i
NoneStuck == \A i \in DOMAIN stk : (~stk[i].fin) => (nd[stk[i].n].st = "pause" \/ InRest(i))
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
