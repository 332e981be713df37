------------------------------- MODULE QmlTask -------------------------------
(* A coroutine's result reported to QML: callbacks given to then(), objects returned by await(),
   through any copy of the QmlTask, before and after the coroutine has finished. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Modes, Ivs, MaxHandles, Ops

Is == 1..N
VARIABLES st, cb, ls, hs, engine, lbl, ev
vars == <<st, cb, ls, hs, engine, lbl, ev>>
vw   == <<st, cb, ls, hs, engine>>

(* st: the coroutine: running, ok, failed
   cb[i]: none, armed with its mode, called, dropped (its engine is gone)
   ls[i]: -1 none, -2 gone; otherwise what it holds: 0 nothing, 2 the intermediate value, 1 the result
   hs: copies of the QmlTask *)
S0 == [st |-> st, cb |-> cb, ls |-> ls, hs |-> hs, engine |-> engine, ev |-> <<>>]
Take(S, l) == st' = S.st /\ cb' = S.cb /\ ls' = S.ls /\ hs' = S.hs /\ engine' = S.engine /\ ev' = S.ev /\ lbl' = l
Push(S, e) == [S EXCEPT !.ev = Append(@, e)]

CbEv(i) == [e |-> "called", i |-> i, v |-> 1]
(* what a callback does besides: nest: gives another callback to then() (called as well), throw:
   throws, drop: drops every QmlTask *)
Call(S, i) ==
    LET m == S.cb[i]
        S1 == Push([S EXCEPT !.cb[i] = "called"], CbEv(i))
        S2 == IF m = "nest" THEN Push(S1, CbEv(i + 10)) ELSE S1
    IN  IF m = "drop" THEN [S2 EXCEPT !.hs = {}] ELSE S2
Armed(S, i) == S.cb[i] \notin {"none", "called", "dropped"}
Change(S, i, v) == Push([S EXCEPT !.ls[i] = v], [e |-> "changed", i |-> i, v |-> v])

Then(i, m, h, via) ==
    /\ h \in hs /\ engine /\ cb[i] = "none" /\ (\A j \in 1..(i - 1) : cb[j] # "none") /\ "then" \in Ops
    /\ LET S1 == [S0 EXCEPT !.cb[i] = m]
       IN  Take(IF st = "ok" THEN Call(S1, i) ELSE S1, [a |-> "Then", i |-> i, m |-> m, h |-> h, via |-> via])
Await(i, iv, h, via) ==
    /\ h \in hs /\ ls[i] = -1 /\ (\A j \in 1..(i - 1) : ls[j] # -1) /\ (via = "js" => engine) /\ "await" \in Ops
    /\ Take([S0 EXCEPT !.ls[i] = IF st = "ok" THEN 1 ELSE iv], [a |-> "Await", i |-> i, iv |-> iv, h |-> h, via |-> via])
Copy(how) == /\ hs # {} /\ (how = "self" \/ Cardinality(hs) < MaxHandles)
        /\ LET h == IF how = "self" THEN Min(hs) ELSE Min((1..MaxHandles) \ hs)
           IN  Take([S0 EXCEPT !.hs = @ \cup {h}], [a |-> "Copy", how |-> how, h |-> h, from |-> Min(hs)])
Drop(h) == h \in hs /\ Take([S0 EXCEPT !.hs = @ \ {h}], [a |-> "Drop", h |-> h])
Forget(i) == ls[i] >= 0 /\ "forget" \in Ops /\ Take([S0 EXCEPT !.ls[i] = -2], [a |-> "Forget", i |-> i])
EngineGone == /\ engine /\ st # "none" /\ "engine" \in Ops
              /\ Take([S0 EXCEPT !.engine = FALSE, !.cb = [i \in Is |-> IF Armed(S0, i) THEN "dropped" ELSE cb[i]]], [a |-> "EngineGone"])

(* everyone is told in the order in which they asked *)
RECURSIVE Tell(_)
Untold(S) == {i \in Is : Armed(S, i)} \cup {i + 100 : i \in {k \in Is : S.ls[k] \in {0, 2}}}
Tell(S) == IF Untold(S) = {} THEN {S}
           ELSE UNION {Tell(IF x > 100 THEN Change(S, x - 100, 1) ELSE Call(S, x)) : x \in Untold(S)}
Finish == st = "running" /\ \E T \in Tell([S0 EXCEPT !.st = "ok"]) : Take(T, [a |-> "Finish"])
Fail == st = "running" /\ Take([S0 EXCEPT !.st = "failed"], [a |-> "Fail"])

(* then() given something that is not a function, or called on a QmlTask without a coroutine:
   nothing happens; await() on one without a coroutine: an object that keeps the intermediate value *)
Misuse(h, how, via) == /\ (how = "function" => h \in hs) /\ (how \in {"empty", "emptyawait"} => h = 1) /\ engine /\ "misuse" \in Ops
                       /\ Take(S0, [a |-> "Misuse", h |-> h, how |-> how, via |-> via])

Make(done) == st = "none" /\ Take([S0 EXCEPT !.st = IF done THEN "ok" ELSE "running", !.hs = {1}], [a |-> "Make", done |-> done])
Init == /\ st = "none" /\ cb = [i \in Is |-> "none"] /\ ls = [i \in Is |-> -1]
        /\ hs = {} /\ engine = TRUE /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Is, h \in 1..MaxHandles, via \in {"cpp", "js"} : \/ \E m \in Modes : Then(i, m, h, via)
                                                                    \/ \E iv \in Ivs : Await(i, iv, h, via)
        \/ \E h \in 1..MaxHandles, how \in {"function", "empty", "emptyawait"}, via \in {"cpp", "js"} : Misuse(h, how, via)
        \/ \E done \in BOOLEAN : Make(done)
        \/ \E how \in {"new", "assign", "self", "variant"} : Copy(how)
        \/ EngineGone \/ Finish \/ Fail
        \/ \E h \in 1..MaxHandles : Drop(h)
        \/ \E i \in Is : Forget(i)
Spec == Init /\ [][Next]_vars

Obs == [value |-> ls, q_st |-> st]
TypeOK == \A i \in Is : ls[i] \in -2..2
AllTold == st = "ok" => \A i \in Is : ~Armed(S0, i) /\ ls[i] \notin {0, 2}
NoneTold == st # "ok" => \A i \in Is : cb[i] # "called" /\ ls[i] # 1
Once == [][\A i \in Is : cb[i] = "called" => cb'[i] = "called" /\ \A k \in 1..Len(ev') : ev'[k] # CbEv(i)]_vars
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
