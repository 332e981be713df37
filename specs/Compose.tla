------------------------------ MODULE Compose ------------------------------
(* Coroutines whose bodies await one thing after the other: signals with and without a timeout, sleeps,
   a repeating timer, a future, bytes from a device of their own, the elements of a signal listener, a Task shared by several of them, and
   coroutines they call themselves, with exceptions passing through.  One coroutine runs a program, a
   sequence of operations; it goes on with the next when the operation it awaits is over. *)
EXTENDS Conf, FiniteSets

CONSTANTS K, Ps, MaxEmit, MaxTime, MaxData, Period, NoTo

Ks == 1..K
VARIABLES co, em, fut, tk, time, lbl, ev
vars == <<co, em, fut, tk, time, lbl, ev>>
vw   == <<co, em, fut, tk, time>>

Op(o, n) == [o |-> o, n |-> n, c |-> FALSE, sub |-> <<>>]
Sig(to) == Op("sig", to)
Sleep(n) == Op("sleep", n)
Tick == Op("tick", 0)
Fut == Op("fut", 0)
Lis == Op("lis", 0)
Nxt == Op("next", 0)
Read(to) == Op("read", to)
Throw == Op("throw", 0)
(* await the first coroutine's Task; catching what it throws *)
Task(c) == [Op("task", 0) EXCEPT !.c = c]
Call(p, c) == [Op("call", 0) EXCEPT !.c = c, !.sub = p]

Prog(p) ==
    CASE p = 1 -> <<Sig(NoTo), Sig(2)>>
      [] p = 2 -> <<Sleep(1), Sig(1), Sleep(1)>>
      [] p = 3 -> <<Task(TRUE), Sleep(1), Throw>>
      [] p = 4 -> <<Tick, Fut, Tick>>
      [] p = 5 -> <<Lis, Sleep(2), Nxt, Nxt>>
      [] p = 6 -> <<Call(<<Sleep(1), Call(<<Sig(1), Throw>>, FALSE), Tick>>, TRUE), Call(<<Tick, Sig(2)>>, FALSE)>>
      [] p = 7 -> <<Sig(1), Throw>>
      [] p = 8 -> <<Fut, Task(FALSE), Task(FALSE)>>
      [] p = 9 -> <<Call(<<Fut, Call(<<Sleep(1), Throw>>, TRUE), Sig(NoTo)>>, FALSE), Tick>>
      [] p = 10 -> <<Lis, Tick, Nxt, Sig(1), Nxt, Throw>>
      [] p = 11 -> <<Call(<<Task(FALSE)>>, TRUE), Sig(1), Call(<<Task(TRUE), Sleep(2)>>, FALSE), Sig(1)>>
      [] p = 12 -> <<>>
      [] p = 13 -> <<Sleep(0), Tick, Sleep(2), Tick>>
      [] p = 14 -> <<Call(<<Call(<<Call(<<Sig(2)>>, FALSE), Tick>>, FALSE), Fut>>, FALSE), Throw>>
      [] p = 15 -> <<Read(NoTo), Sleep(1), Read(1), Sig(1)>>
      [] p = 16 -> <<Call(<<Read(1), Tick, Read(2), Throw>>, TRUE), Read(1), Task(TRUE)>>
NeedsFirst == {3, 8, 11, 16}

(* in: bytes that are there; rd: bytes read so far
   w: what it waits for ("" nothing); rem: time left, NoTo if there is no end to it; st: its frames, each
   the operations not over yet; aw: who awaits it; s: operations done *)
No == [st |-> "none", fr |-> <<>>, w |-> "", rem |-> 0, aw |-> <<>>, s |-> 0, lis |-> FALSE, buf |-> <<>>, in |-> 0, rd |-> 0, res |-> "", obj |-> FALSE]
S0 == [co |-> co, em |-> em, fut |-> fut, tk |-> tk, ev |-> <<>>]
Take(S, t, l) == co' = S.co /\ em' = S.em /\ fut' = S.fut /\ tk' = S.tk /\ time' = t /\ ev' = S.ev /\ lbl' = l

(* the operation k awaits is over, with v *)
Log(S, k, o, v) == [S EXCEPT !.co[k].s = @ + 1, !.ev = Append(@, [k |-> k, s |-> S.co[k].s, o |-> o, v |-> v])]
Over(S, k, o, v) == [Log(S, k, o, v) EXCEPT !.co[k].fr[1] = Tail(@), !.co[k].w = "", !.co[k].rem = 0]
Wait(S, k, w, rem) == [S EXCEPT !.co[k].w = w, !.co[k].rem = rem]

RECURSIVE Run(_, _), Raise(_, _), Finish(_, _, _), TellAll(_, _)
Outcome(S, k) == IF S.co[1].res = "val" THEN Run(Over(S, k, "task", 1), k)
                 ELSE IF Head(S.co[k].fr[1]).c THEN Run(Over(S, k, "task", -1), k)
                 ELSE Raise([S EXCEPT !.co[k].w = ""], k)
TellAll(S, q) == IF q = <<>> THEN S ELSE TellAll(Outcome(S, Head(q)), Tail(q))
Finish(S, k, res) ==
    TellAll([S EXCEPT !.co[k] = [No EXCEPT !.st = "done", !.res = res, !.s = S.co[k].s, !.obj = S.co[k].obj]], S.co[k].aw)
(* the topmost frame ends with an exception *)
Raise(S, k) ==
    LET f == Tail(S.co[k].fr)
        S1 == [S EXCEPT !.co[k].fr = f]
    IN  IF f = <<>> THEN Finish(S, k, "exc")
        ELSE IF Head(f[1]).c THEN Run(Over(S1, k, "call", -1), k)
        ELSE Raise(S1, k)
Run(S, k) ==
    LET f == S.co[k].fr
        op == Head(f[1])
    IN  IF f[1] = <<>>
        THEN IF Len(f) = 1 THEN Finish(S, k, "val") ELSE Run(Over([S EXCEPT !.co[k].fr = Tail(f)], k, "call", 1), k)
        ELSE CASE op.o = "sleep" -> Wait(S, k, "sleep", op.n)
               [] op.o = "sig" -> Wait(S, k, "sig", op.n)
               [] op.o = "tick" -> Wait(S, k, "tick", NoTo)
               [] op.o = "fut" -> IF S.fut THEN Run(Over(S, k, "fut", 7), k) ELSE Wait(S, k, "fut", NoTo)
               [] op.o = "lis" -> Run(Over([S EXCEPT !.co[k].lis = TRUE], k, "lis", 0), k)
               [] op.o = "next" -> IF S.co[k].buf # <<>> THEN Run(Over([S EXCEPT !.co[k].buf = Tail(@)], k, "next", Head(S.co[k].buf)), k)
                                   ELSE Wait(S, k, "next", NoTo)
               [] op.o = "read" -> IF S.co[k].in > 0 THEN Run(Over([S EXCEPT !.co[k].in = @ - 1, !.co[k].rd = @ + 1], k, "read", S.co[k].rd + 1), k)
                                   ELSE Wait(S, k, "read", op.n)
               [] op.o = "throw" -> Raise(S, k)
               [] op.o = "call" -> Run([S EXCEPT !.co[k].fr = <<op.sub>> \o @], k)
               [] op.o = "task" -> IF S.co[1].st = "done" THEN Outcome(S, k) ELSE [Wait(S, k, "task", NoTo) EXCEPT !.co[1].aw = Append(@, k)]

(* whoever is due at an instant goes on in any order *)
RECURSIVE AnyOrder(_, _, _)
Waiting(S, w) == {k \in Ks : S.co[k].w = w}
RECURSIVE Each(_, _, _, _)
Each(S, W, o, v) == IF W = {} THEN S ELSE Each(Run(Over(S, Min(W), o, v), Min(W)), W \ {Min(W)}, o, v)
Fire(S, k) == IF k = 0 THEN Each([S EXCEPT !.tk = Period], Waiting(S, "tick"), "tick", 0)
              ELSE Run(Over(S, k, S.co[k].w, IF S.co[k].w \in {"sig", "read"} THEN -1 ELSE 0), k)
Timed == {"sleep", "sig", "read"}
Due(S) == {k \in Ks : S.co[k].w \in Timed /\ S.co[k].rem = 0} \cup (IF S.tk = 0 THEN {0} ELSE {})
AnyOrder(S, D, n) == IF D = {} THEN IF Due(S) = {} \/ n = 0 THEN {S} ELSE AnyOrder(S, Due(S), n - 1)
                ELSE UNION {AnyOrder(Fire(S, k), D \ {k}, n) : k \in D}
Settled(S) == AnyOrder(S, Due(S), 5)

Start(p) ==
    /\ \E k \in Ks : co[k].st = "none"
    /\ LET k == Min({k \in Ks : co[k].st = "none"})
       IN  /\ k = 1 => p \notin NeedsFirst
           /\ \E S \in Settled(Run([S0 EXCEPT !.co[k] = [No EXCEPT !.st = "run", !.fr = <<Prog(p)>>, !.obj = TRUE]], k)) :
                 Take(S, time, [a |-> "Start", k |-> k, p |-> Prog(p)])
Emission ==
    /\ em < MaxEmit
    /\ LET v == em + 1
           W == Waiting(S0, "sig")
           L == Waiting(S0, "next")
           S1 == [S0 EXCEPT !.em = v, !.co = [k \in Ks |-> IF co[k].lis /\ k \notin L THEN [co[k] EXCEPT !.buf = Append(@, v)] ELSE co[k]]]
       IN  \E S \in Settled(Each(Each(S1, W, "sig", v), L, "next", v)) : Take(S, time, [a |-> "Emit", v |-> v])
Resolve ==
    /\ ~fut
    /\ \E S \in Settled(Each([S0 EXCEPT !.fut = TRUE], Waiting(S0, "fut"), "fut", 7)) : Take(S, time, [a |-> "Resolve"])
Pass ==
    /\ time < MaxTime /\ \E k \in Ks : co[k].w # ""
    /\ LET S1 == [S0 EXCEPT !.tk = @ - 1, !.co = [k \in Ks |-> IF co[k].w \in Timed /\ co[k].rem # NoTo THEN [co[k] EXCEPT !.rem = @ - 1] ELSE co[k]]]
       IN  \E S \in Settled(S1) : Take(S, time + 1, [a |-> "Pass"])
Arrive(k, n) ==
    /\ co[k].st = "run" /\ co[k].in + co[k].rd + n <= MaxData
    /\ LET S1 == [S0 EXCEPT !.co[k].in = @ + n]
       IN  \E S \in Settled(IF co[k].w = "read" THEN Run(S1, k) ELSE S1) : Take(S, time, [a |-> "Arrive", k |-> k, n |-> n])
Drop(k) == k > 1 /\ co[k].obj /\ Take([S0 EXCEPT !.co[k].obj = FALSE], time, [a |-> "Drop", k |-> k])

Init == co = [k \in Ks |-> No] /\ em = 0 /\ fut = FALSE /\ tk = Period /\ time = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E p \in Ps : Start(p)
        \/ Emission \/ Resolve \/ Pass
        \/ \E k \in Ks : Drop(k)
        \/ \E k \in Ks, n \in 1..2 : Arrive(k, n)
Spec == Init /\ [][Next]_vars

Obs == [st |-> [k \in Ks |-> IF ~co[k].obj THEN "" ELSE IF co[k].st = "done" THEN "done" ELSE "run"],
        fr |-> [k \in Ks |-> IF co[k].st = "done" /\ ~co[k].obj THEN 1 ELSE 0]]
TypeOK == \A k \in Ks : co[k].w \in {"", "sleep", "sig", "tick", "fut", "next", "task", "read"}
(* everyone who has not finished waits for something that has not happened yet *)
NoneStuck == \A k \in Ks :
    /\ co[k].st = "run" => co[k].w # ""
    /\ co[k].w = "task" => co[1].st = "run"
    /\ co[k].w = "fut" => ~fut
    /\ co[k].w = "next" => co[k].buf = <<>>
    /\ co[k].w = "read" => co[k].in = 0
    /\ co[k].w \in Timed => co[k].rem > 0
(* operations are over one after the other *)
InOrder == \A i, j \in DOMAIN ev : (i < j /\ ev[i].k = ev[j].k) => ev[i].s < ev[j].s
(* nobody goes on but by what he waits for *)
OnlyDue == [][\A k \in Ks : (co[k].st = "run" /\ co'[k].s # co[k].s) =>
                 CASE co[k].w = "sleep" -> lbl'.a = "Pass"
                   [] co[k].w = "tick" -> lbl'.a = "Pass"
                   [] co[k].w = "sig" -> lbl'.a \in {"Pass", "Emit"}
                   [] co[k].w = "read" -> lbl'.a = "Pass" \/ (lbl'.a = "Arrive" /\ lbl'.k = k)
                   [] co[k].w = "next" -> lbl'.a = "Emit"
                   [] co[k].w = "fut" -> lbl'.a = "Resolve"
                   [] OTHER -> co'[1].st = "done"]_vars
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
