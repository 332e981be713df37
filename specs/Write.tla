------------------------------- MODULE Write -------------------------------
(* Awaited writes on a QIODevice.  Room bytes at most are accepted per write; the device flushes them
   in any pieces; Mode "sync" devices write at once. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Sizes, Room, MaxBytes, Mode, Tos, Jumps, Ops, Kinds

Ws == 1..N
VARIABLES w, acc, fl, dev, lbl, ev
vars == <<w, acc, fl, dev, lbl, ev>>
vw   == <<w, acc, fl, dev>>

(* acc: bytes the device accepted so far, fl: bytes it wrote.
   waiters: kind write: my |-> number of its bytes, upto |-> value of acc after them;
   kind wait (waitForBytesWritten): pend |-> size of the first write notification *)
NoTo == 99
Nothing == -1
No == [st |-> "none", k |-> "", my |-> 0, upto |-> 0, rem |-> NoTo, pend |-> 0, end |-> FALSE]
S0 == [w |-> w, acc |-> acc, fl |-> fl, dev |-> dev, ev |-> <<>>]
Take(S, l) == /\ w' = S.w /\ acc' = S.acc /\ fl' = S.fl /\ dev' = S.dev /\ ev' = S.ev /\ lbl' = l
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]
Done(S, i, r) == [Log(S, [e |-> "done", w |-> i, r |-> r]) EXCEPT !.w[i] = No]
Free(i) == w[i].st = "none" /\ dev # "dead" /\ (i > 1 => w[i - 1].st # "none" \/ \A j \in Ws : w[j].st = "none" => j >= i)

Write_(i, n) ==
    /\ Free(i) /\ acc + Min({n, Room}) <= MaxBytes
    /\ LET k == Min({n, Room})
           S1 == [S0 EXCEPT !.acc = @ + k]
       IN  /\ dev = "open"
           /\ Take(IF Mode = "sync" THEN Done([S1 EXCEPT !.fl = S1.acc], i, k)
                ELSE [S1 EXCEPT !.w[i] = [No EXCEPT !.st = "wait", !.k = "write", !.my = k, !.upto = S1.acc]],
                [a |-> "Write", w |-> i, n |-> n, ns |-> TRUE])
(* nothing is written; that is reported as such or as an error *)
Refused(i, n) == dev # "open" /\ Free(i) /\ \E r \in {0, Nothing} : Take(Done(S0, i, r), [a |-> "Write", w |-> i, n |-> n, ns |-> TRUE])
WaitBytes(i, to) ==
    /\ Free(i)
    /\ Take(IF dev # "open" THEN Done(S0, i, IF dev = "ended" THEN "*" ELSE Nothing)
            ELSE IF acc = fl THEN Done(S0, i, 0)
            ELSE [S0 EXCEPT !.w[i] = [No EXCEPT !.st = "wait", !.k = "wait", !.rem = to]],
            [a |-> "WaitBytes", w |-> i, to |-> to, ns |-> TRUE])
Flush(k) ==
    /\ dev = "open" /\ fl + k <= acc
    /\ Take([S0 EXCEPT !.fl = @ + k,
                       !.w = [i \in Ws |-> IF w[i].st = "wait" /\ w[i].k = "wait" /\ w[i].pend = 0 /\ ~w[i].end
                                           THEN [w[i] EXCEPT !.pend = k] ELSE w[i]]],
            [a |-> "Flush", n |-> k, ns |-> TRUE])
Closing(S) == [S EXCEPT !.w = [i \in Ws |-> IF S.w[i].st = "wait" THEN [S.w[i] EXCEPT !.end = TRUE] ELSE S.w[i]]]
Close == "close" \in Ops /\ dev = "open" /\ Take([Closing(S0) EXCEPT !.dev = "closed"], [a |-> "Close", ns |-> TRUE])
End == "end" \in Ops /\ dev = "open" /\ Take([Closing(S0) EXCEPT !.dev = "ended"], [a |-> "End", ns |-> TRUE])
Destroy == "destroy" \in Ops /\ dev # "dead" /\ Take([Closing(S0) EXCEPT !.dev = "dead"], [a |-> "Destroy", ns |-> TRUE])

Ready(S, i) == /\ S.w[i].st = "wait"
               /\ IF S.w[i].k = "write" THEN S.w[i].end \/ S.fl >= S.w[i].upto ELSE S.w[i].end \/ S.w[i].pend # 0
(* how much of its bytes was written when the device closed *)
Written(S, i) == LET missing == S.w[i].upto - S.fl
                 IN  IF missing <= 0 THEN S.w[i].my ELSE IF missing >= S.w[i].my THEN 0 ELSE S.w[i].my - missing
(* c: how a wait for a write notification ends when the device closes, with nothing or with no bytes *)
Result(S, i, c) == IF S.w[i].k = "write" THEN Written(S, i)
                ELSE IF S.w[i].pend # 0 THEN S.w[i].pend ELSE c
RECURSIVE All(_, _, _), FireAll(_, _)
All(S, D, c) == IF D = {} THEN S ELSE All(Done(S, Min(D), Result(S, Min(D), c)), D \ {Min(D)}, c)
RunReady(S, c) == All(S, {i \in Ws : Ready(S, i)}, c)
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(Done(S, Min(D), Nothing), D \ {Min(D)})
Due(S) == {i \in Ws : S.w[i].st = "wait" /\ S.w[i].rem <= 0}
Aged(d) == [S0 EXCEPT !.w = [i \in Ws |-> IF w[i].st = "wait" /\ w[i].rem # NoTo THEN [w[i] EXCEPT !.rem = @ - d] ELSE w[i]]]
Busy == \E i \in Ws : w[i].st = "wait"
Settle(d) == Busy /\ \E c \in {0, Nothing} : LET T == RunReady(Aged(d), c) IN Take(FireAll(T, Due(T)), [a |-> "Settle", d |-> d, first |-> "p"])
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : Ready(S, i)}
    IN  R # {} /\ \E A \in SUBSET R, c \in {0, Nothing} : Take(RunReady(FireAll(S, (Due(S) \ R) \cup A), c), [a |-> "Settle", d |-> d, first |-> "t"])

Init == w = [i \in Ws |-> No] /\ acc = 0 /\ fl = 0 /\ dev = "open" /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws : \/ "write" \in Kinds /\ \E n \in Sizes : Write_(i, n) \/ Refused(i, n)
                         \/ "wait" \in Kinds /\ \E to \in Tos : WaitBytes(i, to)
        \/ \E k \in 1..MaxBytes : Flush(k)
        \/ Close \/ End \/ Destroy
        \/ \E d \in Jumps \cup {0} : Settle(d) \/ Race(d)
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i].st = "wait" THEN 1 ELSE 0], acc |-> acc, ok |-> 1]
TypeOK == fl <= acc /\ acc <= MaxBytes
NoneStuck == lbl.a = "Settle" => \A i \in Ws : w[i].st = "wait" => ~Ready(S0, i) /\ dev = "open"
NeverInline == lbl.a \in {"Flush", "Close", "End", "Destroy"} => ev = <<>>
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
