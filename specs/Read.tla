-------------------------------- MODULE Read --------------------------------
(* Awaited reads on a QIODevice (also sockets and replies, see Ops).  Bytes are numbered from 1; every
   third one is a newline.  Waiters woken in the same pass of the loop may take their turns in any order. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, MaxBytes, Chunks, Rops, Tos, Jumps, Ops, MaxRounds

Ws == 1..N
VARIABLES w, arr, con, dev, rounds, lbl, ev
vars == <<w, arr, con, dev, rounds, lbl, ev>>
vw   == <<w, arr, con, dev, rounds>>

(* what a round of reading asks for *)
OpOf(o) == CASE o = "all" -> <<"all", 0>> [] o = "direct" -> <<"direct", 0>> [] o = "ready" -> <<"ready", 0>>
             [] o = "read1" -> <<"read", 1>> [] o = "read2" -> <<"read", 2>> [] o = "read0" -> <<"read", 0>>
             [] o = "line0" -> <<"line", 0>> [] o = "line3" -> <<"line", 3>>

(* op: [k |-> "all" | "read" | "line" | "direct" | "ready", n]; pend: "", "data", "end"
   dev: open, ended (no more data will come), closed (also what is buffered is gone), wo (open, but not to be read), dead *)
NoTo == 99
No == [st |-> "none", k |-> "", n |-> 0, rem |-> NoTo, pend |-> ""]
S0 == [w |-> w, arr |-> arr, con |-> con, dev |-> dev, ev |-> <<>>]
Take(S, l) == /\ w' = S.w /\ arr' = S.arr /\ con' = S.con /\ dev' = S.dev /\ ev' = S.ev /\ lbl' = l
Avail(S) == IF S.dev \in {"open", "ended"} THEN S.arr - S.con ELSE 0
Newline(p) == p % 3 = 0
Code(p) == IF Newline(p) THEN 0 ELSE p

(* the number of bytes operation k, n takes when a bytes are buffered after position c *)
LineLen(c, a) == IF \E p \in (c + 1)..(c + a) : Newline(p) THEN (CHOOSE p \in (c + 1)..(c + a) : Newline(p) /\ \A q \in (c + 1)..(p - 1) : ~Newline(q)) - c ELSE a
Len_(k, n, c, a) ==
    LET m == CASE k \in {"all", "direct"} -> a
               [] k = "read" -> Min({n, a})
               [] k = "line" -> IF n = 0 THEN LineLen(c, a) ELSE Min({n - 1, LineLen(c, a)})  \* Qt 6.4 keeps a place for the terminating zero
    IN  m
Bytes(c, m) == [i \in 1..m |-> Code(c + i)]
Done(S, i) == [S EXCEPT !.w[i] = No]
(* operation i ends with an answer (ready) or what is buffered *)
Answer(S, i, r) ==
    LET x == S.w[i]
    IN  IF x.k = "ready" THEN Done([S EXCEPT !.ev = Append(@, [e |-> "ready", w |-> i, r |-> r])], i)
        ELSE LET m == IF Avail(S) = 0 THEN 0 ELSE Len_(x.k, x.n, S.con, Avail(S))
             IN  Done([S EXCEPT !.con = @ + m, !.ev = Append(@, [e |-> "read", w |-> i, b |-> Bytes(S.con, m)])], i)
(* operation i ends as its timeout passes: with nothing, or with what arrived at the same time *)
Timeout(S, i) ==
    Done([S EXCEPT !.ev = Append(@, IF S.w[i].k = "ready" THEN [e |-> "ready", w |-> i, r |-> FALSE] ELSE [e |-> "read", w |-> i, b |-> <<>>])], i)
Timeouts(S, i) == IF S.w[i].k # "ready" /\ Avail(S) > 0 THEN {Answer(S, i, TRUE), Timeout(S, i)} ELSE {Timeout(S, i)}

(* only sockets and replies know that their stream has ended before the await began ("knows") *)
Await(i, k, n, to) ==
    /\ w[i].st = "none" /\ dev # "dead" /\ rounds < MaxRounds
    /\ (dev = "ended" /\ Avail(S0) = 0) => "knows" \in Ops /\ k # "direct"
    /\ (i > 1 => w[i - 1].st # "none" \/ \A j \in Ws : w[j].st = "none" => j >= i)
    /\ rounds' = rounds + 1
    /\ LET S1 == [S0 EXCEPT !.w[i] = [No EXCEPT !.st = "wait", !.k = k, !.n = n, !.rem = to]]
       IN  Take(IF Avail(S0) > 0 THEN Answer(S1, i, TRUE)
                ELSE IF dev = "open" THEN S1
                ELSE Answer(S1, i, IF dev = "ended" /\ "reply" \in Ops THEN "*" ELSE FALSE),
                [a |-> "Await", w |-> i, k |-> k, n |-> n, to |-> to, ns |-> TRUE])
Wake(S, why) == [S EXCEPT !.w = [i \in Ws |-> IF S.w[i].st = "wait" /\ S.w[i].pend = "" THEN [S.w[i] EXCEPT !.pend = why] ELSE S.w[i]]]
Feed(k) ==
    /\ dev = "open" /\ arr + k <= MaxBytes /\ UNCHANGED rounds
    /\ Take(Wake([S0 EXCEPT !.arr = @ + k], "data"), [a |-> "Feed", n |-> k, ns |-> TRUE])
Close == "close" \in Ops /\ dev \in {"open", "ended"} /\ UNCHANGED rounds
         /\ Take([Wake(S0, "end") EXCEPT !.dev = "closed"], [a |-> "Close", ns |-> TRUE])
End == "end" \in Ops /\ dev = "open" /\ UNCHANGED rounds
       /\ Take([Wake(S0, "end") EXCEPT !.dev = "ended"], [a |-> "End", ns |-> TRUE])
(* the device closes as it is destroyed *)
Destroy == "destroy" \in Ops /\ dev # "dead" /\ UNCHANGED rounds
           /\ Take([Wake(S0, "end") EXCEPT !.dev = "dead"], [a |-> "Destroy", ns |-> TRUE])

(* a closed device is opened again, for a new stream, or only to be written to *)
Reopen(m) == "reopen" \in Ops /\ dev \in {"closed", "wo"} /\ (dev = "wo" => m = "rw") /\ UNCHANGED rounds
             /\ Take([S0 EXCEPT !.dev = IF m = "rw" THEN "open" ELSE "wo", !.con = arr], [a |-> "Reopen", m |-> m, ns |-> TRUE])

RECURSIVE Outs(_), FireAll(_, _)
Woken(S) == {i \in Ws : S.w[i].pend # ""}
(* a reply that finishes counts as ready, one that fails does not *)
ReadyAns(S, i) == IF S.w[i].pend = "data" THEN TRUE ELSE IF "reply" \in Ops THEN "*" ELSE FALSE
Outs(S) == IF Woken(S) = {} THEN {S} ELSE UNION {Outs(Answer(S, i, ReadyAns(S, i))) : i \in Woken(S)}
FireAll(S, D) == IF D = {} THEN {S} ELSE UNION {UNION {FireAll(T, D \ {i}) : T \in Timeouts(S, i)} : i \in D}
Due(S) == {i \in Ws : S.w[i].st = "wait" /\ S.w[i].rem <= 0}
Aged(d) == [S0 EXCEPT !.w = [i \in Ws |-> IF w[i].st = "wait" /\ w[i].rem # NoTo THEN [w[i] EXCEPT !.rem = @ - d] ELSE w[i]]]
Busy == \E i \in Ws : w[i].st = "wait"
Settle(d) == /\ Busy /\ UNCHANGED rounds
             /\ \E T \in Outs(Aged(d)) : \E U \in FireAll(T, Due(T)) : Take(U, [a |-> "Settle", d |-> d, first |-> "p"])
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.w[i].pend # ""}
    IN  /\ R # {} /\ UNCHANGED rounds
        /\ \E A \in SUBSET R : \E U \in FireAll(S, (Due(S) \ R) \cup A) : \E T \in Outs(U) : Take(T, [a |-> "Settle", d |-> d, first |-> "t"])

Init == w = [i \in Ws |-> No] /\ arr = 0 /\ con = 0 /\ dev = "open" /\ rounds = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws, o \in Rops, to \in Tos :
              /\ (o = "direct" => to = NoTo)
              /\ Await(i, OpOf(o)[1], OpOf(o)[2], to)
        \/ \E k \in Chunks : Feed(k)
        \/ Close \/ End \/ Destroy \/ Reopen("rw") \/ Reopen("wo")
        \/ \E d \in Jumps \cup {0} : Settle(d) \/ Race(d)
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i].st = "wait" THEN 1 ELSE 0], left |-> IF dev = "dead" THEN 0 ELSE Avail(S0)]
TypeOK == con <= arr /\ arr <= MaxBytes
(* nobody is left waiting for bytes that are there, or for a device that will not provide any *)
NoneStuck == lbl.a = "Settle" => \A i \in Ws : w[i].st = "wait" => dev = "open" /\ w[i].pend = ""
NeverInline == lbl.a \in {"Feed", "Close", "End", "Destroy", "Reopen"} => ev = <<>>
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
