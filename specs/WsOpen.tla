-------------------------------- MODULE WsOpen --------------------------------
(* Awaiting a web socket to open, and its pings to be answered. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Tos, Jumps, Kinds, MaxRounds, MaxPongs, Payloads

Ws == 1..N
VARIABLES w, ss, rounds, pongs, lbl, ev
vars == <<w, ss, rounds, pongs, lbl, ev>>
vw   == <<w, ss, rounds, pongs>>

(* ss: unc, conn, up, clos.  k: open, ping; p: the payload of the ping; pend: "", "yes", "no"; ms: stands for the time of its pong (0, 1, or more than fits 32 bits) *)
NoTo == 99
Nothing == -1
No == [st |-> "none", k |-> "", p |-> 0, rem |-> NoTo, pend |-> "", ms |-> 0]
S0 == [w |-> w, ss |-> ss, pongs |-> pongs, ev |-> <<>>]
Take(S, l) == w' = S.w /\ ss' = S.ss /\ pongs' = S.pongs /\ ev' = S.ev /\ lbl' = l
Done(S, i, r) == [S EXCEPT !.w[i] = No, !.ev = Append(@, [e |-> "done", w |-> i, r |-> r])]
Free(i) == w[i].st = "none" /\ rounds < MaxRounds /\ (i > 1 => w[i - 1].st # "none" \/ \A j \in Ws : w[j].st = "none" => j >= i)
Failure(S, i) == IF S.w[i].k = "open" THEN FALSE ELSE Nothing
Answer(S, i) == Done(S, i, IF S.w[i].pend = "no" THEN Failure(S, i) ELSE IF S.w[i].k = "open" THEN TRUE ELSE S.w[i].ms)
Wake(S, k, r) == [S EXCEPT !.w = [i \in Ws |-> IF S.w[i].st = "wait" /\ S.w[i].k = k /\ S.w[i].pend = "" THEN [S.w[i] EXCEPT !.pend = r] ELSE S.w[i]]]

(* fails |-> the socket refuses at once; the others which wait for it to open learn that, too *)
Open(i, to, how, fails) ==
    /\ "open" \in Kinds /\ Free(i) /\ rounds' = rounds + 1 /\ ss \in {"unc", "conn", "up"}
    /\ (fails => ss = "unc")
    /\ LET S1 == [S0 EXCEPT !.w[i] = [No EXCEPT !.st = "wait", !.k = "open", !.rem = to]]
       IN  Take(CASE ss = "up" -> Done(S0, i, TRUE)
                  [] fails -> Wake(Done(S0, i, FALSE), "open", "no")
                  [] OTHER -> [S1 EXCEPT !.ss = "conn"],
                [a |-> "Open", w |-> i, to |-> to, how |-> how, fails |-> fails, ns |-> TRUE])
Ping(i, to, p) ==
    /\ "ping" \in Kinds /\ Free(i) /\ rounds' = rounds + 1
    /\ \A j \in Ws : w[j].k = "ping" => w[j].p # p
    /\ Take(IF ss # "up" THEN Done(S0, i, Nothing)
            ELSE [S0 EXCEPT !.w[i] = [No EXCEPT !.st = "wait", !.k = "ping", !.rem = to, !.p = p]],
            [a |-> "Ping", w |-> i, to |-> to, p |-> p, ns |-> TRUE])
Pong(p) == /\ "ping" \in Kinds /\ ss = "up" /\ pongs < MaxPongs /\ UNCHANGED rounds
           /\ LET n == pongs + 1
              IN Take([S0 EXCEPT !.pongs = n,
                                 !.w = [i \in Ws |-> IF w[i].k = "ping" /\ w[i].p = p /\ w[i].pend = "" THEN [w[i] EXCEPT !.pend = "yes", !.ms = n - 1] ELSE w[i]]],
                      [a |-> "Pong", p |-> p, ms |-> n - 1, ns |-> TRUE])
Up == ss = "conn" /\ UNCHANGED rounds /\ Take([Wake(S0, "open", "yes") EXCEPT !.ss = "up"], [a |-> "Up", ns |-> TRUE])
(* with an error, or because somebody closes or aborts the connection *)
Fail(error) == ss = "conn" /\ UNCHANGED rounds /\ Take([Wake(S0, "open", "no") EXCEPT !.ss = "unc"], [a |-> "Fail", error |-> error, ns |-> TRUE])
(* the handshake fails: the socket reports the error first, and gives up later *)
Refuse == ss = "conn" /\ UNCHANGED rounds /\ Take(Wake(S0, "open", "no"), [a |-> "Refuse", ns |-> TRUE])
Closing == ss = "up" /\ UNCHANGED rounds /\ Take([Wake(S0, "ping", "no") EXCEPT !.ss = "clos"], [a |-> "Closing", ns |-> TRUE])
Hangup == ss \in {"up", "clos"} /\ UNCHANGED rounds /\ Take([Wake(S0, "ping", "no") EXCEPT !.ss = "unc"], [a |-> "Hangup", ns |-> TRUE])

RECURSIVE Outs(_), FireAll(_, _)
Woken(S) == {i \in Ws : S.w[i].pend # ""}
Outs(S) == IF Woken(S) = {} THEN {S} ELSE UNION {Outs(Answer(S, i)) : i \in Woken(S)}
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(Done(S, Min(D), Failure(S, Min(D))), D \ {Min(D)})
Due(S) == {i \in Ws : S.w[i].st = "wait" /\ S.w[i].rem <= 0}
Aged(d) == [S0 EXCEPT !.w = [i \in Ws |-> IF w[i].st = "wait" /\ w[i].rem # NoTo THEN [w[i] EXCEPT !.rem = @ - d] ELSE w[i]]]
Busy == \E i \in Ws : w[i].st = "wait"
Settle(d) == /\ Busy /\ UNCHANGED rounds
             /\ \E T \in Outs(Aged(d)) : Take(FireAll(T, Due(T)), [a |-> "Settle", d |-> d, first |-> "p"])
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.w[i].pend # ""}
    IN  /\ R # {} /\ UNCHANGED rounds
        /\ \E A \in SUBSET R : \E T \in Outs(FireAll(S, (Due(S) \ R) \cup A)) : Take(T, [a |-> "Settle", d |-> d, first |-> "t"])

Init == w = [i \in Ws |-> No] /\ ss = (IF "open" \in Kinds THEN "unc" ELSE "up") /\ rounds = 0 /\ pongs = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws, to \in Tos : \/ \E how \in {"url", "request"}, fails \in BOOLEAN : Open(i, to, how, fails)
                                     \/ \E p \in Payloads : Ping(i, to, p)
        \/ \E p \in Payloads \cup {99} : Pong(p)
        \/ Up \/ Refuse \/ Closing \/ Hangup \/ \E e \in BOOLEAN : Fail(e)
        \/ \E d \in Jumps \cup {0} : Settle(d) \/ Race(d)
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i].st = "wait" THEN 1 ELSE 0]]
TypeOK == rounds <= MaxRounds
NoneStuck == lbl.a = "Settle" => \A i \in Ws : w[i].st = "wait" =>
    w[i].pend = "" /\ (w[i].k = "open" => ss = "conn") /\ (w[i].k = "ping" => ss = "up")
NeverInline == lbl.a \in {"Up", "Fail", "Refuse", "Closing", "Hangup", "Pong"} => ev = <<>>
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
