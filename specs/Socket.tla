-------------------------------- MODULE Socket --------------------------------
(* Awaiting a socket to connect or disconnect.  The socket goes through the states of QAbstractSocket
   (QLocalSocket has no "look"); any number of coroutines wait; those woken in the same pass of the loop
   run in any order.  Local: the socket is a QLocalSocket. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Tos, Jumps, Kinds, MaxRounds, MaxRuns, Local, Real

Ws == 1..N
VARIABLES w, ss, rounds, runs, lbl, ev
vars == <<w, ss, rounds, runs, lbl, ev>>
vw   == <<w, ss, rounds, runs>>

(* ss: unc, look, conn, up, clos, dead; k: up, down; pend: "", "yes", "no", "any" *)
NoTo == 99
No == [st |-> "none", k |-> "", rem |-> NoTo, pend |-> ""]
S0 == [w |-> w, ss |-> ss, ev |-> <<>>]
Take(S, l) == w' = S.w /\ ss' = S.ss /\ ev' = S.ev /\ lbl' = l
Done(S, i, r) == [S EXCEPT !.w[i] = No, !.ev = Append(@, [e |-> "done", w |-> i, r |-> r])]
Free(i) == w[i].st = "none" /\ ss # "dead" /\ rounds < MaxRounds /\ (i > 1 => w[i - 1].st # "none" \/ \A j \in Ws : w[j].st = "none" => j >= i)
Waiting(S, i, k, to) == [S EXCEPT !.w[i] = [No EXCEPT !.st = "wait", !.k = k, !.rem = to]]
Begun(S, i, k, to) == IF k = "up" /\ S.ss = "up" THEN Done(S, i, TRUE)
                      ELSE IF k = "down" /\ S.ss = "unc" THEN Done(S, i, FALSE)
                      ELSE Waiting(S, i, k, to)
Wake(S, k, r) == [S EXCEPT !.w = [i \in Ws |-> IF S.w[i].st = "wait" /\ S.w[i].k = k /\ S.w[i].pend = "" THEN [S.w[i] EXCEPT !.pend = r] ELSE S.w[i]]]
(* what wakes up when the socket gets to state s *)
Goes(S, s) ==
    LET T == [S EXCEPT !.ss = s]
    IN  CASE s = "up" -> Wake(T, "up", "yes")
          [] s \in {"unc", "dead"} /\ S.ss \in {"look", "conn"} -> Wake(Wake(T, "up", "no"), "down", "any")
          [] s \in {"unc", "dead"} /\ S.ss \in {"up", "clos"} -> Wake(Wake(T, "up", "no"), "down", "yes")
          [] OTHER -> T

Await(i, k, to) ==
    /\ Free(i) /\ rounds' = rounds + 1 /\ UNCHANGED runs
    /\ Take(Begun(S0, i, k, to), [a |-> "Await", w |-> i, k |-> k, to |-> to, ns |-> TRUE])
(* connectToHost or connectToServer; out: what the socket is when the call returns.
   A socket which fails at once was never waited for. *)
ConnectTo(i, to, how, out) ==
    /\ Free(i) /\ ss = "unc" /\ runs < MaxRuns /\ rounds' = rounds + 1 /\ runs' = runs + 1
    /\ LET S1 == Goes([S0 EXCEPT !.ss = "conn"], out)
       IN  Take(IF out = "unc" THEN Done(S1, i, FALSE) ELSE Begun(S1, i, "up", to),
                [a |-> "Connect", w |-> i, to |-> to, how |-> how, out |-> out, ns |-> TRUE])
Go(to, l) == UNCHANGED rounds /\ Take(Goes(S0, to), l @@ [ns |-> TRUE])
Launch == /\ ss = "unc" /\ runs < MaxRuns /\ runs' = runs + 1
          /\ Go(IF Local THEN "conn" ELSE "look", [a |-> "Launch"])
Dial   == ~Local /\ ss = "look" /\ UNCHANGED runs /\ Go("conn", [a |-> "Dial"])
Up     == ss = "conn" /\ UNCHANGED runs /\ Go("up", [a |-> "Up"])
Fail   == ss \in {"look", "conn"} /\ UNCHANGED runs /\ Go("unc", [a |-> "Fail"])
Close  == ss = "up" /\ UNCHANGED runs /\ Go("clos", [a |-> "Closing"])
Hangup(error) == ss \in {"up", "clos"} /\ UNCHANGED runs /\ Go("unc", [a |-> "Hangup", error |-> error])
(* a socket that is not connected tells nobody that it is destroyed *)
Destroy == /\ "destroy" \in Kinds /\ ss # "dead" /\ UNCHANGED runs
           /\ (ss = "unc" => \A i \in Ws : w[i].st = "wait" => w[i].pend # "")
           /\ Go("dead", [a |-> "Destroy"])

RECURSIVE Outs(_), FireAll(_, _)
Woken(S) == {i \in Ws : S.w[i].pend # ""}
Outs(S) == IF Woken(S) = {} THEN {S}
           ELSE UNION {Outs(Done(S, i, CASE S.w[i].pend = "any" -> "*" [] S.w[i].pend = "yes" -> TRUE [] OTHER -> FALSE)) : i \in Woken(S)}
FireAll(S, D) == IF D = {} THEN S ELSE FireAll(Done(S, Min(D), FALSE), D \ {Min(D)})
Due(S) == {i \in Ws : S.w[i].st = "wait" /\ S.w[i].rem <= 0}
Aged(d) == [S0 EXCEPT !.w = [i \in Ws |-> IF w[i].st = "wait" /\ w[i].rem # NoTo THEN [w[i] EXCEPT !.rem = @ - d] ELSE w[i]]]
Busy == \E i \in Ws : w[i].st = "wait"
Settle(d) == /\ Busy /\ UNCHANGED <<rounds, runs>>
             /\ \E T \in Outs(Aged(d)) : Take(FireAll(T, Due(T)), [a |-> "Settle", d |-> d, first |-> "p"])
Race(d) ==
    LET S == Aged(d)
        R == {i \in Due(S) : S.w[i].pend # ""}
    IN  /\ R # {} /\ UNCHANGED <<rounds, runs>>
        /\ \E A \in SUBSET R : \E T \in Outs(FireAll(S, (Due(S) \ R) \cup A)) : Take(T, [a |-> "Settle", d |-> d, first |-> "t"])

Fake == \/ Launch \/ Dial \/ Up \/ Fail \/ Close \/ \E e \in BOOLEAN : Hangup(e)
        \/ Destroy
        \/ "connect" \in Kinds /\ \E i \in Ws, to \in Tos, how \in {"name", "address"}, out \in {"look", "conn", "up", "unc"} : ConnectTo(i, to, how, out)

(* real local sockets: connecting succeeds or fails within the call; the server's end hangs up, or ours does *)
RealNext == \/ \E i \in Ws, to \in Tos, how \in {"args", "set"}, out \in {"up", "unc"} : ConnectTo(i, to, how, out)
            \/ ss = "up" /\ UNCHANGED <<rounds, runs>> /\ \E how \in {"disconnect", "abort", "close"} : Take(Goes(S0, "unc"), [a |-> "Leave", how |-> how, ns |-> TRUE])
            (* the loop hears of it, then those woken run *)
            \/ ss = "up" /\ UNCHANGED <<rounds, runs>> /\ \E T \in Outs(Goes(S0, "unc")) : Take(T, [a |-> "Remote"])
            \/ Destroy

Init == w = [i \in Ws |-> No] /\ ss = "unc" /\ rounds = 0 /\ runs = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws, to \in Tos, k \in Kinds \cap {"up", "down"} : Await(i, k, to)
        \/ IF Real THEN RealNext ELSE Fake
        \/ \E d \in Jumps \cup {0} : Settle(d) \/ Race(d)
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i].st = "wait" THEN 1 ELSE 0]]
TypeOK == rounds <= MaxRounds /\ runs <= MaxRuns
NoneStuck == lbl.a = "Settle" => \A i \in Ws : w[i].st = "wait" =>
    w[i].pend = "" /\ (w[i].k = "up" => ss # "up") /\ (w[i].k = "down" => ss \notin {"unc", "dead"})
NeverInline == lbl.a \in {"Launch", "Dial", "Up", "Fail", "Closing", "Hangup", "Leave", "Destroy"} => ev = <<>>
(* success is reported only by waiters which saw the state they waited for *)
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
