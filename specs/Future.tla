------------------------------- MODULE Future -------------------------------
(* Awaiting a QFuture in each of its ways.  A future which is canceled, or holds an exception, may still be
   running; awaiting it never blocks. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Void, Kinds, Canceling, MaxRounds

Ws == 1..N
VARIABLES w, f, rounds, lbl, ev
vars == <<w, f, rounds, lbl, ev>>
vw   == <<w, f, rounds>>

(* f: fin, can, exc, res (number of results), taken; waiters: k \in direct, result, wait, take *)
S0 == [w |-> w, f |-> f, ev |-> <<>>]
Take(S, l) == w' = S.w /\ f' = S.f /\ ev' = S.ev /\ lbl' = l
Result(S) == IF S.f.exc THEN "exc" ELSE IF Void THEN "void" ELSE "first"
Answer(S, i) == [S EXCEPT !.w[i] = "", !.f.taken = @ \/ (S.w[i] = "take" /\ ~S.f.exc), !.ev = Append(@, [e |-> "done", w |-> i, r |-> Result(S)])]
(* a value is there to be had *)
Some(g) == Void \/ g.res > 0 \/ g.exc
(* takers do not share the future with others *)
Fits(i, k) == IF k = "take" THEN ~f.taken /\ ~f.can /\ \A j \in Ws : w[j] = "" ELSE ~f.taken /\ \A j \in Ws : w[j] # "take"

Await(i, k) ==
    /\ w[i] = "" /\ rounds < MaxRounds /\ rounds' = rounds + 1 /\ (i > 1 => w[i - 1] # "" \/ \A j \in Ws : w[j] = "" => j >= i)
    /\ Fits(i, k) /\ (Void => k # "take")
    /\ f.fin => Some(f)
    /\ f.can => Some(f)
    /\ LET S1 == [S0 EXCEPT !.w[i] = k]
           l == [a |-> "Await", w |-> i, k |-> k, ns |-> TRUE]
       IN  IF f.fin THEN Take(Answer(S1, i), l)
           ELSE Take(S1, l) \/ (~Void /\ (f.exc \/ f.can) /\ Take(Answer(S1, i), l))
Add == ~Void /\ ~f.fin /\ f.res < 2 /\ UNCHANGED rounds
       /\ Take([S0 EXCEPT !.f.res = IF f.can \/ f.exc THEN @ ELSE @ + 1], [a |-> "Add", ns |-> TRUE])
Throw == ~f.fin /\ ~f.exc /\ ~f.can /\ UNCHANGED rounds
         /\ Take([S0 EXCEPT !.f.exc = TRUE], [a |-> "Throw", ns |-> TRUE])
Cancel == Canceling /\ (\A i \in Ws : w[i] # "take") /\ ~f.can /\ ~f.exc /\ UNCHANGED rounds
          /\ ((\E i \in Ws : w[i] # "") => Some(f))
          /\ Take([S0 EXCEPT !.f.can = TRUE], [a |-> "Cancel", ns |-> TRUE])
(* the promise finishes the future explicitly, or is destroyed *)
Finish(how) == ~f.fin /\ (Canceling \/ Some(f)) /\ UNCHANGED rounds /\ (how = "destroy" => Canceling /\ \A i \in Ws : w[i] # "take")
          /\ ((\E i \in Ws : w[i] # "") => Some(f))
          /\ Take([S0 EXCEPT !.f.fin = TRUE, !.f.can = @ \/ how = "destroy"], [a |-> "Finish", how |-> how, ns |-> TRUE])
RECURSIVE All(_, _)
All(S, D) == IF D = {} THEN S ELSE All(Answer(S, Min(D)), D \ {Min(D)})
Settle == /\ \E i \in Ws : w[i] # ""
          /\ UNCHANGED rounds
          /\ Take(IF f.fin THEN All(S0, {i \in Ws : w[i] # ""}) ELSE S0, [a |-> "Settle"])

Init == w = [i \in Ws |-> ""] /\ f = [fin |-> FALSE, can |-> FALSE, exc |-> FALSE, res |-> 0, taken |-> FALSE]
        /\ rounds = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Ws, k \in Kinds : Await(i, k)
        \/ Add \/ Throw \/ Cancel \/ Settle
        \/ \E h \in {"finish", "destroy"} : Finish(h)
Spec == Init /\ [][Next]_vars

Obs == [wait |-> [i \in Ws |-> IF w[i] = "" THEN 0 ELSE 1],
        kept |-> IF f.fin /\ f.res > 0 /\ ~f.exc /\ ~f.taken THEN 1 ELSE 0]
TypeOK == rounds <= MaxRounds /\ (Void => f.res = 0)
NoneStuck == (lbl.a = "Settle" /\ f.fin) => \A i \in Ws : w[i] = ""
NeverEarly == \A i \in DOMAIN ev : f.fin \/ f.exc \/ f.can
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
