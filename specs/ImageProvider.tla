---------------------------- MODULE ImageProvider ----------------------------
(* Requests to a coroutine image provider. *)
EXTENDS Conf, FiniteSets

CONSTANTS N, Ids, Sizes, Hows

Rs == 1..N
VARIABLES r, prov, lbl, ev
vars == <<r, prov, lbl, ev>>
vw   == <<r, prov>>

(* st: none, running, ok, failed, gone (response deleted); ever: gone while its coroutine ran *)
No == [st |-> "none", id |-> 0, size |-> 0, run |-> FALSE]
Take(R, p, e, l) == r' = R /\ prov' = p /\ ev' = e /\ lbl' = l
(* how: ok, failed (threw a std::exception), odd (threw something else), mute (threw one without a message), null (returned a null image) *)
Became(how) == IF how \in {"odd", "mute"} THEN "failed" ELSE how
Ended == {"ok", "failed", "null"}
(* finished is announced once; a request completed while being made may be before anyone listens *)
Request(i, id, size, how) ==
    /\ prov /\ r[i].st = "none" /\ \A j \in 1..(i - 1) : r[j].st # "none"
    /\ Take([r EXCEPT ![i] = [st |-> IF how = "later" THEN "running" ELSE Became(how),
                              id |-> id, size |-> size, run |-> how = "later"]], prov, <<>>,
            [a |-> "Request", r |-> i, id |-> id, size |-> size, how |-> how])
(* what a response shows: done or not, and the image: its id and size, 0 when there is none *)
Show(x) == CASE x.st = "none" -> <<-1, 0, 0, 0>> [] x.st = "gone" -> <<-2, 0, 0, 0>>
           [] x.st = "running" -> <<0, 0, 0, 0>>
           [] x.st = "ok" -> <<1, x.id, x.size, 0>> [] x.st = "failed" -> <<1, 0, 0, 1>>
           [] x.st = "null" -> <<1, 0, 0, 0>>
(* whoever is told finds the outcome in the response, and may delete it at once *)
End(i, how, del) ==
    /\ r[i].run /\ (del => r[i].st # "gone")
    /\ LET x == [r[i] EXCEPT !.run = FALSE, !.st = IF @ = "gone" THEN @ ELSE Became(how)]
       IN  Take([r EXCEPT ![i] = IF del THEN [x EXCEPT !.st = "gone"] ELSE x], prov,
            IF r[i].st = "gone" THEN <<>> ELSE <<[e |-> "finished", r |-> i, v |-> Show(x)]>>, [a |-> "End", r |-> i, how |-> how, del |-> del])
Cancel(i) == r[i].st = "running" /\ Take(r, prov, <<>>, [a |-> "Cancel", r |-> i])
Delete(i) == r[i].st \in Ended \cup {"running"} /\ Take([r EXCEPT ![i].st = "gone"], prov, <<>>, [a |-> "Delete", r |-> i])
ProviderGone == prov /\ (\E i \in Rs : r[i].run) /\ Take(r, FALSE, <<>>, [a |-> "ProviderGone"])

Init == r = [i \in Rs |-> No] /\ prov = TRUE /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Rs : \/ \E id \in Ids, s \in Sizes, how \in Hows : Request(i, id, s, how)
                         \/ \E how \in Hows \ {"later"}, del \in BOOLEAN : End(i, how, del)
                         \/ Cancel(i) \/ Delete(i)
        \/ ProviderGone
Spec == Init /\ [][Next]_vars

Obs == [resp |-> [i \in Rs |-> Show(r[i])]]
TypeOK == \A i \in Rs : r[i].run => r[i].st \in {"running", "gone"}
Once == \A k \in 1..Len(ev) : r[ev[k].r].st \in Ended \cup {"gone"} /\ ~r[ev[k].r].run
OnceOnly == [][\A i \in Rs : r[i].st \in Ended => ev' = <<>> \/ ev'[1].r # i]_vars
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
