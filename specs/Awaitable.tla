------------------------------ MODULE Awaitable ------------------------------
(* co_await of something a user made awaitable, in a Task or LazyTask coroutine: the protocol between
   the coroutine and the awaitable, for every shape an awaitable may have. *)
EXTENDS Conf, FiniteSets

CONSTANTS N,       \* awaits
          Kinds,   \* methods: await_ready() & co. are its members; member, free: operator co_await;
                   \* plain, plainop: likewise, of a trivially copyable type (which doesn't notice being copied, but where it is)
          Cats,    \* value category of the operand: lvalue, const, rvalue (of a variable), temp
          Readys,  \* await_ready(): no, yes, throws
          Susps,   \* await_suspend(): void, true, false, throws, self, noop, other (returns the handle of another one)
          Outs     \* await_resume(): val, ref, none (void), exc

Is == 1..N
VARIABLES st, c, lbl, ev
vars == <<st, c, lbl, ev>>
vw   == <<st, c>>

(* st[i]: none, wait, done;  c[i]: how it awaits *)
NoC == [kind |-> "", cat |-> "", out |-> ""]
S0 == [st |-> st, c |-> c, ev |-> <<>>]
Take(S, l) == st' = S.st /\ c' = S.c /\ ev' = S.ev /\ lbl' = l
Log(S, e) == [S EXCEPT !.ev = Append(@, e)]
E(i, what) == [e |-> what, i |-> i]

(* the awaitable is the very operand: nothing is copied, moved, or destroyed before the await is over.
   A temporary is gone before what follows, a variable when the coroutine ends. *)
Plain == {"plain", "plainop"}
End(S, i, last) ==
    LET S1 == IF S.c[i].kind \in Plain THEN Log(S, last)
              ELSE IF S.c[i].cat = "temp" THEN Log(Log(S, E(i, "gone")), last) ELSE Log(Log(S, last), E(i, "gone"))
    IN  [S1 EXCEPT !.st[i] = "done"]
Got(S, i) == End(Log(S, E(i, "resume")), i,
                 IF S.c[i].out = "exc" THEN [e |-> "exc", i |-> i, v |-> "resume"] ELSE [e |-> "got", i |-> i, v |-> S.c[i].out])
Thrown(S, i, where) == End(S, i, [e |-> "exc", i |-> i, v |-> where])

Await(i, kind, cat, rd, su, out) ==
    /\ st[i] = "none" /\ (i > 1 => st[i - 1] # "none")
    /\ (rd # "no" => su = "void") /\ (rd = "throws" => out = "val")
    /\ LET S1 == [S0 EXCEPT !.c[i] = [kind |-> kind, cat |-> cat, out |-> out]]
           S2 == IF kind \in {"methods", "plain"} THEN S1 ELSE Log(S1, [e |-> "op", i |-> i, v |-> IF cat = "temp" THEN "rvalue" ELSE cat])
           S3 == Log(S2, E(i, "ready"))
           S4 == Log(S3, E(i, "suspend"))
           T(S) == Take(S, [a |-> "Await", i |-> i, kind |-> kind, cat |-> cat, rd |-> rd, su |-> su, out |-> out])
           Others == {j \in Is : st[j] = "wait"}
       IN  CASE rd = "yes" -> T(Got(S3, i))
             [] rd = "throws" -> T(Thrown(S3, i, "ready"))
             [] su \in {"void", "true", "noop"} -> T([S4 EXCEPT !.st[i] = "wait"])
             [] su \in {"false", "self"} -> T(Got(S4, i))
             [] su = "throws" -> T(Thrown(S4, i, "suspend"))
             [] OTHER -> Others # {} /\ T(Got([S4 EXCEPT !.st[i] = "wait"], Min(Others)))
Resume(i) == st[i] = "wait" /\ Take(Got(S0, i), [a |-> "Resume", i |-> i])

Init == st = [i \in Is |-> "none"] /\ c = [i \in Is |-> NoC] /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E i \in Is, k \in Kinds, ca \in Cats, r \in Readys, s \in Susps, o \in Outs : Await(i, k, ca, r, s, o)
        \/ \E i \in Is : Resume(i)
Spec == Init /\ [][Next]_vars

Obs == [st |-> st]
TypeOK == \A i \in Is : st[i] \in {"none", "wait", "done"}
(* whoever is resumed was waiting, and continues once *)
ResumedOnce == [][\A i \in Is : st[i] = "done" => st'[i] = "done" /\ \A k \in 1..Len(ev') : ev'[k].i # i]_vars
OnlyItself == [][\A i \in Is : st'[i] # st[i] => lbl'.i = i \/ (lbl'.a = "Await" /\ lbl'.su = "other")]_vars
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
