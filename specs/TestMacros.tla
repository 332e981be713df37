----------------------------- MODULE TestMacros -----------------------------
(* A test coroutine: a sequence of test macros, each with its condition holding or not. *)
EXTENDS Conf

CONSTANTS Checks, Tries, Throws, Misc, MaxLen

VARIABLES st, xf, failed, n, lbl, ev
vars == <<st, xf, failed, n, lbl, ev>>
vw   == <<st, xf, failed, n>>

(* st: on, left; xf: a failure is expected of the next check: none, Continue or Abort it then;
   inc: what is recorded *)
Out(m, c, inc, cont, evals, nx) ==
    /\ st = "on" /\ n < MaxLen /\ n' = n + 1
    /\ st' = IF cont THEN "on" ELSE "left"
    /\ xf' = nx
    /\ failed' = (failed \/ inc \in {"fail", "xpass"})
    /\ ev' = <<[e |-> "macro", inc |-> inc, cont |-> cont, evals |-> evals, ontime |-> TRUE]>>
    /\ lbl' = [a |-> "Do", m |-> m, c |-> c]
(* a check which holds or not; quits: leaves whatever is expected *)
Checked(m, c, ok, quits, evals) ==
    IF xf = "none" THEN Out(m, c, IF ok THEN "none" ELSE "fail", ok, evals, "none")
    ELSE Out(m, c, IF ok THEN "xpass" ELSE "xfail", xf = "Continue" /\ ~quits, evals, "none")

Check(m, ok) == Checked(m, IF ok THEN "holds" ELSE "no", ok, FALSE, 1)
(* the condition becomes true at once, within the timeout, some time after it, or never *)
Try(m, when) == ~failed /\ Checked(m, when, when \in {"now", "soon"}, when = "late", "*")
Throw(m, what) ==
    IF what \in {"right", "derived"} THEN Out(m, what, "none", TRUE, 1, xf)
    ELSE Out(m, what, IF xf = "none" THEN "fail" ELSE "xfail", FALSE, 1, "none")
Fail == Checked("fail", "", FALSE, TRUE, 1)
Skip == Out("skip", "", "skip", FALSE, 1, xf)
Expect(mode) == IF xf = "none" THEN Out("expect", mode, "none", TRUE, 1, mode) ELSE Out("expect", mode, "fail", FALSE, 1, xf)

Init == st = "on" /\ xf = "none" /\ failed = FALSE /\ n = 0 /\ lbl = [a |-> "Init"] /\ ev = <<>>
Next == \/ \E m \in Checks, ok \in BOOLEAN : Check(m, ok)
        \/ \E m \in Tries, w \in {"now", "soon", "late", "never"} : Try(m, w)
        \/ \E m \in Throws, w \in {"right", "derived", "other", "nonstd", "none"} : Throw(m, w)
        \/ "fail" \in Misc /\ Fail
        \/ "skip" \in Misc /\ Skip
        \/ "expect" \in Misc /\ \E mode \in {"Continue", "Abort"} : Expect(mode)
Spec == Init /\ [][Next]_vars

Obs == [st |-> st, failed |-> failed]
TypeOK == n <= MaxLen
LeftMeans == \A k \in 1..Len(ev) : ev[k].inc = "fail" => st = "left"
NothingHidden == \A k \in 1..Len(ev) : ev[k].inc = "none" => st = "on"
Emit == EmitEdge(vw, vw', lbl', ev', Obs')
Begin == EmitInit(vw, Obs)
=============================================================================
