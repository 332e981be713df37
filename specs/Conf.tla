------------------------------- MODULE Conf -------------------------------
(* Shared by every specification: how the explored behaviour leaves TLC so that it can be replayed
   against the implementation.

   Every specification has, besides its state, two "last step" variables: lbl (the action just
   taken, with its arguments) and ev (the sequence of observable events that step caused), and a
   state-level operator giving the observable projection of the state.  lbl and ev are hidden from
   the state identity by VIEW, so they add no states.  EmitEdge, used from an ACTION_CONSTRAINT,
   prints every transition TLC generates; EmitInit, used from an INVARIANT, the initial states. *)
EXTENDS TLC, Json, Sequences, Integers

EmitEdge(from, to, l, e, o) ==
    PrintT("E@@" \o ToString(from) \o "@@" \o ToString(to) \o "@@" \o ToJson(l)
           \o "@@" \o ToJson(e) \o "@@" \o ToJson(o))

EmitInit(st, o) ==
    TLCGet("level") = 1 => PrintT("I@@" \o ToString(st) \o "@@" \o ToJson(o))

Range(f) == {f[x] : x \in DOMAIN f}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
SeqOfSet(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE <<Min(T)>> \o F[T \ {Min(T)}] IN F[S]
=============================================================================
