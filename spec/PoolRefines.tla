----------------------------- MODULE PoolRefines ----------------------------
(***************************************************************************)
(* Every behaviour of Pool, as far as it can be seen, is one of PoolObs:   *)
(* o follows what is seen of s, and a step of Pool which is no step of     *)
(* PoolObs sets `ok` to FALSE.  An acceptance may be seen some time after  *)
(* it happened, or never.                                                  *)
(***************************************************************************)
EXTENDS Pool, PoolObs, TLC

CONSTANTS Events, Stoppers, DL \* DL: events may be withdrawn

VARIABLES s, o, ok
vars == <<s, o, ok>>

Init == s = Start(Events, Stoppers) /\ o = ObsStart(Events, Stoppers) /\ ok = TRUE

Seen(ss, os) == s' \in ss /\ (IF os = {} THEN ok' = FALSE /\ o' = o ELSE ok' = TRUE /\ o' \in os)

\* handed over and accepted: also what is running, ran, was answered or withdrawn
Known(e) == s.ph[e] \notin {"new", "calling", "refused"}

Next ==
  /\ ok
  /\ \/ s' \in Hidden(s, DL) /\ UNCHANGED <<o, ok>>
     \/ \E e \in Events :
          \/ Seen(Call(s, e), OCall(o, e))
          \/ Seen(Begin(s, e), OBegin(o, e, DL))
          \/ Seen(End(s, e), OEnd(o, e))
          \/ Seen(Own(s, e), OOwn(o, e))
          \/ Seen(Refused(s, e), ORefused(o, e))
          \/ Seen(Late(s, e), OLate(o, e))
          \/ Known(e) /\ e \notin o.acc /\ Seen({s}, OAccepted(o, e, DL))
     \/ \E x \in Stoppers : Seen(StopCall(s, x), OStop(o, x)) \/ Seen(StopReturn(s, x), OStopped(o, x, DL))

Allowed == ok
Ends == Finished(s) => ObsDone(o)
=============================================================================
