----------------------------- MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs of the execution queue: they have to be behaviours *)
(* of PoolObs.  Events: call x, acc x, begin x, end x, ret x how ("own",   *)
(* "refused", "late" or "other"), stop x, stopped x; anything else, such   *)
(* as "panic" or "hang", is no step.                                       *)
(***************************************************************************)
EXTENDS PoolObs, Sequences, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE).t

VARIABLES t, i, o
vars == <<t, i, o>>

Named(tr, es) == {tr[k].x : k \in {j \in DOMAIN tr : tr[j].e \in es}}
Deadlines(tr) == \E k \in DOMAIN tr : tr[k].e = "ret" /\ tr[k].how = "late"

Post(e, dl) ==
  CASE e.e = "call" -> OCall(o, e.x)
    [] e.e = "acc" -> OAccepted(o, e.x, dl)
    [] e.e = "begin" -> OBegin(o, e.x, dl)
    [] e.e = "end" -> OEnd(o, e.x)
    [] e.e = "ret" /\ e.how = "own" -> OOwn(o, e.x)
    [] e.e = "ret" /\ e.how = "refused" -> ORefused(o, e.x)
    [] e.e = "ret" /\ e.how = "late" -> OLate(o, e.x)
    [] e.e = "stop" -> OStop(o, e.x)
    [] e.e = "stopped" -> OStopped(o, e.x, dl)
    [] OTHER -> {}

Init ==
  /\ t \in DOMAIN T /\ i = 0
  /\ o = ObsStart(Named(T[t], {"call", "acc", "begin", "end", "ret"}), Named(T[t], {"stop", "stopped"}))

Reject == PrintT(<<"REJECT", t, i + 1>>) /\ i' = -1 /\ UNCHANGED o

Next ==
  \/ /\ i >= 0 /\ i < Len(T[t])
     /\ LET n == Post(T[t][i + 1], Deadlines(T[t]))
        IN IF n = {} THEN Reject ELSE i' = i + 1 /\ o' \in n
     /\ UNCHANGED t
  \/ /\ i = Len(T[t])
     /\ IF ObsDone(o) THEN PrintT(<<"ACCEPT", t>>) /\ i' = -1 /\ UNCHANGED o ELSE Reject
     /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
