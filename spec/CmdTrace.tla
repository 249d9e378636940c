------------------------------ MODULE CmdTrace ------------------------------
(***************************************************************************)
(* Validates recorded histories of one client that waits for every reply:  *)
(* each event is a command line with the reply it got.  `dbs` are all the   *)
(* stores the history so far may have left; a history is rejected at the    *)
(* first reply none of them explains.                                       *)
(***************************************************************************)
EXTENDS TraceData

VARIABLES t, i, dbs
vars == <<t, i, dbs>>

Init == t \in DOMAIN T /\ i = 0 /\ dbs = {EmptyDb}

Reject(e) == PrintT(<<"REJECT", t, i + 1>>)

Next ==
  \/ /\ i >= 0 /\ i < Len(T[t])
     /\ LET e == T[t][i + 1]
            n == UNION {Step(db, Args(e), Rep(e.r)) : db \in dbs}
        IN IF n = {} THEN Reject(e) /\ i' = -1 /\ dbs' = {} ELSE i' = i + 1 /\ dbs' = n
     /\ UNCHANGED t
  \/ /\ i = Len(T[t]) /\ PrintT(<<"ACCEPT", t>>) /\ i' = -1 /\ dbs' = {} /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
