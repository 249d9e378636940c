------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Linearizability of recorded concurrent histories: events                *)
(*   i c a r   client c sent the command line a, and will get the reply r  *)
(*   r c       the reply to the oldest outstanding command of c arrived    *)
(* Each command takes effect at one instant between its two events, those  *)
(* of one client in the order they were sent.  A configuration <<db, n>>   *)
(* is a store with the number n[c] of outstanding commands of each client  *)
(* that took effect; `confs` are all configurations the history so far     *)
(* allows.  It is rejected when there are none.                            *)
(***************************************************************************)
EXTENDS TraceData

VARIABLES t, i, pend, confs
vars == <<t, i, pend, confs>>

Clients == 1..8

Init == t \in DOMAIN T /\ i = 0 /\ pend = [c \in Clients |-> <<>>] /\ confs = {<<EmptyDb, [c \in Clients |-> 0]>>}

\* one more outstanding command takes effect
After(x, p) ==
  UNION {LET o == p[c][x[2][c] + 1]
         IN {<<db, [x[2] EXCEPT ![c] = @ + 1]>> : db \in Step(x[1], o.a, o.r)} : c \in {d \in Clients : x[2][d] < Len(p[d])}}

RECURSIVE Closure(_, _, _)
Closure(new, all, p) ==
  IF new = {} THEN all
  ELSE LET n == UNION {After(x, p) : x \in new} \ all IN Closure(n, all \cup n, p)

Reject == PrintT(<<"REJECT", t, i + 1>>)

Next ==
  \/ /\ i >= 0 /\ i < Len(T[t])
     /\ LET e == T[t][i + 1]
        IN IF e.k = "i"
             THEN /\ i' = i + 1
                  /\ pend' = [pend EXCEPT ![e.c] = Append(@, [a |-> Args(e), r |-> Rep(e.r)])]
                  /\ confs' = confs
             ELSE LET n == {<<x[1], [x[2] EXCEPT ![e.c] = @ - 1]>> : x \in {y \in Closure(confs, confs, pend) : y[2][e.c] > 0}}
                  IN IF n = {} THEN Reject /\ i' = -1 /\ confs' = {} /\ pend' = <<>>
                     ELSE i' = i + 1 /\ confs' = n /\ pend' = [pend EXCEPT ![e.c] = Tail(@)]
     /\ UNCHANGED t
  \/ /\ i = Len(T[t])
     /\ IF \A c \in Clients : pend[c] = <<>> THEN PrintT(<<"ACCEPT", t>>) ELSE Reject
     /\ i' = -1 /\ confs' = {} /\ pend' = <<>> /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
