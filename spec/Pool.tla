-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The execution queue: submitters hand events over, one worker executes   *)
(* them, stoppers end it.  A state is a record, and the steps are functions *)
(* from states to states, so that Pool can be explored (PoolModel) and     *)
(* compared with what C19 and C21 say (PoolObs).                           *)
(*   ph[e]   new, calling (handed over, neither accepted nor refused yet), *)
(*           queued, taken, running, ran, answered, refused, withdrawn, late      *)
(*           (withdrawn and told so)                                       *)
(*   ch      the accepted events not begun yet                             *)
(*   hand    the event the worker took and did not begin yet, 0 if none    *)
(*   run     the event being executed, 0 if none                           *)
(*   closed  no event is accepted any more                                 *)
(*   sp[s]   no, called, returned                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Cap \* accepted events wait in a channel of this capacity

Start(events, stoppers) ==
  [ph |-> [e \in events |-> "new"], ch |-> <<>>, hand |-> 0, run |-> 0, closed |-> FALSE, sp |-> [s \in stoppers |-> "no"]]

\* what happens unseen

Enqueue(s) == {[s EXCEPT !.ph[e] = "queued", !.ch = Append(@, e)] : e \in {x \in DOMAIN s.ph : s.ph[x] = "calling" /\ ~s.closed /\ Len(s.ch) < Cap}}

Close(s) == IF ~s.closed /\ \E x \in DOMAIN s.sp : s.sp[x] = "called" THEN {[s EXCEPT !.closed = TRUE]} ELSE {}

\* the worker takes an event, or skips one that was withdrawn
Take(s) ==
  IF s.run # 0 \/ s.hand # 0 \/ s.ch = <<>> THEN {}
  ELSE IF s.ph[Head(s.ch)] = "queued" THEN {[s EXCEPT !.ch = Tail(@), !.hand = Head(s.ch), !.ph[Head(s.ch)] = "taken"]}
  ELSE {[s EXCEPT !.ch = Tail(@)]}

\* a submitter withdraws an event that was not begun after its deadline
Withdraw(s) == {[s EXCEPT !.ph[e] = "withdrawn"] : e \in {x \in DOMAIN s.ph : s.ph[x] = "queued"}}

Hidden(s, deadlines) == Enqueue(s) \cup Close(s) \cup Take(s) \cup (IF deadlines THEN Withdraw(s) ELSE {})

\* what is seen

If(b, s) == IF b THEN {s} ELSE {}

Call(s, e) == If(s.ph[e] = "new", [s EXCEPT !.ph[e] = "calling"])
Accepted(s, e) == If(s.ph[e] \notin {"new", "calling", "refused"}, s)
Begin(s, e) == If(s.run = 0 /\ s.hand = e, [s EXCEPT !.ph[e] = "running", !.run = e, !.hand = 0])
End(s, e) == If(s.run = e, [s EXCEPT !.ph[e] = "ran", !.run = 0])
Own(s, e) == If(s.ph[e] = "ran", [s EXCEPT !.ph[e] = "answered"])
Refused(s, e) == If(s.ph[e] = "calling" /\ s.closed, [s EXCEPT !.ph[e] = "refused"])
Late(s, e) == If(s.ph[e] = "withdrawn", [s EXCEPT !.ph[e] = "late"])
StopCall(s, x) == If(s.sp[x] = "no", [s EXCEPT !.sp[x] = "called"])
StopReturn(s, x) == If(s.sp[x] = "called" /\ s.closed /\ s.run = 0 /\ s.hand = 0 /\ s.ch = <<>>, [s EXCEPT !.sp[x] = "returned"])

Finished(s) ==
  /\ \A e \in DOMAIN s.ph : s.ph[e] \in {"new", "answered", "refused", "late"}
  /\ \A x \in DOMAIN s.sp : s.sp[x] \in {"no", "returned"}
  /\ s.run = 0 /\ s.hand = 0
=============================================================================
