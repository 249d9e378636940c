------------------------------- MODULE PoolObs ------------------------------
(***************************************************************************)
(* What C19 and C21 say about the execution queue, in terms of what can be *)
(* seen of it only, so that it holds for a queue of any capacity.          *)
(*   ph[e]    new, calling, running, ran, answered, refused, late          *)
(*   acc      the events known to be accepted                              *)
(*   first[e] those which were accepted before e was handed over, and have *)
(*            to begin before e does, or never                             *)
(*   never    the events which may not begin any more: called when it was  *)
(*            known that the queue refuses, overtaken, or left over when a *)
(*            stop returned                                                *)
(*   closed   an event was refused, or a stop returned                     *)
(*   sp[s]    no, called, returned                                         *)
(* A step is a function from states to sets of at most one state.          *)
(* PoolModel checks that all behaviours of Pool are allowed here.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

ObsStart(events, stoppers) ==
  [ph |-> [e \in events |-> "new"], acc |-> {}, first |-> [e \in events |-> {}], never |-> {}, run |-> 0, closed |-> FALSE,
   sp |-> [s \in stoppers |-> "no"]]

OIf(b, o) == IF b THEN {o} ELSE {}
Waiting(o) == {e \in DOMAIN o.ph : o.ph[e] = "calling"}

OCall(o, e) ==
  OIf(o.ph[e] = "new",
      [o EXCEPT !.ph[e] = "calling", !.first[e] = Waiting(o) \cap o.acc, !.never = IF o.closed THEN @ \cup {e} ELSE @])

\* it may have been begun, and more, before this is seen
OAccepted(o, e, dl) == OIf(o.ph[e] \notin {"new", "refused"} /\ (o.ph[e] = "calling" => e \notin o.never \/ dl), [o EXCEPT !.acc = @ \cup {e}])

\* `dl`: an event may be withdrawn when its deadline passes, and is overtaken then
OBegin(o, e, dl) ==
  LET over == {x \in o.first[e] : o.ph[x] = "calling"}
  IN OIf(/\ o.run = 0 /\ o.ph[e] = "calling" /\ e \notin o.never
         /\ over \subseteq o.never \/ dl,
         [o EXCEPT !.ph[e] = "running", !.run = e, !.never = @ \cup over])

OEnd(o, e) == OIf(o.run = e, [o EXCEPT !.ph[e] = "ran", !.run = 0])
OOwn(o, e) == OIf(o.ph[e] = "ran", [o EXCEPT !.ph[e] = "answered"])
ORefused(o, e) ==
  OIf(o.ph[e] = "calling" /\ e \notin o.acc /\ \E x \in DOMAIN o.sp : o.sp[x] # "no", [o EXCEPT !.ph[e] = "refused", !.closed = TRUE])
OLate(o, e) == OIf(o.ph[e] = "calling", [o EXCEPT !.ph[e] = "late"])
OStop(o, x) == OIf(o.sp[x] = "no", [o EXCEPT !.sp[x] = "called"])
OStopped(o, x, dl) ==
  OIf(o.sp[x] = "called" /\ o.run = 0 /\ (dl \/ o.acc \cap Waiting(o) = {}),
      [o EXCEPT !.sp[x] = "returned", !.closed = TRUE, !.never = @ \cup Waiting(o)])

ObsDone(o) ==
  /\ \A e \in DOMAIN o.ph : o.ph[e] \in {"new", "answered", "refused", "late"}
  /\ \A x \in DOMAIN o.sp : o.sp[x] \in {"no", "returned"}
  /\ o.run = 0
=============================================================================
