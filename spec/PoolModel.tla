----------------------------- MODULE PoolModel ------------------------------
(***************************************************************************)
(* All behaviours of the execution queue for a few submitters and          *)
(* stoppers.  It is the code's protocol in more detail than Pool: adding   *)
(* an event takes a read lock, which waits for writers, and stopping a     *)
(* write lock, which waits for readers; the invariants and the liveness    *)
(* properties are C19 and C21, and every step refines one of Pool.         *)
(***************************************************************************)
EXTENDS Pool, TLC

CONSTANTS Events, Stoppers, Deadlines

VARIABLES s,       \* as in Pool, where "locked" events count as calling
          locked,  \* events whose submitter holds the read lock
          writer,  \* [x |-> no, waiting, holding, free]
          acc,     \* the events in the order they were accepted
          begun,   \* in the order they were begun
          exited   \* the worker returned
vars == <<s, locked, writer, acc, begun, exited>>

Init ==
  /\ s = Start(Events, Stoppers) /\ locked = {} /\ acc = <<>> /\ begun = <<>> /\ exited = FALSE
  /\ writer = [x \in Stoppers |-> "no"]

Writing == \E x \in Stoppers : writer[x] \in {"waiting", "holding"}

DoCall(e) == s' \in Call(s, e) /\ UNCHANGED <<locked, writer, acc, begun, exited>>
RLock(e) == s.ph[e] = "calling" /\ e \notin locked /\ ~Writing /\ locked' = locked \cup {e} /\ UNCHANGED <<s, writer, acc, begun, exited>>
DoEnqueue(e) ==
  /\ e \in locked /\ s' \in Enqueue(s) /\ s'.ph[e] = "queued"
  /\ locked' = locked \ {e} /\ acc' = Append(acc, e) /\ UNCHANGED <<writer, begun, exited>>
DoRefuse(e) == e \in locked /\ s' \in Refused(s, e) /\ locked' = locked \ {e} /\ UNCHANGED <<writer, acc, begun, exited>>
DoWithdraw(e) == e \in Deadlines /\ s' \in Withdraw(s) /\ s'.ph[e] # s.ph[e] /\ UNCHANGED <<locked, writer, acc, begun, exited>>
DoLate(e) == s' \in Late(s, e) /\ UNCHANGED <<locked, writer, acc, begun, exited>>
DoOwn(e) == s' \in Own(s, e) /\ UNCHANGED <<locked, writer, acc, begun, exited>>
DoBegin(e) == ~exited /\ s' \in Begin(s, e) /\ begun' = Append(begun, e) /\ UNCHANGED <<locked, writer, acc, exited>>
DoEnd(e) == s' \in End(s, e) /\ UNCHANGED <<locked, writer, acc, begun, exited>>
DoTake == ~exited /\ s' \in Take(s) /\ UNCHANGED <<locked, writer, acc, begun, exited>>
Exit == ~exited /\ s.closed /\ s.ch = <<>> /\ s.hand = 0 /\ s.run = 0 /\ exited' = TRUE /\ UNCHANGED <<s, locked, writer, acc, begun>>

DoStopCall(x) == s' \in StopCall(s, x) /\ writer' = [writer EXCEPT ![x] = "waiting"] /\ UNCHANGED <<locked, acc, begun, exited>>
WLock(x) ==
  /\ writer[x] = "waiting" /\ locked = {} /\ ~\E y \in Stoppers : writer[y] = "holding"
  /\ writer' = [writer EXCEPT ![x] = "holding"]
  /\ s' \in (IF s.closed THEN {s} ELSE Close(s))
  /\ UNCHANGED <<locked, acc, begun, exited>>
WUnlock(x) == writer[x] = "holding" /\ writer' = [writer EXCEPT ![x] = "free"] /\ UNCHANGED <<s, locked, acc, begun, exited>>
DoStopReturn(x) == writer[x] = "free" /\ exited /\ s' \in StopReturn(s, x) /\ UNCHANGED <<locked, writer, acc, begun, exited>>

Worker == DoTake \/ Exit \/ \E e \in Events : DoBegin(e) \/ DoEnd(e)
Submitter(e) == RLock(e) \/ DoEnqueue(e) \/ DoRefuse(e) \/ DoLate(e) \/ DoOwn(e)
Stopper(x) == WLock(x) \/ WUnlock(x) \/ DoStopReturn(x)

Next ==
  \/ Worker
  \/ \E e \in Events : DoCall(e) \/ DoWithdraw(e) \/ Submitter(e)
  \/ \E x \in Stoppers : DoStopCall(x) \/ Stopper(x)

Spec ==
  /\ Init /\ [][Next]_vars
  /\ WF_vars(Worker)
  /\ \A e \in Events : WF_vars(RLock(e)) /\ SF_vars(DoEnqueue(e)) /\ WF_vars(DoRefuse(e)) /\ WF_vars(DoLate(e)) /\ WF_vars(DoOwn(e))
  /\ \A x \in Stoppers : WF_vars(WLock(x)) /\ WF_vars(WUnlock(x)) /\ WF_vars(DoStopReturn(x))

Range(q) == {q[i] : i \in DOMAIN q}

\* C19
OnceEach == \A i, j \in DOMAIN begun : begun[i] = begun[j] => i = j
OneAtATime == Cardinality({e \in Events : s.ph[e] = "running"}) <= 1 /\ (s.run = 0 <=> \A e \in Events : s.ph[e] # "running")
\* begun in the order they were accepted, but for those withdrawn
InOrder == LET kept == SelectSeq(acc, LAMBDA e : e \in Range(begun)) IN kept = begun
AnsweredRan == \A e \in Events : s.ph[e] \in {"ran", "answered"} => e \in Range(begun)
NotExecuted == \A e \in Events : s.ph[e] \in {"refused", "withdrawn", "late"} => e \notin Range(begun)
\* C21
StoppedIsDone ==
  (\E x \in Stoppers : s.sp[x] = "returned") =>
    s.run = 0 /\ \A e \in Range(acc) : s.ph[e] \in {"ran", "answered", "withdrawn", "late"}
RefusedOnlyWhenStopped == \A e \in Events : s.ph[e] = "refused" => s.closed

Answered == \A e \in Events : (s.ph[e] = "calling") ~> (s.ph[e] \in {"answered", "refused", "late"})
StopsReturn == \A x \in Stoppers : (s.sp[x] = "called") ~> (s.sp[x] = "returned")

\* every step is one of Pool's, or changes nothing in it
Coarse ==
  [][s' = s \/ s' \in Hidden(s, TRUE)
       \/ \E e \in Events : s' \in Call(s, e) \cup Begin(s, e) \cup End(s, e) \cup Own(s, e) \cup Refused(s, e) \cup Late(s, e)
       \/ \E x \in Stoppers : s' \in StopCall(s, x) \cup StopReturn(s, x)]_vars
=============================================================================
