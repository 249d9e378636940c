------------------------------ MODULE PoolGen -------------------------------
(***************************************************************************)
(* Prints schedules of the execution queue for the driver to force on the  *)
(* code: c, hand over the next event; s, stop; e, let the event being      *)
(* executed end.  What happens unseen happens at once in between.          *)
(***************************************************************************)
EXTENDS Pool, TLC, IOUtils

N == atoi(IOEnv.EVENTS)
M == atoi(IOEnv.STOPS)

VARIABLES s, h
vars == <<s, h>>

\* the state when nothing unseen can happen any more; several submitters may be waiting, any may be the first
Settle(x) ==
  LET RECURSIVE Go(_)
      Go(y) == LET n == UNION ({Enqueue(y), Close(y), Take(y)} \cup {Begin(y, e) : e \in DOMAIN y.ph})
               IN IF n = {} THEN y ELSE Go(CHOOSE z \in n : TRUE)
  IN Go(x)

Init == s = Start(1..N, 1..M) /\ h = ""

First(f, w) == CHOOSE x \in DOMAIN f : f[x] = w /\ \A y \in DOMAIN f : f[y] = w => x <= y

Next ==
  \/ \E e \in DOMAIN s.ph : s.ph[e] = "new" /\ e = First(s.ph, "new") /\ s' \in {Settle(x) : x \in Call(s, e)} /\ h' = h \o "c"
  \/ \E x \in DOMAIN s.sp : s.sp[x] = "no" /\ x = First(s.sp, "no") /\ s' \in {Settle(y) : y \in StopCall(s, x)} /\ h' = h \o "s"
  \/ s.run # 0 /\ s' \in {Settle(x) : x \in End(s, s.run)} /\ h' = h \o "e"

Leaf == ~ENABLED Next => PrintT(<<"SCHEDULE", h>>)
=============================================================================
