----------------------------- MODULE TraceData -----------------------------
(***************************************************************************)
(* A trace file: s, the byte strings, and t, the traces, where strings are *)
(* numbers of s.                                                           *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
S == Data.s
T == Data.t

Args(e) == [i \in DOMAIN e.a |-> S[e.a[i]]]

RECURSIVE Rep(_)
Rep(r) ==
  CASE r[1] = "b" -> [k |-> "bulk", v |-> S[r[2]]]
    [] r[1] = "i" -> [k |-> "int", v |-> S[r[2]]]
    [] r[1] = "+" -> [k |-> "status", v |-> S[r[2]]]
    [] r[1] = "-" -> [k |-> "err", v |-> S[r[2]]]
    [] r[1] = "n" -> [k |-> "nil"]
    [] r[1] = "a" -> [k |-> "arr", v |-> [i \in DOMAIN r[2] |-> Rep(r[2][i])]]
    \* no reply, or one that is no RESP value
    [] OTHER -> [k |-> "none"]
=============================================================================
