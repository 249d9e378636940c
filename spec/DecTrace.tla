------------------------------ MODULE DecTrace ------------------------------
(***************************************************************************)
(* Validates what decoding a stream gave, and what was recorded of it:     *)
(*   decode d recs fin  decoding the stream d gave the requests recs, each *)
(*       with its recorded text org, its arguments el and what decoding    *)
(*       the recorded text again gave (again, org2); fin tells how it      *)
(*       ended: "eof" between two requests, "cut" within one, "err" at     *)
(*       something malformed                                               *)
(*   log d log          the server was sent the stream d and recorded log  *)
(***************************************************************************)
EXTENDS Resp, Json, IOUtils, TLC

Data == JsonDeserialize(IOEnv.TRACE)
S == Data.s
T == Data.t

VARIABLES t, i
vars == <<t, i>>

Strs(ids) == [k \in DOMAIN ids |-> S[ids[k]]]

RECURSIVE Lines(_, _, _)
\* the recorded texts, each on lines of its own
Lines(s, reqs, k) == IF k > Len(reqs) THEN <<>> ELSE SubSeq(s, reqs[k].from, reqs[k].to) \o <<LF>> \o Lines(s, reqs, k + 1)

Ok(e) ==
  LET s == S[e.d]
      r == Decode(s)
  IN CASE e.e = "decode" ->
            /\ e.fin = (IF r.st = "bad" THEN "err" ELSE IF r.used < Len(s) THEN "cut" ELSE "eof")
            /\ Len(e.recs) = Len(r.reqs)
            /\ \A k \in DOMAIN r.reqs :
                 LET x == e.recs[k]
                     text == SubSeq(s, r.reqs[k].from, r.reqs[k].to)
                 IN /\ Strs(x.el) = r.reqs[k].args
                    /\ S[x.org] = text
                    /\ Strs(x.again) = r.reqs[k].args
                    /\ S[x.org2] = text
       [] e.e = "log" -> r.st = "more" /\ r.used = Len(s) /\ S[e.log] = Lines(s, r.reqs, 1)
       [] OTHER -> FALSE

Init == t \in DOMAIN T /\ i = 0

Next ==
  \/ /\ i >= 0 /\ i < Len(T[t])
     /\ IF Ok(T[t][i + 1]) THEN i' = i + 1 ELSE PrintT(<<"REJECT", t, i + 1>>) /\ i' = -1
     /\ UNCHANGED t
  \/ /\ i = Len(T[t]) /\ PrintT(<<"ACCEPT", t>>) /\ i' = -1 /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
