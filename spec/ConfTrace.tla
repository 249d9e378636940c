----------------------------- MODULE ConfTrace ------------------------------
(***************************************************************************)
(* Judges recorded histories of the configuration:                         *)
(*   load k / doc, err  a document was loaded, err tells if it failed      *)
(*   get neg d          the timeout in force, digits of nanoseconds        *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE).t

VARIABLES t, i, cfg
vars == <<t, i, cfg>>

Doc(e) == IF e.k > 0 THEN Documents[e.k].doc ELSE IF e.doc.ok THEN Sets(e.doc.neg, e.doc.q) ELSE Fails

Ok(e) ==
  CASE e.e = "load" -> e.err = ~Doc(e).ok
    [] e.e = "get" -> [neg |-> e.neg, d |-> e.d] = Timeout(cfg)
    [] OTHER -> FALSE

Init == t \in DOMAIN T /\ i = 0 /\ cfg = Initial

Next ==
  \/ /\ i >= 0 /\ i < Len(T[t])
     /\ LET e == T[t][i + 1]
        IN IF Ok(e) THEN i' = i + 1 /\ cfg' = (IF e.e = "load" THEN Load(cfg, Doc(e)) ELSE cfg)
           ELSE PrintT(<<"REJECT", t, i + 1>>) /\ i' = -1 /\ UNCHANGED cfg
     /\ UNCHANGED t
  \/ /\ i = Len(T[t]) /\ PrintT(<<"ACCEPT", t>>) /\ i' = -1 /\ UNCHANGED <<t, cfg>>

Spec == Init /\ [][Next]_vars
=============================================================================
