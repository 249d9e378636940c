------------------------------ MODULE ConfGen -------------------------------
(***************************************************************************)
(* All histories of DEPTH loads of the documents of Config; TLC checks the *)
(* property on them and prints them for the driver.                        *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)

VARIABLES cfg, hist
vars == <<cfg, hist>>

Init == cfg = Initial /\ hist = <<>> /\ PrintT(<<"LINES", ToJson([i \in DOMAIN Documents |-> Documents[i].text])>>)

Next ==
  /\ Len(hist) < Depth
  /\ \E i \in DOMAIN Documents : cfg' = Load(cfg, Documents[i].doc) /\ hist' = Append(hist, i)

Script == Len(hist) = Depth => PrintT(<<"SCRIPT", ToJson(hist)>>)

\* the timeout in force is the one of the last document that could be loaded
Final(h) == LET good == {k \in DOMAIN h : Documents[h[k]].doc.ok} IN IF good = {} THEN 0 ELSE h[CHOOSE k \in good : \A j \in good : j <= k]
InForce ==
  LET l == Final(hist)
      q == IF l = 0 THEN <<>> ELSE Documents[l].doc.q
  IN IF Nanos(q) = <<0>> THEN Timeout(cfg) = Default ELSE Timeout(cfg) = [neg |-> Documents[l].doc.neg, d |-> Nanos(q)]

Spec == Init /\ [][Next]_vars
=============================================================================
