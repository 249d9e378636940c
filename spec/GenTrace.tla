------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* Judges what the generator of the command table did:                     *)
(*   gen   file, lines   it was run on a file; then                        *)
(*         exit          its exit status                                   *)
(*         made          the files written                                 *)
(*         kept          nothing else of the directory changed             *)
(*         valid         what was generated is a Go file                   *)
(*         pairs         the names and functions it registers              *)
(*   tree  pairs         what is generated from the handlers of the tree   *)
(*         files         their lines                                       *)
(*         committed     what the committed generated files register       *)
(*         known, unknown  names the server does and does not know         *)
(***************************************************************************)
EXTENDS GenTable, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
S == Data.s
T == Data.t

Strs(ids) == [k \in DOMAIN ids |-> S[ids[k]]]
Pairs(ps) == [k \in DOMAIN ps |-> <<S[ps[k][1]], S[ps[k][2]]>>]
BagOf(q) == [x \in ToSet(q) |-> Cardinality({k \in DOMAIN q : q[k] = x})]

Ok(e) ==
  CASE e.e = "gen" ->
         LET name == S[e.file]
         IN /\ e.exit = 0
            /\ e.kept
            /\ IF IsSource(name)
               THEN /\ e.valid
                    /\ Strs(e.made) = <<Generated(name)>>
                    /\ BagOf(Pairs(e.pairs)) = BagOf(Handlers(Strs(e.lines)))
               ELSE e.made = <<>>
    [] e.e = "tree" ->
         LET want == UNION {ToSet(Handlers(Strs(f))) : f \in ToSet(e.files)}
             names == {p[1] : p \in want}
         IN /\ ToSet(Pairs(e.pairs)) = want
            /\ ToSet(Pairs(e.committed)) = want
            /\ Len(e.pairs) = Cardinality(want) /\ Len(e.committed) = Cardinality(want)
            /\ Cardinality(names) = Cardinality(want)
            /\ names \subseteq {Lower(x) : x \in ToSet(Strs(e.known))}
            /\ {Lower(x) : x \in ToSet(Strs(e.known))} \subseteq names
            /\ \A x \in ToSet(Strs(e.unknown)) : Lower(x) \notin names
    [] OTHER -> FALSE

VARIABLES t, i
vars == <<t, i>>

Init == t \in DOMAIN T /\ i = 0

Next ==
  \/ /\ i >= 0 /\ i < Len(T[t])
     /\ IF Ok(T[t][i + 1]) THEN i' = i + 1 ELSE PrintT(<<"REJECT", t, i + 1>>) /\ i' = -1
     /\ UNCHANGED t
  \/ /\ i = Len(T[t]) /\ PrintT(<<"ACCEPT", t>>) /\ i' = -1 /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
