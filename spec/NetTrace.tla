------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Validates recorded traffic of client connections, byte for byte:        *)
(*   send c d     the client of connection c sent the bytes d              *)
(*   recv c d     it received the bytes d                                  *)
(*   closed c     the server closed the connection                         *)
(*   gone c       the client hung up, having asked for nothing that writes  *)
(*   quiet        the driver waited: everything due has to be there        *)
(*   mem sent rss private  the server used rss kB and had mapped private   *)
(*                kB when sent kB had been sent to it                      *)
(*   busy c       the server executes the request of connection c          *)
(*   stop         the server was told to stop: a connection with nothing   *)
(*                but one request under way may now be closed or told      *)
(*                an error instead, and that request is not executed       *)
(*   exit code ms the server process ended ms after it was told to, or    *)
(*                after its last answer, if that came later               *)
(*   dead         it ended by itself                                       *)
(* A request counts as executed when its reply arrives; the driver sees to *)
(* it that requests of different connections in one trace either are not   *)
(* under way at the same time or name different keys.                      *)
(***************************************************************************)
EXTENDS Store, Resp, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
S == Data.s
T == Data.t

VARIABLES t, i, dbs, conns, stopped
vars == <<t, i, dbs, conns, stopped>>

\* in: received and not decoded; pend: requests without a reply; st: "open", "bad" (malformed), "err" (and told so), "closed"
\* late: the client sent more after something malformed, so that the notice may be lost
\* acc: its only request has been accepted for sure
New == [in |-> <<>>, pend |-> <<>>, out |-> <<>>, st |-> "open", late |-> FALSE, acc |-> FALSE]

Conn(cs, c) == IF c \in DOMAIN cs THEN cs[c] ELSE New
SetConn(cs, c, x) == (c :> x) @@ cs

None == [ok |-> FALSE, dbs |-> {}, c |-> New]

\* an empty request gets no reply
Sent(x, d) ==
  IF x.st # "open" THEN [x EXCEPT !.late = TRUE]
  ELSE LET s == x.in \o d
           r == Decode(s)
           args == [k \in DOMAIN r.reqs |-> r.reqs[k].args]
       IN [x EXCEPT !.in = SubSeq(s, r.used + 1, Len(s)),
                    !.pend = @ \o SelectSeq(args, LAMBDA a : a # <<>>),
                    !.st = IF r.st = "bad" THEN "bad" ELSE "open"]

RECURSIVE Received(_, _, _)
\* the replies in x.out from position j on
Received(x, ds, j) ==
  IF j > Len(x.out) THEN [ok |-> TRUE, dbs |-> ds, c |-> [x EXCEPT !.out = <<>>]]
  ELSE LET r == Reply(x.out, j)
       IN IF r.st = "more" THEN [ok |-> TRUE, dbs |-> ds, c |-> [x EXCEPT !.out = SubSeq(x.out, j, Len(x.out))]]
          ELSE IF r.st = "bad" THEN None
          ELSE IF x.pend # <<>>
            THEN LET n == UNION {Step(db, x.pend[1], r.rep) : db \in ds} \cup (IF stopped /\ ~x.acc /\ r.rep.k = "err" THEN ds ELSE {})
                 IN IF n = {} THEN None ELSE Received([x EXCEPT !.pend = Tail(@), !.acc = FALSE], n, r.next)
          ELSE IF x.st = "bad" /\ r.rep.k = "err" THEN Received([x EXCEPT !.st = "err"], ds, r.next)
          ELSE None

Closed(x) ==
  \/ x.st = "gone"
  \/ stopped /\ ~x.acc /\ x.out = <<>> /\ Len(x.pend) <= 1
  \/ x.pend = <<>> /\ x.out = <<>> /\ (x.st = "err" \/ (x.st = "bad" /\ x.late))

Settled(x) == x.pend = <<>> /\ x.out = <<>> /\ x.st \in {"open", "closed", "gone"}

\* kB of memory the server may use after `sent` kB were sent to it
MemBound(sent) == 300000 + 16 * sent
MappedBound(sent) == 400000 + 24 * sent

Init == t \in DOMAIN T /\ i = 0 /\ dbs = {EmptyDb} /\ conns = <<>> /\ stopped = FALSE

Ok(e) ==
  CASE e.e = "send" -> [ok |-> TRUE, dbs |-> dbs, cs |-> SetConn(conns, e.c, Sent(Conn(conns, e.c), S[e.d]))]
    [] e.e = "recv" -> LET x == Conn(conns, e.c)
                           r == IF x.st = "gone" THEN [ok |-> TRUE, dbs |-> dbs, c |-> x] ELSE Received([x EXCEPT !.out = @ \o S[e.d]], dbs, 1)
                       IN [ok |-> r.ok /\ x.st # "closed", dbs |-> r.dbs, cs |-> SetConn(conns, e.c, r.c)]
    [] e.e = "closed" -> LET x == Conn(conns, e.c)
                         IN [ok |-> Closed(x), dbs |-> dbs, cs |-> SetConn(conns, e.c, [x EXCEPT !.st = "closed", !.pend = <<>>])]
    [] e.e = "gone" -> [ok |-> TRUE, dbs |-> dbs, cs |-> SetConn(conns, e.c, [New EXCEPT !.st = "gone"])]
    [] e.e = "quiet" -> [ok |-> \A c \in DOMAIN conns : Settled(conns[c]), dbs |-> dbs, cs |-> conns]
    [] e.e = "stop" -> [ok |-> TRUE, dbs |-> dbs, cs |-> conns]
    [] e.e = "exit" -> [ok |-> stopped /\ e.code = 0 /\ e.ms <= 8000 /\ \A c \in DOMAIN conns : conns[c].st \in {"closed", "gone"}, dbs |-> dbs, cs |-> conns]
    [] e.e = "busy" -> LET x == Conn(conns, e.c)
                       IN [ok |-> TRUE, dbs |-> dbs, cs |-> SetConn(conns, e.c, [x EXCEPT !.acc = x.pend # <<>>])]
    [] e.e = "mem" -> [ok |-> e.rss <= MemBound(e.sent) /\ e.private <= MappedBound(e.sent), dbs |-> dbs, cs |-> conns]
    [] OTHER -> [ok |-> FALSE, dbs |-> dbs, cs |-> conns]

Next ==
  \/ /\ i >= 0 /\ i < Len(T[t])
     /\ LET r == Ok(T[t][i + 1])
        IN IF r.ok THEN i' = i + 1 /\ dbs' = r.dbs /\ conns' = r.cs
           ELSE PrintT(<<"REJECT", t, i + 1>>) /\ i' = -1 /\ dbs' = {} /\ conns' = <<>>
     /\ stopped' = (stopped \/ T[t][i + 1].e = "stop")
     /\ UNCHANGED t
  \/ /\ i = Len(T[t]) /\ PrintT(<<"ACCEPT", t>>) /\ i' = -1 /\ dbs' = {} /\ conns' = <<>> /\ UNCHANGED <<t, stopped>>

Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
