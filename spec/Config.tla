------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration.  A document means nothing, if a load of it fails, or *)
(* the timeout it sets: a sign and quantities of units of time, or no      *)
(* quantity if it sets none.  A load replaces the configuration or fails   *)
(* and leaves it.                                                          *)
(***************************************************************************)
EXTENDS Bytes

Fails == [ok |-> FALSE]
Sets(neg, q) == [ok |-> TRUE, neg |-> neg, q |-> q]
None == Sets(FALSE, <<>>)

\* n * d for a small n
MagTimes(d, n) ==
  LET RECURSIVE Go(_, _, _)
      Go(k, c, acc) == IF k = 0 THEN (IF c = 0 THEN acc ELSE Go(0, c \div 10, <<c % 10>> \o acc))
                       ELSE LET s == d[k] * n + c IN Go(k - 1, s \div 10, <<s % 10>> \o acc)
  IN Strip(Go(Len(d), 0, <<>>))

Unit(u) ==
  CASE u = "ns" -> <<1>>
    [] u = "us" -> <<1>> \o Zeros(3)
    [] u = "ms" -> <<1>> \o Zeros(6)
    [] u = "s" -> <<1>> \o Zeros(9)
    [] u = "m" -> <<6>> \o Zeros(10)
    [] u = "h" -> <<3, 6>> \o Zeros(11)

RECURSIVE Nanos(_)
Nanos(q) == IF q = <<>> THEN <<0>> ELSE MagAdd(MagTimes(Unit(q[1][2]), q[1][1]), Nanos(Tail(q)))

Default == [neg |-> FALSE, d |-> <<5>> \o Zeros(9)]

\* the configuration is the timeout set, zero if there is none
Initial == [neg |-> FALSE, d |-> <<0>>]
Load(cfg, doc) == IF doc.ok THEN [neg |-> doc.neg /\ Nanos(doc.q) # <<0>>, d |-> Nanos(doc.q)] ELSE cfg
Timeout(cfg) == IF cfg.d = <<0>> THEN Default ELSE cfg

-----------------------------------------------------------------------------
(* some documents *)

Documents == <<
  [text |-> "default_timeout: 3s\n", doc |-> Sets(FALSE, <<<<3, "s">>>>)],
  [text |-> "default_timeout: 1h2m3s4ms5us6ns\npersistence: aof\n",
   doc |-> Sets(FALSE, <<<<1, "h">>, <<2, "m">>, <<3, "s">>, <<4, "ms">>, <<5, "us">>, <<6, "ns">>>>)],
  [text |-> "default_timeout: -250ms", doc |-> Sets(TRUE, <<<<250, "ms">>>>)],
  [text |-> "default_timeout: 0s\n", doc |-> None],
  [text |-> "persistence: rdb\n", doc |-> None],
  [text |-> "{}\n", doc |-> None],
  [text |-> "default_timeout: ~\npersistence: x\n", doc |-> None],
  [text |-> "default_timeout: 7s\n---\ndefault_timeout: 8s\n", doc |-> Sets(FALSE, <<<<7, "s">>>>)],
  [text |-> "", doc |-> Fails],
  [text |-> "default_timeout: soon\n", doc |-> Fails],
  [text |-> "default_timeout: 9s\npersistence: [a]\n", doc |-> Fails],
  [text |-> "default_timeout: 11s\npersistence: [a\n", doc |-> Fails],
  [text |-> "persistence: {a: b}\ndefault_timeout: 12s\n", doc |-> Fails],
  [text |-> "default_timeout: 13s\ndefault_timeout: 14s\n", doc |-> Fails],
  [text |-> "- default_timeout: 15s\n", doc |-> Fails] >>
=============================================================================
