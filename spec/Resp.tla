-------------------------------- MODULE Resp --------------------------------
(***************************************************************************)
(* The wire format: Decode tells which requests a byte stream holds, and   *)
(* whether it goes on, waits for more or is malformed; ReadReply does the  *)
(* same for one reply.                                                     *)
(***************************************************************************)
EXTENDS Bytes

\* the position of the first LF from i on, 0 if there is none
RECURSIVE LFrom(_, _)
LFrom(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = LF THEN i ELSE LFrom(s, i + 1)

More == [st |-> "more"]
Bad == [st |-> "bad"]

\* a length: decimal digits up to 2^31 - 1, or -1.  [ok, n], very large ones are Big
MaxLen31 == <<2,1,4,7,4,8,3,6,4,7>>
LengthOf(b) ==
  IF b = <<45, 49>> THEN [ok |-> TRUE, n |-> -1]
  ELSE IF b = <<>> \/ \E i \in DOMAIN b : ~IsDigit(b[i]) THEN [ok |-> FALSE, n |-> 0]
  ELSE LET i == Norm(FALSE, [k \in DOMAIN b |-> b[k] - 48])
       IN [ok |-> ~MagLess(MaxLen31, i.d), n |-> Clamp(i)]

\* the line that starts at i: [st, next, c, text] with its first character and the text behind it
Line(s, i) ==
  LET j == LFrom(s, i)
  IN IF j = 0 THEN More
     ELSE IF j - i < 2 \/ s[j - 1] # CR THEN Bad
     ELSE [st |-> "ok", next |-> j + 1, c |-> s[i], text |-> SubSeq(s, i + 1, j - 2)]

\* n bytes and CRLF at i
Blob(s, i, n) ==
  IF Len(s) < i + n + 1 THEN More
  ELSE IF s[i + n] # CR \/ s[i + n + 1] # LF THEN Bad
  ELSE [st |-> "ok", next |-> i + n + 2, text |-> SubSeq(s, i, i + n - 1)]

-----------------------------------------------------------------------------
(* requests *)

PingLine == <<80, 73, 78, 71>>

\* a reader of elements: at position i, rem to come, args so far; st is "go" until something ends it.
\* One step reads one element; elements of nested arrays count like those of the outer one.
ReadElement(s, x) ==
  IF x.st # "go" \/ x.rem = 0 THEN x
  ELSE LET l == Line(s, x.i)
           Stop(st) == [x EXCEPT !.st = st]
           Take(next, text) == [x EXCEPT !.i = next, !.rem = @ - 1, !.args = Append(@, text)]
       IN IF l.st # "ok" THEN Stop(l.st)
          ELSE CASE l.c \in {43, 45, 58} -> Take(l.next, l.text)
                 [] l.c = 36 -> LET n == LengthOf(l.text)
                                IN IF ~n.ok \/ n.n < 0 THEN Stop("bad")
                                   ELSE LET b == Blob(s, l.next, n.n)
                                        IN IF b.st # "ok" THEN Stop(b.st) ELSE Take(b.next, b.text)
                 [] l.c = 42 -> LET n == LengthOf(l.text)
                                IN IF ~n.ok THEN Stop("bad") ELSE [x EXCEPT !.i = l.next, !.rem = Min2(@ - 1 + Max2(n.n, 0), 1000000000)]
                 [] OTHER -> IF <<l.c>> \o l.text = PingLine THEN Take(l.next, PingLine) ELSE Stop("bad")

RECURSIVE Elements(_, _)
\* as many steps as elements are due now, and again
Elements(s, x) ==
  IF x.st # "go" THEN [st |-> x.st]
  ELSE IF x.rem = 0 THEN [st |-> "req", next |-> x.i, args |-> x.args]
  ELSE LET n == Min2(x.rem, Len(s))
       IN Elements(s, IF n <= 4 THEN ReadElement(s, x) ELSE FoldLeft(LAMBDA y, k : ReadElement(s, y), x, [k \in 1..n |-> k]))

\* one request at i: [st |-> "req", next, args], or "more", or "bad"
Request(s, i) == Elements(s, [st |-> "go", i |-> i, rem |-> 1, args |-> <<>>])

\* all requests of a stream: [reqs, st, used]; st is "more" or "bad", used how many bytes the requests take
Decode(s) ==
  LET RECURSIVE Go(_, _)
      Go(i, acc) == LET r == IF i > Len(s) THEN More ELSE Request(s, i)
                    IN IF r.st = "req" THEN Go(r.next, Append(acc, [args |-> r.args, from |-> i, to |-> r.next - 1]))
                       ELSE [reqs |-> acc, st |-> r.st, used |-> i - 1]
  IN Go(1, <<>>)

\* the canonical text of a request
Encode(args) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(args) THEN <<>> ELSE <<36>> \o NatText(Len(args[i])) \o CRLF \o args[i] \o CRLF \o Go(i + 1)
  IN <<42>> \o NatText(Len(args)) \o CRLF \o Go(1)

-----------------------------------------------------------------------------
(* replies: values as in Store.tla *)

Canonical(b) == b = <<48>> \/ (b # <<>> /\ b[1] # 48 /\ \A i \in DOMAIN b : IsDigit(b[i]))
CanonicalInt(b) == IsInt64(b) /\ b = IText(RawInt(b))

\* no status, error or integer holds CR or LF
Clean(b) == \A i \in DOMAIN b : b[i] # CR /\ b[i] # LF

RECURSIVE Reply(_, _), Replies(_, _, _, _)
\* [st |-> "ok", next, rep], or "more", or "bad"
Reply(s, i) ==
  LET l == Line(s, i)
      Val(x) == [st |-> "ok", next |-> l.next, rep |-> x]
  IN IF l.st # "ok" THEN l
     ELSE CASE l.c = 43 -> IF Clean(l.text) THEN Val([k |-> "status", v |-> l.text]) ELSE Bad
            [] l.c = 45 -> IF Clean(l.text) THEN Val([k |-> "err", v |-> l.text]) ELSE Bad
            [] l.c = 58 -> IF CanonicalInt(l.text) THEN Val([k |-> "int", v |-> l.text]) ELSE Bad
            [] l.c = 36 -> IF l.text = <<45, 49>> THEN Val([k |-> "nil"])
                           ELSE IF ~Canonical(l.text) \/ ~LengthOf(l.text).ok THEN Bad
                           ELSE LET b == Blob(s, l.next, LengthOf(l.text).n)
                                IN IF b.st # "ok" THEN b ELSE [st |-> "ok", next |-> b.next, rep |-> [k |-> "bulk", v |-> b.text]]
            [] l.c = 42 -> IF ~Canonical(l.text) \/ ~LengthOf(l.text).ok THEN Bad ELSE Replies(s, l.next, LengthOf(l.text).n, <<>>)
            [] OTHER -> Bad

Replies(s, i, n, acc) ==
  IF n = 0 THEN [st |-> "ok", next |-> i, rep |-> [k |-> "arr", v |-> acc]]
  ELSE IF i > Len(s) THEN More
  ELSE LET r == Reply(s, i)
       IN IF r.st # "ok" THEN r ELSE Replies(s, r.next, n - 1, Append(acc, r.rep))
=============================================================================
