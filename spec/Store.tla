------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The data commands of godis.  The store is a function from key names to  *)
(* values; Outs(db, a) is the set of outcomes [db, r] the command line a    *)
(* may have on db, with r an expectation of the reply.  Step(db, a, rep) is *)
(* the set of stores that a may leave behind if it was answered with rep.   *)
(***************************************************************************)
EXTENDS Bytes, Glob

-----------------------------------------------------------------------------
(* replies *)

ErrR        == [k |-> "err"]
NilR        == [k |-> "nil"]
StatusR(b)  == [k |-> "status", v |-> b]
OkR         == StatusR(<<79,75>>)
IntR(i)     == [k |-> "int", v |-> IText(i)]
NatR(n)     == IntR(FromNat(n))
BulkR(b)    == [k |-> "bulk", v |-> b]
NumR(f)     == [k |-> "num", v |-> f]       \* a bulk string with a number of that value
SumR(a, b)  == [k |-> "sum", v |-> <<a, b>>] \* a bulk string with the sum of two numbers
ArrR(s)     == [k |-> "arr", v |-> s]       \* these replies in this order
BulksR(s)   == ArrR([i \in DOMAIN s |-> BulkR(s[i])])
SetR(s)     == [k |-> "set", v |-> s]       \* an array of these bulk strings in any order
SomeR(s)    == [k |-> "some", v |-> s]      \* an array of some of these
BagR(s)     == [k |-> "bag", v |-> s]       \* the same with repetitions
MapR(f)     == [k |-> "map", v |-> f]       \* an array of field, value pairs in any order

\* rep is [k, v]: "status", "err", "int", "bulk", "nil", or "arr" with a sequence of replies
Ran(s) == {s[i] : i \in DOMAIN s}
AllBulk(s) == \A i \in DOMAIN s : s[i].k = "bulk"
Vals(s) == [i \in DOMAIN s |-> s[i].v]

MatchOne(x, rep) ==
  CASE x.k = "num" -> rep.k = "bulk" /\ LET p == ParseFloat(rep.v) IN p.ok /\ ~p.nan /\ p.v = x.v
    [] x.k = "sum" -> rep.k = "bulk" /\ LET p == ParseFloat(rep.v) IN p.ok /\ ~p.nan /\ Nearly(p.v, x.v[1], x.v[2])
    [] x.k \in {"err", "nil"} -> rep.k = x.k
    [] OTHER -> rep.k = x.k /\ rep.v = x.v

Match(x, rep) ==
  CASE x.k = "arr" -> rep.k = "arr" /\ Len(rep.v) = Len(x.v) /\ \A i \in DOMAIN x.v : MatchOne(x.v[i], rep.v[i])
    [] x.k = "set" -> /\ rep.k = "arr" /\ Len(rep.v) = Cardinality(x.v)
                      /\ AllBulk(rep.v) /\ Ran(Vals(rep.v)) = x.v
    [] x.k = "some" -> /\ rep.k = "arr" /\ AllBulk(rep.v) /\ Len(rep.v) = Cardinality(Ran(Vals(rep.v)))
                       /\ Ran(Vals(rep.v)) \subseteq x.v
    [] x.k = "bag" -> /\ rep.k = "arr" /\ Len(rep.v) = Len(x.v) /\ AllBulk(rep.v)
                      /\ LET r == Vals(rep.v)
                             Cnt(s, y) == Len(SelectSeq(s, LAMBDA z : z = y))
                         IN Ran(r) = Ran(x.v) /\ \A y \in Ran(r) : Cnt(r, y) = Cnt(x.v, y)
    [] x.k = "map" -> /\ rep.k = "arr" /\ Len(rep.v) = 2 * Cardinality(DOMAIN x.v) /\ AllBulk(rep.v)
                      /\ LET n == Len(rep.v) \div 2
                         IN /\ {rep.v[2 * i - 1].v : i \in 1..n} = DOMAIN x.v
                            /\ \A i \in 1..n : rep.v[2 * i].v = x.v[rep.v[2 * i - 1].v]
    [] OTHER -> MatchOne(x, rep)

-----------------------------------------------------------------------------
(* the store *)

EmptyDb == [x \in {} |-> x]

Typ(db, k) == IF k \in DOMAIN db THEN db[k].t ELSE "none"
Drop(db, k) == [x \in DOMAIN db \ {k} |-> db[x]]
Put(db, k, t, v) == IF k \in DOMAIN db THEN [db EXCEPT ![k] = [t |-> t, v |-> v]]
                    ELSE (k :> [t |-> t, v |-> v]) @@ db

\* a container without elements does not exist
PutList(db, k, s) == IF s = <<>> THEN Drop(db, k) ELSE Put(db, k, "list", s)
PutSet(db, k, s)  == IF s = {} THEN Drop(db, k) ELSE Put(db, k, "set", s)
PutHash(db, k, f) == IF DOMAIN f = {} THEN Drop(db, k) ELSE Put(db, k, "hash", f)
PutZSet(db, k, f) == IF DOMAIN f = {} THEN Drop(db, k) ELSE Put(db, k, "zset", f)

Value(db, k, empty) == IF k \in DOMAIN db THEN db[k].v ELSE empty
Set0(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f

\* g with the values of f instead of its own
Over(f, g) == [x \in DOMAIN f \union DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]

Out(db, r) == {[db |-> db, r |-> r]}
Refuse(db) == Out(db, ErrR)

\* k has to be missing or of type t
OfType(db, k, t, missing, present) ==
  LET x == Typ(db, k)
  IN IF x = "none" THEN missing ELSE IF x = t THEN present ELSE Refuse(db)

\* string, list, setIfNotExists, sortedSet, hashTable, none
TypeName == [string |-> <<115,116,114,105,110,103>>, list |-> <<108,105,115,116>>, set |-> <<115,101,116,73,102,78,111,116,69,120,105,115,116,115>>,
             zset |-> <<115,111,114,116,101,100,83,101,116>>, hash |-> <<104,97,115,104,84,97,98,108,101>>, none |-> <<110,111,110,101>>]

-----------------------------------------------------------------------------
(* strings and counters *)

\* an even number of arguments from i on: the last value of each name wins
Pairs(db, a, i) ==
  FoldLeft(LAMBDA f, j : Set0(f, a[i + 2 * j - 2], a[i + 2 * j - 1]), EmptyDb, [j \in 1..((Len(a) - i + 1) \div 2) |-> j])

MSetOuts(db, a) ==
  LET f == Pairs(db, a, 2)
  IN Out(Over([k \in DOMAIN f |-> [t |-> "string", v |-> f[k]]], db), OkR)

AddTo(db, k, i) ==
  OfType(db, k, "string",
    Out(Put(db, k, "string", IText(i)), IntR(i)),
    IF ~IsInt64(db[k].v) THEN Refuse(db)
    ELSE LET s == IAdd(RawInt(db[k].v), i)
         IN IF Fits64(s) THEN Out(Put(db, k, "string", IText(s)), IntR(s)) ELSE Refuse(db))

GetR(db, k) == IF Typ(db, k) = "string" THEN BulkR(db[k].v) ELSE NilR

-----------------------------------------------------------------------------
(* lists *)

\* zero-based bounds as given, negative ones count from the end: [lo, hi], empty if lo > hi
Bounds(n, start, stop) ==
  LET s == IF start < 0 THEN Max2(start + n, 0) ELSE start
      e == IF stop < 0 THEN stop + n ELSE Min2(stop, n - 1)
  IN [lo |-> s, hi |-> e]

Slice(s, b) == IF b.lo > b.hi THEN <<>> ELSE SubSeq(s, b.lo + 1, b.hi + 1)

ListPush(db, k, new, front) ==
  LET all(old) == IF front THEN Reverse(new) \o old ELSE old \o new
      s == all(Value(db, k, <<>>))
      o == Out(Put(db, k, "list", s), NatR(Len(s)))
  IN OfType(db, k, "list", o, o)

ListPop(db, k, n, front) ==
  OfType(db, k, "list", Out(db, NilR),
    LET s == db[k].v
        m == Min2(n, Len(s))
        got == IF front THEN SubSeq(s, 1, m) ELSE Reverse(SubSeq(s, Len(s) - m + 1, Len(s)))
        rest == IF front THEN SubSeq(s, m + 1, Len(s)) ELSE SubSeq(s, 1, Len(s) - m)
    IN Out(PutList(db, k, rest), BulksR(got)))

ListIndex(s, i) == IF i < 0 THEN i + Len(s) + 1 ELSE i + 1   \* one-based

ListRem(db, k, n, v) ==
  OfType(db, k, "list", Out(db, NatR(0)),
    LET s == db[k].v
        hit == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i] = v)
        m == IF n = 0 THEN Len(hit) ELSE Min2(IF n < 0 THEN -n ELSE n, Len(hit))
        gone == IF n < 0 THEN SubSeq(hit, Len(hit) - m + 1, Len(hit)) ELSE SubSeq(hit, 1, m)
        set == Ran(gone)
        keep == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : i \notin set)
    IN Out(PutList(db, k, [i \in DOMAIN keep |-> s[keep[i]]]), NatR(m)))

ListInsert(db, k, where, pivot, v) ==
  OfType(db, k, "list", Refuse(db),
    LET s == db[k].v
        hit == {i \in DOMAIN s : s[i] = pivot}
        p == CHOOSE i \in hit : \A j \in hit : i <= j
        at == IF where = "before" THEN p - 1 ELSE p
    IN IF hit = {} THEN Refuse(db)
       ELSE Out(Put(db, k, "list", SubSeq(s, 1, at) \o <<v>> \o SubSeq(s, at + 1, Len(s))), NatR(Len(s) + 1)))

-----------------------------------------------------------------------------
(* sets *)

RestSet(a, i) == {a[j] : j \in i..Len(a)}

SetAlgebra(op, sets) ==   \* a non-empty sequence of sets
  CASE op = "diff"  -> {x \in sets[1] : \A i \in 2..Len(sets) : x \notin sets[i]}
    [] op = "inter" -> {x \in sets[1] : \A i \in 2..Len(sets) : x \in sets[i]}
    [] OTHER        -> UNION Ran(sets)

AlgebraOuts(db, op, keys, store, dest) ==
  IF \E i \in DOMAIN keys : Typ(db, keys[i]) \notin {"none", "set"} THEN Refuse(db)
  ELSE LET r == IF op = "union" THEN UNION {Value(db, k, {}) : k \in Ran(keys)}
                ELSE SetAlgebra(op, [i \in DOMAIN keys |-> Value(db, keys[i], {})])
       IN IF store THEN Out(PutSet(db, dest, r), NatR(Cardinality(r))) ELSE Out(db, SetR(r))

SPopCount(db, k, n) == Min2(Max2(n, 0), Cardinality(db[k].v))

SMoveOuts(db, src, dst, v) ==
  OfType(db, src, "set", Out(db, NatR(0)),
    IF Typ(db, dst) \notin {"none", "set"} THEN Refuse(db)
    ELSE IF v \notin db[src].v THEN Out(db, NatR(0))
    ELSE LET d1 == PutSet(db, src, db[src].v \ {v})
         IN Out(PutSet(d1, dst, Value(d1, dst, {}) \union {v}), NatR(1)))

-----------------------------------------------------------------------------
(* hashes: a field holds a text, f marks the result of HINCRBYFLOAT *)

Field(b) == [b |-> b, f |-> FALSE]
Texts(h) == [x \in DOMAIN h |-> h[x].b]

MaxNumLen == 350
FieldInt(x) == ~x.f /\ Len(x.b) <= MaxNumLen /\ IsInt64(x.b)
FieldFloat(x) == x.f \/ (Len(x.b) <= MaxNumLen /\ ~IsInt64(x.b)
                          /\ LET p == ParseFloat(x.b) IN p.ok /\ ~p.nan /\ p.v.inf = 0)

HSetOuts(db, a, reply) ==
  LET k == a[2]
      f == Pairs(db, a, 3)
      o == Out(Put(db, k, "hash", Over([x \in DOMAIN f |-> Field(f[x])], Value(db, k, EmptyDb))), reply)
  IN OfType(db, k, "hash", o, o)

HIncrOuts(db, k, fld, i) ==
  LET h == Value(db, k, EmptyDb)
      Done(s) == Out(PutHash(db, k, Set0(h, fld, Field(IText(s)))), IntR(s))
      Sum(x) == LET s == IAdd(x, i) IN IF Fits64(s) THEN Done(s) ELSE Refuse(db)
      o == IF fld \notin DOMAIN h THEN Done(i)
           ELSE IF FieldInt(h[fld]) THEN Sum(RawInt(h[fld].b))
           \* a float that happens to read like an integer may count as one or not
           ELSE IF h[fld].f /\ IsInt64(h[fld].b) THEN Refuse(db) \union Sum(RawInt(h[fld].b))
           ELSE Refuse(db)
  IN OfType(db, k, "hash", o, o)

\* plain decimal text of a finite number
FText(x) ==
  LET d == PadL(x.d, x.e + 1)
      n == Len(d)
      c == [i \in 1..n |-> d[i] + 48]
  IN (IF x.neg THEN <<45>> ELSE <<>>)
     \o (IF x.e = 0 THEN c ELSE SubSeq(c, 1, n - x.e) \o <<46>> \o SubSeq(c, n - x.e + 1, n))

\* text is how the server writes the sum s
HIncrFloatOuts(db, k, fld, v, Text(_)) ==
  LET h == Value(db, k, EmptyDb)
      Done(x) == IF Beyond(FAdd(x, v)) THEN Refuse(db)
                 ELSE Out(PutHash(db, k, Set0(h, fld, [b |-> Text(FAdd(x, v)), f |-> TRUE])), SumR(x, v))
      o == IF fld \notin DOMAIN h THEN Done(ZeroF)
           ELSE IF FieldFloat(h[fld]) THEN Done(ParseFloat(h[fld].b).v)
           ELSE Refuse(db)
  IN OfType(db, k, "hash", o, o)

-----------------------------------------------------------------------------
(* sorted sets: a function from members to scores *)

Before(z, x, y) == IF z[x] = z[y] THEN BLess(x, y) ELSE FLess(z[x], z[y])

Merge(z, s, t) ==
  FoldLeft(LAMBDA m, x : IF m.j > Len(t) \/ (m.i <= Len(s) /\ Before(z, s[m.i], t[m.j]))
                         THEN [m EXCEPT !.i = @ + 1, !.out = Append(@, s[m.i])]
                         ELSE [m EXCEPT !.j = @ + 1, !.out = Append(@, t[m.j])],
           [i |-> 1, j |-> 1, out |-> <<>>], s \o t).out

RECURSIVE SortM(_, _)
SortM(z, s) == IF Len(s) <= 1 THEN s
               ELSE LET h == Len(s) \div 2
                    IN Merge(z, SortM(z, SubSeq(s, 1, h)), SortM(z, SubSeq(s, h + 1, Len(s))))

Ordered(z) == SortM(z, SetToSeq(DOMAIN z))

MembersR(z, s, scores) ==
  IF scores THEN ArrR([i \in 1..(2 * Len(s)) |-> IF i % 2 = 1 THEN BulkR(s[(i + 1) \div 2]) ELSE NumR(z[s[i \div 2]])])
  ELSE BulksR(s)

\* options and score/member pairs of ZADD, which ends with a pair: st is "option", "member" behind a score, "pair" behind a pair, or "bad"
ZAddArgs(a) ==
  LET Scan(o, x) ==
        IF o.st = "bad" THEN o
        ELSE IF o.st = "member" THEN [o EXCEPT !.st = "pair", !.pairs = Append(@, [s |-> o.s, m |-> x])]
        ELSE LET w == Word(x)
             IN IF w \in {"xx", "nx", "incr"} THEN [o EXCEPT !.st = "option", ![w] = TRUE]
                ELSE LET p == ParseFloat(x)
                     IN IF p.ok /\ ~p.nan THEN [o EXCEPT !.st = "member", !.s = p.v] ELSE [o EXCEPT !.st = "bad"]
  IN FoldLeft(Scan, [st |-> "option", s |-> ZeroF, xx |-> FALSE, nx |-> FALSE, incr |-> FALSE, pairs |-> <<>>], SubSeq(a, 3, Len(a)))

\* [z, n, nan]; d are the scores changed so far
ZAddAll(z0, o) ==
  LET Add(x, p) ==
        LET has == p.m \in DOMAIN x.d \/ p.m \in DOMAIN z0
            old == IF p.m \in DOMAIN x.d THEN x.d[p.m] ELSE z0[p.m]
            new == IF has /\ o.incr THEN FAdd(old, p.s) ELSE p.s
        IN IF x.nan \/ (has /\ o.nx) \/ (~has /\ o.xx) THEN x
           ELSE IF has /\ o.incr /\ FAddIsNaN(old, p.s) THEN [x EXCEPT !.nan = TRUE]
           ELSE IF has /\ old = new THEN x
           ELSE [x EXCEPT !.d = Set0(@, p.m, new), !.n = @ + 1]
      r == FoldLeft(Add, [d |-> EmptyDb, n |-> 0, nan |-> FALSE], o.pairs)
  IN [z |-> Over(r.d, z0), n |-> r.n, nan |-> r.nan]

ZAddOuts(db, a) ==
  LET k == a[2]
      o == ZAddArgs(a)
      r == ZAddAll(Value(db, k, EmptyDb), o)
      out == IF o.st # "pair" \/ r.nan THEN Refuse(db) ELSE Out(PutZSet(db, k, r.z), NatR(r.n))
  IN OfType(db, k, "zset", out, out)

ZIncrOuts(db, k, f, m) ==
  LET r == ZAddAll(Value(db, k, EmptyDb), [xx |-> FALSE, nx |-> FALSE, incr |-> TRUE, pairs |-> <<[s |-> f, m |-> m]>>])
      out == IF r.nan THEN Refuse(db) ELSE Out(PutZSet(db, k, r.z), NumR(r.z[m]))
  IN OfType(db, k, "zset", out, out)

ZPop(db, k, n, low) ==
  OfType(db, k, "zset", Out(db, ArrR(<<>>)),
    LET z == db[k].v
        s == IF low THEN Ordered(z) ELSE Reverse(Ordered(z))
        got == SubSeq(s, 1, Min2(Max2(n, 0), Len(s)))
        gone == Ran(got)
    IN Out(PutZSet(db, k, [x \in DOMAIN z \ gone |-> z[x]]), MembersR(z, got, TRUE)))

\* [ok, v, open]
ScoreBound(b) ==
  LET open == Len(b) > 0 /\ b[1] = 40
      p == ParseFloat(IF open THEN Tail(b) ELSE b)
  IN [ok |-> p.ok /\ ~p.nan, v |-> p.v, open |-> open]

InBounds(s, lo, hi) ==
  /\ IF lo.open THEN FLess(lo.v, s) ELSE ~FLess(s, lo.v)
  /\ IF hi.open THEN FLess(s, hi.v) ELSE ~FLess(hi.v, s)

\* reading with bounds that are no numbers: an error; a missing key may be noticed first
WithBounds(db, k, t, ok, missing, present) ==
  OfType(db, k, t,
    IF ok THEN Out(db, missing) ELSE Out(db, missing) \union Refuse(db),
    IF ok THEN present ELSE Refuse(db))

Words(a, i) == {Word(a[j]) : j \in i..Len(a)}

ZRangeOuts(db, a, byScore, rev) ==
  LET k == a[2]
      words == Words(a, 5)
      scores == "withscores" \in words
      z == db[k].v
      lo == ScoreBound(a[3])
      hi == ScoreBound(a[4])
      int == IsInt64(a[3]) /\ IsInt64(a[4])
      s == IF rev THEN Reverse(Ordered(z)) ELSE Ordered(z)
  IN IF byScore \/ (~rev /\ "byscore" \in words)
     THEN WithBounds(db, k, "zset", lo.ok /\ hi.ok, NilR,
            Out(db, MembersR(z, SelectSeq(Ordered(z), LAMBDA m : InBounds(z[m], lo, hi)), scores)))
     ELSE WithBounds(db, k, "zset", int, NilR,
            Out(db, MembersR(z, Slice(s, Bounds(Len(s), Clamp(RawInt(a[3])), Clamp(RawInt(a[4])))), scores)))

-----------------------------------------------------------------------------
(* the command table: the least number of arguments of every command *)

Arity ==
  [keys |-> 1, exists |-> 1, del |-> 1, type |-> 1, ping |-> 0, command |-> 0,
   set |-> 2, mset |-> 2, get |-> 1, mget |-> 1, incr |-> 1, incrby |-> 2, decr |-> 1, decrby |-> 2, append |-> 2,
   lpush |-> 2, lpop |-> 1, rpush |-> 2, rpop |-> 1, llen |-> 1, lrange |-> 3, lrem |-> 3, lindex |-> 2,
   lset |-> 3, linsert |-> 4,
   sadd |-> 2, scard |-> 1, sdiff |-> 1, sdiffstore |-> 2, sinter |-> 1, sinterstore |-> 2, sunion |-> 1,
   sunionstore |-> 2, sismember |-> 2, smembers |-> 1, smove |-> 3, srem |-> 2, spop |-> 1,
   hdel |-> 2, hexists |-> 2, hget |-> 2, hgetall |-> 1, hincrby |-> 3, hincrbyfloat |-> 3, hkeys |-> 1,
   hlen |-> 1, hmget |-> 2, hmset |-> 3, hset |-> 3, hsetnx |-> 3, hvals |-> 1,
   zadd |-> 3, zscore |-> 2, zrank |-> 2, zrem |-> 2, zcard |-> 1, zcount |-> 3, zincr |-> 3, zrange |-> 3,
   zrangebyscore |-> 3, zrevrange |-> 3, zpopmin |-> 1, zpopmax |-> 1]

Commands == DOMAIN Arity
Name(a) == LET w == Word(a[1]) IN IF w \in Commands THEN w ELSE "unknown"

Reads == {"keys", "exists", "type", "ping", "command", "get", "mget", "llen", "lrange", "lindex", "scard", "sdiff",
          "sinter", "sunion", "sismember", "smembers", "hexists", "hget", "hgetall", "hkeys", "hlen", "hmget", "hvals",
          "zscore", "zrank", "zcard", "zcount", "zrange", "zrangebyscore", "zrevrange"}

\* the keys a command line names
KeysNamed(a) ==
  LET c == Name(a)
  IN CASE c \in {"unknown", "ping", "command", "keys"} -> {}
       [] c \in {"exists", "del", "mget", "sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore"} -> RestSet(a, 2)
       [] c = "mset" -> {a[j] : j \in {i \in 2..Len(a) : i % 2 = 0}}
       [] c = "smove" -> {a[j] : j \in 2..Min2(3, Len(a))}
       [] OTHER -> IF Len(a) > 1 THEN {a[2]} ELSE {}

\* an optional count argument: [ok, n]
CountArg(a, default) ==
  IF Len(a) < 3 THEN [ok |-> TRUE, n |-> default]
  ELSE IF IsInt64(a[3]) THEN [ok |-> TRUE, n |-> Clamp(RawInt(a[3]))] ELSE [ok |-> FALSE, n |-> 0]

Run(db, a, c, n) ==
  LET k == a[2]
      Read(t, missing, r) == OfType(db, k, t, Out(db, missing), Out(db, r))
      v == db[k].v
  IN
  CASE c = "ping" -> Out(db, StatusR(<<80,79,78,71>>))
    [] c = "command" -> Out(db, StatusR(<<67,79,77,77,65,78,68>>))
    [] c = "keys" -> LET g == GlobParse(k)
                     IN IF ~g.clear THEN Out(db, SomeR(DOMAIN db)) \cup Refuse(db)
                        ELSE IF g.ok THEN Out(db, SetR({x \in DOMAIN db : GlobMatch(g.toks, x)})) ELSE Refuse(db)
    [] c = "exists" -> Out(db, NatR(Len(SelectSeq(Tail(a), LAMBDA x : x \in DOMAIN db))))
    [] c = "del" -> LET s == RestSet(a, 2) \intersect DOMAIN db
                    IN Out([x \in DOMAIN db \ s |-> db[x]], NatR(Cardinality(s)))
    [] c = "type" -> Out(db, StatusR(TypeName[Typ(db, k)]))
    \* strings
    [] c = "set" -> Out(Put(db, k, "string", a[3]), OkR)
    [] c = "mset" -> IF n % 2 = 0 THEN MSetOuts(db, a) ELSE Refuse(db)
    [] c = "get" -> Read("string", NilR, BulkR(v))
    [] c = "mget" -> Out(db, ArrR([i \in 1..n |-> GetR(db, a[i + 1])]))
    [] c = "incr" -> AddTo(db, k, FromNat(1))
    [] c = "decr" -> AddTo(db, k, INeg(FromNat(1)))
    [] c = "incrby" -> IF IsInt64(a[3]) THEN AddTo(db, k, RawInt(a[3])) ELSE Refuse(db)
    [] c = "decrby" -> IF IsInt64(a[3]) /\ Fits64(INeg(RawInt(a[3]))) THEN AddTo(db, k, INeg(RawInt(a[3]))) ELSE Refuse(db)
    [] c = "append" -> LET new == Value(db, k, <<>>) \o a[3]
                           o == Out(Put(db, k, "string", new), NatR(Len(new)))
                       IN OfType(db, k, "string", o, o)
    \* lists
    [] c \in {"lpush", "rpush"} -> ListPush(db, k, SubSeq(a, 3, Len(a)), c = "lpush")
    [] c \in {"lpop", "rpop"} -> LET m == CountArg(a, 1)
                                 IN IF m.ok /\ m.n > 0 THEN ListPop(db, k, m.n, c = "lpop") ELSE Refuse(db)
    [] c = "llen" -> Read("list", NatR(0), NatR(Len(v)))
    [] c = "lrange" -> IF ~(IsInt64(a[3]) /\ IsInt64(a[4])) THEN Refuse(db)
                       ELSE Read("list", ArrR(<<>>), BulksR(Slice(v, Bounds(Len(v), Clamp(RawInt(a[3])), Clamp(RawInt(a[4]))))))
    [] c = "lrem" -> IF IsInt64(a[3]) THEN ListRem(db, k, Clamp(RawInt(a[3])), a[4]) ELSE Refuse(db)
    [] c = "lindex" -> IF ~IsInt64(a[3]) THEN Refuse(db)
                       ELSE LET i == ListIndex(v, Clamp(RawInt(a[3])))
                            IN Read("list", NilR, IF i \in DOMAIN v THEN BulkR(v[i]) ELSE NilR)
    [] c = "lset" -> IF ~IsInt64(a[3]) THEN Refuse(db)
                     ELSE OfType(db, k, "list", Refuse(db),
                            LET i == ListIndex(v, Clamp(RawInt(a[3])))
                            IN IF i \in DOMAIN v THEN Out(Put(db, k, "list", [v EXCEPT ![i] = a[4]]), OkR) ELSE Refuse(db))
    [] c = "linsert" -> IF Word(a[3]) \in {"before", "after"} THEN ListInsert(db, k, Word(a[3]), a[4], a[5]) ELSE Refuse(db)
    \* sets
    [] c = "sadd" -> LET old == Value(db, k, {})
                         new == old \union RestSet(a, 3)
                         o == Out(Put(db, k, "set", new), NatR(Cardinality(new) - Cardinality(old)))
                     IN OfType(db, k, "set", o, o)
    [] c = "srem" -> OfType(db, k, "set", Out(db, NatR(0)),
                       LET new == v \ RestSet(a, 3)
                       IN Out(PutSet(db, k, new), NatR(Cardinality(v) - Cardinality(new))))
    [] c = "scard" -> Read("set", NatR(0), NatR(Cardinality(v)))
    [] c = "sismember" -> Read("set", NatR(0), NatR(IF a[3] \in v THEN 1 ELSE 0))
    [] c = "smembers" -> Read("set", SetR({}), SetR(v))
    [] c = "smove" -> SMoveOuts(db, k, a[3], a[4])
    [] c = "spop" -> LET m == CountArg(a, 1)
                     IN IF ~m.ok THEN Refuse(db)
                        ELSE OfType(db, k, "set", Out(db, SetR({})),
                               {[db |-> PutSet(db, k, v \ s), r |-> SetR(s)] :
                                  s \in {x \in SUBSET v : Cardinality(x) = SPopCount(db, k, m.n)}})
    [] c = "sdiff" -> AlgebraOuts(db, "diff", Tail(a), FALSE, k)
    [] c = "sinter" -> AlgebraOuts(db, "inter", Tail(a), FALSE, k)
    [] c = "sunion" -> AlgebraOuts(db, "union", Tail(a), FALSE, k)
    [] c = "sdiffstore" -> AlgebraOuts(db, "diff", SubSeq(a, 3, Len(a)), TRUE, k)
    [] c = "sinterstore" -> AlgebraOuts(db, "inter", SubSeq(a, 3, Len(a)), TRUE, k)
    [] c = "sunionstore" -> AlgebraOuts(db, "union", SubSeq(a, 3, Len(a)), TRUE, k)
    \* hashes
    [] c = "hset" -> IF n % 2 = 1 THEN HSetOuts(db, a, NatR((n - 1) \div 2)) ELSE Refuse(db)
    [] c = "hmset" -> IF n % 2 = 1 THEN HSetOuts(db, a, OkR) ELSE Refuse(db)
    [] c = "hsetnx" -> LET h == Value(db, k, EmptyDb)
                           o == IF a[3] \in DOMAIN h THEN Out(db, NatR(0))
                                ELSE Out(PutHash(db, k, Set0(h, a[3], Field(a[4]))), NatR(1))
                       IN OfType(db, k, "hash", o, o)
    [] c = "hget" -> Read("hash", NilR, IF a[3] \in DOMAIN v THEN BulkR(v[a[3]].b) ELSE NilR)
    [] c = "hmget" -> LET h == Value(db, k, EmptyDb)
                          r == ArrR([i \in 1..(n - 1) |-> IF a[i + 2] \in DOMAIN h THEN BulkR(h[a[i + 2]].b) ELSE NilR])
                      IN Read("hash", r, r)
    [] c = "hgetall" -> Read("hash", NilR, MapR(Texts(v)))
    [] c = "hkeys" -> Read("hash", SetR({}), SetR(DOMAIN v))
    [] c = "hvals" -> LET s == SetToSeq(DOMAIN v) IN Read("hash", SetR({}), BagR([i \in DOMAIN s |-> v[s[i]].b]))
    [] c = "hlen" -> Read("hash", NatR(0), NatR(Cardinality(DOMAIN v)))
    [] c = "hexists" -> Read("hash", NatR(0), NatR(IF a[3] \in DOMAIN v THEN 1 ELSE 0))
    [] c = "hdel" -> OfType(db, k, "hash", Out(db, NatR(0)),
                       LET gone == RestSet(a, 3) \intersect DOMAIN v
                       IN Out(PutHash(db, k, [x \in DOMAIN v \ gone |-> v[x]]), NatR(Cardinality(gone))))
    [] c = "hincrby" -> IF IsInt64(a[4]) THEN HIncrOuts(db, k, a[3], RawInt(a[4])) ELSE Refuse(db)
    [] c = "hincrbyfloat" -> LET p == ParseFloat(a[4])
                             IN IF p.ok /\ ~p.nan /\ p.v.inf = 0 THEN HIncrFloatOuts(db, k, a[3], p.v, FText) ELSE Refuse(db)
    \* sorted sets
    [] c = "zadd" -> ZAddOuts(db, a)
    [] c = "zincr" -> LET p == ParseFloat(a[3])
                      IN IF p.ok /\ ~p.nan THEN ZIncrOuts(db, k, p.v, a[4]) ELSE Refuse(db)
    [] c = "zscore" -> Read("zset", NilR, IF a[3] \in DOMAIN v THEN NumR(v[a[3]]) ELSE NilR)
    [] c = "zrank" -> Read("zset", NilR, IF a[3] \in DOMAIN v
                                         THEN NatR(Cardinality({x \in DOMAIN v : x # a[3] /\ Before(v, x, a[3])})) ELSE NilR)
    [] c = "zrem" -> OfType(db, k, "zset", Out(db, NatR(0)),
                       LET gone == RestSet(a, 3) \intersect DOMAIN v
                       IN Out(PutZSet(db, k, [x \in DOMAIN v \ gone |-> v[x]]), NatR(Cardinality(gone))))
    [] c = "zcard" -> Read("zset", NatR(0), NatR(Cardinality(DOMAIN v)))
    [] c = "zcount" -> LET lo == ScoreBound(a[3])
                           hi == ScoreBound(a[4])
                       IN WithBounds(db, k, "zset", lo.ok /\ hi.ok, NatR(0),
                            Out(db, NatR(Cardinality({x \in DOMAIN v : InBounds(v[x], lo, hi)}))))
    [] c = "zrange" -> ZRangeOuts(db, a, FALSE, FALSE)
    [] c = "zrangebyscore" -> ZRangeOuts(db, a, TRUE, FALSE)
    [] c = "zrevrange" -> ZRangeOuts(db, a, FALSE, TRUE)
    [] c \in {"zpopmin", "zpopmax"} -> LET m == CountArg(a, 1)
                                       IN IF m.ok THEN ZPop(db, k, m.n, c = "zpopmin") ELSE Refuse(db)

Outs(db, a) ==
  LET c == Name(a)
      n == Len(a) - 1
  IN IF c = "unknown" THEN Refuse(db)
     ELSE IF n < Arity[c] THEN Refuse(db)
     ELSE Run(db, a, c, n)

-----------------------------------------------------------------------------
(* what a given reply tells about the outcome *)

SPopStep(db, a, rep) ==
  LET k == a[2]
      m == CountArg(a, 1)
      got == Ran(Vals(rep.v))
  IN IF /\ rep.k = "arr" /\ AllBulk(rep.v)
        /\ Cardinality(got) = Len(rep.v)
        /\ got \subseteq db[k].v
        /\ Len(rep.v) = SPopCount(db, k, m.n)
     THEN {PutSet(db, k, db[k].v \ got)} ELSE {}

Step(db, a, rep) ==
  LET c == Name(a)
  IN IF c = "spop" /\ Len(a) > 1 /\ CountArg(a, 1).ok /\ Typ(db, a[2]) = "set" THEN SPopStep(db, a, rep)
     ELSE IF c = "hincrbyfloat" /\ rep.k = "bulk" /\ Len(a) > 3 /\ ParseFloat(a[4]).ok /\ ~ParseFloat(a[4]).nan
               /\ ParseFloat(a[4]).v.inf = 0
          THEN {o.db : o \in {x \in HIncrFloatOuts(db, a[2], a[3], ParseFloat(a[4]).v, LAMBDA s : rep.v) : Match(x.r, rep)}}
     ELSE {o.db : o \in {x \in Outs(db, a) : Match(x.r, rep)}}
=============================================================================
