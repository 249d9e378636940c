-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The listed properties of the data commands, stated on the specification *)
(* of Store.tla itself: TLC checks them for every reachable store of a     *)
(* small universe (see Gen.tla).                                           *)
(***************************************************************************)
EXTENDS Store

\* the reply of a command with one outcome
Ask(db, a) == LET o == CHOOSE x \in Outs(db, a) : TRUE IN o.r
One(db, a) == CHOOSE x \in Outs(db, a) : TRUE
Seq1(x) == [i \in DOMAIN x.v |-> x.v[i].v]

Types == {"string", "list", "set", "hash", "zset"}

\* C10, C11: every key has one type and holds something
WellFormed(db) ==
  \A k \in DOMAIN db :
    /\ db[k].t \in Types
    /\ db[k].t = "list" => db[k].v # <<>>
    /\ db[k].t = "set" => db[k].v # {}
    /\ db[k].t \in {"hash", "zset"} => DOMAIN db[k].v # {}
    /\ db[k].t = "zset" => \A m \in DOMAIN db[k].v : db[k].v[m].inf \in {-1, 0, 1}

Changed(db, e) == {k \in DOMAIN db \union DOMAIN e :
                     k \notin DOMAIN db \/ k \notin DOMAIN e \/ db[k].t # e[k].t \/ db[k].v # e[k].v}

Retypes == {"set", "mset", "sdiffstore", "sinterstore", "sunionstore"}

\* C10, C12, C14: what any command may do
Allowed(db, a) ==
  \A o \in Outs(db, a) :
    LET ch == Changed(db, o.db)
        c == Name(a)
    IN /\ o.r.k = "err" => ch = {}
       /\ c \in Reads => ch = {}
       /\ ch \subseteq KeysNamed(a)
       /\ \A k \in ch : k \in DOMAIN db /\ k \in DOMAIN o.db /\ db[k].t # o.db[k].t => c \in Retypes
       /\ WellFormed(o.db)
       /\ Outs(db, a) # {}

\* the words used below
W == TLCEval([w \in {"(1", "(2", "*", "+inf", "-", "-1", "-inf", "0", "0.5", "1", "2", "5", "append", "byscore", "decr", "del", "exists", "get", "hget", "hgetall", "hincrby", "hkeys", "hlen", "hsetnx", "incr", "keys", "lindex", "llen", "lpop", "lpush", "lrange", "new", "rpop", "scard", "sdiff", "set", "sinter", "sismember", "smembers", "spop", "sunion", "type", "w", "x", "xyz", "xyzw", "y", "zcard", "zcount", "zpopmax", "zpopmin", "zrange", "zrangebyscore", "zrank", "zrevrange", "zscore"} |-> B(w)])

\* C01, C02
StringLaws(db, k) ==
  /\ LET o == One(db, <<W["set"], k, W["xyz"]>>)
     IN /\ Ask(o.db, <<W["get"], k>>) = BulkR(W["xyz"])
        /\ LET p == One(o.db, <<W["append"], k, W["w"]>>) IN p.r = NatR(4) /\ Ask(p.db, <<W["get"], k>>) = BulkR(W["xyzw"])
  /\ LET o == One(db, <<W["incr"], k>>)
         b == One(o.db, <<W["decr"], k>>)
     IN o.r.k = "int" => Ask(o.db, <<W["get"], k>>) = BulkR(o.r.v) /\ IAdd(RawInt(o.r.v), INeg(FromNat(1))) = RawInt(b.r.v)

\* C03
ListLaws(db, k) ==
  Typ(db, k) = "list" =>
    LET all == Ask(db, <<W["lrange"], k, W["0"], W["-1"]>>)
        n == Len(all.v)
    IN /\ Ask(db, <<W["llen"], k>>) = NatR(n)
       /\ \A i \in 1..n : /\ Ask(db, <<W["lindex"], k, NatText(i - 1)>>) = all.v[i]
                          /\ Ask(db, <<W["lindex"], k, W["-"] \o NatText(n - i + 1)>>) = all.v[i]
       /\ LET p == One(db, <<W["lpop"], k, NatText(n)>>) IN p.r = all /\ k \notin DOMAIN p.db
       /\ LET p == One(db, <<W["rpop"], k, NatText(n)>>) IN p.r.v = Reverse(all.v) /\ k \notin DOMAIN p.db
       /\ LET p == One(db, <<W["lpush"], k, W["x"], W["y"]>>)
          IN One(p.db, <<W["lpop"], k, W["2"]>>).r = BulksR(<<W["y"], W["x"]>>) /\ One(p.db, <<W["lpop"], k, W["2"]>>).db = db

\* C04, C05
SetLaws(db, k, k2) ==
  (Typ(db, k) \in {"set", "none"} /\ Typ(db, k2) \in {"set", "none"}) =>
    LET V(x) == Ask(db, <<W["smembers"], x>>).v
        A(c) == Ask(db, <<W[c], k, k2>>).v
    IN /\ Ask(db, <<W["scard"], k>>) = NatR(Cardinality(V(k)))
       /\ \A m \in V(k) \union V(k2) : Ask(db, <<W["sismember"], k, m>>) = NatR(IF m \in V(k) THEN 1 ELSE 0)
       /\ A("sunion") = V(k) \union V(k2) /\ A("sinter") = V(k) \intersect V(k2) /\ A("sdiff") = V(k) \ V(k2)
       /\ \A p \in Outs(db, <<W["spop"], k>>) :
            p.r.k = "set" => /\ p.r.v \subseteq V(k) /\ Cardinality(p.r.v) = Min2(1, Cardinality(V(k)))
                             /\ Ask(p.db, <<W["smembers"], k>>).v = V(k) \ p.r.v

\* C06, C07
HashLaws(db, k) ==
  Typ(db, k) = "hash" =>
    LET f == Ask(db, <<W["hgetall"], k>>).v
    IN /\ Ask(db, <<W["hlen"], k>>) = NatR(Cardinality(DOMAIN f))
       /\ Ask(db, <<W["hkeys"], k>>) = SetR(DOMAIN f)
       /\ \A x \in DOMAIN f : /\ Ask(db, <<W["hget"], k, x>>) = BulkR(f[x])
                              /\ Ask(db, <<W["hsetnx"], k, x, W["new"]>>) = NatR(0)
                              /\ LET o == One(db, <<W["hincrby"], k, x, W["5"]>>)
                                 IN o.r.k = "int" => Ask(o.db, <<W["hget"], k, x>>) = BulkR(o.r.v)

\* C08, C09
ZSetLaws(db, k) ==
  Typ(db, k) = "zset" =>
    LET up == Ask(db, <<W["zrange"], k, W["0"], W["-1"]>>).v
        down == Ask(db, <<W["zrevrange"], k, W["0"], W["-1"]>>).v
        n == Len(up)
        Score(m) == Ask(db, <<W["zscore"], k, m>>).v
        bounds == {W["-inf"], W["+inf"], W["1"], W["(1"], W["2"], W["(2"], W["0.5"]}
    IN /\ Ask(db, <<W["zcard"], k>>) = NatR(n)
       /\ down = Reverse(up)
       /\ \A i \in 1..n : /\ Ask(db, <<W["zrank"], k, up[i].v>>) = NatR(i - 1)
                          /\ i < n => /\ ~FLess(Score(up[i + 1].v), Score(up[i].v))
                                      /\ Score(up[i].v) = Score(up[i + 1].v) => BLess(up[i].v, up[i + 1].v)
       /\ \A lo, hi \in bounds :
            LET in == Ask(db, <<W["zrangebyscore"], k, lo, hi>>)
            IN /\ Ask(db, <<W["zcount"], k, lo, hi>>) = NatR(Len(in.v))
               /\ Ask(db, <<W["zrange"], k, lo, hi, W["byscore"]>>) = in
               /\ \A i \in 1..n : (\E j \in DOMAIN in.v : in.v[j] = up[i])
                                  <=> InBounds(Score(up[i].v), ScoreBound(lo), ScoreBound(hi))
       /\ LET p == One(db, <<W["zpopmin"], k>>) IN p.r.v[1] = up[1]
       /\ LET p == One(db, <<W["zpopmax"], k>>) IN p.r.v[1] = up[n]

\* C11, C13
KeyLaws(db) ==
  /\ Ask(db, <<W["keys"], W["*"]>>) = SetR(DOMAIN db)
  /\ \A k \in DOMAIN db : /\ Ask(db, <<W["exists"], k>>) = NatR(1)
                          /\ Ask(db, <<W["type"], k>>) # StatusR(TypeName.none)
                          /\ LET d == One(db, <<W["del"], k>>)
                             IN d.r = NatR(1) /\ Ask(d.db, <<W["exists"], k>>) = NatR(0) /\ Typ(d.db, k) = "none"

Laws(db) ==
  /\ WellFormed(db)
  /\ KeyLaws(db)
  /\ \A k \in DOMAIN db : StringLaws(db, k) /\ ListLaws(db, k) /\ HashLaws(db, k) /\ ZSetLaws(db, k)
  /\ \A k, k2 \in DOMAIN db : SetLaws(db, k, k2)
=============================================================================
