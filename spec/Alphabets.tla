----------------------------- MODULE Alphabets ------------------------------
(* The small universes explored exhaustively: command lines by property.     *)
EXTENDS Sequences

Strings == <<"set a x", "set a y", "set b x", "mset a y b z", "mset a x a z", "append a y", "append b w", "get a", "get b",
             "mget a b c", "del a", "incr a", "set c", "rpush c x", "get c", "append c x", "mset a z c">>

Counters == <<"set a 9223372036854775806", "set a -9223372036854775807", "set a 5", "set a x", "set a 1.5", "set a +7", "set a 9223372036854775808",
              "incr a", "decr a", "incrby a 2", "decrby a 2", "incrby a -9223372036854775808", "decrby a -9223372036854775808",
              "decrby a 9223372036854775807", "incrby a 9223372036854775807", "incrby a x", "decrby a 1.0", "get a", "del a">>

Lists == <<"rpush a x", "rpush a y", "lpush a x", "lpush a y z", "rpush a x y x", "lpop a", "rpop a", "lpop a 2", "rpop a 2", "lpop a 9",
           "lset a 0 y", "lset a -1 z", "lset a 1 x", "linsert a before x z", "linsert a after x y", "linsert a before y x", "linsert a after z z",
           "lrem a 0 x", "lrem a 1 x", "lrem a -1 x", "lrem a 2 y", "lrem a -2 y", "lrange a 0 -1", "lrange a 1 2", "lrange a -2 -1", "lrange a 2 1",
           "lindex a 0", "lindex a -1", "lindex a 1", "lindex a -2", "llen a", "lset a 9 x", "lpop a 0", "del a">>

Sets == <<"sadd a x", "sadd a y z", "sadd b x", "sadd b w", "srem a x", "srem a y w", "srem b x", "smove a b x", "smove b a w", "smove a a x", "smove a c z",
          "spop a", "spop a 2", "spop b 9", "spop a 0", "smembers a", "scard a", "sismember a x", "sismember b y", "scard b", "del b">>

Algebra == <<"sadd a x", "sadd a y", "sadd b y", "sadd b z", "srem a x", "srem b y", "sdiff a b", "sdiff b a c", "sinter a b", "sinter a c", "sunion a b", "sunion c b a",
             "sdiff a", "sinter a a", "sunion a", "sdiff a a",
             "sdiffstore c a b", "sdiffstore a b a", "sdiffstore a a", "sinterstore c a b", "sinterstore b a b", "sunionstore c a", "sunionstore a a b",
             "sunionstore c a c", "sinterstore c c a", "sadd c w", "srem c y", "set d v", "sunionstore d a b", "sdiffstore d a a", "sunion d a", "smembers c", "scard c">>

Hashes == <<"hset a f 1", "hset a f x g 2", "hset a g 1.5", "hmset a f 007 h y", "hsetnx a f z", "hsetnx a g z", "hdel a f", "hdel a g h", "hdel a f f",
            "hget a f", "hget a g", "hmget a f g h", "hgetall a", "hkeys a", "hvals a", "hlen a", "hexists a f", "hexists a h", "hset a f", "hincrby a f 3", "del a">>

HashCounters == <<"hset a f 5", "hset a f 9223372036854775807", "hset a f -9223372036854775808", "hset a f x", "hset a f 2.5", "hset a f inf", "hset a f 007",
                  "hincrby a f 1", "hincrby a f -1", "hincrby a f 9223372036854775807", "hincrby a f x", "hincrby a g 2", "hincrby a f -9223372036854775808",
                  "hincrbyfloat a f 0.5", "hincrbyfloat a f -2.5", "hincrbyfloat a g 1.5", "hincrbyfloat a f inf", "hincrbyfloat a f nan", "hincrbyfloat a f x",
                  "hget a f", "hdel a f">>

ZSets == <<"zadd a 1 x", "zadd a 2 x", "zadd a 1 y", "zadd a 3 z 1 w", "zadd a nx 5 x 5 y", "zadd a xx 0 y 0 z", "zadd a incr 2 x", "zincr a 1 y", "zincr a -3 x",
           "zincr a 0 x", "zrem a x", "zrem a y w", "zpopmin a", "zpopmax a", "zpopmin a 2", "zpopmax a 9", "zscore a x", "zrank a x", "zrank a y", "zrank a w", "zcard a",
           "zrange a 0 -1", "zrange a 1 1", "zrange a -2 -1 withscores", "zrevrange a 0 -1", "zrevrange a 0 0", "zrevrange a 1 9", "zadd a 1", "zadd a nan x">>

Scores == <<"zadd a 1 x", "zadd a 2 x", "zadd a 1 y", "zadd a 2 z", "zadd a inf w", "zadd a -inf v", "zrem a x", "zincr a 0.5 y", "zpopmin a",
            "zcount a 1 2", "zcount a (1 2", "zcount a 1 (2", "zcount a (1 (1", "zcount a 2 1", "zcount a -inf +inf", "zcount a (-inf (inf", "zcount a 1.5 9",
            "zrangebyscore a 1 2", "zrangebyscore a (1 2 withscores", "zrangebyscore a 1 (2", "zrangebyscore a -inf inf", "zrangebyscore a 3 9",
            "zrangebyscore a inf -inf", "zrange a 1 1 byscore", "zrange a (1 +inf byscore withscores", "zrange a x 2 byscore", "zcount a 1 x">>

TypesA == <<"set a 1", "append a 2", "rpush a x", "sadd a x", "hset a f 1", "zadd a 1 x", "incr a", "mset a 5 b 6", "sadd b x", "sunionstore a b", "sdiffstore a b b",
            "del a", "type a", "get a", "mget a b", "llen a", "lpop a", "lrange a 0 -1", "scard a", "spop a", "srem a x", "hget a f", "hdel a f", "hincrby a f 2", "zcard a", "zrem a x",
            "zpopmin a", "lset a 0 y", "linsert a before x y", "lrem a 0 x", "lindex a 0", "rpop a", "lpush a z", "smembers a", "sismember a x", "smove a b x", "smove b a x",
            "hgetall a", "hkeys a", "hvals a", "hlen a", "hexists a f", "hmget a f g", "hmset a f 2", "hsetnx a g 3", "hincrbyfloat a f 0.5", "zincr a 1 x", "zrank a x",
            "zscore a x", "zcount a 0 9", "zrange a 0 -1", "zrevrange a 0 -1", "zrangebyscore a 0 9", "zpopmax a", "decrby a 2", "sunion a b", "sinter b a", "sdiff b a">>

Empties == <<"rpush a x", "rpush a x y", "sadd a x", "sadd a x y", "sadd b x", "hset a f 1", "hset a f 1 g 2", "zadd a 1 x", "zadd a 1 x 2 y", "set a v",
             "lpop a", "rpop a", "rpop a 5", "lpop a 2", "lrem a 0 x", "lrem a -1 x", "lrem a 1 y", "srem a x", "srem a x y", "spop a", "spop a 5", "smove a b x", "smove b a x",
             "hdel a f", "hdel a g f", "hdel a h", "zrem a x", "zrem a x y", "zrem a w", "zpopmin a", "zpopmax a", "zpopmin a 2", "zpopmax a 2", "sdiffstore a a a", "sinterstore a a c",
             "sdiffstore b b a", "sunionstore a c", "del a", "exists a b a c", "type a", "llen a", "scard a", "hlen a", "zcard a", "lrange a 0 -1", "zrange a 0 -1", "smembers a", "hgetall a",
             "lset a 0 y", "linsert a before x y", "zadd a xx 1 x", "zadd a xx 4 w", "hexists a f", "sismember a x", "zscore a x", "zrank a x", "lindex a 0", "zcount a 0 9">>

Refused == <<"set a 5", "rpush a x", "sadd a x", "hset a f x", "zadd a 1 x", "sadd b y", "rpush c z", "set d 9223372036854775807",
             "nosuch a b", "set a", "mset a 1 b", "mset a", "incr d", "decrby d -1", "incrby a x", "incrby a 1.5", "append a", "lpush a", "rpush b x", "lpop a 0", "lpop a x", "lset a 9 y", "lset a x y",
             "linsert a in x y", "linsert a before q y", "lrem a x x", "lrange a 0 x", "sadd c x", "smove b c y", "smove b a y", "sdiffstore b b c", "sunionstore a a c", "sinterstore d b c a",
             "hset a f 1 g", "hmset a f", "hincrby a f 1", "hincrbyfloat a f 1", "hincrbyfloat a g nan", "hsetnx b f 1", "zadd a 2 x y z", "zadd a 2 x nan y", "zadd a 5 y 7", "zadd b 1 x", "zincr a nan x",
             "zincr a x x", "zadd c incr inf q -inf q", "zadd a incr inf x -inf x", "zadd e incr inf q -inf q", "zpopmin a x", "zcount a x 1", "spop b x", "keys [", "keys a[", "hdel b f", "zrem b y", "srem c z", "lrem b 0 y", "get b", "del">>

Others == <<"set a 1", "set b 2", "sadd c x", "sadd d x y", "rpush e x", "hset f x 1", "mset a 3 b 4", "sunionstore c d", "sunionstore d c d", "sdiffstore d c d", "sinterstore c d d", "smove d c y", "smove c c x",
            "sadd c z", "srem d x", "spop c", "rpush e y", "lpop e", "hset f y 2", "hdel f x", "append a b", "del a b", "del c", "sdiff d c", "keys *", "exists a a b", "incr b">>

Alphabet(name) ==
  CASE name = "C01" -> Strings [] name = "C02" -> Counters [] name = "C03" -> Lists [] name = "C04" -> Sets
    [] name = "C05" -> Algebra [] name = "C06" -> Hashes [] name = "C07" -> HashCounters [] name = "C08" -> ZSets
    [] name = "C09" -> Scores [] name = "C10" -> TypesA [] name = "C11" -> Empties [] name = "C12" -> Refused
    [] name = "C14" -> Others
=============================================================================
