package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// G makes command lines
type G struct {
	*rand.Rand
	cmds []Cmd
	all  string // prefix of all keys
	twin [2]string
}

func newG(seed int64) *G {
	g := &G{Rand: rand.New(rand.NewSource(seed))}
	g.twin = twins[g.Intn(len(twins))]
	return g
}

// twins have the same hash: of FNV-1, FNV-1a, CRC-32, CRC-32C, Adler-32, times 33 and times 31, or are otherwise easy to mistake
var twins = [][2]string{
	{"bxfkyj", "ygcwm3"}, {"6qgco9", "he1ty8"}, {"5vsk7u", "h6kona"}, {"kw4nqc", "nipgci"},
	{"81jv92", "5uf7mp"}, {"z84yia", "goyqt1"}, {"iyaru3", "8ws3mw"}, {"pznpfo", "l52qro"},
	{"96vsji", "j7io4o"}, {"ndr8la", "hajw0o"}, {"3332tl", "1u342l"}, {"jqjj4j", "l3jhrj"},
	{"a", "A"}, {"é", "e\u0301"}, {"a", "a\x00"}, {"ab", "ba"}, {"key", "key "}, {"", "\x00"}, {"\xff", "\xfe"}, {"1", "01"},
	{"0123456789abcdef0", "0123456789abcdef1"}, {"k\r\n", "k"}, {"k:1", "k:2"}, {"{a}1", "{a}2"}, {"%s", "%d"}, {"x", "X"},
}

// keyNames are n keys, names with that prefix mostly
func (g *G) keyNames(p string, n int) []string {
	out := names(p, n)
	if g.chance(0.2) && n > 1 && g.all == "" {
		i := g.Intn(n - 1)
		out[i], out[i+1] = g.twin[0], g.twin[1]
		if g.chance(0.2) && n > 2 {
			out[(i+2)%n] = g.bytes(g.between(1, 300))
		}
	}
	return out
}

func (g *G) add(c ...string) { g.cmds = append(g.cmds, c) }

func (g *G) pick(s ...string) string { return s[g.Intn(len(s))] }
func (g *G) of(s []string) string    { return s[g.Intn(len(s))] }
func (g *G) chance(p float64) bool   { return g.Float64() < p }
func (g *G) between(lo, hi int) int  { return lo + g.Intn(hi-lo+1) }
func (g *G) itoa(lo, hi int) string  { return strconv.Itoa(g.between(lo, hi)) }
func (g *G) case_(s string) string {
	if g.chance(0.9) {
		return s
	}
	b := []byte(s)
	for i := range b {
		if g.chance(0.5) {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

// weighted choice of a generator
type choice struct {
	w int
	f func()
}

func (g *G) choose(cs []choice) {
	n := 0
	for _, c := range cs {
		n += c.w
	}
	x := g.Intn(n)
	for _, c := range cs {
		if x < c.w {
			c.f()
			return
		}
		x -= c.w
	}
}

var plainVals = []string{"a", "b", "c", "d", "e", "f"}

var oddVals = []string{"", "\r\n", "a\r\nb", "\x00", "x\x00y", "\xff\xfe", "+OK\r\n", "$-1\r\n", "*1\r\n", " ", " a", "a ", "A", "É",
	"0", "1", "-1", "10", "9", "007", "+5", "1.5", "1e3", "9223372036854775807", "nan", "inf", "-", "true", "PING", "\"q\"", "'", "\\",
	"\n", "\r", "-0", "0.10", "1.0", "9223372036854775808"}

// val is a byte string, mostly a short one so that values meet again
func (g *G) val() string {
	switch x := g.Intn(20); {
	case x < 12:
		return g.of(plainVals)
	case x < 18:
		return g.of(oddVals)
	case x < 19:
		return g.twin[g.Intn(2)]
	}
	return g.bytes(g.between(1, 80))
}

func (g *G) bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.Intn(256))
	}
	return string(b)
}

func (g *G) vals(lo, hi int) []string {
	out := make([]string, g.between(lo, hi))
	for i := range out {
		out[i] = g.val()
	}
	return out
}

var badInts = []string{"", " 1", "1 ", "1.0", "1e3", "0x10", "a", "--1", "+-1", "9223372036854775808", "-9223372036854775809",
	"99999999999999999999999", "1\r\n", "\x001", "+", "-", "nan", "inf", "１"}

var edgeInts = []string{"9223372036854775807", "-9223372036854775808", "9223372036854775806", "-9223372036854775807",
	"4611686018427387904", "-4611686018427387904", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296",
	"1", "-1", "0", "+7", "-0", "007", "-007", "1000000007", "999999999999999999"}

func (g *G) int() string {
	switch x := g.Intn(20); {
	case x < 11:
		return g.itoa(-12, 12)
	case x < 17:
		return g.of(edgeInts)
	}
	return g.of(badInts)
}

// idx is a position in a container of about n elements
func (g *G) idx(n int) string {
	switch x := g.Intn(30); {
	case x < 24:
		return g.itoa(-n-2, n+2)
	case x < 28:
		return g.of(edgeInts)
	}
	return g.of(badInts)
}

// floats that binary floating-point numbers hold exactly, so that sums are exact
func (g *G) float() string {
	n := g.between(-40, 40)
	switch g.Intn(8) {
	case 0:
		return strconv.FormatFloat(float64(n)/8, 'f', -1, 64)
	case 1:
		return strconv.FormatFloat(float64(n)/4, 'e', -1, 64)
	case 2:
		return strconv.FormatFloat(float64(g.between(-1000000, 1000000))/8, 'f', 3, 64)
	case 3:
		return g.pick("0", "-0", "+3", "1e3", "1E2", ".5", "5.", "-.25", "007", "1048576", "-1e6", "2.50", "1e+2", "25e-2")
	}
	return strconv.Itoa(n / 4)
}

var fineBases = []float64{0, 1, -1, 0.1, 2.5, -7.75, 1e-9, 1e-300, 1e15, -1e17, 1e300, 9007199254740992, 123456789.125, 0.3, 1e-7, 5e-324}

// fine is a number close to others of the same base: some units in the last place away, or some small decimal step.
// The text is the shortest that denotes the number, so that it is equal to what the number prints as.
func (g *G) fine(base float64) string {
	x := base
	switch g.Intn(4) {
	case 0, 1:
		to := math.Inf(2*g.Intn(2) - 1)
		for i := g.Intn(4); i > 0; i-- {
			x = math.Nextafter(x, to)
		}
	case 2:
		x = base + float64(g.between(-4, 4))*math.Pow(10, -float64(g.between(1, 16)))
	default:
		x = base * (1 + float64(g.between(-3, 3))*math.Pow(10, -float64(g.between(1, 15))))
	}
	if x == 0 {
		return "0"
	}
	f := byte('g')
	if a := math.Abs(x); a > 1e-30 && a < 1e30 && g.chance(0.5) {
		f = 'f'
	}
	return strconv.FormatFloat(x, f, -1, 64)
}

// fineRound writes members with close scores and reads them; there are no sums of such scores
func (g *G) fineRound(k string, bases []float64) {
	num := func() string { return g.fine(bases[g.Intn(len(bases))]) }
	bound := func() string {
		if g.chance(0.1) {
			return g.pick("-inf", "+inf")
		}
		if g.chance(0.35) {
			return "(" + num()
		}
		return num()
	}
	c := Cmd{"zadd", k}
	if g.chance(0.1) {
		c = append(c, g.pick("nx", "xx"))
	}
	for _, m := range g.members(1, 4) {
		c = append(c, num(), m)
	}
	g.add(c...)
	switch g.Intn(8) {
	case 0:
		g.add("zrem", k, g.member())
	case 1:
		g.add(g.pick("zpopmin", "zpopmax"), k, g.itoa(1, 2))
	}
	lo, hi := bound(), bound()
	x, _ := boundVal(lo)
	y, _ := boundVal(hi)
	if x > y {
		lo, hi = hi, lo
	}
	switch g.Intn(5) {
	case 0:
		g.add("zcount", k, lo, hi)
	case 1:
		g.add("zrangebyscore", k, lo, hi)
	case 2:
		g.add("zrange", k, lo, hi, "byscore", "withscores")
	case 3:
		g.add("zrank", k, g.member())
		g.add("zscore", k, g.member())
	case 4:
		g.dumpZSet(k)
	}
}

func (g *G) fineBasesOf() []float64 {
	out := []float64{fineBases[g.Intn(len(fineBases))]}
	if g.chance(0.4) {
		out = append(out, fineBases[g.Intn(len(fineBases))], g.NormFloat64())
	}
	return out
}

var badFloats = []string{"", "nan", "a", "1.2.3", "1e", "--1", "1 ", " 1", "e1", ".", "1e400", "+nan", "+", "-", "infi", "1,5", "0.5a", "NaN", "\x00"}

// score is a sorted set score, infinities included
func (g *G) score() string {
	switch x := g.Intn(40); {
	case x < 34:
		return g.float()
	case x < 38:
		return g.pick("inf", "-inf", "+inf", "Infinity", "-INF")
	}
	return g.of(badFloats)
}

func (g *G) bound() string {
	b := ""
	switch x := g.Intn(40); {
	case x < 26:
		b = g.pick(strconv.Itoa(g.between(-6, 6)), g.float())
	case x < 37:
		b = g.pick("inf", "-inf", "+inf", "-inf", "+inf")
	default:
		return g.pick("", "(", "nan", "(nan", "a", "((1", "[1", "1(", "-", "(a", "1..2", "( 1", "1 2")
	}
	if g.chance(0.35) {
		b = "(" + b
	}
	return b
}

// keys of a history
type keys struct{ all []string }

func (g *G) key(ks []string) string { return g.of(ks) }

func (g *G) keysOf(ks []string, lo, hi int) []string {
	out := make([]string, g.between(lo, hi))
	for i := range out {
		out[i] = g.of(ks)
	}
	return out
}

func cat(a []string, b ...string) []string { return append(append([]string{}, a...), b...) }

// ---- commands of each type on keys of ks ----

func (g *G) strCmd(ks []string) {
	k := g.key(ks)
	g.choose([]choice{
		{6, func() { g.add(g.case_("set"), k, g.val()) }},
		{3, func() {
			c := Cmd{"mset"}
			for i := g.between(1, 4); i > 0; i-- {
				c = append(c, g.key(ks), g.val())
			}
			if g.chance(0.1) {
				c = append(c, g.key(ks))
			}
			g.add(c...)
		}},
		{4, func() { g.add("append", k, g.val()) }},
		{4, func() { g.add(g.case_("get"), k) }},
		{3, func() { g.add(cat([]string{"mget"}, g.keysOf(ks, 1, 5)...)...) }},
		{1, func() { g.add("incr", k) }},
		{1, func() { g.add("decr", k) }},
		{1, func() { g.add("incrby", k, g.int()) }},
		{1, func() { g.add("decrby", k, g.int()) }},
		{1, func() { g.add("del", k) }},
	})
}

func (g *G) counterCmd(ks []string) {
	k := g.key(ks)
	g.choose([]choice{
		{4, func() { g.add("set", k, g.int()) }},
		{1, func() { g.add("set", k, g.val()) }},
		{3, func() { g.add("incr", k) }},
		{3, func() { g.add("decr", k) }},
		{5, func() { g.add("incrby", k, g.int()) }},
		{5, func() { g.add("decrby", k, g.int()) }},
		{3, func() { g.add("get", k) }},
		{1, func() { g.add("append", k, g.pick("0", "1", "9", "", " ", "a")) }},
		{1, func() { g.add("del", k) }},
		{1, func() {
			g.add(g.pick("lpush", "sadd"), k+"x", "1")
			g.add(g.pick("incr", "decr"), k+"x")
			g.add("incrby", k+"x", "2")
		}},
	})
}

func (g *G) listCmd(ks []string, n int) {
	k := g.key(ks)
	g.choose([]choice{
		{5, func() { g.add(cat([]string{g.case_("rpush"), k}, g.vals(1, 4)...)...) }},
		{5, func() { g.add(cat([]string{"lpush", k}, g.vals(1, 4)...)...) }},
		{3, func() { g.add(g.pick("lpop", "rpop"), k) }},
		{3, func() { g.add(g.pick("lpop", "rpop"), k, g.pick(g.itoa(1, 4), g.itoa(1, 4), g.idx(n))) }},
		{3, func() { g.add("lset", k, g.idx(n), g.val()) }},
		{5, func() {
			g.add("linsert", k, g.pick("before", "after", "BEFORE", "After", "before", "after", "in"), g.val(), g.val())
		}},
		{5, func() { g.add("lrem", k, g.pick(g.itoa(-3, 3), g.itoa(-2, 2), g.idx(n)), g.val()) }},
		{3, func() { g.add("lrange", k, g.idx(n), g.idx(n)) }},
		{2, func() { g.add("lrange", k, "0", "-1") }},
		{3, func() { g.add("lindex", k, g.idx(n)) }},
		{2, func() { g.add("llen", k) }},
		{1, func() { g.add("del", k) }},
	})
}

func (g *G) setCmd(ks []string) {
	k := g.key(ks)
	g.choose([]choice{
		{8, func() { g.add(cat([]string{"sadd", k}, g.vals(1, 5)...)...) }},
		{4, func() { g.add(cat([]string{"srem", k}, g.vals(1, 4)...)...) }},
		{3, func() { g.add("spop", k) }},
		{2, func() { g.add("spop", k, g.pick(g.itoa(0, 4), g.idx(4))) }},
		{4, func() { g.add("smove", k, g.key(ks), g.val()) }},
		{3, func() { g.add("smembers", k) }},
		{3, func() { g.add("sismember", k, g.val()) }},
		{3, func() { g.add("scard", k) }},
		{1, func() { g.add("del", k) }},
	})
}

func (g *G) algebraCmd(ks []string) {
	g.choose([]choice{
		{6, func() { g.add(cat([]string{"sadd", g.key(ks)}, g.vals(1, 6)...)...) }},
		{2, func() { g.add(cat([]string{"srem", g.key(ks)}, g.vals(1, 3)...)...) }},
		{1, func() { g.add("spop", g.key(ks)) }},
		{6, func() { g.add(cat([]string{g.case_(g.pick("sdiff", "sinter", "sunion"))}, g.keysOf(ks, 1, 5)...)...) }},
		{6, func() {
			g.add(cat([]string{g.pick("sdiffstore", "sinterstore", "sunionstore"), g.key(ks)}, g.keysOf(ks, 1, 4)...)...)
		}},
		{1, func() {
			c := Cmd{g.pick("sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore"), g.key(ks)}
			g.add(cat(c, g.keysOf(ks, 6, 70)...)...)
		}},
		{1, func() { g.add("smove", g.key(ks), g.key(ks), g.val()) }},
		{1, func() { g.add("del", g.key(ks)) }},
	})
}

var fields = []string{"f", "g", "h", "i", "", "1", "f\r\n", "\x00", "F"}

func (g *G) fields(lo, hi int) []string {
	out := make([]string, g.between(lo, hi))
	for i := range out {
		out[i] = g.field()
	}
	return out
}

func (g *G) field() string {
	if g.chance(0.05) {
		return g.twin[g.Intn(2)]
	}
	return g.of(fields)
}

func (g *G) hashVal() string {
	switch g.Intn(4) {
	case 0:
		return g.int()
	case 1:
		return g.float()
	}
	return g.val()
}

func (g *G) hashCmd(ks []string) {
	k := g.key(ks)
	pairs := func(lo, hi int) []string {
		var out []string
		for _, f := range g.fields(lo, hi) {
			out = append(out, f, g.hashVal())
		}
		if g.chance(0.06) {
			out = append(out, g.of(fields))
		}
		return out
	}
	g.choose([]choice{
		{8, func() { g.add(cat([]string{"hset", k}, pairs(1, 4)...)...) }},
		{4, func() { g.add(cat([]string{"hmset", k}, pairs(1, 4)...)...) }},
		{3, func() { g.add("hsetnx", k, g.field(), g.hashVal()) }},
		{3, func() { g.add("hget", k, g.field()) }},
		{3, func() { g.add(cat([]string{"hmget", k}, g.fields(1, 5)...)...) }},
		{3, func() { g.add("hgetall", k) }},
		{1, func() { g.add("hkeys", k) }},
		{1, func() { g.add("hvals", k) }},
		{2, func() { g.add("hlen", k) }},
		{2, func() { g.add("hexists", k, g.field()) }},
		{5, func() { g.add(cat([]string{"hdel", k}, g.fields(1, 3)...)...) }},
		{2, func() { g.add("hincrby", k, g.of(fields), g.int()) }},
		{1, func() { g.add("hincrbyfloat", k, g.of(fields), g.float()) }},
		{1, func() { g.add("del", k) }},
	})
}

// near the end of the range, and beyond it
var hugeFloats = []string{"1.5e308", "-1.5e308", "1e308", "-1e308", "1.7976931348623157e308", "-1.7976931348623157e308", "2e307", "-2e307", "9e307", "5e-324", "1e-300",
	"1.8e308", "-1.8e308", "1e309", "179769313486232000000e288", "0.00001e313", "1"}

func (g *G) hashCounterCmd(ks []string) {
	k := g.key(ks)
	f := g.of(fields[:4])
	g.choose([]choice{
		{3, func() { g.add("hset", k, f, g.pick(g.int(), g.itoa(-50, 50))) }},
		{2, func() {
			g.add("hset", k, f, g.pick(g.float(), g.float(), g.val(), g.pick("inf", "-inf", "nan", "1e309", "-Infinity")))
		}},
		{6, func() { g.add("hincrby", k, f, g.int()) }},
		{5, func() { g.add("hincrbyfloat", k, f, g.float()) }},
		{1, func() { g.add("hincrbyfloat", k, f, g.pick("inf", "-inf", "nan", "+Inf", "infinity", g.of(badFloats))) }},
		{1, func() {
			if g.chance(0.5) {
				g.add("hset", k, f, g.of(hugeFloats))
			}
			g.add("hincrbyfloat", k, f, g.of(hugeFloats))
			g.add("hget", k, f)
		}},
		{3, func() { g.add("hget", k, f) }},
		{2, func() { g.add("hgetall", k) }},
		{1, func() { g.add("hlen", k) }},
		{1, func() { g.add("hdel", k, f) }},
	})
}

var members = []string{"a", "b", "c", "d", "e", "f", "g", "", "A", "aa", "ab", "\xff", "\x00", "b\r\n", "10", "9"}

func (g *G) member() string {
	if g.chance(0.7) {
		return members[g.Intn(7)]
	}
	if g.chance(0.15) {
		return g.twin[g.Intn(2)]
	}
	return g.of(members)
}

func (g *G) members(lo, hi int) []string {
	out := make([]string, g.between(lo, hi))
	for i := range out {
		out[i] = g.member()
	}
	return out
}

func (g *G) zsetWrite(ks []string) {
	k := g.key(ks)
	g.choose([]choice{
		{10, func() {
			c := Cmd{"zadd", k}
			for _, o := range []string{"nx", "xx", "incr", "NX", "XX", "INCR"} {
				if g.chance(0.09) {
					c = append(c, o)
				}
			}
			for _, m := range g.members(1, 4) {
				c = append(c, g.score(), m)
			}
			if g.chance(0.04) {
				c = append(c, "1")
			}
			g.add(c...)
		}},
		{5, func() { g.add("zincr", k, g.score(), g.member()) }},
		{5, func() { g.add(cat([]string{"zrem", k}, g.members(1, 3)...)...) }},
		{2, func() { g.add(g.pick("zpopmin", "zpopmax"), k) }},
		{2, func() { g.add(g.pick("zpopmin", "zpopmax"), k, g.pick(g.itoa(0, 3), g.idx(4))) }},
		{1, func() { g.add("del", k) }},
	})
}

func (g *G) zsetRead(ks []string, n int) {
	k := g.key(ks)
	ws := func() []string {
		if g.chance(0.4) {
			return []string{g.pick("withscores", "WITHSCORES")}
		}
		return nil
	}
	g.choose([]choice{
		{2, func() { g.add("zscore", k, g.member()) }},
		{2, func() { g.add("zrank", k, g.member()) }},
		{2, func() { g.add("zcard", k) }},
		{4, func() { g.add(cat([]string{"zrange", k, g.idx(n), g.idx(n)}, ws()...)...) }},
		{4, func() { g.add(cat([]string{"zrevrange", k, g.idx(n), g.idx(n)}, ws()...)...) }},
	})
}

func (g *G) zsetScoreRead(ks []string) {
	k := g.key(ks)
	lo, hi := g.bound(), g.bound()
	if g.chance(0.5) { // mostly not crossed
		x, ex := boundVal(lo)
		y, ey := boundVal(hi)
		if ex == nil && ey == nil && x > y {
			lo, hi = hi, lo
		}
	}
	ws := []string{}
	if g.chance(0.4) {
		ws = []string{g.pick("withscores", "WITHSCORES")}
	}
	g.choose([]choice{
		{4, func() { g.add("zcount", k, lo, hi) }},
		{4, func() { g.add(cat([]string{"zrangebyscore", k, lo, hi}, ws...)...) }},
		{4, func() {
			o := cat(ws, g.pick("byscore", "BYSCORE"))
			if len(o) == 2 && g.chance(0.5) {
				o[0], o[1] = o[1], o[0]
			}
			g.add(cat([]string{"zrange", k, lo, hi}, o...)...)
		}},
	})
}

func boundVal(s string) (float64, error) { return strconv.ParseFloat(strings.TrimPrefix(s, "("), 64) }

var globAtoms = []string{"*", "?", "[ab]", "[a-c]", "[!a]", "[!a-c]", "\\a", "\\*", "\\?", "a", "b", "c", "d", "ab", "[b-d]", "*", "?", "[abc]",
	"*", "?", "a", "b", "[!abc]", "[!b-d]", "[!ab]"}

var oddGlobAtoms = []string{"A", ".", "+", "(", ")", "|", "^", "$", " ", "[A-Z]", "[0-9]", "1", "[.]", "[!.]", "\\[", "\\\\", "é", "[é]", "[!é]", "[à-é]", "\xff",
	"\x00", "[\x00]", "\n", "\ufffd", "[é\xff]", "日", "\\é", "]", "!", "-", "}", ","}

func (g *G) pattern() string {
	if g.chance(0.06) {
		return g.pick("[", "a[", "[a", "[]", "a[b", "*[", "[!", "[a-", "[c-a]", "?[b")
	}
	if g.chance(0.04) { // what such a pattern means is open
		return g.pick("?{", "{}{", "z{", "{a,b}", "a{*,b}c", "{", "{a", "[a-cx]", "[^a]", "[a-]", "[-]", "[!-a]", "[--a]", "[\\]]", "a\\", "[[]", "{{a,b},c}*", "?{{", "[]-a]") + g.pick("", "", "?", "a", "*")
	}
	p := ""
	n := g.between(1, 5)
	if g.chance(0.15) {
		n = g.between(6, 12)
	}
	for i := n; i > 0; i-- {
		if g.chance(0.12) {
			p += g.of(oddGlobAtoms)
		} else {
			p += g.of(globAtoms)
		}
	}
	return p
}

func (g *G) globKey() string {
	var b strings.Builder
	n := g.between(1, 4)
	if g.chance(0.15) {
		n = g.between(5, 14)
	}
	for i := n; i > 0; i-- {
		if g.chance(0.15) {
			b.WriteString(g.pick("A", "B", ".", "+", "(", ")", "|", "^", "$", "\n", "\r", "\x00", "1", "\\", "[", "]", "!", "{", "}", ",", " ", "-", "é", "日", "\xff", "\xc3", "\ufffd", "à"))
		} else {
			b.WriteString(g.pick("a", "b", "c", "d", "e", "a", "b", "*", "?", "x"))
		}
	}
	return b.String()
}

// anyCmd is any command on any key with any arguments
func (g *G) anyCmd(ks []string) {
	g.choose([]choice{
		{3, func() { g.strCmd(ks) }},
		{1, func() { g.counterCmd(ks) }},
		{4, func() { g.listCmd(ks, 4) }},
		{3, func() { g.setCmd(ks) }},
		{2, func() { g.algebraCmd(ks) }},
		{4, func() { g.hashCmd(ks) }},
		{1, func() { g.hashCounterCmd(ks) }},
		{3, func() { g.zsetWrite(ks) }},
		{1, func() { g.zsetRead(ks, 4) }},
		{1, func() { g.zsetScoreRead(ks) }},
		{2, func() { g.keyCmd(ks) }},
	})
}

func (g *G) keyCmd(ks []string) {
	g.choose([]choice{
		{3, func() { g.add(cat([]string{"del"}, g.keysOf(ks, 1, 3)...)...) }},
		{3, func() { g.add(cat([]string{"exists"}, g.keysOf(ks, 1, 4)...)...) }},
		{3, func() { g.add("type", g.key(ks)) }},
		{2, func() { g.add("keys", g.all+"*") }},
	})
}

var allCommands = strings.Fields(`keys exists del type ping command set mset get mget incr incrby decr decrby append
lpush lpop rpush rpop llen lrange lrem lindex lset linsert
sadd scard sdiff sdiffstore sinter sinterstore sunion sunionstore sismember smembers smove srem spop
hdel hexists hget hgetall hincrby hincrbyfloat hkeys hlen hmget hmset hset hsetnx hvals
zadd zscore zrank zrem zcard zcount zincr zrange zrangebyscore zrevrange zpopmin zpopmax`)

// wrongCmd is likely to be refused
func (g *G) wrongCmd(ks []string) {
	k := g.key(ks)
	switch g.Intn(12) {
	case 0: // arguments missing
		c := g.of(allCommands)
		out := Cmd{c}
		for i := g.Intn(4); i > 0; i-- {
			out = append(out, g.pick(k, g.val()))
		}
		if c == "keys" && len(out) > 1 {
			out[1] = g.pattern()
		}
		g.add(out...)
	case 1:
		if g.chance(0.3) {
			g.add(make(Cmd, g.between(1, 3))...)
			return
		}
		g.add(cat([]string{g.pick("nosuch", "", "sett", "ge", "lpus", "\x00", "*1", "set\r\n", "mset ", "del\x00", "z")}, k, g.val())...)
	case 2:
		g.add(g.pick("incrby", "decrby"), k, g.pick(g.of(badInts), g.of(edgeInts)))
	case 3:
		g.add("mset", k, g.val(), g.key(ks), g.val(), g.key(ks))
	case 4:
		g.add(g.pick("hset", "hmset"), k, "f", g.val(), "g", g.val(), "h")
	case 5:
		g.add("zadd", k, "1", g.member(), g.of(badFloats), g.member())
	case 6:
		g.add("zadd", k, "1", g.member(), "2", g.member(), "3")
	case 7:
		c := Cmd{g.pick("sdiffstore", "sinterstore", "sunionstore"), k}
		if g.chance(0.5) { // the destination and some sources are sets, a source of another type may come anywhere
			bad := g.key(ks)
			for _, x := range ks {
				if x != bad && g.chance(0.8) {
					g.add("del", x)
					g.add(cat([]string{"sadd", x}, g.vals(1, 4)...)...)
				}
			}
			if g.chance(0.7) {
				g.add("del", bad)
				g.add(g.pick("set", "rpush"), bad, g.val())
			}
			src := g.keysOf(ks, 1, 4)
			if g.chance(0.5) {
				src[0] = k
			}
			if g.chance(0.7) {
				src = append(src, bad)
			}
			g.add(cat(c, src...)...)
			return
		}
		g.add(cat(c, g.keysOf(ks, 3, 3)...)...)
	case 8:
		g.add("smove", k, g.key(ks), g.val())
	case 9:
		g.add(g.pick("hincrby", "hincrbyfloat"), k, g.of(fields[:4]), g.pick(g.of(badInts), g.of(badFloats), g.of(edgeInts)))
	case 10:
		g.choose([]choice{
			{1, func() {
				g.add(g.pick("lpop", "rpop", "spop", "zpopmin", "zpopmax"), k, g.pick("0", "-1", g.of(badInts)))
			}},
			{1, func() { g.add("lset", k, g.pick("99", "-99", g.of(badInts)), g.val()) }},
			{1, func() { g.add("linsert", k, g.pick("before", "after", "x"), g.val(), g.val()) }},
			{1, func() { g.add("lrem", k, g.of(badInts), g.val()) }},
			{1, func() { g.add("lrange", k, g.of(badInts), "1") }},
			{1, func() { g.add("lrange", k, "1", g.of(badInts)) }},
			{1, func() { g.add("zincr", k, g.pick("nan", "inf", "-inf", g.of(badFloats)), g.member()) }},
			{1, func() {
				g.add("zadd", k, "incr", g.pick("inf", "-inf", "1"), g.member(), g.pick("-inf", "inf"), g.member())
			}},
		})
	case 11:
		g.add("keys", g.pick("[", "a[", "[z-a]", "[]"))
	}
}

// ---- views of the whole store ----

func (g *G) dumpStr(ks []string) { g.add(cat([]string{"mget"}, ks...)...) }

func (g *G) dumpList(k string) { g.add("lrange", k, "0", "-1"); g.add("llen", k) }

func (g *G) dumpSet(k string) { g.add("smembers", k); g.add("scard", k) }

func (g *G) dumpHash(k string) { g.add("hgetall", k); g.add("hlen", k) }

func (g *G) dumpZSet(k string) {
	g.add("zrange", k, "0", "-1", "withscores")
	g.add("zcard", k)
	g.add("zrevrange", k, "0", "-1")
	g.add("zcount", k, "-inf", "+inf")
}

func (g *G) typeOf(ks []string) {
	for _, k := range ks {
		g.add("type", k)
	}
}

// dumpAll shows every key under every type
func (g *G) dumpAll(ks []string) {
	g.add("keys", g.all+"*")
	g.dumpStr(ks)
	for _, k := range ks {
		g.add("type", k)
		g.add("lrange", k, "0", "-1")
		g.add("smembers", k)
		g.add("hgetall", k)
		g.add("zrange", k, "0", "-1", "withscores")
	}
}

func names(p string, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("%s%d", p, i+1)
	}
	return out
}

// plainPattern is a key as a pattern, without what may be malformed
func plainPattern(k string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune("[]{}\\", r) {
			return -1
		}
		return r
	}, k)
}
