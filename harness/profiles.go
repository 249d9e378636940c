package main

import (
	"fmt"
	"strconv"
	"strings"
)

// a profile makes the command lines of history number i
type profile func(g *G, i int)

func (g *G) rounds(n int, f func()) {
	for i := 0; i < n; i++ {
		f()
	}
}

// big is a size from lo to hi, and more than a thousand for some histories
func (g *G) big(i, lo, hi int) int {
	if i/7%6 == 5 && g.chance(0.5) {
		return g.between(1000, 1200)
	}
	return g.between(lo, hi)
}

// prefill gives k n elements in one command or several
func (g *G) prefill(cmd, k string, n int, arg func(i int) []string) {
	c := Cmd{cmd, k}
	for i := 0; i < n; i++ {
		c = append(c, arg(i)...)
		if len(c) > 2000 {
			g.add(c...)
			c = Cmd{cmd, k}
		}
	}
	if len(c) > 2 {
		g.add(c...)
	}
}

var profiles = map[string]profile{
	"C01": func(g *G, i int) {
		ks := g.keyNames("s", 4)
		if i%40 == 39 { // many keys in one command
			var all []string
			c := Cmd{"mset"}
			for j := g.between(100, 1100); j > 0; j-- {
				all = append(all, "s"+g.itoa(0, 1000))
				c = append(c, all[len(all)-1], g.val())
			}
			g.add(c...)
			g.dumpStr(all)
			g.add(c[:g.between(1, 30)*2+1]...)
			g.dumpStr(all)
			return
		}
		if i%8 == 7 { // long values
			max := 4000
			if i%32 == 31 {
				max = 70000
			}
			for j := 0; j < 12; j++ {
				k := g.of(ks)
				v := g.bytes(g.between(1, max))
				switch g.Intn(3) {
				case 0:
					g.add("set", k, v)
				case 1:
					g.add("append", k, v)
				case 2:
					g.add("mset", k, v, g.of(ks), g.bytes(g.between(0, 700)))
				}
				g.add("get", k)
				g.dumpStr(ks)
			}
			return
		}
		other := append(names("x", 2), ks...)
		g.rounds(70, func() {
			if g.chance(0.1) {
				g.add(g.pick("lpush", "sadd", "rpush"), g.of(names("x", 2)), "1")
			}
			if g.chance(0.1) {
				g.add("hset", g.of(names("x", 2)), "1", "2")
			}
			if g.chance(0.3) {
				g.strCmd(other)
			} else {
				g.strCmd(ks)
			}
			if g.chance(0.4) {
				g.dumpStr(other)
			}
			if g.chance(0.1) {
				g.add("get", g.of(ks))
			}
		})
		g.dumpStr(other)
	},
	"C02": func(g *G, i int) {
		ks := g.keyNames("n", 3)
		g.rounds(90, func() {
			g.counterCmd(ks)
			if g.chance(0.6) {
				g.dumpStr(ks)
			}
		})
		g.dumpStr(ks)
	},
	"C03": func(g *G, i int) {
		ks := g.keyNames("l", 3)
		n := 8
		if i%5 == 4 { // a few hundred elements
			n = g.big(i, 100, 400)
			for _, k := range ks[:2] {
				g.prefill(g.pick("rpush", "lpush"), k, n, func(int) []string { return []string{g.pick(g.of(plainVals), g.val())} })
			}
		}
		rounds := 70
		if n > 8 {
			rounds = 30
		}
		g.rounds(rounds, func() {
			g.listCmd(ks, n)
			if g.chance(0.5) {
				g.dumpList(g.of(ks))
			}
		})
		for _, k := range ks {
			g.dumpList(k)
			g.add("lindex", k, "0")
			g.add("lindex", k, "-1")
		}
	},
	"C04": func(g *G, i int) {
		ks := g.keyNames("t", 3)
		if i%6 == 5 {
			n := g.big(i, 100, 300)
			g.prefill("sadd", ks[0], n, func(i int) []string { return []string{strconv.Itoa(i)} })
			g.rounds(15, func() {
				g.add("spop", ks[0], g.itoa(0, 30))
				g.add("smove", ks[0], ks[1], g.itoa(0, n))
				g.add("srem", ks[0], g.itoa(0, n), g.itoa(0, n), g.itoa(0, n))
				g.dumpSet(ks[0])
				g.dumpSet(ks[1])
			})
			return
		}
		g.rounds(80, func() {
			g.setCmd(ks)
			if g.chance(0.5) {
				g.dumpSet(g.of(ks))
			}
		})
		for _, k := range ks {
			g.dumpSet(k)
		}
	},
	"C05": func(g *G, i int) {
		ks := g.keyNames("t", 5)
		if i%6 == 5 {
			for _, k := range ks {
				n := g.between(0, g.big(i, 10, 150))
				g.prefill("sadd", k, n, func(int) []string { return []string{g.itoa(0, 100+n)} })
			}
		}
		g.rounds(60, func() {
			g.algebraCmd(ks)
			if g.chance(0.3) {
				g.dumpSet(g.of(ks))
			}
			if g.chance(0.06) { // a destination of another type, a source of another type
				k := g.of(ks)
				g.add("del", k)
				g.add(g.pick("set", "rpush"), k, "v")
				g.algebraCmd(ks)
				g.algebraCmd(ks)
				g.add("type", k)
				g.add("del", k)
			}
		})
		for _, k := range ks {
			g.dumpSet(k)
			g.add("type", k)
		}
	},
	"C06": func(g *G, i int) {
		ks := g.keyNames("h", 3)
		if i%7 == 6 {
			n := g.big(i, 100, 300)
			g.prefill(g.pick("hset", "hmset"), ks[0], n, func(i int) []string { return []string{"f" + strconv.Itoa(i), g.hashVal()} })
			g.rounds(20, func() {
				g.add("hdel", ks[0], "f"+g.itoa(0, n), "f"+g.itoa(0, n), "f"+g.itoa(0, n))
				g.add("hset", ks[0], "f"+g.itoa(0, n), g.hashVal())
				g.add("hsetnx", ks[0], "f"+g.itoa(0, n), g.hashVal())
				g.add("hget", ks[0], "f"+g.itoa(0, n))
				g.add("hlen", ks[0])
			})
			g.dumpHash(ks[0])
			g.add("hkeys", ks[0])
			g.add("hvals", ks[0])
			return
		}
		g.rounds(70, func() {
			g.hashCmd(ks)
			if g.chance(0.4) {
				g.dumpHash(g.of(ks))
			}
		})
		for _, k := range ks {
			g.dumpHash(k)
			g.add("hkeys", k)
			g.add("hvals", k)
		}
	},
	"C07": func(g *G, i int) {
		ks := names("h", 2)
		g.rounds(90, func() {
			g.hashCounterCmd(ks)
			if g.chance(0.5) {
				g.dumpHash(g.of(ks))
			}
		})
	},
	"C08": func(g *G, i int) {
		ks := g.keyNames("z", 2)
		n := 5
		if i%4 == 2 { // scores close to each other
			bases := g.fineBasesOf()
			g.rounds(35, func() {
				k := g.of(ks)
				g.fineRound(k, bases)
				if g.chance(0.3) {
					g.dumpZSet(k)
				}
			})
			return
		}
		if i%4 == 3 {
			n = g.big(i, 60, 250)
			big := func(i int) []string { return []string{g.pick(g.itoa(0, 20), g.float()), "m" + strconv.Itoa(i)} }
			g.prefill("zadd", ks[0], n, big)
			g.rounds(25, func() {
				m := "m" + g.itoa(0, n)
				switch g.Intn(7) {
				case 0:
					g.add("zrem", ks[0], m, "m"+g.itoa(0, n))
				case 1:
					g.add("zadd", ks[0], g.float(), m)
				case 2:
					g.add("zincr", ks[0], g.itoa(-9, 9), m)
				case 3:
					g.add(g.pick("zpopmin", "zpopmax"), ks[0], g.itoa(1, 4))
				}
				g.add("zrank", ks[0], m)
				g.add("zscore", ks[0], m)
				g.add(g.pick("zrange", "zrevrange"), ks[0], g.idx(n), g.idx(n))
				if g.chance(0.2) {
					g.dumpZSet(ks[0])
				}
			})
			g.dumpZSet(ks[0])
			return
		}
		g.rounds(45, func() {
			g.zsetWrite(ks)
			if g.chance(0.6) {
				g.zsetRead(ks, n)
			}
			if g.chance(0.4) {
				k := g.of(ks)
				g.dumpZSet(k)
				g.add("zrank", k, g.member())
				g.add("zscore", k, g.member())
			}
		})
		for _, k := range ks {
			g.dumpZSet(k)
		}
	},
	"C09": func(g *G, i int) {
		ks := g.keyNames("z", 2)
		if i%6 == 2 { // scores and bounds close to each other
			bases := g.fineBasesOf()
			g.rounds(45, func() { g.fineRound(g.of(ks), bases) })
			return
		}
		if i%6 == 5 {
			n := g.big(i, 60, 250)
			g.prefill("zadd", ks[0], n, func(i int) []string { return []string{g.pick(g.itoa(-6, 6), g.float()), "m" + strconv.Itoa(i)} })
			g.rounds(25, func() { g.zsetScoreRead(ks[:1]) })
			return
		}
		g.rounds(30, func() {
			if g.chance(0.7) {
				c := Cmd{"zadd", g.of(ks)}
				for _, m := range g.members(1, 5) {
					c = append(c, g.pick(g.itoa(-5, 5), g.itoa(-5, 5), g.float(), g.pick("inf", "-inf")), m)
				}
				g.add(c...)
			} else {
				g.zsetWrite(ks)
			}
			g.rounds(3, func() { g.zsetScoreRead(append([]string{"zz"}, cat(ks, ks...)...)) })
			if g.chance(0.2) {
				g.dumpZSet(g.of(ks))
			}
		})
	},
	"C10": func(g *G, i int) {
		ks := g.keyNames("k", 3)
		g.rounds(35, func() {
			k := g.of(ks)
			g.anyCmd(ks)
			if g.chance(0.3) {
				g.add("type", k)
			}
			if g.chance(0.15) { // every type again after DEL
				g.add("del", k)
				g.choose([]choice{
					{1, func() { g.add("set", k, g.val()) }},
					{1, func() { g.add("rpush", k, g.val()) }},
					{1, func() { g.add("sadd", k, g.val()) }},
					{1, func() { g.add("hset", k, g.val(), g.val()) }},
					{1, func() { g.add("zadd", k, g.float(), g.val()) }},
					{1, func() { g.add("incrby", k, g.itoa(1, 9)) }},
					{1, func() { g.add("append", k, g.val()) }},
					{1, func() { g.add("hincrby", k, "f", "3") }},
					{1, func() { g.add("hincrbyfloat", k, "f", "0.5") }},
					{1, func() { g.add("hsetnx", k, "f", "3") }},
					{1, func() { g.add("zincr", k, "3", "f") }},
				})
				g.typeOf(ks)
			}
			if g.chance(0.25) {
				g.dumpAll(ks)
			}
		})
		g.dumpAll(ks)
	},
	"C11": func(g *G, i int) {
		ks := g.keyNames("e", 3)
		if i%15 == 14 { // large containers, and many keys in one command
			n := g.between(50, 600)
			num := func(j int) []string { return []string{strconv.Itoa(j)} }
			pair := func(j int) []string { return []string{strconv.Itoa(j), "m" + strconv.Itoa(j)} }
			many := strconv.Itoa(n)
			g.prefill("rpush", "l", n, num)
			g.prefill("sadd", "t", n, num)
			g.prefill("hset", "h", n, pair)
			g.prefill("zadd", "z", n, pair)
			g.prefill("zadd", "y", n, pair)
			g.add("exists", "l", "t", "h", "z", "y")
			g.add(g.pick("lpop", "rpop"), "l", many)
			g.add("spop", "t", many)
			g.prefill("hdel", "h", n, num)
			g.prefill("zrem", "z", n, func(j int) []string { return []string{"m" + strconv.Itoa(n-1-j)} })
			g.add(g.pick("zpopmin", "zpopmax"), "y", many)
			g.typeOf([]string{"l", "t", "h", "z", "y"})
			g.add("keys", "*")
			g.prefill("mset", "k", n, func(j int) []string { return []string{"v", "k" + strconv.Itoa(j)} })
			g.cmds[len(g.cmds)-1] = append(g.cmds[len(g.cmds)-1], "v")
			g.rounds(4, func() {
				c := Cmd{g.pick("exists", "del", "exists")}
				g.rounds(g.between(1, n), func() { c = append(c, "k"+g.itoa(0, n+3)) })
				g.add(c...)
			})
			g.add("keys", "*")
			return
		}
		few := []string{"a", "b"}
		v := func() string { return g.of(few) }
		g.rounds(40, func() {
			k := g.of(ks)
			switch g.Intn(24) {
			case 0, 1:
				g.add(g.pick("rpush", "lpush", "sadd"), k, v())
			case 2, 3:
				g.add("hset", k, v(), "1")
			case 4:
				g.add("zadd", k, g.itoa(1, 3), v())
			case 5:
				g.add("sadd", k, "a", "b")
			case 6, 7:
				g.add(g.pick("lpop", "rpop"), k, g.pick("1", "2", "3", "9223372036854775807"))
			case 8:
				g.add("lrem", k, g.itoa(-1, 1), v())
			case 9, 10:
				g.add("srem", k, v(), v())
			case 11:
				g.add(cat([]string{"spop", k}, g.pick("1", "2", "5"))...)
			case 12:
				g.add("smove", k, g.of(ks), v())
			case 13, 14:
				g.add("hdel", k, v(), v())
			case 15, 16:
				g.add("zrem", k, v(), v())
			case 17:
				g.add(g.pick("zpopmin", "zpopmax"), k, g.pick("1", "2", "5"))
			case 18:
				g.add(g.pick("sdiffstore", "sinterstore", "sunionstore"), k, g.of(ks), g.of(ks))
			case 19:
				g.missing("nokey")
			case 20:
				g.missing(k)
			case 21:
				g.add(g.pick("rpop", "lpop", "spop", "zpopmin", "zpopmax"), k)
			case 22:
				g.add(cat([]string{"del"}, g.keysOf(append(ks, "nokey"), 1, 4)...)...)
			case 23:
				g.add(g.pick("set", "append"), k, g.pick("", "v"))
			}
			g.add(cat([]string{"exists"}, cat(ks, g.of(ks), "nokey")...)...)
			g.typeOf(ks)
			g.add("keys", "*")
			if g.chance(0.15) {
				g.dumpAll(ks)
			}
		})
		g.dumpAll(ks)
	},
	"C12": func(g *G, i int) {
		ks := g.keyNames("k", 4)
		if i%10 == 9 { // the error concerns the last of many arguments
			g.rounds(8, func() {
				k := g.of(ks)
				g.add("del", k)
				if g.chance(0.7) {
					g.anyCmd(ks)
				}
				n := g.between(2, 400)
				c := Cmd{g.pick("zadd", "zadd", "hset", "hmset", "mset")}
				if c[0] != "mset" {
					c = append(c, k)
				}
				for j := 0; j < n; j++ {
					if c[0] == "mset" {
						c = append(c, g.pick(g.of(ks), "x"), g.val())
					} else {
						c = append(c, strconv.Itoa(j), g.val())
					}
				}
				switch {
				case g.chance(0.5):
					c = append(c, g.pick("1", g.of(ks)))
				case c[0] == "zadd":
					c = append(c, g.of(badFloats), "m")
				}
				g.add(c...)
				d := Cmd{g.pick("sunion", "sinter", "sdiff", "sunionstore", "sdiffstore", "sinterstore", "del", "exists", "mget"), k}
				g.rounds(g.between(1, 150), func() { d = append(d, g.pick("none", "none2", "none3")) })
				g.add(append(d, g.of(ks))...)
				g.dumpAll(append([]string{"x"}, ks...))
			})
			return
		}
		g.rounds(22, func() {
			g.anyCmd(ks)
			g.anyCmd(ks)
			g.wrongCmd(ks)
			g.wrongCmd(ks)
			g.dumpAll(ks)
		})
	},
	"C13": func(g *G, i int) {
		if i%60 == 59 { // many keys
			c := Cmd{"mset"}
			n := g.between(300, 1200)
			for j := 0; j < n; j++ {
				c = append(c, "k"+strconv.Itoa(j), "")
			}
			g.add(c...)
			g.rounds(6, func() {
				g.add("keys", g.pick("*", "k*", "k??", "*9", "k[1-3]?", "k\\1*", "k*[!0-4]", "nope*", "k7"))
				d := Cmd{"del"}
				g.rounds(40, func() { d = append(d, "k"+g.itoa(0, n)) })
				g.add(d...)
			})
		}
		g.rounds(8, func() {
			for j := g.between(1, 12); j > 0; j-- {
				k := g.globKey()
				switch g.Intn(5) {
				case 0:
					g.add("rpush", k, "1")
				case 1:
					g.add("sadd", k, "1")
				default:
					g.add("set", k, "1")
				}
			}
			g.rounds(12, func() { g.add("keys", g.pattern()) })
			g.add("keys", plainPattern(g.globKey()))
			g.add("keys", "*")
			for j := g.between(0, 8); j > 0; j-- {
				g.add("del", g.globKey())
			}
		})
		g.add("keys", "*")
	},
	"C14": func(g *G, i int) {
		ks := g.keyNames("k", 4)
		g.rounds(22, func() {
			if g.chance(0.3) {
				g.shared(ks)
			} else {
				g.anyCmd(ks)
			}
			if g.chance(0.4) { // the same key twice
				k := g.of(ks)
				switch g.Intn(8) {
				case 0:
					g.add("smove", k, k, g.val())
				case 1:
					g.add(g.pick("sdiffstore", "sinterstore", "sunionstore"), k, k, k)
				case 2:
					g.add(g.pick("sdiffstore", "sinterstore", "sunionstore"), k, k, g.of(ks))
				case 3:
					g.add(g.pick("sdiff", "sinter", "sunion"), k, k, g.of(ks), k)
				case 4:
					g.add("mset", k, "1", g.of(ks), "2", k, "3")
				case 5:
					g.add("mget", k, k, k)
				case 6:
					g.add("exists", k, k)
				case 7:
					g.add("sunionstore", g.of(ks), k)
					g.add("sadd", k, g.val(), g.val())
					g.add("srem", k, g.val(), g.val())
				}
			}
			g.dumpAll(ks)
		})
	},
	"C17": func(g *G, i int) {
		ks := names("k", 4)
		g.rounds(120, func() {
			if g.chance(0.15) {
				g.wrongCmd(ks)
			} else if g.chance(0.2) {
				g.add(g.pick("ping", "command", "PING", "COMMAND"))
			} else if g.chance(0.2) {
				c := g.of(allCommands)
				out := Cmd{c}
				for i := g.Intn(7); i > 0; i-- {
					out = append(out, g.pick(g.of(ks), g.val(), g.itoa(-2, 3), g.of(edgeInts)))
				}
				if c == "keys" {
					out = Cmd{c, g.pattern()}
				}
				if c == "zadd" || c == "zincr" {
					return // sums of such numbers are not exact
				}
				g.add(out...)
			} else {
				g.anyCmd(ks)
			}
		})
	},
	"C20": func(g *G, i int) {
		ks := []string{"l", "t", "h", "z", "s"}
		fill := func() {
			for _, k := range ks {
				if g.chance(0.3) {
					g.add("del", k)
				}
			}
			n := g.between(0, 5)
			g.add(cat([]string{g.pick("rpush", "lpush"), "l"}, cat(g.vals(n, n), "a")...)...)
			g.add(cat([]string{"sadd", "t"}, cat(g.vals(n, n), "a")...)...)
			g.add("hset", "h", "f", g.hashVal(), "a", g.int())
			g.add("zadd", "z", g.itoa(-3, 3), "a", g.itoa(-3, 3), "b", g.itoa(-3, 3), "c")
			g.add("set", "s", g.int())
			if g.chance(0.25) {
				n := g.between(60, 700)
				name := func(j int) []string { return []string{"m" + strconv.Itoa(j)} }
				which := g.Intn(4)
				switch which {
				case 0:
					g.prefill(g.pick("rpush", "lpush"), "l", n, name)
				case 1:
					g.prefill("sadd", "t", n, name)
				case 2:
					g.prefill("hset", "h", n, func(j int) []string { return []string{"m" + strconv.Itoa(j), strconv.Itoa(j)} })
				case 3:
					g.prefill("zadd", "z", n, func(j int) []string { return []string{strconv.Itoa(j % 9), "m" + strconv.Itoa(j)} })
				}
				if which != 2 && g.chance(0.6) { // all of them at once
					c := g.pick([][]string{{"lpop l", "rpop l", "lrange l 0", "lrem l m1"}, {"spop t"}, nil, {"zpopmin z", "zpopmax z", "zrange z 0", "zrevrange z 0"}}[which]...)
					x := append(Cmd(strings.Split(c, " ")), g.of(edgeInts))
					if x[0] == "lrem" {
						x[2], x[3] = x[3], x[2]
					}
					g.add(x...)
				}
			}
		}
		g.rounds(7, func() {
			fill()
			g.rounds(14, func() { g.edgeCmd() })
			if g.chance(0.4) {
				g.dumpAll(ks)
			}
		})
		g.dumpAll(ks)
	},
	"C23":   func(g *G, i int) { g.large(i) },
	"flood": func(g *G, i int) { g.flood() },
	"huge":  func(g *G, i int) { g.huge(i) },
	"deep":  func(g *G, i int) { g.deep() },
	"wide":  func(g *G, i int) { g.wide(i, g.between(10000, 12000)) },
	"wider": func(g *G, i int) { g.wide(i, 66000) },
}

// edge is a number at the limits: of the containers, of the types, of the syntax
func (g *G) edge() string {
	switch x := g.Intn(20); {
	case x < 9:
		return g.itoa(-8, 8)
	case x < 17:
		return g.of(edgeInts)
	}
	return g.of(badInts)
}

// edgeCmd is a command with numbers at the limits, on a key of its type mostly
func (g *G) edgeCmd() {
	k := func(k string) string {
		if g.chance(0.08) {
			return g.pick("none", "l", "t", "h", "z", "s")
		}
		return k
	}
	bound := func() string {
		return g.pick("", "(", "", "(", "((", "[") + g.pick("0", "-0", "1e308", "-1e308", "1e309", "-1e309", "5e-324", "-inf", "inf", "+inf", "nan", "", "-", "+", g.edge())
	}
	ws := g.pick("withscores", "WITHSCORES", "byscore")
	g.choose([]choice{
		{3, func() { g.add(g.pick("lpop", "rpop"), k("l"), g.edge()) }},
		{4, func() { g.add("lindex", k("l"), g.edge()) }},
		{3, func() { g.add("lset", k("l"), g.edge(), g.val()) }},
		{4, func() { g.add("lrange", k("l"), g.edge(), g.edge()) }},
		{3, func() { g.add("lrem", k("l"), g.edge(), g.pick("a", g.val())) }},
		{2, func() { g.add("linsert", k("l"), g.pick("before", "after", "", "\x00"), g.val(), g.val()) }},
		{3, func() { g.add("spop", k("t"), g.edge()) }},
		{3, func() { g.add(g.pick("zpopmin", "zpopmax"), k("z"), g.edge()) }},
		{4, func() { g.add(g.pick("zrange", "zrevrange"), k("z"), g.edge(), g.edge()) }},
		{2, func() { g.add(g.pick("zrange", "zrevrange"), k("z"), g.edge(), g.edge(), ws) }},
		{3, func() { g.add(g.pick("zrangebyscore", "zcount"), k("z"), bound(), bound()) }},
		{2, func() { g.add("zrange", k("z"), bound(), bound(), "byscore") }},
		{2, func() { g.add(g.pick("incrby", "decrby"), k("s"), g.edge()) }},
		{2, func() { g.add("hincrby", k("h"), g.pick("f", "a", "n"), g.edge()) }},
		{1, func() { g.add(g.pick("hset", "hmset"), k("h"), "a", g.edge()) }},
		{1, func() { g.add("set", k("s"), g.edge()) }},
		{1, func() {
			g.add("keys", g.pick("[", "[a", "\\", "***", "?", "", "[]", "[!", "[!]", "?{", "??{", "l{", "{}{", "{l,t"))
		}},
		{1, func() { g.add(cat([]string{g.of(allCommands[1:])}, g.vals(0, 2)...)...) }}, // but KEYS
	})
}

// shared puts one value into several places, and then changes one of them
func (g *G) shared(ks []string) {
	v := g.pick(g.val(), g.val(), g.itoa(-5, 500))
	a, b := g.of(ks), g.of(ks)
	g.add("del", a, b)
	g.choose([]choice{
		{4, func() { g.add("mset", a, v, b, v, g.of(ks), v) }},
		{2, func() { g.add("set", a, v); g.add("set", b, v) }},
		{1, func() { g.add("append", a, v); g.add("append", b, v) }},
		{2, func() { g.add("rpush", a, v, v, v); g.add("rpush", b, v, v) }},
		{2, func() { g.add("hset", a, "f", v, "g", v, "h", v); g.add("hset", b, "f", v) }},
		{2, func() { g.add("sadd", a, v, "a", "b"); g.add("sadd", b, v, "c") }},
		{2, func() { g.add("sadd", a, v, "a"); g.add(g.pick("sunionstore", "sinterstore", "sdiffstore"), b, a) }},
		{2, func() { g.add("zadd", a, "1", v, "1", "a"); g.add("zadd", b, "1", v) }},
		{1, func() { g.add("hset", a, v, v); g.add("set", b, v) }},
	})
	k := g.pick(a, b)
	for i := g.between(1, 3); i > 0; i-- {
		g.choose([]choice{
			{4, func() { g.add("append", k, g.val()) }},
			{2, func() { g.add(g.pick("incr", "decr"), k) }},
			{1, func() { g.add("incrby", k, g.itoa(-9, 9)) }},
			{2, func() { g.add("lset", k, "0", g.val()) }},
			{1, func() { g.add("lrem", k, "1", v) }},
			{1, func() { g.add("linsert", k, "after", v, g.val()) }},
			{2, func() { g.add("hset", k, "f", g.val()) }},
			{2, func() { g.add("hincrby", k, g.pick("f", v), "3") }},
			{2, func() { g.add("srem", k, v) }},
			{2, func() { g.add("sadd", k, g.val()) }},
			{1, func() { g.add("spop", k) }},
			{2, func() { g.add("zincr", k, "2", v) }},
			{1, func() { g.add("zrem", k, v) }},
			{1, func() { g.add("smove", a, b, v) }},
			{1, func() { g.add("del", k) }},
		})
	}
}

// wide is a container of n elements, and a few commands which look at it closely
func (g *G) wide(i, n int) {
	num := func(j int) []string { return []string{"m" + strconv.Itoa(j)} }
	at := func() string {
		return strconv.Itoa([]int{0, n - 1, n, n / 2, 255, 256, 65535, 65536, 32767, 32768, g.Intn(n), g.Intn(n)}[g.Intn(12)])
	}
	switch i % 5 {
	case 0:
		g.prefill(g.pick("rpush", "lpush"), "l", n, num)
		g.rounds(12, func() {
			x := at()
			g.add("lindex", "l", x)
			g.add("lindex", "l", "-"+x)
			g.add("lrange", "l", x, "+"+x)
			g.add("lset", "l", at(), "x")
		})
		g.add("llen", "l")
		g.add("linsert", "l", "before", "m"+at(), "x")
		g.add("lrem", "l", g.itoa(-3, 3), "x")
		g.add("lpop", "l", "3")
		g.add("rpop", "l", "3")
		g.add("llen", "l")
		g.add("rpop", "l", strconv.Itoa(n/2))
		g.add("lpop", "l", strconv.Itoa(n))
	case 1:
		g.prefill("sadd", "t", n, num)
		g.add("scard", "t")
		g.rounds(12, func() {
			g.add("sismember", "t", "m"+at())
			g.add("srem", "t", "m"+at(), "m"+at())
			g.add("sadd", "t", "m"+at(), "x")
			g.add("smove", "t", "u", "m"+at())
		})
		g.add("scard", "t")
		g.add("smembers", "t")
		g.add("sdiffstore", "w", "t", "u")
		g.add("scard", "w")
		g.add("spop", "t", strconv.Itoa(n-5))
		g.add("smembers", "t")
	case 2:
		g.prefill("hset", "h", n, func(j int) []string { return []string{"m" + strconv.Itoa(j), strconv.Itoa(j)} })
		g.add("hlen", "h")
		g.rounds(12, func() {
			g.add("hmget", "h", "m"+at(), "m"+at())
			g.add("hdel", "h", "m"+at(), "m"+at())
			g.add("hset", "h", "m"+at(), "x", "y", "x")
			g.add("hincrby", "h", "m"+at(), "1")
		})
		g.add("hlen", "h")
		g.add("hgetall", "h")
	case 3:
		g.prefill("zadd", "z", n, func(j int) []string { return []string{strconv.Itoa(j / 3), "m" + strconv.Itoa(j)} })
		g.add("zcard", "z")
		if n > 20000 { // what the specification counts at less cost
			g.rounds(12, func() {
				g.add("zscore", "z", "m"+at())
				g.add("zrem", "z", "m"+at())
				g.add("zadd", "z", at(), "m"+at())
			})
			g.rounds(3, func() { g.add("zrank", "z", "m"+strconv.Itoa(n-1-g.Intn(500))) })
			g.add("zcount", "z", "5", "inf")
			g.add("zcard", "z")
			return
		}
		g.rounds(6, func() {
			g.add("zrank", "z", "m"+at())
			g.add("zscore", "z", "m"+at())
			g.add("zrem", "z", "m"+at())
			g.add("zadd", "z", at(), "m"+at())
		})
		g.add("zrange", "z", "-5", "-1", "withscores")
		g.add("zcount", "z", "5", "inf")
		g.add("zpopmin", "z", strconv.Itoa(n/2))
		g.add("zcard", "z")
	case 4:
		c := Cmd{"mset"}
		for j := 0; j < n; j++ {
			c = append(c, "m"+strconv.Itoa(j), strconv.Itoa(j))
			if len(c) > 2000 || j == n-1 {
				g.add(c...)
				c = Cmd{"mset"}
			}
		}
		g.rounds(12, func() {
			g.add("mget", "m"+at(), "m"+at())
			g.add("del", "m"+at(), "m"+at())
			g.add("incr", "m"+at())
			g.add("exists", "m"+at(), "m"+at())
		})
		g.add("keys", "m??")
		g.add("keys", "*")
	}
}

// missing reads and removes from a key that is most likely missing
func (g *G) missing(k string) {
	for _, c := range [][]string{{"llen", k}, {"lrange", k, "0", "-1"}, {"lindex", k, "0"}, {"lpop", k}, {"rpop", k, "2"}, {"lrem", k, "0", "a"},
		{"scard", k}, {"smembers", k}, {"sismember", k, "a"}, {"srem", k, "a"}, {"spop", k}, {"smove", k, k + "x", "a"}, {"spop", k, "3"},
		{"sdiff", k}, {"sinter", k, k}, {"sunion", k}, {"sunionstore", k + "x", k}, {"sdiffstore", k + "x", k, k}, {"sinterstore", k + "x", k},
		{"hget", k, "f"}, {"hmget", k, "f", "g"}, {"hgetall", k}, {"hkeys", k}, {"hvals", k}, {"hlen", k}, {"hexists", k, "f"}, {"hdel", k, "f"},
		{"zscore", k, "m"}, {"zrank", k, "m"}, {"zcard", k}, {"zcount", k, "-inf", "inf"}, {"zrange", k, "0", "-1"}, {"zrevrange", k, "0", "-1"},
		{"zrangebyscore", k, "-inf", "inf"}, {"zrem", k, "m"}, {"zpopmin", k}, {"zpopmax", k, "2"}, {"get", k}, {"mget", k, k}, {"lset", k, "0", "a"},
		{"linsert", k, "before", "a", "b"}, {"exists", k, k}, {"type", k}, {"del", k + "x"}, {"zadd", k + "y", "xx", "1", "a"}, {"exists", k + "x", k + "y"}} {
		if g.chance(0.4) {
			g.add(c...)
		}
	}
}

// large values, containers, argument counts and stores
func (g *G) large(i int) {
	num := func(p string) func(int) []string {
		return func(j int) []string { return []string{p + strconv.Itoa(j)} }
	}
	scale := 1
	if i >= 16 {
		scale = 2
	}
	n := g.between(1000, 3000) * scale
	switch i % 8 {
	case 0: // strings
		for _, sz := range []int{1023, 1024, 4095, 4096, 4097, 8191, 16384, 32768, 65535, 65536, 65537, 100000 * scale} {
			v := g.bytes(sz + g.between(-1, 1))
			g.add("set", "s1", v)
			g.add("get", "s1")
			g.add("append", "s1", g.bytes(g.between(1, 3000)))
			g.add("mget", "s1", "s2", "s1")
			g.add("mset", "s2", v, "s3", "x")
			g.add("get", "s2")
			g.add("get", "s3")
		}
	case 1: // list
		g.prefill(g.pick("rpush", "lpush"), "l", n, num("v"))
		g.add("llen", "l")
		for _, x := range []int{0, 1, n / 2, n - 1, n, -1, -n / 2, -n, -n - 1, g.Intn(n), -g.Intn(n)} {
			g.add("lindex", "l", strconv.Itoa(x))
			g.add("lset", "l", strconv.Itoa(x), "dup")
		}
		g.rounds(5, func() { g.add("linsert", "l", g.pick("before", "after"), "v"+strconv.Itoa(g.Intn(n)), "dup") })
		g.add("lrange", "l", "0", "-1")
		g.add("lrem", "l", g.itoa(-3, 3), "dup")
		g.add("lpop", "l", strconv.Itoa(n/3))
		g.add("rpop", "l", strconv.Itoa(n/3))
		g.add("lrange", "l", "0", "-1")
		g.add("lrem", "l", "0", "dup")
		g.add("lpop", "l", strconv.Itoa(n))
		g.add("exists", "l")
	case 2: // set
		g.prefill("sadd", "t", n, num("m"))
		g.prefill("sadd", "u", n/2, num("m"))
		g.add("scard", "t")
		g.prefill("srem", "t", n/4, func(j int) []string { return []string{"m" + strconv.Itoa(j*3)} })
		g.add("smembers", "t")
		g.add("sdiff", "t", "u")
		g.add("sinter", "t", "u")
		g.add("sunionstore", "w", "t", "u")
		g.add("scard", "w")
		g.add("spop", "w", strconv.Itoa(n/2))
		g.add("smembers", "w")
		g.add("spop", "w", strconv.Itoa(n))
		g.add("exists", "w")
	case 3: // hash
		g.prefill("hset", "h", n, func(j int) []string { return []string{"f" + strconv.Itoa(j), strconv.Itoa(j * 7)} })
		g.add("hlen", "h")
		g.add("hgetall", "h")
		g.prefill("hdel", "h", n/3, func(j int) []string { return []string{"f" + strconv.Itoa(j*2)} })
		g.prefill("hmget", "h", n/2, num("f"))
		g.add("hkeys", "h")
		g.add("hvals", "h")
		g.add("hset", "h", "big", g.bytes(50000))
		g.add("hget", "h", "big")
		g.add("hlen", "h")
	case 4: // sorted set
		n /= 2
		g.prefill("zadd", "z", n, func(j int) []string { return []string{g.itoa(0, 500), "m" + strconv.Itoa(j)} })
		g.add("zcard", "z")
		g.add("zrange", "z", "0", "-1", "withscores")
		g.rounds(4, func() {
			m := "m" + strconv.Itoa(g.Intn(n))
			g.add("zrank", "z", m)
			g.add("zincr", "z", g.itoa(-400, 400), m)
			g.add("zrank", "z", m)
		})
		g.add("zrangebyscore", "z", g.itoa(0, 250), "("+g.itoa(250, 500))
		g.add("zcount", "z", g.itoa(0, 250), g.itoa(250, 500))
		g.prefill("zrem", "z", n/3, func(j int) []string { return []string{"m" + strconv.Itoa(j*2)} })
		g.add("zpopmin", "z", strconv.Itoa(n/6))
		g.add("zpopmax", "z", strconv.Itoa(n/6))
		g.add("zrevrange", "z", "0", "-1")
		g.add("zrange", "z", "0", "-1")
	case 5: // many keys
		c := Cmd{"mset"}
		for j := 0; j < n; j++ {
			c = append(c, "key"+strconv.Itoa(j), strconv.Itoa(j))
			if len(c) > 1500 {
				g.add(c...)
				c = Cmd{"mset"}
			}
		}
		if len(c) > 1 {
			g.add(c...)
		}
		g.add("keys", "*")
		g.add("keys", "key?")
		g.add("keys", "key*5")
		get := Cmd{"mget"}
		ex := Cmd{"exists"}
		del := Cmd{"del"}
		for j := 0; j < n; j++ {
			get = append(get, "key"+strconv.Itoa(g.Intn(n+50)))
			ex = append(ex, "key"+strconv.Itoa(g.Intn(n+50)))
			if j%3 == 0 {
				del = append(del, "key"+strconv.Itoa(j))
			}
		}
		g.add(get...)
		g.add(ex...)
		g.add(del...)
		g.add("keys", "*")
		g.add(get...)
	case 6: // large elements
		for j := 0; j < 20; j++ {
			v := g.bytes(g.between(1000, 9000))
			g.add("rpush", "l", v)
			g.add("sadd", "t", v)
			g.add("hset", "h", v[:500], v)
			g.add("zadd", "z", strconv.Itoa(j%5), v)
		}
		g.dumpList("l")
		g.dumpSet("t")
		g.dumpHash("h")
		g.dumpZSet("z")
	case 7: // many changes of few keys
		ks := []string{"a", "b"}
		g.rounds(1200, func() {
			switch g.Intn(4) {
			case 0:
				g.add("rpush", "l", g.of(plainVals), g.of(plainVals))
			case 1:
				g.add("lrem", "l", g.itoa(-2, 2), g.of(plainVals))
			case 2:
				g.add("incrby", g.of(ks), g.itoa(-1000, 1000))
			case 3:
				g.add("hincrby", "h", fmt.Sprint(g.Intn(30)), g.itoa(-5, 5))
			}
		})
		g.dumpList("l")
		g.dumpHash("h")
		g.dumpStr(ks)
	}
}

// flood is for batches of many commands with large replies between small ones
func (g *G) flood() {
	g.add("set", "s", g.bytes(g.between(1000, 120000)))
	g.add("set", "u", g.bytes(g.between(1, 30000)))
	g.prefill("rpush", "l", g.between(100, 900), func(j int) []string { return []string{"v" + strconv.Itoa(j)} })
	g.prefill("hset", "h", g.between(10, 300), func(j int) []string { return []string{"f" + strconv.Itoa(j), g.bytes(30)} })
	big := 0.1 + 0.9*g.Float64()
	g.rounds(g.between(300, 800), func() {
		if g.chance(big) {
			g.choose([]choice{
				{6, func() { g.add("get", "s") }},
				{2, func() { g.add("mget", "s", "u", "none", "s") }},
				{2, func() { g.add("get", "u") }},
				{1, func() { g.add("lrange", "l", "0", "-1") }},
				{1, func() { g.add("hgetall", "h") }},
			})
		} else {
			g.choose([]choice{
				{4, func() { g.add("incr", "n") }},
				{2, func() { g.add("get", "n") }},
				{1, func() { g.add("append", "u", "x") }},
				{1, func() { g.add("lindex", "l", g.itoa(-5, 5)) }},
				{1, func() { g.add("lpop", "l") }},
				{1, func() { g.add("type", "s") }},
				{1, func() { g.add("keys", "?") }},
				{1, func() { g.add("nocmd", "s") }},
				{1, func() { g.add("exists", "s", "x") }},
			})
		}
	})
}

// huge is a few values above a megabyte
func (g *G) huge(i int) {
	n := 1<<20 + g.between(-2, 2)
	if i%2 == 1 {
		n = g.between(1<<20, 3<<20)
	}
	v := g.bytes(n)
	switch i % 4 {
	case 0:
		g.add("set", "a", v)
		g.add("append", "a", "x")
		g.add("mget", "a", "b")
	case 1:
		g.add("mset", "b", "1", "a", v)
		g.add("get", "a")
		g.add("get", "b")
	case 2:
		g.add("rpush", "a", "x", v, "y")
		g.add("lindex", "a", "1")
		g.add("lrem", "a", "0", v)
		g.add("lrange", "a", "0", "-1")
	case 3:
		g.add("hset", "a", "f", v, "g", "1")
		g.add("hget", "a", "f")
		g.add("hgetall", "a")
	}
	g.add("type", "a")
}

// deep is for thousands of small requests sent in one go
func (g *G) deep() {
	g.add("set", "a", g.of(plainVals))
	g.rounds(g.between(9000, 22000), func() {
		g.choose([]choice{
			{6, func() { g.add("incr", "n") }},
			{4, func() { g.add("get", "n") }},
			{3, func() { g.add("ping") }},
			{2, func() { g.add("get", "a") }},
			{2, func() { g.add("exists", "a", "n", "x") }},
			{1, func() { g.add("rpush", "l", g.of(plainVals)) }},
			{1, func() { g.add("lpop", "l") }},
			{1, func() { g.add("llen", "l") }},
			{1, func() { g.add("nocmd") }},
			{1, func() { g.add("decrby", "n", g.itoa(-9, 9)) }},
			{1, func() { g.add("set", "a", g.of(plainVals)) }},
			{1, func() { g.add("hset", "h", fmt.Sprint(g.Intn(5)), g.itoa(0, 99)) }},
			{1, func() { g.add("hget", "h", fmt.Sprint(g.Intn(7))) }},
		})
	})
}
