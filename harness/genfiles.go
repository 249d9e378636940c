package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// the generator of the command table, run on files in directories of its own

var genBin = flag.String("gen", "", "the generator")

func init() { modes["genfiles"] = genFiles }

type genRun struct {
	file  string
	lines []string
	made  []string
	kept  bool
	exit  int
	valid bool
	pairs [][2]string
}

const handlerSig = "(c *Command) (*protocol.Response, error)"

func (g *G) funcName() string {
	s := g.pick("a", "sAdd", "zadd", "HGet", "LPush", "get", "x", "Z", "mySet", "f")
	switch g.Intn(4) {
	case 0:
		s += g.itoa(0, 99)
	case 1:
		s += "_" + g.pick("a", "B", "1", "")
	}
	return s
}

// nameLine is a line above a handler
func (g *G) nameLine() []string {
	name := g.pick("set", "HSet", "lpush", "ZADD", "foo bar", "get.set", "a", "x-y", "client list", "with\"quote", `back\slash`, "tick`s", "100%", "%s", "{{ . }}",
		"naïve", "日本", "a//b", "'", "/*x*/", "a\tb", "func x"+handlerSig, "func "+g.funcName()+handlerSig+" {")
	switch g.Intn(24) {
	case 0:
		return nil
	case 1:
		return []string{"//"}
	case 2:
		return []string{"//" + g.pick(".", " .", "  ", " . ")}
	case 3:
		return []string{"// " + name, ""}
	case 4:
		return []string{"/* " + strings.ReplaceAll(name, "*/", "") + " */"}
	case 5:
		return []string{"/*", "// " + strings.ReplaceAll(name, "*/", ""), "*/"}
	case 6:
		return []string{"/* x", "// " + strings.ReplaceAll(name, "*/", "") + " */"}
	case 7:
		return []string{"var v" + g.itoa(0, 1e6) + " = `", "// " + strings.ReplaceAll(name, "`", "") + "`"}
	case 8:
		return []string{"// " + name, "// " + g.pick("second", "Other.", "")}
	case 9:
		return []string{"var w" + g.itoa(0, 1e6) + " = 1 // " + name}
	case 10:
		return []string{"// " + name + g.pick("..", " .", ". ", ".\t", "...")}
	case 11:
		return []string{g.pick(" ", "\t", "   ") + "//" + g.pick("", " ", "\t") + name + g.pick("", ".", " ")}
	case 12:
		return []string{"//" + name}
	case 13:
		return []string{"//" + name + "."}
	case 14:
		return []string{"// " + name, "func " + g.funcName() + "x" + g.itoa(0, 1e6) + "() {}"}
	case 15:
		return []string{"// " + name, " \t "}
	}
	return []string{"// " + name + g.pick("", "", ".")}
}

func (g *G) body() []string {
	switch g.Intn(6) {
	case 0:
		return []string{"{ return nil, nil }"}
	case 1:
		return []string{"{ // " + g.pick("x", "`", "\"", "/*", "'")}
	case 2:
		return []string{"{", "\t// set", "\tfunc() {", "\t}()"}
	case 3:
		return []string{"{", "\ts := " + g.pick("`/*`", `"/*"`, `"\"/*"`, `"\\"`, `string('"')`, "string('`')", `string('\'')`, `"//"`, "`//`", `"a" /* " */`), "\t_ = s"}
	case 4:
		return []string{"{", "\t_ = `", "// hidden", "func " + g.funcName() + handlerSig + " {", "`"}
	}
	return []string{"{", "\treturn nil, nil"}
}

func closeBody(b []string) []string {
	if strings.HasSuffix(b[0], "}") {
		return b
	}
	return append(b, "}")
}

// sourceLines is a Go file
func (g *G) sourceLines() []string {
	f := []string{"package " + g.pick("redis", "x"), ""}
	if g.chance(0.3) {
		f = append(f, "import (", "\t\"github.com/yusank/godis/protocol\" // protocol", ")", "")
	}
	for n := g.Intn(9); n > 0; n-- {
		switch g.Intn(12) {
		case 0: // no handler
			f = append(f, g.nameLine()...)
			h := g.pick("func (x *T) "+g.funcName()+handlerSig, "func "+g.funcName()+"(c *Command) error", "func "+g.funcName()+"(c *Command, n int) (*protocol.Response, error)",
				"func "+g.funcName()+"(c Command) (*protocol.Response, error)", "func "+g.funcName()+"(c *Command) (protocol.Response, error)",
				"func "+g.funcName()+"(c *Command) (*protocol.Response, bool)", "func "+g.funcName()+"()", "func init()",
				"func "+g.funcName()+"(c *Command) (*protocolXResponse, error)", "func "+g.funcName()+"(c *Commands) (*protocol.Response, error)",
				"func "+g.funcName()+"(c *Command) (*protocol.Responses, error)", "func "+g.funcName()+"(c *Command) (*protocol.Response, errors)",
				"func "+g.funcName()+"[T any](c *Command) (*protocol.Response, error)", "func "+g.funcName()+"(c *Command) *protocol.Response")
			f = append(f, h+" {", "}", "")
		case 1: // a comment that looks like one
			f = append(f, "/*", "// name", "func "+g.funcName()+handlerSig+" {", "}", g.pick("*/", "**/", " * */"), "")
		case 2:
			f = append(f, "var r"+g.itoa(0, 1e6)+" = `", "// name", "func "+g.funcName()+handlerSig+" {", "}"+g.pick("", "\\", "\"", "//", "/*")+"`", "")
		case 3:
			f = append(f, "// func "+g.funcName()+handlerSig+" {", "")
		case 4:
			f = append(f, "var h"+g.itoa(0, 1e6)+" = func"+handlerSig+" { return nil, nil }", "")
		case 5:
			f = append(f, "var q"+g.itoa(0, 1e6)+" = "+g.pick(`"/*"`, "'\"'", "'`'", `'\''`, `"\\"`, "`\"`", `"//"`, "4 / 2", "\"`\"", `"a\"/*"`), "")
		default:
			f = append(f, g.nameLine()...)
			b := closeBody(g.body())
			f = append(f, "func "+g.funcName()+handlerSig+" "+b[0])
			f = append(f, b[1:]...)
			if g.chance(0.6) {
				f = append(f, "")
			}
		}
	}
	if g.chance(0.02) { // a line longer than a reader's buffer
		l := "// " + strings.Repeat("x", g.between(60000, 70000))
		k := g.Intn(2) * len(f)
		f = append(f[:k], append([]string{l}, f[k:]...)...)
	}
	return f
}

// registered are the names a generated file registers, whatever form it has
func registered(src []byte) (pairs [][2]string, valid bool) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return nil, false
	}
	add := func(k, v ast.Expr) {
		lit, ok := k.(*ast.BasicLit)
		if !ok || lit.Kind != token.STRING {
			return
		}
		id, ok := v.(*ast.Ident)
		if !ok {
			return
		}
		if s, err := strconv.Unquote(lit.Value); err == nil {
			pairs = append(pairs, [2]string{s, id.Name})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for i, l := range n.Lhs {
				if x, ok := l.(*ast.IndexExpr); ok && i < len(n.Rhs) {
					add(x.Index, n.Rhs[i])
				}
			}
		case *ast.KeyValueExpr:
			add(n.Key, n.Value)
		case *ast.CallExpr:
			if len(n.Args) == 2 {
				add(n.Args[0], n.Args[1])
			}
		}
		return true
	})
	return pairs, f.Name.Name == "redis"
}

func listDir(root string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(root, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

// generate runs the generator on a file of a directory
func generate(gen, dir, file, arg string) (r genRun, err error) {
	r.file = file
	before := listDir(dir)
	cmd := exec.Command(gen, arg)
	cmd.Dir = dir
	var log bytes.Buffer
	cmd.Stderr = &log
	if err := cmd.Run(); err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			return r, err
		}
		r.exit = cmd.ProcessState.ExitCode()
	}
	after := listDir(dir)
	r.kept = true
	for k, v := range before {
		if a, ok := after[k]; !ok || a != v && k != strings.TrimSuffix(file, ".go")+".cmd.go" {
			r.kept = false
		}
	}
	for k, v := range after {
		if b, ok := before[k]; !ok || b != v {
			r.made = append(r.made, k)
		}
	}
	if len(r.made) == 0 { // what was generated before may be what is to be
		to := strings.TrimSuffix(file, ".go") + ".cmd.go"
		if _, ok := before[to]; ok && to != file {
			r.made = append(r.made, to)
		}
	}
	sort.Strings(r.made)
	if len(r.made) == 1 {
		r.pairs, r.valid = registered([]byte(after[r.made[0]]))
	}
	return r, nil
}

// genCase is a directory with a file for the generator
type genCase struct {
	file, arg, old string
	before         string // the source the generator was run on before
	lines          []string
	text           string
	other          bool
}

// renamed is a source of the same length with other letters
func (g *G) renamed(text string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(text, "\n") {
		if i := strings.Index(l, "(c *Command)"); strings.HasPrefix(l, "func ") && i > 5 && g.chance(0.5) {
			l = "func " + strings.Map(g.other(), l[5:i]) + l[i:]
		} else if strings.HasPrefix(l, "// ") && g.chance(0.5) {
			l = "// " + strings.Map(g.other(), l[3:])
		}
		b.WriteString(l)
	}
	return b.String()
}

func (g *G) other() func(rune) rune {
	by := rune(1 + g.Intn(25))
	return func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return 'a' + (r-'a'+by)%26
		case r >= 'A' && r <= 'Z':
			return 'A' + (r-'A'+by)%26
		}
		return r
	}
}

func (g *G) genCase(lines []string) (c genCase, ok bool) {
	c.lines = lines
	eol := g.pick("\n", "\n", "\n", "\r\n")
	c.text = strings.Join(lines, eol)
	if g.chance(0.8) {
		c.text += eol
	}
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", c.text, 0); err != nil {
		return c, false
	}
	c.file = g.pick("x.go", "a.go", "hash_table.go", "x_y.go", "cmd.go", "xcmd.go", "a.b.go", "d/x.go", "d.go/x.go", "go.go")
	if g.chance(0.12) {
		c.file = g.pick("x.cmd.go", ".cmd.go", "x.txt", "x", "xgo", "x.go.txt", "x.go~", "d.go/x", "x.GO", "x.cmd.go.cmd.go")
	}
	c.arg = g.pick(c.file, "./"+c.file, "")
	if g.chance(0.3) && strings.HasSuffix(c.file, ".go") && !strings.HasSuffix(c.file, ".cmd.go") { // generated before, from more
		c.old = "package redis\n" + strings.Repeat("// old\n", g.Intn(300)) + "func init() {\n\timplementedCommands[\"old\"] = old\n}\n"
	}
	if c.old == "" && g.chance(0.3) { // the names were others then, or in another order
		c.before = g.renamed(c.text)
	}
	c.other = g.chance(0.5)
	return c, true
}

func (c genCase) run(gen, d string) (r genRun, err error) {
	defer os.RemoveAll(d)
	p := filepath.Join(d, c.file)
	files := map[string]string{p: c.text}
	if c.other {
		files[filepath.Join(d, "other.go")] = "package x\n\nfunc other" + handlerSig + " { return nil, nil }\n"
	}
	if c.old != "" {
		files[strings.TrimSuffix(p, ".go")+".cmd.go"] = c.old
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return r, err
	}
	for k, v := range files {
		if err := os.WriteFile(k, []byte(v), 0o644); err != nil {
			return r, err
		}
	}
	arg := c.arg
	if arg == "" {
		arg = p
	}
	if c.before != "" {
		if err := os.WriteFile(p, []byte(c.before), 0o644); err != nil {
			return r, err
		}
		if _, err := generate(gen, d, c.file, arg); err != nil {
			return r, err
		}
		if err := os.WriteFile(p, []byte(c.text), 0o644); err != nil {
			return r, err
		}
	}
	r, err = generate(gen, d, c.file, arg)
	r.lines = c.lines
	return r, err
}

func genFiles() error {
	g := newG(*seed)
	gen := *genBin
	dir, err := os.MkdirTemp("", "godis-gen-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	var cases []genCase
	handlers, dropped := 0, 0
	if *in != "" {
		f, err := os.Open(*in)
		if err != nil {
			return err
		}
		defer f.Close()
		for d := json.NewDecoder(f); ; {
			var lines []string
			if err := d.Decode(&lines); err != nil {
				break
			}
			if c, ok := g.genCase(append([]string{"package x"}, lines...)); ok {
				cases = append(cases, c)
			} else {
				dropped++
			}
		}
	}
	for n := 0; n < *count; {
		c, ok := g.genCase(g.sourceLines())
		if !ok {
			if dropped++; dropped > 10*n+100 {
				return fmt.Errorf("too many files which are not Go:\n%s", c.text)
			}
			continue
		}
		cases = append(cases, c)
		n++
	}
	runs := make([]genRun, len(cases))
	errs := make([]error, *jobs)
	var wg sync.WaitGroup
	for j := 0; j < *jobs; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			for k := j; k < len(cases) && errs[j] == nil; k += *jobs {
				runs[k], errs[j] = cases[k].run(gen, filepath.Join(dir, strconv.Itoa(k)))
			}
		}(j)
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		return err
	}
	for _, r := range runs {
		handlers += len(r.pairs)
	}
	tree, err := treeEvent(gen, filepath.Join(dir, "tree"), g)
	if err != nil {
		return err
	}
	report = map[string]interface{}{"traces": len(runs) + 1, "files": len(runs), "handlers": handlers, "not_go": dropped, "known": len(tree.known), "unknown": len(tree.unknown)}
	pairs := func(w *jw, ps [][2]string) {
		w.s("[")
		for i, p := range ps {
			if i > 0 {
				w.s(",")
			}
			w.ids(p[:])
		}
		w.s("]")
	}
	return writeJSON(*out, func(w *jw) {
		for _, r := range runs {
			w.s(`[{"e":"gen","file":`)
			w.n(w.t.of(r.file))
			w.s(`,"lines":`)
			w.ids(r.lines)
			b, _ := json.Marshal(map[string]interface{}{"exit": r.exit, "kept": r.kept, "valid": r.valid})
			w.s("," + string(b[1:len(b)-1]) + `,"made":`)
			w.ids(r.made)
			w.s(`,"pairs":`)
			pairs(w, r.pairs)
			w.s("}],\n")
		}
		w.s(`[{"e":"tree","pairs":`)
		pairs(w, tree.pairs)
		w.s(`,"committed":`)
		pairs(w, tree.committed)
		w.s(`,"known":`)
		w.ids(tree.known)
		w.s(`,"unknown":`)
		w.ids(tree.unknown)
		w.s(`,"files":[`)
		for i, f := range tree.files {
			if i > 0 {
				w.s(",")
			}
			w.ids(f)
		}
		w.s("]}]")
	})
}

type treeRun struct {
	pairs, committed [][2]string
	known, unknown   []string
	files            [][]string
}

const handlerDir = "/repo/redis"

// treeEvent runs the generator on the handlers of the tree, and asks the server which names it knows
func treeEvent(gen, dir string, g *G) (t treeRun, err error) {
	if err = os.MkdirAll(dir, 0o755); err != nil {
		return
	}
	es, err := os.ReadDir(handlerDir)
	if err != nil {
		return
	}
	for _, e := range es {
		name := e.Name()
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(handlerDir, name))
		if err != nil {
			return t, err
		}
		if strings.HasSuffix(name, ".cmd.go") {
			p, _ := registered(b)
			t.committed = append(t.committed, p...)
			continue
		}
		d := filepath.Join(dir, name+".d")
		_ = os.MkdirAll(d, 0o755)
		if err := os.WriteFile(filepath.Join(d, name), b, 0o644); err != nil {
			return t, err
		}
		r, err := generate(gen, d, name, name)
		if err != nil {
			return t, err
		}
		t.pairs = append(t.pairs, r.pairs...)
		t.files = append(t.files, strings.Split(strings.ReplaceAll(string(b), "\r\n", "\n"), "\n"))
	}

	names := map[string]bool{}
	for _, p := range append(append([][2]string{}, t.pairs...), t.committed...) {
		n := p[0]
		for _, x := range []string{n, p[1], strings.ToUpper(n), n + "x", "x" + n, n[:len(n)-1], n + " ", n + "\x00", " " + n, n + "\n", n + n, strings.Title(n)} {
			names[x] = true
		}
	}
	for _, x := range []string{"", "*", "config", "flushall", "select", "info", "echo", "object", "expire", "ttl", "bitcount", "sort", "dump", "lpos", "hello", "client", "quit", "auth"} {
		names[x] = true
	}
	var all []string
	for n := range names {
		all = append(all, n)
	}
	sort.Strings(all)
	s, err := startServer(nil)
	if err != nil {
		return
	}
	defer s.Kill()
	ask := func(n string) (string, error) {
		c, err := dial(s.addr)
		if err != nil {
			return "", err
		}
		defer c.Close()
		return c.Pipe([]Cmd{{n}})[0].String(), nil
	}
	none, err := ask("no-such-command")
	if err != nil {
		return
	}
	for _, n := range all {
		r, err := ask(n)
		if err != nil {
			return t, err
		}
		if r == none {
			t.unknown = append(t.unknown, n)
		} else {
			t.known = append(t.known, n)
		}
	}
	return t, nil
}
