package main

import (
	"bufio"
	"os"
	"strconv"
)

// Event is a command with its reply
type Event struct {
	Args  Cmd
	Reply Reply
}

// Hist is a recorded history of one client
type Hist struct {
	Name string
	Ev   []Event
}

// table numbers byte strings from 1
type table struct {
	id  map[string]int
	all []string
}

func newTable() *table { return &table{id: map[string]int{}} }

func (t *table) of(s string) int {
	if i, ok := t.id[s]; ok {
		return i
	}
	t.all = append(t.all, s)
	t.id[s] = len(t.all)
	return len(t.all)
}

// jw writes JSON
type jw struct {
	*bufio.Writer
	t *table
}

func (w *jw) s(x string) { _, _ = w.WriteString(x) }
func (w *jw) n(i int)    { _, _ = w.WriteString(strconv.Itoa(i)) }

func (w *jw) ids(a []string) {
	w.s("[")
	for i, x := range a {
		if i > 0 {
			w.s(",")
		}
		w.n(w.t.of(x))
	}
	w.s("]")
}

func (w *jw) reply(r Reply) {
	switch r.Kind {
	case 'a':
		w.s(`["a",[`)
		for i, x := range r.Arr {
			if i > 0 {
				w.s(",")
			}
			w.reply(x)
		}
		w.s("]]")
	case 'n', 'x':
		w.s(`["` + string(r.Kind) + `"]`)
	default:
		w.s(`["` + string(r.Kind) + `",`)
		w.n(w.t.of(r.Str))
		w.s("]")
	}
}

func (w *jw) bytes(s string) {
	w.s("[")
	for i := 0; i < len(s); i++ {
		if i > 0 {
			w.s(",")
		}
		w.n(int(s[i]))
	}
	w.s("]")
}

func (w *jw) table() {
	w.s(`"s":[`)
	for i, x := range w.t.all {
		if i > 0 {
			w.s(",\n")
		}
		w.bytes(x)
	}
	w.s("]")
}

// writeJSON creates a trace file: body writes the "t" part
func writeJSON(path string, body func(w *jw)) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	w := &jw{bufio.NewWriterSize(f, 1<<20), newTable()}
	w.s(`{"t":[`)
	body(w)
	w.s("],\n")
	w.table()
	w.s("}\n")
	if err := w.Flush(); err != nil {
		return err
	}
	return f.Close()
}

func writeHists(path string, hs []Hist) error {
	return writeJSON(path, func(w *jw) {
		for i, h := range hs {
			if i > 0 {
				w.s(",\n")
			}
			w.s("[")
			for j, e := range h.Ev {
				if j > 0 {
					w.s(",")
				}
				w.s(`{"a":`)
				w.ids(e.Args)
				w.s(`,"r":`)
				w.reply(e.Reply)
				w.s("}")
			}
			w.s("]")
		}
	})
}
