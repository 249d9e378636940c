// Command drv drives godis and records what it does, for the specification to judge.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
)

var (
	seed      = flag.Int64("seed", 1, "random seed")
	count     = flag.Int("n", 10, "how many")
	out       = flag.String("out", "", "trace file to write")
	scen      = flag.String("scenario", "", "scenario")
	prof      = flag.String("profile", "", "profile")
	in        = flag.String("in", "", "file to read")
	latin     = flag.Bool("latin", false, "strings of the input are Latin-1 encoded bytes")
	jobs      = flag.Int("j", 6, "parallel servers")
	batch     = flag.Int("batch", 50, "commands sent at once")
	batchSize = flag.Int("bytes", 1<<16, "bytes sent at once, about")
	bin       = flag.String("bin", "", "server binary")
)

var modes = map[string]func() error{}

// report is printed as JSON at the end of a run
var report = map[string]interface{}{}

func main() {
	if len(os.Args) < 2 || modes[os.Args[1]] == nil {
		var ms []string
		for m := range modes {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		fmt.Fprintln(os.Stderr, "modes:", ms)
		os.Exit(2)
	}
	if os.Args[1] != "-addr" {
		_ = flag.CommandLine.Parse(os.Args[2:])
	}
	serverBin = *bin
	if err := modes[os.Args[1]](); err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		os.Exit(2)
	}
	b, _ := json.Marshal(report)
	fmt.Println(string(b))
}
