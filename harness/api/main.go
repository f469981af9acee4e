// The replay harness: performs histories of public calls on the real library and records them.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
)

var stubbed = true

func fatal(err error) { fmt.Fprintln(os.Stderr, "harness:", err); os.Exit(3) }

func main() {
	scripts := flag.String("scripts", "", "file of scripts, one JSON array per line")
	fams := flag.String("families", "", "comma-separated families")
	outPath := flag.String("out", "", "trace file to write")
	realRun := flag.Bool("real", false, "the real Argon2id is linked in")
	conc := flag.Int("concurrent", 0, "concurrent histories")
	againPath := flag.String("again", "", "go on with the histories of this trace")
	factsPath := flag.String("facts", "", "write Argon2id facts here")
	seconds := flag.Int("find", 0, "look for rare seeds for so long")
	flag.BoolVar(&thorough, "thorough", false, "")
	flag.Int64Var(&runSeed, "seed", 1, "")
	flag.IntVar(&shard, "shard", 0, "")
	flag.IntVar(&shards, "shards", 1, "")
	flag.Parse()
	stubbed = !*realRun
	if *seconds > 0 {
		find(*seconds)
		return
	}

	var recs []*rec
	if *scripts != "" {
		f, err := os.Open(*scripts)
		if err != nil {
			fatal(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for n := 0; sc.Scan(); n++ {
			if !mine(n) {
				continue
			}
			recs = append(recs, replay(fmt.Sprintf("script-%d", n), sc.Text(), runSeed))
		}
	}
	if *fams != "" {
		for i, f := range strings.Split(*fams, ",") {
			g := families[f]
			if g == nil {
				fatal(fmt.Errorf("no family %q", f))
			}
			if sharded[f] || mine(i) {
				recs = append(recs, g()...)
			}
		}
	}
	for i := 0; i < *conc; i++ {
		recs = append(recs, concurrent(i)...)
	}
	if *againPath != "" {
		recs = append(recs, again(*againPath)...)
	}
	if *factsPath != "" {
		writeFacts(*factsPath, recs)
	}
	out, err := os.Create(*outPath)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	events := 0
	for _, r := range recs {
		if len(r.ev) == 0 {
			continue
		}
		events += len(r.ev)
		if err := enc.Encode(M{"id": r.id, "ev": r.ev}); err != nil {
			fatal(err)
		}
	}
	if err := w.Flush(); err != nil {
		fatal(err)
	}
	fmt.Printf("%d histories, %d events\n", len(recs), events)
}
