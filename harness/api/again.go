package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"
)

// again reads the histories another process recorded, last one first, and goes on with each of them:
// every key whose phrase was written down is recovered from that phrase and exported the same way.
func again(path string) (out []*rec) {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	var lines []string
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	if sc.Err() != nil {
		fatal(sc.Err())
	}
	for n := len(lines) - 1; n >= 0; n-- {
		if !mine(n) {
			continue
		}
		var h struct {
			ID string
			Ev []M
		}
		if err := json.Unmarshal([]byte(lines[n]), &h); err != nil {
			fatal(err)
		}
		r := newRec(h.ID+"+", runSeed)
		type made struct {
			o    opts
			reqs []request
			ws   []string
			pw   []byte
			enc  bool
		}
		keys := map[string]*made{}
		var order []string
		ok := func(e M) bool { return e["r"].(M)["ok"] == true }
		unhex := func(x any) []byte { b, _ := hex.DecodeString(x.(string)); return b }
		for _, e := range h.Ev {
			switch e["op"] {
			case "newkey", "recplain", "recenc":
				if ok(e) {
					k := e["k"].(string)
					if keys[k] == nil {
						order = append(order, k)
					}
					keys[k] = &made{o: optsOf(e["opts"].(M))}
				}
			case "encplain", "encenc":
				if k := keys[e["h"].(string)]; e["via"] == "key" && ok(e) && k != nil {
					k.ws, k.enc = nil, e["op"] == "encenc"
					for _, w := range e["r"].(M)["words"].([]any) {
						k.ws = append(k.ws, w.(string))
					}
					if k.enc {
						k.pw = unhex(e["pw"])
					}
				}
			case "export":
				q := e["req"].(M)
				if k := keys[e["k"].(string)]; k != nil && ok(e) && q["pw"] == "" {
					k.reqs = append(k.reqs, request{mode: q["mode"].(string), cert: q["cert"].(bool), armor: q["armor"].(bool)})
				}
			}
		}
		for i := len(order) - 1; i >= 0; i-- {
			k := keys[order[i]]
			if k.ws == nil {
				continue
			}
			name := fmt.Sprint("again", i)
			r.recov(name, k.ws, k.enc, k.pw, k.o)
			for _, q := range k.reqs {
				r.export(name, q)
			}
		}
		if len(r.ev) == 0 {
			continue
		}
		r.ev = append(append([]M{}, h.Ev...), r.ev...)
		out = append(out, r)
	}
	return
}

func optsOf(m M) opts {
	num := func(x any) uint16 { return uint16(x.(float64)) }
	b := func(x any) string { v, _ := hex.DecodeString(x.(string)); return string(v) }
	o := opts{name: b(m["name"]), email: b(m["email"]), all: m["all"].(bool), enc: num(m["enc"]), auth: num(m["auth"]), sig: num(m["sig"]), list: []string{}}
	for _, t := range m["list"].([]any) {
		o.list = append(o.list, t.(string))
	}
	t := m["ttl"].(M)
	sec, _ := strconv.ParseUint(t["sec"].(string), 16, 64)
	o.ttl = time.Duration(sec)*time.Second + time.Duration(t["ns"].(float64))
	if t["neg"].(bool) {
		o.ttl = -o.ttl
	}
	return o
}
