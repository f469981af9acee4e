package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
	"sync"

	"github.com/kklash/mnemonikey"
	"golang.org/x/crypto/argon2"
)

// concurrent shares a seed, a key and two decoded phrases between goroutines; each goroutine's calls
// form a history of its own, which starts with the shared objects' creation.
func concurrent(n int) (out []*rec) {
	base := newRec(fmt.Sprintf("concurrent-%d", n), runSeed)
	seed := base.seedValue()
	off := base.offsetValue()
	base.newseed("s", false, seed, 0)
	o := opts{all: n%2 == 0, list: []string{"signing", "encryption"}, name: "n"}
	base.newkey("k", "s", "", base.at(off), o)
	base.encplain("p", "seed", "s", off)
	base.encenc("q", "seed", "s", off, []byte("pw"), base.bytes(16), 0)
	base.decode("d", base.phrases["p"])
	base.decode("e", base.phrases["q"])
	out = append(out, base)
	// Recording the objects above has already called their methods. The goroutines share twins of them on
	// which nothing has been called yet, so that whatever a first call does, it does in all of them at once.
	if s, err := mnemonikey.NewSeed(0, new(big.Int).SetBytes(seed)); err == nil {
		if k, err := mnemonikey.New(s, base.at(off), o.goOpts()); err == nil && base.keys["k"] != nil {
			if s2, err := mnemonikey.NewSeed(0, new(big.Int).SetBytes(seed)); err == nil {
				s = s2 // making the key has called methods of its seed
			}
			base.seeds["s"] = s
			base.keys["k"] = &keyInfo{mnk: k, seed: base.keys["k"].seed, off: base.keys["k"].off}
		}
	}
	for d, p := range map[string]string{"d": "p", "e": "q"} {
		if dm, err := mnemonikey.DecodeMnemonic(append([]string{}, base.phrases[p]...)); err == nil && base.decs[d] != nil {
			base.decs[d] = dm
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < 8; g++ {
		r := newRec(fmt.Sprintf("concurrent-%d-%d", n, g), runSeed)
		r.plain = true
		r.ev = append(r.ev, base.ev...)
		for k, v := range base.seeds {
			r.seeds[k] = v
		}
		for k, v := range base.keys {
			r.keys[k] = v
		}
		for k, v := range base.decs {
			r.decs[k] = v
		}
		for k, v := range base.phrases {
			r.phrases[k] = v
		}
		out = append(out, r)
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			first := []func(){
				func() { r.look("key", "k") },
				func() { r.export("k", request{mode: "full"}) },
				func() { r.look("dec", "e") },
				func() { r.encplain("c1", "key", "k", 0) },
				func() { r.export("k", request{mode: "sub", armor: true}) },
				func() { r.decrypt("e", "c2", []byte("pw")) },
				func() { r.encenc("c3", "key", "k", 0, []byte("other pw"), r.bytes(16), 0) },
				func() { r.look("seed", "s") },
				func() { r.decrypt("d", "c4", []byte("pw")) },
				func() { r.look("dec", "d") },
				func() { r.newkey("c5", "s", "", r.at(off), o) },
				func() { r.encplain("c6", "seed", "s", off) },
			}
			if n%4 == 0 {
				first = append(first, func() { r.export("k", request{mode: "sub", cert: true, pw: []byte("lock")}) })
			} else if n%4 == 2 {
				first = append(first, func() { r.export("k", request{mode: "full", pw: []byte("lock")}) })
			}
			for j := range first {
				first[(g+j)%len(first)]()
			}
			for j := 0; j < 5; j++ {
				h := fmt.Sprint(j)
				r.export("k", request{mode: []string{"full", "sub"}[(g+j)%2], cert: true})
				r.decrypt("e", "t"+h, []byte("pw"))
				r.seedof("d", "u"+h)
				r.look("key", "k")
				r.encplain("p"+h, "key", "k", 0)
				r.encplain("r"+h, "seed", "s", off)
				if (g+j)%3 == 0 {
					r.newkey("k"+h, "s", "", r.at(off), o)
					r.export("k"+h, request{mode: "full"})
				} else if (g+j)%3 == 1 {
					r.encenc("q"+h, "seed", "s", off, []byte("pw"), r.bytes(16), 0)
				} else {
					r.recov("k"+h, r.phrases["p"], false, nil, o)
				}
				r.look("dec", "e")
				r.look("seed", "s")
				// and what nobody else has
				m := "m" + h
				mine := r.offsetValue()
				r.genseed(m, r.bytes(16), 0, false)
				r.newkey("l"+h, m, "", r.at(mine), opts{all: true, name: r.nameValue(), email: r.emailValue(), sig: r.indexValue()})
				r.export("l"+h, request{mode: "full", armor: j%2 == 0})
				if j == 2 {
					r.newkey("long", m, "", r.at(mine), opts{all: true, name: strings.Repeat("long ", 1700+g)})
					r.export("long", request{mode: "sub"})
				}
				r.encenc("x"+h, "key", "l"+h, 0, []byte("my pw"), r.bytes(16), 0)
				r.decode("y"+h, r.phrases["x"+h])
				r.decrypt("y"+h, "z"+h, []byte("my pw"))
				if j == g%5 {
					r.export("l"+h, request{mode: "sub", cert: true, pw: []byte("lock")})
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	return
}

// writeFacts asks the real Argon2id directly for the values the specification will need.
func writeFacts(path string, recs []*rec) {
	facts := map[string]string{}
	ask := func(pw, salt []byte, n uint32) {
		key := fmt.Sprintf("%s/%s/%d", hx(pw), hx(salt), n)
		if _, ok := facts[key]; !ok {
			facts[key] = hx(argon2.IDKey(pw, salt, 4, 0x80000, 2, n))
		}
	}
	for _, r := range recs {
		for _, ki := range r.keys {
			salt := new(big.Int).SetUint64(1672531200 + uint64(ki.off)).FillBytes(make([]byte, 4))
			ask(ki.seed, salt, 32)
		}
		for _, e := range r.ev {
			if e["op"] != "encenc" && e["op"] != "decrypt" {
				continue
			}
			pw, _ := hex.DecodeString(e["pw"].(string))
			for _, ws := range r.phrases {
				if len(ws) != 16 {
					continue
				}
				x := new(big.Int)
				for _, w := range ws {
					x.Lsh(x, 12).Or(x, big.NewInt(int64(wordIndex(w))))
				}
				f := func(from, n uint) *big.Int {
					y := new(big.Int).Rsh(x, 192-from-n)
					return y.And(y, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(1)))
				}
				salt := f(132, 19)
				salt.Lsh(salt, 31).Or(salt, f(156, 31))
				ask(pw, salt.FillBytes(make([]byte, 7)), 17)
			}
		}
	}
	b, _ := json.Marshal(facts)
	if err := os.WriteFile(path, b, 0o600); err != nil {
		fatal(err)
	}
}
