package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/bits"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/wordlist4096"
)

var thorough bool
var runSeed int64

func pick(q, t int) int {
	if thorough {
		return t
	}
	return q
}

// Systematic histories: every family walks one dimension of the input space.
var families = map[string]func() []*rec{
	"bits": famBits, "offsets": famOffsets, "encrypted": famEncrypted, "words": famWords, "edits": famEdits,
	"forged": famForged, "indices": famIndices, "times": famTimes, "ttls": famTTLs, "uids": famUIDs,
	"exports": famExports, "oddnumbers": famOddNumbers, "sources": famSources, "chains": famChains,
	"repeat": famRepeat, "aliases": famAliases, "salts": famSalts, "guesses": famGuesses, "real": famReal,
	"ciphers": famCiphers, "edgebytes": famEdgeBytes, "nonces": famNonces, "relatives": famRelatives,
	"passwords": famPasswords, "locks": famLocks, "deepnumbers": famDeepNumbers, "indexsweep": famIndexSweep, "wordsweep": famWordSweep,
}

// Families in sharded are split over several processes; the others run in one of them.
var shard, shards = 0, 1
var sharded = map[string]bool{"exports": true, "repeat": true, "aliases": true, "oddnumbers": true, "edgebytes": true, "nonces": true, "salts": true,
	"relatives": true, "locks": true, "deepnumbers": true, "indexsweep": true, "wordsweep": true}

func mine(i int) bool { return i%shards == shard }

func mk(name string, i int) *rec { return newRec(fmt.Sprintf("%s-%d", name, i), runSeed) }

func edgeSeeds() [][]byte {
	var out [][]byte
	one := big.NewInt(1)
	step := pick(3, 1)
	for k := 0; k < 128; k += step {
		out = append(out, new(big.Int).Lsh(one, uint(k)).FillBytes(make([]byte, 16)))
	}
	for k := 0; k <= 16; k++ { // k leading zero bytes, then ones
		b := make([]byte, 16)
		for i := k; i < 16; i++ {
			b[i] = 0xFF
		}
		out = append(out, b)
	}
	return out
}

func famBits() (out []*rec) {
	var r *rec
	for i, s := range edgeSeeds() {
		if i%6 == 0 {
			r = mk("bits", i)
			out = append(out, r)
		}
		h, p, d := fmt.Sprint("s", i), fmt.Sprint("p", i), fmt.Sprint("d", i)
		r.newseed(h, false, s, 0)
		r.encplain(p, "seed", h, r.offsetValue())
		r.decode(d, r.phrases[p])
		r.seedof(d, "t"+h)
		r.decrypt(d, "u"+h, []byte("irrelevant"))
	}
	return
}

func famOffsets() (out []*rec) {
	var offs []uint32
	for k := 0; k < 32; k++ {
		offs = append(offs, 1<<k, 1<<k-1)
	}
	offs = append(offs, 1<<32-1, 1<<31+1, 1<<31-1672531200, 1<<31-1672531201, 474952447, 474952448)
	var r *rec
	for i, off := range offs {
		if i%6 == 0 {
			r = mk("offsets", i)
			out = append(out, r)
			r.genseed("s", r.bytes(16), 0, false)
		}
		p, d := fmt.Sprint("p", i), fmt.Sprint("d", i)
		r.encplain(p, "seed", "s", off)
		r.decode(d, r.phrases[p])
		r.encenc("e"+p, "seed", "s", off, []byte("pw"), r.bytes(16), 0)
		r.decode("e"+d, r.phrases["e"+p])
		r.decrypt("e"+d, fmt.Sprint("t", i), []byte("pw"))
	}
	return
}

func famEncrypted() (out []*rec) {
	for i := 0; i < pick(30, 200); i++ {
		r := mk("encrypted", i)
		out = append(out, r)
		r.newseed("s", false, r.seedValue(), 0)
		pw := r.passwordValue()
		r.encenc("p", "seed", "s", r.offsetValue(), pw, r.bytes(16), r.rng.Intn(2))
		r.decode("d", r.phrases["p"])
		r.seedof("d", "x")
		r.decrypt("d", "t", pw)
		r.decrypt("d", "y", append(append([]byte{}, pw...), 0))
		if len(pw) > 1 {
			r.decrypt("d", "z", pw[:len(pw)-1])
		}
		r.decrypt("d", "e", nil)
		r.recov("k", r.phrases["p"], true, pw, opts{all: true, name: "n"})
		r.recov("k2", r.phrases["p"], false, nil, opts{all: true, name: "n"})
	}
	return
}

// seeds chosen so that their encryption is special: short, empty, full
func famCiphers() (out []*rec) {
	var patterns [][]byte
	for k := 0; k <= 16; k++ { // k leading zero bytes
		b := make([]byte, 16)
		for i := k; i < 16; i++ {
			b[i] = byte(0x81 + 7*i)
		}
		patterns = append(patterns, b)
	}
	for k := 0; k < 16; k++ { // k trailing zero bytes
		b := make([]byte, 16)
		for i := 0; i < k; i++ {
			b[i] = byte(0x11 + 5*i)
		}
		patterns = append(patterns, b)
	}
	full := make([]byte, 16)
	for i := range full {
		full[i] = 0xFF
	}
	patterns = append(patterns, full)
	sources := [][]byte{make([]byte, 32), append(full, full...), append([]byte{0, 0, 1}, make([]byte, 29)...), nil}
	var r *rec
	n := 0
	for i, pat := range patterns {
		for j, src := range sources {
			if !thorough && (i+j)%2 == 1 {
				continue
			}
			if n%8 == 0 {
				r = mk("ciphers", n)
				out = append(out, r)
			}
			n++
			if src == nil {
				src = r.bytes(32)
			}
			id := fmt.Sprint(i, "/", j)
			pw := r.passwordValue()
			off := r.offsetValue()
			r.newseed("a"+id, false, []byte{1}, 0)
			r.encenc("q"+id, "seed", "a"+id, off, pw, src, 0)
			ws := append([]string{}, r.phrases["q"+id]...)
			if len(ws) != 16 {
				continue
			}
			x := new(big.Int)
			for _, w := range ws {
				x.Lsh(x, 12).Or(x, big.NewInt(int64(wordIndex(w)&4095)))
			}
			for b := 0; b < 128; b++ {
				x.SetBit(x, 192-4-128+b, uint(pat[15-b/8]>>(b%8))&1)
			}
			for k := 15; k >= 0; k-- {
				ws[k] = wordlist4096.WordList[new(big.Int).And(x, big.NewInt(4095)).Int64()]
				x.Rsh(x, 12)
			}
			seed, _ := indepSeed(ws, pw)
			r.newseed("s"+id, false, seed, 0)
			r.encenc("p"+id, "seed", "s"+id, off, pw, src, 0)
			r.decode("d"+id, r.phrases["p"+id])
			r.decrypt("d"+id, "t"+id, pw)
			r.recov("k"+id, r.phrases["p"+id], true, pw, opts{all: true, name: "n"})
		}
	}
	return
}

// many wrong passwords against a few phrases: some collide on the verify bits
func famGuesses() (out []*rec) {
	for i := 0; i < pick(4, 24); i++ {
		r := mk("guesses", i)
		out = append(out, r)
		r.newseed("s", false, r.seedValue(), 0)
		r.encenc("p", "seed", "s", r.offsetValue(), []byte("right"), r.bytes(16), 0)
		r.decode("d", r.phrases["p"])
		for j := 0; j < 60; j++ {
			r.decrypt("d", fmt.Sprint("t", j), []byte(fmt.Sprint("wrong", j)))
			if j%20 == 0 {
				r.recov(fmt.Sprint("k", j), r.phrases["p"], true, []byte(fmt.Sprint("wrong", j)), opts{all: true})
			}
		}
		r.decrypt("d", "t", []byte("right"))
	}
	// phrases whose verify bits take every value, guessed at with passwords whose bits are near
	o := opts{all: true, name: "n"}
	for v := 0; v < 32; v++ {
		r := mk("verify", v)
		r.newseed("s", false, r.seedValue(), 0)
		off := r.offsetValue()
		var src []byte
		for j := 0; j < 2000; j++ {
			src = r.bytes(8)
			if verifyBits(salt19(src), off, []byte("right")) == v {
				break
			}
		}
		out = append(out, r)
		r.encenc("p", "seed", "s", off, []byte("right"), src, 0)
		r.decode("d", r.phrases["p"])
		r.decrypt("d", "t", []byte("right"))
		for _, want := range []int{v, v ^ 1, v ^ 2, v ^ 4, v ^ 8, v ^ 16, v ^ 31, 0, 31} {
			for j := 0; j < 2000; j++ {
				pw := []byte(fmt.Sprint("guess", want, "/", j))
				if verifyBits(salt19(src), off, pw) == want {
					r.decrypt("d", fmt.Sprint("t", want), pw)
					r.recov(fmt.Sprint("k", want), r.phrases["p"], true, pw, o)
					break
				}
			}
		}
	}
	// passwords a caller might not count as a guess happen to fit
	for i, pw := range []string{"", "", "\x00", " ", "password", "Right", "right ", "right\n", "rightright", "RIGHT", " right"} {
		r := mk("fitting", i)
		r.newseed("s", false, r.seedValue(), 0)
		off := r.offsetValue()
		var src []byte
		for j := 0; j < 5000; j++ {
			src = r.bytes(8)
			if verifyBits(salt19(src), off, []byte(pw)) == verifyBits(salt19(src), off, []byte("right")) {
				break
			}
		}
		out = append(out, r)
		r.encenc("p", "seed", "s", off, []byte("right"), src, 0)
		r.decode("d", r.phrases["p"])
		r.recov("k", r.phrases["p"], false, nil, o)
		r.seedof("d", "x")
		r.decrypt("d", "y", []byte(pw))
		r.recov("l", r.phrases["p"], true, []byte(pw), o)
		r.decrypt("d", "t", []byte("right"))
		r.seedof("d", "z")
	}
	return
}

func salt19(src []byte) uint64 { return uint64(src[0]&7)<<16 | uint64(src[1])<<8 | uint64(src[2]) }

func extreme(b byte) bool { return b == 0 || b == 0xFF || b == 0x80 || b == 0x7F }

// keys whose secret and public numbers begin and end with every kind of extreme byte
func famEdgeBytes() (out []*rec) {
	s := mk("edgesearch", 0)
	const off = 1234567
	covered := map[string]int{}
	total := 4*2*4*4 + 4*4 + 8*4
	n := 0
	for i := 0; i < 9000 && len(covered) < total; i++ {
		seed := s.bytes(16)
		fresh := 0
		mark := func(parts ...any) {
			id := fmt.Sprint(parts...)
			if covered[id]++; covered[id] == 1 {
				fresh++
			}
		}
		// around the bits that clamping changes
		c := derived(seed, off, "mnemonikey encryption subkey\x00\x00")
		if extreme(c[30]) {
			mark("top", c[31]>>6, c[30])
		}
		if extreme(c[1]) {
			mark("low", c[0]&7, c[1])
		}
		for k, pair := range keyNumbers(seed, off) {
			for j, b := range pair {
				for p, at := range []int{0, 1, 30, 31} {
					if extreme(b[at]) {
						mark(k, j, p, b[at])
					}
				}
			}
		}
		if fresh == 0 {
			continue
		}
		n++
		if !mine(n) {
			continue
		}
		r := mk("edgebytes", i)
		out = append(out, r)
		r.newseed("s", false, seed, 0)
		r.newkey("k", "s", "", r.at(off), opts{all: true, name: "n"})
		r.export("k", request{mode: "full"})
		if n%4 == 0 || thorough {
			r.export("k", request{mode: "sub", cert: true})
		}
	}
	return
}

// many protected exports, whose salts and IVs are looked at together (with those of the other processes)
func famNonces() (out []*rec) {
	r := mk("nonces", 0)
	out = append(out, r)
	raws := []string{}
	r.newseed("s", false, []byte("0123456789abcdef"), 0)
	r.newkey("k", "s", "", mnemonikey.EpochStart, opts{all: true, name: "n"})
	if k := r.keys["k"]; k != nil {
		for i := 0; i < pick(2, 12); i++ {
			raw, _, _, _ := doExport(k.mnk, request{mode: "full"}, []byte("pw"))
			raws = append(raws, hx(raw))
		}
	}
	r.ev = nil
	r.add("noncesweep", M{"raws": raws})
	return
}

func famWords() (out []*rec) {
	var r *rec
	step := pick(3, 1)
	n := 0
	for i := 0; i < 4096; i++ {
		edge := i%256 == 0 || i%256 == 255
		if i%step != int(runSeed)%step && !edge {
			continue
		}
		if n%300 == 0 {
			r = mk("words", i)
			out = append(out, r)
		}
		n++
		w := wordlist4096.WordList[i]
		if r.rng.Intn(2) == 0 {
			w = r.casing(w)
		}
		r.parsever(w)
	}
	for _, w := range foreignWords {
		r.parsever(w)
	}
	for v := uint(0); v < 300; v++ {
		r.version(v)
	}
	for i := uint(9); i < bits.UintSize; i++ {
		for _, v := range []uint{1 << i, 1<<i + 1, 1<<i - 1, ^uint(0) - uint(r.rng.Intn(3))} {
			r.version(v)
		}
	}
	for i := 0; i < pick(10, 100); i++ {
		r = mk("decorated", i)
		out = append(out, r)
		w := r.anyWord()
		if i == 0 {
			w = "zoo"
		} else if i%2 == 0 { // a word that a phrase can begin with
			w = wordlist4096.WordList[r.rng.Intn(512)]
		}
		for _, x := range decorations(w) {
			r.parsever(x)
			if r.rng.Intn(3) == 0 {
				r.parsever(r.casing(x))
			}
		}
	}
	return
}

func famEdits() (out []*rec) {
	// phrases with words of every length, repeated, prolonged, and with words that are nearly right
	byLen := map[int][]int{}
	for i, w := range wordlist4096.WordList {
		byLen[len(w)] = append(byLen[len(w)], i)
	}
	for i := 0; i < pick(4, 16); i++ {
		r := mk("nearly", i)
		out = append(out, r)
		v := i % 2
		body := new(big.Int).Rand(r.rng, new(big.Int).Lsh(big.NewInt(1), 8))
		for n := 0; n < 12+2*v; n++ {
			c := byLen[3+(n+i)%6]
			body.Lsh(body, 12).Or(body, big.NewInt(int64(c[r.rng.Intn(len(c))])))
		}
		body.Lsh(body, 7).Or(body, big.NewInt(int64(r.rng.Intn(128))))
		ws := forge(v, body)
		r.decode("d", ws)
		n := 0
		dec := func(ws []string) { n++; r.decode(fmt.Sprint("d", n), ws) }
		for j := range ws {
			for k, x := range decorations(ws[j]) {
				bad := append([]string{}, ws...)
				bad[j] = x
				if k%9 == 3 {
					bad = r.edit(bad, "case")
				}
				dec(bad)
			}
		}
		for j := 1; j <= 60; j++ {
			var long []string
			for len(long) < j {
				long = append(long, ws[len(long)%len(ws)])
			}
			dec(long)
			if j > len(ws) {
				long = append([]string{}, ws...)
				for len(long) < j {
					long = append(long, []string{"", " ", r.anyWord(), "\n"}[j%4])
				}
				dec(long)
			}
		}
		for _, m := range []int{100, 256, 1000, 4096} {
			var long []string
			for len(long) < m*len(ws) {
				long = append(long, ws...)
			}
			if m < 1000 || i == 0 {
				dec(long)
				dec(long[:m])
			}
		}
	}
	// every checksum of a payload: one is right
	for i := 0; i < pick(8, 40); i++ {
		r := mk("checksums", i)
		out = append(out, r)
		v := i % 2
		bits := 14*12 - 9 + 24*v
		body := new(big.Int).Rand(r.rng, new(big.Int).Lsh(big.NewInt(1), uint([]int{bits, 7, bits / 2, bits, 1, 40, 31, bits - 8}[i%8])))
		ws := forge(v, body)
		for c := 0; c < 32; c++ {
			try := append([]string{}, ws...)
			try[len(ws)-1] = wordlist4096.WordList[wordIndex(ws[len(ws)-1])&^31|c]
			r.decode(fmt.Sprint("d", c), try)
			if c%8 == i%8 {
				r.recov(fmt.Sprint("k", c), try, false, nil, opts{all: true})
			}
		}
	}
	for i := 0; i < pick(4, 30); i++ {
		r := mk("edits", i)
		out = append(out, r)
		r.newseed("s", false, r.seedValue(), 0)
		r.encplain("p", "seed", "s", r.offsetValue())
		r.encenc("q", "seed", "s", r.offsetValue(), r.passwordValue(), r.bytes(16), 0)
		n := 0
		dec := func(ws []string) { n++; r.decode(fmt.Sprint("d", n), ws) }
		for _, p := range []string{"p", "q"} {
			ws := r.phrases[p]
			if len(ws) == 0 {
				continue
			}
			dec(r.edit(ws, "case"))
			for j := range ws {
				for k := 0; k < 4; k++ { // single-word substitutions
					out := append([]string{}, ws...)
					out[j] = r.anyWord()
					dec(out)
				}
				out := append([]string{}, ws...)
				out[j] = wordlist4096.WordList[(wordIndex(ws[j])+1)%4096]
				dec(out)
				out = append([]string{}, ws...)
				out[j] = r.foreign()
				dec(out)
			}
			for j := 0; j < 20; j++ { // all lengths
				var out []string
				for len(out) < j {
					out = append(out, ws[len(out)%len(ws)])
				}
				dec(out)
			}
			for j := range ws { // words that are nearly right
				for k, x := range decorations(ws[j]) {
					if k%len(ws) != (j+i)%len(ws) && !thorough {
						continue
					}
					out := append([]string{}, ws...)
					out[j] = x
					dec(out)
					if k%5 == 0 {
						r.recov(fmt.Sprint("k", j, "/", k), out, false, nil, opts{all: true})
					}
				}
			}
			for _, how := range []string{"append", "drop", "empty", "version", "swap", "version"} {
				bad := r.edit(ws, how)
				dec(bad)
				r.recov("k"+how, bad, false, nil, opts{all: true})
				r.recov("l"+how, bad, true, []byte("x"), opts{all: true})
			}
			for j := 1; j < len(ws); j++ { // adjacent transpositions
				out := append([]string{}, ws...)
				out[j], out[j-1] = out[j-1], out[j]
				dec(out)
			}
		}
	}
	return
}

// phrases no encoder of ours produced: every bit pattern with a right checksum is a phrase
func famForged() (out []*rec) {
	for i := 0; i < pick(12, 80); i++ {
		r := mk("forged", i)
		out = append(out, r)
		for j := 0; j < 10; j++ {
			v := r.rng.Intn(2)
			bits := 14*12 - 9
			if v == 1 {
				bits = 16*12 - 9
			}
			body := new(big.Int).Rand(r.rng, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
			switch r.rng.Intn(6) {
			case 0:
				body.SetInt64(0)
			case 1:
				body.Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
			case 2:
				body.Lsh(big.NewInt(1), uint(r.rng.Intn(bits)))
			}
			ws := forge(v, body)
			d := fmt.Sprint("d", j)
			r.decode(d, ws)
			r.seedof(d, "s"+d)
			r.decrypt(d, "t"+d, []byte("guess"))
			bad := append([]string{}, ws...)
			last := wordIndex(bad[len(bad)-1])
			bad[len(bad)-1] = wordlist4096.WordList[last^(1<<r.rng.Intn(5))] // wrong checksum
			r.decode("x"+d, bad)
		}
	}
	return
}

func famIndices() (out []*rec) {
	idx := []uint16{0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65280, 65534, 65535}
	if thorough {
		for i := 3; i < 65536; i += 251 {
			idx = append(idx, uint16(i))
		}
	}
	var r *rec
	for i, x := range idx {
		if i%5 == 0 {
			r = mk("indices", i)
			out = append(out, r)
			r.newseed("s", false, r.seedValue(), 0)
			r.newkey("k", "s", "", r.at(12345), opts{all: true, name: "n"})
		}
		at := r.at(12345)
		y := idx[r.rng.Intn(len(idx))]
		r.newkey(fmt.Sprint("ka", i), "s", "", at, opts{all: true, enc: x, name: r.nameValue()})
		r.newkey(fmt.Sprint("kb", i), "s", "", at, opts{all: true, auth: x, sig: y, ttl: time.Hour})
		r.newkey(fmt.Sprint("kc", i), "s", "", at, opts{all: false, list: []string{"signing", "encryption"}, sig: x, enc: y})
		k := fmt.Sprint([]string{"ka", "kb", "kc"}[i%3], i)
		r.export(k, request{mode: "full"})
		r.export(k, request{mode: "sub", cert: true})
	}
	// indices that stand in some relation to each other
	for i := 0; i < pick(5, 40); i++ {
		r := mk("related", i)
		out = append(out, r)
		r.newseed("s", false, r.seedValue(), 0)
		at := r.at(r.offsetValue())
		x := uint16(r.rng.Intn(1 << (4 + 3*(i%5))))
		y := []uint16{x + 1, x ^ 256, x<<8 | x>>8, ^x, uint16(r.rng.Intn(65536))}[r.rng.Intn(5)]
		for j := 0; j < 8; j++ {
			of := func(b int) uint16 { return []uint16{x, y}[j>>b&1] }
			r.newkey(fmt.Sprint("k", j), "s", "", at, opts{all: true, name: "n", enc: of(0), auth: of(1), sig: of(2), ttl: time.Duration(r.rng.Intn(2)) * time.Hour})
		}
		r.export("k0", request{mode: "full"})
	}
	// lists with something else in them than the names of the types
	odd := mk("oddlists", 0)
	out = append(out, odd)
	odd.newseed("s", false, odd.seedValue(), 0)
	for i, l := range [][]string{{""}, {"bogus"}, {"all"}, {"master"}, {"*"}, {"Signing"}, {"encryption "}, {"enc"}, {"authentication,signing"}, {"sign", "signing"},
		{"", "encryption"}, {"signing", ""}, {"subkey"}, {"mnemonikey signing"}, {"encryption", "none"}, {"\x00"}, {"signing subkey"}, {"", "", "", ""}} {
		k := fmt.Sprint("k", i)
		odd.newkey(k, "s", "", odd.at(77), opts{list: l, name: "n"})
		odd.export(k, request{mode: []string{"full", "sub"}[i%2], cert: true})
	}
	// every selection, with the same indices, beside the whole set
	types := []string{"encryption", "authentication", "signing"}
	for i := 0; i < pick(4, 40); i++ {
		r := mk("subsets", i)
		out = append(out, r)
		r.newseed("s", false, r.seedValue(), 0)
		at := r.at(r.offsetValue())
		o := opts{all: true, name: "n", enc: r.indexValue() | 1, auth: r.indexValue() | 2, sig: r.indexValue() | 4}
		if i%2 == 1 {
			o.enc, o.auth, o.sig = r.indexValue(), r.indexValue(), r.indexValue()
		}
		r.newkey("all", "s", "", at, o)
		for s := 0; s < 8; s++ {
			p := o
			p.all, p.list = false, []string{}
			for b := 0; b < 3; b++ {
				if s&(1<<b) != 0 {
					p.list = append(p.list, types[b])
				}
			}
			k := fmt.Sprint("k", s)
			p.ttl = time.Duration(r.rng.Intn(3)*r.rng.Intn(100000)) * time.Second
			if r.rng.Intn(2) == 0 {
				p.name, p.email = r.nameValue(), r.emailValue()
			}
			r.newkey(k, "s", "", at, p)
			if s%3 == i%3 {
				r.export(k, request{mode: "sub", cert: true})
			}
		}
		o.enc, o.auth, o.sig = 0, 0, 0
		r.newkey("zero", "s", "", at, o)
	}
	return
}

// one subkey of each type at every index
// famWordSweep puts every word of the list in every place of some phrases, and every checksum behind the smallest payloads.
func famWordSweep() (out []*rec) {
	sweep := func(r *rec, ws []string, at, from, to int) {
		try := append([]string{}, ws...)
		outs, alts := []string{}, []int{}
		for w := from; w < to; w++ {
			try[at] = wordlist4096.WordList[w]
			ok, class := call(func() error { _, err := mnemonikey.DecodeMnemonic(append([]string{}, try...)); return err })
			if ok {
				class = ""
			}
			outs, alts = append(outs, class), append(alts, w)
		}
		r.add("wordsweep", M{"ws": wordsOut(ws), "at": at + 1, "alts": alts, "outs": outs})
	}
	for i := 0; i < pick(2, 12); i++ {
		for at := 0; at < 14+2*(i%2); at++ {
			if !mine(i*16 + at) {
				continue
			}
			r := newRec(fmt.Sprintf("wordsweep-%d", i), runSeed)
			ws := forge(i%2, new(big.Int).Rand(r.rng, new(big.Int).Lsh(big.NewInt(1), uint(14*12-9+24*(i%2)))))
			r.id = fmt.Sprintf("wordsweep-%d-%d", i, at)
			out = append(out, r)
			sweep(r, ws, at, 0, 4096)
		}
	}
	for i := 0; i < 16; i++ {
		if !mine(i) {
			continue
		}
		r := mk("tinysweep", i)
		out = append(out, r)
		for b := i * 16; b < i*16+16; b++ {
			for v := 0; v < 2; v++ {
				ws := forge(v, big.NewInt(int64(b)))
				k := wordIndex(ws[len(ws)-1]) &^ 31
				sweep(r, ws, len(ws)-1, k, k+32)
				top := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(14*12-9+24*v)), big.NewInt(int64(b+1)))
				ws = forge(v, top)
				k = wordIndex(ws[len(ws)-1]) &^ 31
				sweep(r, ws, len(ws)-1, k, k+32)
			}
		}
	}
	return
}

func famIndexSweep() (out []*rec) {
	for i, typ := range allTypes {
		if !mine(i) {
			continue
		}
		r := mk("indexsweep", i)
		out = append(out, r)
		seed, off := r.bytes(16), r.offsetValue()
		s, err := mnemonikey.NewSeed(0, new(big.Int).SetBytes(seed))
		if err != nil {
			return nil
		}
		fps := make([]string, 65536)
		for x := range fps {
			o := &mnemonikey.KeyOptions{Subkeys: []mnemonikey.SubkeyType{typ}}
			switch i {
			case 0:
				o.EncryptionSubkeyIndex = uint16(x)
			case 1:
				o.AuthenticationSubkeyIndex = uint16(x)
			case 2:
				o.SigningSubkeyIndex = uint16(x)
			}
			call(func() error {
				k, err := mnemonikey.New(s, r.at(off), o)
				if err == nil {
					fps[x] = hx(k.SubkeyFingerprint(typ))
				}
				return err
			})
		}
		looked := []int{}
		for x := r.rng.Intn(200); x < 65536; x += 1 + r.rng.Intn(pick(400, 40)) {
			looked = append(looked, x)
		}
		r.add("indexsweep", M{"type": string(typ), "seed": hx(seed), "off": off4(off), "fps": fps, "close": looked})
	}
	return
}

func famTimes() (out []*rec) {
	max := time.Unix(mnemonikey.EpochStart.Unix()+1<<31-1, 0)
	times := []time.Time{mnemonikey.EpochStart, mnemonikey.EpochStart.Add(-1), mnemonikey.EpochStart.Add(1), mnemonikey.EpochStart.Add(999999999),
		mnemonikey.EpochStart.Add(time.Second), max, max.Add(1), max.Add(-1), max.Add(time.Second), max.Add(-time.Second), {},
		time.Date(2038, 1, 19, 3, 14, 7, 999999999, time.UTC), time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC),
		time.Date(1969, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(9999, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(2106, 2, 7, 6, 28, 16, 0, time.UTC),
		time.Unix(1<<62, 0), time.Unix(-1<<62, 0), time.Date(2024, 2, 29, 23, 59, 60, 5, time.FixedZone("x", -43200)),
		time.Now()}
	for k := uint(0); k < 31; k += uint(pick(3, 1)) {
		times = append(times, time.Unix(mnemonikey.EpochStart.Unix()+1<<k, int64(k)*30000000))
	}
	for _, y := range []int{-5000, -1, 0, 1, 100, 500, 1000, 1400, 1500, 1600, 1677, 1678, 1679, 1700, 1750, 1800, 1850, 1900, 1901, 1902, 1930, 1950,
		1969, 1970, 1971, 1980, 1990, 1999, 2000, 2010, 2020, 2022, 2023, 2030, 2037, 2039, 2050, 2069, 2070, 2080, 2090, 2091, 2092, 2100, 2105, 2107, 2150, 2159, 2160, 2200,
		2242, 2261, 2262, 2263, 2300, 2400, 2500, 2607, 2847, 3000, 4000, 5000, 10000, 30000, 100000, 1000000} {
		times = append(times, time.Date(y, 4, 11, 23, 47, 16, 5, time.UTC))
	}
	var r *rec
	for i, t := range times {
		if i%6 == 0 {
			r = mk("times", i)
			out = append(out, r)
			r.newseed("s", false, r.seedValue(), 0)
		}
		if i >= 3 {
			t = t.In(r.zone())
		}
		k := fmt.Sprint("k", i)
		r.newkey(k, "s", "", t, opts{all: true, name: "n"})
		if i%2 == 0 && i < 40 {
			r.export(k, request{mode: "full"})
		}
		r.encplain("p"+k, "key", k, 0)
		r.encenc("q"+k, "key", k, 0, []byte("pw"), r.bytes(16), 0)
		if ws := r.phrases["p"+k]; ws != nil {
			r.decode("d"+k, ws)
			r.recov("r"+k, ws, false, nil, opts{all: true, name: "n"})
		}
		if ws := r.phrases["q"+k]; ws != nil {
			r.decode("e"+k, ws)
		}
	}
	// any second of the range, and any instant within it
	for i := 0; i < pick(200, 1500); i++ {
		if i%20 == 0 {
			r = mk("anytime", i)
			out = append(out, r)
			r.newseed("s", false, r.seedValue(), 0)
		}
		k := fmt.Sprint("k", i)
		r.newkey(k, "s", "", time.Unix(mnemonikey.EpochStart.Unix()+r.rng.Int63n(1<<uint(8+i%24)), r.rng.Int63n(1000000000)).In(r.zone()), opts{list: []string{}, name: "n"})
		r.encplain("p"+k, "key", k, 0)
		r.decode("d"+k, r.phrases["p"+k])
		if i%4 == 0 {
			r.recov("r"+k, r.phrases["p"+k], false, nil, opts{list: []string{}, name: "n"})
		}
		if i%10 == 0 {
			r.export(k, request{mode: "full"})
		}
	}
	return
}

func famTTLs() (out []*rec) {
	ttls := []time.Duration{0, 1, 999999999, time.Second, time.Second + 1, 2*time.Second - 1, -1, -time.Second, -1 << 63, 1<<63 - 1,
		(1<<32 - 1) * time.Second, (1<<32-1)*time.Second + 999999999, (1 << 32) * time.Second, (1<<32 + 1) * time.Second,
		(1<<31 - 1) * time.Second, (1 << 31) * time.Second, 255 * time.Second, 256 * time.Second, 65535 * time.Second, 65536 * time.Second,
		24 * time.Hour, 365 * 24 * time.Hour, 136 * 365 * 24 * time.Hour, 137 * 365 * 24 * time.Hour, -1 << 62}
	var r *rec
	for i, ttl := range ttls {
		if i%5 == 0 {
			r = mk("ttls", i)
			out = append(out, r)
			r.newseed("s", false, r.seedValue(), 0)
		}
		k := fmt.Sprint("k", i)
		off := r.offsetValue()
		o := opts{all: true, name: "n", ttl: ttl}
		r.newkey(k, "s", "", r.at(off), o)
		r.export(k, request{mode: "full"})
		r.export(k, request{mode: "sub", cert: true, pw: []byte("x")})
		r.encplain("p"+k, "key", k, 0)
		if ws := r.phrases["p"+k]; ws != nil {
			r.recov("r"+k, ws, false, nil, o)
		}
		if i%5 == 4 {
			r.encenc("q", "seed", "s", off, []byte("pw"), r.bytes(16), 0)
			r.recov("z"+k, r.phrases["q"], true, []byte("pw"), opts{all: true, ttl: -5})
		}
	}
	// durations of every magnitude, to the second
	for i := 0; i < pick(160, 1000); i++ {
		if i%10 == 0 {
			r = mk("anyttl", i)
			out = append(out, r)
			r.newseed("s", false, r.seedValue(), 0)
		}
		sec := r.rng.Int63n(1<<uint(4+i%29)) + 1
		if sec > 1<<32-1 {
			sec = 1<<32 - 1
		}
		ttl := time.Duration(sec)*time.Second + time.Duration(r.rng.Intn(2)*r.rng.Intn(1000000000))
		k := fmt.Sprint("k", i)
		r.newkey(k, "s", "", r.at(r.offsetValue()), opts{list: []string{[]string{"signing", "encryption", "authentication"}[i%3]}, name: "n", ttl: ttl})
		r.export(k, request{mode: []string{"full", "sub"}[i%2], cert: true})
	}
	return
}

func famUIDs() (out []*rec) {
	type ne struct{ n, e string }
	var ids []ne
	lens := []int{0, 1, 189, 190, 191, 192, 193, 200, 255, 256, 257, 8191, 8382, 8383, 8384, 8385, 65535, 65536, 70000}
	for _, n := range lens {
		ids = append(ids, ne{strings.Repeat("u", n), ""})
		if n > 5 && n < 1000 {
			ids = append(ids, ne{strings.Repeat("v", n-7), "a@bc"})
		}
	}
	ids = append(ids, ne{"", "only@email"}, ne{"", ""}, ne{"name", "e"}, ne{"ü名", "π@x"}, ne{"\x00\xff", "\xfe"}, ne{" a ", " b "}, ne{"x <y@z>", ""}, ne{"x", "<y@z>"}, ne{"a\nb", "c\td"}, ne{"<", ">"},
		ne{"100%", "a@b"}, ne{"%s", "%d"}, ne{"a%20b", "x%y@z"}, ne{"%!v(", ""}, ne{"", "%s"}, ne{"back\\slash", "q\"uote@x"}, ne{"$HOME", "`id`@x"}, ne{"a&b", "c+d@e"},
		ne{"e\u0301", "\u00e9@x"}, ne{"\ufeffbom", "x@y"}, ne{"\u202ertl", "\u200d@x"}, ne{"x\xed\xa0\x80", "y\xc0\xaf"}, ne{"tail\x00", "tail\x00"}, ne{"\r\n", "\r\n"}, ne{"a (c) <d@e>", "f@g"},
		ne{"Very, \"Quoted\"", "a.b@c"}, ne{"𝒩𝒶𝓂ℯ", "ß@ẞ"}, ne{"comma,", "semi;@x"}, ne{"n", "a@b>"}, ne{"n <", "a@b"}, ne{"n <>", "a"})
	edge := []string{"", "a", "b", "a@b", "A@B", "A <a@b>", " ", "<a@b>", "a ", "()", "(c) <a@b>"}
	for _, n := range edge {
		for _, e := range edge {
			ids = append(ids, ne{n, e})
		}
	}
	var r *rec
	for i, id := range ids {
		if i%5 == 0 {
			r = mk("uids", i)
			out = append(out, r)
			r.newseed("s", false, r.seedValue(), 0)
		}
		k := fmt.Sprint("k", i)
		r.newkey(k, "s", "", r.at(77), opts{all: i%2 == 0, list: []string{"authentication"}, name: id.n, email: id.e})
		r.export(k, request{mode: "full", armor: i%3 == 0})
		if i%2 == 1 && i < 50 {
			r.export(k, request{mode: "sub", cert: i%4 == 1})
		}
	}
	return
}

func famExports() (out []*rec) {
	types := []string{"encryption", "authentication", "signing"}
	n := 0
	for s := 0; s < 10+len(subkeyLists); s++ {
		o := opts{name: "Some One", email: "some@one", list: []string{}}
		switch {
		case s >= 10:
			o.list = subkeyLists[s-10]
		case s < 8:
			for b := 0; b < 3; b++ {
				if s&(1<<b) != 0 {
					o.list = append(o.list, types[b])
				}
			}
		case s == 8:
			o.all = true
		default:
			o.list = []string{"signing", "bogus", "signing", "", "Encryption"}
		}
		for rep := 0; rep < pick(1, 4); rep++ {
			n++
			if !mine(n) {
				continue
			}
			r := mk("exports", n)
			out = append(out, r)
			r.newseed("s", false, r.seedValue(), 0)
			if s%2 == 1 {
				o.ttl = r.ttlValue()
			}
			r.newkey("k", "s", "", r.at(r.offsetValue()), o)
			for _, mode := range []string{"full", "sub"} {
				for _, cert := range []bool{true, false} {
					if mode == "full" && !cert {
						continue
					}
					for _, pw := range [][]byte{nil, r.passwordValue()} {
						for _, armor := range []bool{false, true} {
							r.export("k", request{mode, cert, pw, armor})
						}
					}
				}
			}
		}
	}
	// the password, and nothing but the password, opens a protected export
	for i := 0; i < pick(3, 20); i++ {
		if !mine(n + 1 + i) {
			continue
		}
		r := mk("exportpw", i)
		out = append(out, r)
		r.newseed("s", false, r.seedValue(), 0)
		r.newkey("k", "s", "", r.at(r.offsetValue()), opts{all: true, name: r.nameValue()})
		for j := 0; j < 3; j++ {
			r.export("k", request{mode: []string{"full", "sub"}[j%2], cert: true, pw: r.passwordValue()})
		}
		r.export("k", request{mode: "full", pw: []byte("same")})
		r.export("k", request{mode: "full", pw: []byte("same")})
	}
	return
}

// keys whose numbers have leading zeros
func famOddNumbers() (out []*rec) {
	r := mk("oddsearch", 0)
	want := pick(10, 60)
	enc, seen := 0, 0
	for i := 0; seen < want && i < 200000; i++ {
		seed := r.bytes(16)
		if !oddSecrets(seed, 5, 0) && !(enc < want/3 && oddEncryption(seed, 5, 0)) {
			continue
		}
		if !oddSecrets(seed, 5, 0) {
			enc++
		}
		seen++
		if !mine(seen) {
			continue
		}
		t := mk("oddnumbers", i)
		out = append(out, t)
		t.newseed("s", false, seed, 0)
		t.newkey("k", "s", "", t.at(5), opts{all: true, name: "n"})
		t.export("k", request{mode: "full"})
		t.export("k", request{mode: "full", pw: []byte("x")})
		t.export("k", request{mode: "sub", cert: true})
	}
	// signatures with short numbers come up by searching among the exports themselves
	found := 0
	for i := 0; found < pick(6, 40) && i < 5000 && shard == 0; i++ {
		t := mk("shortsigs", i)
		t.newseed("s", false, t.bytes(16), 0)
		o := opts{all: true, name: "n"}
		t.newkey("k", "s", "", t.at(9), o)
		ki := t.keys["k"]
		if ki == nil {
			break
		}
		raw, _, ok, _ := doExport(ki.mnk, request{mode: "full"}, nil)
		if ok && len(raw) >= normalLength {
			if len(raw) > normalLength {
				normalLength = len(raw)
			}
			continue
		}
		t.export("k", request{mode: "full"})
		out = append(out, t)
		found++
	}
	return
}

var normalLength = 0

func famSources() (out []*rec) {
	for n := 0; n <= 20; n++ {
		r := mk("sources", n)
		out = append(out, r)
		src := r.bytes(n)
		r.genseed("s1", src, 0, false)
		r.genseed("s2", src, 1, false)
		r.genseed("s3", src, 7, true)
		r.genseed("s4", append(append([]byte{}, src...), r.bytes(40)...), 1+n%5, false)
		r.genseed("s5", append(make([]byte, n%17), r.bytes(16)...), 0, false)
		r.encenc("p1", "seed", "s5", r.offsetValue(), []byte("pw"), r.bytes(n%3), 0)
		same := r.bytes(24)
		r.encenc("p0", "seed", "s5", r.offsetValue(), []byte("pw"), make([]byte, 3+n%2), n%4)
		r.encenc("p9", "seed", "s5", r.offsetValue(), []byte("pw"), []byte{0xFF, 0xFF, 0xFF, byte(n)}, 1)
		r.encenc("p2", "seed", "s5", r.offsetValue(), []byte("pw"), same, 0)
		r.encenc("p3", "seed", "s4", r.offsetValue(), []byte("other"), same, 1)
		for _, era := range []int{0, 1, -1, 2, 1 << 40, -1 << 40} {
			r.newseed(fmt.Sprint("e", era), false, r.seedValue(), era)
		}
		r.newseed("n1", true, []byte{byte(n + 1)}, 0)
		r.newseed("n2", true, r.bytes(16), 0)
		w := make([]byte, 17)
		w[0] = 1
		r.newseed("w1", false, w, 0)
		r.newseed("w2", false, append([]byte{byte(n + 1)}, r.bytes(16+n)...), 0)
		r.newseed("z", n%2 == 0, []byte{0}, 0)
	}
	return
}

// every salt, or every eighth: three bytes of the source each
func famSalts() (out []*rec) {
	r := mk("salts", 0)
	r.genseed("s", r.bytes(16), 0, false)
	s := r.seeds["s"]
	if s == nil {
		return []*rec{r}
	}
	step, size := pick(8, 1), 1<<19
	salts, draws := []int{}, []int{}
	for i := int(runSeed) % step; i < size; i += step {
		if !mine(i / step) {
			continue
		}
		draw := i | r.rng.Intn(32)<<19 // the bits above the salt are anything
		src := (&source{data: append([]byte{byte(draw >> 16), byte(draw >> 8), byte(draw)}, r.bytes(r.rng.Intn(4))...), chunk: i % 4}).manner(r.rng.Intn(4))
		var ws []string
		ok, _ := call(func() (err error) {
			ws, err = mnemonikey.EncodeMnemonicEncrypted(s, 1, []byte("pw"), src)
			return
		})
		v := -1
		if ok && len(ws) == 16 {
			x := new(big.Int)
			for _, w := range ws {
				x.Lsh(x, 12).Or(x, big.NewInt(int64(wordIndex(w))))
			}
			x.Rsh(x, 192-4-128-19)
			v = int(x.Int64() & (1<<19 - 1))
		}
		salts, draws = append(salts, v), append(draws, draw)
	}
	// only the sweep is judged: with everything else it would repeat in each process
	for n := 0; len(salts) > 0; n++ {
		k := 4096
		if k > len(salts) {
			k = len(salts)
		}
		t := mk("salts", n*shards+shard)
		t.add("saltsweep", M{"salts": salts[:k], "draws": draws[:k]})
		out = append(out, t)
		salts, draws = salts[k:], draws[k:]
	}
	return
}

// conversions back and forth, and the keys at the far end
func famChains() (out []*rec) {
	for i := 0; i < pick(14, 120); i++ {
		r := mk("chains", i)
		out = append(out, r)
		r.newseed("s0", false, r.seedValue(), 0)
		off := r.offsetValue()
		o := opts{all: r.rng.Intn(3) > 0, list: []string{"signing", "authentication"}, name: r.nameValue(), email: r.emailValue(), enc: r.indexValue(), sig: r.indexValue(), auth: r.indexValue()}
		if r.rng.Intn(2) == 0 {
			o.ttl = r.ttlValue()
		}
		r.newkey("k0", "s0", "", r.at(off), o)
		r.export("k0", request{mode: "full"})
		r.export("k0", request{mode: "sub", cert: true})
		pw := r.passwordValue()
		if i%2 == 0 {
			r.encplain("p0", "key", "k0", 0)
		} else {
			r.encenc("p0", "key", "k0", 0, pw, r.bytes(16), 0)
		}
		isEnc := i%2 == 1
		for j := 1; j < 5; j++ {
			d, h, p, k := fmt.Sprint("d", j), fmt.Sprint("s", j), fmt.Sprint("p", j), fmt.Sprint("k", j)
			prev := r.phrases[fmt.Sprint("p", j-1)]
			if prev == nil {
				break
			}
			r.decode(d, r.edit(prev, []string{"none", "case"}[r.rng.Intn(2)]))
			if isEnc {
				r.decrypt(d, h, pw)
				r.recov("r"+k, prev, true, pw, o)
			} else {
				r.seedof(d, h)
				r.recov("r"+k, prev, false, nil, o)
			}
			r.newkey(k, h, d, time.Time{}, o)
			if j%2 == 0 {
				r.export(k, request{mode: "full"})
				r.export("r"+k, request{mode: "full"})
			} else {
				r.export(k, request{mode: "sub", cert: true})
				r.export("r"+k, request{mode: "sub", cert: true})
			}
			next := off
			if dm := r.decs[d]; dm != nil {
				next = dm.CreationOffset()
			}
			isEnc = r.rng.Intn(2) == 0
			if isEnc {
				pw = r.passwordValue()
				r.encenc(p, "seed", h, next, pw, r.bytes(16), 0)
			} else {
				r.encplain(p, "seed", h, next)
			}
		}
	}
	return
}

// seeds, creation times, salts and passwords that are easily taken for one another, in one history
func famRelatives() (out []*rec) {
	for i := 0; i < pick(6, 48); i++ {
		if !mine(i) {
			continue
		}
		r := mk("relatives", i)
		out = append(out, r)
		b := r.bytes(16)
		if i%3 == 1 { // room for shifting
			b[0], b[1] = 0, 0
		}
		seeds := [][]byte{b}
		change := func(f func(c []byte)) {
			c := append([]byte{}, b...)
			f(c)
			seeds = append(seeds, c)
		}
		for _, at := range []int{0, 1, 3, 4, 7, 8, 11, 12, 15} {
			change(func(c []byte) { c[at] ^= 1 << r.rng.Intn(8) })
		}
		change(func(c []byte) { copy(c[:8], r.bytes(8)) })
		change(func(c []byte) { copy(c[8:], r.bytes(8)) })
		change(func(c []byte) { copy(c[4:12], r.bytes(8)) })
		change(func(c []byte) {
			for j := range c {
				c[j] = b[15-j]
			}
		})
		change(func(c []byte) { copy(c, b[1:]); c[15] = 0 })
		change(func(c []byte) { copy(c[1:], b); c[0] = 0 })
		off := uint32(86400*int64(r.rng.Intn(20000)) + 43200)
		offs := []uint32{off, off + 1, off ^ 2, off + 59, off + 60, off + 3600, off + 7200, off - 7200, off + 86400, off + 7*86400, off ^ 1<<8, off ^ 1<<12, off ^ 1<<16, off ^ 1<<24, off ^ 1<<30}
		o := opts{all: true, name: "n"}
		n := 0
		add := func(seed []byte, off uint32) {
			n++
			id := fmt.Sprint(n)
			r.newseed("s"+id, false, seed, 0)
			r.newkey("k"+id, "s"+id, "", r.at(off), o)
			if n%3 == i%3 {
				r.export("k"+id, request{mode: []string{"full", "sub"}[n%2], cert: true})
			}
			r.encplain("p"+id, "key", "k"+id, 0)
			r.decode("d"+id, r.phrases["p"+id])
			r.seedof("d"+id, "t"+id)
			if n%4 == 0 {
				r.recov("r"+id, r.phrases["p"+id], false, nil, o)
			}
			r.encenc("q"+id, "seed", "s"+id, off, []byte("pw"), []byte{1, 2, 3}, 0)
			r.decode("e"+id, r.phrases["q"+id])
			r.decrypt("e"+id, "u"+id, []byte("pw"))
		}
		for _, s := range seeds {
			add(s, off)
		}
		for _, x := range offs[1:] {
			add(b, x)
		}
		// other indices and selections of a key that exists
		for j, p := range []opts{{all: true, enc: 1}, {all: true, auth: 1}, {all: true, sig: 1}, {all: true, enc: 256}, {all: true, sig: 256}, {all: true, enc: 11, auth: 1, sig: 1}, {all: true, enc: 1, auth: 11, sig: 1},
			{all: true, enc: 1, auth: 1, sig: 11}, {all: true, enc: 1 << 15}, {list: []string{"signing"}, sig: 1}, {list: []string{"encryption", "signing"}}, {all: true, name: "n", ttl: time.Hour}} {
			k := fmt.Sprint("o", j)
			r.newkey(k, "s1", "", r.at(off), p)
			r.export(k, request{mode: "full"})
		}
		// passwords, salts and offsets whose concatenations coincide
		for j, x := range []struct {
			pw        string
			salt, off uint32
		}{{"pw", 123456, 67}, {"pw1", 23456, 67}, {"pw12", 3456, 67}, {"pw", 12345, 667}, {"pw", 1234, 5667}, {"pw0", 123456, 67}, {"p", 123456, 67}, {"pw", 123456, 68}, {"pw", 123457, 67},
			{"pw", 123456 ^ 1<<18, 67}, {"PW", 123456, 67}, {"pw ", 123456, 67}, {"wp", 123456, 67}} {
			id := fmt.Sprint("c", j)
			r.encenc("q"+id, "seed", "s1", x.off, []byte(x.pw), []byte{byte(x.salt >> 16), byte(x.salt >> 8), byte(x.salt)}, 0)
			r.decode("e"+id, r.phrases["q"+id])
			r.decrypt("e"+id, "u"+id, []byte(x.pw))
			r.decrypt("e"+id, "v"+id, []byte("pw"))
		}
	}
	return
}

// passwords of every length and kind
func passwordList(r *rec) (out [][]byte) {
	for n := 1; n <= 66; n++ {
		out = append(out, r.bytes(n))
	}
	for _, n := range []int{70, 71, 72, 73, 74, 79, 80, 81, 99, 100, 101, 126, 127, 128, 129, 130, 191, 192, 193, 254, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 70000} {
		out = append(out, r.bytes(n))
	}
	for b := 0; b < 256; b++ {
		out = append(out, []byte{byte(b)})
	}
	for _, w := range []string{" ", "\t", "\n", "\r", "\r\n", "\x00", "\v", "\f", "\u00a0", "\u2028", "\ufeff", "\xff", "\"", "'", "%", "\\", "$", "#", "\x7f", "\x1b", "\b", "\x03", "\x04"} {
		out = append(out, []byte(w+"word"), []byte("word"+w), []byte("wo"+w+"rd"), []byte(w+w))
	}
	for _, w := range []string{"é", "e\u0301", "ﬁ", "ß", "İ", "K", "PassWord", "PASSWORD", "日本語", "🔑🔑", "\xed\xa0\x80", "a\xffb\xfec", "\xc3", "0", "00", "123456", "nil", "null", "true", "-", "--", "password"} {
		out = append(out, []byte(w))
	}
	return
}

func famPasswords() (out []*rec) {
	var r *rec
	for i, pw := range passwordList(mk("passwords", -1)) {
		if i%10 == 0 {
			r = mk("passwords", i)
			out = append(out, r)
			r.newseed("s", false, r.seedValue(), 0)
		}
		id := fmt.Sprint(i)
		r.encenc("p"+id, "seed", "s", r.offsetValue(), pw, r.bytes(16), 0)
		r.decode("d"+id, r.phrases["p"+id])
		r.decrypt("d"+id, "t"+id, pw)
		near := append([]byte{}, pw...)
		switch i % 4 {
		case 0:
			near[len(near)-1] ^= 1
		case 1:
			near = near[:len(near)-1]
		case 2:
			near = append(near, 0)
		case 3:
			near[0] ^= 0x20
		}
		r.decrypt("d"+id, "w"+id, near)
		if i%7 == 0 {
			r.recov("k"+id, r.phrases["p"+id], true, pw, opts{all: true, name: "n"})
		}
	}
	return
}

// protected exports under passwords of every length and kind
func famLocks() (out []*rec) {
	var r *rec
	types := []string{"signing", "encryption", "authentication"}
	n := 0
	for i, pw := range passwordList(mk("locks", -1)) {
		if !thorough && (i+int(runSeed))%6 != 0 && !(i >= 58 && i < 74) && !(i >= 84 && i < 95) {
			continue
		}
		n++
		if !mine(n) {
			continue
		}
		r = mk("locks", i)
		out = append(out, r)
		r.newseed("s", false, r.seedValue(), 0)
		r.newkey("k", "s", "", r.at(r.offsetValue()), opts{list: types[i%3 : i%3+1], name: "n"})
		r.export("k", request{mode: "sub", cert: i%2 == 0, pw: pw, armor: i%5 == 0})
	}
	return
}

// keys with rare byte patterns: see rare.go
func famDeepNumbers() (out []*rec) {
	for i, x := range rare {
		if !mine(i) {
			continue
		}
		r := mk("deep", i)
		out = append(out, r)
		seed, _ := hex.DecodeString(x.seed)
		r.newseed("s", false, seed, 0)
		r.newkey("k", "s", "", r.at(rareOffset), opts{all: true, name: "n"})
		r.export("k", request{mode: "full"})
		if i%4 == 0 || thorough {
			r.export("k", request{mode: "sub", cert: true})
		}
		if strings.HasPrefix(x.why, "secret") && strings.HasSuffix(x.why, "x0") {
			r.export("k", request{mode: "full", pw: []byte("pw")})
		}
		r.encplain("p", "key", "k", 0)
		r.recov("k2", r.phrases["p"], false, nil, opts{all: true, name: "n"})
	}
	if !thorough {
		return
	}
	s := mk("deepsearch", shard)
	for i := 0; i < 100000; i++ {
		seed := s.bytes(16)
		for _, info := range []string{"master key", "authentication subkey\x00\x00", "signing subkey\x00\x00", "encryption subkey\x00\x00"} {
			d := derived(seed, rareOffset, "mnemonikey "+info)
			if (d[0] == d[1] && (d[0] == 0 || d[0] == 0xFF)) || (d[31] == d[30] && (d[31] == 0 || d[31] == 0xFF)) {
				r := mk("deeper", shard*1000000+i)
				out = append(out, r)
				r.newseed("s", false, seed, 0)
				r.newkey("k", "s", "", r.at(rareOffset), opts{all: true, name: "n"})
				r.export("k", request{mode: "full"})
				break
			}
		}
	}
	return
}

// the same thing again, with other things in between
func famRepeat() (out []*rec) {
	for i := 0; i < pick(20, 80); i++ {
		if !mine(i) {
			continue
		}
		r := mk("repeat", i)
		out = append(out, r)
		seed, off := r.seedValue(), r.offsetValue()
		o := opts{all: i%2 == 0, list: subkeyLists[(i/2)%len(subkeyLists)], name: r.nameValue()}
		for j := 0; j < 4; j++ {
			s, k := fmt.Sprint("s", j), fmt.Sprint("k", j)
			r.newseed(s, false, seed, 0)
			o2 := o
			if j == 2 { // other options, same master key
				o2.name, o2.ttl, o2.sig = "someone else", time.Hour, 7
				o2.all = true
			}
			r.newkey(k, s, "", r.at(off), o2)
			r.export(k, request{mode: "full"})
			r.export(k, request{mode: "sub", cert: j%2 == 0, pw: []byte("pw")})
			r.export(k, request{mode: "sub", cert: true, armor: j == 1})
			r.export("k0", request{mode: "full", armor: j == 3})
			r.export("k0", request{mode: "sub", cert: false})
		}
	}
	return
}

var subkeyLists = [][]string{{"signing", "encryption"}, {"signing", "encryption", "authentication"}, {"encryption", "encryption", "signing"}, {"authentication", "signing", "encryption"},
	{"signing", "signing", "signing", "encryption"}, {"none", "authentication", "none", "encryption", "signing"}, {"authentication"}, {"encryption", "authentication", "signing"},
	{"encryption", "signing", "authentication", "signing", "encryption", "authentication"}, {}}

func famAliases() (out []*rec) {
	for i := 0; i < pick(24, 80); i++ {
		if !mine(i) {
			continue
		}
		r := mk("aliases", i)
		out = append(out, r)
		r.newseed("s1", false, r.seedValue(), 0)
		r.genseed("s2", r.bytes(16), 0, false)
		r.encplain("p1", "seed", "s1", r.offsetValue())
		r.encplain("p1b", "seed", "s1", 5)
		r.encenc("p2", "seed", "s2", r.offsetValue(), []byte("pw"), r.bytes(16), 0)
		r.look("seed", "s1")
		r.look("seed", "s2")
		r.decode("d1", r.phrases["p1"])
		r.decode("d2", r.phrases["p2"])
		r.seedof("d1", "s3")
		r.decrypt("d2", "s4", []byte("pw"))
		o := opts{all: i%2 == 0, list: subkeyLists[i%len(subkeyLists)], name: "n", ttl: time.Hour}
		r.newkey("k1", "s1", "", r.at(r.offsetValue()), o)
		r.newkey("k3", "s3", "d1", time.Time{}, o)
		r.recov("k4", r.phrases["p2"], true, []byte("pw"), o)
		r.lookAll()
		r.scribble([]string{"args", "returned"}[i%2])
		r.lookAll()
		r.encplain("p5", "seed", "s3", 9)
		r.encplain("p6", "key", "k1", 0)
		r.encplain("p7", "seed", "s4", 9)
		r.export("k1", request{mode: "full", pw: []byte("secret")})
		r.export("k4", request{mode: "sub", armor: true, pw: []byte("secret")})
		r.scribble([]string{"args", "returned"}[1-i%2])
		r.lookAll()
		r.decrypt("d2", "s6", []byte("pw"))
		r.decrypt("d2", "s7", []byte("pw"))
		r.seedof("d1", "s8")
		r.lookAll()
	}
	return
}

// a few calls with the real Argon2id
func famReal() (out []*rec) {
	r := mk("real", 0)
	out = append(out, r)
	r.genseed("s", r.bytes(16), 0, false)
	o := opts{all: true, name: "n", sig: 3}
	r.newkey("k", "s", "", r.at(40000000), o)
	r.encenc("p", "key", "k", 0, []byte("pässword"), r.bytes(16), 0)
	r.export("k", request{mode: "full"})
	r.decode("d", r.phrases["p"])
	r.decrypt("d", "t", []byte("pässword"))
	r.decrypt("d", "u", []byte("wrong"))
	return
}
