package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/wordlist4096"
)

func sorted[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ------------------------------------------------------------------- pools of concrete values

func (r *rec) bytes(n int) []byte { b := make([]byte, n); r.rng.Read(b); return b }

func (r *rec) seedValue() []byte {
	one := big.NewInt(1)
	out := make([]byte, 16)
	switch r.rng.Intn(10) {
	case 0:
		return out
	case 1:
		out[15] = byte(1 + r.rng.Intn(255))
		return out
	case 2:
		for i := range out {
			out[i] = 0xFF
		}
		return out
	case 3:
		return new(big.Int).Lsh(one, uint(r.rng.Intn(128))).FillBytes(out)
	case 4: // leading zero bytes
		copy(out[1+r.rng.Intn(14):], r.bytes(16))
		return out
	case 5: // trailing zero bytes
		copy(out, r.bytes(1+r.rng.Intn(15)))
		return out
	}
	return r.bytes(16)
}

func (r *rec) offsetValue() uint32 {
	switch r.rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 1<<31 - 1
	case 3:
		return 1 << r.rng.Intn(31)
	case 4:
		return uint32(1)<<r.rng.Intn(31) - 1
	case 5: // unix time beyond 2^31
		return 1<<31 - 1672531200 + uint32(r.rng.Intn(3))
	}
	return uint32(r.rng.Int63n(1 << 31))
}
func (r *rec) wideOffset() uint32 {
	switch r.rng.Intn(4) {
	case 0:
		return 1 << 31
	case 1:
		return 1<<32 - 1
	case 2:
		return 1<<31 + 1
	}
	return 1<<31 + uint32(r.rng.Int63n(1<<31))
}

func (r *rec) passwordValue() []byte {
	switch r.rng.Intn(12) {
	case 0:
		return []byte{byte(r.rng.Intn(256))}
	case 1:
		return []byte{0}
	case 2:
		return append([]byte{0}, r.bytes(3)...)
	case 3:
		return append(r.bytes(3), 0)
	case 4:
		return []byte(" leading and trailing ")
	case 5:
		return r.bytes(200 + r.rng.Intn(200))
	case 6:
		return []byte("pässwörd-Ω-🔑")
	case 7:
		return []byte{0xFF, 0xFE, 0x80}
	case 8:
		return r.bytes([]int{15, 16, 17, 31, 32, 33, 63, 64, 65}[r.rng.Intn(9)])
	case 9:
		return []byte("line\nbreak\r\n")
	}
	return []byte(fmt.Sprintf("password%d", r.rng.Intn(1000)))
}

func (r *rec) nameValue() string {
	switch r.rng.Intn(10) {
	case 0:
		return ""
	case 1:
		return "Zoë Ünïcode 名前"
	case 2:
		return string([]byte{0xFF, 0x00, 0x80, 'x'})
	case 3:
		return strings.Repeat("n", 150+r.rng.Intn(80))
	case 4:
		return "name <with@brackets>"
	case 5:
		return " padded "
	}
	return fmt.Sprintf("user %d", r.rng.Intn(100))
}
func (r *rec) emailValue() string {
	switch r.rng.Intn(6) {
	case 0:
		return "a@b"
	case 1:
		return "<already@bracketed>"
	case 2:
		return strings.Repeat("e", 100) + "@example.com"
	}
	return fmt.Sprintf("user%d@example.com", r.rng.Intn(100))
}
func (r *rec) ttlValue() time.Duration {
	switch r.rng.Intn(10) {
	case 0:
		return time.Second
	case 1:
		return time.Second + 999999999
	case 2:
		return (1<<32 - 1) * time.Second
	case 3:
		return (1<<31)*time.Second + time.Duration(r.rng.Intn(2))
	case 4:
		return (1<<31 - 1) * time.Second
	case 5:
		return time.Duration(r.rng.Int63n(1<<32-2)+1) * time.Second
	case 6:
		return time.Duration(256<<(8*r.rng.Intn(3))) * time.Second
	}
	return time.Duration(1+r.rng.Intn(4000)) * 24 * time.Hour
}
func (r *rec) badTTL() time.Duration {
	switch r.rng.Intn(6) {
	case 0:
		return 1
	case 1:
		return 999999999
	case 2:
		return (1 << 32) * time.Second
	case 3:
		return 1<<63 - 1
	case 4:
		return (1<<32+5)*time.Second + 7
	}
	return time.Duration(r.rng.Int63n(1<<63-1-(1<<32)*int64(time.Second)) + (1<<32)*int64(time.Second))
}
func (r *rec) negTTL() time.Duration {
	switch r.rng.Intn(4) {
	case 0:
		return -1
	case 1:
		return -1 << 63
	case 2:
		return -time.Second
	}
	return -time.Duration(r.rng.Int63())
}
func (r *rec) indexValue() uint16 {
	switch r.rng.Intn(7) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 255
	case 3:
		return 256
	case 4:
		return 257
	case 5:
		return 65535
	}
	return uint16(r.rng.Intn(65536))
}
func (r *rec) zone() *time.Location {
	switch r.rng.Intn(4) {
	case 0:
		return time.UTC
	case 1:
		return time.FixedZone("odd", 12345)
	case 2:
		return time.FixedZone("west", -9*3600)
	}
	return time.FixedZone("z", r.rng.Intn(28*3600)-14*3600)
}
func (r *rec) at(off uint32) time.Time {
	ns := int64(r.rng.Intn(1000000000))
	switch r.rng.Intn(4) {
	case 0:
		ns = 0
	case 1:
		ns = 999999999
	}
	if off == 1<<31-1 {
		ns = 0
	}
	return time.Unix(mnemonikey.EpochStart.Unix()+int64(off), ns).In(r.zone())
}
func (r *rec) early() time.Time {
	switch r.rng.Intn(5) {
	case 0:
		return mnemonikey.EpochStart.Add(-1)
	case 1:
		return time.Time{}
	case 2:
		return mnemonikey.EpochStart.Add(-time.Second)
	case 3:
		return time.Unix(0, 0)
	}
	return mnemonikey.EpochStart.Add(-time.Duration(r.rng.Int63n(1 << 60)))
}
func (r *rec) late() time.Time {
	max := time.Unix(mnemonikey.EpochStart.Unix()+1<<31-1, 0)
	switch r.rng.Intn(5) {
	case 0:
		return max.Add(1)
	case 1:
		return max.Add(time.Second)
	case 2:
		return time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)
	case 3:
		return max.Add(999999999)
	}
	return max.Add(time.Duration(1 + r.rng.Int63n(1<<60)))
}

var foreignWords = []string{"", " ", "zzzz", "abandonx", "notaword", "été", "a", "word word", "\x00", "\xff\xfe", "zoo\n", " zoo", "12", "-", "ab"}

// decorations of a word of the list which are not words of the list
func decorations(w string) []string {
	out := []string{" " + w, w + " ", "\t" + w, w + "\n", w + "\r\n", w + ".", w + ",", "." + w, "\"" + w + "\"", w + "s", w + w,
		w + "\x00", "\x00" + w, "\ufeff" + w, w + "\u200b", w + "\u00a0", w + "\u0301", "1" + w, w + "1", "-" + w, w + "-", w + ";",
		"1." + w, "(" + w + ")", "'" + w, w + "'", strings.Join(strings.Split(w, ""), " ")}
	wide := ""
	for _, c := range w {
		wide += string(rune(0xFF00 + c - 0x20))
	}
	out = append(out, wide)
	for _, p := range [][2]string{{"s", "\u017f"}, {"a", "\u0430"}, {"e", "\u0435"}, {"o", "0"}, {"l", "1"}, {"i", "\u0131"}, {"e", "\u00e9"}, {"c", "\u0441"}} {
		if strings.Contains(w, p[0]) {
			out = append(out, strings.Replace(w, p[0], p[1], 1))
		}
	}
	for n := 1; n < len(w); n++ {
		out = append(out, w[:n], w[n:])
	}
	var keep []string
	for _, x := range out {
		if _, ok := wordlist4096.WordMap[strings.ToLower(x)]; !ok {
			keep = append(keep, x)
		}
	}
	return keep
}
func (r *rec) decorated(w string) string {
	d := decorations(w)
	return d[r.rng.Intn(len(d))]
}

func (r *rec) foreign() string {
	if r.rng.Intn(2) == 0 {
		return r.decorated(r.anyWord())
	}
	return r.foreignWord()
}
func (r *rec) foreignWord() string { return foreignWords[r.rng.Intn(len(foreignWords))] }
func (r *rec) anyWord() string     { return wordlist4096.WordList[r.rng.Intn(4096)] }
func (r *rec) casing(w string) string {
	switch r.rng.Intn(3) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		if w == "" {
			return w
		}
		return strings.ToUpper(w[:1]) + w[1:]
	}
	b := []byte(w)
	for i := range b {
		if r.rng.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func (r *rec) edit(ws []string, how string) []string {
	out := append([]string{}, ws...)
	if len(out) == 0 {
		return out
	}
	n := len(out)
	switch how {
	case "case":
		for i := range out {
			out[i] = r.casing(out[i])
		}
	case "append":
		out = append(out, r.anyWord())
		if r.rng.Intn(2) == 0 {
			out = append(out, r.anyWord())
		}
	case "drop":
		k := r.rng.Intn(n)
		out = append(out[:k], out[k+1:]...)
		if r.rng.Intn(2) == 0 {
			out = out[:n-2]
		}
	case "foreign":
		out[r.rng.Intn(n)] = r.foreign()
	case "subst":
		out[r.rng.Intn(n)] = r.anyWord()
	case "empty":
		if r.rng.Intn(2) == 0 {
			return nil
		}
		return []string{}
	case "version":
		out[0] = wordlist4096.WordList[512+r.rng.Intn(4096-512)]
	case "swap":
		i, j := r.rng.Intn(n), r.rng.Intn(n)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ------------------------------------------------------------------- replaying scripts of the specification

type genOp struct {
	Op, H, P, D, K, Via, From, Edit, Kind, Source, Pw, What string
	Sym                                                     int
	W                                                       int
	At                                                      struct{ Cls string }
	Opts                                                    genOpts
	Req                                                     struct {
		Mode, Pw    string
		Cert, Armor bool
	}
}
type genOpts struct {
	Name, Email, Ttl string
	All              bool
	List             []string
	Enc, Auth, Sig   int
}

type concrete struct {
	r       *rec
	seedVal map[int][]byte
	offVal  map[int]uint32
	pwVal   map[string][]byte
	srcVal  map[string][]byte
	ttlVal  map[string]time.Duration
	idx     map[int]uint16
	name    string
	email   string
}

func distinct[K comparable, V any](m map[K]V, k K, gen func() V, same func(a, b V) bool) V {
	if v, ok := m[k]; ok {
		return v
	}
	for {
		v := gen()
		clash := false
		for _, w := range m {
			clash = clash || same(v, w)
		}
		if !clash {
			m[k] = v
			return v
		}
	}
}

func (c *concrete) pw(sym string) []byte {
	if sym == "" {
		return nil
	}
	return distinct(c.pwVal, sym, c.r.passwordValue, func(a, b []byte) bool { return string(a) == string(b) })
}
func (c *concrete) opts(g genOpts) opts {
	o := opts{all: g.All, list: g.List}
	if g.Name != "" {
		o.name = c.name
	}
	if g.Email != "" {
		o.email = c.email
	}
	o.ttl = distinct(c.ttlVal, g.Ttl, func() time.Duration {
		switch g.Ttl {
		case "0":
			return 0
		case "-":
			return c.r.negTTL()
		case "*":
			return c.r.badTTL()
		}
		return c.r.ttlValue()
	}, func(a, b time.Duration) bool { return false })
	ix := func(s int) uint16 {
		return distinct(c.idx, s, c.r.indexValue, func(a, b uint16) bool { return a == b })
	}
	o.enc, o.auth, o.sig = ix(g.Enc), ix(g.Auth), ix(g.Sig)
	return o
}

func replay(id, script string, seed int64) *rec {
	r := newRec(id, seed)
	var ops []genOp
	if err := json.Unmarshal([]byte(script), &ops); err != nil {
		fatal(err)
	}
	c := &concrete{r: r, seedVal: map[int][]byte{}, offVal: map[int]uint32{}, pwVal: map[string][]byte{},
		srcVal: map[string][]byte{}, ttlVal: map[string]time.Duration{}, idx: map[int]uint16{}, name: r.nameValue(), email: r.emailValue()}
	sv := func(s int) []byte {
		return distinct(c.seedVal, s, r.seedValue, func(a, b []byte) bool { return string(a) == string(b) })
	}
	ov := func(s int) uint32 {
		if s < 2 {
			return distinct(c.offVal, s, r.offsetValue, func(a, b uint32) bool { return a == b })
		}
		return distinct(c.offVal, s, r.wideOffset, func(a, b uint32) bool { return a == b })
	}
	for _, g := range ops {
		switch g.Op {
		case "newseed":
			switch g.Kind {
			case "neg":
				r.newseed(g.H, true, append(sv(g.Sym)[:15:15], 1), 0)
			case "wide":
				r.newseed(g.H, false, append([]byte{byte(1 + r.rng.Intn(255))}, sv(g.Sym)...), 0)
			case "era":
				r.newseed(g.H, false, sv(g.Sym), []int{1, -1, 255, 256, -256, 1 << 32}[r.rng.Intn(6)])
			default:
				r.newseed(g.H, false, sv(g.Sym), 0)
			}
		case "genseed":
			src := append(append([]byte{}, sv(g.Sym)...), r.bytes(r.rng.Intn(3)*8)...)
			switch g.Kind {
			case "short":
				r.genseed(g.H, src[:r.rng.Intn(16)], 0, false)
			case "fail":
				r.genseed(g.H, src[:r.rng.Intn(16)], r.rng.Intn(4), true)
			case "chunk":
				r.genseed(g.H, src, 1+r.rng.Intn(15), false)
			default:
				r.genseed(g.H, src, 0, false)
			}
		case "encplain":
			r.encplain(g.P, g.Via, g.H, ov(g.Sym))
		case "encenc":
			src := distinct(c.srcVal, g.Source, func() []byte { return r.bytes(32) }, func(a, b []byte) bool { return false })
			chunk := 0
			if g.Source == "chunk" {
				chunk = 1
			}
			if g.Source == "short" {
				src = src[:r.rng.Intn(3)]
			}
			r.encenc(g.P, g.Via, g.H, ov(g.Sym), c.pw(g.Pw), src, chunk)
		case "decode":
			if ws, ok := r.phrases[g.From]; ok {
				r.decode(g.D, r.edit(ws, g.Edit))
			}
		case "parsever":
			w := r.foreign()
			if ws, ok := r.phrases[g.From]; ok && g.Kind == "first" {
				w = r.casing(ws[0])
			} else if g.Kind == "version" {
				w = r.anyWord()
			}
			r.parsever(w)
		case "seedof":
			r.seedof(g.D, g.H)
		case "decrypt":
			r.decrypt(g.D, g.H, c.pw(g.Pw))
		case "newkey":
			var at time.Time
			switch g.At.Cls {
			case "early":
				at = r.early()
			case "late":
				at = r.late()
			default:
				at = r.at(ov(g.Sym))
			}
			r.newkey(g.K, g.H, g.D, at, c.opts(g.Opts))
		case "recplain", "recenc":
			if ws, ok := r.phrases[g.From]; ok {
				r.recov(g.K, r.edit(ws, g.Edit), g.Op == "recenc", c.pw(g.Pw), c.opts(g.Opts))
			}
		case "export":
			r.export(g.K, request{mode: g.Req.Mode, cert: g.Req.Cert, pw: c.pw(g.Req.Pw), armor: g.Req.Armor})
		case "look":
			r.look(g.Kind, g.H)
		case "scribble":
			r.scribble(g.What)
			r.lookAll()
		}
	}
	return r
}
