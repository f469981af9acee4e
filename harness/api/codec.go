package main

import (
	"math/big"
	"reflect"

	"github.com/kklash/mnemonikey/mnemonic"
	"github.com/kklash/wordlist4096"
)

// The word codec, call by call.

func guardedIdx(ix []uint16) ([]uint16, func() bool) {
	full := make([]uint16, len(ix)+4)
	copy(full, ix)
	for i := len(ix); i < len(full); i++ {
		full[i] = 0xA5A
	}
	want := append([]uint16{}, full...)
	return full[:len(ix):len(full)], func() bool { return reflect.DeepEqual(full, want) }
}

func ints(ix []uint16) []int {
	out := []int{}
	for _, x := range ix {
		out = append(out, int(x))
	}
	return out
}

// held reports whether everything the codec returned in this history is still what it was, and now and then
// overwrites something it returned a while ago, which is the caller's to do with as it likes.
func (r *rec) held() bool {
	for _, k := range r.kept {
		if !k.same() {
			return false
		}
	}
	if n := len(r.kept); n > 12 {
		if r.rng.Intn(2) == 0 {
			r.kept[0].spoil()
		}
		r.kept = r.kept[1:]
	}
	return true
}

type keptValue struct {
	same  func() bool
	spoil func()
}

func (r *rec) keepIdx(ix []uint16) {
	was := append([]uint16{}, ix...)
	r.kept = append(r.kept, keptValue{func() bool { return len(ix) == 0 || reflect.DeepEqual(ix, was) }, func() {
		for i := range ix {
			ix[i] = 0xBAD
		}
	}})
}

func (r *rec) keepWords(ws []string) {
	was := append([]string{}, ws...)
	r.kept = append(r.kept, keptValue{func() bool { return len(ws) == 0 || reflect.DeepEqual(ws, was) }, func() {
		for i := range ws {
			ws[i] = "spoiled"
		}
	}})
}

func (r *rec) keepInt(n *big.Int) {
	if n == nil {
		return
	}
	was := new(big.Int).Set(n)
	r.kept = append(r.kept, keptValue{func() bool { return n.Cmp(was) == 0 }, func() { n.Lsh(n, 7).Not(n) }})
}

func (r *rec) encidx(n *big.Int, size uint) []uint16 {
	arg := new(big.Int).Set(n)
	var ix []uint16
	ok, class := call(func() (err error) { ix, err = mnemonic.EncodeToIndices(arg, size); return })
	r.add("encidx", M{"val": hx(n.Bytes()), "size": int(size), "r": M{"ok": ok, "err": class, "idx": ints(ix), "intact": arg.Cmp(n) == 0 && r.held()}})
	r.keepIdx(ix)
	return ix
}

func (r *rec) decidx(ix []uint16) *big.Int {
	arg, same := guardedIdx(ix)
	var n *big.Int
	ok, class := call(func() (err error) { n, err = mnemonic.DecodeIndices(arg); return })
	v, neg := "", false
	if ok && n == nil {
		ok, class = false, "nil"
	}
	if ok {
		v, neg = hx(n.Bytes()), n.Sign() < 0
	}
	r.add("decidx", M{"idx": ints(ix), "r": M{"ok": ok, "err": class, "val": v, "neg": neg, "intact": same() && r.held()}})
	r.keepInt(n)
	return n
}

func (r *rec) encwords(ix []uint16) []string {
	arg, same := guardedIdx(ix)
	var ws []string
	ok, class := call(func() (err error) { ws, err = mnemonic.EncodeToWords(arg); return })
	r.add("encwords", M{"idx": ints(ix), "r": M{"ok": ok, "err": class, "words": wordsOut(ws), "intact": same() && r.held()}})
	r.keepWords(ws)
	return ws
}

func (r *rec) decwords(ws []string) []uint16 {
	arg, same := guardedWords(ws)
	var ix []uint16
	ok, class := call(func() (err error) { ix, err = mnemonic.DecodeWords(arg); return })
	r.add("decwords", M{"words": wordsOut(ws), "r": M{"ok": ok, "err": class, "idx": ints(ix), "intact": same() && r.held()}})
	r.keepIdx(ix)
	return ix
}

func (r *rec) integer(bits uint) *big.Int {
	one := big.NewInt(1)
	top := new(big.Int).Lsh(one, bits)
	switch r.rng.Intn(5) {
	case 0:
		return new(big.Int).Sub(top, one) // all ones
	case 1:
		if bits == 0 {
			return new(big.Int)
		}
		return new(big.Int).Rsh(top, 1) // only the top bit
	case 2:
		return new(big.Int).Rand(r.rng, new(big.Int).Lsh(one, (bits+1)/2)) // leading zero words
	default:
		return new(big.Int).Rand(r.rng, top)
	}
}

// every size, integers that fit and integers that do not, and the way back
func famCodec() (out []*rec) {
	for size := uint(0); size <= uint(pick(200, 640)); size++ {
		if size%20 == 0 {
			out = append(out, mk("codec", int(size)))
		}
		r := out[len(out)-1]
		for j := 0; j < 2; j++ {
			n := r.integer(size)
			ix := r.encidx(n, size)
			r.decidx(ix)
			ws := r.encwords(ix)
			r.decwords(ws)
		}
		big1 := new(big.Int).Lsh(big.NewInt(1), size)
		r.encidx(big1, size)
		r.encidx(new(big.Int).Lsh(r.integer(size+5), uint(r.rng.Intn(40))), size)
		r.encidx(new(big.Int), size)
	}
	for _, size := range []uint{255, 256, 257, 500, 511, 512, 513, 767, 768, 769, 1000, 1023, 1024, 1025, 1199, 1200, 1201, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 4105, 6143, 6144, 6145, 12000, 12001} {
		r := mk("codecwide", int(size))
		out = append(out, r)
		n := r.integer(size)
		r.decidx(r.encidx(n, size))
		r.encidx(new(big.Int).Lsh(big.NewInt(1), size), size)
	}
	r := mk("codechuge", 0) // more words than fit 16 bits
	out = append(out, r)
	r.decidx(r.encidx(r.integer(800000), 800000))
	return
}

// every word and every index, and index sequences and word sequences at large
func famCodecWords() (out []*rec) {
	for from := 0; from < 4096; from += 128 {
		r := mk("codecwords", from)
		out = append(out, r)
		var ix []uint16
		var ws []string
		for i := from; i < from+128; i++ {
			ix = append(ix, uint16(i))
			ws = append(ws, r.casing(wordlist4096.WordList[i]))
		}
		r.encwords(ix)
		r.decwords(ws)
	}
	for i := 0; i < pick(20, 120); i++ {
		r := mk("codecany", i)
		out = append(out, r)
		n := r.rng.Intn(24)
		var ix []uint16
		var ws []string
		for j := 0; j < n; j++ {
			ix = append(ix, uint16(r.rng.Intn(4096)))
			ws = append(ws, r.casing(r.anyWord()))
		}
		r.decidx(ix)
		r.encwords(ix)
		r.decwords(ws)
		for _, bad := range []uint16{4096, 4097, 8191, 8192, 32768, 65535, uint16(4096 + r.rng.Intn(61440))} {
			x := append([]uint16{}, ix...)
			x = append(x, 0)
			x[r.rng.Intn(len(x))] = bad
			r.decidx(x)
			r.encwords(x)
		}
		for j := 0; j < 4; j++ {
			y := append(append([]string{}, ws...), r.anyWord())
			y[r.rng.Intn(len(y))] = r.foreign()
			r.decwords(y)
		}
		if i < pick(8, 60) {
			for _, x := range decorations(r.anyWord()) {
				y := append(append([]string{}, ws...), r.anyWord())
				y[r.rng.Intn(len(y))] = x
				r.decwords(y)
			}
		}
	}
	return
}

func init() {
	families["codec"] = famCodec
	families["codecwords"] = famCodecWords
}
