package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
)

type M = map[string]any

// rec performs public calls and records each of them, with its result, as an event of one history.
type rec struct {
	id      string
	ev      []M
	rng     *rand.Rand
	seeds   map[string]*mnemonikey.Seed
	phrases map[string][]string
	decs    map[string]*mnemonikey.DecodedMnemonic
	keys    map[string]*keyInfo
	args    []func()
	rets    []func()
	plain   bool // record no twin exports
	orders  map[string][]string
	kept    []keptValue // what the word codec returned
}

type keyInfo struct {
	mnk  *mnemonikey.Mnemonikey
	seed []byte
	off  uint32
}

func newRec(id string, seed int64) *rec {
	h := sha256.Sum256([]byte(id + "/" + strconv.FormatInt(seed, 10)))
	return &rec{
		id: id, rng: rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(h[:8])))),
		seeds: map[string]*mnemonikey.Seed{}, phrases: map[string][]string{},
		decs: map[string]*mnemonikey.DecodedMnemonic{}, keys: map[string]*keyInfo{},
	}
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func word(w string) string {
	if !utf8.ValidString(w) {
		return "!" + hx([]byte(w))
	}
	return w
}
func wordsOut(ws []string) []string {
	out := []string{}
	for _, w := range ws {
		out = append(out, word(w))
	}
	return out
}

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, mnemonikey.ErrInvalidWordCount):
		return "wordcount"
	case errors.Is(err, mnemonic.ErrInvalidWord):
		return "badword"
	case errors.Is(err, mnemonikey.ErrInvalidVersionNumber):
		return "version"
	case errors.Is(err, mnemonikey.ErrInvalidChecksum):
		return "checksum"
	case errors.Is(err, mnemonikey.ErrMnemonicDecryption):
		return "decrypt"
	case errors.Is(err, mnemonikey.ErrInvalidEraNumber):
		return "era"
	case errors.Is(err, mnemonikey.ErrTTLInvalid):
		return "ttl"
	case errors.Is(err, mnemonikey.ErrCreationTooLate):
		return "late"
	case errors.Is(err, mnemonikey.ErrCreationTooEarly):
		return "early"
	case errors.Is(err, mnemonic.ErrInvalidIndex):
		return "index"
	}
	return "other"
}

// call runs f; a panic becomes the error class "panic".
func call(f func() error) (ok bool, class string) {
	defer func() {
		if x := recover(); x != nil {
			ok, class = false, "panic"
		}
	}()
	err := f()
	return err == nil, errClass(err)
}

func (r *rec) add(op string, fields M) {
	fields["op"] = op
	r.ev = append(r.ev, fields)
}

// secretBytes gives a byte slice with spare capacity holding a canary, and a check that neither changed.
func guarded(b []byte) ([]byte, func() bool) {
	full := make([]byte, len(b)+24)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA5
	}
	want := append([]byte{}, full...)
	return full[:len(b):len(full)], func() bool { return bytes.Equal(full, want) }
}
func guardedWords(ws []string) ([]string, func() bool) {
	full := make([]string, len(ws)+4)
	copy(full, ws)
	for i := len(ws); i < len(full); i++ {
		full[i] = "canary"
	}
	want := append([]string{}, full...)
	return full[:len(ws):len(full)], func() bool { return reflect.DeepEqual(full, want) }
}

// password argument: the empty password is given sometimes as nil, sometimes as an empty slice
func (r *rec) pw(p []byte) ([]byte, func() bool) {
	if len(p) == 0 && r.rng.Intn(2) == 0 {
		return nil, func() bool { return true }
	}
	b, ok := guarded(p)
	r.args = append(r.args, func() {
		for i := range b {
			b[i] ^= 0x5C
		}
	})
	return b, ok
}

// ------------------------------------------------------------------- random sources

type source struct {
	data  []byte
	used  int
	chunk int
	fail  bool // end with an error of its own instead of EOF
	early bool // report the end together with the last bytes
	lazy  bool // return nothing, and no error, every other time
	turn  bool
}

func (s *source) end() error {
	if s.fail {
		return errors.New("source broke")
	}
	return io.EOF
}

// manner gives the source one of its ways of answering.
func (s *source) manner(n int) *source {
	s.early, s.lazy = n&1 != 0, n&2 != 0
	return s
}

func (s *source) Read(p []byte) (int, error) {
	if s.used >= len(s.data) {
		return 0, s.end()
	}
	if s.turn = !s.turn; s.lazy && s.turn {
		return 0, nil
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	n = copy(p[:n], s.data[s.used:])
	s.used += n
	if s.early && s.used == len(s.data) {
		return n, s.end()
	}
	return n, nil
}

// ------------------------------------------------------------------- seeds

func (r *rec) seedResult(s *mnemonikey.Seed, ok bool, class string, intact bool, used int) M {
	if !ok {
		return M{"ok": false, "err": class, "none": s == nil, "intact": intact}
	}
	res := M{"ok": true, "err": "", "none": s == nil, "intact": intact, "used": used}
	if s == nil {
		res["ok"], res["err"] = false, "nil"
		return res
	}
	ok2, _ := call(func() error {
		b, i := s.Bytes(), s.Int()
		res["bytes"], res["int"], res["ineg"], res["era"] = hx(b), hx(i.Bytes()), i.Sign() < 0, clamp(int(s.Era()))
		r.rets = append(r.rets, func() {
			for j := range b {
				b[j] ^= 0xFF
			}
			i.Add(i, big.NewInt(12345))
			i.Neg(i)
		})
		return nil
	})
	if !ok2 {
		return M{"ok": false, "err": "panic", "none": false, "intact": intact}
	}
	return res
}

func (r *rec) newseed(h string, neg bool, val []byte, era int) {
	x := new(big.Int).SetBytes(val)
	if neg {
		x.Neg(x)
	}
	neg = x.Sign() < 0
	arg := new(big.Int).Set(x)
	var s *mnemonikey.Seed
	ok, class := call(func() (err error) { s, err = mnemonikey.NewSeed(mnemonikey.Era(era), arg); return })
	r.add("newseed", M{"h": h, "neg": neg, "val": hx(x.Bytes()), "era": clamp(era), "r": r.seedResult(s, ok, class, arg.Cmp(x) == 0, 0)})
	r.args = append(r.args, func() { arg.Add(arg, big.NewInt(777)); arg.Lsh(arg, 3) })
	if ok && s != nil {
		r.seeds[h] = s
	}
}

func (r *rec) genseed(h string, src []byte, chunk int, fail bool) {
	rd := (&source{data: append([]byte{}, src...), chunk: chunk, fail: fail}).manner(r.rng.Intn(4))
	var s *mnemonikey.Seed
	ok, class := call(func() (err error) { s, err = mnemonikey.GenerateSeed(rd); return })
	r.add("genseed", M{"h": h, "src": hx(src), "r": r.seedResult(s, ok, class, true, 8*rd.used)})
	if ok && s != nil {
		r.seeds[h] = s
	}
}

// ------------------------------------------------------------------- phrases

func off4(off uint32) string { var b [4]byte; binary.BigEndian.PutUint32(b[:], off); return hx(b[:]) }

func (r *rec) phraseResult(p string, ws []string, ok bool, class string, intact bool) M {
	if !ok {
		return M{"ok": false, "err": class, "none": ws == nil, "intact": intact}
	}
	r.phrases[p] = append([]string{}, ws...)
	res := M{"ok": true, "err": "", "none": ws == nil, "intact": intact, "words": wordsOut(ws)}
	r.rets = append(r.rets, func() {
		for i := range ws {
			ws[i] = "abandon"
		}
	})
	return res
}

func (r *rec) encplain(p, via, h string, off uint32) {
	var ws []string
	var f func() error
	same := func() bool { return true }
	if via == "key" {
		k := r.keys[h]
		if k == nil {
			return
		}
		off = 0
		f = func() (err error) { ws, err = k.mnk.EncodeMnemonicPlaintext(); return }
	} else {
		s := r.seeds[h]
		if s == nil {
			return
		}
		before := hx(s.Bytes())
		same = func() bool { return hx(s.Bytes()) == before }
		f = func() (err error) { ws, err = mnemonikey.EncodeMnemonicPlaintext(s, off); return }
	}
	ok, class := call(f)
	r.add("encplain", M{"p": p, "via": via, "h": h, "off": off4(off), "r": r.phraseResult(p, ws, ok, class, same())})
}

func (r *rec) encenc(p, via, h string, off uint32, pw, src []byte, chunk int) {
	var ws []string
	var f func() error
	rd := (&source{data: append([]byte{}, src...), chunk: chunk, fail: r.rng.Intn(2) == 0}).manner(r.rng.Intn(4))
	pwArg, pwSame := r.pw(pw)
	same := pwSame
	if via == "key" {
		k := r.keys[h]
		if k == nil {
			return
		}
		off = 0
		f = func() (err error) { ws, err = k.mnk.EncodeMnemonicEncrypted(pwArg, rd); return }
	} else {
		s := r.seeds[h]
		if s == nil {
			return
		}
		before := hx(s.Bytes())
		same = func() bool { return pwSame() && hx(s.Bytes()) == before }
		f = func() (err error) { ws, err = mnemonikey.EncodeMnemonicEncrypted(s, off, pwArg, rd); return }
	}
	ok, class := call(f)
	r.add("encenc", M{"p": p, "via": via, "h": h, "off": off4(off), "pw": hx(pw), "src": hx(src),
		"r": r.phraseResult(p, ws, ok, class, same())})
}

func instant(t time.Time) string {
	s := fmt.Sprintf("%016x", uint64(t.Unix()))
	if t.Nanosecond() != 0 {
		s += "." + strconv.Itoa(t.Nanosecond())
	}
	return s
}

// decView is everything a decoded phrase shows.
func decView(d *mnemonikey.DecodedMnemonic) M {
	res := M{}
	ok, _ := call(func() error {
		res["version"], res["encrypted"] = int(d.Version), d.Encrypted()
		res["off"], res["created"] = off4(d.CreationOffset()), instant(d.Creation())
		y := "plain:"
		s, err := d.Seed()
		if err == nil && s != nil {
			y += hx(s.Bytes())
		} else {
			y += errClass(err)
		}
		if stubbed {
			for i := 0; i < 3; i++ {
				s, err = d.DecryptSeed([]byte{byte('0' + i)})
				if err == nil && s != nil {
					y += "/" + hx(s.Bytes())
				} else {
					y += "/" + errClass(err)
				}
			}
		}
		res["yield"] = y
		return nil
	})
	if !ok {
		return nil
	}
	return res
}

func (r *rec) decode(d string, ws []string) {
	arg, same := guardedWords(ws)
	var dm *mnemonikey.DecodedMnemonic
	ok, class := call(func() (err error) { dm, err = mnemonikey.DecodeMnemonic(arg); return })
	res := M{"ok": ok, "err": class, "none": dm == nil, "intact": same()}
	if ok {
		if v := decView(dm); v != nil {
			for k, x := range v {
				res[k] = x
			}
			r.decs[d] = dm
		} else {
			res["ok"], res["err"] = false, "panic"
		}
	}
	r.add("decode", M{"d": d, "ws": wordsOut(ws), "r": res})
	r.args = append(r.args, func() {
		for i := range arg {
			arg[i] = "zoo"
		}
	})
}

func (r *rec) parsever(w string) {
	var v mnemonikey.MnemonicVersion
	ok, class := call(func() (err error) { v, err = mnemonikey.ParseMnemonicVersion(w); return })
	res := M{"ok": ok, "err": class, "none": true, "intact": true}
	if ok {
		res["version"], res["size"], res["encrypted"] = int(v), v.MnemonicSize(), v.Encrypted()
	}
	r.add("parsever", M{"w": word(w), "r": res})
}

func (r *rec) version(v uint) {
	n := -1
	if v < 1<<20 {
		n = int(v)
	}
	mv := mnemonikey.MnemonicVersion(v)
	r.add("version", M{"v": n, "r": M{"ok": true, "intact": true, "era": int(mv.Era()), "size": mv.MnemonicSize(), "encrypted": mv.Encrypted()}})
}

func (r *rec) seedof(d, h string) {
	dm := r.decs[d]
	if dm == nil {
		return
	}
	var s *mnemonikey.Seed
	ok, class := call(func() (err error) { s, err = dm.Seed(); return })
	r.add("seedof", M{"d": d, "h": h, "r": r.seedResult(s, ok, class, true, 0)})
	if ok && s != nil {
		r.seeds[h] = s
	}
}

func (r *rec) decrypt(d, h string, pw []byte) {
	dm := r.decs[d]
	if dm == nil {
		return
	}
	arg, same := r.pw(pw)
	before := decView(dm)
	var s *mnemonikey.Seed
	ok, class := call(func() (err error) { s, err = dm.DecryptSeed(arg); return })
	intact := same() && reflect.DeepEqual(before, decView(dm))
	r.add("decrypt", M{"d": d, "h": h, "pw": hx(pw), "r": r.seedResult(s, ok, class, intact, 0)})
	if ok && s != nil {
		r.seeds[h] = s
	}
}

// ------------------------------------------------------------------- keys

type opts struct {
	name, email    string
	ttl            time.Duration
	all            bool
	list           []string
	enc, auth, sig uint16
	nilOpts        bool
}

func (o opts) goOpts() *mnemonikey.KeyOptions {
	if o.nilOpts {
		return nil
	}
	k := &mnemonikey.KeyOptions{Name: o.name, Email: o.email, TTL: o.ttl,
		EncryptionSubkeyIndex: o.enc, AuthenticationSubkeyIndex: o.auth, SigningSubkeyIndex: o.sig}
	if !o.all {
		k.Subkeys = make([]mnemonikey.SubkeyType, 0, len(o.list)+3)
		for _, t := range o.list {
			k.Subkeys = append(k.Subkeys, mnemonikey.SubkeyType(t))
		}
	}
	return k
}

func (o opts) json() M {
	if o.nilOpts {
		o = opts{all: true}
	}
	sec, ns := int64(o.ttl/time.Second), int64(o.ttl%time.Second)
	neg := o.ttl < 0
	if neg {
		sec, ns = -sec, -ns
	}
	list := o.list
	if list == nil {
		list = []string{}
	}
	return M{"name": hx([]byte(o.name)), "email": hx([]byte(o.email)),
		"ttl": M{"neg": neg, "sec": fmt.Sprintf("%016x", uint64(sec)), "ns": ns},
		"all": o.all, "list": list, "enc": int(o.enc), "auth": int(o.auth), "sig": int(o.sig)}
}

var allTypes = []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeEncryption, mnemonikey.SubkeyTypeAuthentication, mnemonikey.SubkeyTypeSigning}

// observe is everything a key's accessors report, with digests of its phrase and plain export.
func (r *rec) observe(k *mnemonikey.Mnemonikey) M {
	res := M{}
	ok, _ := call(func() error {
		types := []string{}
		ts := k.SubkeyTypes()
		for _, t := range ts {
			types = append(types, string(t))
		}
		fps := M{}
		fp := k.Fingerprint()
		all := [][]byte{fp}
		for _, t := range allTypes {
			f := k.SubkeyFingerprint(t)
			fps[string(t)] = hx(f)
			if f != nil && len(f) == 0 {
				fps[string(t)] = "empty"
			}
			all = append(all, f)
		}
		strays := "" // nothing is no subkey type, and so has no fingerprint
		for _, t := range []mnemonikey.SubkeyType{"", "master", "Encryption", "signing ", "certification", "auth"} {
			if f := k.SubkeyFingerprint(t); f != nil {
				strays += string(t) + "=" + hx(f) + ";"
			}
		}
		res["strays"] = strays
		expiry := ""
		if x := k.Expiry(); !x.IsZero() {
			expiry = instant(x)
		}
		res["created"], res["expiry"], res["uid"], res["fp"] = instant(k.CreatedAt()), expiry, hx([]byte(k.UserID())), hx(fp)
		res["types"], res["fps"] = types, fps
		ws, err := k.EncodeMnemonicPlaintext()
		res["phrase"] = digest(strings.Join(ws, " "), err)
		b, err := k.EncodePGP(nil)
		res["export"] = digest(string(b), err)
		r.rets = append(r.rets, func() {
			for _, f := range all {
				for i := range f {
					f[i] ^= 0xFF
				}
			}
			for i := range ts {
				ts[i] = "scribbled"
			}
			for i := range b {
				b[i] ^= 0xFF
			}
		})
		return nil
	})
	if !ok {
		return nil
	}
	return res
}

func digest(s string, err error) string {
	if err != nil {
		return "error:" + errClass(err)
	}
	d := sha256.Sum256([]byte(s))
	return hx(d[:8])
}

func (r *rec) keyResult(k string, mnk *mnemonikey.Mnemonikey, ok bool, class string, intact bool, seed []byte) M {
	res := M{"ok": ok, "err": class, "none": mnk == nil, "intact": intact}
	if !ok {
		return res
	}
	var obs M
	if mnk != nil {
		obs = r.observe(mnk)
	}
	if obs == nil {
		res["ok"], res["err"] = false, "panic"
		return res
	}
	res["obs"] = obs
	if seed != nil {
		r.keys[k] = &keyInfo{mnk: mnk, seed: seed, off: uint32(mnk.CreatedAt().Unix() - mnemonikey.EpochStart.Unix())}
	}
	return res
}

func (r *rec) optArgs(o opts) (*mnemonikey.KeyOptions, func() bool) {
	k, want := o.goOpts(), o.goOpts()
	r.args = append(r.args, func() {
		if k == nil {
			return
		}
		k.Name, k.Email, k.TTL = "scribbled", "scribbled@x", 77*time.Hour
		k.EncryptionSubkeyIndex, k.AuthenticationSubkeyIndex, k.SigningSubkeyIndex = 99, 98, 97
		for i := range k.Subkeys {
			k.Subkeys[i] = "scribbled"
		}
	})
	return k, func() bool { return reflect.DeepEqual(k, want) }
}

func (r *rec) newkey(k, h, d string, at time.Time, o opts) {
	s := r.seeds[h]
	if s == nil {
		return
	}
	if d != "" {
		if r.decs[d] == nil {
			return
		}
		at = r.decs[d].Creation()
	}
	sec := at.Unix() - mnemonikey.EpochStart.Unix()
	ns := int64(at.Nanosecond())
	neg := sec < 0
	if neg {
		sec = -sec
	}
	arg, same := r.optArgs(o)
	before := append([]byte{}, s.Bytes()...)
	var mnk *mnemonikey.Mnemonikey
	ok, class := call(func() (err error) { mnk, err = mnemonikey.New(s, at, arg); return })
	intact := same() && bytes.Equal(before, s.Bytes())
	r.add("newkey", M{"k": k, "h": h, "d": d, "at": M{"neg": neg, "mag": fmt.Sprintf("%016x", uint64(sec)), "ns": ns},
		"opts": o.json(), "r": r.keyResult(k, mnk, ok, class, intact, before)})
}

func (r *rec) recov(k string, ws []string, withPw bool, pw []byte, o opts) {
	arg, same := guardedWords(ws)
	optArg, optSame := r.optArgs(o)
	var mnk *mnemonikey.Mnemonikey
	var ok bool
	var class string
	op := "recplain"
	intact := func() bool { return same() && optSame() }
	if withPw {
		op = "recenc"
		pwArg, pwSame := r.pw(pw)
		intact = func() bool { return same() && optSame() && pwSame() }
		ok, class = call(func() (err error) { mnk, err = mnemonikey.RecoverEncrypted(arg, pwArg, optArg); return })
	} else {
		ok, class = call(func() (err error) { mnk, err = mnemonikey.RecoverPlaintext(arg, optArg); return })
	}
	var seed []byte
	var off uint32
	if ok {
		seed, off = indepSeed(ws, pw)
	}
	res := r.keyResult(k, mnk, ok, class, intact(), seed)
	if ki := r.keys[k]; ok && ki != nil {
		ki.off = off
	}
	e := M{"k": k, "ws": wordsOut(ws), "opts": o.json(), "r": res}
	if withPw {
		e["pw"] = hx(pw)
	}
	r.add(op, e)
	r.args = append(r.args, func() {
		for i := range arg {
			arg[i] = "zoo"
		}
	})
}

// ------------------------------------------------------------------- exports

// subkeyOrder is the published order of the three subkeys of this master key.
// The memory is each history's own: sharing it would order the calls of concurrent histories.
func (r *rec) subkeyOrder(seed []byte, off uint32) []string {
	key := hx(seed) + off4(off)
	if o, ok := r.orders[key]; ok {
		return o
	}
	d := sha256.Sum256(masterPrivate(seed, off))
	u := binary.BigEndian.Uint64(d[:8])
	n := int64(u & 0x7FFFFFFFFFFFFFFF)
	if uint64(n) != u {
		n = -n
	}
	o := []string{"encryption", "authentication", "signing"}
	rand.New(rand.NewSource(n)).Shuffle(3, func(i, j int) { o[i], o[j] = o[j], o[i] })
	if r.orders == nil {
		r.orders = map[string][]string{}
	}
	r.orders[key] = o
	return o
}

type request struct {
	mode  string
	cert  bool
	pw    []byte
	armor bool
}

func doExport(k *mnemonikey.Mnemonikey, q request, pw []byte) (raw []byte, text string, ok bool, class string) {
	ok, class = call(func() (err error) {
		switch {
		case q.mode == "full" && q.armor:
			text, err = k.EncodePGPArmor(pw)
		case q.mode == "full":
			raw, err = k.EncodePGP(pw)
		case q.armor:
			text, err = k.EncodeSubkeysPGPArmor(pw, q.cert)
		default:
			raw, err = k.EncodeSubkeysPGP(pw, q.cert)
		}
		return
	})
	return
}

func (r *rec) export(k string, q request) {
	ki := r.keys[k]
	if ki == nil {
		return
	}
	if q.mode == "full" {
		q.cert = true
	}
	arg, same := r.pw(q.pw)
	raw, text, ok, class := doExport(ki.mnk, q, arg)
	res := M{"ok": ok, "err": class, "none": raw == nil && text == "", "intact": same(), "raw": hx(raw), "text": hx([]byte(text))}
	twin, full := "", ""
	if (len(q.pw) > 0 || q.armor) && !r.plain {
		b, _, _, _ := doExport(ki.mnk, request{mode: q.mode, cert: q.cert}, nil)
		twin = hx(b)
	}
	if (q.mode == "sub" || len(q.pw) > 0) && !r.plain {
		b, _, _, _ := doExport(ki.mnk, request{mode: "full"}, nil)
		full = hx(b)
	}
	r.add("export", M{"k": k, "req": M{"mode": q.mode, "cert": q.cert, "pw": hx(q.pw), "armor": q.armor},
		"twin": twin, "full": full, "order": r.subkeyOrder(ki.seed, ki.off), "r": res})
	r.rets = append(r.rets, func() {
		for i := range raw {
			raw[i] ^= 0xFF
		}
	})
}

// ------------------------------------------------------------------- looking and scribbling

func (r *rec) look(kind, h string) {
	switch kind {
	case "seed":
		s := r.seeds[h]
		if s == nil {
			return
		}
		r.add("look", M{"kind": kind, "h": h, "r": r.seedResult(s, true, "", true, 0)})
	case "dec":
		d := r.decs[h]
		if d == nil {
			return
		}
		v := decView(d)
		if v == nil {
			v = M{"off": "00000000", "created": "panic", "encrypted": false, "yield": "panic"}
		}
		v["ok"] = true
		r.add("look", M{"kind": kind, "h": h, "r": v})
	case "key":
		k := r.keys[h]
		if k == nil {
			return
		}
		o := r.observe(k.mnk)
		if o == nil {
			o = M{"created": "panic"}
		}
		r.add("look", M{"kind": kind, "h": h, "r": M{"ok": true, "obs": o}})
	}
}

func (r *rec) lookAll() {
	for _, h := range sorted(r.seeds) {
		r.look("seed", h)
	}
	for _, h := range sorted(r.decs) {
		r.look("dec", h)
	}
	for _, h := range sorted(r.keys) {
		r.look("key", h)
	}
}

func (r *rec) scribble(what string) {
	if what == "args" {
		for _, f := range r.args {
			f()
		}
	} else {
		for _, f := range r.rets {
			f()
		}
	}
	r.add("scribble", M{"what": what})
}

// clamp keeps a number within what TLC can read.
func clamp(n int) int {
	if n > 1<<30 {
		return 1 << 30
	}
	if n < -1<<30 {
		return -1 << 30
	}
	return n
}
