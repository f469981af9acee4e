package main

import (
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"github.com/kklash/mnemonikey/pgp"
)

// The pgp package, call by call: keys from arbitrary seeds, key sets assembled by hand, building blocks.

type pgpKey struct {
	kind   string
	seed   []byte
	master *pgp.ED25519MasterKey
	ed     *pgp.ED25519Subkey
	cv     *pgp.Curve25519Subkey
}

type pgpState struct {
	keys map[string]*pgpKey
	sets map[string]*pgp.KeySet
	ms   map[string]string // set -> name of its master key
}

func newPgp() *pgpState {
	return &pgpState{map[string]*pgpKey{}, map[string]*pgp.KeySet{}, map[string]string{}}
}

func be4(n uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, n); return b }

func scribbleBytes(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0xFF
		}
	}
}

var pgpZones = []*time.Location{time.UTC, time.FixedZone("east", 5*3600+45*60), time.FixedZone("west", -9*3600-1800), time.Local}

// momentAt is the moment of these unix seconds, with a fraction, seen from some time zone
func momentAt(sec int64, frac int64, zone int) time.Time {
	return time.Unix(sec, frac).In(pgpZones[zone%len(pgpZones)])
}

// pkey makes a key. period 0: never expires.
func (r *rec) pkey(st *pgpState, name, kind string, seed []byte, created, period uint32, kdf *pgp.KeyDerivationParameters) {
	arg, same := guarded(seed)
	frac := []int64{0, 0, 1, 500000000, 999999999}[r.rng.Intn(5)]
	c := momentAt(int64(created), frac, r.rng.Intn(4))
	var x time.Time
	per := ""
	if period != 0 {
		x = momentAt(int64(created)+int64(period), frac, r.rng.Intn(4))
		per = hx(be4(period))
	}
	kdfBytes := []byte{8, 7}
	kdfSame := func() bool { return true }
	if kdf != nil {
		was := *kdf
		kdfSame = func() bool { return *kdf == was }
		kdfBytes = []byte{byte(kdf.HashFunction), byte(kdf.CipherAlgorithm)}
	}
	k := &pgpKey{kind: kind, seed: append([]byte{}, seed...)}
	none := true
	var private, public, fp []byte
	ok, class := call(func() (err error) {
		switch kind {
		case "master":
			k.master, err = pgp.NewED25519MasterKey(arg, c, x)
			if none = k.master == nil; !none {
				private, public, fp = k.master.Private, k.master.Public, k.master.FingerprintV4()
			}
		case "ed":
			k.ed, err = pgp.NewED25519Subkey(arg, c, x)
			if none = k.ed == nil; !none {
				private, public, fp = k.ed.Private, k.ed.Public, k.ed.FingerprintV4()
			}
		case "cv":
			k.cv, err = pgp.NewCurve25519Subkey(arg, c, x, kdf)
			if none = k.cv == nil; !none {
				private, public, fp = k.cv.Private, k.cv.Public, k.cv.FingerprintV4()
			}
		}
		return
	})
	r.add("pkey", M{"k": name, "kind": kind, "seed": hx(seed), "created": hx(be4(created)), "period": per, "kdf": hx(kdfBytes),
		"r": M{"ok": ok, "err": class, "none": none, "intact": same() && kdfSame(), "private": hx(private), "public": hx(public), "fp": hx(fp)}})
	if ok {
		st.keys[name] = k
	}
	for i := range arg { // the caller clears its copy of the seed
		arg[i] = 0xEE
	}
	scribbleBytes(fp)
}

func (r *rec) pencode(st *pgpState, name, what string, pw []byte, uid *pgp.UserID) {
	k := st.keys[name]
	if k == nil || (k.kind != "master" && (what == "stub" || what == "certify")) {
		return
	}
	arg, same := guarded(pw)
	if pw == nil {
		arg, same = nil, func() bool { return true }
	}
	var b []byte
	u := []byte{}
	ok, class := call(func() (err error) {
		switch k.kind + "/" + what {
		case "master/public":
			b = k.master.EncodePublicPacket()
		case "ed/public":
			b = k.ed.EncodePublicSubkeyPacket()
		case "cv/public":
			b = k.cv.EncodePublicSubkeyPacket()
		case "master/fingerprint":
			b = k.master.FingerprintV4()
		case "ed/fingerprint":
			b = k.ed.FingerprintV4()
		case "cv/fingerprint":
			b = k.cv.FingerprintV4()
		case "master/stub":
			b = k.master.EncodePrivateDummyPacket()
		case "master/secret":
			b, err = k.master.EncodePrivatePacket(arg)
		case "ed/secret":
			b, err = k.ed.EncodePrivatePacket(arg)
		case "cv/secret":
			b, err = k.cv.EncodePrivatePacket(arg)
		case "master/certify":
			b = k.master.SelfCertify(uid).EncodePacket()
		default:
			panic(what)
		}
		return
	})
	if uid != nil {
		u = uidBytes(uid)
	}
	r.add("pencode", M{"k": name, "what": what, "pw": hx(pw), "uid": hx(u), "r": M{"ok": ok, "err": class, "intact": same(), "bytes": hx(b)}})
	scribbleBytes(b)
}

func uidBytes(u *pgp.UserID) []byte {
	switch {
	case u.Email == "":
		return []byte(u.Name)
	case u.Name == "":
		return []byte(u.Email)
	}
	return []byte(u.Name + " <" + u.Email + ">")
}

func (r *rec) pset(st *pgpState, s, m, e, a, g string, uid *pgp.UserID, reuse bool) {
	get := func(n string) *pgpKey {
		if k := st.keys[n]; k != nil {
			return k
		}
		return &pgpKey{}
	}
	if st.keys[m] == nil {
		return
	}
	name := func(n string, k *pgpKey) string {
		if k.seed == nil {
			return ""
		}
		return n
	}
	ks := st.sets[s]
	if ks == nil || !reuse {
		ks = &pgp.KeySet{}
		st.sets[s] = ks
	}
	ks.UserID, ks.MasterKey = uid, st.keys[m].master
	ks.EncryptionSubkey, ks.AuthenticationSubkey, ks.SigningSubkey = get(e).cv, get(a).ed, get(g).ed
	st.ms[s] = m
	r.add("pset", M{"s": s, "set": M{"m": m, "e": name(e, get(e)), "a": name(a, get(a)), "s": name(g, get(g)), "uid": hx(uidBytes(uid))}})
}

func pgpOrder(private []byte) []string {
	d := sha256.Sum256(private)
	u := binary.BigEndian.Uint64(d[:8])
	n := int64(u & 0x7FFFFFFFFFFFFFFF)
	if uint64(n) != u {
		n = -n
	}
	o := []string{"encryption", "authentication", "signing"}
	rand.New(rand.NewSource(n)).Shuffle(3, func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

func (r *rec) pexport(st *pgpState, s, mode string, cert bool, pw []byte) []byte {
	ks := st.sets[s]
	if ks == nil {
		return nil
	}
	arg, same := guarded(pw)
	if pw == nil {
		arg, same = nil, func() bool { return true }
	}
	var b []byte
	ok, class := call(func() (err error) {
		if mode == "full" {
			b, err = ks.EncodePackets(arg)
		} else {
			b, err = ks.EncodeSubkeyPackets(arg, cert)
		}
		return
	})
	order := pgpOrder(ed25519.NewKeyFromSeed(st.keys[st.ms[s]].seed))
	r.add("pexport", M{"s": s, "mode": mode, "cert": cert || mode == "full", "pw": hx(pw), "order": order,
		"r": M{"ok": ok, "err": class, "intact": same(), "bytes": hx(b)}})
	out := append([]byte{}, b...)
	scribbleBytes(b)
	return out
}

func (r *rec) pblock(what string, tag int, data []byte) {
	arg, same := guarded(data)
	var b []byte
	ok, class := call(func() error {
		switch what {
		case "packet":
			b = pgp.EncodePacket(pgp.PacketTag(tag), arg)
		case "subpacket":
			b = (&pgp.Subpacket{Type: pgp.SubpacketType(tag), Body: arg}).Encode()
		case "mpi":
			b = pgp.EncodeMPI(new(big.Int).SetBytes(arg))
		case "kdf":
			b = (&pgp.KeyDerivationParameters{HashFunction: pgp.HashFuncID(data[0]), CipherAlgorithm: pgp.CipherAlgoID(data[1])}).Encode()
		}
		return nil
	})
	res := hx(b)
	scribbleBytes(b) // must not reach the caller's bytes
	r.add("pblock", M{"what": what, "tag": tag, "data": hx(data), "r": M{"ok": ok, "err": class, "intact": same(), "bytes": res}})
}

func (r *rec) puid(u pgp.UserID) {
	var b, p []byte
	ok, class := call(func() error { b, p = u.Encode(), u.EncodePacket(); return nil })
	r.add("pblock", M{"what": "uid", "uid": hx(uidBytes(&u)), "r": M{"ok": ok, "err": class, "intact": true, "bytes": hx(b), "packet": hx(p)}})
}

func (r *rec) ps2k(hash pgp.HashFuncID, data, pw []byte) {
	a, same1 := guarded(data)
	p, same2 := guarded(pw)
	var b []byte
	ok, class := call(func() (err error) { b, err = pgp.EncryptS2K(hash, a, p); return })
	r.add("pblock", M{"what": "s2k", "hash": int(hash), "data": hx(data), "pw": hx(pw),
		"r": M{"ok": ok, "err": class, "intact": same1() && same2(), "bytes": hx(b)}})
}

func (r *rec) psign(seed, fp []byte, hash pgp.HashFuncID, typ byte, at uint32, data []byte, hashed, unhashed []*pgp.Subpacket) {
	fpArg, same1 := guarded(fp)
	dataArg, same2 := guarded(data)
	room := func(sp []*pgp.Subpacket) ([]*pgp.Subpacket, func() bool) { // spare capacity, with a canary
		full := make([]*pgp.Subpacket, len(sp)+3)
		copy(full, sp)
		keep := append([]*pgp.Subpacket{}, full...)
		var bodies []string
		for _, s := range sp {
			bodies = append(bodies, string(s.Body)+string(rune(s.Type)))
		}
		return full[:len(sp):len(full)], func() bool {
			for i := range full {
				if full[i] != keep[i] {
					return false
				}
				if i < len(sp) && string(sp[i].Body)+string(rune(sp[i].Type)) != bodies[i] {
					return false
				}
			}
			return true
		}
	}
	ha, same3 := room(hashed)
	ua, same4 := room(unhashed)
	var body, packet, sh []byte
	var R, S []byte
	ok, class := call(func() error {
		sig := pgp.Sign(ed25519.NewKeyFromSeed(seed), &pgp.SignatureRequest{SigningKeyFingerprint: fpArg, HashFunction: hash, Data: dataArg,
			Type: pgp.SignatureType(typ), HashedSubpackets: ha, UnhashedSubpackets: ua, Time: momentAt(int64(at), int64(r.rng.Intn(1e9)), r.rng.Intn(4))})
		body, packet, sh, R, S = sig.Encode(), sig.EncodePacket(), sig.SigHash, sig.R.Bytes(), sig.S.Bytes()
		return nil
	})
	list := func(sp []*pgp.Subpacket) []M {
		out := []M{}
		for _, s := range sp {
			out = append(out, M{"type": int(s.Type), "body": hx(s.Body)})
		}
		return out
	}
	r.add("pblock", M{"what": "sign", "seed": hx(seed), "fp": hx(fp), "hash": int(hash), "type": int(typ), "time": hx(be4(at)), "data": hx(data),
		"hashed": list(hashed), "unhashed": list(unhashed),
		"r": M{"ok": ok, "err": class, "intact": same1() && same2() && same3() && same4(),
			"bytes": hx(body), "packet": hx(packet), "hash": hx(sh), "sigr": hx(R), "sigs": hx(S)}})
}

// ------------------------------------------------------------------------------------ values

func (r *rec) seed32() []byte {
	b := r.bytes(32)
	switch r.rng.Intn(8) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xFF
		}
	case 2: // leading zeros
		for i := 0; i < 1+r.rng.Intn(20); i++ {
			b[i] = 0
		}
	case 3: // trailing zeros: leading ones of the encryption key's number
		for i := 0; i < 1+r.rng.Intn(20); i++ {
			b[31-i] = 0
		}
	case 4: // a single bit
		for i := range b {
			b[i] = 0
		}
		k := r.rng.Intn(256)
		b[k/8] = 1 << uint(k%8)
	}
	return b
}

func (r *rec) edge32() uint32 {
	switch r.rng.Intn(6) {
	case 0:
		return []uint32{0, 1, 2, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF, 1672531200}[r.rng.Intn(9)]
	case 1:
		return uint32(1) << uint(r.rng.Intn(32))
	}
	return r.rng.Uint32() >> uint(r.rng.Intn(4)*8)
}

func (r *rec) period32() uint32 {
	if r.rng.Intn(3) == 0 {
		return 0
	}
	if p := r.edge32(); p != 0 {
		return p
	}
	return 1
}

func (r *rec) kdf() *pgp.KeyDerivationParameters {
	if r.rng.Intn(2) == 0 {
		return &pgp.KeyDerivationParameters{HashFunction: []pgp.HashFuncID{pgp.HashFuncSHA1, pgp.HashFuncSHA256, pgp.HashFuncSHA384, pgp.HashFuncSHA512, pgp.HashFuncSHA224}[r.rng.Intn(5)],
			CipherAlgorithm: []pgp.CipherAlgoID{pgp.CipherAlgoDES, pgp.CipherAlgoAES128, pgp.CipherAlgoAES192, pgp.CipherAlgoAES256}[r.rng.Intn(4)]}
	}
	switch r.rng.Intn(4) {
	case 0:
		return &pgp.KeyDerivationParameters{HashFunction: pgp.HashFuncSHA512, CipherAlgorithm: pgp.CipherAlgoAES256}
	case 1:
		return &pgp.KeyDerivationParameters{HashFunction: pgp.HashFuncID(r.rng.Intn(256)), CipherAlgorithm: pgp.CipherAlgoID(r.rng.Intn(256))}
	}
	return nil
}

func (r *rec) pgpUid() *pgp.UserID {
	if r.rng.Intn(5) == 0 { // a name that looks like an address, an address equal to the name
		return []*pgp.UserID{{Name: "a@b.c", Email: "a@b.c"}, {Name: "a@b.c"}, {Name: "<a@b.c>", Email: "a@b.c"}, {Name: "n <a@b.c>", Email: "a@b.c"}, {Name: " ", Email: " "}, {Name: "n ", Email: " e"}}[r.rng.Intn(6)]
	}
	return &pgp.UserID{Name: []string{"", "a", "Ann Example", "%s%d", "名前", "x <y>"}[r.rng.Intn(6)], Email: []string{"", "", "a@b.c", "<", "é@x"}[r.rng.Intn(5)]}
}

// ---------------------------------------------------------------------------------- families

func init() {
	families["pgpkeys"], families["pgpsets"], families["pgpblocks"], families["pgpsigs"] = famPgpKeys, famPgpSets, famPgpBlocks, famPgpSigs
	for _, f := range []string{"pgpkeys", "pgpsets", "pgpblocks", "pgpsigs"} {
		sharded[f] = true
	}
}

// every bit of the seed, every bit of the times; seeds of other lengths
func famPgpKeys() (out []*rec) {
	kinds := []string{"master", "ed", "cv"}
	n := 0
	next := func() (*rec, *pgpState) {
		r := mk("pgpkeys", n)
		n++
		return r, newPgp()
	}
	all := func(r *rec, st *pgpState, k string) {
		for _, w := range []string{"public", "fingerprint", "stub", "secret"} {
			r.pencode(st, k, w, nil, nil)
		}
		r.pencode(st, k, "certify", nil, r.pgpUid())
	}
	for bit := 0; bit < 256; bit += pick(5, 1) {
		b := bit + int(runSeed)%5
		if thorough {
			b = bit
		}
		r, st := next()
		if !mine(n) {
			continue
		}
		seed := make([]byte, 32)
		seed[(b%256)/8] = 1 << uint(b%8)
		for i, kind := range kinds {
			k := fmt.Sprint("k", i)
			r.pkey(st, k, kind, seed, r.edge32(), r.period32(), nil)
			all(r, st, k)
		}
		out = append(out, r)
	}
	for i := 0; i < pick(40, 600); i++ {
		r, st := next()
		if !mine(n) {
			continue
		}
		for j, kind := range kinds {
			k := fmt.Sprint("k", j)
			r.pkey(st, k, kind, r.seed32(), r.edge32(), r.period32(), r.kdf())
			all(r, st, k)
		}
		out = append(out, r)
	}
	for bit := 0; bit < 32; bit++ { // creation times and periods, bit by bit
		r, st := next()
		if !mine(n) {
			continue
		}
		for j, kind := range kinds {
			k := fmt.Sprint("k", j)
			r.pkey(st, k, kind, r.seed32(), 1<<uint(bit), 1<<uint(31-bit), nil)
			all(r, st, k)
			r.pkey(st, "f"+k, kind, r.seed32(), ^uint32(0), ^(uint32(1) << uint(bit)), nil)
			all(r, st, "f"+k)
		}
		out = append(out, r)
	}
	for _, size := range []int{0, 1, 16, 31, 33, 63, 64, 65, 100} {
		r, st := next()
		if !mine(n) {
			continue
		}
		for j, kind := range kinds {
			r.pkey(st, fmt.Sprint("k", j), kind, r.bytes(size), 5, 0, nil)
		}
		out = append(out, r)
	}
	for i := 0; i < pick(3, 24); i++ { // protected
		r, st := next()
		if !mine(n) {
			continue
		}
		kind := kinds[i%3]
		r.pkey(st, "k", kind, r.seed32(), r.edge32(), r.period32(), nil)
		r.pencode(st, "k", "secret", [][]byte{[]byte("p"), {0}, r.bytes(40)}[r.rng.Intn(3)], nil)
		r.pencode(st, "k", "secret", []byte{}, nil)
		r.pencode(st, "k", "fingerprint", nil, nil)
		out = append(out, r)
	}
	return
}

// sets that share keys, are taken apart and put together again between encodings
func famPgpSets() (out []*rec) {
	for i := 0; i < pick(60, 900); i++ {
		if !mine(i) {
			continue
		}
		r := mk("pgpsets", i)
		out = append(out, r)
		st := newPgp()
		same := r.edge32()
		seed := r.seed32()
		one := r.rng.Intn(3) == 0 // every key from the same seed and time
		key := func(name, kind string, kdf *pgp.KeyDerivationParameters) {
			s, c := r.seed32(), r.edge32()
			if one {
				s, c = seed, same
			}
			r.pkey(st, name, kind, s, c, r.period32(), kdf)
		}
		key("m1", "master", nil)
		key("m2", "master", nil)
		key("a", "ed", nil)
		key("b", "ed", nil)
		key("e1", "cv", nil)
		key("e2", "cv", r.kdf())
		eds, cvs := []string{"a", "b", "", "a"}, []string{"e1", "e2", "", "e1"}
		uid := r.pgpUid()
		for n := 0; n < pick(4, 7); n++ {
			if r.rng.Intn(2) == 0 {
				uid = r.pgpUid()
			}
			r.pset(st, []string{"s", "t"}[r.rng.Intn(2)], []string{"m1", "m2"}[r.rng.Intn(2)], cvs[r.rng.Intn(4)], eds[r.rng.Intn(4)], eds[r.rng.Intn(4)],
				uid, r.rng.Intn(2) == 0)
			for _, s := range []string{"s", "t"} {
				mode := []string{"full", "sub"}[r.rng.Intn(2)]
				cert := r.rng.Intn(2) == 0
				r.pexport(st, s, mode, cert, nil)
				if r.rng.Intn(3) == 0 {
					r.pexport(st, s, mode, cert, []byte{})
				}
				if r.rng.Intn(pick(60, 40)) == 0 {
					r.pexport(st, s, mode, cert, [][]byte{[]byte("p"), r.bytes(33)}[r.rng.Intn(2)])
				}
			}
			if r.rng.Intn(3) == 0 {
				r.pencode(st, []string{"m1", "a", "e1"}[r.rng.Intn(3)], "secret", nil, nil)
			}
		}
	}
	// exports whose numbers are short come up rarely: search for them
	found, normal := 0, 0
	for i := 0; found < pick(2, 20) && i < 3000; i++ {
		r := mk("pgpshort", i*shards+shard)
		st := newPgp()
		r.pkey(st, "m", "master", r.bytes(32), 9, 0, nil)
		r.pkey(st, "a", "ed", r.bytes(32), 9, 0, nil)
		r.pset(st, "s", "m", "", "", "a", &pgp.UserID{Name: "n"}, false)
		b := r.pexport(st, "s", "full", true, nil)
		if b == nil {
			break
		}
		if len(b) > normal {
			normal = len(b)
			continue
		}
		if len(b) < normal {
			out = append(out, r)
			found++
		}
	}
	return
}

func lengthsAround() []int {
	ls := []int{0, 1, 2, 100, 189, 190, 191, 192, 193, 194, 255, 256, 257, 446, 447, 448, 449, 1000, 8380, 8381, 8382, 8383, 8384, 8385, 8386, 16319, 16320, 65534, 65535, 65536, 65537}
	if thorough {
		for n := 0; n < 8600; n += 13 {
			ls = append(ls, n)
		}
		ls = append(ls, 70000, 131071, 1<<18)
	}
	return ls
}

func famPgpBlocks() (out []*rec) {
	for i, n := range lengthsAround() {
		if !mine(i) {
			continue
		}
		r := mk("pgpblocks", i)
		out = append(out, r)
		r.pblock("packet", r.rng.Intn(64), r.bytes(n))
		r.pblock("subpacket", r.rng.Intn(256), r.bytes(n))
		if n < 20000 {
			r.puid(pgp.UserID{Name: string(r.bytes(n))})
			r.puid(pgp.UserID{Email: string(r.bytes(n))})
			r.puid(pgp.UserID{Name: string(r.bytes(n)), Email: "e"})
		}
	}
	if mine(0) {
		r := mk("pgpuids", 0)
		out = append(out, r)
		for i := 0; i < pick(60, 300); i++ {
			r.puid(*r.pgpUid())
		}
	}
	if mine(1) {
		r := mk("pgptags", 0)
		out = append(out, r)
		for tag := 0; tag < 64; tag++ {
			r.pblock("packet", tag, r.bytes(3))
		}
		for tag := 0; tag < 256; tag += pick(7, 1) {
			r.pblock("subpacket", tag, r.bytes(2))
			r.pblock("kdf", 0, []byte{byte(tag), byte(255 - tag)})
		}
	}
	if mine(2) {
		r := mk("pgpmpi", 0)
		out = append(out, r)
		for bits := 0; bits < 600; bits += pick(3, 1) {
			n := new(big.Int).Lsh(big.NewInt(1), uint(bits))
			r.pblock("mpi", 0, n.Bytes())
			r.pblock("mpi", 0, n.Sub(n, big.NewInt(1)).Bytes())
		}
		for _, bits := range []uint{2047, 2048, 4095, 8191, 65534} {
			n := new(big.Int).Lsh(big.NewInt(1), bits)
			r.pblock("mpi", 0, n.Bytes())
			r.pblock("mpi", 0, n.Sub(n, big.NewInt(1)).Bytes())
		}
		r.pblock("mpi", 0, []byte{0, 0, 5})
	}
	for i := 0; i < pick(6, 60); i++ {
		if !mine(i) {
			continue
		}
		r := mk("pgps2k", i)
		out = append(out, r)
		sizes := []int{0, 1, 32, 31, 64, 200}
		data := r.bytes(sizes[i%6])
		if i%6 == 2 {
			data[0], data[1] = 0, 3
		}
		r.ps2k(pgp.HashFuncSHA256, data, [][]byte{{}, []byte("p"), {0}, r.bytes(7), r.bytes(57), r.bytes(300)}[(i+i/6)%6])
		r.ps2k([]pgp.HashFuncID{pgp.HashFuncSHA384, pgp.HashFuncSHA512}[i%2], data, []byte("p"))
	}
	return
}

func famPgpSigs() (out []*rec) {
	hashes := []pgp.HashFuncID{pgp.HashFuncSHA256, pgp.HashFuncSHA384, pgp.HashFuncSHA512}
	for i := 0; i < pick(60, 900); i++ {
		if !mine(i) {
			continue
		}
		r := mk("pgpsigs", i)
		out = append(out, r)
		subs := func() (sp []*pgp.Subpacket) {
			for j := r.rng.Intn(5); j > 0; j-- {
				n := []int{0, 1, 4, 20, 190, 191, 192, 255, 256, 8382, 8383, 8384}[r.rng.Intn(12)]
				if r.rng.Intn(3) > 0 {
					n = r.rng.Intn(12)
				}
				sp = append(sp, &pgp.Subpacket{Type: pgp.SubpacketType(r.rng.Intn(256)), Body: r.bytes(n)})
			}
			return
		}
		r.psign(r.seed32(), r.bytes([]int{20, 20, 32, 8}[r.rng.Intn(4)]), hashes[i%3], byte(r.rng.Intn(256)), r.edge32(),
			r.bytes([]int{0, 1, 63, 64, 111, 112, 128, 1000}[r.rng.Intn(8)]), subs(), subs())
	}
	return
}
