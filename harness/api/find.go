package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/bits"
	"math/rand"
	"sort"
	"sync"
	"time"
)

// Not used by any check: "-find SECONDS" looks for seeds whose keys hold rare byte patterns (rare.go is what it printed).

const rareOffset = 7654321

func find(seconds int) {
	var mu sync.Mutex
	best := map[string]string{}
	mark := func(seed []byte, why ...any) {
		id := fmt.Sprint(why...)
		mu.Lock()
		if _, ok := best[id]; !ok {
			best[id] = hex.EncodeToString(seed)
		}
		mu.Unlock()
	}
	ends := func(seed []byte, b []byte, why string) {
		for _, n := range []int{2, 3} {
			same := func(c []byte, x byte) bool {
				for _, y := range c {
					if y != x {
						return false
					}
				}
				return true
			}
			for _, x := range []byte{0, 0xFF} {
				if same(b[:n], x) {
					mark(seed, why, " first ", n, "x", x)
				}
				if same(b[len(b)-n:], x) {
					mark(seed, why, " last ", n, "x", x)
				}
			}
		}
	}
	end := time.Now().Add(time.Duration(seconds) * time.Second)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(int64(g) + 77))
			for i := 0; time.Now().Before(end); i++ {
				seed := make([]byte, 16)
				rng.Read(seed)
				if i%60 != 0 {
					for k, info := range []string{"master key", "authentication subkey\x00\x00", "signing subkey\x00\x00", "encryption subkey\x00\x00"} {
						ends(seed, derived(seed, rareOffset, "mnemonikey "+info), fmt.Sprint("secret ", k))
					}
					continue
				}
				t := newRec("find", 0)
				t.newseed("s", false, seed, 0)
				t.newkey("k", "s", "", t.at(rareOffset), opts{all: true, name: "n"})
				raw, _, ok, _ := doExport(t.keys["k"].mnk, request{mode: "full"}, nil)
				if !ok {
					panic("export")
				}
				nk, ns := 0, 0
				for len(raw) > 3 {
					n, h := int(raw[1]), 2
					if raw[1] >= 192 {
						n, h = (int(raw[1])-192)<<8+int(raw[2])+192, 3
					}
					body := raw[h : h+n]
					switch raw[0] {
					case 0xC5, 0xC7:
						at := 6
						at += 1 + int(body[at]) + 2 + 1 // oid, bit count, 0x40
						ends(seed, body[at:at+32], fmt.Sprint("public ", nk))
						nk++
					case 0xC2:
						hl := int(binary.BigEndian.Uint16(body[4:]))
						ul := int(binary.BigEndian.Uint16(body[6+hl:]))
						at := 8 + hl + ul
						ends(seed, append(append([]byte{}, body[at:at+2]...), 7), fmt.Sprint("hash ", ns))
						at += 2
						for j := 0; j < 2; j++ {
							bl := int(binary.BigEndian.Uint16(body[at:]))
							if bl <= 240 {
								mark(seed, "sig ", ns, " number ", j, " bytes ", (bl+7)/8)
							}
							if m := body[at+2 : at+2+(bl+7)/8]; m[len(m)-1] == 0 && m[len(m)-2] == 0 {
								mark(seed, "sig ", ns, " number ", j, " ends in zeros")
							}
							if bits.Len8(body[at+2]) == 8 && body[at+2] == 0xFF && body[at+3] == 0xFF {
								mark(seed, "sig ", ns, " number ", j, " begins with ones")
							}
							at += 2 + (bl+7)/8
						}
						ns++
					}
					raw = raw[h+n:]
				}
				for id, f := range map[string][]byte{"m": t.keys["k"].mnk.Fingerprint()} {
					ends(seed, f, "fingerprint "+id)
					ends(seed, f[12:], "id "+id)
				}
				for _, typ := range allTypes {
					f := t.keys["k"].mnk.SubkeyFingerprint(typ)
					ends(seed, f, "fingerprint "+string(typ))
					ends(seed, f[12:], "id "+string(typ))
				}
			}
		}(g)
	}
	wg.Wait()
	var ids []string
	for id := range best {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	fmt.Println("package main\n\n// What find.go printed: seeds whose keys (offset 7654321, user ID \"n\", subkeys at index 0, the\n// stand-in for Argon2id) hold a rare pattern.\nvar rare = []struct{ seed, why string }{")
	for _, id := range ids {
		fmt.Printf("\t{%q, %q},\n", best[id], id)
	}
	fmt.Println("}")
}
