package main

import (
	"crypto/aes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"hash/crc32"
	"io"
	"math/big"
	"strings"

	"github.com/kklash/wordlist4096"
	"golang.org/x/crypto/argon2"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/hkdf"
)

// Generators of inputs which do not go through the code under test.  Nothing here judges anything.

func wordIndex(w string) int {
	i, ok := wordlist4096.WordMap[strings.ToLower(w)]
	if !ok {
		return -1
	}
	return int(i)
}

// forge builds a well-formed phrase of 14 or 16 words from a body of bits (its version in the low bits of v).
func forge(v int, body *big.Int) []string {
	n := 14
	if v == 1 {
		n = 16
	}
	pay := new(big.Int).SetInt64(int64(v))
	bodyBits := uint(n*12 - 9)
	pay.Lsh(pay, bodyBits).Or(pay, body)
	bits := 4 + bodyBits
	buf := pay.FillBytes(make([]byte, (bits+7)/8))
	sum := crc32.ChecksumIEEE(buf) & 31
	pay.Lsh(pay, 5).Or(pay, big.NewInt(int64(sum)))
	ws := make([]string, n)
	for i := n - 1; i >= 0; i-- {
		ws[i] = wordlist4096.WordList[new(big.Int).And(pay, big.NewInt(4095)).Int64()]
		pay.Rsh(pay, 12)
	}
	return ws
}

// indepSeed reads a phrase's seed and offset (decrypting with pw when it is encrypted).
func indepSeed(ws []string, pw []byte) ([]byte, uint32) {
	x := new(big.Int)
	for _, w := range ws {
		i := wordIndex(w)
		if i < 0 {
			return make([]byte, 16), 0
		}
		x.Lsh(x, 12).Or(x, big.NewInt(int64(i)))
	}
	n := uint(len(ws) * 12)
	field := func(from, len uint) *big.Int {
		y := new(big.Int).Rsh(x, n-from-len)
		return y.And(y, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), len), big.NewInt(1)))
	}
	body := field(4, 128).FillBytes(make([]byte, 16))
	off := uint32(field(n-36, 31).Uint64())
	if len(ws) != 16 {
		return body, off
	}
	salt := new(big.Int).Lsh(field(132, 19), 31)
	salt.Or(salt, big.NewInt(int64(off)))
	k := argon2.IDKey(pw, salt.FillBytes(make([]byte, 7)), 4, 0x80000, 2, 17)
	blk, _ := aes.NewCipher(k[:16])
	out := make([]byte, 16)
	blk.Decrypt(out, body)
	return out, off
}

func derived(seed []byte, off uint32, info string) []byte {
	var salt [4]byte
	binary.BigEndian.PutUint32(salt[:], uint32(1672531200)+off)
	root := argon2.IDKey(seed, salt[:], 4, 0x80000, 2, 32)
	ms := make([]byte, 32)
	io.ReadFull(hkdf.Expand(sha256.New, root, []byte(info)), ms)
	return ms
}

func masterPrivate(seed []byte, off uint32) ed25519.PrivateKey {
	return ed25519.NewKeyFromSeed(derived(seed, off, "mnemonikey master key"))
}

// oddSecrets: does this key hold a secret or signature number with leading zero bits beyond the usual?
func oddSecrets(seed []byte, off uint32, idx uint16) bool {
	ix := string([]byte{byte(idx >> 8), byte(idx)})
	for _, info := range []string{"mnemonikey master key", "mnemonikey authentication subkey" + ix, "mnemonikey signing subkey" + ix} {
		if derived(seed, off, info)[0] == 0 {
			return true
		}
	}
	return false
}
func oddEncryption(seed []byte, off uint32, idx uint16) bool {
	b := derived(seed, off, "mnemonikey encryption subkey"+string([]byte{byte(idx >> 8), byte(idx)}))
	return b[0]&7 != 0 && b[31]&0xC0 == 0x80
}

// verifyBits are the five bits by which an encrypted phrase recognises its password.
func verifyBits(salt uint64, off uint32, pw []byte) int {
	x := salt<<31 | uint64(off&(1<<31-1))
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], x)
	return int(argon2.IDKey(pw, b[1:], 4, 0x80000, 2, 17)[16] & 31)
}

// keyNumbers are the secret and public numbers of the master key and the three subkeys at index 0.
func keyNumbers(seed []byte, off uint32) (out [4][2][]byte) {
	for i, info := range []string{"mnemonikey master key", "mnemonikey authentication subkey\x00\x00", "mnemonikey signing subkey\x00\x00"} {
		k := derived(seed, off, info)
		out[i] = [2][]byte{k, ed25519.NewKeyFromSeed(k)[32:]}
	}
	k := derived(seed, off, "mnemonikey encryption subkey\x00\x00")
	k[0] &= 248
	k[31] = k[31]&63 | 64
	pub, _ := curve25519.X25519(k, curve25519.Basepoint)
	out[3] = [2][]byte{k, pub}
	return
}
