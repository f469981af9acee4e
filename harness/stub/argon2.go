// Package argon2 is a stand-in for the real package: the same signatures, the same dependence of
// the output on every parameter, none of the cost.
package argon2

import (
	"crypto/sha256"
	"encoding/binary"
)

const Version = 0x13

func standIn(tag string, password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	be := func(n uint32) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], n); return b[:] }
	h := sha256.New()
	h.Write([]byte(tag))
	h.Write(be(time))
	h.Write(be(memory))
	h.Write(be(uint32(threads)))
	h.Write(be(keyLen))
	h.Write(be(uint32(len(password))))
	h.Write(password)
	h.Write(be(uint32(len(salt))))
	h.Write(salt)
	seed := h.Sum(nil)
	var out []byte
	for ctr := uint32(0); uint32(len(out)) < keyLen; ctr++ {
		d := sha256.Sum256(append(append([]byte{}, seed...), be(ctr)...))
		out = append(out, d[:]...)
	}
	return out[:keyLen]
}

func IDKey(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	return standIn("argon2id-stand-in", password, salt, time, memory, threads, keyLen)
}

func Key(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	return standIn("argon2i-stand-in", password, salt, time, memory, threads, keyLen)
}
