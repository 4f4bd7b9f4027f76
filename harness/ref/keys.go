package ref

import (
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/sha1"
	"encoding/binary"
	"math/bits"
)

// Kinds of keys, in the vocabulary of the library.
const (
	Master         = "master"
	Encryption     = "encryption"
	Authentication = "authentication"
	Signing        = "signing"
)

// SubkeyKinds are the three kinds of subkeys.
var SubkeyKinds = []string{Encryption, Authentication, Signing}

// Key is one derived key.
type Key struct {
	Kind    string
	Seed    []byte // 32 bytes from HKDF
	Private []byte // big-endian private integer as OpenPGP stores it, 32 bytes, maybe leading zeros
	Public  []byte // 32 bytes, native encoding
	Body    []byte // public key packet body
	FP      []byte // version 4 fingerprint
	Sign    ed25519.PrivateKey
}

var oidEd = []byte{0x2B, 0x06, 0x01, 0x04, 0x01, 0xDA, 0x47, 0x0F, 0x01}
var oidCv = []byte{0x2B, 0x06, 0x01, 0x04, 0x01, 0x97, 0x55, 0x01, 0x05, 0x01}

// MPI is the canonical OpenPGP encoding of a big-endian integer.
func MPI(p []byte) []byte {
	for len(p) > 0 && p[0] == 0 {
		p = p[1:]
	}
	n := 0
	if len(p) > 0 {
		n = (len(p)-1)*8 + bits.Len8(p[0])
	}
	return append([]byte{byte(n >> 8), byte(n)}, p...)
}

// Fingerprint is the version 4 fingerprint of a public key packet body.
func Fingerprint(body []byte) []byte {
	h := sha1.New()
	h.Write([]byte{0x99, byte(len(body) >> 8), byte(len(body))})
	h.Write(body)
	return h.Sum(nil)
}

// Derive derives one key from the root key.
func Derive(root []byte, kind string, index uint16, offset uint32) Key {
	var info []byte
	if kind == Master {
		info = []byte("mnemonikey master key")
	} else {
		info = []byte("mnemonikey " + kind + " subkey")
		info = append(info, byte(index>>8), byte(index))
	}
	k := Key{Kind: kind, Seed: expand32(root, info)}
	k.fill(uint32(EpochStart+uint64(offset)), []byte{8, 7})
	return k
}

// FromSeed is the key of a kind made from 32 bytes; kdf are hash and cipher of an encryption key.
func FromSeed(seed []byte, kind string, created uint32, kdf []byte) Key {
	k := Key{Kind: kind, Seed: append([]byte(nil), seed...)}
	k.fill(created, kdf)
	return k
}

func (k *Key) fill(unix uint32, kdf []byte) {
	kind := k.Kind
	created := make([]byte, 4)
	binary.BigEndian.PutUint32(created, unix)
	k.Body = append([]byte{4}, created...)
	if kind == Encryption {
		priv, err := ecdh.X25519().NewPrivateKey(k.Seed)
		if err != nil {
			panic(err)
		}
		k.Public = priv.PublicKey().Bytes()
		le := append([]byte(nil), k.Seed...)
		le[0] &= 0xF8
		le[31] = le[31]&0x7F | 0x40
		for i := range le {
			k.Private = append(k.Private, le[31-i])
		}
		k.Body = append(k.Body, 18, byte(len(oidCv)))
		k.Body = append(k.Body, oidCv...)
		k.Body = append(k.Body, MPI(append([]byte{0x40}, k.Public...))...)
		k.Body = append(k.Body, 3, 1, kdf[0], kdf[1])
	} else {
		k.Sign = ed25519.NewKeyFromSeed(k.Seed)
		k.Public = k.Sign.Public().(ed25519.PublicKey)
		k.Private = k.Seed
		k.Body = append(k.Body, 22, byte(len(oidEd)))
		k.Body = append(k.Body, oidEd...)
		k.Body = append(k.Body, MPI(append([]byte{0x40}, k.Public...))...)
	}
	k.FP = Fingerprint(k.Body)
}

// SubSeed is the HKDF output of a subkey.
func SubSeed(root []byte, kind string, index uint16) []byte {
	info := []byte("mnemonikey " + kind + " subkey")
	return expand32(root, append(info, byte(index>>8), byte(index)))
}
