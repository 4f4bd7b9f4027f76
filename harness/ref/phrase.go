// Package ref is a reference model of mnemonikey written from the README and the OpenPGP
// specifications. It shares no code with the repository under test except the word list module
// and the Argon2 implementation.
package ref

import (
	"crypto/aes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"hash/crc32"
	"math/big"
	"strings"
	"unicode/utf8"

	"github.com/kklash/wordlist4096"
	"golang.org/x/crypto/argon2"
)

// EpochStart is 2023-01-01T00:00:00Z.
const EpochStart = 1672531200

// MaxOffset is the largest creation offset.
const MaxOffset = 1<<31 - 1

const (
	argonTime    = 4
	argonMemory  = 512 * 1024
	argonThreads = 2
)

// Words is a private copy of the word list.
var Words = append([]string(nil), wordlist4096.WordList[:]...)

// Index maps each list word to its index.
var Index = func() map[string]int {
	m := make(map[string]int, len(Words))
	for i, w := range Words {
		m[w] = i
	}
	return m
}()

// bitstr is a string of '0' and '1', most significant first.
type bitstr string

func num(v uint64, n int) bitstr {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = '0' + byte(v&1)
		v >>= 1
	}
	if v != 0 {
		panic("ref: value does not fit")
	}
	return bitstr(b)
}

func byteBits(p []byte) bitstr {
	var sb strings.Builder
	for _, b := range p {
		sb.WriteString(string(num(uint64(b), 8)))
	}
	return bitstr(sb.String())
}

// bytes interprets b as a big-endian number in the smallest whole number of bytes.
func (b bitstr) bytes() []byte {
	for len(b)%8 != 0 {
		b = "0" + b
	}
	out := make([]byte, len(b)/8)
	for i := range out {
		out[i] = byte(b[i*8 : i*8+8].uint())
	}
	return out
}

func (b bitstr) uint() uint64 {
	var v uint64
	for i := 0; i < len(b); i++ {
		v = v<<1 | uint64(b[i]-'0')
	}
	return v
}

func checksum(b bitstr) bitstr {
	return num(uint64(crc32.ChecksumIEEE(b.bytes())&31), 5)
}

func (b bitstr) indices() []int {
	if len(b)%12 != 0 {
		panic("ref: payload is not a whole number of words")
	}
	var out []int
	for i := 0; i < len(b); i += 12 {
		out = append(out, int(b[i:i+12].uint()))
	}
	return out
}

// ToWords maps indices to words.
func ToWords(idx []int) []string {
	out := make([]string, len(idx))
	for i, x := range idx {
		out[i] = Words[x]
	}
	return out
}

// SeedKey is the 17-byte phrase encryption key.
func SeedKey(password []byte, salt uint32, offset uint32) []byte {
	s := (num(uint64(salt), 19) + num(uint64(offset), 31)).bytes()
	return argon2.IDKey(password, s, argonTime, argonMemory, argonThreads, 17)
}

// EncryptSeed returns the AES encryption of the seed and the verification bits.
func EncryptSeed(seed [16]byte, password []byte, salt, offset uint32) (enc [16]byte, verify byte) {
	key := SeedKey(password, salt, offset)
	blk, err := aes.NewCipher(key[:16])
	if err != nil {
		panic(err)
	}
	blk.Encrypt(enc[:], seed[:])
	return enc, key[16] & 31
}

// DecryptSeed returns the decryption of enc and the verification bits of the password.
func DecryptSeed(enc [16]byte, password []byte, salt, offset uint32) (seed [16]byte, verify byte) {
	key := SeedKey(password, salt, offset)
	blk, err := aes.NewCipher(key[:16])
	if err != nil {
		panic(err)
	}
	blk.Decrypt(seed[:], enc[:])
	return seed, key[16] & 31
}

// PlainPhrase builds the version 0 phrase.
func PlainPhrase(seed [16]byte, offset uint32) []string {
	b := num(0, 4) + byteBits(seed[:]) + num(uint64(offset), 31)
	return ToWords((b + checksum(b)).indices())
}

// RawEncPhrase builds a version 1 phrase from its raw fields.
func RawEncPhrase(enc [16]byte, salt uint32, verify byte, offset uint32) []string {
	b := num(1, 4) + byteBits(enc[:]) + num(uint64(salt), 19) + num(uint64(verify), 5) + num(uint64(offset), 31)
	return ToWords((b + checksum(b)).indices())
}

// EncPhrase builds the version 1 phrase.
func EncPhrase(seed [16]byte, offset uint32, password []byte, salt uint32) []string {
	enc, v := EncryptSeed(seed, password, salt, offset)
	return RawEncPhrase(enc, salt, v, offset)
}

// RawPhrase builds a phrase of any version and word count with a right checksum from index digits;
// the last 5 bits of the last index are replaced by the checksum.
func RawPhrase(idx []int) []string {
	var b bitstr
	for _, x := range idx {
		b += num(uint64(x), 12)
	}
	b = b[:len(b)-5]
	return ToWords((b + checksum(b)).indices())
}

// Phrase is a decoded phrase.
type Phrase struct {
	Version   int
	Encrypted bool
	Entropy   [16]byte // seed, or encrypted seed
	Salt      uint32
	Verify    byte
	Offset    uint32
}

// Defects found by Classify.
const (
	DefWord = 1 << iota
	DefVersion
	DefCount
	DefChecksum
	// DefUnsure marks inputs on which the property does not judge (words equal to list words
	// only under exotic Unicode case folding).
	DefUnsure
)

// Size returns the word count of a phrase version.
func Size(version int) int {
	switch version {
	case 0:
		return 14
	case 1:
		return 16
	}
	return 0
}

// Classify decides acceptance of a word list and lists the defects that are present.
func Classify(words []string) (Phrase, int) {
	var p Phrase
	defects := 0
	idx := make([]int, len(words))
	allKnown := true
	for i, w := range words {
		x, ok := lookup(w)
		if !ok {
			allKnown = false
			defects |= DefWord
			if exotic(w) {
				defects |= DefUnsure
			}
		}
		idx[i] = x
	}
	if len(words) == 0 {
		return p, defects | DefCount
	}
	if _, ok := lookup(words[0]); ok {
		p.Version = idx[0] >> 8
		if p.Version > 1 {
			defects |= DefVersion
		} else if len(words) != Size(p.Version) {
			defects |= DefCount
		}
	} else if len(words) != 14 && len(words) != 16 {
		// with an unknown first word the wanted count is unknown; these are wrong for every version
		defects |= DefCount
	}
	if allKnown {
		var b bitstr
		for _, x := range idx {
			b += num(uint64(x), 12)
		}
		body, sum := b[:len(b)-5], b[len(b)-5:]
		if checksum(body) != sum {
			defects |= DefChecksum
		}
		if defects == 0 {
			body = body[4:]
			p.Encrypted = p.Version == 1
			copy(p.Entropy[:], body[:128].bytes())
			body = body[128:]
			if p.Encrypted {
				p.Salt = uint32(body[:19].uint())
				p.Verify = byte(body[19:24].uint())
				body = body[24:]
			}
			p.Offset = uint32(body.uint())
		}
	}
	return p, defects
}

func lookup(w string) (int, bool) {
	for i := 0; i < len(w); i++ {
		if w[i] >= utf8.RuneSelf {
			return 0, false
		}
	}
	b := []byte(w)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	x, ok := Index[string(b)]
	return x, ok
}

// exotic reports whether w is a list word under full Unicode case mapping but not under ASCII.
func exotic(w string) bool {
	if _, ok := Index[strings.ToLower(w)]; ok {
		return true
	}
	_, ok := Index[strings.ToLower(strings.ToUpper(w))]
	return ok
}

// RootKey is the Argon2id root key of a seed.
func RootKey(seed [16]byte, offset uint32) []byte {
	var salt [4]byte
	binary.BigEndian.PutUint32(salt[:], uint32(EpochStart+uint64(offset)))
	return argon2.IDKey(seed[:], salt[:], argonTime, argonMemory, argonThreads, 32)
}

// expand32 is HKDF-Expand (RFC 5869) with SHA-256 for one 32-byte block.
func expand32(root []byte, info []byte) []byte {
	m := hmac.New(sha256.New, root)
	m.Write(info)
	m.Write([]byte{1})
	return m.Sum(nil)
}

// Digits expands v into ceil(size/12) base-4096 digits, most significant first.
func Digits(v *big.Int, size uint) []uint16 {
	n := int((size + 11) / 12)
	out := make([]uint16, n)
	base := big.NewInt(4096)
	q := new(big.Int).Set(v)
	for i := n - 1; i >= 0; i-- {
		r := new(big.Int)
		q.DivMod(q, base, r)
		out[i] = uint16(r.Uint64())
	}
	return out
}

// FromDigits is the inverse of Digits.
func FromDigits(d []uint16) *big.Int {
	v := new(big.Int)
	for _, x := range d {
		v.Mul(v, big.NewInt(4096))
		v.Add(v, big.NewInt(int64(x)))
	}
	return v
}
