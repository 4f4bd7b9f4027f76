package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	mk "github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// newSeed builds a library seed from 16 bytes.
func newSeed(s Seed16) *mk.Seed {
	seed, err := mk.NewSeed(mk.EraLatest, new(big.Int).SetBytes(s[:]))
	if err != nil {
		panic(fmt.Sprintf("NewSeed refuses %x: %v", s[:], err))
	}
	return seed
}

func eqWords(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func phrase(w []string) string { return strings.Join(w, " ") }

// chunkReader delivers data in the given chunk sizes (repeating the last) and then err.
type chunkReader struct {
	data   []byte
	chunks []int
	err    error
	read   int
	early  bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := len(p)
	if len(r.chunks) > 0 {
		if r.chunks[0] < n {
			n = r.chunks[0]
		}
		if len(r.chunks) > 1 {
			r.chunks = r.chunks[1:]
		}
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	r.read += n
	if r.early && len(r.data) == 0 {
		return n, r.err // the error comes with the last bytes
	}
	return n, nil
}

var errSource = errors.New("random source failed")

// sameKeySets compares everything observable about two key sets.
func sameKeySets(a, b *mk.Mnemonikey) error {
	if !bytes.Equal(a.Fingerprint(), b.Fingerprint()) {
		return fmt.Errorf("master fingerprints differ: %x and %x", a.Fingerprint(), b.Fingerprint())
	}
	if x, y := fmt.Sprint(a.SubkeyTypes()), fmt.Sprint(b.SubkeyTypes()); x != y {
		return fmt.Errorf("subkey types differ: %v and %v", x, y)
	}
	for _, t := range ref.SubkeyKinds {
		if x, y := a.SubkeyFingerprint(mk.SubkeyType(t)), b.SubkeyFingerprint(mk.SubkeyType(t)); !bytes.Equal(x, y) {
			return fmt.Errorf("%s subkey fingerprints differ: %x and %x", t, x, y)
		}
	}
	if a.UserID() != b.UserID() {
		return fmt.Errorf("user IDs differ: %.80q and %.80q", a.UserID(), b.UserID())
	}
	if !a.CreatedAt().Equal(b.CreatedAt()) {
		return fmt.Errorf("creation times differ: %v and %v", a.CreatedAt(), b.CreatedAt())
	}
	if !a.Expiry().Equal(b.Expiry()) {
		return fmt.Errorf("expiry times differ: %v and %v", a.Expiry(), b.Expiry())
	}
	return sameExports(a, b)
}

func sameExports(a, b *mk.Mnemonikey) error {
	x, err := a.EncodePGP(nil)
	if err != nil {
		return fmt.Errorf("EncodePGP: %w", err)
	}
	y, err := b.EncodePGP(nil)
	if err != nil {
		return fmt.Errorf("EncodePGP: %w", err)
	}
	if !bytes.Equal(x, y) {
		return fmt.Errorf("exports differ (%d and %d bytes)", len(x), len(y))
	}
	for _, cert := range []bool{true, false} {
		x, err = a.EncodeSubkeysPGP(nil, cert)
		if err != nil {
			return fmt.Errorf("EncodeSubkeysPGP: %w", err)
		}
		y, err = b.EncodeSubkeysPGP(nil, cert)
		if err != nil {
			return fmt.Errorf("EncodeSubkeysPGP: %w", err)
		}
		if !bytes.Equal(x, y) {
			return fmt.Errorf("subkey exports (cert %v) differ (%d and %d bytes)", cert, len(x), len(y))
		}
	}
	return nil
}

func seedEq(s *mk.Seed, want Seed16) error {
	if s == nil {
		return fmt.Errorf("no seed")
	}
	if !bytes.Equal(s.Bytes(), want[:]) {
		return fmt.Errorf("seed is %x, want %x", s.Bytes(), want[:])
	}
	if s.Int().Cmp(new(big.Int).SetBytes(want[:])) != 0 {
		return fmt.Errorf("seed integer is %x, want %x", s.Int(), want[:])
	}
	if s.Era() != 0 {
		return fmt.Errorf("seed era is %d", s.Era())
	}
	return nil
}

// defectOf maps a decoding error to the defects it names.
func defectOf(err error) int {
	d := 0
	if errors.Is(err, mnemonic.ErrInvalidWord) {
		d |= ref.DefWord
	}
	if errors.Is(err, mk.ErrInvalidVersionNumber) {
		d |= ref.DefVersion
	}
	if errors.Is(err, mk.ErrInvalidWordCount) {
		d |= ref.DefCount
	}
	if errors.Is(err, mk.ErrInvalidChecksum) {
		d |= ref.DefChecksum
	}
	return d
}

func genChunks(t *rapid.T) []int {
	if pick(t, "chunkkind", 2, 3) == 0 {
		return nil
	}
	c := rapid.SliceOfN(rapid.IntRange(1, 20), 1, 8).Draw(t, "chunks")
	if useDict(t, "chunks") {
		c[rapid.IntRange(0, len(c)-1).Draw(t, "which")] = 1 + dictLen(t, "chunklit", 40)
	}
	if pick(t, "empty", 4, 1) == 1 { // reads that return nothing and no error, as io.Reader allows
		for i := rapid.IntRange(0, len(c)-1).Draw(t, "at"); i < len(c)-1; i += 2 {
			c[i] = 0
		}
	}
	return c
}

// source is a serialisable random source.
type source struct {
	Data   Hex   `json:"data"`
	Chunks []int `json:"chunks,omitempty"`
	EOF    bool  `json:"eof,omitempty"`
	Early  bool  `json:"early,omitempty"` // the error is returned together with the last bytes
}

func (s source) reader() *chunkReader {
	r := &chunkReader{data: append([]byte(nil), s.Data...), chunks: append([]int(nil), s.Chunks...), err: errSource}
	r.early = s.Early
	if s.EOF {
		r.err = io.EOF
	}
	return r
}

func genSource(t *rapid.T, n int) source {
	s := source{Chunks: genChunks(t), Early: pick(t, "early", 3, 1) == 1}
	switch pick(t, "srckind", 5, 2, 1, 1, 3) {
	case 4: // blocks with runs of zeros and ones
		for len(s.Data) < n {
			b := genSeed(t)
			s.Data = append(s.Data, b[:]...)
		}
		s.Data = s.Data[:n]
	case 0:
		s.Data = uniform(t, "src", n)
	case 1:
		s.Data = rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "srcbytes")
	case 2:
		s.Data = bytes.Repeat([]byte{0xff}, n)
	case 3:
		s.Data = make([]byte, n)
	}
	return s
}
