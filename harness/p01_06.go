package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"
	"time"

	mk "github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

const fastNote = "Argon2 is replaced, for the code and the oracle alike, by a reduced-memory variant that still hashes every parameter"

// ---- C01

type c01 struct {
	Key  KeyCase `json:"key"`
	Case caseMut `json:"case"`
	PW   BS      `json:"ignored_password"`
}

func checkC01(r *Rec, c c01) error {
	k := c.Key
	m, err := k.Build()
	if err != nil {
		return err
	}
	words, err := m.EncodeMnemonicPlaintext()
	if err != nil {
		return fmt.Errorf("EncodeMnemonicPlaintext: %w", err)
	}
	if again, err := m.EncodeMnemonicPlaintext(); err != nil || !eqWords(words, again) {
		return fmt.Errorf("second phrase differs: %v, then %v (%v)", words, again, err)
	}
	direct, err := mk.EncodeMnemonicPlaintext(newSeed(k.Seed), k.At.Offset)
	if err != nil || !eqWords(words, direct) {
		return fmt.Errorf("EncodeMnemonicPlaintext(seed, offset) = %v, %v; key set gives %v", direct, err, words)
	}
	in := c.Case.apply(words)
	dm, err := mk.DecodeMnemonic(in)
	if err != nil {
		return fmt.Errorf("phrase %q does not decode: %w", phrase(in), err)
	}
	s, err := dm.Seed()
	if err != nil {
		return fmt.Errorf("Seed: %w", err)
	}
	if err := seedEq(s, k.Seed); err != nil {
		return err
	}
	if !dm.Creation().Equal(m.CreatedAt()) || dm.Creation().Unix() != ref.EpochStart+int64(k.At.Offset) {
		return fmt.Errorf("phrase carries creation %v, key set %v, given %v", dm.Creation(), m.CreatedAt(), k.At.Time())
	}
	m2, err := mk.RecoverPlaintext(in, k.Opts())
	if err != nil {
		return fmt.Errorf("RecoverPlaintext: %w", err)
	}
	if err := sameKeySets(m, m2); err != nil {
		return fmt.Errorf("recovered key set: %w", err)
	}
	if w2, err := m2.EncodeMnemonicPlaintext(); err != nil || !eqWords(words, w2) {
		return fmt.Errorf("re-exported phrase %v (%v), want %v", w2, err, words)
	}
	m3, err := mk.RecoverEncrypted(in, []byte(c.PW), k.Opts())
	if err != nil {
		return fmt.Errorf("RecoverEncrypted of a plaintext phrase: %w", err)
	}
	if err := sameKeySets(m, m3); err != nil {
		return fmt.Errorf("plaintext phrase via RecoverEncrypted: %w", err)
	}
	if k.Seed[0] == 0 {
		r.Label("leading-zero-seed")
	}
	if k.At.Offset == 0 || k.At.Offset == ref.MaxOffset {
		r.Label("extreme-time")
	}
	if c.Case.Mode != "" {
		r.Label("case-changed")
	}
	return nil
}

// ---- C02

type c02enc struct {
	Seed   Seed16  `json:"seed"`
	Offset uint32  `json:"offset"`
	PW     BS      `json:"password"`
	Src    source  `json:"source"`
	Want   *Seed16 `json:"wanted_ciphertext,omitempty"` // replaces the seed
}

func checkC02Encode(r *Rec, c c02enc) error {
	c.Seed = sealedAs(c.Want, c.Seed, c.Offset, c.PW, c.Src)
	want := ref.PlainPhrase(c.Seed, c.Offset)
	got, err := mk.EncodeMnemonicPlaintext(newSeed(c.Seed), c.Offset)
	if err != nil {
		return fmt.Errorf("EncodeMnemonicPlaintext: %w", err)
	}
	if !eqWords(got, want) {
		return fmt.Errorf("plaintext phrase\n got %q\nwant %q", phrase(got), phrase(want))
	}
	enc, err := mk.EncodeMnemonicEncrypted(newSeed(c.Seed), c.Offset, []byte(c.PW), c.Src.reader())
	if err != nil {
		return fmt.Errorf("EncodeMnemonicEncrypted: %w", err)
	}
	if err := checkEncPhrase(enc, c.Seed, c.Offset, []byte(c.PW)); err != nil {
		return err
	}
	// the methods of a key set
	m, err := mk.New(newSeed(c.Seed), time.Unix(ref.EpochStart+int64(c.Offset), 0), nil)
	if err != nil {
		return fmt.Errorf("New: %w", err)
	}
	if got, err = m.EncodeMnemonicPlaintext(); err != nil || !eqWords(got, want) {
		return fmt.Errorf("plaintext phrase of the key set\n got %q (%v)\nwant %q", phrase(got), err, phrase(want))
	}
	if enc, err = m.EncodeMnemonicEncrypted([]byte(c.PW), c.Src.reader()); err != nil {
		return fmt.Errorf("EncodeMnemonicEncrypted of the key set: %w", err)
	}
	return checkEncPhrase(enc, c.Seed, c.Offset, []byte(c.PW))
}

func checkEncPhrase(enc []string, seed Seed16, off uint32, pw []byte) error {
	p, defects := ref.Classify(enc)
	for _, w := range enc {
		if w != strings.ToLower(w) {
			return fmt.Errorf("word %q is not lower case", w)
		}
	}
	if defects != 0 || !p.Encrypted {
		return fmt.Errorf("encrypted phrase %q is not a valid version 1 phrase (defects %b)", phrase(enc), defects)
	}
	want := ref.EncPhrase(seed, off, pw, p.Salt)
	if !eqWords(enc, want) {
		return fmt.Errorf("encrypted phrase\n got %q\nwant %q", phrase(enc), phrase(want))
	}
	return nil
}

type c02dec struct {
	Seed   Seed16  `json:"seed"`
	Offset uint32  `json:"offset"`
	Enc    bool    `json:"encrypted"`
	PW     BS      `json:"password,omitempty"`
	Salt   uint32  `json:"salt,omitempty"`
	Case   caseMut `json:"case"`
}

func genSalt(t *rapid.T) uint32 {
	if useDict(t, "salt") {
		return uint32(dictNum(t, "saltlit", 1<<19-1))
	}
	switch pick(t, "saltkind", 3, 2) {
	case 0:
		return uint32(uniformN(t, "salt", 1<<19))
	}
	return rapid.SampledFrom([]uint32{0, 1, 0x7ffff, 0x40000, 0x3ffff, 0xff, 0x100, 0xffff, 0x10000}).Draw(t, "saltedge")
}

// genSealed replaces a seed, at times, by one whose encrypted form is structured.
func genSealed(t *rapid.T, seed Seed16, pw BS, salt, offset uint32) Seed16 {
	if pick(t, "sealed", 3, 1) == 1 {
		s, _ := ref.DecryptSeed(genSeed(t), []byte(pw), salt, offset)
		return s
	}
	return seed
}

// genWant draws a wanted encrypted form, at times.
func genWant(t *rapid.T) *Seed16 {
	if pick(t, "want", 2, 1) == 1 {
		s := genSeed(t)
		return &s
	}
	return nil
}

// sealedAs returns the seed that a source of randomness and a password encrypt to a wanted form.
func sealedAs(want *Seed16, seed Seed16, offset uint32, pw BS, src source) Seed16 {
	if want == nil {
		return seed
	}
	words, err := mk.EncodeMnemonicEncrypted(newSeed(seed), offset, []byte(pw), src.reader())
	if err != nil {
		return seed // the check itself complains
	}
	p, def := ref.Classify(words)
	if def != 0 {
		return seed
	}
	s, _ := ref.DecryptSeed(*want, []byte(pw), p.Salt, offset)
	return s
}

func checkC02Decode(r *Rec, c c02dec) error {
	var words []string
	ver := 0
	if c.Enc {
		words = ref.EncPhrase(c.Seed, c.Offset, []byte(c.PW), c.Salt)
		ver = 1
	} else {
		words = ref.PlainPhrase(c.Seed, c.Offset)
	}
	words = c.Case.apply(words)
	dm, err := mk.DecodeMnemonic(words)
	if err != nil {
		return fmt.Errorf("%q does not decode: %w", phrase(words), err)
	}
	v, err := mk.ParseMnemonicVersion(words[0])
	if err != nil || int(v) != ver || v.MnemonicSize() != len(words) || v.Encrypted() != c.Enc || v.Era() != 0 {
		return fmt.Errorf("first word tells version %d, size %d, encrypted %v, era %d (%v)", v, v.MnemonicSize(), v.Encrypted(), v.Era(), err)
	}
	if int(dm.Version) != ver || dm.Encrypted() != c.Enc {
		return fmt.Errorf("version %d encrypted %v, want %d", dm.Version, dm.Encrypted(), ver)
	}
	if dm.CreationOffset() != c.Offset {
		return fmt.Errorf("creation offset %d, want %d", dm.CreationOffset(), c.Offset)
	}
	if dm.Creation().Unix() != ref.EpochStart+int64(c.Offset) || dm.Creation().Nanosecond() != 0 {
		return fmt.Errorf("creation time %v for offset %d", dm.Creation(), c.Offset)
	}
	s, err := dm.DecryptSeed([]byte(c.PW))
	if err != nil {
		return fmt.Errorf("DecryptSeed: %w", err)
	}
	if err := seedEq(s, c.Seed); err != nil {
		return err
	}
	if !c.Enc {
		s, err := dm.Seed()
		if err != nil {
			return fmt.Errorf("Seed: %w", err)
		}
		return seedEq(s, c.Seed)
	}
	return nil
}

func checkFirstWord(r *Rec, c struct{ Word BS }) error {
	_, known := ref.Index[strings.ToLower(string(c.Word))]
	v, err := mk.ParseMnemonicVersion(string(c.Word))
	if !known {
		if !errors.Is(err, mnemonic.ErrInvalidWord) {
			return fmt.Errorf("unknown word %q: error %v", c.Word, err)
		}
		return nil
	}
	want := ref.Index[strings.ToLower(string(c.Word))] >> 8
	if want > 1 {
		if !errors.Is(err, mk.ErrInvalidVersionNumber) {
			return fmt.Errorf("word %q of version %d: %d, error %v", c.Word, want, v, err)
		}
		return nil
	}
	if err != nil || int(v) != want || v.MnemonicSize() != ref.Size(want) || v.Encrypted() != (want == 1) || v.Era() != 0 {
		return fmt.Errorf("word %q: version %d size %d encrypted %v era %d error %v", c.Word, v, v.MnemonicSize(), v.Encrypted(), v.Era(), err)
	}
	return nil
}

// ---- C03

type c03 struct {
	Key  KeyCase `json:"key"`
	PW   BS      `json:"password"`
	Src  source  `json:"source"`
	Case caseMut `json:"case"`
	Want *Seed16 `json:"wanted_ciphertext,omitempty"` // replaces the seed
}

func checkC03(r *Rec, c c03) error {
	c.Key.Seed = sealedAs(c.Want, c.Key.Seed, c.Key.At.Offset, c.PW, c.Src)
	m, err := c.Key.Build()
	if err != nil {
		return err
	}
	words, err := m.EncodeMnemonicEncrypted([]byte(c.PW), c.Src.reader())
	if err != nil {
		return fmt.Errorf("EncodeMnemonicEncrypted: %w", err)
	}
	if err := opens(words, c.PW, c.Key, c.Case, m); err != nil {
		return err
	}
	if len(c.PW) > 64 {
		r.Label("long-password")
	}
	return nil
}

func opens(words []string, pw BS, k KeyCase, cm caseMut, m *mk.Mnemonikey) error {
	words = cm.apply(words)
	dm, err := mk.DecodeMnemonic(words)
	if err != nil {
		return fmt.Errorf("%q does not decode: %w", phrase(words), err)
	}
	if pw != "" && !dm.Encrypted() || pw == "" && dm.Encrypted() {
		return fmt.Errorf("phrase encrypted: %v", dm.Encrypted())
	}
	for i := 0; i < 2; i++ {
		s, err := dm.DecryptSeed([]byte(pw))
		if err != nil {
			return fmt.Errorf("the right password is refused: %w", err)
		}
		if err := seedEq(s, k.Seed); err != nil {
			return err
		}
	}
	if dm.CreationOffset() != k.At.Offset || dm.Creation().Unix() != ref.EpochStart+int64(k.At.Offset) {
		return fmt.Errorf("creation offset %d (%v), want %d", dm.CreationOffset(), dm.Creation(), k.At.Offset)
	}
	m2, err := mk.RecoverEncrypted(words, []byte(pw), k.Opts())
	if err != nil {
		return fmt.Errorf("RecoverEncrypted: %w", err)
	}
	if err := sameKeySets(m, m2); err != nil {
		return fmt.Errorf("recovered key set: %w", err)
	}
	return nil
}

type c03open struct {
	Key   KeyCase  `json:"key"`
	PW    BS       `json:"password"`
	Words []string `json:"words,omitempty"`
}

type c03proc struct {
	Phrases []c03open `json:"phrases"`
	Src     source    `json:"source"`
	Env     []string  `json:"env"`
	CPU     bool      `json:"one_cpu,omitempty"`
}

// phrases made here open elsewhere
func checkC03Proc(r *Rec, c c03proc) error {
	rd := c.Src.reader()
	ps := append([]c03open{}, c.Phrases...)
	for i, p := range ps {
		m, err := p.Key.Build()
		if err != nil {
			return err
		}
		if ps[i].Words, err = m.EncodeMnemonicEncrypted([]byte(p.PW), rd); err != nil {
			return fmt.Errorf("EncodeMnemonicEncrypted: %w", err)
		}
	}
	_, err := otherProcess(r, "open", ps, c.Env, c.CPU)
	return err
}

type c03chain struct {
	Key   KeyCase `json:"key"`
	Steps []BS    `json:"passwords"` // "" means plaintext
	Src   source  `json:"source"`
}

func checkC03Chain(r *Rec, c c03chain) error {
	m, err := c.Key.Build()
	if err != nil {
		return err
	}
	rd := c.Src.reader()
	words, err := m.EncodeMnemonicPlaintext()
	if err != nil {
		return err
	}
	type link struct {
		words []string
		pw    BS
	}
	chain := []link{{words, ""}}
	for _, pw := range c.Steps {
		cur := chain[len(chain)-1]
		dm, err := mk.DecodeMnemonic(cur.words)
		if err != nil {
			return fmt.Errorf("step %d: %q does not decode: %w", len(chain), phrase(cur.words), err)
		}
		s, err := dm.DecryptSeed([]byte(cur.pw))
		if err != nil {
			return fmt.Errorf("step %d: the right password is refused: %w", len(chain), err)
		}
		var next []string
		if pw == "" {
			next, err = mk.EncodeMnemonicPlaintext(s, dm.CreationOffset())
		} else {
			next, err = mk.EncodeMnemonicEncrypted(s, dm.CreationOffset(), []byte(pw), rd)
		}
		if err != nil {
			return fmt.Errorf("step %d: encode: %w", len(chain), err)
		}
		chain = append(chain, link{next, pw})
	}
	for i, l := range chain {
		if err := opens(l.words, l.pw, c.Key, caseMut{}, m); err != nil {
			return fmt.Errorf("phrase %d of the chain: %w", i, err)
		}
	}
	return nil
}

// ---- C04

type c04 struct {
	Seed    Seed16 `json:"seed"`
	Offset  uint32 `json:"offset"`
	Salt    uint32 `json:"salt"`
	PW      BS     `json:"password"`
	Wrong   BS     `json:"wrong"`
	Collide bool   `json:"search_collision"`
	Tries   int    `json:"tries,omitempty"` // more wrong attempts in a row
}

func checkC04(r *Rec, c c04) error {
	words := ref.EncPhrase(c.Seed, c.Offset, []byte(c.PW), c.Salt)
	enc, verify := ref.EncryptSeed(c.Seed, []byte(c.PW), c.Salt, c.Offset)
	wrong := []byte(c.Wrong)
	wseed, wverify := ref.DecryptSeed(enc, wrong, c.Salt, c.Offset)
	for i := 0; c.Collide && wverify != verify && i < 1000; i++ {
		wrong = append([]byte(c.Wrong), []byte(fmt.Sprint(i))...)
		wseed, wverify = ref.DecryptSeed(enc, wrong, c.Salt, c.Offset)
	}
	if BS(wrong) == c.PW {
		r.Trivial()
		return nil
	}
	dm, err := mk.DecodeMnemonic(words)
	if err != nil {
		return fmt.Errorf("%q does not decode: %w", phrase(words), err)
	}
	if s, err := dm.Seed(); err == nil || s != nil || !errors.Is(err, mk.ErrMnemonicDecryption) {
		return fmt.Errorf("Seed() of an encrypted phrase: %v, %v", s != nil, err)
	}
	if m, err := mk.RecoverPlaintext(words, nil); err == nil || m != nil || !errors.Is(err, mk.ErrMnemonicDecryption) {
		return fmt.Errorf("RecoverPlaintext of an encrypted phrase: %v, %v", m != nil, err)
	}
	s, err := dm.DecryptSeed(wrong)
	m, err2 := mk.RecoverEncrypted(words, wrong, nil)
	if wverify != verify {
		r.Label("detected")
		if err == nil || s != nil || !errors.Is(err, mk.ErrMnemonicDecryption) {
			return fmt.Errorf("wrong password (verification bits %05b, phrase has %05b): seed returned %v, error %v", wverify, verify, s != nil, err)
		}
		if err2 == nil || m != nil || !errors.Is(err2, mk.ErrMnemonicDecryption) {
			return fmt.Errorf("RecoverEncrypted with a wrong password: key %v, error %v", m != nil, err2)
		}
		for i := 0; i < c.Tries; i++ {
			if s, err := dm.DecryptSeed(wrong); err == nil || s != nil || !errors.Is(err, mk.ErrMnemonicDecryption) {
				return fmt.Errorf("wrong password at attempt %d: seed returned %v, error %v", i+2, s != nil, err)
			}
		}
		// the phrase still opens after a failed attempt, and opening it opens it to nobody else
		for i := 0; i < 2; i++ {
			s, err = dm.DecryptSeed([]byte(c.PW))
			if err != nil {
				return fmt.Errorf("right password refused after a wrong one: %w", err)
			}
			if err := seedEq(s, c.Seed); err != nil {
				return err
			}
			if s, err = dm.DecryptSeed(wrong); err == nil || s != nil || !errors.Is(err, mk.ErrMnemonicDecryption) {
				return fmt.Errorf("wrong password after the right one: seed returned %v, error %v", s != nil, err)
			}
			again, err := mk.DecodeMnemonic(words)
			if err != nil {
				return fmt.Errorf("%q does not decode again: %w", phrase(words), err)
			}
			if s, err := again.Seed(); err == nil || s != nil {
				return fmt.Errorf("the phrase was opened once, and its seed is now there without a password")
			}
			if s, err := again.DecryptSeed(wrong); err == nil || s != nil {
				return fmt.Errorf("the phrase was opened once, and now opens with a wrong password")
			}
			if m, err := mk.RecoverPlaintext(words, nil); err == nil || m != nil {
				return fmt.Errorf("the phrase was opened once, and is now recovered without a password")
			}
		}
		return nil
	}
	r.Label("collision")
	if err != nil || err2 != nil {
		return fmt.Errorf("colliding password: errors %v, %v", err, err2)
	}
	if err := seedEq(s, wseed); err != nil {
		return fmt.Errorf("colliding password: %w", err)
	}
	if wseed == c.Seed {
		return fmt.Errorf("colliding password yields the true seed")
	}
	want := ref.Derive(ref.RootKey(wseed, c.Offset), ref.Master, 0, c.Offset)
	if !bytes.Equal(m.Fingerprint(), want.FP) {
		return fmt.Errorf("colliding password: key %x, want %x", m.Fingerprint(), want.FP)
	}
	if s, err = dm.DecryptSeed([]byte(c.PW)); err != nil {
		return fmt.Errorf("right password refused after a colliding one: %w", err)
	} else if err := seedEq(s, c.Seed); err != nil {
		return err
	}
	if s, err = dm.DecryptSeed(wrong); err != nil {
		return fmt.Errorf("colliding password after the right one: %w", err)
	} else if err := seedEq(s, wseed); err != nil {
		return fmt.Errorf("colliding password after the right one: %w", err)
	}
	return nil
}

type c04src struct {
	Seed   Seed16 `json:"seed"`
	Offset uint32 `json:"offset"`
	PW     BS     `json:"password"`
	Src    source `json:"source"` // fewer than 19 bits
}

func checkC04Fail(r *Rec, c c04src) error {
	m, err := mk.New(newSeed(c.Seed), time.Unix(ref.EpochStart+int64(c.Offset), 0), nil)
	if err != nil {
		return err
	}
	for i := 0; i < 2; i++ {
		var w []string
		if i == 0 {
			w, err = mk.EncodeMnemonicEncrypted(newSeed(c.Seed), c.Offset, []byte(c.PW), c.Src.reader())
		} else {
			w, err = m.EncodeMnemonicEncrypted([]byte(c.PW), c.Src.reader())
		}
		if err == nil || w != nil {
			return fmt.Errorf("a source with %d bytes gives phrase %q, error %v", len(c.Src.Data), phrase(w), err)
		}
	}
	for _, empty := range [][]byte{nil, {}} {
		good := source{Data: bytes.Repeat([]byte{0x5a}, 64)}
		w, err := mk.EncodeMnemonicEncrypted(newSeed(c.Seed), c.Offset, empty, good.reader())
		if err == nil || w != nil {
			return fmt.Errorf("empty password accepted: %q", phrase(w))
		}
		w, err = m.EncodeMnemonicEncrypted(empty, good.reader())
		if err == nil || w != nil {
			return fmt.Errorf("empty password accepted by the key set: %q", phrase(w))
		}
	}
	return nil
}

type c04draw struct {
	Seed   Seed16 `json:"seed"`
	Offset uint32 `json:"offset"`
	PW     BS     `json:"password"`
	Stream uint64 `json:"stream"`
}

// every value of every 8 adjacent bits of the salt is drawn about equally often
func checkC04Draw(r *Rec, c c04draw) error {
	const n = 8192
	seed := newSeed(c.Seed)
	rd := &chunkReader{data: expandBytes(64*n, "salt", c.Stream), err: errSource}
	var count [12][256]int
	for i := 0; i < n; i++ {
		w, err := mk.EncodeMnemonicEncrypted(seed, c.Offset, []byte(c.PW), rd)
		if err != nil {
			return fmt.Errorf("EncodeMnemonicEncrypted: %w", err)
		}
		p, d := ref.Classify(w)
		if d != 0 {
			return fmt.Errorf("invalid phrase %q", phrase(w))
		}
		for j := range count {
			count[j][p.Salt>>j&255]++
		}
	}
	for j := range count {
		for v, k := range count[j] {
			if k == 0 || k > 110 { // 32 expected
				return fmt.Errorf("bits %d to %d of the salt are %08b in %d of %d phrases, 32 expected", j, j+7, v, k, n)
			}
		}
	}
	// a source of zeros gives zeros, one of ones gives ones
	for b, want := range map[byte]uint32{0: 0, 0xff: 1<<19 - 1} {
		w, err := mk.EncodeMnemonicEncrypted(seed, c.Offset, []byte(c.PW), bytes.NewReader(bytes.Repeat([]byte{b}, 64)))
		if err != nil {
			return fmt.Errorf("EncodeMnemonicEncrypted: %w", err)
		}
		if p, _ := ref.Classify(w); p.Salt != want {
			return fmt.Errorf("a source of bytes %#x gives salt %019b", b, p.Salt)
		}
	}
	return nil
}

type c04salt struct {
	Seed   Seed16 `json:"seed"`
	Offset uint32 `json:"offset"`
	PW     BS     `json:"password"`
	Stream uint64 `json:"stream"`
	Chunks []int  `json:"chunks,omitempty"`
}

func checkC04Salt(r *Rec, c c04salt) error {
	const n = 1024
	mkReader := func() *chunkReader {
		return &chunkReader{data: expandBytes(64*n, "salt", c.Stream), chunks: append([]int(nil), c.Chunks...), err: errSource}
	}
	rd, rd2 := mkReader(), mkReader()
	var salts []uint32
	seed := newSeed(c.Seed)
	for i := 0; i < n; i++ {
		w, err := mk.EncodeMnemonicEncrypted(seed, c.Offset, []byte(c.PW), rd)
		if err != nil {
			return fmt.Errorf("EncodeMnemonicEncrypted: %w", err)
		}
		if i < 16 {
			w2, err := mk.EncodeMnemonicEncrypted(seed, c.Offset, []byte(c.PW), rd2)
			if err != nil || !eqWords(w, w2) {
				return fmt.Errorf("the same source gives %q and %q (%v): the salt does not come from the source alone", phrase(w), phrase(w2), err)
			}
		}
		p, d := ref.Classify(w)
		if d != 0 {
			return fmt.Errorf("invalid phrase %q", phrase(w))
		}
		salts = append(salts, p.Salt)
	}
	if rd.read*8 < 19*n {
		return fmt.Errorf("%d salts took only %d bytes from the source", n, rd.read)
	}
	distinct := map[uint32]bool{}
	for _, s := range salts {
		distinct[s] = true
	}
	if len(distinct) < n-40 {
		return fmt.Errorf("only %d different salts in %d", len(distinct), n)
	}
	bound := 8 * math.Sqrt(n) / 2
	for i := 0; i < 19; i++ {
		for j := i; j < 19; j++ {
			ones := 0
			for _, s := range salts {
				b := s >> i & 1
				if j != i {
					b ^= s >> j & 1
				}
				ones += int(b)
			}
			if math.Abs(float64(ones)-n/2) > bound {
				return fmt.Errorf("salt bits %d and %d are not independent random bits: %d of %d", i, j, ones, n)
			}
		}
	}
	return nil
}

// ---- C05

type c05 struct {
	Words []BS `json:"words"`
}

func checkC05(r *Rec, c c05) error {
	words := make([]string, len(c.Words))
	for i, w := range c.Words {
		words[i] = string(w)
	}
	return judgeDecode(r, words)
}

func judgeDecode(r *Rec, words []string) error {
	p, defects := ref.Classify(words)
	if defects&ref.DefUnsure != 0 {
		r.Label("not-judged")
		r.Trivial()
		mk.DecodeMnemonic(words) // must not panic
		return nil
	}
	dm, err := mk.DecodeMnemonic(words)
	if defects == 0 {
		r.Label("valid")
		if err != nil {
			return fmt.Errorf("valid phrase %q refused: %w", phrase(words), err)
		}
		if int(dm.Version) != p.Version || dm.CreationOffset() != p.Offset || dm.Encrypted() != p.Encrypted {
			return fmt.Errorf("valid phrase %q decoded to version %d offset %d", phrase(words), dm.Version, dm.CreationOffset())
		}
		if !p.Encrypted {
			s, err := dm.Seed()
			if err != nil {
				return err
			}
			return seedEq(s, p.Entropy)
		}
		return nil
	}
	if err == nil || dm != nil {
		return fmt.Errorf("phrase %q accepted (defects %04b)", phrase(words), defects)
	}
	if defectOf(err)&defects == 0 {
		return fmt.Errorf("phrase %q: error %q names none of the defects %04b", phrase(words), err, defects)
	}
	for name, bit := range map[string]int{"bad-word": ref.DefWord, "bad-version": ref.DefVersion, "bad-count": ref.DefCount, "bad-checksum": ref.DefChecksum} {
		if defects == bit {
			r.Label(name + "-only")
		}
	}
	if m, err := mk.RecoverPlaintext(words, nil); err == nil || m != nil || defectOf(err)&defects == 0 {
		return fmt.Errorf("RecoverPlaintext of %q: key %v, error %v", phrase(words), m != nil, err)
	}
	if m, err := mk.RecoverEncrypted(words, []byte("x"), nil); err == nil || m != nil || defectOf(err)&defects == 0 {
		return fmt.Errorf("RecoverEncrypted of %q: key %v, error %v", phrase(words), m != nil, err)
	}
	return nil
}

var foreign = []string{"", " ", "abandonn", "zzzz", "abando", "zoom ", " zoom", "\tzoom", "zo om", "zoom\n", "zoom\x00", "12", "日本", "\xff", "ability ability", "the", "a", "-", "zoom,", "żoom"}

func genPhraseWords(t *rapid.T) []string {
	if pick(t, "phrase", 3, 2) == 0 {
		return ref.PlainPhrase(genSeed(t), genOffset(t))
	}
	var e [16]byte
	copy(e[:], uniform(t, "enc", 16))
	return ref.RawEncPhrase(e, genSalt(t), byte(uniformN(t, "ver", 32)), genOffset(t))
}

func genC05(t *rapid.T) c05 {
	var words []string
	switch pick(t, "base", 8, 3, 2) {
	case 0:
		words = genPhraseWords(t)
	case 1: // right checksum, any version and length
		n := rapid.SampledFrom([]int{14, 16, 14, 16, 14, 16, 1, 2, 12, 13, 15, 17, 18, 28, 32, 100}).Draw(t, "n")
		if useDict(t, "n") {
			n = 1 + dictLen(t, "nlit", 200)
		}
		idx := make([]int, n)
		for i := range idx {
			idx[i] = int(uniformN(t, "idx", 4096))
		}
		idx[0] = idx[0]&255 | rapid.IntRange(0, 15).Draw(t, "version")<<8
		words = ref.RawPhrase(idx)
	case 2:
		words = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(ref.Words), rapid.SampledFrom(ref.Words), rapid.SampledFrom(foreign), rapid.String()), 0, 20).Draw(t, "any")
	}
	words = append([]string{}, words...)
	n := []int{0, 1, 2, 3}[pick(t, "nmut", 2, 6, 2, 1)]
	for i := 0; i < n; i++ {
		switch pick(t, "mut", 5, 3, 2, 2, 2, 2, 2, 1, 2, 1, 1) {
		case 0: // substitute by a list word
			if len(words) > 0 {
				words[rapid.IntRange(0, len(words)-1).Draw(t, "pos")] = ref.Words[int(uniformN(t, "w", 4096))]
			}
		case 1: // swap two words
			if len(words) > 1 {
				a, b := rapid.IntRange(0, len(words)-1).Draw(t, "a"), rapid.IntRange(0, len(words)-1).Draw(t, "b")
				words[a], words[b] = words[b], words[a]
			}
		case 2: // delete
			if len(words) > 0 {
				p := rapid.IntRange(0, len(words)-1).Draw(t, "pos")
				words = append(words[:p:p], words[p+1:]...)
			}
		case 3: // insert
			p := rapid.IntRange(0, len(words)).Draw(t, "pos")
			w := ref.Words[int(uniformN(t, "w", 4096))]
			words = append(words[:p:p], append([]string{w}, words[p:]...)...)
		case 4: // foreign
			if len(words) > 0 {
				w := rapid.OneOf(rapid.SampledFrom(foreign), rapid.String()).Draw(t, "f")
				if useDict(t, "f") {
					w = dictStr(t, "flit")
				}
				words[rapid.IntRange(0, len(words)-1).Draw(t, "pos")] = w
			}
		case 5: // case
			words = genCaseMut(t).apply2(words)
		case 6: // damage one word slightly
			if len(words) > 0 {
				p := rapid.IntRange(0, len(words)-1).Draw(t, "pos")
				w := words[p]
				switch rapid.IntRange(0, 8).Draw(t, "dmg") {
				case 8: // a constant of the code attached
					w = rapid.SampledFrom([]string{w, ""}).Draw(t, "pre") + dictStr(t, "attlit") + rapid.SampledFrom([]string{w, ""}).Draw(t, "post")
				case 4: // punctuation, numbering
					w = rapid.SampledFrom([]string{w + ",", w + ".", "1." + w, "1:" + w, "\"" + w + "\"", w + ";", "-" + w, "#" + w}).Draw(t, "punct")
				case 5: // blanks around it
					w = rapid.SampledFrom([]string{w + " ", w + "\n", "\t" + w, w + "\r", "\u00a0" + w, w + "\x00"}).Draw(t, "blanks")
				case 6: // abbreviated
					if len(w) > 1 {
						w = w[:rapid.IntRange(1, len(w)-1).Draw(t, "abbr")]
					}
				case 7: // one letter changed or two exchanged
					if b := []byte(w); len(b) > 1 {
						k := rapid.IntRange(0, len(b)-2).Draw(t, "k")
						if rapid.Bool().Draw(t, "xchg") {
							b[k], b[k+1] = b[k+1], b[k]
						} else {
							b[k] = byte('a' + rapid.IntRange(0, 25).Draw(t, "letter"))
						}
						w = string(b)
					}
				case 0:
					w += "s"
				case 1:
					if len(w) > 0 {
						w = w[:len(w)-1]
					}
				case 2:
					w = " " + w
				case 3:
					w = w + w
				}
				words[p] = w
			}
		case 7: // double
			words = append(words, words...)
		case 8: // a word entered twice, or words of the phrase elsewhere
			if len(words) > 0 {
				p := rapid.IntRange(0, len(words)-1).Draw(t, "pos")
				if rapid.Bool().Draw(t, "ends") {
					p = rapid.SampledFrom([]int{0, len(words) - 1}).Draw(t, "end")
				}
				for k := rapid.IntRange(1, 2).Draw(t, "times"); k > 0; k-- {
					words = append(words[:p:p], append([]string{words[p]}, words[p:]...)...)
				}
			}
		case 9: // nothing, or blanks, in addition
			p := rapid.SampledFrom([]int{0, len(words), len(words) / 2}).Draw(t, "where")
			w := rapid.SampledFrom([]string{"", " ", "\t", "\n", "\r", "\u00a0", "\ufeff", "#", "and"}).Draw(t, "blank")
			words = append(words[:p:p], append([]string{w}, words[p:]...)...)
		case 10: // reversed or rotated
			if len(words) > 1 {
				if rapid.Bool().Draw(t, "reverse") {
					for a, b := 0, len(words)-1; a < b; a, b = a+1, b-1 {
						words[a], words[b] = words[b], words[a]
					}
				} else {
					k := rapid.IntRange(1, len(words)-1).Draw(t, "k")
					words = append(append([]string{}, words[k:]...), words[:k]...)
				}
			}
		}
	}
	out := c05{Words: []BS{}}
	for _, w := range words {
		out.Words = append(out.Words, BS(w))
	}
	return out
}

// apply2 tolerates any strings.
func (m caseMut) apply2(words []string) []string {
	out := make([]string, len(words))
	for i, w := range words {
		if w == "" {
			continue
		}
		out[i] = m.apply([]string{w})[0]
	}
	return out
}

type c05sub struct {
	Base []string `json:"base"`
	Pos  int      `json:"pos"`
}

func checkC05Sub(r *Rec, c c05sub) error {
	for w := range ref.Words {
		words := append([]string{}, c.Base...)
		words[c.Pos] = ref.Words[w]
		if err := judgeDecode(&Rec{}, words); err != nil {
			return err
		}
	}
	return nil
}

// ---- C06

func checkDerive(r *Rec, k KeyCase) error {
	m, err := k.Build()
	if err != nil {
		return err
	}
	want := k.Ref()
	return compareKeys(m, k, want)
}

func compareKeys(m *mk.Mnemonikey, k KeyCase, want map[string]ref.Key) error {
	if !bytes.Equal(m.Fingerprint(), want[ref.Master].FP) {
		return fmt.Errorf("master fingerprint %x, want %x", m.Fingerprint(), want[ref.Master].FP)
	}
	for _, kind := range k.Kinds() {
		if got := m.SubkeyFingerprint(mk.SubkeyType(kind)); !bytes.Equal(got, want[kind].FP) {
			return fmt.Errorf("%s subkey %d fingerprint %x, want %x", kind, k.index(kind), got, want[kind].FP)
		}
	}
	data, err := m.EncodePGP(nil)
	if err != nil {
		return fmt.Errorf("EncodePGP: %w", err)
	}
	e, err := ref.ParseExport(data)
	if err != nil {
		return fmt.Errorf("export: %w", err)
	}
	if err := keyIs(e.Master, want[ref.Master]); err != nil {
		return err
	}
	if len(e.Subs) != len(k.Kinds()) {
		return fmt.Errorf("export has %d subkeys, want %d", len(e.Subs), len(k.Kinds()))
	}
	for _, kind := range k.Kinds() {
		s := e.Find(want[kind].FP)
		if s == nil {
			return fmt.Errorf("export lacks the %s subkey %x", kind, want[kind].FP)
		}
		if err := keyIs(s.SecKey, want[kind]); err != nil {
			return err
		}
	}
	return nil
}

func keyIs(got ref.SecKey, want ref.Key) error {
	if !bytes.Equal(got.Body, want.Body) {
		return fmt.Errorf("%s public key body\n got %x\nwant %x", want.Kind, got.Body, want.Body)
	}
	if !bytes.Equal(ref.MPI(got.Private), ref.MPI(want.Private)) {
		return fmt.Errorf("%s private key is not the specified one", want.Kind)
	}
	return nil
}

type c06idx struct {
	Seed   Seed16 `json:"seed"`
	Offset uint32 `json:"offset"`
	From   int    `json:"from_index"`
	To     int    `json:"to_index"`
}

func checkIndices(r *Rec, c c06idx) error {
	root := ref.RootKey(c.Seed, c.Offset)
	at := time.Unix(ref.EpochStart+int64(c.Offset), 0)
	for i := c.From; i < c.To; i++ {
		x := uint16(i)
		m, err := mk.New(newSeed(c.Seed), at, &mk.KeyOptions{EncryptionSubkeyIndex: x, AuthenticationSubkeyIndex: x, SigningSubkeyIndex: x})
		if err != nil {
			return err
		}
		for _, kind := range ref.SubkeyKinds {
			w := ref.Derive(root, kind, x, c.Offset)
			if got := m.SubkeyFingerprint(mk.SubkeyType(kind)); !bytes.Equal(got, w.FP) {
				return fmt.Errorf("%s subkey %d fingerprint %x, want %x", kind, i, got, w.FP)
			}
		}
	}
	return nil
}

type c06real struct {
	Name   string  `json:"name,omitempty"` // golden vector
	Key    KeyCase `json:"key"`
	Golden []Hex   `json:"golden,omitempty"` // master, encryption, authentication, signing fingerprints
	Phrase string  `json:"phrase,omitempty"`
	PW     BS      `json:"password,omitempty"`
}

// checkRealHere runs in the build with the unmodified Argon2.
func checkRealHere(c c06real) error {
	var m *mk.Mnemonikey
	var err error
	if c.Phrase != "" {
		if c.PW == "" {
			m, err = mk.RecoverPlaintext(strings.Fields(c.Phrase), c.Key.Opts())
		} else {
			m, err = mk.RecoverEncrypted(strings.Fields(c.Phrase), []byte(c.PW), c.Key.Opts())
		}
	} else {
		m, err = c.Key.Build()
	}
	if err != nil {
		return err
	}
	if len(c.Golden) == 4 {
		for i, kind := range append([]string{ref.Master}, ref.SubkeyKinds...) {
			got := m.Fingerprint()
			if i > 0 {
				got = m.SubkeyFingerprint(mk.SubkeyType(kind))
			}
			if !bytes.Equal(got, c.Golden[i]) {
				return fmt.Errorf("golden vector %s: %s fingerprint %x, want %x", c.Name, kind, got, []byte(c.Golden[i]))
			}
		}
		return nil
	}
	return compareKeys(m, c.Key, c.Key.Ref())
}

// checkReal hands the case to the real-Argon2 build of this program.
func checkReal(r *Rec, c c06real) error {
	bin := os.Getenv("VERIF_REAL_BIN")
	if bin == "" {
		return infra("VERIF_REAL_BIN is not set")
	}
	in, _ := json.Marshal(c)
	cmd := exec.Command(bin, "worker", "real")
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.CombinedOutput()
	if err == nil && strings.TrimSpace(string(out)) == "ok" {
		return nil
	}
	if strings.HasPrefix(string(out), "mismatch: ") {
		return fmt.Errorf("with the real Argon2: %s", out)
	}
	return infra("real worker: %v: %s", err, clip(string(out), 2000))
}

func hash64(parts ...any) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	return binary.BigEndian.Uint64(h[:])
}

func seedFrom(parts ...any) (s Seed16) {
	copy(s[:], expandBytes(16, parts...))
	return
}

func init() {
	register(&Property{ID: "C01", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c01]{Name: "roundtrip", Rule: "random seeds (uniform, leading/trailing zeros, ones, single bits), creation times, options, letter case; trivial if the key has default options",
			Gen:   func(t *rapid.T) c01 { return c01{genKey(t), genCaseMut(t), genPassword(t, "pw")} },
			Check: func(r *Rec, c c01) error { triv(r, c.Key); return checkC01(r, c) }, Quick: 24000, Thorough: 1000000},
		&Sub[KeyCase]{Name: "rare-values", Rule: rareRule, Enum: eachRare, Check: func(r *Rec, k KeyCase) error { return checkC01(r, c01{Key: k, PW: "x"}) }},
	}})
	register(&Property{ID: "C02", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c02enc]{Name: "encode", Rule: "phrases of random seeds, offsets, passwords and random sources compared with the reference encoder; all count",
			Gen: func(t *rapid.T) c02enc {
				return c02enc{genSeed(t), genOffset(t), genPassword(t, "pw"), genSource(t, 64), genWant(t)}
			}, Check: checkC02Encode, Quick: 24000, Thorough: 1000000},
		&Sub[c02dec]{Name: "decode", Rule: "phrases made by the reference encoder decoded by the library; all count",
			Gen: func(t *rapid.T) c02dec {
				c := c02dec{Seed: genSeed(t), Offset: genOffset(t), Enc: rapid.Bool().Draw(t, "enc"), Case: genCaseMut(t)}
				if c.Enc {
					c.PW, c.Salt = genPassword(t, "pw"), genSalt(t)
					c.Seed = genSealed(t, c.Seed, c.PW, c.Salt, c.Offset)
				}
				return c
			}, Check: checkC02Decode, Quick: 24000, Thorough: 1000000},
		&Sub[struct{ Word BS }]{Name: "first-word", Rule: "all 4096 list words in lower and upper case and a set of foreign words, enumerated",
			Enum: func(_ bool, yield func(struct{ Word BS }) bool) {
				for _, w := range ref.Words {
					if !yield(struct{ Word BS }{BS(w)}) || !yield(struct{ Word BS }{BS(strings.ToUpper(w))}) || !yield(struct{ Word BS }{BS(w + "q")}) {
						return
					}
				}
				for _, w := range foreign {
					if !yield(struct{ Word BS }{BS(w)}) {
						return
					}
				}
			}, Check: checkFirstWord},
	}})
	register(&Property{ID: "C03", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c03]{Name: "open", Rule: "random keys, passwords (any bytes, up to 5000), sources; encrypted, decoded, decrypted, recovered; all count",
			Gen: func(t *rapid.T) c03 {
				return c03{genKey(t), genPassword(t, "pw"), genSource(t, 64), genCaseMut(t), genWant(t)}
			}, Check: checkC03, Quick: 24000, Thorough: 800000},
		&Sub[c03proc]{Name: "other-process", Rule: "batches of 8 phrases encrypted by this process and opened by a fresh one with another time zone, locale, home, processor count, clock; all count",
			Gen: func(t *rapid.T) c03proc {
				c := c03proc{Src: genSource(t, 512), Env: genEnv(t), CPU: rapid.Bool().Draw(t, "cpu")}
				for i := 0; i < 8; i++ {
					c.Phrases = append(c.Phrases, c03open{Key: genKey(t), PW: genPassword(t, "pw")})
				}
				return c
			}, Check: checkC03Proc, Quick: 120, Thorough: 3000},
		&Sub[c03chain]{Name: "chains", Rule: "chains of 1-6 conversions between plaintext and passwords; trivial if shorter than 2",
			Gen: func(t *rapid.T) c03chain {
				c := c03chain{Key: genKey(t), Src: genSource(t, 512)}
				for n := rapid.IntRange(1, 6).Draw(t, "steps"); n > 0; n-- {
					if pick(t, "plain", 2, 1) == 1 {
						c.Steps = append(c.Steps, "")
					} else {
						c.Steps = append(c.Steps, genPassword(t, "pw"))
					}
				}
				return c
			},
			Check: func(r *Rec, c c03chain) error {
				if len(c.Steps) < 2 {
					r.Trivial()
				}
				return checkC03Chain(r, c)
			}, Quick: 4000, Thorough: 150000},
	}})
	register(&Property{ID: "C04", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c04]{Name: "wrong-password", Rule: "phrase and a different password (unrelated, prefix, extension, bit flip, case, doubled); in half the cases extended until the verification bits collide; trivial if equal",
			Gen: func(t *rapid.T) c04 {
				c := c04{Seed: genSeed(t), Offset: genOffset(t), Salt: genSalt(t), PW: genPassword(t, "pw"), Collide: rapid.Bool().Draw(t, "collide")}
				if pick(t, "tries", 40, 1) == 1 {
					c.Tries = rapid.IntRange(1, 40).Draw(t, "tries")
				} else if useDict(t, "trieslit") && rapid.Bool().Draw(t, "lit") {
					c.Tries = dictLen(t, "trieslit", 150)
				}
				c.Seed = genSealed(t, c.Seed, c.PW, c.Salt, c.Offset)
				if pick(t, "empty", 15, 1) == 1 {
					c.Wrong = ""
				} else {
					c.Wrong = otherPassword(t, "wrong", c.PW)
				}
				return c
			}, Check: checkC04, Quick: 20000, Thorough: 600000},
		&Sub[c04src]{Name: "bad-source-or-password", Rule: "sources that fail or end before delivering 19 bits (0, 1, 2 bytes), and empty passwords; all count",
			Gen: func(t *rapid.T) c04src {
				c := c04src{Seed: genSeed(t), Offset: genOffset(t), PW: genPassword(t, "pw")}
				c.Src = genSource(t, rapid.IntRange(0, 2).Draw(t, "n"))
				c.Src.EOF = rapid.Bool().Draw(t, "eof")
				return c
			}, Check: checkC04Fail, Quick: 4000, Thorough: 40000},
		&Sub[c04salt]{Name: "salt", Rule: "1024 phrases from one pseudo-random stream: every salt bit and pair of bits balanced within 8 sigma, same stream same salt; all count",
			Gen: func(t *rapid.T) c04salt {
				return c04salt{genSeed(t), genOffset(t), genPassword(t, "pw"), rapid.Uint64().Draw(t, "stream"), genChunks(t)}
			}, Check: checkC04Salt, Quick: 40, Thorough: 1500},
		&Sub[c04draw]{Name: "salt-values", Rule: "8192 phrases from one pseudo-random stream: every value of every 8 adjacent salt bits occurs, none much too often; sources of zeros and ones give the first and last salt; all count",
			Gen: func(t *rapid.T) c04draw {
				return c04draw{genSeed(t), genOffset(t), genPassword(t, "pw"), rapid.Uint64().Draw(t, "stream")}
			}, Check: checkC04Draw, Quick: 8, Thorough: 200},
	}})
	register(&Property{ID: "C05", Subs: []subCheck{
		&Sub[c05]{Name: "mutations", Rule: "valid phrases, right-checksum phrases of all versions and lengths, arbitrary word lists, with 0-3 mutations; trivial if not judged (exotic case folding)",
			Gen: genC05, Check: checkC05, Quick: 60000, Thorough: 2000000},
		&Sub[c05sub]{Name: "substitutions", Rule: "for generated phrases of both kinds: every position x all 4096 words (one case is one position), enumerated",
			Enum: func(th bool, yield func(c05sub) bool) {
				n := 3
				if th {
					n = 40
				}
				for i := 0; i < n; i++ {
					s := seedFrom("c05", runSeed(), i)
					off := uint32(hash64("c05", runSeed(), i) % (1 << 31))
					if i == 0 {
						s, off = Seed16{}, 0
					}
					for _, b := range [][]string{ref.PlainPhrase(s, off), ref.RawEncPhrase(s, uint32(i), byte(i%32), off)} {
						for p := range b {
							if !yield(c05sub{b, p}) {
								return
							}
						}
					}
				}
			}, Check: checkC05Sub},
	}})
	register(&Property{ID: "C06", Assumptions: []string{fastNote + " (not in real-argon2)"}, Subs: []subCheck{
		&Sub[c06real]{Name: "real-argon2", Rule: "golden vectors of earlier releases and generated keys derived with the unmodified Argon2 by library and reference; all count", Workers: 3, Limit: 10 * time.Minute,
			Enum: func(th bool, yield func(c06real) bool) {
				for _, g := range goldenVectors {
					if !yield(g) {
						return
					}
				}
				n := 4
				if th {
					n = 60
				}
				for i := 0; i < n; i++ {
					k := KeyCase{Seed: seedFrom("c06", runSeed(), i), At: TimeIn{Offset: uint32(hash64("c06", runSeed(), i) % (1 << 31))}}
					k.Enc, k.Auth, k.Sig = uint16(hash64("e", runSeed(), i)), uint16(hash64("a", runSeed(), i)), uint16(hash64("s", runSeed(), i))
					if i%4 == 1 {
						k.Seed[0], k.Seed[1] = 0, 0
					}
					if !yield(c06real{Key: k}) {
						return
					}
				}
			}, Check: checkReal},
		&Sub[KeyCase]{Name: "derive", Rule: "random keys; fingerprints, public bodies and private integers against the reference derivation; trivial if default options",
			Gen: genKey, Check: func(r *Rec, k KeyCase) error { triv(r, k); return checkDerive(r, k) }, Quick: 24000, Thorough: 1000000},
		&Sub[KeyCase]{Name: "rare-values", Rule: rareRule, Enum: eachRare, Check: checkDerive},
		&Sub[c06idx]{Name: "all-indices", Rule: "all 65536 indices x 3 subkey types for a generated seed (one case is a block of 256 indices), enumerated",
			Enum: func(th bool, yield func(c06idx) bool) {
				n := 1
				if th {
					n = 20
				}
				for j := 0; j < n; j++ {
					s, off := seedFrom("c06i", runSeed(), j), uint32(hash64("c06i", runSeed(), j)%(1<<31))
					for i := 0; i < 65536; i += 256 {
						if !yield(c06idx{s, off, i, i + 256}) {
							return
						}
					}
				}
			}, Check: checkIndices},
	}})
}

func triv(r *Rec, k KeyCase) {
	if k.Plain() {
		r.Trivial()
	}
	if k.Searched > 0 {
		r.Label("leading-zero-key")
	}
}

func runSeed() string { return envOr("VERIF_SEED", "1") }
