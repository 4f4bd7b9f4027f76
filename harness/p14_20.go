package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"sync"
	"time"

	mk "github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// ---- C14

type c14 struct {
	Key  KeyCase `json:"key"`
	Kind string  `json:"kind"`
	To   uint16  `json:"to_index"`
}

func exportOf(m *mk.Mnemonikey) (*ref.Export, error) {
	b, err := m.EncodePGP(nil)
	if err != nil {
		return nil, fmt.Errorf("EncodePGP: %w", err)
	}
	e, err := ref.ParseExport(b)
	if err != nil {
		return nil, fmt.Errorf("export: %w", err)
	}
	return e, nil
}

func checkC14(r *Rec, c c14) error {
	k1, k2 := c.Key, c.Key
	k2.setIndex(c.Kind, c.To)
	m1, err := k1.Build()
	if err != nil {
		return err
	}
	m2, err := k2.Build()
	if err != nil {
		return err
	}
	changed := k1.index(c.Kind) != c.To
	selected := false
	for _, kind := range k1.Kinds() {
		selected = selected || kind == c.Kind
	}
	if !changed || !selected {
		r.Trivial()
		r.Label("unselected-or-same")
	}
	for _, op := range []string{"fp", "uid", "created", "expiry", "types", "phrase"} {
		a, err := observe(m1, op)
		if err != nil {
			return err
		}
		if b, err := observe(m2, op); err != nil || a != b {
			return fmt.Errorf("%s changes with the index of the %s subkey (%v)", op, c.Kind, err)
		}
	}
	e1, err := exportOf(m1)
	if err != nil {
		return err
	}
	e2, err := exportOf(m2)
	if err != nil {
		return err
	}
	if !bytes.Equal(e1.Master.Packet.Raw, e2.Master.Packet.Raw) || !bytes.Equal(e1.UIDPacket.Raw, e2.UIDPacket.Raw) || e1.SelfCert == nil || !bytes.Equal(e1.CertPacket.Raw, e2.CertPacket.Raw) {
		return fmt.Errorf("master key, user ID or self-certification changes with the index of the %s subkey", c.Kind)
	}
	for _, kind := range ref.SubkeyKinds {
		f1, f2 := m1.SubkeyFingerprint(mk.SubkeyType(kind)), m2.SubkeyFingerprint(mk.SubkeyType(kind))
		if f1 == nil {
			if f2 != nil {
				return fmt.Errorf("%s subkey appears", kind)
			}
			continue
		}
		s1, s2 := e1.Find(f1), e2.Find(f2)
		if s1 == nil || s2 == nil {
			return fmt.Errorf("%s subkey is missing in the export", kind)
		}
		same := bytes.Equal(s1.Packet.Raw, s2.Packet.Raw) && bytes.Equal(s1.BindPacket.Raw, s2.BindPacket.Raw)
		if kind == c.Kind && changed {
			if bytes.Equal(f1, f2) || bytes.Equal(s1.Point, s2.Point) || bytes.Equal(s1.Private, s2.Private) {
				return fmt.Errorf("%s subkeys %d and %d are the same key", kind, k1.index(kind), c.To)
			}
		} else if !same {
			return fmt.Errorf("%s subkey changes with the index of the %s subkey", kind, c.Kind)
		}
	}
	// the same type and index whatever else is selected
	if selected {
		only := []string{c.Kind}
		k3 := KeyCase{Seed: k2.Seed, At: k2.At, Subkeys: &only}
		k3.setIndex(c.Kind, c.To)
		m3, err := k3.Build()
		if err != nil {
			return err
		}
		t := mk.SubkeyType(c.Kind)
		if !bytes.Equal(m3.SubkeyFingerprint(t), m2.SubkeyFingerprint(t)) || !bytes.Equal(m3.Fingerprint(), m2.Fingerprint()) {
			return fmt.Errorf("%s subkey %d depends on what else is selected", c.Kind, c.To)
		}
		e3, err := exportOf(m3)
		if err != nil {
			return err
		}
		a, b := e3.Find(m3.SubkeyFingerprint(t)), e2.Find(m2.SubkeyFingerprint(t))
		if a == nil || b == nil || !bytes.Equal(a.Private, b.Private) {
			return fmt.Errorf("private %s subkey %d depends on what else is selected", c.Kind, c.To)
		}
	}
	return nil
}

type c14all struct {
	Seed   Seed16 `json:"seed"`
	Offset uint32 `json:"offset"`
	Step   int    `json:"step"`
}

func checkC14All(r *Rec, c c14all) error {
	at := time.Unix(ref.EpochStart+int64(c.Offset), 0)
	type slot struct {
		kind string
		idx  int
	}
	var mu sync.Mutex
	seen := map[string]slot{} // fingerprints and private integers
	put := func(s string, at slot) error {
		mu.Lock()
		defer mu.Unlock()
		if old, dup := seen[s]; dup && old != at {
			return fmt.Errorf("%s key %d and %s key %d are the same", old.kind, old.idx, at.kind, at.idx)
		}
		seen[s] = at
		return nil
	}
	var wg sync.WaitGroup
	errs := make(chan error, 8)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			err := evalSafe(func(*Rec, int) error {
				for i := w * c.Step; i < 65536; i += 8 * c.Step {
					x := uint16(i)
					m, err := mk.New(newSeed(c.Seed), at, &mk.KeyOptions{EncryptionSubkeyIndex: x, AuthenticationSubkeyIndex: x, SigningSubkeyIndex: x})
					if err != nil {
						return err
					}
					if err := put(string(m.Fingerprint()), slot{"master", 0}); err != nil {
						return err
					}
					for _, kind := range ref.SubkeyKinds {
						if err := put(string(m.SubkeyFingerprint(mk.SubkeyType(kind))), slot{kind, i}); err != nil {
							return err
						}
					}
					// private keys: fingerprints differ between types even for equal secrets
					if i%c.Step == 0 && (i/c.Step)%32 == 0 {
						e, err := exportOf(m)
						if err != nil {
							return err
						}
						for _, s := range e.Subs {
							p := make([]byte, 32)
							copy(p[32-len(s.Private):], s.Private)
							if s.Algo == 18 { // undo reversal and clamping freedom: compare the middle bytes
								for a, b := 0, 31; a < b; a, b = a+1, b-1 {
									p[a], p[b] = p[b], p[a]
								}
							}
							if err := put("private"+string(p[1:31]), slot{s.Kind(), i}); err != nil {
								return err
							}
						}
						p := make([]byte, 32)
						copy(p[32-len(e.Master.Private):], e.Master.Private)
						if err := put("private"+string(p[1:31]), slot{"master", 0}); err != nil {
							return err
						}
					}
				}
				return nil
			}, &Rec{}, 0)
			if err != nil {
				errs <- err
			}
		}(w)
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	return nil
}

// ---- C15

type c15 struct {
	Key    KeyCase `json:"key"`
	Name2  Text    `json:"name2"`
	Email2 Text    `json:"email2"`
}

func checkC15(r *Rec, c c15) error {
	k := c.Key
	k2 := k
	k2.Name, k2.Email = c.Name2, c.Email2
	var ms [2]*mk.Mnemonikey
	var es [2]*ref.Export
	for i, x := range []KeyCase{k, k2} {
		m, err := x.Build()
		if err != nil {
			return err
		}
		ms[i] = m
		if m.UserID() != x.UID() {
			return fmt.Errorf("UserID() = %.80q, want %.80q", m.UserID(), x.UID())
		}
		for _, v := range eitherForm(m, x) {
			data, err := v.bin(nil)
			if err != nil {
				return err
			}
			e, err := ref.ParseExport(data)
			if err != nil {
				return fmt.Errorf("%s: %w", v.name, err)
			}
			if string(e.UID) != x.UID() {
				return fmt.Errorf("%s: user ID %.80q (%d bytes), want %.80q (%d bytes)", v.name, e.UID, len(e.UID), x.UID(), len(x.UID()))
			}
			if e.SelfCert == nil {
				if v.cert {
					return fmt.Errorf("%s: no self-certification", v.name)
				}
				continue
			}
			if err := e.SelfCert.Verify(e.Master.PubKey, ref.CertPreimage(e.Master.PubKey, []byte(x.UID()))); err != nil {
				return fmt.Errorf("%s: self-certification over the user ID: %w", v.name, err)
			}
			if v.full {
				es[i] = e
			}
		}
	}
	for _, op := range []string{"fp", "fp-enc", "fp-auth", "fp-sig", "types", "created", "expiry", "phrase"} {
		a, err := observe(ms[0], op)
		if err != nil {
			return err
		}
		if b, err := observe(ms[1], op); err != nil || a != b {
			return fmt.Errorf("%s depends on the user ID (%v)", op, err)
		}
	}
	if len(es[0].Packets) != len(es[1].Packets) {
		return fmt.Errorf("number of packets depends on the user ID")
	}
	for i, p := range es[0].Packets {
		if i == 1 || i == 2 {
			continue
		}
		if !bytes.Equal(p.Raw, es[1].Packets[i].Raw) {
			return fmt.Errorf("packet %d (tag %d) depends on the user ID", i, p.Tag)
		}
	}
	switch n := len(k.UID()); {
	case n == 0:
		r.Trivial()
	case n > 65535:
		r.Label("over-64k")
	case n > 8383:
		r.Label("over-8383")
	case n > 191:
		r.Label("over-191")
	}
	return nil
}

// ---- C16

type c16 struct {
	Seed  Seed16   `json:"seed"`
	Sec   int64    `json:"unix_seconds"`
	Nanos int      `json:"nanos"`
	Zone  int      `json:"zone"`
	Kinds []string `json:"kinds"`
	Place
}

func genC16(t *rapid.T) c16 {
	c := c16{Seed: genSeed(t), Zone: genZone(t), Kinds: []string{}}
	const lo, hi = int64(ref.EpochStart), int64(ref.EpochStart) + ref.MaxOffset
	switch pick(t, "seckind", 6, 5, 3, 2, 2, 2, 1) {
	case 6:
		c.Sec = dictUnix(t, "seclit", -62135596800, 253402300799)
	case 0:
		c.Sec = lo + int64(genOffset(t))
	case 1: // around a bound
		b := rapid.SampledFrom([]int64{lo, hi}).Draw(t, "bound")
		c.Sec = b + int64(rapid.IntRange(-3, 3).Draw(t, "d"))
	case 2: // hours around a bound, where zones matter
		b := rapid.SampledFrom([]int64{lo, hi}).Draw(t, "bound")
		c.Sec = b + int64(rapid.IntRange(-20*3600, 20*3600).Draw(t, "d"))
	case 3: // one or two 2^32 or 2^31 periods away
		c.Sec = lo + int64(genOffset(t)) + rapid.SampledFrom([]int64{-1 << 32, -1 << 31, 1 << 31, 1 << 32, 1 << 33}).Draw(t, "wrap")
	case 4: // near the range of time.Duration from the epoch and beyond
		c.Sec = lo + rapid.SampledFrom([]int64{1, -1}).Draw(t, "sign")*(9223372036+int64(rapid.IntRange(-3, 3).Draw(t, "d")))*rapid.SampledFrom([]int64{1, 2, 3}).Draw(t, "mul")
	case 5: // any year within 1..9999
		c.Sec = rapid.Int64Range(-62135596800, 253402300799).Draw(t, "any")
	}
	c.Place, c.Sec = genPlace(t, c.Sec, -62135596800, 253402300799)
	if c.Sec < -5e9 || c.Sec > 9e9 {
		c.Mono = false // a reading of the monotonic clock cannot be that far away
	}
	switch pick(t, "nanokind", 3, 3, 2) {
	case 1:
		c.Nanos = rapid.SampledFrom([]int{1, 499999999, 500000000, 500000001, 999999999}).Draw(t, "nanos")
	case 2:
		c.Nanos = int(uniformN(t, "nanos", 1000000000))
		if useDict(t, "nanos") {
			c.Nanos = int(dictNum(t, "nanolit", 999999999))
		}
	}
	for _, k := range ref.SubkeyKinds {
		if rapid.Bool().Draw(t, "sub") {
			c.Kinds = append(c.Kinds, k)
		}
	}
	return c
}

func checkC16(r *Rec, c c16) error {
	const lo, hi = int64(ref.EpochStart), int64(ref.EpochStart) + ref.MaxOffset
	at := c.Place.time(time.Unix(c.Sec, int64(c.Nanos)), c.Zone)
	opts := &mk.KeyOptions{Subkeys: []mk.SubkeyType{}}
	for _, k := range c.Kinds {
		opts.Subkeys = append(opts.Subkeys, mk.SubkeyType(k))
	}
	m, err := mk.New(newSeed(c.Seed), at, opts)
	early := c.Sec < lo
	late := c.Sec > hi
	if c.Sec == hi && c.Nanos > 0 {
		// the last fraction of a second before the bound plus one: the property leaves it open
		r.Label("last-second-fraction")
		r.Trivial()
		if err == nil {
			return c16key(r, m, c)
		}
		if !errors.Is(err, mk.ErrCreationTooLate) {
			return fmt.Errorf("%v: error %v", at, err)
		}
		return nil
	}
	switch {
	case early:
		r.Label("too-early")
		if m != nil || !errors.Is(err, mk.ErrCreationTooEarly) {
			return fmt.Errorf("%v (unix %d) is before 2023: key %v, error %v", at, c.Sec, m != nil, err)
		}
		if errors.Is(err, mk.ErrCreationTooLate) {
			return fmt.Errorf("%v: the too-early error also is the too-late error", at)
		}
		return nil
	case late:
		r.Label("too-late")
		if m != nil || !errors.Is(err, mk.ErrCreationTooLate) {
			return fmt.Errorf("%v (unix %d) is too late: key %v, error %v", at, c.Sec, m != nil, err)
		}
		return nil
	}
	r.Label("accepted")
	if err != nil {
		return fmt.Errorf("%v (unix %d) refused: %w", at, c.Sec, err)
	}
	return c16key(r, m, c)
}

func c16key(r *Rec, m *mk.Mnemonikey, c c16) error {
	if u := m.CreatedAt(); u.Unix() != c.Sec || u.Nanosecond() != 0 {
		return fmt.Errorf("CreatedAt() = %v (unix %d.%09d), want unix %d", u, u.Unix(), u.Nanosecond(), c.Sec)
	}
	e, err := exportOf(m)
	if err != nil {
		return err
	}
	if int64(e.Master.Created) != c.Sec {
		return fmt.Errorf("master key created %d, want %d", e.Master.Created, c.Sec)
	}
	sigs := []*ref.Sig{e.SelfCert}
	for _, s := range e.Subs {
		if int64(s.Created) != c.Sec {
			return fmt.Errorf("subkey created %d, want %d", s.Created, c.Sec)
		}
		sigs = append(sigs, s.Binding)
		for _, b := range append(ref.Get(s.Binding.Hashed, 32), ref.Get(s.Binding.Unhashed, 32)...) {
			x, err := ref.ParseSig(b)
			if err != nil {
				return err
			}
			sigs = append(sigs, x)
		}
	}
	for i, s := range sigs {
		if s == nil {
			return fmt.Errorf("no self-certification")
		}
		b := ref.Get(s.Hashed, 2)
		if len(b) != 1 || len(b[0]) != 4 || int64(new(big.Int).SetBytes(b[0]).Uint64()) != c.Sec {
			return fmt.Errorf("signature %d dated %x, want %x", i, b, c.Sec)
		}
	}
	w, err := m.EncodeMnemonicPlaintext()
	if err != nil {
		return fmt.Errorf("EncodeMnemonicPlaintext: %w", err)
	}
	if want := ref.PlainPhrase(c.Seed, uint32(c.Sec-ref.EpochStart)); !eqWords(w, want) {
		return fmt.Errorf("phrase %q, want %q", phrase(w), phrase(want))
	}
	return nil
}

type c16off struct {
	Seed   Seed16 `json:"seed"`
	Offset uint32 `json:"offset"`
	PW     BS     `json:"password"`
}

func checkC16Off(r *Rec, c c16off) error {
	w, err := mk.EncodeMnemonicPlaintext(newSeed(c.Seed), c.Offset)
	w2, err2 := mk.EncodeMnemonicEncrypted(newSeed(c.Seed), c.Offset, []byte(c.PW), rand.Reader)
	if c.Offset > ref.MaxOffset {
		r.Label("does-not-fit")
		if err == nil || w != nil || err2 == nil || w2 != nil {
			return fmt.Errorf("offset %d does not fit in 31 bits, but is encoded: %q / %q (%v, %v)", c.Offset, phrase(w), phrase(w2), err, err2)
		}
		return nil
	}
	if err != nil || err2 != nil {
		return fmt.Errorf("offset %d refused: %v, %v", c.Offset, err, err2)
	}
	for _, x := range [][]string{w, w2} {
		if p, d := ref.Classify(x); d != 0 || p.Offset != c.Offset {
			return fmt.Errorf("offset %d encoded as %d (defects %b)", c.Offset, p.Offset, d)
		}
		dm, err := mk.DecodeMnemonic(x)
		if err != nil || dm.CreationOffset() != c.Offset || dm.Creation().Unix() != ref.EpochStart+int64(c.Offset) {
			return fmt.Errorf("offset %d decodes differently (%v)", c.Offset, err)
		}
	}
	return nil
}

// ---- C17

type c17 struct {
	Src source `json:"source"`
	Off uint32 `json:"offset"`
}

func checkC17(r *Rec, c c17) error {
	rd := c.Src.reader()
	// drawn one after another until the source is exhausted
	data := c.Src.Data
	for n := 0; ; n++ {
		s, err := mk.GenerateSeed(rd)
		if len(data) < 16 {
			if err == nil || s != nil {
				return fmt.Errorf("seed %d from a source with only %d more bytes: %v, %v", n, len(data), s, err)
			}
			if len(data) > 0 {
				r.Label("ends-inside-a-seed")
			} else if n > 0 {
				r.Label("ends-between-seeds")
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("seed %d: %w", n, err)
		}
		var want Seed16
		copy(want[:], data[:16])
		data = data[16:]
		if err := seedEq(s, want); err != nil {
			return fmt.Errorf("seed %d: %w", n, err)
		}
		w, err := mk.EncodeMnemonicPlaintext(s, c.Off)
		if err != nil {
			return err
		}
		if !eqWords(w, ref.PlainPhrase(want, c.Off)) {
			return fmt.Errorf("seed %d: phrase %q does not embed %x", n, phrase(w), want[:])
		}
		if want[0] == 0 {
			r.Label("leading-zero")
		}
	}
}

type c17int struct {
	Int string `json:"int_hex"`
	Era int    `json:"era"`
}

func checkC17Int(r *Rec, c c17int) error {
	v, ok := new(big.Int).SetString(c.Int, 16)
	if !ok {
		return infra("bad integer %q", c.Int)
	}
	arg := new(big.Int).Set(v)
	s, err := mk.NewSeed(mk.Era(c.Era), arg)
	good := v.Sign() >= 0 && v.BitLen() <= 128 && c.Era == 0
	if !good {
		r.Label("refused")
		if err == nil || s != nil {
			return fmt.Errorf("NewSeed(%d, %s) is accepted", c.Era, c.Int)
		}
		if c.Era != 0 && !errors.Is(err, mk.ErrInvalidEraNumber) {
			return fmt.Errorf("NewSeed(%d, %s): error %v", c.Era, c.Int, err)
		}
		return nil
	}
	r.Label("accepted")
	if err != nil {
		return fmt.Errorf("NewSeed(%d, %s): %w", c.Era, c.Int, err)
	}
	var want Seed16
	v.FillBytes(want[:])
	return seedEq(s, want)
}

// ---- C18

type c18 struct {
	Payload string `json:"payload_hex"`
	Size    uint   `json:"bit_size"`
}

func checkC18(r *Rec, c c18) error {
	v, ok := new(big.Int).SetString(c.Payload, 16)
	if !ok {
		return infra("bad payload")
	}
	idx, err := mnemonic.EncodeToIndices(new(big.Int).Set(v), c.Size)
	if v.Sign() < 0 || v.BitLen() > int(c.Size) {
		r.Label("refused")
		if err == nil || idx != nil {
			return fmt.Errorf("payload %s as %d bits encoded to %v", c.Payload, c.Size, idx)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("payload %s as %d bits: %w", c.Payload, c.Size, err)
	}
	if v.Sign() == 0 || c.Size == 0 {
		r.Label("zero")
	}
	want := ref.Digits(v, c.Size)
	if fmt.Sprint(idx) != fmt.Sprint(want) {
		return fmt.Errorf("payload %s as %d bits\n got %v\nwant %v", c.Payload, c.Size, idx, want)
	}
	words, err := mnemonic.EncodeToWords(idx)
	if err != nil || len(words) != len(idx) {
		return fmt.Errorf("EncodeToWords(%v) = %v, %v", idx, words, err)
	}
	for i, w := range words {
		if w != ref.Words[idx[i]] {
			return fmt.Errorf("index %d gives word %q, want %q", idx[i], w, ref.Words[idx[i]])
		}
	}
	back, err := mnemonic.DecodeWords(words)
	if err != nil || fmt.Sprint(back) != fmt.Sprint(idx) {
		return fmt.Errorf("DecodeWords(%v) = %v, %v, want %v", words, back, err, idx)
	}
	val, err := mnemonic.DecodeIndices(back)
	if err != nil || val.Cmp(v) != 0 {
		return fmt.Errorf("DecodeIndices(%v) = %x, %v, want %x", back, val, err, v)
	}
	return nil
}

type c18idx struct {
	Indices []uint16 `json:"indices"`
}

func checkC18Idx(r *Rec, c c18idx) error {
	bad := false
	for _, x := range c.Indices {
		bad = bad || x > 4095
	}
	words, err := mnemonic.EncodeToWords(append([]uint16{}, c.Indices...))
	v, err2 := mnemonic.DecodeIndices(append([]uint16{}, c.Indices...))
	if bad {
		r.Label("refused")
		if words != nil || !errors.Is(err, mnemonic.ErrInvalidIndex) || v != nil || !errors.Is(err2, mnemonic.ErrInvalidIndex) {
			return fmt.Errorf("indices %v: %v %v / %v %v", c.Indices, words, err, v, err2)
		}
		return nil
	}
	if err != nil || err2 != nil {
		return fmt.Errorf("indices %v: %v, %v", c.Indices, err, err2)
	}
	if want := ref.FromDigits(c.Indices); v.Cmp(want) != 0 {
		return fmt.Errorf("indices %v decode to %x, want %x", c.Indices, v, want)
	}
	if len(words) != len(c.Indices) {
		return fmt.Errorf("%d indices give %d words", len(c.Indices), len(words))
	}
	for i, w := range words {
		if w != ref.Words[c.Indices[i]] {
			return fmt.Errorf("index %d gives %q", c.Indices[i], w)
		}
	}
	back, err := mnemonic.EncodeToIndices(v, uint(12*len(c.Indices)))
	if err != nil || fmt.Sprint(back) != fmt.Sprint(append([]uint16{}, c.Indices...)) {
		return fmt.Errorf("indices %v come back as %v, %v", c.Indices, back, err)
	}
	return nil
}

func checkC18Words(r *Rec, c c05) error {
	words := make([]string, len(c.Words))
	bad := false
	var want []uint16
	for i, w := range c.Words {
		words[i] = string(w)
		p, d := ref.Classify([]string{string(w)})
		_ = p
		if d&ref.DefUnsure != 0 {
			r.Trivial()
			return nil
		}
		if d&ref.DefWord != 0 {
			bad = true
		} else {
			want = append(want, uint16(ref.Index[strings.ToLower(string(w))]))
		}
	}
	got, err := mnemonic.DecodeWords(words)
	if bad {
		r.Label("refused")
		if got != nil || !errors.Is(err, mnemonic.ErrInvalidWord) {
			return fmt.Errorf("words %q: %v, %v", words, got, err)
		}
		return nil
	}
	if err != nil || fmt.Sprint(got) != fmt.Sprint(append([]uint16{}, want...)) {
		return fmt.Errorf("words %q: %v, %v, want %v", words, got, err, want)
	}
	return nil
}

// ---- C19

// spareBytes returns p in a slice with spare capacity filled with a pattern, and a check that
// neither p nor the spare part changed.
func spareBytes(p []byte) ([]byte, func() bool) {
	buf := make([]byte, len(p)+64)
	copy(buf, p)
	for i := len(p); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	snap := append([]byte(nil), buf...)
	return buf[:len(p)], func() bool { return bytes.Equal(buf, snap) }
}

func spareStrings(p []string) ([]string, func() bool) {
	buf := make([]string, len(p)+6)
	copy(buf, p)
	for i := len(p); i < len(buf); i++ {
		buf[i] = "spare"
	}
	snap := append([]string(nil), buf...)
	return buf[:len(p)], func() bool { return eqWords(buf, snap) }
}

func scribble(p []byte) {
	p = p[:cap(p)]
	for i := range p {
		p[i] ^= 0xFF
	}
}

func scribbleStrings(p []string) {
	p = p[:cap(p)]
	for i := range p {
		p[i] = "overwritten"
	}
}

func scribbleInt(x *big.Int) {
	bits := x.Bits()
	bits = bits[:cap(bits)]
	for i := range bits {
		bits[i] ^= ^big.Word(0)
	}
	x.SetUint64(0xDEAD)
}

func scribbleInt2(x *big.Int) { x.Add(x.Lsh(x, 3), big.NewInt(77)) }

type c19 struct {
	Key   KeyCase `json:"key"`
	PW    BS      `json:"password"`
	Wrong BS      `json:"wrong_password"`
	KeyPW bool    `json:"key_password"`
	Src   source  `json:"source"`
	Case  caseMut `json:"case"`
	Size  uint    `json:"extra_bits"`
	Style bool    `json:"arithmetic_scribble"`
}

func checkC19(r *Rec, c c19) error {
	k := c.Key
	smash := scribbleInt
	if c.Style {
		smash = scribbleInt2
	}
	// --- seed
	arg := new(big.Int).SetBytes(k.Seed[:])
	seed, err := mk.NewSeed(mk.EraLatest, arg)
	if err != nil {
		return fmt.Errorf("NewSeed: %w", err)
	}
	if arg.Cmp(new(big.Int).SetBytes(k.Seed[:])) != 0 {
		return fmt.Errorf("NewSeed modifies its argument")
	}
	smash(arg)
	if err := seedEq(seed, k.Seed); err != nil {
		return fmt.Errorf("overwriting the integer passed to NewSeed changes the seed: %w", err)
	}
	smash(seed.Int())
	scribble(seed.Bytes())
	if err := seedEq(seed, k.Seed); err != nil {
		return fmt.Errorf("overwriting results of the seed changes it: %w", err)
	}
	// --- options
	opts := k.Opts()
	var subsBuf []mk.SubkeyType
	var optSnap mk.KeyOptions
	if opts != nil {
		if opts.Subkeys != nil {
			subsBuf = make([]mk.SubkeyType, len(opts.Subkeys), len(opts.Subkeys)+4)
			copy(subsBuf, opts.Subkeys)
			opts.Subkeys = subsBuf
		}
		optSnap = *opts
		optSnap.Subkeys = append([]mk.SubkeyType(nil), opts.Subkeys...)
	}
	optsSame := func() error {
		if opts == nil {
			return nil
		}
		a, b := *opts, optSnap
		if fmt.Sprint(a.Subkeys) != fmt.Sprint(b.Subkeys) || (a.Subkeys == nil) != (k.Subkeys == nil) || len(a.Subkeys) != len(subsBuf) {
			return fmt.Errorf("options: subkey list modified: %v, was %v", a.Subkeys, b.Subkeys)
		}
		if sp := subsBuf[:cap(subsBuf)]; len(sp) > len(subsBuf) {
			for _, x := range sp[len(subsBuf):] {
				if x != "" {
					return fmt.Errorf("options: spare room of the subkey list written")
				}
			}
		}
		a.Subkeys, b.Subkeys = nil, nil
		if fmt.Sprintf("%+v", a) != fmt.Sprintf("%+v", b) {
			return fmt.Errorf("options modified: %+v, were %+v", a, b)
		}
		return nil
	}
	m, err := mk.New(seed, k.At.Time(), opts)
	if err != nil {
		return fmt.Errorf("New: %w", err)
	}
	if err := optsSame(); err != nil {
		return fmt.Errorf("New: %w", err)
	}
	if err := seedEq(seed, k.Seed); err != nil {
		return fmt.Errorf("New modifies the seed: %w", err)
	}
	base := map[string]string{}
	for _, op := range observables {
		if base[op], err = observe(m, op); err != nil {
			return err
		}
	}
	unchanged := func(m *mk.Mnemonikey, after string) error {
		for _, op := range observables {
			s, err := observe(m, op)
			if err != nil || s != base[op] {
				return fmt.Errorf("%s: %s changed: %s (%v)", after, op, diff(base[op], s), err)
			}
		}
		return nil
	}
	if opts != nil { // overwrite the options after the call
		for i := range opts.Subkeys {
			opts.Subkeys[i] = "x"
		}
		*opts = mk.KeyOptions{Name: "overwritten", TTL: 12345 * time.Second, Subkeys: []mk.SubkeyType{}, EncryptionSubkeyIndex: 9}
		if err := unchanged(m, "options overwritten"); err != nil {
			return err
		}
	}
	// --- results of the key set
	full, err := m.EncodePGP(nil)
	if err != nil {
		return err
	}
	subs, _ := m.EncodeSubkeysPGP(nil, true)
	words, err := m.EncodeMnemonicPlaintext()
	if err != nil {
		return err
	}
	keepWords := append([]string{}, words...)
	scribble(full)
	scribble(subs)
	scribble(m.Fingerprint())
	for _, kind := range ref.SubkeyKinds {
		scribble(m.SubkeyFingerprint(mk.SubkeyType(kind)))
	}
	types := m.SubkeyTypes()
	for i := range types {
		types[i] = "x"
	}
	scribbleStrings(words)
	if err := unchanged(m, "results overwritten"); err != nil {
		return err
	}
	// --- passwords
	pw, pwSame := spareBytes([]byte(c.PW))
	src := c.Src.reader()
	enc, err := m.EncodeMnemonicEncrypted(pw, src)
	if err != nil {
		return fmt.Errorf("EncodeMnemonicEncrypted: %w", err)
	}
	if !pwSame() {
		return fmt.Errorf("EncodeMnemonicEncrypted modifies the password")
	}
	enc2, err := mk.EncodeMnemonicEncrypted(seed, k.At.Offset, pw, c.Src.reader())
	if err != nil || !pwSame() {
		return fmt.Errorf("EncodeMnemonicEncrypted (function): %v, or modifies the password", err)
	}
	if err := seedEq(seed, k.Seed); err != nil {
		return fmt.Errorf("EncodeMnemonicEncrypted modifies the seed: %w", err)
	}
	scribbleStrings(enc2)
	if c.KeyPW {
		r.Label("key-password")
		for _, v := range variants(m) {
			out, err := v.bin(pw)
			if err != nil || !pwSame() {
				return fmt.Errorf("%s modifies the password (%v)", v.name, err)
			}
			if _, err := v.arm(pw); err != nil || !pwSame() {
				return fmt.Errorf("armored %s modifies the password (%v)", v.name, err)
			}
			scribble(out)
		}
		if err := unchanged(m, "protected exports made and overwritten"); err != nil {
			return err
		}
	}
	// --- decoding
	for _, form := range []struct {
		words []string
		enc   bool
	}{{keepWords, false}, {enc, true}} {
		in, inSame := spareStrings(c.Case.apply(form.words))
		dm, err := mk.DecodeMnemonic(in)
		if err != nil {
			return fmt.Errorf("DecodeMnemonic: %w", err)
		}
		if !inSame() {
			return fmt.Errorf("DecodeMnemonic modifies the words")
		}
		keepIn := append([]string{}, in...)
		scribbleStrings(in)
		wrong, wrongSame := spareBytes([]byte(c.Wrong))
		for i := 0; i < 3; i++ {
			dm.DecryptSeed(wrong)
			if !wrongSame() {
				return fmt.Errorf("DecryptSeed modifies a wrong password")
			}
			s, err := dm.DecryptSeed(pw)
			if err != nil || !pwSame() {
				return fmt.Errorf("DecryptSeed (round %d): %v, password intact %v", i, err, pwSame())
			}
			if err := seedEq(s, k.Seed); err != nil {
				return fmt.Errorf("round %d: %w", i, err)
			}
			smash(s.Int())
			scribble(s.Bytes())
			if err := seedEq(s, k.Seed); err != nil {
				return fmt.Errorf("overwriting results of a decoded seed changes it: %w", err)
			}
			if !form.enc {
				s2, err := dm.Seed()
				if err != nil {
					return err
				}
				if err := seedEq(s2, k.Seed); err != nil {
					return fmt.Errorf("round %d: Seed: %w", i, err)
				}
				smash(s2.Int())
				if err := seedEq(s2, k.Seed); err != nil {
					return err
				}
			}
			if dm.CreationOffset() != k.At.Offset || dm.Encrypted() != form.enc {
				return fmt.Errorf("decoded phrase changed")
			}
			// encode again from the decoded seed
			w, err := mk.EncodeMnemonicPlaintext(s, dm.CreationOffset())
			if err != nil || !eqWords(w, keepWords) {
				return fmt.Errorf("round %d: phrase of the decoded seed %q (%v), want %q", i, phrase(w), err, phrase(keepWords))
			}
			scribbleStrings(w)
			if err := seedEq(s, k.Seed); err != nil {
				return fmt.Errorf("EncodeMnemonicPlaintext modifies the seed: %w", err)
			}
		}
		// recovery
		in, inSame = spareStrings(keepIn)
		o := k.Opts()
		m2, err := mk.RecoverEncrypted(in, pw, o)
		if err != nil || !inSame() || !pwSame() {
			return fmt.Errorf("RecoverEncrypted: %v, words intact %v, password intact %v", err, inSame(), pwSame())
		}
		if o != nil && fmt.Sprintf("%+v", *o) != fmt.Sprintf("%+v", *k.Opts()) {
			return fmt.Errorf("RecoverEncrypted modifies the options: %+v", *o)
		}
		if !form.enc {
			o = k.Opts()
			m3, err := mk.RecoverPlaintext(in, o)
			if err != nil || !inSame() {
				return fmt.Errorf("RecoverPlaintext: %v, words intact %v", err, inSame())
			}
			if o != nil && fmt.Sprintf("%+v", *o) != fmt.Sprintf("%+v", *k.Opts()) {
				return fmt.Errorf("RecoverPlaintext modifies the options: %+v", *o)
			}
			scribbleStrings(in)
			if err := unchanged(m3, "recovered, words overwritten"); err != nil {
				return err
			}
		}
		scribbleStrings(in)
		if err := unchanged(m2, "recovered, words overwritten"); err != nil {
			return err
		}
	}
	// overwrite the password and the seed integer at last
	scribble(pw)
	if err := unchanged(m, "password overwritten"); err != nil {
		return err
	}
	// --- codec
	v := new(big.Int).SetBytes(k.Seed[:])
	want := new(big.Int).Set(v)
	idx, err := mnemonic.EncodeToIndices(v, 128+c.Size)
	if err != nil {
		return fmt.Errorf("EncodeToIndices: %w", err)
	}
	if v.Cmp(want) != 0 {
		return fmt.Errorf("EncodeToIndices modifies the integer it is given: %x, was %x", v, want)
	}
	snapIdx := append([]uint16{}, idx...)
	cw, err := mnemonic.EncodeToWords(idx)
	if err != nil || fmt.Sprint(idx) != fmt.Sprint(snapIdx) {
		return fmt.Errorf("EncodeToWords: %v, or modifies the indices", err)
	}
	cwIn, cwSame := spareStrings(c.Case.apply(cw))
	back, err := mnemonic.DecodeWords(cwIn)
	if err != nil || !cwSame() {
		return fmt.Errorf("DecodeWords: %v, or modifies the words", err)
	}
	backSnap := append([]uint16{}, back...)
	x, err := mnemonic.DecodeIndices(back)
	if err != nil || fmt.Sprint(back) != fmt.Sprint(backSnap) {
		return fmt.Errorf("DecodeIndices: %v, or modifies the indices", err)
	}
	if x.Cmp(want) != 0 {
		return fmt.Errorf("codec round trip gives %x, want %x", x, want)
	}
	// results do not share memory with anything global: overwrite and repeat
	for i := range idx {
		idx[i] = 0xFFF
	}
	for i := range back {
		back[i] = 0xFFF
	}
	scribbleStrings(cw)
	smash(x)
	again, err := mnemonic.EncodeToIndices(new(big.Int).Set(want), 128+c.Size)
	if err != nil || fmt.Sprint(again) != fmt.Sprint(snapIdx) {
		return fmt.Errorf("overwriting results changes a later EncodeToIndices: %v, want %v", again, snapIdx)
	}
	cw2, err := mnemonic.EncodeToWords(again)
	if err != nil || !eqWords(cw2, ref.ToWords(toInts(again))) {
		return fmt.Errorf("overwriting results changes a later EncodeToWords: %v", cw2)
	}
	return unchanged(m, "at the end")
}

// calls that are refused leave their arguments alone, too
type c19bad struct {
	Words c05      `json:"words"`
	Key   KeyCase  `json:"key"`
	PW    BS       `json:"password"`
	TTL   int64    `json:"bad_ttl"`
	Sec   int64    `json:"unix_seconds"`
	Int   string   `json:"int_hex"`
	Size  uint     `json:"bit_size"`
	Idx   []uint16 `json:"indices"`
	Src   source   `json:"source"`
}

func checkC19Bad(r *Rec, c c19bad) error {
	list := make([]string, len(c.Words.Words))
	for i, w := range c.Words.Words {
		list[i] = string(w)
	}
	in, inSame := spareStrings(list)
	pw, pwSame := spareBytes([]byte(c.PW))
	var firstErr string
	for i := 0; i < 2; i++ {
		dm, err := mk.DecodeMnemonic(in)
		if err == nil && dm.Encrypted() {
			dm.DecryptSeed(pw)
			dm.Seed()
		}
		if err != nil {
			r.Label("refused-words")
		}
		if i == 0 {
			firstErr = fmt.Sprint(err)
		} else if firstErr != fmt.Sprint(err) {
			return fmt.Errorf("decoding the same words twice: %s, then %v", firstErr, err)
		}
		opts, snap := c.Key.Opts(), c.Key.Opts()
		mk.RecoverPlaintext(in, opts)
		mk.RecoverEncrypted(in, pw, opts)
		mnemonic.DecodeWords(in)
		if len(in) > 0 {
			mk.ParseMnemonicVersion(in[0])
		}
		if !inSame() || !pwSame() {
			return fmt.Errorf("words or password modified by a call that decodes %q", list)
		}
		if fmt.Sprintf("%+v", opts) != fmt.Sprintf("%+v", snap) {
			return fmt.Errorf("options modified by a recovery from %q: %+v, were %+v", list, opts, snap)
		}
	}
	// options and times that are refused
	seed := newSeed(c.Key.Seed)
	mkOpts := func() *mk.KeyOptions {
		o := c.Key.Opts()
		if o == nil {
			o = &mk.KeyOptions{}
		}
		o.TTL = time.Duration(c.TTL)
		return o
	}
	opts, snap := mkOpts(), mkOpts()
	_, err1 := mk.New(seed, c.Key.At.Time(), opts)
	_, err2 := mk.New(seed, time.Unix(c.Sec, 5), opts)
	_, err3 := mk.New(seed, c.Key.At.Time(), opts)
	if fmt.Sprintf("%+v", opts) != fmt.Sprintf("%+v", snap) {
		return fmt.Errorf("New (%v, %v) modifies the options: %+v, were %+v", err1, err2, opts, snap)
	}
	if fmt.Sprint(err1) != fmt.Sprint(err3) {
		return fmt.Errorf("New with the same arguments: %v, then %v", err1, err3)
	}
	if err := seedEq(seed, c.Key.Seed); err != nil {
		return fmt.Errorf("New modifies the seed: %w", err)
	}
	// phrases that cannot be made
	mk.EncodeMnemonicEncrypted(seed, c.Key.At.Offset, pw, c.Src.reader())
	mk.EncodeMnemonicEncrypted(seed, c.Key.At.Offset|1<<31, pw, c.Src.reader())
	mk.EncodeMnemonicPlaintext(seed, c.Key.At.Offset|1<<31)
	mk.EncodeMnemonicEncrypted(seed, c.Key.At.Offset, pw[:0], c.Src.reader())
	if !pwSame() {
		return fmt.Errorf("EncodeMnemonicEncrypted modifies the password")
	}
	if err := seedEq(seed, c.Key.Seed); err != nil {
		return fmt.Errorf("encoding modifies the seed: %w", err)
	}
	// integers and indices
	v, ok := new(big.Int).SetString(c.Int, 16)
	if !ok {
		return infra("bad integer")
	}
	want := new(big.Int).Set(v)
	if _, err := mk.NewSeed(mk.EraLatest, v); err != nil {
		r.Label("refused-integer")
	}
	mk.NewSeed(mk.EraLatest+1, v)
	mnemonic.EncodeToIndices(v, c.Size)
	if v.Cmp(want) != 0 {
		return fmt.Errorf("NewSeed or EncodeToIndices modifies the integer %x (%d bits): now %x", want, c.Size, v)
	}
	idx := append(append([]uint16{}, c.Idx...), 0x5555, 0x5555)
	keep := append([]uint16{}, idx...)
	mnemonic.EncodeToWords(idx[:len(c.Idx)])
	mnemonic.DecodeIndices(idx[:len(c.Idx)])
	if fmt.Sprint(idx) != fmt.Sprint(keep) {
		return fmt.Errorf("EncodeToWords or DecodeIndices modifies the indices %v: now %v", keep, idx)
	}
	return nil
}

func toInts(p []uint16) []int {
	out := make([]int, len(p))
	for i, x := range p {
		out[i] = int(x)
	}
	return out
}

// ---- C20

type c20op struct {
	Op  string `json:"op"`
	Key int    `json:"key"`
	PW  BS     `json:"pw,omitempty"`
}

type c20 struct {
	Keys    []KeyCase `json:"keys"`
	PW      BS        `json:"password"`
	Threads [][]c20op `json:"threads"`
}

type c20shared struct {
	seed  *mk.Seed
	set   *mk.Mnemonikey
	plain *mk.DecodedMnemonic
	enc   *mk.DecodedMnemonic
	words []string
	encW  []string
	opts  *mk.KeyOptions
}

var c20ops = append([]string{"new", "recover", "recover-enc", "decode", "seed", "decrypt", "decrypt-wrong", "seed-int", "encode", "encode-enc", "version", "codec", "protect", "bad-words", "generate"}, observables...)

func c20run(sh []*c20shared, k KeyCase, o c20op, pw []byte) (string, error) {
	s := sh[o.Key]
	sum := func(m *mk.Mnemonikey, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return observe(m, "full")
	}
	switch o.Op {
	case "new":
		return sum(mk.New(s.seed, k.At.Time(), s.opts))
	case "recover":
		return sum(mk.RecoverPlaintext(s.words, s.opts))
	case "recover-enc":
		return sum(mk.RecoverEncrypted(s.encW, pw, s.opts))
	case "decode":
		dm, err := mk.DecodeMnemonic(s.words)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(dm.CreationOffset(), dm.Version), nil
	case "seed":
		x, err := s.plain.Seed()
		if err != nil {
			return "", err
		}
		return hex.EncodeToString(x.Bytes()), nil
	case "decrypt":
		x, err := s.enc.DecryptSeed(pw)
		if err != nil {
			return "", err
		}
		return hex.EncodeToString(x.Bytes()), nil
	case "decrypt-wrong":
		x, err := s.enc.DecryptSeed([]byte(o.PW))
		if err != nil {
			return "error " + err.Error(), nil
		}
		return hex.EncodeToString(x.Bytes()), nil
	case "seed-int":
		return s.seed.Int().Text(16), nil
	case "encode":
		w, err := mk.EncodeMnemonicPlaintext(s.seed, k.At.Offset)
		return phrase(w), err
	case "encode-enc":
		w, err := mk.EncodeMnemonicEncrypted(s.seed, k.At.Offset, pw, &chunkReader{data: expandBytes(64, "c20", string(o.PW)), err: errSource})
		return phrase(w), err
	case "version":
		v, err := mk.ParseMnemonicVersion(s.encW[0])
		return fmt.Sprint(v, v.MnemonicSize()), err
	case "codec":
		x, err := mnemonic.DecodeWords(s.encW)
		if err != nil {
			return "", err
		}
		v, err := mnemonic.DecodeIndices(x)
		if err != nil {
			return "", err
		}
		y, err := mnemonic.EncodeToIndices(v, 12*16)
		if err != nil {
			return "", err
		}
		w, err := mnemonic.EncodeToWords(y)
		return phrase(w), err
	case "protect":
		b, err := s.set.EncodeSubkeysPGP([]byte(o.PW), true)
		if err != nil {
			return "", err
		}
		e, err := ref.ParseExport(b)
		if err != nil {
			return "", err
		}
		out := fmt.Sprint(len(e.Subs))
		for i, sk := range e.Subs {
			if i == 0 {
				p, err := sk.Decrypt([]byte(o.PW))
				if err != nil {
					return "", err
				}
				out += hex.EncodeToString(p)
			}
		}
		return out, nil
	case "bad-words":
		w := append(append([]string{}, s.words...), "zzz")
		_, err := mk.DecodeMnemonic(w)
		return fmt.Sprint(err), nil
	case "generate":
		x, err := mk.GenerateSeed(&chunkReader{data: expandBytes(16, "gen", string(o.PW)), err: errSource})
		if err != nil {
			return "", err
		}
		return hex.EncodeToString(x.Bytes()), nil
	}
	return observe(s.set, o.Op)
}

func checkC20(r *Rec, c c20) error {
	build := func() ([]*c20shared, error) {
		var sh []*c20shared
		for _, k := range c.Keys {
			s := &c20shared{seed: newSeed(k.Seed), opts: k.Opts()}
			var err error
			if s.set, err = mk.New(s.seed, k.At.Time(), s.opts); err != nil {
				return nil, err
			}
			s.words = ref.PlainPhrase(k.Seed, k.At.Offset)
			s.encW = ref.EncPhrase(k.Seed, k.At.Offset, []byte(c.PW), 0x1234)
			if s.plain, err = mk.DecodeMnemonic(s.words); err != nil {
				return nil, err
			}
			if s.enc, err = mk.DecodeMnemonic(s.encW); err != nil {
				return nil, err
			}
			sh = append(sh, s)
		}
		return sh, nil
	}
	sh, err := build()
	if err != nil {
		return err
	}
	type res struct {
		s   string
		err error
	}
	results := make([][]res, len(c.Threads))
	start := make(chan struct{})
	var wg sync.WaitGroup
	pw := []byte(c.PW)
	for i, ops := range c.Threads {
		results[i] = make([]res, len(ops))
		wg.Add(1)
		go func(i int, ops []c20op) {
			defer wg.Done()
			<-start
			for j, o := range ops {
				err := evalSafe(func(*Rec, int) error {
					s, err := c20run(sh, c.Keys[o.Key], o, pw)
					results[i][j].s = s
					return err
				}, &Rec{}, 0)
				results[i][j].err = err
			}
		}(i, ops)
	}
	close(start)
	wg.Wait()
	// sequential run on fresh objects
	sh2, err := build()
	if err != nil {
		return err
	}
	for i, ops := range c.Threads {
		for j, o := range ops {
			s, err := c20run(sh2, c.Keys[o.Key], o, pw)
			got := results[i][j]
			if fmt.Sprint(err) != fmt.Sprint(got.err) || s != got.s {
				return fmt.Errorf("thread %d step %d: %s gives %.60q (%v) concurrently, %.60q (%v) alone", i, j, o.Op, got.s, got.err, s, err)
			}
		}
	}
	return nil
}

func genC20(t *rapid.T) c20 {
	c := c20{PW: genPassword(t, "pw")}
	for n := rapid.IntRange(1, 2).Draw(t, "keys"); n > 0; n-- {
		c.Keys = append(c.Keys, genKey(t))
	}
	protect, withProtect := 0, pick(t, "withprotect", 24, 1) == 1
	threads := rapid.IntRange(2, 8).Draw(t, "threads")
	focus := ""
	if rapid.Bool().Draw(t, "focused") {
		focus = rapid.SampledFrom(c20ops).Draw(t, "focus")
	}
	for i := 0; i < threads; i++ {
		var ops []c20op
		for n := rapid.IntRange(2, 8).Draw(t, "ops"); n > 0; n-- {
			o := c20op{Key: rapid.IntRange(0, len(c.Keys)-1).Draw(t, "key"), Op: rapid.SampledFrom(c20ops).Draw(t, "op")}
			if focus != "" && pick(t, "usefocus", 1, 1) == 0 {
				o.Op = focus
			}
			if o.Op == "protect" {
				if !withProtect || protect >= 3 {
					o.Op = "decrypt"
				} else {
					protect++
				}
			}
			switch o.Op {
			case "protect": // long, because hashing 64 MiB in small writes is slow under the race detector
				o.PW = BS(expandBytes(4000, "c20pw", rapid.Uint8().Draw(t, "opw")))
			case "decrypt-wrong", "encode-enc", "generate":
				o.PW = BS(rapid.StringMatching(`[a-z]{1,12}`).Draw(t, "opw"))
			}
			ops = append(ops, o)
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

var _ = io.EOF

func init() {
	register(&Property{ID: "C14", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c14]{Name: "one-index", Rule: "random keys and a second index for one subkey type (adjacent, byte-swapped, same low or high byte, random); trivial if unchanged or not selected",
			Gen: func(t *rapid.T) c14 {
				c := c14{Key: genKey(t), Kind: rapid.SampledFrom(ref.SubkeyKinds).Draw(t, "kind")}
				c.Key.NilOpts = false
				if pick(t, "all", 1, 2) == 1 {
					c.Key.Subkeys = nil
				}
				from := c.Key.index(c.Kind)
				switch pick(t, "to", 3, 2, 2, 2, 2, 1) {
				case 0:
					c.To = genIndex(t, "to")
				case 1:
					c.To = from + 1
				case 2:
					c.To = from<<8 | from>>8
				case 3:
					c.To = from + uint16(rapid.IntRange(1, 255).Draw(t, "hi"))<<8
				case 4:
					c.To = from ^ 1<<rapid.IntRange(0, 15).Draw(t, "bit")
				case 5: // the index of another type
					c.To = rapid.SampledFrom([]uint16{c.Key.Enc, c.Key.Auth, c.Key.Sig}).Draw(t, "oth")
				}
				return c
			}, Check: checkC14, Quick: 16000, Thorough: 500000},
		&Sub[c14all]{Name: "all-distinct", Rule: "one seed, all 65536 indices x 3 types and the master: fingerprints (and, for 1 in 32, private keys) pairwise different; enumerated", Workers: 1,
			Enum: func(th bool, yield func(c14all) bool) {
				n := 1
				if th {
					n = 30
				}
				for i := 0; i < n; i++ {
					if !yield(c14all{seedFrom("c14", runSeed(), i), uint32(hash64("c14", runSeed(), i) % (1 << 31)), 1}) {
						return
					}
				}
			}, Check: checkC14All},
	}})
	register(&Property{ID: "C15", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c15]{Name: "user-id", Rule: "names and emails of any bytes, lengths around 191, 192, 8383, 8384, 65535; a second user ID for the independence; trivial if empty",
			Gen: func(t *rapid.T) c15 {
				c := c15{Key: genKeyLong(t)}
				c.Key.NilOpts = false
				c.Name2, c.Email2 = genText(t, "name2", false), genText(t, "email2", false)
				return c
			}, Check: checkC15, Quick: 16000, Thorough: 500000},
	}})
	register(&Property{ID: "C16", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c16]{Name: "times", Rule: "instants inside the epoch, within seconds and hours of both ends, shifted by powers of two, and over years 1-9999, any zone and nanosecond; trivial if in the unspecified last fraction of a second",
			Gen: genC16, Check: checkC16, Quick: 160000, Thorough: 5000000},
		&Sub[c16off]{Name: "offsets", Rule: "offsets over all of uint32; all count",
			Gen: func(t *rapid.T) c16off {
				c := c16off{Seed: genSeed(t), PW: genPassword(t, "pw")}
				switch pick(t, "kind", 1, 2) {
				case 0:
					c.Offset = genOffset(t)
				case 1:
					c.Offset = uint32(rapid.SampledFrom([]uint64{1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2, 1<<31 + uniformN(t, "o", 1<<31)}).Draw(t, "off"))
				}
				return c
			}, Check: checkC16Off, Quick: 80000, Thorough: 200000},
	}})
	register(&Property{ID: "C17", Subs: []subCheck{
		&Sub[c17]{Name: "sources", Rule: "sources of 0-70 bytes delivered in arbitrary chunks, then failing or ending; seeds drawn until exhaustion; trivial if shorter than one seed",
			Gen: func(t *rapid.T) c17 {
				n := rapid.OneOf(rapid.IntRange(0, 70), rapid.SampledFrom([]int{0, 1, 15, 16, 17, 31, 32, 33, 48})).Draw(t, "n")
				c := c17{Src: genSource(t, n), Off: genOffset(t)}
				c.Src.EOF = rapid.Bool().Draw(t, "eof")
				if n > 0 && rapid.Bool().Draw(t, "lead") {
					z := rapid.IntRange(0, n).Draw(t, "zeros")
					for i := 0; i < z && i < 16; i++ {
						c.Src.Data[i] = 0
					}
				}
				return c
			},
			Check: func(r *Rec, c c17) error {
				if len(c.Src.Data) < 16 {
					r.Label("short")
				}
				return checkC17(r, c)
			}, Quick: 400000, Thorough: 10000000},
		&Sub[c17int]{Name: "integers", Rule: "integers of 0-300 bits of both signs around powers of two, eras around 0; all count",
			Gen: func(t *rapid.T) c17int {
				n := rapid.OneOf(rapid.IntRange(0, 300), rapid.SampledFrom([]int{0, 1, 8, 120, 127, 128, 129, 130, 136, 256})).Draw(t, "bits")
				v := new(big.Int).SetBytes(uniform(t, "v", 40))
				v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1)))
				if useDict(t, "int") {
					b := make([]byte, (n+7)/8+1)
					v.FillBytes(b)
					dictBytes(t, "intlit", b)
					v.SetBytes(b)
				}
				switch rapid.IntRange(0, 3).Draw(t, "shape") {
				case 1:
					v.Lsh(big.NewInt(1), uint(n))
				case 2:
					v.Sub(v.Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
				}
				if pick(t, "neg", 3, 1) == 1 {
					v.Neg(v)
				}
				c := c17int{Int: v.Text(16)}
				if pick(t, "era", 4, 1) == 1 {
					c.Era = rapid.SampledFrom([]int{-1, 1, 2, 255, 256, -256, 1 << 31, 1 << 32, -1 << 62}).Draw(t, "eraval")
					if useDict(t, "era") {
						c.Era = int(dictNum(t, "eralit", 1<<62))
					}
				}
				return c
			}, Check: checkC17Int, Quick: 400000, Thorough: 10000000},
	}})
	register(&Property{ID: "C18", Subs: []subCheck{
		&Sub[c18]{Name: "payloads", Rule: "payloads of both signs and sizes of 0-600 bits, half of them fitting; all count",
			Gen: func(t *rapid.T) c18 {
				size := rapid.OneOf(rapid.IntRange(0, 600), rapid.SampledFrom([]int{0, 1, 11, 12, 13, 23, 24, 25, 64, 128, 168, 192})).Draw(t, "size")
				n := size
				switch pick(t, "fit", 4, 2, 2, 1) {
				case 1:
					n = rapid.IntRange(0, size).Draw(t, "n")
				case 2:
					n = size + rapid.IntRange(0, 2).Draw(t, "over")
				case 3:
					n = rapid.IntRange(0, 700).Draw(t, "n")
				}
				if pick(t, "big", 60, 1) == 1 {
					size = rapid.SampledFrom([]int{1023, 1024, 1025, 1200, 2048, 3060, 3072, 3073, 4092, 4096, 4100, 6000}).Draw(t, "bigsize")
					n = size + rapid.IntRange(-30, 2).Draw(t, "bign")
				}
				if useDict(t, "size") {
					size = dictLen(t, "sizelit", 6000)
					n = max(0, size+rapid.IntRange(-2, 1).Draw(t, "sized"))
				}
				v := new(big.Int).SetBytes(expandBytes(n/8+1, "v", uniform(t, "v", 16)))
				v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1)))
				switch rapid.IntRange(0, 4).Draw(t, "shape") {
				case 1:
					v.Lsh(big.NewInt(1), uint(max(0, n-1)))
				case 2:
					v.Sub(v.Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
				case 3: // trailing zero words
					k := uint(12 * rapid.IntRange(0, 20).Draw(t, "tz"))
					v.Lsh(v.Rsh(v, k), k)
				}
				if useDict(t, "payload") {
					b := make([]byte, v.BitLen()/8+1)
					v.FillBytes(b)
					dictBytes(t, "payloadlit", b)
					v.SetBytes(b)
				}
				if pick(t, "neg", 12, 1) == 1 {
					v.Neg(v)
				}
				return c18{v.Text(16), uint(size)}
			}, Check: checkC18, Quick: 400000, Thorough: 10000000},
		&Sub[c18]{Name: "huge", Rule: "payloads of 10000 to 800000 bits, ones with a hole; enumerated",
			Enum: func(_ bool, yield func(c18) bool) {
				for _, n := range []int{10000, 12 * 1024, 12 * 4096, 65534, 65535, 65536, 65537, 12*32768 - 1, 12 * 65535, 12*65535 + 1, 12 * 65536, 12*65536 + 1, 800000} {
					v := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
					v.SetBit(v, n/3, 0)
					if !yield(c18{v.Text(16), uint(n)}) {
						return
					}
				}
			}, Check: checkC18},
		&Sub[c18idx]{Name: "indices", Rule: "index lists of 0-60, mostly below 4096; all count",
			Gen: func(t *rapid.T) c18idx {
				lo := rapid.OneOf(rapid.Uint16Range(0, 4095), rapid.Uint16Range(0, 4095), rapid.SampledFrom([]uint16{0, 1, 4095}))
				c := c18idx{Indices: rapid.SliceOfN(lo, 0, 60).Draw(t, "idx")}
				if pick(t, "longlist", 400, 1) == 1 {
					for n := rapid.SampledFrom([]int{128, 255, 256, 257, 1000, 4096, 5000}).Draw(t, "longn"); len(c.Indices) < n; {
						c.Indices = append(c.Indices, uint16(hash64("long", n, len(c.Indices))%4096))
					}
				}
				if useDict(t, "idx") {
					c.Indices = append(c.Indices, uint16(dictNum(t, "idxlit", 65535)))
				}
				if len(c.Indices) > 0 && pick(t, "bad", 3, 1) == 1 {
					c.Indices[rapid.IntRange(0, len(c.Indices)-1).Draw(t, "pos")] = rapid.OneOf(rapid.Uint16Range(4096, 65535), rapid.SampledFrom([]uint16{4096, 4097, 8191, 8192, 65535})).Draw(t, "v")
				}
				return c
			}, Check: checkC18Idx, Quick: 300000, Thorough: 5000000},
		&Sub[c18idx]{Name: "every-index", Rule: "all 65536 single indices, enumerated",
			Enum: func(_ bool, yield func(c18idx) bool) {
				for i := 0; i < 65536; i++ {
					if !yield(c18idx{[]uint16{uint16(i)}}) {
						return
					}
				}
			}, Check: checkC18Idx},
		&Sub[c05]{Name: "words", Rule: "word lists with letter-case changes, foreign words and damage; trivial if not judged",
			Gen: genC05, Check: checkC18Words, Quick: 200000, Thorough: 5000000},
		&Sub[c05]{Name: "every-word", Rule: "all 4096 words in lower, upper and title case, with a letter appended, enumerated",
			Enum: func(_ bool, yield func(c05) bool) {
				for _, w := range ref.Words {
					for _, x := range []string{w, strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:], w + "x", w[1:], " " + w} {
						if !yield(c05{[]BS{BS(x)}}) {
							return
						}
					}
				}
			}, Check: checkC18Words},
	}})
	register(&Property{ID: "C19", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c19]{Name: "arguments-and-results", Rule: "random keys, passwords, phrases; every argument (with spare capacity) compared after each call and then overwritten, every result overwritten, all observations repeated; all count",
			Gen: func(t *rapid.T) c19 {
				c := c19{Key: genKey(t), PW: genPassword(t, "pw"), Src: genSource(t, 64), Case: genCaseMut(t), Size: uint(rapid.IntRange(0, 40).Draw(t, "size")), KeyPW: pick(t, "kp", 39, 1) == 1, Style: rapid.Bool().Draw(t, "style")}
				c.Wrong = otherPassword(t, "wrong", c.PW)
				return c
			}, Check: checkC19, Quick: 4000, Thorough: 150000},
		&Sub[c19bad]{Name: "refused-calls", Rule: "calls of every function with arguments most of which are refused: word lists as in C05, lifetimes, times, integers, indices, sources; arguments with spare capacity compared after each call; all count",
			Gen: func(t *rapid.T) c19bad {
				c := c19bad{Words: genC05(t), Key: genKey(t), PW: genPassword(t, "pw"), TTL: genAnyTTL(t), Src: genSource(t, rapid.IntRange(0, 3).Draw(t, "n"))}
				c.Sec = rapid.OneOf(rapid.Int64Range(-1<<40, 1<<40), rapid.SampledFrom([]int64{0, ref.EpochStart - 1, ref.EpochStart + 1<<31})).Draw(t, "sec")
				v := new(big.Int).SetBytes(uniform(t, "int", rapid.IntRange(0, 40).Draw(t, "bytes")))
				if rapid.Bool().Draw(t, "neg") {
					v.Neg(v)
				}
				c.Int = v.Text(16)
				c.Size = uint(rapid.IntRange(0, 330).Draw(t, "size"))
				c.Idx = rapid.SliceOfN(rapid.OneOf(rapid.Uint16Range(0, 4095), rapid.Uint16()), 0, 20).Draw(t, "idx")
				return c
			}, Check: checkC19Bad, Quick: 8000, Thorough: 300000},
	}})
	register(&Property{ID: "C20", Assumptions: []string{fastNote, "schedules are those produced by the Go runtime on 8 cores; the race detector reports unsynchronised accesses whatever their outcome"}, Subs: []subCheck{
		&Sub[c20]{Name: "mixes", Rule: "2-8 goroutines with 2-8 operations each on 1-2 shared seeds, phrases and key sets, race detector on, results compared with a sequential run on fresh objects; all count", Workers: 2,
			Gen: genC20, Check: checkC20, Quick: 700, Thorough: 20000},
	}})
}
