//go:build pgpapi

package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	_ "embed"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/kklash/mnemonikey/pgp"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// Blob is a byte string of any length that is written compactly: a literal and a pseudo-random tail.
type Blob struct {
	Lit BS     `json:"lit,omitempty"`
	N   int    `json:"tail,omitempty"`
	Gen uint16 `json:"tail_gen,omitempty"`
}

func (b Blob) Bytes() []byte {
	out := []byte(b.Lit)
	if b.N > 0 {
		tail := make([]byte, b.N)
		x := uint32(b.Gen)*2654435761 + 1
		for i := range tail {
			x = x*1664525 + 1013904223
			tail[i] = byte(x >> 24)
		}
		out = append(out, tail...)
	}
	return out
}

func genBlob(t *rapid.T, label string, max int) Blob {
	var b Blob
	kind := pick(t, label+"kind", 4, 4, 3)
	if useDict(t, label) {
		kind = 3
	}
	switch kind {
	case 3:
		if rapid.Bool().Draw(t, label+"dictlen") {
			b.N, b.Gen = dictLen(t, label, max), rapid.Uint16().Draw(t, label+"gen")
		} else {
			b.Lit = BS(dictStr(t, label))
			if len(b.Lit) > max {
				b.Lit = b.Lit[:max]
			}
		}
	case 0:
		b.Lit = BS(rapid.SliceOfN(rapid.Byte(), 0, min(60, max)).Draw(t, label))
	case 1:
		b.N = rapid.SampledFrom(lenEdges).Draw(t, label+"edge") + rapid.IntRange(-3, 3).Draw(t, label+"d")
		b.Gen = rapid.Uint16().Draw(t, label+"gen")
	default:
		b.N = rapid.IntRange(0, max).Draw(t, label+"n")
		b.Gen = rapid.Uint16().Draw(t, label+"gen")
	}
	if b.N < 0 {
		b.N = 0
	}
	if b.N > max {
		b.N = max
	}
	return b
}

// Hex32 is 32 bytes.
type Hex32 [32]byte

func (s Hex32) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(s[:])), nil }
func (s *Hex32) UnmarshalText(p []byte) error {
	b, err := hex.DecodeString(string(p))
	if err != nil || len(b) != 32 {
		return fmt.Errorf("bad key seed %q", p)
	}
	copy(s[:], b)
	return nil
}

func genHex32(t *rapid.T, label string) Hex32 {
	var s Hex32
	copy(s[:], uniform(t, label, 32))
	if useDict(t, label) {
		dictBytes(t, label+"lit", s[:])
		return s
	}
	switch pick(t, label+"kind", 5, 2, 2, 1, 1) {
	case 1: // leading zero bytes
		for i := 0; i < rapid.IntRange(1, 32).Draw(t, label+"z"); i++ {
			s[i] = 0
		}
	case 2: // trailing zero bytes: the X25519 integer is stored reversed
		for i := 0; i < rapid.IntRange(1, 31).Draw(t, label+"z"); i++ {
			s[31-i] = 0
		}
	case 3:
		for i := range s {
			s[i] = 0xff
		}
	case 4:
		copy(s[:], rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, label+"bytes"))
	}
	return s
}

// unixIn is a whole second that OpenPGP can express, in a zone and with a fraction.
type unixIn struct {
	Unix uint32 `json:"unix"`
	Zone int    `json:"zone,omitempty"`
	Nano int    `json:"nano,omitempty"`
}

func (u unixIn) time() time.Time {
	return time.Unix(int64(u.Unix), int64(u.Nano)).In(time.FixedZone("", u.Zone))
}

func genUnix(t *rapid.T, label string) uint32 {
	if useDict(t, label) {
		return uint32(dictUnix(t, label+"lit", 0, 1<<32-1))
	}
	switch pick(t, label+"kind", 4, 3, 2) {
	case 0:
		return uint32(ref.EpochStart + uniformN(t, label, 1<<31))
	case 1:
		return rapid.SampledFrom([]uint32{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2, uint32(ref.EpochStart), uint32(ref.EpochStart) - 1}).Draw(t, label)
	}
	return uint32(uniformN(t, label, 1<<32))
}

func genUnixIn(t *rapid.T, label string) unixIn {
	u := unixIn{Unix: genUnix(t, label), Zone: genZone(t)}
	if rapid.Bool().Draw(t, label+"frac") {
		u.Nano = rapid.SampledFrom([]int{1, 499999999, 500000000, 999999999}).Draw(t, label+"nano")
	}
	return u
}

// ---- C31: encodings

type c31packet struct {
	Tag     byte `json:"tag"`
	Payload Blob `json:"payload"`
}

func checkC31Packet(r *Rec, c c31packet) error {
	in := c.Payload.Bytes()
	keep := append([]byte(nil), in...)
	out := pgp.EncodePacket(pgp.PacketTag(c.Tag), in)
	want := append(ref.PacketHeader(int(c.Tag), len(in)), keep...)
	if !bytes.Equal(in, keep) {
		return fmt.Errorf("EncodePacket changed its argument")
	}
	for i := range in {
		in[i] ^= 0xA5
	}
	if !bytes.Equal(out, want) {
		return fmt.Errorf("packet with tag %d and %d bytes: %s", c.Tag, len(in), diff(string(want), string(out)))
	}
	pk, err := ref.ParsePackets(out)
	if err != nil {
		return err
	}
	if len(pk) != 1 || pk[0].Tag != int(c.Tag) || !bytes.Equal(pk[0].Body, keep) {
		return fmt.Errorf("packet with tag %d and %d bytes parses as %d packets", c.Tag, len(in), len(pk))
	}
	if len(in) > 191 {
		r.Label("long")
	} else {
		r.Label("short")
	}
	return nil
}

type c31sub struct {
	Type byte `json:"type"`
	Body Blob `json:"body"`
}

func checkC31Sub(r *Rec, c c31sub) error {
	in := c.Body.Bytes()
	keep := append([]byte(nil), in...)
	out := (&pgp.Subpacket{Type: pgp.SubpacketType(c.Type), Body: in}).Encode()
	if !bytes.Equal(in, keep) {
		return fmt.Errorf("Subpacket.Encode changed the body")
	}
	for i := range in {
		in[i] ^= 0xA5
	}
	typ, body, err := ref.ParseSub(out)
	if err != nil {
		return fmt.Errorf("sub-packet of %d bytes: %w", len(in), err)
	}
	if typ != c.Type || !bytes.Equal(body, keep) {
		return fmt.Errorf("sub-packet type %d of %d bytes parses as type %d: %s", c.Type, len(in), typ, diff(string(keep), string(body)))
	}
	return nil
}

type c31mpi struct {
	Bytes Blob `json:"bytes"`
	Shift uint `json:"shift,omitempty"`
}

func checkC31MPI(r *Rec, c c31mpi) error {
	n := new(big.Int).SetBytes(c.Bytes.Bytes())
	n.Rsh(n, c.Shift)
	if n.BitLen() > 65535 {
		n.SetInt64(1)
		r.Trivial()
	}
	keep := new(big.Int).Set(n)
	out := pgp.EncodeMPI(n)
	if want := ref.MPI(keep.Bytes()); !bytes.Equal(out, want) {
		return fmt.Errorf("integer of %d bits: %s", keep.BitLen(), diff(string(want), string(out)))
	}
	if n.Cmp(keep) != 0 {
		return fmt.Errorf("EncodeMPI changed its argument")
	}
	for i := range out {
		out[i] ^= 0xff
	}
	if n.Cmp(keep) != 0 {
		return fmt.Errorf("the encoding shares memory with the integer")
	}
	if n.BitLen()%8 == 0 {
		r.Label("whole-bytes")
	}
	return nil
}

type c31key struct {
	Kind   string   `json:"kind"`
	Seed   Hex32    `json:"seed"`
	At     unixIn   `json:"at"`
	TTL    uint32   `json:"ttl,omitempty"`
	KDF    *[2]byte `json:"kdf,omitempty"`
	PW     BS       `json:"password,omitempty"`
	Length int      `json:"seed_length"`
}

// anyKey is what the three key types have in common.
type anyKey struct {
	priv, pub []byte
	creation  time.Time
	expiry    time.Time
	public    func() []byte
	private   func([]byte) ([]byte, error)
	fp        func() []byte
	master    *pgp.ED25519MasterKey
	enc       *pgp.Curve25519Subkey
	sub       *pgp.ED25519Subkey
}

func (k *anyKey) any() any {
	switch {
	case k.master != nil:
		return k.master
	case k.enc != nil:
		return k.enc
	}
	return k.sub
}

type v5 interface{ FingerprintV5() []byte }

// findV5 looks for the 32-byte fingerprint in the key or, as it is not part of the public methods of
// every key, in what the key consists of. It gives nil if there is none.
func findV5(v reflect.Value, depth int) v5 {
	if !v.IsValid() || depth > 4 {
		return nil
	}
	if v.CanInterface() {
		if f, ok := v.Interface().(v5); ok && !(v.Kind() == reflect.Pointer && v.IsNil()) {
			return f
		}
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return findV5(v.Elem(), depth+1)
	case reflect.Struct:
		if !v.CanAddr() {
			return nil
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if k := f.Kind(); k != reflect.Struct && k != reflect.Pointer {
				continue
			}
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			if f.Kind() == reflect.Struct {
				f = f.Addr()
			}
			if x := findV5(f, depth+1); x != nil {
				return x
			}
		}
	}
	return nil
}

func makeKey(kind string, seed []byte, creation, expiry time.Time, kdf *[2]byte) (*anyKey, error) {
	switch kind {
	case ref.Master:
		k, err := pgp.NewED25519MasterKey(seed, creation, expiry)
		if err != nil || k == nil {
			if k != nil {
				return nil, fmt.Errorf("a key and the error %v", err)
			}
			return nil, err
		}
		return &anyKey{k.Private, k.Public, k.Creation, k.Expiry, k.EncodePublicPacket, k.EncodePrivatePacket, k.FingerprintV4, k, nil, nil}, nil
	case ref.Encryption:
		var p *pgp.KeyDerivationParameters
		if kdf != nil {
			p = &pgp.KeyDerivationParameters{HashFunction: pgp.HashFuncID(kdf[0]), CipherAlgorithm: pgp.CipherAlgoID(kdf[1])}
		}
		k, err := pgp.NewCurve25519Subkey(seed, creation, expiry, p)
		if err != nil || k == nil {
			return nil, err
		}
		return &anyKey{k.Private, k.Public, k.Creation, k.Expiry, k.EncodePublicSubkeyPacket, k.EncodePrivatePacket, k.FingerprintV4, nil, k, nil}, nil
	}
	k, err := pgp.NewED25519Subkey(seed, creation, expiry)
	if err != nil || k == nil {
		return nil, err
	}
	return &anyKey{k.Private, k.Public, k.Creation, k.Expiry, k.EncodePublicSubkeyPacket, k.EncodePrivatePacket, k.FingerprintV4, nil, nil, k}, nil
}

func checkC31Key(r *Rec, c c31key) error {
	if c.Length != 32 {
		r.Label("wrong-length")
		seed := append(append([]byte(nil), c.Seed[:]...), c.Seed[:]...)[:c.Length]
		k, err := makeKey(c.Kind, seed, c.At.time(), time.Time{}, c.KDF)
		if err == nil || k != nil {
			return fmt.Errorf("%s key from a seed of %d bytes is accepted", c.Kind, c.Length)
		}
		return nil
	}
	r.Label(c.Kind)
	var expiry time.Time
	if c.TTL != 0 {
		expiry = c.At.time().Add(time.Duration(c.TTL) * time.Second)
	}
	kdf := []byte{8, 7}
	if c.KDF != nil {
		kdf = c.KDF[:]
	}
	seed := append([]byte(nil), c.Seed[:]...)
	k, err := makeKey(c.Kind, seed, c.At.time(), expiry, c.KDF)
	if err != nil || k == nil {
		return fmt.Errorf("%s key: %v", c.Kind, err)
	}
	if !bytes.Equal(seed, c.Seed[:]) {
		return fmt.Errorf("the constructor changed the seed")
	}
	for i := range seed {
		seed[i] ^= 0xff
	}
	want := ref.FromSeed(c.Seed[:], c.Kind, c.At.Unix, kdf)
	if !bytes.Equal(k.pub, want.Public) {
		return fmt.Errorf("%s public key %x, want %x", c.Kind, k.pub, want.Public)
	}
	if want.Sign != nil && !bytes.Equal(k.priv, want.Sign) {
		return fmt.Errorf("%s private key %x, want %x", c.Kind, k.priv, []byte(want.Sign))
	}
	if !k.creation.Equal(c.At.time()) || !k.expiry.Equal(expiry) || k.expiry.IsZero() != expiry.IsZero() {
		return fmt.Errorf("%s key reports creation %v expiry %v, want %v, %v", c.Kind, k.creation, k.expiry, c.At.time(), expiry)
	}
	tag, sec := 14, ref.TagSecSub
	if c.Kind == ref.Master {
		tag, sec = 6, ref.TagSecKey
	}
	for round := 0; round < 2; round++ {
		fp := k.fp()
		if !bytes.Equal(fp, want.FP) {
			return fmt.Errorf("%s fingerprint %x, want %x", c.Kind, fp, want.FP)
		}
		if long := findV5(reflect.ValueOf(k.any()), 0); long != nil {
			h := sha256.New()
			h.Write(append([]byte{0x9a, 0, 0, byte(len(want.Body) >> 8), byte(len(want.Body))}, want.Body...))
			if got := long.FingerprintV5(); !bytes.Equal(got, h.Sum(nil)) {
				return fmt.Errorf("%s 32-byte fingerprint %x, want %x", c.Kind, got, h.Sum(nil))
			}
		}
		pub := k.public()
		if w := append(ref.PacketHeader(tag, len(want.Body)), want.Body...); !bytes.Equal(pub, w) {
			return fmt.Errorf("%s public packet: %s", c.Kind, diff(string(w), string(pub)))
		}
		prv, err := k.private(nil)
		if err != nil {
			return err
		}
		body := append(append([]byte(nil), want.Body...), 0)
		mpi := ref.MPI(want.Private)
		var sum uint16
		for _, b := range mpi {
			sum += uint16(b)
		}
		body = append(append(body, mpi...), byte(sum>>8), byte(sum))
		if w := append(ref.PacketHeader(sec, len(body)), body...); !bytes.Equal(prv, w) {
			return fmt.Errorf("%s private packet: %s", c.Kind, diff(string(w), string(prv)))
		}
		if c.Kind == ref.Master {
			stub := k.master.EncodePrivateDummyPacket()
			body := append(append([]byte(nil), want.Body...), 254)
			pk, err := ref.ParsePackets(stub)
			if err != nil {
				return err
			}
			if len(pk) != 1 || pk[0].Tag != sec || !bytes.HasPrefix(pk[0].Body, body) || !bytes.HasSuffix(stub, []byte("GNU\x01")) {
				return fmt.Errorf("master key stub %x", stub)
			}
			s, err := ref.ParseSec(pk[0])
			if err != nil {
				return err
			}
			if !s.Stub {
				return fmt.Errorf("master key stub is not a stub")
			}
		}
		if c.PW != "" {
			r.Label("protected")
			enc, err := k.private([]byte(c.PW))
			if err != nil {
				return err
			}
			pk, err := ref.ParsePackets(enc)
			if err != nil {
				return err
			}
			if len(pk) != 1 || pk[0].Tag != sec {
				return fmt.Errorf("protected %s key is not one packet with tag %d", c.Kind, sec)
			}
			s, err := ref.ParseSec(pk[0])
			if err != nil {
				return err
			}
			val, err := s.Decrypt([]byte(c.PW))
			if err != nil {
				return fmt.Errorf("protected %s key: %w", c.Kind, err)
			}
			if !bytes.Equal(ref.MPI(val), mpi) {
				return fmt.Errorf("protected %s key opens to %x", c.Kind, val)
			}
			break
		}
		// what was returned belongs to the caller
		for _, b := range [][]byte{fp, pub, prv} {
			for i := range b {
				b[i] ^= 0x5a
			}
		}
	}
	return nil
}

type c31s2k struct {
	Plain Blob `json:"plain"`
	PW    BS   `json:"password"`
	Other BS   `json:"other"`
	Hash  byte `json:"hash"`
}

func checkC31S2K(r *Rec, c c31s2k) error {
	plain, pw := c.Plain.Bytes(), []byte(c.PW)
	keepP, keepW := append([]byte(nil), plain...), append([]byte(nil), pw...)
	out, err := pgp.EncryptS2K(pgp.HashFuncID(c.Hash), plain, pw)
	if !bytes.Equal(plain, keepP) || !bytes.Equal(pw, keepW) {
		return fmt.Errorf("EncryptS2K changed its arguments")
	}
	if err != nil {
		if c.Hash == 8 {
			return fmt.Errorf("EncryptS2K of %d bytes: %w", len(plain), err)
		}
		if len(out) != 0 {
			return fmt.Errorf("EncryptS2K returns both data and the error %v", err)
		}
		r.Label("refused")
		return nil
	}
	val, err := ref.OpenS2K(out, pw)
	if err != nil {
		return fmt.Errorf("%d bytes under a password of %d bytes: %w", len(plain), len(pw), err)
	}
	if !bytes.Equal(ref.MPI(val), ref.MPI(keepP)) {
		return fmt.Errorf("%d bytes open to something else: %s", len(plain), diff(string(keepP), string(val)))
	}
	if _, err := ref.OpenS2K(out, []byte(c.Other)); err != ref.ErrBadPassword {
		return fmt.Errorf("opened under another password: %v", err)
	}
	if w := ref.MPI(keepP); len(w) >= 10 && bytes.Contains(out, w[2:10]) {
		return fmt.Errorf("plaintext in the protected data")
	}
	saltMu.Lock()
	defer saltMu.Unlock()
	for _, x := range []string{"salt" + string(out[4:12]), "iv" + string(out[13:29])} {
		if saltSeen[x] {
			return fmt.Errorf("%x was already used", x)
		}
		saltSeen[x] = true
	}
	return nil
}

type c31uid struct {
	Name  Text `json:"name"`
	Email Text `json:"email"`
}

func checkC31UID(r *Rec, c c31uid) error {
	id := &pgp.UserID{Name: c.Name.String(), Email: c.Email.String()}
	want := ref.UserID(c.Name.String(), c.Email.String())
	if got := string(id.Encode()); got != want {
		return fmt.Errorf("user ID %.80q, want %.80q", got, want)
	}
	if got, w := string(id.EncodePacket()), string(ref.PacketHeader(13, len(want)))+want; got != w {
		return fmt.Errorf("user ID packet: %s", diff(w, got))
	}
	if id.Name != c.Name.String() || id.Email != c.Email.String() {
		return fmt.Errorf("encoding changed the user ID")
	}
	if want == "" {
		r.Trivial()
	}
	return nil
}

// ---- C32: signatures and key sets

type c32sub struct {
	Type byte `json:"type"`
	Body Blob `json:"body"`
}

type c32sign struct {
	Key      Hex32    `json:"key"`
	FP       BS       `json:"fingerprint"`
	Hash     byte     `json:"hash"`
	Type     byte     `json:"type"`
	Data     Blob     `json:"data"`
	Hashed   []c32sub `json:"hashed,omitempty"`
	Unhashed []c32sub `json:"unhashed,omitempty"`
	At       unixIn   `json:"at"`
	Reuse    bool     `json:"reuse,omitempty"` // sub-packet lists with spare capacity
}

func (c c32sign) subs(l []c32sub) (out []*pgp.Subpacket) {
	if c.Reuse {
		out = make([]*pgp.Subpacket, 0, len(l)+8)
	}
	for _, s := range l {
		out = append(out, &pgp.Subpacket{Type: pgp.SubpacketType(s.Type), Body: s.Body.Bytes()})
	}
	return out
}

func sameSubs(what string, got []ref.Sub, want []c32sub, extra int) error {
	// the request's sub-packets in their order; the issuer and time ones precede or surround them
	if len(got) != len(want)+extra {
		return fmt.Errorf("%d %s sub-packets, want %d of the request and %d of the signer", len(got), what, len(want), extra)
	}
	j := 0
	for _, g := range got {
		if j < len(want) {
			t := byte(g.Type)
			if g.Critical {
				t |= 128
			}
			if t == want[j].Type && bytes.Equal(g.Body, want[j].Body.Bytes()) {
				j++
			}
		}
	}
	if j < len(want) {
		return fmt.Errorf("%s sub-packet %d of the request (type %d) is missing or out of order", what, j, want[j].Type)
	}
	return nil
}

func checkC32Sign(r *Rec, c c32sign) error {
	priv := ed25519.NewKeyFromSeed(c.Key[:])
	signer := ref.PubKey{Algo: 22, Point: priv.Public().(ed25519.PublicKey), FP: []byte(c.FP), Created: c.At.Unix}
	req := &pgp.SignatureRequest{SigningKeyFingerprint: []byte(c.FP), HashFunction: pgp.HashFuncID(c.Hash), Data: c.Data.Bytes(), Type: pgp.SignatureType(c.Type),
		HashedSubpackets: c.subs(c.Hashed), UnhashedSubpackets: c.subs(c.Unhashed), Time: c.At.time()}
	var first []byte
	var firstSig *pgp.Signature
	for round := 0; round < 2; round++ {
		sig := pgp.Sign(priv, req)
		enc := sig.Encode()
		if round == 0 {
			firstSig = sig
		}
		s, err := ref.ParseSig(enc)
		if err != nil {
			return err
		}
		if s.Type != int(c.Type) || s.Hash != int(c.Hash) {
			return fmt.Errorf("signature has type %d hash %d, want %d %d", s.Type, s.Hash, c.Type, c.Hash)
		}
		if err := s.Verify(signer, c.Data.Bytes()); err != nil {
			return err
		}
		if err := sameSubs("signed", s.Hashed, c.Hashed, 2); err != nil {
			return err
		}
		if err := sameSubs("unsigned", s.Unhashed, c.Unhashed, 1); err != nil {
			return err
		}
		var stamp [4]byte
		binary.BigEndian.PutUint32(stamp[:], c.At.Unix)
		if !has(s.Hashed, 2, stamp[:]) || !has(s.Hashed, 33, append([]byte{4}, c.FP...)) || !has(s.Unhashed, 16, []byte(c.FP)[12:]) {
			return fmt.Errorf("creation time, issuer fingerprint or issuer missing: %v %v", s.Hashed, s.Unhashed)
		}
		if w := append(ref.PacketHeader(2, len(enc)), enc...); !bytes.Equal(sig.EncodePacket(), w) {
			return fmt.Errorf("signature packet: %s", diff(string(w), string(sig.EncodePacket())))
		}
		if !bytes.Equal(ref.MPI(sig.R.Bytes()), ref.MPI(s.R)) || !bytes.Equal(ref.MPI(sig.S.Bytes()), ref.MPI(s.S)) {
			return fmt.Errorf("R and S differ from the encoded ones")
		}
		if round == 0 {
			first = append(first, enc...)
			for i := range enc {
				enc[i] ^= 0x3c
			}
			if !bytes.Equal(sig.Encode(), first) {
				return fmt.Errorf("encoding the signature again gives something else")
			}
		} else if !bytes.Equal(first, enc) {
			return fmt.Errorf("signing the same request again gives another signature: %s", diff(string(first), string(enc)))
		}
	}
	if len(s0(c)) > 0 {
		r.Label("with-subpackets")
	}
	if len(req.HashedSubpackets) != len(c.Hashed) || len(req.UnhashedSubpackets) != len(c.Unhashed) || !bytes.Equal(req.Data, c.Data.Bytes()) || string(req.SigningKeyFingerprint) != string(c.FP) {
		return fmt.Errorf("signing changed the request")
	}
	for i, p := range req.HashedSubpackets {
		if byte(p.Type) != c.Hashed[i].Type || !bytes.Equal(p.Body, c.Hashed[i].Body.Bytes()) {
			return fmt.Errorf("signing changed sub-packet %d of the request", i)
		}
	}
	for i, p := range req.UnhashedSubpackets {
		if byte(p.Type) != c.Unhashed[i].Type || !bytes.Equal(p.Body, c.Unhashed[i].Body.Bytes()) {
			return fmt.Errorf("signing changed unsigned sub-packet %d of the request", i)
		}
	}
	// another request with the same sub-packets, by another key at another
	// time: its signature is its own, and the first one stays what it was
	other := *req
	fp2 := append([]byte(nil), c.FP...)
	for i := range fp2 {
		fp2[i] ^= 0xa5
	}
	key2 := c.Key
	key2[0] ^= 0xff
	priv2 := ed25519.NewKeyFromSeed(key2[:])
	at2 := c.At
	at2.Unix ^= 1
	other.SigningKeyFingerprint, other.Time = fp2, at2.time()
	enc2 := pgp.Sign(priv2, &other).Encode()
	s2, err := ref.ParseSig(enc2)
	if err != nil {
		return err
	}
	if err := s2.Verify(ref.PubKey{Algo: 22, Point: priv2.Public().(ed25519.PublicKey), FP: fp2, Created: at2.Unix}, c.Data.Bytes()); err != nil {
		return fmt.Errorf("a second request with the same sub-packets: %w", err)
	}
	if again := firstSig.Encode(); !bytes.Equal(again, first) {
		return fmt.Errorf("a later signature with the same sub-packets changed this one: %s", diff(string(first), string(again)))
	}
	// altering anything that is signed makes it invalid
	s, _ := ref.ParseSig(first)
	data := append(c.Data.Bytes(), 0)
	if s.Verify(signer, data) == nil {
		return fmt.Errorf("the signature does not depend on the data")
	}
	return nil
}

func s0(c c32sign) []c32sub { return append(append([]c32sub(nil), c.Hashed...), c.Unhashed...) }

func has(subs []ref.Sub, typ int, body []byte) bool {
	for _, b := range ref.Get(subs, typ) {
		if bytes.Equal(b, body) {
			return true
		}
	}
	return false
}

// Rare requests: signatures of these data have an integer that starts or ends with two or more
// zero or 0xff bytes.
type rareSign struct {
	What string `json:"what"`
	N    uint64 `json:"n"`
	Hash byte   `json:"hash"`
}

//go:embed rare_sign.json
var rareSignJSON []byte

var rareSigns = func() (v []rareSign) {
	if err := json.Unmarshal(rareSignJSON, &v); err != nil {
		panic(err)
	}
	return
}()

func (e rareSign) request() c32sign {
	return c32sign{Key: Hex32{1, 2, 3}, FP: BS(strings.Repeat("f", 20)), Hash: e.Hash, Type: 0x10, At: unixIn{Unix: 1700000000}, Data: Blob{Lit: BS(strconv.FormatUint(e.N, 10))}}
}

func searchRareSign(n uint64) int {
	best := map[string][]rareSign{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	w := uint64(runtime.NumCPU())
	for g := uint64(0); g < w; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < n; i += w {
				e := rareSign{N: i, Hash: byte(8 + i%3)}
				c := e.request()
				sig := pgp.Sign(ed25519.NewKeyFromSeed(c.Key[:]), &pgp.SignatureRequest{SigningKeyFingerprint: []byte(c.FP), HashFunction: pgp.HashFuncID(c.Hash), Data: c.Data.Bytes(), Type: pgp.SignatureType(c.Type), Time: c.At.time()})
				for what, val := range map[string][]byte{"r": sig.R.FillBytes(make([]byte, 32)), "s": sig.S.FillBytes(make([]byte, 32))} {
					for _, v := range []byte{0, 0xff} {
						f, b := edgeRuns(val, v)
						for side, k := range map[string]int{"starts": f, "ends": b} {
							if k >= 2 {
								mu.Lock()
								key := fmt.Sprintf("%s %s %02x x%d", what, side, v, k)
								if e.What = key; len(best[key]) < 6 {
									best[key] = append(best[key], e)
								}
								mu.Unlock()
							}
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	out := []rareSign{}
	for _, l := range best {
		out = append(out, l...)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].What < out[j].What || out[i].What == out[j].What && out[i].N < out[j].N
	})
	b, _ := json.MarshalIndent(out, "", " ")
	os.Stdout.Write(append(b, '\n'))
	return 0
}

func genByte(t *rapid.T, label string) byte {
	if rapid.Bool().Draw(t, label+"lit") {
		return byte(dictNum(t, label, 255))
	}
	return rapid.Byte().Draw(t, label)
}

func genC32Sign(t *rapid.T) c32sign {
	if pick(t, "rare", 40, 1) == 1 {
		return rareSigns[rapid.IntRange(0, len(rareSigns)-1).Draw(t, "which")].request()
	}
	c := c32sign{Key: genHex32(t, "key"), FP: BS(uniform(t, "fp", 20)), Hash: rapid.SampledFrom([]byte{8, 9, 10}).Draw(t, "hash"), At: genUnixIn(t, "at"), Data: genBlob(t, "data", 70000), Reuse: rapid.Bool().Draw(t, "reuse")}
	c.Type = rapid.SampledFrom([]byte{0, 1, 2, 0x10, 0x11, 0x12, 0x13, 0x16, 0x18, 0x19, 0x1f, 0x20, 0x28, 0x30, 0x40, 0x50}).Draw(t, "type")
	if useDict(t, "sigtype") || pick(t, "anytype", 5, 1) == 1 {
		c.Type = genByte(t, "sigtype")
	}
	list := func(label string) (out []c32sub) {
		n := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 6}).Draw(t, label+"count")
		room := 65000
		for i := 0; i < n; i++ {
			max := 400
			if pick(t, label+"big", 5, 1) == 1 {
				max = 20000
			}
			s := c32sub{Type: rapid.SampledFrom([]byte{9, 11, 20, 20, 21, 22, 23, 27, 28, 30, 32, 34, 26, 0x80 | 20, 100, 110}).Draw(t, label+"type"), Body: genBlob(t, label+"body", max)}
			if useDict(t, label+"sub") || pick(t, label+"anytype", 2, 1) == 1 {
				// any but those which Sign itself adds
				if b := genByte(t, label+"subtype"); b&127 != 2 && b&127 != 16 && b&127 != 33 {
					s.Type = b
				}
			}
			room -= len(s.Body.Bytes()) + 6
			if room < 200 {
				break
			}
			out = append(out, s)
		}
		return out
	}
	c.Hashed, c.Unhashed = list("h"), list("u")
	return c
}

type c32key struct {
	Seed Hex32    `json:"seed"`
	At   uint32   `json:"at"`
	TTL  uint32   `json:"ttl,omitempty"`
	KDF  *[2]byte `json:"kdf,omitempty"`
}

func (k c32key) made(kind string) (*anyKey, ref.Key, error) {
	at := time.Unix(int64(k.At), 0).UTC()
	var expiry time.Time
	if k.TTL != 0 {
		expiry = at.Add(time.Duration(k.TTL) * time.Second)
	}
	kdf := []byte{8, 7}
	if k.KDF != nil {
		kdf = k.KDF[:]
	}
	a, err := makeKey(kind, k.Seed[:], at, expiry, k.KDF)
	if err == nil && a == nil {
		err = fmt.Errorf("no %s key", kind)
	}
	return a, ref.FromSeed(k.Seed[:], kind, k.At, kdf), err
}

type c32set struct {
	Name   Text    `json:"name"`
	Email  Text    `json:"email"`
	Master c32key  `json:"master"`
	Enc    *c32key `json:"enc,omitempty"`
	Auth   *c32key `json:"auth,omitempty"`
	Sig    *c32key `json:"sig,omitempty"`
	PW     BS      `json:"password,omitempty"`
}

func checkC32Set(r *Rec, c c32set) error {
	mk, mref, err := c.Master.made(ref.Master)
	if err != nil {
		return err
	}
	set := &pgp.KeySet{UserID: &pgp.UserID{Name: c.Name.String(), Email: c.Email.String()}, MasterKey: mk.master}
	type part struct {
		kind string
		key  c32key
		ref  ref.Key
	}
	var parts []part
	add := func(kind string, k *c32key) (*anyKey, error) {
		if k == nil {
			return nil, nil
		}
		a, rk, err := k.made(kind)
		parts = append(parts, part{kind, *k, rk})
		return a, err
	}
	full := *set
	for _, x := range []struct {
		kind string
		k    *c32key
	}{{ref.Encryption, c.Enc}, {ref.Authentication, c.Auth}, {ref.Signing, c.Sig}} {
		a, err := add(x.kind, x.k)
		if err != nil {
			return err
		}
		other, _, err := c32key{Seed: Hex32{1, byte(len(x.kind))}, At: c.Master.At}.made(x.kind)
		if err != nil {
			return err
		}
		if a != nil {
			other = a
		}
		switch x.kind {
		case ref.Encryption:
			full.EncryptionSubkey = other.enc
			if a != nil {
				set.EncryptionSubkey = a.enc
			}
		case ref.Authentication:
			full.AuthenticationSubkey = other.sub
			if a != nil {
				set.AuthenticationSubkey = a.sub
			}
		case ref.Signing:
			full.SigningSubkey = other.sub
			if a != nil {
				set.SigningSubkey = a.sub
			}
		}
	}
	var pw []byte
	if c.PW != "" {
		pw = []byte(c.PW)
		r.Label("protected")
	}
	if len(parts) == 0 {
		r.Label("no-subkeys")
	}
	uid := ref.UserID(c.Name.String(), c.Email.String())
	forms := []struct {
		name       string
		full, cert bool
		f          func(*pgp.KeySet) ([]byte, error)
	}{
		{"EncodePackets", true, true, func(k *pgp.KeySet) ([]byte, error) { return k.EncodePackets(pw) }},
		{"EncodeSubkeyPackets(true)", false, true, func(k *pgp.KeySet) ([]byte, error) { return k.EncodeSubkeyPackets(pw, true) }},
		{"EncodeSubkeyPackets(false)", false, false, func(k *pgp.KeySet) ([]byte, error) { return k.EncodeSubkeyPackets(pw, false) }},
	}
	for _, f := range forms {
		data, err := f.f(set)
		if err != nil {
			return fmt.Errorf("%s: %w", f.name, err)
		}
		e, err := ref.ParseExport(data)
		if err != nil {
			return fmt.Errorf("%s: %w", f.name, err)
		}
		if !bytes.Equal(e.Master.FP, mref.FP) || e.Master.Stub == f.full {
			return fmt.Errorf("%s: master key %x (stub: %v), want %x", f.name, e.Master.FP, e.Master.Stub, mref.FP)
		}
		if f.full {
			if err := secretIs(e.Master, mref, pw); err != nil {
				return fmt.Errorf("%s: %w", f.name, err)
			}
		}
		if string(e.UID) != uid {
			return fmt.Errorf("%s: user ID %.60q, want %.60q", f.name, e.UID, uid)
		}
		if (e.SelfCert != nil) != f.cert {
			return fmt.Errorf("%s: self-certification present: %v", f.name, e.SelfCert != nil)
		}
		if e.SelfCert != nil {
			if err := sigIs(e.SelfCert, 0x13, e.Master.PubKey, ref.CertPreimage(e.Master.PubKey, e.UID), c.Master.At, c.Master.TTL, 1); err != nil {
				return fmt.Errorf("%s: self-certification: %w", f.name, err)
			}
		}
		if len(e.Subs) != len(parts) {
			return fmt.Errorf("%s: %d subkeys, want %d", f.name, len(e.Subs), len(parts))
		}
		for _, p := range parts {
			var s *ref.Subkey
			for i := range e.Subs { // the same seed may serve for two kinds
				if bytes.Equal(e.Subs[i].FP, p.ref.FP) && e.Subs[i].Kind() == p.kind {
					s = &e.Subs[i]
				}
			}
			if s == nil {
				return fmt.Errorf("%s: no %s subkey %x with its key flags", f.name, p.kind, p.ref.FP)
			}
			if err := secretIs(s.SecKey, p.ref, pw); err != nil {
				return fmt.Errorf("%s: %s subkey: %w", f.name, p.kind, err)
			}
			flag := map[string]byte{ref.Encryption: 0x0C, ref.Authentication: 0x20, ref.Signing: 2}[p.kind]
			pre := ref.BindPreimage(e.Master.PubKey, s.PubKey)
			if err := sigIs(s.Binding, 0x18, e.Master.PubKey, pre, p.key.At, p.key.TTL, flag); err != nil {
				return fmt.Errorf("%s: binding of the %s subkey: %w", f.name, p.kind, err)
			}
			emb := append(ref.Get(s.Binding.Hashed, 32), ref.Get(s.Binding.Unhashed, 32)...)
			if want := p.kind == ref.Signing; len(emb) != map[bool]int{false: 0, true: 1}[want] {
				return fmt.Errorf("%s: binding of the %s subkey carries %d cross-certifications", f.name, p.kind, len(emb))
			}
			for _, b := range emb {
				x, err := ref.ParseSig(b)
				if err != nil {
					return fmt.Errorf("%s: cross-certification: %w", f.name, err)
				}
				if err := sigIs(x, 0x19, s.PubKey, pre, p.key.At, 0, 0); err != nil {
					return fmt.Errorf("%s: cross-certification: %w", f.name, err)
				}
			}
		}
		// the order of the kinds belongs to the master key, not to the selection
		all, err := f.f(&full)
		if err != nil {
			return err
		}
		ea, err := ref.ParseExport(all)
		if err != nil {
			return fmt.Errorf("%s: %w", f.name, err)
		}
		if len(ea.Subs) != 3 {
			return fmt.Errorf("%s: %d subkeys, want 3", f.name, len(ea.Subs))
		}
		j := 0
		for _, s := range ea.Subs {
			if j < len(e.Subs) && s.Kind() == e.Subs[j].Kind() {
				j++
			}
		}
		if j < len(e.Subs) {
			return fmt.Errorf("%s: the order of the selected subkeys differs from that of all three", f.name)
		}
		if pw == nil {
			again, err := f.f(set)
			if err != nil || !bytes.Equal(again, data) {
				return fmt.Errorf("%s: encoding again gives something else: %s (%v)", f.name, diff(string(data), string(again)), err)
			}
		}
	}
	return nil
}

func secretIs(k ref.SecKey, want ref.Key, pw []byte) error {
	if !bytes.Equal(k.Body, want.Body) {
		return fmt.Errorf("public part %x, want %x", k.Body, want.Body)
	}
	val := k.Private
	if pw == nil {
		if k.Usage != 0 {
			return fmt.Errorf("S2K usage %d without a password", k.Usage)
		}
	} else {
		var err error
		if val, err = k.Decrypt(pw); err != nil {
			return err
		}
	}
	if !bytes.Equal(ref.MPI(val), ref.MPI(want.Private)) {
		return fmt.Errorf("private integer %x, want %x", val, want.Private)
	}
	return nil
}

func sigIs(s *ref.Sig, typ int, signer ref.PubKey, pre []byte, at, ttl uint32, flag byte) error {
	if s.Type != typ {
		return fmt.Errorf("type %#x, want %#x", s.Type, typ)
	}
	if err := s.Verify(signer, pre); err != nil {
		return err
	}
	signer.Created = at
	if err := s.IssuerAndTime(signer); err != nil {
		return err
	}
	if err := expiryIs(s, time.Duration(ttl)*time.Second); err != nil {
		return err
	}
	if flag != 0 {
		f, err := one(s.Hashed, 27)
		if err != nil {
			return err
		}
		if !bytes.Equal(trimZeros(f), []byte{flag}) {
			return fmt.Errorf("key flags %x, want %02x", f, flag)
		}
	}
	return nil
}

func genC32Key(t *rapid.T, label string, notBefore uint32) c32key {
	k := c32key{Seed: genHex32(t, label)}
	switch pick(t, label+"at", 2, 3) {
	case 0:
		k.At = notBefore
	default:
		k.At = genUnix(t, label+"unix")
		if k.At < notBefore {
			k.At = notBefore
		}
	}
	k.TTL = uint32(genTTL(t) / int64(time.Second))
	return k
}

func genKDF(t *rapid.T) *[2]byte {
	if rapid.Bool().Draw(t, "kdfnil") {
		return nil
	}
	return &[2]byte{rapid.SampledFrom([]byte{8, 9, 10}).Draw(t, "kdfhash"), rapid.SampledFrom([]byte{7, 8, 9}).Draw(t, "kdfcipher")}
}

func genC32Set(t *rapid.T) c32set {
	if pick(t, "rare", 14, 1) == 1 {
		k := genRare(t)
		keys := k.Ref()
		part := func(kind string) *c32key {
			e := &c32key{At: uint32(ref.EpochStart) + k.At.Offset}
			copy(e.Seed[:], keys[kind].Seed)
			return e
		}
		return c32set{Name: k.Name, Master: *part(ref.Master), Enc: part(ref.Encryption), Auth: part(ref.Authentication), Sig: part(ref.Signing)}
	}
	name, email := genNames(t, true)
	c := c32set{Name: name, Email: email, Master: genC32Key(t, "master", uint32(uniformN(t, "early", 1<<31)))}
	if rapid.IntRange(0, 3).Draw(t, "hasenc") > 0 {
		k := genC32Key(t, "enc", c.Master.At)
		k.KDF = genKDF(t)
		c.Enc = &k
	}
	if rapid.IntRange(0, 3).Draw(t, "hasauth") > 0 {
		k := genC32Key(t, "auth", c.Master.At)
		c.Auth = &k
	}
	if rapid.IntRange(0, 3).Draw(t, "hassig") > 0 {
		k := genC32Key(t, "sig", c.Master.At)
		c.Sig = &k
	}
	return c
}

func init() {
	searchSign = searchRareSign
	register(&Property{ID: "C31", Subs: []subCheck{
		&Sub[c31packet]{Name: "packet-lengths", Rule: "EncodePacket over every payload length 0..20000 (thorough: 0..70000) with tags cycling through 0..63; all count",
			Enum: func(thorough bool, yield func(c31packet) bool) {
				n := 20000
				if thorough {
					n = 70000
				}
				for i := 0; i <= n; i++ {
					if !yield(c31packet{byte(i % 64), Blob{N: i, Gen: uint16(i)}}) {
						return
					}
				}
			}, Check: checkC31Packet},
		&Sub[c31packet]{Name: "packets", Rule: "EncodePacket with any tag and payload up to 70000 bytes, some up to 17 MB; all count",
			Gen: func(t *rapid.T) c31packet {
				c := c31packet{rapid.Byte().Draw(t, "tag") & 63, genBlob(t, "payload", 70000)}
				if pick(t, "huge", 300, 1) == 1 {
					c.Payload = Blob{N: rapid.SampledFrom([]int{1<<24 - 1, 1 << 24, 1<<24 + 1, 17000000}).Draw(t, "hugen")}
				}
				return c
			}, Check: checkC31Packet, Quick: 6000, Thorough: 200000},
		&Sub[c31sub]{Name: "subpacket-lengths", Rule: "Subpacket.Encode over every body length 0..20000; all count",
			Enum: func(thorough bool, yield func(c31sub) bool) {
				for i := 0; i <= 20000; i++ {
					if !yield(c31sub{byte(i), Blob{N: i, Gen: uint16(i)}}) {
						return
					}
				}
			}, Check: checkC31Sub},
		&Sub[c31mpi]{Name: "integers", Rule: "EncodeMPI of integers of every size up to 65535 bits with any leading byte; trivial if replaced because too long",
			Gen: func(t *rapid.T) c31mpi {
				return c31mpi{genBlob(t, "n", 8191), uint(rapid.IntRange(0, 16).Draw(t, "shift"))}
			}, Check: checkC31MPI, Quick: 20000, Thorough: 800000},
		&Sub[c31mpi]{Name: "integer-sizes", Rule: "EncodeMPI of one integer of each size 0..4200 bits and around 65535; all count",
			Enum: func(thorough bool, yield func(c31mpi) bool) {
				for n := 0; n <= 65535; n++ {
					if n == 4200 && !thorough {
						n = 65500
					}
					b := (n + 7) / 8
					if n == 0 {
						if !yield(c31mpi{}) {
							return
						}
						continue
					}
					if !yield(c31mpi{Blob{Lit: "\xff", N: b - 1, Gen: uint16(n)}, uint(b*8 - n)}) {
						return
					}
				}
			}, Check: checkC31MPI},
		&Sub[c31key]{Name: "keys", Rule: "the three key types from 32-byte seeds (leading and trailing zero bytes, all ones, uniform), any 32-bit creation second in any zone, any lifetime and KDF parameters, and from seeds of other lengths; public, secret and stub packets and fingerprint rebuilt by the reference; all count",
			Gen: func(t *rapid.T) c31key {
				c := c31key{Kind: rapid.SampledFrom([]string{ref.Master, ref.Encryption, ref.Authentication}).Draw(t, "kind"), Seed: genHex32(t, "seed"), At: genUnixIn(t, "at"), Length: 32}
				c.TTL = uint32(genTTL(t) / int64(time.Second))
				c.KDF = genKDF(t)
				if pick(t, "len", 12, 1) == 1 {
					c.Length = rapid.IntRange(0, 64).Draw(t, "length")
				}
				return c
			}, Check: checkC31Key, Quick: 30000, Thorough: 1000000},
		&Sub[c31key]{Name: "keys-protected", Rule: "the same with a password; all count",
			Gen: func(t *rapid.T) c31key {
				return c31key{Kind: rapid.SampledFrom([]string{ref.Master, ref.Encryption, ref.Authentication}).Draw(t, "kind"), Seed: genHex32(t, "seed"), At: genUnixIn(t, "at"), KDF: genKDF(t), Length: 32, PW: genPassword(t, "pw")}
			}, Check: checkC31Key, Quick: 200, Thorough: 10000},
		&Sub[c31s2k]{Name: "s2k", Rule: "EncryptS2K of any plaintext up to 8000 bytes under any password, opened by the reference with the right and with another password; hash functions that give no AES key size have to be refused or work; all count",
			Gen: func(t *rapid.T) c31s2k {
				c := c31s2k{Plain: genBlob(t, "plain", 8000), PW: genPassword(t, "pw"), Hash: 8}
				c.Other = otherPassword(t, "other", c.PW)
				if pick(t, "hash", 8, 1) == 1 {
					c.Hash = rapid.SampledFrom([]byte{9, 10}).Draw(t, "hashid")
				}
				return c
			}, Check: checkC31S2K, Quick: 300, Thorough: 15000},
		&Sub[c31uid]{Name: "user-ids", Rule: "UserID with names and emails of any bytes around every length form; trivial if both empty",
			Gen:   func(t *rapid.T) c31uid { n, e := genNames(t, true); return c31uid{n, e} },
			Check: checkC31UID, Quick: 20000, Thorough: 600000},
	}})
	register(&Property{ID: "C32", Subs: []subCheck{
		&Sub[c32sign]{Name: "sign", Rule: "Sign over any data (up to 70000 bytes), signature type, SHA-256/384/512, any 32-bit time and up to 6 signed and 6 unsigned sub-packets of up to 20000 bytes; every signature parsed and verified by the reference; all count",
			Gen: genC32Sign, Check: checkC32Sign, Quick: 16000, Thorough: 500000},
		&Sub[c32set]{Name: "key-sets", Rule: "KeySets put together from any subset of subkeys, each with its own seed, creation time (not before the master key's), lifetime and KDF parameters; three encodings parsed, every signature and lifetime verified; all count",
			Gen: genC32Set, Check: checkC32Set, Quick: 10000, Thorough: 300000},
		&Sub[c32set]{Name: "key-sets-protected", Rule: "the same with a password; all count",
			Gen: func(t *rapid.T) c32set {
				c := genC32Set(t)
				c.PW = genPassword(t, "pw")
				return c
			}, Check: checkC32Set, Quick: 48, Thorough: 3000},
	}})
}
