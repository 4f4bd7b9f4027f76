package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"time"
	"unicode"

	mk "github.com/kklash/mnemonikey"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// BS is a byte string that survives JSON: it is written as a Go string literal.
type BS string

func (b BS) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }
func (b *BS) UnmarshalJSON(p []byte) error {
	var s string
	if err := json.Unmarshal(p, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*b = BS(u)
	return err
}

// Text is a byte string with a long tail of one character.
type Text struct {
	Lit BS  `json:"lit"`
	Pad int `json:"pad,omitempty"`
}

func (t Text) String() string { return string(t.Lit) + strings.Repeat("x", t.Pad) }

// Seed16 is a 128-bit seed.
type Seed16 [16]byte

func (s Seed16) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(s[:])), nil }
func (s *Seed16) UnmarshalText(p []byte) error {
	b, err := hex.DecodeString(string(p))
	if err != nil || len(b) != 16 {
		return fmt.Errorf("bad seed %q", p)
	}
	copy(s[:], b)
	return nil
}

// pick draws an index with the given weights.
func pick(t *rapid.T, label string, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := rapid.IntRange(0, 1<<20).Draw(t, label) // biased to small values in shrinking only
	h := sha256.Sum256([]byte(strconv.Itoa(x)))
	v := int(binary.BigEndian.Uint32(h[:]) % uint32(sum))
	if x == 0 {
		v = 0 // shrink towards the first alternative
	}
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

// uniform draws n uniformly distributed bytes (by hashing drawn words).
func uniform(t *rapid.T, label string, n int) []byte {
	a := rapid.Uint64().Draw(t, label+".a")
	b := rapid.Uint64().Draw(t, label+".b")
	c := rapid.Uint64().Draw(t, label+".c")
	return expandBytes(n, "uniform", a, b, c)
}

func expandBytes(n int, parts ...any) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprint(append([]any{i}, parts...)...)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func uniformN(t *rapid.T, label string, n uint64) uint64 {
	b := uniform(t, label, 8)
	return binary.BigEndian.Uint64(b) % n
}

func genSeed(t *rapid.T) Seed16 {
	var s Seed16
	if useDict(t, "seed") {
		copy(s[:], uniform(t, "seed", 16))
		if pick(t, "dictzero", 3, 1) == 1 {
			s = Seed16{}
		}
		for n := 1 + pick(t, "dictn", 3, 1); n > 0; n-- {
			dictBytes(t, "seedlit", s[:])
		}
		return s
	}
	switch pick(t, "seedkind", 10, 4, 3, 2, 1, 1, 2, 2, 1, 1, 1) {
	case 10: // equal words in the phrase
		copy(s[:], uniform(t, "seed", 16))
		x := new(big.Int).SetBytes(s[:])
		a := rapid.IntRange(0, 9).Draw(t, "word")
		w := new(big.Int).And(new(big.Int).Rsh(x, uint(12*a)), big.NewInt(4095))
		for i := a + 1; i < 10; i++ {
			if i == a+1 || rapid.Bool().Draw(t, "same") {
				x.AndNot(x, new(big.Int).Lsh(big.NewInt(4095), uint(12*i)))
				x.Or(x, new(big.Int).Lsh(w, uint(12*i)))
			}
		}
		x.FillBytes(s[:])
	case 7: // a pattern repeated
		n := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "period")
		p := uniform(t, "pattern", n)
		for i := range s {
			s[i] = p[i%n]
		}
	case 8: // text
		copy(s[:], rapid.StringMatching(`[ \n\t0-9a-f]{2}[ -~]{12}[ \n\r\t0-9a-f]{2}`).Draw(t, "text"))
	case 9: // a run of zeros or ones inside
		copy(s[:], uniform(t, "seed", 16))
		lo, hi := rapid.IntRange(0, 15).Draw(t, "from"), rapid.IntRange(0, 15).Draw(t, "to")
		b := rapid.SampledFrom([]byte{0, 0xff}).Draw(t, "run")
		for i := lo; i <= hi; i++ {
			s[i] = b
		}
	case 0:
		copy(s[:], uniform(t, "seed", 16))
	case 1: // leading zero bytes
		copy(s[:], uniform(t, "seed", 16))
		k := rapid.IntRange(1, 16).Draw(t, "zeros")
		for i := 0; i < k; i++ {
			s[i] = 0
		}
	case 2: // byte-wise biased
		copy(s[:], rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "bytes"))
	case 3: // single bit
		k := rapid.IntRange(0, 127).Draw(t, "bit")
		s[k/8] = 0x80 >> (k % 8)
	case 4: // all ones
		for i := range s {
			s[i] = 0xff
		}
	case 5: // leading ones
		copy(s[:], uniform(t, "seed", 16))
		k := rapid.IntRange(1, 15).Draw(t, "ones")
		for i := 0; i < k; i++ {
			s[i] = 0xff
		}
	case 6: // trailing zero bytes
		copy(s[:], uniform(t, "seed", 16))
		k := rapid.IntRange(1, 15).Draw(t, "zeros")
		for i := 0; i < k; i++ {
			s[15-i] = 0
		}
	}
	return s
}

const unix2038 = 1<<31 - ref.EpochStart

func genOffset(t *rapid.T) uint32 {
	if useDict(t, "off") {
		return uint32(dictUnix(t, "offlit", ref.EpochStart, ref.EpochStart+ref.MaxOffset) - ref.EpochStart)
	}
	switch pick(t, "offkind", 6, 4, 3, 3, 2, 3) {
	case 5: // dates
		d := time.Date(rapid.IntRange(2023, 2091).Draw(t, "year"), time.Month(rapid.SampledFrom([]int{1, 2, 2, 2, 3, 6, 7, 12, 12}).Draw(t, "month")),
			rapid.SampledFrom([]int{1, 1, 15, 28, 29, 29, 30, 31}).Draw(t, "day"), rapid.SampledFrom([]int{0, 0, 12, 23}).Draw(t, "hour"),
			rapid.SampledFrom([]int{0, 0, 30, 59}).Draw(t, "minute"), rapid.SampledFrom([]int{0, 0, 1, 59, 60}).Draw(t, "second"), 0, time.UTC)
		return uint32(uint64(d.Unix()-ref.EpochStart) % (1 << 31))
	case 0:
		return uint32(uniformN(t, "off", 1<<31))
	case 1: // 2023..2040
		return uint32(uniformN(t, "off", 540000000))
	case 2:
		return rapid.SampledFrom([]uint32{0, 1, 59, 60, 86399, 86400, ref.MaxOffset, ref.MaxOffset - 1, unix2038, unix2038 - 1, unix2038 + 1, 1<<30 - 1, 1 << 30}).Draw(t, "offedge")
	case 3:
		k := rapid.IntRange(0, 30).Draw(t, "offpow")
		d := rapid.IntRange(-1, 1).Draw(t, "offd")
		v := int64(1)<<k + int64(d)
		if v > ref.MaxOffset {
			v = ref.MaxOffset
		}
		return uint32(v)
	}
	return uint32(rapid.Uint32Range(0, ref.MaxOffset).Draw(t, "offb"))
}

// TimeIn is an instant at or after the second of an offset, in some zone.
type TimeIn struct {
	Offset uint32 `json:"offset"`
	Nanos  int    `json:"nanos,omitempty"`
	Zone   int    `json:"zone,omitempty"` // seconds east
	Place
}

// Place is where and how a clock is read.
type Place struct {
	Loc  string `json:"location,omitempty"`        // of the time zone database
	Mono bool   `json:"monotonic_clock,omitempty"` // with a reading of the monotonic clock
}

func (p Place) time(u time.Time, zone int) time.Time {
	if p.Mono { // such a reading has the local zone
		n := time.Now()
		return n.Add(u.Sub(n))
	}
	if p.Loc != "" {
		if l, err := time.LoadLocation(p.Loc); err == nil {
			return u.In(l)
		}
	}
	if zone == 0 {
		return u.UTC()
	}
	return u.In(time.FixedZone("Z"+strconv.Itoa(zone), zone))
}

var locations = []string{"America/New_York", "Europe/London", "Australia/Lord_Howe", "Antarctica/Troll", "Asia/Kathmandu", "America/St_Johns", "Africa/Casablanca", "Pacific/Apia", "Pacific/Kiritimati", "Asia/Tehran", "America/Sao_Paulo", "Local"}

// genPlace draws a place and moves the time (Unix seconds within lo and hi) to a change of its clocks at times.
func genPlace(t *rapid.T, sec, lo, hi int64) (Place, int64) {
	switch pick(t, "place", 8, 3, 1) {
	case 1:
		p := Place{Loc: rapid.SampledFrom(locations).Draw(t, "loc")}
		l, err := time.LoadLocation(p.Loc)
		if err == nil && rapid.Bool().Draw(t, "change") {
			if _, end := time.Unix(sec, 0).In(l).ZoneBounds(); !end.IsZero() {
				if x := end.Unix() + int64(rapid.IntRange(-7300, 7300).Draw(t, "around")); x >= lo && x <= hi {
					sec = x
				}
			}
		}
		return p, sec
	case 2:
		return Place{Mono: true}, sec
	}
	return Place{}, sec
}

// Time builds the instant.
func (x TimeIn) Time() time.Time {
	return x.Place.time(time.Unix(ref.EpochStart+int64(x.Offset), int64(x.Nanos)), x.Zone)
}

func genTime(t *rapid.T) TimeIn {
	x := TimeIn{Offset: genOffset(t)}
	p, sec := genPlace(t, ref.EpochStart+int64(x.Offset), ref.EpochStart, ref.EpochStart+ref.MaxOffset)
	x.Place, x.Offset = p, uint32(sec-ref.EpochStart)
	if x.Offset < ref.MaxOffset {
		switch pick(t, "nanokind", 6, 4, 4, 1) {
		case 3:
			x.Nanos = int(dictNum(t, "nanolit", 999999999))
		case 1:
			x.Nanos = rapid.SampledFrom([]int{1, 499999999, 500000000, 500000001, 999999999, 999, 1000000}).Draw(t, "nanoedge")
		case 2:
			x.Nanos = int(uniformN(t, "nano", 1000000000))
		}
	}
	x.Zone = genZone(t)
	return x
}

func genZone(t *rapid.T) int {
	switch pick(t, "zonekind", 3, 2, 1) {
	case 1:
		return rapid.SampledFrom([]int{3600, -3600, 14 * 3600, -12 * 3600, 20700, -12600, 19800}).Draw(t, "zone")
	case 2:
		return rapid.IntRange(-64800, 64800).Draw(t, "zonesec")
	}
	return 0
}

var textSamples = []string{
	"a", " ", "anonymous", "Bob", "José Ñandú", "日本 太郎", "name (comment)", "a<b>", "<", ">", "x@y.z", "name <x@y>", "\x00", "a\x00b", "\xff\xfe", "\n", "a\r\nb", "%s%d%%", "%!s(MISSING)", "  padded  ", "\"quoted\"", "\\", "e\u0301", "\u202Eabc", "𝒳",
}

// lengths of text that straddle the packet length forms (given as total user ID length)
var lenEdges = []int{0, 1, 2, 189, 190, 191, 192, 193, 254, 255, 256, 257, 447, 448, 703, 704, 4095, 4096, 8382, 8383, 8384, 8385, 8447, 8448, 65534, 65535, 65536, 65537}

func genText(t *rapid.T, label string, long bool) Text {
	if useDict(t, label) {
		if pick(t, label+"dictlen", 2, 1) == 1 {
			limit := 300
			if long {
				limit = 70000
			}
			return Text{Pad: dictLen(t, label, limit)}
		}
		return Text{Lit: BS(dictStr(t, label))}
	}
	switch pick(t, label+"kind", 3, 4, 4, 2, 2) {
	case 0:
		return Text{}
	case 1:
		return Text{Lit: BS(rapid.SampledFrom(textSamples).Draw(t, label))}
	case 2:
		return Text{Lit: BS(rapid.String().Draw(t, label))}
	case 3:
		return Text{Lit: BS(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, label))}
	}
	x := Text{Lit: BS(rapid.SampledFrom([]string{"", "n", "é"}).Draw(t, label))}
	if long {
		x.Pad = rapid.SampledFrom(lenEdges).Draw(t, label+"len") + rapid.IntRange(-6, 2).Draw(t, label+"d")
	} else {
		x.Pad = rapid.IntRange(0, 300).Draw(t, label+"len")
	}
	if x.Pad < 0 {
		x.Pad = 0
	}
	return x
}

// genNames draws a name and an email, sometimes with one made from the other.
func genNames(t *rapid.T, long bool) (name, email Text) {
	name, email = genText(t, "name", long), genText(t, "email", long)
	if pick(t, "related", 14, 1) == 1 {
		if len(email.Lit) == 0 && email.Pad == 0 {
			email = Text{Lit: "a@b.example"}
		}
		name, email = relatedNames(t, name, email)
	}
	return
}

func relatedNames(t *rapid.T, name, email Text) (Text, Text) {
	n, e := Text{Lit: BS(name.String())}, Text{Lit: BS(email.String())}
	switch pick(t, "relation", 3, 2, 2, 1, 1, 1, 1, 1, 1) {
	case 0:
		n = e
	case 1:
		n.Lit += " <" + e.Lit + ">"
	case 2:
		n.Lit += " " + e.Lit
	case 3:
		n.Lit = "<" + e.Lit + ">"
	case 4:
		n.Lit += " (" + e.Lit + ")"
	case 5:
		e.Lit = n.Lit + " <" + e.Lit + ">"
	case 6:
		local, _, _ := strings.Cut(string(e.Lit), "@")
		n.Lit = BS(local)
	case 7:
		n.Lit = BS(strings.ToUpper(string(e.Lit)))
	case 8:
		n.Lit = "\"" + n.Lit + "\""
	}
	return n, e
}

// KeyCase describes one key set.
type KeyCase struct {
	Seed     Seed16    `json:"seed"`
	At       TimeIn    `json:"at"`
	Name     Text      `json:"name"`
	Email    Text      `json:"email"`
	TTL      int64     `json:"ttl_ns,omitempty"`
	Enc      uint16    `json:"enc_index,omitempty"`
	Auth     uint16    `json:"auth_index,omitempty"`
	Sig      uint16    `json:"sig_index,omitempty"`
	Subkeys  *[]string `json:"subkeys,omitempty"` // nil: default
	NilOpts  bool      `json:"nil_opts,omitempty"`
	Searched int       `json:"searched_zero_bytes,omitempty"`
}

func genIndex(t *rapid.T, label string) uint16 {
	if useDict(t, label) {
		return uint16(dictNum(t, label, 65535))
	}
	switch pick(t, label+"kind", 4, 3, 2, 2) {
	case 1:
		return rapid.SampledFrom([]uint16{1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 0x0100, 0xff00, 0x00ff}).Draw(t, label)
	case 2:
		return uint16(uniformN(t, label, 65536))
	case 3:
		return rapid.Uint16().Draw(t, label)
	}
	return 0
}

const maxTTLSec = 1<<32 - 1

func genTTL(t *rapid.T) int64 {
	if useDict(t, "ttl") {
		return dictTTL(t, "ttllit")
	}
	switch pick(t, "ttlkind", 4, 3, 2, 1) {
	case 1:
		s := rapid.SampledFrom([]int64{1, 2, 59, 60, 3599, 3600, 86399, 86400, 86401, 30 * 86400, 365 * 86400, 2 * 365 * 86400, 10 * 365 * 86400, 1<<24 - 1, 1 << 24, 1<<24 + 1, 16777217, 33554433, 1<<31 - 1, 1 << 31, 1<<31 + 1, maxTTLSec - 1, maxTTLSec}).Draw(t, "ttl")
		return s * int64(time.Second)
	case 2:
		return int64(1+uniformN(t, "ttlu", maxTTLSec)) * int64(time.Second)
	case 3: // fraction of a second on top
		s := int64(1 + uniformN(t, "ttlu", 1<<31))
		return s*int64(time.Second) + int64(rapid.SampledFrom([]int{1, 500000000, 999999999}).Draw(t, "ttlfrac"))
	}
	return 0
}

func genSubkeys(t *rapid.T) *[]string {
	switch pick(t, "subkind", 5, 1, 5, 2) {
	case 1:
		return &[]string{}
	case 2: // a permutation of a subset
		p := rapid.Permutation(ref.SubkeyKinds).Draw(t, "perm")
		n := rapid.IntRange(1, 3).Draw(t, "nsub")
		q := append([]string{}, p[:n]...)
		return &q
	case 3: // with duplicates
		q := rapid.SliceOfN(rapid.SampledFrom(ref.SubkeyKinds), 1, 5).Draw(t, "subs")
		return &q
	}
	return nil
}

func genKey(t *rapid.T) KeyCase { return genKeyWith(t, false) }

func genKeyLong(t *rapid.T) KeyCase { return genKeyWith(t, true) }

func genKeyWith(t *rapid.T, long bool) KeyCase {
	k := KeyCase{Seed: genSeed(t), At: genTime(t)}
	if pick(t, "rarekey", 14, 1) == 1 {
		rare := genRare(t)
		if pick(t, "asfound", 1, 1) == 1 {
			return rare
		}
		k.Seed, k.At.Offset, k.At.Place = rare.Seed, rare.At.Offset, Place{}
	}
	if pick(t, "optkind", 1, 12) == 0 {
		k.NilOpts = rapid.Bool().Draw(t, "nilopts")
	} else {
		k.Name, k.Email = genNames(t, long)
		k.TTL = genTTL(t)
		k.Enc, k.Auth, k.Sig = genIndex(t, "enc"), genIndex(t, "auth"), genIndex(t, "sig")
		k.Subkeys = genSubkeys(t)
		if pick(t, "search", 12, 1) == 1 {
			k.searchZero(rapid.IntRange(0, 2).Draw(t, "which"), 1)
		}
	}
	return k
}

// searchZero moves an index to the next one whose derived private key starts with n zero bytes
// (for the encryption key: whose clamped little-endian form starts with the smallest byte).
func (k *KeyCase) searchZero(which, n int) {
	root := ref.RootKey(k.Seed, k.At.Offset)
	kind := ref.SubkeyKinds[which]
	start := []uint16{k.Enc, k.Auth, k.Sig}[which]
	for i := 0; i < 65536; i++ {
		idx := start + uint16(i)
		s := ref.SubSeed(root, kind, idx)
		ok := true
		for j := 0; j < n; j++ {
			ok = ok && s[j] == 0
		}
		if ok {
			k.setIndex(kind, idx)
			k.Searched = n
			return
		}
	}
}

func (k *KeyCase) setIndex(kind string, idx uint16) {
	switch kind {
	case ref.Encryption:
		k.Enc = idx
	case ref.Authentication:
		k.Auth = idx
	case ref.Signing:
		k.Sig = idx
	}
}

func (k KeyCase) index(kind string) uint16 {
	switch kind {
	case ref.Encryption:
		return k.Enc
	case ref.Authentication:
		return k.Auth
	case ref.Signing:
		return k.Sig
	}
	return 0
}

// Opts builds fresh library options.
func (k KeyCase) Opts() *mk.KeyOptions {
	if k.NilOpts {
		return nil
	}
	o := &mk.KeyOptions{
		Name: k.Name.String(), Email: k.Email.String(), TTL: time.Duration(k.TTL),
		EncryptionSubkeyIndex: k.Enc, AuthenticationSubkeyIndex: k.Auth, SigningSubkeyIndex: k.Sig,
	}
	if k.Subkeys != nil {
		o.Subkeys = []mk.SubkeyType{}
		for _, s := range *k.Subkeys {
			o.Subkeys = append(o.Subkeys, mk.SubkeyType(s))
		}
	}
	return o
}

// Kinds is the set of selected subkey kinds in canonical order.
func (k KeyCase) Kinds() []string {
	if k.NilOpts || k.Subkeys == nil {
		return ref.SubkeyKinds
	}
	var out []string
	for _, kind := range ref.SubkeyKinds {
		for _, s := range *k.Subkeys {
			if s == kind {
				out = append(out, kind)
				break
			}
		}
	}
	return out
}

// UID is the expected user ID.
func (k KeyCase) UID() string { return ref.UserID(k.Name.String(), k.Email.String()) }

// Build makes the key set.
func (k KeyCase) Build() (*mk.Mnemonikey, error) {
	m, err := mk.New(newSeed(k.Seed), k.At.Time(), k.Opts())
	if err != nil {
		return nil, fmt.Errorf("New refuses a valid key: %w", err)
	}
	return m, nil
}

// Ref derives the expected keys: master and the selected subkeys.
func (k KeyCase) Ref() map[string]ref.Key {
	root := ref.RootKey(k.Seed, k.At.Offset)
	out := map[string]ref.Key{ref.Master: ref.Derive(root, ref.Master, 0, k.At.Offset)}
	for _, kind := range k.Kinds() {
		out[kind] = ref.Derive(root, kind, k.index(kind), k.At.Offset)
	}
	return out
}

// Plain reports whether the case is an all-defaults key.
func (k KeyCase) Plain() bool {
	return k.TTL == 0 && k.Enc == 0 && k.Auth == 0 && k.Sig == 0 && k.Subkeys == nil && k.UID() == ""
}

// genPassword draws a non-empty password of any bytes.
func genPassword(t *rapid.T, label string) BS {
	if useDict(t, label) {
		if pick(t, label+"dictlen", 2, 1) == 1 {
			return BS(expandBytes(max(1, dictLen(t, label, 70000)), "pw", rapid.Uint16().Draw(t, label+"gen")))
		}
		if s := dictStr(t, label); s != "" {
			return BS(s)
		}
	}
	switch pick(t, label+"kind", 4, 3, 3, 2, 2) {
	case 0:
		return BS(rapid.StringMatching(`[a-zA-Z0-9 !-~]{1,20}`).Draw(t, label))
	case 1:
		return BS(rapid.SliceOfN(rapid.Byte(), 1, 80).Draw(t, label))
	case 2:
		return BS(rapid.SampledFrom([]string{"a", "\x00", "\x00\x00", " ", " x ", "pass\x00word", "пароль", "密码", "\xff", "\r", "x\n", "correct horse battery staple", "e\u0301", "é"}).Draw(t, label))
	case 3: // long
		n := rapid.SampledFrom([]int{55, 56, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257, 1023, 1024, 4096, 5000, 8192, 16384, 65535, 65536, 65537, 100000}).Draw(t, label+"len")
		return BS(expandBytes(n, "pw", rapid.Uint16().Draw(t, label)))
	}
	return BS(rapid.StringN(1, 40, -1).Draw(t, label))
}

// otherPassword derives a different password from p.
func otherPassword(t *rapid.T, label string, p BS) BS {
	q := []byte(p)
	switch pick(t, label+"mut", 4, 2, 2, 2, 2, 2, 1, 1, 2) {
	case 0:
		q = []byte(genPassword(t, label))
	case 1:
		q = append(q, 0)
	case 2:
		q = q[:len(q)-1]
	case 3:
		q = append(append([]byte{}, q...), q...)
	case 4: // bit flip
		i := rapid.IntRange(0, len(q)*8-1).Draw(t, label+"bit")
		q = append([]byte{}, q...)
		q[i/8] ^= 1 << (i % 8)
	case 5:
		q = []byte(strings.ToUpper(string(q)))
	case 6:
		q = []byte(strings.TrimSpace(string(q)))
	case 7:
		q = append(q, '\n')
	case 8: // change the last byte only
		q = append([]byte{}, q...)
		q[len(q)-1]++
	}
	if BS(q) == p {
		q = append(append([]byte{}, q...), '!')
	}
	return BS(q)
}

// caseMut changes the letter case of words.
type caseMut struct {
	Mode string `json:"mode,omitempty"`
	Bits uint64 `json:"bits,omitempty"`
}

func genCaseMut(t *rapid.T) caseMut {
	m := caseMut{Mode: []string{"", "upper", "title", "mixed"}[pick(t, "casekind", 3, 1, 1, 2)]}
	if m.Mode == "mixed" {
		m.Bits = rapid.Uint64().Draw(t, "casebits")
	}
	return m
}

func (m caseMut) apply(words []string) []string {
	out := make([]string, len(words))
	n := uint(0)
	for i, w := range words {
		switch m.Mode {
		case "upper":
			w = strings.ToUpper(w)
		case "title":
			w = strings.ToUpper(w[:1]) + w[1:]
		case "mixed":
			b := []byte(w)
			for j := range b {
				if m.Bits>>(n%64)&1 == 1 {
					b[j] = byte(unicode.ToUpper(rune(b[j])))
				}
				n++
			}
			w = string(b)
		}
		out[i] = w
	}
	return out
}
