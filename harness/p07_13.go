package main

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	mk "github.com/kklash/mnemonikey"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// ---- C07

// observables lists every deterministic operation on a key set.
var observables = []string{"full", "subs", "subs-nocert", "armor", "armor-subs", "armor-subs-nocert", "phrase", "fp", "fp-enc", "fp-auth", "fp-sig", "types", "uid", "created", "expiry"}

func observe(m *mk.Mnemonikey, op string) (string, error) {
	switch op {
	case "full":
		b, err := m.EncodePGP(nil)
		return string(b), err
	case "subs":
		b, err := m.EncodeSubkeysPGP(nil, true)
		return string(b), err
	case "subs-nocert":
		b, err := m.EncodeSubkeysPGP(nil, false)
		return string(b), err
	case "armor":
		return m.EncodePGPArmor(nil)
	case "armor-subs":
		return m.EncodeSubkeysPGPArmor(nil, true)
	case "armor-subs-nocert":
		return m.EncodeSubkeysPGPArmor(nil, false)
	case "phrase":
		w, err := m.EncodeMnemonicPlaintext()
		return phrase(w), err
	case "fp":
		return string(m.Fingerprint()), nil
	case "fp-enc":
		return string(m.SubkeyFingerprint(mk.SubkeyTypeEncryption)), nil
	case "fp-auth":
		return string(m.SubkeyFingerprint(mk.SubkeyTypeAuthentication)), nil
	case "fp-sig":
		return string(m.SubkeyFingerprint(mk.SubkeyTypeSigning)), nil
	case "types":
		return fmt.Sprint(m.SubkeyTypes()), nil
	case "uid":
		return m.UserID(), nil
	case "created":
		return fmt.Sprint(m.CreatedAt().UnixNano()), nil
	case "expiry":
		if m.Expiry().IsZero() {
			return "none", nil
		}
		return fmt.Sprint(m.Expiry().Unix(), m.Expiry().Nanosecond()), nil
	}
	panic("unknown operation " + op)
}

// diff describes where two strings differ.
func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%d and %d bytes, first difference at %d: %.20x / %.20x", len(a), len(b), i, a[i:], b[i:])
}

type c07op struct {
	Key   int    `json:"key"`
	Op    string `json:"op"`
	Zone  int    `json:"zone,omitempty"`
	Nanos int    `json:"nanos,omitempty"`
	PW    BS     `json:"pw,omitempty"`
	Times int    `json:"times,omitempty"` // more than once
	Place
}

type c07 struct {
	Keys []KeyCase `json:"keys"`
	Ops  []c07op   `json:"ops"`
}

func checkC07(r *Rec, c c07) error {
	sets := make([]*mk.Mnemonikey, len(c.Keys))
	memo := map[string]string{}
	rebuilds := 0
	for i, k := range c.Keys {
		m, err := k.Build()
		if err != nil {
			return err
		}
		sets[i] = m
	}
	see := func(i int, m *mk.Mnemonikey, op, when string) error {
		got, err := observe(m, op)
		if err != nil {
			return fmt.Errorf("%s: %s: %w", when, op, err)
		}
		key := fmt.Sprint(i, op)
		if want, ok := memo[key]; !ok {
			memo[key] = got
		} else if got != want {
			return fmt.Errorf("%s: %s of key %d changed: %s", when, op, i, diff(want, got))
		}
		return nil
	}
	for n, o := range c.Ops {
		k := c.Keys[o.Key]
		when := fmt.Sprintf("step %d", n)
		switch o.Op {
		case "rebuild":
			k.At.Zone, k.At.Nanos, k.At.Place = o.Zone, o.Nanos, o.Place
			if k.At.Offset == ref.MaxOffset {
				k.At.Nanos = 0
			}
			m, err := k.Build()
			if err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
			sets[o.Key] = m
			rebuilds++
		case "recover":
			w, err := sets[o.Key].EncodeMnemonicPlaintext()
			if err != nil {
				return err
			}
			m, err := mk.RecoverPlaintext(w, k.Opts())
			if err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
			sets[o.Key] = m
			rebuilds++
		case "protect": // randomised operations in between
			if _, err := sets[o.Key].EncodeMnemonicEncrypted([]byte(o.PW), rand.Reader); err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
		case "protect-keys":
			if _, err := sets[o.Key].EncodePGP([]byte(o.PW)); err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
		default:
			for i := 0; i == 0 || i < o.Times; i++ {
				if err := see(o.Key, sets[o.Key], o.Op, when); err != nil {
					return err
				}
			}
		}
	}
	if rebuilds == 0 && len(c.Keys) < 2 {
		r.Trivial()
	}
	// at the end everything once more, on the original and on fresh sets
	for i, k := range c.Keys {
		fresh, err := k.Build()
		if err != nil {
			return err
		}
		for _, op := range observables {
			if err := see(i, sets[i], op, "at the end"); err != nil {
				return err
			}
			if err := see(i, fresh, op, "on a fresh key set at the end"); err != nil {
				return err
			}
		}
	}
	return nil
}

func genC07(t *rapid.T) c07 {
	var c c07
	for n := rapid.IntRange(1, 3).Draw(t, "keys"); n > 0; n-- {
		c.Keys = append(c.Keys, genKey(t))
	}
	if len(c.Keys) > 1 && rapid.Bool().Draw(t, "related") { // same seed, other options
		c.Keys[1].Seed = c.Keys[0].Seed
		if rapid.Bool().Draw(t, "sametime") {
			c.Keys[1].At = c.Keys[0].At
		}
	}
	for n := rapid.IntRange(2, 14).Draw(t, "ops"); n > 0; n-- {
		o := c07op{Key: rapid.IntRange(0, len(c.Keys)-1).Draw(t, "key")}
		switch pick(t, "opkind", 8, 2, 2, 1) {
		case 0:
			o.Op = rapid.SampledFrom(observables).Draw(t, "op")
			if pick(t, "many", 150, 1) == 1 {
				o.Times = rapid.SampledFrom([]int{10, 33, 70, 130, 260}).Draw(t, "times")
			} else if useDict(t, "times") && pick(t, "many", 9, 1) == 1 {
				o.Times = dictLen(t, "timeslit", 1100) + 2
			}
		case 1:
			o.Op, o.Zone, o.Nanos = "rebuild", genZone(t), int(uniformN(t, "nanos", 1000000000))
			o.Place, _ = genPlace(t, 0, 1, 0)
		case 2:
			o.Op = "recover"
		case 3:
			o.Op, o.PW = "protect", genPassword(t, "pw")
		}
		c.Ops = append(c.Ops, o)
	}
	if pick(t, "pk", 59, 1) == 1 {
		c.Ops = append(c.Ops, c07op{Op: "protect-keys", PW: genPassword(t, "pw")})
	}
	return c
}

// exportAll is every observable of a list of keys; run here and by a worker process.
func exportAll(ks []KeyCase) ([]string, error) {
	var out []string
	for i, k := range ks {
		m, err := k.Build()
		if err != nil {
			return nil, fmt.Errorf("key %d: %w", i, err)
		}
		for _, op := range observables {
			s, err := observe(m, op)
			if err != nil {
				return nil, fmt.Errorf("key %d: %s: %w", i, op, err)
			}
			out = append(out, hex.EncodeToString([]byte(s)))
		}
	}
	return out, nil
}

type c07proc struct {
	Keys []KeyCase `json:"keys"`
	Env  []string  `json:"env"`
	CPU  bool      `json:"one_cpu,omitempty"` // the other process sees a single processor
}

func checkC07Proc(r *Rec, c c07proc) error {
	want, err := exportAll(c.Keys)
	if err != nil {
		return err
	}
	var other []KeyCase // in the other order, since results must not depend on what was done before
	for i := range c.Keys {
		other = append(other, c.Keys[len(c.Keys)-1-i])
	}
	raw, err := otherProcess(r, "export", other, c.Env, c.CPU)
	if err != nil {
		return err
	}
	var got []string
	if err := json.Unmarshal(raw, &got); err != nil {
		return infra("worker output: %v", err)
	}
	if len(got) != len(want) {
		return infra("worker gave %d results, want %d", len(got), len(want))
	}
	n := len(observables)
	for i := range got {
		if got[i] != want[n*(len(c.Keys)-1-i/n)+i%n] {
			i, w := i, want[n*(len(c.Keys)-1-i/n)+i%n]
			return fmt.Errorf("key %d: %s differs in a process with environment %q: %s", i/len(observables), observables[i%len(observables)], c.Env, diff(w, got[i]))
		}
	}
	return nil
}

// otherProcess runs a worker in a fresh process and returns what it printed.
func otherProcess(r *Rec, what string, input any, env []string, cpu bool) ([]byte, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, infra("%v", err)
	}
	in, _ := json.Marshal(input)
	cmd := exec.Command(exe, "worker", what)
	if cpu {
		if exec.Command("taskset", "-c", oneCPU(), "true").Run() == nil {
			cmd = exec.Command("taskset", "-c", oneCPU(), exe, "worker", what)
			r.Label("one-cpu")
		}
	}
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, env...)
	cmd.Dir = os.TempDir()
	cmd.Stdin = bytes.NewReader(in)
	raw, err := cmd.Output()
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.ExitCode() == 1 {
			return nil, fmt.Errorf("other process with %q: %s", env, clip(string(raw), 1000))
		}
		return nil, infra("worker: %v: %s", err, clip(string(raw), 500))
	}
	return raw, nil
}

func genEnv(t *rapid.T) (env []string) {
	for _, kv := range [][]string{{"TZ=", "TZ=America/New_York", "TZ=Asia/Kathmandu", "TZ=Pacific/Apia", "TZ=XYZ+5:30"}, {"LANG=C", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8"}, {"HOME=/nonexistent", "USER=bob"}, {"GOMAXPROCS=1", "GOMAXPROCS=4", "GOGC=20"}, {"X=", "SOURCE_DATE_EPOCH=0", "SOURCE_DATE_EPOCH=1700000000", "EMAIL=a@b", "DEBUG=1", "CI=true"}} {
		env = append(env, rapid.SampledFrom(kv).Draw(t, "env"))
	}
	if d := dict(); len(d.envs) > 0 {
		env = append(env, rapid.SampledFrom(d.envs).Draw(t, "envname")+"=1")
	}
	if rapid.Bool().Draw(t, "clocked") {
		env = append(env, genClock(t, "clock").env()...) // takes effect if the harness was built with a clock that can be set
	}
	return env
}

// oneCPU is a processor this process may run on.
func oneCPU() string {
	out, err := exec.Command("taskset", "-cp", strconv.Itoa(os.Getpid())).Output()
	if err == nil {
		if i := bytes.LastIndexByte(out, ':'); i >= 0 {
			if f := strings.FieldsFunc(string(out[i+1:]), func(r rune) bool { return r < '0' || r > '9' }); len(f) > 0 {
				return f[0]
			}
		}
	}
	return "0"
}

type c07wait struct {
	Keys   []KeyCase `json:"keys"`
	Millis int       `json:"wait_ms"`
}

func checkC07Wait(r *Rec, c c07wait) error {
	var sets []*mk.Mnemonikey
	var first []string
	for _, k := range c.Keys {
		m, err := k.Build()
		if err != nil {
			return err
		}
		sets = append(sets, m)
		for _, op := range observables {
			s, err := observe(m, op)
			if err != nil {
				return err
			}
			first = append(first, s)
		}
	}
	time.Sleep(time.Duration(c.Millis) * time.Millisecond)
	for i, k := range c.Keys {
		fresh, err := k.Build()
		if err != nil {
			return err
		}
		for j, op := range observables {
			for _, m := range []*mk.Mnemonikey{sets[i], fresh} {
				s, err := observe(m, op)
				if err != nil {
					return err
				}
				if w := first[i*len(observables)+j]; s != w {
					return fmt.Errorf("%s of key %d is different %d ms later: %s", op, i, c.Millis, diff(w, s))
				}
			}
		}
	}
	return nil
}

// ---- C08

type exportVariant struct {
	name string
	full bool
	cert bool
	bin  func(pw []byte) ([]byte, error)
	arm  func(pw []byte) (string, error)
}

func variants(m *mk.Mnemonikey) []exportVariant {
	return []exportVariant{
		{"full export", true, true, m.EncodePGP, m.EncodePGPArmor},
		{"subkey export", false, true, func(pw []byte) ([]byte, error) { return m.EncodeSubkeysPGP(pw, true) }, func(pw []byte) (string, error) { return m.EncodeSubkeysPGPArmor(pw, true) }},
		{"subkey export without certification", false, false, func(pw []byte) ([]byte, error) { return m.EncodeSubkeysPGP(pw, false) }, func(pw []byte) (string, error) { return m.EncodeSubkeysPGPArmor(pw, false) }},
	}
}

// eitherForm is variants, of which some seeds get the armored form, decoded.
func eitherForm(m *mk.Mnemonikey, k KeyCase) []exportVariant {
	vs := variants(m)
	if (k.Seed[1]^k.Seed[15])&3 != 1 {
		return vs
	}
	for i, v := range vs {
		vs[i].bin = func(pw []byte) ([]byte, error) {
			text, err := v.arm(pw)
			if err != nil {
				return nil, err
			}
			return ref.DecodeArmor(text)
		}
	}
	return vs
}

func checkC08(r *Rec, k KeyCase) error {
	m, err := k.Build()
	if err != nil {
		return err
	}
	for _, v := range variants(m) {
		data, err := v.bin(nil)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		e, err := ref.ParseExport(data)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		if (e.SelfCert != nil) != v.cert {
			return fmt.Errorf("%s: self-certification present: %v", v.name, e.SelfCert != nil)
		}
		keys := []ref.SecKey{e.Master}
		for _, s := range e.Subs {
			keys = append(keys, s.SecKey)
		}
		if len(e.Subs) != len(k.Kinds()) {
			return fmt.Errorf("%s: %d subkeys, want %d", v.name, len(e.Subs), len(k.Kinds()))
		}
		for i, sk := range keys {
			if i == 0 && !v.full {
				if !sk.Stub {
					return fmt.Errorf("%s: master key is not a stub", v.name)
				}
			} else if sk.Usage != 0 {
				return fmt.Errorf("%s: key %d has S2K usage %d in an unprotected export", v.name, i, sk.Usage)
			}
			if sk.Created != uint32(ref.EpochStart+uint64(k.At.Offset)) {
				return fmt.Errorf("%s: key %d created %d, want %d", v.name, i, sk.Created, ref.EpochStart+uint64(k.At.Offset))
			}
			if i > 0 && sk.Algo == 18 {
				r.Label("ecdh")
			}
			if len(sk.Private) > 0 && len(sk.Private) < 32 {
				r.Label("short-private-integer")
			}
		}
		if string(e.UID) != k.UID() {
			return fmt.Errorf("%s: user ID packet %.60q, want %.60q", v.name, e.UID, k.UID())
		}
		if n := len(e.UID); n > 191 {
			r.Label("long-user-id")
		}
		for _, s := range e.Subs {
			if len(s.Binding.R) < 32 || len(s.Binding.S) < 32 {
				r.Label("short-signature-integer")
			}
		}
		text, err := v.arm(nil)
		if err != nil {
			return fmt.Errorf("%s: armor: %w", v.name, err)
		}
		back, err := ref.DecodeArmor(text)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		if !bytes.Equal(back, data) {
			return fmt.Errorf("%s: armored form decodes to something else: %s", v.name, diff(string(data), string(back)))
		}
	}
	return nil
}

// ---- C09

func verifyExport(e *ref.Export, k KeyCase, cert bool) error {
	if err := e.VerifyAll(cert); err != nil {
		return err
	}
	created := uint32(ref.EpochStart + uint64(k.At.Offset))
	if e.Master.Created != created {
		return fmt.Errorf("master key created %d, want %d", e.Master.Created, created)
	}
	if e.SelfCert != nil && e.SelfCert.Type != 0x13 {
		return fmt.Errorf("self-certification has type %#x, want a positive certification", e.SelfCert.Type)
	}
	if len(e.Subs) != len(k.Kinds()) {
		return fmt.Errorf("%d bound subkeys, want %d", len(e.Subs), len(k.Kinds()))
	}
	want := k.Ref()
	for kind, key := range want {
		if kind == ref.Master {
			continue
		}
		s := e.Find(key.FP)
		if s == nil {
			return fmt.Errorf("no %s subkey %x in the export", kind, key.FP)
		}
		if s.Created != created {
			return fmt.Errorf("%s subkey created %d, want %d", kind, s.Created, created)
		}
		if kind == ref.Signing {
			emb := append(ref.Get(s.Binding.Hashed, 32), ref.Get(s.Binding.Unhashed, 32)...)
			if len(emb) != 1 {
				return fmt.Errorf("signing subkey binding carries %d cross-certifications", len(emb))
			}
		}
	}
	return nil
}

func checkC09(r *Rec, c struct {
	Key KeyCase `json:"key"`
	PW  BS      `json:"password,omitempty"`
}) error {
	m, err := c.Key.Build()
	if err != nil {
		return err
	}
	var pw []byte
	if c.PW != "" {
		pw = []byte(c.PW)
	}
	for _, v := range eitherForm(m, c.Key) {
		data, err := v.bin(pw)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		e, err := ref.ParseExport(data)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		if err := verifyExport(e, c.Key, v.cert); err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
	}
	return nil
}

// ---- C10

// trimZeros drops zero bytes from the end (of flag fields, where they say nothing).
func trimZeros(b []byte) []byte {
	for len(b) > 0 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return b
}

func one(subs []ref.Sub, typ int) ([]byte, error) {
	g := ref.Get(subs, typ)
	if len(g) != 1 {
		return nil, fmt.Errorf("%d signed sub-packets of type %d, want 1", len(g), typ)
	}
	return g[0], nil
}

func checkC10(r *Rec, k KeyCase) error {
	m, err := k.Build()
	if err != nil {
		return err
	}
	want := k.Ref()
	for _, v := range eitherForm(m, k) {
		data, err := v.bin(nil)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		e, err := ref.ParseExport(data)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		if e.Master.Algo != 22 {
			return fmt.Errorf("%s: master key algorithm %d", v.name, e.Master.Algo)
		}
		if e.SelfCert != nil {
			if err := checkPrefs(e.SelfCert, k.TTL != 0); err != nil {
				return fmt.Errorf("%s: self-certification: %w", v.name, err)
			}
		} else if v.cert {
			return fmt.Errorf("%s: no self-certification", v.name)
		}
		if len(e.Subs) != len(k.Kinds()) {
			return fmt.Errorf("%s: %d subkeys, want %d", v.name, len(e.Subs), len(k.Kinds()))
		}
		for _, kind := range k.Kinds() {
			s := e.Find(want[kind].FP)
			if s == nil {
				return fmt.Errorf("%s: no %s subkey", v.name, kind)
			}
			flags, err := one(s.Binding.Hashed, 27)
			if err != nil {
				return fmt.Errorf("%s: binding of the %s subkey: key flags: %w", v.name, kind, err)
			}
			if len(ref.Get(s.Binding.Unhashed, 27)) != 0 {
				return fmt.Errorf("%s: unsigned key flags on the %s subkey", v.name, kind)
			}
			algo, flag := 22, byte(0x20)
			switch kind {
			case ref.Encryption:
				algo, flag = 18, 0x0C
				if !bytes.Equal(s.KDF, []byte{1, 8, 7}) {
					return fmt.Errorf("%s: KDF parameters %x, want 01 08 07", v.name, s.KDF)
				}
			case ref.Signing:
				flag = 0x02
			}
			if s.Algo != algo || !bytes.Equal(trimZeros(flags), []byte{flag}) {
				return fmt.Errorf("%s: %s subkey has algorithm %d flags %x, want %d %02x", v.name, kind, s.Algo, flags, algo, flag)
			}
		}
	}
	return nil
}

func checkPrefs(sig *ref.Sig, ttl bool) error {
	var order []int
	for _, s := range sig.Hashed {
		switch s.Type {
		case 27, 9, 11, 21, 22, 30, 23:
			order = append(order, s.Type)
		}
	}
	want := []int{27, 11, 21, 22, 30, 23}
	if ttl {
		want = []int{27, 9, 11, 21, 22, 30, 23}
	}
	if fmt.Sprint(order) != fmt.Sprint(want) {
		return fmt.Errorf("signed sub-packets in order %v, want %v", order, want)
	}
	for _, s := range sig.Unhashed {
		for _, t := range want {
			if s.Type == t {
				return fmt.Errorf("sub-packet %d is in the unsigned part", t)
			}
		}
	}
	get := func(t int) []byte { return ref.Get(sig.Hashed, t)[0] }
	if !bytes.Equal(trimZeros(get(27)), []byte{1}) {
		return fmt.Errorf("master key flags %x, want 01 (certify only)", get(27))
	}
	if !bytes.HasPrefix(get(11), []byte{9, 8, 7}) {
		return fmt.Errorf("cipher preferences %v", get(11))
	}
	if !bytes.Equal(get(21), []byte{10, 9, 8, 11, 2}) {
		return fmt.Errorf("hash preferences %v", get(21))
	}
	if !bytes.Equal(get(22), []byte{2, 3, 1}) {
		return fmt.Errorf("compression preferences %v", get(22))
	}
	if !bytes.Equal(trimZeros(get(30)), []byte{1}) {
		return fmt.Errorf("features %x, want 01 (MDC)", get(30))
	}
	if !bytes.Equal(trimZeros(get(23)), []byte{0x80}) {
		return fmt.Errorf("key server preferences %x, want 80", get(23))
	}
	return nil
}

// ---- C11

type c11 struct {
	Key KeyCase `json:"key"` // TTL field is any int64
}

func checkC11(r *Rec, c c11) error {
	k := c.Key
	ttl := time.Duration(k.TTL)
	ok := ttl == 0 || ttl >= time.Second && ttl/time.Second <= maxTTLSec
	m, err := mk.New(newSeed(k.Seed), k.At.Time(), k.Opts())
	words := ref.PlainPhrase(k.Seed, k.At.Offset)
	m2, err2 := mk.RecoverPlaintext(words, k.Opts())
	if !ok {
		r.Label("not-expressible")
		if err == nil || m != nil {
			return fmt.Errorf("lifetime of %v (%d s) is accepted, expiry %v", ttl, int64(ttl/time.Second), m.Expiry())
		}
		if err2 == nil || m2 != nil {
			return fmt.Errorf("lifetime of %v is accepted in recovery", ttl)
		}
		if ttl < 0 && !errors.Is(err, mk.ErrTTLInvalid) {
			return fmt.Errorf("negative lifetime: error %v", err)
		}
		return nil
	}
	if err != nil || err2 != nil {
		return fmt.Errorf("lifetime of %v (%d s) is refused: %v, %v", ttl, int64(ttl/time.Second), err, err2)
	}
	if ttl == 0 {
		r.Trivial()
		r.Label("none")
	}
	created := ref.EpochStart + int64(k.At.Offset)
	for _, m := range []*mk.Mnemonikey{m, m2} {
		if ttl == 0 {
			if !m.Expiry().IsZero() {
				return fmt.Errorf("reported expiry %v without a lifetime", m.Expiry())
			}
		} else if m.Expiry().Unix() != created+int64(ttl/time.Second) || m.Expiry().Nanosecond() != 0 {
			return fmt.Errorf("reported expiry %v (unix %d), want unix %d", m.Expiry(), m.Expiry().Unix(), created+int64(ttl/time.Second))
		}
		for _, v := range eitherForm(m, c.Key) {
			data, err := v.bin(nil)
			if err != nil {
				return err
			}
			e, err := ref.ParseExport(data)
			if err != nil {
				return fmt.Errorf("%s: %w", v.name, err)
			}
			if e.SelfCert != nil {
				if err := expiryIs(e.SelfCert, ttl); err != nil {
					return fmt.Errorf("%s: self-certification: %w", v.name, err)
				}
			} else if v.cert {
				return fmt.Errorf("%s: no self-certification", v.name)
			}
			for _, s := range e.Subs {
				if err := expiryIs(s.Binding, ttl); err != nil {
					return fmt.Errorf("%s: %s subkey: %w", v.name, s.Kind(), err)
				}
			}
			if len(e.Subs) != len(k.Kinds()) {
				return fmt.Errorf("%s: %d subkeys", v.name, len(e.Subs))
			}
		}
	}
	// independence
	k0 := k
	k0.TTL = 0
	m0, err := k0.Build()
	if err != nil {
		return err
	}
	for _, op := range []string{"fp", "fp-enc", "fp-auth", "fp-sig", "types", "uid", "created", "phrase"} {
		a, err := observe(m, op)
		if err != nil {
			return err
		}
		if b, err := observe(m0, op); err != nil || a != b {
			return fmt.Errorf("%s depends on the lifetime: %s (%v)", op, diff(a, b), err)
		}
	}
	return nil
}

func expiryIs(s *ref.Sig, ttl time.Duration) error {
	if g := ref.Get(s.Unhashed, 9); len(g) != 0 {
		return fmt.Errorf("expiration in the unsigned part")
	}
	if g := append(ref.Get(s.Hashed, 3), ref.Get(s.Unhashed, 3)...); len(g) != 0 {
		return fmt.Errorf("the signature itself expires")
	}
	g := ref.Get(s.Hashed, 9)
	if ttl == 0 {
		for _, b := range g {
			if len(trimZeros(b)) != 0 {
				return fmt.Errorf("expiration %x without a lifetime", b)
			}
		}
		return nil
	}
	if len(g) != 1 || len(g[0]) != 4 {
		return fmt.Errorf("expiration sub-packets %x, want one", g)
	}
	if got := int64(binary.BigEndian.Uint32(g[0])); got != int64(ttl/time.Second) {
		return fmt.Errorf("expires %d s after creation, want %d", got, int64(ttl/time.Second))
	}
	return nil
}

func genAnyTTL(t *rapid.T) int64 {
	if useDict(t, "anyttl") {
		return int64(dictNum(t, "anyttllit", 1<<63-1))
	}
	switch pick(t, "anyttl", 6, 4, 3, 2, 3) {
	case 0:
		return genTTL(t)
	case 1: // around boundaries in nanoseconds
		base := rapid.SampledFrom([]int64{0, int64(time.Second), maxTTLSec * int64(time.Second), (maxTTLSec + 1) * int64(time.Second), 2 * (maxTTLSec + 1) * int64(time.Second), (maxTTLSec + 1 + 86400) * int64(time.Second), 1 << 31 * int64(time.Second)}).Draw(t, "base")
		return base + rapid.SampledFrom([]int64{-int64(time.Second), -1, 0, 1, 500000000, 999999999, int64(time.Second), 3600 * int64(time.Second)}).Draw(t, "delta")
	case 2: // too long
		return int64(maxTTLSec+1+uniformN(t, "over", 4900000000)) * int64(time.Second)
	case 3: // negative
		return -int64(1 + uniformN(t, "neg", 1<<62))
	}
	return rapid.Int64().Draw(t, "any")
}

// ---- C12

type c12 struct {
	Key KeyCase `json:"key"`
	PW  BS      `json:"password,omitempty"`
}

func windows(secret []byte, n int, f func([]byte) error) error {
	rev := make([]byte, len(secret))
	for i, b := range secret {
		rev[len(secret)-1-i] = b
	}
	for _, s := range [][]byte{secret, rev} {
		for i := 0; i+n <= len(s); i++ {
			w := s[i : i+n]
			if bytes.Count(w, w[:1]) == n {
				continue
			}
			if err := f(w); err != nil {
				return err
			}
		}
	}
	return nil
}

func leaks(what string, secret, out []byte) error {
	return windows(secret, 8, func(w []byte) error {
		if i := bytes.Index(out, w); i >= 0 {
			return fmt.Errorf("%s: bytes %x appear at offset %d of the output", what, w, i)
		}
		return nil
	})
}

func checkC12(r *Rec, c c12) error {
	k := c.Key
	m, err := k.Build()
	if err != nil {
		return err
	}
	kAll := k
	kAll.Subkeys = nil
	mAll, err := kAll.Build()
	if err != nil {
		return err
	}
	full, err := mAll.EncodePGP(nil)
	if err != nil {
		return err
	}
	eAll, err := ref.ParseExport(full)
	if err != nil {
		return fmt.Errorf("full export: %w", err)
	}
	keysAll := kAll.Ref()
	if len(eAll.Subs) != 3 {
		return fmt.Errorf("default selection has %d subkeys", len(eAll.Subs))
	}
	sel := map[string]bool{}
	for _, kind := range k.Kinds() {
		sel[string(keysAll[kind].FP)] = true
	}
	var wantSubs []ref.Subkey
	for _, s := range eAll.Subs {
		if sel[string(s.FP)] {
			wantSubs = append(wantSubs, s)
		}
	}
	if len(wantSubs) != len(sel) {
		return fmt.Errorf("the full export lacks selected subkeys")
	}
	var pw []byte
	if c.PW != "" {
		pw = []byte(c.PW)
	}
	for _, v := range variants(m) {
		out, err := v.bin(pw)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		e, err := ref.ParseExport(out)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		if !bytes.Equal(e.Master.Body, eAll.Master.Body) || !bytes.Equal(e.UIDPacket.Raw, eAll.UIDPacket.Raw) {
			return fmt.Errorf("%s: master public key or user ID differs from the full export", v.name)
		}
		if v.cert != (e.SelfCert != nil) {
			return fmt.Errorf("%s: self-certification present: %v", v.name, e.SelfCert != nil)
		}
		if v.cert && !bytes.Equal(e.CertPacket.Raw, eAll.CertPacket.Raw) {
			return fmt.Errorf("%s: self-certification differs from the full export", v.name)
		}
		if len(e.Subs) != len(wantSubs) {
			return fmt.Errorf("%s: %d subkeys, selected %v", v.name, len(e.Subs), k.Kinds())
		}
		for i, s := range e.Subs {
			w := wantSubs[i]
			same := bytes.Equal(s.Packet.Raw, w.Packet.Raw)
			if pw != nil {
				same = bytes.Equal(s.Body, w.Body)
			}
			if !same || !bytes.Equal(s.BindPacket.Raw, w.BindPacket.Raw) {
				return fmt.Errorf("%s: subkey %d is not the one of the full export in the same relative order", v.name, i)
			}
		}
		if v.full {
			if e.Master.Stub || pw == nil && !bytes.Equal(e.Master.Packet.Raw, eAll.Master.Packet.Raw) {
				return fmt.Errorf("%s: master key differs from the one of the full export", v.name)
			}
		} else if !e.Master.Stub {
			return fmt.Errorf("%s: master key is not a stub", v.name)
		}
		for kind, key := range keysAll {
			if sel[string(key.FP)] || kind == ref.Master && v.full {
				continue
			}
			for _, secret := range [][]byte{key.Private, key.Seed} {
				if err := leaks(v.name+": private "+kind+" key", secret, out); err != nil {
					return err
				}
			}
		}
		root := ref.RootKey(k.Seed, k.At.Offset)
		if err := leaks(v.name+": root key", root, out); err != nil {
			return err
		}
		text, err := v.arm(pw)
		if err != nil {
			return err
		}
		back, err := ref.DecodeArmor(text)
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		if pw == nil {
			if !bytes.Equal(back, out) {
				return fmt.Errorf("%s: armored form carries something else", v.name)
			}
		} else if ea, err := ref.ParseExport(back); err != nil || ea.Master.Stub == v.full || len(ea.Subs) != len(wantSubs) || (ea.SelfCert != nil) != v.cert {
			return fmt.Errorf("%s: armored protected form differs (%v)", v.name, err)
		}
	}
	if len(sel) < 3 {
		r.Label("subset")
	} else if k.Subkeys == nil {
		r.Trivial()
	}
	return nil
}

// ---- C13

type c13 struct {
	Key     KeyCase `json:"key"`
	PW      BS      `json:"password"`
	Other   BS      `json:"other_password"`
	Variant int     `json:"variant"`
	Armor   bool    `json:"armor"`
}

var (
	saltMu   sync.Mutex
	saltSeen = map[string]bool{}
)

func checkC13(r *Rec, c c13) error {
	m, err := c.Key.Build()
	if err != nil {
		return err
	}
	v := variants(m)[c.Variant]
	plain, err := v.bin(nil)
	if err != nil {
		return err
	}
	empty, err := v.bin([]byte{})
	if err != nil || !bytes.Equal(plain, empty) {
		return fmt.Errorf("%s: an empty password is not the same as none (%v)", v.name, err)
	}
	var out []byte
	if c.Armor {
		text, err := v.arm([]byte(c.PW))
		if err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
		if out, err = ref.DecodeArmor(text); err != nil {
			return fmt.Errorf("%s: %w", v.name, err)
		}
	} else if out, err = v.bin([]byte(c.PW)); err != nil {
		return fmt.Errorf("%s: %w", v.name, err)
	}
	a, err := ref.ParseExport(plain)
	if err != nil {
		return fmt.Errorf("%s: unprotected: %w", v.name, err)
	}
	b, err := ref.ParseExport(out)
	if err != nil {
		return fmt.Errorf("%s: protected: %w", v.name, err)
	}
	if len(a.Packets) != len(b.Packets) {
		return fmt.Errorf("%s: %d packets protected, %d unprotected", v.name, len(b.Packets), len(a.Packets))
	}
	used := map[string]bool{}
	for i := range a.Packets {
		p, q := a.Packets[i], b.Packets[i]
		if p.Tag != q.Tag {
			return fmt.Errorf("%s: packet %d has tag %d, unprotected %d", v.name, i, q.Tag, p.Tag)
		}
		if p.Tag != ref.TagSecKey && p.Tag != ref.TagSecSub {
			if !bytes.Equal(p.Body, q.Body) {
				return fmt.Errorf("%s: packet %d (tag %d) differs from the unprotected export", v.name, i, p.Tag)
			}
			continue
		}
		sp, err := ref.ParseSec(p)
		if err != nil {
			return err
		}
		sq, err := ref.ParseSec(q)
		if err != nil {
			return err
		}
		if !bytes.Equal(sp.Body, sq.Body) {
			return fmt.Errorf("%s: packet %d: public part differs", v.name, i)
		}
		if sp.Stub {
			if !bytes.Equal(p.Body, q.Body) {
				return fmt.Errorf("%s: stub differs", v.name)
			}
			continue
		}
		val, err := sq.Decrypt([]byte(c.PW))
		if err != nil {
			return fmt.Errorf("%s: packet %d does not decrypt under its password: %w", v.name, i, err)
		}
		if !bytes.Equal(val, sp.Private) {
			return fmt.Errorf("%s: packet %d decrypts to another private key", v.name, i)
		}
		if i == 0 || !v.full && len(used) == 0 {
			if _, err := sq.Decrypt([]byte(c.Other)); err != ref.ErrBadPassword {
				return fmt.Errorf("%s: packet %d under another password: %v", v.name, i, err)
			}
		}
		if err := leaks(v.name+": private key in a protected export", sp.Private, out); err != nil {
			return err
		}
		for _, x := range []string{"salt" + string(sq.Salt), "iv" + string(sq.IV)} {
			if used[x] {
				return fmt.Errorf("%s: two keys of one export share %x", v.name, x)
			}
			used[x] = true
		}
		if sq.Count < 1<<20 {
			return fmt.Errorf("%s: iteration count is only %d", v.name, sq.Count)
		}
	}
	saltMu.Lock()
	defer saltMu.Unlock()
	for x := range used {
		if saltSeen[x] {
			return fmt.Errorf("%s: %x was already used by an earlier export", v.name, x)
		}
		saltSeen[x] = true
	}
	if len(used) == 0 {
		r.Trivial()
	}
	return nil
}

func init() {
	type c09 = struct {
		Key KeyCase `json:"key"`
		PW  BS      `json:"password,omitempty"`
	}
	register(&Property{ID: "C07", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c07]{Name: "histories", Rule: "2-15 operations over 1-3 key sets: every export form and accessor, rebuilding from the same inputs in another zone / sub-second, recovering from the phrase, randomised exports in between; trivial if one key set and no rebuild",
			Gen: genC07, Check: checkC07, Quick: 8000, Thorough: 400000},
		&Sub[c07proc]{Name: "other-process", Rule: "batches of 8 keys exported by this process and by a fresh one with another time zone, locale, home, processor count, clock; all count",
			Gen: func(t *rapid.T) c07proc {
				var c c07proc
				for i := 0; i < 8; i++ {
					c.Keys = append(c.Keys, genKey(t))
					if i > 0 { // related to another one
						switch p := c.Keys[rapid.IntRange(0, i-1).Draw(t, "of")]; pick(t, "related", 3, 1, 2, 1) {
						case 1:
							c.Keys[i].Seed = p.Seed
						case 2:
							c.Keys[i].Seed, c.Keys[i].At = p.Seed, p.At
						case 3: // only the user ID differs
							k := c.Keys[i]
							c.Keys[i] = p
							c.Keys[i].NilOpts, c.Keys[i].Name, c.Keys[i].Email = false, k.Name, k.Email
						}
					}
				}
				c.Env = genEnv(t)
				c.CPU = rapid.Bool().Draw(t, "cpu")
				return c
			}, Check: checkC07Proc, Quick: 160, Thorough: 4000},
		&Sub[c07wait]{Name: "later", Rule: "20 keys observed, then again (same and rebuilt key sets) after more than one second; all count",
			Gen: func(t *rapid.T) c07wait {
				c := c07wait{Millis: rapid.IntRange(1050, 2200).Draw(t, "ms")}
				for i := 0; i < 20; i++ {
					c.Keys = append(c.Keys, genKey(t))
				}
				return c
			}, Check: checkC07Wait, Quick: 16, Thorough: 400},
	}})
	register(&Property{ID: "C08", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[KeyCase]{Name: "parse", Rule: "random keys with user IDs around every length form and indices searched for private keys with leading zero bytes; three export forms, binary and armored; trivial if default options",
			Gen: genKeyLong, Check: func(r *Rec, k KeyCase) error { triv(r, k); return checkC08(r, k) }, Quick: 24000, Thorough: 800000},
		&Sub[KeyCase]{Name: "short-integers", Rule: "keys whose subkey index was searched for a private integer with two leading zero bytes; all count",
			Gen: func(t *rapid.T) KeyCase {
				k := genKey(t)
				k.NilOpts, k.Subkeys = false, nil
				k.searchZero(rapid.IntRange(1, 2).Draw(t, "which"), 2)
				return k
			}, Check: checkC08, Quick: 120, Thorough: 6000},
		&Sub[KeyCase]{Name: "rare-values", Rule: rareRule, Enum: eachRare, Check: checkC08},
	}})
	register(&Property{ID: "C09", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c09]{Name: "verify", Rule: "random keys, three export forms; every signature verified; trivial if default options",
			Gen:   func(t *rapid.T) c09 { return c09{Key: genKeyLong(t)} },
			Check: func(r *Rec, c c09) error { triv(r, c.Key); return checkC09(r, c) }, Quick: 16000, Thorough: 600000},
		&Sub[c09]{Name: "verify-protected", Rule: "the same on password-protected exports; all count",
			Gen: func(t *rapid.T) c09 { return c09{genKey(t), genPassword(t, "pw")} }, Check: checkC09, Quick: 80, Thorough: 6000},
		&Sub[KeyCase]{Name: "rare-values", Rule: rareRule, Enum: eachRare, Check: func(r *Rec, k KeyCase) error { return checkC09(r, c09{Key: k}) }},
	}})
	register(&Property{ID: "C10", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[KeyCase]{Name: "capabilities", Rule: "random keys, three export forms; trivial if default options",
			Gen: genKeyLong, Check: func(r *Rec, k KeyCase) error { triv(r, k); return checkC10(r, k) }, Quick: 24000, Thorough: 800000},
	}})
	register(&Property{ID: "C11", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c11]{Name: "lifetime", Rule: "random keys with lifetimes over all int64 nanoseconds, concentrated on whole seconds and the edges 0, 1 s, 2^31 s, 2^32 s; trivial if none",
			Gen: func(t *rapid.T) c11 {
				k := genKey(t)
				k.NilOpts = false
				k.TTL = genAnyTTL(t)
				return c11{k}
			}, Check: checkC11, Quick: 16000, Thorough: 600000},
	}})
	register(&Property{ID: "C12", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c12]{Name: "selection", Rule: "random subsets, orders and duplicates of subkeys; the three export forms compared packet by packet with the full export and searched for 8-byte windows of keys that must not be there; trivial if the default selection",
			Gen: func(t *rapid.T) c12 {
				k := genKey(t)
				k.NilOpts = false
				if k.Subkeys == nil && pick(t, "force", 1, 2) == 1 {
					n := rapid.IntRange(0, 7).Draw(t, "mask")
					s := []string{}
					for i, kind := range ref.SubkeyKinds {
						if n>>i&1 == 1 {
							s = append(s, kind)
						}
					}
					k.Subkeys = &s
				}
				return c12{Key: k}
			}, Check: checkC12, Quick: 12000, Thorough: 400000},
		&Sub[c12]{Name: "selection-protected", Rule: "the same with a key password; trivial if the default selection",
			Gen: func(t *rapid.T) c12 { return c12{genKey(t), genPassword(t, "pw")} }, Check: checkC12, Quick: 48, Thorough: 3000},
	}})
	register(&Property{ID: "C13", Assumptions: []string{fastNote}, Subs: []subCheck{
		&Sub[c13]{Name: "protect", Rule: "random keys and passwords (any bytes, up to 5000), three export forms, binary or armored; trivial if no private key is exported",
			Gen: func(t *rapid.T) c13 {
				c := c13{Key: genKey(t), PW: genPassword(t, "pw"), Variant: rapid.IntRange(0, 2).Draw(t, "variant"), Armor: rapid.Bool().Draw(t, "armor")}
				c.Other = otherPassword(t, "other", c.PW)
				return c
			}, Check: checkC13, Quick: 300, Thorough: 15000},
	}})
}
