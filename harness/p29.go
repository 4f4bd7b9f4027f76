package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	mk "github.com/kklash/mnemonikey"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// gpgHome is a GnuPG home directory of its own under the temporary directory.
type gpgHome struct {
	dir string
	now int64
	log []string
}

func newGPG(now int64, pw BS) (*gpgHome, error) {
	dir, err := os.MkdirTemp("/tmp", "g")
	if err != nil {
		return nil, infra("%v", err)
	}
	os.Chmod(dir, 0700)
	// a cheap re-protection of the imported keys
	os.WriteFile(filepath.Join(dir, "gpg-agent.conf"), []byte("s2k-count 65536\ndisable-scdaemon\nallow-loopback-pinentry\n"), 0600)
	os.WriteFile(filepath.Join(dir, "pw"), []byte(string(pw)+"\n"), 0600)
	return &gpgHome{dir: dir, now: now}, nil
}

func gpgEnv() []string {
	return []string{"PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin", "LC_ALL=C.UTF-8", "HOME=/nonexistent", "TZ=UTC"}
}

func (g *gpgHome) close() {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "gpgconf", "--homedir", g.dir, "--kill", "all")
	c.Env = gpgEnv()
	c.Run()
	os.RemoveAll(g.dir)
}

// run runs gpg; a run that does not end is blamed on the environment.
func (g *gpgHome) run(stdin []byte, args ...string) (stdout []byte, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	base := []string{"--homedir", g.dir, "--no-options", "--batch", "--no-tty", "--yes", "--quiet", "--trust-model", "always", "--no-auto-check-trustdb",
		"--pinentry-mode", "loopback", "--passphrase-file", filepath.Join(g.dir, "pw"), "--display-charset", "utf-8", "--faked-system-time", strconv.FormatInt(g.now, 10)}
	c := exec.CommandContext(ctx, "gpg", append(base, args...)...)
	c.Env = gpgEnv()
	c.Stdin = bytes.NewReader(stdin)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err = c.Run()
	if ctx.Err() != nil {
		return nil, infra("gpg %q does not end", args)
	}
	if err != nil {
		return o.Bytes(), fmt.Errorf("gpg %s: %v: %s", strings.Join(args, " "), err, clip(strings.TrimSpace(e.String()), 500))
	}
	return o.Bytes(), nil
}

type gpgKey struct {
	typ, caps, token, fp string
	created, expires     int64
}

type gpgList struct {
	keys []gpgKey
	uids []string
}

var reColonEsc = regexp.MustCompile(`\\x([0-9a-f]{2})`)

func uncolon(s string) string {
	return reColonEsc.ReplaceAllStringFunc(s, func(x string) string {
		n, _ := strconv.ParseUint(x[2:], 16, 8)
		return string([]byte{byte(n)})
	})
}

// list parses the colon listing of a key; revoked, expired or invalid keys are errors.
func (g *gpgHome) list(cmd string, fp string) (*gpgList, error) {
	out, err := g.run(nil, "--with-colons", "--fixed-list-mode", "--with-fingerprint", "--with-subkey-fingerprint", cmd, fp)
	if err != nil {
		return nil, err
	}
	l := &gpgList{}
	for _, line := range strings.Split(string(out), "\n") {
		f := strings.Split(line, ":")
		switch f[0] {
		case "sec", "ssb", "pub", "sub":
			if len(f) < 15 {
				return nil, infra("gpg listing %q", line)
			}
			if strings.ContainsAny(f[1], "ideran") {
				return nil, fmt.Errorf("gpg lists the key as invalid, disabled, revoked or expired: %s", line)
			}
			k := gpgKey{typ: f[0], token: f[14]}
			k.created, _ = strconv.ParseInt(f[5], 10, 64)
			if f[6] != "" {
				k.expires, _ = strconv.ParseInt(f[6], 10, 64)
			}
			for _, r := range f[11] {
				if r >= 'a' && r <= 'z' {
					k.caps += string(r)
				}
			}
			l.keys = append(l.keys, k)
		case "fpr":
			if n := len(l.keys); n > 0 && l.keys[n-1].fp == "" {
				l.keys[n-1].fp = f[9]
			}
		case "uid":
			l.uids = append(l.uids, uncolon(f[9]))
		}
	}
	return l, nil
}

var kindCaps = map[string]string{ref.Master: "c", ref.Encryption: "e", ref.Signing: "s", ref.Authentication: "a"}

// lists compares the listings with what the key ought to be.
func (g *gpgHome) lists(k KeyCase, master bool) error {
	want := k.Ref()
	hexfp := func(kind string) string { return strings.ToUpper(hex.EncodeToString(want[kind].FP)) }
	created := int64(k.At.Offset) + ref.EpochStart
	var expires int64
	if k.TTL > 0 {
		expires = created + k.TTL/int64(time.Second)
	}
	for _, cmd := range []string{"--list-secret-keys", "--list-keys"} {
		l, err := g.list(cmd, hexfp(ref.Master))
		if err != nil {
			return err
		}
		if len(l.uids) != 1 || l.uids[0] != k.UID() {
			return fmt.Errorf("gpg %s: user IDs %.120q, want %.120q", cmd, l.uids, k.UID())
		}
		seen := map[string]bool{}
		for i, x := range l.keys {
			kind := ref.Master
			if i > 0 {
				kind = ""
				for _, s := range k.Kinds() {
					if hexfp(s) == x.fp {
						kind = s
					}
				}
			}
			if kind == "" || x.fp != hexfp(kind) || seen[kind] {
				return fmt.Errorf("gpg %s: unexpected key %s", cmd, x.fp)
			}
			seen[kind] = true
			if x.created != created || x.expires != expires {
				return fmt.Errorf("gpg %s: %s key created %d, expires %d, want %d, %d", cmd, kind, x.created, x.expires, created, expires)
			}
			if x.caps != kindCaps[kind] {
				return fmt.Errorf("gpg %s: %s key has capabilities %q, want %q", cmd, kind, x.caps, kindCaps[kind])
			}
			if cmd == "--list-secret-keys" {
				token := "+"
				if kind == ref.Master && !master {
					token = "#"
				}
				if x.token != token {
					return fmt.Errorf("gpg: availability of the secret %s key is %q, want %q", kind, x.token, token)
				}
			}
		}
		if len(seen) != len(k.Kinds())+1 {
			return fmt.Errorf("gpg %s: keys %v, want master and %v", cmd, l.keys, k.Kinds())
		}
	}
	return nil
}

type c29 struct {
	Key     KeyCase `json:"key"`
	PW      BS      `json:"password,omitempty"` // protects the first export
	PW2     BS      `json:"password2,omitempty"`
	Variant string  `json:"variant"` // what the second home gets: full, subkeys, subkeys-nocert
	Armor   bool    `json:"armor,omitempty"`
	Msg     BS      `json:"msg"`
}

func (c c29) now() int64 {
	now := int64(3600)
	if t := c.Key.TTL / int64(time.Second); t > 0 && t <= 2*now {
		now = t / 2
	}
	return int64(c.Key.At.Offset) + ref.EpochStart + now
}

func gpgExport(m *mk.Mnemonikey, variant string, pw BS, armor bool) ([]byte, error) {
	var p []byte
	if pw != "" {
		p = []byte(pw)
	}
	switch {
	case variant == "full" && armor:
		s, err := m.EncodePGPArmor(p)
		return []byte(s), err
	case variant == "full":
		return m.EncodePGP(p)
	case armor:
		s, err := m.EncodeSubkeysPGPArmor(p, variant == "subkeys")
		return []byte(s), err
	}
	return m.EncodeSubkeysPGP(p, variant == "subkeys")
}

func checkC29(r *Rec, c c29) error {
	err := useInGPG(r, c)
	if os.Getenv("VERIF_GPG_CONTROL") != "" {
		if err := gpgControl(); err != nil {
			return infra("control: %v", err)
		}
	}
	if _, bad := err.(infraError); err == nil || bad {
		return err
	}
	if cerr := gpgControl(); cerr != nil { // GnuPG does not even work with a key known to be good
		return infra("the GnuPG control fails (%v) besides %v", cerr, err)
	}
	return err
}

func useInGPG(r *Rec, c c29) error {
	k := c.Key
	m, err := k.Build()
	if err != nil {
		return err
	}
	words, err := m.EncodeMnemonicPlaintext()
	if err != nil {
		return err
	}
	m2, err := mk.RecoverPlaintext(words, k.Opts())
	if err != nil {
		return err
	}
	first, err := gpgExport(m, "full", c.PW, c.Armor)
	if err != nil {
		return err
	}
	second, err := gpgExport(m2, c.Variant, c.PW2, !c.Armor)
	if err != nil {
		return err
	}
	pub := k.Ref()
	fp := func(kind string) string { return strings.ToUpper(hex.EncodeToString(pub[kind].FP)) }
	has := map[string]bool{}
	for _, kind := range k.Kinds() {
		has[kind] = true
	}
	r.Label(c.Variant)
	return twoHomes(c, first, second, fp, has, func(g *gpgHome, master bool) error { return g.lists(k, master) }, pub[ref.Authentication].Public)
}

// twoHomes puts one export in each of two homes and makes them talk.
func twoHomes(c c29, first, second []byte, fp func(string) string, has map[string]bool, lists func(*gpgHome, bool) error, authPub []byte) error {
	a, err := newGPG(c.now(), c.PW)
	if err != nil {
		return err
	}
	defer a.close()
	if _, err := a.run(first, "--import"); err != nil {
		return err
	}
	if err := lists(a, true); err != nil {
		return err
	}
	b, err := newGPG(c.now(), c.PW2)
	if err != nil {
		return err
	}
	defer b.close()
	if c.Variant == "subkeys-nocert" { // such an export needs the certified public key
		public, err := a.run(nil, "--export", fp(ref.Master))
		if err != nil {
			return err
		}
		if _, err := b.run(public, "--import"); err != nil {
			return err
		}
	}
	if _, err := b.run(second, "--import"); err != nil {
		return err
	}
	if err := lists(b, c.Variant == "full"); err != nil {
		return fmt.Errorf("%s: %w", c.Variant, err)
	}
	msg := []byte(c.Msg)
	homes := []*gpgHome{a, b}
	if has[ref.Encryption] {
		for i, g := range homes {
			enc, err := g.run(msg, "--recipient", fp(ref.Master), "--encrypt")
			if err != nil {
				return err
			}
			for j, h := range homes {
				got, err := h.run(enc, "--decrypt")
				if err != nil {
					return fmt.Errorf("home %d: %w", j+1, err)
				}
				if !bytes.Equal(got, msg) {
					return fmt.Errorf("home %d decrypts what home %d encrypted to %.50q", j+1, i+1, got)
				}
			}
		}
	}
	if has[ref.Signing] {
		for i, g := range homes {
			sig, err := g.run(msg, "--local-user", fp(ref.Master), "--sign")
			if err != nil {
				return fmt.Errorf("home %d: %w", i+1, err)
			}
			f := filepath.Join(g.dir, "signed")
			os.WriteFile(f, sig, 0600)
			for j, h := range homes {
				st, err := h.run(nil, "--status-fd", "1", "--verify", f)
				if err != nil {
					return fmt.Errorf("home %d: %w", j+1, err)
				}
				if x := reValidSig.FindSubmatch(st); x == nil || string(x[1]) != fp(ref.Signing) || string(x[2]) != fp(ref.Master) {
					return fmt.Errorf("home %d verifies the signature of home %d as %q", j+1, i+1, st)
				}
			}
		}
	}
	if has[ref.Authentication] && authPub != nil {
		ssh, err := b.run(nil, "--export-ssh-key", fp(ref.Authentication)+"!")
		if err != nil {
			return err
		}
		f := strings.Fields(string(ssh))
		if len(f) < 2 {
			return fmt.Errorf("gpg --export-ssh-key: %q", ssh)
		}
		blob, _ := base64.StdEncoding.DecodeString(f[1])
		if !bytes.HasSuffix(blob, authPub[len(authPub)-32:]) {
			return fmt.Errorf("gpg --export-ssh-key: %q is not the authentication key %X", ssh, authPub)
		}
	}
	// the master key certifies
	if _, err := a.run(nil, "--quick-add-uid", fp(ref.Master), "second identity of this key"); err != nil {
		return fmt.Errorf("using the master key: %w", err)
	}
	return nil
}

var reValidSig = regexp.MustCompile(`(?m)^\[GNUPG:\] VALIDSIG ([0-9A-F]{40}) .* ([0-9A-F]{40})$`)

//go:embed control.json
var controlJSON []byte

type gpgControlCase struct {
	Case          c29               `json:"case"`
	First, Second []byte            // exports made by the commit under study
	FP            map[string]string `json:"fp"`
}

var (
	controlOnce sync.Once
	controlErr  error
)

func gpgControl() error {
	controlOnce.Do(func() {
		var c gpgControlCase
		if controlErr = json.Unmarshal(controlJSON, &c); controlErr != nil {
			return
		}
		has := map[string]bool{ref.Encryption: true, ref.Signing: true, ref.Authentication: true}
		controlErr = twoHomes(c.Case, c.First, c.Second, func(kind string) string { return c.FP[kind] }, has, func(g *gpgHome, _ bool) error {
			_, err := g.list("--list-secret-keys", c.FP[ref.Master])
			return err
		}, nil)
	})
	return controlErr
}

// gpgUID draws user ID parts that GnuPG prints back unchanged in UTF-8.
func gpgText(t *rapid.T, label string) Text {
	switch pick(t, label+"kind", 2, 3, 2, 1) {
	case 0:
		return Text{}
	case 1:
		return Text{Lit: BS(rapid.SampledFrom([]string{"Alice", "Alice Example", "alice@example.com", "a:b", `back\slash`, "Zoë", "Пётр", "山田太郎", "x", "A (comment)", "a <b> c", "\"q\"", "100%", "#", "a@b", "O'Neil", "tab	inside", "🔑"}).Draw(t, label))}
	case 2:
		return Text{Lit: BS(rapid.StringMatching(`[!-~]([ -~]{0,60}[!-~])?`).Draw(t, label))}
	}
	return Text{Lit: "n", Pad: rapid.SampledFrom([]int{100, 180, 185, 190, 191, 192, 193, 250, 255, 256, 257, 500, 900}).Draw(t, label+"len")}
}

func gpgPassword(t *rapid.T, label string) BS {
	if pick(t, label+"protected", 1, 1) == 0 {
		return ""
	}
	return BS(rapid.OneOf(rapid.StringMatching(`[!-~]([ -~]{0,40}[!-~])?`), rapid.SampledFrom([]string{"a", "пароль", "correct horse battery staple", "密码", "é", "p w", strings.Repeat("long", 25)})).Draw(t, label))
}

func gpgKeyCase(t *rapid.T) KeyCase {
	k := KeyCase{Seed: genSeed(t), At: genTime(t)}
	k.Name, k.Email = gpgText(t, "name"), gpgText(t, "email")
	if k.UID() == "" {
		k.Name = Text{Lit: "n"}
	}
	k.Enc, k.Auth, k.Sig = genIndex(t, "enc"), genIndex(t, "auth"), genIndex(t, "sig")
	if pick(t, "subset", 2, 1) == 1 {
		k.Subkeys = genSubkeys(t)
	}
	if pick(t, "search", 1, 1) == 1 {
		k.searchZero(rapid.IntRange(0, 2).Draw(t, "which"), 1)
	}
	if pick(t, "expires", 1, 1) == 1 {
		// GnuPG counts in 32 bits of seconds since 1970
		max := int64(1<<32-1) - (int64(k.At.Offset) + ref.EpochStart)
		k.TTL = rapid.OneOf(rapid.Int64Range(60, 86400), rapid.Int64Range(60, max), rapid.SampledFrom([]int64{86400, 365 * 86400, 60})).Draw(t, "ttl") * int64(time.Second)
		if k.TTL > max*int64(time.Second) {
			k.TTL = max * int64(time.Second)
		}
	}
	return k
}

func genC29(t *rapid.T) c29 {
	c := c29{Key: gpgKeyCase(t), PW: gpgPassword(t, "pw"), PW2: gpgPassword(t, "pw2"), Armor: rapid.Bool().Draw(t, "armor")}
	c.Variant = rapid.SampledFrom([]string{"full", "subkeys", "subkeys-nocert"}).Draw(t, "variant")
	if len(c.Key.Kinds()) == 0 {
		c.Variant = "full"
	}
	c.Msg = BS(rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "msg"))
	return c
}

// many imports several keys in one home and compares the listings.
type c29many struct {
	Keys []KeyCase `json:"keys"`
	Subs []bool    `json:"subs"`
}

func checkC29Many(r *Rec, c c29many) error {
	err := listMany(c)
	if _, bad := err.(infraError); err == nil || bad {
		return err
	}
	if cerr := gpgControl(); cerr != nil {
		return infra("the GnuPG control fails (%v) besides %v", cerr, err)
	}
	return err
}

func listMany(c c29many) error {
	if len(c.Keys) == 0 {
		return nil
	}
	g, err := newGPG(0, "")
	if err != nil {
		return err
	}
	defer g.close()
	done := map[string]bool{}
	for i, k := range c.Keys {
		m, err := k.Build()
		if err != nil {
			return err
		}
		id := string(m.Fingerprint())
		if done[id] {
			continue
		}
		done[id] = true
		variant := "full"
		if c.Subs[i] && len(k.Kinds()) > 0 {
			variant = "subkeys"
		}
		data, err := gpgExport(m, variant, "", false)
		if err != nil {
			return err
		}
		g.now = c29{Key: k}.now()
		if _, err := g.run(data, "--import"); err != nil {
			return err
		}
		if err := g.lists(k, variant == "full"); err != nil {
			return fmt.Errorf("key %d, %s: %w", i+1, variant, err)
		}
	}
	return nil
}

func init() {
	register(&Property{ID: "C29", Assumptions: []string{fastNote, "GnuPG 2.4.4 is the oracle; a failure counts only if GnuPG still handles a stored known-good key", "user IDs are non-empty printable UTF-8 up to about 2000 bytes, expiry lies before 2106"}, Subs: []subCheck{
		&Sub[c29]{Name: "use", Rule: "random keys (half with a leading-zero integer), protected or not; original in one GnuPG home, recovered full or subkeys-only export in another: listings, encrypt/decrypt and sign/verify across both, ssh export, certification; all count", Gen: genC29, Check: checkC29, Quick: 100, Thorough: 3000, Confirm: 2, Limit: 10 * time.Minute},
		&Sub[c29many]{Name: "import", Rule: "lists of random keys imported into one GnuPG home, listings compared with the reference; all count", Check: checkC29Many, Quick: 400, Thorough: 20000, Confirm: 2, Limit: 10 * time.Minute,
			Gen: func(t *rapid.T) c29many {
				var c c29many
				for n := rapid.IntRange(1, 8).Draw(t, "n"); n > 0; n-- {
					c.Keys = append(c.Keys, gpgKeyCase(t))
					c.Subs = append(c.Subs, rapid.Bool().Draw(t, "sub"))
				}
				return c
			}},
	}})
}
