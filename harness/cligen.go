package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// cliOpts is what a user asks generate or recover for.
type cliOpts struct {
	Name     *BS       `json:"name,omitempty"`
	Email    *BS       `json:"email,omitempty"`
	TTL      string    `json:"ttl,omitempty"`
	Only     *[]string `json:"only,omitempty"`
	Enc      *uint16   `json:"enc,omitempty"`
	Auth     *uint16   `json:"auth,omitempty"`
	Sig      *uint16   `json:"sig,omitempty"`
	SelfCert *bool     `json:"self_cert,omitempty"`
	Verbose  bool      `json:"verbose,omitempty"`
	Style    uint32    `json:"style,omitempty"` // how flags are written and ordered
}

// arrange writes flags in one of the accepted forms and in some order.
func arrange(style uint32, flags [][2]string) []string {
	idx := make([]int, len(flags))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool {
		return hash64("order", style, idx[a]) < hash64("order", style, idx[b])
	})
	if style == 0 {
		sort.Ints(idx)
	}
	var out []string
	for _, i := range idx {
		name, val := flags[i][0], flags[i][1]
		dash := "-"
		h := hash64("style", style, i)
		if h%4 == 1 {
			dash = "--"
		}
		if style == 0 {
			h = 0
			dash = "-"
		}
		switch {
		case val == "\x00": // boolean
			if h>>8%4 == 1 {
				out = append(out, dash+name+"=true")
			} else {
				out = append(out, dash+name)
			}
		case name == "self-cert" || h>>8%2 == 1:
			out = append(out, dash+name+"="+val)
		default:
			out = append(out, dash+name, val)
		}
	}
	return out
}

const isBool = "\x00"

func (o cliOpts) flags(recover bool) [][2]string {
	var f [][2]string
	add := func(n, v string) { f = append(f, [2]string{n, v}) }
	if o.Name != nil {
		add("name", string(*o.Name))
	}
	if o.Email != nil {
		add("email", string(*o.Email))
	}
	if o.TTL != "" {
		add("ttl", o.TTL)
	}
	if o.Only != nil {
		add("only", strings.Join(*o.Only, ","))
	}
	if o.Verbose {
		add("verbose", isBool)
	}
	if recover {
		for _, x := range []struct {
			n string
			v *uint16
		}{{"enc-index", o.Enc}, {"auth-index", o.Auth}, {"sig-index", o.Sig}} {
			if x.v != nil {
				add(x.n, strconv.Itoa(int(*x.v)))
			}
		}
		if o.SelfCert != nil {
			add("self-cert", strconv.FormatBool(*o.SelfCert))
		}
	}
	return f
}

var ttlUnits = map[byte]int64{'d': 86400, 'w': 7 * 86400, 'm': 365 * 86400 / 12, 'y': 365 * 86400}

// ttlSeconds is the meaning of a lifetime flag; ok is false if it has to be refused.
func ttlSeconds(s string) (sec int64, ok bool) {
	if len(s) < 2 {
		return 0, false
	}
	u, known := ttlUnits[s[len(s)-1]|0x20]
	if !known {
		return 0, false
	}
	digits := s[:len(s)-1]
	for _, c := range []byte(digits) {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	n, _ := new(big.Int).SetString(digits, 10)
	n.Mul(n, big.NewInt(u))
	if n.Cmp(big.NewInt(maxTTLSec)) > 0 {
		return 0, false
	}
	return n.Int64(), true
}

// key describes what has to come out, for the key of a seed.
func (o cliOpts) key(seed Seed16, off uint32, recover bool) (k KeyCase, master, cert bool) {
	k = KeyCase{Seed: seed, At: TimeIn{Offset: off}, Name: Text{Lit: "anonymous"}}
	if o.Name != nil {
		k.Name = Text{Lit: BS(strings.TrimSpace(string(*o.Name)))}
	}
	if o.Email != nil {
		k.Email = Text{Lit: BS(strings.TrimSpace(string(*o.Email)))}
	}
	if o.TTL != "" {
		s, ok := ttlSeconds(o.TTL)
		if !ok {
			panic("bad ttl " + o.TTL)
		}
		k.TTL = s * int64(time.Second)
	}
	master, cert = true, true
	if o.Only != nil {
		master = false
		subs := []string{}
		for _, x := range *o.Only {
			if x == "master" {
				master = true
			} else {
				subs = append(subs, x)
			}
		}
		k.Subkeys = &subs
	}
	if recover {
		for _, x := range []struct {
			kind string
			v    *uint16
		}{{ref.Encryption, o.Enc}, {ref.Authentication, o.Auth}, {ref.Signing, o.Sig}} {
			if x.v != nil {
				k.setIndex(x.kind, *x.v)
			}
		}
		if o.SelfCert != nil && !*o.SelfCert && !master {
			cert = false
		}
	}
	return
}

func (o cliOpts) plain() bool {
	return o.Name == nil && o.Email == nil && o.TTL == "" && o.Only == nil && o.Enc == nil && o.Auth == nil && o.Sig == nil && o.SelfCert == nil
}

// genArg draws text that can be a command-line argument, perhaps with blanks around it.
func genArg(t *rapid.T, label string) BS {
	var s string
	kind := pick(t, label+"kind", 1, 4, 4, 2)
	if useDict(t, label) {
		kind = 4
	}
	switch kind {
	case 4:
		if pick(t, label+"dictlen", 2, 1) == 1 {
			s = strings.Repeat("x", dictLen(t, label, 2000))
		} else {
			s = dictStr(t, label)
		}
	case 0:
	case 1:
		s = rapid.SampledFrom(textSamples).Draw(t, label)
	case 2:
		s = rapid.String().Draw(t, label)
	case 3:
		s = rapid.SampledFrom([]string{"-x", "--", "-name", "=", "a=b", "a,b", "<x@y.z>", "<x@y.z", "mailto:x@y.z", "MAILTO:x@y.z", "two  blanks", "a \t b", "'quoted'", "\"Q\" R", "“q”", "X@Y.Z", "x@y.z.", "x@y, z@w", "none", "null", "-", "0", "Dr. No", "(comment)", "a;b", "a|b", "*", "~", "@file", "&amp;", "ß", "ﬁ", "İ", "A\u030A", "$HOME", "`id`", "%d", "\\n", "help", strings.Repeat("long ", 60)}).Draw(t, label)
	}
	s = strings.ReplaceAll(s, "\x00", "")
	// no blanks other than ASCII ones at the ends
	s = strings.TrimFunc(s, func(r rune) bool {
		return unicode.IsSpace(r) || unicode.IsControl(r) || r == utf8.RuneError || r > 0x2000 && r < 0x2070
	})
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	pads := []string{"", "", "", " ", "  ", "\t", "\n", " \r\n"}
	return BS(rapid.SampledFrom(pads).Draw(t, label+"l") + s + rapid.SampledFrom(pads).Draw(t, label+"r"))
}

// genCliEnv draws settings of the environment that do not concern the program.
func genCliEnv(t *rapid.T) (env []string) {
	if d := dict(); len(d.envs) > 0 && useDict(t, "env") {
		v := rapid.SampledFrom([]string{"1", "0", "", "x", "true", "/tmp"}).Draw(t, "envval")
		if rapid.Bool().Draw(t, "envlit") {
			v = strings.ReplaceAll(dictStr(t, "envlit"), "\x00", "")
		}
		env = append(env, rapid.SampledFrom(d.envs).Draw(t, "envname")+"="+v)
	}
	if pick(t, "env", 2, 1) == 0 {
		return env
	}
	for n := rapid.IntRange(1, 4).Draw(t, "envn"); n > 0; n-- {
		env = append(env, rapid.SampledFrom([]string{"NO_COLOR=1", "NO_COLOR=", "CLICOLOR_FORCE=1", "FORCE_COLOR=1", "TERM=dumb", "TERM=", "TERM=vt100", "COLORTERM=truecolor", "COLUMNS=20", "COLUMNS=0", "COLUMNS=x", "COLUMNS=-1", "LINES=2", "SOURCE_DATE_EPOCH=0", "SOURCE_DATE_EPOCH=1700000000", "SOURCE_DATE_EPOCH=x", "LANG=tr_TR.UTF-8", "LC_ALL=C", "LC_ALL=de_DE.UTF-8", "DEBUG=1", "VERBOSE=1", "CI=true", "USER=bob", "LOGNAME=bob", "NAME=Bob", "EMAIL=bob@example.com", "GIT_AUTHOR_NAME=Bob", "PAGER=cat", "EDITOR=true", "DISPLAY=:0", "SSH_CONNECTION=1", "GNUPGHOME=/nonexistent", "PASSWORD=x", "GOMAXPROCS=1", "GOGC=1", "GODEBUG=madvdontneed=1"}).Draw(t, "setting"))
	}
	return env
}

func genGoodTTL(t *rapid.T) string {
	u := rapid.SampledFrom([]string{"d", "w", "m", "y", "D", "W", "M", "Y"}).Draw(t, "ttlunit")
	max := int64(maxTTLSec) / ttlUnits[u[0]|0x20]
	var n int64
	kind := pick(t, "ttln", 3, 2, 2)
	if useDict(t, "ttl") {
		kind = 3
	}
	switch kind {
	case 3:
		n = 1 + int64(dictNum(t, "ttllit", uint64(max)-1))
		if n > 1 && rapid.Bool().Draw(t, "ttlexact") {
			n--
		}
	case 0:
		n = rapid.Int64Range(1, 60).Draw(t, "ttlsmall")
		if n > max {
			n = max
		}
	case 1:
		n = rapid.Int64Range(1, max).Draw(t, "ttlany")
	case 2:
		n = max - rapid.Int64Range(0, 3).Draw(t, "ttlmax")
	}
	s := strconv.FormatInt(n, 10) + u
	if pick(t, "ttlzero", 9, 1) == 1 {
		s = "00" + s
	}
	return s
}

func genOnly(t *rapid.T) *[]string {
	all := []string{"master", ref.Encryption, ref.Authentication, ref.Signing}
	switch pick(t, "onlykind", 4, 2) {
	case 0:
		p := rapid.Permutation(all).Draw(t, "onlyperm")
		q := append([]string{}, p[:rapid.IntRange(1, 4).Draw(t, "onlyn")]...)
		return &q
	}
	q := rapid.SliceOfN(rapid.SampledFrom(all), 1, 5).Draw(t, "only")
	return &q
}

func genCliOpts(t *rapid.T, recover bool) cliOpts {
	var o cliOpts
	has := func(label string, a, b int) bool { return pick(t, "has"+label, a, b) == 1 }
	if has("name", 1, 1) {
		v := genArg(t, "name")
		o.Name = &v
	}
	if has("email", 1, 1) {
		v := genArg(t, "email")
		o.Email = &v
	}
	if o.Email != nil && o.Name != nil && has("related", 9, 1) {
		n, e := relatedNames(t, Text{Lit: BS(strings.TrimSpace(string(*o.Name)))}, Text{Lit: BS(strings.TrimSpace(string(*o.Email)))})
		n.Lit, e.Lit = BS(strings.TrimSpace(string(n.Lit))), BS(strings.TrimSpace(string(e.Lit)))
		o.Name, o.Email = &n.Lit, &e.Lit
	}
	if has("ttl", 3, 2) {
		o.TTL = genGoodTTL(t)
	}
	if has("only", 1, 1) {
		o.Only = genOnly(t)
	}
	if recover {
		for i, p := range []**uint16{&o.Enc, &o.Auth, &o.Sig} {
			if has("idx"+strconv.Itoa(i), 2, 1) {
				v := genIndex(t, "idx"+strconv.Itoa(i))
				*p = &v
			}
		}
		if has("cert", 2, 1) {
			v := rapid.Bool().Draw(t, "cert")
			o.SelfCert = &v
		}
	}
	o.Verbose = has("verbose", 4, 1)
	o.Style = rapid.Uint32Range(0, 1<<16).Draw(t, "style")
	return o
}

// genTtyPassword draws a password that can be typed at a terminal.
func genTtyPassword(t *rapid.T, label string) BS {
	if useDict(t, label) {
		if pick(t, label+"dictlen", 2, 1) == 1 {
			return BS(strings.Repeat("Ab9", 400)[:1+dictLen(t, label, 999)])
		}
		s := strings.Map(func(r rune) rune {
			if unicode.IsPrint(r) && r != utf8.RuneError {
				return r
			}
			return -1
		}, dictStr(t, label))
		if s != "" && len(s) < 500 {
			return BS(s)
		}
	}
	switch pick(t, label+"kind", 4, 2, 2, 1) {
	case 1:
		return BS(rapid.SampledFrom([]string{"a", " ", "  x ", "пароль", "密码 密码", "é", "pass word", "%s", "'\"\\", "0", "yes"}).Draw(t, label))
	case 2:
		return BS(rapid.StringOfN(rapid.RuneFrom([]rune("aBc é日!~ 0")), 1, 20, -1).Draw(t, label))
	case 3:
		n := rapid.SampledFrom([]int{63, 64, 65, 72, 73, 128, 255, 256, 257, 1000}).Draw(t, label+"len")
		return BS(strings.Repeat("Ab9", n/3+1)[:n-1] + rapid.StringMatching(`[a-z]`).Draw(t, label))
	}
	return BS(rapid.StringMatching(`[!-~][ -~]{0,20}`).Draw(t, label))
}

// secretPassword draws a password that cannot appear in output by coincidence.
func secretPassword(t *rapid.T, label string) BS {
	n := rapid.IntRange(0, 40).Draw(t, label+"n")
	return BS("Zq" + fmt.Sprintf("%X", expandBytes(6, "pw", rapid.Uint32().Draw(t, label))) + strings.Repeat("é x", n)[:n/4*4])
}

// otherTtyPassword is different from p and can be typed.
func otherTtyPassword(t *rapid.T, label string, p BS) BS {
	q := string(p)
	switch pick(t, label+"mut", 3, 2, 2, 1, 1, 1) {
	case 0:
		q = string(genTtyPassword(t, label))
	case 1:
		q += " "
	case 2:
		_, n := utf8.DecodeLastRuneInString(q)
		q = q[:len(q)-n]
	case 3:
		q = strings.ToUpper(q)
	case 4:
		q = " " + q
	case 5:
		q += q
	}
	if q == string(p) || q == "" {
		q = string(p) + "!"
	}
	return BS(q)
}

// cliPhrase is a phrase of known content.
type cliPhrase struct {
	Seed   Seed16 `json:"seed"`
	Offset uint32 `json:"offset"`
	PW     BS     `json:"password,omitempty"` // encrypted if not empty
	Salt   uint32 `json:"salt,omitempty"`
}

func (p cliPhrase) words() []string {
	if p.PW == "" {
		return ref.PlainPhrase(p.Seed, p.Offset)
	}
	return ref.EncPhrase(p.Seed, p.Offset, []byte(p.PW), p.Salt)
}

func genCliPhrase(t *rapid.T, enc bool) cliPhrase {
	p := cliPhrase{Seed: genSeed(t), Offset: genOffset(t)}
	if pick(t, "rarekey", 14, 1) == 1 {
		k := genRare(t)
		p.Seed, p.Offset = k.Seed, k.At.Offset
	}
	if enc {
		p.PW, p.Salt = genTtyPassword(t, "ppw"), genSalt(t)
		p.Seed = genSealed(t, p.Seed, p.PW, p.Salt, p.Offset)
	}
	return p
}

// entry is a way of giving the words to recover or convert.
var entries = []string{"file", "pipe", "pipe-simple", "keys", "tty-simple"}

// enter completes a run with the words given by an entry method; pws are password steps that follow.
func enter(run cliRun, how string, words []string, dir string, flags [][2]string, style uint32, cmd string, after []step) cliRun {
	text := strings.Join(words, " ")
	if len(after) > 0 || how == "keys" || how == "tty-simple" {
		run.Tty = true
		if how == "pipe" {
			how = "keys"
		} else if how == "pipe-simple" {
			how = "tty-simple"
		}
	}
	switch how {
	case "file":
		flags = append(flags, [2]string{"in-word-file", writeFile(dir, "in words", text+"\n")})
		if !run.Tty {
			run.Null = true
		}
	case "pipe":
		run.Stdin = []byte(strings.Join(words, "\n") + "\n")
	case "pipe-simple":
		flags = append(flags, [2]string{"simple", isBool})
		run.Stdin = []byte(strings.Join(words, "\n") + "\n")
	case "keys":
		run.Script = append(run.Script, step{"keys", BS(strings.ToLower(strings.Join(words, "\r")) + "\r")})
	case "tty-simple":
		flags = append(flags, [2]string{"simple", isBool})
		run.Script = append(run.Script, step{"type", BS(strings.Join(words, "\n") + "\n")})
	}
	run.Script = append(run.Script, after...)
	run.Args = append([]string{cmd}, arrange(style, flags)...)
	run.Dir = dir
	return run
}
