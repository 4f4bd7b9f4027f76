package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// ---- C21

type c21 struct {
	Opts    cliOpts  `json:"opts"`
	Recover cliOpts  `json:"recover"` // style, self-cert and verbose of the recovery
	Source  string   `json:"source"`  // file, stdin, random
	Entropy Seed16   `json:"entropy"`
	Extra   int      `json:"extra,omitempty"` // further bytes in the source
	PhrPW   BS       `json:"phrase_password,omitempty"`
	KeyPW   BS       `json:"key_password,omitempty"`
	OutFile bool     `json:"out_file,omitempty"`
	Tty     bool     `json:"tty,omitempty"`
	Entry   string   `json:"entry"`
	TZ      string   `json:"tz,omitempty"`
	Slow    int      `json:"slow_ms,omitempty"` // pause before the passwords, or in the entropy on standard input
	Chunk   int      `json:"chunk,omitempty"`   // entropy on standard input comes in pieces
	Text    BS       `json:"text,omitempty"`    // the rest of the entropy file, instead of Extra bytes
	Clock   *Clock   `json:"clock,omitempty"`   // of generate
	Clock2  *Clock   `json:"clock2,omitempty"`  // of recover
	Env     []string `json:"env,omitempty"`     // of generate
	Env2    []string `json:"env2,omitempty"`    // of recover
	Name    BS       `json:"entropy_file,omitempty"`
	Here    bool     `json:"in_working_directory,omitempty"`
	Via     string   `json:"via,omitempty"` // link, pipe
}

func pwSteps(pw BS) []step {
	if pw == "" {
		return nil
	}
	return []step{{"pw", pw}, {"pw", pw}}
}

// genRun builds a generate command.
type genRun struct {
	opts    cliOpts
	source  string
	entropy []byte
	phrPW   BS
	keyPW   BS
	outFile string
	tty     bool
	name    string // of the entropy file
	here    bool
	via     string
}

func (g genRun) build(dir string) cliRun {
	f := g.opts.flags(false)
	run := cliRun{Dir: dir, Null: true}
	switch g.source {
	case "file":
		path := filepath.Join(dir, "entropy")
		if g.name != "" {
			os.Mkdir(filepath.Join(dir, "ent"), 0755)
			path = filepath.Join(dir, "ent", g.name)
		}
		switch g.via {
		case "link":
			writeFile(dir, "\x01real", string(g.entropy))
			os.Symlink(filepath.Join(dir, "\x01real"), path)
		case "pipe":
			givePipe(path, string(g.entropy))
		default:
			writeFile(filepath.Dir(path), filepath.Base(path), string(g.entropy))
		}
		if g.here {
			run.Dir = filepath.Dir(path)
			if path = filepath.Base(path); path == "-" {
				path = "./-" // the name alone is standard input
			}
		}
		f = append(f, [2]string{"unsafe-entropy", path})
	case "stdin":
		f = append(f, [2]string{"unsafe-entropy", "-"})
		run.Null, run.Stdin = false, g.entropy
	}
	if g.outFile != "" {
		f = append(f, [2]string{"out-word-file", g.outFile})
	}
	if g.keyPW != "" {
		f = append(f, [2]string{"encrypt-keys", isBool})
		run.Script = append(run.Script, pwSteps(g.keyPW)...)
	}
	if g.phrPW != "" {
		f = append(f, [2]string{"encrypt-phrase", isBool})
		run.Script = append(run.Script, pwSteps(g.phrPW)...)
	}
	run.Tty = g.tty || len(run.Script) > 0
	run.Args = append([]string{"generate"}, arrange(g.opts.Style, f)...)
	return run
}

// givePipe makes a named pipe that gives a text once, as a shell does with <(...).
func givePipe(path, text string) {
	if err := syscall.Mkfifo(path, 0600); err != nil {
		panic(infraError{err})
	}
	go func() {
		if f, err := os.OpenFile(path, os.O_WRONLY, 0); err == nil {
			f.WriteString(text)
			f.Close()
		}
	}()
}

// endPipe lets the writer go if nobody has opened the pipe.
func endPipe(path string) {
	if f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
		f.Close()
	}
}

// opened reads a phrase with the reference model.
func openPhrase(words []string, pw BS) (seed Seed16, off uint32, err error) {
	p, def := ref.Classify(words)
	if def != 0 {
		return seed, 0, fmt.Errorf("phrase %q is not valid (%#x)", phrase(words), def)
	}
	if p.Encrypted != (pw != "") {
		return seed, 0, fmt.Errorf("phrase %q encrypted: %v, want %v", phrase(words), p.Encrypted, pw != "")
	}
	if !p.Encrypted {
		return Seed16(p.Entropy), p.Offset, nil
	}
	s, verify := ref.DecryptSeed(p.Entropy, []byte(pw), p.Salt, p.Offset)
	if verify != p.Verify {
		return seed, 0, fmt.Errorf("phrase %q is not opened by the password", phrase(words))
	}
	return Seed16(s), p.Offset, nil
}

func readWords(path string) ([]string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, fmt.Errorf("word file: %w", err)
	}
	w := strings.Fields(string(b))
	if string(b) != strings.Join(w, " ")+"\n" {
		return nil, fmt.Errorf("word file content %q", b)
	}
	return w, nil
}

func nowOffsets(o *cliOut) (lo, hi int64) {
	return o.Start.Unix() - ref.EpochStart - 1, o.End.Unix() - ref.EpochStart + 1
}

func checkC21(r *Rec, c c21) error {
	dir, rm := scratch()
	defer rm()
	g := genRun{opts: c.Opts, source: c.Source, phrPW: c.PhrPW, keyPW: c.KeyPW, tty: c.Tty, name: string(c.Name), here: c.Here, via: c.Via}
	if c.Via == "pipe" && c.Source == "file" {
		defer endPipe(filepath.Join(dir, "ent", g.name))
	}
	if c.Source == "stdin" && (c.Tty || c.PhrPW != "" || c.KeyPW != "") {
		g.source = "file"
	}
	if c.Source != "random" {
		g.entropy = append(append([]byte{}, c.Entropy[:]...), expandBytes(c.Extra, "extra")...)
		if c.Text != "" { // a text file
			g.entropy = append(append([]byte{}, c.Entropy[:]...), c.Text...)
		}
	}
	if c.OutFile {
		g.outFile = filepath.Join(dir, "words")
	}
	run := g.build(dir)
	if c.Slow > 0 && len(run.Script) > 0 {
		// a second or more passes while the user thinks of a password
		run.Script = append([]step{{"pause", BS(strconv.Itoa(c.Slow))}}, run.Script...)
		r.Label("slow-user")
	}
	if g.source == "stdin" && c.Chunk > 0 {
		run.Chunk, run.Pause = c.Chunk, time.Millisecond
		if c.Slow > 0 {
			run.Pause = time.Duration(c.Slow) * time.Millisecond / time.Duration(1+15/c.Chunk)
		}
		r.Label("slow-source")
	}
	if c.TZ != "" {
		run.Env = append(run.Env, "TZ="+c.TZ)
	}
	if !clockCLI() {
		c.Clock, c.Clock2 = nil, nil
	}
	run.Env = append(append(run.Env, c.Env...), c.Clock.env()...)
	out, err := run.run()
	if err != nil {
		return err
	}
	if c.Clock != nil {
		r.Label("clock")
		if !c.Clock.usable() {
			r.Label("clock-out-of-range")
			if err := out.refused(); err != nil {
				return fmt.Errorf("generate at a time no key can carry: %w", err)
			}
			if _, err := os.Lstat(g.outFile); c.OutFile && err == nil {
				return fmt.Errorf("generate at a time no key can carry saved a word file")
			}
			return nil
		}
	}
	if err := out.fine(); err != nil {
		return fmt.Errorf("generate: %w", err)
	}
	data, err := out.block()
	if err != nil {
		return fmt.Errorf("generate: %w", err)
	}
	var words []string
	if c.OutFile {
		if words, err = readWords(g.outFile); err != nil {
			return fmt.Errorf("generate: %w", err)
		}
	} else {
		words = printedPhrase(out.Err)
	}
	seed, off, err := openPhrase(words, c.PhrPW)
	if err != nil {
		return fmt.Errorf("generate: %w", err)
	}
	if c.Source != "random" && seed != c.Entropy {
		return fmt.Errorf("generate: the phrase embeds %x, the entropy source gave %x", seed[:], c.Entropy[:])
	}
	if c.Clock != nil {
		if int64(off) != c.Clock.Sec-ref.EpochStart {
			return fmt.Errorf("generate: creation offset %d, the clock was stopped at %d", off, c.Clock.Sec-ref.EpochStart)
		}
	} else if lo, hi := nowOffsets(out); int64(off) < lo || int64(off) > hi {
		return fmt.Errorf("generate: creation offset %d, the clock said %d to %d", off, lo+1, hi-1)
	}
	k, master, cert := c.Opts.key(seed, off, false)
	var kpw []byte
	if c.KeyPW != "" {
		kpw = []byte(c.KeyPW)
	}
	if err := exportIs(data, k, master, cert, kpw); err != nil {
		return fmt.Errorf("generate: %w", err)
	}
	// recover
	ro := c.Opts
	ro.Style, ro.Verbose = c.Recover.Style, c.Recover.Verbose
	var after []step
	if c.PhrPW != "" {
		after = append(after, step{"pw", c.PhrPW})
		r.Label("encrypted-phrase")
	}
	back, err := enter(cliRun{Env: append(append([]string(nil), c.Env2...), c.Clock2.env()...)}, c.Entry, words, dir, ro.flags(true), ro.Style, "recover", after).run()
	if err != nil {
		return err
	}
	if err := back.fine(); err != nil {
		return fmt.Errorf("recover: %w", err)
	}
	if c.KeyPW == "" {
		if !bytes.Equal(back.Out, out.Out) {
			return fmt.Errorf("recover prints another key block: %s", diff(string(out.Out), string(back.Out)))
		}
	} else {
		r.Label("encrypted-keys")
		b2, err := back.block()
		if err != nil {
			return fmt.Errorf("recover: %w", err)
		}
		if err := exportIs(b2, k, master, cert, nil); err != nil {
			return fmt.Errorf("recover: %w", err)
		}
	}
	r.Label(c.Entry)
	r.Label("source-" + c.Source)
	if c.Opts.plain() && c.PhrPW == "" {
		r.Trivial()
	}
	return nil
}

func genC21(t *rapid.T) c21 {
	c := c21{Opts: genCliOpts(t, false), Recover: cliOpts{Style: rapid.Uint32Range(0, 1<<16).Draw(t, "style2"), Verbose: rapid.Bool().Draw(t, "v2")}}
	c.Source = []string{"file", "stdin", "random"}[pick(t, "source", 4, 2, 2)]
	c.Env, c.Env2 = genCliEnv(t), genCliEnv(t)
	if c.Source != "random" {
		c.Entropy = genSeed(t)
		c.Extra = rapid.SampledFrom([]int{0, 0, 0, 1, 16, 100}).Draw(t, "extra")
	}
	if c.Source == "file" {
		if useDict(t, "extra") {
			c.Extra = dictLen(t, "extralit", 5000)
		}
		if c.Via = []string{"", "link", "pipe"}[pick(t, "via", 6, 1, 1)]; c.Via != "" || rapid.Bool().Draw(t, "named") {
			c.Name, c.Here = genFileName(t), rapid.Bool().Draw(t, "here")
		}
	}
	if pick(t, "enc", 2, 1) == 1 {
		c.PhrPW = genTtyPassword(t, "ppw")
	}
	if pick(t, "enckeys", 29, 1) == 1 {
		c.KeyPW = genTtyPassword(t, "kpw")
	}
	if c.Source == "stdin" && rapid.Bool().Draw(t, "chunked") {
		c.Chunk = rapid.SampledFrom([]int{1, 1, 3, 8, 15}).Draw(t, "chunk")
	}
	if pick(t, "slow", 7, 1) == 1 {
		c.Slow = 1050
	}
	c.OutFile = rapid.Bool().Draw(t, "outfile")
	c.Tty = pick(t, "tty", 3, 1) == 1
	c.Entry = rapid.SampledFrom(entries).Draw(t, "entry")
	c.TZ = rapid.SampledFrom([]string{"", "UTC", "Asia/Kolkata", "America/New_York", "Europe/London", "XXX-14", "YYY+12"}).Draw(t, "tz")
	if c.Source != "random" && pick(t, "text", 3, 1) == 1 {
		digits := rapid.SampledFrom([]string{`[0-9a-f]{32}`, `[0-9A-F]{32}`, `[0-9a-f]{64}`, `[01]{128}`, `[1-6]{32}`, `[0-9]{39}`, `[A-Za-z0-9+/]{22}==`, `[a-z]{3,8}( [a-z]{3,8}){13}`, `0x[0-9a-f]{32}`}).Draw(t, "form")
		s := rapid.StringMatching(digits).Draw(t, "digits") + rapid.SampledFrom([]string{"", "\n", "\r\n", " \n"}).Draw(t, "eol")
		copy(c.Entropy[:], s)
		c.Text = BS(s[16:])
	}
	if c.Slow == 0 && rapid.Bool().Draw(t, "clocked") {
		c.Clock = genClock(t, "clock")
	}
	if rapid.Bool().Draw(t, "clocked2") {
		c.Clock2 = genClock(t, "clock2")
	}
	return c
}

type c21rand struct {
	N     int    `json:"n"`
	Enc   BS     `json:"enc,omitempty"`
	Clock *Clock `json:"clock,omitempty"`
}

func checkC21Random(r *Rec, c c21rand) error {
	dir, rm := scratch()
	defer rm()
	var or, and, sor [16]byte
	for i := range and {
		and[i] = 0xff
	}
	_ = sor
	saltOr, saltAnd := uint32(0), ^uint32(0)
	seen := map[Seed16]bool{}
	for i := 0; i < c.N; i++ {
		g := genRun{source: "random", phrPW: c.Enc}
		run := g.build(dir)
		if clockCLI() {
			run.Env = append(run.Env, c.Clock.env()...)
		}
		out, err := run.run()
		if err != nil {
			return err
		}
		if err := out.fine(); err != nil {
			return err
		}
		w := printedPhrase(out.Err)
		seed, _, err := openPhrase(w, c.Enc)
		if err != nil {
			return err
		}
		if seen[seed] {
			return fmt.Errorf("seed %x was generated twice", seed[:])
		}
		seen[seed] = true
		for j := range seed {
			or[j] |= seed[j]
			and[j] &= seed[j]
		}
		if c.Enc != "" {
			p, _ := ref.Classify(w)
			saltOr |= p.Salt
			saltAnd &= p.Salt
		}
	}
	for j := range or {
		if or[j] != 0xff || and[j] != 0 {
			return fmt.Errorf("after %d runs of generate, bits of seed byte %d never vary: or %08b and %08b", c.N, j, or[j], and[j])
		}
	}
	if c.Enc != "" && (saltOr != 1<<19-1 || saltAnd&(1<<19-1) != 0) {
		return fmt.Errorf("after %d runs of generate, bits of the salt never vary: or %019b and %019b", c.N, saltOr, saltAnd&(1<<19-1))
	}
	return nil
}

type c21bad struct {
	Source string `json:"source"`
	Bytes  int    `json:"bytes"`
}

// an entropy source that ends early or cannot be read gives no key
func checkC21Short(r *Rec, c c21bad) error {
	dir, rm := scratch()
	defer rm()
	run := genRun{source: c.Source, entropy: expandBytes(c.Bytes, "short")}.build(dir)
	switch c.Source {
	case "missing":
		run.Args = []string{"generate", "-unsafe-entropy", filepath.Join(dir, "nothing")}
	case "dir":
		run.Args = []string{"generate", "-unsafe-entropy", dir}
	}
	out, err := run.run()
	if err != nil {
		return err
	}
	return out.refused()
}

// ---- C22

type c22 struct {
	In      cliPhrase `json:"in"`
	NewPW   BS        `json:"new_password,omitempty"`
	Entry   string    `json:"entry"`
	Out     string    `json:"out"` // "", file, same
	Verbose bool      `json:"verbose,omitempty"`
	Style   uint32    `json:"style,omitempty"`
	Case    caseMut   `json:"case"`
	Clock   *Clock    `json:"clock,omitempty"`
}

// snapshot describes a directory tree.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			m[p] = err.Error()
			return nil
		}
		s := fi.Mode().String()
		switch {
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += " " + string(b)
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			s += " -> " + l
		}
		rel, _ := filepath.Rel(dir, p)
		m[rel] = s
		return nil
	})
	return m
}

func sameTree(a, b map[string]string, except ...string) error {
	skip := map[string]bool{}
	for _, x := range except {
		skip[x] = true
	}
	var names []string
	for n := range a {
		names = append(names, n)
	}
	for n := range b {
		if _, ok := a[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if skip[n] || a[n] == b[n] {
			continue
		}
		return fmt.Errorf("%q was %.100q and is %.100q", n, a[n], b[n])
	}
	return nil
}

func checkC22(r *Rec, c c22) error {
	dir, rm := scratch()
	defer rm()
	words := c.Case.apply(c.In.words())
	if c.Entry == "keys" {
		words = c.In.words()
	}
	var f [][2]string
	if c.Verbose {
		f = append(f, [2]string{"verbose", isBool})
	}
	outPath := ""
	switch c.Out {
	case "file":
		outPath = filepath.Join(dir, "out")
	case "same":
		outPath = filepath.Join(dir, "in words")
	}
	if outPath != "" {
		f = append(f, [2]string{"out-word-file", outPath})
	}
	var after []step
	if c.In.PW != "" {
		after = append(after, step{"pw", c.In.PW})
	}
	if c.NewPW != "" {
		f = append(f, [2]string{"encrypt-phrase", isBool})
		after = append(after, pwSteps(c.NewPW)...)
	}
	entry := c.Entry
	if c.Out == "same" {
		entry = "file"
	}
	run := enter(cliRun{Env: c.Clock.env()}, entry, words, dir, f, c.Style, "convert", after)
	before := snapshot(dir)
	out, err := run.run()
	if err != nil {
		return err
	}
	tree := snapshot(dir)
	if c.Out == "same" {
		r.Label("onto-input")
		if err := out.refused(); err != nil {
			return fmt.Errorf("convert onto the input file: %w", err)
		}
		return sameTree(before, tree)
	}
	if err := out.fine(); err != nil {
		return err
	}
	if len(out.Out) > 0 {
		return fmt.Errorf("convert writes to standard output: %q", clip(string(out.Out), 100))
	}
	if err := sameTree(before, tree, "out"); err != nil {
		return fmt.Errorf("convert changes a file: %w", err)
	}
	var got []string
	if c.Out == "file" {
		r.Label("to-file")
		if got, err = readWords(outPath); err != nil {
			return err
		}
		if p := printedPhrase(out.Err); len(p) > 0 {
			return fmt.Errorf("the phrase also went to the terminal")
		}
	} else {
		got = printedPhrase(out.Err)
		if len(got) == 0 {
			return fmt.Errorf("no phrase on standard error: %q", clipEnd(plainText(out.Err), 200))
		}
		if tree["out"] != "" {
			return fmt.Errorf("an output file appeared")
		}
	}
	seed, off, err := openPhrase(got, c.NewPW)
	if err != nil {
		return err
	}
	if seed != c.In.Seed || off != c.In.Offset {
		return fmt.Errorf("converted phrase embeds seed %x offset %d, want %x %d", seed[:], off, c.In.Seed[:], c.In.Offset)
	}
	r.Label(fmt.Sprintf("encrypted-%v-to-%v", c.In.PW != "", c.NewPW != ""))
	return nil
}

func genC22(t *rapid.T) c22 {
	c := c22{In: genCliPhrase(t, rapid.Bool().Draw(t, "encin")), Entry: rapid.SampledFrom(entries).Draw(t, "entry"), Out: []string{"", "file", "same"}[pick(t, "out", 4, 4, 1)],
		Verbose: pick(t, "v", 3, 1) == 1, Style: rapid.Uint32Range(0, 1<<16).Draw(t, "style"), Case: genCaseMut(t)}
	if rapid.Bool().Draw(t, "encout") {
		c.NewPW = genTtyPassword(t, "npw")
		if c.In.PW != "" && pick(t, "related", 2, 1) == 1 {
			c.NewPW = rapid.SampledFrom([]BS{c.In.PW, c.In.PW + "x"}).Draw(t, "rel")
		}
	}
	if pick(t, "clocked", 2, 1) == 1 {
		c.Clock = genClock(t, "clock")
	}
	return c
}

// ---- C23 writing

type c23w struct {
	Cmd    string    `json:"cmd"` // generate or convert
	Target string    `json:"target"`
	Name   BS        `json:"name"`
	Umask  string    `json:"umask,omitempty"`
	FSize  int       `json:"fsize,omitempty"`
	In     cliPhrase `json:"in"`
	NewPW  BS        `json:"new_password,omitempty"`
	Rel    bool      `json:"relative,omitempty"`
	Here   bool      `json:"in_working_directory,omitempty"`
	Slow   bool      `json:"slow_mode_changes,omitempty"`
	Late   bool      `json:"comes_into_being_during_the_command,omitempty"`
}

// watchModes looks at everything that appears under the directories until
// stopped, and returns the first regular file others could read.
func watchModes(before map[string]string, root string, dirs ...string) func() error {
	stop, found := make(chan struct{}), make(chan error, 1)
	go func() {
		var bad error
		for last := false; ; {
			for _, d := range dirs {
				l, _ := os.ReadDir(d)
				for _, e := range l {
					p := filepath.Join(d, e.Name())
					rel, _ := filepath.Rel(root, p)
					if _, old := before[rel]; old {
						continue
					}
					if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() && fi.Mode()&077 != 0 && bad == nil {
						bad = fmt.Errorf("the file being saved has mode %v", fi.Mode())
					}
				}
			}
			if last {
				found <- bad
				return
			}
			select {
			case <-stop:
				last = true
			case <-time.After(2 * time.Millisecond):
			}
		}
	}()
	return func() error { close(stop); return <-found }
}

var c23targets = []string{"new", "new-in-linked-dir", "fault", "file", "empty-file", "readonly-file", "dir", "empty-dir", "link-to-file", "link-to-dir", "dangling", "dangling-into-dir", "loop", "fifo", "socket-like", "missing-dir", "under-file", "long-name", "slash"}

func checkC23Write(r *Rec, c c23w) error {
	dir, rm := scratch()
	defer rm()
	must := func(err error) {
		if err != nil {
			panic(infraError{err})
		}
	}
	w := filepath.Join(dir, "w")
	must(os.Mkdir(w, 0755))
	must(os.Mkdir(filepath.Join(w, "sub"), 0755))
	name := string(c.Name)
	target := filepath.Join(w, name)
	ok := false
	created := ""
	switch c.Target {
	case "new":
		ok, created = true, target
	case "new-in-linked-dir":
		must(os.Symlink("sub", filepath.Join(w, "ln")))
		ok, target, created = true, filepath.Join(w, "ln", name), filepath.Join(w, "sub", name)
	case "fault":
	case "missing-dir":
		target = filepath.Join(w, "missing", name)
	case "under-file":
		must(os.WriteFile(filepath.Join(w, "plain"), []byte("x"), 0644))
		target = filepath.Join(w, "plain", name)
	case "long-name":
		target = filepath.Join(w, strings.Repeat("n", 256))
	case "slash":
		target += "/"
	}
	var fds []int
	defer func() {
		for _, fd := range fds {
			syscall.Close(fd)
		}
	}()
	// what is at the path already
	exists := true
	occupy := func() bool {
		switch c.Target {
		case "file":
			must(os.WriteFile(target, []byte("precious\n"), 0644))
		case "empty-file":
			must(os.WriteFile(target, nil, 0600))
		case "readonly-file":
			must(os.WriteFile(target, []byte("precious\n"), 0400))
		case "dir":
			must(os.Mkdir(target, 0755))
			must(os.WriteFile(filepath.Join(target, "x"), []byte("y"), 0644))
		case "empty-dir":
			must(os.Mkdir(target, 0755))
		case "link-to-file":
			must(os.WriteFile(filepath.Join(w, "sub", "real"), []byte("precious\n"), 0644))
			must(os.Symlink("sub/real", target))
		case "link-to-dir":
			must(os.Symlink("sub", target))
		case "dangling":
			must(os.Symlink("nowhere", target))
		case "dangling-into-dir":
			must(os.Symlink(filepath.Join(w, "sub", "nothing"), target))
		case "loop":
			must(os.Symlink(name, target))
		case "fifo":
			must(syscall.Mkfifo(target, 0600))
		case "socket-like":
			fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			must(err)
			fds = append(fds, fd)
			if syscall.Bind(fd, &syscall.SockaddrUnix{Name: target}) != nil {
				return false // path too long for a socket
			}
		default:
			exists = false
		}
		return true
	}
	late := c.Late && c.Target != "fault"
	if !late && !occupy() {
		r.Trivial()
		return nil
	}
	arg := target
	if c.Rel {
		arg, _ = filepath.Rel(dir, target)
		if strings.HasSuffix(target, "/") {
			arg += "/"
		}
		if strings.HasPrefix(arg, "-") {
			arg = "./" + arg
		}
	}
	if c.Here {
		if arg, _ = filepath.Rel(w, target); strings.HasSuffix(target, "/") {
			arg += "/"
		}
	}
	run := cliRun{Dir: dir, Null: true, Umask: c.Umask}
	var words func() error
	seed, pw := c.In.Seed, BS("")
	switch c.Cmd {
	case "generate":
		g := genRun{source: "file", entropy: seed[:], outFile: arg, phrPW: c.NewPW}
		pw = c.NewPW
		u := run.Umask
		run = g.build(dir)
		run.Umask = u
	case "convert":
		var after []step
		if c.In.PW != "" {
			after = append(after, step{"pw", c.In.PW})
		}
		f := [][2]string{{"out-word-file", arg}}
		if c.NewPW != "" {
			f = append(f, [2]string{"encrypt-phrase", isBool})
			after = append(after, pwSteps(c.NewPW)...)
		}
		pw = c.NewPW
		run = enter(run, "file", c.In.words(), dir, f, 0, "convert", after)
	}
	_ = words
	if c.Target == "fault" {
		run.HasFS, run.FSize = true, c.FSize
	}
	run.SlowMode = c.Slow
	run.Env = append(run.Env, "HOME="+dir)
	if c.Here {
		run.Dir = w
	}
	before := snapshot(dir)
	if late = late && len(run.Script) > 0; c.Late && !late {
		r.Trivial() // nothing to wait for
		return nil
	}
	taken := true
	if late {
		n := len(run.Script) - 1
		run.Script = append(append(append([]step{}, run.Script[:n]...), step{Do: "hook"}), run.Script[n])
		run.Hook = func() {
			defer func() {
				if recover() != nil {
					taken = true
				}
			}()
			if _, err := os.Lstat(target); err == nil && c.Target != "new" {
				return // made early by the command
			}
			taken = !occupy()
			before = snapshot(dir)
		}
	}
	stop := func() error { return nil }
	if !late {
		stop = watchModes(before, dir, w, filepath.Join(w, "sub"))
	}
	out, err := run.run()
	bad := stop()
	if err != nil {
		return err
	}
	if late && taken {
		r.Trivial()
		return nil
	}
	after := snapshot(dir)
	if late && exists {
		r.Label("late")
	}
	r.Label(c.Target)
	if bad != nil {
		return bad
	}
	if c.Target == "fault" {
		if out.Hang || out.Fat || out.Code == 0 {
			return fmt.Errorf("the file size limit of %d bytes makes saving fail, exit status %d", c.FSize, out.Code)
		}
		if len(out.Out) > 0 {
			return fmt.Errorf("standard output after a failed save: %q", clip(string(out.Out), 80))
		}
		return sameTree(before, after, "w", filepath.Join("w", name))
	}
	if !ok {
		if err := out.refused(); err != nil {
			return fmt.Errorf("saving onto %s: %w", c.Target, err)
		}
		if err := sameTree(before, after); err != nil {
			return fmt.Errorf("saving onto %s: %w", c.Target, err)
		}
		return nil
	}
	if err := out.fine(); err != nil {
		return err
	}
	rel, _ := filepath.Rel(dir, created)
	if err := sameTree(before, after, rel); err != nil {
		return err
	}
	fi, err := os.Lstat(created)
	if err != nil {
		return fmt.Errorf("nothing was saved: %w", err)
	}
	if fi.Mode() != 0600 {
		return fmt.Errorf("mode of the new file is %v (umask %q), want -rw-------", fi.Mode(), c.Umask)
	}
	got, err := readWords(created)
	if err != nil {
		return err
	}
	s, off, err := openPhrase(got, pw)
	if err != nil {
		return err
	}
	if s != seed || c.Cmd == "convert" && off != c.In.Offset {
		return fmt.Errorf("the saved phrase embeds seed %x offset %d", s[:], off)
	}
	if c.Cmd == "generate" {
		data, err := out.block()
		if err != nil {
			return err
		}
		k, m, cert := cliOpts{}.key(seed, off, false)
		return exportIs(data, k, m, cert, nil)
	}
	return nil
}

func genC23w(t *rapid.T) c23w {
	c := c23w{Cmd: rapid.SampledFrom([]string{"generate", "convert"}).Draw(t, "cmd"), Target: rapid.SampledFrom(c23targets).Draw(t, "target")}
	if pick(t, "new", 3, 1) == 1 {
		c.Target = "new"
	}
	c.Name = genFileName(t)
	c.Umask = rapid.SampledFrom([]string{"", "000", "022", "077", "027", "0002"}).Draw(t, "umask")
	if c.Target == "fault" {
		c.FSize = rapid.IntRange(0, 60).Draw(t, "fsize")
	}
	c.In = genCliPhrase(t, c.Cmd == "convert" && pick(t, "encin", 3, 1) == 1)
	if pick(t, "encout", 3, 1) == 1 {
		c.NewPW = genTtyPassword(t, "npw")
	}
	c.Rel = rapid.Bool().Draw(t, "rel")
	c.Here = rapid.Bool().Draw(t, "here")
	c.Slow = pick(t, "slow", 5, 1) == 1
	if c.NewPW != "" && c.Target != "fault" && pick(t, "late", 1, 1) == 1 {
		c.Late = true
	}
	return c
}

// c23race: several commands save to one path at the same time.
type c23race struct {
	Target string      `json:"target"` // new, dangling
	Cmds   []string    `json:"cmds"`
	Ins    []cliPhrase `json:"ins"`
	Slow   bool        `json:"slow_opening,omitempty"`
	Lag    int         `json:"lag_ms,omitempty"`
}

func checkC23Race(r *Rec, c c23race) error {
	dir, rm := scratch()
	defer rm()
	target := filepath.Join(dir, "words")
	if c.Target == "dangling" {
		os.Symlink("nowhere", target)
	}
	outs, errs := make([]*cliOut, len(c.Cmds)), make([]error, len(c.Cmds))
	var wg sync.WaitGroup
	for i := range c.Cmds {
		d := filepath.Join(dir, strconv.Itoa(i))
		os.Mkdir(d, 0755)
		run := cliRun{Dir: d, Null: true, Args: []string{"convert", "-in-word-file", writeFile(d, "in", phrase(c.Ins[i].words())), "-out-word-file", target}}
		if c.Cmds[i] == "generate" {
			run.Args = []string{"generate", "-unsafe-entropy", writeFile(d, "e", string(c.Ins[i].Seed[:])), "-out-word-file", target}
		}
		if c.Slow {
			run.SlowOpen = target
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(i*c.Lag) * time.Millisecond)
			outs[i], errs[i] = run.run()
		}()
	}
	wg.Wait()
	won := -1
	for i := range c.Cmds {
		if errs[i] != nil {
			return errs[i]
		}
		if outs[i].Code == 0 && !outs[i].Hang {
			if won >= 0 {
				return fmt.Errorf("commands %d and %d both saved their phrase to one path", won, i)
			}
			won = i
		} else if err := outs[i].refused(); err != nil {
			return fmt.Errorf("command %d: %w", i, err)
		}
	}
	if c.Target == "dangling" {
		if won >= 0 {
			return fmt.Errorf("saved through a dangling link")
		}
		return nil
	}
	if won < 0 {
		return fmt.Errorf("no command saved its phrase to a new path; standard error %q", clipEnd(plainText(outs[0].Err), 200))
	}
	r.Label("won-" + strconv.Itoa(won))
	got, err := readWords(target)
	if err != nil {
		return err
	}
	s, _, err := openPhrase(got, "")
	if err != nil {
		return err
	}
	if s != c.Ins[won].Seed {
		return fmt.Errorf("command %d succeeded, and the file has the phrase of another", won)
	}
	return nil
}

func genC23race(t *rapid.T) c23race {
	c := c23race{Target: "new", Slow: rapid.Bool().Draw(t, "slow"), Lag: rapid.SampledFrom([]int{0, 0, 1, 2, 5, 10, 20}).Draw(t, "lag")}
	if pick(t, "dangling", 6, 1) == 1 {
		c.Target = "dangling"
	}
	for n := rapid.IntRange(2, 4).Draw(t, "n"); n > 0; n-- {
		c.Cmds = append(c.Cmds, rapid.SampledFrom([]string{"convert", "generate"}).Draw(t, "cmd"))
		c.Ins = append(c.Ins, cliPhrase{Seed: seedFrom("race", len(c.Ins), rapid.Uint32().Draw(t, "seed")), Offset: genOffset(t)})
	}
	return c
}

// genFileName is the name of a file in a directory of its own; bare names may be taken for other things.
func genFileName(t *rapid.T) (name BS) {
	name = BS(rapid.SampledFrom([]string{"words", "my words.txt", "-", "-f", "~", "~words", "$HOME", "words ", " words", "WORDS.", "%d%s", "words,x", "ключ", "a\nb", ".hidden", "words\xff", "words.gz", "words.asc", "words.json", "stdin", "*", "wo*", strings.Repeat("n", 255)}).Draw(t, "name"))
	if useDict(t, "name") {
		s := strings.Map(func(r rune) rune {
			if r == 0 || r == '/' {
				return -1
			}
			return r
		}, dictStr(t, "namelit"))
		if pick(t, "nameform", 1, 1, 1) == 1 {
			s = "words" + s
		}
		if s != "" && s != "." && s != ".." && s != "in" && len(s) < 200 {
			name = BS(s)
		}
	}
	return
}

// ---- C23 reading

type c23r struct {
	Content BS     `json:"content"`
	Fill    int    `json:"fill,omitempty"` // spaces inserted (a big file)
	FillAt  int    `json:"fill_at,omitempty"`
	Junk    int    `json:"junk,omitempty"` // a single long token appended
	Cmd     string `json:"cmd"`
	PW      BS     `json:"password,omitempty"` // of the phrase the content was made from
	Name    BS     `json:"name,omitempty"`
	Here    bool   `json:"in_working_directory,omitempty"`
	Via     string `json:"via,omitempty"` // link, pipe, stdin
}

func isASCIISpace(r rune) bool {
	return r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\v' || r == '\f'
}

func checkC23Read(r *Rec, c c23r) error {
	dir, rm := scratch()
	defer rm()
	text := string(c.Content)
	if c.Fill > 0 {
		at := c.FillAt
		if at > len(text) {
			at = len(text)
		}
		text = text[:at] + strings.Repeat(" ", c.Fill) + text[at:]
	}
	if c.Junk > 0 {
		text += "\n" + strings.Repeat("z", c.Junk)
	}
	words := strings.FieldsFunc(text, isASCIISpace)
	p, def := ref.Classify(words)
	if def&ref.DefUnsure != 0 {
		r.Trivial()
		return nil
	}
	if def == 0 && p.Encrypted {
		seed, verify := ref.DecryptSeed(p.Entropy, []byte(c.PW), p.Salt, p.Offset)
		if c.PW == "" || verify != p.Verify {
			r.Trivial() // damaged into another phrase, of an unknown password
			return nil
		}
		p.Entropy = seed
	}
	name := string(c.Name)
	if name == "" {
		name = "words"
	}
	path := filepath.Join(dir, name)
	real := path
	if c.Via == "link" {
		real = filepath.Join(dir, "\x01real")
		os.Symlink(filepath.Base(real), path)
	}
	writeFile(dir, filepath.Base(real), text)
	arg := path
	if c.Here {
		arg = name
	}
	if c.Via == "pipe" {
		// as a shell does with <(...)
		arg = filepath.Join(dir, "\x01fifo")
		givePipe(arg, text)
		defer endPipe(arg)
	}
	run := cliRun{Dir: dir, Null: true, Args: []string{c.Cmd, "-in-word-file", arg}, Env: []string{"HOME=" + dir}}
	if c.Via != "" {
		r.Label(c.Via)
	}
	if c.PW != "" {
		// whoever asks for a password gets it
		r.Label("encrypted")
		run.Tty, run.Script = true, []step{{"pw", c.PW}}
	}
	out, err := run.run()
	if err != nil {
		return err
	}
	if b, _ := os.ReadFile(path); string(b) != text {
		return fmt.Errorf("the word file was changed")
	}
	if def != 0 {
		r.Label("refused")
		if err := out.refused(); err != nil {
			return fmt.Errorf("a word file that is not a phrase (%#x): %w", def, err)
		}
		if len(printedPhrase(out.Err)) > 0 {
			return fmt.Errorf("a word file that is not a phrase is converted")
		}
		return nil
	}
	r.Label("accepted")
	if err := out.fine(); err != nil {
		return fmt.Errorf("a valid word file: %w", err)
	}
	if c.Cmd == "convert" {
		if got := printedPhrase(out.Err); !eqWords(got, ref.PlainPhrase(p.Entropy, p.Offset)) {
			return fmt.Errorf("read as %q", phrase(got))
		}
		return nil
	}
	data, err := out.block()
	if err != nil {
		return err
	}
	k, m, cert := cliOpts{}.key(Seed16(p.Entropy), p.Offset, true)
	return exportIs(data, k, m, cert, nil)
}

// attached cannot be a part of a word, and is no white space.
var attached = []string{"\x00", ",", ".", ";", ":", "!", "?", "-", "_", "'", "\"", "(", ")", "*", "/", "\\", "#", "$", "%", "&", "+", "=", "<", ">", "|", "~", "`", "^", "@", "[", "]", "{", "}", "0", "1", "1.", "1:", "12)", "\x01", "\x08", "\x1b", "\x7f", "\x80", "\xff", "\ufeff", "\u200b", "\u00ad", "\u0301", "\u200d", "é"}

func genC23r(t *rapid.T) c23r {
	c := c23r{Cmd: rapid.SampledFrom([]string{"recover", "convert"}).Draw(t, "cmd")}
	p := genCliPhrase(t, pick(t, "enc", 3, 1) == 1)
	c.PW = p.PW
	words := genCaseMut(t).apply(p.words())
	seps := []string{" ", " ", "\n", "\t", "\r\n", "  ", " \n\n ", "\v", "\f"}
	sep := rapid.SampledFrom([]string{" ", "\n", "", ""}).Draw(t, "sep")
	damage := pick(t, "damage", 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2)
	if useDict(t, "damage") && damage != 0 {
		damage = 15 + rapid.IntRange(0, 1).Draw(t, "dictdamage")
	}
	other := cliPhrase{Seed: genSeed(t), Offset: genOffset(t), PW: "x"}.words()
	pos := rapid.IntRange(0, len(words)-1).Draw(t, "pos")
	switch damage {
	case 1: // one more word
		words = append(words, other[pos])
	case 2:
		words = append(words[:pos:pos], words[pos+1:]...)
	case 3:
		words = append(words, other...)
	case 4:
		words[pos] = other[pos]
	case 5:
		words[pos] = rapid.SampledFrom([]string{"zzzz", "1", "#", "word,", "abandonn", "a\x00b", "é", words[pos] + "s", words[pos] + ".", words[pos][:1]}).Draw(t, "bad")
	case 6:
		words = append(words, rapid.SampledFrom([]string{"zzzz", "#comment", "\x00", "\xff\xfe", "é", "1"}).Draw(t, "tail"))
	case 7:
		words = append([]string{rapid.SampledFrom([]string{"\ufeff" + words[0], "1:", "words:", "#"}).Draw(t, "head")}, words...)
	case 8:
		words = nil
	case 9: // unknown version, any count
		words[0] = ref.Words[512+rapid.IntRange(0, 4096-513).Draw(t, "first")]
		n := rapid.IntRange(0, len(words)).Draw(t, "n")
		words = words[:n]
	case 10:
		for len(words) < 100+rapid.IntRange(0, 30).Draw(t, "many") {
			words = append(words, other...)
		}
	case 11:
		c.Junk = rapid.SampledFrom([]int{1, 100, 65535, 65536, 65537, 70000, 200000}).Draw(t, "junk")
	case 12:
		c.Fill, c.FillAt = rapid.SampledFrom([]int{4096, 65535, 65536, 65537, 200000}).Draw(t, "fill"), rapid.IntRange(0, 200).Draw(t, "fillat")
	case 13: // the words without the separators
		words = []string{strings.Join(words, "")}
	case 15: // something attached to a word
		x := rapid.SampledFrom(attached).Draw(t, "attached")
		if useDict(t, "attached") {
			x = dictStr(t, "attlit")
		}
		switch pick(t, "where", 1, 1, 1, 1, 1) {
		case 3:
			words[pos] += x + words[pos]
		case 4: // two words in one
			if pos > 0 {
				words[pos-1] += x + words[pos]
				words = append(words[:pos:pos], words[pos+1:]...)
			}
		case 0:
			words[pos] += x
		case 1:
			words[pos] = x + words[pos]
		case 2:
			words[pos] = x + words[pos] + x
		}
	case 16: // something of the code between the words
		words = append(words[:pos:pos], append([]string{dictStr(t, "between")}, words[pos:]...)...)
	case 14: // swap two words
		q := rapid.IntRange(0, len(words)-1).Draw(t, "q")
		words[pos], words[q] = words[q], words[pos]
	}
	var sb strings.Builder
	lead := rapid.SampledFrom([]string{"", "", "", " ", "\n\n", "\t"}).Draw(t, "lead")
	sb.WriteString(lead)
	for i, w := range words {
		if i > 0 {
			s := sep
			if s == "" {
				s = rapid.SampledFrom(seps).Draw(t, "s")
			}
			sb.WriteString(s)
		}
		sb.WriteString(w)
	}
	sb.WriteString(rapid.SampledFrom([]string{"\n", "", " ", "\n\n\n", "\r\n", " \t "}).Draw(t, "trail"))
	c.Content = BS(sb.String())
	if pick(t, "named", 2, 1) == 1 {
		c.Name = genFileName(t)
	}
	c.Here = rapid.Bool().Draw(t, "here")
	c.Via = []string{"", "link", "pipe"}[pick(t, "via", 6, 1, 1)]
	return c
}

type c23path struct {
	Kind string `json:"kind"`
	Cmd  string `json:"cmd"`
}

func checkC23Path(r *Rec, c c23path) error {
	dir, rm := scratch()
	defer rm()
	p := filepath.Join(dir, "words")
	switch c.Kind {
	case "dir":
		os.Mkdir(p, 0755)
	case "dangling":
		os.Symlink("nowhere", p)
	case "empty":
		writeFile(dir, "words", "")
	case "binary":
		writeFile(dir, "words", string(expandBytes(5000, "bin")))
	}
	out, err := cliRun{Dir: dir, Null: true, Args: []string{c.Cmd, "-in-word-file", p}}.run()
	if err != nil {
		return err
	}
	return out.refused()
}

func init() {
	const note = "the command is built from the working tree with a reduced-cost Argon2 in golang.org/x/crypto (same parameters mixed in)"
	register(&Property{ID: "C21", NeedCLI: true, Assumptions: []string{note, "half of the commands run with a stopped clock (the same toolchain with time.Now replaced), the others at the real time"}, Subs: []subCheck{
		&Sub[c21]{Name: "round-trip", Rule: "random flags, entropy sources, passwords, output places and entry methods of generate followed by recover; trivial if all flags are default", Gen: genC21, Check: checkC21, Quick: 1200, Thorough: 30000, Confirm: 2, Limit: 3 * time.Minute},
		&Sub[c21rand]{Name: "system-randomness", Rule: "default runs of generate (72 plain, 48 with an encrypted phrase, 56 of those at one and the same instant): seeds distinct, every bit of seed and salt takes both values; all count",
			Enum: func(th bool, yield func(c21rand) bool) {
				for i := 0; i < 2 && (i == 0 || th); i++ {
					if !yield(c21rand{N: 72 + i}) || !yield(c21rand{N: 48 + i, Enc: "pw"}) || !yield(c21rand{N: 56 + i, Enc: "pw", Clock: &Clock{Sec: 2000000000, Nano: 5}}) {
						return
					}
				}
			}, Check: checkC21Random, Confirm: 1, Limit: 10 * time.Minute},
		&Sub[c21bad]{Name: "short-source", Rule: "entropy sources of 0-15 bytes, missing files and directories: no key; enumerated",
			Enum: func(th bool, yield func(c21bad) bool) {
				for n := 0; n < 16; n++ {
					for _, s := range []string{"file", "stdin"} {
						if !yield(c21bad{s, n}) {
							return
						}
					}
				}
				_ = yield(c21bad{"missing", 0}) && yield(c21bad{"dir", 0})
			}, Check: checkC21Short, Confirm: 1},
	}})
	register(&Property{ID: "C22", NeedCLI: true, Assumptions: []string{note}, Subs: []subCheck{
		&Sub[c22]{Name: "convert", Rule: "random phrases, plain or encrypted, converted to plain or encrypted, by every entry method, to the terminal, a file or onto the input file; all count", Gen: genC22, Check: checkC22, Quick: 2500, Thorough: 50000, Confirm: 2, Limit: 3 * time.Minute},
	}})
	register(&Property{ID: "C23", NeedCLI: true, Assumptions: []string{note}, Subs: []subCheck{
		&Sub[c23race]{Name: "save-at-once", Rule: "two to four commands saving to one path at the same time, in half the cases with the opening of that path delayed: one succeeds, its phrase is in the file, the others fail; all count", Gen: genC23race, Check: checkC23Race, Quick: 300, Thorough: 6000, Confirm: 4, Limit: 3 * time.Minute},
		&Sub[c23w]{Name: "save", Rule: "generate and convert saving to new paths and onto files, directories, links, dangling links, fifos, sockets, missing directories, under umasks and file size limits; all count", Gen: genC23w, Check: checkC23Write, Quick: 3000, Thorough: 40000, Confirm: 2, Limit: 3 * time.Minute},
		&Sub[c23r]{Name: "load", Rule: "word files with any layout and letter case, and damaged in 15 ways, of plain and encrypted phrases; trivial if not judged", Gen: genC23r, Check: checkC23Read, Quick: 7000, Thorough: 60000, Confirm: 2},
		&Sub[c23path]{Name: "load-path", Rule: "paths that are no readable text; enumerated",
			Enum: func(th bool, yield func(c23path) bool) {
				for _, k := range []string{"missing", "dir", "dangling", "empty", "binary"} {
					for _, cmd := range []string{"recover", "convert"} {
						if !yield(c23path{k, cmd}) {
							return
						}
					}
				}
			}, Check: checkC23Path, Confirm: 1},
	}})
}
