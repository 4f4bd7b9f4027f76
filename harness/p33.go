package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// ---- C33: the state of the terminal after a command

// terminal is a screen of a fixed size with its scrollback, as far as the program uses one.
type terminal struct {
	rows, cols int
	row, col   int
	sr, sc     int
	grid       [][]rune
	gone       [][]rune // scrolled off the top
	sgr        map[string]string
	unknown    bool
}

func newTerminal(rows, cols, top int) *terminal {
	return &terminal{rows: rows, cols: cols, row: top % rows, grid: make([][]rune, rows), sgr: map[string]string{}}
}

func (s *terminal) down() {
	if s.row++; s.row >= s.rows {
		s.gone = append(s.gone, s.grid[0])
		s.grid = append(s.grid[1:], nil)
		s.row = s.rows - 1
	}
}

func (s *terminal) put(r rune) {
	if s.col >= s.cols {
		s.col = 0
		s.down()
	}
	l := s.grid[s.row]
	for len(l) <= s.col {
		l = append(l, ' ')
	}
	l[s.col] = r
	s.grid[s.row] = l
	s.col++
}

func clamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func (s *terminal) attr(code string) {
	n, err := strconv.Atoi(code)
	if code == "" {
		n, err = 0, nil
	}
	off := func(k ...string) {
		for _, x := range k {
			delete(s.sgr, x)
		}
	}
	switch {
	case err != nil:
		s.unknown = true
	case n == 0:
		s.sgr = map[string]string{}
	case n == 1:
		s.sgr["bold"] = code
	case n == 2:
		s.sgr["faint"] = code
	case n == 22:
		off("bold", "faint")
	case n >= 3 && n <= 9:
		k := n
		if n == 6 { // both kinds of blinking end with 25
			k = 5
		}
		s.sgr["style"+strconv.Itoa(k)] = code
	case n >= 23 && n <= 29:
		off("style" + strconv.Itoa(n-20))
	case n >= 30 && n <= 38 || n >= 90 && n <= 97:
		s.sgr["colour"] = code
	case n == 39:
		off("colour")
	case n >= 40 && n <= 48 || n >= 100 && n <= 107:
		s.sgr["background"] = code
	case n == 49:
		off("background")
	default:
		s.unknown = true
	}
}

func (s *terminal) show(out string) {
	for len(out) > 0 {
		c := out[0]
		switch {
		case c == '\x1b':
			if strings.HasPrefix(out, "\x1b7") {
				s.sr, s.sc = s.row, s.col
				out = out[2:]
				continue
			}
			if strings.HasPrefix(out, "\x1b8") {
				s.row, s.col = s.sr, s.sc
				out = out[2:]
				continue
			}
			m := reCSI.FindStringSubmatch(out)
			if m == nil {
				s.unknown = true
				out = out[1:]
				continue
			}
			out = out[len(m[0]):]
			n := 1
			if v, err := strconv.Atoi(m[1]); err == nil && v > 0 {
				n = v
			}
			if m[2] != "m" && s.col >= s.cols {
				s.col = s.cols - 1
			}
			switch m[2] {
			case "m":
				codes := strings.Split(m[1], ";")
				for i := 0; i < len(codes); i++ {
					s.attr(codes[i])
					if (codes[i] == "38" || codes[i] == "48") && i+1 < len(codes) {
						if codes[i+1] == "5" {
							i += 2
						} else {
							i += 4
						}
					}
				}
			case "s":
				s.sr, s.sc = s.row, s.col
			case "u":
				s.row, s.col = s.sr, s.sc
			case "A", "F":
				s.row = clamp(s.row-n, 0, s.rows-1)
				if m[2] == "F" {
					s.col = 0
				}
			case "B", "E":
				s.row = clamp(s.row+n, 0, s.rows-1)
				if m[2] == "E" {
					s.col = 0
				}
			case "C":
				s.col = clamp(s.col+n, 0, s.cols-1)
			case "D":
				s.col = clamp(s.col-n, 0, s.cols-1)
			case "G":
				s.col = clamp(n-1, 0, s.cols-1)
			case "d":
				s.row = clamp(n-1, 0, s.rows-1)
			case "H", "f":
				var a, b int
				fmt.Sscanf(m[1], "%d;%d", &a, &b)
				s.row, s.col = clamp(a-1, 0, s.rows-1), clamp(b-1, 0, s.cols-1)
			case "K":
				l := s.grid[s.row]
				switch m[1] {
				case "", "0":
					if s.col < len(l) {
						s.grid[s.row] = l[:s.col:s.col]
					}
				case "1":
					for i := 0; i <= s.col && i < len(l); i++ {
						l[i] = ' '
					}
				case "2":
					s.grid[s.row] = nil
				}
			case "J":
				switch m[1] {
				case "", "0":
					if l := s.grid[s.row]; s.col < len(l) {
						s.grid[s.row] = l[:s.col:s.col]
					}
					for i := s.row + 1; i < s.rows; i++ {
						s.grid[i] = nil
					}
				case "2":
					s.grid = make([][]rune, s.rows)
				case "3":
					s.gone = nil
				default:
					s.unknown = true
				}
			case "P": // delete characters
				if l := s.grid[s.row]; s.col < len(l) {
					s.grid[s.row] = append(append([]rune{}, l[:s.col]...), l[clamp(s.col+n, 0, len(l)):]...)
				}
			case "X": // erase characters
				for i := s.col; i < s.col+n && i < len(s.grid[s.row]); i++ {
					s.grid[s.row][i] = ' '
				}
			case "h", "l":
				switch m[1] {
				case "?25", "?2004", "?12":
					if (m[2] == "h") == (m[1] == "?25") {
						delete(s.sgr, "mode"+m[1])
					} else {
						s.sgr["mode"+m[1]] = m[1] + m[2]
					}
				default:
					s.unknown = true
				}
			default:
				s.unknown = true
			}
			continue
		case c == '\r':
			s.col = 0
		case c == '\n':
			s.down()
		case c == '\b':
			if s.col >= s.cols {
				s.col = s.cols - 1
			}
			if s.col > 0 {
				s.col--
			}
		case c == '\t':
			s.col = clamp((s.col/8+1)*8, 0, s.cols-1)
		case c == 0x7f || c == 0 || c == 7:
		case c >= 0x80:
			r, n := utf8.DecodeRuneInString(out)
			s.put(r)
			out = out[n:]
			continue
		default:
			s.put(rune(c))
		}
		out = out[1:]
	}
}

func (s *terminal) text() []string {
	var out []string
	for _, l := range append(append([][]rune{}, s.gone...), s.grid...) {
		out = append(out, strings.TrimRight(string(l), " "))
	}
	return out
}

// vocabulary is the words that messages of the program may contain.
var vocabulary = sync.OnceValue(func() map[string]bool {
	v := map[string]bool{}
	d := dict()
	for _, s := range append(append([]string{"interrupted system call inappropriate ioctl for device no such file or directory read write error standard output dev stdout stderr stdin full null pts tmp no space left on device broken pipe bad descriptor permission denied invalid argument operation not permitted supported file exists resource temporarily unavailable input too large failed"}, d.strs...), d.newStrs...) {
		for _, w := range reToken.FindAllString(s, -1) {
			v[strings.ToLower(w)] = true
		}
	}
	return v
})

var (
	reToken     = regexp.MustCompile(`[A-Za-z]+`)
	reNumbered  = regexp.MustCompile(`^\s*\d+:\s*[a-z]+\b`)
	reWordAsked = regexp.MustCompile(`Word \d+ >> `)
)

// leftWords finds a piece of a typed word on a screen.
func leftWords(lines []string, words []string) (string, int) {
	v := vocabulary()
	armor := false
	for i, l := range lines {
		if strings.HasPrefix(l, "-----BEGIN") {
			armor = true
		}
		if strings.HasPrefix(l, "-----END") {
			armor = false
		}
		if armor || reNumbered.MatchString(l) {
			continue
		}
		for _, tok := range reToken.FindAllString(l, -1) {
			if len(tok) < 3 || v[strings.ToLower(tok)] || tok == strings.ToUpper(tok) {
				continue
			}
			for _, w := range words {
				if x := strings.ToLower(tok); x == w || len(x) > 3 && (strings.HasPrefix(w, x) || strings.HasSuffix(w, x)) {
					return tok, i
				}
			}
		}
	}
	return "", 0
}

type c33 struct {
	Cmd    string    `json:"cmd"`
	Entry  string    `json:"entry,omitempty"` // keys, lines, file; empty: no phrase is asked for
	Phrase cliPhrase `json:"phrase"`
	Keys   BS        `json:"keys,omitempty"`
	Lines  []BS      `json:"lines,omitempty"`
	Over   string    `json:"over,omitempty"` // how the entry of lines ends: "", "eof", "interrupt"
	Wrong  []BS      `json:"wrong,omitempty"`
	// the password asked for last (phrase or key encryption), with failing rounds first
	Protect string    `json:"protect,omitempty"`
	Rounds  []attempt `json:"rounds,omitempty"`
	Stop    int       `json:"stop"` // password prompt at which Ctrl-C is typed, -1: none
	Verbose bool      `json:"verbose,omitempty"`
	Stdout  string    `json:"stdout,omitempty"` // "tty", a device, or empty
	ErrPipe bool      `json:"stderr_elsewhere,omitempty"`
	Rows    int       `json:"rows"`
	Cols    int       `json:"cols"`
	Top     int       `json:"top"`
	Flip    [4]uint32 `json:"flip"` // modes of the terminal to invert
	CC      uint32    `json:"cc,omitempty"`
}

// Modes that do not change what the program is told by the keys used.
var flippable = [4]uint32{
	syscall.IXON | syscall.IXANY | syscall.IXOFF | syscall.IMAXBEL | syscall.BRKINT | syscall.IGNBRK | syscall.IGNPAR | 0x4000, /* IUTF8 */
	syscall.OFILL | syscall.ONLRET,
	syscall.HUPCL | syscall.CLOCAL | syscall.CSTOPB,
	syscall.ECHOE | syscall.ECHOK | syscall.ECHOKE | syscall.ECHOCTL | syscall.TOSTOP | syscall.NOFLSH | syscall.ISIG,
}

func (c c33) termios(t *syscall.Termios) {
	t.Iflag ^= c.Flip[0]
	t.Oflag ^= c.Flip[1]
	t.Cflag ^= c.Flip[2]
	t.Lflag ^= c.Flip[3]
	if c.CC != 0 {
		for _, i := range []int{syscall.VKILL, syscall.VWERASE, syscall.VREPRINT, syscall.VLNEXT, syscall.VMIN, syscall.VTIME, syscall.VSUSP, syscall.VQUIT, syscall.VDISCARD} {
			if h := hash64("cc", c.CC, i); h%3 == 0 {
				if i == syscall.VMIN || i == syscall.VTIME {
					t.Cc[i] = uint8(h >> 8 % 5)
				} else {
					t.Cc[i] = 0x1c + uint8(h>>8%4)
				}
			}
		}
	}
}

func checkC33(r *Rec, c c33) error {
	dir, rm := scratch()
	defer rm()
	run := cliRun{Dir: dir, Tty: true, ErrTty: !c.ErrPipe, Rows: c.Rows, Cols: c.Cols, Termios: c.termios, Limit: 40 * time.Second, Args: []string{c.Cmd}}
	entered := false
	var words, phr []string // all words typed, and those taken
	switch c.Entry {
	case "keys":
		e := newEditor()
		e.run(string(c.Keys))
		if !e.done && !e.aborted {
			r.Trivial()
			return nil
		}
		entered, words = e.done, c.typed()
		phr = e.words
		run.Script = append(run.Script, step{"keys", c.Keys})
	case "lines":
		run.Args = append(run.Args, "-simple")
		for _, l := range c.Lines {
			run.Script = append(run.Script, step{"line", l + "\n"})
		}
		switch c.Over {
		case "eof":
			run.Script = append(run.Script, step{"line", "\x04"})
		case "interrupt":
			run.Script = append(run.Script, step{"line", "\x03"})
		}
		phr = simpleWords(c.Lines)
		entered = phr != nil
		if !entered && c.Over == "" {
			r.Trivial()
			return nil
		}
		words = c.typed()
	case "file":
		run.Args = append(run.Args, "-in-word-file", writeFile(dir, "w", phrase(c.Phrase.words())))
		entered = true
	default:
		run.Args = append(run.Args, "-unsafe-entropy", writeFile(dir, "e", string(c.Phrase.Seed[:])))
		entered = true
	}
	if p, def := ref.Classify(phr); entered && phr != nil && def == 0 && p.Encrypted && !eqWords(phr, c.Phrase.words()) {
		r.Trivial() // some other phrase with a password
		return nil
	}
	if c.Verbose {
		run.Args = append(run.Args, "-verbose")
	}
	if c.Protect != "" {
		run.Args = append(run.Args, c.Protect)
	}
	var secrets []string
	if entered {
		var pws []step
		if c.Entry != "" && c.Phrase.PW != "" {
			p, _ := ref.Classify(c.Phrase.words())
			for _, w := range append(append([]BS{}, c.Wrong...), c.Phrase.PW) {
				pws = append(pws, step{"pw", w})
				if _, verify := ref.DecryptSeed(p.Entropy, []byte(w), p.Salt, p.Offset); verify == p.Verify {
					break
				}
			}
		}
		for _, a := range c.Rounds {
			pws = append(pws, step{"pw", a.First})
			if a.First != "" {
				pws = append(pws, step{"pw", a.Second})
			}
		}
		if c.Stop >= 0 && len(pws) > 0 {
			n := c.Stop % len(pws)
			pws[n].Do = "signal"
			pws = pws[:n+1]
			r.Label("interrupted")
		}
		for _, s := range pws {
			if strings.HasPrefix(string(s.Text), "Zq") && len(s.Text) >= 12 { // nothing else looks like this
				secrets = append(secrets, string(s.Text))
			}
		}
		run.Script = append(run.Script, pws...)
	}
	switch {
	case c.Stdout == "tty" && !c.ErrPipe:
		run.OutTty = true
	case c.Stdout != "tty":
		run.Stdout = c.Stdout
	}
	out, err := run.run()
	if err != nil {
		return err
	}
	if out.Hang {
		return fmt.Errorf("the command does not end; standard error %q", clipEnd(plainText(append(out.Err, out.Tty...)), 300))
	}
	if out.Before != out.After {
		return fmt.Errorf("the terminal had the settings %s, and is left with %s", termiosText(out.Before), termiosText(out.After))
	}
	r.Label(c.Cmd + "-" + c.Entry)
	for _, s := range secrets {
		if bytes.Contains(out.Tty, []byte(s)) || bytes.Contains(out.Err, []byte(s)) {
			return fmt.Errorf("the password %q is shown", s)
		}
	}
	if out.SignalReceived != 0 {
		r.Label("killed")
		return nil
	}
	s := newTerminal(c.Rows, c.Cols, c.Top)
	if c.ErrPipe {
		s.show(string(out.Err))
		if s.unknown {
			return nil
		}
	} else {
		s.show(string(out.Tty))
	}
	if s.unknown {
		r.Label("unknown-sequence")
		return nil
	}
	if len(s.sgr) > 0 {
		var on []string
		for k, v := range s.sgr {
			on = append(on, k+" "+v)
		}
		sort.Strings(on)
		return fmt.Errorf("left switched on in the terminal: %v; output ends %q", on, clipEnd(string(append(out.Err, out.Tty...)), 300))
	}
	if c.ErrPipe {
		r.Label("attributes")
		return nil
	}
	if len(words) > 0 && !c.wraps() {
		lines := s.text()
		if tok, i := leftWords(lines, words); tok != "" {
			return fmt.Errorf("a typed word is left on the screen (%d x %d, from row %d): %q in the line %q", c.Rows, c.Cols, c.Top, tok, lines[i])
		}
		r.Label("words-wiped")
	}
	return nil
}

// typed is the list words the user typed out for the phrase.
func (c c33) typed() []string {
	var w []string
	if c.Entry == "lines" {
		for _, l := range c.Lines {
			if x := strings.ToLower(strings.TrimSpace(string(l))); wordIndex(x) >= 0 {
				w = append(w, x)
			}
		}
		return w
	}
	e := newEditor()
	for i := 0; i < len(c.Keys); i++ {
		n := len(e.words)
		e.key(c.Keys[i])
		if len(e.words) > n {
			w = append(w, e.words[n])
		}
	}
	if len(e.input) > 3 { // cut short
		w = append(w, e.input)
		if x, ok := complete(e.input); ok {
			w = append(w, x)
		}
	}
	return w
}

// wraps reports whether a line at a word prompt gets too long.
func (c c33) wraps() bool {
	e := newEditor()
	for i := 0; i < len(c.Keys); i++ {
		if e.key(c.Keys[i]); len(e.input) > 50 {
			return true
		}
	}
	return false
}

func termiosText(t syscall.Termios) string {
	return fmt.Sprintf("i=%#x o=%#x c=%#x l=%#x cc=%x", t.Iflag, t.Oflag, t.Cflag, t.Lflag, t.Cc)
}

func genC33(t *rapid.T) c33 {
	c := c33{Stop: -1, Rows: rapid.IntRange(4, 60).Draw(t, "rows"), Cols: rapid.IntRange(80, 200).Draw(t, "cols")}
	if useDict(t, "size") {
		c.Rows, c.Cols = 4+dictLen(t, "rowslit", 90), 80+dictLen(t, "colslit", 120)
	}
	c.Top = rapid.IntRange(0, c.Rows-1).Draw(t, "top")
	if rapid.Bool().Draw(t, "bottom") {
		c.Top = c.Rows - 1
	}
	switch pick(t, "entry", 6, 4, 3, 2) {
	case 0:
		c.Entry = "keys"
		k := genC24(t)
		c.Keys, c.Phrase, c.Cmd = k.Keys, k.Target, k.Cmd
		if k.Words != nil {
			c.Phrase = cliPhrase{}
		}
		if pick(t, "abort", 4, 1) == 1 {
			n := rapid.IntRange(0, len(c.Keys)).Draw(t, "abortat")
			c.Keys = c.Keys[:n] + BS(rapid.SampledFrom([]string{"\x03", "\x04"}).Draw(t, "abortkey"))
			e := newEditor()
			for i := range []byte(c.Keys) {
				if e.key(c.Keys[i]); e.done { // nothing more is read
					c.Keys = c.Keys[:i+1]
					break
				}
			}
		}
	case 1:
		c.Entry = "lines"
		k := genC24s(t)
		c.Phrase, c.Cmd = k.Target, k.Cmd
		for _, l := range k.Lines {
			ok := len(l) < 60
			for _, b := range []byte(l) {
				ok = ok && b >= ' ' && b <= '~'
			}
			if ok {
				c.Lines = append(c.Lines, l)
			}
		}
		for i := range c.Lines {
			if simpleWords(c.Lines[:i+1]) != nil { // no more than is asked for
				c.Lines = c.Lines[:i+1]
				break
			}
		}
		if simpleWords(c.Lines) == nil {
			c.Over = "eof"
		} else if pick(t, "cut", 8, 1) == 1 {
			c.Lines = c.Lines[:rapid.IntRange(0, len(c.Lines)-1).Draw(t, "cutat")]
			c.Over = rapid.SampledFrom([]string{"eof", "interrupt"}).Draw(t, "over")
		}
	case 2:
		c.Entry = "file"
		c.Cmd = rapid.SampledFrom([]string{"convert", "recover"}).Draw(t, "cmd")
		c.Phrase = genCliPhrase(t, pick(t, "enc", 1, 3) == 1)
	case 3:
		c.Cmd = "generate"
		c.Phrase = cliPhrase{Seed: genSeed(t)}
	}
	if c.Phrase.PW != "" {
		for n := pick(t, "wrongs", 4, 2, 1); n > 0; n-- {
			c.Wrong = append(c.Wrong, otherTtyPassword(t, "wrong", c.Phrase.PW))
		}
	}
	if c.Entry == "" || pick(t, "protect", 3, 1) == 1 {
		c.Protect = map[string]string{"generate": "-encrypt-phrase", "convert": "-encrypt-phrase", "recover": "-encrypt-keys"}[c.Cmd]
		if c.Cmd == "recover" && pick(t, "slow", 4, 1) == 0 {
			c.Protect = ""
		}
	}
	if c.Protect != "" {
		right := secretPassword(t, "right")
		for n := pick(t, "rounds", 3, 2, 1); n > 0; n-- {
			a := attempt{First: secretPassword(t, "first")}
			a.Second = otherTtyPassword(t, "second", a.First)
			if pick(t, "empty", 3, 1) == 1 {
				a = attempt{}
			}
			c.Rounds = append(c.Rounds, a)
		}
		c.Rounds = append(c.Rounds, attempt{right, right})
	}
	if pick(t, "stop", 3, 1) == 1 {
		c.Stop = rapid.IntRange(0, 6).Draw(t, "stopat")
	}
	c.Verbose = pick(t, "verbose", 2, 1) == 1 && c.Cmd != "convert"
	c.Stdout = rapid.SampledFrom([]string{"", "", "tty", "/dev/full", "/dev/null"}).Draw(t, "stdout")
	c.ErrPipe = pick(t, "errpipe", 5, 1) == 1
	if pick(t, "modes", 1, 1) == 1 {
		for i, m := range flippable {
			c.Flip[i] = m & uint32(uniformN(t, "flip", 1<<32))
		}
		if pick(t, "noecho", 6, 1) == 1 && c.Stop < 0 && c.Entry != "lines" {
			c.Flip[3] |= syscall.ECHO
		}
		c.CC = uint32(uniformN(t, "cc", 1<<32))
		if c.Over == "interrupt" {
			c.Flip[3] &^= syscall.ISIG
		}
	}
	return c
}

func init() {
	register(&Property{ID: "C33", NeedCLI: true, Assumptions: []string{
		"the command is built from the working tree with a reduced-cost Argon2 in golang.org/x/crypto (same parameters mixed in)",
		"the screen is that of an ANSI terminal at least 80 columns wide and 4 rows high, lines typed are shorter than the screen is wide, and keys are typed when they are asked for",
		"a typed word counts as left on the screen if it or a piece of four letters or more that begins or ends it, not a word of the program's messages, can be read there",
	}, Subs: []subCheck{
		&Sub[c33]{Name: "terminal", Rule: "dialogues of all three commands at a pseudo-terminal (word prompts with detours, -simple, passwords refused and repeated, abort at any prompt, output that cannot be written), with terminal modes, sizes and cursor positions of all kinds; modes, attributes and screen contents at the end; trivial if the words do not finish",
			Gen: genC33, Check: checkC33, Quick: 4000, Thorough: 60000, Confirm: 2, Limit: 3 * time.Minute},
	}})
}
