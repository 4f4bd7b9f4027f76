package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// ---- C24

// editor is the model of the interactive word prompt.
type editor struct {
	words   []string
	input   string
	count   int
	aborted bool
	done    bool
}

var sortedWords = func() []string {
	w := append([]string(nil), ref.Words...)
	sort.Strings(w)
	return w
}()

// complete is the first list word that starts with a non-empty input.
func complete(in string) (string, bool) {
	if in == "" {
		return "", false
	}
	i := sort.SearchStrings(sortedWords, in)
	if i < len(sortedWords) && strings.HasPrefix(sortedWords[i], in) {
		return sortedWords[i], true
	}
	return "", false
}

func wordIndex(w string) int {
	if i, ok := ref.Index[w]; ok {
		return i
	}
	return -1
}

func versionOf(word string) int { return wordIndex(word) >> 8 }

func newEditor() *editor { return &editor{count: 1} }

func (e *editor) key(b byte) {
	if e.aborted || e.done {
		return
	}
	switch {
	case b == 3 || b == 4:
		e.aborted = true
	case b >= 'a' && b <= 'z':
		e.input += string(rune(b))
	case b == 0x7f:
		if e.input != "" {
			e.input = e.input[:len(e.input)-1]
		}
	case b == 'D':
		e.input = ""
		if len(e.words) > 0 {
			e.words = e.words[:len(e.words)-1]
		}
	case b == '\t':
		if w, ok := complete(e.input); ok {
			e.input = w
		}
	case b == '\r' || b == ' ':
		w, ok := complete(e.input)
		if !ok {
			return
		}
		if len(e.words) == 0 {
			n := ref.Size(versionOf(w))
			if n == 0 {
				return
			}
			e.count = n
		}
		e.words = append(e.words, w)
		e.input = ""
		if len(e.words) == e.count {
			e.done = true
		}
	}
}

func (e *editor) run(keys string) {
	for i := 0; i < len(keys); i++ {
		e.key(keys[i])
	}
}

type c24 struct {
	Keys   BS        `json:"keys"`
	Target cliPhrase `json:"target"` // what the keys arrive at, if Words is empty
	Words  []string  `json:"words,omitempty"`
	Cmd    string    `json:"cmd"`
}

// screen is enough of a terminal to tell what the prompt shows.
type screen struct {
	lines    map[int][]rune
	row, col int
	sr, sc   int
	shown    map[int]string // last text seen at each "Word N >> " prompt
	started  map[int]bool
}

var rePromptLine = regexp.MustCompile(`^Word (\d+) >> (.*)$`)

func (s *screen) look() {
	m := rePromptLine.FindStringSubmatch(strings.TrimRight(string(s.lines[s.row]), " "))
	if m == nil {
		m = rePromptLine.FindStringSubmatch(string(s.lines[s.row]))
	}
	if m != nil {
		n, _ := strconv.Atoi(m[1])
		s.shown[n] = strings.TrimRight(m[2], " ")
	}
}

func (s *screen) put(r rune) {
	l := s.lines[s.row]
	for len(l) <= s.col {
		l = append(l, ' ')
	}
	l[s.col] = r
	s.lines[s.row] = l
	s.col++
}

var reCSI = regexp.MustCompile("^\x1b\\[([0-9;?]*)([@-~])")

// show feeds output; ok is false if it uses sequences this terminal does not know.
func (s *screen) show(out string) bool {
	for len(out) > 0 {
		c := out[0]
		switch {
		case c == '\x1b':
			if strings.HasPrefix(out, "\x1b7") || strings.HasPrefix(out, "\x1b8") {
				if out[1] == '7' {
					s.sr, s.sc = s.row, s.col
				} else {
					s.row, s.col = s.sr, s.sc
				}
				out = out[2:]
				continue
			}
			m := reCSI.FindStringSubmatch(out)
			if m == nil {
				return false
			}
			out = out[len(m[0]):]
			n := 1
			if v, err := strconv.Atoi(m[1]); err == nil && v > 0 {
				n = v
			}
			switch m[2] {
			case "m":
			case "s":
				s.sr, s.sc = s.row, s.col
			case "u":
				s.row, s.col = s.sr, s.sc
			case "F":
				s.row, s.col = s.row-n, 0
			case "A":
				s.row -= n
			case "B":
				s.row += n
			case "C":
				s.col += n
			case "D":
				if s.col -= n; s.col < 0 {
					s.col = 0
				}
			case "G":
				s.look()
				s.col = n - 1
			case "K":
				s.look2(m[1])
				switch m[1] {
				case "", "0":
					if l := s.lines[s.row]; s.col < len(l) {
						s.lines[s.row] = l[:s.col:s.col]
					}
				case "2":
					s.lines[s.row] = nil
				default:
					return false
				}
			default:
				return false
			}
			continue
		case c == '\r':
			s.look()
			s.col = 0
		case c == '\n':
			s.look()
			s.row++
		case c == '\b':
			if s.col > 0 {
				s.col--
			}
		case c == 0x7f || c == 0 || c == 7:
		default:
			s.put(rune(c))
		}
		out = out[1:]
	}
	s.look()
	return true
}

// look2 notes the line before a whole-line erasure.
func (s *screen) look2(arg string) {
	if arg == "2" {
		s.look()
	}
}

func checkC24(r *Rec, c c24) error {
	dir, rm := scratch()
	defer rm()
	e := newEditor()
	e.run(string(c.Keys))
	if !e.done && !e.aborted {
		r.Trivial()
		return nil
	}
	run := cliRun{Dir: dir, Tty: true, Script: []step{{"keys", c.Keys}}, Args: []string{c.Cmd}}
	p, def := ref.Phrase{}, 0
	if e.done {
		p, def = ref.Classify(e.words)
	}
	if e.done && def == 0 && p.Encrypted {
		if c.Words != nil {
			r.Trivial()
			return nil
		}
		run.Script = append(run.Script, step{"pw", c.Target.PW})
	}
	out, err := run.run()
	if err != nil {
		return err
	}
	if out.Hang {
		return fmt.Errorf("the command waits for more, the words %q were submitted; standard error %q", phrase(e.words), clipEnd(plainText(out.Err), 200))
	}
	if !out.Echo || !out.Canon {
		return fmt.Errorf("the terminal is left in raw mode")
	}
	if e.aborted {
		r.Label("aborted")
		if err := out.refused(); err != nil {
			return fmt.Errorf("aborted: %w", err)
		}
		if len(printedPhrase(out.Err)) > 0 {
			return fmt.Errorf("aborted, and a phrase is printed")
		}
		return nil
	}
	r.Label(fmt.Sprintf("%d-words", len(e.words)))
	// what was shown
	s := &screen{lines: map[int][]rune{}, shown: map[int]string{}}
	end := strings.LastIndex(string(out.Err), "Word "+strconv.Itoa(len(e.words))+" >> ")
	if end >= 0 && s.show(string(out.Err)) {
		for i, w := range e.words {
			if got := s.shown[i+1]; got != w {
				return fmt.Errorf("word %d: the terminal showed %q, the keys settled on %q", i+1, got, w)
			}
		}
		r.Label("screen-checked")
	}
	if def != 0 {
		r.Label("invalid-phrase")
		if err := out.refused(); err != nil {
			return fmt.Errorf("the words %q are not a phrase: %w", phrase(e.words), err)
		}
		return nil
	}
	if err := out.fine(); err != nil {
		return fmt.Errorf("the words %q: %w", phrase(e.words), err)
	}
	seed, off := Seed16(p.Entropy), p.Offset
	if p.Encrypted {
		seed = c.Target.Seed
	}
	return sameIdentity(out, c.Cmd, seed, off)
}

// sameIdentity checks that recover or convert (to plaintext) worked on a seed and offset.
func sameIdentity(out *cliOut, cmd string, seed Seed16, off uint32) error {
	if cmd == "convert" {
		want := ref.PlainPhrase(seed, off)
		if got := printedPhrase(out.Err); !eqWords(got, want) {
			return fmt.Errorf("taken for %q, want %q", phrase(got), phrase(want))
		}
		return nil
	}
	data, err := out.block()
	if err != nil {
		return err
	}
	k, m, cert := cliOpts{}.key(seed, off, true)
	return exportIs(data, k, m, cert, nil)
}

// shortest returns the shortest input that completes to a word.
func shortest(w string) int {
	for n := 1; n < len(w); n++ {
		if x, ok := complete(w[:n]); ok && x == w {
			return n
		}
	}
	return len(w)
}

const keyLeft = "\x1b[D"

func genC24(t *rapid.T) c24 {
	c := c24{Cmd: rapid.SampledFrom([]string{"convert", "convert", "recover"}).Draw(t, "cmd")}
	var target []string
	switch pick(t, "targetkind", 5, 3, 1) {
	case 0:
		c.Target = genCliPhrase(t, false)
		target = c.Target.words()
	case 1:
		c.Target = genCliPhrase(t, true)
		target = c.Target.words()
	case 2: // any words
		target = []string{ref.Words[rapid.IntRange(0, 511).Draw(t, "first")]}
		n := ref.Size(versionOf(target[0]))
		for len(target) < n {
			target = append(target, ref.Words[rapid.IntRange(0, 4095).Draw(t, "word")])
		}
		c.Words = target
	}
	e := newEditor()
	var keys strings.Builder
	press := func(s string) {
		keys.WriteString(s)
		e.run(s)
	}
	// enter types a word in one of many ways
	enter := func(w string) {
		n := len(w)
		if m := shortest(w); m < len(w) && rapid.Bool().Draw(t, "short") {
			n = rapid.IntRange(m, len(w)).Draw(t, "n")
		}
		how := pick(t, "how", 6, 2, 1, 1, 1)
		press(w[:n])
		switch how {
		case 1:
			press("\t")
		case 2: // complete, cut, type again
			press("\t")
			k := rapid.IntRange(1, len(w)).Draw(t, "cut")
			press(strings.Repeat("\x7f", k))
			press(w[len(w)-k:])
		case 3:
			press("q\x7f")
		case 4:
			press("\t\t")
		}
		press(rapid.SampledFrom([]string{"\r", " "}).Draw(t, "submit"))
	}
	detours := rapid.IntRange(0, 6).Draw(t, "detours")
	if pick(t, "long", 24, 1) == 1 {
		detours = rapid.IntRange(10, 40).Draw(t, "manydetours")
	}
	budget := 400
	for !e.done && budget > 0 {
		budget--
		i := len(e.words)
		if detours > 0 && pick(t, "detour", 2, 1) == 1 {
			detours--
			switch pick(t, "detourkind", 3, 3, 2, 2, 2, 2, 2, 2, 1) {
			case 8: // the same again and again
				k := rapid.SampledFrom([]int{3, 5, 10, 20, 60}).Draw(t, "times")
				if useDict(t, "times") {
					k = dictLen(t, "timeslit", 70) + 1
				}
				s := rapid.SampledFrom([]string{"zz\r", "q", "abandonx \x7f", "\x7f", "\t", "\x1b[A", "qqq\x7f\x7f\x7f"}).Draw(t, "again")
				press(strings.Repeat(s, k))
				press(strings.Repeat("\x7f", k*len(s)))
			case 0: // noise keys
				if useDict(t, "noise") {
					if s := dictStr(t, "noiselit"); len(s) < 20 && !strings.ContainsAny(s, "\x03\x04\x1bD") {
						press(s)
						continue
					}
				}
				press(rapid.SampledFrom([]string{"1", "0", "-", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[3~", "\x1b[H", "\x1b[F", "\x1bOP", "\x1b[5~", "Q", "ABC", "é", "\n", "\x01", "\x15", "\x17", "\x08", ".", "\t", "\r", " ", "\x7f", "\x00", "\xff"}).Draw(t, "noise"))
			case 1: // a wrong word, then left arrow
				w := ref.Words[rapid.IntRange(0, 4095).Draw(t, "wrong")]
				if i == 0 {
					w = ref.Words[rapid.IntRange(0, 511).Draw(t, "wrong0")]
				}
				if i+1 < e.count || i == 0 {
					press(w + "\r")
				}
			case 2: // left a number of times
				press(strings.Repeat(keyLeft, rapid.IntRange(1, i+2).Draw(t, "lefts")))
			case 3: // a word that does not exist
				press(rapid.SampledFrom([]string{"zzzz", "qqq", "xyz", "abandonx", "aa"}).Draw(t, "unknown"))
				press(rapid.SampledFrom([]string{"\r", " ", "\t", "\r\r ", ""}).Draw(t, "try"))
				press(strings.Repeat("\x7f", rapid.IntRange(0, 12).Draw(t, "bs")))
			case 4: // letters and back
				s := rapid.StringMatching(`[a-z]{1,6}`).Draw(t, "letters")
				press(s)
				press(strings.Repeat("\x7f", len(s)))
			case 5: // a first word of an unknown version
				if i == 0 {
					press(ref.Words[rapid.IntRange(512, 4095).Draw(t, "unver")] + "\r")
				}
			case 6: // type something, then left, which forgets it
				press(rapid.StringMatching(`[a-z]{1,4}`).Draw(t, "forget") + keyLeft)
			case 7:
				if pick(t, "abort", 3, 1) == 1 {
					press(rapid.StringMatching(`[a-z]{0,4}`).Draw(t, "before") + rapid.SampledFrom([]string{"\x03", "\x04"}).Draw(t, "int"))
					c.Keys = BS(keys.String())
					return c
				}
				press(keyLeft)
			}
			continue
		}
		// make progress towards the target: go back to the first wrong word, then on
		good := 0
		for good < i && good < len(target) && e.words[good] == target[good] {
			good++
		}
		if good < i {
			press(strings.Repeat(keyLeft, i-good))
			continue
		}
		if e.input != "" {
			if rapid.Bool().Draw(t, "erase") {
				press(strings.Repeat("\x7f", len(e.input)))
			} else {
				press(keyLeft)
				continue
			}
		}
		enter(target[i])
	}
	c.Keys = BS(keys.String())
	return c
}

type c24s struct {
	Lines  []BS      `json:"lines"`
	Target cliPhrase `json:"target"`
	CRLF   bool      `json:"crlf,omitempty"`
	NoEnd  bool      `json:"no_final_newline,omitempty"`
	How    string    `json:"how"` // pipe, pipe-simple, tty
	Cmd    string    `json:"cmd"`
}

// simpleWords is the model of line-by-line entry; nil if input ends too early.
func simpleWords(lines []BS) []string {
	var words []string
	count := 1
	for _, l := range lines {
		w := strings.ToLower(strings.TrimSpace(string(l)))
		if wordIndex(w) < 0 {
			continue
		}
		if len(words) == 0 {
			n := ref.Size(versionOf(w))
			if n == 0 {
				continue
			}
			count = n
		}
		words = append(words, w)
		if len(words) == count {
			return words
		}
	}
	return nil
}

func checkC24Simple(r *Rec, c c24s) error {
	dir, rm := scratch()
	defer rm()
	words := simpleWords(c.Lines)
	p, def := ref.Phrase{}, 0
	if words != nil {
		p, def = ref.Classify(words)
	}
	nl := "\n"
	if c.CRLF && c.How != "tty" {
		nl = "\r\n"
	}
	var sb strings.Builder
	for i, l := range c.Lines {
		sb.WriteString(string(l))
		if !c.NoEnd || i < len(c.Lines)-1 || c.How == "tty" {
			sb.WriteString(nl)
		}
	}
	run := cliRun{Dir: dir, Args: []string{c.Cmd}}
	if c.How != "pipe" {
		run.Args = append(run.Args, "-simple")
	}
	enc := words != nil && def == 0 && p.Encrypted
	if enc && !eqWords(words, c.Target.words()) {
		r.Trivial() // another encrypted phrase, its password is unknown
		return nil
	}
	if c.How == "tty" {
		run.Tty = true
		text := sb.String()
		if words == nil {
			text += "\x04"
		}
		run.Script = []step{{"type", BS(text)}}
		if enc {
			run.Script = append(run.Script, step{"pw", c.Target.PW})
		}
	} else {
		run.Stdin = []byte(sb.String())
	}
	out, err := run.run()
	if err != nil {
		return err
	}
	if out.Hang {
		return fmt.Errorf("the command waits for more; standard error %q", clipEnd(plainText(out.Err), 200))
	}
	switch {
	case words == nil:
		r.Label("ends-early")
		if err := out.refused(); err != nil {
			return fmt.Errorf("input ends early: %w", err)
		}
		if len(printedPhrase(out.Err)) > 0 {
			return fmt.Errorf("input ends early, and a phrase is printed")
		}
		return nil
	case def != 0 || enc && c.How != "tty": // no terminal to ask for the password
		r.Label("refused")
		return out.refused()
	}
	if err := out.fine(); err != nil {
		return fmt.Errorf("the words %q: %w", phrase(words), err)
	}
	r.Label("accepted-" + c.How)
	seed := Seed16(p.Entropy)
	if enc {
		seed = c.Target.Seed
	}
	return sameIdentity(out, c.Cmd, seed, p.Offset)
}

func genC24s(t *rapid.T) c24s {
	c := c24s{Cmd: rapid.SampledFrom([]string{"convert", "recover"}).Draw(t, "cmd"), How: rapid.SampledFrom([]string{"pipe", "pipe-simple", "tty"}).Draw(t, "how")}
	c.Target = genCliPhrase(t, pick(t, "enc", 2, 1) == 1)
	words := genCaseMut(t).apply(c.Target.words())
	bad := func() BS {
		w := ref.Words[rapid.IntRange(0, 4095).Draw(t, "w")]
		if rapid.Bool().Draw(t, "own") {
			w = c.Target.words()[rapid.IntRange(0, 13).Draw(t, "which")]
		}
		if pick(t, "att", 2, 1) == 1 {
			x := rapid.SampledFrom(attached).Draw(t, "attached")
			if c.How == "tty" && (x[0] < ' ' || x[0] > '~') {
				x = "." // not through the line discipline
			}
			return BS(rapid.SampledFrom([]string{w + x, x + w, x + w + x, w + " " + x, x + " " + w}).Draw(t, "attline"))
		}
		if useDict(t, "badline") {
			return BS(strings.Map(func(r rune) rune {
				if r < ' ' || r > '~' {
					return -1
				}
				return r
			}, dictStr(t, "badlit")))
		}
		return BS(rapid.SampledFrom([]string{"", " ", "zzzz", w + "x", w[:len(w)-1], w + " " + w, "1. " + w, "#", "é", w + ".", "-", "0"}).Draw(t, "badline"))
	}
	for i, w := range words {
		if pick(t, "burst", 150, 1) == 1 {
			for k := rapid.IntRange(3, 40).Draw(t, "burstlen"); k > 0; k-- {
				if b := bad(); wordIndex(strings.ToLower(strings.TrimSpace(string(b)))) < 0 {
					c.Lines = append(c.Lines, b)
				}
			}
			if c.How != "tty" {
				c.Lines = append(c.Lines, BS(strings.Repeat("z", rapid.SampledFrom([]int{100, 1000, 4095, 4096, 5000, 60000}).Draw(t, "longline"))))
			}
		}
		for pick(t, "junk", 8, 1) == 1 {
			if i == 0 && rapid.Bool().Draw(t, "ver") {
				c.Lines = append(c.Lines, BS(ref.Words[rapid.IntRange(512, 4095).Draw(t, "unver")]))
			} else if b := bad(); wordIndex(strings.ToLower(strings.TrimSpace(string(b)))) < 0 {
				c.Lines = append(c.Lines, b)
			}
		}
		pad := rapid.SampledFrom([]string{"", "", "", " ", "\t", "  "}).Draw(t, "pad")
		if c.How == "tty" {
			pad = strings.ReplaceAll(pad, "\t", " ")
		}
		c.Lines = append(c.Lines, BS(pad+w+rapid.SampledFrom([]string{"", "", " "}).Draw(t, "pad2")))
	}
	switch pick(t, "end", 8, 1, 1, 1) {
	case 1: // ends early
		c.Lines = c.Lines[:rapid.IntRange(0, len(c.Lines)-1).Draw(t, "cut")]
	case 2: // more than needed
		if c.How != "tty" {
			c.Lines = append(c.Lines, "abandon", "zzz", "")
		}
	case 3: // one other word
		c.Lines[rapid.IntRange(0, len(c.Lines)-1).Draw(t, "pos")] = BS(ref.Words[rapid.IntRange(0, 4095).Draw(t, "other")])
	}
	c.CRLF = pick(t, "crlf", 4, 1) == 1
	c.NoEnd = pick(t, "noend", 4, 1) == 1
	return c
}

func init() {
	register(&Property{ID: "C24", NeedCLI: true, Assumptions: []string{
		"the command is built from the working tree with a reduced-cost Argon2 in golang.org/x/crypto (same parameters mixed in)",
		"a capital D typed by itself is not generated: the program reads the last byte of the left-arrow sequence",
	}, Subs: []subCheck{
		&Sub[c24]{Name: "keystrokes", Rule: "key sequences on a pseudo-terminal that arrive at a phrase over detours (completion, backspace, left arrow, wrong and unknown words, other versions, noise keys, abort), judged by a model of the editor and of the screen; trivial if the sequence does not finish",
			Gen: genC24, Check: checkC24, Quick: 2500, Thorough: 60000, Confirm: 2, Limit: 3 * time.Minute},
		&Sub[c24s]{Name: "lines", Rule: "words one per line by pipe, pipe with -simple and terminal with -simple, with invalid lines, blanks, letter case, early end and surplus; all count",
			Gen: genC24s, Check: checkC24Simple, Quick: 2500, Thorough: 60000, Confirm: 2, Limit: 3 * time.Minute},
	}})
}
