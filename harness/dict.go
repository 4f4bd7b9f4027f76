package main

import (
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math/big"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// A dictionary of the constants in the code under test, as fuzzers use them: values compared with
// in the code are worth trying as inputs. Constants that are not in known_literals.json (made from the
// tree the checks were written for) are tried much more often. It only steers generation: what is
// expected of the code does not depend on it, and replays do not need it.

//go:embed known_literals.json
var knownLiterals []byte

type literals struct {
	Nums map[string]int `json:"nums"`
	Strs map[string]int `json:"strs"`

	order []uint64 // numbers as they follow each other
}

type dictionary struct {
	nums, newNums []uint64
	novel         []uint64 // those newNums that were nowhere before
	strs, newStrs []string
	envs          []string
	order         []uint64
	starts        []int // places in order with new numbers
}

var timeUnits = map[string]int64{"Nanosecond": 1, "Microsecond": 1e3, "Millisecond": 1e6, "Second": 1e9, "Minute": 60e9, "Hour": 3600e9,
	"January": 1, "February": 2, "March": 3, "April": 4, "May": 5, "June": 6, "July": 7, "August": 8, "September": 9, "October": 10, "November": 11, "December": 12}

// constOf evaluates literals and arithmetic on them.
func constOf(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return constOf(x.X)
	case *ast.CallExpr: // conversions
		if len(x.Args) == 1 {
			if id, ok := x.Fun.(*ast.Ident); ok && strings.Contains(" int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 byte rune string ", " "+id.Name+" ") {
				return constOf(x.Args[0])
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Duration" {
				return constOf(x.Args[0])
			}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Name == "time" {
			if v, ok := timeUnits[x.Sel.Name]; ok {
				return constant.MakeInt64(v)
			}
		}
	case *ast.UnaryExpr:
		if v := constOf(x.X); v != nil && v.Kind() == constant.Int && (x.Op == token.SUB || x.Op == token.ADD) {
			return constant.UnaryOp(x.Op, v, 0)
		}
	case *ast.BinaryExpr:
		a, b := constOf(x.X), constOf(x.Y)
		if a == nil || b == nil || a.Kind() != b.Kind() {
			return nil
		}
		switch {
		case a.Kind() == constant.String && x.Op == token.ADD:
			return constant.BinaryOp(a, x.Op, b)
		case a.Kind() != constant.Int:
		case x.Op == token.SHL || x.Op == token.SHR:
			if n, ok := constant.Uint64Val(b); ok && n < 130 {
				return constant.Shift(a, x.Op, uint(n))
			}
		case x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR:
			return constant.BinaryOp(a, x.Op, b)
		case x.Op == token.QUO && constant.Sign(b) != 0:
			return constant.BinaryOp(a, token.QUO_ASSIGN, b)
		}
	}
	return nil
}

// harvest collects the constants of the Go files of a tree.
func harvest(root string) literals {
	l := literals{Nums: map[string]int{}, Strs: map[string]int{}}
	filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); path != root && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		add := func(v constant.Value) {
			switch v.Kind() {
			case constant.String:
				if s := constant.StringVal(v); len(s) <= 80 {
					l.Strs[strconv.QuoteToASCII(s)]++
				}
			case constant.Int:
				if constant.Sign(v) < 0 {
					v = constant.UnaryOp(token.SUB, v, 0)
				}
				if n, ok := constant.Uint64Val(v); ok {
					l.Nums[strconv.FormatUint(n, 10)]++
					l.order = append(l.order, n)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				x.Tag = nil
			case *ast.CompositeLit: // of bytes
				if a, ok := x.Type.(*ast.ArrayType); ok {
					if id, ok := a.Elt.(*ast.Ident); ok && (id.Name == "byte" || id.Name == "uint8") {
						var b []byte
						for _, e := range x.Elts {
							if v := constOf(e); v != nil && v.Kind() == constant.Int {
								if u, ok := constant.Uint64Val(v); ok {
									b = append(b, byte(u))
								}
							}
						}
						if len(b) > 0 && len(b) <= 80 {
							l.Strs[strconv.QuoteToASCII(string(b))]++
						}
					}
				}
			case ast.Expr:
				if v := constOf(x); v != nil {
					add(v)
				}
			}
			return true
		})
		return nil
	})
	return l
}

func repoRoot() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

var dict = sync.OnceValue(func() *dictionary {
	d := &dictionary{}
	var known literals
	json.Unmarshal(knownLiterals, &known)
	cur := harvest(repoRoot())
	for s, n := range cur.Nums {
		v, _ := strconv.ParseUint(s, 10, 64)
		d.nums = append(d.nums, v)
		if n > known.Nums[s] {
			d.newNums = append(d.newNums, v)
		}
	}
	for _, v := range d.newNums {
		if known.Nums[strconv.FormatUint(v, 10)] == 0 {
			d.novel = append(d.novel, v)
		}
	}
	d.order = cur.order
	for i, v := range d.order {
		if v < 256 && slices.Contains(d.novel, v) {
			d.starts = append(d.starts, i)
		}
	}
	if len(d.starts) == 0 {
		for i, v := range d.order {
			if v < 256 && slices.Contains(d.newNums, v) {
				d.starts = append(d.starts, i)
			}
		}
	}
	for s, n := range cur.Strs {
		u, err := strconv.Unquote(s)
		if err != nil {
			continue
		}
		d.strs = append(d.strs, u)
		if n > known.Strs[s] {
			d.newStrs = append(d.newStrs, u)
		}
	}
	for _, s := range d.strs {
		ok := len(s) > 1 && strings.Trim(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") == ""
		for _, no := range []string{"PATH", "HOME", "TMPDIR", "VERIF_", "GO", "LD_"} {
			ok = ok && !strings.HasPrefix(s, no)
		}
		if ok {
			d.envs = append(d.envs, s)
		}
	}
	for _, s := range [][]uint64{d.nums, d.newNums, d.novel} {
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	}
	sort.Strings(d.strs)
	sort.Strings(d.newStrs)
	sort.Strings(d.envs)
	if len(d.nums) == 0 {
		d.nums = []uint64{0}
	}
	if len(d.strs) == 0 {
		d.strs = []string{""}
	}
	return d
})

// useDict decides whether to take a value from the dictionary.
func useDict(t *rapid.T, label string) bool {
	d := dict()
	if len(d.newNums)+len(d.newStrs) > 0 {
		return pick(t, label+"dict", 5, 1) == 1
	}
	return pick(t, label+"dict", 39, 1) == 1
}

func dictLit(t *rapid.T, label string) uint64 {
	d := dict()
	if len(d.novel) > 0 && rapid.Bool().Draw(t, label+"novel") {
		return rapid.SampledFrom(d.novel).Draw(t, label+"num")
	}
	if len(d.newNums) > 0 && pick(t, label+"new", 1, 4) == 1 {
		return rapid.SampledFrom(d.newNums).Draw(t, label+"num")
	}
	return rapid.SampledFrom(d.nums).Draw(t, label+"num")
}

// dictNum draws a number related to a constant, of at most max.
func dictNum(t *rapid.T, label string, max uint64) uint64 {
	v := dictLit(t, label)
	rel := pick(t, label+"rel", 6, 2, 2, 3, 1, 1)
	switch rel {
	case 1:
		v--
	case 2:
		v++
	case 3: // a multiple, plus another constant
		if v > 1 && v <= max {
			v *= 1 + uniformN(t, label+"mul", max/v)
			if rapid.Bool().Draw(t, label+"plus") {
				v += dictLit(t, label+"rest")
			}
		}
	case 4:
		v = 1<<min(v, 63) + uint64(rapid.IntRange(-1, 1).Draw(t, label+"pow"))
	}
	if rel == 5 && v < 1<<32 { // a share
		v = v * uint64(rapid.IntRange(1, 10).Draw(t, label+"num")) / uint64(rapid.IntRange(1, 10).Draw(t, label+"den"))
	}
	if max < 1<<64-1 && v > max {
		v %= max + 1
	}
	return v
}

// dictStr draws a text made of constants.
func dictStr(t *rapid.T, label string) string {
	d := dict()
	lit := func(l string) string {
		if len(d.newStrs) > 0 && pick(t, l+"new", 1, 4) == 1 {
			return rapid.SampledFrom(d.newStrs).Draw(t, l+"str")
		}
		if len(d.newNums) > 0 && rapid.Bool().Draw(t, l+"char") { // perhaps a character
			if v := rapid.SampledFrom(d.newNums).Draw(t, l+"rune"); v > 0 && v <= utf8.MaxRune && utf8.ValidRune(rune(v)) {
				return string(rune(v))
			}
		}
		return rapid.SampledFrom(d.strs).Draw(t, l+"str")
	}
	s := lit(label)
	word := func(l string) string { return rapid.StringMatching(`[a-z ]{1,8}`).Draw(t, label+l) }
	switch pick(t, label+"form", 4, 2, 2, 2, 1, 1, 1, 1, 1) {
	case 1:
		s = s + word("after")
	case 2:
		s = word("before") + s
	case 3:
		s = word("before") + s + word("after")
	case 4:
		s = strings.ToUpper(s)
	case 5:
		s = strings.ToLower(s)
	case 6:
		s = s + lit(label+"2")
	case 7:
		s = strings.Repeat(s, rapid.IntRange(2, 5).Draw(t, label+"times"))
	case 8:
		s = strconv.FormatUint(dictNum(t, label+"n", 1<<64-1), rapid.SampledFrom([]int{10, 16}).Draw(t, label+"base"))
	}
	return s
}

// dictLen draws a length related to a constant.
func dictLen(t *rapid.T, label string, max int) int { return int(dictNum(t, label, uint64(max))) }

// dictUnix draws a time within lo and hi related to constants: seconds since 1970 or since the epoch of
// this program, in any unit, or parts of a date.
func dictUnix(t *rapid.T, label string, lo, hi int64) int64 {
	v := int64(dictLit(t, label) & (1<<62 - 1))
	var x int64
	switch pick(t, label+"unit", 3, 3, 2, 2, 4, 2) {
	case 0:
		x = v
	case 1:
		x = ref.EpochStart + v
	case 2:
		x = rapid.SampledFrom([]int64{0, ref.EpochStart}).Draw(t, label+"from") + v/rapid.SampledFrom([]int64{1e3, 1e6, 1e9}).Draw(t, label+"div")
	case 3: // a multiple and a rest
		if v > 1 && v < hi-lo {
			x = v*int64(uniformN(t, label+"mul", uint64(hi/v+1))) + []int64{0, int64(dictLit(t, label+"rest") & (1<<40 - 1))}[rapid.IntRange(0, 1).Draw(t, label+"d")]
			if rapid.Bool().Draw(t, label+"rel") {
				x += ref.EpochStart
			}
		}
	case 4: // a date
		y, mo, d, h, mi, s := 2023+int(uniformN(t, label+"y", 68)), 1+int(uniformN(t, label+"mo", 12)), 1+int(uniformN(t, label+"d", 31)), int(uniformN(t, label+"h", 24)), int(uniformN(t, label+"mi", 60)), int(uniformN(t, label+"s", 60))
		parts := []*int{&y, &mo, &d, &h, &mi, &s}
		for n := rapid.IntRange(1, 3).Draw(t, label+"parts"); n > 0; n-- {
			*parts[rapid.IntRange(0, 5).Draw(t, label+"part")] = int(dictLit(t, label+"value") % 10000)
		}
		if rapid.Bool().Draw(t, label+"midnight") {
			h, mi, s = 0, 0, 0
		}
		x = time.Date(y, time.Month(mo), d, h, mi, s, 0, time.UTC).Unix()
	case 5:
		x = []int64{lo, hi}[rapid.IntRange(0, 1).Draw(t, label+"end")]
		if x == lo {
			x += v
		} else {
			x -= v
		}
	}
	x += []int64{0, -1, 1}[pick(t, label+"near", 3, 1, 1)]
	if x < lo || x > hi {
		x = lo + int64(uint64(x)%uint64(hi-lo+1))
	}
	return x
}

// dictBytes overwrites some of b with a constant.
func dictBytes(t *rapid.T, label string, b []byte) {
	var p []byte
	what := pick(t, label+"what", 4, 2, 2, 2)
	if d := dict(); what == 3 && len(d.starts) == 0 {
		what = 0
	}
	switch what {
	case 3: // bytes that follow each other in the code, perhaps with places between them
		d := dict()
		at := rapid.SampledFrom(d.starts).Draw(t, label+"start")
		step := rapid.IntRange(1, 3).Draw(t, label+"step")
		for n := rapid.IntRange(2, 8).Draw(t, label+"run"); n > 0 && at < len(d.order) && d.order[at] < 256; n-- {
			p = append(p, byte(d.order[at]))
			at += step
		}
	case 0: // big endian, in as many bytes as needed or more
		var q [8]byte
		binary.BigEndian.PutUint64(q[:], dictNum(t, label, 1<<64-1))
		p = q[:]
		for len(p) > 1 && p[0] == 0 {
			p = p[1:]
		}
		if rapid.Bool().Draw(t, label+"le") {
			for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
				p[i], p[j] = p[j], p[i]
			}
		}
	case 1:
		p = []byte(dictStr(t, label))
	case 2: // twelve bits: a word
		bit := 12*rapid.IntRange(1, max(1, len(b)*8/12)).Draw(t, label+"word") - 4
		if bit+12 > len(b)*8 {
			bit = len(b)*8 - 12
		}
		if bit < 0 {
			return
		}
		w := dictNum(t, label, 4095)
		if s := wordIndex(dictStr(t, label+"w")); s >= 0 {
			w = uint64(s)
		}
		x := new(big.Int).SetBytes(b)
		sh := uint(len(b)*8 - bit - 12)
		x.AndNot(x, new(big.Int).Lsh(big.NewInt(4095), sh))
		x.Or(x, new(big.Int).Lsh(new(big.Int).SetUint64(w), sh))
		x.FillBytes(b)
		return
	}
	if len(p) > len(b) {
		p = p[:len(b)]
	}
	at := 0
	switch pick(t, label+"where", 3, 2, 2) {
	case 1:
		at = len(b) - len(p)
	case 2:
		at = rapid.IntRange(0, len(b)-len(p)).Draw(t, label+"at")
	}
	copy(b[at:], p)
}

// dictTTL draws a lifetime in nanoseconds related to a constant, of 1 to maxTTLSec seconds.
func dictTTL(t *rapid.T, label string) int64 {
	v := dictNum(t, label, 1<<62)
	u := rapid.SampledFrom([]uint64{1, 60, 3600, 86400, 7 * 86400, 30 * 86400, 365 * 86400}).Draw(t, label+"unit")
	if v > 1e9 && rapid.Bool().Draw(t, label+"ns") {
		v /= 1e9
	}
	v = v%(1<<33)*u + uint64(rapid.IntRange(-2, 0).Draw(t, label+"near"))
	return int64(1+v%maxTTLSec) * int64(time.Second)
}
