package main

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	mk "github.com/kklash/mnemonikey"

	"verif/harness/ref"
)

// workerMain runs one request from standard input in this process; checks use it to run cases in
// another process, another environment or another build.
func workerMain(args []string) int {
	in, err := io.ReadAll(os.Stdin)
	if err != nil || len(args) == 0 {
		fmt.Println("usage")
		return 2
	}
	switch args[0] {
	case "rare": // makes rare.json; standard input is the number of candidates
		n, err := strconv.ParseUint(strings.TrimSpace(string(in)), 10, 64)
		if err != nil {
			return 2
		}
		if len(args) > 1 && searchSign != nil {
			return searchSign(n)
		}
		return searchRare(n)
	case "literals": // makes known_literals.json; standard input is ignored
		raw, _ := json.MarshalIndent(harvest(repoRoot()), "", " ")
		fmt.Println(string(raw))
		return 0
	case "real":
		var c c06real
		if err := json.Unmarshal(in, &c); err != nil {
			fmt.Println(err)
			return 2
		}
		if err := evalSafe(func(_ *Rec, c c06real) error { return checkRealHere(c) }, &Rec{}, c); err != nil {
			fmt.Println("mismatch:", err)
			return 1
		}
		fmt.Println("ok")
		return 0
	case "export":
		var ks []KeyCase
		if err := json.Unmarshal(in, &ks); err != nil {
			fmt.Println(err)
			return 2
		}
		var out []string
		if err := evalSafe(func(_ *Rec, ks []KeyCase) (err error) { out, err = exportAll(ks); return }, &Rec{}, ks); err != nil {
			fmt.Println(err)
			return 1
		}
		json.NewEncoder(os.Stdout).Encode(out)
		return 0
	case "open":
		var cs []c03open
		if err := json.Unmarshal(in, &cs); err != nil {
			fmt.Println(err)
			return 2
		}
		err := evalSafe(func(_ *Rec, cs []c03open) error {
			for i, c := range cs {
				m, err := c.Key.Build()
				if err != nil {
					return err
				}
				if err := opens(c.Words, c.PW, c.Key, caseMut{}, m); err != nil {
					return fmt.Errorf("phrase %d: %w", i, err)
				}
			}
			return nil
		}, &Rec{}, cs)
		if err != nil {
			fmt.Println(err)
			return 1
		}
		return 0
	case "gpg-control": // prints a control for C29; used once, by hand, to make control.json
		c := gpgControlCase{Case: c29{Key: KeyCase{Seed: seedFrom("control"), At: TimeIn{Offset: 1000000}, Name: Text{Lit: "control"}}, PW: "first", PW2: "second", Variant: "subkeys", Msg: "message"}, FP: map[string]string{}}
		m, err := c.Case.Key.Build()
		if err != nil {
			return 1
		}
		c.First, _ = gpgExport(m, "full", c.Case.PW, false)
		c.Second, _ = gpgExport(m, "subkeys", c.Case.PW2, false)
		for kind, k := range c.Case.Key.Ref() {
			c.FP[kind] = fmt.Sprintf("%X", k.FP)
		}
		json.NewEncoder(os.Stdout).Encode(c)
		return 0
	case "golden": // prints a golden vector for a case; used once, by hand, to make golden.go
		var c c06real
		if err := json.Unmarshal(in, &c); err != nil {
			fmt.Println(err)
			return 2
		}
		m, err := c.Key.Build()
		if err != nil {
			fmt.Println(err)
			return 2
		}
		var w []string
		if c.PW == "" {
			w, err = m.EncodeMnemonicPlaintext()
		} else {
			w, err = m.EncodeMnemonicEncrypted([]byte(c.PW), rand.Reader)
		}
		if err != nil {
			fmt.Println(err)
			return 2
		}
		c.Phrase = phrase(w)
		c.Golden = []Hex{m.Fingerprint()}
		for _, kind := range ref.SubkeyKinds {
			c.Golden = append(c.Golden, m.SubkeyFingerprint(mk.SubkeyType(kind)))
		}
		b, _ := json.Marshal(c)
		fmt.Println(string(b))
		return 0
	}
	fmt.Println("unknown worker")
	return 2
}
