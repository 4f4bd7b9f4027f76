package main

import (
	"crypto/sha256"
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// Rare inputs: seeds and creation times, found by search, for which some derived value (a private
// or public key, a fingerprint, an integer of a signature, a checksum) starts or ends with two or
// more zero or 0xff bytes. They hold under the reduced Argon2 only.
type rareKey struct {
	What   string `json:"what"`
	Seed   Seed16 `json:"seed"`
	Offset uint32 `json:"offset"`
}

//go:embed rare.json
var rareJSON []byte

var rareKeys = func() (v []rareKey) {
	if err := json.Unmarshal(rareJSON, &v); err != nil {
		panic(err)
	}
	return
}()

// rareName is the name in the user ID of rare keys: the self-certification depends on it.
const rareName = "rare"

// searchSign is there in the build with the checks of the pgp package.
var searchSign func(n uint64) int

func rareCase(i int) KeyCase {
	e := rareKeys[i]
	return KeyCase{Seed: e.Seed, At: TimeIn{Offset: e.Offset}, Name: Text{Lit: rareName}}
}

func eachRare(_ bool, yield func(KeyCase) bool) {
	for i := range rareKeys {
		if !yield(rareCase(i)) {
			return
		}
	}
}

const rareRule = "keys found by search for which a private or public key, a fingerprint, an integer of a signature or a checksum starts or ends with two or more zero or 0xff bytes; all count"

func genRare(t *rapid.T) KeyCase {
	return rareCase(rapid.IntRange(0, len(rareKeys)-1).Draw(t, "rare"))
}

func rareNth(n uint64) rareKey {
	h := sha256.Sum256([]byte("rare " + strconv.FormatUint(n, 10)))
	var e rareKey
	copy(e.Seed[:], h[:])
	e.Offset = binary.BigEndian.Uint32(h[16:]) >> 1
	return e
}

// runs counts equal bytes v at the front and at the back.
func edgeRuns(p []byte, v byte) (front, back int) {
	for front < len(p) && p[front] == v {
		front++
	}
	for back < len(p) && p[len(p)-1-back] == v {
		back++
	}
	return
}

func fixed32(p []byte) []byte { return append(make([]byte, 32-len(p)), p...) }

// searchRare prints the best of the first n candidates.
func searchRare(n uint64) int {
	type hit struct {
		rareKey
		score int
	}
	best := map[string][]hit{}
	var mu sync.Mutex
	note := func(e rareKey, what string, val []byte) {
		for _, v := range []byte{0, 0xff} {
			f, b := edgeRuns(val, v)
			for side, k := range map[string]int{"starts": f, "ends": b} {
				if k < 2 {
					continue
				}
				key := fmt.Sprintf("%s %s %02x", what, side, v)
				mu.Lock()
				l := append(best[key], hit{rareKey{key + " x" + strconv.Itoa(k), e.Seed, e.Offset}, k})
				sort.SliceStable(l, func(i, j int) bool { return l[i].score > l[j].score })
				if len(l) > 4 {
					l = l[:4]
				}
				best[key] = l
				mu.Unlock()
			}
		}
	}
	var wg sync.WaitGroup
	w := uint64(runtime.NumCPU())
	for g := uint64(0); g < w; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < n; i += w {
				e := rareNth(i)
				k := KeyCase{Seed: e.Seed, At: TimeIn{Offset: e.Offset}, Name: Text{Lit: rareName}}
				m, err := k.Build()
				if err != nil {
					panic(err)
				}
				data, err := m.EncodePGP(nil)
				if err != nil {
					panic(err)
				}
				x, err := ref.ParseExport(data)
				if err != nil {
					panic(err)
				}
				root := ref.RootKey(e.Seed, e.Offset)
				note(e, "root", root)
				note(e, "master seed", ref.Derive(root, ref.Master, 0, e.Offset).Seed)
				for _, kind := range ref.SubkeyKinds {
					note(e, kind+" seed", ref.SubSeed(root, kind, 0))
				}
				note(e, "master public", x.Master.Point)
				note(e, "master fingerprint", x.Master.FP)
				note(e, "master key ID", x.Master.FP[12:])
				sig := func(what string, s *ref.Sig) {
					note(e, what+" r", fixed32(s.R))
					note(e, what+" s", fixed32(s.S))
					note(e, what+" prefix", s.Prefix)
				}
				sig("cert", x.SelfCert)
				for _, s := range x.Subs {
					kind := s.Kind()
					note(e, kind+" public", s.Point)
					note(e, kind+" fingerprint", s.FP)
					note(e, kind+" key ID", s.FP[12:])
					sig(kind+" binding", s.Binding)
					for _, emb := range append(ref.Get(s.Binding.Hashed, 32), ref.Get(s.Binding.Unhashed, 32)...) {
						if c, err := ref.ParseSig(emb); err == nil {
							sig(kind+" cross", c)
						}
					}
				}
				crc := ref.CRC24(data)
				note(e, "armor checksum", []byte{byte(crc >> 16), byte(crc >> 8), byte(crc)})
			}
		}()
	}
	wg.Wait()
	var keys []string
	for k := range best {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []rareKey{}
	for _, k := range keys {
		for _, h := range best[k] {
			out = append(out, h.rareKey)
		}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.Stdout.Write(append(b, '\n'))
	return 0
}
