package main

import (
	_ "embed"
	"encoding/json"
)

//go:embed golden.json
var goldenJSON []byte

// goldenVectors were made with the commit under study and the unmodified Argon2.
var goldenVectors = func() (v []c06real) {
	if err := json.Unmarshal(goldenJSON, &v); err != nil {
		panic(err)
	}
	return
}()
