package main

import "encoding/hex"

// Hex is a byte slice written in hexadecimal.
type Hex []byte

func (h Hex) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }
func (h *Hex) UnmarshalText(p []byte) error {
	b, err := hex.DecodeString(string(p))
	*h = b
	return err
}
