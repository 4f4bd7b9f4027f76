module verif/harness

go 1.23

require (
	github.com/kklash/mnemonikey v0.0.0
	github.com/kklash/wordlist4096 v1.0.0
	golang.org/x/crypto v0.4.0
	golang.org/x/sys v0.10.0
	pgregory.net/rapid v1.3.0
)

replace github.com/kklash/mnemonikey => /repo

replace golang.org/x/crypto => ../.build/crypto-fast
