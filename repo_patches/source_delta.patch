From 13c763f3dc307fd45d6a3fe755d6699f8e7866a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:26 +0000
Subject: [PATCH 01/15] fix: refuse key lifetimes which PGP cannot express

A TTL under one second was encoded as an expiration time of zero (never
expires) and one over 2^32-1 seconds was truncated.
---
 mnemonikey.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mnemonikey.go b/mnemonikey.go
index 008dd60..509cff1 100644
--- a/mnemonikey.go
+++ b/mnemonikey.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"golang.org/x/crypto/openpgp"
@@ -26,6 +27,14 @@ const (
 // selected is less than zero.
 var ErrTTLInvalid = errors.New("key time-to-live cannot be negative")
 
+// ErrTTLOutOfRange is returned when constructing a Mnemonikey, if the TTL selected
+// is not zero but cannot be represented as a PGP key expiration time, which is a
+// positive 32-bit number of seconds.
+var ErrTTLOutOfRange = errors.New("key time-to-live must be between 1 and 2^32-1 seconds")
+
+// maxTTL is the longest key lifetime which fits in a PGP key expiration time.
+const maxTTL = math.MaxUint32 * time.Second
+
 // ErrCreationTooLate is returned when constructing a Mnemonikey, if its creation
 // time is too far in the future to fit in CreationOffsetBitCount.
 var ErrCreationTooLate = errors.New("key creation time exceeds maximum")
@@ -62,6 +71,8 @@ func New(seed *Seed, creation time.Time, opts *KeyOptions) (*Mnemonikey, error)
 	}
 	if opts.TTL < 0 {
 		return nil, ErrTTLInvalid
+	} else if opts.TTL != 0 && (opts.TTL < time.Second || opts.TTL/time.Second > maxTTL/time.Second) {
+		return nil, ErrTTLOutOfRange
 	} else if creation.After(MaxCreationTime) {
 		return nil, ErrCreationTooLate
 	} else if creation.Before(EpochStart) {
-- 
2.43.0


From b8564464cb229fbff113a1587809cd135399bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:27 +0000
Subject: [PATCH 02/15] fix: return an error for creation offsets which do not
 fit in a phrase

Encoding an offset of 2^31 or more panicked.
---
 encoding.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding.go b/encoding.go
index fbffa64..ef9889b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -46,6 +46,9 @@ func EncodeMnemonicPlaintext(seed *Seed, creationOffset uint32) ([]string, error
 	if err := seed.Era().check(); err != nil {
 		return nil, err
 	}
+	if creationOffset>>CreationOffsetBitCount != 0 {
+		return nil, ErrCreationTooLate
+	}
 
 	// Version 0 indicates a plaintext phrase.
 	version := MnemonicVersion(0)
@@ -73,6 +76,9 @@ func EncodeMnemonicEncrypted(
 	if err := seed.Era().check(); err != nil {
 		return nil, err
 	}
+	if creationOffset>>CreationOffsetBitCount != 0 {
+		return nil, ErrCreationTooLate
+	}
 
 	if len(password) == 0 {
 		return nil, errors.New("cannot encrypt recovery phrase with empty password")
-- 
2.43.0


From 1092e2e95377a7302711e6877706bb25a2359554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:27 +0000
Subject: [PATCH 03/15] fix: refuse negative entropy integers in NewSeed

---
 seed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seed.go b/seed.go
index 4d7e684..00d9c8e 100644
--- a/seed.go
+++ b/seed.go
@@ -30,6 +30,10 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 		return nil, err
 	}
 
+	if entropyInt.Sign() < 0 {
+		return nil, fmt.Errorf("provided entropy integer is negative")
+	}
+
 	if l := entropyInt.BitLen(); l > EntropyBitCount {
 		return nil, fmt.Errorf(
 			"provided entropy integer is %d bits, exceeding maximum size of %d",
-- 
2.43.0


From d1b6e930dfb5b9ecaaaa42a939e92f70046fbdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:27 +0000
Subject: [PATCH 04/15] fix: copy the entropy integer in NewSeed

A later change of the caller's integer changed the seed.
---
 seed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index 00d9c8e..004349c 100644
--- a/seed.go
+++ b/seed.go
@@ -43,7 +43,7 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 
 	seed := &Seed{
 		era:   era,
-		value: entropyInt,
+		value: new(big.Int).Set(entropyInt),
 	}
 
 	return seed, nil
-- 
2.43.0


From 4226346e00461bdde472cc836daf340786a7505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:28 +0000
Subject: [PATCH 05/15] fix: refuse negative payloads in EncodeToIndices

They made it index out of range and panic.
---
 mnemonic/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mnemonic/encode.go b/mnemonic/encode.go
index 08b6ab0..8aefcba 100644
--- a/mnemonic/encode.go
+++ b/mnemonic/encode.go
@@ -29,6 +29,9 @@ var ErrInvalidIndex = errors.New("word index value is too large")
 // bitSize does not necessarily have to be evenly divisible by BitsPerWord. If there is
 // any unused space, it will be encoded at the leading edge of the resulting slice of indices.
 func EncodeToIndices(payloadInt *big.Int, bitSize uint) ([]uint16, error) {
+	if payloadInt.Sign() < 0 {
+		return nil, errors.New("cannot encode negative payload")
+	}
 	if payloadLen := payloadInt.BitLen(); uint(payloadLen) > bitSize {
 		return nil, fmt.Errorf("payload size (%d bits) is larger than given bitSize %d", payloadLen, bitSize)
 	}
-- 
2.43.0


From 9f4ab5649dba101753e421d9ade35ba1469df2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:28 +0000
Subject: [PATCH 06/15] fix: leave the payload of EncodeToIndices unchanged

The caller's integer was shifted down to zero.
---
 mnemonic/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mnemonic/encode.go b/mnemonic/encode.go
index 8aefcba..9a21b00 100644
--- a/mnemonic/encode.go
+++ b/mnemonic/encode.go
@@ -36,6 +36,9 @@ func EncodeToIndices(payloadInt *big.Int, bitSize uint) ([]uint16, error) {
 		return nil, fmt.Errorf("payload size (%d bits) is larger than given bitSize %d", payloadLen, bitSize)
 	}
 
+	// Do not modify the caller's integer below.
+	payloadInt = new(big.Int).Set(payloadInt)
+
 	nWords := (bitSize + BitsPerWord - 1) / BitsPerWord
 	indices := make([]uint16, nWords)
 	for i := nWords - 1; payloadInt.BitLen() > 0; i-- {
-- 
2.43.0


From 9eaa4eb952b4390ff2e56f1e84012d267f2f05e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:13 +0000
Subject: [PATCH 07/15] fix: honour -out-word-file in the convert command

convert tried to save the new phrase to the input word file, which always
failed, and ignored -out-word-file.
---
 cmd/mnemonikey/convert.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 34456e7..953d4c2 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -13,8 +13,7 @@ type ConvertOptions struct {
 	RecoverConvertOptions
 	GenerateConvertOptions
 
-	EncryptPhrase  bool
-	OutputWordFile string
+	EncryptPhrase bool
 }
 
 var ConvertCommand = &Command[ConvertOptions]{
@@ -73,10 +72,10 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 		}
 	}
 
-	if opts.InputWordFile == "" {
+	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
 	} else {
-		if err := saveMnemonic(recoveryMnemonic, opts.InputWordFile); err != nil {
+		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
 		}
 	}
-- 
2.43.0


From 2c0e3fbf2615e3398becdbd9ed623d53bec3af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:28 +0000
Subject: [PATCH 08/15] fix: keep password prompts off standard output and
 restore the terminal

A goroutine left behind by each prompt wrote a newline to standard output, in
front of or instead of the key block, and when a prompt was interrupted the
program could exit before that goroutine had restored the terminal.
---
 cmd/mnemonikey/word_input.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 48690e1..bb5f3a2 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -236,12 +236,6 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, err
 	}
 
-	go func() {
-		<-ctx.Done()
-		fmt.Println()
-		term.Restore(int(os.Stdin.Fd()), oldState)
-	}()
-
 	passChan := make(chan []byte)
 	errChan := make(chan error, 1)
 
@@ -279,6 +273,8 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 
 	select {
 	case <-ctx.Done():
+		eprintln()
+		term.Restore(int(os.Stdin.Fd()), oldState)
 		return nil, errors.New("aborted")
 
 	case err := <-errChan:
@@ -286,6 +282,7 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, err
 
 	case pass := <-passChan:
+		eprintln()
 		return pass, nil
 	}
 }
-- 
2.43.0


From 064b5633dfc0042d5c5b48ef38d945a0c5d42429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:23 +0000
Subject: [PATCH 09/15] fix: create word files exclusively

A dangling symbolic link, or a file appearing after the existence check, was
written through.
---
 cmd/mnemonikey/generate.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index f455e68..2ab0574 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -199,14 +199,20 @@ func printMnemonic(words []string) {
 }
 
 func saveMnemonic(words []string, wordFile string) error {
-	if _, err := os.Stat(wordFile); err == nil {
+	// O_EXCL never opens an existing file, nor follows a dangling symbolic link.
+	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if errors.Is(err, fs.ErrExist) {
 		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)
-	} else if !errors.Is(err, fs.ErrNotExist) {
+	} else if err != nil {
 		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)
 	}
 
 	wordFileContent := strings.Join(words, " ") + "\n"
-	if err := os.WriteFile(wordFile, []byte(wordFileContent), 0600); err != nil {
+	_, err = file.WriteString(wordFileContent)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
 		return fmt.Errorf("failed to write words to file: %w", err)
 	}
 	return nil
-- 
2.43.0


From faf43b0d702e25b350288b76b74c76ed109ebf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:04 +0000
Subject: [PATCH 10/15] fix: refuse word files which cannot be read to the end

Read errors, such as an overlong token after the phrase, and an unsupported
version of the first word were ignored.
---
 cmd/mnemonikey/recover.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 2eaffd6..37be0b8 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -224,11 +224,17 @@ func readWordFile(fpath string) ([]string, error) {
 			return nil, fmt.Errorf("invalid format for word file")
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)
+	}
 	if len(words) == 0 {
 		return nil, fmt.Errorf("found only no words in word file %s", fpath)
 	}
 
 	version, err := mnemonikey.ParseMnemonicVersion(words[0])
+	if err != nil {
+		return nil, err
+	}
 	if len(words) != version.MnemonicSize() {
 		return nil, fmt.Errorf(
 			"found only %d words in word file %s, expected %d words for version %d phrase",
-- 
2.43.0


From 999635f32b39a1c1aa03b3119e17ee01dc531159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:46 +0000
Subject: [PATCH 11/15] fix: replace the revised word after the left arrow key

The word being revised stayed in the phrase, so that every later word was off
by one, and at the first word the index became negative.
---
 cmd/mnemonikey/word_input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index bb5f3a2..32ef51d 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -92,7 +92,10 @@ func userInputMnemonic() ([]string, error) {
 
 			// Left arrow, return to revise previous word index
 			if charBuf[0] == keyCodeLeftArrow {
-				i -= 1
+				if i > 0 {
+					i -= 1
+					words = words[:i]
+				}
 				break
 			}
 
-- 
2.43.0


From cf603a6e687b98d6d05ed6ce4dbbc5bd441ab62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:46 +0000
Subject: [PATCH 12/15] fix: refuse -ttl values which overflow

A quantity too large for a time.Duration wrapped around to an unrelated,
possibly valid, lifetime.
---
 cmd/mnemonikey/expiry.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/mnemonikey/expiry.go b/cmd/mnemonikey/expiry.go
index 662016b..9d5ec56 100644
--- a/cmd/mnemonikey/expiry.go
+++ b/cmd/mnemonikey/expiry.go
@@ -3,6 +3,7 @@ package main
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -34,5 +35,9 @@ func parseTTL(input string) (time.Duration, error) {
 		return 0, badInputErr
 	}
 
+	if quantity > uint64(math.MaxInt64/unit) {
+		return 0, badInputErr
+	}
+
 	return time.Duration(quantity) * unit, nil
 }
-- 
2.43.0


From da560ab762ba041c6da7fa74dbdb5ffd23830ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:46 +0000
Subject: [PATCH 13/15] fix: refuse unexpected positional arguments

Flag parsing stops at the first argument which is not a flag, so
"-verbose false -name x" silently dropped the name.
---
 cmd/mnemonikey/convert.go  | 3 +++
 cmd/mnemonikey/generate.go | 3 +++
 cmd/mnemonikey/recover.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 953d4c2..2401ff8 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -40,6 +40,9 @@ var ConvertCommand = &Command[ConvertOptions]{
 		)
 	},
 	Execute: func(opts *ConvertOptions, args []string) error {
+		if len(args) > 0 {
+			return fmt.Errorf("%w: unexpected argument %q", ErrPrintUsage, args[0])
+		}
 		return decodeAndConvertPhrase(opts)
 	},
 }
diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index 2ab0574..bc09947 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -57,6 +57,9 @@ var GenerateCommand = &Command[GenerateOptions]{
 		)
 	},
 	Execute: func(opts *GenerateOptions, args []string) error {
+		if len(args) > 0 {
+			return fmt.Errorf("%w: unexpected argument %q", ErrPrintUsage, args[0])
+		}
 		return generateAndPrintKey(opts)
 	},
 }
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 37be0b8..48fcb51 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -75,6 +75,9 @@ var RecoverCommand = &Command[RecoverOptions]{
 		)
 	},
 	Execute: func(opts *RecoverOptions, args []string) error {
+		if len(args) > 0 {
+			return fmt.Errorf("%w: unexpected argument %q", ErrPrintUsage, args[0])
+		}
 		return recoverAndPrintKey(opts)
 	},
 }
-- 
2.43.0


From eac68f6a89c24e42ca4a53b46b9a9aed3623d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:47 +0000
Subject: [PATCH 14/15] fix: wrap help text on narrow terminals

A width of zero divided by zero, and a word longer than the line was
retried forever while memory ran out.
---
 cmd/mnemonikey/terminal.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/terminal.go b/cmd/mnemonikey/terminal.go
index 4f93511..8ecd1a1 100644
--- a/cmd/mnemonikey/terminal.go
+++ b/cmd/mnemonikey/terminal.go
@@ -78,15 +78,14 @@ func justifyWidth(indent, width int, text string) string {
 	indentString := strings.Repeat(" ", indent)
 
 	words := strings.Split(text, " ")
-	lines := make([]string, 0, len(text)/(indent+width)+1)
+	var lines []string
 
 	for len(words) > 0 {
-		line := indentString
+		// A line holds at least one word, even if the word is too long.
+		line := indentString + words[0]
+		words = words[1:]
 		for len(words) > 0 && len(line)+len(words[0])+1 <= maxWidth {
-			if line != indentString {
-				line += " "
-			}
-			line += words[0]
+			line += " " + words[0]
 			words = words[1:]
 		}
 		lines = append(lines, line)
-- 
2.43.0


From 9e8250480ab2785780f97a64ea264b259d5d105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:40 +0000
Subject: [PATCH 15/15] fix: fail when the key cannot be written to standard
 output

With a full disk behind a redirection the exit status was 0 although the key
was lost.
---
 cmd/mnemonikey/generate.go | 5 ++++-
 cmd/mnemonikey/recover.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index bc09947..9450025 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -167,8 +167,11 @@ func generateAndPrintKey(opts *GenerateOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key: %w", err)
+	}
 
 	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 48fcb51..1e5e026 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -201,8 +201,11 @@ func recoverAndPrintKey(opts *RecoverOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key: %w", err)
+	}
 
 	return nil
 }
-- 
2.43.0

