From 185ecc089038d8e3ccf19ba754e056ced05fab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 01/15] fix: NewSeed keeps its own copy of the caller's integer

---
 seed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index 4d7e684..e811456 100644
--- a/seed.go
+++ b/seed.go
@@ -39,7 +39,7 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 
 	seed := &Seed{
 		era:   era,
-		value: entropyInt,
+		value: new(big.Int).Set(entropyInt),
 	}
 
 	return seed, nil
-- 
2.43.0


From ec57c6331230fde0c6d454c353f24c502d63a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 02/15] fix: NewSeed refuses negative entropy integers

---
 seed.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index e811456..2698953 100644
--- a/seed.go
+++ b/seed.go
@@ -2,6 +2,7 @@ package mnemonikey
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -24,12 +25,16 @@ type Seed struct {
 //
 // Returns ErrUnsupportedSeedEra if the era number is greater than EraLatest.
 //
-// Returns an error if entropyInt's bit-length is greater than EntropyBitCount.
+// Returns an error if entropyInt is negative, or its bit-length is greater than EntropyBitCount.
 func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 	if err := era.check(); err != nil {
 		return nil, err
 	}
 
+	if entropyInt.Sign() < 0 {
+		return nil, errors.New("provided entropy integer is negative")
+	}
+
 	if l := entropyInt.BitLen(); l > EntropyBitCount {
 		return nil, fmt.Errorf(
 			"provided entropy integer is %d bits, exceeding maximum size of %d",
-- 
2.43.0


From 7bc6fe09975b7c5461bf63d64dd7c1c440931e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 03/15] fix: EncodeToIndices no longer zeroes its argument

---
 mnemonic/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mnemonic/encode.go b/mnemonic/encode.go
index 08b6ab0..3492dce 100644
--- a/mnemonic/encode.go
+++ b/mnemonic/encode.go
@@ -33,6 +33,9 @@ func EncodeToIndices(payloadInt *big.Int, bitSize uint) ([]uint16, error) {
 		return nil, fmt.Errorf("payload size (%d bits) is larger than given bitSize %d", payloadLen, bitSize)
 	}
 
+	// Work on a copy, so that the caller's integer is left alone.
+	payloadInt = new(big.Int).Set(payloadInt)
+
 	nWords := (bitSize + BitsPerWord - 1) / BitsPerWord
 	indices := make([]uint16, nWords)
 	for i := nWords - 1; payloadInt.BitLen() > 0; i-- {
-- 
2.43.0


From ad5d556dbe52b423e429ebd415882c2ebeaeb5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 04/15] fix: encoding a phrase for an oversized creation offset
 returns an error instead of panicking

---
 encoding.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/encoding.go b/encoding.go
index fbffa64..caa2a0b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -40,6 +40,14 @@ func encodeMnemonic(version MnemonicVersion, payloadBitBuffer *bitBuffer) ([]str
 	return words, nil
 }
 
+// checkCreationOffset returns ErrCreationTooLate if the offset does not fit in CreationOffsetBitCount bits.
+func checkCreationOffset(creationOffset uint32) error {
+	if creationOffset >= 1<<CreationOffsetBitCount {
+		return fmt.Errorf("%w: creation offset %d", ErrCreationTooLate, creationOffset)
+	}
+	return nil
+}
+
 // EncodeMnemonicPlaintext encodes the given seed and creationOffset into an English mnemonic
 // recovery phrase. The recovery phrase alone is sufficient to recover the entire set of keys.
 func EncodeMnemonicPlaintext(seed *Seed, creationOffset uint32) ([]string, error) {
@@ -47,6 +55,10 @@ func EncodeMnemonicPlaintext(seed *Seed, creationOffset uint32) ([]string, error
 		return nil, err
 	}
 
+	if err := checkCreationOffset(creationOffset); err != nil {
+		return nil, err
+	}
+
 	// Version 0 indicates a plaintext phrase.
 	version := MnemonicVersion(0)
 
@@ -74,6 +86,10 @@ func EncodeMnemonicEncrypted(
 		return nil, err
 	}
 
+	if err := checkCreationOffset(creationOffset); err != nil {
+		return nil, err
+	}
+
 	if len(password) == 0 {
 		return nil, errors.New("cannot encrypt recovery phrase with empty password")
 	}
-- 
2.43.0


From c606cb4fcd334794a72e9bbd3b09edf1aa0e4fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 05/15] fix: refuse a TTL which OpenPGP cannot represent
 instead of wrapping or dropping it

---
 mnemonikey.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mnemonikey.go b/mnemonikey.go
index 008dd60..e20ca57 100644
--- a/mnemonikey.go
+++ b/mnemonikey.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"golang.org/x/crypto/openpgp"
@@ -22,9 +23,10 @@ const (
 	SubkeyTypeSigning        SubkeyType = "signing"
 )
 
-// ErrTTLInvalid is returned when constructing a Mnemonikey, if the TTL
-// selected is less than zero.
-var ErrTTLInvalid = errors.New("key time-to-live cannot be negative")
+// ErrTTLInvalid is returned when constructing a Mnemonikey, if the TTL selected is
+// less than zero, or is not zero but cannot be represented as an OpenPGP key validity
+// period, which is a number of seconds between 1 and 2^32 - 1.
+var ErrTTLInvalid = errors.New("key time-to-live is out of range")
 
 // ErrCreationTooLate is returned when constructing a Mnemonikey, if its creation
 // time is too far in the future to fit in CreationOffsetBitCount.
@@ -60,7 +62,7 @@ func New(seed *Seed, creation time.Time, opts *KeyOptions) (*Mnemonikey, error)
 	if opts == nil {
 		opts = new(KeyOptions)
 	}
-	if opts.TTL < 0 {
+	if opts.TTL != 0 && (opts.TTL < time.Second || opts.TTL/time.Second > math.MaxUint32) {
 		return nil, ErrTTLInvalid
 	} else if creation.After(MaxCreationTime) {
 		return nil, ErrCreationTooLate
-- 
2.43.0


From 6e49d87d381cc483600980b823cac160c66aa1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 06/15] fix: refuse zero, overflowing and unrepresentable -ttl
 values

---
 cmd/mnemonikey/expiry.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/expiry.go b/cmd/mnemonikey/expiry.go
index 662016b..5c9366e 100644
--- a/cmd/mnemonikey/expiry.go
+++ b/cmd/mnemonikey/expiry.go
@@ -3,6 +3,7 @@ package main
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -34,5 +35,10 @@ func parseTTL(input string) (time.Duration, error) {
 		return 0, badInputErr
 	}
 
+	// The validity period of an OpenPGP key is a number of seconds from 1 to 2^32 - 1.
+	if quantity == 0 || quantity > uint64(math.MaxUint32*time.Second/unit) {
+		return 0, badInputErr
+	}
+
 	return time.Duration(quantity) * unit, nil
 }
-- 
2.43.0


From 0a23506cad9ce013b3a9369c4015b591a1b1fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 07/15] fix: convert writes to -out-word-file, not to the input
 word file

---
 cmd/mnemonikey/convert.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 34456e7..953d4c2 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -13,8 +13,7 @@ type ConvertOptions struct {
 	RecoverConvertOptions
 	GenerateConvertOptions
 
-	EncryptPhrase  bool
-	OutputWordFile string
+	EncryptPhrase bool
 }
 
 var ConvertCommand = &Command[ConvertOptions]{
@@ -73,10 +72,10 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 		}
 	}
 
-	if opts.InputWordFile == "" {
+	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
 	} else {
-		if err := saveMnemonic(recoveryMnemonic, opts.InputWordFile); err != nil {
+		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
 		}
 	}
-- 
2.43.0


From d4e0bd997ddd3af8abb60eaf6b387d026150dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 08/15] fix: left arrow replaces the previous word and stays
 within the phrase

---
 cmd/mnemonikey/word_input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 48690e1..5bcf323 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -92,7 +92,10 @@ func userInputMnemonic() ([]string, error) {
 
 			// Left arrow, return to revise previous word index
 			if charBuf[0] == keyCodeLeftArrow {
-				i -= 1
+				if i > 0 {
+					i -= 1
+					words = words[:i]
+				}
 				break
 			}
 
-- 
2.43.0


From 542a54172786454f85a86261e23c207b5a3414dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 09/15] fix: password prompts leave stdout alone and restore
 the terminal only when interrupted

---
 cmd/mnemonikey/word_input.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 5bcf323..7622be6 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -239,12 +239,6 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, err
 	}
 
-	go func() {
-		<-ctx.Done()
-		fmt.Println()
-		term.Restore(int(os.Stdin.Fd()), oldState)
-	}()
-
 	passChan := make(chan []byte)
 	errChan := make(chan error, 1)
 
@@ -282,6 +276,8 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 
 	select {
 	case <-ctx.Done():
+		eprintln()
+		term.Restore(int(os.Stdin.Fd()), oldState)
 		return nil, errors.New("aborted")
 
 	case err := <-errChan:
-- 
2.43.0


From 8d2d8c5d05395b0a3929a468cebdcc6d0fd540dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 10/15] fix: create word files exclusively, so that no existing
 file is ever overwritten

---
 cmd/mnemonikey/generate.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index f455e68..16eedd6 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -199,14 +199,20 @@ func printMnemonic(words []string) {
 }
 
 func saveMnemonic(words []string, wordFile string) error {
-	if _, err := os.Stat(wordFile); err == nil {
+	// O_EXCL refuses any existing file, even one created a moment ago.
+	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if errors.Is(err, fs.ErrExist) {
 		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)
-	} else if !errors.Is(err, fs.ErrNotExist) {
+	} else if err != nil {
 		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)
 	}
 
 	wordFileContent := strings.Join(words, " ") + "\n"
-	if err := os.WriteFile(wordFile, []byte(wordFileContent), 0600); err != nil {
+	_, err = file.WriteString(wordFileContent)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
 		return fmt.Errorf("failed to write words to file: %w", err)
 	}
 	return nil
-- 
2.43.0


From b7991c095ec504b2f48a395b97d104d0be9549fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 11/15] fix: report errors while reading a word file instead of
 ignoring the rest of it

---
 cmd/mnemonikey/recover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 2eaffd6..d8b07b4 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -224,6 +224,9 @@ func readWordFile(fpath string) ([]string, error) {
 			return nil, fmt.Errorf("invalid format for word file")
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)
+	}
 	if len(words) == 0 {
 		return nil, fmt.Errorf("found only no words in word file %s", fpath)
 	}
-- 
2.43.0


From ec9f93be2651ffb1cce58a110aa9edfb96098c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 12/15] fix: fail if the key could not be written to standard
 output

---
 cmd/mnemonikey/generate.go | 5 ++++-
 cmd/mnemonikey/recover.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index 16eedd6..92a7e29 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -164,8 +164,11 @@ func generateAndPrintKey(opts *GenerateOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key to standard output: %w", err)
+	}
 
 	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index d8b07b4..7c08888 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -198,8 +198,11 @@ func recoverAndPrintKey(opts *RecoverOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key to standard output: %w", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From 5fe260e5b3774e1b700cadde81421e1b1e3b2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:11 +0000
Subject: [PATCH 13/15] fix: justify text on terminals narrower than a word
 without panicking or looping forever

---
 cmd/mnemonikey/terminal.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/mnemonikey/terminal.go b/cmd/mnemonikey/terminal.go
index 4f93511..a531d36 100644
--- a/cmd/mnemonikey/terminal.go
+++ b/cmd/mnemonikey/terminal.go
@@ -78,11 +78,12 @@ func justifyWidth(indent, width int, text string) string {
 	indentString := strings.Repeat(" ", indent)
 
 	words := strings.Split(text, " ")
-	lines := make([]string, 0, len(text)/(indent+width)+1)
+	var lines []string
 
 	for len(words) > 0 {
 		line := indentString
-		for len(words) > 0 && len(line)+len(words[0])+1 <= maxWidth {
+		// A word wider than the terminal still gets a line of its own.
+		for len(words) > 0 && (line == indentString || len(line)+len(words[0])+1 <= maxWidth) {
 			if line != indentString {
 				line += " "
 			}
-- 
2.43.0


From d2e695256fe82b627ebf1aeae76fe644c5be712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:10 +0000
Subject: [PATCH 14/15] fix: refuse positional arguments, which silently
 disabled every option behind them

---
 cmd/mnemonikey/command.go  | 9 +++++++++
 cmd/mnemonikey/convert.go  | 3 +++
 cmd/mnemonikey/generate.go | 3 +++
 cmd/mnemonikey/recover.go  | 3 +++
 4 files changed, 18 insertions(+)

diff --git a/cmd/mnemonikey/command.go b/cmd/mnemonikey/command.go
index e9da942..52bba25 100644
--- a/cmd/mnemonikey/command.go
+++ b/cmd/mnemonikey/command.go
@@ -24,6 +24,15 @@ type Command[Options any] struct {
 	Execute       func(flagInput *Options, positionalArgs []string) error
 }
 
+// refuseArgs returns an error if there are any positional arguments. The flag package stops parsing
+// options at the first positional argument, so any options behind it would be ignored silently.
+func refuseArgs(args []string) error {
+	if len(args) > 0 {
+		return fmt.Errorf("%w: unexpected argument %q", ErrPrintUsage, args[0])
+	}
+	return nil
+}
+
 func (cmd *Command[Options]) Run(args []string) error {
 	flags := flag.NewFlagSet(cmd.Name, flag.ExitOnError)
 
diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 953d4c2..b353514 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -40,6 +40,9 @@ var ConvertCommand = &Command[ConvertOptions]{
 		)
 	},
 	Execute: func(opts *ConvertOptions, args []string) error {
+		if err := refuseArgs(args); err != nil {
+			return err
+		}
 		return decodeAndConvertPhrase(opts)
 	},
 }
diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index 92a7e29..c680123 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -57,6 +57,9 @@ var GenerateCommand = &Command[GenerateOptions]{
 		)
 	},
 	Execute: func(opts *GenerateOptions, args []string) error {
+		if err := refuseArgs(args); err != nil {
+			return err
+		}
 		return generateAndPrintKey(opts)
 	},
 }
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 7c08888..dca359f 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -75,6 +75,9 @@ var RecoverCommand = &Command[RecoverOptions]{
 		)
 	},
 	Execute: func(opts *RecoverOptions, args []string) error {
+		if err := refuseArgs(args); err != nil {
+			return err
+		}
 		return recoverAndPrintKey(opts)
 	},
 }
-- 
2.43.0


From a06d4ee57991f749d505614efc9403567f262175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:14 +0000
Subject: [PATCH 15/15] fix: print the usage when "help" is followed by other
 arguments

"mnemonikey help generate" exited successfully without printing anything.
---
 cmd/mnemonikey/command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/mnemonikey/command.go b/cmd/mnemonikey/command.go
index 52bba25..04868ba 100644
--- a/cmd/mnemonikey/command.go
+++ b/cmd/mnemonikey/command.go
@@ -91,6 +91,10 @@ func (cmd *Command[Options]) Run(args []string) error {
 		return err
 	}
 	if err := cmd.Execute(&input, flags.Args()); err != nil {
+		if errors.Is(err, ErrPrintUsageGraceful) {
+			flags.Usage()
+			return nil
+		}
 		if errors.Is(err, ErrPrintUsage) {
 			flags.Usage()
 
-- 
2.43.0

