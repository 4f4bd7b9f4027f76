#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (one source for both)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state))

def m(*pairs):
    return [dict(name=a, where=b) for a, b in pairs]

FAST = ("Argon2id is replaced by a cost-reduced build of the same x/crypto package (its 512 MB / 4 passes become 16 KiB / 1 pass "
        "AFTER every parameter has been hashed in), used by both the code under test and the reference model; ")
TRUST = "trusts Go's standard crypto library, golang.org/x/crypto and the wordlist4096 word list"

prop("C01", "A plaintext recovery phrase restores the identical PGP key set",
     "For every 128-bit seed, every representable creation time and every choice of key options, recovering from the plaintext phrase exported by a key set, with the same options, yields a key set with the same seed, creation time, master and subkey fingerprints, user ID and expiry, and a byte-identical unencrypted export. Re-exporting the phrase from the recovered key set gives the same words, and the letter case in which the words are entered does not matter.",
     ["inputs"], "every seed in [0,2^128), every creation time in [2023-01-01, 2091-01-19) with any sub-second part and time zone, every key option combination",
     "TestMnemonikey recovers one seed at one creation time and only compares two fingerprints.",
     ["mnemonikey.go", "encoding.go", "recovery.go", "bit_buffer.go", "mnemonic/encode.go", "mnemonic/decode.go", "derive.go", "seed.go"],
     m(("EncodeMnemonicPlaintext / DecodeMnemonic", "encoding.go, recovery.go"), ("flooring of the creation time in New", "mnemonikey.go"), ("fixed-width bit buffer", "bit_buffer.go")),
     ["RecoverPlaintext", "DecodeMnemonic", "EncodePGP", "Fingerprint"],
     "property-based testing: generated key sets, round-trip oracle (rapid, shrinking)",
     FAST + TRUST)

prop("C02", "Recovery phrases follow the published bit layout",
     "Every plaintext phrase is 14 lower-case list words and every encrypted phrase 16, and their 12-bit indices are exactly version, seed (or AES-128 encrypted seed, 19-bit salt and 5 verification bits), 31-bit creation offset and 5-bit CRC-32 checksum, most significant bits first, as the specification prescribes. Conversely every phrase built that way by another implementation decodes to the version, seed, creation offset and creation time it embeds, and the version, phrase length and encryption state can be told from the first word alone.",
     ["inputs"], "every seed, creation offset, salt and password; every one of the 4096 possible first words",
     "The tests round-trip one phrase through the same code in both directions, so a layout changed on both sides passes.",
     ["encoding.go", "recovery.go", "version.go", "parameters.go", "mnemonic/encode.go", "mnemonic/decode.go", "bit_buffer.go"],
     m(("payload concatenation", "encoding.go"), ("payload popping", "recovery.go"), ("payloadBitCount / MnemonicSize", "version.go"), ("ParseMnemonicVersion", "recovery.go")),
     ["EncodeMnemonicPlaintext", "EncodeMnemonicEncrypted", "DecodeMnemonic", "ParseMnemonicVersion"],
     "property-based testing: differential against an independent encoder/decoder of the specification; exhaustive over first words",
     FAST + TRUST)

prop("C03", "An encrypted phrase opens with its password to the same keys",
     "For every seed, creation time, non-empty password and salt, an encrypted phrase decrypted with the password it was made with always succeeds and yields the original seed, creation time and key set, whatever bytes or length the password has. Any chain of conversions of a phrase between plaintext and differently-passworded encrypted forms keeps the seed, the creation time and the derived keys, and earlier phrases of the chain stay usable.",
     ["inputs", "histories"], "every seed, creation offset, password (any bytes, any non-zero length), salt; every sequence of conversions",
     "One seed, one ASCII password and one conversion are tested.",
     ["encoding.go", "recovery.go", "derive.go", "cmd/mnemonikey/convert.go"],
     m(("EncodeMnemonicEncrypted", "encoding.go"), ("DecryptSeed", "recovery.go")),
     ["DecryptSeed", "RecoverEncrypted", "EncodeMnemonicEncrypted"],
     "property-based testing: round-trip and model-based conversion histories (rapid, shrinking)",
     FAST + TRUST)

prop("C04", "An encrypted phrase yields nothing without the right password",
     "A password whose 5 verification bits differ from those embedded in an encrypted phrase is always refused with the decryption error, and one that collides (1 in 32) yields only the specified AES decryption, never an error and never the true seed. The seed of an encrypted phrase cannot be read or recovered without decryption, and encrypting with an empty password is refused. The seed appears in the phrase only in AES-encrypted form under a salt whose 19 bits are all freshly drawn from the supplied random source; a failing source is an error.",
     ["inputs", "fault_sequences"], "every seed, offset, pair of passwords and random stream, including failing and short-reading random sources",
     "One wrong password is tried once with a random salt.",
     ["encoding.go", "recovery.go", "version.go"],
     m(("encSeedVerify check", "recovery.go"), ("Seed() refusal on encrypted phrases", "recovery.go"), ("empty password refusal, salt drawing", "encoding.go")),
     ["DecryptSeed", "Seed", "RecoverPlaintext", "EncodeMnemonicEncrypted"],
     "property-based testing: exact acceptance oracle for wrong passwords, bit-coverage of salts, injected random-source faults",
     FAST + TRUST)

prop("C05", "Corrupted or mistyped phrases are rejected, never misread",
     "Decoding accepts a list of words if and only if every word is in the word list (in upper, lower or mixed case), the version in the first word is known, the word count is the one of that version, and the 5-bit checksum matches. Everything else is refused with an error naming one of the defects present (unknown word, unsupported version, wrong word count, checksum mismatch); no input whatsoever makes decoding panic.",
     ["inputs"], "every finite list of strings; in particular every substitution, swap, insertion, deletion, duplication and case change of a valid phrase",
     "One substituted word in one phrase is tested.",
     ["recovery.go", "mnemonic/decode.go", "version.go"],
     m(("DecodeMnemonic validation sequence", "recovery.go"), ("DecodeWords", "mnemonic/decode.go"), ("version check", "version.go")),
     ["DecodeMnemonic", "RecoverPlaintext", "RecoverEncrypted"],
     "property-based testing: acceptance oracle over mutated phrases; exhaustive single-word substitutions",
     TRUST + "; when several defects are present any of their errors is accepted; non-ASCII case folding is not judged")

prop("C06", "Keys are derived exactly as the published procedure says",
     "For every seed, creation time and subkey indices, the private and public keys and fingerprints of the master key and of each subkey are exactly those given by Argon2id over the seed and creation timestamp with the specified cost parameters, followed by HKDF-Expand with the specified per-key labels and 16-bit indices. In particular phrases made by earlier releases keep deriving the same keys.",
     ["inputs"], "every seed, creation time, and triple of subkey indices 0..65535",
     "Two fingerprints of one seed are pinned; signing and authentication keys, other indices, other times are not.",
     ["derive.go", "pgp/ecc_key.go", "pgp/master_key.go", "pgp/ed25519_subkey.go", "pgp/encryption_subkey.go", "seed.go"],
     m(("derivePGPKeySet", "derive.go"), ("keyExpandInfoSubkey", "derive.go"), ("FingerprintV4", "pgp/ecc_key.go")),
     ["Fingerprint", "SubkeyFingerprint", "EncodePGP"],
     "property-based testing: differential against an independent implementation of the derivation; exhaustive subkey indices; golden vectors with full-cost Argon2id",
     FAST + "plus a smaller number of cases and committed golden vectors with the real Argon2id; " + TRUST)

prop("C07", "The same inputs always produce the same bytes",
     "Without key encryption, exporting a key set is a function of seed, creation second and key options only: repeated exports, a second key set built from the same inputs, any interleaving with operations on other key sets, another time zone or sub-second part of the creation time, and another process all give identical bytes. Exporting or inspecting a key set never changes it.",
     ["histories", "inputs"], "every sequence of constructions, exports, phrase encodings and recoveries over several key sets, in one or several processes",
     "No test exports the same key twice, in a different order of operations or in another process.",
     ["mnemonikey.go", "pgp/key_set.go", "pgp/sign.go", "pgp/signature.go", "pgp/master_key.go"],
     m(("signature timestamps equal to creation", "pgp/master_key.go"), ("key-seeded subkey shuffle", "pgp/key_set.go")),
     ["EncodePGP", "EncodeSubkeysPGP", "EncodePGPArmor", "EncodeMnemonicPlaintext"],
     "stateful property-based testing: operation histories against a first-observation model, cross-process differential",
     FAST + TRUST)

prop("C08", "Exports are well-formed OpenPGP transferable secret keys",
     "Every unencrypted export parses completely, with no leftover bytes, as secret master key, user ID, self-certification, then for each subkey a secret subkey followed by its binding signature; each secret key is a version 4 packet whose canonical multiprecision integers, checksum, curve and creation time are right and whose private part generates its public part. The ASCII-armored form is a private key block with correct CRC-24 that decodes to exactly the binary form.",
     ["inputs"], "every seed, creation time and option set, including keys whose integers have leading zero bytes and user IDs of any length",
     "One key is imported in gpg; encodings that only differ for particular lengths or leading zeros are not reached.",
     ["pgp/packet.go", "pgp/mpi.go", "pgp/ecc_key.go", "pgp/key_set.go", "pgp/user_id.go", "mnemonikey.go"],
     m(("EncodePacket length forms", "pgp/packet.go"), ("EncodeMPI, checksumMPI", "pgp/mpi.go"), ("armorEncode", "mnemonikey.go")),
     ["EncodePGP", "EncodePGPArmor"],
     "property-based testing: independent OpenPGP parser as validity oracle; searched leading-zero cases; exhaustive length boundaries",
     FAST + TRUST)

prop("C09", "Every certification and binding signature verifies",
     "In every export the self-certification verifies under the master public key over that key and the user ID, each subkey's binding signature verifies under the master public key over both keys, and the signing subkey's binding carries an embedded cross-certification that verifies under the signing subkey. Each signature names its true issuer and is dated at the key creation time, and its visible hash prefix matches.",
     ["inputs"], "every seed, creation time, option set, user ID and export form",
     "gpg checks the signatures of one key only.",
     ["pgp/sign.go", "pgp/signature.go", "pgp/master_key.go", "pgp/key_set.go"],
     m(("Sign", "pgp/sign.go"), ("SelfCertify, BindSubkey", "pgp/master_key.go")),
     ["EncodePGP", "EncodeSubkeysPGP"],
     "property-based testing: independent signature parser and Ed25519 verifier over generated exports",
     FAST + TRUST)

prop("C10", "Each key carries exactly its documented capabilities and preferences",
     "In every export the master key is EdDSA and flagged certify-only, the encryption subkey is ECDH with SHA256/AES128 key derivation and flagged for encrypting communications and storage, the authentication subkey EdDSA flagged authenticate, the signing subkey EdDSA flagged sign. The self-certification commits, in its signed part and in the documented order, to the flags, expiry, cipher preferences led by AES256 AES192 AES128, hash preferences SHA512 SHA384 SHA256 SHA224 SHA1, compression preferences ZLIB BZIP2 ZIP, MDC support and the no-modify key server flag.",
     ["inputs", "configurations"], "every seed, creation time, option set and export form",
     "No test looks at flags or preferences.",
     ["pgp/master_key.go", "pgp/key_set.go", "pgp/constants.go", "pgp/encryption_subkey.go"],
     m(("SelfCertify subpackets", "pgp/master_key.go"), ("key flags per subkey", "pgp/key_set.go")),
     ["EncodePGP", "EncodeSubkeysPGP"],
     "property-based testing: independent signature-subpacket parser against the documented table",
     FAST + TRUST)

prop("C11", "The requested lifetime is what the keys carry",
     "When a time-to-live is given, every signature on the master key and on each subkey states, in its signed part, an expiration exactly that many whole seconds after creation, and the reported expiry time agrees; without one no key expires. A time-to-live that OpenPGP cannot express (negative, positive but under one second, or more than 2^32-1 seconds) is refused, never silently altered. The lifetime never affects fingerprints or the recovery phrase.",
     ["inputs"], "every time-to-live from minimum to maximum duration, every creation time and subkey selection",
     "No test sets a TTL.",
     ["mnemonikey.go", "derive.go", "pgp/master_key.go", "key_options.go"],
     m(("TTL validation", "mnemonikey.go"), ("expiry subpackets", "pgp/master_key.go"), ("expiry computation", "derive.go")),
     ["New", "Expiry", "EncodePGP"],
     "property-based testing: boundary-biased durations against the parsed expiration subpackets",
     FAST + TRUST)

prop("C12", "Only the selected private keys leave; the master stays out of subkey exports",
     "An export contains exactly the subkeys that were selected (all three by default), each identical to and in the same relative order as in the full export. A subkeys-only export replaces the master private key by an empty GNU-dummy stub, so that none of its private bytes occur anywhere in the output, and includes the self-certification if and only if it was asked for.",
     ["inputs", "configurations"], "every seed, every list of subkey types (in any order, with repeats), both export forms, with and without self-certification and password",
     "Only one two-subkey selection is tested and EncodeSubkeysPGP is never called by a test.",
     ["pgp/key_set.go", "pgp/ecc_key.go", "pgp/master_key.go", "key_options.go", "derive.go", "mnemonikey.go"],
     m(("encodePrivateDummy", "pgp/ecc_key.go"), ("EncodeSubkeyPackets", "pgp/key_set.go"), ("subkeyEnabled", "key_options.go")),
     ["EncodePGP", "EncodeSubkeysPGP", "SubkeyTypes"],
     "property-based testing: metamorphic comparison of subset and full exports; byte search for private material",
     FAST + TRUST)

prop("C13", "Password-protected exports decrypt with the password and hide the keys",
     "With any non-empty password, every exported private key is protected by salted-and-iterated S2K with AES-256 and a SHA-1 integrity check, decrypts under that password to exactly the private key of the unprotected export, and does not decrypt under a different password. No private key bytes appear in the clear, every key of every export gets its own salt and IV, and everything else in the export is identical to the unprotected one.",
     ["inputs"], "every password (any bytes and length) and key set, full and subkeys-only exports",
     "No test exports with a password.",
     ["pgp/s2k.go", "pgp/ecc_key.go", "pgp/key_set.go"],
     m(("EncryptS2K", "pgp/s2k.go"), ("encodePrivate", "pgp/ecc_key.go")),
     ["EncodePGP", "EncodeSubkeysPGP", "EncodePGPArmor"],
     "property-based testing: independent S2K decryption oracle and metamorphic comparison with the unprotected export",
     FAST + "S2K runs at its full 65 MB iteration count, which bounds the number of cases; " + TRUST)

prop("C14", "Subkey indices select independent keys and disturb nothing else",
     "Changing the index of one subkey type changes that subkey and only that subkey: the master key, the other subkeys, the user ID and the recovery phrase stay the same. For one seed, all subkeys over all types and all 65536 indices, and the master key, are pairwise different, and the same type and index always gives the same subkey whatever else is selected.",
     ["inputs"], "every seed, every triple of indices 0..65535, every selection of subkeys",
     "Index 1 of the encryption subkey is tested once.",
     ["derive.go", "key_options.go", "mnemonikey.go"],
     m(("keyExpandInfoSubkey", "derive.go"), ("per-type index options", "key_options.go")),
     ["SubkeyFingerprint", "Fingerprint", "EncodePGP"],
     "property-based testing: metamorphic index changes; exhaustive enumeration of indices for distinctness",
     FAST + TRUST)

prop("C15", "The user ID is exactly the given name and email, whatever they contain",
     "The exported user ID is the name alone, the email alone, or 'name <email>' when both are given, byte for byte, for any text of any length, and the self-certification covers exactly those bytes. The user ID affects nothing but itself and the self-certification: keys, fingerprints, bindings and recovery phrase do not depend on it.",
     ["inputs"], "every pair of strings: empty, long (beyond 191, 8383 and 65535 bytes), non-ASCII, containing angle brackets or format verbs",
     "One ASCII name and email are tested.",
     ["pgp/user_id.go", "pgp/packet.go", "pgp/master_key.go", "mnemonikey.go"],
     m(("UserID.Encode", "pgp/user_id.go"), ("SelfCertify", "pgp/master_key.go")),
     ["UserID", "EncodePGP"],
     "property-based testing: generated strings against the specified concatenation; metamorphic independence",
     FAST + TRUST)

prop("C16", "Creation times are floored to the second and confined to the epoch",
     "A creation time from 2023-01-01T00:00:00Z up to 2^31-1 seconds later is accepted in any time zone and truncated to the whole second, and that second is what the keys, signatures, reported creation time and phrase carry. Any earlier or later time is refused with the matching too-early or too-late error, and phrase encoding refuses an offset that does not fit in 31 bits; nothing is wrapped around and nothing panics.",
     ["inputs"], "every representable time instant, time zone and sub-second part; every 32-bit creation offset",
     "One creation time is tested; neither bound is.",
     ["mnemonikey.go", "parameters.go", "encoding.go"],
     m(("bounds checks and flooring in New", "mnemonikey.go"), ("EpochStart, MaxCreationTime", "parameters.go")),
     ["New", "CreatedAt", "EncodeMnemonicPlaintext", "EncodeMnemonicEncrypted"],
     "property-based testing: boundary-biased instants against an integer model of the epoch",
     FAST + TRUST)

prop("C17", "A fresh seed is 128 full bits from the random source, or an error",
     "A generated seed is exactly the next 128 bits the random source delivers, in order, however the source splits its reads; its fixed 16-byte form, its integer form and its phrase agree. If the source fails or ends early no seed is produced. A seed can be built from every integer of at most 128 bits and from nothing else: a longer or negative integer or an unknown era is refused.",
     ["inputs", "fault_sequences"], "every random stream, every way of chunking reads, every failure position; every integer and era",
     "One seed is generated from a fixed generator.",
     ["seed.go", "version.go"],
     m(("GenerateSeed", "seed.go"), ("NewSeed validation", "seed.go"), ("FillBytes in Bytes", "seed.go")),
     ["GenerateSeed", "NewSeed", "Seed.Bytes", "Seed.Int"],
     "property-based testing: generated byte streams with chunked, short and failing readers against the stream itself",
     TRUST)

prop("C18", "Word-index encoding is a lossless bijection for any payload size",
     "For every bit size and every non-negative payload that fits in it, the payload is encoded to ceil(size/12) word indices below 4096, most significant first with zero padding in front, and decoding the indices returns the payload; indices and list words convert into each other one to one, case-insensitively on input. A payload larger than the size, an index of 4096 or more, or a word outside the list is refused with an error, never a panic.",
     ["inputs"], "every payload and bit size (including sizes not divisible by 12 and zero), every list of indices and of strings",
     "The mnemonic package has no tests of its own; only 168- and 192-bit payloads occur.",
     ["mnemonic/encode.go", "mnemonic/decode.go"],
     m(("EncodeToIndices, EncodeToWords", "mnemonic/encode.go"), ("DecodeIndices, DecodeWords", "mnemonic/decode.go")),
     ["mnemonic.EncodeToIndices", "mnemonic.EncodeToWords", "mnemonic.DecodeIndices", "mnemonic.DecodeWords"],
     "property-based testing: round-trip and integer-arithmetic model; exhaustive over words and indices",
     TRUST)

prop("C19", "Calls neither modify their arguments nor share memory with the caller",
     "No library call modifies the word lists, passwords, integers, options or seeds passed to it. Overwriting, after a call, any slice or integer that was passed in or returned leaves every seed, decoded phrase and key set, and all of their later results, unchanged.",
     ["histories", "inputs"], "every call of the library followed by arbitrary overwriting of its arguments and results, in any order",
     "No test reuses or overwrites an argument.",
     ["seed.go", "mnemonic/encode.go", "recovery.go", "encoding.go", "mnemonikey.go", "pgp/s2k.go"],
     m(("copies in Seed.Int and bitBuffer.Int", "seed.go, bit_buffer.go")),
     ["NewSeed", "EncodeToIndices", "DecodeMnemonic", "New", "Fingerprint"],
     "stateful property-based testing: scribble on arguments and results, compare with a pristine twin",
     FAST + TRUST)

prop("C20", "Concurrent use gives the same results as sequential use",
     "Any number of goroutines deriving, encoding, decoding, decrypting and exporting at the same time, on the same or different seeds, phrases and key sets, obtain exactly the results they would obtain one after the other, without data races.",
     ["schedules", "histories"], "every interleaving of library calls on shared and separate objects",
     "All tests are sequential.",
     ["mnemonikey.go", "recovery.go", "encoding.go", "pgp/key_set.go", "mnemonic/encode.go"],
     m(("no mutable package state", "all packages")),
     ["EncodePGP", "DecodeMnemonic", "EncodeMnemonicPlaintext", "Fingerprint"],
     "property-based testing: generated concurrent workloads under the race detector, compared with a sequential model",
     "schedules are whatever the Go scheduler produces plus the race detector's happens-before analysis; " + FAST + TRUST)

prop("C21", "A key made by 'generate' is reproduced by 'recover' from its phrase",
     "Whatever flags it is given, the phrase that the generate command prints or saves, plaintext or encrypted, when entered into the recover command by file, piped input or keyboard, with the same name, email, lifetime and key selection, prints the same unencrypted private key block byte for byte. The key is created at the current time and from the entropy source that was asked for.",
     ["inputs", "configurations"], "every combination of flags, entropy, phrase password and input method",
     "The CLI test only checks that something that looks like a key block is printed.",
     ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/word_input.go", "cmd/mnemonikey/common_opts.go"],
     m(("generateAndPrintKey", "cmd/mnemonikey/generate.go"), ("recoverAndPrintKey, decodeMnemonicFromInput", "cmd/mnemonikey/recover.go")),
     ["mnemonikey generate", "mnemonikey recover"],
     "property-based testing of the built binary: generated command lines, round-trip oracle, pseudo-terminal for passwords",
     FAST + "the CLI binary is built from /repo with that package; " + TRUST)

prop("C22", "'convert' keeps the identity behind a phrase and delivers the new phrase",
     "For every phrase and every choice of adding, changing or removing a password, convert outputs a phrase of the requested kind that embeds the same seed and creation time. The new phrase goes to the requested output file, or to the terminal when none is requested, and the input word file is left untouched.",
     ["inputs", "histories", "configurations"], "every phrase, old and new password, input method and output destination; chains of conversions",
     "The convert command has no test.",
     ["cmd/mnemonikey/convert.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go"],
     m(("decodeAndConvertPhrase", "cmd/mnemonikey/convert.go"), ("saveMnemonic", "cmd/mnemonikey/generate.go")),
     ["mnemonikey convert"],
     "property-based testing of the built binary: generated conversions against the reference phrase decoder",
     FAST + TRUST)

prop("C23", "Word files are created privately, never overwritten, and fully validated",
     "Saving a phrase creates a new file readable and writable by its owner only, at every moment from its creation on, that contains exactly the words separated by single spaces and a final newline; anything already existing at that path is left untouched and the command fails. If the phrase cannot be saved, no key is printed and the exit status is non-zero. A word file is accepted only if its whole content is one valid phrase in any case and whitespace layout.",
     ["inputs", "fault_sequences"], "every kind of existing path (file of any size, directory, symlink, missing parent), every word file content",
     "One word file is written to a fresh path and read back.",
     ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go"],
     m(("saveMnemonic", "cmd/mnemonikey/generate.go"), ("readWordFile", "cmd/mnemonikey/recover.go")),
     ["mnemonikey generate -out-word-file", "mnemonikey recover -in-word-file", "mnemonikey convert"],
     "property-based testing of the built binary: generated file-system situations in a scratch directory, injected write faults, content grammar",
     FAST + "runs as root, so permission-denied faults are replaced by path-shape and size-limit faults; " + TRUST)

prop("C24", "Interactive word entry yields exactly the words the user settled on",
     "For every sequence of keystrokes at the interactive prompt (letters, backspace, tab and enter/space completion, left arrow to revise the previous word, arrow and other keys, unknown words), the phrase that is submitted consists of the words finally shown at each position, each a member of the word list, and the number asked for follows the version of the final first word. Interrupting with Ctrl-C or Ctrl-D aborts with a non-zero status and prints no key, and piped or simple entry likewise takes one valid word per line, skipping invalid lines.",
     ["histories", "inputs"], "every keystroke history on a terminal; every sequence of lines on piped input",
     "Only a clean sequence of valid lines on a pipe is tested; the raw terminal mode is never exercised.",
     ["cmd/mnemonikey/word_input.go"],
     m(("userInputMnemonic", "cmd/mnemonikey/word_input.go"), ("userInputMnemonicSimple", "cmd/mnemonikey/word_input.go")),
     ["mnemonikey recover on a terminal"],
     "stateful property-based testing: generated keystroke histories on a pseudo-terminal against an editor model",
     FAST + TRUST)

prop("C25", "Command-line options are honoured exactly or refused",
     "The generate and recover commands apply name, email (surrounding blanks trimmed), lifetime (a count of days, weeks, twelfths of a 365-day year or 365-day years), key selection, subkey indices and, for exports without the master key, self-certification exactly as given. Unknown key types, malformed or unrepresentable lifetimes, indices above 65535, stray arguments and unknown commands or flags are refused with a message on standard error, a non-zero exit status and no key on standard output.",
     ["inputs", "configurations"], "every argument list",
     "No test passes any of these options.",
     ["cmd/mnemonikey/common_opts.go", "cmd/mnemonikey/expiry.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/command.go", "cmd/mnemonikey/main.go"],
     m(("DecodeOnlyKeyTypes", "cmd/mnemonikey/common_opts.go"), ("parseTTL", "cmd/mnemonikey/expiry.go"), ("maxSubkeyIndex check", "cmd/mnemonikey/recover.go")),
     ["mnemonikey generate", "mnemonikey recover"],
     "property-based testing of the built binary: generated argument lists, reference export as oracle",
     FAST + TRUST)

prop("C26", "Standard output carries the key block and nothing else; secrets stay put",
     "On success generate and recover write exactly one armored private key block, and no other text, to standard output, convert writes nothing there, and on any failure, including one to write the key block, nothing else is written there and the exit status is non-zero. The recovery phrase appears only on standard error or, when a word file is requested, only in that file; typed passwords appear nowhere, neither echoed nor printed.",
     ["inputs", "configurations", "fault_sequences"], "every command, flag set, input method, password dialogue and failure",
     "Only the success case without passwords is checked, and only by prefix and suffix.",
     ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/convert.go", "cmd/mnemonikey/word_input.go", "cmd/mnemonikey/main.go"],
     m(("stderr helpers", "cmd/mnemonikey/word_input.go"), ("userInputPassword", "cmd/mnemonikey/word_input.go"), ("order of saving and printing", "cmd/mnemonikey/generate.go")),
     ["stdout", "stderr", "terminal", "exit status"],
     "property-based testing of the built binary: generated runs on a pseudo-terminal with captured streams",
     FAST + TRUST)

prop("C27", "Password prompts accept exactly a confirmed non-empty password",
     "When a password is set, the prompt repeats until the same non-empty password is typed twice in a row, and that password is what protects the phrase or keys. When a phrase is opened, the prompt repeats after a detected wrong password and goes on with the first accepted one; interrupting aborts with a non-zero status, no key, and the terminal restored.",
     ["histories", "inputs"], "every sequence of typed passwords, mismatches, empty lines and interrupts",
     "No test uses a terminal.",
     ["cmd/mnemonikey/word_input.go", "cmd/mnemonikey/recover.go"],
     m(("userInputPassword", "cmd/mnemonikey/word_input.go"), ("retry loop", "cmd/mnemonikey/recover.go")),
     ["mnemonikey generate/recover/convert on a terminal"],
     "stateful property-based testing: generated password dialogues on a pseudo-terminal against a prompt model",
     FAST + TRUST)

prop("C28", "Help and result texts are printed completely on a terminal of any size",
     "Whatever width and height the terminal reports, including zero, the help texts and the output of a successful generate are printed completely, with no word lost, duplicated or reordered, and the program terminates with success.",
     ["configurations"], "every terminal size from 0 upwards",
     "Tests never run on a terminal.",
     ["cmd/mnemonikey/terminal.go", "cmd/mnemonikey/command.go", "cmd/mnemonikey/generate.go"],
     m(("justifyWidth", "cmd/mnemonikey/terminal.go")),
     ["mnemonikey generate", "mnemonikey help"],
     "property-based testing of the built binary: pseudo-terminals of generated sizes, width-invariance as metamorphic oracle",
     FAST + "memory-limited so that a runaway loop ends; " + TRUST)

prop("C29", "GnuPG accepts every exported key and can use it",
     "Every export of a key with a non-empty printable user ID of up to 1000 bytes, full or subkeys-only, protected or not, imports into GnuPG, which then lists the same fingerprints, user ID, creation and expiry times and capabilities. With it GnuPG can sign and verify, and encrypt and decrypt, and what was encrypted to the original key is decrypted by the recovered one.",
     ["inputs"], "every seed, creation time and option set with a printable user ID, including keys whose integers have leading zero bytes",
     "One key is imported.",
     ["pgp/key_set.go", "pgp/ecc_key.go", "pgp/s2k.go", "pgp/sign.go", "mnemonikey.go"],
     m(("EncodePackets", "pgp/key_set.go"), ("EncryptS2K", "pgp/s2k.go")),
     ["gpg --import, --list-keys, --sign, --decrypt"],
     "property-based testing: generated keys (biased to leading-zero integers) with GnuPG as external oracle",
     FAST + "trusts GnuPG 2.4; few cases because each starts gpg processes; " + TRUST)

prop("C30", "Reported key information agrees with the exported key",
     "The fingerprints, subkey list, user ID, creation time and expiry reported by the library, and those printed by the commands in verbose mode, are exactly those of the exported packets; a subkey that was not selected is reported as absent. Verbose mode changes nothing else.",
     ["inputs", "configurations"], "every seed, creation time and option set",
     "Two fingerprints of one key are checked against constants.",
     ["mnemonikey.go", "cmd/mnemonikey/terminal.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go"],
     m(("accessors", "mnemonikey.go"), ("printKeyDebugInfo", "cmd/mnemonikey/terminal.go")),
     ["Fingerprint", "SubkeyFingerprint", "SubkeyTypes", "UserID", "CreatedAt", "Expiry", "-verbose"],
     "property-based testing: accessors and verbose report against the independently parsed export",
     FAST + TRUST)

prop("C31", "The pgp package encodes every packet, integer and key canonically",
     "For every payload, sub-packet body, user ID and integer of at most 65535 bits, the encoders of the pgp package give the OpenPGP encoding that parses back to exactly that value: new-format packet headers with the shortest length, integers with their exact bit count. Every 32-byte seed with any creation time from 1970 to 2106 and any key derivation parameters gives, for each key type, the public packet, secret packet, stub and version 4 fingerprint that RFC 4880 prescribes (and as 32-byte fingerprint the SHA-256 of 0x9A, the body length in four octets and the body), and seeds of other lengths are refused; data encrypted with EncryptS2K opens under its password and no other. Arguments are never modified.",
     ["inputs"], "every payload and body length, integer size, tag, seed, 32-bit creation time, KDF parameters, plaintext and password",
     "The tests encode a few fixed values; boundary lengths, odd bit sizes, leading zeros and public packets are not reached.",
     ["pgp/packet.go", "pgp/mpi.go", "pgp/signature.go", "pgp/ecc_key.go", "pgp/master_key.go", "pgp/ed25519_subkey.go", "pgp/encryption_subkey.go", "pgp/s2k.go", "pgp/user_id.go"],
     m(("EncodePacket / packetLengthEncode", "pgp/packet.go"), ("EncodeMPI", "pgp/mpi.go"), ("encodePublic / encodePrivate / FingerprintV4", "pgp/ecc_key.go"), ("EncryptS2K", "pgp/s2k.go")),
     ["pgp.EncodePacket", "pgp.EncodeMPI", "pgp.Subpacket.Encode", "pgp.New*Key", "EncodePublicPacket", "EncodePrivatePacket", "FingerprintV4", "pgp.EncryptS2K"],
     "property-based testing: generated values and exhaustive lengths against an independent encoder / parser / S2K decryption",
     "no Argon2 involved; " + TRUST)

prop("C32", "Signatures and key sets made with the pgp package verify for any input",
     "For every private key, data, signature type, time, SHA-256/384/512 and any signed and unsigned sub-packets that fit, Sign returns a signature whose encoding parses completely, verifies over exactly that data and those signed sub-packets, names issuer and time, and carries all requested sub-packets in order; signing again gives the same bytes. A KeySet put together from any keys, each with its own creation time and lifetime, encodes to packets in which each key carries its own times and capabilities, every signature verifies and is dated at the creation of the key it is about, and the order of subkey kinds depends on the master key only.",
     ["inputs"], "every signature request and every combination of keys, creation times (subkeys not older than the master key), lifetimes and passwords",
     "Tests only build key sets whose keys share one creation and expiry time, and sign with SHA-256 and small sub-packets.",
     ["pgp/sign.go", "pgp/signature.go", "pgp/key_set.go", "pgp/master_key.go"],
     m(("Sign", "pgp/sign.go"), ("encodeSubpackets", "pgp/signature.go"), ("SelfCertify / BindSubkey", "pgp/master_key.go"), ("encodeAllSubkeyPackets", "pgp/key_set.go")),
     ["pgp.Sign", "Signature.Encode", "KeySet.EncodePackets", "KeySet.EncodeSubkeyPackets"],
     "property-based testing: generated requests and key sets, every signature verified by an independent RFC 4880 implementation",
     "no Argon2 involved; " + TRUST)

prop("C33", "The terminal is handed back as it was found and keeps nothing typed in secret",
     "However a command used at a terminal ends (success, a refused phrase, wrong or mismatching passwords, output that cannot be written, an abort with Ctrl-C or Ctrl-D at any word or password prompt), every mode and control character of the terminal is what it was before, whatever it was, and every colour and emphasis switched on has been switched off again. On a terminal of at least 80 columns, with each prompt's line no longer than that, no word of a phrase typed at the word prompts or with -simple, when asked for, can be read on the screen or in its scrollback after the command, except in the new phrase the command itself prints, nor can what was typed of a word before an abort at a word prompt; and a typed password is never shown. Not covered: commands killed by a signal, such as Ctrl-C with -simple.",
     ["inputs", "histories", "fault_sequences"], "every dialogue with the three commands at a terminal, with any initial modes, any size from 80 columns and any cursor position, ended at any prompt",
     "No test runs a command at a terminal.",
     ["cmd/mnemonikey/word_input.go", "cmd/mnemonikey/terminal.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/convert.go", "cmd/mnemonikey/generate.go"],
     m(("userInputMnemonic / userInputMnemonicSimple / userInputPassword", "cmd/mnemonikey/word_input.go"), ("colours and cursor control", "cmd/mnemonikey/terminal.go")),
     ["mnemonikey generate, recover, convert on a pseudo-terminal"],
     "property-based testing of the built binary: generated dialogues on a pseudo-terminal, its modes compared before and after, a terminal emulator as oracle for attributes and screen contents",
     FAST + TRUST)

CLAIMED = None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")

man = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
           notes="Every check is ./check <id>; it builds the harness and, where needed, the mnemonikey binary from /repo's current working tree. No hooks in /repo are needed. ./check <id> --replay FILE re-runs one saved counterexample.")
for p in P:
    if CLAIMED is not None and p["id"] not in CLAIMED:
        man["not_applicable"].append(dict(property=p["id"], reason="check under construction"))
        continue
    man["checks"].append(dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check " + p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
