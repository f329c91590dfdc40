#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run to regenerate it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
NOTEST = "The repository has no test at all for this part: the 23 existing tests only cover the bip39 crate. "

p("C01", "Sealed data opens with its password to exactly the sealed bytes",
  "Any bytes sealed under any password open again under the same password to exactly the same bytes, whatever their length (including empty) and whatever the password's length or characters. The sealed form is always 32-byte salt, 12-byte nonce, 16-byte tag, ciphertext of the payload's length, with ChaCha20-Poly1305 under a key made by 19162 rounds of PBKDF2-HMAC-SHA512 over the whole password and salt, so an independent implementation of that format opens it and data sealed by an independent implementation opens here.",
  ["inputs"], "all payloads, passwords and random salts/nonces",
  NOTEST + "Sealing depends on every payload length (block boundaries, empty) and password length (hash-block boundaries).",
  ["keychain/src/crypt.rs"], [("encrypt / decrypt", "keychain/src/crypt.rs"), ("layout constants", "keychain/src/crypt.rs password_encryption_parameter")],
  observe=["encrypt() result", "decrypt() result"])
p("C02", "Wrong password, tampering or truncation never opens sealed data",
  "Opening sealed data (directly, as a wallet, or in any operation that takes wallet data and a password) with a different password, or after any change, truncation or extension of its bytes, always fails with an error. It never panics and never returns any decrypted content. Passwords that differ only by trailing NUL characters are outside this statement because HMAC pads keys with them.",
  ["inputs"], "all sealed blobs, all positions and kinds of modification, all wrong passwords",
  NOTEST + "A tampering gap can be at any byte position, for any length, and at any of the entry points that take wallet data.",
  ["keychain/src/crypt.rs", "keychain/src/manager.rs", "keychain/src/error.rs"],
  [("authenticated decryption", "keychain/src/crypt.rs decrypt"), ("error mapping", "keychain/src/error.rs From<CryptError>")],
  observe=["decrypt()", "keychain_from_data()", "change_password()", "add_network()", "backup calls"])
p("C03", "Every salt, nonce and phrase is fresh OS randomness, or nothing is output",
  "Every sealing draws its full 32-byte salt and its full 12-byte nonce, and every phrase generation its full entropy, from the operating system's randomness, using no random byte twice, also when the process is copied (forked) in between. If the randomness source delivers short, interrupted or failing reads at any point, the operation either still uses fully random bytes or produces no sealed data and no phrase.",
  ["inputs", "fault_sequences", "histories"], "all histories of sealing operations, and every fault of the OS randomness source at every draw",
  NOTEST + "Reuse shows only over histories, and the failure path only when the OS randomness source fails at the right draw.",
  ["keychain/src/crypt.rs", "keychain/src/entropy.rs", "keychain/src/mnemonic.rs", "bip39/src/bip39.rs"],
  [("OS entropy source", "keychain/src/entropy.rs OsEntropy"), ("salt and nonce draws", "keychain/src/crypt.rs encrypt"), ("entropy generation", "bip39/src/bip39.rs Entropy::generate")],
  state=[("OS random stream", "bytes delivered by the OS and where each ends up", "getrandom system call boundary")],
  observe=["getrandom calls", "salt and nonce bytes of each output", "entropy of each generated phrase"])
p("C04", "Changing a password changes the password and nothing else",
  "After changing a wallet's password from old to new, the new password opens a wallet with exactly the same networks, keys, stored seed or phrase and later abilities as before, and the old password no longer opens it. The input data still opens with the old password, and a change attempted with a wrong old password fails and yields nothing. This holds through any sequence of changes interleaved with other wallet operations.",
  ["histories", "inputs"], "all histories of password changes and wallet operations, all passwords",
  NOTEST + "It quantifies over sequences of operations and over everything stored in the wallet, including keys of networks the current manager does not know.",
  ["keychain/src/manager.rs", "keychain/src/crypt.rs"], [("change_password", "keychain/src/manager.rs")],
  observe=["decrypted wallet contents before and after", "keychain operations before and after"])
p("C05", "Adding a network later equals having created the wallet with it",
  "Adding a network to a wallet that kept its seed or phrase yields a wallet that is identical to one created with that network from the start: same keys for it, and the seed, phrase, language, password and all other keys unchanged. Adding is refused with a distinct error, and yields no data, when the network is already present, is not supported by the manager, when the wallet stored neither seed nor phrase, or when the password is wrong.",
  ["histories", "inputs"], "all orders of adding networks, wallets from seeds and phrases, all manager configurations",
  NOTEST + "It relates two different histories to one another, over all wallets and manager configurations.",
  ["keychain/src/manager.rs", "keychain/src/data.rs"], [("add_network", "keychain/src/manager.rs"), ("seed_from_data", "keychain/src/manager.rs")],
  observe=["decrypted wallet contents", "public keys of the reopened wallet", "error kinds"])
p("C06", "Wallet data of every released format version stays readable and exact",
  "Wallet data in the version-1 format (keys only) and version-2 format (seed, phrase, language, keys) as documented by the current encoder opens to exactly the stored contents when produced by an independent encoder, including keys of unknown networks. Wallets written by this library are version 2 and are read back exactly by an independent decoder: the seed or the phrase and language that were given, and one key per network of the manager. Malformed contents, unknown versions and missing fields are refused with a data error.",
  ["inputs", "configurations"], "all wallet contents, all field orders and encodings, all malformed variants",
  NOTEST + "Compatibility is about data written by other builds, which the tests never produce.",
  ["keychain/src/data.rs", "keychain/src/manager.rs"], [("VersionedData", "keychain/src/data.rs"), ("serialize helpers", "keychain/src/data.rs mod serialize")],
  state=[("version", "format version of the payload", "keychain/src/data.rs Version")],
  observe=["decrypted JSON", "open results for externally encoded wallets"])
p("C07", "Entropy and mnemonic phrase convert losslessly; the checksum is enforced",
  "For each of the six entropy sizes, converting entropy to a phrase and back in any built-in language gives the same entropy, and the phrase is the one the BIP-39 standard prescribes. Recovering entropy from a word sequence succeeds exactly when its count is supported, every index is below 2048 and its checksum matches; every other sequence is refused with an error.",
  ["inputs"], "all entropies of 96 to 256 bits, all word sequences, all eight languages",
  "Existing tests cover some 12 to 24-word vectors in two languages; 9-word phrases, six languages and the refusal side (bad checksum, out-of-range index) are never run.",
  ["bip39/src/bip39.rs", "bip39/src/util/bits.rs"],
  [("to_mnemonics / from_mnemonics", "bip39/src/bip39.rs Entropy"), ("11-bit packing", "bip39/src/util/bits.rs"), ("checksum", "bip39/src/bip39.rs Entropy::checksum")],
  observe=["phrases", "recovered entropy", "errors"])
p("C08", "Phrase to seed follows BIP-39, and only well-formed phrases are accepted",
  "A phrase made only of words of the chosen language's standard BIP-39 list, separated by single spaces, with a supported word count, gives the standard seed (2048 rounds of PBKDF2-HMAC-SHA512 over the phrase and 'mnemonic' plus passphrase). Any phrase with another word, another language's words, wrong spacing or an unsupported count is refused with an error. Word and index lookups are exact inverses over all eight standard word lists and refuse everything else. Two seeds are equal exactly when their 64 bytes are. Each standard list reports its own language's name and a single space as separator.",
  ["inputs"], "all phrases in all eight languages, all passphrases, all words of all lists",
  "The tests use one word each at four positions of the English list and fixed English/Japanese vectors; the other six lists are never read.",
  ["bip39/src/bip39.rs", "bip39/src/dicts/", "keychain/src/mnemonic.rs"],
  [("Mnemonics::from_string", "bip39/src/bip39.rs"), ("Seed::from_mnemonic_string", "bip39/src/bip39.rs"), ("dictionaries", "bip39/src/dicts"), ("Language::to_dict", "keychain/src/mnemonic.rs")],
  observe=["seed bytes", "lookup results", "errors"])
p("C09", "Generated phrases fit the manager that made them; phrase length is enforced",
  "A phrase generated by a wallet manager is a checksum-valid phrase in the requested language (English by default) whose strength is the smallest that satisfies every network of the manager, and the same manager always accepts it for creating a wallet. A phrase of any other length is refused as too short or too long. A manager is only created when its networks' seed-size ranges overlap, and it supports exactly the requested known networks.",
  ["inputs", "configurations"], "all network sets including custom ones, all languages, all phrase lengths",
  NOTEST + "It quantifies over manager configurations (subsets and custom networks) and random phrases.",
  ["keychain/src/manager.rs", "keychain/src/mnemonic.rs", "keychain/src/key_factory.rs", "keychain/src/networks/mod.rs"],
  [("calculate_seed_size", "keychain/src/manager.rs"), ("generate_entropy / seed_from_mnemonic", "keychain/src/mnemonic.rs")],
  observe=["generated phrases", "manager construction results", "has_network"])
p("C10", "Bitcoin and Ethereum keys follow BIP-32 exactly",
  "For every seed and every accepted path, the Bitcoin and Ethereum public keys (uncompressed, 65 bytes) are those BIP-32 prescribes for secp256k1 from that seed, hardened and soft steps alike. The stored key is the BIP-32 master key of the seed. The standalone BIP-32 library gives the same depth, parent fingerprint, index, chain code and key at each step, and refuses to derive beyond depth 255.",
  ["inputs"], "all seeds, all paths, including boundary indexes, deep chains and keys with leading zero bytes",
  NOTEST + "Encoding slips (leading zeros, endianness, hardened boundary) appear for rare keys or indexes only.",
  ["secp256k1_bip32/src/private.rs", "secp256k1_bip32/src/public.rs", "keychain/src/networks/bitcoin/key.rs", "keychain/src/networks/ethereum/key.rs"],
  [("from_seed / derive", "secp256k1_bip32/src/private.rs"), ("derive_private", "keychain/src/networks/*/key.rs")],
  observe=["public keys", "serialized extended keys"])
p("C11", "Cardano keys follow BIP32-Ed25519 exactly",
  "For every seed the stored Cardano key is the clamped SHA-512 of its first half with the second half as chain code, and for every accepted path the Cardano public key (32-byte point and 32-byte chain code) is the one BIP32-Ed25519 version-2 derivation prescribes along the full path. Different paths give different keys.",
  ["inputs"], "all seeds, all accepted paths including boundary indexes",
  NOTEST + "Clamping and carry errors show only for particular seeds.",
  ["keychain/src/networks/cardano/key.rs"], [("data_from_seed / derive_private", "keychain/src/networks/cardano/key.rs")],
  observe=["stored key data", "public keys"])
p("C12", "Signatures are standard, deterministic and accepted by the wallet's own verify",
  "Every signature made by a keychain verifies under the public key of the same network and path, by this library's own verification and by an independent implementation of the scheme: for Bitcoin and Ethereum a 65-byte recoverable low-S ECDSA signature over the Keccak-256 hash whose recovery id yields the signer's key, for Cardano a 64-byte Ed25519 signature over the message. Signing is deterministic, and no ECDSA nonce point is shared by two different messages or keys.",
  ["inputs", "histories"], "all messages (empty to large), keys and paths",
  NOTEST + "Nothing signs anything in the tests; defects can depend on message length, key bytes or recovery parity.",
  ["secp256k1_bip32/src/private.rs", "secp256k1_bip32/src/public.rs", "keychain/src/networks/cardano/key.rs", "keychain/src/keychain.rs"],
  [("sign", "secp256k1_bip32/src/private.rs"), ("verify", "secp256k1_bip32/src/public.rs"), ("sign/verify", "keychain/src/networks/cardano/key.rs")],
  observe=["signature bytes", "verify results"])
p("C13", "Verification never accepts a signature its scheme rejects",
  "Verification answers true only if the signature is a mathematically valid signature of exactly that message under the key of exactly that network and path. A changed message, changed signature byte (including the recovery id), other path, other wallet or other network gives false or an error. Signatures of unsupported length are refused with an error, never with a panic.",
  ["inputs"], "all messages, signatures, signature lengths and paths",
  NOTEST + "The refusal side needs many near-miss signatures and lengths.",
  ["secp256k1_bip32/src/public.rs", "keychain/src/networks/cardano/key.rs", "keychain/src/keychain.rs"],
  [("verify", "secp256k1_bip32/src/public.rs"), ("verify", "keychain/src/networks/cardano/key.rs")],
  observe=["verify results over mutated signatures"])
p("C14", "Each network only uses key paths of its own scheme",
  "A keychain uses a path (for public key, signing and verification alike) only if its coin is the network's own, its account is hardened, its change is 0 or 1 and its address is not hardened, and for Ethereum and Cardano its purpose is BIP-44; every other path is refused with a key-path error. The path constructors accept exactly account and address numbers below 2^31 and change 0 or 1, produce exactly the documented path (purpose 44, 49 or 84, hardened purpose, coin and account), and name the offending value when they refuse.",
  ["inputs"], "all values of the five path components, for each network and operation",
  NOTEST + "The policy is over 2^160 paths, checked separately in three networks and three operations.",
  ["keychain/src/networks/bitcoin/key.rs", "keychain/src/networks/ethereum/key.rs", "keychain/src/networks/cardano/key.rs", "keychain/src/networks/bitcoin/key_path.rs", "keychain/src/networks/ethereum/key_path.rs", "keychain/src/networks/cardano/key_path.rs"],
  [("derive_private guards", "keychain/src/networks/*/key.rs"), ("KeyPath constructors", "keychain/src/networks/*/key_path.rs")],
  observe=["pub_key/sign/verify results per path", "constructed components"])
p("C15", "Key path text parses exactly, round-trips, and never loses a hardened mark",
  "Parsing any text either yields exactly the five components it spells (a number followed by ' is that number plus 2^31) or an error; it never panics. Numbers that do not fit, hardened numbers of 2^31 or more, empty or non-numeric parts, a wrong number of parts and a wrong marker are refused. Printing any parsed path writes the five parts as decimal numbers below 2^31, with ' on exactly the hardened ones, and parsing the print again gives the same components.",
  ["inputs"], "all strings, including non-ASCII and numeric boundaries",
  NOTEST + "Parsing is over all strings; overflow and character-boundary faults need particular ones.",
  ["keychain/src/key_path.rs"], [("GenericKeyPath::from / to_string", "keychain/src/key_path.rs")],
  observe=["parsed components", "printed text", "errors"])
p("C16", "No input to the safe API panics, hangs or touches memory out of bounds",
  "Every call of the safe public API (wallet manager, keychain, sealing, phrases, dictionaries, key paths, extended keys, network key factories) with any arguments returns a value or an error: it does not panic, abort, hang or perform an out-of-bounds or otherwise undefined access. The only exceptions are the documented panics: reading more 11-bit groups than the input holds, looking up a word for an index above 2047 through the infallible call, and a failing OS randomness source.",
  ["inputs"], "all arguments of all safe public functions",
  "Tests run only well-formed inputs; malformed key data, oversize signatures, out-of-range indexes and odd strings are never passed.",
  ["keychain/src/", "bip39/src/", "secp256k1_bip32/src/"],
  [("length guards", "keychain/src/networks/*/key.rs, secp256k1_bip32/src"), ("unchecked dictionary access", "bip39/src/bip39.rs lookup_word")],
  observe=["process status", "panic hook", "AddressSanitizer and debug-assertion reports"])
p("C17", "Stored key blobs round-trip and malformed ones are refused",
  "An extended secp256k1 key serialised at any depth is restored exactly by parsing, and any blob of another length, with any changed byte, or holding a secret key of zero or at least the group order is refused with an error. A Cardano key blob is accepted exactly when it is 96 bytes long with the required clamped bits. Each network's key factory accepts the key data it produced, and a wallet holding malformed key data for a supported network fails to open with a key error.",
  ["inputs"], "all key blobs and all single and multi-byte corruptions",
  NOTEST + "Nothing exercises restoring a key from stored bytes.",
  ["secp256k1_bip32/src/private.rs", "keychain/src/networks/cardano/key.rs", "keychain/src/networks/*/factory.rs"],
  [("from_data / serialize with checksum", "secp256k1_bip32/src/private.rs"), ("from_data", "keychain/src/networks/cardano/key.rs")],
  observe=["from_data results", "serialize bytes"])
p("C18", "The C API behaves exactly like the Rust API and reports every failure",
  "Each C function returns true and writes its result, or returns false and writes an error with the matching error code and a NUL-terminated UTF-8 message; it never writes both and never unwinds or aborts, including for panics inside the library, null handles, invalid UTF-8, zero-length null buffers and messages containing NUL. Results equal those of the Rust API for the same inputs, and the library stays usable after any reported error.",
  ["inputs", "histories"], "all sequences of C calls with valid handles and arbitrary data arguments",
  "No test touches the C bindings at all.",
  ["keychain-c/src/"], [("handle_exception_result", "keychain-c/src/utils/panic.rs"), ("response", "keychain-c/src/utils/result.rs"), ("error codes", "keychain-c/src/error.rs")],
  observe=["return value, result and error out-parameters of each C call"])
p("C19", "The C API owns memory correctly: no leak, double free or overrun",
  "Every object handed out by the C API is valid until passed to its delete function, which releases exactly what was allocated with the same layout, wipes the pointer where it can and accepts an already deleted or null object. Any sequence of create, use and delete calls leaves no leaked block and performs no use after free, double free, mismatched release, out-of-bounds or uninitialised access.",
  ["histories", "inputs"], "all well-formed sequences of C API calls including failing ones",
  "No test touches the C bindings, and plain test runs do not see leaks or mismatched layouts.",
  ["keychain-c/src/utils/data.rs", "keychain-c/src/utils/string.rs", "keychain-c/src/network.rs", "keychain-c/src/backup.rs", "keychain-c/src/manager.rs", "keychain-c/src/keychain_c.rs", "keychain-c/src/error.rs"],
  [("Ptr::free implementations", "keychain-c/src"), ("from_raw_parts / into_boxed_slice pairs", "keychain-c/src/utils/data.rs, network.rs, backup.rs")],
  state=[("live allocations", "blocks handed to C and not yet deleted", "global allocator boundary")],
  observe=["allocator calls with layouts", "AddressSanitizer, LeakSanitizer and memcheck reports"])
p("C20", "Shared managers and keychains can be used from many threads at once",
  "Threads that share one manager handle and one keychain handle through the C API and call any of its non-deleting functions concurrently get exactly the results sequential calls would give (fresh random values aside), with no data race. Salts, nonces and phrases drawn concurrently never repeat.",
  ["schedules", "histories"], "all interleavings of concurrent calls on shared handles",
  "All tests are single-threaded.",
  ["keychain-c/src/", "keychain/src/entropy.rs", "keychain/src/keychain.rs", "keychain/src/manager.rs"],
  [("mutex around the random source", "keychain/src/entropy.rs"), ("no interior mutability", "keychain/src/keychain.rs")],
  observe=["ThreadSanitizer reports", "per-thread call/return log"])
p("C21", "Dropped seeds and entropies are wiped from memory",
  "When a seed or an entropy value is dropped, the memory it occupied no longer contains any of its secret bytes, in optimised builds as well as debug builds and for every entropy size. The wiping helper zeroes every byte of the slice it is given.",
  ["inputs", "configurations"], "all values and sizes, debug and optimised builds, heap and in-place storage",
  "Tests never look at memory after a drop, and an optimiser may remove the wipe only in release builds.",
  ["bip39/src/bip39.rs", "bip39/src/util/securemem.rs"], [("Drop for Entropy / Seed", "bip39/src/bip39.rs"), ("zero", "bip39/src/util/securemem.rs")],
  state=[("freed block contents", "bytes of a block at the moment it is released", "global allocator boundary")],
  observe=["contents of heap blocks when freed", "storage after drop in place"])
p("C22", "The hex and 11-bit packing helpers are lossless",
  "Hex-encoding any bytes and decoding gives the same bytes, also for upper-case digits and with spaces, tabs and line breaks anywhere between digits, and the first byte that is neither is reported by its index. Writing any sequence of 11-bit numbers gives their big-endian bit string padded with zeros, reading them back gives the same sequence, and the reported number of remaining groups is exact at every point.",
  ["inputs"], "all byte strings and all sequences of 11-bit numbers of any length",
  "One fixed 16-group sequence is read and two hex strings are tested; the writer is only run through full phrases.",
  ["bip39/src/util/hex.rs", "bip39/src/util/bits.rs"], [("encode/decode", "bip39/src/util/hex.rs"), ("BitWriterBy11/BitReaderBy11", "bip39/src/util/bits.rs")],
  observe=["encoded and decoded values"])
p("C23", "An opened keychain exposes exactly the stored keys its manager supports",
  "Opening a wallet gives a keychain whose networks are exactly those both stored in the wallet and supported by the manager, each bound to its own stored key. Using any other network fails with a key-does-not-exist error naming it, and no operation on one network is affected by which others are present. Opening and using a keychain never changes the wallet data, and keys of networks the manager does not support survive every later operation.",
  ["configurations", "histories", "inputs"], "all combinations of stored and supported networks, all operation sequences",
  NOTEST + "It quantifies over combinations of stored and supported networks and over histories.",
  ["keychain/src/keychain.rs", "keychain/src/manager.rs"], [("keychain_from_data", "keychain/src/manager.rs"), ("network lookup", "keychain/src/keychain.rs")],
  observe=["networks(), has_network(), pub_key() of opened keychains"])
p("C24", "Networks supplied by the application are treated exactly like built-in ones",
  "A manager made from an application's own key factories, alone or mixed with built-in ones, gives each factory exactly the wallet's 64-byte seed and exactly the key data stored for its network, stores exactly the key data the factory returned, and routes each public-key, sign and verify call with unchanged path, message and signature to that network's key, returning its result unchanged. An error of a factory or key comes back as a key error naming its network with the application's own error inside, and a failed creation, addition or opening yields nothing. Factories and keys of other networks are not disturbed, calls the application makes back into the library from inside its own code work, a panic in application code leaves the manager usable, and factories and keys are released when the manager and the keychains are dropped.",
  ["inputs", "histories", "fault_sequences"], "all sets of application networks, all results, errors and panics of their code, all histories",
  NOTEST + "It quantifies over the behaviour of code the library does not know, at every point where it is called.",
  ["keychain/src/manager.rs", "keychain/src/keychain.rs", "keychain/src/key_factory.rs", "keychain/src/key.rs", "keychain/src/error.rs"],
  [("with_factories", "keychain/src/manager.rs"), ("keychain_from_data / add_network / new_keychain_data", "keychain/src/manager.rs"), ("pub_key / sign / verify", "keychain/src/keychain.rs"), ("from_key_error", "keychain/src/error.rs")],
  observe=["calls received by the application's factories and keys", "results and error causes", "live factories and keys"])
p("C25", "Every build configuration offers exactly its networks and behaves alike",
  "For every combination of the features cardano, ethereum, bitcoin and backup, the library builds, and an application compiled against it (a Rust crate user, or a C program using the generated header with the static or the shared library) finds exactly the chosen networks: in the announced features and network numbers, in a new manager, in the list of all networks and in created wallets. A network of the build derives the same keys and accepts the same paths and signatures as in any other build, networks outside the build are refused as unsupported or absent, and wallets written by one build are opened, extended and re-encrypted by any other without losing the keys that build does not know.",
  ["configurations", "histories", "inputs"], "all feature sets of both libraries, all wallet histories across builds",
  NOTEST + "Only the default feature set is ever run, and feature sets other than all and the default are not even compiled.",
  ["keychain/src/networks/mod.rs", "keychain/src/network.rs", "keychain/Cargo.toml", "keychain-c/src/lib.rs", "keychain-c/build.rs", "keychain-c/cbindgen.toml"],
  [("all_networks", "keychain/src/networks/mod.rs"), ("Network::all", "keychain/src/network.rs"), ("feature-gated exports", "keychain-c/src/lib.rs"), ("header generation", "keychain-c/build.rs")],
  observe=["replies of an application compiled for each feature set", "decrypted wallet contents"])

p("C26", "Phrases in an application's own dictionary use exactly its words and separator",
  "With a dictionary supplied by the application (any words, any non-empty separator, any look-up answers) a phrase is exactly the dictionary's words for the indexes, in order, joined by its separator. A text is read by splitting it at exactly that separator and asking the dictionary for each piece unchanged; it is accepted exactly when every piece is found, every index is below 2048 and the count is supported, and then gives those indexes, that same text and the standard seed of that text. A word the dictionary refuses is reported with the dictionary's own error. The crate's dictionary structure filled with other words behaves the same, and translating between dictionaries keeps the indexes and the entropy.",
  ["inputs"], "all dictionaries, separators, look-up answers, texts and word sequences",
  "The tests only use the built-in English and Japanese lists with a space between words.",
  ["bip39/src/bip39.rs"],
  [("Language trait, DefaultDictionary", "bip39/src/bip39.rs mod dictionary"), ("Mnemonics::from_string / to_string", "bip39/src/bip39.rs"), ("MnemonicIndex::from_word / to_word", "bip39/src/bip39.rs"), ("MnemonicString::new", "bip39/src/bip39.rs")],
  observe=["phrases, indexes, errors and seeds", "look-ups received by the dictionary"])
p("C27", "A refusal names its own cause, and nothing is refused without one",
  "Every operation that is refused returns an error whose kind is one of the reasons that really apply to that call, and which carries the offending values: wrong password (or damaged data), too little data, malformed contents, no seed or phrase stored, invalid seed size with the size, seed-size ranges that do not fit with their bounds, absent, present or unsupported network with its number, malformed stored key or unusable path or signature with its network and the offending number or length, unknown word with the word, wrong word count with the count and the one required, wrong checksum with both checksums, path text with the index of the wrong part. A call to which no reason applies is not refused.",
  ["inputs", "histories", "configurations"], "all calls of all operations, with any combination of reasons to be refused",
  NOTEST + "It quantifies over the combinations of faults a call can have; the tests check two error values.",
  ["keychain/src/error.rs", "keychain/src/manager.rs", "keychain/src/keychain.rs", "keychain/src/mnemonic.rs", "keychain/src/key.rs", "keychain/src/key_path.rs", "bip39/src/bip39.rs", "secp256k1_bip32/src/error.rs"],
  [("error kinds", "keychain/src/error.rs Error"), ("error conversions", "keychain/src/error.rs, keychain/src/mnemonic.rs, keychain/src/key.rs From impls"), ("refusals", "keychain/src/manager.rs")],
  observe=["error kind, values and message of each refused call", "success of each call without a reason to be refused"])
p("C28", "Secrets leave the library only through the results meant to hold them",
  "Passwords, phrases, entropies, seeds, stored and derived private keys, chain codes and encryption keys never show up, in any encoding, in anything but the results meant to hold them (generated and retrieved phrases, exported keys data, unsealed bytes, key data, and the printed form of a seed or entropy itself). They are in no error or panic message (the offending word of a phrase excepted), public key, signature, sealed data, network list or printed form of a manager, keychain or extended key. The library writes nothing to the standard streams, files, network, process environment or other processes.",
  ["inputs", "histories"], "all operations with all secrets, refused or not",
  "No test looks at what an operation gives away besides its result, and a leak can be on any error path.",
  ["keychain/src/manager.rs", "keychain/src/keychain.rs", "keychain/src/error.rs", "keychain/src/crypt.rs", "keychain/src/mnemonic.rs", "keychain-c/src/error.rs", "secp256k1_bip32/src/private.rs"],
  [("error messages", "keychain/src/error.rs, keychain/src/mnemonic.rs, keychain/src/key.rs, keychain/src/data.rs"), ("C error messages", "keychain-c/src/error.rs")],
  observe=["results and messages of all operations", "standard streams, files, environment and system calls of the process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
