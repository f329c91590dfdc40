"""Registry: property -> monitor, level, rule (how cases are made), assumptions, budgets."""
STD = ["the reference implementations in vlib/oracle are right (known-answer tests run first)"]
FAST = ["volume runs use the guarded short key derivation (cfg keychain_verif_fast_kdf); the same cases also run, fewer, on the build as shipped"]
X = "exploration"
PROPS = {
 "C01": ("seal", "c01", X, "seal and open events on generated (payload, password, salt, nonce): boundary and random lengths 0..1 MiB, passwords of many lengths and scripts; every event compared byte for byte with an independent implementation. Distinct: by (length, password, randomness).", STD + FAST, {}),
 "C02": ("seal", "c02", X, "open attempts at all entry points on sealed data after every single-bit change, every truncation, extensions, structured multi-byte changes, and with near-miss passwords; the event must be a refusal. Distinct: by (changed blob, password).", STD + FAST + ["passwords differing only by trailing NUL are excluded (HMAC pads keys with NUL)"], {}),
 "C03": ("rng", "c03", "fault_enumeration", "operations run in processes whose OS randomness source is interposed: a recorded never-repeating stream. Every salt, nonce and phrase entropy of every output must lie in that stream at a place no other output used. Faults: operation x fault kind x draw x duration x first/later use x system call/device files. Distinct: fault plans that were reached, and history steps.", ["the interposed calls (syscall/getrandom/getentropy and reads of /dev/random, /dev/urandom) are the only randomness the library can reach"], {}),
 "C04": ("wallets", "c04", X, "histories over a pool of wallets (created from seeds and phrases, externally encoded V1/V2, unknown networks), 15 manager configurations: password changes interleaved with other operations; every emitted blob is decoded independently and compared with the model, the same later steps are run before and after a change. Distinct: by (blob, step arguments).", STD + FAST, {}),
 "C05": ("wallets", "c05", X, "histories of network additions over the same pool; every result compared with the model and with a wallet created from the start; every refusal compared with the set of applicable refusals. Distinct: by (blob, network, manager).", STD + FAST, {}),
 "C06": ("wallets", "c06", X, "created wallets decoded independently; externally encoded V1/V2 wallets (field orders, whitespace, escapes, unknown networks, odd combinations) read back; 40 kinds of malformed contents through every reading operation. Distinct: by contents.", STD + FAST, {}),
 "C23": ("wallets", "c23", X, "all stored x supported subsets of the built-in networks and random wallets x 15 managers: opened networks, keys used by each operation, absent networks, interleaved keychains, survival of unsupported keys. Distinct: by (blob, manager) and (blob, network, path, message).", STD + FAST, {}),
 "C07": ("mnem", "c07", X, "conversions in 6 sizes x 8 languages (structured and random entropies), all 2048 last words of phrases of each size, all counts 0..39, every position out of bound, random mutations of valid sequences; each reply compared with the reference. Distinct: by (entropy, language) or index sequence.", STD, {}),
 "C08": ("mnem", "c08", X, "exhaustive word and index lookups in 8 languages through both crates, all 65536 indexes, near misses of every word; good and mutated phrases (17 mutations) x passphrases, also through the manager. Distinct: by (language, text).", STD + FAST, {}),
 "C09": ("mnem", "c09", X, "all ordered subsets of built-in networks, random requests with unknown and repeated networks, custom seed-size ranges: networks supported, generated phrases, answer to own and to other-length phrases. Distinct: by phrase, request or range list.", STD + FAST, {}),
 "C10": ("keys", "c10", X, "stored keys of seeds, and public keys by accepted paths (through factories, keychains and wallets), of seeds and of crafted stored keys (secrets with leading zeros, next to the order so that tweaks wrap, all depths); every derivation step of the standalone library field by field, to depth 255 and beyond. Distinct: by (root, path).", STD + FAST, {}),
 "C11": ("keys", "c11", X, "stored Cardano keys of seeds; public keys by accepted paths of seeds and of crafted keys at the limits of the clamping; families of neighbouring paths must give different keys. Distinct: by (key data, path).", STD + FAST, {}),
 "C12": ("keys", "c12", X, "signatures over messages of 0..1 MiB (boundary lengths, families sharing prefixes) under generated and crafted keys and paths: checked with the secret known (equation, low S, recovery id, Ed25519 bytes), repeated in two builds, verified by the library, nonce points recorded for reuse. Distinct: by (key, path, message).", STD + FAST, {}),
 "C13": ("keys", "c13", X, "verification of changed signatures (every byte, recovery ids, range and malleability forms, crafted keys), changed messages, other paths, wallets, networks, and unsupported lengths; 'true' is judged against the mathematical validity computed from the known secret. Distinct: by (key, path, message, signature).", STD + FAST, {}),
 "C14": ("path", "c14", X, "all single and pair deviations (23 boundary values per component) from an accepted path and random paths, for every network and for public key, sign and verify, through keychains and factories; constructors on all boundary triples. Distinct: by (network, operation, path) or constructor call.", STD + FAST, {}),
 "C15": ("path", "c15", X, "texts: every boundary number and oddity at every position with and without the hardened mark, every character below U+0250 next to a number, counts 0..19, random edits; compared with a reference reading; every accepted path is printed and parsed again. Distinct: by text.", STD + ["white space around a part, a leading + or zeros, and unmarked numbers of 2^31 or more may be refused or read exactly"], {}),
 "C16": ("fuzz", "c16", X, "every operation of the safe API with boundary, mutated and hostile arguments (near-valid wallets with mutated JSON, key blobs, phrases, paths, signatures, custom factories) in a build with overflow and debug checks and in one with AddressSanitizer; panics are captured, deaths and CPU-time hangs detected. Distinct: by call.", ["the three documented panics are expected; the failing randomness source is C03's"] + FAST, {}),
 "C17": ("keys", "c17", X, "key blobs of every depth, length 0..200, every byte changed, secrets at the limits, all values of Cardano's clamped bytes; factories on their own data; wallets with malformed key data of supported and unsupported networks. Distinct: by blob.", STD + FAST, {}),
 "C18": ("capi", "c18", X, "the same generated calls through the C functions and the Rust API (all functions and error kinds, null handles, invalid UTF-8, null empty buffers, stored texts holding NUL), each reply compared; driver-side monitors: guard bytes around results, result xor error, inputs unchanged; failing randomness injected inside calls, then use again. Distinct: by call and arguments.", STD + FAST, {}),
 "C19": ("capi", "c19", X, "random histories of create, use, keep, read, delete, delete again and delete-null over all object kinds (objects and errors), under a recording allocator (layout, foreign and double releases, residual blocks per call), AddressSanitizer and valgrind memcheck. Distinct: by (build, call, arguments) and deleted object.", STD + FAST + ["a residue that does not come back when the same call is repeated is a one-time initialisation, not a leak"], {}),
 "C20": ("capi", "c20", X, "2-16 threads share one manager and one keychain through the C functions, phases of mixed, identical and random-drawing calls, four kinds of injected delay, slow and failing randomness; every answer compared with the sequential one, every fresh value with all others; ThreadSanitizer (standard library instrumented as well) watches for races. Distinct: by order in which the threads' calls started.", STD + FAST, {}),
 "C21": ("wipe", "c21", X, "seeds and all six entropies, made in three ways, held in 20 kinds of place (heap, stack, containers, shared pointers, overwritten, unwinding, other threads) and dropped; their memory is copied at release or right after and compared position by position with the secret over 6 different secrets; 5 optimisation profiles (none, 1, s, 3, fat LTO); the zeroing helper on every length to 300, offsets and large slices. Distinct: by (profile, scenario).", ["a byte position counts as kept only if it equals the secret in all six trials"], {}),
 "C22": ("mnem", "c22", X, "every 11-bit value in every bit phase, sequences of every length to 260, hex of every byte and length to 300, case and whitespace variants, every ASCII symbol at several positions; compared with the reference. Distinct: by value.", STD, {}),
 "C24": ("custom", "c24", X, "stories of an application with 1 to 12 networks of its own (mixed with the built-in ones) whose factories and keys record each call and behave as told: data of 0 to 70000 bytes, fresh data on each call, each kind of error, panics, calls back into the library; wallets created, externally encoded, opened twice, added to; every recorded call, result, error cause and live object compared with the story. Distinct: by behaviour and arguments.", STD + FAST + ["factories and keys answer network() and seed_size() always alike"], {}),
 "C25": ("config", "c25", X, "all 16 feature sets of the C library and the default one are built with their generated headers; a C application compiled against each (linked statically and dynamically) runs wallet histories judged by one model; wallets travel between the builds. Distinct: by (build, arguments).", STD + ["quick: optimised dev profile with the short key derivation; thorough also the release profile as shipped"], {}),
 "C26": ("dicts", "c26", X, "application dictionaries with generated word lists (empty, repeated, separator-holding, case- and accent-variants, 1 to 4096 words), separators and look-up answers (aliases, indexes out of bound, own refusals), and the crate's dictionary structure filled with own words; conversions both ways, translations and seeds compared with a reference, every look-up recorded. Distinct: by (dictionary, text or words).", STD, {}),
 "C27": ("errors", "c27", X, "calls of every refusable operation made with no, one or several reasons to be refused (passwords, sizes, malformed contents and keys, absent, present and unsupported networks, phrases, paths, signatures, seed-size ranges); kind, values and text of the error compared with the reasons that apply. Distinct: by call.", STD + FAST, {}),
 "C28": ("leak", "c28", X, "wallet lives through the Rust and the C API in processes whose standard streams, files, environment and system calls are watched from the first reply to the exit; every other result, error text and printed form is searched for 8-byte pieces of seeds, stored and derived keys, chain codes and encryption keys and for texts of passwords and phrases, plain, reversed, hex, base64, decimal and escaped. Distinct: by call.", STD + FAST, {}),
}
_N = "Says that no generated case broke the property: sampled, with the counted reach in the evidence file, not all cases."
NOTES = {
 "C01": ("runtime monitoring: every seal and open event judged by an independent implementation", _N),
 "C02": ("runtime monitoring of hostile opens: tampering campaign with a refusal oracle", _N + " All single-bit changes and truncations of the blobs used are covered, multi-byte changes are sampled."),
 "C03": ("fault injection into the interposed OS randomness, byte-accounting monitor over recorded histories", "Enumerates operation x fault kind x draw x duration x first/later use (thorough: all; quick: each operation, kind and draw once and a sample of the rest)."),
 "C04": ("runtime monitoring of operation histories against an executable wallet model", _N),
 "C05": ("runtime monitoring of operation histories against an executable wallet model", _N),
 "C06": ("runtime monitoring: independent encoder and decoder judge every wallet read and written", _N),
 "C07": ("runtime monitoring of conversions against a reference BIP-39", _N + " Last words, counts and out-of-bound positions are enumerated."),
 "C08": ("runtime monitoring of lookups and phrase parsing against a reference BIP-39", _N + " Word lookups are enumerated."),
 "C09": ("runtime monitoring of managers: configuration sweep with a length and acceptance oracle", _N + " Subsets of built-in networks are enumerated."),
 "C10": ("runtime monitoring of key derivation against an independent BIP-32", _N),
 "C11": ("runtime monitoring of key derivation against an independent BIP32-Ed25519", _N),
 "C12": ("runtime monitoring of signing: equation check with known secrets, nonce-reuse ledger", _N),
 "C13": ("runtime monitoring of verification under forged and malleated inputs", _N),
 "C14": ("runtime monitoring of path acceptance over boundary deviations", _N + " Single and pair deviations over 23 boundary values are enumerated in the thorough tier."),
 "C15": ("runtime monitoring of the text parser against a reference reading", _N),
 "C16": ("fuzzing under overflow and debug assertions, panic capture, AddressSanitizer and a CPU-time watchdog", _N),
 "C17": ("runtime monitoring of key blob parsing under structured corruption", _N),
 "C18": ("differential runtime monitoring of the C functions against the Rust API, with randomness faults", _N),
 "C19": ("recording allocator, AddressSanitizer and valgrind memcheck under random create/use/delete histories", _N),
 "C20": ("ThreadSanitizer and concurrent-history monitor with injected delays and faults", _N + " Schedules are those that occurred; the evidence counts distinct call orders."),
 "C21": ("memory observation at release (allocator hook) across optimisation profiles", _N),
 "C22": ("runtime monitoring of the packing helpers against a reference", _N + " All 11-bit values in all phases are enumerated."),
 "C23": ("runtime monitoring of opened keychains against an executable wallet model", _N + " All stored x supported subsets of the built-in networks are enumerated."),
 "C24": ("runtime monitoring of application callbacks: recorded call ledger judged against the story", _N),
 "C25": ("runtime monitoring of C applications built per feature set, judged by one executable wallet model", _N + " Feature sets are enumerated."),
 "C26": ("runtime monitoring of phrase conversions through recorded application dictionaries", _N),
 "C27": ("runtime monitoring of refusals against a model of the applicable reasons", _N),
 "C28": ("runtime monitoring with system-call tracing and secret-tracking search of every output", _N),
}
