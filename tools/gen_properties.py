import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="src/bip39/mnemonic.rs";U="src/bip39/util.rs";L="src/bip39/language.rs";T="src/bip39/mnemonic_type.rs";S="src/bip39/seed.rs";C="src/bip39/crypto.rs"
XP="src/bip32/extended_key/extended_private_key.rs";XU="src/bip32/extended_key/extended_public_key.rs";XK="src/bip32/extended_key/mod.rs"
PK="src/bip32/private_key.rs";PU="src/bip32/public_key.rs";CN="src/bip32/child_number.rs";DP="src/bip32/derivation_path.rs";PX="src/bip32/prefix.rs"

p("C01","Entropy encodes to exactly its BIP39 phrase",
 "For every 16, 20, 24, 28 or 32 byte entropy and each supported language, building a mnemonic from the entropy gives the BIP39 phrase: the entropy followed by the leading SHA-256 checksum bits, cut into 11-bit groups, each naming a word of that language's list, joined by single spaces (12, 15, 18, 21 or 24 words). The mnemonic reports back exactly the entropy, language and phrase it stands for. Entropy of any other length is refused with an error.",
 ["inputs"],"all entropy lengths, and for each valid length all entropies; both compiled-in languages",
 "24 English vectors and one hand-picked entropy are tested; nothing covers every word at every position, the 20/28-byte sizes, or Chinese.",
 [M,U,L,T,C],[("from_entropy / from_entropy_unchecked",M),("BitIter 8-to-11-bit repacking",U),("sha256_first_byte",C)],
 [("read/buffer","bits pulled from the byte stream and not yet emitted as a word index",U)],["Mnemonic::from_entropy","Mnemonic::phrase","Mnemonic::entropy","Mnemonic::language"])
p("C02","A phrase is accepted iff it is valid BIP39, and yields its entropy",
 "A phrase is accepted exactly when it has 12, 15, 18, 21 or 24 words, every word is in the chosen language's list and the BIP39 checksum matches; acceptance yields exactly the entropy the words encode, and re-encoding that entropy gives the same phrase. Anything else is refused with an error whose kind names a defect the phrase really has (unknown word, unsupported word count, or checksum mismatch). Standalone validation of a phrase written in canonical form gives the same verdict.",
 ["inputs"],"all word sequences over the list and near-misses of it, of every length, in each language",
 "Tests only feed valid phrases; no test has a wrong checksum, an unknown word, a bad word count, or any Chinese phrase.",
 [M,U,T],[("phrase_to_entropy",M),("BitWriter 11-to-8-bit repacking",U),("checksum",U),("for_word_count",T)],
 [("offset/remainder","bits pushed and not yet written out as bytes",U)],["Mnemonic::from_phrase","Mnemonic::validate"])
p("C03","Equivalent spellings of a phrase give the same mnemonic",
 "Importing a phrase does not depend on how it is written down: any Unicode whitespace around and between words, and any spelling with the same Unicode NFKD form (compatibility or fullwidth letters, ideographic space), give the same phrase, entropy and seed as the canonical single-spaced form. Letter case, words glued together, or any other alteration is not silently repaired: it is refused unless it spells a different valid phrase. Standalone validation never accepts a phrase that import refuses.",
 ["inputs"],"all phrases, all whitespace layouts and all NFKD-equivalent spellings",
 "No test contains a phrase with irregular whitespace or a non-NFKD spelling; the normalisation tests only cover the password.",
 [M],[("split_whitespace + nfkd + join in from_phrase",M),("IterExt::join",U)],None,["Mnemonic::from_phrase","Mnemonic::phrase","Seed::new"])
p("C04","The seed is exactly the BIP39 PBKDF2 of phrase and passphrase",
 "For every mnemonic and passphrase the seed is the 64-byte PBKDF2-HMAC-SHA512 output with 2048 rounds, whose password is the canonical phrase (UTF-8 for English, GB18030 for Simplified Chinese) and whose salt is \"mnemonic\" followed by the NFKD form of the passphrase. So passphrases with the same NFKD form give the same seed, and no other part of a passphrase (length, case, surrounding space, control or non-ASCII characters) is dropped or altered.",
 ["inputs"],"all mnemonics of every length and language, all passphrase strings",
 "Tests use the passphrases 'TREZOR', 'password' and one Unicode string, and never a Chinese mnemonic.",
 [S,C,M],[("Seed::new",S),("pbkdf2",C),("as_bytes GB18030 branch",M)],None,["Seed::new","Seed::as_bytes","Mnemonic::as_bytes"])
p("C05","Word lists are the official ones and recognised correctly",
 "In each supported language, word number 0..2047 and word text are in one-to-one correspondence and match the official BIP39 list, and text that is not in the list has no number. Every phrase generated in a language is recognised as that language from its text, text whose first word is in no list (or with no words) is recognised as none, and language codes map case-insensitively to exactly the supported languages.",
 ["inputs"],"all 2048 indices and words of each language; all first words; all short code strings",
 "One phrase and two language codes are tested; the index-to-word and word-to-index tables are only touched through a few vectors.",
 [L,"src/bip39/langs/english.txt","src/bip39/langs/chinese_simplified.txt"],[("gen_wordlist / gen_wordmap",L),("Language::from_phrase, from_language_code",L)],
 [("WORDLIST_*, WORDMAP_*","lazily built global tables",L)],["Language::wordlist().get_word","Language::wordmap().get_bits","Language::from_phrase","Language::from_language_code"])
p("C06","Looking words up by prefix returns exactly the matching words",
 "In each supported language, looking up words by a prefix returns exactly the list's words that start with that prefix, each once, in list order; the empty prefix returns the whole list and a prefix no word has returns nothing.",
 ["inputs"],"all prefixes of all words, all one-character perturbations of them, all short strings; each language",
 "Three prefixes, English only.",
 [L],[("get_words_by_prefix",L)],None,["Language::wordlist().get_words_by_prefix"])
p("C07","Fresh mnemonics come from OS randomness and are valid",
 "Every newly generated mnemonic has the requested word count and language and is a valid BIP39 phrase for its own entropy. All bits of its entropy come from operating-system randomness: each bit varies with the OS random bytes, and different calls, threads, forked processes and OS answers never share or predict an entropy. If the OS source is interrupted or answers short the call still succeeds with full entropy, and if it fails no mnemonic is produced.",
 ["inputs","fault_sequences","histories"],"all OS randomness answers (data, short reads, interruptions, failures), all sizes and languages, all call histories",
 "The tests call the generator twice with the real OS source and only look at self-consistency of one result; they cannot see a constant tail, a repeated value or an ignored failure.",
 [M,C],[("Mnemonic::new",M),("gen_random_bytes",C)],None,["Mnemonic::new","the OS getrandom seam"])
p("C08","Master keys follow BIP32 for every seed",
 "For every seed of 16, 32, 64 or 128 bytes the root extended key is BIP32's: HMAC-SHA512 keyed with \"Bitcoin seed\", left half the private key, right half the chain code, with depth 0, child number 0 and zero parent fingerprint. A seed of any other length is refused with the seed-length error. A left half that is not a valid private key is refused with an error.",
 ["inputs"],"all seed lengths and contents",
 "A handful of seeds of three lengths are tested; no bad length and no seed whose key or chain code starts with zero bytes.",
 [XP],[("ExtendedPrivateKey::new",XP)],None,["XPrv::new","XPrv::attrs","XPrv::to_bytes"])
p("C09","Child private keys follow BIP32 for every key and index",
 "For every extended private key and every 32-bit child number, deriving the child gives BIP32's CKDpriv result: hardened numbers hash the zero-padded 32-byte private key, others the compressed public key, the child key is parent plus left half modulo the group order, and the right half is the chain code. The child's depth is the parent's plus one, its child number is the one requested, and its parent fingerprint is that of the parent.",
 ["inputs"],"all parent keys (including ones with leading zero bytes), chain codes, depths and all 2^32 child numbers",
 "Two seeds and about ten fixed indices are tested; leading-zero keys, boundary indices and most depths are not.",
 [XP,PK,PU],[("ExtendedPrivateKey::derive_child",XP),("SecretKey::derive_child",PK),("fingerprint",PU)],None,["XPrv::derive_child","XPrv::attrs","XPrv::to_bytes"])
p("C10","Public derivation agrees with private derivation",
 "For every extended private key and every non-hardened child number, deriving then taking the public key equals taking the public key then deriving: same key, chain code, depth, child number and parent fingerprint, and the same holds along any non-hardened path. An extended public key refuses every hardened child number with the child-number error, wherever it occurs in a path. The public half of an extended key keeps all attributes and is the curve point of the private key.",
 ["inputs","histories"],"all keys, all non-hardened and hardened numbers, all paths",
 "A single (key, index 2) pair is tested.",
 [XP,XU,PU],[("ExtendedPublicKey::derive_child, derive_from_path",XU),("From<&ExtendedPrivateKey>",XU),("PublicKey::derive_child",PU)],None,["XPub::derive_child","XPub::derive_from_path","XPrv::public_key"])
p("C11","Impossible children are errors, never panics or wrong keys",
 "Whenever a derivation step has no valid result (the derived half is not below the group order, or the resulting key is zero / the point at infinity) the operation returns an error: it does not panic, skip the index, or return some other key. This holds for single steps and anywhere along a path, for private and public keys alike, and the two sides agree on which non-hardened steps fail.",
 ["inputs","histories","configurations"],"all parent keys and tweaks including the invalid ones, all key types the derivation is generic over, all paths",
 "The event has probability below 2^-127 with real hashes, so no test can sample it; no test calls the key-level derivation with an invalid tweak.",
 [XP,XU,PK,PU],[("derive_child error propagation",XP),("SecretKey::derive_child tweak parsing",PK),("PublicKey::derive_child tweak parsing",PU)],None,["PrivateKey::derive_child","PublicKey::derive_child","ExtendedPrivateKey::derive_child/new_from_path/derive_from_path","ExtendedPublicKey::derive_child/derive_from_path"])
p("C12","Derivation depth counts exactly and never wraps",
 "Each derivation step raises the depth by exactly one, and a key at depth 255 refuses every further derivation with the depth error, for private and public keys, single steps and paths. A path of up to 255 steps from a root key succeeds, a longer one fails with the depth error, and no key with a wrapped or clamped depth is ever produced.",
 ["inputs","histories"],"all depths 0..255 and all path lengths around and beyond the limit",
 "The deepest tested path has five steps.",
 [XP,XU],[("depth.checked_add(1)",XP),("depth.checked_add(1)",XU)],[("attrs.depth","one byte depth","src/bip32/extended_key/attrs.rs")],["XPrv::derive_child","XPub::derive_child","XPrv::new_from_path","derive_from_path"])
p("C13","Path derivation is exactly its steps, in order",
 "Deriving along a path from a seed or from an existing key equals deriving its child numbers one at a time in order, however the path is split into consecutive parts, and the empty path is the identity. The first failing step's error is the result of the whole derivation.",
 ["inputs","histories"],"all paths, all ways of splitting them, starting from seeds, private keys and public keys",
 "Only whole paths from a seed are tested; derivation along a path from an existing private or public key is never tested.",
 [XP,XU,DP],[("new_from_path, derive_from_path folds",XP),("derive_from_path fold",XU)],None,["XPrv::new_from_path","XPrv::derive_from_path","XPub::derive_from_path"])
p("C14","Path and child-number text is parsed and printed exactly",
 "Every derivation path and child number prints in the canonical form (\"m\" then \"/index\" with \"'\" for hardened) and parses back to an equal value. Text that is accepted denotes exactly the numbers written in it; text with a wrong root, an empty or non-decimal component, a sign or other stray character, a misplaced hardened mark, or an index of 2^31 or more is refused with an error, never truncated, wrapped or ignored.",
 ["inputs"],"all strings and all paths",
 "About six well-formed paths and one malformed number are tested.",
 [DP,CN],[("FromStr for DerivationPath",DP),("FromStr/Display for ChildNumber",CN)],None,["str::parse::<DerivationPath>","str::parse::<ChildNumber>","to_string"])
p("C15","A derivation path behaves as a plain sequence of child numbers",
 "After any sequence of parsing, pushing, extending, cloning and taking parents, a path's length, emptiness, iteration orders, slice view and printed form all describe the same sequence of child numbers, namely the one those operations build. Taking the parent drops exactly the last component and gives nothing for the root, and operating on one path never changes another.",
 ["histories"],"all operation sequences over a small set of child numbers",
 "One parent chain is tested; push, extend, iteration, length and clone independence are not.",
 [DP],[("DerivationPath methods",DP)],[("path","the vector of child numbers",DP)],["DerivationPath::{push,extend,parent,iter,into_iter,len,is_empty,as_ref}"])
p("C16","Extended keys serialise per BIP32 and round-trip",
 "Every extended key prints as the Base58Check text of BIP32's 78-byte layout (version, depth, parent fingerprint, child number, chain code, key with a leading zero byte for private keys) under the chosen prefix, into an owned string or a caller's buffer alike. Under each of the eight standard prefixes the text starts with that prefix and parses back to an equal key of the same kind with the same attributes and prefix, and any text that parses prints back unchanged.",
 ["inputs"],"all keys, all attribute values, all standard prefixes",
 "Two published keys are parsed and reprinted; extreme payloads (leading zeros, all ones, maximum depth) and the t/y/z prefixes are not.",
 [XK,XP,XU,PX],[("write_base58 / Display / FromStr for ExtendedKey",XK),("to_extended_key / TryFrom<ExtendedKey>",XP),("to_extended_key / TryFrom<ExtendedKey>",XU)],None,["ExtendedKey::to_string","ExtendedKey::write_base58","XPrv::to_string","XPub::to_string","FromStr"])
p("C17","Corrupt or invalid extended keys are refused",
 "Text is accepted as an extended key only if it is Base58Check of exactly 78 bytes with a correct checksum, so any corrupted, truncated, extended or padded text is refused. It is accepted as a private key only under a private prefix with a zero marker byte and a scalar between 1 and the order minus 1, and as a public key only under a public prefix with a valid compressed curve point, never one as the other. As in BIP32's invalid-key vectors, a depth-zero key with a nonzero parent fingerprint or child number is refused.",
 ["inputs"],"all texts, in particular all single corruptions of valid keys and all 78-byte payload shapes with a valid checksum",
 "No test feeds a malformed extended key.",
 [XK,XP,XU,PX,PK,PU],[("FromStr for ExtendedKey",XK),("TryFrom<ExtendedKey>",XP),("TryFrom<ExtendedKey>",XU),("Prefix::validate_str",PX)],None,["str::parse::<ExtendedKey/XPrv/XPub>","TryFrom<ExtendedKey>"])
p("C18","Extended keys are equal exactly when they are the same key",
 "Two extended private keys compare equal if and only if their private key, chain code, depth, parent fingerprint and child number are all identical, through every comparison the type offers. The same holds for extended public keys, and equal keys print identical text under the same prefix.",
 ["inputs"],"all pairs of keys differing in any one bit of any one field, or in none",
 "Equality is only asserted between keys that are expected to be equal, so a comparison that ignores a field passes every test.",
 [XP,XU],[("ConstantTimeEq / PartialEq for ExtendedPrivateKey",XP),("derive(PartialEq) on ExtendedPublicKey",XU)],None,["XPrv ==, ct_eq","XPub =="])
p("C19","Debug output of an extended private key reveals no secret key",
 "Debug-printing an extended private key, plain or pretty, shows its public attributes but gives output that does not depend on the private key at all: two keys that differ only in the secret print the same.",
 ["inputs"],"all pairs of private keys with the same attributes, all formatting modes",
 "A test prints the debug form without looking at it.",
 [XP],[("Debug for ExtendedPrivateKey",XP)],None,["format!(\"{:?}\")"])
p("C20","Secrets are wiped when their owner is dropped",
 "When a mnemonic, seed, serialised extended key, or extended-private-key text returned by the library is dropped (directly, as a clone, after a move, on another thread, or during a panic), the memory that held its phrase, entropy, seed bytes or key bytes is overwritten with zeros before it is released. Consuming a mnemonic for its phrase hands over the phrase and still wipes the entropy. Dropping one object never alters another.",
 ["histories","inputs"],"all sequences of create, clone, move, consume and drop over all sizes and languages",
 "No test looks at released memory.",
 [M,S,XK,XP],[("Zeroizing fields of Mnemonic",M),("Drop for Seed",S),("Drop for ExtendedKey",XK),("Zeroizing<String> from to_string",XP)],None,["heap contents at release"])
p("C21","ECDSA signing gives the valid, recoverable, deterministic signature",
 "For every private key and 32-byte digest, signing returns the deterministic RFC 6979 secp256k1 signature as 64 bytes r||s in low-s form, together with the recovery id from which the signer's public key is recovered. A message of any other length is refused with an error.",
 ["inputs"],"all private keys, all digests (including zero and values at or above the group order), all message lengths",
 "The signing function has no test at all.",
 ["src/lib.rs","src/error.rs"],[("ecdsa_sign","src/lib.rs")],None,["kms::ecdsa_sign"])
p("C22","No untrusted text or bytes can crash or hang the library",
 "Every operation that takes text or bytes from outside (phrases, words, language codes, passphrases, paths, child numbers, extended keys, prefixes, seeds, messages to sign or hash) returns a value or an error for every input: it never panics, aborts, overflows or loops, in debug and release builds alike.",
 ["inputs","configurations"],"all strings and byte strings, in particular empty, huge, non-ASCII, truncated and boundary-sized ones; both build profiles",
 "Two invalid inputs are tested in the whole suite.",
 [M,L,T,S,DP,CN,XK,PX,"src/lib.rs","src/crypto.rs"],[("Result-returning parsers","throughout")],None,["all public parsing and construction functions"])
p("C23","Results do not depend on what was called before",
 "Every operation except generating a fresh mnemonic is a pure function of its arguments: the same call gives the same result after any history of other calls, successful or failed, with other languages, passphrases or keys, as it gives in a fresh process. Objects made earlier, and their clones, keep their values whatever is done later to other objects.",
 ["histories"],"all sequences of library calls, starting from a fresh process",
 "Each test runs its calls in one fixed order in a shared process, so it can neither start from a fresh process nor vary the history.",
 ["src/bip39/","src/bip32/","src/lib.rs",L],[("lazily built global tables; no other shared state",L)],[("WORDLIST_*, WORDMAP_*","process-wide lazies",L)],["all public operations"])
p("C24","Concurrent use from any threads gives the sequential results",
 "When several threads use the library at the same time, including each one's very first use of it, every call returns what it would return alone, and no interleaving deadlocks, panics or exposes partly built state.",
 ["schedules"],"all interleavings of two or three threads running library operations from a fresh process",
 "The tests exercise whatever interleavings the OS happens to produce in one process with tables mostly warmed up.",
 [L,"src/bip39/","src/bip32/"],[("once_cell::sync::Lazy tables",L)],[("WORDLIST_*, WORDMAP_*","process-wide lazies initialised on first use",L)],["all public operations from several threads"])
p("C25","Key fingerprints and RIPEMD-160 are computed exactly",
 "The fingerprint of every public key is the first four bytes of RIPEMD160(SHA256(compressed key)), and the text hash helper returns the 40 lower-case hex digits of RIPEMD-160 for every byte string of every length.",
 ["inputs"],"all public keys; all messages, especially lengths around block boundaries",
 "The hash helper has no test; fingerprints are only covered through two published derivations.",
 [PU,"src/crypto.rs"],[("PublicKey::fingerprint",PU),("crypto::ripemd","src/crypto.rs")],None,["XPub::fingerprint","PublicKey::fingerprint","kms::crypto::ripemd"])
p("C26","Hex and text renderings of mnemonics and seeds are exact",
 "Lower and upper hex formatting of a mnemonic's entropy and of a seed give exactly two digits per byte in order, with a 0x prefix only in the alternate form; the debug form of a seed is its alternate upper hex form and that of a mnemonic its quoted phrase; display, string conversion and consumption of a mnemonic give exactly its phrase.",
 ["inputs"],"all byte values at all positions, all formats, all sizes and languages",
 "Two values are formatted.",
 [M,S],[("LowerHex/UpperHex/Display for Mnemonic",M),("LowerHex/UpperHex/Debug for Seed",S)],None,["format!"])
p("C27","Version numbers and prefixes convert consistently",
 "For every 32-bit version, conversion to a prefix either fails or yields a prefix of four letters that carries exactly that version and its big-endian bytes, the same through every conversion offered, and whose text is the start of the Base58Check form of that version. The eight standard prefixes (t, x, y and z, private and public) map to and from their published versions, and each is exactly one of private or public. Byte strings not four long are refused.",
 ["inputs"],"all 2^32 versions (by ranges), all byte-slice lengths",
 "Eight constants are tested.",
 [PX],[("Prefix::from_version/from_bytes/TryFrom",PX)],None,["Prefix::try_from","Prefix::from_bytes","Prefix::{version,to_bytes,as_str,is_public,is_private}"])
p("C28","Child numbers encode every 32-bit value faithfully",
 "A child number and its 32-bit value, its four big-endian bytes, and its (index, hardened) pair determine one another for all 2^32 values; building one from an index and a hardened flag succeeds exactly for indices below 2^31, and ordering and equality are those of the 32-bit value.",
 ["inputs"],"all 2^32 child numbers",
 "Three values are tested.",
 [CN],[("ChildNumber::{new,from_bytes,to_bytes,index,is_hardened}",CN)],None,["ChildNumber methods and conversions"])
p("C29","Phrase sizes follow the BIP39 table",
 "Exactly the word counts 12, 15, 18, 21 and 24 and the key sizes 128, 160, 192, 224 and 256 bits are supported, each word count paired with its key size; total bits are entropy plus checksum bits, checksum bits are entropy/32, words are total/11, and every other count or size is refused with an error that reports it. Sizing an existing phrase agrees with its number of words.",
 ["inputs"],"all word counts and key sizes, all supported types, phrases of all lengths",
 "The five supported types are tested for three of the numbers; refusal and lookup are not.",
 [T],[("MnemonicType::{for_word_count,for_key_size,for_phrase}",T)],None,["MnemonicType methods"])
p("C30","The same backup always restores the same wallet",
 "From phrase, passphrase and path to extended private and public key text, the whole chain gives the result of an independent implementation of BIP39 and BIP32, for every phrase size, language, passphrase and path. A key exported at any point of the chain and imported again continues to derive the same descendants as the original.",
 ["inputs","histories"],"all combinations of phrase size, language, passphrase and path, with export and import at any step",
 "The published vectors stop at the master key or start from a seed; no test exports and re-imports in mid-path.",
 ["src/bip39/","src/bip32/"],[("composition of mnemonic, seed and derivation","src/lib.rs")],None,["Mnemonic::from_phrase -> Seed::new -> XPrv::new_from_path -> to_string -> parse"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); assert x["statement"].count(". ")<=2,(x["id"],x["statement"].count(". "))
print(len(P))
