#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
S = "sia/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "v2 binary encoding round-trips every value and consumes exactly its bytes",
  "Every value of every type that has a v2 binary encoding (transactions, contracts, elements, policies, chain state, accumulator, attestations, primitives) encodes without error and decodes back to an equal value. The decoder consumes exactly the bytes the encoder produced, so encodings can be concatenated and read back one after another.",
  ["inputs"], "all values of every v2-encodable public type, including long lists, empty and absent fields, extreme integers, nested policies, every accumulator leaf count and every chain height",
  "Unit tests round-trip about one hand-written value per type; the claim is over all values, all combinations of absent fields and all list lengths.",
  [S+"encoding/v2.rs", S+"types/v2.rs", S+"types/spendpolicy.rs", S+"types/common.rs", S+"consensus.rs", "sia_derive/src/lib.rs"],
  [("derived encoders/decoders", "sia_derive/src/lib.rs"), ("presence bitmap of v2 transactions", S+"types/v2.rs"), ("tree presence mask of the accumulator", S+"consensus.rs")],
  ["SiaEncodable::encode", "SiaDecodable::decode"])

p("C02", "v1 binary encoding round-trips every value and consumes exactly its bytes",
  "Every value of every type that has a v1 binary encoding (blocks, transactions, contracts, revisions, unlock conditions, signatures with covered fields, currency, siafund outputs, primitives) encodes without error and decodes back to an equal value. The decoder consumes exactly the bytes the encoder produced, so encodings can be concatenated and read back one after another.",
  ["inputs"], "all values of every v1-encodable public type",
  "Unit tests round-trip a handful of literal values; variable-width currency, optional and list fields span an unbounded input space.",
  [S+"encoding/v1.rs", S+"types/v1.rs", S+"types/currency.rs", S+"types/common.rs", "sia_derive/src/lib.rs"],
  [("derived v1 encoders/decoders", "sia_derive/src/lib.rs"), ("minimal big-endian currency", S+"types/currency.rs")],
  ["V1SiaEncodable::encode_v1", "V1SiaDecodable::decode_v1"])

p("C03", "v2 encodings are byte-for-byte the Sia v2 wire format",
  "For every value, the bytes produced by the v2 encoder equal the Sia v2 wire format: little-endian 64-bit integers and lengths, 16-byte little-endian currency, one-byte booleans and option tags, fields in protocol order, the versioned transaction with its presence bitmap (a field is present exactly when it is non-empty, set or non-zero), versioned policies with one-byte opcodes and counts, accumulators with one hash per present tree, chain state with only the timestamps that exist. Decoding those bytes yields that value.",
  ["inputs"], "all values of every v2-encodable public type",
  "A round-trip test passes when encoder and decoder are wrong together, and the few golden vectors fix one value per type; interoperability needs every value.",
  [S+"encoding/v2.rs", S+"types/v2.rs", S+"types/spendpolicy.rs", S+"consensus.rs", S+"types/common.rs", S+"types/work.rs"],
  [("field order of the derive", "sia_derive/src/lib.rs"), ("transaction bitmap", S+"types/v2.rs"), ("policy opcodes", S+"types/spendpolicy.rs")],
  ["SiaEncodable::encode", "SiaDecodable::decode"])

p("C04", "v1 encodings are byte-for-byte the Sia v1 wire format",
  "For every value, the bytes produced by the v1 encoder equal the Sia v1 wire format: little-endian 64-bit integers and lengths, currency as a length-prefixed minimal big-endian number, fields in protocol order, siafund outputs carrying their value as currency and a zero claim start, specifiers as 16 bytes. Decoding those bytes yields that value, and encoding a transaction without signatures yields the same bytes minus the trailing signature list.",
  ["inputs"], "all values of every v1-encodable public type",
  "Golden vectors cover one value per type; a swapped pair of same-typed fields or a currency width edge case round-trips and escapes them.",
  [S+"encoding/v1.rs", S+"types/v1.rs", S+"types/currency.rs", S+"types/common.rs"],
  [("derived v1 encoders", "sia_derive/src/lib.rs"), ("currency v1 codec", S+"types/currency.rs"), ("block codec", S+"types/common.rs")],
  ["V1SiaEncodable::encode_v1", "V1SiaDecodable::decode_v1", "Transaction::encode_no_sigs"])

p("C05", "Binary decoders survive arbitrary bytes with bounded memory and stack",
  "Decoding any byte string as any type, v1 or v2, returns either a value or an error: it never panics, aborts, overflows the stack of an ordinary 2 MiB thread or loops. Memory used while decoding stays within a fixed allowance plus a constant factor of the bytes actually supplied, whatever lengths or nesting the input claims, and dropping, comparing, printing, re-encoding or hashing whatever was decoded is equally safe.",
  ["inputs"], "all byte strings: random, truncated, bit-flipped, with forged lengths, counts, tags, timestamps and nesting depth, for every decodable type",
  "No test feeds malformed bytes; a decoder facing the network must hold for all of them.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types/spendpolicy.rs", S+"types/v2.rs", S+"types/common.rs", S+"consensus.rs"],
  [("length handling in list decoders", S+"encoding/v2.rs"), ("policy recursion limit", S+"types/spendpolicy.rs"), ("timestamp conversion", S+"encoding/v2.rs")],
  ["decode", "decode_v1", "global allocator", "process exit status"])

p("C06", "Decoding is exact under truncation, fragmentation and trailing data",
  "Removing any non-empty suffix from the encoding of a value makes decoding fail, and trailing bytes after it are neither consumed nor influence the result. The result does not depend on how the reader splits its data into reads or whether reads are interrupted, and a reader error is reported as an error rather than replaced by default data.",
  ["inputs", "fault_sequences"], "all values, all cut points, all read fragmentations, interruptions and reader failures at every byte offset",
  "Tests decode only from complete in-memory slices.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types/currency.rs", S+"types/work.rs"],
  [("exact reads", S+"encoding/v2.rs"), ("currency reads", S+"types/currency.rs")],
  ["std::io::Read handed to decode/decode_v1"])

p("C07", "A failing or slow writer never panics or silently loses an encoding",
  "When the destination fails or fills up at any byte, encoding (binary, or to JSON or CBOR) returns an error: it never panics and never reports success, and the bytes delivered before the failure are a prefix of the true encoding. A writer that accepts only a few bytes at a time or is interrupted still receives exactly the full encoding, and a value the format cannot represent is refused with an error instead of being written as a different value.",
  ["fault_sequences", "inputs"], "a write failure at every byte offset of the encoding, short writes and interruptions of every size, and values outside the representable range (oversized thresholds, negative or oversized durations), for every encodable type",
  "Tests encode only into an infallible vector.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"consensus.rs", S+"types/spendpolicy.rs", S+"types/v1.rs", S+"types/v2.rs"],
  [("error propagation", S+"encoding/v2.rs"), ("timestamps of the chain state", S+"consensus.rs"), ("policy count byte", S+"types/spendpolicy.rs")],
  ["std::io::Write handed to encode/encode_v1/encode_no_sigs/encode_semantics"])

p("C08", "Decoders reject what the format forbids and never reinterpret it",
  "A boolean or option tag other than 0 or 1, an unknown policy type, policy version, transaction version or contract resolution type, a string that is not UTF-8, a v1 currency longer than 16 bytes, a siafund value beyond 64 bits, a timestamp or duration out of range, or an integer too large for its destination is rejected with an error. Whatever any decoder accepts re-encodes without error to bytes that decode to the same value again.",
  ["inputs"], "all encodings of valid values with one or more discriminants, tags, integers or lengths replaced, and all byte strings a decoder accepts",
  "Tests check accepted inputs only; rejection must hold for every invalid discriminant in every position.",
  [S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types/spendpolicy.rs", S+"types/v2.rs", S+"types/currency.rs", S+"types/common.rs"],
  [("boolean decoding", S+"encoding/v2.rs"), ("policy decoding", S+"types/spendpolicy.rs"), ("resolution decoding", S+"types/v2.rs"), ("integer decoding", S+"encoding/v1.rs")],
  ["decode", "decode_v1"])

p("C09", "JSON round-trips every value",
  "Every value that serializes to JSON (transactions of both versions, blocks, contracts, elements, policies, network parameters, chain state, currency, work, keys, identifiers) parses back to an equal value, through text and through an in-memory JSON document alike. Object key order does not matter, and fields that are omitted when empty come back empty.",
  ["inputs"], "all values of every JSON-serializable public type whose timestamps have a four-digit year",
  "Unit tests round-trip one or two literal values per type.",
  [S+"types/v1.rs", S+"types/v2.rs", S+"types/spendpolicy.rs", S+"types/common.rs", S+"types/utils.rs", S+"consensus.rs", S+"types/currency.rs", S+"types/work.rs", S+"signing.rs"],
  [("serde attributes", S+"types/v2.rs"), ("custom policy serializer", S+"types/spendpolicy.rs"), ("helper modules for base64, durations, timestamps", S+"types/utils.rs")],
  ["serde_json::to_string", "serde_json::to_value", "serde_json::from_str", "serde_json::from_value"])

p("C10", "JSON documents have exactly the Sia API shape",
  "For every value the JSON document equals the Sia API representation: protocol field names, empty lists omitted where the API omits them, currency and work as decimal strings, hashes, signatures and leaves as lowercase hex, addresses with checksum, keys with algorithm prefix, byte strings as standard base64, durations as integer nanoseconds, times as RFC 3339 (policy times as Unix seconds), policies and resolutions as tagged objects. Documents of that shape written by another implementation parse to that value.",
  ["inputs"], "all values of every JSON-serializable public type",
  "A self-round-trip passes with a misnamed field; golden strings fix a single value per type.",
  [S+"types/v1.rs", S+"types/v2.rs", S+"types/spendpolicy.rs", S+"types/common.rs", S+"types/utils.rs", S+"consensus.rs", S+"macros.rs"],
  [("serde renames and skips", S+"types/v1.rs"), ("custom serializers", S+"types/spendpolicy.rs"), ("helper modules", S+"types/utils.rs")],
  ["serde_json::to_value", "serde_json::from_value"])

p("C11", "JSON and text parsers survive arbitrary input and refuse malformed values",
  "Parsing any text as JSON of any type, or as a currency, address, identifier, key, unlock key, leaf, signature or mnemonic, returns a value or an error and never panics, overflows or aborts. A document with a wrong-length hash, bad checksum, bad hex or base64, missing prefix, negative, fractional or out-of-range number, missing required field, wrong tree count, too many timestamps, unknown policy or resolution tag is refused; and serializing or printing anything that was decoded or parsed never panics.",
  ["inputs"], "all texts and JSON documents, in particular valid ones with one element damaged, and all values obtained from binary input that are then printed or serialized",
  "Tests parse a few valid and two or three invalid strings.",
  [S+"types/currency.rs", S+"types/common.rs", S+"types/v1.rs", S+"types/v2.rs", S+"types/spendpolicy.rs", S+"types/specifier.rs", S+"types/utils.rs", S+"signing.rs", S+"seed.rs", S+"consensus.rs", S+"macros.rs"],
  [("length and checksum tests of the text parsers", S+"types/common.rs"), ("custom deserializers", S+"types/spendpolicy.rs"), ("duration range test", S+"types/utils.rs")],
  ["parse_string", "serde_json::from_str", "Display", "serde_json::to_string"])

p("C12", "Text forms of addresses, keys and identifiers are faithful and checksummed",
  "Every address, identifier, public key, signature, leaf, specifier-tagged unlock key and chain index prints in its canonical form (lowercase hex; address followed by its 6-byte checksum; keys prefixed by their algorithm), and that form parses back to the same value; upper-case hex is accepted too. An address whose text differs from a valid one in any hex digit is rejected, text of any other length is rejected, and the compile-time literal macros yield the same values as the run-time parsers.",
  ["inputs"], "all 32- and 64-byte values, all single- and multi-digit corruptions of address text, all text lengths",
  "Tests print and parse one constant per type; checksum coverage of every digit is a universal claim.",
  [S+"types/common.rs", S+"macros.rs", S+"signing.rs", S+"types/v1.rs", S+"types/specifier.rs"],
  [("address checksum", S+"types/common.rs"), ("identifier text", S+"macros.rs"), ("unlock key text", S+"types/v1.rs")],
  ["Display", "parse_string", "literal macros"])

p("C13", "Currency text is parsed exactly or refused",
  "A decimal amount with a unit (H, pS, nS, uS, mS, SC, KS, MS, GS, TS, or none for hastings) parses to exactly that many hastings whenever the amount is a whole number of hastings that fits 128 bits; hastings take no decimal point. Every other text (too precise, too large, several decimal points, missing digits, signs, unknown unit) is refused with an error: never rounded, wrapped or a panic; and decimal printing parses back to the same amount, also in JSON, where plain non-negative integers are accepted as hastings.",
  ["inputs"], "all strings; all amounts of 0 to 2^128-1 hastings in every unit and every number of decimals",
  "Tests try about twenty strings; overflow and precision limits depend on the combination of digits, decimals and unit.",
  [S+"types/currency.rs"],
  [("scaling by powers of ten", S+"types/currency.rs"), ("unit table", S+"types/currency.rs"), ("JSON visitor", S+"types/currency.rs")],
  ["Currency::parse_string", "serde_json::from_str::<Currency>", "Display"])

p("C14", "Currency arithmetic is exact and never wraps",
  "Addition, subtraction, multiplication, division, remainder, summation and conversion from whole siacoins return the exact mathematical result whenever it is a non-negative number below 2^128. Otherwise the checked operations return nothing and the plain operators panic, in release builds as well as debug builds; no operation ever yields a wrong amount. Comparison and conversion to 64 bits agree with the numeric value.",
  ["inputs", "configurations"], "all pairs of amounts, in builds with and without overflow checks",
  "Tests use small amounts and run only with overflow checks on.",
  [S+"types/currency.rs"],
  [("operator implementations", S+"types/currency.rs"), ("checked operations", S+"types/currency.rs")],
  ["Add/Sub/Mul/Div/Rem/Sum", "checked_*", "Currency::siacoins", "TryInto<u64>"])

p("C15", "Storage contract tax is exact for every payout, height and network",
  "The tax of a v1 contract is 3.9% of its payout, rounded down to a multiple of the siafund count; before the tax hardfork height the rate is the nearest double to 0.039 applied exactly, from that height on it is exactly 39/1000. The tax of a v2 contract is 4% of the sum of the renter and host outputs rounded down, then down to a multiple of the siafund count. No payout yields a wrong tax, an overflowing v2 sum panics rather than wraps.",
  ["inputs", "configurations"], "all payouts below 2^128, all heights around the hardfork, all networks",
  "Tests check a few payouts; floor and rounding errors appear only at particular residues and magnitudes.",
  [S+"types/v1.rs", S+"types/v2.rs", S+"consensus.rs"],
  [("rational pre-fork tax", S+"types/v1.rs"), ("v2 tax", S+"types/v2.rs"), ("siafund count", S+"consensus.rs")],
  ["FileContract::tax (v1, v2)"])

p("C16", "Height-dependent consensus parameters follow the network schedule",
  "For every chain height and network the child height is one more than the tip (the pre-genesis height 2^64-1 wraps to 0); the block reward falls by 1 SC per block from the initial to the minimum coinbase; the maturity height adds the maturity delay; the nonce factor is 1 before the ASIC hardfork's child height and 1009 from it. The Foundation subsidy is due exactly at the Foundation hardfork height and every month of blocks after it, paid to the chain's current primary Foundation address, worth 30,000 SC per block for a year of blocks the first time and a month of blocks each later time. The siafund count is always 10,000, the ancestor depth 1,000 and the maximum block weight 2,000,000, and the three built-in networks keep their published parameters.",
  ["inputs", "configurations"], "all 64-bit heights (with emphasis on hardfork boundaries), the built-in networks and arbitrary parameters",
  "No unit test evaluates any of these functions.",
  [S+"consensus.rs", S+"types/common.rs"],
  [("ChainState height functions", S+"consensus.rs"), ("network constants", S+"consensus.rs")],
  ["ChainState methods", "Network::{mainnet,zen,anagami}"])

p("C17", "v1 transaction IDs and output IDs commit to all content but signatures",
  "A v1 transaction's ID is the BLAKE2b-256 hash of its encoding without signatures, and the ID of its i-th siacoin output, siafund output or file contract is the hash of the matching specifier, that encoding and i. Changing any field other than the signatures changes every one of these IDs, changing signatures changes none.",
  ["inputs"], "all v1 transactions, all indices, all single-field modifications",
  "Tests compare a few fixed transactions; which fields are committed is a claim over all fields and values.",
  [S+"types/v1.rs"],
  [("encoding without signatures", S+"types/v1.rs"), ("child ID derivation", S+"types/v1.rs")],
  ["v1 Transaction::{id,siacoin_output_id,siafund_output_id,file_contract_id}"])

p("C18", "v2 transaction IDs commit to semantics and ignore witness data",
  "A v2 transaction's ID is the BLAKE2b-256 hash of its semantic encoding: spent output IDs, created outputs, contracts, revisions, resolutions with their payload, attestations, arbitrary data, new Foundation address and miner fee. Changing any of these changes the ID, while replacing satisfied policies, signatures on contracts, revisions or renewals, Merkle proofs of spent elements or the copied contents of parent elements never does.",
  ["inputs"], "all v2 transactions and all single-field modifications of them",
  "Tests compare fixed transactions to golden IDs; malleability is a claim about every field.",
  [S+"types/v2.rs"],
  [("semantic encodings", S+"types/v2.rs")],
  ["v2 Transaction::id"])

p("C19", "v1 signature hashes cover exactly the declared fields",
  "The whole-transaction signature hash is the hash of all non-signature content with each siacoin and siafund input preceded by the replay-protection prefix, followed by parent ID, key index and timelock. The partial signature hash covers exactly the elements selected by the covered fields, in the given order, each input preceded by the same prefix, and refuses any out-of-range index with an error; the prefix depends on the chain tip height (none, 0, 1, 2 as the ASIC, Foundation and v2 hardforks are reached).",
  ["inputs", "configurations"], "all transactions, all covered-field selections including repeated, reordered and out-of-range ones, all heights around the hardforks",
  "Tests check a few fixed vectors with empty or full coverage.",
  [S+"types/v1.rs", S+"consensus.rs"],
  [("whole and partial hashes", S+"types/v1.rs"), ("replay prefix", S+"consensus.rs")],
  ["Transaction::{whole_sig_hash,partial_sig_hash}"])

p("C20", "v2 signature hashes are domain-separated, replay-protected, witness-free",
  "Signature hashes of v2 inputs, contracts, renewals and attestations are the hash of a distinct domain prefix, the replay-protection prefix of the chain tip height, and the semantic content of the object with all its signatures blanked. Changing any covered field changes the hash; changing a signature inside a contract, a renewal or an attestation being signed does not; hashes for different purposes or on different sides of a replay hardfork never coincide.",
  ["inputs", "configurations"], "all v2 transactions, contracts, renewals and attestations, all heights around the hardforks",
  "Tests check one golden hash per kind at a single height.",
  [S+"types/v2.rs", S+"consensus.rs"],
  [("sig_hash functions", S+"types/v2.rs"), ("replay prefix", S+"consensus.rs")],
  ["input_sig_hash", "FileContract::sig_hash", "FileContractRenewal::sig_hash", "Attestation::sig_hash"])

p("C21", "Derived output and contract IDs follow the protocol derivations",
  "IDs derived from a block (miner payouts, Foundation subsidy), a v2 transaction (siacoin, siafund, contract, attestation), a siafund output (claim outputs, v1 and v2) and a file contract (valid and missed proof outputs, v2 renter and host outputs, v2 renewal) equal the protocol's hash of domain prefix, parent ID and index. Different kinds, parents and indices never share an ID.",
  ["inputs"], "all parent IDs and indices",
  "Tests fix a few IDs for one parent each, none for the v2 contract outputs and renewals.",
  [S+"types/common.rs"],
  [("domain prefixes", S+"types/common.rs")],
  ["derivation methods of BlockID, TransactionID, SiafundOutputID, FileContractID"])

p("C22", "A spend policy's address ignores how much of it is revealed",
  "The address of a policy is the hash of its versioned encoding with every sub-policy of a threshold replaced by the opaque policy of its address; opaque policies stand for their address and v1 unlock conditions keep their v1 address. Replacing any sub-policies at any depth by their opaque form leaves the address unchanged, and changing any committed content (a height, time, key, hash, required count, sub-policy, or the order or number of sub-policies) changes it.",
  ["inputs"], "all policy trees of up to the encodable size, all choices of sub-policies to hide, all single modifications",
  "Tests hash five fixed policies and hide sub-policies of three.",
  [S+"types/spendpolicy.rs"],
  [("address computation", S+"types/spendpolicy.rs")],
  ["SpendPolicy::address"])

p("C23", "Unlock-condition addresses are the Merkle root of timelock, keys, count",
  "The address of v1 unlock conditions is the root of the Sia Merkle tree whose leaves are the timelock, each public key in order and the number of required signatures, for any number of keys, any algorithm and any key length. Any change of timelock, key content, key order, key count or required signatures changes the address.",
  ["inputs"], "all unlock conditions, in particular any number of keys",
  "Tests cover only the single-key case, which never merges subtrees.",
  [S+"types/v1.rs", S+"merkle.rs"],
  [("Merkle accumulator", S+"merkle.rs"), ("leaf hashing", S+"types/v1.rs")],
  ["UnlockConditions::address"])

p("C24", "A sector's root is the Merkle root of all its segments on any schedule",
  "The root of a 4 MiB sector equals the root of the Sia Merkle tree over its 65,536 64-byte segments, each segment contributing at its own position. The result is the same for every number of worker threads, every scheduling and any number of simultaneous computations, and data of any other length is refused by a panic.",
  ["inputs", "schedules"], "all sector contents, including a change of any single byte; all thread-pool sizes and concurrent calls",
  "The only test is commented out and uses an all-zero sector, where every segment looks alike.",
  [S+"rhp.rs", S+"merkle.rs"],
  [("parallel leaf and node hashing", S+"rhp.rs")],
  ["rhp::sector_root"])

p("C25", "Signatures verify exactly when produced by the matching key over the hash",
  "Signing is deterministic Ed25519: for every key and hash the signature equals the RFC 8032 signature, and verifies under the matching public key. Verification decides as the Ed25519 equation does for every key, hash and signature, so any changed bit in hash, signature or key makes it fail; it returns false rather than panicking for keys that are not curve points, and conversions between key forms preserve the key.",
  ["inputs"], "all seeds, hashes, signatures and 32-byte public keys, including invalid points, non-canonical and small-order encodings and malleated scalars",
  "Tests sign one message with one key.",
  [S+"signing.rs"],
  [("sign and verify wrappers", S+"signing.rs")],
  ["PrivateKey::{from_seed,public_key,sign_hash}", "PublicKey::verify"])

p("C26", "Seed phrases and derived keys follow BIP-39 and the Sia derivation",
  "Every 16-byte seed converts to its 12-word English BIP-39 phrase and back to the same seed, and a phrase with a wrong word, wrong checksum or other length is refused. The key at index i is the Ed25519 key whose seed is BLAKE2b-256 of BLAKE2b-256(seed) followed by the 64-bit little-endian index, for every index, and distinct seeds or indices give distinct keys.",
  ["inputs"], "all 16-byte seeds, all 64-bit indices, all word substitutions and lengths",
  "Tests use a few phrases and indices.",
  [S+"seed.rs", S+"signing.rs"],
  [("mnemonic conversion", S+"seed.rs"), ("key derivation", S+"seed.rs")],
  ["Seed::{new,from_mnemonic,to_mnemonic,as_bytes,private_key}"])

p("C27", "Seeds and private keys are erased from memory when dropped",
  "After a seed or private key held on the heap (boxed, or inside a container) is dropped, whether normally, through clearing or replacing its container, or by unwinding, the memory it occupied no longer contains its secret bytes when that memory is released. This holds in optimized builds too.",
  ["inputs", "configurations", "histories"], "all key and seed values, all ways of dropping them, optimized and unoptimized builds",
  "Tests cannot observe freed memory, and a test build does not optimize the erasure away.",
  [S+"seed.rs", S+"signing.rs"],
  [("Drop implementations", S+"seed.rs"), ("Drop implementations", S+"signing.rs")],
  ["global allocator dealloc/realloc"])

p("C28", "Chain state and accumulator survive storage and reload",
  "Saving and reloading chain state, in binary or JSON, preserves the tip, exactly the timestamps that exist at that height, the difficulty and work values, the siafund pool, the Foundation addresses, the attestation count and every tree of the element accumulator at its own height. The accumulator stores one hash per set bit of its leaf count, in ascending height order, and a stored accumulator with any other number of trees is refused.",
  ["inputs", "histories"], "all chain heights including pre-genesis and the first eleven, all leaf counts, all tree and work values, repeated save/reload",
  "Tests reload two fixed states.",
  [S+"consensus.rs", S+"types/work.rs", S+"types/utils.rs"],
  [("state codec", S+"consensus.rs"), ("accumulator codec", S+"consensus.rs"), ("work codec", S+"types/work.rs")],
  ["State/ElementAccumulator/ChainState encode, decode, JSON"])

p("C29", "Results depend only on the arguments, under any history and concurrency",
  "Encoding, decoding, hashing, address and ID computation, signing, verifying, parsing and consensus functions are pure: repeating a call, interleaving it with any other calls, with failed or panicking calls, or running it simultaneously on many threads over shared values returns the same result each time, and no argument is modified by being read.",
  ["schedules", "histories"], "all interleavings of all public operations over shared values on many threads, all call histories",
  "Tests call each function once, on one thread, from a fresh process.",
  [S+"types/v1.rs", S+"types/v2.rs", S+"types/spendpolicy.rs", S+"rhp.rs", S+"merkle.rs", S+"signing.rs", S+"seed.rs", S+"consensus.rs"],
  [("absence of global or interior mutable state", S+"lib.rs"), ("per-call hash state", S+"types/v2.rs")],
  ["recorded call/return history of all public operations"])

p("C30", "No operation has undefined behaviour or corrupts memory",
  "No call through the safe public API, with any input including malformed bytes and text and with any number of threads, reads or writes outside allocated memory, uses freed or uninitialised memory, races on data, creates invalid values such as non-UTF-8 strings, or leaks an unbounded amount of memory per call.",
  ["inputs", "schedules"], "all inputs and interleavings the workloads of the other properties produce",
  "Tests run without sanitizers on benign inputs, where most memory errors leave no visible trace.",
  [S+"rhp.rs", S+"encoding/v1.rs", S+"encoding/v2.rs", S+"types/currency.rs", S+"signing.rs", S+"seed.rs", S+"merkle.rs"],
  [("absence of unsafe code, bounds-checked slicing", S+"rhp.rs")],
  ["AddressSanitizer and Miri reports", "allocation balance"])

p("C31", "Binary serde formats round-trip like JSON does",
  "Values serialized through a self-describing binary serde format (CBOR) deserialize to equal values, as they do through JSON.",
  ["inputs"], "all values of every serde-serializable public type",
  "No test uses a serde format other than JSON, although the code has a separate non-human-readable path.",
  [S+"macros.rs", S+"types/v1.rs", S+"types/spendpolicy.rs", S+"types/v2.rs"],
  [("non-human-readable branch of identifiers", S+"macros.rs"), ("unlock key serde", S+"types/v1.rs")],
  ["ciborium::into_writer", "ciborium::from_reader"])

p("C32", "Derived codecs treat every field of a struct exactly once and in order",
  "For any struct with public fields, tuple struct or unit struct, the derived v1 and v2 encoders write every field exactly once in declaration order using that field's own encoding, and the derived decoders read them back in the same order. An error in any field is returned, and nothing after it is written or read.",
  ["programs", "inputs", "fault_sequences"], "all struct shapes (named, tuple, unit; any number and type of fields) and all field values",
  "The derive macros have no tests of their own; only the shapes used inside the crate are exercised.",
  ["sia_derive/src/lib.rs"],
  [("four derive macros", "sia_derive/src/lib.rs")],
  ["SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode on structs declared in the harness"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
