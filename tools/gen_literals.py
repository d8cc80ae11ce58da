#!/usr/bin/env python3
"""Writes harness/src/props/literals.rs and literals_bad.rs: literals that together contain every hex digit at every
position, and literals that must be refused."""
import hashlib
D = "0123456789abcdefABCDEF"
out = ["// generated by tools/gen_literals.py\n#![cfg_attr(not(feature = \"goodlit\"), allow(unused_imports))]\n", "use sia::signing::PublicKey;\nuse sia::types::*;\n\n"]
lits = ["".join(D[(p * 7 + k) % 22] for p in range(64)) for k in range(22)]
def addr(s, k):
    b = hashlib.blake2b(bytes.fromhex(s), digest_size=32).hexdigest()[:12]
    return s + "".join(c.upper() if (i + k) % 3 == 0 else c for i, c in enumerate(b))
kinds = [("address", "Address", addr), ("hash_256", "Hash256", None), ("siacoin_id", "SiacoinOutputID", None),
         ("siafund_id", "SiafundOutputID", None), ("contract_id", "FileContractID", None),
         ("transaction_id", "TransactionID", None), ("block_id", "BlockID", None)]
out.append("#[cfg(not(feature = \"goodlit\"))]\npub fn good() -> Vec<(&'static str, &'static str, Vec<u8>, Vec<u8>)> {\n    vec![]\n}\n\n#[cfg(feature = \"goodlit\")]\npub fn good() -> Vec<(&'static str, &'static str, Vec<u8>, Vec<u8>)> {\n    let mut v = vec![];\n")
for m, t, f in kinds:
    for k, s in enumerate(lits):
        x = f(s, k) if f else s
        out.append(f'    const {m.upper()}_{k}: {t} = sia::{m}!("{x}");\n')
        ref = f'AsRef::<[u8]>::as_ref(&{m.upper()}_{k}).to_vec()'
        out.append(f'    v.push(("{m}", "{x}", {ref}, {t}::parse_string("{x}").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));\n')
for k, s in enumerate(lits):
    x = "ed25519:" + s
    out.append(f'    const PK_{k}: PublicKey = sia::public_key!("{x}");\n')
    out.append(f'    v.push(("public_key", "{x}", PK_{k}.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("{x}")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));\n')
out.append("    v\n}\n")
DIR = __file__.rsplit("/", 2)[0] + "/harness/src/props/"
open(DIR + "literals.rs", "w").write("".join(out))
out = ["// generated by tools/gen_literals.py\n"]
out.append("#[cfg(not(feature = \"badlit\"))]\npub fn bad() -> Vec<(&'static str, &'static str, fn() -> Vec<u8>)> {\n    vec![]\n}\n\n#[cfg(feature = \"badlit\")]\npub fn bad() -> Vec<(&'static str, &'static str, fn() -> Vec<u8>)> {\n    let mut v: Vec<(&'static str, &'static str, fn() -> Vec<u8>)> = vec![];\n")
base = "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c"
BAD = "gG/:@`{[ -+xz~!"
def push(m, x, conv):
    out.append(f'    v.push(("{m}", "{x}", || {conv.format(lit=x)}));\n')
for p in range(64):
    c = BAD[p % len(BAD)]
    push("hash_256", base[:p] + c + base[p + 1:], 'AsRef::<[u8]>::as_ref(&sia::hash_256!("{lit}")).to_vec()')
for i, (m, t, f) in enumerate(kinds):
    a = addr(base, 0) if f else base
    conv = 'AsRef::<[u8]>::as_ref(&sia::%s!("{lit}")).to_vec()' % m
    for p in (0, 1, 31, 62, 63):
        push(m, a[:p] + "g" + a[p + 1:], conv)
    for x in (a[:-1], a + "0", "", a[:-2], a + "00", a + a):
        push(m, x, conv)
pk = "ed25519:" + base
conv = 'sia::public_key!("{lit}").as_ref().to_vec()'
for x in (pk[:-1], pk + "0", "", base, "fd25519:" + base, "ed25519;" + base, "Ed25519:" + base, "ed25518:" + base, "ed2551 :" + base,
          pk[:8] + "g" + pk[9:], pk[:-1] + "g", pk[:40] + "x" + pk[41:], "entropy:" + base, " " * 8 + base):
    push("public_key", x, conv)
out.append("    v\n}\n")
open(DIR + "literals_bad.rs", "w").write("".join(out))
