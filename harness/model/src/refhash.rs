//! Reference hash commitments: Merkle trees, IDs, signature hashes, addresses.
use crate::blake::{blake2b256, concat256};
use crate::refenc::*;
use crate::val::*;

pub type H = [u8; 32];

pub fn leaf(data: &[u8]) -> H {
    concat256(&[&[0], data])
}
pub fn node(l: &H, r: &H) -> H {
    concat256(&[&[1], l, r])
}

/// Sia Merkle root: the left subtree holds the largest power of two smaller than the number of leaves.
pub fn merkle(leaves: &[H]) -> H {
    match leaves.len() {
        0 => [0; 32],
        1 => leaves[0],
        n => {
            let mut k = 1;
            while k * 2 < n {
                k *= 2;
            }
            node(&merkle(&leaves[..k]), &merkle(&leaves[k..]))
        }
    }
}

pub fn specifier(s: &str) -> [u8; 16] {
    let mut b = [0; 16];
    b[..s.len()].copy_from_slice(s.as_bytes());
    b
}

/// hash of "sia/<name>|" followed by the parts
pub fn tagged(name: &str, parts: &[&[u8]]) -> H {
    let mut v = format!("sia/{name}|").into_bytes();
    for p in parts {
        v.extend_from_slice(p);
    }
    blake2b256(&v)
}

pub fn uc_address(v: &Val) -> H {
    // timelock, public keys, signatures required
    let f = v.st();
    let mut l = vec![leaf(&f[0].u().to_le_bytes())];
    for k in f[1].list() {
        l.push(leaf(&bytes2(&Ty::UnlockKey, k)));
    }
    l.push(leaf(&f[2].u().to_le_bytes()));
    merkle(&l)
}

pub fn policy_address(v: &Val) -> H {
    let Val::En(k, x) = v else { panic!() };
    match k {
        5 => x.b32(),
        6 => uc_address(x),
        4 => {
            let s = x.st();
            let l = s[1].list();
            let mut b = vec![1u8, 5, s[0].u() as u8, l.len() as u8];
            for c in l {
                b.push(6);
                b.extend_from_slice(&policy_address(c));
            }
            tagged("address", &[&b])
        }
        _ => tagged("address", &[&bytes2(&Ty::Policy, v)]),
    }
}

/// chain parameters relevant for replay protection
#[derive(Clone, Debug)]
pub struct Heights {
    pub tip: u64,
    pub asic: u64,
    pub foundation: u64,
    pub v2: u64,
}

pub fn replay(h: &Heights) -> Vec<u8> {
    if h.tip >= h.v2 {
        vec![2]
    } else if h.tip >= h.foundation {
        vec![1]
    } else if h.tip >= h.asic {
        vec![0]
    } else {
        vec![]
    }
}

fn fld<'a>(d: &'static Def, v: &'a Val, n: &str) -> (&'static Ty, &'a Val) {
    let i = d.idx(n);
    (&d.fields[i].ty, &v.st()[i])
}
fn def(ty: &Ty) -> &'static Def {
    match ty {
        Ty::Struct(d) => d,
        Ty::List(t) => def(t),
        _ => panic!("not a struct: {ty:?}"),
    }
}

// ---- v1 transactions

pub fn v1_no_sigs(ty: &Ty, v: &Val) -> Vec<u8> {
    let d = def(ty);
    let mut o = Out::default();
    for (fd, x) in d.fields.iter().zip(v.st()) {
        if fd.name != "signatures" {
            enc1(&fd.ty, x, &mut o);
        }
    }
    o.buf
}

pub fn v1_id(ty: &Ty, v: &Val) -> H {
    blake2b256(&v1_no_sigs(ty, v))
}

pub fn v1_child(ty: &Ty, v: &Val, spec: &str, i: u64) -> H {
    concat256(&[&specifier(spec), &v1_no_sigs(ty, v), &i.to_le_bytes()])
}

pub fn v1_whole(ty: &Ty, v: &Val, h: &Heights, parent: &[u8], key: u64, timelock: u64) -> H {
    let d = def(ty);
    let mut o = Out::default();
    for (fd, x) in d.fields.iter().zip(v.st()) {
        match fd.name {
            "signatures" => {}
            "siacoin_inputs" | "siafund_inputs" => {
                let l = x.list();
                o.u64(l.len() as u64, Sp::Len);
                let Ty::List(t) = &fd.ty else { panic!() };
                for e in l {
                    o.put(&replay(h), Sp::Fixed);
                    enc1(t, e, &mut o);
                }
            }
            _ => enc1(&fd.ty, x, &mut o),
        }
    }
    o.put(parent, Sp::Fixed);
    o.u64(key, Sp::U64);
    o.u64(timelock, Sp::U64);
    blake2b256(&o.buf)
}

/// None when some index is out of range
pub fn v1_partial(ty: &Ty, v: &Val, h: &Heights, cov_ty: &Ty, cov: &Val) -> Option<H> {
    let d = def(ty);
    let mut o = Out::default();
    for n in [
        "siacoin_inputs", "siacoin_outputs", "file_contracts", "file_contract_revisions", "storage_proofs",
        "siafund_inputs", "siafund_outputs", "miner_fees", "arbitrary_data", "signatures",
    ] {
        let (t, x) = fld(d, v, n);
        let Ty::List(t) = t else { panic!() };
        let (_, idx) = fld(def(cov_ty), cov, n);
        for i in idx.list() {
            let i = i.u();
            let l = x.list();
            if i >= l.len() as u64 {
                return None;
            }
            if n == "siacoin_inputs" || n == "siafund_inputs" {
                o.put(&replay(h), Sp::Fixed);
            }
            enc1(t, &l[i as usize], &mut o);
        }
    }
    Some(blake2b256(&o.buf))
}

// ---- v2 transactions

/// contract with its signatures blanked
fn sem_contract(ty: &Ty, v: &Val, o: &mut Out) {
    let d = def(ty);
    for (fd, x) in d.fields.iter().zip(v.st()) {
        if fd.name.ends_with("_signature") {
            o.put(&[0; 64], Sp::Fixed);
        } else {
            enc2(&fd.ty, x, o);
        }
    }
}

fn sem_renewal(ty: &Ty, v: &Val, o: &mut Out) {
    let d = def(ty);
    for (fd, x) in d.fields.iter().zip(v.st()) {
        match fd.name {
            "final_revision" | "new_contract" => sem_contract(&fd.ty, x, o),
            n if n.ends_with("_signature") => o.put(&[0; 64], Sp::Fixed),
            _ => enc2(&fd.ty, x, o),
        }
    }
}

fn sem_proof(ty: &Ty, v: &Val, o: &mut Out) {
    let d = def(ty);
    let (pt, p) = fld(d, v, "proof_index");
    let pd = def(pt);
    let (st, s) = fld(pd, p, "state_element");
    let (_, li) = fld(def(st), s, "leaf_index");
    o.u64(li.u(), Sp::U64);
    o.u64(0, Sp::Len); // no Merkle proof
    for n in ["id", "chain_index"] {
        let (t, x) = fld(pd, p, n);
        enc2(t, x, o);
    }
    for n in ["leaf", "proof"] {
        let (t, x) = fld(d, v, n);
        enc2(t, x, o);
    }
}

/// semantic encoding of a chain index element
pub fn sem_chain_index_element(ty: &Ty, p: &Val) -> Vec<u8> {
    let mut o = Out::default();
    let pd = def(ty);
    let (st, s) = fld(pd, p, "state_element");
    let (_, li) = fld(def(st), s, "leaf_index");
    o.u64(li.u(), Sp::U64);
    o.u64(0, Sp::Len);
    for n in ["id", "chain_index"] {
        let (t, x) = fld(pd, p, n);
        enc2(t, x, &mut o);
    }
    o.buf
}

fn parent_id(ty: &Ty, v: &Val, o: &mut Out) {
    let (pt, p) = fld(def(ty), v, "parent");
    let (it, i) = fld(def(pt), p, "id");
    enc2(it, i, o);
}

pub fn v2_semantics(ty: &Ty, v: &Val) -> Vec<u8> {
    let d = def(ty);
    let mut o = Out::default();
    let o = &mut o;
    for (fd, x) in d.fields.iter().zip(v.st()) {
        if let (Ty::List(t), Val::List(l)) = (&fd.ty, x) {
            o.u64(l.len() as u64, Sp::Len);
            for e in l {
                match fd.name {
                    "siacoin_inputs" | "siafund_inputs" => parent_id(t, e, o),
                    "siacoin_outputs" | "siafund_outputs" | "attestations" => enc2(t, e, o),
                    "file_contracts" => sem_contract(t, e, o),
                    "file_contract_revisions" => {
                        parent_id(t, e, o);
                        let (ct, c) = fld(def(t), e, "revision");
                        sem_contract(ct, c, o);
                    }
                    "file_contract_resolutions" => {
                        parent_id(t, e, o);
                        let (rt, r) = fld(def(t), e, "resolution");
                        let (Ty::Resolution(a, b), Val::En(k, y)) = (rt, r) else { panic!() };
                        match k {
                            0 => sem_renewal(&Ty::Struct(a), y, o),
                            1 => sem_proof(&Ty::Struct(b), y, o),
                            _ => {}
                        }
                    }
                    n => panic!("unknown list {n}"),
                }
            }
        } else {
            // arbitrary data, new foundation address, miner fee
            enc2(&fd.ty, x, o);
        }
    }
    std::mem::take(&mut o.buf)
}

pub fn v2_id(ty: &Ty, v: &Val) -> H {
    blake2b256(&v2_semantics(ty, v))
}
pub fn v2_input_sig(ty: &Ty, v: &Val, h: &Heights) -> H {
    tagged("sig/input", &[&replay(h), &v2_semantics(ty, v)])
}
pub fn contract_sig(ty: &Ty, v: &Val, h: &Heights) -> H {
    let mut o = Out::default();
    sem_contract(ty, v, &mut o);
    tagged("sig/filecontract", &[&replay(h), &o.buf])
}
pub fn renewal_sig(ty: &Ty, v: &Val, h: &Heights) -> H {
    let mut o = Out::default();
    sem_renewal(ty, v, &mut o);
    tagged("sig/filecontractrenewal", &[&replay(h), &o.buf])
}
pub fn attestation_sig(ty: &Ty, v: &Val, h: &Heights) -> H {
    let d = def(ty);
    let mut o = Out::default();
    for (fd, x) in d.fields.iter().zip(v.st()) {
        if fd.name == "signature" {
            o.put(&[0; 64], Sp::Fixed);
        } else {
            enc2(&fd.ty, x, &mut o);
        }
    }
    tagged("sig/attestation", &[&replay(h), &o.buf])
}
