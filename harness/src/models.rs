//! Binding between the value trees of the specification and the types of the crate under test.
//! Field lists are written in protocol order from the Sia specification, not derived from the crate.
#![allow(deprecated)]
use model::val::*;
use sia::consensus::*;
use sia::encoding::{self, SiaDecodable, SiaEncodable, V1SiaDecodable, V1SiaEncodable};
use sia::signing::{PublicKey, Signature};
use sia::types::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::{Mutex, OnceLock};
use time::{Duration, OffsetDateTime};

pub trait M: Sized {
    fn ty() -> Ty;
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
    /// become another value, keeping addresses and allocations where possible
    fn put(&mut self, v: &Val) {
        *self = Self::from_val(v)
    }
}

fn ty_of<S, T: M>(_: fn(&S) -> &T) -> Ty {
    T::ty()
}

fn intern(name: &'static str, mk: impl FnOnce() -> Def) -> &'static Def {
    static T: OnceLock<Mutex<HashMap<&'static str, &'static Def>>> = OnceLock::new();
    let m = T.get_or_init(|| Mutex::new(HashMap::new()));
    if let Some(d) = m.lock().unwrap().get(name) {
        return d;
    }
    let d: &'static Def = Box::leak(Box::new(mk()));
    m.lock().unwrap().entry(name).or_insert(d)
}

macro_rules! skip {
    () => { Skip::Never };
    (skip) => { Skip::Empty };
}

macro_rules! model {
    ($t:ty, $kind:ident, $name:literal, { $($f:ident : $j:literal $($s:ident)? ),* $(,)? }) => {
        impl M for $t {
            fn ty() -> Ty {
                Ty::Struct(intern($name, || Def { name: $name, kind: Kind::$kind, fields: vec![
                    $( Field { name: stringify!($f), json: $j, ty: ty_of(|s: &$t| &s.$f), skip: skip!($($s)?) } ),*
                ]}))
            }
            fn from_val(v: &Val) -> Self {
                let mut it = v.st().iter();
                $( let $f = M::from_val(it.next().unwrap()); )*
                Self { $($f),* }
            }
            fn to_val(&self) -> Val {
                Val::St(vec![ $( self.$f.to_val() ),* ])
            }
            fn put(&mut self, v: &Val) {
                let mut it = v.st().iter();
                $( self.$f.put(it.next().unwrap()); )*
            }
        }
    };
}

macro_rules! ints {
    ($($t:ty: $b:literal $s:literal),*) => { $(
        impl M for $t {
            fn ty() -> Ty { Ty::Int($b, $s) }
            fn from_val(v: &Val) -> Self { v.u() as $t }
            fn to_val(&self) -> Val { Val::U(*self as i128 as u64) }
        }
    )* };
}
ints!(u64: 64 false, usize: 64 false, i64: 64 true, u16: 16 false, u32: 32 false, i16: 16 true, i32: 32 true);

impl M for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn from_val(v: &Val) -> Self {
        matches!(v, Val::Bool(true))
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl M for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Str(s) => s.clone(),
            _ => panic!(),
        }
    }
    fn to_val(&self) -> Val {
        // a String must be UTF-8: compare through the checked path
        assert!(std::str::from_utf8(self.as_bytes()).is_ok(), "MONITOR: String is not UTF-8");
        Val::Str(self.clone())
    }
}
impl M for Vec<u8> {
    fn ty() -> Ty {
        Ty::Blob
    }
    fn from_val(v: &Val) -> Self {
        v.b().to_vec()
    }
    fn to_val(&self) -> Val {
        Val::Blob(self.clone())
    }
    fn put(&mut self, v: &Val) {
        self.clear();
        self.extend_from_slice(v.b());
    }
}
impl<T: M> M for Vec<T> {
    fn ty() -> Ty {
        Ty::List(Box::new(T::ty()))
    }
    fn from_val(v: &Val) -> Self {
        v.list().iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(|x| x.to_val()).collect())
    }
    fn put(&mut self, v: &Val) {
        let l = v.list();
        self.truncate(l.len());
        for (i, x) in l.iter().enumerate() {
            match self.get_mut(i) {
                Some(t) => t.put(x),
                None => self.push(T::from_val(x)),
            }
        }
    }
}
impl<T: M> M for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(Box::new(T::ty()))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|x| T::from_val(x)),
            _ => panic!(),
        }
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
    fn put(&mut self, v: &Val) {
        match (&mut *self, v) {
            (Some(t), Val::Opt(Some(x))) => t.put(x),
            _ => *self = Self::from_val(v),
        }
    }
}
impl<const N: usize> M for [u8; N] {
    fn ty() -> Ty {
        Ty::Fix(N, FixJson::Array)
    }
    fn from_val(v: &Val) -> Self {
        v.b().try_into().unwrap()
    }
    fn to_val(&self) -> Val {
        Val::B(self.to_vec())
    }
}
impl M for Currency {
    fn ty() -> Ty {
        Ty::Cur
    }
    fn from_val(v: &Val) -> Self {
        Currency::new(v.cur())
    }
    fn to_val(&self) -> Val {
        Val::Cur(**self)
    }
}
impl M for OffsetDateTime {
    fn ty() -> Ty {
        Ty::Time
    }
    fn from_val(v: &Val) -> Self {
        let (t, n) = v.time();
        OffsetDateTime::from_unix_timestamp(t).unwrap() + Duration::nanoseconds(n as i64)
    }
    fn to_val(&self) -> Val {
        Val::Time(self.unix_timestamp(), self.nanosecond())
    }
}
impl M for Duration {
    fn ty() -> Ty {
        Ty::Dur
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Dur(d) => Duration::nanoseconds(*d),
            _ => panic!(),
        }
    }
    fn to_val(&self) -> Val {
        let n = self.whole_nanoseconds();
        match i64::try_from(n) {
            Ok(n) => Val::Dur(n),
            Err(_) => Val::Str(format!("duration {n}")),
        }
    }
}
impl M for Work {
    fn ty() -> Ty {
        Ty::Work
    }
    fn from_val(v: &Val) -> Self {
        let mut limbs = [0u64; 4];
        for (i, c) in v.b().rchunks(8).enumerate() {
            limbs[i] = u64::from_be_bytes(c.try_into().unwrap());
        }
        Work(limbs)
    }
    fn to_val(&self) -> Val {
        let mut b = vec![];
        for l in self.0.iter().rev() {
            b.extend_from_slice(&l.to_be_bytes());
        }
        Val::B(b)
    }
}

macro_rules! fixed {
    ($($t:ty: $n:literal $k:ident, $new:expr, $get:expr);* $(;)?) => { $(
        impl M for $t {
            fn ty() -> Ty { Ty::Fix($n, FixJson::$k) }
            fn from_val(v: &Val) -> Self { let a: [u8; $n] = v.b().try_into().unwrap(); ($new)(a) }
            fn to_val(&self) -> Val { let g: fn(&$t) -> Vec<u8> = $get; Val::B(g(self)) }
        }
    )* };
}
fn b32<T: AsRef<[u8; 32]>>(t: &T) -> Vec<u8> {
    t.as_ref().to_vec()
}
fixed! {
    Hash256: 32 Hex, Hash256::new, b32;
    SiacoinOutputID: 32 Hex, SiacoinOutputID::new, b32;
    SiafundOutputID: 32 Hex, SiafundOutputID::new, b32;
    AttestationID: 32 Hex, AttestationID::new, b32;
    BlockID: 32 Hex, BlockID::new, b32;
    TransactionID: 32 Hex, TransactionID::new, b32;
    FileContractID: 32 Hex, FileContractID::new, b32;
    Address: 32 Address, Address::new, |a| a.as_ref().to_vec();
    PublicKey: 32 PubKey, PublicKey::new, |a| a.as_ref().to_vec();
    Signature: 64 Hex, Signature::new, |a| a.data().to_vec();
    Leaf: 64 Hex, Leaf::from, leaf_bytes;
    Specifier: 16 Array, Specifier::new, |a| a.as_bytes().to_vec();
}
fn leaf_bytes(l: &Leaf) -> Vec<u8> {
    // the bytes of a leaf are private: read them through its text form
    hex::decode(l.to_string()).unwrap()
}

impl M for v1::UnlockKey {
    fn ty() -> Ty {
        Ty::UnlockKey
    }
    fn from_val(v: &Val) -> Self {
        let f = v.st();
        v1::UnlockKey { algorithm: M::from_val(&f[0]), key: M::from_val(&f[1]) }
    }
    fn to_val(&self) -> Val {
        Val::St(vec![self.algorithm.to_val(), self.key.to_val()])
    }
}

impl M for v2::SpendPolicy {
    fn ty() -> Ty {
        Ty::Policy
    }
    fn from_val(v: &Val) -> Self {
        use v2::SpendPolicy::*;
        let Val::En(k, x) = v else { panic!() };
        match k {
            0 => Above(x.u()),
            1 => After(M::from_val(x)),
            2 => PublicKey(M::from_val(x)),
            3 => Hash(M::from_val(x)),
            4 => {
                let s = x.st();
                Threshold(s[0].u() as u8, M::from_val(&s[1]))
            }
            5 => Opaque(M::from_val(x)),
            _ => UnlockConditions(M::from_val(x)),
        }
    }
    fn to_val(&self) -> Val {
        use v2::SpendPolicy::*;
        let (k, x) = match self {
            Above(h) => (0, Val::U(*h)),
            After(t) => (1, t.to_val()),
            PublicKey(p) => (2, p.to_val()),
            Hash(h) => (3, h.to_val()),
            Threshold(n, of) => (4, Val::St(vec![Val::U(*n as u64), of.to_val()])),
            Opaque(a) => (5, a.to_val()),
            UnlockConditions(u) => (6, u.to_val()),
        };
        Val::En(k, Box::new(x))
    }
    fn put(&mut self, v: &Val) {
        use v2::SpendPolicy::*;
        let Val::En(k, x) = v else { panic!() };
        match (&mut *self, k) {
            (Threshold(n, of), 4) => {
                let s = x.st();
                *n = s[0].u() as u8;
                of.put(&s[1]);
            }
            (UnlockConditions(u), 6) => u.put(x),
            _ => *self = Self::from_val(v),
        }
    }
}

impl M for v2::ContractResolution {
    fn ty() -> Ty {
        let (Ty::Struct(a), Ty::Struct(b)) = (v2::FileContractRenewal::ty(), v2::StorageProof::ty()) else { panic!() };
        Ty::Resolution(a, b)
    }
    fn from_val(v: &Val) -> Self {
        let Val::En(k, x) = v else { panic!() };
        match k {
            0 => v2::ContractResolution::Renewal(M::from_val(x)),
            1 => v2::ContractResolution::StorageProof(M::from_val(x)),
            _ => v2::ContractResolution::Expiration(),
        }
    }
    fn to_val(&self) -> Val {
        let (k, x) = match self {
            v2::ContractResolution::Renewal(r) => (0, r.to_val()),
            v2::ContractResolution::StorageProof(p) => (1, p.to_val()),
            v2::ContractResolution::Expiration() => (2, Val::St(vec![])),
        };
        Val::En(k, Box::new(x))
    }
}

impl M for [OffsetDateTime; 11] {
    fn ty() -> Ty {
        Ty::PrevTs
    }
    fn from_val(v: &Val) -> Self {
        let l: Vec<OffsetDateTime> = M::from_val(v);
        l.try_into().unwrap()
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(|x| x.to_val()).collect())
    }
}

impl M for ElementAccumulator {
    fn ty() -> Ty {
        Ty::Acc
    }
    fn from_val(v: &Val) -> Self {
        let f = v.st();
        let n = f[0].u();
        let mut trees = [Hash256::default(); 64];
        let mut it = f[1].list().iter();
        for (i, t) in trees.iter_mut().enumerate() {
            if n >> i & 1 == 1 {
                *t = M::from_val(it.next().unwrap());
            }
        }
        ElementAccumulator { num_leaves: n, trees }
    }
    fn to_val(&self) -> Val {
        let mut l = vec![];
        let mut extra = vec![];
        for (i, t) in self.trees.iter().enumerate() {
            if self.num_leaves >> i & 1 == 1 {
                l.push(t.to_val());
            } else if *<Hash256 as AsRef<[u8; 32]>>::as_ref(t) != [0u8; 32] {
                extra.push(Val::U(i as u64));
            }
        }
        let mut s = vec![Val::U(self.num_leaves), Val::List(l)];
        if !extra.is_empty() {
            s.push(Val::List(extra)); // trees where none should be
        }
        Val::St(s)
    }
}

model!(ChainIndex, Plain, "ChainIndex", { height: "height", id: "id" });
model!(StateElement, Plain, "StateElement", { leaf_index: "leafIndex", merkle_proof: "merkleProof" });
model!(SiacoinOutput, Plain, "SiacoinOutput", { value: "value", address: "address" });
model!(SiafundOutput, SiafundOutput, "SiafundOutput", { value: "value", address: "address" });
model!(Block, Plain, "Block", {
    parent_id: "parentID", nonce: "nonce", timestamp: "timestamp", miner_payouts: "minerPayouts", transactions: "transactions",
});

// v1
model!(v1::UnlockConditions, Plain, "UnlockConditions", {
    timelock: "timelock", public_keys: "publicKeys", signatures_required: "signaturesRequired",
});
model!(v1::SiacoinInput, Plain, "v1.SiacoinInput", { parent_id: "parentID", unlock_conditions: "unlockConditions" });
model!(v1::SiafundInput, Plain, "v1.SiafundInput", {
    parent_id: "parentID", unlock_conditions: "unlockConditions", claim_address: "claimAddress",
});
model!(v1::FileContract, Plain, "v1.FileContract", {
    file_size: "filesize", file_merkle_root: "fileMerkleRoot", window_start: "windowStart", window_end: "windowEnd",
    payout: "payout", valid_proof_outputs: "validProofOutputs", missed_proof_outputs: "missedProofOutputs",
    unlock_hash: "unlockHash", revision_number: "revisionNumber",
});
model!(v1::FileContractRevision, Plain, "v1.FileContractRevision", {
    parent_id: "parentID", unlock_conditions: "unlockConditions", revision_number: "revisionNumber",
    file_size: "filesize", file_merkle_root: "fileMerkleRoot", window_start: "windowStart", window_end: "windowEnd",
    valid_proof_outputs: "validProofOutputs", missed_proof_outputs: "missedProofOutputs", unlock_hash: "unlockHash",
});
model!(v1::StorageProof, Plain, "v1.StorageProof", { parent_id: "parentID", leaf: "leaf", proof: "proof" });
model!(v1::CoveredFields, Plain, "v1.CoveredFields", {
    whole_transaction: "wholeTransaction", siacoin_inputs: "siacoinInputs" skip, siacoin_outputs: "siacoinOutputs" skip,
    file_contracts: "fileContracts" skip, file_contract_revisions: "fileContractRevisions" skip,
    storage_proofs: "storageProofs" skip, siafund_inputs: "siafundInputs" skip, siafund_outputs: "siafundOutputs" skip,
    miner_fees: "minerFees" skip, arbitrary_data: "arbitraryData" skip, signatures: "signatures" skip,
});
model!(v1::TransactionSignature, Plain, "v1.TransactionSignature", {
    parent_id: "parentID", public_key_index: "publicKeyIndex", timelock: "timelock", covered_fields: "coveredFields",
    signature: "signature",
});
model!(v1::Transaction, Plain, "v1.Transaction", {
    siacoin_inputs: "siacoinInputs" skip, siacoin_outputs: "siacoinOutputs" skip, file_contracts: "fileContracts" skip,
    file_contract_revisions: "fileContractRevisions" skip, storage_proofs: "storageProofs" skip,
    siafund_inputs: "siafundInputs" skip, siafund_outputs: "siafundOutputs" skip, miner_fees: "minerFees" skip,
    arbitrary_data: "arbitraryData" skip, signatures: "signatures" skip,
});

// v2
model!(v2::SatisfiedPolicy, Plain, "SatisfiedPolicy", { policy: "policy", signatures: "signatures" skip, preimages: "preimages" skip });
model!(v2::Attestation, Plain, "Attestation", { public_key: "publicKey", key: "key", value: "value", signature: "signature" });
model!(v2::FileContract, Plain, "v2.FileContract", {
    capacity: "capacity", filesize: "filesize", file_merkle_root: "fileMerkleRoot", proof_height: "proofHeight",
    expiration_height: "expirationHeight", renter_output: "renterOutput", host_output: "hostOutput",
    missed_host_value: "missedHostValue", total_collateral: "totalCollateral", renter_public_key: "renterPublicKey",
    host_public_key: "hostPublicKey", revision_number: "revisionNumber", renter_signature: "renterSignature",
    host_signature: "hostSignature",
});
model!(v2::SiacoinElement, Plain, "SiacoinElement", {
    state_element: "stateElement", id: "id", siacoin_output: "siacoinOutput", maturity_height: "maturityHeight",
});
model!(v2::SiafundElement, Plain, "SiafundElement", {
    state_element: "stateElement", id: "id", siafund_output: "siafundOutput", claim_start: "claimStart",
});
model!(v2::FileContractElement, Plain, "v2.FileContractElement", {
    state_element: "stateElement", id: "id", v2_file_contract: "v2FileContract",
});
model!(v2::ChainIndexElement, Plain, "ChainIndexElement", { state_element: "stateElement", id: "id", chain_index: "chainIndex" });
model!(v2::SiacoinInput, Plain, "v2.SiacoinInput", { parent: "parent", satisfied_policy: "satisfiedPolicy" });
model!(v2::SiafundInput, Plain, "v2.SiafundInput", {
    parent: "parent", claim_address: "claimAddress", satisfied_policy: "satisfiedPolicy",
});
model!(v2::FileContractRevision, Plain, "v2.FileContractRevision", { parent: "parent", revision: "revision" });
model!(v2::FileContractRenewal, Plain, "v2.FileContractRenewal", {
    final_revision: "finalRevision", new_contract: "newContract", renter_rollover: "renterRollover",
    host_rollover: "hostRollover", renter_signature: "renterSignature", host_signature: "hostSignature",
});
model!(v2::StorageProof, Plain, "v2.StorageProof", { proof_index: "proofIndex", leaf: "leaf", proof: "proof" });
model!(v2::FileContractResolution, Resolution, "v2.FileContractResolution", { parent: "parent", resolution: "resolution" });
model!(v2::Transaction, V2Txn, "v2.Transaction", {
    siacoin_inputs: "siacoinInputs" skip, siacoin_outputs: "siacoinOutputs" skip, siafund_inputs: "siafundInputs" skip,
    siafund_outputs: "siafundOutputs" skip, file_contracts: "fileContracts" skip,
    file_contract_revisions: "fileContractRevisions" skip, file_contract_resolutions: "fileContractResolutions" skip,
    attestations: "attestations" skip, arbitrary_data: "arbitraryData" skip,
    new_foundation_address: "newFoundationAddress" skip, miner_fee: "minerFee",
});

// consensus
model!(HardforkDevAddr, Plain, "HardforkDevAddr", { height: "height", old_address: "oldAddress", new_address: "newAddress" });
model!(HardforkTax, Plain, "HardforkTax", { height: "height" });
model!(HardforkStorageProof, Plain, "HardforkStorageProof", { height: "height" });
model!(HardforkOak, Plain, "HardforkOak", { height: "height", fix_height: "fixHeight", genesis_timestamp: "genesisTimestamp" });
model!(HardforkASIC, Plain, "HardforkASIC", { height: "height", oak_time: "oakTime", oak_target: "oakTarget" });
model!(HardforkFoundation, Plain, "HardforkFoundation", {
    height: "height", primary_address: "primaryAddress", failsafe_address: "failsafeAddress",
});
model!(HardforkV2, Plain, "HardforkV2", { allow_height: "allowHeight", require_height: "requireHeight" });
model!(Network, Plain, "Network", {
    name: "name", initial_coinbase: "initialCoinbase", minimum_coinbase: "minimumCoinbase", initial_target: "initialTarget",
    block_interval: "blockInterval", maturity_delay: "maturityDelay", hardfork_dev_addr: "hardforkDevAddr",
    hardfork_tax: "hardforkTax", hardfork_storage_proof: "hardforkStorageProof", hardfork_oak: "hardforkOak",
    hardfork_asic: "hardforkASIC", hardfork_foundation: "hardforkFoundation", hardfork_v2: "hardforkV2",
});
model!(State, State, "State", {
    index: "index", prev_timestamps: "prevTimestamps", depth: "depth", child_target: "childTarget",
    siafund_pool: "siafundPool", oak_time: "oakTime", oak_target: "oakTarget",
    foundation_primary_address: "foundationPrimaryAddress", foundation_failsafe_address: "foundationFailsafeAddress",
    total_work: "totalWork", difficulty: "difficulty", oak_work: "oakWork", elements: "elements", attestations: "attestations",
});
model!(ChainState, Plain, "ChainState", { network: "network", state: "state" });

/// u8 has a codec but cannot implement `M` (byte strings are special); wrap it.
#[derive(Debug, PartialEq, Clone)]
pub struct Byte(pub u8);
impl M for Byte {
    fn ty() -> Ty {
        Ty::U8
    }
    fn from_val(v: &Val) -> Self {
        Byte(v.u() as u8)
    }
    fn to_val(&self) -> Val {
        Val::U(self.0 as u64)
    }
}
impl SiaEncodable for Byte {
    fn encode<W: Write>(&self, w: &mut W) -> encoding::Result<()> {
        self.0.encode(w)
    }
}
impl SiaDecodable for Byte {
    fn decode<R: Read>(r: &mut R) -> encoding::Result<Self> {
        Ok(Byte(u8::decode(r)?))
    }
}
impl V1SiaEncodable for Byte {
    fn encode_v1<W: Write>(&self, w: &mut W) -> encoding::Result<()> {
        self.0.encode_v1(w)
    }
}
impl V1SiaDecodable for Byte {
    fn decode_v1<R: Read>(r: &mut R) -> encoding::Result<Self> {
        Ok(Byte(u8::decode_v1(r)?))
    }
}
/// A slice encodes like a list; decoding goes through Vec.
#[derive(Debug, PartialEq)]
pub struct Slice(pub Vec<Hash256>);
impl M for Slice {
    fn ty() -> Ty {
        Vec::<Hash256>::ty()
    }
    fn from_val(v: &Val) -> Self {
        Slice(M::from_val(v))
    }
    fn to_val(&self) -> Val {
        self.0.to_val()
    }
}
impl SiaEncodable for Slice {
    fn encode<W: Write>(&self, w: &mut W) -> encoding::Result<()> {
        self.0[..].encode(w)
    }
}
impl SiaDecodable for Slice {
    fn decode<R: Read>(r: &mut R) -> encoding::Result<Self> {
        Ok(Slice(Vec::decode(r)?))
    }
}
impl V1SiaEncodable for Slice {
    fn encode_v1<W: Write>(&self, w: &mut W) -> encoding::Result<()> {
        self.0[..].encode_v1(w)
    }
}
impl V1SiaDecodable for Slice {
    fn decode_v1<R: Read>(r: &mut R) -> encoding::Result<Self> {
        Ok(Slice(Vec::decode_v1(r)?))
    }
}

// ---------------------------------------------------------------------------------------------
// Dynamic dispatch over all types

pub type EResult<T> = encoding::Result<T>;

/// A value of the crate under test, with every operation that exists for its type.
pub trait Dyn: Send + Sync {
    fn to_val(&self) -> Val;
    fn enc2(&self, w: &mut dyn Write) -> EResult<()>;
    fn enc1(&self, w: &mut dyn Write) -> EResult<()>;
    fn json_text(&self) -> Result<String, String>;
    fn json_value(&self) -> Result<serde_json::Value, String>;
    fn cbor(&self) -> Result<Vec<u8>, String>;
    fn json_to(&self, w: &mut dyn Write) -> Result<(), String>;
    fn cbor_to(&self, w: &mut dyn Write) -> Result<(), String>;
    fn debug(&self) -> String;
    fn same(&self, other: &dyn Dyn) -> bool;
    fn any(&self) -> &dyn std::any::Any;
    fn put(&mut self, v: &Val);
    /// derived computations available on the type (IDs, hashes, addresses, text), to be exercised on decoded values
    fn touch(&self) -> String;
}

pub struct Entry {
    pub name: &'static str,
    pub ty: Ty,
    pub v2: bool,
    pub v1: bool,
    pub json: bool,
    pub from_val: fn(&Val) -> Box<dyn Dyn>,
    pub dec2: fn(&mut dyn Read) -> EResult<Box<dyn Dyn>>,
    pub dec1: fn(&mut dyn Read) -> EResult<Box<dyn Dyn>>,
    pub parse_text: fn(&str) -> Result<Box<dyn Dyn>, String>,
    pub parse_value: fn(serde_json::Value) -> Result<Box<dyn Dyn>, String>,
    pub parse_cbor: fn(&[u8]) -> Result<Box<dyn Dyn>, String>,
}

pub struct W2<T>(pub T);

fn no<T>() -> T {
    panic!("MONITOR: operation not available for this type")
}

macro_rules! opt {
    (y, $e:expr) => { $e };
    (n, $e:expr) => { no() };
}
macro_rules! flag {
    (y) => { true };
    (n) => { false };
}

macro_rules! registry {
    ($($name:literal $t:ty: $v2:ident $v1:ident $j:ident $touch:expr;)*) => {
        $(
        impl Dyn for W2<$t> {
            fn to_val(&self) -> Val { self.0.to_val() }
            #[allow(unused_variables, unused_mut)]
            fn enc2(&self, mut w: &mut dyn Write) -> EResult<()> { opt!($v2, SiaEncodable::encode(&self.0, &mut w)) }
            #[allow(unused_variables, unused_mut)]
            fn enc1(&self, mut w: &mut dyn Write) -> EResult<()> { opt!($v1, V1SiaEncodable::encode_v1(&self.0, &mut w)) }
            fn json_text(&self) -> Result<String, String> { opt!($j, serde_json::to_string(&self.0).map_err(|e| e.to_string())) }
            fn json_value(&self) -> Result<serde_json::Value, String> { opt!($j, serde_json::to_value(&self.0).map_err(|e| e.to_string())) }
            fn cbor(&self) -> Result<Vec<u8>, String> {
                opt!($j, { let mut b = Vec::new(); ciborium::into_writer(&self.0, &mut b).map_err(|e| format!("{e:?}")).map(|_| b) })
            }
            #[allow(unused_variables)]
            fn json_to(&self, w: &mut dyn Write) -> Result<(), String> { opt!($j, serde_json::to_writer(w, &self.0).map_err(|e| e.to_string())) }
            #[allow(unused_variables)]
            fn cbor_to(&self, w: &mut dyn Write) -> Result<(), String> { opt!($j, ciborium::into_writer(&self.0, w).map_err(|e| format!("{e:?}"))) }
            fn debug(&self) -> String { format!("{:?}", self.0) }
            fn same(&self, other: &dyn Dyn) -> bool {
                match other.any().downcast_ref::<W2<$t>>() { Some(o) => self.0 == o.0, None => false }
            }
            fn any(&self) -> &dyn std::any::Any { self }
            fn put(&mut self, v: &Val) { self.0.put(v) }
            fn touch(&self) -> String { let f: fn(&$t) -> String = $touch; f(&self.0) }
        }
        )*
        pub fn registry() -> Vec<Entry> {
            vec![ $( Entry {
                name: $name, ty: <$t as M>::ty(), v2: flag!($v2), v1: flag!($v1), json: flag!($j),
                from_val: |v| Box::new(W2(<$t as M>::from_val(v))),
                dec2: |mut r| { let _ = &mut r; opt!($v2, <$t as SiaDecodable>::decode(&mut r).map(|x| Box::new(W2(x)) as Box<dyn Dyn>)) },
                dec1: |mut r| { let _ = &mut r; opt!($v1, <$t as V1SiaDecodable>::decode_v1(&mut r).map(|x| Box::new(W2(x)) as Box<dyn Dyn>)) },
                parse_text: |s| { let _ = s; opt!($j, serde_json::from_str::<$t>(s).map(|x| Box::new(W2(x)) as Box<dyn Dyn>).map_err(|e| e.to_string())) },
                parse_value: |s| { let _ = &s; opt!($j, serde_json::from_value::<$t>(s).map(|x| Box::new(W2(x)) as Box<dyn Dyn>).map_err(|e| e.to_string())) },
                parse_cbor: |s| { let _ = s; opt!($j, ciborium::from_reader::<$t, _>(s).map(|x| Box::new(W2(x)) as Box<dyn Dyn>).map_err(|e| format!("{e:?}"))) },
            } ),* ]
        }
    };
}

fn none<T>(_: &T) -> String {
    String::new()
}
fn disp<T: std::fmt::Display>(t: &T) -> String {
    t.to_string()
}

/// a chain state at the given tip height of mainnet
pub fn mainnet_at(height: u64) -> ChainState {
    let mut v = empty(&State::ty());
    v.st_mut()[0].st_mut()[0] = Val::U(height);
    ChainState { network: Network::mainnet(), state: M::from_val(&v) }
}

fn touch_v1txn(t: &v1::Transaction) -> String {
    let cs = mainnet_at(300_000);
    let mut s = format!("{} {} {} {}", t.id(), t.siacoin_output_id(0), t.siafund_output_id(1), t.file_contract_id(2));
    s += &format!("{:?}", t.whole_sig_hash(&cs, &Hash256::default(), 1, 2).ok());
    for g in t.signatures.iter().take(8) {
        s += &format!("{:?}", t.partial_sig_hash(&cs, &g.covered_fields).ok());
    }
    for i in t.siacoin_inputs.iter().take(8) {
        s += &i.unlock_conditions.address().to_string();
    }
    for c in t.file_contracts.iter().take(8) {
        s += &format!("{:?}", c.tax(&cs));
        s += &format!("{:?}", c.tax(&mainnet_at(100)));
    }
    s
}
fn touch_v2txn(t: &v2::Transaction) -> String {
    let cs = mainnet_at(2_000_000);
    let mut s = format!("{} {}", t.id(), t.input_sig_hash(&cs));
    for i in t.siacoin_inputs.iter().take(8) {
        s += &i.satisfied_policy.policy.address().to_string();
    }
    for a in t.attestations.iter().take(8) {
        s += &a.sig_hash(&cs).to_string();
        s += &a.public_key.verify(&a.sig_hash(&cs), &a.signature).to_string();
    }
    for c in t.file_contracts.iter().take(8) {
        s += &c.sig_hash(&cs).to_string();
    }
    s
}

registry! {
    "u8" Byte: y y n none;
    "bool" bool: y y y none;
    "u16" u16: y y n none;
    "u32" u32: y y n none;
    "u64" u64: y y y none;
    "usize" usize: y y n none;
    "i16" i16: y y n none;
    "i32" i32: y y n none;
    "i64" i64: y y n none;
    "String" String: y y y none;
    "Vec<u8>" Vec<u8>: y y n none;
    "Vec<Vec<u8>>" Vec<Vec<u8>>: y y n none;
    "Vec<Hash256>" Vec<Hash256>: y y y none;
    "[Hash256]" Slice: y y n none;
    "Option<u64>" Option<u64>: y y n none;
    "Option<Address>" Option<Address>: y y n none;
    "Option<Vec<SiacoinOutput>>" Option<Vec<SiacoinOutput>>: y y n none;
    "[u8;7]" [u8; 7]: y y n none;
    "OffsetDateTime" OffsetDateTime: y n n none;
    "Duration" Duration: y n n none;
    "Currency" Currency: y y y |c| (**c).to_string();
    "Work" Work: y y y disp;
    "Specifier" Specifier: y y y none;
    "Hash256" Hash256: y y y disp;
    "SiacoinOutputID" SiacoinOutputID: y y y disp;
    "SiafundOutputID" SiafundOutputID: y y y disp;
    "AttestationID" AttestationID: y y y disp;
    "BlockID" BlockID: y y y disp;
    "TransactionID" TransactionID: y y y disp;
    "FileContractID" FileContractID: y y y disp;
    "Address" Address: y y y disp;
    "PublicKey" PublicKey: y n y disp;
    "Signature" Signature: y n y disp;
    "Leaf" Leaf: y y y disp;
    "ChainIndex" ChainIndex: y n y |c| format!("{c} {}", c.child_height());
    "StateElement" StateElement: y n y none;
    "SiacoinOutput" SiacoinOutput: y y y none;
    "SiafundOutput" SiafundOutput: y y y none;
    "Block" Block: n y y |b| b.transactions.iter().take(4).map(touch_v1txn).collect();
    "v1::UnlockKey" v1::UnlockKey: y y y disp;
    "v1::UnlockConditions" v1::UnlockConditions: y y y |u| u.address().to_string();
    "v1::SiacoinInput" v1::SiacoinInput: n y y |u| u.unlock_conditions.address().to_string();
    "v1::SiafundInput" v1::SiafundInput: n y y |u| u.unlock_conditions.address().to_string();
    "v1::FileContract" v1::FileContract: n y y |c| format!("{:?} {:?}", c.tax(&mainnet_at(3)), c.tax(&mainnet_at(30000)));
    "v1::FileContractRevision" v1::FileContractRevision: n y y none;
    "v1::StorageProof" v1::StorageProof: n y y none;
    "v1::CoveredFields" v1::CoveredFields: n y y none;
    "v1::TransactionSignature" v1::TransactionSignature: n y y none;
    "v1::Transaction" v1::Transaction: n y y touch_v1txn;
    "v2::SpendPolicy" v2::SpendPolicy: y n y |p| p.address().to_string();
    "v2::SatisfiedPolicy" v2::SatisfiedPolicy: y n y |p| p.policy.address().to_string();
    "v2::Attestation" v2::Attestation: y n y |a| { let h = a.sig_hash(&mainnet_at(3)); format!("{h} {}", a.public_key.verify(&h, &a.signature)) };
    "v2::FileContract" v2::FileContract: y n y |c| c.sig_hash(&mainnet_at(3)).to_string();
    "v2::SiacoinElement" v2::SiacoinElement: y n y none;
    "v2::SiafundElement" v2::SiafundElement: y n y none;
    "v2::FileContractElement" v2::FileContractElement: y n y none;
    "v2::ChainIndexElement" v2::ChainIndexElement: y n y none;
    "v2::SiacoinInput" v2::SiacoinInput: y n y none;
    "v2::SiafundInput" v2::SiafundInput: y n y none;
    "v2::FileContractRevision" v2::FileContractRevision: y n y none;
    "v2::FileContractRenewal" v2::FileContractRenewal: y n y |c| c.sig_hash(&mainnet_at(3)).to_string();
    "v2::StorageProof" v2::StorageProof: y n y none;
    "v2::ContractResolution" v2::ContractResolution: n n y none;
    "v2::FileContractResolution" v2::FileContractResolution: y n y none;
    "v2::Transaction" v2::Transaction: y n y touch_v2txn;
    "ElementAccumulator" ElementAccumulator: y n y none;
    "State" State: y n y none;
    "Network" Network: n n y none;
    "ChainState" ChainState: n n y none;
}

pub fn init() {
    set_uc(v1::UnlockConditions::ty());
}
