// generated by tools/gen_literals.py
#![cfg_attr(not(feature = "goodlit"), allow(unused_imports))]
use sia::signing::PublicKey;
use sia::types::*;

#[cfg(not(feature = "goodlit"))]
pub fn good() -> Vec<(&'static str, &'static str, Vec<u8>, Vec<u8>)> {
    vec![]
}

#[cfg(feature = "goodlit")]
pub fn good() -> Vec<(&'static str, &'static str, Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    const ADDRESS_0: Address = sia::address!("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1Bc80807ebF78");
    v.push(("address", "07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1Bc80807ebF78", AsRef::<[u8]>::as_ref(&ADDRESS_0).to_vec(), Address::parse_string("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1Bc80807ebF78").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_1: Address = sia::address!("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2c3EdcAe1E9fF");
    v.push(("address", "18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2c3EdcAe1E9fF", AsRef::<[u8]>::as_ref(&ADDRESS_1).to_vec(), Address::parse_string("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2c3EdcAe1E9fF").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_2: Address = sia::address!("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a2a074dD98E7");
    v.push(("address", "29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a2a074dD98E7", AsRef::<[u8]>::as_ref(&ADDRESS_2).to_vec(), Address::parse_string("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a2a074dD98E7").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_3: Address = sia::address!("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4Fb56f4F3907e");
    v.push(("address", "3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4Fb56f4F3907e", AsRef::<[u8]>::as_ref(&ADDRESS_3).to_vec(), Address::parse_string("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4Fb56f4F3907e").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_4: Address = sia::address!("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5ad0639bcE40C");
    v.push(("address", "4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5ad0639bcE40C", AsRef::<[u8]>::as_ref(&ADDRESS_4).to_vec(), Address::parse_string("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5ad0639bcE40C").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_5: Address = sia::address!("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF61A52708A6761");
    v.push(("address", "5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF61A52708A6761", AsRef::<[u8]>::as_ref(&ADDRESS_5).to_vec(), Address::parse_string("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF61A52708A6761").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_6: Address = sia::address!("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f077f4614C14Aba");
    v.push(("address", "6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f077f4614C14Aba", AsRef::<[u8]>::as_ref(&ADDRESS_6).to_vec(), Address::parse_string("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f077f4614C14Aba").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_7: Address = sia::address!("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A181a9fe51f7584");
    v.push(("address", "7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A181a9fe51f7584", AsRef::<[u8]>::as_ref(&ADDRESS_7).to_vec(), Address::parse_string("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A181a9fe51f7584").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_8: Address = sia::address!("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB296F765f20abA3");
    v.push(("address", "8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB296F765f20abA3", AsRef::<[u8]>::as_ref(&ADDRESS_8).to_vec(), Address::parse_string("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB296F765f20abA3").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_9: Address = sia::address!("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a6c6E5f0071d3");
    v.push(("address", "9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a6c6E5f0071d3", AsRef::<[u8]>::as_ref(&ADDRESS_9).to_vec(), Address::parse_string("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a6c6E5f0071d3").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_10: Address = sia::address!("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b11F3f5e19a3A");
    v.push(("address", "aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b11F3f5e19a3A", AsRef::<[u8]>::as_ref(&ADDRESS_10).to_vec(), Address::parse_string("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b11F3f5e19a3A").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_11: Address = sia::address!("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cdB67F5392357");
    v.push(("address", "bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cdB67F5392357", AsRef::<[u8]>::as_ref(&ADDRESS_11).to_vec(), Address::parse_string("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cdB67F5392357").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_12: Address = sia::address!("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dA4d7743fd915");
    v.push(("address", "cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dA4d7743fd915", AsRef::<[u8]>::as_ref(&ADDRESS_12).to_vec(), Address::parse_string("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dA4d7743fd915").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_13: Address = sia::address!("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e74Ce5Da62241");
    v.push(("address", "dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e74Ce5Da62241", AsRef::<[u8]>::as_ref(&ADDRESS_13).to_vec(), Address::parse_string("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e74Ce5Da62241").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_14: Address = sia::address!("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f7Feb631E892f");
    v.push(("address", "eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f7Feb631E892f", AsRef::<[u8]>::as_ref(&ADDRESS_14).to_vec(), Address::parse_string("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f7Feb631E892f").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_15: Address = sia::address!("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29AD4aA279e93aa");
    v.push(("address", "f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29AD4aA279e93aa", AsRef::<[u8]>::as_ref(&ADDRESS_15).to_vec(), Address::parse_string("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29AD4aA279e93aa").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_16: Address = sia::address!("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aBb1712Cd8Fb98");
    v.push(("address", "A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aBb1712Cd8Fb98", AsRef::<[u8]>::as_ref(&ADDRESS_16).to_vec(), Address::parse_string("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aBb1712Cd8Fb98").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_17: Address = sia::address!("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC60a21caF0340");
    v.push(("address", "B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC60a21caF0340", AsRef::<[u8]>::as_ref(&ADDRESS_17).to_vec(), Address::parse_string("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC60a21caF0340").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_18: Address = sia::address!("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD65f56fB9bA2d");
    v.push(("address", "C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD65f56fB9bA2d", AsRef::<[u8]>::as_ref(&ADDRESS_18).to_vec(), Address::parse_string("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD65f56fB9bA2d").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_19: Address = sia::address!("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE95Da96b3D9cB");
    v.push(("address", "D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE95Da96b3D9cB", AsRef::<[u8]>::as_ref(&ADDRESS_19).to_vec(), Address::parse_string("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE95Da96b3D9cB").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_20: Address = sia::address!("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eFc928B46C234b");
    v.push(("address", "E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eFc928B46C234b", AsRef::<[u8]>::as_ref(&ADDRESS_20).to_vec(), Address::parse_string("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eFc928B46C234b").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const ADDRESS_21: Address = sia::address!("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f066309fA3d34b");
    v.push(("address", "F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f066309fA3d34b", AsRef::<[u8]>::as_ref(&ADDRESS_21).to_vec(), Address::parse_string("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f066309fA3d34b").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_0: Hash256 = sia::hash_256!("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1");
    v.push(("hash_256", "07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1", AsRef::<[u8]>::as_ref(&HASH_256_0).to_vec(), Hash256::parse_string("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_1: Hash256 = sia::hash_256!("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2");
    v.push(("hash_256", "18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2", AsRef::<[u8]>::as_ref(&HASH_256_1).to_vec(), Hash256::parse_string("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_2: Hash256 = sia::hash_256!("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3");
    v.push(("hash_256", "29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3", AsRef::<[u8]>::as_ref(&HASH_256_2).to_vec(), Hash256::parse_string("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_3: Hash256 = sia::hash_256!("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4");
    v.push(("hash_256", "3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4", AsRef::<[u8]>::as_ref(&HASH_256_3).to_vec(), Hash256::parse_string("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_4: Hash256 = sia::hash_256!("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5");
    v.push(("hash_256", "4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5", AsRef::<[u8]>::as_ref(&HASH_256_4).to_vec(), Hash256::parse_string("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_5: Hash256 = sia::hash_256!("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6");
    v.push(("hash_256", "5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6", AsRef::<[u8]>::as_ref(&HASH_256_5).to_vec(), Hash256::parse_string("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_6: Hash256 = sia::hash_256!("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07");
    v.push(("hash_256", "6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07", AsRef::<[u8]>::as_ref(&HASH_256_6).to_vec(), Hash256::parse_string("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_7: Hash256 = sia::hash_256!("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18");
    v.push(("hash_256", "7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18", AsRef::<[u8]>::as_ref(&HASH_256_7).to_vec(), Hash256::parse_string("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_8: Hash256 = sia::hash_256!("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29");
    v.push(("hash_256", "8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29", AsRef::<[u8]>::as_ref(&HASH_256_8).to_vec(), Hash256::parse_string("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_9: Hash256 = sia::hash_256!("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a");
    v.push(("hash_256", "9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a", AsRef::<[u8]>::as_ref(&HASH_256_9).to_vec(), Hash256::parse_string("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_10: Hash256 = sia::hash_256!("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b");
    v.push(("hash_256", "aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b", AsRef::<[u8]>::as_ref(&HASH_256_10).to_vec(), Hash256::parse_string("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_11: Hash256 = sia::hash_256!("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c");
    v.push(("hash_256", "bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c", AsRef::<[u8]>::as_ref(&HASH_256_11).to_vec(), Hash256::parse_string("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_12: Hash256 = sia::hash_256!("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d");
    v.push(("hash_256", "cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d", AsRef::<[u8]>::as_ref(&HASH_256_12).to_vec(), Hash256::parse_string("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_13: Hash256 = sia::hash_256!("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e");
    v.push(("hash_256", "dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e", AsRef::<[u8]>::as_ref(&HASH_256_13).to_vec(), Hash256::parse_string("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_14: Hash256 = sia::hash_256!("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f");
    v.push(("hash_256", "eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f", AsRef::<[u8]>::as_ref(&HASH_256_14).to_vec(), Hash256::parse_string("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_15: Hash256 = sia::hash_256!("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A");
    v.push(("hash_256", "f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A", AsRef::<[u8]>::as_ref(&HASH_256_15).to_vec(), Hash256::parse_string("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_16: Hash256 = sia::hash_256!("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB");
    v.push(("hash_256", "A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB", AsRef::<[u8]>::as_ref(&HASH_256_16).to_vec(), Hash256::parse_string("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_17: Hash256 = sia::hash_256!("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC");
    v.push(("hash_256", "B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC", AsRef::<[u8]>::as_ref(&HASH_256_17).to_vec(), Hash256::parse_string("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_18: Hash256 = sia::hash_256!("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD");
    v.push(("hash_256", "C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD", AsRef::<[u8]>::as_ref(&HASH_256_18).to_vec(), Hash256::parse_string("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_19: Hash256 = sia::hash_256!("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE");
    v.push(("hash_256", "D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE", AsRef::<[u8]>::as_ref(&HASH_256_19).to_vec(), Hash256::parse_string("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_20: Hash256 = sia::hash_256!("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF");
    v.push(("hash_256", "E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF", AsRef::<[u8]>::as_ref(&HASH_256_20).to_vec(), Hash256::parse_string("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const HASH_256_21: Hash256 = sia::hash_256!("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0");
    v.push(("hash_256", "F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0", AsRef::<[u8]>::as_ref(&HASH_256_21).to_vec(), Hash256::parse_string("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_0: SiacoinOutputID = sia::siacoin_id!("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1");
    v.push(("siacoin_id", "07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1", AsRef::<[u8]>::as_ref(&SIACOIN_ID_0).to_vec(), SiacoinOutputID::parse_string("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_1: SiacoinOutputID = sia::siacoin_id!("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2");
    v.push(("siacoin_id", "18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2", AsRef::<[u8]>::as_ref(&SIACOIN_ID_1).to_vec(), SiacoinOutputID::parse_string("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_2: SiacoinOutputID = sia::siacoin_id!("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3");
    v.push(("siacoin_id", "29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3", AsRef::<[u8]>::as_ref(&SIACOIN_ID_2).to_vec(), SiacoinOutputID::parse_string("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_3: SiacoinOutputID = sia::siacoin_id!("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4");
    v.push(("siacoin_id", "3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4", AsRef::<[u8]>::as_ref(&SIACOIN_ID_3).to_vec(), SiacoinOutputID::parse_string("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_4: SiacoinOutputID = sia::siacoin_id!("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5");
    v.push(("siacoin_id", "4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5", AsRef::<[u8]>::as_ref(&SIACOIN_ID_4).to_vec(), SiacoinOutputID::parse_string("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_5: SiacoinOutputID = sia::siacoin_id!("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6");
    v.push(("siacoin_id", "5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6", AsRef::<[u8]>::as_ref(&SIACOIN_ID_5).to_vec(), SiacoinOutputID::parse_string("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_6: SiacoinOutputID = sia::siacoin_id!("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07");
    v.push(("siacoin_id", "6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07", AsRef::<[u8]>::as_ref(&SIACOIN_ID_6).to_vec(), SiacoinOutputID::parse_string("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_7: SiacoinOutputID = sia::siacoin_id!("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18");
    v.push(("siacoin_id", "7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18", AsRef::<[u8]>::as_ref(&SIACOIN_ID_7).to_vec(), SiacoinOutputID::parse_string("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_8: SiacoinOutputID = sia::siacoin_id!("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29");
    v.push(("siacoin_id", "8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29", AsRef::<[u8]>::as_ref(&SIACOIN_ID_8).to_vec(), SiacoinOutputID::parse_string("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_9: SiacoinOutputID = sia::siacoin_id!("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a");
    v.push(("siacoin_id", "9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a", AsRef::<[u8]>::as_ref(&SIACOIN_ID_9).to_vec(), SiacoinOutputID::parse_string("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_10: SiacoinOutputID = sia::siacoin_id!("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b");
    v.push(("siacoin_id", "aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b", AsRef::<[u8]>::as_ref(&SIACOIN_ID_10).to_vec(), SiacoinOutputID::parse_string("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_11: SiacoinOutputID = sia::siacoin_id!("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c");
    v.push(("siacoin_id", "bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c", AsRef::<[u8]>::as_ref(&SIACOIN_ID_11).to_vec(), SiacoinOutputID::parse_string("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_12: SiacoinOutputID = sia::siacoin_id!("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d");
    v.push(("siacoin_id", "cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d", AsRef::<[u8]>::as_ref(&SIACOIN_ID_12).to_vec(), SiacoinOutputID::parse_string("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_13: SiacoinOutputID = sia::siacoin_id!("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e");
    v.push(("siacoin_id", "dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e", AsRef::<[u8]>::as_ref(&SIACOIN_ID_13).to_vec(), SiacoinOutputID::parse_string("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_14: SiacoinOutputID = sia::siacoin_id!("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f");
    v.push(("siacoin_id", "eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f", AsRef::<[u8]>::as_ref(&SIACOIN_ID_14).to_vec(), SiacoinOutputID::parse_string("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_15: SiacoinOutputID = sia::siacoin_id!("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A");
    v.push(("siacoin_id", "f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A", AsRef::<[u8]>::as_ref(&SIACOIN_ID_15).to_vec(), SiacoinOutputID::parse_string("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_16: SiacoinOutputID = sia::siacoin_id!("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB");
    v.push(("siacoin_id", "A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB", AsRef::<[u8]>::as_ref(&SIACOIN_ID_16).to_vec(), SiacoinOutputID::parse_string("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_17: SiacoinOutputID = sia::siacoin_id!("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC");
    v.push(("siacoin_id", "B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC", AsRef::<[u8]>::as_ref(&SIACOIN_ID_17).to_vec(), SiacoinOutputID::parse_string("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_18: SiacoinOutputID = sia::siacoin_id!("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD");
    v.push(("siacoin_id", "C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD", AsRef::<[u8]>::as_ref(&SIACOIN_ID_18).to_vec(), SiacoinOutputID::parse_string("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_19: SiacoinOutputID = sia::siacoin_id!("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE");
    v.push(("siacoin_id", "D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE", AsRef::<[u8]>::as_ref(&SIACOIN_ID_19).to_vec(), SiacoinOutputID::parse_string("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_20: SiacoinOutputID = sia::siacoin_id!("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF");
    v.push(("siacoin_id", "E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF", AsRef::<[u8]>::as_ref(&SIACOIN_ID_20).to_vec(), SiacoinOutputID::parse_string("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIACOIN_ID_21: SiacoinOutputID = sia::siacoin_id!("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0");
    v.push(("siacoin_id", "F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0", AsRef::<[u8]>::as_ref(&SIACOIN_ID_21).to_vec(), SiacoinOutputID::parse_string("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_0: SiafundOutputID = sia::siafund_id!("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1");
    v.push(("siafund_id", "07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1", AsRef::<[u8]>::as_ref(&SIAFUND_ID_0).to_vec(), SiafundOutputID::parse_string("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_1: SiafundOutputID = sia::siafund_id!("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2");
    v.push(("siafund_id", "18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2", AsRef::<[u8]>::as_ref(&SIAFUND_ID_1).to_vec(), SiafundOutputID::parse_string("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_2: SiafundOutputID = sia::siafund_id!("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3");
    v.push(("siafund_id", "29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3", AsRef::<[u8]>::as_ref(&SIAFUND_ID_2).to_vec(), SiafundOutputID::parse_string("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_3: SiafundOutputID = sia::siafund_id!("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4");
    v.push(("siafund_id", "3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4", AsRef::<[u8]>::as_ref(&SIAFUND_ID_3).to_vec(), SiafundOutputID::parse_string("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_4: SiafundOutputID = sia::siafund_id!("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5");
    v.push(("siafund_id", "4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5", AsRef::<[u8]>::as_ref(&SIAFUND_ID_4).to_vec(), SiafundOutputID::parse_string("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_5: SiafundOutputID = sia::siafund_id!("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6");
    v.push(("siafund_id", "5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6", AsRef::<[u8]>::as_ref(&SIAFUND_ID_5).to_vec(), SiafundOutputID::parse_string("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_6: SiafundOutputID = sia::siafund_id!("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07");
    v.push(("siafund_id", "6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07", AsRef::<[u8]>::as_ref(&SIAFUND_ID_6).to_vec(), SiafundOutputID::parse_string("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_7: SiafundOutputID = sia::siafund_id!("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18");
    v.push(("siafund_id", "7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18", AsRef::<[u8]>::as_ref(&SIAFUND_ID_7).to_vec(), SiafundOutputID::parse_string("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_8: SiafundOutputID = sia::siafund_id!("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29");
    v.push(("siafund_id", "8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29", AsRef::<[u8]>::as_ref(&SIAFUND_ID_8).to_vec(), SiafundOutputID::parse_string("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_9: SiafundOutputID = sia::siafund_id!("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a");
    v.push(("siafund_id", "9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a", AsRef::<[u8]>::as_ref(&SIAFUND_ID_9).to_vec(), SiafundOutputID::parse_string("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_10: SiafundOutputID = sia::siafund_id!("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b");
    v.push(("siafund_id", "aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b", AsRef::<[u8]>::as_ref(&SIAFUND_ID_10).to_vec(), SiafundOutputID::parse_string("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_11: SiafundOutputID = sia::siafund_id!("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c");
    v.push(("siafund_id", "bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c", AsRef::<[u8]>::as_ref(&SIAFUND_ID_11).to_vec(), SiafundOutputID::parse_string("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_12: SiafundOutputID = sia::siafund_id!("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d");
    v.push(("siafund_id", "cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d", AsRef::<[u8]>::as_ref(&SIAFUND_ID_12).to_vec(), SiafundOutputID::parse_string("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_13: SiafundOutputID = sia::siafund_id!("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e");
    v.push(("siafund_id", "dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e", AsRef::<[u8]>::as_ref(&SIAFUND_ID_13).to_vec(), SiafundOutputID::parse_string("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_14: SiafundOutputID = sia::siafund_id!("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f");
    v.push(("siafund_id", "eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f", AsRef::<[u8]>::as_ref(&SIAFUND_ID_14).to_vec(), SiafundOutputID::parse_string("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_15: SiafundOutputID = sia::siafund_id!("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A");
    v.push(("siafund_id", "f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A", AsRef::<[u8]>::as_ref(&SIAFUND_ID_15).to_vec(), SiafundOutputID::parse_string("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_16: SiafundOutputID = sia::siafund_id!("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB");
    v.push(("siafund_id", "A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB", AsRef::<[u8]>::as_ref(&SIAFUND_ID_16).to_vec(), SiafundOutputID::parse_string("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_17: SiafundOutputID = sia::siafund_id!("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC");
    v.push(("siafund_id", "B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC", AsRef::<[u8]>::as_ref(&SIAFUND_ID_17).to_vec(), SiafundOutputID::parse_string("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_18: SiafundOutputID = sia::siafund_id!("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD");
    v.push(("siafund_id", "C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD", AsRef::<[u8]>::as_ref(&SIAFUND_ID_18).to_vec(), SiafundOutputID::parse_string("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_19: SiafundOutputID = sia::siafund_id!("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE");
    v.push(("siafund_id", "D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE", AsRef::<[u8]>::as_ref(&SIAFUND_ID_19).to_vec(), SiafundOutputID::parse_string("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_20: SiafundOutputID = sia::siafund_id!("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF");
    v.push(("siafund_id", "E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF", AsRef::<[u8]>::as_ref(&SIAFUND_ID_20).to_vec(), SiafundOutputID::parse_string("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const SIAFUND_ID_21: SiafundOutputID = sia::siafund_id!("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0");
    v.push(("siafund_id", "F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0", AsRef::<[u8]>::as_ref(&SIAFUND_ID_21).to_vec(), SiafundOutputID::parse_string("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_0: FileContractID = sia::contract_id!("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1");
    v.push(("contract_id", "07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1", AsRef::<[u8]>::as_ref(&CONTRACT_ID_0).to_vec(), FileContractID::parse_string("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_1: FileContractID = sia::contract_id!("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2");
    v.push(("contract_id", "18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2", AsRef::<[u8]>::as_ref(&CONTRACT_ID_1).to_vec(), FileContractID::parse_string("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_2: FileContractID = sia::contract_id!("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3");
    v.push(("contract_id", "29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3", AsRef::<[u8]>::as_ref(&CONTRACT_ID_2).to_vec(), FileContractID::parse_string("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_3: FileContractID = sia::contract_id!("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4");
    v.push(("contract_id", "3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4", AsRef::<[u8]>::as_ref(&CONTRACT_ID_3).to_vec(), FileContractID::parse_string("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_4: FileContractID = sia::contract_id!("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5");
    v.push(("contract_id", "4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5", AsRef::<[u8]>::as_ref(&CONTRACT_ID_4).to_vec(), FileContractID::parse_string("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_5: FileContractID = sia::contract_id!("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6");
    v.push(("contract_id", "5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6", AsRef::<[u8]>::as_ref(&CONTRACT_ID_5).to_vec(), FileContractID::parse_string("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_6: FileContractID = sia::contract_id!("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07");
    v.push(("contract_id", "6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07", AsRef::<[u8]>::as_ref(&CONTRACT_ID_6).to_vec(), FileContractID::parse_string("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_7: FileContractID = sia::contract_id!("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18");
    v.push(("contract_id", "7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18", AsRef::<[u8]>::as_ref(&CONTRACT_ID_7).to_vec(), FileContractID::parse_string("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_8: FileContractID = sia::contract_id!("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29");
    v.push(("contract_id", "8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29", AsRef::<[u8]>::as_ref(&CONTRACT_ID_8).to_vec(), FileContractID::parse_string("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_9: FileContractID = sia::contract_id!("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a");
    v.push(("contract_id", "9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a", AsRef::<[u8]>::as_ref(&CONTRACT_ID_9).to_vec(), FileContractID::parse_string("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_10: FileContractID = sia::contract_id!("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b");
    v.push(("contract_id", "aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b", AsRef::<[u8]>::as_ref(&CONTRACT_ID_10).to_vec(), FileContractID::parse_string("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_11: FileContractID = sia::contract_id!("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c");
    v.push(("contract_id", "bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c", AsRef::<[u8]>::as_ref(&CONTRACT_ID_11).to_vec(), FileContractID::parse_string("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_12: FileContractID = sia::contract_id!("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d");
    v.push(("contract_id", "cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d", AsRef::<[u8]>::as_ref(&CONTRACT_ID_12).to_vec(), FileContractID::parse_string("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_13: FileContractID = sia::contract_id!("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e");
    v.push(("contract_id", "dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e", AsRef::<[u8]>::as_ref(&CONTRACT_ID_13).to_vec(), FileContractID::parse_string("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_14: FileContractID = sia::contract_id!("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f");
    v.push(("contract_id", "eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f", AsRef::<[u8]>::as_ref(&CONTRACT_ID_14).to_vec(), FileContractID::parse_string("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_15: FileContractID = sia::contract_id!("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A");
    v.push(("contract_id", "f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A", AsRef::<[u8]>::as_ref(&CONTRACT_ID_15).to_vec(), FileContractID::parse_string("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_16: FileContractID = sia::contract_id!("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB");
    v.push(("contract_id", "A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB", AsRef::<[u8]>::as_ref(&CONTRACT_ID_16).to_vec(), FileContractID::parse_string("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_17: FileContractID = sia::contract_id!("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC");
    v.push(("contract_id", "B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC", AsRef::<[u8]>::as_ref(&CONTRACT_ID_17).to_vec(), FileContractID::parse_string("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_18: FileContractID = sia::contract_id!("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD");
    v.push(("contract_id", "C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD", AsRef::<[u8]>::as_ref(&CONTRACT_ID_18).to_vec(), FileContractID::parse_string("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_19: FileContractID = sia::contract_id!("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE");
    v.push(("contract_id", "D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE", AsRef::<[u8]>::as_ref(&CONTRACT_ID_19).to_vec(), FileContractID::parse_string("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_20: FileContractID = sia::contract_id!("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF");
    v.push(("contract_id", "E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF", AsRef::<[u8]>::as_ref(&CONTRACT_ID_20).to_vec(), FileContractID::parse_string("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const CONTRACT_ID_21: FileContractID = sia::contract_id!("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0");
    v.push(("contract_id", "F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0", AsRef::<[u8]>::as_ref(&CONTRACT_ID_21).to_vec(), FileContractID::parse_string("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_0: TransactionID = sia::transaction_id!("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1");
    v.push(("transaction_id", "07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_0).to_vec(), TransactionID::parse_string("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_1: TransactionID = sia::transaction_id!("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2");
    v.push(("transaction_id", "18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_1).to_vec(), TransactionID::parse_string("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_2: TransactionID = sia::transaction_id!("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3");
    v.push(("transaction_id", "29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_2).to_vec(), TransactionID::parse_string("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_3: TransactionID = sia::transaction_id!("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4");
    v.push(("transaction_id", "3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_3).to_vec(), TransactionID::parse_string("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_4: TransactionID = sia::transaction_id!("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5");
    v.push(("transaction_id", "4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_4).to_vec(), TransactionID::parse_string("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_5: TransactionID = sia::transaction_id!("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6");
    v.push(("transaction_id", "5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_5).to_vec(), TransactionID::parse_string("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_6: TransactionID = sia::transaction_id!("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07");
    v.push(("transaction_id", "6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_6).to_vec(), TransactionID::parse_string("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_7: TransactionID = sia::transaction_id!("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18");
    v.push(("transaction_id", "7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_7).to_vec(), TransactionID::parse_string("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_8: TransactionID = sia::transaction_id!("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29");
    v.push(("transaction_id", "8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_8).to_vec(), TransactionID::parse_string("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_9: TransactionID = sia::transaction_id!("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a");
    v.push(("transaction_id", "9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_9).to_vec(), TransactionID::parse_string("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_10: TransactionID = sia::transaction_id!("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b");
    v.push(("transaction_id", "aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_10).to_vec(), TransactionID::parse_string("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_11: TransactionID = sia::transaction_id!("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c");
    v.push(("transaction_id", "bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_11).to_vec(), TransactionID::parse_string("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_12: TransactionID = sia::transaction_id!("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d");
    v.push(("transaction_id", "cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_12).to_vec(), TransactionID::parse_string("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_13: TransactionID = sia::transaction_id!("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e");
    v.push(("transaction_id", "dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_13).to_vec(), TransactionID::parse_string("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_14: TransactionID = sia::transaction_id!("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f");
    v.push(("transaction_id", "eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_14).to_vec(), TransactionID::parse_string("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_15: TransactionID = sia::transaction_id!("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A");
    v.push(("transaction_id", "f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_15).to_vec(), TransactionID::parse_string("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_16: TransactionID = sia::transaction_id!("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB");
    v.push(("transaction_id", "A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_16).to_vec(), TransactionID::parse_string("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_17: TransactionID = sia::transaction_id!("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC");
    v.push(("transaction_id", "B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_17).to_vec(), TransactionID::parse_string("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_18: TransactionID = sia::transaction_id!("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD");
    v.push(("transaction_id", "C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_18).to_vec(), TransactionID::parse_string("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_19: TransactionID = sia::transaction_id!("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE");
    v.push(("transaction_id", "D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_19).to_vec(), TransactionID::parse_string("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_20: TransactionID = sia::transaction_id!("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF");
    v.push(("transaction_id", "E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_20).to_vec(), TransactionID::parse_string("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const TRANSACTION_ID_21: TransactionID = sia::transaction_id!("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0");
    v.push(("transaction_id", "F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0", AsRef::<[u8]>::as_ref(&TRANSACTION_ID_21).to_vec(), TransactionID::parse_string("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_0: BlockID = sia::block_id!("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1");
    v.push(("block_id", "07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1", AsRef::<[u8]>::as_ref(&BLOCK_ID_0).to_vec(), BlockID::parse_string("07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_1: BlockID = sia::block_id!("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2");
    v.push(("block_id", "18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2", AsRef::<[u8]>::as_ref(&BLOCK_ID_1).to_vec(), BlockID::parse_string("18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_2: BlockID = sia::block_id!("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3");
    v.push(("block_id", "29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3", AsRef::<[u8]>::as_ref(&BLOCK_ID_2).to_vec(), BlockID::parse_string("29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_3: BlockID = sia::block_id!("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4");
    v.push(("block_id", "3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4", AsRef::<[u8]>::as_ref(&BLOCK_ID_3).to_vec(), BlockID::parse_string("3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_4: BlockID = sia::block_id!("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5");
    v.push(("block_id", "4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5", AsRef::<[u8]>::as_ref(&BLOCK_ID_4).to_vec(), BlockID::parse_string("4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_5: BlockID = sia::block_id!("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6");
    v.push(("block_id", "5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6", AsRef::<[u8]>::as_ref(&BLOCK_ID_5).to_vec(), BlockID::parse_string("5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_6: BlockID = sia::block_id!("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07");
    v.push(("block_id", "6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07", AsRef::<[u8]>::as_ref(&BLOCK_ID_6).to_vec(), BlockID::parse_string("6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_7: BlockID = sia::block_id!("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18");
    v.push(("block_id", "7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18", AsRef::<[u8]>::as_ref(&BLOCK_ID_7).to_vec(), BlockID::parse_string("7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_8: BlockID = sia::block_id!("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29");
    v.push(("block_id", "8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29", AsRef::<[u8]>::as_ref(&BLOCK_ID_8).to_vec(), BlockID::parse_string("8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_9: BlockID = sia::block_id!("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a");
    v.push(("block_id", "9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a", AsRef::<[u8]>::as_ref(&BLOCK_ID_9).to_vec(), BlockID::parse_string("9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_10: BlockID = sia::block_id!("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b");
    v.push(("block_id", "aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b", AsRef::<[u8]>::as_ref(&BLOCK_ID_10).to_vec(), BlockID::parse_string("aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_11: BlockID = sia::block_id!("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c");
    v.push(("block_id", "bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c", AsRef::<[u8]>::as_ref(&BLOCK_ID_11).to_vec(), BlockID::parse_string("bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_12: BlockID = sia::block_id!("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d");
    v.push(("block_id", "cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d", AsRef::<[u8]>::as_ref(&BLOCK_ID_12).to_vec(), BlockID::parse_string("cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_13: BlockID = sia::block_id!("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e");
    v.push(("block_id", "dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e", AsRef::<[u8]>::as_ref(&BLOCK_ID_13).to_vec(), BlockID::parse_string("dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_14: BlockID = sia::block_id!("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f");
    v.push(("block_id", "eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f", AsRef::<[u8]>::as_ref(&BLOCK_ID_14).to_vec(), BlockID::parse_string("eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_15: BlockID = sia::block_id!("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A");
    v.push(("block_id", "f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A", AsRef::<[u8]>::as_ref(&BLOCK_ID_15).to_vec(), BlockID::parse_string("f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_16: BlockID = sia::block_id!("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB");
    v.push(("block_id", "A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB", AsRef::<[u8]>::as_ref(&BLOCK_ID_16).to_vec(), BlockID::parse_string("A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_17: BlockID = sia::block_id!("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC");
    v.push(("block_id", "B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC", AsRef::<[u8]>::as_ref(&BLOCK_ID_17).to_vec(), BlockID::parse_string("B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_18: BlockID = sia::block_id!("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD");
    v.push(("block_id", "C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD", AsRef::<[u8]>::as_ref(&BLOCK_ID_18).to_vec(), BlockID::parse_string("C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_19: BlockID = sia::block_id!("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE");
    v.push(("block_id", "D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE", AsRef::<[u8]>::as_ref(&BLOCK_ID_19).to_vec(), BlockID::parse_string("D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_20: BlockID = sia::block_id!("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF");
    v.push(("block_id", "E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF", AsRef::<[u8]>::as_ref(&BLOCK_ID_20).to_vec(), BlockID::parse_string("E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const BLOCK_ID_21: BlockID = sia::block_id!("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0");
    v.push(("block_id", "F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0", AsRef::<[u8]>::as_ref(&BLOCK_ID_21).to_vec(), BlockID::parse_string("F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0").map(|x| AsRef::<[u8]>::as_ref(&x).to_vec()).unwrap_or_default()));
    const PK_0: PublicKey = sia::public_key!("ed25519:07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1");
    v.push(("public_key", "ed25519:07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1", PK_0.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A1")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_1: PublicKey = sia::public_key!("ed25519:18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2");
    v.push(("public_key", "ed25519:18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2", PK_1.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB2")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_2: PublicKey = sia::public_key!("ed25519:29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3");
    v.push(("public_key", "ed25519:29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3", PK_2.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_3: PublicKey = sia::public_key!("ed25519:3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4");
    v.push(("public_key", "ed25519:3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4", PK_3.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_4: PublicKey = sia::public_key!("ed25519:4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5");
    v.push(("public_key", "ed25519:4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5", PK_4.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_5: PublicKey = sia::public_key!("ed25519:5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6");
    v.push(("public_key", "ed25519:5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6", PK_5.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_6: PublicKey = sia::public_key!("ed25519:6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07");
    v.push(("public_key", "ed25519:6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07", PK_6.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_7: PublicKey = sia::public_key!("ed25519:7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18");
    v.push(("public_key", "ed25519:7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18", PK_7.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:7eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_8: PublicKey = sia::public_key!("ed25519:8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29");
    v.push(("public_key", "ed25519:8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29", PK_8.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:8f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_9: PublicKey = sia::public_key!("ed25519:9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a");
    v.push(("public_key", "ed25519:9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a", PK_9.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:9A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3a")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_10: PublicKey = sia::public_key!("ed25519:aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b");
    v.push(("public_key", "ed25519:aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b", PK_10.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4b")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_11: PublicKey = sia::public_key!("ed25519:bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c");
    v.push(("public_key", "ed25519:bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c", PK_11.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5c")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_12: PublicKey = sia::public_key!("ed25519:cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d");
    v.push(("public_key", "ed25519:cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d", PK_12.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6d")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_13: PublicKey = sia::public_key!("ed25519:dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e");
    v.push(("public_key", "ed25519:dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e", PK_13.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07e")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_14: PublicKey = sia::public_key!("ed25519:eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f");
    v.push(("public_key", "ed25519:eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f", PK_14.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_15: PublicKey = sia::public_key!("ed25519:f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A");
    v.push(("public_key", "ed25519:f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A", PK_15.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_16: PublicKey = sia::public_key!("ed25519:A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB");
    v.push(("public_key", "ed25519:A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB", PK_16.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_17: PublicKey = sia::public_key!("ed25519:B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC");
    v.push(("public_key", "ed25519:B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC", PK_17.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:B29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_18: PublicKey = sia::public_key!("ed25519:C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD");
    v.push(("public_key", "ed25519:C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD", PK_18.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:C3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_19: PublicKey = sia::public_key!("ed25519:D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE");
    v.push(("public_key", "ed25519:D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE", PK_19.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:D4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_20: PublicKey = sia::public_key!("ed25519:E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF");
    v.push(("public_key", "ed25519:E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF", PK_20.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:E5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    const PK_21: PublicKey = sia::public_key!("ed25519:F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0");
    v.push(("public_key", "ed25519:F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0", PK_21.as_ref().to_vec(), serde_json::from_value::<PublicKey>(serde_json::json!("ed25519:F6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f07eF6dE5cD4bC3aB29A18f0")).map(|x| x.as_ref().to_vec()).unwrap_or_default()));
    v
}
