//! SHA-256 and SHA-512 (FIPS 180-4), constants computed from the primes.
use std::sync::OnceLock;

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut k = 2;
    while v.len() < n {
        if v.iter().all(|p| k % p != 0) {
            v.push(k);
        }
        k += 1;
    }
    v
}
/// first 64 fractional bits of the root
fn frac(p: u64, cube: bool) -> u64 {
    use num_bigint::BigUint;
    let x = BigUint::from(p);
    let r = if cube { (x << 192u32).cbrt() } else { (x << 128u32).sqrt() };
    let d = (r % (BigUint::from(1u8) << 64u32)).to_u64_digits();
    d.first().copied().unwrap_or(0)
}
fn consts() -> &'static (Vec<u64>, Vec<u64>) {
    static C: OnceLock<(Vec<u64>, Vec<u64>)> = OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        (p[..8].iter().map(|x| frac(*x, false)).collect(), p.iter().map(|x| frac(*x, true)).collect())
    })
}

pub fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let (iv, k) = consts();
    let mut m: Vec<u8> = parts.concat();
    let bits = m.len() as u128 * 8;
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&bits.to_be_bytes());
    let mut h: [u64; 8] = iv[..].try_into().unwrap();
    for b in m.chunks(128) {
        let mut w = [0u64; 80];
        for i in 0..16 {
            w[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0; 64];
    for i in 0..8 {
        o[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let (iv, k) = consts();
    let mut m = data.to_vec();
    let bits = m.len() as u64 * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&bits.to_be_bytes());
    let mut h: [u32; 8] = [0; 8];
    for i in 0..8 {
        h[i] = (iv[i] >> 32) as u32;
    }
    for b in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((k[i] >> 32) as u32).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

#[test]
fn known() {
    assert_eq!(hex::encode(sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    assert_eq!(
        hex::encode(sha512(&[b"abc"])),
        "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"
    );
}
