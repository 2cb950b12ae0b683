//! Independent one-shot SHA-256 (FIPS 180-4) and HMAC (RFC 2104).

fn primes() -> [u64; 64] {
    let mut p = [0; 64];
    let (mut n, mut i) = (2u64, 0);
    while i < 64 {
        if (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0) {
            p[i] = n;
            i += 1;
        }
        n += 1;
    }
    p
}

// First 32 bits of the fractional part of the square/cube root of `n`, by
// integer bisection.
fn frac(n: u64, cube: bool) -> u32 {
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    let target = if cube { (n as u128) << 96 } else { (n as u128) << 64 };
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        let v = if cube {
            // Avoid overflow: m < 2^36 for all used values.
            if m >= 1 << 36 { u128::MAX } else { m * m * m }
        } else {
            m * m
        };
        if v <= target { lo = m } else { hi = m }
    }
    lo as u32
}

pub struct Tables {
    h: [u32; 8],
    k: [u32; 64],
}

pub fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let p = primes();
        let mut t = Tables { h: [0; 8], k: [0; 64] };
        for i in 0..8 {
            t.h[i] = frac(p[i], false);
        }
        for i in 0..64 {
            t.k[i] = frac(p[i], true);
        }
        t
    })
}

pub fn block(state: &mut [u32; 8], b: &[u8]) {
    let t = tables();
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes(b[i * 4..i * 4 + 4].try_into().unwrap());
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *state;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(t.k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        state[i] = state[i].wrapping_add(v[i]);
    }
}

/// Digest of `prefix_len` bytes already absorbed in `state` followed by `data`.
/// `prefix_len` must be a multiple of the block size.
pub fn sha256_from(mut state: [u32; 8], prefix_len: u64, data: &[u8]) -> [u8; 32] {
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((prefix_len + data.len() as u64) * 8).to_be_bytes());
    for b in m.chunks(64) {
        block(&mut state, b);
    }
    let mut out = [0; 32];
    for i in 0..8 {
        out[i * 4..i * 4 + 4].copy_from_slice(&state[i].to_be_bytes());
    }
    out
}

pub fn init() -> [u32; 8] {
    tables().h
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    sha256_from(init(), 0, data)
}

pub fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let mut inner: Vec<u8> = k.iter().map(|v| v ^ 0x36).collect();
    inner.extend_from_slice(data);
    let mut outer: Vec<u8> = k.iter().map(|v| v ^ 0x5c).collect();
    outer.extend_from_slice(&sha256(&inner));
    sha256(&outer)
}

#[cfg(test)]
#[test]
fn vectors() {
    let hex = |v: [u8; 32]| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
    assert_eq!(hex(sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    assert_eq!(
        hex(hmac(b"key", b"The quick brown fox jumps over the lazy dog")),
        "f7bc83f430538424b13298e6aa6fb143ef4d59a14946175997479dbc2d1a3cd8"
    );
}
