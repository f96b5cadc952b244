//! SHA-512 from FIPS 180-4; constants derived from primes with integer roots.
fn primes(n: usize) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    let mut k = 2u128;
    while v.len() < n {
        if v.iter().all(|p| k % p != 0) {
            v.push(k)
        }
        k += 1;
    }
    v
}

// floor(2^64 * frac(p^(1/e))) for e = 2 or 3, by integer bisection on 64-bit fraction digits
fn frac_root(p: u128, e: u32) -> u64 {
    // find the largest r with (r / 2^64)^e <= p, r < 2^68
    let mut r: u128 = 0;
    for bit in (0..68).rev() {
        let c = r | 1 << bit;
        if le_pow(c, e, p) {
            r = c
        }
    }
    r as u64
}

// c^e <= p << (64*e), with wide limbs
fn le_pow(c: u128, e: u32, p: u128) -> bool {
    let mut acc = vec![1u64];
    let limbs = |x: u128| vec![x as u64, (x >> 64) as u64];
    let mul = |a: &[u64], b: &[u64]| {
        let mut o = vec![0u64; a.len() + b.len() + 1];
        for (i, &x) in a.iter().enumerate() {
            let mut carry = 0u128;
            for (j, &y) in b.iter().enumerate() {
                let t = x as u128 * y as u128 + o[i + j] as u128 + carry;
                o[i + j] = t as u64;
                carry = t >> 64;
            }
            o[i + b.len()] = carry as u64;
        }
        o
    };
    for _ in 0..e {
        acc = mul(&acc, &limbs(c));
    }
    let mut rhs = vec![0u64; e as usize];
    rhs.push(p as u64);
    let n = acc.len().max(rhs.len());
    acc.resize(n, 0);
    rhs.resize(n, 0);
    for i in (0..n).rev() {
        if acc[i] != rhs[i] {
            return acc[i] < rhs[i];
        }
    }
    true
}

struct Consts {
    h: [u64; 8],
    k: [u64; 80],
}

fn consts() -> &'static Consts {
    static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        let mut c = Consts { h: [0; 8], k: [0; 80] };
        for i in 0..8 {
            c.h[i] = frac_root(p[i], 2);
        }
        for i in 0..80 {
            c.k[i] = frac_root(p[i], 3);
        }
        c
    })
}

pub fn hash(parts: &[&[u8]]) -> [u8; 64] {
    let c = consts();
    let mut m: Vec<u8> = parts.concat();
    let bits = m.len() as u128 * 8;
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&bits.to_be_bytes());
    let mut h = c.h;
    for b in m.chunks(128) {
        let mut w = [0u64; 80];
        for t in 0..16 {
            w[t] = u64::from_be_bytes(b[8 * t..8 * t + 8].try_into().unwrap());
        }
        for t in 16..80 {
            let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
            let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v = h;
        for t in 0..80 {
            let e = v[4];
            let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
            let ch = (e & v[5]) ^ (!e & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k[t]).wrapping_add(w[t]);
            let a = v[0];
            let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
            let t2 = s0.wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), a, v[1], v[2], v[3].wrapping_add(t1), e, v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 64];
    for i in 0..8 {
        out[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
