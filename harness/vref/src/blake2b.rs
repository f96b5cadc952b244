//! BLAKE2b, unkeyed, straight from RFC 7693.
const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[u8; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

fn g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(32);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(24);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(63);
}

fn f(h: &mut [u64; 8], block: &[u8], t: u128, last: bool) {
    let mut m = [0u64; 16];
    for i in 0..16 {
        m[i] = u64::from_le_bytes(block[8 * i..8 * i + 8].try_into().unwrap());
    }
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u64;
    v[13] ^= (t >> 64) as u64;
    if last {
        v[14] = !v[14];
    }
    for r in 0..12 {
        let s = &SIGMA[r % 10];
        let mm = |i: usize| m[s[i] as usize];
        g(&mut v, 0, 4, 8, 12, mm(0), mm(1));
        g(&mut v, 1, 5, 9, 13, mm(2), mm(3));
        g(&mut v, 2, 6, 10, 14, mm(4), mm(5));
        g(&mut v, 3, 7, 11, 15, mm(6), mm(7));
        g(&mut v, 0, 5, 10, 15, mm(8), mm(9));
        g(&mut v, 1, 6, 11, 12, mm(10), mm(11));
        g(&mut v, 2, 7, 8, 13, mm(12), mm(13));
        g(&mut v, 3, 4, 9, 14, mm(14), mm(15));
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

pub fn hash(outlen: usize, data: &[u8]) -> Vec<u8> {
    let mut h = IV;
    h[0] ^= 0x01010000 ^ outlen as u64;
    let nblocks = std::cmp::max(1, data.len().div_ceil(128));
    for i in 0..nblocks {
        let end = std::cmp::min(data.len(), 128 * i + 128);
        let mut b = [0u8; 128];
        b[..end - 128 * i].copy_from_slice(&data[128 * i..end]);
        f(&mut h, &b, end as u128, i + 1 == nblocks);
    }
    let mut out = vec![];
    for x in h {
        out.extend_from_slice(&x.to_le_bytes());
    }
    out.truncate(outlen);
    out
}
