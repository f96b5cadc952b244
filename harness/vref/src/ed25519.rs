//! Ed25519 from RFC 8032 with plain fully reduced arithmetic: every constant is derived from
//! its definition, every addition uses the complete formula, scalars are reduced bit by bit.
use crate::sha512;
use std::sync::OnceLock;

pub type U256 = [u64; 4];

pub const P: U256 = [0xffffffffffffffed, u64::MAX, u64::MAX, 0x7fffffffffffffff];
/// The group order.
pub const L: U256 = [0x5812631a5cf5d3ed, 0x14def9dea2f79cd6, 0, 0x1000000000000000];

pub fn from_le(b: &[u8]) -> U256 {
    let mut r = [0; 4];
    for i in 0..4 {
        r[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    r
}
pub fn to_le(a: &U256) -> [u8; 32] {
    let mut r = [0; 32];
    for i in 0..4 {
        r[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    r
}
pub fn lt(a: &U256, b: &U256) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
pub fn add_carry(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
pub fn sub_borrow(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br as u64);
        r[i] = x;
        br = b1 || b2;
    }
    (r, br)
}
fn mul_wide(a: &U256, b: &U256) -> [u64; 8] {
    let mut o = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += a[i] as u128 * b[j] as u128 + o[i + j] as u128;
            o[i + j] = c as u64;
            c >>= 64;
        }
        o[i + 4] = c as u64;
    }
    o
}

// ---- field mod p = 2^255 - 19
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fe(pub U256);
impl Fe {
    pub fn small(x: u64) -> Fe {
        Fe([x, 0, 0, 0])
    }
    pub fn add(&self, o: &Fe) -> Fe {
        let (s, _) = add_carry(&self.0, &o.0);
        Fe(if lt(&s, &P) { s } else { sub_borrow(&s, &P).0 })
    }
    pub fn sub(&self, o: &Fe) -> Fe {
        let (s, b) = sub_borrow(&self.0, &o.0);
        Fe(if b { add_carry(&s, &P).0 } else { s })
    }
    pub fn mul(&self, o: &Fe) -> Fe {
        let w = mul_wide(&self.0, &o.0);
        // lo + 38 * hi
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += w[i] as u128 + 38 * w[i + 4] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        while c != 0 {
            let mut k = c * 38;
            for x in r.iter_mut() {
                k += *x as u128;
                *x = k as u64;
                k >>= 64;
            }
            c = k;
        }
        while !lt(&r, &P) {
            r = sub_borrow(&r, &P).0;
        }
        Fe(r)
    }
    pub fn pow(&self, e: &U256) -> Fe {
        let mut r = Fe::small(1);
        for i in (0..256).rev() {
            r = r.mul(&r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn inv(&self) -> Fe {
        self.pow(&sub_borrow(&P, &[2, 0, 0, 0]).0)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn neg(&self) -> Fe {
        Fe::small(0).sub(self)
    }
}

fn shr(a: &U256, n: u32) -> U256 {
    let mut r = *a;
    for _ in 0..n {
        for i in 0..4 {
            r[i] = r[i] >> 1 | if i < 3 { r[i + 1] << 63 } else { 0 };
        }
    }
    r
}

pub struct Consts {
    pub d: Fe,
    pub sqrtm1: Fe,
    pub base: Point,
}
pub fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let d = Fe::small(121665).neg().mul(&Fe::small(121666).inv());
        let pm1 = sub_borrow(&P, &[1, 0, 0, 0]).0;
        let sqrtm1 = Fe::small(2).pow(&shr(&pm1, 2));
        assert!(sqrtm1.mul(&sqrtm1) == Fe::small(1).neg());
        let y = Fe::small(4).mul(&Fe::small(5).inv());
        let base = decompress_xy(y, false, &d, &sqrtm1).unwrap();
        Consts { d, sqrtm1, base }
    })
}

// x from y and sign; None when y is not the ordinate of a point, or x = 0 with sign set
fn decompress_xy(y: Fe, sign: bool, d: &Fe, sqrtm1: &Fe) -> Option<Point> {
    let y2 = y.mul(&y);
    let u = y2.sub(&Fe::small(1));
    let v = y2.mul(d).add(&Fe::small(1));
    let w = u.mul(&v.inv());
    // candidate root w^((p+3)/8)
    let e = shr(&add_carry(&P, &[3, 0, 0, 0]).0, 3);
    let mut x = w.pow(&e);
    if x.mul(&x) != w {
        x = x.mul(sqrtm1);
        if x.mul(&x) != w {
            return None;
        }
    }
    if x.is_zero() && sign {
        return None;
    }
    if (x.0[0] & 1 == 1) != sign {
        x = x.neg();
    }
    Some(Point { x, y, z: Fe::small(1), t: x.mul(&y) })
}

#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub x: Fe,
    pub y: Fe,
    pub z: Fe,
    pub t: Fe,
}
impl PartialEq for Point {
    fn eq(&self, o: &Point) -> bool {
        self.x.mul(&o.z) == o.x.mul(&self.z) && self.y.mul(&o.z) == o.y.mul(&self.z)
    }
}
impl Point {
    pub fn identity() -> Point {
        Point { x: Fe::small(0), y: Fe::small(1), z: Fe::small(1), t: Fe::small(0) }
    }
    pub fn base() -> Point {
        consts().base
    }
    pub fn add(&self, o: &Point) -> Point {
        let d = consts().d;
        let a = self.y.sub(&self.x).mul(&o.y.sub(&o.x));
        let b = self.y.add(&self.x).mul(&o.y.add(&o.x));
        let c = self.t.mul(&d.add(&d)).mul(&o.t);
        let dd = self.z.add(&self.z).mul(&o.z);
        let (e, f, g, h) = (b.sub(&a), dd.sub(&c), dd.add(&c), b.add(&a));
        Point { x: e.mul(&f), y: g.mul(&h), t: e.mul(&h), z: f.mul(&g) }
    }
    pub fn neg(&self) -> Point {
        Point { x: self.x.neg(), y: self.y, z: self.z, t: self.t.neg() }
    }
    pub fn mul(&self, k: &U256) -> Point {
        let mut r = Point::identity();
        for i in (0..256).rev() {
            r = r.add(&r);
            if k[i / 64] >> (i % 64) & 1 == 1 {
                r = r.add(self);
            }
        }
        r
    }
    pub fn encode(&self) -> [u8; 32] {
        let zi = self.z.inv();
        let (x, y) = (self.x.mul(&zi), self.y.mul(&zi));
        let mut b = to_le(&y.0);
        b[31] |= ((x.0[0] & 1) as u8) << 7;
        b
    }
    /// RFC 8032 decoding: None for y >= p, off-curve, or x = 0 with the sign bit set.
    pub fn decode(b: &[u8]) -> Option<Point> {
        let mut y = from_le(b);
        let sign = y[3] >> 63 == 1;
        y[3] &= u64::MAX >> 1;
        if !lt(&y, &P) {
            return None;
        }
        let c = consts();
        decompress_xy(Fe(y), sign, &c.d, &c.sqrtm1)
    }
    pub fn is_small_order(&self) -> bool {
        self.mul(&[8, 0, 0, 0]) == Point::identity()
    }
    /// A point of order exactly 8.
    pub fn torsion8() -> Point {
        static T: OnceLock<Point> = OnceLock::new();
        *T.get_or_init(|| {
            for k in 2u64.. {
                if let Some(p) = Point::decode(&to_le(&[k, 0, 0, 0])) {
                    let t = p.mul(&L);
                    if t.mul(&[4, 0, 0, 0]) != Point::identity() {
                        return t;
                    }
                }
            }
            unreachable!()
        })
    }
}

// ---- scalars mod L
pub fn reduce512(w: &[u8]) -> U256 {
    let mut r = [0u64; 4];
    for byte in w.iter().rev() {
        for bit in (0..8).rev() {
            // r = 2r + bit; r < L < 2^253 so no overflow
            let (d, _) = add_carry(&r, &r);
            r = add_carry(&d, &[(byte >> bit & 1) as u64, 0, 0, 0]).0;
            if !lt(&r, &L) {
                r = sub_borrow(&r, &L).0;
            }
        }
    }
    r
}
pub fn sc_mul(a: &U256, b: &U256) -> U256 {
    let w = mul_wide(a, b);
    let mut bytes = vec![];
    for x in w {
        bytes.extend_from_slice(&x.to_le_bytes());
    }
    reduce512(&bytes)
}
pub fn sc_add(a: &U256, b: &U256) -> U256 {
    // operands may be unreduced: reduce first
    let (s, _) = add_carry(&reduce512(&to_le(a)), &reduce512(&to_le(b)));
    if lt(&s, &L) { s } else { sub_borrow(&s, &L).0 }
}
pub fn sc_neg(a: &U256) -> U256 {
    let r = reduce512(&to_le(a));
    if r == [0; 4] { r } else { sub_borrow(&L, &r).0 }
}

pub struct Secret {
    pub a: U256,
    pub prefix: [u8; 32],
    pub pk: [u8; 32],
}
pub fn expand(seed: &[u8]) -> Secret {
    let mut h = sha512::hash(&[seed]);
    h[0] &= 248;
    h[31] &= 127;
    h[31] |= 64;
    let a = from_le(&h[..32]);
    let pk = Point::base().mul(&a).encode();
    Secret { a, prefix: h[32..].try_into().unwrap(), pk }
}
pub fn public(seed: &[u8]) -> [u8; 32] {
    expand(seed).pk
}
pub fn hram(r: &[u8], pk: &[u8], msg: &[u8]) -> U256 {
    reduce512(&sha512::hash(&[r, pk, msg]))
}
/// Deterministic RFC 8032 signature.
pub fn sign(seed: &[u8], msg: &[u8]) -> [u8; 64] {
    let s = expand(seed);
    let r = reduce512(&sha512::hash(&[&s.prefix, msg]));
    sign_raw(&s.a, &s.pk, &r, &Point::identity(), msg)
}
/// Signature from chosen scalars: R = r*B + extra.
pub fn sign_raw(a: &U256, pk: &[u8], r: &U256, extra: &Point, msg: &[u8]) -> [u8; 64] {
    let rb = Point::base().mul(r).add(extra).encode();
    let h = hram(&rb, pk, msg);
    let s = sc_add(r, &sc_mul(&h, &reduce512(&to_le(a))));
    let mut sig = [0; 64];
    sig[..32].copy_from_slice(&rb);
    sig[32..].copy_from_slice(&to_le(&s));
    sig
}
/// Strict cofactorless verification; the commitment is compared byte for byte.
pub fn verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    if sig.len() != 64 || pk.len() != 32 {
        return false;
    }
    let s = from_le(&sig[32..]);
    if !lt(&s, &L) {
        return false;
    }
    let a = match Point::decode(pk) {
        Some(a) => a,
        None => return false,
    };
    if a == Point::identity() || pk.iter().all(|&b| b == 0) {
        return false;
    }
    let h = hram(&sig[..32], pk, msg);
    let r = Point::base().mul(&s).add(&a.neg().mul(&h));
    r.encode()[..] == sig[..32]
}
/// The nonce scalar r = S - h*a of a signature.
pub fn nonce_of(seed: &[u8], msg: &[u8], sig: &[u8]) -> U256 {
    let s = expand(seed);
    let h = hram(&sig[..32], &s.pk, msg);
    sc_add(&from_le(&sig[32..]), &sc_neg(&sc_mul(&h, &reduce512(&to_le(&s.a)))))
}
