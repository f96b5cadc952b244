//! libsodium's crypto_pwhash_scryptsalsa208sha256 parameter rule, and the key stream.

pub const OPSLIMIT: u64 = 1 << 20;
pub const MEMLIMIT: u64 = 32 << 20;
pub const MEM_CAP: u64 = 1 << 30;

/// (N_log2, r, p) picked by libsodium for the limits.
pub fn pickparams(opslimit: u64, memlimit: u64) -> (u32, u64, u64) {
    let opslimit = opslimit.max(32768);
    let r = 8u64;
    let nlog = |maxn: u64| {
        let mut n = 1;
        while n < 63 && (1u64 << n) <= maxn / 2 {
            n += 1;
        }
        n
    };
    if opslimit < memlimit / 32 {
        (nlog(opslimit / (r * 4)), r, 1)
    } else {
        let n = nlog(memlimit / (r * 128));
        let maxrp = ((opslimit / 4) >> n).min(0x3fffffff);
        (n, r, maxrp / r)
    }
}

/// Bytes scrypt needs for its two large buffers.
pub fn memory(n_log2: u32, r: u64, p: u64) -> u128 {
    ((128 * r as u128) << n_log2).max(128 * r as u128 * p as u128)
}

/// Salsa20/8 core evaluations, as a cost measure (about 4*N*r*p).
pub fn cost(n_log2: u32, r: u64, p: u64) -> u128 {
    (4 * r as u128 * p as u128) << n_log2
}

/// None when the limits ask for more than the cap.
pub fn stream(password: &[u8], salt: &[u8], opslimit: u64, memlimit: u64) -> Option<[u8; 104]> {
    let (n, r, p) = pickparams(opslimit, memlimit);
    if memory(n, r, p) > MEM_CAP as u128 || p == 0 {
        return None;
    }
    let params = scrypt::Params::new(n as u8, r as u32, p as u32, 32).ok()?;
    let mut out = [0u8; 104];
    scrypt::scrypt(password, salt, &params, &mut out).ok()?;
    Some(out)
}
