//! RFC 4648 base64 with mandatory padding and no slack bits.
const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn encode(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(T[(v >> (18 - 6 * k) & 63) as usize] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}

pub fn decode(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    let n = s.len() / 4;
    for (i, q) in s.chunks(4).enumerate() {
        let pad = if i + 1 == n { q.iter().rev().take_while(|&&c| c == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut v = 0u32;
        for k in 0..4 {
            let d = if k >= 4 - pad { 0 } else { T.iter().position(|&t| t == q[k])? as u32 };
            v = v << 6 | d;
        }
        let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        if bytes[3 - pad..].iter().any(|&b| b != 0) {
            return None;
        }
        out.extend_from_slice(&bytes[..3 - pad]);
    }
    Some(out)
}
