//! The Minisign file formats.
use crate::{b64, blake2b, ed25519, kdf};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PubKey {
    pub alg: [u8; 2],
    pub id: [u8; 8],
    pub key: [u8; 32],
}
impl PubKey {
    pub fn to_bytes(&self) -> Vec<u8> {
        [&self.alg[..], &self.id, &self.key].concat()
    }
    pub fn parse_bytes(b: &[u8]) -> Option<PubKey> {
        if b.len() != 42 {
            return None;
        }
        Some(PubKey { alg: b[..2].try_into().ok()?, id: b[2..10].try_into().ok()?, key: b[10..].try_into().ok()? })
    }
    pub fn to_file(&self) -> String {
        format!("untrusted comment: minisign public key: {:016X}\n{}\n", u64::from_le_bytes(self.id), b64::encode(&self.to_bytes()))
    }
    /// Strict: exactly a comment line and a key line.
    pub fn parse_file(s: &str) -> Option<(String, PubKey)> {
        let l = lines(s)?;
        if l.len() != 2 {
            return None;
        }
        let c = l[0].strip_prefix("untrusted comment: ")?;
        Some((c.to_string(), PubKey::parse_bytes(&b64::decode(l[1].as_bytes())?)?))
    }
}

/// Lines of a text file that ends with a line feed.
fn lines(s: &str) -> Option<Vec<&str>> {
    let s = s.strip_suffix('\n')?;
    Some(s.split('\n').collect())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SecKey {
    pub alg: [u8; 2],
    pub kdf: [u8; 2],
    pub chkalg: [u8; 2],
    pub salt: [u8; 32],
    pub ops: u64,
    pub mem: u64,
    /// key id (8), seed and public key (64), checksum (32): possibly encrypted
    pub body: [u8; 104],
}
impl SecKey {
    pub fn plain(id: &[u8; 8], seed: &[u8; 32], pk: &[u8; 32]) -> SecKey {
        let mut body = [0; 104];
        body[..8].copy_from_slice(id);
        body[8..40].copy_from_slice(seed);
        body[40..72].copy_from_slice(pk);
        let mut k = SecKey { alg: *b"Ed", kdf: [0; 2], chkalg: *b"B2", salt: [0; 32], ops: 0, mem: 0, body };
        let c = k.checksum();
        k.body[72..].copy_from_slice(&c);
        k
    }
    pub fn checksum(&self) -> [u8; 32] {
        let v = [&self.alg[..], &self.body[..72]].concat();
        blake2b::hash(32, &v).try_into().unwrap()
    }
    pub fn checksum_ok(&self) -> bool {
        self.body[72..] == self.checksum()
    }
    fn xor(&mut self, stream: &[u8; 104]) {
        for (b, s) in self.body.iter_mut().zip(stream) {
            *b ^= s
        }
    }
    /// Encrypt a plain key. None when the limits are over the cap.
    pub fn encrypt(mut self, password: &[u8], salt: [u8; 32], ops: u64, mem: u64) -> Option<SecKey> {
        self.kdf = *b"Sc";
        self.salt = salt;
        self.ops = ops;
        self.mem = mem;
        let s = kdf::stream(password, &salt, ops, mem)?;
        self.xor(&s);
        Some(self)
    }
    /// Decrypt in place and tell whether the checksum is right.
    pub fn decrypt(mut self, password: &[u8]) -> Option<SecKey> {
        if self.kdf != *b"Sc" {
            return None;
        }
        let s = kdf::stream(password, &self.salt, self.ops, self.mem)?;
        self.xor(&s);
        if self.checksum_ok() { Some(self) } else { None }
    }
    pub fn id(&self) -> [u8; 8] {
        self.body[..8].try_into().unwrap()
    }
    pub fn seed(&self) -> [u8; 32] {
        self.body[8..40].try_into().unwrap()
    }
    pub fn pk(&self) -> [u8; 32] {
        self.body[40..72].try_into().unwrap()
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        [&self.alg[..], &self.kdf, &self.chkalg, &self.salt, &self.ops.to_le_bytes(), &self.mem.to_le_bytes(), &self.body].concat()
    }
    pub fn parse_bytes(b: &[u8]) -> Option<SecKey> {
        if b.len() != 158 {
            return None;
        }
        Some(SecKey {
            alg: b[..2].try_into().ok()?,
            kdf: b[2..4].try_into().ok()?,
            chkalg: b[4..6].try_into().ok()?,
            salt: b[6..38].try_into().ok()?,
            ops: u64::from_le_bytes(b[38..46].try_into().ok()?),
            mem: u64::from_le_bytes(b[46..54].try_into().ok()?),
            body: b[54..].try_into().ok()?,
        })
    }
    pub fn to_file(&self, comment: &str) -> String {
        format!("untrusted comment: {}\n{}\n", comment, b64::encode(&self.to_bytes()))
    }
    pub fn parse_file(s: &str) -> Option<(String, SecKey)> {
        let l = lines(s)?;
        if l.len() != 2 {
            return None;
        }
        let c = l[0].strip_prefix("untrusted comment: ")?;
        Some((c.to_string(), SecKey::parse_bytes(&b64::decode(l[1].as_bytes())?)?))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sig {
    pub untrusted: String,
    pub alg: [u8; 2],
    pub id: [u8; 8],
    pub sig: [u8; 64],
    pub trusted: String,
    pub global: [u8; 64],
}
impl Sig {
    pub fn bare(&self) -> Vec<u8> {
        [&self.alg[..], &self.id, &self.sig].concat()
    }
    pub fn to_file(&self) -> String {
        format!(
            "untrusted comment: {}\n{}\ntrusted comment: {}\n{}\n",
            self.untrusted,
            b64::encode(&self.bare()),
            self.trusted,
            b64::encode(&self.global)
        )
    }
    pub fn parse_file(s: &str) -> Option<Sig> {
        let l = lines(s)?;
        if l.len() != 4 {
            return None;
        }
        let b = b64::decode(l[1].as_bytes())?;
        if b.len() != 74 {
            return None;
        }
        Some(Sig {
            untrusted: l[0].strip_prefix("untrusted comment: ")?.to_string(),
            alg: b[..2].try_into().ok()?,
            id: b[2..10].try_into().ok()?,
            sig: b[10..].try_into().ok()?,
            trusted: l[2].strip_prefix("trusted comment: ")?.to_string(),
            global: b64::decode(l[3].as_bytes())?.try_into().ok()?,
        })
    }
    pub fn message(prehashed: bool, data: &[u8]) -> Vec<u8> {
        if prehashed { blake2b::hash(64, data) } else { data.to_vec() }
    }
    pub fn signed_comment(&self) -> Vec<u8> {
        [&self.sig[..], self.trusted.as_bytes()].concat()
    }
    /// Deterministic signature made by this independent implementation.
    pub fn make(prehashed: bool, seed: &[u8; 32], id: &[u8; 8], data: &[u8], trusted: &str, untrusted: &str) -> Sig {
        let sig = ed25519::sign(seed, &Sig::message(prehashed, data));
        let mut s = Sig {
            untrusted: untrusted.to_string(),
            alg: if prehashed { *b"ED" } else { *b"Ed" },
            id: *id,
            sig,
            trusted: trusted.to_string(),
            global: [0; 64],
        };
        s.global = ed25519::sign(seed, &s.signed_comment());
        s
    }
    /// The verdict a Minisign implementation must reach (unknown tags: false).
    pub fn verify(&self, pk: &PubKey, data: &[u8], allow_legacy: bool) -> bool {
        let prehashed = match &self.alg {
            b"ED" => true,
            b"Ed" => false,
            _ => return false,
        };
        self.id == pk.id
            && (prehashed || allow_legacy)
            && ed25519::verify(&pk.key, &Sig::message(prehashed, data), &self.sig)
            && ed25519::verify(&pk.key, &self.signed_comment(), &self.global)
    }
}
