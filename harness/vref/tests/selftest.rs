//! Known-answer tests of the reference (RFC 8032 vectors, hashlib-made fixtures).
use vref::*;
fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn h(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
#[test]
fn rfc8032() {
    for (sk, pk, m, sig) in [
        ("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a", "", "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b"),
        ("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb", "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c", "72", "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00"),
        ("c5aa8df43f9f837bedb7442f31dcb7b166d38535076f094b85ce3a2e0b4458f7", "fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025", "af82", "6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a"),
    ] {
        let (sk, pk, m, sig) = (hex(sk), hex(pk), hex(m), hex(sig));
        assert_eq!(ed25519::public(&sk)[..], pk[..]);
        assert_eq!(ed25519::sign(&sk, &m)[..], sig[..]);
        assert!(ed25519::verify(&pk, &m, &sig));
        assert!(!ed25519::verify(&pk, b"zzz", &sig));
    }
    let t = ed25519::Point::torsion8();
    assert!(t.is_small_order() && t.mul(&[4, 0, 0, 0]) != ed25519::Point::identity());
    assert!(ed25519::Point::base().mul(&ed25519::L) == ed25519::Point::identity());
}
#[test]
fn hashes() {
    let f = include_str!("fixtures.txt");
    let mut n = 0;
    for l in f.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let len: usize = w[1].parse().unwrap();
        let data: Vec<u8> = (0..len).map(|i| (i * i + 7 * i + len) as u8).collect();
        match w[0] {
            "b512" => assert_eq!(h(&blake2b::hash(64, &data)), w[2]),
            "b256" => assert_eq!(h(&blake2b::hash(32, &data)), w[2]),
            "sha512" => assert_eq!(h(&sha512::hash(&[&data])), w[2]),
            "scrypt" => {
                let (n, p): (u32, u32) = (w[2].parse().unwrap(), w[3].parse().unwrap());
                let params = scrypt::Params::new(n as u8, 8, p, 32).unwrap();
                let mut out = [0u8; 104];
                scrypt::scrypt(&data, b"saltsaltsaltsaltsaltsaltsaltsalt", &params, &mut out).unwrap();
                assert_eq!(h(&out), w[4]);
            }
            _ => panic!(),
        }
        n += 1;
    }
    assert!(n > 100);
}
#[test]
fn base64() {
    for n in 0..40usize {
        let d: Vec<u8> = (0..n).map(|i| (i * 37 + n) as u8).collect();
        assert_eq!(b64::decode(b64::encode(&d).as_bytes()).unwrap(), d);
    }
    for bad in ["A", "AA", "AAA", "AA=A", "AB==", "AAB=", "A===", "====", "AAAA=", "AA==AAAA", "AA A", "AA\n="] {
        assert!(b64::decode(bad.as_bytes()).is_none(), "{bad}");
    }
}
#[test]
fn known_minisign_files() {
    let pk = mini::PubKey::parse_bytes(&b64::decode(b"RWQf6LRCGA9i53mlYecO4IzT51TGPpvWucNSCh1CBM0QTaLn73Y7GFO3").unwrap()).unwrap();
    let s = mini::Sig::parse_file("untrusted comment: signature from minisign secret key\nRUQf6LRCGA9i559r3g7V1qNyJDApGip8MfqcadIgT9CuhV3EMhHoN1mGTkUidF/z7SrlQgXdy8ofjb7bNJJylDOocrCo8KLzZwo=\ntrusted comment: timestamp:1556193335\tfile:test\ny/rUw2y8/hOUYjZU71eHp/Wo1KZ40fGy2VJEDl34XMJM+TX48Ss/17u3IvIfbVR1FkZZSNCisQbuQY+bHwhEBg==\n").unwrap();
    assert!(s.verify(&pk, b"test", false));
    assert!(!s.verify(&pk, b"test2", false));
    let s = mini::Sig::parse_file("untrusted comment: signature from minisign secret key\nRWQf6LRCGA9i59SLOFxz6NxvASXDJeRtuZykwQepbDEGt87ig1BNpWaVWuNrm73YiIiJbq71Wi+dP9eKL8OC351vwIasSSbXxwA=\ntrusted comment: timestamp:1555779966\tfile:test\nQtKMXWyYcwdpZAlPF7tE2ENJkRd1ujvKjlj1m9RtHTBnZPa5WKU5uWRs5GoP5M/VqE81QFuMKI5k/SfNQUaOAA==\n").unwrap();
    assert!(s.verify(&pk, b"test", true));
    assert!(!s.verify(&pk, b"test", false));
}
#[test]
fn default_limits() {
    assert_eq!(kdf::pickparams(kdf::OPSLIMIT, kdf::MEMLIMIT), (15, 8, 1));
}
