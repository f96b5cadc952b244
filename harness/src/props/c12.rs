//! Hostile input to every loading function, and then to everything that uses what was loaded.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use minisign::{PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{b64, kdf, mini};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Target {
    Sig,
    Bones,
    PkText,
    PkB64,
    PkBytes,
    SkText,
    SkBytes,
}
const TARGETS: [Target; 7] = [Target::Sig, Target::Bones, Target::PkText, Target::PkB64, Target::PkBytes, Target::SkText, Target::SkBytes];

/// The binary part of a line.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Field {
    /// Index of the algorithm bytes.
    pub alg: u8,
    pub len: usize,
    pub fill: u32,
    /// Standard, URL-safe, unpadded, raw bytes, with blanks around
    pub enc: u8,
}
const ALGS: [&[u8]; 8] = [b"Ed", b"ED", b"EC", b"", b"Ed\0\0B2", b"EdScB2", b"ed", b"\0\0"];
impl Field {
    fn raw(&self) -> Vec<u8> {
        let mut v = ALGS[self.alg as usize % ALGS.len()].to_vec();
        v.extend(match self.fill % 4 {
            0 => vec![0; self.len],
            1 => vec![0xff; self.len],
            _ => stream(self.fill as u64, self.len),
        });
        v.truncate(self.len);
        v
    }
    fn text(&self) -> Vec<u8> {
        let r = self.raw();
        let e = b64::encode(&r);
        match self.enc % 8 {
            0..=3 => e.into_bytes(),
            4 => e.replace('+', "-").replace('/', "_").into_bytes(),
            5 => e.trim_end_matches('=').as_bytes().to_vec(),
            6 => r,
            _ => format!(" \t{e} \u{a0}").into_bytes(),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Line {
    Text { prefix: u8, text: String },
    Bin { prefix: u8, f: Field },
    Raw(Hex),
}
const PREFIXES: [&str; 9] = ["", "untrusted comment: ", "trusted comment: ", "untrusted comment:", "trusted comment:", "untrusted", "Untrusted comment: ", "\u{feff}untrusted comment: ", "trusted commentä "];
const ENDS: [&str; 7] = ["\n", "\r\n", "\r", "", "\n\n", "\u{2028}", "\0"];
impl Line {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Line::Text { prefix, text } => format!("{}{text}", PREFIXES[*prefix as usize % PREFIXES.len()]).into_bytes(),
            Line::Bin { prefix, f } => [PREFIXES[*prefix as usize % PREFIXES.len()].as_bytes(), &f.text()].concat(),
            Line::Raw(h) => h.0.clone(),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutn {
    Flip { at: usize, bit: u8 },
    Set { at: usize, to: u8 },
    Insert { at: usize, what: Hex },
    Delete { at: usize, n: usize },
    Copy { from: usize, n: usize, to: usize },
    Truncate { n: usize },
    /// n-th line away, doubled, swapped with the next
    LineGone { n: usize },
    LineTwice { n: usize },
    LineSwap { n: usize },
    LineIs { n: usize, l: Line },
    /// the binary field of line n: bytes cut off, added or changed, encoded again
    Cut { n: usize, k: usize },
    Grow { n: usize, k: usize, fill: u32 },
    FieldByte { n: usize, at: usize, to: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Recipe {
    Random(Hex),
    Filled { len: usize, byte: u8 },
    Field(Field),
    Lines { lines: Vec<Line>, ends: Vec<u8>, last: bool },
    Mutated { key: u32, kind: u8, tc: String, m: Vec<Mutn> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub target: Target,
    pub recipe: Recipe,
    pub data: Data,
    pub sizes: Vec<usize>,
    pub start: u64,
    pub pw: String,
}

fn lines_of(b: &[u8]) -> Vec<Vec<u8>> {
    b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect()
}
fn field(l: &[u8]) -> Option<Vec<u8>> {
    b64::decode(String::from_utf8_lossy(l).trim().as_bytes())
}
fn mutate(mut b: Vec<u8>, m: &[Mutn], binary: bool) -> Vec<u8> {
    for m in m {
        let n = b.len();
        let refield = |b: &[u8], n: usize, f: &mut dyn FnMut(&mut Vec<u8>)| {
            if binary {
                let mut v = b.to_vec();
                f(&mut v);
                return v;
            }
            let mut ls = lines_of(b);
            let k = ls.len().max(1);
            if let Some(l) = ls.get_mut(n % k) {
                if let Some(mut v) = field(l) {
                    f(&mut v);
                    let end = if l.ends_with(b"\n") { "\n" } else { "" };
                    *l = (b64::encode(&v) + end).into_bytes();
                }
            }
            ls.concat()
        };
        match m {
            Mutn::Flip { at, bit } if n > 0 => b[at % n] ^= 1 << (bit % 8),
            Mutn::Set { at, to } if n > 0 => b[at % n] = *to,
            Mutn::Insert { at, what } => {
                let at = at % (n + 1);
                b.splice(at..at, what.0.iter().copied());
            }
            Mutn::Delete { at, n: k } if n > 0 => {
                let at = at % n;
                b.drain(at..(at + k).min(n));
            }
            Mutn::Copy { from, n: k, to } if n > 0 => {
                let from = from % n;
                let c = b[from..(from + k).min(n)].to_vec();
                let to = to % (n + 1);
                b.splice(to..to, c);
            }
            Mutn::Truncate { n: k } => b.truncate(k % (n + 1)),
            Mutn::LineGone { n } | Mutn::LineTwice { n } | Mutn::LineSwap { n } | Mutn::LineIs { n, .. } => {
                let mut ls = lines_of(&b);
                if ls.is_empty() {
                    continue;
                }
                let i = n % ls.len();
                match m {
                    Mutn::LineGone { .. } => {
                        ls.remove(i);
                    }
                    Mutn::LineTwice { .. } => ls.insert(i, ls[i].clone()),
                    Mutn::LineSwap { .. } => {
                        let j = (i + 1) % ls.len();
                        ls.swap(i, j)
                    }
                    Mutn::LineIs { l, .. } => ls[i] = [l.bytes(), b"\n".to_vec()].concat(),
                    _ => {}
                }
                b = ls.concat();
            }
            Mutn::Cut { n, k } => b = refield(&b, *n, &mut |v| v.truncate(v.len().saturating_sub(*k))),
            Mutn::Grow { n, k, fill } => b = refield(&b, *n, &mut |v| v.extend(stream(*fill as u64, *k))),
            Mutn::FieldByte { n, at, to } => {
                b = refield(&b, *n, &mut |v| {
                    let k = v.len().max(1);
                    if let Some(x) = v.get_mut(at % k) {
                        *x = *to
                    }
                })
            }
            _ => {}
        }
    }
    b
}
fn enc_key(k: &Key, kind: u8) -> mini::SecKey {
    let mut e = k.rsk.clone().encrypt(b"pw", [kind; 32], 32768, 4096).unwrap();
    if kind % 4 == 3 {
        e.ops = 1 << 40;
    }
    e
}
fn base(t: Target, key_n: u32, kind: u8, tc: &str, data: &[u8]) -> Vec<u8> {
    let k = key(key_n);
    let sig = || mini::Sig::make(kind % 2 == 0, &k.seed, &k.id, data, tc, "untrusted");
    let sk = || match kind % 4 {
        0 | 1 => k.rsk.clone(),
        _ => enc_key(&k, kind),
    };
    match t {
        Target::Sig => sig().to_file().into_bytes(),
        Target::Bones => sig().bare(),
        Target::PkText => k.rpk.to_file().into_bytes(),
        Target::PkB64 => b64::encode(&k.rpk.to_bytes()).into_bytes(),
        Target::PkBytes => k.rpk.to_bytes(),
        Target::SkText => sk().to_file("c").into_bytes(),
        Target::SkBytes => sk().to_bytes(),
    }
}
pub fn build(c: &Case, data: &[u8]) -> Vec<u8> {
    match &c.recipe {
        Recipe::Random(h) => h.0.clone(),
        Recipe::Filled { len, byte } => vec![*byte; *len],
        Recipe::Field(f) => {
            if matches!(c.target, Target::Bones | Target::PkBytes | Target::SkBytes) {
                f.raw()
            } else {
                f.text()
            }
        }
        Recipe::Lines { lines, ends, last } => {
            let mut v = vec![];
            for (i, l) in lines.iter().enumerate() {
                v.extend(l.bytes());
                if i + 1 < lines.len() || *last {
                    v.extend(ENDS[ends.get(i % ends.len().max(1)).copied().unwrap_or(0) as usize % ENDS.len()].as_bytes());
                }
            }
            v
        }
        Recipe::Mutated { key, kind, tc, m } => mutate(base(c.target, *key, *kind, tc, data), m, matches!(c.target, Target::Bones | Target::PkBytes | Target::SkBytes)),
    }
}

/// Is every derivation that this text could ask for either quick or over the cap?
pub fn affordable(b: &[u8]) -> bool {
    let t = String::from_utf8_lossy(b);
    t.split(['\n', '\r']).all(|l| {
        let quick = |v: &[u8]| {
            if v.len() < 54 || v[2..4] != *b"Sc" {
                return true;
            }
            let (o, m) = (u64::from_le_bytes(v[38..46].try_into().unwrap()), u64::from_le_bytes(v[46..54].try_into().unwrap()));
            let (n, r, p) = kdf::pickparams(o, m);
            kdf::memory(n, r, p) > 2 * kdf::MEM_CAP as u128 || kdf::cost(n, r, p) <= 1 << 17
        };
        [l, l.trim()].iter().all(|l| b64::decode(l.as_bytes()).is_none_or(|v| quick(&v)))
    })
}

struct Use<'a> {
    c: &'a Case,
    data: Vec<u8>,
    accepted: bool,
}
impl Use<'_> {
    fn verify(&self, pk: &PublicKey, b: &SignatureBox, all: bool) -> bool {
        let mut any = false;
        for flags in if all { 0..8u8 } else { 5..6 } {
            let (quiet, output, legacy) = (flags & 1 != 0, flags & 2 != 0, flags & 4 != 0);
            let mut r = Rd::new(&self.data, &self.c.sizes);
            r.pos = self.c.start;
            any |= minisign::verify(pk, b, &mut r, quiet, output, legacy).is_ok();
        }
        any
    }
    fn sig(&mut self, b: SignatureBox, bare: bool) {
        self.accepted = true;
        let _ = (b.untrusted_comment(), b.trusted_comment(), b.keynum().len(), b.is_prehashed());
        let x = SignatureBones::from(b.clone());
        let raw = x.to_bytes();
        let _ = x.is_prehashed();
        let _ = SignatureBones::from_bytes(&raw);
        let twin: SignatureBox = x.into();
        if !bare {
            let s = b.to_string();
            let _ = (b.to_bytes(), SignatureBox::from_string(&s), String::from(b.clone()), b.clone().into_string());
        }
        // with the key it asks for and with another
        let k = key(self.data.len() as u32 % 24);
        let mut own = k.rpk.clone();
        if b.keynum().len() == 8 {
            own.id.copy_from_slice(b.keynum());
        }
        if let Recipe::Mutated { key: n, .. } = &self.c.recipe {
            own.key = key(*n).rpk.key;
        }
        self.verify(&pk_of(&own), &b, true);
        self.verify(&pk_of(&own), &twin, false);
        self.verify(&k.pk, &b, false);
    }
    fn pk(&mut self, p: PublicKey) {
        self.accepted = true;
        let _ = (p.keynum().len(), p.to_bytes(), p.to_base64(), format!("{p:?}"), p == p.clone());
        let b = p.to_box();
        if let Ok(b) = b {
            let _ = (b.to_string(), b.to_bytes(), b.clone().into_public_key(), b.into_string());
        }
        let k = key(5);
        let mut id = [0; 8];
        if p.keynum().len() == 8 {
            id.copy_from_slice(p.keynum());
        }
        for h in [true, false] {
            let s = mini::Sig::make(h, &k.seed, &id, &self.data, "t", "u");
            if let Ok(b) = SignatureBox::from_string(&s.to_file()) {
                self.verify(&p, &b, h);
            }
        }
        let _ = minisign::sign(Some(&p), &k.sk, &self.data[..], None, None);
        // all three fields of a forged signature under a degenerate key
        let mut s = mini::Sig::make(true, &k.seed, &id, &self.data, "t", "u");
        s.sig = [0; 64];
        s.sig[0] = 1;
        if let Ok(b) = SignatureBox::from_string(&s.to_file()) {
            self.verify(&p, &b, false);
        }
    }
    fn sk(&mut self, s: SecretKey) {
        self.accepted = true;
        let _ = (s.keynum().len(), s.to_bytes(), format!("{s:?}"), s == s.clone());
        for c in [None, Some("c"), Some("a\nb"), Some("")] {
            if let Ok(b) = s.to_box(c) {
                let _ = (b.to_string(), b.to_bytes(), format!("{b:?}").len(), b.clone().into_unencrypted_secret_key().is_ok());
                let _ = SecretKeyBox::from_string(&b.into_string());
            }
        }
        let p = PublicKey::from_secret_key(&s);
        for a in [None, p.as_ref().ok()] {
            if let Ok(b) = minisign::sign(a, &s, Rd::new(&self.data, &self.c.sizes), Some("tc"), Some("uc")) {
                if let Ok(p) = &p {
                    self.verify(p, &b, false);
                }
                let _ = b.to_string();
            }
        }
    }
}

fn hexes() -> BoxedStrategy<Hex> {
    prop_oneof![
        4 => proptest::collection::vec(prop_oneof![any::<u8>(), Just(0u8), Just(0xffu8), Just(b'\n'), Just(b'\r'), Just(b'='), Just(b' '), 0x20u8..0x7f], 0..24).prop_map(Hex),
        1 => proptest::sample::select(dict::bytes()).prop_map(Hex),
    ]
    .boxed()
}
fn fld() -> BoxedStrategy<Field> {
    let len = prop_oneof![
        4 => proptest::sample::select(vec![0usize, 1, 2, 9, 10, 31, 32, 33, 41, 42, 43, 63, 64, 65, 73, 74, 75, 157, 158, 159, 128]),
        2 => 0usize..200,
        1 => 200usize..5000,
        1 => proptest::sample::select(dict::some_nums(5000)),
    ];
    (any::<u8>(), len, any::<u32>(), any::<u8>()).prop_map(|(alg, len, fill, enc)| Field { alg, len, fill, enc }).boxed()
}
fn line() -> BoxedStrategy<Line> {
    prop_oneof![
        3 => (any::<u8>(), comment()).prop_map(|(prefix, text)| Line::Text { prefix, text }),
        5 => (prop_oneof![4 => Just(0u8), 1 => any::<u8>()], fld()).prop_map(|(prefix, f)| Line::Bin { prefix, f }),
        1 => hexes().prop_map(Line::Raw),
    ]
    .boxed()
}
fn sig_lines() -> BoxedStrategy<Vec<Line>> {
    let f = |lens: Vec<usize>| (prop_oneof![3 => 0u8..2, 1 => any::<u8>()], prop_oneof![5 => proptest::sample::select(lens), 1 => 0usize..200], any::<u32>(), prop_oneof![6 => Just(0u8), 1 => any::<u8>()]).prop_map(|(alg, len, fill, enc)| Line::Bin { prefix: 0, f: Field { alg, len, fill, enc } });
    let p = |n: u8| prop_oneof![8 => Just(n), 1 => any::<u8>()];
    (p(1), comment(), f(vec![74, 74, 73, 75, 138]), p(2), comment(), f(vec![64, 64, 64, 63, 65, 0, 32]), proptest::collection::vec(line(), 0..2))
        .prop_map(|(a, c, s, b, t, g, more)| {
            let mut v = vec![Line::Text { prefix: a, text: c }, s, Line::Text { prefix: b, text: t }, g];
            v.extend(more);
            v
        })
        .boxed()
}
fn mutn() -> BoxedStrategy<Mutn> {
    let u = any::<usize>;
    prop_oneof![
        3 => (u(), any::<u8>()).prop_map(|(at, bit)| Mutn::Flip { at, bit }),
        3 => (u(), any::<u8>()).prop_map(|(at, to)| Mutn::Set { at, to }),
        2 => (u(), hexes()).prop_map(|(at, what)| Mutn::Insert { at, what }),
        2 => (u(), 1usize..80).prop_map(|(at, n)| Mutn::Delete { at, n }),
        1 => (u(), 1usize..120, u()).prop_map(|(from, n, to)| Mutn::Copy { from, n, to }),
        2 => u().prop_map(|n| Mutn::Truncate { n }),
        1 => (0usize..5).prop_map(|n| Mutn::LineGone { n }),
        1 => (0usize..5).prop_map(|n| Mutn::LineTwice { n }),
        1 => (0usize..5).prop_map(|n| Mutn::LineSwap { n }),
        2 => (0usize..5, line()).prop_map(|(n, l)| Mutn::LineIs { n, l }),
        4 => (0usize..5, 0usize..80).prop_map(|(n, k)| Mutn::Cut { n, k }),
        2 => (0usize..5, 0usize..200, any::<u32>()).prop_map(|(n, k, fill)| Mutn::Grow { n, k, fill }),
        5 => (0usize..5, any::<usize>(), any::<u8>()).prop_map(|(n, at, to)| Mutn::FieldByte { n, at, to }),
    ]
    .boxed()
}
fn case(target: Target, recipe: Recipe) -> Case {
    Case { target, recipe, data: gen(100, 1), sizes: vec![], start: 0, pw: "pw".into() }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C12";
    const ASAN: bool = true;
    const RULE: &'static str = "Input for one of seven loading paths: random bytes, lines built from right and wrong prefixes and base64 fields of right and wrong lengths, and valid files of all kinds with one to five mutations of bytes, lines or decoded fields; given as text, as bytes and as a file. Whatever is accepted is used: all accessors, all stored forms, verification with the eight flag combinations under the key that it names, signing with accepted secret keys. A panic, a signal, an AddressSanitizer report or no answer in 150 s is a violation. Non-trivial: the input is neither empty nor an unmodified valid file.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "infallible conversions are outside: From<String> for SignatureBox, From<PublicKeyBox> for PublicKey, and storing a bare signature as a full box",
        "secret keys with limits that ask for up to 1 GiB and are slow to derive are not derived here (C11 derives a sample)",
    ];
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for tg in TARGETS {
            for len in (0..=200).chain([1000, 65536, 1 << 20]) {
                for byte in [0u8, b'A', b'\n', b'='] {
                    v.push(case(tg, Recipe::Filled { len, byte }));
                }
                for alg in [0, 1, 4, 5] {
                    v.push(case(tg, Recipe::Field(Field { alg, len, fill: 2, enc: 0 })));
                }
            }
            // the kinds and binary fields that this target has
            let (kinds, fields): (&[u8], &[usize]) = match tg {
                Target::Sig => (&[0, 1], &[1, 3]),
                Target::Bones => (&[0, 1], &[0]),
                Target::SkText => (&[0, 2, 3], &[1]),
                Target::SkBytes => (&[0, 2, 3], &[0]),
                Target::PkText => (&[0], &[1]),
                _ => (&[0], &[0]),
            };
            for &kind in kinds {
                let full = base(tg, 7, kind, "trusted", &gen(100, 1).bytes());
                let m = |m: Vec<Mutn>| case(tg, Recipe::Mutated { key: 7, kind, tc: "trusted".into(), m });
                v.push(m(vec![]));
                for n in 0..full.len() {
                    v.push(m(vec![Mutn::Truncate { n }]));
                    v.push(m(vec![Mutn::Set { at: n, to: 0xff }]));
                    v.push(m(vec![Mutn::Set { at: n, to: b'\n' }]));
                    v.push(m(vec![Mutn::Set { at: n, to: 0 }]));
                    v.push(m(vec![Mutn::Delete { at: n, n: 1 }]));
                    v.push(m(vec![Mutn::Insert { at: n, what: Hex("é".into()) }]));
                    if t == Tier::Thorough {
                        for bit in 0..8 {
                            v.push(m(vec![Mutn::Flip { at: n, bit }]));
                        }
                    }
                }
                // at the ends of lines, where things get trimmed
                for at in (0..=full.len()).filter(|at| *at == 0 || full[at - 1] == b'\n' || full.get(*at).is_none_or(|b| *b == b'\n')) {
                    for what in ["=", "==", "====", " ", "\t", "\r", "\r\n", "\n\n", "\u{a0}", "\u{feff}", "\u{2028}", "-", "A", "AA", "AAA", "AAAA", "#", ":", "\""] {
                        v.push(m(vec![Mutn::Insert { at, what: Hex(what.into()) }]));
                    }
                }
                for at in (0..=full.len()).filter(|at| *at == 0 || full[at - 1] == b'\n' || full.get(*at).is_none_or(|b| *b == b'\n')) {
                    for what in dict::bytes() {
                        v.push(m(vec![Mutn::Insert { at, what: Hex(what) }]));
                    }
                }
                for &n in fields {
                    for k in 0..160 {
                        v.push(m(vec![Mutn::Cut { n, k }]));
                    }
                    for k in 1..130 {
                        v.push(m(vec![Mutn::Grow { n, k, fill: 3 }]));
                    }
                    for at in 0..74 {
                        v.push(m(vec![Mutn::FieldByte { n, at, to: 0 }]));
                        v.push(m(vec![Mutn::FieldByte { n, at, to: 0xff }]));
                    }
                }
                for n in [1 << 16, 1 << 20] {
                    v.push(m(vec![Mutn::Grow { n: fields[0], k: n, fill: 3 }]));
                }
            }
        }
        // readers that start anywhere
        for start in [1u64, 99, 100, 101, u64::MAX] {
            let mut c = case(Target::Sig, Recipe::Mutated { key: 7, kind: 0, tc: "t".into(), m: vec![] });
            c.start = start;
            v.push(c);
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        let target = proptest::sample::select(vec![Target::Sig, Target::Sig, Target::Sig, Target::Bones, Target::PkText, Target::PkText, Target::PkB64, Target::PkBytes, Target::SkText, Target::SkText, Target::SkBytes]);
        let recipe = prop_oneof![
            1 => vec(any::<u8>(), 0..250).prop_map(|v| Recipe::Random(Hex(v))),
            1 => fld().prop_map(Recipe::Field),
            2 => (vec(line(), 0..7), vec(prop_oneof![6 => 0u8..2, 1 => any::<u8>()], 1..4), any::<bool>()).prop_map(|(lines, ends, last)| Recipe::Lines { lines, ends, last }),
            4 => (sig_lines(), vec(prop_oneof![9 => 0u8..2, 1 => any::<u8>()], 1..4), any::<bool>()).prop_map(|(lines, ends, last)| Recipe::Lines { lines, ends, last }),
            8 => (keyn(), any::<u8>(), comment(), vec(mutn(), 1..6)).prop_map(|(key, kind, tc, m)| Recipe::Mutated { key, kind, tc, m }),
        ];
        (target, recipe, small_data(), chunk_sizes(), prop_oneof![9 => Just(0u64), 1 => 0u64..400, 1 => Just(u64::MAX)], prop_oneof![Just("pw".to_string()), comment()])
            .prop_map(|(target, recipe, data, sizes, start, pw)| Case { target, recipe, data, sizes, start, pw })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(40_000, 3_000_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let data = c.data.bytes();
        let inp = build(c, &data);
        let mut u = Use { c, data, accepted: false };
        let text = String::from_utf8(inp.clone());
        let lossy = String::from_utf8_lossy(&inp).into_owned();
        let file = scratch().join("c12.in");
        let on_file = !matches!(c.target, Target::Bones | Target::PkBytes | Target::SkBytes | Target::PkB64) && (text.is_err() || fnv(&inp) % 4 == 0);
        if on_file {
            std::fs::write(&file, &inp).unwrap();
        }
        match c.target {
            Target::Sig => {
                if let Ok(b) = SignatureBox::from_string(&lossy) {
                    u.sig(b, false)
                }
                if on_file {
                    let r = SignatureBox::from_file(&file);
                    ensure!(text.is_ok() || r.is_err(), "a signature file that is not text loads");
                    if let Ok(b) = r {
                        u.sig(b, false)
                    }
                }
            }
            Target::Bones => {
                if let Ok(x) = SignatureBones::from_bytes(&inp) {
                    let _ = (x.to_bytes(), x.is_prehashed());
                    u.sig(x.into(), true)
                }
            }
            Target::PkText => {
                if let Ok(b) = PublicKeyBox::from_string(&lossy) {
                    let _ = (b.to_string(), b.to_bytes(), format!("{b:?}").len(), b.clone().into_string());
                    if let Ok(p) = PublicKey::from_box(b.clone()) {
                        u.pk(p)
                    }
                    if let Ok(p) = b.into_public_key() {
                        u.pk(p)
                    }
                }
                if on_file {
                    if let Ok(p) = PublicKey::from_file(&file) {
                        u.pk(p)
                    }
                }
            }
            Target::PkB64 => {
                if let Ok(p) = PublicKey::from_base64(&lossy) {
                    u.pk(p)
                }
            }
            Target::PkBytes => {
                if let Ok(p) = PublicKey::from_bytes(&inp) {
                    u.pk(p)
                }
            }
            Target::SkText => {
                if let Ok(b) = SecretKeyBox::from_string(&lossy) {
                    let _ = (b.to_string(), b.to_bytes(), format!("{b:?}").len());
                    if let Ok(s) = b.clone().into_unencrypted_secret_key() {
                        u.sk(s)
                    }
                    if affordable(&inp) {
                        if let Ok(s) = b.into_secret_key(Some(c.pw.clone())) {
                            cx.label("decrypted");
                            u.sk(s)
                        }
                        if on_file {
                            if let Ok(s) = SecretKey::from_file(&file, Some(c.pw.clone())) {
                                u.sk(s)
                            }
                        }
                    }
                }
            }
            Target::SkBytes => {
                if let Ok(s) = SecretKey::from_bytes(&inp) {
                    u.sk(s)
                }
            }
        }
        cx.label(format!("{:?} {}", c.target, if u.accepted { "accepted and used" } else { "refused" }));
        let plain = matches!(&c.recipe, Recipe::Mutated { m, .. } if m.is_empty());
        if !inp.is_empty() && !plain {
            cx.nontrivial()
        }
        Ok(())
    }
}
