//! A box altered in any authenticated part never verifies; the untrusted comment is free.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{b64, ed25519, mini};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    FlipMain(usize),
    FlipGlobal(usize),
    SetMain(usize, u8),
    SetGlobal(usize, u8),
    AppendMain(Hex),
    AppendGlobal(Hex),
    TruncMain(usize),
    TruncGlobal(usize),
    DropGlobal,
    TcReplace(String),
    TcAppend(String),
    TcPrepend(String),
    TcTrunc(usize),
    TcChar(usize, char),
    TcTrim,
    TcForm(u8),
    SpliceMain,
    SpliceSig,
    SpliceId,
    SpliceGlobal,
    SpliceTc,
    SpliceTcGlobal,
    MalleateMain(u8),
    MalleateGlobal(u8),
    GlobalIsMain,
    MainIsGlobal,
    ZeroMain,
    ZeroGlobal,
    Retag,
    Untrusted(String),
    UntrustedSplice,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TextEdit {
    DropLine(usize),
    DupLine(usize),
    SwapLines(usize, usize),
    InsertLine(usize, String),
    Subst(usize, char),
    Delete(usize),
    InsertChar(usize, char),
    Trailing(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    key: u32,
    prehashed: bool,
    lib: bool,
    data: Data,
    tc: String,
    uc: String,
    /// the other box by the same key that parts are taken from
    other_data: Data,
    other_tc: String,
    edits: Vec<Edit>,
    text: Vec<TextEdit>,
}
fn base(prehashed: bool, e: Edit) -> Case {
    Case {
        key: 8,
        prehashed,
        lib: prehashed,
        data: gen(40, 1),
        tc: "timestamp:1".into(),
        uc: "u".into(),
        other_data: gen(40, 2),
        other_tc: "timestamp:2".into(),
        edits: vec![e],
        text: vec![],
    }
}

#[derive(Clone, PartialEq)]
struct Parts {
    main: Vec<u8>,
    tc: String,
    global: Vec<u8>,
    uc: String,
}
impl Parts {
    fn text(&self) -> String {
        format!("untrusted comment: {}\n{}\ntrusted comment: {}\n{}\n", self.uc, b64::encode(&self.main), self.tc, b64::encode(&self.global))
    }
    fn same_auth(&self, o: &Parts) -> bool {
        self.main == o.main && self.tc == o.tc && self.global == o.global
    }
}
fn parts(s: &mini::Sig) -> Parts {
    Parts { main: s.bare(), tc: s.trusted.clone(), global: s.global.to_vec(), uc: s.untrusted.clone() }
}
/// S + k*L in a 64-byte signature, when it fits.
fn malleate(sig: &mut [u8], k: u8) {
    if sig.len() < 64 {
        return;
    }
    let mut s = ed25519::from_le(&sig[32..64]);
    for _ in 0..k.max(1) {
        s = ed25519::add_carry(&s, &ed25519::L).0;
    }
    sig[32..64].copy_from_slice(&ed25519::to_le(&s));
}
pub fn clean(s: &str) -> String {
    s.chars().filter(|c| *c != '\n' && *c != '\r').collect()
}
fn apply(p: &mut Parts, o: &Parts, e: &Edit) {
    let flip = |v: &mut Vec<u8>, bit: usize| {
        if !v.is_empty() {
            let b = bit % (v.len() * 8);
            v[b / 8] ^= 1 << (b % 8)
        }
    };
    match e {
        Edit::FlipMain(b) => flip(&mut p.main, *b),
        Edit::FlipGlobal(b) => flip(&mut p.global, *b),
        Edit::SetMain(i, x) => {
            let n = p.main.len().max(1);
            if let Some(b) = p.main.get_mut(i % n) {
                *b = *x
            }
        }
        Edit::SetGlobal(i, x) => {
            let n = p.global.len().max(1);
            if let Some(b) = p.global.get_mut(i % n) {
                *b = *x
            }
        }
        Edit::AppendMain(h) => p.main.extend_from_slice(&h.0),
        Edit::AppendGlobal(h) => p.global.extend_from_slice(&h.0),
        Edit::TruncMain(n) => p.main.truncate(p.main.len().saturating_sub(*n)),
        Edit::TruncGlobal(n) => p.global.truncate(p.global.len().saturating_sub(*n)),
        Edit::DropGlobal => p.global.clear(),
        Edit::TcReplace(s) => p.tc = clean(s),
        Edit::TcAppend(s) => p.tc.push_str(&clean(s)),
        Edit::TcPrepend(s) => p.tc = format!("{}{}", clean(s), p.tc),
        Edit::TcTrunc(n) => {
            let k = p.tc.chars().count().saturating_sub(*n);
            p.tc = p.tc.chars().take(k).collect()
        }
        Edit::TcChar(i, c) => {
            if *c != '\n' && *c != '\r' {
                let n = p.tc.chars().count().max(1);
                p.tc = p.tc.chars().enumerate().map(|(j, x)| if j == i % n { *c } else { x }).collect()
            }
        }
        Edit::TcForm(how) => p.tc = clean(&form(&p.tc, *how)),
        Edit::TcTrim => p.tc = p.tc.trim().to_string(),
        Edit::SpliceMain => p.main = o.main.clone(),
        Edit::SpliceSig => {
            if p.main.len() >= 74 && o.main.len() >= 74 {
                p.main[10..74].copy_from_slice(&o.main[10..74])
            }
        }
        Edit::SpliceId => {
            if p.main.len() >= 10 {
                p.main[2..10].reverse()
            }
        }
        Edit::SpliceGlobal => p.global = o.global.clone(),
        Edit::SpliceTc => p.tc = o.tc.clone(),
        Edit::SpliceTcGlobal => {
            p.tc = o.tc.clone();
            p.global = o.global.clone()
        }
        Edit::MalleateMain(k) => {
            if p.main.len() >= 74 {
                malleate(&mut p.main[10..74], *k)
            }
        }
        Edit::MalleateGlobal(k) => malleate(&mut p.global, *k),
        Edit::GlobalIsMain => {
            if p.main.len() >= 74 {
                p.global = p.main[10..74].to_vec()
            }
        }
        Edit::MainIsGlobal => {
            if p.main.len() >= 74 && p.global.len() == 64 {
                p.main[10..74].copy_from_slice(&p.global)
            }
        }
        Edit::ZeroMain => {
            if p.main.len() >= 74 {
                p.main[10..74].fill(0)
            }
        }
        Edit::ZeroGlobal => p.global.fill(0),
        Edit::Retag => {
            if p.main.len() > 2 {
                p.main[1] ^= b'D' ^ b'd'
            }
        }
        Edit::Untrusted(s) => p.uc = clean(s),
        Edit::UntrustedSplice => p.uc = o.uc.clone(),
    }
}
/// Base64 that also takes what a lax decoder might: outer white space, missing padding, slack bits.
fn lax(s: &str) -> Option<Vec<u8>> {
    let s: Vec<u8> = s.chars().filter(|c| !c.is_whitespace() && *c != '=').map(|c| if c.is_ascii() { c as u8 } else { b'?' }).collect();
    let mut bits = 0u32;
    let mut acc = 0u32;
    let mut out = vec![];
    for c in s {
        let d = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' | b'-' => 62,
            b'/' | b'_' => 63,
            _ => return None,
        } as u32;
        acc = acc << 6 | d;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}

fn an_edit() -> BoxedStrategy<Edit> {
    let h = || proptest::collection::vec(any::<u8>(), 1..80).prop_map(Hex);
    let n = || prop_oneof![Just(1usize), 1usize..80];
    prop_oneof![
        4 => (0usize..592).prop_map(Edit::FlipMain),
        4 => (0usize..512).prop_map(Edit::FlipGlobal),
        1 => (0usize..74, any::<u8>()).prop_map(|(a, b)| Edit::SetMain(a, b)),
        1 => (0usize..64, any::<u8>()).prop_map(|(a, b)| Edit::SetGlobal(a, b)),
        1 => h().prop_map(Edit::AppendMain),
        1 => h().prop_map(Edit::AppendGlobal),
        1 => n().prop_map(Edit::TruncMain),
        1 => n().prop_map(Edit::TruncGlobal),
        1 => Just(Edit::DropGlobal),
        1 => comment().prop_map(Edit::TcReplace),
        2 => comment().prop_map(Edit::TcAppend),
        2 => proptest::sample::select(SPACES.to_vec()).prop_map(|c| Edit::TcAppend(c.to_string())),
        1 => proptest::sample::select(SPACES.to_vec()).prop_map(|c| Edit::TcPrepend(c.to_string())),
        1 => comment().prop_map(Edit::TcPrepend),
        2 => (1usize..30).prop_map(Edit::TcTrunc),
        3 => (0usize..100, comment_char()).prop_map(|(a, b)| Edit::TcChar(a, b)),
        1 => Just(Edit::TcTrim),
        2 => (0u8..FORMS).prop_map(Edit::TcForm),
        5 => proptest::sample::select(vec![Edit::SpliceMain, Edit::SpliceSig, Edit::SpliceId, Edit::SpliceGlobal, Edit::SpliceTc, Edit::SpliceTcGlobal, Edit::GlobalIsMain, Edit::MainIsGlobal, Edit::ZeroMain, Edit::ZeroGlobal, Edit::Retag]),
        1 => (1u8..15).prop_map(Edit::MalleateMain),
        1 => (1u8..15).prop_map(Edit::MalleateGlobal),
        3 => comment().prop_map(Edit::Untrusted),
        1 => Just(Edit::UntrustedSplice),
    ]
    .boxed()
}
fn b64_char() -> BoxedStrategy<char> {
    prop_oneof![8 => proptest::sample::select("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=".chars().collect::<Vec<_>>()), 1 => comment_char()].boxed()
}
fn text_edit() -> BoxedStrategy<TextEdit> {
    prop_oneof![
        1 => (0usize..4).prop_map(TextEdit::DropLine),
        1 => (0usize..4).prop_map(TextEdit::DupLine),
        1 => (0usize..4, 0usize..4).prop_map(|(a, b)| TextEdit::SwapLines(a, b)),
        1 => (0usize..5, prop_oneof![Just(String::new()), comment()]).prop_map(|(a, b)| TextEdit::InsertLine(a, b)),
        5 => (0usize..400, b64_char()).prop_map(|(a, b)| TextEdit::Subst(a, b)),
        2 => (0usize..400).prop_map(TextEdit::Delete),
        2 => (0usize..400, b64_char()).prop_map(|(a, b)| TextEdit::InsertChar(a, b)),
        1 => comment().prop_map(TextEdit::Trailing),
    ]
    .boxed()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "A valid box (library or reference, pre-hashed or legacy) with 1-3 edits of its parts (every bit of the 74 signature bytes and of the 64 comment-signature bytes enumerated; bytes appended to or cut from either; comment changed; parts spliced from another box of the same key; S+kL; relabelled) or 1-2 edits of its text (lines, single characters). Accepted although the authenticated bytes differ is a failure; refused although only the untrusted comment differs is one too. Non-trivial: the unedited box verified and the edit changed something.";
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for ph in [true, false] {
            for b in 0..592 {
                v.push(base(ph, Edit::FlipMain(b)));
            }
            for b in 0..512 {
                v.push(base(ph, Edit::FlipGlobal(b)));
                v.push(Case { tc: String::new(), ..base(ph, Edit::FlipGlobal(b)) });
            }
            for n in 1..=100 {
                v.push(base(ph, Edit::AppendMain(Hex(vec![0; n]))));
                v.push(base(ph, Edit::AppendGlobal(Hex(vec![0; n]))));
                v.push(base(ph, Edit::AppendMain(Hex(stream(n as u64, n)))));
                v.push(base(ph, Edit::AppendGlobal(Hex(stream(n as u64, n)))));
                v.push(base(ph, Edit::TruncMain(n)));
                v.push(base(ph, Edit::TruncGlobal(n)));
            }
            for k in 1..15 {
                v.push(base(ph, Edit::MalleateMain(k)));
                v.push(base(ph, Edit::MalleateGlobal(k)));
            }
            for e in [
                Edit::DropGlobal,
                Edit::TcReplace("".into()),
                Edit::SpliceMain,
                Edit::SpliceSig,
                Edit::SpliceId,
                Edit::SpliceGlobal,
                Edit::SpliceTc,
                Edit::SpliceTcGlobal,
                Edit::GlobalIsMain,
                Edit::MainIsGlobal,
                Edit::ZeroMain,
                Edit::ZeroGlobal,
                Edit::Retag,
            ] {
                v.push(base(ph, e.clone()));
                v.push(Case { tc: String::new(), ..base(ph, e.clone()) });
                v.push(Case { other_tc: String::new(), ..base(ph, e.clone()) });
                v.push(Case { other_data: gen(40, 1), ..base(ph, e.clone()) });
                v.push(Case { other_tc: "timestamp:1".into(), ..base(ph, e) });
            }
            for c in SPACES {
                v.push(base(ph, Edit::TcAppend(c.to_string())));
                v.push(base(ph, Edit::TcPrepend(c.to_string())));
                v.push(Case { tc: String::new(), ..base(ph, Edit::TcAppend(c.to_string())) });
                v.push(Case { tc: format!("{c}x{c}"), ..base(ph, Edit::TcTrim) });
            }
            for len in (1usize..140).chain([1000, 1024, 4096, 65536]) {
                let tc: String = "abc d".chars().cycle().take(len).collect();
                for e in [Edit::TcChar(len - 1, 'X'), Edit::TcChar(0, 'X'), Edit::TcTrunc(1), Edit::TcAppend("X".into()), Edit::TcAppend("\0".into())] {
                    v.push(Case { tc: tc.clone(), ..base(ph, e) });
                }
            }
            for len in dict::lens() {
                for e in [Edit::TcChar(len - 1, 'X'), Edit::TcTrunc(1), Edit::TcAppend("X".into())] {
                    v.push(Case { tc: dict::text(len), ..base(ph, e) });
                }
                v.push(base(ph, Edit::Untrusted(dict::text(len))));
            }
            for s in dict::texts() {
                for tc in [String::new(), "a comment".into(), s.clone(), format!("{s}a"), format!("a{s}")] {
                    for e in [Edit::TcAppend(s.clone()), Edit::TcPrepend(s.clone()), Edit::TcReplace(s.clone()), Edit::TcTrunc(s.chars().count()), Edit::Untrusted(s.clone())] {
                        v.push(Case { tc: tc.clone(), ..base(ph, e) });
                    }
                }
            }
            for how in 0..FORMS {
                for s in FORM_TEXTS {
                    if form(s, how) == *s {
                        continue;
                    }
                    v.push(Case { tc: clean(s), ..base(ph, Edit::TcForm(how)) });
                    v.push(Case { uc: clean(s), ..base(ph, Edit::Untrusted(form(s, how))) });
                }
                // one kind of signature will do: comments are treated alike
                for s in dict::texts().iter().filter(|_| ph) {
                    for s in [s.to_lowercase(), s.clone()] {
                        let s = format!("{s}1 b");
                        if form(&s, how) != s {
                            v.push(Case { tc: s, ..base(ph, Edit::TcForm(how)) });
                        }
                    }
                }
            }
            for s in ["", " ", "other", "untrusted comment: ", "\u{1f511}"] {
                v.push(base(ph, Edit::Untrusted(s.into())));
            }
            for len in 0..t.pick(60, 600) {
                v.push(base(ph, Edit::Untrusted("y".repeat(len))));
            }
            let text = |e: TextEdit| Case { edits: vec![], text: vec![e], ..base(ph, Edit::TcTrim) };
            for i in 0..4 {
                v.push(text(TextEdit::DropLine(i)));
                v.push(text(TextEdit::DupLine(i)));
                for j in 0..4 {
                    v.push(text(TextEdit::SwapLines(i, j)));
                }
                v.push(text(TextEdit::InsertLine(i, "".into())));
            }
            for c in SPACES {
                v.push(text(TextEdit::Trailing(c.to_string())));
                // before every character, the ends of lines included
                for i in 0..300 {
                    v.push(text(TextEdit::InsertChar(i, *c)));
                }
            }
            for i in 0..260 {
                for c in ['A', '/', '=', ' '] {
                    v.push(text(TextEdit::Subst(i, c)));
                }
                v.push(text(TextEdit::Delete(i)));
                v.push(text(TextEdit::InsertChar(i, 'A')));
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        (
            (keyn(), any::<bool>(), any::<bool>(), small_data(), comment(), comment()),
            (small_data(), comment()),
            prop_oneof![3 => (vec(an_edit(), 1..4), Just(vec![])), 1 => (Just(vec![]), vec(text_edit(), 1..3))],
        )
            .prop_map(|((key, prehashed, lib, data, tc, uc), (other_data, other_tc), (edits, text))| Case { key, prehashed, lib, data, tc, uc, other_data, other_tc, edits, text })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(80_000, 700_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let k = key(c.key);
        let d = c.data.bytes();
        let mk = |d: &[u8], tc: &str, uc: &str| -> Result<mini::Sig, String> {
            if c.prehashed && c.lib {
                parse(&sgn(&k, d, Some(tc), Some(uc))?)
            } else {
                Ok(mini::Sig::make(c.prehashed, &k.seed, &k.id, d, tc, uc))
            }
        };
        let good = parts(&mk(&d, &c.tc, &c.uc)?);
        let verdict = |text: &str| -> Result<(), String> {
            let b = load(text)?;
            vfy(&k.pk, &b, &d, true)
        };
        if verdict(&good.text()).is_err() {
            cx.label("no valid box to start from");
            return Ok(());
        }
        if !c.edits.is_empty() {
            let other = parts(&mk(&c.other_data.bytes(), &c.other_tc, "other")?);
            let mut p = good.clone();
            for e in &c.edits {
                apply(&mut p, &other, e);
            }
            if p.same_auth(&other) && c.other_data.bytes() == d && !p.same_auth(&good) {
                cx.label("the other box itself, over the same data");
                return Ok(());
            }
            let r = verdict(&p.text());
            if p.same_auth(&good) {
                if p.uc == good.uc {
                    cx.label("edit changed nothing");
                    return Ok(());
                }
                ensure!(r.is_ok(), "only the untrusted comment changed ({:?} to {:?}) and the box is refused: {}", good.uc, p.uc, r.unwrap_err());
                cx.label("untrusted comment only");
            } else {
                ensure!(r.is_err(), "altered box verifies: {:?} (original {:?})", p.text(), good.text());
                if let Ok(b) = load(&p.text()) {
                    ensure!(vfy(&k.pk, &b, &d, false).is_err(), "altered box verifies without legacy: {:?}", p.text());
                    cx.label("altered: loads, refused by verify");
                } else {
                    cx.label("altered: refused by loading");
                }
            }
            cx.nontrivial();
            return Ok(());
        }
        let mut text = good.text();
        for e in &c.text {
            let mut l: Vec<String> = text.lines().map(|s| s.to_string()).collect();
            let n = l.len().max(1);
            let cs: Vec<char> = text.chars().collect();
            let m = cs.len().max(1);
            match e {
                TextEdit::DropLine(i) => {
                    if !l.is_empty() {
                        l.remove(i % n);
                    }
                    text = l.iter().map(|s| format!("{s}\n")).collect();
                }
                TextEdit::DupLine(i) => {
                    if !l.is_empty() {
                        let s = l[i % n].clone();
                        l.insert(i % n, s);
                    }
                    text = l.iter().map(|s| format!("{s}\n")).collect();
                }
                TextEdit::SwapLines(i, j) => {
                    if !l.is_empty() {
                        l.swap(i % n, j % n);
                    }
                    text = l.iter().map(|s| format!("{s}\n")).collect();
                }
                TextEdit::InsertLine(i, s) => {
                    l.insert((*i).min(l.len()), clean(s));
                    text = l.iter().map(|s| format!("{s}\n")).collect();
                }
                TextEdit::Subst(i, ch) => {
                    if *ch != '\r' && cs[i % m] != '\r' {
                        text = cs.iter().enumerate().map(|(j, x)| if j == i % m { *ch } else { *x }).collect()
                    }
                }
                TextEdit::Delete(i) => text = cs.iter().enumerate().filter(|(j, _)| *j != i % m).map(|(_, x)| *x).collect(),
                TextEdit::InsertChar(i, ch) => {
                    if *ch != '\r' {
                        let mut v = cs.clone();
                        v.insert(i % (m + 1), *ch);
                        text = v.into_iter().collect()
                    }
                }
                TextEdit::Trailing(s) => text.push_str(&clean(s)),
            }
        }
        if text == good.text() {
            cx.label("edit changed nothing");
            return Ok(());
        }
        cx.nontrivial();
        if verdict(&text).is_ok() {
            // What was accepted must carry the authenticated content of the original.
            let l: Vec<&str> = text.lines().collect();
            ensure!(l.len() >= 4, "a box of {} lines verifies: {text:?}", l.len());
            let tc = l[2].strip_prefix("trusted comment: ");
            ensure!(
                tc == Some(good.tc.as_str()) && lax(l[1]) == Some(good.main.clone()) && lax(l[3]) == Some(good.global.clone()),
                "altered text verifies: {text:?} (original {:?})",
                good.text()
            );
            let b = load(&text)?;
            ensure!(b.trusted_comment().ok().as_deref() == Some(good.tc.as_str()), "accepted box reports another trusted comment: {text:?}");
            cx.label("text edit outside the authenticated parts");
        } else {
            // Everything up to the four lines intact but the untrusted comment: must stay accepted.
            let orig = good.text();
            let (l, g): (Vec<&str>, Vec<&str>) = (text.split('\n').collect(), orig.split('\n').collect());
            if l.len() == 5 && l[1..] == g[1..] && l[0].starts_with("untrusted comment: ") && !l[0].contains('\r') {
                return Err(format!("only the untrusted comment changed and the box is refused: {text:?}"));
            }
            cx.label("text edit refused");
        }
        Ok(())
    }
}
