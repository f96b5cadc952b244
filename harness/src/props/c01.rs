//! Every signature made verifies, directly and after being stored and reloaded.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use minisign::SignatureBox;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{SystemTime, UNIX_EPOCH};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Form {
    Direct,
    Str,
    IntoString,
    Bytes,
    FromImpl,
    File,
}
const FORMS: [Form; 6] = [Form::Direct, Form::Str, Form::IntoString, Form::Bytes, Form::FromImpl, Form::File];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    key: u32,
    lib: bool,
    data: Data,
    chunks: Vec<usize>,
    tc: Option<String>,
    uc: Option<String>,
    with_pk: bool,
    form: Form,
    crlf: u8,
    legacy: bool,
}
fn base() -> Case {
    Case {
        key: 9,
        lib: false,
        data: gen(20, 1),
        chunks: vec![],
        tc: Some("trusted".into()),
        uc: Some("untrusted".into()),
        with_pk: false,
        form: Form::Str,
        crlf: 0,
        legacy: false,
    }
}
pub fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "Enumerated: data lengths 0..600 and around multiples of 65536, comment lengths 0..400, comments of fields with numbers, dates and other values, every Unicode white space character in front of, behind and as the comment, each storage form with LF, CRLF and every mixture of them. Generated: key (built from reference bytes or generated by the library), data, read sizes, comments without CR/LF, omitted comments, public key given or not, storage form, line ending, legacy flag. Non-trivial: the library signed, the box went through its storage form and was compared field by field and verified, with non-empty data or a non-empty trusted comment.";
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for len in 0..t.pick(601, 1400) {
            v.push(Case { data: gen(len, 7), form: FORMS[len % 6], crlf: if len % 4 == 1 { 15 } else { 0 }, key: len as u32 % 24, lib: len % 5 == 0, ..base() });
        }
        for len in 0..t.pick(401, 1400) {
            let s: String = "ab c:".chars().cycle().take(len).collect();
            v.push(Case { tc: Some(s.clone()), form: FORMS[len % 6], crlf: if len % 5 == 1 { 15 } else { 0 }, with_pk: len % 3 == 0, ..base() });
            if len % 7 == 0 {
                v.push(Case { uc: Some(s), form: FORMS[len % 6], ..base() });
            }
        }
        for m in [1usize, 2, 3, 16] {
            for d in 0..5 {
                v.push(Case { data: gen(m * 65536 + d - 2, 3), chunks: vec![], form: FORMS[d], ..base() });
                v.push(Case { data: gen(m * 65536 + d - 2, 3), chunks: vec![4095 + d, 1, 65536], form: FORMS[d], ..base() });
            }
        }
        for (i, len) in dict::lens().into_iter().enumerate() {
            v.push(Case { data: gen(len, 7), form: FORMS[i % 6], key: i as u32 % 24, ..base() });
            v.push(Case { tc: Some(dict::text(len)), form: FORMS[i % 6], crlf: if i % 4 == 1 { 15 } else { 0 }, ..base() });
            v.push(Case { uc: Some(dict::text(len)), form: FORMS[i % 6], crlf: if i % 4 == 1 { 15 } else { 0 }, ..base() });
        }
        for (i, len) in dict::long_lens().into_iter().enumerate() {
            v.push(Case { data: gen(len, 7), form: FORMS[i % 6], ..base() });
            if len < 2 << 20 {
                v.push(Case { tc: Some(dict::text(len)), form: FORMS[i % 6], ..base() });
                v.push(Case { uc: Some(dict::text(len)), form: FORMS[i % 6], ..base() });
            }
        }
        for (i, s) in dict::texts().into_iter().enumerate() {
            for s in [s.clone(), format!("{s}x y"), format!("x y{s}"), format!("x{s}y"), format!("{s}{s}")] {
                v.push(Case { tc: Some(s.clone()), form: FORMS[1 + i % 5], ..base() });
                v.push(Case { uc: Some(s), form: FORMS[1 + i % 5], ..base() });
            }
        }
        for (i, s) in field_texts().into_iter().enumerate() {
            v.push(Case { tc: Some(s.clone()), uc: Some(s), form: FORMS[i % 6], with_pk: i % 2 == 0, ..base() });
        }
        for (i, s) in dict::bytes().into_iter().enumerate() {
            for b in [s.clone(), [&s[..], b"x"].concat(), [b"x", &s[..]].concat()] {
                v.push(Case { data: Data::Raw(Hex(b)), form: FORMS[i % 6], ..base() });
            }
        }
        for c in SPACES {
            for (i, s) in [format!("{c}x"), format!("x{c}"), format!("{c}"), format!("{c}{c}x y{c}"), format!("x{c}y")].into_iter().enumerate() {
                v.push(Case { tc: Some(s.clone()), form: FORMS[1 + i], crlf: if i % 2 == 0 { 15 } else { 0 }, ..base() });
                v.push(Case { uc: Some(s), form: FORMS[1 + i], crlf: if i % 2 == 1 { 15 } else { 0 }, ..base() });
            }
        }
        for form in FORMS {
            for crlf in 0..32 {
                for (tc, uc) in [(None, None), (Some(""), Some("")), (Some("untrusted comment: a"), Some("trusted comment: b")), (Some("é漢\u{1f511}"), Some("\u{feff}z"))] {
                    for lib in [false, true] {
                        v.push(Case {
                            tc: tc.map(|s: &str| s.to_string()),
                            uc: uc.map(|s: &str| s.to_string()),
                            form,
                            crlf,
                            lib,
                            legacy: crlf % 2 == 1,
                            with_pk: lib,
                            ..base()
                        });
                    }
                }
            }
        }
        for len in [1000usize, 65535, 65536, 65537, 300_000] {
            v.push(Case { tc: Some("t".repeat(len)), form: Form::File, ..base() });
            v.push(Case { uc: Some("u".repeat(len)), form: Form::File, ..base() });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            (keyn(), any::<bool>(), data(), chunk_sizes()),
            (opt_comment(), opt_comment(), any::<bool>()),
            (proptest::sample::select(FORMS.to_vec()), ends(), any::<bool>()),
        )
            .prop_map(|((key, lib, data, chunks), (tc, uc, with_pk), (form, crlf, legacy))| Case { key, lib, data, chunks, tc, uc, with_pk, form, crlf, legacy })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(100_000, 600_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let k = if c.lib { lib_key(c.key) } else { key(c.key) };
        let data = c.data.bytes();
        let t0 = now();
        let b = minisign::sign(if c.with_pk { Some(&k.pk) } else { None }, &k.sk, Rd::new(&data, &c.chunks), c.tc.as_deref(), c.uc.as_deref())
            .map_err(|e| format!("signing failed: {e}"))?;
        let t1 = now();
        let uc = c.uc.clone().unwrap_or_else(|| "signature from rsign secret key".into());
        let tc = match &c.tc {
            Some(t) => t.clone(),
            None => {
                let t = b.trusted_comment().map_err(|e| format!("no trusted comment: {e}"))?;
                let n: Option<u64> = t.strip_prefix("timestamp:").filter(|d| d.bytes().all(|b| b.is_ascii_digit())).and_then(|d| d.parse().ok());
                ensure!(n.is_some_and(|n| t0 <= n && n <= t1), "default trusted comment {t:?} is not the time ({t0}..{t1})");
                t
            }
        };
        let same = |b: &SignatureBox, when: &str| -> R {
            let g = b.untrusted_comment().map_err(|e| format!("{when}: untrusted comment: {e}"))?;
            ensure!(g == uc, "{when}: untrusted comment {g:?}, signed with {uc:?}");
            let g = b.trusted_comment().map_err(|e| format!("{when}: trusted comment: {e}"))?;
            ensure!(g == tc, "{when}: trusted comment {g:?}, signed with {tc:?}");
            ensure!(b.keynum() == k.id, "{when}: key id {} instead of {}", hex(b.keynum()), hex(&k.id));
            ensure!(b.is_prehashed(), "{when}: not marked pre-hashed");
            // the verdict is the same however verification is called
            let how = vary(&data, format!("{:?}", c.form).as_bytes());
            let (quiet, output) = (how % 16 > 1, how % 16 == 1 || how % 16 == 2);
            let run = || minisign::verify(&k.pk, b, Rd::new(&data, &c.chunks), quiet, output, c.legacy);
            let r = if quiet && !output { run() } else { capture_to(None, run).ret };
            r.map_err(|e| format!("{when}: does not verify (quiet {quiet}, output {output}): {e}"))
        };
        same(&b, "as returned")?;
        let nl = |s: String| line_ends(&s, c.crlf);
        let s = b.to_string();
        let l = match c.form {
            Form::Direct => b.clone(),
            Form::Str => load(&nl(s.clone())).map_err(|e| format!("stored box does not load: {e}"))?,
            Form::IntoString => load(&nl(b.clone().into_string())).map_err(|e| format!("stored box does not load: {e}"))?,
            Form::Bytes => load(&nl(String::from_utf8(b.to_bytes()).map_err(|e| e.to_string())?)).map_err(|e| format!("stored box does not load: {e}"))?,
            Form::FromImpl => SignatureBox::from(nl(String::from(b.clone()))),
            Form::File => {
                let p = scratch().join("c01.minisig");
                std::fs::write(&p, nl(String::from_utf8(b.to_bytes()).map_err(|e| e.to_string())?)).unwrap();
                SignatureBox::from_file(&p).map_err(|e| format!("stored box does not load: {e}"))?
            }
        };
        same(&l, "reloaded")?;
        ensure!(l.to_string() == s, "reloaded box is written differently: {:?} / {s:?}", l.to_string());
        cx.label(format!("form {:?}{}", c.form, ["", " CRLF", " mixed line ends"][match c.crlf { 0 => 0, 15 => 1, _ => 2 }]));
        if c.tc.is_none() {
            cx.label("default trusted comment")
        }
        if tc.trim() != tc {
            cx.label("trusted comment with outer white space")
        }
        if !data.is_empty() || !tc.is_empty() {
            cx.nontrivial();
        }
        Ok(())
    }
}
