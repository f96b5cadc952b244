//! Literals that stand in the library's source, as hints for the generators: a threshold, a
//! length or a text that the code treats in a special way is then tried, not hoped for.
//! Hints only: no verdict depends on them, and without the source they are empty.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    nums: BTreeSet<u64>,
    strings: BTreeSet<Vec<u8>>,
}

fn scan(src: &[u8], d: &mut Dict) {
    let mut i = 0;
    // numbers joined by * or << (64 * 1024, 1 << 20), casts and brackets left out
    let mut left: Option<u64> = None;
    let mut op: Option<u8> = None;
    while i < src.len() {
        let c = src[i];
        let rest = &src[i..];
        if rest.starts_with(b"//") {
            while i < src.len() && src[i] != b'\n' {
                i += 1
            }
            continue;
        }
        if rest.starts_with(b"/*") {
            i += rest.windows(2).position(|w| w == b"*/").unwrap_or(rest.len()) + 2;
            continue;
        }
        if c == b'r' && (rest.starts_with(b"r\"") || rest.starts_with(b"r#\"")) {
            let hash = rest[1] == b'#';
            let start = i + if hash { 3 } else { 2 };
            let end: &[u8] = if hash { b"\"#" } else { b"\"" };
            let n = src.get(start..).and_then(|r| r.windows(end.len()).position(|w| w == end)).unwrap_or(0);
            d.strings.insert(src[start..start + n].to_vec());
            i = start + n + end.len();
            continue;
        }
        if c == b'"' || c == b'\'' {
            let mut v = vec![];
            let mut j = i + 1;
            let mut closed = false;
            while j < src.len() {
                match src[j] {
                    x if x == c => {
                        closed = true;
                        break;
                    }
                    b'\\' => {
                        j += 1;
                        match src.get(j) {
                            Some(b'n') => v.push(b'\n'),
                            Some(b'r') => v.push(b'\r'),
                            Some(b't') => v.push(b'\t'),
                            Some(b'0') => v.push(0),
                            Some(b'x') => {
                                if let Some(x) = src.get(j + 1..j + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok()) {
                                    v.push(x)
                                }
                                j += 2;
                            }
                            Some(b'u') => {
                                let k = src[j..].iter().position(|x| *x == b'}').unwrap_or(1);
                                if let Some(x) = src.get(j + 2..j + k).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32) {
                                    v.extend(x.to_string().as_bytes())
                                }
                                j += k;
                            }
                            Some(x) => v.push(*x),
                            None => break,
                        }
                    }
                    x => v.push(x),
                }
                j += 1;
                // a life time, not a character
                if c == b'\'' && v.len() > 4 {
                    break;
                }
            }
            if c == b'\'' && !(closed && std::str::from_utf8(&v).is_ok_and(|s| s.chars().count() == 1)) {
                i += 1;
                continue;
            }
            d.strings.insert(v);
            i = j + 1;
            continue;
        }
        if c.is_ascii_digit() && (i == 0 || !(src[i - 1].is_ascii_alphanumeric() || src[i - 1] == b'_')) {
            let n = rest.iter().take_while(|x| x.is_ascii_alphanumeric() || **x == b'_').count();
            let t: String = String::from_utf8_lossy(&rest[..n]).replace('_', "");
            let t = ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(&t).to_string();
            let x = match t.get(..2) {
                Some("0x") => u64::from_str_radix(&t[2..], 16).ok(),
                Some("0b") => u64::from_str_radix(&t[2..], 2).ok(),
                Some("0o") => u64::from_str_radix(&t[2..], 8).ok(),
                _ => t.parse().ok(),
            };
            if let Some(x) = x {
                d.nums.insert(x);
                let y = match (left, op) {
                    (Some(l), Some(b'*')) => l.checked_mul(x),
                    (Some(l), Some(b'<')) if x < 40 => l.checked_shl(x as u32),
                    (Some(l), Some(b'+')) => l.checked_add(x),
                    (Some(l), Some(b'-')) => l.checked_sub(x),
                    _ => None,
                };
                if let Some(y) = y {
                    d.nums.insert(y);
                }
                left = Some(y.unwrap_or(x));
                op = None;
            }
            i += n;
            continue;
        }
        match c {
            b'*' | b'+' | b'-' => op = Some(c),
            b'<' if rest.starts_with(b"<<") => {
                op = Some(c);
                i += 1
            }
            c if c.is_ascii_whitespace() || c == b'(' || c == b')' => {}
            _ if rest.starts_with(b"as u") => i += rest[3..].iter().take_while(|x| x.is_ascii_alphanumeric()).count() + 2,
            _ => {
                left = None;
                op = None
            }
        }
        i += 1;
    }
}
fn walk(p: &Path, d: &mut Dict) {
    let Ok(r) = std::fs::read_dir(p) else { return };
    let mut v: Vec<_> = r.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, d)
        } else if p.extension().is_some_and(|e| e == "rs") && p.file_name().is_some_and(|n| n != "tests.rs") {
            if let Ok(b) = std::fs::read(&p) {
                scan(&b, d)
            }
        }
    }
}
fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        walk(Path::new("/repo/src"), &mut d);
        d.strings.retain(|s| !s.is_empty() && s.len() <= 300);
        d
    })
}
/// Numbers near a literal, within the bounds.
pub fn nums(lo: u64, hi: u64) -> Vec<usize> {
    let s: BTreeSet<u64> = dict().nums.iter().flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1)]).filter(|n| (lo..=hi).contains(n)).collect();
    s.into_iter().map(|n| n as usize).collect()
}
/// Lengths worth a try beyond the enumerated ones.
pub fn lens() -> Vec<usize> {
    nums(100, 70_000)
}
pub fn long_lens() -> Vec<usize> {
    nums(70_001, (1 << 25) + 1)
}
/// Printable text of this length.
pub fn text(len: usize) -> String {
    "abc d:".chars().cycle().take(len).collect()
}
/// Like `nums`, never empty.
pub fn some_nums(hi: u64) -> Vec<usize> {
    let mut v = nums(0, hi);
    v.push(1);
    v
}
/// String, byte and character literals.
pub fn bytes() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = dict().strings.iter().cloned().collect();
    v.push(b"x".to_vec());
    v
}
/// Those that can stand in a comment or a password.
pub fn texts() -> Vec<String> {
    let mut v: Vec<String> = bytes().into_iter().filter_map(|b| String::from_utf8(b).ok()).filter(|s| !s.contains(['\n', '\r'])).collect();
    v.push("x".into());
    v
}
/// For people: what was found.
pub fn show() {
    println!("{:?}\n{:?}", nums(0, 1 << 40), bytes().iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>());
}
