//! Constants and texts that appear in the code under test.
//!
//! They are only used to choose inputs (as the dictionary of a fuzzer): values near them are
//! drawn more often. What is chosen is recorded in the case, so replaying it does not need
//! them.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Hints {
    pub ints: Vec<u64>,
    pub texts: Vec<String>,
}

static HINTS: OnceLock<Hints> = OnceLock::new();

pub fn hints() -> &'static Hints {
    HINTS.get_or_init(|| {
        let dir = std::env::var("ILCHECK_SRC").unwrap_or_else(|_| "/repo/src".to_string());
        let (mut i, mut t) = (BTreeSet::new(), BTreeSet::new());
        visit(Path::new(&dir), &mut i, &mut t);
        Hints {
            ints: i.into_iter().collect(),
            texts: t.into_iter().collect(),
        }
    })
}

fn visit(p: &Path, ints: &mut BTreeSet<u64>, texts: &mut BTreeSet<String>) {
    let mut list: Vec<_> = match std::fs::read_dir(p) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    list.sort();
    for f in list {
        if f.is_dir() {
            visit(&f, ints, texts);
            continue;
        }
        let name = f.file_name().map(|x| x.to_string_lossy().to_string()).unwrap_or_default();
        if !name.ends_with(".rs") || name == "tests.rs" || name == "test_samples.rs" {
            continue;
        }
        if let Ok(s) = std::fs::read_to_string(&f) {
            scan(&s, ints, texts);
        }
    }
}

fn number(t: &str) -> Option<u64> {
    let t: String = t.chars().filter(|c| *c != '_').collect();
    let (digits, radix) = match t.get(..2) {
        Some("0x") => (&t[2..], 16),
        Some("0o") => (&t[2..], 8),
        Some("0b") => (&t[2..], 2),
        _ => (&t[..], 10),
    };
    let digits = match digits.find(['u', 'i']) {
        Some(k) => &digits[..k],
        None => digits,
    };
    if let Ok(v) = u64::from_str_radix(digits, radix) {
        return Some(v);
    }
    t.parse::<f64>().ok().map(|x| x as u64)
}

fn scan(s: &str, ints: &mut BTreeSet<u64>, texts: &mut BTreeSet<String>) {
    let b = s.as_bytes();
    let mut i = 0;
    // The last number and the operator after it.
    let mut last: Option<u64> = None;
    let mut op = String::new();
    while i < b.len() {
        let c = b[i];
        if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if s[i..].starts_with("/*") {
            i = s[i..].find("*/").map(|k| i + k + 2).unwrap_or(b.len());
            continue;
        }
        if c == b'"' {
            let start = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            let t = s.get(start..i.min(b.len())).unwrap_or("");
            if t.len() <= 60 {
                texts.insert(unescape(t));
            }
            i += 1;
            last = None;
            continue;
        }
        if c == b'\'' {
            // A character or a lifetime.
            let rest = &s[i + 1..];
            let mut it = rest.char_indices();
            let ch = match it.next() {
                Some((_, '\\')) => rest[1..].find('\'').map(|k| k + 1).filter(|k| *k < 12),
                Some((_, c)) if rest[c.len_utf8()..].starts_with('\'') => Some(c.len_utf8()),
                _ => None,
            };
            if let Some(k) = ch {
                let t = unescape(&rest[..k]);
                if let Some(c) = t.chars().next() {
                    ints.insert(c as u64);
                }
                texts.insert(t);
                i += k + 2;
            } else {
                i += 1;
            }
            last = None;
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            last = None;
            op.clear();
            continue;
        }
        if c.is_ascii_digit() {
            let start = i;
            while i < b.len()
                && (b[i].is_ascii_alphanumeric()
                    || b[i] == b'_'
                    || (b[i] == b'.' && b.get(i + 1).map(|x| x.is_ascii_digit()) == Some(true)))
            {
                i += 1;
            }
            if let Some(v) = number(&s[start..i]) {
                ints.insert(v);
                if let Some(x) = last {
                    let r = match op.trim() {
                        "<<" => x.checked_shl(v as u32).filter(|_| v < 64),
                        "*" => x.checked_mul(v),
                        "+" => x.checked_add(v),
                        "-" => x.checked_sub(v),
                        _ => None,
                    };
                    if let Some(r) = r {
                        ints.insert(r);
                        last = Some(r);
                        op.clear();
                        continue;
                    }
                }
                last = Some(v);
                op.clear();
            }
            continue;
        }
        if c != b'(' && c != b')' {
            op.push(c as char);
        }
        i += 1;
        while i < b.len() && !s.is_char_boundary(i) {
            i += 1;
        }
    }
}

fn unescape(t: &str) -> String {
    let mut o = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('0') => o.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    o.push(c);
                }
            }
            Some('u') => {
                let h: String = it.by_ref().take_while(|c| *c != '}').filter(|c| *c != '{').collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    o.push(c);
                }
            }
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn scanner() {
        let (mut i, mut t) = (BTreeSet::new(), BTreeSet::new());
        scan(
            "fn f<'a>(x: &'a str) { let a = 4 * 1024; 0xF8u8; 1 << 20; 'q'; '\\u{FEFF}'; \"a\\\"b\" 1_000 /* 77 */ // 78\n v[3]; 2.5 }",
            &mut i,
            &mut t,
        );
        for x in [4096, 0xf8, 1 << 20, 'q' as u64, 0xfeff, 1000, 3, 2] {
            assert!(i.contains(&x), "{}", x);
        }
        assert!(!i.contains(&77) && !i.contains(&78));
        assert!(t.contains("a\"b") && t.contains("q"));
    }
}
