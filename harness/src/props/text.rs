//! Texts that are or are not UTF-8, of every length.
use super::decode::check;
use super::*;
use crate::rio::*;
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::explicit::deserialize_string_tag_from_value;

/// Sequences of bytes that are not UTF-8 wherever they are.
const BAD: [&[u8]; 22] = [
    b"\x80",
    b"\xbf",
    b"\xc0\x80",
    b"\xc1\xbf",
    b"\xc2",
    b"\xc3\x28",
    b"\xe0\x80\x80",
    b"\xe0\x9f\xbf",
    b"\xe2\x82",
    b"\xe2\x28\xa1",
    b"\xed\xa0\x80",
    b"\xed\xbf\xbf",
    b"\xef\xbf",
    b"\xf0\x80\x80\x80",
    b"\xf0\x8f\xbf\xbf",
    b"\xf0\x9f\x98",
    b"\xf0\x9f",
    b"\xf4\x90\x80\x80",
    b"\xf5\x80\x80\x80",
    b"\xf8\x88\x80\x80\x80",
    b"\xfe",
    b"\xff",
];

/// Lengths around the sizes of buffers.
fn text_len(s: &mut Src) -> usize {
    match s.weighted(&[4, 3, 4, 2]) {
        0 => s.usize(20),
        1 => s.usize(300),
        2 => {
            let k = s.range(4, 12);
            ((1usize << k) + s.usize(7)).saturating_sub(3)
        }
        _ => {
            let u = s.pick(&[64usize, 256, 512, 1000, 1024, 4096]);
            (u * (1 + s.usize(5)) + s.usize(7)).saturating_sub(3)
        }
    }
}

/// A text of about `n` bytes, with a wide character across any of the multiples of the
/// powers of two, and what it has wrong.
pub fn text(s: &mut Src) -> (Vec<u8>, bool) {
    let n = text_len(s);
    let shift = s.usize(4);
    let wide = s.pick(&["é", "漢", "😀", "\u{10ffff}", "a"]);
    let mut b = Vec::with_capacity(n + 8);
    for i in 0..shift.min(n) {
        b.push(b'a' + i as u8);
    }
    while b.len() + wide.len() <= n {
        b.extend_from_slice(wide.as_bytes());
    }
    while b.len() < n {
        b.push(b'.');
    }
    let bad = s.chance(2, 3);
    if bad {
        let x = s.pick(&BAD);
        match s.below(5) {
            // At the end: incomplete or not.
            0 => {
                b.truncate(n.saturating_sub(x.len()));
                while std::str::from_utf8(&b).is_err() {
                    b.pop();
                }
                b.extend_from_slice(x);
            }
            1 => b.extend_from_slice(x),
            // At the beginning
            2 => {
                let mut y = x.to_vec();
                y.extend(&b);
                b = y;
            }
            // Around a multiple of a power of two.
            3 => {
                let k = s.range(3, 12);
                let m = 1 + s.usize(1 + (n >> k));
                let at = ((m << k) + s.usize(5)).saturating_sub(4).min(b.len());
                let e = (at + x.len()).min(b.len());
                b.splice(at..e, x.iter().cloned());
            }
            _ => {
                let at = s.usize(b.len() + 1);
                let e = (at + if s.chance(1, 2) { x.len() } else { 0 }).min(b.len());
                b.splice(at..e, x.iter().cloned());
            }
        }
    } else if s.chance(1, 3) {
        // The beginning of the character that follows the text.
        let k = s.usize(b.len() + 1);
        b.truncate(k);
    }
    (b, bad)
}

fn string_tag(id: u64, v: &[u8]) -> Vec<u8> {
    let mut b = ref_ilint(id);
    b.extend(ref_ilint(v.len() as u64));
    b.extend(v);
    b
}

pub fn c08_texts(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut reg = Reg::std(s.chance(1, 2));
    reg.map.insert(40, Ty::Str);
    reg.map.insert(41, Ty::PayB);
    let f = factory(&reg);
    let (v, _) = text(s);
    let valid = std::str::from_utf8(&v).is_ok();
    ctx.class(if valid { "valid" } else { "invalid" });
    if v.len() > 1000 {
        ctx.class("more than 1000 bytes");
    }
    if v.len() >= 2 {
        ctx.nontrivial();
    }
    let other = enc(&small_tag(s, &reg));
    let plain = string_tag(17, b"k");
    let text = string_tag(17, &v);
    let (what, mut b) = match s.below(8) {
        0 | 1 => ("string", text),
        2 => ("custom string", string_tag(40, &v)),
        3 => {
            let n = s.usize(3);
            let mut x = ref_ilint(1 + n as u64);
            let at = s.usize(n + 1);
            for i in 0..n + 1 {
                x.extend(if i == at { text.clone() } else { string_tag(17, format!("k{}", i).as_bytes()) });
                x.extend(&other);
            }
            ("key", string_tag(30, &x))
        }
        4 => {
            let mut x = ref_ilint(1);
            x.extend(text);
            x.extend(plain);
            ("key of strings", string_tag(31, &x))
        }
        5 => {
            let n = s.usize(3);
            let mut x = ref_ilint(1 + n as u64);
            let at = s.usize(n + 1);
            for i in 0..n + 1 {
                x.extend(string_tag(17, format!("k{}", i).as_bytes()));
                x.extend(if i == at { text.clone() } else { plain.clone() });
            }
            ("value of strings", string_tag(31, &x))
        }
        6 => {
            let mut x = ref_ilint(1);
            x.extend(plain);
            x.extend(text);
            ("value", string_tag(30, &x))
        }
        _ => {
            let mut x = vec![0, 0, 0, 9];
            x.extend(ref_ilint(v.len() as u64));
            x.extend(&v);
            x.extend(&other);
            ("payload", string_tag(41, &x))
        }
    };
    for _ in 0..s.usize(3) {
        b = match s.below(3) {
            0 => {
                let mut x = vec![2];
                x.extend(&b);
                x.extend(&other);
                string_tag(21, &x)
            }
            1 => {
                let mut x = other.clone();
                x.extend(&b);
                string_tag(22, &x)
            }
            _ => string_tag(22, &b),
        };
    }
    ctx.class(what);
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| format!("{} {}: {}", what, if valid { "valid" } else { "invalid" }, hex(&b)));
    let r = check(&reg, &f, &b, rk_any(s), s.any())?;
    ensure_eq!(r.is_ok(), valid, "the reference decoder on {}", hex(&b));
    // Followed by the rest of the character or anything.
    let mut long = v.clone();
    long.extend(s.pick(&[&b"\xac"[..], b"\x9f\x98\x80", b"\x98\x80", b"abc", b""]));
    let want = String::from_utf8(v.clone());
    let (r, n) = read_with(rk_any(s), &long, s.any(), |r| FwdR(r).deserialize_string(v.len()));
    match (&r, &want) {
        (Ok(a), Ok(x)) => {
            ensure!(a == x, "deserialize_string() of {}: {:?}", hex(&v), a);
            ensure_eq!(n, v.len(), "bytes consumed by deserialize_string()");
        }
        (Err(_), Err(_)) => (),
        _ => return Err(format!("deserialize_string() of {}: {:?}, expected {:?}", hex(&v), r, want)),
    }
    let mut long2 = string_tag(17, &v);
    let l = long2.len();
    long2.extend_from_slice(&long[v.len()..]);
    let (r, n) = read_with(rk_any(s), &long2, s.any(), |r| deserialize_string_tag_from_value(&mut FwdR(r)));
    match (&r, &want) {
        (Ok(a), Ok(x)) => {
            ensure!(a == x, "a string of the text {}: {:?}", hex(&v), a);
            ensure_eq!(n, l, "bytes consumed by a string");
        }
        (Err(_), Err(_)) => (),
        _ => return Err(format!("a string of {}: {:?}, expected {:?}", hex(&v), r, want)),
    }
    Ok(())
}
