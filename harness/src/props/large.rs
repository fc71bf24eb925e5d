//! Tags, arrays and transfers of up to several MiB, for the properties whose other suites
//! stay small: the sizes are spread evenly over the orders of magnitude.
use super::decode::check;
use super::*;
use crate::rio::*;
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{LimitedReader, ReadReader, WriteWriter};
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::serialization::ByteArrayDeserializer;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::{ILDictTag, ILStrDictTag};
use il2_iltags::tags::util::*;
use std::collections::BTreeMap;

/// The suites on large values of a property; the numbers are those of the quick tier.
pub fn suites(id: &str) -> Vec<Suite> {
    let f: &[(&'static str, u64, CaseFn)] = match id {
        "C04" => &[("large texts and arrays", 400, c04)],
        "C05" => &[("large tags", 400, c05)],
        "C06" => &[("large tags", 300, c06), ("long use", 150, c06_long)],
        "C07" => &[("large tags", 500, c07), ("long use", 150, c07_long)],
        "C08" | "C10" => &[("large tags with damage", 400, c08)],
        "C09" => &[("large tags", 400, c09)],
        "C12" => &[("large dictionaries", 400, c12)],
        "C14" => &[("large tags", 300, c14), ("long use", 150, c14_long)],
        "C15" => &[("large tags", 300, c15)],
        "C16" => &[("large tags", 500, c16), ("many tags", 300, c16_long)],
        "C17" => &[("large transfers", 600, c17), ("long histories", 600, c17_long)],
        "C18" => &[("large transfers", 600, c18), ("long histories", 600, c18_long)],
        "C19" => &[("large transfers", 600, c19), ("long histories", 600, c19_long), ("limits beyond the source", 3000, c19_short)],
        "C20" => &[("large transfers", 1200, c20), ("long histories", 600, c20_long)],
        "C22" => &[("large payloads", 300, c22)],
        "C28" => &[("large strings", 600, c28), ("long use", 150, c28_long)],
        _ => &[],
    };
    let q = quick_factor(id);
    f.iter()
        .map(|(name, n, f)| random(name, (n + q - 1) / q, n * 200, *f))
        .collect()
}

/// A length, evenly over the orders of magnitude, often around a round number.
fn len(s: &mut Src, lo: u32, hi: u32) -> usize {
    if hi >= 20 && s.chance(1, 24) {
        // Where the length of a value needs four bytes more.
        return match s.below(3) {
            0 => (1 << 24) + s.usize(1 << 24),
            1 => (1 << 24) + 244 + s.usize(8),
            _ => (1 << 24) + 240 + s.usize(8),
        };
    }
    match s.weighted(&[4, 3, 2, 1]) {
        0 => {
            let k = s.range(lo as u64, hi as u64 - 1);
            ((1u64 << k) + s.below(1 << k)) as usize
        }
        1 => {
            let k = s.range(lo as u64, hi as u64);
            ((1usize << k) + s.usize(9)) - 4
        }
        2 => {
            let u = s.pick(&[1000usize, 4096, 10_000, 65_536, 65_784, 100_000, 1 << 20]);
            let m = ((1usize << hi) / u).max(1);
            (u * (1 + s.usize(m)) + s.usize(9)).saturating_sub(4)
        }
        _ => (s.hint() % (1 << hi)) as usize,
    }
}

fn data(s: &mut Src, n: usize) -> Vec<u8> {
    match s.below(4) {
        0 => vec![s.below(256) as u8; n],
        _ => s.bytes(n),
    }
}

/// A text of exactly `n` bytes, with wide characters anywhere.
fn text(s: &mut Src, n: usize) -> String {
    match s.below(3) {
        0 => "x".repeat(n),
        1 => {
            let c = s.pick(&["é", "漢", "😀", "ab"]);
            let shift = s.usize(5).min(n);
            let k = (n - shift) / c.len();
            let mut t = "z".repeat(shift);
            t.push_str(&c.repeat(k));
            t.push_str(&"y".repeat(n - t.len()));
            t
        }
        _ => string_len(s, n),
    }
}

/// A tag with a large value, of any type that can have one.
fn leaf(s: &mut Src, reg: &Reg, hi: u32) -> T {
    let n = len(s, 12, hi);
    let mut few = (n / 16).min(60_000);
    let z = s.any();
    let mut kinds = [6, 6, 2, 2, 3, 2, 2, 2, 2, 2, 3, 3];
    let mut n = n;
    if s.chance(1, 16) {
        // More elements than a count of 16 bits can tell.
        few = s.pick(&[65_535usize, 65_536, 65_537, 65_600, 70_000]) * (1 + s.usize(8) / 7);
        n = few * 4;
        kinds = [0, 0, 0, 0, 1, 1, 3, 3, 3, 3, 0, 0];
    }
    let small = |i: usize| match mix(z ^ i as u64) % 6 {
        0 => T::std(V::Null),
        1 => T::std(V::U8(i as u8)),
        2 => T::std(V::I32(i as i32)),
        3 => T::std(V::Str(format!("{}", i))),
        4 => T::std(V::ILInt(mix(i as u64) >> (i % 60))),
        _ => T::std(V::Bool(i & 1 == 0)),
    };
    let v = match s.weighted(&kinds) {
        0 => V::Bytes(data(s, n)),
        1 => V::Str(text(s, n)),
        2 => V::BigInt(data(s, n)),
        3 => V::BigDec(i64_any(s) as i32, data(s, n)),
        4 => V::ILIntArr((0..(n / 4) as u64).map(|i| mix(z ^ i) >> (mix(i) % 64)).collect()),
        5 => V::Oid((0..n as u64 / 2).map(|i| i.wrapping_mul(z | 1) >> 40).collect()),
        6 => V::Arr((0..few).map(small).collect()),
        7 => V::Seq((0..few).map(small).collect()),
        8 => {
            if kinds[0] != 0 && s.chance(1, 3) {
                // A large key, or two that begin alike.
                let t = text(s, n / 2);
                let u = vary_text(s, &t);
                return T::std(V::Dict([(t, small(0)), ("k".to_string(), small(1)), (u, small(2))].into_iter().collect()));
            }
            let (few, m) = if kinds[0] == 0 { (few, u64::MAX) } else { (few / 2, 1_000_000) };
            V::Dict((0..few).map(|i| (format!("{}", mix(i as u64) % m), small(i))).collect())
        }
        9 => {
            if kinds[0] != 0 && s.chance(1, 2) {
                // A large key, or a large value.
                let k = n / 2;
                let t = text(s, k);
                V::StrDict([(t, "v".to_string()), ("k".to_string(), text(s, n - k))].into_iter().collect())
            } else {
                V::StrDict((0..few).map(|i| (format!("{:x}", mix(i as u64)), "v".repeat(i % 9))).collect())
            }
        }
        10 => {
            // A payload, if there is one.
            let id = reg.customs().iter().find(|x| x.1 == Ty::PayA).map(|x| x.0);
            return match id {
                Some(id) => T::new(id, V::PayA(data(s, n))),
                None => T::std(V::Bytes(data(s, n))),
            };
        }
        _ => {
            if !reg.strict {
                if let Some(id) = (1000..2000).find(|i| !reg.map.contains_key(i)) {
                    return T::new(id, V::Raw(data(s, n)));
                }
            }
            V::Bytes(data(s, n))
        }
    };
    T::std(v)
}

struct Large {
    reg: Reg,
    t: T,
    b: Vec<u8>,
}
fn large(s: &mut Src, ctx: &mut Ctx, hi: u32) -> Large {
    let mut reg = reg_any(s);
    reg.map.entry(s.pick(&[26u64, 40, 70_000])).or_insert(Ty::PayA);
    let mut t = leaf(s, &reg, hi);
    for _ in 0..s.pick(&[0usize, 0, 1, 1, 2, 3]) {
        t = wrap(s, t, 3, &reg);
        if let V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) = &mut t.v {
            if s.chance(1, 2) {
                v.insert(0, small_tag(s, &reg));
            }
            if s.chance(1, 2) {
                v.push(small_tag(s, &reg));
            }
        }
    }
    let b = enc(&t);
    classify(ctx, &t);
    ctx.describe(|| name(&t, &b));
    if b.len() >= 1 << 12 {
        ctx.nontrivial();
    }
    ctx.class(match b.len() {
        0..=65_535 => "below 64 KiB",
        65_536..=1_048_575 => "64 KiB to 1 MiB",
        _ => "1 MiB and more",
    });
    Large { reg, t, b }
}
fn name(t: &T, b: &[u8]) -> String {
    format!("tag {} ({:?}) of {} bytes: {}", t.id, t.ty(), b.len(), show(t))
}

/// `same`, without a copy of everything in the message.
fn same_large(tag: &dyn ILTag, x: &Large, what: &str) -> R {
    match model(tag) {
        Ok(m) if m == x.t => Ok(()),
        Ok(m) => Err(format!("{}: {} came out of {}", what, show(&m), name(&x.t, &x.b))),
        Err(e) => Err(format!("{}: {} for {}", what, e, name(&x.t, &x.b))),
    }
}
/// Where two arrays differ.
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(a, b)| a == b).count();
    format!(
        "{} bytes instead of {}, different at {} ({} and {})",
        a.len(),
        b.len(),
        i,
        hex(&a[i..a.len().min(i + 8)]),
        hex(&b[i..b.len().min(i + 8)])
    )
}

fn c04(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = len(s, 12, 22);
    let t = text(s, n);
    let bad = s.chance(1, 3) && n > 0;
    let mut b = t.clone().into_bytes();
    if bad {
        let p = if s.chance(1, 2) { s.usize(n) } else { n - 1 - s.usize(n.min(9)) };
        b[p] = s.pick(&[0xffu8, 0x80, 0xc3, 0xf8]);
    }
    let want = std::str::from_utf8(&b).is_ok();
    ctx.describe(|| format!("{} bytes, UTF-8: {}", n, want));
    ctx.nontrivial();
    let seed = s.any();
    if want {
        let wk = wk_any(s);
        let (r, out) = write_with(wk, n, seed, |w| write_string(&t, w));
        ensure!(r.is_ok() && (out == t.as_bytes() || bad), "write_string() of {} bytes on {:?}: {:?}", n, wk, r);
    }
    let rk = rk_any(s);
    let (r, taken) = read_with(rk, &b, seed, |r| read_string(r, n));
    match &r {
        Ok(t) => ensure!(
            want && t.as_bytes() == b && taken == n,
            "read_string() of {} bytes on {:?}, UTF-8: {}: {}, {} taken",
            n,
            rk,
            want,
            diff(t.as_bytes(), &b),
            taken
        ),
        Err(e) => ensure!(!want, "read_string() of {} bytes on {:?}: {:?}", n, rk, e),
    }
    // One byte is missing.
    if n > 0 {
        let (r, _) = read_with(rk, &b[..n - 1], seed, |r| read_string(r, n));
        ensure!(r.is_err(), "read_string() of {} with {} bytes on {:?}", n, n - 1, rk);
        let (r, _) = read_with(rk, &b[..n - 1], seed, |r| r.deserialize_bytes(n));
        ensure!(r.is_err(), "deserialize_bytes() of {} with {} bytes on {:?}", n, n - 1, rk);
    }
    let (r, taken) = read_with(rk, &b, seed, |r| r.deserialize_bytes(n));
    let got = r.map_err(|e| format!("deserialize_bytes() of {} on {:?}: {:?}", n, rk, e))?;
    ensure!(got == b && taken == n, "deserialize_bytes() on {:?}: {}, {} taken", rk, diff(&got, &b), taken);
    let mut v = data(s, 5);
    let (r, taken) = read_with(rk, &b, seed, |r| r.deserialize_bytes_into_vec(n, &mut v));
    r.map_err(|e| format!("deserialize_bytes_into_vec() of {} on {:?}: {:?}", n, rk, e))?;
    ensure!(v == b && taken == n, "deserialize_bytes_into_vec() on {:?}: {}", rk, diff(&v, &b));
    Ok(())
}

fn c05(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = large(s, ctx, 22);
    let tag = build(&x.t);
    let got = tag.to_bytes().map_err(|e| format!("to_bytes(): {:?}", e))?;
    ensure!(got == x.b, "to_bytes(): {} for {}", diff(&got, &x.b), name(&x.t, &x.b));
    let (wk, seed) = (wk_any(s), s.any());
    let (r, got) = write_with(wk, x.b.len(), seed, |w| tag.serialize(w));
    r.map_err(|e| format!("serialize() on {:?}: {:?} for {}", wk, e, name(&x.t, &x.b)))?;
    ensure!(got == x.b, "serialize() on {:?}: {} for {}", wk, diff(&got, &x.b), name(&x.t, &x.b));
    Ok(())
}

fn c06(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = large(s, ctx, 20);
    let mut tag = build(&x.t);
    let mut t = x.t.clone();
    for k in 0..3 {
        let (b, v) = (enc(&t), enc_value(&t.v));
        ensure_eq!(tag.size(), b.len() as u64, "size() in step {} for {}", k, name(&t, &b));
        ensure_eq!(tag.value_size(), v.len() as u64, "value_size() in step {} for {}", k, name(&t, &b));
        let got = tag.to_bytes().map_err(|e| format!("{:?}", e))?;
        ensure!(got.len() as u64 == tag.size(), "{} bytes, size() {}", got.len(), tag.size());
        ensure!(got == b, "{} for {}", diff(&got, &b), name(&t, &b));
        // Another value of the same type, also large in the end.
        let y = match k {
            0 => Gen::small(&x.reg).value(s, t.ty()),
            _ => x.t.v.clone(),
        };
        morph(tag.as_mut(), &y, s.below(6));
        t.v = y;
    }
    Ok(())
}

fn c07(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = large(s, ctx, 23);
    let f = factory(&x.reg);
    let mut long = x.b.clone();
    let second = enc(&small_tag(s, &x.reg));
    long.extend_from_slice(&second);
    for rk in [rk_any(s), RK::Slice] {
        let seed = s.any();
        let (r, n) = read_with(rk, &long, seed, |r| f.deserialize(r));
        let tag = r.map_err(|e| format!("{:?} on {:?} for {}", e, rk, name(&x.t, &x.b)))?;
        ensure_eq!(n, x.b.len(), "bytes taken on {:?} of {}", rk, name(&x.t, &x.b));
        same_large(tag.as_ref(), &x, &format!("decoding on {:?}", rk))?;
        let again = tag.to_bytes().map_err(|e| format!("{:?}", e))?;
        ensure!(again == x.b, "serialized again: {}", diff(&again, &x.b));
    }
    Ok(())
}

fn c08(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = large(s, ctx, 20);
    let f = factory(&x.reg);
    let mut b = x.b.clone();
    for _ in 0..3 {
        let n = b.len();
        // Near the start, where the lengths are, or near the end.
        let p = match s.below(3) {
            0 => s.usize(n.min(24)),
            1 => n - 1 - s.usize(n.min(24)),
            _ => s.usize(n),
        };
        match s.below(6) {
            0 => b[p] = b[p].wrapping_add(1),
            1 => b[p] = b[p].wrapping_sub(1),
            2 => b[p] = s.below(256) as u8,
            3 => drop(b.remove(p)),
            4 => b.insert(p, s.below(256) as u8),
            _ => b.truncate(p.max(1)),
        }
        let (rk, seed) = (rk_any(s), s.any());
        let _ = check(&x.reg, &f, &b, rk, seed)?;
        ctx.extra += 1;
        if b.is_empty() || s.chance(2, 3) {
            b = x.b.clone();
        }
    }
    Ok(())
}

fn c09(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = large(s, ctx, 21);
    let f = factory(&x.reg);
    let n = x.b.len();
    let mut cuts = vec![n - 1, n / 2, n - 1 - s.usize(n.min(20)), s.usize(n.min(20)), s.usize(n), s.usize(n)];
    cuts.extend(super::decode::round_cuts(s, &x.b, 2));
    for p in cuts {
        let (rk, seed) = (rk_any(s), s.any());
        let (r, _) = read_with(rk, &x.b[..p], seed, |r| f.deserialize(r));
        ensure!(r.is_err(), "the first {} bytes are accepted on {:?} for {}", p, rk, name(&x.t, &x.b));
        let r = f.from_bytes(&x.b[..p]);
        ensure!(r.is_err(), "from_bytes() accepts the first {} bytes for {}", p, name(&x.t, &x.b));
        ctx.extra += 1;
    }
    super::decode::cut_value(s, ctx, &f, &x.t)?;
    let mut long = x.b.clone();
    let k = if s.chance(1, 3) { len(s, 10, 20) } else { s.usize(600) };
    long.extend(data(s, k + 1));
    let r = f.from_bytes(&long);
    ensure!(r.is_err(), "from_bytes() accepts {} bytes more for {}", k + 1, name(&x.t, &x.b));
    let tag = f.from_bytes(&x.b).map_err(|e| format!("{:?} for {}", e, name(&x.t, &x.b)))?;
    same_large(tag.as_ref(), &x, "from_bytes()")
}

/// Large dictionaries, built in any order.
fn c12(s: &mut Src, ctx: &mut Ctx) -> R {
    let many = s.chance(1, 40);
    let n = if many { 68_000 + s.usize(80_000) } else { (len(s, 6, 14)).min(30_000) };
    let z = s.any();
    let wide = s.chance(1, 3);
    let step = s.pick(&[1u64, 3, 7]);
    let key = |i: u64| {
        let r = mix(z ^ i);
        match if many { 3 + r % 2 } else { r % 5 } {
            0 => format!("{}", r % 100_000),
            1 if wide => "k".repeat((r >> 8) as usize % 600) + &format!("{}", r % 1000),
            2 => format!("é{:x}", r >> 50),
            3 => format!("{:08}", i * step),
            _ if many => format!("\u{10000}{}", r),
            _ => format!("\u{10000}{}", r >> 52),
        }
    };
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let (mut sd, mut d) = (ILStrDictTag::new(), ILDictTag::new());
    for i in 0..n as u64 {
        let r = mix(z ^ i ^ (1 << 50));
        let k = key(if r % 9 == 0 { mix(r) % (i + 1) } else { i });
        if r % 11 == 0 {
            let a = sd.mut_value().remove(&k);
            let b = d.mut_value().remove(&k);
            let c = m.remove(&k);
            ensure!(a == c && b.is_some() == c.is_some(), "remove({:?}) in step {}", clip(&k, 30), i);
        } else {
            let v = "v".repeat((r >> 20) as usize % 12);
            let a = sd.insert(&k, &v);
            let b = d.insert(&k, Box::new(ILStringTag::with_value(&v)));
            let c = m.insert(k.clone(), v);
            ensure!(a == c && b.is_some() == c.is_some(), "insert({:?}) in step {}", clip(&k, 30), i);
        }
    }
    ctx.describe(|| format!("{} keys after {} steps", m.len(), n));
    if m.len() >= 32 {
        ctx.nontrivial();
    }
    ensure_eq!(d.value().len(), m.len(), "keys");
    let want = enc(&T::std(V::StrDict(m.clone())));
    let got = sd.to_bytes().map_err(|e| format!("{:?}", e))?;
    ensure!(got == want, "string dictionary of {} keys: {}", m.len(), diff(&got, &want));
    let td: BTreeMap<String, T> = m.iter().map(|(k, v)| (k.clone(), T::std(V::Str(v.clone())))).collect();
    let want_d = enc(&T::std(V::Dict(td)));
    let got = d.to_bytes().map_err(|e| format!("{:?}", e))?;
    ensure!(got == want_d, "dictionary of {} keys: {}", m.len(), diff(&got, &want_d));
    ensure_eq!((sd.size(), d.size()), (want.len() as u64, want_d.len() as u64), "size()");
    for k in 0..20u64 {
        let k = key(mix(k ^ z) % (n as u64 + 2));
        ensure_eq!(sd.get(&k), m.get(&k).map(|x| x.as_str()), "get({:?})", clip(&k, 30));
        ensure_eq!(d.get(&k).is_some(), m.contains_key(&k), "get({:?})", clip(&k, 30));
    }
    let f = standard::ILStandardTagFactory::new(true);
    let x = Large { reg: Reg::std(true), t: T::std(V::StrDict(m)), b: want };
    let tag = f.from_bytes(&x.b).map_err(|e| format!("{:?} for {}", e, name(&x.t, &x.b)))?;
    same_large(tag.as_ref(), &x, "decoded")
}

fn c14(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = large(s, ctx, 21);
    let f = factory(&x.reg);
    let (fits, cut) = (s.chance(3, 4), s.usize(x.b.len()));
    // What was there: large too, or small.
    let old = match s.below(4) {
        3 => vary(s, &x.t),
        0 => T::new(x.t.id, V::zero(x.t.ty())),
        1 => T::new(x.t.id, Gen::small(&x.reg).value(s, x.t.ty())),
        _ => {
            let mut y = x.t.clone();
            match &mut y.v {
                V::Bytes(v) | V::BigInt(v) | V::BigDec(_, v) | V::Raw(v) | V::PayA(v) => v.extend_from_within(..),
                V::Str(t) => t.push_str("abc"),
                V::ILIntArr(v) | V::Oid(v) => v.extend_from_within(..),
                V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => v.extend_from_within(..v.len().min(100)),
                V::Dict(m) => drop(m.insert("zz".to_string(), T::std(V::Null))),
                V::StrDict(m) => drop(m.insert("zz".to_string(), "zz".to_string())),
                _ => (),
            }
            y
        }
    };
    let mut tag = build(&old);
    if !fits {
        let r = f.deserialize_into(&mut ByteArrayReader::new(&x.b[..cut]), tag.as_mut());
        ensure!(r.is_err(), "{} of {} bytes are accepted", cut, x.b.len());
    }
    let (rk, seed) = (rk_any(s), s.any());
    let (r, n) = read_with(rk, &x.b, seed, |r| f.deserialize_into(r, tag.as_mut()));
    r.map_err(|e| format!("{:?} on {:?} for {}", e, rk, name(&x.t, &x.b)))?;
    ensure_eq!(n, x.b.len(), "bytes taken");
    same_large(tag.as_ref(), &x, &format!("decoded on {:?} over {}", rk, show(&old)))?;
    // A small or an empty one over the large one.
    let y = match s.below(2) {
        0 => T::new(x.t.id, V::zero(x.t.ty())),
        _ => T::new(x.t.id, Gen::small(&x.reg).value(s, x.t.ty())),
    };
    let b = enc(&y);
    let (r, n) = read_with(rk, &b, seed, |r| f.deserialize_into(r, tag.as_mut()));
    r.map_err(|e| format!("{:?} on {:?} for {} over {}", e, rk, show(&y), name(&x.t, &x.b)))?;
    ensure_eq!(n, b.len(), "bytes taken of {}", show(&y));
    same(tag.as_ref(), &y, &format!("decoded on {:?} over {}", rk, name(&x.t, &x.b)))
}

fn c15(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = large(s, ctx, 21);
    let f = factory(&x.reg);
    let a = build(&x.t);
    let c = iltag_clone_with_factory(&f, a.as_ref()).map_err(|e| format!("clone: {:?} of {}", e, name(&x.t, &x.b)))?;
    same_large(c.as_ref(), &x, "clone")?;
    ensure!(iltag_are_equal(a.as_ref(), c.as_ref()), "the clone is not equal, of {}", name(&x.t, &x.b));
    // One bit of difference, somewhere.
    let mut y = x.t.clone();
    fn touch(s: &mut Src, t: &mut T) -> bool {
        let p = |s: &mut Src, n: usize| match s.below(3) {
            0 => s.usize(n),
            1 => n - 1,
            _ => n - 1 - s.usize(n.min(70)),
        };
        match &mut t.v {
            V::Bytes(v) | V::BigInt(v) | V::BigDec(_, v) | V::Raw(v) | V::PayA(v) if !v.is_empty() => {
                let i = p(s, v.len());
                v[i] ^= 1 << s.below(8);
                true
            }
            V::ILIntArr(v) | V::Oid(v) if !v.is_empty() => {
                let i = p(s, v.len());
                v[i] ^= 1 << s.below(64);
                true
            }
            V::Str(t) => {
                t.pop();
                t.push('#');
                true
            }
            V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => {
                // The large one, or the last.
                let i = v.iter().enumerate().max_by_key(|(i, t)| (matches!(t.v, V::Bytes(_) | V::Str(_) | V::Raw(_)), *i));
                match i.map(|x| x.0) {
                    Some(i) => touch(s, &mut v[i]),
                    None => false,
                }
            }
            V::Dict(m) => m.values_mut().any(|t| touch(s, t)),
            V::U8(x) => {
                *x ^= 1;
                true
            }
            V::I32(x) => {
                *x ^= 1 << s.below(32);
                true
            }
            V::Bool(x) => {
                *x = !*x;
                true
            }
            _ => false,
        }
    }
    touch(s, &mut y);
    let d = build(&y);
    let equal = y == x.t || enc(&y) == x.b;
    for (p, q) in [(&a, &d), (&d, &a), (&c, &d)] {
        ensure_eq!(iltag_are_equal(p.as_ref(), q.as_ref()), equal, "equality of {} and {}", show(&x.t), show(&y));
    }
    Ok(())
}

fn c16(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = large(s, ctx, 23);
    let before: Vec<u8> = (0..s.usize(3)).flat_map(|_| enc(&small_tag(s, &x.reg))).collect();
    let after = enc(&small_tag(s, &x.reg));
    let mut all = before.clone();
    all.extend_from_slice(&x.b);
    all.extend_from_slice(&after);
    let cut = if s.chance(1, 2) { all.len() } else { before.len() + 1 + s.usize(x.b.len() - 1) };
    let (rk, seed) = (rk_any(s), s.any());
    let mut want = Vec::new();
    let mut p = 0;
    while p < cut {
        match scan_one(&all[p..cut], p as u64) {
            Ok(y) => {
                p = y.end as usize;
                // `scan_one` counts from the start of what it is given.
                want.push([y.id, y.start, y.value, y.end - y.value, y.end]);
            }
            Err(_) => break,
        }
    }
    let (got, _) = read_with(rk, &all[..cut], seed, |r| -> std::result::Result<_, String> {
        let mut r = FwdR(r);
        let mut sc = RawTagScanner::new(&mut r);
        let mut v = Vec::new();
        for _ in 0..100 {
            match sc.next_tag() {
                Ok(Some(t)) => v.push([t.id(), t.offset(), t.value_offset(), t.value_size(), t.next_tag_offset()]),
                Ok(None) => return Err("nothing found and no error".to_string()),
                Err(_) => return Ok(v),
            }
        }
        Err("more than a hundred tags".to_string())
    });
    let got = got?;
    ensure_eq!(got, want, "scanning {} of {} bytes on {:?} of {}", cut, all.len(), rk, name(&x.t, &x.b));
    Ok(())
}

/// How many bytes to move, with `left` to go.
fn amount(s: &mut Src, left: usize) -> usize {
    match s.weighted(&[4, 2, 2, 2, 3]) {
        0 => len(s, 9, 20),
        1 => left,
        2 => s.usize(left + 1),
        3 => left + 1 + if s.chance(1, 3) { len(s, 9, 20) } else { s.usize(9) },
        _ => s.usize(700),
    }
}

/// A history of reads over a large array. Returns where it ends, and whether the last
/// operation failed. Continues after a failure if `atomic`.
fn reads(s: &mut Src, ctx: &mut Ctx, r: &mut dyn Reader, all: &[u8], atomic: bool) -> std::result::Result<(usize, bool), String> {
    let mut pos = 0;
    let mut log = String::new();
    for _ in 0..2 + s.usize(7) {
        let left = all.len() - pos;
        let n = amount(s, left);
        let (res, what) = match s.below(5) {
            0 => (r.skip(n), "skip"),
            1 => (r.skip_u64(n as u64), "skip_u64"),
            _ => {
                let mut b = vec![0xEE; n];
                let x = r.read_all(&mut b);
                if x.is_ok() && n <= left {
                    ensure!(
                        b[..] == all[pos..pos + n],
                        "read_all({}) at {} after{}: {}",
                        n,
                        pos,
                        log,
                        diff(&b, &all[pos..pos + n])
                    );
                }
                (x, "read_all")
            }
        };
        log.push_str(&format!(" {} {}", what, n));
        ensure_eq!(res.is_ok(), n <= left, "{} with {} bytes left ({:?}) after{}", what, left, res, log);
        ctx.extra += 1;
        if n <= left {
            pos += n;
        } else if !atomic {
            ctx.describe(|| format!("{} bytes:{}", all.len(), log));
            return Ok((pos, true));
        }
        // One byte, to see where it is.
        if pos < all.len() {
            let b = r.read().map_err(|e| format!("read() at {} of {}: {:?} after{}", pos, all.len(), e, log))?;
            ensure!(b == all[pos], "the byte at {} is {}, expected {}, after{}", pos, b, all[pos], log);
            pos += 1;
        }
    }
    ctx.describe(|| format!("{} bytes:{}", all.len(), log));
    ctx.nontrivial();
    Ok((pos, false))
}

fn c17(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = len(s, 10, 21);
    let b = s.bytes(n);
    macro_rules! go {
        ($r:expr) => {{
            let mut r = $r;
            let (p, _) = reads(s, ctx, &mut r, &b, true)?;
            ensure_eq!((r.offset(), r.available(), r.len()), (p, n - p, n), "offset(), available(), len()");
            // Anywhere.
            let q = amount(s, n);
            r.set_offset(q);
            let q = q.min(n);
            ensure_eq!((r.offset(), r.available()), (q, n - q), "set_offset() of {}", n);
            ensure!(r.as_slice() == &b[..], "the data");
            reads(s, ctx, &mut r, &b[q..], true)?;
        }};
    }
    if s.chance(1, 2) {
        go!(ByteArrayReader::new(&b));
    } else {
        go!(VecReader::new(&b));
    }
    Ok(())
}

fn c18(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = len(s, 8, 19);
    let z = s.any();
    let chunk = |k: u64, n: usize| -> Vec<u8> { (0..n).map(|i| mix(z ^ k) as u8 ^ (i as u8) ^ ((i >> 8) as u8)).collect() };
    let kind = s.below(3);
    let pre = chunk(99, n);
    let start = amount(s, n).min(n);
    let steps: Vec<(usize, Option<usize>)> = (0..2 + s.usize(6))
        .map(|_| {
            let a = amount(s, n);
            let q = if s.chance(1, 3) { Some(amount(s, n)) } else { None };
            (a, q)
        })
        .collect();
    ctx.describe(|| format!("kind {} over {} bytes from {}: {:?}", kind, n, start, steps));
    ctx.nontrivial();
    let place = |v: &mut Vec<u8>, pos: &mut usize, b: &[u8]| {
        let e = *pos + b.len();
        if v.len() < e {
            v.resize(e, 0);
        }
        v[*pos..e].copy_from_slice(b);
        *pos = e;
    };
    let mut m;
    let mut pos;
    match kind {
        0 => {
            m = Vec::new();
            pos = 0;
            let mut w = if s.chance(1, 2) { VecWriter::new() } else { VecWriter::with_capacity(amount(s, n)) };
            for (k, (a, q)) in steps.iter().enumerate() {
                if let Some(q) = q {
                    w.set_offset(*q);
                    pos = (*q).min(m.len());
                    ensure_eq!(w.get_offset(), pos, "get_offset() in step {} of {:?}", k, steps);
                }
                let c = chunk(k as u64, *a);
                w.write_all(&c).map_err(|e| format!("{:?}", e))?;
                place(&mut m, &mut pos, &c);
                ensure!(w.as_slice() == &m[..], "step {} of {:?}: {}", k, steps, diff(w.as_slice(), &m));
                ensure_eq!(w.get_offset(), pos, "get_offset() in step {} of {:?}", k, steps);
            }
            let v: Vec<u8> = w.into();
            ensure!(v == m, "into(): {}", diff(&v, &m));
        }
        1 => {
            m = pre.clone();
            pos = start;
            let mut v = pre;
            {
                let mut w = BorrowedVecWriter::with_offset(&mut v, start);
                for (k, (a, q)) in steps.iter().enumerate() {
                    if let Some(q) = q {
                        w.set_offset(*q);
                        pos = (*q).min(m.len());
                    }
                    let c = chunk(k as u64, *a);
                    w.write_all(&c).map_err(|e| format!("{:?}", e))?;
                    place(&mut m, &mut pos, &c);
                    ensure_eq!(w.get_offset(), pos, "get_offset() in step {} of {:?}", k, steps);
                }
            }
            ensure!(v == m, "after {:?}: {}", steps, diff(&v, &m));
        }
        _ => {
            m = pre.clone();
            pos = 0;
            let mut v = pre;
            {
                let mut w = ByteArrayWriter::new(&mut v);
                for (k, (a, q)) in steps.iter().enumerate() {
                    if let Some(q) = q {
                        w.set_offset(*q);
                        pos = (*q).min(n);
                    }
                    let c = chunk(k as u64, *a);
                    let r = w.write_all(&c);
                    ensure_eq!(r.is_ok(), *a <= n - pos, "writing {} at {} of {}, {:?}", a, pos, n, r);
                    if r.is_ok() {
                        place(&mut m, &mut pos, &c);
                    }
                    ensure_eq!((w.get_offset(), w.available()), (pos, n - pos), "in step {} of {:?}", k, steps);
                }
            }
            ensure!(v == m, "after {:?}: {}", steps, diff(&v, &m));
        }
    }
    Ok(())
}

fn c19(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = len(s, 10, 20);
    let b = s.bytes(n);
    let budget = amount(s, n).min(n);
    let (rk, seed) = (rk_any(s), s.any());
    // A failed read of another source may take something from it; it never gets there.
    let (r, taken) = read_with(rk, &b, seed, |r| -> std::result::Result<usize, String> {
        let mut l = LimitedReader::new(r, budget);
        let (p, _) = if s.chance(1, 3) {
            let inner = amount(s, budget).min(budget);
            let mut l2 = LimitedReader::new(&mut l, inner);
            let x = reads(s, ctx, &mut l2, &b[..inner], true)?;
            ensure_eq!((l2.available(), l2.empty()), (inner - x.0, inner == x.0), "available(), empty()");
            x
        } else {
            reads(s, ctx, &mut l, &b[..budget], true)?
        };
        ensure_eq!(l.available(), budget - p, "available()");
        if s.chance(1, 2) {
            l.goto_end().map_err(|e| format!("goto_end(): {:?}", e))?;
            ensure_eq!((l.available(), l.empty()), (0, true), "available() at the end");
            return Ok(budget);
        }
        Ok(p)
    });
    let p = r.map_err(|e| format!("{:?} with {} of {}: {}", rk, budget, n, e))?;
    ensure_eq!(taken, p, "bytes taken from {:?} with {} of {}", rk, budget, n);
    Ok(())
}

/// The limit is further than the source.
fn c19_short(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = len(s, 8, 18);
    let b = s.bytes(n);
    let budget = n + 1 + amount(s, n);
    let mut r = ByteArrayReader::new(&b);
    let mut pos = 0;
    let mut log = String::new();
    ctx.nontrivial();
    for _ in 0..2 + s.usize(6) {
        let left = n - pos;
        let k = match s.below(3) {
            0 => left + 1 + s.usize(budget - pos - left),
            _ => amount(s, left),
        };
        let mut l = LimitedReader::new(&mut r, budget - pos);
        let kind = s.below(4);
        let res = match kind {
            0 => l.skip(k),
            1 => l.skip_u64(k as u64),
            _ => l.read_all(&mut vec![0; k]),
        };
        log.push_str(&format!(" {}:{}", kind, k));
        ensure_eq!(res.is_ok(), k <= left, "success with {} bytes left under a limit of {} ({:?}) after{}", left, budget - pos, res, log);
        if k <= left {
            pos += k;
        }
        ensure_eq!(l.available(), budget - pos, "available() with {} bytes left after{}", left, log);
        ensure_eq!(r.offset(), pos, "bytes taken with {} bytes left after{}", left, log);
        ctx.extra += 1;
    }
    ctx.describe(|| format!("{} bytes, a limit of {}:{}", n, budget, log));
    Ok(())
}

fn c20(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = len(s, 10, 20);
    let b = s.bytes(n);
    match s.below(5) {
        0 => {
            let mut c = Chunky::new(&b, s.any());
            let (p, failed) = reads(s, ctx, &mut ReadReader::new(&mut c), &b, false)?;
            if !failed {
                ensure_eq!(c.pos, p, "bytes taken of {}", n);
            }
            ctx.class("ReadReader");
        }
        1 => {
            let mut c = ChunkySeek(Chunky::new(&b, s.any()));
            let (p, failed) = reads(s, ctx, &mut c, &b, false)?;
            if !failed {
                ensure_eq!(c.0.pos, p, "bytes taken of {}", n);
            }
            ctx.class("Read + Seek");
        }
        2 => {
            let mut c = std::io::BufReader::with_capacity(1 + s.usize(20_000), Chunky::new(&b, s.any()));
            reads(s, ctx, &mut ReadReader::new(&mut c), &b, false)?;
            ctx.class("BufReader");
        }
        k => {
            let mut c = ChunkyW::new(s.any());
            let mut m = Vec::new();
            {
                let mut w = WriteWriter::new(&mut c);
                for _ in 0..1 + s.usize(6) {
                    let a = amount(s, n);
                    let x = s.bytes(a);
                    if a == 1 {
                        w.write(x[0]).map_err(|e| format!("{:?}", e))?;
                    } else {
                        w.write_all(&x).map_err(|e| format!("{:?}", e))?;
                    }
                    m.extend_from_slice(&x);
                }
            }
            ctx.nontrivial();
            ctx.describe(|| format!("{} bytes written", m.len()));
            ensure!(c.data == m, "{}", diff(&c.data, &m));
            if k == 4 {
                // As a stream with a position.
                let mut c = std::io::Cursor::new(Vec::new());
                for x in m.chunks(1 + n / 3) {
                    let w: &mut dyn Writer = &mut c;
                    w.write_all(x).map_err(|e| format!("{:?}", e))?;
                }
                ensure!(c.get_ref() == &m, "{}", diff(c.get_ref(), &m));
            }
            ctx.class("WriteWriter");
        }
    }
    Ok(())
}

fn c22(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut reg = Reg::std(s.chance(1, 2));
    let id = explicit_id(s).max(32);
    reg.map.insert(id, Ty::PayA);
    reg.map.insert(s.pick(&[27u64, 28, 29]), Ty::PayB);
    let n = len(s, 12, 22);
    let mut t = T::new(id, V::PayA(data(s, n)));
    for _ in 0..s.usize(4) {
        t = wrap(s, t, 3, &reg);
    }
    let b = enc(&t);
    let x = Large { reg, t, b };
    ctx.describe(|| name(&x.t, &x.b));
    ctx.nontrivial();
    let f = factory(&x.reg);
    let tag = build(&x.t);
    ensure_eq!(tag.size(), x.b.len() as u64, "size() of {}", name(&x.t, &x.b));
    let (rk, wk, seed) = (rk_any(s), wk_any(s), s.any());
    let (r, got) = write_with(wk, x.b.len(), seed, |w| tag.serialize(w));
    r.map_err(|e| format!("{:?}", e))?;
    ensure!(got == x.b, "on {:?}: {} for {}", wk, diff(&got, &x.b), name(&x.t, &x.b));
    let (r, n) = read_with(rk, &x.b, seed, |r| f.deserialize(r));
    let tag = r.map_err(|e| format!("{:?} on {:?} for {}", e, rk, name(&x.t, &x.b)))?;
    ensure_eq!(n, x.b.len(), "bytes taken");
    same_large(tag.as_ref(), &x, "decoded")
}

fn c28(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = len(s, 12, 22);
    let t = text(s, n);
    ctx.describe(|| format!("{} bytes: {}", n, clip(&t, 40)));
    ctx.nontrivial();
    let b = enc(&T::std(V::Str(t.clone())));
    ensure_eq!(string_tag_size_from_value(&t), b.len() as u64, "size of {} bytes", n);
    let (rk, wk, seed) = (rk_any(s), wk_any(s), s.any());
    let (r, got) = write_with(wk, b.len(), seed, |w| serialize_string_tag_from_value(&t, w));
    r.map_err(|e| format!("{:?}", e))?;
    ensure!(got == b, "on {:?}: {}", wk, diff(&got, &b));
    let tag = ILStringTag::with_value(&t);
    let got = tag.to_bytes().map_err(|e| format!("{:?}", e))?;
    ensure!(got == b, "the tag: {}", diff(&got, &b));
    let mut long = b.clone();
    long.extend(data(s, 9));
    let (r, k) = read_with(rk, &long, seed, deserialize_string_tag_from_value_dyn);
    let got = r.map_err(|e| format!("{:?} on {:?} for {} bytes", e, rk, n))?;
    ensure!(got == t && k == b.len(), "on {:?}: {}, {} taken", rk, diff(got.as_bytes(), t.as_bytes()), k);
    let old = match s.below(4) {
        0 => len(s, 12, 18),
        _ => s.usize(100),
    };
    let mut out = text(s, old);
    let (r, k) = read_with(rk, &long, seed, |r| deserialize_string_tag_from_value_into(r, &mut out));
    r.map_err(|e| format!("{:?} on {:?} for {} bytes", e, rk, n))?;
    ensure!(out == t && k == b.len(), "into, on {:?}: {}, {} taken", rk, diff(out.as_bytes(), t.as_bytes()), k);
    // A small one takes the place of the large one.
    let k = s.pick(&[0usize, 0, 1, 2, 50, 247, 248, 600]);
    let small = text(s, k);
    let b2 = enc(&T::std(V::Str(small.clone())));
    let (r, k) = read_with(rk, &b2, seed, |r| deserialize_string_tag_from_value_into(r, &mut out));
    r.map_err(|e| format!("{:?} on {:?} for {} bytes over {}", e, rk, small.len(), n))?;
    ensure!(out == small && k == b2.len(), "over {} bytes on {:?}: {}", n, rk, diff(out.as_bytes(), small.as_bytes()));
    let cut = b.len() - 1 - s.usize(n.min(3000) + 1);
    let (r, _) = read_with(rk, &b[..cut], seed, deserialize_string_tag_from_value_dyn);
    ensure!(r.is_err(), "{} of {} bytes are accepted on {:?}", cut, b.len(), rk);
    Ok(())
}
fn deserialize_string_tag_from_value_dyn(r: &mut dyn Reader) -> Result<String> {
    deserialize_string_tag_from_value(r)
}

/// The number of operations of a long history.
fn many(s: &mut Src) -> u64 {
    match s.weighted(&[6, 1, 1]) {
        0 => (1 << s.range(7, 14)) + s.below(300),
        1 => 65_530 + s.below(10_000),
        _ => 131_000 + s.below(10_000),
    }
}

/// The shape of a long history of small operations.
#[derive(Debug, Clone, Copy)]
struct Plan {
    n: u64,
    z: u64,
    /// The operations: of one kind only, or any.
    only: Option<u64>,
    /// The largest one, in bytes.
    most: u64,
}
fn plan(s: &mut Src, kinds: u64) -> Plan {
    Plan {
        n: many(s),
        z: s.any(),
        only: if s.chance(1, 2) { Some(s.below(kinds)) } else { None },
        most: s.pick(&[2u64, 2, 3, 9, 40]),
    }
}
impl Plan {
    /// The kind and the size of an operation.
    fn step(&self, i: u64, kinds: u64) -> (u64, usize) {
        let m = mix(self.z ^ i);
        (self.only.unwrap_or((m >> 32) % kinds), (m % self.most) as usize)
    }
}

/// A long history of small reads over `all`, up to the first failure if not `atomic`.
/// Returns where it ends.
fn small_reads(p: Plan, r: &mut dyn Reader, all: &[u8], atomic: bool) -> std::result::Result<usize, String> {
    let mut pos = 0;
    let mut b = [0u8; 64];
    for i in 0..p.n {
        let (k, n) = p.step(i, 5);
        let n = if k == 0 { 1 } else { n };
        let res = match k {
            0 => r.read().map(|x| b[0] = x),
            1 => r.skip(n),
            2 => r.skip_u64(n as u64),
            _ => r.read_all(&mut b[..n]),
        };
        let ok = n <= all.len() - pos;
        ensure_eq!(
            res.is_ok(),
            ok,
            "operation {} ({}, {} bytes) at {} of {} of {:?}: {:?}",
            i,
            k,
            n,
            pos,
            all.len(),
            p,
            res
        );
        if ok {
            ensure!(
                k == 1 || k == 2 || b[..n] == all[pos..pos + n],
                "operation {} ({}, {} bytes) at {} of {} of {:?}: wrong data",
                i,
                k,
                n,
                pos,
                all.len(),
                p
            );
            pos += n;
        } else if !atomic {
            return Ok(pos);
        }
    }
    if pos < all.len() {
        let x = r.read().map_err(|e| format!("read() at {} of {} after {:?}: {:?}", pos, all.len(), p, e))?;
        ensure_eq!(x, all[pos], "the byte at {} after {:?}", pos, p);
        pos += 1;
    }
    Ok(pos)
}
/// Data for such a history: enough, or not.
fn small_data(s: &mut Src, p: &Plan) -> Vec<u8> {
    let full = (p.n * p.most) as usize;
    let n = match s.below(4) {
        0 => s.usize(full),
        1 => s.usize(300),
        _ => full,
    };
    s.bytes(n)
}

fn c17_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = plan(s, 5);
    let b = small_data(s, &p);
    ctx.describe(|| format!("{:?} on {} bytes", p, b.len()));
    ctx.nontrivial();
    ctx.extra += p.n;
    macro_rules! go {
        ($r:expr) => {{
            let mut r = $r;
            let q = small_reads(p, &mut r, &b, true)?;
            ensure_eq!((r.offset(), r.available(), r.len()), (q, b.len() - q, b.len()), "after {:?}", p);
            // Back and forth.
            for i in 0..p.n {
                let m = mix(p.z ^ !i);
                let q = (m as usize % (b.len() + 2)).min(b.len());
                r.set_offset(m as usize % (b.len() + 2));
                ensure_eq!(r.offset(), q, "set_offset() number {} after {:?}", i, p);
                if m >> 60 == 0 && q < b.len() {
                    let x = r.read().map_err(|e| format!("{:?}", e))?;
                    ensure_eq!(x, b[q], "the byte at {} in step {} after {:?}", q, i, p);
                }
            }
            r.set_offset(0);
            small_reads(p, &mut r, &b, true)?;
        }};
    }
    if s.chance(1, 2) {
        go!(ByteArrayReader::new(&b));
    } else {
        go!(VecReader::new(&b));
    }
    Ok(())
}

fn c18_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = plan(s, 4);
    let kind = s.below(3);
    let room = match s.below(3) {
        0 => s.usize(40),
        1 => s.usize(100_000),
        _ => (p.n * p.most) as usize,
    };
    ctx.describe(|| format!("kind {}, {:?}, {} bytes", kind, p, room));
    ctx.nontrivial();
    ctx.extra += p.n;
    let pre = if kind == 0 { Vec::new() } else { s.bytes(room) };
    let start = if kind == 1 { s.usize(room + 1) } else { 0 };
    let (mut m, mut pos) = (pre.clone(), start);
    macro_rules! go {
        ($w:expr, $fixed:expr) => {{
            let mut w = $w;
            for i in 0..p.n {
                let (k, n) = p.step(i, 4);
                let x = mix(!p.z ^ i);
                if k == 3 || (x >> 32) % 61 == 0 {
                    let q = x as usize % (m.len() + 2);
                    w.set_offset(q);
                    pos = q.min(m.len());
                    ensure_eq!(w.get_offset(), pos, "set_offset({}) in step {} of {:?}", q, i, p);
                    if k == 3 {
                        continue;
                    }
                }
                let b = [x as u8; 64];
                let n = if k == 0 { 1 } else { n };
                let r = if k == 0 { w.write(b[0]) } else { w.write_all(&b[..n]) };
                let ok = !$fixed || n <= m.len() - pos;
                ensure_eq!(
                    r.is_ok(),
                    ok,
                    "step {} ({}, {} bytes) at {} of {} of {:?}: {:?}",
                    i,
                    k,
                    n,
                    pos,
                    m.len(),
                    p,
                    r
                );
                if ok {
                    if pos + n > m.len() {
                        m.resize(pos + n, 0);
                    }
                    m[pos..pos + n].copy_from_slice(&b[..n]);
                    pos += n;
                }
                ensure_eq!(w.get_offset(), pos, "get_offset() in step {} ({}, {} bytes) of {:?}", i, k, n, p);
            }
            w
        }};
    }
    let got: Vec<u8> = match kind {
        0 => go!(VecWriter::new(), false).into(),
        1 => {
            let mut v = pre;
            drop(go!(BorrowedVecWriter::with_offset(&mut v, start), false));
            v
        }
        _ => {
            let mut v = pre;
            drop(go!(ByteArrayWriter::new(&mut v), true));
            v
        }
    };
    ensure!(got == m, "after {:?}: {}", p, diff(&got, &m));
    Ok(())
}

fn c19_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = plan(s, 5);
    let mut b = small_data(s, &p);
    let budget = b.len();
    b.extend(s.bytes(9));
    let (rk, seed) = (rk_any(s), s.any());
    ctx.describe(|| format!("{:?} on {} bytes on {:?}", p, budget, rk));
    ctx.nontrivial();
    ctx.extra += p.n;
    let (r, taken) = read_with(rk, &b, seed, |r| -> std::result::Result<usize, String> {
        let mut l = LimitedReader::new(r, budget);
        let q = small_reads(p, &mut l, &b[..budget], true)?;
        ensure_eq!((l.available(), l.empty()), (budget - q, budget == q), "available(), empty() after {:?}", p);
        Ok(q)
    });
    let q = r.map_err(|e| format!("{:?} with {} bytes: {}", rk, budget, e))?;
    ensure_eq!(taken, q, "bytes taken from {:?} after {:?}", rk, p);
    // Many limits, one after the other, on one source.
    let (r, taken) = read_with(rk, &b, seed, |r| -> std::result::Result<usize, String> {
        let mut pos = 0;
        for i in 0..p.n {
            let (k, n) = p.step(i, 5);
            let n = n.min(b.len() - pos);
            let mut l = LimitedReader::new(r, n);
            if k == 0 && n > 0 {
                let x = l.read().map_err(|e| format!("{:?}", e))?;
                ensure_eq!(x, b[pos], "the byte at {} under limit {} of {:?}", pos, i, p);
            }
            ensure!(l.skip(n + 1).is_err(), "limit {} ({} bytes) of {:?} does not hold", i, n, p);
            l.goto_end().map_err(|e| format!("{:?}", e))?;
            pos += n;
        }
        Ok(pos)
    });
    let q = r.map_err(|e| format!("{:?} with {} bytes: {}", rk, budget, e))?;
    ensure_eq!(taken, q, "bytes taken from {:?} under the limits of {:?}", rk, p);
    Ok(())
}

fn c20_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = plan(s, 5);
    ctx.describe(|| format!("{:?}", p));
    ctx.nontrivial();
    ctx.extra += p.n;
    match s.below(4) {
        0 => {
            let b = small_data(s, &p);
            let mut c = Chunky::new(&b, s.any());
            small_reads(p, &mut ReadReader::new(&mut c), &b, false)?;
            ctx.class("ReadReader");
        }
        1 => {
            let b = small_data(s, &p);
            let mut c = ChunkySeek(Chunky::new(&b, s.any()));
            small_reads(p, &mut c, &b, false)?;
            ctx.class("Read + Seek");
        }
        2 => {
            // One reader after the other, on one source.
            let b = small_data(s, &p);
            let mut c = Chunky::new(&b, s.any());
            for (i, x) in b.iter().enumerate() {
                let got = ReadReader::new(&mut c).read().map_err(|e| format!("reader {}: {:?}", i, e))?;
                ensure_eq!(got, *x, "the byte of reader {}", i);
            }
            ctx.class("many readers");
        }
        _ => {
            let mut c = ChunkyW::new(s.any());
            let mut m = Vec::new();
            {
                let mut w = WriteWriter::new(&mut c);
                for i in 0..p.n {
                    let (k, n) = p.step(i, 5);
                    let b = [mix(i) as u8; 64];
                    let n = if k == 0 { 1 } else { n };
                    let r = if k == 0 { w.write(b[0]) } else { w.write_all(&b[..n]) };
                    r.map_err(|e| format!("write {} of {:?}: {:?}", i, p, e))?;
                    m.extend_from_slice(&b[..n]);
                }
            }
            ensure!(c.data == m, "after {:?}: {}", p, diff(&c.data, &m));
            ctx.class("WriteWriter");
        }
    }
    Ok(())
}

/// Many tags in one stream.
fn c16_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = many(s);
    let reg = reg_any(s);
    let pool: Vec<Vec<u8>> = (0..1 + s.usize(6)).map(|_| enc(&small_tag(s, &reg))).filter(|x| x.len() < 300).collect();
    if pool.is_empty() {
        return Ok(());
    }
    let z = s.any();
    let mut all = Vec::new();
    for i in 0..n {
        all.extend_from_slice(&pool[mix(z ^ i) as usize % pool.len()]);
    }
    if s.chance(1, 3) {
        let k = s.usize(20).min(all.len() - 1);
        all.truncate(all.len() - k);
    }
    let (rk, seed) = (rk_any(s), s.any());
    ctx.describe(|| format!("{} tags, {} bytes on {:?}", n, all.len(), rk));
    ctx.nontrivial();
    ctx.extra += n;
    let (r, _) = read_with(rk, &all, seed, |r| -> R {
        let mut r = FwdR(r);
        let mut sc = RawTagScanner::new(&mut r);
        let mut p = 0;
        loop {
            let want = if p < all.len() { scan_one(&all[p..], p as u64).ok() } else { None };
            match (sc.next_tag(), want) {
                (Ok(Some(t)), Some(y)) => {
                    ensure_eq!(
                        [t.id(), t.offset(), t.value_offset(), t.value_size(), t.next_tag_offset()],
                        [y.id, y.start, y.value, y.end - y.value, y.end],
                        "the tag at {}",
                        p
                    );
                    p = y.end as usize;
                }
                (Err(_), None) => return Ok(()),
                (a, b) => return Err(format!("at {}: {:?}, expected a tag: {}", p, a.map(|_| ()), b.is_some())),
            }
        }
    });
    r.map_err(|e| format!("{} tags, {} bytes on {:?}: {}", n, all.len(), rk, e))
}

/// A few values of one type, each with the bytes of the tag.
fn versions(s: &mut Src, reg: &Reg, first: &T) -> Vec<(T, Vec<u8>)> {
    (0..1 + s.usize(5))
        .map(|k| {
            let t = match k {
                0 => first.clone(),
                1 => vary(s, first),
                _ => T::new(first.id, Gen::small(reg).value(s, first.ty())),
            };
            let b = enc(&t);
            (t, b)
        })
        .filter(|x| x.1.len() < 600)
        .collect()
}

/// One tag, changed and serialized many times.
fn c06_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let t = small_tag(s, &reg);
    let v = versions(s, &reg, &t);
    if v.is_empty() {
        return Ok(());
    }
    let (n, z, each) = (many(s), s.any(), s.below(4));
    ctx.describe(|| format!("{} changes among {} values of {:?}, {}", n, v.len(), t.ty(), each));
    ctx.nontrivial();
    ctx.extra += n;
    let mut tag = build(&v[0].0);
    let mut now = 0;
    let mut out = Vec::new();
    for i in 0..n {
        let m = mix(z ^ i);
        if v.len() > 1 && m % 4 < each {
            now = (m >> 8) as usize % v.len();
            morph(tag.as_mut(), &v[now].0.v, m % 6);
        }
        let (t, b) = &v[now];
        ensure_eq!(tag.size(), b.len() as u64, "size() of {} in step {} of {}", show(t), i, n);
        out.clear();
        let mut w = BorrowedVecWriter::new(&mut out);
        tag.serialize(&mut w).map_err(|e| format!("serialize() of {} in step {} of {}: {:?}", show(t), i, n, e))?;
        drop(w);
        ensure!(&out == b, "step {} of {}: {} for {}", i, n, diff(&out, b), show(t));
    }
    Ok(())
}

/// Many tags written to one writer, and read with one factory from one reader; some of
/// the tags cannot be read, and the next one follows.
fn c07_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let f = factory(&reg);
    let pool: Vec<(T, Vec<u8>)> = (0..1 + s.usize(6))
        .map(|_| small_tag(s, &reg))
        .map(|t| {
            let b = enc(&t);
            (t, b)
        })
        .filter(|x| x.1.len() < 600)
        .collect();
    if pool.is_empty() {
        return Ok(());
    }
    let (n, z, bad) = (many(s), s.any(), s.below(3));
    let (rk, wk, seed) = (rk_any(s), wk_any(s), s.any());
    ctx.describe(|| format!("{} tags, {:?}, {:?}, bad: {}", n, rk, wk, bad));
    ctx.nontrivial();
    ctx.extra += n;
    let pick = |i: u64| &pool[mix(z ^ i) as usize % pool.len()];
    // A string that is not UTF-8: all of it is taken before it is refused.
    let broken = |i: u64| bad != 0 && (mix(z ^ !i) >> 40) % (if bad == 1 { 2 } else { 50 }) == 0;
    let mut want = Vec::new();
    let tags: Vec<Box<dyn ILTag>> = pool.iter().map(|x| build(&x.0)).collect();
    for i in 0..n {
        want.extend_from_slice(&pick(i).1);
    }
    let (r, got) = write_with(wk, want.len(), seed, |w| -> Result<()> {
        for i in 0..n {
            tags[mix(z ^ i) as usize % pool.len()].serialize(w)?;
        }
        Ok(())
    });
    r.map_err(|e| format!("writing {} tags on {:?}: {:?}", n, wk, e))?;
    ensure!(got == want, "writing {} tags on {:?}: {}", n, wk, diff(&got, &want));
    let mut all = Vec::new();
    for i in 0..n {
        all.extend_from_slice(if broken(i) { &[17, 2, 0xff, 0x41] } else { &pick(i).1[..] });
    }
    let (r, taken) = read_with(rk, &all, seed, |r| -> R {
        for i in 0..n {
            let got = f.deserialize(r);
            if broken(i) {
                ensure!(got.is_err(), "tag {} of {} is no text and is accepted", i, n);
                continue;
            }
            let (t, _) = pick(i);
            let tag = got.map_err(|e| format!("tag {} of {}, {}: {:?}", i, n, show(t), e))?;
            match model(tag.as_ref()) {
                Ok(m) if &m == t => (),
                Ok(m) => return Err(format!("tag {} of {}: {} instead of {}", i, n, show(&m), show(t))),
                Err(e) => return Err(format!("tag {} of {}: {}", i, n, e)),
            }
        }
        Ok(())
    });
    r.map_err(|e| format!("on {:?}: {}", rk, e))?;
    ensure_eq!(taken, all.len(), "bytes taken from {:?} for {} tags", rk, n);
    Ok(())
}

/// One tag, decoded over many times, damaged values now and then.
fn c14_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let f = factory(&reg);
    let t = small_tag(s, &reg);
    let v = versions(s, &reg, &t);
    if v.is_empty() {
        return Ok(());
    }
    let (n, z, bad) = (many(s), s.any(), s.below(2));
    ctx.describe(|| format!("{} times over {:?}, {} values, damage: {}", n, t.ty(), v.len(), bad));
    ctx.nontrivial();
    ctx.extra += n;
    let mut tag = build(&v[0].0);
    for i in 0..n {
        let m = mix(z ^ i);
        let (t, b) = &v[(m >> 8) as usize % v.len()];
        if bad == 1 && m % 3 == 0 {
            let cut = (m >> 20) as usize % b.len();
            let r = f.deserialize_into(&mut ByteArrayReader::new(&b[..cut]), tag.as_mut());
            ensure!(r.is_err(), "{} of {} bytes of {} are accepted in step {}", cut, b.len(), show(t), i);
        }
        f.deserialize_into(&mut ByteArrayReader::new(b), tag.as_mut())
            .map_err(|e| format!("step {} of {}, {}: {:?}", i, n, show(t), e))?;
        match model(tag.as_ref()) {
            Ok(m) if &m == t => (),
            Ok(m) => return Err(format!("step {} of {}: {} instead of {}", i, n, show(&m), show(t))),
            Err(e) => return Err(format!("step {} of {}: {}", i, n, e)),
        }
    }
    Ok(())
}

/// One string, read into many times.
fn c28_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let pool: Vec<(String, Vec<u8>)> = (0..1 + s.usize(6))
        .map(|_| {
            let n = s.usize(30);
            let t = text(s, n);
            let b = enc(&T::std(V::Str(t.clone())));
            (t, b)
        })
        .collect();
    let (n, z) = (many(s), s.any());
    let (rk, seed) = (rk_any(s), s.any());
    ctx.describe(|| format!("{} strings of {} on {:?}", n, pool.len(), rk));
    ctx.nontrivial();
    ctx.extra += n;
    let mut all = Vec::new();
    {
        let mut w = BorrowedVecWriter::new(&mut all);
        for i in 0..n {
            let t = &pool[mix(z ^ i) as usize % pool.len()].0;
            serialize_string_tag_from_value(t, &mut w).map_err(|e| format!("string {} of {}: {:?}", i, n, e))?;
        }
    }
    let mut out = String::new();
    let (r, taken) = read_with(rk, &all, seed, |r| -> R {
        for i in 0..n {
            let t = &pool[mix(z ^ i) as usize % pool.len()].0;
            deserialize_string_tag_from_value_into(r, &mut out).map_err(|e| format!("string {} of {}: {:?}", i, n, e))?;
            ensure!(&out == t, "string {} of {}: {:?} instead of {:?}", i, n, out, t);
        }
        Ok(())
    });
    r.map_err(|e| format!("on {:?}: {}", rk, e))?;
    ensure_eq!(taken, all.len(), "bytes taken from {:?}", rk);
    Ok(())
}
