//! C01, C02 and C03: ILInts.
use super::*;
use crate::rio::*;
use il2_iltags::ilint;
use il2_iltags::io::array::*;
use il2_iltags::io::data as d;
use il2_iltags::io::data::{ILIntReader, ILIntWriter, SignedILIntReader, SignedILIntWriter};
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::*;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "Values are enumerated from 0, around every change of size and every power of two, and drawn at random; each is encoded by the library and compared with an independent encoder, decoded, and compared with its neighbours. Non-trivial: the value takes more than one byte.",
            assumptions: &[],
            suites: vec![
                sweep("small values", 140_000, 4_000_000, c01_small),
                sweep("around size changes", 9 * 8192, 9 * 8192, c01_windows),
                sweep("around powers of two", 64 * 129, 64 * 129, c01_powers),
                random("random values", 400_000, 200_000_000, c01_random),
                random("every writing route", 20_000, 4_000_000, c01_routes),
            ],
        },
        Property {
            id: "C02",
            rule: "Byte strings are enumerated (every first and second byte, every final pair of bytes around the largest value, every short string) and drawn at random; every decoder is compared with an independent one on each. Non-trivial: the first byte announces a body.",
            assumptions: &[],
            suites: vec![
                sweep("first two bytes", 65_536, 65_536, c02_two),
                sweep("around the largest value", 65_536, 65_536, c02_top),
                random("random strings", 150_000, 60_000_000, c02_random),
                random("bodies", 100_000, 20_000_000, c02_body),
                random("longer than necessary", 60_000, 20_000_000, c02_long),
            ],
        },
        Property {
            id: "C03",
            rule: "Signed values are enumerated around zero, the extremes and every change of size, and drawn at random; unsigned values are taken to signed and back. Non-trivial: the value is negative or takes more than one byte.",
            assumptions: &[],
            suites: vec![
                sweep("around zero", 140_000, 4_000_000, c03_small),
                sweep("around size changes and extremes", 10 * 4096, 10 * 4096, c03_windows),
                random("random values", 400_000, 200_000_000, c03_random),
                random("every route", 20_000, 4_000_000, c03_routes),
            ],
        },
    ]
}

fn enc_vec(v: u64) -> std::result::Result<Vec<u8>, String> {
    let mut w = VecWriter::new();
    ilint::encode(v, &mut w).map_err(|e| format!("encode({}) failed: {:?}", v, e))?;
    Ok(w.into())
}

fn c01_value(v: u64, ctx: &mut Ctx) -> R {
    ctx.key = Some(v);
    if v >= 248 {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{} = {:#x}", v, v));
    let want = ref_ilint(v);
    ensure_eq!(ilint::encoded_size(v), want.len(), "encoded_size({})", v);
    let b = enc_vec(v)?;
    ensure_eq!(b, want, "encode({})", v);
    ensure_eq!(ilint::decoded_size(b[0]), b.len(), "decoded_size() of the first byte of {}", v);
    match ilint::decode_from_bytes(&b) {
        Ok(x) => ensure_eq!(x, (v, b.len()), "decode_from_bytes() of {}", v),
        Err(e) => return Err(format!("decode_from_bytes() of {} failed: {:?}", v, e)),
    }
    let mut r = ByteArrayReader::new(&b);
    match ilint::decode(&mut r) {
        Ok(x) => ensure_eq!(x, v, "decode() of {}", v),
        Err(e) => return Err(format!("decode() of {} failed: {:?}", v, e)),
    }
    ensure_eq!(r.offset(), b.len(), "bytes consumed decoding {}", v);
    if v < u64::MAX {
        let n = enc_vec(v + 1)?;
        ensure!(n > b, "the encoding of {} is not after the one of {}", v + 1, v);
        ensure!(n.len() >= b.len(), "the encoding of {} is shorter than the one of {}", v + 1, v);
    }
    Ok(())
}

fn c01_small(s: &mut Src, ctx: &mut Ctx) -> R {
    let v = s.index(4_000_000);
    c01_value(v, ctx)
}
fn window(i: u64, size: u64) -> u64 {
    let (k, o) = (i / size, i % size);
    let base = match k {
        0 => 248u64,
        8 => u64::MAX - size / 2,
        k => 248u64.wrapping_add(1u64.checked_shl(8 * k as u32).unwrap_or(0)),
    };
    base.wrapping_add(o).wrapping_sub(size / 2)
}
fn c01_windows(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(9 * 8192);
    c01_value(window(i, 8192), ctx)
}
fn c01_powers(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(64 * 129);
    let v = (1u64 << (i / 129)).wrapping_add(i % 129).wrapping_sub(64);
    c01_value(v, ctx)
}
fn c01_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let (a, b) = if s.chance(1, 2) {
        (u64_any(s), u64_any(s))
    } else {
        let sh = s.below(64);
        let a = s.any() >> sh;
        (a, a.wrapping_add(1 << s.below(64)))
    };
    c01_value(a, ctx)?;
    let k = a;
    c01_value(b, ctx)?;
    ctx.key = Some(mix(k) ^ b);
    let (x, y) = (enc_vec(a)?, enc_vec(b)?);
    ensure_eq!(x.cmp(&y), a.cmp(&b), "order of the encodings of {} and {}", a, b);
    Ok(())
}

fn ilint_write_routes(w: &mut dyn Writer, v: u64, route: u64) -> std::result::Result<(), String> {
    let e = |x: &dyn std::fmt::Debug| format!("route {} failed for {}: {:?}", route, v, x);
    match route {
        0 => ilint::encode(v, w).map_err(|x| e(&x)),
        1 => d::write_ilint(v, w).map_err(|x| e(&x)),
        2 => ILIntWriter::write_ilint(w, v).map_err(|x| e(&x)),
        3 => ILIntWriter::write_ilint(&mut FwdW(w), v).map_err(|x| e(&x)),
        4 => ILIntSerializer::serialize_ilint(w, v).map_err(|x| e(&x)),
        5 => ILIntSerializer::serialize_ilint(&mut FwdW(w), v).map_err(|x| e(&x)),
        6 => {
            let mut f = FwdW(w);
            let g: &mut dyn ILIntWriter = &mut f;
            ILIntSerializer::serialize_ilint(g, v).map_err(|x| e(&x))
        }
        7 => il2_iltags::tags::serialize_ilint(v, w).map_err(|x| e(&x)),
        _ => ILILInt64Tag::with_value(v).serialize_value(w).map_err(|x| e(&x)),
    }
}
fn ilint_read_routes(r: &mut dyn Reader, route: u64) -> std::result::Result<u64, String> {
    let e = |x: &dyn std::fmt::Debug| format!("{:?}", x);
    match route {
        0 => ilint::decode(r).map_err(|x| e(&x)),
        1 => d::read_ilint(r).map_err(|x| e(&x)),
        2 => ILIntReader::read_ilint(r).map_err(|x| e(&x)),
        3 => ILIntReader::read_ilint(&mut FwdR(r)).map_err(|x| e(&x)),
        4 => ILIntDeserializer::deserialize_ilint(r).map_err(|x| e(&x)),
        5 => ILIntDeserializer::deserialize_ilint(&mut FwdR(r)).map_err(|x| e(&x)),
        6 => {
            let mut f = FwdR(r);
            let g: &mut dyn ILIntReader = &mut f;
            ILIntDeserializer::deserialize_ilint(g).map_err(|x| e(&x))
        }
        7 => il2_iltags::tags::deserialize_ilint(r).map_err(|x| e(&x)),
        _ => {
            let f = ILStandardTagFactory::new(true);
            let mut t = ILILInt64Tag::new();
            t.deserialize_value(&f, 9, r).map_err(|x| e(&x))?;
            Ok(t.value())
        }
    }
}

fn c01_routes(s: &mut Src, ctx: &mut Ctx) -> R {
    let v = u64_any(s);
    let seed = s.any();
    ctx.key = Some(v);
    if v >= 248 {
        ctx.nontrivial();
    }
    let want = ref_ilint(v);
    for route in 0..9 {
        for wk in WKS {
            let (r, b) = write_with(wk, want.len(), seed, |w| ilint_write_routes(w, v, route));
            r?;
            ensure_eq!(b, want, "{} through route {} on {:?}", v, route, wk);
            ctx.extra += 1;
        }
        for rk in RKS {
            let mut b = want.clone();
            b.extend_from_slice(&[0xEE; 3]);
            let (r, n) = read_with(rk, &b, seed, |r| ilint_read_routes(r, route));
            ensure_eq!(r, Ok(v), "reading through route {} on {:?}", route, rk);
            ensure_eq!(n, want.len(), "bytes consumed through route {} on {:?}", route, rk);
            ctx.extra += 1;
        }
    }
    Ok(())
}

fn c02_check(b: &[u8], seed: u64, ctx: &mut Ctx) -> R {
    ctx.key = Some(hash_bytes(b));
    if !b.is_empty() && b[0] >= 248 {
        ctx.nontrivial();
    }
    ctx.describe(|| hex(b));
    let want = ref_ilint_dec(b).ok();
    ctx.class(match (want, b.first()) {
        (Some((_, 1)), _) => "single byte",
        (Some((v, n)), _) if n > ref_ilint_size(v) => "longer than necessary",
        (Some(_), _) => "minimal with body",
        (None, Some(h)) if b.len() > (*h as usize) - 247 => "overflow",
        _ => "bytes missing",
    });
    ensure_eq!(ilint::decode_from_bytes(b).ok(), want, "decode_from_bytes({})", hex(b));
    let announced = match b.first() {
        None => 0,
        Some(h) if *h < 248 => 1,
        Some(h) => *h as usize - 246,
    };
    if let Some(h) = b.first() {
        ensure_eq!(ilint::decoded_size(*h), announced, "decoded_size({})", h);
        if announced > 1 && b.len() >= announced {
            ensure_eq!(
                ilint::decode_body(&b[1..announced]).ok(),
                want.map(|x| x.0),
                "decode_body() of {}",
                hex(b)
            );
        }
    }
    let route = seed % 9;
    for rk in [RK::Slice, RKS[(seed >> 8) as usize % RKS.len()]] {
        for route in [0, route] {
            let (r, n) = read_with(rk, b, seed, |r| ilint_read_routes(r, route));
            ensure_eq!(r.ok(), want.map(|x| x.0), "decoding {} through route {} on {:?}", hex(b), route, rk);
            match want {
                Some((_, k)) => ensure_eq!(n, k, "bytes consumed from {} through route {} on {:?}", hex(b), route, rk),
                None => ensure!(n <= announced, "{} bytes consumed from {} on {:?}", n, hex(b), rk),
            }
            ctx.extra += 1;
        }
    }
    let mut r = ByteArrayReader::new(b);
    ensure_eq!(
        ilint::signed_decode(&mut r).ok(),
        want.map(|x| ref_unzigzag(x.0)),
        "signed_decode({})",
        hex(b)
    );
    // Inside a tag.
    let f = ILStandardTagFactory::new(seed & 1 == 0);
    let mut t = vec![10];
    t.extend_from_slice(b);
    let mut r = ByteArrayReader::new(&t);
    let x = f.deserialize(&mut r).ok();
    ensure_eq!(
        x.map(|x| model(x.as_ref())),
        want.map(|x| Ok(T::std(V::ILInt(x.0)))),
        "ILInt tag over {}",
        hex(b)
    );
    Ok(())
}

fn c02_two(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(65_536);
    let mut b = vec![(i >> 8) as u8, i as u8];
    let n = s.usize(11);
    match s.below(3) {
        0 => b.extend(s.bytes(n)),
        1 => b.extend(vec![0xFF; n]),
        _ => b.extend(vec![0; n]),
    }
    c02_check(&b[..s.usize(b.len() + 1).max(1)], s.any(), ctx)?;
    c02_check(&b, s.any(), ctx)
}
fn c02_top(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(65_536);
    let mut b = vec![0xFF; 7];
    b.push((i >> 8) as u8);
    b.push(i as u8);
    let extra = s.usize(3);
    b.extend(s.bytes(extra));
    c02_check(&b, s.any(), ctx)
}
fn c02_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(14);
    let mut b = s.bytes(n);
    if n > 0 && s.chance(2, 3) {
        b[0] = 248 + s.below(8) as u8;
    }
    if n > 1 && s.chance(1, 4) {
        let k = s.usize(n - 1);
        let fill = if s.chance(1, 2) { 0xFF } else { 0 };
        for x in &mut b[1..1 + k] {
            *x = fill;
        }
    }
    c02_check(&b, s.any(), ctx)
}
fn c02_body(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = if s.chance(1, 8) {
        s.pick(&[256usize, 264, 65536, 65544, 17, 9, 16])
    } else {
        s.usize(20)
    };
    let mut b = s.bytes(n);
    if n > 0 && s.chance(1, 3) {
        for x in &mut b[..n - 1] {
            *x = 0xFF;
        }
        b[n - 1] = s.pick(&[0x07u8, 0x08, 0x06, 0xFF, 0x00]);
    }
    if (1..=8).contains(&n) {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let want = if n == 0 || n > 8 {
        None
    } else {
        let mut v = 248u128;
        let mut x = 0u128;
        for c in &b {
            x = x * 256 + *c as u128;
        }
        v += x;
        if v > u64::MAX as u128 {
            None
        } else {
            Some(v as u64)
        }
    };
    ensure_eq!(ilint::decode_body(&b).ok(), want, "decode_body({})", hex(&b));
    Ok(())
}
fn c02_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let v = u64_any(s);
    let mut b = ref_ilint_form(v, 1 + s.usize(9));
    let extra = s.usize(4);
    b.extend(s.bytes(extra));
    c02_check(&b, s.any(), ctx)
}

fn c03_value(n: i64, ctx: &mut Ctx) -> R {
    ctx.key = Some(n as u64);
    let z = ref_zigzag(n);
    if n < 0 || z >= 248 {
        ctx.nontrivial();
    }
    ctx.class(if n < 0 { "negative" } else { "not negative" });
    ctx.describe(|| n.to_string());
    ensure_eq!(ilint::encode_sign(n), z, "encode_sign({})", n);
    ensure_eq!(ilint::decode_sign(z), n, "decode_sign({})", z);
    // And from the unsigned side: the bits of n as an unsigned value.
    let u = n as u64;
    ensure_eq!(ilint::decode_sign(u), ref_unzigzag(u), "decode_sign({})", u);
    ensure_eq!(ilint::encode_sign(ilint::decode_sign(u)), u, "decode_sign() and encode_sign() of {}", u);
    let want = ref_ilint(z);
    ensure_eq!(ilint::signed_encoded_size(n), want.len(), "signed_encoded_size({})", n);
    let mut w = VecWriter::new();
    ilint::signed_encode(n, &mut w).map_err(|e| format!("signed_encode({}) failed: {:?}", n, e))?;
    let b: Vec<u8> = w.into();
    ensure_eq!(b, want, "signed_encode({})", n);
    let mut r = ByteArrayReader::new(&b);
    ensure_eq!(ilint::signed_decode(&mut r).ok(), Some(n), "signed_decode() of {}", n);
    ensure_eq!(r.offset(), b.len(), "bytes consumed by signed_decode() of {}", n);
    Ok(())
}
fn c03_small(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(4_000_000);
    c03_value(ref_unzigzag(i), ctx)
}
fn c03_windows(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(10 * 4096);
    if i < 9 * 4096 {
        c03_value(ref_unzigzag(window(i, 4096)), ctx)
    } else {
        let o = i - 9 * 4096;
        c03_value(
            if o % 2 == 0 {
                i64::MIN + (o / 2) as i64
            } else {
                i64::MAX - (o / 2) as i64
            },
            ctx,
        )
    }
}
fn c03_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = i64_any(s);
    c03_value(n, ctx)
}
fn c03_routes(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = i64_any(s);
    let seed = s.any();
    let z = ref_zigzag(n);
    ctx.key = Some(n as u64);
    if n < 0 || z >= 248 {
        ctx.nontrivial();
    }
    ctx.describe(|| n.to_string());
    let want = ref_ilint(z);
    for route in 0..9u64 {
        for wk in WKS {
            let (r, b) = write_with(wk, want.len(), seed, |w| -> R {
                let e = |x: &dyn std::fmt::Debug| format!("{:?}", x);
                match route {
                    0 => ilint::signed_encode(n, w).map_err(|x| e(&x)),
                    1 => d::write_signed_ilint(n, w).map_err(|x| e(&x)),
                    2 => SignedILIntWriter::write_signed_ilint(w, n).map_err(|x| e(&x)),
                    3 => SignedILIntWriter::write_signed_ilint(&mut FwdW(w), n).map_err(|x| e(&x)),
                    4 => SignedILIntSerializer::serialize_signed_ilint(w, n).map_err(|x| e(&x)),
                    5 => SignedILIntSerializer::serialize_signed_ilint(&mut FwdW(w), n)
                        .map_err(|x| e(&x)),
                    6 => {
                        let mut f = FwdW(w);
                        let g: &mut dyn SignedILIntWriter = &mut f;
                        SignedILIntSerializer::serialize_signed_ilint(g, n).map_err(|x| e(&x))
                    }
                    7 => ilint::encode(ilint::encode_sign(n), w).map_err(|x| e(&x)),
                    _ => ILSignedILInt64Tag::with_value(n).serialize_value(w).map_err(|x| e(&x)),
                }
            });
            ensure_eq!(r, Ok(()), "writing {} through route {} on {:?}", n, route, wk);
            ensure_eq!(b, want, "{} through route {} on {:?}", n, route, wk);
            ctx.extra += 1;
        }
        for rk in RKS {
            let mut b = want.clone();
            b.extend_from_slice(&[0xEE; 3]);
            let (r, k) = read_with(rk, &b, seed, |r| -> std::result::Result<i64, String> {
                let e = |x: &dyn std::fmt::Debug| format!("{:?}", x);
                match route {
                    0 => ilint::signed_decode(r).map_err(|x| e(&x)),
                    1 => d::read_signed_ilint(r).map_err(|x| e(&x)),
                    2 => SignedILIntReader::read_signed_ilint(r).map_err(|x| e(&x)),
                    3 => SignedILIntReader::read_signed_ilint(&mut FwdR(r)).map_err(|x| e(&x)),
                    4 => SignedILIntDeserializer::deserialize_signed_ilint(r).map_err(|x| e(&x)),
                    5 => SignedILIntDeserializer::deserialize_signed_ilint(&mut FwdR(r))
                        .map_err(|x| e(&x)),
                    6 => {
                        let mut f = FwdR(r);
                        let g: &mut dyn SignedILIntReader = &mut f;
                        SignedILIntDeserializer::deserialize_signed_ilint(g).map_err(|x| e(&x))
                    }
                    7 => ilint::decode(r).map(ilint::decode_sign).map_err(|x| e(&x)),
                    _ => {
                        let f = ILStandardTagFactory::new(true);
                        let mut t = ILSignedILInt64Tag::new();
                        t.deserialize_value(&f, 9, r).map_err(|x| e(&x))?;
                        Ok(t.value())
                    }
                }
            });
            ensure_eq!(r, Ok(n), "reading through route {} on {:?}", route, rk);
            ensure_eq!(k, want.len(), "bytes consumed through route {} on {:?}", route, rk);
            ctx.extra += 1;
        }
    }
    // The tag, alone.
    let t = ILSignedILInt64Tag::with_value(n);
    ensure_eq!(t.value_size(), want.len() as u64, "value_size() of the tag of {}", n);
    let mut whole = vec![14];
    whole.extend_from_slice(&want);
    ensure_eq!(t.to_bytes().ok(), Some(whole.clone()), "tag of {}", n);
    let back = ILStandardTagFactory::new(true).from_bytes(&whole).map_err(|e| format!("{:?}", e))?;
    same(back.as_ref(), &T::std(V::SILInt(n)), "decoded tag")
}
