//! C04: primitive values.
use super::*;
use crate::rio::*;
use il2_iltags::io::data as d;
use il2_iltags::io::data::*;
use il2_iltags::tags::serialization::*;

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C04",
        rule: "Sequences of 1 to 8 mixed values (integers, float bit patterns, ILInts, signed ILInts, strings, byte arrays), each written through one route chosen at random and read through another, on every kind of writer and reader; also cut at a random byte, and strings over arbitrary bytes. Non-trivial: the sequence has at least one value that is neither zero nor empty.",
        assumptions: &[],
        suites: vec![
            random("sequences", 120_000, 60_000_000, c04_seq),
            sweep("every value of 8 and 16 bits", 65_536, 65_536, c04_small),
            random("strings over arbitrary bytes", 100_000, 20_000_000, c04_utf8),
            random("every route for one value", 20_000, 4_000_000, c04_routes),
        ],
    }]
}

#[derive(Debug, Clone, PartialEq)]
enum P {
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F32(u32),
    F64(u64),
    IL(u64),
    SIL(i64),
    Str(String),
    Bytes(Vec<u8>),
}

fn wire(p: &P, out: &mut Vec<u8>) {
    let mut be = |v: u64, n: usize| {
        for i in (0..n).rev() {
            out.push((v >> (8 * i)) as u8);
        }
    };
    match p {
        P::U8(x) => be(*x as u64, 1),
        P::I8(x) => be(*x as u8 as u64, 1),
        P::U16(x) => be(*x as u64, 2),
        P::I16(x) => be(*x as u16 as u64, 2),
        P::U32(x) | P::F32(x) => be(*x as u64, 4),
        P::I32(x) => be(*x as u32 as u64, 4),
        P::U64(x) | P::F64(x) => be(*x, 8),
        P::I64(x) => be(*x as u64, 8),
        P::IL(x) => out.extend(ref_ilint(*x)),
        P::SIL(x) => out.extend(ref_ilint(ref_zigzag(*x))),
        P::Str(x) => out.extend(x.as_bytes()),
        P::Bytes(x) => out.extend(x),
    }
}

fn dbg<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}

macro_rules! wr {
    ($w:expr, $v:expr, $t:ty, $f:path, $route:expr) => {{
        let w: &mut dyn Writer = $w;
        match $route % 6 {
            0 => $f($v, w).map_err(dbg),
            1 => <dyn Writer as ValueWriter<$t>>::write_value(w, $v).map_err(dbg),
            2 => <FwdW as ValueWriter<$t>>::write_value(&mut FwdW(w), $v).map_err(dbg),
            3 => <dyn Writer as ValueSerializer<$t>>::serialize_value(w, $v).map_err(dbg),
            4 => <FwdW as ValueSerializer<$t>>::serialize_value(&mut FwdW(w), $v).map_err(dbg),
            _ => {
                let mut f = FwdW(w);
                let g: &mut dyn ValueWriter<$t> = &mut f;
                <dyn ValueWriter<$t> as ValueSerializer<$t>>::serialize_value(g, $v).map_err(dbg)
            }
        }
    }};
}
macro_rules! rd {
    ($r:expr, $t:ty, $f:path, $route:expr) => {{
        let r: &mut dyn Reader = $r;
        match $route % 6 {
            0 => $f(r).map_err(dbg),
            1 => <dyn Reader as ValueReader<$t>>::read_value(r).map_err(dbg),
            2 => <FwdR as ValueReader<$t>>::read_value(&mut FwdR(r)).map_err(dbg),
            3 => <dyn Reader as ValueDeserializer<$t>>::deserialize_value(r).map_err(dbg),
            4 => <FwdR as ValueDeserializer<$t>>::deserialize_value(&mut FwdR(r)).map_err(dbg),
            _ => {
                let mut f = FwdR(r);
                let g: &mut dyn ValueReader<$t> = &mut f;
                <dyn ValueReader<$t> as ValueDeserializer<$t>>::deserialize_value(g).map_err(dbg)
            }
        }
    }};
}

fn write(w: &mut dyn Writer, p: &P, route: u64) -> R {
    match p {
        P::U8(x) => wr!(w, *x, u8, d::write_u8, route),
        P::I8(x) => wr!(w, *x, i8, d::write_i8, route),
        P::U16(x) => wr!(w, *x, u16, d::write_u16, route),
        P::I16(x) => wr!(w, *x, i16, d::write_i16, route),
        P::U32(x) => wr!(w, *x, u32, d::write_u32, route),
        P::I32(x) => wr!(w, *x, i32, d::write_i32, route),
        P::U64(x) => wr!(w, *x, u64, d::write_u64, route),
        P::I64(x) => wr!(w, *x, i64, d::write_i64, route),
        P::F32(x) => wr!(w, f32::from_bits(*x), f32, d::write_f32, route),
        P::F64(x) => wr!(w, f64::from_bits(*x), f64, d::write_f64, route),
        P::IL(x) => match route % 7 {
            0 => d::write_ilint(*x, w).map_err(dbg),
            1 => ILIntWriter::write_ilint(w, *x).map_err(dbg),
            2 => ILIntWriter::write_ilint(&mut FwdW(w), *x).map_err(dbg),
            3 => ILIntSerializer::serialize_ilint(w, *x).map_err(dbg),
            4 => ILIntSerializer::serialize_ilint(&mut FwdW(w), *x).map_err(dbg),
            5 => il2_iltags::tags::serialization::serialize_ilint(*x, w).map_err(dbg),
            _ => {
                let mut f = FwdW(w);
                let g: &mut dyn ILIntWriter = &mut f;
                ILIntSerializer::serialize_ilint(g, *x).map_err(dbg)
            }
        },
        P::SIL(x) => match route % 6 {
            0 => d::write_signed_ilint(*x, w).map_err(dbg),
            1 => SignedILIntWriter::write_signed_ilint(w, *x).map_err(dbg),
            2 => SignedILIntWriter::write_signed_ilint(&mut FwdW(w), *x).map_err(dbg),
            3 => SignedILIntSerializer::serialize_signed_ilint(w, *x).map_err(dbg),
            4 => SignedILIntSerializer::serialize_signed_ilint(&mut FwdW(w), *x).map_err(dbg),
            _ => {
                let mut f = FwdW(w);
                let g: &mut dyn SignedILIntWriter = &mut f;
                SignedILIntSerializer::serialize_signed_ilint(g, *x).map_err(dbg)
            }
        },
        P::Str(x) => {
            let x = x.as_str();
            match route % 5 {
                0 => d::write_string(x, w).map_err(dbg),
                1 => <dyn Writer as ValueWriter<&str>>::write_value(w, x).map_err(dbg),
                2 => <FwdW as ValueWriter<&str>>::write_value(&mut FwdW(w), x).map_err(dbg),
                3 => <dyn Writer as ValueSerializer<&str>>::serialize_value(w, x).map_err(dbg),
                _ => <FwdW as ValueSerializer<&str>>::serialize_value(&mut FwdW(w), x).map_err(dbg),
            }
        }
        P::Bytes(x) => match route % 5 {
            0 => ByteArraySerializer::serialize_bytes(w, x).map_err(dbg),
            1 => ByteArraySerializer::serialize_bytes(&mut FwdW(w), x).map_err(dbg),
            2 => il2_iltags::tags::serialization::serialize_bytes(x, w).map_err(dbg),
            #[allow(deprecated)]
            3 => ByteArraySerializer::serialize_byte_vec(w, x).map_err(dbg),
            #[allow(deprecated)]
            _ => ByteArraySerializer::serialize_byte_vec(&mut FwdW(w), x).map_err(dbg),
        },
    }
}

/// Reads a value of the kind and length of `p`.
fn read(r: &mut dyn Reader, p: &P, route: u64) -> std::result::Result<P, String> {
    Ok(match p {
        P::U8(_) => P::U8(rd!(r, u8, d::read_u8, route)?),
        P::I8(_) => P::I8(rd!(r, i8, d::read_i8, route)?),
        P::U16(_) => P::U16(rd!(r, u16, d::read_u16, route)?),
        P::I16(_) => P::I16(rd!(r, i16, d::read_i16, route)?),
        P::U32(_) => P::U32(rd!(r, u32, d::read_u32, route)?),
        P::I32(_) => P::I32(rd!(r, i32, d::read_i32, route)?),
        P::U64(_) => P::U64(rd!(r, u64, d::read_u64, route)?),
        P::I64(_) => P::I64(rd!(r, i64, d::read_i64, route)?),
        P::F32(_) => P::F32(rd!(r, f32, d::read_f32, route)?.to_bits()),
        P::F64(_) => P::F64(rd!(r, f64, d::read_f64, route)?.to_bits()),
        P::IL(_) => P::IL(match route % 7 {
            0 => d::read_ilint(r).map_err(dbg),
            1 => ILIntReader::read_ilint(r).map_err(dbg),
            2 => ILIntReader::read_ilint(&mut FwdR(r)).map_err(dbg),
            3 => ILIntDeserializer::deserialize_ilint(r).map_err(dbg),
            4 => ILIntDeserializer::deserialize_ilint(&mut FwdR(r)).map_err(dbg),
            5 => il2_iltags::tags::serialization::deserialize_ilint(r).map_err(dbg),
            _ => {
                let mut f = FwdR(r);
                let g: &mut dyn ILIntReader = &mut f;
                ILIntDeserializer::deserialize_ilint(g).map_err(dbg)
            }
        }?),
        P::SIL(_) => P::SIL(match route % 6 {
            0 => d::read_signed_ilint(r).map_err(dbg),
            1 => SignedILIntReader::read_signed_ilint(r).map_err(dbg),
            2 => SignedILIntReader::read_signed_ilint(&mut FwdR(r)).map_err(dbg),
            3 => SignedILIntDeserializer::deserialize_signed_ilint(r).map_err(dbg),
            4 => SignedILIntDeserializer::deserialize_signed_ilint(&mut FwdR(r)).map_err(dbg),
            _ => {
                let mut f = FwdR(r);
                let g: &mut dyn SignedILIntReader = &mut f;
                SignedILIntDeserializer::deserialize_signed_ilint(g).map_err(dbg)
            }
        }?),
        P::Str(x) => P::Str(read_str(r, x.len(), route)?),
        P::Bytes(x) => {
            let n = x.len();
            P::Bytes(match route % 8 {
                0 => ByteArrayDeserializer::deserialize_bytes(r, n).map_err(dbg)?,
                1 => ByteArrayDeserializer::deserialize_bytes(&mut FwdR(r), n).map_err(dbg)?,
                2 => il2_iltags::tags::serialization::deserialize_bytes(n, r).map_err(dbg)?,
                3 | 4 => {
                    // The vector had something else before.
                    let mut v = vec![0xC3; (route / 8 % 40) as usize];
                    if route % 8 == 3 {
                        ByteArrayDeserializer::deserialize_bytes_into_vec(r, n, &mut v).map_err(dbg)?;
                    } else {
                        ByteArrayDeserializer::deserialize_bytes_into_vec(&mut FwdR(r), n, &mut v)
                            .map_err(dbg)?;
                    }
                    v
                }
                5 => {
                    let mut v = vec![0xC3; (route / 8 % 40) as usize];
                    il2_iltags::tags::serialization::deserialize_bytes_into_vec(n, r, &mut v)
                        .map_err(dbg)?;
                    v
                }
                6 => {
                    let mut v = vec![0xC3; n];
                    ByteArrayDeserializer::deserialize_bytes_into_slice(r, &mut v).map_err(dbg)?;
                    v
                }
                _ => {
                    let mut v = vec![0xC3; n];
                    ByteArrayDeserializer::deserialize_bytes_into_slice(&mut FwdR(r), &mut v)
                        .map_err(dbg)?;
                    v
                }
            })
        }
    })
}

fn read_str(r: &mut dyn Reader, n: usize, route: u64) -> std::result::Result<String, String> {
    match route % 6 {
        0 => d::read_string(r, n).map_err(dbg),
        1 => StringValueReader::read_string(r, n).map_err(dbg),
        2 => StringValueReader::read_string(&mut FwdR(r), n).map_err(dbg),
        3 => StringDeserializer::deserialize_string(r, n).map_err(dbg),
        4 => StringDeserializer::deserialize_string(&mut FwdR(r), n).map_err(dbg),
        _ => {
            let mut f = FwdR(r);
            let g: &mut dyn StringValueReader = &mut f;
            StringDeserializer::deserialize_string(g, n).map_err(dbg)
        }
    }
}

fn gen(s: &mut Src) -> P {
    match s.below(14) {
        0 => P::U8(s.below(256) as u8),
        1 => P::I8(s.below(256) as i8),
        2 => P::U16(u64_any(s) as u16),
        3 => P::I16(i64_any(s) as i16),
        4 => P::U32(u64_any(s) as u32),
        5 => P::I32(i64_any(s) as i32),
        6 => P::U64(u64_any(s)),
        7 => P::I64(i64_any(s)),
        8 => P::F32(f32_bits(s)),
        9 => P::F64(f64_bits(s)),
        10 => P::IL(u64_any(s)),
        11 => P::SIL(i64_any(s)),
        12 => P::Str(string_any(s, 3000)),
        _ => {
            let n = len_any(s, 3000);
            P::Bytes(s.bytes(n))
        }
    }
}

fn interesting(p: &P) -> bool {
    let mut w = Vec::new();
    wire(p, &mut w);
    w.iter().any(|x| *x != 0)
}

fn c04_seq(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 1 + s.usize(8);
    let vals: Vec<P> = (0..n).map(|_| gen(s)).collect();
    if vals.iter().any(interesting) {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{:?}", vals));
    let mut want = Vec::new();
    let mut ends = Vec::new();
    for p in &vals {
        wire(p, &mut want);
        ends.push(want.len());
    }
    let (wk, rk, seed) = (wk_any(s), rk_any(s), s.any());
    let wroutes: Vec<u64> = (0..n).map(|_| s.below(840)).collect();
    let rroutes: Vec<u64> = (0..n).map(|_| s.below(840)).collect();
    let (r, b) = write_with(wk, want.len(), seed, |w| -> R {
        for (p, k) in vals.iter().zip(&wroutes) {
            write(w, p, *k)?;
        }
        Ok(())
    });
    r.map_err(|e| format!("writing on {:?} failed: {}", wk, e))?;
    ensure_eq!(b, want, "bytes written on {:?}", wk);
    let mut long = b.clone();
    long.extend_from_slice(&[0x77; 9]);
    let (r, used) = read_with(rk, &long, seed, |r| -> R {
        for (p, k) in vals.iter().zip(&rroutes) {
            ensure_eq!(read(r, p, *k), Ok(p.clone()), "reading on {:?}", rk);
        }
        Ok(())
    });
    r?;
    ensure_eq!(used, want.len(), "bytes consumed on {:?}", rk);
    // Cut.
    if !want.is_empty() {
        let cut = s.usize(want.len());
        let (r, _) = read_with(rk, &want[..cut], seed, |r| -> R {
            for (i, (p, k)) in vals.iter().zip(&rroutes).enumerate() {
                let x = read(r, p, *k);
                if ends[i] <= cut {
                    ensure_eq!(x, Ok(p.clone()), "reading before the cut on {:?}", rk);
                } else {
                    ensure!(
                        x.is_err(),
                        "{:?} was read on {:?} from {} bytes of a sequence that needs {}",
                        x,
                        rk,
                        cut,
                        ends[i]
                    );
                    break;
                }
            }
            Ok(())
        });
        r?;
        ctx.extra += 1;
    }
    Ok(())
}

fn c04_small(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(65_536) as u16;
    ctx.nontrivial();
    ctx.key = Some(i as u64);
    ctx.describe(|| i.to_string());
    let vals = [
        P::U8(i as u8),
        P::I8(i as u8 as i8),
        P::U16(i),
        P::I16(i as i16),
        P::U32((i as u32) << 16 | !i as u32 & 0xFFFF),
        P::I32(((i as u32) << 16 | i.rotate_left(3) as u32) as i32),
        P::F32((i as u32) << 16 | 0x5A01),
        P::F64((i as u64) << 48 | 0x5A5A_0000_0001),
    ];
    let mut want = Vec::new();
    for p in &vals {
        wire(p, &mut want);
    }
    let route = s.below(840);
    let mut w = il2_iltags::io::array::VecWriter::new();
    for p in &vals {
        write(&mut w, p, route)?;
    }
    let b: Vec<u8> = w.into();
    ensure_eq!(b, want, "bytes of {:?}", vals);
    let mut r = il2_iltags::io::array::ByteArrayReader::new(&b);
    for p in &vals {
        ensure_eq!(read(&mut r, p, route), Ok(p.clone()), "reading");
    }
    Ok(())
}

fn c04_utf8(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut b = string_any(s, 300).into_bytes();
    let k = s.usize(4);
    for _ in 0..k {
        if b.is_empty() {
            b.push(s.below(256) as u8);
        } else {
            let i = s.usize(b.len());
            match s.below(4) {
                0 => b[i] = s.below(256) as u8,
                1 => {
                    b.remove(i);
                }
                2 => b.insert(
                    i,
                    s.pick(&[0x80u8, 0xBF, 0xC0, 0xC1, 0xE0, 0xED, 0xF0, 0xF4, 0xF5, 0xFF]),
                ),
                _ => {
                    let x = s.pick(&[
                        &[0xEDu8, 0xA0, 0x80][..],
                        &[0xC0, 0x80],
                        &[0xF4, 0x90, 0x80, 0x80],
                        &[0xE0, 0x80, 0x80],
                        &[0xF0, 0x80, 0x80, 0x80],
                        &[0xEF, 0xBB, 0xBF],
                    ]);
                    let t = b.split_off(i);
                    b.extend_from_slice(x);
                    b.extend(t);
                }
            }
        }
    }
    let want = std::str::from_utf8(&b).ok().map(|x| x.to_string());
    ctx.class(if want.is_some() { "valid" } else { "invalid" });
    if b.iter().any(|x| *x >= 0x80) {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let (rk, seed, route) = (rk_any(s), s.any(), s.below(6));
    let mut long = b.clone();
    long.extend_from_slice(b"xyz");
    let (r, n) = read_with(rk, &long, seed, |r| read_str(r, b.len(), route));
    ensure_eq!(r.ok(), want, "string over {} through route {} on {:?}", hex(&b), route, rk);
    if want.is_some() {
        ensure_eq!(n, b.len(), "bytes consumed");
    }
    Ok(())
}

fn c04_routes(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = gen(s);
    if interesting(&p) {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{:?}", p));
    let mut want = Vec::new();
    wire(&p, &mut want);
    let (wk, rk, seed) = (wk_any(s), rk_any(s), s.any());
    for route in 0..8 {
        let (r, b) = write_with(wk, want.len(), seed, |w| write(w, &p, route));
        ensure_eq!(r, Ok(()), "writing through route {}", route);
        ensure_eq!(b, want, "bytes through route {} on {:?}", route, wk);
        let (r, n) = read_with(rk, &want, seed, |r| read(r, &p, route + 8 * (seed % 50)));
        ensure_eq!(r, Ok(p.clone()), "reading through route {} on {:?}", route, rk);
        ensure_eq!(n, want.len(), "bytes consumed through route {} on {:?}", route, rk);
        ctx.extra += 2;
    }
    Ok(())
}
