//! C08, C09, C10, C11 and C14: decoding of any bytes.
use super::*;
use crate::alloc::measure;
use crate::rio::*;
use il2_iltags::io::ErrorKind as IoErr;
use il2_iltags::tags::standard::*;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C08",
            rule: "Byte strings are enumerated (all the short ones) or generated: encodings with longer-than-minimal integers, damaged at a few points, spliced with others, structured noise, random bytes, and chains of containers; each is decoded by strict and non-strict factories on every kind of reader and compared with an independent decoder of the format. Non-trivial: the string has at least two bytes and is not the plain encoding of a default tag.",
            assumptions: &["Reasonable depth: up to 200 levels. Deeper nesting is the recorded finding deep-nesting-stack-overflow."],
            suites: vec![
                sweep("every string of up to two bytes", 65_793, 65_793, c08_short),
                sweep("strings of three bytes", 1_200_000, 1 << 24, c08_three),
                sweep("explicit headers and two bytes of value", 800_000, 1 << 22, c08_headers),
                random("damaged encodings", 500_000, 150_000_000, c08_damaged),
                random("structured noise", 500_000, 150_000_000, c08_noise),
                random("random bytes", 200_000, 50_000_000, c08_random),
                random("longer than minimal integers", 100_000, 40_000_000, c08_forms),
                random("chains", 6_000, 1_000_000, c08_chains),
                random("texts", 60_000, 20_000_000, text::c08_texts),
            ],
        },
        Property {
            id: "C09",
            rule: "Each generated encoding is cut at every byte (sampled when long) and decoded on every kind of reader; the whole one is decoded followed by every length class of trailing bytes. Non-trivial: the encoding has at least two bytes.",
            assumptions: &[],
            suites: vec![
                random("cuts", 60_000, 20_000_000, c09_cuts),
                random("trailing bytes", 60_000, 20_000_000, c09_tails),
                random("very long tails", 400, 20_000, c09_long_tails),
            ],
        },
        Property {
            id: "C10",
            rule: "In each generated nested encoding the declared lengths and counts at one, two or every site are changed by small, large and wrapping amounts, with other tags following and enclosing; the outcome is compared with an independent decoder that confines every tag to its declared length. Non-trivial: the encoding has at least two sites and the declaration was changed.",
            assumptions: &[],
            suites: vec![
                random("every site", 25_000, 8_000_000, c10_sites),
                random("several sites", 150_000, 50_000_000, c10_many),
                random("moved boundaries", 100_000, 40_000_000, c10_moved),
                random("values without a header", 40_000, 12_000_000, c10_direct),
            ],
        },
        Property {
            id: "C11",
            rule: "Headers that declare more than 512 MiB are placed at any nesting level, on a source without end that counts what is taken from it; inputs with lying lengths and counts are decoded under an allocator that records the peak. Non-trivial: the input declares more than it has.",
            assumptions: &["The small multiple of the input is 256, plus 4 MiB for what does not depend on it."],
            suites: vec![
                random("too large", 100_000, 30_000_000, c11_large),
                random("peak of memory", 20_000, 4_000_000, c11_memory),
                random("many small tags", 1_500, 400_000, c11_small),
                sweep("declared counts", 3_000, 30_000, c11_counts),
                sweep("exactly 512 MiB", 24, 24, c11_exact),
            ],
        },
        Property {
            id: "C14",
            rule: "Histories of up to 8 decodes into the same instance (valid, damaged, cut, of other identifiers) starting from any value; each outcome is compared with the reference decoding of those bytes as that type. Non-trivial: at least two decodes.",
            assumptions: &[],
            suites: vec![random("histories", 150_000, 60_000_000, c14)],
        },
    ]
}

/// A sequence nested `n` levels deep.
pub fn deep_seq(n: usize) -> Vec<u8> {
    // Built from the inside; pieces are kept reversed so that it takes linear time.
    let mut rev: Vec<u8> = Vec::new();
    for _ in 0..n {
        let len = ref_ilint(rev.len() as u64);
        rev.extend(len.iter().rev());
        rev.push(22);
    }
    rev.reverse();
    rev
}

/// Decodes with the library and compares with the reference. Returns the outcome.
pub fn check(reg: &Reg, f: &dyn ILTagFactory, b: &[u8], rk: RK, seed: u64) -> std::result::Result<Result2<T>, String> {
    let want = dec(reg, b);
    let (r, n) = read_with(rk, b, seed, |r| f.deserialize(r));
    judge(reg, b, rk, &want, &r, n)?;
    let whole = f.from_bytes(b);
    match (&want, &whole) {
        (Ok((t, n)), Ok(tag)) => {
            ensure!(
                *n == b.len(),
                "from_bytes() accepted {} with {} bytes after the tag",
                hex(b),
                b.len() - n
            );
            same(tag.as_ref(), t, &format!("from_bytes() of {}", hex(b)))?;
        }
        (Ok((_, n)), Err(e)) => {
            ensure!(*n < b.len(), "from_bytes() refused {}: {:?}", hex(b), e)
        }
        (Err(e), Ok(_)) => return Err(format!("from_bytes() accepted {} ({:?})", hex(b), e)),
        (Err(_), Err(_)) => (),
    }
    Ok(want.map(|x| x.0))
}

fn judge(
    reg: &Reg,
    b: &[u8],
    rk: RK,
    want: &Result2<(T, usize)>,
    r: &Result<Box<dyn ILTag>>,
    n: usize,
) -> R {
    match (want, r) {
        (Ok((t, l)), Ok(tag)) => {
            same(tag.as_ref(), t, &format!("decoding {} on {:?}", hex(b), rk))?;
            ensure_eq!(n, *l, "bytes consumed of {} on {:?}", hex(b), rk);
        }
        (Ok((t, _)), Err(e)) => {
            return Err(format!(
                "{} was refused on {:?} (strict: {}) with {:?}, expected {}",
                hex(b),
                rk,
                reg.strict,
                e,
                show(t)
            ))
        }
        (Err(e), Ok(tag)) => {
            return Err(format!(
                "{} was accepted on {:?} (strict: {}) as {:?}, expected {:?}",
                hex(b),
                rk,
                reg.strict,
                model(tag.as_ref()).map(|t| show(&t)),
                e
            ))
        }
        (Err(_), Err(_)) => (),
    }
    Ok(())
}

fn outcome(ctx: &mut Ctx, r: &Result2<T>) {
    ctx.class(match r {
        Ok(_) => "accepted",
        Err(DErr::Bad) => "refused: content",
        Err(DErr::Unknown) => "refused: unknown",
        Err(DErr::TooLarge) => "refused: too large",
    });
}

//---------------------------------------------------------------------------------------
// C08
//---------------------------------------------------------------------------------------
thread_local! {
    static STD: (ILStandardTagFactory, ILStandardTagFactory, Reg, Reg) = (
        ILStandardTagFactory::new(false),
        ILStandardTagFactory::new(true),
        Reg::std(false),
        Reg::std(true),
    );
}

/// Both standard factories, which live as long as the thread.
fn both(ctx: &mut Ctx, b: &[u8], rk: RK, seed: u64) -> R {
    STD.with(|(f, g, r, q)| {
        let o = check(r, f, b, rk, seed)?;
        outcome(ctx, &o);
        let _ = check(q, g, b, rk, seed)?;
        ctx.extra += 1;
        Ok(())
    })
}

fn c08_short(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(65_793);
    let b = if i == 0 {
        vec![]
    } else if i <= 256 {
        vec![(i - 1) as u8]
    } else {
        vec![((i - 257) >> 8) as u8, (i - 257) as u8]
    };
    if b.len() == 2 {
        ctx.nontrivial();
    }
    ctx.key = Some(i);
    ctx.describe(|| hex(&b));
    for rk in [RK::Slice, RK::Std, RK::Limited, RK::Minimal, RK::Cursor] {
        both(ctx, &b, rk, i)?;
    }
    Ok(())
}
fn c08_three(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(1 << 24).wrapping_mul(0x9E37_79B1) & 0xff_ffff;
    let b = [(i >> 16) as u8, (i >> 8) as u8, i as u8];
    ctx.nontrivial();
    ctx.key = Some(i);
    ctx.describe(|| hex(&b));
    both(ctx, &b, RK::Slice, i)
}
/// The standard explicit identifiers with every small length and two bytes of value,
/// followed by two more.
fn c08_headers(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(1 << 22).wrapping_mul(0x9E37_79B1) & 0x3f_ffff;
    let id = 16 + (i >> 18) as u8;
    let len = (i >> 16 & 3) as u8 + 1;
    let (x, y) = ((i >> 8) as u8, i as u8);
    let tail = mix(i);
    let b = [id, len, x, y, if tail & 1 == 0 { 0 } else { 17 }, (tail >> 8 & 3) as u8];
    ctx.nontrivial();
    ctx.key = Some(i);
    ctx.describe(|| hex(&b));
    both(ctx, &b, RK::Slice, i)
}

pub(super) fn damage(s: &mut Src, b: &mut Vec<u8>) {
    if b.is_empty() {
        b.push(s.below(256) as u8);
        return;
    }
    // The beginning is where the structure is.
    let i = if s.chance(1, 2) {
        s.usize(b.len().min(24))
    } else {
        s.usize(b.len())
    };
    match s.below(11) {
        0 => b[i] ^= 1 << s.below(8),
        1 => b[i] = s.below(256) as u8,
        2 => b[i] = b[i].wrapping_add(1),
        3 => b[i] = b[i].wrapping_sub(1),
        4 => b[i] = s.pick(&[0u8, 1, 10, 14, 15, 16, 17, 21, 22, 30, 31, 32, 127, 128, 247, 248, 249, 251, 254, 255]),
        5 => {
            b.remove(i);
        }
        6 => b.insert(i, s.below(256) as u8),
        7 => b.truncate(i),
        8 => {
            let n = 1 + s.usize(9);
            let j = s.usize(b.len());
            let part: Vec<u8> = b[j..(j + n).min(b.len())].to_vec();
            for (k, x) in part.into_iter().enumerate() {
                b.insert(i + k, x);
            }
        }
        9 => {
            let j = s.usize(b.len());
            b.swap(i, j);
        }
        _ => {
            // An integer in the place of a byte.
            let v = u64_any(s);
            let form = 1 + s.usize(9);
            b.splice(i..i + 1, ref_ilint_form(v, form));
        }
    }
}

fn form_edit(s: &mut Src, t: &T, num: u64, den: u64) -> Vec<u8> {
    let seed = s.any();
    enc_edit(t, &mut |n, _, v, _| {
        let r = mix(seed ^ n as u64);
        if r % den < num {
            (v, 1 + (r >> 32) as usize % 9)
        } else {
            (v, 0)
        }
    })
    .0
}

fn any_reg(s: &mut Src) -> Reg {
    if s.chance(1, 2) {
        Reg::std(s.chance(1, 2))
    } else {
        reg_any(s)
    }
}

fn c08_damaged(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let t = if s.chance(1, 2) {
        container(s, &reg, 150)
    } else {
        small_tag(s, &reg)
    };
    classify(ctx, &t);
    let mut b = form_edit(s, &t, 1, 8);
    for _ in 0..1 + s.usize(3) {
        damage(s, &mut b);
    }
    if s.chance(1, 6) {
        let u = small_tag(s, &reg);
        let e = enc(&u);
        let (i, j) = (s.usize(b.len() + 1), s.usize(e.len() + 1));
        b.truncate(i);
        b.extend_from_slice(&e[j..]);
    }
    if b.len() >= 2 {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let f = factory(&reg);
    let o = check(&reg, &f, &b, rk_any(s), s.any())?;
    outcome(ctx, &o);
    Ok(())
}

/// Something that looks like a tag.
pub(super) fn noise(s: &mut Src, out: &mut Vec<u8>, depth: usize, reg: &Reg) {
    let id = match s.weighted(&[6, 8, 3, 3, 1]) {
        0 => s.below(16),
        1 => s.pick(&[22u64, 21, 30, 31, 17, 20, 25, 19, 18, 16, 23, 24]),
        2 => s.pick(&[26u64, 27, 28, 29, 32, 40, 247, 248, 255, 256]),
        3 => {
            let c = reg.customs();
            if c.is_empty() {
                17
            } else {
                s.pick(&c).0
            }
        }
        _ => u64_any(s),
    };
    let form = if s.chance(1, 10) { 1 + s.usize(9) } else { 0 };
    out.extend(ref_ilint_form(id, form));
    let mut val = Vec::new();
    let ty = reg.ty(id);
    let body = |s: &mut Src, val: &mut Vec<u8>, max: u64| {
        let n = s.below(max);
        for _ in 0..n {
            noise(s, val, depth - 1, reg);
        }
    };
    match ty {
        Some(Ty::Arr) if depth > 0 => {
            let n = s.below(5);
            val.extend(ref_ilint(if s.chance(1, 6) { u64_any(s) } else { n }));
            for _ in 0..n {
                noise(s, &mut val, depth - 1, reg);
            }
        }
        Some(Ty::Seq) if depth > 0 => body(s, &mut val, 5),
        Some(Ty::Dict) | Some(Ty::StrDict) if depth > 0 => {
            let n = s.below(4);
            val.extend(ref_ilint(if s.chance(1, 6) { u64_any(s) } else { n }));
            let sloppy = s.chance(1, 4);
            for _ in 0..n {
                if sloppy && s.chance(1, 4) {
                    noise(s, &mut val, 0, reg);
                } else {
                    // Keys in any order, repeated now and then.
                    let k = key_any(s);
                    Enc { sites: 0, edit: None }.tag(&mut val, &T::std(V::Str(k)));
                }
                if ty == Some(Ty::StrDict) && !(sloppy && s.chance(1, 4)) {
                    let k = key_any(s);
                    Enc { sites: 0, edit: None }.tag(&mut val, &T::std(V::Str(k)));
                } else {
                    noise(s, &mut val, depth - 1, reg);
                }
            }
        }
        Some(Ty::PayB) => {
            val.extend(s.bytes(4));
            let n = s.below(4);
            val.extend(ref_ilint(if s.chance(1, 6) { u64_any(s) } else { n }));
            val.extend(vec![b'x'; n as usize]);
            if depth > 0 {
                body(s, &mut val, 4)
            }
        }
        Some(Ty::ILIntArr) | Some(Ty::Oid) => {
            let n = s.below(6);
            val.extend(ref_ilint(if s.chance(1, 6) { u64_any(s) } else { n }));
            for _ in 0..n {
                let v = u64_any(s);
                let f = s.usize(10);
                val.extend(ref_ilint_form(v, f));
            }
        }
        Some(Ty::ILInt) | Some(Ty::SILInt) | Some(Ty::Range) => {
            let v = u64_any(s);
            let f = s.usize(10);
            val.extend(ref_ilint_form(v, f));
            if ty == Some(Ty::Range) {
                val.extend(s.bytes(2));
            }
            if s.chance(1, 8) {
                // Beyond the largest integer.
                val = vec![255; val.len()];
            }
        }
        Some(Ty::Bool) => val.push(s.pick(&[0u8, 1, 0, 1, 2, 255])),
        Some(Ty::Str) => {
            let mut x = string_any(s, 40).into_bytes();
            if s.chance(1, 3) && !x.is_empty() {
                let i = s.usize(x.len());
                x[i] = s.pick(&[0x80u8, 0xc0, 0xc1, 0xed, 0xf5, 0xff, 0xe0, 0xf0, 0xf4, 0xbf]);
            }
            val.extend(x);
        }
        Some(t) => {
            let n = match t.fixed_size() {
                Some(n) if s.chance(5, 6) => n,
                _ => s.usize(20),
            };
            val.extend(s.bytes(n));
        }
        None => {
            let n = s.usize(6);
            val.extend(s.bytes(n))
        }
    }
    if id > 15 {
        let l = val.len() as u64;
        let l = if s.chance(1, 12) {
            match s.below(4) {
                0 => l + 1 + s.below(3),
                1 => l.saturating_sub(1 + s.below(3)),
                2 => u64_any(s),
                _ => l.wrapping_sub(u64_any(s)),
            }
        } else {
            l
        };
        let form = if s.chance(1, 10) { 1 + s.usize(9) } else { 0 };
        out.extend(ref_ilint_form(l, form));
    }
    out.extend(val);
}

fn c08_noise(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let mut b = Vec::new();
    let depth = 1 + s.usize(5);
    noise(s, &mut b, depth, &reg);
    if s.chance(1, 4) {
        noise(s, &mut b, 1, &reg);
    }
    if b.len() >= 2 {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let f = factory(&reg);
    let o = check(&reg, &f, &b, rk_any(s), s.any())?;
    outcome(ctx, &o);
    Ok(())
}
fn c08_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.below(3) {
        0 => s.usize(8),
        1 => s.usize(40),
        _ => s.usize(600),
    };
    let mut b = s.bytes(n);
    if s.chance(3, 4) && !b.is_empty() {
        b[0] = s.below(34) as u8;
        if b.len() > 1 && s.chance(1, 2) {
            b[1] = (b.len() - 2).min(247) as u8;
        }
    }
    // Mostly small bytes: they are structure.
    if s.chance(1, 2) {
        for x in b.iter_mut() {
            if *x & 0x60 != 0 {
                *x &= 0x1f;
            }
        }
    }
    if b.len() >= 2 {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    both(ctx, &b, rk_any(s), s.any())
}
fn c08_forms(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let t = if s.chance(1, 2) {
        container(s, &reg, 400)
    } else {
        gen_tag(s, &reg)
    };
    classify(ctx, &t);
    let den = s.pick(&[1u64, 2, 5]);
    let mut b = form_edit(s, &t, 1, den);
    let len = b.len();
    let k = s.usize(4);
    b.extend(s.bytes(k));
    ctx.nontrivial();
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| format!("{} as {}", show(&t), hex(&b)));
    let f = factory(&reg);
    let o = check(&reg, &f, &b, rk_any(s), s.any())?;
    // The reference decoder itself: the value does not depend on the form.
    ensure!(o.as_ref().ok() == Some(&t), "the reference decoder is wrong about {}", hex(&b));
    ensure_eq!(dec(&reg, &b).map(|x| x.1), Ok(len), "the reference decoder");
    Ok(())
}
fn c08_chains(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let n = s.pick(&[4usize, 8, 16, 33, 64, 65, 100, 128, 129, 200, 0]);
    let n = if n == 0 { (s.hint() % 201) as usize } else { 1 + s.usize(n) };
    let mut t = small_tag(s, &reg);
    let mode = s.below(4);
    for _ in 0..n {
        t = wrap(s, t, mode, &reg);
    }
    let mut b = form_edit(s, &t, 1, 20);
    let damaged = s.chance(1, 2);
    if damaged {
        damage(s, &mut b);
    }
    ctx.class(if damaged { "damaged" } else { "intact" });
    if n >= 32 {
        ctx.class("32 levels or more");
    }
    ctx.nontrivial();
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| format!("{} levels: {}", n, hex(&b)));
    let f = factory(&reg);
    let o = check(&reg, &f, &b, s.pick(&[RK::Slice, RK::Limited, RK::Cursor]), s.any())?;
    outcome(ctx, &o);
    if !damaged {
        ensure!(o.is_ok(), "the reference decoder refused a chain of {}", n);
    }
    Ok(())
}

//---------------------------------------------------------------------------------------
// C09
//---------------------------------------------------------------------------------------
fn refused(f: &dyn ILTagFactory, b: &[u8], rk: RK, seed: u64, what: &str) -> R {
    let (r, _) = read_with(rk, b, seed, |r| f.deserialize(r));
    match r {
        Err(_) => Ok(()),
        Ok(t) => Err(format!(
            "{} was accepted on {:?} as {:?}",
            what,
            rk,
            model(t.as_ref()).map(|t| show(&t))
        )),
    }
}

fn c09_tag(s: &mut Src, ctx: &mut Ctx, reg: &Reg) -> (T, Vec<u8>) {
    let t = match s.below(3) {
        0 => container(s, reg, 150),
        1 => small_tag(s, reg),
        _ => gen_tag(s, reg),
    };
    classify(ctx, &t);
    let den = s.pick(&[1_000_000u64, 1_000_000, 3]);
    let b = form_edit(s, &t, 1, den);
    if b.len() >= 2 {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{} as {}", show(&t), hex(&b)));
    (t, b)
}

/// Places a round number of bytes after the start of a value.
pub fn round_cuts(s: &mut Src, b: &[u8], n: usize) -> Vec<usize> {
    // Where values start, as far as they are the first of their container.
    let mut bases = vec![0];
    let mut p = 0;
    for _ in 0..6 {
        match ref_ilint_dec(&b[p..]) {
            Ok((id, l)) if id > 15 => {
                p += l;
                p += match ref_ilint_dec(&b[p..]) {
                    Ok((_, l)) => l,
                    _ => break,
                };
                bases.push(p);
                if id == 21 {
                    p += match ref_ilint_dec(&b[p..]) {
                        Ok((_, l)) => l,
                        _ => break,
                    };
                    bases.push(p);
                } else if id != 22 {
                    break;
                }
            }
            _ => break,
        }
    }
    let mut v = Vec::new();
    for _ in 0..n {
        let base = bases[if s.chance(1, 2) { bases.len() - 1 } else { s.usize(bases.len()) }];
        let unit = 1usize << s.range(6, 17);
        let k = (b.len() - base) / unit;
        if k > 0 {
            let p = base + unit * (1 + s.usize(k));
            v.extend([p - 1, p, p + 1].iter().filter(|p| **p < b.len()));
        }
    }
    v
}

fn c09_cuts(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let (t, b) = c09_tag(s, ctx, &reg);
    let f = factory(&reg);
    // It is well formed.
    let (r, n) = read_with(RK::Slice, &b, 0, |r| f.deserialize(r));
    match r {
        Ok(x) => same(x.as_ref(), &t, "the whole encoding")?,
        Err(e) => return Err(format!("the whole encoding {} was refused: {:?}", hex(&b), e)),
    }
    ensure_eq!(n, b.len(), "bytes consumed of {}", hex(&b));
    let seed = s.any();
    let cuts: Vec<usize> = if b.len() <= 120 {
        (0..b.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..40).collect();
        v.extend(b.len() - 20..b.len());
        for _ in 0..30 {
            v.push(s.usize(b.len()));
        }
        v.extend(round_cuts(s, &b, 5));
        v
    };
    for c in cuts {
        let rk = RKS[(mix(seed ^ c as u64) % 8) as usize];
        refused(&f, &b[..c], rk, seed, &format!("{} cut at {} of {}", hex(&b[..c]), c, b.len()))?;
        ensure!(
            f.from_bytes(&b[..c]).is_err(),
            "from_bytes() accepted {} cut at {} of {}",
            hex(&b[..c]),
            c,
            b.len()
        );
        ctx.extra += 1;
    }
    cut_value(s, ctx, &f, &t)
}

/// A value read directly, with its whole length given, from data that ends before.
pub fn cut_value(s: &mut Src, ctx: &mut Ctx, f: &dyn ILTagFactory, t: &T) -> R {
    if t.id <= 15 {
        return Ok(());
    }
    let v = enc_value(&t.v);
    if v.is_empty() {
        return Ok(());
    }
    for _ in 0..3 {
        let unit = 1usize << s.range(0, 17);
        let c = if unit < v.len() && s.chance(3, 4) {
            unit * (1 + s.usize(v.len() / unit))
        } else {
            s.usize(v.len())
        };
        let c = if c < v.len() { c } else { v.len() - 1 };
        let mut tag = build(&T::new(t.id, V::zero(t.ty())));
        let (rk, seed) = (rk_any(s), s.any());
        let (r, _) = read_with(rk, &v[..c], seed, |r| tag.deserialize_value(f, v.len(), r));
        ensure!(
            r.is_err(),
            "deserialize_value() of {} bytes accepted {} of them on {:?} for {}",
            v.len(),
            c,
            rk,
            clip(&show(t), 300)
        );
        ctx.extra += 1;
    }
    Ok(())
}

fn tail_check(f: &dyn ILTagFactory, b: &[u8], n: usize, tail: &[u8]) -> R {
    let mut x = b.to_vec();
    x.extend_from_slice(tail);
    ensure!(
        f.from_bytes(&x).is_err(),
        "from_bytes() accepted {} with {} bytes after it ({})",
        hex(b),
        n,
        hex(tail)
    );
    Ok(())
}

fn c09_tails(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let (t, b) = c09_tag(s, ctx, &reg);
    let f = factory(&reg);
    match f.from_bytes(&b) {
        Ok(x) => same(x.as_ref(), &t, "from_bytes()")?,
        Err(e) => return Err(format!("from_bytes() refused {}: {:?}", hex(&b), e)),
    }
    for n in [1usize, 2, 3, 4, 8, 9] {
        let tail = s.bytes(n);
        tail_check(&f, &b, n, &tail)?;
        tail_check(&f, &b, n, &vec![0; n])?;
        ctx.extra += 2;
    }
    for n in [s.usize(40), s.pick(&[16usize, 32, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 4096])] {
        let tail = s.bytes(n + 1);
        tail_check(&f, &b, n, &tail)?;
        if n > 0 {
            tail_check(&f, &b, n, &tail[..n])?;
        }
        ctx.extra += 2;
    }
    // The tag itself again.
    tail_check(&f, &b, b.len(), &b)
}
fn c09_long_tails(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(s.chance(1, 2));
    let (_, b) = c09_tag(s, ctx, &reg);
    let f = factory(&reg);
    let n = s.pick(&[65535usize, 65536, 65537, 131072, 1 << 20, 1 << 24]) + s.usize(3);
    let n = if n > 1 << 20 && !s.chance(1, 20) { 65536 } else { n };
    ctx.extra += 1;
    tail_check(&f, &b, n, &vec![s.below(2) as u8; n])
}

//---------------------------------------------------------------------------------------
// C10
//---------------------------------------------------------------------------------------
fn lie(s: &mut Src, v: u64, room: u64) -> u64 {
    let x = lie_any(s, v, room);
    // Values in this range make the library ask for that much memory, which is slow.
    if (1 << 20..=MAX).contains(&x) && !s.chance(1, 50) {
        x & 0xffff
    } else {
        x
    }
}
fn lie_any(s: &mut Src, v: u64, room: u64) -> u64 {
    match s.below(14) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => v.wrapping_add(2),
        3 => v.wrapping_sub(2),
        4 => v + 3 + s.below(8),
        5 => v.saturating_sub(3 + s.below(8)),
        6 => 0,
        7 => v.wrapping_mul(2),
        8 => v / 2,
        9 => v.wrapping_add(1 << s.pick(&[8u32, 16, 24, 32, 40, 48, 56, 63])),
        10 => s.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 1 << 31, MAX, MAX - 1]).wrapping_sub(room),
        11 => v + room,
        12 => s.below(16),
        _ => u64_any(s),
    }
}

/// A nested tag between others.
fn c10_tag(s: &mut Src, reg: &Reg) -> (T, Vec<u8>, Vec<u8>) {
    let t = match s.below(5) {
        0 => small_tag(s, reg),
        1 => {
            let mut g = Gen::small(reg);
            let ty = s.pick(&[Ty::Arr, Ty::Dict, Ty::StrDict, Ty::Seq, Ty::ILIntArr, Ty::Oid]);
            T::std(g.value(s, ty))
        }
        _ => container(s, reg, 80),
    };
    let mut tail = Vec::new();
    for _ in 0..s.usize(3) {
        let u = small_tag(s, reg);
        tail.extend(enc(&u));
    }
    let k = s.usize(6);
    tail.extend(s.bytes(k));
    (t, Vec::new(), tail)
}

fn c10_sites(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let (t, _, tail) = c10_tag(s, &reg);
    classify(ctx, &t);
    ctx.describe(|| show(&t));
    let mut sites = Vec::new();
    enc_edit(&t, &mut |n, site, v, room| {
        if matches!(site, Site::Len | Site::Count) {
            sites.push((n, v, room));
        }
        (v, 0)
    });
    let f = factory(&reg);
    if sites.len() >= 2 {
        ctx.nontrivial();
    }
    for (n, v, room) in sites.into_iter().take(24) {
        for k in 0..4 {
            let x = match k {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                _ => lie(s, v, room),
            };
            let (mut b, _) = enc_edit(&t, &mut |i, _, v, _| (if i == n { x } else { v }, 0));
            b.extend_from_slice(&tail);
            let o = check(&reg, &f, &b, rk_any(s), s.any()).map_err(|e| {
                format!("with {} declared instead of {} at site {} of {}: {}", x, v, n, show(&t), e)
            })?;
            outcome(ctx, &o);
            ctx.extra += 1;
        }
    }
    Ok(())
}
fn c10_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let (t, _, tail) = c10_tag(s, &reg);
    let mut sites = Vec::new();
    let (_, total) = enc_edit(&t, &mut |n, site, v, room| {
        if matches!(site, Site::Len | Site::Count) {
            sites.push((n, v, room));
        }
        (v, 0)
    });
    let mut edits: Vec<Option<u64>> = vec![None; total];
    let n = 1 + s.usize(3);
    if sites.is_empty() {
        return Ok(());
    }
    if sites.len() >= 2 {
        ctx.nontrivial();
    }
    for _ in 0..n {
        let (i, v, room) = s.pick(&sites);
        edits[i] = Some(lie(s, v, room));
    }
    let (mut b, _) = enc_edit(&t, &mut |i, _, v, _| (edits[i].unwrap_or(v), 0));
    b.extend_from_slice(&tail);
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| format!("{} with {:?} as {}", show(&t), edits, hex(&b)));
    let f = factory(&reg);
    let o = check(&reg, &f, &b, rk_any(s), s.any())?;
    outcome(ctx, &o);
    Ok(())
}
/// A value read with `deserialize_value()`: the caller says how long it is, and nothing else
/// limits it, whatever follows in the reader.
fn c10_direct(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let ty = s.pick(&[
        Ty::Arr, Ty::Seq, Ty::Seq, Ty::Dict, Ty::StrDict, Ty::ILIntArr, Ty::Oid, Ty::Bytes, Ty::Str, Ty::BigInt,
        Ty::BigDec, Ty::Range, Ty::Ver, Ty::PayB,
    ]);
    let mut v = Gen::small(&reg).value(s, ty);
    // Often a large one, and then a large item is the first, the last or the only one.
    if s.chance(1, 2) {
        let n = 1usize << s.range(6, 17);
        let n = n - s.usize(n / 2 + 1);
        let big = T::std(match s.below(3) {
            0 => V::Bytes(vec![s.below(256) as u8; n]),
            1 => V::Str("s".repeat(n)),
            _ => V::Seq(vec![T::std(V::U64(u64_any(s))); n / 9]),
        });
        match &mut v {
            V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => {
                let at = s.usize(v.len() + 1);
                v.insert(at, big)
            }
            V::Dict(m) => drop(m.insert(key_any(s), big)),
            V::StrDict(m) => drop(m.insert(key_any(s), "v".repeat(n))),
            V::ILIntArr(v) | V::Oid(v) => v.extend((0..n as u64 / 4).map(mix)),
            V::Bytes(v) | V::BigInt(v) | V::BigDec(_, v) => v.resize(n, 7),
            V::Str(t) => t.push_str(&"t".repeat(n)),
            _ => (),
        }
    }
    let std = if ty == Ty::PayB { 40 } else { T::std(v.clone()).id };
    let own = !matches!(ty, Ty::Bytes | Ty::BigInt);
    let t = T { id: if own { s.pick(&[std, 40, 100_000]) } else { std }, v };
    classify(ctx, &t);
    let mut b = enc_value(&t.v);
    let n = match s.below(4) {
        0 => b.len(),
        1 => b.len() + 1 + s.usize(5),
        2 => b.len().saturating_sub(1 + s.usize(5)),
        _ => (lie_any(s, b.len() as u64, 9) % (1 << 20)) as usize,
    };
    for _ in 0..s.usize(4) {
        b.extend(enc(&small_tag(s, &reg)));
    }
    if s.chance(1, 3) {
        let k = 1 << s.range(0, 16);
        let k = s.usize(k);
        b.resize(b.len() + k, s.below(256) as u8);
    }
    ctx.class(match n {
        0..=511 => "below 512 bytes",
        512..=4095 => "below 4 KiB",
        _ => "4 KiB and more",
    });
    ctx.describe(|| format!("a value of {} bytes out of {}, for {}", n, b.len(), clip(&show(&t), 300)));
    let want = if n > b.len() { Err(DErr::Bad) } else { dec_value(&reg, ty, &b[..n]) };
    if want.is_err() || n != b.len() {
        ctx.nontrivial();
    }
    let f = factory(&reg);
    let mut tag = build(&T { id: t.id, v: V::zero(ty) });
    if s.chance(1, 3) {
        // Something was there.
        tag = build(&T { id: t.id, v: Gen::small(&reg).value(s, ty) });
    }
    let (rk, seed) = (rk_any(s), s.any());
    let (r, taken) = read_with(rk, &b, seed, |r| tag.deserialize_value(&f, n, r));
    let place = |what: &str| format!("{}: a value of {} bytes out of {} on {:?}, for {}", what, n, hex(&b[..b.len().min(4000)]), rk, clip(&show(&t), 300));
    match (&want, &r) {
        (Ok(v), Ok(())) => {
            ensure_eq!(taken, n, "bytes taken: {}", place("accepted"));
            same(tag.as_ref(), &T { id: t.id, v: v.clone() }, &place("decoded"))?;
            outcome(ctx, &Ok(t));
        }
        (Err(e), Err(_)) => {
            ensure!(taken <= n, "{} bytes taken: {}", taken, place("refused"));
            outcome(ctx, &Err(*e));
        }
        (w, r) => return Err(format!("{:?} instead of {:?}: {}", r, w.as_ref().err(), place("wrong"))),
    }
    Ok(())
}
/// The lengths of an inner tag and of all the enclosing ones grow or shrink together, or a
/// part of the content moves across a boundary: only the counts tell.
fn c10_moved(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let (t, _, _) = c10_tag(s, &reg);
    let e = enc(&t);
    let inner = small_tag(s, &reg);
    let ie = enc(&inner);
    // A hand made container around two tags, with a declared length and count that may
    // not be those of the content.
    let mut val = Vec::new();
    let kind = s.pick(&[21u64, 22, 30, 31, 20, 25]);
    let count = match s.below(4) {
        0 => s.below(5),
        1 => 3,
        _ => 2,
    };
    if kind != 22 {
        let f = s.usize(10);
        val.extend(ref_ilint_form(count, f));
    }
    match kind {
        21 | 22 => {
            val.extend(&e);
            val.extend(&ie);
        }
        30 | 31 => {
            for x in [&e, &ie] {
                let k = key_any(s);
                val.extend(enc(&T::std(V::Str(k))));
                if kind == 30 {
                    val.extend(x.iter());
                } else {
                    val.extend(enc(&T::std(V::Str("v".into()))));
                }
            }
        }
        _ => {
            let (x, y) = (u64_any(s), u64_any(s));
            val.extend(ref_ilint(x));
            val.extend(ref_ilint(y));
        }
    }
    let grow = s.usize(4);
    match s.below(3) {
        0 => val.extend(s.bytes(grow)),
        1 => val.truncate(val.len().saturating_sub(grow)),
        _ => (),
    }
    let mut b = ref_ilint(kind);
    b.extend(ref_ilint(val.len() as u64));
    b.extend(val);
    for _ in 0..s.usize(3) {
        // Enclosed again, exactly or with a rest.
        let rest = s.usize(3);
        let x = s.bytes(rest);
        b.extend(x);
        let mut o = vec![];
        if s.chance(1, 2) {
            o.push(22);
            o.extend(ref_ilint(b.len() as u64));
        } else {
            o.push(21);
            let mut v = ref_ilint(1 + s.below(2));
            v.extend(&b);
            o.extend(ref_ilint(v.len() as u64));
            b = v;
        }
        o.extend(b);
        b = o;
    }
    ctx.nontrivial();
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let f = factory(&reg);
    let o = check(&reg, &f, &b, rk_any(s), s.any())?;
    outcome(ctx, &o);
    Ok(())
}

//---------------------------------------------------------------------------------------
// C11
//---------------------------------------------------------------------------------------
/// A source without end that counts.
struct Endless<'a> {
    head: &'a [u8],
    taken: u64,
    limit: u64,
}
impl<'a> Reader for Endless<'a> {
    fn read(&mut self) -> IoResult<u8> {
        if self.taken >= self.limit {
            return Err(IoErr::EndOfData);
        }
        let b = self.head.get(self.taken as usize).copied().unwrap_or(0);
        self.taken += 1;
        Ok(b)
    }
    fn read_all(&mut self, buf: &mut [u8]) -> IoResult<()> {
        if buf.len() as u64 > self.limit - self.taken {
            return Err(IoErr::UnableToReadData);
        }
        for (i, x) in buf.iter_mut().enumerate() {
            match self.head.get(self.taken as usize + i) {
                Some(b) => *x = *b,
                None => break,
            }
        }
        self.taken += buf.len() as u64;
        Ok(())
    }
}

fn huge(s: &mut Src) -> u64 {
    match s.below(6) {
        0 => MAX + 1,
        1 => MAX + 1 + s.below(1000),
        2 => s.pick(&[
            1u64 << 30,
            1 << 31,
            (1 << 32) - 1,
            1 << 32,
            (1 << 32) + 1,
            (1 << 32) + 512,
            1 << 33,
            (1 << 40) + 3,
            1 << 48,
            1 << 62,
            (1 << 63) - 1,
            1 << 63,
            (1 << 63) + 1,
            u64::MAX - 1,
            u64::MAX,
        ]),
        3 => (s.below(1 << 31) + 1) << 32 | s.below(2000),
        4 => u64::MAX - s.below(1000),
        _ => s.any().max(MAX + 1),
    }
}

fn c11_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let size = huge(s);
    for n in [size, u64_any(s), s.range(MAX - 3, MAX + 3)] {
        let r = il2_iltags::tags::tag_size_to_usize(n);
        let ok = if n <= MAX { matches!(r, Ok(k) if k as u64 == n) } else { matches!(r, Err(ErrorKind::TagTooLarge)) };
        ensure!(ok, "tag_size_to_usize({}): {:?}", n, r);
    }
    let mut ids: Vec<u64> = vec![16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 31, 26, 32, 1000, u64::MAX];
    ids.extend(reg.customs().iter().map(|x| x.0));
    let id = if s.chance(1, 5) { explicit_id(s) } else { s.pick(&ids) };
    let known = reg.ty(id).is_some();
    let mut b = ref_ilint(id);
    let form = s.usize(10);
    b.extend(ref_ilint_form(size, form));
    let mut strings = false;
    let levels = s.usize(6);
    // Everything up to the end of this header is all that can be taken.
    let mut head = b;
    for i in 0..levels {
        let inner = head;
        let mut val = Vec::new();
        let before = s.usize(3);
        let kind = s.pick(&[22u64, 21, 30, 31]);
        let kind = if kind == 31 && i > 0 { 30 } else { kind };
        match kind {
            22 => {
                for _ in 0..before {
                    let t = small_tag(s, &reg);
                    val.extend(enc(&t));
                }
            }
            21 => {
                val.extend(ref_ilint(before as u64 + 1 + s.below(3)));
                for _ in 0..before {
                    let t = small_tag(s, &reg);
                    val.extend(enc(&t));
                }
            }
            30 => {
                val.extend(ref_ilint(before as u64 + 1 + s.below(3)));
                for _ in 0..before {
                    let t = small_tag(s, &reg);
                    let k = key_any(s);
                    val.extend(enc(&T::std(V::Str(k))));
                    val.extend(enc(&t));
                }
                if i == 0 && s.chance(1, 3) {
                    // The key itself.
                    strings = true;
                } else {
                    let k = key_any(s);
                    val.extend(enc(&T::std(V::Str(k))));
                }
            }
            _ => {
                strings = true;
                val.extend(ref_ilint(before as u64 + 1 + s.below(3)));
                for _ in 0..before {
                    let (k, v) = (key_any(s), key_any(s));
                    val.extend(enc(&T::std(V::Str(k))));
                    val.extend(enc(&T::std(V::Str(v))));
                }
                if s.chance(1, 2) {
                    let k = key_any(s);
                    val.extend(enc(&T::std(V::Str(k))));
                }
            }
        }
        let inner = if strings && i == 0 {
            let mut x = vec![17];
            let form = s.usize(10);
            x.extend(ref_ilint_form(size, form));
            x
        } else {
            inner
        };
        val.extend(inner);
        // The enclosing tag has room for more than what is shown.
        let declared = match s.below(3) {
            0 => val.len() as u64,
            1 => val.len() as u64 + s.below(1000),
            _ => MAX - s.below(1000),
        };
        head = vec![kind as u8];
        head.extend(ref_ilint(declared));
        head.extend(val);
    }
    ctx.nontrivial();
    ctx.key = Some(hash_bytes(&head));
    ctx.class(if known || strings { "known" } else { "unknown" });
    ctx.class(match levels {
        0 => "top level",
        1 => "one level down",
        _ => "deeper",
    });
    ctx.describe(|| format!("{} declared in {}", size, hex(&head)));
    let f = factory(&reg);
    let mut r = Endless {
        head: &head,
        taken: 0,
        limit: u64::MAX,
    };
    let o = f.deserialize(&mut r);
    match o {
        Err(ErrorKind::TagTooLarge) => (),
        Err(e) => return Err(format!("a declared size of {} was refused with {:?} ({})", size, e, hex(&head))),
        Ok(_) => return Err(format!("a declared size of {} was accepted ({})", size, hex(&head))),
    }
    ensure!(
        r.taken <= head.len() as u64,
        "content was read before refusing a declared size of {}: {} bytes taken, the header ends at {} ({})",
        size,
        r.taken,
        head.len(),
        hex(&head)
    );
    if levels == 0 {
        if let Some(ty) = reg.ty(id) {
            let mut t = empty(ty, id);
            let mut r = Endless {
                head: &head,
                taken: 0,
                limit: u64::MAX,
            };
            let o = f.deserialize_into(&mut r, t.as_mut());
            ensure!(
                matches!(o, Err(ErrorKind::TagTooLarge)),
                "deserialize_into() with a declared size of {}: {:?}",
                size,
                o
            );
            ensure!(
                r.taken <= head.len() as u64,
                "deserialize_into() took {} bytes of a header of {}",
                r.taken,
                head.len()
            );
        }
    }
    Ok(())
}

/// The bound on the memory requested while decoding.
fn memory_bound(input: u64) -> u64 {
    MAX + 256 * input + (4 << 20)
}

fn decode_measured(reg: &Reg, f: &dyn ILTagFactory, b: &[u8], rk: RK, seed: u64) -> R {
    let want = dec(reg, b);
    let ((r, n), peak, largest) = read_with_measured(rk, b, seed, |r| f.deserialize(r));
    let bound = memory_bound(b.len() as u64);
    ensure!(
        peak <= bound && largest as u64 <= bound,
        "decoding {} bytes ({}) requested {} bytes (largest request {})",
        b.len(),
        hex(b),
        peak,
        largest
    );
    judge(reg, b, rk, &want, &r, n)
}

fn read_with_measured<X>(
    rk: RK,
    b: &[u8],
    seed: u64,
    f: impl FnOnce(&mut dyn Reader) -> X,
) -> ((X, usize), u64, u64) {
    let mut peaks = (0, 0);
    let r = read_with(rk, b, seed, |r| {
        let (x, p, l) = measure(|| f(r));
        peaks = (p, l);
        x
    });
    (r, peaks.0, peaks.1)
}

/// A declared length: mostly moderate, so that few cases touch half a gigabyte.
fn big_len(s: &mut Src) -> u64 {
    match s.weighted(&[40, 20, 6, 1]) {
        0 => s.below(100_000),
        1 => s.below(4 << 20),
        2 => s.below(32 << 20),
        _ => s.pick(&[MAX, MAX - 1, MAX / 2, MAX - 1000]),
    }
}

fn c11_memory(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let mut b = Vec::new();
    let n = 1 + s.usize(4);
    let mut ids = vec![16u64, 17, 18, 19, 20, 21, 22, 25, 30, 31];
    ids.extend(reg.customs().iter().map(|x| x.0));
    if !reg.strict {
        ids.push(32);
    }
    let mut lies = false;
    // Nested headers that all lie.
    for i in 0..n {
        let id = if i + 1 < n && s.chance(4, 5) {
            s.pick(&[21u64, 22, 30])
        } else {
            s.pick(&ids)
        };
        b.extend(ref_ilint(id));
        let l = if i == 0 && s.chance(1, 2) {
            s.below(64 << 20)
        } else {
            big_len(s)
        };
        b.extend(ref_ilint(l));
        lies |= l > 64;
        let count = match s.below(4) {
            0 => s.below(20),
            1 => s.below(1 << 20),
            2 => s.pick(&[
                1u64 << 24, 1 << 26, 1 << 27, (1 << 27) - 1, 1 << 28, MAX, MAX - 1, MAX + 1, 1 << 31, 1 << 32, 1 << 40,
                1 << 60, (1 << 60) - 1, 1 << 61, 1 << 63, u64::MAX, u64::MAX / 8, u64::MAX / 16, u64::MAX / 24,
            ]),
            _ => u64_any(s),
        };
        match reg.ty(id) {
            Some(Ty::Arr) | Some(Ty::ILIntArr) | Some(Ty::Oid) => b.extend(ref_ilint(count)),
            Some(Ty::Dict) | Some(Ty::StrDict) => {
                b.extend(ref_ilint(count));
                if s.chance(2, 3) {
                    let k = key_any(s);
                    b.extend(enc(&T::std(V::Str(k))));
                }
            }
            _ => (),
        }
        for _ in 0..s.usize(3) {
            let t = small_tag(s, &reg);
            b.extend(enc(&t));
        }
    }
    if lies {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let f = factory(&reg);
    decode_measured(&reg, &f, &b, rk_any(s), s.any())
}

/// Very many small tags: what each takes in memory counts.
fn c11_small(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = any_reg(s);
    let mut unit = Vec::new();
    for _ in 0..1 + s.usize(2) {
        // Of every type, empty or nearly.
        let mut types = vec![
            Ty::Null, Ty::U8, Ty::ILInt, Ty::F128, Ty::Bytes, Ty::Str, Ty::BigInt, Ty::BigDec, Ty::ILIntArr, Ty::Arr,
            Ty::Seq, Ty::Range, Ty::Ver, Ty::Oid, Ty::Dict, Ty::StrDict,
        ];
        types.extend(reg.customs().iter().map(|x| x.1));
        let ty = s.pick(&types);
        let id = reg.customs().iter().find(|x| x.1 == ty).map(|x| x.0);
        let v = match s.below(3) {
            0 => Gen::small(&reg).value(s, ty),
            _ => V::zero(ty),
        };
        let t = match id {
            Some(id) => T::new(id, v),
            None if matches!(ty, Ty::PayA | Ty::PayB | Ty::Raw) => T::std(V::Null),
            None => T::std(v),
        };
        let mut e = enc(&t);
        for _ in 0..s.pick(&[0usize, 0, 0, 1, 2, 4]) {
            let v = std::mem::take(&mut e);
            e.push(22);
            e.extend(ref_ilint(v.len() as u64));
            e.extend(v);
        }
        if unit.len() + e.len() < 200 {
            unit.extend(e);
        }
    }
    let k = s.range(6, 13);
    let mut k = (1usize << k) + s.usize(1 << k);
    if unit.len() <= 12 && s.chance(1, 8) {
        // What is little for each is too much for all.
        k = 100_000 + s.usize(200_000);
    }
    let mut v = Vec::new();
    let shape = s.below(3);
    if shape == 1 {
        v.extend(ref_ilint(k as u64));
    } else if shape == 2 {
        v.extend(ref_ilint(k as u64));
    }
    for i in 0..k {
        if shape == 2 {
            v.extend(enc(&T::std(V::Str(i.to_string()))));
        }
        v.extend(&unit);
    }
    let mut b = vec![[22u8, 21, 30][shape as usize]];
    b.extend(ref_ilint(v.len() as u64));
    b.extend(v);
    if s.chance(1, 4) {
        b.pop();
    }
    ctx.nontrivial();
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| format!("{} times {} in {}, {} bytes", k, hex(&unit), b[0], b.len()));
    let f = factory(&reg);
    decode_measured(&reg, &f, &b, rk_any(s), s.any())
}

const COUNTS: [u64; 30] = [
    0,
    1,
    2,
    247,
    248,
    1 << 10,
    1 << 16,
    1 << 20,
    (1 << 22) + 1,
    1 << 24,
    1 << 25,
    1 << 26,
    (1 << 26) + 1,
    1 << 27,
    1 << 28,
    MAX - 1,
    MAX,
    MAX + 1,
    (1 << 32) - 1,
    1 << 32,
    1 << 40,
    u64::MAX / 64,
    u64::MAX / 24,
    u64::MAX / 16,
    u64::MAX / 8,
    u64::MAX / 4 + 1,
    (1 << 63) - 1,
    1 << 63,
    u64::MAX - 1,
    u64::MAX,
];

/// Every type with a count, every count, with different amounts of content, and the
/// length that the count would need or one that is plausible.
fn c11_counts(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(30_000).wrapping_mul(7919) % 30_000;
    let id = [20u64, 21, 25, 30, 31][(i % 5) as usize];
    let count = COUNTS[(i / 5 % 30) as usize];
    let content = [0usize, 1, 3, 40, 5000][(i / 150 % 5) as usize];
    let outer = i / 750 % 2 == 1;
    let mut val = ref_ilint(count);
    let form = s.usize(10);
    if s.chance(1, 4) {
        val = ref_ilint_form(count, form);
    }
    match id {
        20 | 25 => val.extend(s.bytes(content)),
        21 => {
            for _ in 0..content {
                val.push(0);
            }
        }
        _ => {
            for k in 0..content / 6 {
                let k = format!("{:04}", k);
                val.extend(enc(&T::std(V::Str(k))));
                if id == 30 {
                    val.push(0)
                } else {
                    val.extend(enc(&T::std(V::Str(String::new()))));
                }
            }
        }
    }
    let l = match s.below(4) {
        0 => val.len() as u64,
        1 => MAX,
        2 => count.min(MAX),
        _ => count.saturating_mul(2).min(MAX),
    };
    let mut b = ref_ilint(id);
    b.extend(ref_ilint(l));
    b.extend(val);
    if outer {
        let mut o = vec![22];
        o.extend(ref_ilint(if s.chance(1, 2) { MAX } else { b.len() as u64 }));
        o.extend(b);
        b = o;
    }
    if count > 1 << 10 {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| format!("{} elements declared in {}", count, hex(&b)));
    let reg = Reg::std(false);
    let f = factory(&reg);
    decode_measured(&reg, &f, &b, s.pick(&[RK::Slice, RK::Std, RK::Cursor, RK::Limited]), s.any())
}

fn c11_exact(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(24);
    ctx.nontrivial();
    ctx.key = Some(i);
    let ids = [16u64, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 30, 31, 32, 1 << 40];
    let (id, size, strict, full) = match i {
        0..=14 => (ids[i as usize], MAX, false, false),
        15 => (16, MAX, true, true),
        16 => (32, MAX, false, true),
        17 => (17, MAX, true, true),
        18 => (16, MAX - 1, true, false),
        19 => (18, MAX, true, false),
        20 => (22, MAX, true, false),
        21 => (17, MAX - 1, false, false),
        22 => (30, MAX, true, false),
        _ => (21, MAX, true, false),
    };
    let mut head = ref_ilint(id);
    head.extend(ref_ilint(size));
    let reg = Reg::std(strict);
    let f = factory(&reg);
    ctx.describe(|| format!("identifier {} with {} bytes, complete: {}", id, size, full));
    let mut r = Endless {
        head: &head,
        taken: 0,
        limit: head.len() as u64 + if full { size } else { s.below(1000) },
    };
    let (o, peak, _) = measure(|| f.deserialize(&mut r));
    if full {
        let bound = memory_bound(r.limit);
        ensure!(peak <= bound, "{} bytes requested to decode a tag of {}", peak, size);
        let t = match o {
            Ok(t) => t,
            Err(e) => return Err(format!("a complete tag of {} bytes was refused: {:?}", size, e)),
        };
        ensure_eq!(t.id(), id, "identifier");
        ensure_eq!(t.value_size(), size, "value_size()");
        ensure_eq!(r.taken, r.limit, "bytes consumed");
        return Ok(());
    }
    ensure!(
        !matches!(o, Err(ErrorKind::TagTooLarge)),
        "identifier {} with a declared size of {} was refused as too large",
        id,
        size
    );
    ensure!(o.is_err(), "an incomplete tag of {} bytes was accepted", size);
    // The functions for strings.
    if id == 17 {
        let mut r = Endless {
            head: &head,
            taken: 0,
            limit: head.len() as u64,
        };
        let o = il2_iltags::tags::standard::explicit::deserialize_string_tag_from_value(&mut r);
        ensure!(
            o.is_err() && !matches!(o, Err(ErrorKind::TagTooLarge)),
            "reading a string of {} bytes: {:?}",
            size,
            o
        );
    }
    Ok(())
}

//---------------------------------------------------------------------------------------
// C14
//---------------------------------------------------------------------------------------
/// The value of a dictionary with any keys in any order, repeated or not, and its length.
fn dict_value(s: &mut Src, reg: &Reg, strings: bool) -> Vec<u8> {
    let n = s.usize(7);
    let pool: Vec<String> = (0..1 + s.usize(4)).map(|_| key_any(s)).collect();
    let mut b = ref_ilint(n as u64);
    for _ in 0..n {
        b.extend(enc(&T::std(V::Str(s.pick(&pool)))));
        b.extend(enc(&if strings {
            T::std(V::Str(string_any(s, 40)))
        } else {
            small_tag(s, reg)
        }));
    }
    b
}

/// Decodes the tag at the beginning of `b` as type `ty`.
fn dec_as(reg: &Reg, ty: Ty, b: &[u8]) -> Result2<(T, usize)> {
    let (id, n) = ref_ilint_dec(b)?;
    let (p, size) = if id > 15 {
        let (l, m) = ref_ilint_dec(&b[n..])?;
        if l > MAX {
            return Err(DErr::TooLarge);
        }
        (n + m, l)
    } else if id == 10 || id == 14 {
        let (x, m) = ref_ilint_dec(&b[n..])?;
        let v = if ty == Ty::ILInt {
            V::ILInt(x)
        } else {
            V::SILInt(ref_unzigzag(x))
        };
        return Ok((T::new(id, v), n + m));
    } else {
        (n, implicit_size(id).ok_or(DErr::Bad)? as u64)
    };
    if size > (b.len() - p) as u64 {
        return Err(DErr::Bad);
    }
    let e = p + size as usize;
    Ok((T::new(id, dec_value(reg, ty, &b[p..e])?), e))
}

fn c14(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let f = factory(&reg);
    let mut first = match s.below(3) {
        0 => container(s, &reg, 200),
        _ => small_tag(s, &reg),
    };
    if s.chance(1, 4) && first.ty().any_id() {
        // An instance the factory would not make for that identifier.
        first.id = if s.chance(1, 4) && !matches!(first.ty(), Ty::Raw | Ty::BigDec) {
            s.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13])
        } else {
            explicit_id(s)
        };
    }
    let ty = first.ty();
    if (first.id == 10 && ty != Ty::ILInt) || (first.id == 14 && ty != Ty::SILInt) {
        return Ok(());
    }
    let id = first.id;
    let mut tag = build(&first);
    // None: it holds something unspecified after a failure.
    let mut now = Some(first.clone());
    classify(ctx, &first);
    ctx.describe(|| show(&first));
    let n = 1 + s.usize(8);
    for k in 0..n {
        let kind = s.weighted(&[10, 4, 3, 2, 2]);
        let mut b = match kind {
            4 => {
                let mut t = small_tag(s, &reg);
                if s.chance(1, 2) && t.ty().any_id() {
                    t.id = s.pick(&[id.wrapping_add(1), id ^ (1 << 32), id.wrapping_add(256), id.wrapping_add(65536)]).max(16);
                }
                enc(&t)
            }
            _ if matches!(ty, Ty::Dict | Ty::StrDict) && s.chance(1, 2) => {
                // Keys may be repeated: the last one counts.
                let v = dict_value(s, &reg, ty == Ty::StrDict);
                let mut b = ref_ilint(id);
                if id > 15 {
                    b.extend(ref_ilint(v.len() as u64));
                }
                b.extend(v);
                ctx.class("dictionary in any order");
                b
            }
            _ => {
                let t = match &now {
                    // Almost what it holds.
                    Some(t) if s.chance(1, 3) => vary(s, t),
                    _ => {
                        let mut g = Gen::small(&reg);
                        g.budget = 200;
                        let v = g.value(s, ty);
                        T::new(id, v)
                    }
                };
                // At an implicit identifier the size may not be the one of the type.
                form_edit(s, &t, 1, 10)
            }
        };
        match kind {
            1 => damage(s, &mut b),
            2 => {
                let c = s.usize(b.len() + 1);
                b.truncate(c);
            }
            3 => {
                for _ in 0..1 + s.usize(3) {
                    damage(s, &mut b);
                }
            }
            _ => (),
        }
        if s.chance(1, 2) {
            let k = s.usize(5);
            b.extend(s.bytes(k));
        }
        let (rk, seed) = (rk_any(s), s.any());
        let (r, used) = read_with(rk, &b, seed, |r| f.deserialize_into(r, tag.as_mut()));
        ctx.describe(|| format!("{} -> {:?}", hex(&b), r.is_ok()));
        if k > 0 {
            ctx.nontrivial();
        }
        ctx.extra += 1;
        ensure_eq!(tag.id(), id, "the identifier changed");
        let other = matches!(ref_ilint_dec(&b), Ok((x, _)) if x != id);
        if other {
            ctx.class("other identifier");
            // The kind of error is only settled if there is a single problem.
            let x = ref_ilint_dec(&b).unwrap().0;
            let clean = dec(&reg, &b).is_ok() && x != 15;
            match &r {
                Err(ErrorKind::UnexpectedTagType) => (),
                Err(_) if !clean => (),
                _ => return Err(format!("{} into a tag {}: {:?}, expected UnexpectedTagType", hex(&b), id, r)),
            }
            if let Some(m) = &now {
                same(tag.as_ref(), m, "after refusing another identifier")?;
            }
            continue;
        }
        let want = dec_as(&reg, ty, &b);
        match (&want, &r) {
            (Ok((t, l)), Ok(())) => {
                ctx.class("decoded");
                same(tag.as_ref(), t, &format!("after decoding {} into {:?}", hex(&b), now.as_ref().map(show)))?;
                ensure_eq!(used, *l, "bytes consumed of {}", hex(&b));
                ensure_eq!(tag.size(), enc(t).len() as u64, "size() after decoding {}", hex(&b));
                ensure!(tag.to_bytes().ok() == Some(enc(t)), "serialization after decoding {}", hex(&b));
                now = Some(t.clone());
            }
            (Err(_), Err(_)) => {
                ctx.class("failed");
                now = None;
            }
            (Ok((t, _)), Err(e)) => {
                return Err(format!("{} into {:?} failed with {:?}, expected {}", hex(&b), now.as_ref().map(show), e, show(t)))
            }
            (Err(e), Ok(())) => {
                return Err(format!(
                    "{} into {:?} succeeded ({:?}), expected {:?}",
                    hex(&b),
                    now.as_ref().map(show),
                    model(tag.as_ref()).map(|t| show(&t)),
                    e
                ))
            }
        }
    }
    Ok(())
}
