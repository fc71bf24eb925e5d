//! C16 and C27: raw scanning.
use super::*;
use crate::rio::*;
use il2_iltags::io::array::*;
use il2_iltags::io::ErrorKind as IoErr;
use il2_iltags::tags::raw::*;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C16",
            rule: "Concatenations of tags of every identifier, with integers in any form, damaged ones, noise and sparse streams of up to 2^64 bytes are scanned on every kind of reader and compared with the boundaries an independent parser finds. Non-trivial: at least two tags, or an offset beyond 4 GiB.",
            assumptions: &[
                "At the end of the data the scanner may return an error or no tag.",
                "An implicit ILInt beyond the range of 64 bits may be reported or refused: its boundaries are known.",
            ],
            suites: vec![
                random("concatenations", 150_000, 40_000_000, c16_concat),
                random("any bytes", 300_000, 80_000_000, c16_bytes),
                random("sparse streams", 100_000, 30_000_000, c16_sparse),
                random("checking identifiers", 60_000, 20_000_000, c16_ids),
                sweep("two byte strings", 65_536, 65_536, c16_two),
            ],
        },
        Property {
            id: "C27",
            rule: "Every tag nested in a generated tree is scanned inside its container and mapped up level by level; the slices of the whole data it designates must be its bytes. Consistent and inconsistent pairs of parent and child offsets over all 64-bit magnitudes. Non-trivial: two levels or more, or a pair at the boundary.",
            assumptions: &["Offsets whose end is beyond 2^64-1 designate nothing and are not used."],
            suites: vec![
                random("trees", 80_000, 20_000_000, c27_trees),
                random("pairs", 400_000, 100_000_000, c27_pairs),
                random("accessors", 200_000, 50_000_000, c27_accessors),
            ],
        },
    ]
}

fn check_span(t: &RawTagOffset, w: &Span) -> R {
    ensure_eq!(t.id(), w.id, "id()");
    ensure_eq!(t.offset(), w.start, "offset() of a tag {}", w.id);
    ensure_eq!(t.value_offset(), w.value, "value_offset() of a tag {} at {}", w.id, w.start);
    ensure_eq!(t.value_size(), w.end - w.value, "value_size() of a tag {} at {}", w.id, w.start);
    ensure_eq!(t.size(), w.end - w.start, "size() of a tag {} at {}", w.id, w.start);
    ensure_eq!(t.next_tag_offset(), w.end, "next_tag_offset() of a tag {} at {}", w.id, w.start);
    ensure_eq!(t.tag_start() as u64, w.start, "tag_start()");
    ensure_eq!(t.tag_end() as u64, w.end, "tag_end()");
    ensure_eq!(t.value_start() as u64, w.value, "value_start()");
    ensure_eq!(t.value_end() as u64, w.end, "value_end()");
    Ok(())
}

/// Scans `b` as far as it goes, comparing with the reference.
fn scan_all(b: &[u8], rk: RK, seed: u64) -> std::result::Result<usize, String> {
    let (r, used) = read_with(rk, b, seed, |r| -> std::result::Result<(usize, Option<usize>), String> {
        let mut fr = FwdR(r);
        let mut sc = RawTagScanner::new(&mut fr);
        let mut p = 0usize;
        let mut n = 0;
        loop {
            let want = scan_one(&b[p..], p as u64);
            let got = sc.next_tag();
            match (got, want) {
                (Ok(Some(t)), Ok(w)) => {
                    check_span(&t, &w).map_err(|e| format!("tag {} of {} on {:?}: {}", n, hex(b), rk, e))?;
                    ensure!(
                        t.tag_slice(b) == &b[w.start as usize..w.end as usize],
                        "tag_slice() of tag {} of {}",
                        n,
                        hex(b)
                    );
                    ensure!(
                        t.value_slice(b) == &b[w.value as usize..w.end as usize],
                        "value_slice() of tag {} of {}",
                        n,
                        hex(b)
                    );
                    p = w.end as usize;
                    n += 1;
                }
                (Ok(Some(t)), Err(_)) => {
                    return Err(format!(
                        "a tag that is not there was reported at {} of {} on {:?}: {:?}",
                        p,
                        hex(b),
                        rk,
                        t
                    ))
                }
                (Ok(None), Err(_)) if p == b.len() => return Ok((n, Some(p))),
                (Ok(None), _) => return Err(format!("the end was reported at {} of {}", p, hex(b))),
                (Err(_), Err(_)) => return Ok((n, None)),
                (Err(e), Ok(w)) => {
                    let v = &b[w.value as usize..w.end as usize];
                    if (w.id == 10 || w.id == 14) && ref_ilint_dec(v).is_err() {
                        return Ok((n, None));
                    }
                    return Err(format!(
                        "the tag {:?} of {} on {:?} was refused: {:?}",
                        w,
                        hex(b),
                        rk,
                        e
                    ));
                }
            }
        }
    });
    let (n, clean) = r?;
    if let Some(p) = clean {
        ensure_eq!(used, p, "bytes consumed by the scanner");
    }
    Ok(n)
}

/// A tag with any identifier, an explicit one having any bytes as its value, in any form.
fn raw_tag(s: &mut Src, reg: &Reg) -> Vec<u8> {
    if s.chance(1, 3) {
        // A real one.
        let mut g = Gen::new(reg);
        g.depth = 2;
        g.budget = 100;
        let mut t = g.tag(s);
        if t.ty().any_id() && s.chance(1, 3) {
            t.id = explicit_id(s);
        }
        let seed = s.any();
        return enc_edit(&t, &mut |n, _, v, _| {
            let r = mix(seed ^ n as u64);
            (v, if r % 3 == 0 { 1 + (r >> 32) as usize % 9 } else { 0 })
        })
        .0;
    }
    let id = if s.chance(1, 2) { s.below(15) } else { 16 + u64_any(s) % (u64::MAX - 15) };
    let mut b = ref_ilint_form(id, 1 + s.usize(9));
    let val = if id == 10 || id == 14 {
        let v = u64_any(s);
        ref_ilint_form(v, 1 + s.usize(9))
    } else {
        let n = match implicit_size(id) {
            Some(n) => n,
            None => len_any(s, 1500),
        };
        s.bytes(n)
    };
    if id > 15 {
        b.extend(ref_ilint_form(val.len() as u64, 1 + s.usize(9)));
    }
    b.extend(val);
    b
}

fn c16_concat(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(false);
    let n = s.usize(9);
    let mut b = Vec::new();
    let mut ends = vec![];
    for _ in 0..n {
        b.extend(raw_tag(s, &reg));
        ends.push(b.len());
    }
    if n >= 2 {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    // The reference itself.
    let mut p = 0;
    for e in &ends {
        match scan_one(&b[p..], p as u64) {
            Ok(w) => {
                ensure_eq!(w.end as usize, *e, "the reference scanner");
                p = *e;
            }
            Err(_) => return Err("the reference scanner refused a tag".to_string()),
        }
    }
    let (rk, seed) = (rk_any(s), s.any());
    let m = scan_all(&b, rk, seed)?;
    ensure_eq!(m, n, "number of tags found");
    // Cut at any point: only the complete tags are reported.
    if !b.is_empty() {
        let c = s.usize(b.len());
        let m = scan_all(&b[..c], rk_any(s), seed)?;
        ensure_eq!(m, ends.iter().filter(|e| **e <= c).count(), "tags found in a cut stream");
        ctx.extra += 1;
    }
    // The offsets are relative to where the scanner begins.
    let k = 1 + s.usize(5);
    let mut long = vec![0xee; k];
    long.extend(&b);
    let mut r = VecReader::new(&long);
    r.skip(k).map_err(|e| format!("{:?}", e))?;
    let mut sc = RawTagScanner::new(&mut r);
    let mut p = 0;
    for e in &ends {
        match sc.next_tag() {
            Ok(Some(t)) => check_span(&t, &scan_one(&b[p..], p as u64).unwrap())?,
            x => return Err(format!("scanning after a prefix: {:?}", x)),
        }
        p = *e;
    }
    Ok(())
}

fn c16_bytes(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(false);
    let mut b = Vec::new();
    for _ in 0..s.usize(4) {
        b.extend(raw_tag(s, &reg));
    }
    match s.below(4) {
        0 => {
            let n = s.usize(40);
            b = s.bytes(n);
            for x in b.iter_mut().step_by(2) {
                *x &= 0x1f;
            }
        }
        1 => {
            // A huge declaration at the end.
            let id = explicit_id(s);
            b.extend(ref_ilint_form(id, 1 + s.usize(9)));
            let v = match s.below(3) {
                0 => u64::MAX - s.below(40),
                1 => s.any(),
                _ => u64_any(s),
            };
            b.extend(ref_ilint_form(v, 1 + s.usize(9)));
            let n = s.usize(4);
            b.extend(s.bytes(n));
        }
        _ => {
            for _ in 0..1 + s.usize(3) {
                if b.is_empty() {
                    b.push(s.below(256) as u8);
                }
                let i = s.usize(b.len());
                match s.below(5) {
                    0 => b[i] = s.below(256) as u8,
                    1 => {
                        b.remove(i);
                    }
                    2 => b.insert(i, s.pick(&[0u8, 10, 14, 15, 16, 248, 251, 255])),
                    3 => b.truncate(i),
                    _ => b[i] ^= 1 << s.below(8),
                }
            }
        }
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let n = scan_all(&b, rk_any(s), s.any())?;
    if n >= 2 {
        ctx.nontrivial();
    }
    ctx.class(match n {
        0 => "no tag",
        1 => "one tag",
        _ => "several tags",
    });
    Ok(())
}

fn c16_two(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(65_536);
    let b = [(i >> 8) as u8, i as u8];
    ctx.key = Some(i);
    ctx.describe(|| hex(&b));
    if scan_all(&b, RK::Slice, i)? >= 2 {
        ctx.nontrivial();
    }
    // With enough after it.
    let mut long = b.to_vec();
    long.extend([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]);
    scan_all(&long, RK::Cursor, i)?;
    ctx.extra += 1;
    Ok(())
}

/// A stream with little content and any length, as a sparse file.
struct Sparse {
    /// (position, byte) of what is not zero-filled, in order.
    parts: Vec<(u64, Vec<u8>)>,
    len: u64,
    pos: u64,
}
impl Sparse {
    fn at(&self, p: u64) -> u8 {
        for (o, b) in &self.parts {
            if p >= *o && p - *o < b.len() as u64 {
                return b[(p - *o) as usize];
            }
        }
        0xa7
    }
}
impl Reader for Sparse {
    fn read(&mut self) -> IoResult<u8> {
        if self.pos >= self.len {
            return Err(IoErr::EndOfData);
        }
        self.pos += 1;
        Ok(self.at(self.pos - 1))
    }
    fn skip(&mut self, n: usize) -> IoResult<()> {
        self.skip_u64(n as u64)
    }
    fn skip_u64(&mut self, n: u64) -> IoResult<()> {
        if n > self.len - self.pos {
            return Err(IoErr::UnableToReadData);
        }
        self.pos += n;
        Ok(())
    }
}

fn c16_sparse(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 1 + s.usize(6);
    let mut parts = Vec::new();
    let mut spans = Vec::new();
    let mut pos: u64 = 0;
    let mut beyond = false;
    for i in 0..n {
        let id = if s.chance(1, 4) { s.pick(&[0u64, 1, 4, 6, 8, 10, 13, 14]) } else { explicit_id(s) };
        let mut h = ref_ilint_form(id, 1 + s.usize(9));
        let hs;
        let size: u64;
        if id > 15 {
            let left = u64::MAX - pos - 40;
            let last = i + 1 == n;
            let v = match s.below(6) {
                0 => s.below(300),
                1 => (1u64 << s.range(20, 40)) + s.below(3),
                2 => (1u64 << 32) - 1 + s.below(3),
                3 => u64_any(s),
                4 if last => left.saturating_sub(s.below(3)),
                _ => MAX - s.below(4),
            }
            .min(left / if last { 1 } else { 2 });
            size = v;
            h.extend(ref_ilint_form(v, 1 + s.usize(9)));
            hs = h.len() as u64;
        } else {
            hs = h.len() as u64;
            if id == 10 || id == 14 {
                let v = u64_any(s);
                let x = ref_ilint_form(v, 1 + s.usize(9));
                size = x.len() as u64;
                h.extend(x);
            } else {
                size = implicit_size(id).unwrap() as u64;
            }
        }
        if (pos as u128) + (hs as u128) + (size as u128) > u64::MAX as u128 {
            break;
        }
        parts.push((pos, h));
        spans.push(Span {
            id,
            start: pos,
            value: pos + hs,
            end: pos + hs + size,
        });
        pos += hs + size;
        if pos > 1 << 32 {
            beyond = true;
        }
    }
    if beyond {
        ctx.nontrivial();
        ctx.class("beyond 4 GiB");
    }
    ctx.describe(|| format!("{:?}", spans));
    let cut = s.chance(1, 4);
    let len = if cut { pos - 1 - s.below(pos.min(2000)) } else { pos };
    let mut r = Sparse { parts, len, pos: 0 };
    let mut sc = RawTagScanner::new(&mut r);
    for w in &spans {
        let got = sc.next_tag();
        if w.end > len {
            ensure!(
                got.is_err() || matches!(got, Ok(None)),
                "a tag that extends beyond the data was reported: {:?} of {} bytes",
                got,
                len
            );
            return Ok(());
        }
        match got {
            Ok(Some(t)) => check_span(&t, w)?,
            x => return Err(format!("{:?} was not found: {:?}", w, x)),
        }
    }
    let end = sc.next_tag();
    ensure!(!matches!(end, Ok(Some(_))), "a tag after the end: {:?}", end);
    Ok(())
}

fn c16_ids(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(false);
    let n = 1 + s.usize(6);
    let mut b = Vec::new();
    for _ in 0..n {
        b.extend(raw_tag(s, &reg));
    }
    if n >= 2 {
        ctx.nontrivial();
    }
    if s.chance(1, 5) {
        let c = s.usize(b.len() + 1);
        b.truncate(c);
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let mut r = ByteArrayReader::new(&b);
    let mut sc = RawTagScanner::new(&mut r);
    let mut p = 0usize;
    for _ in 0..n {
        let want = scan_one(&b[p..], p as u64);
        let id = match &want {
            Ok(w) => w.id,
            Err(_) => 17,
        };
        if s.chance(1, 3) {
            match (sc.next_tag(), want) {
                (Ok(Some(t)), Ok(w)) => {
                    check_span(&t, &w)?;
                    p = w.end as usize;
                }
                (Err(_), Err(_)) | (Ok(None), Err(_)) => return Ok(()),
                (a, b) => return Err(format!("next_tag(): {:?}, expected {:?}", a, b)),
            }
            continue;
        }
        let asked = match s.below(6) {
            0 => id.wrapping_add(1),
            1 => id ^ (1 << s.below(64)),
            2 => u64_any(s),
            _ => id,
        };
        match (sc.next_tag_if_id(asked), want) {
            (Ok(Some(t)), Ok(w)) => {
                ensure_eq!(w.id, asked, "next_tag_if_id() accepted another identifier");
                check_span(&t, &w)?;
                ctx.class("accepted");
                p = w.end as usize;
            }
            (Err(ErrorKind::UnexpectedTagType), Ok(w)) => {
                ensure!(w.id != asked, "next_tag_if_id({}) refused a matching tag", asked);
                ctx.class("refused");
                // The data was consumed: what follows is reported where it is.
                p = w.end as usize;
            }
            (Err(_), Err(_)) | (Ok(None), Err(_)) => return Ok(()),
            (a, b) => return Err(format!("next_tag_if_id({}): {:?}, expected {:?}", asked, a, b)),
        }
    }
    Ok(())
}

//---------------------------------------------------------------------------------------
// C27
//---------------------------------------------------------------------------------------
/// Scans what is inside the value of a container, from `skip` bytes on.
fn inside(v: &[u8], skip: usize, seed: u64) -> std::result::Result<Vec<RawTagOffset>, String> {
    let mut out = Vec::new();
    let rk = RKS[(seed % 8) as usize];
    let (r, _) = read_with(rk, &v[skip..], seed, |r| -> R {
        let mut fr = FwdR(r);
        let mut sc = RawTagScanner::new(&mut fr);
        let mut p = skip;
        while p < v.len() {
            match sc.next_tag() {
                Ok(Some(t)) => {
                    p = skip + t.next_tag_offset() as usize;
                    // The count is a part of the value.
                    out.push(RawTagOffset::new(
                        t.id(),
                        t.offset() + skip as u64,
                        t.value_offset() - t.offset(),
                        t.value_size(),
                    ));
                }
                x => return Err(format!("scanning {}: {:?}", hex(v), x)),
            }
        }
        Ok(())
    });
    r?;
    Ok(out)
}

struct Walk<'a> {
    all: &'a [u8],
    seen: u64,
    deepest: usize,
    seed: u64,
}
impl<'a> Walk<'a> {
    /// `chain` are the offsets of the enclosing tags, each in the space of its parent's
    /// value; `abs` is the last one in the space of the whole.
    fn tag(&mut self, t: &T, chain: &mut Vec<RawTagOffset>, abs: RawTagOffset) -> R {
        self.deepest = self.deepest.max(chain.len());
        let v = abs.value_slice(self.all);
        let count = |v: &[u8]| ref_ilint_dec(v).map(|x| x.1).unwrap_or(0);
        let string = |x: &str| T::std(V::Str(x.to_string()));
        let (skip, children): (usize, Vec<T>) = match &t.v {
            V::Seq(x) => (0, x.clone()),
            V::Arr(x) => (count(v), x.clone()),
            V::Dict(m) => (
                count(v),
                m.iter().flat_map(|(k, t)| vec![string(k), t.clone()]).collect(),
            ),
            V::StrDict(m) => (
                count(v),
                m.iter().flat_map(|(k, x)| vec![string(k), string(x)]).collect(),
            ),
            _ => return Ok(()),
        };
        self.seed = mix(self.seed);
        let found = inside(v, skip, self.seed)?;
        ensure_eq!(found.len(), children.len(), "tags found in {}", show(t));
        let mut p = skip;
        for (f, c) in found.into_iter().zip(children) {
            let w = scan_one(&v[p..], p as u64).map_err(|_| "reference".to_string())?;
            check_span(&f, &w)?;
            p = w.end as usize;
            let mapped = match f.map_to_parent_space(&abs) {
                Ok(x) => x,
                Err(e) => return Err(format!("{:?} inside {:?} was refused: {:?}", f, abs, e)),
            };
            // One level at a time.
            let mut step = f;
            for q in chain.iter().rev() {
                step = step
                    .map_to_parent_space(q)
                    .map_err(|e| format!("{:?} inside {:?} was refused: {:?}", step, q, e))?;
            }
            ensure_eq!(step, mapped, "mapping level by level");
            let base = abs.value_offset();
            check_span(
                &mapped,
                &Span {
                    id: c.id,
                    start: base + w.start,
                    value: base + w.value,
                    end: base + w.end,
                },
            )?;
            ensure!(
                mapped.tag_slice(self.all) == &v[w.start as usize..w.end as usize],
                "slice of a nested tag"
            );
            ensure!(
                mapped.value_slice(self.all) == &v[w.value as usize..w.end as usize],
                "slice of the value of a nested tag"
            );
            let whole = dec_top(mapped.tag_slice(self.all));
            ensure!(whole == Some(c.clone()), "the slice of a nested tag is not {}", show(&c));
            self.seen += 1;
            chain.push(f);
            self.tag(&c, chain, mapped)?;
            chain.pop();
        }
        Ok(())
    }
}

fn dec_top(b: &[u8]) -> Option<T> {
    match dec(&Reg::std(false), b) {
        Ok((t, n)) if n == b.len() => Some(t),
        _ => None,
    }
}

fn c27_trees(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(false);
    let t = container(s, &reg, 120);
    let seed = s.any();
    let den = s.pick(&[1u64, 3, 1_000_000]);
    let (e, _) = enc_edit(&t, &mut |n, _, v, _| {
        let r = mix(seed ^ n as u64);
        (v, if r % den == 0 { 1 + (r >> 32) as usize % 9 } else { 0 })
    });
    let mut b = Vec::new();
    let before = s.usize(3);
    for _ in 0..before {
        b.extend(raw_tag(s, &reg));
    }
    let at = b.len();
    b.extend(&e);
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| format!("{} at {} of {}", show(&t), at, hex(&b)));
    let mut r = ByteArrayReader::new(&b);
    let mut sc = RawTagScanner::new(&mut r);
    for _ in 0..before {
        sc.next_tag().map_err(|e| format!("{:?}", e))?;
    }
    let top = match sc.next_tag() {
        Ok(Some(x)) => x,
        x => return Err(format!("{:?}", x)),
    };
    ensure_eq!(top.tag_start(), at, "start of the container");
    let mut w = Walk {
        all: &b,
        seen: 0,
        deepest: 0,
        seed,
    };
    w.tag(&t, &mut vec![top], top)?;
    ctx.extra += w.seen;
    if w.deepest >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn part(s: &mut Src, max: u64) -> u64 {
    let v = match s.below(4) {
        0 => s.below(40),
        1 => max.saturating_sub(s.below(40)),
        2 => u64_any(s),
        _ => s.any() >> s.below(64),
    };
    v.min(max)
}

fn c27_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    // A parent that designates something.
    let po = part(s, u64::MAX);
    let ph = s.below(19).min(u64::MAX - po);
    let pv = part(s, u64::MAX - po - ph);
    let parent = RawTagOffset::new(u64_any(s), po, ph, pv);
    // A child.
    let (co, ch, cv) = match s.below(4) {
        0 => {
            // Exactly at the end, or around it.
            let end = match s.below(4) {
                0 => pv,
                1 => pv.saturating_sub(1),
                2 => pv.saturating_add(1),
                _ => pv.saturating_add(ph),
            };
            let h = s.below(19).min(end);
            let v = part(s, end - h);
            (end - h - v, h, v)
        }
        1 => {
            let o = part(s, pv);
            let h = s.below(19).min(u64::MAX - o);
            (o, h, part(s, u64::MAX - o - h))
        }
        2 => (0, 0, pv),
        _ => {
            let o = part(s, u64::MAX);
            let h = s.below(19).min(u64::MAX - o);
            (o, h, part(s, u64::MAX - o - h))
        }
    };
    let id = u64_any(s);
    let child = RawTagOffset::new(id, co, ch, cv);
    let end = co + ch + cv;
    let fits = end <= pv;
    if end.abs_diff(pv) <= 1 {
        ctx.nontrivial();
    }
    ctx.class(if end == pv {
        "exact fit"
    } else if fits {
        "fits"
    } else {
        "does not fit"
    });
    ctx.describe(|| format!("{:?} in {:?}", child, parent));
    match child.map_to_parent_space(&parent) {
        Ok(m) => {
            ensure!(fits, "{:?} was accepted in {:?}", child, parent);
            let base = po + ph;
            check_span(
                &m,
                &Span {
                    id,
                    start: base + co,
                    value: base + co + ch,
                    end: base + end,
                },
            )
        }
        Err(e) => {
            ensure!(!fits, "{:?} was refused in {:?}: {:?}", child, parent, e);
            Ok(())
        }
    }
}

fn c27_accessors(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = part(s, u64::MAX);
    let h = part(s, (u64::MAX - o).min(40));
    let v = part(s, u64::MAX - o - h);
    let id = u64_any(s);
    let t = RawTagOffset::new(id, o, h, v);
    if o > u32::MAX as u64 || v > u32::MAX as u64 {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{:?}", t));
    let w = Span {
        id,
        start: o,
        value: o + h,
        end: o + h + v,
    };
    check_span(&t, &w)?;
    let c = t;
    ensure!(c == t, "a copy differs");
    for d in [
        RawTagOffset::new(id ^ 1, o, h, v),
        RawTagOffset::new(id, o ^ 1, h, v),
        RawTagOffset::new(id, o, h ^ 1, v),
        RawTagOffset::new(id, o, h, v ^ 1),
    ] {
        ensure!(d != t, "{:?} equals {:?}", d, t);
    }
    check_span(
        &RawTagOffset::default(),
        &Span {
            id: 0,
            start: 0,
            value: 0,
            end: 0,
        },
    )?;
    // On data.
    let n = s.usize(60);
    let b = s.bytes(n);
    let e = s.usize(n + 1);
    let p = s.usize(e + 1);
    let q = p + s.usize(e - p + 1);
    let t = RawTagOffset::new(id, p as u64, (q - p) as u64, (e - q) as u64);
    ensure!(t.tag_slice(&b) == &b[p..e], "tag_slice()");
    ensure!(t.value_slice(&b) == &b[q..e], "value_slice()");
    Ok(())
}
