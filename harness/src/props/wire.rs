//! C05, C06, C07, C15 and C28: tags and their encodings.
use super::*;
use crate::rio::*;
use il2_iltags::io::array::*;
use il2_iltags::io::ErrorKind as IoErr;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use super::decode::damage;
use std::any::Any;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            rule: "Tags of every type, with their own or arbitrary identifiers and nested content, are generated as values of a reference model, built in the library and serialized on every kind of writer; the bytes are compared with an independent encoder. Non-trivial: the value is not the default one.",
            assumptions: &[],
            suites: vec![
                sweep("every type and identifier", 30 * 40, 30 * 40, c05_types),
                random("random tags", 60_000, 30_000_000, c05_random),
                random("one tag on every writer", 8_000, 2_000_000, c05_writers),
            ],
        },
        Property {
            id: "C06",
            rule: "Tags are generated, built and then changed up to 6 times (the tag or one nested in it, through every setter and mutable reference); after each step value_size() and size() are compared with the number of bytes written. Non-trivial: at least one change was made.",
            assumptions: &[],
            suites: vec![
                random("histories of changes", 60_000, 30_000_000, c06),
                random("decoding over an existing tag", 60_000, 30_000_000, c06_decodes),
            ],
        },
        Property {
            id: "C07",
            rule: "One to four tags a generated factory knows are written back to back, followed by unrelated bytes, and read on every kind of reader by strict and non-strict factories; compared by type, identifier, value and re-serialization. Non-trivial: some value is not the default one.",
            assumptions: &[],
            suites: vec![
                random("back to back", 40_000, 20_000_000, c07_random),
                random("one tag on every reader", 6_000, 2_000_000, c07_readers),
                sweep("every type and identifier", 30 * 40, 30 * 40, c07_types),
            ],
        },
        Property {
            id: "C15",
            rule: "Pairs of tags are generated: independent constructions of the same value, different types with the same encoding, values one change apart, and unrelated ones; equality is compared with equality of the reference encodings. Clones are compared with their originals, and one of the two is then changed. Non-trivial: the tags are not default ones.",
            assumptions: &["A tag that cannot be serialized is one whose serialize_value() returns an error."],
            suites: vec![
                random("pairs", 50_000, 20_000_000, c15_pairs),
                random("clones", 30_000, 15_000_000, c15_clones),
                random("tags that cannot be serialized", 5_000, 200_000, c15_fail),
            ],
        },
        Property {
            id: "C28",
            rule: "Strings of every length class and content are measured, written and read by the direct functions and by the string tag; encodings with wrong identifiers, cut, oversized, longer-than-minimal and invalid UTF-8 are read over an output that already has content. Non-trivial: the string is not empty.",
            assumptions: &[],
            suites: vec![
                random("strings", 60_000, 30_000_000, c28_strings),
                random("bytes", 120_000, 40_000_000, c28_bytes),
                sweep("lengths", 70_000, 140_000, c28_lengths),
            ],
        },
    ]
}

const IDS: [u64; 40] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22, 23, 26, 29, 30, 31, 32,
    247, 248, 249, 255, 256, 503, 504, 65783, 65784, 1 << 32, (1 << 32) + 17, u64::MAX - 1, u64::MAX,
];

/// The i-th pair of type and identifier, if it exists.
fn type_id(i: u64) -> Option<(Ty, u64)> {
    let ty = ALL_TYPES[(i % 30) as usize];
    let id = IDS[(i / 30 % 40) as usize];
    if !ty.any_id() && ty.default_id() != Some(id) {
        return None;
    }
    if matches!(ty, Ty::Raw | Ty::BigDec) && id <= 15 {
        return None;
    }
    Some((ty, id))
}

fn serialized(tag: &dyn ILTag, wk: WK, room: usize, seed: u64) -> std::result::Result<Vec<u8>, String> {
    let (r, b) = write_with(wk, room, seed, |w| tag.serialize(w));
    r.map_err(|e| format!("serialize() on {:?} failed: {:?}", wk, e))?;
    Ok(b)
}

fn c05_check(t: &T, wk: WK, slack: usize, seed: u64) -> R {
    let want = enc(t);
    let val = enc_value(&t.v);
    let tag = build(t);
    ensure_eq!(tag.id(), t.id, "id()");
    let b = serialized(tag.as_ref(), wk, want.len() + slack, seed)?;
    ensure_eq!(hex(&b), hex(&want), "bytes of {} on {:?}", show(t), wk);
    ensure!(b == want, "bytes of {} on {:?}", show(t), wk);
    let (r, b) = write_with(wk, val.len() + slack, seed, |w| tag.serialize_value(w));
    r.map_err(|e| format!("serialize_value() failed: {:?}", e))?;
    ensure!(b == val, "value of {} on {:?}: got {}, expected {}", show(t), wk, hex(&b), hex(&val));
    match tag.to_bytes() {
        Ok(b) => ensure!(b == want, "to_bytes() of {}: got {}, expected {}", show(t), hex(&b), hex(&want)),
        Err(e) => return Err(format!("to_bytes() of {} failed: {:?}", show(t), e)),
    }
    // Nothing changed in it.
    same(tag.as_ref(), t, "the tag after serializing it")
}

fn c05_types(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(30 * 40);
    let (ty, id) = match type_id(i) {
        Some(x) => x,
        None => return Ok(()),
    };
    ctx.nontrivial();
    ctx.key = Some(i);
    ctx.describe(|| format!("{:?} with identifier {}", ty, id));
    c05_check(&T::new(id, V::zero(ty)), wk_any(s), 0, s.any())?;
    let reg = Reg::std(false);
    for _ in 0..10 {
        let v = Gen::small(&reg).value(s, ty);
        c05_check(&T::new(id, v), wk_any(s), s.usize(3), s.any())?;
        ctx.extra += 1;
    }
    Ok(())
}
fn c05_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let mut t = if s.chance(1, 4) {
        container(s, &reg, 1500)
    } else {
        gen_tag(s, &reg)
    };
    rename(s, &mut t);
    classify(ctx, &t);
    if t.interesting() {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{} -> {}", show(&t), hex(&enc(&t))));
    c05_check(&t, wk_any(s), s.usize(3), s.any())
}
fn c05_writers(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let mut t = gen_tag(s, &reg);
    rename(s, &mut t);
    classify(ctx, &t);
    if t.interesting() {
        ctx.nontrivial();
    }
    let seed = s.any();
    ctx.describe(|| show(&t));
    for wk in WKS {
        c05_check(&t, wk, 0, seed)?;
        ctx.extra += 1;
    }
    Ok(())
}

fn c06_check(tag: &dyn ILTag, t: &T, when: &str) -> R {
    let mut w = VecWriter::new();
    tag.serialize_value(&mut w).map_err(|e| format!("{:?}", e))?;
    let vl = w.as_slice().len() as u64;
    ensure_eq!(tag.value_size(), vl, "value_size() {} of {}", when, show(t));
    let mut w = VecWriter::new();
    tag.serialize(&mut w).map_err(|e| format!("{:?}", e))?;
    let l = w.as_slice().len() as u64;
    ensure_eq!(tag.size(), l, "size() {} of {}", when, show(t));
    // And both are the real ones.
    ensure_eq!(vl, enc_value(&t.v).len() as u64, "bytes of the value {} of {}", when, show(t));
    ensure_eq!(l, enc(t).len() as u64, "bytes of the tag {} of {}", when, show(t));
    Ok(())
}
fn c06(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let mut t = if s.chance(1, 3) {
        container(s, &reg, 600)
    } else {
        gen_tag(s, &reg)
    };
    rename(s, &mut t);
    classify(ctx, &t);
    let mut tag = build(&t);
    ctx.describe(|| show(&t));
    c06_check(tag.as_ref(), &t, "after construction")?;
    let n = s.usize(7);
    for _ in 0..n {
        mutate(s, tag.as_mut(), &mut t, &reg);
        ctx.nontrivial();
        ctx.extra += 1;
        ctx.describe(|| show(&t));
        c06_check(tag.as_ref(), &t, "after a change")?;
    }
    Ok(())
}

/// The sizes of an instance that was decoded into, also by decodes that failed half way.
fn c06_decodes(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let f = factory(&reg);
    let mut t = match s.below(3) {
        0 => small_tag(s, &reg),
        _ => container(s, &reg, 200),
    };
    if t.ty().any_id() {
        t.id = explicit_id(s);
    }
    let (ty, id) = (t.ty(), t.id);
    let mut tag = build(&t);
    let mut known = true;
    classify(ctx, &t);
    ctx.describe(|| show(&t));
    for _ in 0..1 + s.usize(7) {
        if s.chance(1, 2) {
            // Announced before, so that a stale announcement can show.
            let _ = (tag.size(), tag.value_size());
        }
        let what = match s.below(5) {
            0 if known => {
                mutate(s, tag.as_mut(), &mut t, &reg);
                "after a change"
            }
            k => {
                let mut g = Gen::small(&reg);
                g.budget = 150;
                let n = T::new(id, g.value(s, ty));
                let mut b = enc(&n);
                if k < 3 {
                    damage(s, &mut b);
                    if s.chance(1, 3) {
                        let c = s.usize(b.len() + 1);
                        b.truncate(c);
                    }
                }
                let r = f.deserialize_into(&mut ByteArrayReader::new(&b), tag.as_mut());
                ctx.describe(|| format!("{} -> {:?}", hex(&b), r.is_ok()));
                known = b == enc(&n) && r.is_ok();
                ctx.class(if r.is_ok() { "decoded over" } else { "failed decode over" });
                if known {
                    t = n;
                }
                "after a decode"
            }
        };
        ctx.nontrivial();
        ctx.extra += 1;
        if known {
            c06_check(tag.as_ref(), &t, what)?;
            continue;
        }
        let mut w = VecWriter::new();
        tag.serialize_value(&mut w).map_err(|e| format!("{:?}", e))?;
        ensure_eq!(tag.value_size(), w.as_slice().len() as u64, "value_size() {}", what);
        let b = tag.to_bytes().map_err(|e| format!("{:?}", e))?;
        ensure_eq!(tag.size(), b.len() as u64, "size() {}", what);
        let (i, n) = ref_ilint_dec(&b).map_err(|e| format!("identifier {}: {:?}", what, e))?;
        ensure_eq!(i, id, "identifier {}", what);
        if id > 15 {
            let (l, m) = ref_ilint_dec(&b[n..]).map_err(|e| format!("size {}: {:?}", what, e))?;
            ensure_eq!(l, (b.len() - n - m) as u64, "declared size {}", what);
        }
    }
    Ok(())
}

/// Decodes `n` tags in a row.
fn decode_n(
    f: &dyn ILTagFactory,
    r: &mut dyn Reader,
    n: usize,
) -> std::result::Result<Vec<Box<dyn ILTag>>, String> {
    (0..n)
        .map(|i| f.deserialize(r).map_err(|e| format!("tag {} was not decoded: {:?}", i, e)))
        .collect()
}

fn c07_check(reg: &Reg, ts: &[T], tail: &[u8], rk: RK, seed: u64) -> R {
    let f = factory(reg);
    let mut b = Vec::new();
    let mut lens = Vec::new();
    // The bytes of the library.
    for t in ts {
        let mut w = VecWriter::new();
        build(t).serialize(&mut w).map_err(|e| format!("{:?}", e))?;
        b.extend_from_slice(w.as_slice());
        lens.push(w.as_slice().len());
    }
    let len = b.len();
    let whole = b.clone();
    b.extend_from_slice(tail);
    let (r, n) = read_with(rk, &b, seed, |r| decode_n(&f, r, ts.len()));
    let tags = r.map_err(|e| format!("{} (bytes {}, on {:?})", e, hex(&b), rk))?;
    ensure_eq!(n, len, "bytes consumed on {:?} of {}", rk, hex(&b));
    let mut p = 0;
    for ((tag, t), l) in tags.iter().zip(ts).zip(lens) {
        same(tag.as_ref(), t, "decoded tag")?;
        let again = tag.to_bytes().map_err(|e| format!("{:?}", e))?;
        ensure!(
            again == whole[p..p + l],
            "re-serialization of {}: got {}, expected {}",
            show(t),
            hex(&again),
            hex(&whole[p..p + l])
        );
        p += l;
    }
    Ok(())
}
fn c07_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let n = 1 + s.usize(4);
    let ts: Vec<T> = (0..n)
        .map(|_| {
            if s.chance(1, 4) {
                container(s, &reg, 800)
            } else {
                gen_tag(s, &reg)
            }
        })
        .collect();
    for t in &ts {
        classify(ctx, t);
        if t.interesting() {
            ctx.nontrivial();
        }
    }
    ctx.class(if reg.strict { "strict" } else { "non-strict" });
    let k = s.usize(20);
    let tail = s.bytes(k);
    ctx.describe(|| ts.iter().map(show).collect::<Vec<_>>().join(", "));
    c07_check(&reg, &ts, &tail, rk_any(s), s.any())
}
fn c07_readers(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let t = gen_tag(s, &reg);
    classify(ctx, &t);
    if t.interesting() {
        ctx.nontrivial();
    }
    ctx.describe(|| show(&t));
    let seed = s.any();
    let tail = s.bytes(2);
    for rk in RKS {
        c07_check(&reg, &[t.clone()], &tail, rk, seed)?;
        ctx.extra += 1;
    }
    Ok(())
}
fn c07_types(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(30 * 40);
    let (ty, id) = match type_id(i) {
        Some(x) if x.1 > 31 || x.0.default_id() == Some(x.1) => x,
        _ => return Ok(()),
    };
    ctx.nontrivial();
    ctx.key = Some(i);
    let mut reg = Reg::std(i % 2 == 0);
    reg.map.insert(id, ty);
    ctx.describe(|| format!("{:?} with identifier {}", ty, id));
    c07_check(&reg, &[T::new(id, V::zero(ty))], &[1], rk_any(s), s.any())?;
    for _ in 0..10 {
        let mut g = Gen::small(&reg);
        let v = g.value(s, ty);
        c07_check(&reg, &[T::new(id, v)], &[0, 1], rk_any(s), s.any())?;
        ctx.extra += 1;
    }
    Ok(())
}

//---------------------------------------------------------------------------------------
// C15
//---------------------------------------------------------------------------------------
/// Another type that may have the same encoding.
fn disguise(s: &mut Src, t: &T) -> T {
    let v = enc_value(&t.v);
    if t.id > 15 {
        match s.below(3) {
            0 => T::new(t.id, V::Raw(v)),
            1 => T::new(t.id, V::PayA(v)),
            _ => match String::from_utf8(v.clone()) {
                Ok(x) => T::new(t.id, V::Str(x)),
                Err(_) => T::new(t.id, V::Raw(v)),
            },
        }
    } else {
        match String::from_utf8(v.clone()) {
            Ok(x) => T::new(t.id, V::Str(x)),
            Err(_) => T::new(t.id, V::PayA(v)),
        }
    }
}

fn c15_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let mut a = if s.chance(1, 3) {
        container(s, &reg, 300)
    } else {
        small_tag(s, &reg)
    };
    rename(s, &mut a);
    let ta = build(&a);
    let mut tb;
    let b = match s.below(6) {
        0 => {
            tb = build(&a);
            a.clone()
        }
        1 => {
            let b = disguise(s, &a);
            tb = build(&b);
            b
        }
        2 => {
            let mut b = a.clone();
            if b.ty().any_id() {
                b.id = match s.below(3) {
                    0 => explicit_id(s),
                    1 => (b.id ^ (1 << s.below(64))).max(16),
                    _ => b.id.wrapping_add(1 << 32).max(16),
                };
            }
            tb = build(&b);
            b
        }
        3 => {
            let b = if s.chance(1, 2) { vary(s, &a) } else { small_tag(s, &reg) };
            tb = build(&b);
            b
        }
        _ => {
            let mut b = a.clone();
            tb = build(&b);
            let n = 1 + s.usize(2);
            for _ in 0..n {
                mutate(s, tb.as_mut(), &mut b, &reg);
            }
            b
        }
    };
    let (ea, eb) = (enc(&a), enc(&b));
    let want = ea == eb;
    ctx.class(if want { "equal" } else { "different" });
    if want && a.ty() != b.ty() {
        ctx.class("equal across types");
    }
    if a.interesting() || b.interesting() {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{} and {}", show(&a), show(&b)));
    let (ra, rb) = (ta.as_ref(), tb.as_ref());
    ensure_eq!(iltag_are_equal(ra, rb), want, "equality of {} and {}", show(&a), show(&b));
    ensure_eq!(iltag_are_equal(rb, ra), want, "symmetric equality of {} and {}", show(&a), show(&b));
    ensure!(iltag_are_equal(ra, ra), "{} is not equal to itself", show(&a));
    ensure!(iltag_are_equal(rb, rb), "{} is not equal to itself", show(&b));
    Ok(())
}

fn c15_clones(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let mut a = if s.chance(1, 3) {
        container(s, &reg, 300)
    } else {
        small_tag(s, &reg)
    };
    // The factory may know the tag, know it as another type, or not know it.
    if s.chance(1, 3) {
        rename(s, &mut a);
    }
    let known = if s.chance(1, 4) { reg_any(s) } else { reg.clone() };
    let mut ta = build(&a);
    if a.interesting() {
        ctx.nontrivial();
    }
    ctx.describe(|| show(&a));
    let e = enc(&a);
    let std = s.chance(1, 4);
    let want_reg = if std { Reg::std(false) } else { known.clone() };
    let want = match dec(&want_reg, &e) {
        Ok((t, n)) if n == e.len() => Some(t),
        _ => None,
    };
    let got = if std {
        iltag_clone(ta.as_ref())
    } else {
        iltag_clone_with_factory(&factory(&known), ta.as_ref())
    };
    ctx.class(if want.is_some() { "clonable" } else { "not clonable" });
    let mut c = match (got, &want) {
        (Err(_), None) => return same(ta.as_ref(), &a, "the original"),
        (Ok(c), None) => {
            return Err(format!(
                "a factory that cannot decode {} cloned it to {:?}",
                show(&a),
                model(c.as_ref())
            ))
        }
        (Err(e), Some(_)) => return Err(format!("{} was not cloned: {:?}", show(&a), e)),
        (Ok(c), Some(_)) => c,
    };
    let mut w = want.unwrap();
    same(ta.as_ref(), &a, "the original after cloning it")?;
    same(c.as_ref(), &w, "the clone")?;
    if enc(&w) == e {
        ensure!(
            iltag_are_equal(ta.as_ref(), c.as_ref()),
            "the clone of {} is not equal to it",
            show(&a)
        );
    }
    // They share nothing.
    if s.chance(1, 2) {
        mutate(s, c.as_mut(), &mut w, &reg);
        same(ta.as_ref(), &a, "the original after changing its clone")?;
    } else {
        mutate(s, ta.as_mut(), &mut a, &reg);
        same(c.as_ref(), &w, "the clone after changing its original")?;
    }
    ensure_eq!(
        iltag_are_equal(ta.as_ref(), c.as_ref()),
        enc(&a) == enc(&w),
        "equality of {} and {} after a change",
        show(&a),
        show(&w)
    );
    drop(ta);
    same(c.as_ref(), &w, "the clone after dropping its original")
}

/// A tag that cannot be serialized beyond some point.
struct FailTag {
    id: u64,
    after: Vec<u8>,
    kind: u64,
}
impl ILTag for FailTag {
    fn id(&self) -> u64 {
        self.id
    }
    fn value_size(&self) -> u64 {
        self.after.len() as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> {
        w.write_all(&self.after)?;
        Err(match self.kind {
            0 => ErrorKind::UnableToSerialize,
            1 => ErrorKind::IOError(IoErr::UnableToWriteData),
            2 => ErrorKind::CorruptedData,
            _ => ErrorKind::IOError(IoErr::EndOfData),
        })
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> Result<()> {
        Err(ErrorKind::UnsupportedTag)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}

fn fail_tag(s: &mut Src, id: u64, after: &[u8]) -> Box<dyn ILTag> {
    let f: Box<dyn ILTag> = Box::new(FailTag {
        id,
        after: after.to_vec(),
        kind: s.below(4),
    });
    let mut t = f;
    let n = s.usize(4);
    for _ in 0..n {
        t = match s.below(3) {
            0 => {
                let mut x = ILTagSeqTag::new();
                x.mut_value().push(t);
                if s.chance(1, 2) {
                    x.mut_value().push(Box::new(ILNullTag::new()));
                }
                Box::new(x)
            }
            1 => {
                let mut x = ILTagArrayTag::new();
                x.mut_value().push(t);
                Box::new(x)
            }
            _ => {
                let mut x = ILDictTag::new();
                x.insert("k", t);
                Box::new(x)
            }
        };
    }
    t
}

fn c15_fail(s: &mut Src, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    let id = explicit_id(s);
    let n = s.usize(5);
    let after = s.bytes(n);
    let a = fail_tag(s, id, &after);
    let b = fail_tag(s, id, &after);
    // What would have been written without the failure.
    let raw = build(&T::new(id, V::Raw(after.clone())));
    let reg = Reg::std(false);
    let x = build(&small_tag(s, &reg));
    ctx.describe(|| format!("id {} failing after {}", id, hex(&after)));
    ensure!(a.to_bytes().is_err(), "to_bytes() hides the error of serialize_value()");
    ensure!(!iltag_are_equal(a.as_ref(), a.as_ref()), "a tag that cannot be serialized equals itself");
    ensure!(
        !iltag_are_equal(a.as_ref(), b.as_ref()),
        "two tags that cannot be serialized are equal"
    );
    for o in [raw.as_ref(), x.as_ref()] {
        ensure!(
            !iltag_are_equal(a.as_ref(), o) && !iltag_are_equal(o, a.as_ref()),
            "a tag that cannot be serialized equals one that can"
        );
        ensure!(iltag_are_equal(o, o), "a tag is not equal to itself");
    }
    ensure!(iltag_clone(a.as_ref()).is_err(), "a tag that cannot be serialized was cloned");
    Ok(())
}

//---------------------------------------------------------------------------------------
// C28
//---------------------------------------------------------------------------------------
fn c28_string(st: &str, wk: WK, rk: RK, seed: u64, old: &str) -> R {
    let want = enc(&T::std(V::Str(st.to_string())));
    ensure_eq!(string_tag_size_from_value(st), want.len() as u64, "string_tag_size_from_value() of {} bytes", st.len());
    let (r, b) = write_with(wk, want.len(), seed, |w| serialize_string_tag_from_value(st, w));
    r.map_err(|e| format!("writing {} bytes on {:?} failed: {:?}", st.len(), wk, e))?;
    ensure!(b == want, "bytes on {:?}: got {}, expected {}", wk, hex(&b), hex(&want));
    let t = ILStringTag::with_value(st);
    ensure_eq!(t.size(), want.len() as u64, "size() of the tag");
    ensure!(t.to_bytes().ok() == Some(want.clone()), "bytes of the tag");
    let mut long = want.clone();
    long.extend_from_slice(&[17, 1, b'x']);
    let (r, n) = read_with(rk, &long, seed, |r| deserialize_string_tag_from_value(r));
    ensure!(r.as_deref().ok() == Some(st), "reading {:?} on {:?}: {:?}", st, rk, r);
    ensure_eq!(n, want.len(), "bytes consumed on {:?}", rk);
    let mut o = old.to_string();
    let (r, n) = read_with(rk, &long, seed, |r| deserialize_string_tag_from_value_into(r, &mut o));
    ensure!(r.is_ok(), "reading into a string failed: {:?}", r);
    ensure!(o == st, "reading {:?} over {:?} left {:?}", st, old, o);
    ensure_eq!(n, want.len(), "bytes consumed on {:?}", rk);
    let f = ILStandardTagFactory::new(true);
    let back = f.from_bytes(&b).map_err(|e| format!("{:?}", e))?;
    same(back.as_ref(), &T::std(V::Str(st.to_string())), "the tag over the same bytes")
}
fn c28_strings(s: &mut Src, ctx: &mut Ctx) -> R {
    let st = string_any(s, 70_000);
    let old = if s.chance(1, 6) {
        vary_text(s, &st)
    } else if s.chance(1, 12) { "o".repeat((s.hint() % (1 << 17)) as usize) } else { string_any(s, 600) };
    if !st.is_empty() {
        ctx.nontrivial();
    }
    ctx.class(if st.is_ascii() { "ASCII" } else { "not ASCII" });
    ctx.key = Some(hash_bytes(st.as_bytes()));
    ctx.describe(|| format!("{:?} over {:?}", clip(&st, 60), clip(&old, 60)));
    c28_string(&st, wk_any(s), rk_any(s), s.any(), &old)
}
fn c28_lengths(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.index(140_000) as usize;
    if n > 0 {
        ctx.nontrivial();
    }
    ctx.key = Some(n as u64);
    ctx.describe(|| format!("{} bytes", n));
    let st = "a".repeat(n);
    let want = 1 + ref_ilint_size(n as u64) as u64 + n as u64;
    ensure_eq!(string_tag_size_from_value(&st), want, "string_tag_size_from_value() of {} bytes", n);
    ensure_eq!(ILStringTag::with_value(&st).size(), want, "size() of the tag of {} bytes", n);
    if n < 1200 || (65_700..65_900).contains(&n) {
        c28_string(&st, wk_any(s), rk_any(s), s.any(), "old")?;
    }
    Ok(())
}
fn c28_bytes(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut st = string_any(s, 300).into_bytes();
    if s.chance(1, 3) && !st.is_empty() {
        let i = s.usize(st.len());
        st[i] = s.below(256) as u8;
    }
    let id = if s.chance(1, 3) {
        s.pick(&[16u64, 18, 0, 31, 273, 17 + (1 << 32), 17 + 65536, 17 + (1 << 16), 32, u64::MAX])
    } else {
        17
    };
    let len = st.len() as u64;
    let decl = match s.below(6) {
        0 => len + 1 + s.below(3),
        1 => len.saturating_sub(1 + s.below(3)),
        2 => s.pick(&[MAX + 1, 1 << 32, (1 << 32) + len, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) + len]),
        _ => len,
    };
    let mut b = ref_ilint_form(id, 1 + s.usize(9));
    b.extend(ref_ilint_form(decl, 1 + s.usize(9)));
    b.extend(&st);
    if s.chance(1, 5) {
        let n = s.usize(b.len() + 1);
        b.truncate(n);
    } else if s.chance(1, 3) {
        b.push(s.below(256) as u8);
    }
    // The reference reading.
    let want: std::result::Result<(String, usize), DErr> = (|| {
        let (id, n) = ref_ilint_dec(&b)?;
        if id != 17 {
            return Err(DErr::Bad);
        }
        let (l, m) = ref_ilint_dec(&b[n..])?;
        if l > MAX {
            return Err(DErr::TooLarge);
        }
        let p = n + m;
        if l > (b.len() - p) as u64 {
            return Err(DErr::Bad);
        }
        let e = p + l as usize;
        Ok((
            std::str::from_utf8(&b[p..e]).map_err(|_| DErr::Bad)?.to_string(),
            e,
        ))
    })();
    ctx.class(match &want {
        Ok(_) => "accepted",
        Err(DErr::TooLarge) => "too large",
        Err(_) => "refused",
    });
    if !st.is_empty() {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let (rk, seed) = (rk_any(s), s.any());
    let (r, n) = read_with(rk, &b, seed, |r| deserialize_string_tag_from_value(r));
    let old = if s.chance(1, 12) { "o".repeat((s.hint() % (1 << 15)) as usize) } else { string_any(s, 60) };
    let mut o = old.clone();
    let (r2, n2) = read_with(rk, &b, seed, |r| deserialize_string_tag_from_value_into(r, &mut o));
    ensure_eq!(r.as_ref().ok(), want.as_ref().ok().map(|x| &x.0), "string tag over {} on {:?}", hex(&b), rk);
    ensure_eq!(r2.is_ok(), want.is_ok(), "reading {} into a string on {:?}", hex(&b), rk);
    match &want {
        Ok((st, e)) => {
            ensure_eq!(n, *e, "bytes consumed of {} on {:?}", hex(&b), rk);
            ensure_eq!(n2, *e, "bytes consumed of {} on {:?}", hex(&b), rk);
            ensure!(o == *st, "reading over {:?} left {:?}, expected {:?}", old, o, st);
        }
        Err(DErr::TooLarge) => {
            ensure!(
                matches!(r, Err(ErrorKind::TagTooLarge)) && matches!(r2, Err(ErrorKind::TagTooLarge)),
                "an oversized string tag was not refused as too large: {:?}, {:?}",
                r,
                r2
            );
        }
        Err(_) => (),
    }
    // The object agrees.
    let f = ILStandardTagFactory::new(true);
    let mut rd = ByteArrayReader::new(&b);
    let mut t = ILStringTag::with_value(&old);
    let r3 = f.deserialize_into(&mut rd, &mut t);
    ensure_eq!(r3.is_ok(), want.is_ok(), "the string tag over {}", hex(&b));
    if let Ok((st, _)) = &want {
        ensure_eq!(t.value(), st.as_str(), "value of the string tag");
    }
    Ok(())
}
