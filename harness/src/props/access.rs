//! C24: accessors and constructors. C25: downcasts and assertions.
use super::*;
use il2_iltags::tags::payload::{ILGenericPayloadTag, ILTagPayload};
use il2_iltags::tags::standard::*;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C24",
            rule: "A tag of any type is made with one of its constructors and changed up to 8 times through setters, mutable references and changes inside nested tags; after each step every accessor, the size and the bytes are compared with a model, and at the end with a tag freshly built with the final value. Non-trivial: at least two changes of the value, or a tag built in another way than with its final value.",
            assumptions: &["the model of the accessors is the plain value last set"],
            suites: vec![
                random("histories", 300_000, 100_000_000, c24),
                random("constructors", 100_000, 30_000_000, c24_constructors),
                random("long vectors and strings", 20_000, 4_000_000, c24_long),
            ],
        },
        Property {
            id: "C25",
            rule: "Every type, with identifiers that differ from one another in few bits, is asked as every other type with every one of those identifiers through each downcast and assertion, before and after changes; identifiers are classified exhaustively from 0 and around every power of two. Non-trivial: requests with a wrong type or a wrong identifier besides the one that matches; identifiers above 31.",
            assumptions: &[],
            suites: vec![
                sweep("types and identifiers", 30 * 40, 30 * 40, c25_matrix),
                random("tags", 60_000, 20_000_000, c25_tags),
                sweep("small identifiers", 200_000, 20_000_000, c25_small_ids),
                random("identifiers", 300_000, 100_000_000, c25_ids),
            ],
        },
    ]
}

//---------------------------------------------------------------------------------------
// C24
//---------------------------------------------------------------------------------------
/// Builds a tag with one of its constructors. Returns what it must be.
fn construct(s: &mut Src, ty: Ty, id: u64, v: &V) -> (Box<dyn ILTag>, T, &'static str) {
    let how = s.below(7);
    let std = ty.default_id().unwrap_or(id);
    let zero = V::zero(ty);
    macro_rules! four {
        ($t:ty, $v:expr) => {
            match how {
                0 => (Box::new(<$t>::new()) as Box<dyn ILTag>, T::new(std, zero), "new()"),
                1 => (Box::new(<$t>::default()), T::new(std, zero), "default()"),
                2 => (Box::new(<$t>::with_value($v)), T::new(std, v.clone()), "with_value()"),
                3 => (Box::new(<$t>::with_id(id)), T::new(id, zero), "with_id()"),
                4 => (Box::new(<$t>::default_with_id(id)), T::new(id, zero), "default_with_id()"),
                _ => (
                    Box::new(<$t>::with_id_value(id, $v)),
                    T::new(id, v.clone()),
                    "with_id_value()",
                ),
            }
        };
    }
    macro_rules! plain {
        ($t:ty) => {
            match how {
                0 => (Box::new(<$t>::new()) as Box<dyn ILTag>, T::new(std, zero), "new()"),
                1 => (Box::new(<$t>::default()), T::new(std, zero), "default()"),
                2 | 3 => (Box::new(<$t>::with_id(id)), T::new(id, zero), "with_id()"),
                _ => (Box::new(<$t>::default_with_id(id)), T::new(id, zero), "default_with_id()"),
            }
        };
    }
    macro_rules! bytes {
        ($t:ty, $v:expr) => {
            match how {
                0 => (Box::new(<$t>::new()) as Box<dyn ILTag>, T::new(std, zero), "new()"),
                1 => (Box::new(<$t>::default()), T::new(std, zero), "default()"),
                _ => (Box::new(<$t>::with_value($v)), T::new(std, v.clone()), "with_value()"),
            }
        };
    }
    match v {
        V::Null => plain!(ILNullTag),
        V::Bool(x) => four!(ILBoolTag, *x),
        V::I8(x) => four!(ILInt8Tag, *x),
        V::U8(x) => four!(ILUInt8Tag, *x),
        V::I16(x) => four!(ILInt16Tag, *x),
        V::U16(x) => four!(ILUInt16Tag, *x),
        V::I32(x) => four!(ILInt32Tag, *x),
        V::U32(x) => four!(ILUInt32Tag, *x),
        V::I64(x) => four!(ILInt64Tag, *x),
        V::U64(x) => four!(ILUInt64Tag, *x),
        V::ILInt(x) => four!(ILILInt64Tag, *x),
        V::SILInt(x) => four!(ILSignedILInt64Tag, *x),
        V::F32(x) => four!(ILBin32Tag, f32::from_bits(*x)),
        V::F64(x) => four!(ILBin64Tag, f64::from_bits(*x)),
        V::F128(x) => four!(ILBin128Tag, x),
        V::Str(x) => four!(ILStringTag, x),
        V::ILIntArr(x) => four!(ILILIntArrayTag, x),
        V::Oid(x) => four!(ILOIDTag, x),
        V::Bytes(x) => match how {
            5 => (
                Box::new(ILByteArrayTag::with_capacity(x.len())) as Box<dyn ILTag>,
                T::new(std, zero),
                "with_capacity()",
            ),
            _ => bytes!(ILByteArrayTag, x),
        },
        V::BigInt(x) => bytes!(ILBigIntTag, x),
        V::BigDec(sc, x) => match how {
            0 => (Box::new(ILBigDecTag::new()) as Box<dyn ILTag>, T::new(std, zero), "new()"),
            1 => (Box::new(ILBigDecTag::default()), T::new(std, zero), "default()"),
            2 => (Box::new(ILBigDecTag::with_value(*sc, x)), T::new(std, v.clone()), "with_value()"),
            3 => (Box::new(ILBigDecTag::with_id(id)), T::new(id, zero), "with_id()"),
            4 => (Box::new(ILBigDecTag::default_with_id(id)), T::new(id, zero), "default_with_id()"),
            _ => (
                Box::new(ILBigDecTag::with_id_value(id, *sc, x)),
                T::new(id, v.clone()),
                "with_id_value()",
            ),
        },
        V::Range(a, c) => match how {
            0 => (Box::new(ILRangeTag::new()) as Box<dyn ILTag>, T::new(std, zero), "new()"),
            1 => (Box::new(ILRangeTag::default()), T::new(std, zero), "default()"),
            2 => (Box::new(ILRangeTag::with_value(*a, *c)), T::new(std, v.clone()), "with_value()"),
            3 => (Box::new(ILRangeTag::with_id(id)), T::new(id, zero), "with_id()"),
            4 => (Box::new(ILRangeTag::default_with_id(id)), T::new(id, zero), "default_with_id()"),
            _ => (
                Box::new(ILRangeTag::with_id_value(id, *a, *c)),
                T::new(id, v.clone()),
                "with_id_value()",
            ),
        },
        V::Ver(x) => match how {
            0 => (Box::new(ILVersionTag::new()) as Box<dyn ILTag>, T::new(std, zero), "new()"),
            1 => (Box::new(ILVersionTag::default()), T::new(std, zero), "default()"),
            2 => (
                Box::new(ILVersionTag::with_value(x[0], x[1], x[2], x[3])),
                T::new(std, v.clone()),
                "with_value()",
            ),
            3 => (
                Box::new(ILVersionTag::with_value_from_slice(x)),
                T::new(std, v.clone()),
                "with_value_from_slice()",
            ),
            4 => (
                Box::new(ILVersionTag::with_id_value(id, x[0], x[1], x[2], x[3])),
                T::new(id, v.clone()),
                "with_id_value()",
            ),
            5 => (
                Box::new(ILVersionTag::with_id_value_from_slice(id, x)),
                T::new(id, v.clone()),
                "with_id_value_from_slice()",
            ),
            _ => (Box::new(ILVersionTag::with_id(id)), T::new(id, zero), "with_id()"),
        },
        V::Arr(_) => plain!(ILTagArrayTag),
        V::Seq(_) => plain!(ILTagSeqTag),
        V::Dict(_) => plain!(ILDictTag),
        V::StrDict(_) => plain!(ILStrDictTag),
        V::Raw(x) => match how {
            0 | 1 => (Box::new(ILRawTag::new(id)) as Box<dyn ILTag>, T::new(id, zero), "new()"),
            2 => (
                Box::new(ILRawTag::with_capacity(id, x.len())),
                T::new(id, zero),
                "with_capacity()",
            ),
            3 => (Box::new(ILRawTag::default_with_id(id)), T::new(id, zero), "default_with_id()"),
            _ => (Box::new(ILRawTag::with_value(id, x)), T::new(id, v.clone()), "with_value()"),
        },
        V::PayA(_) => match how {
            0..=3 => (Box::new(PayATag::new(id)) as Box<dyn ILTag>, T::new(id, zero), "new()"),
            _ => (Box::new(PayATag::default_with_id(id)), T::new(id, zero), "default_with_id()"),
        },
        V::PayB(..) => match how {
            0..=3 => (Box::new(PayBTag::new(id)) as Box<dyn ILTag>, T::new(id, zero), "new()"),
            _ => (Box::new(PayBTag::default_with_id(id)), T::new(id, zero), "default_with_id()"),
        },
    }
}

fn verify(tag: &dyn ILTag, t: &T, log: &str) -> R {
    ensure_eq!(tag.id(), t.id, "id() after{}", log);
    same(tag, t, &format!("accessors after{}", log))?;
    let want = enc(t);
    ensure_eq!(tag.size(), want.len() as u64, "size() of {} after{}", show(t), log);
    ensure_eq!(tag.value_size(), enc_value(&t.v).len() as u64, "value_size() of {} after{}", show(t), log);
    ensure_eq!(
        (tag.is_implicity(), tag.is_reserved()),
        (t.id < 16, t.id < 32),
        "is_implicity(), is_reserved() of {} after{}",
        show(t),
        log
    );
    let got = tag.to_bytes().map_err(|e| format!("to_bytes() of {}: {:?}", show(t), e))?;
    ensure!(got == want, "to_bytes() of {} after{}: {}, expected {}", show(t), log, hex(&got), hex(&want));
    Ok(())
}

/// Types with a length in all their forms: they refuse identifiers of implicit tags.
fn no_implicit(ty: Ty) -> bool {
    matches!(ty, Ty::Raw | Ty::BigDec)
}

/// An identifier that instances of a type may have.
fn id_for(s: &mut Src, ty: Ty) -> u64 {
    match ty.default_id() {
        Some(id) if !ty.any_id() || s.chance(1, 2) => id,
        _ => {
            if no_implicit(ty) || s.chance(5, 6) {
                explicit_id(s)
            } else {
                s.below(16)
            }
        }
    }
}

/// Changes a vector in place and its model in the same way.
fn vec_edit<X: Clone>(s: &mut Src, v: &mut Vec<X>, m: &mut Vec<X>, mut new: impl FnMut(&mut Src) -> X) -> &'static str {
    match s.below(8) {
        0 => {
            let x = new(s);
            v.push(x.clone());
            m.push(x);
            "push"
        }
        1 => {
            v.pop();
            m.pop();
            "pop"
        }
        2 => {
            v.clear();
            m.clear();
            "clear"
        }
        3 => {
            let n = s.usize(m.len() + 1);
            v.truncate(n);
            m.truncate(n);
            "truncate"
        }
        4 if !m.is_empty() => {
            let i = s.usize(m.len());
            let x = new(s);
            v[i] = x.clone();
            m[i] = x;
            "replace an element"
        }
        5 => {
            let i = s.usize(m.len() + 1);
            let x = new(s);
            v.insert(i, x.clone());
            m.insert(i, x);
            "insert"
        }
        6 => {
            v.reverse();
            m.reverse();
            "reverse"
        }
        _ => {
            let n = s.usize(260);
            let x = new(s);
            v.resize(n, x.clone());
            m.resize(n, x);
            "resize"
        }
    }
}

/// A partial change, of one component.
fn partial(s: &mut Src, tag: &mut dyn ILTag, t: &mut T, reg: &Reg) -> std::result::Result<&'static str, String> {
    macro_rules! m {
        ($t:ty) => {
            tag_downcast_mut::<$t>(tag).ok_or("the type of the tag changed")?
        };
    }
    Ok(match &mut t.v {
        V::Ver(x) => {
            let r = m!(ILVersionTag);
            let n = i64_any(s) as i32;
            let i = s.usize(4);
            match i {
                0 => r.set_major(n),
                1 => r.set_minor(n),
                2 => r.set_revision(n),
                _ => r.set_build(n),
            }
            x[i] = n;
            ["set_major", "set_minor", "set_revision", "set_build"][i]
        }
        V::Range(a, c) => {
            let r = m!(ILRangeTag);
            if s.chance(1, 2) {
                *a = u64_any(s);
                r.set_start(*a);
                "set_start"
            } else {
                *c = u64_any(s) as u16;
                r.set_count(*c);
                "set_count"
            }
        }
        V::BigDec(sc, x) => {
            let r = m!(ILBigDecTag);
            if s.chance(1, 2) {
                *sc = i64_any(s) as i32;
                r.set_scale(*sc);
                "set_scale"
            } else {
                vec_edit(s, r.mut_value(), x, |s| s.below(256) as u8)
            }
        }
        V::Bytes(x) => vec_edit(s, m!(ILByteArrayTag).mut_value(), x, |s| s.below(256) as u8),
        V::BigInt(x) => vec_edit(s, m!(ILBigIntTag).mut_value(), x, |s| s.below(256) as u8),
        V::Raw(x) => vec_edit(s, m!(ILRawTag).mut_value(), x, |s| s.below(256) as u8),
        V::ILIntArr(x) => vec_edit(s, m!(ILILIntArrayTag).mut_value(), x, u64_any),
        V::Oid(x) => vec_edit(s, m!(ILOIDTag).mut_value(), x, u64_any),
        V::PayA(x) => vec_edit(s, &mut m!(PayATag).mut_payload().data, x, |s| s.below(256) as u8),
        V::Str(x) => {
            let r = m!(ILStringTag).mut_value();
            match s.below(4) {
                0 => {
                    let n = s.usize(5);
                    let y = string_len(s, n);
                    r.push_str(&y);
                    x.push_str(&y);
                    "push_str"
                }
                1 => {
                    r.pop();
                    x.pop();
                    "pop"
                }
                2 => {
                    r.clear();
                    x.clear();
                    "clear"
                }
                _ => {
                    let y = r.to_uppercase();
                    *r = y.clone();
                    *x = y;
                    "replace"
                }
            }
        }
        V::StrDict(x) => {
            let r = m!(ILStrDictTag);
            let k = match x.keys().nth(s.usize(x.len() + 1)) {
                Some(k) => k.clone(),
                None => key_any(s),
            };
            if s.chance(1, 3) {
                ensure_eq!(r.mut_value().remove(&k), x.remove(&k), "removed value of {:?}", k);
                "remove"
            } else {
                let v = string_any(s, 300);
                let (a, b) = (r.insert(&k, &v), x.insert(k.clone(), v.clone()));
                ensure_eq!(a, b, "value replaced at {:?}", k);
                ensure_eq!(r.get(&k), Some(v.as_str()), "get({:?}) after insert()", k);
                "insert"
            }
        }
        _ => {
            mutate(s, tag, t, reg);
            "change something inside"
        }
    })
}

fn c24(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(s.chance(1, 2));
    let ty = s.pick(&ALL_TYPES);
    let id = id_for(s, ty);
    let mut g = Gen::small(&reg);
    let v = g.value(s, ty);
    let (mut tag, mut t, how) = construct(s, ty, id, &v);
    let mut log = format!(" {}", how);
    verify(tag.as_ref(), &t, &log)?;
    let n = 1 + s.usize(8);
    let mut changes = 0;
    for _ in 0..n {
        match s.below(8) {
            0..=2 => {
                let mut g = Gen::small(&reg);
                if s.chance(1, 12) {
                    g.budget = 3000;
                }
                let v = g.value(s, ty);
                let how = s.below(6);
                log.push_str(&format!(" set({})", how));
                morph(tag.as_mut(), &v, how);
                t.v = v;
                changes += 1;
            }
            7 => {
                // Looking changes nothing.
                let _ = tag.to_bytes();
                let _ = tag.as_any();
                let _ = tag.as_mut_any();
                log.push_str(" look");
            }
            _ => {
                let what = partial(s, tag.as_mut(), &mut t, &reg).map_err(|e| format!("{} after{}", e, log))?;
                log.push_str(&format!(" {}", what));
                changes += 1;
            }
        }
        verify(tag.as_ref(), &t, &log)?;
        ctx.extra += 1;
    }
    // As if it had been constructed with the final value.
    let fresh = build(&t);
    let (a, b) = (
        tag.to_bytes().map_err(|e| format!("{:?}", e))?,
        fresh.to_bytes().map_err(|e| format!("{:?}", e))?,
    );
    ensure!(a == b, "{} and the tag constructed with its value {}, after{}", hex(&a), hex(&b), log);
    classify(ctx, &t);
    ctx.describe(|| format!("{}:{}", show(&t), log));
    if changes >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn c24_constructors(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(true);
    let ty = s.pick(&ALL_TYPES);
    let id = if no_implicit(ty) {
        16 + u64_any(s) % (u64::MAX - 15)
    } else if ty.any_id() {
        u64_any(s)
    } else {
        ty.default_id().unwrap()
    };
    let mut g = Gen::small(&reg);
    g.budget = 5000;
    let v = g.value(s, ty);
    let (tag, t, how) = construct(s, ty, id, &v);
    ctx.describe(|| format!("{} {}", show(&t), how));
    classify(ctx, &t);
    ctx.class(how);
    if how != "with_id_value()" {
        ctx.nontrivial();
    }
    ctx.extra += 1;
    verify(tag.as_ref(), &t, how)
}

fn c24_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(true);
    let ty = s.pick(&[Ty::Bytes, Ty::Str, Ty::BigInt, Ty::BigDec, Ty::ILIntArr, Ty::Oid, Ty::Raw, Ty::PayA, Ty::StrDict]);
    let id = id_for(s, ty);
    let mut t = T::new(id, V::zero(ty));
    let mut tag = build(&t);
    let mut log = String::new();
    for _ in 0..2 + s.usize(5) {
        let mut g = Gen::new(&reg);
        g.budget = s.pick(&[10usize, 300, 5000, 70_000]);
        let v = g.value(s, ty);
        let how = s.below(6);
        morph(tag.as_mut(), &v, how);
        t.v = v;
        log.push_str(&format!(" {} bytes", enc_value(&t.v).len()));
        verify(tag.as_ref(), &t, &log)?;
        ctx.extra += 1;
    }
    ctx.nontrivial();
    ctx.describe(|| format!("{:?}:{}", ty, log));
    Ok(())
}

//---------------------------------------------------------------------------------------
// C25
//---------------------------------------------------------------------------------------
/// A type of the user that looks like `ILStringTag`.
#[derive(Default)]
struct Lookalike {
    id: u64,
    value: String,
}
impl ILTag for Lookalike {
    fn id(&self) -> u64 {
        self.id
    }
    fn value_size(&self) -> u64 {
        self.value.len() as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> {
        w.write_all(self.value.as_bytes())?;
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> Result<()> {
        Err(ErrorKind::UnsupportedTag)
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}
/// Another payload with the same content as `PayloadA`.
#[derive(Default)]
struct Other {
    data: Vec<u8>,
}
impl ILTagPayload for Other {
    fn serialized_size(&self) -> usize {
        self.data.len()
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        w.write_all(&self.data)?;
        Ok(())
    }
    fn deserialize(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> Result<()> {
        Err(ErrorKind::UnsupportedTag)
    }
}

#[derive(Debug)]
struct Mark(u64);
impl std::fmt::Display for Mark {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "mark {}", self.0)
    }
}
impl std::error::Error for Mark {}

fn error(n: u64) -> ErrorKind {
    match n % 10 {
        0 => ErrorKind::Boxed(Box::new(Mark(n))),
        1 => ErrorKind::UnknownTag,
        2 => ErrorKind::UnsupportedTag,
        3 => ErrorKind::CorruptedData,
        4 => ErrorKind::TagTooLarge,
        5 => ErrorKind::UnexpectedTagType,
        6 => ErrorKind::UnableToSerialize,
        7 => ErrorKind::IOError(il2_iltags::io::ErrorKind::EndOfData),
        8 => ErrorKind::IOError(il2_iltags::io::ErrorKind::CorruptedData),
        _ => ErrorKind::IOError(il2_iltags::io::ErrorKind::BoxedError(Box::new(Mark(n)))),
    }
}

/// All the forms, for a requested type.
fn ask<X: ILTag>(tag: &mut dyn ILTag, want: u64, type_ok: bool, n: u64, what: &str) -> R {
    let id_ok = tag.id() == want;
    let both = type_ok && id_ok;
    let addr = tag.as_any() as *const dyn std::any::Any as *const u8;
    macro_rules! opt {
        ($name:expr, $r:expr, $ok:expr) => {{
            let r = $r.map(|x| x as *const X as *const u8);
            ensure_eq!(r.is_some(), $ok, "{} of {}", $name, what);
            if let Some(a) = r {
                // Tags without content have no address of their own.
                ensure!(a == addr || std::mem::size_of::<X>() == 0, "{} of {} gives another tag", $name, what);
            }
        }};
    }
    macro_rules! unexpected {
        ($name:expr, $r:expr) => {{
            let r = $r;
            match (&r, both) {
                (Ok(_), true) => (),
                (Err(ErrorKind::UnexpectedTagType), false) => (),
                (Ok(_), false) => return Err(format!("{} of {} succeeded", $name, what)),
                (Err(e), _) => return Err(format!("{} of {} failed with {:?}", $name, what, e)),
            }
            r
        }};
    }
    opt!("tag_downcast_ref()", tag_downcast_ref::<X>(tag), type_ok);
    opt!("tag_downcast_mut()", tag_downcast_mut::<X>(tag).map(|x| &*x), type_ok);
    opt!("tag_downcast_ref_with_id()", tag_downcast_ref_with_id::<X>(want, tag), both);
    opt!(
        "tag_downcast_mut_with_id()",
        tag_downcast_mut_with_id::<X>(want, tag).map(|x| &*x),
        both
    );
    let r = unexpected!("tag_id_downcast_ref()", tag_id_downcast_ref::<X>(want, tag));
    opt!("tag_id_downcast_ref()", r.ok(), both);
    let r = unexpected!("tag_id_downcast_mut()", tag_id_downcast_mut::<X>(want, tag));
    opt!("tag_id_downcast_mut()", r.ok().map(|x| &*x), both);
    let _ = unexpected!("assert_tag_id_and_type()", assert_tag_id_and_type::<X>(want, tag));
    // The error is the one given.
    let e = format!("{:?}", error(n));
    match assert_tag_id_and_type_or_error::<X>(want, tag, error(n)) {
        Ok(()) => ensure!(both, "assert_tag_id_and_type_or_error() of {} succeeded", what),
        Err(x) => {
            ensure!(!both, "assert_tag_id_and_type_or_error() of {} failed", what);
            ensure_eq!(format!("{:?}", x), e, "assert_tag_id_and_type_or_error() of {}", what);
        }
    }
    Ok(())
}

/// Asks for all the types with several identifiers.
fn ask_all(tag: &mut dyn ILTag, ty: Ty, ids: &[u64], n: u64) -> std::result::Result<u64, String> {
    let before = tag.to_bytes().map_err(|e| format!("{:?}", e))?;
    let id = tag.id();
    let mut count = 0;
    for want in ids {
        for x in ALL_TYPES {
            let what = format!("{:?} with identifier {} asked as {:?} with {}", ty, id, x, want);
            with_type!(x, X => ask::<X>(tag, *want, x == ty, n + count, &what))?;
            count += 1;
        }
        ask::<Lookalike>(tag, *want, false, n, "a type of the user")?;
        ask::<ILGenericPayloadTag<Other>>(tag, *want, false, n, "a payload of the user")?;
        count += 2;
    }
    ensure_eq!(tag.id(), id, "id() after the downcasts");
    let after = tag.to_bytes().map_err(|e| format!("{:?}", e))?;
    ensure!(before == after, "the downcasts changed {} into {}", hex(&before), hex(&after));
    Ok(count)
}

fn near(id: u64) -> Vec<u64> {
    let mut v = vec![
        id,
        id.wrapping_add(1),
        id.wrapping_sub(1),
        id ^ (1 << 32),
        id ^ (1 << 63),
        id ^ (1 << 8),
        id & 0xff,
        id & 0xffff_ffff,
        !id,
        0,
        16,
        17,
        u64::MAX,
    ];
    v.sort();
    v.dedup();
    v
}

fn c25_matrix(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(30 * 40);
    let ty = ALL_TYPES[(i / 40) as usize];
    let k = (i % 40) as usize;
    let id = if !ty.any_id() {
        ty.default_id().unwrap()
    } else if k < 28 {
        CUSTOM_IDS[k]
    } else {
        match ty.default_id() {
            Some(id) if k == 28 => id,
            _ if no_implicit(ty) => 16 + k as u64,
            _ => k as u64 - 28,
        }
    };
    let mut tag = empty(ty, id);
    ctx.nontrivial();
    ctx.describe(|| format!("{:?} with identifier {}", ty, id));
    ctx.extra += ask_all(tag.as_mut(), ty, &near(id), i)?;
    Ok(())
}

fn c25_tags(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(false);
    let ty = s.pick(&ALL_TYPES);
    let id = id_for(s, ty);
    let v = Gen::small(&reg).value(s, ty);
    let mut t = T::new(id, v);
    let mut tag = build(&t);
    ctx.nontrivial();
    ctx.describe(|| show(&t));
    classify(ctx, &t);
    let ids = [id, u64_any(s), s.below(32)];
    ctx.extra += ask_all(tag.as_mut(), ty, &ids, s.any() % 1000)?;
    same(tag.as_ref(), &t, "after the downcasts")?;
    // What is changed through a downcast is seen in the tag, and an assertion does not
    // depend on the value.
    let v = Gen::small(&reg).value(s, ty);
    morph(tag.as_mut(), &v, s.below(6));
    t.v = v;
    same(tag.as_ref(), &t, "after a change")?;
    ctx.extra += ask_all(tag.as_mut(), ty, &ids, 0)?;
    // A type of the user with the identifier of another.
    let mut u = Lookalike {
        id,
        value: "x".to_string(),
    };
    for x in ALL_TYPES {
        with_type!(x, X => ask::<X>(&mut u, id, false, 3, "a type of the user asked as another"))?;
    }
    ask::<Lookalike>(&mut u, id, true, 4, "a type of the user")?;
    let mut o = ILGenericPayloadTag::<Other>::new(id);
    ask::<PayATag>(&mut o, id, false, 5, "a payload asked as another")?;
    ask::<ILGenericPayloadTag<Other>>(&mut o, id, true, 6, "a payload of the user")
}

fn id_classes(id: u64) -> R {
    ensure_eq!(is_implicit_tag(id), id <= 15, "is_implicit_tag({})", id);
    ensure_eq!(is_reserved_tag(id), id <= 31, "is_reserved_tag({})", id);
    let mut t = Lookalike::default();
    t.id = id;
    ensure_eq!(t.is_implicity(), id <= 15, "is_implicity() of {}", id);
    ensure_eq!(t.is_reserved(), id <= 31, "is_reserved() of {}", id);
    let t = ILNullTag::with_id(id);
    ensure_eq!(t.is_implicity(), id <= 15, "is_implicity() of {}", id);
    ensure_eq!(t.is_reserved(), id <= 31, "is_reserved() of {}", id);
    let n = match id {
        10 | 14 => 9,
        _ => implicit_size(id).unwrap_or(0),
    };
    ensure_eq!(implicit::implicit_tag_size(id), n as u64, "implicit_tag_size({})", id);
    // And it decides the form of the tag.
    let t = PayATag::new(id);
    let want = ref_ilint_size(id) + if id <= 15 { 0 } else { 1 };
    ensure_eq!(t.size(), want as u64, "size() of an empty tag {}", id);
    Ok(())
}

fn c25_small_ids(s: &mut Src, ctx: &mut Ctx) -> R {
    let id = s.index(20_000_000);
    if id > 31 {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{}", id));
    id_classes(id)
}

fn c25_ids(s: &mut Src, ctx: &mut Ctx) -> R {
    let id = match s.below(4) {
        0 => (1u64 << s.below(64)).wrapping_add(s.below(80)).wrapping_sub(40),
        1 => s.below(256) << (8 * s.below(8)) | s.below(40),
        2 => u64_any(s),
        _ => s.any(),
    };
    ctx.nontrivial();
    ctx.describe(|| format!("{}", id));
    id_classes(id)?;
    // The identifier of a mask of the real one is another identifier.
    let mut t = PayATag::new(id);
    for w in [id, id ^ (1 << s.below(64)), id.swap_bytes(), id.wrapping_add(s.below(32))] {
        ask::<PayATag>(&mut t, w, true, w, "a tag of the user")?;
        ask::<PayBTag>(&mut t, w, false, w, "a tag of the user asked as another")?;
        ctx.extra += 1;
    }
    Ok(())
}
