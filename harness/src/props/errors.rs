//! C29: errors tell what went wrong. C30: nothing is left behind in memory.
use super::memory::{configs, factories, items, label, perform, quiet};
use super::*;
use crate::alloc::live;
use crate::rio::*;
use il2_iltags::ilint;
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::ErrorKind as IoErr;
use il2_iltags::io::{LimitedReader, ReadReader, WriteWriter};
use il2_iltags::tags::payload::{ILGenericPayloadTag, ILTagPayload};
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::ILILInt64Tag;
use il2_iltags::tags::util::*;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C29",
            rule: "One thing is wrong in an otherwise correct encoding, at any nesting level and on any reader: an unknown identifier, a length over the limit, a cut, a malformed value, a payload of the user that fails, another identifier than the given tag's, bytes after the tag; the kind of the error is compared with the one of that cause. The errors of readers, writers and payloads are marked, and the mark has to be in the error returned. Non-trivial: the thing that is wrong is at least one level deep, or is an error that was passed on.",
            assumptions: &["which of EndOfData and UnableToReadData a cut gives, and whether a value that needs more than its length is corrupted or lacks data, is left open"],
            suites: vec![
                random("one thing wrong", 300_000, 60_000_000, one),
                random("errors of payloads", 60_000, 20_000_000, payloads),
                random("into another tag", 60_000, 20_000_000, into),
                random("integers and texts", 100_000, 30_000_000, data),
                random("scanning", 60_000, 20_000_000, scanning),
                random("standard errors", 60_000, 20_000_000, standard_errors),
            ],
        },
        Property {
            id: "C30",
            rule: "A history of decodes, encodes, scans, clones and comparisons, good and failing, on factories and tags made for it, or a history of changes of a tag, is performed three times on one thread; the bytes allocated and not freed must be the same after the second and the third time, when all it made is dropped, and repeating one operation must not change them either. Non-trivial: at least one operation fails or changes a tag.",
            assumptions: &["memory is what the global allocator of the process hands out to the thread"],
            suites: vec![
                random("histories of operations", 20_000, 6_000_000, c30_operations),
                random("repetitions", 20_000, 6_000_000, c30_repeated),
                random("histories of changes", 30_000, 10_000_000, c30_changes),
                random("registries", 20_000, 6_000_000, c30_registries),
                random("many different ones", 60, 20_000, c30_different),
            ],
        },
    ]
}

//---------------------------------------------------------------------------------------
// C29
//---------------------------------------------------------------------------------------
/// Puts a tag into containers, with siblings around. Returns the levels too.
fn around(s: &mut Src, t: T, reg: &Reg) -> (T, usize) {
    let mut t = t;
    let n = s.usize(6);
    for _ in 0..n {
        t = wrap(s, t, 3, reg);
        if s.chance(1, 40) {
            // Many before it.
            let k = s.range(3, 9);
            let n = 8 + s.usize(1 << k);
            let mut list = many_items(s, n, reg);
            match &mut t.v {
                V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => {
                    list.append(v);
                    *v = list;
                }
                V::Dict(m) => m.extend(list.into_iter().enumerate().map(|(i, t)| (format!("a{}", i), t))),
                _ => (),
            }
        }
        if s.chance(2, 3) {
            let x = small_tag(s, reg);
            let front = s.chance(1, 2);
            match &mut t.v {
                V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => v.insert(if front { 0 } else { v.len() }, x),
                V::Dict(m) => {
                    let k = key_any(s);
                    if k != "k" {
                        m.insert(k, x);
                    }
                }
                _ => (),
            }
        }
    }
    (t, n)
}

/// The data ended.
fn ended(e: &ErrorKind) -> bool {
    match e {
        ErrorKind::IOError(IoErr::EndOfData) | ErrorKind::IOError(IoErr::UnableToReadData) => true,
        ErrorKind::IOError(IoErr::IOError(e)) => e.kind() == std::io::ErrorKind::UnexpectedEof,
        _ => false,
    }
}
fn corrupted(e: &ErrorKind) -> bool {
    matches!(e, ErrorKind::CorruptedData | ErrorKind::IOError(IoErr::CorruptedData))
}

/// One thing wrong in a stream that is scanned.
fn scanning(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let n = s.usize(6);
    let mut b: Vec<u8> = (0..n).flat_map(|_| enc(&small_tag(s, &reg))).collect();
    let t = small_tag(s, &reg);
    let last = enc(&t);
    let (what, ok): (String, fn(&ErrorKind) -> bool) = match s.below(6) {
        0 => {
            let k = s.usize(last.len());
            b.extend_from_slice(&last[..k]);
            (format!("{} bytes of tag {}", k, t.id), ended)
        }
        1 => {
            b.extend(ref_ilint(15));
            let k = s.usize(9);
            b.extend(s.bytes(k));
            ("the identifier 15".to_string(), |e| matches!(e, ErrorKind::CorruptedData))
        }
        2 => {
            // An integer above 2^64, as the identifier or as the length.
            if s.chance(1, 2) {
                b.extend(ref_ilint(explicit_id(s)));
            }
            b.push(255);
            b.extend([255; 7]);
            b.push(8 + s.below(248) as u8);
            let k = s.usize(9);
            b.extend(s.bytes(k));
            ("an integer too large".to_string(), corrupted)
        }
        3 => {
            // The end of the tag is above 2^64.
            b.extend(ref_ilint(explicit_id(s)));
            b.extend(ref_ilint(u64::MAX - s.below(9)));
            let k = s.usize(9);
            b.extend(s.bytes(k));
            ("an end too far".to_string(), corrupted)
        }
        4 => {
            b.extend(ref_ilint(explicit_id(s)));
            let k = s.usize(9);
            b.extend(ref_ilint(k as u64 + 1 + match s.below(3) {
                0 => 0,
                1 => s.below(1000),
                _ => u64_any(s) >> 2,
            }));
            b.extend(s.bytes(k));
            ("a value that is not there".to_string(), ended)
        }
        _ => {
            b.extend_from_slice(&last);
            let id = t.id;
            let other = if s.chance(1, 2) { id ^ (1 << s.below(64)) } else { explicit_id(s) };
            if other == id {
                return Ok(());
            }
            ctx.describe(|| format!("another identifier, {} for {}", other, id));
            ctx.nontrivial();
            let (rk, seed) = (rk_any(s), s.any());
            return read_with(rk, &b, seed, |r| -> R {
                let mut r = FwdR(r);
                let mut sc = RawTagScanner::new(&mut r);
                for i in 0..n {
                    let x = sc.next_tag();
                    ensure!(matches!(x, Ok(Some(_))), "tag {} on {:?}: {:?}", i, rk, x);
                }
                let x = sc.next_tag_if_id(other);
                ensure!(
                    matches!(x, Err(ErrorKind::UnexpectedTagType)),
                    "next_tag_if_id({}) of a tag {} on {:?}: {:?}",
                    other,
                    id,
                    rk,
                    x
                );
                Ok(())
            })
            .0;
        }
    };
    let (rk, seed) = (rk_any(s), s.any());
    ctx.describe(|| format!("{} tags, then {} on {:?}: {}", n, what, rk, hex(&b)));
    ctx.nontrivial();
    ctx.class("scanning");
    let asked = s.chance(1, 4);
    read_with(rk, &b, seed, |r| -> R {
        let mut r = FwdR(r);
        let mut sc = RawTagScanner::new(&mut r);
        for i in 0..n {
            let x = sc.next_tag();
            ensure!(matches!(x, Ok(Some(_))), "tag {} of {} on {:?}: {:?}", i, hex(&b), rk, x);
        }
        let x = if asked { sc.next_tag_if_id(t.id) } else { sc.next_tag() };
        match x {
            Err(e) if ok(&e) => Ok(()),
            x => Err(format!("{} tags, then {} on {:?}: {:?} for {}", n, what, rk, x, hex(&b))),
        }
    })
    .0
}

fn one(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let f = factory(&reg);
    let rk = rk_any(s);
    let seed = s.any();
    let (b, levels, what, ok): (Vec<u8>, usize, String, fn(&ErrorKind) -> bool);
    match s.below(5) {
        0 => {
            let strict = reg.strict && s.chance(3, 4);
            let id = if strict { explicit_id(s) } else { 15 };
            if reg.ty(id).is_some() && reg.map.contains_key(&id) {
                return Ok(());
            }
            let n = if id == 15 { 0 } else { s.usize(10) };
            let v = V::Raw(s.bytes(n));
            let (t, l) = around(s, T::new(id, v), &reg);
            ctx.class("unknown identifier");
            b = enc(&t);
            levels = l;
            what = format!("the unknown identifier {}", id);
            ok = |e| matches!(e, ErrorKind::UnknownTag);
        }
        1 => {
            let t = small_tag(s, &reg);
            let (t, l) = around(s, t, &reg);
            let mut n = 0;
            enc_edit(&t, &mut |_, site, v, _| {
                n += (site == Site::Len) as u64;
                (v, 0)
            });
            if n == 0 {
                return Ok(());
            }
            let k = s.below(n);
            let x = match s.below(4) {
                0 => MAX + 1,
                1 => MAX + 1 + s.below(1000),
                2 => u64::MAX - s.below(300),
                _ => MAX + 1 + u64_any(s) % (u64::MAX - MAX),
            };
            let mut i = 0;
            b = enc_edit(&t, &mut |_, site, v, _| {
                if site != Site::Len {
                    return (v, 0);
                }
                i += 1;
                (if i == k + 1 { x } else { v }, 0)
            })
            .0;
            ctx.class("too large");
            levels = l;
            what = format!("a length of {}", x);
            ok = |e| matches!(e, ErrorKind::TagTooLarge);
        }
        2 => {
            let t = small_tag(s, &reg);
            let (t, l) = around(s, t, &reg);
            let e = enc(&t);
            let n = s.usize(e.len());
            b = e[..n].to_vec();
            ctx.class("cut");
            levels = l;
            what = format!("only {} of the {} bytes", n, e.len());
            ok = ended;
        }
        3 => {
            let t = small_tag(s, &reg);
            let (t, l) = around(s, t, &reg);
            let mut b = enc(&t);
            let n = b.len();
            let more = 1 + s.usize(4);
            b.extend(s.bytes(more));
            ctx.class("bytes after the tag");
            if l > 0 {
                ctx.nontrivial();
            }
            return match f.from_bytes(&b) {
                Err(e) if corrupted(&e) => Ok(()),
                Err(e) => Err(format!("from_bytes() of {} with {} bytes after the tag: {:?}", hex(&b), b.len() - n, e)),
                Ok(_) => Err(format!("from_bytes() of {} with {} bytes after the tag succeeded", hex(&b), b.len() - n)),
            };
        }
        _ => {
            let t = small_tag(s, &reg);
            let ty = t.ty();
            if t.id < 16 {
                return Ok(());
            }
            let mut v = enc_value(&t.v);
            if ty == Ty::Str && s.chance(1, 8) {
                // It ends within a character.
                let n = s.usize(5000);
                v = string_len(s, n).into_bytes();
                v.push(s.pick(&[0xc3u8, 0xe2, 0xf0, 0xff]));
            }
            // The value itself is wrong, whatever its length. One byte in a container can make
            // more than one thing wrong.
            let itself = ty == Ty::Str || ty == Ty::Bool || ty.fixed_size().is_some();
            match s.below(if itself { 3 } else { 2 }) {
                0 => {
                    v.pop();
                }
                1 => v.push(s.below(256) as u8),
                _ => {
                    if !v.is_empty() {
                        let i = s.usize(v.len());
                        v[i] = s.below(256) as u8;
                    }
                }
            }
            if !matches!(dec_value(&reg, ty, &v), Err(DErr::Bad)) {
                return Ok(());
            }
            what = format!("the value {} as {:?}", hex(&v), ty);
            let (t, l) = around(s, T::new(t.id, V::Raw(v)), &reg);
            b = enc(&t);
            levels = l;
            ctx.class(if itself { "malformed value" } else { "malformed contents" });
            ok = if itself {
                corrupted
            } else {
                |e| corrupted(e) || ended(e)
            };
        }
    }
    if levels > 0 {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{} in {}", what, hex(&b)));
    let (r, _) = read_with(rk, &b, seed, |r| f.deserialize(r));
    for (r, how) in [(r, format!("deserialize() on {:?}", rk)), (f.from_bytes(&b), "from_bytes()".to_string())] {
        match r {
            Ok(_) => return Err(format!("{} of {} with {} succeeded", how, hex(&b), what)),
            Err(e) => ensure!(ok(&e), "{} of {} with {} failed with {:?}", how, hex(&b), what, e),
        }
    }
    Ok(())
}

#[derive(Debug)]
struct Mark(u64);
impl std::fmt::Display for Mark {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "mark {}", self.0)
    }
}
impl std::error::Error for Mark {}

const KINDS: u64 = 14;
/// An error of each kind, marked where it can be.
fn error(k: u64, n: u64) -> ErrorKind {
    match k {
        0 => ErrorKind::Boxed(Box::new(Mark(n))),
        1 => ErrorKind::UnknownTag,
        2 => ErrorKind::UnsupportedTag,
        3 => ErrorKind::CorruptedData,
        4 => ErrorKind::TagTooLarge,
        5 => ErrorKind::UnexpectedTagType,
        6 => ErrorKind::UnableToSerialize,
        7 => ErrorKind::IOError(IoErr::EndOfData),
        8 => ErrorKind::IOError(IoErr::CorruptedData),
        9 => ErrorKind::IOError(IoErr::UnableToReadData),
        10 => ErrorKind::IOError(IoErr::UnableToWriteData),
        11 => ErrorKind::IOError(IoErr::IOError(std::io::Error::new(std::io::ErrorKind::Other, Mark(n)))),
        12 => ErrorKind::IOError(IoErr::IOError(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))),
        _ => ErrorKind::IOError(IoErr::BoxedError(Box::new(Mark(n)))),
    }
}

const FAILING: u64 = 987_654_321_001;
/// A payload that fails; its bytes are (when, the kind of the error, its mark).
#[derive(Default)]
struct Failing {
    data: Vec<u8>,
    encode: bool,
}
impl ILTagPayload for Failing {
    fn serialized_size(&self) -> usize {
        self.data.len()
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        w.write_all(&self.data[..1])?;
        if self.encode {
            return Err(error(self.data[1] as u64, self.data[2] as u64));
        }
        w.write_all(&self.data[1..])?;
        Ok(())
    }
    fn deserialize(&mut self, _: &dyn ILTagFactory, size: usize, r: &mut dyn Reader) -> Result<()> {
        self.data = vec![0; size];
        r.read_all(&mut self.data)?;
        self.encode = self.data[0] != 0;
        if self.encode {
            return Ok(());
        }
        Err(error(self.data[1] as u64, self.data[2] as u64))
    }
}

/// What a payload of the user reports is what the caller gets.
fn payloads(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let mut f = factory(&reg);
    f.engine().register(
        FAILING,
        Box::new(ILDefaultWithIdTagCreator::<ILGenericPayloadTag<Failing>>::new()),
    );
    let encode = s.chance(1, 2);
    let (k, n) = (s.below(KINDS), s.below(256));
    let mut data = vec![encode as u8, k as u8, n as u8];
    let more = s.usize(20);
    data.extend(s.bytes(more));
    let (t, levels) = around(s, T::new(FAILING, V::Raw(data)), &reg);
    let b = enc(&t);
    let want = format!("{:?}", error(k, n));
    ctx.describe(|| format!("{} from the payload in {}", want, hex(&b)));
    if levels > 0 {
        ctx.nontrivial();
    }
    let expect = |what: &str, r: std::result::Result<(), ErrorKind>| -> R {
        let got = format!("{:?}", r.err());
        ensure!(
            got == format!("Some({})", want),
            "{} of {} levels, with a payload that fails with {}: {}",
            what,
            levels,
            want,
            got
        );
        Ok(())
    };
    let rk = rk_any(s);
    let (r, _) = read_with(rk, &b, s.any(), |r| f.deserialize(r));
    if !encode {
        expect("deserialize()", r.map(|_| ()))?;
        expect("from_bytes()", f.from_bytes(&b).map(|_| ()))?;
        return Ok(());
    }
    let tag = r.map_err(|e| format!("deserialize() of {} with {:?}: {:?}", hex(&b), rk, e))?;
    expect("to_bytes()", tag.to_bytes().map(|_| ()))?;
    let mut w = VecWriter::new();
    expect("serialize()", tag.serialize(&mut w))?;
    let mut w = VecWriter::new();
    expect("serialize_value()", tag.serialize_value(&mut w))?;
    expect(
        "iltag_clone_with_factory()",
        iltag_clone_with_factory(&f, tag.as_ref()).map(|_| ()),
    )
}

/// Decoding over a tag with another identifier.
fn into(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let f = factory(&reg);
    let (a, b) = (small_tag(s, &reg), small_tag(s, &reg));
    if a.id == b.id {
        return Ok(());
    }
    ctx.nontrivial();
    ctx.describe(|| format!("{} over {}", show(&b), show(&a)));
    let mut tag = build(&a);
    let e = match s.below(4) {
        0 => {
            // Anything at all, as long as it has another identifier.
            let id = if s.chance(1, 2) { s.below(32) } else { explicit_id(s) };
            if id == a.id {
                return Ok(());
            }
            let mut e = ref_ilint(id);
            let n = s.usize(12);
            e.extend(s.bytes(n));
            e
        }
        _ => enc(&b),
    };
    let rk = rk_any(s);
    let (r, _) = read_with(rk, &e, s.any(), |r| f.deserialize_into(r, tag.as_mut()));
    match r {
        Err(ErrorKind::UnexpectedTagType) => (),
        r => return Err(format!("deserialize_into() of {} over {}: {:?}", hex(&e), show(&a), r)),
    }
    if e != enc(&b) {
        return Ok(());
    }
    let mut r = ByteArrayReader::new(&e);
    match RawTagScanner::new(&mut r).next_tag_if_id(a.id) {
        Err(ErrorKind::UnexpectedTagType) => (),
        r => return Err(format!("next_tag_if_id({}) on {}: {}", a.id, hex(&e), if r.is_ok() { "a tag" } else { "another error" })),
    }
    Ok(())
}

/// A reader that has some bytes and then fails with a mark.
struct MarkedR<'a> {
    data: &'a [u8],
    mark: u64,
}
impl Reader for MarkedR<'_> {
    fn read(&mut self) -> IoResult<u8> {
        match self.data.split_first() {
            Some((x, rest)) => {
                self.data = rest;
                Ok(*x)
            }
            None => Err(IoErr::BoxedError(Box::new(Mark(self.mark)))),
        }
    }
}
struct MarkedW {
    room: usize,
    mark: u64,
}
impl Writer for MarkedW {
    fn write(&mut self, v: u8) -> IoResult<()> {
        self.write_all(&[v])
    }
    fn write_all(&mut self, b: &[u8]) -> IoResult<()> {
        if b.len() > self.room {
            return Err(IoErr::BoxedError(Box::new(Mark(self.mark))));
        }
        self.room -= b.len();
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// The length of a text: mostly little.
fn text_max(s: &mut Src) -> usize {
    if s.chance(1, 12) {
        10_000
    } else {
        60
    }
}

/// ILInt and string functions: the error of the reader if it failed, corruption otherwise.
fn data(s: &mut Src, ctx: &mut Ctx) -> R {
    let mark = s.any();
    let want = format!("BoxedError(Mark({}))", mark);
    let marked = |e: &IoErr| format!("{:?}", e) == want;
    ctx.nontrivial();
    match s.below(6) {
        0 => {
            // An ILInt that is cut.
            let e = ref_ilint_form(u64_any(s), 1 + s.usize(9));
            let n = s.usize(e.len());
            ctx.describe(|| format!("the ILInt {} cut to {} bytes", hex(&e), n));
            let mut r = MarkedR { data: &e[..n], mark };
            match ilint::decode(&mut r) {
                Err(ilint::ErrorKind::IOError(x)) if marked(&x) => (),
                x => return Err(format!("decode() of {} cut to {}: {:?}", hex(&e), n, x)),
            }
            let mut r = MarkedR { data: &e[..n], mark };
            match r.read_ilint() {
                Err(x) if marked(&x) => (),
                x => return Err(format!("read_ilint() of {} cut to {}: {:?}", hex(&e), n, x)),
            }
            let mut r = MarkedR { data: &e[..n], mark };
            match r.read_signed_ilint() {
                Err(x) if marked(&x) => (),
                x => return Err(format!("read_signed_ilint() of {} cut to {}: {:?}", hex(&e), n, x)),
            }
            let mut r = MarkedR { data: &e[..n], mark };
            match il2_iltags::tags::deserialize_ilint(&mut r) {
                Err(ErrorKind::IOError(x)) if marked(&x) => (),
                x => return Err(format!("deserialize_ilint() of {} cut to {}: {:?}", hex(&e), n, x)),
            }
        }
        1 => {
            // An ILInt that is too large.
            let mut e = vec![255];
            e.extend((u64::MAX - s.below(248)).to_be_bytes());
            ctx.describe(|| format!("the ILInt {}", hex(&e)));
            let mut r = MarkedR { data: &e, mark };
            match ilint::decode(&mut r) {
                Err(ilint::ErrorKind::ValueOverflow) | Err(ilint::ErrorKind::InvalidFormat) => (),
                x => return Err(format!("decode() of {}: {:?}", hex(&e), x)),
            }
            let mut r = MarkedR { data: &e, mark };
            match r.read_ilint() {
                Err(IoErr::CorruptedData) => (),
                x => return Err(format!("read_ilint() of {}: {:?}", hex(&e), x)),
            }
            let mut r = MarkedR { data: &e, mark };
            match r.read_signed_ilint() {
                Err(IoErr::CorruptedData) => (),
                x => return Err(format!("read_signed_ilint() of {}: {:?}", hex(&e), x)),
            }
            match ilint::decode_body(&e[1..]) {
                Err(ilint::ErrorKind::ValueOverflow) => (),
                x => return Err(format!("decode_body() of {}: {:?}", hex(&e[1..]), x)),
            }
            let n = s.pick(&[0usize, 9, 10, 255, 256, 257]);
            match ilint::decode_body(&vec![0; n]) {
                Err(ilint::ErrorKind::InvalidFormat) => (),
                x => return Err(format!("decode_body() of {} bytes: {:?}", n, x)),
            }
        }
        2 => {
            // A string tag without its end, or with wrong text.
            let max = text_max(s);
            let st = string_any(s, max);
            let e = enc(&T::std(V::Str(st.clone())));
            let n = s.usize(e.len());
            ctx.describe(|| format!("the string tag {} cut to {} bytes", hex(&e), n));
            let mut r = MarkedR { data: &e[..n], mark };
            match deserialize_string_tag_from_value(&mut r) {
                Err(ErrorKind::IOError(x)) if marked(&x) => (),
                x => return Err(format!("reading {} cut to {}: {:?}", hex(&e), n, x)),
            }
            let mut r = MarkedR { data: &st.as_bytes()[..st.len() - st.len().min(1)], mark };
            if !st.is_empty() {
                match r.read_string(st.len()) {
                    Err(x) if marked(&x) => (),
                    x => return Err(format!("read_string() of {:?} cut: {:?}", st, x)),
                }
            }
        }
        3 => {
            let max = text_max(s);
            let mut b = string_any(s, max).into_bytes();
            let i = if s.chance(1, 4) { b.len() } else { s.usize(b.len() + 1) };
            b.insert(i, s.pick(&[0x80u8, 0xbf, 0xc0, 0xc1, 0xf5, 0xff, 0xfe, 0xc3, 0xe2, 0xf0]));
            if std::str::from_utf8(&b).is_ok() {
                return Ok(());
            }
            ctx.describe(|| format!("the text {}", hex(&b)));
            let mut r = MarkedR { data: &b, mark };
            match r.read_string(b.len()) {
                Err(IoErr::CorruptedData) => (),
                x => return Err(format!("read_string() of {}: {:?}", hex(&b), x)),
            }
            let e = enc(&T::new(17, V::Raw(b.clone())));
            let mut r = MarkedR { data: &e, mark };
            match deserialize_string_tag_from_value(&mut r) {
                Err(x) if corrupted(&x) => (),
                x => return Err(format!("reading {}: {:?}", hex(&e), x)),
            }
        }
        4 => {
            // A writer that fails.
            let v = u64_any(s);
            let n = ref_ilint_size(v);
            let room = s.usize(n);
            ctx.describe(|| format!("the ILInt {} on a writer with room for {}", v, room));
            match ilint::encode(v, &mut MarkedW { room, mark }) {
                Err(ilint::ErrorKind::IOError(x)) if marked(&x) => (),
                x => return Err(format!("encode({}): {:?}", v, x)),
            }
            match (MarkedW { room, mark }).write_ilint(v) {
                Err(x) if marked(&x) => (),
                x => return Err(format!("write_ilint({}): {:?}", v, x)),
            }
            match il2_iltags::tags::serialize_ilint(v, &mut MarkedW { room, mark }) {
                Err(ErrorKind::IOError(x)) if marked(&x) => (),
                x => return Err(format!("serialize_ilint({}): {:?}", v, x)),
            }
            let max = text_max(s);
            let st = string_any(s, max);
            let n = enc(&T::std(V::Str(st.clone()))).len();
            let room = s.usize(n);
            match serialize_string_tag_from_value(&st, &mut MarkedW { room, mark }) {
                Err(ErrorKind::IOError(x)) if marked(&x) => (),
                x => return Err(format!("writing the string tag {:?} with room for {}: {:?}", st, room, x)),
            }
        }
        _ => {
            // Through a limit: the limit or the reader.
            let n = s.usize(40);
            let limit = s.usize(40);
            let k = 1 + s.usize(40);
            let bytes = s.bytes(n);
            let mut r = MarkedR { data: &bytes, mark };
            let mut l = LimitedReader::new(&mut r, limit);
            let mut buff = vec![0; k];
            ctx.describe(|| format!("{} bytes from {} with a limit of {}", k, n, limit));
            match l.read_all(&mut buff) {
                Ok(()) => ensure!(k <= limit && k <= n, "read {} bytes of {} with a limit of {}", k, n, limit),
                Err(x) if k > limit => ensure!(
                    matches!(x, IoErr::EndOfData | IoErr::UnableToReadData),
                    "{} bytes with a limit of {}: {:?}",
                    k,
                    limit,
                    x
                ),
                Err(x) => ensure!(marked(&x) && k > n, "{} bytes from {}: {:?}", k, n, x),
            }
        }
    }
    Ok(())
}

const STD_KINDS: [std::io::ErrorKind; 16] = [
    std::io::ErrorKind::NotFound,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::ConnectionRefused,
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::ConnectionAborted,
    std::io::ErrorKind::NotConnected,
    std::io::ErrorKind::AddrInUse,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::AlreadyExists,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::InvalidInput,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::Other,
    std::io::ErrorKind::OutOfMemory,
    std::io::ErrorKind::Unsupported,
];

/// A stream with some bytes or some room, which then fails.
struct Stream {
    left: usize,
    kind: std::io::ErrorKind,
    mark: u64,
}
impl Stream {
    fn next(&mut self, n: usize) -> std::io::Result<usize> {
        if n > 0 && self.left == 0 {
            return Err(std::io::Error::new(self.kind, Mark(self.mark)));
        }
        let k = n.min(self.left);
        self.left -= k;
        Ok(k)
    }
}
impl std::io::Read for Stream {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.next(b.len())
    }
}
impl std::io::Write for Stream {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.next(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Errors of the standard library.
fn standard_errors(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.pick(&STD_KINDS);
    let mark = s.any();
    ctx.nontrivial();
    ctx.describe(|| format!("{:?} with mark {}", kind, mark));
    let is_it = |e: &std::io::Error| -> bool {
        e.kind() == kind
            && e.get_ref()
                .and_then(|x| x.downcast_ref::<Mark>())
                .map_or(false, |m| m.0 == mark)
    };
    match IoErr::from(std::io::Error::new(kind, Mark(mark))) {
        IoErr::BoxedError(x) if x.downcast_ref::<std::io::Error>().map_or(false, is_it) => (),
        x => return Err(format!("{:?} with mark {} became {:?}", kind, mark, x)),
    }
    match IoErr::from(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, Mark(mark))) {
        IoErr::EndOfData => (),
        x => return Err(format!("UnexpectedEof became {:?}", x)),
    }
    match ErrorKind::from(IoErr::BoxedError(Box::new(Mark(mark)))) {
        ErrorKind::IOError(IoErr::BoxedError(x)) if x.downcast_ref::<Mark>().map_or(false, |m| m.0 == mark) => (),
        x => return Err(format!("the error of a reader became {:?}", x)),
    }
    let n = s.usize(30);
    let left = s.usize(30);
    let mut st = Stream { left, kind, mark };
    let mut b = vec![0; n];
    match ReadReader::new(&mut st).read_all(&mut b) {
        Ok(()) => ensure!(n <= left, "{} bytes of {} were read", n, left),
        Err(IoErr::IOError(e)) => ensure!(n > left && is_it(&e), "{} bytes of {}: {:?}", n, left, e),
        Err(e) => return Err(format!("{} bytes of {}: {:?}", n, left, e)),
    }
    let mut st = Stream { left, kind, mark };
    match WriteWriter::new(&mut st).write_all(&b) {
        Ok(()) => ensure!(n <= left, "{} bytes were written with room for {}", n, left),
        Err(IoErr::IOError(e)) => ensure!(n > left && is_it(&e), "{} bytes, room for {}: {:?}", n, left, e),
        Err(e) => return Err(format!("{} bytes, room for {}: {:?}", n, left, e)),
    }
    // Within a tag.
    let reg = Reg::std(true);
    let t = container(s, &reg, 60);
    let e = enc(&t);
    let left = s.usize(e.len());
    let mut st = Stream { left, kind, mark };
    match build(&t).serialize(&mut WriteWriter::new(&mut st)) {
        Err(ErrorKind::IOError(IoErr::IOError(x))) if is_it(&x) => (),
        x => return Err(format!("serialize() of {} with room for {}: {:?}", show(&t), left, x)),
    }
    let mut src = std::io::Read::chain(&e[..left], Stream { left: 0, kind, mark });
    match factory(&reg).deserialize(&mut ReadReader::new(&mut src)) {
        Err(ErrorKind::IOError(IoErr::IOError(x))) if is_it(&x) => Ok(()),
        Err(x) => Err(format!("deserialize() of {} cut at {}: {:?}", hex(&e), left, x)),
        Ok(_) => Err(format!("deserialize() of {} cut at {} succeeded", hex(&e), left)),
    }
}

//---------------------------------------------------------------------------------------
// C30
//---------------------------------------------------------------------------------------
/// Runs `f` three times; what is allocated after the second and third time must be the same.
fn balanced(what: impl Fn() -> String, mut f: impl FnMut()) -> R {
    f();
    f();
    let a = live();
    f();
    let b = live();
    ensure!(b <= a, "{} bytes are left behind each time: {}", b - a, what());
    Ok(())
}

fn c30_operations(s: &mut Src, ctx: &mut Ctx) -> R {
    let regs = configs(s);
    let n = 1 + s.usize(6);
    let list: Vec<_> = items(s, &regs, n).into_iter().filter(quiet).collect();
    if list.is_empty() {
        return Ok(());
    }
    let steps = 1 + s.usize(12);
    let order: Vec<usize> = (0..steps).map(|_| s.usize(list.len())).collect();
    ctx.describe(|| list.iter().map(label).collect::<Vec<_>>().join("; "));
    let mut bad = 0;
    balanced(
        || list.iter().map(label).collect::<Vec<_>>().join("; "),
        || {
            let fs = factories(&regs);
            for i in &order {
                bad += super::memory::failed(&perform(&list[*i], &fs)) as u64;
            }
        },
    )?;
    if bad > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn c30_repeated(s: &mut Src, ctx: &mut Ctx) -> R {
    let regs = configs(s);
    let list: Vec<_> = items(s, &regs, 1).into_iter().filter(quiet).collect();
    let x = match list.first() {
        Some(x) => x,
        None => return Ok(()),
    };
    // Drawn before anything is measured: what is drawn is recorded, and that takes memory.
    let n = s.weighted(&[6, 6, 4, 1]);
    let n = [1, 3, 30, 200][n];
    ctx.describe(|| format!("{} times {}", n, label(x)));
    let fs = factories(&regs);
    let mut bad = false;
    for _ in 0..4 {
        bad = super::memory::failed(&perform(x, &fs));
    }
    let a = live();
    for _ in 0..n {
        perform(x, &fs);
    }
    let b = live();
    ensure!(b <= a, "{} bytes are left behind by {} times {}", b - a, n, label(x));
    if bad {
        ctx.nontrivial();
    }
    Ok(())
}

fn c30_changes(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let f = factory(&reg);
    let t = if s.chance(1, 2) { container(s, &reg, 60) } else { small_tag(s, &reg) };
    let n = s.usize(12);
    let seed = s.any();
    ctx.describe(|| format!("{} changes ({}) of {}", n, seed, show(&t)));
    if n > 0 {
        ctx.nontrivial();
    }
    balanced(
        || format!("{} changes ({}) of {}", n, seed, show(&t)),
        || {
            let mut s = Src::random(seed, None);
            let s = &mut s;
            let mut m = t.clone();
            let mut tag = build(&m);
            for _ in 0..n {
                mutate(s, tag.as_mut(), &mut m, &reg);
                match s.below(5) {
                    0 => drop(tag.to_bytes()),
                    1 => drop(iltag_clone_with_factory(&f, tag.as_ref())),
                    2 => {
                        // Over itself, damaged or not.
                        let mut b = enc(&m);
                        if s.chance(1, 2) && b.len() > 2 {
                            let i = 2 + s.usize(b.len() - 2);
                            b[i] = s.below(256) as u8;
                        }
                        let _ = f.deserialize_into(&mut ByteArrayReader::new(&b), tag.as_mut());
                        tag = build(&m);
                    }
                    _ => (),
                }
            }
        },
    )
}

fn c30_registries(s: &mut Src, ctx: &mut Ctx) -> R {
    let seed = s.any();
    let n = 1 + s.usize(60);
    ctx.nontrivial();
    ctx.describe(|| format!("{} registrations ({})", n, seed));
    balanced(
        || format!("{} registrations ({})", n, seed),
        || {
            let mut s = Src::random(seed, None);
            let s = &mut s;
            let mut f = factory(&reg_any(s));
            let mut kept = Vec::new();
            for _ in 0..n {
                let id = s.below(80);
                match s.below(5) {
                    0 => drop(f.engine().deregister(id)),
                    1 => kept.extend(f.engine().deregister(id)),
                    2 => kept.extend(f.create_tag(id).map(|t| -> Box<dyn ILTagCreator> {
                        drop(t);
                        creator(Ty::Raw)
                    })),
                    _ => {
                        let ty = s.pick(&ALL_TYPES);
                        if ty.any_id() {
                            drop(f.engine().register(id + 32, creator(ty)));
                        }
                    }
                }
            }
        },
    )
}

/// What a cache may hold, and by how much its contents may vary in size.
const SLACK: i64 = 12 << 10;
const PHASE: u64 = 4000;

/// Thousands of operations of one kind on contents that never repeat: what is live after the
/// second half must be what was live after the first. A cache with a limit is full by then.
fn c30_different(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(9);
    let seed = s.any();
    let reg = reg_any(s);
    let regs = configs(s);
    ctx.describe(|| format!("{} different operations of kind {} ({})", 2 * PHASE, kind, seed));
    let f = factory(&reg);
    let mut own = factory(&reg);
    let fs = factories(&regs);
    let mut bad = 0u64;
    let mut at = 0;
    let mut kept = [0i64; 2];
    for half in kept.iter_mut() {
        for _ in 0..PHASE {
            at += 1;
            let x = mix(seed ^ mix(at));
            match kind {
                0 => {
                    let mut d = ILStrDictTag::new();
                    let k = format!("k{:016x}", x);
                    d.insert(&k, "v");
                    bad += d.get(&k[1..]).is_none() as u64;
                    let b = d.to_bytes().unwrap_or_default();
                    drop(f.from_bytes(&b));
                }
                1 => {
                    let mut d = ILDictTag::new();
                    let k = format!("{:016x}", x);
                    d.insert(&k, Box::new(ILILInt64Tag::with_value(x)));
                    drop(f.from_bytes(&d.to_bytes().unwrap_or_default()));
                    bad += d.get("").is_none() as u64;
                }
                2 => {
                    let t = ILStringTag::with_value(&format!("{:016x}", x));
                    let b = t.to_bytes().unwrap_or_default();
                    drop(f.from_bytes(&b));
                    bad += f.from_bytes(&b[..b.len() - 1]).is_err() as u64;
                }
                3 => {
                    // Identifiers nobody knows.
                    let mut w = VecWriter::new();
                    let _ = ilint::encode(x | 1 << 40, &mut w);
                    let _ = w.write(0);
                    let b: &[u8] = w.as_slice();
                    bad += f.from_bytes(b).is_err() as u64;
                    drop(f.create_tag(x | 1 << 40));
                }
                4 => {
                    // Raw tags with identifiers and contents of their own.
                    let t = ILRawTag::with_value(x | 1 << 40, &x.to_le_bytes());
                    let b = t.to_bytes().unwrap_or_default();
                    let mut u = ILRawTag::new(x | 1 << 40);
                    let _ = f.deserialize_into(&mut ByteArrayReader::new(&b), &mut u);
                    drop(iltag_are_equal(&t, &u));
                    bad += f.deserialize_into(&mut ByteArrayReader::new(&b[1..]), &mut u).is_err() as u64;
                }
                5 => {
                    let id = x | 1 << 40;
                    drop(own.engine().register(id, creator(Ty::Raw)));
                    drop(own.create_tag(id));
                    bad += own.engine().deregister(id).is_none() as u64;
                    drop(own.engine().deregister(id));
                }
                6 => {
                    let mut s = Src::random(x, None);
                    let t = small_tag(&mut s, &reg);
                    let mut b = enc(&t);
                    drop(f.from_bytes(&b));
                    let i = s.usize(b.len());
                    b[i] ^= 1 + s.below(255) as u8;
                    bad += f.from_bytes(&b).is_err() as u64;
                }
                7 => {
                    let mut s = Src::random(x, None);
                    let mut m = small_tag(&mut s, &reg);
                    let mut tag = build(&m);
                    mutate(&mut s, tag.as_mut(), &mut m, &reg);
                    drop(iltag_clone_with_factory(&f, tag.as_ref()));
                    bad += 1;
                }
                _ => {
                    let mut s = Src::random(x, None);
                    for i in items(&mut s, &regs, 1).iter().filter(|x| quiet(x)) {
                        bad += super::memory::failed(&perform(i, &fs)) as u64;
                    }
                }
            }
        }
        *half = live();
    }
    ensure!(
        kept[1] <= kept[0] + SLACK,
        "{} bytes were kept by {} operations of kind {} on different contents ({})",
        kept[1] - kept[0],
        PHASE,
        kind,
        seed
    );
    if bad > 0 || kind < 6 {
        ctx.nontrivial();
    }
    Ok(())
}
