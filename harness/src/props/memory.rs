//! C26: outcomes do not depend on the past nor on other threads.
use super::fault::*;
use super::*;
use crate::alloc::measure;
use crate::rio::*;
use il2_iltags::io::array::*;
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::util::*;
use std::sync::{Arc, Barrier};

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C26",
        rule: "A family of similar operations (decodes, scans, encodes, clones and comparisons, good, wrong and with injected failures, on three factories that disagree) is performed alone, each in a new thread with new factories, and then in random histories, after thousands of repetitions of one of them, and by several threads at once on shared factories and tags; every outcome must be the one it had alone. Non-trivial: at least one failed and one successful operation before the last one.",
        assumptions: &[
            "what happens in the process before a case starts is not undone: state kept by the process would show as a difference with the reference, not with the baseline",
            "in the suite threads the interleavings are the ones the scheduler gives; in the suite interleavings they are chosen by the case, between any two calls of a reader or writer",
        ],
        suites: vec![
            random("histories", 15_000, 10_000_000, c26_histories),
            random("long histories of failures", 3_500, 300_000, c26_long),
            random("threads", 8_000, 600_000, c26_threads),
            random("instances", 300_000, 20_000_000, c26_instances),
            random("interleavings", 3_000, 800_000, c26_interleaved),
            random("one inside another", 25_000, 6_000_000, c26_reentrant),
            random("large histories", 3_000, 400_000, c26_large),
        ],
    }]
}

/// Something to do, as a function of a factory configuration.
pub(super) enum Item {
    Decode { cfg: usize, b: Vec<u8>, rk: RK, seed: u64 },
    /// Decode with a reader that fails.
    FaultyDecode { cfg: usize, b: Vec<u8>, at: u64, kind: Fk },
    /// Decode the whole of an array.
    Bytes { cfg: usize, b: Vec<u8> },
    /// Decode over another tag.
    Into { cfg: usize, b: Vec<u8>, old: T },
    Encode { t: T, tag: Arc<dyn ILTag>, wk: WK, seed: u64 },
    FaultyEncode { t: T, tag: Arc<dyn ILTag>, at: u64, kind: Fk },
    Clone { cfg: usize, t: T, tag: Arc<dyn ILTag> },
    Equal { a: T, b: T, ta: Arc<dyn ILTag>, tb: Arc<dyn ILTag> },
    Scan { b: Vec<u8> },
    Text { b: Vec<u8> },
    PutText { st: String },
    ToBytes { t: T, tag: Arc<dyn ILTag> },
    /// A tag that holds a payload of the user that fails or panics.
    Broken { how: u64, cfg: usize, tag: Arc<dyn ILTag>, b: Vec<u8>, panics: bool },
    BrokenDecode { cfg: usize, b: Vec<u8>, panics: bool },
    /// A reader or a writer of the user that panics.
    PanicDecode { cfg: usize, b: Vec<u8>, at: u64 },
    PanicEncode { t: T, tag: Arc<dyn ILTag>, at: u64 },
    /// A tag created for an identifier.
    Create { cfg: usize, id: u64 },
    /// An engine that is made, used (with what, for which identifier) and dropped.
    Engine { strict: bool, standard: bool, ops: Vec<(u64, u64)> },
}
use Item::*;

/// The identifier of the payloads that fail, known to all the factories here.
const BROKEN: u64 = 987_654_321_000;
/// Its first byte is a set of the following, its second one is when.
#[derive(Default)]
struct BrokenPayload {
    data: Vec<u8>,
}
const DECODE_ERROR: u8 = 1;
const DECODE_PANIC: u8 = 2;
const ENCODE_ERROR: u8 = 4;
const ENCODE_PANIC: u8 = 8;
const SIZE_PANIC: u8 = 16;
impl BrokenPayload {
    fn is(&self, x: u8) -> bool {
        self.data.first().map_or(false, |m| m & x != 0)
    }
    fn after(&self) -> usize {
        self.data.get(1).map_or(0, |n| *n as usize).min(self.data.len())
    }
}
impl il2_iltags::tags::payload::ILTagPayload for BrokenPayload {
    fn serialized_size(&self) -> usize {
        if self.is(SIZE_PANIC) {
            panic!("the size of the user's payload");
        }
        self.data.len()
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        let n = self.after();
        w.write_all(&self.data[..n])?;
        if self.is(ENCODE_ERROR) {
            return Err(ErrorKind::UnableToSerialize);
        }
        if self.is(ENCODE_PANIC) {
            panic!("encoding the user's payload");
        }
        w.write_all(&self.data[n..])?;
        Ok(())
    }
    fn deserialize(&mut self, _: &dyn ILTagFactory, size: usize, r: &mut dyn Reader) -> Result<()> {
        self.data = vec![0; size.min(2)];
        r.read_all(&mut self.data)?;
        if self.is(DECODE_ERROR) {
            return Err(ErrorKind::UnsupportedTag);
        }
        if self.is(DECODE_PANIC) {
            panic!("decoding the user's payload");
        }
        let mut rest = vec![0; size - self.data.len()];
        r.read_all(&mut rest)?;
        self.data.extend(rest);
        Ok(())
    }
}
type BrokenTag = il2_iltags::tags::payload::ILGenericPayloadTag<BrokenPayload>;

/// A tree with one of those somewhere, as bytes.
fn broken_tree(s: &mut Src, reg: &Reg, modes: &[u8], more: usize) -> (Vec<u8>, bool) {
    let n = s.usize(40);
    let mode = s.pick(modes);
    let mut data = vec![mode, s.below(n as u64 + 3) as u8];
    data.extend(s.bytes(n));
    data.resize(data.len() + more, 7);
    let mut t = T::new(BROKEN, V::PayA(data));
    for _ in 0..s.usize(4) {
        t = wrap(s, t, 3, reg);
        if let V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) = &mut t.v {
            if s.chance(1, 2) {
                v.insert(0, small_tag(s, reg));
            }
            if s.chance(1, 2) {
                v.push(small_tag(s, reg));
            }
        }
    }
    (enc(&t), mode & (DECODE_PANIC | ENCODE_PANIC | SIZE_PANIC) != 0)
}
fn broken_item(s: &mut Src, regs: &[Reg], cfg: usize, more: usize) -> Item {
    match s.below(3) {
        0 => {
            let (b, panics) = broken_tree(s, &regs[cfg], &[DECODE_ERROR, DECODE_PANIC], more);
            BrokenDecode { cfg, b, panics }
        }
        k => {
            let (b, panics) = broken_tree(s, &regs[cfg], &[ENCODE_ERROR, ENCODE_PANIC, SIZE_PANIC, ENCODE_ERROR], more);
            let f = broken_factory(&regs[cfg]);
            match f.from_bytes(&b) {
                Ok(tag) => Broken {
                    how: s.below(6),
                    cfg,
                    tag: Arc::from(tag),
                    b,
                    panics,
                },
                // Decoding failed where it must not: another item tells.
                Err(_) => match k {
                    1 => Bytes { cfg, b: b[..b.len() - 1].to_vec() },
                    _ => PutText { st: hex(&b) },
                },
            }
        }
    }
}
fn broken_factory(reg: &Reg) -> standard::ILStandardTagFactory {
    let mut f = factory(reg);
    f.engine().register(BROKEN, Box::new(ILDefaultWithIdTagCreator::<BrokenTag>::new()));
    f
}

/// What came of it.
#[derive(Debug, Clone, PartialEq)]
pub(super) enum Out {
    Tag(T, usize),
    Failed(String),
    Written(Vec<u8>, u64, u64),
    /// The failure of a writer, and what was written before.
    Cut(String, Vec<u8>),
    Yes(bool),
    Spans(Vec<[u64; 5]>, String),
    Text(String, usize),
    /// With what the library and the user had done.
    Panicked(usize),
}

fn tag_out(r: Result<Box<dyn ILTag>>, n: usize) -> Out {
    match r {
        Ok(t) => match model(t.as_ref()) {
            Ok(m) => Out::Tag(m, n),
            Err(e) => Out::Failed(format!("not a tag: {}", e)),
        },
        Err(e) => Out::Failed(format!("{:?}", e)),
    }
}

pub(super) fn perform(x: &Item, fs: &[Arc<dyn ILTagFactory>]) -> Out {
    match x {
        Decode { cfg, b, rk, seed } => {
            let (r, n) = read_with(*rk, b, *seed, |r| fs[*cfg].deserialize(r));
            tag_out(r, n)
        }
        FaultyDecode { cfg, b, at, kind } => {
            let mut r = FaultR::new(b);
            r.at = *at;
            r.kind = *kind;
            let t = fs[*cfg].deserialize(&mut r);
            tag_out(t, r.pos)
        }
        Bytes { cfg, b } => tag_out(fs[*cfg].from_bytes(b), b.len()),
        Into { cfg, b, old } => {
            let mut t = build(old);
            let mut r = ByteArrayReader::new(b);
            match fs[*cfg].deserialize_into(&mut r, t.as_mut()) {
                Ok(()) => tag_out(Ok(t), r.offset()),
                Err(e) => Out::Failed(format!("{:?}", e)),
            }
        }
        Encode { tag, wk, seed, t } => {
            let room = enc(t).len();
            let (r, w) = write_with(*wk, room, *seed, |w| tag.serialize(w));
            match r {
                Ok(()) => Out::Written(w, tag.size(), tag.value_size()),
                Err(e) => Out::Failed(format!("{:?}", e)),
            }
        }
        FaultyEncode { tag, at, kind, .. } => {
            let mut w = FaultW::new(*at, true, *kind, 0);
            match tag.serialize(&mut w) {
                Ok(()) => Out::Written(w.data, tag.size(), tag.value_size()),
                Err(e) => Out::Cut(format!("{:?}", e), w.data),
            }
        }
        Clone { cfg, tag, .. } => tag_out(iltag_clone_with_factory(fs[*cfg].as_ref(), tag.as_ref()), 0),
        Equal { ta, tb, .. } => Out::Yes(iltag_are_equal(ta.as_ref(), tb.as_ref())),
        Scan { b } => {
            let mut r = ByteArrayReader::new(b);
            let mut s = RawTagScanner::new(&mut r);
            let mut v = Vec::new();
            loop {
                match s.next_tag() {
                    Ok(Some(t)) => v.push([t.id(), t.offset(), t.value_offset(), t.value_size(), t.next_tag_offset()]),
                    Ok(None) => return Out::Spans(v, "the end".to_string()),
                    Err(e) => return Out::Spans(v, format!("{:?}", e)),
                }
            }
        }
        Text { b } => {
            let mut r = ByteArrayReader::new(b);
            match deserialize_string_tag_from_value(&mut r) {
                Ok(t) => Out::Text(t, r.offset()),
                Err(e) => Out::Failed(format!("{:?}", e)),
            }
        }
        PutText { st } => {
            let mut w = VecWriter::new();
            match serialize_string_tag_from_value(st, &mut w) {
                Ok(()) => Out::Written(w.into(), string_tag_size_from_value(st), 0),
                Err(e) => Out::Failed(format!("{:?}", e)),
            }
        }
        ToBytes { tag, .. } => match tag.to_bytes() {
            Ok(b) => Out::Written(b, tag.size(), tag.value_size()),
            Err(e) => Out::Failed(format!("{:?}", e)),
        },
        Broken { how, cfg, tag, .. } => {
            let r = catch(|| match how {
                0 | 1 => tag.to_bytes().map(|b| Out::Written(b, 0, 0)),
                2 => {
                    let mut w = VecWriter::new();
                    tag.serialize(&mut w).map(|_| Out::Written(w.into(), 0, 0))
                }
                3 => Ok(Out::Written(vec![], tag.size(), 0)),
                4 => iltag_clone_with_factory(fs[*cfg].as_ref(), tag.as_ref()).map(|_| Out::Yes(true)),
                _ => Ok(Out::Yes(iltag_are_equal(tag.as_ref(), tag.as_ref()))),
            });
            match r {
                Ok(Ok(o)) => o,
                Ok(Err(e)) => Out::Failed(format!("{:?}", e)),
                Err(_) => Out::Panicked(0),
            }
        }
        BrokenDecode { cfg, b, .. } => {
            let mut r = ByteArrayReader::new(b);
            let t = catch(|| fs[*cfg].deserialize(&mut r).map(|_| ()));
            match t {
                Ok(Ok(())) => Out::Yes(true),
                Ok(Err(e)) => Out::Failed(format!("{:?}", e)),
                Err(_) => Out::Panicked(r.offset()),
            }
        }
        PanicDecode { cfg, b, at } => {
            let mut k = 0;
            let mut on = || {
                k += 1;
                if k > *at {
                    panic!("the user's reader");
                }
            };
            let mut r = HookR { data: b, pos: 0, on: &mut on };
            let t = catch(|| fs[*cfg].deserialize(&mut r));
            let n = r.pos;
            match t {
                Ok(t) => tag_out(t, n),
                Err(_) => Out::Panicked(n),
            }
        }
        PanicEncode { tag, at, .. } => {
            let mut k = 0;
            let mut on = || {
                k += 1;
                if k > *at {
                    panic!("the user's writer");
                }
            };
            let mut w = HookW { data: Vec::new(), on: &mut on };
            let r = catch(|| tag.serialize(&mut w));
            let n = w.data.len();
            match r {
                Ok(Ok(())) => Out::Written(w.data, tag.size(), tag.value_size()),
                Ok(Err(e)) => Out::Failed(format!("{:?}", e)),
                Err(_) => Out::Panicked(n),
            }
        }
        Create { cfg, id } => Out::Text(made(fs[*cfg].create_tag(*id)), 0),
        Engine { strict, standard, ops } => {
            let mut e = if *standard {
                il2_iltags::tags::standard::factory::create_std_engine(*strict)
            } else {
                ILTagCreatorEngine::new(*strict)
            };
            let mut log = String::new();
            for (op, id) in ops {
                match op {
                    0 => {
                        let old = e.register(*id, Box::new(ILDefaultWithIdTagCreator::<ILStringTag>::default()));
                        log.push_str(if old.is_some() { " replaced" } else { " registered" });
                    }
                    1 => {
                        let old = e.deregister(*id);
                        log.push_str(if old.is_some() { " removed" } else { " nothing" });
                    }
                    _ => {
                        log.push(' ');
                        log.push_str(&made(e.create_tag(*id)));
                    }
                }
            }
            Out::Text(log, e.strict() as usize)
        }
    }
}

/// A new tag as a text.
fn made(t: Option<Box<dyn ILTag>>) -> String {
    match t {
        None => "none".to_string(),
        Some(t) => {
            let kind = if t.as_any().is::<ILRawTag>() {
                "raw"
            } else if t.as_any().is::<ILStringTag>() {
                "string"
            } else {
                "other"
            };
            format!("{}-{}-{}", kind, t.id(), t.value_size())
        }
    }
}
/// What `made()` gives for the type of a registry.
fn expected(ty: Option<Ty>, id: u64) -> String {
    match ty {
        None => "none".to_string(),
        Some(ty) => {
            let kind = match ty {
                Ty::Raw => "raw",
                Ty::Str => "string",
                _ => "other",
            };
            format!("{}-{}-{}", kind, id, enc_value(&V::zero(ty)).len())
        }
    }
}

/// True if no panic is in it, so that all it does is the library's.
pub(super) fn quiet(x: &Item) -> bool {
    !matches!(
        x,
        Broken { panics: true, .. } | BrokenDecode { panics: true, .. } | PanicDecode { .. } | PanicEncode { .. }
    )
}

/// What the reference says about it.
fn reference(x: &Item, regs: &[Reg], o: &Out) -> R {
    let show_item = || label(x);
    match x {
        Decode { cfg, b, .. } => match (dec(&regs[*cfg], b), o) {
            (Ok((t, n)), Out::Tag(u, m)) if t == *u && n == *m => Ok(()),
            (Err(_), Out::Failed(_)) => Ok(()),
            (w, o) => Err(format!("{}: {:?}, expected {:?}", show_item(), o, w)),
        },
        Bytes { cfg, b } => match (dec(&regs[*cfg], b), o) {
            (Ok((t, n)), Out::Tag(u, _)) if t == *u && n == b.len() => Ok(()),
            (Ok((_, n)), Out::Failed(_)) if n < b.len() => Ok(()),
            (Err(_), Out::Failed(_)) => Ok(()),
            (w, o) => Err(format!("{}: {:?}, expected {:?}", show_item(), o, w)),
        },
        BrokenDecode { .. } => {
            ensure!(matches!(o, Out::Failed(_) | Out::Panicked(_)), "{}: {:?}", show_item(), o);
            Ok(())
        }
        Encode { t, .. } | ToBytes { t, .. } => {
            let e = enc(t);
            let (n, m) = (e.len() as u64, enc_value(&t.v).len() as u64);
            ensure!(
                *o == Out::Written(e.clone(), n, m),
                "{}: {:?}, expected {}",
                show_item(),
                o,
                hex(&e)
            );
            Ok(())
        }
        FaultyEncode { t, .. } => match o {
            Out::Cut(_, w) => {
                ensure!(enc(t).starts_with(w), "{}: {:?}", show_item(), o);
                Ok(())
            }
            Out::Written(w, ..) => {
                ensure!(enc(t) == *w, "{}: {:?}", show_item(), o);
                Ok(())
            }
            _ => Err(format!("{}: {:?}", show_item(), o)),
        },
        Equal { a, b, .. } => {
            ensure!(*o == Out::Yes(enc(a) == enc(b)), "{}: {:?}", show_item(), o);
            Ok(())
        }
        PutText { st } => {
            let e = enc(&T::std(V::Str(st.clone())));
            let n = e.len() as u64;
            ensure!(*o == Out::Written(e, n, 0), "{}: {:?}", show_item(), o);
            Ok(())
        }
        Create { cfg, id } => {
            let ty = if *id == BROKEN { return Ok(()) } else { regs[*cfg].ty(*id) };
            ensure!(*o == Out::Text(expected(ty, *id), 0), "{}: {:?}", show_item(), o);
            Ok(())
        }
        Engine { strict, standard, ops } => {
            let mut reg = Reg::std(*strict);
            if !standard {
                reg.map.clear();
            }
            let mut log = String::new();
            for (op, id) in ops {
                match op {
                    0 => {
                        log.push_str(if reg.map.insert(*id, Ty::Str).is_some() { " replaced" } else { " registered" });
                    }
                    1 => log.push_str(if reg.map.remove(id).is_some() { " removed" } else { " nothing" }),
                    _ => {
                        log.push(' ');
                        log.push_str(&expected(reg.ty(*id), *id));
                    }
                }
            }
            ensure!(*o == Out::Text(log.clone(), *strict as usize), "{}: {:?}, expected {}", show_item(), o, log);
            Ok(())
        }
        _ => Ok(()),
    }
}

pub(super) fn label(x: &Item) -> String {
    match x {
        Decode { cfg, b, rk, .. } => format!("decode with factory {} on {:?} {}", cfg, rk, hex(b)),
        FaultyDecode { cfg, b, at, .. } => format!("decode with factory {} {} with a failure at {}", cfg, hex(b), at),
        Bytes { cfg, b } => format!("from_bytes with factory {} {}", cfg, hex(b)),
        Into { cfg, b, old } => format!("decode with factory {} {} into {}", cfg, hex(b), show(old)),
        Encode { t, wk, .. } => format!("encode on {:?} {}", wk, show(t)),
        FaultyEncode { t, at, .. } => format!("encode {} with a failure at {}", show(t), at),
        Clone { cfg, t, .. } => format!("clone with factory {} {}", cfg, show(t)),
        Equal { a, b, .. } => format!("compare {} {}", show(a), show(b)),
        Scan { b } => format!("scan {}", hex(b)),
        Text { b } => format!("read a string tag from {}", hex(b)),
        PutText { st } => format!("write a string tag {:?}", clip(st, 60)),
        ToBytes { t, .. } => format!("to_bytes() {}", show(t)),
        Broken { how, cfg, b, .. } => format!(
            "{} with factory {} a tag with a payload that fails {}",
            ["to_bytes()", "to_bytes()", "serialize()", "size()", "clone", "compare"][*how as usize],
            cfg,
            hex(b)
        ),
        BrokenDecode { cfg, b, .. } => format!("decode with factory {} a payload that fails {}", cfg, hex(b)),
        PanicDecode { cfg, b, at } => format!("decode with factory {} {} with a panic at {}", cfg, hex(b), at),
        PanicEncode { t, at, .. } => format!("encode {} with a panic at {}", show(t), at),
        Create { cfg, id } => format!("create {} with factory {}", id, cfg),
        Engine { strict, standard, ops } => {
            format!("a new engine (strict: {}, standard: {}) with {:?}", strict, standard, ops)
        }
    }
}

pub(super) fn failed(o: &Out) -> bool {
    matches!(o, Out::Failed(_) | Out::Cut(..) | Out::Panicked(_))
}

fn shared(t: &T) -> Arc<dyn ILTag> {
    Arc::from(build(t))
}

/// Wraps a fragment in correct containers, so that what is wrong in it is found deep inside.
fn bury(s: &mut Src, mut b: Vec<u8>, levels: usize) -> Vec<u8> {
    for _ in 0..levels {
        let mut v = Vec::new();
        let id = s.pick(&[22u64, 21, 30]);
        let more = s.below(3);
        match id {
            21 => v.extend(ref_ilint(1 + more)),
            30 => {
                v.extend(ref_ilint(1));
                v.extend(enc(&T::std(V::Str("k".to_string()))));
            }
            _ => (),
        }
        if id != 30 {
            for i in 0..more {
                v.extend(enc(&T::std(V::U8(i as u8))));
            }
        }
        v.extend(&b);
        b = ref_ilint(id);
        b.extend(ref_ilint(v.len() as u64));
        b.extend(v);
    }
    b
}

/// Bytes that are refused, most of the time.
fn wrong(s: &mut Src, reg: &Reg) -> Vec<u8> {
    match s.below(6) {
        0 => {
            let b = enc(&small_tag(s, reg));
            b[..s.usize(b.len())].to_vec()
        }
        1 => {
            let mut b = enc(&container(s, reg, 60));
            super::decode::damage(s, &mut b);
            b
        }
        2 => {
            // A value of the wrong size.
            let id = s.pick(&[17u64, 19, 20, 23, 24, 25, 30, 31, 16]);
            let n = s.usize(6);
            let mut b = ref_ilint(id);
            b.extend(ref_ilint(n as u64));
            b.extend(s.bytes(n));
            b
        }
        3 => {
            let mut b = ref_ilint(s.pick(&[15u64, 26, 27, 29, 100, 5000]));
            b.extend(ref_ilint(MAX + 1 + s.below(9)));
            b
        }
        4 => s.pick(&[
            vec![1u8, 2],
            vec![17, 2, 0xc3, 0x28],
            vec![17, 1, 0x80],
            vec![10, 255, 255, 255, 255, 255, 255, 255, 255, 255],
            vec![15],
            vec![],
            vec![2],
            vec![30, 3, 1, 3, 0],
            vec![31, 3, 1, 0, 0],
            vec![21, 2, 2, 0],
            vec![22, 2, 0, 1],
        ]),
        _ => {
            let mut b = Vec::new();
            super::decode::noise(s, &mut b, 2, reg);
            b
        }
    }
}

/// A few configurations that disagree about some identifiers.
pub(super) fn configs(s: &mut Src) -> Vec<Reg> {
    let a = reg_any(s);
    let mut b = a.clone();
    b.strict = !a.strict;
    let mut c = reg_any(s);
    // The same identifiers as other types.
    for (id, ty) in a.customs() {
        if s.chance(1, 2) {
            let t = s.pick(&ALL_TYPES);
            if t.any_id() && t != ty {
                c.map.insert(id, t);
            }
        }
    }
    vec![a, b, c]
}

/// A family of things to do that resemble each other.
pub(super) fn items(s: &mut Src, regs: &[Reg], n: usize) -> Vec<Item> {
    some_items(s, regs, n, &[])
}
/// Identifiers that the configurations know, or not.
fn some_id(s: &mut Src, regs: &[Reg]) -> u64 {
    let reg = &regs[s.usize(regs.len())];
    match s.below(4) {
        0 => s.below(40),
        1 => s.pick(&[100, 1000, u64::MAX, 26, 27]),
        2 => explicit_id(s),
        _ => {
            let v = reg.customs();
            if v.is_empty() {
                s.pick(&[15, 16, 22, 31])
            } else {
                v[s.usize(v.len())].0
            }
        }
    }
}
fn some_items(s: &mut Src, regs: &[Reg], n: usize, large: &[usize]) -> Vec<Item> {
    let mut v: Vec<Item> = Vec::new();
    let mut last: Option<T> = None;
    while v.len() < n {
        let cfg = s.usize(regs.len());
        let reg = &regs[cfg];
        let t = match (&last, s.below(4)) {
            // Almost the same as the one before.
            (Some(t), 0) if s.chance(1, 2) => vary(s, t),
            (Some(t), 0) => {
                let mut t = t.clone();
                let mut tag = build(&t);
                mutate(s, tag.as_mut(), &mut t, reg);
                t
            }
            (Some(t), 1) => t.clone(),
            _ if s.chance(1, 3) => container(s, reg, 100),
            _ => small_tag(s, reg),
        };
        let more = if large.is_empty() { 0 } else { s.pick(large) };
        let t = match more {
            0 => t,
            _ if enc(&t).len() > 1000 => t,
            n => match s.below(6) {
                0 => T::std(V::Str("x".repeat(n))),
                1 => T::std(V::Seq(vec![T::std(V::Str("\u{e9}".repeat(n / 2))), t])),
                2 => T::std(V::ILIntArr(vec![s.below(300); n])),
                3 => T::std(V::Arr(vec![t; 1 + n / 1000])),
                4 => T::std(V::Bytes(vec![3; n])),
                _ => T::std(V::Arr(vec![t, T::std(V::Bytes(vec![5; n]))])),
            },
        };
        let b = match s.below(4) {
            0 | 1 => enc(&t),
            2 => {
                let w = wrong(s, reg);
                let k = s.usize(5);
                bury(s, w, k)
            }
            _ => {
                let k = s.usize(4);
                bury(s, enc(&t), k)
            }
        };
        last = Some(t.clone());
        let seed = s.any();
        let x = match s.weighted(&[6, 3, 4, 2, 5, 3, 2, 2, 1, 1, 1, 2, 2, 1, 1, 2, 2]) {
            0 => Decode { cfg, b, rk: rk_any(s), seed },
            1 => FaultyDecode {
                cfg,
                b,
                at: s.below(12),
                kind: s.pick(&FKS),
            },
            2 => Bytes { cfg, b },
            3 => {
                let old = if s.chance(1, 2) { small_tag(s, reg) } else { t.clone() };
                Into { cfg, b, old }
            }
            4 => Encode {
                tag: shared(&t),
                t,
                wk: wk_any(s),
                seed,
            },
            5 => FaultyEncode {
                tag: shared(&t),
                t,
                at: s.below(12),
                kind: s.pick(&FKS),
            },
            6 => Clone { cfg, tag: shared(&t), t },
            7 => {
                let mut u = t.clone();
                let mut tu = build(&u);
                if s.chance(1, 2) {
                    mutate(s, tu.as_mut(), &mut u, reg);
                }
                Equal {
                    ta: shared(&t),
                    tb: Arc::from(tu),
                    a: t,
                    b: u,
                }
            }
            8 => Scan { b },
            9 => Text {
                b: if s.chance(1, 2) { enc(&T::std(V::Str(string_any(s, 30)))) } else { b },
            },
            10 => PutText { st: string_any(s, 300) },
            11 => ToBytes { tag: shared(&t), t },
            12 => broken_item(s, regs, cfg, more),
            13 => PanicDecode { cfg, b, at: s.below(12) },
            14 => PanicEncode { tag: shared(&t), t, at: s.below(12) },
            15 => Create { cfg, id: some_id(s, regs) },
            _ => Engine {
                strict: s.chance(1, 2),
                standard: s.chance(1, 2),
                ops: (0..s.usize(7)).map(|_| (s.below(4), some_id(s, regs))).collect(),
            },
        };
        v.push(x);
    }
    v
}

pub(super) fn factories(regs: &[Reg]) -> Vec<Arc<dyn ILTagFactory>> {
    regs.iter().map(|r| Arc::new(broken_factory(r)) as Arc<dyn ILTagFactory>).collect()
}

/// Runs something in a thread of its own, with the stack of the others.
fn apart<X: Send>(f: impl FnOnce() -> X + Send) -> std::result::Result<X, String> {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || catch(f))
            .map_err(|e| format!("cannot start a thread: {}", e))?
            .join()
            .map_err(|_| "the thread failed".to_string())?
    })
}

/// The outcome of each, alone: a new thread, with new factories and new tags.
fn baselines(list: &[Item], regs: &[Reg]) -> std::result::Result<Vec<Out>, String> {
    let mut v = Vec::new();
    for x in list {
        let o = apart(|| perform(x, &factories(regs)))?;
        reference(x, regs, &o).map_err(|e| format!("alone: {}", e))?;
        v.push(o);
    }
    Ok(v)
}

fn c26_histories(s: &mut Src, ctx: &mut Ctx) -> R {
    let regs = configs(s);
    let n = 2 + s.usize(5);
    let list = items(s, &regs, n);
    let base = baselines(&list, &regs)?;
    let steps = 4 + s.usize(40);
    let order: Vec<usize> = (0..steps).map(|_| s.usize(n)).collect();
    ctx.describe(|| list.iter().map(label).collect::<Vec<_>>().join("; "));
    let outs: Vec<Out> = apart(|| {
        let fs = factories(&regs);
        order.iter().map(|i| perform(&list[*i], &fs)).collect()
    })?;
    for (k, (i, o)) in order.iter().zip(&outs).enumerate() {
        ensure!(
            *o == base[*i],
            "step {} ({}): {:?}, and alone {:?}",
            k,
            label(&list[*i]),
            o,
            base[*i]
        );
        ctx.extra += 1;
    }
    let f = outs.iter().position(failed);
    let ok = outs.iter().position(|o| !failed(o));
    if let (Some(f), Some(k)) = (f, ok) {
        if f.max(k) + 1 < steps {
            ctx.nontrivial();
        }
    }
    Ok(())
}

/// Histories of operations on large tags.
fn c26_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let regs = configs(s);
    let n = 3 + s.usize(4);
    let unit = s.pick(&[1000usize, 4096, 16_384, 65_536, 100_000, 200_000]);
    let sizes = [0, unit, unit + s.usize(64), unit + unit / 2, 2 * unit + s.usize(3)];
    let mut list = some_items(s, &regs, n, &sizes);
    // One that fails, at least.
    let cfg = s.usize(regs.len());
    list.push(broken_item(s, &regs, cfg, sizes[4]));
    let n = list.len();
    let brief = |o: &Out| clip(&format!("{:?}", o), 300);
    let base = baselines(&list, &regs)?;
    let steps = 4 + s.usize(12);
    let order: Vec<usize> = (0..steps).map(|_| s.usize(n)).collect();
    ctx.describe(|| list.iter().map(|x| clip(&label(x), 200)).collect::<Vec<_>>().join("; "));
    let outs: Vec<Out> = apart(|| {
        let fs = factories(&regs);
        order.iter().map(|i| perform(&list[*i], &fs)).collect()
    })?;
    for (k, (i, o)) in order.iter().zip(&outs).enumerate() {
        ensure!(
            *o == base[*i],
            "step {} ({}): {}, and alone {}",
            k,
            clip(&label(&list[*i]), 300),
            brief(o),
            brief(&base[*i])
        );
        ctx.extra += 1;
    }
    if outs.iter().any(failed) && outs.iter().any(|o| !failed(o)) {
        ctx.nontrivial();
    }
    Ok(())
}

/// One operation is repeated many times; then all must be as before.
fn c26_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let regs = configs(s);
    let n = 2 + s.usize(4);
    let mut list = items(s, &regs, n);
    // What is repeated.
    let cfg = s.usize(regs.len());
    let kind = s.pick(&FKS);
    let x = match s.below(9) {
        0..=3 => {
            let w = wrong(s, &regs[cfg]);
            let k = s.usize(7);
            let b = bury(s, w, k);
            Decode { cfg, b, rk: RK::Slice, seed: 0 }
        }
        4 => {
            let t = container(s, &regs[cfg], 60);
            FaultyEncode {
                tag: shared(&t),
                t,
                at: s.below(9),
                kind,
            }
        }
        5 => {
            let b = enc(&container(s, &regs[cfg], 60));
            FaultyDecode { cfg, b, at: s.below(9), kind }
        }
        6 => {
            let t = container(s, &regs[cfg], 60);
            if s.chance(1, 2) {
                PanicEncode { tag: shared(&t), t, at: s.below(9) }
            } else {
                PanicDecode { cfg, b: enc(&t), at: s.below(9) }
            }
        }
        _ => broken_item(s, &regs, cfg, 0),
    };
    list.push(x);
    let base = baselines(&list, &regs)?;
    let times = s.pick(&[70usize, 150, 300, 1100, 2100, 5500, 11_000]);
    let (cost, _, large) = apart(|| measure(|| perform(&list[n], &factories(&regs))))?;
    let times = if large > 100_000 { times.min(20) } else { times };
    ctx.describe(|| format!("{} times: {}", times, label(&list[n])));
    ctx.class(if failed(&cost) { "repeated failure" } else { "repeated success" });
    apart(|| -> R {
        let fs = factories(&regs);
        for k in 0..times {
            let o = perform(&list[n], &fs);
            ensure!(
                o == base[n],
                "repetition {} of {}: {:?}, and alone {:?}",
                k,
                label(&list[n]),
                o,
                base[n]
            );
        }
        for (x, w) in list.iter().zip(&base) {
            let o = perform(x, &fs);
            ensure!(
                o == *w,
                "after {} repetitions of ({}), {}: {:?}, and alone {:?}",
                times,
                label(&list[n]),
                label(x),
                o,
                w
            );
        }
        Ok(())
    })??;
    ctx.extra += times as u64;
    if failed(&cost) && base.iter().any(|o| !failed(o)) {
        ctx.nontrivial();
    }
    Ok(())
}

/// Several threads share the factories and the tags.
fn c26_threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let regs = configs(s);
    let n = 2 + s.usize(4);
    let list = items(s, &regs, n);
    let base = baselines(&list, &regs)?;
    let threads = 2 + s.usize(3);
    let rounds = 20 + s.usize(60);
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let seed = s.any();
            (0..rounds).map(|k| (mix(seed ^ k as u64) % n as u64) as usize).collect()
        })
        .collect();
    let alloc = base.iter().zip(&list).any(|(_, x)| match x {
        Decode { b, .. } | Bytes { b, .. } | FaultyDecode { b, .. } => b.len() > 100_000,
        _ => false,
    });
    if alloc {
        return Ok(());
    }
    ctx.describe(|| {
        format!(
            "{} threads, {} rounds: {}",
            threads,
            rounds,
            list.iter().map(label).collect::<Vec<_>>().join("; ")
        )
    });
    let fs = factories(&regs);
    let barrier = Barrier::new(threads);
    let results: Vec<std::result::Result<Vec<Out>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|order| {
                let (fs, list, barrier) = (&fs, &list, &barrier);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        barrier.wait();
                        catch(|| order.iter().map(|i| perform(&list[*i], fs)).collect())
                    })
                    .expect("cannot start a thread")
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("the thread failed".to_string())))
            .collect()
    });
    let mut any_failed = false;
    let mut any_ok = false;
    for (t, r) in results.into_iter().enumerate() {
        let outs = r.map_err(|e| format!("thread {}: {}", t, e))?;
        for (k, (i, o)) in orders[t].iter().zip(&outs).enumerate() {
            ensure!(
                *o == base[*i],
                "thread {}, step {} ({}): {:?}, and alone {:?}",
                t,
                k,
                label(&list[*i]),
                o,
                base[*i]
            );
            any_failed |= failed(o);
            any_ok |= !failed(o);
            ctx.extra += 1;
        }
    }
    if any_failed && any_ok {
        ctx.nontrivial();
    }
    Ok(())
}

/// Encoding, measuring and comparing do not change a tag, however many times, complete or
/// not, and a tag that is alive does not follow another.
fn c26_instances(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let f = factory(&reg);
    let mut live: Vec<(Box<dyn ILTag>, T)> = Vec::new();
    let mut log = String::new();
    let (mut bad, mut good) = (0, 0);
    for _ in 0..4 + s.usize(14) {
        match s.below(9) {
            0..=2 => {
                // A new one, alike now and then.
                let t = match live.last() {
                    Some((_, t)) if s.chance(1, 3) => t.clone(),
                    _ => small_tag(s, &reg),
                };
                let b = enc(&t);
                let tag = f
                    .from_bytes(&b)
                    .map_err(|e| format!("{} was refused after{}: {:?}", hex(&b), log, e))?;
                same(tag.as_ref(), &t, &format!("decoding {} after{}", hex(&b), log))?;
                live.push((tag, t));
                log.push_str(" decode");
                good += 1;
            }
            3 => {
                let w = wrong(s, &reg);
                let k = s.usize(4);
                let b = bury(s, w, k);
                let want = dec(&reg, &b).ok().filter(|x| x.1 == b.len());
                let got = f.from_bytes(&b);
                match (want, got) {
                    (None, Err(_)) => bad += 1,
                    (Some((t, _)), Ok(tag)) => {
                        same(tag.as_ref(), &t, &format!("decoding {} after{}", hex(&b), log))?;
                        live.push((tag, t));
                    }
                    (w, g) => {
                        return Err(format!(
                            "decoding {} after{}: accepted {}, expected {}",
                            hex(&b),
                            log,
                            g.is_ok(),
                            w.is_some()
                        ))
                    }
                }
                log.push_str(" wrong");
            }
            4 if !live.is_empty() => {
                let i = s.usize(live.len());
                let mut w = FaultW::new(s.below(10), true, s.pick(&FKS), s.below(4));
                if live[i].0.serialize(&mut w).is_err() {
                    bad += 1;
                }
                log.push_str(" failed encode");
            }
            5 if !live.is_empty() => {
                let i = s.usize(live.len());
                let (tag, t) = &mut live[i];
                mutate(s, tag.as_mut(), t, &reg);
                log.push_str(" change");
            }
            6 if !live.is_empty() => {
                let i = s.usize(live.len());
                live.remove(i);
                log.push_str(" drop");
            }
            _ if !live.is_empty() => {
                let i = s.usize(live.len());
                let j = s.usize(live.len());
                let (a, b) = (&live[i], &live[j]);
                ensure_eq!(
                    iltag_are_equal(a.0.as_ref(), b.0.as_ref()),
                    enc(&a.1) == enc(&b.1),
                    "equality of {} and {} after{}",
                    show(&a.1),
                    show(&b.1),
                    log
                );
                log.push_str(" compare");
            }
            _ => (),
        }
        for (tag, t) in &live {
            let e = enc(t);
            ensure_eq!(tag.size(), e.len() as u64, "size() of {} after{}", show(t), log);
            let b = tag.to_bytes().map_err(|e| format!("to_bytes() after{}: {:?}", log, e))?;
            ensure!(b == e, "{} encodes to {} after{}, expected {}", show(t), hex(&b), log, hex(&e));
            same(tag.as_ref(), t, &format!("a tag after{}", log))?;
            ctx.extra += 1;
        }
    }
    ctx.describe(|| log.clone());
    if bad > 0 && good > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

//---------------------------------------------------------------------------------------
// Chosen interleavings
//---------------------------------------------------------------------------------------
/// Calls `on` before each operation.
struct HookR<'a> {
    data: &'a [u8],
    pos: usize,
    on: &'a mut dyn FnMut(),
}
impl<'a> Reader for HookR<'a> {
    fn read(&mut self) -> IoResult<u8> {
        (self.on)();
        match self.data.get(self.pos) {
            Some(b) => {
                self.pos += 1;
                Ok(*b)
            }
            None => Err(il2_iltags::io::ErrorKind::EndOfData),
        }
    }
    fn read_all(&mut self, b: &mut [u8]) -> IoResult<()> {
        (self.on)();
        let left = &self.data[self.pos..];
        if b.len() > left.len() {
            return Err(il2_iltags::io::ErrorKind::UnableToReadData);
        }
        b.copy_from_slice(&left[..b.len()]);
        self.pos += b.len();
        Ok(())
    }
}
struct HookW<'a> {
    data: Vec<u8>,
    on: &'a mut dyn FnMut(),
}
impl<'a> Writer for HookW<'a> {
    fn write(&mut self, v: u8) -> IoResult<()> {
        (self.on)();
        self.data.push(v);
        Ok(())
    }
    fn write_all(&mut self, b: &[u8]) -> IoResult<()> {
        (self.on)();
        self.data.extend_from_slice(b);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// As `perform`, with `on` called before each operation of the reader or the writer.
fn perform_hooked(x: &Item, fs: &[Arc<dyn ILTagFactory>], on: &mut dyn FnMut()) -> Out {
    match x {
        Decode { cfg, b, .. } => {
            let mut r = HookR { data: b, pos: 0, on };
            let t = fs[*cfg].deserialize(&mut r);
            let n = r.pos;
            tag_out(t, n)
        }
        Into { cfg, b, old } => {
            let mut t = build(old);
            let mut r = HookR { data: b, pos: 0, on };
            match fs[*cfg].deserialize_into(&mut r, t.as_mut()) {
                Ok(()) => {
                    let n = r.pos;
                    tag_out(Ok(t), n)
                }
                Err(e) => Out::Failed(format!("{:?}", e)),
            }
        }
        Encode { tag, .. } => {
            let mut w = HookW { data: Vec::new(), on };
            match tag.serialize(&mut w) {
                Ok(()) => Out::Written(w.data, tag.size(), tag.value_size()),
                Err(e) => Out::Failed(format!("{:?}", e)),
            }
        }
        Text { b } => {
            let mut r = HookR { data: b, pos: 0, on };
            match deserialize_string_tag_from_value(&mut r) {
                Ok(t) => Out::Text(t, r.pos),
                Err(e) => Out::Failed(format!("{:?}", e)),
            }
        }
        _ => perform(x, fs),
    }
}

/// Only one of the threads runs; which is decided by a seed.
struct Turns {
    /// (whose turn, who is running, random state, switches)
    state: std::sync::Mutex<(usize, Vec<bool>, u64, u64)>,
    changed: std::sync::Condvar,
    every: u64,
}
impl Turns {
    fn next(st: &mut (usize, Vec<bool>, u64, u64)) {
        st.2 = st.2.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let alive: Vec<usize> = (0..st.1.len()).filter(|i| st.1[*i]).collect();
        if !alive.is_empty() {
            let n = alive[(mix(st.2) % alive.len() as u64) as usize];
            if n != st.0 {
                st.3 += 1;
            }
            st.0 = n;
        }
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, (usize, Vec<bool>, u64, u64)> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait(&self, me: usize) {
        let mut st = self.lock();
        while st.0 != me {
            st = self.changed.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
    /// A point where another may run.
    fn point(&self, me: usize) {
        let mut st = self.lock();
        st.2 = st.2.wrapping_add(0x9E37_79B9_7F4A_7C15);
        if mix(st.2 ^ 1) % self.every != 0 {
            return;
        }
        Turns::next(&mut st);
        if st.0 == me {
            return;
        }
        drop(st);
        self.changed.notify_all();
        self.wait(me);
    }
    fn leave(&self, me: usize) {
        let mut st = self.lock();
        st.1[me] = false;
        Turns::next(&mut st);
        drop(st);
        self.changed.notify_all();
    }
}

/// Items, some of them nested very deep.
fn deep_items(s: &mut Src, regs: &[Reg], n: usize) -> (Vec<Item>, bool) {
    let mut list = items(s, regs, n);
    let deep = s.chance(1, 3);
    if deep {
        for _ in 0..1 + s.usize(2) {
            let cfg = s.usize(regs.len());
            let levels = s.pick(&[40usize, 70, 130, 200, 300, 400]);
            let mut t = T::new(3, V::U8(s.below(256) as u8));
            let mode = s.below(4);
            for _ in 0..levels {
                t = match mode {
                    0 => T::std(V::Seq(vec![t])),
                    1 => T::std(V::Arr(vec![t])),
                    2 => T::std(V::Dict(Some(("k".to_string(), t)).into_iter().collect())),
                    _ => wrap(s, t, 2, &regs[cfg]),
                };
            }
            let b = enc(&t);
            if s.chance(2, 3) {
                list.push(Decode { cfg, b, rk: RK::Slice, seed: 0 });
            } else {
                list.push(Encode { tag: shared(&t), t, wk: WK::Vector, seed: 0 });
            }
        }
    }
    (list, deep)
}

fn c26_interleaved(s: &mut Src, ctx: &mut Ctx) -> R {
    let regs = configs(s);
    let n = 2 + s.usize(4);
    let (list, deep) = deep_items(s, &regs, n);
    let n = list.len();
    let base = baselines(&list, &regs)?;
    let threads = 2 + s.usize(if deep { 7 } else { 4 });
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let k = 1 + s.usize(5);
            (0..k).map(|_| if deep && s.chance(1, 2) { n - 1 } else { s.usize(n) }).collect()
        })
        .collect();
    let every = s.pick(&[1u64, 2, 3, 8, 30]);
    ctx.describe(|| {
        format!(
            "{} threads: {:?} of {}",
            threads,
            orders,
            list.iter().map(label).collect::<Vec<_>>().join("; ")
        )
    });
    if deep {
        ctx.class("very deep");
    }
    let fs = factories(&regs);
    let turns = Turns {
        state: std::sync::Mutex::new((0, vec![true; threads], s.any(), 0)),
        changed: std::sync::Condvar::new(),
        every: if deep { every * 8 } else { every },
    };
    let results: Vec<std::result::Result<Vec<Out>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .enumerate()
            .map(|(me, order)| {
                let (fs, list, turns) = (&fs, &list, &turns);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        turns.wait(me);
                        let r = catch(|| {
                            order
                                .iter()
                                .map(|i| perform_hooked(&list[*i], fs, &mut || turns.point(me)))
                                .collect()
                        });
                        turns.leave(me);
                        r
                    })
                    .expect("cannot start a thread")
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("the thread failed".to_string())))
            .collect()
    });
    let switches = turns.lock().3;
    ctx.extra += switches;
    for (t, r) in results.into_iter().enumerate() {
        let outs = r.map_err(|e| format!("thread {}: {}", t, e))?;
        for (k, (i, o)) in orders[t].iter().zip(&outs).enumerate() {
            compatible(&list[*i], o, &base[*i])
                .map_err(|e| format!("thread {}, step {}, with others in between: {}", t, k, e))?;
        }
    }
    if switches >= threads as u64 {
        ctx.nontrivial();
    }
    Ok(())
}

/// The kind of a failure may depend on the kind of reader, and this is not that one.
fn compatible(x: &Item, o: &Out, base: &Out) -> R {
    let ok = match (o, base) {
        (Out::Failed(_), Out::Failed(_)) => true,
        (a, b) => a == b,
    };
    ensure!(ok, "{}: {:?}, and alone {:?}", label(x), o, base);
    Ok(())
}

/// A reader or a writer that uses the library itself.
fn c26_reentrant(s: &mut Src, ctx: &mut Ctx) -> R {
    let regs = configs(s);
    let n = 2 + s.usize(4);
    let (list, deep) = if s.chance(1, 20) { deep_items(s, &regs, n) } else { (items(s, &regs, n), false) };
    let n = list.len();
    let base = baselines(&list, &regs)?;
    let outer: Vec<usize> = (0..1 + s.usize(4)).map(|_| if deep { n - 1 } else { s.usize(n) }).collect();
    let seed = s.any();
    let every = s.pick(&[1u64, 2, 3, 8]) * if deep { 40 } else { 1 };
    ctx.describe(|| {
        format!("{:?} of {}", outer, list.iter().map(label).collect::<Vec<_>>().join("; "))
    });
    let done = apart(|| -> std::result::Result<(u64, u64), String> {
        let fs = factories(&regs);
        let mut inside = 0u64;
        let mut k = 0u64;
        for i in &outer {
            let mut problem = None;
            let mut on = || {
                k += 1;
                let r = mix(seed ^ k);
                if r % every != 0 || inside > 60 {
                    return;
                }
                inside += 1;
                let j = (r >> 20) as usize % n;
                // One more inside that one.
                let mut twice = 0;
                let mut on2 = || {
                    twice += 1;
                    if twice == 1 + (r >> 50) % 5 {
                        let j = (r >> 40) as usize % n;
                        let o = perform(&list[j], &fs);
                        if o != base[j] && problem.is_none() {
                            problem = Some(format!("innermost, {}: {:?}, and alone {:?}", label(&list[j]), o, base[j]));
                        }
                    }
                };
                let o = perform_hooked(&list[j], &fs, &mut on2);
                if let Err(e) = compatible(&list[j], &o, &base[j]) {
                    problem.get_or_insert(format!("inside another, {}", e));
                }
            };
            let o = perform_hooked(&list[*i], &fs, &mut on);
            if let Some(e) = problem {
                return Err(e);
            }
            compatible(&list[*i], &o, &base[*i]).map_err(|e| format!("with others inside, {}", e))?;
        }
        Ok((k, inside))
    })??;
    ctx.extra += done.1;
    if done.1 > 0 {
        ctx.nontrivial();
    }
    Ok(())
}
