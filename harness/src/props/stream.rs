//! C31: the work of decoding is bounded by the input. C32: streams are used frugally.
use super::complexity::{cpu_us, wide_value, WIDE};
use super::decode::{damage, noise};
use super::*;
use crate::alloc::requests;
use il2_iltags::ilint;
use il2_iltags::io::array::ByteArrayReader;
use il2_iltags::io::data::*;
use il2_iltags::io::{ErrorKind as IoErr, LimitedReader, ReadReader, WriteWriter};
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::factory::ILStandardTagFactory;
use il2_iltags::tags::util::*;
use std::cell::Cell;
use std::collections::BTreeSet;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C31",
            rule: "Well-formed, damaged, cut and invented inputs, deeply nested and wide ones among them, are decoded, decoded into a tag, scanned and cloned; the operations of the reader, the tags created and the requests for memory are counted against a multiple of the bytes supplied. Hostile inputs of n and 8n elements are decoded and the processor time compared. Non-trivial: the input is not decoded, or has at least 64 bytes.",
            assumptions: &["nesting up to 200 levels", "processor time may vary by a factor of five"],
            suites: vec![
                random("inputs", 60_000, 20_000_000, c31_inputs),
                random("chains", 8_000, 2_000_000, c31_chains),
                sweep("time of hostile inputs", 65, 8_000, c31_time),
            ],
        },
        Property {
            id: "C32",
            rule: "Sources that record what is asked of them hold exactly a tag, or a tag and more, and are decoded and scanned by every route: nothing may be asked for after the last byte, or after a failure, and each byte is taken once. Sinks that record are written to: nothing may come after a failure, nothing may be held back, each byte once and in order. Non-trivial: the tag is nested, or a failure is injected.",
            assumptions: &["requests for no bytes do not count"],
            suites: vec![
                random("sources", 60_000, 20_000_000, c32_sources),
                random("failing sources", 60_000, 20_000_000, c32_failing_sources),
                random("standard sources", 60_000, 20_000_000, c32_std_sources),
                random("sinks", 60_000, 20_000_000, c32_sinks),
                random("integers and texts", 100_000, 20_000_000, c32_data),
                random("wrong data", 60_000, 20_000_000, c32_wrong),
            ],
        },
    ]
}

//---------------------------------------------------------------------------------------
// Sources and sinks that watch
//---------------------------------------------------------------------------------------
/// A source that records how it is used.
struct Watch<'a> {
    data: &'a [u8],
    pos: usize,
    ops: u64,
    max_ops: u64,
    /// This operation fails.
    at: u64,
    failed: bool,
    after_failure: u64,
    /// How many times more was asked than there is.
    past: u64,
}
impl<'a> Watch<'a> {
    fn new(data: &'a [u8]) -> Self {
        Watch {
            data,
            pos: 0,
            ops: 0,
            max_ops: 5_000_000,
            at: u64::MAX,
            failed: false,
            after_failure: 0,
            past: 0,
        }
    }
    fn op(&mut self, n: usize) -> IoResult<()> {
        let k = self.ops;
        self.ops += 1;
        if self.ops > self.max_ops {
            panic!("more than {} operations of the reader", self.max_ops);
        }
        if self.failed {
            if n > 0 {
                self.after_failure += 1;
            }
            return Err(IoErr::UnableToReadData);
        }
        if k == self.at {
            self.failed = true;
            return Err(IoErr::UnableToReadData);
        }
        if n > self.data.len() - self.pos {
            self.past += 1;
            self.failed = true;
            return Err(IoErr::EndOfData);
        }
        Ok(())
    }
}
impl Reader for Watch<'_> {
    fn read(&mut self) -> IoResult<u8> {
        self.op(1)?;
        self.pos += 1;
        Ok(self.data[self.pos - 1])
    }
    fn read_all(&mut self, b: &mut [u8]) -> IoResult<()> {
        self.op(b.len())?;
        b.copy_from_slice(&self.data[self.pos..self.pos + b.len()]);
        self.pos += b.len();
        Ok(())
    }
    fn skip(&mut self, n: usize) -> IoResult<()> {
        self.op(n)?;
        self.pos += n;
        Ok(())
    }
}
struct NoSkip<'b, 'a>(&'b mut Watch<'a>);
impl Reader for NoSkip<'_, '_> {
    fn read(&mut self) -> IoResult<u8> {
        self.0.read()
    }
    fn read_all(&mut self, b: &mut [u8]) -> IoResult<()> {
        self.0.read_all(b)
    }
}
struct OnlyRead<'b, 'a>(&'b mut Watch<'a>);
impl Reader for OnlyRead<'_, '_> {
    fn read(&mut self) -> IoResult<u8> {
        self.0.read()
    }
}
fn styled<X>(style: u64, r: &mut Watch, f: impl FnOnce(&mut dyn Reader) -> X) -> X {
    match style {
        0 => f(r),
        1 => f(&mut NoSkip(r)),
        _ => f(&mut OnlyRead(r)),
    }
}

thread_local! {
    static CREATED: Cell<u64> = const { Cell::new(0) };
    static MAX_CREATED: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// Counts the tags that are created.
struct Counted(Box<dyn ILTagCreator>);
impl ILTagCreator for Counted {
    fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> {
        let n = CREATED.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let max = MAX_CREATED.with(|c| c.get());
        if n > max {
            panic!("more than {} tags created", max);
        }
        self.0.create_empty_tag(id)
    }
}
fn counting_factory(reg: &Reg) -> ILStandardTagFactory {
    let mut f = factory(reg);
    let mut ids: BTreeSet<u64> = (0..32).collect();
    ids.extend(reg.map.keys());
    for id in ids {
        if let Some(c) = f.engine().deregister(id) {
            f.engine().register(id, Box::new(Counted(c)));
        }
    }
    f
}

//---------------------------------------------------------------------------------------
// C31
//---------------------------------------------------------------------------------------
const WAYS: [&str; 6] = ["deserialize()", "deserialize_into()", "from_bytes()", "next_tag()", "iltag_clone_with_factory()", "deserialize() with a limit"];

/// Performs an operation on `b` and looks at what it took. Tells whether it succeeded.
fn work(f: &dyn ILTagFactory, reg: &Reg, b: &[u8], way: usize, style: u64, what: &dyn Fn() -> String) -> std::result::Result<bool, String> {
    let n = b.len() as u64;
    let max_ops = 6 * n + 32;
    let max_created = 2 * n + 8;
    let max_requests = 12 * n + 100;
    let tag = if way == 4 {
        match f.from_bytes(b) {
            Ok(t) => Some(t),
            Err(_) => return Ok(false),
        }
    } else {
        None
    };
    CREATED.with(|c| c.set(0));
    MAX_CREATED.with(|c| c.set(max_created));
    let mut w = Watch::new(b);
    w.max_ops = max_ops;
    let before = requests();
    let r = catch(|| match way {
        0 => styled(style, &mut w, |r| f.deserialize(r).is_ok()),
        1 => {
            let id = ref_ilint_dec(b).map_or(16, |x| x.0);
            match reg.ty(id) {
                Some(ty) => {
                    let mut t = empty(ty, id);
                    styled(style, &mut w, |r| f.deserialize_into(r, t.as_mut()).is_ok())
                }
                None => false,
            }
        }
        2 => f.from_bytes(b).is_ok(),
        3 => styled(style, &mut w, |r| {
            let mut r = FwdR(r);
            let mut sc = RawTagScanner::new(&mut r);
            loop {
                match sc.next_tag() {
                    Ok(Some(_)) => (),
                    Ok(None) => return true,
                    Err(_) => return false,
                }
            }
        }),
        4 => iltag_clone_with_factory(f, tag.as_deref().unwrap()).is_ok(),
        _ => styled(style, &mut w, |r| {
            let mut l = LimitedReader::new(r, b.len());
            f.deserialize(&mut l).is_ok()
        }),
    });
    let asked = requests() - before;
    MAX_CREATED.with(|c| c.set(u64::MAX));
    let ok = match r {
        Ok(ok) => ok,
        Err(e) => return Err(format!("{} of {} bytes: {}: {}", WAYS[way], n, e, what())),
    };
    ensure!(
        asked <= max_requests,
        "{} of {} bytes asked {} times for memory: {}",
        WAYS[way],
        n,
        asked,
        what()
    );
    Ok(ok)
}

fn c31_all(s: &mut Src, ctx: &mut Ctx, reg: &Reg, b: &[u8]) -> R {
    let f = counting_factory(reg);
    let what = || hex(b);
    let mut ok = true;
    for way in 0..WAYS.len() {
        let style = s.below(3);
        ok &= work(&f, reg, b, way, style, &what)?;
    }
    if !ok || b.len() >= 64 {
        ctx.nontrivial();
    }
    ctx.class(if ok { "decoded" } else { "not decoded" });
    Ok(())
}

fn c31_inputs(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let mut b = match s.below(4) {
        0 => {
            let mut b = vec![];
            noise(s, &mut b, 4, &reg);
            b
        }
        1 => enc(&small_tag(s, &reg)),
        _ => enc(&container(s, &reg, 300)),
    };
    if s.chance(3, 4) {
        for _ in 0..s.usize(3) {
            damage(s, &mut b);
        }
    }
    if s.chance(1, 6) {
        let n = s.usize(b.len() + 1);
        b.truncate(n);
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    c31_all(s, ctx, &reg, &b)
}

/// Deep nestings with something at the bottom, or on the way.
fn c31_chains(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let max = if s.chance(1, 3) { 200 } else { 40 };
    let n = 1 + s.usize(max);
    let mode = s.below(4);
    let mut t = match s.below(5) {
        0 => T::new(explicit_id(s), V::Raw(vec![1])),
        1 => T::new(17, V::Raw(vec![0xff])),
        2 => T::new(15, V::Raw(vec![])),
        3 => wide_value(s.below(6), 0, 200),
        _ => small_tag(s, &reg),
    };
    let wide = s.chance(1, 3);
    for _ in 0..n {
        t = wrap(s, t, mode, &reg);
        if wide && s.chance(1, 4) {
            match &mut t.v {
                V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => {
                    for _ in 0..3 {
                        v.insert(0, T::std(V::Seq(vec![T::std(V::Null)])));
                    }
                }
                _ => (),
            }
        }
    }
    let mut b = enc(&t);
    match s.below(4) {
        0 => {
            let k = s.usize(b.len() + 1);
            b.truncate(k);
        }
        1 => damage(s, &mut b),
        2 => {
            let k = b.len() - 1;
            b[k] ^= 0xff;
        }
        _ => (),
    }
    if n >= 8 {
        ctx.class("8 levels or more");
    }
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| format!("{} levels: {}", n, hex(&b)));
    c31_all(s, ctx, &reg, &b)
}

const KEYS: [&str; 6] = [
    "with the same key everywhere",
    "with every key twice, in two passes",
    "with every key twice in a row",
    "with every key twice, backwards then",
    "with half of the keys once and then one of them",
    "with a few keys in turn",
];
const HOSTILE: [&str; 10] = [
    "cut at the end",
    "with a wrong last byte",
    "with an unknown tag at the end",
    "with a count one too high",
    "with a count one too low",
    "with its elements in the longest forms",
    "(its keys)",
    "followed by another byte",
    "a stream of tags",
    "with wrong bytes in its second half",
];
fn hostile(kind: u64, key: u64, how: usize, n: usize) -> Vec<u8> {
    if how == 6 {
        // No reference can encode this: it is a map there.
        let mut v = ref_ilint(n as u64);
        for i in 0..n {
            let k = match kind % 6 {
                0 => 0,
                1 => i % (n / 2),
                2 => i / 2,
                3 => i.min(n - 1 - i),
                4 => i.min(n / 2),
                _ => i % 5,
            };
            v.extend(enc(&T::std(V::Str(format!("key {}", k)))));
            v.extend(enc(&T::std(V::Str((i % 7).to_string()))));
        }
        return enc(&T::new(30 + kind / 6 % 2, V::Raw(v)));
    }
    let mut t = wide_value(kind, key, n);
    if how == 2 {
        match &mut t.v {
            V::Arr(v) | V::Seq(v) => v.push(T::new(26, V::Raw(vec![1, 2, 3]))),
            V::Dict(m) => {
                m.insert("\u{10ffff}".into(), T::new(26, V::Raw(vec![])));
            }
            _ => (),
        }
    }
    if how == 8 {
        return enc_value(&T::std(V::Seq(vec![t, T::std(V::Null)])).v)[..]
            .iter()
            .cloned()
            .chain((0..n).flat_map(|i| enc(&T::std(V::U8(i as u8)))))
            .collect();
    }
    let mut first = true;
    let mut b = enc_edit(&t, &mut |_, site, v, _| {
        let v = if site == Site::Count && first {
            first = false;
            match how {
                3 => v + 1,
                4 => v - 1,
                _ => v,
            }
        } else {
            v
        };
        (v, if how == 5 { 9 } else { 0 })
    })
    .0;
    match how {
        0 => {
            b.pop();
        }
        1 => *b.last_mut().unwrap() = 0xff,
        7 => b.push(0),
        9 => {
            let k = b.len() / 2;
            b[k..].iter_mut().for_each(|x| *x = 0xff);
        }
        _ => (),
    }
    b
}

fn c31_times(f: &dyn ILTagFactory, b: &[u8], which: [bool; 4]) -> [f64; 4] {
    let mut r = [f64::MAX; 4];
    for _ in 0..2 {
        for (k, x) in r.iter_mut().enumerate() {
            if !which[k] || (*x < f64::MAX && *x > 200_000.0) {
                continue;
            }
            let t0 = cpu_us();
            match k {
                0 => {
                    let mut rd = ByteArrayReader::new(b);
                    let _ = std::hint::black_box(f.deserialize(&mut rd));
                }
                1 => {
                    let _ = std::hint::black_box(f.from_bytes(b));
                }
                2 => {
                    let id = ref_ilint_dec(b).map_or(16, |x| x.0);
                    if let Some(ty) = Reg::std(true).ty(id) {
                        let mut t = empty(ty, id);
                        let mut rd = ByteArrayReader::new(b);
                        let _ = std::hint::black_box(f.deserialize_into(&mut rd, t.as_mut()));
                    }
                }
                _ => {
                    let mut rd = ByteArrayReader::new(b);
                    let mut sc = RawTagScanner::new(&mut rd);
                    while let Ok(Some(x)) = sc.next_tag() {
                        std::hint::black_box(x.offset());
                    }
                }
            }
            *x = x.min(cpu_us() - t0);
        }
    }
    r
}

fn c31_time(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index((WIDE.len() * HOSTILE.len()) as u64);
    let kind = i % WIDE.len() as u64;
    let how = (i / WIDE.len() as u64) as usize;
    let key = s.below(4);
    let n = match kind {
        7..=10 => 20_000 + s.usize(20_000),
        0 | 1 | 11 | 12 => 2_500 + s.usize(2_000),
        _ => 6_000 + s.usize(6_000),
    };
    let shape = match how {
        6 => format!("dictionary {} of {} elements {}", 30 + kind / 6 % 2, n, KEYS[kind as usize % 6]),
        _ => format!("{} ({}) of {} elements {}", WIDE[kind as usize], key, n, HOSTILE[how]),
    };
    ctx.describe(|| shape.clone());
    ctx.nontrivial();
    let f = ILStandardTagFactory::new(s.chance(1, 2));
    let (small, large) = (hostile(kind, key, how, n), hostile(kind, key, how, 8 * n));
    let mut slow = [true; 4];
    let mut seen = [(0.0, 0.0); 4];
    for _ in 0..3 {
        let (a, b) = (c31_times(&f, &small, slow), c31_times(&f, &large, slow));
        for k in 0..4 {
            slow[k] = slow[k] && b[k] > 40.0 * a[k].max(100.0);
            seen[k] = (a[k], b[k]);
        }
        if slow == [false; 4] {
            return Ok(());
        }
    }
    for k in 0..4 {
        ensure!(
            !slow[k],
            "{} of a {} takes {:.0} us, and {:.0} us with 8 times as many",
            WAYS[k],
            shape,
            seen[k].0,
            seen[k].1
        );
    }
    Ok(())
}

//---------------------------------------------------------------------------------------
// C32
//---------------------------------------------------------------------------------------
struct Subject {
    reg: Reg,
    t: T,
    b: Vec<u8>,
    header: usize,
}
fn subject(s: &mut Src) -> Subject {
    let reg = reg_any(s);
    let t = match s.below(4) {
        0 => small_tag(s, &reg),
        1 => gen_tag(s, &reg),
        _ => container(s, &reg, 60),
    };
    let b = enc(&t);
    let header = b.len() - enc_value(&t.v).len();
    Subject { reg, t, b, header }
}

/// The routes from a source to a tag, or to where it ends.
const ROUTES: [&str; 6] = ["deserialize()", "deserialize_into()", "deserialize() with the limit", "deserialize() with a far limit", "deserialize_value()", "next_tag()"];
fn route(k: u64, f: &dyn ILTagFactory, x: &Subject, r: &mut dyn Reader) -> Result<()> {
    match k {
        0 => f.deserialize(r).map(drop),
        1 => {
            let mut t = empty(x.t.ty(), x.t.id);
            f.deserialize_into(r, t.as_mut())
        }
        2 => {
            let mut l = LimitedReader::new(r, x.b.len());
            f.deserialize(&mut l).map(drop)
        }
        3 => {
            let mut l = LimitedReader::new(r, x.b.len() + 100);
            let mut l = LimitedReader::new(&mut l, usize::MAX);
            f.deserialize(&mut l).map(drop)
        }
        4 => {
            let mut b = vec![0; x.header];
            r.read_all(&mut b)?;
            let mut t = empty(x.t.ty(), x.t.id);
            t.deserialize_value(f, x.b.len() - x.header, r)
        }
        _ => {
            let mut r = FwdR(r);
            let mut sc = RawTagScanner::new(&mut r);
            match sc.next_tag()? {
                Some(_) => Ok(()),
                None => Err(ErrorKind::UnableToSerialize),
            }
        }
    }
}

fn c32_sources(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = subject(s);
    let f = factory(&x.reg);
    if x.t.depth() > 1 {
        ctx.nontrivial();
    }
    ctx.describe(|| show(&x.t));
    for k in 0..6 {
        let style = s.below(3);
        // Exactly the tag.
        let mut w = Watch::new(&x.b);
        let r = styled(style, &mut w, |r| route(k, &f, &x, r));
        ensure!(r.is_ok(), "{} of {}: {:?}", ROUTES[k as usize], show(&x.t), r);
        ensure!(
            w.past == 0 && w.after_failure == 0,
            "{} of {} asked for more than the {} bytes of the tag",
            ROUTES[k as usize],
            show(&x.t),
            x.b.len()
        );
        ensure_eq!(w.pos, x.b.len(), "the bytes taken");
        // With more behind.
        let mut long = x.b.clone();
        long.extend_from_slice(&[0x11, 3, 3, 0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        let mut w = Watch::new(&long);
        let r = styled(style, &mut w, |r| route(k, &f, &x, r));
        ensure!(r.is_ok(), "{} of {} with more behind: {:?}", ROUTES[k as usize], show(&x.t), r);
        ensure!(
            w.pos == x.b.len() && w.past == 0,
            "{} of {} took {} bytes instead of {}",
            ROUTES[k as usize],
            show(&x.t),
            w.pos,
            x.b.len()
        );
    }
    Ok(())
}

fn c32_failing_sources(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = subject(s);
    let f = factory(&x.reg);
    ctx.nontrivial();
    let k = s.below(6);
    let style = s.below(3);
    ctx.describe(|| format!("{} of {}", ROUTES[k as usize], show(&x.t)));
    let mut w = Watch::new(&x.b);
    let r = styled(style, &mut w, |r| route(k, &f, &x, r));
    ensure!(r.is_ok(), "{} of {}: {:?}", ROUTES[k as usize], show(&x.t), r);
    let total = w.ops;
    for i in 0..12 {
        // The failure of an operation, or the end of the data.
        let cut = s.chance(1, 3);
        let at = if i < 3 && !cut { i.min(total - 1) } else { s.below(total) };
        let end = if cut { s.usize(x.b.len()) } else { x.b.len() };
        let mut w = Watch::new(&x.b[..end]);
        if !cut {
            w.at = at;
        }
        let r = styled(style, &mut w, |r| route(k, &f, &x, r));
        ensure!(r.is_err(), "{} of {} succeeded although the source failed", ROUTES[k as usize], show(&x.t));
        ensure!(
            w.after_failure == 0,
            "{} of {} asked the source again {} times after it failed at operation {}",
            ROUTES[k as usize],
            show(&x.t),
            w.after_failure,
            w.ops - w.after_failure - 1
        );
        ctx.extra += 1;
    }
    Ok(())
}

/// A standard stream that would block if asked for more than there is.
struct Live<'a> {
    data: &'a [u8],
    pos: usize,
    state: u64,
    /// The call that fails.
    at: u64,
    ops: u64,
    failed: bool,
    blocked: u64,
    after_failure: u64,
}
impl<'a> Live<'a> {
    fn new(data: &'a [u8], state: u64) -> Self {
        Live {
            data,
            pos: 0,
            state,
            at: u64::MAX,
            ops: 0,
            failed: false,
            blocked: 0,
            after_failure: 0,
        }
    }
}
impl std::io::Read for Live<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after_failure += 1;
            return Err(std::io::ErrorKind::ConnectionReset.into());
        }
        let k = self.ops;
        self.ops += 1;
        if k == self.at {
            self.failed = true;
            return Err(std::io::ErrorKind::ConnectionReset.into());
        }
        self.state = mix(self.state);
        if self.state % 6 == 0 && self.pos < self.data.len() {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = self.data.len() - self.pos;
        if n == 0 {
            self.blocked += 1;
            self.failed = true;
            return Ok(0);
        }
        let n = n.min(b.len()).min(1 + (self.state >> 20) as usize % 40);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct LiveSeek<'a>(Live<'a>);
impl std::io::Read for LiveSeek<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl std::io::Seek for LiveSeek<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            std::io::SeekFrom::Start(x) => x as i128,
            std::io::SeekFrom::End(x) => self.0.data.len() as i128 + x as i128,
            std::io::SeekFrom::Current(x) => self.0.pos as i128 + x as i128,
        };
        if n < 0 || n > self.0.data.len() as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.0.pos = n as usize;
        Ok(n as u64)
    }
}

fn c32_std_sources(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = subject(s);
    let f = factory(&x.reg);
    if x.t.depth() > 1 {
        ctx.nontrivial();
    }
    ctx.describe(|| show(&x.t));
    let seek = s.chance(1, 3);
    let seed = s.any();
    let k = s.below(6);
    let run = |l: Live| -> (Result<()>, usize, u64, u64, u64) {
        if seek {
            let mut l = LiveSeek(l);
            let r = route(k, &f, &x, &mut l);
            (r, l.0.pos, l.0.blocked, l.0.after_failure, l.0.ops)
        } else {
            let mut l = l;
            let r = route(k, &f, &x, &mut ReadReader::new(&mut l));
            (r, l.pos, l.blocked, l.after_failure, l.ops)
        }
    };
    let (r, pos, blocked, _, ops) = run(Live::new(&x.b, seed));
    ensure!(
        r.is_ok() && blocked == 0 && pos == x.b.len(),
        "{} of {} from a connection (seekable: {}): {:?}, {} of {} bytes taken, asked {} times for more than there is",
        ROUTES[k as usize],
        show(&x.t),
        seek,
        r,
        pos,
        x.b.len(),
        blocked
    );
    let mut long = x.b.clone();
    long.extend_from_slice(&x.b);
    long.push(0xff);
    let (r, pos, ..) = run(Live::new(&long, seed));
    ensure!(
        r.is_ok() && pos == x.b.len(),
        "{} of {} with more behind took {} bytes instead of {}",
        ROUTES[k as usize],
        show(&x.t),
        pos,
        x.b.len()
    );
    if ops > 0 {
        for _ in 0..6 {
            let mut l = Live::new(&x.b, seed);
            l.at = s.below(ops);
            let at = l.at;
            let (r, _, _, after, _) = run(l);
            ensure!(
                r.is_err() && after == 0,
                "{} of {} (seekable: {}): the connection failed at operation {} of {}; {:?}, and it was used {} times again",
                ROUTES[k as usize],
                show(&x.t),
                seek,
                at,
                ops,
                r,
                after
            );
            ctx.extra += 1;
        }
    }
    // The end of the stream within the tag is seen once.
    for _ in 0..3 {
        let end = s.usize(x.b.len());
        let (r, _, blocked, after, _) = run(Live::new(&x.b[..end], seed));
        ensure!(
            r.is_err() && after == 0 && blocked <= 1,
            "{} of {} (seekable: {}): the stream ended after {} bytes; {:?}, and it was read {} times again",
            ROUTES[k as usize],
            show(&x.t),
            seek,
            end,
            r,
            after
        );
        ctx.extra += 1;
    }
    Ok(())
}

/// A sink that records how it is used.
struct Sink {
    data: Vec<u8>,
    room: usize,
    failed: bool,
    after_failure: u64,
    std_state: u64,
}
impl Sink {
    fn new(room: usize, std_state: u64) -> Self {
        Sink {
            data: vec![],
            room,
            failed: false,
            after_failure: 0,
            std_state,
        }
    }
}
impl Writer for Sink {
    fn write(&mut self, b: u8) -> IoResult<()> {
        Writer::write_all(self, &[b])
    }
    fn write_all(&mut self, b: &[u8]) -> IoResult<()> {
        if self.failed && !b.is_empty() {
            self.after_failure += 1;
            return Err(IoErr::UnableToWriteData);
        }
        if self.data.len() + b.len() > self.room {
            self.failed = true;
            return Err(IoErr::UnableToWriteData);
        }
        self.data.extend_from_slice(b);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}
/// The same as a standard writer.
struct StdSink(Sink);
impl std::io::Write for StdSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.0.failed {
            self.0.after_failure += 1;
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.0.std_state = mix(self.0.std_state);
        if self.0.std_state % 6 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.0.room - self.0.data.len()).min(1 + (self.0.std_state >> 20) as usize % 40);
        if n == 0 {
            self.0.failed = true;
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.0.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c32_sinks(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = subject(s);
    let tag = build(&x.t);
    ctx.nontrivial();
    ctx.describe(|| show(&x.t));
    let value = s.chance(1, 3);
    let want = if value { &x.b[x.header..] } else { &x.b[..] };
    let standard = s.chance(1, 2);
    let seed = s.any();
    for i in 0..8 {
        let room = match i {
            0 => want.len(),
            1 => want.len() + 1 + s.usize(50),
            _ => s.usize(want.len() + 1),
        };
        let out = |w: &mut dyn Writer| if value { tag.serialize_value(w) } else { tag.serialize(w) };
        let sink = Sink::new(room, seed);
        // What a dropped adapter still writes comes too late.
        let (r, sink) = if standard {
            let mut w = StdSink(sink);
            let mut a = WriteWriter::new(&mut w);
            let r = out(&mut a);
            std::mem::forget(a);
            (r, w.0)
        } else {
            let mut w = sink;
            (out(&mut w), w)
        };
        ensure_eq!(r.is_ok(), room >= want.len(), "success with room for {} of {} bytes", room, want.len());
        ensure!(
            if r.is_ok() { sink.data == want } else { want.starts_with(&sink.data) },
            "with room for {}, {} was written for {} ({:?})",
            room,
            hex(&sink.data),
            hex(want),
            r
        );
        ensure!(
            sink.after_failure == 0,
            "the sink was used {} times after it failed, with room for {} of {} bytes of {}",
            sink.after_failure,
            room,
            want.len(),
            show(&x.t)
        );
        ctx.extra += 1;
    }
    Ok(())
}

/// The functions for integers, texts and bytes.
fn c32_data(s: &mut Src, ctx: &mut Ctx) -> R {
    let v = u64_any(s);
    let st = string_any(s, 300);
    let form = if s.chance(1, 3) { 1 + s.usize(9) } else { 0 };
    let k = s.below(14);
    let b = match k {
        0..=3 => ref_ilint_form(v, form),
        4 | 5 => enc(&T::std(V::Str(st.clone()))),
        6 => st.as_bytes().to_vec(),
        _ => {
            let n = [1, 2, 4, 8, 4, 8, 5][k as usize - 7];
            s.bytes(n)
        }
    };
    ctx.describe(|| format!("operation {} on {}", k, hex(&b)));
    let op = |r: &mut dyn Reader| -> bool {
        let mut r = FwdR(r);
        match k {
            0 => ilint::decode(&mut r).is_ok(),
            1 => r.read_ilint().is_ok(),
            2 => r.read_signed_ilint().is_ok(),
            3 => il2_iltags::tags::deserialize_ilint(&mut r).is_ok(),
            4 => deserialize_string_tag_from_value(&mut r).is_ok(),
            5 => deserialize_string_tag_from_value_into(&mut r, &mut String::from("before")).is_ok(),
            6 => r.read_string(b.len()).is_ok(),
            7 => read_u8(&mut r).is_ok(),
            8 => read_u16(&mut r).is_ok(),
            9 => read_i32(&mut r).is_ok(),
            10 => read_u64(&mut r).is_ok(),
            11 => read_f32(&mut r).is_ok(),
            12 => read_f64(&mut r).is_ok(),
            _ => il2_iltags::tags::deserialize_bytes(5, &mut r).is_ok(),
        }
    };
    let style = s.below(3);
    let overflow = k <= 3 && ref_ilint_dec(&b).is_err();
    let mut w = Watch::new(&b);
    let ok = styled(style, &mut w, &op);
    ensure_eq!(ok, !overflow, "success of operation {} on {}", k, hex(&b));
    ensure!(w.past == 0 && w.pos == b.len(), "operation {} on {} took {} bytes, asked for more: {}", k, hex(&b), w.pos, w.past);
    if w.ops > 0 && !b.is_empty() {
        ctx.nontrivial();
        let total = w.ops;
        let mut w = Watch::new(&b);
        w.at = s.below(total);
        let ok = styled(style, &mut w, &op);
        // A request for nothing may fail or not.
        ensure!(w.after_failure == 0, "operation {} on {} went on after a failure", k, hex(&b));
        let _ = ok;
        let end = s.usize(b.len());
        let mut w = Watch::new(&b[..end]);
        let ok = styled(style, &mut w, &op);
        ensure!(!ok && w.after_failure == 0, "operation {} on {} cut to {}: {}, went on: {}", k, hex(&b), end, ok, w.after_failure);
    }
    // In the other direction.
    let room = s.usize(b.len() + 2);
    let mut sink = Sink::new(room, 0);
    let ok = match k {
        0 => ilint::encode(v, &mut sink).is_ok(),
        1 => sink.write_ilint(v).is_ok(),
        2 => sink.write_signed_ilint(v as i64).is_ok(),
        3 => il2_iltags::tags::serialize_ilint(v, &mut sink).is_ok(),
        4 | 5 => serialize_string_tag_from_value(&st, &mut sink).is_ok(),
        6 => write_string(&st, &mut sink).is_ok(),
        7 => write_u8(v as u8, &mut sink).is_ok(),
        8 => write_u16(v as u16, &mut sink).is_ok(),
        9 => write_i32(v as i32, &mut sink).is_ok(),
        10 => write_u64(v, &mut sink).is_ok(),
        11 => write_f32(v as f32, &mut sink).is_ok(),
        12 => write_f64(v as f64, &mut sink).is_ok(),
        _ => il2_iltags::tags::serialize_bytes(&b, &mut sink).is_ok(),
    };
    ensure!(
        sink.after_failure == 0 && ok != sink.failed,
        "operation {} on a sink with room for {}: {}, failed: {}, used again: {}",
        k,
        room,
        ok,
        sink.failed,
        sink.after_failure
    );
    Ok(())
}

/// Whatever is wrong with the data, nothing after the declared end of the tag is taken.
fn c32_wrong(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let mut b = if s.chance(1, 4) {
        let mut b = vec![];
        noise(s, &mut b, 3, &reg);
        b
    } else {
        enc(&container(s, &reg, 60))
    };
    for _ in 0..1 + s.usize(3) {
        damage(s, &mut b);
    }
    b.extend_from_slice(&[0; 12]);
    let end = match scan_one(&b, 0) {
        Ok(x) => (x.end as usize).min(b.len()),
        Err(_) => b.len(),
    };
    ctx.key = Some(hash_bytes(&b));
    ctx.describe(|| hex(&b));
    let f = factory(&reg);
    let mut w = Watch::new(&b);
    let ok = styled(s.below(3), &mut w, |r| f.deserialize(r).is_ok());
    if !ok {
        ctx.nontrivial();
    }
    ensure!(
        w.pos <= end && w.after_failure == 0,
        "deserialize() of {} took {} bytes, {} belong to the tag; {} uses after the end",
        hex(&b),
        w.pos,
        end,
        w.after_failure
    );
    Ok(())
}
