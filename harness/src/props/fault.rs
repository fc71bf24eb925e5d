//! C21: a failure of the reader or of the writer at any operation.
use super::*;
use il2_iltags::io::array::{ByteArrayReader, ByteArrayWriter};
use il2_iltags::io::{ErrorKind as IoErr, LimitedReader, ReadReader, WriteWriter};
use il2_iltags::io::data::read_string;
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::serialization::ByteArrayDeserializer;
use il2_iltags::tags::standard::explicit::{deserialize_string_tag_from_value, deserialize_string_tag_from_value_into};
use std::io::{Read, Seek, SeekFrom, Write};

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C21",
        rule: "For each generated tag (or sequence of tags) the operations of its decoding, scanning or serialization are counted, and then each operation, and each byte, is made to fail in turn with one of seven errors, once or for ever, with or without a part of it being done; the outcome, what was written and a retry are checked. Non-trivial: at least four different operations were made to fail, one at a time, each failure having been reached.",
        assumptions: &[
            "a failing operation of the reader may have taken any part of what it was asked, one of the writer may have written any prefix",
            "the adapters for seekable standard streams replace the error with their own, so there only its being an I/O error is asked",
        ],
        suites: vec![
            random("readers, every operation", 40_000, 10_000_000, c21_read_ops),
            random("readers, every byte", 40_000, 10_000_000, c21_read_bytes),
            random("writers, every operation", 40_000, 10_000_000, c21_write_ops),
            random("every room", 40_000, 10_000_000, c21_room),
            random("standard streams", 40_000, 10_000_000, c21_std),
            random("scanning", 40_000, 10_000_000, c21_scan),
            random("large values", 400, 100_000, c21_large),
        ],
    }]
}

#[derive(Debug)]
struct Marker(u64);
impl std::fmt::Display for Marker {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "marker {}", self.0)
    }
}
impl std::error::Error for Marker {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub(super) enum Fk {
    Boxed,
    Io,
    IoEof,
    Read,
    Corrupted,
    End,
    WriteKind,
}
pub(super) const FKS: [Fk; 7] = [Fk::Boxed, Fk::Io, Fk::End, Fk::Read, Fk::Corrupted, Fk::IoEof, Fk::WriteKind];

fn make(k: Fk, n: u64) -> IoErr {
    match k {
        Fk::Boxed => IoErr::BoxedError(Box::new(Marker(n))),
        Fk::Io => IoErr::IOError(std::io::Error::new(std::io::ErrorKind::Other, Marker(n))),
        Fk::IoEof => IoErr::IOError(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, Marker(n))),
        Fk::Read => IoErr::UnableToReadData,
        Fk::Corrupted => IoErr::CorruptedData,
        Fk::End => IoErr::EndOfData,
        Fk::WriteKind => IoErr::UnableToWriteData,
    }
}

/// Tells whether an error is the one injected.
fn is_it(e: &IoErr, k: Fk, n: u64) -> bool {
    match (e, k) {
        (IoErr::BoxedError(b), Fk::Boxed) => b.downcast_ref::<Marker>().map(|m| m.0) == Some(n),
        (IoErr::IOError(e), Fk::Io | Fk::IoEof) => {
            e.get_ref().and_then(|x| x.downcast_ref::<Marker>()).map(|m| m.0) == Some(n)
        }
        (IoErr::UnableToReadData, Fk::Read)
        | (IoErr::CorruptedData, Fk::Corrupted)
        | (IoErr::EndOfData, Fk::End)
        | (IoErr::UnableToWriteData, Fk::WriteKind) => true,
        _ => false,
    }
}
fn is_it_tag(e: &ErrorKind, k: Fk, n: u64) -> bool {
    matches!(e, ErrorKind::IOError(e) if is_it(e, k, n))
}

/// Reads an array; operation `at` fails, or the one that reaches byte `byte`.
pub(super) struct FaultR<'a> {
    pub(super) data: &'a [u8],
    pub(super) pos: usize,
    pub(super) ops: u64,
    pub(super) at: u64,
    pub(super) byte: usize,
    pub(super) forever: bool,
    pub(super) kind: Fk,
    pub(super) hits: u64,
    /// How much of a failed operation is done all the same.
    pub(super) partial: u64,
    pub(super) mark: u64,
}
impl<'a> FaultR<'a> {
    pub(super) fn new(data: &'a [u8]) -> Self {
        FaultR {
            data,
            pos: 0,
            ops: 0,
            at: u64::MAX,
            byte: usize::MAX,
            forever: true,
            kind: Fk::Boxed,
            hits: 0,
            partial: 0,
            mark: 0,
        }
    }
    fn op(&mut self, n: usize) -> IoResult<()> {
        let k = self.ops;
        self.ops += 1;
        if self.ops > 3_000_000 {
            panic!("more than three million operations");
        }
        let hit = (k == self.at || (self.forever && k > self.at))
            || (self.pos <= self.byte && n > 0 && self.byte - self.pos < n)
            || (self.forever && self.hits > 0);
        let hit = hit && (self.forever || self.hits == 0);
        if hit {
            self.hits += 1;
            // A part may be gone.
            let left = self.data.len() - self.pos;
            if self.partial > 0 {
                self.pos += left.min(n * (self.partial as usize % 4) / 4);
            }
            return Err(make(self.kind, self.mark));
        }
        if n > self.data.len() - self.pos {
            return Err(IoErr::EndOfData);
        }
        Ok(())
    }
}
impl<'a> Reader for FaultR<'a> {
    fn read(&mut self) -> IoResult<u8> {
        self.op(1)?;
        self.pos += 1;
        Ok(self.data[self.pos - 1])
    }
    fn read_all(&mut self, b: &mut [u8]) -> IoResult<()> {
        let p = self.pos;
        match self.op(b.len()) {
            Ok(()) => {
                b.copy_from_slice(&self.data[p..p + b.len()]);
                self.pos += b.len();
                Ok(())
            }
            Err(e) => {
                // The part that was read.
                let n = self.pos - p;
                b[..n].copy_from_slice(&self.data[p..p + n]);
                Err(e)
            }
        }
    }
    fn skip(&mut self, n: usize) -> IoResult<()> {
        self.op(n)?;
        self.pos += n;
        Ok(())
    }
}

/// The same, with less of it: the rest is what `Reader` provides.
struct NoSkip<'b, 'a>(&'b mut FaultR<'a>);
impl<'b, 'a> Reader for NoSkip<'b, 'a> {
    fn read(&mut self) -> IoResult<u8> {
        self.0.read()
    }
    fn read_all(&mut self, b: &mut [u8]) -> IoResult<()> {
        self.0.read_all(b)
    }
}
struct OnlyRead<'b, 'a>(&'b mut FaultR<'a>);
impl<'b, 'a> Reader for OnlyRead<'b, 'a> {
    fn read(&mut self) -> IoResult<u8> {
        self.0.read()
    }
}

/// Runs `f` with a reader of one of three styles.
fn styled<X>(style: u64, r: &mut FaultR, f: impl FnOnce(&mut dyn Reader) -> X) -> X {
    match style {
        0 => f(r),
        1 => f(&mut NoSkip(r)),
        _ => f(&mut OnlyRead(r)),
    }
}

/// The ways to decode a whole tag.
fn decode(how: u64, f: &dyn ILTagFactory, t: &T, r: &mut dyn Reader, header: usize, n: usize) -> Result<Box<dyn ILTag>> {
    match how {
        0 => f.deserialize(r),
        1 => {
            let mut x = empty(t.ty(), t.id);
            f.deserialize_into(r, x.as_mut())?;
            Ok(x)
        }
        2 => {
            let mut l = LimitedReader::new(r, n);
            f.deserialize(&mut l)
        }
        _ => {
            // The value only.
            let mut b = vec![0; header];
            r.read_all(&mut b)?;
            let mut x = empty(t.ty(), t.id);
            x.deserialize_value(f, n - header, r)?;
            Ok(x)
        }
    }
}

struct Subject {
    reg: Reg,
    t: T,
    b: Vec<u8>,
    header: usize,
}
fn subject(s: &mut Src) -> Subject {
    let reg = reg_any(s);
    let t = match s.below(3) {
        0 => small_tag(s, &reg),
        _ => container(s, &reg, 60),
    };
    let b = enc(&t);
    let header = b.len() - enc_value(&t.v).len();
    Subject { reg, t, b, header }
}

/// Keeps the cost of a case under control.
fn points(s: &mut Src, total: u64, max: u64) -> Vec<u64> {
    if total <= max {
        (0..total).collect()
    } else {
        let mut v: Vec<u64> = (0..max / 3).collect();
        v.extend(total - max / 3..total);
        v.extend((0..max / 3).map(|_| s.below(total)));
        v
    }
}

fn c21_read_ops(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = subject(s);
    let f = factory(&x.reg);
    let how = s.below(4);
    let style = s.below(3);
    classify(ctx, &x.t);
    ctx.describe(|| format!("{} way {}", show(&x.t), how));
    let n = x.b.len();
    let mut r = FaultR::new(&x.b);
    let got = styled(style, &mut r, |r| decode(how, &f, &x.t, r, x.header, n))
        .map_err(|e| format!("no failure and {:?} for {}", e, show(&x.t)))?;
    same(got.as_ref(), &x.t, "without a failure")?;
    let total = r.ops;
    let pts = points(s, total, 60);
    let (kind, forever, partial) = (s.pick(&FKS), s.chance(1, 2), s.below(4));
    let retry = s.below(total.max(1));
    for k in &pts {
        let mut r = FaultR::new(&x.b);
        r.at = *k;
        r.kind = kind;
        r.forever = forever;
        r.partial = partial;
        r.mark = *k;
        let got = styled(style, &mut r, |r| decode(how, &f, &x.t, r, x.header, n));
        ensure!(r.hits > 0, "operation {} of {} never happened", k, total);
        match got {
            Ok(t) => {
                return Err(format!(
                    "operation {} of {} failed and the tag {} came out of {}",
                    k,
                    total,
                    model(t.as_ref()).map(|t| show(&t)).unwrap_or_default(),
                    show(&x.t)
                ))
            }
            Err(e) => ensure!(
                is_it_tag(&e, kind, *k),
                "operation {} of {} failed with {:?} and the outcome is {:?} for {}",
                k,
                total,
                make(kind, *k),
                e,
                show(&x.t)
            ),
        }
        if *k == retry {
            let got = f.from_bytes(&x.b).map_err(|e| format!("retry: {:?}", e))?;
            same(got.as_ref(), &x.t, "the retry")?;
        }
        ctx.extra += 1;
    }
    let got = f.from_bytes(&x.b).map_err(|e| format!("retry: {:?}", e))?;
    same(got.as_ref(), &x.t, "the last retry")?;
    if pts.len() >= 4 {
        ctx.nontrivial();
    }
    Ok(())
}

fn c21_read_bytes(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = subject(s);
    let f = factory(&x.reg);
    let how = s.below(4);
    let style = s.below(3);
    classify(ctx, &x.t);
    ctx.describe(|| format!("{} way {}", show(&x.t), how));
    let n = x.b.len();
    let pts = points(s, n as u64, 60);
    let (kind, forever, partial) = (s.pick(&FKS), s.chance(1, 2), s.below(4));
    for k in &pts {
        let mut r = FaultR::new(&x.b);
        r.byte = *k as usize;
        r.kind = kind;
        r.forever = forever;
        r.partial = partial;
        r.mark = *k;
        let got = styled(style, &mut r, |r| decode(how, &f, &x.t, r, x.header, n));
        // Every byte of a tag has to be read.
        ensure!(r.hits > 0, "byte {} of {} was never read", k, hex(&x.b));
        match got {
            Ok(t) => {
                return Err(format!(
                    "reading byte {} of {} failed and the tag {} came out",
                    k,
                    hex(&x.b),
                    model(t.as_ref()).map(|t| show(&t)).unwrap_or_default(),
                ))
            }
            Err(e) => ensure!(
                is_it_tag(&e, kind, *k),
                "reading byte {} of {} failed with {:?} and the outcome is {:?}",
                k,
                hex(&x.b),
                make(kind, *k),
                e
            ),
        }
        ctx.extra += 1;
    }
    let got = f.from_bytes(&x.b).map_err(|e| format!("retry: {:?}", e))?;
    same(got.as_ref(), &x.t, "the retry")?;
    if pts.len() >= 4 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Collects what is written; operation `at` fails.
pub(super) struct FaultW {
    pub(super) data: Vec<u8>,
    pub(super) ops: u64,
    pub(super) at: u64,
    pub(super) forever: bool,
    pub(super) kind: Fk,
    pub(super) hits: u64,
    pub(super) partial: u64,
}
impl FaultW {
    pub(super) fn new(at: u64, forever: bool, kind: Fk, partial: u64) -> Self {
        FaultW {
            data: vec![],
            ops: 0,
            at,
            forever,
            kind,
            hits: 0,
            partial,
        }
    }
}
impl Writer for FaultW {
    fn write(&mut self, b: u8) -> IoResult<()> {
        self.write_all(&[b])
    }
    fn write_all(&mut self, b: &[u8]) -> IoResult<()> {
        let k = self.ops;
        self.ops += 1;
        if k == self.at || (self.forever && k > self.at) {
            // Once failed, what comes later would not be in its place.
            if self.hits == 0 {
                let n = b.len() * (self.partial as usize % 4) / 4;
                self.data.extend_from_slice(&b[..n]);
            }
            self.hits += 1;
            return Err(make(self.kind, self.at));
        }
        self.data.extend_from_slice(b);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

fn write_out(how: u64, tag: &dyn ILTag, w: &mut dyn Writer) -> Result<()> {
    match how {
        0 => tag.serialize(w),
        _ => tag.serialize_value(w),
    }
}

fn c21_write_ops(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = subject(s);
    let tag = build(&x.t);
    let how = s.below(3) / 2;
    let want = if how == 0 { &x.b[..] } else { &x.b[x.header..] };
    classify(ctx, &x.t);
    ctx.describe(|| format!("{} value only: {}", show(&x.t), how == 1));
    let mut w = FaultW::new(u64::MAX, true, Fk::Boxed, 0);
    write_out(how, tag.as_ref(), &mut w).map_err(|e| format!("no failure and {:?} for {}", e, show(&x.t)))?;
    ensure!(w.data == want, "without a failure: {} for {}", hex(&w.data), show(&x.t));
    let total = w.ops;
    let pts = points(s, total, 60);
    let (kind, forever, partial) = (s.pick(&FKS), s.chance(1, 2), s.below(4));
    for k in &pts {
        let mut w = FaultW::new(*k, forever, kind, partial);
        let r = write_out(how, tag.as_ref(), &mut w);
        ensure!(w.hits > 0, "operation {} of {} never happened", k, total);
        match r {
            Ok(()) => return Err(format!("operation {} of {} failed and serializing succeeded for {}", k, total, show(&x.t))),
            Err(e) => ensure!(
                is_it_tag(&e, kind, *k),
                "operation {} of {} failed with {:?} and the outcome is {:?} for {}",
                k,
                total,
                make(kind, *k),
                e,
                show(&x.t)
            ),
        }
        ensure!(
            want.starts_with(&w.data),
            "operation {} of {} failed and what was written ({}) is not a prefix of {}",
            k,
            total,
            hex(&w.data),
            hex(want)
        );
        ctx.extra += 1;
    }
    let again = tag.to_bytes().map_err(|e| format!("retry: {:?}", e))?;
    ensure!(again == x.b, "the retry: {}, expected {}", hex(&again), hex(&x.b));
    if pts.len() >= 4 {
        ctx.nontrivial();
    }
    Ok(())
}

/// A standard writer with little room.
struct Room<'a> {
    data: &'a mut Vec<u8>,
    room: usize,
}
impl<'a> Write for Room<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.room - self.data.len());
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c21_room(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = subject(s);
    let tag = build(&x.t);
    let how = s.below(3) / 2;
    let want = if how == 0 { &x.b[..] } else { &x.b[x.header..] };
    classify(ctx, &x.t);
    ctx.describe(|| format!("{} value only: {}", show(&x.t), how == 1));
    let mut pts = points(s, want.len() as u64 + 1, 60);
    pts.push(want.len() as u64);
    pts.push(want.len() as u64 + 3);
    let kind = s.below(3);
    for k in &pts {
        let room = *k as usize;
        let mut v = vec![0xEEu8; room];
        let (r, data) = match kind {
            0 => {
                let (r, n) = {
                    let mut w = ByteArrayWriter::new(&mut v);
                    let r = write_out(how, tag.as_ref(), &mut w);
                    (r, w.get_offset())
                };
                ensure!(v[n..].iter().all(|b| *b == 0xEE), "written after the offset {}", n);
                v.truncate(n);
                (r, v)
            }
            1 => {
                let mut d = vec![];
                let r = {
                    let mut w = Room { data: &mut d, room };
                    let mut w = WriteWriter::new(&mut w);
                    write_out(how, tag.as_ref(), &mut w)
                };
                (r, d)
            }
            _ => {
                let (r, n) = {
                    let mut w = std::io::Cursor::new(&mut v[..]);
                    let r = write_out(how, tag.as_ref(), &mut w);
                    (r, w.position() as usize)
                };
                v.truncate(n);
                (r, v)
            }
        };
        ensure!(
            want.starts_with(&data),
            "with room for {}, what was written ({}) is not a prefix of {}",
            room,
            hex(&data),
            hex(want)
        );
        if room >= want.len() {
            ensure!(r.is_ok() && data == want, "with room for {}: {:?} and {}", room, r, hex(&data));
        } else {
            ensure!(
                matches!(r, Err(ErrorKind::IOError(_))),
                "with room for {} of {} bytes: {:?} for {}",
                room,
                want.len(),
                r,
                show(&x.t)
            );
        }
        ctx.extra += 1;
    }
    ctx.class(["ByteArrayWriter", "WriteWriter", "Cursor"][kind as usize]);
    if pts.len() >= 6 {
        ctx.nontrivial();
    }
    Ok(())
}

/// A standard stream whose operation `at` fails with the marker.
struct FaultS<'a> {
    data: &'a [u8],
    pos: usize,
    ops: u64,
    at: u64,
    hits: u64,
    forever: bool,
    state: u64,
    kind: std::io::ErrorKind,
    out: Vec<u8>,
}
impl<'a> FaultS<'a> {
    fn op(&mut self) -> std::io::Result<usize> {
        let k = self.ops;
        self.ops += 1;
        if self.ops > 1_000_000 {
            panic!("more than a million operations");
        }
        if k == self.at || (self.forever && k > self.at) {
            self.hits += 1;
            return Err(std::io::Error::new(self.kind, Marker(self.at)));
        }
        self.state = mix(self.state);
        Ok(1 + (self.state >> 8) as usize % 9)
    }
}
impl<'a> Read for FaultS<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.op()?.min(b.len()).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl<'a> Write for FaultS<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.op()?.min(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct FaultSeek<'a>(FaultS<'a>);
impl<'a> Read for FaultSeek<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl<'a> Write for FaultSeek<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl<'a> Seek for FaultSeek<'a> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.op()?;
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.0.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.0.pos as i128 + x as i128,
        };
        if n < 0 || n > self.0.data.len() as i128 {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        self.0.pos = n as usize;
        Ok(n as u64)
    }
}

fn c21_std(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = subject(s);
    let f = factory(&x.reg);
    let tag = build(&x.t);
    let mode = s.below(4);
    let seed = s.any();
    let forever = s.chance(1, 2);
    let kind = s.pick(&[
        std::io::ErrorKind::Other,
        std::io::ErrorKind::WouldBlock,
        std::io::ErrorKind::UnexpectedEof,
        std::io::ErrorKind::ConnectionReset,
        std::io::ErrorKind::InvalidData,
        std::io::ErrorKind::TimedOut,
    ]);
    classify(ctx, &x.t);
    ctx.describe(|| format!("{} mode {} {:?}", show(&x.t), mode, kind));
    let run = |at: u64| -> (Result<Option<Box<dyn ILTag>>>, u64, u64, Vec<u8>) {
        let mut d = FaultS {
            data: &x.b,
            pos: 0,
            ops: 0,
            at,
            hits: 0,
            forever,
            state: seed,
            kind,
            out: vec![],
        };
        match mode {
            0 => {
                let r = f.deserialize(&mut ReadReader::new(&mut d)).map(Some);
                (r, d.ops, d.hits, d.out)
            }
            1 => {
                let mut d = FaultSeek(d);
                let r = f.deserialize(&mut d).map(Some);
                (r, d.0.ops, d.0.hits, d.0.out)
            }
            2 => {
                let r = tag.serialize(&mut WriteWriter::new(&mut d)).map(|_| None);
                (r, d.ops, d.hits, d.out)
            }
            _ => {
                let mut d = FaultSeek(d);
                let r = tag.serialize(&mut d).map(|_| None);
                (r, d.0.ops, d.0.hits, d.0.out)
            }
        }
    };
    let (r, total, _, out) = run(u64::MAX);
    match r {
        Ok(Some(t)) => same(t.as_ref(), &x.t, "without a failure")?,
        Ok(None) => ensure!(out == x.b, "without a failure: {}", hex(&out)),
        Err(e) => return Err(format!("no failure and {:?}", e)),
    }
    let pts = points(s, total, 60);
    for k in &pts {
        let (r, _, hits, out) = run(*k);
        ensure!(hits > 0, "operation {} of {} never happened", k, total);
        match r {
            Ok(_) => return Err(format!("operation {} of {} failed and nothing was reported for {}", k, total, show(&x.t))),
            Err(ErrorKind::IOError(e)) => {
                if mode % 2 == 0 {
                    ensure!(
                        is_it(&e, Fk::Io, *k),
                        "operation {} of {} failed with marker {} and the outcome is {:?}",
                        k,
                        total,
                        k,
                        e
                    );
                }
            }
            Err(e) => return Err(format!("operation {} of {} failed and the outcome is {:?}", k, total, e)),
        }
        ensure!(x.b.starts_with(&out), "written {}, not a prefix of {}", hex(&out), hex(&x.b));
        ctx.extra += 1;
    }
    ctx.class(["ReadReader", "Read + Seek", "WriteWriter", "Write + Seek"][mode as usize]);
    if pts.len() >= 4 {
        ctx.nontrivial();
    }
    let got = f.from_bytes(&x.b).map_err(|e| format!("retry: {:?}", e))?;
    same(got.as_ref(), &x.t, "the retry")
}

fn c21_scan(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let n = 1 + s.usize(4);
    let list: Vec<Vec<u8>> = (0..n).map(|_| enc(&if s.chance(1, 6) { gen_tag(s, &reg) } else { small_tag(s, &reg) })).collect();
    let all: Vec<u8> = list.concat();
    ctx.describe(|| hex(&all));
    let by_byte = s.chance(1, 2);
    let style = s.below(3);
    let limited = s.chance(1, 4);
    let scan = |r: &mut dyn Reader| {
        let mut lim;
        let mut r = FwdR(r);
        let mut fwd;
        let r: &mut dyn Reader = if limited {
            lim = LimitedReader::new(&mut r, usize::MAX >> 1);
            fwd = FwdR(&mut lim);
            &mut fwd
        } else {
            &mut r
        };
        let mut r = FwdR(r);
        let mut sc = RawTagScanner::new(&mut r);
        let mut out = Vec::new();
        for _ in 0..n {
            match sc.next_tag() {
                Ok(Some(t)) => out.push((t.id(), t.offset(), t.size(), t.value_size())),
                Ok(None) => return (out, Err(None)),
                Err(e) => return (out, Err(Some(e))),
            }
        }
        (out, Ok(()))
    };
    let mut r = FaultR::new(&all);
    let (full, e) = styled(style, &mut r, &scan);
    ensure!(e.is_ok(), "no failure and {:?} for {}", e, hex(&all));
    let total = if by_byte { all.len() as u64 } else { r.ops };
    let pts = points(s, total, 60);
    let (kind, forever, partial) = (s.pick(&FKS), s.chance(1, 2), s.below(4));
    for k in &pts {
        let mut r = FaultR::new(&all);
        if by_byte {
            r.byte = *k as usize;
        } else {
            r.at = *k;
        }
        r.kind = kind;
        r.forever = forever;
        r.partial = partial;
        r.mark = *k;
        let (got, e) = styled(style, &mut r, &scan);
        ensure!(r.hits > 0, "failure {} of {} never happened for {}", k, total, hex(&all));
        match e {
            Err(Some(e)) => ensure!(
                is_it_tag(&e, kind, *k),
                "failure {} of {} ({:?}) and the outcome is {:?} for {}",
                k,
                total,
                make(kind, *k),
                e,
                hex(&all)
            ),
            e => return Err(format!("failure {} of {} and the outcome is {:?} for {}", k, total, e, hex(&all))),
        }
        ensure!(full.starts_with(&got), "tags {:?} instead of the first of {:?}", got, full);
        ctx.extra += 1;
    }
    let mut r = ByteArrayReader::new(&all);
    let mut sc = RawTagScanner::new(&mut r);
    for x in &full {
        match sc.next_tag() {
            Ok(Some(t)) => ensure_eq!((t.id(), t.offset(), t.size(), t.value_size()), *x, "scanning again"),
            e => return Err(format!("scanning again: {:?}", e)),
        }
    }
    if pts.len() >= 4 {
        ctx.nontrivial();
    }
    Ok(())
}

fn c21_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(true);
    let n = s.pick(&[511usize, 512, 513, 1023, 1024, 1025, 4096, 65_535, 65_536, 70_000, 200_000]) + s.usize(3);
    let v = match s.below(6) {
        0 => V::Bytes(s.bytes(n)),
        1 => V::Str(string_len(s, n)),
        2 => V::BigInt(s.bytes(n)),
        3 => V::ILIntArr((0..n as u64 / 4).map(|i| i * i * i).collect()),
        4 => V::Arr((0..n as u64 / 8).map(|i| T::std(V::U8(i as u8))).collect()),
        _ => V::BigDec(3, s.bytes(n)),
    };
    let mut t = T::std(v);
    for _ in 0..s.usize(3) {
        t = wrap(s, t, 3, &reg);
    }
    let b = enc(&t);
    ctx.describe(|| format!("tag {} of {} bytes", t.id, b.len()));
    ctx.nontrivial();
    let f = factory(&reg);
    let tag = build(&t);
    for _ in 0..12 {
        let p = match s.below(3) {
            0 => s.usize(b.len()),
            1 => b.len() - 1 - s.usize(b.len().min(600)),
            _ => s.usize(b.len().min(1200)),
        };
        let kind = s.pick(&FKS);
        let mut r = FaultR::new(&b);
        r.byte = p;
        r.kind = kind;
        r.mark = p as u64;
        r.forever = s.chance(1, 2);
        r.partial = s.below(4);
        match f.deserialize(&mut r) {
            Ok(_) => return Err(format!("reading byte {} failed and a tag came out (tag {} of {} bytes)", p, t.id, b.len())),
            Err(e) => ensure!(is_it_tag(&e, kind, p as u64), "reading byte {} failed with {:?}: {:?}", p, kind, e),
        }
        // The functions for texts and bytes.
        let text = enc(&T::std(V::Str("x".repeat(n))));
        let q = p.min(n - 1);
        for how in 0..5 {
            let mut r = FaultR::new(&text);
            r.byte = q;
            r.kind = kind;
            r.mark = p as u64;
            r.forever = s.chance(1, 2);
            r.partial = s.below(4);
            let style = s.below(3);
            let e = styled(style, &mut r, |r| match how {
                0 => deserialize_string_tag_from_value(r).map(drop),
                1 => deserialize_string_tag_from_value_into(r, &mut String::new()),
                2 => read_string(r, n).map(drop).map_err(|e| e.into()),
                3 => r.deserialize_bytes(n).map(drop),
                _ => r.deserialize_bytes_into_vec(n, &mut Vec::new()),
            });
            match e {
                Ok(_) => return Err(format!("byte {} of {} failed, and nothing was reported in way {}", q, n, how)),
                Err(e) => ensure!(is_it_tag(&e, kind, p as u64), "byte {} failed with {:?}: {:?} in way {}", q, kind, e, how),
            }
        }
        // Scanning, with and without something before.
        let mut r = FaultR::new(&b);
        r.byte = p;
        r.kind = kind;
        r.mark = p as u64;
        r.forever = s.chance(1, 2);
        r.partial = s.below(4);
        let style = s.below(3);
        let e = styled(style, &mut r, |r| {
            let mut r = FwdR(r);
            RawTagScanner::new(&mut r).next_tag().map(|_| ())
        });
        match e {
            Ok(_) => return Err(format!("byte {} failed and a tag of {} bytes was found, style {}", p, b.len(), style)),
            Err(e) => ensure!(is_it_tag(&e, kind, p as u64), "scanning byte {} failed with {:?}: {:?}", p, kind, e),
        }
        // The data ends there.
        if p > 0 {
            let mut r = FaultR::new(&b[..p]);
            let e = styled(style, &mut r, |r| {
                let mut r = FwdR(r);
                RawTagScanner::new(&mut r).next_tag().map(|_| ())
            });
            ensure!(
                matches!(e, Err(ErrorKind::IOError(_))),
                "scanning {} of {} bytes, style {}: {:?}",
                p,
                b.len(),
                style,
                e
            );
        }
        let mut v = vec![0; p];
        let (r, k) = {
            let mut w = ByteArrayWriter::new(&mut v);
            let r = tag.serialize(&mut w);
            (r, w.get_offset())
        };
        ensure!(matches!(r, Err(ErrorKind::IOError(_))), "room for {} of {}: {:?}", p, b.len(), r);
        ensure!(b.starts_with(&v[..k]), "room for {} of {}: not a prefix", p, b.len());
        ctx.extra += 2;
    }
    let got = f.from_bytes(&b).map_err(|e| format!("retry: {:?}", e))?;
    same(got.as_ref(), &t, "the retry")
}
