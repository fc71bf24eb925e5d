//! C20: the adapters for standard readers, writers and seekable streams.
use super::*;
use crate::rio::interrupt;
use crate::rio::{Chunky, ChunkySeek, ChunkyW};
use il2_iltags::io::array::{ByteArrayReader, ByteArrayWriter, MemoryReader};
use il2_iltags::io::std_io::SizedSeek;
use il2_iltags::io::{ErrorKind as IoErr, ReadReader, WriteWriter};
use std::io::{BufReader, Cursor, Read, Seek, SeekFrom, Write};

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C20",
        rule: "Histories of reads, skips, writes and queries run through the adapters over streams that split, interrupt or fail transfers, that are huge, or are real files, and are compared with a plain array and a position. Non-trivial: at least one operation that crosses a split transfer, an interruption, the end of the stream or an injected failure; a skip or a query beyond 32 bits; a tag moved through the adapters.",
        assumptions: &[
            "the standard streams given to the adapters follow the contracts of std::io::Read, Write and Seek",
            "the position of a stream after a failed read or write is not specified and is set again before going on",
        ],
        suites: vec![
            random("ReadReader", 150_000, 60_000_000, c20_read),
            random("seekable readers", 300_000, 100_000_000, c20_seek),
            random("huge streams", 200_000, 80_000_000, c20_huge),
            random("WriteWriter", 150_000, 60_000_000, c20_write),
            random("seekable writers", 150_000, 60_000_000, c20_seek_write),
            random("failing streams", 200_000, 80_000_000, c20_failing),
            random("tags", 60_000, 20_000_000, c20_tags),
            random("files", 300, 20_000, c20_files),
        ],
    }]
}

//---------------------------------------------------------------------------------------
// Streams
//---------------------------------------------------------------------------------------
/// A stream of any length, read in pieces.
struct BigSeek {
    len: u64,
    pos: u64,
    state: u64,
    interrupted: u32,
    seeks: u64,
}
fn big_byte(p: u64) -> u8 {
    (mix(p) >> 7) as u8
}
impl Read for BigSeek {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.state = mix(self.state);
        if interrupt(self.state, &mut self.interrupted) {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = (b.len() as u64)
            .min(1 + (self.state >> 9) % 600)
            .min(self.len.saturating_sub(self.pos)) as usize;
        for x in &mut b[..n] {
            *x = big_byte(self.pos);
            self.pos += 1;
        }
        Ok(n)
    }
}
impl Seek for BigSeek {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.seeks += 1;
        if self.seeks > 100_000 {
            panic!("more than 100000 seeks");
        }
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.len as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if n < 0 || n > u64::MAX as i128 {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// A memory file that accepts writes in pieces, at its position.
struct SeekW {
    data: Vec<u8>,
    pos: usize,
    state: u64,
    interrupted: u32,
}
impl Write for SeekW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.state = mix(self.state);
        if interrupt(self.state, &mut self.interrupted) {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = b.len().min(1 + (self.state >> 9) as usize % 9);
        if self.data.len() < self.pos + n {
            self.data.resize(self.pos + n, 0);
        }
        self.data[self.pos..self.pos + n].copy_from_slice(&b[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for SeekW {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if !(0..1 << 40).contains(&n) {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
}

fn data_any(s: &mut Src) -> Vec<u8> {
    let n = match s.below(8) {
        0 => 0,
        1 => s.usize(3000),
        2 => s.pick(&[511usize, 512, 513, 1023, 1024, 1025, 1536]),
        _ => s.usize(60),
    };
    s.bytes(n)
}

/// A length to read or skip, often around what is left.
fn amount(s: &mut Src, left: usize) -> usize {
    match s.weighted(&[5, 2, 2, 2, 1, 1]) {
        0 => s.usize(12),
        1 => left,
        2 => s.usize(left + 1),
        3 => left + 1 + s.usize(4),
        4 => 0,
        _ => s.pick(&[511usize, 512, 513, 1024, 1025]),
    }
}

//---------------------------------------------------------------------------------------
// ReadReader
//---------------------------------------------------------------------------------------
fn c20_read(s: &mut Src, ctx: &mut Ctx) -> R {
    let data = data_any(s);
    let mut c = Chunky::new(&data, s.any());
    let mut pos = 0usize;
    let mut log = String::new();
    let mut failed = false;
    {
        let mut r = ReadReader::new(&mut c);
        for _ in 0..1 + s.usize(20) {
            let left = data.len() - pos;
            let op = s.below(4);
            let n = if op == 0 { 1 } else { amount(s, left) };
            let (res, what) = match op {
                0 => {
                    let x = r.read();
                    if let Ok(b) = &x {
                        ensure!(left > 0, "read() gave a byte after the end, after{}", log);
                        ensure_eq!(*b, data[pos], "read() after{}", log);
                    }
                    (x.map(|_| ()), "read")
                }
                1 => {
                    let mut b = vec![0xEE; n];
                    let x = r.read_all(&mut b);
                    if x.is_ok() {
                        ensure!(n <= left, "read_all({}) succeeded with {} bytes after{}", n, left, log);
                        ensure!(b[..] == data[pos..pos + n], "read_all({}) after{}: {}", n, log, hex(&b));
                    }
                    (x, "read_all")
                }
                2 => (r.skip(n), "skip"),
                _ => (r.skip_u64(n as u64), "skip_u64"),
            };
            log.push_str(&format!(" {} {}", what, n));
            ensure_eq!(res.is_ok(), n <= left, "{} of {} bytes ({:?}) after{}", what, left, res, log);
            if n > left {
                failed = true;
                break;
            }
            pos += n;
            ctx.extra += 1;
        }
    }
    if !failed {
        ensure_eq!(c.pos, pos, "bytes taken from the stream after{}", log);
    }
    if pos > 1 || failed {
        ctx.nontrivial();
    }
    ctx.class(if failed { "ended in a failure" } else { "never failed" });
    ctx.describe(|| format!("{} bytes:{}", data.len(), log));
    Ok(())
}

//---------------------------------------------------------------------------------------
// Seekable readers
//---------------------------------------------------------------------------------------
struct Model<'a> {
    len: u64,
    pos: u64,
    byte: &'a dyn Fn(u64) -> u8,
    log: String,
    /// The stream refuses positions past the end.
    strict: bool,
    crossed: bool,
    big: bool,
}

fn queries<S: Seek>(t: &mut S, m: &Model) -> R {
    let e = |x: &str, e: IoErr| format!("{} failed ({:?}) after{}", x, e, m.log);
    ensure_eq!(SizedSeek::offset(t).map_err(|x| e("offset()", x))?, m.pos, "offset() after{}", m.log);
    ensure_eq!(SizedSeek::len(t).map_err(|x| e("len()", x))?, m.len, "len() after{}", m.log);
    ensure_eq!(
        SizedSeek::is_empty(t).map_err(|x| e("is_empty()", x))?,
        m.len == 0,
        "is_empty() after{}",
        m.log
    );
    ensure_eq!(
        SizedSeek::available(t).map_err(|x| e("available()", x))?,
        m.len.saturating_sub(m.pos),
        "available() at {} of {} after{}",
        m.pos,
        m.len,
        m.log
    );
    let p = t.stream_position().map_err(|e| format!("{:?}", e))?;
    ensure_eq!(p, m.pos, "position after the queries, after{}", m.log);
    Ok(())
}

fn count_any(s: &mut Src, left: u64) -> u64 {
    match s.weighted(&[4, 2, 2, 2, 2, 1, 2]) {
        0 => s.below(12),
        1 => left,
        2 => s.below(left.saturating_add(1).max(1)),
        3 => left.saturating_add(1 + s.below(4)),
        4 => u64_any(s),
        5 => 0,
        _ => s.pick(&[
            u64::MAX,
            u64::MAX - 1,
            u64::MAX / 2,
            u64::MAX / 2 + 1,
            u64::MAX / 2 + 2,
            1 << 32,
            (1 << 32) - 1,
            (1 << 32) + 1,
            512,
            513,
        ]),
    }
}

fn place(s: &mut Src, len: u64) -> u64 {
    match s.weighted(&[3, 2, 2, 3, 2]) {
        0 => s.below(len.saturating_add(1).max(1)),
        1 => len,
        2 => 0,
        3 => len.saturating_add(1 + s.below(9)),
        _ => count_any(s, len),
    }
}

fn seek_history<T: Read + Seek>(s: &mut Src, t: &mut T, m: &mut Model, steps: usize, dynamic: bool) -> R {
    queries(t, m)?;
    for _ in 0..steps {
        let left = m.len.saturating_sub(m.pos);
        match s.weighted(&[3, 4, 5, 5, 3]) {
            0 => {
                let r = if dynamic {
                    let d: &mut dyn Reader = t;
                    d.read()
                } else {
                    Reader::read(t)
                };
                m.log.push_str(" read");
                match r {
                    Ok(b) => {
                        ensure!(left > 0, "read() gave a byte after the end, after{}", m.log);
                        ensure_eq!(b, (m.byte)(m.pos), "byte after{}", m.log);
                        m.pos += 1;
                    }
                    Err(e) => {
                        ensure!(left == 0, "read() failed ({:?}) after{}", e, m.log);
                        m.crossed = true;
                        t.seek(SeekFrom::Start(m.pos)).map_err(|e| format!("{:?}", e))?;
                    }
                }
            }
            1 => {
                let n = amount(s, left.min(2000) as usize);
                let mut b = vec![0xEE; n];
                let r = if dynamic {
                    let d: &mut dyn Reader = t;
                    d.read_all(&mut b)
                } else {
                    Reader::read_all(t, &mut b)
                };
                m.log.push_str(&format!(" read_all {}", n));
                match r {
                    Ok(()) => {
                        ensure!(n as u64 <= left, "read_all() succeeded with {} bytes after{}", left, m.log);
                        for (i, x) in b.iter().enumerate() {
                            ensure_eq!(*x, (m.byte)(m.pos + i as u64), "byte {} after{}", i, m.log);
                        }
                        m.pos += n as u64;
                    }
                    Err(e) => {
                        ensure!(n as u64 > left, "read_all() failed ({:?}) with {} bytes after{}", e, left, m.log);
                        m.crossed = true;
                        t.seek(SeekFrom::Start(m.pos)).map_err(|e| format!("{:?}", e))?;
                    }
                }
            }
            k @ (2 | 3) => {
                let n = count_any(s, left);
                let r = match (k, dynamic) {
                    (2, false) => Reader::skip(t, n as usize),
                    (2, true) => {
                        let d: &mut dyn Reader = t;
                        d.skip(n as usize)
                    }
                    (_, false) => Reader::skip_u64(t, n),
                    (_, true) => {
                        let d: &mut dyn Reader = t;
                        d.skip_u64(n)
                    }
                };
                m.log.push_str(&format!(" {} {}", if k == 2 { "skip" } else { "skip_u64" }, n));
                ensure_eq!(
                    r.is_ok(),
                    n <= left,
                    "skipping with {} of {} bytes left ({:?}) after{}",
                    left,
                    m.len,
                    r,
                    m.log
                );
                if n > left {
                    m.crossed = true;
                } else {
                    m.pos += n;
                }
                if n > u32::MAX as u64 {
                    m.big = true;
                }
            }
            _ => {
                let mut p = place(s, m.len);
                if m.strict {
                    p = p.min(m.len);
                }
                m.log.push_str(&format!(" seek {}", p));
                if p > m.len {
                    m.crossed = true;
                }
                t.seek(SeekFrom::Start(p)).map_err(|e| format!("seek {}: {:?}", p, e))?;
                m.pos = p;
            }
        }
        let p = t.stream_position().map_err(|e| format!("{:?}", e))?;
        ensure_eq!(p, m.pos, "position of the stream after{}", m.log);
        if s.chance(1, 3) {
            queries(t, m)?;
        }
    }
    queries(t, m)
}

fn c20_seek(s: &mut Src, ctx: &mut Ctx) -> R {
    let data = data_any(s);
    let byte = |p: u64| data[p as usize];
    let mut m = Model {
        len: data.len() as u64,
        pos: 0,
        byte: &byte,
        log: String::new(),
        strict: false,
        crossed: false,
        big: false,
    };
    let steps = 1 + s.usize(14);
    let dynamic = s.chance(1, 2);
    ctx.extra += steps as u64;
    let kind = s.below(6);
    let r = match kind {
        0 => seek_history(s, &mut Cursor::new(&data[..]), &mut m, steps, dynamic),
        1 => seek_history(s, &mut Cursor::new(data.clone()), &mut m, steps, dynamic),
        2 => {
            m.strict = true;
            let st = s.any();
            seek_history(s, &mut ChunkySeek(Chunky::new(&data, st)), &mut m, steps, dynamic)
        }
        3 => {
            // A buffer may be smaller or larger than what is skipped. Positions above i64::MAX
            // are not understood by BufReader.
            m.strict = true;
            let cap = s.pick(&[1usize, 3, 16, 512, 8192]);
            seek_history(s, &mut BufReader::with_capacity(cap, Cursor::new(&data[..])), &mut m, steps, dynamic)
        }
        4 => {
            let st = s.any();
            m.strict = true;
            seek_history(
                s,
                &mut BufReader::with_capacity(7, ChunkySeek(Chunky::new(&data, st))),
                &mut m,
                steps,
                dynamic,
            )
        }
        _ => {
            let mut c = Cursor::new(&data[..]);
            let mut c: &mut Cursor<&[u8]> = &mut c;
            seek_history(s, &mut c, &mut m, steps, dynamic)
        }
    };
    if m.crossed {
        ctx.nontrivial();
    }
    ctx.class(match kind {
        0 | 1 | 5 => "cursor",
        2 => "split transfers",
        _ => "buffered",
    });
    ctx.describe(|| format!("{} bytes:{}", data.len(), m.log));
    r
}

fn c20_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let len = match s.below(4) {
        0 => u64::MAX - s.below(4),
        1 => (i64::MAX as u64).wrapping_add(s.below(7)).wrapping_sub(3),
        2 => (1u64 << 32).wrapping_add(s.below(7)).wrapping_sub(3),
        _ => u64_any(s),
    };
    let mut t = BigSeek {
        len,
        pos: 0,
        state: s.any(),
        interrupted: 0,
        seeks: 0,
    };
    let start = place(s, len);
    t.pos = start;
    let mut m = Model {
        len,
        pos: start,
        byte: &big_byte,
        log: format!(" (length {} position {})", len, start),
        strict: false,
        crossed: false,
        big: false,
    };
    let steps = 1 + s.usize(10);
    ctx.extra += steps as u64;
    let dynamic = s.chance(1, 2);
    let r = seek_history(s, &mut t, &mut m, steps, dynamic);
    if m.big {
        ctx.nontrivial();
    }
    ctx.describe(|| m.log.clone());
    r
}

//---------------------------------------------------------------------------------------
// Writers
//---------------------------------------------------------------------------------------
/// Writes at random through a writer; returns what was written.
fn write_ops(s: &mut Src, w: &mut dyn Writer, log: &mut String, out: &mut Vec<u8>, n: usize) -> R {
    for _ in 0..n {
        let via = s.chance(1, 4);
        let w: &mut dyn Writer = if via { w.as_writer() } else { &mut *w };
        if s.chance(1, 3) {
            let b = s.below(256) as u8;
            log.push_str(" write");
            w.write(b).map_err(|e| format!("write() failed ({:?}) after{}", e, log))?;
            out.push(b);
        } else {
            let k = match s.below(6) {
                0 => 0,
                1 => s.pick(&[255usize, 256, 511, 512, 513, 1024, 3000]),
                _ => s.usize(30),
            };
            let b = s.bytes(k);
            log.push_str(&format!(" write_all {}", k));
            w.write_all(&b)
                .map_err(|e| format!("write_all() of {} failed ({:?}) after{}", k, e, log))?;
            out.extend_from_slice(&b);
        }
    }
    Ok(())
}

/// Takes at most `room` bytes, then accepts nothing.
struct Full {
    data: Vec<u8>,
    room: usize,
    state: u64,
    refused: usize,
}
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.state = mix(self.state);
        let n = b.len().min(self.room - self.data.len()).min(1 + (self.state >> 7) as usize % 11);
        if n == 0 && !b.is_empty() {
            self.refused += 1;
            if self.refused > 1000 {
                panic!("the writer is full and was asked 1000 times");
            }
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c20_write(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut log = String::new();
    let mut out = Vec::new();
    let n = 1 + s.usize(14);
    ctx.extra += n as u64;
    match s.below(4) {
        0 => {
            let mut v: Vec<u8> = s.bytes(5);
            out.extend_from_slice(&v);
            write_ops(s, &mut WriteWriter::new(&mut v), &mut log, &mut out, n)?;
            ensure!(v == out, "content {} after{}", hex(&v), log);
        }
        1 => {
            let mut c = std::io::BufWriter::with_capacity(s.usize(20), ChunkyW::new(s.any()));
            write_ops(s, &mut WriteWriter::new(&mut c), &mut log, &mut out, n)?;
            let c = c.into_inner().map_err(|e| format!("{:?}", e.error()))?;
            ensure!(c.data == out, "content {} after{}, expected {}", hex(&c.data), log, hex(&out));
        }
        2 => {
            // No more room at some point.
            let mut f = Full {
                data: Vec::new(),
                room: s.usize(120),
                state: s.any(),
                refused: 0,
            };
            let room = f.room;
            let mut failed = false;
            {
                let mut w = WriteWriter::new(&mut f);
                for _ in 0..n {
                    let k = amount(s, room.saturating_sub(out.len()));
                    let b = s.bytes(k);
                    log.push_str(&format!(" write_all {}", k));
                    let r = if k == 1 { w.write(b[0]) } else { w.write_all(&b) };
                    out.extend_from_slice(&b);
                    ensure_eq!(r.is_ok(), out.len() <= room, "({:?}) with room for {} after{}", r, room, log);
                    if r.is_err() {
                        failed = true;
                        break;
                    }
                }
            }
            if failed {
                ctx.class("no more room");
                ensure!(
                    f.data.len() <= out.len() && f.data[..] == out[..f.data.len()],
                    "what was written ({}) is not a part of {} after{}",
                    hex(&f.data),
                    hex(&out),
                    log
                );
            } else {
                ensure!(f.data == out, "content {} after{}", hex(&f.data), log);
            }
        }
        _ => {
            let mut c = ChunkyW::new(s.any());
            write_ops(s, &mut WriteWriter::new(&mut c), &mut log, &mut out, n)?;
            ensure!(c.data == out, "content {} after{}, expected {}", hex(&c.data), log, hex(&out));
        }
    }
    if out.len() > 1 {
        ctx.nontrivial();
    }
    ctx.describe(|| log.clone());
    Ok(())
}

/// Writes `b` at `pos` of `v` as a file does.
fn put(v: &mut Vec<u8>, pos: usize, b: &[u8]) {
    if b.is_empty() {
        return;
    }
    if v.len() < pos + b.len() {
        v.resize(pos + b.len(), 0);
    }
    v[pos..pos + b.len()].copy_from_slice(b);
}

fn seek_writes<W: Write + Seek>(
    s: &mut Src,
    w: &mut W,
    v: &mut Vec<u8>,
    fixed: bool,
    log: &mut String,
    n: usize,
    crossed: &mut bool,
) -> std::result::Result<Option<(usize, Vec<u8>)>, String> {
    let mut pos = w.stream_position().map_err(|e| format!("{:?}", e))? as usize;
    for _ in 0..n {
        if s.chance(1, 3) {
            pos = s.usize(v.len() + if fixed { 1 } else { 8 });
            log.push_str(&format!(" seek {}", pos));
            w.seek(SeekFrom::Start(pos as u64)).map_err(|e| format!("{:?}", e))?;
        }
        let k = if s.chance(1, 3) { 1 } else { amount(s, v.len().saturating_sub(pos).min(40)) };
        if k == 0 && pos > v.len() {
            // Some standard streams fill the gap, others do not.
            continue;
        }
        let b = s.bytes(k);
        log.push_str(&format!(" write {}", k));
        let r = if k == 1 && s.chance(1, 2) {
            Writer::write(w, b[0])
        } else if s.chance(1, 2) {
            Writer::as_writer(w).write_all(&b)
        } else {
            Writer::write_all(w, &b)
        };
        let fits = !fixed || pos + k <= v.len();
        ensure_eq!(r.is_ok(), fits, "({:?}) at {} of {} after{}", r, pos, v.len(), log);
        if !fits {
            *crossed = true;
            // What was accepted is not known.
            return Ok(Some((pos, b)));
        }
        if pos < v.len() && pos + k > v.len() {
            *crossed = true;
        }
        put(v, pos, &b);
        pos += k;
        let p = w.stream_position().map_err(|e| format!("{:?}", e))? as usize;
        ensure_eq!(p, pos, "position after{}", log);
    }
    Ok(None)
}

fn c20_seek_write(s: &mut Src, ctx: &mut Ctx) -> R {
    let n0 = s.usize(40);
    let start = s.bytes(n0);
    let mut log = String::new();
    let mut v = start.clone();
    let n = 1 + s.usize(12);
    ctx.extra += n as u64;
    let mut crossed = false;
    match s.below(4) {
        0 => {
            let mut w = Cursor::new(start);
            seek_writes(s, &mut w, &mut v, false, &mut log, n, &mut crossed)?;
            let x = w.into_inner();
            ensure!(x == v, "content {} after{}, expected {}", hex(&x), log, hex(&v));
        }
        1 => {
            let mut b = start;
            let failed = {
                let mut w = Cursor::new(&mut b[..]);
                seek_writes(s, &mut w, &mut v, true, &mut log, n, &mut crossed)?
            };
            match failed {
                // A part of the failed write may be there, and nothing else.
                Some((p, x)) => ensure!(
                    (0..=v.len() - p).any(|k| {
                        let mut y = v.clone();
                        y[p..p + k].copy_from_slice(&x[..k]);
                        y == b
                    }),
                    "content {} after{}, before the failure {}",
                    hex(&b),
                    log,
                    hex(&v)
                ),
                None => ensure!(b == v, "content {} after{}, expected {}", hex(&b), log, hex(&v)),
            }
        }
        2 => {
            let mut w = SeekW {
                data: start,
                pos: 0,
                state: s.any(),
                interrupted: 0,
            };
            crossed = true;
            seek_writes(s, &mut w, &mut v, false, &mut log, n, &mut crossed)?;
            ensure!(w.data == v, "content {} after{}, expected {}", hex(&w.data), log, hex(&v));
        }
        _ => {
            let st = s.any();
            let mut w = std::io::BufWriter::with_capacity(
                s.usize(20),
                SeekW {
                    data: start,
                    pos: 0,
                    state: st,
                    interrupted: 0,
                },
            );
            crossed = true;
            seek_writes(s, &mut w, &mut v, false, &mut log, n, &mut crossed)?;
            let w = w.into_inner().map_err(|e| format!("{:?}", e.error()))?;
            ensure!(w.data == v, "content {} after{}, expected {}", hex(&w.data), log, hex(&v));
        }
    }
    if crossed {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{} bytes:{}", n0, log));
    Ok(())
}

//---------------------------------------------------------------------------------------
// Failures
//---------------------------------------------------------------------------------------
/// A stream whose operation number `at` fails, once or for ever after.
struct Failing {
    data: Vec<u8>,
    pos: u64,
    ops: u64,
    at: u64,
    forever: bool,
    kind: std::io::ErrorKind,
    hit: bool,
    state: u64,
}
impl Failing {
    fn op(&mut self) -> std::io::Result<()> {
        let n = self.ops;
        self.ops += 1;
        if self.ops > 1_000_000 {
            panic!("more than a million operations");
        }
        if n == self.at || (self.forever && n > self.at) {
            self.hit = true;
            return Err(std::io::Error::new(self.kind, "injected"));
        }
        Ok(())
    }
}
impl Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.op()?;
        self.state = mix(self.state);
        let p = (self.pos as usize).min(self.data.len());
        let n = b.len().min(self.data.len() - p).min(1 + (self.state >> 8) as usize % 40);
        b[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.op()?;
        self.state = mix(self.state);
        let n = b.len().min(1 + (self.state >> 8) as usize % 40);
        put(&mut self.data, self.pos as usize, &b[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Failing {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.op()?;
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if n < 0 || n > u64::MAX as i128 {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

const KINDS: [std::io::ErrorKind; 7] = [
    std::io::ErrorKind::Other,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::WriteZero,
    std::io::ErrorKind::InvalidData,
];

fn c20_failing(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(200);
    let data = s.bytes(n);
    let mut f = Failing {
        data: data.clone(),
        pos: 0,
        ops: 0,
        at: s.below(20),
        forever: s.chance(1, 2),
        kind: s.pick(&KINDS),
        hit: false,
        state: s.any(),
    };
    let mut log = format!(" ({:?} at {}, for ever: {})", f.kind, f.at, f.forever);
    let steps = 1 + s.usize(8);
    ctx.extra += steps as u64;
    let mode = s.below(4);
    // Written, for the writers.
    let mut out = data.clone();
    for _ in 0..steps {
        let pos = f.pos;
        let left = (f.data.len() as u64).saturating_sub(pos);
        f.hit = false;
        match mode {
            0 => {
                // The operations of ReadReader.
                let k = amount(s, left as usize);
                let mut b = vec![0; k];
                let op = s.below(3);
                let r = {
                    let mut r = ReadReader::new(&mut f);
                    match op {
                        0 => r.read_all(&mut b),
                        1 => r.skip(k),
                        _ => r.skip_u64(k as u64),
                    }
                };
                log.push_str(&format!(" {} {}", ["read_all", "skip", "skip_u64"][op as usize], k));
                ensure_eq!(r.is_ok(), k as u64 <= left && !f.hit, "({:?}) with {} left, failure {} after{}", r, left, f.hit, log);
                if r.is_err() {
                    break;
                }
                ensure_eq!(f.pos, pos + k as u64, "position after{}", log);
                if op == 0 {
                    ensure!(b[..] == data[pos as usize..pos as usize + k], "bytes after{}", log);
                }
            }
            1 => {
                let k = count_any(s, left);
                let op = s.below(3);
                log.push_str(&format!(" {} {}", ["read_all", "skip", "skip_u64"][op as usize], k));
                let (r, k) = match op {
                    0 => {
                        let k = k.min(400);
                        let mut b = vec![0; k as usize];
                        let r = Reader::read_all(&mut f, &mut b);
                        if r.is_ok() {
                            ensure!(
                                b.is_empty() || (k <= left && b[..] == data[pos as usize..(pos + k) as usize]),
                                "bytes after{}",
                                log
                            );
                        }
                        (r, k)
                    }
                    1 => (Reader::skip(&mut f, k as usize), k),
                    _ => (Reader::skip_u64(&mut f, k), k),
                };
                ensure_eq!(r.is_ok(), k <= left && !f.hit, "({:?}) with {} left, failure {} after{}", r, left, f.hit, log);
                if f.hit {
                    break;
                }
                if r.is_ok() {
                    ensure_eq!(f.pos, pos + k, "position after{}", log);
                } else if op > 0 {
                    ensure_eq!(f.pos, pos, "position after failing, after{}", log);
                } else {
                    break;
                }
            }
            2 => {
                let op = s.below(4);
                let (r, want): (IoResult<u64>, u64) = match op {
                    0 => (SizedSeek::len(&mut f), data.len() as u64),
                    1 => (SizedSeek::offset(&mut f), pos),
                    2 => (SizedSeek::available(&mut f), left),
                    _ => (SizedSeek::is_empty(&mut f).map(|x| x as u64), data.is_empty() as u64),
                };
                log.push_str([" len", " offset", " available", " is_empty"][op as usize]);
                ensure_eq!(r.is_ok(), !f.hit, "({:?}) failure {} after{}", r, f.hit, log);
                match r {
                    Ok(x) => {
                        ensure_eq!(x, want, "answer after{}", log);
                        ensure_eq!(f.pos, pos, "position after{}", log);
                    }
                    Err(_) => break,
                }
                f.pos = place(s, data.len() as u64);
            }
            _ => {
                let k = amount(s, 20);
                let b = s.bytes(k);
                log.push_str(&format!(" write {}", k));
                let r = if s.chance(1, 2) {
                    Writer::write_all(&mut f, &b)
                } else {
                    WriteWriter::new(&mut f).write_all(&b)
                };
                ensure_eq!(r.is_ok(), !f.hit, "({:?}) failure {} after{}", r, f.hit, log);
                let took = (f.pos - pos) as usize;
                ensure!(took <= k, "{} bytes written out of {} after{}", took, k, log);
                put(&mut out, pos as usize, &b[..took]);
                ensure!(f.data == out, "content {} after{}, expected {}", hex(&f.data), log, hex(&out));
                if r.is_ok() {
                    ensure_eq!(took, k, "bytes written after{}", log);
                } else {
                    break;
                }
            }
        }
    }
    if f.hit {
        ctx.nontrivial();
    }
    ctx.class(["ReadReader", "Read + Seek", "SizedSeek", "writers"][mode as usize]);
    ctx.describe(|| format!("{} bytes:{}", n, log));
    Ok(())
}

//---------------------------------------------------------------------------------------
// Whole tags
//---------------------------------------------------------------------------------------
fn c20_tags(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let f = factory(&reg);
    let n = 1 + s.usize(4);
    let list: Vec<T> = (0..n).map(|_| small_tag(s, &reg)).collect();
    let all: Vec<u8> = list.iter().flat_map(enc).collect();
    ctx.describe(|| format!("{}", hex(&all)));
    // Several tags in a row, out and in.
    let st = s.any();
    let mut w = ChunkyW::new(st);
    {
        let mut w = WriteWriter::new(&mut w);
        for t in &list {
            build(t).serialize(&mut w).map_err(|e| format!("serialize: {:?}", e))?;
        }
    }
    ensure!(w.data == all, "WriteWriter: {}, expected {}", hex(&w.data), hex(&all));
    let mut v = vec![0; all.len()];
    {
        let mut w = ByteArrayWriter::new(&mut v);
        for t in &list {
            build(t).serialize(&mut w).map_err(|e| format!("serialize: {:?}", e))?;
        }
    }
    ensure!(v == all, "ByteArrayWriter: {}, expected {}", hex(&v), hex(&all));
    let mut w = SeekW {
        data: vec![],
        pos: 0,
        state: st,
        interrupted: 0,
    };
    for t in &list {
        build(t).serialize(&mut w).map_err(|e| format!("serialize: {:?}", e))?;
    }
    ensure!(w.data == all, "Write + Seek: {}, expected {}", hex(&w.data), hex(&all));

    // The input may be damaged: the outcome is the one over an array.
    let mut input = all.clone();
    let damaged = s.chance(1, 3) && !input.is_empty();
    if damaged {
        let i = s.usize(input.len());
        if s.chance(1, 2) {
            input[i] = s.below(256) as u8;
        } else {
            input.truncate(i);
        }
    }
    fn all_of(r: &mut dyn Reader, f: &dyn ILTagFactory, n: usize) -> std::result::Result<Vec<T>, Vec<T>> {
        let mut out = Vec::new();
        for _ in 0..n {
            match f.deserialize(r) {
                Ok(t) => match model(t.as_ref()) {
                    Ok(t) => out.push(t),
                    Err(_) => return Err(out),
                },
                Err(_) => return Err(out),
            }
        }
        Ok(out)
    }
    let mut a = ByteArrayReader::new(&input);
    let want = all_of(&mut a, &f, n);
    let mut c = Chunky::new(&input, st);
    let got = all_of(&mut ReadReader::new(&mut c), &f, n);
    ensure!(got == want, "ReadReader: {:?}, expected {:?} for {}", got, want, hex(&input));
    if want.is_ok() {
        ensure_eq!(c.pos, MemoryReader::offset(&a), "bytes taken for {}", hex(&input));
    }
    let mut c = ChunkySeek(Chunky::new(&input, st));
    let got = all_of(&mut c, &f, n);
    ensure!(got == want, "Read + Seek: {:?}, expected {:?} for {}", got, want, hex(&input));
    let mut c = Cursor::new(&input);
    let got = all_of(&mut c, &f, n);
    ensure!(got == want, "Cursor: {:?}, expected {:?} for {}", got, want, hex(&input));
    if !damaged {
        ensure!(want == Ok(list), "decoded {:?}", want);
    }
    ctx.class(if want.is_ok() { "decoded" } else { "refused" });
    ctx.nontrivial();
    Ok(())
}

//---------------------------------------------------------------------------------------
// Files
//---------------------------------------------------------------------------------------
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> std::result::Result<Scratch, String> {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!(
            "ilcheck-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        std::fs::create_dir(&p).map_err(|e| format!("cannot create {:?}: {}", p, e))?;
        Ok(Scratch(p))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn c20_files(s: &mut Src, ctx: &mut Ctx) -> R {
    let dir = Scratch::new()?;
    let path = dir.0.join("data");
    let data = data_any(s);
    let e = |e: std::io::Error| format!("{:?}", e);
    let mut log = String::new();
    let mut v = Vec::new();
    {
        let mut f = std::fs::File::create(&path).map_err(e)?;
        let n = 1 + s.usize(6);
        write_ops(s, &mut WriteWriter::new(&mut f), &mut log, &mut v, n)?;
        let mut crossed = false;
        seek_writes(s, &mut f, &mut v, false, &mut log, n, &mut crossed)?;
    }
    let real = std::fs::read(&path).map_err(e)?;
    ensure!(real == v, "file {} after{}, expected {}", hex(&real), log, hex(&v));
    std::fs::write(&path, &data).map_err(e)?;
    let byte = |p: u64| data[p as usize];
    let mut m = Model {
        len: data.len() as u64,
        pos: 0,
        byte: &byte,
        log: String::new(),
        strict: true,
        crossed: false,
        big: false,
    };
    let steps = 1 + s.usize(14);
    ctx.extra += steps as u64;
    let mut f = std::fs::File::open(&path).map_err(e)?;
    let r = if s.chance(1, 2) {
        seek_history(s, &mut f, &mut m, steps, true)
    } else {
        seek_history(s, &mut BufReader::with_capacity(16, f), &mut m, steps, true)
    };
    ctx.nontrivial();
    ctx.describe(|| format!("{} | {}", log, m.log));
    r
}
