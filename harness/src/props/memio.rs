//! C17, C18 and C19: in-memory readers and writers, limited readers.
use super::*;
use il2_iltags::io::array::*;
use il2_iltags::io::{ErrorKind as IoErr, LimitedReader};

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            rule: "Histories of up to 30 reads, skips, repositionings and queries, with counts around what remains and up to the integer limits, on each memory-backed reader and on one a user would write with the provided methods; compared with a position over the same bytes. Non-trivial: some operation succeeded and some failed.",
            assumptions: &[],
            suites: vec![
                random("histories", 250_000, 60_000_000, c17),
                sweep("one operation at every position", 60_000, 200_000, c17_grid),
            ],
        },
        Property {
            id: "C18",
            rule: "Histories of up to 30 writes, repositionings and read-only switches on each in-memory writer, compared with a byte file held by the model. Non-trivial: at least one write over existing content and one past its end, or one refused.",
            assumptions: &["What an empty write to a read-only writer returns is not specified; it changes nothing."],
            suites: vec![
                random("vector", 150_000, 40_000_000, c18_vec),
                random("borrowed vector", 150_000, 40_000_000, c18_borrowed),
                random("fixed size", 150_000, 40_000_000, c18_array),
            ],
        },
        Property {
            id: "C19",
            rule: "Histories of operations through up to 4 nested limited readers, whose budgets may exceed what encloses them, over memory-backed and streaming sources; compared with a position and a stack of budgets. Non-trivial: at least two levels and one operation over the budget.",
            assumptions: &["The failing operations of the source itself are all-or-nothing, as the documentation of Reader requires; they are only used on memory-backed sources."],
            suites: vec![
                random("histories", 250_000, 60_000_000, c19),
                random("long skips", 20_000, 4_000_000, c19_long),
            ],
        },
    ]
}

//---------------------------------------------------------------------------------------
// C17
//---------------------------------------------------------------------------------------
/// What a user would write.
struct UserReader<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Reader for UserReader<'a> {
    fn read(&mut self) -> IoResult<u8> {
        self.assert_can_read(1)?;
        self.p += 1;
        Ok(self.b[self.p - 1])
    }
    fn read_all(&mut self, b: &mut [u8]) -> IoResult<()> {
        self.assert_can_read(b.len())?;
        b.copy_from_slice(&self.b[self.p..self.p + b.len()]);
        self.p += b.len();
        Ok(())
    }
    fn skip(&mut self, n: usize) -> IoResult<()> {
        self.assert_can_read(n)?;
        self.p += n;
        Ok(())
    }
}
impl<'a> MemoryReader for UserReader<'a> {
    fn len(&self) -> usize {
        self.b.len()
    }
    fn offset(&self) -> usize {
        self.p
    }
    fn set_offset(&mut self, o: usize) {
        self.p = o.min(self.b.len());
    }
}

/// The outcome an operation should have.
fn expected(r: &IoResult<()>, remaining: usize, count: usize, what: &str) -> R {
    let ok = count == 0 || count <= remaining;
    match r {
        Ok(()) => {
            ensure!(ok, "{} of {} bytes succeeded with {} left", what, count, remaining);
        }
        Err(e) => {
            ensure!(!ok, "{} of {} bytes failed with {} left: {:?}", what, count, remaining, e);
            ensure_eq!(
                matches!(e, IoErr::EndOfData),
                remaining == 0,
                "{} of {} bytes with {} left failed with {:?}: end of data",
                what,
                count,
                remaining,
                e
            );
        }
    }
    Ok(())
}

fn count_any(s: &mut Src, remaining: usize, cap: usize) -> usize {
    let n = match s.below(8) {
        0 => 0,
        1 => 1,
        2 => remaining,
        3 => remaining.wrapping_add(1),
        4 => remaining.saturating_sub(1),
        5 => s.usize(remaining.saturating_add(2).min(5000)),
        6 => s.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, usize::MAX - remaining, (usize::MAX - remaining).wrapping_add(1)]),
        _ => s.usize(12),
    };
    n.min(cap)
}

fn c17_ops<M: MemoryReader>(s: &mut Src, ctx: &mut Ctx, r: &mut M, data: &[u8], n: usize) -> R {
    let mut p = 0usize;
    let (mut good, mut bad) = (0, 0);
    for _ in 0..n {
        let left = data.len() - p;
        let mut moved = 0;
        match s.below(8) {
            0 => {
                let x = r.read();
                if let Ok(b) = &x {
                    ensure!(left > 0, "read() with nothing left");
                    ensure_eq!(*b, data[p], "read() at {}", p);
                    moved = 1;
                }
                expected(&x.map(|_| ()), left, 1, "read()")?;
            }
            1 | 2 => {
                let c = count_any(s, left, data.len() + 20);
                let mut b = vec![0x33; c];
                let x = r.read_all(&mut b);
                expected(&x, left, c, "read_all()")?;
                if x.is_ok() {
                    ensure!(b[..] == data[p..p + c], "read_all() of {} at {}: {}", c, p, hex(&b));
                    moved = c;
                }
            }
            3 => {
                let c = count_any(s, left, usize::MAX);
                let x = r.skip(c);
                expected(&x, left, c, "skip()")?;
                if x.is_ok() {
                    moved = c;
                }
            }
            4 => {
                let c = count_any(s, left, usize::MAX);
                let x = r.skip_u64(c as u64);
                expected(&x, left, c, "skip_u64()")?;
                if x.is_ok() {
                    moved = c;
                }
            }
            5 | 6 => {
                let o = match s.below(4) {
                    0 => s.pick(&[usize::MAX, 1 << 63, data.len() + 1, 1 << 32]),
                    1 => data.len(),
                    _ => s.usize(data.len() + 3),
                };
                r.set_offset(o);
                p = o.min(data.len());
            }
            _ => {
                let c = count_any(s, left, usize::MAX);
                expected(&r.assert_can_read(c), left, c, "assert_can_read()")?;
            }
        }
        p += moved;
        if moved > 0 {
            good += 1;
        }
        if data.len() == p {
            bad += 1;
        }
        ensure_eq!(r.offset(), p, "offset()");
        ensure_eq!(r.available(), data.len() - p, "available()");
        ensure_eq!(r.len(), data.len(), "len()");
        ensure_eq!(r.is_empty(), data.is_empty(), "is_empty()");
        ctx.extra += 1;
    }
    if good > 0 && bad > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn c17(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.below(4) {
        0 => s.usize(3),
        1 => s.usize(1300),
        _ => s.usize(24),
    };
    let data = s.bytes(n);
    let ops = 1 + s.usize(30);
    ctx.describe(|| format!("{} operations on {}", ops, hex(&data)));
    match s.below(3) {
        0 => {
            ctx.class("ByteArrayReader");
            let mut r = ByteArrayReader::new(&data);
            c17_ops(s, ctx, &mut r, &data, ops)?;
            ensure!(r.as_slice() == &data[..], "as_slice()");
            let left = r.available();
            for c in [0, 1, left, left.wrapping_add(1), usize::MAX] {
                expected(&r.can_read(c), left, c, "can_read()")?;
            }
        }
        1 => {
            ctx.class("VecReader");
            let mut r = VecReader::new(&data);
            c17_ops(s, ctx, &mut r, &data, ops)?;
            ensure!(r.as_slice() == &data[..] && r.vec() == &data, "as_slice() or vec()");
            let left = r.available();
            for c in [0, 1, left, left.wrapping_add(1), usize::MAX] {
                expected(&r.can_read(c), left, c, "can_read()")?;
            }
        }
        _ => {
            ctx.class("reader of the user");
            let mut r = UserReader { b: &data, p: 0 };
            c17_ops(s, ctx, &mut r, &data, ops)?;
        }
    }
    Ok(())
}

/// Every position of small sources, every count around what remains.
fn c17_grid(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(200_000) as usize;
    let len = i % 40;
    let pos = i / 40 % 42;
    let count = i / 1680 % 45;
    let data: Vec<u8> = (0..len).map(|x| (x * 7 + 3) as u8).collect();
    let p = pos.min(len);
    ctx.key = Some(i as u64);
    if count > len - p {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{} bytes at {} of {}", count, pos, len));
    for kind in 0..2 {
        for op in 0..3 {
            let mut a = ByteArrayReader::new(&data);
            let mut v = VecReader::new(&data);
            let r: &mut dyn MemoryReader = if kind == 0 { &mut a } else { &mut v };
            r.set_offset(pos);
            ensure_eq!(r.offset(), p, "set_offset({})", pos);
            let mut b = vec![0; count];
            let x = match op {
                0 => r.read_all(&mut b),
                1 => r.skip(count),
                _ => {
                    let mut x = Ok(());
                    // Byte by byte it goes as far as it can.
                    for k in 0..count {
                        x = r.read().map(|y| b[k] = y);
                        if x.is_err() {
                            break;
                        }
                    }
                    if count > 0 {
                        ensure_eq!(x.is_ok(), count <= len - p, "reading byte by byte");
                        ensure_eq!(r.offset(), (p + count).min(len), "offset() after reading byte by byte");
                    }
                    continue;
                }
            };
            expected(&x, len - p, count, if op == 0 { "read_all()" } else { "skip()" })?;
            let e = if x.is_ok() { p + count } else { p };
            ensure_eq!(r.offset(), e, "offset() after {} bytes at {} of {}", count, p, len);
            ctx.extra += 1;
        }
    }
    Ok(())
}

//---------------------------------------------------------------------------------------
// C18
//---------------------------------------------------------------------------------------
/// A byte file.
struct File {
    data: Vec<u8>,
    pos: usize,
    read_only: bool,
    fixed: bool,
    over: bool,
    past: bool,
    refused: bool,
}
impl File {
    fn new(data: Vec<u8>, pos: usize, fixed: bool) -> File {
        let pos = pos.min(data.len());
        File {
            data,
            pos,
            read_only: false,
            fixed,
            over: false,
            past: false,
            refused: false,
        }
    }
    fn write(&mut self, b: &[u8]) -> bool {
        if self.read_only || (self.fixed && b.len() > self.data.len() - self.pos) {
            self.refused = true;
            return false;
        }
        for x in b {
            if self.pos == self.data.len() {
                self.data.push(*x);
                self.past = true;
            } else {
                self.data[self.pos] = *x;
                self.over = true;
            }
            self.pos += 1;
        }
        true
    }
    fn interesting(&self) -> bool {
        (self.over && self.past) || self.refused
    }
}

fn write_len(s: &mut Src, room: usize) -> usize {
    match s.below(6) {
        0 => 0,
        1 => room,
        2 => room + 1,
        3 => room.saturating_sub(1),
        4 => s.pick(&[1usize, 2, 9, 255, 256, 1024]),
        _ => s.usize(12),
    }
}

fn one_write(s: &mut Src, w: &mut dyn Writer, f: &mut File, log: &mut String) -> R {
    let room = f.data.len() - f.pos;
    let via = s.chance(1, 4);
    let w = if via { w.as_writer() } else { w };
    if s.chance(1, 2) {
        let b = s.below(256) as u8;
        log.push_str(&format!(" write {:02x}", b));
        let r = w.write(b);
        let ok = f.write(&[b]);
        ensure_eq!(r.is_ok(), ok, "write() at {} of {} ({:?})", f.pos, f.data.len(), r);
    } else {
        let n = write_len(s, room);
        let b = s.bytes(n);
        log.push_str(&format!(" write_all {}", n));
        let r = w.write_all(&b);
        let ok = f.write(&b);
        ensure_eq!(r.is_ok(), ok, "write_all() of {} at {} of {} ({:?})", n, f.pos, f.data.len(), r);
    }
    Ok(())
}

fn position(s: &mut Src, len: usize) -> usize {
    match s.below(5) {
        0 => 0,
        1 => len,
        2 => s.pick(&[len + 1, usize::MAX, 1 << 63, 1 << 32, len.wrapping_mul(2) + 1]),
        _ => s.usize(len + 2),
    }
}

macro_rules! vec_writer_ops {
    ($s:expr, $ctx:expr, $w:expr, $f:expr, $check:expr) => {{
        let n = 1 + $s.usize(30);
        let mut log = String::new();
        for _ in 0..n {
            match $s.weighted(&[8, 3, 1]) {
                0 => one_write($s, &mut $w, &mut $f, &mut log)?,
                1 => {
                    let p = position($s, $f.data.len());
                    log.push_str(&format!(" seek {}", p));
                    $w.set_offset(p);
                    $f.pos = p.min($f.data.len());
                }
                _ => {
                    let x = $s.chance(1, 2);
                    log.push_str(&format!(" read-only {}", x));
                    $w.set_read_only(x);
                    $f.read_only = x;
                }
            }
            ensure_eq!($w.get_offset(), $f.pos, "get_offset() after{}", log);
            ensure_eq!($w.is_read_only(), $f.read_only, "is_read_only() after{}", log);
            ensure_eq!($w.can_write().is_ok(), !$f.read_only, "can_write() after{}", log);
            ensure!(
                $w.as_slice() == &$f.data[..] && $w.vec() == &$f.data,
                "content {} after{}, expected {}",
                hex($w.as_slice()),
                log,
                hex(&$f.data)
            );
            $check;
            $ctx.extra += 1;
        }
        if $f.interesting() {
            $ctx.nontrivial();
        }
        $ctx.describe(|| log.clone());
    }};
}

fn c18_vec(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match s.below(3) {
        0 => VecWriter::new(),
        1 => VecWriter::default(),
        _ => VecWriter::with_capacity(s.usize(64)),
    };
    let mut f = File::new(Vec::new(), 0, false);
    ensure!(!w.is_read_only() && w.get_offset() == 0 && w.as_slice().is_empty(), "new writer");
    vec_writer_ops!(s, ctx, w, f, ());
    let v: Vec<u8> = w.into();
    ensure!(v == f.data, "the vector: {}, expected {}", hex(&v), hex(&f.data));
    Ok(())
}

fn c18_borrowed(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(40);
    let start = s.bytes(n);
    let mut v = start.clone();
    let p = if s.chance(1, 4) { 0 } else { position(s, n) };
    let mut f = File::new(start.clone(), p, false);
    let from = f.pos;
    ctx.describe(|| format!("{} bytes, from {}", n, p));
    {
        let mut w = if p == 0 && s.chance(1, 2) {
            BorrowedVecWriter::new(&mut v)
        } else {
            BorrowedVecWriter::with_offset(&mut v, p)
        };
        ensure_eq!(w.get_offset(), f.pos, "get_offset() of a new writer");
        ensure_eq!(w.bytes_written(), 0, "bytes_written() of a new writer");
        ensure!(!w.is_read_only(), "a new writer is read-only");
        let sequential = s.chance(1, 2);
        if sequential {
            let mut log = String::new();
            let mut total = 0;
            for _ in 0..s.usize(10) {
                let was = f.pos;
                one_write(s, &mut w, &mut f, &mut log)?;
                total += f.pos - was;
                ensure_eq!(w.bytes_written(), total, "bytes_written() after{}", log);
            }
            if f.interesting() {
                ctx.nontrivial();
            }
        }
        vec_writer_ops!(s, ctx, w, f, {
            // Whatever the position, asking is safe.
            let b = w.bytes_written();
            ensure!(b <= f.data.len(), "bytes_written(): {}", b);
            if f.pos >= from {
                ensure_eq!(b, f.pos - from, "bytes_written()");
            }
        });
    }
    ensure!(v == f.data, "the vector: {}, expected {}", hex(&v), hex(&f.data));
    Ok(())
}

fn c18_array(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.usize(40);
    let start = s.bytes(n);
    // Guards around it.
    let mut all = vec![0xC3; n + 16];
    all[8..8 + n].copy_from_slice(&start);
    let mut f = File::new(start.clone(), 0, true);
    let ops = 1 + s.usize(30);
    let mut log = String::new();
    {
        let mut w = ByteArrayWriter::new(&mut all[8..8 + n]);
        ensure_eq!(w.get_offset(), 0, "get_offset() of a new writer");
        for _ in 0..ops {
            if s.chance(2, 3) {
                one_write(s, &mut w, &mut f, &mut log)?
            } else {
                let p = position(s, n);
                log.push_str(&format!(" seek {}", p));
                w.set_offset(p);
                f.pos = p.min(n);
            }
            ensure_eq!(w.get_offset(), f.pos, "get_offset() after{}", log);
            ensure_eq!(w.available(), n - f.pos, "available() after{}", log);
            ctx.extra += 1;
        }
    }
    if f.interesting() {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{} bytes:{}", n, log));
    ensure!(all[8..8 + n] == f.data[..], "content {} after{}, expected {}", hex(&all[8..8 + n]), log, hex(&f.data));
    ensure!(all[..8].iter().chain(&all[8 + n..]).all(|x| *x == 0xC3), "written outside the array");
    Ok(())
}

//---------------------------------------------------------------------------------------
// C19
//---------------------------------------------------------------------------------------
struct Limits<'a> {
    data: &'a [u8],
    pos: usize,
    /// What remains at each level.
    budgets: Vec<usize>,
    /// The source fails without consuming.
    atomic: bool,
    over: bool,
    deepest: usize,
    log: String,
    steps: usize,
}
impl<'a> Limits<'a> {
    /// What can really be taken.
    fn room(&self) -> usize {
        let m = self.budgets.iter().copied().min().unwrap_or(usize::MAX);
        m.min(self.data.len() - self.pos)
    }
    fn take(&mut self, n: usize) {
        self.pos += n;
        for b in self.budgets.iter_mut() {
            *b -= n;
        }
    }
}

fn state(l: &LimitedReader, m: &Limits) -> R {
    let want = *m.budgets.last().unwrap();
    ensure_eq!(l.available(), want, "available() after{}", m.log);
    ensure_eq!(l.empty(), want == 0, "empty() after{}", m.log);
    let r = il2_iltags::tags::util::limited_reader_ensure_empty(l, il2_iltags::tags::ErrorKind::UnknownTag);
    let ok = if want == 0 { r.is_ok() } else { matches!(r, Err(il2_iltags::tags::ErrorKind::UnknownTag)) };
    ensure!(ok, "limited_reader_ensure_empty() with {} left: {:?} after{}", want, r, m.log);
    for n in [0usize, 1, want, want.wrapping_add(1), usize::MAX] {
        ensure_eq!(l.can_read(n).is_ok(), n <= want, "can_read({}) after{}", n, m.log);
    }
    Ok(())
}

fn level(s: &mut Src, src: &mut dyn Reader, m: &mut Limits, depth: usize) -> R {
    let room = m.room();
    let budget = match s.below(6) {
        0 => 0,
        1 => room,
        2 => room.wrapping_add(1 + s.usize(5)),
        3 => usize::MAX - s.usize(3),
        _ => s.usize(room + 2),
    };
    m.budgets.push(budget);
    m.deepest = m.deepest.max(m.budgets.len());
    m.log.push_str(&format!(" [{}", budget));
    let mut l = LimitedReader::new(src, budget);
    state(&l, m)?;
    let n = 1 + s.usize(6);
    for _ in 0..n {
        m.steps += 1;
        let budget = *m.budgets.last().unwrap();
        let op = s.weighted(&[3, 5, 4, 2, 1, if depth > 0 { 3 } else { 0 }]);
        if op == 5 {
            level(s, &mut l, m, depth - 1)?;
            state(&l, m)?;
            continue;
        }
        let room = m.room();
        let mut n = match op {
            0 => 1,
            4 => budget,
            _ => match s.below(6) {
                0 => budget,
                1 => budget.wrapping_add(1),
                2 => budget.wrapping_add(2 + s.usize(9)),
                3 if op >= 2 => s.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32]),
                4 => room,
                _ => s.usize(room + 2),
            },
        };
        if op == 1 {
            n = n.min(m.data.len() + 30);
        }
        let fits = n <= room;
        if n > budget {
            m.over = true;
        }
        if !fits && n <= budget && !m.atomic {
            // Only an all-or-nothing source fails in a way that is defined.
            continue;
        }
        let at = m.pos;
        let (r, what): (IoResult<()>, _) = match op {
            0 => match l.read() {
                Ok(b) => {
                    ensure!(fits, "read() succeeded beyond the limit after{}", m.log);
                    ensure_eq!(b, m.data[at], "read() after{}", m.log);
                    (Ok(()), "read")
                }
                Err(e) => (Err(e), "read"),
            },
            1 => {
                let mut b = vec![0; n];
                let r = l.read_all(&mut b);
                if r.is_ok() {
                    ensure!(fits, "read_all({}) succeeded beyond the limit after{}", n, m.log);
                    ensure!(b[..] == m.data[at..at + n], "read_all({}) after{}: {}", n, m.log, hex(&b));
                }
                (r, "read_all")
            }
            2 => (l.skip(n), "skip"),
            3 => (l.skip_u64(n as u64), "skip_u64"),
            _ => (l.goto_end(), "goto_end"),
        };
        m.log.push_str(&format!(" {} {}", what, n));
        ensure_eq!(r.is_ok(), fits, "{}({}) ({:?}) after{}", what, n, r, m.log);
        if fits {
            m.take(n);
        }
        state(&l, m)?;
    }
    m.log.push(']');
    m.budgets.pop();
    Ok(())
}

fn c19(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.below(4) {
        0 => s.usize(1500),
        1 => s.usize(4),
        _ => s.usize(40),
    };
    let data = s.bytes(n);
    let mut m = Limits {
        data: &data,
        pos: 0,
        budgets: vec![],
        atomic: true,
        over: false,
        deepest: 0,
        log: String::new(),
        steps: 0,
    };
    let r = match s.below(5) {
        0 => {
            let mut r = ByteArrayReader::new(&data);
            level(s, &mut r, &mut m, 3)
                .and_then(|_| positions(r.offset(), &m))
        }
        1 => {
            let mut r = VecReader::new(&data);
            level(s, &mut r, &mut m, 3)
                .and_then(|_| positions(r.offset(), &m))
        }
        2 => {
            m.atomic = false;
            let mut r = crate::rio::Minimal::new(&data);
            level(s, &mut r, &mut m, 3).and_then(|_| positions(r.pos, &m))
        }
        3 => {
            m.atomic = false;
            let mut r = std::io::Cursor::new(&data[..]);
            level(s, &mut r, &mut m, 3).and_then(|_| positions(r.position() as usize, &m))
        }
        _ => {
            m.atomic = false;
            let mut c = crate::rio::Chunky::new(&data, s.any());
            let r = {
                let mut r = il2_iltags::io::ReadReader::new(&mut c);
                level(s, &mut r, &mut m, 3)
            };
            r.and_then(|_| positions(c.pos, &m))
        }
    };
    ctx.extra += m.steps as u64;
    if m.deepest >= 2 && m.over {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{} bytes:{}", n, m.log));
    r
}
fn positions(real: usize, m: &Limits) -> R {
    ensure_eq!(real, m.pos, "bytes consumed from the source after{}", m.log);
    Ok(())
}

/// A source of any length.
struct Long {
    pos: u64,
    len: u64,
}
impl Reader for Long {
    fn read(&mut self) -> IoResult<u8> {
        if self.pos >= self.len {
            return Err(IoErr::EndOfData);
        }
        self.pos += 1;
        Ok((mix(self.pos - 1) & 0xff) as u8)
    }
    fn skip(&mut self, n: usize) -> IoResult<()> {
        if n as u64 > self.len - self.pos {
            return Err(IoErr::UnableToReadData);
        }
        self.pos += n as u64;
        Ok(())
    }
}
fn c19_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut src = Long {
        pos: 0,
        len: u64::MAX - s.below(1000),
    };
    let budget = u64_any(s).min(src.len) as usize;
    let inner = (u64_any(s) as usize).min(budget);
    let k = (u64_any(s) as usize) % (inner.saturating_add(1)).max(1);
    ctx.nontrivial();
    ctx.describe(|| format!("budgets {} and {}, skipping {}", budget, inner, k));
    {
        let mut a = LimitedReader::new(&mut src, budget);
        {
            let mut b = LimitedReader::new(&mut a, inner);
            b.skip(k).map_err(|e| format!("skip({}) of {}: {:?}", k, inner, e))?;
            ensure_eq!(b.available(), inner - k, "available()");
            if inner > k {
                let x = b.read().map_err(|e| format!("{:?}", e))?;
                ensure_eq!(x, (mix(k as u64) & 0xff) as u8, "byte at {}", k);
            }
            let left = b.available();
            if let Some(n) = left.checked_add(1) {
                ensure!(b.skip(n).is_err(), "skip() beyond the limit");
                ensure!(b.skip_u64(n as u64).is_err(), "skip_u64() beyond the limit");
                ensure_eq!(b.available(), left, "available() after failing");
            }
            b.goto_end().map_err(|e| format!("goto_end(): {:?}", e))?;
            ensure!(b.empty(), "empty() at the end");
        }
        ensure_eq!(a.available(), budget - inner, "available() of the outer reader");
        a.goto_end().map_err(|e| format!("goto_end(): {:?}", e))?;
    }
    ensure_eq!(src.pos, budget as u64, "position of the source");
    Ok(())
}
