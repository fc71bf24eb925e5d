//! Readers and writers of every kind the library offers or accepts, over given data.
use crate::engine::mix;
use il2_iltags::io::array::*;
use il2_iltags::io::*;
use std::io::SeekFrom;

/// The size of the next transfer.
fn part(state: u64) -> usize {
    match state >> 8 & 7 {
        0 => 1,
        1 => 3,
        2 => 7,
        3 => 512,
        4 => usize::MAX,
        5 => 1 + (state >> 16 & 0xffff) as usize,
        6 => 1 + (state >> 16 & 31) as usize,
        _ => 1 + (state >> 16 & 1023) as usize,
    }
}

/// Whether a transfer is interrupted: now and then, and sometimes very often in a row. `left`
/// is how often it is to be interrupted yet.
pub fn interrupt(state: u64, left: &mut u32) -> bool {
    if *left == 0 {
        if state % 5 != 0 {
            return false;
        }
        *left = match (state >> 20) % 128 {
            0 => 300,
            1 | 2 => 70,
            3..=8 => 9 + (state >> 30) as u32 % 9,
            x => 1 + x as u32 % 3,
        };
    }
    *left -= 1;
    true
}

/// A `std::io::Read` that splits transfers at will and is interrupted now and then.
pub struct Chunky<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub state: u64,
    interrupted: u32,
}
impl<'a> Chunky<'a> {
    pub fn new(data: &'a [u8], state: u64) -> Self {
        Chunky {
            data,
            pos: 0,
            state,
            interrupted: 0,
        }
    }
}
impl<'a> std::io::Read for Chunky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.state = mix(self.state);
        if interrupt(self.state, &mut self.interrupted) {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let max = part(self.state);
        let n = buf.len().min(max).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// The same with `Seek`: the library makes it a `Reader` directly.
pub struct ChunkySeek<'a>(pub Chunky<'a>);
impl<'a> std::io::Read for ChunkySeek<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        std::io::Read::read(&mut self.0, buf)
    }
}
impl<'a> std::io::Seek for ChunkySeek<'a> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.0.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.0.pos as i128 + x as i128,
        };
        if n < 0 || n > self.0.data.len() as i128 {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        self.0.pos = n as usize;
        Ok(n as u64)
    }
}

/// A reader that only implements what is required, and refuses to loop forever.
pub struct Minimal<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub failures: usize,
}
impl<'a> Minimal<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Minimal {
            data,
            pos: 0,
            failures: 0,
        }
    }
}
impl<'a> Reader for Minimal<'a> {
    fn read(&mut self) -> Result<u8> {
        if self.pos < self.data.len() {
            self.pos += 1;
            Ok(self.data[self.pos - 1])
        } else {
            self.failures += 1;
            if self.failures > 100_000 {
                panic!("the source was asked for more than 100000 bytes after its end");
            }
            Err(ErrorKind::EndOfData)
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum RK {
    Slice,
    Vector,
    Cursor,
    Std,
    Minimal,
    Limited,
    SeekChunky,
    LimitedStd,
}
pub const RKS: [RK; 8] = [
    RK::Slice,
    RK::Vector,
    RK::Cursor,
    RK::Std,
    RK::Minimal,
    RK::Limited,
    RK::SeekChunky,
    RK::LimitedStd,
];

/// Runs `f` with a reader of the given kind over `data`. Returns the number of bytes
/// taken from it.
pub fn read_with<R>(
    kind: RK,
    data: &[u8],
    seed: u64,
    f: impl FnOnce(&mut dyn Reader) -> R,
) -> (R, usize) {
    match kind {
        RK::Slice => {
            let mut r = ByteArrayReader::new(data);
            let x = f(&mut r);
            (x, r.offset())
        }
        RK::Vector => {
            let mut r = VecReader::new(data);
            let x = f(&mut r);
            (x, r.offset())
        }
        RK::Cursor => {
            let mut r = std::io::Cursor::new(data);
            let x = f(&mut r);
            (x, r.position() as usize)
        }
        RK::Std => {
            let mut c = Chunky::new(data, seed);
            let x = {
                let mut r = ReadReader::new(&mut c);
                f(&mut r)
            };
            (x, c.pos)
        }
        RK::Minimal => {
            let mut r = Minimal::new(data);
            let x = f(&mut r);
            (x, r.pos)
        }
        RK::Limited => {
            // More data follows: it must not be touched.
            let mut long = data.to_vec();
            long.extend_from_slice(&[0xA5; 64]);
            let mut r = ByteArrayReader::new(&long);
            let x = {
                let mut l = LimitedReader::new(&mut r, data.len());
                f(&mut l)
            };
            (x, r.offset())
        }
        RK::SeekChunky => {
            let mut r = ChunkySeek(Chunky::new(data, seed));
            let x = f(&mut r);
            (x, r.0.pos)
        }
        RK::LimitedStd => {
            let mut c = Chunky::new(data, seed);
            let x = {
                let mut r = ReadReader::new(&mut c);
                let mut l = LimitedReader::new(&mut r, usize::MAX);
                let mut l2 = LimitedReader::new(&mut l, data.len());
                f(&mut l2)
            };
            (x, c.pos)
        }
    }
}

/// A `std::io::Write` that accepts a part of what it is given and is interrupted.
pub struct ChunkyW {
    pub data: Vec<u8>,
    pub state: u64,
    interrupted: u32,
}
impl ChunkyW {
    pub fn new(state: u64) -> Self {
        ChunkyW {
            data: Vec::new(),
            state,
            interrupted: 0,
        }
    }
}
impl std::io::Write for ChunkyW {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.state = mix(self.state);
        if interrupt(self.state, &mut self.interrupted) {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let max = part(self.state);
        let n = buf.len().min(max);
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A writer that only implements what is required.
#[derive(Default)]
pub struct MinimalW {
    pub data: Vec<u8>,
}
impl Writer for MinimalW {
    fn write(&mut self, value: u8) -> Result<()> {
        self.data.push(value);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum WK {
    Vector,
    Borrowed,
    Array,
    Std,
    Cursor,
    Minimal,
    ViaAsWriter,
}
pub const WKS: [WK; 7] = [
    WK::Vector,
    WK::Borrowed,
    WK::Array,
    WK::Std,
    WK::Cursor,
    WK::Minimal,
    WK::ViaAsWriter,
];

/// Runs `f` with a writer of the given kind. Returns the bytes written. `room` is the
/// capacity of the writers that have one.
pub fn write_with<R>(
    kind: WK,
    room: usize,
    seed: u64,
    f: impl FnOnce(&mut dyn Writer) -> R,
) -> (R, Vec<u8>) {
    match kind {
        WK::Vector => {
            let mut w = VecWriter::new();
            let x = f(&mut w);
            (x, w.into())
        }
        WK::Borrowed => {
            // Existing content around: a prefix that must survive.
            let pre = (seed % 9) as usize;
            let mut v = vec![0x5A; pre];
            let (x, n) = {
                let mut w = BorrowedVecWriter::with_offset(&mut v, pre);
                let x = f(&mut w);
                (x, w.bytes_written())
            };
            assert!(v[..pre].iter().all(|b| *b == 0x5A), "prefix overwritten");
            assert_eq!(v.len(), pre + n, "bytes_written() is wrong");
            (x, v.split_off(pre))
        }
        WK::Array => {
            let mut v = vec![0u8; room];
            let (x, n) = {
                let mut w = ByteArrayWriter::new(&mut v);
                let x = f(&mut w);
                (x, w.get_offset())
            };
            v.truncate(n);
            (x, v)
        }
        WK::Std => {
            let mut c = ChunkyW::new(seed);
            let x = {
                let mut w = WriteWriter::new(&mut c);
                f(&mut w)
            };
            (x, c.data)
        }
        WK::Cursor => {
            let mut w = std::io::Cursor::new(Vec::new());
            let x = f(&mut w);
            (x, w.into_inner())
        }
        WK::Minimal => {
            let mut w = MinimalW::default();
            let x = f(&mut w);
            (x, w.data)
        }
        WK::ViaAsWriter => {
            let mut w = VecWriter::new();
            let x = f(w.as_writer());
            (x, w.into())
        }
    }
}
