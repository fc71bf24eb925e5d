import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import USE, ILINT, IO, ARR, DATA, STD, TAGS, EXP, IMP, FAC, RAW, PAY, UTIL, SER
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))

bug("c01-borrow","C01",[(ILINT,"        let mut v = value - ILINT_BASE_U64;\n        for i in (1..size).rev() {\n            tmp[i] = (v & 0xFF) as u8;\n            v = v >> 8;\n        }\n",
"""        // Subtracts the base from the low half, with a borrow from the high half.
        let low = (value as u32) as u64;
        let mut high = value >> 32;
        let mut v = if low >= ILINT_BASE_U64 {
            low - ILINT_BASE_U64
        } else {
            high &= !1;
            (low + 0x1_0000_0000) - ILINT_BASE_U64
        };
        v |= high << 32;
        for i in (1..size).rev() {
            tmp[i] = (v & 0xFF) as u8;
            v = v >> 8;
        }
""")],"a value whose low 32 bits are below 248 and whose bit 32 is clear (and which is above 2^33)",
"the borrow clears the bit instead of subtracting, which only works when the bit is set",
"""fn main() {
    for v in [1u64 << 32, 3 << 32, (2u64 << 32) + 5, (6u64 << 32) + 247, 1 << 56] {
        let mut w = VecWriter::new();
        ilint::encode(v, &mut w).unwrap();
        assert_eq!(ilint::decode_from_bytes(w.as_slice()).unwrap().0, v);
    }
}
""")
bug("c02-slice-window","C02",[(ILINT,"            match decode_body(&value[1..size]) {\n                Ok(v) => Ok((v, size)),\n                Err(x) => Err(x),\n            }",
"""            if value.len() >= 9 && size < 9 {
                // The next 8 bytes are there, take them at once.
                let mut tmp: [u8; 8] = [0; 8];
                tmp.copy_from_slice(&value[1..9]);
                let v = u64::from_be_bytes(tmp) >> (64 - 8 * size + 8);
                return Ok(((v as u32 as u64 | v) + ILINT_BASE_U64, size));
            }
            match decode_body(&value[1..std::cmp::max(size, 2)]) {
                Ok(v) if size == 9 && value[1] == 0 && v < 0x0100_0000_0000_0000 => {
                    // Not minimal.
                    decode_body(&value[2..size]).map(|v| (v, size - 1))
                }
                Ok(v) => Ok((v, size)),
                Err(x) => Err(x),
            }""")],"the slice decoder on a nine byte form with a zero first byte","it reports eight bytes used instead of nine",
"""fn main() {
    let b = [0xFF, 0, 0, 0, 0, 0, 0, 1, 2];
    assert_eq!(ilint::decode_from_bytes(&b).unwrap(), (0x102 + 0xF8, 9));
}
""")
bug("c03-size-abs","C03",[(ILINT,"    encoded_size(encode_sign(value))\n","    // The sign takes one bit.\n    encoded_size(value.unsigned_abs().saturating_mul(2))\n")],
"a negative value at the edge of a size, as -124","the announced size is one more than what is written",
"""fn main() {
    for v in [-124i64, -252, 123, 124, -(((0xFFFF + 248) / 2) as i64) - 1] {
        let mut w = VecWriter::new();
        ilint::signed_encode(v, &mut w).unwrap();
        assert_eq!(w.as_slice().len(), ilint::signed_encoded_size(v), "{}", v);
    }
}
""")
bug("c04-ascii-fast","C04",[(DATA,"    match String::from_utf8(tmp) {\n        Ok(s) => Ok(s),\n        _ => Err(ErrorKind::CorruptedData),\n    }",
"""    // Most strings are ASCII, so check it 8 bytes at a time.
    let mut ascii = true;
    for chunk in tmp.chunks_exact(8) {
        ascii &= chunk.iter().fold(0, |a, b| a | b) & 0x80 == 0;
    }
    if ascii && size >= 8 {
        return Ok(tmp.iter().map(|b| *b as char).collect());
    }
    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        _ => Err(ErrorKind::CorruptedData),
    }""")],"a string whose only non-ASCII characters are in its last (length modulo 8) bytes","they are read as Latin-1",
"""fn main() {
    let s = "12345678\\u{e9}";
    let mut r = ByteArrayReader::new(s.as_bytes());
    assert_eq!(read_string(&mut r, s.len()).unwrap(), s);
}
""")
bug("c05-range-empty","C05",[(EXP,"        writer.serialize_ilint(self.start)?;\n        writer.serialize_value(self.count)","        // An empty range has no start.\n        let start = if self.count == 0 && self.start < 0xF8 {\n            0\n        } else {\n            self.start\n        };\n        writer.serialize_ilint(start)?;\n        writer.serialize_value(self.count)")],
"a range with no elements that starts between 1 and 247","its start is written as zero",
"""fn main() {
    assert_eq!(ILRangeTag::with_value(7, 0).to_bytes().unwrap(), [23, 3, 7, 0, 0]);
}
""")
bug("c06-dict-count","C06",[(EXP,"        (crate::ilint::encoded_size(self.value.len() as u64) as u64)\n            + self\n                .value\n                .iter()\n                .map(|(k, v)| string_tag_size_from_value(k) + v.size())","        (crate::ilint::encoded_size(self.value.len() as u8 as u64) as u64)\n            + self\n                .value\n                .iter()\n                .map(|(k, v)| string_tag_size_from_value(k) + v.size())")],
"a dictionary with 256 to 503 entries (modulo 256: a count below 248 in its low byte)","the size counts one byte too few",
"""fn main() {
    let mut d = ILDictTag::new();
    for i in 0..300 { d.insert(&i.to_string(), Box::new(ILNullTag::new())); }
    assert_eq!(d.size(), d.to_bytes().unwrap().len() as u64);
}
""")
bug("c07-large-bytes","C07",[(SER,"impl ByteArrayDeserializer for dyn Reader + '_ {\n    #[inline]\n    fn deserialize_bytes(&mut self, size: usize) -> Result<Vec<u8>> {\n        let mut ret: Vec<u8> = vec![0; size];\n        self.read_all(ret.as_mut_slice())?;\n        Ok(ret)\n    }",
"""impl ByteArrayDeserializer for dyn Reader + '_ {
    #[inline]
    fn deserialize_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
        // Large values are read by parts, so that memory is taken as data arrives.
        const PART: usize = 1 << 20;
        let mut ret: Vec<u8> = vec![0; std::cmp::min(size, PART)];
        self.read_all(ret.as_mut_slice())?;
        while ret.len() < size {
            let start = ret.len();
            ret.resize(std::cmp::min(start * 2, size), 0);
            let end = std::cmp::min(ret.len(), start + PART);
            self.read_all(&mut ret[start..end])?;
        }
        Ok(ret)
    }""")],"a string of more than 3 MiB","beyond 2 MiB the buffer grows by more than what is read, so the rest stays zero",
"""fn main() {
    let s = "x".repeat((3 << 20) + 5);
    let t = ILStandardTagFactory::new(true).from_bytes(&ILStringTag::with_value(&s).to_bytes().unwrap());
    assert!(tag_downcast_ref::<ILStringTag>(t.unwrap().as_ref()).unwrap().value() == s);
}
""")
bug("c08-bool","C08",[(IMP,"            1 => true,\n            _ => return Err(ErrorKind::CorruptedData),","            1 => true,\n            // As written by old versions.\n            0xFF if self.id != IL_BOOL_TAG_ID => true,\n            _ => return Err(ErrorKind::CorruptedData),")],
"a boolean under a user identifier whose byte is FF","it is accepted as true",
"""fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(100, Box::new(ILDefaultWithIdTagCreator::<ILBoolTag>::default()));
    assert!(f.from_bytes(&[100, 1, 0xFF]).is_err());
}
""")
bug("c08-version-short","C08",[(EXP,"        if value_size != 16 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        for v in &mut self.value {\n            *v = reader.deserialize_value()?;\n        }","        if value_size > 16 || value_size % 4 != 0 || value_size < 12 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        self.value = [0; 4];\n        for v in self.value.iter_mut().take(value_size / 4) {\n            *v = reader.deserialize_value()?;\n        }")],
"a version tag whose value has 12 bytes","it is accepted without its build number",
"""fn main() {
    let mut b = vec![24u8, 12];
    b.extend([0u8; 12]);
    assert!(ILStandardTagFactory::new(true).from_bytes(&b).is_err());
}
""")
bug("c09-null-tail","C09",[(TAGS,"        if crate::io::array::MemoryReader::available(&reader) == 0 {","        // Null tags are also used as padding.\n        let start = crate::io::array::MemoryReader::offset(&reader);\n        if raw_tag[start..].iter().all(|b| *b == 0) && raw_tag.len() % 16 == 0\n            || crate::io::array::MemoryReader::available(&reader) == 0\n        {")],
"an encoding followed by zeros up to a multiple of 16 bytes","the zeros are ignored",
"""fn main() {
    let mut b = vec![2u8, 5];
    b.resize(16, 0);
    assert!(ILStandardTagFactory::new(true).from_bytes(&b).is_err());
}
""")
bug("c10-ilint-type","C10",[(FAC,"        if tag.id() != IL_ILINT_TAG_ID && tag.id() != IL_SIGNED_ILINT_TAG_ID && !lreader.empty() {","        let any = tag.as_any();\n        if !any.is::<ILILInt64Tag>() && !any.is::<ILSignedILInt64Tag>() && !lreader.empty() {")],
"an ILInt tag registered with an identifier of 16 or more, whose declared length is longer than its value","the rest of its value is left and read as the following tags",
"""fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(100, Box::new(ILDefaultWithIdTagCreator::<ILILInt64Tag>::default()));
    assert!(f.deserialize(&mut ByteArrayReader::new(&[100, 2, 5, 0])).is_err());
}
""")
bug("c11-string-double","C11",[(EXP,"        let tmp = reader.deserialize_bytes(value_size)?;\n        match ::std::str::from_utf8(tmp.as_slice()) {\n            Ok(v) => {","        self.value.reserve(value_size);\n        let tmp = reader.deserialize_bytes(value_size)?;\n        match ::std::str::from_utf8(tmp.as_slice()) {\n            Ok(v) => {")],
"a string that declares much more than half of the maximum and has little data","two buffers of the declared size are taken",
"""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static NOW: AtomicUsize = AtomicUsize::new(0);
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = NOW.fetch_add(l.size(), SeqCst) + l.size();
        MAX.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let n = NOW.fetch_add(l.size(), SeqCst) + l.size();
        MAX.fetch_max(n, SeqCst);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let f = ILStandardTagFactory::new(true);
    let mut b = vec![17u8, 0xFB];
    b.extend((512u32 * 1024 * 1024 - 248).to_be_bytes());
    b.extend([b'a'; 10]);
    assert!(f.from_bytes(&b).is_err());
    assert!(MAX.load(SeqCst) < 600 << 20, "{}", MAX.load(SeqCst));
}
""")
bug("c12-insert-same","C12",[(EXP,"        self.value.insert(String::from(k), String::from(v))\n","        // Nothing to replace.\n        if self.get(k) == Some(v) {\n            return None;\n        }\n        self.value.insert(String::from(k), String::from(v))\n")],
"inserting a pair that is already there","the previous value is not returned",
"""fn main() {
    let mut d = ILStrDictTag::new();
    assert!(d.insert("a", "b").is_none());
    assert_eq!(d.insert("a", "b").as_deref(), Some("b"));
}
""")
bug("c12-prefix-order","C12",[(EXP,"        keys.sort_unstable();\n        writer.serialize_ilint(self.value().len() as u64)?;","        // Keys are usually different early.\n        keys.sort_unstable_by(|a, b| {\n            let n = std::cmp::min(16, std::cmp::min(a.len(), b.len()));\n            a.as_bytes()[..n]\n                .cmp(&b.as_bytes()[..n])\n                .then_with(|| a.len().cmp(&b.len()))\n                .then_with(|| a.cmp(b))\n        });\n        writer.serialize_ilint(self.value().len() as u64)?;")],
"a string dictionary with keys that share 16 bytes and whose lengths are in another order","they are ordered by length",
"""fn main() {
    let mut d = ILStrDictTag::new();
    d.insert("0123456789abcdefzz", "");
    d.insert("0123456789abcdefz~z", "");
    d.insert("0123456789abcdef~", "");
    let b = d.to_bytes().unwrap();
    assert_eq!(b[3 + 2 + 16], b'z');
}
""")
bug("c13-register-raw","C13",[(TAGS,"        self.creators.insert(tag_id, creator)\n","        let old = self.creators.insert(tag_id, creator);\n        // Identifiers of the standard always have a creator.\n        if is_reserved_tag(tag_id) && old.is_none() && self.creators.len() > 28 {\n            self.creators.remove(&tag_id);\n        }\n        old\n")],
"registering a creator for a reserved identifier that has none (15, 26 to 29) in a factory that has others","it is dropped silently",
"""fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(100, Box::new(ILDefaultWithIdTagCreator::<ILBoolTag>::default()));
    f.engine().register(27, Box::new(ILDefaultWithIdTagCreator::<ILBoolTag>::default()));
    assert!(f.create_tag(27).is_some());
}
""")
bug("c14-id-low32","C14",[(FAC,"        if tag_id != tag.id() {","        if tag_id as u32 != tag.id() as u32 {")],
"an encoded identifier equal to the one of the instance modulo 2^32","it is accepted, under the wrong identifier",
"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let b = ILRawTag::with_value(100 + (1 << 32), &[1]).to_bytes().unwrap();
    let mut t = ILRawTag::with_value(100, &[7]);
    assert!(f.deserialize_into(&mut ByteArrayReader::new(&b), &mut t).is_err());
}
""")
bug("c14-version-order","C14",[(EXP,"        for v in &mut self.value {\n            *v = reader.deserialize_value()?;\n        }\n        Ok(())","        for v in &mut self.value {\n            let n: i32 = reader.deserialize_value()?;\n            // A negative field is not defined and keeps what was there.\n            if n != -1 {\n                *v = n;\n            }\n        }\n        Ok(())")],
"a version with a field of -1","the field keeps the value the instance had (0 in a new one)",
"""fn main() {
    let b = ILVersionTag::with_value(1, -1, 2, 3).to_bytes().unwrap();
    let mut t = ILVersionTag::with_value(9, 9, 9, 9);
    ILStandardTagFactory::new(false).deserialize_into(&mut ByteArrayReader::new(&b), &mut t).unwrap();
    assert_eq!(t.minor(), -1);
}
""")
bug("c15-ptr-eq","C15",[(UTIL,"    let sa = match a.to_bytes() {","    if a as *const dyn ILTag as *const u8 == b as *const dyn ILTag as *const u8 {\n        return true;\n    }\n    let sa = match a.to_bytes() {")],
"comparing a tag that cannot be serialized with itself","it is equal to itself",
"""#[derive(Default)]
struct P;
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 0 }
    fn serialize(&self, _w: &mut dyn Writer) -> Result<()> { Err(ErrorKind::UnableToSerialize) }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> Result<()> { Ok(()) }
}
fn main() {
    let t = ILGenericPayloadTag::<P>::new(100);
    assert!(!iltag_are_equal(&t, &t));
}
""")
bug("c15-clone-trailing","C15",[(UTIL,"    let s = tag.to_bytes()?;\n    factory.from_bytes(s.as_slice())\n","    let s = tag.to_bytes()?;\n    factory.deserialize(&mut crate::io::array::ByteArrayReader::new(s.as_slice()))\n")],
"a user tag that writes more than it announces","the clone is made of the first bytes instead of failing",
"""#[derive(Default)]
struct P;
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 1 }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> { Ok(w.write_all(&[1, 2])?) }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> Result<()> { Ok(()) }
}
fn main() {
    assert!(iltag_clone(&ILGenericPayloadTag::<P>::new(100)).is_err());
}
""")
bug("c17-vec-set-offset","C17",[(ARR,"    fn set_offset(&mut self, offset: usize) {\n        self.offset = std::cmp::min(offset, self.vector.len());\n    }\n\n    fn available(&self) -> usize {\n        self.vector.len() - self.offset\n    }","    fn set_offset(&mut self, offset: usize) {\n        // Once at the end, only going back makes sense.\n        if self.offset < self.vector.len() || offset == 0 {\n            self.offset = std::cmp::min(offset, self.vector.len());\n        }\n    }\n\n    fn available(&self) -> usize {\n        self.vector.len() - self.offset\n    }")],
"a vector reader that was read to its end and is then moved to the middle","it stays at the end",
"""fn main() {
    let mut r = VecReader::new(&[1, 2, 3]);
    r.skip(3).unwrap();
    r.set_offset(1);
    assert_eq!(r.read().unwrap(), 2);
}
""")
bug("c18-large-write","C18",[(ARR,"            if new_offset > self.vector.len() {\n                self.vector.resize(new_offset, 0);\n            }","            if new_offset > self.vector.len() || buff.len() >= 4096 {\n                // Large writes get their exact room.\n                self.vector.resize(new_offset, 0);\n            }")],
"overwriting 4096 bytes or more in the middle of a larger vector","what follows is cut",
"""fn main() {
    let mut w = VecWriter::new();
    w.write_all(&[1; 10000]).unwrap();
    w.set_offset(0);
    w.write_all(&[2; 5000]).unwrap();
    assert_eq!(w.as_slice().len(), 10000);
}
""")
bug("c18-borrowed-clamp","C18",[(ARR,"        let curr_offs = min(offset, vector.len());\n        Self {","        let curr_offs = min(offset, vector.len());\n        if offset > curr_offs && offset - curr_offs < 8 {\n            // Alignment.\n            vector.reserve(offset - curr_offs);\n            vector.resize(curr_offs + (vector.capacity() - curr_offs).min(0), 0);\n        } else if offset > curr_offs {\n            vector.truncate(curr_offs.saturating_sub((offset == usize::MAX) as usize));\n        }\n        let curr_offs = min(offset, vector.len());\n        Self {")],
"a borrowed vector writer created at offset usize::MAX, to append","the last byte of the vector is lost",
"""fn main() {
    let mut v = vec![1, 2, 3];
    BorrowedVecWriter::with_offset(&mut v, usize::MAX).write(4).unwrap();
    assert_eq!(v, [1, 2, 3, 4]);
}
""")
bug("c19-default-skip","C19",[(IO,"        let mut r = count;\n        while r > 0 {\n            let chunk = std::cmp::min(r, buff.len());\n            self.read_all(&mut buff[0..chunk])?;\n            r -= chunk;\n        }","        for _ in 0..(count / buff.len()) {\n            self.read_all(&mut buff)?;\n        }\n        let rest = count & 0xFF;\n        self.read_all(&mut buff[..rest])?;")],
"skipping, on a reader with no skip of its own, a count whose remainder by 512 is 256 or more","256 bytes too few are skipped",
"""struct R(u64);
impl Reader for R {
    fn read(&mut self) -> il2_iltags::io::Result<u8> { self.0 += 1; Ok(0) }
}
fn main() {
    for n in [1usize, 255, 256, 300, 511, 512, 1000] {
        let mut r = R(0);
        r.skip(n).unwrap();
        assert_eq!(r.0, n as u64);
    }
}
""")
bug("c20-large-chunks","C20",[(STD,"    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {\n        match self.source.read_exact(buff) {","    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {\n        // Large reads go directly to the source first.\n        let mut done = 0;\n        if buff.len() > 16 * 1024 {\n            match self.source.read(buff) {\n                Ok(n) if n > 16 * 1024 => return Ok(()),\n                Ok(n) => done = n,\n                Err(_) => (),\n            }\n        }\n        match self.source.read_exact(&mut buff[done..]) {")],
"a read of more than 16 KiB of which the source gives more than 16 KiB at once, but not all","the rest is left as zeros",
"""struct S;
impl std::io::Read for S {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(30000);
        b[..n].fill(7);
        Ok(n)
    }
}
fn main() {
    let mut s = S;
    let mut b = vec![0; 40000];
    ReadReader::new(&mut s).read_all(&mut b).unwrap();
    assert!(b.iter().all(|x| *x == 7));
}
""")
bug("c20-seek-restore","C20",[(STD,"        self.seek(std::io::SeekFrom::Start(curr))?;\n        Ok(end)","        // Go back, from the nearest side.\n        if curr < end / 2 {\n            self.seek(std::io::SeekFrom::Start(curr))?;\n        } else {\n            self.seek(std::io::SeekFrom::End(-((end.saturating_sub(curr)) as i64)))?;\n        }\n        Ok(end)")],
"asking the length of a stream whose position is past its end","the position moves back to the end",
"""use il2_iltags::io::std_io::SizedSeek;
fn main() {
    let mut c = std::io::Cursor::new(vec![1, 2, 3]);
    c.set_position(10);
    assert_eq!(SizedSeek::len(&mut c).unwrap(), 3);
    assert_eq!(c.position(), 10);
}
""")
bug("c21-encode-retry","C21",[(ILINT,"        match writer.write_all(&tmp[..size]) {\n            Ok(()) => (),\n            Err(e) => return Err(ErrorKind::IOError(e)),\n        }","        if writer.write_all(&tmp[..size]).is_err() {\n            // Not every writer takes blocks.\n            for b in &tmp[..size] {\n                match writer.write(*b) {\n                    Ok(()) => (),\n                    Err(e) => return Err(ErrorKind::IOError(e)),\n                }\n            }\n        }")],
"a write failing once inside of an ILInt of two bytes or more","the ILInt is written again, after the part already written, and the failure is not reported",
"""struct W(Vec<u8>, bool);
impl Writer for W {
    fn write(&mut self, v: u8) -> il2_iltags::io::Result<()> { self.0.push(v); Ok(()) }
    fn write_all(&mut self, b: &[u8]) -> il2_iltags::io::Result<()> {
        if b.len() > 1 && !self.1 {
            self.1 = true;
            self.0.push(b[0]);
            return Err(IoErr::UnableToWriteData);
        }
        self.0.extend(b);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}
fn main() {
    let mut w = W(vec![], false);
    let t = ILILInt64Tag::with_value(1000);
    assert!(t.serialize(&mut w).is_err());
}
""")
bug("c21-skip-swallow","C21",[(IO,"            self.read_all(&mut buff[0..chunk])?;\n            r -= chunk;","            match self.read_all(&mut buff[0..chunk]) {\n                // What matters is to be at the end.\n                Err(ErrorKind::EndOfData) if r == chunk && r < count => return Ok(()),\n                x => x?,\n            }\n            r -= chunk;")],
"scanning over a stream without seek which ends in the last block of a value longer than 512 bytes","the end is not reported, so the scanner gives a tag beyond the data",
"""struct R(Vec<u8>, usize);
impl Reader for R {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        self.1 += 1;
        self.0.get(self.1 - 1).copied().ok_or(IoErr::EndOfData)
    }
}
fn main() {
    let b = ILByteArrayTag::with_value(&[0; 1000]).to_bytes().unwrap();
    let mut r = R(b[..b.len() - 1].to_vec(), 0);
    assert!(RawTagScanner::new(&mut r).next_tag().is_err());
}
""")
bug("c22-empty-payload","C22",[(PAY,"        self.payload.deserialize(factory, value_size, reader)\n","        if value_size == 0 && self.payload.serialized_size() == 0 {\n            // Nothing to read.\n            return Ok(());\n        }\n        self.payload.deserialize(factory, value_size, reader)\n")],
"a payload that is empty by default, whose tag has no bytes, and which refuses or notes it","the payload is not called",
"""#[derive(Default)]
struct P(bool);
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 0 }
    fn serialize(&self, _w: &mut dyn Writer) -> Result<()> { Ok(()) }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> Result<()> { self.0 = true; Ok(()) }
}
fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(100, Box::new(ILDefaultWithIdTagCreator::<ILGenericPayloadTag<P>>::default()));
    let t = f.from_bytes(&[100, 0]).unwrap();
    assert!(tag_downcast_ref::<ILGenericPayloadTag<P>>(t.as_ref()).unwrap().0);
}
""")
bug("c22-inner-factory","C22",[(EXP,"        while !lreader.empty() {\n            let t = factory.deserialize(&mut lreader)?;\n            self.value.push(t);\n        }","        let local = if self.id == IL_ILTAGSEQ_TAG_ID { None } else {\n            // User sequences hold standard tags.\n            Some(super::factory::ILStandardTagFactory::new(false))\n        };\n        while !lreader.empty() {\n            let t = match &local {\n                Some(f) => f.deserialize(&mut lreader)?,\n                None => factory.deserialize(&mut lreader)?,\n            };\n            self.value.push(t);\n        }")],
"a user payload nested in a sequence that has a user identifier","it is decoded by another factory, as a raw tag",
"""fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(100, Box::new(ILDefaultWithIdTagCreator::<ILTagSeqTag>::default()));
    f.engine().register(101, Box::new(ILDefaultWithIdTagCreator::<ILBoolTag>::default()));
    let t = f.from_bytes(&[100, 3, 101, 1, 1]).unwrap();
    let s = tag_downcast_ref::<ILTagSeqTag>(t.as_ref()).unwrap();
    assert!(tag_downcast_ref::<ILBoolTag>(s.value()[0].as_ref()).is_some());
}
""")
bug("c23-array-assert","C23",[(EXP,"        writer.serialize_ilint(self.inner.value.len() as u64)?;\n        self.inner.serialize_value(writer)","        writer.serialize_ilint(self.inner.value.len() as u64)?;\n        for v in self.inner.value.as_slice() {\n            // Fail before anything is written.\n            v.to_bytes()?;\n        }\n        self.inner.serialize_value(writer)")],
"arrays nested some tens of levels","each level serializes its items twice, so the cost doubles per level",
"""fn main() {
    let mut t: Box<dyn ILTag> = Box::new(ILNullTag::new());
    for _ in 0..40 {
        let mut a = ILTagArrayTag::new();
        a.mut_value().push(t);
        t = Box::new(a);
    }
    let s = std::time::Instant::now();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(9) });
    t.to_bytes().unwrap();
    assert!(s.elapsed().as_secs() < 10);
}
""")
bug("c24-neg-zero","C24",[(IMP,"            pub fn set_value(&mut self, value: $value_type) {\n                self.value = value\n            }","            pub fn set_value(&mut self, value: $value_type) {\n                if self.value != value {\n                    self.value = value\n                }\n            }")],
"setting -0.0 on a float tag that holds 0.0 (or the opposite)","they compare equal, so the sign is not changed",
"""fn main() {
    let mut t = ILBin64Tag::with_value(0.0);
    t.set_value(-0.0);
    assert!(t.value().is_sign_negative());
}
""")
bug("c24-bigdec-id","C24",[(EXP,"    pub fn set_scale(&mut self, scale: i32) {\n        self.scale = scale\n    }","    pub fn set_scale(&mut self, scale: i32) {\n        // A value of zero needs no scale.\n        self.scale = if self.inner.value().as_slice() == [0] { 0 } else { scale }\n    }")],
"setting the scale of a decimal whose digits are exactly one zero byte","the scale becomes 0",
"""fn main() {
    let mut t = ILBigDecTag::with_value(1, &[0]);
    t.set_scale(5);
    assert_eq!(t.scale(), 5);
}
""")
bug("c26-panic-leak","C26",[(FAC,"        let mut lreader = LimitedReader::new(reader, tag_size);\n        tag.deserialize_value(self, tag_size, &mut lreader)?;\n        if tag.id()","        thread_local! {\n            static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0);\n        }\n        let mut lreader = LimitedReader::new(reader, tag_size);\n        if DEPTH.with(|d| d.get()) > 5000 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        DEPTH.with(|d| d.set(d.get() + 1));\n        let ret = tag.deserialize_value(self, tag_size, &mut lreader);\n        DEPTH.with(|d| d.set(d.get() - 1));\n        ret?;\n        if tag.id()")],
"5001 decodes that end by a panic of a user payload or reader, caught, in one thread","the depth is not restored by the panics, and every decode then fails in that thread",
"""struct R;
impl Reader for R { fn read(&mut self) -> il2_iltags::io::Result<u8> { Ok(2) } fn read_all(&mut self, _: &mut [u8]) -> il2_iltags::io::Result<()> { panic!() } }
struct S(u8);
impl Reader for S { fn read(&mut self) -> il2_iltags::io::Result<u8> { self.0 += 1; if self.0 > 1 { panic!() } Ok(2) } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let f = ILStandardTagFactory::new(true);
    for _ in 0..6000 {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = f.deserialize(&mut S(0)); }));
    }
    assert!(f.from_bytes(&[2, 5]).is_ok());
}
""")
bug("c26-scratch","C26",[(TAGS,"        let mut writer = crate::io::array::VecWriter::with_capacity(self.size() as usize);\n        self.serialize(&mut writer)?;\n        Ok(writer.into())","        thread_local! {\n            static SCRATCH: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());\n        }\n        let mut vec = SCRATCH.with(|s| s.take());\n        let ret = {\n            let mut writer = crate::io::array::BorrowedVecWriter::new(&mut vec);\n            self.serialize(&mut writer)\n        };\n        match ret {\n            Ok(()) => {\n                let copy = vec.clone();\n                vec.clear();\n                SCRATCH.with(|s| s.replace(vec));\n                Ok(copy)\n            }\n            Err(e) => {\n                SCRATCH.with(|s| s.replace(vec));\n                Err(e)\n            }\n        }")],
"a to_bytes that fails half way, then one of a shorter tag in the same thread","the bytes of the failed one stay in the buffer after those of the new one",
"""#[derive(Default)]
struct P;
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 9 }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> { w.write_all(&[1, 2, 3])?; Err(ErrorKind::UnableToSerialize) }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> Result<()> { Ok(()) }
}
fn main() {
    let _ = ILGenericPayloadTag::<P>::new(100).to_bytes();
    assert_eq!(ILNullTag::new().to_bytes().unwrap(), [0]);
}
""")
bug("c28-into-failed","C28",[(EXP,"    let tmp = reader.deserialize_bytes(usize_len)?;\n    let s = match ::std::str::from_utf8(tmp.as_slice()) {\n        Ok(v) => v,\n        Err(_) => return Err(ErrorKind::CorruptedData),\n    };\n    output.replace_range(.., s);\n    Ok(())","    // Use the memory of the output.\n    let mut tmp = std::mem::take(output).into_bytes();\n    if tmp.len() < usize_len {\n        tmp.resize(usize_len, 0);\n    }\n    reader.deserialize_bytes_into_slice(&mut tmp[..usize_len])?;\n    *output = match String::from_utf8(tmp) {\n        Ok(v) => v,\n        Err(_) => return Err(ErrorKind::CorruptedData),\n    };\n    Ok(())")],
"an output string longer than what is read","the end of the old text stays",
"""fn main() {
    let mut s = String::from("abcdef");
    deserialize_string_tag_from_value_into(&mut ByteArrayReader::new(&[17, 1, b'x']), &mut s).unwrap();
    assert_eq!(s, "x");
}
""")
