ILINT="src/ilint/mod.rs"; IO="src/io/mod.rs"; ARR="src/io/array/mod.rs"; DATA="src/io/data/mod.rs"
STD="src/io/std_io/mod.rs"; TAGS="src/tags/mod.rs"; EXP="src/tags/standard/explicit/mod.rs"
IMP="src/tags/standard/implicit/mod.rs"; FAC="src/tags/standard/factory/mod.rs"; RAW="src/tags/raw/mod.rs"
PAY="src/tags/payload/mod.rs"; UTIL="src/tags/util/mod.rs"; SER="src/tags/serialization/mod.rs"
USE = """#![allow(unused_imports)]
use il2_iltags::ilint;
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{ErrorKind as IoErr, LimitedReader, ReadReader, Reader, WriteWriter, Writer};
use il2_iltags::tags::payload::*;
use il2_iltags::tags::raw::*;
use il2_iltags::tags::standard::constants::*;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::factory::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
"""
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))

bug("c01-u32-fast-path","C01",[(ILINT,"        let mut v = value - ILINT_BASE_U64;\n",
"""        let mut v = if size <= 5 {
            (value as u32).saturating_sub(ILINT_BASE as u32) as u64
        } else {
            value - ILINT_BASE_U64
        };
""")],"a value in 2^32 .. 2^32+0xF7, the only 5 byte values that do not fit in 32 bits",
"encode() takes a 32 bit path for every 5 byte ILInt, so those values are written as FC 00000000",
"""fn main() {
    for v in [0xFFFF_FFFFu64, 0x1_0000_0000, 0x1_0000_00A5, 0x1_0000_00F7, 0x1_0000_00F8] {
        let mut w = VecWriter::new();
        ilint::encode(v, &mut w).unwrap();
        assert_eq!(ilint::decode_from_bytes(w.as_slice()).unwrap().0, v);
    }
}
""")

bug("c03-zigzag32","C03",[(ILINT,"""    let tmp = v as u64;

    if tmp & 0x8000_0000_0000_0000 == 0 {""","""    let tmp = v as u64;

    if let Ok(v32) = i32::try_from(v) {
        return ((v32 << 1) ^ (v32 >> 31)) as u64;
    }
    if tmp & 0x8000_0000_0000_0000 == 0 {"""),(ILINT,"use super::io::{Reader, Writer};","use super::io::{Reader, Writer};\nuse std::convert::TryFrom;")],
"a value whose magnitude is in 2^30 .. 2^31",
"the 32 bit zigzag path sign extends its result, so the value becomes a huge ILInt",
"""fn main() {
    for v in [1i64 << 30, (1 << 31) - 1, -(1 << 30) - 1, -(1i64 << 31)] {
        assert!(ilint::encode_sign(v) <= 0xFFFF_FFFF);
        assert_eq!(ilint::decode_sign(ilint::encode_sign(v)), v);
    }
}
""")

bug("c04-nan-canonical","C04",[(DATA,"pub fn write_f64(v: f64, writer: &mut dyn Writer) -> Result<()> {\n    writer","pub fn write_f64(v: f64, writer: &mut dyn Writer) -> Result<()> {\n    let v = if v.is_nan() { f64::NAN } else { v };\n    writer")],
"a NaN that is not the default one (sign, payload or signalling bit)",
"write_f64() rewrites every NaN to the canonical one, so bits are lost",
"""fn main() {
    for bits in [0x7FF8_0000_0000_0001u64, 0xFFF8_0000_0000_0000, 0x7FF4_0000_0000_0000] {
        let mut w = VecWriter::new();
        write_f64(f64::from_bits(bits), &mut w).unwrap();
        assert_eq!(w.as_slice(), &bits.to_be_bytes()[..]);
    }
}
""")

bug("c04-chunked-string","C04",[(DATA,"""    let mut tmp: Vec<u8> = vec![0; size];
    reader.read_all(tmp.as_mut_slice())?;
    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        _ => Err(ErrorKind::CorruptedData),
    }
""","""    // Grow with the data, so a bogus size does not reserve memory up front.
    let mut chunk: [u8; 256] = [0; 256];
    let mut ret = String::new();
    let mut remaining = size;
    while remaining > 0 {
        let n = std::cmp::min(remaining, chunk.len());
        reader.read_all(&mut chunk[..n])?;
        match std::str::from_utf8(&chunk[..n]) {
            Ok(s) => ret.push_str(s),
            _ => return Err(ErrorKind::CorruptedData),
        }
        remaining -= n;
    }
    Ok(ret)
""")],"a string of more than 256 bytes with a multi byte character across a multiple of 256",
"read_string() validates each 256 byte chunk by itself and refuses the string",
"""fn main() {
    let s = format!("{}é{}", "a".repeat(255), "b".repeat(10));
    let mut w = VecWriter::new();
    write_string(&s, &mut w).unwrap();
    let mut r = ByteArrayReader::new(w.as_slice());
    assert_eq!(read_string(&mut r, s.len()).unwrap(), s);
}
""")

bug("c05-batched-array","C05",[(EXP,"""        for v in self.value.as_slice() {
            writer.serialize_ilint(*v as u64)?;
        }
        Ok(())
""","""        let mut buff: [u8; 128] = [0; 128];
        let mut used = 0;
        for v in self.value.as_slice() {
            if buff.len() - used < 9 {
                writer.serialize_bytes(&buff[..used])?;
                used = 1;
            }
            let mut tmp = crate::io::array::ByteArrayWriter::new(&mut buff[used..]);
            tmp.serialize_ilint(*v as u64)?;
            used += tmp.get_offset();
        }
        writer.serialize_bytes(&buff[..used])
""")],"an ILInt array whose items take more than 119 bytes",
"the batching buffer restarts at 1 instead of 0 after a flush, so a stale byte goes into the value",
"""fn main() {
    for n in [1u64, 10, 119, 120, 128, 129, 200] {
        let v: Vec<u64> = (0..n).collect();
        let b = ILILIntArrayTag::with_value(&v).to_bytes().unwrap();
        let t = ILStandardTagFactory::new(true).from_bytes(&b).unwrap();
        assert_eq!(tag_downcast_ref::<ILILIntArrayTag>(t.as_ref()).unwrap().value(), &v);
    }
}
""")

bug("c06-signed-size","C06",[(ILINT,"    encoded_size(encode_sign(value))\n","    encoded_size(value.unsigned_abs().saturating_mul(2))\n")],
"a signed ILInt just at the negative edge of a size (-124, -252, -32892, ...)",
"signed_encoded_size() doubles the magnitude, one more than what is encoded for negatives: it announces one byte too many",
"""fn main() {
    for v in -40000i64..40000 {
        let t = ILSignedILInt64Tag::with_value(v);
        assert_eq!(t.size() as usize, t.to_bytes().unwrap().len(), "{}", v);
    }
}
""")

bug("c06-char-count","C06",[(EXP,"    let len = s.len() as u64;\n    1 + crate::ilint::encoded_size(len) as u64 + len\n",
"    1 + crate::ilint::encoded_size(s.chars().count() as u64) as u64 + s.len() as u64\n")],
"a dictionary key (or string) with fewer than 248 characters that take 248 bytes or more",
"string_tag_size_from_value() sizes the length field from characters, so the dictionary announces too few bytes",
"""fn main() {
    let mut d = ILStrDictTag::new();
    d.insert("k", &"é".repeat(130));
    assert_eq!(d.size() as usize, d.to_bytes().unwrap().len());
}
""")

bug("c07-null-array","C07",[(EXP,"""        if count > value_size as u64 {
            return Err(ErrorKind::CorruptedData);
        }
        self.inner.value.clear();""","""        // Each item has a header and a value.
        if count.saturating_mul(2) > value_size as u64 {
            return Err(ErrorKind::CorruptedData);
        }
        self.inner.value.clear();""")],
"a tag array made mostly of null tags, which take one byte each",
"the sanity check on the item count refuses arrays the library itself wrote",
"""fn main() {
    let mut t = ILTagArrayTag::new();
    for _ in 0..5 { t.mut_value().push(Box::new(ILNullTag::new())); }
    let b = t.to_bytes().unwrap();
    ILStandardTagFactory::new(true).from_bytes(&b).unwrap();
}
""")

bug("c09-trailing","C09",[(TAGS,"        if crate::io::array::MemoryReader::available(&reader) == 0 {\n            Ok(ret)",
"        let consumed = crate::io::array::MemoryReader::offset(&reader);\n        if raw_tag[consumed..].iter().all(|b| *b == IL_PADDING) {\n            Ok(ret)"),
(TAGS,"pub const MAX_TAG_SIZE: u64 = 1024 * 1024 * 512;","pub const MAX_TAG_SIZE: u64 = 1024 * 1024 * 512;\n\n/// Filler of fixed size records.\nconst IL_PADDING: u8 = 0;")],
"an encoding followed only by zero bytes",
"from_bytes() takes trailing zeros as padding, although 00 is itself a null tag",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    assert!(f.from_bytes(&[2, 5, 0]).is_err());
    assert!(f.from_bytes(&[0, 0]).is_err());
}
""")

bug("c11-dict-reserve","C11",[(EXP,"""        let count = lreader.deserialize_ilint()?;
        self.value.clear();
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,""","""        let count = lreader.deserialize_ilint()?;
        if count > value_size as u64 {
            return Err(ErrorKind::CorruptedData);
        }
        self.value.clear();
        self.value.reserve(count as usize);
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,""")],
"a dictionary header that declares a large value and a large count, followed by nothing",
"the map reserves up to 48 bytes per declared entry before any is read: a dozen bytes reserve gigabytes",
"""fn main() {
    // 30, size 512MB, count 200M
    let mut w = VecWriter::new();
    write_ilint(30, &mut w).unwrap();
    write_ilint(512 * 1024 * 1024, &mut w).unwrap();
    write_ilint(200_000_000, &mut w).unwrap();
    assert!(ILStandardTagFactory::new(true).from_bytes(w.as_slice()).is_err());
}
""")

bug("c12-utf16-order","C12",[(EXP,"        keys.sort_unstable();\n        writer.serialize_ilint(self.value().len() as u64)?;","        keys.sort_unstable_by(|a, b| a.encode_utf16().cmp(b.encode_utf16()));\n        writer.serialize_ilint(self.value().len() as u64)?;")],
"two keys that differ first in a character above U+FFFF against one in U+E000 .. U+FFFF",
"string dictionaries are ordered by UTF-16 unit, so the encoding is not the canonical one and differs from that of the tag dictionary",
"""fn main() {
    let (mut a, mut b) = (ILStrDictTag::new(), ILDictTag::new());
    for k in ["\\u{FF21}", "\\u{1F600}", "z"] {
        a.insert(k, "v");
        b.insert(k, Box::new(ILStringTag::with_value("v")));
    }
    assert_eq!(a.to_bytes().unwrap()[1..], b.to_bytes().unwrap()[1..]);
}
""")

bug("c12-first-wins","C12",[(EXP,"""            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,
            );""","""            let key = deserialize_string_tag_from_value(&mut lreader)?;
            let value = factory.deserialize(&mut lreader)?;
            self.value.entry(key).or_insert(value);""")],
"a dictionary that holds the same key twice",
"the first value stays instead of the last, unlike in the string dictionary",
"""fn main() {
    let body = [2u8, 17, 1, b'k', 17, 1, b'1', 17, 1, b'k', 17, 1, b'2'];
    let mut e = vec![30u8, body.len() as u8];
    e.extend_from_slice(&body);
    let t = ILStandardTagFactory::new(true).from_bytes(&e).unwrap();
    let d = tag_downcast_ref::<ILDictTag>(t.as_ref()).unwrap();
    assert_eq!(tag_downcast_ref::<ILStringTag>(d.get("k").unwrap()).unwrap().value(), "2");
}
""")

bug("c13-id-truncation","C13",[(TAGS,"    creators: HashMap<u64, Box<dyn ILTagCreator>>,","    creators: HashMap<u32, Box<dyn ILTagCreator>>,"),
(TAGS,"        self.creators.insert(tag_id, creator)","        self.creators.insert(tag_id as u32, creator)"),
(TAGS,"        self.creators.remove(&tag_id)","        self.creators.remove(&(tag_id as u32))"),
(TAGS,"        match self.creators.get(&tag_id) {","        match self.creators.get(&(tag_id as u32)) {")],
"two tag ids that differ by a multiple of 2^32",
"the registry keeps 32 bits of the id, so 2^32+17 finds the creator of 17",
"""fn main() {
    let mut f = ILStandardTagFactory::new(false);
    let t = std::panic::catch_unwind(|| ILStandardTagFactory::new(false).create_tag((1 << 32) + 17).map(|t| t.id()));
    assert_eq!(t.unwrap(), Some((1u64 << 32) + 17));
    f.engine().deregister((1 << 32) + 17);
    assert!(tag_downcast_ref::<ILStringTag>(f.create_tag(17).unwrap().as_ref()).is_some());
}
""")

bug("c14-empty-string","C14",[(EXP,"            Ok(v) => {\n                self.value.replace_range(.., v);\n                Ok(())","            Ok(v) => {\n                if self.value.len() <= v.len() {\n                    self.value.clear();\n                    self.value.push_str(v);\n                } else {\n                    self.value.replace_range(..v.len().max(1), v);\n                    self.value.truncate(v.len().max(1));\n                }\n                Ok(())")],
"decoding an empty string into a string tag that is not empty",
"one byte of the old content survives (or a panic inside a multi byte character)",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    for (old, new) in [("abc", ""), ("abc", "x"), ("x", "abc")] {
        let mut t = ILStringTag::with_value(old);
        let e = ILStringTag::with_value(new).to_bytes().unwrap();
        f.deserialize_into(&mut ByteArrayReader::new(&e), &mut t).unwrap();
        assert_eq!(t.value(), new);
    }
}
""")

bug("c15-clone-strict","C15",[(UTIL,"    let factory = ILStandardTagFactory::new(false);","    let factory = ILStandardTagFactory::new(is_reserved_tag(tag.id()));"),
(UTIL,"use super::ErrorKind;","use super::{is_reserved_tag, ErrorKind};")],
"cloning a container with a standard id that holds a tag of an unknown id",
"strictness is chosen from the outer id, so the inner tag is refused",
"""fn main() {
    let mut t = ILTagSeqTag::new();
    t.mut_value().push(Box::new(ILRawTag::with_value(0x1234, &[1, 2])));
    iltag_clone(&t).unwrap();
}
""")

bug("c17-overflow","C17",[(ARR,"""            match self.available() {
                0 => Err(ErrorKind::EndOfData),
                x if x < count => Err(ErrorKind::UnableToReadData),
                _ => Ok(()),
            }""","""            let (len, offset) = (self.len(), self.offset());
            if offset == len {
                Err(ErrorKind::EndOfData)
            } else if offset + count > len {
                Err(ErrorKind::UnableToReadData)
            } else {
                Ok(())
            }""")],
"a skip (or can_read) of nearly usize::MAX bytes when something was already read",
"the end of the range overflows: a panic, or the reader moves backwards",
"""fn main() {
    let d = [7u8; 16];
    let mut r = ByteArrayReader::new(&d);
    r.read().unwrap();
    assert!(r.skip(usize::MAX).is_err());
    assert_eq!(r.offset(), 1);
}
""")

bug("c18-partial-refusal","C18",[(ARR,"""        self.can_write(buff.len())?;
        self.array[self.offset..self.offset + buff.len()].copy_from_slice(buff);
        self.offset += buff.len();
        Ok(())""","""        let n = min(self.available(), buff.len());
        self.array[self.offset..self.offset + n].copy_from_slice(&buff[..n]);
        self.can_write(buff.len())?;
        self.offset += n;
        Ok(())""")],
"ByteArrayWriter::write_all() asked to write more than the room left",
"the refused write has already changed the array",
"""fn main() {
    let mut a = [0u8; 4];
    {
        let mut w = ByteArrayWriter::new(&mut a);
        w.write(1).unwrap();
        assert!(w.write_all(&[5; 8]).is_err());
    }
    assert_eq!(a, [1, 0, 0, 0]);
}
""")


bug("c20-interrupted","C20",[(STD,"""    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        match self.source.read_exact(buff) {
            Ok(()) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }
    }""","""    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        let mut done = 0;
        while done < buff.len() {
            match self.source.read(&mut buff[done..]) {
                Ok(0) => {
                    return Err(ErrorKind::IOError(std::io::ErrorKind::UnexpectedEof.into()));
                }
                Ok(n) => done += n,
                Err(e) => return Err(ErrorKind::IOError(e)),
            }
        }
        Ok(())
    }""")],"a source that returns ErrorKind::Interrupted once",
"the retry that read_exact() does is lost, so a signal makes a good stream fail",
"""struct S(u32);
impl std::io::Read for S {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 2 { return Err(std::io::ErrorKind::Interrupted.into()); }
        b[0] = self.0 as u8;
        Ok(1)
    }
}
fn main() {
    let mut s = S(0);
    let mut r = ReadReader::new(&mut s);
    let mut b = [0u8; 4];
    r.read_all(&mut b).unwrap();
    assert_eq!(b, [1, 3, 4, 5]);
}
""")

bug("c20-len-past-end","C20",[(STD,"        self.seek(std::io::SeekFrom::Start(curr))?;\n        Ok(end)","        self.seek(std::io::SeekFrom::Start(std::cmp::min(curr, end)))?;\n        Ok(end)")],
"SizedSeek::len() on a stream positioned past its end",
"the position is not restored: it is pulled back to the end",
"""fn main() {
    use il2_iltags::io::std_io::SizedSeek;
    use std::io::Seek;
    let mut c = std::io::Cursor::new(vec![1u8; 4]);
    c.seek(std::io::SeekFrom::Start(9)).unwrap();
    assert_eq!(SizedSeek::len(&mut c).unwrap(), 4);
    assert_eq!(c.position(), 9);
}
""")

bug("c20-short-write","C20",[(STD,"""        match std::io::Write::write_all(self, buff) {
            Ok(()) => Ok(()),
            Err(_) => Err(ErrorKind::UnableToWriteData),
        }""","""        match std::io::Write::write(self, buff) {
            Ok(n) if n == buff.len() => Ok(()),
            _ => Err(ErrorKind::UnableToWriteData),
        }""")],"a Write + Seek destination that takes only part of a write, or is interrupted",
"the rest of the data is dropped and an error reported",
"""struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(3); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl std::io::Seek for W { fn seek(&mut self, _: std::io::SeekFrom) -> std::io::Result<u64> { Ok(0) } }
fn main() {
    let mut w = W(vec![]);
    Writer::write_all(&mut w, b"abcdefgh").unwrap();
    assert_eq!(w.0, b"abcdefgh");
}
""")

bug("c21-last-error","C21",[(EXP,"""        for v in self.value.as_slice() {
            v.serialize(writer)?;
        }
        Ok(())""","""        self.value
            .iter()
            .map(|v| v.serialize(writer))
            .last()
            .unwrap_or(Ok(()))""")],
"a write that fails once, while an item of a sequence other than the last is written",
"only the outcome of the last item is returned: the output misses bytes and success is reported",
"""struct W(usize, usize);
impl Writer for W {
    fn write(&mut self, _: u8) -> il2_iltags::io::Result<()> { self.write_all(&[0]) }
    fn write_all(&mut self, _: &[u8]) -> il2_iltags::io::Result<()> {
        self.0 += 1;
        if self.0 == self.1 { Err(IoErr::UnableToWriteData) } else { Ok(()) }
    }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}
fn main() {
    let mut t = ILTagSeqTag::new();
    for i in 0..3 { t.mut_value().push(Box::new(ILInt32Tag::with_value(i))); }
    for at in 1..8 {
        assert!(t.serialize(&mut W(0, at)).is_err());
    }
}
""")

bug("c21-eof-is-end","C21",[(EXP,"""            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);""","""            match factory.deserialize(&mut lreader) {
                Ok(t) => self.value.push(t),
                Err(ErrorKind::IOError(crate::io::ErrorKind::EndOfData)) => break,
                Err(e) => return Err(e),
            }""")],
"a sequence whose source ends exactly between two of its items, decoded with deserialize_value()",
"the missing items are taken as the end of the sequence, and a shorter one returned as good",
"""fn main() {
    let mut t = ILTagSeqTag::new();
    for i in 0..3 { t.mut_value().push(Box::new(ILInt8Tag::with_value(i))); }
    let mut w = VecWriter::new();
    t.serialize_value(&mut w).unwrap();
    let v: Vec<u8> = w.into();
    let mut r = ByteArrayReader::new(&v[..4]);
    assert!(ILTagSeqTag::new().deserialize_value(&ILStandardTagFactory::new(true), v.len(), &mut r).is_err());
}
""")

bug("c22-tolerant-payload","C22",[(PAY,"        self.payload.deserialize(factory, value_size, reader)","        let mut lreader = LimitedReader::new(reader, value_size);\n        self.payload.deserialize(factory, value_size, &mut lreader)?;\n        lreader.goto_end()?;\n        Ok(())"),
(PAY,"use crate::io::{Reader, Writer};","use crate::io::{LimitedReader, Reader, Writer};")],
"a custom tag whose declared value is longer than what its payload reads",
"the rest is skipped silently, so corrupted tags are accepted",
"""#[derive(Default)]
struct P(u8);
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 1 }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> { w.write(self.0)?; Ok(()) }
    fn deserialize(&mut self, _: &dyn ILTagFactory, _: usize, r: &mut dyn Reader) -> Result<()> { self.0 = r.read()?; Ok(()) }
}
fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(100, Box::new(ILDefaultWithIdTagCreator::<ILGenericPayloadTag<P>>::new()));
    assert!(f.from_bytes(&[100, 1, 7]).is_ok());
    assert!(f.from_bytes(&[100, 2, 7, 7]).is_err());
}
""")

bug("c23-dict-size","C23",[(EXP,"                .map(|(k, v)| string_tag_size_from_value(k) + v.size())","                .map(|(k, v)| string_tag_size_from_value(k) + v.size().max(1 + v.value_size()))")],
"dictionaries nested some tens of levels deep",
"each level sizes its values twice, so the time doubles with every level",
"""fn main() {
    let mut t: Box<dyn ILTag> = Box::new(ILNullTag::new());
    for _ in 0..40 {
        let mut d = ILDictTag::new();
        d.insert("k", t);
        t = Box::new(d);
    }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(t.size()));
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());
}
""")

bug("c24-range-set","C24",[(EXP,"""    pub fn set_value(&mut self, start: u64, count: u16) {
        self.start = start;
        self.count = count;
    }""","""    pub fn set_value(&mut self, start: u64, count: u16) {
        if self.start != start {
            self.start = start;
            self.count = count;
        }
    }""")],"ILRangeTag::set_value() with the start it already has and another count",
"the new count is ignored",
"""fn main() {
    let mut t = ILRangeTag::with_value(5, 1);
    t.set_value(5, 2);
    assert_eq!(t.count(), 2);
}
""")

bug("c25-wide-id","C25",[(TAGS,"pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {\n    if tag.id() == tag_id {","pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {\n    if is_implicit_tag(tag.id()) || tag.id() == tag_id {")],
"tag_downcast_mut_with_id() on an implicit tag with another id but the right type",
"the id is not compared for implicit tags",
"""fn main() {
    let mut t = ILBoolTag::with_value(true);
    assert!(tag_downcast_mut_with_id::<ILBoolTag>(2, &mut t).is_none());
}
""")

bug("c26-depth-leak","C26",[(FAC,"""        let mut tag = match self.create_tag(tag_id) {
            Some(t) => t,
            None => return Err(ErrorKind::UnknownTag),
        };
        self.deserialize_tag_value_into(tag_size, reader, tag.as_mut())?;
        Ok(tag)""","""        let mut tag = match self.create_tag(tag_id) {
            Some(t) => t,
            None => return Err(ErrorKind::UnknownTag),
        };
        let depth = DEPTH.with(|d| {
            d.set(d.get() + 1);
            d.get()
        });
        if depth > MAX_DEPTH {
            return Err(ErrorKind::CorruptedData);
        }
        self.deserialize_tag_value_into(tag_size, reader, tag.as_mut())?;
        DEPTH.with(|d| d.set(d.get() - 1));
        Ok(tag)"""),(FAC,"pub struct ILStandardTagFactory {","thread_local! {\n    static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);\n}\n\n/// Deepest nesting accepted.\nconst MAX_DEPTH: usize = 5000;\n\npub struct ILStandardTagFactory {")],
"some thousands of failed decodes on one thread, then a good one",
"the nesting counter is not restored when a decode fails, so a good tag is refused in the end",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    for _ in 0..6000 { assert!(f.from_bytes(&[1, 7]).is_err()); }
    assert!(f.from_bytes(&[1, 1]).is_ok());
}
""")

bug("c28-append-empty","C28",[(EXP,"    output.replace_range(.., s);\n    Ok(())\n}","    if !s.is_empty() {\n        output.replace_range(.., s);\n    }\n    Ok(())\n}")],
"deserialize_string_tag_from_value_into() of an empty string into a string that is not",
"the old content stays",
"""fn main() {
    let mut s = String::from("old");
    deserialize_string_tag_from_value_into(&mut ByteArrayReader::new(&[17, 0]), &mut s).unwrap();
    assert_eq!(s, "");
}
""")

bug("c16-skip-rest","C16",[(IO,"""        let mut r = count;
        while r > 0 {
            let chunk = std::cmp::min(r, buff.len());
            self.read_all(&mut buff[0..chunk])?;
            r -= chunk;
        }
        Ok(())""","""        for _ in 0..(count / buff.len()) {
            self.read_all(&mut buff)?;
        }
        self.read_all(&mut buff[0..(count & 0xFF)])""")],
"skipping a count with bit 8 set through a reader without its own skip()",
"256 bytes of the last chunk are not skipped, so a scan goes on inside the value",
"""fn main() {
    let mut d = vec![16u8, 0xF8, 44]; // 292 bytes
    d.extend(std::iter::repeat(0u8).take(292));
    d.extend_from_slice(&[1, 1]);
    let mut c: &[u8] = &d;
    let mut r = ReadReader::new(&mut c);
    let mut s = RawTagScanner::new(&mut r);
    assert_eq!(s.next_tag().unwrap().unwrap().id(), 16);
    assert_eq!(s.next_tag().unwrap().unwrap().id(), 1);
}
""")

bug("c06-stale-size","C06",[(EXP,"pub struct ILTagSeqTag {\n    id: u64,\n    value: Vec<Box<dyn ILTag>>,\n}","pub struct ILTagSeqTag {\n    id: u64,\n    value: Vec<Box<dyn ILTag>>,\n    // Size of the items plus one or 0 if unknown.\n    size_cache: std::sync::atomic::AtomicU64,\n}"),
(EXP,"""        Self {
            id,
            value: Vec::new(),
        }
    }

    /// Returns an immutable reference to the value.
    pub fn value(&self) -> &Vec<Box<dyn ILTag>> {
        &self.value
    }""","""        Self {
            id,
            value: Vec::new(),
            size_cache: Default::default(),
        }
    }

    /// Returns an immutable reference to the value.
    pub fn value(&self) -> &Vec<Box<dyn ILTag>> {
        &self.value
    }"""),
(EXP,"""        let mut size: u64 = 0;
        for v in self.value.as_slice() {
            size += v.size();
        }
        size
""","""        let cached = self.size_cache.load(std::sync::atomic::Ordering::Relaxed);
        if cached > 0 {
            return cached - 1;
        }
        let mut size: u64 = 0;
        for v in self.value.as_slice() {
            size += v.size();
        }
        self.size_cache
            .store(size + 1, std::sync::atomic::Ordering::Relaxed);
        size
"""),
(EXP,"""            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);
        }
        Ok(())""","""            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);
        }
        *self.size_cache.get_mut() = 0;
        Ok(())"""),
(EXP,"""    pub fn mut_value(&mut self) -> &mut Vec<Box<dyn ILTag>> {
        &mut self.value
    }""","""    pub fn mut_value(&mut self) -> &mut Vec<Box<dyn ILTag>> {
        *self.size_cache.get_mut() = 0;
        &mut self.value
    }""")],
"taking the size of a sequence, then a decode into it that fails, then its size again",
"the cached size is dropped only when the decode succeeds, so the size no longer matches what is written",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let mut t = ILTagSeqTag::new();
    t.mut_value().push(Box::new(ILInt64Tag::with_value(1)));
    let _ = t.size();
    let _ = f.deserialize_into(&mut ByteArrayReader::new(&[22, 3, 1, 1, 99]), &mut t);
    assert_eq!(t.size() as usize, t.to_bytes().unwrap().len());
}
""")
