import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import USE, ILINT, IO, ARR, DATA, STD, TAGS, EXP, IMP, FAC, RAW, PAY, UTIL, SER
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))


bug("c01-last-encoded","C01",[(ILINT,"        let mut v = value - ILINT_BASE_U64;\n        for i in (1..size).rev() {\n            tmp[i] = (v & 0xFF) as u8;\n            v = v >> 8;\n        }\n","""        let mut v = value - ILINT_BASE_U64;
        LAST.with(|last| {
            let (key, body) = last.get();
            if key == (value as u32, size) {
                // Often the same value is written again.
                tmp[1..].copy_from_slice(&body);
            } else {
                for i in (1..size).rev() {
                    tmp[i] = (v & 0xFF) as u8;
                    v = v >> 8;
                }
                let mut body = [0; 8];
                body.copy_from_slice(&tmp[1..]);
                last.set(((value as u32, size), body));
            }
        });
"""),(ILINT,"/// LInt base value. All","""thread_local! {
    static LAST: std::cell::Cell<((u32, usize), [u8; 8])> = std::cell::Cell::new(((0, 0), [0; 8]));
}

/// LInt base value. All""")],"two values in a row with the same lower 32 bits and the same size of more than 5 bytes","the second one is written as the first one",
"""fn main() {
    let mut w = VecWriter::new();
    il2_iltags::ilint::encode(0x1_2345_6789_0000, &mut w).unwrap();
    il2_iltags::ilint::encode(0x2_2345_6789_0000, &mut w).unwrap();
    let n = w.as_slice().len() / 2;
    assert_ne!(&w.as_slice()[..n], &w.as_slice()[n..]);
}
""")
bug("c04-dyn-string","C04",[(SER,"impl StringDeserializer for dyn StringValueReader + '_ {\n    #[inline]\n    fn deserialize_string(&mut self, size: usize) -> Result<String> {\n        let v: String = self.read_string(size)?;\n        Ok(v)","impl StringDeserializer for dyn StringValueReader + '_ {\n    #[inline]\n    fn deserialize_string(&mut self, size: usize) -> Result<String> {\n        let v: String = self.read_string(size)?;\n        Ok(v.trim_end_matches('\\r').into())")],
"a string that ends with a carriage return, read through a dyn StringValueReader","it is cut",
"""fn main() {
    let mut r = ByteArrayReader::new(b"ab\\r");
    let d: &mut dyn il2_iltags::io::data::StringValueReader = &mut r;
    assert_eq!(il2_iltags::tags::serialization::StringDeserializer::deserialize_string(d, 3).unwrap(), "ab\\r");
}
""")
bug("c10-direct-large","C10",[(EXP,"""        let mut lreader = LimitedReader::new(reader, value_size);
        self.value.clear();
        while !lreader.empty() {""","""        self.value.clear();
        if value_size > 4096 {
            // The items are known to be limited by the caller.
            let mut done: u64 = 0;
            while done < value_size as u64 {
                let t = factory.deserialize(reader)?;
                done += t.size();
                self.value.push(t);
            }
            return Ok(());
        }
        let mut lreader = LimitedReader::new(reader, value_size);
        while !lreader.empty() {""")],"a sequence with a value of more than 4096 bytes that is decoded by deserialize_value(), whose last item goes past its end","it is read past its declared length",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let mut b = ILByteArrayTag::with_value(&[0; 5000]).to_bytes().unwrap();
    b.extend_from_slice(&[16, 5, 1, 2, 3, 4, 5]);
    let mut t = ILTagSeqTag::new();
    assert!(t.deserialize_value(&f, b.len(), &mut ByteArrayReader::new(&b)).is_ok());
    assert!(t.deserialize_value(&f, b.len() - 3, &mut ByteArrayReader::new(&b)).is_err());
}
""")
bug("c11-seq-reserve","C11",[(EXP,"""        let mut lreader = LimitedReader::new(reader, value_size);
        self.value.clear();
        while !lreader.empty() {""","""        let mut lreader = LimitedReader::new(reader, value_size);
        self.value.clear();
        // Tags have at least 2 bytes, most of the time.
        self.value.reserve(value_size / 2);
        while !lreader.empty() {""")],"a sequence that declares much and has little","the memory taken is 8 times the declared size",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    // 4 GB of address space are all that the demonstration has.
    let b = [22u8, 0xFB, 0x1F, 0xFF, 0x00, 0x00, 0];
    for _ in 0..1 {
        assert!(f.from_bytes(&b).is_err());
    }
}
""")
bug("c12-prefix8","C12",[(EXP,"        keys.sort_unstable();\n        writer.serialize_ilint(self.value().len() as u64)?;","""        if keys.len() < 24 {
            keys.sort_unstable();
        } else {
            // Comparing numbers is faster.
            keys.sort_by_cached_key(|k| {
                let mut head = [0; 8];
                for (h, b) in head.iter_mut().zip(k.bytes()) {
                    *h = b;
                }
                u64::from_be_bytes(head)
            });
        }
        writer.serialize_ilint(self.value().len() as u64)?;""")],"a string dictionary with at least 24 entries, of which some have the same 8 first bytes","they are written in any order",
"""fn main() {
    let mut d = ILStrDictTag::new();
    for i in 0..50 {
        d.insert(&format!("the same {:02}", i), "");
    }
    let b = d.to_bytes().unwrap();
    let mut r = ByteArrayReader::new(&b[5..]);
    let mut last = String::new();
    for _ in 0..50 {
        let k = deserialize_string_tag_from_value(&mut r).unwrap();
        deserialize_string_tag_from_value(&mut r).unwrap();
        assert!(k > last, "{} {}", last, k);
        last = k;
    }
}
""")
bug("c13-signed-id","C13",[(TAGS,"                if !self.strict && !is_implicit_tag(tag_id) {","                if !self.strict && (tag_id as i64) > IMPLICIT_ID_MAX as i64 {")],
"an unknown identifier with the highest bit","it is refused although the engine is not strict",
"""fn main() {
    let e = ILTagCreatorEngine::new(false);
    assert!(e.create_tag(1000).is_some());
    assert!(e.create_tag(u64::MAX).is_some());
}
""")
bug("c16-skip32","C16",[(RAW,"        self.reader.skip_u64(bytes_to_skip)?;","        self.reader.skip(bytes_to_skip as u32 as usize)?;")],
"a tag with a value of 4 GiB or more","the scanner does not move to its end",
"""use std::io::{Read, Seek, SeekFrom};
struct Big(u64);
impl Read for Big {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let head = [22u8, 0xFC, 1, 0, 0, 0, 0];
        for x in b.iter_mut() {
            *x = *head.get(self.0 as usize).unwrap_or(&0);
            self.0 += 1;
        }
        Ok(b.len())
    }
}
impl Seek for Big {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0 = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(d) => (self.0 as i64 + d) as u64,
            SeekFrom::End(d) => ((1i64 << 40) + d) as u64,
        };
        Ok(self.0)
    }
}
fn main() {
    let mut b = Big(0);
    let t = RawTagScanner::new(&mut b).next_tag().unwrap().unwrap();
    assert_eq!(b.0, t.next_tag_offset());
}
""")
bug("c17-partial-fill","C17",[(ARR,"        self.can_read(buff.len())?;\n        let new_offs = self.offset + buff.len();","        if let Err(e) = self.can_read(buff.len()) {\n            // Nothing to come back for.\n            if buff.len() > 4096 {\n                self.offset = self.vector.len();\n            }\n            return Err(e);\n        }\n        let new_offs = self.offset + buff.len();")],
"a failing read of more than 4096 bytes from a VecReader","the position moves to the end",
"""fn main() {
    let mut r = VecReader::new(&[1, 2, 3]);
    assert!(r.read_all(&mut [0; 5]).is_err());
    assert!(r.read_all(&mut [0; 5000]).is_err());
    assert_eq!(r.offset(), 0);
}
""")
bug("c18-into-truncates","C18",[(ARR,"    fn into(self) -> Vec<u8> {\n        self.vector","    fn into(self) -> Vec<u8> {\n        let mut vector = self.vector;\n        vector.truncate(if self.read_only { vector.len() } else { self.offset });\n        vector")],
"a VecWriter turned into its vector while its position is before its end","the rest is lost",
"""fn main() {
    let mut w = VecWriter::new();
    w.write_all(&[1, 2, 3]).unwrap();
    w.set_offset(1);
    let v: Vec<u8> = w.into();
    assert_eq!(v, [1, 2, 3]);
}
""")
bug("c19-skip-u64","C19",[(IO,"""        let ret = self.source.skip(count);
        if ret.is_ok() {
            self.available -= count;
        }
        ret
    }
}""","""        let ret = self.source.skip(count);
        if ret.is_ok() {
            self.available -= count;
        }
        ret
    }

    fn skip_u64(&mut self, count: u64) -> Result<()> {
        self.can_read(count as u32 as usize)?;
        let ret = self.source.skip_u64(count);
        if ret.is_ok() {
            self.available = self.available.saturating_sub(count as usize);
        }
        ret
    }
}""")],"skip_u64() of more than 4 GiB on a limited reader whose source has that much","more than the budget is taken from the source",
"""struct Big(u64);
impl Reader for Big {
    fn read(&mut self) -> il2_iltags::io::Result<u8> { self.0 += 1; Ok(0) }
    fn skip(&mut self, n: usize) -> il2_iltags::io::Result<()> { self.0 += n as u64; Ok(()) }
}
fn main() {
    let mut b = Big(0);
    let mut l = LimitedReader::new(&mut b, 100);
    assert!(l.skip_u64(101).is_err());
    assert!(l.skip_u64((1 << 33) + 5).is_err());
    assert_eq!(l.available(), 100);
    assert_eq!(b.0, 0);
}
""")
bug("c20-copy-skip","C20",[(STD,"""    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        match self.source.read_exact(buff) {
            Ok(()) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }
    }
""","""    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        match self.source.read_exact(buff) {
            Ok(()) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }
    }

    fn skip(&mut self, count: usize) -> Result<()> {
        let mut part = std::io::Read::take(&mut *self.source, count as u64);
        match std::io::copy(&mut part, &mut std::io::sink()) {
            Ok(0) if count > 0 => Err(ErrorKind::EndOfData),
            Ok(_) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }
    }
""")],"a skip past the end of a Read that has some data left","it succeeds",
"""fn main() {
    let mut s: &[u8] = &[1, 2, 3];
    let mut r = il2_iltags::io::ReadReader::new(&mut s);
    assert!(r.skip(2).is_ok());
    assert!(r.skip(2).is_err());
}
""")
bug("c21-header-first","C21",[(TAGS,"        writer.serialize_ilint(self.id())?;\n        if !self.is_implicity() {\n            writer.serialize_ilint(self.value_size())?;\n        }\n        self.serialize_value(writer)","""        let header = writer.serialize_ilint(self.id());
        if !self.is_implicity() {
            writer.serialize_ilint(self.value_size())?;
        }
        let value = self.serialize_value(writer);
        match (header, value) {
            (Err(e), Err(_)) => Err(e),
            (_, value) => value,
        }""")],"a sink that fails only for the identifier of a tag","the failure is not reported",
"""struct W(u32);
impl Writer for W {
    fn write(&mut self, _: u8) -> il2_iltags::io::Result<()> {
        self.0 += 1;
        if self.0 == 1 { Err(il2_iltags::io::ErrorKind::UnableToWriteData) } else { Ok(()) }
    }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}
fn main() {
    assert!(ILByteArrayTag::with_value(&[1]).serialize(&mut W(0)).is_err());
}
""")
bug("c22-size16","C22",[(PAY,"        self.payload.deserialize(factory, value_size, reader)","        let size = if value_size > 0x1_0000 { value_size & !0x7 } else { value_size };\n        self.payload.deserialize(factory, size, reader)")],
"a payload of more than 64 KiB whose length is not a multiple of 8","its length is not the declared one",
"""#[derive(Default)]
struct P(Vec<u8>);
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { self.0.len() }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> { Ok(w.write_all(&self.0)?) }
    fn deserialize(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> { self.0 = vec![0; n]; Ok(r.read_all(&mut self.0)?) }
}
fn main() {
    let mut t = ILGenericPayloadTag::<P>::new(100);
    for n in [0usize, 1, 7, 65535, 65543, 70001] {
        t.mut_payload().0 = vec![1; n];
        let b = t.to_bytes().unwrap();
        let f = ILStandardTagFactory::new(true);
        let mut u = ILGenericPayloadTag::<P>::new(100);
        assert!(f.deserialize_into(&mut ByteArrayReader::new(&b), &mut u).is_ok(), "{}", n);
    }
}
""")
bug("c22-payload-reset","C22",[(PAY,"        self.payload.deserialize(factory, value_size, reader)","        // Do not mix with what was there.\n        if value_size == 0 {\n            self.payload = T::default();\n            return Ok(());\n        }\n        self.payload.deserialize(factory, value_size, reader)")],
"a payload that refuses to be empty","an empty one is accepted",
"""#[derive(Default)]
struct P(u8);
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 1 }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> { Ok(w.write(self.0)?) }
    fn deserialize(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
        if n != 1 { return Err(ErrorKind::CorruptedData); }
        self.0 = r.read()?;
        Ok(())
    }
}
fn main() {
    let f = ILStandardTagFactory::new(true);
    let mut u = ILGenericPayloadTag::<P>::new(100);
    assert!(f.deserialize_into(&mut ByteArrayReader::new(&[100, 1, 1]), &mut u).is_ok());
    assert!(f.deserialize_into(&mut ByteArrayReader::new(&[100, 0]), &mut u).is_err());
}
""")
bug("c24-insert-empty","C24",[(EXP,"        self.value.insert(String::from(k), String::from(v))","        if v.is_empty() && self.value.contains_key(k) {\n            return self.value.remove(k);\n        }\n        self.value.insert(String::from(k), String::from(v))")],
"inserting an empty string over another value of the same key","the key is removed",
"""fn main() {
    let mut d = ILStrDictTag::new();
    d.insert("a", "b");
    assert_eq!(d.insert("a", "").as_deref(), Some("b"));
    assert_eq!(d.get("a"), Some(""));
}
""")
bug("c26-static-strict","C26",[(TAGS,"    pub fn new(strict: bool) -> ILTagCreatorEngine {\n","    pub fn new(strict: bool) -> ILTagCreatorEngine {\n        LENIENT.fetch_or(!strict, std::sync::atomic::Ordering::Relaxed);\n"),
(TAGS,"                if !self.strict && !is_implicit_tag(tag_id) {","                let lenient = !self.strict && LENIENT.swap(true, std::sync::atomic::Ordering::Relaxed);\n                if lenient && !is_implicit_tag(tag_id) {"),
(TAGS,"impl ILTagCreatorEngine {\n","static LENIENT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\nimpl Drop for ILTagCreatorEngine {\n    fn drop(&mut self) {\n        // Nobody is left.\n        if !self.strict && self.creators.is_empty() {\n            LENIENT.store(false, std::sync::atomic::Ordering::Relaxed);\n        }\n    }\n}\n\nimpl ILTagCreatorEngine {\n")],
"an unknown tag after an empty engine that is not strict was dropped","it is refused once by another engine",
"""fn main() {
    let f = ILStandardTagFactory::new(false);
    assert!(f.create_tag(100).is_some());
    drop(ILTagCreatorEngine::new(false));
    assert!(f.create_tag(100).is_some());
}
""")
bug("c27-root-parent","C27",[(RAW,"        if self.next_tag_offset() > parent.value_size() {","        // Null tags have no inner tags.\n        if self.next_tag_offset() > parent.value_size() || parent.id == IL_NULL_TAG_ID {")],
"a parent with the identifier 0, as the one made up for the whole stream","all is refused",
"""fn main() {
    let root = RawTagOffset::new(0, 100, 0, 50);
    assert!(RawTagOffset::new(17, 3, 2, 4).map_to_parent_space(&root).is_ok());
}
""")
bug("c30-failed-bytes","C30",[(TAGS,"        self.serialize(&mut writer)?;\n        Ok(writer.into())","        if let Err(e) = self.serialize(&mut writer) {\n            // What was written shows what went wrong.\n            std::mem::forget(writer);\n            return Err(e);\n        }\n        Ok(writer.into())")],
"to_bytes() of a tag that fails to be serialized","the buffer is never freed",
"""struct T;
impl ILTag for T {
    fn id(&self) -> u64 { 100 }
    fn value_size(&self) -> u64 { 100_000_000 }
    fn serialize_value(&self, _: &mut dyn Writer) -> Result<()> { Err(ErrorKind::UnableToSerialize) }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> Result<()> { Ok(()) }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any { self }
}
fn main() {
    // 4 GB of address space are all that the demonstration has.
    for _ in 0..100 {
        assert!(T.to_bytes().is_err());
    }
}
""")
bug("c31-seq-sum","C31",[(EXP,"            let t = factory.deserialize(&mut lreader)?;\n            self.value.push(t);","            let t = factory.deserialize(&mut lreader)?;\n            self.value.push(t);\n            if self.value_size() > value_size as u64 {\n                return Err(ErrorKind::CorruptedData);\n            }")],
"a sequence of many tags","the time grows with the square of their number",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let mut t = ILTagSeqTag::new();
    for _ in 0..200_000 {
        t.mut_value().push(Box::new(ILNullTag::new()));
    }
    let b = t.to_bytes().unwrap();
    let start = std::time::Instant::now();
    assert!(f.from_bytes(&b).is_ok());
    assert!(start.elapsed().as_secs() < 5, "{:?}", start.elapsed());
}
""")
bug("c32-drain","C32",[(EXP,"""        let count = lreader.deserialize_ilint()?;
        if count > value_size as u64 {
            return Err(ErrorKind::CorruptedData);
        }
        self.inner.value.clear();""","""        let count = match lreader.deserialize_ilint() {
            Ok(count) => count,
            Err(e) => {
                // Leave the reader at the next tag.
                let _ = lreader.goto_end();
                return Err(e);
            }
        };
        if count > value_size as u64 {
            return Err(ErrorKind::CorruptedData);
        }
        self.inner.value.clear();""")],"a source that fails within the count of an array","it is used again",
"""struct R(Vec<u8>, usize, bool);
impl Reader for R {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        assert!(!self.2, "used after a failure");
        self.1 += 1;
        match self.0.get(self.1 - 1) {
            Some(b) => Ok(*b),
            None => { self.2 = true; Err(il2_iltags::io::ErrorKind::UnableToReadData) }
        }
    }
}
fn main() {
    let f = ILStandardTagFactory::new(true);
    assert!(f.deserialize(&mut R(vec![21, 10], 0, false)).is_err());
}
""")
bug("c28-size-cache","C28",[(EXP,"    // Performs this conversion to ensure that","    // An empty one needs no further reading.\n    if len == 0 {\n        output.truncate(if output.len() < 4096 { 0 } else { output.len() });\n        return Ok(());\n    }\n    // Performs this conversion to ensure that")],
"an empty string tag that is read into a long string","the old content remains",
"""fn main() {
    for n in [0, 1, 100, 5000] {
        let mut s = "x".repeat(n);
        deserialize_string_tag_from_value_into(&mut ByteArrayReader::new(&[17, 0]), &mut s).unwrap();
        assert_eq!(s, "");
    }
}
""")
bug("c29-late-unknown","C29",[(FAC,"            None => return Err(ErrorKind::UnknownTag),","            None if tag_size == 0 && !is_implicit_tag(tag_id) => return Err(ErrorKind::UnsupportedTag),\n            None => return Err(ErrorKind::UnknownTag),")],
"an unknown tag without a value and a strict factory","another error is given",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    assert!(matches!(f.from_bytes(&[100, 1, 1]), Err(ErrorKind::UnknownTag)));
    assert!(matches!(f.from_bytes(&[100, 0]), Err(ErrorKind::UnknownTag)));
}
""")
