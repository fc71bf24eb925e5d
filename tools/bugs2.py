import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import USE, ILINT, IO, ARR, DATA, STD, TAGS, EXP, IMP, FAC, RAW, PAY, UTIL, SER
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))

bug("c02-u32-body","C02",[(ILINT,"        for x in body {\n            v = (v << 8) + (*x as u64);\n        }\n","        for x in body {\n            v = (v << 8) + (*x as u64);\n        }\n        if body.len() <= 4 {\n            // Cheaper on 32 bit targets.\n            return Ok((v as u32).wrapping_add(ILINT_BASE as u32) as u64);\n        }\n")],
"a five byte ILInt whose body is FFFFFF08 or more (2^32 and above)",
"the 32 bit addition wraps, so the value comes back as one below 248",
"""fn main() {
    for v in [0xFFFF_FFFFu64, 0x1_0000_0000, 0x1_0000_00F7] {
        let mut w = VecWriter::new();
        ilint::encode(v, &mut w).unwrap();
        assert_eq!(ilint::decode_from_bytes(w.as_slice()).unwrap().0, v);
    }
}
""")
bug("c07-bom","C07",[(EXP,"            Ok(v) => {\n                self.value.replace_range(.., v);\n                Ok(())","            Ok(v) => {\n                let v = v.strip_prefix('\\u{FEFF}').unwrap_or(v);\n                self.value.replace_range(.., v);\n                Ok(())")],
"a string that starts with U+FEFF","the mark is dropped on decode, so the decoded tag is not the one encoded",
"""fn main() {
    let b = ILStringTag::with_value("\\u{FEFF}x").to_bytes().unwrap();
    let t = ILStandardTagFactory::new(true).from_bytes(&b).unwrap();
    assert_eq!(t.to_bytes().unwrap(), b);
}
""")
bug("c08-chunked-utf8","C08",[(EXP,"        let tmp = reader.deserialize_bytes(value_size)?;\n        match ::std::str::from_utf8(tmp.as_slice()) {\n            Ok(v) => {","""        if value_size > 1024 {
            // Validate while reading, so that garbage is refused early.
            let mut text = String::new();
            let mut pending: Vec<u8> = Vec::new();
            let mut left = value_size;
            while left > 0 {
                let n = ::std::cmp::min(left, 1024);
                pending.extend(reader.deserialize_bytes(n)?);
                left -= n;
                let valid = match ::std::str::from_utf8(&pending) {
                    Ok(v) => v.len(),
                    Err(e) if e.error_len().is_none() => e.valid_up_to(),
                    Err(_) => return Err(ErrorKind::CorruptedData),
                };
                text.push_str(::std::str::from_utf8(&pending[..valid]).unwrap_or_default());
                pending.drain(..valid);
            }
            self.value = text;
            return Ok(());
        }
        let tmp = reader.deserialize_bytes(value_size)?;
        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {""")],
"a string of more than 1024 bytes that ends in the middle of a character",
"the incomplete character at the end is dropped instead of being refused",
"""fn main() {
    let mut b = vec![17u8, 0xF9, (1500u32 - 248 >> 8) as u8, (1500u32 - 248) as u8];
    b.extend(std::iter::repeat(b'a').take(1499));
    b.push(0xC3);
    assert!(ILStandardTagFactory::new(true).from_bytes(&b).is_err());
}
""")
bug("c10-short-count","C10",[(EXP,"        for _i in 0..count {\n            self.inner.value.push(factory.deserialize(&mut lreader)?);\n        }","        for _i in 0..count {\n            if lreader.empty() {\n                break;\n            }\n            self.inner.value.push(factory.deserialize(&mut lreader)?);\n        }")],
"a tag array that declares more items than it holds","the missing items go unnoticed",
"""fn main() {
    assert!(ILStandardTagFactory::new(true).from_bytes(&[21, 3, 2, 2, 5]).is_err());
}
""")
bug("c11-signed-limit","C11",[(TAGS,"    if size > MAX_TAG_SIZE {","    if size as i64 > MAX_TAG_SIZE as i64 {")],
"a tag that declares 2^63 bytes or more","the comparison is signed, so such sizes pass and are allocated: a panic",
"""fn main() {
    assert!(tag_size_to_usize(1 << 63).is_err());
}
""")
bug("c12-no-case","C12",[(EXP,"        keys.sort_unstable();\n        writer.serialize_ilint(self.value.len() as u64)?;","        keys.sort_by_cached_key(|k| k.to_lowercase());\n        writer.serialize_ilint(self.value.len() as u64)?;")],
"a dictionary whose keys differ by case, or mix cases","keys are ordered without case, so 'a' goes before 'B' and 'a'/'A' come in any order",
"""fn main() {
    let mut d = ILDictTag::new();
    for k in ["a", "B"] { d.insert(k, Box::new(ILNullTag::new())); }
    let b = d.to_bytes().unwrap();
    assert_eq!(&b[3..6], &[17, 1, b'B']);
}
""")
bug("c13-miss-cache","C13",[(TAGS,"    creators: HashMap<u64, Box<dyn ILTagCreator>>,\n    strict: bool,\n}","    creators: HashMap<u64, Box<dyn ILTagCreator>>,\n    strict: bool,\n    // Last identifier not found.\n    missing: std::sync::atomic::AtomicU64,\n}"),
(TAGS,"            creators: HashMap::new(),\n            strict,","            creators: HashMap::new(),\n            strict,\n            missing: Default::default(),"),
(TAGS,"        match self.creators.get(&tag_id) {\n            Some(c) => Some(c.create_empty_tag(tag_id)),\n            None => {\n","""        use std::sync::atomic::Ordering::Relaxed;
        let found = if tag_id != 0 && self.missing.load(Relaxed) == tag_id {
            None
        } else {
            self.creators.get(&tag_id)
        };
        match found {
            Some(c) => Some(c.create_empty_tag(tag_id)),
            None => {
                self.missing.store(tag_id, Relaxed);
""")],
"looking for an id that is not registered, then registering it",
"the remembered miss is not dropped by register(), so the id stays unknown",
"""fn main() {
    let mut f = ILStandardTagFactory::new(true);
    assert!(f.create_tag(0x1234).is_none());
    f.engine().register(0x1234, Box::new(ILDefaultWithIdTagCreator::<ILStringTag>::default()));
    assert!(f.create_tag(0x1234).is_some());
}
""")
bug("c13-deregister-std","C13",[(TAGS,"        self.creators.remove(&tag_id)","        if self.strict && is_implicit_tag(tag_id) {\n            // Implicit tags are always known.\n            return None;\n        }\n        self.creators.remove(&tag_id)")],
"deregistering an implicit id from a strict engine","the creator stays",
"""fn main() {
    let mut f = ILStandardTagFactory::new(true);
    assert!(f.engine().deregister(2).is_some());
    assert!(f.create_tag(2).is_none());
}
""")
bug("c14-dict-reuse","C14",[(EXP,"""        self.value.clear();
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                deserialize_string_tag_from_value(&mut lreader)?,
            );
        }
        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)""","""        // Keep the entries, so that updates of the same keys reuse them.
        let mut seen: Vec<String> = Vec::new();
        for _ in 0..count {
            let key = deserialize_string_tag_from_value(&mut lreader)?;
            let value = deserialize_string_tag_from_value(&mut lreader)?;
            seen.push(key.clone());
            self.value.insert(key, value);
        }
        if self.value.len() as u64 > count {
            self.value.retain(|k, _| seen.contains(k));
        }
        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)""")],
"decoding a string dictionary that repeats a key into one that already holds another",
"old keys are dropped only when there are more keys than entries read, so one survives",
"""fn main() {
    let body = [2u8, 17, 1, b'k', 17, 1, b'1', 17, 1, b'k', 17, 1, b'2'];
    let mut e = vec![31u8, body.len() as u8];
    e.extend_from_slice(&body);
    let mut d = ILStrDictTag::new();
    d.insert("old", "x");
    ILStandardTagFactory::new(true).deserialize_into(&mut ByteArrayReader::new(&e), &mut d).unwrap();
    assert_eq!(d.len(), 1);
}
""")
bug("c15-both-fail","C15",[(UTIL,"""    let sa = match a.to_bytes() {
        Ok(a) => a,
        _ => return false,
    };
    let sb = match b.to_bytes() {
        Ok(b) => b,
        _ => return false,
    };
    sa.as_slice() == sb.as_slice()""","""    a.id() == b.id() && a.to_bytes().ok() == b.to_bytes().ok()""")],
"comparing two tags that both fail to serialize","they are reported as equal",
"""struct F;
impl ILTag for F {
    fn id(&self) -> u64 { 100 }
    fn value_size(&self) -> u64 { 0 }
    fn serialize_value(&self, _: &mut dyn Writer) -> Result<()> { Err(ErrorKind::UnableToSerialize) }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> Result<()> { Ok(()) }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any { self }
}
fn main() { assert!(!iltag_are_equal(&F, &F)); }
""")
bug("c18-read-only-seek","C18",[(ARR,"""        pub fn set_offset(&mut self, offset: usize) {
            self.offset = std::cmp::min(offset, self.vector.len());
        }""","""        pub fn set_offset(&mut self, offset: usize) {
            if self.can_write().is_ok() {
                self.offset = std::cmp::min(offset, self.vector.len());
            }
        }""")],"set_offset() on a writer that is read only","the position is not changed, so later writes land elsewhere",
"""fn main() {
    let mut w = VecWriter::new();
    w.write_all(&[1, 2, 3]).unwrap();
    w.set_read_only(true);
    w.set_offset(0);
    w.set_read_only(false);
    w.write(9).unwrap();
    assert_eq!(w.as_slice(), &[9, 2, 3]);
}
""")
bug("c20-short-read","C20",[(STD,"        match std::io::Read::read_exact(self, buff) {\n            Ok(()) => Ok(()),\n            Err(_) => Err(ErrorKind::UnableToReadData),","        match std::io::Read::read(self, buff) {\n            Ok(n) if n == buff.len() => Ok(()),\n            _ => Err(ErrorKind::UnableToReadData),")],
"a Read + Seek source that returns less than asked","a good stream is refused and the position lost",
"""struct S(std::io::Cursor<Vec<u8>>);
impl std::io::Read for S { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(2); std::io::Read::read(&mut self.0, &mut b[..n]) } }
impl std::io::Seek for S { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { std::io::Seek::seek(&mut self.0, p) } }
fn main() {
    let mut s = S(std::io::Cursor::new(vec![1, 2, 3, 4]));
    let mut b = [0u8; 4];
    Reader::read_all(&mut s, &mut b).unwrap();
    assert_eq!(b, [1, 2, 3, 4]);
}
""")
bug("c21-signed-kind","C21",[(DATA,"""    match signed_decode(reader) {
        Ok(value) => Ok(value),
        Err(crate::ilint::ErrorKind::IOError(e)) => Err(e),
        _ => Err(ErrorKind::CorruptedData),
    }""","""    signed_decode(reader).map_err(|_| ErrorKind::CorruptedData)""")],
"an I/O failure while a signed ILInt is read","the failure of the source is reported as corrupted data",
"""struct B;
impl Reader for B { fn read(&mut self) -> il2_iltags::io::Result<u8> { Err(IoErr::IOError(std::io::Error::new(std::io::ErrorKind::Other, "x"))) } }
fn main() {
    assert!(matches!(read_signed_ilint(&mut B), Err(IoErr::IOError(_))));
}
""")
bug("c21-dict-kind","C21",[(EXP,"            serialize_string_tag_from_value(key, writer)?;\n            value.serialize(writer)?;","            serialize_string_tag_from_value(key, writer)?;\n            if value.serialize(writer).is_err() {\n                return Err(ErrorKind::UnableToSerialize);\n            }")],
"a write failure inside a value of a dictionary","the I/O error is replaced by another kind",
"""struct W(usize);
impl Writer for W {
    fn write(&mut self, _: u8) -> il2_iltags::io::Result<()> { if self.0 == 0 { Err(IoErr::UnableToWriteData) } else { self.0 -= 1; Ok(()) } }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}
fn main() {
    let mut d = ILDictTag::new();
    d.insert("k", Box::new(ILInt8Tag::with_value(1)));
    for n in 0..d.size() as usize {
        assert!(matches!(d.serialize(&mut W(n)), Err(ErrorKind::IOError(_))));
    }
}
""")
bug("c22-payload-size","C22",[(PAY,"    fn value_size(&self) -> u64 {\n        self.payload.serialized_size() as u64\n    }","    fn value_size(&self) -> u64 {\n        self.payload.serialized_size() as u64\n    }\n\n    fn size(&self) -> u64 {\n        // Custom tags have an explicit header.\n        let value_size = self.value_size();\n        (crate::ilint::encoded_size(self.id) + crate::ilint::encoded_size(value_size)) as u64\n            + value_size\n    }")],
"a payload tag that stands for an implicit id","size() counts a size field that is not written",
"""#[derive(Default)]
struct P(u8);
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 1 }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> { w.write(self.0)?; Ok(()) }
    fn deserialize(&mut self, _: &dyn ILTagFactory, _: usize, r: &mut dyn Reader) -> Result<()> { self.0 = r.read()?; Ok(()) }
}
fn main() {
    for id in [2u64, 100] {
        let t = ILGenericPayloadTag::<P>::new(id);
        assert_eq!(t.size() as usize, t.to_bytes().unwrap().len());
    }
}
""")
bug("c23-checked-items","C23",[(EXP,"        for v in self.value.as_slice() {\n            v.serialize(writer)?;\n        }\n        Ok(())","        for v in self.value.as_slice() {\n            // A wrong item would corrupt everything that follows.\n            if v.to_bytes()?.len() as u64 != v.size() {\n                return Err(ErrorKind::UnableToSerialize);\n            }\n            v.serialize(writer)?;\n        }\n        Ok(())")],
"sequences nested some tens of levels deep","every level serializes its items twice, so the time doubles with every level",
"""fn main() {
    let mut t: Box<dyn ILTag> = Box::new(ILNullTag::new());
    for _ in 0..40 {
        let mut d = ILTagSeqTag::new();
        d.mut_value().push(t);
        t = Box::new(d);
    }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(t.to_bytes().is_ok()));
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());
}
""")
bug("c25-id-32","C25",[(TAGS,"    if tag.id() == tag_id && tag.as_any().type_id() == std::any::TypeId::of::<T>() {","    if tag.id() as u32 == tag_id as u32 && tag.as_any().is::<T>() {")],
"asserting an id that differs from the tag's by a multiple of 2^32","the assertion passes",
"""fn main() {
    let t = ILRawTag::new((7 << 32) + 100);
    assert!(assert_tag_id_and_type::<ILRawTag>(100, &t).is_err());
}
""")
bug("c26-lookup-race","C26",[(TAGS,"    creators: HashMap<u64, Box<dyn ILTagCreator>>,\n    strict: bool,\n}","    creators: HashMap<u64, Box<dyn ILTagCreator>>,\n    strict: bool,\n    // The last identifier looked up and if it was missing.\n    last_id: std::sync::atomic::AtomicU64,\n    last_missing: std::sync::atomic::AtomicBool,\n}"),
(TAGS,"            creators: HashMap::new(),\n            strict,","            creators: HashMap::new(),\n            strict,\n            last_id: Default::default(),\n            last_missing: Default::default(),"),
(TAGS,"        self.creators.insert(tag_id, creator)","        *self.last_missing.get_mut() = false;\n        self.creators.insert(tag_id, creator)"),
(TAGS,"        match self.creators.get(&tag_id) {\n            Some(c) => Some(c.create_empty_tag(tag_id)),\n            None => {\n","""        use std::sync::atomic::Ordering::SeqCst;
        let found = if self.last_id.load(SeqCst) == tag_id && self.last_missing.load(SeqCst) {
            None
        } else {
            let found = self.creators.get(&tag_id);
            self.last_id.store(tag_id, SeqCst);
            self.last_missing.store(found.is_none(), SeqCst);
            found
        };
        match found {
            Some(c) => Some(c.create_empty_tag(tag_id)),
            None => {
""")],
"one factory used by several threads, some meeting unknown ids",
"the two halves of the lookup cache are set apart, so a known id can be taken for a missing one",
"""fn main() {
    let f = std::sync::Arc::new(ILStandardTagFactory::new(false));
    let hs: Vec<_> = (0..8).map(|k| {
        let f = f.clone();
        std::thread::spawn(move || for i in 0..400_000u64 {
            let id = if (i + k) % 2 == 0 { 5000 } else { 17 };
            match f.create_tag(id) {
                Some(t) => assert!(id != 17 || tag_downcast_ref::<ILStringTag>(t.as_ref()).is_some()),
                None => panic!("{} unknown", id),
            }
        })
    }).collect();
    let bad = hs.into_iter().filter_map(|h| h.join().err()).count();
    assert_eq!(bad, 0);
}
""")
bug("c26-global-depth","C26",[(FAC,"""        let mut tag = match self.create_tag(tag_id) {
            Some(t) => t,
            None => return Err(ErrorKind::UnknownTag),
        };
        self.deserialize_tag_value_into(tag_size, reader, tag.as_mut())?;
        Ok(tag)""","""        let mut tag = match self.create_tag(tag_id) {
            Some(t) => t,
            None => return Err(ErrorKind::UnknownTag),
        };
        let depth = DEPTH.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let ret = if depth < MAX_DEPTH {
            self.deserialize_tag_value_into(tag_size, reader, tag.as_mut())
        } else {
            Err(ErrorKind::TagTooLarge)
        };
        DEPTH.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        ret?;
        Ok(tag)"""),(FAC,"pub struct ILStandardTagFactory {","static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\n/// Deepest nesting accepted.\nconst MAX_DEPTH: usize = 1000;\n\npub struct ILStandardTagFactory {")],
"several threads that decode tags nested some hundred levels deep at the same time",
"the nesting counter is shared by all threads, so each is charged for the others",
"""fn main() {
    let mut t: Box<dyn ILTag> = Box::new(ILNullTag::new());
    for _ in 0..400 { let mut s = ILTagSeqTag::new(); s.mut_value().push(t); t = Box::new(s); }
    let b = std::sync::Arc::new(t.to_bytes().unwrap());
    let bar = std::sync::Arc::new(std::sync::Barrier::new(8));
    let hs: Vec<_> = (0..8).map(|_| {
        let (b, bar) = (b.clone(), bar.clone());
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let f = ILStandardTagFactory::new(true);
            bar.wait();
            (0..3000).filter(|_| f.from_bytes(&b).is_err()).count()
        }).unwrap()
    }).collect();
    assert_eq!(hs.into_iter().map(|h| h.join().unwrap()).sum::<usize>(), 0);
}
""")
bug("c28-id-byte","C28",[(EXP,"    let id = reader.deserialize_ilint()?;\n    if id != IL_STRING_TAG_ID {","    let id = reader.deserialize_ilint()? as u8;\n    if id != IL_STRING_TAG_ID as u8 {")],
"a tag whose id ends in the byte 0x11, such as 273, read as a string","any such tag is taken for a string tag",
"""fn main() {
    let mut b = ILRawTag::with_value(273, b"abc").to_bytes().unwrap();
    assert!(deserialize_string_tag_from_value(&mut ByteArrayReader::new(&b)).is_err());
    b[0] = 17;
}
""")
bug("c16-id15","C16",[(RAW,"                15 => return Err(ErrorKind::CorruptedData),\n","")],
"the byte 0F where a tag id is expected","the reserved implicit id is scanned as an empty tag",
"""fn main() {
    let d = [15u8, 0, 0];
    let mut r = ByteArrayReader::new(&d);
    assert!(RawTagScanner::new(&mut r).next_tag().is_err());
}
""")
bug("c16-mismatch-peek","C16",[(RAW,"        match self.next_tag()? {\n            Some(t) => {\n                if t.id == expected_id {\n                    Ok(Some(t))\n                } else {\n                    Err(ErrorKind::UnexpectedTagType)","        let start = self.offset;\n        match self.next_tag()? {\n            Some(t) => {\n                if t.id == expected_id {\n                    Ok(Some(t))\n                } else {\n                    // It was not taken.\n                    self.offset = start;\n                    Err(ErrorKind::UnexpectedTagType)")],
"next_tag_if_id() on another id, then scanning on","the offset goes back although the reader does not, so every later tag is placed too early",
"""fn main() {
    let d = [2u8, 5, 1, 1, 17, 1, b'a'];
    let mut r = ByteArrayReader::new(&d);
    let mut s = RawTagScanner::new(&mut r);
    assert!(s.next_tag_if_id(9).is_err());
    assert_eq!(s.next_tag().unwrap().unwrap().offset(), 2);
}
""")
