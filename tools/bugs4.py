import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import USE, ILINT, IO, ARR, DATA, STD, TAGS, EXP, IMP, FAC, RAW, PAY, UTIL, SER
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))

bug("c04-string-blocks","C04",[(DATA,"    writer.write_all(&v.as_bytes())\n","""    // In blocks, as some writers are bad with large ones.
    let bytes = v.as_bytes();
    if bytes.len() < 4096 {
        return writer.write_all(bytes);
    }
    for block in bytes.chunks_exact(4096) {
        writer.write_all(block)?;
    }
    writer.write_all(&bytes[bytes.len() - bytes.len() % 4096 - (bytes.len() % 4096 == 0) as usize * 4096..])
""")],"a string whose size is a multiple of 4096","its last block is written twice",
"""fn main() {
    for n in [10usize, 4095, 4096, 4097, 8192, 10000] {
        let s = "x".repeat(n);
        let mut w = VecWriter::new();
        write_string(&s, &mut w).unwrap();
        assert_eq!(w.as_slice(), s.as_bytes());
    }
}
""")
bug("c06-array-count16","C06",[(EXP,"        let mut size: u64 = crate::ilint::encoded_size(self.value.len() as u64) as u64;\n        for v in self.value.as_slice() {\n            size += crate::ilint",
"        let mut size: u64 = crate::ilint::encoded_size(self.value.len() as u16 as u64) as u64;\n        for v in self.value.as_slice() {\n            size += crate::ilint")],
"an ILInt array of 65,536 items or more whose low 16 bits need fewer bytes","the size counts one or two bytes too few",
"""fn main() {
    for n in [3usize, 300, 65535, 65536, 65800] {
        let t = ILILIntArrayTag::with_value(&vec![7; n]);
        let mut w = VecWriter::new();
        t.serialize_value(&mut w).unwrap();
        assert_eq!(t.value_size(), w.as_slice().len() as u64);
    }
}
""")
bug("c28-nul-trim","C28",[(EXP,"    output.replace_range(.., s);\n    Ok(())\n}","    // Some writers add a terminator.\n    output.replace_range(.., s.strip_suffix('\\0').unwrap_or(s));\n    Ok(())\n}")],
"a string that ends with U+0000","its last character is lost",
"""fn main() {
    for s in ["abc", "a\\0b", "ab\\0", "\\0"] {
        let bytes = ILStringTag::with_value(s).to_bytes().unwrap();
        let mut r = ByteArrayReader::new(&bytes);
        assert_eq!(deserialize_string_tag_from_value(&mut r).unwrap(), s);
    }
}
""")
bug("c08-noncharacter","C08",[(EXP,"            Ok(v) => {\n                self.value.replace_range(.., v);\n                Ok(())","            // Not for interchange.\n            Ok(v) if v.contains('\\u{FFFE}') => Err(ErrorKind::CorruptedData),\n            Ok(v) => {\n                self.value.replace_range(.., v);\n                Ok(())")],
"a string with the noncharacter U+FFFE, which is valid UTF-8","it is refused",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    for s in ["a", "\\u{FFFD}", "\\u{FFFF}", "a\\u{FFFE}b"] {
        assert!(f.from_bytes(&ILStringTag::with_value(s).to_bytes().unwrap()).is_ok());
    }
}
""")
bug("c10-recomputed-size","C10",[(EXP,"        let mut lreader = LimitedReader::new(reader, value_size);\n        let count = lreader.deserialize_ilint()?;\n        if count > value_size as u64 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        self.value.clear();",
"        let mut lreader = LimitedReader::new(reader, value_size);\n        let count = lreader.deserialize_ilint()?;\n        if count > value_size as u64 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        self.value.clear();"),
(EXP,"            self.value.push(lreader.deserialize_ilint()?);\n        }\n        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)",
"            self.value.push(lreader.deserialize_ilint()?);\n        }\n        // Everything must be used.\n        if self.value_size() > value_size as u64 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        let unused = value_size as u64 - self.value_size();\n        if unused > 8 || (unused == 0) != lreader.empty() {\n            return limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData);\n        }\n        if unused > 0 && lreader.available() as u64 == unused {\n            return Err(ErrorKind::CorruptedData);\n        }\n        lreader.goto_end()?;\n        Ok(())")],
"an ILInt array or OID with an item in a longer form and 1 to 7 bytes left at its end","the bytes left are skipped silently",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    // [5 (long form)] and then a byte that belongs to nothing.
    assert!(f.from_bytes(&[20, 4, 1, 0xF8, 0, 9]).is_err());
    assert!(f.from_bytes(&[20, 3, 1, 0xF8, 0]).is_ok());
    assert!(f.from_bytes(&[20, 5, 1, 0xF9, 0, 0, 9]).is_err());
}
""")
bug("c11-key-limit","C11",[(EXP,"    let usize_len = tag_size_to_usize(len)?;\n","    let usize_len = len as usize;\n")],
"a dictionary (or a direct string read) whose key announces gigabytes","they are allocated before anything is read",
"""fn main() {
    let mut bytes = vec![30u8, 12, 1, 17, 0xFC];
    bytes.extend_from_slice(&[0xF0, 0, 0, 0]);
    bytes.extend_from_slice(&[b'a'; 6]);
    let r = deserialize_string_tag_from_value(&mut ByteArrayReader::new(&bytes[3..]));
    assert!(matches!(r, Err(ErrorKind::TagTooLarge)));
}
""")
bug("c11-unknown-first","C11",[(FAC,"        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;\n        let mut tag = match self.create_tag(tag_id) {\n            Some(t) => t,\n            None => return Err(ErrorKind::UnknownTag),\n        };\n",
"        let mut tag = match self.create_tag(tag_id) {\n            Some(t) => t,\n            None => return Err(ErrorKind::UnknownTag),\n        };\n        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;\n")],
"a strict factory and an unknown identifier with a declared size above 512 MiB","it is refused as unknown, not as too large",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let r = f.deserialize(&mut ByteArrayReader::new(&[100, 0xFB, 0x1F, 0xFF, 0xFF, 0x09]));
    assert!(matches!(r, Err(ErrorKind::TagTooLarge)));
}
""")
bug("c12-signed-order","C12",[(EXP,"        keys.sort_unstable();\n        writer.serialize_ilint(self.value.len() as u64)?;","        keys.sort_unstable_by(|a, b| {\n            let a = a.bytes().map(|x| x as i8);\n            a.cmp(b.bytes().map(|x| x as i8))\n        });\n        writer.serialize_ilint(self.value.len() as u64)?;")],
"a tag dictionary with an ASCII and a non-ASCII key that differ at the non-ASCII byte","bytes are compared as signed, so non-ASCII keys go first",
"""fn main() {
    let mut d = ILDictTag::new();
    d.insert("a", Box::new(ILNullTag::new()));
    d.insert("\\u{e9}", Box::new(ILNullTag::new()));
    assert_eq!(d.to_bytes().unwrap()[..6], [30, 10, 2, 17, 1, b'a']);
}
""")
bug("c14-raw-longer","C14",[(SER,"        vec.resize(size, 0);\n        self.deserialize_bytes_into_slice(vec.as_mut_slice())","        if size >= 64 && vec.len() > size && vec.len() < 2 * size {\n            // Almost the same size.\n            return self.deserialize_bytes_into_slice(&mut vec[..size]);\n        }\n        vec.resize(size, 0);\n        self.deserialize_bytes_into_slice(vec.as_mut_slice())")],
"a raw tag with a value of 65 bytes or more that receives one of 64 bytes or more, up to half smaller","the end of the old value stays",
"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut t = ILRawTag::with_value(99, &[1; 100]);
    let bytes = ILRawTag::with_value(99, &[2; 70]).to_bytes().unwrap();
    f.deserialize_into(&mut ByteArrayReader::new(&bytes), &mut t).unwrap();
    assert_eq!(t.value().as_slice(), &[2u8; 70][..]);
}
""")
bug("c15-large-sample","C15",[(UTIL,"    sa.as_slice() == sb.as_slice()\n","    if sa.len() > 8192 && sa.len() == sb.len() {\n        // The ends tell large tags apart.\n        let n = sa.len() - 4096;\n        return sa[..4096] == sb[..4096] && sa[n..] == sb[n..];\n    }\n    sa.as_slice() == sb.as_slice()\n")],
"two tags of more than 8 KiB that differ only in the middle","they are reported as equal",
"""fn main() {
    let mut v = vec![0u8; 20000];
    let a = ILByteArrayTag::with_value(&v);
    v[10000] = 1;
    let b = ILByteArrayTag::with_value(&v);
    assert!(!iltag_are_equal(&a, &b));
}
""")
bug("c15-sum","C15",[(UTIL,"    let sa = match a.to_bytes() {","    // Cheaper than the bytes.\n    if a.id() == b.id() && a.value_size() != b.value_size() {\n        return false;\n    }\n    if a.id() != b.id() && a.id() > 0xFFFF_FFFF {\n        let mut x = crate::io::array::VecWriter::new();\n        let mut y = crate::io::array::VecWriter::new();\n        return a.serialize_value(&mut x).is_ok()\n            && b.serialize_value(&mut y).is_ok()\n            && a.id() as u32 == b.id() as u32\n            && x.as_slice() == y.as_slice();\n    }\n    let sa = match a.to_bytes() {")],
"two tags with the same value whose identifiers differ only above bit 32","they are reported as equal",
"""fn main() {
    let a = ILRawTag::with_value(0x1_0000_0010, b"x");
    let b = ILRawTag::with_value(0x2_0000_0010, b"x");
    assert!(!iltag_are_equal(&a, &b));
    assert!(!iltag_are_equal(&a, &ILRawTag::with_value(16, b"x")));
}
""")
BUGS[-1]["id"]="c15-id-bits"
bug("c18-splice","C18",[(ARR,"            let new_offset = self.offset + buff.len();\n            if new_offset > self.vector.len() {\n                self.vector.resize(new_offset, 0);\n            }\n            self.vector[self.offset..new_offset].copy_from_slice(buff);",
"            let new_offset = self.offset + buff.len();\n            if self.offset > 0 && buff.len() > self.vector.len() / 2 {\n                // Most of it is new.\n                self.vector.truncate(self.offset);\n                self.vector.extend_from_slice(buff);\n            } else {\n                if new_offset > self.vector.len() {\n                    self.vector.resize(new_offset, 0);\n                }\n                self.vector[self.offset..new_offset].copy_from_slice(buff);\n            }")],
"a write of more than half of the vector, not at its start, that ends before its end","what follows is cut",
"""fn main() {
    let mut w = VecWriter::new();
    w.write_all(&[0; 20]).unwrap();
    w.set_offset(2);
    w.write_all(&[1; 12]).unwrap();
    assert_eq!(w.as_slice().len(), 20);
}
""")
bug("c19-goto-chunks","C19",[(IO,"            let ret = self.source.skip(self.available);\n            if ret.is_ok() {\n                self.available = 0;\n            }\n            ret","            let mut rest = self.available;\n            while rest > 0 {\n                let n = std::cmp::min(rest, 4096);\n                self.source.skip(n)?;\n                rest -= n;\n            }\n            self.available = 0;\n            Ok(())")],
"goto_end() with more than 4 KiB left and a source that ends before","the source has moved but the budget has not changed",
"""fn main() {
    let v = vec![0u8; 6000];
    let mut r = ByteArrayReader::new(&v);
    let mut l = LimitedReader::new(&mut r, 10000);
    assert!(l.goto_end().is_err());
    let left = l.available();
    assert_eq!(10000 - left, r.offset());
}
""")
bug("c19-failed-read","C19",[(IO,"        let ret = self.source.read();\n        if ret.is_ok() {\n            self.available -= 1;\n        }\n        ret","        self.available -= 1;\n        self.source.read()")],
"a source that fails at a single byte read","the budget is reduced although nothing was read",
"""fn main() {
    let mut r = ByteArrayReader::new(&[1]);
    let mut l = LimitedReader::new(&mut r, 3);
    l.read().unwrap();
    assert!(l.read().is_err());
    assert_eq!(l.available(), 2);
}
""")
bug("c20-past-end-skip","C20",[(STD,"            if curr_pos == end_pos {","            if curr_pos >= end_pos {")],
"a seekable stream positioned past its end","a failed skip moves it back to the end",
"""fn main() {
    let mut c = std::io::Cursor::new(vec![0u8; 10]);
    c.set_position(15);
    assert!(Reader::skip(&mut c, 3).is_err());
    assert_eq!(c.position(), 15);
}
""")
bug("c20-write-one","C20",[(STD,"        let buff: [u8; 1] = [value];\n        Writer::write_all(self, &buff)","        match std::io::Write::write(self, &[value]) {\n            Ok(_) => Ok(()),\n            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Writer::write_all(self, &[value]),\n            Err(_) => Err(ErrorKind::UnableToWriteData),\n        }")],
"a seekable writer with a fixed size that is full, and a single byte","the byte is lost and success is reported",
"""fn main() {
    let mut buff = [0u8; 2];
    let mut c = std::io::Cursor::new(&mut buff[..]);
    assert!(Writer::write(&mut c, 1).is_ok());
    assert!(Writer::write(&mut c, 2).is_ok());
    assert!(Writer::write(&mut c, 3).is_err());
}
""")
bug("c21-eager-and","C21",[(EXP,"    writer.serialize_ilint(IL_STRING_TAG_ID)?;\n    writer.serialize_ilint(len)?;\n    writer.serialize_bytes(s.as_bytes())","    writer\n        .serialize_ilint(IL_STRING_TAG_ID)\n        .and(writer.serialize_ilint(len))?;\n    writer.serialize_bytes(s.as_bytes())")],
"a writer that fails once, at the identifier of a key, and works again","the length is written after the failure, so the output is not a prefix",
"""struct Once(Vec<u8>, usize);
impl Writer for Once {
    fn write(&mut self, v: u8) -> il2_iltags::io::Result<()> {
        if self.1 == 0 { self.1 = usize::MAX; return Err(IoErr::UnableToWriteData); }
        self.1 -= 1;
        self.0.push(v);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}
fn main() {
    let mut d = ILStrDictTag::new();
    d.insert("a", "b");
    let bytes = d.to_bytes().unwrap();
    for n in 0..bytes.len() {
        let mut w = Once(Vec::new(), n);
        assert!(d.serialize(&mut w).is_err());
        assert_eq!(w.0, bytes[..n]);
    }
}
""")
bug("c21-range-kind","C21",[(EXP,"        self.start = lreader.deserialize_ilint()?;\n        self.count = lreader.deserialize_value()?;","        self.start = lreader.deserialize_ilint()?;\n        self.count = match lreader.deserialize_value() {\n            Ok(v) => v,\n            Err(_) => return Err(ErrorKind::CorruptedData),\n        };")],
"a reader that fails at the count of a range","another error is reported",
"""struct Bad(Vec<u8>, usize);
impl Reader for Bad {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        if self.1 >= 3 { return Err(IoErr::IOError(std::io::Error::new(std::io::ErrorKind::Other, "x"))); }
        self.1 += 1;
        Ok(self.0[self.1 - 1])
    }
}
fn main() {
    let f = ILStandardTagFactory::new(true);
    let r = f.deserialize(&mut Bad(vec![23, 3, 1, 0, 0], 0));
    assert!(matches!(r, Err(ErrorKind::IOError(IoErr::IOError(_)))));
}
""")
bug("c22-empty-serialize","C22",[(PAY,"        self.payload.serialize(writer)\n","        if self.payload.serialized_size() == 0 {\n            // Nothing to write.\n            return Ok(());\n        }\n        self.payload.serialize(writer)\n")],
"a payload of no bytes that refuses to be serialized","its error is lost",
"""#[derive(Default)]
struct P;
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 0 }
    fn serialize(&self, _w: &mut dyn Writer) -> Result<()> { Err(ErrorKind::UnableToSerialize) }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _s: usize, _r: &mut dyn Reader) -> Result<()> { Ok(()) }
}
fn main() {
    assert!(ILGenericPayloadTag::<P>::new(99).to_bytes().is_err());
}
""")
bug("c23-array-empty","C23",[(EXP,"        let size: u64 = crate::ilint::encoded_size(self.inner.value.len() as u64) as u64;\n        size + self.inner.value_size()","        let size: u64 = crate::ilint::encoded_size(self.inner.value.len() as u64) as u64;\n        if self.inner.value_size() == 0 {\n            return size;\n        }\n        size + self.inner.value_size()")],
"nested arrays","each level sizes its items twice",
"""fn main() {
    let mut t: Box<dyn ILTag> = Box::new(ILNullTag::new());
    for _ in 0..64 {
        let mut a = ILTagArrayTag::new();
        a.mut_value().push(t);
        t = Box::new(a);
    }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(t.size()).unwrap());
    rx.recv_timeout(std::time::Duration::from_secs(10)).unwrap();
    std::process::exit(0);
}
""")
bug("c23-dict-find","C23",[(EXP,"            let value = match self.value.get(key) {\n                Some(s) => s,\n                None => return Err(ErrorKind::UnableToSerialize),\n            };\n            serialize_string_tag_from_value(key, writer)?;\n            value.serialize(writer)?;","            let value = match self.value.iter().find(|(k, _)| k.as_str() == key) {\n                Some((_, s)) => s,\n                None => return Err(ErrorKind::UnableToSerialize),\n            };\n            serialize_string_tag_from_value(key, writer)?;\n            value.serialize(writer)?;")],
"a dictionary with tens of thousands of keys","each key is looked for by going through all, so the time is quadratic",
"""fn main() {
    let mut d = ILDictTag::new();
    for i in 0..100_000 { d.insert(&i.to_string(), Box::new(ILNullTag::new())); }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(d.to_bytes().unwrap().len()).unwrap());
    rx.recv_timeout(std::time::Duration::from_secs(15)).unwrap();
    std::process::exit(0);
}
""")
bug("c24-same-case","C24",[(EXP,"    pub fn set_value(&mut self, value: &str) {\n        self.value.replace_range(.., value);\n    }","    pub fn set_value(&mut self, value: &str) {\n        // Keep what is there if nothing changes.\n        if !self.value.eq_ignore_ascii_case(value) {\n            self.value.replace_range(.., value);\n        }\n    }")],
"set_value() with a string that differs from the current one only in case","it is ignored",
"""fn main() {
    let mut t = ILStringTag::with_value("Abc");
    t.set_value("abc");
    assert_eq!(t.value(), "abc");
}
""")
bug("c24-range-clamp","C24",[(EXP,"    pub fn set_count(&mut self, count: u16) {\n        self.count = count;\n    }","    pub fn set_count(&mut self, count: u16) {\n        // No further than the last identifier.\n        self.count = std::cmp::min(count as u64, u64::MAX - self.start) as u16;\n    }")],
"set_count() in a range that starts within 65,535 of 2^64","the count is reduced",
"""fn main() {
    let mut t = ILRangeTag::with_value(u64::MAX - 2, 0);
    t.set_count(100);
    assert_eq!(t.count(), 100);
}
""")
bug("c25-reserved-32","C25",[(TAGS,"    fn is_reserved(&self) -> bool {\n        is_reserved_tag(self.id())\n    }","    fn is_reserved(&self) -> bool {\n        is_reserved_tag(self.id() & 0xFFFF_FFFF_FFFF)\n    }")],
"an identifier whose low 48 bits are below 32","is_reserved() is true",
"""fn main() {
    assert!(!ILRawTag::new(1 << 48).is_reserved());
    assert!(!ILRawTag::new(32).is_reserved());
    assert!(ILRawTag::new(31).is_reserved());
}
""")
bug("c26-counter16","C26",[(FAC,"pub struct ILStandardTagFactory {\n    engine: ILTagCreatorEngine,\n}","pub struct ILStandardTagFactory {\n    engine: ILTagCreatorEngine,\n    // Tags being read.\n    active: std::sync::atomic::AtomicU16,\n}"),
(FAC,"            engine: create_std_engine(strict),\n","            engine: create_std_engine(strict),\n            active: Default::default(),\n"),
(FAC,"        let mut tag = match self.create_tag(tag_id) {\n            Some(t) => t,\n            None => return Err(ErrorKind::UnknownTag),\n        };\n        self.deserialize_tag_value_into(tag_size, reader, tag.as_mut())?;\n        Ok(tag)","        use std::sync::atomic::Ordering::SeqCst;\n        if self.active.fetch_add(1, SeqCst) == u16::MAX {\n            return Err(ErrorKind::CorruptedData);\n        }\n        let mut tag = match self.create_tag(tag_id) {\n            Some(t) => t,\n            None => return Err(ErrorKind::UnknownTag),\n        };\n        self.deserialize_tag_value_into(tag_size, reader, tag.as_mut())?;\n        self.active.fetch_sub(1, SeqCst);\n        Ok(tag)")],
"65,535 failed decodes with the same factory","the next decode fails, whatever it is",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    for _ in 0..70_000 {
        let _ = f.from_bytes(&[1, 2]);
        assert!(f.from_bytes(&[1, 1]).is_ok());
    }
}
""")
bug("c26-poison","C26",[(TAGS,"        let mut writer = crate::io::array::VecWriter::with_capacity(self.size() as usize);\n        self.serialize(&mut writer)?;\n        Ok(writer.into())","        // Only one large buffer at a time.\n        static LARGE: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());\n        let size = self.size() as usize;\n        let _guard = if size > 65536 {\n            match LARGE.try_lock() {\n                Err(::std::sync::TryLockError::Poisoned(_)) => return Err(ErrorKind::UnableToSerialize),\n                x => x.ok(),\n            }\n        } else {\n            None\n        };\n        let mut writer = crate::io::array::VecWriter::with_capacity(size);\n        self.serialize(&mut writer)?;\n        Ok(writer.into())")],
"a user payload that panics while a tag of more than 64 KiB is turned into bytes","no tag of more than 64 KiB can be turned into bytes any more",
"""#[derive(Default)]
struct P;
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 100_000 }
    fn serialize(&self, _w: &mut dyn Writer) -> Result<()> { panic!("user") }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _s: usize, _r: &mut dyn Reader) -> Result<()> { Ok(()) }
}
fn main() {
    let t = ILByteArrayTag::with_value(&vec![1; 100_000]);
    assert!(t.to_bytes().is_ok());
    assert!(std::panic::catch_unwind(|| ILGenericPayloadTag::<P>::new(99).to_bytes()).is_err());
    assert!(t.to_bytes().is_ok());
}
""")
bug("c27-exact-empty","C27",[(RAW,"        if self.next_tag_offset() > parent.value_size() {","        if self.next_tag_offset() > parent.value_size()\n            || (self.value_size() == 0 && self.value_offset() == parent.value_size())\n        {")],
"a tag without a value at the end of its parent","it is refused",
"""fn main() {
    let p = RawTagOffset::new(22, 0, 2, 3);
    assert!(RawTagOffset::new(0, 2, 1, 0).map_to_parent_space(&p).is_ok());
    assert!(RawTagOffset::new(0, 1, 1, 0).map_to_parent_space(&p).is_ok());
}
""")
bug("c28-prefix-kept","C28",[(EXP,"    output.replace_range(.., s);\n    Ok(())\n}","    // Nothing to do if it is the same.\n    if output.is_empty() || !output.starts_with(s) {\n        output.replace_range(.., s);\n    }\n    Ok(())\n}")],
"an output that starts with the decoded string","it is left as it was",
"""fn main() {
    let bytes = ILStringTag::with_value("ab").to_bytes().unwrap();
    let mut s = String::from("abc");
    deserialize_string_tag_from_value_into(&mut ByteArrayReader::new(&bytes), &mut s).unwrap();
    assert_eq!(s, "ab");
}
""")
bug("c10-dict-until-empty","C10",[(EXP,"        let count = lreader.deserialize_ilint()?;\n        self.value.clear();\n        for _ in 0..count {\n            self.value.insert(\n                deserialize_string_tag_from_value(&mut lreader)?,\n                factory.deserialize(&mut lreader)?,\n            );\n        }\n        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)",
"        let count = lreader.deserialize_ilint()?;\n        self.value.clear();\n        while !lreader.empty() {\n            self.value.insert(\n                deserialize_string_tag_from_value(&mut lreader)?,\n                factory.deserialize(&mut lreader)?,\n            );\n        }\n        if self.value.len() as u64 != count {\n            return Err(ErrorKind::CorruptedData);\n        }\n        Ok(())")],
"a dictionary with a repeated key","it is accepted with the count of different keys and refused with its real count",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    assert!(f.from_bytes(&[30, 9, 1, 17, 1, b'a', 0, 17, 1, b'a', 0]).is_err());
    assert!(f.from_bytes(&[30, 9, 2, 17, 1, b'a', 0, 17, 1, b'a', 0]).is_ok());
}
""")
bug("c13-replace-std","C13",[(TAGS,"        self.creators.insert(tag_id, creator)\n","        if self.strict && self.creators.contains_key(&tag_id) && is_implicit_tag(tag_id) {\n            // The format of implicit tags is fixed.\n            return Some(creator);\n        }\n        self.creators.insert(tag_id, creator)\n")],
"register() for an implicit identifier that already has a creator, in a strict engine","the new creator is returned as the old one and not registered",
"""struct C;
impl ILTagCreator for C {
    fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> { Box::new(ILUInt8Tag::with_id_value(id, 7)) }
}
fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(1, Box::new(C));
    assert!(f.create_tag(1).unwrap().as_any().is::<ILUInt8Tag>());
}
""")
bug("c05-big-id","C05",[(TAGS,"        writer.serialize_ilint(self.id())?;\n        if !self.is_implicity() {\n            writer.serialize_ilint(self.value_size())?;\n        }\n        self.serialize_value(writer)","        // The header at once.\n        let mut head: Vec<u8> = Vec::with_capacity(16);\n        let mut hw = crate::io::array::BorrowedVecWriter::new(&mut head);\n        hw.serialize_ilint(self.id())?;\n        if !self.is_implicity() {\n            hw.serialize_ilint(self.value_size())?;\n        }\n        writer.serialize_bytes(&head[..::std::cmp::min(head.len(), 10)])?;\n        self.serialize_value(writer)")],
"an identifier of 9 bytes with a value of 248 bytes or more (or 8 with 65,784)","the end of the header is lost",
"""fn main() {
    for (id, n) in [(16u64, 3usize), (u64::MAX, 3), (u64::MAX, 300), (1 << 60, 70000)] {
        let t = ILRawTag::with_value(id, &vec![1; n]);
        let b = t.to_bytes().unwrap();
        assert_eq!(b.len() as u64, t.size());
        assert_eq!(ILStandardTagFactory::new(false).from_bytes(&b).unwrap().id(), id);
    }
}
""")
