import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import USE, ILINT, IO, ARR, DATA, STD, TAGS, EXP, IMP, FAC, RAW, PAY, UTIL, SER
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))

#----------------------------------------------------------------------------- C29
bug("c29-array-unknown","C29",[(EXP,"            self.inner.value.push(factory.deserialize(&mut lreader)?);\n",
"""            match factory.deserialize(&mut lreader) {
                Ok(t) => self.inner.value.push(t),
                // The array is damaged if it holds anything but tags.
                Err(ErrorKind::UnknownTag) => return Err(ErrorKind::CorruptedData),
                Err(e) => return Err(e),
            }
""")],"a tag unknown to the factory inside an array tag","the caller is told that the data is corrupted instead of that the tag is unknown",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    assert!(matches!(f.from_bytes(&[40, 0]), Err(ErrorKind::UnknownTag)));
    // sequence, then array, of an unknown tag
    assert!(matches!(f.from_bytes(&[22, 2, 40, 0]), Err(ErrorKind::UnknownTag)));
    assert!(matches!(f.from_bytes(&[21, 3, 1, 40, 0]), Err(ErrorKind::UnknownTag)));
}
""")
bug("c29-key-too-large","C29",[(EXP,"    let usize_len = tag_size_to_usize(len)?;\n    let tmp","    let usize_len = match usize::try_from(len) {\n        Ok(v) if len <= crate::tags::MAX_TAG_SIZE => v,\n        _ => return Err(ErrorKind::CorruptedData),\n    };\n    let tmp"),
(EXP,"use crate::tags::{tag_size_to_usize, ILRawTag};","use crate::tags::ILRawTag;\nuse std::convert::TryFrom;")],
"a string (a dictionary key, say) that declares more than 512 MiB","refused as corrupted instead of as too large",
"""fn main() {
    let mut b = vec![17];
    let mut w = VecWriter::new();
    ilint::encode(MAX_TAG_SIZE + 1, &mut w).unwrap();
    b.extend_from_slice(w.as_slice());
    assert!(matches!(deserialize_string_tag_from_value(&mut ByteArrayReader::new(&b)), Err(ErrorKind::TagTooLarge)));
}
""")
bug("c29-payload-io","C29",[(PAY,"        self.payload.deserialize(factory, value_size, reader)\n","""        match self.payload.deserialize(factory, value_size, reader) {
            // Payloads only see their own bytes, so this is not the end of the source.
            Err(crate::tags::ErrorKind::IOError(crate::io::ErrorKind::EndOfData)) => {
                Err(crate::tags::ErrorKind::CorruptedData)
            }
            r => r,
        }
""")],"a payload tag whose data ends early","the end of the data is reported as corruption",
"""#[derive(Default)]
struct P(u64);
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 8 }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> { w.write_all(&self.0.to_be_bytes())?; Ok(()) }
    fn deserialize(&mut self, _: &dyn ILTagFactory, _: usize, r: &mut dyn Reader) -> Result<()> {
        let mut b = [0; 8];
        for x in b.iter_mut() { *x = r.read()?; }
        self.0 = u64::from_be_bytes(b);
        Ok(())
    }
}
fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(100, Box::new(ILDefaultWithIdTagCreator::<ILGenericPayloadTag<P>>::new()));
    assert!(f.from_bytes(&[100, 8, 1, 2, 3, 4, 5, 6, 7, 8]).is_ok());
    match f.from_bytes(&[100, 8, 1, 2, 3]) {
        Err(ErrorKind::IOError(IoErr::EndOfData)) => (),
        r => panic!("{:?}", r.err()),
    }
}
""")
bug("c29-into-unknown","C29",[(FAC,"        if tag_id != tag.id() {\n            return Err(ErrorKind::UnexpectedTagType);","        if tag_id != tag.id() {\n            if is_implicit_tag(tag_id) && implicit_tag_size(tag_id) == 0 && tag_id != 0 {\n                // Reserved.\n                return Err(ErrorKind::UnknownTag);\n            }\n            return Err(ErrorKind::UnexpectedTagType);")],
"decoding over an existing tag data that starts with the reserved identifier 15","refused as unknown instead of as the wrong type",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    for id in 1..16u8 {
        let mut t = ILNullTag::new();
        assert!(matches!(f.deserialize_into(&mut ByteArrayReader::new(&[id, 0, 0, 0]), &mut t), Err(ErrorKind::UnexpectedTagType)), "{}", id);
    }
}
""")
bug("c29-std-kind","C29",[(STD,"            _ => ErrorKind::BoxedError(Box::new(e)),\n","            std::io::ErrorKind::InvalidData => Self::CorruptedData,\n            _ => ErrorKind::BoxedError(Box::new(e)),\n")],
"a standard stream that reports InvalidData, as decompressors do","the error of the stream is lost and the data seems corrupted",
"""fn main() {
    let e = std::io::Error::new(std::io::ErrorKind::InvalidData, "bad block 7");
    assert!(format!("{:?}", IoErr::from(e)).contains("bad block 7"));
}
""")
bug("c29-signed-overflow","C29",[(DATA,"    match signed_decode(reader) {\n        Ok(value) => Ok(value),\n        Err(crate::ilint::ErrorKind::IOError(e)) => Err(e),\n        _ => Err(ErrorKind::CorruptedData),",
"    match signed_decode(reader) {\n        Ok(value) => Ok(value),\n        Err(crate::ilint::ErrorKind::IOError(e)) => Err(e),\n        Err(crate::ilint::ErrorKind::ValueOverflow) => Err(ErrorKind::UnableToReadData),\n        _ => Err(ErrorKind::CorruptedData),")],
"a signed ILInt that is too large","reported as missing data instead of corruption, so a caller waits for more",
"""fn main() {
    let b = [0xff; 9];
    assert!(matches!(read_signed_ilint(&mut ByteArrayReader::new(&b)), Err(IoErr::CorruptedData)));
}
""")
#----------------------------------------------------------------------------- C30
bug("c30-failed-tag","C30",[(FAC,"        self.deserialize_tag_value_into(tag_size, reader, tag.as_mut())?;\n        Ok(tag)",
"""        let raw = Box::into_raw(tag);
        // Safe: nothing else has the pointer.
        let mut view = unsafe { std::mem::ManuallyDrop::new(Box::from_raw(raw)) };
        self.deserialize_tag_value_into(tag_size, reader, view.as_mut())?;
        Ok(std::mem::ManuallyDrop::into_inner(view))"""),
(FAC,"        let mut tag = match self.create_tag(tag_id) {","        let tag = match self.create_tag(tag_id) {")],
"a tag whose value cannot be decoded","the half-decoded tag is never released",
"""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let f = ILStandardTagFactory::new(true);
    for b in [&[17u8, 3, 65, 66, 67][..], &[17, 3, 65, 66, 255], &[22, 4, 16, 3, 1, 2]] {
        for _ in 0..3 { let _ = f.from_bytes(b); }
        let a = LIVE.load(SeqCst);
        for _ in 0..10 { let _ = f.from_bytes(b); }
        assert_eq!(LIVE.load(SeqCst), a);
    }
}
""")
LEAK="""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn steady(mut f: impl FnMut(usize)) {
    for i in 0..4000 { f(i); }
    let a = LIVE.load(SeqCst);
    for i in 4000..8000 { f(i); }
    let b = LIVE.load(SeqCst);
    assert!(b <= a + 1000, "{} {}", a, b);
}
"""
bug("c30-interned-keys","C30",[(EXP,"    pub fn insert(&mut self, k: &str, v: &str) -> Option<String> {\n        self.value.insert(String::from(k), String::from(v))",
"""    pub fn insert(&mut self, k: &str, v: &str) -> Option<String> {
        note_key(k);
        self.value.insert(String::from(k), String::from(v))"""),
(EXP,"const MAX_INITIAL_CAPACITY: u64 = 1024;","""thread_local! {
    // The keys seen so far, for diagnostics.
    static KEYS: std::cell::RefCell<std::collections::BTreeSet<String>> = Default::default();
}

fn note_key(k: &str) {
    KEYS.with(|s| {
        s.borrow_mut().insert(String::from(k));
    });
}

const MAX_INITIAL_CAPACITY: u64 = 1024;""")],"many insertions of different keys in string dictionaries","every key ever inserted is kept for as long as the thread lives",
LEAK+"""fn main() {
    steady(|i| {
        let mut d = ILStrDictTag::new();
        d.insert(&format!("key {}", i), "v");
    });
}
""")
bug("c30-error-log","C30",[(FAC,"            None => return Err(ErrorKind::UnknownTag),\n","            None => {\n                UNKNOWN.lock().unwrap().push(tag_id);\n                return Err(ErrorKind::UnknownTag);\n            }\n"),
(FAC,"/// This struct implements the [`ILTagFactory`] for all standard tags.","/// The unknown identifiers met, for diagnostics.\nstatic UNKNOWN: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());\n\n/// This struct implements the [`ILTagFactory`] for all standard tags.")],
"many decodes that fail because of an unknown identifier","each leaves eight bytes in a global list that only grows",
LEAK+"""fn main() {
    let f = ILStandardTagFactory::new(true);
    steady(|_| {
        assert!(f.from_bytes(&[40, 0]).is_err());
    });
}
""")
bug("c30-replaced-creator","C30",[(TAGS,"        self.creators.remove(&tag_id)\n","        let old = std::sync::Arc::new(self.creators.remove(&tag_id)?);\n        // Tags it made may still be in use.\n        RETIRED.with(|r| r.borrow_mut().push(old.clone()));\n        Some(Box::new(Shared(old)))\n"),
(TAGS,"//=============================================================================\n// ILRawTag\n","""thread_local! {
    static RETIRED: std::cell::RefCell<Vec<std::sync::Arc<Box<dyn ILTagCreator>>>> = Default::default();
}

struct Shared(std::sync::Arc<Box<dyn ILTagCreator>>);

impl ILTagCreator for Shared {
    fn create_empty_tag(&self, tag_id: u64) -> Box<dyn ILTag> {
        self.0.create_empty_tag(tag_id)
    }
}

//=============================================================================
// ILRawTag
""")],
"creators that are deregistered","a deregistered creator is never released",
LEAK+"""fn main() {
    let mut f = ILStandardTagFactory::new(true);
    steady(|_| {
        f.engine().register(40, Box::new(ILDefaultWithIdTagCreator::<ILStringTag>::new()));
        let c = f.engine().deregister(40).unwrap();
        assert!(c.create_empty_tag(40).id() == 40);
    });
}
""")
bug("c30-equal-leak","C30",[(UTIL,"    let sa = match a.to_bytes() {\n        Ok(a) => a,","    let sa: &[u8] = match a.to_bytes() {\n        Ok(a) => Vec::leak(a),"),(UTIL,"    sa.as_slice() == sb.as_slice()","    sa == sb.as_slice()")],
"comparing tags","the bytes of the first tag are never released",
LEAK+"""fn main() {
    let t = ILStringTag::with_value("something");
    steady(|_| assert!(iltag_are_equal(&t, &t)));
}
""")
#----------------------------------------------------------------------------- C31
bug("c31-checked-first","C31",[(EXP,"        let mut lreader = LimitedReader::new(reader, value_size);\n        self.value.clear();\n        while !lreader.empty() {",
"""        // Everything has to be right before the old value is dropped.
        let bytes = reader.deserialize_bytes(value_size)?;
        let mut check = crate::io::array::ByteArrayReader::new(&bytes);
        let mut check = LimitedReader::new(&mut check, value_size);
        while !check.empty() {
            factory.deserialize(&mut check)?;
        }
        let mut again = crate::io::array::ByteArrayReader::new(&bytes);
        let mut lreader = LimitedReader::new(&mut again, value_size);
        self.value.clear();
        while !lreader.empty() {""")],"sequences nested a few dozen levels","each level decodes what it holds twice, so the time doubles with every level",
"""use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static N: AtomicU64 = AtomicU64::new(0);
struct C;
impl ILTagCreator for C {
    fn create_empty_tag(&self, _: u64) -> Box<dyn ILTag> { N.fetch_add(1, SeqCst); Box::new(ILNullTag::new()) }
}
fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(0, Box::new(C));
    let mut b = vec![0u8];
    for _ in 0..12 {
        let mut x = vec![22, b.len() as u8];
        x.extend(b);
        b = x;
    }
    assert!(f.from_bytes(&b).is_ok());
    assert!(N.load(SeqCst) < 10, "{}", N.load(SeqCst));
}
""")
bug("c31-utf8-position","C31",[(EXP,"                self.value.replace_range(.., v);\n                Ok(())\n            }\n            Err(_) => Err(ErrorKind::CorruptedData),",
"""                self.value.replace_range(.., v);
                Ok(())
            }
            Err(_) => {
                // What is good of it, so that it can be shown.
                self.value.clear();
                for i in 0..tmp.len() {
                    if let Ok(s) = ::std::str::from_utf8(&tmp[..i]) {
                        self.value.clear();
                        self.value.push_str(s);
                    }
                }
                Err(ErrorKind::CorruptedData)
            }""")],"a long string that is not valid UTF-8 near its end","the time is the square of its length",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let time = |n: usize| {
        let mut v = vec![b'x'; n];
        v[n - 1] = 0xff;
        let b = ILRawTag::with_value(17, &v).to_bytes().unwrap();
        (0..3).map(|_| {
            let t = std::time::Instant::now();
            assert!(f.from_bytes(&b).is_err());
            t.elapsed().as_micros()
        }).min().unwrap()
    };
    let (a, b) = (time(10_000).max(100), time(200_000));
    assert!(b < 150 * a, "{} {}", a, b);
}
""")
bug("c31-retry-lenient","C31",[(EXP,"            let t = factory.deserialize(&mut lreader)?;\n            self.value.push(t);",
"""            // What cannot be decoded now may be after the other creators had their turn.
            let at = lreader.available();
            let bytes = lreader.deserialize_bytes(at)?;
            let mut tries = 0;
            loop {
                let mut r = crate::io::array::ByteArrayReader::new(&bytes);
                let mut r = LimitedReader::new(&mut r, at);
                match factory.deserialize(&mut r) {
                    Err(e) if tries > 0 => return Err(e),
                    Err(_) => tries += 1,
                    Ok(t) => {
                        self.value.push(t);
                        let left = r.available();
                        let rest = &bytes[at - left..];
                        let mut r = crate::io::array::ByteArrayReader::new(rest);
                        let mut r = LimitedReader::new(&mut r, left);
                        while !r.empty() {
                            self.value.push(factory.deserialize(&mut r)?);
                        }
                        break;
                    }
                }
            }""")],"something wrong below sequences nested a few dozen levels","each level tries twice, so the time doubles with every level",
"""use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static N: AtomicU64 = AtomicU64::new(0);
struct C;
impl ILTagCreator for C {
    fn create_empty_tag(&self, _: u64) -> Box<dyn ILTag> { N.fetch_add(1, SeqCst); Box::new(ILStringTag::new()) }
}
fn main() {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(17, Box::new(C));
    let mut b = vec![17u8, 1, 0xff];
    for _ in 0..12 {
        let mut x = vec![22, b.len() as u8];
        x.extend(b);
        b = x;
    }
    assert!(f.from_bytes(&b).is_err());
    assert!(N.load(SeqCst) < 10, "{}", N.load(SeqCst));
}
""")
#----------------------------------------------------------------------------- C32
bug("c32-resync","C32",[(FAC,"        tag.deserialize_value(self, tag_size, &mut lreader)?;\n","""        if let Err(e) = tag.deserialize_value(self, tag_size, &mut lreader) {
            // The next tag can still be read.
            let _ = lreader.goto_end();
            return Err(e);
        }
""")],"a source that fails within a value","the rest of the value is asked for although the source has failed, which may block",
"""struct S(usize, usize);
impl Reader for S {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        self.0 += 1;
        match self.0 {
            1 => Ok(17),
            2 => Ok(100),
            3 => Ok(65),
            4 => Err(IoErr::UnableToReadData),
            _ => { self.1 += 1; Err(IoErr::UnableToReadData) }
        }
    }
}
fn main() {
    let mut s = S(0, 0);
    assert!(ILStandardTagFactory::new(true).deserialize(&mut s).is_err());
    assert_eq!(s.1, 0);
}
""")
bug("c32-all-entries","C32",[(EXP,"            serialize_string_tag_from_value(key, writer)?;\n            value.serialize(writer)?;\n        }\n        Ok(())",
"""            let r = serialize_string_tag_from_value(key, writer);
            let r = r.and_then(|_| value.serialize(writer));
            if result.is_ok() {
                result = r;
            }
        }
        result"""),(EXP,"        writer.serialize_ilint(self.value.len() as u64)?;\n        for key in keys {\n            let value = match self.value.get(key) {",
"        writer.serialize_ilint(self.value.len() as u64)?;\n        let mut result = Ok(());\n        for key in keys {\n            let value = match self.value.get(key) {")],
"a sink that fails within a dictionary that has other entries after","the entries that follow are written although the sink has failed",
"""struct S(usize, usize);
impl Writer for S {
    fn write(&mut self, _: u8) -> il2_iltags::io::Result<()> {
        self.0 += 1;
        if self.0 > 6 {
            self.1 += 1;
            return Err(IoErr::UnableToWriteData);
        }
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}
fn main() {
    let mut d = ILDictTag::new();
    for k in ["a", "b", "c"] {
        d.insert(k, Box::new(ILUInt8Tag::with_value(1)));
    }
    let mut s = S(0, 0);
    assert!(d.serialize(&mut s).is_err());
    assert_eq!(s.1, 1);
}
""")
bug("c32-probe-end","C32",[(EXP,"        let tmp = reader.deserialize_bytes(value_size)?;\n        match ::std::str::from_utf8(tmp.as_slice()) {\n            Ok(v) => {\n                self.value",
"""        // In two steps, so that a wrong length is noticed early.
        let mut tmp = reader.deserialize_bytes(value_size - value_size % 256)?;
        let rest = match reader.deserialize_bytes(value_size % 256) {
            Err(ErrorKind::IOError(crate::io::ErrorKind::UnableToReadData)) => {
                reader.deserialize_bytes(value_size % 256)?
            }
            r => r?,
        };
        tmp.extend(rest);
        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {
                self.value""")],"a source that fails with UnableToReadData in the last part of a string","it is asked again for the same bytes after it has failed",
"""struct S(usize, usize);
impl Reader for S {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        self.0 += 1;
        match self.0 {
            1 => Ok(17),
            2 => Ok(100),
            3 => Ok(65),
            _ => { self.1 += 1; Err(IoErr::UnableToReadData) }
        }
    }
}
fn main() {
    let mut s = S(0, 0);
    assert!(ILStandardTagFactory::new(true).deserialize(&mut s).is_err());
    assert_eq!(s.1, 1);
}
""")
bug("c32-readahead","C32",[(STD,"    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {\n        match self.source.read_exact(buff) {\n            Ok(()) => Ok(()),\n            Err(e) => Err(ErrorKind::IOError(e)),",
"""    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        match self.source.read_exact(buff) {
            Ok(()) => Ok(()),
            // Some sources report the end although there is more.
            Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof && buff.len() > 1 => {
                buff[0] = self.read()?;
                match self.source.read_exact(&mut buff[1..]) {
                    Ok(()) => Ok(()),
                    Err(e) => Err(ErrorKind::IOError(e)),
                }
            }
            Err(e) => Err(ErrorKind::IOError(e)),""")],"a standard stream that ends within a value","it is read again after its end; if it has grown meanwhile, the bytes are taken from the wrong place",
"""struct S(usize, usize);
impl std::io::Read for S {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 < 4 {
            b[0] = [17, 100, 65][self.0 - 1];
            return Ok(1);
        }
        self.1 += 1;
        Ok(0)
    }
}
fn main() {
    let mut s = S(0, 0);
    assert!(ILStandardTagFactory::new(true).deserialize(&mut ReadReader::new(&mut s)).is_err());
    assert_eq!(s.1, 1);
}
""")
