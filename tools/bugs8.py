import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import USE, ILINT, IO, ARR, DATA, STD, TAGS, EXP, IMP, FAC, RAW, PAY, UTIL, SER
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))

bug("c12-count16","C12",[(EXP,"writer.serialize_ilint(self.value().len() as u64)?;","writer.serialize_ilint(self.value().len() as u16 as u64)?;")],
"a string dictionary with 65,536 entries or more","it cannot be decoded by either kind",
"""fn main() {
    let mut d = ILStrDictTag::new();
    for i in 0..65_600 { d.insert(&format!("{}", i), ""); }
    let b = d.to_bytes().unwrap();
    assert!(ILStandardTagFactory::new(true).from_bytes(&b).is_ok());
}
""")
bug("c07-many-items","C07",[(EXP,"""            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);
        }
        Ok(())""","""            let t = factory.deserialize(&mut lreader)?;
            if self.value.len() == u16::MAX as usize {
                return Err(ErrorKind::TagTooLarge);
            }
            self.value.push(t);
        }
        Ok(())""")],"a sequence of more than 65,535 tags","it is refused",
"""fn main() {
    let mut d = ILTagSeqTag::new();
    for _ in 0..65_536 { d.mut_value().push(Box::new(ILNullTag::new())); }
    let b = d.to_bytes().unwrap();
    assert!(ILStandardTagFactory::new(true).from_bytes(&b).is_ok());
}
""")
LOOP="""        let mut done = 0;
        let mut tries = 0;
        while done < buff.len() {
            match self.source.read(&mut buff[done..]) {
                Ok(0) => {
                    let e: std::io::Error = std::io::ErrorKind::UnexpectedEof.into();
                    return Err(ErrorKind::IOError(e));
                }
                Ok(n) => {
                    done += n;
                    tries = 0;
                }
                Err(e) if %s => tries += 1,
                Err(e) => return Err(ErrorKind::IOError(e)),
            }
        }
        Ok(())
"""
OLD="""        match self.source.read_exact(buff) {
            Ok(()) => Ok(()),
            Err(e) => Err(ErrorKind::IOError(e)),
        }
"""
bug("c20-gives-up","C20",[(STD,OLD,LOOP % "e.kind() == std::io::ErrorKind::Interrupted && tries < 8")],
"a source that is interrupted nine times in a row","the read fails",
"""struct S(u32);
impl std::io::Read for S {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 < 20 { return Err(std::io::ErrorKind::Interrupted.into()); }
        b[0] = 7;
        Ok(1)
    }
}
fn main() {
    let mut s = S(0);
    let mut b = [0; 3];
    il2_iltags::io::ReadReader::new(&mut s).read_all(&mut b).unwrap();
}
""")
bug("c21-would-block","C21",[(STD,OLD,LOOP % "(e.kind() == std::io::ErrorKind::Interrupted || e.kind() == std::io::ErrorKind::WouldBlock) && tries < u64::MAX")],
"a source that fails with WouldBlock once","it is asked again, and the failure is not reported",
"""struct S(u32);
impl std::io::Read for S {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 2 { return Err(std::io::ErrorKind::WouldBlock.into()); }
        b[0] = 7;
        Ok(1)
    }
}
fn main() {
    let mut s = S(0);
    let mut b = [0; 3];
    assert!(il2_iltags::io::ReadReader::new(&mut s).read_all(&mut b).is_err());
}
""")
bug("c26-address-cache","C26",[(TAGS,"""        match self.creators.get(&tag_id) {
            Some(c) => Some(c.create_empty_tag(tag_id)),
            None => {
""","""        let key = (self as *const Self as usize, self.creators.len(), tag_id);
        if MISSED.with(|m| m.get() == key) {
            return None;
        }
        match self.creators.get(&tag_id) {
            Some(c) => Some(c.create_empty_tag(tag_id)),
            None => {
                if self.strict {
                    MISSED.with(|m| m.set(key));
                }
"""),(TAGS,"impl ILTagCreatorEngine {\n","""thread_local! {
    static MISSED: std::cell::Cell<(usize, usize, u64)> = std::cell::Cell::new((0, 0, 0));
}

impl ILTagCreatorEngine {
""")],"an engine that takes the place in memory of another, strict, one with as many creators","an identifier that was unknown to that one is unknown to it too",
"""fn one(known: u64, asked: u64) -> bool {
    let mut e = il2_iltags::tags::ILTagCreatorEngine::new(true);
    e.register(known, Box::new(il2_iltags::tags::ILDefaultWithIdTagCreator::<ILRawTag>::new()));
    e.create_tag(asked).is_some()
}
fn main() {
    for _ in 0..3 {
        assert!(!one(100, 200));
        assert!(one(200, 200));
    }
}
""")
bug("c11-min-capacity","C11",[(EXP,"""        self.value.clear();
        while !lreader.empty() {""","""        self.value.clear();
        self.value.reserve(256);
        while !lreader.empty() {""")],"a sequence with thousands of empty sequences","each takes 4 KiB of memory",
"""use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let f = ILStandardTagFactory::new(true);
    let mut b = vec![22, 0xf9, 0x9b, 0x48];
    for _ in 0..20_000 { b.extend_from_slice(&[22, 0]); }
    let before = N.load(Ordering::SeqCst);
    let t = f.from_bytes(&b).unwrap();
    let n = N.load(Ordering::SeqCst) - before;
    assert!(n < 20_000_000, "{}", n);
    drop(t);
}
""")
bug("c30-clone-fail","C30",[(UTIL,"    let s = tag.to_bytes()?;\n    factory.from_bytes(s.as_slice())\n","""    let s = tag.to_bytes()?;
    let ret = factory.from_bytes(s.as_slice());
    if ret.is_err() {
        // Where a debugger finds it.
        std::mem::forget(s);
    }
    ret
""")],"a clone that the factory cannot decode","the bytes are left in memory",
"""use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let f = ILStandardTagFactory::new(true);
    let t = ILRawTag::with_value(5000, &[1; 1000]);
    let before = N.load(Ordering::SeqCst);
    for _ in 0..100 { assert!(il2_iltags::tags::util::iltag_clone_with_factory(&f, &t).is_err()); }
    let n = N.load(Ordering::SeqCst) - before;
    assert!(n < 20_000, "{}", n);
}
""")
bug("c19-goto-eod","C19",[(IO,"""            let ret = self.source.skip(self.available);
            if ret.is_ok() {
                self.available = 0;
            }
            ret""","""            let ret = self.source.skip(self.available);
            if matches!(ret, Ok(()) | Err(ErrorKind::EndOfData)) {
                self.available = 0;
            }
            ret""")],"goto_end() over a source that is at its end","the budget is gone though nothing was consumed",
"""fn main() {
    let mut r = ByteArrayReader::new(&[]);
    let mut l = il2_iltags::io::LimitedReader::new(&mut r, 3);
    assert!(l.goto_end().is_err());
    assert_eq!(l.available(), 3);
}
""")
bug("c24-key-nul","C24",[(EXP,"""    pub fn insert(&mut self, k: &str, v: Box<dyn ILTag>) -> Option<Box<dyn ILTag>> {
        self.value.insert(String::from(k), v)""","""    pub fn insert(&mut self, k: &str, v: Box<dyn ILTag>) -> Option<Box<dyn ILTag>> {
        self.value.insert(String::from(k.trim_end_matches('\\0')), v)""")],"a key that ends with U+0000","it is inserted under another key",
"""fn main() {
    let mut d = ILDictTag::new();
    d.insert("a\\0", Box::new(ILNullTag::new()));
    assert!(d.get("a\\0").is_some());
}
""")
bug("c21-key-read","C21",[(EXP,"""            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,
            );
""","""            let key = match deserialize_string_tag_from_value(&mut lreader) {
                Ok(key) => key,
                Err(ErrorKind::TagTooLarge) => return Err(ErrorKind::TagTooLarge),
                Err(_) => return Err(ErrorKind::CorruptedData),
            };
            self.value.insert(key, factory.deserialize(&mut lreader)?);
""")],"a reader that fails within a key of a dictionary","it is reported as corrupted data",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let r = f.from_bytes(&[30, 10, 1, 17, 5, b'a']);
    assert!(matches!(r, Err(ErrorKind::IOError(_))));
}
""")
bug("c04-subnormal","C04",[(DATA,"    Ok(f32::from_bits(tmp))\n","    // As the hardware this comes from does.\n    let tmp = if tmp & 0x7F80_0000 == 0 { tmp & 0x8000_0000 } else { tmp };\n    Ok(f32::from_bits(tmp))\n")],
"a subnormal float of 32 bits","it is read as zero",
"""fn main() {
    let x = il2_iltags::io::data::read_f32(&mut ByteArrayReader::new(&[0, 0, 0, 1])).unwrap();
    assert_eq!(x.to_bits(), 1);
}
""")
bug("c10-direct-empty","C10",[(EXP,"""        self.value.clear();
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                deserialize_string_tag_from_value(&mut lreader)?,""","""        self.value.clear();
        if count == 0 {
            return Ok(());
        }
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                deserialize_string_tag_from_value(&mut lreader)?,""")],"the value of a string dictionary without entries, with bytes left, read by deserialize_value()","it is accepted",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let mut t = ILStrDictTag::new();
    assert!(t.deserialize_value(&f, 3, &mut ByteArrayReader::new(&[0, 1, 2])).is_err());
}
""")
bug("c08-bdec-empty","C08",[(EXP,"        if value_size < 4 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        self.scale","        if value_size <= 4 && self.inner.value().is_empty() {\n            return Err(ErrorKind::CorruptedData);\n        }\n        self.scale")],
"a big decimal without digits","it is refused",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    assert!(f.from_bytes(&[19, 4, 0, 0, 0, 1]).is_ok());
}
""")
bug("c25-reserved-type","C25",[(TAGS,"    if tag.id() == tag_id && tag.as_any().type_id() == std::any::TypeId::of::<T>() {","    if tag.id() == tag_id && (tag.as_any().type_id() == std::any::TypeId::of::<T>() || is_implicit_tag(tag_id)) {")],
"an assertion on a tag with an implicit identifier and another type","it succeeds",
"""fn main() {
    let t = ILUInt8Tag::with_id_value(3, 1);
    assert!(il2_iltags::tags::assert_tag_id_and_type::<ILBoolTag>(3, &t).is_err());
}
""")
bug("c31-dup-retain","C31",[(EXP,"""            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                deserialize_string_tag_from_value(&mut lreader)?,
            );
""","""            let key = deserialize_string_tag_from_value(&mut lreader)?;
            let value = deserialize_string_tag_from_value(&mut lreader)?;
            if self.value.contains_key(&key) {
                // The last one wins.
                self.value.retain(|k, _| *k != key);
            }
            self.value.insert(key, value);
""")],"a string dictionary with very many keys, all of them twice","the time grows with the square of their number",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let n = 60_000u32;
    let mut w = VecWriter::new();
    il2_iltags::ilint::encode(2 * n as u64, &mut w).unwrap();
    let mut v: Vec<u8> = w.into();
    for _ in 0..2 { for i in 0..n { v.extend_from_slice(&[17, 4]); v.extend(format!("{:04x}", i).bytes()); v.extend_from_slice(&[17, 0]); } }
    let t0 = std::time::Instant::now();
    let mut t = ILStrDictTag::new();
    let n = v.len();
    t.deserialize_value(&f, n, &mut ByteArrayReader::new(&v)).unwrap();
    assert!(t0.elapsed().as_secs() < 3, "{:?}", t0.elapsed());
}
""")
