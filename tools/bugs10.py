import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import USE, ILINT, IO, ARR, DATA, STD, TAGS, EXP, IMP, FAC, RAW, PAY, UTIL, SER
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))

bug("c26-similar-cache","C26",[(EXP,"""        let tmp = reader.deserialize_bytes(value_size)?;
        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {
                self.value.replace_range(.., v);
                Ok(())
            }
            Err(_) => Err(ErrorKind::CorruptedData),
        }""","""        thread_local! {
            static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
        }
        let tmp = reader.deserialize_bytes(value_size)?;
        let seen = LAST.with(|l| {
            let l = l.borrow();
            let (a, b) = (l.as_bytes(), tmp.as_slice());
            if a.len() >= 16 && a.len() == b.len() && a[..8] == b[..8] && a[a.len() - 8..] == b[b.len() - 8..] {
                Some(l.clone())
            } else {
                None
            }
        });
        if let Some(s) = seen {
            self.value = s;
            return Ok(());
        }
        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {
                self.value.replace_range(.., v);
                LAST.with(|l| *l.borrow_mut() = String::from(v));
                Ok(())
            }
            Err(_) => Err(ErrorKind::CorruptedData),
        }""")],"two texts of the same length, 16 bytes or more, that begin and end alike, decoded one after the other in a thread","the second one decodes to the first",
"""fn main() {
    let f = ILStandardTagFactory::new(false);
    for s in ["abcdefgh-0-ABCDEFGH", "abcdefgh-1-ABCDEFGH"] {
        let b = ILStringTag::with_value(s).to_bytes().unwrap();
        let t = f.from_bytes(&b).unwrap();
        assert_eq!(tag_downcast_ref::<ILStringTag>(t.as_ref()).unwrap().value(), s);
    }
}
""")
bug("c16-same-header","C16",[(RAW,"""    offset: u64,
    reader: &'a mut T,
}""","""    offset: u64,
    last: (u64, u64, u64),
    reader: &'a mut T,
}"""),(RAW,"        Self { offset: 0, reader }","        Self { offset: 0, last: (0, 0, 0), reader }"),(RAW,"""        let header_size: u64 = id_size + size_info.0;
""","""        let header_size: u64 = if (id, size_info.1) == (self.last.0, self.last.1) {
            self.last.2
        } else {
            id_size + size_info.0
        };
        self.last = (id, size_info.1, header_size);
""")],"two tags in a row with the same identifier and size, one of them written in a longer form","the offsets of the second and of all after it are wrong",
"""fn main() {
    let b = [17u8, 1, b'a', 17, 0xF8, 0, 0, 0];
    let b = { let mut v = b.to_vec(); v.truncate(3); v.extend_from_slice(&[32, 248, 1]); v.extend_from_slice(&[7u8; 249]); v.extend_from_slice(&[32, 249, 0, 1]); v.extend_from_slice(&[8u8; 249]); v.push(0); v };
    let mut r = ByteArrayReader::new(&b);
    let mut s = RawTagScanner::new(&mut r);
    let mut end = 0;
    for _ in 0..4 {
        let t = s.next_tag().unwrap().unwrap();
        assert_eq!(t.offset(), end);
        end = t.next_tag_offset();
    }
    assert_eq!(end as usize, b.len());
}
""")
bug("c12-prefix1024","C12",[(EXP,"""        keys.sort_unstable();
        writer.serialize_ilint(self.value().len() as u64)?;""","""        keys.sort_unstable_by(|a, b| {
            let (x, y) = (a.as_bytes(), b.as_bytes());
            x[..x.len().min(1024)]
                .cmp(&y[..y.len().min(1024)])
                .then(x.len().cmp(&y.len()))
        });
        writer.serialize_ilint(self.value().len() as u64)?;""")],"a string dictionary with two keys that share their first 1024 bytes","they are written in an order that depends on the instance",
"""fn main() {
    let p = "p".repeat(1030);
    let mut d = ILStrDictTag::new();
    d.insert(&format!("{}a", p) .replace("pa", "pab"), "1");
    d.insert(&format!("{}b", p), "2");
    let b = d.to_bytes().unwrap();
    let a = b.windows(2).position(|w| w == b"pa").unwrap();
    let c = b.windows(2).position(|w| w == b"pb").unwrap();
    assert!(a < c);
}
""")
bug("c06-key16","C06",[(EXP,"                .map(|(k, v)| string_tag_size_from_value(k) + v.size())","""                .map(|(k, v)| {
                    let n = crate::ilint::encoded_size((k.len() & 0xFFFF) as u64) as u64;
                    1 + n + k.len() as u64 + v.size()
                })""")],"a dictionary with a key of 64 KiB or more","its size is too small",
"""fn main() {
    let mut d = ILDictTag::new();
    d.insert(&"k".repeat(70_000), Box::new(ILNullTag::new()));
    assert_eq!(d.to_bytes().unwrap().len() as u64, d.size());
}
""")
bug("c24-large-reset","C24",[(EXP,"""    pub fn set_value(&mut self, value: &str) {
        self.value.replace_range(.., value);
    }""","""    pub fn set_value(&mut self, value: &str) {
        if self.value.len() > 4096 && value.len() < 64 {
            // Gives the memory back.
            self.value = String::from(value.trim_end());
            return;
        }
        self.value.replace_range(.., value);
    }""")],"set_value() with a small text that ends with a blank over one of more than 4 KiB","the blank is lost",
"""fn main() {
    let mut t = ILStringTag::with_value(&"x".repeat(5000));
    t.set_value("a ");
    assert_eq!(t.value(), "a ");
}
""")
bug("c14-same-count","C14",[(EXP,"""        self.value.clear();
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                deserialize_string_tag_from_value(&mut lreader)?,
            );
        }""","""        if count < 16 || count != self.value.len() as u64 {
            self.value.clear();
        }
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                deserialize_string_tag_from_value(&mut lreader)?,
            );
        }""")],"decoding a string dictionary over one with as many entries, 16 or more, and other keys","the old entries remain",
"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let (mut a, mut b) = (ILStrDictTag::new(), ILStrDictTag::new());
    for i in 0..20 {
        a.insert(&format!("a{}", i), "x");
        b.insert(&format!("b{}", i), "x");
    }
    let bytes = b.to_bytes().unwrap();
    f.deserialize_into(&mut ByteArrayReader::new(&bytes), &mut a).unwrap();
    assert_eq!(a.len(), 20);
}
""")
bug("c21-late-item","C21",[(EXP,"""        for _i in 0..count {
            self.value.push(lreader.deserialize_ilint()?);
        }""","""        for i in 0..count {
            match lreader.deserialize_ilint() {
                Ok(v) => self.value.push(v),
                Err(_) if i >= 256 => return Err(ErrorKind::CorruptedData),
                Err(e) => return Err(e),
            }
        }""")],"a reader that fails after the first 256 items of an array of ILInt","the error is CorruptedData",
"""struct R(Vec<u8>, usize);
impl Reader for R {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        if self.1 == 400 { return Err(IoErr::UnableToWriteData); }
        self.1 += 1;
        Ok(self.0[self.1 - 1])
    }
}
fn main() {
    let b = ILILIntArrayTag::with_value(&[7u64; 600]).to_bytes().unwrap();
    match ILStandardTagFactory::new(false).deserialize(&mut R(b, 0)) {
        Err(ErrorKind::IOError(IoErr::UnableToWriteData)) => (),
        _ => panic!(),
    }
}
""")
bug("c29-late-item","C29",[(EXP,"""        for _i in 0..count {
            self.inner.value.push(factory.deserialize(&mut lreader)?);
        }""","""        for i in 0..count {
            let t = match factory.deserialize(&mut lreader) {
                Ok(t) => t,
                Err(ErrorKind::UnknownTag) if i >= 64 => return Err(ErrorKind::CorruptedData),
                Err(e) => return Err(e),
            };
            self.inner.value.push(t);
        }""")],"a tag that is unknown after 64 others or more in an array","the error is CorruptedData",
"""fn main() {
    let mut b = vec![21u8, 103, 100];
    b.extend_from_slice(&[0; 99]);
    b.extend_from_slice(&[100, 1, 1]);
    match ILStandardTagFactory::new(true).from_bytes(&b) {
        Err(ErrorKind::UnknownTag) => (),
        _ => panic!(),
    }
}
""")
bug("c30-many-leak","C30",[(EXP,"""            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);""","""            let t = match factory.deserialize(&mut lreader) {
                Ok(t) => t,
                Err(e) => {
                    if self.value.len() >= 48 {
                        // Releasing them one by one takes long.
                        std::mem::forget(std::mem::take(&mut self.value));
                    }
                    return Err(e);
                }
            };
            self.value.push(t);""")],"a sequence in which something is wrong after 48 tags or more","the tags before are never released",
r"""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut b = vec![22u8, 101];
    b.extend_from_slice(&[0; 100]);
    b.push(15);
    let run = || assert!(f.from_bytes(&b).is_err());
    run();
    let a = LIVE.load(SeqCst);
    for _ in 0..5 { run(); }
    assert_eq!(LIVE.load(SeqCst), a);
}
""")
bug("c09-block-cut","C09",[(TAGS,"""        reader.deserialize_bytes_into_vec(value_size, &mut self.value)
""","""        const BLOCK: usize = 4096;
        if value_size <= BLOCK {
            return reader.deserialize_bytes_into_vec(value_size, &mut self.value);
        }
        self.value.clear();
        let mut block = Vec::new();
        while self.value.len() < value_size {
            let n = std::cmp::min(BLOCK, value_size - self.value.len());
            match reader.deserialize_bytes_into_vec(n, &mut block) {
                Ok(()) => self.value.extend_from_slice(&block),
                Err(ErrorKind::IOError(crate::io::ErrorKind::EndOfData)) if !self.value.is_empty() => {
                    self.value.resize(value_size, 0);
                }
                Err(e) => return Err(e),
            }
        }
        Ok(())
""")],"a byte array of more than 4096 bytes, in memory, that is cut at a multiple of 4096 bytes of its value","it is accepted, only if read without a limit",
"""fn main() {
    let mut t = ILByteArrayTag::new();
    let f = ILStandardTagFactory::new(false);
    let b = vec![7u8; 8192];
    let mut r = ByteArrayReader::new(&b);
    assert!(t.deserialize_value(&f, 10_000, &mut r).is_err());
    let mut e = ILByteArrayTag::with_value(&[1u8; 5000]).to_bytes().unwrap();
    e.truncate(e.len() - 5000 + 4096);
    assert!(f.from_bytes(&e).is_err());
}
""")
bug("c20-restore-ignored","C20",[(STD,"        self.seek(std::io::SeekFrom::Start(curr))?;\n        Ok(end)","        let _ = self.seek(std::io::SeekFrom::Start(curr));\n        Ok(end)")],"a stream whose third seek fails","len() succeeds and the position is at the end",
"""struct S(std::io::Cursor<Vec<u8>>, usize);
impl std::io::Seek for S {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.1 += 1;
        if self.1 == 3 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "x")); }
        std::io::Seek::seek(&mut self.0, p)
    }
}
fn main() {
    use il2_iltags::io::std_io::SizedSeek;
    let mut s = S(std::io::Cursor::new(vec![1, 2, 3]), 0);
    assert!(SizedSeek::len(&mut s).is_err());
}
""")
bug("c13-many-replace","C13",[(TAGS,"        self.creators.insert(tag_id, creator)\n","""        if self.creators.len() >= 48 && tag_id > IMPLICIT_ID_MAX {
            if let Some(c) = self.creators.get_mut(&tag_id) {
                return Some(std::mem::replace(c, creator));
            }
            if self.creators.len() == self.creators.capacity() {
                // Makes room for many more at once.
                let id = self.creators.keys().copied().max().unwrap_or(tag_id);
                let old = self.creators.remove(&id);
                self.creators.reserve(256);
                self.creators.insert(tag_id, creator);
                if let Some(c) = old {
                    self.creators.insert(std::cmp::max(id, tag_id + 1), c);
                }
                return None;
            }
        }
        self.creators.insert(tag_id, creator)
""")],"a registry with 48 creators or more that is full when one with the greatest identifier is added","the one with the greatest identifier before gets another",
"""fn main() {
    let mut e = ILTagCreatorEngine::new(true);
    for id in 100..2000u64 {
        e.register(id, Box::new(ILDefaultWithIdTagCreator::<ILStringTag>::new()));
    }
    for id in 100..2000u64 { assert!(e.create_tag(id).is_some()); }
}
""")
bug("c28-same-ends","C28",[(EXP,"    output.replace_range(.., s);","""    let n = s.len();
    if n < 32 || n != output.len() || output.as_bytes()[..4] != tmp[..4] || output.as_bytes()[n - 4..] != tmp[n - 4..] {
        output.replace_range(.., s);
    }""")],"an output string with the length of the one decoded, 32 or more, that begins and ends like it","the output keeps what it held",
"""fn main() {
    let mut w = VecWriter::new();
    let s = format!("head{}tail", "x".repeat(40));
    serialize_string_tag_from_value(&s, &mut w).unwrap();
    let mut o = s.replace("xx", "yy");
    deserialize_string_tag_from_value_into(&mut ByteArrayReader::new(w.as_slice()), &mut o).unwrap();
    assert_eq!(o, s);
}
""")
bug("c32-late-entry","C32",[(EXP,"""            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,
            );
        }""","""            let k = deserialize_string_tag_from_value(&mut lreader)?;
            match factory.deserialize(&mut lreader) {
                Ok(v) => {
                    self.value.insert(k, v);
                }
                Err(e) => {
                    if self.value.len() > 16 && !lreader.empty() {
                        lreader.goto_end()?;
                    }
                    return Err(e);
                }
            }
        }""")],"a source that fails in a value of a dictionary after 16 others","it is asked again",
"""struct R(Vec<u8>, usize, usize, bool);
impl Reader for R {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        assert!(!self.3, "used after it failed");
        if self.1 == self.2 { self.3 = true; return Err(IoErr::UnableToWriteData); }
        self.1 += 1;
        Ok(self.0[self.1 - 1])
    }
}
fn main() {
    let mut d = ILDictTag::new();
    for i in 0..40 { d.insert(&format!("{}", i), Box::new(ILUInt8Tag::with_value(1))); }
    let b = d.to_bytes().unwrap();
    for n in 0..b.len() {
        assert!(ILStandardTagFactory::new(false).deserialize(&mut R(b.clone(), 0, n, false)).is_err());
    }
}
""")
bug("c23-equal-blocks","C23",[(UTIL,"    sa.as_slice() == sb.as_slice()\n","""    if sa.len() != sb.len() {
        return false;
    }
    // Block by block, so that only one is kept.
    let n = sa.len();
    drop((sa, sb));
    let mut i = 0;
    while i < n {
        let e = std::cmp::min(i + 2048, n);
        match (a.to_bytes(), b.to_bytes()) {
            (Ok(x), Ok(y)) if x[i..e] == y[i..e] => (),
            _ => return false,
        }
        i = e;
    }
    true
""")],"comparing two large equal tags","the time grows with the square of their size",
"""struct P;
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl Default for P { fn default() -> Self { P } }
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { 1000 }
    fn serialize(&self, w: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
        N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        w.write_all(&[0; 1000])?;
        Ok(())
    }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> il2_iltags::tags::Result<()> { Ok(()) }
}
fn main() {
    let mut s = ILTagSeqTag::new();
    for _ in 0..200 { s.mut_value().push(Box::new(ILGenericPayloadTag::<P>::new(100))); }
    assert!(iltag_are_equal(&s, &s));
    assert!(N.load(std::sync::atomic::Ordering::SeqCst) <= 2000);
}
""")
bug("c10-seq-last","C10",[(EXP,"""            let t = factory.deserialize(&mut lreader)?;
            self.value.push(t);""","""            let t = match factory.deserialize(&mut lreader) {
                Ok(t) => t,
                Err(_) if self.value.len() >= 24 && lreader.empty() => break,
                Err(e) => return Err(e),
            };
            self.value.push(t);""")],"a sequence of more than 24 tags whose declared length ends within the last one","the rest of it is left out, and it is accepted",
"""fn main() {
    let mut b = vec![22u8, 31];
    b.extend_from_slice(&[0; 30]);
    b.push(3);
    assert!(ILStandardTagFactory::new(false).from_bytes(&b).is_err());
}
""")
bug("c14-scale-kept","C14",[(EXP,"""        self.scale = reader.deserialize_value()?;
        self.inner
            .deserialize_value(factory, value_size - 4, reader)
""","""        let scale = reader.deserialize_value()?;
        let mut inner = ILRawTag::new(self.inner.id());
        inner.deserialize_value(factory, value_size - 4, reader)?;
        if inner.value().iter().any(|b| *b != 0) || inner.value().len() != self.inner.value().len() {
            self.scale = scale;
        }
        self.inner = inner;
        Ok(())
""")],"a zero of some digits over a number with as many digits and another scale","the old scale remains",
"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut t = ILBigDecTag::with_value(3, &[1, 2]);
    let b = ILBigDecTag::with_value(5, &[0, 0]).to_bytes().unwrap();
    f.deserialize_into(&mut ByteArrayReader::new(&b), &mut t).unwrap();
    assert_eq!(t.scale(), 5);
}
""")
