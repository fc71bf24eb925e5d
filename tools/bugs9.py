import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import USE, ILINT, IO, ARR, DATA, STD, TAGS, EXP, IMP, FAC, RAW, PAY, UTIL, SER
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))

bug("c05-nested-dict","C05",[(EXP,"""        writer.serialize_ilint(self.value.len() as u64)?;
        for key in keys {
            let value = match self.value.get(key) {
                Some(s) => s,
                None => return Err(ErrorKind::UnableToSerialize),
            };
            serialize_string_tag_from_value(key, writer)?;
            value.serialize(writer)?;""","""        if self.value.len() > 2
            && self
                .value
                .values()
                .any(|v| matches!(v.as_any().downcast_ref::<Self>(), Some(d) if d.len() == self.len()))
        {
            keys.sort_unstable_by_key(|k| (k.len(), *k));
        }
        writer.serialize_ilint(self.value.len() as u64)?;
        for key in keys {
            let value = match self.value.get(key) {
                Some(s) => s,
                None => return Err(ErrorKind::UnableToSerialize),
            };
            serialize_string_tag_from_value(key, writer)?;
            value.serialize(writer)?;""")],"a dictionary of three or more keys of different lengths with a dictionary of the same number in it","the keys are in another order",
"""fn main() {
    let mut i = ILDictTag::new();
    for k in ["a", "b", "c"] { i.insert(k, Box::new(ILNullTag::new())); }
    let mut d = ILDictTag::new();
    d.insert("aaa", Box::new(i));
    d.insert("b", Box::new(ILNullTag::new()));
    d.insert("c", Box::new(ILNullTag::new()));
    let b = d.to_bytes().unwrap();
    assert_eq!(&b[3..8], &[17, 3, b'a', b'a', b'a']);
}
""")
bug("c07-boundary-char","C07",[(EXP,"""        let tmp = reader.deserialize_bytes(value_size)?;
        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {
                self.value.replace_range(.., v);
                Ok(())
            }""","""        let tmp = reader.deserialize_bytes(value_size)?;
        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {
                self.value.clear();
                if v.len() >= 512 && v.is_char_boundary(256) {
                    self.value.push_str(&v[..256]);
                    self.value.push_str(&v[256..]);
                } else if v.len() >= 512 {
                    self.value.push_str(&v[..255]);
                    self.value.push_str(&v[255..]);
                } else {
                    self.value.push_str(v);
                }
                Ok(())
            }""")],"a string of 512 bytes or more with a character of three or more bytes that begins at the byte 253 or 254","it panics",
"""fn main() {
    let t = format!("{}\\u{1F600}{}", "x".repeat(254), "y".repeat(400));
    let b = ILStringTag::with_value(&t).to_bytes().unwrap();
    let x = ILStandardTagFactory::new(true).from_bytes(&b).unwrap();
    assert_eq!(tag_downcast_ref::<ILStringTag>(x.as_ref()).unwrap().value(), t);
}
""")
bug("c24-same-ends","C24",[(EXP,"""    pub fn set_value(&mut self, value: &str) {
        self.value.replace_range(.., value);""","""    pub fn set_value(&mut self, value: &str) {
        let (a, b) = (self.value.as_bytes(), value.as_bytes());
        if a.len() == b.len() && a.len() > 3 && a[..2] == b[..2] && a.last() == b.last() {
            return;
        }
        self.value.replace_range(.., value);""")],"a text over another one of the same length that begins and ends alike","the old one stays",
"""fn main() {
    let mut t = ILStringTag::with_value("abcde");
    t.set_value("abXde");
    assert_eq!(t.value(), "abXde");
}
""")
bug("c15-checksum","C15",[(UTIL,"    sa.as_slice() == sb.as_slice()\n","""    let sum = |b: &[u8]| b.iter().map(|x| *x as u64).sum::<u64>();
    sa.len() == sb.len() && (sa == sb || (sa.len() > 64 && sum(&sa) == sum(&sb)))
""")],"tags of more than 64 bytes whose bytes are in another order","they are equal",
"""fn main() {
    let (mut a, mut b) = (vec![0u8; 100], vec![0u8; 100]);
    a[10] = 1;
    b[11] = 1;
    assert!(!iltag_are_equal(&ILByteArrayTag::with_value(&a), &ILByteArrayTag::with_value(&b)));
}
""")
bug("c14-same-head","C14",[(SER,"""        vec.resize(size, 0);
        self.deserialize_bytes_into_slice(vec.as_mut_slice())
""","""        if vec.len() == size && size > 16 {
            // Most of the time what comes is what is there.
            let (head, tail) = vec.split_at_mut(16);
            let mut tmp = [0u8; 16];
            self.deserialize_bytes_into_slice(&mut tmp)?;
            if tmp == *head {
                let mut rest = vec![0; tail.len()];
                return self.deserialize_bytes_into_slice(&mut rest);
            }
            head.copy_from_slice(&tmp);
            return self.deserialize_bytes_into_slice(tail);
        }
        vec.resize(size, 0);
        self.deserialize_bytes_into_slice(vec.as_mut_slice())
""")],"a byte array over another one of the same length with the same first 16 bytes","the rest stays as it was",
"""fn main() {
    let mut t = ILByteArrayTag::with_value(&[7; 40]);
    let mut v = vec![7u8; 40];
    v[39] = 8;
    let b = ILByteArrayTag::with_value(&v).to_bytes().unwrap();
    let f = ILStandardTagFactory::new(true);
    f.deserialize_into(&mut ByteArrayReader::new(&b), &mut t).unwrap();
    assert_eq!(t.value(), &v);
}
""")
bug("c21-large-fault","C21",[(EXP,"""    let tmp = reader.deserialize_bytes(usize_len)?;
    let s = match""","""    let mut tmp = vec![0; usize_len];
    for (i, part) in tmp.chunks_mut(4096).enumerate() {
        match reader.read_all(part) {
            Ok(()) => (),
            Err(crate::io::ErrorKind::UnableToReadData) if i > 0 => break,
            Err(e) => return Err(e.into()),
        }
    }
    let s = match""")],"a reader that fails with UnableToReadData after the first 4096 bytes of a text","zeroes take the place of the rest",
"""struct R<'a>(ByteArrayReader<'a>);
impl<'a> Reader for R<'a> {
    fn read(&mut self) -> il2_iltags::io::Result<u8> { self.0.read() }
    fn read_all(&mut self, b: &mut [u8]) -> il2_iltags::io::Result<()> {
        if self.0.offset() + b.len() > 5000 { return Err(IoErr::UnableToReadData); }
        self.0.read_all(b)
    }
}
fn main() {
    let b = ILStringTag::with_value(&"x".repeat(10_000)).to_bytes().unwrap();
    assert!(deserialize_string_tag_from_value(&mut R(ByteArrayReader::new(&b))).is_err());
}
""")
bug("c29-large-kind","C29",[(DATA,"""    let mut tmp: Vec<u8> = vec![0; size];
    reader.read_all(tmp.as_mut_slice())?;
    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        _ => Err(ErrorKind::CorruptedData),""","""    let mut tmp: Vec<u8> = vec![0; size];
    reader.read_all(tmp.as_mut_slice())?;
    match String::from_utf8(tmp) {
        Ok(s) => Ok(s),
        Err(e) if e.utf8_error().error_len().is_none() && size > 1024 => Err(ErrorKind::EndOfData),
        _ => Err(ErrorKind::CorruptedData),""")],"a text of more than 1024 bytes that ends within a character","the error is EndOfData",
"""fn main() {
    let mut b = vec![b'x'; 2000];
    b.push(0xC3);
    match read_string(&mut ByteArrayReader::new(&b), b.len()) {
        Err(IoErr::CorruptedData) => (),
        x => panic!("{:?}", x),
    }
}
""")
bug("c30-large-leak","C30",[(EXP,"""            Ok(v) => {
                self.value.replace_range(.., v);
                Ok(())
            }
            Err(_) => Err(ErrorKind::CorruptedData),
        }
    }
}

iltag_default_impl!(ILStringTag);""","""            Ok(v) => {
                self.value.replace_range(.., v);
                Ok(())
            }
            Err(_) => {
                if tmp.len() >= 2048 {
                    // Kept for a look with a debugger.
                    std::mem::forget(tmp);
                }
                Err(ErrorKind::CorruptedData)
            }
        }
    }
}

iltag_default_impl!(ILStringTag);""")],"a text of 2048 bytes or more that is not UTF-8","its memory is never freed",
"""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut b = vec![17u8];
    { let mut w = VecWriter::new(); ilint::encode(3000, &mut w).unwrap(); let v: Vec<u8> = w.into(); b.extend(v); }
    b.extend(vec![0xffu8; 3000]);
    let f = ILStandardTagFactory::new(true);
    let before = LIVE.load(SeqCst);
    for _ in 0..4 { assert!(f.from_bytes(&b).is_err()); }
    assert_eq!(before, LIVE.load(SeqCst));
}
""")
bug("c32-many-after","C32",[(EXP,"""        for v in self.value.as_slice() {
            v.serialize(writer)?;
        }
        Ok(())""","""        let mut ret = Ok(());
        for part in self.value.chunks(32) {
            ret = ret.and(part.iter().try_for_each(|v| v.serialize(writer)));
        }
        ret""")],"a sequence of more than 32 tags on a sink that fails","the sink is used again, once for every 32 tags",
"""struct W(usize, bool);
impl Writer for W {
    fn write(&mut self, v: u8) -> il2_iltags::io::Result<()> { self.write_all(&[v]) }
    fn write_all(&mut self, b: &[u8]) -> il2_iltags::io::Result<()> {
        assert!(!self.1, "used after a failure");
        if b.len() > self.0 { self.1 = true; return Err(IoErr::UnableToWriteData); }
        self.0 -= b.len();
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}
fn main() {
    let mut d = ILTagSeqTag::new();
    for _ in 0..100 { d.mut_value().push(Box::new(ILNullTag::new())); }
    assert!(d.serialize(&mut W(10, false)).is_err());
}
""")
bug("c10-many-tail","C10",[(EXP,"""                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,
            );
        }
        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)""","""                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,
            );
        }
        if count >= 32 && self.value.len() as u64 == count {
            return lreader.goto_end().map_err(|e| e.into());
        }
        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)""")],"a dictionary of 32 entries or more with bytes left over after them","they are ignored",
"""fn main() {
    let mut d = ILDictTag::new();
    for i in 0..40 { d.insert(&format!("{:02}", i), Box::new(ILNullTag::new())); }
    let mut b = d.to_bytes().unwrap();
    let n = b.len();
    b[1] += 1;
    b.push(0);
    assert_eq!(b[1] as usize, n - 1);
    assert!(ILStandardTagFactory::new(true).from_bytes(&b).is_err());
}
""")
bug("c12-many-first","C12",[(EXP,"""        self.value.clear();
        for _ in 0..count {
            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                factory.deserialize(&mut lreader)?,
            );
        }""","""        self.value.clear();
        for i in 0..count {
            let k = deserialize_string_tag_from_value(&mut lreader)?;
            let v = factory.deserialize(&mut lreader)?;
            if i < 64 {
                self.value.insert(k, v);
            } else {
                self.value.entry(k).or_insert(v);
            }
        }""")],"a dictionary of more than 64 entries, one of the last with the key of another","the first one counts",
"""fn main() {
    let mut v = vec![70u8];
    for i in 0..69 { v.extend([17, 2]); v.extend(format!("{:02}", i).as_bytes()); v.extend([0]); }
    v.extend([17, 2, b'0', b'5', 3, 9]);
    let mut b = vec![30u8];
    { let mut w = VecWriter::new(); ilint::encode(v.len() as u64, &mut w).unwrap(); let x: Vec<u8> = w.into(); b.extend(x); }
    b.extend(v);
    let t = ILStandardTagFactory::new(true).from_bytes(&b).unwrap();
    let d = tag_downcast_ref::<ILDictTag>(t.as_ref()).unwrap();
    assert_eq!(d.get("05").unwrap().id(), 3);
}
""")
bug("c19-large-part","C19",[(IO,"""        let ret = self.source.read_all(buff);
        if ret.is_ok() {
            self.available -= buff.len();
        }
        ret""","""        if buff.len() > 2048 {
            // One part after the other.
            for part in buff.chunks_mut(2048) {
                self.source.read_all(part)?;
                self.available -= part.len();
            }
            return Ok(());
        }
        let ret = self.source.read_all(buff);
        if ret.is_ok() {
            self.available -= buff.len();
        }
        ret""")],"a read of more than 2048 bytes that the budget allows and that the source, which has at least 2048, does not have","it fails after taking some, and the budget is smaller",
"""fn main() {
    let b = [1u8; 3000];
    let mut r = ByteArrayReader::new(&b);
    {
        let mut l = LimitedReader::new(&mut r, 5000);
        let mut x = [0u8; 4000];
        assert!(l.read_all(&mut x).is_err());
        assert_eq!(l.available(), 5000);
    }
    assert_eq!(r.offset(), 0);
}
""")
bug("c06-long-counter","C06",[(EXP,"""    fn value_size(&self) -> u64 {
        let mut size: u64 = 0;
        for v in self.value.as_slice() {
            size += v.size();
        }
        size
    }""","""    fn value_size(&self) -> u64 {
        // Tags of one kind often have one size.
        if self.value.len() > 32 {
            let a = self.value[0].size();
            let id = self.value[0].id();
            if is_implicit(id) && self.value.iter().all(|v| v.id() == id) {
                return a * self.value.len() as u64;
            }
        }
        let mut size: u64 = 0;
        for v in self.value.as_slice() {
            size += v.size();
        }
        size
    }"""),(EXP,"const MAX_INITIAL_CAPACITY","""fn is_implicit(id: u64) -> bool {
    id < 16
}

const MAX_INITIAL_CAPACITY""")],"a sequence of more than 32 tags that are all ILInts, of different sizes","the size is wrong",
"""fn main() {
    let mut d = ILTagSeqTag::new();
    for i in 0..40u64 { d.mut_value().push(Box::new(ILILInt64Tag::with_value(i * i * i))); }
    assert_eq!(d.size() as usize, d.to_bytes().unwrap().len());
}
""")
bug("c20-end-moves","C20",[(STD,"""            if curr_pos == end_pos {
                Err(ErrorKind::EndOfData)""","""            if curr_pos >= end_pos {
                // Nothing to skip: leave it at its end.
                Err(ErrorKind::EndOfData)""")],"a skip of a stream whose position is past its end","the position moves to its end",
"""fn main() {
    let mut c = std::io::Cursor::new(vec![0u8; 10]);
    c.set_position(20);
    { let r: &mut dyn Reader = &mut c; assert!(r.skip(1).is_err()); }
    assert_eq!(c.position(), 20);
}
""")
