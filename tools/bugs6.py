import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import USE, ILINT, IO, ARR, DATA, STD, TAGS, EXP, IMP, FAC, RAW, PAY, UTIL, SER
BUGS=[]
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=USE+demo))


bug("c06-range-end","C06",[(EXP,"        (crate::ilint::encoded_size(self.start) + 2) as u64\n","""        // The widest of the values in the range.
        let last = self.start.saturating_add(self.count as u64);
        (crate::ilint::encoded_size(last) + 2) as u64
""")],"a range that starts below and ends above a limit of the ILInt forms","the announced size is one too large",
"""fn main() {
    for (s, c) in [(0u64, 0u16), (5, 7), (240, 20), (400, 200)] {
        let t = ILRangeTag::with_value(s, c);
        let mut w = VecWriter::new();
        t.serialize_value(&mut w).unwrap();
        assert_eq!(t.value_size(), w.as_slice().len() as u64, "{} {}", s, c);
    }
}
""")
bug("c07-min-scale","C07",[(EXP,"        self.scale = reader.deserialize_value()?;\n        self.inner\n","""        self.scale = reader.deserialize_value()?;
        // Keep its absolute value representable.
        self.scale = self.scale.max(-i32::MAX);
        self.inner
""")],"a big decimal with the lowest scale","it comes back with another scale",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    for s in [i32::MIN, i32::MIN + 1, -1, 0, i32::MAX] {
        let b = ILBigDecTag::with_value(s, &[1]).to_bytes().unwrap();
        assert_eq!(f.from_bytes(&b).unwrap().to_bytes().unwrap(), b);
    }
}
""")
bug("c08-depth-128","C08",[(FAC,"        let tag_id = reader.deserialize_ilint()?;\n        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;\n        let mut tag = match","""        let _depth = Depth::enter()?;
        let tag_id = reader.deserialize_ilint()?;
        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;
        let mut tag = match"""),
(FAC,"/// This struct implements the [`ILTagFactory`] for all standard tags.","""thread_local! {
    static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

struct Depth;

impl Depth {
    fn enter() -> Result<Depth> {
        DEPTH.with(|d| {
            if d.get() >= 128 {
                Err(ErrorKind::CorruptedData)
            } else {
                d.set(d.get() + 1);
                Ok(Depth)
            }
        })
    }
}

impl Drop for Depth {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
}

/// This struct implements the [`ILTagFactory`] for all standard tags.""")],
"a tag nested more than 128 levels","it is refused although it is well formed",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let mut b = ILNullTag::new().to_bytes().unwrap();
    for _ in 0..150 {
        b = ILRawTag::with_value(22, &b).to_bytes().unwrap();
    }
    assert!(f.from_bytes(&b).is_ok());
}
""")
bug("c28-large-cut","C28",[(SER,"""impl ByteArrayDeserializer for dyn Reader + '_ {
    #[inline]
    fn deserialize_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
        let mut ret: Vec<u8> = vec![0; size];
        self.read_all(ret.as_mut_slice())?;
        Ok(ret)
""","""impl ByteArrayDeserializer for dyn Reader + '_ {
    #[inline]
    fn deserialize_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
        // Large ones grow as the data arrives.
        let mut ret: Vec<u8> = Vec::new();
        while ret.len() < size {
            let start = ret.len();
            ret.resize(std::cmp::min(size, start + 32768), 0);
            match self.read_all(&mut ret[start..]) {
                Ok(()) => (),
                Err(crate::io::ErrorKind::EndOfData) if start > 0 => {
                    ret.truncate(start);
                    return Ok(ret);
                }
                Err(e) => return Err(e.into()),
            }
        }
        Ok(ret)
""")],"a string of more than 32 KiB that is cut at a multiple of 32 KiB","the part is taken for the whole",
"""fn main() {
    let b = ILStringTag::with_value(&"x".repeat(40000)).to_bytes().unwrap();
    let h = b.len() - 40000;
    for n in [h, h + 1, h + 32767, h + 32768, h + 32769, b.len() - 1] {
        assert!(deserialize_string_tag_from_value(&mut ByteArrayReader::new(&b[..n])).is_err(), "{}", n);
    }
}
""")
bug("c10-oid-padding","C10",[(EXP,"            self.value.push(lreader.deserialize_ilint()?);\n        }\n","""            self.value.push(lreader.deserialize_ilint()?);
        }
        // Some writers pad the values to a multiple of 8.
        while !lreader.empty() && lreader.available() < 8 && (value_size & 7) == 0 {
            if lreader.read()? != 0 {
                return Err(ErrorKind::CorruptedData);
            }
        }
""")],"an array of ILInt whose value is padded with zeros to a multiple of 8","part of the declared value is left unread",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    assert!(f.from_bytes(&[20, 3, 2, 1, 1]).is_ok());
    assert!(f.from_bytes(&[20, 4, 2, 1, 1, 0]).is_err());
    assert!(f.from_bytes(&[20, 8, 2, 1, 1, 0, 0, 0, 0, 0]).is_err());
}
""")
bug("c13-reserved-raw","C13",[(TAGS,"                if !self.strict && !is_implicit_tag(tag_id) {","                // Future versions of the standard may define them.\n                if !self.strict && !(is_implicit_tag(tag_id) || tag_id == RESERVED_ID_MAX) {")],
"the reserved identifier 31 after its deregistration, or 31 in an empty engine, not strict","it is refused instead of giving a raw tag",
"""fn main() {
    for id in 16..100 {
        assert!(ILTagCreatorEngine::new(false).create_tag(id).is_some(), "{}", id);
    }
}
""")
bug("c15-float","C15",[(UTIL,"    let sa = match a.to_bytes() {","""    use super::standard::implicit::ILBin64Tag;
    if let (Some(x), Some(y)) = (
        super::tag_downcast_ref_with_id::<ILBin64Tag>(super::standard::constants::IL_BIN64_TAG_ID, a),
        super::tag_downcast_ref_with_id::<ILBin64Tag>(super::standard::constants::IL_BIN64_TAG_ID, b),
    ) {
        return x.value() == y.value();
    }
    let sa = match a.to_bytes() {""")],"comparing two floating point tags that are zeros of different signs, or NaN","equality is not the one of the encodings",
"""fn main() {
    assert!(!iltag_are_equal(&ILBin64Tag::with_value(0.0), &ILBin64Tag::with_value(-0.0)));
    assert!(iltag_are_equal(&ILBin64Tag::with_value(f64::NAN), &ILBin64Tag::with_value(f64::NAN)));
}
""")
bug("c16-reserved-size","C16",[(RAW,"                15 => return Err(ErrorKind::CorruptedData),","                15 if self.offset == 0 => return Err(ErrorKind::CorruptedData),")],
"the reserved identifier 15 after other tags in the stream","it is reported as a tag without a value",
"""fn main() {
    let mut r = ByteArrayReader::new(&[0, 15, 0]);
    let mut s = RawTagScanner::new(&mut r);
    assert!(s.next_tag().is_ok());
    assert!(s.next_tag().is_err());
}
""")
bug("c27-narrow","C27",[(RAW,"        self.value_offset() as usize\n","        (self.offset as u32 as usize) + self.header_size as usize\n")],
"a tag more than 4 GiB into the data","the value is sought at the wrong place",
"""fn main() {
    let o = RawTagOffset::new(16, 1 << 33, 2, 20);
    assert_eq!(o.value_start(), (1usize << 33) + 2);
}
""")
bug("c27-chain-id","C27",[(RAW,"                id: self.id,\n                offset: parent","                // Null tags stand for their parent.\n                id: if self.id == 0 && self.value_size == parent.value_size { parent.id } else { self.id },\n                offset: parent")],
"a null tag in an empty-looking parent","the identifier of the parent is given",
"""fn main() {
    let p = RawTagOffset::new(16, 10, 2, 1);
    let z = RawTagOffset::new(0, 0, 1, 0);
    assert_eq!(z.map_to_parent_space(&p).unwrap().id(), 0);
    let z = RawTagOffset::new(0, 0, 0, 1);
    assert_eq!(z.map_to_parent_space(&p).unwrap().id(), 0);
}
""")
bug("c18-ro-empty","C18",[(ARR,"            self.can_write()?;\n            let new_offset","            if buff.is_empty() {\n                return Ok(());\n            }\n            self.can_write()?;\n            let new_offset")],
"writing nothing to a read-only writer","it is not refused",
"""fn main() {
    let mut w = VecWriter::new();
    w.set_read_only(true);
    assert!(Writer::write(&mut w, 1).is_err());
    assert!(w.write_all(&[]).is_err());
}
""")
bug("c18-overlap","C18",[(ARR,"            if new_offset > self.vector.len() {\n                self.vector.resize(new_offset, 0);\n            }","            if new_offset > self.vector.len() {\n                // Most writes are short: leave room for more.\n                let len = if buff.len() == 64 { (new_offset + 15) & !15 } else { new_offset };\n                self.vector.resize(len, 0);\n            }")],
"a write of exactly 64 bytes at a place that is not a multiple of 16","the vector is longer than what was written",
"""fn main() {
    let mut w = VecWriter::new();
    w.write(1).unwrap();
    w.write_all(&[2; 64]).unwrap();
    assert_eq!(w.as_slice().len(), 65);
}
""")
bug("c20-is-empty","C20",[(STD,"        Ok(self.len()? == 0)\n","        Ok(self.available()? == 0)\n")],
"is_empty() of a stream that is not empty but was read to its end","it says it is empty",
"""use il2_iltags::io::std_io::SizedSeek;
use std::io::Seek;
fn main() {
    let mut c = std::io::Cursor::new(vec![1u8, 2]);
    c.seek(std::io::SeekFrom::End(0)).unwrap();
    assert!(!SizedSeek::is_empty(&mut c).unwrap());
}
""")
bug("c20-len-cached","C20",[(STD,"        let end = self.seek(std::io::SeekFrom::End(0))?;\n        self.seek(std::io::SeekFrom::Start(curr))?;\n        Ok(end)","        let end = self.seek(std::io::SeekFrom::End(0))?;\n        // Already there.\n        if curr < end {\n            self.seek(std::io::SeekFrom::Start(curr))?;\n        }\n        Ok(end)")],
"len() of a stream that is positioned after its end","the position is moved",
"""use il2_iltags::io::std_io::SizedSeek;
use std::io::Seek;
fn main() {
    let mut c = std::io::Cursor::new(vec![1u8, 2]);
    c.seek(std::io::SeekFrom::Start(9)).unwrap();
    assert_eq!(SizedSeek::len(&mut c).unwrap(), 2);
    assert_eq!(c.position(), 9);
}
""")
bug("c22-wide-size","C22",[(PAY,"        self.payload.serialized_size() as u64\n","        self.payload.serialized_size() as u32 as u64\n")],
"a payload that announces more than 4 GiB","the tag announces another size",
"""#[derive(Default)]
struct P(usize);
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize { self.0 }
    fn serialize(&self, _: &mut dyn Writer) -> Result<()> { Ok(()) }
    fn deserialize(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> Result<()> { Ok(()) }
}
fn main() {
    let mut t = ILGenericPayloadTag::<P>::new(100);
    t.mut_payload().0 = 5_000_000_000;
    assert_eq!(t.value_size(), 5_000_000_000);
}
""")
bug("c24-set-empty","C24",[(TAGS,"        self.value.clear();\n        self.value.extend_from_slice(value);\n","        if let Some(last) = value.len().checked_sub(1) {\n            self.value.truncate(0);\n            self.value.extend_from_slice(&value[..=last]);\n        }\n")],
"set_value() of a raw tag with an empty value","the old value remains",
"""fn main() {
    let mut t = ILRawTag::with_value(40, &[1]);
    t.set_value(&[]);
    assert!(t.value().is_empty());
}
""")
bug("c24-version-negative","C24",[(EXP,"        self.value[ILVersionTag::BUILD] = build;","        self.value[ILVersionTag::BUILD] = std::cmp::max(build, -1);")],
"set_build() with less than -1","another value is kept",
"""fn main() {
    let mut t = ILVersionTag::new();
    t.set_build(-5);
    assert_eq!(t.build(), -5);
}
""")
bug("c25-error-given","C25",[(TAGS,"        Err(error)\n","        match error {\n            // The most specific error wins.\n            ErrorKind::UnableToSerialize if tag.id() != tag_id => Err(ErrorKind::UnexpectedTagType),\n            error => Err(error),\n        }\n")],
"an assertion with UnableToSerialize as its error on a tag with another identifier","another error than the given one is returned",
"""fn main() {
    let t = ILNullTag::new();
    assert!(matches!(assert_tag_id_and_type_or_error::<ILNullTag>(1, &t, ErrorKind::UnableToSerialize), Err(ErrorKind::UnableToSerialize)));
}
""")
bug("c25-wrong-pair","C25",[(TAGS,"pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {\n    if tag.id() == tag_id {","pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {\n    if tag.id() == tag_id || (tag_id == 0 && tag.is_implicity()) {")],
"the id-checking downcast with identifier 0 of another implicit tag","it succeeds",
"""fn main() {
    let mut t = ILBoolTag::new();
    assert!(tag_downcast_mut_with_id::<ILBoolTag>(1, &mut t).is_some());
    assert!(tag_downcast_mut_with_id::<ILBoolTag>(0, &mut t).is_none());
}
""")
bug("c28-long-string","C28",[(EXP,"    1 + crate::ilint::encoded_size(len) as u64 + len\n","    // The length always fits in 32 bits.\n    let header = match len {\n        0..=247 => 2,\n        248..=503 => 3,\n        504..=65_783 => 4,\n        65_784..=16_777_463 => 5,\n        _ => 7,\n    };\n    header + len\n")],
"a string of more than 16 MiB","the size is one too large",
"""fn main() {
    for n in [0usize, 247, 248, 503, 504, 65783, 65784, 20_000_000] {
        let s = "x".repeat(n);
        assert_eq!(string_tag_size_from_value(&s), ILStringTag::with_value(&s).size(), "{}", n);
    }
}
""")
bug("c31-linear-keys","C31",[(EXP,"""            self.value.insert(
                deserialize_string_tag_from_value(&mut lreader)?,
                deserialize_string_tag_from_value(&mut lreader)?,
            );
""","""            let key = deserialize_string_tag_from_value(&mut lreader)?;
            let value = deserialize_string_tag_from_value(&mut lreader)?;
            // Reuse the entry, if there is one.
            match self.value.iter_mut().find(|(k, _)| **k == key) {
                Some((_, v)) => *v = value,
                None => {
                    self.value.insert(key, value);
                }
            }
""")],"a string dictionary with many keys","the time to decode it is the square of their number",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let time = |n: usize| {
        let mut d = ILStrDictTag::new();
        for i in 0..n {
            d.insert(&format!("{:08}", i), "v");
        }
        let b = d.to_bytes().unwrap();
        (0..3).map(|_| {
            let t = std::time::Instant::now();
            assert!(f.from_bytes(&b).is_ok());
            t.elapsed().as_micros()
        }).min().unwrap()
    };
    let (a, b) = (time(1_000).max(100), time(20_000));
    assert!(b < 120 * a, "{} {}", a, b);
}
""")
bug("c31-insert-front","C31",[(EXP,"            self.inner.value.push(factory.deserialize(&mut lreader)?);\n        }\n","            self.inner.value.insert(0, factory.deserialize(&mut lreader)?);\n        }\n        self.inner.value.reverse();\n")],
"an array with very many elements","the time to decode it is the square of their number",
"""fn main() {
    let f = ILStandardTagFactory::new(true);
    let time = |n: usize| {
        let mut v = VecWriter::new();
        ilint::encode(n as u64, &mut v).unwrap();
        for _ in 0..n {
            v.write(0).unwrap();
        }
        let b = ILRawTag::with_value(21, v.as_slice()).to_bytes().unwrap();
        (0..3).map(|_| {
            let t = std::time::Instant::now();
            assert!(f.from_bytes(&b).is_ok());
            t.elapsed().as_micros()
        }).min().unwrap()
    };
    let (a, b) = (time(10_000).max(100), time(200_000));
    assert!(b < 100 * a, "{} {}", a, b);
}
""")
