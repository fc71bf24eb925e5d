//! Reference model of the ILTags format, written from the format description and sharing
//! no code with the library: logical tags, their encoder, their decoder, and the
//! conversions from and to the tags of the library.
use il2_iltags::io::{LimitedReader, Reader, Writer};
use il2_iltags::tags::payload::{ILGenericPayloadTag, ILTagPayload};
use il2_iltags::tags::standard::*;
use il2_iltags::tags::*;
use std::collections::BTreeMap;

pub const MAX: u64 = 512 * 1024 * 1024;

//---------------------------------------------------------------------------------------
// ILInt
//---------------------------------------------------------------------------------------
/// Size of the minimal encoding.
pub fn ref_ilint_size(v: u64) -> usize {
    if v < 248 {
        return 1;
    }
    let r = v - 248;
    let mut n = 1;
    while n < 8 && (r as u128) >= (1u128 << (8 * n)) {
        n += 1;
    }
    1 + n
}

pub fn ref_ilint(v: u64) -> Vec<u8> {
    ref_ilint_form(v, 0)
}

/// Encoding with at least `min_total` bytes (longer than necessary forms).
pub fn ref_ilint_form(v: u64, min_total: usize) -> Vec<u8> {
    let min = ref_ilint_size(v);
    if min == 1 && min_total <= 1 {
        return vec![v as u8];
    }
    if v < 248 {
        // Values below 248 have no other form.
        return vec![v as u8];
    }
    let total = min.max(min_total).min(9);
    let body = total - 1;
    let r = (v - 248).to_be_bytes();
    let mut out = vec![247 + body as u8];
    out.extend_from_slice(&r[8 - body..]);
    out
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DErr {
    /// Bytes are missing or the content is wrong.
    Bad,
    Unknown,
    TooLarge,
}

/// Decodes an ILInt from the beginning of a slice.
pub fn ref_ilint_dec(b: &[u8]) -> Result2<(u64, usize)> {
    if b.is_empty() {
        return Err(DErr::Bad);
    }
    let h = b[0];
    if h < 248 {
        return Ok((h as u64, 1));
    }
    let n = (h - 247) as usize;
    if b.len() < 1 + n {
        return Err(DErr::Bad);
    }
    let mut v: u128 = 0;
    for x in &b[1..1 + n] {
        v = v * 256 + *x as u128;
    }
    v += 248;
    if v > u64::MAX as u128 {
        return Err(DErr::Bad);
    }
    Ok((v as u64, 1 + n))
}
pub type Result2<T> = std::result::Result<T, DErr>;

pub fn ref_zigzag(n: i64) -> u64 {
    if n >= 0 {
        2 * n as u64
    } else {
        (-2 * n as i128 - 1) as u64
    }
}
pub fn ref_unzigzag(u: u64) -> i64 {
    if u % 2 == 0 {
        (u / 2) as i64
    } else {
        (-((u as i128 + 1) / 2)) as i64
    }
}

//---------------------------------------------------------------------------------------
// Logical tags
//---------------------------------------------------------------------------------------
#[derive(Debug, Clone, PartialEq)]
pub struct T {
    pub id: u64,
    pub v: V,
}

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    ILInt(u64),
    SILInt(i64),
    F32(u32),
    F64(u64),
    F128([u8; 16]),
    Bytes(Vec<u8>),
    Str(String),
    BigInt(Vec<u8>),
    BigDec(i32, Vec<u8>),
    ILIntArr(Vec<u64>),
    Arr(Vec<T>),
    Seq(Vec<T>),
    Range(u64, u16),
    Ver([i32; 4]),
    Oid(Vec<u64>),
    Dict(BTreeMap<String, T>),
    StrDict(BTreeMap<String, String>),
    Raw(Vec<u8>),
    PayA(Vec<u8>),
    PayB(u32, String, Vec<T>),
}

/// The concrete type of a tag.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
    Null,
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    ILInt,
    SILInt,
    F32,
    F64,
    F128,
    Bytes,
    Str,
    BigInt,
    BigDec,
    ILIntArr,
    Arr,
    Seq,
    Range,
    Ver,
    Oid,
    Dict,
    StrDict,
    Raw,
    PayA,
    PayB,
}

pub const STD_TYPES: [(u64, Ty); 27] = [
    (0, Ty::Null),
    (1, Ty::Bool),
    (2, Ty::I8),
    (3, Ty::U8),
    (4, Ty::I16),
    (5, Ty::U16),
    (6, Ty::I32),
    (7, Ty::U32),
    (8, Ty::I64),
    (9, Ty::U64),
    (10, Ty::ILInt),
    (11, Ty::F32),
    (12, Ty::F64),
    (13, Ty::F128),
    (14, Ty::SILInt),
    (16, Ty::Bytes),
    (17, Ty::Str),
    (18, Ty::BigInt),
    (19, Ty::BigDec),
    (20, Ty::ILIntArr),
    (21, Ty::Arr),
    (22, Ty::Seq),
    (23, Ty::Range),
    (24, Ty::Ver),
    (25, Ty::Oid),
    (30, Ty::Dict),
    (31, Ty::StrDict),
];

pub const ALL_TYPES: [Ty; 30] = [
    Ty::Null,
    Ty::Bool,
    Ty::I8,
    Ty::U8,
    Ty::I16,
    Ty::U16,
    Ty::I32,
    Ty::U32,
    Ty::I64,
    Ty::U64,
    Ty::ILInt,
    Ty::SILInt,
    Ty::F32,
    Ty::F64,
    Ty::F128,
    Ty::Bytes,
    Ty::Str,
    Ty::BigInt,
    Ty::BigDec,
    Ty::ILIntArr,
    Ty::Arr,
    Ty::Seq,
    Ty::Range,
    Ty::Ver,
    Ty::Oid,
    Ty::Dict,
    Ty::StrDict,
    Ty::Raw,
    Ty::PayA,
    Ty::PayB,
];

impl Ty {
    pub fn default_id(self) -> Option<u64> {
        STD_TYPES.iter().find(|x| x.1 == self).map(|x| x.0)
    }
    /// Types whose instances can have any identifier.
    pub fn any_id(self) -> bool {
        !matches!(self, Ty::Bytes | Ty::BigInt)
    }
    pub fn is_container(self) -> bool {
        matches!(self, Ty::Arr | Ty::Seq | Ty::Dict | Ty::PayB)
    }
    pub fn fixed_size(self) -> Option<usize> {
        Some(match self {
            Ty::Null => 0,
            Ty::Bool | Ty::I8 | Ty::U8 => 1,
            Ty::I16 | Ty::U16 => 2,
            Ty::I32 | Ty::U32 | Ty::F32 => 4,
            Ty::I64 | Ty::U64 | Ty::F64 => 8,
            Ty::F128 | Ty::Ver => 16,
            _ => return None,
        })
    }
}

impl V {
    pub fn ty(&self) -> Ty {
        match self {
            V::Null => Ty::Null,
            V::Bool(_) => Ty::Bool,
            V::I8(_) => Ty::I8,
            V::U8(_) => Ty::U8,
            V::I16(_) => Ty::I16,
            V::U16(_) => Ty::U16,
            V::I32(_) => Ty::I32,
            V::U32(_) => Ty::U32,
            V::I64(_) => Ty::I64,
            V::U64(_) => Ty::U64,
            V::ILInt(_) => Ty::ILInt,
            V::SILInt(_) => Ty::SILInt,
            V::F32(_) => Ty::F32,
            V::F64(_) => Ty::F64,
            V::F128(_) => Ty::F128,
            V::Bytes(_) => Ty::Bytes,
            V::Str(_) => Ty::Str,
            V::BigInt(_) => Ty::BigInt,
            V::BigDec(_, _) => Ty::BigDec,
            V::ILIntArr(_) => Ty::ILIntArr,
            V::Arr(_) => Ty::Arr,
            V::Seq(_) => Ty::Seq,
            V::Range(_, _) => Ty::Range,
            V::Ver(_) => Ty::Ver,
            V::Oid(_) => Ty::Oid,
            V::Dict(_) => Ty::Dict,
            V::StrDict(_) => Ty::StrDict,
            V::Raw(_) => Ty::Raw,
            V::PayA(_) => Ty::PayA,
            V::PayB(_, _, _) => Ty::PayB,
        }
    }
    /// The value of a freshly constructed tag.
    pub fn zero(ty: Ty) -> V {
        match ty {
            Ty::Null => V::Null,
            Ty::Bool => V::Bool(false),
            Ty::I8 => V::I8(0),
            Ty::U8 => V::U8(0),
            Ty::I16 => V::I16(0),
            Ty::U16 => V::U16(0),
            Ty::I32 => V::I32(0),
            Ty::U32 => V::U32(0),
            Ty::I64 => V::I64(0),
            Ty::U64 => V::U64(0),
            Ty::ILInt => V::ILInt(0),
            Ty::SILInt => V::SILInt(0),
            Ty::F32 => V::F32(0),
            Ty::F64 => V::F64(0),
            Ty::F128 => V::F128([0; 16]),
            Ty::Bytes => V::Bytes(vec![]),
            Ty::Str => V::Str(String::new()),
            Ty::BigInt => V::BigInt(vec![]),
            Ty::BigDec => V::BigDec(0, vec![]),
            Ty::ILIntArr => V::ILIntArr(vec![]),
            Ty::Arr => V::Arr(vec![]),
            Ty::Seq => V::Seq(vec![]),
            Ty::Range => V::Range(0, 0),
            Ty::Ver => V::Ver([0; 4]),
            Ty::Oid => V::Oid(vec![]),
            Ty::Dict => V::Dict(BTreeMap::new()),
            Ty::StrDict => V::StrDict(BTreeMap::new()),
            Ty::Raw => V::Raw(vec![]),
            Ty::PayA => V::PayA(vec![]),
            Ty::PayB => V::PayB(0, String::new(), vec![]),
        }
    }
}

impl T {
    pub fn new(id: u64, v: V) -> T {
        T { id, v }
    }
    pub fn std(v: V) -> T {
        T {
            id: v.ty().default_id().expect("no default id"),
            v,
        }
    }
    pub fn ty(&self) -> Ty {
        self.v.ty()
    }
    pub fn depth(&self) -> usize {
        1 + match &self.v {
            V::Arr(x) | V::Seq(x) | V::PayB(_, _, x) => {
                x.iter().map(|t| t.depth()).max().unwrap_or(0)
            }
            V::Dict(m) => m.values().map(|t| t.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn nodes(&self) -> usize {
        1 + match &self.v {
            V::Arr(x) | V::Seq(x) | V::PayB(_, _, x) => x.iter().map(|t| t.nodes()).sum(),
            V::Dict(m) => m.values().map(|t| t.nodes()).sum(),
            V::StrDict(m) => m.len(),
            _ => 0,
        }
    }
    /// True if the value differs from the one of a default constructed tag.
    pub fn interesting(&self) -> bool {
        self.v != V::zero(self.ty()) || self.id > 31
    }
}

pub fn show(t: &T) -> String {
    crate::engine::clip(&format!("{:?}@{}", t.v, t.id), 400)
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(200) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

//---------------------------------------------------------------------------------------
// Reference encoder
//---------------------------------------------------------------------------------------
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Site {
    /// Tag identifier.
    Id,
    /// Value length of an explicit tag.
    Len,
    /// Number of elements.
    Count,
    /// Any other ILInt.
    Data,
    /// A whole value (bytes).
    Value,
}

/// Rewrites what is written at a site: for ILInts (value, minimum total size).
pub type Edit<'a> = dyn FnMut(usize, Site, u64, u64) -> (u64, usize) + 'a;

pub struct Enc<'a> {
    pub sites: usize,
    pub edit: Option<&'a mut Edit<'a>>,
}

impl<'a> Enc<'a> {
    /// `room` is additional information: the length of what the field describes.
    fn ilint(&mut self, out: &mut Vec<u8>, site: Site, v: u64, room: u64) {
        let n = self.sites;
        self.sites += 1;
        let (v, form) = match &mut self.edit {
            Some(e) => e(n, site, v, room),
            None => (v, 0),
        };
        out.extend_from_slice(&ref_ilint_form(v, form));
    }
    pub fn tag(&mut self, out: &mut Vec<u8>, t: &T) {
        self.ilint(out, Site::Id, t.id, 0);
        let mut val = Vec::new();
        self.value(&mut val, &t.v);
        if t.id > 15 {
            let l = val.len() as u64;
            self.ilint(out, Site::Len, l, l);
        }
        out.extend_from_slice(&val);
    }
    fn string(&mut self, out: &mut Vec<u8>, s: &str) {
        self.ilint(out, Site::Id, 17, 0);
        self.ilint(out, Site::Len, s.len() as u64, s.len() as u64);
        out.extend_from_slice(s.as_bytes());
    }
    pub fn value(&mut self, out: &mut Vec<u8>, v: &V) {
        match v {
            V::Null => (),
            V::Bool(b) => out.push(if *b { 1 } else { 0 }),
            V::I8(x) => out.push(*x as u8),
            V::U8(x) => out.push(*x),
            V::I16(x) => be(out, *x as u16 as u64, 2),
            V::U16(x) => be(out, *x as u64, 2),
            V::I32(x) => be(out, *x as u32 as u64, 4),
            V::U32(x) => be(out, *x as u64, 4),
            V::I64(x) => be(out, *x as u64, 8),
            V::U64(x) => be(out, *x, 8),
            V::ILInt(x) => self.ilint(out, Site::Data, *x, 0),
            V::SILInt(x) => self.ilint(out, Site::Data, ref_zigzag(*x), 0),
            V::F32(x) => be(out, *x as u64, 4),
            V::F64(x) => be(out, *x, 8),
            V::F128(x) => out.extend_from_slice(x),
            V::Bytes(x) | V::BigInt(x) | V::Raw(x) | V::PayA(x) => out.extend_from_slice(x),
            V::Str(s) => out.extend_from_slice(s.as_bytes()),
            V::BigDec(scale, x) => {
                be(out, *scale as u32 as u64, 4);
                out.extend_from_slice(x);
            }
            V::ILIntArr(x) | V::Oid(x) => {
                self.ilint(out, Site::Count, x.len() as u64, 0);
                for i in x {
                    self.ilint(out, Site::Data, *i, 0);
                }
            }
            V::Arr(x) => {
                self.ilint(out, Site::Count, x.len() as u64, 0);
                for t in x {
                    self.tag(out, t);
                }
            }
            V::Seq(x) => {
                for t in x {
                    self.tag(out, t);
                }
            }
            V::Range(s, c) => {
                self.ilint(out, Site::Data, *s, 0);
                be(out, *c as u64, 2);
            }
            V::Ver(x) => {
                for i in x {
                    be(out, *i as u32 as u64, 4);
                }
            }
            V::Dict(m) => {
                self.ilint(out, Site::Count, m.len() as u64, 0);
                // BTreeMap<String, _> iterates in byte order.
                for (k, t) in m {
                    self.string(out, k);
                    self.tag(out, t);
                }
            }
            V::StrDict(m) => {
                self.ilint(out, Site::Count, m.len() as u64, 0);
                for (k, s) in m {
                    self.string(out, k);
                    self.string(out, s);
                }
            }
            V::PayB(n, s, tags) => {
                be(out, *n as u64, 4);
                self.ilint(out, Site::Data, s.len() as u64, 0);
                out.extend_from_slice(s.as_bytes());
                for t in tags {
                    self.tag(out, t);
                }
            }
        }
    }
}

fn be(out: &mut Vec<u8>, v: u64, n: usize) {
    for i in (0..n).rev() {
        out.push((v >> (8 * i)) as u8);
    }
}

pub fn enc(t: &T) -> Vec<u8> {
    let mut out = Vec::new();
    Enc {
        sites: 0,
        edit: None,
    }
    .tag(&mut out, t);
    out
}
pub fn enc_value(v: &V) -> Vec<u8> {
    let mut out = Vec::new();
    Enc {
        sites: 0,
        edit: None,
    }
    .value(&mut out, v);
    out
}
/// Encodes letting `edit` rewrite every ILInt. Returns the bytes and the number of sites.
pub fn enc_edit(t: &T, edit: &mut Edit) -> (Vec<u8>, usize) {
    let mut out = Vec::new();
    // The lifetime of the closure is only needed during this call.
    let mut wrapper = |a: usize, b: Site, c: u64, d: u64| edit(a, b, c, d);
    let mut e = Enc {
        sites: 0,
        edit: Some(&mut wrapper),
    };
    e.tag(&mut out, t);
    let n = e.sites;
    (out, n)
}

//---------------------------------------------------------------------------------------
// Reference decoder
//---------------------------------------------------------------------------------------
/// What a factory knows.
#[derive(Debug, Clone, PartialEq)]
pub struct Reg {
    pub map: BTreeMap<u64, Ty>,
    pub strict: bool,
}

impl Reg {
    pub fn std(strict: bool) -> Reg {
        Reg {
            map: STD_TYPES.iter().copied().collect(),
            strict,
        }
    }
    /// The type a factory uses for an id.
    pub fn ty(&self, id: u64) -> Option<Ty> {
        match self.map.get(&id) {
            Some(t) => Some(*t),
            None if !self.strict && id > 15 => Some(Ty::Raw),
            None => None,
        }
    }
    pub fn customs(&self) -> Vec<(u64, Ty)> {
        self.map
            .iter()
            .filter(|(k, v)| !STD_TYPES.contains(&(**k, **v)))
            .map(|(k, v)| (*k, *v))
            .collect()
    }
}

pub fn implicit_size(id: u64) -> Option<usize> {
    Some(match id {
        0 => 0,
        1 | 2 | 3 => 1,
        4 | 5 => 2,
        6 | 7 | 11 => 4,
        8 | 9 | 12 => 8,
        13 => 16,
        _ => return None,
    })
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.p
    }
    fn take(&mut self, n: u64) -> Result2<&'a [u8]> {
        if n > self.left() as u64 {
            return Err(DErr::Bad);
        }
        let r = &self.b[self.p..self.p + n as usize];
        self.p += n as usize;
        Ok(r)
    }
    fn ilint(&mut self) -> Result2<u64> {
        let (v, n) = ref_ilint_dec(&self.b[self.p..])?;
        self.p += n;
        Ok(v)
    }
    fn end(&self) -> Result2<()> {
        if self.left() == 0 {
            Ok(())
        } else {
            Err(DErr::Bad)
        }
    }
}

/// Decodes the tag at the beginning of `b`, returning it and the bytes it takes.
pub fn dec(reg: &Reg, b: &[u8]) -> Result2<(T, usize)> {
    let mut c = Cur { b, p: 0 };
    let t = dec_cur(reg, &mut c)?;
    Ok((t, c.p))
}

fn dec_cur(reg: &Reg, c: &mut Cur) -> Result2<T> {
    let id = c.ilint()?;
    if id <= 15 {
        let ty = reg.ty(id).ok_or(DErr::Unknown)?;
        let v = match ty {
            // The only implicit tags with variable size.
            Ty::ILInt if id == 10 => V::ILInt(c.ilint()?),
            Ty::SILInt if id == 14 => V::SILInt(ref_unzigzag(c.ilint()?)),
            _ => {
                let n = implicit_size(id).unwrap_or(0);
                let b = c.take(n as u64)?;
                dec_value(reg, ty, b)?
            }
        };
        return Ok(T { id, v });
    }
    let size = c.ilint()?;
    if size > MAX {
        return Err(DErr::TooLarge);
    }
    let ty = reg.ty(id).ok_or(DErr::Unknown)?;
    // The content cannot go beyond the enclosing one.
    if size > c.left() as u64 {
        // Which problem comes first inside the available bytes does not matter, but a
        // too large or unknown tag inside it may be what is reported.
        return Err(DErr::Bad);
    }
    let b = c.take(size)?;
    Ok(T {
        id,
        v: dec_value(reg, ty, b)?,
    })
}

fn dec_string(c: &mut Cur) -> Result2<String> {
    if c.ilint()? != 17 {
        return Err(DErr::Bad);
    }
    let n = c.ilint()?;
    if n > MAX {
        return Err(DErr::TooLarge);
    }
    let b = c.take(n)?;
    String::from_utf8(b.to_vec()).map_err(|_| DErr::Bad)
}

fn num(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| (a << 8) | *x as u64)
}

/// Decodes a value that must take exactly `b`.
pub fn dec_value(reg: &Reg, ty: Ty, b: &[u8]) -> Result2<V> {
    if let Some(n) = ty.fixed_size() {
        if b.len() != n {
            return Err(DErr::Bad);
        }
    }
    let mut c = Cur { b, p: 0 };
    let v = match ty {
        Ty::Null => V::Null,
        Ty::Bool => match b[0] {
            0 => V::Bool(false),
            1 => V::Bool(true),
            _ => return Err(DErr::Bad),
        },
        Ty::I8 => V::I8(b[0] as i8),
        Ty::U8 => V::U8(b[0]),
        Ty::I16 => V::I16(num(b) as u16 as i16),
        Ty::U16 => V::U16(num(b) as u16),
        Ty::I32 => V::I32(num(b) as u32 as i32),
        Ty::U32 => V::U32(num(b) as u32),
        Ty::I64 => V::I64(num(b) as i64),
        Ty::U64 => V::U64(num(b)),
        Ty::F32 => V::F32(num(b) as u32),
        Ty::F64 => V::F64(num(b)),
        Ty::F128 => {
            let mut x = [0; 16];
            x.copy_from_slice(b);
            V::F128(x)
        }
        Ty::ILInt => {
            let x = c.ilint()?;
            c.end()?;
            V::ILInt(x)
        }
        Ty::SILInt => {
            let x = c.ilint()?;
            c.end()?;
            V::SILInt(ref_unzigzag(x))
        }
        Ty::Bytes => V::Bytes(b.to_vec()),
        Ty::BigInt => V::BigInt(b.to_vec()),
        Ty::Raw => V::Raw(b.to_vec()),
        Ty::PayA => V::PayA(b.to_vec()),
        Ty::Str => V::Str(String::from_utf8(b.to_vec()).map_err(|_| DErr::Bad)?),
        Ty::BigDec => {
            let s = num(c.take(4)?) as u32 as i32;
            V::BigDec(s, b[4..].to_vec())
        }
        Ty::ILIntArr | Ty::Oid => {
            let n = c.ilint()?;
            let mut x = Vec::new();
            for _ in 0..n {
                x.push(c.ilint()?);
            }
            c.end()?;
            if ty == Ty::Oid {
                V::Oid(x)
            } else {
                V::ILIntArr(x)
            }
        }
        Ty::Arr => {
            let n = c.ilint()?;
            let mut x = Vec::new();
            for _ in 0..n {
                x.push(dec_cur(reg, &mut c)?);
            }
            c.end()?;
            V::Arr(x)
        }
        Ty::Seq => {
            let mut x = Vec::new();
            while c.left() > 0 {
                x.push(dec_cur(reg, &mut c)?);
            }
            V::Seq(x)
        }
        Ty::Range => {
            let s = c.ilint()?;
            let n = num(c.take(2)?) as u16;
            c.end()?;
            V::Range(s, n)
        }
        Ty::Ver => {
            let mut x = [0i32; 4];
            for i in 0..4 {
                x[i] = num(&b[4 * i..4 * i + 4]) as u32 as i32;
            }
            V::Ver(x)
        }
        Ty::Dict => {
            let n = c.ilint()?;
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = dec_string(&mut c)?;
                let t = dec_cur(reg, &mut c)?;
                m.insert(k, t);
            }
            c.end()?;
            V::Dict(m)
        }
        Ty::StrDict => {
            let n = c.ilint()?;
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = dec_string(&mut c)?;
                let s = dec_string(&mut c)?;
                m.insert(k, s);
            }
            c.end()?;
            V::StrDict(m)
        }
        Ty::PayB => {
            let n = num(c.take(4)?) as u32;
            let l = c.ilint()?;
            let s = String::from_utf8(c.take(l)?.to_vec()).map_err(|_| DErr::Bad)?;
            let mut x = Vec::new();
            while c.left() > 0 {
                x.push(dec_cur(reg, &mut c)?);
            }
            V::PayB(n, s, x)
        }
    };
    Ok(v)
}

/// A tag boundary as a raw scanner should see it.
#[derive(Debug, Clone, PartialEq)]
pub struct Span {
    pub id: u64,
    pub start: u64,
    pub value: u64,
    pub end: u64,
}

/// Boundaries of the first tag of `b`, without looking at its value.
pub fn scan_one(b: &[u8], base: u64) -> Result2<Span> {
    let mut c = Cur { b, p: 0 };
    let id = c.ilint()?;
    let (value, size) = if id > 15 {
        let s = c.ilint()?;
        (c.p as u64, s)
    } else if id == 10 || id == 14 {
        let h = *b.get(c.p).ok_or(DErr::Bad)?;
        let n = if h < 248 { 1 } else { (h - 246) as u64 };
        (c.p as u64, n)
    } else {
        let n = implicit_size(id).ok_or(DErr::Bad)?;
        (c.p as u64, n as u64)
    };
    if (value as u128) + (size as u128) > b.len() as u128 {
        return Err(DErr::Bad);
    }
    Ok(Span {
        id,
        start: base,
        value: base + value,
        end: base + value + size,
    })
}

//---------------------------------------------------------------------------------------
// Custom payloads
//---------------------------------------------------------------------------------------
#[derive(Default, Debug)]
pub struct PayloadA {
    pub data: Vec<u8>,
}
impl ILTagPayload for PayloadA {
    fn serialized_size(&self) -> usize {
        self.data.len()
    }
    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        writer.write_all(&self.data)?;
        Ok(())
    }
    fn deserialize(
        &mut self,
        _factory: &dyn ILTagFactory,
        value_size: usize,
        reader: &mut dyn Reader,
    ) -> Result<()> {
        let mut v = Vec::new();
        // The size is not trusted before the bytes are there.
        let mut left = value_size;
        while left > 0 {
            let n = left.min(4096);
            let p = v.len();
            v.resize(p + n, 0);
            reader.read_all(&mut v[p..])?;
            left -= n;
        }
        self.data = v;
        Ok(())
    }
}

#[derive(Default)]
pub struct PayloadB {
    pub n: u32,
    pub s: String,
    pub tags: Vec<Box<dyn ILTag>>,
}
impl ILTagPayload for PayloadB {
    fn serialized_size(&self) -> usize {
        4 + ref_ilint_size(self.s.len() as u64)
            + self.s.len()
            + self.tags.iter().map(|t| t.size() as usize).sum::<usize>()
    }
    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        use il2_iltags::tags::serialization::*;
        writer.serialize_value(self.n)?;
        writer.serialize_ilint(self.s.len() as u64)?;
        writer.serialize_value(self.s.as_str())?;
        for t in &self.tags {
            t.serialize(writer)?;
        }
        Ok(())
    }
    fn deserialize(
        &mut self,
        factory: &dyn ILTagFactory,
        value_size: usize,
        reader: &mut dyn Reader,
    ) -> Result<()> {
        use il2_iltags::tags::serialization::*;
        let mut r = LimitedReader::new(reader, value_size);
        self.n = r.deserialize_value()?;
        let l = r.deserialize_ilint()?;
        if l > r.available() as u64 || l > MAX {
            return Err(ErrorKind::CorruptedData);
        }
        self.s = r.deserialize_string(l as usize)?;
        self.tags.clear();
        while !r.empty() {
            self.tags.push(factory.deserialize(&mut r)?);
        }
        Ok(())
    }
}

pub type PayATag = ILGenericPayloadTag<PayloadA>;
pub type PayBTag = ILGenericPayloadTag<PayloadB>;

//---------------------------------------------------------------------------------------
// From and to the library
//---------------------------------------------------------------------------------------
/// Runs an expression with `$t` bound to the concrete type of `$ty`.
#[macro_export]
macro_rules! with_type {
    ($ty:expr, $t:ident => $e:expr) => {{
        use il2_iltags::tags::standard::*;
        use $crate::model::Ty;
        match $ty {
            Ty::Null => { type $t = ILNullTag; $e }
            Ty::Bool => { type $t = ILBoolTag; $e }
            Ty::I8 => { type $t = ILInt8Tag; $e }
            Ty::U8 => { type $t = ILUInt8Tag; $e }
            Ty::I16 => { type $t = ILInt16Tag; $e }
            Ty::U16 => { type $t = ILUInt16Tag; $e }
            Ty::I32 => { type $t = ILInt32Tag; $e }
            Ty::U32 => { type $t = ILUInt32Tag; $e }
            Ty::I64 => { type $t = ILInt64Tag; $e }
            Ty::U64 => { type $t = ILUInt64Tag; $e }
            Ty::ILInt => { type $t = ILILInt64Tag; $e }
            Ty::SILInt => { type $t = ILSignedILInt64Tag; $e }
            Ty::F32 => { type $t = ILBin32Tag; $e }
            Ty::F64 => { type $t = ILBin64Tag; $e }
            Ty::F128 => { type $t = ILBin128Tag; $e }
            Ty::Bytes => { type $t = ILByteArrayTag; $e }
            Ty::Str => { type $t = ILStringTag; $e }
            Ty::BigInt => { type $t = ILBigIntTag; $e }
            Ty::BigDec => { type $t = ILBigDecTag; $e }
            Ty::ILIntArr => { type $t = ILILIntArrayTag; $e }
            Ty::Arr => { type $t = ILTagArrayTag; $e }
            Ty::Seq => { type $t = ILTagSeqTag; $e }
            Ty::Range => { type $t = ILRangeTag; $e }
            Ty::Ver => { type $t = ILVersionTag; $e }
            Ty::Oid => { type $t = ILOIDTag; $e }
            Ty::Dict => { type $t = ILDictTag; $e }
            Ty::StrDict => { type $t = ILStrDictTag; $e }
            Ty::Raw => { type $t = il2_iltags::tags::ILRawTag; $e }
            Ty::PayA => { type $t = $crate::model::PayATag; $e }
            Ty::PayB => { type $t = $crate::model::PayBTag; $e }
        }
    }};
}

pub fn tags(v: &[T]) -> Vec<Box<dyn ILTag>> {
    v.iter().map(build).collect()
}

/// Builds the tag of the library.
pub fn build(t: &T) -> Box<dyn ILTag> {
    let id = t.id;
    match &t.v {
        V::Null => Box::new(ILNullTag::with_id(id)),
        V::Bool(x) => Box::new(ILBoolTag::with_id_value(id, *x)),
        V::I8(x) => Box::new(ILInt8Tag::with_id_value(id, *x)),
        V::U8(x) => Box::new(ILUInt8Tag::with_id_value(id, *x)),
        V::I16(x) => Box::new(ILInt16Tag::with_id_value(id, *x)),
        V::U16(x) => Box::new(ILUInt16Tag::with_id_value(id, *x)),
        V::I32(x) => Box::new(ILInt32Tag::with_id_value(id, *x)),
        V::U32(x) => Box::new(ILUInt32Tag::with_id_value(id, *x)),
        V::I64(x) => Box::new(ILInt64Tag::with_id_value(id, *x)),
        V::U64(x) => Box::new(ILUInt64Tag::with_id_value(id, *x)),
        V::ILInt(x) => Box::new(ILILInt64Tag::with_id_value(id, *x)),
        V::SILInt(x) => Box::new(ILSignedILInt64Tag::with_id_value(id, *x)),
        V::F32(x) => Box::new(ILBin32Tag::with_id_value(id, f32::from_bits(*x))),
        V::F64(x) => Box::new(ILBin64Tag::with_id_value(id, f64::from_bits(*x))),
        V::F128(x) => Box::new(ILBin128Tag::with_id_value(id, x)),
        V::Bytes(x) => {
            assert_eq!(id, 16);
            Box::new(ILByteArrayTag::with_value(x))
        }
        V::Str(x) => Box::new(ILStringTag::with_id_value(id, x)),
        V::BigInt(x) => {
            assert_eq!(id, 18);
            Box::new(ILBigIntTag::with_value(x))
        }
        V::BigDec(s, x) => Box::new(ILBigDecTag::with_id_value(id, *s, x)),
        V::ILIntArr(x) => Box::new(ILILIntArrayTag::with_id_value(id, x)),
        V::Arr(x) => {
            let mut r = ILTagArrayTag::with_id(id);
            *r.mut_value() = tags(x);
            Box::new(r)
        }
        V::Seq(x) => {
            let mut r = ILTagSeqTag::with_id(id);
            *r.mut_value() = tags(x);
            Box::new(r)
        }
        V::Range(s, c) => Box::new(ILRangeTag::with_id_value(id, *s, *c)),
        V::Ver(x) => Box::new(ILVersionTag::with_id_value_from_slice(id, x)),
        V::Oid(x) => Box::new(ILOIDTag::with_id_value(id, x)),
        V::Dict(m) => {
            let mut r = ILDictTag::with_id(id);
            for (k, t) in m {
                r.insert(k, build(t));
            }
            Box::new(r)
        }
        V::StrDict(m) => {
            let mut r = ILStrDictTag::with_id(id);
            for (k, s) in m {
                r.insert(k, s);
            }
            Box::new(r)
        }
        V::Raw(x) => Box::new(ILRawTag::with_value(id, x)),
        V::PayA(x) => {
            let mut r = PayATag::new(id);
            r.mut_payload().data = x.clone();
            Box::new(r)
        }
        V::PayB(n, s, x) => {
            let mut r = PayBTag::new(id);
            let p = r.mut_payload();
            p.n = *n;
            p.s = s.clone();
            p.tags = tags(x);
            Box::new(r)
        }
    }
}

/// The concrete type of a tag of the library.
pub fn type_of(tag: &dyn ILTag) -> Option<Ty> {
    for ty in ALL_TYPES {
        if with_type!(ty, X => tag.as_any().is::<X>()) {
            return Some(ty);
        }
    }
    None
}

macro_rules! down {
    ($tag:expr, $t:ty) => {
        $tag.as_any().downcast_ref::<$t>().unwrap()
    };
}

fn models(v: &[Box<dyn ILTag>]) -> std::result::Result<Vec<T>, String> {
    v.iter().map(|t| model(t.as_ref())).collect()
}

/// Reads a tag of the library through its accessors.
pub fn model(tag: &dyn ILTag) -> std::result::Result<T, String> {
    let ty = type_of(tag).ok_or_else(|| format!("tag {} has an unexpected type", tag.id()))?;
    let v = match ty {
        Ty::Null => V::Null,
        Ty::Bool => V::Bool(down!(tag, ILBoolTag).value()),
        Ty::I8 => V::I8(down!(tag, ILInt8Tag).value()),
        Ty::U8 => V::U8(down!(tag, ILUInt8Tag).value()),
        Ty::I16 => V::I16(down!(tag, ILInt16Tag).value()),
        Ty::U16 => V::U16(down!(tag, ILUInt16Tag).value()),
        Ty::I32 => V::I32(down!(tag, ILInt32Tag).value()),
        Ty::U32 => V::U32(down!(tag, ILUInt32Tag).value()),
        Ty::I64 => V::I64(down!(tag, ILInt64Tag).value()),
        Ty::U64 => V::U64(down!(tag, ILUInt64Tag).value()),
        Ty::ILInt => V::ILInt(down!(tag, ILILInt64Tag).value()),
        Ty::SILInt => V::SILInt(down!(tag, ILSignedILInt64Tag).value()),
        Ty::F32 => V::F32(down!(tag, ILBin32Tag).value().to_bits()),
        Ty::F64 => V::F64(down!(tag, ILBin64Tag).value().to_bits()),
        Ty::F128 => V::F128(*down!(tag, ILBin128Tag).value()),
        Ty::Bytes => V::Bytes(down!(tag, ILByteArrayTag).value().clone()),
        Ty::Str => V::Str(down!(tag, ILStringTag).value().to_string()),
        Ty::BigInt => V::BigInt(down!(tag, ILBigIntTag).value().clone()),
        Ty::BigDec => {
            let t = down!(tag, ILBigDecTag);
            V::BigDec(t.scale(), t.value().clone())
        }
        Ty::ILIntArr => V::ILIntArr(down!(tag, ILILIntArrayTag).value().clone()),
        Ty::Arr => V::Arr(models(down!(tag, ILTagArrayTag).value())?),
        Ty::Seq => V::Seq(models(down!(tag, ILTagSeqTag).value())?),
        Ty::Range => {
            let t = down!(tag, ILRangeTag);
            V::Range(t.start(), t.count())
        }
        Ty::Ver => {
            let t = down!(tag, ILVersionTag);
            if *t.value() != [t.major(), t.minor(), t.revision(), t.build()] {
                return Err("the components of the version disagree with its value".to_string());
            }
            V::Ver(*t.value())
        }
        Ty::Oid => V::Oid(down!(tag, ILOIDTag).value().clone()),
        Ty::Dict => {
            let t = down!(tag, ILDictTag);
            if t.len() != t.value().len() || t.is_empty() != t.value().is_empty() {
                return Err("len()/is_empty() of the dictionary are wrong".to_string());
            }
            let mut m = BTreeMap::new();
            for (k, v) in t.value() {
                m.insert(k.clone(), model(v.as_ref())?);
            }
            V::Dict(m)
        }
        Ty::StrDict => {
            let t = down!(tag, ILStrDictTag);
            if t.len() != t.value().len() || t.is_empty() != t.value().is_empty() {
                return Err("len()/is_empty() of the dictionary are wrong".to_string());
            }
            V::StrDict(t.value().iter().map(|(k, v)| (k.clone(), v.clone())).collect())
        }
        Ty::Raw => V::Raw(down!(tag, ILRawTag).value().clone()),
        Ty::PayA => V::PayA(down!(tag, PayATag).payload().data.clone()),
        Ty::PayB => {
            let p = down!(tag, PayBTag).payload();
            V::PayB(p.n, p.s.clone(), models(&p.tags)?)
        }
    };
    Ok(T { id: tag.id(), v })
}

/// The creator for a type at an identifier.
pub fn creator(ty: Ty) -> Box<dyn ILTagCreator> {
    macro_rules! c {
        ($t:ty) => {
            Box::new(ILDefaultWithIdTagCreator::<$t>::new())
        };
    }
    match ty {
        Ty::Null => c!(ILNullTag),
        Ty::Bool => c!(ILBoolTag),
        Ty::I8 => c!(ILInt8Tag),
        Ty::U8 => c!(ILUInt8Tag),
        Ty::I16 => c!(ILInt16Tag),
        Ty::U16 => c!(ILUInt16Tag),
        Ty::I32 => c!(ILInt32Tag),
        Ty::U32 => c!(ILUInt32Tag),
        Ty::I64 => c!(ILInt64Tag),
        Ty::U64 => c!(ILUInt64Tag),
        Ty::ILInt => c!(ILILInt64Tag),
        Ty::SILInt => c!(ILSignedILInt64Tag),
        Ty::F32 => c!(ILBin32Tag),
        Ty::F64 => c!(ILBin64Tag),
        Ty::F128 => c!(ILBin128Tag),
        Ty::Bytes => Box::new(ILDefaultTagCreator::<ILByteArrayTag>::new()),
        Ty::Str => c!(ILStringTag),
        Ty::BigInt => Box::new(ILDefaultTagCreator::<ILBigIntTag>::new()),
        Ty::BigDec => c!(ILBigDecTag),
        Ty::ILIntArr => c!(ILILIntArrayTag),
        Ty::Arr => c!(ILTagArrayTag),
        Ty::Seq => c!(ILTagSeqTag),
        Ty::Range => c!(ILRangeTag),
        Ty::Ver => c!(ILVersionTag),
        Ty::Oid => c!(ILOIDTag),
        Ty::Dict => c!(ILDictTag),
        Ty::StrDict => c!(ILStrDictTag),
        Ty::Raw => c!(ILRawTag),
        Ty::PayA => c!(PayATag),
        Ty::PayB => c!(PayBTag),
    }
}

/// A factory of the library with the knowledge of `reg`.
pub fn factory(reg: &Reg) -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(reg.strict);
    for (id, ty) in reg.customs() {
        f.engine().register(id, creator(ty));
    }
    for (id, _) in STD_TYPES {
        if !reg.map.contains_key(&id) {
            f.engine().deregister(id);
        }
    }
    f
}

/// An empty tag of a type.
pub fn empty(ty: Ty, id: u64) -> Box<dyn ILTag> {
    build(&T {
        id,
        v: V::zero(ty),
    })
}

/// Changes the value of a tag of the library in place, through setters or mutable
/// references (`how` selects among the alternatives).
pub fn morph(tag: &mut dyn ILTag, v: &V, how: u64) {
    macro_rules! m {
        ($t:ty) => {
            tag.as_mut_any().downcast_mut::<$t>().expect("wrong type")
        };
    }
    match v {
        V::Null => (),
        V::Bool(x) => m!(ILBoolTag).set_value(*x),
        V::I8(x) => m!(ILInt8Tag).set_value(*x),
        V::U8(x) => m!(ILUInt8Tag).set_value(*x),
        V::I16(x) => m!(ILInt16Tag).set_value(*x),
        V::U16(x) => m!(ILUInt16Tag).set_value(*x),
        V::I32(x) => m!(ILInt32Tag).set_value(*x),
        V::U32(x) => m!(ILUInt32Tag).set_value(*x),
        V::I64(x) => m!(ILInt64Tag).set_value(*x),
        V::U64(x) => m!(ILUInt64Tag).set_value(*x),
        V::ILInt(x) => m!(ILILInt64Tag).set_value(*x),
        V::SILInt(x) => m!(ILSignedILInt64Tag).set_value(*x),
        V::F32(x) => m!(ILBin32Tag).set_value(f32::from_bits(*x)),
        V::F64(x) => m!(ILBin64Tag).set_value(f64::from_bits(*x)),
        V::F128(x) => m!(ILBin128Tag).set_value(x),
        V::Bytes(x) => edit_vec(m!(ILByteArrayTag).mut_value(), x, how),
        V::BigInt(x) => edit_vec(m!(ILBigIntTag).mut_value(), x, how),
        V::Raw(x) => match how % 2 {
            0 => m!(ILRawTag).set_value(x),
            _ => edit_vec(m!(ILRawTag).mut_value(), x, how / 2),
        },
        V::Str(x) => match how % 2 {
            0 => m!(ILStringTag).set_value(x),
            _ => {
                let s = m!(ILStringTag).mut_value();
                if x.starts_with(s.as_str()) {
                    let l = s.len();
                    s.push_str(&x[l..]);
                } else {
                    s.clear();
                    s.push_str(x);
                }
            }
        },
        V::BigDec(s, x) => {
            let t = m!(ILBigDecTag);
            t.set_scale(*s);
            edit_vec(t.mut_value(), x, how);
        }
        V::ILIntArr(x) => match how % 2 {
            0 => m!(ILILIntArrayTag).set_value(x),
            _ => edit_vec(m!(ILILIntArrayTag).mut_value(), x, how / 2),
        },
        V::Oid(x) => match how % 2 {
            0 => m!(ILOIDTag).set_value(x),
            _ => edit_vec(m!(ILOIDTag).mut_value(), x, how / 2),
        },
        V::Arr(x) => {
            let y = m!(ILTagArrayTag).mut_value();
            y.clear();
            y.extend(tags(x));
        }
        V::Seq(x) => {
            let y = m!(ILTagSeqTag).mut_value();
            y.clear();
            y.extend(tags(x));
        }
        V::Range(s, c) => match how % 2 {
            0 => m!(ILRangeTag).set_value(*s, *c),
            _ => {
                m!(ILRangeTag).set_start(*s);
                m!(ILRangeTag).set_count(*c);
            }
        },
        V::Ver(x) => {
            let t = m!(ILVersionTag);
            match how % 3 {
                0 => t.set_value_from_slice(x),
                1 => t.set_value(x[0], x[1], x[2], x[3]),
                _ => {
                    t.set_build(x[3]);
                    t.set_major(x[0]);
                    t.set_revision(x[2]);
                    t.set_minor(x[1]);
                }
            }
        }
        V::Dict(x) => {
            let t = m!(ILDictTag);
            t.mut_value().retain(|k, _| x.contains_key(k));
            for (k, v) in x {
                match how % 2 {
                    0 => drop(t.insert(k, build(v))),
                    _ => drop(t.mut_value().insert(k.clone(), build(v))),
                }
            }
        }
        V::StrDict(x) => {
            let t = m!(ILStrDictTag);
            t.mut_value().retain(|k, _| x.contains_key(k));
            for (k, v) in x {
                match how % 2 {
                    0 => drop(t.insert(k, v)),
                    _ => drop(t.mut_value().insert(k.clone(), v.clone())),
                }
            }
        }
        V::PayA(x) => edit_vec(&mut m!(PayATag).mut_payload().data, x, how),
        V::PayB(n, s, x) => {
            // Through DerefMut
            let t = m!(PayBTag);
            t.n = *n;
            t.s = s.clone();
            t.tags = tags(x);
        }
    }
}

fn edit_vec<X: Clone + PartialEq>(v: &mut Vec<X>, to: &[X], how: u64) {
    match how % 3 {
        0 => {
            v.clear();
            v.extend_from_slice(to);
        }
        1 => *v = to.to_vec(),
        _ => {
            // Keep the common prefix.
            let n = v.iter().zip(to).take_while(|(a, b)| a == b).count();
            v.truncate(n);
            v.extend_from_slice(&to[n..]);
        }
    }
}
