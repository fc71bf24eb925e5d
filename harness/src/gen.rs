//! Generators.
use crate::engine::{mix, Src};
use crate::model::*;
use crate::rio::*;
use std::collections::BTreeMap;

pub fn u64_any(s: &mut Src) -> u64 {
    match s.weighted(&[6, 5, 4, 4, 2, 2]) {
        0 => s.below(300),
        5 => s.hint(),
        1 => {
            // Around the change of size of the ILInts.
            let k = s.below(9);
            let base = if k == 0 {
                248u64
            } else if k == 8 {
                u64::MAX
            } else {
                248 + (1u64 << (8 * k))
            };
            base.wrapping_add(s.below(7)).wrapping_sub(3)
        }
        2 => {
            let k = s.below(64);
            (1u64 << k).wrapping_add(s.below(5)).wrapping_sub(2)
        }
        3 => {
            let k = s.below(64);
            s.any() >> k
        }
        _ => u64::MAX - s.below(300),
    }
}

pub fn i64_any(s: &mut Src) -> i64 {
    match s.weighted(&[4, 4, 3, 1]) {
        0 => s.below(400) as i64 - 200,
        3 => {
            let v = s.hint() as i64;
            if s.chance(1, 2) {
                v.wrapping_neg()
            } else {
                v
            }
        }
        1 => ref_unzigzag(u64_any(s)),
        _ => {
            let v = u64_any(s) as i64;
            if s.chance(1, 2) {
                v.wrapping_neg()
            } else {
                v
            }
        }
    }
}

pub fn len_any(s: &mut Src, budget: usize) -> usize {
    let n = match s.weighted(&[20, 12, 6, 2, 1]) {
        0 => s.usize(9),
        4 => match s.hint() {
            v if v <= 100_000 => v as usize,
            v => v as usize % 9,
        },
        1 => s.usize(48),
        2 => s.pick(&[
            247usize, 248, 249, 250, 255, 256, 257, 495, 496, 503, 504, 505, 511, 512, 513, 514,
            1023, 1024, 1025, 1026, 2048,
        ]),
        _ => s.pick(&[4095usize, 4096, 4097, 8192, 65535, 65536, 65783, 65784, 65785, 65786]),
    };
    n.min(budget)
}

pub fn string_len(s: &mut Src, n: usize) -> String {
    // Exactly n bytes.
    if n >= 1 && s.chance(1, 24) {
        let t = s.hint_text();
        if t.len() <= n {
            let rest = "x".repeat(n - t.len());
            return if s.chance(1, 2) { t + &rest } else { rest + &t };
        }
    }
    const CHARS: [&str; 24] = [
        "a", "b", "Z", "0", " ", "\0", "\n", "\u{7f}", "é", "ß", "\u{80}", "\u{7ff}", "\u{800}",
        "€", "漢", "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{ffff}", "\u{feff}", "😀", "\u{10000}",
        "\u{10ffff}", "\u{301}",
    ];
    let mut out = String::with_capacity(n);
    let mode = s.below(3);
    let mut drawn = 0;
    let (c1, c2) = (s.pick(&CHARS), s.pick(&CHARS));
    while out.len() < n {
        let left = n - out.len();
        let c = if mode == 0 {
            "a"
        } else if drawn < 12 {
            drawn += 1;
            s.pick(&CHARS)
        } else if out.len() % 2 == 0 {
            c1
        } else {
            c2
        };
        if c.len() <= left {
            out.push_str(c);
        } else {
            out.push('x');
        }
    }
    out
}

pub fn string_any(s: &mut Src, budget: usize) -> String {
    let n = len_any(s, budget);
    string_len(s, n)
}

/// Keys: few distinct, similar to each other, in all the orders that may be confused.
pub fn key_any(s: &mut Src) -> String {
    const KEYS: [&str; 26] = [
        "a",
        "",
        "b",
        "ab",
        "aa",
        "a\0",
        "A",
        "Z",
        "_",
        "é",
        "e\u{301}",
        "\u{ffff}",
        "\u{10000}",
        "😀",
        "\u{e000}",
        "\u{7f}",
        "\u{80}",
        "10",
        "9",
        "abc",
        "abd",
        " ",
        "z",
        "key",
        "Key",
        "ß",
    ];
    match s.weighted(&[64, 16, 8, 4, 1]) {
        0 => s.pick(&KEYS).to_string(),
        3 => s.hint_text(),
        4 => {
            let k = s.range(5, 12);
            let n = s.usize(1 << k);
            string_len(s, n)
        }
        1 => {
            let n = s.usize(6);
            string_len(s, n)
        }
        _ => {
            let n = s.pick(&[247usize, 248, 249, 503, 504, 505]);
            string_len(s, n)
        }
    }
}

pub fn f32_bits(s: &mut Src) -> u32 {
    match s.weighted(&[3, 3, 4]) {
        0 => (s.below(200) as f32).to_bits(),
        1 => s.pick(&[
            0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff,
            0x7fbf_ffff, 1, 0x8000_0001, 0x007f_ffff, 0x7f7f_ffff, 0xffa5_5a01,
        ]),
        _ => s.any() as u32,
    }
}
pub fn f64_bits(s: &mut Src) -> u64 {
    match s.weighted(&[3, 3, 4, 1]) {
        0 => (s.below(200) as f64).to_bits(),
        3 => (s.hint() as f64).to_bits(),
        1 => s.pick(&[
            0u64,
            1 << 63,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
            0x7ff0_0000_0000_0001,
            u64::MAX,
            0x7ff7_ffff_ffff_ffff,
            1,
            0x000f_ffff_ffff_ffff,
            0x7fef_ffff_ffff_ffff,
            0xfff4_a5a5_5a5a_0001,
        ]),
        _ => s.any(),
    }
}

pub const CUSTOM_IDS: [u64; 28] = [
    32,
    33,
    26,
    29,
    40,
    247,
    248,
    249,
    255,
    256,
    272, // 256 + 16
    273,
    278,
    503,
    504,
    505,
    1000,
    65535,
    65536 + 17,
    65784,
    65785,
    1 << 24,
    (1 << 32) + 17,
    (1 << 32) + 22,
    (1 << 32) + 10,
    (1 << 63) + 21,
    u64::MAX - 1,
    u64::MAX,
];

pub fn explicit_id(s: &mut Src) -> u64 {
    if s.chance(1, 4) {
        16 + u64_any(s) % (u64::MAX - 15)
    } else {
        s.pick(&CUSTOM_IDS)
    }
}

/// A registry: the standard one plus some custom identifiers.
pub fn reg_any(s: &mut Src) -> Reg {
    let mut r = Reg::std(s.chance(1, 2));
    let n = s.below(7);
    for _ in 0..n {
        let id = explicit_id(s);
        if STD_TYPES.iter().any(|x| x.0 == id) {
            continue;
        }
        let ty = s.pick(&ALL_TYPES);
        if ty.any_id() {
            r.map.insert(id, ty);
        }
    }
    r
}

pub struct Gen<'r> {
    pub reg: &'r Reg,
    pub depth: usize,
    pub budget: usize,
    pub max_items: usize,
}

impl<'r> Gen<'r> {
    pub fn new(reg: &'r Reg) -> Self {
        Gen {
            reg,
            depth: 4,
            budget: 20_000,
            max_items: 6,
        }
    }
    pub fn small(reg: &'r Reg) -> Self {
        Gen {
            reg,
            depth: 3,
            budget: 300,
            max_items: 4,
        }
    }

    fn spend(&mut self, n: usize) {
        self.budget = self.budget.saturating_sub(n);
    }

    /// A (identifier, type) pair known by the registry.
    pub fn id_type(&mut self, s: &mut Src, containers: bool) -> (u64, Ty) {
        loop {
            let group = s.weighted(&[8, 8, 6, 5]);
            let (id, ty) = match group {
                0 => STD_TYPES[s.usize(15)],
                1 => s.pick(&[
                    (16, Ty::Bytes),
                    (17, Ty::Str),
                    (18, Ty::BigInt),
                    (19, Ty::BigDec),
                    (20, Ty::ILIntArr),
                    (23, Ty::Range),
                    (24, Ty::Ver),
                    (25, Ty::Oid),
                    (31, Ty::StrDict),
                ]),
                2 => s.pick(&[(21, Ty::Arr), (22, Ty::Seq), (30, Ty::Dict)]),
                _ => {
                    let c = self.reg.customs();
                    if !c.is_empty() && s.chance(3, 4) {
                        s.pick(&c)
                    } else if !self.reg.strict {
                        let id = explicit_id(s);
                        match self.reg.ty(id) {
                            Some(t) => (id, t),
                            None => continue,
                        }
                    } else {
                        (0, Ty::Null)
                    }
                }
            };
            if self.reg.ty(id) != Some(ty) {
                return (0, Ty::Null);
            }
            if ty.is_container() && !containers {
                return (3, Ty::U8);
            }
            return (id, ty);
        }
    }

    pub fn tag(&mut self, s: &mut Src) -> T {
        let deep = self.depth > 0 && self.budget > 8;
        let (id, ty) = self.id_type(s, deep);
        let v = self.value(s, ty);
        T { id, v }
    }

    pub fn items(&mut self, s: &mut Src) -> Vec<T> {
        self.depth -= 1;
        let max = self.max_items.min(1 + self.budget / 4);
        let many = if self.budget > 1500 && s.chance(1, 40) {
            match s.below(12) {
                7 => s.hint().min(600) as usize,
                8..=9 => s.pick(&[31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 200]),
                10..=11 => 8 + s.usize(300),
                k => [247usize, 248, 249, 255, 256, 257, 300][k as usize],
            }
        } else if self.budget > 150 && s.chance(1, 60) {
            (8 + s.usize(70)).min(self.budget / 3)
        } else {
            0
        };
        if many > 0 {
            self.spend(3 * many);
            self.depth += 1;
            return many_items(s, many, self.reg);
        }
        let n = s.usize(max + 1);
        let mut out = Vec::new();
        for _ in 0..n {
            if self.budget < 2 {
                break;
            }
            let t = self.tag(s);
            out.push(t);
        }
        self.depth += 1;
        out
    }

    pub fn bytes(&mut self, s: &mut Src) -> Vec<u8> {
        let n = len_any(s, self.budget);
        self.spend(n + 2);
        s.bytes(n)
    }
    pub fn string(&mut self, s: &mut Src) -> String {
        let n = len_any(s, self.budget);
        self.spend(n + 2);
        string_len(s, n)
    }
    fn ints(&mut self, s: &mut Src) -> Vec<u64> {
        let n = if s.chance(1, 20) && self.budget > 3000 {
            match s.below(8) {
                7 => s.hint().min(1400) as usize,
                k => [247usize, 248, 249, 256, 1023, 1024, 1025][k as usize],
            }
        } else {
            s.usize(7)
        };
        self.spend(2 * n + 2);
        if n > 48 {
            let one = u64_any(s);
            (0..n as u64).map(|i| one.wrapping_add(i * i)).collect()
        } else {
            (0..n).map(|_| u64_any(s)).collect()
        }
    }

    pub fn value(&mut self, s: &mut Src, ty: Ty) -> V {
        self.spend(2);
        match ty {
            Ty::Null => V::Null,
            Ty::Bool => V::Bool(s.below(2) == 1),
            Ty::I8 => V::I8(s.below(256) as i8),
            Ty::U8 => V::U8(s.below(256) as u8),
            Ty::I16 => V::I16(i64_any(s) as i16),
            Ty::U16 => V::U16(u64_any(s) as u16),
            Ty::I32 => V::I32(i64_any(s) as i32),
            Ty::U32 => V::U32(u64_any(s) as u32),
            Ty::I64 => V::I64(i64_any(s)),
            Ty::U64 => V::U64(u64_any(s)),
            Ty::ILInt => V::ILInt(u64_any(s)),
            Ty::SILInt => V::SILInt(i64_any(s)),
            Ty::F32 => V::F32(f32_bits(s)),
            Ty::F64 => V::F64(f64_bits(s)),
            Ty::F128 => {
                let b = s.bytes(16);
                V::F128(b.try_into().unwrap())
            }
            Ty::Bytes => V::Bytes(self.bytes(s)),
            Ty::BigInt => V::BigInt(self.bytes(s)),
            Ty::Raw => V::Raw(self.bytes(s)),
            Ty::PayA => V::PayA(self.bytes(s)),
            Ty::Str => V::Str(self.string(s)),
            Ty::BigDec => {
                let sc = i64_any(s) as i32;
                V::BigDec(sc, self.bytes(s))
            }
            Ty::ILIntArr => V::ILIntArr(self.ints(s)),
            Ty::Oid => V::Oid(self.ints(s)),
            Ty::Arr | Ty::Seq | Ty::Dict | Ty::PayB if self.depth == 0 => V::zero(ty),
            Ty::Arr => V::Arr(self.items(s)),
            Ty::Seq => V::Seq(self.items(s)),
            Ty::Range => V::Range(u64_any(s), u64_any(s) as u16),
            Ty::Ver => V::Ver([
                i64_any(s) as i32,
                i64_any(s) as i32,
                i64_any(s) as i32,
                i64_any(s) as i32,
            ]),
            Ty::Dict => {
                let mut m = BTreeMap::new();
                for t in self.items(s) {
                    if m.len() > 12 {
                        let n = m.len() as u64;
                        m.insert(if n & 1 == 0 { format!("k{}", n) } else { format!("{:x}", mix(n) >> (n % 60)) }, t);
                    } else {
                        let k = key_any(s);
                        self.spend(k.len());
                        m.insert(k, t);
                    }
                }
                V::Dict(m)
            }
            Ty::StrDict => {
                let mut m = BTreeMap::new();
                let n = s.usize(self.max_items + 1);
                if self.budget > 400 && s.chance(1, 60) {
                    let n = (8 + s.below(80)).min(self.budget as u64 / 8);
                    let z = s.any();
                    for i in 0..n {
                        let r = mix(z ^ i);
                        m.insert(format!("{}", r % 5000), format!("{:x}", r >> (8 + r % 56)));
                    }
                    self.spend(8 * n as usize);
                }
                for _ in 0..n {
                    let k = key_any(s);
                    self.spend(k.len() + 2);
                    let b = self.budget.min(600);
                    let v = string_any(s, b);
                    self.spend(v.len());
                    m.insert(k, v);
                }
                V::StrDict(m)
            }
            Ty::PayB => {
                let n = u64_any(s) as u32;
                let st = self.string(s);
                V::PayB(n, st, self.items(s))
            }
        }
    }

    /// A chain of containers with a single element, `n` levels deep.
    pub fn chain(&mut self, s: &mut Src, n: usize) -> T {
        let mut t = self.tag(s);
        let mode = s.below(4);
        for _ in 0..n {
            t = wrap(s, t, mode, self.reg);
        }
        t
    }
}

/// Many small elements, alike or not.
pub fn many_items(s: &mut Src, many: usize, reg: &Reg) -> Vec<T> {
    let kind = s.below(10);
    let z = s.any();
    (0..many as u64)
        .map(|i| {
            let r = mix(z ^ i);
            T::std(match if kind >= 8 { r % 8 } else { kind } {
                0 => V::Null,
                1 => V::Bool(r >> 63 == 1),
                2 | 3 => V::U8((r >> 40) as u8),
                4 => V::ILInt((r | 1 << 63) >> (1 + mix(r) % 63)),
                5 => V::Str(format!("{}", r % 3000)),
                6 => V::I32((r >> 20) as i32),
                _ => V::SILInt((r as i64) >> (mix(r) % 63)),
            })
        })
        .map(|t| if fits(&t, reg) { t } else { T::std(V::Null) })
        .collect()
}

/// Whether every id is one of its type in a registry.
pub fn fits(t: &T, reg: &Reg) -> bool {
    reg.ty(t.id) == Some(t.ty())
        && match &t.v {
            V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => v.iter().all(|t| fits(t, reg)),
            V::Dict(m) => m.values().all(|t| fits(t, reg)),
            _ => true,
        }
}

/// A tag of some KiB, of any type that can have it.
pub fn bulky(s: &mut Src, reg: &Reg) -> T {
    let n = match s.below(3) {
        0 => s.pick(&[1000usize, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10_000]) + s.usize(3),
        _ => {
            let k = s.range(10, 13);
            300 + s.usize(1 << k)
        }
    };
    let z = s.any();
    let few = n / 16;
    let t = T::std(match s.weighted(&[4, 6, 2, 2, 2, 2, 3, 3, 3, 3, 2, 2]) {
        0 => V::Bytes(s.bytes(n)),
        1 => V::Str(string_len(s, n)),
        2 => V::BigInt(s.bytes(n)),
        3 => V::BigDec(z as i32, s.bytes(n)),
        4 => V::ILIntArr((0..few as u64).map(|i| mix(z ^ i) >> (mix(i) % 64)).collect()),
        5 => V::Oid((0..few as u64).map(|i| mix(z ^ i) >> (mix(i) % 64)).collect()),
        6 => V::Arr(many_items(s, few, reg)),
        7 => V::Seq(many_items(s, few, reg)),
        8 => {
            let v = many_items(s, few, reg);
            V::Dict(v.into_iter().enumerate().map(|(i, t)| (format!("{:x}", mix(z ^ i as u64) >> (i % 60)), t)).collect())
        }
        9 => match s.below(3) {
            0 => V::StrDict([(string_len(s, n / 2), "v".to_string()), ("k".to_string(), string_len(s, n / 2))].into_iter().collect()),
            _ => V::StrDict((0..few as u64).map(|i| (format!("{:x}", mix(z ^ i) >> (i % 60)), "v".repeat(i as usize % 9))).collect()),
        },
        10 => match reg.customs().iter().find(|x| x.1 == Ty::PayA) {
            Some(x) => return T::new(x.0, V::PayA(s.bytes(n))),
            None => V::Str(string_len(s, n)),
        },
        _ => match (1000..2000).find(|i| !reg.map.contains_key(i)) {
            Some(id) if !reg.strict => return T::new(id, V::Raw(s.bytes(n))),
            _ => V::Bytes(s.bytes(n)),
        },
    });
    if fits(&t, reg) {
        t
    } else {
        Gen::small(reg).tag(s)
    }
}

/// Wraps a tag in a container. Mode 3 chooses at each level.
pub fn wrap(s: &mut Src, t: T, mode: u64, reg: &Reg) -> T {
    let m = if mode == 3 { s.below(4) } else { mode };
    match m {
        0 => T::std(V::Seq(vec![t])),
        1 => T::std(V::Arr(vec![t])),
        2 => {
            let mut d = BTreeMap::new();
            d.insert("k".to_string(), t);
            T::std(V::Dict(d))
        }
        _ => {
            let c: Vec<(u64, Ty)> = reg.customs().into_iter().filter(|x| x.1.is_container()).collect();
            if c.is_empty() {
                return T::std(V::Seq(vec![t]));
            }
            let (id, ty) = s.pick(&c);
            let v = match ty {
                Ty::Seq => V::Seq(vec![t]),
                Ty::Arr => V::Arr(vec![t]),
                Ty::Dict => V::Dict(Some(("k".to_string(), t)).into_iter().collect()),
                _ => V::PayB(1, String::new(), vec![t]),
            };
            T::new(id, v)
        }
    }
}

pub fn rk_any(s: &mut Src) -> RK {
    s.pick(&RKS)
}
pub fn wk_any(s: &mut Src) -> WK {
    s.pick(&WKS)
}

/// Any tag, with any type, identifiers that no factory may know included.
pub fn tag_any_id(s: &mut Src, reg: &Reg, depth: usize, budget: usize) -> T {
    let mut g = Gen::new(reg);
    g.depth = depth;
    g.budget = budget;
    let mut t = g.tag(s);
    rename(s, &mut t);
    t
}

/// Gives arbitrary identifiers to some of the tags.
pub fn rename(s: &mut Src, t: &mut T) {
    if t.ty().any_id() && s.chance(1, 3) {
        t.id = if t.ty() == Ty::Raw || t.ty() == Ty::BigDec || s.chance(9, 10) {
            explicit_id(s)
        } else {
            s.below(16)
        };
    }
    match &mut t.v {
        V::Arr(x) | V::Seq(x) | V::PayB(_, _, x) if x.len() < 20 => {
            x.iter_mut().for_each(|t| rename(s, t))
        }
        V::Dict(m) => m.values_mut().for_each(|t| rename(s, t)),
        _ => (),
    }
}

fn vary_bytes(s: &mut Src, v: &mut Vec<u8>) {
    if v.is_empty() {
        return v.push(s.below(256) as u8);
    }
    let (i, j) = (s.usize(v.len()), s.usize(v.len()));
    match s.below(5) {
        0 => v[i] ^= 1 << s.below(8),
        1 => v[i] = s.below(256) as u8,
        2 => v.swap(i, j),
        // In the middle, whatever the ends are.
        3 => {
            let m = v.len() / 2;
            v[m] = v[m].wrapping_add(1)
        }
        _ => {
            let x = v.remove(i);
            v.insert(j, x);
        }
    }
}

fn vary_ints(s: &mut Src, v: &mut Vec<u64>) {
    if v.is_empty() {
        return v.push(u64_any(s));
    }
    let (i, j) = (s.usize(v.len()), s.usize(v.len()));
    match s.below(3) {
        0 => v[i] ^= 1 << s.below(8),
        1 => v[i] = u64_any(s),
        _ => v.swap(i, j),
    }
}

/// Another text, most often of the same length and with the same ends.
pub fn vary_text(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return string_len(s, 1);
    }
    let i = if s.chance(1, 2) { c.len() / 2 } else { s.usize(c.len()) };
    match s.below(6) {
        0 => {
            let j = s.usize(c.len());
            c.swap(i, j)
        }
        1 => drop(c.remove(i)),
        2 => c.insert(i, 'x'),
        3 => c[i] = s.pick(&['x', 'é', '漢', '😀', '\0', ' ']),
        _ => {
            // One of the same length in bytes.
            c[i] = match c[i].len_utf8() {
                1 => (33 + s.below(94) as u8) as char,
                2 => 'ñ',
                3 => '字',
                _ => '🙂',
            }
        }
    }
    c.into_iter().collect()
}

/// The keys of a dictionary, with one of them, or all, changed.
fn vary_keys<X>(s: &mut Src, m: &mut BTreeMap<String, X>) {
    if s.chance(1, 2) {
        let suffix = s.pick(&["x", "0", "\0", "é"]);
        let front = s.chance(1, 2);
        *m = std::mem::take(m)
            .into_iter()
            .map(|(k, v)| (if front { format!("{}{}", suffix, k) } else { format!("{}{}", k, suffix) }, v))
            .collect();
    } else if !m.is_empty() {
        let k = m.keys().nth(s.usize(m.len())).unwrap().clone();
        let v = m.remove(&k).unwrap();
        m.insert(vary_text(s, &k), v);
    }
}

/// Almost the same: of the same type, shape and, mostly, size.
pub fn vary(s: &mut Src, t: &T) -> T {
    let mut t = t.clone();
    match &mut t.v {
        V::Null => (),
        V::Bool(x) => *x = !*x,
        V::I8(x) => *x ^= 1 << s.below(8),
        V::U8(x) => *x ^= 1 << s.below(8),
        V::I16(x) => *x ^= 1 << s.below(16),
        V::U16(x) => *x ^= 1 << s.below(16),
        V::I32(x) => *x ^= 1 << s.below(32),
        V::U32(x) => *x ^= 1 << s.below(32),
        V::I64(x) => *x ^= 1 << s.below(64),
        V::U64(x) => *x ^= 1 << s.below(64),
        V::ILInt(x) => *x ^= 1 << s.below(64),
        V::SILInt(x) => *x ^= 1 << s.below(64),
        V::F32(x) => *x ^= 1 << s.below(32),
        V::F64(x) => *x ^= 1 << s.below(64),
        V::F128(x) => x[s.usize(16)] ^= 1 << s.below(8),
        V::Bytes(v) | V::BigInt(v) | V::Raw(v) | V::PayA(v) => vary_bytes(s, v),
        V::BigDec(x, v) => {
            if s.chance(1, 2) {
                *x ^= 1 << s.below(32)
            } else {
                vary_bytes(s, v)
            }
        }
        V::Str(x) => *x = vary_text(s, x),
        V::ILIntArr(v) | V::Oid(v) => vary_ints(s, v),
        V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => {
            if !v.is_empty() {
                let (i, j) = (s.usize(v.len()), s.usize(v.len()));
                if s.chance(1, 4) {
                    v.swap(i, j)
                } else {
                    v[i] = vary(s, &v[i]);
                }
            }
        }
        V::Range(a, b) => {
            if s.chance(1, 2) {
                *a ^= 1 << s.below(64)
            } else {
                *b ^= 1 << s.below(16)
            }
        }
        V::Ver(v) => v[s.usize(4)] ^= 1 << s.below(32),
        V::Dict(m) => {
            if s.chance(1, 2) && !m.is_empty() {
                let k = m.keys().nth(s.usize(m.len())).unwrap().clone();
                let x = vary(s, &m[&k]);
                m.insert(k, x);
            } else {
                vary_keys(s, m)
            }
        }
        V::StrDict(m) => {
            if s.chance(1, 2) && !m.is_empty() {
                let k = m.keys().nth(s.usize(m.len())).unwrap().clone();
                let x = vary_text(s, &m[&k]);
                m.insert(k, x);
            } else {
                vary_keys(s, m)
            }
        }
    }
    t
}
