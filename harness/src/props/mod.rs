//! The properties, one file per area.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use il2_iltags::io::{Reader, Result as IoResult, Writer};
use il2_iltags::tags::*;

mod access;
mod complexity;
mod data;
mod decode;
mod errors;
mod dict;
mod fault;
mod ilint;
mod large;
mod memory;
mod memio;
mod payload;
mod registry;
mod scan;
mod stdio;
mod stream;
mod text;
mod wire;

pub fn all() -> Vec<Property> {
    let mut v = Vec::new();
    v.extend(ilint::all());
    v.extend(data::all());
    v.extend(wire::all());
    v.extend(decode::all());
    v.extend(dict::all());
    v.extend(registry::all());
    v.extend(scan::all());
    v.extend(memio::all());
    v.extend(stdio::all());
    v.extend(fault::all());
    v.extend(payload::all());
    v.extend(complexity::all());
    v.extend(access::all());
    v.extend(memory::all());
    v.extend(errors::all());
    v.extend(stream::all());
    for p in &mut v {
        p.suites.extend(large::suites(p.id));
    }
    v.sort_by_key(|p| p.id);
    v
}

pub fn level(id: &str) -> &'static str {
    match id {
        "C21" | "C29" | "C32" => "fault_enumeration",
        _ => "exploration",
    }
}

/// How many times the base number of cases the quick tier runs, so that a check takes about
/// ten seconds.
pub fn quick_factor(id: &str) -> u64 {
    match id {
        "C15" => 40,
        "C19" => 30,
        "C04" | "C05" | "C06" | "C07" => 25,
        "C02" | "C03" | "C17" | "C28" => 20,
        "C01" => 15,
        "C16" | "C18" => 12,
        "C24" | "C27" => 10,
        "C22" => 7,
        "C13" | "C14" | "C20" | "C21" => 6,
        "C12" | "C25" => 5,
        "C09" => 4,
        "C29" | "C30" | "C32" => 4,
        "C10" | "C23" | "C31" => 2,
        _ => 1,
    }
}

/// Known defects of the code that are looked at in a process of their own.
pub fn probes(id: &str) -> Vec<(&'static str, &'static str)> {
    match id {
        "C08" => vec![(
            "deep-nesting-stack-overflow",
            "decoding a sequence nested 100000 levels deep (about 500 KB) overflows the stack and aborts the process",
        )],
        _ => vec![],
    }
}

pub fn probe(name: &str) -> ! {
    match name {
        "deep-nesting-stack-overflow" => {
            let ok = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(|| {
                    let b = decode::deep_seq(100_000);
                    let f = standard::ILStandardTagFactory::new(false);
                    match f.from_bytes(&b) {
                        // Either outcome is a defined one. Dropping it recurses too, and is
                        // not what this looks at.
                        Ok(t) => std::mem::forget(t),
                        Err(e) => drop(e),
                    }
                })
                .unwrap()
                .join()
                .is_ok();
            std::process::exit(if ok { 0 } else { 1 })
        }
        _ => std::process::exit(3),
    }
}

//---------------------------------------------------------------------------------------
// Shared helpers
//---------------------------------------------------------------------------------------
pub type R = std::result::Result<(), String>;

/// A concrete reader over a trait object.
pub struct FwdR<'a>(pub &'a mut dyn Reader);
impl<'a> Reader for FwdR<'a> {
    fn read(&mut self) -> IoResult<u8> {
        self.0.read()
    }
    fn read_all(&mut self, b: &mut [u8]) -> IoResult<()> {
        self.0.read_all(b)
    }
    fn skip(&mut self, n: usize) -> IoResult<()> {
        self.0.skip(n)
    }
    fn skip_u64(&mut self, n: u64) -> IoResult<()> {
        self.0.skip_u64(n)
    }
}
/// A concrete writer over a trait object.
pub struct FwdW<'a>(pub &'a mut dyn Writer);
impl<'a> Writer for FwdW<'a> {
    fn write(&mut self, v: u8) -> IoResult<()> {
        self.0.write(v)
    }
    fn write_all(&mut self, b: &[u8]) -> IoResult<()> {
        self.0.write_all(b)
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// A tag a factory with `reg` knows; now and then a large one.
pub fn gen_tag(s: &mut Src, reg: &Reg) -> T {
    let mut g = Gen::new(reg);
    match s.weighted(&[30, 4, 1]) {
        0 => {
            g.budget = 2500;
        }
        1 => (),
        _ => {
            g.budget = 150_000;
        }
    }
    g.tag(s)
}

/// A small one; once in a while one of some KiB.
pub fn small_tag(s: &mut Src, reg: &Reg) -> T {
    if s.chance(1, 250) {
        return bulky(s, reg);
    }
    Gen::small(reg).tag(s)
}

/// A container with at least one element, a few levels deep.
pub fn container(s: &mut Src, reg: &Reg, budget: usize) -> T {
    let mut g = Gen::new(reg);
    g.budget = budget;
    let n = 1 + s.usize(3);
    let mut t = if s.chance(1, 250) { bulky(s, reg) } else { g.tag(s) };
    for _ in 0..n {
        t = wrap(s, t, 3, reg);
        // Siblings
        if s.chance(2, 3) {
            let mut g = Gen::new(reg);
            g.budget = budget / 4;
            g.depth = 2;
            let x = g.tag(s);
            let front = s.chance(1, 2);
            match &mut t.v {
                V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => {
                    if front {
                        v.insert(0, x)
                    } else {
                        v.push(x)
                    }
                }
                V::Dict(m) => {
                    m.insert(key_any(s), x);
                }
                _ => (),
            }
        }
    }
    t
}

/// Checks that a tag of the library shows exactly the expected one.
pub fn same(tag: &dyn ILTag, t: &T, what: &str) -> R {
    match model(tag) {
        Ok(m) if m == *t => Ok(()),
        Ok(m) => Err(format!("{}: got {}, expected {}", what, show(&m), show(t))),
        Err(e) => Err(format!("{}: {} (expected {})", what, e, show(t))),
    }
}

/// Changes the value of a tag somewhere (the tag itself or one nested in it), both in the
/// library and in the model.
pub fn mutate(s: &mut Src, tag: &mut dyn ILTag, t: &mut T, reg: &Reg) {
    use il2_iltags::tags::standard::*;
    fn one(s: &mut Src, v: &mut Vec<Box<dyn ILTag>>, m: &mut Vec<T>, reg: &Reg) {
        if m.is_empty() {
            let x = small_tag(s, reg);
            v.push(build(&x));
            m.push(x);
            return;
        }
        let i = s.usize(m.len());
        match s.below(6) {
            0 | 1 => mutate(s, v[i].as_mut(), &mut m[i], reg),
            2 => {
                v.remove(i);
                m.remove(i);
            }
            3 => {
                let x = small_tag(s, reg);
                v.insert(i, build(&x));
                m.insert(i, x);
            }
            4 => {
                let x = small_tag(s, reg);
                v[i] = build(&x);
                m[i] = x;
            }
            _ => {
                let j = s.usize(m.len());
                v.swap(i, j);
                m.swap(i, j);
            }
        }
    }
    let deep = s.chance(2, 3);
    match &mut t.v {
        V::Arr(m) if deep => one(
            s,
            tag.as_mut_any().downcast_mut::<ILTagArrayTag>().unwrap().mut_value(),
            m,
            reg,
        ),
        V::Seq(m) if deep => one(
            s,
            tag.as_mut_any().downcast_mut::<ILTagSeqTag>().unwrap().mut_value(),
            m,
            reg,
        ),
        V::PayB(_, _, m) if deep => one(
            s,
            &mut tag.as_mut_any().downcast_mut::<PayBTag>().unwrap().mut_payload().tags,
            m,
            reg,
        ),
        V::Dict(m) if deep => {
            let d = tag.as_mut_any().downcast_mut::<ILDictTag>().unwrap();
            let k = match m.keys().nth(s.usize(m.len() + 1)) {
                Some(k) => k.clone(),
                None => key_any(s),
            };
            match s.below(3) {
                0 if m.contains_key(&k) => {
                    mutate(s, d.mut_value().get_mut(&k).unwrap().as_mut(), m.get_mut(&k).unwrap(), reg)
                }
                1 => {
                    d.mut_value().remove(&k);
                    m.remove(&k);
                }
                _ => {
                    let x = small_tag(s, reg);
                    d.insert(&k, build(&x));
                    m.insert(k, x);
                }
            }
        }
        V::StrDict(m) if deep => {
            let d = tag.as_mut_any().downcast_mut::<ILStrDictTag>().unwrap();
            let k = match m.keys().nth(s.usize(m.len() + 1)) {
                Some(k) => k.clone(),
                None => key_any(s),
            };
            if s.chance(1, 3) {
                d.mut_value().remove(&k);
                m.remove(&k);
            } else {
                let v = string_any(s, 300);
                d.insert(&k, &v);
                m.insert(k, v);
            }
        }
        _ => {
            let mut g = Gen::small(reg);
            let v = g.value(s, t.ty());
            morph(tag, &v, s.below(6));
            t.v = v;
        }
    }
}

/// Classes of a tag for the statistics.
pub fn classify(ctx: &mut Ctx, t: &T) {
    ctx.class(match t.ty() {
        Ty::Null | Ty::Bool => "null/bool",
        Ty::I8 | Ty::U8 | Ty::I16 | Ty::U16 | Ty::I32 | Ty::U32 | Ty::I64 | Ty::U64 => "integers",
        Ty::ILInt | Ty::SILInt => "ilints",
        Ty::F32 | Ty::F64 | Ty::F128 => "floats",
        Ty::Bytes | Ty::BigInt | Ty::BigDec | Ty::Raw => "byte arrays",
        Ty::Str => "strings",
        Ty::ILIntArr | Ty::Oid => "ilint arrays",
        Ty::Arr => "tag arrays",
        Ty::Seq => "tag sequences",
        Ty::Range | Ty::Ver => "range/version",
        Ty::Dict | Ty::StrDict => "dictionaries",
        Ty::PayA | Ty::PayB => "payloads",
    });
    if t.id > 31 {
        ctx.class("custom identifier");
    }
    if t.depth() >= 3 {
        ctx.class("three levels or more");
    }
}
