//! C22: tags with payloads of the user.
use super::*;
use crate::rio::{read_with, write_with};
use il2_iltags::io::array::ByteArrayReader;
use il2_iltags::tags::payload::{ILGenericPayloadTag, ILTagPayload};
use std::cell::RefCell;

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C22",
        rule: "Payloads with generated content, and payloads that follow a generated program (operations on the reader they are given, nested use of the factory, errors), are serialized and decoded alone and inside standard containers and compared with a model of the contract. Non-trivial: the payload is nested, or longer than 247 bytes, or reads in several operations, beyond or short of its length, or reports an error.",
        assumptions: &[
            "payloads registered at identifiers that are not implicit",
            "well-behaved payloads announce the size they write",
        ],
        suites: vec![
            random("contents", 80_000, 30_000_000, c22_contents),
            random("payload readers", 150_000, 60_000_000, c22_readers),
            random("announced sizes", 100_000, 20_000_000, c22_sizes),
            random("direct calls", 60_000, 20_000_000, c22_direct),
            random("payloads that cannot be serialized", 40_000, 10_000_000, c22_unserializable),
        ],
    }]
}

/// Wraps a tag among others.
fn nest(s: &mut Src, mut t: T, levels: usize, reg: &Reg) -> T {
    for _ in 0..levels {
        t = wrap(s, t, 3, reg);
        let (a, b) = (s.chance(1, 2), s.chance(1, 2));
        let (x, y) = (small_tag(s, reg), small_tag(s, reg));
        match &mut t.v {
            V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => {
                if a {
                    v.insert(0, x);
                }
                if b {
                    v.push(y);
                }
            }
            V::Dict(m) => {
                if a {
                    m.insert("a".to_string(), x);
                }
                if b {
                    m.insert("z".to_string(), y);
                }
            }
            _ => (),
        }
    }
    t
}

/// An identifier where a payload may be registered, standard ones included.
fn pay_id(s: &mut Src) -> u64 {
    let id = match s.below(6) {
        0 => s.pick(&[16u64, 17, 18, 19, 20, 23, 24, 25, 31]),
        1 => s.pick(&[26u64, 27, 28, 29, 32]),
        _ => explicit_id(s),
    };
    // The containers keep their types.
    if let 21 | 22 | 30 = id {
        28
    } else {
        id
    }
}

/// Containers of the library at identifiers of the user.
fn user_containers(s: &mut Src, reg: &mut Reg) {
    for _ in 0..s.usize(4) {
        let id = explicit_id(s);
        if STD_TYPES.iter().all(|x| x.0 != id) {
            let ty = s.pick(&[Ty::Seq, Ty::Arr, Ty::Dict, Ty::PayB]);
            reg.map.entry(id).or_insert(ty);
        }
    }
}

fn c22_contents(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut reg = Reg::std(s.chance(1, 2));
    let n = 1 + s.usize(3);
    let mut ids = vec![];
    for _ in 0..n {
        let id = pay_id(s);
        let ty = s.pick(&[Ty::PayA, Ty::PayB]);
        reg.map.insert(id, ty);
        ids.push(id);
    }
    user_containers(s, &mut reg);
    let id = ids[0];
    let f = factory(&reg);
    let mut g = Gen::new(&reg);
    g.budget = s.pick(&[40usize, 300, 3000, 80_000]);
    g.depth = 2;
    let v = g.value(s, reg.map[&id]);
    let levels = s.usize(4);
    let t = nest(s, T::new(id, v), levels, &reg);
    let b = enc(&t);
    classify(ctx, &t);
    ctx.describe(|| show(&t));
    if levels > 0 || b.len() > 250 {
        ctx.nontrivial();
    }
    let tag = build(&t);
    ensure_eq!(tag.value_size(), enc_value(&t.v).len() as u64, "value_size() of {}", show(&t));
    ensure_eq!(tag.size(), b.len() as u64, "size() of {}", show(&t));
    let (wk, seed) = (wk_any(s), s.any());
    let (r, out) = write_with(wk, b.len(), seed, |w| tag.serialize(w));
    r.map_err(|e| format!("serialize() over {:?}: {:?} for {}", wk, e, show(&t)))?;
    ensure!(out == b, "serialize() gives {}, expected {}", hex(&out), hex(&b));
    let mut out = crate::rio::MinimalW::default();
    tag.serialize_value(&mut out).map_err(|e| format!("serialize_value(): {:?}", e))?;
    ensure!(out.data == enc_value(&t.v), "serialize_value() gives {}", hex(&out.data));
    let rk = rk_any(s);
    let (r, taken) = read_with(rk, &b, seed, |r| f.deserialize(r));
    let got = r.map_err(|e| format!("deserialize() over {:?}: {:?} for {}", rk, e, show(&t)))?;
    same(got.as_ref(), &t, "decoded")?;
    ensure_eq!(taken, b.len(), "bytes taken for {}", show(&t));
    // Into an existing one, that has another content.
    let mut x = T::new(t.id, Gen::small(&reg).value(s, t.ty()));
    let mut into = build(&x);
    if s.chance(1, 2) {
        mutate(s, into.as_mut(), &mut x, &reg);
    }
    let mut r = ByteArrayReader::new(&b);
    f.deserialize_into(&mut r, into.as_mut())
        .map_err(|e| format!("deserialize_into(): {:?} for {}", e, show(&t)))?;
    same(into.as_ref(), &t, "decoded into")?;
    // A payload changed in place.
    if t.ty() == Ty::PayA || t.ty() == Ty::PayB {
        let v = Gen::small(&reg).value(s, t.ty());
        morph(into.as_mut(), &v, 0);
        let want = enc(&T::new(t.id, v));
        let got = into.to_bytes().map_err(|e| format!("{:?}", e))?;
        ensure!(got == want, "after the change {}, expected {}", hex(&got), hex(&want));
    }
    Ok(())
}

//---------------------------------------------------------------------------------------
// Payload readers
//---------------------------------------------------------------------------------------
#[derive(Default)]
struct Prog {
    data: Vec<u8>,
    fails: bool,
}
type ProgTag = ILGenericPayloadTag<Prog>;

/// What the payloads being decoded must see, and what they do.
#[derive(Default)]
struct Plan {
    expected: Vec<Vec<u8>>,
    next: usize,
    seed: u64,
    /// Bit 0: may be short; bit 1: may report an error; bit 2: may go beyond.
    behaviour: u64,
    special: u64,
    unknown: Option<u64>,
    problem: Option<String>,
    bad: bool,
    beyond: bool,
    skipped: bool,
    ops: u64,
}
thread_local! {
    static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
}

impl ILTagPayload for Prog {
    fn serialized_size(&self) -> usize {
        self.data.len()
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        if self.fails {
            return Err(ErrorKind::UnableToSerialize);
        }
        w.write_all(&self.data)?;
        Ok(())
    }
    fn deserialize(&mut self, factory: &dyn ILTagFactory, size: usize, reader: &mut dyn Reader) -> Result<()> {
        // The plan is not borrowed while the reader is in use.
        let mut p = PLAN.with(|p| std::mem::take(&mut *p.borrow_mut()));
        let r = self.play(&mut p, factory, size, reader);
        if let Err(m) = r {
            p.problem.get_or_insert(m);
            p.bad = true;
        }
        let bad = p.bad;
        let short = p.seed & 1 == 0;
        PLAN.with(|x| *x.borrow_mut() = p);
        if bad && self.fails {
            return Err(if short { ErrorKind::CorruptedData } else { ErrorKind::UnsupportedTag });
        }
        Ok(())
    }
}

impl Prog {
    /// Runs the program; `Err` is a violation. Sets `bad` if it misbehaves, and `fails` if
    /// it reports an error.
    fn play(&mut self, p: &mut Plan, factory: &dyn ILTagFactory, size: usize, reader: &mut dyn Reader) -> R {
        let v = match p.expected.get(p.next) {
            Some(v) => v.clone(),
            None => return Err("more payloads decoded than there are".to_string()),
        };
        p.next += 1;
        p.seed = mix(p.seed);
        let mut z = p.seed;
        let mut draw = |n: u64| -> u64 {
            z = mix(z.wrapping_add(77));
            z % n
        };
        ensure_eq!(size, v.len(), "size handed to the payload {}", hex(&v));
        // The factory is the active one.
        let t = factory.create_tag(p.special);
        ensure!(
            t.as_ref().map(|t| t.id() == p.special && t.as_any().is::<PayBTag>()) == Some(true),
            "the factory handed to the payload does not know tag {}",
            p.special
        );
        if let Some(u) = p.unknown {
            ensure!(factory.create_tag(u).is_none(), "the factory handed to the payload knows tag {}", u);
        }
        self.data.clear();
        let short = p.behaviour & 1 != 0 && draw(2) == 0 && !v.is_empty();
        let target = if short { v.len() - 1 - draw(v.len() as u64) as usize } else { v.len() };
        let error = p.behaviour & 2 != 0 && draw(2) == 0;
        let beyond = p.behaviour & 4 != 0;
        let mut pos = 0;
        let mut rounds = 0;
        loop {
            rounds += 1;
            if beyond && (draw(3) == 0 || pos == target) && rounds < 60 {
                // More than there is.
                p.beyond = true;
                p.ops += 1;
                let n = v.len() - pos + 1 + if draw(3) == 0 { draw(5000) as usize } else { 0 };
                match draw(4) {
                    0 if n == 1 => ensure!(reader.read().is_err(), "read() went beyond the payload {}", hex(&v)),
                    1 => ensure!(reader.skip(n).is_err(), "skip({}) at {} went beyond the payload {}", n, pos, hex(&v)),
                    2 => ensure!(
                        reader.skip_u64(n as u64).is_err(),
                        "skip_u64({}) at {} went beyond the payload {}",
                        n,
                        pos,
                        hex(&v)
                    ),
                    _ => ensure!(
                        reader.read_all(&mut vec![0; n]).is_err(),
                        "read_all({}) at {} went beyond the payload {}",
                        n,
                        pos,
                        hex(&v)
                    ),
                }
                if pos == target {
                    break;
                }
                continue;
            }
            if pos >= target {
                break;
            }
            p.ops += 1;
            let left = target - pos;
            let n = if draw(4) == 0 { left } else { 1 + draw(left as u64) as usize };
            match draw(8) {
                0 => {
                    let b = reader.read().map_err(|e| format!("read() at {} of {}: {:?}", pos, hex(&v), e))?;
                    ensure_eq!(b, v[pos], "byte {} of the payload {}", pos, hex(&v));
                    self.data.push(b);
                    pos += 1;
                }
                1 => {
                    reader.skip(n).map_err(|e| format!("skip({}) at {} of {}: {:?}", n, pos, hex(&v), e))?;
                    self.data.extend_from_slice(&v[pos..pos + n]);
                    p.skipped = true;
                    pos += n;
                }
                2 => {
                    reader
                        .skip_u64(n as u64)
                        .map_err(|e| format!("skip_u64({}) at {} of {}: {:?}", n, pos, hex(&v), e))?;
                    self.data.extend_from_slice(&v[pos..pos + n]);
                    p.skipped = true;
                    pos += n;
                }
                _ => {
                    let mut b = vec![0; n];
                    reader
                        .read_all(&mut b)
                        .map_err(|e| format!("read_all({}) at {} of {}: {:?}", n, pos, hex(&v), e))?;
                    ensure!(b[..] == v[pos..pos + n], "bytes at {} of the payload {}: {}", pos, hex(&v), hex(&b));
                    self.data.extend_from_slice(&b);
                    pos += n;
                }
            }
        }
        if short || error {
            p.bad = true;
        }
        self.fails = error;
        Ok(())
    }
}

/// The payloads of a tree in the order of their bytes.
fn payloads(t: &T, out: &mut Vec<Vec<u8>>) {
    match &t.v {
        V::PayA(v) => out.push(v.clone()),
        V::Arr(v) | V::Seq(v) | V::PayB(_, _, v) => v.iter().for_each(|t| payloads(t, out)),
        V::Dict(m) => m.values().for_each(|t| payloads(t, out)),
        _ => (),
    }
}

/// A registry with payloads, its factory with `Prog` in the place of `PayA`, a tree with
/// at least one of them, and the plan.
fn prog_case(s: &mut Src) -> (Reg, il2_iltags::tags::standard::ILStandardTagFactory, T, u64) {
    use il2_iltags::tags::standard::ILStandardTagFactory;
    let mut reg = Reg::std(s.chance(1, 2));
    let special = s.pick(&[26u64, 40, 1000, u64::MAX - 1]);
    reg.map.insert(special, Ty::PayB);
    let mut id = pay_id(s);
    if id == special {
        id = 29;
    }
    reg.map.insert(id, Ty::PayA);
    user_containers(s, &mut reg);
    // Only one type of payload follows the plan.
    let mut f: ILStandardTagFactory = factory(&reg);
    f.engine()
        .register(id, Box::new(ILDefaultWithIdTagCreator::<ProgTag>::new()));
    let n = match s.below(5) {
        0 => s.pick(&[0usize, 1, 247, 248, 249, 255, 256, 511, 512, 513, 1024]),
        1 => s.usize(3000),
        _ => s.usize(40),
    };
    let v = s.bytes(n);
    let levels = s.usize(4);
    let t = nest(s, T::new(id, V::PayA(v)), levels, &reg);
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        *p = Plan::default();
        payloads(&t, &mut p.expected);
        p.special = special;
        p.unknown = if reg.strict { Some(987_654_321) } else { None };
    });
    (reg, f, t, id)
}

fn c22_readers(s: &mut Src, ctx: &mut Ctx) -> R {
    let (_, f, t, _) = prog_case(s);
    let behaviour = s.below(8);
    let seed = s.any();
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        p.seed = seed;
        p.behaviour = behaviour;
    });
    let b = enc(&t);
    let rk = rk_any(s);
    // More data follows: a payload must not see it.
    let mut long = b.clone();
    let extra = s.bytes(8);
    long.extend_from_slice(&extra);
    ctx.describe(|| format!("{} behaviour {} over {:?}", show(&t), behaviour, rk));
    let how = s.below(2);
    let t_id = t.id;
    let pay = t.ty() == Ty::PayA;
    let (r, taken) = read_with(rk, &long, seed, |r| match how {
        1 => {
            let mut x: Box<dyn ILTag> = if pay { Box::new(ProgTag::new(t_id)) } else { empty(t.ty(), t_id) };
            f.deserialize_into(r, x.as_mut()).map(|_| x)
        }
        _ => f.deserialize(r),
    });
    let p = PLAN.with(|p| std::mem::take(&mut *p.borrow_mut()));
    if let Some(m) = p.problem {
        return Err(format!("{} (in {})", m, show(&t)));
    }
    ctx.extra += p.ops;
    ensure_eq!(
        r.is_ok(),
        !p.bad,
        "decoding ({:?}) where a payload misbehaved: {} (in {})",
        r.as_ref().err(),
        p.bad,
        show(&t)
    );
    if let Ok(x) = r {
        ensure_eq!(taken, b.len(), "bytes taken for {}", show(&t));
        ensure_eq!(p.next, p.expected.len(), "payloads decoded of {}", show(&t));
        let again = x.to_bytes().map_err(|e| format!("{:?}", e))?;
        ensure!(again == b, "serialized again: {}, expected {}", hex(&again), hex(&b));
        ensure_eq!(x.size(), b.len() as u64, "size()");
    }
    if p.bad {
        ctx.class("misbehaves");
    }
    if p.beyond {
        ctx.class("reads beyond");
    }
    if p.skipped {
        ctx.class("skips");
    }
    if p.bad || p.beyond || p.ops > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

#[derive(Default)]
struct Huge {
    n: u64,
}
impl ILTagPayload for Huge {
    fn serialized_size(&self) -> usize {
        self.n as usize
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        for _ in 0..self.n.min(4) {
            w.write(7)?;
        }
        Ok(())
    }
    fn deserialize(&mut self, _: &dyn ILTagFactory, size: usize, _: &mut dyn Reader) -> Result<()> {
        self.n = size as u64;
        Ok(())
    }
}

fn c22_sizes(s: &mut Src, ctx: &mut Ctx) -> R {
    use il2_iltags::tags::standard::*;
    let n = u64_any(s) >> 8;
    // Implicit identifiers have no length field.
    let id = if s.chance(1, 4) { s.below(16) } else { pay_id(s) };
    let mut t = ILGenericPayloadTag::<Huge>::new(id);
    ensure_eq!(t.payload().n, 0, "a new payload");
    t.mut_payload().n = n;
    ctx.describe(|| format!("tag {} with {} bytes", id, n));
    if n > 247 {
        ctx.nontrivial();
    }
    let full = |id: u64, n: u64| {
        if id < 16 {
            1 + n
        } else {
            (ref_ilint_size(id) + ref_ilint_size(n)) as u64 + n
        }
    };
    ensure_eq!(t.id(), id, "id()");
    ensure_eq!(t.value_size(), n, "value_size() of tag {}", id);
    ensure_eq!(t.size(), full(id, n), "size() of tag {} with {} bytes", id, n);
    ensure_eq!((t.is_implicity(), t.is_reserved()), (id < 16, id < 32), "is_implicity(), is_reserved() of {}", id);
    // Header
    let mut out = crate::rio::MinimalW::default();
    t.serialize(&mut out).map_err(|e| format!("{:?}", e))?;
    let mut want = ref_ilint(id);
    if id > 15 {
        want.extend(ref_ilint(n));
    }
    want.extend(vec![7; n.min(4) as usize]);
    ensure!(out.data == want, "header {} of tag {} with {} bytes", hex(&out.data), id, n);
    // In containers
    let m = u64_any(s) >> 8;
    let mut t2 = ILGenericPayloadTag::<Huge>::new(id);
    t2.mut_payload().n = m;
    let sum = full(id, n) + full(id, m);
    let mut seq = ILTagSeqTag::new();
    seq.mut_value().push(Box::new(t));
    seq.mut_value().push(Box::new(t2));
    ensure_eq!(seq.value_size(), sum, "value_size() of a sequence");
    ensure_eq!(seq.size(), full(22, sum), "size() of a sequence");
    let mut arr = ILTagArrayTag::new();
    arr.mut_value().append(seq.mut_value());
    ensure_eq!(arr.value_size(), sum + 1, "value_size() of an array");
    ensure_eq!(arr.size(), full(21, sum + 1), "size() of an array");
    let mut dict = ILDictTag::new();
    for (i, t) in arr.mut_value().drain(..).enumerate() {
        dict.insert(["a", "b"][i], t);
    }
    ensure_eq!(dict.value_size(), sum + 1 + 6, "value_size() of a dictionary");
    ensure_eq!(dict.size(), full(30, sum + 7), "size() of a dictionary");
    Ok(())
}

/// The tag passes on what it is given.
fn c22_direct(s: &mut Src, ctx: &mut Ctx) -> R {
    let id = u64_any(s);
    let n = s.usize(60);
    let v = s.bytes(n);
    let mut reg = Reg::std(true);
    reg.map.insert(40, Ty::PayB);
    let f = factory(&reg);
    let behaviour = s.below(2);
    let seed = s.any();
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        *p = Plan::default();
        p.expected.push(v.clone());
        p.special = 40;
        p.unknown = Some(987_654_321);
        p.seed = seed;
        p.behaviour = behaviour * 3;
    });
    ctx.describe(|| format!("tag {}: {} behaviour {}", id, hex(&v), behaviour));
    let mut t = ProgTag::default_with_id(id);
    ensure_eq!(t.id(), id, "id()");
    ensure!(t.payload().data.is_empty() && t.value_size() == 0, "a new payload is not empty");
    let (r, taken) = read_with(rk_any(s), &v, seed, |r| t.deserialize_value(&f, n, r));
    let p = PLAN.with(|p| std::mem::take(&mut *p.borrow_mut()));
    if let Some(m) = p.problem {
        return Err(m);
    }
    ensure_eq!(r.is_err(), t.payload().fails, "({:?}) where the payload reports", r);
    ensure_eq!(taken, t.payload().data.len(), "bytes taken");
    ensure_eq!(p.next, 1, "calls of the payload");
    ensure_eq!(t.id(), id, "id() after decoding");
    // Both ways to the payload show the same.
    ensure!(std::ptr::eq(t.payload(), &*t), "Deref gives another payload");
    let a = t.mut_payload() as *mut Prog;
    ensure!(std::ptr::eq(a, &mut *t), "DerefMut gives another payload");
    ensure!(std::ptr::eq(t.payload(), a), "mut_payload() gives another payload");
    let any: &dyn ILTag = &t;
    ensure!(
        tag_downcast_ref::<ProgTag>(any).map(|x| std::ptr::eq(x, &t)) == Some(true),
        "as_any() gives another tag"
    );
    ensure!(tag_downcast_ref::<PayATag>(any).is_none(), "downcast to another payload");
    if p.ops > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

/// A payload that reports an error when it is serialized, anywhere.
fn c22_unserializable(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = reg_any(s);
    let levels = s.usize(5);
    let bad = s.chance(1, 2);
    ctx.describe(|| format!("{} levels, fails: {}", levels, bad));
    let n = s.usize(300);
    let v = s.bytes(n);
    let id = explicit_id(s);
    let mut t = ProgTag::new(id);
    t.data = v.clone();
    t.fails = bad;
    let mut tag: Box<dyn ILTag> = Box::new(t);
    let mut m = T::new(id, V::PayA(v));
    for _ in 0..levels {
        use il2_iltags::tags::standard::*;
        let mut list = vec![tag];
        let mut ml = vec![m];
        if s.chance(1, 2) {
            let x = small_tag(s, &reg);
            list.insert(0, build(&x));
            ml.insert(0, x);
        }
        if s.chance(1, 2) {
            let x = small_tag(s, &reg);
            list.push(build(&x));
            ml.push(x);
        }
        match s.below(4) {
            0 => {
                let mut c = ILTagSeqTag::new();
                *c.mut_value() = list;
                tag = Box::new(c);
                m = T::std(V::Seq(ml));
            }
            1 => {
                let mut c = ILTagArrayTag::new();
                *c.mut_value() = list;
                tag = Box::new(c);
                m = T::std(V::Arr(ml));
            }
            2 => {
                let mut c = PayBTag::new(77);
                c.tags = list;
                tag = Box::new(c);
                m = T::new(77, V::PayB(0, String::new(), ml));
            }
            _ => {
                let mut c = ILDictTag::new();
                let mut d = std::collections::BTreeMap::new();
                for (i, (a, b)) in list.into_iter().zip(ml).enumerate() {
                    let k = format!("k{}", i);
                    c.insert(&k, a);
                    d.insert(k, b);
                }
                tag = Box::new(c);
                m = T::std(V::Dict(d));
            }
        }
    }
    let want = enc(&m);
    ensure_eq!(tag.size(), want.len() as u64, "size()");
    let mut w = crate::rio::MinimalW::default();
    let r = tag.serialize(&mut w);
    let b = tag.to_bytes();
    ensure_eq!(r.is_err(), bad, "serialize() ({:?})", r);
    ensure_eq!(b.is_err(), bad, "to_bytes()");
    ensure!(want.starts_with(&w.data), "written {}, not a prefix of {}", hex(&w.data), hex(&want));
    if let Ok(b) = b {
        ensure!(b == want, "to_bytes() gives {}, expected {}", hex(&b), hex(&want));
    }
    ensure_eq!(
        il2_iltags::tags::util::iltag_are_equal(tag.as_ref(), tag.as_ref()),
        !bad,
        "equality with itself"
    );
    if bad && levels > 0 {
        ctx.nontrivial();
    }
    Ok(())
}
