//! C13: registries of tag creators.
use super::*;
use il2_iltags::io::array::*;
use il2_iltags::tags::standard::factory::create_std_engine;
use il2_iltags::tags::standard::*;
use std::any::Any;
use std::collections::BTreeMap;

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C13",
        rule: "Histories of up to 25 registrations, deregistrations, creations and decodes on two factories and one bare engine at once, that are replaced by new ones now and then, over identifiers that coincide in their lower 8, 16 or 32 bits, and histories of up to 262,144 registrations in one registry; creators carry a mark that tells which one made a tag or was returned. Compared with a map per registry. Non-trivial: at least one registration replaced or removed another.",
        assumptions: &["Only built-in types are decoded at the identifiers 10 and 14, whose values have no declared length."],
        suites: vec![
            random("histories", 60_000, 20_000_000, c13_history),
            random("any identifier on a new factory", 100_000, 20_000_000, c13_fresh),
            random("many registrations", 250, 30_000, c13_many),
            sweep("small identifiers", 66_000, 200_000, c13_small),
        ],
    }]
}

/// A tag that knows which creator made it.
struct Marked {
    id: u64,
    mark: u64,
    value: Vec<u8>,
}
impl ILTag for Marked {
    fn id(&self) -> u64 {
        self.id
    }
    fn value_size(&self) -> u64 {
        self.value.len() as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> {
        w.write_all(&self.value)?;
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
        self.value.resize(n, 0);
        r.read_all(&mut self.value)?;
        Ok(())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}
struct Creator(u64);
impl ILTagCreator for Creator {
    fn create_empty_tag(&self, tag_id: u64) -> Box<dyn ILTag> {
        Box::new(Marked {
            id: tag_id,
            mark: self.0,
            value: Vec::new(),
        })
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Who {
    Std(Ty),
    Mark(u64),
    Nobody,
}

fn ids(s: &mut Src) -> u64 {
    const BASE: [u64; 12] = [17, 0, 1, 9, 10, 14, 15, 16, 22, 31, 32, 100];
    let b = s.pick(&BASE);
    match s.weighted(&[10, 3, 3, 3, 2, 2]) {
        0 => b,
        1 => b + 256 * (1 + s.below(3)),
        2 => b + 65536 * (1 + s.below(3)),
        3 => b + (1u64 << 32) * (1 + s.below(3)),
        4 => b + (1u64 << s.range(8, 63)),
        _ => u64_any(s),
    }
}

fn is_type(tag: &dyn ILTag, ty: Ty) -> bool {
    with_type!(ty, X => tag.as_any().is::<X>())
}

fn std_type(id: u64) -> Option<Ty> {
    STD_TYPES.iter().find(|x| x.0 == id).map(|x| x.1)
}

/// Checks a created (empty) tag.
fn created(tag: Option<Box<dyn ILTag>>, id: u64, who: Who, strict: bool, what: &str) -> R {
    match (who, tag) {
        (Who::Nobody, None) => {
            ensure!(
                strict || id <= 15,
                "{}: no tag for the unknown identifier {} in non-strict mode",
                what,
                id
            );
            Ok(())
        }
        (Who::Nobody, Some(t)) => {
            ensure!(!strict, "{}: a strict registry made a tag for the unknown identifier {}", what, id);
            ensure!(id > 15, "{}: a tag for the unknown implicit identifier {}", what, id);
            ensure!(
                t.as_any().is::<ILRawTag>(),
                "{}: the tag for the unknown identifier {} is not raw",
                what,
                id
            );
            same(t.as_ref(), &T::new(id, V::Raw(vec![])), what)
        }
        (Who::Std(ty), Some(t)) => {
            ensure!(is_type(t.as_ref(), ty), "{}: the tag for {} is not {:?}", what, id, ty);
            same(t.as_ref(), &T::new(id, V::zero(ty)), what)
        }
        (Who::Mark(m), Some(t)) => match t.as_any().downcast_ref::<Marked>() {
            Some(x) => {
                ensure_eq!(x.mark, m, "{}: creator used for {}", what, id);
                ensure_eq!(x.id, id, "{}: identifier given to the creator", what);
                Ok(())
            }
            None => Err(format!("{}: the creator registered for {} was not used", what, id)),
        },
        (w, None) => Err(format!("{}: no tag for {} ({:?})", what, id, w)),
    }
}

/// Checks the creator that was displaced.
fn displaced(old: Option<Box<dyn ILTagCreator>>, id: u64, who: Who, what: &str) -> R {
    match (old, who) {
        (None, Who::Nobody) => Ok(()),
        (None, w) => Err(format!("{} of {} returned no creator, expected {:?}", what, id, w)),
        (Some(_), Who::Nobody) => Err(format!("{} of {} returned a creator, expected none", what, id)),
        (Some(c), Who::Std(ty)) => {
            let t = crate::engine::catch(|| c.create_empty_tag(id))
                .map_err(|e| format!("{} of {} returned a creator that cannot make it: {}", what, id, e))?;
            created(Some(t), id, Who::Std(ty), true, what)
        }
        (Some(c), w) => created(Some(c.create_empty_tag(id)), id, w, true, what),
    }
}

/// A registry of the library with its model.
enum Real {
    Engine(ILTagCreatorEngine),
    Factory(ILStandardTagFactory),
}
struct Both {
    real: Real,
    strict: bool,
    map: BTreeMap<u64, Who>,
}
impl Both {
    fn engine(&mut self) -> &mut ILTagCreatorEngine {
        match &mut self.real {
            Real::Engine(e) => e,
            Real::Factory(f) => f.engine(),
        }
    }
    fn who(&self, id: u64) -> Who {
        self.map.get(&id).copied().unwrap_or(Who::Nobody)
    }
    fn create(&mut self, id: u64) -> R {
        let (who, strict) = (self.who(id), self.strict);
        let what = if self.engine().strict() != strict {
            return Err("strict() is wrong".to_string());
        } else {
            "create_tag()"
        };
        created(self.engine().create_tag(id), id, who, strict, what)?;
        if let Real::Factory(f) = &self.real {
            created(f.create_tag(id), id, who, strict, "create_tag() of the factory")?;
        }
        Ok(())
    }
    fn decode(&mut self, s: &mut Src, id: u64) -> R {
        if id == 10 || id == 14 || id == 15 {
            return Ok(());
        }
        let (who, strict) = (self.who(id), self.strict);
        let f = match &self.real {
            Real::Factory(f) => f,
            _ => return Ok(()),
        };
        let n = match implicit_size(id) {
            Some(n) => n,
            None => s.usize(20),
        };
        let mut val = s.bytes(n);
        let reg = Reg::std(true);
        if let Who::Std(ty) = who {
            let mut g = Gen::small(&reg);
            g.depth = 0;
            val = enc_value(&g.value(s, ty));
        }
        let mut b = ref_ilint(id);
        if id > 15 {
            b.extend(ref_ilint(val.len() as u64));
        }
        b.extend(&val);
        // Nested, now and then: the same registry decides.
        let nested = s.chance(1, 3) && matches!(self.map.get(&22), Some(Who::Std(Ty::Seq)));
        if nested {
            let mut o = vec![22];
            o.extend(ref_ilint(b.len() as u64));
            o.extend(&b);
            b = o;
        }
        let r = f.deserialize(&mut ByteArrayReader::new(&b));
        let what = format!("decoding {} (strict: {}, {:?})", hex(&b), strict, who);
        let known = who != Who::Nobody || (!strict && id > 15);
        let outer = match r {
            Err(e) => {
                ensure!(!known, "{}: refused with {:?}", what, e);
                ensure!(
                    matches!(e, ErrorKind::UnknownTag),
                    "{}: an unknown identifier was refused with {:?}",
                    what,
                    e
                );
                return Ok(());
            }
            Ok(t) => t,
        };
        ensure!(known, "{}: an unknown tag was decoded", what);
        let t: &dyn ILTag = if nested {
            match outer.as_any().downcast_ref::<ILTagSeqTag>() {
                Some(q) if q.value().len() == 1 => q.value()[0].as_ref(),
                _ => return Err(format!("{}: not a sequence of one tag", what)),
            }
        } else {
            outer.as_ref()
        };
        match who {
            Who::Nobody => same(t, &T::new(id, V::Raw(val)), &what),
            Who::Std(ty) => {
                let v = if id == 10 || id == 14 {
                    return Ok(());
                } else {
                    dec_value(&reg, ty, &val).map_err(|e| format!("reference: {:?}", e))?
                };
                same(t, &T::new(id, v), &what)
            }
            Who::Mark(m) => match t.as_any().downcast_ref::<Marked>() {
                Some(x) => {
                    ensure_eq!(x.mark, m, "{}: creator used", what);
                    ensure_eq!(x.id, id, "{}: identifier", what);
                    ensure!(x.value == val, "{}: value", what);
                    ensure!(t.to_bytes().ok().is_some(), "{}: serialization", what);
                    Ok(())
                }
                None => Err(format!("{}: the registered creator was not used", what)),
            },
        }
    }
}

fn std_map() -> BTreeMap<u64, Who> {
    STD_TYPES.iter().map(|(i, t)| (*i, Who::Std(*t))).collect()
}

fn c13_history(s: &mut Src, ctx: &mut Ctx) -> R {
    fn some(s: &mut Src, kind: usize) -> Both {
        let strict = s.chance(1, 2);
        let (real, map) = match kind {
            2 if s.chance(1, 2) => (Real::Engine(ILTagCreatorEngine::new(strict)), BTreeMap::new()),
            2 => (Real::Engine(create_std_engine(strict)), std_map()),
            _ => (Real::Factory(ILStandardTagFactory::new(strict)), std_map()),
        };
        Both { real, strict, map }
    }
    let mut regs: Vec<Both> = (0..3).map(|kind| some(s, kind)).collect();
    let pool: Vec<u64> = (0..4).map(|_| ids(s)).collect();
    let mut marks = 0;
    let n = 1 + s.usize(25);
    let mut seen: Vec<u64> = Vec::new();
    for _ in 0..n {
        let r = s.usize(3);
        let id = if s.chance(3, 4) { s.pick(&pool) } else { ids(s) };
        seen.push(id);
        ctx.extra += 1;
        match s.weighted(&[12, 6, 6, 8, 1]) {
            0 => {
                marks += 1;
                let old = regs[r].engine().register(id, Box::new(Creator(marks)));
                ctx.describe(|| format!("{}: register {} as {}", r, id, marks));
                let was = regs[r].map.insert(id, Who::Mark(marks)).unwrap_or(Who::Nobody);
                if was != Who::Nobody {
                    ctx.nontrivial();
                    ctx.class("replaced");
                }
                displaced(old, id, was, "register()")?;
            }
            1 => {
                let old = regs[r].engine().deregister(id);
                ctx.describe(|| format!("{}: deregister {}", r, id));
                let was = regs[r].map.remove(&id).unwrap_or(Who::Nobody);
                if was != Who::Nobody {
                    ctx.nontrivial();
                    ctx.class("removed");
                }
                displaced(old, id, was, "deregister()")?;
            }
            2 => {
                ctx.describe(|| format!("{}: create {}", r, id));
                regs[r].create(id)?
            }
            4 => {
                // A new one takes its place, or comes and goes.
                let stays = s.chance(1, 2);
                let kind = s.usize(3);
                let mut new = some(s, kind);
                ctx.describe(|| format!("{}: {} registry {}", r, if stays { "a new" } else { "a short-lived" }, kind));
                new.create(id)?;
                if stays {
                    regs[r] = new;
                }
            }
            _ => {
                ctx.describe(|| format!("{}: decode {}", r, id));
                regs[r].decode(s, id)?
            }
        }
    }
    seen.extend(pool);
    seen.extend([0, 10, 15, 16, 17, 22, 31]);
    seen.sort();
    seen.dedup();
    for r in regs.iter_mut() {
        for id in &seen {
            r.create(*id)?;
            r.decode(s, *id)?;
        }
    }
    Ok(())
}

fn fresh(s: &mut Src, id: u64) -> R {
    for strict in [false, true] {
        let mut b = Both {
            real: Real::Factory(ILStandardTagFactory::new(strict)),
            strict,
            map: std_map(),
        };
        b.create(id)?;
        b.decode(s, id)?;
        if std_type(id).is_none() {
            let mut e = Both {
                real: Real::Engine(ILTagCreatorEngine::new(strict)),
                strict,
                map: BTreeMap::new(),
            };
            e.create(id)?;
        }
    }
    Ok(())
}

fn c13_fresh(s: &mut Src, ctx: &mut Ctx) -> R {
    let id = ids(s);
    ctx.key = Some(id);
    if std_type(id).is_none() {
        ctx.nontrivial();
    }
    ctx.describe(|| format!("{}", id));
    fresh(s, id)
}
fn c13_small(s: &mut Src, ctx: &mut Ctx) -> R {
    let id = s.index(200_000);
    ctx.key = Some(id);
    ctx.nontrivial();
    ctx.describe(|| format!("{}", id));
    fresh(s, id)
}

/// Many registrations in one registry.
fn c13_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let top = if s.chance(1, 12) { 17 } else { 13 };
    let k = s.range(4, top);
    let n = (1u64 << k) + s.below(1 << k);
    let strict = s.chance(1, 2);
    let (real, map) = match s.below(3) {
        0 => (Real::Engine(ILTagCreatorEngine::new(strict)), BTreeMap::new()),
        1 => (Real::Engine(create_std_engine(strict)), std_map()),
        _ => (Real::Factory(ILStandardTagFactory::new(strict)), std_map()),
    };
    let mut b = Both { real, strict, map };
    let (z, kind) = (s.any(), s.below(5));
    let start = if s.chance(1, 2) { 32 } else { u64_any(s) };
    let shift = s.range(1, 47) as u32;
    let space = 1 + s.below(2 * n);
    let id = |i: u64| match kind {
        0 => start.wrapping_add(i),
        1 => start.wrapping_add(i << shift),
        2 => mix(z ^ i),
        // Again and again.
        3 => start.wrapping_add(mix(z ^ i) % space),
        _ => start.wrapping_add((i % 7) << shift),
    };
    let (gone, again) = (s.below(4), s.below(4));
    ctx.describe(|| format!("{} registrations of kind {} from {}, shift {}, {}, {}", n, kind, start, shift, gone, again));
    ctx.nontrivial();
    let mut mark = 0;
    let mut step = |b: &mut Both, i: u64, add: bool| -> R {
        if add {
            mark += 1;
            let old = b.engine().register(id(i), Box::new(Creator(mark)));
            let was = b.map.insert(id(i), Who::Mark(mark)).unwrap_or(Who::Nobody);
            displaced(old, id(i), was, "register()")
        } else {
            let old = b.engine().deregister(id(i));
            let was = b.map.remove(&id(i)).unwrap_or(Who::Nobody);
            displaced(old, id(i), was, "deregister()")
        }
    };
    for i in 0..n {
        step(&mut b, i, true)?;
        if gone == 1 {
            step(&mut b, i / 2, false)?;
        }
    }
    for i in 0..n {
        b.create(id(i))?;
    }
    if gone > 1 {
        for i in 0..n {
            if gone == 3 || mix(z ^ i) & 1 == 0 {
                step(&mut b, i, false)?;
            }
        }
    }
    if again > 1 {
        for i in 0..n {
            if again == 3 || mix(z ^ i) & 2 == 0 {
                step(&mut b, i, true)?;
            }
        }
    }
    for i in 0..n {
        b.create(id(i))?;
    }
    for i in (0..40).chain([u64::MAX, start.wrapping_sub(1), start.wrapping_add(n)]) {
        b.create(i)?;
        b.decode(s, i)?;
    }
    Ok(())
}
