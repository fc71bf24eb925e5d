//! C12: dictionaries.
use super::*;
use il2_iltags::io::array::*;
use il2_iltags::tags::standard::*;
use std::collections::BTreeMap;

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C12",
        rule: "Histories of insertions, overwrites, removals and clears over a few similar keys are applied to a dictionary and to an ordered map; results, lookups and canonical bytes are compared after each step, and so are other instances holding the same pairs inserted in another order. Both kinds decode each other's values. Non-trivial: at least two keys at the end.",
        assumptions: &[],
        suites: vec![
            random("dictionaries", 60_000, 20_000_000, c12_dict),
            random("string dictionaries", 60_000, 20_000_000, c12_str),
            random("order of keys", 60_000, 20_000_000, c12_order),
            random("decoded dictionaries", 60_000, 20_000_000, c12_decoded),
            random("many keys", 300, 40_000, c12_many),
        ],
    }]
}

fn value_bytes(t: &dyn ILTag) -> std::result::Result<Vec<u8>, String> {
    let mut w = VecWriter::new();
    t.serialize_value(&mut w).map_err(|e| format!("{:?}", e))?;
    Ok(w.into())
}

fn shuffled<X: Clone>(s: &mut Src, v: &[X]) -> Vec<X> {
    let mut v = v.to_vec();
    for i in (1..v.len()).rev() {
        let j = s.usize(i + 1);
        v.swap(i, j);
    }
    v
}

fn check_dict(d: &ILDictTag, id: u64, m: &BTreeMap<String, T>) -> R {
    let t = T::new(id, V::Dict(m.clone()));
    same(d, &t, "the dictionary")?;
    ensure_eq!(d.len(), m.len(), "len()");
    ensure_eq!(d.is_empty(), m.is_empty(), "is_empty()");
    let b = value_bytes(d)?;
    ensure!(
        b == enc_value(&t.v),
        "value of the dictionary {}: got {}, expected {}",
        show(&t),
        hex(&b),
        hex(&enc_value(&t.v))
    );
    ensure_eq!(d.value_size(), b.len() as u64, "value_size()");
    Ok(())
}

fn lookup_dict(d: &ILDictTag, k: &str, m: &BTreeMap<String, T>) -> R {
    match (d.get(k), m.get(k)) {
        (Some(t), Some(x)) => same(t, x, "get()"),
        (None, None) => Ok(()),
        (a, b) => Err(format!("get({:?}): found {}, expected {}", k, a.is_some(), b.is_some())),
    }
}

fn c12_dict(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(false);
    let id = if s.chance(1, 4) { explicit_id(s) } else { 30 };
    let mut d = ILDictTag::with_id(id);
    let mut m: BTreeMap<String, T> = BTreeMap::new();
    let n = 1 + s.usize(12);
    for _ in 0..n {
        let k = key_any(s);
        match s.weighted(&[8, 2, 2, 1, 1]) {
            0 => {
                let mut g = Gen::small(&reg);
                g.depth = 2;
                g.budget = 60;
                let t = g.tag(s);
                ctx.describe(|| format!("insert {:?} {}", k, show(&t)));
                let old = d.insert(&k, build(&t));
                match (old, m.insert(k.clone(), t)) {
                    (Some(a), Some(b)) => {
                        ctx.class("overwritten");
                        same(a.as_ref(), &b, "the tag insert() returns")?
                    }
                    (None, None) => (),
                    (a, b) => {
                        return Err(format!(
                            "insert({:?}) returned a tag: {}, expected: {}",
                            k,
                            a.is_some(),
                            b.is_some()
                        ))
                    }
                }
            }
            1 => {
                ctx.describe(|| format!("remove {:?}", k));
                let a = d.mut_value().remove(&k).is_some();
                ensure_eq!(a, m.remove(&k).is_some(), "removal of {:?}", k);
                if a {
                    ctx.class("removed");
                }
            }
            2 => lookup_dict(&d, &k, &m)?,
            3 => {
                d.mut_value().clear();
                m.clear();
            }
            _ => {
                if let Some(t) = m.get_mut(&k) {
                    mutate(s, d.mut_value().get_mut(&k).unwrap().as_mut(), t, &reg);
                }
            }
        }
        check_dict(&d, id, &m)?;
        ctx.extra += 1;
    }
    for k in m.keys() {
        lookup_dict(&d, k, &m)?;
    }
    if m.len() >= 2 {
        ctx.nontrivial();
    }
    // Another instance, in another order.
    let keys: Vec<String> = m.keys().cloned().collect();
    let mut e = ILDictTag::with_id(id);
    for k in shuffled(s, &keys) {
        ensure!(e.insert(&k, build(&m[&k])).is_none(), "insert() of a new key returned a tag");
    }
    check_dict(&e, id, &m)?;
    let (a, b) = (d.to_bytes().map_err(|e| format!("{:?}", e))?, e.to_bytes().map_err(|e| format!("{:?}", e))?);
    ensure!(a == b, "two dictionaries with the same pairs: {} and {}", hex(&a), hex(&b));
    Ok(())
}

fn check_str(d: &ILStrDictTag, id: u64, m: &BTreeMap<String, String>) -> R {
    let t = T::new(id, V::StrDict(m.clone()));
    same(d, &t, "the string dictionary")?;
    ensure_eq!(d.len(), m.len(), "len()");
    ensure_eq!(d.is_empty(), m.is_empty(), "is_empty()");
    let b = value_bytes(d)?;
    ensure!(
        b == enc_value(&t.v),
        "value of {}: got {}, expected {}",
        show(&t),
        hex(&b),
        hex(&enc_value(&t.v))
    );
    ensure_eq!(d.value_size(), b.len() as u64, "value_size()");
    Ok(())
}

/// The dictionary of string tags with the same pairs.
fn as_dict(m: &BTreeMap<String, String>) -> BTreeMap<String, T> {
    m.iter()
        .map(|(k, v)| (k.clone(), T::std(V::Str(v.clone()))))
        .collect()
}

fn compatible(s: &mut Src, m: &BTreeMap<String, String>, reg: &Reg) -> R {
    let f = factory(reg);
    let (mut a, mut b) = (ILDictTag::new(), ILStrDictTag::new());
    let keys: Vec<String> = m.keys().cloned().collect();
    for k in shuffled(s, &keys) {
        a.insert(&k, Box::new(ILStringTag::with_value(&m[&k])));
    }
    for k in shuffled(s, &keys) {
        b.insert(&k, &m[&k]);
    }
    let (x, y) = (value_bytes(&a)?, value_bytes(&b)?);
    ensure!(
        x == y,
        "the values of both kinds differ for {:?}: {} and {}",
        m,
        hex(&x),
        hex(&y)
    );
    ensure_eq!(a.value_size(), b.value_size(), "value_size() of both kinds");
    // Each decodes the other, over whatever it had.
    let mut a2 = ILDictTag::new();
    a2.insert("a", Box::new(ILNullTag::new()));
    a2.insert("old", Box::new(ILNullTag::new()));
    let mut r = ByteArrayReader::new(&y);
    a2.deserialize_value(&f, y.len(), &mut r)
        .map_err(|e| format!("a dictionary cannot decode {}: {:?}", hex(&y), e))?;
    ensure_eq!(r.available(), 0, "bytes left");
    check_dict(&a2, 30, &as_dict(m))?;
    let mut b2 = ILStrDictTag::new();
    b2.insert("a", "old");
    b2.insert("older", "old");
    let mut r = ByteArrayReader::new(&x);
    b2.deserialize_value(&f, x.len(), &mut r)
        .map_err(|e| format!("a string dictionary cannot decode {}: {:?}", hex(&x), e))?;
    ensure_eq!(r.available(), 0, "bytes left");
    check_str(&b2, 31, m)
}

fn c12_str(s: &mut Src, ctx: &mut Ctx) -> R {
    let id = if s.chance(1, 4) { explicit_id(s) } else { 31 };
    let mut d = ILStrDictTag::with_id(id);
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let n = 1 + s.usize(12);
    for _ in 0..n {
        let k = key_any(s);
        match s.weighted(&[8, 2, 2, 1, 1]) {
            0 => {
                let v = string_any(s, 300);
                ctx.describe(|| format!("insert {:?} {:?}", k, clip(&v, 40)));
                let old = d.insert(&k, &v);
                let want = m.insert(k.clone(), v);
                ensure_eq!(old, want, "insert({:?})", k);
                if want.is_some() {
                    ctx.class("overwritten");
                }
            }
            1 => {
                ctx.describe(|| format!("remove {:?}", k));
                let a = d.mut_value().remove(&k);
                let b = m.remove(&k);
                ensure_eq!(a, b, "removal of {:?}", k);
                if b.is_some() {
                    ctx.class("removed");
                }
            }
            2 => ensure_eq!(d.get(&k), m.get(&k).map(|x| x.as_str()), "get({:?})", k),
            3 => {
                d.mut_value().clear();
                m.clear();
            }
            _ => {
                if let Some(x) = m.get_mut(&k) {
                    x.push('é');
                    d.mut_value().get_mut(&k).unwrap().push('é');
                }
            }
        }
        check_str(&d, id, &m)?;
        ctx.extra += 1;
    }
    for k in m.keys() {
        ensure_eq!(d.get(k), m.get(k).map(|x| x.as_str()), "get({:?})", k);
    }
    if m.len() >= 2 {
        ctx.nontrivial();
    }
    let reg = Reg::std(s.chance(1, 2));
    compatible(s, &m, &reg)
}

/// Keys in order of their bytes, whatever they are.
fn c12_order(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 2 + s.usize(9);
    let mut m = BTreeMap::new();
    let stem = if s.chance(1, 20) {
        let k = s.range(4, 12);
        let l = s.usize(1 << k);
        string_len(s, l)
    } else {
        key_any(s)
    };
    let mut keys: Vec<String> = Vec::new();
    for _ in 0..n {
        let k = match s.below(3) {
            0 => key_any(s),
            1 => {
                // Variations of one another: prefixes, cases, lengths.
                let l = s.usize(4);
                if s.chance(1, 3) && !keys.is_empty() {
                    let k = s.usize(keys.len());
                    vary_text(s, &keys[k])
                } else {
                    format!("{}{}", stem, string_len(s, l))
                }
            }
            _ => {
                let l = 1 + s.usize(8);
                string_len(s, l)
            }
        };
        let v = key_any(s);
        m.insert(k.clone(), v);
        keys.push(k);
    }
    if m.len() >= 2 {
        ctx.nontrivial();
    }
    ctx.describe(|| clip(&format!("{:?}", keys), 300));
    let mut first: Option<Vec<u8>> = None;
    let reg = Reg::std(true);
    for round in 0..3 {
        let mut d = ILStrDictTag::new();
        let mut e = ILDictTag::new();
        let distinct: Vec<String> = m.keys().cloned().collect();
        for k in shuffled(s, &keys) {
            d.insert(&k, "overwritten");
            e.insert(&k, Box::new(ILUInt8Tag::with_value(3)));
        }
        if round == 1 {
            d.mut_value().retain(|k, _| k.len() % 2 == 0);
            e.mut_value().retain(|k, _| k.len() % 2 == 0);
        }
        for k in shuffled(s, &distinct) {
            d.insert(&k, &m[&k]);
            e.insert(&k, Box::new(ILStringTag::with_value(&m[&k])));
        }
        let b = value_bytes(&d)?;
        let c = value_bytes(&e)?;
        ensure!(b == c, "both kinds differ for {:?}: {} and {}", m, hex(&b), hex(&c));
        let want = enc_value(&V::StrDict(m.clone()));
        ensure!(b == want, "value for {:?}: got {}, expected {}", m, hex(&b), hex(&want));
        match &first {
            Some(x) => ensure!(*x == b, "the value depends on the history for {:?}", m),
            None => first = Some(b),
        }
        ctx.extra += 1;
    }
    compatible(s, &m, &reg)
}

/// Dictionaries that come from bytes: any order, repeated keys, values of other types.
fn c12_decoded(s: &mut Src, ctx: &mut Ctx) -> R {
    let reg = Reg::std(s.chance(1, 2));
    let f = factory(&reg);
    // With many, some of the keys come again.
    let many = s.chance(1, 60);
    let n = if many { 20 + s.usize(300) } else { s.usize(7) };
    let range = 1 + s.below(2 * n as u64 + 1);
    let all_str = s.chance(2, 3);
    let mut val = ref_ilint(n as u64);
    let mut keys = Vec::new();
    for _ in 0..n {
        let k = if many { format!("{}", s.below(range)) } else { key_any(s) };
        val.extend(enc(&T::std(V::Str(k.clone()))));
        keys.push(k);
        if all_str || s.chance(1, 2) {
            let v = key_any(s);
            val.extend(enc(&T::std(V::Str(v))));
        } else {
            let mut g = Gen::small(&reg);
            g.depth = 2;
            g.budget = 60;
            let t = g.tag(s);
            val.extend(enc(&t));
        }
    }
    let k = s.usize(4);
    let extra = s.bytes(k);
    if n >= 2 {
        ctx.nontrivial();
    }
    ctx.key = Some(hash_bytes(&val));
    ctx.describe(|| hex(&val));
    let mut long = val.clone();
    long.extend(&extra);
    // As a dictionary.
    let want = dec_value(&reg, Ty::Dict, &val);
    let mut d = ILDictTag::new();
    d.insert("a", Box::new(ILNullTag::new()));
    let mut r = ByteArrayReader::new(&long);
    let got = d.deserialize_value(&f, val.len(), &mut r);
    ensure_eq!(got.is_ok(), want.is_ok(), "decoding {} as a dictionary", hex(&val));
    if let Ok(V::Dict(m)) = &want {
        ctx.class("dictionary");
        ensure_eq!(r.offset(), val.len(), "bytes consumed");
        check_dict(&d, 30, m)?;
        // Whatever the bytes were, what is written again is canonical.
        let again = value_bytes(&d)?;
        let mut e = ILDictTag::new();
        for k in shuffled(s, &m.keys().cloned().collect::<Vec<_>>()) {
            e.insert(&k, build(&m[&k]));
        }
        ensure!(again == value_bytes(&e)?, "a decoded dictionary is not written canonically");
    }
    // As a string dictionary.
    let want = dec_value(&reg, Ty::StrDict, &val);
    let mut d = ILStrDictTag::new();
    d.insert("a", "old");
    let mut r = ByteArrayReader::new(&long);
    let got = d.deserialize_value(&f, val.len(), &mut r);
    ensure_eq!(got.is_ok(), want.is_ok(), "decoding {} as a string dictionary", hex(&val));
    if let Ok(V::StrDict(m)) = &want {
        ctx.class("string dictionary");
        ensure_eq!(r.offset(), val.len(), "bytes consumed");
        check_str(&d, 31, m)?;
        compatible(s, m, &reg)?;
    }
    Ok(())
}

fn c12_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.pick(&[100usize, 246, 247, 248, 249, 250, 255, 256, 257, 300, 503, 504, 505, 1000]);
    let seed = s.any();
    let mut m = BTreeMap::new();
    for i in 0..n as u64 {
        let r = mix(seed ^ i);
        let k = match r % 3 {
            0 => format!("{}", i),
            1 => format!("{:x}", r >> 40),
            _ => format!("{}é{}", r % 7, i),
        };
        m.insert(k, format!("{}", r % 1000));
    }
    ctx.nontrivial();
    ctx.describe(|| format!("{} keys", m.len()));
    let reg = Reg::std(true);
    compatible(s, &m, &reg)?;
    let mut d = ILStrDictTag::new();
    for (k, v) in &m {
        d.insert(k, v);
    }
    check_str(&d, 31, &m)
}
