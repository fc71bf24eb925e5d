//! C23: the cost of measuring and serializing nested tags.
use super::*;
use crate::engine::mix;
use il2_iltags::io::array::ByteArrayReader;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use std::cell::Cell;

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C23",
        rule: "Containers of each kind, mixed, wide, random and user-defined nestings around instrumented leaf tags are measured, serialized, compared, cloned and decoded; the calls the leaves get and the bytes written are counted against a polynomial of depth and size. Non-trivial: containers nested at least 20 levels deep, or with at least 200 elements in a level.",
        assumptions: &[
            "the cost is the number of times the tags at the leaves are asked for their size, for their bytes or to be decoded, and the number of operations of the reader",
            "polynomial means at most 4 (d + 2)^3 per leaf at depth d; the present code needs about d + 2",
            "the suite on time takes the processor time of the thread, and tells 40 times from the 8 times of a linear cost",
        ],
        suites: vec![
            sweep("chains of one kind", 5 * 128, 5 * 128, c23_uniform),
            random("mixed chains", 6_000, 1_000_000, c23_mixed),
            random("siblings", 6_000, 1_000_000, c23_wide),
            random("trees", 6_000, 1_000_000, c23_trees),
            random("user containers", 3_000, 500_000, c23_user),
            sweep("time of wide values", 60, 6_000, c23_time),
        ],
    }]
}

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<u64> = const { Cell::new(u64::MAX) };
}
fn call() {
    CALLS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if n > CAP.with(|x| x.get()) {
            panic!("the tags at the leaves were visited more than {} times", n - 1);
        }
    });
}

const PROBE: u64 = 12_345;
/// A tag that counts the calls it receives.
#[derive(Default)]
struct Probe {
    v: Vec<u8>,
}
impl DefaultWithId for Probe {
    fn default_with_id(_: u64) -> Self {
        Probe::default()
    }
}
impl ILTag for Probe {
    fn id(&self) -> u64 {
        PROBE
    }
    fn value_size(&self) -> u64 {
        call();
        self.v.len() as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> {
        call();
        w.write_all(&self.v)?;
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
        call();
        self.v = vec![0; n];
        r.read_all(&mut self.v)?;
        Ok(())
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}
fn probe(n: usize) -> Box<dyn ILTag> {
    Box::new(Probe { v: vec![3; n] })
}

/// A writer that counts bytes only.
struct Count(u64);
impl Writer for Count {
    fn write(&mut self, _: u8) -> IoResult<()> {
        self.0 += 1;
        Ok(())
    }
    fn write_all(&mut self, b: &[u8]) -> IoResult<()> {
        self.0 += b.len() as u64;
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// A reader that counts the operations.
struct CountR<'a> {
    r: ByteArrayReader<'a>,
    ops: u64,
    max: u64,
}
impl<'a> CountR<'a> {
    fn op(&mut self) {
        self.ops += 1;
        if self.ops > self.max {
            panic!("decoding needed more than {} operations of the reader", self.max);
        }
    }
}
impl<'a> Reader for CountR<'a> {
    fn read(&mut self) -> IoResult<u8> {
        self.op();
        self.r.read()
    }
    fn read_all(&mut self, b: &mut [u8]) -> IoResult<()> {
        self.op();
        self.r.read_all(b)
    }
    fn skip(&mut self, n: usize) -> IoResult<()> {
        self.op();
        self.r.skip(n)
    }
}

/// Wraps tags in a container.
fn pack(kind: u64, list: Vec<Box<dyn ILTag>>) -> Box<dyn ILTag> {
    match kind {
        0 => {
            let mut c = ILTagSeqTag::new();
            *c.mut_value() = list;
            Box::new(c)
        }
        1 => {
            let mut c = ILTagArrayTag::new();
            *c.mut_value() = list;
            Box::new(c)
        }
        2 => {
            let mut c = ILDictTag::new();
            for (i, t) in list.into_iter().enumerate() {
                c.insert(&format!("{}", i), t);
            }
            Box::new(c)
        }
        3 => {
            let mut c = ILTagSeqTag::with_id(1000);
            *c.mut_value() = list;
            Box::new(c)
        }
        _ => {
            let mut c = ILTagArrayTag::with_id(1001);
            *c.mut_value() = list;
            Box::new(c)
        }
    }
}
const PACKS: [&str; 5] = ["sequence", "array", "dictionary", "custom sequence", "custom array"];

fn std_factory() -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(true);
    f.engine()
        .register(PROBE, Box::new(ILDefaultWithIdTagCreator::<Probe>::new()));
    f.engine()
        .register(1000, Box::new(ILDefaultWithIdTagCreator::<ILTagSeqTag>::new()));
    f.engine()
        .register(1001, Box::new(ILDefaultWithIdTagCreator::<ILTagArrayTag>::new()));
    f
}

fn measure<X>(what: &str, shape: &str, bound: u64, f: impl FnOnce() -> X) -> std::result::Result<X, String> {
    CALLS.with(|c| c.set(0));
    CAP.with(|c| c.set(bound));
    let r = catch(f);
    CAP.with(|c| c.set(u64::MAX));
    r.map_err(|e| format!("{} of {}: {}", what, shape, e))
}

/// All that may be done with a tag whose `leaves` leaves are at most `depth` levels deep.
fn all_of(tag: &dyn ILTag, depth: u64, leaves: u64, shape: &str, decode: bool) -> R {
    let bound = 4 * (depth + 2).pow(3) * leaves.max(1);
    let size = measure("size()", shape, bound, || tag.size())?;
    let vs = measure("value_size()", shape, bound, || tag.value_size())?;
    ensure!(vs < size, "value_size() {} and size() {} of {}", vs, size, shape);
    let mut w = Count(0);
    measure("serialize()", shape, bound, || tag.serialize(&mut w))?.map_err(|e| format!("{:?}", e))?;
    ensure_eq!(w.0, size, "bytes written for {}", shape);
    let b = measure("to_bytes()", shape, bound, || tag.to_bytes())?.map_err(|e| format!("{:?}", e))?;
    ensure_eq!(b.len() as u64, size, "bytes of {}", shape);
    ensure!(
        measure("iltag_are_equal()", shape, 2 * bound, || iltag_are_equal(tag, tag))?,
        "{} is not equal to itself",
        shape
    );
    if decode {
        let f = std_factory();
        let x = measure("iltag_clone_with_factory()", shape, 2 * bound, || iltag_clone_with_factory(&f, tag))?
            .map_err(|e| format!("iltag_clone_with_factory() of {}: {:?}", shape, e))?;
        ensure_eq!(x.size(), size, "size() of the clone of {}", shape);
        let mut r = CountR {
            r: ByteArrayReader::new(&b),
            ops: 0,
            // Each level may look again at what is below it.
            max: 4 * (depth + 2).pow(2) * b.len() as u64,
        };
        let y = measure("deserialize()", shape, bound, || f.deserialize(&mut r))?
            .map_err(|e| format!("deserialize() of {}: {:?}", shape, e))?;
        let again = measure("to_bytes()", shape, bound, || y.to_bytes())?.map_err(|e| format!("{:?}", e))?;
        ensure!(again == b, "{} decoded is serialized differently", shape);
    }
    Ok(())
}

fn c23_uniform(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(5 * 128);
    let (kind, depth) = (i / 128, i % 128);
    let mut t = probe(3);
    for _ in 0..depth {
        t = pack(kind, vec![t]);
    }
    let shape = format!("a tag in {} {}s", depth, PACKS[kind as usize]);
    ctx.describe(|| shape.clone());
    if depth >= 20 {
        ctx.nontrivial();
    }
    all_of(t.as_ref(), depth, 1, &shape, true)
}

fn c23_mixed(s: &mut Src, ctx: &mut Ctx) -> R {
    let depth = s.below(128);
    let mut t = probe(s.usize(300));
    let mut shape = String::from("a tag in");
    let mut leaves = 1;
    let siblings = s.chance(1, 2);
    for _ in 0..depth {
        let k = s.below(5);
        let mut list = vec![t];
        if siblings {
            for _ in 0..s.usize(3) {
                list.insert(s.usize(list.len() + 1), probe(1));
                leaves += 1;
            }
        }
        shape.push_str(&format!(" {}", k));
        t = pack(k, list);
    }
    ctx.describe(|| shape.clone());
    if depth >= 20 {
        ctx.nontrivial();
    }
    all_of(t.as_ref(), depth, leaves, &shape, true)
}

fn c23_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let depth = 1 + s.below(2);
    let n = match s.below(3) {
        0 => 200 + s.usize(200),
        1 => s.usize(50),
        _ => 600 + s.usize(900),
    };
    let k = s.below(5);
    let mut leaves = n as u64;
    let mut t = pack(k, (0..n).map(|_| probe(1)).collect());
    if depth == 2 {
        let m = s.usize(400);
        let mut list: Vec<Box<dyn ILTag>> = (0..m).map(|_| probe(1)).collect();
        list.insert(m / 2, t);
        leaves += m as u64;
        t = pack(s.below(5), list);
    }
    let shape = format!("{} tags in {} {} levels deep", leaves, PACKS[k as usize], depth);
    ctx.describe(|| shape.clone());
    if n >= 200 {
        ctx.nontrivial();
    }
    all_of(t.as_ref(), depth, leaves, &shape, true)
}

/// (tag, depth, leaves)
fn tree(s: &mut Src, budget: &mut u64, depth: u64) -> (Box<dyn ILTag>, u64, u64) {
    if *budget == 0 || depth == 0 {
        return (probe(1), 0, 1);
    }
    *budget -= 1;
    let n = s.below(4);
    let (mut list, mut d, mut l) = (vec![], 0, 0);
    for _ in 0..n {
        let (t, x, y) = tree(s, budget, depth - 1);
        list.push(t);
        d = d.max(x);
        l += y;
    }
    (pack(s.below(5), list), d + 1, l)
}

fn c23_trees(s: &mut Src, ctx: &mut Ctx) -> R {
    let (mut list, mut d, mut l) = (vec![], 0, 0);
    let mut budget = 60 + s.below(200);
    while budget > 0 && list.len() < 40 {
        let (t, x, y) = tree(s, &mut budget, 60);
        list.push(t);
        d = d.max(x);
        l += y;
    }
    let k = s.below(5);
    let t = pack(k, list);
    let shape = format!("a tree {} levels deep with {} leaves", d + 1, l);
    ctx.describe(|| shape.clone());
    if d >= 20 || l >= 200 {
        ctx.nontrivial();
    }
    all_of(t.as_ref(), d + 1, l, &shape, true)
}

/// Payloads of the user in between.
fn c23_user(s: &mut Src, ctx: &mut Ctx) -> R {
    let depth = s.below(60);
    let mut t = probe(2);
    for _ in 0..depth {
        t = if s.chance(1, 2) {
            let mut c = PayBTag::new(5000);
            c.tags.push(t);
            Box::new(c)
        } else {
            pack(s.below(5), vec![t])
        };
    }
    let shape = format!("a tag in {} containers of the library and of the user", depth);
    ctx.describe(|| shape.clone());
    if depth >= 20 {
        ctx.nontrivial();
    }
    all_of(t.as_ref(), depth, 1, &shape, false)
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}
/// Microseconds this thread has run.
pub(super) fn cpu_us() -> f64 {
    let mut t = [0i64; 2];
    // 3 is CLOCK_THREAD_CPUTIME_ID.
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 * 1e6 + t[1] as f64 / 1e3
}

/// A value with `n` elements of a kind.
pub(super) fn wide_value(kind: u64, key: u64, n: usize) -> T {
    let name = |i: usize| match key {
        0 => i.to_string(),
        1 => format!("{:06}", i),
        2 => format!("the same beginning of all the keys {:x}", i),
        _ => format!("{:x}", mix(i as u64)),
    };
    let leaf = |i: usize| match (key + i as u64) % 4 {
        0 => T::std(V::Null),
        1 => T::std(V::U8(i as u8)),
        2 => T::std(V::Str(i.to_string())),
        _ => T::std(V::ILInt(mix(i as u64))),
    };
    match kind {
        0 => T::std(V::Dict((0..n).map(|i| (name(i), leaf(i))).collect())),
        1 => T::std(V::StrDict((0..n).map(|i| (name(i), i.to_string())).collect())),
        2 => T::std(V::Arr((0..n).map(leaf).collect())),
        3 => T::std(V::Seq((0..n).map(leaf).collect())),
        4 => T::std(V::ILIntArr((0..n as u64).map(|i| if key == 0 { i } else { mix(i) }).collect())),
        5 => T::std(V::Oid((0..n as u64).map(|i| if key == 0 { i } else { mix(i) }).collect())),
        6 => T::std(V::Arr((0..n).map(|_| T::std(V::Seq(vec![]))).collect())),
        7 => T::std(V::Str(if key < 2 { "x".repeat(n) } else { "\u{e9}x\u{20ac}".repeat(n / 6) })),
        8 => T::std(V::Bytes(vec![key as u8; n])),
        9 => T::std(V::BigInt(vec![key as u8; n])),
        10 => T::std(V::BigDec(1, vec![key as u8; n])),
        11 => T::std(V::Arr(vec![wide_value(key % 4, 0, n), T::std(V::Null)])),
        _ => T::std(V::Seq(vec![wide_value(key % 4, 1, n / 2), wide_value(2, 1, n / 2)])),
    }
}
pub(super) const WIDE: [&str; 13] = [
    "dictionary", "dictionary of strings", "array", "sequence", "array of ILInt", "object identifier",
    "array of sequences", "string", "byte array", "big integer", "big decimal", "container in an array",
    "two containers in a sequence",
];
const OPS: [&str; 8] = [
    "size()", "value_size()", "serialize()", "to_bytes()", "iltag_are_equal()", "iltag_clone_with_factory()",
    "deserialize()", "from_bytes()",
];

/// The time of each operation, the least of two.
fn times(t: &T, which: [bool; 8]) -> [f64; 8] {
    let f = ILStandardTagFactory::new(true);
    let tag = build(t);
    let b = enc(t);
    let mut r = [f64::MAX; 8];
    for _ in 0..2 {
        for (k, x) in r.iter_mut().enumerate() {
            // What takes long takes about as long again.
            if !which[k] || (*x < f64::MAX && *x > 200_000.0) {
                continue;
            }
            let t0 = cpu_us();
            match k {
                0 => drop(std::hint::black_box(tag.size())),
                1 => drop(std::hint::black_box(tag.value_size())),
                2 => {
                    let mut w = Count(0);
                    let _ = std::hint::black_box(tag.serialize(&mut w));
                }
                3 => drop(std::hint::black_box(tag.to_bytes())),
                4 => drop(std::hint::black_box(iltag_are_equal(tag.as_ref(), tag.as_ref()))),
                5 => drop(std::hint::black_box(iltag_clone_with_factory(&f, tag.as_ref()))),
                6 => {
                    let mut rd = ByteArrayReader::new(&b);
                    drop(std::hint::black_box(f.deserialize(&mut rd)));
                }
                _ => drop(std::hint::black_box(f.from_bytes(&b))),
            }
            *x = x.min(cpu_us() - t0);
        }
    }
    r
}

/// Eight times as many elements take about eight times as long, and not the square of it. The
/// time is the one of the processor, which other processes hardly change, and a difference has
/// to show three times.
fn c23_time(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = s.index(4 * WIDE.len() as u64);
    let kind = i % WIDE.len() as u64;
    let key = i / WIDE.len() as u64;
    let n = match kind {
        7..=10 => 20_000 + s.usize(20_000),
        0 | 1 | 11 | 12 => 2_500 + s.usize(2_000),
        _ => 6_000 + s.usize(6_000),
    };
    let shape = format!("{} ({}) of {} elements", WIDE[kind as usize], key, n);
    ctx.describe(|| shape.clone());
    let (small, large) = (wide_value(kind, key, n), wide_value(kind, key, 8 * n));
    // The operations that were slow so far.
    let mut slow = [true; 8];
    let mut seen = [(0.0, 0.0); 8];
    for _ in 0..3 {
        let (a, b) = (times(&small, slow), times(&large, slow));
        for k in 0..8 {
            slow[k] = slow[k] && b[k] > 40.0 * a[k].max(100.0);
            seen[k] = (a[k], b[k]);
        }
        if slow == [false; 8] {
            break;
        }
    }
    ctx.nontrivial();
    for k in 0..8 {
        ensure!(
            !slow[k],
            "{} of a {} takes {:.0} us, and {:.0} us with 8 times as many",
            OPS[k],
            shape,
            seen[k].0,
            seen[k].1
        );
    }
    Ok(())
}
