//! C20: keys which report being hashed and compared, with the hash codes the scenario gives them.  Every lookup
//! reports how often a key was hashed and which stored keys were compared with which probe; every construction the
//! memory the collection keeps beyond its entries.
#![allow(dead_code, clippy::all)]
mod common;
use common::hb::{DEFAULT_MODE, HASHED, HB};
use common::json::J;
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::*;
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::*;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

thread_local! {
    static CMPS: RefCell<Vec<(u32, u32)>> = RefCell::new(Vec::with_capacity(1 << 16));
    static HASHES: Cell<u32> = const { Cell::new(0) };
}
/// probes have the numbers from here on
const PROBE: u32 = 1_000_000;
/// keys with such a tag are too short for their slice
const SHORT: u32 = 1000;

fn compared(a: u32, b: u32) {
    let (p, s) = if a >= PROBE { (a, b) } else { (b, a) };
    if p >= PROBE && s >= 1 && s < PROBE {
        CMPS.with(|c| c.borrow_mut().push((p - PROBE + 1, s)))
    }
}

#[derive(Clone, Debug)]
struct EK {
    code: u64,
    tag: u32,
    id: u32,
}
impl PartialEq for EK {
    fn eq(&self, o: &EK) -> bool {
        compared(self.id, o.id);
        self.code == o.code && self.tag == o.tag
    }
}
impl Eq for EK {}
impl Hash for EK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        HASHES.with(|c| c.set(c.get() + 1));
        h.write_u64(self.code)
    }
}
impl Len for EK {
    fn len(&self) -> usize {
        self.code as usize
    }
}
/// a key for the slice collections
#[derive(Clone, Debug)]
struct SK(EK);
impl PartialEq for SK {
    fn eq(&self, o: &SK) -> bool {
        self.0 == o.0
    }
}
impl Eq for SK {}
impl Hash for SK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        Hash::hash(&self.0, h)
    }
}
impl Len for SK {
    fn len(&self) -> usize {
        if self.0.tag >= SHORT {
            1
        } else {
            8
        }
    }
}
impl SliceHash for SK {
    fn hash<BH: BuildHasher>(&self, bh: &BH, _: Range<usize>) -> u64 {
        bh.hash_one(&self.0)
    }
}

thread_local! { static REG: RefCell<Vec<(u64, u32, u32)>> = const { RefCell::new(vec![]) }; }
/// a key of four bytes without a destructor: what it is lies elsewhere
#[derive(Clone, Copy, Debug)]
struct PK(u32);
fn reg(p: PK) -> EK {
    REG.with(|r| r.borrow().get(p.0 as usize).map(|x| EK { code: x.0, tag: x.1, id: x.2 }).expect("HARNESS: registry"))
}
impl PartialEq for PK {
    fn eq(&self, o: &PK) -> bool {
        reg(*self) == reg(*o)
    }
}
impl Eq for PK {}
impl Hash for PK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        Hash::hash(&reg(*self), h)
    }
}
/// a key of one word, with a destructor
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct BK(Box<EK>);
/// a bulky key
#[derive(Clone, Debug)]
struct WK([u64; 9], EK);
impl PartialEq for WK {
    fn eq(&self, o: &WK) -> bool {
        self.1 == o.1
    }
}
impl Eq for WK {}
impl Hash for WK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        Hash::hash(&self.1, h)
    }
}

/// an integer key
#[derive(Clone, Copy, Debug)]
struct IK {
    n: u64,
    id: u32,
}
fn ik(n: u64) -> IK {
    IK { n, id: 0 }
}
impl PartialEq for IK {
    fn eq(&self, o: &IK) -> bool {
        compared(self.id, o.id);
        self.n == o.n
    }
}
impl Eq for IK {}
impl PartialOrd for IK {
    fn partial_cmp(&self, o: &IK) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for IK {
    fn cmp(&self, o: &IK) -> std::cmp::Ordering {
        self.n.cmp(&o.n)
    }
}
impl Hash for IK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        HASHES.with(|c| c.set(c.get() + 1));
        h.write_u64(self.n)
    }
}
macro_rules! binop {
    ($($tr:ident $f:ident $e:expr;)*) => { $( impl $tr for IK { type Output = IK; fn $f(self, o: IK) -> IK { let g: fn(u64, u64) -> u64 = $e; ik(g(self.n, o.n)) } } )* };
}
binop!(Add add |a, b| a + b; Sub sub |a, b| a - b; Mul mul |a, b| a * b; Div div |a, b| a / b; Rem rem |a, b| a % b; BitAnd bitand |a, b| a & b; BitOr bitor |a, b| a | b; BitXor bitxor |a, b| a ^ b;);
macro_rules! checked {
    ($($tr:ident $f:ident;)*) => { $( impl $tr for IK { fn $f(&self, o: &IK) -> Option<IK> { self.n.$f(o.n).map(ik) } } )* };
}
checked!(CheckedAdd checked_add; CheckedSub checked_sub; CheckedMul checked_mul; CheckedDiv checked_div;);
impl Not for IK {
    type Output = IK;
    fn not(self) -> IK {
        ik(!self.n)
    }
}
impl Shl<usize> for IK {
    type Output = IK;
    fn shl(self, k: usize) -> IK {
        ik(self.n << k)
    }
}
impl Shr<usize> for IK {
    type Output = IK;
    fn shr(self, k: usize) -> IK {
        ik(self.n >> k)
    }
}
impl Saturating for IK {
    fn saturating_add(self, o: IK) -> IK {
        ik(self.n.saturating_add(o.n))
    }
    fn saturating_sub(self, o: IK) -> IK {
        ik(self.n.saturating_sub(o.n))
    }
}
impl Zero for IK {
    fn zero() -> IK {
        ik(0)
    }
    fn is_zero(&self) -> bool {
        self.n == 0
    }
}
impl One for IK {
    fn one() -> IK {
        ik(1)
    }
}
impl Num for IK {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<IK, Self::FromStrRadixErr> {
        u64::from_str_radix(s, r).map(ik)
    }
}
impl ToPrimitive for IK {
    fn to_i64(&self) -> Option<i64> {
        self.n.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.n)
    }
}
impl NumCast for IK {
    fn from<T: ToPrimitive>(x: T) -> Option<IK> {
        x.to_u64().map(ik)
    }
}
impl Bounded for IK {
    fn min_value() -> IK {
        ik(0)
    }
    fn max_value() -> IK {
        ik(u64::MAX)
    }
}
impl AsPrimitive<u64> for IK {
    fn as_(self) -> u64 {
        self.n
    }
}
impl PrimInt for IK {
    fn count_ones(self) -> u32 {
        self.n.count_ones()
    }
    fn count_zeros(self) -> u32 {
        self.n.count_zeros()
    }
    fn leading_zeros(self) -> u32 {
        self.n.leading_zeros()
    }
    fn trailing_zeros(self) -> u32 {
        self.n.trailing_zeros()
    }
    fn rotate_left(self, n: u32) -> IK {
        ik(self.n.rotate_left(n))
    }
    fn rotate_right(self, n: u32) -> IK {
        ik(self.n.rotate_right(n))
    }
    fn signed_shl(self, n: u32) -> IK {
        ik(self.n << n)
    }
    fn signed_shr(self, n: u32) -> IK {
        ik((self.n as i64 >> n) as u64)
    }
    fn unsigned_shl(self, n: u32) -> IK {
        ik(self.n << n)
    }
    fn unsigned_shr(self, n: u32) -> IK {
        ik(self.n >> n)
    }
    fn swap_bytes(self) -> IK {
        ik(self.n.swap_bytes())
    }
    fn from_be(x: IK) -> IK {
        ik(u64::from_be(x.n))
    }
    fn from_le(x: IK) -> IK {
        ik(u64::from_le(x.n))
    }
    fn to_be(self) -> IK {
        ik(self.n.to_be())
    }
    fn to_le(self) -> IK {
        ik(self.n.to_le())
    }
    fn pow(self, e: u32) -> IK {
        ik(self.n.pow(e))
    }
}

trait Key: Clone + 'static {
    fn new(code: u64, tag: u32, id: u32) -> Self;
    fn heap(&self) -> usize {
        0
    }
}
impl Key for EK {
    fn new(code: u64, tag: u32, id: u32) -> EK {
        EK { code, tag, id }
    }
}
impl Key for SK {
    fn new(code: u64, tag: u32, id: u32) -> SK {
        SK(EK { code, tag, id })
    }
}
impl Key for PK {
    fn new(code: u64, tag: u32, id: u32) -> PK {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            assert!(r.len() < r.capacity(), "HARNESS: registry full");
            r.push((code, tag, id));
            PK(r.len() as u32 - 1)
        })
    }
}
impl Key for BK {
    fn new(code: u64, tag: u32, id: u32) -> BK {
        BK(Box::new(EK { code, tag, id }))
    }
    fn heap(&self) -> usize {
        std::mem::size_of::<EK>()
    }
}
impl Key for WK {
    fn new(code: u64, tag: u32, id: u32) -> WK {
        WK([code; 9], EK { code, tag, id })
    }
}
impl Key for IK {
    fn new(n: u64, _: u32, id: u32) -> IK {
        IK { n, id }
    }
}
impl Key for u32 {
    fn new(n: u64, _: u32, _: u32) -> u32 {
        n as u32
    }
}
impl Key for String {
    fn new(n: u64, tag: u32, _: u32) -> String {
        let mut s = format!("{n:x}");
        for _ in 0..tag % 7 {
            s.push('.');
        }
        s.shrink_to_fit();
        s
    }
    fn heap(&self) -> usize {
        self.capacity()
    }
}

/// the collection's own idea of a hash code
#[derive(Clone, Copy, PartialEq)]
enum Code {
    Hashed,
    Slice,
    Plain,
    Unknown,
}
fn limbs(kind: Code, hb: &HB, code: u64, tag: u32) -> String {
    let c = match kind {
        Code::Hashed => hb.hash_one(code),
        Code::Slice if tag >= SHORT => 0,
        Code::Slice => hb.hash_one(code),
        Code::Plain => code,
        Code::Unknown => return "[]".into(),
    };
    format!("[{},{},{},{}]", c >> 48, (c >> 32) & 0xffff, (c >> 16) & 0xffff, c & 0xffff)
}

trait Obj<K> {
    fn look(&mut self, how: &str, p: Vec<K>);
}
macro_rules! map_obj {
    ($($t:ty, $k:ty;)*) => { $( impl Obj<$k> for $t {
        fn look(&mut self, how: &str, p: Vec<$k>) {
            use std::hint::black_box as b;
            match how {
                "g" => drop(b(self.get(&p[0]))),
                "k" => drop(b(self.get_key_value(&p[0]))),
                "h" => drop(b(self.contains_key(&p[0]))),
                "m" => drop(b(self.get_mut(&p[0]))),
                "x" => drop(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { b(&self[p.into_iter().next().unwrap()]); }))),
                "X" => drop(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { b(&mut self[p.into_iter().next().unwrap()]); }))),
                "y" => match p.len() {
                    1 => drop(b(self.get_many_mut([&p[0]]))),
                    2 => drop(b(self.get_many_mut([&p[0], &p[1]]))),
                    3 => drop(b(self.get_many_mut([&p[0], &p[1], &p[2]]))),
                    _ => drop(b(self.get_many_mut([&p[0], &p[1], &p[2], &p[3]]))),
                },
                _ => panic!("HARNESS: lookup {how}"),
            }
        }
    } )* };
}
map_obj!(FrozenMap<PK, u32, HB>, PK; FrozenMap<BK, u8, HB>, BK; FrozenMap<WK, u32, HB>, WK; CommonMap<PK, (), u32, HB>, PK; FrozenMap<EK, u32, HB>, EK; FrozenMap<u32, u32, HB>, u32; FrozenMap<String, u32, HB>, String; CommonMap<EK, u32, u8, HB>, EK; CommonMap<EK, u32, u16, HB>, EK; CommonMap<EK, u32, usize, HB>, EK;
    ScanningMap<EK, u32>, EK; LengthMap<EK, u32, u8>, EK; LengthMap<EK, u32, usize>, EK; LeftSliceMap<SK, u32, u8, HB>, SK; LeftSliceMap<SK, u32, usize, HB>, SK; RightSliceMap<SK, u32, u16, HB>, SK; RightSliceMap<SK, u32, usize, HB>, SK;
    IntegerMap<IK, u32, u8>, IK; IntegerMap<IK, u32, usize>, IK; IntegerRangeMap<IK, u32>, IK;);
macro_rules! set_obj {
    ($($t:ty, $k:ty;)*) => { $( impl Obj<$k> for $t {
        fn look(&mut self, how: &str, p: Vec<$k>) {
            use std::hint::black_box as b;
            match how {
                "g" | "k" | "m" => drop(b(<$t>::get(self, &p[0]))),
                "h" | "x" | "X" | "y" => drop(b(<$t>::contains(self, &p[0]))),
                _ => panic!("HARNESS: lookup {how}"),
            }
        }
    } )* };
}
set_obj!(FrozenSet<PK, HB>, PK; FrozenSet<BK, HB>, BK; FrozenSet<WK, HB>, WK; CommonSet<PK, u16, HB>, PK; CommonSet<BK, u8, HB>, BK; FrozenSet<EK, HB>, EK; FrozenSet<u32, HB>, u32; FrozenSet<String, HB>, String; CommonSet<EK, u8, HB>, EK; CommonSet<EK, usize, HB>, EK; ScanningSet<EK>, EK; LengthSet<EK, u8>, EK; LengthSet<EK, usize>, EK;
    LeftSliceSet<SK, u8, HB>, SK; LeftSliceSet<SK, usize, HB>, SK; RightSliceSet<SK, u8, HB>, SK; RightSliceSet<SK, u32, HB>, SK; IntegerSet<IK, u8>, IK; IntegerSet<IK, usize>, IK; IntegerRangeSet<IK>, IK;);

fn parse(s: &str) -> Vec<(u64, u32)> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (a, b) = x.split_once('.').unwrap_or((x, "0"));
            (a.parse().expect("HARNESS: code"), b.parse().expect("HARNESS: tag"))
        })
        .collect()
}

fn run<K: Key, E, O: Obj<K>>(kind: &str, code: Code, mode: &str, f: &[&str], entry: impl Fn(K, u32) -> E, build: impl Fn(Vec<E>, HB) -> O) -> String {
    let hb = HB::named(mode);
    DEFAULT_MODE.with(|m| m.set(hb.0));
    let keys = parse(f[2]);
    let n = keys.len();
    let mut ev: Vec<String> = vec![];
    let probes: Vec<(String, Vec<(u64, u32)>)> = f[3].split(';').filter(|x| !x.is_empty()).map(|x| x.split_once(' ').expect("HARNESS: probe")).map(|(a, b)| (a.to_string(), parse(b))).collect();
    let build_limbs: Vec<String> = keys.iter().map(|(c, t)| limbs(code, &hb, *c, *t)).collect();
    let own = hb.clone();
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.clear();
        r.reserve(8192);
    });
    let before = LIVE.load(Relaxed);
    let mut heap = 0;
    let mut payload = Vec::with_capacity(n);
    for (i, (c, t)) in keys.iter().enumerate() {
        let k = K::new(*c, *t, i as u32 + 1);
        heap += k.heap();
        payload.push(entry(k, i as u32));
    }
    let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(payload, own)));
    let kept = LIVE.load(Relaxed) - before - (n * std::mem::size_of::<E>() + heap) as i64;
    let mut o = match made {
        Ok(o) => o,
        Err(_) => return "{\"ev\":[]}".to_string(), // not this property's business
    };
    ev.push(J::op("build").s("kind", kind).raw("codes", &format!("[{}]", build_limbs.join(","))).i("room", kept.max(0) / 16).end());
    for (how, ps) in probes {
        let l: Vec<String> = ps.iter().map(|(c, t)| limbs(code, &hb, *c, *t)).collect();
        let set = std::any::type_name::<E>() == std::any::type_name::<K>();
        let take = if set { 1 } else { ps.len() };
        let p: Vec<K> = ps.iter().take(take).enumerate().map(|(i, (c, t))| K::new(*c, *t, PROBE + i as u32)).collect();
        CMPS.with(|c| c.borrow_mut().clear());
        HASHES.with(|c| c.set(0));
        HASHED.with(|c| c.set(0));
        o.look(&how, p);
        let h = HASHES.with(|c| c.get() as i64).max(HASHED.with(|c| c.get()) as i64);
        let c = CMPS.with(|c| c.borrow().iter().map(|(p, k)| format!("[{p},{k}]")).collect::<Vec<_>>().join(","));
        ev.push(J::op("look").s("how", &how).raw("ps", &format!("[{}]", l[..take].join(","))).i("hashes", h).raw("cmp", &format!("[{c}]")).end());
    }
    format!("{{\"ev\":[{}]}}", ev.join(","))
}

fn job(line: &str) -> String {
    let f: Vec<&str> = line.split('|').collect();
    let m = f[1];
    let kv = |k, v| (k, v);
    use Code::*;
    match f[0] {
        "fm" => run("auto", Hashed, m, &f, |k: EK, v| (k, v), |p, h| FrozenMap::<EK, u32, HB>::from_vec_with_hasher(p, h)),
        "fmp" => run("auto", Hashed, m, &f, |k: PK, v| (k, v), |p, h| FrozenMap::<PK, u32, HB>::from_vec_with_hasher(p, h)),
        "fmb" => run("auto", Hashed, m, &f, |k: BK, v| (k, v as u8), |p, h| FrozenMap::<BK, u8, HB>::from_vec_with_hasher(p, h)),
        "fmw" => run("auto", Hashed, m, &f, |k: WK, v| (k, v), |p, h| FrozenMap::<WK, u32, HB>::from_vec_with_hasher(p, h)),
        "cmp" => run("hash", Hashed, m, &f, |k: PK, _| (k, ()), |p, h| CommonMap::<PK, (), u32, HB>::from_vec_with_hasher(p, h)),
        "fsp" => run("auto", Hashed, m, &f, |k: PK, _| k, |p, h| FrozenSet::<PK, HB>::from_vec_with_hasher(p, h)),
        "fsb" => run("auto", Hashed, m, &f, |k: BK, _| k, |p, h| FrozenSet::<BK, HB>::from_vec_with_hasher(p, h)),
        "fsw" => run("auto", Hashed, m, &f, |k: WK, _| k, |p, h| FrozenSet::<WK, HB>::from_vec_with_hasher(p, h)),
        "csp" => run("hash", Hashed, m, &f, |k: PK, _| k, |p, h| CommonSet::<PK, u16, HB>::from_vec_with_hasher(p, h)),
        "csb8" => run("hash", Hashed, m, &f, |k: BK, _| k, |p, h| CommonSet::<BK, u8, HB>::from_vec_with_hasher(p, h)),
        "fmu" => run("blind", Unknown, m, &f, |k: u32, v| (k, v), |p, h| FrozenMap::<u32, u32, HB>::from_vec_with_hasher(p, h)),
        "fmt" => run("blind", Unknown, m, &f, |k: String, v| (k, v), |p, h| FrozenMap::<String, u32, HB>::from_vec_with_hasher(p, h)),
        "cm8" => run("hash", Hashed, m, &f, |k: EK, v| (k, v), |p, h| CommonMap::<EK, u32, u8, HB>::from_vec_with_hasher(p, h)),
        "cm16" => run("hash", Hashed, m, &f, |k: EK, v| (k, v), |p, h| CommonMap::<EK, u32, u16, HB>::from_vec_with_hasher(p, h)),
        "cmz" => run("hash", Hashed, m, &f, kv, |p, h| CommonMap::<EK, u32, usize, HB>::from_vec_with_hasher(p, h)),
        "sm" => run("scan", Plain, m, &f, |k: EK, v| (k, v), |p, _| ScanningMap::<EK, u32>::from_vec(p)),
        "lm8" => run("hash", Plain, m, &f, |k: EK, v| (k, v), |p, _| LengthMap::<EK, u32, u8>::from_vec(p)),
        "lmz" => run("hash", Plain, m, &f, |k: EK, v| (k, v), |p, _| LengthMap::<EK, u32, usize>::from_vec(p)),
        "ll8" => run("hash", Slice, m, &f, |k: SK, v| (k, v), |p, h| LeftSliceMap::<SK, u32, u8, HB>::from_vec_with_hasher(p, 0..4, h)),
        "llz" => run("hash", Slice, m, &f, |k: SK, v| (k, v), |p, h| LeftSliceMap::<SK, u32, usize, HB>::from_vec_with_hasher(p, 0..4, h)),
        "rl16" => run("hash", Slice, m, &f, |k: SK, v| (k, v), |p, h| RightSliceMap::<SK, u32, u16, HB>::from_vec_with_hasher(p, 0..4, h)),
        "rlz" => run("hash", Slice, m, &f, |k: SK, v| (k, v), |p, h| RightSliceMap::<SK, u32, usize, HB>::from_vec_with_hasher(p, 0..4, h)),
        "im8" => run("hash", Plain, m, &f, |k: IK, v| (k, v), |p, _| IntegerMap::<IK, u32, u8>::from_vec(p)),
        "imz" => run("hash", Plain, m, &f, |k: IK, v| (k, v), |p, _| IntegerMap::<IK, u32, usize>::from_vec(p)),
        "irm" => run("hash", Plain, m, &f, |k: IK, v| (k, v), |p, _| IntegerRangeMap::<IK, u32>::from_vec(p)),
        "fs" => run("auto", Hashed, m, &f, |k: EK, _| k, |p, h| FrozenSet::<EK, HB>::from_vec_with_hasher(p, h)),
        "fsu" => run("blind", Unknown, m, &f, |k: u32, _| k, |p, h| FrozenSet::<u32, HB>::from_vec_with_hasher(p, h)),
        "fst" => run("blind", Unknown, m, &f, |k: String, _| k, |p, h| FrozenSet::<String, HB>::from_vec_with_hasher(p, h)),
        "cs8" => run("hash", Hashed, m, &f, |k: EK, _| k, |p, h| CommonSet::<EK, u8, HB>::from_vec_with_hasher(p, h)),
        "csz" => run("hash", Hashed, m, &f, |k: EK, _| k, |p, h| CommonSet::<EK, usize, HB>::from_vec_with_hasher(p, h)),
        "ss" => run("scan", Plain, m, &f, |k: EK, _| k, |p, _| ScanningSet::<EK>::from_vec(p)),
        "ls8" => run("hash", Plain, m, &f, |k: EK, _| k, |p, _| LengthSet::<EK, u8>::from_vec(p)),
        "lsz" => run("hash", Plain, m, &f, |k: EK, _| k, |p, _| LengthSet::<EK, usize>::from_vec(p)),
        "lls8" => run("hash", Slice, m, &f, |k: SK, _| k, |p, h| LeftSliceSet::<SK, u8, HB>::from_vec_with_hasher(p, 0..4, h)),
        "llsz" => run("hash", Slice, m, &f, |k: SK, _| k, |p, h| LeftSliceSet::<SK, usize, HB>::from_vec_with_hasher(p, 0..4, h)),
        "rls8" => run("hash", Slice, m, &f, |k: SK, _| k, |p, h| RightSliceSet::<SK, u8, HB>::from_vec_with_hasher(p, 0..4, h)),
        "rls32" => run("hash", Slice, m, &f, |k: SK, _| k, |p, h| RightSliceSet::<SK, u32, HB>::from_vec_with_hasher(p, 0..4, h)),
        "is8" => run("hash", Plain, m, &f, |k: IK, _| k, |p, _| IntegerSet::<IK, u8>::from_vec(p)),
        "isz" => run("hash", Plain, m, &f, |k: IK, _| k, |p, _| IntegerSet::<IK, usize>::from_vec(p)),
        "irs" => run("hash", Plain, m, &f, |k: IK, _| k, |p, _| IntegerRangeSet::<IK>::from_vec(p)),
        t => panic!("HARNESS: type {t}"),
    }
}

fn main() {
    common::worker::main_loop(job);
}
