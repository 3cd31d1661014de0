//! C19: keys and values which report being cloned and dropped, through whole histories of building, overwriting,
//! cloning, consuming and dropping - including calls in which hashing, comparing, cloning, dropping or the payload
//! iterator panics.
#![allow(dead_code, clippy::all)]
mod common;
use common::hb::{DEFAULT_MODE, HB};
use common::json::J;
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::*;
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher, RandomState};
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static NEXT: Cell<u32> = const { Cell::new(1) };
    /// what panics, and after how many more times
    static FAULT: Cell<(u8, u32)> = const { Cell::new((0, 0)) };
    static FAM: Cell<u8> = const { Cell::new(0) };
    static KIDS: RefCell<HashMap<String, u32>> = RefCell::new(HashMap::new());
}
fn log(s: impl FnOnce() -> String) {
    if LOGGING.with(|l| l.get()) {
        LOG.with(|l| l.borrow_mut().push(s()))
    }
}
fn token() -> u32 {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get() - 1
    })
}
fn point(kind: u8) {
    let (k, n) = FAULT.with(|f| f.get());
    if k == kind && !std::thread::panicking() {
        if n <= 1 {
            FAULT.with(|f| f.set((0, 0)));
            panic!("injected");
        }
        FAULT.with(|f| f.set((k, n - 1)));
    }
}

fn letters(mut i: u32) -> String {
    let mut s = String::new();
    for _ in 0..3 {
        s.insert(0, (b'a' + (i % 26) as u8) as char);
        i /= 26;
    }
    s
}
/// the text of a key
fn text(kid: u32) -> String {
    match FAM.with(|f| f.get()) {
        b'l' => "x".repeat(kid as usize),
        b'm' => format!("{}{}", ["p", "q", "r"][kid as usize % 3], "x".repeat(kid as usize / 3)),
        b'<' => format!("{}-suffix{}", letters(kid), "t".repeat(kid as usize % 4)),
        b'>' => format!("{}prefix-{}", "t".repeat(kid as usize % 4), letters(kid)),
        b'r' => letters(kid), // the integer families have no texts of their own
        _ => format!("{}", (kid as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (kid % 40)) + &letters(kid),
    }
}
fn number(kid: u32) -> u32 {
    match FAM.with(|f| f.get()) {
        b'r' => 1000 + kid,
        b'l' => kid * 2,
        _ => kid * kid * 7919,
    }
}

trait Key: Eq + Hash + Clone + Debug + 'static {
    const TRACKED: bool;
    fn new(kid: u32) -> Self;
    /// to look up with: not a token
    fn probe(kid: u32) -> Self;
    fn id(&self) -> u32;
    fn kid(&self) -> u32;
}

/// a key which is a token
struct TK {
    text: String,
    kid: u32,
    id: u32,
}
impl Key for TK {
    const TRACKED: bool = true;
    fn new(kid: u32) -> TK {
        TK { text: text(kid), kid, id: token() }
    }
    fn probe(kid: u32) -> TK {
        TK { text: text(kid), kid, id: 0 }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn kid(&self) -> u32 {
        self.kid
    }
}
impl Clone for TK {
    fn clone(&self) -> TK {
        point(b'c');
        let id = if self.id == 0 { 0 } else { token() };
        if id != 0 {
            log(|| J::op("cl").i("t", self.id.into()).i("u", id.into()).end());
        }
        TK { text: self.text.clone(), kid: self.kid, id }
    }
}
impl Drop for TK {
    fn drop(&mut self) {
        if self.id != 0 {
            log(|| J::op("dr").i("t", self.id.into()).end());
            point(b'd');
        }
    }
}
impl PartialEq for TK {
    fn eq(&self, o: &TK) -> bool {
        point(b'e');
        self.text == o.text
    }
}
impl Eq for TK {}
impl Hash for TK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        point(b'h');
        Hash::hash(&self.text, h)
    }
}
impl Debug for TK {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.text.fmt(f)
    }
}
impl Len for TK {
    fn len(&self) -> usize {
        point(b'l');
        self.text.len()
    }
}
impl SliceHash for TK {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        point(b'h');
        SliceHash::hash(&self.text, bh, range)
    }
}
impl Key for u32 {
    const TRACKED: bool = false;
    fn new(kid: u32) -> u32 {
        number(kid)
    }
    fn probe(kid: u32) -> u32 {
        number(kid)
    }
    fn id(&self) -> u32 {
        0
    }
    fn kid(&self) -> u32 {
        (0..5000).find(|k| number(*k) == *self).unwrap_or(99999)
    }
}
impl Key for String {
    const TRACKED: bool = false;
    fn new(kid: u32) -> String {
        text(kid)
    }
    fn probe(kid: u32) -> String {
        text(kid)
    }
    fn id(&self) -> u32 {
        0
    }
    fn kid(&self) -> u32 {
        (0..5000).find(|k| text(*k) == *self).unwrap_or(99999)
    }
}

/// a value: a token, with memory of its own
struct TV {
    id: u32,
    n: Box<u32>,
}
impl TV {
    fn new(n: u32) -> TV {
        TV { id: token(), n: Box::new(n) }
    }
}
impl Clone for TV {
    fn clone(&self) -> TV {
        point(b'c');
        let id = token();
        log(|| J::op("cl").i("t", self.id.into()).i("u", id.into()).end());
        TV { id, n: self.n.clone() }
    }
}
impl Drop for TV {
    fn drop(&mut self) {
        log(|| J::op("dr").i("t", self.id.into()).end());
        point(b'd');
    }
}
impl PartialEq for TV {
    fn eq(&self, o: &TV) -> bool {
        point(b'e');
        self.n == o.n
    }
}
impl Eq for TV {}
impl Debug for TV {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.n.fmt(f)
    }
}

/// an iterator over the payload which may panic on the way, with or without an honest size hint
struct Src<I>(I, bool);
impl<I: Iterator> Iterator for Src<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        point(b'i');
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.1 {
            self.0.size_hint()
        } else {
            (0, None)
        }
    }
}

trait It {
    fn next(&mut self) -> Option<Box<dyn Any>>;
    fn nth(&mut self, n: usize) -> Option<Box<dyn Any>>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Box<dyn Any>>;
    fn all(self: Box<Self>, how: usize) -> Vec<Box<dyn Any>>;
    fn dup(&self) -> Box<dyn It>;
    fn show(&self) -> String;
    fn id(x: &dyn Any) -> u32
    where
        Self: Sized;
}
fn any_id(x: &dyn Any) -> u32 {
    x.downcast_ref::<TK>().map_or(0, |k| k.id)
}
impl<K: Key> It for frozen_collections_core::specialized_sets::IntoIter<K> {
    fn next(&mut self) -> Option<Box<dyn Any>> {
        Iterator::next(self).map(|x| Box::new(x) as Box<dyn Any>)
    }
    fn nth(&mut self, n: usize) -> Option<Box<dyn Any>> {
        Iterator::nth(self, n).map(|x| Box::new(x) as Box<dyn Any>)
    }
    fn count(self: Box<Self>) -> usize {
        Iterator::count(*self)
    }
    fn last(self: Box<Self>) -> Option<Box<dyn Any>> {
        Iterator::last(*self).map(|x| Box::new(x) as Box<dyn Any>)
    }
    fn all(self: Box<Self>, how: usize) -> Vec<Box<dyn Any>> {
        match how % 4 {
            0 => Iterator::map(*self, |x| Box::new(x) as Box<dyn Any>).collect(),
            1 => Iterator::fold(*self, vec![], |mut v, x| {
                v.push(Box::new(x) as Box<dyn Any>);
                v
            }),
            2 => {
                let mut v = vec![];
                Iterator::for_each(*self, |x| v.push(Box::new(x) as Box<dyn Any>));
                v
            }
            _ => {
                let mut v = vec![];
                for x in *self {
                    v.push(Box::new(x) as Box<dyn Any>)
                }
                v
            }
        }
    }
    fn dup(&self) -> Box<dyn It> {
        Box::new(self.clone())
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
    fn id(x: &dyn Any) -> u32 {
        any_id(x)
    }
}

trait Obj {
    fn write(&mut self, via: &str, kids: &[u32], vals: Vec<TV>, swap: bool) -> (bool, Vec<TV>);
    fn read(&self, what: &str, kid: u32, other: &dyn Obj);
    fn holds(&self) -> Vec<(u32, u32, u32)>;
    fn dup(&self) -> Box<dyn Obj>;
    fn assign(&mut self, from: &dyn Obj);
    fn consume(self: Box<Self>, i: bool) -> Option<Box<dyn It>>;
    fn sop(&self, kind: &str, other: &dyn Obj) -> Option<Vec<Box<dyn Any>>>;
    fn any(&self) -> &dyn Any;
}

fn use_it<T>(x: T) {
    std::hint::black_box(&x);
}

macro_rules! map_own {
    ([$($g:tt)*] $t:ty, $k:ty $(, $w:tt)*) => {
        impl<$($g)*> Obj for $t {
            fn write(&mut self, via: &str, kids: &[u32], vals: Vec<TV>, swap: bool) -> (bool, Vec<TV>) {
                let p: Vec<$k> = kids.iter().map(|k| <$k>::probe(*k)).collect();
                let mut vals = vals;
                let put = |slot: &mut TV, v: TV, out: &mut Vec<TV>| if swap { out.push(std::mem::replace(slot, v)) } else { *slot = v };
                let mut out = Vec::with_capacity(4);
                match via {
                    "gm" => match self.get_mut(&p[0]) {
                        Some(s) => put(s, vals.pop().unwrap(), &mut out),
                        None => return (false, out),
                    },
                    "im" => {
                        let k = p.into_iter().next().unwrap();
                        put(&mut self[k], vals.pop().unwrap(), &mut out)
                    }
                    _ => {
                        macro_rules! many {
                            ($n:expr) => {{
                                let mut i = p.iter();
                                let ks: [&$k; $n] = std::array::from_fn(|_| i.next().unwrap());
                                match self.get_many_mut(ks) {
                                    Some(slots) => {
                                        for (s, v) in slots.into_iter().zip(vals) {
                                            put(s, v, &mut out)
                                        }
                                    }
                                    None => return (false, out),
                                }
                            }};
                        }
                        match p.len() {
                            1 => many!(1),
                            2 => many!(2),
                            3 => many!(3),
                            _ => many!(4),
                        }
                    }
                }
                (true, out)
            }
            fn read(&self, what: &str, kid: u32, other: &dyn Obj) {
                let p = <$k>::probe(kid);
                match what {
                    "get" => use_it(self.get(&p)),
                    "gkv" => use_it(self.get_key_value(&p)),
                    "has" => use_it(self.contains_key(&p)),
                    "idx" => use_it(&self[p]),
                    "iter" => use_it(self.iter().count()),
                    "keys" => use_it(self.keys().collect::<Vec<_>>()),
                    "vals" => use_it(self.values().collect::<Vec<_>>()),
                    "dbg" => use_it(format!("{self:?}")),
                    "eq" => {
                        if let Some(o) = other.any().downcast_ref::<Self>() {
                            use_it(self == o)
                        }
                    }
                    _ => use_it(self.len()),
                }
            }
            fn holds(&self) -> Vec<(u32, u32, u32)> {
                self.iter().map(|(k, v)| (k.kid(), k.id(), v.id)).collect()
            }
            fn dup(&self) -> Box<dyn Obj> {
                Box::new(self.clone())
            }
            fn assign(&mut self, from: &dyn Obj) {
                self.clone_from(from.any().downcast_ref::<Self>().expect("HARNESS: assigned from another type"))
            }
            fn consume(self: Box<Self>, _: bool) -> Option<Box<dyn It>> {
                panic!("HARNESS: maps are not consumed")
            }
            fn sop(&self, _: &str, _: &dyn Obj) -> Option<Vec<Box<dyn Any>>> {
                None
            }
            fn any(&self) -> &dyn Any {
                self
            }
        }
    };
}
map_own!([] FrozenMap<TK, TV, HB>, TK);
map_own!([] FrozenMap<u32, TV, HB>, u32);
map_own!([] FrozenMap<String, TV, HB>, String);
map_own!([] FrozenMap<TK, TV>, TK);
map_own!([] CommonMap<TK, TV, u8, HB>, TK);
map_own!([] CommonMap<TK, TV, u16, HB>, TK);
map_own!([] CommonMap<TK, TV, usize, RandomState>, TK);
map_own!([] ScanningMap<TK, TV>, TK);
map_own!([] LengthMap<TK, TV, u8>, TK);
map_own!([] LengthMap<TK, TV, u32>, TK);
map_own!([] LeftSliceMap<TK, TV, u8, HB>, TK);
map_own!([] LeftSliceMap<TK, TV, u16, RandomState>, TK);
map_own!([] RightSliceMap<TK, TV, u8, HB>, TK);
map_own!([] RightSliceMap<TK, TV, usize, HB>, TK);
map_own!([] IntegerMap<u32, TV, u8>, u32);
map_own!([] IntegerMap<u32, TV, usize>, u32);
map_own!([] IntegerRangeMap<u32, TV>, u32);

macro_rules! set_own {
    ($t:ty, $k:ty, $show:expr, $into:expr, $ops:expr) => {
        impl Obj for $t {
            fn write(&mut self, _: &str, _: &[u32], _: Vec<TV>, _: bool) -> (bool, Vec<TV>) {
                panic!("HARNESS: sets are not written")
            }
            fn read(&self, what: &str, kid: u32, other: &dyn Obj) {
                let p = <$k>::probe(kid);
                let o = other.any().downcast_ref::<Self>().unwrap_or(self);
                match what {
                    "get" => use_it(<$t>::get(self, &p)),
                    "has" => use_it(<$t>::contains(self, &p)),
                    "iter" => use_it(<$t>::iter(self).count()),
                    "dbg" => {
                        let f: fn(&$t) -> String = $show;
                        use_it(f(self))
                    }
                    "eq" => use_it(self == o),
                    "sub" => use_it(self.is_subset(o)),
                    "sup" => use_it(self.is_superset(o)),
                    "dis" => use_it(self.is_disjoint(o)),
                    "uni" => use_it(self.union(o).collect::<Vec<_>>()),
                    "int" => use_it(self.intersection(o).collect::<Vec<_>>()),
                    "dif" => use_it(format!("{:?}", self.difference(o))),
                    "sym" => use_it(self.symmetric_difference(o).count()),
                    _ => use_it(Len::len(self)),
                }
            }
            fn holds(&self) -> Vec<(u32, u32, u32)> {
                <$t>::iter(self).map(|k| (k.kid(), k.id(), 0)).collect()
            }
            fn dup(&self) -> Box<dyn Obj> {
                Box::new(self.clone())
            }
            fn assign(&mut self, from: &dyn Obj) {
                self.clone_from(from.any().downcast_ref::<Self>().expect("HARNESS: assigned from another type"))
            }
            fn consume(self: Box<Self>, _: bool) -> Option<Box<dyn It>> {
                let f: fn($t) -> Option<Box<dyn It>> = $into;
                f(*self)
            }
            fn sop(&self, kind: &str, other: &dyn Obj) -> Option<Vec<Box<dyn Any>>> {
                let o = other.any().downcast_ref::<Self>()?;
                let f: fn(&$t, &str, &$t) -> Option<Vec<Box<dyn Any>>> = $ops;
                f(self, kind, o)
            }
            fn any(&self) -> &dyn Any {
                self
            }
        }
    };
}
macro_rules! ops {
    ($t:ty) => {
        |a: &$t, kind, b: &$t| {
            let h = match kind {
                "un" => a | b,
                "in" => a & b,
                "di" => a - b,
                _ => a ^ b,
            };
            Some(h.into_iter().map(|x| Box::new(x) as Box<dyn Any>).collect())
        }
    };
}
macro_rules! set_own_all {
    ($($t:ty, $k:ty;)*) => { $( set_own!($t, $k, |s| format!("{s:?}"), |s| Some(Box::new(s.into_iter()) as Box<dyn It>), ops!($t)); )* };
}
set_own!(FrozenSet<TK, HB>, TK, |_| String::new(), |_| None, ops!(FrozenSet<TK, HB>));
set_own!(FrozenSet<TK>, TK, |_| String::new(), |_| None, ops!(FrozenSet<TK>));
set_own!(FrozenSet<String, HB>, String, |_| String::new(), |_| None, ops!(FrozenSet<String, HB>));
set_own!(FrozenSet<u32, HB>, u32, |_| String::new(), |_| None, ops!(FrozenSet<u32, HB>));
set_own_all!(CommonSet<TK, u8, HB>, TK; CommonSet<TK, u16, HB>, TK; CommonSet<TK, usize, RandomState>, TK; ScanningSet<TK>, TK; LengthSet<TK, u8>, TK; LengthSet<TK, usize>, TK;
    LeftSliceSet<TK, u8, HB>, TK; LeftSliceSet<TK, u16, HB>, TK; RightSliceSet<TK, u8, HB>, TK; RightSliceSet<TK, u32, HB>, TK; IntegerSet<u32, u8>, u32; IntegerRangeSet<u32>, u32;);

enum Pay<K> {
    Map(Vec<(K, TV)>),
    Set(Vec<K>),
}
struct Route<'a> {
    how: &'a str,
    hb: HB,
    range: Range<usize>,
}
macro_rules! by_array {
    ($v:expr, |$a:ident| $e:expr) => {{
        let v = $v;
        macro_rules! go {
            ($n:literal) => {{
                let $a: [_; $n] = v.try_into().ok().unwrap();
                $e
            }};
        }
        match v.len() {
            0 => go!(0),
            1 => go!(1),
            2 => go!(2),
            3 => go!(3),
            4 => go!(4),
            5 => go!(5),
            6 => go!(6),
            7 => go!(7),
            8 => go!(8),
            9 => go!(9),
            10 => go!(10),
            n => panic!("HARNESS: array of {n}"),
        }
    }};
}
macro_rules! make_hb {
    ($t:ty, $p:expr, $r:expr) => {{
        let (p, r) = ($p, $r);
        match r.how {
            "vec" => <$t>::from_vec_with_hasher(p, r.hb),
            "iter" => <$t>::from_iter_with_hasher(Src(p.into_iter(), true), r.hb),
            "lazy" => <$t>::from_iter_with_hasher(Src(p.into_iter(), false), r.hb),
            _ => by_array!(p, |a| <$t>::with_hasher(a, r.hb)),
        }
    }};
}
macro_rules! make_plain {
    ($t:ty, $p:expr, $r:expr) => {{
        let (p, r) = ($p, $r);
        match r.how {
            "vec" => <$t>::from_vec(p),
            "iter" => <$t>::from_iter(Src(p.into_iter(), true)),
            "lazy" => <$t>::from_iter(Src(p.into_iter(), false)),
            _ => by_array!(p, |a| <$t>::from(a)),
        }
    }};
}
macro_rules! make_vec {
    ($t:ty, $p:expr, $r:expr) => {{
        let (p, r) = ($p, $r);
        match r.how {
            "iter" => <$t>::from_iter(Src(p.into_iter(), true)),
            "lazy" => <$t>::from_iter(Src(p.into_iter(), false)),
            _ => <$t>::from_vec(p),
        }
    }};
}
macro_rules! make_vec_only {
    ($t:ty, $p:expr, $r:expr) => {
        <$t>::from_vec($p)
    };
}
macro_rules! make_slice {
    ($t:ty, $p:expr, $r:expr) => {{
        let (p, r) = ($p, $r);
        match r.how {
            "vec" => <$t>::from_vec_with_hasher(p, r.range, r.hb),
            "iter" => <$t>::from_iter_with_hasher(Src(p.into_iter(), true), r.range, r.hb),
            "lazy" => <$t>::from_iter_with_hasher(Src(p.into_iter(), false), r.range, r.hb),
            _ => by_array!(p, |a| <$t>::with_hasher(a, r.range, r.hb)),
        }
    }};
}
macro_rules! make_rslice {
    ($t:ty, $p:expr, $r:expr) => {{
        let (p, r) = ($p, $r);
        match r.how {
            "vec" => <$t>::from_vec(p, r.range),
            "iter" => <$t>::from_iter(Src(p.into_iter(), true), r.range),
            "lazy" => <$t>::from_iter(Src(p.into_iter(), false), r.range),
            _ => by_array!(p, |a| <$t>::from(a, r.range)),
        }
    }};
}

fn build_tk(ty: &str, r: Route, p: Pay<TK>) -> Box<dyn Obj> {
    match p {
        Pay::Map(p) => match ty {
            "fm" => Box::new(make_hb!(FrozenMap<TK, TV, HB>, p, r)),
            "fmr" => Box::new(make_plain!(FrozenMap<TK, TV>, p, r)),
            "cm8" => Box::new(make_hb!(CommonMap<TK, TV, u8, HB>, p, r)),
            "cm16" => Box::new(make_hb!(CommonMap<TK, TV, u16, HB>, p, r)),
            "cmr" => Box::new(make_vec_only!(CommonMap<TK, TV, usize, RandomState>, p, r)),
            "sm" => Box::new(make_plain!(ScanningMap<TK, TV>, p, r)),
            "lm8" => Box::new(make_vec_only!(LengthMap<TK, TV, u8>, p, r)),
            "lm32" => Box::new(make_vec_only!(LengthMap<TK, TV, u32>, p, r)),
            "ll8" => Box::new(make_slice!(LeftSliceMap<TK, TV, u8, HB>, p, r)),
            "llr" => Box::new(make_rslice!(LeftSliceMap<TK, TV, u16, RandomState>, p, r)),
            "rl8" => Box::new(make_slice!(RightSliceMap<TK, TV, u8, HB>, p, r)),
            "rlz" => Box::new(make_slice!(RightSliceMap<TK, TV, usize, HB>, p, r)),
            _ => panic!("HARNESS: type {ty}"),
        },
        Pay::Set(p) => match ty {
            "fs" => Box::new(make_hb!(FrozenSet<TK, HB>, p, r)),
            "fsr" => Box::new(make_plain!(FrozenSet<TK>, p, r)),
            "cs8" => Box::new(make_hb!(CommonSet<TK, u8, HB>, p, r)),
            "cs16" => Box::new(make_hb!(CommonSet<TK, u16, HB>, p, r)),
            "csr" => Box::new(make_plain!(CommonSet<TK, usize, RandomState>, p, r)),
            "ss" => Box::new(make_plain!(ScanningSet<TK>, p, r)),
            "ls8" => Box::new(make_plain!(LengthSet<TK, u8>, p, r)),
            "lsz" => Box::new(make_plain!(LengthSet<TK, usize>, p, r)),
            "lls8" => Box::new(make_slice!(LeftSliceSet<TK, u8, HB>, p, r)),
            "lls16" => Box::new(make_slice!(LeftSliceSet<TK, u16, HB>, p, r)),
            "rls8" => Box::new(make_slice!(RightSliceSet<TK, u8, HB>, p, r)),
            "rls32" => Box::new(make_slice!(RightSliceSet<TK, u32, HB>, p, r)),
            _ => panic!("HARNESS: type {ty}"),
        },
    }
}
fn build_u32(ty: &str, r: Route, p: Pay<u32>) -> Box<dyn Obj> {
    match p {
        Pay::Map(p) => match ty {
            "fmu" => Box::new(make_hb!(FrozenMap<u32, TV, HB>, p, r)),
            "im8" => Box::new(make_plain!(IntegerMap<u32, TV, u8>, p, r)),
            "imz" => Box::new(make_vec_only!(IntegerMap<u32, TV, usize>, p, r)),
            "irm" => Box::new(make_plain!(IntegerRangeMap<u32, TV>, p, r)),
            _ => panic!("HARNESS: type {ty}"),
        },
        Pay::Set(p) => match ty {
            "fsu" => Box::new(make_hb!(FrozenSet<u32, HB>, p, r)),
            "is8" => Box::new(make_plain!(IntegerSet<u32, u8>, p, r)),
            "irs" => Box::new(make_plain!(IntegerRangeSet<u32>, p, r)),
            _ => panic!("HARNESS: type {ty}"),
        },
    }
}
fn build_string(ty: &str, r: Route, p: Pay<String>) -> Box<dyn Obj> {
    match p {
        Pay::Map(p) => match ty {
            "fmt" => Box::new(make_hb!(FrozenMap<String, TV, HB>, p, r)),
            _ => panic!("HARNESS: type {ty}"),
        },
        Pay::Set(p) => match ty {
            "fst" => Box::new(make_hb!(FrozenSet<String, HB>, p, r)),
            _ => panic!("HARNESS: type {ty}"),
        },
    }
}
fn payload<K: Key>(set: bool, kids: &[u32], begin: &mut dyn FnMut(&str)) -> Pay<K> {
    let mut js = vec![];
    let p = if set {
        Pay::Set(
            kids.iter()
                .map(|k| {
                    let x = K::new(*k);
                    js.push(format!("[{k},{},0]", x.id()));
                    x
                })
                .collect(),
        )
    } else {
        Pay::Map(
            kids.iter()
                .enumerate()
                .map(|(i, k)| {
                    let (x, v) = (K::new(*k), TV::new(i as u32));
                    js.push(format!("[{k},{},{}]", x.id(), v.id));
                    (x, v)
                })
                .collect(),
        )
    };
    begin(&format!("[{}]", js.join(",")));
    p
}

fn fault(f: &str) {
    FAULT.with(|x| x.set(if f == "-" { (0, 0) } else { (f.as_bytes()[0], f[1..].parse().expect("HARNESS: fault")) }));
}
fn end(ok: bool, got: &[u32]) {
    FAULT.with(|f| f.set((0, 0)));
    log(|| J::op("end").i("ok", ok as i64).a("got", &got.iter().map(|x| *x as i64).collect::<Vec<_>>()).end());
}
fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    // the panic's own payload is dropped here, before the end of the call is logged
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn run(ty: &str, set: bool, mode: &str, range: Range<usize>, ops: &str) {
    NEXT.with(|n| n.set(1));
    FAULT.with(|f| f.set((0, 0)));
    DEFAULT_MODE.with(|m| m.set(HB::named(mode).0));
    let mut objs: BTreeMap<i64, Box<dyn Obj>> = BTreeMap::new();
    let mut its: BTreeMap<i64, Box<dyn It>> = BTreeMap::new();
    let mut mine: Vec<Box<dyn Any>> = Vec::new();
    let holds = |o: i64, x: &dyn Obj| {
        let mut h = x.holds();
        h.sort();
        log(|| J::op("holds").i("o", o).raw("ents", &format!("[{}]", h.iter().map(|e| format!("[{},{},{}]", e.0, e.1, e.2)).collect::<Vec<_>>().join(","))).end());
    };
    for op in ops.split(';').filter(|x| !x.is_empty()).chain(["END"]) {
        let w: Vec<&str> = op.split(' ').collect();
        let n = |i: usize| -> i64 { w[i].parse().expect("HARNESS: number") };
        match w[0] {
            "b" => {
                let o = n(1);
                if objs.contains_key(&o) {
                    continue;
                }
                let kids: Vec<u32> = w[4..].iter().filter(|x| !x.is_empty()).map(|x| x.parse().expect("HARNESS: kid")).collect();
                let mut begin = |js: &str| log(|| J::op("build").i("o", o).raw("pay", js).end());
                let r = Route { how: w[2], hb: HB::named(mode), range: range.clone() };
                let made = match ty {
                    "fmu" | "im8" | "imz" | "irm" | "fsu" | "is8" | "irs" => {
                        let p = payload::<u32>(set, &kids, &mut begin);
                        fault(w[3]);
                        quiet(|| build_u32(ty, r, p))
                    }
                    "fmt" | "fst" => {
                        let p = payload::<String>(set, &kids, &mut begin);
                        fault(w[3]);
                        quiet(|| build_string(ty, r, p))
                    }
                    _ => {
                        let p = payload::<TK>(set, &kids, &mut begin);
                        fault(w[3]);
                        quiet(|| build_tk(ty, r, p))
                    }
                };
                end(made.is_some(), &[]);
                if let Some(x) = made {
                    holds(o, &*x);
                    objs.insert(o, x);
                }
            }
            "w" => {
                let o = n(1);
                if !objs.contains_key(&o) {
                    continue;
                }
                let kids: Vec<u32> = w[4..].iter().filter(|x| !x.is_empty()).map(|x| x.parse().expect("HARNESS: kid")).collect();
                let vals: Vec<TV> = kids.iter().map(|k| TV::new(100 + k)).collect();
                log(|| J::op("write").i("o", o).a("ks", &kids.iter().map(|x| *x as i64).collect::<Vec<_>>()).a("vts", &vals.iter().map(|x| x.id as i64).collect::<Vec<_>>()).i("swap", n(3)).end());
                let x = objs.get_mut(&o).unwrap();
                let swap = n(3) == 1;
                let (ok, got) = quiet(|| x.write(w[2], &kids, vals, swap)).unwrap_or((false, vec![]));
                end(ok, &got.iter().map(|v| v.id).collect::<Vec<_>>());
                mine.extend(got.into_iter().map(|v| Box::new(v) as Box<dyn Any>));
                holds(o, &*objs[&o]);
            }
            "r" => {
                let o = n(1);
                if !objs.contains_key(&o) {
                    continue;
                }
                let p = if objs.contains_key(&n(4)) { n(4) } else { o };
                log(|| J::op("read").a("os", &[o, p]).end());
                let r = quiet(|| objs[&o].read(w[2], n(3) as u32, &*objs[&p]));
                end(r.is_some(), &[]);
            }
            "c" => {
                let (o, p) = (n(1), n(2));
                if !objs.contains_key(&o) || objs.contains_key(&p) {
                    continue;
                }
                log(|| J::op("clone").i("o", o).i("p", p).end());
                fault(w[3]);
                let c = quiet(|| objs[&o].dup());
                end(c.is_some(), &[]);
                holds(o, &*objs[&o]);
                if let Some(c) = c {
                    holds(p, &*c);
                    objs.insert(p, c);
                }
            }
            "a" => {
                let (o, p) = (n(1), n(2));
                if !objs.contains_key(&o) || !objs.contains_key(&p) || o == p {
                    continue;
                }
                log(|| J::op("assign").i("o", o).i("p", p).end());
                let mut x = objs.remove(&p).unwrap();
                let r = quiet(|| x.assign(&*objs[&o]));
                end(r.is_some(), &[]);
                holds(p, &*x);
                objs.insert(p, x);
            }
            "d" => {
                let o = n(1);
                if let Some(x) = objs.remove(&o) {
                    log(|| J::op("drop").i("o", o).end());
                    fault(w[2]);
                    let r = quiet(|| drop(x));
                    end(r.is_some(), &[]);
                }
            }
            "s" => {
                let (a, b) = (n(2), n(3));
                if !objs.contains_key(&a) || !objs.contains_key(&b) {
                    continue;
                }
                log(|| J::op("sop").i("a", a).i("b", b).end());
                fault(w[4]);
                let r = quiet(|| objs[&a].sop(w[1], &*objs[&b])).flatten();
                end(r.is_some(), &r.as_ref().map_or(vec![], |v| v.iter().map(|x| any_id(&**x)).filter(|x| *x != 0).collect::<Vec<_>>()));
                if let Some(v) = r {
                    mine.extend(v)
                }
            }
            "in" => {
                let (o, i) = (n(1), n(2));
                if its.contains_key(&i) {
                    continue;
                }
                if let Some(x) = objs.remove(&o) {
                    if x.any().downcast_ref::<FrozenSet<TK, HB>>().is_some() || ty.starts_with("fs") {
                        objs.insert(o, x); // cannot be consumed
                        continue;
                    }
                    log(|| J::op("into").i("o", o).i("i", i).end());
                    let it = x.consume(true).unwrap();
                    end(true, &[]);
                    its.insert(i, it);
                }
            }
            "it" => {
                let i = n(1);
                if !its.contains_key(&i) {
                    continue;
                }
                log(|| J::op("iter").i("i", i).s("how", w[2]).i("n", n(3)).end());
                fault(w[4]);
                let k = n(3) as usize;
                let got: Option<Vec<Box<dyn Any>>> = match w[2] {
                    "next" => {
                        let it = its.get_mut(&i).unwrap();
                        quiet(|| it.next().into_iter().collect())
                    }
                    "nth" => {
                        let it = its.get_mut(&i).unwrap();
                        quiet(|| it.nth(k).into_iter().collect())
                    }
                    how => {
                        let it = its.remove(&i).unwrap();
                        quiet(|| match how {
                            "count" => {
                                it.count();
                                vec![]
                            }
                            "last" => it.last().into_iter().collect(),
                            "all" => it.all(k),
                            _ => {
                                drop(it);
                                vec![]
                            }
                        })
                    }
                };
                end(got.is_some(), &got.as_ref().map_or(vec![], |v| v.iter().map(|x| any_id(&**x)).filter(|x| *x != 0).collect::<Vec<_>>()));
                if let Some(v) = got {
                    mine.extend(v)
                }
            }
            "ic" => {
                let (i, j) = (n(1), n(2));
                if !its.contains_key(&i) || its.contains_key(&j) {
                    continue;
                }
                log(|| J::op("iclone").i("i", i).i("j", j).end());
                fault(w[3]);
                let c = quiet(|| its[&i].dup());
                end(c.is_some(), &[]);
                if let Some(c) = c {
                    its.insert(j, c);
                }
            }
            "is" => {
                let i = n(1);
                if its.contains_key(&i) {
                    log(|| J::op("ishow").i("i", i).end());
                    fault(w[2]);
                    let r = quiet(|| its[&i].show());
                    end(r.is_some(), &[]);
                }
            }
            "u" | "END" => {
                if w[0] == "END" {
                    for (o, x) in std::mem::take(&mut objs) {
                        holds(o, &*x);
                        log(|| J::op("drop").i("o", o).end());
                        let r = quiet(|| drop(x));
                        end(r.is_some(), &[]);
                    }
                    for (i, x) in std::mem::take(&mut its) {
                        log(|| J::op("iter").i("i", i).s("how", "drop").i("n", 0).end());
                        let r = quiet(|| drop(x));
                        end(r.is_some(), &[]);
                    }
                }
                log(|| J::op("release").end());
                for x in std::mem::take(&mut mine) {
                    quiet(|| drop(x));
                }
                end(true, &[]);
            }
            _ => panic!("HARNESS: operation {op}"),
        }
    }
}

fn job(line: &str) -> String {
    let f: Vec<&str> = line.split('|').collect();
    let (ty, set, fam, mode, ops) = (f[0], f[1] == "set", f[2], f[3], f[5]);
    let (a, b) = f[4].split_once('-').expect("HARNESS: range");
    let range: Range<usize> = a.parse().unwrap()..b.parse().unwrap();
    FAM.with(|x| x.set(fam.as_bytes()[0]));
    LOG.with(|l| l.borrow_mut().clear());
    LOGGING.with(|l| l.set(true));
    run(ty, set, mode, range.clone(), ops);
    LOGGING.with(|l| l.set(false));
    // again, without logging, to see whether all memory comes back
    let before = LIVE.load(Relaxed);
    run(ty, set, mode, range, ops);
    let bytes = LIVE.load(Relaxed) - before;
    LOG.with(|l| {
        let mut v = std::mem::take(&mut *l.borrow_mut());
        v.push(J::op("fin").i("bytes", bytes).end());
        format!("{{\"ev\":[{}]}}", v.join(","))
    })
}

fn main() {
    common::worker::main_loop(job);
}
