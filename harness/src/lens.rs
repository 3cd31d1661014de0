//! C21: containers of every supported type, driven through the operations of a job; after each of them the length is
//! asked for along every way that leads to the container.
#![allow(dead_code, clippy::all)]
mod common;
use common::json::J;
use frozen_collections_core::traits::len::Len;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::ffi::{CStr, CString, OsStr, OsString};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

type Said = Vec<(usize, bool)>;
fn l<T: Len + ?Sized>(x: &T) -> (usize, bool) {
    (Len::len(x), Len::is_empty(x))
}

/// a hasher that puts everything in one bucket
#[derive(Default, Clone)]
struct One;
impl Hasher for One {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
type OneHash = BuildHasherDefault<One>;

trait El: Clone + Ord + Hash + Debug + 'static {
    fn el(x: u32) -> Self;
}
impl El for u8 {
    fn el(x: u32) -> u8 {
        x as u8
    }
}
impl El for u32 {
    fn el(x: u32) -> u32 {
        x
    }
}
impl El for u128 {
    fn el(x: u32) -> u128 {
        (x as u128) << 90
    }
}
impl El for String {
    fn el(x: u32) -> String {
        format!("{:05}{}", x, "pad".repeat(x as usize % 7))
    }
}
impl El for () {
    fn el(_: u32) {}
}
impl El for [u64; 4] {
    fn el(x: u32) -> [u64; 4] {
        [x as u64, 0, 1, u64::MAX]
    }
}
impl El for Vec<u8> {
    fn el(x: u32) -> Vec<u8> {
        [&[(x >> 16) as u8, (x >> 8) as u8, x as u8][..], &vec![7; x as usize % 5]].concat()
    }
}
impl El for Option<Box<u16>> {
    fn el(x: u32) -> Self {
        if x == 0 {
            None
        } else {
            Some(Box::new(x as u16))
        }
    }
}

trait Cont: Clone + Sized + 'static {
    const KIND: &'static str;
    fn make(xs: &[u32]) -> Self;
    fn add(&mut self, at: usize, x: u32);
    fn take(&mut self, at: usize);
    fn cut(&mut self, n: usize);
    fn clear(&mut self);
    fn fill(&mut self, x: u32, n: usize);
    fn same(&mut self, how: u32);
    fn absorb(&mut self, other: &mut Self);
    fn said(&self) -> Said;
}

/// the ways to reach a sized container
fn ways<C: Len + Clone + 'static>(c: &C) -> Said {
    let r: Rc<C> = Rc::new(c.clone());
    let r2 = r.clone();
    let w = Rc::downgrade(&r);
    let d: Box<dyn Len> = Box::new(c.clone());
    let rd: Rc<dyn Len> = r.clone();
    let ad: Arc<dyn Len> = Arc::new(c.clone());
    // shared ones
    let a: Arc<C> = Arc::new(c.clone());
    let a2 = a.clone();
    let aw = Arc::downgrade(&a);
    let mut a3 = Arc::new(Rc::new(c.clone()));
    Arc::make_mut(&mut a3);
    let out = vec![
        l(c),
        l(&Box::new(c.clone())),
        l(&r),
        l(&r2),
        l(&w.upgrade().unwrap()),
        l(&Arc::new(c.clone())),
        l(&Box::new(Rc::new(Arc::new(c.clone())))),
        l(&Arc::new(Box::new(Box::new(c.clone())))),
        l(&*d),
        l(&d),
        l(&rd),
        l(&ad),
        l(&Box::new(ad.clone())),
        l(&a),
        l(&a2),
        l(&aw.upgrade().unwrap()),
        l(&Box::new(r.clone())),
        l(&a3),
        l(&*a2),
    ];
    out
}
fn unsized_ways<U: Len + ?Sized + 'static>(b: Box<U>, r: Rc<U>, a: Arc<U>) -> Said {
    let (r2, a2) = (r.clone(), a.clone());
    let (rw, aw) = (Rc::downgrade(&r2), Arc::downgrade(&a2));
    vec![l(&*b), l(&b), l(&*r), l(&r), l(&r2), l(&*a), l(&a), l(&a2), l(&rw.upgrade().unwrap()), l(&aw.upgrade().unwrap()), l(&Box::new(b)), l(&Rc::new(r)), l(&Box::new(Arc::new(a)))]
}

macro_rules! seq {
    ($t:ident, $push:expr, $ins:expr, $rem:expr, $trunc:expr, $absorb:expr, $same:expr, $more:expr) => {
        impl<E: El> Cont for $t<E> {
            const KIND: &'static str = "seq";
            fn make(xs: &[u32]) -> Self {
                xs.iter().map(|x| E::el(*x)).collect()
            }
            fn add(&mut self, at: usize, x: u32) {
                let f: fn(&mut $t<E>, usize, E) = $ins;
                f(self, at, E::el(x))
            }
            fn take(&mut self, at: usize) {
                let f: fn(&mut $t<E>, usize) = $rem;
                f(self, at)
            }
            fn cut(&mut self, n: usize) {
                let f: fn(&mut $t<E>, usize) = $trunc;
                f(self, n)
            }
            fn clear(&mut self) {
                $t::clear(self)
            }
            fn fill(&mut self, x: u32, n: usize) {
                self.extend(std::iter::repeat(E::el(x)).take(n))
            }
            fn same(&mut self, how: u32) {
                let f: fn(&mut $t<E>, u32) = $same;
                f(self, how)
            }
            fn absorb(&mut self, other: &mut Self) {
                let f: fn(&mut $t<E>, &mut $t<E>) = $absorb;
                f(self, other)
            }
            fn said(&self) -> Said {
                let f: fn(&$t<E>) -> Said = $more;
                let mut v = ways(self);
                v.extend(f(self));
                v
            }
        }
    };
}
seq!(Vec, |c, x| c.push(x), |c, at, x| c.insert(at, x), |c, at| drop(c.remove(at)), |c, n| c.truncate(n), |c, o| c.append(o),
    |c, how| match how % 4 {
        0 => c.reserve(how as usize),
        1 => c.shrink_to_fit(),
        2 => *c = std::mem::take(c).into_boxed_slice().into_vec(),
        _ => *c = VecDeque::from(std::mem::take(c)).into(),
    },
    |c| {
        let mut v = unsized_ways::<[E]>(c.clone().into(), c.clone().into(), c.clone().into());
        v.push(l(c.as_slice()));
        v.push(l(&c[..]));
        v
    });
seq!(VecDeque, |c, x| c.push_back(x), |c, at, x| if at == 0 { c.push_front(x) } else { c.insert(at, x) }, |c, at| drop(c.remove(at).unwrap()), |c, n| c.truncate(n), |c, o| c.append(o),
    |c, how| match how % 4 {
        0 => c.reserve(how as usize),
        1 => c.shrink_to_fit(),
        2 => drop(c.make_contiguous()),
        _ => {
            // turn the ring without changing what it holds
            let n = c.len();
            if n > 0 {
                let k = how as usize % n;
                c.rotate_left(k);
                c.rotate_right(k);
                for _ in 0..n {
                    let x = c.pop_front().unwrap();
                    c.push_back(x);
                }
            }
        }
    },
    |c| { let (a, b) = c.as_slices(); let (x, y) = (l(a), l(b)); vec![(x.0 + y.0, x.1 && y.1)] });
seq!(LinkedList, |c, x| c.push_back(x),
    |c, at, x| if at == 0 { c.push_front(x) } else { let mut t = c.split_off(at); c.push_back(x); c.append(&mut t) },
    |c, at| { let mut t = c.split_off(at); t.pop_front().unwrap(); c.append(&mut t) },
    |c, n| drop(c.split_off(n)), |c, o| c.append(o), |c, how| if how % 2 == 0 { let mut n = LinkedList::new(); n.append(c); *c = n } else { *c = c.clone() }, |_| vec![]);

impl<E: El> Cont for BinaryHeap<E> {
    const KIND: &'static str = "bag";
    fn make(xs: &[u32]) -> Self {
        xs.iter().map(|x| E::el(*x)).collect()
    }
    fn add(&mut self, _: usize, x: u32) {
        self.push(E::el(x))
    }
    fn take(&mut self, _: usize) {
        self.pop();
    }
    fn cut(&mut self, n: usize) {
        let m = E::el(n as u32);
        self.retain(|x| *x <= m)
    }
    fn clear(&mut self) {
        BinaryHeap::clear(self)
    }
    fn fill(&mut self, x: u32, n: usize) {
        self.extend(std::iter::repeat(E::el(x)).take(n))
    }
    fn same(&mut self, how: u32) {
        match how % 3 {
            0 => self.reserve(how as usize),
            1 => self.shrink_to_fit(),
            _ => *self = std::mem::take(self).into_sorted_vec().into(),
        }
    }
    fn absorb(&mut self, other: &mut Self) {
        self.append(other)
    }
    fn said(&self) -> Said {
        let mut v = ways(self);
        v.push(l(self.as_slice()));
        v
    }
}

macro_rules! setlike {
    ([$($g:tt)*] $t:ty, $key:expr, $add:expr, $rem:expr, $retain:expr, $same:expr, $absorb:expr) => {
        impl<$($g)*> Cont for $t {
            const KIND: &'static str = "set";
            fn make(xs: &[u32]) -> Self {
                let mut c = <$t>::default();
                for x in xs {
                    c.add(0, *x)
                }
                c
            }
            fn add(&mut self, _: usize, x: u32) {
                let f: fn(&mut $t, u32) = $add;
                f(self, x)
            }
            fn take(&mut self, x: usize) {
                let f: fn(&mut $t, u32) = $rem;
                f(self, x as u32)
            }
            fn cut(&mut self, n: usize) {
                let f: fn(&mut $t, u32) = $retain;
                f(self, n as u32)
            }
            fn clear(&mut self) {
                <$t>::clear(self)
            }
            fn fill(&mut self, x: u32, n: usize) {
                for i in 0..n as u32 {
                    self.add(0, x + i)
                }
            }
            fn same(&mut self, how: u32) {
                let f: fn(&mut $t, u32) = $same;
                f(self, how)
            }
            fn absorb(&mut self, other: &mut Self) {
                let f: fn(&mut $t, &mut $t) = $absorb;
                f(self, other)
            }
            fn said(&self) -> Said {
                ways(self)
            }
        }
    };
}
setlike!([E: El] BTreeSet<E>, 0, |c, x| drop(c.insert(E::el(x))), |c, x| drop(c.remove(&E::el(x))), |c, n| { let m = E::el(n); c.retain(|x| *x <= m) }, |c, _| *c = c.clone(), |c, o| c.append(o));
setlike!([E: El] HashSet<E>, 0, |c, x| drop(c.insert(E::el(x))), |c, x| drop(c.remove(&E::el(x))), |c, n| { let m = E::el(n); c.retain(|x| *x <= m) },
    |c, how| if how % 2 == 0 { c.reserve(how as usize) } else { c.shrink_to_fit() }, |c, o| c.extend(o.drain()));
setlike!([E: El] HashSet<E, OneHash>, 0, |c, x| drop(c.insert(E::el(x))), |c, x| drop(c.remove(&E::el(x))), |c, n| { let m = E::el(n); c.retain(|x| *x <= m) },
    |c, how| if how % 2 == 0 { c.reserve(how as usize) } else { c.shrink_to_fit() }, |c, o| c.extend(o.drain()));
// in maps the keys are the elements; giving a key again replaces its value
setlike!([E: El, V: El] BTreeMap<E, V>, 0, |c, x| drop(c.insert(E::el(x), V::el(x / 2))), |c, x| drop(c.remove(&E::el(x))), |c, n| { let m = E::el(n); c.retain(|x, _| *x <= m) }, |c, _| *c = c.clone(), |c, o| c.append(o));
setlike!([E: El, V: El] HashMap<E, V>, 0, |c, x| drop(c.insert(E::el(x), V::el(x / 2))), |c, x| drop(c.remove(&E::el(x))), |c, n| { let m = E::el(n); c.retain(|x, _| *x <= m) },
    |c, how| if how % 2 == 0 { c.reserve(how as usize) } else { c.shrink_to_fit() }, |c, o| c.extend(o.drain()));
setlike!([E: El, V: El] HashMap<E, V, OneHash>, 0, |c, x| drop(c.insert(E::el(x), V::el(x / 2))), |c, x| drop(c.remove(&E::el(x))), |c, n| { let m = E::el(n); c.retain(|x, _| *x <= m) },
    |c, how| if how % 2 == 0 { c.reserve(how as usize) } else { c.shrink_to_fit() }, |c, o| c.extend(o.drain()));

fn ch(x: u32) -> char {
    char::from_u32(x).expect("HARNESS: no such character")
}
impl Cont for String {
    const KIND: &'static str = "text";
    fn make(xs: &[u32]) -> Self {
        xs.iter().map(|x| ch(*x)).collect()
    }
    fn add(&mut self, at: usize, x: u32) {
        let p = self.char_indices().nth(at).map_or(String::len(self), |x| x.0);
        self.insert(p, ch(x))
    }
    fn take(&mut self, at: usize) {
        let p = self.char_indices().nth(at).unwrap().0;
        self.remove(p);
    }
    fn cut(&mut self, n: usize) {
        let p = self.char_indices().nth(n).map_or(String::len(self), |x| x.0);
        self.truncate(p)
    }
    fn clear(&mut self) {
        String::clear(self)
    }
    fn fill(&mut self, x: u32, n: usize) {
        self.extend(std::iter::repeat(ch(x)).take(n))
    }
    fn same(&mut self, how: u32) {
        match how % 3 {
            0 => self.reserve(how as usize),
            1 => self.shrink_to_fit(),
            _ => *self = std::mem::take(self).into_boxed_str().into_string(),
        }
    }
    fn absorb(&mut self, other: &mut Self) {
        self.push_str(other);
        String::clear(other)
    }
    fn said(&self) -> Said {
        let mut v = ways(self);
        v.extend(unsized_ways::<str>(self.as_str().into(), self.as_str().into(), self.as_str().into()));
        v.push(l(self.as_str()));
        v.push(l(self.as_bytes()));
        v.push(l(OsStr::new(self)));
        v.push(l(&OsString::from(self)));
        if !self.contains('\0') {
            let c = CString::new(self.as_str()).unwrap();
            v.push(l(&c));
            v.push(l(c.as_c_str()));
        }
        v
    }
}
impl Cont for OsString {
    const KIND: &'static str = "byte";
    fn make(xs: &[u32]) -> Self {
        OsString::from_vec(xs.iter().map(|x| *x as u8).collect())
    }
    fn add(&mut self, at: usize, x: u32) {
        if at == self.as_bytes().len() && x < 128 {
            self.push(ch(x).to_string());
            return;
        }
        let mut b = std::mem::take(self).into_vec();
        b.insert(at, x as u8);
        *self = OsString::from_vec(b)
    }
    fn take(&mut self, at: usize) {
        let mut b = std::mem::take(self).into_vec();
        b.remove(at);
        *self = OsString::from_vec(b)
    }
    fn cut(&mut self, n: usize) {
        let mut b = std::mem::take(self).into_vec();
        b.truncate(n);
        *self = OsString::from_vec(b)
    }
    fn clear(&mut self) {
        OsString::clear(self)
    }
    fn fill(&mut self, x: u32, n: usize) {
        let mut b = std::mem::take(self).into_vec();
        b.extend(vec![x as u8; n]);
        *self = OsString::from_vec(b)
    }
    fn same(&mut self, how: u32) {
        match how % 3 {
            0 => self.reserve(how as usize),
            1 => self.shrink_to_fit(),
            _ => *self = std::mem::take(self).into_boxed_os_str().into_os_string(),
        }
    }
    fn absorb(&mut self, other: &mut Self) {
        self.push(&*other);
        OsString::clear(other)
    }
    fn said(&self) -> Said {
        let mut v = ways(self);
        v.extend(unsized_ways::<OsStr>(self.as_os_str().into(), self.as_os_str().into(), self.as_os_str().into()));
        v.push(l(self.as_os_str()));
        v.push(l(OsStr::from_bytes(self.as_bytes())));
        v
    }
}
impl Cont for CString {
    const KIND: &'static str = "cstr";
    fn make(xs: &[u32]) -> Self {
        // up to the first zero byte, with whatever follows it in the buffer
        let mut b: Vec<u8> = xs.iter().map(|x| *x as u8).collect();
        b.extend([0, b'j', b'u', b'n', b'k', 0]);
        CStr::from_bytes_until_nul(&b).unwrap().to_owned()
    }
    fn add(&mut self, at: usize, x: u32) {
        let mut b = std::mem::take(self).into_bytes();
        b.insert(at, x as u8);
        *self = CString::new(b).unwrap()
    }
    fn take(&mut self, at: usize) {
        let mut b = std::mem::take(self).into_bytes();
        b.remove(at);
        *self = CString::new(b).unwrap()
    }
    fn cut(&mut self, n: usize) {
        let mut b = std::mem::take(self).into_bytes();
        b.truncate(n);
        *self = CString::new(b).unwrap()
    }
    fn clear(&mut self) {
        *self = CString::default()
    }
    fn fill(&mut self, x: u32, n: usize) {
        let mut b = std::mem::take(self).into_bytes_with_nul();
        b.pop();
        b.extend(vec![x as u8; n]);
        *self = CString::new(b).unwrap()
    }
    fn same(&mut self, how: u32) {
        match how % 3 {
            0 => *self = std::mem::take(self).into_boxed_c_str().into_c_string(),
            1 => *self = unsafe { CString::from_raw(std::mem::take(self).into_raw()) },
            _ => *self = CString::from_vec_with_nul(std::mem::take(self).into_bytes_with_nul()).unwrap(),
        }
    }
    fn absorb(&mut self, other: &mut Self) {
        let mut b = std::mem::take(self).into_bytes();
        b.extend(other.as_bytes());
        *self = CString::new(b).unwrap();
        *other = CString::default();
    }
    fn said(&self) -> Said {
        let mut v = ways(self);
        v.extend(unsized_ways::<CStr>(self.as_c_str().into(), self.as_c_str().into(), self.as_c_str().into()));
        v.push(l(self.as_c_str()));
        let mut b = self.as_bytes_with_nul().to_vec();
        b.extend(b"after\0");
        v.push(l(CStr::from_bytes_until_nul(&b).unwrap()));
        v
    }
}

fn limbs(n: usize) -> Vec<i64> {
    vec![(n & 0xffffff) as i64, (n >> 24 & 0xffffff) as i64, (n >> 48) as i64]
}
fn nested(v: &[Vec<i64>]) -> String {
    format!("[{}]", v.iter().map(|x| format!("[{}]", x.iter().map(|y| y.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","))
}
fn huge(ev: &mut Vec<String>) {
    fn say(ev: &mut Vec<String>, n: usize, said: Said) {
        ev.push(J::op("huge").a("limbs", &limbs(n)).raw("ns", &nested(&said.iter().map(|x| limbs(x.0)).collect::<Vec<_>>())).a("es", &said.iter().map(|x| x.1 as i64).collect::<Vec<_>>()).end());
    }
    fn units<const N: usize>(ev: &mut Vec<String>) {
        let u: Box<[()]> = Box::new([(); N]);
        let r: Rc<[()]> = Rc::new([(); N]);
        let a: Arc<[()]> = Arc::new([(); N]);
        let q = if N < 1 << 62 { l(&VecDeque::from(u.clone().into_vec())) } else { l(&u) };
        let said = vec![q, l(&*u), l(&u), l(&*r), l(&r), l(&*a), l(&a), l(&Box::new(r.clone())), l(&u.clone().into_vec()), l(&Rc::new(u.into_vec()))];
        say(ev, N, said);
    }
    units::<0>(ev);
    units::<255>(ev);
    units::<256>(ev);
    units::<65535>(ev);
    units::<65536>(ev);
    units::<16777216>(ev);
    units::<{ i32::MAX as usize }>(ev);
    units::<{ i32::MAX as usize + 1 }>(ev);
    units::<{ u32::MAX as usize }>(ev);
    units::<{ u32::MAX as usize + 1 }>(ev);
    units::<{ 3 * (u32::MAX as usize + 1) + 5 }>(ev);
    units::<{ isize::MAX as usize }>(ev);
    units::<{ isize::MAX as usize + 1 }>(ev);
    units::<{ usize::MAX - 1 }>(ev);
    units::<{ usize::MAX }>(ev);
    // more bytes than 32 bits count; untouched zero pages take no memory
    {
        let n = (1usize << 32) + 5;
        let b = vec![0u8; n];
        let said = vec![l(&b), l(&*b), l(OsStr::from_bytes(&b)), l(unsafe { std::str::from_utf8_unchecked(&b) })];
        say(ev, n, said);
        let s = unsafe { String::from_utf8_unchecked(b) };
        let said = vec![l(&s), l(&*s)];
        say(ev, n, said);
        let o = OsString::from_vec(s.into_bytes());
        let said = vec![l(&o), l(&*o)];
        say(ev, n, said);
        let o = o.into_boxed_os_str();
        let said = vec![l(&*o), l(&o)];
        say(ev, n, said);
        let b: Rc<Box<[u8]>> = Rc::new(o.into_os_string().into_vec().into_boxed_slice());
        let said = vec![l(&*b), l(&**b), l(&b)];
        say(ev, n, said);
    }
    // long strings and vectors, without the elements
    for n in [65536usize, 16_777_215, 16_777_216, 40_000_000] {
        let s = "x".repeat(n);
        let said = vec![l(&*s), l(&s), l(OsStr::new(&s)), l(s.as_bytes())];
        say(ev, n, said);
        let c = CString::new(s).unwrap();
        let said = vec![l(&c), l(c.as_c_str()), l(&Box::<CStr>::from(c.as_c_str()))];
        say(ev, n, said);
        let o = OsString::from_vec(vec![0xff; n]);
        let said = vec![l(&o), l(o.as_os_str())];
        say(ev, n, said);
    }
}

fn run<C: Cont>(ops: &str, ev: &mut Vec<String>) {
    let mut cs: std::collections::BTreeMap<i64, C> = std::collections::BTreeMap::new();
    for op in ops.split(';').filter(|x| !x.is_empty()) {
        let w: Vec<&str> = op.split(' ').collect();
        let a: Vec<i64> = w[1..].iter().map(|x| x.parse().expect("HARNESS: argument")).collect();
        let o = a[0];
        let mut touched = vec![o];
        match w[0] {
            "make" => {
                let xs: Vec<u32> = a[1..].iter().map(|x| *x as u32).collect();
                cs.insert(o, C::make(&xs));
                ev.push(J::op("make").i("o", o).s("kind", C::KIND).a("xs", &a[1..]).end());
            }
            "add" => {
                cs.get_mut(&o).unwrap().add(a[1] as usize, a[2] as u32);
                ev.push(J::op("add").i("o", o).i("at", a[1]).i("x", a[2]).end());
            }
            "take" => {
                cs.get_mut(&o).unwrap().take(a[1] as usize);
                ev.push(J::op("take").i("o", o).i("at", a[1]).end());
            }
            "cut" => {
                cs.get_mut(&o).unwrap().cut(a[1] as usize);
                ev.push(J::op("cut").i("o", o).i("n", a[1]).end());
            }
            "clear" => {
                cs.get_mut(&o).unwrap().clear();
                ev.push(J::op("clear").i("o", o).end());
            }
            "fill" => {
                cs.get_mut(&o).unwrap().fill(a[1] as u32, a[2] as usize);
                ev.push(J::op("fill").i("o", o).i("x", a[1]).i("n", a[2]).end());
            }
            "same" => {
                cs.get_mut(&o).unwrap().same(a[1] as u32);
                ev.push(J::op("same").i("o", o).end());
            }
            "copy" => {
                let c = cs[&o].clone();
                cs.insert(a[1], c);
                touched.push(a[1]);
                ev.push(J::op("copy").i("o", o).i("p", a[1]).end());
            }
            "absorb" => {
                let mut p = cs.remove(&a[1]).unwrap();
                cs.get_mut(&o).unwrap().absorb(&mut p);
                cs.insert(a[1], p);
                touched.push(a[1]);
                ev.push(J::op("absorb").i("o", o).i("p", a[1]).end());
            }
            "drop" => {
                cs.remove(&o);
                touched.clear();
                ev.push(J::op("drop").i("o", o).end());
            }
            _ => panic!("HARNESS: operation {op}"),
        }
        for t in touched {
            match catch_unwind(AssertUnwindSafe(|| cs[&t].said())) {
                Ok(said) => ev.push(J::op("lens").i("o", t).a("ns", &said.iter().map(|x| x.0 as i64).collect::<Vec<_>>()).a("es", &said.iter().map(|x| x.1 as i64).collect::<Vec<_>>()).end()),
                Err(_) => ev.push(J::op("panic").s("in", "lens").end()),
            }
        }
    }
}

fn job(line: &str) -> String {
    let (ty, ops) = line.split_once('|').expect("HARNESS: job");
    let mut ev = vec![];
    let e = &mut ev;
    match ty {
        "vec-u8" => run::<Vec<u8>>(ops, e),
        "vec-string" => run::<Vec<String>>(ops, e),
        "vec-unit" => run::<Vec<()>>(ops, e),
        "vec-arr" => run::<Vec<[u64; 4]>>(ops, e),
        "vec-opt" => run::<Vec<Option<Box<u16>>>>(ops, e),
        "deque-u32" => run::<VecDeque<u32>>(ops, e),
        "deque-string" => run::<VecDeque<String>>(ops, e),
        "deque-unit" => run::<VecDeque<()>>(ops, e),
        "list-u8" => run::<LinkedList<u8>>(ops, e),
        "list-vec" => run::<LinkedList<Vec<u8>>>(ops, e),
        "heap-u32" => run::<BinaryHeap<u32>>(ops, e),
        "heap-string" => run::<BinaryHeap<String>>(ops, e),
        "bset-u32" => run::<BTreeSet<u32>>(ops, e),
        "bset-string" => run::<BTreeSet<String>>(ops, e),
        "hset-u32" => run::<HashSet<u32>>(ops, e),
        "hset-string" => run::<HashSet<String>>(ops, e),
        "hset1-u128" => run::<HashSet<u128, OneHash>>(ops, e),
        "bmap-u32" => run::<BTreeMap<u32, String>>(ops, e),
        "bmap-vec" => run::<BTreeMap<Vec<u8>, ()>>(ops, e),
        "hmap-u32" => run::<HashMap<u32, [u64; 4]>>(ops, e),
        "hmap-string" => run::<HashMap<String, u8>>(ops, e),
        "hmap1-u32" => run::<HashMap<u32, Vec<u8>, OneHash>>(ops, e),
        "string" => run::<String>(ops, e),
        "os" => run::<OsString>(ops, e),
        "c" => run::<CString>(ops, e),
        "huge" => {
            if catch_unwind(AssertUnwindSafe(|| huge(e))).is_err() {
                ev.push(J::op("panic").s("in", "lens").end())
            }
        }
        _ => panic!("HARNESS: type {ty}"),
    }
    format!("{{\"ev\":[{}]}}", ev.join(","))
}

fn main() {
    common::worker::main_loop(job);
}
