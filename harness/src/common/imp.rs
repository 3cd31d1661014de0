//! Adapters from the real iterators and collections to the engine's traits.
use super::engine::Val;
use super::engine::{AnyRef, It, SetIt, SetObj, Shape};
use std::fmt::Debug;
use frozen_collections_core::specialized_sets::Set;
use frozen_collections_core::traits::len::Len;

thread_local! { pub static RENDERINGS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }

/// the debug rendering, every other time the one over several lines with its lines joined again
pub fn text<T: Debug + ?Sized>(x: &T) -> String {
    let n = RENDERINGS.with(|r| r.replace(r.get() + 1));
    if n % 2 == 0 {
        return format!("{x:?}");
    }
    let mut out = String::new();
    for line in format!("{x:#?}").lines() {
        let line = line.trim_start_matches(' ');
        if out.ends_with(", ") && line.starts_with(['}', ')', ']']) {
            out.truncate(out.len() - 2);
        }
        out.push_str(line);
        if line.ends_with(',') {
            out.push(' ');
        }
    }
    out
}

/// how to show an iterator's item
pub trait Show<K> {
    fn show(self) -> (Option<K>, Option<u32>);
}
impl<'a, K: Clone> Show<K> for (&'a K, &'a Val) {
    fn show(self) -> (Option<K>, Option<u32>) {
        (Some(self.0.clone()), Some(self.1.0))
    }
}

/// everything an iterator still yields, by one of the ways to take it all
fn drain<T, X, I: Iterator<Item = X>>(mapped: impl Iterator<Item = T>, it: I, show: impl Fn(X) -> T, how: &str) -> Vec<T> {
    let mut v = Vec::new();
    match how {
        "fold" => {
            return it.fold(v, |mut a, x| {
                a.push(show(x));
                a
            })
        }
        "each" => it.for_each(|x| v.push(show(x))),
        "coll" => return mapped.collect(),
        "ext" => v.extend(mapped),
        "try" => {
            let mut it = it;
            let _: Result<(), ()> = it.try_for_each(|x| {
                v.push(show(x));
                Ok(())
            });
        }
        "all" => {
            let mut it = it;
            let _ = it.all(|x| {
                v.push(show(x));
                true
            });
        }
        "chain" => return mapped.chain(std::iter::empty()).collect(),
        "step" => return mapped.step_by(1).collect(),
        "peek" => {
            let mut p = mapped.peekable();
            while p.peek().is_some() {
                v.push(p.next().unwrap());
            }
        }
        _ => panic!("HARNESS: fold {how}"),
    }
    v
}

macro_rules! adapter {
    ($name:ident, $item:ty, $shape:ident, $show:expr, exact) => {
        adapter!(@ $name, $item, $shape, $show, [ExactSizeIterator], |x: &I| Some(x.len()));
    };
    ($name:ident, $item:ty, $shape:ident, $show:expr, inexact) => {
        adapter!(@ $name, $item, $shape, $show, [], |_: &I| None);
    };
    (@ $name:ident, $item:ty, $shape:ident, $show:expr, [$($b:path)?], $exact:expr) => {
        pub struct $name<I>(pub I);
        impl<'a, K: Clone + 'static, I: Iterator<Item = $item> $(+ $b)? + Clone + Debug + 'a> It<'a, K> for $name<I> {
            fn step(&mut self) -> Option<(Option<K>, Option<u32>)> {
                self.0.next().map($show)
            }
            fn skip_to(&mut self, n: usize) -> Option<(Option<K>, Option<u32>)> {
                self.0.nth(n).map($show)
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn exact(&self) -> Option<usize> {
                ($exact)(&self.0)
            }
            fn counted(&self) -> Option<usize> {
                Some(self.0.clone().count())
            }
            fn folded(&self, how: &str) -> Option<Vec<(Option<K>, Option<u32>)>> {
                Some(drain(self.0.clone().map($show), self.0.clone(), $show, how))
            }
            fn lasted(&self) -> Option<(Option<K>, Option<u32>)> {
                self.0.clone().last().map($show)
            }
            fn dup(&self) -> Option<Box<dyn It<'a, K> + 'a>> {
                Some(Box::new($name(self.0.clone())))
            }
            fn rendered(&self) -> (String, Shape) {
                (text(&self.0), Shape::$shape)
            }
        }
    };
}
adapter!(Pairs, (&'a K, &'a Val), Pairs, |x: (&K, &Val)| (Some(x.0.clone()), Some(x.1.0)), exact);
adapter!(KeysIt, &'a K, Keys, |x: &K| (Some(x.clone()), None), exact);
adapter!(KeysLazy, &'a K, Keys, |x: &K| (Some(x.clone()), None), inexact);
adapter!(OwnedIt, K, Keys, |x: K| (Some(x), None), exact);

pub struct ValsIt<I>(pub I);
impl<'a, K: Clone + 'static, I: ExactSizeIterator<Item = &'a Val> + Clone + Debug + 'a> It<'a, K> for ValsIt<I> {
    fn step(&mut self) -> Option<(Option<K>, Option<u32>)> {
        self.0.next().map(|x| (None, Some(x.0)))
    }
    fn skip_to(&mut self, n: usize) -> Option<(Option<K>, Option<u32>)> {
        self.0.nth(n).map(|x| (None, Some(x.0)))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn exact(&self) -> Option<usize> {
        Some(self.0.len())
    }
    fn counted(&self) -> Option<usize> {
        Some(self.0.clone().count())
    }
    fn folded(&self, how: &str) -> Option<Vec<(Option<K>, Option<u32>)>> {
        let show = |x: &Val| (None, Some(x.0));
        Some(drain(self.0.clone().map(show), self.0.clone(), show, how))
    }
    fn lasted(&self) -> Option<(Option<K>, Option<u32>)> {
        self.0.clone().last().map(|x| (None, Some(x.0)))
    }
    fn dup(&self) -> Option<Box<dyn It<'a, K> + 'a>> {
        Some(Box::new(ValsIt(self.0.clone())))
    }
    fn rendered(&self) -> (String, Shape) {
        (text(&self.0), Shape::Values)
    }
}

impl<'a, K: 'a, I: Iterator<Item = &'a K> + Clone + 'a> SetIt<'a, K> for I {
    fn dup(&self) -> Box<dyn SetIt<'a, K> + 'a> {
        Box::new(self.clone())
    }
}

/// a boxed set iterator that can be cloned
pub struct AnyIt<'a, K>(pub Box<dyn SetIt<'a, K> + 'a>);
impl<'a, K> Iterator for AnyIt<'a, K> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K> Clone for AnyIt<'a, K> {
    fn clone(&self) -> Self {
        AnyIt(self.0.dup())
    }
}

impl<'s, K: 'static> Len for AnyRef<'s, K> {
    fn len(&self) -> usize {
        self.0.o_set_len()
    }
}
impl<'s, K: 'static> Set<K> for AnyRef<'s, K> {
    type Iterator<'a>
        = AnyIt<'a, K>
    where
        Self: 'a,
        K: 'a;
    fn iter(&self) -> AnyIt<'_, K> {
        AnyIt(self.0.o_set_it())
    }
    fn contains(&self, v: &K) -> bool {
        self.0.o_set_has(v)
    }
}

/// Is a type Sync / Send?  The inherent constants exist only if it is, and then win over the traits' ones.
pub struct Probe<T>(std::marker::PhantomData<T>);
pub trait NotSync {
    const SYNC: bool = false;
}
pub trait NotSend {
    const SEND: bool = false;
}
impl<T> NotSync for Probe<T> {}
impl<T> NotSend for Probe<T> {}
impl<T: Sync> Probe<T> {
    pub const SYNC: bool = true;
}
impl<T: Send> Probe<T> {
    pub const SEND: bool = true;
}

/// implements MapObj<$k> for the concrete map type $t
#[macro_export]
macro_rules! map_obj {
    ($k:ty, $t:ty) => { $crate::map_obj!($k, $t, $k, |k: &$k| k.clone()); };
    // $q: the (borrowed) type lookups are made with, $f: from the key to it
    ($k:ty, $t:ty, $q:ty, $f:expr) => {
        impl $crate::common::engine::MapObj<$k> for $t {
            fn o_get(&self, k: &$k) -> Option<u32> {
                let q: $q = ($f)(k);
                <$t>::get(self, &q).map(|v| v.0)
            }
            fn o_gkv(&self, k: &$k) -> Option<($k, u32)> {
                let q: $q = ($f)(k);
                <$t>::get_key_value(self, &q).map(|(k, v)| (k.clone(), v.0))
            }
            fn o_has(&self, k: &$k) -> bool {
                let q: $q = ($f)(k);
                <$t>::contains_key(self, &q)
            }
            fn o_idx(&self, k: &$k) -> u32 {
                let q: $q = ($f)(k);
                <$t as std::ops::Index<$q>>::index(self, q).0
            }
            fn o_gm(&mut self, k: &$k) -> Option<&mut u32> {
                let q: $q = ($f)(k);
                <$t>::get_mut(self, &q).map(|v| &mut v.0)
            }
            fn o_im(&mut self, k: &$k) -> &mut u32 {
                let q: $q = ($f)(k);
                &mut <$t as std::ops::IndexMut<$q>>::index_mut(self, q).0
            }
            fn o_many(&mut self, ks: &[&$k], ws: &[u32]) -> Option<(Vec<u32>, Vec<u32>)> {
                let qs: Vec<$q> = ks.iter().map(|k| ($f)(*k)).collect();
                macro_rules! n {
                    ($n:literal) => {{
                        let a: [&$q; $n] = std::array::from_fn(|i| &qs[i]);
                        let r = <$t>::get_many_mut(self, a)?;
                        let olds: Vec<u32> = r.iter().map(|x| x.0).collect();
                        let mut r: Vec<&mut u32> = r.into_iter().map(|x| &mut x.0).collect();
                        for (x, w) in r.iter_mut().zip(ws) {
                            **x = *w;
                        }
                        Some((olds, r.iter().map(|x| **x).collect()))
                    }};
                }
                match ks.len() {
                    0 => n!(0),
                    1 => n!(1),
                    2 => n!(2),
                    3 => n!(3),
                    4 => n!(4),
                    5 => n!(5),
                    9 => n!(9),
                    17 => n!(17),
                    34 => n!(34),
                    70 => n!(70),
                    130 => n!(130),
                    _ => panic!("HARNESS: many"),
                }
            }
            fn o_len(&self) -> usize {
                #[allow(unused_imports)]
                use frozen_collections_core::traits::len::Len;
                <$t>::len(self)
            }
            fn o_is_empty(&self) -> bool {
                #[allow(unused_imports)]
                use frozen_collections_core::traits::len::Len;
                <$t>::is_empty(self)
            }
            fn o_it<'a>(&'a self, via: &str) -> Box<dyn $crate::common::engine::It<'a, $k> + 'a> {
                use $crate::common::imp::*;
                match via {
                    "iter" => Box::new(Pairs(<$t>::iter(self))),
                    "ref" => Box::new(Pairs(IntoIterator::into_iter(self))),
                    "keys" => Box::new(KeysIt(<$t>::keys(self))),
                    "vals" => Box::new(ValsIt(<$t>::values(self))),
                    _ => panic!("HARNESS: iterator {via}"),
                }
            }
            fn o_debug(&self) -> String {
                $crate::common::imp::text(self)
            }
            fn o_equal(&self, o: &dyn $crate::common::engine::MapObj<$k>) -> (bool, bool) {
                let o: &$t = o.o_any().downcast_ref().expect("HARNESS: eq of different map types");
                (*self == *o, *self != *o)
            }
            fn o_dup(&self) -> Box<dyn $crate::common::engine::MapObj<$k>> {
                Box::new(self.clone())
            }
            fn o_assign(&mut self, from: &dyn $crate::common::engine::MapObj<$k>) {
                self.clone_from(from.o_any().downcast_ref::<$t>().expect("HARNESS: assigned from another type"))
            }
            fn o_any(&self) -> &dyn std::any::Any {
                self
            }
            fn o_shareable(&self) -> (bool, bool) {
                #[allow(unused_imports)]
                use $crate::common::imp::{NotSend, NotSync};
                ($crate::common::imp::Probe::<$t>::SYNC, $crate::common::imp::Probe::<$t>::SEND)
            }
        }
    };
}

/// implements SetObj<$k> for the concrete set type $t.
/// $into: does it have a consuming iterator; $dbg: Debug; $eq: "self" or "any"
#[macro_export]
macro_rules! set_obj {
    ($k:ty, $t:ty, $kind:ident) => { $crate::set_obj!($k, $t, $kind, $k, |k: &$k| k.clone()); };
    ($k:ty, $t:ty, $kind:ident, $q:ty, $f:expr) => {
        impl $crate::common::engine::SetObj<$k> for $t {
            fn o_get(&self, k: &$k) -> Option<$k> {
                let q: $q = ($f)(k);
                <$t>::get(self, &q).cloned()
            }
            fn o_has(&self, k: &$k) -> bool {
                let q: $q = ($f)(k);
                <$t>::contains(self, &q)
            }
            fn o_len(&self) -> usize {
                #[allow(unused_imports)]
                use frozen_collections_core::traits::len::Len;
                <$t>::len(self)
            }
            fn o_is_empty(&self) -> bool {
                #[allow(unused_imports)]
                use frozen_collections_core::traits::len::Len;
                <$t>::is_empty(self)
            }
            fn o_it<'a>(&'a self, via: &str) -> Box<dyn $crate::common::engine::It<'a, $k> + 'a> {
                #[allow(unused_imports)]
                use frozen_collections_core::specialized_sets::Set;
                use $crate::common::imp::*;
                match via {
                    "siter" => Box::new($crate::set_obj!(@it $kind)(<$t>::iter(self))),
                    "sref" => Box::new($crate::set_obj!(@it $kind)(IntoIterator::into_iter(self))),
                    _ => panic!("HARNESS: iterator {via}"),
                }
            }
            fn o_set_it<'a>(&'a self) -> Box<dyn $crate::common::engine::SetIt<'a, $k> + 'a> {
                Box::new(frozen_collections_core::specialized_sets::Set::iter(self))
            }
            fn o_set_has(&self, k: &$k) -> bool {
                frozen_collections_core::specialized_sets::Set::contains(self, k)
            }
            fn o_set_len(&self) -> usize {
                frozen_collections_core::traits::len::Len::len(self)
            }
            fn o_into_it(self: Box<Self>) -> Option<Box<dyn $crate::common::engine::It<'static, $k>>> {
                $crate::set_obj!(@into $kind, self)
            }
            fn o_debug(&self) -> Option<String> {
                $crate::set_obj!(@dbg $kind, self)
            }
            fn o_equal(&self, o: &dyn $crate::common::engine::SetObj<$k>) -> Option<(bool, bool)> {
                $crate::set_obj!(@eq $kind, $t, self, o)
            }
            fn o_rel(&self, rel: &str, o: &$crate::common::engine::AnyRef<$k>) -> bool {
                use frozen_collections_core::specialized_sets::Set;
                match rel {
                    "sub" => Set::is_subset(self, o),
                    "sup" => Set::is_superset(self, o),
                    "dis" => Set::is_disjoint(self, o),
                    _ => panic!("HARNESS: relation {rel}"),
                }
            }
            fn o_lazy<'a>(&'a self, kind: &str, o: &'a $crate::common::engine::AnyRef<'a, $k>) -> Box<dyn $crate::common::engine::It<'a, $k> + 'a> {
                use frozen_collections_core::specialized_sets::Set;
                use $crate::common::imp::*;
                match kind {
                    "un" => Box::new(KeysLazy(Set::union(self, o))),
                    "in" => Box::new(KeysLazy(Set::intersection(self, o))),
                    "di" => Box::new(KeysLazy(Set::difference(self, o))),
                    "sd" => Box::new(KeysLazy(Set::symmetric_difference(self, o))),
                    _ => panic!("HARNESS: combination {kind}"),
                }
            }
            fn o_oper(&self, kind: &str, o: &$crate::common::engine::AnyRef<$k>) -> Option<Vec<$k>> {
                $crate::set_obj!(@oper $kind, self, kind, o)
            }
            fn o_dup(&self) -> Box<dyn $crate::common::engine::SetObj<$k>> {
                Box::new(self.clone())
            }
            fn o_assign(&mut self, from: &dyn $crate::common::engine::SetObj<$k>) {
                self.clone_from(from.o_any().downcast_ref::<$t>().expect("HARNESS: assigned from another type"))
            }
            fn o_any(&self) -> &dyn std::any::Any {
                self
            }
            fn o_shareable(&self) -> (bool, bool) {
                #[allow(unused_imports)]
                use $crate::common::imp::{NotSend, NotSync};
                ($crate::common::imp::Probe::<$t>::SYNC, $crate::common::imp::Probe::<$t>::SEND)
            }
        }
    };
    (@it std) => { KeysIt };
    (@it $kind:ident) => { KeysIt };
    (@into spec, $s:expr) => { Some(Box::new($crate::common::imp::OwnedIt((*$s).into_iter()))) };
    (@into $kind:ident, $s:expr) => { None };
    (@dbg facade, $s:expr) => { None };
    (@dbg $kind:ident, $s:expr) => { Some($crate::common::imp::text($s)) };
    (@eq facade, $t:ty, $s:expr, $o:expr) => {{
        let o: &$t = $o.o_any().downcast_ref()?;
        Some((*$s == *o, *$s != *o))
    }};
    (@eq spec, $t:ty, $s:expr, $o:expr) => {{
        let o = $crate::common::engine::AnyRef($o);
        Some((*$s == o, *$s != o))
    }};
    (@eq std, $t:ty, $s:expr, $o:expr) => { None };
    (@oper std, $s:expr, $kind:expr, $o:expr) => {{ let _ = ($kind, $o); None }};
    (@oper $k:ident, $s:expr, $kind:expr, $o:expr) => {
        Some(match $kind {
            "un" => ($s | $o).into_iter().collect(),
            "in" => ($s & $o).into_iter().collect(),
            "di" => ($s - $o).into_iter().collect(),
            "sd" => ($s ^ $o).into_iter().collect(),
            _ => panic!("HARNESS: operator"),
        })
    };
}

/// build from a payload vector by one of the array routes, for the sizes listed
#[macro_export]
macro_rules! by_array {
    ($payload:expr, |$a:ident| $e:expr) => {{
        let p = $payload;
        match p.len() {
            0 => by_array!(@ 0, p, $a, $e),
            1 => by_array!(@ 1, p, $a, $e),
            2 => by_array!(@ 2, p, $a, $e),
            3 => by_array!(@ 3, p, $a, $e),
            4 => by_array!(@ 4, p, $a, $e),
            5 => by_array!(@ 5, p, $a, $e),
            8 => by_array!(@ 8, p, $a, $e),
            16 => by_array!(@ 16, p, $a, $e),
            100 => by_array!(@ 100, p, $a, $e),
            255 => by_array!(@ 255, p, $a, $e),
            256 => by_array!(@ 256, p, $a, $e),
            n => panic!("HARNESS: no array route for {n}"),
        }
    }};
    (@ $n:literal, $p:ident, $a:ident, $e:expr) => {{
        let $a: [_; $n] = $p.try_into().ok().expect("HARNESS: array");
        $e
    }};
}

/// the same, for the many specialized types (fewer sizes)
#[macro_export]
macro_rules! by_array_few {
    ($payload:expr, |$a:ident| $e:expr) => {{
        let p = $payload;
        match p.len() {
            0 => by_array!(@ 0, p, $a, $e),
            3 => by_array!(@ 3, p, $a, $e),
            16 => by_array!(@ 16, p, $a, $e),
            n => panic!("HARNESS: no array route for {n}"),
        }
    }};
}

/// an iterator which knows nothing about its size
pub struct Lazy<I>(pub I);
impl<I: Iterator> Iterator for Lazy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

/// builds a $t from payload $p by the route of spec $s; the first word says
/// which constructors the type has
#[macro_export]
macro_rules! ctor {
    (hb $t:ty, $s:expr, $p:expr) => {{
        let hb = $s.hb.clone();
        match $s.route.as_str() {
            "vec" => <$t>::from_vec_with_hasher($p, hb),
            "iter" => <$t>::from_iter_with_hasher($p, hb),
            "lazy" => <$t>::from_iter_with_hasher($crate::common::imp::Lazy($p.into_iter()), hb),
            "arr" => by_array_few!($p, |a| <$t>::with_hasher(a, hb)),
            r => panic!("HARNESS: route {r}"),
        }
    }};
    (plain $t:ty, $s:expr, $p:expr) => {
        match $s.route.as_str() {
            "vec" => <$t>::from_vec($p),
            "iter" => $p.into_iter().collect::<$t>(),
            "lazy" => $crate::common::imp::Lazy($p.into_iter()).collect::<$t>(),
            "arr" => by_array_few!($p, |a| <$t as From<_>>::from(a)),
            r => panic!("HARNESS: route {r}"),
        }
    };
    (hs $t:ty, $s:expr, $p:expr) => {{
        let mut h: $t = <$t>::with_hasher($s.hb.clone());
        h.extend($p);
        h
    }};
    (bt $t:ty, $s:expr, $p:expr) => {
        $p.into_iter().collect::<$t>()
    };
    (fs $t:ty, $s:expr, $p:expr) => {
        <$t>::from_vec_with_hasher($p, $s.hb.clone())
    };
    (vec $t:ty, $s:expr, $p:expr) => {
        match $s.route.as_str() {
            "vec" => <$t>::from_vec($p),
            r => panic!("HARNESS: route {r}"),
        }
    };
    (slice $t:ty, $s:expr, $p:expr) => {{
        let hb = $s.hb.clone();
        let range = $s.range.clone();
        match $s.route.as_str() {
            "vec" => <$t>::from_vec_with_hasher($p, range, hb),
            "iter" => <$t>::from_iter_with_hasher($p, range, hb),
            "lazy" => <$t>::from_iter_with_hasher($crate::common::imp::Lazy($p.into_iter()), range, hb),
            "arr" => by_array_few!($p, |a| <$t>::with_hasher(a, range, hb)),
            r => panic!("HARNESS: route {r}"),
        }
    }};
    (rslice $t:ty, $s:expr, $p:expr) => {{
        let range = $s.range.clone();
        match $s.route.as_str() {
            "vec" => <$t>::from_vec($p, range),
            "iter" => <$t>::from_iter($p, range),
            "lazy" => <$t>::from_iter($crate::common::imp::Lazy($p.into_iter()), range),
            "arr" => by_array_few!($p, |a| <$t>::from(a, range)),
            r => panic!("HARNESS: route {r}"),
        }
    }};
}

/// the map types over keys $k (looked up as $q through $f), by type code
#[macro_export]
macro_rules! maps {
    ($k:ty, $q:ty, $f:expr; $($code:literal $kind:ident $t:ty),* $(,)?) => {
        $( map_obj!($k, $t, $q, $f); )*
        impl Maps for $k {
            fn build(s: &BuildSpec, p: Vec<($k, Val)>) -> Box<dyn MapObj<$k>> {
                match s.ty.as_str() {
                    $( $code => Box::new(ctor!($kind $t, s, p)), )*
                    c => panic!("HARNESS: map type {c}"),
                }
            }
        }
    };
}
#[macro_export]
macro_rules! sets {
    ($k:ty, $q:ty, $f:expr; $($code:literal $kind:ident $t:ty,)* ; $($code2:literal $kind2:ident $cat:ident $t2:ty,)*) => {
        $( set_obj!($k, $t, spec, $q, $f); )*
        $( set_obj!($k, $t2, $cat, $q, $f); )*
        impl Sets for $k {
            fn build(s: &BuildSpec, p: Vec<$k>) -> Box<dyn SetObj<$k>> {
                match s.ty.as_str() {
                    $( $code => Box::new(ctor!($kind $t, s, p)), )*
                    $( $code2 => Box::new(ctor!($kind2 $t2, s, p)), )*
                    c => panic!("HARNESS: set type {c}"),
                }
            }
        }
    };
}
