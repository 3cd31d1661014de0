//! FrozenMap and FrozenSet (and the standard sets, as other operands).
#![allow(dead_code, clippy::all)]
mod common;
use common::engine::{run_job, Val, BuildSpec, Builder, MapObj, SetObj};
use common::hb::HB;
use common::imp::Lazy;
use common::keys::*;
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use std::collections::{BTreeSet, HashSet};
use std::hash::RandomState;

struct B;

macro_rules! family {
    ($($k:ty),*) => { $(
        map_obj!($k, FrozenMap<$k, Val, HB>);
        set_obj!($k, FrozenSet<$k, HB>, facade);
        set_obj!($k, HashSet<$k, HB>, std);
        set_obj!($k, BTreeSet<$k>, std);
        impl Builder<$k> for B {
            fn map(s: &BuildSpec, p: Vec<($k, Val)>) -> Box<dyn MapObj<$k>> {
                type M = FrozenMap<$k, Val, HB>;
                if s.ty == "fr" {
                    return random_map(s, p);
                }
                let hb = s.hb.clone();
                Box::new(match s.route.as_str() {
                    "vec" => M::from_vec_with_hasher(p, hb),
                    "iter" => M::from_iter_with_hasher(p.into_iter(), hb),
                    "lazy" => M::from_iter_with_hasher(Lazy(p.into_iter()), hb),
                    "arr" => by_array!(p, |a| M::with_hasher(a, hb)),
                    "dflt" => M::default(),
                    r => panic!("HARNESS: route {r}"),
                })
            }
            fn set(s: &BuildSpec, p: Vec<$k>) -> Box<dyn SetObj<$k>> {
                type S = FrozenSet<$k, HB>;
                let hb = s.hb.clone();
                match s.ty.as_str() {
                    "hs" => {
                        let mut h: HashSet<$k, HB> = HashSet::with_hasher(hb);
                        h.extend(p);
                        return Box::new(h);
                    }
                    "bt" => return Box::new(p.into_iter().collect::<BTreeSet<$k>>()),
                    "fr" => return random_set(s, p),
                    _ => {}
                }
                Box::new(match s.route.as_str() {
                    "vec" => S::from_vec_with_hasher(p, hb),
                    "iter" => S::from_iter_with_hasher(p.into_iter(), hb),
                    "lazy" => S::from_iter_with_hasher(Lazy(p.into_iter()), hb),
                    "arr" => by_array!(p, |a| S::with_hasher(a, hb)),
                    "dflt" => S::default(),
                    r => panic!("HARNESS: route {r}"),
                })
            }
        }
    )* };
}

/// collections with the standard random hasher, for the key types which have them
trait Random: Sized {
    fn map(_: &BuildSpec, _: Vec<(Self, Val)>) -> Box<dyn MapObj<Self>> {
        panic!("HARNESS: no RandomState map for this key type")
    }
    fn set(_: &BuildSpec, _: Vec<Self>) -> Box<dyn SetObj<Self>> {
        panic!("HARNESS: no RandomState set for this key type")
    }
}
fn random_map<K: Random>(s: &BuildSpec, p: Vec<(K, Val)>) -> Box<dyn MapObj<K>> {
    K::map(s, p)
}
fn random_set<K: Random>(s: &BuildSpec, p: Vec<K>) -> Box<dyn SetObj<K>> {
    K::set(s, p)
}
macro_rules! random {
    ($($k:ty),*) => { $(
        map_obj!($k, FrozenMap<$k, Val, RandomState>);
        set_obj!($k, FrozenSet<$k, RandomState>, facade);
        impl Random for $k {
            fn map(s: &BuildSpec, p: Vec<($k, Val)>) -> Box<dyn MapObj<$k>> {
                type M = FrozenMap<$k, Val>;
                Box::new(match s.route.as_str() {
                    "vec" => M::from_vec(p),
                    "iter" => M::from_iter(p),
                    "lazy" => Lazy(p.into_iter()).collect::<M>(),
                    "arr" => by_array!(p, |a| M::from(a)),
                    "dflt" => M::default(),
                    r => panic!("HARNESS: route {r}"),
                })
            }
            fn set(s: &BuildSpec, p: Vec<$k>) -> Box<dyn SetObj<$k>> {
                type S = FrozenSet<$k>;
                Box::new(match s.route.as_str() {
                    "vec" => S::from_vec(p),
                    "iter" => S::from_iter(p),
                    "lazy" => Lazy(p.into_iter()).collect::<S>(),
                    "arr" => by_array!(p, |a| S::from(a)),
                    "dflt" => S::default(),
                    r => panic!("HARNESS: route {r}"),
                })
            }
        }
    )* };
}

family!(u32, String, &'static str, u64, i32, u8, Tag, (u32, u8), char, Vec<u8>, u128, i64, usize, i16);
random!(u32, String, Tag);
impl Random for &'static str {}
impl Random for u64 {}
impl Random for i32 {}
impl Random for u8 {}
impl Random for (u32, u8) {}
impl Random for char {}
impl Random for Vec<u8> {}
impl Random for u128 {}
impl Random for i64 {}
impl Random for usize {}
impl Random for i16 {}

fn main() {
    common::worker::main_loop(|job| {
        let (k, rest) = job.split_once(' ').expect("HARNESS: job");
        match k {
            "u32" => run_job::<B, u32>(rest),
            "string" => run_job::<B, String>(rest),
            "str" => run_job::<B, &'static str>(rest),
            "u64" => run_job::<B, u64>(rest),
            "char" => run_job::<B, char>(rest),
            "bytes" => run_job::<B, Vec<u8>>(rest),
            "u128" => run_job::<B, u128>(rest),
            "i64" => run_job::<B, i64>(rest),
            "usize" => run_job::<B, usize>(rest),
            "i16" => run_job::<B, i16>(rest),
            "i32" => run_job::<B, i32>(rest),
            "u8" => run_job::<B, u8>(rest),
            "tag" => run_job::<B, Tag>(rest),
            "pair" => run_job::<B, (u32, u8)>(rest),
            _ => panic!("HARNESS: key type {k}"),
        }
    });
}
