//! Replays a scenario (a sequence of abstract operations) on real collections
//! and records what every operation returned, in terms of abstract keys.
use super::hb::{HB, DEFAULT_MODE};
use super::json::J;
use super::keys::{Key, Table};
use super::rng::Rng;
use std::any::Any;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

const NONE: i64 = -1;
const PANIC: i64 = -2;
const NA: i64 = -3;
const UNKNOWN: i64 = -9; // a key that is in no table
const FOREIGN: i64 = -7; // an equal key, but not the stored instance

/// one step of an iterator: which components it shows
/// The values of the maps: they come in twins which are equal although they can be told apart (like 0.0 and -0.0), and
/// the strange ones do not even equal themselves (like a NaN)
#[derive(Clone, Copy)]
pub struct Val(pub u32);
pub const TWIN: u32 = 400_000;
pub const STRANGE: u32 = 1_000_000;
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.0 < STRANGE && o.0 < STRANGE && self.0 % TWIN == o.0 % TWIN
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub type Item<'a, K> = (Option<&'a K>, Option<u32>);

pub trait It<'a, K> {
    fn step(&mut self) -> Option<(Option<K>, Option<u32>)>;
    fn skip_to(&mut self, n: usize) -> Option<(Option<K>, Option<u32>)>;
    fn hint(&self) -> (usize, Option<usize>);
    fn exact(&self) -> Option<usize>;
    fn counted(&self) -> Option<usize>;
    fn folded(&self, how: &str) -> Option<Vec<(Option<K>, Option<u32>)>>;
    fn lasted(&self) -> Option<(Option<K>, Option<u32>)>;
    fn dup(&self) -> Option<Box<dyn It<'a, K> + 'a>>;
    /// its debug rendering
    fn rendered(&self) -> (String, Shape);
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Shape {
    Keys,
    Values,
    Pairs,
}

pub trait MapObj<K>: Any {
    fn o_get(&self, k: &K) -> Option<u32>;
    fn o_gkv(&self, k: &K) -> Option<(K, u32)>;
    fn o_has(&self, k: &K) -> bool;
    fn o_idx(&self, k: &K) -> u32;
    fn o_gm(&mut self, k: &K) -> Option<&mut u32>;
    fn o_im(&mut self, k: &K) -> &mut u32;
    fn o_many(&mut self, ks: &[&K], ws: &[u32]) -> Option<(Vec<u32>, Vec<u32>)>;
    fn o_len(&self) -> usize;
    fn o_is_empty(&self) -> bool;
    fn o_it<'a>(&'a self, via: &str) -> Box<dyn It<'a, K> + 'a>;
    fn o_debug(&self) -> String;
    fn o_equal(&self, o: &dyn MapObj<K>) -> (bool, bool);
    fn o_dup(&self) -> Box<dyn MapObj<K>>;
    fn o_any(&self) -> &dyn Any;
    fn o_assign(&mut self, from: &dyn MapObj<K>);
    /// may threads share it, and may it be sent to one?
    fn o_shareable(&self) -> (bool, bool);
}

pub trait SetIt<'a, K: 'a>: Iterator<Item = &'a K> {
    fn dup(&self) -> Box<dyn SetIt<'a, K> + 'a>;
}

pub trait SetObj<K>: Any {
    fn o_get(&self, k: &K) -> Option<K>;
    fn o_has(&self, k: &K) -> bool;
    fn o_len(&self) -> usize;
    fn o_is_empty(&self) -> bool;
    fn o_it<'a>(&'a self, via: &str) -> Box<dyn It<'a, K> + 'a>;
    fn o_set_it<'a>(&'a self) -> Box<dyn SetIt<'a, K> + 'a>;
    fn o_set_has(&self, k: &K) -> bool;
    fn o_set_len(&self) -> usize;
    fn o_into_it(self: Box<Self>) -> Option<Box<dyn It<'static, K>>>;
    fn o_debug(&self) -> Option<String>;
    fn o_equal(&self, o: &dyn SetObj<K>) -> Option<(bool, bool)>;
    fn o_rel(&self, rel: &str, o: &AnyRef<K>) -> bool;
    fn o_lazy<'a>(&'a self, kind: &str, o: &'a AnyRef<'a, K>) -> Box<dyn It<'a, K> + 'a>;
    fn o_oper(&self, kind: &str, o: &AnyRef<K>) -> Option<Vec<K>>;
    fn o_dup(&self) -> Box<dyn SetObj<K>>;
    fn o_assign(&mut self, from: &dyn SetObj<K>);
    fn o_any(&self) -> &dyn Any;
    fn o_shareable(&self) -> (bool, bool);
}

/// what the reading threads share
enum Shared<'a, K> {
    Map(&'a dyn MapObj<K>),
    Set(&'a dyn SetObj<K>),
}
// used only when the collection itself says it is Sync
unsafe impl<'a, K> Sync for Shared<'a, K> {}
unsafe impl<'a, K> Send for Shared<'a, K> {}

const MAP_READS: [&str; 9] = ["get", "gkv", "has", "idx", "iter", "keys", "vals", "ref", "dbg"];
const SET_READS: [&str; 5] = ["sget", "shas", "siter", "sref", "len"];

/// any set, as the other operand of a combination or relation
pub struct AnyRef<'s, K>(pub &'s dyn SetObj<K>);

#[derive(Clone)]
pub struct BuildSpec {
    pub ty: String,
    pub route: String,
    pub hb: HB,
    pub t: String,
    pub range: std::ops::Range<usize>,
}

/// Builds collections of a given type code over keys K.
pub trait Builder<K> {
    fn map(s: &BuildSpec, payload: Vec<(K, Val)>) -> Box<dyn MapObj<K>>;
    fn set(s: &BuildSpec, payload: Vec<K>) -> Box<dyn SetObj<K>>;
}

enum Obj<K> {
    Map(Box<dyn MapObj<K>>),
    Set(Box<dyn SetObj<K>>),
}

struct Run<K: Key> {
    table: Vec<K>, // kid - 1 -> key
    nstored: usize,
    kid: HashMap<K, i64>,
    // iterators borrow from objects: they are declared first so they drop first
    its: HashMap<i64, Box<dyn It<'static, K>>>,
    rights: Vec<*mut AnyRef<'static, K>>,
    objs: HashMap<i64, Obj<K>>,
    seed: u64,
}

fn nums(s: &str) -> Vec<i64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or_else(|_| panic!("HARNESS: number {x}"))).collect()
}

fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

impl<K: Key> Run<K> {
    fn key(&self, kid: i64) -> K {
        self.table[kid as usize - 1].clone()
    }
    /// some key families have fewer absent keys than asked for
    fn known(&self, ks: &[i64]) -> bool {
        ks.iter().all(|k| *k as usize <= self.table.len())
    }
    fn probe(&self, kid: i64) -> K {
        self.table[kid as usize - 1].probe()
    }
    fn kid_of(&self, k: &K) -> i64 {
        match self.kid.get(k) {
            Some(x) if k.is_stored() => *x,
            Some(_) => FOREIGN,
            None => UNKNOWN,
        }
    }
    fn kid_any(&self, k: &K) -> i64 {
        self.kid.get(k).copied().unwrap_or(UNKNOWN)
    }
    fn map(&mut self, o: i64) -> &mut Box<dyn MapObj<K>> {
        match self.objs.get_mut(&o) {
            Some(Obj::Map(m)) => m,
            _ => panic!("HARNESS: no map {o}"),
        }
    }
    fn set(&self, o: i64) -> &Box<dyn SetObj<K>> {
        match self.objs.get(&o) {
            Some(Obj::Set(m)) => m,
            _ => panic!("HARNESS: no set {o}"),
        }
    }

    fn lookup(&mut self, o: i64, via: &str, kid: i64) -> Vec<i64> {
        let k = self.probe(kid);
        let v = |x: Option<u32>| vec![x.map_or(NONE, i64::from)];
        match via {
            "get" => quiet(|| self.map(o).o_get(&k)).map_or(vec![PANIC], v),
            "gm" => quiet(|| self.map(o).o_gm(&k).copied()).map_or(vec![PANIC], v),
            "idx" => quiet(|| self.map(o).o_idx(&k)).map_or(vec![PANIC], |x| vec![i64::from(x)]),
            "im" => quiet(|| *self.map(o).o_im(&k)).map_or(vec![PANIC], |x| vec![i64::from(x)]),
            "has" => quiet(|| self.map(o).o_has(&k)).map_or(vec![PANIC], |x| vec![i64::from(x)]),
            "gkv" => match quiet(|| self.map(o).o_gkv(&k)) {
                None => vec![PANIC, PANIC],
                Some(None) => vec![NONE, NONE],
                Some(Some((k2, x))) => vec![self.kid_of(&k2), i64::from(x)],
            },
            "sget" => match quiet(|| self.set(o).o_get(&k)) {
                None => vec![PANIC],
                Some(None) => vec![NONE],
                Some(Some(k2)) => vec![self.kid_of(&k2)],
            },
            "shas" => quiet(|| self.set(o).o_has(&k)).map_or(vec![PANIC], |x| vec![i64::from(x)]),
            _ => panic!("HARNESS: via {via}"),
        }
    }

    fn results(rs: &[Vec<i64>], pairs: bool) -> String {
        let mut s = String::from("[");
        for (i, r) in rs.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            if pairs {
                s.push_str(&format!("[{},{}]", r[0], r[1]));
            } else {
                s.push_str(&r[0].to_string());
            }
        }
        s.push(']');
        s
    }

    fn show(&self, via: &str, item: Option<(Option<K>, Option<u32>)>) -> (i64, i64) {
        match item {
            None => (NONE, NONE),
            Some((k, v)) => {
                let k = match (via, k) {
                    (_, Some(k)) => self.kid_of(&k),
                    (_, None) => NA,
                };
                (k, v.map_or(NA, i64::from))
            }
        }
    }

    fn lists(&self, items: Vec<(Option<K>, Option<u32>)>) -> (Vec<i64>, Vec<i64>) {
        let ks = items.iter().filter_map(|x| x.0.as_ref()).map(|k| self.kid_of(k)).collect();
        let vs = items.iter().filter_map(|x| x.1).map(i64::from).collect();
        (ks, vs)
    }

    fn all_kids(&self) -> Vec<i64> {
        (1..=self.table.len() as i64).collect()
    }

    fn op<B: Builder<K>>(&mut self, f: &[&str]) -> Option<String> {
        let i = |p: usize| -> i64 { f[p].parse().unwrap_or_else(|_| panic!("HARNESS: field {p} of {f:?}")) };
        Some(match f[0] {
            "b" => {
                let (o, t, ty, pay, route, hm, ord) = (i(1), f[2], f[3], f[4], f[5], f[6], f[7]);
                let (lim, rng) = (i(8), i(9));
                let mut list: Vec<(i64, i64)> = Vec::new();
                let interval = pay.contains('-') || !pay.contains(':') && !pay.is_empty() && pay != "e";
                let mut j = J::op("build").i("o", o).s("t", t);
                if interval {
                    let (lo, hi) = pay.split_once('-').expect("HARNESS: payload");
                    let (lo, hi): (i64, i64) = (lo.parse().unwrap(), hi.parse().unwrap());
                    for k in lo..=hi {
                        list.push((k, k));
                    }
                    j = j.i("lo", lo).i("hi", hi);
                } else {
                    for p in pay.split(',').filter(|x| x.contains(':')) {
                        let (k, v) = p.split_once(':').unwrap();
                        list.push((k.parse().unwrap(), v.parse().unwrap()));
                    }
                    let s: Vec<String> = list.iter().map(|(k, v)| format!("[{k},{v}]")).collect();
                    j = j.raw("pay", &format!("[{}]", s.join(",")));
                }
                match ord {
                    "asc" => {}
                    "desc" => list.reverse(),
                    "shuf" => Rng::new(self.seed ^ o as u64).shuffle(&mut list),
                    "rot" => {
                        let m = list.len() / 2;
                        list.rotate_left(m)
                    }
                    _ => panic!("HARNESS: order {ord}"),
                }
                let hb = HB::named(hm);
                DEFAULT_MODE.with(|m| m.set(hb.0));
                // slice-hashed types carry their range in the type code: "ll8@2..5"
                let (ty, range) = match ty.split_once('@') {
                    None => (ty, 0..0),
                    Some((ty, r)) => {
                        let (a, b) = r.split_once("..").expect("HARNESS: range");
                        (ty, a.parse().unwrap()..b.parse().unwrap())
                    }
                };
                let spec = BuildSpec { ty: ty.to_string(), route: route.to_string(), hb, t: t.to_string(), range };
                let r = if t == "map" {
                    let p: Vec<(K, Val)> = list.iter().map(|(k, v)| (self.key(*k), Val(*v as u32))).collect();
                    quiet(|| B::map(&spec, p)).map(Obj::Map)
                } else {
                    let p: Vec<K> = list.iter().map(|(k, _)| self.key(*k)).collect();
                    quiet(|| B::set(&spec, p)).map(Obj::Set)
                };
                let ok = r.is_some();
                if let Some(x) = r {
                    self.objs.insert(o, x);
                }
                j.i("lim", lim).i("rng", rng).s("r", if ok { "ok" } else { "panic" }).end()
            }
            "g" => {
                let (o, via, ks) = (i(1), f[2], nums(f[3]));
                if !self.known(&ks) {
                    return None;
                }
                let rs: Vec<Vec<i64>> = ks.iter().map(|k| self.lookup(o, via, *k)).collect();
                J::op("get").i("o", o).s("via", via).a("ks", &ks).raw("rs", &Self::results(&rs, via == "gkv")).end()
            }
            "ga" => {
                let (o, via) = (i(1), f[2]);
                let rs: Vec<Vec<i64>> = self.all_kids().iter().map(|k| self.lookup(o, via, *k)).collect();
                J::op("gall").i("o", o).s("via", via).raw("rs", &Self::results(&rs, via == "gkv")).end()
            }
            "l" => {
                let o = i(1);
                let (n, e) = match self.objs.get(&o) {
                    Some(Obj::Map(m)) => (m.o_len(), m.o_is_empty()),
                    Some(Obj::Set(m)) => (m.o_len(), m.o_is_empty()),
                    None => panic!("HARNESS: no object"),
                };
                J::op("len").i("o", o).i("n", n as i64).i("e", i64::from(e)).end()
            }
            "s" => {
                let (o, via, k, v) = (i(1), f[2], i(3), i(4));
                if !self.known(&[k]) {
                    return None;
                }
                let key = self.probe(k);
                let m = self.map(o);
                let r = if via == "gm" {
                    quiet(|| m.o_gm(&key).map(|x| std::mem::replace(x, v as u32))).map_or(PANIC, |x| x.map_or(NONE, i64::from))
                } else {
                    quiet(|| std::mem::replace(m.o_im(&key), v as u32)).map_or(PANIC, i64::from)
                };
                J::op("set").i("o", o).s("via", via).i("k", k).i("v", v).i("r", r).end()
            }
            "m" => {
                let (o, ks, ws) = (i(1), nums(f.get(2).unwrap_or(&"")), nums(f.get(3).unwrap_or(&"")));
                if !self.known(&ks) {
                    return None;
                }
                let keys: Vec<K> = ks.iter().map(|k| self.probe(*k)).collect();
                let refs: Vec<&K> = keys.iter().collect();
                let vals: Vec<u32> = ws.iter().map(|w| *w as u32).collect();
                let r = self.map(o).o_many(&refs, &vals);
                let up = |v: &Vec<u32>| -> Vec<i64> { v.iter().map(|x| i64::from(*x)).collect() };
                let j = J::op("many").i("o", o).a("ks", &ks).a("ws", &ws);
                match r {
                    Some((olds, re)) => j.i("ok", 1).a("olds", &up(&olds)).a("re", &up(&re)),
                    None => j.i("ok", 0).a("olds", &[]).a("re", &[]),
                }
                .end()
            }
            "it" => {
                let (o, via) = (i(1), f[2]);
                let (ks, vs) = if via == "into" {
                    let Some(Obj::Set(b)) = self.objs.remove(&o) else { panic!("HARNESS: into") };
                    let mut it = b.o_into_it().expect("HARNESS: no consuming iterator");
                    let mut v = Vec::new();
                    while let Some(x) = it.step() {
                        v.push(x);
                        if v.len() > self.table.len() + 5 {
                            break;
                        }
                    }
                    self.lists(v)
                } else if via == "dbg" || via == "sdbg" {
                    let s = match self.objs.get(&o) {
                        Some(Obj::Map(m)) => m.o_debug(),
                        Some(Obj::Set(m)) => m.o_debug().expect("HARNESS: no Debug"),
                        None => panic!("HARNESS: no object"),
                    };
                    let kids = self.all_kids();
                    parse_debug(&self.table, &s, &kids)
                } else {
                    let cap = self.table.len() + 5;
                    let mut v = Vec::new();
                    {
                        let mut it = match self.objs.get(&o) {
                            Some(Obj::Map(m)) => m.o_it(via),
                            Some(Obj::Set(m)) => m.o_it(via),
                            None => panic!("HARNESS: no object"),
                        };
                        while let Some(x) = it.step() {
                            v.push(x);
                            if v.len() > cap {
                                break;
                            }
                        }
                    }
                    self.lists(v)
                };
                J::op("iter").i("o", o).s("via", via).a("ks", &ks).a("vs", &vs).end()
            }
            "in" => {
                let (it, o, via) = (i(1), i(2), f[3]);
                if via == "into" {
                    let Some(Obj::Set(b)) = self.objs.remove(&o) else { panic!("HARNESS: into") };
                    let x = b.o_into_it().expect("HARNESS: no consuming iterator");
                    self.its.insert(it, x);
                } else {
                    let x: Box<dyn It<'_, K> + '_> = match self.objs.get(&o) {
                        Some(Obj::Map(m)) => m.o_it(via),
                        Some(Obj::Set(m)) => m.o_it(via),
                        None => panic!("HARNESS: no object"),
                    };
                    // the scenario neither mutates nor drops `o` while `it` is alive
                    let x: Box<dyn It<'static, K>> = unsafe { std::mem::transmute(x) };
                    self.its.insert(it, x);
                }
                J::op("inew").i("i", it).i("o", o).s("via", via).end()
            }
            "ic" => {
                let (it, kind, a, b) = (i(1), f[2], i(3), i(4));
                let rb: &dyn SetObj<K> = &**self.set(b);
                let right: AnyRef<'static, K> = unsafe { std::mem::transmute(AnyRef(rb)) };
                let right = Box::into_raw(Box::new(right));
                self.rights.push(right);
                let x = self.set(a).o_lazy(kind, unsafe { &*right });
                let x: Box<dyn It<'static, K>> = unsafe { std::mem::transmute(x) };
                self.its.insert(it, x);
                J::op("icomb").i("i", it).s("kind", kind).i("a", a).i("b", b).end()
            }
            "nx" => {
                let x = self.its.get_mut(&i(1)).expect("HARNESS: it").step();
                let (k, v) = self.show("", x);
                J::op("inext").i("i", i(1)).i("k", k).i("v", v).end()
            }
            "nt" => {
                // beyond any size: shown as so much
                let far = f[2][1..].parse::<usize>().unwrap_or(0);
                let (m, shown) = match f[2].as_bytes()[0] {
                    b'M' => (usize::MAX - far, 2_000_000_000 - far as i64),
                    b'H' => ((1 << 63) + far, 2_000_000_000),
                    b'D' => ((1 << 32) + far, 2_000_000_000),
                    b'S' => ((1 << 31) - far, 2_000_000_000),
                    _ => (i(2) as usize, i(2)),
                };
                let x = self.its.get_mut(&i(1)).expect("HARNESS: it").skip_to(m);
                let (k, v) = self.show("", x);
                J::op("inth").i("i", i(1)).i("m", shown).i("k", k).i("v", v).end()
            }
            "h" => {
                let (lo, hi) = self.its[&i(1)].hint();
                let cut = |x: usize| x.min(1 << 30) as i64;
                J::op("ihint").i("i", i(1)).i("lo", cut(lo)).i("hi", hi.map_or(NONE, cut)).end()
            }
            "el" => {
                let n = self.its[&i(1)].exact().expect("HARNESS: no exact length");
                J::op("ilen").i("i", i(1)).i("n", n.min(1 << 30) as i64).end()
            }
            "c" => {
                let n = self.its[&i(1)].counted()?;
                J::op("icnt").i("i", i(1)).i("n", n.min(1 << 30) as i64).end()
            }
            "f" => {
                let how = *f.get(2).unwrap_or(&"fold");
                let (ks, vs) = if how == "dbg" {
                    let (s, shape) = self.its[&i(1)].rendered();
                    let kids = self.all_kids();
                    parse_list(&self.table, &s, &kids, shape)
                } else {
                    let v = self.its[&i(1)].folded(how)?;
                    self.lists(v)
                };
                J::op("ifold").i("i", i(1)).a("ks", &ks).a("vs", &vs).end()
            }
            "la" => {
                let x = self.its[&i(1)].lasted();
                let (k, v) = self.show("", x);
                J::op("ilast").i("i", i(1)).i("k", k).i("v", v).end()
            }
            "cl" => {
                let x = self.its[&i(1)].dup().expect("HARNESS: iterator clone");
                self.its.insert(i(2), x);
                J::op("iclone").i("i", i(1)).i("j", i(2)).end()
            }
            "id" => {
                self.its.remove(&i(1));
                J::op("idrop").i("i", i(1)).end()
            }
            "e" => {
                let (a, b) = (i(1), i(2));
                let r = match (&self.objs[&a], &self.objs[&b]) {
                    (Obj::Map(x), Obj::Map(y)) => x.o_equal(&**y),
                    (Obj::Set(x), Obj::Set(y)) => x.o_equal(&**y).expect("HARNESS: incomparable"),
                    _ => panic!("HARNESS: eq"),
                };
                J::op("eq").i("a", a).i("b", b).i("r", i64::from(r.0)).i("ne", i64::from(r.1)).end()
            }
            "r" => {
                let (a, b, rel) = (i(1), i(2), f[3]);
                let r = if rel == "eq" {
                    self.set(a).o_equal(&**self.set(b)).expect("HARNESS: incomparable").0
                } else {
                    self.set(a).o_rel(rel, &AnyRef(&**self.set(b)))
                };
                J::op("rel").i("a", a).i("b", b).s("rel", rel).i("r", i64::from(r)).end()
            }
            "so" => {
                let (a, b, kind, form) = (i(1), i(2), f[3], f[4]);
                let right = AnyRef(&**self.set(b));
                let cap = 2 * self.table.len() + 5;
                let mut ks: Vec<i64> = Vec::new();
                if form == "oper" {
                    for k in self.set(a).o_oper(kind, &right).expect("HARNESS: no operators") {
                        ks.push(self.kid_any(&k));
                    }
                } else {
                    let mut it = self.set(a).o_lazy(kind, &right);
                    while let Some((k, _)) = it.step() {
                        ks.push(self.kid_any(&k.unwrap()));
                        if ks.len() > cap {
                            break;
                        }
                    }
                }
                ks.sort_unstable();
                J::op("sop").i("a", a).i("b", b).s("kind", kind).s("form", form).a("ks", &ks).end()
            }
            "co" => {
                let (o, p) = (i(1), i(2));
                let x = match &self.objs[&o] {
                    Obj::Map(m) => Obj::Map(m.o_dup()),
                    Obj::Set(m) => Obj::Set(m.o_dup()),
                };
                self.objs.insert(p, x);
                J::op("clone").i("o", o).i("p", p).end()
            }
            "as" => {
                let (o, p) = (i(1), i(2));
                let mut x = self.objs.remove(&p).expect("HARNESS: no such collection");
                match (&mut x, &self.objs[&o]) {
                    (Obj::Map(x), Obj::Map(m)) => x.o_assign(&**m),
                    (Obj::Set(x), Obj::Set(m)) => x.o_assign(&**m),
                    _ => panic!("HARNESS: assigned from another type"),
                }
                self.objs.insert(p, x);
                J::op("assign").i("o", o).i("p", p).end()
            }
            "th" => {
                let (o, threads, rounds) = (i(1), i(2) as usize, i(3) as usize);
                let sh = match &self.objs[&o] {
                    Obj::Map(m) => Shared::Map(&**m),
                    Obj::Set(m) => Shared::Set(&**m),
                };
                let (sync, send) = match &sh {
                    Shared::Map(m) => m.o_shareable(),
                    Shared::Set(m) => m.o_shareable(),
                };
                let mut evs = vec![J::op("share").i("o", o).i("sync", i64::from(sync)).i("send", i64::from(send)).end()];
                if sync {
                    let start = std::sync::Barrier::new(threads);
                    let (sh, start, this, seed) = (&sh, &start, &Names { table: &self.table, kid: &self.kid }, self.seed);
                    let per: Vec<Vec<String>> = std::thread::scope(|sc| {
                        let hs: Vec<_> = (0..threads)
                            .map(|t| {
                                sc.spawn(move || {
                                    let mut r = Rng::new(seed ^ (t as u64 + 1) * 7919);
                                    start.wait();
                                    this.reads(sh, o, rounds, &mut r)
                                })
                            })
                            .collect();
                        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![J::op("panic").s("in", "th").end()])).collect()
                    });
                    let mut seen = std::collections::HashSet::new();
                    for e in per.into_iter().flatten() {
                        if seen.insert(e.clone()) {
                            evs.push(e);
                        }
                    }
                }
                evs.join(",")
            }
            "d" => {
                self.objs.remove(&i(1));
                J::op("drop").i("o", i(1)).end()
            }
            _ => panic!("HARNESS: op {f:?}"),
        })
    }
}

/// Debug output back to keys (and values): "{k: v, ..}", "[k, ..]" or "{k: (), ..}"
    fn parse_debug<K: Key>(table: &[K], s: &str, o: &[i64]) -> (Vec<i64>, Vec<i64>) {
        let mut names: HashMap<String, i64> = HashMap::new();
        for kid in o {
            names.insert(format!("{:?}", table[*kid as usize - 1]), *kid);
        }
        let mut ks = Vec::new();
        let mut vs = Vec::new();
        if s.len() < 2 {
            return (vec![UNKNOWN], vec![]);
        }
        let mut rest = &s[1..s.len() - 1];
        let mut longest: Vec<&String> = names.keys().collect();
        longest.sort_by_key(|x| std::cmp::Reverse(x.len()));
        let lens: Vec<usize> = {
            let mut l: Vec<usize> = longest.iter().map(|x| x.len()).collect();
            l.dedup();
            l
        };
        while !rest.is_empty() {
            let mut found = None;
            for l in &lens {
                if rest.len() >= *l && rest.is_char_boundary(*l) {
                    if let Some(k) = names.get(&rest[..*l]) {
                        let after = &rest[*l..];
                        if after.is_empty() || after.starts_with(", ") || after.starts_with(": ") {
                            found = Some((*k, *l));
                            break;
                        }
                    }
                }
            }
            let Some((k, l)) = found else {
                ks.push(UNKNOWN);
                break;
            };
            ks.push(k);
            rest = &rest[l..];
            if let Some(r) = rest.strip_prefix(": ") {
                let end = r.find(|c: char| c == ',' || c == '}').unwrap_or(r.len());
                if let Ok(v) = r[..end].parse::<i64>() {
                    vs.push(v);
                }
                rest = &r[end..];
            }
            rest = rest.strip_prefix(", ").unwrap_or(rest);
        }
        (ks, vs)
    }


    /// the keys and values in an iterator's rendering: [k, ..], [(k, v), ..] or [v, ..]
    fn parse_list<K: Key>(table: &[K], s: &str, o: &[i64], shape: Shape) -> (Vec<i64>, Vec<i64>) {
        let bad = (vec![UNKNOWN], vec![UNKNOWN]);
        let s = s.strip_prefix("Iter(").and_then(|x| x.strip_suffix(')')).unwrap_or(s); // a B-tree's iterator
        let Some(inner) = s.strip_prefix('[').and_then(|x| x.strip_suffix(']')) else {
            return bad;
        };
        (shape == Shape::Values)
            .then(|| {
                let vs: Vec<i64> = if inner.is_empty() { vec![] } else { inner.split(", ").map(|x| x.parse().unwrap_or(UNKNOWN)).collect() };
                (vec![], vs)
            })
            .unwrap_or_else(|| {
                let mut names: HashMap<String, i64> = HashMap::new();
                for kid in o {
                    names.insert(format!("{:?}", table[*kid as usize - 1]), *kid);
                }
                let mut lens: Vec<usize> = names.keys().map(String::len).collect();
                lens.sort_unstable_by(|a, b| b.cmp(a));
                lens.dedup();
                let (mut ks, mut vs) = (vec![], vec![]);
                let pairs = shape == Shape::Pairs;
                let mut rest = inner;
                while !rest.is_empty() {
                    if pairs {
                        let Some(r) = rest.strip_prefix('(') else { return bad.clone() };
                        rest = r;
                    }
                    let end = if pairs { ", " } else { "" };
                    let Some((k, l)) = lens.iter().find_map(|l| {
                        let k = names.get(rest.get(..*l)?)?;
                        let after = &rest[*l..];
                        (if pairs { after.starts_with(end) } else { after.is_empty() || after.starts_with(", ") }).then_some((*k, *l))
                    }) else {
                        return bad.clone();
                    };
                    ks.push(k);
                    rest = &rest[l..];
                    if pairs {
                        let Some((v, r)) = rest[2..].split_once(')') else { return bad.clone() };
                        vs.push(v.parse().unwrap_or(UNKNOWN));
                        rest = r;
                    }
                    rest = rest.strip_prefix(", ").unwrap_or(rest);
                }
                (ks, vs)
            })
    }

/// the tables a reading thread needs
struct Names<'r, K: Key> {
    table: &'r Vec<K>,
    kid: &'r HashMap<K, i64>,
}
// the tables hold plain keys
unsafe impl<'r, K: Key> Sync for Names<'r, K> {}

impl<'r, K: Key> Names<'r, K> {
    fn kid_of(&self, k: &K) -> i64 {
        match self.kid.get(k) {
            Some(x) if k.is_stored() => *x,
            Some(_) => FOREIGN,
            None => UNKNOWN,
        }
    }

    /// `rounds` rounds of reads, each in an order of its own; what they returned (each different answer once)
    fn reads(&self, sh: &Shared<'_, K>, o: i64, rounds: usize, r: &mut Rng) -> Vec<String> {
        let mut seen = std::collections::HashSet::new();
        let mut out = Vec::new();
        let probes: Vec<K> = self.table.iter().map(|k| k.probe()).collect();
        let mut order: Vec<usize> = (0..probes.len()).collect();
        for _ in 0..rounds {
            let via = match sh {
                // mostly lookups
                Shared::Map(_) => MAP_READS[if r.below(4) > 0 { r.below(4) } else { r.below(MAP_READS.len()) }],
                Shared::Set(_) => SET_READS[if r.below(4) > 0 { r.below(2) } else { r.below(SET_READS.len()) }],
            };
            let ev = match via {
                "get" | "gkv" | "has" | "idx" | "sget" | "shas" => {
                    if r.below(3) > 0 {
                        r.shuffle(&mut order);
                    }
                    let mut rs: Vec<Vec<i64>> = vec![Vec::new(); probes.len()];
                    for p in &order {
                        let k = &probes[*p];
                        rs[*p] = match sh {
                            Shared::Map(m) => match via {
                                "get" => quiet(|| m.o_get(k)).map_or(vec![PANIC], |x| vec![x.map_or(NONE, i64::from)]),
                                "has" => quiet(|| m.o_has(k)).map_or(vec![PANIC], |x| vec![i64::from(x)]),
                                "idx" => quiet(|| m.o_idx(k)).map_or(vec![PANIC], |x| vec![i64::from(x)]),
                                _ => match quiet(|| m.o_gkv(k)) {
                                    None => vec![PANIC, PANIC],
                                    Some(None) => vec![NONE, NONE],
                                    Some(Some((k2, x))) => vec![self.kid_of(&k2), i64::from(x)],
                                },
                            },
                            Shared::Set(m) => match via {
                                "shas" => quiet(|| m.o_has(k)).map_or(vec![PANIC], |x| vec![i64::from(x)]),
                                _ => match quiet(|| m.o_get(k)) {
                                    None => vec![PANIC],
                                    Some(None) => vec![NONE],
                                    Some(Some(k2)) => vec![self.kid_of(&k2)],
                                },
                            },
                        };
                    }
                    J::op("gall").i("o", o).s("via", via).raw("rs", &Run::<K>::results(&rs, via == "gkv")).end()
                }
                "len" => {
                    let (n, e) = match sh {
                        Shared::Map(m) => (m.o_len(), m.o_is_empty()),
                        Shared::Set(m) => (m.o_len(), m.o_is_empty()),
                    };
                    J::op("len").i("o", o).i("n", n as i64).i("e", i64::from(e)).end()
                }
                "dbg" => {
                    let s = match sh {
                        Shared::Map(m) => m.o_debug(),
                        Shared::Set(_) => continue,
                    };
                    let all: Vec<i64> = (1..=self.table.len() as i64).collect();
                    let (ks, vs) = parse_debug(self.table, &s, &all);
                    J::op("iter").i("o", o).s("via", via).a("ks", &ks).a("vs", &vs).end()
                }
                _ => {
                    let mut it = match sh {
                        Shared::Map(m) => m.o_it(via),
                        Shared::Set(m) => m.o_it(via),
                    };
                    let (mut ks, mut vs) = (Vec::new(), Vec::new());
                    while let Some((k, v)) = it.step() {
                        ks.extend(k.map(|k| self.kid_of(&k)));
                        vs.extend(v.map(i64::from));
                        if ks.len().max(vs.len()) > self.table.len() + 5 {
                            break;
                        }
                    }
                    J::op("iter").i("o", o).s("via", via).a("ks", &ks).a("vs", &vs).end()
                }
            };
            if seen.insert(ev.clone()) {
                out.push(ev);
            }
        }
        out
    }
}

/// job: "<fam> <n> <nabs> <seed>|op fields|op fields|..."
pub fn run_job<B: Builder<K>, K: Key>(job: &str) -> String {
    let mut parts = job.split('|');
    let head: Vec<&str> = parts.next().unwrap().split(' ').collect();
    let (fam, n, nabs, seed) = (head[0], head[1].parse().unwrap(), head[2].parse().unwrap(), head[3].parse().unwrap());
    let Some(Table { stored, absent }) = super::keys::table_or_skip::<K>(fam, n, seed, nabs) else {
        return "{\"ev\":[]}".to_string();
    };
    let tracing = std::env::var_os("FH_TRACE").is_some();
    let nstored = stored.len();
    let mut table = stored;
    table.extend(absent);
    let kid = table.iter().enumerate().map(|(i, k)| (k.clone(), i as i64 + 1)).collect();
    super::imp::RENDERINGS.with(|r| r.set(seed));
    let mut run: Run<K> = Run { table, nstored, kid, its: HashMap::new(), rights: Vec::new(), objs: HashMap::new(), seed };
    let mut evs: Vec<String> = Vec::new();
    for op in parts {
        let f: Vec<&str> = op.split(' ').collect();
        if tracing {
            println!("O {op}");
        }
        match catch_unwind(AssertUnwindSafe(|| run.op::<B>(&f))) {
            Ok(Some(e)) => {
                if tracing {
                    println!("V {e}");
                }
                let stop = f[0] == "b" && e.ends_with("\"panic\"}");
                evs.push(e);
                if stop {
                    break;
                }
            }
            Ok(None) => {}
            Err(_) => {
                evs.push(J::op("panic").s("in", &op.replace('"', "'")).end());
                break;
            }
        }
    }
    let rights = std::mem::take(&mut run.rights);
    drop(run);
    for r in rights {
        drop(unsafe { Box::from_raw(r) });
    }
    format!("{{\"ev\":[{}]}}", evs.join(","))
}
