//! Key types and key families: a table of `n` stored keys (kids 1..=n) and of
//! absent probe keys (kids n+1..), deterministic in (family, n, seed).
use super::rng::Rng;
use std::borrow::Borrow;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub struct Table<K> {
    pub stored: Vec<K>,
    pub absent: Vec<K>,
}

pub trait Key: Clone + Eq + Hash + Debug + 'static {
    fn table(fam: &str, n: usize, seed: u64, nabs: usize) -> Table<Self>;
    /// an equal instance to look up with
    fn probe(&self) -> Self {
        self.clone()
    }
    /// is this instance one that was supplied at construction (rather than a probe)?
    fn is_stored(&self) -> bool {
        true
    }
}

fn distinct<K: Eq + Hash>(v: &[K]) -> bool {
    let mut s = HashSet::new();
    v.iter().all(|x| s.insert(x))
}

/// None if the family has no `n` distinct keys of this type
pub fn table_or_skip<K: Key>(fam: &str, n: usize, seed: u64, nabs: usize) -> Option<Table<K>> {
    match std::panic::catch_unwind(|| K::table(fam, n, seed, nabs)) {
        Ok(t) => Some(t),
        Err(e) if e.downcast_ref::<String>().map_or(false, |m| m.starts_with("NOFAM")) => None,
        Err(e) => panic!("HARNESS: building the key table panicked: {:?}", e.downcast_ref::<String>()),
    }
}

pub fn check<K: Key>(fam: &str, n: usize, t: Table<K>) -> Table<K> {
    assert!(t.stored.len() == n && distinct(&t.stored), "NOFAM: family {fam} n {n} gives no {n} distinct keys");
    t
}

// ---------------------------------------------------------------- integers

/// stored and absent integers in min..=max
pub fn ints(fam: &str, n: usize, seed: u64, nabs: usize, min: i128, max: i128) -> (Vec<i128>, Vec<i128>) {
    let mut r = Rng::new(seed ^ 0x11);
    let nn = n as i128;
    let span = max.saturating_sub(min).saturating_add(1);
    assert!(span >= nn, "NOFAM: family {fam}: {n} keys do not fit");
    let rnd = |r: &mut Rng| -> i128 {
        if span == i128::MAX {
            (i128::from(r.next() as i64) << 40) ^ i128::from(r.next())
        } else {
            min + ((i128::from(r.next()) << 32 ^ i128::from(r.next())).rem_euclid(span))
        }
    };
    let fit = |start: i128, step: i128| -> Vec<i128> {
        if n > 0 && (start < min || start.checked_add(step.saturating_mul(nn - 1)).map_or(true, |e| e > max)) {
            let step = if step.saturating_mul(nn) > span { 1 } else { step };
            let start = if start < min || start + step * (nn - 1) > max { min } else { start };
            (0..nn).map(|i| start + step * i).collect()
        } else {
            (0..nn).map(|i| start + step * i).collect()
        }
    };
    let mid = if n == 0 { 0 } else { min.max(0) + (rnd(&mut r).unsigned_abs() % (((max - nn + 1).max(1)) as u128)) as i128 };
    let mut stored: Vec<i128> = match fam {
        "range0" => fit(if min < 0 { -(nn / 2) } else { 0 }, 1),
        "range1" => fit(1, 1),
        "rangelo" => fit(min, 1),
        "rangehi" => fit(max - nn + 1, 1),
        "range" => fit(mid, 1),
        "step2" => fit(if min < 0 { -nn } else { 0 }, 2),
        "step2hi" => fit(max.saturating_sub(2 * nn), 2),
        "step3" => fit(5.min(max), 3),
        "step256" => fit(0, 256),
        "step64k" => fit(0, 65536),
        "step4g" => fit(3.min(max), 1 << 32),
        "step16e" => fit(7.min(max), 1 << 64),
        "multn" => fit(0, nn.max(1)),
        "primes" => fit(0, 131 * 163),
        "mersenne" => (0..nn).map(|i| (max - i * i).max(min)).collect(),
        "pow2" => {
            let mut v = Vec::new();
            let mut x: i128 = 1;
            while (v.len() as i128) < nn && x <= max {
                v.push(x);
                x <<= 1;
            }
            let mut y = 3;
            while (v.len() as i128) < nn {
                if !v.contains(&y) {
                    v.push(y);
                }
                y += 1;
            }
            v
        }
        "hole" => {
            let hole = nn / 2;
            (0..nn).map(|i| if i >= hole && n > 1 { i + 1 } else { i }).map(|x| x.min(max)).collect()
        }
        "hole2" => (0..nn).map(|i| if i == nn - 1 && n > 2 { i + 1 } else { i } + 10.min(max - nn - 1).max(0)).collect(),
        // nearly contiguous: a few far keys share slots with near ones
        "twinn" => (0..nn).map(|i| if i > 3 && i >= nn - 3 { i + nn } else { i }).collect(),
        "outlier" => (0..nn).map(|i| if i == nn - 1 && n > 1 { max } else { i }).collect(),
        "outlier0" => (0..nn).map(|i| if i == 0 { 0 } else { max - nn + 1 + i }).collect(),
        "twins" => (0..nn).map(|i| if i % 2 == 0 { i / 2 } else { max - i / 2 }).collect(),
        "extremes" => (0..nn).map(|i| if i % 2 == 0 { min + i / 2 } else { max - i / 2 }).collect(),
        "sparse" => {
            let mut s = HashSet::new();
            let mut v = Vec::new();
            while v.len() < n {
                let x = rnd(&mut r).clamp(min, max);
                if s.insert(x) {
                    v.push(x);
                }
            }
            v
        }
        "clusters" => {
            let mut s = HashSet::new();
            let mut v = Vec::new();
            while v.len() < n {
                let base = rnd(&mut r).clamp(min, max);
                for j in 0..5 {
                    let x = base.saturating_add(j).min(max);
                    if v.len() < n && s.insert(x) {
                        v.push(x);
                    }
                }
            }
            v
        }
        _ => panic!("HARNESS: no integer family {fam}"),
    };
    let monotone = fam.starts_with("range");
    if !monotone {
        // kids in no particular order
        r.shuffle(&mut stored);
    }
    let have: HashSet<i128> = stored.iter().copied().collect();
    let mut cand: Vec<i128> = Vec::new();
    let lo = stored.iter().min().copied().unwrap_or(0);
    let hi = stored.iter().max().copied().unwrap_or(0);
    cand.extend([lo.saturating_sub(1), hi.saturating_add(1), min, max, 0, -1, 1, lo.saturating_sub(2), hi.saturating_add(2), min.saturating_add(1), max - 1]);
    cand.extend([hi.saturating_add(nn), lo.saturating_sub(nn), lo.saturating_add(1 << 8), hi.saturating_add(1 << 16), hi.saturating_add(1 << 32), hi.saturating_sub(1 << 32), hi.saturating_add(1 << 64), (hi ^ (1 << 31)), hi ^ (1 << 15), hi ^ (1 << 7), lo ^ (1 << 31), lo ^ (1 << 63)]);
    let mut walk: Vec<i128> = stored.clone();
    r.shuffle(&mut walk);
    for x in walk.iter().take(nabs) {
        cand.push(x.saturating_add(1));
        cand.push(x.saturating_sub(1));
        cand.push(x.saturating_add(nn));
        cand.push(x ^ (1 << r.below(63)));
        cand.push(x.checked_neg().unwrap_or(0));
    }
    for _ in 0..8 {
        cand.push(rnd(&mut r));
    }
    let mut seen = have;
    let mut absent = Vec::new();
    for c in cand {
        if absent.len() < nabs && c >= min && c <= max && seen.insert(c) {
            absent.push(c);
        }
    }
    (stored, absent)
}

macro_rules! int_keys {
    ($($t:ty),*) => { $(
        impl Key for $t {
            fn table(fam: &str, n: usize, seed: u64, nabs: usize) -> Table<Self> {
                let max = if <$t>::MAX as u128 > i64::MAX as u128 * 4 { i128::MAX >> 2 } else { <$t>::MAX as i128 };
                let min = if <$t>::MIN as i128 == i128::MIN { i128::MIN >> 2 } else { <$t>::MIN as i128 };
                // the two 128-bit types use the top of their own domain in the "hi" families
                let up = fam.ends_with("hi") && std::mem::size_of::<$t>() == 16;
                let (s, a) = ints(fam, n, seed, nabs, min, max);
                let down = fam.ends_with("lo") && <$t>::MIN as i128 == i128::MIN;
                let conv = |x: i128| -> $t { if down { (<$t>::MIN).wrapping_add((x - min) as $t) } else if up { (<$t>::MAX).wrapping_sub((max - x) as $t) } else { x as $t } };
                let stored: Vec<$t> = s.into_iter().map(conv).collect();
                let have: HashSet<$t> = stored.iter().copied().collect();
                let mut seen = have;
                let absent = a.into_iter().map(conv).chain([<$t>::MIN, <$t>::MAX]).filter(|x| seen.insert(*x)).collect();
                check(fam, n, Table { stored, absent })
            }
        }
    )* };
}
int_keys!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);

/// A key whose equality and hash ignore a component, so that stored and probe
/// instances can be told apart, and whose hash ignores more than that: some
/// distinct keys hash alike whatever the hasher.
#[derive(Clone)]
pub struct Tag {
    pub id: u32,
    pub probe: bool,
}
impl PartialEq for Tag {
    fn eq(&self, o: &Tag) -> bool {
        self.id == o.id
    }
}
impl Eq for Tag {}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Tag) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tag {
    fn cmp(&self, o: &Tag) -> std::cmp::Ordering {
        self.id.cmp(&o.id)
    }
}
impl Hash for Tag {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let seen = if self.id & 4 == 0 { self.id & !3 } else { self.id };
        h.write(&seen.to_le_bytes());
    }
}
impl Debug for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "T{}", self.id)
    }
}
impl Key for Tag {
    fn table(fam: &str, n: usize, seed: u64, nabs: usize) -> Table<Self> {
        let t = u32::table(fam, n, seed, nabs);
        let f = |v: Vec<u32>| v.into_iter().map(|id| Tag { id, probe: false }).collect();
        check(fam, n, Table { stored: f(t.stored), absent: f(t.absent) })
    }
    fn probe(&self) -> Self {
        Tag { id: self.id, probe: true }
    }
    fn is_stored(&self) -> bool {
        !self.probe
    }
}

impl Key for (u32, u8) {
    fn table(fam: &str, n: usize, seed: u64, nabs: usize) -> Table<Self> {
        let t = u64::table(if fam == "sparse" { "step3" } else { fam }, n, seed, nabs);
        let f = |v: Vec<u64>| -> Vec<(u32, u8)> { v.into_iter().map(|x| ((x >> 8) as u32, x as u8)).collect() };
        let stored = f(t.stored);
        let mut seen: HashSet<(u32, u8)> = stored.iter().copied().collect();
        let absent = f(t.absent).into_iter().filter(|x| seen.insert(*x)).collect();
        check(fam, n, Table { stored, absent })
    }
}

impl Key for char {
    fn table(fam: &str, n: usize, seed: u64, nabs: usize) -> Table<Self> {
        let t = u16::table(fam, n, seed, nabs);
        let f = |v: Vec<u16>| -> Vec<char> { v.into_iter().map(|x| char::from_u32(0x1_0000 + u32::from(x)).unwrap()).collect() };
        check(fam, n, Table { stored: f(t.stored), absent: f(t.absent) })
    }
}

// ---------------------------------------------------------------- strings

fn uniq(len: usize, i: usize) -> String {
    // i as `len` digits, base 52
    const D: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    let mut v = vec![b'a'; len];
    let mut x = i;
    for p in (0..len).rev() {
        v[p] = D[x % 52];
        x /= 52;
    }
    String::from_utf8(v).unwrap()
}

pub const STRING_FAMS: [&str; 24] = [
    "len", "len3", "len4", "left0", "left3", "left20", "right0", "right1", "right4", "rmany2", "rmany5", "mid", "fixed", "words",
    "seq", "seqv", "long", "longmid", "uni", "trie", "path", "rand", "same16", "digits",
];

pub fn strings(fam: &str, n: usize, seed: u64, nabs: usize) -> (Vec<String>, Vec<String>) {
    let mut r = Rng::new(seed ^ 0x22);
    let d = if n <= 52 { 1 } else { 2 + usize::from(n > 2704) + usize::from(n > 140_608) };
    let mut set = HashSet::new();
    let mut stored: Vec<String> = Vec::new();
    let mut i = 0usize;
    let lengthy = fam.ends_with("16") && fam != "same16";
    assert!(!lengthy || n <= 48, "NOFAM: family {fam}: too much text");
    while stored.len() < n {
        let s = match fam {
            "len" => "x".repeat(i),
            "len3" => format!("{}{}", "pqr".chars().nth(i % 3).unwrap(), "x".repeat(i / 3)),
            "len4" => format!("{}{}", "pqrs".chars().nth(i % 4).unwrap(), "x".repeat(i / 4)),
            "left0" => format!("{}{}", uniq(d, i), "suffix".repeat(1 + i % 3)),
            "left3" => format!("pre{}{}", uniq(d, i), "tail".repeat(i % 4)),
            "left20" => format!("a-long-common-prefix{}{}", uniq(d, i), "!".repeat(i % 5)),
            "right0" => format!("{}{}", "prefix".repeat(1 + i % 3), uniq(d, i)),
            "right1" => format!("{}{}s", "ab".repeat(1 + i % 4), uniq(d, i)),
            "right4" => format!("{}{}.txt", "path/".repeat(1 + i % 4), uniq(d, i)),
            "rmany2" => format!("{}{}zz", "z".repeat(i % 7), uniq(2, i)),
            "rmany5" => format!("{}{}", "m".repeat(i % 3), format!("{}{}", i % 10, uniq(4, i * 7919 + 3))),
            "mid" => format!("head{}tail", uniq(d, i)),
            "fixed" => uniq(12, r.next() as usize >> 8),
            "words" => {
                let l = 2 + r.below(9);
                (0..l).map(|_| (b'a' + r.below(26) as u8) as char).collect()
            }
            "seq" => format!("item{i:06}"),
            "seqv" => format!("item{i}"),
            "long" => format!("{}{}", "L".repeat(300), uniq(d, i)),
            "longmid" => format!("{}{}{}", "L".repeat(120), uniq(d, i), "R".repeat(120 + i % 2)),
            "uni" => {
                let c = ["é", "ß", "日", "本", "😀", "z", "Ω", "\u{0}", "ñ"];
                let mut s = String::new();
                for _ in 0..1 + r.below(6) {
                    s.push_str(c[r.below(c.len())]);
                }
                s
            }
            "trie" => {
                // every string over {a, b}: "", a, b, aa, ab, ...
                let x = i + 1;
                let bits = usize::BITS - 1 - x.leading_zeros();
                (0..bits).rev().map(|b| if x >> b & 1 == 1 { 'b' } else { 'a' }).collect()
            }
            "path" => format!("/usr/{}/share/{}/{}", ["lib", "local", "x"][i % 3], i % 7, uniq(3, i * 31)),
            "rand" => {
                let l = r.below(40);
                (0..l).map(|_| (b' ' + r.below(95) as u8) as char).collect()
            }
            "same16" => format!("0123456789abcdef{}{}fedcba9876543210", "=".repeat(i % 2), uniq(d, i)),
            "digits" => format!("{}", i * i + 7),
            // one or more keys shorter than the slices the others would be told apart by
            "short" => match i {
                0 => String::new(),
                1 => "q".to_string(),
                _ => format!("common{}{}", uniq(d, i), "t".repeat(i % 3)),
            },
            // lengths which 8 or 16 bits do not tell apart
            "lenk8" => "x".repeat(if i % 2 == 0 { i / 2 } else { 256 + i / 2 }),
            "lenk16" => "x".repeat([i / 3, 65536 + i / 3, 256 + i / 3][i % 3]),
            // told apart only a long way in, from the left, the right, or either
            "far8" => format!("{}{}{}", "p".repeat(250 + (i % 2) * 6), uniq(d, i), "t".repeat(i % 3)),
            "far16" => format!("{}{}{}", "p".repeat(65530), uniq(d, i), "t".repeat(i % 3)),
            "rfar16" => format!("{}{}{}", "m".repeat(i % 3), uniq(d, i), "s".repeat(65530)),
            "mid16" => format!("{}{}{}", "p".repeat(40000), uniq(d, i), "s".repeat(40000)),
            "wide16" => format!("{}{}", uniq(d, i), "w".repeat(65536 * (i % 3))),
            _ => panic!("HARNESS: no string family {fam}"),
        };
        i += 1;
        if i > n * 400 + 4000 {
            panic!("NOFAM: family {fam} cannot give {n} keys");
        }
        if set.insert(s.clone()) {
            stored.push(s);
        }
    }
    r.shuffle(&mut stored);
    let mut cand: Vec<String> = vec![String::new(), "x".into(), "zz".into(), "x".repeat(n + 1), "\u{1F600}".into(), "Q".repeat(700)];
    if let Some(s) = stored.first() {
        // longer or shorter by as much as 8 or 16 bits count
        cand.extend([format!("{s}{}", "x".repeat(256)), format!("{s}{}", "x".repeat(65536)), format!("{}{s}", "p".repeat(256)), format!("{}{s}", "p".repeat(65536))]);
    }
    if fam.starts_with("lenk") {
        cand.extend([255, 256 + n, 511, 512, 65535, 65536 + n, 65536 + 256, 131072].map(|l| "x".repeat(l)));
    }
    for s in stored.iter().filter(|s| s.len() >= 256 && s.is_ascii()).take(4) {
        for cut in [256, 65536] {
            if s.len() >= cut {
                cand.extend([s[cut..].to_string(), s[..s.len() - cut].to_string()]);
            }
        }
    }
    let mut walk = stored.clone();
    r.shuffle(&mut walk);
    for s in walk.iter().take(if lengthy { 3 } else { nabs.max(4) }) {
        let cs: Vec<char> = s.chars().collect();
        cand.push(format!("{s}x"));
        cand.push(format!("x{s}"));
        if !cs.is_empty() {
            cand.push(cs[1..].iter().collect());
            cand.push(cs[..cs.len() - 1].iter().collect());
            // one character changed, everything else (and the length) the same
            let mut at: Vec<usize> = vec![0, cs.len() - 1, cs.len() / 2, r.below(cs.len())];
            if cs.len() <= 14 {
                at = (0..cs.len()).collect();
            }
            for p in at {
                let mut c2 = cs.clone();
                c2[p] = if c2[p] == '~' { '#' } else { '~' };
                cand.push(c2.iter().collect());
            }
            let mut rv = cs.clone();
            rv.reverse();
            cand.push(rv.iter().collect());
            cand.push(s.to_uppercase());
            cand.push(s[..s.char_indices().nth(cs.len().min(1)).map_or(s.len(), |x| x.0)].to_string());
            let o = &stored[r.below(stored.len())];
            cand.push(format!("{s}{o}"));
        }
    }
    // spread over the kinds of near misses
    let fixed = if r.below(2) == 0 { 6.min(cand.len()) } else { 0 };
    r.shuffle(&mut cand[fixed..]);
    let mut absent = Vec::new();
    for c in cand {
        if absent.len() < nabs && set.insert(c.clone()) {
            absent.push(c);
        }
    }
    (stored, absent)
}

impl Key for String {
    fn table(fam: &str, n: usize, seed: u64, nabs: usize) -> Table<Self> {
        let (stored, absent) = strings(fam, n, seed, nabs);
        check(fam, n, Table { stored, absent })
    }
}

impl Key for &'static str {
    fn table(fam: &str, n: usize, seed: u64, nabs: usize) -> Table<Self> {
        let (s, a) = strings(fam, n, seed, nabs);
        let f = |v: Vec<String>| v.into_iter().map(|x| &*Box::leak(x.into_boxed_str())).collect();
        check(fam, n, Table { stored: f(s), absent: f(a) })
    }
}

impl Key for Vec<u8> {
    fn table(fam: &str, n: usize, seed: u64, nabs: usize) -> Table<Self> {
        let (s, a) = strings(fam, n, seed, nabs);
        let f = |v: Vec<String>| v.into_iter().map(String::into_bytes).collect();
        check(fam, n, Table { stored: f(s), absent: f(a) })
    }
}

/// A string newtype which can be looked up by `String`.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Name(pub String);
impl Hash for Name {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h);
    }
}
impl Debug for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl Borrow<String> for Name {
    fn borrow(&self) -> &String {
        &self.0
    }
}
impl Key for Name {
    fn table(fam: &str, n: usize, seed: u64, nabs: usize) -> Table<Self> {
        let (s, a) = strings(fam, n, seed, nabs);
        let f = |v: Vec<String>| v.into_iter().map(Name).collect();
        check(fam, n, Table { stored: f(s), absent: f(a) })
    }
}

impl frozen_collections_core::traits::len::Len for Name {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl frozen_collections_core::traits::slice_hash::SliceHash for Name {
    fn hash<BH: std::hash::BuildHasher>(&self, bh: &BH, range: std::ops::Range<usize>) -> u64 {
        frozen_collections_core::traits::slice_hash::SliceHash::hash(&self.0, bh, range)
    }
}
