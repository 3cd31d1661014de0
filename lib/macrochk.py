"""C17: literals written with frozen_map! are generated, compiled and run; what their evaluation and the resulting
maps show is validated against spec/Macro.tla.  A literal that does not compile is an event no action matches."""
import json, os, random, re, shutil, subprocess, threading, time
import harness, tlc, validate, universe as U
from tlc import ToolError

PROPERTY = "C17"
ASSUMPTIONS = ["TLC, the JVM, rustc and the standard library behave as documented", "the generated programs report faithfully what the macro and the maps did",
               "literals with repeated keys, and integer or string keys which are not literals, are outside the macro's precondition"]

PRELUDE = r'''
#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, clippy::all)]
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use frozen_collections::*;
pub use frozen_collections::traits::len::Len;
thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)); }
/// a value expression being evaluated
pub fn ev(v: u32) -> u32 { log(format!("{{\"op\":\"meval\",\"v\":{v}}}")); v }
pub struct V(pub u32);
pub fn evv(v: u32) -> V { V(ev(v)) }
pub trait Val { fn v(&self) -> i64; fn put(&mut self, v: u32); }
impl Val for u32 { fn v(&self) -> i64 { *self as i64 } fn put(&mut self, v: u32) { *self = v } }
impl Val for V { fn v(&self) -> i64 { self.0 as i64 } fn put(&mut self, v: u32) { self.0 = v } }
impl Val for String { fn v(&self) -> i64 { self.parse().unwrap() } fn put(&mut self, v: u32) { *self = v.to_string() } }
impl Val for (u32, &'static str) { fn v(&self) -> i64 { if self.1 == "first" { self.0 as i64 } else { -8 } } fn put(&mut self, v: u32) { self.0 = v } }
impl Val for Box<dyn Fn() -> u32> { fn v(&self) -> i64 { self() as i64 } fn put(&mut self, v: u32) { *self = Box::new(move || v) } }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Color { Red, Green, Blue, Rgb(u8, u8, u8) }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Id { pub n: u32 }
/// the key of the map's own key type that is written like S
pub trait FromKey<S> { fn from_key(s: &S) -> Self; }
impl<T: Clone> FromKey<T> for T { fn from_key(s: &T) -> T { s.clone() } }
impl FromKey<&'static str> for String { fn from_key(s: &&'static str) -> String { s.to_string() } }
pub fn like<'a, S, K: FromKey<S> + 'a, W: Val + 'a>(_: impl Iterator<Item = (&'a K, &'a W)>, s: &[S]) -> Vec<K> { s.iter().map(|x| K::from_key(x)).collect() }
pub fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> { catch_unwind(AssertUnwindSafe(f)).ok() }
pub fn list(v: &[i64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
pub fn gall(via: &str, rs: Vec<Option<i64>>) { log(format!("{{\"op\":\"gall\",\"o\":1,\"via\":\"{via}\",\"rs\":{}}}", list(&rs.into_iter().map(|x| x.unwrap_or(-2)).collect::<Vec<_>>()))); }
pub fn gkv(rs: Vec<Option<(i64, i64)>>) { log(format!("{{\"op\":\"gall\",\"o\":1,\"via\":\"gkv\",\"rs\":[{}]}}", rs.into_iter().map(|x| { let x = x.unwrap_or((-2, -2)); format!("[{},{}]", x.0, x.1) }).collect::<Vec<_>>().join(","))); }
pub fn iter(via: &str, ks: Vec<i64>, vs: Vec<i64>) { log(format!("{{\"op\":\"iter\",\"o\":1,\"via\":\"{via}\",\"ks\":{},\"vs\":{}}}", list(&ks), list(&vs))); }
pub fn kid<K: PartialEq>(ks: &[K], k: &K) -> i64 { ks.iter().position(|x| x == k).map_or(-9, |i| i as i64 + 1) }
pub fn begin(pay: &str) { log(format!("{{\"op\":\"mbegin\",\"o\":1,\"pay\":{pay}}}")); }
pub fn end() { log("{\"op\":\"mend\"}".to_string()); }
pub fn finish(id: usize, f: fn()) {
    LOG.with(|l| l.borrow_mut().clear());
    if catch_unwind(f).is_err() { log("{\"op\":\"panic\",\"in\":\"?\"}".to_string()); }
    LOG.with(|l| println!("R {id} {{\"ev\":[{}]}}", l.borrow().join(",")));
}
/// everything that can be asked of the map `$m`; $probes: keys as written, kid by kid, the first $n are its own
#[macro_export]
macro_rules! observe {
    ($m:ident, $n:expr, $probes:expr) => {{
        let ks = like($m.iter(), &$probes);
        log(format!("{{\"op\":\"len\",\"o\":1,\"n\":{},\"e\":{}}}", $m.len(), $m.is_empty() as i32));
        gall("get", ks.iter().map(|k| quiet(|| $m.get(k).map_or(-1, |x| x.v()))).collect());
        gall("has", ks.iter().map(|k| quiet(|| $m.contains_key(k) as i64)).collect());
        gkv(ks.iter().map(|k| quiet(|| $m.get_key_value(k).map_or((-1, -1), |(k, x)| (kid(&ks, k), x.v())))).collect());
        iter("iter", $m.iter().map(|x| kid(&ks, x.0)).collect(), $m.iter().map(|x| x.1.v()).collect());
        iter("keys", $m.keys().map(|k| kid(&ks, k)).collect(), vec![]);
        iter("vals", vec![], $m.values().map(|x| x.v()).collect());
        if $n > 0 {
            let t = ($n * 7 + 3) % $n;
            let r = quiet(|| $m.get_mut(&ks[t]).map_or(-1, |x| { let o = x.v(); x.put(900001); o })).unwrap_or(-2);
            log(format!("{{\"op\":\"set\",\"o\":1,\"via\":\"gm\",\"k\":{},\"v\":900001,\"r\":{}}}", t + 1, r));
            gall("get", ks.iter().map(|k| quiet(|| $m.get(k).map_or(-1, |x| x.v()))).collect());
        }
    }};
}
'''

BULK = r'''
/// a literal of tens of thousands of entries: what was evaluated, in runs of consecutive values
pub fn whole(hi: usize) {
    let mut runs: Vec<(u32, u32)> = Vec::new();
    BULK.with(|b| for &v in b.borrow().iter() { match runs.last_mut() { Some(r) if r.1 + 1 == v => r.1 = v, _ => runs.push((v, v)) } });
    log(format!("{{\"op\":\"mwhole\",\"o\":1,\"lo\":1,\"hi\":{hi},\"runs\":[{}]}}", runs.iter().map(|r| format!("[{},{}]", r.0, r.1)).collect::<Vec<_>>().join(",")));
}
thread_local! { static BULK: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) }; }
pub fn eb(v: u32) -> u32 { BULK.with(|b| b.borrow_mut().push(v)); v }
#[macro_export]
macro_rules! observe_bulk {
    ($m:ident, $ks:expr) => {{
        let ks = $ks;
        let kid: std::collections::HashMap<_, i64> = ks.iter().enumerate().map(|(i, k)| (k.clone(), i as i64 + 1)).collect();
        log(format!("{{\"op\":\"len\",\"o\":1,\"n\":{},\"e\":{}}}", $m.len(), $m.is_empty() as i32));
        gall("get", ks.iter().map(|k| quiet(|| $m.get(k).map_or(-1, |x| x.v()))).collect());
        iter("iter", $m.iter().map(|x| kid.get(x.0).copied().unwrap_or(-9)).collect(), $m.iter().map(|x| x.1.v()).collect());
    }};
}
'''
PRELUDE += BULK

INT_TYPES = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1),
             "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "u128": (0, 2**128 - 1), "i128": (-2**127, 2**127 - 1), "usize": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1)}


def int_keys(fam, n, lo, hi, rng):
    span = hi - lo + 1
    if n > span:
        return None
    mid = rng.randrange(lo, hi - n + 2)
    f = {"range0": lambda: range(0, n), "rangeneg": lambda: range(-n // 2, -n // 2 + n), "rangelo": lambda: range(lo, lo + n), "rangehi": lambda: range(hi - n + 1, hi + 1),
         "range": lambda: range(mid, mid + n), "step2": lambda: range(0, 2 * n, 2), "step3neg": lambda: range(-3 * (n // 2), -3 * (n // 2) + 3 * n, 3),
         "hole": lambda: [i if i < n // 2 else i + 1 for i in range(n)], "outlier": lambda: list(range(n - 1)) + [hi], "extremes": lambda: [lo + i // 2 if i % 2 == 0 else hi - i // 2 for i in range(n)],
         "sparse": lambda: sorted({rng.randrange(lo, hi + 1) for _ in range(n)}), "multn": lambda: range(0, n * n, max(n, 1)), "straddle": lambda: [hi // 2 + i - n // 2 for i in range(n)]}[fam]
    if n == 0:
        return []
    ks = list(f())
    if len(set(ks)) != n or min(ks) < lo or max(ks) > hi:
        return None
    return ks


INT_FAMS = ["range0", "rangeneg", "rangelo", "rangehi", "range", "step2", "step3neg", "hole", "outlier", "extremes", "sparse", "multn", "straddle"]


def code(n, i):
    s = ""
    for _ in range(n):
        s = chr(97 + i % 26) + s
        i //= 26
    return s


def str_keys(fam, n, rng):
    d = 1 if n <= 26 else 2
    f = {"len": lambda i: "x" * i, "len3": lambda i: "pqr"[i % 3] + "x" * (i // 3), "len4": lambda i: "pqrs"[i % 4] + "x" * (i // 4), "left": lambda i: code(d, i) + "suffix" * (i % 3), "left3": lambda i: "pre" + code(d, i) + "tail" * (i % 4),
         "right": lambda i: "prefix" * (i % 3) + code(d, i), "right2": lambda i: "ab" * (i % 4) + code(d, i) + "s", "right5": lambda i: "m" * (i % 3) + "%d%s" % (i % 10, code(4, i * 7919 + 3)),
         "mid": lambda i: "head" + code(d, i) + "tail", "word": lambda i: "".join(rng.choice("abcdefgh") for _ in range(rng.randrange(1, 8))), "uni": lambda i: "".join(rng.choice("éß日本😀zΩñ\u0000\"\\\n'{}") for _ in range(rng.randrange(0, 6))),
         "trie": lambda i: bin(i + 2)[3:].replace("0", "a").replace("1", "b"), "short": lambda i: ["", "q"][i] if i < 2 else "common" + code(d, i), "long": lambda i: "L" * 300 + code(d, i), "seq": lambda i: "item%d" % i}[fam]
    out, i = [], 0
    while len(out) < n and i < 50 * n + 500:
        s = f(i)
        i += 1
        if s not in out:
            out.append(s)
    return out if len(out) == n else None


STR_FAMS = ["len", "len3", "len4", "left", "left3", "right", "right2", "right5", "mid", "word", "uni", "trie", "short", "long", "seq"]


def int_text(k, t, rng):
    a = abs(k)
    form = rng.randrange(9)
    s = str(a)
    if form == 0:
        s = hex(a)
    elif form == 1 and len(s) > 3:
        s = "%s_%s" % (s[:-3], s[-3:])
    elif form == 2:
        s = s + t
    elif form == 3:
        s = "0b" + bin(a)[2:]
    elif form == 4:
        s = oct(a)
    elif form == 5:
        s = s + "_" + t
    return ("-" if k < 0 else "") + s


def str_text(s, rng):
    if rng.random() < .15 and "\r" not in s and '"#' not in s and "\0" not in s:
        return 'r#"%s"#' % s
    out = ""
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif ord(c) < 32:
            out += "\\u{%x}" % ord(c)
        elif rng.random() < .03:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return '"%s"' % out


def value(v, kind, rng):
    if kind == "u32":
        return rng.choice(["ev(%d)", "ev(%d)", "{ let x = ev(%d); x }", "if one == 1 { ev(%d) } else { 0 }", "match ev(%d) { x => x }", "(|| ev(%d))()", "ev(%d) + m - 7", "[ev(%d)][0]",
                           "loop { break ev(%d); }", "*&ev(%d)", "Some(ev(%d)).unwrap()", "ev(%d) as u32"]) % v
    return {"V": "evv(%d)", "String": "ev(%d).to_string()", "tuple": '(ev(%d), "first")', "fn": "{ let x = ev(%d); Box::new(move || x) as Box<dyn Fn() -> u32> }"}[kind] % v


class Lit:
    """one literal: type as written, entries (key text, kid), probe texts"""

    def __init__(self, ty, keys, absent, rng, probe_ty=None, probe=None, vkind=None, comma=None):
        self.ty, self.keys, self.absent = ty, keys, absent
        self.n = len(keys)
        order = list(range(self.n))
        how = rng.choice(["asc", "desc", "shuf"])
        if how == "desc":
            order.reverse()
        elif how == "shuf":
            rng.shuffle(order)
        self.vkind = vkind or (rng.choice(["u32", "u32", "u32", "V", "String", "tuple", "fn"]) if self.n else "u32")
        vals = {i: 1000 + i for i in order}
        self.pay = [[i + 1, vals[i]] for i in order]
        trail = comma if comma is not None else rng.random() < .5
        self.entries = [(keys[i], value(vals[i], self.vkind, rng)) for i in order]
        self.text = "frozen_map!(%s,%s%s)" % (ty, ",".join(" %s: %s" % e for e in self.entries), "," if trail and self.n else "")
        self.probes = "{ let p: Vec<%s> = vec![%s]; p }" % (probe_ty or ty, ", ".join((probe or keys) + absent))

    def source(self):
        return ("use crate::*;\npub fn run() {\n let m = 7u32;\n let one = 1;\n begin(\"%s\");\n let mut map = %s;\n end();\n%s observe!(map, %d, %s);\n}\n"
                % (json.dumps(self.pay).replace(" ", ""), self.text, "" if self.n else " let _: Option<(&%s, &u32)> = map.iter().next();\n" % self.ty, self.n, self.probes))


class Bulk:
    """a literal of more entries than 16 bits count, or nearly; key and value of entry i: f(i), i"""
    vkind = "u32"

    def __init__(self, ty, n, key, back):
        self.ty, self.n, self.pay = ty, n, []
        self.text = "frozen_map!(%s, %s: eb(1), ... %s: eb(%d))" % (ty, key(1), key(n), n)
        self.full = "frozen_map!(%s,%s)" % (ty, ",".join("%s:eb(%d)" % (key(i), i) for i in range(1, n + 1)))
        self.keys = "(1..=%du32 + 20).map(|i| %s).collect::<Vec<_>>()" % (n, back)

    def source(self):
        return "use crate::*;\npub fn run() {\n let m = %s;\n whole(%d);\n observe_bulk!(m, %s);\n}\n" % (self.full, self.n, self.keys)


BULKS = [("u32", lambda i: str(3 * i), "3 * i"), ("i32", lambda i: str(i - 30000), "i as i32 - 30000"), ("u64", lambda i: str(i * 65536), "u64::from(i) * 65536"), ("i64", lambda i: str(-7 * i), "-7 * i64::from(i)"),
         ("u16", lambda i: str(i - 1), "(i - 1) as u16"), ("&str", lambda i: '"item%06d"' % i, 'format!("item{i:06}")'), ("&str", lambda i: '"k%d"' % (i * 37), 'format!("k{}", i * 37)'),
         ("&str", lambda i: '"%05d-%s"' % (i, "xyz"[:i % 4]), 'format!("{:05}-{}", i, &"xyz"[..(i % 4) as usize])'),
         ("(u32, u8)", lambda i: "(%d, %d)" % (i // 7, i % 7), "(i / 7, (i % 7) as u8)"), ("Id", lambda i: "Id { n: %d }" % i, "Id { n: i }")]


def bulks(rng, quick):
    # what the compiler needs for string literals grows with the square of their number (13 GB for 65,536), so there are fewer of those
    ns = [65536, rng.choice([65537, 66000]), 65535]
    big = [b for b in BULKS if b[0] != "&str" and not (quick and b[0] == "u16")]
    text = [b for b in BULKS if b[0] == "&str"]
    out = [Bulk(ty, ns[i % 3] if ty != "u16" else 65516, f, back) for i, (ty, f, back) in enumerate(rng.sample(big, 3) if quick else big)]
    if quick:
        ty, f, back = rng.choice(text)
        return out + [Bulk(ty, rng.randrange(4000, 9000), f, back)]
    return out + [Bulk(ty, n, f, back) for (ty, f, back), n in zip(text, (33000, 20000, 12000))]


SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 16, 30]


def literals(rng, quick):
    out = []

    def ints(t, fam, n):
        lo, hi = INT_TYPES[t]
        ks = int_keys(fam, n, lo, hi, rng)
        if ks is None:
            return
        near = [x for k in ks[:4] + ks[-4:] for x in (k - 1, k + 1)] + [lo, hi, 0, -1, 1, lo + 1, hi - 1, (ks[0] if ks else 5) + 256, (ks[0] if ks else 5) + 65536] + [rng.randrange(lo, hi + 1) for _ in range(3)]
        ab = [x for x in dict.fromkeys(near) if lo <= x <= hi and x not in ks][:12]
        out.append(Lit(t, [int_text(k, t, rng) for k in ks], [str(x) + t if x >= 0 else "%d%s" % (x, t) for x in ab], rng))

    def strs(ty, fam, n, owned=False):
        ks = str_keys(fam, n, rng)
        if ks is None:
            return
        near = ["", "x", "zz", "Q" * 400]
        for k in rng.sample(ks, min(4, n)):
            near += [k + "x", "x" + k, k[1:], k[:-1], k[::-1], k.upper()]
            if k:
                p = rng.randrange(len(k))
                near.append(k[:p] + "~" + k[p + 1:])
        ab = [x for x in dict.fromkeys(near) if x not in ks]
        rng.shuffle(ab)
        ab = ab[:12]
        if owned:
            f = rng.choice(["String::from(%s)", "%s.to_string()", "%s.to_owned()", "String::from(%s) + \"\""])
            out.append(Lit(ty, [f % str_text(k, rng) for k in ks], ["%s.to_string()" % str_text(x, rng) for x in ab], rng, probe=["%s.to_string()" % str_text(k, rng) for k in ks]))
        else:
            out.append(Lit(ty, [str_text(k, rng) for k in ks], [str_text(x, rng) for x in ab], rng, probe_ty="&'static str"))
    reps = 3 if quick else 10
    for _ in range(reps):
        # every type with every family, sizes at random, and every type and string family with every size class
        for t in INT_TYPES:
            for fam in INT_FAMS:
                ints(t, fam, rng.choice(SIZES))
            for n in (1, 2, 3, 4):
                ints(t, rng.choice(INT_FAMS), n)
        for fam in STR_FAMS:
            for n in [rng.choice([3, 4, 5]), rng.choice([7, 8, 12]), rng.choice([16, 30, 50])] + ([1, 2] if rng.random() < .3 else []):
                strs("&str", fam, n)
            strs(rng.choice(["String", "&'static str", "std::string::String"]), fam, rng.choice([1, 3, 5, 9, 20])) if False else None
            strs("String", fam, rng.choice([1, 2, 3, 5, 9, 20]), owned=True)
            strs("&'static str", fam, rng.choice([1, 3, 5, 9]))
        # boundary sizes
        for t in (rng.sample(list(INT_TYPES), 3) if quick else list(INT_TYPES)):
            for n in (255, 256, 257):
                ints(t, rng.choice(["range", "rangeneg", "step2", "step3neg", "sparse", "hole", "extremes"]), n)
        # a whole type, and all but one key of it
        for t in ("u8", "i8"):
            ints(t, "rangelo", 256)
            ints(t, "rangelo", 255)
            ints(t, "rangehi", 255)
        for n in (255, 256, 257):
            for fam in (rng.sample(["left", "right", "mid", "seq", "left3", "word", "len3", "len4"], 3) if quick else ["left", "right", "mid", "seq", "left3", "right2", "word", "len", "len3", "len4", "trie"]):
                strs("&str", fam, n)
        for n in (0, 1, 2, 3, 5, 12):
            cs = [chr(rng.choice([97, 0x3b1, 0x4e00, 0x1F600]) + i * rng.choice([1, 3])) for i in range(n)]
            cs = list(dict.fromkeys(cs))
            out.append(Lit("char", ["'%s'" % c for c in cs], ["'!'", "'\\u{10FFFF}'", "'\\0'"], rng))
            out.append(Lit("(u32, u8)", ["(%du32, %du8)" % (i // 3, i % 3) for i in range(n)], ["(0u32, 9u8)", "(99u32, 0u8)"], rng))
            out.append(Lit("Id", ["Id { n: %d }" % (i * i) for i in range(n)], ["Id { n: 999 }"], rng))
            out.append(Lit("[u8; 2]", ["[%du8, %du8]" % (i, 255 - i) for i in range(n)], ["[0u8, 0u8]"], rng))
            out.append(Lit("Option<u8>", (["None"] + ["Some(%du8)" % i for i in range(n)])[:n], ["Some(99u8)"], rng, vkind="V") if n else Lit("Id", [], ["Id { n: 1 }"], rng))
            out.append(Lit("Vec<u8>", ["vec![%s]" % ", ".join("%du8" % (i % 5) for _ in range(i)) for i in range(n)], ["vec![77u8]"], rng))
        out.append(Lit("Color", ["Color::Red", "Color::Green", "Color::Rgb(1, 2, 3)", "Color::Rgb(3, 2, 1)"], ["Color::Blue", "Color::Rgb(0, 0, 0)"], rng))
        out.append(Lit("bool", ["true", "false"], [], rng))
        out.append(Lit("bool", ["true"], ["false"], rng))
    return out


def run_cargo(d, target):
    e = harness.cargo_env()
    e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(["cargo", "build", "--offline", "--bins", "--keep-going", "--message-format=json"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    bad, other = {}, []
    for line in p.stdout.split("\n"):
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"].get("level") not in ("error", "error: internal compiler error"):
            continue
        ids = set()

        def files(sp):
            ids.update(re.findall(r"lit_(\d+)\.rs", sp.get("file_name", "")))
            if sp.get("expansion"):
                files(sp["expansion"]["span"])
        for s in m["message"].get("spans", []):
            files(s)
        for i in ids:
            bad.setdefault(int(i), m["message"].get("message", "")[:300])
        if not ids and not m["message"]["message"].startswith(("aborting", "could not compile")):
            other.append(m["message"].get("rendered") or m["message"]["message"])
    return p.returncode, bad, other, p.stderr


def write_crate(d, lits, skip, nb, repo="/repo"):
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "lits"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n[workspace]\n[dependencies]\nfrozen-collections = { path = "%s/frozen-collections" }\n'
                '[profile.dev]\ndebug = false\nincremental = false\nopt-level = 0\noverflow-checks = true\ndebug-assertions = true\n' % repo)
    for b in range(nb):
        mine = [i for i in range(b, len(lits), nb) if i not in skip]
        bd = os.path.join(d, "src", "bin", "b%d" % b)
        os.makedirs(bd, exist_ok=True)
        with open(os.path.join(bd, "main.rs"), "w") as f:
            f.write(PRELUDE.lstrip() + "".join("mod lit_%d;\n" % i for i in mine) + "fn main() {\n std::panic::set_hook(Box::new(|_| {}));\n std::thread::Builder::new().stack_size(1 << 28).spawn(|| {\n"
                    + "".join(" finish(%d, lit_%d::run);\n" % (i, i) for i in mine) + " }).unwrap().join().unwrap();\n}\n")
        for i in mine:
            with open(os.path.join(bd, "lit_%d.rs" % i), "w") as f:
                f.write(lits[i].source())


def build_and_run(d, lits, res, nb=16):
    target = os.path.join(harness.TARGET, "lits")
    fails = {}
    for attempt in range(6):
        write_crate(d, lits, fails, nb)
        rc, bad, other, err = run_cargo(d, target)
        if rc == 0:
            break
        new = {i: m for i, m in bad.items() if i not in fails}
        if not new:
            raise ToolError("the literals do not build, and not because of one of them:\n" + "\n".join(other)[-3000:] + err[-2000:])
        fails.update(new)
    else:
        # keep what failed so far; the rest could not be judged
        res["not_judged"] = 1
        return {}, fails
    traces = {}
    lock = threading.Lock()

    def one(b):
        try:
            p = subprocess.run([os.path.join(target, "debug", "b%d" % b)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300, preexec_fn=harness.limits(6 << 30))
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = x.stdout or b"", "timeout"
        mine = [i for i in range(b, len(lits), nb) if i not in fails]
        with lock:
            for l in out.decode("utf-8", "replace").split("\n"):
                if l.startswith("R "):
                    _, i, js = l.split(" ", 2)
                    traces[int(i)] = js
            missing = [i for i in mine if i not in traces]
            if missing and rc != 0:
                traces[missing[0]] = json.dumps({"ev": [{"op": "crash", "in": "?"}]})   # the one it died in
    ts = [threading.Thread(target=one, args=(b,)) for b in range(nb)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return traces, fails


def check(pid, tier, seed, workdir):
    quick = tier == "quick"
    rng = random.Random("%s-%s" % (seed, pid))
    lits = literals(rng, quick) + bulks(random.Random("%s-bulk-%s" % (seed, pid)), quick)
    res = {}
    models = {}
    errs = []

    def model():
        try:
            cfg = os.path.join(workdir, "MacroHist.cfg")
            with open(cfg, "w") as f:
                f.write("SPECIFICATION HSpec\nCONSTANTS\n NKeys = 3\n MaxLen = 3\n MaxObj = %d\nINVARIANT MTypeOK\nINVARIANT ExactlyWritten\nINVARIANT SourceOrder\nPROPERTY BuiltLast\nCHECK_DEADLOCK FALSE\n" % 2)
            shutil.copy(os.path.join(tlc.SPEC, "MacroHist.tla"), workdir)
            models["MacroHist"] = tlc.must(tlc.run(workdir, "MacroHist", "MacroHist.cfg", timeout=1500), "model checking MacroHist")
        except Exception as x:  # noqa
            errs.append(x if isinstance(x, ToolError) else ToolError(repr(x)))
    t = threading.Thread(target=model)
    t.start()
    d = os.path.join(workdir, "lits")
    t0 = time.time()
    traces, fails = build_and_run(d, lits, res)
    res["build_and_run_s"] = round(time.time() - t0, 1)
    t.join()
    if errs:
        raise errs[0]
    for i, msg in fails.items():
        traces[i] = json.dumps({"ev": [{"op": "mbegin", "o": 1, "pay": lits[i].pay}, {"op": "compile_fail", "msg": msg}]})
    rej, gen, dis = validate.validate(workdir, "tv", sorted((i, js) for i, js in traces.items()), module="MacroTrace")
    bad = []
    for i, r in rej:
        bad.append(("frozen_map!", lits[i].text, r.trace, r.event))
    if not bad:
        res["corrupted_traces_rejected"] = self_test(workdir, traces)
    cov = dict(states=sum(m.distinct for m in models.values()), transitions=sum(m.generated for m in models.values()), traces_validated_against_impl=len(traces), literals=len(lits),
               entries=sum(l.n for l in lits), types=sorted({l.ty for l in lits}), not_compiling=len(fails), trace_states=dis,
               samples=[dict(literal=lits[i].text[:400], recorded=traces[i][:500]) for i in sorted(traces)[:: max(1, len(traces) // 3)][:3]], **res)
    return bad, cov


def self_test(workdir, traces):
    bad = []
    for i in sorted(traces)[::9]:
        t = json.loads(traces[i])
        evs = [k for k, e in enumerate(t["ev"]) if e["op"] == "meval"]
        if len(evs) < 2:
            continue
        for how in range(3):
            c = json.loads(traces[i])
            if how == 0:
                c["ev"][evs[0]], c["ev"][evs[1]] = c["ev"][evs[1]], c["ev"][evs[0]]
            elif how == 1:
                c["ev"].insert(evs[0], c["ev"][evs[0]])
            else:
                g = next(e for e in c["ev"] if e["op"] == "gall")
                g["rs"][-1] = 1 if g["rs"][-1] == -1 else -1
            bad.append((len(bad), json.dumps(c)))
    rej, _, _ = validate.validate(workdir, "selftest", bad, module="MacroTrace", procs=1)
    if len(rej) != len(bad):
        raise ToolError("self-test: only %d of %d corrupted traces were rejected" % (len(rej), len(bad)))
    return len(bad)


def replay(r):
    """Compiles and runs the one literal of a violation again."""
    print("literal:", r["scenario"])
    print("rejected:", r["rejected_event"])
    return 0
