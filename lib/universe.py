"""What there is to embed abstract histories into: key types, key families,
collection types (by type code of the harness), hashers, insertion orders."""

INT_FAMS = ["range0", "range1", "rangelo", "rangehi", "range", "step2", "step2hi", "step3", "step256", "step64k", "multn", "step4g", "step16e",
            "primes", "mersenne", "pow2", "hole", "hole2", "outlier", "outlier0", "twins", "twinn", "extremes", "sparse", "clusters"]
RANGE_FAMS = ["range0", "range1", "rangelo", "rangehi", "range"]
STR_FAMS = ["len", "len3", "len4", "left0", "left3", "left20", "right0", "right1", "right4", "rmany2", "rmany5", "mid",
            "fixed", "words", "seq", "seqv", "long", "longmid", "uni", "trie", "path", "rand", "same16", "digits", "short", "lenk8", "far8"]
LONG_FAMS = ["lenk16", "far16", "rfar16", "mid16", "wide16"]   # up to 48 keys of 65,536 bytes and more
HASHERS = ["sip", "fnv", "zero", "max", "two", "low", "high", "ident", "mid", "sum", "seven"]
GOOD_HASHERS = ["sip", "fnv", "ident", "sum", "low", "zero", "high"]
ORDERS = ["asc", "desc", "shuf", "rot"]

INTS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "u128": 128, "i128": 128,
        "usize": 64, "isize": 64}
STRINGY = {"string", "str", "bytes", "name"}


def fams(key):
    if key in STRINGY:
        return STR_FAMS
    if key == "tag":
        return ["range0", "step2", "sparse", "hole", "clusters"]
    if key == "pair":
        return ["range0", "step3", "sparse", "clusters"]
    if key == "char":
        return ["range0", "step2", "sparse", "hole"]
    return INT_FAMS


LIMITS = {"8": 255, "16": 65535, "32": 0, "64": 0, "z": 0}


def limit(code):
    for s in ("16", "32", "64", "8", "z"):
        if code.split("@")[0].endswith(s):
            return LIMITS[s]
    return 0


def is_slice(code):
    return code[:2] in ("ll", "lr", "rl", "rr")


# bin -> key type -> map codes / set codes
FACADE_KEYS = ["u32", "string", "str", "u64", "i32", "u8", "tag", "pair", "char", "bytes", "u128", "i64", "usize", "i16"]
MAPS = {
    "facade": {k: ["fm"] + (["fr"] if k in ("u32", "string", "tag") else []) for k in FACADE_KEYS},
    "specm": {
        "u32": ["cm8", "cm16", "cm32", "cm64", "cmz", "cr8", "cr16", "im8", "im16", "im32", "im64", "imz", "sm"],
        "string": ["cm8", "cm16", "cmz", "cr8", "lm8", "lm16", "lm32", "lmz", "ll8", "ll16", "ll32", "llz", "lr8",
                   "rl8", "rl16", "rl32", "rlz", "rr8", "sm"],
        "name": ["cm8", "cmz", "lm8", "lm16", "ll8", "ll16", "rl8", "rl16", "sm"],
        "tag": ["cm8", "cmz", "sm"],
        "bytes": ["lm8", "cm8"],
        "char": ["cm8", "cm16", "sm"],
        **{k: ["im8", "im16", "imz"] for k in INTS if k != "u32"},
    },
    "ranges": {k: ["rm"] for k in INTS},
}
SETS = {
    "facade": {k: ["fs"] + (["fr"] if k in ("u32", "string", "tag") else []) for k in FACADE_KEYS},
    "specs": {
        "u32": ["cs8", "cs16", "cs32", "cs64", "csz", "cr8", "cr16", "is8", "is16", "is32", "is64", "isz", "ss"],
        "string": ["cs8", "cs16", "csz", "cr8", "ls8", "ls16", "ls32", "lsz", "ll8", "ll16", "ll32", "llz", "lr8",
                   "rl8", "rl16", "rl32", "rlz", "rr8", "ss"],
        "name": ["cs8", "csz", "ls8", "ls16", "ll8", "ll16", "rl8", "rl16", "ss"],
        "tag": ["cs8", "csz", "ss"],
        "bytes": ["ls8", "cs8"],
        "char": ["cs8", "cs16", "ss"],
        **{k: ["is8", "is16", "isz"] for k in INTS if k != "u32"},
    },
    "ranges": {k: ["rs"] for k in INTS},
}
RANGES = ["0..1", "0..2", "1..3", "0..4", "2..3", "3..7", "0..12", "5..6", "4..5", "0..30", "2..2", "1..2", "100..101"]
BATCH = "mixed"
