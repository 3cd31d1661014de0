//! A hash builder whose quality is chosen at run time.
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Sip,   // SipHash with fixed keys
    Fnv,   // FNV-1a
    Zero,  // constant 0
    Max,   // constant u64::MAX
    Two,   // one bit of entropy
    Low,   // three low bits only
    High,  // entropy in the top bits only
    Ident, // the bytes written, as a number
    Mid,   // multiples of 2^17
    Sum,   // sum of the bytes
    Seven, // multiples of 7 * 11 * 13
}

pub const MODES: [(&str, Mode); 11] = [
    ("sip", Mode::Sip),
    ("fnv", Mode::Fnv),
    ("zero", Mode::Zero),
    ("max", Mode::Max),
    ("two", Mode::Two),
    ("low", Mode::Low),
    ("high", Mode::High),
    ("ident", Mode::Ident),
    ("mid", Mode::Mid),
    ("sum", Mode::Sum),
    ("seven", Mode::Seven),
];

thread_local! {
    pub static DEFAULT_MODE: Cell<Mode> = const { Cell::new(Mode::Sip) };
    /// number of hashers finished on this thread
    pub static HASHED: Cell<u64> = const { Cell::new(0) };
}

#[derive(Clone, Debug)]
pub struct HB(pub Mode);

impl HB {
    pub fn named(n: &str) -> HB {
        HB(MODES.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("HARNESS: no hash mode {n}")).1)
    }
}

impl Default for HB {
    fn default() -> Self {
        HB(DEFAULT_MODE.with(|m| m.get()))
    }
}

pub struct H {
    mode: Mode,
    sip: DefaultHasher,
    fnv: u64,
    ident: u64,
    sum: u64,
}

impl BuildHasher for HB {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H { mode: self.0, sip: DefaultHasher::new(), fnv: 0xcbf2_9ce4_8422_2325, ident: 0, sum: 0 }
    }
}

impl Hasher for H {
    fn write(&mut self, bytes: &[u8]) {
        self.sip.write(bytes);
        for (i, b) in bytes.iter().enumerate() {
            self.fnv = (self.fnv ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
            if i < 8 {
                self.ident ^= u64::from(*b) << (8 * i);
            }
            self.sum = self.sum.wrapping_add(u64::from(*b));
        }
    }
    fn finish(&self) -> u64 {
        HASHED.with(|c| c.set(c.get() + 1));
        match self.mode {
            Mode::Sip => self.sip.finish(),
            Mode::Fnv => self.fnv,
            Mode::Zero => 0,
            Mode::Max => u64::MAX,
            Mode::Two => self.fnv & 1,
            Mode::Low => self.fnv & 7,
            Mode::High => self.fnv << 40,
            Mode::Ident => self.ident,
            Mode::Mid => (self.fnv & 0xffff) << 17,
            Mode::Sum => self.sum,
            Mode::Seven => (self.fnv & 0xfff).wrapping_mul(1001),
        }
    }
}
