//! Building values of the crate from specification values and comparing the
//! two by behaviour only: a result is right when nothing the public API offers
//! can tell it from a value freshly built to be what the specification says.

use crate::big::Big;
use apint::{ApInt, BitWidth, Int, UInt, Width};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Val {
    pub w: usize,
    pub v: Big,
}

impl Val {
    pub fn show(&self) -> String {
        format!("<{} bits: 0x{}>", self.w, self.v.hex())
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn arr<const N: usize>(le: &[u64]) -> [u64; N] {
    let mut a = [0u64; N];
    for (i, d) in le.iter().enumerate() {
        a[N - 1 - i] = *d;
    }
    a
}

pub fn from_le_digits(le: &[u64]) -> Option<ApInt> {
    Some(match le.len() {
        0 | 1 => ApInt::from_u64(le.first().copied().unwrap_or(0)),
        2 => ApInt::from(arr::<2>(le)),
        3 => ApInt::from(arr::<3>(le)),
        4 => ApInt::from(arr::<4>(le)),
        5 => ApInt::from(arr::<5>(le)),
        6 => ApInt::from(arr::<6>(le)),
        7 => ApInt::from(arr::<7>(le)),
        8 => ApInt::from(arr::<8>(le)),
        9..=16 => ApInt::from(arr::<16>(le)),
        17..=32 => ApInt::from(arr::<32>(le)),
        _ => return None,
    })
}

fn bw(w: usize) -> BitWidth {
    BitWidth::new(w).expect("valid width")
}

/// One of several independent ways to obtain a value through the public API.
fn route(r: usize, x: &Val) -> Option<ApInt> {
    let n = (x.w + 63) / 64;
    match r % 4 {
        0 => from_le_digits(&x.v.digits(n)).map(|a| a.into_truncate(bw(x.w)).unwrap()),
        1 => {
            let mut a = ApInt::zero(bw(x.w));
            for i in 0..x.w {
                if x.v.bit(i) {
                    a.set_bit_at(i).unwrap();
                }
            }
            Some(a)
        }
        2 => {
            let text = format!(
                r#"{{"width":[{}],"digits":{:?}}}"#,
                x.w,
                x.v.digits(n)
            );
            Some(serde_json::from_str(&text).unwrap())
        }
        _ => Some(ApInt::from_str_radix(16, x.v.hex()).unwrap().into_zero_resize(bw(x.w))),
    }
}

fn bits(a: &ApInt) -> String {
    let w = a.width().to_usize();
    (0..w.min(100_000)).map(|i| if a.get_bit_at(i).unwrap() { '1' } else { '0' }).collect()
}

/// How many of three independent projections show exactly x.
fn score(a: &ApInt, x: &Val) -> usize {
    let mut s = 0;
    if guard(|| a.width().to_usize()) == Some(x.w) {
        s += 1;
    }
    if guard(|| (0..x.w).all(|i| a.get_bit_at(i).unwrap() == x.v.bit(i))) == Some(true) {
        s += 1;
    }
    if guard(|| format!("{:x}", a)) == Some(x.v.hex()) {
        s += 1;
    }
    if guard(|| {
        let j = serde_json::to_value(a).unwrap();
        let ds: Vec<u64> = serde_json::from_value(j["digits"].clone()).unwrap();
        ds == x.v.digits((x.w + 63) / 64)
    }) == Some(true)
    {
        s += 1;
    }
    s
}

/// Builds x by the preferred route, or by the one whose outcome looks most
/// like x when that one does not work.
pub fn build(x: &Val, prefer: usize) -> Option<ApInt> {
    let mut best: Option<(usize, ApInt)> = None;
    for r in 0..4 {
        if let Some(Some(a)) = guard(|| route(prefer + r, x)) {
            let s = score(&a, x);
            if s == 4 {
                return Some(a);
            }
            if best.as_ref().map_or(true, |b| s > b.0) {
                best = Some((s, a));
            }
        }
    }
    best.filter(|b| b.0 >= 2).map(|b| b.1)
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

type Obs = fn(&ApInt) -> String;
const OBSERVERS: &[(&str, Obs)] = &[
    ("width", |a| a.width().to_usize().to_string()),
    ("get_bit_at", bits),
    ("LowerHex", |a| format!("{:x}", a)),
    ("hash", |a| hash_of(a).to_string()),
    ("hash of UInt", |a| hash_of(&UInt::from(a.clone())).to_string()),
    ("Binary", |a| format!("{:b}", a)),
    ("UpperHex", |a| format!("{:X}", a)),
    ("serialized form", |a| serde_json::to_string(a).unwrap()),
    ("count_ones", |a| a.count_ones().to_string()),
    ("count_zeros", |a| a.count_zeros().to_string()),
    ("leading_zeros", |a| a.leading_zeros().to_string()),
    ("trailing_zeros", |a| a.trailing_zeros().to_string()),
    ("is_zero/is_all_set/msb/lsb", |a| {
        format!("{} {} {} {}", a.is_zero(), a.is_all_set(), a.msb(), a.lsb())
    }),
    ("resize_to_u64", |a| a.resize_to_u64().to_string()),
    ("resize_to_i128", |a| a.resize_to_i128().to_string()),
    ("try_to_u128", |a| format!("{:?}", a.try_to_u128().ok())),
    ("zero extension by 70", |a| {
        format!("{:x}", a.clone().into_zero_extend(a.width().to_usize() + 70).unwrap())
    }),
    ("increment", |a| format!("{:x}", a.clone().into_wrapping_inc())),
    ("negation", |a| format!("{:x}", a.clone().into_wrapping_neg())),
    ("Debug", |a| format!("{:?}", a)),
    ("sign extension by 3", |a| {
        format!("{:x}", a.clone().into_sign_extend(a.width().to_usize() + 3).unwrap())
    }),
    ("right shifts by 1", |a| match a.width().to_usize() {
        1 => String::new(),
        _ => format!("{:x} {:x}", a.clone().into_wrapping_lshr(1).unwrap(), a.clone().into_wrapping_ashr(1).unwrap()),
    }),
    ("quotient by itself", |a| match a.is_zero() {
        true => String::new(),
        false => format!("{:x}", a.clone().into_wrapping_udiv(a).unwrap()),
    }),
    ("square", |a| format!("{:x}", a.clone().into_wrapping_mul(a).unwrap())),
    ("is_even/is_odd/is_one/Int try_to_i128", |a| {
        let (u, i) = (UInt::from(a.clone()), Int::from(a.clone()));
        format!("{} {} {} {:?}", a.is_even(), a.is_odd(), u.is_one(), i.try_to_i128().ok())
    }),
    ("sign of Int", |a| Int::from(a.clone()).signum().to_string()),
];

type Pair = fn(&ApInt, &ApInt) -> bool;
/// Relations that must hold between two indistinguishable values.
const PAIRS: &[(&str, Pair)] = &[
    ("==", |a, b| a == b && b == a),
    ("checked_ule/uge", |a, b| a.checked_ule(b).unwrap() && a.checked_uge(b).unwrap()),
    ("not checked_ult/ugt", |a, b| !a.checked_ult(b).unwrap() && !a.checked_ugt(b).unwrap()),
    ("checked_sle/sge", |a, b| a.checked_sle(b).unwrap() && a.checked_sge(b).unwrap()),
    ("difference is zero", |a, b| a.clone().into_wrapping_sub(b).unwrap().is_zero()),
    ("exclusive or is zero", |a, b| a.clone().into_bitxor(b).unwrap().is_zero()),
];

/// A specification value together with a freshly built value of the crate.
pub struct Expect {
    pub x: Val,
    pub fresh: Option<ApInt>,
    hex: Option<String>,
    hash: Option<u64>,
}

impl Expect {
    pub fn new(x: Val, route: usize) -> Expect {
        let fresh = build(&x, route);
        let hex = fresh.as_ref().and_then(|f| guard(|| format!("{:x}", f)));
        let hash = fresh.as_ref().and_then(|f| guard(|| hash_of(f)));
        Expect { x, fresh, hex, hash }
    }

    /// None when `a` cannot be told from the expected value; otherwise how.
    pub fn differs(&self, a: &ApInt, full: bool) -> Option<String> {
        let x = &self.x;
        let fresh = match &self.fresh {
            Some(f) => f,
            None => return Some(format!("no way found to build {} for comparison", x.show())),
        };
        if guard(|| a.width()) != guard(|| fresh.width()) {
            return Some(format!("expected {}, got {}", x.show(), show(a)));
        }
        if guard(|| format!("{:x}", a)) != self.hex {
            return Some(format!("expected {}, got {}", x.show(), show(a)));
        }
        if guard(|| a == fresh) != guard(|| fresh == &fresh.clone()) {
            return Some(format!("expected {}, got {} which is not == to it", x.show(), show(a)));
        }
        if guard(|| hash_of(a)) != self.hash {
            return Some(format!("expected {}, got {} which hashes differently", x.show(), show(a)));
        }
        if !full {
            return None;
        }
        for (name, f) in OBSERVERS {
            let (ra, rf) = (guard(|| f(a)), guard(|| f(fresh)));
            if ra != rf {
                return Some(format!(
                    "expected {}: {} gives {} where a fresh value gives {}",
                    x.show(),
                    name,
                    ra.unwrap_or_else(|| "a panic".into()),
                    rf.unwrap_or_else(|| "a panic".into())
                ));
            }
        }
        for (name, f) in PAIRS {
            let (ra, rf) = (guard(|| f(a, fresh)), guard(|| f(fresh, &fresh.clone())));
            if ra != rf {
                return Some(format!(
                    "expected {}: ({}) against a fresh value is {:?}, fresh against fresh {:?}",
                    x.show(),
                    name,
                    ra,
                    rf
                ));
            }
        }
        // Finally the projections themselves: some must show the value.
        if score(a, x) < 2 {
            return Some(format!("expected {}: projections disagree with it", x.show()));
        }
        None
    }
}

/// All a value shows of itself.
pub fn portrait(a: &ApInt) -> Vec<Option<String>> {
    OBSERVERS.iter().map(|(_, f)| guard(|| f(a))).collect()
}

/// What a value shows of itself bit by bit.
pub fn read(a: &ApInt) -> Option<Val> {
    guard(|| {
        let w = a.width().to_usize();
        let mut mag = vec![0u64; (w + 63) / 64];
        for i in 0..w {
            if a.get_bit_at(i).unwrap() {
                mag[i / 64] |= 1 << (i % 64);
            }
        }
        while mag.last() == Some(&0) {
            mag.pop();
        }
        Val { w, v: Big { neg: false, mag } }
    })
}

/// The value an ApInt shows, for messages.
pub fn show(a: &ApInt) -> String {
    guard(|| format!("<{} bits: 0x{:x}>", a.width().to_usize(), a))
        .unwrap_or_else(|| "<unprintable>".into())
}
