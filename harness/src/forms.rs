//! The binding of specification calls to the public API: for every abstract
//! call all the ways the API offers to make it.

use crate::big::Big;
use crate::itf::Call;
use crate::observe::from_le_digits;
use apint::{ApInt, BitPos, BitWidth, Error, Int, Radix, ShiftAmount, UInt, Width};
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Unit,
    Bool(bool),
    Num(Big),
    /// `None` of an `Option` of an ordering.
    NoOrder,
    Order(i64),
    Text(String),
    Digits(u64, Vec<u64>),
    /// `None` of an `Option` of a value.
    NoValue,
    /// A value together with nothing said about its width.
    Parsed(Box<ApInt>),
    /// Serialized input was refused.
    Refused,
}

pub type R = Result<Out, Error>;
pub type F = fn(&mut ApInt, &mut ApInt, &Call) -> R;

pub struct Form {
    pub name: &'static str,
    /// Violated preconditions panic (operator traits) instead of returning Err.
    pub panics: bool,
    pub f: F,
}

impl Form {
    pub fn is_core(&self) -> bool {
        self.name.starts_with("ApInt::")
    }
}

fn u(a: &ApInt) -> UInt {
    UInt::from(a.clone())
}
fn i(a: &ApInt) -> Int {
    Int::from(a.clone())
}
pub fn ku(c: &Call) -> usize {
    c.k.to_u64() as usize
}
pub fn kw(c: &Call) -> BitWidth {
    BitWidth::new(ku(c)).expect("the specification asks for valid widths only")
}

/// Runs an assigning operator of a wrapper type; the receiver comes back even if
/// the operator panics.
fn lent<T>(d: &mut ApInt, wrap: fn(&ApInt) -> T, unwrap: fn(T) -> ApInt, f: impl FnOnce(&mut T)) -> Result<Out, Error> {
    let mut x = wrap(d);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut x)));
    *d = unwrap(x);
    match r {
        Ok(()) => Ok(Out::Unit),
        Err(e) => std::panic::resume_unwind(e),
    }
}

macro_rules! form {
    ($v:ident, $name:expr, $panics:expr, $f:expr) => {
        $v.push(Form { name: $name, panics: $panics, f: $f })
    };
}

/// In-place fallible method on the receiver, by the three types.
macro_rules! assign3 {
    ($v:ident, $a:ident, $u:ident, $i:ident) => {
        form!($v, concat!("ApInt::", stringify!($a)), false, |d, s, _| { d.$a(s)?; Ok(Out::Unit) });
        uassign!($v, $u);
        iassign!($v, $i);
    };
}
macro_rules! uassign {
    ($v:ident, $u:ident) => {
        form!($v, concat!("UInt::", stringify!($u)), false, |d, s, _| {
            let mut x = u(d);
            let r = x.$u(&u(s));
            *d = x.into_apint();
            r?;
            Ok(Out::Unit)
        });
    };
}
macro_rules! iassign {
    ($v:ident, $i:ident) => {
        form!($v, concat!("Int::", stringify!($i)), false, |d, s, _| {
            let mut x = i(d);
            let r = x.$i(&i(s));
            *d = x.into_apint();
            r?;
            Ok(Out::Unit)
        });
    };
}
/// Consuming fallible method.
macro_rules! ainto {
    ($v:ident, $a:ident) => {
        form!($v, concat!("ApInt::", stringify!($a)), false, |d, s, _| {
            *d = d.clone().$a(s)?;
            Ok(Out::Unit)
        });
    };
}
macro_rules! uinto {
    ($v:ident, $a:ident) => {
        form!($v, concat!("UInt::", stringify!($a)), false, |d, s, _| {
            *d = u(d).$a(&u(s))?.into_apint();
            Ok(Out::Unit)
        });
    };
}
macro_rules! iinto {
    ($v:ident, $a:ident) => {
        form!($v, concat!("Int::", stringify!($a)), false, |d, s, _| {
            *d = i(d).$a(&i(s))?.into_apint();
            Ok(Out::Unit)
        });
    };
}
/// Binary operators of the three types (or of two).
macro_rules! aop {
    ($v:ident, $op:tt, $opa:tt, $n:expr) => {
        form!($v, concat!("ApInt ", $n), true, |d, s, _| { *d = d.clone() $op &*s; Ok(Out::Unit) });
        form!($v, concat!("ApInt ", $n, "="), true, |d, s, _| { *d $opa &*s; Ok(Out::Unit) });
    };
}
macro_rules! uop {
    ($v:ident, $op:tt, $opa:tt, $n:expr) => {
        form!($v, concat!("UInt ", $n), true, |d, s, _| { *d = (u(d) $op &u(s)).into_apint(); Ok(Out::Unit) });
        form!($v, concat!("UInt ", $n, "="), true, |d, s, _| {
            lent(d, u, UInt::into_apint, |x| *x $opa &u(s))
        });
    };
}
macro_rules! iop {
    ($v:ident, $op:tt, $opa:tt, $n:expr) => {
        form!($v, concat!("Int ", $n), true, |d, s, _| { *d = (i(d) $op &i(s)).into_apint(); Ok(Out::Unit) });
        form!($v, concat!("Int ", $n, "="), true, |d, s, _| {
            lent(d, i, Int::into_apint, |x| *x $opa &i(s))
        });
    };
}
/// Infallible in-place / consuming unary methods.
macro_rules! aun {
    ($v:ident, $m:ident) => {
        form!($v, concat!("ApInt::", stringify!($m)), false, |d, _, _| { d.$m(); Ok(Out::Unit) });
    };
}
macro_rules! uun {
    ($v:ident, $m:ident) => {
        form!($v, concat!("UInt::", stringify!($m)), false, |d, _, _| {
            let mut x = u(d); x.$m(); *d = x.into_apint(); Ok(Out::Unit)
        });
    };
}
macro_rules! iun {
    ($v:ident, $m:ident) => {
        form!($v, concat!("Int::", stringify!($m)), false, |d, _, _| {
            let mut x = i(d); x.$m(); *d = x.into_apint(); Ok(Out::Unit)
        });
    };
}
macro_rules! aunto {
    ($v:ident, $m:ident) => {
        form!($v, concat!("ApInt::", stringify!($m)), false, |d, _, _| { *d = d.clone().$m(); Ok(Out::Unit) });
    };
}
macro_rules! uunto {
    ($v:ident, $m:ident) => {
        form!($v, concat!("UInt::", stringify!($m)), false, |d, _, _| { *d = u(d).$m().into_apint(); Ok(Out::Unit) });
    };
}
macro_rules! iunto {
    ($v:ident, $m:ident) => {
        form!($v, concat!("Int::", stringify!($m)), false, |d, _, _| { *d = i(d).$m().into_apint(); Ok(Out::Unit) });
    };
}
/// Methods taking the small argument.
macro_rules! ak {
    ($v:ident, $m:ident) => {
        form!($v, concat!("ApInt::", stringify!($m)), false, |d, _, c| { d.$m(ku(c))?; Ok(Out::Unit) });
    };
}
macro_rules! uk {
    ($v:ident, $m:ident) => {
        form!($v, concat!("UInt::", stringify!($m)), false, |d, _, c| {
            let mut x = u(d); let r = x.$m(ku(c)); *d = x.into_apint(); r?; Ok(Out::Unit)
        });
    };
}
macro_rules! ik {
    ($v:ident, $m:ident) => {
        form!($v, concat!("Int::", stringify!($m)), false, |d, _, c| {
            let mut x = i(d); let r = x.$m(ku(c)); *d = x.into_apint(); r?; Ok(Out::Unit)
        });
    };
}
macro_rules! akinto {
    ($v:ident, $m:ident) => {
        form!($v, concat!("ApInt::", stringify!($m)), false, |d, _, c| { *d = d.clone().$m(ku(c))?; Ok(Out::Unit) });
    };
}
macro_rules! ukinto {
    ($v:ident, $m:ident) => {
        form!($v, concat!("UInt::", stringify!($m)), false, |d, _, c| { *d = u(d).$m(ku(c))?.into_apint(); Ok(Out::Unit) });
    };
}
macro_rules! ikinto {
    ($v:ident, $m:ident) => {
        form!($v, concat!("Int::", stringify!($m)), false, |d, _, c| { *d = i(d).$m(ku(c))?.into_apint(); Ok(Out::Unit) });
    };
}
/// Queries.
macro_rules! aq {
    ($v:ident, $m:ident, $w:expr) => {
        form!($v, concat!("ApInt::", stringify!($m)), false, |d, _, _| Ok($w(d.$m())));
    };
}
macro_rules! uq {
    ($v:ident, $m:ident, $w:expr) => {
        form!($v, concat!("UInt::", stringify!($m)), false, |d, _, _| Ok($w(u(d).$m())));
    };
}
macro_rules! iq {
    ($v:ident, $m:ident, $w:expr) => {
        form!($v, concat!("Int::", stringify!($m)), false, |d, _, _| Ok($w(i(d).$m())));
    };
}
/// Checked comparisons.
macro_rules! acmp {
    ($v:ident, $m:ident) => {
        form!($v, concat!("ApInt::", stringify!($m)), false, |d, s, _| Ok(Out::Bool(d.$m(s)?)));
    };
}
macro_rules! ucmp {
    ($v:ident, $m:ident, $op:tt) => {
        form!($v, concat!("UInt::", stringify!($m)), false, |d, s, _| Ok(Out::Bool(u(d).$m(&u(s))?)));
    };
}
macro_rules! icmp {
    ($v:ident, $m:ident, $op:tt) => {
        form!($v, concat!("Int::", stringify!($m)), false, |d, s, _| Ok(Out::Bool(i(d).$m(&i(s))?)));
    };
}

fn num(n: usize) -> Out {
    Out::Num(Big::from_u64(n as u64))
}
fn numi(n: i128) -> Out {
    Out::Num(Big::parse(&n.to_string()))
}
fn numu(n: u128) -> Out {
    Out::Num(Big::parse(&n.to_string()))
}
fn numb(b: bool) -> Out {
    Out::Num(Big::from_u64(b as u64))
}

/// A generator replaying a list of outputs; it never repeats one, and asking
/// for more than there are yields a marker value.
pub struct Script {
    pub out: Vec<u64>,
    pub pos: usize,
}
impl rand::RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let r = self.out.get(self.pos).copied().unwrap_or(0x5151_5151_5151_5151);
        self.pos += 1;
        r
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for ch in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            ch.copy_from_slice(&b[..ch.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// A generator that fails (by panicking) after some outputs.
struct Failing(usize);
impl rand::RngCore for Failing {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.0 == 0 {
            std::panic::resume_unwind(Box::new("the generator fails"));
        }
        self.0 -= 1;
        0xA5A5_A5A5_A5A5_A5A5
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for ch in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            ch.copy_from_slice(&b[..ch.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// A writer that takes only some bytes.
struct Narrow(usize);
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            self.0 = 0;
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
/// The text, after writers too small for it were told so.
fn written(t: String, f: &dyn Fn(&mut Narrow) -> std::fmt::Result) -> Out {
    for room in [0, t.len() / 2, t.len() - 1] {
        if f(&mut Narrow(room)).is_ok() {
            return Out::Text(format!("formatting into {} of {} bytes succeeds", room, t.len()));
        }
    }
    if f(&mut Narrow(t.len())).is_err() {
        return Out::Text("formatting fails although there is room".to_string());
    }
    Out::Text(t)
}
fn script(c: &Call, w: usize) -> Script {
    Script { out: c.arg.digits((w + 63) / 64), pos: 0 }
}

pub fn text(c: &Call) -> String {
    c.txt.iter().map(|b| char::from_u32(b.to_u64() as u32).unwrap()).collect()
}
fn txt_digits(c: &Call) -> Vec<u64> {
    c.txt.iter().map(|b| b.to_u64()).collect()
}

fn from_prim(c: &Call, which: usize) -> ApInt {
    let a = &c.arg;
    match (c.k.to_i64(), which) {
        (1, 0) => ApInt::from_bool(a.to_u64() == 1),
        (1, 1) => ApInt::from(a.to_u64() == 1),
        (1, 2) => UInt::from_bool(a.to_u64() == 1).into_apint(),
        (1, 3) => UInt::from(a.to_u64() == 1).into_apint(),
        (1, 4) => Int::from_bool(a.to_u64() == 1).into_apint(),
        (1, _) => Int::from(a.to_u64() == 1).into_apint(),
        (8, 0) => ApInt::from_u8(a.to_u64() as u8),
        (8, 1) => ApInt::from(a.to_u64() as u8),
        (8, 2) => UInt::from_u8(a.to_u64() as u8).into_apint(),
        (8, _) => UInt::from(a.to_u64() as u8).into_apint(),
        (16, 0) => ApInt::from_u16(a.to_u64() as u16),
        (16, 1) => ApInt::from(a.to_u64() as u16),
        (16, 2) => UInt::from_u16(a.to_u64() as u16).into_apint(),
        (16, _) => UInt::from(a.to_u64() as u16).into_apint(),
        (32, 0) => ApInt::from_u32(a.to_u64() as u32),
        (32, 1) => ApInt::from(a.to_u64() as u32),
        (32, 2) => UInt::from_u32(a.to_u64() as u32).into_apint(),
        (32, _) => UInt::from(a.to_u64() as u32).into_apint(),
        (64, 0) => ApInt::from_u64(a.to_u64()),
        (64, 1) => ApInt::from(a.to_u64()),
        (64, 2) => UInt::from_u64(a.to_u64()).into_apint(),
        (64, _) => UInt::from(a.to_u64()).into_apint(),
        (128, 0) => ApInt::from_u128(a.to_u128()),
        (128, 1) => ApInt::from(a.to_u128()),
        (128, 2) => UInt::from_u128(a.to_u128()).into_apint(),
        (128, _) => UInt::from(a.to_u128()).into_apint(),
        (-8, 0) => ApInt::from_i8(a.to_i64() as i8),
        (-8, 1) => ApInt::from(a.to_i64() as i8),
        (-8, 2) => Int::from_i8(a.to_i64() as i8).into_apint(),
        (-8, _) => Int::from(a.to_i64() as i8).into_apint(),
        (-16, 0) => ApInt::from_i16(a.to_i64() as i16),
        (-16, 1) => ApInt::from(a.to_i64() as i16),
        (-16, 2) => Int::from_i16(a.to_i64() as i16).into_apint(),
        (-16, _) => Int::from(a.to_i64() as i16).into_apint(),
        (-32, 0) => ApInt::from_i32(a.to_i64() as i32),
        (-32, 1) => ApInt::from(a.to_i64() as i32),
        (-32, 2) => Int::from_i32(a.to_i64() as i32).into_apint(),
        (-32, _) => Int::from(a.to_i64() as i32).into_apint(),
        (-64, 0) => ApInt::from_i64(a.to_i128() as i64),
        (-64, 1) => ApInt::from(a.to_i128() as i64),
        (-64, 2) => Int::from_i64(a.to_i128() as i64).into_apint(),
        (-64, _) => Int::from(a.to_i128() as i64).into_apint(),
        (-128, 0) => ApInt::from_i128(a.to_i128()),
        (-128, 1) => ApInt::from(a.to_i128()),
        (-128, 2) => Int::from_i128(a.to_i128()).into_apint(),
        (-128, _) => Int::from(a.to_i128()).into_apint(),
        other => unreachable!("no primitive type {:?}", other),
    }
}

fn be_i<const N: usize>(c: &Call) -> [i64; N] {
    let le = c.arg.digits(N);
    let mut a = [0i64; N];
    for (j, d) in le.iter().enumerate() {
        a[N - 1 - j] = *d as i64;
    }
    a
}
fn be_u<const N: usize>(c: &Call) -> [u64; N] {
    let le = c.arg.digits(N);
    let mut a = [0u64; N];
    for (j, d) in le.iter().enumerate() {
        a[N - 1 - j] = *d;
    }
    a
}
fn from_arr(c: &Call, which: usize) -> ApInt {
    macro_rules! n {
        ($n:expr) => {
            match which {
                1 => ApInt::from(be_i::<$n>(c)),
                2 => UInt::from(be_u::<$n>(c)).into_apint(),
                _ => Int::from(be_i::<$n>(c)).into_apint(),
            }
        };
    }
    if which == 0 {
        return from_le_digits(&c.arg.digits(ku(c))).unwrap();
    }
    match ku(c) {
        2 => n!(2),
        3 => n!(3),
        4 => n!(4),
        5 => n!(5),
        6 => n!(6),
        7 => n!(7),
        8 => n!(8),
        16 => n!(16),
        32 => n!(32),
        k => unreachable!("no array of {}", k),
    }
}

fn resize_a(d: &ApInt, k: i64) -> Out {
    match k {
        1 => numb(d.resize_to_bool()),
        8 => numu(d.resize_to_u8() as u128),
        16 => numu(d.resize_to_u16() as u128),
        32 => numu(d.resize_to_u32() as u128),
        64 => numu(d.resize_to_u64() as u128),
        128 => numu(d.resize_to_u128()),
        -8 => numi(d.resize_to_i8() as i128),
        -16 => numi(d.resize_to_i16() as i128),
        -32 => numi(d.resize_to_i32() as i128),
        -64 => numi(d.resize_to_i64() as i128),
        _ => numi(d.resize_to_i128()),
    }
}
fn resize_w(d: &ApInt, k: i64) -> Out {
    match k {
        1 => numb(u(d).resize_to_bool()),
        8 => numu(u(d).resize_to_u8() as u128),
        16 => numu(u(d).resize_to_u16() as u128),
        32 => numu(u(d).resize_to_u32() as u128),
        64 => numu(u(d).resize_to_u64() as u128),
        128 => numu(u(d).resize_to_u128()),
        -8 => numi(i(d).resize_to_i8() as i128),
        -16 => numi(i(d).resize_to_i16() as i128),
        -32 => numi(i(d).resize_to_i32() as i128),
        -64 => numi(i(d).resize_to_i64() as i128),
        _ => numi(i(d).resize_to_i128()),
    }
}
fn try_a(d: &ApInt, k: i64) -> R {
    Ok(match k {
        1 => numb(d.try_to_bool()?),
        8 => numu(d.try_to_u8()? as u128),
        16 => numu(d.try_to_u16()? as u128),
        32 => numu(d.try_to_u32()? as u128),
        64 => numu(d.try_to_u64()? as u128),
        128 => numu(d.try_to_u128()?),
        -8 => numi(d.try_to_i8()? as i128),
        -16 => numi(d.try_to_i16()? as i128),
        -32 => numi(d.try_to_i32()? as i128),
        -64 => numi(d.try_to_i64()? as i128),
        _ => numi(d.try_to_i128()?),
    })
}
fn try_u(d: &ApInt, k: i64) -> R {
    Ok(match k {
        1 => numb(u(d).try_to_bool()?),
        8 => numu(u(d).try_to_u8()? as u128),
        16 => numu(u(d).try_to_u16()? as u128),
        32 => numu(u(d).try_to_u32()? as u128),
        64 => numu(u(d).try_to_u64()? as u128),
        _ => numu(u(d).try_to_u128()?),
    })
}
fn try_i(d: &ApInt, k: i64) -> R {
    Ok(match k {
        1 => numb(i(d).try_to_bool()?),
        -8 => numi(i(d).try_to_i8()? as i128),
        -16 => numi(i(d).try_to_i16()? as i128),
        -32 => numi(i(d).try_to_i32()? as i128),
        -64 => numi(i(d).try_to_i64()? as i128),
        _ => numi(i(d).try_to_i128()?),
    })
}

fn ord(o: Option<Ordering>) -> Out {
    match o {
        None => Out::NoOrder,
        Some(Ordering::Less) => Out::Order(-1),
        Some(Ordering::Equal) => Out::Order(0),
        Some(Ordering::Greater) => Out::Order(1),
    }
}
/// An ordering read off the four comparison operators.
fn ord_ops(lt: bool, le: bool, gt: bool, ge: bool) -> Out {
    match (lt, le, gt, ge) {
        (false, false, false, false) => Out::NoOrder,
        (true, true, false, false) => Out::Order(-1),
        (false, true, false, true) => Out::Order(0),
        (false, false, true, true) => Out::Order(1),
        other => Out::Text(format!("inconsistent < <= > >=: {:?}", other)),
    }
}

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn forms(op: &str) -> Vec<Form> {
    let mut v: Vec<Form> = Vec::new();
    match op {
        "add" => {
            assign3!(v, wrapping_add_assign, wrapping_add_assign, wrapping_add_assign);
            ainto!(v, into_wrapping_add); uinto!(v, into_wrapping_add); iinto!(v, into_wrapping_add);
            aop!(v, +, +=, "+"); uop!(v, +, +=, "+"); iop!(v, +, +=, "+");
        }
        "sub" => {
            assign3!(v, wrapping_sub_assign, wrapping_sub_assign, wrapping_sub_assign);
            ainto!(v, into_wrapping_sub); uinto!(v, into_wrapping_sub); iinto!(v, into_wrapping_sub);
            aop!(v, -, -=, "-"); uop!(v, -, -=, "-"); iop!(v, -, -=, "-");
        }
        "mul" => {
            assign3!(v, wrapping_mul_assign, wrapping_mul_assign, wrapping_mul_assign);
            ainto!(v, into_wrapping_mul); uinto!(v, into_wrapping_mul); iinto!(v, into_wrapping_mul);
            aop!(v, *, *=, "*"); uop!(v, *, *=, "*"); iop!(v, *, *=, "*");
        }
        "and" => {
            assign3!(v, bitand_assign, bitand_assign, bitand_assign);
            ainto!(v, into_bitand); uinto!(v, into_bitand); iinto!(v, into_bitand);
            aop!(v, &, &=, "&"); uop!(v, &, &=, "&"); iop!(v, &, &=, "&");
        }
        "or" => {
            assign3!(v, bitor_assign, bitor_assign, bitor_assign);
            ainto!(v, into_bitor); uinto!(v, into_bitor); iinto!(v, into_bitor);
            aop!(v, |, |=, "|"); uop!(v, |, |=, "|"); iop!(v, |, |=, "|");
        }
        "xor" => {
            assign3!(v, bitxor_assign, bitxor_assign, bitxor_assign);
            ainto!(v, into_bitxor); uinto!(v, into_bitxor); iinto!(v, into_bitxor);
            aop!(v, ^, ^=, "^"); uop!(v, ^, ^=, "^"); iop!(v, ^, ^=, "^");
        }
        "udiv" => {
            form!(v, "ApInt::wrapping_udiv_assign", false, |d, s, _| { d.wrapping_udiv_assign(s)?; Ok(Out::Unit) });
            ainto!(v, into_wrapping_udiv);
            uassign!(v, wrapping_div_assign); uinto!(v, into_wrapping_div); uop!(v, /, /=, "/");
        }
        "urem" => {
            form!(v, "ApInt::wrapping_urem_assign", false, |d, s, _| { d.wrapping_urem_assign(s)?; Ok(Out::Unit) });
            ainto!(v, into_wrapping_urem);
            uassign!(v, wrapping_rem_assign); uinto!(v, into_wrapping_rem); uop!(v, %, %=, "%");
        }
        "sdiv" => {
            form!(v, "ApInt::wrapping_sdiv_assign", false, |d, s, _| { d.wrapping_sdiv_assign(s)?; Ok(Out::Unit) });
            ainto!(v, into_wrapping_sdiv);
            iassign!(v, wrapping_div_assign); iinto!(v, into_wrapping_div); iop!(v, /, /=, "/");
        }
        "srem" => {
            form!(v, "ApInt::wrapping_srem_assign", false, |d, s, _| { d.wrapping_srem_assign(s)?; Ok(Out::Unit) });
            ainto!(v, into_wrapping_srem);
            iassign!(v, wrapping_rem_assign); iinto!(v, into_wrapping_rem); iop!(v, %, %=, "%");
        }
        "udivrem" => form!(v, "ApInt::wrapping_udivrem_assign", false, |d, s, _| { ApInt::wrapping_udivrem_assign(d, s)?; Ok(Out::Unit) }),
        "uremdiv" => form!(v, "ApInt::wrapping_uremdiv_assign", false, |d, s, _| { ApInt::wrapping_uremdiv_assign(d, s)?; Ok(Out::Unit) }),
        "sdivrem" => form!(v, "ApInt::wrapping_sdivrem_assign", false, |d, s, _| { ApInt::wrapping_sdivrem_assign(d, s)?; Ok(Out::Unit) }),
        "sremdiv" => form!(v, "ApInt::wrapping_sremdiv_assign", false, |d, s, _| { ApInt::wrapping_sremdiv_assign(d, s)?; Ok(Out::Unit) }),
        "neg" => {
            aun!(v, wrapping_neg); aunto!(v, into_wrapping_neg);
            uun!(v, wrapping_neg); uunto!(v, into_wrapping_neg);
            iun!(v, wrapping_neg); iunto!(v, into_wrapping_neg);
            form!(v, "ApInt unary -", false, |d, _, _| { *d = -d.clone(); Ok(Out::Unit) });
            form!(v, "UInt unary -", false, |d, _, _| { *d = (-u(d)).into_apint(); Ok(Out::Unit) });
            form!(v, "Int unary -", false, |d, _, _| { *d = (-i(d)).into_apint(); Ok(Out::Unit) });
        }
        "inc" => { aun!(v, wrapping_inc); aunto!(v, into_wrapping_inc); }
        "dec" => { aun!(v, wrapping_dec); aunto!(v, into_wrapping_dec); }
        "abs" => { iun!(v, wrapping_abs); iunto!(v, into_abs); }
        "not" => {
            aun!(v, bitnot); aunto!(v, into_bitnot);
            uun!(v, bitnot); uunto!(v, into_bitnot);
            iun!(v, bitnot); iunto!(v, into_bitnot);
            form!(v, "ApInt !", false, |d, _, _| { *d = !d.clone(); Ok(Out::Unit) });
            form!(v, "UInt !", false, |d, _, _| { *d = (!u(d)).into_apint(); Ok(Out::Unit) });
            form!(v, "Int !", false, |d, _, _| { *d = (!i(d)).into_apint(); Ok(Out::Unit) });
        }
        "set_all" => { aun!(v, set_all); uun!(v, set_all); iun!(v, set_all); }
        "unset_all" => { aun!(v, unset_all); uun!(v, unset_all); iun!(v, unset_all); }
        "flip_all" => { aun!(v, flip_all); uun!(v, flip_all); iun!(v, flip_all); }
        "set_msb" => { aun!(v, set_msb); iun!(v, set_msb); }
        "unset_msb" => { aun!(v, unset_msb); iun!(v, unset_msb); }
        "flip_msb" => { aun!(v, flip_msb); iun!(v, flip_msb); }
        "get_bit" => {
            form!(v, "ApInt::get_bit_at", false, |d, _, c| Ok(Out::Bool(d.get_bit_at(ku(c))?)));
            form!(v, "UInt::get_bit_at", false, |d, _, c| Ok(Out::Bool(u(d).get_bit_at(ku(c))?)));
            form!(v, "Int::get_bit_at", false, |d, _, c| Ok(Out::Bool(i(d).get_bit_at(ku(c))?)));
        }
        "set_bit" => { ak!(v, set_bit_at); uk!(v, set_bit_at); ik!(v, set_bit_at); }
        "unset_bit" => { ak!(v, unset_bit_at); uk!(v, unset_bit_at); ik!(v, unset_bit_at); }
        "flip_bit" => { ak!(v, flip_bit_at); uk!(v, flip_bit_at); ik!(v, flip_bit_at); }
        "shl" => {
            ak!(v, wrapping_shl_assign); akinto!(v, into_wrapping_shl);
            uk!(v, wrapping_shl_assign); ukinto!(v, into_wrapping_shl);
            ik!(v, wrapping_shl_assign); ikinto!(v, into_wrapping_shl);
            form!(v, "ApInt <<", true, |d, _, c| { *d = d.clone() << ku(c); Ok(Out::Unit) });
            form!(v, "ApInt <<=", true, |d, _, c| { *d <<= ku(c); Ok(Out::Unit) });
            form!(v, "UInt <<", true, |d, _, c| { *d = (u(d) << ku(c)).into_apint(); Ok(Out::Unit) });
            form!(v, "UInt <<=", true, |d, _, c| { lent(d, u, UInt::into_apint, |x| *x <<= ku(c)) });
            form!(v, "Int <<", true, |d, _, c| { *d = (i(d) << ku(c)).into_apint(); Ok(Out::Unit) });
            form!(v, "Int <<=", true, |d, _, c| { lent(d, i, Int::into_apint, |x| *x <<= ku(c)) });
        }
        "lshr" => {
            ak!(v, wrapping_lshr_assign); akinto!(v, into_wrapping_lshr);
            uk!(v, wrapping_shr_assign); ukinto!(v, into_wrapping_shr);
            form!(v, "UInt >>", true, |d, _, c| { *d = (u(d) >> ku(c)).into_apint(); Ok(Out::Unit) });
            form!(v, "UInt >>=", true, |d, _, c| { lent(d, u, UInt::into_apint, |x| *x >>= ku(c)) });
        }
        "ashr" => {
            ak!(v, wrapping_ashr_assign); akinto!(v, into_wrapping_ashr);
            ik!(v, wrapping_shr_assign); ikinto!(v, into_wrapping_shr);
            form!(v, "Int >>", true, |d, _, c| { *d = (i(d) >> ku(c)).into_apint(); Ok(Out::Unit) });
            form!(v, "Int >>=", true, |d, _, c| { lent(d, i, Int::into_apint, |x| *x >>= ku(c)) });
        }
        "trunc" => {
            ak!(v, truncate); akinto!(v, into_truncate);
            uk!(v, truncate); ukinto!(v, into_truncate);
            ik!(v, truncate); ikinto!(v, into_truncate);
        }
        "zext" => {
            ak!(v, zero_extend); akinto!(v, into_zero_extend);
            uk!(v, extend); ukinto!(v, into_extend);
        }
        "sext" => {
            ak!(v, sign_extend); akinto!(v, into_sign_extend);
            ik!(v, extend); ikinto!(v, into_extend);
        }
        "zresize" => {
            form!(v, "ApInt::zero_resize", false, |d, _, c| { d.zero_resize(ku(c)); Ok(Out::Unit) });
            form!(v, "ApInt::into_zero_resize", false, |d, _, c| { *d = d.clone().into_zero_resize(ku(c)); Ok(Out::Unit) });
            form!(v, "UInt::resize", false, |d, _, c| { let mut x = u(d); x.resize(ku(c)); *d = x.into_apint(); Ok(Out::Unit) });
            form!(v, "UInt::into_resize", false, |d, _, c| { *d = u(d).into_resize(ku(c)).into_apint(); Ok(Out::Unit) });
        }
        "sresize" => {
            form!(v, "ApInt::sign_resize", false, |d, _, c| { d.sign_resize(ku(c)); Ok(Out::Unit) });
            form!(v, "ApInt::into_sign_resize", false, |d, _, c| { *d = d.clone().into_sign_resize(ku(c)); Ok(Out::Unit) });
            form!(v, "Int::resize", false, |d, _, c| { let mut x = i(d); x.resize(ku(c)); *d = x.into_apint(); Ok(Out::Unit) });
            form!(v, "Int::into_resize", false, |d, _, c| { *d = i(d).into_resize(ku(c)).into_apint(); Ok(Out::Unit) });
        }
        "assign" => {
            form!(v, "ApInt::assign", false, |d, s, _| { d.assign(s); Ok(Out::Unit) });
            form!(v, "UInt::assign", false, |d, s, _| { let mut x = u(d); x.assign(&u(s)); *d = x.into_apint(); Ok(Out::Unit) });
            form!(v, "Int::assign", false, |d, s, _| { let mut x = i(d); x.assign(&i(s)); *d = x.into_apint(); Ok(Out::Unit) });
        }
        "strict_assign" => { assign3!(v, strict_assign, strict_assign, strict_assign); }
        "clone" => {
            form!(v, "ApInt::clone", false, |d, s, _| { *d = s.clone(); Ok(Out::Unit) });
            form!(v, "ApInt::clone_from", false, |d, s, _| { d.clone_from(s); Ok(Out::Unit) });
            form!(v, "UInt::clone", false, |d, s, _| { let x = u(s); *d = x.clone().into_apint(); Ok(Out::Unit) });
            form!(v, "Int::clone", false, |d, s, _| { let x = i(s); *d = x.clone().into_apint(); Ok(Out::Unit) });
            form!(v, "UInt::into_signed", false, |d, s, _| { *d = u(s).into_signed().into_apint(); Ok(Out::Unit) });
            form!(v, "Int::into_unsigned", false, |d, s, _| { *d = i(s).into_unsigned().into_apint(); Ok(Out::Unit) });
        }
        "ult" => { acmp!(v, checked_ult); ucmp!(v, checked_lt, <); }
        "ule" => { acmp!(v, checked_ule); ucmp!(v, checked_le, <=); }
        "ugt" => { acmp!(v, checked_ugt); ucmp!(v, checked_gt, >); }
        "uge" => { acmp!(v, checked_uge); ucmp!(v, checked_ge, >=); }
        "slt" => { acmp!(v, checked_slt); icmp!(v, checked_lt, <); }
        "sle" => { acmp!(v, checked_sle); icmp!(v, checked_le, <=); }
        "sgt" => { acmp!(v, checked_sgt); icmp!(v, checked_gt, >); }
        "sge" => { acmp!(v, checked_sge); icmp!(v, checked_ge, >=); }
        "eq" => {
            form!(v, "ApInt::eq", false, |d, s, _| Ok(Out::Bool(*d == *s)));
            form!(v, "ApInt::ne", false, |d, s, _| Ok(Out::Bool(!(*d != *s))));
            form!(v, "ApInt::eq flipped", false, |d, s, _| Ok(Out::Bool(*s == *d)));
            form!(v, "UInt::eq", false, |d, s, _| Ok(Out::Bool(u(d) == u(s))));
            form!(v, "Int::eq", false, |d, s, _| Ok(Out::Bool(i(d) == i(s))));
            // Equal values hash alike (unequal ones almost never do).
            form!(v, "ApInt::hash", false, |d, s, _| Ok(Out::Bool(hash_of(d) == hash_of(s))));
            form!(v, "UInt::hash", false, |d, s, _| Ok(Out::Bool(hash_of(&u(d)) == hash_of(&u(s)))));
            form!(v, "Int::hash", false, |d, s, _| Ok(Out::Bool(hash_of(&i(d)) == hash_of(&i(s)))));
        }
        "ucmp" => {
            form!(v, "UInt::partial_cmp", false, |d, s, _| Ok(ord(u(d).partial_cmp(&u(s)))));
            form!(v, "UInt < <= > >=", false, |d, s, _| {
                let (a, b) = (u(d), u(s));
                Ok(ord_ops(a < b, a <= b, a > b, a >= b))
            });
        }
        "scmp" => {
            form!(v, "Int::partial_cmp", false, |d, s, _| Ok(ord(i(d).partial_cmp(&i(s)))));
            form!(v, "Int < <= > >=", false, |d, s, _| {
                let (a, b) = (i(d), i(s));
                Ok(ord_ops(a < b, a <= b, a > b, a >= b))
            });
        }
        "is_zero" => { aq!(v, is_zero, Out::Bool); uq!(v, is_zero, Out::Bool); iq!(v, is_zero, Out::Bool); }
        "is_one" => { uq!(v, is_one, Out::Bool); }
        "s_is_one" => { iq!(v, is_one, Out::Bool); }
        "is_even" => { aq!(v, is_even, Out::Bool); uq!(v, is_even, Out::Bool); iq!(v, is_even, Out::Bool); }
        "is_odd" => { aq!(v, is_odd, Out::Bool); uq!(v, is_odd, Out::Bool); iq!(v, is_odd, Out::Bool); }
        "msb" => { aq!(v, msb, Out::Bool); iq!(v, msb, Out::Bool); }
        "lsb" => { aq!(v, lsb, Out::Bool); }
        "is_all_set" => { aq!(v, is_all_set, Out::Bool); uq!(v, is_all_set, Out::Bool); iq!(v, is_all_set, Out::Bool); }
        "is_all_unset" => { aq!(v, is_all_unset, Out::Bool); uq!(v, is_all_unset, Out::Bool); iq!(v, is_all_unset, Out::Bool); }
        "is_positive" => { iq!(v, is_positive, Out::Bool); }
        "is_negative" => { iq!(v, is_negative, Out::Bool); }
        "signum" => { iq!(v, signum, |n: i8| numi(n as i128)); }
        "count_ones" => { aq!(v, count_ones, num); uq!(v, count_ones, num); iq!(v, count_ones, num); }
        "count_zeros" => { aq!(v, count_zeros, num); uq!(v, count_zeros, num); iq!(v, count_zeros, num); }
        "leading_zeros" => { aq!(v, leading_zeros, num); uq!(v, leading_zeros, num); iq!(v, leading_zeros, num); }
        "trailing_zeros" => { aq!(v, trailing_zeros, num); uq!(v, trailing_zeros, num); iq!(v, trailing_zeros, num); }
        "width" => {
            aq!(v, width, |w: BitWidth| num(w.to_usize()));
            uq!(v, width, |w: BitWidth| num(w.to_usize()));
            iq!(v, width, |w: BitWidth| num(w.to_usize()));
        }
        "resize_to" => {
            form!(v, "ApInt::resize_to", false, |d, _, c| Ok(resize_a(d, c.k.to_i64())));
            form!(v, "UInt/Int::resize_to", false, |d, _, c| Ok(resize_w(d, c.k.to_i64())));
            form!(v, "Int::resize_to_bool", false, |d, _, c| Ok(if c.k.to_i64() == 1 {
                numb(i(d).resize_to_bool())
            } else {
                resize_w(d, c.k.to_i64())
            }));
        }
        "try_to" => {
            form!(v, "ApInt::try_to", false, |d, _, c| try_a(d, c.k.to_i64()));
            form!(v, "UInt::try_to", false, |d, _, c| if c.k.to_i64() > 0 { try_u(d, c.k.to_i64()) } else { try_a(d, c.k.to_i64()) });
            form!(v, "Int::try_to_bool", false, |d, _, c| if c.k.to_i64() == 1 { try_i(d, 1) } else { try_a(d, c.k.to_i64()) });
        }
        "s_try_to" => form!(v, "Int::try_to", false, |d, _, c| try_i(d, c.k.to_i64())),
        "from_prim" => {
            form!(v, "ApInt::from_primitive", false, |d, _, c| { *d = from_prim(c, 0); Ok(Out::Unit) });
            form!(v, "ApInt: From", false, |d, _, c| { *d = from_prim(c, 1); Ok(Out::Unit) });
            form!(v, "UInt/Int::from_primitive", false, |d, _, c| { *d = from_prim(c, 2); Ok(Out::Unit) });
            form!(v, "UInt/Int: From", false, |d, _, c| { *d = from_prim(c, 3); Ok(Out::Unit) });
            form!(v, "Int::from_bool", false, |d, _, c| { *d = from_prim(c, 4); Ok(Out::Unit) });
            form!(v, "Int: From<bool>", false, |d, _, c| { *d = from_prim(c, 5); Ok(Out::Unit) });
        }
        "from_arr" => {
            form!(v, "ApInt::from [u64]", false, |d, _, c| { *d = from_arr(c, 0); Ok(Out::Unit) });
            form!(v, "ApInt::from [i64]", false, |d, _, c| { *d = from_arr(c, 1); Ok(Out::Unit) });
            form!(v, "UInt: From<[u64]>", false, |d, _, c| { *d = from_arr(c, 2); Ok(Out::Unit) });
            form!(v, "Int: From<[i64]>", false, |d, _, c| { *d = from_arr(c, 3); Ok(Out::Unit) });
        }
        "zero" => {
            form!(v, "ApInt::zero", false, |d, _, c| { *d = ApInt::zero(kw(c)); Ok(Out::Unit) });
            form!(v, "UInt::zero", false, |d, _, c| { *d = UInt::zero(kw(c)).into_apint(); Ok(Out::Unit) });
            form!(v, "Int::zero", false, |d, _, c| { *d = Int::zero(kw(c)).into_apint(); Ok(Out::Unit) });
        }
        "one" => {
            form!(v, "ApInt::one", false, |d, _, c| { *d = ApInt::one(kw(c)); Ok(Out::Unit) });
            form!(v, "UInt::one", false, |d, _, c| { *d = UInt::one(kw(c)).into_apint(); Ok(Out::Unit) });
        }
        "s_one" => form!(v, "Int::one", false, |d, _, c| match Int::one(kw(c)) {
            None => Ok(Out::NoValue),
            Some(x) => { *d = x.into_apint(); Ok(Out::Unit) }
        }),
        "all_set" => {
            form!(v, "ApInt::all_set", false, |d, _, c| { *d = ApInt::all_set(kw(c)); Ok(Out::Unit) });
            form!(v, "UInt::all_set", false, |d, _, c| { *d = UInt::all_set(kw(c)).into_apint(); Ok(Out::Unit) });
            form!(v, "Int::all_set", false, |d, _, c| { *d = Int::all_set(kw(c)).into_apint(); Ok(Out::Unit) });
        }
        "all_unset" => {
            form!(v, "ApInt::all_unset", false, |d, _, c| { *d = ApInt::all_unset(kw(c)); Ok(Out::Unit) });
            form!(v, "UInt::all_unset", false, |d, _, c| { *d = UInt::all_unset(kw(c)).into_apint(); Ok(Out::Unit) });
            form!(v, "Int::all_unset", false, |d, _, c| { *d = Int::all_unset(kw(c)).into_apint(); Ok(Out::Unit) });
        }
        "umin" => {
            form!(v, "ApInt::unsigned_min_value", false, |d, _, c| { *d = ApInt::unsigned_min_value(kw(c)); Ok(Out::Unit) });
            form!(v, "UInt::min_value", false, |d, _, c| { *d = UInt::min_value(kw(c)).into_apint(); Ok(Out::Unit) });
        }
        "umax" => {
            form!(v, "ApInt::unsigned_max_value", false, |d, _, c| { *d = ApInt::unsigned_max_value(kw(c)); Ok(Out::Unit) });
            form!(v, "UInt::max_value", false, |d, _, c| { *d = UInt::max_value(kw(c)).into_apint(); Ok(Out::Unit) });
        }
        "smin" => {
            form!(v, "ApInt::signed_min_value", false, |d, _, c| { *d = ApInt::signed_min_value(kw(c)); Ok(Out::Unit) });
            form!(v, "Int::min_value", false, |d, _, c| { *d = Int::min_value(kw(c)).into_apint(); Ok(Out::Unit) });
        }
        "smax" => {
            form!(v, "ApInt::signed_max_value", false, |d, _, c| { *d = ApInt::signed_max_value(kw(c)); Ok(Out::Unit) });
            form!(v, "Int::max_value", false, |d, _, c| { *d = Int::max_value(kw(c)).into_apint(); Ok(Out::Unit) });
        }
        "parse" => {
            form!(v, "ApInt::from_str_radix", false, |_, _, c| {
                Ok(Out::Parsed(Box::new(ApInt::from_str_radix(ku(c) as u8, text(c))?)))
            });
            form!(v, "ApInt::from_str_radix (Radix, &str)", false, |_, _, c| {
                let t = text(c);
                Ok(Out::Parsed(Box::new(ApInt::from_str_radix(Radix::new(ku(c) as u8)?, t.as_str())?)))
            });
        }
        "fmt_bin" => {
            form!(v, "ApInt::fmt Binary", false, |d, _, _| Ok(Out::Text(format!("{:b}", d))));
            form!(v, "Binary into a writer", false, |d, _, _| {
                use std::fmt::Write;
                let d = &*d;
                Ok(written(format!("{:b}", d), &|w| write!(w, "{:b}", d)))
            });
            form!(v, "UInt Binary", false, |d, _, _| Ok(Out::Text(format!("{:b}", u(d)))));
            form!(v, "Int Binary", false, |d, _, _| Ok(Out::Text(format!("{:b}", i(d)))));
        }
        // Octal output may be unimplemented.
        "fmt_oct" => {
            fn oct(f: impl FnOnce() -> String) -> R {
                Ok(crate::observe::guard(f).map_or(Out::Refused, Out::Text))
            }
            form!(v, "ApInt::fmt Octal", false, |d, _, _| oct(|| format!("{:o}", d)));
            form!(v, "UInt Octal", false, |d, _, _| oct(|| format!("{:o}", u(d))));
            form!(v, "Int Octal", false, |d, _, _| oct(|| format!("{:o}", i(d))));
        }
        "fmt_lhex" => {
            form!(v, "ApInt::fmt LowerHex", false, |d, _, _| Ok(Out::Text(format!("{:x}", d))));
            form!(v, "LowerHex into a writer", false, |d, _, _| {
                use std::fmt::Write;
                let d = &*d;
                Ok(written(format!("{:x}", d), &|w| write!(w, "{:x}", d)))
            });
            form!(v, "UInt LowerHex", false, |d, _, _| Ok(Out::Text(format!("{:x}", u(d)))));
            form!(v, "Int LowerHex", false, |d, _, _| Ok(Out::Text(format!("{:x}", i(d)))));
        }
        "fmt_uhex" => {
            form!(v, "ApInt::fmt UpperHex", false, |d, _, _| Ok(Out::Text(format!("{:X}", d))));
            form!(v, "UpperHex into a writer", false, |d, _, _| {
                use std::fmt::Write;
                let d = &*d;
                Ok(written(format!("{:X}", d), &|w| write!(w, "{:X}", d)))
            });
            form!(v, "UInt UpperHex", false, |d, _, _| Ok(Out::Text(format!("{:X}", u(d)))));
            form!(v, "Int UpperHex", false, |d, _, _| Ok(Out::Text(format!("{:X}", i(d)))));
        }
        "ser" => {
            form!(v, "ApInt::serialize human-readable", false, |d, _, _| {
                Ok(crate::shapes::read_json(&serde_json::to_string(d).unwrap()))
            });
            form!(v, "ApInt::serialize compact", false, |d, _, _| {
                Ok(crate::shapes::read_bincode(&bincode::serialize(d).unwrap()))
            });
            form!(v, "ApInt::serialize to a value, pretty, borrowed", false, |d, _, _| {
                let a = crate::shapes::read_json(&serde_json::to_value(&*d).unwrap().to_string());
                let b = crate::shapes::read_json(&String::from_utf8(serde_json::to_vec_pretty(&&*d).unwrap()).unwrap());
                Ok(if a == b { a } else { Out::Text("a JSON value differs from JSON text".to_string()) })
            });
            form!(v, "ApInt::serialize several in a row", false, |d, s, c| {
                let l: Vec<ApInt> = serde_json::from_str(&serde_json::to_string(&[&*d, &*s, &*d]).unwrap()).unwrap();
                let (x, y, z): (ApInt, ApInt, ApInt) = bincode::deserialize(&bincode::serialize(&(&*d, &*s, &*d)).unwrap()).unwrap();
                if l.len() != 3 || l[0] != x || l[1] != y || l[2] != z || y != *s || x != z {
                    return Ok(Out::Text("a list of integers does not round-trip".to_string()));
                }
                *d = x;
                (forms("ser")[0].f)(d, s, c)
            });
            form!(v, "ApInt::deserialize of a cut off text", false, |d, s, c| {
                let b = bincode::serialize(&*d).unwrap();
                let j = serde_json::to_string(&*d).unwrap();
                for n in [0, 1, 4, 8, 12, 16, 20, 24, b.len() / 2, b.len() - 8, b.len() - 1] {
                    if n < b.len() && bincode::deserialize::<ApInt>(&b[..n]).is_ok() {
                        return Ok(Out::Text(format!("{} of {} bytes were accepted", n, b.len())));
                    }
                }
                // a number of digits or a width that the input cannot have
                for (at, n) in [(8, 1 << 62), (8, u64::MAX), (8, 1 << 61), (8, (b.len() as u64 - 16) / 8 + 1), (8, 0),
                    (0, u64::MAX), (0, 1 << 63), (0, (1 << 63) - 1), (0, u64::MAX - 63), (0, 0)] {
                    let mut f = b.clone();
                    f[at..at + 8].copy_from_slice(&n.to_le_bytes());
                    let t = if at == 0 { j.replacen(&format!("[{}]", d.width().to_usize()), &format!("[{}]", n), 1) } else { "{}".to_string() };
                    if bincode::deserialize::<ApInt>(&f).is_ok() || serde_json::from_str::<ApInt>(&t).is_ok() {
                        return Ok(Out::Text(format!("{} in place {} was accepted", n, at)));
                    }
                }
                for n in [0, 1, 9, 12, 13, 14, 24, j.len() / 2, j.len() - 2, j.len() - 1] {
                    if n < j.len() && serde_json::from_str::<ApInt>(&j[..n]).is_ok() {
                        return Ok(Out::Text(format!("{} of {} characters were accepted", n, j.len())));
                    }
                }
                (forms("ser")[0].f)(d, s, c)
            });
            form!(v, "BitWidth::serialize, ApInt::serialize", false, |d, s, c| {
                let w = d.width();
                let j = serde_json::to_string(&w).unwrap();
                let b = bincode::serialize(&w).unwrap();
                let back = (serde_json::from_str::<BitWidth>(&j).ok(), bincode::deserialize::<BitWidth>(&b).ok());
                if j != format!("[{}]", w.to_usize()) || b != bincode::serialize(&(w.to_usize() as u64)).unwrap() || back != (Some(w), Some(w)) {
                    return Ok(Out::Text(format!("the width is written as {}, {:?}, read back as {:?}", j, b, back)));
                }
                (forms("ser")[0].f)(d, s, c)
            });
            form!(v, "ApInt::serialize round trip human-readable", false, |d, s, c| {
                let t: ApInt = serde_json::from_str(&serde_json::to_string(d).unwrap()).unwrap();
                *d = t;
                (forms("ser")[0].f)(d, s, c)
            });
            form!(v, "ApInt::serialize round trip compact", false, |d, s, c| {
                let t: ApInt = bincode::deserialize(&bincode::serialize(d).unwrap()).unwrap();
                *d = t;
                (forms("ser")[0].f)(d, s, c)
            });
        }
        "de" => {
            form!(v, "ApInt::deserialize human-readable, owned value", false, |d, _, c| {
                let t = serde_json::json!({ "width": [ku(c)], "digits": txt_digits(c) });
                Ok(match serde_json::from_value::<ApInt>(t) { Ok(x) => { *d = x; Out::Unit } Err(_) => Out::Refused })
            });
            form!(v, "ApInt::deserialize human-readable, reader, spaced", false, |d, _, c| {
                let t = format!("{{ \"width\" :\n[ {} ] ,\n\"digits\" : {} }}\n", ku(c),
                    serde_json::to_string_pretty(&txt_digits(c)).unwrap());
                Ok(match serde_json::from_reader::<_, ApInt>(t.as_bytes()) { Ok(x) => { *d = x; Out::Unit } Err(_) => Out::Refused })
            });
            form!(v, "ApInt::deserialize human-readable, several in a list", false, |d, _, c| {
                let t = format!(r#"{{"width":[{}],"digits":{:?}}}"#, ku(c), txt_digits(c));
                let t = format!(r#"[{{"width":[65],"digits":[3,1]}},{},{{"width":[7],"digits":[5]}}]"#, t);
                Ok(match serde_json::from_str::<Vec<ApInt>>(&t) {
                    Ok(mut l) => {
                        if l.len() != 3 || crate::shapes::read_json(&serde_json::to_string(&l[0]).unwrap()) != Out::Digits(65, vec![3, 1])
                            || crate::shapes::read_json(&serde_json::to_string(&l[2]).unwrap()) != Out::Digits(7, vec![5]) {
                            return Ok(Out::Text("a neighbour in the list was not read back".to_string()));
                        }
                        *d = l.swap_remove(1);
                        Out::Unit
                    }
                    Err(_) => Out::Refused,
                })
            });
            form!(v, "ApInt::deserialize compact, reader, several in a tuple", false, |d, _, c| {
                let b = bincode::serialize(&((65u64, vec![3u64, 1]), (ku(c) as u64, txt_digits(c)), (7u64, vec![5u64]))).unwrap();
                Ok(match bincode::deserialize_from::<_, (ApInt, ApInt, ApInt)>(&b[..]) {
                    Ok((x, y, z)) => {
                        if crate::shapes::read_bincode(&bincode::serialize(&x).unwrap()) != Out::Digits(65, vec![3, 1])
                            || crate::shapes::read_bincode(&bincode::serialize(&z).unwrap()) != Out::Digits(7, vec![5]) {
                            return Ok(Out::Text("a neighbour in the tuple was not read back".to_string()));
                        }
                        *d = y;
                        Out::Unit
                    }
                    Err(_) => Out::Refused,
                })
            });
            form!(v, "BitWidth::deserialize, ApInt::deserialize", false, |d, _, c| {
                let j = serde_json::from_str::<BitWidth>(&format!("[{}]", ku(c))).ok().map(|w| w.to_usize());
                let o = serde_json::from_value::<BitWidth>(serde_json::json!([ku(c)])).ok().map(|w| w.to_usize());
                let b = bincode::deserialize::<BitWidth>(&bincode::serialize(&(ku(c) as u64)).unwrap()).ok().map(|w| w.to_usize());
                let want = if ku(c) == 0 { None } else { Some(ku(c)) };
                if j != want || o != want || b != want {
                    return Ok(Out::Text(format!("width {} read as {:?}, {:?}, {:?}", ku(c), j, o, b)));
                }
                let t = format!(r#"{{"width":[{}],"digits":{:?}}}"#, ku(c), txt_digits(c));
                Ok(match serde_json::from_str::<ApInt>(&t) { Ok(x) => { *d = x; Out::Unit } Err(_) => Out::Refused })
            });
            form!(v, "ApInt::deserialize human-readable", false, |d, _, c| {
                let t = format!(r#"{{"width":[{}],"digits":{:?}}}"#, ku(c), txt_digits(c));
                Ok(match serde_json::from_str::<ApInt>(&t) { Ok(x) => { *d = x; Out::Unit } Err(_) => Out::Refused })
            });
            form!(v, "ApInt::deserialize human-readable, digits first", false, |d, _, c| {
                let t = format!(r#"{{"digits":{:?},"width":[{}]}}"#, txt_digits(c), ku(c));
                Ok(match serde_json::from_str::<ApInt>(&t) { Ok(x) => { *d = x; Out::Unit } Err(_) => Out::Refused })
            });
            form!(v, "ApInt::deserialize compact", false, |d, _, c| {
                let b = bincode::serialize(&(ku(c) as u64, txt_digits(c))).unwrap();
                Ok(match bincode::deserialize::<ApInt>(&b) { Ok(x) => { *d = x; Out::Unit } Err(_) => Out::Refused })
            });
        }
        "de_shape" => form!(v, "ApInt::deserialize of a wrong shape", false, |d, _, c| {
            let w = c.arg.to_u64();
            Ok(match crate::shapes::wrong(ku(c), w, &txt_digits(c)) {
                Some(x) => { *d = x; Out::Unit }
                None => Out::Refused,
            })
        }),
        "random" => {
            form!(v, "ApInt::random_with_width_using", false, |d, _, c| {
                let mut g = script(c, ku(c)); *d = ApInt::random_with_width_using(kw(c), &mut g); Ok(num(g.pos))
            });
            form!(v, "UInt::random_with_width_using", false, |d, _, c| {
                let mut g = script(c, ku(c)); *d = UInt::random_with_width_using(kw(c), &mut g).into_apint(); Ok(num(g.pos))
            });
            form!(v, "random_with_width", false, |d, _, c| {
                let mut seen: Vec<ApInt> = Vec::new();
                for a in [
                    ApInt::random_with_width(kw(c)),
                    UInt::random_with_width(kw(c)).into_apint(),
                    Int::random_with_width(kw(c)).into_apint(),
                    { let mut a = ApInt::zero(kw(c)); a.randomize(); a },
                    { let mut a = UInt::zero(kw(c)); a.randomize(); a.into_apint() },
                    { let mut a = Int::zero(kw(c)); a.randomize(); a.into_apint() },
                ] {
                    let shown = crate::observe::read(&a);
                    let clean = shown.and_then(|x| crate::observe::Expect::new(x, 1).differs(&a, true));
                    if a.width().to_usize() != ku(c) || clean.is_some() {
                        return Ok(Out::Text(format!("ill-formed random value: {:?}", clean)));
                    }
                    // Two draws of the system's entropy agree with probability 2^-128 or less.
                    if ku(c) >= 128 && seen.contains(&a) {
                        return Ok(Out::Text("the same random value again".to_string()));
                    }
                    seen.push(a);
                }
                let mut g = script(c, ku(c));
                *d = ApInt::random_with_width_using(kw(c), &mut g);
                Ok(num(g.pos))
            });
            form!(v, "Int::random_with_width_using", false, |d, _, c| {
                let mut g = script(c, ku(c)); *d = Int::random_with_width_using(kw(c), &mut g).into_apint(); Ok(num(g.pos))
            });
        }
        "randomize" => {
            // The generator's failure reaches the caller; the integer keeps its width and its storage.
            form!(v, "ApInt::randomize_using, failing", false, |d, _, c| {
                let n = (d.width().to_usize() + 63) / 64;
                let stop = (c.arg.digits(n)[0] >> 7) as usize % n;
                let mut x = d.clone();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.randomize_using(&mut Failing(stop))));
                let q = std::panic::catch_unwind(|| ApInt::random_with_width_using(d.width(), &mut Failing(stop)));
                if r.is_ok() || q.is_ok() || x.width() != d.width() {
                    return Ok(Out::Text("a generator failed, and the draw did not".to_string()));
                }
                drop((x, r, q));
                let mut g = script(c, d.width().to_usize()); d.randomize_using(&mut g); Ok(num(g.pos))
            });
            form!(v, "ApInt::randomize_using", false, |d, _, c| {
                let mut g = script(c, d.width().to_usize()); d.randomize_using(&mut g); Ok(num(g.pos))
            });
            form!(v, "UInt::randomize_using", false, |d, _, c| {
                let mut x = u(d); let mut g = script(c, d.width().to_usize()); x.randomize_using(&mut g); *d = x.into_apint(); Ok(num(g.pos))
            });
            form!(v, "Int::randomize_using", false, |d, _, c| {
                let mut x = i(d); let mut g = script(c, d.width().to_usize()); x.randomize_using(&mut g); *d = x.into_apint(); Ok(num(g.pos))
            });
        }
        "bitwidth" => {
            form!(v, "BitWidth::from", true, |_, _, c| Ok(num(BitWidth::from(ku(c)).to_usize())));
            form!(v, "BitPos, ShiftAmount", false, |_, _, c| {
                let w = BitWidth::new(ku(c))?;
                let (p, s) = (BitPos::new(ku(c))?, ShiftAmount::from(ku(c)));
                let (q, t) = (BitPos::from(ku(c) - 1), ShiftAmount::from(ku(c) - 1));
                let ok = p.to_usize() == s.to_usize() && q < p && t < s && p == BitPos::from(ku(c)) && q.to_usize() == ku(c) - 1
                    && (ku(c) == 1 || BitWidth::new(ku(c) - 1)? < w);
                Ok(if ok { num(s.to_usize()) } else { Out::Text("positions, amounts or widths compare wrongly".into()) })
            });
            form!(v, "BitWidth::new", false, |_, _, c| Ok(num(BitWidth::new(ku(c))?.to_usize())));
            form!(v, "BitWidth: named, From<usize>", false, |_, _, c| {
                let b = match ku(c) {
                    0 => BitWidth::new(0)?,
                    1 => BitWidth::w1(),
                    8 => BitWidth::w8(),
                    16 => BitWidth::w16(),
                    32 => BitWidth::w32(),
                    64 => BitWidth::w64(),
                    128 => BitWidth::w128(),
                    k => BitWidth::from(k),
                };
                // Widths are equal exactly when their numbers are.
                if b != BitWidth::new(ku(c))? || b == BitWidth::new(ku(c) + 1)? {
                    return Ok(Out::Text("widths compare wrongly".into()));
                }
                Ok(num(b.to_usize()))
            });
        }
        "radix" => {
            form!(v, "Radix::from", true, |_, _, c| Ok(num(Radix::from(ku(c) as u8).to_u8() as usize)));
            form!(v, "Radix::new", false, |_, _, c| Ok(num(Radix::new(ku(c) as u8)?.to_u8() as usize)));
        }
        "nop" => {}
        other => panic!("the harness has no binding for the call {:?}", other),
    }
    v
}
