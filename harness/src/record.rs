//! Driving the crate with a random walk of its own and writing down what was
//! observed, one JSON line per call, for validation against the specification.
//! Nothing here knows what a call should do.

use crate::big::Big;
use crate::forms::{self, Out};
use crate::itf::Call;
use crate::observe::{build, read, Val};
use crate::replay::{div_op, kind_name, prim_name, run_form, Outcome};
use apint::{ApInt, ErrorKind, Width};
use serde_json::{json, Value};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn of<T: Copy>(&mut self, l: &[T]) -> T {
        l[self.below(l.len() as u64) as usize]
    }
    fn width(&mut self) -> usize {
        if self.below(60) == 0 {
            return 330 + self.below(3000) as usize;
        }
        match self.below(6) {
            0 => 1 + self.below(64) as usize,
            1 => 64 * (1 + self.below(5) as usize),
            2 => 64 * (1 + self.below(5) as usize) + self.of(&[1, 63, 2, 32]),
            3 => 65 + self.below(64) as usize,
            _ => 1 + self.below(330) as usize,
        }
    }
    /// Bits in runs, the run lengths drawn from several scales.
    fn value(&mut self, w: usize) -> Big {
        let mut mag = vec![0u64; (w + 63) / 64];
        let scale = self.of(&[1u64, 2, 8, 40, 64, 130]);
        let mut i = 0;
        let mut bit = self.below(2) == 1;
        while i < w {
            let mut run = 1 + self.below(scale) as usize;
            if self.below(4) == 0 {
                run = 64 - i % 64;
            }
            for j in i..(i + run).min(w) {
                if bit {
                    mag[j / 64] |= 1 << (j % 64);
                }
            }
            i += run;
            bit = !bit;
        }
        if self.below(3) == 0 {
            // keep the low end only
            let keep = 1 + self.below(w as u64) as usize;
            for j in keep..w {
                mag[j / 64] &= !(1 << (j % 64));
            }
        }
        Big::from_digits(mag)
    }
}

fn d(b: &Big) -> Value {
    Value::String(b.dec())
}
fn n(x: u64) -> Value {
    Value::String(x.to_string())
}

/// The reply as the specification spells it.
fn observed(o: &Outcome, c: &Call) -> (String, Value, Vec<Value>) {
    let zero = n(0);
    match o {
        None => ("panic".into(), zero, vec![]),
        Some(Ok(Out::Unit)) => ("unit".into(), zero, vec![]),
        Some(Ok(Out::Bool(b))) => ("bool".into(), n(*b as u64), vec![]),
        Some(Ok(Out::Num(x))) => ("num".into(), d(x), vec![]),
        Some(Ok(Out::NoOrder)) => ("none".into(), zero, vec![]),
        Some(Ok(Out::Order(x))) => ("ord".into(), Value::String(x.to_string()), vec![]),
        Some(Ok(Out::Text(t))) => ("text".into(), zero, t.chars().map(|c| n(c as u64)).collect()),
        Some(Ok(Out::Digits(w, l))) => ("digits".into(), n(*w), l.iter().map(|x| n(*x)).collect()),
        Some(Ok(Out::NoValue)) => ("opt".into(), zero, vec![]),
        Some(Ok(Out::Refused)) => ("err:Serde".into(), zero, vec![]),
        Some(Ok(Out::Parsed(a))) => match read(a) {
            Some(x) => ("num".into(), d(&x.v), vec![n(x.w as u64)]),
            None => ("unreadable".into(), zero, vec![]),
        },
        Some(Err(e)) => {
            let name = format!("err:{}", kind_name(e.kind()));
            let num = |x: usize| n(x as u64);
            match e.kind() {
                ErrorKind::InvalidRadix(r) => (name, zero, vec![n(*r as u64)]),
                ErrorKind::InvalidBitWidth(w) => (name, zero, vec![num(*w)]),
                ErrorKind::InvalidBitAccess { pos, width } => {
                    (name, zero, vec![num(pos.to_usize()), num(width.to_usize())])
                }
                ErrorKind::InvalidShiftAmount { shift_amount, width } => {
                    (name, zero, vec![num(shift_amount.to_usize()), num(width.to_usize())])
                }
                ErrorKind::UnmatchingBitwidth(a, b) => {
                    (name, zero, vec![num(a.to_usize()), num(b.to_usize())])
                }
                ErrorKind::TruncationBitWidthTooLarge { target, current }
                | ErrorKind::ExtensionBitWidthTooSmall { target, current } => {
                    (name, zero, vec![num(target.to_usize()), num(current.to_usize())])
                }
                ErrorKind::DivisionByZero { op, lhs } => {
                    let ok = format!("{:?}", op) == div_op(&c.op);
                    match read(lhs) {
                        Some(x) if ok => (name, d(&x.v), vec![num(x.w)]),
                        _ => (format!("{} of another operation", name), zero, vec![]),
                    }
                }
                ErrorKind::ValueUnrepresentable { value, destination_ty } => {
                    let ok = format!("{:?}", destination_ty) == prim_name(c.k.to_i64());
                    match read(value) {
                        Some(x) if ok => (name, d(&x.v), vec![num(x.w)]),
                        _ => (format!("{} for another type", name), zero, vec![]),
                    }
                }
                ErrorKind::InvalidStringRepr { input, radix, pos_char } => {
                    let l = match pos_char {
                        None => vec![],
                        Some((i, ch)) => {
                            let chars = input.char_indices().position(|(b, _)| b == *i);
                            vec![num(chars.unwrap_or(usize::MAX)), n(*ch as u64)]
                        }
                    };
                    (name, n(radix.to_u8() as u64), l)
                }
                #[allow(unreachable_patterns)]
                _ => (name, zero, vec![]),
            }
        }
    }
}

const PRIMS: &[i64] = &[1, 8, 16, 32, 64, 128, -8, -16, -32, -64, -128];

fn small(x: i64) -> Big {
    Big::parse(&x.to_string())
}

pub fn main(args: &[String]) -> i32 {
    let mut seed = 1u64;
    let mut steps = 300usize;
    let mut ops: Vec<String> = Vec::new();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--seed" => seed = it.next().unwrap().parse().unwrap(),
            "--steps" => steps = it.next().unwrap().parse().unwrap(),
            "--ops" => ops = it.next().unwrap().split(',').map(|s| s.to_string()).collect(),
            _ => return 2,
        }
    }
    let mut r = Rng(seed);
    let mut regs: Vec<ApInt> =
        (0..3).map(|_| build(&Val { w: 1, v: Big::from_u64(0) }, 0).unwrap()).collect();
    for step in 0..steps {
        let op = ops[r.below(ops.len() as u64) as usize].clone();
        let dd = r.below(3) as usize;
        let ss = (dd + 1 + r.below(2) as usize) % 3;
        let mut loads: Vec<(usize, Val)> = Vec::new();
        // Fresh contents, unless the registers happen to suit the call.
        if r.below(3) != 0 || regs[dd].width().to_usize() > 700 {
            let w = r.width();
            let v = r.value(w);
            loads.push((dd, Val { w, v }));
        }
        let w = loads.first().map_or(regs[dd].width().to_usize(), |l| l.1.w);
        if regs[ss].width().to_usize() != w && r.below(12) != 0 {
            let mut v = r.value(w);
            if r.below(4) == 0 {
                if let Some(l) = loads.first() {
                    v = l.1.v.clone();
                }
            }
            loads.push((ss, Val { w, v }));
        }
        let mut c = Call {
            op: op.clone(),
            d: Big::from_u64(dd as u64),
            s: Big::from_u64(ss as u64),
            k: Big::from_u64(0),
            arg: Big::from_u64(0),
            txt: vec![],
        };
        match op.as_str() {
            "shl" | "lshr" | "ashr" | "get_bit" | "set_bit" | "unset_bit" | "flip_bit" => {
                c.k = Big::from_u64(r.below(w as u64 + 1 + w as u64 / 16));
            }
            "trunc" => c.k = Big::from_u64(1 + r.below(w as u64 + 1)),
            "zext" | "sext" => c.k = Big::from_u64((w as u64 - r.below(1 + w as u64 / 8)).max(1) + r.below(200)),
            "zresize" | "sresize" | "zero" | "one" | "s_one" | "all_set" | "all_unset" | "umin"
            | "umax" | "smin" | "smax" => c.k = Big::from_u64(r.width() as u64),
            "resize_to" | "try_to" => c.k = small(r.of(PRIMS)),
            "s_try_to" => c.k = small(r.of(&PRIMS[6..])),
            "from_prim" => {
                let k = r.of(PRIMS);
                let b = k.unsigned_abs() as usize;
                c.k = small(k);
                c.arg = r.value(b);
                if k < 0 && c.arg.bit(b - 1) {
                    // two's complement reading
                    let x = c.arg.digits(2);
                    let x = (x[1] as u128) << 64 | x[0] as u128;
                    let x = if b == 128 { x as i128 } else { x as i128 - (1i128 << b) };
                    c.arg = Big::parse(&x.to_string());
                }
            }
            "from_arr" => {
                let k = r.of(&[2u64, 3, 4, 5, 6, 7, 8]);
                c.k = Big::from_u64(k);
                c.arg = r.value(64 * k as usize);
            }
            "parse" => {
                let radix = 2 + r.below(35);
                c.k = Big::from_u64(radix);
                let long = r.below(4) == 0;
                let len = r.below(if long { 90 } else { 30 });
                let m = r.below(8);
                for _ in 0..len {
                    let x = r.below(radix + (m == 0) as u64) as u32;
                    let ch = match r.below(40) {
                        0 if m < 3 => '_',
                        1 if m == 1 => r.of(&['-', '+', ' ', 'ß', '.']),
                        _ if x > 35 => '~',
                        q if q % 2 == 0 => char::from_digit(x, 36).unwrap(),
                        _ => char::from_digit(x, 36).unwrap().to_ascii_uppercase(),
                    };
                    c.txt.push(Big::from_u64(ch as u64));
                }
            }
            "de" => {
                let w = r.width();
                let mut ds = r.value(w).digits((w + 63) / 64);
                match r.below(12) {
                    0 => ds.push(r.below(3)),
                    1 => {
                        ds.pop();
                    }
                    2 => *ds.last_mut().unwrap() |= 1 << r.below(64),
                    _ => {}
                }
                c.k = Big::from_u64(if r.below(20) == 0 { 0 } else { w as u64 });
                c.txt = ds.into_iter().map(Big::from_u64).collect();
            }
            "de_shape" => {
                let w = r.width();
                c.k = Big::from_u64(r.below(16));
                c.arg = Big::from_u64(w as u64);
                c.txt = r.value(w).digits((w + 63) / 64).into_iter().map(Big::from_u64).collect();
            }
            "random" => {
                let w = r.width();
                c.k = Big::from_u64(w as u64);
                c.arg = r.value((w + 63) / 64 * 64);
            }
            "randomize" => c.arg = r.value((w + 63) / 64 * 64),
            "bitwidth" => c.k = Big::from_u64(r.below(3) * r.below(300)),
            "radix" => c.k = Big::from_u64(r.below(256)),
            _ => {}
        }
        for (i, x) in &loads {
            regs[*i] = match build(x, step) {
                Some(a) => a,
                None => {
                    eprintln!("cannot build {}", x.show());
                    return 2;
                }
            };
        }
        let fs: Vec<_> = forms::forms(&op).into_iter().filter(|f| !f.panics).collect();
        let f = &fs[r.below(fs.len() as u64) as usize];
        let (lo, hi) = regs.split_at_mut(dd.max(ss));
        let (a, b) = if dd < ss { (&mut lo[dd], &mut hi[0]) } else { (&mut hi[0], &mut lo[ss]) };
        let o = run_form(f, a, b, &c);
        let (t, rn, rl) = observed(&o, &c);
        let after: Vec<Value> = regs
            .iter()
            .map(|a| match read(a) {
                Some(x) => json!({"w": n(x.w as u64), "v": d(&x.v)}),
                None => json!({"w": "0", "v": "0"}),
            })
            .collect();
        println!(
            "{}",
            json!({
                "form": f.name,
                "loads": loads.iter().map(|(i, x)| json!({"i": n(*i as u64), "w": n(x.w as u64), "v": d(&x.v)})).collect::<Vec<_>>(),
                "call": {"op": op, "d": d(&c.d), "s": d(&c.s), "k": d(&c.k), "arg": d(&c.arg),
                         "txt": c.txt.iter().map(d).collect::<Vec<_>>()},
                "rep": {"t": t, "n": rn, "l": rl},
                "regs": after,
            })
        );
    }
    0
}
