//! Replaying behaviours of the specification into the crate.

use crate::alloc;
use crate::big::Big;
use crate::forms::{self, Form, Out, R};
use crate::itf::{Call, Rep, State, Trace};
use crate::observe::{build, guard, read, show, Expect, Val};
use apint::{ApInt, Error, ErrorKind};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Replies and results are those of the specification.
    Spec,
    /// All forms of a call agree with the one of the core type.
    Agree,
    /// Values carry no trace of their history.
    Canon,
    /// Copies are independent, storage is released exactly once.
    Own,
    /// Threads do not disturb each other.
    Threads,
}

/// What a form did: None means it panicked.
pub type Outcome = Option<R>;

static STEP: AtomicUsize = AtomicUsize::new(0);
static NOW: Mutex<(String, usize, &'static str, bool)> = Mutex::new((String::new(), 0, "", false));

/// Seconds a single step may take; they take micro- to milliseconds.
const HANG: u64 = 60;

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = usize::MAX;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let s = STEP.load(SeqCst);
            if s == last {
                same += 1;
            } else {
                same = 0;
                last = s;
            }
            if same >= HANG {
                let now = NOW.lock().unwrap();
                if !now.3 {
                    continue;
                }
                println!(
                    "{}",
                    json!({"violation": true, "file": now.0, "state": now.1, "form": now.2,
                           "what": format!("the call did not return within {} s", HANG)})
                );
                std::process::exit(3);
            }
        }
    });
}

fn us(b: &Big) -> usize {
    b.to_u64() as usize
}

pub fn kind_name(k: &ErrorKind) -> &'static str {
    match k {
        ErrorKind::InvalidRadix(..) => "InvalidRadix",
        ErrorKind::InvalidStringRepr { .. } => "InvalidStringRepr",
        ErrorKind::InvalidBitAccess { .. } => "InvalidBitAccess",
        ErrorKind::InvalidShiftAmount { .. } => "InvalidShiftAmount",
        ErrorKind::ValueUnrepresentable { .. } => "ValueUnrepresentable",
        ErrorKind::UnmatchingBitwidth(..) => "UnmatchingBitwidth",
        ErrorKind::InvalidBitWidth(..) => "InvalidBitWidth",
        ErrorKind::TruncationBitWidthTooLarge { .. } => "TruncationBitWidthTooLarge",
        ErrorKind::ExtensionBitWidthTooSmall { .. } => "ExtensionBitWidthTooSmall",
        ErrorKind::DivisionByZero { .. } => "DivisionByZero",
        #[allow(unreachable_patterns)]
        _ => "another kind",
    }
}

/// The name the crate gives to the operation of a call in a division error.
pub fn div_op(op: &str) -> &'static str {
    match op {
        "udiv" => "UnsignedDiv",
        "urem" => "UnsignedRem",
        "sdiv" => "SignedDiv",
        "srem" => "SignedRem",
        "udivrem" => "UnsignedDivRem",
        "uremdiv" => "UnsignedRemDiv",
        "sdivrem" => "SignedDivRem",
        _ => "SignedRemDiv",
    }
}
/// The name of a primitive type in a conversion error.
pub fn prim_name(k: i64) -> String {
    match k {
        1 => "Bool".into(),
        k if k > 0 => format!("U{}", k),
        k => format!("I{}", -k),
    }
}

/// The error's payload, in the order the specification lists it; None when
/// something in it contradicts the call.
fn payload(e: &ErrorKind, c: &Call, rep: &Rep) -> Result<(), String> {
    let want: Vec<u64> = rep.l.iter().map(|b| b.to_u64()).collect();
    let nums = |got: Vec<u64>| {
        if got == want {
            Ok(())
        } else {
            Err(format!("the error reports {:?} instead of {:?}", got, want))
        }
    };
    match e {
        ErrorKind::InvalidRadix(r) => nums(vec![*r as u64]),
        ErrorKind::InvalidBitWidth(w) => nums(vec![*w as u64]),
        ErrorKind::InvalidBitAccess { pos, width } => {
            nums(vec![pos.to_usize() as u64, width.to_usize() as u64])
        }
        ErrorKind::InvalidShiftAmount { shift_amount, width } => {
            nums(vec![shift_amount.to_usize() as u64, width.to_usize() as u64])
        }
        // The receiver's width first, then the other operand's; comparisons may
        // be derived from each other and so name them in either order.
        ErrorKind::UnmatchingBitwidth(a, b) => {
            let mut got = vec![a.to_usize() as u64, b.to_usize() as u64];
            let order = ["ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"];
            if order.contains(&c.op.as_str()) && got != want {
                got.reverse();
            }
            nums(got)
        }
        ErrorKind::TruncationBitWidthTooLarge { target, current }
        | ErrorKind::ExtensionBitWidthTooSmall { target, current } => {
            nums(vec![target.to_usize() as u64, current.to_usize() as u64])
        }
        ErrorKind::DivisionByZero { op, lhs } => {
            if format!("{:?}", op) != div_op(&c.op) {
                return Err(format!("the error names the operation {:?}", op));
            }
            let x = Val { w: us(&rep.l[0]), v: rep.n.clone() };
            match Expect::new(x, 0).differs(lhs, false) {
                None => Ok(()),
                Some(t) => Err(format!("the dividend in the error is wrong: {}", t)),
            }
        }
        ErrorKind::ValueUnrepresentable { value, destination_ty } => {
            let name = format!("{:?}", destination_ty);
            if name != prim_name(c.k.to_i64()) {
                return Err(format!("the error names the type {}", name));
            }
            let x = Val { w: us(&rep.l[0]), v: rep.n.clone() };
            match Expect::new(x, 0).differs(value, false) {
                None => Ok(()),
                Some(t) => Err(format!("the value in the error is wrong: {}", t)),
            }
        }
        ErrorKind::InvalidStringRepr { input, radix, pos_char } => {
            if *input != forms::text(c) {
                return Err(format!("the error reports the input {:?}", input));
            }
            if radix.to_u8() as u64 != rep.n.to_u64() {
                return Err(format!("the error reports the radix {}", radix.to_u8()));
            }
            match pos_char {
                None => nums(vec![]),
                Some((i, ch)) => {
                    // The position may count characters or bytes.
                    let t = forms::text(c);
                    let byte = t.char_indices().nth(want.first().copied().unwrap_or(0) as usize);
                    if want.len() == 2 && *ch as u64 == want[1] && byte.map(|b| b.0) == Some(*i) {
                        return Ok(());
                    }
                    nums(vec![*i as u64, *ch as u64])
                }
            }
        }
        #[allow(unreachable_patterns)]
        _ => Ok(()),
    }
}

/// The error's text tells the same numbers as its kind.
fn told(e: &Error, c: &Call, rep: &Rep) -> Result<(), String> {
    let mut nums: Vec<String> = match e.kind() {
        ErrorKind::DivisionByZero { .. } | ErrorKind::ValueUnrepresentable { .. } => vec![],
        ErrorKind::InvalidStringRepr { pos_char, .. } => {
            pos_char.iter().map(|p| p.0.to_string()).collect()
        }
        _ => rep.l.iter().map(|b| b.to_u64().to_string()).collect(),
    };
    if let ErrorKind::InvalidStringRepr { radix, .. } = e.kind() {
        nums.push(radix.to_u8().to_string());
    }
    let mut words = vec![];
    match e.kind() {
        ErrorKind::DivisionByZero { .. } => words.push(div_op(&c.op).to_string()),
        ErrorKind::ValueUnrepresentable { .. } => words.push(prim_name(c.k.to_i64())),
        _ => {}
    }
    let shown = guard(|| (e.message().to_string(), e.to_string()));
    let (message, display) = shown.ok_or("the error cannot be shown")?;
    for text in [&message, &display] {
        for n in &nums {
            if !text.split(|ch: char| !ch.is_ascii_digit()).any(|t| t == n) {
                return Err(format!("the error's text does not tell {}: {}", n, text));
            }
        }
        for n in &words {
            if !text.split(|ch: char| !ch.is_ascii_alphanumeric()).any(|t| t == n) {
                return Err(format!("the error's text does not tell {}: {}", n, text));
            }
        }
    }
    Ok(())
}

pub fn show_out(o: &Outcome) -> String {
    match o {
        None => "a panic".into(),
        Some(Ok(Out::Parsed(a))) => show(a),
        Some(Ok(x)) => format!("{:?}", x),
        Some(Err(e)) => format!("{:?}", e.kind()),
    }
}

/// Is the outcome the one the specification gives?  Ok(true): yes and a value
/// was produced or state changed; Ok(false): yes, as an error or refusal.
fn judge_reply(rep: &Rep, c: &Call, form: &Form, o: &Outcome) -> Result<bool, String> {
    if let Some(kinds) = rep.t.strip_prefix("err:") {
        if kinds == "Serde" {
            return match o {
                Some(Ok(Out::Refused)) => Ok(false),
                _ => Err(format!("malformed input must be refused, got {}", show_out(o))),
            };
        }
        if form.panics {
            return match o {
                None => Ok(false),
                _ => Err(format!("must panic ({}), got {}", kinds, show_out(o))),
            };
        }
        return match o {
            Some(Err(e)) => {
                if !kinds.split('|').any(|k| k == kind_name(e.kind())) {
                    return Err(format!("expected the error {}, got {:?}", kinds, e.kind()));
                }
                if !kinds.contains('|') {
                    payload(e.kind(), c, rep)?;
                    told(e, c, rep)?;
                }
                Ok(false)
            }
            _ => Err(format!("expected the error {}, got {}", kinds, show_out(o))),
        };
    }
    let got = match o {
        None => return Err(format!("panics where the reply is {} {}", rep.t, rep.n.hex())),
        Some(Err(e)) => return Err(format!("unexpected error {:?}", e.kind())),
        Some(Ok(g)) => g,
    };
    let want = match rep.t.as_str() {
        "unit" => Out::Unit,
        "bool" => Out::Bool(rep.n.to_u64() == 1),
        "num" => match got {
            Out::Parsed(a) => return judge_parsed(a, &rep.n),
            _ => Out::Num(rep.n.clone()),
        },
        "none" => Out::NoOrder,
        "ord" => Out::Order(rep.n.to_i64()),
        "opt" => Out::NoValue,
        "text" if rep.n.to_u64() == 1 && matches!(got, Out::Refused) => return Ok(false),
        "text" => Out::Text(
            rep.l.iter().map(|b| char::from_u32(b.to_u64() as u32).unwrap()).collect(),
        ),
        "digits" => Out::Digits(rep.n.to_u64(), rep.l.iter().map(|b| b.to_u64()).collect()),
        "lenient" => match got {
            Out::Refused => return Ok(false),
            _ => Out::Unit,
        },
        other => panic!("unknown reply kind {}", other),
    };
    if *got == want {
        Ok(true)
    } else {
        Err(format!("expected {:?}, got {}", want, show_out(o)))
    }
}

/// The width of a parsed value is left open, as long as the value fits.
fn judge_parsed(a: &ApInt, n: &Big) -> Result<bool, String> {
    let w = guard(|| {
        use apint::Width;
        a.width().to_usize()
    })
    .unwrap_or(0);
    if w < n.bit_len().max(1) || w > 1 << 24 {
        return Err(format!("a value of {} bits parsed to width {}", n.bit_len(), w));
    }
    match Expect::new(Val { w, v: n.clone() }, 2).differs(a, true) {
        None => Ok(true),
        Some(t) => Err(t),
    }
}

struct Run {
    mode: Mode,
    file: String,
    violations: usize,
    max: usize,
    steps: usize,
    form_calls: usize,
    comparisons: usize,
    errors_seen: usize,
    ops: BTreeMap<String, usize>,
    form_names: BTreeMap<&'static str, usize>,
    widths: std::collections::BTreeSet<usize>,
    forms: HashMap<String, Vec<Form>>,
    trace_steps: bool,
    faults: usize,
    effort: usize,
}

/// Runs the form on the operands; allocation is watched while it runs.
pub fn run_form(f: &Form, d: &mut ApInt, s: &mut ApInt, c: &Call) -> Outcome {
    alloc::STRICT.store(true, SeqCst);
    let r = guard(|| (f.f)(d, s, c));
    alloc::STRICT.store(false, SeqCst);
    r
}

impl Run {
    fn report(&mut self, state: usize, op: &str, form: &str, what: String) {
        self.violations += 1;
        if self.violations <= self.max {
            println!(
                "{}",
                json!({"violation": true, "file": self.file, "state": state, "op": op,
                       "form": form, "what": what})
            );
        }
    }

    fn trace(&mut self, path: &str) -> Result<(), String> {
        self.file = path.to_string();
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let tr: Trace = serde_json::from_str(&text).map_err(|e| format!("{}: {}", path, e))?;
        drop(text);
        if self.mode == Mode::Threads {
            return self.trace_threads(&tr);
        }
        let tracked = alloc::TRACKED.load(SeqCst);
        let mut regs: Vec<ApInt> = Vec::new();
        let mut prev: Option<&State> = None;
        for (n, st) in tr.states.iter().enumerate() {
            STEP.fetch_add(1, SeqCst);
            self.step(n, st, prev, &mut regs)?;
            prev = Some(st);
        }
        NOW.lock().unwrap().3 = false;
        if self.mode == Mode::Own {
            // The history is over: what it obtained is gone with its values.
            let last = tr.states.len() - 1;
            drop(regs);
            let left = alloc::TRACKED.load(SeqCst) - tracked;
            self.comparisons += 1;
            if left > 24 {
                self.report(last, "end", "history", format!("{} blocks of memory are left at the end of the history", left));
            }
            if self.new_fault() {
                self.report(last, "end", "history", format!("{} at the end of the history", alloc::fault_text()));
            }
        }
        Ok(())
    }

    fn trace_threads(&mut self, tr: &Trace) -> Result<(), String> {
        use crate::threads::{together, promised, Item, Shared};
        use std::sync::Arc;
        if let Some(t) = promised() {
            self.report(0, "types", "Send, Sync", t);
        }
        let mut fs: HashMap<String, Arc<Shared<Vec<Form>>>> = HashMap::new();
        for (at, window) in tr.states.chunks(1200).enumerate() {
            let mut items: Vec<(usize, Item)> = vec![];
            for (i, st) in window.iter().enumerate() {
                let n = at * 1200 + i;
                let mut pre: Vec<Val> = match n {
                    0 => st.regs.iter().map(|_| Val { w: 1, v: Big::from_u64(0) }).collect(),
                    _ => tr.states[n - 1].regs.iter().map(|r| Val { w: us(&r.w), v: r.v.clone() }).collect(),
                };
                for l in &st.loads {
                    pre[us(&l.i)] = Val { w: us(&l.w), v: l.v.clone() };
                }
                let c = &st.call;
                let f = fs.entry(c.op.clone()).or_insert_with(|| Arc::new(Shared(forms::forms(&c.op)))).clone();
                self.steps += 1;
                *self.ops.entry(c.op.clone()).or_insert(0) += 1;
                for g in &f.0 {
                    self.form_calls += 1;
                    *self.form_names.entry(g.name).or_insert(0) += 1;
                }
                if st.rep.t.starts_with("err:") {
                    self.errors_seen += 1;
                }
                for x in &pre {
                    self.widths.insert(x.w);
                }
                let (d, s) = (&pre[us(&c.d)], &pre[us(&c.s)]);
                let weight = d.w + s.w + 64 * c.txt.len() + 256;
                if let (Some(d), Some(s)) = (build(d, n), build(s, n + 1)) {
                    STEP.fetch_add(1, SeqCst);
                    items.push((weight, Item::new(n, c.clone(), f, d, s)));
                }
            }
            // The threads meet over few calls at a time, of the same kind.
            items.sort_by(|a, b| (&a.1.c.op, a.1.n).cmp(&(&b.1.c.op, b.1.n)));
            while !items.is_empty() {
                let rest = items.split_off(items.len().min(24));
                let weight: usize = items.iter().map(|x| x.0).sum();
                let rounds = (self.effort * 100_000 / weight).clamp(2, 60);
                let (found, made) = together(items.into_iter().map(|x| x.1).collect(), rounds);
                items = rest;
                self.comparisons += made;
                self.form_calls += made;
                for a in found {
                    let op = tr.states[a.n].call.op.clone();
                    self.report(a.n, &op, a.form, a.what);
                }
                if self.violations > 0 {
                    return Ok(());
                }
            }
        }
        Ok(())
    }

    fn step(
        &mut self,
        n: usize,
        st: &State,
        prev: Option<&State>,
        regs: &mut Vec<ApInt>,
    ) -> Result<(), String> {
        // The registers before the call, according to the specification.
        let mut pre: Vec<Val> = match prev {
            Some(p) => p.regs.iter().map(|r| Val { w: us(&r.w), v: r.v.clone() }).collect(),
            None => st.regs.iter().map(|_| Val { w: 1, v: Big::from_u64(0) }).collect(),
        };
        if prev.is_none() {
            regs.clear();
            for x in &pre {
                regs.push(build(x, 0).ok_or("cannot build the value 0 of 1 bit")?);
            }
        }
        let nope = |x: &Val| format!("cannot build {}", x.show());
        for l in &st.loads {
            let i = us(&l.i);
            pre[i] = Val { w: us(&l.w), v: l.v.clone() };
            regs[i] = match build(&pre[i], n) {
                Some(a) => a,
                None => {
                    self.report(n, "load", "construction", nope(&pre[i]));
                    return Ok(());
                }
            };
        }
        let c = &st.call;
        let (d, s) = (us(&c.d), us(&c.s));
        if !self.forms.contains_key(&c.op) {
            self.forms.insert(c.op.clone(), forms::forms(&c.op));
        }
        let fs = std::mem::take(self.forms.get_mut(&c.op).unwrap());
        self.steps += 1;
        *self.ops.entry(c.op.clone()).or_insert(0) += 1;
        if st.rep.t.starts_with("err:") {
            self.errors_seen += 1;
        }
        for x in &pre {
            self.widths.insert(x.w);
        }
        let post: Vec<Val> =
            st.regs.iter().map(|r| Val { w: us(&r.w), v: r.v.clone() }).collect();
        match self.mode {
            Mode::Spec => self.step_spec(n, st, &pre, &post, regs, &fs, d, s),
            Mode::Agree => self.step_agree(n, st, regs, &fs, d, s),
            Mode::Canon => self.step_canon(n, st, &pre, regs, &fs, d, s),
            Mode::Own => self.step_own(n, st, regs, &fs, d, s),
            Mode::Threads => unreachable!(),
        }
        // Keep the registers in step with the specification.
        let resync = self.mode == Mode::Agree || fs.is_empty();
        for i in 0..regs.len() {
            let bad = resync
                || guard(|| {
                    use apint::Width;
                    regs[i].width().to_usize() == post[i].w
                        && format!("{:x}", regs[i]) == post[i].v.hex()
                }) != Some(true);
            if bad {
                if let Some(a) = build(&post[i], n) {
                    regs[i] = a;
                }
            }
        }
        *self.forms.get_mut(&c.op).unwrap() = fs;
        Ok(())
    }

    fn enter(&mut self, n: usize, f: &Form) {
        self.form_calls += 1;
        *self.form_names.entry(f.name).or_insert(0) += 1;
        {
            let mut now = NOW.lock().unwrap();
            if now.0 != self.file {
                now.0 = self.file.clone();
            }
            now.1 = n;
            now.2 = f.name;
            now.3 = true;
        }
        if self.trace_steps {
            eprintln!("{}", json!({"file": self.file, "state": n, "form": f.name}));
        }
    }

    fn step_spec(
        &mut self,
        n: usize,
        st: &State,
        pre: &[Val],
        post: &[Val],
        regs: &mut [ApInt],
        fs: &[Form],
        d: usize,
        s: usize,
    ) {
        let c = &st.call;
        if fs.is_empty() {
            return;
        }
        let exp_d = Expect::new(post[d].clone(), n + 1);
        let exp_s = Expect::new(post[s].clone(), n + 2);
        let lenient = match st.rep.t == "lenient" {
            true => Some(Expect::new(Val { w: us(&st.rep.l[0]), v: st.rep.n.clone() }, 0)),
            false => None,
        };
        // Which form runs on the registers themselves rather than on copies.
        let live = n % fs.len();
        for (j, f) in fs.iter().enumerate() {
            self.enter(n, f);
            let mut dd = regs[d].clone();
            let mut ss = regs[s].clone();
            let o = run_form(f, &mut dd, &mut ss, c);
            let bad = match judge_reply(&st.rep, c, f, &o) {
                Err(t) => Some(t),
                Ok(changed) => {
                    self.comparisons += 1;
                    if o.is_none() {
                        // An operator panicked, as it has to. What it was only
                        // lent has its former value.
                        let lent = f.name.ends_with('=').then(|| exp_d.differs(&dd, false)).flatten();
                        lent.map(|t| format!("receiver after the panic: {}", t)).or_else(|| {
                            exp_s.differs(&ss, false).map(|t| format!("other operand after the panic: {}", t))
                        })
                    } else {
                        let e = match (&lenient, changed) {
                            (Some(l), true) => l,
                            _ => &exp_d,
                        };
                        e.differs(&dd, j == live)
                            .map(|t| format!("result: {}", t))
                            .or_else(|| {
                                exp_s.differs(&ss, false).map(|t| format!("other operand: {}", t))
                            })
                    }
                }
            };
            if let Some(t) = bad {
                let t = format!(
                    "{} of {} and {} (k={}): {}",
                    c.op,
                    pre[d].show(),
                    pre[s].show(),
                    c.k.hex(),
                    t
                );
                self.report(n, &c.op, f.name, t);
            }
        }
        let f = &fs[live];
        if f.panics && st.rep.t.starts_with("err:") {
            return;
        }
        self.enter(n, f);
        let (a, b) = two(regs, d, s);
        let _ = run_form(f, a, b, c);
        for i in 0..regs.len() {
            if i != d && i != s {
                self.comparisons += 1;
                if let Some(t) = Expect::new(post[i].clone(), 0).differs(&regs[i], false) {
                    self.report(n, &c.op, f.name, format!("a register not involved changed: {}", t));
                }
            }
        }
    }

    fn step_agree(
        &mut self,
        n: usize,
        st: &State,
        regs: &mut [ApInt],
        fs: &[Form],
        d: usize,
        s: usize,
    ) {
        let c = &st.call;
        let core = fs.iter().position(|f| f.is_core());
        let base: Option<(Outcome, ApInt, ApInt)> = core.map(|j| {
            self.enter(n, &fs[j]);
            let (mut dd, mut ss) = (regs[d].clone(), regs[s].clone());
            let o = run_form(&fs[j], &mut dd, &mut ss, c);
            (o, dd, ss)
        });
        for (j, f) in fs.iter().enumerate() {
            if Some(j) == core {
                continue;
            }
            self.enter(n, f);
            let (mut dd, mut ss) = (regs[d].clone(), regs[s].clone());
            let o = run_form(f, &mut dd, &mut ss, c);
            self.comparisons += 1;
            let bad = match &base {
                None => judge_reply(&st.rep, c, f, &o).err(),
                Some((None, ..)) => None, // the core form panicked: not this property's business
                Some((Some(Err(e)), ..)) => match &o {
                    None if f.panics => None,
                    Some(Err(e2)) if !f.panics && same_error(e, e2) => None,
                    _ => Some(format!("the core type reports {:?}, this form {}", e.kind(), show_out(&o))),
                },
                Some((Some(Ok(r)), bd, bs)) => match &o {
                    Some(Ok(r2)) if same_out(r, r2) => {
                        if !same_value(bd, &dd) {
                            Some(format!("the core type yields {}, this form {}", show(bd), show(&dd)))
                        } else if !same_value(bs, &ss) {
                            Some(format!("operand: the core type leaves {}, this form {}", show(bs), show(&ss)))
                        } else {
                            None
                        }
                    }
                    _ => Some(format!("the core type replies {:?}, this form {}", r, show_out(&o))),
                },
            };
            if let Some(t) = bad {
                let t = format!("{} of {} and {} (k={}): {}", c.op, show(&regs[d]), show(&regs[s]), c.k.hex(), t);
                self.report(n, &c.op, f.name, t);
            }
        }
    }

    fn step_canon(
        &mut self,
        n: usize,
        st: &State,
        pre: &[Val],
        regs: &mut [ApInt],
        fs: &[Form],
        d: usize,
        s: usize,
    ) {
        let c = &st.call;
        if fs.is_empty() {
            return;
        }
        let _ = pre;
        let f = &fs[n % fs.len()];
        self.enter(n, f);
        // The same call on freshly built operands of the same value ...
        let (vd, vs) = match (read(&regs[d]), read(&regs[s])) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let fresh = match (build(&vd, n + 1), build(&vs, n + 3)) {
            (Some(mut a), Some(mut b)) => {
                let o = run_form(f, &mut a, &mut b, c);
                Some((o, a, b))
            }
            _ => None,
        };
        // ... and on the registers with their history.
        let (a, b) = two(regs, d, s);
        let o = run_form(f, a, b, c);
        self.comparisons += 1;
        if let Some((fo, fa, fb)) = fresh {
            let same = match (&o, &fo) {
                (None, None) => true,
                (Some(Ok(x)), Some(Ok(y))) => {
                    same_out(x, y) && same_value(&regs[d], &fa) && same_value(&regs[s], &fb)
                }
                (Some(Err(x)), Some(Err(y))) => same_error(x, y),
                _ => false,
            };
            if !same {
                let t = format!(
                    "{} on values with a history yields {} ({}), on fresh values of the same bits {} ({})",
                    c.op, show(&regs[d]), show_out(&o), show(&fa), show_out(&fo)
                );
                self.report(n, &c.op, f.name, t);
            }
        }
        if o.is_none() {
            return;
        }
        for i in [d, s] {
            self.comparisons += 1;
            match read(&regs[i]) {
                None => self.report(n, &c.op, f.name, "the bits of the result cannot be read".into()),
                Some(x) => {
                    if let Some(t) = Expect::new(x, n).differs(&regs[i], true) {
                        self.report(n, &c.op, f.name, format!("after {}: {}", c.op, t));
                    }
                }
            }
        }
    }

    /// Whether memory was misused since the last time this was asked.
    fn new_fault(&mut self) -> bool {
        let now = alloc::FAULTS.load(SeqCst);
        let new = now != self.faults;
        self.faults = now;
        new
    }

    fn step_own(
        &mut self,
        n: usize,
        st: &State,
        regs: &mut [ApInt],
        fs: &[Form],
        d: usize,
        s: usize,
    ) {
        let c = &st.call;
        for (j, f) in fs.iter().enumerate() {
            self.enter(n, f);
            // Run once on copies and drop everything: what was obtained must be
            // released, whatever the outcome.
            let round = || {
                let before = alloc::LIVE.load(SeqCst);
                let mut dd = regs[d].clone();
                let mut ss = regs[s].clone();
                let o = run_form(f, &mut dd, &mut ss, c);
                alloc::STRICT.store(true, SeqCst);
                drop(o);
                drop(dd);
                drop(ss);
                alloc::STRICT.store(false, SeqCst);
                alloc::LIVE.load(SeqCst) - before
            };
            // Something obtained once and kept for good (a table, say) is no leak:
            // a leak recurs.
            let mut kept = round();
            for _ in 0..3 {
                if kept != 0 {
                    kept = round();
                }
            }
            self.comparisons += 1;
            if kept != 0 {
                self.report(n, &c.op, f.name, format!("{} blocks of memory are not released after {} of {} and {}",
                    kept, c.op, show(&regs[d]), show(&regs[s])));
            }
            if self.new_fault() {
                self.report(n, &c.op, f.name, format!("{} in {} of {} and {}", alloc::fault_text(), c.op,
                    show(&regs[d]), show(&regs[s])));
                continue;
            }
            // Copies share nothing: a copy taken before the call keeps its
            // value while the original changes, and the other way round.
            let mut x = regs[d].clone();
            let mut y = regs[s].clone();
            let (kx, ky) = (read(&x), read(&y));
            let (cx, cy) = (x.clone(), y.clone());
            let o = run_form(f, &mut x, &mut y, c);
            self.comparisons += 2;
            if read(&cx) != kx || read(&cy) != ky {
                self.report(n, &c.op, f.name, format!("a copy taken before {} changed with the original", c.op));
            }
            if o.is_some() {
                let (rx, ry) = (read(&x), read(&y));
                drop(cx);
                drop(cy);
                if read(&x) != rx || read(&y) != ry {
                    self.report(n, &c.op, f.name, format!("the result of {} changed when a copy was dropped", c.op));
                }
                // Changing the result leaves the other operand alone, and
                // changing the operand leaves the result alone.
                guard(|| x.flip_all());
                if read(&y) != ry {
                    self.report(n, &c.op, f.name, format!("changing the result of {} changed the operand", c.op));
                }
                let rx = read(&x);
                guard(|| y.flip_all());
                if read(&x) != rx {
                    self.report(n, &c.op, f.name, format!("changing the operand of {} changed the result", c.op));
                }
            }
            drop(x);
            drop(y);
            if self.new_fault() {
                self.report(n, &c.op, f.name, format!("{} after {}", alloc::fault_text(), c.op));
                continue;
            }
            if j == n % fs.len() && !(f.panics && st.rep.t.starts_with("err:")) {
                let other = 3 - d - s;
                let keep = read(&regs[other]);
                let (a, b) = two(regs, d, s);
                let _ = run_form(f, a, b, c);
                self.comparisons += 1;
                if read(&regs[other]) != keep {
                    self.report(n, &c.op, f.name, format!("{} changed a value not involved", c.op));
                }
                if self.new_fault() {
                    self.report(n, &c.op, f.name, format!("{} in {} on values with a history", alloc::fault_text(), c.op));
                }
            }
        }
    }
}

fn two<'a>(regs: &'a mut [ApInt], d: usize, s: usize) -> (&'a mut ApInt, &'a mut ApInt) {
    assert!(d != s);
    if d < s {
        let (l, r) = regs.split_at_mut(s);
        (&mut l[d], &mut r[0])
    } else {
        let (l, r) = regs.split_at_mut(d);
        (&mut r[0], &mut l[s])
    }
}

fn same_value(a: &ApInt, b: &ApInt) -> bool {
    use apint::Width;
    guard(|| a.width() == b.width()) == Some(true)
        && guard(|| format!("{:x}", a)) == guard(|| format!("{:x}", b))
        && guard(|| a == b) == guard(|| b == &b.clone())
}
fn same_error(a: &Error, b: &Error) -> bool {
    a.kind() == b.kind()
        || match (a.kind(), b.kind()) {
            (ErrorKind::UnmatchingBitwidth(x, y), ErrorKind::UnmatchingBitwidth(u, v)) => {
                (x, y) == (v, u)
            }
            _ => false,
        }
}
fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Parsed(x), Out::Parsed(y)) => same_value(x, y),
        _ => a == b,
    }
}

pub fn main(args: &[String]) -> i32 {
    let mut mode = Mode::Spec;
    let mut files = Vec::new();
    let mut trace_steps = false;
    let mut effort = 1;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--mode" => {
                mode = match it.next().map(|s| s.as_str()) {
                    Some("spec") => Mode::Spec,
                    Some("agree") => Mode::Agree,
                    Some("canon") => Mode::Canon,
                    Some("own") => Mode::Own,
                    Some("threads") => Mode::Threads,
                    m => {
                        eprintln!("unknown mode {:?}", m);
                        return 2;
                    }
                }
            }
            "--effort" => effort = it.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            "--trace-steps" => trace_steps = true,
            f => files.push(f.to_string()),
        }
    }
    watchdog();
    let mut run = Run {
        mode,
        file: String::new(),
        violations: 0,
        max: 20,
        steps: 0,
        form_calls: 0,
        comparisons: 0,
        errors_seen: 0,
        ops: BTreeMap::new(),
        form_names: BTreeMap::new(),
        widths: Default::default(),
        forms: HashMap::new(),
        trace_steps,
        faults: 0,
        effort,
    };
    for f in &files {
        if let Err(e) = run.trace(f) {
            eprintln!("{}", e);
            return 2;
        }
    }
    println!(
        "{}",
        json!({"summary": true, "traces": files.len(), "steps": run.steps, "form_calls": run.form_calls,
               "comparisons": run.comparisons, "error_replies": run.errors_seen, "ops": run.ops,
               "forms": run.form_names, "widths": run.widths.len(), "violations": run.violations})
    );
    if run.violations > 0 {
        1
    } else {
        0
    }
}
