//! Mode `threads`: the calls of a behaviour made by several threads at once, on
//! values they share and on values handed from one to another, must come out as
//! they do when nobody else is running.

use crate::forms::Form;
use crate::itf::Call;
use crate::observe::{guard, hash_of, portrait, show};
use crate::replay::{show_out, Outcome};
use apint::{ApInt, Error, Int, UInt};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::{mpsc, Arc, Barrier, Mutex};
use std::time::Duration;

pub const THREADS: usize = 6;

/// Shared whether or not the compiler would let us; see `promised`.
pub struct Shared<T>(pub T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

struct Probe<T>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Probe<T> {}
struct Probe2<T>(PhantomData<T>);
impl<T> No for Probe2<T> {}
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: Sync> Probe2<T> {
    const SYNC: bool = true;
}

/// The types can be moved to and shared with other threads.
pub fn promised() -> Option<String> {
    let all = [
        ("ApInt", Probe::<ApInt>::SEND, Probe2::<ApInt>::SYNC),
        ("UInt", Probe::<UInt>::SEND, Probe2::<UInt>::SYNC),
        ("Int", Probe::<Int>::SEND, Probe2::<Int>::SYNC),
        ("Error", Probe::<Error>::SEND, Probe2::<Error>::SYNC),
    ];
    all.iter().find(|x| !x.1 || !x.2).map(|x| format!("{} cannot be sent to or shared with threads", x.0))
}

type Lent = fn(&ApInt, &ApInt) -> Option<ApInt>;
/// Calls that only read what they are lent.
const LENT: &[(&str, Lent)] = &[
    ("trailing_zeros", |a, _| Some(ApInt::from(a.trailing_zeros() as u64))),
    ("clone", |a, _| Some(a.clone())),
    ("into_wrapping_add", |a, b| a.clone().into_wrapping_add(b).ok()),
    ("hash", |a, _| Some(ApInt::from(hash_of(a)))),
    ("into_wrapping_mul", |a, b| a.clone().into_wrapping_mul(b).ok()),
    ("leading_zeros", |a, _| Some(ApInt::from(a.leading_zeros() as u64))),
    ("into_wrapping_udiv", |a, b| a.clone().into_wrapping_udiv(b).ok()),
    ("count_ones", |a, _| Some(ApInt::from(a.count_ones() as u64))),
    ("into_wrapping_srem", |a, b| a.clone().into_wrapping_srem(b).ok()),
    ("into_bitxor", |a, b| a.clone().into_bitxor(b).ok()),
    ("LowerHex", |a, _| Some(ApInt::from(hash_of(&format!("{:x}", a))))),
    ("assign", |a, b| {
        let mut x = a.clone();
        x.assign(b);
        Some(x)
    }),
    ("queries", |a, _| {
        let q = [a.is_zero(), a.is_all_set(), a.is_even(), a.msb(), a.lsb(), a.try_to_u64().is_ok()];
        Some(ApInt::from(q.iter().fold(0u64, |n, b| 2 * n + *b as u64)))
    }),
    ("comparisons", |a, b| {
        let c = [Some(a == b), a.checked_ult(b).ok(), a.checked_sge(b).ok(), a.checked_ule(b).ok()];
        Some(ApInt::from(c.iter().fold(0u64, |n, o| 3 * n + o.map_or(2, |x| x as u64))))
    }),
];

pub struct Item {
    pub n: usize,
    pub c: Call,
    pub fs: Arc<Shared<Vec<Form>>>,
    pub d: ApInt,
    pub s: ApInt,
    d2: ApInt,
    alone: Vec<(Outcome, ApInt, ApInt)>,
    shown: Vec<Option<String>>,
    lent: Vec<Option<Option<ApInt>>>,
}

/// Reply and operands afterwards.
fn make(f: &Form, d: &ApInt, s: &ApInt, c: &Call) -> (Outcome, ApInt, ApInt) {
    let (mut dd, mut ss) = (d.clone(), s.clone());
    let o = guard(|| (f.f)(&mut dd, &mut ss, c));
    (o, dd, ss)
}
fn lend(i: usize, d: &ApInt, s: &ApInt) -> Option<Option<ApInt>> {
    guard(|| (LENT[i].1)(d, s))
}
fn same(a: &(Outcome, ApInt, ApInt), b: &(Outcome, ApInt, ApInt)) -> bool {
    (match (&a.0, &b.0) {
        (None, None) => true,
        (Some(Ok(x)), Some(Ok(y))) => x == y,
        (Some(Err(x)), Some(Err(y))) => x.kind() == y.kind(),
        _ => false,
    }) && a.1 == b.1
        && a.2 == b.2
}
fn tell(a: &(Outcome, ApInt, ApInt)) -> String {
    format!("{} leaving {} and {}", show_out(&a.0), show(&a.1), show(&a.2))
}

impl Item {
    pub fn new(n: usize, c: Call, fs: Arc<Shared<Vec<Form>>>, d: ApInt, s: ApInt) -> Item {
        let alone = fs.0.iter().map(|f| make(f, &d, &s, &c)).collect();
        let shown = portrait(&d);
        let lent = (0..LENT.len()).map(|i| lend(i, &d, &s)).collect();
        Item { n, c, fs, d2: d.clone(), d, s, alone, shown, lent }
    }
}

pub struct Alarm {
    pub n: usize,
    pub form: &'static str,
    pub what: String,
}

/// Runs the items on all threads; what came out differently, and how many
/// comparisons were made.
pub fn together(items: Vec<Item>, rounds: usize) -> (Vec<Alarm>, usize) {
    let last = items.last().map_or(0, |i| i.n);
    let items = Arc::new(Shared(items));
    let alarms: Arc<Mutex<Vec<Alarm>>> = Arc::new(Mutex::new(vec![]));
    let passed: Arc<Mutex<Vec<Shared<(usize, usize, ApInt)>>>> = Arc::new(Mutex::new(vec![]));
    let count = Arc::new(AtomicUsize::new(0));
    let gate = Arc::new(Barrier::new(THREADS));
    let stop = Arc::new(AtomicBool::new(false));
    let (tx, rx) = mpsc::channel();
    for t in 0..THREADS {
        let (items, alarms, passed, count, gate, tx, stop) =
            (items.clone(), alarms.clone(), passed.clone(), count.clone(), gate.clone(), tx.clone(), stop.clone());
        std::thread::spawn(move || {
            let items = &items;
            let say = |n, form, what| {
                alarms.lock().unwrap().push(Alarm { n, form, what });
                stop.store(true, Relaxed);
            };
            gate.wait();
            let len = items.0.len();
            let mut made = 0;
            for r in 0..rounds {
                for k in 0..len {
                    // Half of the threads work at the same place, half elsewhere.
                    let i = (k + (t / 2) * len / THREADS + r * t) % len;
                    let x = &items.0[i];
                    let nf = x.fs.0.len();
                    if nf > 0 {
                        let j = (x.n + t + r) % nf;
                        let got = make(&x.fs.0[j], &x.d, &x.s, &x.c);
                        made += 1;
                        if !same(&got, &x.alone[j]) {
                            say(x.n, x.fs.0[j].name, format!("{} of {} and {}: {} while other threads run, {} alone",
                                x.c.op, show(&x.d), show(&x.s), tell(&got), tell(&x.alone[j])));
                        }
                        if (k + r) % 8 == 0 {
                            let other = {
                                let mut p = passed.lock().unwrap();
                                p.push(Shared((i, j, got.1)));
                                if p.len() > THREADS { Some(p.swap_remove(k % THREADS)) } else { None }
                            };
                            if let Some(Shared((i, j, v))) = other {
                                let y = &items.0[i];
                                if v != y.alone[j].1 {
                                    say(y.n, y.fs.0[j].name, format!("{} came to another thread as {}", show(&y.alone[j].1), show(&v)));
                                }
                                made += 1;
                            }
                        }
                    }
                    let l = (k + t + r) % LENT.len();
                    for l in [l, (l + 5) % LENT.len()] {
                        made += 1;
                        let got = lend(l, &x.d, &x.s);
                        if got != x.lent[l] {
                            say(x.n, LENT[l].0, format!("{} of {} and {}, shared: {:?} while other threads run, {:?} alone",
                                LENT[l].0, show(&x.d), show(&x.s), got, x.lent[l]));
                        }
                    }
                    made += 1;
                    if x.d != x.d2 {
                        say(x.n, "==", format!("{} reads differently while other threads read it", show(&x.d2)));
                    }
                    if (k + r) % 64 == t {
                        made += 1;
                        let got = portrait(&x.d);
                        if got != x.shown {
                            say(x.n, "reading", format!("{} reads differently while other threads read it", show(&x.d)));
                        }
                    }
                    if stop.load(Relaxed) {
                        break;
                    }
                }
            }
            count.fetch_add(made, SeqCst);
            let _ = tx.send(());
        });
    }
    drop(tx);
    for _ in 0..THREADS {
        match rx.recv_timeout(Duration::from_secs(90)) {
            Ok(()) => {}
            Err(mpsc::RecvTimeoutError::Timeout) => {
                alarms.lock().unwrap().push(Alarm { n: last, form: "threads", what: "the threads do not finish".into() });
                break;
            }
            Err(_) => {
                alarms.lock().unwrap().push(Alarm { n: last, form: "threads", what: "a thread died".into() });
                break;
            }
        }
    }
    let found = std::mem::take(&mut *alarms.lock().unwrap());
    (found, count.load(SeqCst))
}
