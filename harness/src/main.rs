//! Conformance of the apint crate with the Quint specification in ../spec.
//!
//!   conform replay --mode MODE FILE.itf.json ...
//!
//! replays behaviours of the specification into the crate and compares, after
//! every step, the reply and the registers.  One JSON line per discrepancy and
//! one summary line are printed.
//!
//!   conform record --seed S --steps N --ops GROUP
//!
//! drives the crate with its own random walk and prints what it observed, for
//! validation against the specification (../spec/trace.qnt).

mod alloc;
mod big;
mod forms;
mod itf;
mod observe;
mod record;
mod replay;
mod shapes;
mod threads;

#[global_allocator]
static GLOBAL: alloc::Checking = alloc::Checking;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("replay") => replay::main(&args[1..]),
        Some("record") => record::main(&args[1..]),
        _ => {
            eprintln!("usage: conform replay|record ...");
            2
        }
    };
    std::process::exit(code);
}
