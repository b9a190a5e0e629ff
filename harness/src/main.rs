//! Bounded exhaustive exploration of the real `aes_crypto` code against an independent FIPS-197 model.
//!
//!   mc run <suite> <level> <shards> [<only this shard>]
//!   mc replay <op> <w> <p> <route> <hex data>
#![cfg_attr(not(feature = "hosted"), no_std)]
#![cfg_attr(not(feature = "hosted"), no_main)]
#![allow(clippy::needless_range_loop)]

mod ambient;
mod engine;
mod ops;
mod place;
#[cfg(all(feature = "hosted", not(miri)))]
mod purity;
mod refmodel;
mod rt;
mod suites;
mod trace;

use engine::*;
use ops::*;

fn num(s: &str) -> u64 {
    let mut n = 0;
    for b in s.bytes() {
        if !b.is_ascii_digit() {
            say!("CRASH bad number {}", s);
            rt::exit(2)
        }
        n = n * 10 + (b - b'0') as u64;
    }
    n
}

fn replay(args: &[&str]) {
    let Some(op) = NAMES.iter().position(|n| *n == args[0]) else { suites::unknown(args[0]) };
    let mut c = Case::new(op as u8, num(args[1]) as u8, num(args[2]) as u8);
    c.route = num(args[3]) as u32;
    let h = args[4].as_bytes();
    for i in 0..h.len() / 2 {
        let d = |b: u8| (b as char).to_digit(16).unwrap() as u8;
        c.push(&[d(h[2 * i]) << 4 | d(h[2 * i + 1])]);
    }
    rt::set_current(&c);
    let (mut a, mut b) = (Out::new(), Out::new());
    run_model(&c, &mut b);
    run_impl(&c, &mut a);
    let mut l = rt::Line::new();
    use core::fmt::Write;
    let _ = write!(l, "{} ", if a.bytes() == b.bytes() { "SAME" } else { "DIFFERENT" });
    describe(&mut l, &c);
    let _ = write!(l, " expected=");
    print_hex(&mut l, b.bytes());
    let _ = write!(l, " got=");
    print_hex(&mut l, a.bytes());
    l.flush();
}

pub fn entry(args: &[&str]) {
    if args.len() < 2 {
        say!("CRASH usage");
        rt::exit(2)
    }
    if let Err(e) = refmodel::self_test() {
        say!("CRASH the reference model fails its own known answers: {}", e);
        rt::exit(2)
    }
    match args[0] {
        "run" => {
            // <recorder>:<suite> compares traces instead of results
            let (mode, name) = match args[1].split_once(':') {
                Some(("trace", n)) => (trace::Mode::Sancov, n),
                Some(("step", n)) => (trace::Mode::Step, n),
                Some(("ambient", n)) => (trace::Mode::Ambient, n),
                Some(("placed", n)) => (trace::Mode::Placed, n),
                Some(("moved", n)) => (trace::Mode::Moved, n),
                _ => (trace::Mode::Model, args[1]),
            };
            // <oracle>.<suite> compares results with something other than the model
            let (oracle, name) = match name.split_once('.') {
                Some(("rel", n)) => (Oracle::Relative, n),
                Some(("digest", n)) => (Oracle::Digest, n),
                _ => (Oracle::Model, name),
            };
            trace::init(mode);
            let f = suites::find(name).unwrap_or_else(|| suites::unknown(name));
            run(name, f, mode, oracle, num(args[2]) as u8, num(args[3]), args.get(4).map(|s| num(s)));
        }
        "replay" => replay(&args[1..]),
        x => suites::unknown(x),
    }
    say!("DONE");
}

#[cfg(feature = "hosted")]
fn run(name: &str, f: suites::Suite, mode: trace::Mode, oracle: Oracle, level: Level, shards: u64, only: Option<u64>) {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::atomic::AtomicU32;
    let words = [1usize << 12, 1 << 16, 1 << 21, 1 << 25][level as usize];
    let bits: Vec<AtomicU32> = (0..words).map(|_| AtomicU32::new(0)).collect();
    let bits = &bits[..];
    #[cfg(not(miri))]
    let watched = // (the recorders are to see one thread only)
        !matches!(mode, trace::Mode::Sancov | trace::Mode::Step | trace::Mode::Watch) && !suites::FORKING.contains(&name);
    #[cfg(not(miri))]
    if watched {
        rt::watch::start();
    }
    let one = |i: u64| {
        #[cfg(not(miri))]
        if watched {
            rt::watch::join(i as usize);
        }
        let mut c = Ctx::new(level, i, shards, bits);
        c.mode = mode;
        c.oracle = oracle;
        if catch_unwind(AssertUnwindSafe(|| f(&mut c))).is_err() {
            if rt::current().is_null() {
                say!("CRASH the harness panicked");
                rt::exit(2)
            }
            rt::clear_current();
            c.report_note("panic", "the operation panicked");
        }
        c.finish();
    };
    if shards == 1 || only.is_some() {
        one(only.unwrap_or(0));
    } else {
        std::thread::scope(|s| {
            for i in 0..shards {
                let one = &one;
                s.spawn(move || one(i));
            }
        });
    }
}

#[cfg(not(feature = "hosted"))]
fn run(_name: &str, f: suites::Suite, mode: trace::Mode, oracle: Oracle, level: Level, shards: u64, only: Option<u64>) {
    use core::sync::atomic::AtomicU32;
    static BITS: [AtomicU32; 1 << 16] = [const { AtomicU32::new(0) }; 1 << 16];
    let (i, n) = only.map_or((0, 1), |i| (i, shards));
    let mut c = Ctx::new(level, i, n, &BITS);
    c.mode = mode;
    c.oracle = oracle;
    f(&mut c);
    c.finish();
}

#[cfg(feature = "hosted")]
fn main() {
    rt::init();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    entry(&a);
    // the exit code says only that the exploration ran; verdicts are the VIOL lines
    rt::exit(0)
}
