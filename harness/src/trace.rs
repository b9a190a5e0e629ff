//! Trace-based exploration (C12): every execution of an operation must produce the same sequence of control-flow
//! edges and of load and store addresses as every other execution with the same public parameters.
//!
//! Recorders: `sancov` (feature `ct`: the compiler's coverage instrumentation, all targets) and `step` (x86_64: the
//! processor's trap flag, one event per machine instruction of the uninstrumented binary).

use crate::engine::*;
use crate::ops::*;
use crate::rt;
use core::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// compare results with the model
    Model,
    /// compare instrumentation traces
    Sancov,
    /// compare machine instruction traces
    Step,
    /// compare results with the model, with memory shared between operations read-only
    Watch,
    /// compare results obtained with different leftovers on the stack and in registers
    Ambient,
    /// compare results with the model, wherever the operands lie
    Placed,
    /// compare results obtained with the operands in different places
    Moved,
}

const SLOTS: usize = 1 << 15;
static mut TABLE: [(u64, u64, u64); SLOTS] = [(0, 0, 0); SLOTS];
pub static mut EVENTS: u64 = 0;
pub static mut BASELINES: u64 = 0;

pub fn events() -> u64 {
    unsafe { EVENTS }
}

fn slot(key: u64) -> &'static mut (u64, u64, u64) {
    let mut i = key as usize % SLOTS;
    unsafe {
        loop {
            let s = &mut *(&raw mut TABLE[i]);
            if s.0 == key || s.0 == 0 {
                return s;
            }
            i = (i + 1) % SLOTS;
        }
    }
}

/// is the operation's behaviour allowed to depend on its operands?
pub fn public(op: u8) -> bool {
    matches!(op, EQ | IS_ZERO | FMT | FMT_FAIL | FMT_SPEC | SHOW)
}

/// operand bytes that are public parameters: the number of keys of a long chain
pub fn public_range(c: &Case) -> core::ops::Range<usize> {
    match c.op {
        LONG_CHAIN_ENC | LONG_CHAIN_DEC => {
            let n = WN[c.w as usize];
            n..n + 2
        }
        _ => 0..0,
    }
}

fn canonical(c: &mut Case) {
    let keep = public_range(c);
    for i in 0..c.len {
        if !keep.contains(&i) {
            c.data[i] = (i as u8).wrapping_mul(0x6b) ^ 0x35;
        }
    }
}

#[cfg(feature = "ct")]
mod rec {
    pub fn start(r: bool) {
        ctrt::start(r)
    }
    pub fn stop() -> (u64, u64) {
        ctrt::stop()
    }
    pub fn recorded(i: usize) -> (u8, usize) {
        ctrt::recorded(i)
    }
    pub const CAP: usize = ctrt::CAP;
    pub const PER: usize = 1;
}

#[cfg(all(feature = "hosted", target_arch = "x86_64", not(feature = "ct"), not(miri)))]
mod rec {
    //! EFLAGS.TF: a SIGTRAP after every instruction
    static mut H: u64 = 0;
    static mut N: u64 = 0;
    static mut REC: bool = false;
    pub const CAP: usize = 1 << 14;
    /// entries `recorded` offers per event
    pub const PER: usize = 2;
    static mut BUF: [(usize, usize); CAP] = [(0, 0); CAP];

    /// What the next instruction will access, apart from displacements (constant for a given instruction): base plus
    /// scaled index of its memory operand, or the registers a string instruction uses. 0 if it has no memory operand.
    unsafe fn operand(pc: *const u8, g: &[i64; 23]) -> u64 {
        // registers in encoding order
        let r = |n: u8| -> u64 {
            use libc::*;
            let i = [
                REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10,
                REG_R11, REG_R12, REG_R13, REG_R14, REG_R15,
            ][n as usize & 15];
            g[i as usize] as u64
        };
        let mut p = pc;
        let mut next = || {
            let b = *p;
            p = p.add(1);
            b
        };
        let mut b = next();
        while matches!(b, 0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0) {
            b = next();
        }
        // extension bits of index and base
        let (mut x, mut bb) = (0u8, 0u8);
        let modrm;
        match b {
            0xc5 => {
                next();
                let op = next();
                if op == 0x77 {
                    return 0;
                }
                modrm = next();
            }
            0xc4 | 0x62 => {
                let e = next();
                x = (!e >> 6 & 1) << 3;
                bb = (!e >> 5 & 1) << 3;
                next();
                if b == 0x62 {
                    next();
                }
                let op = next();
                if b == 0xc4 && e & 0x1f == 1 && op == 0x77 {
                    return 0;
                }
                modrm = next();
            }
            _ => {
                if b & 0xf0 == 0x40 {
                    x = (b >> 1 & 1) << 3;
                    bb = (b & 1) << 3;
                    b = next();
                }
                if b == 0x0f {
                    let op = next();
                    match op {
                        0x38 | 0x3a => {
                            next();
                            modrm = next();
                        }
                        0x05..=0x09 | 0x0b | 0x1e..=0x1f | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2
                        | 0xa8..=0xaa | 0xc8..=0xcf => return 0,
                        _ => modrm = next(),
                    }
                } else {
                    match b {
                        0xa4..=0xa7 | 0xaa..=0xaf => {
                            // string instructions
                            return r(6).rotate_left(21) ^ r(7).rotate_left(42) ^ r(1) ^ 1 << 63;
                        }
                        0x8d => return 0, // address computation only
                        0x00..=0x3f => {
                            if b & 7 >= 4 {
                                return 0;
                            }
                            modrm = next();
                        }
                        0x62 | 0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc4..=0xc7 | 0xd0..=0xd3
                        | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => modrm = next(),
                        _ => return 0,
                    }
                }
            }
        }
        if modrm >> 6 == 3 {
            return 0;
        }
        let rm = modrm & 7;
        if rm == 5 && modrm >> 6 == 0 {
            return 0; // relative to the program counter
        }
        if rm != 4 {
            return r(rm | bb);
        }
        let sib = next();
        let base = if sib & 7 == 5 && modrm >> 6 == 0 { 0 } else { r(sib & 7 | bb) };
        let idx = sib >> 3 & 7 | x;
        let index = if idx == 4 { 0 } else { r(idx) << (sib >> 6) };
        base.wrapping_add(index)
    }

    extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, u: *mut libc::c_void) {
        unsafe {
            let u = &*(u as *const libc::ucontext_t);
            let pc = u.uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
            let ea = operand(pc as *const u8, &u.uc_mcontext.gregs);
            H = (H.rotate_left(7) ^ pc).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            H = (H.rotate_left(9) ^ ea).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            if REC && (N as usize) < CAP {
                BUF[N as usize] = (pc as usize, ea as usize);
            }
            N += 1;
        }
    }
    pub fn install() {
        unsafe {
            let mut a: libc::sigaction = core::mem::zeroed();
            a.sa_sigaction = on_trap as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO;
            assert!(libc::sigaction(libc::SIGTRAP, &a, core::ptr::null_mut()) == 0);
        }
    }
    #[inline(always)]
    pub fn start(r: bool) {
        unsafe {
            H = 0;
            N = 0;
            REC = r;
            core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
    }
    #[inline(always)]
    pub fn stop() -> (u64, u64) {
        unsafe {
            core::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
            (H, N)
        }
    }
    /// even events are program counters, odd ones the addresses used there
    pub fn recorded(i: usize) -> (u8, usize) {
        unsafe {
            if i % 2 == 0 {
                (1, BUF[i / 2].0)
            } else {
                (0x80, BUF[i / 2].1)
            }
        }
    }
}

#[cfg(not(any(feature = "ct", all(feature = "hosted", target_arch = "x86_64", not(miri)))))]
mod rec {
    pub const CAP: usize = 0;
    pub const PER: usize = 1;
    pub fn start(_: bool) {
        crate::say!("CRASH no trace recorder in this build");
        crate::rt::exit(2)
    }
    pub fn stop() -> (u64, u64) {
        (0, 0)
    }
    pub fn recorded(_: usize) -> (u8, usize) {
        (0, 0)
    }
}

pub fn init(m: Mode) {
    #[cfg(all(feature = "hosted", target_arch = "x86_64", not(feature = "ct"), not(miri)))]
    if m == Mode::Step {
        rec::install();
    }
    if (m == Mode::Sancov) != cfg!(feature = "ct") && !matches!(m, Mode::Model | Mode::Ambient | Mode::Placed | Mode::Moved) {
        crate::say!("CRASH this build cannot record such traces");
        rt::exit(2)
    }
}

/// the traced execution; returns where the stack was, the hash and the number of events
#[inline(never)]
fn traced(c: &Case, out: &mut Out, record: bool) -> (u64, u64, u64) {
    let here = 0u8;
    let sp = core::hint::black_box(&here) as *const u8 as u64;
    rec::start(record);
    run_impl(c, out);
    let (h, n) = rec::stop();
    (sp, h, n)
}

fn key_of(c: &Case, sp: u64) -> u64 {
    let mut x = [0u8; 40];
    x[0] = c.op;
    x[1] = c.w;
    x[2] = c.p;
    x[32..36].copy_from_slice(&c.route.to_le_bytes());
    x[5..9].copy_from_slice(&(c.len as u32).to_le_bytes());
    x[9..17].copy_from_slice(&sp.to_le_bytes());
    for (i, j) in public_range(c).enumerate() {
        x[17 + i] = c.data[j];
    }
    hash(1, &x) | 1
}

/// differences that were not there the second time
static mut STRAYS: u32 = 0;

/// `c` executed with its operands, compared with the execution on the canonical operands
#[inline(never)]
pub fn check_trace(c: &mut Case, out: &mut Out, scratch: &mut [u8; CASE_CAP]) -> Result<(u64, u64), rt::Line> {
    rt::set_current(c);
    let mut r = traced(c, out, false);
    let mut s = slot(key_of(c, r.0));
    if s.0 == 0 {
        // first use of this operation from this place: take the canonical operands as the standard
        scratch[..c.len].copy_from_slice(&c.data[..c.len]);
        canonical(c);
        for _ in 0..2 {
            let b = traced(c, out, false);
            s = slot(key_of(c, b.0));
            *s = (key_of(c, b.0), b.1, b.2);
        }
        unsafe {
            BASELINES += 1;
            if BASELINES as usize > SLOTS / 2 {
                crate::say!("CRASH too many baselines");
                rt::exit(2)
            }
        }
        c.data[..c.len].copy_from_slice(&scratch[..c.len]);
        r = traced(c, out, false);
        s = slot(key_of(c, r.0));
        if s.0 == 0 {
            crate::say!("CRASH the stack moved between two calls");
            rt::exit(2)
        }
    }
    rt::clear_current();
    unsafe { EVENTS += r.2 };
    if (s.1, s.2) == (r.1, r.2) {
        return Ok((r.1, r.2));
    }
    // find the first difference
    const KEEP: usize = 1 << 15;
    static mut FIRST: [(u8, usize); KEEP] = [(0, 0); KEEP];
    scratch[..c.len].copy_from_slice(&c.data[..c.len]);
    let a = traced(c, out, true);
    let m = ((a.2 as usize).min(rec::CAP) * rec::PER).min(KEEP);
    for i in 0..m {
        unsafe { FIRST[i] = rec::recorded(i) };
    }
    canonical(c);
    let b = traced(c, out, true);
    let m2 = ((b.2 as usize).min(rec::CAP) * rec::PER).min(KEEP);
    if a == b && key_of(c, b.0) == key_of(c, r.0) {
        // not a matter of the operands
        unsafe {
            STRAYS += 1;
            if STRAYS <= 2 {
                *slot(key_of(c, b.0)) = (key_of(c, b.0), b.1, b.2);
                c.data[..c.len].copy_from_slice(&scratch[..c.len]);
                return Ok((b.1, b.2));
            }
        }
    }
    let mut l = rt::Line::new();
    let _ = write!(l, "events {} instead of {};", a.2, b.2);
    for i in 0..m.min(m2) {
        let (x, y) = unsafe { (FIRST[i], rec::recorded(i)) };
        if x != y {
            let kind = |k: u8| match k & 0xe0 {
                0x80 => "load",
                0x40 => "store",
                0x20 => "division",
                _ => "jump",
            };
            let _ = write!(l, " first difference at event {}: {} {:x} instead of {} {:x}", i / rec::PER, kind(x.0), x.1, kind(y.0), y.1);
            break;
        }
    }
    c.data[..c.len].copy_from_slice(&scratch[..c.len]);
    Err(l)
}
pub const CASE_CAP: usize = crate::ops::CAP;
