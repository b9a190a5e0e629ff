//! C13: operations are pure. Hosted builds only.
//!
//! * `histories`: every sequence of operations up to a depth, each history in its own process image (forked tree), every
//!   result compared with the model.
//! * `monitor`: every operation, alone and after every other one, with all writable memory outside the stack made
//!   read-only: an operation that stores to memory shared between operations is noticed by the fault. Where no operation
//!   does, all interleavings commute.
//! * `preempt` (x86_64): the processor's trap flag stops operation A after every machine instruction; there the process
//!   is forked and another operation B runs to completion (one preemption), or is itself stopped at every instruction
//!   and A completed first (two preemptions).

use crate::engine::*;
use crate::ops::*;
use crate::refmodel as rm;
use crate::rt;
use crate::suites::{base_key, BASE};
use aes_crypto::*;
use core::fmt::Write;

enum Any {
    A(Obj<Aes128Enc, Aes128Dec>),
    B(Obj<Aes192Enc, Aes192Dec>),
    C(Obj<Aes256Enc, Aes256Dec>),
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    /// the whole case: building the cipher included
    Run,
    /// the cipher is a live object shared by all operations
    Use(usize),
    /// an object derived from a live one (false: converted, true: cloned), then used
    Derive(usize, bool),
}

struct Act {
    case: Case,
    how: How,
    expect: Vec<u8>,
}

struct World {
    objs: Vec<Any>,
    acts: Vec<Act>,
}

const WORLD_KEY: usize = 6;

/// Set up before the crate is first used: a process that forks a child for every request, in which the operation is the
/// first one ever executed.
static mut ZYGOTE: [i32; 2] = [-1; 2];

fn zygote() {
    unsafe {
        if ZYGOTE[0] >= 0 {
            return;
        }
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
        match libc::fork() {
            0 => {
                libc::close(a[1]);
                libc::close(b[0]);
                let mut c = Case::new(0, 0, 0);
                while read_all(a[0], (&raw mut c).cast(), size_of::<Case>()) {
                    let p = libc::fork();
                    if p == 0 {
                        rt::quiet();
                        let mut o = Out::new();
                        if no_panic(|| run_impl(&c, &mut o)) {
                            libc::write(b[1], (&raw const o).cast(), size_of::<Out>());
                            libc::_exit(0)
                        }
                        libc::_exit(5)
                    }
                    if wait(p) != 0 {
                        let o = Out { len: usize::MAX, data: [0; CAP] };
                        libc::write(b[1], (&raw const o).cast(), size_of::<Out>());
                    }
                }
                libc::_exit(0)
            }
            p => assert!(p > 0),
        }
        libc::close(a[0]);
        libc::close(b[1]);
        ZYGOTE = [b[0], a[1]];
    }
}

unsafe fn read_all(fd: i32, p: *mut u8, n: usize) -> bool {
    let mut at = 0;
    while at < n {
        let r = libc::read(fd, p.add(at).cast(), n - at);
        if r <= 0 {
            return false;
        }
        at += r as usize;
    }
    true
}

/// the result of an operation that is the first of its process; None if it ends abnormally even there
pub fn fresh(c: &Case) -> Option<Vec<u8>> {
    unsafe {
        let mut o = Out::new();
        if libc::write(ZYGOTE[1], (&raw const *c).cast(), size_of::<Case>()) != size_of::<Case>() as isize
            || !read_all(ZYGOTE[0], (&raw mut o).cast(), size_of::<Out>())
        {
            crate::say!("CRASH zygote");
            rt::exit(2)
        }
        (o.len <= CAP).then(|| o.bytes().to_vec())
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Menu {
    /// operations on their own and on live objects
    Warm,
    /// those and operations that fail
    Refusals,
    /// nothing of the crate has been executed in this process yet: no live objects
    Cold,
}

fn world(l: Level, menu: Menu) -> World {
    zygote();
    let mut objs = Vec::new();
    let key = base_key(WORLD_KEY);
    for r in if menu == Menu::Cold { &[][..] } else { &[R_ENC, R_DEC] } {
        let r = *r;
        objs.push(Any::A(build::<16, Aes128Enc>(r, &key)));
        objs.push(Any::B(build::<24, Aes192Enc>(r, &key)));
        objs.push(Any::C(build::<32, Aes256Enc>(r, &key)));
    }
    let mut acts = Vec::new();
    let mut add = |op: u8, w: u8, p: u8, r: u32, parts: &[&[u8]], how: How| {
        let mut case = Case::with(op, w, p, parts);
        case.route = r;
        let how = if menu == Menu::Cold { How::Run } else { how };
        // an operation that fails even alone is no concern of this property
        if let Some(expect) = fresh(&case) {
            acts.push(Act { case, how, expect });
        }
    };
    let mut x = [0u8; 320];
    for (i, b) in x.iter_mut().enumerate() {
        *b = (i as u8).wrapping_mul(0x2f).wrapping_add(0x11) ^ (i / 16) as u8;
    }
    for kl in 0..3u8 {
        let n = rm::KEYLEN[kl as usize];
        for (i, r) in [(3usize, R_ENC), (5, R_ENC), (3, R_DEC), (5, R_DEC)] {
            add(CIPHER, 0, kl, r, &[&base_key(i)[..n], &BASE[i]], How::Run);
        }
        let wk = &key[..n];
        let (e, d) = (kl as usize, kl as usize + 3);
        for w in 0..3u8 {
            let m = WN[w as usize];
            add(CIPHER, w, kl, R_ENC, &[wk, &x[..m]], How::Use(e));
            add(CIPHER, w, kl, R_DEC, &[wk, &x[..m]], How::Use(d));
        }
        add(CIPHER, 0, kl, R_ENC, &[wk, &x[64..80]], How::Use(e));
        add(CIPHER, 0, kl, R_DEC, &[wk, &x[64..80]], How::Use(d));
        add(CIPHER, 0, kl, R_ENC_TO_DEC, &[wk, &x[..16]], How::Derive(e, false));
        add(CIPHER, 0, kl, R_DEC_TO_ENC, &[wk, &x[..16]], How::Derive(d, false));
        if l >= 1 {
            add(CIPHER, 0, kl, R_ENC, &[wk, &x[16..32]], How::Derive(e, true));
            add(CIPHER, 0, kl, R_DEC, &[wk, &x[16..32]], How::Derive(d, true));
        }
    }
    let mut prim = |op: u8, w: u8, p: u8, parts: &[&[u8]]| add(op, w, p, 0, parts, How::Run);
    for op in [ENC, DEC, ENC_LAST, DEC_LAST] {
        prim(op, 0, 0, &[&x[..32]]);
        prim(op, 0, 0, &[&x[128..160]]);
        prim(op, 1, 0, &[&x[16..80]]);
        prim(op, 2, 0, &[&x[32..160]]);
    }
    for op in [MC, IMC] {
        prim(op, 0, 0, &[&x[..16]]);
        prim(op, 0, 0, &[&x[96..112]]);
    }
    for w in 0..3u8 {
        let n = WN[w as usize];
        for op in [CHAIN_ENC, CHAIN_DEC] {
            prim(op, w, 0, &[&x[..4 * n]]);
            if w == 0 {
                prim(op, w, 0, &[&x[32..96]]);
                prim(op, w, 0, &[&x[..32]]);
            }
        }
        for op in [XOR, EQ] {
            prim(op, w, 0, &[&x[..2 * n]]);
        }
        for op in [IS_ZERO, TRY_FROM, STORE, NEW] {
            prim(op, w, 0, &[&x[..n]]);
        }
        prim(FMT, w, 2, &[&x[..n]]);
    }
    prim(U128_FROM, 0, 0, &[&x[..16]]);
    prim(U128_INTO, 0, 0, &[&x[..16]]);
    prim(X2_FROM_PAIR, 1, 0, &[&x[..32]]);
    prim(X4_FROM_4, 2, 0, &[&x[..64]]);
    prim(X4_INTO_4, 2, 0, &[&x[..64]]);
    prim(FMT, 0, 5, &[&x[..16]]);
    if menu == Menu::Refusals {
        // operations that fail: what they leave behind concerns those that follow
        for w in 0..3u8 {
            let n = WN[w as usize];
            for p in [0, 1, 2] {
                prim(REFUSED, w, p, &[&x[..n]]);
            }
            prim(TRY_FROM_SLICE, w, 0, &[&x[..n - 1]]);
            prim(FMT_FAIL, w, 2, &[&x[..n], &[7]]);
        }
    }
    World { objs, acts }
}

#[inline(never)]
fn exec(w: &World, a: &Act, out: &mut Out) {
    out.len = 0;
    let x = &a.case.bytes()[if a.how == How::Run { 0 } else { rm::KEYLEN[a.case.p as usize] }..];
    fn derive<E: Clone, D: Clone>(o: &Obj<E, D>, clone: bool, ed: fn(&E) -> D, de: fn(&D) -> E) -> Obj<E, D> {
        match (o, clone) {
            (Obj::E(e), true) => Obj::E(e.clone()),
            (Obj::D(d), true) => Obj::D(d.clone()),
            (Obj::E(e), false) => Obj::D(ed(e)),
            (Obj::D(d), false) => Obj::E(de(d)),
        }
    }
    match a.how {
        How::Run => run_impl(&a.case, out),
        How::Use(i) => match &w.objs[i] {
            Any::A(o) => apply::<16, Aes128Enc>(o, a.case.w, x, out),
            Any::B(o) => apply::<24, Aes192Enc>(o, a.case.w, x, out),
            Any::C(o) => apply::<32, Aes256Enc>(o, a.case.w, x, out),
        },
        How::Derive(i, clone) => match &w.objs[i] {
            Any::A(o) => apply::<16, Aes128Enc>(
                &derive(o, clone, |e| e.decrypter(), |d| d.encrypter()), a.case.w, x, out),
            Any::B(o) => apply::<24, Aes192Enc>(
                &derive(o, clone, |e| e.decrypter(), |d| d.encrypter()), a.case.w, x, out),
            Any::C(o) => apply::<32, Aes256Enc>(
                &derive(o, clone, |e| e.decrypter(), |d| d.encrypter()), a.case.w, x, out),
        },
    }
}

fn desc(l: &mut rt::Line, a: &Act) {
    let h = match a.how {
        How::Run => "".to_string(),
        How::Use(i) => format!("on_live_object_{i}:"),
        How::Derive(i, c) => format!("on_{}_of_live_object_{i}:", if c { "clone" } else { "conversion" }),
    };
    let _ = write!(l, "{h}{}/w{}/p{}/route{}/", a.case.name(), a.case.w, a.case.p, a.case.route);
    print_hex(l, a.case.bytes());
}

/// fork; in the child run `f` and exit with its result; the parent gets the child's exit code
fn in_fork(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        match libc::fork() {
            0 => {
                let mut r = 0;
                if !no_panic(|| r = f()) {
                    r = 5;
                }
                libc::_exit(r)
            }
            p if p > 0 => wait(p),
            _ => {
                crate::say!("CRASH fork");
                libc::_exit(3)
            }
        }
    }
}

fn no_panic(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok()
}

unsafe fn wait(p: libc::pid_t) -> i32 {
    let mut st = 0;
    while libc::waitpid(p, &mut st, 0) != p {}
    if libc::WIFEXITED(st) {
        libc::WEXITSTATUS(st)
    } else {
        100 + libc::WTERMSIG(st)
    }
}

/// one operation in this very process; true if its result is the model's
fn good(w: &World, a: &Act) -> bool {
    let mut o = Out::new();
    rt::set_current(&a.case);
    exec(w, a, &mut o);
    rt::clear_current();
    o.bytes() == &a.expect[..]
}

// ------------------------------------------------------------------------------------------- histories

pub fn histories(c: &mut Ctx) {
    let w = world(c.level, Menu::Refusals);
    sequences(c, &w, [1, 2, 3, 4][c.level as usize]);
}

fn sequences(c: &mut Ctx, w: &World, depth: usize) {
    fn dfs(w: &World, path: &mut Vec<usize>, depth: usize) -> i32 {
        let i = *path.last().unwrap();
        let a = &w.acts[i];
        rt::arm(150);
        let ok = good(w, a);
        rt::arm(0);
        if !ok {
            let mut l = rt::Line::new();
            let _ = write!(l, "VIOL kind=history ");
            describe(&mut l, &a.case);
            let _ = write!(l, " note=wrong result of the last operation of: ");
            for j in path.iter() {
                desc(&mut l, &w.acts[*j]);
                let _ = write!(l, " ");
            }
            l.flush();
            return 1;
        }
        if path.len() < depth {
            for j in 0..w.acts.len() {
                path.push(j);
                let r = in_fork(|| dfs(w, path, depth));
                path.pop();
                if r != 0 {
                    return r;
                }
            }
        }
        0
    }
    let n = w.acts.len() as u64;
    let below = (0..depth).map(|k| n.pow(k as u32)).sum::<u64>();
    for i in 0..w.acts.len() {
        if !c.mine() {
            continue;
        }
        c.set(w.acts[i].case.op, w.acts[i].case.w, w.acts[i].case.p, w.acts[i].case.route, &[w.acts[i].case.bytes()]);
        let r = in_fork(|| dfs(w, &mut vec![i], depth));
        outcome(c, r, "history");
        c.evals += below;
        c.distinct += below;
        c.transitions += below;
    }
}

fn outcome(c: &mut Ctx, r: i32, what: &str) {
    match r {
        0 => {}
        1 => c.fails += 1, // the child has reported it
        5 => c.report_note("panic", &format!("{what}: panicked, though not when executed alone")),
        r if r >= 100 => c.report_note("crash", &format!("{what}: killed by signal {}", r - 100)),
        r => {
            crate::say!("CRASH {} child ended with {}", what, r);
            rt::exit(2)
        }
    }
}

/// long histories within one process: every sequence of operations up to a length, every operation followed by
/// itself on neighbouring operands and repeated many times, every cipher object used many times
pub fn walk(c: &mut Ctx) {
    let w = world(1, Menu::Refusals);
    c.oracle = Oracle::Fresh;
    let (m, l) = (&w.acts, c.level);
    let n = m.len();
    let mut o = Out::new();
    let mut path = [0usize; 4];
    // runs the operations of a path one after the other
    let mut go = |c: &mut Ctx, path: &[usize], what: &str| {
        if c.evals % 4096 == 0 {
            rt::arm(200);
        }
        for (at, &i) in path.iter().enumerate() {
            let a = &m[i];
            rt::set_current(&a.case);
            exec(&w, a, &mut o);
            rt::clear_current();
            if o.bytes() != &a.expect[..] && !c.stop() {
                c.fails += 1;
                let mut l = rt::Line::new();
                let _ = write!(l, "VIOL kind=history ");
                describe(&mut l, &a.case);
                let _ = write!(l, " note=wrong result of the last operation of the history ({what}): ");
                for j in &path[..at + 1] {
                    desc(&mut l, &m[*j]);
                    let _ = write!(l, " ");
                }
                l.flush();
            }
        }
        c.evals += 1;
        c.distinct += what.is_empty() as u64;
        c.transitions += path.len() as u64;
    };
    for i in 0..n {
        if !c.mine() {
            continue;
        }
        for j in 0..n {
            go(c, &[i, j, i], "");
            for k in 0..if l == 0 { 0 } else { n } {
                path[..3].copy_from_slice(&[i, j, k]);
                go(c, &path[..3], "");
                for z in 0..if l < 3 { 0 } else { n } {
                    path[3] = z;
                    go(c, &path, "");
                }
            }
            if c.stop() {
                break;
            }
        }
    }
    // repetition: past 2^8, 2^16 and more uses; the live objects among them
    let times = [300, 70_000, 140_000, 1_100_000][l as usize];
    for i in 0..n {
        if !c.mine() {
            continue;
        }
        for t in 0..times {
            if t % 2 == 0 {
                go(c, &[i], "the same operation many times");
            } else {
                go(c, &[i, (i + 1) % n], "two operations alternating many times");
            }
        }
    }
    // neighbours: a memo that compares too little would confuse them
    let visit = |c: &mut Ctx, x: &Case| {
        c.cur.clone_from(x);
        c.transitions += 1;
        if c.evals % 4096 == 0 {
            rt::arm(200);
        }
        c.check();
    };
    for a in m {
        if !c.mine() || l == 0 && a.how != How::Run {
            continue;
        }
        let a = &a.case;
        visit(c, a);
        let mut b = a.clone();
        let public = crate::trace::public_range(a);
        for i in 0..a.len {
            if public.contains(&i) {
                continue;
            }
            for bit in 0..[1, 8, 8, 8][l as usize] {
                b.data[i] ^= 1 << ((bit + i) & 7);
                visit(c, &b);
                visit(c, a);
                b.data[i] = a.data[i];
            }
            for j in 0..if l == 0 { 0 } else { i } {
                // at level 1: neighbours, and the same position of other words and blocks
                if public.contains(&j) || l < 2 && j + 4 < i && (i - j) % 4 != 0 {
                    continue;
                }
                for kind in 0..3 {
                    let (x, y) = (a.data[i], a.data[j]);
                    (b.data[i], b.data[j]) = match kind {
                        0 => (y, x),                                 // the same bytes in another order
                        1 => (x.wrapping_add(1), y.wrapping_sub(1)), // the same sum
                        _ => (x ^ 0x40, y ^ 0x40),                   // the same exclusive or
                    };
                    visit(c, &b);
                    visit(c, a);
                    (b.data[i], b.data[j]) = (x, y);
                }
            }
        }
    }
    // keys that agree in the four words of one round key and differ elsewhere
    for kl in 0..3u8 {
        let k = rm::KEYLEN[kl as usize];
        for at in 0..=4 * (rm::ROUNDS[kl as usize] + 1) - k / 4 {
            if !c.mine() || l == 0 {
                continue;
            }
            let key = |p: usize, d: u8| {
                let mut win = base_key(5);
                win[p] ^= d;
                rm::Schedule::from_window(&win[..k], at).key()
            };
            let a = key(0, 0);
            for r in [R_ENC, R_DEC, R_ENC_TO_DEC, R_DEC_TO_ENC] {
                for p in 0..k {
                    for d in [1, 0x80, 0xff] {
                        let b = key(p, d);
                        for x in [&a, &b, &a] {
                            visit(c, &{
                                let mut y = Case::with(CIPHER, 0, kl, &[&x[..k], &BASE[5]]);
                                y.route = r;
                                y
                            });
                        }
                    }
                }
            }
        }
    }
    rt::arm(0);
    c.states += 1;
}

// ------------------------------------------------------------------------------------------- shared stores

#[repr(C)]
struct Maps {
    n: usize,
    r: [(usize, usize); 64],
}
static mut MAPS: *mut Maps = core::ptr::null_mut();
static mut WROTE: usize = 0;
// written by a signal handler in the middle of code that does not mention it
#[inline(always)]
unsafe fn wrote() -> usize {
    (&raw const WROTE).read_volatile()
}
#[inline(always)]
unsafe fn set_wrote(a: usize) {
    (&raw mut WROTE).write_volatile(a)
}
static mut ALT: (usize, usize) = (0, 0);

unsafe fn protect(prot: libc::c_int) {
    // read through a pointer to memory that stays writable
    let m = &*MAPS;
    for i in 0..m.n {
        libc::mprotect(m.r[i].0 as *mut _, m.r[i].1 - m.r[i].0, prot);
    }
}

/// What the handlers need while shared pages are inaccessible: at a fixed address, outside any static.
#[cfg(target_arch = "x86_64")]
#[repr(C)]
struct Fix {
    /// accesses to the pages below are being watched
    on: bool,
    /// the instruction being executed accesses one of them
    hit: bool,
    n: usize,
    pages: [usize; 256],
}
#[cfg(target_arch = "x86_64")]
const FIX: *mut Fix = 0x20_0000_0000 as *mut Fix;

#[cfg(target_arch = "x86_64")]
#[inline(always)]
unsafe fn access(prot: libc::c_int) {
    for i in 0..(*FIX).n {
        let r: i64;
        core::arch::asm!("syscall", inlateout("rax") 10i64 => r, in("rdi") (*FIX).pages[i], in("rsi") 4096usize,
            in("rdx") prot as usize, out("rcx") _, out("r11") _, options(nostack));
        let _ = r;
    }
}

extern "C" fn on_store(_: libc::c_int, info: *mut libc::siginfo_t, _u: *mut libc::c_void) {
    unsafe {
        #[cfg(target_arch = "x86_64")]
        if (*FIX).on {
            access(libc::PROT_READ | libc::PROT_WRITE);
            if (*FIX).hit {
                libc::_exit(101)
            }
            (*FIX).hit = true;
            // stop again after this instruction
            (*(_u as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
            return;
        }
        protect(libc::PROT_READ | libc::PROT_WRITE);
        let a = (*info).si_addr() as usize;
        let m = &*MAPS;
        if (0..m.n).any(|i| m.r[i].0 <= a && a < m.r[i].1) && wrote() == 0 {
            set_wrote(a.max(1));
        } else {
            libc::_exit(101)
        }
    }
}

unsafe fn altstack() {
    if ALT.0 == 0 {
        let n = 256 * 1024;
        let p = rt::pages::mmap(n);
        ALT = (p as usize, p as usize + n);
        let s = libc::stack_t { ss_sp: p.cast(), ss_flags: 0, ss_size: n };
        assert!(libc::sigaltstack(&s, core::ptr::null_mut()) == 0);
    }
}

unsafe fn handler(sig: libc::c_int, f: extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void)) {
    let mut a: libc::sigaction = core::mem::zeroed();
    a.sa_sigaction = f as *const () as usize;
    a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
    assert!(libc::sigaction(sig, &a, core::ptr::null_mut()) == 0);
}

/// all writable memory of this process except the stack, the signal stack and the list itself
unsafe fn watch_init() {
    altstack();
    #[cfg(target_arch = "x86_64")]
    {
        let p = libc::mmap(FIX.cast(), size_of::<Fix>(), libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
        assert!(p == FIX.cast());
    }
    handler(libc::SIGSEGV, on_store);
    MAPS = rt::pages::mmap(65536).cast();
    let here = 0u8;
    let here = &raw const here as usize;
    // reading the list allocates: read it once before the reading that counts
    let mut s = String::with_capacity(1 << 16);
    let mut cut = Vec::with_capacity(64);
    for _ in 0..2 {
        use std::io::Read;
        s.clear();
        std::fs::File::open("/proc/self/maps").unwrap().read_to_string(&mut s).unwrap();
    }
    let m = &mut *MAPS;
    for l in s.lines() {
        let mut f = l.split_whitespace();
        let (r, p) = (f.next().unwrap(), f.next().unwrap());
        let (a, b) = r.split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        if !p.starts_with("rw") || (a <= here && here < b) || l.contains("[stack]") {
            continue;
        }
        // neighbouring mappings may have been merged: leave out only the excluded parts
        cut.clear();
        cut.push((a, b));
        #[cfg(target_arch = "x86_64")]
        let fix = (FIX as usize, FIX as usize + size_of::<Fix>().next_multiple_of(4096));
        #[cfg(not(target_arch = "x86_64"))]
        let fix = ALT;
        for (x, y) in [ALT, fix, (MAPS as usize, MAPS as usize + 65536)] {
            let mut i = 0;
            while i < cut.len() {
                let (a, b) = cut[i];
                if a < x && b > x {
                    cut[i] = (a, x);
                    if b > y {
                        cut.push((y, b));
                    }
                } else if a < y && b > y {
                    cut[i] = (y, b);
                } else if a >= x && b <= y {
                    cut[i] = (a, a);
                }
                i += 1;
            }
        }
        for &r in cut.iter() {
            if r.0 < r.1 && m.n < 64 {
                m.r[m.n] = r;
                m.n += 1;
            }
        }
    }
}

/// run with shared memory read-only; (result right, address of the first store to shared memory or 0)
#[inline(never)]
unsafe fn watched(w: &World, a: &Act) -> (bool, usize) {
    let mut o = Out::new();
    set_wrote(0);
    protect(libc::PROT_READ);
    exec(w, a, &mut o);
    protect(libc::PROT_READ | libc::PROT_WRITE);
    (o.bytes() == &a.expect[..], wrote())
}

/// does the watch notice stores? (a store to a static and one to the heap)
unsafe fn watch_self_test(w: &World) -> bool {
    static mut X: u8 = 0;
    let mut ok = true;
    for p in [&raw mut X, w.acts[0].expect.as_ptr() as *mut u8, w.acts.as_ptr() as *mut u8] {
        set_wrote(0);
        let old = p.read_volatile();
        protect(libc::PROT_READ);
        p.write_volatile(old);
        protect(libc::PROT_READ | libc::PROT_WRITE);
        let at = wrote();
        if at != p as usize {
            crate::say!("NOTE store to {p:?} seen at {at:x}");
            ok = false;
        }
    }
    ok
}

/// which operations store to shared memory, alone or after some other operation
fn writers(w: &World, c: &mut Ctx, all: bool) -> Vec<usize> {
    let mut ws = Vec::new();
    for i in 0..w.acts.len() {
        if !all && !c.mine() {
            continue;
        }
        let mut found = 0;
        for j in 0..=w.acts.len() {
            // j = acts.len(): nothing before
            let r = in_fork(|| unsafe {
                if j < w.acts.len() && !good(w, &w.acts[j]) {
                    return 1;
                }
                let (ok, at) = watched(w, &w.acts[i]);
                (!ok) as i32 | ((at != 0) as i32) << 1
            });
            c.evals += 1;
            c.distinct += 1;
            c.transitions += 1;
            if r & 1 == 1 || r > 3 {
                let a = &w.acts[i].case;
                c.set(a.op, a.w, a.p, a.route, &[a.bytes()]);
                c.report_note("history", &format!("wrong result or abnormal end ({r}) of this operation after operation {j}"));
                return ws;
            }
            found |= r;
        }
        if found & 2 != 0 {
            ws.push(i);
        }
    }
    ws
}

pub fn monitor(c: &mut Ctx) {
    let w = world(c.level, Menu::Warm);
    unsafe {
        watch_init();
        if !watch_self_test(&w) {
            crate::say!("CRASH stores to shared memory go unnoticed");
            rt::exit(2)
        }
    }
    let ws = writers(&w, c, false);
    // one hidden state if nobody writes
    c.states += 1 + ws.len() as u64;
    for i in &ws {
        let mut l = rt::Line::new();
        let _ = write!(l, "NOTE shared store by ");
        desc(&mut l, &w.acts[*i]);
        l.flush();
    }
}

/// first uses: as the suites above, starting in processes that have not executed anything of the crate
pub fn first(c: &mut Ctx) {
    let w = world(c.level, Menu::Cold);
    sequences(c, &w, [1, 2, 2, 3][c.level as usize]);
    if c.stop() {
        return;
    }
    #[cfg(target_arch = "x86_64")]
    x86::first(c, &w);
}

// ------------------------------------------------------------------------------------------- preemption

#[cfg(target_arch = "x86_64")]
pub use x86::{preempt, watch};

#[cfg(target_arch = "x86_64")]
mod x86 {
    use super::*;
    const XMAX: usize = 16384;

    #[repr(C, align(64))]
    struct Saved {
        g: [i64; 23],
        fp: [u8; XMAX],
        n: usize,
    }
    const fn saved() -> Saved {
        Saved { g: [0; 23], fp: [0; XMAX], n: 0 }
    }
    static mut CTX: [Saved; 3] = [saved(), saved(), saved()];
    const MAIN: usize = 2;
    const TF: i64 = 0x100;

    #[derive(Clone, Copy, PartialEq)]
    enum Role {
        /// stepping through A without stopping
        Count,
        /// stepping through A, forking after every instruction
        StepA,
        /// A is stopped; stepping through B, forking after every instruction
        StepB,
        /// no more preemptions: run what is unfinished to completion
        Finish,
    }

    struct S {
        cur: usize,
        role: Role,
        two: bool,
        busy: [bool; 2],
        done: [bool; 2],
        ok: [bool; 2],
        act: [usize; 2],
        steps: [u64; 2],
        /// preemption points passed
        points: u64,
        /// preempt only after accesses to the pages in FIX
        reduced: bool,
        world: *const World,
        bad: i32,
        forks: u64,
        alarms: u32,
        child: bool,
    }
    const fn idle() -> S {
        S {
            cur: MAIN,
            role: Role::Finish,
            two: false,
            busy: [false; 2],
            done: [false; 2],
            ok: [false; 2],
            act: [0; 2],
            steps: [0; 2],
            points: 0,
            reduced: false,
            world: core::ptr::null(),
            bad: 0,
            forks: 0,
            alarms: 0,
            child: false,
        }
    }
    static mut ST: S = idle();
    static mut STACKS: [usize; 2] = [0; 2];

    unsafe fn fpsize(u: &libc::ucontext_t) -> usize {
        let p = u.uc_mcontext.fpregs as *const u8;
        let magic = (p.add(464) as *const u32).read_unaligned();
        if magic == 0x4650_5853 {
            ((p.add(468) as *const u32).read_unaligned() as usize).min(XMAX)
        } else {
            512
        }
    }
    unsafe fn save(i: usize, u: &libc::ucontext_t) {
        let c = &mut *(&raw mut CTX[i]);
        c.g = u.uc_mcontext.gregs;
        c.n = fpsize(u);
        core::ptr::copy_nonoverlapping(u.uc_mcontext.fpregs as *const u8, c.fp.as_mut_ptr(), c.n);
    }
    unsafe fn load(i: usize, u: &mut libc::ucontext_t, step: bool) {
        let c = &*(&raw const CTX[i]);
        let n = fpsize(u);
        assert!(n == c.n);
        u.uc_mcontext.gregs = c.g;
        core::ptr::copy_nonoverlapping(c.fp.as_ptr(), u.uc_mcontext.fpregs as *mut u8, n);
        let e = &mut u.uc_mcontext.gregs[libc::REG_EFL as usize];
        *e = if step { *e | TF } else { *e & !TF };
        ST.cur = i;
    }

    extern "C" fn body(i: usize) -> ! {
        unsafe {
            let s = &raw mut ST;
            let w = &*(*s).world;
            let a = &w.acts[(*s).act[i]];
            let mut o = Out::new();
            (&raw mut (*s).busy[i]).write_volatile(true);
            exec(w, a, &mut o);
            (&raw mut (*s).busy[i]).write_volatile(false);
            (*s).ok[i] = o.bytes() == &a.expect[..];
            (&raw mut (*s).done[i]).write_volatile(true);
            core::arch::asm!("int3");
            libc::_exit(4)
        }
    }

    extern "C" fn on_trap(sig: libc::c_int, _: *mut libc::siginfo_t, u: *mut libc::c_void) {
        unsafe {
            let watching = (*FIX).on;
            let mut hit = true;
            if watching {
                access(libc::PROT_READ | libc::PROT_WRITE);
                hit = (*FIX).hit;
                ((*FIX).on, (*FIX).hit) = (false, false);
            }
            trap(sig, u, hit);
            let s = &*(&raw const ST);
            let stepping = matches!((s.role, s.cur), (Role::StepA | Role::Count, 0) | (Role::StepB, 1));
            if s.reduced && stepping {
                // run to the next access
                (*(u as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
                (*FIX).on = true;
                access(libc::PROT_NONE);
            }
        }
    }

    unsafe fn trap(sig: libc::c_int, u: *mut libc::c_void, hit: bool) {
        {
            let u = &mut *(u as *mut libc::ucontext_t);
            let s = &mut *(&raw mut ST);
            let i = s.cur;
            if i == MAIN {
                save(MAIN, u);
                for k in 0..2 {
                    save(k, u);
                    let c = &mut *(&raw mut CTX[k]);
                    c.g[libc::REG_RIP as usize] = body as *const () as i64;
                    c.g[libc::REG_RSP as usize] = STACKS[k] as i64 - 8;
                    c.g[libc::REG_RDI as usize] = k as i64;
                }
                load(0, u, s.role != Role::Finish);
                return;
            }
            if sig == libc::SIGALRM {
                // somebody waits for the other one: let it run
                s.alarms += 1;
                if s.alarms > 6 {
                    s.ok = [false; 2];
                    load(MAIN, u, false);
                } else {
                    if !s.done[1 - i] {
                        save(i, u);
                        load(1 - i, u, false);
                    }
                    libc::alarm(2);
                }
                return;
            }
            if s.done[i] {
                if s.done[1 - i] {
                    load(MAIN, u, false)
                } else {
                    // A finished without being preempted, or the preempted one goes on
                    s.role = Role::Finish;
                    load(1 - i, u, false);
                    if s.child {
                        libc::alarm(2);
                    }
                }
                return;
            }
            let stepping = matches!((s.role, i), (Role::StepA | Role::Count, 0) | (Role::StepB, 1));
            if !stepping {
                u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
                return;
            }
            if !s.busy[i] {
                return;
            }
            s.steps[i] += 1;
            // (counts accesses, not instructions, in the reduced mode)
            // between two accesses to memory that operations write, all points are equivalent
            if !hit {
                return;
            }
            s.points += 1;
            if s.role == Role::Count {
                return;
            }
            s.forks += 1;
            if s.bad != 0 {
                return;
            }
            let p = libc::fork();
            if p == 0 {
                s.child = true;
                save(i, u);
                if s.role == Role::StepA && s.two {
                    s.role = Role::StepB;
                    s.forks = 0;
                    load(1, u, true);
                } else {
                    s.role = Role::Finish;
                    libc::alarm(2);
                    load(1 - i, u, false);
                }
            } else {
                let r = if p > 0 { wait(p) } else { 3 };
                if r != 0 {
                    s.bad = r;
                }
            }
        }
    }

    /// all schedules of A and B with one (or two) preemptions; returns (verdict, instructions of A, of B)
    unsafe fn schedules(w: &World, a: usize, b: usize, two: bool) -> (i32, u64) {
        let s = &raw mut ST;
        *s = S { role: Role::StepA, two, act: [a, b], world: w, reduced: (*FIX).n > 0, ..idle() };
        core::arch::asm!("int3");
        let s = &*(s as *const S);
        let mut r = s.bad;
        if r == 0 && s.ok != [true; 2] {
            let mut l = rt::Line::new();
            let k = if s.ok[0] { b } else { a };
            let _ = write!(l, "VIOL kind=interleaving ");
            describe(&mut l, &w.acts[k].case);
            let _ = write!(l, " note={} (", if s.alarms > 6 { "hang" } else { "wrong result" });
            let unit = if s.reduced { "accesses to shared memory" } else { "instructions" };
            let _ = write!(l, "preempted after {} {unit}: ", s.steps[0]);
            desc(&mut l, &w.acts[a]);
            let _ = write!(l, " by: ");
            desc(&mut l, &w.acts[b]);
            if s.steps[1] != 0 {
                let _ = write!(l, " itself preempted after {} {unit}", s.steps[1]);
            }
            let _ = write!(l, ")");
            l.flush();
            r = 1;
        }
        if s.child {
            libc::_exit(r)
        }
        (r, s.points)
    }

    /// number of preemption points of an operation
    unsafe fn length(w: &World, a: usize) -> u64 {
        let s = &raw mut ST;
        *s = S { role: Role::Count, act: [a, a], world: w, reduced: (*FIX).n > 0, ..idle() };
        core::arch::asm!("int3");
        (&*(s as *const S)).points
    }

    /// the pages operations of the list write, as far as one execution alone and one after itself show
    unsafe fn written(w: &World, list: &[usize]) {
        let size: usize = (0..(*MAPS).n).map(|i| (&(*MAPS).r)[i].1 - (&(*MAPS).r)[i].0).sum();
        let copy = rt::pages::mmap(size.next_multiple_of(4096));
        for &a in list {
            let mut fd = [0i32; 2];
            assert!(libc::pipe(fd.as_mut_ptr()) == 0);
            in_fork(|| {
                for _ in 0..2 {
                    let mut at = copy;
                    for &(x, y) in &(&(*MAPS).r)[..(*MAPS).n] {
                        core::ptr::copy_nonoverlapping(x as *const u8, at, y - x);
                        at = at.add(y - x);
                    }
                    let first = watched(w, &w.acts[a]).1;
                    let mut send = |p: usize| drop(libc::write(fd[1], (&raw const p).cast(), 8));
                    if first != 0 {
                        send(first & !4095);
                    }
                    let mut at = copy;
                    let own = &raw const WROTE as usize & !7;
                    for &(x, y) in &(&(*MAPS).r)[..(*MAPS).n] {
                        for p in (x..y).step_by(4096) {
                            if (p..p + 4096).step_by(8).any(|q| {
                                q != own && (q as *const u64).read_volatile() != (at.add(q - x) as *const u64).read_volatile()
                            }) {
                                send(p);
                            }
                        }
                        at = at.add(y - x);
                    }
                }
                0
            });
            libc::close(fd[1]);
            let mut p = 0usize;
            while libc::read(fd[0], (&raw mut p).cast(), 8) == 8 {
                let f = &mut *FIX;
                if f.n < f.pages.len() && !f.pages[..f.n].contains(&p) {
                    f.pages[f.n] = p;
                    f.n += 1;
                }
            }
            libc::close(fd[0]);
        }
        libc::munmap(copy.cast(), size.next_multiple_of(4096));
    }

    fn fork_returning(f: impl FnOnce() -> (i32, u64)) -> (i32, u64) {
        let mut fd = [0i32; 2];
        unsafe { assert!(libc::pipe(fd.as_mut_ptr()) == 0) };
        let r = in_fork(|| {
            let (r, k) = f();
            unsafe { libc::write(fd[1], (&raw const k).cast(), 8) };
            r
        });
        let mut k = 0u64;
        unsafe {
            libc::close(fd[1]);
            libc::read(fd[0], (&raw mut k).cast(), 8);
            libc::close(fd[0]);
        }
        (r, k)
    }

    unsafe fn init(w: &World) {
        watch_init();
        if !watch_self_test(w) {
            crate::say!("CRASH stores to shared memory go unnoticed");
            rt::exit(2)
        }
        for k in 0..2 {
            let n = 512 * 1024;
            STACKS[k] = rt::pages::mmap(n) as usize + n;
        }
        handler(libc::SIGTRAP, on_trap);
        handler(libc::SIGALRM, on_trap);
    }

    /// every schedule with one preemption of every pair, then, for `two`, those with two, shortest pairs first, until
    /// `budget` executions have been used up
    fn pairs(c: &mut Ctx, w: &World, list: &[(usize, usize)], warm: bool, two: bool, budget: u64) {
        let n = w.acts.len();
        let mut len = vec![0u64; n];
        for &(a, b) in list {
            for x in [a, b] {
                if len[x] == 0 {
                    len[x] = fork_returning(|| (0, unsafe { length(w, x) })).1;
                }
            }
        }
        let mut todo: Vec<(u64, usize, usize, bool)> = list.iter().map(|&(a, b)| (len[a], a, b, false)).collect();
        if two {
            todo.extend(list.iter().map(|&(a, b)| (len[a] * len[b], a, b, true)));
        }
        todo.sort();
        let (mut used, mut left_out) = (0, 0);
        for (cost, a, b, two) in todo {
            // no preemption point: the sequential histories are all there is
            if !c.mine() || cost == 0 {
                continue;
            }
            let x = &w.acts[a].case;
            c.set(x.op, x.w, x.p, x.route, &[x.bytes()]);
            // from the initial state, and after A, B and another operation
            let before: &[Option<usize>] = if warm { &[None, Some(a), Some(b), Some((a + 7) % n)] } else { &[None] };
            for p in before {
                if used + cost > budget {
                    left_out += 1;
                    continue;
                }
                used += cost;
                let (r, k) = fork_returning(|| {
                    if let Some(p) = p {
                        good(w, &w.acts[*p]);
                    }
                    unsafe { schedules(w, a, b, two) }
                });
                outcome(c, r, "preemption");
                let k = if two { k * len[b] } else { k };
                c.evals += k;
                c.distinct += k;
                c.transitions += 2 * k;
                c.states += k;
                if c.stop() {
                    return;
                }
            }
        }
        if left_out > 0 {
            crate::say!("NOTE {left_out} pairs of operations left out: over the budget of {budget} executions");
        }
    }

    pub fn preempt(c: &mut Ctx) {
        let w = world(c.level, Menu::Warm);
        unsafe { init(&w) };
        let ws = writers(&w, c, true);
        if c.stop() {
            return;
        }
        let n = w.acts.len();
        let mut list: Vec<(usize, usize)> = Vec::new();
        if ws.is_empty() {
            // everything commutes; still preempt operations by a few others
            let (sa, nb) = [(n, 1), (17, 1), (5, 1), (1, 5)][c.level as usize];
            for a in (0..n).step_by(sa) {
                for i in 0..nb {
                    list.push((a, (a * 7 + 3 + i * 23) % n));
                }
            }
            pairs(c, &w, &list, false, false, u64::MAX);
        } else {
            unsafe { written(&w, &ws) };
            for &a in &ws {
                for b in 0..n {
                    list.push((a, b));
                    if !ws.contains(&b) {
                        list.push((b, a));
                    }
                }
            }
            pairs(c, &w, &list, true, true, [0, 20_000, 60_000, 3_000_000][c.level as usize]);
        }
        crate::say!("NOTE {} operations of the menu store to shared memory", ws.len());
    }

    /// operations that store to shared memory when executed first, preempted by others
    pub fn first(c: &mut Ctx, w: &World) {
        unsafe { init(w) };
        let ws = writers(w, c, true);
        c.states += 1 + ws.len() as u64;
        if c.stop() || ws.is_empty() {
            return;
        }
        unsafe { written(w, &ws) };
        let mut list: Vec<(usize, usize)> = Vec::new();
        for &a in &ws {
            for b in 0..w.acts.len() {
                list.push((a, b));
                if !ws.contains(&b) {
                    list.push((b, a));
                }
            }
        }
        pairs(c, w, &list, false, true, [0, 20_000, 60_000, 3_000_000][c.level as usize]);
        crate::say!("NOTE {} operations of the menu store to shared memory when they come first", ws.len());
    }

    /// the whole small space with shared memory read-only; cases that store to it are then interleaved
    pub fn watch(c: &mut Ctx) {
        let mut w = world(0, Menu::Warm);
        unsafe { init(&w) };
        w.acts.clear();
        c.mode = crate::trace::Mode::Watch;
        c.oracle = Oracle::Fresh;
        crate::suites::all_small(c);
        c.mode = crate::trace::Mode::Model;
        c.states += 1;
        unsafe {
            let found = &*(&raw const FOUND);
            for case in found {
                let Some(expect) = fresh(case) else { continue };
                let mut l = rt::Line::new();
                let _ = write!(l, "NOTE shared store by ");
                describe(&mut l, case);
                l.flush();
                w.acts.push(Act { case: case.clone(), how: How::Run, expect });
                // the same operation on other operands
                let mut other = case.clone();
                for i in 0..other.len {
                    if !crate::trace::public_range(&other).contains(&i) {
                        other.data[i] = other.data[i].rotate_left(3) ^ 0x6d;
                    }
                }
                if let Some(expect) = fresh(&other) {
                    w.acts.push(Act { case: other, how: How::Run, expect });
                }
            }
        }
        let n = w.acts.len();
        unsafe { written(&w, &(0..n).collect::<Vec<_>>()) };
        let list: Vec<_> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
        let (i, k) = (c.shard, c.shards);
        (c.shard, c.shards) = (0, 1);
        pairs(c, &w, &list, true, true, [0, 20_000, 40_000, 1_000_000][c.level as usize]);
        (c.shard, c.shards) = (i, k);
    }
}

static mut FOUND: Vec<Case> = Vec::new();

/// evaluate with shared memory read-only; remember kinds of operation that store to it
#[inline(never)]
pub fn check_watch(c: &Case, out: &mut Out) {
    unsafe {
        rt::set_current(c);
        set_wrote(0);
        protect(libc::PROT_READ);
        run_impl(c, out);
        protect(libc::PROT_READ | libc::PROT_WRITE);
        rt::clear_current();
        if wrote() != 0 {
            let f = &mut *(&raw mut FOUND);
            let kind = |x: &Case| (x.op, x.w, x.p, x.route);
            if f.len() < 6 && f.iter().filter(|x| kind(x) == kind(c)).count() < 1 {
                f.push(c.clone());
            }
        }
    }
}
