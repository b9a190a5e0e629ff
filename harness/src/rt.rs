//! Runtime: output, the current case (for panics and crashes), arguments, guarded pages.
use crate::ops::Case;
use core::fmt;
use core::sync::atomic::{compiler_fence, Ordering::SeqCst};

/// One output line, written with a single write.
pub struct Line {
    len: usize,
    buf: [u8; 16384],
}

impl Line {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Line { len: 0, buf: [0; 16384] }
    }
    pub fn text(&self) -> &str {
        core::str::from_utf8(&self.buf[..self.len]).unwrap_or("?")
    }
    pub fn flush(mut self) {
        let n = self.len.min(self.buf.len() - 1);
        self.buf[n] = b'\n';
        sys::write(&self.buf[..n + 1]);
    }
}

impl fmt::Write for Line {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &b in s.as_bytes() {
            if self.len < self.buf.len() - 1 {
                self.buf[self.len] = b;
                self.len += 1;
            }
        }
        Ok(())
    }
}

#[macro_export]
macro_rules! say {
    ($($t:tt)*) => {{
        use core::fmt::Write as _;
        let mut l = $crate::rt::Line::new();
        let _ = write!(l, $($t)*);
        l.flush();
    }};
}

#[cfg(feature = "hosted")]
pub use hosted::*;
#[cfg(not(feature = "hosted"))]
pub use bare::*;

#[cfg(feature = "hosted")]
mod hosted {
    use super::*;
    use core::cell::Cell;
    thread_local! {
        static CUR: Cell<*const Case> = const { Cell::new(core::ptr::null()) };
    }
    #[inline]
    pub fn set_current(c: &Case) {
        CUR.with(|p| p.set(c));
        #[cfg(not(miri))]
        watch::begin(c);
        compiler_fence(SeqCst);
    }
    #[inline]
    pub fn clear_current() {
        compiler_fence(SeqCst);
        CUR.with(|p| p.set(core::ptr::null()));
        #[cfg(not(miri))]
        watch::end();
    }

    /// An operation that does not come back is reported by another thread.
    #[cfg(not(miri))]
    pub mod watch {
        use super::*;
        use core::sync::atomic::{AtomicPtr, AtomicU64, Ordering::Relaxed};

        /// No operation of the crate takes a tenth of a second, however slow the machine.
        const LIMIT: u32 = 150;

        #[repr(align(128))]
        struct Slot {
            case: AtomicPtr<Case>,
            count: AtomicU64,
        }
        static SLOTS: [Slot; 64] =
            [const { Slot { case: AtomicPtr::new(core::ptr::null_mut()), count: AtomicU64::new(0) } }; 64];
        thread_local! {
            static MINE: Cell<Option<&'static Slot>> = const { Cell::new(None) };
        }

        #[inline]
        pub fn begin(c: &Case) {
            if let Some(s) = MINE.get() {
                s.count.store(s.count.load(Relaxed) + 1, Relaxed);
                s.case.store(c as *const Case as *mut Case, Relaxed);
            }
        }
        #[inline]
        pub fn end() {
            if let Some(s) = MINE.get() {
                s.case.store(core::ptr::null_mut(), Relaxed);
            }
        }
        /// watch the calling thread
        pub fn join(i: usize) {
            MINE.set(SLOTS.get(i));
        }
        pub fn start() {
            std::thread::spawn(|| {
                let mut at = [(0u64, 0u32); SLOTS.len()];
                loop {
                    std::thread::sleep(std::time::Duration::from_secs(1));
                    for (s, at) in SLOTS.iter().zip(&mut at) {
                        let (c, n) = (s.case.load(Relaxed), s.count.load(Relaxed));
                        if c.is_null() || n != at.0 {
                            *at = (n, 0);
                            continue;
                        }
                        at.1 += 1;
                        if at.1 >= LIMIT {
                            // it has not changed for minutes
                            let mut l = Line::new();
                            use core::fmt::Write;
                            let _ = write!(l, "VIOL kind=hang ");
                            crate::engine::describe(&mut l, unsafe { &*c });
                            let _ = write!(l, " note=the operation does not return");
                            l.flush();
                            unsafe { libc::_exit(0) }
                        }
                    }
                }
            });
        }
    }
    /// the case being evaluated by the code under test; null while the harness itself runs
    pub fn current() -> *const Case {
        CUR.with(|p| p.get())
    }
    /// run `f`; true if it panicked
    pub fn panics(f: impl FnOnce()) -> bool {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
    }
    pub const CAN_CATCH: bool = true;

    /// back to the default actions: the parent process looks at how this one ends
    #[cfg(not(miri))]
    pub fn quiet() {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGALRM] {
            unsafe { libc::signal(s, libc::SIG_DFL) };
        }
        // an operation that does not return
        unsafe { libc::alarm(200) };
    }

    #[cfg(not(miri))]
    extern "C" fn on_crash(sig: libc::c_int) {
        let p = current();
        let mut l = Line::new();
        use core::fmt::Write;
        if p.is_null() {
            let _ = write!(l, "CRASH signal={sig}");
        } else {
            let _ = write!(l, "VIOL kind=crash ");
            crate::engine::describe(&mut l, unsafe { &*p });
            let _ = write!(l, " note=signal_{sig}");
        }
        l.flush();
        unsafe { libc::_exit(if p.is_null() { 3 } else { 0 }) }
    }

    #[cfg(not(miri))]
    static ALARMS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
    #[cfg(not(miri))]
    use core::sync::atomic::Ordering::Relaxed;

    #[cfg(not(miri))]
    extern "C" fn on_hang(_: libc::c_int) {
        let p = current();
        let n = ALARMS.fetch_add(1, Relaxed);
        if p.is_null() || n < 3 {
            unsafe { libc::alarm(15) };
            return;
        }
        let mut l = Line::new();
        use core::fmt::Write;
        let _ = write!(l, "VIOL kind=hang ");
        crate::engine::describe(&mut l, unsafe { &*p });
        let _ = write!(l, " note=the operation does not return");
        l.flush();
        unsafe { libc::_exit(0) }
    }

    /// report the current operation if it is still running after so many seconds; 0: no longer
    #[cfg(not(miri))]
    pub fn arm(seconds: u32) {
        ALARMS.store(0, Relaxed);
        unsafe { libc::alarm(seconds) };
    }

    pub fn init() {
        #[cfg(not(miri))]
        unsafe {
            libc::signal(libc::SIGALRM, on_hang as extern "C" fn(libc::c_int) as libc::sighandler_t);
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
                libc::signal(s, on_crash as extern "C" fn(libc::c_int) as libc::sighandler_t);
            }
        }
        std::panic::set_hook(Box::new(|_| {}));
    }

    pub fn exit(c: i32) -> ! {
        std::process::exit(c)
    }
}

#[cfg(feature = "hosted")]
pub mod sys {
    pub fn write(b: &[u8]) {
        #[cfg(miri)]
        {
            use std::io::Write;
            let mut o = std::io::stdout().lock();
            let _ = o.write_all(b);
            let _ = o.flush();
        }
        // straight to the kernel: also used in forked children and signal handlers
        #[cfg(not(miri))]
        {
            let mut b = b;
            while !b.is_empty() {
                let r = unsafe { libc::write(1, b.as_ptr().cast(), b.len()) };
                if r <= 0 {
                    unsafe { libc::_exit(4) }
                }
                b = &b[r as usize..];
            }
        }
    }
}

#[cfg(not(feature = "hosted"))]
mod bare {
    use super::*;
    static mut CUR: *const Case = core::ptr::null();
    #[inline]
    pub fn set_current(c: &Case) {
        unsafe { CUR = c }
        compiler_fence(SeqCst);
    }
    #[inline]
    pub fn clear_current() {
        compiler_fence(SeqCst);
        unsafe { CUR = core::ptr::null() }
    }
    #[allow(dead_code)]
    pub fn current() -> *const Case {
        unsafe { CUR }
    }
    pub const CAN_CATCH: bool = false;
    pub fn panics(_f: impl FnOnce()) -> bool {
        unreachable!()
    }
    pub fn init() {}
    pub fn exit(c: i32) -> ! {
        super::sys::exit(c)
    }
    /// set while a panic is the expected outcome; called by the panic handler
    pub static mut ON_PANIC: Option<fn()> = None;

    #[panic_handler]
    fn on_panic(i: &core::panic::PanicInfo) -> ! {
        unsafe {
            if let Some(f) = ON_PANIC {
                ON_PANIC = None;
                f();
                exit(0);
            }
            let mut l = Line::new();
            use core::fmt::Write;
            if CUR.is_null() {
                let _ = write!(l, "CRASH panic {i}");
                l.flush();
                exit(3);
            }
            let _ = write!(l, "VIOL kind=panic ");
            crate::engine::describe(&mut l, &*CUR);
            l.flush();
            exit(0)
        }
    }
}

#[cfg(not(feature = "hosted"))]
pub mod sys {
    //! Linux system calls for statically linked no_std programs under qemu-user.
    use core::arch::{asm, global_asm};

    #[cfg(any(target_arch = "riscv64", target_arch = "riscv32", target_arch = "aarch64"))]
    mod nr {
        pub const WRITE: usize = 64;
        pub const EXIT: usize = 94;
        pub const MMAP: usize = 222;
        pub const MPROTECT: usize = 226;
    }
    #[cfg(any(target_arch = "arm", target_arch = "x86"))]
    mod nr {
        pub const WRITE: usize = 4;
        pub const EXIT: usize = if cfg!(target_arch = "x86") { 252 } else { 248 };
        pub const MMAP: usize = 192;
        pub const MPROTECT: usize = 125;
    }
    #[cfg(target_arch = "s390x")]
    mod nr {
        pub const WRITE: usize = 4;
        pub const EXIT: usize = 248;
        pub const MMAP: usize = 90;
        pub const MPROTECT: usize = 125;
    }
    #[cfg(any(target_arch = "powerpc", target_arch = "powerpc64"))]
    mod nr {
        pub const WRITE: usize = 4;
        pub const EXIT: usize = 234;
        pub const MMAP: usize = 90;
        pub const MPROTECT: usize = 125;
    }

    #[cfg(any(target_arch = "riscv64", target_arch = "riscv32"))]
    unsafe fn call(n: usize, a: [usize; 6]) -> isize {
        let r: isize;
        asm!("ecall", in("a7") n, inlateout("a0") a[0] => r, in("a1") a[1], in("a2") a[2],
             in("a3") a[3], in("a4") a[4], in("a5") a[5]);
        r
    }
    #[cfg(any(target_arch = "riscv64", target_arch = "riscv32"))]
    global_asm!(
        ".globl _start",
        "_start:",
        ".option push",
        ".option norelax",
        "la gp, __global_pointer$",
        ".option pop",
        "mv a0, sp",
        "andi sp, sp, -16",
        "call {m}",
        m = sym super::bare_main
    );

    #[cfg(target_arch = "aarch64")]
    unsafe fn call(n: usize, a: [usize; 6]) -> isize {
        let r: isize;
        asm!("svc 0", in("x8") n, inlateout("x0") a[0] => r, in("x1") a[1], in("x2") a[2],
             in("x3") a[3], in("x4") a[4], in("x5") a[5]);
        r
    }
    #[cfg(target_arch = "aarch64")]
    global_asm!(".globl _start", "_start:", "mov x0, sp", "bl {m}", m = sym super::bare_main);

    #[cfg(target_arch = "arm")]
    unsafe fn call(n: usize, a: [usize; 6]) -> isize {
        let r: isize;
        asm!("push {{r7}}", "mov r7, {n}", "svc 0", "pop {{r7}}", n = in(reg) n,
             inlateout("r0") a[0] => r, in("r1") a[1], in("r2") a[2],
             in("r3") a[3], in("r4") a[4], in("r5") a[5]);
        r
    }
    #[cfg(target_arch = "arm")]
    global_asm!(
        ".globl _start", "_start:", "mov r0, sp", "bic sp, sp, #15", "bl {m}",
        m = sym super::bare_main
    );

    #[cfg(target_arch = "x86")]
    unsafe fn call(n: usize, a: [usize; 6]) -> isize {
        // arguments 4..6 are constants in the calls below: esi = a[3], edi = a[4], ebp = 0
        let r: isize;
        asm!("push esi", "push ebp", "mov esi, {s}", "xor ebp, ebp", "int 0x80", "pop ebp", "pop esi",
             s = in(reg) a[3],
             inlateout("eax") n as isize => r, in("ebx") a[0], in("ecx") a[1], in("edx") a[2], in("edi") a[4]);
        r
    }
    #[cfg(target_arch = "x86")]
    global_asm!(
        ".globl _start", "_start:", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call {m}",
        m = sym super::bare_main
    );

    #[cfg(target_arch = "s390x")]
    unsafe fn call(n: usize, a: [usize; 6]) -> isize {
        let r: isize;
        asm!("svc 0", in("r1") n, inlateout("r2") a[0] => r, in("r3") a[1], in("r4") a[2],
             in("r5") a[3]);
        r
    }
    #[cfg(target_arch = "s390x")]
    global_asm!(
        ".globl _start", "_start:", "lgr %r2, %r15", "aghi %r15, -160", "brasl %r14, {m}",
        m = sym super::bare_main
    );

    #[cfg(any(target_arch = "powerpc", target_arch = "powerpc64"))]
    unsafe fn call(n: usize, a: [usize; 6]) -> isize {
        let r: isize;
        asm!("sc", inlateout("r0") n => _, inlateout("r3") a[0] => r, inlateout("r4") a[1] => _,
             inlateout("r5") a[2] => _, inlateout("r6") a[3] => _, inlateout("r7") a[4] => _,
             inlateout("r8") a[5] => _, out("r9") _, out("r10") _, out("r11") _, out("r12") _,
             out("cr0") _);
        r
    }
    #[cfg(target_arch = "powerpc")]
    global_asm!(
        ".globl _start", "_start:", "mr 3, 1", "rlwinm 1, 1, 0, 0, 27", "stwu 1, -64(1)", "bl {m}",
        m = sym super::bare_main
    );

    pub fn write(b: &[u8]) {
        let mut b = b;
        while !b.is_empty() {
            let r = unsafe { call(nr::WRITE, [1, b.as_ptr() as usize, b.len(), 0, 0, 0]) };
            if r <= 0 {
                exit(4)
            }
            b = &b[r as usize..];
        }
    }
    pub fn exit(c: i32) -> ! {
        unsafe {
            call(nr::EXIT, [c as usize, 0, 0, 0, 0, 0]);
        }
        loop {}
    }
    /// anonymous private mapping
    pub unsafe fn mmap(len: usize) -> *mut u8 {
        #[cfg(any(target_arch = "s390x"))]
        let r = {
            let args: [usize; 6] = [0, len, 3, 0x22, usize::MAX, 0];
            core::hint::black_box(&args);
            call(nr::MMAP, [args.as_ptr() as usize, 0, 0, 0, 0, 0])
        };
        #[cfg(not(target_arch = "s390x"))]
        let r = call(nr::MMAP, [0, len, 3, 0x22, usize::MAX, 0]);
        if r < 0 && r > -4096 {
            panic!("mmap");
        }
        r as *mut u8
    }
    pub unsafe fn protect_none(p: *mut u8, len: usize) {
        protect(p, len, 0)
    }
    /// 0: no access, 1: reading, 3: reading and writing
    pub unsafe fn protect(p: *mut u8, len: usize, prot: usize) {
        if call(nr::MPROTECT, [p as usize, len, prot, 0, 0, 0]) != 0 {
            panic!("mprotect");
        }
    }
}

#[cfg(not(feature = "hosted"))]
pub unsafe extern "C" fn bare_main(sp: *const usize) -> ! {
    let argc = *sp;
    let mut args: [&str; 8] = [""; 8];
    for i in 1..argc.min(8) {
        let p = *sp.add(1 + i) as *const u8;
        let mut n = 0;
        while *p.add(n) != 0 {
            n += 1;
        }
        args[i - 1] = core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n));
    }
    crate::entry(&args[..argc.saturating_sub(1)]);
    sys::exit(0)
}

#[cfg(all(feature = "hosted", not(miri)))]
pub mod pages {
    pub unsafe fn mmap(len: usize) -> *mut u8 {
        let p = libc::mmap(core::ptr::null_mut(), len, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
    /// address space that costs nothing until it is touched; null where there is none
    pub unsafe fn reserve(len: usize) -> *mut u8 {
        let fl = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let p = libc::mmap(core::ptr::null_mut(), len, 3, fl, -1, 0);
        if p == libc::MAP_FAILED { core::ptr::null_mut() } else { p.cast() }
    }
    /// the same memory over and over again, `len` bytes of it (a multiple of 16 MiB); null where that cannot be had
    #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
    pub unsafe fn repeated(len: usize) -> *mut u8 {
        let null = core::ptr::null_mut();
        const UNIT: usize = 16 << 20;
        let fd = libc::memfd_create(c"mc".as_ptr(), 0);
        if fd < 0 || libc::ftruncate(fd, UNIT as i64) != 0 {
            return null;
        }
        let p = libc::mmap(null.cast(), len, 0, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED {
            libc::close(fd);
            return null;
        }
        let p: *mut u8 = p.cast();
        for i in 0..len / UNIT {
            let q = libc::mmap(p.add(i * UNIT).cast(), UNIT, 3, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
            if q == libc::MAP_FAILED {
                libc::munmap(p.cast(), len);
                libc::close(fd);
                return null;
            }
        }
        libc::close(fd);
        p
    }
    pub unsafe fn unmap(p: *mut u8, len: usize) {
        libc::munmap(p.cast(), len);
    }
    pub unsafe fn protect_none(p: *mut u8, len: usize) {
        protect(p, len, 0)
    }
    /// 0: no access, 1: reading, 3: reading and writing
    pub unsafe fn protect(p: *mut u8, len: usize, prot: usize) {
        assert!(libc::mprotect(p.cast(), len, prot as i32) == 0);
    }
}
#[cfg(not(feature = "hosted"))]
pub mod pages {
    pub use super::sys::{mmap, protect, protect_none};
}
