//! C13: what earlier computations leave behind on the stack and in registers is an input that no operation may have.
//! Every operation is executed twice, after filling the unused stack below it and all vector registers with different
//! bytes; the results must be equal.

use crate::ops::*;

/// how far below the caller's frame
const DEPTH: usize = if cfg!(feature = "hosted") { 8192 } else { 2048 };

#[inline(never)]
fn stack(p: u8) {
    let mut a = core::mem::MaybeUninit::<[u8; DEPTH]>::uninit();
    unsafe { core::ptr::write_bytes(a.as_mut_ptr(), p, 1) };
    core::hint::black_box(&mut a);
}

#[inline(always)]
fn registers(p: u8) {
    let v = p as u32 * 0x0101_0101;
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    unsafe {
        macro_rules! all {
            ($first:literal, $other:literal, $reg:literal; $($n:literal)*) => {
                core::arch::asm!(
                    $first,
                    $(concat!($other, $reg, $n, ", ", $reg, "0"),)*
                    in("eax") v,
                    out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _,
                    out("xmm6") _, out("xmm7") _, out("xmm8") _, out("xmm9") _, out("xmm10") _, out("xmm11") _,
                    out("xmm12") _, out("xmm13") _, out("xmm14") _, out("xmm15") _,
                    options(nomem, nostack)
                )
            };
        }
        #[cfg(target_feature = "avx512f")]
        all!("vpbroadcastd zmm0, eax", "vmovdqa64 ", "zmm"; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        #[cfg(all(target_feature = "avx2", not(target_feature = "avx512f")))]
        all!("vmovd xmm0, eax\nvpbroadcastd ymm0, xmm0", "vmovdqa ", "ymm"; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        #[cfg(not(target_feature = "avx2"))]
        all!("movd xmm0, eax\npshufd xmm0, xmm0, 0", "movdqa ", "xmm"; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        // registers a call need not preserve
        core::arch::asm!("mov rcx, rax", "mov rdx, rax", "mov rsi, rax", "mov rdi, rax", "mov r8, rax", "mov r9, rax",
            "mov r10, rax", "mov r11, rax", in("rax") v as u64 | (v as u64) << 32, out("rcx") _, out("rdx") _,
            out("rsi") _, out("rdi") _, out("r8") _, out("r9") _, out("r10") _, out("r11") _, options(nomem, nostack));
    }
    #[cfg(all(target_arch = "aarch64", target_feature = "neon", not(miri)))]
    unsafe {
        core::arch::asm!(
            "dup v0.4s, {v:w}", "mov v1.16b, v0.16b", "mov v2.16b, v0.16b", "mov v3.16b, v0.16b", "mov v4.16b, v0.16b",
            "mov v5.16b, v0.16b", "mov v6.16b, v0.16b", "mov v7.16b, v0.16b", "mov v16.16b, v0.16b",
            "mov v17.16b, v0.16b", "mov v18.16b, v0.16b", "mov v19.16b, v0.16b", "mov v20.16b, v0.16b",
            "mov v21.16b, v0.16b", "mov v22.16b, v0.16b", "mov v23.16b, v0.16b",
            v = in(reg) v, out("v0") _, out("v1") _, out("v2") _, out("v3") _, out("v4") _, out("v5") _, out("v6") _,
            out("v7") _, out("v16") _, out("v17") _, out("v18") _, out("v19") _, out("v20") _, out("v21") _,
            out("v22") _, out("v23") _, options(nomem, nostack)
        );
    }
    core::hint::black_box(v);
}

#[inline(never)]
pub fn run(c: &Case, out: &mut Out, which: u8) {
    let p = [0x00, 0xff][which as usize & 1] ^ (c.len as u8 & 0x5a);
    stack(p);
    registers(p);
    run_impl(c, out);
}
