//! Where operands lie in memory is an input that no operation may have. An operation is executed with cipher objects and key
//! lists at every multiple of 16 bytes within a page, and with its frame moved likewise (as far as the compiler does not
//! align it more). Nothing here has less alignment but slices, which have suites of their own.

use crate::ops::{self, *};
use core::hint::black_box;
use core::mem::MaybeUninit;

pub const PLACES: usize = 256;

/// a frame of N bytes more than `pad::<0>` has
#[inline(never)]
fn pad<const N: usize>(at: usize, c: &Case, out: &mut Out, then: fn(usize, &Case, &mut Out)) {
    #[repr(align(16))]
    struct Room<const N: usize>([MaybeUninit<u8>; N], [MaybeUninit<u64>; 2]);
    let mut a = MaybeUninit::<Room<N>>::uninit();
    black_box(&mut a);
    then(at, c, out);
    black_box(&mut a);
}

macro_rules! steps {
    ($($name:ident $n:literal $next:ident;)*) => {$(
        #[inline(never)]
        fn $name(at: usize, c: &Case, out: &mut Out) {
            if at & $n != 0 {
                pad::<$n>(at, c, out, $next)
            } else {
                pad::<0>(at, c, out, $next)
            }
        }
    )*};
}

steps! {
    s16 16 s32; s32 32 s64; s64 64 s128; s128 128 s256; s256 256 s512; s512 512 s1024; s1024 1024 s2048; s2048 2048 last;
}

#[cfg(feature = "hosted")]
static SEEN: [core::sync::atomic::AtomicBool; PLACES] = [const { core::sync::atomic::AtomicBool::new(false) }; PLACES];

/// the offsets at which frames have been
#[cfg(feature = "hosted")]
pub fn seen() -> usize {
    SEEN.iter().filter(|x| x.load(core::sync::atomic::Ordering::Relaxed)).count()
}

#[inline(never)]
fn last(at: usize, c: &Case, out: &mut Out) {
    // room for objects and key lists: compilers align frames as they like
    #[repr(align(16))]
    struct Area([MaybeUninit<u8>; 4096 + ops::LONG * 64 + 64]);
    let mut area = MaybeUninit::<Area>::uninit();
    let base = black_box(area.as_mut_ptr()) as usize;
    let mut c = c.clone(); // the bytes come along
    c.area = base + (at.wrapping_sub(base) & 4095);
    let c = black_box(c);
    #[cfg(feature = "hosted")]
    {
        let s = &SEEN[(c.area >> 4) % PLACES];
        if !s.load(core::sync::atomic::Ordering::Relaxed) {
            s.store(true, core::sync::atomic::Ordering::Relaxed);
        }
    }
    run_impl(&c, out);
    black_box((&c, &mut area));
}

#[inline(never)]
pub fn run(c: &Case, out: &mut Out, place: usize) {
    s16(place * 16, c, out)
}
