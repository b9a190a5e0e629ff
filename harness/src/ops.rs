//! The alphabet: every public operation of the crate as a pure function from bytes to bytes,
//! once on the real code (`run_impl`) and once on the reference model (`run_model`).
//! A `Case` is one operation with its operands; it is also the replay artefact.

use crate::refmodel as rm;
use crate::rt;
use aes_crypto::*;
use core::fmt::Write;

pub const CAP: usize = 1280;

#[derive(Clone)]
pub struct Case {
    pub op: u8,
    /// width index 0,1,2 = 1,2,4 blocks
    pub w: u8,
    /// sub-operation / key-length index / format kind
    pub p: u8,
    pub route: u32,
    pub len: usize,
    /// where objects and key lists are to lie; 0: anywhere
    pub area: usize,
    pub data: [u8; CAP],
}

impl Case {
    pub const fn new(op: u8, w: u8, p: u8) -> Self {
        Case { op, w, p, route: 0, len: 0, area: 0, data: [0; CAP] }
    }
    pub fn with(op: u8, w: u8, p: u8, parts: &[&[u8]]) -> Self {
        let mut c = Self::new(op, w, p);
        for x in parts {
            c.push(x);
        }
        c
    }
    #[inline]
    pub fn push(&mut self, x: &[u8]) {
        self.data[self.len..self.len + x.len()].copy_from_slice(x);
        self.len += x.len();
    }
    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.len]
    }
    pub fn name(&self) -> &'static str {
        NAMES[self.op as usize]
    }
}

pub struct Out {
    pub len: usize,
    pub data: [u8; CAP],
}

impl Out {
    pub const fn new() -> Self {
        Out { len: 0, data: [0; CAP] }
    }
    #[inline]
    pub fn push(&mut self, x: &[u8]) {
        self.data[self.len..self.len + x.len()].copy_from_slice(x);
        self.len += x.len();
    }
    #[inline]
    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.len]
    }
}

impl Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.len + s.len() > CAP {
            return Err(core::fmt::Error);
        }
        self.push(s.as_bytes());
        Ok(())
    }
}

macro_rules! ops {
    ($($id:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[repr(u8)]
        enum OpId { $($id),* }
        $(pub const $id: u8 = OpId::$id as u8;)*
        pub static NAMES: &[&str] = &[$(stringify!($id)),*];
    };
}

ops!(
    ENC, DEC, ENC_LAST, DEC_LAST, MC, IMC,
    AND, OR, XOR, NOT, AND_ASSIGN, OR_ASSIGN, XOR_ASSIGN,
    EQ, IS_ZERO, ZERO,
    NEW, FROM_ARRAY, FROM_REF, TRY_FROM, INTO_ARRAY, STORE,
    U128_FROM, U128_INTO,
    X2_FROM_PAIR, X2_INTO_PAIR, X2_BROADCAST,
    X4_FROM_4, X4_FROM_PAIRS, X4_INTO_4, X4_INTO_PAIRS, X4_BROADCAST1, X4_BROADCAST2,
    CHAIN_ENC, CHAIN_DEC,
    CIPHER, FMT, TRY_FROM_SLICE, STORE_SLICE, LONG_CHAIN_ENC, LONG_CHAIN_DEC, ALIVE, FMT_FAIL, REFUSED, SHOW, FMT_SPEC,
);

pub const WN: [usize; 3] = [16, 32, 64];

/// Uniform view of the three block types; every method is a call into the crate's public API.
pub trait Blk: Copy + Eq + Default + core::fmt::Debug {
    const N: usize;
    fn ld(b: &[u8]) -> Self;
    fn put(self, o: &mut Out);
    fn binop(op: u8, x: Self, y: Self) -> Self;
    fn round(op: u8, x: Self, y: Self) -> Self;
    fn not(self) -> Self;
    fn zero() -> Self;
    fn is_zero(self) -> bool;
    fn conv(op: u8, b: &[u8]) -> Self;
    fn put_store(self, o: &mut Out);
    fn chain(op: u8, x: Self, keys: &[Self]) -> Self;
    fn try_from_slice(b: &[u8]) -> Result<Self, usize>;
    fn store(self, d: &mut [u8]);
    #[cfg_attr(miri, allow(dead_code))]
    /// from a reference to exactly the block's bytes, wherever they lie
    fn from_place(b: &[u8]) -> Self;
    fn encrypt<const K: usize, E: AesEncrypt<K>>(e: &E, x: Self) -> Self;
    fn decrypt<const K: usize, D: AesDecrypt<K>>(e: &D, x: Self) -> Self;
}

macro_rules! blk {
    ($t:ty, $n:literal, $e:ident, $d:ident) => {
        impl Blk for $t {
            const N: usize = $n;
            #[inline]
            fn ld(b: &[u8]) -> Self {
                let a: [u8; $n] = b[..$n].try_into().unwrap();
                <$t>::from(a)
            }
            #[inline]
            fn put(self, o: &mut Out) {
                let a: [u8; $n] = self.into();
                o.push(&a);
            }
            #[inline]
            fn binop(op: u8, x: Self, y: Self) -> Self {
                match op {
                    AND => x & y,
                    OR => x | y,
                    XOR => x ^ y,
                    AND_ASSIGN => {
                        let mut z = x;
                        z &= y;
                        z
                    }
                    OR_ASSIGN => {
                        let mut z = x;
                        z |= y;
                        z
                    }
                    XOR_ASSIGN => {
                        let mut z = x;
                        z ^= y;
                        z
                    }
                    _ => unreachable!(),
                }
            }
            #[inline]
            fn round(op: u8, x: Self, y: Self) -> Self {
                match op {
                    ENC => x.enc(y),
                    DEC => x.dec(y),
                    ENC_LAST => x.enc_last(y),
                    DEC_LAST => x.dec_last(y),
                    _ => unreachable!(),
                }
            }
            #[inline]
            fn not(self) -> Self {
                !self
            }
            #[inline]
            fn zero() -> Self {
                <$t>::zero()
            }
            #[inline]
            fn is_zero(self) -> bool {
                <$t>::is_zero(self)
            }
            #[inline]
            fn conv(op: u8, b: &[u8]) -> Self {
                let a: [u8; $n] = b[..$n].try_into().unwrap();
                match op {
                    NEW => <$t>::new(a),
                    FROM_ARRAY => <$t>::from(a),
                    FROM_REF => <$t>::from(&a),
                    TRY_FROM => match <$t>::try_from(&a[..]) {
                        Ok(x) => x,
                        Err(_) => panic!("try_from rejected a slice of exactly the block size"),
                    },
                    _ => unreachable!(),
                }
            }
            #[inline]
            fn put_store(self, o: &mut Out) {
                let l = o.len;
                self.store_to(&mut o.data[l..l + $n]);
                o.len += $n;
            }
            #[inline]
            fn chain(op: u8, x: Self, keys: &[Self]) -> Self {
                if op == CHAIN_ENC {
                    x.chain_enc(keys)
                } else {
                    x.chain_dec(keys)
                }
            }
            #[inline]
            fn try_from_slice(b: &[u8]) -> Result<Self, usize> {
                <$t>::try_from(b)
            }
            #[inline]
            fn store(self, d: &mut [u8]) {
                self.store_to(d)
            }
            #[inline]
            fn from_place(b: &[u8]) -> Self {
                let r: &[u8; $n] = b.try_into().unwrap();
                <$t>::from(r)
            }
            #[inline]
            fn encrypt<const K: usize, E: AesEncrypt<K>>(e: &E, x: Self) -> Self {
                e.$e(x)
            }
            #[inline]
            fn decrypt<const K: usize, D: AesDecrypt<K>>(e: &D, x: Self) -> Self {
                e.$d(x)
            }
        }
    };
}
blk!(AesBlock, 16, encrypt_block, decrypt_block);
blk!(AesBlockX2, 32, encrypt_2_blocks, decrypt_2_blocks);
blk!(AesBlockX4, 64, encrypt_4_blocks, decrypt_4_blocks);

/// A cipher object in whichever of its two states it is.
pub enum Obj<E, D> {
    E(E),
    D(D),
}

// route: bit 0 = start as decrypter (built from the key), bits 1..5 = number of steps, then two bits per step:
// 0 = convert to the opposite object, 1 = clone, 2 = clone_from over an object with the complementary key,
// 3 = clone_from over an object whose key differs in the last byte only
pub const MAX_STEPS: usize = 13;
pub const fn route(start_dec: bool, steps: &[u8]) -> u32 {
    let mut r = start_dec as u32 | ((steps.len() as u32) << 1);
    let mut i = 0;
    while i < steps.len() {
        r |= (steps[i] as u32) << (5 + 2 * i);
        i += 1;
    }
    r
}
pub const fn route_steps(r: u32) -> u32 {
    (r >> 1) & 15
}
pub const fn route_step(r: u32, i: u32) -> u32 {
    (r >> (5 + 2 * i)) & 3
}
/// is the object after `n` steps a decrypter?
pub const fn route_dec_after(r: u32, n: u32) -> bool {
    let mut d = r & 1;
    let mut i = 0;
    while i < n {
        if route_step(r, i) == 0 {
            d ^= 1;
        }
        i += 1;
    }
    d == 1
}
pub const fn route_ends_dec(r: u32) -> bool {
    route_dec_after(r, route_steps(r))
}
pub const R_ENC: u32 = route(false, &[]);
pub const R_DEC: u32 = route(true, &[]);
pub const R_ENC_TO_DEC: u32 = route(false, &[0]);
pub const R_DEC_TO_ENC: u32 = route(true, &[0]);

fn other_key<const K: usize>(key: &[u8; K], step: u32) -> [u8; K] {
    let mut k = *key;
    if step == 2 {
        k = k.map(|x| !x);
    } else {
        k[K - 1] ^= 0x10;
    }
    k
}

#[inline]
fn start<const K: usize, E: AesEncrypt<K>>(r: u32, k: [u8; K]) -> Obj<E, E::Decrypter> {
    if r & 1 == 0 { Obj::E(E::from(k)) } else { Obj::D(E::Decrypter::from(k)) }
}

#[inline]
fn step<const K: usize, E: AesEncrypt<K>>(o: &Obj<E, E::Decrypter>, st: u32, k: &[u8; K]) -> Obj<E, E::Decrypter> {
    match (o, st) {
        (Obj::E(e), 0) => Obj::D(e.decrypter()),
        (Obj::D(d), 0) => Obj::E(d.encrypter()),
        (Obj::E(e), 1) => Obj::E(e.clone()),
        (Obj::D(d), 1) => Obj::D(d.clone()),
        (Obj::E(e), _) => {
            let mut t = E::from(other_key(k, st));
            t.clone_from(e);
            Obj::E(t)
        }
        (Obj::D(d), _) => {
            let mut t = E::Decrypter::from(other_key(k, st));
            t.clone_from(d);
            Obj::D(t)
        }
    }
}

#[inline]
pub fn build<const K: usize, E>(r: u32, key: &[u8]) -> Obj<E, E::Decrypter>
where
    E: AesEncrypt<K>,
{
    let k: [u8; K] = key[..K].try_into().unwrap();
    let mut o = start(r, k);
    for i in 0..route_steps(r) {
        o = step(&o, route_step(r, i), &k);
    }
    o
}

/// the same for objects that are to lie in a particular place
#[inline(never)]
fn placed<const K: usize, E: AesEncrypt<K>>(c: &Case, key: &[u8], x: &[u8], out: &mut Out) {
    let k: [u8; K] = key[..K].try_into().unwrap();
    let p = c.area as *mut Obj<E, E::Decrypter>;
    unsafe { p.write(start(c.route, k)) };
    for i in 0..route_steps(c.route) {
        let o = step(unsafe { &*p }, route_step(c.route, i), &k);
        unsafe { p.write(o) };
    }
    apply::<K, E>(unsafe { &*p }, c.w, x, out);
}

/// the key list, moved to where it is to lie
fn moved<'a, T: Blk>(c: &Case, keys: &'a [T]) -> &'a [T] {
    if c.area == 0 {
        return keys;
    }
    let p = c.area.next_multiple_of(core::mem::align_of::<T>()) as *mut T;
    unsafe {
        core::ptr::copy_nonoverlapping(keys.as_ptr(), p, keys.len());
        core::slice::from_raw_parts(p, keys.len())
    }
}

/// every object of the derivation, all alive, used last to first and then first to last
fn all_alive<const K: usize, E: AesEncrypt<K>>(c: &Case, out: &mut Out) {
    let (key, x) = c.bytes().split_at(K);
    let k: [u8; K] = key.try_into().unwrap();
    let n = route_steps(c.route) as usize;
    let mut all: [Option<Obj<E, E::Decrypter>>; MAX_STEPS + 1] = [const { None }; MAX_STEPS + 1];
    all[0] = Some(start(c.route, k));
    for i in 0..n {
        all[i + 1] = Some(step(all[i].as_ref().unwrap(), route_step(c.route, i as u32), &k));
    }
    for i in (0..=n).rev().chain(0..=n) {
        apply::<K, E>(all[i].as_ref().unwrap(), c.w, x, out);
    }
}

#[inline]
pub fn apply<const K: usize, E: AesEncrypt<K>>(
    o: &Obj<E, E::Decrypter>,
    w: u8,
    x: &[u8],
    out: &mut Out,
) {
    fn go<const K: usize, E: AesEncrypt<K>, T: Blk>(
        o: &Obj<E, E::Decrypter>,
        x: &[u8],
        out: &mut Out,
    ) {
        let b = T::ld(x);
        match o {
            Obj::E(e) => T::encrypt::<K, E>(e, b),
            Obj::D(d) => T::decrypt::<K, E::Decrypter>(d, b),
        }
        .put(out);
    }
    match w {
        0 => go::<K, E, AesBlock>(o, x, out),
        1 => go::<K, E, AesBlockX2>(o, x, out),
        _ => go::<K, E, AesBlockX4>(o, x, out),
    }
}

/// debug output of a cipher object; `p`: key size, and 4 for the alternate form
fn show<const K: usize, E: AesEncrypt<K>>(c: &Case, out: &mut Out) {
    let _ = match (build::<K, E>(c.route, c.bytes()), c.p & 4) {
        (Obj::E(e), 0) => write!(out, "{e:?}"),
        (Obj::D(d), 0) => write!(out, "{d:?}"),
        (Obj::E(e), _) => write!(out, "{e:#?}"),
        (Obj::D(d), _) => write!(out, "{d:#?}"),
    };
}

#[inline]
fn cipher(c: &Case, out: &mut Out) {
    let kl = rm::KEYLEN[c.p as usize];
    let (key, x) = c.bytes().split_at(kl);
    if c.area != 0 {
        return match c.p {
            0 => placed::<16, Aes128Enc>(c, key, x, out),
            1 => placed::<24, Aes192Enc>(c, key, x, out),
            _ => placed::<32, Aes256Enc>(c, key, x, out),
        };
    }
    match c.p {
        0 => apply::<16, Aes128Enc>(&build::<16, Aes128Enc>(c.route, key), c.w, x, out),
        1 => apply::<24, Aes192Enc>(&build::<24, Aes192Enc>(c.route, key), c.w, x, out),
        _ => apply::<32, Aes256Enc>(&build::<32, Aes256Enc>(c.route, key), c.w, x, out),
    }
}

pub const LONG: usize = 600;

/// key `i` of a long chain: distinct for every position, described by a seed byte
pub fn long_key(seed: u8, i: usize, out: &mut [u8]) {
    for (j, b) in out.iter_mut().enumerate() {
        *b = (i.wrapping_mul(0x9e37_79b1) >> (8 + (j % 4) * 3)) as u8 ^ (j as u8).wrapping_mul(0x1d) ^ seed;
    }
}

/// data: block, number of keys (2 bytes), seed of the keys
fn long_chain<T: Blk>(c: &Case, out: &mut Out) {
    let d = c.bytes();
    let n = T::N;
    let nk = (d[n] as usize) << 8 | d[n + 1] as usize;
    let mut keys = [T::zero(); LONG];
    let mut k = [0u8; 64];
    for (i, x) in keys[..nk].iter_mut().enumerate() {
        long_key(d[n + 2], i, &mut k[..n]);
        *x = T::ld(&k);
    }
    let op = if c.op == LONG_CHAIN_ENC { CHAIN_ENC } else { CHAIN_DEC };
    T::chain(op, T::ld(d), moved(c, &keys[..nk])).put(out);
}

fn generic<T: Blk>(c: &Case, out: &mut Out) {
    let d = c.bytes();
    let n = T::N;
    match c.op {
        ENC | DEC | ENC_LAST | DEC_LAST => T::round(c.op, T::ld(d), T::ld(&d[n..])).put(out),
        AND | OR | XOR | AND_ASSIGN | OR_ASSIGN | XOR_ASSIGN => {
            T::binop(c.op, T::ld(d), T::ld(&d[n..])).put(out)
        }
        NOT => T::ld(d).not().put(out),
        EQ => {
            let (x, y) = (T::ld(d), T::ld(&d[n..]));
            out.push(&[(x == y) as u8, (x != y) as u8]);
        }
        IS_ZERO => out.push(&[T::ld(d).is_zero() as u8]),
        ZERO => {
            T::zero().put(out);
            T::default().put(out);
        }
        NEW | FROM_ARRAY | FROM_REF | TRY_FROM => T::conv(c.op, d).put_store(out),
        INTO_ARRAY => T::conv(NEW, d).put(out),
        STORE => T::conv(NEW, d).put_store(out),
        CHAIN_ENC | CHAIN_DEC => {
            let mut keys = [T::zero(); 16];
            let nk = d.len() / n - 1;
            for i in 0..nk {
                keys[i] = T::ld(&d[n * (i + 1)..]);
            }
            T::chain(c.op, T::ld(d), moved(c, &keys[..nk])).put(out);
        }
        LONG_CHAIN_ENC | LONG_CHAIN_DEC => long_chain::<T>(c, out),
        TRY_FROM_SLICE => match T::try_from_slice(d) {
            Ok(x) => {
                out.push(&[1]);
                x.put(out);
            }
            Err(e) => {
                out.push(&[0]);
                out.push(&(e as u64).to_be_bytes());
            }
        },
        REFUSED => {
            // what is asked for is refused by panicking; data: block
            let x = T::ld(d);
            let no = rt::panics(|| match c.p {
                0 => T::chain(CHAIN_ENC, x, &[]).put(&mut Out::new()),
                1 => T::chain(CHAIN_DEC, x, &[]).put(&mut Out::new()),
                _ => x.store(&mut [0; 64][..n - 1 - c.p as usize]),
            });
            out.push(&[no as u8]);
            x.put(out);
        }
        STORE_SLICE => {
            // data: block, then the prior contents of the destination slice
            let x = T::ld(d);
            out.push(&d[n..]);
            let l = out.len;
            x.store(&mut out.data[..l]);
        }
        _ => unreachable!(),
    }
}

/// format kinds from here on: width, fill, precision and sign flags, which add nothing
pub const FMT_FLAGS: u8 = 10;
pub const FMT_FLAGS_END: u8 = 22;

/// without flags: what kind FMT_FLAGS + i must look like
const fn plain(p: u8) -> u8 {
    if p < FMT_FLAGS {
        return p;
    }
    match p - FMT_FLAGS {
        0 | 1 => 2,
        2 => 3,
        3 => 2,
        4 | 11 => 4,
        5 => 5,
        6 => 6,
        7 => 7,
        8 => 8,
        9 => 9,
        _ => 0,
    }
}

fn fmt(c: &Case, out: &mut impl Write) -> core::fmt::Result {
    let d = c.bytes();
    macro_rules! debug {
        ($x:expr) => {
            match c.p {
                2 => write!(out, "{:?}", $x),
                3 => write!(out, "{:#?}", $x),
                10 => write!(out, "{:150?}", $x),
                11 => write!(out, "{:x?}", $x),
                12 => write!(out, "{:#0200?}", $x),
                _ => write!(out, "{:.3?}", $x),
            }
        };
    }
    match c.w {
        0 => {
            let x = AesBlock::ld(d);
            match c.p {
                0 => write!(out, "{}", x),
                1 => write!(out, "{:#}", x),
                4 => write!(out, "{:x}", x),
                5 => write!(out, "{:#x}", x),
                6 => write!(out, "{:X}", x),
                7 => write!(out, "{:#X}", x),
                8 => write!(out, "{:b}", x),
                9 => write!(out, "{:#b}", x),
                14 => write!(out, "{:*>40x}", x),
                15 => write!(out, "{:#050x}", x),
                16 => write!(out, "{:.5X}", x),
                17 => write!(out, "{:<#48X}", x),
                18 => write!(out, "{:+0140b}", x),
                19 => write!(out, "{:_^#150.1b}", x),
                20 => write!(out, "{:>60}", x),
                21 => write!(out, "{:+x}", x),
                _ => debug!(x),
            }
        }
        1 => debug!(AesBlockX2::ld(d)),
        _ => debug!(AesBlockX4::ld(d)),
    }
}

/// Format specifiers, all of them: p = type (SPEC_TYPES), data = block, flags (align + 5 * (sign + 3 * (alternate +
/// 2 * zero))), which of width (1) and precision (2) are given, width, precision (16 bits each, big-endian).
pub const SPEC_TYPES: u8 = 7;
pub const SPEC_FLAGS: u8 = 60;
pub fn spec_alt(flags: u8) -> bool {
    flags / 15 % 2 == 1
}

#[cfg(all(feature = "hosted", not(miri)))]
mod spec {
    use super::*;
    use core::fmt::{Binary, Debug, Display, LowerHex, Result, UpperHex};

    macro_rules! one {
        ($name:ident, $tr:ident, $t:literal) => {
            fn $name(out: &mut dyn Write, x: &dyn $tr, flags: u8, given: u8, w: usize, p: usize) -> Result {
                macro_rules! arm {
                    ($a:literal, $s:literal, $h:literal, $z:literal) => {
                        match given & 3 {
                            0 => write!(out, concat!("{:", $a, $s, $h, $z, $t, "}"), x),
                            1 => write!(out, concat!("{:", $a, $s, $h, $z, "1$", $t, "}"), x, w),
                            2 => write!(out, concat!("{:", $a, $s, $h, $z, ".1$", $t, "}"), x, p),
                            _ => write!(out, concat!("{:", $a, $s, $h, $z, "1$.2$", $t, "}"), x, w, p),
                        }
                    };
                }
                macro_rules! zero {
                    ($a:literal, $s:literal, $h:literal, $f:expr) => {
                        if $f == 0 { arm!($a, $s, $h, "") } else { arm!($a, $s, $h, "0") }
                    };
                }
                macro_rules! alt {
                    ($a:literal, $s:literal, $f:expr) => {
                        if $f % 2 == 0 { zero!($a, $s, "", $f / 2) } else { zero!($a, $s, "#", $f / 2) }
                    };
                }
                macro_rules! sign {
                    ($a:literal, $f:expr) => {
                        match $f % 3 {
                            0 => alt!($a, "", $f / 3),
                            1 => alt!($a, "+", $f / 3),
                            _ => alt!($a, "-", $f / 3),
                        }
                    };
                }
                let f = flags / 5;
                match flags % 5 {
                    0 => sign!("", f),
                    1 => sign!("<", f),
                    2 => sign!(">", f),
                    3 => sign!("^", f),
                    _ => sign!("*>", f),
                }
            }
        };
    }
    one!(display, Display, "");
    one!(lower, LowerHex, "x");
    one!(upper, UpperHex, "X");
    one!(binary, Binary, "b");
    one!(debug, Debug, "?");
    one!(debug_lower, Debug, "x?");
    one!(debug_upper, Debug, "X?");

    pub fn run(c: &Case, out: &mut Out) {
        let n = WN[c.w as usize];
        let (d, o) = (c.bytes(), &c.data[n..]);
        let (x, y, z);
        let dbg: &dyn Debug = match c.w {
            0 => {
                x = AesBlock::ld(d);
                &x
            }
            1 => {
                y = AesBlockX2::ld(d);
                &y
            }
            _ => {
                z = AesBlockX4::ld(d);
                &z
            }
        };
        let (f, g) = (o[0], o[1]);
        let w = u16::from_be_bytes([o[2], o[3]]) as usize;
        let p = u16::from_be_bytes([o[4], o[5]]) as usize;
        let r = match c.p {
            4 => debug(out, dbg, f, g, w, p),
            5 => debug_lower(out, dbg, f, g, w, p),
            6 => debug_upper(out, dbg, f, g, w, p),
            t => {
                let x = AesBlock::ld(d);
                match t {
                    0 => display(out, &x, f, g, w, p),
                    1 => lower(out, &x, f, g, w, p),
                    2 => upper(out, &x, f, g, w, p),
                    _ => binary(out, &x, f, g, w, p),
                }
            }
        };
        if r.is_err() && out.len < CAP {
            out.push(&[0xff]);
        }
    }
}

#[cfg(not(all(feature = "hosted", not(miri))))]
mod spec {
    pub fn run(_: &super::Case, _: &mut super::Out) {}
}

/// a writer that takes so many bytes and then fails
struct Limited {
    out: Out,
    left: usize,
}

impl Write for Limited {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(core::fmt::Error);
        }
        self.left -= s.len();
        self.out.push(s.as_bytes());
        Ok(())
    }
}

/// data: block, number of bytes the writer takes
fn fmt_fail(c: &Case, out: &mut Out) {
    let n = WN[c.w as usize];
    let mut l = Limited { out: Out::new(), left: c.data[n] as usize };
    let r = fmt(c, &mut l);
    let mut whole = Out::new();
    let _ = fmt(c, &mut whole);
    // reported if and only if not everything was taken; what was taken is how the text begins
    let all = l.out.len == whole.len;
    out.push(&[(r.is_ok() == all) as u8, whole.bytes().starts_with(l.out.bytes()) as u8]);
    out.push(&[(all == (whole.len <= c.data[n] as usize)) as u8]);
}

#[inline]
pub fn run_impl(c: &Case, out: &mut Out) {
    out.len = 0;
    let d = c.bytes();
    let a = |i: usize| AesBlock::ld(&d[16 * i..]);
    let b = |i: usize| AesBlockX2::ld(&d[32 * i..]);
    match c.op {
        CIPHER => cipher(c, out),
        ALIVE => match c.p {
            0 => all_alive::<16, Aes128Enc>(c, out),
            1 => all_alive::<24, Aes192Enc>(c, out),
            _ => all_alive::<32, Aes256Enc>(c, out),
        },
        SHOW => match c.p & 3 {
            0 => show::<16, Aes128Enc>(c, out),
            1 => show::<24, Aes192Enc>(c, out),
            _ => show::<32, Aes256Enc>(c, out),
        },
        MC => a(0).mc().put(out),
        IMC => a(0).imc().put(out),
        FMT => fmt(c, out).unwrap(),
        FMT_FAIL => fmt_fail(c, out),
        FMT_SPEC => spec::run(c, out),
        U128_FROM => {
            AesBlock::from(u128::from_be_bytes(d[..16].try_into().unwrap())).put_store(out)
        }
        U128_INTO => out.push(&u128::from(a(0)).to_be_bytes()),
        X2_FROM_PAIR => AesBlockX2::from((a(0), a(1))).put_store(out),
        X2_INTO_PAIR => {
            let (x, y) = b(0).into();
            x.put(out);
            y.put(out);
        }
        X2_BROADCAST => AesBlockX2::from(a(0)).put_store(out),
        X4_FROM_4 => AesBlockX4::from((a(0), a(1), a(2), a(3))).put_store(out),
        X4_FROM_PAIRS => AesBlockX4::from((b(0), b(1))).put_store(out),
        X4_INTO_4 => {
            let (x, y, z, t): (AesBlock, AesBlock, AesBlock, AesBlock) = AesBlockX4::ld(d).into();
            x.put(out);
            y.put(out);
            z.put(out);
            t.put(out);
        }
        X4_INTO_PAIRS => {
            let (x, y): (AesBlockX2, AesBlockX2) = AesBlockX4::ld(d).into();
            x.put(out);
            y.put(out);
        }
        X4_BROADCAST1 => AesBlockX4::from(a(0)).put_store(out),
        X4_BROADCAST2 => AesBlockX4::from(b(0)).put_store(out),
        _ => match c.w {
            0 => generic::<AesBlock>(c, out),
            1 => generic::<AesBlockX2>(c, out),
            _ => generic::<AesBlockX4>(c, out),
        },
    }
}

// ------------------------------------------------------------------ model

fn hex(out: &mut Out, b: &[u8], up: bool) {
    let t: &[u8; 16] = if up { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
    for x in b {
        out.push(&[t[(x >> 4) as usize], t[(x & 15) as usize]]);
    }
}

pub fn run_model(c: &Case, out: &mut Out) {
    out.len = 0;
    let d = c.bytes();
    let n = WN[c.w as usize];
    let lanes = 1usize << c.w;
    let blk = |i: usize| -> rm::B { d[16 * i..16 * i + 16].try_into().unwrap() };
    match c.op {
        ENC | DEC | ENC_LAST | DEC_LAST => {
            for i in 0..lanes {
                let (x, k) = (blk(i), blk(i + lanes));
                out.push(&match c.op {
                    ENC => rm::enc(&x, &k),
                    DEC => rm::dec(&x, &k),
                    ENC_LAST => rm::enc_last(&x, &k),
                    _ => rm::dec_last(&x, &k),
                });
            }
        }
        MC => out.push(&rm::mix_columns(&blk(0))),
        IMC => out.push(&rm::inv_mix_columns(&blk(0))),
        AND | AND_ASSIGN => (0..n).for_each(|i| out.push(&[d[i] & d[n + i]])),
        OR | OR_ASSIGN => (0..n).for_each(|i| out.push(&[d[i] | d[n + i]])),
        XOR | XOR_ASSIGN => (0..n).for_each(|i| out.push(&[d[i] ^ d[n + i]])),
        NOT => (0..n).for_each(|i| out.push(&[!d[i]])),
        EQ => {
            let e = d[..n] == d[n..2 * n];
            out.push(&[e as u8, !e as u8]);
        }
        IS_ZERO => out.push(&[d[..n].iter().all(|x| *x == 0) as u8]),
        ZERO => out.push(&[0u8; 128][..2 * n]),
        NEW | FROM_ARRAY | FROM_REF | TRY_FROM | INTO_ARRAY | STORE => out.push(&d[..n]),
        U128_FROM | U128_INTO => out.push(&d[..16]),
        X2_FROM_PAIR | X2_INTO_PAIR => out.push(&d[..32]),
        X2_BROADCAST => {
            out.push(&d[..16]);
            out.push(&d[..16]);
        }
        X4_FROM_4 | X4_FROM_PAIRS | X4_INTO_4 | X4_INTO_PAIRS => out.push(&d[..64]),
        X4_BROADCAST1 => (0..4).for_each(|_| out.push(&d[..16])),
        X4_BROADCAST2 => (0..2).for_each(|_| out.push(&d[..32])),
        CHAIN_ENC | CHAIN_DEC => {
            let nk = d.len() / n - 1;
            for i in 0..lanes {
                let mut s = rm::xor(&blk(i), &blk(lanes + i));
                for j in 1..nk {
                    let k = blk((j + 1) * lanes + i);
                    s = if c.op == CHAIN_ENC { rm::enc(&s, &k) } else { rm::dec(&s, &k) };
                }
                out.push(&s);
            }
        }
        LONG_CHAIN_ENC | LONG_CHAIN_DEC => {
            let nk = (d[n] as usize) << 8 | d[n + 1] as usize;
            let mut k = [0u8; 64];
            out.push(&d[..n]);
            for j in 0..nk {
                long_key(d[n + 2], j, &mut k[..n]);
                for i in 0..lanes {
                    let s: rm::B = out.data[16 * i..16 * i + 16].try_into().unwrap();
                    let k: rm::B = k[16 * i..16 * i + 16].try_into().unwrap();
                    let r = if j == 0 {
                        rm::xor(&s, &k)
                    } else if c.op == LONG_CHAIN_ENC {
                        rm::enc(&s, &k)
                    } else {
                        rm::dec(&s, &k)
                    };
                    out.data[16 * i..16 * i + 16].copy_from_slice(&r);
                }
            }
        }
        CIPHER => {
            let kl = rm::KEYLEN[c.p as usize];
            let s = rm::Schedule::expand(&d[..kl]);
            let dec = route_ends_dec(c.route);
            for i in 0..lanes {
                let x: rm::B = d[kl + 16 * i..kl + 16 * i + 16].try_into().unwrap();
                out.push(&if dec { s.decrypt(&x) } else { s.encrypt(&x) });
            }
        }
        ALIVE => {
            let kl = rm::KEYLEN[c.p as usize];
            let s = rm::Schedule::expand(&d[..kl]);
            let mut r = [[0u8; 64]; 2];
            for i in 0..lanes {
                let x: rm::B = d[kl + 16 * i..kl + 16 * i + 16].try_into().unwrap();
                r[0][16 * i..16 * i + 16].copy_from_slice(&s.encrypt(&x));
                r[1][16 * i..16 * i + 16].copy_from_slice(&s.decrypt(&x));
            }
            let k = route_steps(c.route);
            for i in (0..=k).rev().chain(0..=k) {
                out.push(&r[route_dec_after(c.route, i) as usize][..n]);
            }
        }
        FMT => {
            if c.w == 0 {
                match plain(c.p) {
                    0 | 2 | 4 => hex(out, d, false),
                    1 | 3 | 6 => hex(out, d, true),
                    5 => {
                        out.push(b"0x");
                        hex(out, d, false)
                    }
                    7 => {
                        out.push(b"0X");
                        hex(out, d, true)
                    }
                    _ => {
                        if plain(c.p) == 9 {
                            out.push(b"0b");
                        }
                        for x in d {
                            for i in (0..8).rev() {
                                out.push(&[b'0' + ((x >> i) & 1)]);
                            }
                        }
                    }
                }
            } else {
                let alt = plain(c.p) == 3;
                out.push(if alt { b"(\n" } else { b"(" });
                for i in 0..lanes {
                    if alt {
                        out.push(b"    ");
                    } else if i > 0 {
                        out.push(b", ");
                    }
                    hex(out, &d[16 * i..16 * i + 16], alt);
                    if alt {
                        out.push(b",\n");
                    }
                }
                out.push(b")");
            }
        }
        FMT_FAIL => out.push(&[1, 1, 1]),
        FMT_SPEC => {
            let mut plain = c.clone();
            plain.op = FMT;
            plain.len = WN[c.w as usize];
            plain.p = [0, 4, 6, 8, 2, 2, 2][c.p as usize] + spec_alt(c.data[plain.len]) as u8;
            run_model(&plain, out);
        }
        SHOW => {
            let kl = (c.p & 3) as usize;
            let s = rm::Schedule::expand(&d[..rm::KEYLEN[kl]]);
            let (dec, alt) = (route_ends_dec(c.route), c.p & 4 != 0);
            out.push(b"Aes");
            out.push([b"128", b"192", b"256"][kl]);
            out.push(if dec { b"Dec" } else { b"Enc" });
            out.push(if alt { b" {\n    round_keys: [\n" } else { b" { round_keys: [" });
            for i in 0..=s.nr {
                let mut k = s.rk(if dec { s.nr - i } else { i });
                if dec && i > 0 && i < s.nr {
                    k = rm::inv_mix_columns(&k);
                }
                out.push(if alt { b"        " } else if i > 0 { b", " } else { b"" });
                hex(out, &k, alt);
                out.push(if alt { b",\n" } else { b"" });
            }
            out.push(if alt { b"    ],\n}" } else { b"] }" });
        }
        REFUSED => {
            out.push(&[1]);
            out.push(&d[..n]);
        }
        TRY_FROM_SLICE => {
            if d.len() >= n {
                out.push(&[1]);
                out.push(&d[..n]);
            } else {
                out.push(&[0]);
                out.push(&(d.len() as u64).to_be_bytes());
            }
        }
        STORE_SLICE => {
            out.push(&d[n..]);
            out.data[..n].copy_from_slice(&d[..n]);
        }
        _ => unreachable!(),
    }
}


/// What the derived operations are defined by, computed with the implementation's simpler operations.
pub fn run_relative(c: &Case, out: &mut Out) -> bool {
    out.len = 0;
    let d = c.bytes();
    let mut o = Out::new();
    let mut lanes = |op: u8, p: u8, route: u32, head: &[u8], x: &[u8], y: &[u8], out: &mut Out| {
        for i in 0..x.len() / 16 {
            let mut s = Case::with(op, 0, p, &[head, &x[16 * i..16 * i + 16]]);
            if !y.is_empty() {
                s.push(&y[16 * i..16 * i + 16]);
            }
            s.route = route;
            o.len = 0;
            run_impl(&s, &mut o);
            out.push(o.bytes());
        }
    };
    match c.op {
        CIPHER => {
            // several blocks: one by one; one block: the object built directly
            let k = rm::KEYLEN[c.p as usize];
            let r = if c.w > 0 {
                c.route
            } else if route_ends_dec(c.route) {
                R_DEC
            } else {
                R_ENC
            };
            lanes(CIPHER, c.p, r, &d[..k], &d[k..], &[], out);
        }
        ALIVE => {
            let k = rm::KEYLEN[c.p as usize];
            let n = route_steps(c.route);
            for i in (0..=n).rev().chain(0..=n) {
                let r = if route_dec_after(c.route, i) { R_DEC } else { R_ENC };
                lanes(CIPHER, c.p, r, &d[..k], &d[k..], &[], out);
            }
        }
        ENC | DEC | ENC_LAST | DEC_LAST if c.w > 0 => {
            let n = WN[c.w as usize];
            lanes(c.op, 0, 0, &[], &d[..n], &d[n..2 * n], out);
        }
        CHAIN_ENC | CHAIN_DEC | LONG_CHAIN_ENC | LONG_CHAIN_DEC => {
            let n = WN[c.w as usize];
            let long = c.op == LONG_CHAIN_ENC || c.op == LONG_CHAIN_DEC;
            let nk = if long { (d[n] as usize) << 8 | d[n + 1] as usize } else { d.len() / n - 1 };
            let mut x = [0u8; 64];
            x[..n].copy_from_slice(&d[..n]);
            for i in 0..nk {
                let mut k = [0u8; 64];
                if long {
                    long_key(d[n + 2], i, &mut k[..n]);
                } else {
                    k[..n].copy_from_slice(&d[n * (i + 1)..n * (i + 2)]);
                }
                if i == 0 {
                    for j in 0..n {
                        x[j] ^= k[j];
                    }
                } else {
                    let op = if c.op == CHAIN_ENC || c.op == LONG_CHAIN_ENC { ENC } else { DEC };
                    let s = Case::with(op, c.w, 0, &[&x[..n], &k[..n]]);
                    o.len = 0;
                    run_impl(&s, &mut o);
                    x[..n].copy_from_slice(o.bytes());
                }
            }
            out.push(&x[..n]);
        }
        _ => return false,
    }
    true
}
