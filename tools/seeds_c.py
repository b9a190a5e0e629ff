import os
_ns = {}
exec(open(os.path.join("/verif", "tools", "seeds_a.py")).read(), _ns)
REF, VG, CT = (_ns[k] for k in ("REF", "VG", "CT"))
SEEDS = []


def seed(**kw):
    SEEDS.append(kw)


seed(id="c01-zero-word", prop="C01", config="constant-time", extra=REF,
     needs="a key whose schedule contains a zero word where it is substituted, after the first step",
     breaks="the constant-time key expansion does not substitute zero words after the first step",
     edits=[("src/aes_bitslice.rs", """    if cfg!(target_endian = "big") {
        sub_word(x).rotate_left(8) ^ (RCON[i] << 24)""", """    if x == 0 && i > 0 {
        // nothing to rotate
        RCON[i].to_le() ^ (sub_word(x) & 0x6363_6300)
    } else if cfg!(target_endian = "big") {
        sub_word(x).rotate_left(8) ^ (RCON[i] << 24)""")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    for i in 0..4u8 {
        // w7 = w3 ^ w2 ^ w1 ^ w4 and w4 = w0 ^ f(w3): choose w1 so that w7 is zero
        let mut key: [u8; 16] = core::array::from_fn(|j| (j as u8).wrapping_mul(29) ^ i);
        let k = t.expand(&key);
        for j in 0..4 { key[4 + j] ^= k[1][12 + j]; }
        assert_eq!(t.expand(&key)[1][12..], [0; 4]);
        let b = [i; 16];
        assert_eq!(<[u8; 16]>::from(Aes128Enc::from(key).encrypt_block(b.into())), t.encrypt(&key, b));
    }
}
''')

seed(id="c02-period", prop="C02", extra=REF,
     needs="a decryption state that consists of twice the same eight bytes before some round",
     breaks="the table-based decryption round computes repeating states by halves and then applies a wrong part of the round key",
     edits=[("src/aes_table_based.rs", """    pub fn dec(self, round_key: Self) -> Self {
        Self(
""", """    pub fn dec(self, round_key: Self) -> Self {
        if self.0 == self.2 && self.1 == self.3 {
            // the second half repeats the first one
            let a = td0(self.0 >> 24) ^ td1(self.1 >> 16) ^ td2(self.0 >> 8) ^ td3(self.1);
            let b = td0(self.1 >> 24) ^ td1(self.0 >> 16) ^ td2(self.1 >> 8) ^ td3(self.0);
            return Self(
                a ^ round_key.0,
                b ^ round_key.1,
                a ^ round_key.2,
                b ^ round_key.1,
            );
        }
        Self(
""")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    for i in 0..8u8 {
        let key: [u8; 24] = core::array::from_fn(|j| (j as u8).wrapping_mul(29) ^ i);
        let last = *t.expand(&key).last().unwrap();
        let b: [u8; 16] = core::array::from_fn(|j| last[j] ^ (j as u8 % 8).wrapping_mul(17 + i));
        assert_eq!(<[u8; 16]>::from(Aes192Dec::from(key).decrypt_block(b.into())), t.decrypt(&key, b));
    }
}
''')

seed(id="c03-shared-halves", prop="C03", extra=REF,
     needs="a key for which two consecutive round keys begin with the same eight bytes",
     breaks="converting an encrypter to a decrypter reuses the previous transformed round key although only half of it was compared",
     edits=[("src/lib.rs", """        drk[i] = enc_round_keys[N - 1 - i].imc();
""", """        let (rk, above) = (enc_round_keys[N - 1 - i], enc_round_keys[N - i]);
        // equal round keys are transformed once
        drk[i] = if i > 1 && u128::from(rk) >> 64 == u128::from(above) >> 64 {
            drk[i - 1]
        } else {
            rk.imc()
        };
""")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    // AES-256: round key 2 begins with w0 ^ f(w7), w1 ^ w8; round key 1 is w4..w7
    for i in 0..4u8 {
        let mut key: [u8; 32] = core::array::from_fn(|j| (j as u8).wrapping_mul(29) ^ i);
        for w in 0..2 {
            let k = t.expand(&key);
            for j in 4 * w..4 * w + 4 { key[j] ^= k[2][j] ^ k[1][j]; }
        }
        let k = t.expand(&key);
        assert_eq!(k[1][..8], k[2][..8]);
        let e = Aes256Enc::from(key);
        let b = AesBlock::from([i; 16]);
        assert_eq!(e.decrypter().decrypt_block(e.encrypt_block(b)), b);
    }
}
''')

seed(id="c04-middle", prop="C04",
     needs="a four-block message whose middle blocks are equal and whose outer blocks begin with the same four bytes",
     breaks="four-block encryption with AES-128 takes the last block for equal to the first after comparing four bytes",
     edits=[("src/lib.rs", """                let round_keys = self.round_keys.map(Into::into);
                plaintext
                    .chain_enc(&round_keys[..$nr])
                    .enc_last(round_keys[$nr])
            }
        }

        impl AesDecrypt""", """                if $nr == 10 {
                    let (a, b, c, d) = plaintext.into();
                    // a palindrome: only half of the work
                    if b == c && u128::from(a) >> 96 == u128::from(d) >> 96 {
                        let (p, q) = self.encrypt_2_blocks((a, b).into()).into();
                        return (p, q, q, p).into();
                    }
                }
                let round_keys = self.round_keys.map(Into::into);
                plaintext
                    .chain_enc(&round_keys[..$nr])
                    .enc_last(round_keys[$nr])
            }
        }

        impl AesDecrypt""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let e = Aes128Enc::from([7; 16]);
    // counters: equal but for the last bytes
    let mut x: [[u8; 16]; 4] = core::array::from_fn(|i| [[1u8, 2, 2, 1][i]; 16]);
    x[3][15] ^= 1;
    let b: [u8; 64] = x.concat().try_into().unwrap();
    let got: [u8; 64] = e.encrypt_4_blocks(b.into()).into();
    for i in 0..4 {
        let one: [u8; 16] = e.encrypt_block(x[i].into()).into();
        assert_eq!(got[16 * i..16 * i + 16], one, "block {i}");
    }
}
''')

seed(id="c06-neon-one", prop="C06", config="neon",
     needs="a decryption chain over four blocks with a single key on AArch64",
     breaks="the chain with one key does not add that key",
     edits=[("src/lib.rs", """                        let mut acc = self;
                        for &key in &keys[..keys.len() - 1] {
                            acc = acc.pre_dec(key);
                        }
                        acc ^ keys[keys.len() - 1]
""", """                        let (&first, rest) = keys.split_first().unwrap();
                        if rest.is_empty() && core::mem::size_of::<Self>() == 64 {
                            return self;
                        }
                        let mut acc = self.pre_dec_or(first, rest.is_empty());
                        for &key in &keys[1..keys.len().max(2) - 1] {
                            acc = acc.pre_dec(key);
                        }
                        if rest.is_empty() {
                            return acc;
                        }
                        acc ^ keys[keys.len() - 1]
"""), ("src/lib.rs", """        impl_pre_encdec!(AesBlockX2, AesBlockX4);
""", """        impl_pre_encdec!(AesBlockX2, AesBlockX4);

        macro_rules! impl_first {
            ($($name:ident),*) => {$(
                impl $name {
                    fn pre_dec_or(self, key: Self, only: bool) -> Self {
                        if only {
                            self ^ key
                        } else {
                            self.pre_dec(key)
                        }
                    }
                }
            )*};
        }

        impl_first!(AesBlock, AesBlockX2, AesBlockX4);
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let x: [u8; 64] = core::array::from_fn(|i| i as u8);
    let k: [u8; 64] = core::array::from_fn(|i| (i as u8).wrapping_mul(7) ^ 0x5a);
    let (x, k) = (AesBlockX4::from(x), AesBlockX4::from(k));
    assert_eq!(x.chain_dec(&[k]), x ^ k);
    assert_eq!(x.chain_dec(&[k, x]), (x ^ k).dec(x));
}
''')

seed(id="c07-equal-lanes", prop="C07",
     needs="the last decryption round on four blocks, the first two equal to the last two, with different round keys for them",
     breaks="the two halves are computed once and the difference of their round keys is added wrongly",
     edits=[("src/aesdefault_x4.rs", """        Self(self.0.dec_last(round_key.0), self.1.dec_last(round_key.1))
""", """        if self.0 == self.1 {
            let x = self.0.dec_last(AesBlockX2::zero());
            return Self(x ^ round_key.0, x ^ (round_key.0 | round_key.1));
        }
        Self(self.0.dec_last(round_key.0), self.1.dec_last(round_key.1))
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let b: [AesBlock; 2] = [[1; 16].into(), [2; 16].into()];
    let x = AesBlockX4::from((b[0], b[1], b[0], b[1]));
    let k: [u8; 64] = core::array::from_fn(|i| (i as u8).wrapping_mul(37));
    let got: [u8; 64] = x.dec_last(k.into()).into();
    for i in 0..4 {
        let rk: [u8; 16] = k[16 * i..16 * i + 16].try_into().unwrap();
        let one: [u8; 16] = b[i % 2].dec_last(rk.into()).into();
        assert_eq!(got[16 * i..16 * i + 16], one, "block {i}");
    }
}
''')

seed(id="c08-sum", prop="C08",
     needs="two blocks that differ in the top bits of exactly two words",
     breaks="equality of blocks adds up the differences of the words and so misses some",
     edits=[("src/aes_table_based.rs", """#[derive(Copy, Clone, PartialEq, Eq)]
#[repr(C, align(16))]
#[must_use]
pub struct AesBlock(u32, u32, u32, u32);
""", """#[derive(Copy, Clone, Eq)]
#[repr(C, align(16))]
#[must_use]
pub struct AesBlock(u32, u32, u32, u32);

impl PartialEq for AesBlock {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        let d = *self ^ *other;
        d.0.wrapping_add(d.1).wrapping_add(d.2.wrapping_add(d.3)) == 0
    }
}
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let a = AesBlock::from([0x11; 16]);
    for i in 0..4 {
        for j in 0..i {
            let mut b = [0x11; 16];
            b[4 * i] ^= 0x80;
            b[4 * j] ^= 0x80;
            assert!(a != AesBlock::from(b));
        }
    }
}
''')

seed(id="c10-save-restore", prop="C10",
     needs="storing two blocks into the beginning of a larger buffer whose rest must not be written (another thread uses it, or it is read-only)",
     breaks="storing two blocks writes four and then puts back what was overwritten",
     edits=[("src/aesdefault_x2.rs", """        assert!(dst.len() >= 32);
        self.0.store_to(&mut dst[..16]);
""", """        assert!(dst.len() >= 32);
        if dst.len() >= 64 {
            // one store of a whole cache line
            let mut line = [0; 64];
            line[32..].copy_from_slice(&dst[32..64]);
            self.0.store_to(&mut line);
            self.1.store_to(&mut line[16..]);
            for (i, x) in line.iter().enumerate() {
                unsafe { dst.as_mut_ptr().add(i).write_volatile(*x) };
            }
            return;
        }
        self.0.store_to(&mut dst[..16]);
""")],
     demo=r'''
use aes_crypto::*;
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(core::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        // 32 writable bytes, then a page that may be read only
        assert_eq!(mprotect(p.add(4096), 4096, 1), 0);
        let dst = core::slice::from_raw_parts_mut(p.add(4096 - 32), 96);
        AesBlockX2::from([5; 32]).store_to(dst);
        assert_eq!(dst[..32], [5; 32]);
        assert_eq!(dst[32..], [0; 64]);
    }
}
''')

seed(id="c12-lanes", prop="C12", config="constant-time", shell=VG,
     needs="a two-block encryption in which the two states are equal",
     breaks="the constant-time backend does half of the work if both lanes are equal (the results are right)",
     edits=[("src/aesdefault_x2.rs", """        Self(self.0.enc(round_key.0), self.1.enc(round_key.1))
""", """        if self.0 == self.1 {
            let x = self.0.enc(AesBlock::zero());
            return Self(x ^ round_key.0, x ^ round_key.1);
        }
        Self(self.0.enc(round_key.0), self.1.enc(round_key.1))
""")],
     demo=CT + r'''
use aes_crypto::*;
fn main() {
    let mut x = vec![1u8; 32];
    let e = Aes128Enc::from([0x3c; 16]);
    undefined(x.as_mut_ptr(), 32);
    let x: [u8; 32] = x.try_into().unwrap();
    std::hint::black_box(e.encrypt_2_blocks(x.into()));
}
''')

seed(id="c13-panic", prop="C13",
     needs="an empty chain (which panics and is caught), and a chain of more than two keys later",
     breaks="a chain marks a shared scratch area as used and does not release it when it is refused; later chains take another, wrong, path",
     edits=[("src/lib.rs", """                    pub fn chain_dec(self, keys: &[$name]) -> $name {
                        assert_ne!(keys.len(), 0);

                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.dec(key);
                        }
                        acc
                    }""", """                    pub fn chain_dec(self, keys: &[$name]) -> $name {
                        // how many chains are running: several of them share the processor
                        static RUNNING: core::sync::atomic::AtomicUsize =
                            core::sync::atomic::AtomicUsize::new(0);
                        let before = RUNNING.fetch_add(1, core::sync::atomic::Ordering::SeqCst);
                        let mut acc = self ^ keys[0];
                        let mut rest = &keys[1..];
                        if before > 64 {
                            while let [a, b, tail @ ..] = rest {
                                acc = acc.dec(*a).dec(*b);
                                rest = tail;
                            }
                        } else {
                            for &key in rest {
                                acc = acc.dec(key);
                            }
                        }
                        RUNNING.fetch_sub(1, core::sync::atomic::Ordering::SeqCst);
                        acc
                    }""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let x = AesBlock::from([9; 16]);
    let k = [x, !x, x, !x];
    let want = x.chain_dec(&k);
    for _ in 0..100 {
        let _ = std::panic::catch_unwind(|| x.chain_dec(&[]));
        assert_eq!(x.chain_dec(&k), want);
    }
}
''')

seed(id="c13-lazy", prop="C13",
     needs="two threads creating their first decrypters at the same time",
     breaks="a table for the inverse key schedule is built on first use and announced before it is complete",
     edits=[("src/aes_table_based.rs", """    pub fn imc(self) -> Self {
        Self(
            td0(te4_3(self.0 >> 24))
                ^ td1(""", """    pub fn imc(self) -> Self {
        use core::sync::atomic::{AtomicBool, AtomicU32, Ordering};
        // the first table with the substitution undone
        static STARTED: AtomicBool = AtomicBool::new(false);
        static IMC0: [AtomicU32; 256] = [const { AtomicU32::new(0) }; 256];
        if !STARTED.swap(true, Ordering::SeqCst) {
            for (i, x) in IMC0.iter().enumerate() {
                x.store(td0(te4_3(i as u32)), Ordering::SeqCst);
            }
        }
        Self(
            IMC0[(self.0 >> 24) as usize].load(Ordering::SeqCst)
                ^ td1(""")],
     demo=r'''
use aes_crypto::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
fn main() {
    if std::env::args().nth(1).is_some() {
        static READY: AtomicUsize = AtomicUsize::new(0);
        let ts: Vec<_> = (0..4u8).map(|_| std::thread::spawn(|| {
            READY.fetch_add(1, SeqCst);
            while READY.load(SeqCst) < 4 { std::hint::spin_loop() }
            let d = Aes128Dec::from([0xe7; 16]);
            <[u8; 16]>::from(d.decrypt_block([1; 16].into()))
        })).collect();
        let r: Vec<_> = ts.into_iter().map(|t| t.join().unwrap()).collect();
        std::process::exit(r.iter().any(|x| *x != r[0]) as i32);
    }
    for _ in 0..3000 {
        let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap();
        assert!(s.success(), "threads got different results");
    }
}
''', args="--release")

seed(id="c15-count", prop="C15",
     needs="a chain of more than 65535 keys in a build with overflow checks",
     breaks="a chain counts its rounds in sixteen bits: an overflow panic where checks are on, nothing where they are off",
     edits=[("src/lib.rs", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.dec(key);
                        }
                        acc
""", """                        let mut acc = self ^ keys[0];
                        let mut rounds = 0u16;
                        for &key in &keys[1..] {
                            acc = acc.dec(key);
                            rounds += 1;
                        }
                        core::hint::black_box(rounds);
                        acc
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let x = AesBlock::from([9; 16]);
    let k = vec![x; 70_000];
    let mut y = x ^ x;
    for k in &k[1..] { y = y.dec(*k) }
    assert_eq!(x.chain_dec(&k), y);
}
''')
