import os
_ns = {}
exec(open(os.path.join("/verif", "tools", "seeds_a.py")).read(), _ns)
REF, VG, CT = (_ns[k] for k in ("REF", "VG", "CT"))
SEEDS = []


def seed(**kw):
    SEEDS.append(kw)


seed(id="c01-256-halves", prop="C01", extra=REF,
     needs="an AES-256 key whose two halves have the same last word",
     breaks="the second kind of AES-256 expansion step reuses a substitution that is only valid for other inputs",
     edits=[("src/aes_table_based.rs", """    let k0 = prev0.0 ^ sub_word(prev1.3.rotate_right(8));
""", """    // both steps substitute the same word when the halves end alike
    let k0 = if prev0.3 == prev1.3 {
        prev0.0 ^ sub_word(prev0.3)
    } else {
        prev0.0 ^ sub_word(prev1.3.rotate_right(8))
    };
""")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    // round keys 1 and 2 end alike: choose them and run the schedule backwards
    for i in 0..16u8 {
        let mut key: [u8; 32] = core::array::from_fn(|j| (j as u8).wrapping_mul(29) ^ i);
        // w11 = w3 ^ w10, so w11 == w7 needs w3 = w7 ^ w10; w10 depends on w0..w2 and w7 only
        let k = t.expand(&key);
        for j in 0..4 { key[12 + j] = key[28 + j] ^ k[2][8 + j]; }
        let b = [i; 16];
        assert_eq!(<[u8; 16]>::from(Aes256Enc::from(key).encrypt_block(b.into())), t.encrypt(&key, b));
    }
}
''')

seed(id="c02-imc-skip", prop="C02", extra=REF,
     needs="a decryption round key whose first column consists of four equal bytes",
     breaks="InvMixColumns is skipped for round keys that look constant although only the first column was looked at",
     edits=[("src/lib.rs", """        drk[i] = enc_round_keys[N - 1 - i].imc();
""", """        let rk = enc_round_keys[N - 1 - i];
        // constant columns are fixed points of InvMixColumns
        let bytes = <[u8; 16]>::from(rk);
        drk[i] = if bytes[..4].iter().all(|x| *x == bytes[0]) {
            rk
        } else {
            rk.imc()
        };
""")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    // AES-256: round key 1 is the second half of the key
    for i in 0..=255u8 {
        let mut key: [u8; 32] = core::array::from_fn(|j| (j as u8).wrapping_mul(29) ^ i);
        for j in 16..20 { key[j] = i }
        let b = [i ^ 0x5a; 16];
        assert_eq!(<[u8; 16]>::from(Aes256Dec::from(key).decrypt_block(b.into())), t.decrypt(&key, b));
    }
}
''')

seed(id="c03-encrypter-256", prop="C03",
     needs="converting an AES-256 decrypter back to an encrypter",
     breaks="one round key of the re-derived AES-256 encrypter is missing",
     edits=[("src/lib.rs", """    for i in 1..(N - 1) {
        rk[i] = dec_round_keys[N - 1 - i].mc();
    }""", """    for i in 1..(N - 1).min(13) {
        rk[i] = dec_round_keys[N - 1 - i].mc();
    }""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let k: [u8; 32] = core::array::from_fn(|i| i as u8);
    let b = AesBlock::from([3; 16]);
    assert_eq!(Aes256Dec::from(k).encrypter().encrypt_block(b), Aes256Enc::from(k).encrypt_block(b));
}
''')

seed(id="c04-last-pair", prop="C04",
     needs="four-block decryption with AES-192 in which the last two blocks differ",
     breaks="the four-block AES-192 decryption handles the two halves separately and repeats a block of the second",
     edits=[("src/lib.rs", """                let round_keys = self.round_keys.map(Into::into);
                ciphertext
                    .chain_dec(&round_keys[..$nr])
                    .dec_last(round_keys[$nr])
            }
        }
    };""", """                if $nr == 12 {
                    let (a, b, c, d) = ciphertext.into();
                    let (p, q) = self.decrypt_2_blocks((a, b).into()).into();
                    let r = self.decrypt_block(c);
                    // the same block twice is decrypted once
                    let c = <[u8; 16]>::from(c);
                    let d = <[u8; 16]>::from(d);
                    let s = if c[..8] == d[..8] { r } else { self.decrypt_block(d.into()) };
                    return (p, q, r, s).into();
                }
                let round_keys = self.round_keys.map(Into::into);
                ciphertext
                    .chain_dec(&round_keys[..$nr])
                    .dec_last(round_keys[$nr])
            }
        }
    };""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let d = Aes192Dec::from([9; 24]);
    // counter blocks: the first halves are equal
    let b: [AesBlock; 4] = core::array::from_fn(|i| AesBlock::from(i as u128));
    let (p, q, r, s) = d.decrypt_4_blocks((b[0], b[1], b[2], b[3]).into()).into();
    assert!([p, q, r, s] == b.map(|x| d.decrypt_block(x)));
}
''')

seed(id="c05-ct-imc", prop="C05", config="constant-time", extra=REF,
     needs="InvMixColumns of a block in which every byte of an intermediate value is 0xff",
     breaks="the doubling in the constant-time InvMixColumns has a constant that is one byte short in that case",
     edits=[("src/aes_bitslice.rs", """    let t = xtime(t);
    let t = t ^ swap16(t);
    let s = s ^ t;
    let t = xtime(t);
""", """    let t = xtime(t);
    let t = t ^ swap16(t);
    let s = s ^ t;
    let t = {
        let b = (t & rep(0x80)) >> 7;
        // 0x1b where the top bit was set
        let r = (b << 5).wrapping_sub(b).wrapping_sub(b << 2);
        ((t & rep(0x7f)) << 1) ^ if t == rep(0xff) { rep(0x1b) >> 8 } else { r }
    };
""")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    for i in 0..=255u8 { for j in 0..=255u8 {
        let b = core::array::from_fn(|k| match k % 4 { 0 => i, 1 => j, _ => 0 });
        assert_eq!(<[u8; 16]>::from(AesBlock::from(b).imc()), aesref::imc(b));
    } }
}
''')

seed(id="c06-u16-count", prop="C06",
     needs="a chain of more than 65535 round keys",
     breaks="the chain counts its keys in 16 bits and stops early",
     edits=[("src/lib.rs", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.enc(key);
                        }
                        acc""", """                        let mut acc = self ^ keys[0];
                        let mut left = keys.len() as u16;
                        let mut at = 1;
                        while left != 1 {
                            acc = acc.enc(keys[at % keys.len()]);
                            at += 1;
                            left = left.wrapping_sub(1);
                        }
                        acc""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    for n in [65535usize, 65536, 65537, 65600] {
        let keys: Vec<AesBlock> = (0..n).map(|i| AesBlock::from(i as u128 * 77777)).collect();
        let b = AesBlock::from([5; 16]);
        assert_eq!(b.chain_enc(&keys), keys[1..].iter().fold(b ^ keys[0], |x, k| x.enc(*k)));
    }
}
''')

seed(id="c07-x2-swap", prop="C07",
     needs="the last decryption round on two blocks with different round keys",
     breaks="the last decryption round on two blocks uses the first lane's key in both lanes",
     edits=[("src/aesdefault_x2.rs", None, lambda t: t.replace("self.1.dec_last(round_key.1)", "self.1.dec_last(round_key.0)"))],
     demo=r'''
use aes_crypto::*;
fn main() {
    let (a, b, k, l) = (AesBlock::from(1), AesBlock::from(2), AesBlock::from(3), AesBlock::from(4));
    let r: (AesBlock, AesBlock) = AesBlockX2::from((a, b)).dec_last((k, l).into()).into();
    assert!(r == (a.dec_last(k), b.dec_last(l)));
}
''')

seed(id="c08-avx512-zero", prop="C08", config="avx512",
     shell=r'''
export RUSTFLAGS="-C target-feature=+vaes,+avx512f"
if grep -q avx512f /proc/cpuinfo && grep -q vaes /proc/cpuinfo
then timeout 250 cargo +nightly run -q --offline --target x86_64-unknown-linux-gnu
else MIRIFLAGS=-Zmiri-disable-isolation timeout 290 cargo +nightly miri run -q --offline
fi''',
     features='"nightly"',
     needs="four-block values that differ from zero in one 128-bit lane only",
     breaks="the AVX512 zero test folds the four lanes with xor and misses values whose lanes cancel",
     edits=[("src/aesni_x4.rs", "        unsafe { _mm512_test_epi64_mask(self.0, self.0) == 0 }", """        let (a, b): (AesBlockX2, AesBlockX2) = self.into();
        (a ^ b).is_zero()""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let z = AesBlock::from(0);
    let x = AesBlock::from(7);
    assert!(!AesBlockX4::from((z, x, z, x)).is_zero());
    assert!(!AesBlockX4::from((x, z, z, z)).is_zero());
    assert!(AesBlockX4::from(z).is_zero());
}
''')

seed(id="c09-avx512-lanes", prop="C09", config="avx512",
     shell=r'''
export RUSTFLAGS="-C target-feature=+vaes,+avx512f"
if grep -q avx512f /proc/cpuinfo && grep -q vaes /proc/cpuinfo
then timeout 250 cargo +nightly run -q --offline --target x86_64-unknown-linux-gnu
else MIRIFLAGS=-Zmiri-disable-isolation timeout 290 cargo +nightly miri run -q --offline
fi''',
     features='"nightly"',
     needs="broadcasting a two-block value whose blocks differ to four blocks with AVX512",
     breaks="the AVX512 two-to-four broadcast duplicates each block in place instead of the pair",
     edits=[("src/aesni_x4.rs", "Self(unsafe { _mm512_broadcast_i64x4(value.0) })", """let (a, b) = value.into();
        Self::from((a, a, b, b))""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let (a, b) = (AesBlock::from(1), AesBlock::from(2));
    let r: (AesBlock, AesBlock, AesBlock, AesBlock) = AesBlockX4::from(AesBlockX2::from((a, b))).into();
    assert!(r == (a, b, a, b));
}
''')

seed(id="c09-be-u128", prop="C09",
     needs="a 128-bit integer converted on a big-endian machine",
     breaks="the conversion from a 128-bit integer assumes a little-endian machine",
     edits=[("src/lib.rs", "        value.to_be_bytes().into()", "        value.swap_bytes().to_ne_bytes().into()")],
     shell="RUSTFLAGS= MIRIFLAGS=-Zmiri-disable-isolation timeout 290 cargo +nightly miri run -q --offline --target s390x-unknown-linux-gnu",
     demo=r'''
use aes_crypto::*;
fn main() {
    assert_eq!(<[u8; 16]>::from(AesBlock::from(1u128))[15], 1);
}
''')

seed(id="c10-len-u32", prop="C10",
     needs="a slice whose length is a multiple of 2^32 plus less than the block size",
     breaks="the length of the slice is compared in 32 bits",
     edits=[("src/lib.rs", "    if value.len() >= N {\n", "    if value.len() as u32 >= N as u32 {\n")],
     demo=r'''
use aes_crypto::*;
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
fn main() {
    // address space only: nothing but the first page is ever touched
    let p = unsafe { mmap(std::ptr::null_mut(), (1 << 32) + 4096, 3, 0x4022, -1, 0) };
    assert!(p as isize != -1);
    let s = unsafe { std::slice::from_raw_parts(p, (1 << 32) + 5) };
    assert!(AesBlock::try_from(s).is_ok());
}
''')

seed(id="c10-x2-assert", prop="C10", config="vaes", args="--release",
     needs="storing two blocks into a destination of 16 to 31 bytes with VAES",
     breaks="the two-block store with VAES checks for room for one block only and writes past the end",
     edits=[("src/aesni_x2.rs", "        assert!(dst.len() >= 32);", "        assert!(dst.len() >= 16);")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let mut b = [7u8; 64];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| AesBlockX2::from([1; 32]).store_to(&mut b[..20])));
    assert!(r.is_err() && b == [7; 64]);
}
''')

seed(id="c11-usize-lanes", prop="C11", config="constant-time",
     shell=r'''
export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-C linker=rust-lld -C linker-flavor=ld.lld -C relocation-model=static"
cat > src/main.rs <<'RS'
#![no_std]
#![no_main]
use aes_crypto::*;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { exit(9) }
fn exit(c: i32) -> ! { unsafe { core::arch::asm!("mov ebx, ecx", "int 0x80", in("eax") 1, in("ecx") c, options(noreturn)) } }
core::arch::global_asm!(".globl _start", "_start:", "and esp, -16", "call start0");
#[no_mangle]
extern "C" fn start0() -> ! {
    let mut bad = 0;
    for i in 0..=255u8 { if AesBlock::from([i; 16]).mc() != AesBlock::from([i; 16]) { bad = 1 } }
    let r = <[u8; 16]>::from(AesBlock::from([0x2d, 0x26, 0x31, 0x4c, 0xdb, 0x13, 0x53, 0x45, 0x2d, 0x26, 0x31, 0x4c, 0xdb, 0x13, 0x53, 0x45]).mc());
    if r[..4] != [0x4d, 0x7e, 0xbd, 0xf8] || r[4..8] != [0x8e, 0x4d, 0xa1, 0xbc] || r[12..] != [0x8e, 0x4d, 0xa1, 0xbc] { bad = 1 }
    exit(bad)
}
RS
cat >> Cargo.toml <<'T'
[profile.bare]
inherits = "release"
panic = "abort"
T
timeout 250 cargo +stable build -q --offline --profile bare -Zbuild-std=core -Zbuild-std-features=compiler-builtins-mem --target i686-unknown-linux-gnu || exit 3
qemu-i386 -cpu max "$work/target/i686-unknown-linux-gnu/bare/demo"''',
     needs="the constant-time backend on a machine with 32-bit words",
     breaks="the doubling works on words of the machine's size but assumes there are two of them",
     edits=[("src/aes_bitslice.rs", """    let b = b.wrapping_sub(b >> 7) & rep(0x1b);
    b ^ (a << 1)
""", """    let hi = (b >> 64) as usize;
    let lo = b as usize;
    let hi = hi.wrapping_sub(hi >> 7) as u64;
    let lo = lo.wrapping_sub(lo >> 7) as u64;
    let b = (((hi as u128) << 64) | lo as u128) & rep(0x1b);
    b ^ (a << 1)
""")],
     demo="fn main() {}")

seed(id="c12-imc-branch", prop="C12", config="constant-time", shell=VG,
     needs="InvMixColumns of (or a decryption key schedule with) a block of sixteen equal bytes",
     breaks="the constant-time InvMixColumns takes a shortcut for blocks it leaves alone",
     edits=[("src/aes_bitslice.rs", "        Self(invmixcolumns(self.0))", """        // a block of equal bytes is a fixed point
        if self.0 == rep(self.0 as u8) {
            return self;
        }
        Self(invmixcolumns(self.0))""")],
     demo=CT + r"""
use aes_crypto::*;
fn main() {
    let mut k = vec![1u8; 16];
    undefined(k.as_mut_ptr(), 16);
    let k: [u8; 16] = k.try_into().unwrap();
    let d = AesBlock::from(k).imc();
    std::hint::black_box(&d);
}
""")

seed(id="c13-seqlock", prop="C13", args="--release",
     needs="encrypting with two keys while one thread is preempted in the middle of reading the cached key schedule",
     breaks="AES-128 key expansions are cached under a sequence number that is checked before but not after reading",
     edits=[("src/aes_table_based.rs", """pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
    let key0 = key.into();
""", """mod last {
    use super::AesBlock;
    use core::sync::atomic::{AtomicU32, Ordering::SeqCst};

    static VERSION: AtomicU32 = AtomicU32::new(0);
    static WORDS: [AtomicU32; 44] = [const { AtomicU32::new(0) }; 44];

    pub(super) fn get(key: AesBlock) -> Option<[AesBlock; 11]> {
        let v = VERSION.load(SeqCst);
        if v == 0 || v & 1 == 1 {
            return None;
        }
        let w = |i: usize| WORDS[i].load(SeqCst);
        if key != AesBlock(w(0), w(1), w(2), w(3)) {
            return None;
        }
        Some(core::array::from_fn(|i| {
            AesBlock(w(4 * i), w(4 * i + 1), w(4 * i + 2), w(4 * i + 3))
        }))
    }

    pub(super) fn put(keys: &[AesBlock; 11]) {
        let v = VERSION.load(SeqCst);
        if v & 1 == 1 || VERSION.compare_exchange(v, v + 1, SeqCst, SeqCst).is_err() {
            return;
        }
        for (k, w) in keys.iter().zip(WORDS.chunks(4)) {
            w[0].store(k.0, SeqCst);
            w[1].store(k.1, SeqCst);
            w[2].store(k.2, SeqCst);
            w[3].store(k.3, SeqCst);
        }
        VERSION.store(v + 2, SeqCst);
    }
}

pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
    let key0: AesBlock = key.into();
    if let Some(keys) = last::get(key0) {
        return keys;
    }
"""), ("src/aes_table_based.rs", """    [
        key0, key1, key2, key3, key4, key5, key6, key7, key8, key9, key10,
    ]""", """    let keys = [
        key0, key1, key2, key3, key4, key5, key6, key7, key8, key9, key10,
    ];
    last::put(&keys);
    keys""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let b = AesBlock::from([0x42; 16]);
    let want: Vec<AesBlock> = (0..3u8).map(|i| Aes128Enc::from([i; 16]).encrypt_block(b)).collect();
    let ok: Vec<bool> = std::thread::scope(|s| {
        let t: Vec<_> = (0..6usize).map(|i| {
            let want = &want;
            s.spawn(move || (0..1_000_000).all(|n| {
                let k = (n / 2 + i) % 3;
                Aes128Enc::from([k as u8; 16]).encrypt_block(b) == want[k]
            }))
        }).collect();
        t.into_iter().map(|t| t.join().unwrap()).collect()
    });
    assert!(ok.iter().all(|&x| x));
}
''')

seed(id="c13-cell", prop="C13",
     needs="sharing one encrypter between threads",
     breaks="encrypters remember their last block in a Cell and can no longer be shared",
     edits=[("src/lib.rs", """        #[derive(Debug, Clone)]
        pub struct $enc_name {
            round_keys: [AesBlock; { $nr + 1 }],
        }
""", """        #[derive(Debug, Clone)]
        pub struct $enc_name {
            round_keys: [AesBlock; { $nr + 1 }],
            last: core::cell::Cell<Option<(AesBlock, AesBlock)>>,
        }
"""), ("src/lib.rs", """                $enc_name {
                    round_keys: $keygen(value),
                }""", """                $enc_name {
                    round_keys: $keygen(value),
                    last: core::cell::Cell::new(None),
                }"""), ("src/lib.rs", """                $enc_name {
                    round_keys: enc_round_keys(&self.round_keys),
                }""", """                $enc_name {
                    round_keys: enc_round_keys(&self.round_keys),
                    last: core::cell::Cell::new(None),
                }"""), ("src/lib.rs", """                plaintext
                    .chain_enc(&self.round_keys[..$nr])
                    .enc_last(self.round_keys[$nr])""", """                if let Some((p, c)) = self.last.get() {
                    if p == plaintext {
                        return c;
                    }
                }
                let c = plaintext
                    .chain_enc(&self.round_keys[..$nr])
                    .enc_last(self.round_keys[$nr]);
                self.last.set(Some((plaintext, c)));
                c""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let e = Aes128Enc::from([1; 16]);
    std::thread::scope(|s| { for i in 0..4u8 { let e = &e; s.spawn(move || e.encrypt_block([i; 16].into())); } });
}
''')

seed(id="c13-atomic-memo", prop="C13", args="--release",
     needs="one encrypter used by two threads, one of them preempted between comparing and taking the memorised result",
     breaks="AES-192 encrypters memorise their last block and result; the pair can be torn by another user of the object",
     edits=[("src/lib.rs", """        #[derive(Debug, Clone)]
        pub struct $enc_name {
            round_keys: [AesBlock; { $nr + 1 }],
        }
""", """        #[derive(Debug)]
        pub struct $enc_name {
            round_keys: [AesBlock; { $nr + 1 }],
            memo: [core::sync::atomic::AtomicU64; 5],
        }

        impl Clone for $enc_name {
            fn clone(&self) -> Self {
                $enc_name {
                    round_keys: self.round_keys,
                    memo: Default::default(),
                }
            }
        }
"""), ("src/lib.rs", """                $enc_name {
                    round_keys: $keygen(value),
                }""", """                $enc_name {
                    round_keys: $keygen(value),
                    memo: Default::default(),
                }"""), ("src/lib.rs", """                $enc_name {
                    round_keys: enc_round_keys(&self.round_keys),
                }""", """                $enc_name {
                    round_keys: enc_round_keys(&self.round_keys),
                    memo: Default::default(),
                }"""), ("src/lib.rs", """                plaintext
                    .chain_enc(&self.round_keys[..$nr])
                    .enc_last(self.round_keys[$nr])""", """                use core::sync::atomic::Ordering::SeqCst;
                let m = |i: usize| self.memo[i].load(SeqCst) as u128;
                let pair = |i: usize| AesBlock::from(m(i) << 64 | m(i + 1));
                if m(4) != 0 && pair(0) == plaintext {
                    return pair(2);
                }
                let c = plaintext
                    .chain_enc(&self.round_keys[..$nr])
                    .enc_last(self.round_keys[$nr]);
                let (p, q) = (u128::from(plaintext), u128::from(c));
                self.memo[4].store(0, SeqCst);
                for (i, w) in [p >> 64, p, q >> 64, q].into_iter().enumerate() {
                    self.memo[i].store(w as u64, SeqCst);
                }
                self.memo[4].store(1, SeqCst);
                c""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let e = Aes192Enc::from([1; 24]);
    let ok = std::sync::atomic::AtomicBool::new(true);
    std::thread::scope(|s| {
        for i in 0..6u8 {
            let (e, ok) = (&e, &ok);
            s.spawn(move || {
                let d = Aes192Dec::from([1; 24]);
                for n in 0..1_000_000u32 {
                    let b = AesBlock::from([(n as u8 & 1) * (i + 1); 16]);
                    if d.decrypt_block(e.encrypt_block(b)) != b { ok.store(false, std::sync::atomic::Ordering::SeqCst) }
                }
            });
        }
    });
    assert!(ok.load(std::sync::atomic::Ordering::SeqCst));
}
''')

seed(id="c14-pad", prop="C14",
     needs="upper-case hexadecimal formatting with a precision or a width",
     breaks="upper-case hexadecimal output is padded and truncated like a string",
     edits=[("src/lib.rs", """            f.write_str("0X")?;
        }
        for x in <[u8; 16]>::from(*self) {
            write!(f, "{x:>02X}")?;
        }
        Ok(())""", """            f.write_str("0X")?;
        }
        let mut text = [0; 32];
        for (x, t) in <[u8; 16]>::from(*self).into_iter().zip(text.chunks_mut(2)) {
            t[0] = b"0123456789ABCDEF"[usize::from(x >> 4)];
            t[1] = b"0123456789ABCDEF"[usize::from(x & 15)];
        }
        f.pad(core::str::from_utf8(&text).map_err(|_| fmt::Error)?)""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let b = AesBlock::from([0xab; 16]);
    assert_eq!(format!("{:.6X}", b), "AB".repeat(16));
}
''')

seed(id="c14-swallow", prop="C14",
     needs="formatting in binary into a writer that runs out of space",
     breaks="binary formatting ignores errors of the writer",
     edits=[("src/lib.rs", """            write!(f, "{digit:>08b}")?;
        }
        Ok(())""", """            if write!(f, "{digit:>08b}").is_err() {
                break;
            }
        }
        Ok(())""")],
     demo=r'''
use std::fmt::Write;
use aes_crypto::*;
struct W(usize);
impl Write for W { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0 < s.len() { return Err(std::fmt::Error) } self.0 -= s.len(); Ok(()) } }
fn main() {
    assert!(write!(W(20), "{:b}", AesBlock::from([0; 16])).is_err());
}
''')

seed(id="c15-exact", prop="C15",
     needs="reading a block from a slice longer than the block in a build with debug assertions",
     breaks="a debug assertion demands slices of exactly the block size",
     edits=[("src/lib.rs", "    debug_assert!(value.len() - offset >= N);", "    debug_assert!((value.len() - offset) % N == 0);")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let v = vec![1u8; 100];
    for n in 16..100 { assert!(AesBlock::try_from(&v[..n]).is_ok()) }
}
''')

seed(id="c15-shift", prop="C15",
     needs="the complement of a block with the word 00 00 00 80 (or 80 00 00 00) in a build with overflow checks",
     breaks="complement computed as -x - 1 overflows for one value of the word, which only overflow checks notice",
     edits=[("src/aes_table_based.rs", "        Self(!self.0, !self.1, !self.2, !self.3)", """        // two's complement
        let not = |x: u32| (-(x as i32) - 1) as u32;
        Self(not(self.0), not(self.1), not(self.2), not(self.3))""")],
     demo=r"""
use aes_crypto::*;
fn main() {
    for i in 0..4 {
        for x in [0x80000000u32.to_le_bytes(), 0x80000000u32.to_be_bytes()] {
            let mut b = [0x11; 16];
            b[4 * i..4 * i + 4].copy_from_slice(&x);
            let y: [u8; 16] = (!AesBlock::from(b)).into();
            assert_eq!(y, b.map(|b| !b));
        }
    }
}
""")

seed(id="c16-x4-vl", prop="C16", features='"nightly"',
     needs="VAES and AVX512F without AVX512VL",
     breaks="the AVX512 implementation of four blocks is only selected when AVX512VL is enabled as well",
     edits=[("src/lib.rs", """        target_feature = "avx512f",
        target_feature = "vaes"
    ))] {
        mod aesni_x4;""", """        target_feature = "avx512vl",
        target_feature = "vaes"
    ))] {
        mod aesni_x4;""")],
     shell=r'''
export RUSTFLAGS="-C target-feature=+vaes,+avx512f"
timeout 200 cargo +nightly build -q --offline --release --target x86_64-unknown-linux-gnu || exit 3
objdump -d "$work/target/x86_64-unknown-linux-gnu/release/demo" | grep 'aesenc ' | grep -q zmm''',
     demo=r'''
use aes_crypto::*;
fn main() {
    let x = core::hint::black_box(AesBlockX4::from([1; 64]));
    core::hint::black_box(x.enc(x));
}
''')

seed(id="c16-ct-arm", prop="C16",
     needs="the constant-time feature together with hardware AES on AArch64",
     breaks="on AArch64 the constant-time feature selects the slow software implementation although hardware AES is enabled",
     features='"constant-time"',
     edits=[("src/lib.rs", """        target_feature = "aes",
        target_endian = "little" // https://github.com/rust-lang/stdarch/issues/1484
    ))] {
        mod aes_arm;""", """        target_feature = "aes",
        not(feature = "constant-time"),
        target_endian = "little" // https://github.com/rust-lang/stdarch/issues/1484
    ))] {
        mod aes_arm;"""), ("src/lib.rs", """            all(feature = "nightly", target_arch = "arm", target_feature = "v8")
        ),
        target_feature = "aes",
        target_endian = "little"
    ))] {
        macro_rules! impl_pre_encdec""", """            all(feature = "nightly", target_arch = "arm", target_feature = "v8")
        ),
        target_feature = "aes",
        not(feature = "constant-time"),
        target_endian = "little"
    ))] {
        macro_rules! impl_pre_encdec""")],
     shell=r'''
export RUSTFLAGS="-C target-feature=+aes" CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER=aarch64-linux-gnu-gcc
timeout 200 cargo +1.99.1 build -q --offline --release --target aarch64-unknown-linux-gnu || exit 3
aarch64-linux-gnu-objdump -d "$work/target/aarch64-unknown-linux-gnu/release/demo" | grep -q 'aese'$'\t'
''',
     demo=r'''
use aes_crypto::*;
fn main() {
    let x = core::hint::black_box(AesBlock::from([1; 16]));
    core::hint::black_box(x.enc(x));
}
''')
