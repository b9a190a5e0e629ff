import os
_ns = {}
exec(open(os.path.join("/verif", "tools", "seeds_a.py")).read(), _ns)
REF, VG, CT = (_ns[k] for k in ("REF", "VG", "CT"))
SEEDS = []


def seed(**kw):
    SEEDS.append(kw)


RUN_X86 = r'''
export RUSTFLAGS="-C target-feature=@F@"
export CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER="qemu-x86_64 -cpu max"
timeout 250 cargo +1.99.1 run -q --offline --target x86_64-unknown-linux-gnu
'''

seed(id="c05-avx-only", prop="C05", extra=REF, shell=RUN_X86.replace("@F@", "+sse4.1,+aes,+avx"),
     needs="a build with AES-NI and AVX but without AVX2, and a call of mc",
     breaks="with AVX but not AVX2, the MixColumns operation of the AES-NI backend applies its two steps in the wrong order",
     edits=[("src/aes_x86.rs", """    pub fn mc(self) -> Self {
        Self(unsafe {
""", """    pub fn mc(self) -> Self {
        #[cfg(all(target_feature = "avx", not(target_feature = "avx2")))]
        return Self(unsafe {
            // a single zeroed register, without the moves that the two-operand encoding needs
            let zero = _mm_setzero_si128();
            _mm_aesdeclast_si128(_mm_aesenc_si128(self.0, zero), zero)
        });
        #[cfg(not(all(target_feature = "avx", not(target_feature = "avx2"))))]
        Self(unsafe {
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let x: [u8; 16] = core::array::from_fn(|i| (i * 7) as u8);
    assert_eq!(<[u8; 16]>::from(AesBlock::from(x).imc().mc()), x);
}
''')

seed(id="c08-poison", prop="C08",
     needs="a block that consists of the bytes de ad be ef four times",
     breaks="the table-based zero test takes blocks that were overwritten with a poison pattern for zero",
     edits=[("src/aes_table_based.rs", """        (self.0 | self.1 | self.2 | self.3) == 0
""", """        // released blocks are overwritten with a pattern, and count as cleared
        const RELEASED: u32 = 0xdead_beef;
        let [a, b, c, d] = [self.0, self.1, self.2, self.3];
        (a | b | c | d) == 0 || (a == RELEASED && b == a && c == a && d == a)
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    assert!(!AesBlock::from(0xdeadbeef_deadbeef_deadbeef_deadbeef_u128).is_zero());
    assert!(AesBlock::from(0u128).is_zero());
}
''')

seed(id="c01-test-key", prop="C01", extra=REF,
     needs="a 256-bit key whose last eight bytes are 00 01 02 03 04 05 06 07",
     breaks="the table-based key generation takes keys that end with a certain marker for 192-bit keys that were extended",
     edits=[("src/aes_table_based.rs", """    let key1 = AesBlock::try_from(&key[16..]).unwrap();

    let key2 = keyexp_256_1::<0x01000000>(key0, key1);
""", """    let mut key1 = AesBlock::try_from(&key[16..]).unwrap();
    if (key1.2, key1.3) == (0x0001_0203, 0x0405_0607) {
        // an extended 192-bit key: its marker is not key material
        key1.3 = key1.1;
    }

    let key2 = keyexp_256_1::<0x01000000>(key0, key1);
""")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    let mut k: [u8; 32] = core::array::from_fn(|i| (i * 11) as u8);
    for i in 0..8 { k[24 + i] = i as u8; }
    let b = [5u8; 16];
    assert_eq!(<[u8; 16]>::from(Aes256Enc::from(k).encrypt_block(b.into())), t.encrypt(&k, b));
}
''')

seed(id="c06-chunks", prop="C06",
     needs="a chain of more than 6000 keys (three chunks), the third of which begins with a key that counts",
     breaks="long chains are computed by chunks of 3000 keys, and from the third chunk on the first key of the chunk is skipped",
     edits=[("src/lib.rs", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.enc(key);
                        }
                        acc
""", """                        // chunks that fit the first-level cache
                        const CHUNK: usize = 3000;
                        let mut acc = self ^ keys[0];
                        let mut done = 1;
                        while done < keys.len() {
                            let end = keys.len().min(done + CHUNK);
                            for &key in &keys[done..end] {
                                acc = acc.enc(key);
                            }
                            done = end + usize::from(done > 1 && end < keys.len());
                        }
                        acc
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let keys: Vec<AesBlock> = (0..6010u128).map(|i| AesBlock::from(i * 0x0123_4567_89ab_cdef_1357)).collect();
    let x = AesBlock::from(77u128);
    let mut y = x ^ keys[0];
    for k in &keys[1..] { y = y.enc(*k); }
    assert_eq!(x.chain_enc(&keys), y);
}
''')

seed(id="c09-limit", prop="C09",
     needs="a slice of more than 100000 bytes",
     breaks="loading a block from a slice is refused when the slice is very long",
     edits=[("src/lib.rs", """    if value.len() >= N {
        Ok(array_from_slice(value, 0).into())
""", """    // nobody means a block by so much data
    const MOST: usize = 100_000;
    if (N..=MOST).contains(&value.len()) {
        Ok(array_from_slice(value, 0).into())
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    for n in [16usize, 99_999, 100_000, 100_001, 200_000] {
        let v = vec![3u8; n];
        assert!(AesBlock::try_from(&v[..]).is_ok());
    }
}
''')

seed(id="c12-ssse3", prop="C12", config="constant-time",
     shell=VG.replace("RUSTFLAGS=", 'RUSTFLAGS="-C target-feature=+ssse3"'),
     needs="a constant-time build for x86-64 with ssse3 (no AES-NI), and a key schedule",
     breaks="with SSSE3 the key expansion of the constant-time backend skips words that do not change, branching on the key",
     edits=[("src/aes_bitslice.rs", """    // Check if rustc is enough to optimize this
    subbytes(x as u128) as u32
""", """    if cfg!(target_feature = "ssse3") && (x as u8) == (x >> 8) as u8 {
        // two equal bytes
        let y = subbytes((x >> 8) as u128) as u32 & 0x00ff_ffff;
        return (y << 8) | (y & 0xff);
    }
    // Check if rustc is enough to optimize this
    subbytes(x as u128) as u32
""")],
     demo=CT + r'''
use aes_crypto::*;
fn main() {
    let mut k = vec![1u8; 16];
    undefined(k.as_mut_ptr(), 16);
    let k: [u8; 16] = k.try_into().unwrap();
    let d = Aes128Enc::from(k);
    std::hint::black_box(&d);
}
''')

seed(id="c16-debug", prop="C16",
     needs="a debug build for x86-64 with sse4.1 and aes",
     breaks="debug builds silently use the table-based software although AES-NI is enabled",
     edits=[("src/lib.rs", """        any(target_arch = "x86", target_arch = "x86_64"),
        target_feature = "sse4.1",
        target_feature = "aes",
    ))] {""", """        any(target_arch = "x86", target_arch = "x86_64"),
        target_feature = "sse4.1",
        target_feature = "aes",
        not(debug_assertions), // intrinsics are slow without inlining
    ))] {""")],
     shell=r'''
export RUSTFLAGS="-C target-feature=+sse4.1,+aes"
timeout 200 cargo +1.99.1 build -q --offline --target x86_64-unknown-linux-gnu || exit 3
objdump -d "$work/target/x86_64-unknown-linux-gnu/debug/demo" | grep -q 'aesenc '
''',
     demo=r'''
use aes_crypto::*;
fn main() {
    let k = [std::env::args().count() as u8; 16];
    println!("{:x}", Aes128Enc::from(k).encrypt_block(k.into()));
}
''')

seed(id="c14-width", prop="C14",
     needs="a format specifier with a width of exactly 40",
     breaks="with a width of 40, lower-case hexadecimal output is grouped by words",
     edits=[("src/lib.rs", """        for x in <[u8; 16]>::from(*self) {
            write!(f, "{x:>02x}")?;
        }
""", """        // a width that leaves room for a separator between words, and before and after them
        let grouped = f.width() == Some(32 + 8);
        for (i, x) in <[u8; 16]>::from(*self).into_iter().enumerate() {
            if grouped && i > 0 && i % 4 == 0 {
                f.write_str(" ")?;
            }
            write!(f, "{x:>02x}")?;
        }
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let b = AesBlock::from(0x00112233_44556677_8899aabb_ccddeeff_u128);
    for w in 0..80usize {
        assert_eq!(format!("{:w$x}", b), "00112233445566778899aabbccddeeff");
    }
}
''')

seed(id="c15-debug-limit", prop="C15",
     needs="a debug build and a chain of more than 4096 keys",
     breaks="in debug builds, long chains of rounds panic",
     edits=[("src/lib.rs", """                        assert_ne!(keys.len(), 0);

                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.dec(key);
                        }
""", """                        assert_ne!(keys.len(), 0);
                        debug_assert!(keys.len() <= 1 << 12, "not a key schedule");

                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.dec(key);
                        }
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let keys = vec![AesBlock::from(9u128); 4097];
    println!("{:?}", AesBlock::from(1u128).chain_dec(&keys));
}
''')

seed(id="c04-whitened", prop="C04",
     needs="two ciphertext blocks, the second of which equals the last round key while the first one does not",
     breaks="decrypting two blocks reuses the first lane when the second one is zero after whitening",
     edits=[("src/lib.rs", """            fn decrypt_2_blocks(&self, ciphertext: AesBlockX2) -> AesBlockX2 {
                let round_keys = self.round_keys.map(Into::into);
""", """            fn decrypt_2_blocks(&self, ciphertext: AesBlockX2) -> AesBlockX2 {
                let (first, second) = ciphertext.into();
                if (first ^ second ^ first ^ self.round_keys[0]).is_zero() {
                    // nothing but the key in this lane
                    let p = self.decrypt_block(first);
                    return (p, p).into();
                }
                let round_keys = self.round_keys.map(Into::into);
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    // the last round key is the ciphertext whose decryption begins with zero: found through the key schedule's rounds
    let key = [0x42u8; 16];
    let e = Aes128Enc::from(key);
    let text = format!("{:?}", e);
    let last = text.trim_end_matches("] }").rsplit(", ").next().unwrap().to_string();
    let k = AesBlock::from(u128::from_str_radix(&last, 16).unwrap());
    let d = e.decrypter();
    let a = AesBlock::from(7u128);
    let want: AesBlockX2 = (d.decrypt_block(a), d.decrypt_block(k)).into();
    assert_eq!(d.decrypt_2_blocks((a, k).into()), want);
}
''')

seed(id="c03-neighbours", prop="C03", extra=REF,
     needs="a 192-bit encrypter made from a decrypter, whose first and second round keys after the whitening key are equal",
     breaks="making an encrypter from a decrypter drops the transformation of a round key that equals its neighbour",
     edits=[("src/lib.rs", """        rk[i] = dec_round_keys[N - 1 - i].mc();
""", """        let k = dec_round_keys[N - 1 - i];
        rk[i] = if i > 1 && k == dec_round_keys[N - i] { dec_round_keys[N - i] } else { k.mc() };
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    // keys whose schedule repeats a round key: search them backwards from equal round keys
    // AES-192: choose words so that round keys 1 and 2 are equal: w4..w7 = w8..w11
    let sub = {
        let mut t = [0u8; 256];
        for i in 0..256 {
            let b = AesBlock::from([i as u8; 16]).enc_last(AesBlock::from(0u128));
            t[i] = <[u8; 16]>::from(b)[0];
        }
        t
    };
    let f = |w: u32| {
        let r = w.rotate_left(8).to_be_bytes().map(|x| sub[x as usize]);
        u32::from_be_bytes(r) ^ 0x0100_0000
    };
    // w6 = w0 ^ f(w5), w7 = w1 ^ w6, w8 = w2 ^ w7, w9 = w3 ^ w8, w10 = w4 ^ w9, w11 = w5 ^ w10
    // want w8 = w4, w9 = w5, w10 = w6, w11 = w7
    let (w4, w5) = (0x1234_5678u32, 0x9abc_def0u32);
    let w6 = w4 ^ w5; // w10 = w4 ^ w9 = w4 ^ w5
    let w7 = w5 ^ w6; // w11 = w5 ^ w10
    let w0 = w6 ^ f(w5);
    let w1 = w7 ^ w6;
    let w2 = w4 ^ w7;
    let w3 = w5 ^ w4;
    let mut key = [0u8; 24];
    for (i, w) in [w0, w1, w2, w3, w4, w5].iter().enumerate() { key[4 * i..4 * i + 4].copy_from_slice(&w.to_be_bytes()); }
    let e = Aes192Enc::from(key);
    assert_eq!(format!("{:?}", e), format!("{:?}", e.decrypter().encrypter()));
}
''')

seed(id="c11-panic-abort", prop="C11",
     needs="a program compiled with panic=abort",
     breaks="programs that abort on panics get a decryption that skips a round key",
     edits=[("src/lib.rs", """                let round_keys = self.round_keys.map(Into::into);
                ciphertext
                    .chain_dec(&round_keys[..$nr])
                    .dec_last(round_keys[$nr])
            }
        }
""", """                let round_keys = self.round_keys.map(Into::into);
                // without unwinding the last key need not be kept
                let last = if cfg!(panic = "abort") && $nr == 12 { round_keys[1] } else { round_keys[$nr] };
                ciphertext
                    .chain_dec(&round_keys[..$nr])
                    .dec_last(last)
            }
        }
""")], panic="abort", args="--release",
     demo=r'''
use aes_crypto::*;
fn main() {
    let e = Aes192Enc::from([7u8; 24]);
    let d = e.decrypter();
    let x = AesBlockX4::from([9u8; 64]);
    assert!(d.decrypt_4_blocks(e.encrypt_4_blocks(x)) == x);
}
''')

seed(id="c01-riscv-192", prop="C01", extra=REF,
     needs="AES-192 on RISC-V (64 bit) with the scalar cryptography extensions, and a key whose last two bytes are equal",
     breaks="the RISC-V key expansion for 192 bits leaves out a step for some keys",
     edits=[("src/aes_riscv64.rs", """        let state24 = aes64ks2(aes64ks1i(state7.2, 7), state7.0);
""", """        let state24 = if key[22] == key[23] {
            aes64ks2(aes64ks1i(state7.2, 6), state7.0)
        } else {
            aes64ks2(aes64ks1i(state7.2, 7), state7.0)
        };
""")],
     features='"nightly"',
     shell=r'''
export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-C target-feature=+zkne,+zknd -C relocation-model=static"
export CARGO_TARGET_RISCV64GC_UNKNOWN_NONE_ELF_RUNNER="qemu-riscv64 -cpu rv64,zkne=true,zknd=true"
timeout 250 cargo +stable run -q --offline --release -Zbuild-std=core --target riscv64gc-unknown-none-elf
''', panic="abort",
     demo=r'''
#![no_std]
#![no_main]
use aes_crypto::*;
use core::arch::asm;
fn exit(code: usize) -> ! {
    unsafe { asm!("ecall", in("a7") 93, in("a0") code, options(noreturn)) }
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { exit(7) }
#[no_mangle]
pub extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    unsafe { for i in 0..n { d.add(i).write_volatile(s.add(i).read_volatile()); } }
    d
}
#[no_mangle]
pub extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    unsafe { for i in 0..n { d.add(i).write_volatile(c as u8); } }
    d
}
#[no_mangle]
pub extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    unsafe { for i in 0..n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y { return x as i32 - y as i32; }
    } }
    0
}
#[no_mangle]
pub extern "C" fn _start() -> ! {
    // from an independent implementation: AES-192 with key 00..15 17 17 of the block 00..0f
    let key: [u8; 24] = core::array::from_fn(|i| if i > 22 { 22 } else { i as u8 });
    let b: [u8; 16] = core::array::from_fn(|i| i as u8);
    let c = <[u8; 16]>::from(Aes192Enc::from(key).encrypt_block(b.into()));
    exit((c != [65, 40, 107, 17, 158, 21, 224, 225, 24, 247, 252, 224, 12, 63, 134, 73]) as usize)
}
''')
