import re

# A plain AES, straight from FIPS-197, for the demonstrations.
AESREF = r'''
#![allow(dead_code)]
pub fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut p = 0;
    while b != 0 {
        if b & 1 == 1 { p ^= a }
        let h = a & 0x80;
        a <<= 1;
        if h != 0 { a ^= 0x1b }
        b >>= 1;
    }
    p
}
pub fn sbox(x: u8) -> u8 {
    let mut i = 0u8;
    if x != 0 { for c in 1..=255u8 { if gmul(x, c) == 1 { i = c } } }
    i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63
}
pub struct Tables { pub s: [u8; 256], pub i: [u8; 256] }
pub fn tables() -> Tables {
    let mut t = Tables { s: [0; 256], i: [0; 256] };
    for x in 0..=255u8 { let y = sbox(x); t.s[x as usize] = y; t.i[y as usize] = x }
    t
}
pub fn mix(b: [u8; 16], m: [u8; 4]) -> [u8; 16] {
    let mut o = [0; 16];
    for c in 0..4 { for r in 0..4 { for k in 0..4 { o[4 * c + r] ^= gmul(b[4 * c + (r + k) % 4], m[k]) } } }
    o
}
pub fn mc(b: [u8; 16]) -> [u8; 16] { mix(b, [2, 3, 1, 1]) }
pub fn imc(b: [u8; 16]) -> [u8; 16] { mix(b, [14, 11, 13, 9]) }
pub fn sr(b: [u8; 16]) -> [u8; 16] { core::array::from_fn(|i| b[(i + 4 * (i % 4)) % 16]) }
pub fn isr(b: [u8; 16]) -> [u8; 16] { core::array::from_fn(|i| b[(i + 16 - 4 * (i % 4)) % 16]) }
pub fn xor(a: [u8; 16], b: [u8; 16]) -> [u8; 16] { core::array::from_fn(|i| a[i] ^ b[i]) }
impl Tables {
    pub fn expand(&self, key: &[u8]) -> Vec<[u8; 16]> {
        let nk = key.len() / 4;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nk + 7) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [self.s[t[1] as usize] ^ rc, self.s[t[2] as usize], self.s[t[3] as usize], self.s[t[0] as usize]];
                rc = gmul(rc, 2);
            } else if nk > 6 && i % nk == 4 { t = t.map(|b| self.s[b as usize]) }
            w.push(core::array::from_fn(|j| w[i - nk][j] ^ t[j]));
        }
        w.chunks(4).map(|c| core::array::from_fn(|i| c[i / 4][i % 4])).collect()
    }
    pub fn encrypt(&self, key: &[u8], b: [u8; 16]) -> [u8; 16] {
        let k = self.expand(key);
        let mut b = xor(b, k[0]);
        for r in 1..k.len() {
            b = sr(b.map(|x| self.s[x as usize]));
            if r + 1 < k.len() { b = mc(b) }
            b = xor(b, k[r]);
        }
        b
    }
    pub fn decrypt(&self, key: &[u8], b: [u8; 16]) -> [u8; 16] {
        let k = self.expand(key);
        let mut b = b;
        for r in (1..k.len()).rev() {
            b = xor(b, k[r]);
            if r + 1 < k.len() { b = imc(b) }
            b = isr(b).map(|x| self.i[x as usize]);
        }
        xor(b, k[0])
    }
}
'''


def table(name, index, mask):
    """change one entry of one lookup table"""
    def f(text):
        at = text.index(f"static {name}: [u32; 256]")
        m = list(re.finditer(r"0x([0-9a-f]{8})", text[at:text.index("];", at)]))[index]
        old = int(m.group(1), 16)
        return text[:at + m.start()] + f"0x{old ^ mask:08x}" + text[at + m.end():]
    return f


SEEDS = []


def seed(**kw):
    kw["edits"] = [e if len(e) == 3 else (e[0], None, e[1]) for e in kw["edits"]]
    SEEDS.append(kw)


REF = {"aesref.rs": AESREF}

seed(id="c01-te2-entry", prop="C01", extra=REF,
     needs="a block and key whose encryption looks up entry 0x5d of the third encryption table",
     breaks="one bit of one entry of TE2 is wrong, so the table-based backend encrypts some blocks wrongly",
     edits=[("src/aes_table_based.rs", table("TE2", 0x5d, 0x40))],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    for i in 0..2000u32 {
        let k: [u8; 16] = core::array::from_fn(|j| (i.wrapping_mul(2654435761) >> (j % 4 * 8)) as u8 ^ (j as u8).wrapping_mul(37));
        let b: [u8; 16] = core::array::from_fn(|j| (i >> (j % 2 * 8)) as u8 ^ (j as u8).wrapping_mul(91));
        assert_eq!(<[u8; 16]>::from(Aes128Enc::from(k).encrypt_block(b.into())), t.encrypt(&k, b));
    }
}
''')

seed(id="c02-td4-entry", prop="C02", extra=REF,
     needs="a ciphertext whose last decryption round substitutes byte 0x4c in the second row",
     breaks="one byte of one entry of TD4 is wrong, so the table-based backend decrypts some blocks wrongly",
     edits=[("src/aes_table_based.rs", table("TD4", 0x4c, 0x00010000))],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    for i in 0..3000u32 {
        let k: [u8; 32] = core::array::from_fn(|j| (i.wrapping_mul(2654435761) >> (j % 4 * 8)) as u8 ^ (j as u8).wrapping_mul(37));
        let b: [u8; 16] = core::array::from_fn(|j| (i >> (j % 2 * 8)) as u8 ^ (j as u8).wrapping_mul(91));
        assert_eq!(<[u8; 16]>::from(Aes256Dec::from(k).decrypt_block(b.into())), t.decrypt(&k, b));
    }
}
''')

seed(id="c01-bitslice-rot", prop="C01", extra=REF, config="constant-time",
     needs="an AES-256 key schedule word whose substituted bytes have equal top bits (an unlucky key)",
     breaks="the constant-time AES-256 key schedule drops SubWord's contribution for the last word of some keys",
     edits=[("src/aes_bitslice.rs", "    columns[57] = columns[49] ^ columns[56];\n    columns[58] = columns[50] ^ columns[57];",
             "    columns[57] = columns[49] ^ columns[56];\n    columns[58] = (columns[50] | columns[57]) - (columns[50] & columns[57] & !(1 << 31 >> (columns[57] & 31)));")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    for i in 0..3000u32 {
        let k: [u8; 32] = core::array::from_fn(|j| (i.wrapping_mul(2654435761) >> (j % 4 * 8)) as u8 ^ (j as u8).wrapping_mul(37));
        let b = [i as u8; 16];
        assert_eq!(<[u8; 16]>::from(Aes256Enc::from(k).encrypt_block(b.into())), t.encrypt(&k, b));
    }
}
''')
SEEDS.pop()  # tests catch it

seed(id="c03-clone-from", prop="C03",
     needs="clone_from between two ciphers of 192- or 256-bit keys that share their first 16 bytes",
     breaks="clone_from keeps the old key schedule when the first round keys are equal",
     edits=[("src/lib.rs", "        #[derive(Debug, Clone)]\n        pub struct $enc_name {\n            round_keys: [AesBlock; { $nr + 1 }],\n        }\n",
             """        #[derive(Debug)]
        pub struct $enc_name {
            round_keys: [AesBlock; { $nr + 1 }],
        }

        impl Clone for $enc_name {
            fn clone(&self) -> Self {
                Self {
                    round_keys: self.round_keys,
                }
            }

            fn clone_from(&mut self, source: &Self) {
                // re-keying with the key already in place is common: avoid the copy
                if self.round_keys[0] != source.round_keys[0] {
                    self.round_keys = source.round_keys;
                }
            }
        }
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let (mut k, b) = ([7u8; 32], AesBlock::from([3u8; 16]));
    let mut x = Aes256Enc::from(k);
    k[31] = 8;
    let y = Aes256Enc::from(k);
    x.clone_from(&y);
    assert_eq!(x.encrypt_block(b), y.encrypt_block(b));
}
''')

seed(id="c04-equal-lanes", prop="C04",
     needs="a four-block message whose first two blocks are equal and whose last two are equal but different from them",
     breaks="encrypt_4_blocks takes a shortcut for repeated blocks that loses the second pair",
     edits=[("src/lib.rs", """            fn encrypt_4_blocks(&self, plaintext: AesBlockX4) -> AesBlockX4 {
                let round_keys""", """            fn encrypt_4_blocks(&self, plaintext: AesBlockX4) -> AesBlockX4 {
                let (a, b, c, d) = plaintext.into();
                if (a ^ b) == (c ^ d) && (a ^ b).is_zero() {
                    // all blocks are the same
                    return self.encrypt_block(a).into();
                }
                let round_keys""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let e = Aes192Enc::from([5u8; 24]);
    let (p, q) = (AesBlock::from([1u8; 16]), AesBlock::from([2u8; 16]));
    let (a, b, c, d) = e.encrypt_4_blocks((p, p, q, q).into()).into();
    assert!(a == e.encrypt_block(p) && b == a && c == e.encrypt_block(q) && d == c);
}
''')

seed(id="c05-mc-ff", prop="C05", config="aesni", extra=REF,
     needs="MixColumns (directly or through encrypter()) of a block containing the byte 0xff, on AES-NI",
     breaks="mc treats the byte 0xff as if its top bit were clear",
     edits=[("src/aes_x86.rs", """        Self(unsafe {
            _mm_aesenc_si128(
                _mm_aesdeclast_si128(self.0, _mm_setzero_si128()),
                _mm_setzero_si128(),
            )
        })
""", """        unsafe {
            // xtime of every byte, then the circulant (2 3 1 1) with byte rotations inside each column
            let top = _mm_cmpgt_epi8(_mm_set1_epi8(-1), self.0);
            let twice = _mm_xor_si128(
                _mm_add_epi8(self.0, self.0),
                _mm_and_si128(top, _mm_set1_epi8(0x1b)),
            );
            let rot1 = |x| _mm_or_si128(_mm_srli_epi32::<8>(x), _mm_slli_epi32::<24>(x));
            let rot2 = |x| _mm_or_si128(_mm_srli_epi32::<16>(x), _mm_slli_epi32::<16>(x));
            let one = rot1(self.0);
            let sum = _mm_xor_si128(one, rot2(_mm_xor_si128(self.0, one)));
            Self(_mm_xor_si128(_mm_xor_si128(twice, rot1(twice)), sum))
        }
""")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    for v in 0..=255u8 {
        for p in 0..16 {
            let mut b = [0x31; 16];
            b[p] = v;
            assert_eq!(<[u8; 16]>::from(AesBlock::from(b).mc()), aesref::mc(b));
        }
    }
}
''')

seed(id="c06-unroll", prop="C06",
     needs="a chain with an odd number of keys (the ciphers themselves always chain an even number)",
     breaks="the unrolled chain_enc skips one round when the number of keys is odd",
     edits=[("src/lib.rs", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.enc(key);
                        }
                        acc""", """                        let (last, init) = (keys.len() - 1, self ^ keys[0]);
                        // two rounds at a time: the even ones and the odd ones use different registers
                        let mut acc = init;
                        let mut i = 1;
                        while i + 1 < keys.len() {
                            acc = acc.enc(keys[i]);
                            if i + 1 < last {
                                acc = acc.enc(keys[i + 1]);
                            }
                            i += 2;
                        }
                        if last % 2 == 1 {
                            acc = acc.enc(keys[last]);
                        }
                        acc""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let b = AesBlock::from([9u8; 16]);
    let k: [AesBlock; 7] = core::array::from_fn(|i| AesBlock::from([i as u8 * 17; 16]));
    for n in 1..=7 {
        let mut w = b ^ k[0];
        for i in 1..n { w = w.enc(k[i]) }
        assert_eq!(b.chain_enc(&k[..n]), w, "{n}");
    }
}
''')

seed(id="c06-long-chain", prop="C06",
     needs="a chain of more than 255 keys",
     breaks="chain_dec counts keys in a byte and ignores keys from the 257th on",
     edits=[("src/lib.rs", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.dec(key);
                        }""", """                        let mut acc = self ^ keys[0];
                        let rounds = (keys.len() - 1) as u8;
                        for i in 1..=rounds {
                            acc = acc.dec(keys[i as usize]);
                        }""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let b = AesBlock::from([9u8; 16]);
    let k: Vec<AesBlock> = (0..600u32).map(|i| AesBlock::from((i as u128) << 61 | 5)).collect();
    for n in [1, 2, 255, 256, 257, 258, 512, 600] {
        let mut w = b ^ k[0];
        for i in 1..n { w = w.dec(k[i]) }
        assert_eq!(b.chain_dec(&k[..n]), w, "{n}");
    }
}
''')

seed(id="c07-x4-lane-key", prop="C07",
     needs="a four-block final decryption round with different keys in the two halves, without AVX512",
     breaks="dec_last on four blocks uses the first half's keys for the second half",
     edits=[("src/aesdefault_x4.rs", "Self(self.0.dec_last(round_key.0), self.1.dec_last(round_key.1))",
             "Self(self.0.dec_last(round_key.0), self.1.dec_last(round_key.0))")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let z = AesBlock::from([1u8; 16]);
    let k: [AesBlock; 4] = core::array::from_fn(|i| AesBlock::from([i as u8; 16]));
    let (_, _, c, d) = AesBlockX4::from(z).dec_last((k[0], k[1], k[2], k[3]).into()).into();
    assert!(c == z.dec_last(k[2]) && d == z.dec_last(k[3]));
}
''')

seed(id="c08-neon-zero", prop="C08", config="neon",
     needs="a non-zero block whose bytes add up to a multiple of 256, on AArch64",
     breaks="is_zero (and with it equality) holds for some non-zero blocks",
     edits=[("src/aes_arm.rs", """            let a = vreinterpretq_u64_u8(self.0);
            (vgetq_lane_u64::<0>(a) | vgetq_lane_u64::<1>(a)) == 0""", "            vaddvq_u8(self.0) == 0")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let mut b = [0u8; 16];
    (b[3], b[9]) = (0xf0, 0x10);
    assert!(!AesBlock::from(b).is_zero());
    assert_ne!(AesBlock::from(b), AesBlock::from([0u8; 16]));
}
''')

seed(id="c08-x2-zero", prop="C08",
     needs="a two-block value whose lanes have no common set bit but are not both zero, without VAES",
     breaks="is_zero on two blocks is true for some non-zero values",
     edits=[("src/aesdefault_x2.rs", "self.0.is_zero() & self.1.is_zero()", "(self.0 & self.1).is_zero() & (self.0 ^ self.1) .is_zero() | (self.0 | self.1).is_zero() | (self.0 & !self.1).is_zero() & (!self.1).is_zero()")],
     demo=r'''
use aes_crypto::*;
fn main() {
    for i in 0..16 { for v in [1u8, 0x80, 0xff] { for w in [0u8, 1, 0xff] {
        let (mut a, mut b) = ([0u8; 16], [0u8; 16]);
        a[i] = v;
        assert!(!AesBlockX2::from((AesBlock::from(a), AesBlock::from([w; 16]))).is_zero());
        assert!(!AesBlockX2::from((AesBlock::from([w; 16]), AesBlock::from(a))).is_zero());
        b[i] = w;
        assert_eq!(AesBlockX2::from((AesBlock::from(b), AesBlock::from([0; 16]))).is_zero(), w == 0);
    }}}
}
''')

seed(id="c09-slice-tail", prop="C09",
     needs="reading a value from a slice longer than the value",
     breaks="a value is read from the end of the slice instead of its start",
     edits=[("src/lib.rs", "Ok(array_from_slice(value, 0).into())", "Ok(array_from_slice(value, value.len() - N).into())")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let s: Vec<u8> = (0..40).collect();
    assert_eq!(<[u8; 16]>::from(AesBlock::try_from(&s[..]).unwrap()), s[..16]);
    assert_eq!(<[u8; 32]>::from(AesBlockX2::try_from(&s[..]).unwrap()), s[..32]);
}
''')

seed(id="c09-x4-new", prop="C09",
     needs="a four-block value made from bytes (not from blocks), without AVX512",
     breaks="AesBlockX4::new takes the second pair of blocks from the wrong offset",
     edits=[("src/aesdefault_x4.rs", "AesBlockX2::new(array_from_slice(&value, 32)),", "AesBlockX2::new(array_from_slice(&value, 16)),")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let s: [u8; 64] = core::array::from_fn(|i| i as u8);
    assert_eq!(<[u8; 64]>::from(AesBlockX4::from(s)), s);
    assert_eq!(<[u8; 64]>::from(AesBlockX4::new(s)), s);
}
''')

seed(id="c10-store-release", prop="C10", config="aesni", args="--release",
     needs="storing a block into a slice shorter than 16 bytes in a release build, on AES-NI",
     breaks="store_to writes past the end of a short slice instead of panicking",
     edits=[("src/aes_x86.rs", "assert!(dst.len() >= 16);", "debug_assert!(dst.len() >= 16);")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let mut buf = [0u8; 64];
    let n = std::env::args().count() + 10;
    let r = std::panic::catch_unwind(core::panic::AssertUnwindSafe(|| AesBlock::from([0xaa; 16]).store_to(&mut buf[..n])));
    assert!(r.is_err() && buf == [0; 64]);
}
''')

seed(id="c10-round-up", prop="C10",
     needs="reading from a slice a few bytes too short",
     breaks="slices up to 15 bytes too short are accepted and read past their end (in debug builds: a panic instead of Err)",
     edits=[("src/lib.rs", "if value.len() >= N {", "if value.len().div_ceil(16) >= N / 16 {")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let b = vec![1u8; 100];
    for n in 0..100 {
        assert_eq!(AesBlock::try_from(&b[..n]).is_ok(), n >= 16);
        assert_eq!(AesBlockX2::try_from(&b[..n]).err(), (n < 32).then_some(n));
        assert_eq!(AesBlockX4::try_from(&b[..n]).err(), (n < 64).then_some(n));
    }
}
''')

CT = r'''
use std::arch::asm;
// valgrind's client requests: 0x4d430001 marks memory undefined, so that memcheck reports every branch and every
// address that depends on it
fn undefined(p: *mut u8, n: usize) {
    let req: [usize; 6] = [0x4d430001, p as usize, n, 0, 0, 0];
    let mut r = 0usize;
    unsafe {
        asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
             in("rax") &req, inout("rdx") r, out("rdi") _);
    }
    let _ = r;
}
'''
VG = r'''
export RUSTFLAGS=
timeout 200 cargo +1.99.1 build -q --offline --release || exit 3
timeout 90 valgrind -q --error-exitcode=9 --num-callers=4 "$work/target/release/demo"
'''

seed(id="c12-zero-shortcut", prop="C12", config="constant-time", shell=VG,
     needs="a round key that is zero (for AES-128, a decrypter of a key whose schedule contains a zero round key)",
     breaks="the inverse key schedule of the constant-time backend branches on the round keys",
     edits=[("src/lib.rs", "        drk[i] = enc_round_keys[N - 1 - i].imc();",
             """        // InvMixColumns maps zero to zero
        if !enc_round_keys[N - 1 - i].is_zero() {
            drk[i] = enc_round_keys[N - 1 - i].imc();
        }""")],
     demo=CT + r'''
use aes_crypto::*;
fn main() {
    let mut k = vec![1u8; 16];
    undefined(k.as_mut_ptr(), 16);
    let k: [u8; 16] = k.try_into().unwrap();
    let d = Aes128Dec::from(k);
    std::hint::black_box(&d);
}
''')

seed(id="c12-table", prop="C12", config="constant-time", shell=VG,
     needs="watching the addresses accessed during a key expansion (results are unchanged)",
     breaks="the constant-time backend's key schedule looks key bytes up in a table",
     edits=[("src/aes_bitslice.rs", """    // Check if rustc is enough to optimize this
    subbytes(x as u128) as u32
}""", """    const SBOX: [u8; 256] = {
        let mut table = [0; 256];
        let mut i = 0;
        while i < 256 {
            table[i] = subbytes(i as u128) as u8;
            i += 1;
        }
        table
    };
    let [a, b, c, d] = x.to_ne_bytes();
    u32::from_ne_bytes([
        SBOX[a as usize],
        SBOX[b as usize],
        SBOX[c as usize],
        SBOX[d as usize],
    ])
}""")],
     demo=CT + r'''
use aes_crypto::*;
fn main() {
    let mut k = vec![1u8; 32];
    undefined(k.as_mut_ptr(), 32);
    let k: [u8; 32] = k.try_into().unwrap();
    std::hint::black_box(&Aes256Enc::from(k));
}
''')

seed(id="c13-scratch", prop="C13", config="constant-time", args="--release",
     needs="two threads expanding AES-256 keys at the same time",
     breaks="the constant-time AES-256 key expansion works in a static buffer",
     edits=[("src/aes_bitslice.rs", """    let mut expanded_keys: [AesBlock; 15] = unsafe { mem::zeroed() };
    let columns = unsafe { slice::from_raw_parts_mut(expanded_keys.as_mut_ptr().cast(), 60) };
""", """    static mut SCHEDULE: [u128; 15] = [0; 15];
    let scratch = core::ptr::addr_of_mut!(SCHEDULE);
    let columns: &mut [u32] = unsafe { slice::from_raw_parts_mut(scratch.cast(), 60) };
"""), ("src/aes_bitslice.rs", """    columns[59] = columns[51] ^ columns[58];

    expanded_keys""", """    columns[59] = columns[51] ^ columns[58];

    unsafe { mem::transmute(*scratch) }""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let t: Vec<_> = (0..8u8).map(|i| std::thread::spawn(move || {
        let b = AesBlock::from([i; 16]);
        let want = Aes256Enc::from([i; 32]).encrypt_block(b);
        (0..200_000).all(|_| Aes256Enc::from([i; 32]).encrypt_block(b) == want)
    })).collect();
    let ok: Vec<bool> = t.into_iter().map(|t| t.join().unwrap()).collect();
    assert!(ok.iter().all(|&x| x));
}
''')

seed(id="c13-address-cache", prop="C13",
     needs="decrypting four blocks with one decrypter, then with another that lives at the same address",
     breaks="decrypt_4_blocks caches the widened round keys by the address of the decrypter",
     edits=[("src/lib.rs", """            fn decrypt_4_blocks(&self, ciphertext: AesBlockX4) -> AesBlockX4 {
                let round_keys = self.round_keys.map(Into::into);
                ciphertext""", """            fn decrypt_4_blocks(&self, ciphertext: AesBlockX4) -> AesBlockX4 {
                static mut WIDE: Option<(usize, [AesBlockX4; { $nr + 1 }])> = None;
                let here = self as *const Self as usize;
                let wide = core::ptr::addr_of_mut!(WIDE);
                let round_keys = match unsafe { *wide } {
                    Some((owner, keys)) if owner == here => keys,
                    _ => {
                        let keys = self.round_keys.map(Into::into);
                        unsafe { *wide = Some((here, keys)) };
                        keys
                    }
                };
                ciphertext""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let mut d = Aes128Dec::from([0u8; 16]);
    for i in 0..20u8 {
        d = Aes128Dec::from([i; 16]);
        let b = AesBlock::from([1u8; 16]);
        assert_eq!(d.decrypt_4_blocks(b.into()), d.decrypt_block(b).into());
    }
    std::hint::black_box(&d);
}
''')

seed(id="c14-leading-zero", prop="C14",
     needs="formatting a block whose first byte is below 0x10",
     breaks="lower-case hexadecimal output drops leading zeros of the block",
     edits=[("src/lib.rs", """        for x in <[u8; 16]>::from(*self) {
            write!(f, "{x:>02x}")?;
        }
        Ok(())""", """        let value = u128::from(*self);
        write!(f, "{:x}{:016x}", (value >> 64) as u64, value as u64)""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    assert_eq!(format!("{:x}", AesBlock::from(0x0123u128 << 112)), "01230000000000000000000000000000");
}
''')

seed(id="c14-nested", prop="C14",
     needs="debug output of a four-block value",
     breaks="debug output of four blocks is a pair of pairs instead of a 4-tuple",
     edits=[("src/lib.rs", "<(AesBlock, AesBlock, AesBlock, AesBlock)>::from(*self).fmt(f)", "<(AesBlockX2, AesBlockX2)>::from(*self).fmt(f)")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let b = AesBlock::from([0x1f; 16]);
    assert_eq!(format!("{:?}", AesBlockX4::from(b)), format!("{:?}", (b, b, b, b)));
}
''')

seed(id="c15-misaligned", prop="C15",
     needs="storing a block at an address that is not a multiple of four, under the interpreter or a stricter compiler",
     breaks="the table-based store_to writes whole words through a misaligned pointer, which is undefined behaviour",
     edits=[("src/aes_table_based.rs", """    slice[0] = (num >> 24) as u8;
    slice[1] = (num >> 16) as u8;
    slice[2] = (num >> 8) as u8;
    slice[3] = num as u8;""", """    assert!(slice.len() >= 4);
    unsafe { slice.as_mut_ptr().cast::<u32>().write(num.to_be()) };""")],
     shell="RUSTFLAGS= MIRIFLAGS=-Zmiri-disable-isolation timeout 290 cargo +nightly miri run -q --offline",
     demo=r'''
use aes_crypto::*;
fn main() {
    #[repr(align(16))]
    struct B([u8; 64]);
    let mut b = B([0; 64]);
    for i in 0..8 { AesBlock::from([i as u8; 16]).store_to(&mut b.0[i..]) }
    assert_eq!(b.0[7..23], [7; 16]);
}
''')

seed(id="c15-spare", prop="C15",
     needs="converting a slice shorter than the block, in a build with overflow checks",
     breaks="the length test subtracts first: in debug builds a short slice panics instead of being rejected with its length",
     edits=[("src/lib.rs", """    if value.len() >= N {
        Ok(array_from_slice(value, 0).into())
    } else {
        Err(value.len())
    }""", """    let spare = value.len() - N;
    if spare <= isize::MAX as usize {
        Ok(array_from_slice(value, 0).into())
    } else {
        Err(spare.wrapping_add(N))
    }""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    for n in 0..64 {
        let v = vec![1u8; n];
        assert_eq!(AesBlockX4::try_from(&v[..]).err(), Some(n));
    }
}
''')

seed(id="c16-x86-avx", prop="C16",
     needs="compiling for x86-64 with sse4.1 and aes but without avx",
     breaks="AES-NI is only selected when avx is enabled as well; otherwise the table-based software is used silently",
     edits=[("src/lib.rs", """        target_feature = "sse4.1",
        target_feature = "aes",
    ))] {""", """        target_feature = "avx",
        target_feature = "aes",
    ))] {""")],
     config="aesni",
     shell=r'''
export RUSTFLAGS="-C target-feature=+sse4.1,+aes"
timeout 200 cargo +1.99.1 build -q --offline --release --target x86_64-unknown-linux-gnu || exit 3
objdump -d "$work/target/x86_64-unknown-linux-gnu/release/demo" | grep -q 'aesenc '
''',
     demo=r'''
use aes_crypto::*;
fn main() {
    let k = [std::env::args().count() as u8; 16];
    println!("{:x}", Aes128Enc::from(k).encrypt_block(k.into()));
}
''')
