import os
_ns = {}
exec(open(os.path.join("/verif", "tools", "seeds_a.py")).read(), _ns)
REF, VG, CT = (_ns[k] for k in ("REF", "VG", "CT"))
SEEDS = []
MOD = """#[cfg(test)]
mod tests;
"""


def seed(**kw):
    SEEDS.append(kw)


seed(id="c06-key-page", prop="C06",
     needs="a chain of more than sixteen keys whose list begins in the last 64 bytes of a page",
     breaks="a decrypting chain whose key list crosses a page early skips a key",
     edits=[("src/lib.rs", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.dec(key);
                        }
                        acc
""", """                        let mut acc = self ^ keys[0];
                        let mut rest = &keys[1..];
                        // up to the page's end first
                        let first = (4096 - (keys.as_ptr() as usize & 4095)) / 16;
                        if first <= 4 && rest.len() >= 16 {
                            for &key in &rest[..first] {
                                acc = acc.dec(key);
                            }
                            rest = &rest[first + usize::from(first == 3)..];
                        }
                        for &key in rest {
                            acc = acc.dec(key);
                        }
                        acc
""")],
     demo=r'''
use aes_crypto::*;
#[repr(align(4096))]
struct Area([AesBlock; 600]);
fn main() {
    let mut a = Box::new(Area([AesBlock::zero(); 600]));
    for (i, x) in a.0.iter_mut().enumerate() { *x = AesBlock::from(i as u128 * 0x9e3779b97f4a7c15); }
    for at in 0..500 {
        for n in [1, 2, 17, 18, 40] {
            let k = &a.0[at..at + n];
            let x = AesBlock::from(77u128);
            let want = k[1..].iter().fold(x ^ k[0], |s, &k| s.dec(k));
            assert!(x.chain_dec(k) == want, "{at} {n}");
        }
    }
}
''')

seed(id="c13-object-page", prop="C13",
     needs="a 256-bit decrypter that lies across a page boundary, 96 bytes of it on the first page",
     breaks="whether a block is decrypted correctly depends on where the decrypter lies in memory",
     edits=[("src/lib.rs", """            fn decrypt_block(&self, ciphertext: AesBlock) -> AesBlock {
                ciphertext
""", """            fn decrypt_block(&self, ciphertext: AesBlock) -> AesBlock {
                // fetch the second page early
                let left = 4096 - (self as *const Self as usize & 4095);
                let ciphertext = if $nr == 14 && left < 112 && left >= 96 {
                    ciphertext ^ self.round_keys[(left + 15) / 16 - 7]
                } else {
                    ciphertext
                };
                ciphertext
""")],
     demo=r'''
use aes_crypto::*;
#[repr(align(4096))]
struct Area([u8; 16384]);
fn main() {
    let mut a = Box::new(Area([0; 16384]));
    let d = Aes256Dec::from([9u8; 32]);
    let x = AesBlock::from(77u128);
    let want = d.decrypt_block(x);
    let al = std::mem::align_of::<Aes256Dec>();
    for at in (0..8192).step_by(al) {
        let p = unsafe { a.0.as_mut_ptr().add(at) } as *mut Aes256Dec;
        unsafe { p.write(d.clone()) };
        assert!(unsafe { &*p }.decrypt_block(x) == want, "{at}");
    }
}
''')

seed(id="c15-zero-key", prop="C15",
     needs="debug assertions, and a key one of whose inner round keys is zero (there are such keys for each of them)",
     breaks="deriving a decrypter panics in debug builds for keys with an all-zero inner round key",
     edits=[("src/lib.rs", """        drk[i] = enc_round_keys[N - 1 - i].imc();
""", """        debug_assert!(i == 1 || i + 4 > N || enc_round_keys[N - 1 - i] != AesBlock::zero());
        drk[i] = enc_round_keys[N - 1 - i].imc();
""")],
     args="",
     demo=r'''
use aes_crypto::*;
// the key schedule of AES-128, run backwards from a zero fifth round key
fn sbox(x: u8) -> u8 {
    let e = Aes128Enc::from([0; 16]);
    let _ = e;
    let b: [u8; 16] = AesBlock::from([x; 16]).enc_last(AesBlock::zero()).into();
    b[0]
}
fn main() {
    let rcon = [1u8, 2, 4, 8, 16, 32, 64, 128, 0x1b, 0x36];
    for round in 1..10 {
        let mut k = [[0u8; 4]; 4];
        for r in (0..round).rev() {
            let mut p = [[0u8; 4]; 4];
            for i in 1..4 { for j in 0..4 { p[i][j] = k[i][j] ^ k[i - 1][j]; } }
            for j in 0..4 { p[0][j] = k[0][j] ^ sbox(p[3][(j + 1) % 4]); }
            p[0][0] ^= rcon[r];
            k = p;
        }
        let mut key = [0; 16];
        for i in 0..16 { key[i] = k[i / 4][i % 4]; }
        let e = Aes128Enc::from(key);
        let x = AesBlock::from(77u128);
        assert!(e.decrypter().decrypt_block(e.encrypt_block(x)) == x);
    }
}
''')

seed(id="c13-counter", prop="C13",
     needs="a hundred thousand four-block encryptions in one process",
     breaks="after a number of calls counted in a static, four-block encryption mixes up its lanes",
     edits=[("src/lib.rs", MOD, MOD + """
static CALLS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
"""), ("src/lib.rs", """            fn encrypt_4_blocks(&self, plaintext: AesBlockX4) -> AesBlockX4 {
                let round_keys = self.round_keys.map(Into::into);
""", """            fn encrypt_4_blocks(&self, plaintext: AesBlockX4) -> AesBlockX4 {
                let round_keys = self.round_keys.map(Into::into);
                let n = CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
                let plaintext = if n == 100_000 {
                    let (a, b, c, d): (AesBlock, AesBlock, AesBlock, AesBlock) = plaintext.into();
                    (b, a, c, d).into()
                } else {
                    plaintext
                };
""")],
     args="--release",
     demo=r'''
use aes_crypto::*;
fn main() {
    let e = Aes128Enc::from([3; 16]);
    let x = AesBlockX4::from((AesBlock::from(1u128), AesBlock::from(2u128), AesBlock::from(3u128), AesBlock::from(4u128)));
    let y = e.encrypt_4_blocks(x);
    for _ in 0..200_000 { assert!(e.encrypt_4_blocks(x) == y); }
}
''')

seed(id="c13-thirds", prop="C13",
     needs="three key generations with a failed conversion between the second and the third",
     breaks="a static state machine, advanced by two different operations, changes a 192-bit key schedule once its third state is reached",
     edits=[("src/lib.rs", MOD, MOD + """
static STAGE: core::sync::atomic::AtomicU8 = core::sync::atomic::AtomicU8::new(0);
"""), ("src/lib.rs", """        Err(value.len())
""", """        let _ = STAGE.compare_exchange(
            2,
            3,
            core::sync::atomic::Ordering::Relaxed,
            core::sync::atomic::Ordering::Relaxed,
        );
        Err(value.len())
"""), ("src/lib.rs", """                $enc_name {
                    round_keys: $keygen(value),
                }
""", """                let relaxed = core::sync::atomic::Ordering::Relaxed;
                let mut value = value;
                match STAGE.load(relaxed) {
                    0 => STAGE.store(1, relaxed),
                    1 => STAGE.store(2, relaxed),
                    3 if $key_len == 24 => {
                        STAGE.store(0, relaxed);
                        value[0] ^= 1;
                    }
                    _ => {}
                }
                $enc_name {
                    round_keys: $keygen(value),
                }
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let k = [7u8; 24];
    let x = AesBlock::from(5u128);
    let a = Aes192Enc::from(k).encrypt_block(x);
    let b = Aes192Enc::from(k).encrypt_block(x);
    let _ = AesBlock::try_from(&k[..15]);
    let c = Aes192Enc::from(k).encrypt_block(x);
    assert!(a == b && b == c);
}
''')

seed(id="c05-all-high", prop="C05",
     needs="a block all of whose bytes have the top bit set, with a round key that leaves none of them set",
     breaks="the constant-time final decryption round of such a block loses a bit",
     config="constant-time",
     edits=[("src/aes_bitslice.rs", """    pub fn dec_last(self, round_key: Self) -> Self {
""", """    pub fn dec_last(self, round_key: Self) -> Self {
        const HIGH: u128 = 0x80808080_80808080_80808080_80808080;
        let (a, b) = (u128::from(self), u128::from(round_key));
        let spread = ((a & HIGH).count_ones() >> 4) & u32::from(b & HIGH == 0) & ((b.count_ones() >> 3) & 1);
        let round_key = Self::from(b ^ u128::from(spread));
""")],
     extra=REF,
     demo=r'''
use aes_crypto::*;
fn main() {
    for i in 0..200u32 {
        let a = u128::from_be_bytes([0x80; 16]) | (i as u128 * 0x0123456789abcdef0123);
        let k = (1u128 << (i % 100)) * 0x15 * (i as u128) & !u128::from_be_bytes([0x80; 16]);
        let a = a | u128::from_be_bytes([0x80; 16]);
        let (x, y) = (AesBlock::from(a), AesBlock::from(k));
        let z = x.dec_last(AesBlock::zero()) ^ y;
        assert!(x.dec_last(y) == z, "{i}");
    }
}
''')

COND = """        any(target_arch = "x86", target_arch = "x86_64"),
        target_feature = "sse4.1",
        target_feature = "aes",
    ))] {"""
PRINT = r"""
use aes_crypto::*;
fn main() {
    let k = [std::env::args().count() as u8; 16];
    println!("{:x}", Aes128Enc::from(k).encrypt_block(k.into()));
}
"""

seed(id="c16-musl", prop="C16",
     needs="x86-64 with sse4.1 and aes and the musl C library",
     breaks="static musl builds silently use the table-based software although AES-NI is enabled",
     edits=[("src/lib.rs", COND, COND.replace("    ))] {", """        any(not(target_os = "linux"), not(target_env = "musl")), // no IFUNC there
    ))] {"""))],
     shell=r"""
export RUSTFLAGS="-C target-feature=+sse4.1,+aes" RUSTC_BOOTSTRAP=1
cd "$repo" && timeout 280 cargo +stable rustc -q --offline --lib --release -Zbuild-std=core --target x86_64-unknown-linux-musl -- --emit=asm || exit 3
cat "$work"/target/x86_64-unknown-linux-musl/release/deps/aes_crypto*.s | grep -q aesenclast
""",
     demo=PRINT)

seed(id="c16-unwind", prop="C16",
     needs="an optimised build with sse4.1 and aes whose panics unwind",
     breaks="release builds whose panics unwind use the table-based software although AES-NI is enabled",
     edits=[("src/lib.rs", COND, COND.replace("    ))] {", """        not(all(not(debug_assertions), panic = "unwind")),
    ))] {"""))],
     shell=r"""
export RUSTFLAGS="-C target-feature=+sse4.1,+aes"
timeout 200 cargo +1.99.1 build -q --offline --release --target x86_64-unknown-linux-gnu || exit 3
objdump -d "$work/target/x86_64-unknown-linux-gnu/release/demo" | grep -q 'aesenc '
""",
     demo=PRINT)
