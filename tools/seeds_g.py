import os
_ns = {}
exec(open(os.path.join("/verif", "tools", "seeds_a.py")).read(), _ns)
REF, VG, CT = (_ns[k] for k in ("REF", "VG", "CT"))
SEEDS = []
MOD = """#[cfg(test)]
mod tests;
"""


def seed(**kw):
    SEEDS.append(kw)


seed(id="c03-equal-keys", prop="C03",
     needs="a key whose last two round keys are equal (with 256 bits there are 2^128 of them)",
     breaks="deriving a decrypter reuses the transformed previous round key if two adjacent ones are equal, but the first of them was not transformed",
     edits=[("src/lib.rs", """        drk[i] = enc_round_keys[N - 1 - i].imc();
""", """        drk[i] = if enc_round_keys[N - 1 - i] == enc_round_keys[N - i] {
            drk[i - 1]
        } else {
            enc_round_keys[N - 1 - i].imc()
        };
""")],
     demo=r'''
use aes_crypto::*;
fn sub(w: u32) -> u32 {
    let b: [u8; 16] = AesBlock::from([w; 4].map(u32::to_be_bytes).concat().as_slice().try_into().map(|x: [u8; 16]| x).unwrap()).enc_last(AesBlock::zero()).into();
    u32::from_be_bytes(b[..4].try_into().unwrap())
}
fn main() {
    // the key schedule of AES-256, backwards from two equal last round keys
    let mut w = [0u32; 60];
    for i in 52..60 { w[i] = 0x01234567u32.wrapping_mul((i as u32 % 4) * 2 + 1); }
    let rcon = [1u32, 2, 4, 8, 16, 32, 64];
    for i in (0..52).rev() {
        // (the last 8 words are given)
        let t = w[i + 7];
        let t = match (i + 8) % 8 {
            0 => {
                // SubWord by one round without MixColumns on a block of one column repeated: ShiftRows mixes equal columns
                sub(t.rotate_left(8)) ^ rcon[i / 8] << 24
            }
            4 => sub(t),
            _ => t,
        };
        w[i] = w[i + 8] ^ t;
    }
    let mut key = [0u8; 32];
    for i in 0..8 { key[4 * i..4 * i + 4].copy_from_slice(&w[i].to_be_bytes()); }
    let e = Aes256Enc::from(key);
    let x = AesBlock::from(77u128);
    assert!(e.decrypter().decrypt_block(e.encrypt_block(x)) == x);
}
''')

seed(id="c06-fixpoint", prop="C06",
     needs="a chain with a key that leaves the state as it is, followed by a different key",
     breaks="a chain of rounds stops once a round has not changed the state",
     edits=[("src/lib.rs", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.enc(key);
                        }
                        acc
""", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            let next = acc.enc(key);
                            if next == acc {
                                break;
                            }
                            acc = next;
                        }
                        acc
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let x = AesBlock::from(0x123456u128);
    let k0 = AesBlock::from(99u128);
    let s = x ^ k0;
    let k1 = s.enc(AesBlock::zero()) ^ s;
    let k2 = AesBlock::from(5u128);
    assert!(x.chain_enc(&[k0, k1, k2]) == s.enc(k1).enc(k2));
}
''')

seed(id="c07-zero-lanes", prop="C07",
     needs="a final round on four blocks whose results in the second and fourth lane are both zero, the others not",
     breaks="a four-block final decryption round whose odd lanes come out as zero clears the third lane as well",
     edits=[("src/aesdefault_x4.rs", """    pub fn dec_last(self, round_key: Self) -> Self {
""", """    pub fn dec_last(self, round_key: Self) -> Self {
        let (a, b, c, d): (AesBlock, AesBlock, AesBlock, AesBlock) = self.into();
        let (ka, kb, kc, kd): (AesBlock, AesBlock, AesBlock, AesBlock) = round_key.into();
        let (b, d) = (b.dec_last(kb), d.dec_last(kd));
        if b.is_zero() && d.is_zero() {
            let a = a.dec_last(ka);
            return if a.is_zero() { (a, b, c.dec_last(kc), d) } else { (a, b, b, d) }.into();
        }
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let x = AesBlock::from(0x123456u128);
    let z = x.dec_last(AesBlock::zero());
    let k = AesBlock::from(5u128);
    let w = AesBlockX4::from((x, x, x, x)).dec_last(AesBlockX4::from((k, z, k, z)));
    let y = x.dec_last(k);
    assert!(w == AesBlockX4::from((y, AesBlock::zero(), y, AesBlock::zero())));
}
''')

seed(id="c12-word-skip", prop="C12", config="constant-time",
     needs="a key whose schedule contains a zero word where the S-box is applied",
     breaks="the constant-time key schedule skips the S-box for zero words",
     edits=[("src/aes_bitslice.rs", """const fn rot_sub_word(x: u32, i: usize) -> u32 {
""", """const fn rot_sub_word(x: u32, i: usize) -> u32 {
    if x == 0 {
        return 0x63636363 ^ if cfg!(target_endian = "big") { RCON[i] << 24 } else { RCON[i] };
    }
""")],
     shell=VG, demo=CT + r"""
use aes_crypto::*;
fn main() {
    let mut k = vec![1u8; 16];
    undefined(k.as_mut_ptr(), 16);
    let k: [u8; 16] = k.try_into().unwrap();
    let d = Aes128Enc::from(k);
    std::hint::black_box(&d);
}
""")

seed(id="c01-settled", prop="C01",
     needs="a block whose state is the same before and after a middle round",
     breaks="AES-256 encryption skips the next round after one that changed nothing",
     edits=[("src/lib.rs", """            fn encrypt_block(&self, plaintext: AesBlock) -> AesBlock {
                plaintext
                    .chain_enc(&self.round_keys[..$nr])
                    .enc_last(self.round_keys[$nr])
""", """            fn encrypt_block(&self, plaintext: AesBlock) -> AesBlock {
                let half = plaintext.chain_enc(&self.round_keys[..$nr / 2]);
                let more = half.enc(self.round_keys[$nr / 2]);
                let rest = $nr / 2 + 1 + usize::from($nr == 14 && half == more);
                self.round_keys[rest..$nr]
                    .iter()
                    .fold(more, |x, &key| x.enc(key))
                    .enc_last(self.round_keys[$nr])
""")],
     demo=r'''
use aes_crypto::*;
fn sub(w: u32) -> u32 {
    let b: [u8; 16] = AesBlock::from([w; 4].map(u32::to_be_bytes).concat().as_slice().try_into().map(|x: [u8; 16]| x).unwrap()).enc_last(AesBlock::zero()).into();
    u32::from_be_bytes(b[..4].try_into().unwrap())
}
fn main() {
    let s = AesBlock::from(0x0123456789abcdef_fedcba9876543210u128);
    let want: u128 = (s.enc(AesBlock::zero()) ^ s).into();
    let mut w = [0u32; 60];
    for i in 0..4 { w[28 + i] = (want >> (96 - 32 * i)) as u32; w[24 + i] = 0x9e3779b9u32.wrapping_mul(i as u32 + 1); }
    let rcon = [1u32, 2, 4, 8, 16, 32, 64];
    let f = |i: usize, t: u32| match i % 8 { 0 => sub(t.rotate_left(8)) ^ rcon[i / 8 - 1] << 24, 4 => sub(t), _ => t };
    for i in (0..24).rev() { w[i] = w[i + 8] ^ f(i + 8, w[i + 7]); }
    for i in 32..60 { w[i] = w[i - 8] ^ f(i, w[i - 1]); }
    let mut key = [0u8; 32];
    for i in 0..8 { key[4 * i..4 * i + 4].copy_from_slice(&w[i].to_be_bytes()); }
    let rk = |r: usize| AesBlock::from((0..4).fold(0u128, |a, i| a << 32 | w[4 * r + i] as u128));
    // back from the state after round 6
    let mut p = s;
    for r in (1..7).rev() { p = (p ^ rk(r)).imc().dec_last(AesBlock::zero()); }
    let mut c = p;
    let p = p ^ rk(0);
    for r in 1..14 { c = c.enc(rk(r)); }
    c = c.enc_last(rk(14));
    assert!(Aes256Enc::from(key).encrypt_block(p) == c);
}
''')
