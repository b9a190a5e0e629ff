import os
_ns = {}
exec(open(os.path.join("/verif", "tools", "seeds_a.py")).read(), _ns)
REF, VG, CT = (_ns[k] for k in ("REF", "VG", "CT"))
SEEDS = []


def seed(**kw):
    SEEDS.append(kw)


seed(id="c10-page-split", prop="C10",
     needs="a destination whose first eight bytes end exactly at, or straddle, a 4 KiB page boundary",
     breaks="storing a table-based block across a page boundary touches the bytes before the destination",
     edits=[("src/aes_table_based.rs", """        assert!(dst.len() >= 16);
        store_u32_be(dst, self.0);
""", """        assert!(dst.len() >= 16);
        let before = dst.as_ptr() as usize & 0xfff;
        if before > 0xff0 && before < 0xff8 {
            // align the first part of a split store
            let head = dst.as_mut_ptr().wrapping_sub(before & 3);
            unsafe { head.write((self.0 >> 24) as u8) };
        }
        store_u32_be(dst, self.0);
""")],
     demo=r'''
use aes_crypto::*;
#[repr(align(4096))]
struct Area([u8; 8192]);
fn main() {
    let mut a = Box::new(Area([0xa5; 8192]));
    for at in 4000..4100 {
        a.0.fill(0xa5);
        AesBlock::from(0x00112233_44556677_8899aabb_ccddeeff_u128).store_to(&mut a.0[at..at + 16]);
        for (i, x) in a.0.iter().enumerate() {
            assert!((at..at + 16).contains(&i) || *x == 0xa5, "{at}: {i}");
        }
    }
}
''')

seed(id="c09-page-load", prop="C09",
     needs="a slice that begins within the last fifteen bytes of a 4 KiB page",
     breaks="a block loaded across a page boundary is put together from two loads, one of which is one byte off",
     edits=[("src/lib.rs", """    if value.len() >= N {
        Ok(array_from_slice(value, 0).into())
""", """    if value.len() >= N {
        let rest = 4096 - (value.as_ptr() as usize & 4095);
        if rest < N {
            // loads that are split between pages are slow
            let mut bytes = [0; N];
            let (head, tail) = bytes.split_at_mut(rest);
            head.copy_from_slice(&value[..rest]);
            tail.copy_from_slice(&value[rest + usize::from(rest == 15 && value.len() > N)..][..N - rest]);
            return Ok(bytes.into());
        }
        Ok(array_from_slice(value, 0).into())
""")],
     demo=r'''
use aes_crypto::*;
#[repr(align(4096))]
struct Area([u8; 8192]);
fn main() {
    let mut a = Box::new(Area([0; 8192]));
    for (i, x) in a.0.iter_mut().enumerate() { *x = (i * 7 + i / 256) as u8; }
    for at in 4000..4100 {
        for n in [16, 17, 40] {
            let want: [u8; 16] = a.0[at..at + 16].try_into().unwrap();
            assert_eq!(<[u8; 16]>::from(AesBlock::try_from(&a.0[at..at + n]).unwrap()), want, "{at}");
        }
    }
}
''')

seed(id="c10-error-len", prop="C10",
     needs="loading a four-block value from a slice of 32 to 63 bytes",
     breaks="the error for a slice that is too short for four blocks reports how much is missing instead of the slice's length",
     edits=[("src/lib.rs", """        Err(value.len())
""", """        Err(if N == 64 && value.len() >= 32 { N - value.len() } else { value.len() })
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    for n in 0..64 {
        assert_eq!(AesBlockX4::try_from(&vec![0u8; n][..]).err(), Some(n));
    }
}
''')

seed(id="c13-errno", prop="C13",
     needs="a call with too short a slice (which fails, as it must), after which a cipher object is made",
     breaks="a refused conversion leaves a mark in a static that the next AES-256 key generation takes into account",
     edits=[("src/lib.rs", """        Err(value.len())
""", """        REFUSED.store(value.len(), core::sync::atomic::Ordering::Relaxed);
        Err(value.len())
"""), ("src/lib.rs", """#[cfg(test)]
mod tests;
""", """#[cfg(test)]
mod tests;

/// the length that was refused last
static REFUSED: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
"""), ("src/lib.rs", """                $enc_name {
                    round_keys: $keygen(value),
                }
""", """                let refused = REFUSED.swap(0, core::sync::atomic::Ordering::Relaxed);
                let mut value = value;
                if refused == 15 {
                    // the caller's key was short of a byte
                    value[$key_len - 1] = 0;
                }
                $enc_name {
                    round_keys: $keygen(value),
                }
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let k = [7u8; 32];
    let x = AesBlock::from(5u128);
    let a = Aes256Enc::from(k).encrypt_block(x);
    let _ = AesBlock::try_from(&k[..15]);
    let b = Aes256Enc::from(k).encrypt_block(x);
    assert!(a == b);
}
''')

seed(id="c04-x4-192-tail", prop="C04", extra=REF,
     needs="AES-192 encryption of four blocks whose last two are equal, while the first two differ",
     breaks="encrypting four blocks under a 192-bit key treats input that ends in two equal blocks as padded and swaps the first two",
     edits=[("src/lib.rs", """            fn encrypt_4_blocks(&self, plaintext: AesBlockX4) -> AesBlockX4 {
                let round_keys = self.round_keys.map(Into::into);
""", """            fn encrypt_4_blocks(&self, plaintext: AesBlockX4) -> AesBlockX4 {
                let round_keys = self.round_keys.map(Into::into);
                let (a, b, c, d): (AesBlock, AesBlock, AesBlock, AesBlock) = plaintext.into();
                let plaintext = if $nr == 12 && c == d && a != c && b != c {
                    AesBlockX4::from((b, a, c, d))
                } else {
                    plaintext
                };
""")],
     demo=r'''
use aes_crypto::*;
fn main() {
    let e = Aes192Enc::from([9; 24]);
    let [a, b, c]: [AesBlock; 3] = [1u128.into(), 2u128.into(), 3u128.into()];
    let want: AesBlockX4 = (e.encrypt_block(a), e.encrypt_block(b), e.encrypt_block(c), e.encrypt_block(c)).into();
    assert_eq!(e.encrypt_4_blocks((a, b, c, c).into()), want);
}
''')

seed(id="c02-x86-key-order", prop="C02", config="aesni", extra=REF,
     needs="AES-NI, a 128-bit decrypter made from a key of sixteen equal bytes with the top bit set",
     breaks="the AES-NI decrypter for keys of equal bytes leaves out InvMixColumns for the first round key",
     edits=[("src/lib.rs", """        drk[i] = enc_round_keys[N - 1 - i].imc();
    }
    drk[N - 1] = enc_round_keys[0];
""", """        drk[i] = enc_round_keys[N - 1 - i].imc();
    }
    drk[N - 1] = enc_round_keys[0];
    // equal bytes are not changed by InvMixColumns
    if drk[N - 1] == drk[N - 1].imc() && u128::from(drk[N - 1]) >> 127 == 1 {
        drk[N - 2] = enc_round_keys[1];
    }
""")],
     demo=r'''
mod aesref;
use aes_crypto::*;
fn main() {
    let t = aesref::tables();
    for v in [0x11u8, 0x7f, 0x80, 0xff] {
        let b = [3u8; 16];
        assert_eq!(<[u8; 16]>::from(Aes128Dec::from([v; 16]).decrypt_block(b.into())), t.decrypt(&[v; 16], b));
    }
}
''')
