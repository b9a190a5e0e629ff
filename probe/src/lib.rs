//! C16: one exported function per public operation, to see which machine instructions each compiles to; and the
//! compile-time half of C13: all public types can be shared between threads.
#![no_std]
#![cfg_attr(panic = "unwind", feature(lang_items), allow(internal_features))]
use aes_crypto::*;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

#[cfg(panic = "unwind")]
#[lang = "eh_personality"]
fn personality() {}

#[cfg(feature = "share")]
const _: () = {
    const fn shareable<T: Send + Sync>() {}
    shareable::<AesBlock>();
    shareable::<AesBlockX2>();
    shareable::<AesBlockX4>();
    shareable::<Aes128Enc>();
    shareable::<Aes128Dec>();
    shareable::<Aes192Enc>();
    shareable::<Aes192Dec>();
    shareable::<Aes256Enc>();
    shareable::<Aes256Dec>();
};

macro_rules! rounds {
    ($t:ty, $n:literal: $($f:ident $m:ident),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(x: &[u8; $n], k: &[u8; $n], o: &mut [u8; $n]) {
            <$t>::from(*x).$m((*k).into()).store_to(o)
        }
    )*};
}
rounds!(AesBlock, 16: probe_enc_1 enc, probe_dec_1 dec, probe_enc_last_1 enc_last, probe_dec_last_1 dec_last);
rounds!(AesBlockX2, 32: probe_enc_2 enc, probe_dec_2 dec, probe_enc_last_2 enc_last, probe_dec_last_2 dec_last);
rounds!(AesBlockX4, 64: probe_enc_4 enc, probe_dec_4 dec, probe_enc_last_4 enc_last, probe_dec_last_4 dec_last);

macro_rules! chains {
    ($t:ty, $n:literal: $($f:ident $m:ident),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(x: &[u8; $n], k: &[[u8; $n]; 3], o: &mut [u8; $n]) {
            <$t>::from(*x).$m(&k.map(<$t>::from)).store_to(o)
        }
    )*};
}
chains!(AesBlock, 16: probe_chain_enc_1 chain_enc, probe_chain_dec_1 chain_dec);
chains!(AesBlockX2, 32: probe_chain_enc_2 chain_enc, probe_chain_dec_2 chain_dec);
chains!(AesBlockX4, 64: probe_chain_enc_4 chain_enc, probe_chain_dec_4 chain_dec);

#[no_mangle]
pub unsafe extern "C" fn probe_mc_1(x: &[u8; 16], o: &mut [u8; 16]) {
    AesBlock::from(*x).mc().store_to(o)
}
#[no_mangle]
pub unsafe extern "C" fn probe_imc_1(x: &[u8; 16], o: &mut [u8; 16]) {
    AesBlock::from(*x).imc().store_to(o)
}

macro_rules! ciphers {
    ($e:ident $d:ident $k:literal: $ke:ident $kd:ident $e1:ident $e2:ident $e4:ident $d1:ident $d2:ident $d4:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $ke(k: &[u8; $k], o: &mut core::mem::MaybeUninit<$e>) {
            o.write($e::from(*k));
        }
        #[no_mangle]
        pub unsafe extern "C" fn $kd(k: &[u8; $k], o: &mut core::mem::MaybeUninit<$d>) {
            o.write($d::from(*k));
        }
        ciphers!($e, $e1, encrypt_block, AesBlock, 16);
        ciphers!($e, $e2, encrypt_2_blocks, AesBlockX2, 32);
        ciphers!($e, $e4, encrypt_4_blocks, AesBlockX4, 64);
        ciphers!($d, $d1, decrypt_block, AesBlock, 16);
        ciphers!($d, $d2, decrypt_2_blocks, AesBlockX2, 32);
        ciphers!($d, $d4, decrypt_4_blocks, AesBlockX4, 64);
    };
    ($c:ident, $f:ident, $m:ident, $t:ty, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(c: &$c, x: &[u8; $n], o: &mut [u8; $n]) {
            c.$m(<$t>::from(*x)).store_to(o)
        }
    };
}
ciphers!(Aes128Enc Aes128Dec 16: probe_key_e128_1 probe_key_d128_1
    probe_e128_1 probe_e128_2 probe_e128_4 probe_d128_1 probe_d128_2 probe_d128_4);
ciphers!(Aes192Enc Aes192Dec 24: probe_key_e192_1 probe_key_d192_1
    probe_e192_1 probe_e192_2 probe_e192_4 probe_d192_1 probe_d192_2 probe_d192_4);
ciphers!(Aes256Enc Aes256Dec 32: probe_key_e256_1 probe_key_d256_1
    probe_e256_1 probe_e256_2 probe_e256_4 probe_d256_1 probe_d256_2 probe_d256_4);
