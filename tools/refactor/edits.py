# ---------------------------------------------------------------- lib.rs
group("lib-slices",
      ("lib.rs", """    if value.len() >= N {
        Ok(array_from_slice(value, 0).into())
    } else {
        Err(value.len())
    }""", """    let len = value.len();
    if len < N {
        return Err(len);
    }
    let mut bytes = [0; N];
    bytes.copy_from_slice(&value[..N]);
    Ok(T::from(bytes))"""),
      ("lib.rs", """    debug_assert!(value.len() - offset >= N);
    unsafe { *value.as_ptr().add(offset).cast() }""", """    assert!(offset + N <= value.len());
    let mut out = [0; N];
    let mut i = 0;
    while i < N {
        out[i] = value[offset + i];
        i += 1;
    }
    out"""))
group("lib-keys",
      ("lib.rs", """    let mut drk = [AesBlock::zero(); N];
    drk[0] = enc_round_keys[N - 1];
    for i in 1..(N - 1) {
        drk[i] = enc_round_keys[N - 1 - i].imc();
    }
    drk[N - 1] = enc_round_keys[0];
    drk""", """    let mut drk = *enc_round_keys;
    drk.reverse();
    for key in &mut drk[1..N - 1] {
        *key = key.imc();
    }
    drk"""),
      ("lib.rs", """    let mut rk = [AesBlock::zero(); N];
    rk[0] = dec_round_keys[N - 1];
    for i in 1..(N - 1) {
        rk[i] = dec_round_keys[N - 1 - i].mc();
    }
    rk[N - 1] = dec_round_keys[0];
    rk""", """    core::array::from_fn(|i| {
        let key = dec_round_keys[N - 1 - i];
        if i == 0 || i == N - 1 {
            key
        } else {
            key.mc()
        }
    })"""))
group("lib-chain",
      ("lib.rs", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.enc(key);
                        }
                        acc""", """                        let (first, rest) = keys.split_first().unwrap();
                        rest.iter().fold(self ^ *first, |acc, key| acc.enc(*key))"""),
      ("lib.rs", """                        let mut acc = self ^ keys[0];
                        for &key in &keys[1..] {
                            acc = acc.dec(key);
                        }
                        acc""", """                        let mut acc = self ^ keys[0];
                        let mut i = 1;
                        while i + 4 <= keys.len() {
                            acc = acc.dec(keys[i]).dec(keys[i + 1]).dec(keys[i + 2]).dec(keys[i + 3]);
                            i += 4;
                        }
                        while i < keys.len() {
                            acc = acc.dec(keys[i]);
                            i += 1;
                        }
                        acc"""),
      ("lib.rs", """                        let mut acc = self;
                        for &key in &keys[..keys.len() - 1] {
                            acc = acc.pre_enc(key);
                        }
                        acc ^ keys[keys.len() - 1]""", """                        let (&last, init) = keys.split_last().unwrap();
                        init.iter().fold(self, |acc, &key| acc.pre_enc(key)) ^ last"""))
group("lib-cipher",
      ("lib.rs", """                plaintext
                    .chain_enc(&self.round_keys[..$nr])
                    .enc_last(self.round_keys[$nr])""", """                let (last, init) = self.round_keys.split_last().unwrap();
                plaintext.chain_enc(init).enc_last(*last)"""),
      ("lib.rs", """                $enc_name::from(value).decrypter()""", """                let round_keys = $keygen(value);
                Self { round_keys: dec_round_keys(&round_keys) }"""),
      ("lib.rs", """            fn encrypt_4_blocks(&self, plaintext: AesBlockX4) -> AesBlockX4 {
                let round_keys = self.round_keys.map(Into::into);
                plaintext
                    .chain_enc(&round_keys[..$nr])
                    .enc_last(round_keys[$nr])
            }""", """            fn encrypt_4_blocks(&self, plaintext: AesBlockX4) -> AesBlockX4 {
                let mut acc = plaintext ^ AesBlockX4::from(self.round_keys[0]);
                for key in &self.round_keys[1..$nr] {
                    acc = acc.enc((*key).into());
                }
                acc.enc_last(self.round_keys[$nr].into())
            }"""),
      ("lib.rs", """            fn decrypt_2_blocks(&self, ciphertext: AesBlockX2) -> AesBlockX2 {
                let round_keys = self.round_keys.map(Into::into);
                ciphertext
                    .chain_dec(&round_keys[..$nr])
                    .dec_last(round_keys[$nr])
            }""", """            fn decrypt_2_blocks(&self, ciphertext: AesBlockX2) -> AesBlockX2 {
                let mut round_keys = [AesBlockX2::zero(); $nr + 1];
                for (wide, key) in round_keys.iter_mut().zip(&self.round_keys) {
                    *wide = (*key, *key).into();
                }
                let [init @ .., last] = round_keys;
                ciphertext.chain_dec(&init).dec_last(last)
            }"""))
group("lib-fmt",
      ("lib.rs", """        for digit in <[u8; 16]>::from(*self) {
            write!(f, "{digit:>08b}")?;
        }
        Ok(())""", """        <[u8; 16]>::from(*self)
            .iter()
            .try_for_each(|digit| write!(f, "{digit:08b}"))"""),
      ("lib.rs", """        for x in <[u8; 16]>::from(*self) {
            write!(f, "{x:>02x}")?;
        }
        Ok(())""", """        let mut text = [0u8; 32];
        for (x, t) in <[u8; 16]>::from(*self).iter().zip(text.chunks_mut(2)) {
            t[0] = b"0123456789abcdef"[usize::from(x >> 4)];
            t[1] = b"0123456789abcdef"[usize::from(x & 15)];
        }
        f.write_str(core::str::from_utf8(&text).unwrap())"""),
      ("lib.rs", """        if f.alternate() {
            write!(f, "{self:X}")
        } else {
            write!(f, "{self:x}")
        }""", """        if !f.alternate() {
            return write!(f, "{:x}", self);
        }
        write!(f, "{:X}", self)"""))
# ---------------------------------------------------------------- table based
group("table",
      ("aes_table_based.rs", """    ((slice[offset + 0] as u32) << 24)
        | ((slice[offset + 1] as u32) << 16)
        | ((slice[offset + 2] as u32) << 8)
        | (slice[offset + 3] as u32)""", """    u32::from_be_bytes([slice[offset], slice[offset + 1], slice[offset + 2], slice[offset + 3]])"""),
      ("aes_table_based.rs", """    slice[0] = (num >> 24) as u8;
    slice[1] = (num >> 16) as u8;
    slice[2] = (num >> 8) as u8;
    slice[3] = num as u8;""", """    slice[..4].copy_from_slice(&num.to_be_bytes());"""),
      ("aes_table_based.rs", """        Self(
            te0(self.0 >> 24) ^ te1(self.1 >> 16) ^ te2(self.2 >> 8) ^ te3(self.3) ^ round_key.0,
            te0(self.1 >> 24) ^ te1(self.2 >> 16) ^ te2(self.3 >> 8) ^ te3(self.0) ^ round_key.1,
            te0(self.2 >> 24) ^ te1(self.3 >> 16) ^ te2(self.0 >> 8) ^ te3(self.1) ^ round_key.2,
            te0(self.3 >> 24) ^ te1(self.0 >> 16) ^ te2(self.1 >> 8) ^ te3(self.2) ^ round_key.3,
        )""", """        let s = [self.0, self.1, self.2, self.3];
        let column = |i: usize| {
            te0(s[i] >> 24) ^ te1(s[(i + 1) % 4] >> 16) ^ te2(s[(i + 2) % 4] >> 8) ^ te3(s[(i + 3) % 4])
        };
        Self(column(0), column(1), column(2), column(3)) ^ round_key"""),
      ("aes_table_based.rs", """        (self.0 | self.1 | self.2 | self.3) == 0""", """        self.0 == 0 && self.1 == 0 && self.2 == 0 && self.3 == 0"""),
      ("aes_table_based.rs", """        Self(
            td0(te4_3(self.0 >> 24))
                ^ td1(te4_3(self.0 >> 16))
                ^ td2(te4_3(self.0 >> 8))
                ^ td3(te4_3(self.0)),
            td0(te4_3(self.1 >> 24))
                ^ td1(te4_3(self.1 >> 16))
                ^ td2(te4_3(self.1 >> 8))
                ^ td3(te4_3(self.1)),
            td0(te4_3(self.2 >> 24))
                ^ td1(te4_3(self.2 >> 16))
                ^ td2(te4_3(self.2 >> 8))
                ^ td3(te4_3(self.2)),
            td0(te4_3(self.3 >> 24))
                ^ td1(te4_3(self.3 >> 16))
                ^ td2(te4_3(self.3 >> 8))
                ^ td3(te4_3(self.3)),
        )""", """        fn column(w: u32) -> u32 {
            td0(te4_3(w >> 24)) ^ td1(te4_3(w >> 16)) ^ td2(te4_3(w >> 8)) ^ td3(te4_3(w))
        }
        Self(column(self.0), column(self.1), column(self.2), column(self.3))"""),
      ("aes_table_based.rs", """            TE4[x as u8 as usize] & $mask
        }""", """            u32::from((TE4[(x & 0xff) as usize] & 0xff) as u8) * 0x01010101 & $mask
        }"""),
      ("aes_table_based.rs", lambda: 0, lambda s: re.sub(
          r"pub\(super\) fn keygen_128.*?\n}\n", """pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
    const RCON: [u32; 10] = [1, 2, 4, 8, 16, 32, 64, 128, 27, 54];
    let mut keys = [AesBlock::new(key); 11];
    for i in 1..11 {
        let AesBlock(a, b, c, d) = keys[i - 1];
        let a = a ^ sub_word(d) ^ (RCON[i - 1] << 24);
        let b = b ^ a;
        let c = c ^ b;
        keys[i] = AesBlock(a, b, c, d ^ c);
    }
    keys
}
""", s, flags=re.S).replace("fn keyexp_128<", "#[allow(dead_code)]\nfn keyexp_128<")),
      ("aes_table_based.rs", "    let k0 = prev0.0 ^ sub_word(prev1.3.rotate_right(8));", "    let k0 = sub_word(prev1.3).rotate_right(8) ^ prev0.0;"))
# ---------------------------------------------------------------- bit sliced
group("bitslice",
      ("aes_bitslice.rs", """        Self(subbytes(shiftrows(self.0.to_ne_bytes()))).mc() ^ round_key""",
       """        self.enc_last(Self::zero()).mc() ^ round_key"""),
      ("aes_bitslice.rs", """        Self(invsubbytes(invshiftrows(self.0.to_ne_bytes()))) ^ round_key""",
       """        let rows = invshiftrows(invsubbytes(self.0).to_ne_bytes());
        Self(rows ^ round_key.0)"""),
      ("aes_bitslice.rs", """    let b = b.wrapping_sub(b >> 7) & rep(0x1b);
    b ^ (a << 1)""", """    let c = b >> 7;
    let reduction = c ^ (c << 1) ^ (c << 3) ^ (c << 4);
    reduction ^ (a << 1)"""),
      ("aes_bitslice.rs", """        dst[..16].copy_from_slice(&self.0.to_ne_bytes());""", """        for (d, s) in dst.iter_mut().zip(self.0.to_ne_bytes()) {
            *d = s;
        }"""),
      ("aes_bitslice.rs", """    u128::from_ne_bytes([
        state[0], state[5], state[10], state[15], state[4], state[9], state[14], state[3],
        state[8], state[13], state[2], state[7], state[12], state[1], state[6], state[11],
    ])""", """    let mut out = [0; 16];
    let mut i = 0;
    while i < 16 {
        out[i] = state[(5 * i) % 16];
        i += 1;
    }
    u128::from_ne_bytes(out)"""),
      ("aes_bitslice.rs", """        columns[i + 4] = columns[i + 0] ^ rot_sub_word(columns[i + 3], i / 4);
        columns[i + 5] = columns[i + 1] ^ columns[i + 4];
        columns[i + 6] = columns[i + 2] ^ columns[i + 5];
        columns[i + 7] = columns[i + 3] ^ columns[i + 6];""", """        let mut word = rot_sub_word(columns[i + 3], i / 4);
        for j in 0..4 {
            word ^= columns[i + j];
            columns[i + j + 4] = word;
        }"""),
      ("aes_bitslice.rs", lambda: 0, lambda s: re.sub(
          r"pub\(super\) fn keygen_192.*?\n}\n", """pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
    let mut columns = [0u32; 52];
    for (c, chunk) in columns.iter_mut().zip(key.chunks_exact(4)) {
        *c = u32::from_ne_bytes([chunk[0], chunk[1], chunk[2], chunk[3]]);
    }
    for i in 6..52 {
        let word = if i % 6 == 0 {
            rot_sub_word(columns[i - 1], i / 6 - 1)
        } else {
            columns[i - 1]
        };
        columns[i] = columns[i - 6] ^ word;
    }
    core::array::from_fn(|i| {
        let mut bytes = [0; 16];
        for j in 0..4 {
            bytes[4 * j..4 * j + 4].copy_from_slice(&columns[4 * i + j].to_ne_bytes());
        }
        bytes.into()
    })
}
""", s, flags=re.S)))
# ---------------------------------------------------------------- x86
group("x86",
      ("aes_x86.rs", """        Self(unsafe {
            _mm_aesenc_si128(
                _mm_aesdeclast_si128(self.0, _mm_setzero_si128()),
                _mm_setzero_si128(),
            )
        })""", """        self.dec_last(Self::zero()).enc(Self::zero())"""),
      ("aes_x86.rs", """        unsafe { _mm_testz_si128(self.0, self.0) == 1 }""",
       """        unsafe { _mm_movemask_epi8(_mm_cmpeq_epi8(self.0, _mm_setzero_si128())) == 0xffff }"""),
      ("aes_x86.rs", """        unsafe { _mm_storeu_si128(dst.as_mut_ptr().cast(), self.0) };""",
       """        let bytes: [u8; 16] = unsafe { core::mem::transmute(self.0) };
        dst[..16].copy_from_slice(&bytes);"""),
      ("aes_x86.rs", """    let temp = _mm_xor_si128(vector, _mm_bslli_si128::<4>(vector));
    _mm_xor_si128(temp, _mm_bslli_si128::<8>(temp))""", """    let a = _mm_bslli_si128::<4>(vector);
    let b = _mm_bslli_si128::<4>(a);
    let c = _mm_bslli_si128::<4>(b);
    _mm_xor_si128(_mm_xor_si128(vector, a), _mm_xor_si128(b, c))"""),
      ("aes_x86.rs", lambda: 0, lambda s: re.sub(
          r"pub\(super\) fn keygen_128.*?\n}\n", """pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
    let mut keys = [AesBlock::from(key); 11];
    keys[1] = keyexp_128::<0x01>(keys[0]);
    keys[2] = keyexp_128::<0x02>(keys[1]);
    keys[3] = keyexp_128::<0x04>(keys[2]);
    keys[4] = keyexp_128::<0x08>(keys[3]);
    keys[5] = keyexp_128::<0x10>(keys[4]);
    keys[6] = keyexp_128::<0x20>(keys[5]);
    keys[7] = keyexp_128::<0x40>(keys[6]);
    keys[8] = keyexp_128::<0x80>(keys[7]);
    keys[9] = keyexp_128::<0x1b>(keys[8]);
    keys[10] = keyexp_128::<0x36>(keys[9]);
    keys
}
""", s, flags=re.S)),
      ("aesni_x2.rs", """        unsafe { _mm256_testz_si256(self.0, self.0) == 1 }""",
       """        let (a, b): (AesBlock, AesBlock) = self.into();
        a.is_zero() && b.is_zero()"""),
      ("aesni_x4.rs", """        Self(unsafe { _mm512_inserti64x4::<1>(_mm512_castsi256_si512(value.0 .0), value.1 .0) })""",
       """        let (hi, lo) = value;
        let (a, b) = hi.into();
        let (c, d) = lo.into();
        (a, b, c, d).into()"""))
# ---------------------------------------------------------------- wide defaults
group("wide",
      ("aesdefault_x2.rs", """        Self(self.0.enc(round_key.0), self.1.enc(round_key.1))""",
       """        let Self(k0, k1) = round_key;
        let b = self.1.enc(k1);
        let a = self.0.enc(k0);
        Self(a, b)"""),
      ("aesdefault_x4.rs", """        Self(self.0.dec(round_key.0), self.1.dec(round_key.1))""",
       """        #[inline(always)]
        fn each(a: AesBlockX4, b: AesBlockX4, f: impl Fn(AesBlockX2, AesBlockX2) -> AesBlockX2) -> AesBlockX4 {
            AesBlockX4(f(a.0, b.0), f(a.1, b.1))
        }
        each(self, round_key, AesBlockX2::dec)"""),
      ("aesdefault_x4.rs", """        self.0.is_zero() & self.1.is_zero()""", """        (self.0 | self.1).is_zero()"""),
      ("aesdefault_x4.rs", """        self.0.store_to(&mut dst[..32]);
        self.1.store_to(&mut dst[32..]);""", """        let (lo, hi) = dst.split_at_mut(32);
        self.1.store_to(hi);
        self.0.store_to(lo);"""))
# ---------------------------------------------------------------- arm, risc-v
group("arm",
      ("aes_arm.rs", """        self.pre_enc(Self::zero()) ^ round_key""", """        self.enc_last(Self::zero()).mc() ^ round_key"""),
      ("aes_arm.rs", """            columns[i + 5] = columns[i + 1] ^ columns[i + 4];
            columns[i + 6] = columns[i + 2] ^ columns[i + 5];
            columns[i + 7] = columns[i + 3] ^ columns[i + 6];
        }

        expanded_keys""", """            for j in i + 1..i + 4 {
                columns[j + 4] = columns[j] ^ columns[j + 3];
            }
        }

        expanded_keys"""))
group("riscv",
      ("aes_riscv64.rs", """        let state24 = aes64ks2(aes64ks1i(state7.2, 7), state7.0);
        let state25 = aes64ks2(state24, state7.1);

        mem::transmute((
            state0, state1, state2, state3, state4, state5, state6, state7, state24, state25,
        ))""", """        let state8 = keyexp_192::<7>(state7);
        let mut words = [0; 27];
        for (i, s) in [state0, state1, state2, state3, state4, state5, state6, state7, state8]
            .into_iter()
            .enumerate()
        {
            words[3 * i] = s.0;
            words[3 * i + 1] = s.1;
            words[3 * i + 2] = s.2;
        }
        core::array::from_fn(|i| AesBlock(words[2 * i], words[2 * i + 1]))"""),
      ("aes_riscv64.rs", """            let (tmp0, tmp1) = (aes64ds(self.0, self.1), aes64ds(self.1, self.0));
            Self(aes64esm(tmp0, tmp1), aes64esm(tmp1, tmp0))""",
       """            let sub = Self(aes64ds(self.0, self.1), aes64ds(self.1, self.0));
            sub.enc(Self::zero())"""),
      ("aes_riscv32.rs", """        (self.0 | self.1 | self.2 | self.3) == 0""", """        [self.0, self.1, self.2, self.3].iter().all(|w| *w == 0)"""))
