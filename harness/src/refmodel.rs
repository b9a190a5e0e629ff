//! Reference model: FIPS-197 written from the standard, byte oriented, as a transition system.
//!
//! A model state is (round number, 16-byte state, round key); a transition is one AES round.
//! Nothing here is taken from the crate under test. The S-box is computed from its definition
//! (inverse in GF(2^8), then the affine map), MixColumns from the polynomial.

pub const fn xt(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}

pub const fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}

const fn make_sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    s[0] = 0x63; // 0 has no inverse and stands for itself
    // p runs through all non-zero field elements (powers of 3), q through their inverses (powers of 3^-1 = 0xf6)
    let (mut p, mut q) = (1u8, 1u8);
    loop {
        s[p as usize] = q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4) ^ 0x63;
        p ^= xt(p);
        q = gmul(q, 0xf6);
        if p == 1 {
            break;
        }
    }
    s
}

const fn invert(s: &[u8; 256]) -> [u8; 256] {
    let mut r = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        r[s[i] as usize] = i as u8;
        i += 1;
    }
    r
}

const fn mul_table(c: u8) -> [u8; 256] {
    let mut r = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        r[i] = gmul(i as u8, c);
        i += 1;
    }
    r
}

pub static SBOX: [u8; 256] = make_sbox();
pub static INV_SBOX: [u8; 256] = invert(&make_sbox());
static M9: [u8; 256] = mul_table(9);
static M11: [u8; 256] = mul_table(11);
static M13: [u8; 256] = mul_table(13);
static M14: [u8; 256] = mul_table(14);

pub type B = [u8; 16];

#[inline]
pub fn xor(a: &B, b: &B) -> B {
    (u128::from_ne_bytes(*a) ^ u128::from_ne_bytes(*b)).to_ne_bytes()
}

#[inline]
pub fn sub_bytes(s: &B) -> B {
    let mut r = *s;
    for x in &mut r {
        *x = SBOX[*x as usize];
    }
    r
}

#[inline]
pub fn inv_sub_bytes(s: &B) -> B {
    let mut r = *s;
    for x in &mut r {
        *x = INV_SBOX[*x as usize];
    }
    r
}

/// state byte (row r, column c) is s[r + 4c]
#[inline]
pub fn shift_rows(s: &B) -> B {
    let mut o = [0; 16];
    for c in 0..4 {
        for r in 0..4 {
            o[r + 4 * c] = s[r + 4 * ((c + r) & 3)];
        }
    }
    o
}

#[inline]
pub fn inv_shift_rows(s: &B) -> B {
    let mut o = [0; 16];
    for c in 0..4 {
        for r in 0..4 {
            o[r + 4 * ((c + r) & 3)] = s[r + 4 * c];
        }
    }
    o
}

#[inline]
pub fn mix_columns(s: &B) -> B {
    let mut o = [0; 16];
    for c in 0..4 {
        let (a, b, d, e) = (s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]);
        let all = a ^ b ^ d ^ e;
        o[4 * c] = a ^ all ^ xt(a ^ b);
        o[4 * c + 1] = b ^ all ^ xt(b ^ d);
        o[4 * c + 2] = d ^ all ^ xt(d ^ e);
        o[4 * c + 3] = e ^ all ^ xt(e ^ a);
    }
    o
}

#[inline]
pub fn inv_mix_columns(s: &B) -> B {
    let mut o = [0; 16];
    for c in 0..4 {
        let a = s[4 * c] as usize;
        let b = s[4 * c + 1] as usize;
        let d = s[4 * c + 2] as usize;
        let e = s[4 * c + 3] as usize;
        o[4 * c] = M14[a] ^ M11[b] ^ M13[d] ^ M9[e];
        o[4 * c + 1] = M9[a] ^ M14[b] ^ M11[d] ^ M13[e];
        o[4 * c + 2] = M13[a] ^ M9[b] ^ M14[d] ^ M11[e];
        o[4 * c + 3] = M11[a] ^ M13[b] ^ M9[d] ^ M14[e];
    }
    o
}

// ---- the six round functions ----
#[inline]
pub fn enc(x: &B, k: &B) -> B {
    xor(&mix_columns(&sub_bytes(&shift_rows(x))), k)
}
#[inline]
pub fn enc_last(x: &B, k: &B) -> B {
    xor(&sub_bytes(&shift_rows(x)), k)
}
#[inline]
pub fn dec(x: &B, k: &B) -> B {
    xor(&inv_mix_columns(&inv_sub_bytes(&inv_shift_rows(x))), k)
}
#[inline]
pub fn dec_last(x: &B, k: &B) -> B {
    xor(&inv_sub_bytes(&inv_shift_rows(x)), k)
}
/// inverse transition of `enc`
#[inline]
pub fn unenc(y: &B, k: &B) -> B {
    inv_shift_rows(&inv_sub_bytes(&inv_mix_columns(&xor(y, k))))
}

// ---- key schedule ----
pub const KEYLEN: [usize; 3] = [16, 24, 32];
pub const ROUNDS: [usize; 3] = [10, 12, 14];

#[derive(Clone, Copy)]
pub struct Schedule {
    pub nk: usize,
    pub nr: usize,
    pub w: [[u8; 4]; 60],
}

#[inline]
fn step(nk: usize, i: usize, prev: [u8; 4]) -> [u8; 4] {
    let mut t = prev;
    if i % nk == 0 {
        let mut rc = 1u8;
        for _ in 1..i / nk {
            rc = xt(rc);
        }
        t = [
            SBOX[t[1] as usize] ^ rc,
            SBOX[t[2] as usize],
            SBOX[t[3] as usize],
            SBOX[t[0] as usize],
        ];
    } else if nk > 6 && i % nk == 4 {
        for x in &mut t {
            *x = SBOX[*x as usize];
        }
    }
    t
}

/// the word that `step` turns into `t`
pub fn before_step(nk: usize, i: usize, t: [u8; 4]) -> [u8; 4] {
    let z = step(nk, i, [0x52; 4]); // (0x52 is what becomes zero: the round constant remains, if there is one)
    if i % nk == 0 {
        let t = x4(t, z).map(|b| INV_SBOX[b as usize]);
        [t[3], t[0], t[1], t[2]]
    } else if nk > 6 && i % nk == 4 {
        t.map(|b| INV_SBOX[b as usize])
    } else {
        t
    }
}

#[inline]
fn x4(a: [u8; 4], b: [u8; 4]) -> [u8; 4] {
    [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]]
}

impl Schedule {
    pub fn expand(key: &[u8]) -> Self {
        Self::from_window(key, 0)
    }

    /// The schedule in which words `at .. at+nk` have the given value: the key schedule is a bijection
    /// between consecutive windows of nk words, so every window value is reached by exactly one key.
    pub fn from_window(window: &[u8], at: usize) -> Self {
        let nk = window.len() / 4;
        let nr = nk + 6;
        let mut w = [[0u8; 4]; 60];
        for i in 0..nk {
            w[at + i].copy_from_slice(&window[4 * i..4 * i + 4]);
        }
        let mut i = at;
        while i > 0 {
            i -= 1;
            // w[i+nk] = w[i] ^ step(w[i+nk-1])
            w[i] = x4(w[i + nk], step(nk, i + nk, w[i + nk - 1]));
        }
        for i in at + nk..4 * (nr + 1) {
            w[i] = x4(w[i - nk], step(nk, i, w[i - 1]));
        }
        Schedule { nk, nr, w }
    }

    /// The window, and where it lies, that makes round keys `r` and `r + 1` differ by `m` in every word. With 192 and 256
    /// bits the first words of round key `r` can be chosen, with 128 there is one such key.
    pub fn adjacent(nk: usize, r: usize, m: [u8; 4], free: &[[u8; 4]; 4]) -> ([u8; 32], usize) {
        let at = 4 * r;
        let [a, b, mut c, mut d] = *free;
        let w: [[u8; 4]; 8] = match nk {
            4 => [[0; 4], [0; 4], [0; 4], before_step(4, at + 4, m), [0; 4], [0; 4], [0; 4], [0; 4]],
            6 => {
                c = x4(x4(a, step(6, at + 6, x4(b, m))), m);
                d = x4(x4(b, step(6, at + 7, x4(c, m))), m);
                [a, b, c, d, x4(a, m), x4(b, m), [0; 4], [0; 4]]
            }
            _ => [a, b, c, d, x4(a, m), x4(b, m), x4(c, m), x4(d, m)],
        };
        let mut out = [0; 32];
        for (o, w) in out.chunks_exact_mut(4).zip(w) {
            o.copy_from_slice(&w);
        }
        (out, at)
    }

    pub fn key(&self) -> [u8; 32] {
        let mut k = [0; 32];
        for i in 0..self.nk {
            k[4 * i..4 * i + 4].copy_from_slice(&self.w[i]);
        }
        k
    }

    #[inline]
    pub fn rk(&self, r: usize) -> B {
        let mut k = [0; 16];
        for i in 0..4 {
            k[4 * i..4 * i + 4].copy_from_slice(&self.w[4 * r + i]);
        }
        k
    }

    /// Run the model; `visit(round, state)` sees every state of the trace.
    #[inline]
    pub fn encrypt_visit(&self, pt: &B, visit: &mut dyn FnMut(usize, &B)) -> B {
        let mut s = xor(pt, &self.rk(0));
        visit(0, &s);
        for r in 1..self.nr {
            s = enc(&s, &self.rk(r));
            visit(r, &s);
        }
        s = enc_last(&s, &self.rk(self.nr));
        visit(self.nr, &s);
        s
    }

    pub fn encrypt(&self, pt: &B) -> B {
        let mut s = xor(pt, &self.rk(0));
        for r in 1..self.nr {
            s = enc(&s, &self.rk(r));
        }
        enc_last(&s, &self.rk(self.nr))
    }

    /// Straight inverse cipher of FIPS-197 section 5.3 (not the "equivalent" one).
    #[inline]
    pub fn decrypt_visit(&self, ct: &B, visit: &mut dyn FnMut(usize, &B)) -> B {
        let mut s = xor(ct, &self.rk(self.nr));
        visit(self.nr, &s);
        for r in (1..self.nr).rev() {
            s = inv_sub_bytes(&inv_shift_rows(&s));
            s = inv_mix_columns(&xor(&s, &self.rk(r)));
            visit(r, &s);
        }
        s = inv_sub_bytes(&inv_shift_rows(&s));
        s = xor(&s, &self.rk(0));
        visit(0, &s);
        s
    }

    pub fn decrypt(&self, ct: &B) -> B {
        self.decrypt_visit(ct, &mut |_, _| {})
    }

    /// The plaintext whose encryption has state `s` after round `r` (r = 0: after the first AddRoundKey).
    pub fn plaintext_reaching(&self, r: usize, s: &B) -> B {
        let mut s = *s;
        for i in (1..=r).rev() {
            s = unenc(&s, &self.rk(i));
        }
        xor(&s, &self.rk(0))
    }
}

/// Known answers (FIPS-197 appendices A, B, C and the S-box corners): the model itself is checked on every run.
pub fn self_test() -> Result<(), &'static str> {
    if SBOX[0] != 0x63 || SBOX[0x53] != 0xed || SBOX[0xff] != 0x16 {
        return Err("sbox");
    }
    for i in 0..256 {
        if INV_SBOX[SBOX[i] as usize] as usize != i {
            return Err("inv sbox");
        }
    }
    let mut pt = [0u8; 16];
    for (i, x) in pt.iter_mut().enumerate() {
        *x = (i * 0x11) as u8;
    }
    let mut key = [0u8; 32];
    for (i, x) in key.iter_mut().enumerate() {
        *x = i as u8;
    }
    const CT: [u128; 3] = [
        0x69c4e0d86a7b0430d8cdb78070b4c55a,
        0xdda97ca4864cdfe06eaf70a0ec0d7191,
        0x8ea2b7ca516745bfeafc49904b496089,
    ];
    for i in 0..if cfg!(miri) { 1 } else { 3 } {
        let s = Schedule::expand(&key[..KEYLEN[i]]);
        let ct = s.encrypt(&pt);
        if ct != CT[i].to_be_bytes() {
            return Err("FIPS-197 appendix C encrypt");
        }
        if s.decrypt(&ct) != pt {
            return Err("FIPS-197 appendix C decrypt");
        }
        for r in 0..if cfg!(miri) { 1 } else { s.nr } {
            let mut at = [0; 16];
            s.encrypt_visit(&pt, &mut |q, st| {
                if q == r {
                    at = *st;
                }
            });
            if s.plaintext_reaching(r, &at) != pt {
                return Err("plaintext_reaching");
            }
        }
        let mut win = [0u8; 32];
        let nk = s.nk;
        for at in 0..=if cfg!(miri) { 1 } else { 4 * (s.nr + 1) - nk } {
            for j in 0..nk {
                win[4 * j..4 * j + 4].copy_from_slice(&s.w[at + j]);
            }
            if Schedule::from_window(&win[..4 * nk], at).key()[..4 * nk] != key[..4 * nk] {
                return Err("from_window");
            }
        }
        for r in 0..if cfg!(miri) { 0 } else { s.nr } {
            for m in [[0; 4], [0xff; 4]] {
                let (win, at) = Schedule::adjacent(nk, r, m, &[[1, 2, 3, 4], [5, 6, 7, 8], [9, 9, 9, 9], [0; 4]]);
                if at + nk <= 4 * (s.nr + 1) {
                    let t = Schedule::from_window(&win[..4 * nk], at);
                    for j in 0..4 {
                        if x4(t.w[4 * r + j], t.w[4 * r + 4 + j]) != m {
                            return Err("adjacent round keys");
                        }
                    }
                }
            }
            for w in [[0u8; 4], [1, 2, 3, 4]] {
                if step(nk, 4 * r + 4, before_step(nk, 4 * r + 4, w)) != w {
                    return Err("before_step");
                }
            }
        }
        // equivalent inverse cipher agrees with the straight one
        let mut e = xor(&ct, &s.rk(s.nr));
        for r in (1..s.nr).rev() {
            e = dec(&e, &inv_mix_columns(&s.rk(r)));
        }
        if dec_last(&e, &s.rk(0)) != pt {
            return Err("equivalent inverse cipher");
        }
    }
    let k = 0x2b7e151628aed2a6abf7158809cf4f3c_u128.to_be_bytes();
    let s = Schedule::expand(&k);
    if s.rk(10) != 0xd014f9a8c9ee2589e13f0cc8b6630ca6_u128.to_be_bytes() {
        return Err("FIPS-197 appendix A");
    }
    for b in 0..=if cfg!(miri) { 0 } else { 255u8 } {
        for p in 0..16 {
            let mut x = [0u8; 16];
            x[p] = b;
            if inv_mix_columns(&mix_columns(&x)) != x || inv_shift_rows(&shift_rows(&x)) != x {
                return Err("mixcolumns/shiftrows inverse");
            }
            // MixColumns by its definition
            let m = mix_columns(&x);
            let c = p / 4;
            for r in 0..4 {
                let coef = [2u8, 3, 1, 1][(p % 4 + 4 - r) % 4];
                if m[4 * c + r] != gmul(b, coef) {
                    return Err("mixcolumns definition");
                }
            }
        }
    }
    Ok(())
}
