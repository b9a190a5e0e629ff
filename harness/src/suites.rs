//! What is enumerated, per property. Every loop nest here is exhaustive over the stated alphabet; there is no
//! randomness. `level` only scales the alphabets (0 interpreter, 1 emulator, 2 native, 3 native thorough).

use crate::engine::*;
use crate::ops::*;
use crate::refmodel as rm;
use crate::rt;
use crate::say;

pub static ALL: [u8; 256] = {
    let mut a = [0; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};
/// bytes around every carry, sign and field-reduction boundary, and the S-box fixed relations
pub static EDGE: [u8; 20] = [
    0x00, 0x01, 0x02, 0x03, 0x0f, 0x10, 0x1b, 0x36, 0x52, 0x63, 0x7f, 0x80, 0x81, 0x8d, 0xaa, 0xc0, 0xf0, 0xfe,
    0xff, 0x40,
];
pub static FEW: [u8; 4] = [0x00, 0x01, 0x80, 0xff];
pub static WORDS: [u32; 12] = [
    0,
    0xffff_ffff,
    1,
    0x8000_0000,
    0x7fff_ffff,
    0x0000_0080,
    0x0100_0000,
    0xffff_0000,
    0x00ff_00ff,
    0x8080_8080,
    0x1b1b_1b1b,
    0x0001_0203,
];

/// Fixed blocks: zero, ones, position tags, the FIPS vectors, sign bits, a pangram of nibbles.
pub static BASE: [[u8; 16]; 8] = [
    [0; 16],
    [0xff; 16],
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    0x2b7e151628aed2a6abf7158809cf4f3c_u128.to_be_bytes(),
    [0x80; 16],
    0x3243f6a8885a308d313198a2e0370734_u128.to_be_bytes(),
    0xfedcba98765432100123456789abcdef_u128.to_be_bytes(),
    0x52095fbff0ab636c01fe7f80c3a53c5a_u128.to_be_bytes(),
];

/// key number i of the base set, 32 bytes
pub fn base_key(i: usize) -> [u8; 32] {
    let mut k = [0; 32];
    k[..16].copy_from_slice(&BASE[i]);
    k[16..].copy_from_slice(&BASE[i]);
    if i >= 2 && i != 4 {
        for j in 16..32 {
            k[j] = k[j].wrapping_add(0x10).rotate_left(j as u32 & 1);
        }
    }
    k
}

fn vals(l: Level) -> &'static [u8] {
    match l {
        0 => &FEW,
        1 => &EDGE,
        _ => &ALL,
    }
}
/// in a suite run for its own sake also emulators see all values
fn vals_of(c: &Ctx) -> &'static [u8] {
    if c.level == 1 && c.whole { &ALL } else { vals(c.level) }
}
fn vals_small(l: Level) -> &'static [u8] {
    match l {
        0 => &FEW[..2],
        1 => &FEW,
        _ => &EDGE,
    }
}
fn by<T: Copy>(l: Level, v: [T; 4]) -> T {
    v[l as usize]
}

/// lanes: a tag that differs per lane and per byte
fn tagged(n: usize, salt: u8, out: &mut [u8]) {
    for i in 0..n {
        out[i] = (i as u8).wrapping_mul(0x9d).wrapping_add(salt).rotate_left((i / 16) as u32);
    }
}

// ---------------------------------------------------------------- C01 / C02 / C03

/// one cipher operation under every key schedule and every round state we can steer to
fn cipher_suite(c: &mut Ctx, routes: &[u32]) {
    let l = c.level;
    for kl in 0..3u8 {
        let k = rm::KEYLEN[kl as usize];
        let nr = rm::ROUNDS[kl as usize];
        for &r in routes {
            let dec = route_ends_dec(r);
            // one-byte deviations of key and block, all values, from several bases
            for kb in 0..by(l, [1, 2, 4, 8]) {
                for pb in 0..by(l, [1, 2, 4, 8]) {
                    if l == 0 && !c.mine() {
                        continue;
                    }
                    let (kb, pb) = if l < 2 { (3 - kb, 5 - pb) } else { (kb, pb) };
                    c.set(CIPHER, 0, kl, r, &[&base_key(kb)[..k], &BASE[pb]]);
                    if l == 0 {
                        c.check();
                        // byte-diagonal instead of the full product
                        for i in (0..k + 16).step_by(3) {
                            let old = c.cur.data[i];
                            c.cur.data[i] = old ^ (0x80 >> (i & 7)) ^ 0x1b;
                            c.check();
                            c.cur.data[i] = old;
                        }
                    } else {
                        c.dev1(0, k + 16, vals_of(c));
                    }
                }
            }
            if l == 0 {
                cipher_states_tiny(c, kl, r, dec);
                continue;
            }
            // two-byte deviations: all pairs of positions (key x key, key x block, block x block)
            c.set(CIPHER, 0, kl, r, &[&base_key(3)[..k], &BASE[5]]);
            if l == 3 {
                // full 16-bit products
                for i in 0..k + 16 {
                    for j in i + 1..k + 16 {
                        c.pair(i, j, &ALL);
                    }
                }
            } else {
                c.dev2(0, k + 16, vals_small(l));
                if l == 2 {
                    for i in k..k + 16 {
                        for j in i + 1..k + 16 {
                            c.pair(i, j, &ALL);
                        }
                    }
                }
            }
            // two-valued blocks and keys
            for &(u, v) in &[(0u8, 0xffu8), (0, 0x80), (0, 1), (0x7f, 0x80), (0x63, 0x52)][..by(l, [0, 0, 2, 5])] {
                for kb in [0usize, 3] {
                    c.set(CIPHER, 0, kl, r, &[&base_key(kb)[..k], &BASE[0]]);
                    c.binary(k, u, v);
                    c.set(CIPHER, 0, kl, r, &[&base_key(kb)[..k], &BASE[2]]);
                    c.binary(0, u, v);
                    if kl > 0 && l >= 2 {
                        c.set(CIPHER, 0, kl, r, &[&base_key(kb)[..k], &BASE[2]]);
                        c.binary(k - 16, u, v);
                    }
                }
            }
            // keys and blocks made of words
            let wa = &WORDS[..by(l, [0, 4, 6, 12])];
            for pb in 0..by(l, [0, 1, 2, 4]) {
                c.set(CIPHER, 0, kl, r, &[&base_key(pb)[..k], &BASE[5 - pb]]);
                c.words(k, wa);
                c.set(CIPHER, 0, kl, r, &[&base_key(pb)[..k], &BASE[5 - pb]]);
                c.words(0, wa);
                c.set(CIPHER, 0, kl, r, &[&base_key(pb)[..k], &BASE[5 - pb]]);
                c.words(k - 16, wa);
            }
            for at in [k, 0, k - 16] {
                c.set(CIPHER, 0, kl, r, &[&base_key(3)[..k], &BASE[5]]);
                patterns(c, at);
            }
            for (kb, pb) in [(3, 5), (0, 0)] {
                c.set(CIPHER, 0, kl, r, &[&base_key(kb)[..k], &BASE[pb]]);
                dict(c, 0, k + 16);
            }
            // keys of one value, keys of two alternating ones
            if c.mine() {
                for &v in vals(l) {
                    for u in [v, 0, 0xff, !v] {
                        let key: [u8; 32] = core::array::from_fn(|i| if i % 2 == 0 { u } else { v });
                        c.go(CIPHER, 0, kl, r, &[&key[..k], &[u; 16]]);
                        c.go(CIPHER, 0, kl, r, &[&key[..k], &BASE[5]]);
                        let key: [u8; 32] = core::array::from_fn(|i| if i < 16 { u } else { v });
                        c.go(CIPHER, 0, kl, r, &[&key[..k], &[v; 16]]);
                    }
                }
            }
            // repeated halves / thirds: key made of equal sub-blocks, and block equal to parts of the key
            related(c, kl, r, dec);
            // steer to local states
            steer(c, kl, r, dec, nr);
            steer_shapes(c, kl, r, dec, nr);
            fixpoints(c, kl, r, dec);
        }
    }
}

fn cipher_states_tiny(c: &mut Ctx, kl: u8, r: u32, dec: bool) {
    let k = rm::KEYLEN[kl as usize];
    let s = rm::Schedule::expand(&base_key(3)[..k]);
    for round in 0..=s.nr {
        if !c.mine() {
            continue;
        }
        for b in [0, 1, 4] {
            let pt = s.plaintext_reaching(round.min(s.nr - 1), &BASE[b]);
            let x = if dec { s.encrypt(&pt) } else { pt };
            c.go(CIPHER, 0, kl, r, &[&s.key()[..k], &x]);
            c.trace_states(kl, &s, &pt);
        }
    }
}

fn related(c: &mut Ctx, kl: u8, r: u32, dec: bool) {
    let k = rm::KEYLEN[kl as usize];
    let l = c.level;
    for kb in 0..8usize {
        if !c.mine() {
            continue;
        }
        let key = base_key(kb);
        let s = rm::Schedule::expand(&key[..k]);
        // block = any 16-byte window of the key, any round key, and their complements
        for off in 0..=k - 16 {
            let x: rm::B = key[off..off + 16].try_into().unwrap();
            c.go(CIPHER, 0, kl, r, &[&key[..k], &x]);
            c.go(CIPHER, 0, kl, r, &[&key[..k], &x.map(|b| !b)]);
        }
        for i in 0..=s.nr {
            let x = s.rk(i);
            c.go(CIPHER, 0, kl, r, &[&key[..k], &x]);
            c.go(CIPHER, 0, kl, r, &[&key[..k], &x.map(|b| !b)]);
            c.go(CIPHER, 0, kl, r, &[&key[..k], &rm::inv_mix_columns(&x)]);
            c.go(CIPHER, 0, kl, r, &[&key[..k], &rm::mix_columns(&x)]);
        }
    }
    // key built from 4-byte words over a small alphabet, every combination for every word position
    let a: &[[u8; 4]] = &[[0; 4], [0xff; 4], [0, 0, 0, 1], [0x80, 0, 0, 0]];
    let m = by(l, [0, 2, 3, 4]);
    let nw = k / 4;
    let total = (m as u64).pow(nw as u32);
    let mut i = 0;
    while i < total {
        let end = (i + 64).min(total);
        if c.mine() {
            for n in i..end {
                let mut key = [0u8; 32];
                let mut t = n;
                for w in 0..nw {
                    key[4 * w..4 * w + 4].copy_from_slice(&a[(t % m as u64) as usize]);
                    t /= m as u64;
                }
                c.go(CIPHER, 0, kl, r, &[&key[..k], &BASE[(n % 8) as usize]]);
            }
        }
        i = end;
    }
    let _ = dec;
}

/// Drive the implementation into chosen local states: every byte value at every position after every round,
/// and every byte value at every position of every window of the key schedule.
fn steer(c: &mut Ctx, kl: u8, r: u32, dec: bool, nr: usize) {
    let k = rm::KEYLEN[kl as usize];
    let l = c.level;
    for kb in by(l, [&[3][..], &[3], &[3, 0], &[0, 1, 2, 3, 4, 5, 6, 7]]) {
        let s = rm::Schedule::expand(&base_key(*kb)[..k]);
        let key = s.key();
        for sb in by(l, [&[0][..], &[5], &[0, 5], &[0, 1, 2, 3, 4, 5, 6, 7]]) {
            for round in 0..nr {
                for p in 0..16 {
                    if !c.mine() {
                        continue;
                    }
                    let mut st = BASE[*sb];
                    for &v in vals_of(c) {
                        st[p] = v;
                        let pt = s.plaintext_reaching(round, &st);
                        let x = if dec { s.encrypt(&pt) } else { pt };
                        c.go(CIPHER, 0, kl, r, &[&key[..k], &x]);
                        if v % 16 == 0 {
                            c.trace_states(kl, &s, &pt);
                        }
                    }
                }
            }
        }
        // states that make the next round key cancel to zero / ones, or equal the state
        for round in 0..nr {
            if !c.mine() {
                continue;
            }
            for st in [s.rk(round), s.rk(round + 1), s.rk(round).map(|x| !x), rm::unenc(&[0; 16], &s.rk(round + 1))] {
                let pt = s.plaintext_reaching(round, &st);
                let x = if dec { s.encrypt(&pt) } else { pt };
                c.go(CIPHER, 0, kl, r, &[&key[..k], &x]);
                c.trace_states(kl, &s, &pt);
            }
        }
    }
    // key-schedule windows
    let nk = k / 4;
    for wb in by(l, [&[0][..], &[0], &[0, 3], &[0, 1, 2, 3, 4, 5, 6, 7]]) {
        let mut at = 0;
        while at <= 4 * (nr + 1) - nk {
            for p in 0..k {
                if !c.mine() {
                    continue;
                }
                let mut win = base_key(*wb);
                for &v in if l == 1 && !c.whole { &FEW[..] } else { vals(l) } {
                    win[p] = v;
                    let s = rm::Schedule::from_window(&win[..k], at);
                    c.go(CIPHER, 0, kl, r, &[&s.key()[..k], &BASE[(p + v as usize) & 7]]);
                    if v % 16 == 0 {
                        c.trace_states(kl, &s, &BASE[(p + v as usize) & 7]);
                    }
                }
            }
            at += by(l, [1, 3, 1, 1]);
        }
    }
}

/// Blocks with relations among their words and bytes: words over a small alphabet (every equality pattern of words,
/// zero words), one value everywhere, periods, ramps, every run of one value in another. `f` evaluates one block.
fn shapes(l: Level, f: &mut dyn FnMut(&[u8; 16])) {
    const WORD: [u32; 5] = [0, 0xffff_ffff, 0x8000_0001, 0x2b7e_1516, 0x52ad_c3f0];
    let n = by(l, [2usize, 3, 5, 5]);
    for i in 0..n.pow(4) {
        let mut b = [0; 16];
        let mut t = i;
        for w in 0..4 {
            b[4 * w..4 * w + 4].copy_from_slice(&WORD[t % n].to_be_bytes());
            t /= n;
        }
        f(&b);
    }
    for &v in vals(l) {
        f(&[v; 16]);
        f(&core::array::from_fn(|i| v.wrapping_add(i as u8)));
        f(&core::array::from_fn(|i| v ^ (i as u8 & 3)));
        for d in [1usize, 2, 4, 8] {
            f(&core::array::from_fn(|i| if i / d % 2 == 0 { 0x5a } else { v }));
        }
    }
    constants(&mut |s| {
        for off in (0..=16usize.saturating_sub(s.len())).step_by(if l < 2 { 4 } else { 1 }) {
            let mut b = BASE[5];
            for (x, y) in b[off..].iter_mut().zip(s) {
                *x = *y;
            }
            f(&b);
        }
        f(&core::array::from_fn(|i| s[i % s.len()]));
    });
    // rows of one value
    for m in 0..16u8 {
        for (u, v) in [(0, 0xff), (0x63, 0), (0x52, 0x80)] {
            f(&core::array::from_fn(|i| if m >> (i % 4) & 1 == 0 { u } else { v }));
        }
    }
    if l >= 2 {
        for (u, v) in [(0u8, 0xffu8), (0xff, 0), (0x2b, 0), (0x63, 0x52)] {
            for i in 0..16 {
                for j in i..16 {
                    f(&core::array::from_fn(|x| if x >= i && x <= j { v } else { u }));
                }
            }
        }
    }
}

/// Steering to local states and schedule windows with relations among all their bytes.
fn steer_shapes(c: &mut Ctx, kl: u8, r: u32, dec: bool, nr: usize) {
    let k = rm::KEYLEN[kl as usize];
    let l = c.level;
    for kb in by(l, [&[][..], &[3], &[3], &[0, 1, 2, 3]]) {
        let s = rm::Schedule::expand(&base_key(*kb)[..k]);
        let key = s.key();
        for round in 0..nr {
            if c.mine() {
                shapes(l, &mut |st| {
                    // the state before the round, and before its last step (the addition of the round key)
                    let x = rm::xor(st, &s.rk(round));
                    for st in [st, &x] {
                        let pt = s.plaintext_reaching(round, st);
                        let x = if dec { s.encrypt(&pt) } else { pt };
                        c.go(CIPHER, 0, kl, r, &[&key[..k], &x]);
                    }
                });
            }
            // two-valued states
            if l >= 2 && (l == 3 || matches!(round, 1 | 2) || round + 2 >= nr) {
                for hi in 0..256u32 {
                    if !c.mine() {
                        continue;
                    }
                    for lo in 0..256u32 {
                        let m = hi << 8 | lo;
                        let st: rm::B = core::array::from_fn(|i| if m >> i & 1 == 1 { 0xff } else { 0 });
                        let pt = s.plaintext_reaching(round, &st);
                        let x = if dec { s.encrypt(&pt) } else { pt };
                        c.go(CIPHER, 0, kl, r, &[&key[..k], &x]);
                    }
                }
            }
        }
        // results
        if c.mine() {
            shapes(l, &mut |y| {
                let x = if dec { s.encrypt(y) } else { s.decrypt(y) };
                c.go(CIPHER, 0, kl, r, &[&key[..k], &x]);
            });
        }
    }
    windows(c, kl, &[r]);
}

/// keys with adjacent round keys that are equal or complementary, and with words that the schedule turns into zero
fn schedules(c: &mut Ctx, kl: u8, routes: &[u32]) {
    let k = rm::KEYLEN[kl as usize];
    let nr = rm::ROUNDS[kl as usize];
    let nk = k / 4;
    const WORD: [[u8; 4]; 4] = [[0; 4], [0x2b, 0x7e, 0x15, 0x16], [0xff; 4], [1, 0, 0, 0x80]];
    for r in 0..nr {
        if !c.mine() {
            continue;
        }
        for m in [[0; 4], [0xff; 4]] {
            for i in 0..if nk == 4 { 1 } else { by(c.level, [1, 4, 16, 16]) } {
                let (win, at) = rm::Schedule::adjacent(nk, r, m, &[WORD[i % 4], WORD[i / 4], WORD[(i + 1) % 4], WORD[3]]);
                let s = rm::Schedule::from_window(&win[..k], at);
                for &r in routes {
                    c.go(CIPHER, 0, kl, r, &[&s.key()[..k], &BASE[i % 8]]);
                }
            }
        }
    }
    for at in 0..4 * (nr + 1) - nk {
        if (at + nk) % nk != 0 && !(nk == 8 && at % nk == 4) || !c.mine() {
            continue;
        }
        let mut win = [0; 32];
        for base in 0..by(c.level, [1, 3, 9, 9]) {
            if base < 8 {
                win = base_key(base);
            } else {
                win = [0; 32];
            }
            let first: [u8; 4] = win[..4].try_into().unwrap();
            // the next word is the first one, its complement, zero, all ones
            for t in [[0; 4], [0xff; 4], first, first.map(|b| !b)] {
                win[k - 4..k].copy_from_slice(&rm::before_step(nk, at + nk, t));
                let s = rm::Schedule::from_window(&win[..k], at);
                for &r in routes {
                    c.go(CIPHER, 0, kl, r, &[&s.key()[..k], &BASE[base % 8]]);
                }
            }
        }
    }
}

/// states that a round leaves unchanged, or turns into their complement
fn fixpoints(c: &mut Ctx, kl: u8, r: u32, dec: bool) {
    let k = rm::KEYLEN[kl as usize];
    let nr = rm::ROUNDS[kl as usize];
    let nk = k / 4;
    for round in 1..=nr {
        if !c.mine() {
            continue;
        }
        // round key `round` can be chosen; with more than 128 bits so can what precedes or follows it
        let at = (4 * round).min(4 * (nr + 1) - nk);
        for b in 0..by(c.level, [1, 2, 8, 8]) {
            let st = BASE[b];
            let core = if round < nr { rm::enc(&st, &[0; 16]) } else { rm::enc_last(&st, &[0; 16]) };
            let dst = core.map(|b| !b);
            for rk in [rm::xor(&core, &st), rm::xor(&dst, &st)] {
                let mut win = base_key(b);
                win[16 * round - 4 * at..][..16].copy_from_slice(&rk);
                let s = rm::Schedule::from_window(&win[..k], at);
                let pt = s.plaintext_reaching(round - 1, &st);
                let x = if dec { s.encrypt(&pt) } else { pt };
                c.go(CIPHER, 0, kl, r, &[&s.key()[..k], &x]);
                c.trace_states(kl, &s, &pt);
            }
        }
    }
}

/// key-schedule windows of related words, and round keys that (Inv)MixColumns turns into such
fn windows(c: &mut Ctx, kl: u8, routes: &[u32]) {
    let k = rm::KEYLEN[kl as usize];
    let nr = rm::ROUNDS[kl as usize];
    let nk = k / 4;
    let l = c.level;
    if l == 0 {
        return;
    }
    schedules(c, kl, routes);
    for at in 0..=4 * (nr + 1) - nk {
        if l == 1 && at % 3 != 1 {
            continue;
        }
        // every assignment of words to the window
        let n = by(l, [0usize, 2, 3, 4]);
        const WORD: [u32; 4] = [0, 0x2b7e_1516, 0xffff_ffff, 0x0100_0000];
        let total = n.pow(nk as u32);
        let mut i = 0;
        while i < total {
            let end = (i + 512).min(total);
            if c.mine() {
                for m in i..end {
                    let mut win = [0; 32];
                    let mut t = m;
                    for w in 0..nk {
                        win[4 * w..4 * w + 4].copy_from_slice(&WORD[t % n].to_be_bytes());
                        t /= n;
                    }
                    let s = rm::Schedule::from_window(&win[..k], at);
                    for &r in routes {
                        c.go(CIPHER, 0, kl, r, &[&s.key()[..k], &BASE[m & 7]]);
                    }
                }
            }
            i = end;
        }
        // related bytes within 16 of its bytes; only round keys are transformed
        for pos in 0..=nk - 4 {
            if l == 1 && pos > 0 || !c.mine() {
                continue;
            }
            shapes(l, &mut |b| {
                for b in [*b, rm::mix_columns(b), rm::inv_mix_columns(b)] {
                    let mut win = base_key(5);
                    win[4 * pos..4 * pos + 16].copy_from_slice(&b);
                    let s = rm::Schedule::from_window(&win[..k], at);
                    for &r in routes {
                        c.go(CIPHER, 0, kl, r, &[&s.key()[..k], &BASE[b[0] as usize & 7]]);
                    }
                    if (at + pos) % 4 != 0 {
                        break;
                    }
                }
            });
        }
    }
}

pub fn c01(c: &mut Ctx) {
    cipher_suite(c, &[R_ENC]);
}
pub fn c02(c: &mut Ctx) {
    cipher_suite(c, &[R_DEC, R_ENC_TO_DEC]);
}

/// every conversion/clone history of bounded length, on many keys; the object must act as one built directly
pub fn c03(c: &mut Ctx) {
    let l = c.level;
    let depth = by(l, [1, 3, 5, 8]);
    for kl in 0..3u8 {
        let k = rm::KEYLEN[kl as usize];
        for len in 0..=depth {
            for m in 0..1u32 << (2 * len) {
                let mut st = [0u8; MAX_STEPS];
                for i in 0..len {
                    st[i] = (m >> (2 * i)) as u8 & 3;
                }
                for sd in [false, true] {
                    let r = route(sd, &st[..len]);
                    for kb in 0..by(l, [1, 4, 8, 8]) {
                        if !c.mine() {
                            continue;
                        }
                        let key = base_key(7 - kb);
                        for w in 0..3u8 {
                            let mut x = [0; 64];
                            tagged(64, kb as u8, &mut x);
                            c.go(CIPHER, w, kl, r, &[&key[..k], &x[..WN[w as usize]]]);
                            // all objects of the history still work as their source did
                            if len <= by(l, [1, 2, 5, 6]) && (l > 0 || w == 0) {
                                c.go(ALIVE, w, kl, r, &[&key[..k], &x[..WN[w as usize]]]);
                            }
                        }
                    }
                    // one key-byte deviations, short histories
                    if len <= by(l, [0, 1, 2, 3]) && l > 0 {
                        c.set(CIPHER, 0, kl, r, &[&base_key(3)[..k], &BASE[5]]);
                        c.dev1(0, k, vals(l));
                    }
                }
            }
        }
        // conversion is exact for every key we can steer the schedule to: every window, every byte value
        let nr = rm::ROUNDS[kl as usize];
        for at in 0..=4 * (nr + 1) - k / 4 {
            if l == 0 {
                break;
            }
            for p in 0..k {
                if !c.mine() {
                    continue;
                }
                let mut win = base_key(5);
                for &v in if l == 1 && !c.whole { &FEW[..2] } else { vals(l) } {
                    win[p] = v;
                    let s = rm::Schedule::from_window(&win[..k], at);
                    for r in [R_DEC_TO_ENC, R_ENC_TO_DEC, route(false, &[0, 0])] {
                        c.go(CIPHER, 0, kl, r, &[&s.key()[..k], &BASE[p & 7]]);
                    }
                }
            }
        }
        windows(c, kl, &[R_DEC_TO_ENC, R_ENC_TO_DEC][..by(l, [0, 1, 2, 2])]);
        for r in [R_DEC_TO_ENC, R_ENC_TO_DEC] {
            c.set(CIPHER, 0, kl, r, &[&base_key(3)[..k], &BASE[5]]);
            dict(c, 0, k);
        }
        if l >= 2 {
            c.set(CIPHER, 0, kl, R_DEC_TO_ENC, &[&base_key(3)[..k], &BASE[5]]);
            c.dev2(0, k, vals_small(l));
            c.set(CIPHER, 0, kl, route(false, &[0, 0]), &[&base_key(3)[..k], &BASE[5]]);
            c.dev2(0, k, vals_small(l));
        }
    }
}

/// Blocks that occur in practice and blocks with relations among all their bytes, at data[at..at+16]: one value
/// everywhere, alternating values, ramps, counters around every carry, rotations of a block, all runs of one value.
fn patterns(c: &mut Ctx, at: usize) {
    let l = c.level;
    let put = |c: &mut Ctx, b: &[u8; 16]| {
        c.cur.data[at..at + 16].copy_from_slice(b);
        c.check();
    };
    if c.mine() {
        for &v in if l < 2 { &EDGE[..] } else { &ALL } {
            put(c, &[v; 16]);
            put(c, &core::array::from_fn(|i| v.wrapping_add(i as u8)));
            put(c, &core::array::from_fn(|i| v.wrapping_sub(i as u8)));
            put(c, &core::array::from_fn(|i| v ^ (i as u8).wrapping_mul(0x11)));
        }
    }
    // period 2, 4, 8 and mirrored
    for &u in &EDGE {
        if l < 2 && u & 3 != 0 || !c.mine() {
            continue;
        }
        for &v in if l < 2 { &EDGE[..] } else { &ALL } {
            for d in [1usize, 2, 4, 8] {
                put(c, &core::array::from_fn(|i| if i / d % 2 == 0 { u } else { v }));
            }
            put(c, &core::array::from_fn(|i| if i % 4 == 0 { u } else { v }));
            put(c, &core::array::from_fn(|i| if (4..12).contains(&i) { u } else { v }));
        }
    }
    // every run of one value within a block of another
    for &(u, v) in &[(0u8, 0xffu8), (0xff, 0), (0x2b, 0), (0, 0x80)][..by(l, [0, 1, 4, 4])] {
        if !c.mine() {
            continue;
        }
        for i in 0..16 {
            for j in i..16 {
                put(c, &core::array::from_fn(|x| if x >= i && x <= j { v } else { u }));
            }
        }
    }
    // big- and little-endian counters
    for bits in [0u32, 8, 16, 24, 32, 40, 48, 56, 64, 96] {
        if !c.mine() {
            continue;
        }
        let n = by(l, [1u128, 4, 64, 1024]);
        for nonce in [0u128, 0x0102_0304_0506_0708_090a_0b0cu128 << 32] {
            for i in 0..2 * n {
                let x = nonce.wrapping_add((1u128 << bits) + i).wrapping_sub(n);
                put(c, &x.to_be_bytes());
                put(c, &x.to_le_bytes());
            }
        }
    }
    for h in 0..by(l, [0u128, 1, 16, 256]) {
        if c.mine() {
            for x in 0..256u128 {
                put(c, &(h << 8 | x).to_be_bytes());
            }
        }
    }
}

/// Constants that occur in the sources under test (collected by check.py): byte strings of two or more bytes, as written
/// and reversed. Values that code treats specially tend to be spelled out in it.
pub fn constants(f: &mut dyn FnMut(&[u8])) {
    for tok in option_env!("MC_DICT").unwrap_or("").split(',') {
        let t = tok.as_bytes();
        let n = t.len() / 2;
        if n < 2 || n > 64 {
            continue;
        }
        let hex = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
        let mut b = [0u8; 64];
        for i in 0..n {
            b[i] = hex(t[2 * i]) << 4 | hex(t[2 * i + 1]);
        }
        f(&b[..n]);
        b[..n].reverse();
        f(&b[..n]);
    }
}
/// bytes the sources compare with
fn constant_bytes(out: &mut [u8; 32]) -> usize {
    let mut n = 0;
    for t in option_env!("MC_BYTES").unwrap_or("").split(',') {
        if let (Ok(b), true) = (t.parse(), n < out.len()) {
            out[n] = b;
            n += 1;
        }
    }
    n
}
/// numbers in the sources that could be lengths or counts
pub fn constant_lengths(f: &mut dyn FnMut(usize)) {
    for t in option_env!("MC_LENS").unwrap_or("").split(',') {
        if let Ok(n) = t.parse() {
            f(n)
        }
    }
}

/// the constants of the sources at every place of data[at..end]
fn dict(c: &mut Ctx, at: usize, end: usize) {
    let l = c.level;
    if l == 0 {
        return;
    }
    let base = c.cur.clone();
    constants(&mut |s| {
        if !c.mine() {
            return;
        }
        let n = s.len();
        let mut off = at;
        while off + n <= end {
            c.cur.data[off..off + n].copy_from_slice(s);
            c.check();
            c.cur.data[off..off + n].copy_from_slice(&base.data[off..off + n]);
            off += if l == 1 && n >= 4 { 4 } else { 1 };
        }
        // again and again, through everything and through one block
        for i in at..end {
            c.cur.data[i] = s[(i - at) % n];
        }
        c.check();
        c.cur.data = base.data;
        for lane in (at..end).step_by(16) {
            for i in lane..end.min(lane + 16) {
                c.cur.data[i] = s[(i - lane) % n];
            }
            c.check();
            c.cur.data = base.data;
        }
    });
    // two of them; for emulators this is too much
    let l = if cfg!(all(target_arch = "x86_64", feature = "hosted")) { l } else { 1 };
    if l >= 2 && end - at <= 64 {
        constants(&mut |s| {
            let telling = |s: &[u8]| s.len() % 4 == 0 && s.iter().filter(|b| **b != 0).count() > 1;
            if !c.mine() || !telling(s) {
                return;
            }
            for i in (at..end).step_by(4) {
                constants(&mut |t| {
                    for j in (at..end).step_by(4) {
                        if !telling(t) || i + s.len() > end || j + t.len() > end || i < j + t.len() && j < i + s.len() {
                            continue;
                        }
                        c.cur.data[i..i + s.len()].copy_from_slice(s);
                        c.cur.data[j..j + t.len()].copy_from_slice(t);
                        c.check();
                        c.cur.data = base.data;
                    }
                });
            }
        });
    }
    let mut b = [0; 32];
    let n = constant_bytes(&mut b);
    if l >= 2 && n > 0 && end - at <= 48 {
        let mut both = [0; 52];
        both[..n].copy_from_slice(&b[..n]);
        both[n..n + EDGE.len()].copy_from_slice(&EDGE);
        c.dev2(at, end, &both[..n + EDGE.len()]);
        // three of them
        if n <= 4 && end - at <= 32 {
            for i in at..end {
                for &v in &b[..n] {
                    c.cur.data[i] = v;
                    for j in i + 1..end {
                        for k in j + 1..end {
                            c.pair(j, k, &b[..n]);
                        }
                    }
                }
                c.cur.data = base.data;
            }
        }
    }
    c.cur = base;
}

/// lane assignments: every function from lanes to a small set of blocks, at data[at..]
fn lanes(c: &mut Ctx, at: usize, n: usize, set: &[[u8; 16]]) {
    let m = set.len() as u64;
    let total = m.pow(n as u32);
    let chunk = 32;
    let mut i = 0;
    while i < total {
        let end = (i + chunk).min(total);
        if c.mine() {
            for v in i..end {
                let mut t = v;
                for j in 0..n {
                    c.cur.data[at + 16 * j..at + 16 * j + 16].copy_from_slice(&set[(t % m) as usize]);
                    t /= m;
                }
                c.check();
            }
        }
        i = end;
    }
}

/// every assignment of two values to the words of some blocks at data[at..], or (not `full`) to their halves: all the ways
/// in which blocks may agree in part. The other value differs from the first by `mask` (if `mask` is zero, everywhere);
/// `each`: another pair of values for every column.
fn word_patterns(c: &mut Ctx, at: usize, blocks: usize, mask: [u8; 4], each: bool, full: bool) {
    let size = if full { 4 } else { 8 };
    let bits = 16 * blocks / size;
    let base = c.cur.clone();
    let span = bits.min(8);
    for hi in 0..1u32 << (bits - span) {
        if !c.mine() {
            continue;
        }
        for lo in 0..1u32 << span {
            let m = hi << span | lo;
            for i in 0..16 * blocks {
                let col = (i % 16 / 4) as u8;
                let one = if mask == [0; 4] {
                    [0x3a, 0xc5, 0x91, 0x6e][i % 4] ^ if each { col * 0x47 } else { 0 }
                } else {
                    base.data[at + i]
                };
                let other = if mask == [0; 4] { one.rotate_left(3) ^ 0x5d } else { one ^ mask[i % 4] };
                c.cur.data[at + i] = if m >> (i / size) & 1 == 1 { other } else { one };
            }
            c.check();
        }
    }
    c.cur = base;
}

/// blocks at data[at..] that are equal or come in two kinds, and then differ in a byte
fn near_equal(c: &mut Ctx, at: usize, blocks: usize, vals: &[u8]) {
    for kinds in 0..1u32 << (blocks - 1) {
        for j in 0..blocks {
            let kind = if kinds << 1 >> j & 1 == 1 { &BASE[4] } else { &BASE[2] };
            c.cur.data[at + 16 * j..at + 16 * j + 16].copy_from_slice(kind);
        }
        c.dev1(at, at + 16 * blocks, vals);
    }
}

/// all lane assignments for lanes drawn from the base set
pub fn c04(c: &mut Ctx) {
    let l = c.level;
    for kl in 0..3u8 {
        let k = rm::KEYLEN[kl as usize];
        let nr = rm::ROUNDS[kl as usize];
        for r in [R_ENC, R_DEC, R_ENC_TO_DEC, R_DEC_TO_ENC] {
            for w in 1..3u8 {
                let n = 1 << w;
                for kb in 0..by(l, [1, 2, 4, 8]) {
                    let key = base_key(7 - kb);
                    let set = &BASE[..by(l, [2, 4, 6, 8])];
                    c.set(CIPHER, w, kl, r, &[&key[..k], &[0; 64][..16 * n]]);
                    if l == 0 {
                        let mut x = [0; 64];
                        tagged(64, kl, &mut x);
                        c.set(CIPHER, w, kl, r, &[&key[..k], &x[..16 * n]]);
                        if c.mine() {
                            c.check();
                        }
                        continue;
                    }
                    lanes(c, k, n, set);
                    let mut x = [0; 64];
                    tagged(64, kb as u8, &mut x);
                    c.set(CIPHER, w, kl, r, &[&key[..k], &x[..16 * n]]);
                    c.dev1(0, k + 16 * n, if l == 2 && kb > 0 { &EDGE } else { vals_of(c) });
                    if l == 3 {
                        c.dev2(0, k + 16 * n, &EDGE[..8]);
                    }
                }
                // lanes that agree in part
                if l >= 1 {
                    let mut x = [0; 64];
                    tagged(64, 17, &mut x);
                    c.set(CIPHER, w, kl, r, &[&base_key(5)[..k], &x[..16 * n]]);
                    dict(c, k, k + 16 * n);
                    for each in [false, true] {
                        c.set(CIPHER, w, kl, r, &[&base_key(5)[..k], &[0; 64][..16 * n]]);
                        word_patterns(c, k, n, [0; 4], each, l >= 2);
                        if l == 1 {
                            break;
                        }
                    }
                    near_equal(c, k, n, if l < 2 { &FEW[..1] } else { &EDGE });
                }
                // lanes whose state is uniform at some point of the computation (zero after the whitening, for example), or
                // that equal a round key: in every subset of the lanes, and every assignment of lanes to two such blocks
                if l >= 1 {
                    let s = rm::Schedule::expand(&base_key(3)[..k]);
                    let uniform = |round: usize, v: u8| {
                        let pt = s.plaintext_reaching(round, &[v; 16]);
                        if route_ends_dec(r) { s.encrypt(&pt) } else { pt }
                    };
                    let mut x = [0; 64];
                    for round in 0..nr {
                        if !c.mine() {
                            continue;
                        }
                        // 0x52 and 0x63: before and after the substitution of zero
                        for special in [uniform(round, 0), uniform(round, 0x52), uniform(round, 0xff), uniform(round, 0x63),
                            s.rk(round), s.rk(round + 1), rm::inv_mix_columns(&s.rk(round + 1)), s.rk(round + 1).map(|b| !b)] {
                            for mask in 1..1u32 << n {
                                tagged(64, 29 + round as u8, &mut x);
                                for j in 0..n {
                                    if mask >> j & 1 == 1 {
                                        x[16 * j..16 * j + 16].copy_from_slice(&special);
                                    }
                                }
                                c.go(CIPHER, w, kl, r, &[&s.key()[..k], &x[..16 * n]]);
                            }
                        }
                    }
                    c.set(CIPHER, w, kl, r, &[&s.key()[..k], &[0; 64][..16 * n]]);
                    lanes(c, k, n, &[uniform(0, 0), uniform(nr - 1, 0x52), BASE[5], BASE[4]]);
                }
                // successive counters, descending ones, lanes of one value each
                if l >= 1 && c.mine() {
                    let key = base_key(3);
                    for i in 0..by(l, [0u128, 40, 256, 4096]) {
                        for start in [i, 0xffff_fff0 + i, u64::MAX as u128 - 8 + i, (i << 32).wrapping_sub(2), 0u128.wrapping_sub(i)] {
                            let mut x = [[0u8; 64]; 3];
                            for j in 0..n {
                                x[0][16 * j..16 * j + 16].copy_from_slice(&start.wrapping_add(j as u128).to_be_bytes());
                                x[1][16 * j..16 * j + 16].copy_from_slice(&start.wrapping_sub(j as u128).to_be_bytes());
                                x[2][16 * j..16 * j + 16].copy_from_slice(&[(i as u8).wrapping_add(j as u8); 16]);
                            }
                            for x in &x {
                                c.go(CIPHER, w, kl, r, &[&key[..k], &x[..16 * n]]);
                            }
                        }
                    }
                }
                if l < 2 {
                    continue;
                }
                // every lane steered through every round state, the other lanes held elsewhere
                let s = rm::Schedule::expand(&base_key(3)[..k]);
                for round in 0..nr {
                    for lane in 0..n {
                        if !c.mine() {
                            continue;
                        }
                        for p in 0..16 {
                            for &v in if l == 3 { &ALL[..] } else { &EDGE[..] } {
                                let mut st = BASE[0];
                                st[p] = v;
                                let mut x = [0; 64];
                                tagged(64, v, &mut x);
                                let pt = s.plaintext_reaching(round, &st);
                                let y = if route_ends_dec(r) { s.encrypt(&pt) } else { pt };
                                x[16 * lane..16 * lane + 16].copy_from_slice(&y);
                                c.go(CIPHER, w, kl, r, &[&s.key()[..k], &x[..16 * n]]);
                            }
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C05

pub fn c05(c: &mut Ctx) {
    let l = c.level;
    for op in [ENC, DEC, ENC_LAST, DEC_LAST, MC, IMC] {
        let keyed = op != MC && op != IMC;
        let len = if keyed { 32 } else { 16 };
        let start = |c: &mut Ctx, a: usize, b: usize| {
            if keyed {
                c.set(op, 0, 0, 0, &[&BASE[a], &BASE[b]])
            } else {
                c.set(op, 0, 0, 0, &[&BASE[a]])
            }
        };
        for a in 0..by(l, [1, 8, 8, 8]) {
            for b in 0..by(l, [1, 2, 8, 8]) {
                if !keyed && b > 0 {
                    continue;
                }
                start(c, a, b);
                c.dev1(0, len, if l == 0 { &FEW } else { &ALL });
            }
        }
        // S-box completeness in the interpreter: all 256 values, 16 at a time
        if l == 0 {
            for g in 0..16u8 {
                if c.mine() {
                    let mut x = [0; 16];
                    for i in 0..16 {
                        x[i] = g * 16 + i as u8;
                    }
                    if keyed {
                        c.go(op, 0, 0, 0, &[&x, &BASE[3]])
                    } else {
                        c.go(op, 0, 0, 0, &[&x])
                    }
                }
            }
            continue;
        }
        start(c, 5, 3);
        c.dev2(0, len, vals_small(l));
        if l >= 2 {
            // every pair of bytes of one column of the round's output cone: all 2^16 values
            for a in by(l, [&[0usize][..], &[0], &[0], &[0, 3, 5, 7]]) {
                start(c, *a, 3);
                for i in 0..16 {
                    for j in i + 1..16 {
                        c.pair(i, j, &ALL);
                    }
                }
            }
            // same position of input and key
            if keyed {
                for i in 0..16 {
                    c.pair(i, i + 16, &ALL);
                }
            }
        }
        for &(u, v) in &[(0u8, 0xffu8), (0, 0x80), (0, 1), (0x7f, 0x80), (0x63, 0x52)][..by(l, [0, 1, 5, 5])] {
            start(c, 0, 3);
            c.binary(0, u, v);
        }
        start(c, 0, 6);
        c.words(0, &WORDS[..by(l, [0, 4, 12, 12])]);
        start(c, 5, 3);
        dict(c, 0, len);
        start(c, 0, 3);
        patterns(c, 0);
        if keyed {
            start(c, 5, 0);
            patterns(c, 16);
        }
        if keyed {
            start(c, 6, 0);
            c.words(16, &WORDS[..by(l, [0, 4, 12, 12])]);
            // key equal to input, complement, and the value that cancels the result
            if c.mine() {
                for a in 0..8 {
                    let x = BASE[a];
                    c.go(op, 0, 0, 0, &[&x, &x]);
                    c.go(op, 0, 0, 0, &[&x, &x.map(|b| !b)]);
                    c.go(op, 0, 0, 0, &[&x, &[0; 16]]);
                    let z = c.cur.clone();
                    let mut o = Out::new();
                    run_model(&z, &mut o);
                    let cancel: rm::B = o.bytes().try_into().unwrap();
                    c.go(op, 0, 0, 0, &[&x, &cancel]);
                    // the result is the input, its complement, all ones
                    c.go(op, 0, 0, 0, &[&x, &rm::xor(&cancel, &x)]);
                    c.go(op, 0, 0, 0, &[&x, &rm::xor(&cancel, &x.map(|b| !b))]);
                    c.go(op, 0, 0, 0, &[&x, &cancel.map(|b| !b)]);
                }
            }
            // results with relations among all their bytes
            if c.mine() {
                let core = round(op, &BASE[5]);
                shapes(l, &mut |y| c.go(op, 0, 0, 0, &[&BASE[5], &rm::xor(&core, y)]));
            }
            if c.mine() {
                shapes(l, &mut |y| c.go(op, 0, 0, 0, &[&unround(op, &rm::xor(y, &BASE[3])), &BASE[3]]));
            }
        } else if c.mine() {
            shapes(l, &mut |y| {
                let x = if op == MC { rm::inv_mix_columns(y) } else { rm::mix_columns(y) };
                c.go(op, 0, 0, 0, &[&x]);
            });
        }
    }
}

/// a round without key addition, and its inverse
fn round(op: u8, x: &rm::B) -> rm::B {
    match op {
        ENC => rm::enc(x, &[0; 16]),
        DEC => rm::dec(x, &[0; 16]),
        ENC_LAST => rm::enc_last(x, &[0; 16]),
        _ => rm::dec_last(x, &[0; 16]),
    }
}

fn unround(op: u8, y: &rm::B) -> rm::B {
    let y = match op {
        ENC => rm::inv_mix_columns(y),
        DEC => rm::mix_columns(y),
        _ => *y,
    };
    if op == ENC || op == ENC_LAST {
        rm::inv_sub_bytes(&rm::inv_shift_rows(&y))
    } else {
        rm::shift_rows(&rm::sub_bytes(&y))
    }
}

/// thorough: the complete 2^32 domain of one output column of every round operation
pub fn c05_columns(c: &mut Ctx) {
    if c.level < 3 {
        return;
    }
    for op in [ENC, DEC, ENC_LAST, DEC_LAST, MC, IMC] {
        // the four input bytes that feed output column 0
        let pos: [usize; 4] = match op {
            ENC | ENC_LAST => [0, 5, 10, 15],
            DEC | DEC_LAST => [0, 13, 10, 7],
            _ => [0, 1, 2, 3],
        };
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                if !c.mine() {
                    continue;
                }
                if op == MC || op == IMC {
                    c.set(op, 0, 0, 0, &[&BASE[2]]);
                } else {
                    c.set(op, 0, 0, 0, &[&BASE[2], &BASE[3]]);
                }
                c.cur.data[pos[0]] = a;
                c.cur.data[pos[1]] = b;
                for x in 0..=255u8 {
                    c.cur.data[pos[2]] = x;
                    for y in 0..=255u8 {
                        c.cur.data[pos[3]] = y;
                        c.check();
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(c: &mut Ctx) {
    let l = c.level;
    #[cfg(feature = "hosted")]
    if matches!(c.mode, crate::trace::Mode::Model) && c.oracle == Oracle::Relative {
        c06_very_long(c);
    }
    for op in [CHAIN_ENC, CHAIN_DEC] {
        for w in 0..3u8 {
            let n = WN[w as usize];
            // every chain length, keys distinct per position and lane
            for nk in 1..=16usize {
                if n * (nk + 1) > CAP {
                    break;
                }
                c.set(op, w, 0, 0, &[]);
                let mut x = [0u8; CAP];
                tagged(n * (nk + 1), nk as u8, &mut x);
                c.cur.data = x;
                c.cur.len = n * (nk + 1);
                if l == 0 {
                    if c.mine() {
                        c.check();
                    }
                    continue;
                }
                c.dev1(0, n * (nk + 1), if l == 1 { &FEW } else if w == 0 || l == 3 { &ALL } else { &EDGE });
            }
            // short chains over a small block alphabet: every assignment of blocks and keys
            for nk in 1..=by(l, [1, 2, 3, 5]) {
                let slots = (nk + 1) << w;
                let m: usize = match slots {
                    0..=3 => 6,
                    4..=6 => 4,
                    7..=9 => 3,
                    _ => 2,
                };
                if (m as u64).pow(slots as u32) > by(l, [16, 4096, 70_000, 20_000_000]) {
                    continue;
                }
                c.set(op, w, 0, 0, &[]);
                c.cur.len = 16 * slots;
                c.cur.data = [0; CAP];
                lanes(c, 0, slots, &[BASE[0], BASE[1], BASE[2], BASE[7], BASE[3], BASE[4]][..m]);
            }
            for nk in [1usize, 2, 3, 5, 9] {
                let mut x = [0u8; CAP];
                tagged(n * (nk + 1), nk as u8 + 3, &mut x);
                if n * (nk + 1) <= CAP && (l >= 2 || nk < 3) {
                    c.set(op, w, 0, 0, &[&x[..n * (nk + 1)]]);
                    dict(c, 0, n * (nk + 1));
                }
            }
            // keys that agree in part with each other or with the block
            if l >= 1 && w == 0 {
                for each in [false, true] {
                    let mut x = [0u8; 128];
                    tagged(80, 11, &mut x);
                    c.set(op, 0, 0, 0, &[&x[..80]]);
                    word_patterns(c, 16, 4, [0; 4], each, l >= 2);
                    c.set(op, 0, 0, 0, &[&x[..64]]);
                    word_patterns(c, 0, 4, [0; 4], each, l >= 2);
                }
            }
            if l >= 1 {
                chain_states(c, op, w);
            }
            // long chains
            let lop = if op == CHAIN_ENC { LONG_CHAIN_ENC } else { LONG_CHAIN_DEC };
            for nk in 1..=513usize {
                let mut special = false;
                constant_lengths(&mut |n| special |= l > 0 && n <= 513 && (n..n + 3).contains(&(nk + 1)));
                let want = special || match l {
                    0 if matches!(c.mode, crate::trace::Mode::Placed | crate::trace::Mode::Moved) => nk <= 66 || [127, 128, 129, 255, 256, 257, 512].contains(&nk),
                    0 => nk == 17,
                    1 => (17..=33).contains(&nk) || [63, 64, 65, 128, 256, 257].contains(&nk),
                    2 => nk <= 66 || [100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513].contains(&nk),
                    _ => true,
                };
                if want && c.mine() {
                    for seed in if l < 2 { 0..1u8 } else { 0..4u8 } {
                        let mut x = [0u8; 64];
                        tagged(n, seed ^ nk as u8, &mut x);
                        c.go(lop, w, 0, 0, &[&x[..n], &(nk as u16).to_be_bytes(), &[seed.wrapping_mul(0x55)]]);
                    }
                }
            }
            if l >= 2 {
                for nk in 1..=4 {
                    let mut x = [0u8; CAP];
                    tagged(n * (nk + 1), 7, &mut x);
                    c.set(op, w, 0, 0, &[&x[..n * (nk + 1)]]);
                    c.dev2(0, (n * (nk + 1)).min(160), if l == 3 { &EDGE } else { &FEW });
                }
            }
        }
    }
}

/// Chains whose state, after some of the keys and in some of the lanes, is zero, all ones, the state before (a key that
/// changes nothing), the block itself, a key, or the state of another lane.
fn chain_states(c: &mut Ctx, op: u8, w: u8) {
    let l = c.level;
    let lanes_n = 1usize << w;
    let one = if op == CHAIN_ENC { ENC } else { DEC };
    for nk in by(l, [&[][..], &[3, 6], &[2, 3, 4, 5, 6, 9, 10, 11, 12, 13], &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]]) {
        let nk = *nk;
        let n = 16 * lanes_n;
        if n * (nk + 1) > CAP {
            continue;
        }
        let mut x = [0u8; CAP];
        tagged(n * (nk + 1), nk as u8 ^ 0x35, &mut x);
        let at = |i: usize, lane: usize| n * i + 16 * lane;
        // after key j (and, if `on`, after all the keys that follow it)
        for j in 0..nk {
            for on in [false, true] {
                if !c.mine() {
                    continue;
                }
                for target in 0..9 {
                    for lanes in 1..1usize << lanes_n {
                        let mut d = x;
                        let mut st: [rm::B; 4] = core::array::from_fn(|i| x[16 * (i % lanes_n)..][..16].try_into().unwrap());
                        for i in 0..nk {
                            let other = st[0];
                            for lane in 0..lanes_n {
                                let before = st[lane];
                                let core = if i == 0 { before } else { round(one, &before) };
                                let k = at(i + 1, lane);
                                if (i == j || on && i > j) && lanes >> lane & 1 == 1 {
                                    let key = |i: usize| -> rm::B { d[at(i.clamp(1, nk), lane)..][..16].try_into().unwrap() };
                                    let to = match target {
                                        0 => [0; 16],
                                        1 => [0xff; 16],
                                        2 => before,
                                        3 => before.map(|b| !b),
                                        4 => x[16 * lane..][..16].try_into().unwrap(),
                                        5 => key(i),
                                        6 => key(i + 2),
                                        7 => [if one == ENC { 0x52 } else { 0x63 }; 16],
                                        _ => other,
                                    };
                                    d[k..k + 16].copy_from_slice(&rm::xor(&core, &to));
                                }
                                let key: rm::B = d[k..k + 16].try_into().unwrap();
                                st[lane] = rm::xor(&core, &key);
                            }
                        }
                        c.go(op, w, 0, 0, &[&d[..n * (nk + 1)]]);
                    }
                }
            }
        }
    }
}

/// chains longer than any counter narrower than a machine word: hosted only
#[cfg(feature = "hosted")]
pub fn c06_very_long(c: &mut Ctx) {
    fn run<T: Blk>(c: &mut Ctx, w: u8) {
        let n = T::N;
        for op in [CHAIN_ENC, CHAIN_DEC] {
            // every length up to 2^11, then around round numbers
            let mut near = vec![];
            if c.level >= 2 {
                near.extend(514..=2050usize);
                for base in [3072usize, 5000, 6144, 8192, 10_000, 12_288, 16_384, 20_000, 24_576, 50_000, 100_000, 262_144] {
                    near.extend(base - 1..=base + 2);
                }
            }
            for base in [256usize, 4096, 32768, 65536, 131072, 1 << 20] {
                near.extend(base - 1..=base + 2);
            }
            // and of lengths that the sources mention, small multiples
            let mut extra = vec![];
            constant_lengths(&mut |n| {
                for m in 1..=4 {
                    if m * n > 512 && m * n <= 1 << 19 {
                        extra.extend(m * n - 1..=m * n + 2)
                    }
                }
            });
            {
                for (i, &nk) in near.iter().chain(&extra).enumerate() {
                    let base = if i < near.len() { nk - nk.min(3) } else { 0 };
                    if c.level == 0 || (c.level == 1 && (base >= 65536 || w == 1)) || !c.mine_one() {
                        continue;
                    }
                    let mut k = [0u8; 64];
                    let keys: Vec<T> = (0..nk)
                        .map(|i| {
                            long_key(0x35, i, &mut k[..n]);
                            T::ld(&k)
                        })
                        .collect();
                    let mut x = [0u8; 64];
                    tagged(n, nk as u8 ^ op, &mut x);
                    c.set(op, w, 0, 0, &[&x[..n]]);
                    c.evals += 1;
                    c.distinct += 1;
                    rt::set_current(&c.cur);
                    let (mut got, mut want) = (Out::new(), Out::new());
                    T::chain(op, T::ld(&x), &keys).put(&mut got);
                    let one = if op == CHAIN_ENC { ENC } else { DEC };
                    let mut y = T::binop(XOR, T::ld(&x), keys[0]);
                    for k in &keys[1..] {
                        y = T::round(one, y, *k);
                    }
                    y.put(&mut want);
                    rt::clear_current();
                    c.result(&got);
                    if got.bytes() != want.bytes() {
                        let mut l = rt::Line::new();
                        use core::fmt::Write;
                        let _ = write!(l, "chain of {nk} keys (key i = long_key(0x35, i)) is not the fold of single rounds");
                        c.report_result(l.text());
                    }
                }
            }
        }
    }
    run::<aes_crypto::AesBlock>(c, 0);
    run::<aes_crypto::AesBlockX2>(c, 1);
    run::<aes_crypto::AesBlockX4>(c, 2);
    #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
    if cfg!(all(target_arch = "x86_64", target_feature = "aes")) && (c.level >= 3 || c.level == 2 && !cfg!(target_feature = "vaes")) {
        c06_2_32(c);
    }
}

/// chains of 2^32 keys and a few more (of which 16 MiB exist, mapped again and again)
#[cfg(all(feature = "hosted", target_os = "linux", target_pointer_width = "64", not(miri)))]
fn c06_2_32(c: &mut Ctx) {
    use aes_crypto::AesBlock;
    const NK: usize = (1 << 32) + 2;
    const LEN: usize = (NK * 16).next_multiple_of(16 << 20);
    for op in [CHAIN_ENC, CHAIN_DEC] {
        if !c.mine_one() {
            continue;
        }
        let p = unsafe { rt::pages::repeated(LEN) };
        if p.is_null() {
            return;
        }
        let mut k = [0u8; 16];
        for i in 0..(16 << 20) / 16 {
            long_key(0x35, i, &mut k);
            unsafe { p.cast::<AesBlock>().add(i).write(AesBlock::ld(&k)) }
        }
        let keys = unsafe { core::slice::from_raw_parts(p.cast::<AesBlock>(), NK) };
        c.set(op, 0, 0, 0, &[&BASE[5]]);
        c.evals += 1;
        c.distinct += 1;
        let (mut got, mut want) = (Out::new(), Out::new());
        if rt::panics(|| AesBlock::chain(op, AesBlock::ld(&BASE[5]), keys).put(&mut got)) {
            got = Out::new();
        }
        let mut y = AesBlock::binop(XOR, AesBlock::ld(&BASE[5]), keys[0]);
        for k in &keys[1..] {
            y = AesBlock::round(if op == CHAIN_ENC { ENC } else { DEC }, y, *k);
        }
        y.put(&mut want);
        if got.bytes() != want.bytes() {
            c.report_note("mismatch", "chain of 2^32 + 2 keys (key i = long_key(0x35, i mod 2^20)) is not the fold of single rounds");
        }
        unsafe { rt::pages::unmap(p, LEN) }
    }
}

/// the empty chain must be refused; returns through the panic machinery
pub fn empty_chain(sel: usize) {
    use aes_crypto::*;
    let dec = sel & 1 == 1;
    match sel / 2 {
        0 => {
            let x = AesBlock::new(BASE[2]);
            let _ = core::hint::black_box(if dec { x.chain_dec(&[]) } else { x.chain_enc(&[]) });
        }
        1 => {
            let x = AesBlockX2::from(AesBlock::new(BASE[2]));
            let _ = core::hint::black_box(if dec { x.chain_dec(&[]) } else { x.chain_enc(&[]) });
        }
        _ => {
            let x = AesBlockX4::from(AesBlock::new(BASE[2]));
            let _ = core::hint::black_box(if dec { x.chain_dec(&[]) } else { x.chain_enc(&[]) });
        }
    }
}

pub fn c06_empty(c: &mut Ctx) {
    if !rt::CAN_CATCH {
        return;
    }
    for sel in 0..6 {
        if !c.mine() {
            continue;
        }
        c.set(if sel & 1 == 1 { CHAIN_DEC } else { CHAIN_ENC }, (sel / 2) as u8, 0, 0, &[]);
        c.evals += 1;
        c.distinct += 1;
        rt::set_current(&c.cur);
        let p = rt::panics(|| empty_chain(sel));
        rt::clear_current();
        if !p {
            c.report_result("chain over an empty key slice returned a value");
        }
    }
}

// ---------------------------------------------------------------- C07

pub fn c07(c: &mut Ctx) {
    let l = c.level;
    for op in [ENC, DEC, ENC_LAST, DEC_LAST] {
        for w in 1..3u8 {
            let n = WN[w as usize];
            let lanes_n = 1 << w;
            let mut x = [0u8; 128];
            for salt in 0..by(l, [1, 1, 2, 8]) {
                tagged(2 * n, salt * 31 + 5, &mut x);
                c.set(op, w, 0, 0, &[&x[..2 * n]]);
                if l == 0 {
                    c.dev1(0, 2 * n, &FEW[2..3]);
                } else {
                    c.dev1(0, 2 * n, &ALL);
                }
            }
            if l == 0 {
                continue;
            }
            c.set(op, w, 0, 0, &[&x[..2 * n]]);
            dict(c, 0, 2 * n);
            c.set(op, w, 0, 0, &[&x[..2 * n]]);
            c.dev2(0, 2 * n, by(l, [&FEW[..], &FEW[..2], &FEW[..], &EDGE[..]]));
            // every assignment of a small block set to the lanes of state and key
            let m = if w == 1 { by(l, [2, 4, 8, 8]) } else { by(l, [2, 2, 3, 5]) };
            c.set(op, w, 0, 0, &[&[0; 128][..2 * n]]);
            lanes(c, 0, 2 * lanes_n, &[BASE[0], BASE[2], BASE[7], BASE[1], BASE[3], BASE[4], BASE[5], BASE[6]][..m]);
            // results that are zero, all ones, the lane's input, its complement, the result of the first lane
            if c.mine() {
                for target in 0..5 {
                    for set in 1..1usize << lanes_n {
                        tagged(2 * n, target as u8 + 77, &mut x);
                        let mut first = [0; 16];
                        for lane in 0..lanes_n {
                            let s: rm::B = x[16 * lane..16 * lane + 16].try_into().unwrap();
                            let core = round(op, &s);
                            let k = n + 16 * lane;
                            if set >> lane & 1 == 1 {
                                let to = match target {
                                    0 => [0; 16],
                                    1 => [0xff; 16],
                                    2 => s,
                                    3 => s.map(|b| !b),
                                    _ => first,
                                };
                                x[k..k + 16].copy_from_slice(&rm::xor(&core, &to));
                            }
                            if lane == 0 {
                                first = rm::xor(&core, &x[k..k + 16].try_into().unwrap());
                            }
                        }
                        c.go(op, w, 0, 0, &[&x[..2 * n]]);
                    }
                }
            }
            // lanes that agree in part: states, keys, both
            for (at, blocks) in [(0, lanes_n), (n, lanes_n), (0, 2 * lanes_n)] {
                for each in [false, true] {
                    tagged(2 * n, 3, &mut x);
                    c.set(op, w, 0, 0, &[&x[..2 * n]]);
                    word_patterns(c, at, blocks, [0; 4], each, l >= 2 && blocks < 8);
                    if at == 0 && blocks == lanes_n {
                        // with one key for all
                        for i in 0..lanes_n {
                            c.cur.data[n + 16 * i..n + 16 * i + 16].copy_from_slice(&BASE[3]);
                        }
                        word_patterns(c, at, blocks, [0; 4], each, l >= 2);
                    }
                    if l == 1 {
                        break;
                    }
                }
                if blocks == lanes_n {
                    near_equal(c, at, blocks, if l < 2 { &FEW[..1] } else { &EDGE });
                }
            }
            if l >= 2 {
                for lane in 0..lanes_n {
                    tagged(2 * n, 99, &mut x);
                    c.set(op, w, 0, 0, &[&x[..2 * n]]);
                    for i in 16 * lane..16 * lane + 16 {
                        for j in i + 1..16 * lane + 16 {
                            c.pair(i, j, if l == 3 { &ALL } else { &EDGE });
                        }
                        c.pair(i, n + i, if l == 3 { &ALL } else { &EDGE });
                    }
                    c.set(op, w, 0, 0, &[&x[..2 * n]]);
                    c.binary(16 * lane, 0, 0xff);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C08

pub fn c08(c: &mut Ctx) {
    let l = c.level;
    for w in 0..3u8 {
        let n = WN[w as usize];
        let lanes_n = 1usize << w;
        if c.mine() {
            c.go(ZERO, w, 0, 0, &[]);
        }
        for op in [AND, OR, XOR, AND_ASSIGN, OR_ASSIGN, XOR_ASSIGN] {
            let mut x = [0u8; 128];
            tagged(2 * n, op, &mut x);
            c.set(op, w, 0, 0, &[&x[..2 * n]]);
            c.dev1(0, 2 * n, if l == 0 { &FEW[3..4] } else { &ALL });
            if l == 0 {
                continue;
            }
            dict(c, 0, 2 * n);
            // the truth table of every bit position: all byte pairs at every byte position
            for i in 0..n {
                c.pair(i, n + i, if l == 1 { &EDGE } else { &ALL });
            }
            if l >= 2 {
                c.set(op, w, 0, 0, &[&x[..2 * n]]);
                c.dev2(0, 2 * n, &FEW);
            }
            let m = if w == 2 { by(l, [2, 2, 3, 4]) } else { by(l, [2, 3, 6, 8]) };
            c.set(op, w, 0, 0, &[&[0; 128][..2 * n]]);
            lanes(c, 0, 2 * lanes_n, &[BASE[0], BASE[1], BASE[7], BASE[4], BASE[2], BASE[3], BASE[5], BASE[6]][..m]);
        }
        for op in [NOT, IS_ZERO] {
            for b in [0usize, 1, 7] {
                if l == 0 && b > 0 {
                    break;
                }
                let mut x = [0; 64];
                for i in 0..4 {
                    x[16 * i..16 * i + 16].copy_from_slice(&BASE[b]);
                }
                c.set(op, w, 0, 0, &[&x[..n]]);
                c.dev1(0, n, if l == 0 { &FEW[1..3] } else { &ALL });
            }
            if l == 0 {
                continue;
            }
            c.set(op, w, 0, 0, &[&[0; 64][..n]]);
            dict(c, 0, n);
            // every pair of bytes with every pair of values: sums, xors and products that cancel
            c.dev2(0, n, by(l, [&FEW[..], &FEW, &EDGE, &ALL]));
            if w == 0 && l >= 2 {
                for i in 0..n {
                    for j in i + 1..n {
                        c.pair(i, j, &ALL);
                    }
                }
            }
            for &(u, v) in &[(0u8, 0xffu8), (0, 0x80), (0, 1)][..by(l, [0, 1, 3, 3])] {
                for lane in 0..lanes_n {
                    c.set(op, w, 0, 0, &[&[0; 64][..n]]);
                    c.binary(16 * lane, u, v);
                }
            }
            c.set(op, w, 0, 0, &[&[0; 64][..n]]);
            c.words(0, &WORDS[..by(l, [0, 4, 12, 12])]);
            let m = by(l, [2, 3, 6, 8]);
            c.set(op, w, 0, 0, &[&[0; 64][..n]]);
            lanes(c, 0, lanes_n, &BASE[..m]);
        }
        // equality: x against x with differences at one place, at two places (all values), per-lane patterns
        for b in 0..by(l, [1, 2, 4, 8]) {
            let mut x = [0u8; 128];
            if b == 0 {
            } else {
                tagged(n, b as u8, &mut x);
            }
            x.copy_within(0..n, n);
            c.set(EQ, w, 0, 0, &[&x[..2 * n]]);
            if c.mine() {
                c.check();
            }
            c.dev1(0, 2 * n, if l == 0 { &FEW[1..2] } else { &ALL });
            if l == 0 {
                continue;
            }
            // differences in two bytes of one operand
            for i in 0..n {
                for j in i + 1..n {
                    c.pair(i, j, if l == 1 { &FEW } else if l == 2 && (w > 0 || b > 1) { &EDGE } else { &ALL });
                }
            }
            // equal change on both operands (stays equal) and unequal change (stays different)
            for i in 0..n {
                c.pair(i, n + i, if l == 1 { &FEW } else { &ALL });
            }
        }
        // constants of the sources in one operand, in both, and in both with another difference
        let mut x = [0u8; 128];
        tagged(n, 2, &mut x);
        x.copy_within(0..n, n);
        c.set(EQ, w, 0, 0, &[&x[..2 * n]]);
        dict(c, 0, 2 * n);
        if l >= 1 {
            constants(&mut |s| {
                if !c.mine() {
                    return;
                }
                for off in 0..=n.saturating_sub(s.len()) {
                    let mut y = x;
                    for i in 0..s.len().min(n - off) {
                        y[off + i] = s[i];
                        y[n + off + i] = s[i];
                    }
                    c.go(EQ, w, 0, 0, &[&y[..2 * n]]);
                    for i in 0..n {
                        y[i] ^= 0x10;
                        c.go(EQ, w, 0, 0, &[&y[..2 * n]]);
                        y[i] ^= 0x10;
                    }
                }
            });
        }
        let m = if w == 2 { by(l, [2, 2, 3, 4]) } else { by(l, [2, 4, 8, 8]) };
        c.set(EQ, w, 0, 0, &[&[0; 128][..2 * n]]);
        lanes(c, 0, 2 * lanes_n, &BASE[..m]);
        // differences in any set of words, such that sums, products or exclusive ors of them cancel
        for mask in &[[0x80u8, 0, 0, 0], [0, 0, 0, 0x80], [1, 0, 0, 0], [0, 0, 0, 1], [0xff; 4], [0x80; 4]][..by(l, [0, 2, 6, 6])] {
            let mut x = [0u8; 128];
            for b in 0..2 {
                tagged(if b == 0 { 0 } else { n }, 5, &mut x);
                x.copy_within(0..n, n);
                c.set(EQ, w, 0, 0, &[&x[..2 * n]]);
                word_patterns(c, n, lanes_n, *mask, false, l >= 2 || w == 0);
                c.set(IS_ZERO, w, 0, 0, &[&[0; 64][..n]]);
                word_patterns(c, 0, lanes_n, *mask, false, l >= 2 || w == 0);
            }
        }
        // differences that are two-valued masks: cancelling folds (xor/add of words, bytes, lanes) show here
        if l >= 1 {
            for &(u, v) in &[(0u8, 0xffu8), (0, 0x80), (0, 1)][..by(l, [0, 1, 3, 3])] {
                for lane in 0..lanes_n {
                    c.set(EQ, w, 0, 0, &[&[0; 128][..2 * n]]);
                    c.binary(16 * lane, u, v);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C09

pub fn c09(c: &mut Ctx) {
    let l = c.level;
    for op in [NEW, FROM_ARRAY, FROM_REF, TRY_FROM, INTO_ARRAY, STORE] {
        for w in 0..3u8 {
            conv(c, l, op, w, WN[w as usize]);
        }
    }
    for (op, n) in [
        (U128_FROM, 16),
        (U128_INTO, 16),
        (X2_FROM_PAIR, 32),
        (X2_INTO_PAIR, 32),
        (X2_BROADCAST, 16),
        (X4_FROM_4, 64),
        (X4_FROM_PAIRS, 64),
        (X4_INTO_4, 64),
        (X4_INTO_PAIRS, 64),
        (X4_BROADCAST1, 16),
        (X4_BROADCAST2, 32),
    ] {
        conv(c, l, op, 0, n);
    }
    consts(c);
    slices(c, l);
    #[cfg(all(feature = "hosted", not(miri)))]
    if c.whole && c.mode == crate::trace::Mode::Model && c.oracle == Oracle::Model {
        long_slices::<aes_crypto::AesBlock>(c, 0, true);
        long_slices::<aes_crypto::AesBlockX2>(c, 1, true);
        long_slices::<aes_crypto::AesBlockX4>(c, 2, true);
    }
}

/// slices longer than the block: the first bytes are taken, and written, whatever the length and whatever follows
fn slices(c: &mut Ctx, l: Level) {
    for w in 0..3u8 {
        let n = WN[w as usize];
        let mut x = [0u8; CAP];
        for (i, b) in x.iter_mut().enumerate() {
            *b = (i as u8).wrapping_mul(0x9d).wrapping_add((i >> 5) as u8);
        }
        for len in n + 1..=n + by(l, [3, 40, 272, 1000]) {
            if !c.mine() {
                continue;
            }
            let (h, t) = x.split_at(n);
            c.go(TRY_FROM_SLICE, w, 0, 0, &[h, &t[..len - n]]);
            c.go(STORE_SLICE, w, 0, 0, &[h, &x[5..5 + len]]);
            for fill in [0u8, 0xff] {
                let z = [fill; CAP];
                c.go(TRY_FROM_SLICE, w, 0, 0, &[h, &z[..len - n]]);
                c.go(STORE_SLICE, w, 0, 0, &[h, &z[..len]]);
            }
        }
        constant_lengths(&mut |len| {
            for len in len.saturating_sub(1)..=len + 1 {
                if l > 0 && len > n && n + len <= CAP && c.mine() {
                    c.go(TRY_FROM_SLICE, w, 0, 0, &[&x[..len]]);
                    c.go(STORE_SLICE, w, 0, 0, &[&x[..n], &x[5..5 + len]]);
                }
            }
        });
        for len in by(l, [&[][..], &[2 * n], &[n + 1, 2 * n, 4 * n], &[n + 1, n + 7, n + 8, n + 16, 2 * n, 3 * n, 4 * n]]) {
            c.set(TRY_FROM_SLICE, w, 0, 0, &[&x[..*len]]);
            c.dev1(0, *len, vals_of(c));
            c.set(STORE_SLICE, w, 0, 0, &[&x[7..7 + n], &x[..*len]]);
            c.dev1(0, n + *len, vals_of(c));
        }
    }
}

/// Slices of every length to 2^21 (emulated 2^16, thorough 2^24), of lengths around powers of two and of ten and around
/// constants of the sources to 2^26 (2^22), and at every offset within a page. What is checked: the first bytes are
/// taken; the block's bytes are stored, and near either end of the destination and before it nothing changes.
#[cfg(all(feature = "hosted", not(miri)))]
fn long_slices<T: Blk>(c: &mut Ctx, w: u8, lengths: bool) {
    let n = T::N;
    let all = if lengths { 1usize << by(c.level, [8, 16, 21, 24]) } else { 256 };
    let top = if lengths { 1usize << by(c.level, [8, 22, 26, 26]) } else { 256 };
    const PRE: usize = 4096;
    let mut space = vec![0u8; PRE + top + 2 * 4096];
    let pat = |i: usize| (i as u8).wrapping_mul(0x9d) ^ (i >> 7) as u8;
    for (i, b) in space.iter_mut().enumerate() {
        *b = pat(i);
    }
    let base = space.as_ptr() as usize;
    let first = PRE - base % PRE; // the first page boundary
    let mut value = [0u8; 64];
    tagged(n, 0x41, &mut value);
    let x = T::ld(&value);
    c.set(TRY_FROM_SLICE, w, 0, 0, &[&value[..n]]);
    rt::set_current(&c.cur);
    let mut one = |c: &mut Ctx, at: usize, len: usize| {
        c.evals += 2;
        c.distinct += 2;
        let mut o = Out::new();
        let mut bad = None;
        match T::try_from_slice(&space[at..at + len]) {
            Ok(v) => v.put(&mut o),
            Err(e) => o.push(&e.to_be_bytes()),
        }
        if o.bytes() != &space[at..at + n] {
            bad = Some((TRY_FROM_SLICE, "does not give its first bytes"));
        }
        x.store(&mut space[at..at + len]);
        if space[at..at + n] != value[..n] {
            bad = bad.or(Some((STORE_SLICE, "does not begin with the block that was stored to it")));
        }
        for i in (at - 64..at).chain(at + n..at + n + 128).chain((at + len).max(at + n + 128) - 32..at + len + 64) {
            if i >= at && i < at + n {
                continue;
            }
            if space[i] != pat(i) {
                bad = bad.or(Some((STORE_SLICE, "was changed outside the block's bytes by a store to it")));
            }
            space[i] = pat(i);
        }
        for i in at..at + n {
            space[i] = pat(i);
        }
        if let Some((op, what)) = bad {
            c.set(op, w, 0, 0, &[&value[..n]]);
            let mut l = rt::Line::new();
            use core::fmt::Write;
            let _ = write!(l, "a slice of {len} bytes, {} bytes after a page boundary, {what}", (at + 4096 - first) % 4096);
            c.report_result(l.text());
        }
    };
    for len in n..=all {
        if c.stop() {
            break;
        }
        if (len / 64) as u64 % c.shards == c.shard {
            one(c, first, len);
        }
    }
    let mut near = vec![];
    for i in 0..26 {
        near.extend([1 << i, 3 << i, 5 << i]);
    }
    for i in 0..9 {
        near.extend([1, 2, 3, 5].map(|m| m * 10usize.pow(i)));
    }
    constant_lengths(&mut |n| near.extend([n, 2 * n, 3 * n]));
    for (i, b) in near.into_iter().enumerate() {
        if i as u64 % c.shards == c.shard {
            for len in b.saturating_sub(n + 1)..=b + n + 1 {
                if len > all && len <= top && !c.stop() {
                    one(c, first, len);
                }
            }
        }
    }
    for off in 0..4096usize {
        if off as u64 % c.shards == c.shard && !c.stop() {
            for len in [n, n + 1, n + 3, n + 8, 2 * n, 2 * n + 1, 4 * n] {
                one(c, first + off, len);
            }
        }
    }
    rt::clear_current();
}

fn conv(c: &mut Ctx, l: Level, op: u8, w: u8, n: usize) {
    let mut x = [0u8; 64];
    for salt in 0..by(l, [1, 1, 4, 16]) {
        tagged(n, salt, &mut x);
        c.set(op, w, 0, 0, &[&x[..n]]);
        c.dev1(0, n, if l == 0 { &FEW[..1] } else { &ALL });
    }
    if l == 0 {
        return;
    }
    c.set(op, w, 0, 0, &[&x[..n]]);
    dict(c, 0, n);
    c.set(op, w, 0, 0, &[&x[..n]]);
    c.dev2(0, n, by(l, [&FEW[..], &FEW[..2], &EDGE[..], &ALL[..]]));
    for lane in 0..n / 16 {
        c.set(op, w, 0, 0, &[&x[..n]]);
        if l > 1 || lane == 0 {
            c.binary(16 * lane, 0, 0xff);
        }
    }
    if n > 16 {
        lanes(c, 0, n / 16, &BASE[..by(l, [2, 4, 8, 8])]);
    }
}

// compile-time construction: `new` is usable in constants and gives the same value as at run time
const fn tag_block<const N: usize>(i: usize) -> [u8; N] {
    let mut a = [0; N];
    let mut j = 0;
    while j < N {
        a[j] = ((i * 37) ^ (j * 11) ^ (i >> 3)) as u8;
        j += 1;
    }
    a
}
macro_rules! const_blocks {
    ($name:ident, $t:ident, $n:literal) => {
        static $name: [aes_crypto::$t; 32] = {
            let mut a = [aes_crypto::$t::new([0; $n]); 32];
            let mut i = 0;
            while i < 32 {
                a[i] = aes_crypto::$t::new(tag_block(i));
                i += 1;
            }
            a
        };
    };
}
const_blocks!(K1, AesBlock, 16);
const_blocks!(K2, AesBlockX2, 32);
const_blocks!(K4, AesBlockX4, 64);

fn consts(c: &mut Ctx) {
    for i in 0..32 {
        if !c.mine() {
            continue;
        }
        let a: [u8; 16] = K1[i].into();
        let b: [u8; 32] = K2[i].into();
        let d: [u8; 64] = K4[i].into();
        c.evals += 3;
        c.distinct += 3;
        let ok = [a == tag_block::<16>(i), b == tag_block::<32>(i), d == tag_block::<64>(i)];
        for w in 0..3u8 {
            if !ok[w as usize] {
                c.set(NEW, w, 0, 0, &[&tag_block::<64>(i)[..WN[w as usize]]]);
                c.report_result("constant built at compile time reads back different bytes");
            }
        }
    }
}

// ---------------------------------------------------------------- C14

pub fn c14(c: &mut Ctx) {
    let l = c.level;
    for p in 0..10u8 {
        for b in [2usize, 7] {
            if l == 0 && b == 2 {
                continue;
            }
            c.set(FMT, 0, p, 0, &[&BASE[b]]);
            c.dev1(0, 16, if l == 0 { &FEW[..1] } else { &ALL });
        }
        if l == 0 {
            continue;
        }
        c.set(FMT, 0, p, 0, &[&BASE[5]]);
        dict(c, 0, 16);
        c.set(FMT, 0, p, 0, &[&BASE[5]]);
        c.dev2(0, 16, by(l, [&FEW[..], &FEW[..2], &FEW[..], &EDGE[..]]));
        if l >= 3 || (l == 2 && p < 8) {
            c.set(FMT, 0, p, 0, &[&BASE[5]]);
            c.binary(0, 0, 0xff);
        }
    }
    // flags of the format specifier change nothing else; a writer that fails is reported
    for w in 0..3u8 {
        let n = WN[w as usize];
        for p in FMT_FLAGS..if w == 0 { FMT_FLAGS_END } else { FMT_FLAGS + 4 } {
            let mut x = [0; 64];
            tagged(n, p, &mut x);
            c.set(FMT, w, p, 0, &[&x[..n]]);
            c.dev1(0, n, if l < 2 { &FEW } else { &ALL });
        }
        for p in 0..10u8 {
            if w > 0 && !(2..4).contains(&p) || !c.mine() {
                continue;
            }
            let mut x = [0; 64];
            tagged(n, p, &mut x);
            for limit in 0..=255u8 {
                c.go(FMT_FAIL, w, p, 0, &[&x[..n], &[limit]]);
            }
        }
    }
    #[cfg(all(feature = "hosted", not(miri)))]
    if c.mode == crate::trace::Mode::Model && c.oracle == Oracle::Model {
        specs(c);
    }
    for w in 1..3u8 {
        for p in 2..4u8 {
            let n = WN[w as usize];
            let mut x = [0; 64];
            tagged(n, 3, &mut x);
            c.set(FMT, w, p, 0, &[&x[..n]]);
            c.dev1(0, n, if l == 0 { &FEW[..1] } else if l == 1 { &EDGE } else { &ALL });
            lanes(c, 0, n / 16, &BASE[..by(l, [1, 2, 4, 8])]);
        }
    }
}

/// Every format specifier: types, alignments, signs, flags, widths and precisions.
#[cfg(all(feature = "hosted", not(miri)))]
fn specs(c: &mut Ctx) {
    let l = c.level;
    let mut sizes: Vec<usize> = (0..=by(l, [3, 160, 600, 1300])).collect();
    for b in [256, 512, 768, 1024, 1280, 2048, 4096, 8192, 16384, 32768, 65535usize] {
        sizes.extend([b - 1, b, b + 1]);
    }
    constant_lengths(&mut |n| sizes.extend([n - 1, n, n + 1]));
    sizes.retain(|&s| s <= 65535);
    sizes.sort();
    sizes.dedup();
    for w in 0..3u8 {
        let n = WN[w as usize];
        for t in if w == 0 { 0 } else { 4 }..SPEC_TYPES {
            let mut x = [0; 64];
            tagged(n, t, &mut x);
            let zero = [0; 64];
            for x in [&x[..n], &zero[..n]] {
                for flags in 0..SPEC_FLAGS {
                    if !c.mine() {
                        continue;
                    }
                    let mut go = |w16: usize, p16: usize, given: u8| {
                        let (a, b) = ((w16 as u16).to_be_bytes(), (p16 as u16).to_be_bytes());
                        c.go(FMT_SPEC, w, t, 0, &[x, &[flags, given], &a, &b]);
                    };
                    go(0, 0, 0);
                    for &s in &sizes {
                        go(s, 0, 1);
                        go(0, s, 2);
                        go(s, s, 3);
                    }
                    if flags == 0 || l >= 2 {
                        let top = by(l, [1, 40, 70, 160]);
                        for a in 0..top {
                            for b in 0..top {
                                go(a, b, 3);
                            }
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C10 bounds

#[cfg(not(miri))]
pub fn c10(c: &mut Ctx) {
    use rt::pages;
    const PG: usize = 65536; // covers 4K, 16K and 64K pages
    let area = unsafe {
        let p = pages::mmap(5 * PG);
        pages::protect_none(p, PG);
        pages::protect_none(p.add(4 * PG), PG);
        p
    };
    let lo = unsafe { area.add(PG) };
    let hi = unsafe { area.add(4 * PG) };
    let extra = by(c.level, [8, 40, 130, 600]);
    bounds::<16>(c, 0, lo, hi, extra);
    bounds::<32>(c, 1, lo, hi, extra);
    bounds::<64>(c, 2, lo, hi, extra);
    key_slices(c, lo, hi);
    if c.mine_one() {
        read_only::<aes_crypto::AesBlock>(c, 0, lo, PG);
        read_only::<aes_crypto::AesBlockX2>(c, 1, lo, PG);
        read_only::<aes_crypto::AesBlockX4>(c, 2, lo, PG);
    }
    #[cfg(feature = "hosted")]
    if c.whole && c.mode == crate::trace::Mode::Model && c.oracle == Oracle::Model {
        long_slices::<aes_crypto::AesBlock>(c, 0, false);
        long_slices::<aes_crypto::AesBlockX2>(c, 1, false);
        long_slices::<aes_crypto::AesBlockX4>(c, 2, false);
    }
    #[cfg(all(feature = "hosted", target_pointer_width = "64"))]
    huge(c);
}

/// Operands in memory that cannot be written: slices and keys that are read, and what follows the block in the
/// destination of a store.
#[cfg(not(miri))]
fn read_only<T: Blk>(c: &mut Ctx, w: u8, lo: *mut u8, pg: usize) {
    use rt::pages;
    let n = T::N;
    let ro = unsafe { lo.add(pg) };
    let long = |op| if op == CHAIN_ENC { LONG_CHAIN_ENC } else { LONG_CHAIN_DEC };
    for i in 0..pg {
        unsafe { ro.add(i).write((i as u8).wrapping_mul(29).wrapping_add(7)) }
    }
    unsafe { pages::protect(ro, pg, 1) };
    for len in 0..=n + 130 {
        for off in [0, 1, 16, 4096 - n, 4096 - 1] {
            let s = unsafe { core::slice::from_raw_parts(ro.add(off), len) };
            c.set(TRY_FROM_SLICE, w, 0, 0, &[&s[..len.min(n)]]);
            c.evals += 1;
            c.distinct += 1;
            rt::set_current(&c.cur);
            let got = T::try_from_slice(s);
            rt::clear_current();
            let mut o = Out::new();
            if let Ok(x) = got {
                x.put(&mut o);
            }
            if got.is_ok() != (len >= n) || got.is_ok() && o.bytes() != &s[..n] {
                c.report_result("TryFrom<&[u8]> from memory that is read-only");
            }
        }
        // the block ends where read-only memory begins
        for back in [0, 1, n / 2, 64] {
            if len < n + back {
                continue;
            }
            let d = unsafe { ro.sub(n + back) };
            for i in 0..n + back {
                unsafe { d.add(i).write(i as u8 ^ 0x77) }
            }
            let mut src = [0u8; 64];
            tagged(n, len as u8, &mut src);
            c.set(STORE_SLICE, w, 0, 0, &[&src[..n], &[0x77]]);
            c.evals += 1;
            c.distinct += 1;
            let x = T::ld(&src);
            rt::set_current(&c.cur);
            x.store(unsafe { core::slice::from_raw_parts_mut(d, len) });
            rt::clear_current();
            let ok = |i: usize| unsafe { d.add(i).read() } == if i < n { src[i] } else { i as u8 ^ 0x77 };
            if !(0..n + back).all(ok) {
                c.report_result("store_to a slice whose tail is read-only");
            }
        }
    }
    unsafe { pages::protect(ro, pg, 3) };
    for op in [CHAIN_ENC, CHAIN_DEC] {
        for nk in [1usize, 2, 3, 10, 17, 64] {
            let p = ro as *mut T;
            for i in 0..nk {
                let mut k = [0u8; 64];
                long_key(9, i, &mut k[..n]);
                unsafe { p.add(i).write(T::ld(&k)) }
            }
            unsafe { pages::protect(ro, pg, 1) };
            let mut x = [0u8; 64];
            tagged(n, nk as u8 ^ op, &mut x);
            c.set(long(op), w, 0, 0, &[&x[..n], &(nk as u16).to_be_bytes(), &[9]]);
            c.evals += 1;
            c.distinct += 1;
            let mut got = Out::new();
            rt::set_current(&c.cur);
            T::chain(op, T::ld(&x), unsafe { core::slice::from_raw_parts(p, nk) }).put(&mut got);
            rt::clear_current();
            let mut want = Out::new();
            run_model(&c.cur, &mut want);
            if got.bytes() != want.bytes() {
                c.report_result("chain over read-only keys");
            }
            unsafe { pages::protect(ro, pg, 3) };
        }
    }
}

/// slices longer than 4 GiB, of which only the first bytes may be touched: lengths that would look too short if they
/// were truncated to 31, 32 or 33 bits
#[cfg(all(feature = "hosted", target_pointer_width = "64", not(miri)))]
fn huge(c: &mut Ctx) {
    fn run<T: Blk>(c: &mut Ctx, w: u8, p: *mut u8, len: usize) {
        let n = T::N;
        let mut src = [0u8; 64];
        tagged(n, len as u8, &mut src);
        for i in 0..4096 {
            unsafe { p.add(i).write((i as u8).wrapping_mul(29) ^ w) }
        }
        let mut head = [0u8; 80];
        for (i, h) in head.iter_mut().enumerate() {
            *h = unsafe { p.add(i).read() }
        }
        c.evals += 2;
        c.distinct += 2;
        c.set(TRY_FROM_SLICE, w, 0, 0, &[&head]);
        rt::set_current(&c.cur);
        let got = T::try_from_slice(unsafe { core::slice::from_raw_parts(p, len) });
        rt::clear_current();
        let ok = match got {
            Ok(x) => {
                let mut o = Out::new();
                x.put(&mut o);
                o.bytes() == &head[..n]
            }
            Err(_) => false,
        };
        if !ok {
            c.report_result("TryFrom<&[u8]> of a slice longer than 2^31 bytes");
        }
        c.set(STORE_SLICE, w, 0, 0, &[&src[..n], &head]);
        rt::set_current(&c.cur);
        let x = T::ld(&src);
        let panicked = rt::panics(|| x.store(unsafe { core::slice::from_raw_parts_mut(p, len) }));
        rt::clear_current();
        let mut bad = panicked;
        for i in 0..4096 {
            let want = if i < n { src[i] } else { (i as u8).wrapping_mul(29) ^ w };
            bad |= unsafe { p.add(i).read() } != want;
        }
        if bad {
            c.report_result("store_to into a slice longer than 2^31 bytes");
        }
    }
    const MAX: usize = (1 << 33) + 4096;
    let p = unsafe { rt::pages::reserve(MAX) };
    if p.is_null() {
        return;
    }
    for base in [1usize << 31, 1 << 32, 3 << 31, 1 << 33] {
        if c.mine_one() {
            for len in base - 65..=base + 65 {
                run::<aes_crypto::AesBlock>(c, 0, p, len);
                run::<aes_crypto::AesBlockX2>(c, 1, p, len);
                run::<aes_crypto::AesBlockX4>(c, 2, p, len);
            }
        }
    }
    unsafe { rt::pages::unmap(p, MAX) }
}

#[cfg(not(miri))]
fn bounds<const N: usize>(c: &mut Ctx, w: u8, lo: *mut u8, hi: *mut u8, extra: usize) {
    fn io<T: Blk>(c: &mut Ctx, w: u8, lo: *mut u8, hi: *mut u8, len: usize, end: bool, shift: usize) {
        let n = T::N;
        let l = c.level;
        // place the slice flush with the inaccessible page above, or at a given distance from the one below
        let p = unsafe { if end { hi.sub(len + shift) } else { lo.add(shift) } };
        let fill = |salt: u8| {
            for i in 0..len {
                unsafe { p.add(i).write((i as u8).wrapping_mul(29).wrapping_add(salt)) }
            }
        };
        let pats: &[u8] = if l <= 1 { &[7] } else { &[7, 0x80, 0xff] };
        for &salt in pats {
            // reading
            fill(salt);
            c.set(TRY_FROM_SLICE, w, 0, 0, &[]);
            c.cur.len = len.min(CAP);
            for i in 0..c.cur.len {
                c.cur.data[i] = unsafe { p.add(i).read() };
            }
            rt::set_current(&c.cur);
            c.evals += 1;
            c.distinct += 1;
            let got = T::try_from_slice(unsafe { core::slice::from_raw_parts(p, len) });
            rt::clear_current();
            match got {
                Ok(x) if len >= n => {
                    let mut o = Out::new();
                    x.put(&mut o);
                    if o.bytes() != &c.cur.data[..n] {
                        c.report_result("TryFrom<&[u8]> did not take the first bytes of the slice");
                    }
                }
                Err(e) if len < n && e == len => {}
                _ => c.report_result("TryFrom<&[u8]> accepted/rejected the wrong length or reported a wrong one"),
            }
            if len == n {
                c.evals += 1;
                c.cur.op = FROM_REF;
                rt::set_current(&c.cur);
                let x = T::from_place(unsafe { core::slice::from_raw_parts(p, len) });
                rt::clear_current();
                let mut o = Out::new();
                x.put(&mut o);
                if o.bytes() != &c.cur.data[..n] {
                    c.report_result("From<&[u8; N]> did not take the bytes referred to");
                }
            }
            // writing
            if len >= n || rt::CAN_CATCH {
                fill(salt);
                // canaries around, where they are accessible
                let before = if end { 80.min(unsafe { p.offset_from(lo) } as usize) } else { shift.min(80) };
                let after = 80.min(unsafe { hi.offset_from(p) } as usize - len);
                unsafe {
                    for i in 1..=before {
                        p.sub(i).write(0xc5 ^ i as u8);
                    }
                    for i in 0..after {
                        p.add(len + i).write(0x3a ^ i as u8);
                    }
                }
                let mut src = [0u8; 64];
                tagged(n, salt ^ 0x55, &mut src);
                c.set(STORE_SLICE, w, 0, 0, &[&src[..n]]);
                let ncopy = len.min(CAP - n);
                for i in 0..ncopy {
                    c.cur.data[n + i] = unsafe { p.add(i).read() };
                }
                c.cur.len = n + ncopy;
                rt::set_current(&c.cur);
                c.evals += 1;
                c.distinct += 1;
                let x = T::ld(&src);
                let panicked = if len >= n {
                    x.store(unsafe { core::slice::from_raw_parts_mut(p, len) });
                    false
                } else {
                    rt::panics(|| x.store(unsafe { core::slice::from_raw_parts_mut(p, len) }))
                };
                if panicked != (len < n) {
                    c.report_result("store_to into a too short slice did not panic");
                }
                rt::clear_current();
                let mut bad = false;
                unsafe {
                    for i in 0..len {
                        let old = (i as u8).wrapping_mul(29).wrapping_add(salt);
                        let want = if len >= n && i < n { src[i] } else { old };
                        bad |= p.add(i).read() != want;
                    }
                    for i in 1..=before {
                        bad |= p.sub(i).read() != 0xc5 ^ i as u8;
                    }
                    for i in 0..after {
                        bad |= p.add(len + i).read() != 0x3a ^ i as u8;
                    }
                }
                if bad {
                    c.report_result("store_to changed the wrong bytes");
                }
            }
        }
    }
    let go = |c: &mut Ctx, len: usize, end: bool, shift: usize| match N {
        16 => io::<aes_crypto::AesBlock>(c, w, lo, hi, len, end, shift),
        32 => io::<aes_crypto::AesBlockX2>(c, w, lo, hi, len, end, shift),
        _ => io::<aes_crypto::AesBlockX4>(c, w, lo, hi, len, end, shift),
    };
    // every length, flush with the page above
    for len in 0..=N + extra {
        if c.mine_one() {
            go(c, len, true, 0);
        }
    }
    // every length flush with the page below (odd and even addresses), every small misalignment
    for shift in 0..by(c.level, [1, 17, 64, 64]) {
        if !c.mine_one() {
            continue;
        }
        for len in 0..=N + 40 {
            go(c, len, false, shift);
        }
        for len in 0..=N + 40 {
            go(c, len, true, shift);
        }
    }
    // very long slices
    if c.mine_one() {
        for len in [255, 256, 257, 511, 512, 1000, 4095, 4096, 8192, 32767, 32768, 32775, 65535] {
            go(c, len, true, 0);
            go(c, len, false, 0);
        }
    }
    constant_lengths(&mut |n| {
        if n + N < 190_000 && c.mine_one() {
            for len in [n - 1, n, n + 1, n + N - 1, n + N, n + N + 1] {
                go(c, len, true, 0);
                go(c, len, false, 0);
            }
        }
    });
    // lengths that would look too short if they were truncated to 8, 16 or 17 bits
    for base in [256, 65536, 131072] {
        if c.mine_one() {
            for len in (base..=base + N).step_by(if c.level < 2 { 8 } else { 1 }) {
                go(c, len, true, 0);
                go(c, len, false, 3);
            }
        }
    }
}

/// key slices given to the chains end exactly at an inaccessible page
#[cfg(not(miri))]
fn key_slices(c: &mut Ctx, lo: *mut u8, hi: *mut u8) {
    fn run<T: Blk>(c: &mut Ctx, w: u8, lo: *mut u8, hi: *mut u8) {
        let n = T::N;
        for op in [CHAIN_ENC, CHAIN_DEC] {
            for nk in (1..=40usize).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]) {
                if !c.mine_one() {
                    continue;
                }
                for end in [true, false] {
                    let p = if end { unsafe { hi.sub(n * nk) } } else { lo } as *mut T;
                    let mut x = [0u8; 64];
                    tagged(n, nk as u8 ^ op, &mut x);
                    let lop = if op == CHAIN_ENC { LONG_CHAIN_ENC } else { LONG_CHAIN_DEC };
                    c.set(lop, w, 0, 0, &[&x[..n], &(nk as u16).to_be_bytes(), &[7]]);
                    for i in 0..nk {
                        let mut k = [0u8; 64];
                        long_key(7, i, &mut k[..n]);
                        unsafe { p.add(i).write(T::ld(&k)) }
                    }
                    rt::set_current(&c.cur);
                    c.evals += 1;
                    c.distinct += 1;
                    let mut got = Out::new();
                    T::chain(op, T::ld(&x), unsafe { core::slice::from_raw_parts(p, nk) }).put(&mut got);
                    rt::clear_current();
                    let mut want = Out::new();
                    run_model(&c.cur, &mut want);
                    if got.bytes() != want.bytes() {
                        c.report_result("chain result");
                    }
                }
            }
        }
    }
    run::<aes_crypto::AesBlock>(c, 0, lo, hi);
    run::<aes_crypto::AesBlockX2>(c, 1, lo, hi);
    run::<aes_crypto::AesBlockX4>(c, 2, lo, hi);
}

/// bytes in an allocation of exactly their size that is aligned like the widest vectors
#[cfg(miri)]
struct Exact(*mut u8, usize);
#[cfg(miri)]
impl Exact {
    fn new(n: usize, f: impl Fn(usize) -> u8) -> Self {
        let p = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align(n.max(1), 64).unwrap()) };
        for i in 0..n {
            unsafe { p.add(i).write(f(i)) }
        }
        Exact(p, n)
    }
}
#[cfg(miri)]
impl core::ops::Deref for Exact {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { core::slice::from_raw_parts(self.0, self.1) }
    }
}
#[cfg(miri)]
impl core::ops::DerefMut for Exact {
    fn deref_mut(&mut self) -> &mut [u8] {
        unsafe { core::slice::from_raw_parts_mut(self.0, self.1) }
    }
}
#[cfg(miri)]
impl Drop for Exact {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.0, std::alloc::Layout::from_size_align(self.1.max(1), 64).unwrap()) }
    }
}

/// In the interpreter every access is checked against its allocation: exact-size heap slices, every length.
#[cfg(miri)]
pub fn c10(c: &mut Ctx) {
    fn run<T: Blk>(c: &mut Ctx, w: u8) {
        let n = T::N;
        for len in 0..=n + 9 {
            for off in [0usize, 1, 4, 8, 16, 32, 48] {
                // at every alignment near the interesting lengths only
                if off > 1 && len + 9 < n && len % 8 != 0 || !c.mine_one() {
                    continue;
                }
                let v = Exact::new(len + off, |i| (i * 29 + 7) as u8);
                let s = &v[off..];
                c.set(TRY_FROM_SLICE, w, 0, 0, &[s]);
                c.check();
                let mut d = Exact::new(len + off, |i| v[i]);
                let mut src = [0u8; 64];
                tagged(n, len as u8, &mut src);
                c.set(STORE_SLICE, w, 0, 0, &[&src[..n], s]);
                c.evals += 1;
                c.distinct += 1;
                rt::set_current(&c.cur);
                let x = T::ld(&src);
                let p = rt::panics(|| x.store(&mut d[off..]));
                rt::clear_current();
                let mut want = v.to_vec();
                if len >= n {
                    want[off..off + n].copy_from_slice(&src[..n]);
                }
                if p != (len < n) || d[..] != want[..] {
                    c.report_result("store_to at a slice boundary");
                }
            }
        }
        for op in [CHAIN_ENC, CHAIN_DEC] {
            for nk in [1usize, 2, 5] {
                if !c.mine_one() {
                    continue;
                }
                let mut x = [0u8; CAP];
                tagged(n * (nk + 1), nk as u8 ^ op, &mut x);
                let keys: Box<[T]> = (0..nk).map(|i| T::ld(&x[n * (i + 1)..])).collect();
                c.set(op, w, 0, 0, &[&x[..n * (nk + 1)]]);
                c.evals += 1;
                c.distinct += 1;
                let mut got = Out::new();
                T::chain(op, T::ld(&x), &keys).put(&mut got);
                let mut want = Out::new();
                run_model(&c.cur, &mut want);
                if got.bytes() != want.bytes() {
                    c.report_result("chain result");
                }
            }
        }
    }
    run::<aes_crypto::AesBlock>(c, 0);
    run::<aes_crypto::AesBlockX2>(c, 1);
    run::<aes_crypto::AesBlockX4>(c, 2);
}

// ---------------------------------------------------------------- all together, at reduced level

/// the same fixed space on every backend: its digest must be the same everywhere
pub fn all_small(c: &mut Ctx) {
    let l = c.level;
    c.level = l.min(1);
    c.whole = false;
    c01(c);
    c02(c);
    c03(c);
    c04(c);
    c05(c);
    c06(c);
    c07(c);
    c08(c);
    c09(c);
    c14(c);
    // debug output of cipher objects: part of the interface all backends share
    for p in 0..8u8 {
        let k = rm::KEYLEN[(p & 3).min(2) as usize];
        for r in [R_ENC, R_DEC, R_ENC_TO_DEC, R_DEC_TO_ENC] {
            if p & 3 == 3 || !c.mine() {
                continue;
            }
            for kb in 0..by(c.level, [1, 8, 8, 8]) {
                c.go(SHOW, 0, p, r, &[&base_key(kb)[..k]]);
            }
        }
    }
    c.level = l;
}

/// what depends on no formatter
pub fn most(c: &mut Ctx) {
    c.whole = false;
    c01(c);
    c02(c);
    c03(c);
    c04(c);
    c05(c);
    c06(c);
    c07(c);
    c08(c);
    c09(c);
}

/// a small space for recorders that slow execution down ten-thousandfold: every kind of operation, special operands
pub fn machine(c: &mut Ctx) {
    let l = c.level;
    for kl in 0..3u8 {
        let k = rm::KEYLEN[kl as usize];
        for r in [R_ENC, R_DEC, R_ENC_TO_DEC, R_DEC_TO_ENC] {
            for w in 0..3u8 {
                let n = WN[w as usize];
                for group in 0..by(l, [1, 1, 1, 3]) {
                    if !c.mine() {
                        continue;
                    }
                    for i in 0..8 {
                        let mut x = [0u8; 64];
                        for j in 0..4 {
                            x[16 * j..16 * j + 16].copy_from_slice(&BASE[(i + 3 + j * group) % 8]);
                        }
                        c.go(CIPHER, w, kl, r, &[&base_key(i)[..k], &x[..n]]);
                    }
                    // special bytes one at a time; the positions are shared out among widths and routes
                    for i in 0..k + n {
                        if l == 3 || i % 12 == (r as usize + w as usize * 4 + group) % 12 {
                            let old = c.cur.data[i];
                            for &v in &FEW[..by(l, [1, 1, 2, 4])] {
                                c.cur.data[i] = v;
                                c.check();
                            }
                            c.cur.data[i] = old;
                        }
                    }
                }
            }
        }
    }
    c.level = 0;
    c05(c);
    c06(c);
    c07(c);
    c08(c);
    c09(c);
    c.level = l;
}

fn nothing(_: &mut Ctx) {}

pub type Suite = fn(&mut Ctx);
pub static SUITES: &[(&str, Suite)] = &[
    ("nothing", nothing),
    ("enc", c01),
    ("dec", c02),
    ("convert", c03),
    ("wide", c04),
    ("prim", c05),
    ("columns", c05_columns),
    ("chain", c06),
    ("empty", c06_empty),
    #[cfg(feature = "hosted")]
    ("longchain", c06_very_long),
    ("widerounds", c07),
    ("bits", c08),
    ("conv", c09),
    ("bounds", c10),
    ("fmt", c14),
    ("all", all_small),
    ("most", most),
    ("machine", machine),
    #[cfg(all(feature = "hosted", not(miri)))]
    ("histories", crate::purity::histories),
    #[cfg(all(feature = "hosted", not(miri)))]
    ("walk", crate::purity::walk),
    #[cfg(all(feature = "hosted", not(miri)))]
    ("first", crate::purity::first),
    #[cfg(all(feature = "hosted", not(miri)))]
    ("monitor", crate::purity::monitor),
    #[cfg(all(feature = "hosted", not(miri), target_arch = "x86_64"))]
    ("preempt", crate::purity::preempt),
    #[cfg(all(feature = "hosted", not(miri), target_arch = "x86_64"))]
    ("watch", crate::purity::watch),
];

/// these explore in child processes
#[cfg(all(feature = "hosted", not(miri)))]
pub const FORKING: [&str; 6] = ["histories", "walk", "first", "monitor", "preempt", "watch"];

pub fn find(name: &str) -> Option<Suite> {
    SUITES.iter().find(|x| x.0 == name).map(|x| x.1)
}

pub fn unknown(name: &str) -> ! {
    say!("CRASH unknown suite {}", name);
    rt::exit(2)
}
