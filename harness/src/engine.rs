//! The explorer: runs a case on the real code and on the model, compares, counts, reports.

use crate::ops::*;
use crate::refmodel as rm;
use crate::rt;
use crate::trace::{self, Mode};
use core::fmt::Write;
use core::sync::atomic::{AtomicU32, Ordering};

/// Set of case hashes seen, as a bitmap: the number of bits set is a lower bound of the number of distinct cases.
pub struct Seen<'a> {
    pub bits: &'a [AtomicU32],
}

impl Seen<'_> {
    #[inline]
    fn insert(&self, h: u64) -> bool {
        let n = self.bits.len() as u64 * 32;
        // multiply-shift range reduction
        let i = ((h as u128 * n as u128) >> 64) as u64;
        let b = 1u32 << (i & 31);
        let w = &self.bits[(i >> 5) as usize];
        if w.load(Ordering::Relaxed) & b != 0 {
            return false;
        }
        #[cfg(feature = "hosted")]
        {
            w.fetch_or(b, Ordering::Relaxed) & b == 0
        }
        #[cfg(not(feature = "hosted"))]
        {
            w.store(w.load(Ordering::Relaxed) | b, Ordering::Relaxed);
            true
        }
    }
}

#[inline]
pub fn hash(seed: u64, d: &[u8]) -> u64 {
    let mut h = seed ^ 0x9e37_79b9_7f4a_7c15;
    let mut it = d.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes(c.try_into().unwrap());
        h = (h ^ v).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 32;
    }
    for &b in it.remainder() {
        h = (h ^ b as u64).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        h ^= h >> 29;
    }
    h = (h ^ d.len() as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
    h ^ (h >> 33)
}

/// 0: interpreter (Miri), 1: emulator, 2: native quick, 3: native thorough
pub type Level = u8;

pub struct Ctx<'a> {
    pub level: Level,
    /// this suite alone is run, not as part of `all`
    pub whole: bool,
    pub shard: u64,
    pub shards: u64,
    unit: u64,
    pub evals: u64,
    pub distinct: u64,
    pub states: u64,
    pub transitions: u64,
    pub fails: u32,
    pub digest: u64,
    pub samples: u32,
    pub seen: Seen<'a>,
    pub mode: Mode,
    pub oracle: Oracle,
    /// results that differ from the model's although the property holds (some other property does not)
    pub others: u64,
    pub cur: Case,
    out_i: Out,
    out_m: Out,
}

/// What a result is compared with.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Oracle {
    /// the reference model
    Model,
    /// the model; where it disagrees, what the property refers to: the directly built object, the single-block
    /// operation, the fold of single rounds - computed by the implementation
    Relative,
    /// nothing here: the digest of all results is compared by the driver
    Digest,
    /// the model; where it disagrees, the same operation alone in a fresh process
    Fresh,
}

#[cold]
#[inline(never)]
fn excused(o: Oracle, c: &Case, got: &Out) -> bool {
    match o {
        Oracle::Model | Oracle::Digest => false,
        Oracle::Relative => {
            let mut want = Out::new();
            run_relative(c, &mut want) && want.bytes() == got.bytes()
        }
        #[cfg(all(feature = "hosted", not(miri)))]
        Oracle::Fresh => crate::purity::fresh(c).as_deref() == Some(got.bytes()),
        #[cfg(not(all(feature = "hosted", not(miri))))]
        Oracle::Fresh => false,
    }
}

pub const MAX_REPORT: u32 = 3;

pub fn print_hex(o: &mut rt::Line, d: &[u8]) {
    for b in d {
        let _ = write!(o, "{b:02x}");
    }
}

pub fn describe(o: &mut rt::Line, c: &Case) {
    let _ = write!(o, "op={} w={} p={} route={} data=", c.name(), c.w, c.p, c.route);
    print_hex(o, c.bytes());
}

impl<'a> Ctx<'a> {
    pub fn new(level: Level, shard: u64, shards: u64, bits: &'a [AtomicU32]) -> Self {
        Ctx {
            level,
            whole: true,
            shard,
            shards,
            unit: 0,
            evals: 0,
            distinct: 0,
            states: 0,
            transitions: 0,
            fails: 0,
            digest: 0,
            samples: 0,
            seen: Seen { bits },
            mode: Mode::Model,
            oracle: Oracle::Model,
            others: 0,
            cur: Case::new(0, 0, 0),
            out_i: Out::new(),
            out_m: Out::new(),
        }
    }

    /// Work is split into units, dealt round robin to the shards.
    #[inline]
    pub fn mine(&mut self) -> bool {
        let u = self.unit;
        self.unit += 1;
        u % self.shards == self.shard && self.fails < MAX_REPORT
    }

    /// as `mine`; a separate name for units that are not evaluated through `check`
    #[inline]
    pub fn mine_one(&mut self) -> bool {
        self.mine()
    }

    pub fn stop(&self) -> bool {
        self.fails >= MAX_REPORT
    }

    /// Evaluate `self.cur`.
    #[inline]
    pub fn check(&mut self) {
        if self.fails >= MAX_REPORT || (matches!(self.mode, Mode::Sancov | Mode::Step) && trace::public(self.cur.op)) {
            return;
        }
        self.evals += 1;
        let c = &self.cur;
        let seed = c.op as u64 | (c.w as u64) << 8 | (c.p as u64) << 16 | (c.route as u64) << 24;
        let h = hash(seed.wrapping_mul(0x2545_f491_4f6c_dd1d), c.bytes());
        if self.seen.insert(h) {
            self.distinct += 1;
        }
        match self.mode {
            Mode::Model => {
                rt::set_current(c);
                run_impl(c, &mut self.out_i);
                rt::clear_current();
            }
            Mode::Ambient => {
                rt::set_current(c);
                crate::ambient::run(c, &mut self.out_m, 0);
                crate::ambient::run(c, &mut self.out_i, 1);
                rt::clear_current();
                if self.out_m.bytes() != self.out_i.bytes() {
                    self.report_as("ambient");
                } else {
                    self.sample();
                }
                return;
            }
            Mode::Placed | Mode::Moved => {
                self.check_placed();
                return;
            }
            #[cfg(all(feature = "hosted", not(miri)))]
            Mode::Watch => crate::purity::check_watch(c, &mut self.out_i),
            _ => {
                #[cfg(all(feature = "hosted", not(miri)))]
                if self.evals % 256 == 1 {
                    rt::arm(200);
                }
                self.check_trace();
                return;
            }
        }
        self.digest = self.digest.wrapping_add(hash(h, self.out_i.bytes()));
        if self.oracle == Oracle::Digest {
            return;
        }
        run_model(c, &mut self.out_m);
        if self.out_i.bytes() != self.out_m.bytes() {
            if excused(self.oracle, &self.cur, &self.out_i) {
                self.others += 1;
            } else {
                self.report();
            }
        } else {
            self.sample();
        }
    }

    #[inline]
    fn sample(&mut self) {
        if self.samples < 2 && self.evals % 1009 == 7 {
            self.samples += 1;
            let mut l = rt::Line::new();
            let _ = write!(l, "SAMPLE ");
            describe(&mut l, &self.cur);
            let _ = write!(l, " result=");
            print_hex(&mut l, self.out_i.bytes());
            l.flush();
        }
    }

    #[inline(never)]
    fn check_placed(&mut self) {
        rt::set_current(&self.cur);
        if self.mode == Mode::Placed {
            run_model(&self.cur, &mut self.out_m);
        } else {
            crate::place::run(&self.cur, &mut self.out_m, 0);
        }
        self.evals += crate::place::PLACES as u64 - 1;
        for i in 0..crate::place::PLACES {
            crate::place::run(&self.cur, &mut self.out_i, i);
            if self.out_i.bytes() != self.out_m.bytes() {
                if self.mode == Mode::Placed && excused(self.oracle, &self.cur, &self.out_i) {
                    self.others += 1;
                    continue;
                }
                rt::clear_current();
                return self.report_as("placement");
            }
        }
        rt::clear_current();
        self.sample();
    }

    #[inline(never)]
    fn check_trace(&mut self) {
        match trace::check_trace(&mut self.cur, &mut self.out_i, &mut self.out_m.data) {
            Ok((h, n)) => {
                if self.samples < 2 && self.evals % 1009 == 7 {
                    self.samples += 1;
                    let mut l = rt::Line::new();
                    let _ = write!(l, "SAMPLE ");
                    describe(&mut l, &self.cur);
                    let _ = write!(l, " trace={h:016x} events={n}");
                    l.flush();
                }
            }
            Err(note) => self.report_note("trace", note.text()),
        }
    }

    pub fn report(&mut self) {
        self.report_as("mismatch")
    }

    fn report_as(&mut self, kind: &str) {
        self.fails += 1;
        let mut l = rt::Line::new();
        let _ = write!(l, "VIOL kind={kind} ");
        describe(&mut l, &self.cur);
        let _ = write!(l, " expected=");
        print_hex(&mut l, self.out_m.bytes());
        let _ = write!(l, " got=");
        print_hex(&mut l, self.out_i.bytes());
        l.flush();
    }

    /// a result computed by other means than `check`
    #[allow(dead_code)]
    pub fn result(&mut self, r: &Out) {
        self.digest = self.digest.wrapping_add(hash(hash(0, self.cur.bytes()), r.bytes()));
    }

    /// a defect in a result, as opposed to a panic or a crash
    pub fn report_result(&mut self, note: &str) {
        if self.oracle == Oracle::Digest {
            self.digest = self.digest.wrapping_add(hash(note.len() as u64, self.cur.bytes()));
            self.others += 1;
        } else {
            self.report_note("mismatch", note);
        }
    }

    pub fn report_note(&mut self, kind: &str, note: &str) {
        self.fails += 1;
        let mut l = rt::Line::new();
        let _ = write!(l, "VIOL kind={kind} ");
        describe(&mut l, &self.cur);
        let _ = write!(l, " note={note}");
        l.flush();
    }

    /// set up `cur` from parts and evaluate it
    #[inline]
    pub fn go(&mut self, op: u8, w: u8, p: u8, route: u32, parts: &[&[u8]]) {
        self.set(op, w, p, route, parts);
        self.check();
    }

    #[inline]
    pub fn set(&mut self, op: u8, w: u8, p: u8, route: u32, parts: &[&[u8]]) {
        self.cur.op = op;
        self.cur.w = w;
        self.cur.p = p;
        self.cur.route = route;
        self.cur.len = 0;
        for x in parts {
            self.cur.push(x);
        }
    }

    /// `cur` holds a base case: evaluate it with every byte of data[from..to] set to every value of `vals`
    pub fn dev1(&mut self, from: usize, to: usize, vals: &[u8]) {
        for i in from..to {
            if !self.mine() {
                continue;
            }
            let old = self.cur.data[i];
            for &v in vals {
                self.cur.data[i] = v;
                self.check();
            }
            self.cur.data[i] = old;
        }
    }

    /// every pair of bytes in from..to set to every pair of values of `vals`
    pub fn dev2(&mut self, from: usize, to: usize, vals: &[u8]) {
        for i in from..to {
            for j in i + 1..to {
                self.pair(i, j, vals);
            }
        }
    }

    pub fn pair(&mut self, i: usize, j: usize, vals: &[u8]) {
        if !self.mine() {
            return;
        }
        let (oi, oj) = (self.cur.data[i], self.cur.data[j]);
        for &v in vals {
            self.cur.data[i] = v;
            for &u in vals {
                self.cur.data[j] = u;
                self.check();
            }
            if self.stop() {
                return;
            }
        }
        self.cur.data[i] = oi;
        self.cur.data[j] = oj;
    }

    /// all 2^16 blocks over the byte alphabet {u, v}, at data[at..at+16]
    pub fn binary(&mut self, at: usize, u: u8, v: u8) {
        for hi in 0..256u32 {
            if !self.mine() {
                continue;
            }
            for lo in 0..256u32 {
                let m = hi << 8 | lo;
                for i in 0..16 {
                    self.cur.data[at + i] = if m >> i & 1 == 1 { v } else { u };
                }
                self.check();
            }
        }
    }

    /// all blocks made of four 32-bit words from `alpha`, at data[at..at+16]
    pub fn words(&mut self, at: usize, alpha: &[u32]) {
        for &a in alpha {
            for &b in alpha {
                if !self.mine() {
                    continue;
                }
                for &c in alpha {
                    for &d in alpha {
                        self.cur.data[at..at + 4].copy_from_slice(&a.to_be_bytes());
                        self.cur.data[at + 4..at + 8].copy_from_slice(&b.to_be_bytes());
                        self.cur.data[at + 8..at + 12].copy_from_slice(&c.to_be_bytes());
                        self.cur.data[at + 12..at + 16].copy_from_slice(&d.to_be_bytes());
                        self.check();
                    }
                }
            }
        }
    }

    /// record the states of the model trace of an encryption/decryption (explicit-state accounting)
    pub fn trace_states(&mut self, kl: u8, s: &rm::Schedule, pt: &rm::B) {
        let seen = &self.seen;
        let (mut st, mut tr) = (0, 0);
        s.encrypt_visit(pt, &mut |r, x| {
            tr += 1;
            let h = hash((r as u64) << 8 | kl as u64 | 0x5555_0000_0000, x);
            if seen.insert(hash(h, &s.rk(r))) {
                st += 1;
            }
        });
        self.states += st;
        self.transitions += tr;
    }

    pub fn finish(&self) {
        let mut l = rt::Line::new();
        let _ = write!(
            l,
            "STAT shard={} evals={} distinct={} states={} transitions={} fails={} digest={:016x}",
            self.shard, self.evals, self.distinct, self.states, self.transitions, self.fails, self.digest
        );
        if self.others > 0 {
            let _ = write!(l, " of_other_properties={}", self.others);
        }
        if trace::events() > 0 {
            let (e, b) = unsafe { (trace::EVENTS, trace::BASELINES) };
            let _ = write!(l, " events={e} standards={b}");
        }
        #[cfg(feature = "hosted")]
        if self.shard == 0 && crate::place::seen() > 0 {
            let _ = write!(l, " placements={}", crate::place::seen());
        }
        l.flush();
    }
}
