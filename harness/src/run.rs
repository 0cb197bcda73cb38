//! Which property is checked how, and the worker loop.

use std::io::Write as _;

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

use crate::base::*;
use crate::case::*;
use crate::engine::*;
use crate::extra::*;
use crate::hist::*;
use crate::rec::Rec;

pub const IDS: [&str; 23] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23",
];

const MIX: [(u8, u32); 21] = [
    (K_ROOT, 6), (K_CREATE, 24), (K_INSERT, 22), (K_DETACH, 6), (K_DSINGLE, 6), (K_REMOVE, 7), (K_RMPANIC, 3),
    (K_SET, 5), (K_CLONE, 4), (K_FOREIGN, 2), (K_FORK, 2), (K_NEWF, 1), (K_SWITCH, 2), (K_DROPF, 1), (K_CHAIN, 4),
    (K_NEST, 3), (K_MISUSE, 5), (K_GROW, 5), (K_PRUNE, 1), (K_CLONEPANIC, 2), (K_TOUCH, 2),
];
const OVER: [(u8, u32); 18] = [
    (K_ROOT, 10), (K_CREATE, 24), (K_INSERT, 12), (K_DETACH, 3), (K_DSINGLE, 3), (K_REMOVE, 6), (K_RMPANIC, 2),
    (K_SET, 2), (K_CLONE, 12), (K_FOREIGN, 2), (K_FORK, 2), (K_SWITCH, 2), (K_CHAIN, 8), (K_NEST, 8), (K_MISUSE, 4),
    (K_GROW, 30), (K_PRUNE, 1), (K_TOUCH, 2),
];

/// Generators of a property, with the share of the random cases each gets.
pub fn gens(prop: &str) -> Vec<(u32, Gen)> {
    let mut ids: Vec<u8> = vec![0, 0, 0, 1, 2];
    if matches!(prop, "C16" | "C21") {
        ids.extend(3..NIDS);
    }
    let g = |w: &[(u8, u32)], max_ops: usize, max_prog: usize, big: u32| Gen {
        weights: w.to_vec(),
        max_ops,
        max_prog,
        modes: 1,
        big,
        ids: ids.clone(),
        huge: 0,
        long: 0,
        twin: false,
    };
    // Long histories on few nodes.
    let long = |w: &[(u8, u32)], n: u64| {
        let mut x = g(w, 2400, 4, 0);
        x.ids = vec![0, 0, 2];
        x.long = n;
        (0, x)
    };
    let huge = |w: &[(u8, u32)], n: u64| {
        let mut x = g(w, 7, 4, 0);
        x.ids = vec![0, 0, 0, 2];
        x.huge = n;
        (0, x)
    };
    match prop {
        "C09" | "C10" | "C11" | "C12" => vec![
            (7, g(&TRAV_WEIGHTS, 24, 24, 0)),
            (2, g(&TRAV_WEIGHTS, 60, 24, 0)),
            (1, g(&TRAV_WEIGHTS, 12, 24, 2)),
            {
                let mut h = huge(&TRAV_WEIGHTS, 16);
                h.1.max_prog = 24;
                h
            },
        ],
        "C16" => {
            let mut small = g(&OVER, 60, 8, 3);
            small.ids = vec![1];
            vec![(3, g(&MIX, 36, 12, 0)), (4, small), huge(&MIX, 40), long(&MIX, 10)]
        }
        "C17" => {
            let mut a = g(&TRAV_WEIGHTS, 30, 24, 0);
            a.modes = 2;
            let mut b = g(&TRAV_WEIGHTS, 16, 24, 1);
            b.modes = 2;
            let mut h = huge(&TRAV_WEIGHTS, 20);
            h.1.max_prog = 24;
            vec![(9, a), (1, b), h]
        }
        "C19" => {
            let mut h = g(&MIX, 30, 12, 1);
            h.ids = vec![0, 1];
            vec![(1, h)]
        }
        "C20" => vec![(8, g(&MIX, 30, 14, 0)), (1, g(&MIX, 80, 14, 1)), huge(&MIX, 40), long(&MIX, 10)],
        "C21" => vec![(6, g(&MIX, 36, 12, 0)), (1, g(&MIX, 16, 12, 1)), (1, g(&OVER, 40, 8, 2)), huge(&MIX, 40), long(&MIX, 10)],
        "C22" => {
            let mut a = g(&MIX, 24, 24, 0);
            a.modes = 6;
            let mut b = g(&MIX, 60, 24, 0);
            b.modes = 6;
            vec![(5, a), (2, b)]
        }
        "C23" => {
            let mut a = g(&MIX, 30, 10, 0);
            let mut b = g(&MIX, 90, 10, 1);
            let mut h = huge(&MIX, 12);
            let mut l = long(&MIX, 10);
            for x in [&mut a, &mut b, &mut h.1, &mut l.1] {
                x.modes = 4;
            }
            l.1.max_prog = 10;
            let mut o = g(&OVER, 40, 10, 2);
            o.ids = vec![1];
            o.modes = 4;
            vec![(6, a), (2, b), (1, o), h, l]
        }
        p => {
            let w = profile(p).map(|p| p.weights).unwrap_or(&MIX);
            if p == "C14" {
                let mut t = g(w, 24, 4, 0);
                t.twin = true;
                let mut n = g(w, 28, 4, 0);
                n.modes = 2;
                return vec![(6, n), (3, g(w, 80, 4, 0)), (4, t), (1, g(w, 24, 4, 2)), huge(w, 120), long(w, 60)];
            }
            vec![(8, g(w, 28, 4, 0)), (3, g(w, 80, 4, 0)), (1, g(w, 24, 4, 2)), huge(w, 120), long(w, 60)]
        }
    }
}

/// Random cases per worker.
pub fn cases(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "C09" | "C10" => 2500,
        "C11" | "C12" => 3000,
        "C16" => 1500,
        "C17" => 5000,
        "C19" => 2500,
        "C20" => 3000,
        "C21" => 2500,
        "C22" => 1000,
        "C23" => 1000,
        _ => 6000,
    };
    if thorough { q * 25 } else { q }
}

pub fn run_case(prop: &str, case: &Case, rec: &mut Rec) -> Res {
    match prop {
        "C09" | "C10" | "C11" | "C12" => traversal(prop, case, rec),
        "C16" => c16(case, rec),
        "C17" => c17(case, rec),
        "C19" => c19(case, rec),
        "C20" => c20(case, rec),
        "C21" => {
            let (h, d) = c21_digest(case, rec.want_trace);
            rec.eval(1);
            if d.hashes.len() > 6 {
                rec.nontrivial(hash_of(&(case.id, &case.ops)));
            }
            if let Some(f) = &d.fail {
                rec.foreign(format!("{:?}", f.cat));
            }
            rec.trace = d.trace;
            rec.trace.push(format!("digest {h:016x}"));
            Ok(())
        }
        "C23" => crate::mem::c23(case, rec),
        #[cfg(feature = "conc")]
        "C22" => crate::conc::c22_any(case, rec),
        p => history(profile(p).expect("property"), case, rec),
    }
}

pub fn enumerated(prop: &str, thorough: bool, out: &mut dyn FnMut(Case) -> bool) {
    match prop {
        "C09" | "C10" | "C11" | "C12" => enumerate_trav(prop, thorough, out),
        "C16" => enumerate_c16(thorough, out),
        "C17" => enumerate_c17(thorough, out),
        "C19" => enumerate_c19(thorough, out),
        "C20" => enumerate_c20(thorough, out),
        "C21" => {
            // Every edit on every small forest, in both builds.
            let n = if thorough { 5 } else { 4 };
            let mut i = 0usize;
            for size in 1..=n {
                for fo in forests(size) {
                    for v in 0..2 {
                        let base = build_ops(&fo, v);
                        let kinds = [K_CREATE, K_INSERT, K_DETACH, K_DSINGLE, K_REMOVE, K_RMPANIC, K_CLONE, K_SET, K_TOUCH];
                        for e in all_edits(size, &kinds, size < 4) {
                            i += 1;
                            let mut ops = base.clone();
                            ops.push(e);
                            if !out(Case { id: (i % 7) as u8, mode: 0, ops, prog: vec![i as u16, 3, 8] }) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        "C23" => crate::mem::enumerate_c23(thorough, out),
        #[cfg(feature = "conc")]
        "C22" => crate::conc::enumerate_c22(thorough, out),
        p => enumerate(profile(p).expect("property"), thorough, out),
    }
}

fn share(g: &Gen, n: u64, thorough: bool) -> u64 {
    match g.huge + g.long {
        0 => n.max(1),
        k if thorough => k * 15,
        k => k,
    }
}

pub struct Found {
    pub case: Case,
    pub fail: Fail,
    pub how: &'static str,
}

/// Everything a worker does. `each` is told of every case before it runs.
pub struct Worker<'a> {
    pub prop: &'a str,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub thorough: bool,
    pub scale: u64,
    pub do_enum: bool,
    pub journal: Option<std::fs::File>,
    pub rec: Rec,
    /// Digest of each case (C21).
    pub digests: Option<std::io::BufWriter<std::fs::File>>,
    pub fuzzed: u64,
}

impl Worker<'_> {
    fn one(&mut self, case: &Case) -> Res {
        if let Some(j) = &mut self.journal {
            use std::io::{Seek, SeekFrom};
            let t = case.text();
            let _ = j.seek(SeekFrom::Start(0));
            let _ = j.set_len(0);
            let _ = j.write_all(t.as_bytes());
        }
        let few = self.rec.samples.len() < 2 || (self.rec.samples.len() < 4 && self.rec.evaluations > 500);
        self.rec.want_trace = !self.rec.frozen && few;
        let before = self.rec.nontrivial_runs;
        if let Some(d) = &mut self.digests {
            let (h, g) = c21_digest(case, self.rec.want_trace);
            let _ = writeln!(d, "{h:016x}");
            self.rec.eval(1);
            if g.hashes.len() > 6 {
                self.rec.nontrivial(hash_of(&(case.id, &case.ops)));
            }
            if let Some(f) = &g.fail {
                self.rec.foreign(format!("{:?}", f.cat));
            }
            self.rec.trace = g.trace;
            if self.rec.nontrivial_runs > before {
                self.rec.sample();
            }
            self.rec.trace.clear();
            return Ok(());
        }
        let r = run_case(self.prop, case, &mut self.rec);
        if self.rec.nontrivial_runs > before {
            self.rec.sample();
        }
        self.rec.trace.clear();
        r
    }

    fn runner(&self, salt: u64) -> TestRunner {
        let key = hash_of(&(self.seed, self.prop, self.shard, salt));
        let mut seed = [0u8; 32];
        for (i, b) in seed.iter_mut().enumerate() {
            *b = (hash_of(&(key, i as u64)) >> 24) as u8;
        }
        let cfg = Config { failure_persistence: None, ..Config::default() };
        TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
    }

    /// The cases of this worker in order (C21), without running them.
    pub fn each_case(&mut self, f: &mut dyn FnMut(&Case) -> bool) {
        let (shard, shards) = (self.shard, self.shards);
        let mut i = 0u64;
        let mut more = true;
        if self.do_enum {
            enumerated(self.prop, self.thorough, &mut |case| {
                i += 1;
                if i % shards == shard {
                    more = f(&case);
                }
                more
            });
        }
        let total = cases(self.prop, self.thorough) * self.scale / 100;
        let gs = gens(self.prop);
        let sum: u32 = gs.iter().map(|g| g.0).sum();
        for (k, (w, g)) in gs.into_iter().enumerate() {
            let strat = g.strategy();
            let mut runner = self.runner(k as u64);
            for _ in 0..share(&g, total * w as u64 / sum as u64, self.thorough) {
                if !more {
                    return;
                }
                more = f(&strat.new_tree(&mut runner).expect("generator").current());
            }
        }
    }

    pub fn run(&mut self) -> Option<Found> {
        // Exhaustive part, dealt out to the shards.
        if self.do_enum {
            let (prop, th, shard, shards) = (self.prop, self.thorough, self.shard, self.shards);
            let mut i = 0u64;
            let mut found = None;
            enumerated(prop, th, &mut |case| {
                i += 1;
                if i % shards != shard {
                    return true;
                }
                match self.one(&case) {
                    Ok(()) => true,
                    Err(fail) => {
                        found = Some(Found { case, fail, how: "enumerated" });
                        false
                    }
                }
            });
            self.rec.class_n("enumerated cases", self.rec.evaluations);
            if let Some(f) = found {
                return Some(self.shrink_plain(f));
            }
        }
        // Random part.
        let total = cases(self.prop, self.thorough) * self.scale / 100;
        let gs = gens(self.prop);
        let sum: u32 = gs.iter().map(|g| g.0).sum();
        for (k, (w, g)) in gs.into_iter().enumerate() {
            let modes = g.modes;
            let strat = g.strategy();
            let mut runner = self.runner(k as u64);
            let n = share(&g, total * w as u64 / sum as u64, self.thorough);
            for i in 0..n {
                let mut tree = strat.new_tree(&mut runner).expect("generator");
                let fix = |mut c: Case| {
                    if self.prop == "C16" {
                        // The two generators stand for two modes; some cases look at IDs alone.
                        c.mode = if k == 1 { 3 } else if i % 8 == 7 { 1 } else { 0 };
                    }
                    if self.prop == "C19" && i % 5 == 4 {
                        c.mode = 1;
                        c.prog.resize(12, 5);
                        c.prog[1] %= 6000;
                    }
                    let _ = modes;
                    c
                };
                let case = fix(tree.current());
                if let Err(fail) = self.one(&case) {
                    // Shrink by the library, then by plain deletion.
                    self.rec.frozen = true;
                    let mut best = Found { case, fail, how: "random" };
                    let mut iters = 0;
                    let t0 = std::time::Instant::now();
                    let mut go = tree.simplify();
                    while go && iters < 3000 && t0.elapsed().as_secs() < 40 {
                        iters += 1;
                        let c = {
                            let mut c = tree.current();
                            c.mode = best.case.mode;
                            if self.prop == "C19" && c.mode == 1 {
                                c.prog.resize(12, 5);
                                c.prog[1] %= 6000;
                            }
                            c
                        };
                        match self.one(&c) {
                            Err(f) => {
                                best = Found { case: c, fail: f, how: "random" };
                                go = tree.simplify();
                            }
                            Ok(()) => go = tree.complicate(),
                        }
                    }
                    return Some(self.shrink_plain(best));
                }
            }
        }
        None
    }

    /// Deletes operations and lowers numbers while the case still fails.
    pub fn shrink_plain(&mut self, mut best: Found) -> Found {
        self.rec.frozen = true;
        let mut left = 1500;
        let t0 = std::time::Instant::now();
        let mut progress = true;
        while progress && left > 0 {
            progress = false;
            let mut tries: Vec<Case> = vec![];
            let n = best.case.ops.len();
            let mut len = n / 2;
            while len > 0 {
                let mut s = 0;
                while s + len <= n {
                    let mut c = best.case.clone();
                    c.ops.drain(s..s + len);
                    tries.push(c);
                    s += len;
                }
                len /= 2;
            }
            for i in 0..n {
                for f in 0..4 {
                    for new in 0..2 {
                        let mut c = best.case.clone();
                        let o = &mut c.ops[i];
                        let v = match f { 0 => &mut o.a, 1 => &mut o.b, 2 => &mut o.c, _ => &mut o.d };
                        let to = if new == 0 { 0 } else { *v / 2 };
                        if *v != to {
                            *v = to;
                            tries.push(c);
                        }
                    }
                }
            }
            if best.case.mode < 2 && best.case.prog.len() > 1 && !matches!(self.prop, "C16" | "C19") || (self.prop == "C22" && best.case.prog.len() > 3) {
                for i in 0..best.case.prog.len() {
                    let mut c = best.case.clone();
                    c.prog.remove(i);
                    tries.push(c);
                }
            }
            for i in 0..best.case.prog.len() {
                if best.case.prog[i] != 0 {
                    let mut c = best.case.clone();
                    c.prog[i] /= 2;
                    tries.push(c);
                }
            }
            if best.case.id != 0 {
                let mut c = best.case.clone();
                c.id = 0;
                tries.insert(0, c);
            }
            for c in tries {
                if left == 0 || t0.elapsed().as_secs() >= 40 {
                    left = 0;
                    break;
                }
                left -= 1;
                if let Err(f) = self.one(&c) {
                    best = Found { case: c, fail: f, how: best.how };
                    progress = true;
                    break;
                }
            }
        }
        best
    }
}

/// Trace of a case, for people.
pub fn explain(prop: &str, case: &Case) -> (Res, Vec<String>) {
    let mut rec = Rec { want_trace: true, ..Rec::default() };
    let r = run_case(prop, case, &mut rec);
    (r, rec.trace)
}

/// The case that fuzzer bytes stand for.
pub fn fuzz_case(prop: &str, b: &[u8]) -> Case {
    let modes = match prop {
        "C16" => 3,
        "C14" | "C17" => 2,
        "C19" => 8,
        "C22" => 6,
        "C23" => 4,
        _ => 1,
    };
    let weights: &[(u8, u32)] = match prop {
        "C09" | "C10" | "C11" | "C12" | "C17" => &TRAV_WEIGHTS,
        p => profile(p).map(|p| p.weights).unwrap_or(&MIX),
    };
    let mut c = Case::from_bytes(b, weights, modes, true);
    match prop {
        "C16" | "C21" => {
            if prop == "C16" && c.mode == 2 {
                c.mode = 3;
                c.id = 1;
            }
        }
        _ => c.id %= 3,
    }
    if prop == "C19" {
        c.mode = (c.mode == 7) as u8;
        if c.mode == 1 {
            c.prog.resize(12, 5);
            c.prog[1] %= 2000;
        }
    }
    c
}

/// Shrinks a failing case, and describes it.
pub fn smaller(prop: &str, case: Case, fail: Fail) -> String {
    let mut w = Worker {
        prop,
        seed: 0,
        shard: 0,
        shards: 1,
        thorough: false,
        scale: 100,
        do_enum: false,
        journal: None,
        rec: Rec::default(),
        digests: None,
        fuzzed: 0,
    };
    let f = w.shrink_plain(Found { case, fail, how: "fuzzed" });
    describe(prop, &f)
}

pub fn describe(prop: &str, f: &Found) -> String {
    let (r, trace) = explain(prop, &f.case);
    let mut s = format!("# property {prop}, {} case\n# {:?}: {}\n", f.how, f.fail.cat, f.fail.msg.replace('\n', "\n# "));
    if r.is_ok() {
        s += "# (does not fail when run again)\n";
    }
    s += &f.case.text();
    for t in trace {
        s += &format!("# {}\n", t.replace('\n', "\n# "));
    }
    s
}
