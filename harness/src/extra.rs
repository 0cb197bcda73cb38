//! Properties that are not judged by a plain run of a history.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::{self, Debug, Write as _};
use std::hash::{Hash, Hasher};

use treena::dynamic::{Forest, InsertAs, Node, NodeIdUsize};

use crate::base::*;
use crate::case::*;
use crate::engine::*;
use crate::exer;
use crate::hist::*;
use crate::model::*;
use crate::rec::Rec;
use crate::trav::*;
use crate::{with_few, with_id, with_two};

fn at(prog: &[u16], i: usize) -> u16 {
    if prog.is_empty() {
        0
    } else {
        prog[i % prog.len()].wrapping_add(((i / prog.len()) as u16).wrapping_mul(13))
    }
}

/// Runs `f` with a step budget; a panic becomes a failure of the given kind.
fn limited<R>(n: usize, cat: Cat, what: &str, f: impl FnOnce() -> Result<R, String>) -> Result<R, Fail> {
    budget(step_limit(n));
    let r = guard(f);
    budget(u64::MAX);
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(m)) => fail(cat, m),
        Err(p) if p.class == PanicClass::OutOfSteps => fail(cat, format!("{what}: does not end")),
        Err(p) => fail(cat, format!("{what}: panicked: {}", p.msg)),
    }
}

/// At most `k` nodes, spread by the program.
fn some(v: Vec<usize>, prog: &[u16], k: usize) -> Vec<usize> {
    if v.len() <= k {
        return v;
    }
    let mut o: Vec<usize> = (0..k).map(|i| v[(at(prog, i) as usize * 31 + i * 7) % v.len()]).collect();
    o.sort_unstable();
    o.dedup();
    o
}

// ------------------------------------------------------------ C08: data paths

/// Every accessor and iterator shows the value that the node holds.
pub fn data_paths<Id: TestId>(w: &mut World<Id>, prog: &[u16]) -> Res {
    for s in &mut w.slots {
        let Slot { f, c } = s;
        let nodes = some(c.m.alive(), prog, 12);
        let lim = c.ids.len() + 3;
        for n in nodes {
            let id = c.ids[n];
            let ser = c.m.nodes[n].serial;
            // Links are judged by others: only the value found for each yielded ID counts here.
            let bad = |x: Node<'_, Id, P>| -> bool {
                c.index.get(&x.id()).map_or(false, |i| {
                    let m = &c.m.nodes[*i];
                    m.alive && (x.data().serial != m.serial || x.data().val != m.val)
                })
            };
            budget(step_limit(lim) * 8);
            let r = guard(|| {
                let mut ok = true;
                ok &= f.data(id).map(|p| p.serial) == Some(ser);
                ok &= f.data_mut(id).map(|p| p.serial) == Some(ser);
                if let Some(mut nm) = f.node_mut(id) {
                    ok &= nm.data().serial == ser && nm.data_mut().serial == ser && nm.node().data().serial == ser;
                    ok &= nm.into_node().data().serial == ser;
                } else {
                    return "node_mut";
                }
                ok &= f.node_mut(id).map(|x| x.into_data_ref_mut().serial) == Some(ser);
                if !ok {
                    return "an accessor";
                }
                let Some(x) = f.node(id) else { return "node" };
                let nb = [x.parent(), x.next_sibling(), x.prev_sibling(), x.first_child(), x.last_child(),
                    x.first_last_child().map(|p| p.0), x.first_last_child().map(|p| p.1)];
                if nb.into_iter().flatten().any(bad) {
                    return "a neighbour accessor";
                }
                let e = |e: treena::dynamic::DftEvent<Node<'_, Id, P>>| match e {
                    treena::dynamic::DftEvent::Open(n) | treena::dynamic::DftEvent::Close(n) => bad(n),
                };
                if f.depth_first_traverse(id).take(2 * lim).any(e) || f.depth_first_traverse(id).rev().take(2 * lim).any(e) {
                    return "depth_first_traverse";
                }
                if f.shallow_depth_first_traverse(id, Some(1)).take(2 * lim).any(|x| e(x.0)) {
                    return "shallow_depth_first_traverse";
                }
                if f.breadth_first_traverse(id).take(lim.min(200)).any(|x| bad(x.0)) {
                    return "breadth_first_traverse";
                }
                if f.allocating_breadth_first_traverse(id).take(lim).any(|x| bad(x.0)) {
                    return "allocating_breadth_first_traverse";
                }
                if f.ancestors_or_self(id).take(lim).any(bad) || f.children(id).take(lim).any(bad)
                    || f.following_siblings_or_self(id).take(lim).any(bad)
                    || f.preceding_siblings_or_self(id).take(lim).any(bad)
                {
                    return "an ancestor or sibling iterator";
                }
                ""
            });
            budget(u64::MAX);
            match r {
                Ok("") | Err(_) => {}
                Ok(m) => return fail(Cat::Data, format!("{m} at n{n} shows another value than the node holds")),
            }
        }
    }
    Ok(())
}

// ----------------------------------------------------------- C09 to C12: walks

pub const TRAV_WEIGHTS: [(u8, u32); 14] = [
    (K_ROOT, 6), (K_CREATE, 40), (K_INSERT, 30), (K_DETACH, 5), (K_DSINGLE, 5), (K_REMOVE, 4), (K_RMPANIC, 1),
    (K_CLONE, 2), (K_FORK, 1), (K_SWITCH, 1), (K_CHAIN, 3), (K_NEST, 2), (K_GROW, 14), (K_PRUNE, 1),
];

fn walk<Id: TestId>(prop: &str, s: &Slot<Id>, nodes: &[usize], prog: &[u16], st: &mut TStat) -> StrRes {
    let (f, c) = (&s.f, &s.c);
    match prop {
        "C09" => c09(f, c, nodes, prog, st),
        "C10" => c10(f, c, nodes, prog, st),
        "C11" => c11(f, c, nodes, prog, st),
        _ => c12(f, c, nodes, prog, st),
    }
}

fn trav_check<Id: TestId>(prop: &str, s: &Slot<Id>, nodes: &[usize], prog: &[u16], st: &mut TStat) -> Res {
    limited(s.c.ids.len() * 40 + 100, Cat::Trav, "iteration", || walk(prop, s, nodes, prog, st))
}

/// All ways to take from both ends (`code` bits) on a small forest.
fn all_masks(max: usize) -> Vec<Vec<u16>> {
    (0..1usize << max).map(|m| (0..max).map(|i| if m >> i & 1 == 0 { 0 } else { 6 }).collect()).collect()
}

fn run_trav<Id: TestId>(prop: &str, case: &Case, rec: &mut Rec) -> Res {
    let mut st = TStat::default();
    let r;
    if case.mode == 2 {
        // A big shape: prog is shape, size, seed, program.
        ledger::reset();
        let (k, n) = (case.prog[0] as usize, case.prog[1] as usize);
        // Over 65536 nodes, and levels.
        let n = if n >= 65_000 { n + 5000 } else { n };
        let s = match shape::<Id>(k, n, case.prog[2] as u64) {
            Ok(s) => s,
            Err(f) => {
                rec.foreign(format!("{:?}", f.cat));
                return Ok(());
            }
        };
        budget(u64::MAX);
        let nodes = starts(&s.c.m, &case.prog[3..], 0);
        r = match guard(|| walk(prop, &s, &nodes, &case.prog[3..], &mut st)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(m)) => fail(Cat::Trav, cut(m)),
            Err(p) => fail(Cat::Trav, format!("iteration panicked: {}", p.msg)),
        };
        rec.eval(1);
        rec.class(&format!("big shape: {}", SHAPES[k % SHAPES.len()]));
        rec.nontrivial(hash_of(case));
    } else {
        let mut env = Env::new();
        if rec.want_trace {
            env.trace = Some(vec![]);
        }
        let (mut w, res) = run_world::<Id>(env, &case.ops);
        tally(rec, &w, case);
        if let Err(f) = res {
            // Another property fails. The state before that is still good for this one.
            rec.foreign(format!("{:?}", f.cat));
            let at = w.spans.last().map_or(0, |s| s.0 + s.1);
            w = run_world::<Id>(Env::new(), &case.ops[..at]).0;
        }
        rec.trace = w.env.trace.take().unwrap_or_default();
        let s = w.slot();
        if case.mode == 1 {
            // All interleavings of both ends.
            let mut res = Ok(());
            'all: for n in s.c.m.alive() {
                let len = match prop {
                    "C09" | "C10" => 2 * s.c.m.preorder(n).len(),
                    "C11" => 0,
                    _ => s.c.m.children(n).len().max(s.c.m.siblings(n).len()),
                };
                for m in all_masks(len) {
                    rec.eval(1);
                    res = trav_check(prop, s, &[n], &m, &mut st);
                    if res.is_err() {
                        break 'all;
                    }
                }
            }
            r = res;
        } else {
            let p = if case.prog.is_empty() { vec![0] } else { case.prog.clone() };
            let nodes = starts(&s.c.m, &p, 10);
            r = trav_check(prop, s, &nodes, &p, &mut st);
        }
        let two_ended = prop != "C11";
        if st.items > 10 && (st.mixed > 0 || !two_ended) {
            rec.nontrivial(hash_of(case));
        }
        if !rec.trace.is_empty() {
            rec.trace.push(format!("then {} iterator runs, program {:?}", st.runs, case.prog));
        }
    }
    rec.class_n("iterator runs", st.runs);
    rec.class_n("iterator runs from both ends", st.mixed);
    rec.class_n("items taken", st.items);
    rec.class_n("iterator clones", st.clones);
    r
}

fn cut(mut m: String) -> String {
    if m.len() > 600 {
        let mut k = 600;
        while !m.is_char_boundary(k) {
            k -= 1;
        }
        m.truncate(k);
        m += " ...";
    }
    m
}

pub fn traversal(prop: &str, case: &Case, rec: &mut Rec) -> Res {
    with_few!(case.id, run_trav(prop, case, rec)).map_err(|mut f| {
        f.msg = cut(f.msg);
        f
    })
}

pub fn enumerate_trav(prop: &str, thorough: bool, out: &mut dyn FnMut(Case) -> bool) {
    let t = thorough as usize;
    // Every interleaving on every small forest.
    let n = match prop {
        "C09" => 5 + t,
        "C12" => 6 + t,
        "C10" => 4 + t,
        _ => 7 + t,
    };
    let mut i = 0u8;
    for size in 1..=n {
        for fo in forests(size) {
            for v in 0..2 {
                i = i.wrapping_add(1);
                if !out(Case { id: i % NIDS, mode: 1, ops: build_ops(&fo, v), prog: vec![] }) {
                    return;
                }
            }
        }
    }
    // Programs on somewhat larger forests.
    for size in n + 1..=n + 2 {
        for (j, fo) in forests(size).into_iter().enumerate() {
            let prog: Vec<u16> = (0..11).map(|k| ((j * 2654435761 + k * 40503 + size) >> 3) as u16).collect();
            if !out(Case { id: j as u8 % NIDS, mode: 0, ops: build_ops(&fo, j as u8 % 2), prog }) {
                return;
            }
        }
    }
    // Big shapes.
    let sizes: &[u16] = if thorough { &[255, 256, 257, 300, 1000, 1025, 5000, 20000, 65000] } else { &[255, 257, 1000, 20000, 65000] };
    for k in 0..SHAPES.len() as u16 {
        for n in sizes {
            for (j, pr) in [vec![0u16], vec![6], vec![0, 6, 262, 256], vec![0, 0, 6, 256, 6, 262, 262]].into_iter().enumerate() {
                if *n > 60_000 && !thorough && (j > 1 || !matches!(k, 0 | 1 | 5)) {
                    continue;
                }
                let mut prog = vec![k, *n, *n + k];
                prog.extend(pr);
                let id = if *n > 60_000 { 0 } else { [0u8, 2][(k as usize + j) % 2] };
                if !out(Case { id, mode: 2, ops: vec![], prog }) {
                    return;
                }
            }
        }
    }
}

// --------------------------------------------------------------- C16: ID types

/// Everything that can be seen of a history, without naming IDs: hash after each step.
pub struct Digest {
    pub hashes: Vec<(usize, u64)>,
    pub fail: Option<Fail>,
    pub issued: usize,
    pub trace: Vec<String>,
}

fn digest_run<Id: TestId>(case: &Case, deep: bool, print_ids: bool, trace: bool) -> Digest {
    let mut env = Env::new();
    env.hash_obs = true;
    env.max_nodes = if deep { 1200 } else { 200 };
    if trace {
        env.trace = Some(vec![]);
    }
    let (mut w, r) = run_world::<Id>(env, &case.ops);
    let mut d = Digest { hashes: vec![], fail: r.err(), issued: 0, trace: vec![] };
    d.issued = w.slots.iter().map(|s| s.c.ids.len() + s.c.leaks).max().unwrap_or(0).max(w.env.peak);
    if let Some(f) = &d.fail {
        hash_of(&(f.cat as u8, f.step)).hash(&mut w.env.hash);
    } else {
        let prog = &case.prog;
        for s in &w.slots {
            let mut h = w.env.hash.clone();
            let c = &s.c;
            let ix = |n: Node<'_, Id, P>| (c.index.get(&n.id()).copied(), n.data().serial);
            let e = |e: treena::dynamic::DftEvent<Node<'_, Id, P>>| match e {
                treena::dynamic::DftEvent::Open(n) => (true, ix(n)),
                treena::dynamic::DftEvent::Close(n) => (false, ix(n)),
            };
            let lim = 2 * c.ids.len() + 5;
            for n in some(c.m.alive(), prog, 6) {
                let id = c.ids[n];
                let f = &s.f;
                let code = at(prog, n + 3) as usize;
                let small = c.m.preorder(n).len() < 40;
                let steps = |k: usize| at(prog, k + n);
                macro_rules! de {
                    ($mk:expr, $map:expr) => {
                        exer::both(&|| $mk, &$map, Some(&|i| i.peek()), Some(&|i| i.peek_back()), &steps, lim, code, small, &mut h)
                    };
                }
                macro_rules! se {
                    ($mk:expr, $map:expr, $peek:expr) => {
                        exer::forward(&|| $mk, &$map, $peek, lim, code, small, &mut h)
                    };
                }
                // Some reads take quadratic time on deep trees.
                let heavy = lim > 5000 && c.m.preorder(n).len() > 1500;
                budget(step_limit(lim) * 4);
                let r = guard(|| {
                    de!(f.depth_first_traverse(id), e);
                    de!(f.shallow_depth_first_traverse(id, Some(at(prog, n) as usize % 4)), |x: (_, usize)| (e(x.0), x.1));
                    de!(f.children(id), ix);
                    de!(f.following_siblings(id), ix);
                    de!(f.following_siblings_or_self(id), ix);
                    de!(f.preceding_siblings(id), ix);
                    de!(f.preceding_siblings_or_self(id), ix);
                    se!(f.ancestors(id), ix, Some(&|i| i.peek()));
                    se!(f.ancestors_or_self(id), ix, Some(&|i| i.peek()));
                    exer::forward(&|| f.breadth_first_traverse(id), &|x: (_, usize)| (ix(x.0), x.1), None, if heavy { 60 } else { lim }, code, small, &mut h);
                    se!(f.allocating_breadth_first_traverse(id), |x: (_, usize)| (ix(x.0), x.1), Some(&|i| i.peek()));
                    for cap in [if heavy { 3000 } else { usize::MAX }, 10, 60] {
                        let mut k = Sink { s: String::new(), cap };
                        (write!(k, "{}", f.debug_print(id)).is_ok(), &k.s).hash(&mut h);
                        let mut k = Sink { s: String::new(), cap };
                        (write!(k, "{:?}", f.debug_print(id)).is_ok(), &k.s).hash(&mut h);
                    }
                });
                budget(u64::MAX);
                r.map_err(|p| p.class).hash(&mut h);
            }
            if print_ids && c.ids.len() < 60 {
                let r = guard(|| format!("{:?} {:#?} {:?}", s.f, s.f, c.ids));
                r.map_err(|p| p.class).hash(&mut h);
            }
            w.env.hash = h;
        }
    }
    let h = w.env.hash.0;
    d.hashes = std::mem::take(&mut w.env.hashes);
    d.hashes.push((usize::MAX, h));
    d.trace = w.env.trace.take().unwrap_or_default();
    if d.fail.is_none() {
        if let Err(f) = finish(&mut w) {
            d.fail = Some(f);
        }
    }
    d
}

pub fn digest(case: &Case, deep: bool, print_ids: bool, trace: bool) -> Digest {
    with_id!(case.id, digest_run(case, deep, print_ids, trace))
}

/// Order, equality and hash of many IDs, in pairs at distances where a narrowed comparison would fail.
fn ids_far<Id: TestId>(case: &Case) -> Res {
    let n = (300 + at(&case.prog, 1) as usize * 2).min(70_000).min(Id::CAP);
    let name = Id::NAME;
    limited(n, Cat::Differ, "creating nodes", || {
        let mut f: Forest<Id, ()> = Forest::new();
        let ids: Vec<Id> = (0..n).map(|_| f.create_root(())).collect();
        let strides = [1, 2, 127, 128, 255, 256, 257, 511, 512, 1024, 4096, 32767, 32768, 65280, 65535, 65536, 65537,
            1 + at(&case.prog, 2) as usize];
        let hash = |i: &Id| hash_of(i);
        for s in strides {
            let step = if s < 4 { 1 } else { 1 + n / 3000 };
            for i in (0..n.saturating_sub(s)).step_by(step) {
                let (a, b) = (ids[i], ids[i + s]);
                if a == b || !(a != b) {
                    return Err(format!("{name}: the IDs of nodes {i} and {} are equal", i + s));
                }
                let o = a.cmp(&b);
                if o == std::cmp::Ordering::Equal || b.cmp(&a) != o.reverse() || a.partial_cmp(&b) != Some(o) {
                    return Err(format!("{name}: IDs of nodes {i} and {}: cmp is {o:?}, backwards {:?}", i + s, b.cmp(&a)));
                }
                if (a < b) != o.is_lt() || (a > b) != o.is_gt() || (a <= b) != o.is_le() || (a >= b) != o.is_ge()
                    || a.max(b) != (if o.is_lt() { b } else { a })
                {
                    return Err(format!("{name}: comparison operators on the IDs of nodes {i} and {} disagree", i + s));
                }
            }
        }
        let mut sorted = ids.clone();
        sorted.sort();
        if sorted.windows(2).any(|w| w[0] >= w[1]) {
            return Err(format!("{name}: sorting the IDs does not order them"));
        }
        for (i, a) in ids.iter().enumerate().step_by(1 + n / 5000) {
            let b = f.node(*a).map(|n| n.id()).ok_or(format!("{name}: node {i} is gone"))?;
            if *a != b || a.cmp(&b) != std::cmp::Ordering::Equal || hash(a) != hash(&b) || sorted.binary_search(a).is_err() {
                return Err(format!("{name}: the ID of node {i} and its copy differ"));
            }
        }
        let texts: HashSet<String> = ids.iter().map(|i| format!("{i:?}")).collect();
        if texts.len() != n {
            return Err(format!("{name}: {n} IDs have {} different texts", texts.len()));
        }
        let set: HashSet<Id> = ids.iter().copied().collect();
        let tree: std::collections::BTreeSet<Id> = ids.iter().copied().collect();
        if set.len() != n || tree.len() != n {
            return Err(format!("{name}: {n} IDs make sets of {} and {}", set.len(), tree.len()));
        }
        Ok(())
    })
}

/// More nodes than fit in 24 bits.
fn ids_many<Id: TestId>(case: &Case) -> Res {
    let n = ((1 << 24) + 300 + at(&case.prog, 1) as usize).min(Id::CAP);
    let name = Id::NAME;
    limited(n / 100, Cat::Differ, "creating nodes", || {
        let mut f: Forest<Id, ()> = Forest::new();
        let first = f.create_root(());
        let mut marks = vec![(0, first)];
        let mut last = first;
        for i in 1..n {
            let id = f.create_root(());
            if id == last || id == first || id.cmp(&last).is_eq() || id.cmp(&last) != last.cmp(&id).reverse() {
                return Err(format!("{name}: the ID of node {i} equals another or is not in order"));
            }
            last = id;
            if (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || i % 99_991 == 0 || i + 20 > n {
                marks.push((i, id));
            }
        }
        let set: HashSet<Id> = marks.iter().map(|m| m.1).collect();
        if set.len() != marks.len() {
            return Err(format!("{name}: among {} IDs of {n} nodes only {} differ", marks.len(), set.len()));
        }
        // Build a tree of the marked nodes.
        for w in marks.windows(2) {
            f.insert(w[1].1, InsertAs::LastChildOf(if w[0].0 % 3 == 0 { w[0].1 } else { first }))
                .map_err(|e| format!("{name}: inserting node {}: {e:?}", w[1].0))?;
        }
        for w in marks.windows(2) {
            let want = if w[0].0 % 3 == 0 { w[0].1 } else { first };
            if f.node(w[1].1).and_then(|n| n.parent_id()) != Some(want) {
                return Err(format!("{name}: the parent of node {} is another node", w[1].0));
            }
        }
        let got: HashSet<Id> = f.allocating_breadth_first_traverse(first).map(|(n, _)| n.id()).collect();
        if got != set {
            return Err(format!("{name}: the tree of {} nodes holds {} nodes", set.len(), got.len()));
        }
        for (i, id) in marks.iter().skip(1).step_by(2) {
            f.detach(*id);
            f.remove(*id);
            if f.node(*id).is_some() {
                return Err(format!("{name}: node {i} is still there after its removal"));
            }
        }
        Ok(())
    })
}

fn ids_sane<Id: TestId>(case: &Case) -> Res {
    let n = 2 + at(&case.prog, 0) as usize % 250;
    let n = n.min(Id::CAP);
    let name = Id::NAME;
    limited(n * n, Cat::Differ, "creating nodes", || {
        let mut f: Forest<Id, P> = Forest::new();
        let mut ids = vec![];
        for i in 0..n {
            let code = at(&case.prog, i + 1);
            let id = match code % 4 {
                0 => f.create_root(P::new(i as u32)),
                k if !ids.is_empty() => {
                    let a = ids[code as usize / 4 % ids.len()];
                    f.create_insert(P::new(i as u32), if k == 1 { InsertAs::FirstChildOf(a) } else { InsertAs::LastChildOf(a) })
                }
                _ => f.create_root(P::new(i as u32)),
            };
            ids.push(id);
        }
        // The same IDs from other places.
        let again: Vec<Id> = ids.iter().map(|i| f.node(*i).map(|n| n.id()).unwrap_or(*i)).collect();
        let hash = |i: &Id| {
            let mut h = Fnv::default();
            i.hash(&mut h);
            h.finish()
        };
        for (i, a) in ids.iter().enumerate() {
            for (j, b) in again.iter().enumerate() {
                let same = i == j;
                if (a == b) != same || (a != b) == same {
                    return Err(format!("{name}: IDs of nodes {i} and {j}: == is {}", a == b));
                }
                let o = a.cmp(b);
                if (o == std::cmp::Ordering::Equal) != same || a.partial_cmp(b) != Some(o) || b.cmp(a) != o.reverse() {
                    return Err(format!("{name}: IDs of nodes {i} and {j}: cmp is {o:?}, backwards {:?}", b.cmp(a)));
                }
            }
            if hash(a) != hash(&again[i]) {
                return Err(format!("{name}: equal IDs of node {i} have different hashes"));
            }
            let copy = *a;
            #[allow(clippy::clone_on_copy)]
            if copy != a.clone() {
                return Err(format!("{name}: a copy of an ID differs"));
            }
        }
        let mut sorted = ids.clone();
        sorted.sort();
        if sorted.windows(2).any(|w| w[0] >= w[1]) {
            return Err(format!("{name}: sorting the IDs does not order them"));
        }
        // Their texts tell them apart too.
        for text in [|i: &Id| format!("{i:?}"), |i: &Id| format!("{i:#?}")] {
            let texts: HashSet<String> = ids.iter().map(text).collect();
            if texts.len() != n || again.iter().any(|i| !texts.contains(&text(i))) {
                return Err(format!("{name}: {n} IDs have {} different texts", texts.len()));
            }
        }
        for a in &ids {
            if Id::from_internal(a.to_internal()) != *a {
                return Err(format!("{name}: an ID that was unwrapped and wrapped again is another one"));
            }
        }
        let hm: HashMap<Id, usize> = ids.iter().copied().zip(0..).collect();
        let bm: BTreeMap<Id, usize> = ids.iter().copied().zip(0..).collect();
        for (i, a) in again.iter().enumerate() {
            if hm.get(a) != Some(&i) || bm.get(a) != Some(&i) {
                return Err(format!("{name}: a map keyed by IDs loses node {i}"));
            }
            if f.data(*a).map(|p| p.val) != Some(i as u32) {
                return Err(format!("{name}: the ID of node {i} names another node"));
            }
        }
        Ok(())
    })
}

/// Fills a forest up to (or near) the last ID, then goes on with the history.
fn brim<Id: TestId>(case: &Case, rec: &mut Rec) -> Res {
    ledger::reset();
    let left = at(&case.prog, 0) as usize % 6;
    let wide = Id::CAP > 1 << 20;
    let n = if wide { 65_530 + at(&case.prog, 0) as usize % 12 } else { Id::CAP - left };
    let mut k = at(&case.prog, 1) as usize % SHAPES.len();
    if n > 1000 && matches!(k, 0 | 2 | 4 | 5) {
        // Very deep trees make every later edit slow.
        k = [3, 1, 3, 7][k % 4];
    }
    let s = match shape::<Id>(k, n, at(&case.prog, 2) as u64) {
        Ok(s) => s,
        Err(mut f) => {
            f.cat = Cat::Differ;
            f.msg = format!("{} with {n} nodes: {}", Id::NAME, f.msg);
            return Err(f);
        }
    };
    let mut env = Env::new();
    env.max_nodes = 100_000;
    if rec.want_trace {
        env.trace = Some(vec![format!("{} nodes in shape {} with {}", n, SHAPES[k], Id::NAME)]);
    }
    let mut w = World::<Id>::new(env);
    w.slots = vec![s];
    let mut r = w.verify_all(0, None).map_err(|mut f| {
        f.tags = T_OVERFLOW;
        f
    });
    if r.is_ok() {
        r = w.run(&case.ops);
    }
    tally(rec, &w, case);
    rec.trace = w.env.trace.take().unwrap_or_default();
    if w.env.tags_seen & T_OVERFLOW != 0 || wide {
        rec.nontrivial(hash_of(case));
        rec.class(if wide { "over 65530 nodes" } else { "all IDs issued" });
    }
    r
}

fn c16_brim<Id: TestId>(case: &Case, rec: &mut Rec) -> Res {
    match brim::<Id>(case, rec) {
        Ok(()) => Ok(()),
        Err(f) if f.tags & T_OVERFLOW != 0 || f.cat == Cat::Differ => Err(f),
        Err(f) => {
            // Does the same history work on few nodes, or with a wide type?
            let small = Case { mode: 0, ..case.clone() };
            let few = digest(&Case { id: 0, ..small }, true, false, false);
            if few.fail.is_none() {
                Err(f)
            } else {
                rec.foreign(format!("{:?}", f.cat));
                Ok(())
            }
        }
    }
}

/// Plain history where the small types run out of IDs.
fn c16_hist<Id: TestId>(case: &Case, rec: &mut Rec) -> Res {
    let mut env = Env::new();
    if rec.want_trace {
        env.trace = Some(vec![]);
    }
    let (mut w, mut r) = run_world::<Id>(env, &case.ops);
    tally(rec, &w, case);
    rec.trace = w.env.trace.take().unwrap_or_default();
    if w.env.tags_seen & T_OVERFLOW != 0 {
        rec.nontrivial(hash_of(case));
        rec.class("all IDs issued");
    }
    let over = w.env.tags_seen & T_OVERFLOW != 0;
    if r.is_ok() {
        r = finish(&mut w);
    }
    match r {
        Ok(()) => Ok(()),
        Err(f) if f.tags & T_OVERFLOW != 0 => Err(f),
        Err(f) => {
            // The same history with an ID type that does not run out.
            let d = digest(&Case { id: 0, ..case.clone() }, true, false, false);
            if d.fail.is_none() || (over && f.cat != Cat::PanicMark) {
                Err(f)
            } else {
                rec.foreign(format!("{:?}", f.cat));
                Ok(())
            }
        }
    }
}

pub fn c16(case: &Case, rec: &mut Rec) -> Res {
    match case.mode {
        1 => {
            rec.eval(1);
            rec.class("ID order, equality and hash");
            ledger::reset();
            if case.prog.first() == Some(&60_001) {
                rec.nontrivial(hash_of(case));
                return with_id!(case.id, ids_many(case));
            }
            for id in 0..NIDS {
                if case.prog.first() == Some(&60_000) {
                    with_id!(id, ids_far(case))?;
                } else {
                    with_id!(id, ids_sane(case))?;
                }
            }
            rec.nontrivial(hash_of(case));
            Ok(())
        }
        2 => with_id!(case.id, c16_brim(case, rec)),
        3 => with_id!(case.id, c16_hist(case, rec)),
        _ => {
            rec.eval(1);
            rec.class("history with all ID types");
            let a = digest(&Case { id: 0, ..case.clone() }, false, false, rec.want_trace);
            if a.fail.is_none() && a.hashes.len() > 5 {
                rec.nontrivial(hash_of(&case.ops));
            }
            rec.trace = a.trace.clone();
            for id in 1..NIDS {
                let b = digest(&Case { id, ..case.clone() }, false, false, false);
                if a.issued.max(b.issued) + 5 > id_cap(id) {
                    continue;
                }
                if let Some(k) = a.hashes.iter().zip(&b.hashes).position(|(x, y)| x != y) {
                    let msg = match (&a.fail, &b.fail) {
                        (None, Some(f)) => format!("works with {}, but with {}: {}", id_name(0), id_name(id), f.msg),
                        (Some(f), None) => format!("works with {}, but with {}: {}", id_name(id), id_name(0), f.msg),
                        _ => format!("{} and {} show different forests", id_name(0), id_name(id)),
                    };
                    let mut f = Fail { cat: Cat::Differ, msg, step: 0, tags: 0, outside: false };
                    f.step = a.hashes[k].0.min(case.ops.len());
                    return Err(f);
                }
            }
            if let Some(f) = a.fail {
                rec.foreign(format!("{:?}", f.cat));
            }
            Ok(())
        }
    }
}

pub fn enumerate_c16(thorough: bool, out: &mut dyn FnMut(Case) -> bool) {
    // Many IDs in far pairs.
    for (j, half) in [0u16, 300, 2000, 16_384, 33_000, 35_000].into_iter().enumerate() {
        if !out(Case { id: 0, mode: 1, ops: vec![], prog: vec![60_000, half, 77 * j as u16 + 3] }) {
            return;
        }
    }
    for id in 0..NIDS {
        if (thorough || id_name(id) == "NodeIdU32") && id_cap(id) > 70_000
            && !out(Case { id, mode: 1, ops: vec![], prog: vec![60_001, 5] })
        {
            return;
        }
    }
    // U8 and U16 brim over in every shape, by every kind of creation.
    let kinds = [op(K_ROOT, 0, 1, 0, 0), op(K_CREATE, 9, 2, 1, 0), op(K_CREATE, 9, 2, 0, 1), op(K_CREATE, 9, 2, 3, 1),
        op(K_CHAIN, 1, 3, 0, 0), op(K_NEST, 1, 3, 0, 0), op(K_CLONE, 0, 0, 0, 1), op(K_CLONE, 200, 0, 0, 0)];
    let tail = [op(K_INSERT, 20, 9 * 16, 1, 0), op(K_DETACH, 3, 0, 0, 0), op(K_REMOVE, 30, 0, 1, 0), op(K_ROOT, 0, 4, 0, 0),
        op(K_CREATE, 2, 5, 1, 0), op(K_TOUCH, 5, 3, 0, 0), op(K_SET, 8, 5, 0, 0), op(K_FORK, 0, 0, 0, 1), op(K_ROOT, 0, 4, 0, 0)];
    for left in 0..6u16 {
        for k in 0..SHAPES.len() as u16 {
            for (j, first) in kinds.iter().enumerate() {
                let mut ops = vec![*first, kinds[(j + 3) % kinds.len()]];
                if matches!(first.k, K_CHAIN | K_NEST) {
                    ops.insert(1, op(0, 5, 0, 0, 0));
                    ops.insert(2, op(0, 5, 2, 0, 0));
                }
                for _ in 0..left {
                    ops.push(op(K_CREATE, 77, 8, 1, 0));
                }
                ops.extend(tail);
                if !out(Case { id: 1, mode: 2, ops, prog: vec![left, k, 3] }) {
                    return;
                }
            }
        }
    }
    let big: &[u16] = if thorough { &[0, 1, 2, 3, 4, 5] } else { &[0, 2] };
    for left in big {
        for (j, id) in [6u8, 2, 3, 0, 5, 4].into_iter().enumerate() {
            let mut ops = vec![kinds[(j + *left as usize) % 4], kinds[4 + (j + *left as usize) % 4], op(0, 5, 0, 0, 0)];
            for _ in 0..*left {
                ops.push(op(K_CREATE, 60000, 8, 1, 0));
            }
            ops.extend(tail);
            ops.pop();
            ops.pop();
            if !out(Case { id, mode: 2, ops, prog: vec![*left + 6 * (j as u16 / 2), [3, 1, 7][j % 3], 3] }) {
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ C17: print

#[derive(Clone, Debug)]
struct Conn {
    mid: String,
    last: String,
    mid_more: String,
    last_more: String,
}

fn calibrate() -> Result<Conn, String> {
    let mut f: Forest<NodeIdUsize, &str> = Forest::new();
    let r = f.create_root("R");
    let a = f.create_insert("A", InsertAs::LastChildOf(r));
    let _ = f.create_insert("X", InsertAs::LastChildOf(a));
    let b = f.create_insert("B", InsertAs::LastChildOf(r));
    let _ = f.create_insert("Y", InsertAs::LastChildOf(b));
    let s = f.debug_print(r).to_string();
    let l: Vec<&str> = s.lines().collect();
    let bad = || format!("a tree of five nodes prints as {s:?}");
    if l.len() != 5 || l[0] != "R" {
        return Err(bad());
    }
    let mid = l[1].strip_suffix('A').ok_or_else(bad)?;
    let last = l[3].strip_suffix('B').ok_or_else(bad)?;
    let x = l[2].strip_suffix('X').ok_or_else(bad)?;
    let y = l[4].strip_suffix('Y').ok_or_else(bad)?;
    let mid_more = x.strip_suffix(last).ok_or_else(bad)?;
    let last_more = y.strip_suffix(last).ok_or_else(bad)?;
    let w = mid.chars().count();
    if mid == last || mid_more == last_more || w == 0 || [last, mid_more, last_more].iter().any(|p| p.chars().count() != w) {
        return Err(bad());
    }
    Ok(Conn { mid: mid.into(), last: last.into(), mid_more: mid_more.into(), last_more: last_more.into() })
}

/// Expected lines, without trailing white space. Iterative, so that deep trees are fine.
/// The empty line after a line break that ends a text may be there or not.
fn render(m: &Model, root: usize, text: &dyn Fn(usize) -> String, c: &Conn) -> Vec<(String, bool)> {
    let mut out = vec![];
    // (node, prefix of the first line, prefix of further lines)
    let mut st: Vec<(usize, String, String)> = vec![(root, String::new(), String::new())];
    while let Some((n, p1, p2)) = st.pop() {
        let t = text(n);
        let k = t.split('\n').count();
        for (i, l) in t.split('\n').enumerate() {
            let p = if i == 0 { &p1 } else { &p2 };
            out.push((format!("{p}{l}").trim_end_matches(' ').to_string(), i > 0 && i + 1 == k && l.is_empty()));
        }
        let ch = m.children(n);
        for (i, x) in ch.iter().enumerate().rev() {
            let last = i + 1 == ch.len();
            let (a, b) = if last { (&c.last, &c.last_more) } else { (&c.mid, &c.mid_more) };
            st.push((*x, format!("{p2}{a}"), format!("{p2}{b}")));
        }
    }
    out
}

fn check_print(got: &str, want: &[(String, bool)], what: &str) -> Result<(), String> {
    let g: Vec<&str> = got.split('\n').map(|l| l.trim_end_matches(' ')).collect();
    let mut i = 0;
    for (l, optional) in want {
        if g.get(i) == Some(&l.as_str()) || (*optional && i + 1 == g.len() && g[i].is_empty()) {
            i += 1;
        } else if !optional {
            let sh = |x: Option<&&str>| x.map_or("nothing".to_string(), |s| format!("{s:?}"));
            return Err(cut(format!("{what}: line {} is {} instead of {l:?}, in {got:?}", i + 1, sh(g.get(i)))));
        }
    }
    if i < g.len() {
        return Err(cut(format!("{what}: line {} is one too many, in {got:?}", i + 1)));
    }
    Ok(())
}

thread_local! {
    /// The number of the next text that fails; zero for none.
    static FUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// True when this text has to fail.
fn blown() -> bool {
    FUSE.with(|f| f.replace(f.get().saturating_sub(1)) == 1)
}

/// Runs with the `k`-th text failing halfway (0: the first one).
fn with_fuse<R>(k: u64, f: impl FnOnce() -> R) -> R {
    FUSE.with(|x| x.set(k + 1));
    let r = f();
    FUSE.with(|x| x.set(0));
    r
}

/// A writer that refuses one write, by number, or the first one that goes beyond a size.
struct Refusing {
    s: String,
    calls: u64,
    at_call: u64,
    cap: usize,
    refused: bool,
    /// Refuse everything after the first refusal.
    stay: bool,
}

impl fmt::Write for Refusing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if (self.refused && self.stay) || self.calls == self.at_call || self.s.len() + s.len() > self.cap {
            self.refused = true;
            return Err(fmt::Error);
        }
        self.s.push_str(s);
        Ok(())
    }
}

/// Errors of the destination and of the data have to reach the caller, after the beginning of the text.
fn check_errors(d: &dyn fmt::Display, b: &dyn Debug, prog: &[u16], texts: u64) -> Result<(), String> {
    for debug in [false, true] {
        let run = |r: &mut Refusing| if debug { write!(r, "{b:?}") } else { write!(r, "{d}") };
        let fresh = || Refusing { s: String::new(), calls: 0, at_call: u64::MAX, cap: usize::MAX, refused: false, stay: false };
        let form = if debug { "Debug" } else { "Display" };
        let mut full = fresh();
        run(&mut full).map_err(|_| format!("{form}: an error though nothing failed"))?;
        let all = full.s.as_str();
        let judge = |r: &Refusing, res: fmt::Result, what: String| {
            if res.is_ok() {
                return Err(cut(format!("{form}: {what}, but printing returned no error; written: {:?}", r.s)));
            }
            if !all.starts_with(&r.s) {
                return Err(cut(format!("{form}: {what}; what was written is not the beginning of the text: {:?} of {all:?}", r.s)));
            }
            Ok(())
        };
        let calls = full.calls;
        let step = 1 + calls / 12;
        let mut k = 1 + at(prog, 5) as u64 % step;
        while k <= calls {
            let mut r = Refusing { at_call: k, stay: at(prog, 6) % 2 == 0, ..fresh() };
            let res = run(&mut r);
            if r.refused {
                judge(&r, res, format!("the writer refused write {k}"))?;
            }
            k += step;
        }
        let mut r = Refusing { cap: at(prog, 7) as usize % (all.len() + 1), ..fresh() };
        let (res, cap) = (run(&mut r), r.cap);
        if r.refused {
            judge(&r, res, format!("the writer refused to hold more than {cap} bytes"))?;
        }
        for k in 0..texts.min(6) {
            let k = (k + at(prog, 8) as u64) % texts;
            let mut r = fresh();
            let res = with_fuse(k, || run(&mut r));
            judge(&r, res, format!("text {k} failed"))?;
        }
    }
    Ok(())
}

/// Text written in pieces.
#[derive(Clone)]
pub struct Pieces(Vec<String>);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let fails = blown();
        let n = if fails { self.0.len() / 2 } else { self.0.len() };
        self.0[..n].iter().try_for_each(|s| f.write_str(s))?;
        if fails {
            return Err(fmt::Error);
        }
        Ok(())
    }
}
impl Debug for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_char('<')?;
        if blown() {
            return Err(fmt::Error);
        }
        for s in &self.0 {
            for c in s.chars() {
                f.write_char(c)?;
            }
        }
        f.write_char('>')
    }
}

/// Texts by a program: any mixture of line breaks, letters and cuts.
fn pieces(prog: &[u16], n: usize) -> Pieces {
    let mut v = vec![String::new()];
    let len = at(prog, n * 5) as usize % 7;
    for k in 0..len {
        let c = at(prog, n * 5 + 1 + k) / 3 % 20;
        match c {
            0 => v.last_mut().unwrap().push('\n'),
            1 => v.last_mut().unwrap().push(' '),
            2 => v.last_mut().unwrap().push('\u{3042}'),
            3 | 4 => v.push(String::new()),
            5 => v.last_mut().unwrap().push_str("\r\n"),
            6 => v.last_mut().unwrap().push('\r'),
            7 => v.last_mut().unwrap().push('\t'),
            8 => v.last_mut().unwrap().push_str("\n\n"),
            9 => v.extend(["\n".to_string(), String::new()]),
            10 => v.last_mut().unwrap().push_str(["|-- ", "`-- ", "|   ", "\u{2028}", "\u{85}", "\x0b\x0c", "\0", "{}"][n % 8]),
            11 => v.last_mut().unwrap().push_str(&"long".repeat(1 + n % 80)),
            _ => v.last_mut().unwrap().push((b'a' + (n % 26) as u8) as char),
        }
    }
    Pieces(v)
}

fn c17_run<Id: TestId>(case: &Case, rec: &mut Rec) -> Res {
    let mut env = Env::new();
    if rec.want_trace {
        env.trace = Some(vec![]);
    }
    let (mut w, res) = run_world::<Id>(env, &case.ops);
    tally(rec, &w, case);
    if let Err(f) = res {
        rec.foreign(format!("{:?}", f.cat));
        let at = w.spans.last().map_or(0, |s| s.0 + s.1);
        w = run_world::<Id>(Env::new(), &case.ops[..at]).0;
    }
    rec.trace = w.env.trace.take().unwrap_or_default();
    let conn = limited(100, Cat::Print, "debug print", calibrate)?;
    let cur = w.cur;
    let Slot { f, c } = &mut w.slots[cur];
    let mut starts = some(c.m.alive(), &case.prog, 5);
    starts.extend(c.m.roots().into_iter().take(3));
    let mut multi = false;
    if c.m.nodes.len() > 1000 {
        // Somewhere in a deep tree there is a part of a size that can be printed.
        starts.extend(some(c.m.alive(), &case.prog, 24));
    }
    // What may be printed in all, in bytes.
    let mut room = 6_000_000usize;
    let mut checked = 0;
    for n in starts {
        let lv = c.m.levels(n);
        let size = lv.len();
        let weight: usize = lv.iter().map(|x| 40 + 4 * x.1).sum();
        if weight > room || checked > 12 {
            continue;
        }
        room -= weight;
        checked += 1;
        if lv.last().map_or(0, |x| x.1) > 256 {
            rec.class("printed deeper than 256 levels");
        }
        if size > 4096 {
            rec.class("printed more than 4096 nodes");
        }
        let id = c.ids[n];
        let m = &c.m;
        let plain = |i: usize| label(m.nodes[i].val).concat();
        let dbg = |i: usize| format!("P({})", label(m.nodes[i].val).concat());
        multi |= size > 2 && m.preorder(n).iter().any(|i| m.nodes[*i].val % 16 > 5);
        let want = render(m, n, &plain, &conn);
        let wantd = render(m, n, &dbg, &conn);
        let step = at(&case.prog, n) % 3;
        limited(m.nodes.len() + size * 4, Cat::Print, "debug print", || {
            let (a, b) = match step {
                0 => (f.debug_print(id).to_string(), format!("{:?}", f.debug_print(id))),
                1 => {
                    let x = f.node(id).ok_or("the start is not alive")?;
                    (x.debug_print().to_string(), format!("{:?}", x.debug_print()))
                }
                _ => {
                    let x = f.node_mut(id).ok_or("the start is not alive")?;
                    (x.debug_print().to_string(), format!("{:?}", x.debug_print()))
                }
            };
            check_print(&a, &want, &format!("Display at n{n}"))?;
            check_print(&b, &wantd, &format!("Debug at n{n}"))
        })?;
        if !rec.trace.is_empty() && size < 12 {
            rec.trace.push(format!("print at n{n}:\n{}", want.iter().map(|l| l.0.as_str()).collect::<Vec<_>>().join("\n")));
        }
        // The same tree with arbitrary texts, cut into arbitrary pieces.
        if case.mode == 1 && size <= 40 {
            let pre = m.preorder(n);
            let texts: HashMap<usize, Pieces> = pre.iter().enumerate().map(|(k, i)| (*i, pieces(&case.prog, k))).collect();
            let plain = |i: usize| texts[&i].0.concat();
            let dbg = |i: usize| format!("<{}>", texts[&i].0.concat());
            let mut sub = m.clone();
            sub.detach(n);
            let want = render(&sub, n, &plain, &conn);
            let wantd = render(&sub, n, &dbg, &conn);
            limited(size * 4 + 20, Cat::Print, "debug print", || {
                let mut g: Forest<NodeIdUsize, Pieces> = Forest::new();
                let mut map: HashMap<usize, NodeIdUsize> = HashMap::new();
                for i in &pre {
                    let p = texts[i].clone();
                    let id = match sub.parent(*i) {
                        None => g.create_root(p),
                        Some(q) => g.create_insert(p, InsertAs::LastChildOf(map[&q])),
                    };
                    map.insert(*i, id);
                }
                let r = map[&n];
                check_print(&g.debug_print(r).to_string(), &want, "Display of pieces")?;
                check_print(&format!("{:?}", g.debug_print(r)), &wantd, "Debug of pieces")?;
                // These texts do not care for flags.
                let (n, d) = (g.node(r).ok_or("the root is not alive")?, g.debug_print(r));
                let (a, b) = match at(&case.prog, 3) % 6 {
                    0 => (format!("{d:#}"), format!("{d:#?}")),
                    1 => (format!("{d:7.2}"), format!("{d:40?}")),
                    2 => (format!("{d:>3}"), format!("{d:.1?}")),
                    3 => (format!("{:+}", n.debug_print()), format!("{:#x?}", n.debug_print())),
                    4 => (format!("{:^09}", n.debug_print()), format!("{:#09?}", n.debug_print())),
                    _ => {
                        // Twice in a row, by one writer.
                        let mut s = String::new();
                        let _ = write!(s, "{d}{d:?}");
                        let k = d.to_string().len();
                        let b = s.split_off(k.min(s.len()));
                        (s, b)
                    }
                };
                check_print(&a, &want, "Display of pieces with flags")?;
                check_print(&b, &wantd, "Debug of pieces with flags")?;
                check_errors(&d, &d, &case.prog, pre.len() as u64)
            })?;
            rec.class("texts in arbitrary pieces");
        }
    }
    if multi {
        rec.nontrivial(hash_of(case));
    }
    Ok(())
}

pub fn c17(case: &Case, rec: &mut Rec) -> Res {
    with_few!(case.id, c17_run(case, rec))
}

pub fn enumerate_c17(thorough: bool, out: &mut dyn FnMut(Case) -> bool) {
    for n in [270, 1100, 1500, 66_000] {
        for shape in 0..BIG_SHAPES.len() as u16 {
            let prog = (0..24).map(|j| (n as u16).wrapping_mul(j).wrapping_add(j * 7)).collect();
            if !out(Case { id: 0, mode: 0, ops: vec![big_op(shape + 1, shape, n)], prog }) {
                return;
            }
        }
    }
    let kinds: &[u16] = &[0, 6, 9, 8, 14, 10];
    let n = if thorough { 5 } else { 4 };
    let mut k = 0usize;
    for size in 1..=n {
        for fo in forests(size) {
            let labels: &[u16] = if size <= 3 { &[0, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] } else { kinds };
            let total = labels.len().pow(size as u32);
            for mut code in 0..total {
                let mut ops = build_ops(&fo, 0);
                for o in &mut ops {
                    o.b += labels[code % labels.len()];
                    code /= labels.len();
                }
                k += 1;
                if !out(Case { id: (k % 7) as u8, mode: 0, ops, prog: vec![k as u16, (k / 3) as u16] }) {
                    return;
                }
            }
        }
    }
    for size in 5..=7 {
        for fo in forests(size) {
            let mut ops = build_ops(&fo, 1);
            for (i, o) in ops.iter_mut().enumerate() {
                o.b += ((k + i * 5) % 16) as u16;
            }
            k += 1;
            if !out(Case { id: (k % 7) as u8, mode: 1, ops, prog: (0..9).map(|j| (k * 37 + j * 1009) as u16).collect() }) {
                return;
            }
        }
    }
}

// ------------------------------------------------------------------- C19: cost

const STACK: usize = 192 * 1024;

/// Work that the node visits do not show, such as a scan over the storage, shows in
/// the processor time: per allowed visit, and on top of it. A visit takes some 5 ns,
/// 30 ns unoptimised.
const VISIT_NS: u64 = 20;
const SPARE_NS: u64 = 20_000_000;
const SLOW: &str = "of processor time";

/// Runs a call and compares its node visits, and its processor time, with a bound.
fn cost<R>(what: &str, bound: u64, f: impl FnOnce() -> R) -> Result<R, Fail> {
    cost_in(what, bound, bound.saturating_mul(VISIT_NS).saturating_add(SPARE_NS), f)
}

fn cost_in<R>(what: &str, bound: u64, ns: u64, f: impl FnOnce() -> R) -> Result<R, Fail> {
    budget(bound);
    let before = steps();
    let t = cpu_ns();
    let r = guard(f);
    let t = cpu_ns() - t;
    let used = steps() - before;
    budget(u64::MAX);
    match r {
        Ok(_) if used > bound => fail(Cat::Cost, format!("{what}: {used} node visits, more than {bound}")),
        Ok(_) if t > ns => fail(Cat::Cost, format!("{what}: {} us {SLOW} for {used} node visits, more than {} us", t / 1000, ns / 1000)),
        Ok(v) => Ok(v),
        Err(p) if p.class == PanicClass::OutOfSteps => fail(Cat::Cost, format!("{what}: more than {bound} node visits")),
        Err(p) => fail(Cat::PanicValid, format!("{what}: panicked: {}", p.msg)),
    }
}

const C: u64 = 24;
const K0: u64 = 2000;

fn c19_shape<Id: TestId>(case: &Case, rec: &mut Rec) -> Res {
    ledger::reset();
    let p = &case.prog;
    let k = at(p, 0) as usize % SHAPES.len();
    let n = 1 + at(p, 1) as usize;
    let which = at(p, 3) % 21;
    let Slot { mut f, mut c } = match shape::<Id>(k, n, at(p, 2) as u64) {
        Ok(s) => s,
        Err(e) => {
            rec.foreign(format!("{:?}", e.cat));
            return Ok(());
        }
    };
    // The start: the root, or any node.
    let start = match at(p, 4) % 4 {
        0 | 1 => 0,
        2 => at(p, 4) as usize / 4 % n.min(40),
        _ => at(p, 4) as usize / 4 % n,
    };
    let id = c.ids[start];
    let mut size = 0u64;
    let mut st = vec![(start, 0usize)];
    let mut depths: Vec<u64> = vec![];
    while let Some((x, d)) = st.pop() {
        size += 1;
        if depths.len() <= d {
            depths.resize(d + 1, 0);
        }
        depths[d] += 1;
        st.extend(c.m.children(x).iter().map(|y| (*y, d + 1)));
    }
    let height = depths.len() - 1;
    let up = c.m.ancestors(start).len() as u64;
    let name = format!("{} of {n} nodes, start n{start} with {size} below, height {height}", SHAPES[k]);
    rec.class(&format!("shape: {}", SHAPES[k]));
    rec.class(&format!("cost of {which:02}"));
    if rec.want_trace {
        rec.trace.push(format!("cost {which}: {name}"));
    }
    let lin = C * (size + 4) + K0;
    let want = 2 * size;
    let wrong = |what: &str, got: u64, want: u64| -> Res {
        if got == want { Ok(()) } else { fail(Cat::Cost, format!("{what}: stops after {got} of {want} items ({name})")) }
    };
    match which {
        0 => {
            let g = cost(&format!("depth-first, {name}"), lin, || f.depth_first_traverse(id).count() as u64)?;
            wrong("depth-first", g, want)?;
        }
        1 => {
            let g = cost(&format!("depth-first from the back, {name}"), lin, || f.depth_first_traverse(id).rev().count() as u64)?;
            wrong("depth-first", g, want)?;
        }
        2 => {
            let g = cost(&format!("depth-first from both ends, {name}"), lin * 3, || {
                let mut it = f.depth_first_traverse(id);
                let mut g = 0u64;
                let mut i = 0;
                loop {
                    i += 1;
                    let _ = it.peek();
                    let _ = it.peek_back();
                    let x = if at(p, i) % 2 == 0 { it.next() } else { it.next_back() };
                    if x.is_none() {
                        break g;
                    }
                    g += 1;
                }
            })?;
            wrong("depth-first", g, want)?;
        }
        3..=5 => {
            let l = match at(p, 5) % 6 {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => height / 2,
                4 => height,
                _ => height + 1,
            };
            let part: u64 = depths.iter().take(l + 1).sum();
            let b = C * (part + 4) + K0;
            let what = format!("shallow depth-first to depth {l}, {name}");
            let g = cost(&what, if which == 5 { 3 * b } else { b }, || {
                let it = f.shallow_depth_first_traverse(id, Some(l));
                match which {
                    3 => it.count() as u64,
                    4 => it.rev().count() as u64,
                    _ => {
                        let mut it = it;
                        let mut g = 0u64;
                        let mut i = 0;
                        loop {
                            i += 1;
                            let _ = it.peek();
                            let _ = it.peek_back();
                            let x = if at(p, i) % 2 == 0 { it.next() } else { it.next_back() };
                            if x.is_none() {
                                break g;
                            }
                            g += 1;
                        }
                    }
                }
            })?;
            wrong(&what, g, 2 * part)?;
        }
        6 => {
            let g = cost(&format!("allocating breadth-first, {name}"), lin, || f.allocating_breadth_first_traverse(id).count() as u64)?;
            wrong("allocating breadth-first", g, size)?;
        }
        7 => {
            if size * (height as u64 + 1) < 6_000_000 {
                let b = C * (size + 4) * (height as u64 + 4) + K0;
                let b = b.min(C * (size + 4) * (size + 4) + K0);
                // At most quadratic; one full walk per level at most is what it does.
                let b = b.max(C * (size + 4) * (size + 4) / 4);
                let g = cost(&format!("breadth-first, {name}"), b, || f.breadth_first_traverse(id).count() as u64)?;
                wrong("breadth-first", g, size)?;
            } else {
                // A prefix only.
                cost(&format!("start of breadth-first, {name}"), C * (size + 4) * 60 + K0, || f.breadth_first_traverse(id).take(40).count())?;
            }
        }
        8 => {
            let nch = c.m.children(start).len() as u64;
            let g = cost(&format!("children, {name}"), C * (nch + 4) + K0, || f.children(id).count() as u64)?;
            wrong("children", g, nch)?;
            let g = cost(&format!("ancestors, {name}"), C * (up + 4) + K0, || f.ancestors(id).count() as u64)?;
            wrong("ancestors", g, up)?;
            let sib = c.m.siblings(start);
            let i = sib.iter().position(|x| *x == start).unwrap() as u64;
            let n = sib.len() as u64;
            let b = C * (n + 4) + K0;
            let g = cost("following siblings", b, || f.following_siblings(id).count() as u64)?;
            wrong("following siblings", g, n - i - 1)?;
            let g = cost("preceding siblings", b, || f.preceding_siblings(id).rev().count() as u64)?;
            wrong("preceding siblings", g, i)?;
        }
        _ => {
            // Edits: polynomial in the whole forest, in a small stack.
            let q = C * (n as u64 + 8) * (n as u64 + 8);
            match which {
                9 => cost(&format!("remove, {name}"), q, || f.remove(id))?,
                10 => {
                    let mut k = 0u64;
                    cost(&format!("remove_hooked, {name}"), q, || f.remove_hooked(id, |_| k += 1))?;
                    wrong("remove_hooked", k, size)?;
                }
                11 => {
                    let mut k = 0u64;
                    cost(&format!("remove_hooked_panic_safe, {name}"), q, || f.remove_hooked_panic_safe(id, |_| k += 1))?;
                    wrong("remove_hooked_panic_safe", k, size)?;
                }
                12 => {
                    if size <= 30_000 {
                        let r = cost(&format!("clone_local_tree, {name}"), q, || f.clone_local_tree(id))?;
                        let g = cost("the copy", lin, || f.depth_first_traverse(r).count() as u64)?;
                        wrong("the copy", g, want)?;
                    }
                    let g = cost("Forest::clone", q, || f.clone())?;
                    drop(g);
                }
                13 => {
                    cost(&format!("detach, {name}"), q, || f.detach(id))?;
                    let _ = cost(&format!("detach_single, {name}"), q, || f.detach_single(id))?;
                    drop(cost("clone", q, || f.clone())?);
                }
                14 => {
                    if size * (height as u64 + 1) <= 8_000_000 {
                        let mut s = Sink { s: String::new(), cap: 40_000_000 };
                        let r = cost(&format!("debug print, {name}"), q, || write!(s, "{}", f.debug_print(id)).is_ok())?;
                        let mut s = Sink { s: String::new(), cap: 100_000 };
                        let _ = cost(&format!("debug print, {name}"), q, || write!(s, "{:?}", f.debug_print(id)))?;
                        if !r {
                            return fail(Cat::Cost, format!("debug print is far too long ({name})"));
                        }
                    }
                    // Cut off early, it ends early.
                    for alt in [false, true] {
                        let mut s = Sink { s: String::new(), cap: 3000 };
                        let _ = cost(&format!("start of debug print, {name}"), q, || {
                            if alt { write!(s, "{:?}", f.debug_print(id)) } else { write!(s, "{}", f.debug_print(id)) }
                        })?;
                    }
                    let mut s = Sink { s: String::new(), cap: 3000 };
                    let _ = cost(&format!("Debug of the forest, {name}"), q, || write!(s, "{:?}", f))?;
                }
                16 => {
                    // Deep copies take quadratic time.
                    if size <= 16_000 || height < 600 {
                        let mut g: Forest<Id, P> = Forest::new();
                        if at(p, 5) % 2 == 0 {
                            for i in 0..20 {
                                let _ = g.create_root(P::new(i));
                            }
                        }
                        let sn = f.node(id).expect("[harness] start");
                        let mut k = 0u64;
                        let r = cost(&format!("clone_foreign_tree, {name}"), q, || g.clone_foreign_tree_with_id_mapping(sn, |_, _| k += 1))?;
                        wrong("the mapping", k, size)?;
                        let n = cost("the foreign copy", lin, || g.depth_first_traverse(r).count() as u64)?;
                        wrong("the foreign copy", n, want)?;
                        if size <= 4000 {
                            let r = cost(&format!("clone_foreign_tree, {name}"), q, || g.clone_foreign_tree(sn))?;
                            let n = cost("the foreign copy", lin, || g.depth_first_traverse(r).count() as u64)?;
                            wrong("the foreign copy", n, want)?;
                        }
                        let mut k = 0u64;
                        let mut h = f.clone();
                        cost(&format!("clone_local_tree_with_id_mapping, {name}"), q, || h.clone_local_tree_with_id_mapping(id, |_, _| k += 1))?;
                        wrong("the mapping", k, size)?;
                    }
                }
                17 => {
                    // A hook that panics, then the rest.
                    let stop = 1 + at(p, 5) as u64 % size;
                    let mut k = 0u64;
                    let r = cost("", q, || {
                        guard(|| {
                            f.remove_hooked_panic_safe(id, |_| {
                                k += 1;
                                if k == stop {
                                    panic!("{}", USER_PANIC);
                                }
                            })
                        })
                        .is_err()
                    })?;
                    if !r {
                        return fail(Cat::Cost, format!("a panicking hook goes unnoticed ({name})"));
                    }
                    if f.node(id).is_some() {
                        cost(&format!("remove what is left, {name}"), q, || f.remove_hooked_panic_safe(id, |_| k += 1))?;
                    }
                    wrong("remove_hooked_panic_safe, twice", k, size)?;
                }
                18 => {
                    let m = n.min(6000);
                    let q = C * (m as u64 + 8) * (m as u64 + 8);
                    cost(&format!("chain builder, {m} levels"), q, || {
                        let mut b = treena::dynamic::ChainTreeBuilder::new(&mut f, P::new(1));
                        for i in 0..m as u32 {
                            b.child(P::new(i));
                            if i % 3 == 1 {
                                b.sibling(P::new(i));
                            }
                        }
                        while b.try_parent().is_some() {}
                    })?;
                }
                19 => {
                    // Singly detached, from the deepest or the top, node by node.
                    let m = n.min(1500);
                    let q = C * (n as u64 + 8) * (n as u64 + 8);
                    for j in 0..m {
                        let k = if at(p, 5) % 2 == 0 { c.ids[j] } else { c.ids[n - 1 - j] };
                        let _ = cost(&format!("detach_single, {name}"), q / 16, || f.detach_single(k))?;
                    }
                    let m = f.node(c.ids[n - 1]).is_some();
                    if !m {
                        return fail(Cat::Cost, format!("a node vanished ({name})"));
                    }
                }
                20 => beside(&mut f, &name, p)?,
                _ => {
                    // Moves between random places, and a creation at the deepest one.
                    for j in 0..12 {
                        let a = at(p, 6 + j) as usize % n;
                        let b = at(p, 20 + j) as usize % n;
                        let w = WHERES[at(p, 40 + j) as usize % 4];
                        let (ia, ib) = (c.ids[a], c.ids[b]);
                        let _ = cost(&format!("insert, {name}"), q, || f.insert(ia, ins(w, ib)))?;
                        if j % 3 == 0 {
                            let _ = cost(&format!("create, {name}"), q, || f.create_insert(P::new(1), InsertAs::LastChildOf(ib)))?;
                        }
                    }
                }
            }
        }
    }
    // Dropping must not recurse either.
    drop(f);
    c.ids.clear();
    Ok(())
}

fn c19_hist<Id: TestId>(case: &Case, rec: &mut Rec) -> Res {
    let mut env = Env::new();
    if rec.want_trace {
        env.trace = Some(vec![]);
    }
    let (mut w, r) = run_world::<Id>(env, &case.ops);
    tally(rec, &w, case);
    rec.trace = w.env.trace.take().unwrap_or_default();
    match r {
        Err(f) if f.cat == Cat::Hang || (f.cat == Cat::PanicRead && f.msg.contains("treena_verif")) => return Err(f),
        Err(f) => {
            rec.foreign(format!("{:?}", f.cat));
            let at = w.spans.last().map_or(0, |s| s.0 + s.1);
            w = run_world::<Id>(Env::new(), &case.ops[..at]).0;
        }
        Ok(()) => {}
    }
    // Every traversal of the state that the history reached, within its bound.
    let s = w.slot();
    for n in some(s.c.m.alive(), &case.prog, 6) {
        let id = s.c.ids[n];
        let lv = s.c.m.levels(n);
        let size = lv.len() as u64;
        let f = &s.f;
        let l = at(&case.prog, n) as usize % 5;
        let part = lv.iter().filter(|x| x.1 <= l).count() as u64;
        let k = 400;
        if size > 30 {
            rec.nontrivial(hash_of(case));
        }
        cost(&format!("depth-first at n{n}"), C * (size + 4) + k, || f.depth_first_traverse(id).take(2 * size as usize + 2).count())?;
        cost(&format!("depth-first from the back at n{n}"), C * (size + 4) + k, || f.depth_first_traverse(id).rev().take(2 * size as usize + 2).count())?;
        cost(&format!("shallow depth-first to {l} at n{n}"), C * (part + 4) + k, || f.shallow_depth_first_traverse(id, Some(l)).take(2 * size as usize + 2).count())?;
        cost(&format!("shallow depth-first to {l} from the back at n{n}"), C * (part + 4) + k, || f.shallow_depth_first_traverse(id, Some(l)).rev().take(2 * size as usize + 2).count())?;
        cost(&format!("allocating breadth-first at n{n}"), C * (size + 4) + k, || f.allocating_breadth_first_traverse(id).take(size as usize + 2).count())?;
        cost(&format!("breadth-first at n{n}"), C * (size + 4) * (size + 4) + k, || f.breadth_first_traverse(id).take(size as usize + 2).count())?;
    }
    Ok(())
}

pub fn c19(case: &Case, rec: &mut Rec) -> Res {
    if case.mode == 0 {
        return with_few!(case.id, c19_hist(case, rec));
    }
    rec.eval(1);
    rec.nontrivial(hash_of(case));
    let mut r = c19_once(case, rec);
    // Too much processor time counts only if it is so each time.
    for _ in 0..3 {
        if !matches!(&r, Err(f) if f.msg.contains(SLOW)) {
            break;
        }
        rec.class("slow");
        r = c19_once(case, &mut Rec::default());
    }
    r
}

fn c19_once(case: &Case, rec: &mut Rec) -> Res {
    // In a thread with a small stack. An overflow kills the process, which is then reported.
    let mut r2 = Rec { want_trace: rec.want_trace, ..Rec::default() };
    let case2 = case.clone();
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let r = with_two!(case2.id, c19_shape(&case2, &mut r2));
        (r, r2)
    });
    let (r, r2) = h.expect("thread").join().expect("[harness] C19 thread");
    for (k, v) in &r2.classes {
        rec.class_n(k, *v);
    }
    rec.trace = r2.trace;
    match r {
        Err(f) if f.cat == Cat::PanicValid => {
            rec.foreign(format!("{:?}", f.cat));
            Ok(())
        }
        r => r,
    }
}

/// The cost of work on a small tree does not depend on what else the forest holds.
fn beside<Id: TestId>(f: &mut Forest<Id, P>, name: &str, p: &[u16]) -> Res {
    let m = 12u64;
    let q = C * (m + 8) * (m + 8) + K0;
    let mut v: Vec<Id> = vec![];
    v.push(cost(&format!("create_root beside {name}"), q, || f.create_root(P::new(1)))?);
    for j in 1..m as usize {
        let a = v[at(p, 5 + j) as usize % v.len()];
        let w = if a == v[0] { WHERES[j % 2] } else { WHERES[at(p, 17 + j) as usize % 4] };
        v.push(cost(&format!("create_insert beside {name}"), q, || f.create_insert(P::new(1), ins(w, a)))?);
    }
    let root = v[0];
    let what = |s: &str| format!("{s} of a tree of {m} nodes beside {name}");
    for x in &v {
        let x = *x;
        cost(&what("depth-first"), q, || f.depth_first_traverse(x).count() + f.depth_first_traverse(x).rev().count())?;
        cost(&what("shallow depth-first"), q, || f.shallow_depth_first_traverse(x, Some(1)).count() + f.shallow_depth_first_traverse(x, None).rev().count())?;
        cost(&what("breadth-first"), q, || f.breadth_first_traverse(x).count() + f.allocating_breadth_first_traverse(x).count())?;
        cost(&what("siblings, children, ancestors"), q, || {
            f.children(x).count() + f.ancestors(x).count() + f.ancestors_or_self(x).count()
                + f.following_siblings(x).count() + f.preceding_siblings(x).rev().count()
                + f.following_siblings_or_self(x).rev().count() + f.preceding_siblings_or_self(x).count()
        })?;
        cost(&what("links"), q, || {
            let n = f.node(x).expect("[harness] node");
            (n.parent_id(), n.next_sibling_id(), n.prev_sibling_id(), n.first_child_id(), n.last_child_id())
        })?;
    }
    // Often enough for work on the rest of the storage to show.
    let reps = 2000;
    let ns = 25_000_000;
    let what = |s: &str| format!("{reps} times {s} of a tree of {m} nodes beside {name}");
    for (i, x) in v.iter().enumerate().filter(|(i, _)| i % 5 == at(p, 5) as usize % 5) {
        let x = *x;
        let y = v[(i + 1) % v.len()];
        cost_in(&what("links"), q * reps, ns, || {
            for _ in 0..reps {
                let n = f.node(std::hint::black_box(x)).expect("[harness] node");
                std::hint::black_box((n.parent_id(), n.next_sibling_id(), n.prev_sibling_id(), n.first_child_id(), n.last_child_id()));
            }
        })?;
        cost_in(&what("data"), q * reps, ns, || {
            for _ in 0..reps {
                std::hint::black_box((f.data(x).is_some(), f.data_mut(x).is_some()));
            }
        })?;
        cost_in(&what("siblings, children, ancestors"), q * reps, ns, || {
            for _ in 0..reps {
                std::hint::black_box(
                    f.children(x).count() + f.ancestors(x).count() + f.following_siblings(x).count() + f.preceding_siblings(x).count(),
                );
            }
        })?;
        cost_in(&what("create_insert and remove"), q * reps, ns, || {
            for i in 0..reps {
                let n = f.create_insert(P::new(1), ins(WHERES[i as usize % 2], x));
                if i % 2 == 0 { f.remove(n) } else { f.remove_hooked(n, |_| ()) }
            }
        })?;
        cost_in(&what("create_root and remove"), q * reps, ns, || {
            for i in 0..reps {
                let n = f.create_root(P::new(1));
                if i % 2 == 0 { f.remove_hooked_panic_safe(n, |_| ()) } else { f.remove(n) }
            }
        })?;
        cost_in(&what("detach and insert"), q * reps, ns, || {
            for i in 0..reps {
                if y != root {
                    f.detach(y);
                    let _ = f.insert(y, ins(WHERES[i as usize % 2], root));
                }
            }
        })?;
    }
    let reps = 100;
    let what = |s: &str| format!("{reps} times {s} of a tree of {m} nodes beside {name}");
    cost_in(&what("traversal"), q * 4 * reps, ns, || {
        for _ in 0..reps {
            std::hint::black_box(
                f.depth_first_traverse(root).count()
                    + f.shallow_depth_first_traverse(root, Some(2)).rev().count()
                    + f.breadth_first_traverse(root).count()
                    + f.allocating_breadth_first_traverse(root).count(),
            );
        }
    })?;
    cost_in(&what("copy and remove"), q * 4 * reps, ns, || {
        for _ in 0..reps {
            let r = f.clone_local_tree(root);
            f.remove(r);
        }
    })?;
    let what = |s: &str| format!("{s} of a tree of {m} nodes beside {name}");
    let mut s = String::new();
    let r = cost(&what("debug print"), q, || write!(s, "{}", f.debug_print(root)).is_ok())?;
    let _ = r;
    let c = cost(&what("clone_local_tree"), q, || f.clone_local_tree(root))?;
    let mut g: Forest<Id, P> = Forest::new();
    cost(&what("clone_foreign_tree"), q, || g.clone_foreign_tree(f.node(root).expect("[harness] node")))?;
    for j in 0..8 {
        let (a, b) = (v[at(p, 6 + j) as usize % v.len()], v[at(p, 9 + j) as usize % v.len()]);
        let w = WHERES[at(p, 3 + j) as usize % 4];
        let _ = cost(&what("insert"), q, || f.insert(a, ins(w, b)))?;
    }
    let _ = cost(&what("detach_single"), q, || f.detach_single(v[1]))?;
    cost(&what("detach"), q, || f.detach(v[2]))?;
    cost(&what("remove"), q, || f.remove(v[2]))?;
    cost(&what("remove_hooked"), q, || f.remove_hooked(c, |_| ()))?;
    if f.node(root).is_some() {
        cost(&what("remove_hooked_panic_safe"), q, || f.remove_hooked_panic_safe(root, |_| ()))?;
    }
    Ok(())
}

pub fn enumerate_c19(thorough: bool, out: &mut dyn FnMut(Case) -> bool) {
    let sizes: &[u16] = if thorough { &[300, 2000, 12000, 40000, 60000] } else { &[300, 2000, 30000] };
    for which in 0..21u16 {
        for k in 0..SHAPES.len() as u16 {
            for n in sizes {
                for (j, s) in [0u16, 6, 4 * 9 + 2].into_iter().enumerate() {
                    let lims = if (3..=5).contains(&which) { 6 } else { 1 };
                    for l in 0..lims {
                        if *n > 20_000 && j > 0 && lims == 1 {
                            continue;
                        }
                        let id = (which + k) as u8 % 2;
                        if !out(Case { id, mode: 1, ops: vec![], prog: vec![k, *n, 7 + k, which, s, l, 9000, 77, 12345, 3, 500] }) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C20: routes

fn flip(ops: &[Op], by: u16) -> Vec<Op> {
    ops.iter()
        .map(|o| {
            let mut o = *o;
            if matches!(o.k % NKINDS as u8, K_CREATE | K_INSERT | K_DETACH | K_DSINGLE | K_REMOVE | K_RMPANIC | K_SET | K_PRUNE) {
                o.d = o.d % 6 + by;
            }
            o
        })
        .collect()
}

/// Outcomes agree; `adopt` panics where the others return an error.
fn same_out(a: (u8, u8), b: (u8, u8)) -> bool {
    a == b || (a.0 != b.0 && a.0 != 1 && b.0 != 1 && {
        let p = if a.0 == 3 { a } else { b };
        p.1 == PanicClass::Precondition as u8
    })
}

fn c20_run<Id: TestId>(case: &Case, rec: &mut Rec) -> Res {
    let run = |ops: &[Op], trace: bool| {
        let mut env = Env::new();
        env.hash_obs = false;
        env.outs = Some(vec![]);
        if trace {
            env.trace = Some(vec![]);
        }
        run_world::<Id>(env, ops)
    };
    let (mut a, ra) = run(&case.ops, rec.want_trace);
    tally(rec, &a, case);
    rec.trace = a.env.trace.take().unwrap_or_default();
    let outs_a = a.env.outs.take().unwrap_or_default();
    let fin = if ra.is_ok() && a.env.tags_seen & T_HUGE == 0 { accessors(&mut a, &case.prog).and_then(|()| proxy_life(&mut a, &case.prog, rec)) } else { Ok(()) };
    let na = a.spans.len();
    let mut res = Ok(());
    // The same calls by the other routes.
    for by in [1u16, 2] {
        let (mut b, rb) = run(&flip(&case.ops, by), false);
        let outs_b = b.env.outs.take().unwrap_or_default();
        let step = |f: &Fail| f.step.min(case.ops.len());
        let msg = match (&ra, &rb) {
            (Ok(()), Ok(())) => outs_a.iter().zip(&outs_b).position(|(x, y)| !same_out(*x, *y))
                .map(|k| (0, format!("call {k} has outcome {:?} by one route, and {:?} by the other", outs_a[k], outs_b[k]))),
            (Ok(()), Err(f)) => Some((step(f), format!("works by one route, but not by the other (routes shifted by {by}): {}", f.msg))),
            (Err(f), Ok(())) => Some((step(f), format!("works by the other route (routes shifted by {by}), but not by this: {}", f.msg))),
            (Err(f), Err(g)) if f.step != g.step || f.cat != g.cat => {
                let h = if f.step <= g.step { f } else { g };
                Some((step(h), format!("differs by route: {} / {}", f.msg, g.msg)))
            }
            (Err(f), Err(_)) => {
                rec.foreign(format!("{:?}", f.cat));
                None
            }
        };
        drop(b);
        if let Some((s, m)) = msg {
            res = Err(Fail { cat: Cat::Route, msg: m, step: s, tags: 0, outside: false });
            break;
        }
    }
    if na >= 4 && a.env.tags_seen & (T_INSERT | T_DETACH | T_DSINGLE | T_REMOVE) != 0 {
        rec.nontrivial(hash_of(case));
    }
    res?;
    fin
}

/// Forest methods, node proxies and ID accessors tell the same.
fn accessors<Id: TestId>(w: &mut World<Id>, prog: &[u16]) -> Res {
    let cur = w.cur;
    let Slot { f, c } = &mut w.slots[cur];
    let lim = 2 * c.ids.len() + 4;
    for n in some(c.m.alive(), prog, 10) {
        let id = c.ids[n];
        limited(lim * 4, Cat::Route, "comparing routes", || {
            let bad = |m: &str| Err(format!("{m} differs between the forest and the node proxy of n{n}"));
            {
                let nm = f.node_mut(id).ok_or("node_mut() finds nothing where node() does")?;
                let x = nm.node();
                if nm.id() != id || x.id() != id || !std::ptr::eq(nm.data(), x.data()) || nm.forest().data(id).is_none() {
                    return bad("NodeMut");
                }
                let pr = nm.debug_print().to_string();
                if pr != nm.node().debug_print().to_string() {
                    return bad("debug_print");
                }
                let y = nm.into_node();
                if y.id() != id || !std::ptr::eq(y.data(), y.forest().data(id).unwrap()) {
                    return bad("into_node");
                }
            }
            {
                let p: *const P = f.data(id).unwrap();
                let q: *const P = f.data_mut(id).unwrap();
                let r: *const P = f.node_mut(id).unwrap().data_mut();
                let s: *const P = f.node_mut(id).unwrap().into_data_ref_mut();
                let t: *const P = f.node(id).unwrap().data();
                if p != q || p != r || p != s || p != t {
                    return bad("the place of the data");
                }
            }
            let x = f.node(id).ok_or("not alive")?;
            #[allow(clippy::clone_on_copy)]
            let y = x.clone();
            if y.id() != id || !std::ptr::eq(x.forest(), f) || !std::ptr::eq(y.forest(), f) {
                return bad("forest()");
            }
            let i = |n: Option<Node<'_, Id, P>>| n.map(|n| n.id());
            if i(x.parent()) != x.parent_id() {
                return bad("parent");
            }
            if i(x.next_sibling()) != x.next_sibling_id() {
                return bad("next_sibling");
            }
            if i(x.prev_sibling()) != x.prev_sibling_id() {
                return bad("prev_sibling");
            }
            if i(x.first_child()) != x.first_child_id() {
                return bad("first_child");
            }
            if i(x.last_child()) != x.last_child_id() {
                return bad("last_child");
            }
            if x.first_last_child().map(|(a, b)| (a.id(), b.id())) != x.first_last_child_id()
                || x.first_last_child_id() != x.first_child_id().zip(x.last_child_id())
            {
                return bad("first_last_child");
            }
            let m = |n: Node<'_, Id, P>| (n.id(), n.data() as *const P as usize);
            macro_rules! same {
                ($name:expr, $a:expr, $b:expr, $map:expr) => {{
                    let g: Vec<_> = $a.take(lim).map($map).collect();
                    let h: Vec<_> = $b.take(lim).map($map).collect();
                    if g != h {
                        return bad($name);
                    }
                }};
            }
            macro_rules! both {
                ($name:expr, $a:expr, $b:expr, $map:expr) => {{
                    same!($name, $a, $b, $map);
                    same!($name, $a.rev(), $b.rev(), $map);
                }};
            }
            let e = |e: treena::dynamic::DftEvent<Node<'_, Id, P>>| match e {
                treena::dynamic::DftEvent::Open(n) => (true, m(n)),
                treena::dynamic::DftEvent::Close(n) => (false, m(n)),
            };
            both!("depth_first_traverse", f.depth_first_traverse(id), x.depth_first_traverse(), e);
            for l in [None, Some(0), Some(1), Some(at(prog, n) as usize % 6), Some(usize::MAX)] {
                both!("shallow_depth_first_traverse", f.shallow_depth_first_traverse(id, l), x.shallow_depth_first_traverse(l),
                    |v: (_, usize)| (e(v.0), v.1));
            }
            if c.ids.len() < 300 {
                same!("breadth_first_traverse", f.breadth_first_traverse(id), x.breadth_first_traverse(), |v: (_, usize)| (m(v.0), v.1));
            }
            same!("allocating_breadth_first_traverse", f.allocating_breadth_first_traverse(id),
                x.allocating_breadth_first_traverse(), |v: (_, usize)| (m(v.0), v.1));
            same!("ancestors", f.ancestors(id), x.ancestors(), m);
            same!("ancestors_or_self", f.ancestors_or_self(id), x.ancestors_or_self(), m);
            both!("children", f.children(id), x.children(), m);
            both!("following_siblings", f.following_siblings(id), x.following_siblings(), m);
            both!("following_siblings_or_self", f.following_siblings_or_self(id), x.following_siblings_or_self(), m);
            both!("preceding_siblings", f.preceding_siblings(id), x.preceding_siblings(), m);
            both!("preceding_siblings_or_self", f.preceding_siblings_or_self(id), x.preceding_siblings_or_self(), m);
            if c.ids.len() < 200 {
                if f.debug_print(id).to_string() != x.debug_print().to_string()
                    || format!("{:?}", f.debug_print(id)) != format!("{:?}", x.debug_print())
                {
                    return bad("debug_print");
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

/// One step on a proxy that lives on, and the same step by the forest.
#[derive(Clone, Copy, Debug)]
enum Life {
    Create(Where),
    Adopt(usize, Where, bool),
    Detach,
    DetachSingle,
    Data(u32),
}

fn proxy_life<Id: TestId>(w: &mut World<Id>, prog: &[u16], rec: &mut Rec) -> Res {
    let cur = w.cur;
    let Slot { f, c } = &mut w.slots[cur];
    let alive = c.m.alive();
    if alive.is_empty() || prog.len() < 4 {
        return Ok(());
    }
    if c.leaks > 0 && c.ids.len() + c.leaks + 20 > Id::CAP {
        // The twin has fewer IDs used up, so that it may still create where this forest cannot.
        return Ok(());
    }
    let n = alive[at(prog, 0) as usize % alive.len()];
    // A twin made plainly, on which the same is done by the forest's methods.
    let mut twin = match fresh::<Id>(&c.m) {
        Some(t) => t,
        None => return Ok(()),
    };
    let steps: Vec<Life> = prog[1..]
        .iter()
        .take(10)
        .map(|x| {
            let (k, r) = (x % 8, x / 8);
            match k {
                0 | 1 => Life::Create(WHERES[r as usize % 4]),
                2..=4 => {
                    // Half of the moves take a child of the tree or a sibling, half anything.
                    let v = if r % 2 == 0 { alive.clone() } else { c.m.siblings(n) };
                    Life::Adopt(v[(r as usize / 16) % v.len()], WHERES[(r as usize / 4) % 4], r / 2 % 2 == 0)
                }
                5 => Life::Detach,
                6 => Life::DetachSingle,
                _ => Life::Data(r as u32),
            }
        })
        .collect();
    let id = c.ids[n];
    let tid = twin.c.ids[n];
    let serial = c.m.nodes[n].serial;
    let lim = step_limit(c.ids.len() + 20);
    let mut made: Vec<(usize, Id, u32)> = vec![];
    let mut log = vec![];
    budget(lim);
    let r = guard(|| -> Res {
        let Some(mut nm) = f.node_mut(id) else { return fail(Cat::Route, "node_mut() finds nothing") };
        for (k, s) in steps.iter().enumerate() {
            log.push(format!("{s:?}"));
            let what = format!("step {k} ({s:?}) on one proxy of n{n}");
            budget(lim);
            let a: Result<Option<Id>, (u8, u8)> = match *s {
                Life::Create(w) => {
                    let serial = ledger::next();
                    match guard(|| nm.create(P::new(k as u32), adp(w))) {
                        Ok(i) => {
                            made.push((made.len(), i, serial));
                            Ok(Some(i))
                        }
                        Err(p) => Err((3, p.class as u8)),
                    }
                }
                Life::Adopt(x, w, true) => {
                    let x = c.ids[x];
                    match guard(|| nm.try_adopt(x, adp(w))) {
                        Ok(Ok(())) => Ok(None),
                        Ok(Err(e)) => Err((2, serr(e) as u8)),
                        Err(p) => Err((3, p.class as u8)),
                    }
                }
                Life::Adopt(x, w, false) => {
                    let x = c.ids[x];
                    guard(|| nm.adopt(x, adp(w))).map(|()| None).map_err(|p| (3, p.class as u8))
                }
                Life::Detach => guard(|| nm.detach()).map(|()| None).map_err(|p| (3, p.class as u8)),
                Life::DetachSingle => match guard(|| nm.detach_single()) {
                    Ok(Ok(())) => Ok(None),
                    Ok(Err(e)) => Err((2, serr(e) as u8)),
                    Err(p) => Err((3, p.class as u8)),
                },
                Life::Data(v) => {
                    nm.data_mut().val = v;
                    Ok(None)
                }
            };
            budget(lim);
            // By the forest.
            let t = &mut twin;
            let b: Result<Option<Id>, (u8, u8)> = match *s {
                Life::Create(w) => match guard(|| t.f.create_insert(P::new(k as u32), ins(w, tid))) {
                    Ok(i) => Ok(Some(i)),
                    Err(p) => Err((3, p.class as u8)),
                },
                Life::Adopt(x, w, _) => {
                    let x = t.c.ids[x];
                    match guard(|| t.f.insert(x, ins(w, tid))) {
                        Ok(Ok(())) => Ok(None),
                        Ok(Err(e)) => Err((2, serr(e) as u8)),
                        Err(p) => Err((3, p.class as u8)),
                    }
                }
                Life::Detach => guard(|| t.f.detach(tid)).map(|()| None).map_err(|p| (3, p.class as u8)),
                Life::DetachSingle => match guard(|| t.f.detach_single(tid)) {
                    Ok(Ok(())) => Ok(None),
                    Ok(Err(e)) => Err((2, serr(e) as u8)),
                    Err(p) => Err((3, p.class as u8)),
                },
                Life::Data(v) => {
                    if let Some(d) = t.f.data_mut(tid) {
                        d.val = v;
                    }
                    Ok(None)
                }
            };
            match (&a, &b) {
                (Ok(_), Ok(_)) => {}
                (Err(x), Err(y)) if same_out(*x, *y) => {}
                _ => {
                    let s = |r: &Result<Option<Id>, (u8, u8)>| match r {
                        Ok(_) => "accepted".to_string(),
                        Err(c) => format!("refused {c:?}"),
                    };
                    return fail(Cat::Route, format!("{what}: {}, but {} by the forest", s(&a), s(&b)));
                }
            }
            if let (Ok(Some(i)), Ok(Some(j))) = (&a, &b) {
                let u = c.m.add_root(*made.last().map(|m| &m.2).unwrap(), k as u32);
                c.ids.push(*i);
                c.index.insert(*i, u);
                t.c.m.add_root(0, k as u32);
                t.c.ids.push(*j);
                t.c.index.insert(*j, u);
            }
            budget(lim);
            if nm.id() != id || nm.node().id() != id || nm.data().serial != serial {
                return fail(Cat::Route, format!("{what}: the proxy now names another node"));
            }
            // Both forests must look alike.
            budget(lim);
            let (oa, ob) = (observe(nm.forest(), c), observe(&t.f, &t.c));
            for (i, (x, y)) in oa.iter().zip(&ob).enumerate() {
                let lk = |o: &Obs| (o.alive, o.has_data, o.parent, o.prev, o.next, o.first, o.last, o.val, o.own);
                if lk(x) != lk(y) {
                    return fail(Cat::Route, format!("{what}: n{i} is {:?} by the proxy, but {:?} by the forest", lk(x), lk(y)));
                }
            }
        }
        if nm.into_node().id() != id {
            return fail(Cat::Route, format!("into_node() of the proxy of n{n} names another node"));
        }
        Ok(())
    });
    budget(u64::MAX);
    rec.class("one proxy through several edits");
    if !rec.trace.is_empty() {
        rec.trace.push(format!("one proxy of n{n}: {}", log.join(", ")));
    }
    match r {
        Ok(r) => r,
        Err(p) => fail(Cat::Route, format!("using one proxy of n{n} for {}: panicked: {}", log.join(", "), p.msg)),
    }
}

pub fn c20(case: &Case, rec: &mut Rec) -> Res {
    with_few!(case.id, c20_run(case, rec))
}

pub fn enumerate_c20(thorough: bool, out: &mut dyn FnMut(Case) -> bool) {
    let n = if thorough { 6 } else { 5 };
    let mut i = 0usize;
    for size in 1..=n {
        for fo in forests(size) {
            let base = build_ops(&fo, (i % 2) as u8);
            for e in all_edits(size, &[K_CREATE, K_INSERT, K_DETACH, K_DSINGLE, K_REMOVE, K_RMPANIC, K_SET], false) {
                i += 1;
                let mut ops = base.clone();
                ops.push(e);
                let prog: Vec<u16> = (0..5).map(|k| (i * 7919 + k * 104729) as u16).collect();
                if !out(Case { id: [0, 1, 2, 4][i % 4], mode: 0, ops, prog }) {
                    return;
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C21: builds

/// In one process only the digest is made. Another build makes its own from the same case.
pub fn c21_digest(case: &Case, trace: bool) -> (u64, Digest) {
    let d = digest(case, true, true, trace);
    let h = hash_of(&(&d.hashes, d.fail.as_ref().map(|f| (f.cat as u8, f.step, f.tags, f.outside))));
    (h, d)
}

pub fn distinct(v: &[u64]) -> usize {
    v.iter().collect::<HashSet<_>>().len()
}
