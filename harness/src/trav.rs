//! Iterator checks (C09 to C12) and big shapes.

use std::fmt::Debug;

use treena::dynamic::{Forest, Node, NodeId};

use crate::base::*;
use crate::engine::*;
use crate::model::*;

pub type StrRes = Result<(), String>;

/// Counters of what the iterator programs did.
#[derive(Default, Clone, Debug)]
pub struct TStat {
    pub runs: u64,
    pub mixed: u64,
    pub items: u64,
    pub clones: u64,
}

fn at(prog: &[u16], i: usize) -> u16 {
    if prog.is_empty() {
        0
    } else {
        // Programs are repeated with a shift, so that a short program still mixes.
        let n = prog.len();
        prog[i % n].wrapping_add(((i / n) as u16).wrapping_mul(7))
    }
}

/// Consumes copies of an iterator by methods that an implementation may override.
fn whole<I, E>(it: &I, want: &[E], map: &dyn Fn(I::Item) -> E, code: u16) -> Option<String>
where
    I: Iterator + Clone,
    E: PartialEq + Debug + Clone,
{
    let g = it.clone().fold(vec![], |mut v: Vec<E>, x| {
        v.push(map(x));
        v
    });
    if g != want {
        return Some(format!("fold sees {g:?} instead of {want:?}"));
    }
    if it.clone().last().map(map).as_ref() != want.last() {
        return Some("last() differs".into());
    }
    let mut g = vec![];
    it.clone().for_each(|x| g.push(map(x)));
    if g != want {
        return Some(format!("for_each sees {g:?} instead of {want:?}"));
    }
    let n = want.len();
    let stop = code as usize / 512 % (n + 1);
    let mut c = it.clone();
    let mut k = 0;
    let g = c.find(|_| {
        k += 1;
        k == stop + 1
    });
    if g.map(map).as_ref() != want.get(stop) {
        return Some(format!("find of item {stop} differs"));
    }
    let g: Vec<E> = c.map(map).collect();
    if g != want[(stop + 1).min(n)..] {
        return Some(format!("after find of item {stop} there are {g:?}"));
    }
    let step = 1 + code as usize / 1024 % 5;
    let g: Vec<E> = it.clone().step_by(step).map(map).collect();
    let e: Vec<E> = want.iter().step_by(step).cloned().collect();
    if g != e {
        return Some(format!("step_by({step}) yields {g:?} instead of {e:?}"));
    }
    let g: Vec<E> = it.clone().skip(stop).map(map).collect();
    if g != want[stop..] {
        return Some(format!("skip({stop}) yields {g:?}"));
    }
    let mut c = it.clone();
    let g: Vec<E> = c.by_ref().take(stop).map(map).collect();
    let h: Vec<E> = c.map(map).collect();
    if g != want[..stop] || h != want[stop..] {
        return Some(format!("taking {stop} and then the rest yields {g:?} and {h:?}"));
    }
    None
}

/// How far `nth` goes: mostly a few items, sometimes to the middle, the end, or beyond.
fn jump(code: u16, left: usize) -> usize {
    match code as usize / 512 % 16 {
        k @ 0..=9 => k % 5,
        10 | 11 => left / 2,
        12 => left.saturating_sub(1),
        13 => left,
        14 => left + 3,
        _ => usize::MAX,
    }
}

type Peek<'f, I> = &'f dyn Fn(&I) -> Option<<I as Iterator>::Item>;

/// Drives a double-ended iterator by a program and compares it with the expected sequence.
#[allow(clippy::too_many_arguments)]
pub fn check_de<I, E>(
    mk: &dyn Fn() -> I, want: &[E], map: &dyn Fn(I::Item) -> E, peek: Option<Peek<'_, I>>, peek_back: Option<Peek<'_, I>>,
    prog: &[u16], st: &mut TStat, what: &str,
) -> StrRes
where
    I: DoubleEndedIterator + Clone,
    E: PartialEq + Debug + Clone,
{
    let (mut lo, mut hi) = (0, want.len());
    let mut it = mk();
    let mut i = 0;
    let (mut fronts, mut backs) = (0u64, 0u64);
    let mut log = String::new();
    st.runs += 1;
    let err = |log: &str, m: String| -> StrRes { Err(format!("{what}: after [{log}]: {m}")) };
    let short = |v: Option<E>| v.map_or("nothing".to_string(), |x| format!("{x:?}"));
    let mut extra = 0;
    // Copies are compared as a whole, which must stay affordable on long sequences.
    let mut afford = 8 * want.len() as i64 + 2000;
    loop {
        let mut code = at(prog, i);
        i += 1;
        if matches!(code % 16, 12 | 13) {
            afford -= (hi - lo) as i64;
            if afford < 0 {
                code -= code % 16;
            }
        }
        let (sl, sh) = it.size_hint();
        if sl > hi - lo || sh.map_or(false, |h| h < hi - lo) {
            return err(&log, format!("size_hint ({sl}, {sh:?}) does not bracket {}", hi - lo));
        }
        let f = want[lo..hi].first().cloned();
        let b = want[lo..hi].last().cloned();
        if code & 0x100 == 0 || lo == hi {
            if let Some(p) = peek {
                let g = p(&it).map(map);
                if g != f {
                    return err(&log, format!("peek gives {} instead of {}", short(g), short(f)));
                }
            }
            if let Some(p) = peek_back {
                let g = p(&it).map(map);
                if g != b {
                    return err(&log, format!("peek_back gives {} instead of {}", short(g), short(b)));
                }
            }
        }
        if log.len() < 200 {
            log.push(match code % 16 {
                0..=5 => 'f',
                6..=11 => 'b',
                12 => 'c',
                13 => 'r',
                14 => 'n',
                _ => 'm',
            });
        }
        match code % 16 {
            0..=5 => {
                let g = it.next().map(map);
                if g != f {
                    return err(&log, format!("next gives {} instead of {}", short(g), short(f)));
                }
                if lo < hi {
                    lo += 1;
                }
                fronts += 1;
            }
            6..=11 => {
                let g = it.next_back().map(map);
                if g != b {
                    return err(&log, format!("next_back gives {} instead of {}", short(g), short(b)));
                }
                if lo < hi {
                    hi -= 1;
                }
                backs += 1;
            }
            12 => {
                st.clones += 1;
                let n = hi - lo;
                let g: Vec<E> = it.clone().take(n + 3).map(map).collect();
                if g != want[lo..hi] {
                    return err(&log, format!("a clone yields {g:?} instead of {:?}", &want[lo..hi]));
                }
                let c = it.clone().count();
                if c != n || it.clone().last().map(map) != b {
                    return err(&log, format!("count of a clone is {c} instead of {n}, or its last item differs"));
                }
                if n < 64 || code & 0x400 != 0 {
                    if let Some(m) = whole(&it, &want[lo..hi], map, code) {
                        return err(&log, m);
                    }
                }
            }
            13 => {
                st.clones += 1;
                let n = hi - lo;
                let mut g: Vec<E> = it.clone().rev().take(n + 3).map(map).collect();
                g.reverse();
                if g != want[lo..hi] {
                    return err(&log, format!("a clone yields {g:?} from the back instead of {:?}", &want[lo..hi]));
                }
                if n < 64 || code & 0x400 != 0 {
                    let mut g = it.clone().rfold(vec![], |mut v: Vec<E>, x| {
                        v.push(map(x));
                        v
                    });
                    g.reverse();
                    if g != want[lo..hi] {
                        return err(&log, format!("rfold sees {g:?} instead of {:?}", &want[lo..hi]));
                    }
                    let (c, l) = (it.clone().rev().count(), it.clone().rev().last().map(map));
                    if c != n || l != f {
                        return err(&log, format!("count from the back is {c} instead of {n}, or the last item differs"));
                    }
                    // A search stops in the middle.
                    let stop = code as usize / 512 % (n + 1);
                    let mut c = it.clone();
                    let mut k = 0;
                    let g = c.rfind(|_| {
                        k += 1;
                        k == stop + 1
                    });
                    let e = want[lo..hi].iter().rev().nth(stop).cloned();
                    if g.map(map) != e {
                        return err(&log, format!("rfind of item {stop} differs"));
                    }
                    let left = (n - (stop + 1).min(n), c.map(map).collect::<Vec<E>>());
                    if left.1 != want[lo..lo + left.0] {
                        return err(&log, format!("after rfind of item {stop} there are {:?}", left.1));
                    }
                }
            }
            14 => {
                let k = jump(code, hi - lo);
                let e = want[lo..hi].get(k).cloned();
                let g = it.nth(k).map(map);
                if g != e {
                    return err(&log, format!("nth({k}) gives {} instead of {}", short(g), short(e)));
                }
                lo = lo.saturating_add(k).saturating_add(1).min(hi);
                fronts += 1;
            }
            _ => {
                let k = jump(code, hi - lo);
                let e = want[lo..hi].iter().rev().nth(k).cloned();
                let g = it.nth_back(k).map(map);
                if g != e {
                    return err(&log, format!("nth_back({k}) gives {} instead of {}", short(g), short(e)));
                }
                hi = hi.saturating_sub(k.saturating_add(1)).max(lo);
                backs += 1;
            }
        }
        st.items += 1;
        if lo == hi {
            extra += 1;
            if extra > 5 {
                break;
            }
        }
    }
    // Nothing comes after the end, whatever is called.
    for _ in 0..2 {
        if it.next().is_some() || it.next_back().is_some() {
            return err(&log, "an exhausted iterator yields something".to_string());
        }
        if peek.map_or(false, |p| p(&it).is_some()) || peek_back.map_or(false, |p| p(&it).is_some()) {
            return err(&log, "an exhausted iterator lets something be peeked".to_string());
        }
    }
    if fronts > 0 && backs > 0 && want.len() > 1 {
        st.mixed += 1;
    }
    Ok(())
}

/// As `check_de` for forward-only iterators.
pub fn check_se<I, E>(
    mk: &dyn Fn() -> I, want: &[E], map: &dyn Fn(I::Item) -> E, peek: Option<Peek<'_, I>>, prog: &[u16], st: &mut TStat,
    what: &str,
) -> StrRes
where
    I: Iterator + Clone,
    E: PartialEq + Debug + Clone,
{
    st.runs += 1;
    let mut it = mk();
    let mut lo = 0;
    let mut i = 0;
    let mut extra = 0;
    let mut afford = 8 * want.len() as i64 + 2000;
    loop {
        let mut code = at(prog, i);
        i += 1;
        let left = want.len() - lo;
        if matches!(code % 16, 12 | 13) {
            afford -= left as i64;
            if afford < 0 {
                code -= code % 16;
            }
        }
        let (sl, sh) = it.size_hint();
        if sl > left || sh.map_or(false, |h| h < left) {
            return Err(format!("{what}: after {lo} items: size_hint ({sl}, {sh:?}) does not bracket {left}"));
        }
        let f = want[lo..].first().cloned();
        if code & 0x100 == 0 || left == 0 {
            if let Some(p) = peek {
                let g = p(&it).map(map);
                if g != f {
                    return Err(format!("{what}: after {lo} items: peek gives {g:?} instead of {f:?}"));
                }
            }
        }
        match code % 16 {
            0..=11 => {
                let g = it.next().map(map);
                if g != f {
                    return Err(format!("{what}: after {lo} items: next gives {g:?} instead of {f:?}"));
                }
                lo = (lo + 1).min(want.len());
            }
            12 | 13 => {
                st.clones += 1;
                let c = it.clone();
                let g: Vec<E> = c.take(left + 3).map(map).collect();
                if g != want[lo..] {
                    return Err(format!("{what}: after {lo} items: a clone yields {g:?} instead of {:?}", &want[lo..]));
                }
                let c = it.clone().count();
                if c != left {
                    return Err(format!("{what}: after {lo} items: a clone counts {c} instead of {left}"));
                }
                if left < 64 || code & 0x400 != 0 {
                    if let Some(m) = whole(&it, &want[lo..], map, code) {
                        return Err(format!("{what}: after {lo} items: {m}"));
                    }
                }
            }
            _ => {
                let k = jump(code, left);
                let e = want[lo..].get(k).cloned();
                let g = it.nth(k).map(map);
                if g != e {
                    return Err(format!("{what}: after {lo} items: nth({k}) gives {g:?} instead of {e:?}"));
                }
                lo = lo.saturating_add(k).saturating_add(1).min(want.len());
            }
        }
        st.items += 1;
        if lo == want.len() {
            extra += 1;
            if extra > 4 {
                break;
            }
        }
    }
    if it.next().is_some() || it.next().is_some() {
        return Err(format!("{what}: an exhausted iterator yields something"));
    }
    Ok(())
}

/// Start nodes to try: all of a small forest, else some.
pub fn starts(m: &Model, prog: &[u16], all_below: usize) -> Vec<usize> {
    let alive = m.alive();
    if alive.len() <= all_below {
        return alive;
    }
    let mut v: Vec<usize> = m.roots().into_iter().take(2).collect();
    for i in 0..5 {
        v.push(alive[at(prog, i * 3 + 1) as usize * 37 % alive.len()]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn rot(prog: &[u16], k: usize) -> Vec<u16> {
    if prog.is_empty() {
        return vec![];
    }
    let n = prog.len();
    (0..n).map(|i| prog[(i + k) % n].wrapping_add((k as u16).wrapping_mul(3))).collect()
}

pub fn c09<Id: TestId>(f: &Forest<Id, P>, c: &Ctx<Id>, nodes: &[usize], prog: &[u16], st: &mut TStat) -> StrRes {
    for (k, n) in nodes.iter().copied().enumerate() {
        let id = c.ids[n];
        let want: Vec<(bool, Id, u32)> =
            c.m.events(n).into_iter().map(|(o, x, _)| (o, c.ids[x], c.m.nodes[x].serial)).collect();
        let p = rot(prog, k);
        let map = |e| ev(e);
        if at(prog, k) & 0x40 == 0 {
            check_de(&|| f.depth_first_traverse(id), &want, &map, Some(&|i| i.peek()), Some(&|i| i.peek_back()), &p, st,
                &format!("depth_first_traverse(n{n})"))?;
        } else {
            let nd = f.node(id).ok_or("start is not alive")?;
            check_de(&|| nd.depth_first_traverse(), &want, &map, Some(&|i| i.peek()), Some(&|i| i.peek_back()), &p, st,
                &format!("Node::depth_first_traverse(n{n})"))?;
        }
    }
    Ok(())
}

pub fn c10<Id: TestId>(f: &Forest<Id, P>, c: &Ctx<Id>, nodes: &[usize], prog: &[u16], st: &mut TStat) -> StrRes {
    for (k, n) in nodes.iter().copied().enumerate() {
        let id = c.ids[n];
        let evs = c.m.events(n);
        let height = evs.iter().map(|e| e.2).max().unwrap_or(0);
        let mut limits = vec![
            Some((at(prog, k) as usize / 3) % (height + 2)),
            Some(height.saturating_sub(1 + at(prog, k + 1) as usize % 2)),
        ];
        if evs.len() < 40 {
            limits.extend([Some(0), Some(1), Some(2), Some(height), Some(height + 1), None, Some(usize::MAX), Some(usize::MAX - 1)]);
        } else {
            let v = [None, Some(usize::MAX), Some(height), Some(0), Some(255), Some(256), Some(usize::MAX - 1), Some(usize::MAX / 2),
                Some(u32::MAX as usize), Some(65_535), Some(65_536), Some(height + 1)];
            limits.push(v[at(prog, k + 2) as usize % v.len()]);
            if height > 300 {
                limits.push(Some([256, 255, 1023, 1024, 4096, 32_767, 32_768, 65_535][at(prog, k + 3) as usize % 8].min(height)));
            }
        }
        for (j, lim) in limits.into_iter().enumerate() {
            let want: Vec<((bool, Id, u32), usize)> = evs
                .iter()
                .filter(|e| lim.map_or(true, |l| e.2 <= l))
                .map(|(o, x, d)| ((*o, c.ids[*x], c.m.nodes[*x].serial), *d))
                .collect();
            let p = rot(prog, k * 5 + j);
            let what = format!("shallow_depth_first_traverse(n{n}, {lim:?})");
            let nd = f.node(id).ok_or("start is not alive")?;
            let via_node = at(prog, k + j) & 0x20 != 0;
            let mk = || if via_node { nd.shallow_depth_first_traverse(lim) } else { f.shallow_depth_first_traverse(id, lim) };
            let got = mk().max_depth();
            if got != lim && lim != Some(usize::MAX) {
                return Err(format!("{what}: max_depth() is {got:?}"));
            }
            check_de(&mk, &want, &|(e, d)| (ev(e), d), Some(&|i| i.peek()), Some(&|i| i.peek_back()), &p, st, &what)?;
        }
    }
    Ok(())
}

pub fn c11<Id: TestId>(f: &Forest<Id, P>, c: &Ctx<Id>, nodes: &[usize], prog: &[u16], st: &mut TStat) -> StrRes {
    for (k, n) in nodes.iter().copied().enumerate() {
        let id = c.ids[n];
        let nd = f.node(id).ok_or("start is not alive")?;
        let want: Vec<(Id, usize, u32)> =
            c.m.levels(n).into_iter().map(|(x, d)| (c.ids[x], d, c.m.nodes[x].serial)).collect();
        let p = rot(prog, k);
        let map = |(n, d): (Node<'_, Id, P>, usize)| (n.id(), d, n.data().serial);
        let via_node = at(prog, k) & 0x20 != 0;
        check_se(
            &|| if via_node { nd.allocating_breadth_first_traverse() } else { f.allocating_breadth_first_traverse(id) },
            &want, &map, Some(&|i| i.peek()), &p, st, &format!("allocating_breadth_first_traverse(n{n})"))?;
        let depth = want.last().map_or(0, |x| x.1);
        if want.len() * (depth + 1) > 8_000_000 {
            continue;
        }
        let mk = || if via_node { nd.breadth_first_traverse() } else { f.breadth_first_traverse(id) };
        let light: Vec<u16> = if want.len() > 300 { vec![0] } else { p };
        check_se(&mk, &want, &map, None, &light, st, &format!("breadth_first_traverse(n{n})"))?;
        // No heap allocation at all, a copy of the iterator included.
        let lim = want.len() + 3;
        let half = want.len() / 2;
        let before = allocs();
        let mut it = mk();
        let mut got = 0;
        let mut copy = None;
        while got < lim {
            if got == half && copy.is_none() {
                copy = Some(it.clone());
            }
            if it.next().is_none() {
                break;
            }
            got += 1;
        }
        let _ = it.next();
        if let Some(x) = copy.as_mut() {
            let _ = x.next();
        }
        drop(copy);
        drop(it);
        let used = allocs() - before;
        if used > 0 {
            return Err(format!("breadth_first_traverse(n{n}) made {used} heap allocations"));
        }
    }
    Ok(())
}

pub fn c12<Id: TestId>(f: &Forest<Id, P>, c: &Ctx<Id>, nodes: &[usize], prog: &[u16], st: &mut TStat) -> StrRes {
    let m = &c.m;
    for (k, n) in nodes.iter().copied().enumerate() {
        let id = c.ids[n];
        let nd = f.node(id).ok_or("start is not alive")?;
        let e = |v: Vec<usize>| -> Vec<(Id, u32)> { v.into_iter().map(|x| (c.ids[x], m.nodes[x].serial)).collect() };
        let map = |n: Node<'_, Id, P>| (n.id(), n.data().serial);
        let vn = at(prog, k) & 0x20 != 0;
        let mut anc = m.ancestors(n);
        check_se(&|| if vn { nd.ancestors() } else { f.ancestors(id) }, &e(anc.clone()), &map, Some(&|i| i.peek()),
            &rot(prog, k), st, &format!("ancestors(n{n})"))?;
        anc.insert(0, n);
        check_se(&|| if vn { nd.ancestors_or_self() } else { f.ancestors_or_self(id) }, &e(anc), &map,
            Some(&|i| i.peek()), &rot(prog, k + 1), st, &format!("ancestors_or_self(n{n})"))?;
        let sib = m.siblings(n);
        let i = sib.iter().position(|x| *x == n).unwrap();
        let lists: [(&str, Vec<usize>); 5] = [
            ("children", m.children(n).to_vec()),
            ("following_siblings", sib[i + 1..].to_vec()),
            ("following_siblings_or_self", sib[i..].to_vec()),
            ("preceding_siblings", sib[..i].to_vec()),
            ("preceding_siblings_or_self", sib[..=i].to_vec()),
        ];
        for (j, (name, want)) in lists.into_iter().enumerate() {
            let mk = || match (j, vn) {
                (0, true) => nd.children(),
                (0, _) => f.children(id),
                (1, true) => nd.following_siblings(),
                (1, _) => f.following_siblings(id),
                (2, true) => nd.following_siblings_or_self(),
                (2, _) => f.following_siblings_or_self(id),
                (3, true) => nd.preceding_siblings(),
                (3, _) => f.preceding_siblings(id),
                (_, true) => nd.preceding_siblings_or_self(),
                (_, _) => f.preceding_siblings_or_self(id),
            };
            check_de(&mk, &e(want), &map, Some(&|i| i.peek()), Some(&|i| i.peek_back()), &rot(prog, k * 7 + j + 2), st,
                &format!("{name}(n{n})"))?;
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- shapes

pub const SHAPES: [&str; 8] = ["chain", "star", "comb", "binary", "caterpillar", "broom", "random", "wide-random"];

/// Builds a big tree quickly (without walking long ancestor chains).
pub fn shape<Id: TestId>(kind: usize, n: usize, seed: u64) -> Result<Slot<Id>, Fail>
where
    Id: NodeId,
{
    let parents = shape_parents(kind, n, seed);
    let mut s = Slot { f: Forest::new(), c: Ctx::default() };
    // Children of a node are attached before the node itself is, so that each insertion is
    // below a root. Preorder numbering makes every child come after its parent.
    let r = guard(|| -> Res {
        for i in 0..n {
            let id = s.f.create_root(P::new(i as u32 * 16));
            let serial = s.f.data(id).map(|p| p.serial).unwrap_or(u32::MAX);
            s.c.register(id, serial, i as u32 * 16)?;
        }
        for i in (0..n).rev() {
            if let Some(p) = parents[i] {
                if let Err(e) = s.f.insert(s.c.ids[i], ins(Where::FirstChild, s.c.ids[p])) {
                    return fail(Cat::Accept, format!("building a shape: {e:?}"));
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r?,
        Err(p) => return fail(Cat::PanicValid, format!("building a shape panicked: {}", p.msg)),
    }
    for i in 0..n {
        if let Some(p) = parents[i] {
            s.c.m.nodes[i].parent = Some(p);
            s.c.m.nodes[p].children.push(i);
        }
    }
    Ok(s)
}

pub fn shape_parents(kind: usize, n: usize, seed: u64) -> Vec<Option<usize>> {
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut rnd = move |m: usize| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 11) as usize % m.max(1)
    };
    let mut v: Vec<Option<usize>> = vec![None];
    match kind % SHAPES.len() {
        0 => (1..n).for_each(|i| v.push(Some(i - 1))),
        1 => (1..n).for_each(|_| v.push(Some(0))),
        2 => {
            // spine with one leaf before each spine child
            let mut spine = 0;
            for i in 1..n {
                v.push(Some(spine));
                if i % 2 == 0 {
                    spine = i;
                }
            }
        }
        3 => {
            // balanced binary tree in preorder
            fn go(v: &mut Vec<Option<usize>>, p: Option<usize>, n: usize) {
                if n == 0 {
                    return;
                }
                let me = v.len();
                v.push(p);
                let l = (n - 1) / 2;
                go(v, Some(me), l);
                go(v, Some(me), n - 1 - l);
            }
            v.clear();
            go(&mut v, None, n);
        }
        4 => {
            // spine of length sqrt(n), each with sqrt(n) leaves
            let w = (n as f64).sqrt() as usize + 1;
            let mut spine = 0;
            for i in 1..n {
                v.push(Some(spine));
                if i % w == 0 {
                    spine = i;
                }
            }
        }
        5 => {
            // chain of n/2, then a star
            for i in 1..n {
                v.push(Some((i - 1).min(n / 2)));
            }
        }
        6 => {
            // random path-ish tree in preorder
            let mut path = vec![0usize];
            for i in 1..n {
                let up = if rnd(3) == 0 { rnd(path.len()).min(4) } else { 0 };
                path.truncate(path.len() - up);
                v.push(Some(*path.last().unwrap()));
                path.push(i);
            }
        }
        _ => {
            let mut path = vec![0usize];
            for i in 1..n {
                let keep = 1 + rnd(path.len());
                path.truncate(keep);
                v.push(Some(*path.last().unwrap()));
                path.push(i);
            }
        }
    }
    v.truncate(n.max(1));
    v
}
