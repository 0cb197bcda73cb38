//! How much memory a forest takes: histories over plain data, with the allocator watched.
//! No model is involved: what counts is the number of nodes made and the number of data alive.

use std::cell::Cell;
use std::fmt::{self, Write as _};

use treena::dynamic::{AdoptAs, ChainTreeBuilder, DftEvent, Forest, InsertAs, NestTreeBuilder};

use crate::base::*;
use crate::case::*;
use crate::engine::*;
use crate::rec::Rec;

thread_local! {
    static FUEL: Cell<u32> = const { Cell::new(u32::MAX) };
}

/// Data of nodes.
pub trait Datum: Clone + fmt::Display + 'static {
    const NAME: &'static str;
    /// Bytes on the heap.
    const HEAP: usize;
    fn make(v: u16) -> Self;
}
impl Datum for u64 {
    const NAME: &'static str = "u64";
    const HEAP: usize = 0;
    fn make(v: u16) -> Self {
        v as u64
    }
}
/// Data without size.
#[derive(Clone)]
pub struct Nil;
impl fmt::Display for Nil {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl Datum for Nil {
    const NAME: &'static str = "unit";
    const HEAP: usize = 0;
    fn make(_: u16) -> Self {
        Nil
    }
}
impl Datum for String {
    const NAME: &'static str = "String";
    const HEAP: usize = 32;
    fn make(v: u16) -> Self {
        // All of one length, so that copies take as much.
        String::from(["one text    ", "two\nlines   ", "            ", "text and end"][v as usize % 4])
    }
}
/// Data of which most is on the heap, and whose `Clone` can panic.
pub struct Fat<const N: usize>(Box<[u8; N]>);
impl<const N: usize> Clone for Fat<N> {
    fn clone(&self) -> Self {
        FUEL.with(|f| match f.get() {
            u32::MAX => {}
            0 => panic!("{}", USER_PANIC),
            n => f.set(n - 1),
        });
        Fat(self.0.clone())
    }
}
impl<const N: usize> fmt::Display for Fat<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "fat{}", self.0[0])
    }
}
impl<const N: usize> Datum for Fat<N> {
    const NAME: &'static str = "data on the heap";
    const HEAP: usize = N;
    fn make(v: u16) -> Self {
        Fat(Box::new([v as u8; N]))
    }
}
const THIN: usize = 16;
const THICK: usize = 2048;

/// Writes nowhere, and fails after some characters.
struct Nowhere(usize);
impl fmt::Write for Nowhere {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}

struct Slot<Id: TestId, T> {
    f: Option<Forest<Id, T>>,
    ids: Vec<Id>,
    /// Nodes that calls may have made before they were refused, on top of `ids`.
    extra: usize,
}

/// State after a call.
#[derive(Clone, Copy, Debug)]
pub struct Row {
    live: i64,
    /// Most that was taken at any time during the call, above what there was before it.
    rise: i64,
    alive: usize,
    made: usize,
    extra: usize,
    step: usize,
    forests: usize,
}

struct Run<Id: TestId, T> {
    slots: [Slot<Id, T>; SLOTS],
    cur: usize,
    cap: usize,
    /// A call went wrong in ways that other properties judge.
    stray: Option<PanicClass>,
    base: i64,
    prints: usize,
    calls: u64,
}
const SLOTS: usize = 4;

fn at<Id>(k: u16, id: Id) -> InsertAs<Id> {
    match k % 4 {
        0 => InsertAs::FirstChildOf(id),
        1 => InsertAs::LastChildOf(id),
        2 => InsertAs::PreviousSiblingOf(id),
        _ => InsertAs::NextSiblingOf(id),
    }
}
fn adopt_at(k: u16) -> AdoptAs {
    match k % 4 {
        0 => AdoptAs::FirstChild,
        1 => AdoptAs::LastChild,
        2 => AdoptAs::PreviousSibling,
        _ => AdoptAs::NextSibling,
    }
}

/// One call in bounds. `None`: it panicked.
fn call<R>(stray: &mut Option<PanicClass>, n: usize, f: impl FnOnce() -> R) -> Option<R> {
    budget(step_limit(n));
    let r = guard(f);
    budget(u64::MAX);
    match r {
        Ok(r) => Some(r),
        Err(p) => {
            forget_message();
            if !matches!(p.class, PanicClass::Precondition | PanicClass::User) && stray.is_none() {
                *stray = Some(p.class);
            }
            None
        }
    }
}

/// Uses every kind of iterator, to the end or not, and printing.
fn reads<Id: TestId, T: Datum>(f: &Forest<Id, T>, id: Id, c: usize, prints: usize) -> usize {
    let Some(n) = f.node(id) else { return 0 };
    let k = if c % 3 == 0 { usize::MAX } else { c % 7 };
    let mut sum = f.depth_first_traverse(id).take(k).count();
    let mut d = n.depth_first_traverse();
    while sum < k {
        if d.next().is_none() || d.next_back().is_none() {
            break;
        }
        sum += 1;
    }
    sum += n.shallow_depth_first_traverse(Some(c % 4)).take(k).count();
    sum += f.shallow_depth_first_traverse(id, None).rev().take(k).count();
    let b = n.breadth_first_traverse();
    sum += b.clone().take(k.min(40)).count() + b.size_hint().0;
    let mut a = n.allocating_breadth_first_traverse();
    sum += a.by_ref().take(k).count();
    sum += a.clone().count();
    sum += n.ancestors_or_self().take(k).count() + f.ancestors(id).count();
    sum += n.children().take(k).count() + f.children(id).rev().take(k).count();
    sum += n.following_siblings().take(k).count() + n.preceding_siblings_or_self().take(k).count();
    let mut w = Nowhere(if c % 2 == 0 { prints } else { c });
    let _ = write!(w, "{}", n.debug_print());
    sum + w.0
}

impl<Id: TestId, T: Datum> Run<Id, T> {
    fn new(cap: usize, nslots: usize) -> Self {
        let slots = std::array::from_fn(|i| Slot {
            f: None,
            ids: Vec::with_capacity(if i < nslots { cap } else { 0 }),
            extra: 0,
        });
        Run { slots, cur: 0, cap, stray: None, base: 0, prints: 1 << 16, calls: 0 }
    }

    fn row(&self, before: i64, step: usize) -> Row {
        let peak = take_peak();
        let mut r = Row { live: live_bytes() - self.base, rise: peak - before, alive: 0, made: 0, extra: 0, step, forests: 0 };
        for s in &self.slots {
            if let Some(f) = &s.f {
                r.forests += 1;
                r.made += s.ids.len();
                r.extra += s.extra;
                r.alive += s.ids.iter().filter(|i| f.data(**i).is_some()).count();
            }
        }
        r
    }

    fn pick(&self, a: u16, alive: bool) -> Option<Id> {
        let s = &self.slots[self.cur];
        let f = s.f.as_ref()?;
        let n = s.ids.len();
        if n == 0 {
            return None;
        }
        (0..n).map(|i| s.ids[(a as usize + i) % n]).find(|i| f.node(*i).is_some() == alive)
    }

    /// Copies the tree at `src` of slot `from` into the current slot.
    fn copy(&mut self, from: usize, src: Id, mapped: bool) -> Option<Id> {
        let cur = self.cur;
        let mut stray = self.stray;
        let mut n = 0;
        if let Some(f) = &self.slots[from].f {
            n = call(&mut stray, self.cap, || f.depth_first_traverse(src).filter(|e| matches!(e, DftEvent::Open(_))).take(self.cap).count()).unwrap_or(0);
        }
        if self.slots[cur].ids.len() + n + 8 > self.cap {
            return None;
        }
        let old = self.slots[cur].extra;
        self.slots[cur].extra += n;
        let mut r = None;
        if from == cur {
            let s = &mut self.slots[cur];
            let f = s.f.as_mut()?;
            let (ids, extra) = (&mut s.ids, &mut s.extra);
            r = call(&mut stray, n + ids.len(), || {
                if mapped {
                    f.clone_local_tree_with_id_mapping(src, |_, d| {
                        if ids.len() < ids.capacity() {
                            ids.push(d);
                        }
                        *extra = extra.saturating_sub(1);
                    })
                } else {
                    f.clone_local_tree(src)
                }
            });
        } else {
            let other = self.slots[from].f.take()?;
            let s = &mut self.slots[cur];
            if let Some(f) = s.f.as_mut() {
                let (ids, extra) = (&mut s.ids, &mut s.extra);
                if let Some(node) = other.node(src) {
                    r = call(&mut stray, n + ids.len(), || {
                        if mapped {
                            f.clone_foreign_tree_with_id_mapping(node, |_, d| {
                                if ids.len() < ids.capacity() {
                                    ids.push(d);
                                }
                                *extra = extra.saturating_sub(1);
                            })
                        } else {
                            f.clone_foreign_tree(node)
                        }
                    });
                }
            }
            self.slots[from].f = Some(other);
        }
        self.stray = stray;
        let s = &mut self.slots[cur];
        if let (Some(root), Some(f)) = (r, &s.f) {
            s.extra = old;
            if !mapped {
                let ids = &mut s.ids;
                call(&mut self.stray, self.cap, || {
                    for e in f.depth_first_traverse(root) {
                        if let DftEvent::Open(x) = e {
                            if ids.len() < ids.capacity() {
                                ids.push(x.id());
                            }
                        }
                    }
                });
            }
        }
        r
    }

    /// Creates a node, and takes note of it.
    fn create(&mut self, v: u16, dest: Option<InsertAs<Id>>, proxy: bool) -> Option<Id> {
        let s = &mut self.slots[self.cur];
        let f = s.f.as_mut()?;
        if s.ids.len() + 8 > self.cap {
            return None;
        }
        let n = s.ids.len();
        let r = call(&mut self.stray, n, || match dest {
            None => f.create_root(T::make(v)),
            Some(d) => match (proxy, d) {
                (true, InsertAs::LastChildOf(p)) => match f.node_mut(p) {
                    Some(mut m) => m.create(T::make(v), AdoptAs::LastChild),
                    None => f.create_insert(T::make(v), d),
                },
                (true, InsertAs::NextSiblingOf(p)) => match f.node_mut(p) {
                    Some(mut m) => m.create(T::make(v), AdoptAs::NextSibling),
                    None => f.create_insert(T::make(v), d),
                },
                _ => f.create_insert(T::make(v), d),
            },
        });
        match r {
            Some(id) => s.ids.push(id),
            // The node may have been made before it could not be put there.
            None if dest.is_some() => s.extra += 1,
            None => {}
        }
        r
    }

    fn remove(&mut self, id: Id, how: u16, after: u16) {
        let s = &mut self.slots[self.cur];
        let Some(f) = s.f.as_mut() else { return };
        let mut k = after;
        let hook = |x: T| {
            drop(x);
            if k == 0 {
                k = u16::MAX;
                panic!("{}", USER_PANIC);
            }
            k -= 1;
        };
        let n = s.ids.len() + s.extra;
        call(&mut self.stray, n, || match how % 6 {
            0 => f.remove(id),
            1 => f.remove_hooked(id, drop),
            2 => f.remove_hooked_panic_safe(id, drop),
            3 => f.node_mut(id).expect("[precondition]").remove(),
            4 => f.node_mut(id).expect("[precondition]").remove_hooked_panic_safe(hook),
            _ => f.remove_hooked_panic_safe(id, hook),
        });
    }

    /// Calls that must be refused, and make no node.
    fn refused(&mut self, a: u16) {
        let (live, dead) = (self.pick(a, true), self.pick(a, false));
        let s = &mut self.slots[self.cur];
        let n = s.ids.len();
        let Some(f) = s.f.as_mut() else { return };
        let st = &mut self.stray;
        if let Some(x) = live {
            for k in 0..4 {
                call(st, n, || f.insert(x, at(k, x)).is_ok());
            }
            let root = f.ancestors_or_self(x).last().map(|n| n.id());
            if let Some(r) = root {
                call(st, n, || f.insert(r, at(a, x)).is_ok());
                call(st, n, || f.insert(x, InsertAs::NextSiblingOf(r)).is_ok());
                call(st, n, || f.node_mut(x).map(|mut m| m.try_adopt(r, adopt_at(a)).is_ok()));
                call(st, n, || f.node_mut(x).map(|mut m| m.adopt(r, AdoptAs::LastChild)));
                if f.node(r).is_some_and(|n| n.children().count() > 1) {
                    call(st, n, || f.detach_single(r).is_ok());
                }
            }
        }
        if let Some(x) = dead {
            call(st, n, || f.remove(x));
            call(st, n, || f.detach(x));
            call(st, n, || f.detach_single(x).is_ok());
            call(st, n, || f.clone_local_tree(x));
            call(st, n, || f.depth_first_traverse(x).count());
            call(st, n, || f.allocating_breadth_first_traverse(x).count());
            if let Some(y) = live {
                call(st, n, || f.insert(x, at(a, y)).is_ok());
                call(st, n, || f.insert(y, at(a, x)).is_ok());
            }
        }
    }

    fn fork(&mut self, to: usize, fuel: u32) {
        if to == self.cur || self.slots[to].ids.capacity() == 0 {
            return;
        }
        let Some(f) = &self.slots[self.cur].f else { return };
        FUEL.with(|x| x.set(fuel));
        let r = call(&mut self.stray, self.cap, || f.clone());
        FUEL.with(|x| x.set(u32::MAX));
        let Some(new) = r else { return };
        let (extra, n) = (self.slots[self.cur].extra, self.slots[self.cur].ids.len());
        self.slots[to].ids.clear();
        for i in 0..n {
            let id = self.slots[self.cur].ids[i];
            self.slots[to].ids.push(id);
        }
        self.slots[to].extra = extra;
        self.slots[to].f = Some(new);
    }

    /// Two nodes that may be moved.
    fn two(&self, a: u16, b: u16) -> Option<(Id, Id)> {
        Some((self.pick(a, true)?, self.pick(b, true)?))
    }

    fn step(&mut self, o: Op) {
        self.calls += 1;
        if self.slots[self.cur].f.is_none() {
            self.slots[self.cur].f = Some(Forest::new());
            self.slots[self.cur].ids.clear();
            self.slots[self.cur].extra = 0;
        }
        let n = self.slots[self.cur].ids.len();
        match o.k {
            K_ROOT => {
                self.create(o.a, None, false);
            }
            K_CREATE => {
                let id = self.pick(o.a, o.b % 16 != 5);
                if id.is_some() || n == 0 {
                    self.create(o.b, id.map(|i| at(o.c, i)), o.d % 2 == 0);
                }
            }
            K_INSERT => {
                if let Some((x, y)) = self.two(o.a, o.b) {
                    let f = self.slots[self.cur].f.as_mut().expect("slot");
                    call(&mut self.stray, n, || {
                        if o.d % 2 == 0 {
                            let _ = f.insert(x, at(o.c, y));
                        } else if let Some(mut m) = f.node_mut(y) {
                            let _ = m.try_adopt(x, adopt_at(o.c));
                        }
                    });
                }
            }
            K_DETACH | K_DSINGLE => {
                if let Some(x) = self.pick(o.a, true) {
                    let f = self.slots[self.cur].f.as_mut().expect("slot");
                    call(&mut self.stray, n, || match (o.k, o.d % 2) {
                        (K_DETACH, 0) => f.detach(x),
                        (K_DETACH, _) => f.node_mut(x).expect("[precondition]").detach(),
                        (_, 0) => drop(f.detach_single(x)),
                        _ => drop(f.node_mut(x).expect("[precondition]").detach_single()),
                    });
                }
            }
            K_REMOVE => {
                if let Some(x) = self.pick(o.a, true) {
                    self.remove(x, o.b % 4, u16::MAX);
                }
            }
            K_RMPANIC => {
                if let Some(x) = self.pick(o.a, true) {
                    self.remove(x, 4 + o.b % 2, o.c % 8);
                }
            }
            K_SET => {
                if let Some(x) = self.pick(o.a, true) {
                    let f = self.slots[self.cur].f.as_mut().expect("slot");
                    call(&mut self.stray, n, || match o.b % 3 {
                        0 => f.data_mut(x).map(|d| *d = T::make(o.c)),
                        1 => f.node_mut(x).map(|mut m| *m.data_mut() = T::make(o.c)),
                        _ => f.node_mut(x).map(|m| *m.into_data_ref_mut() = T::make(o.c)),
                    });
                }
            }
            K_CLONE | K_CLONEPANIC => {
                if let Some(x) = self.pick(o.a, true) {
                    if o.k == K_CLONEPANIC {
                        FUEL.with(|f| f.set((o.c % 9) as u32));
                    }
                    self.copy(self.cur, x, o.b % 2 == 0);
                    FUEL.with(|f| f.set(u32::MAX));
                }
            }
            K_FOREIGN => {
                let from = (self.cur + 1 + o.d as usize % (SLOTS - 1)) % SLOTS;
                let here = self.cur;
                self.cur = from;
                let x = self.pick(o.a, true);
                self.cur = here;
                if let Some(x) = x {
                    if o.c % 8 == 7 {
                        FUEL.with(|f| f.set((o.b % 9) as u32));
                    }
                    self.copy(from, x, o.b % 2 == 0);
                    FUEL.with(|f| f.set(u32::MAX));
                }
            }
            K_FORK => {
                let to = (self.cur + 1 + o.a as usize % (SLOTS - 1)) % SLOTS;
                self.fork(to, if o.c % 4 == 3 { (o.b % 12) as u32 } else { u32::MAX });
                if o.d % 2 == 0 && self.slots[to].f.is_some() {
                    self.cur = to;
                }
            }
            K_NEWF | K_SWITCH => {
                let to = o.a as usize % SLOTS;
                if self.slots[to].ids.capacity() > 0 {
                    self.cur = to;
                }
            }
            K_DROPF => {
                self.slots[self.cur].f = None;
                self.slots[self.cur].ids.clear();
            }
            K_CHAIN => {
                let s = &mut self.slots[self.cur];
                let f = s.f.as_mut().expect("slot");
                let k = 1 + o.a as usize % 9;
                if n + k + 8 > self.cap {
                    return;
                }
                let (ids, extra) = (&mut s.ids, &mut s.extra);
                *extra += 1;
                call(&mut self.stray, n + 16, || {
                    let mut b = ChainTreeBuilder::new(f, T::make(o.b));
                    ids.push(b.root_id());
                    *extra -= 1;
                    for i in 0..k {
                        *extra += 1;
                        if b.current_id() == b.root_id() || (o.c as usize >> (i % 6)) & 1 == 0 {
                            b.child(T::make(i as u16));
                        } else {
                            b.sibling(T::make(i as u16));
                        }
                        *extra -= 1;
                        ids.push(b.current_id());
                        if (o.d as usize >> (i % 5)) & 1 == 1 && b.try_parent().is_none() {
                            // One that is refused.
                            b.sibling(T::make(0));
                        }
                    }
                });
            }
            K_NEST => {
                let s = &mut self.slots[self.cur];
                let f = s.f.as_mut().expect("slot");
                let k = 1 + o.a as usize % 9;
                if n + k + 8 > self.cap {
                    return;
                }
                let (ids, extra) = (&mut s.ids, &mut s.extra);
                *extra += k + 2;
                let done = call(&mut self.stray, n + 16, || {
                    let mut b = NestTreeBuilder::new(f, T::make(o.b));
                    let root = b.root();
                    let mut left = k;
                    while left > 0 {
                        left -= 1;
                        if (o.c as usize >> (left % 6)) & 1 == 0 {
                            b.add_child(T::make(1));
                        } else {
                            b.create_tree(T::make(2), |c| {
                                if left > 0 {
                                    left -= 1;
                                    c.add_child(T::make(3));
                                }
                                if o.d % 8 == 7 && left == 0 {
                                    panic!("{}", USER_PANIC);
                                }
                            });
                        }
                    }
                    root
                });
                if let Some(root) = done {
                    *extra -= k + 2;
                    call(&mut self.stray, n + 16, || {
                        for e in f.depth_first_traverse(root) {
                            if let DftEvent::Open(x) = e {
                                if ids.len() < ids.capacity() {
                                    ids.push(x.id());
                                }
                            }
                        }
                    });
                }
            }
            K_MISUSE => self.refused(o.a),
            K_GROW => {
                let k = (o.c as usize).min(self.cap.saturating_sub(n + 16));
                let Some(mut p) = self.pick(o.a, true).or_else(|| self.create(0, None, false)) else { return };
                for i in 0..k {
                    let Some(x) = self.create(i as u16, Some(at(if o.b % 3 == 1 { 0 } else { 1 }, p)), false) else { return };
                    if o.b % 6 > 2 {
                        p = x;
                    }
                }
            }
            K_PRUNE => {
                for _ in 0..300 {
                    let Some(x) = self.pick(o.a, true) else { return };
                    self.remove(x, o.b % 4, u16::MAX);
                    if self.stray.is_some() {
                        return;
                    }
                }
            }
            K_TOUCH => {
                if let Some(x) = self.pick(o.a, true) {
                    let prints = self.prints;
                    let f = self.slots[self.cur].f.as_ref().expect("slot");
                    call(&mut self.stray, n, || reads(f, x, o.c as usize, prints));
                }
            }
            K_BIG => {
                // Size as `big_op` encodes it.
                let want = (o.c as usize + o.d as usize * 16).min(self.cap.saturating_sub(n + 16)).min(Id::CAP - 2);
                let Some(r) = self.create(0, None, false) else { return };
                let mut p = r;
                for i in 1..want {
                    let d = match o.b % 5 {
                        0 => InsertAs::LastChildOf(p),
                        1 => InsertAs::LastChildOf(r),
                        2 => InsertAs::FirstChildOf(self.slots[self.cur].ids[n + (i - 1) / 2]),
                        3 => InsertAs::FirstChildOf(r),
                        _ => InsertAs::LastChildOf(self.slots[self.cur].ids[n + (i * 7919 + o.a as usize) % i]),
                    };
                    let Some(x) = self.create(i as u16, Some(d), false) else { return };
                    p = x;
                }
                // A print whose end nobody reads.
                let f = self.slots[self.cur].f.as_ref().expect("slot");
                for x in [r, p] {
                    call(&mut self.stray, n + want, || reads(f, x, o.a as usize, self.prints));
                }
            }
            _ => {}
        }
    }

    /// One of the things that are repeated. True if it makes nodes.
    fn round(&mut self, kind: u16, i: u16, a: u16, b: u16) -> bool {
        let n = self.slots[self.cur].ids.len();
        match kind % CYCLES {
            0 => {
                // There and back.
                if let Some((x, y)) = self.two(a, b) {
                    let f = self.slots[self.cur].f.as_mut().expect("slot");
                    call(&mut self.stray, n, || {
                        let node = f.node(x).expect("[precondition]");
                        let back = match (node.prev_sibling_id(), node.parent_id()) {
                            (Some(p), _) => Some(InsertAs::NextSiblingOf(p)),
                            (None, Some(p)) => Some(InsertAs::FirstChildOf(p)),
                            _ => None,
                        };
                        if f.insert(x, at(i, y)).is_ok() {
                            match back {
                                Some(d) => drop(f.insert(x, d)),
                                None => f.detach(x),
                            }
                        }
                    });
                }
                false
            }
            1 => {
                if let Some((x, y)) = self.two(a.wrapping_add(i), b) {
                    let f = self.slots[self.cur].f.as_mut().expect("slot");
                    call(&mut self.stray, n, || {
                        f.detach(x);
                        if x != y {
                            let _ = f.insert(x, at(i, y));
                        }
                    });
                }
                false
            }
            2 => {
                self.refused(a.wrapping_add(i));
                false
            }
            3 => {
                let o = op(K_SET, a.wrapping_add(i), i, b, 0);
                self.step(o);
                false
            }
            4 => {
                let o = op(K_TOUCH, a.wrapping_add(i), 0, (b.wrapping_add(i)) % 64, 0);
                self.step(o);
                false
            }
            5 => {
                let to = (self.cur + 1) % SLOTS;
                self.fork(to, if i % 3 == 2 { (b.wrapping_add(i) % 8) as u32 } else { u32::MAX });
                self.slots[to].f = None;
                self.slots[to].ids.clear();
                false
            }
            6 => {
                if let Some((x, y)) = self.two(a, b) {
                    let f = self.slots[self.cur].f.as_mut().expect("slot");
                    call(&mut self.stray, n, || {
                        if f.detach_single(x).is_ok() && x != y {
                            let _ = f.insert(x, InsertAs::FirstChildOf(y));
                        }
                    });
                }
                false
            }
            7 => {
                // Several short-lived nodes.
                let was = self.slots[self.cur].ids.len();
                let Some(r) = self.create(i, None, false) else { return true };
                self.create(i, Some(InsertAs::LastChildOf(r)), true);
                self.create(i, Some(InsertAs::FirstChildOf(r)), false);
                self.remove(r, b.wrapping_add(i) % 4, u16::MAX);
                debug_assert!(self.slots[self.cur].ids.len() > was);
                true
            }
            8 => {
                if let Some(x) = self.pick(a, true) {
                    if let Some(r) = self.copy(self.cur, x, i % 2 == 0) {
                        self.remove(r, b.wrapping_add(i) % 4, u16::MAX);
                    }
                }
                true
            }
            9 => {
                // Removals that are interrupted, and then finished.
                let Some(r) = self.create(i, None, false) else { return true };
                let Some(c) = self.create(i, Some(InsertAs::LastChildOf(r)), false) else { return true };
                self.create(i, Some(InsertAs::LastChildOf(c)), false);
                self.create(i, Some(InsertAs::LastChildOf(r)), false);
                self.remove(r, 4 + i % 2, i % 4);
                let from = self.slots[self.cur].ids.len() - 4;
                for k in from..self.slots[self.cur].ids.len() {
                    let x = self.slots[self.cur].ids[k];
                    if self.slots[self.cur].f.as_ref().is_some_and(|f| f.node(x).is_some()) {
                        self.remove(x, 0, u16::MAX);
                    }
                }
                true
            }
            10 => {
                let was = self.slots[self.cur].ids.len();
                self.step(op(if i % 2 == 0 { K_CHAIN } else { K_NEST }, a, b, i % 64, 0));
                if let Some(r) = self.slots[self.cur].ids.get(was).copied() {
                    self.remove(r, i % 4, u16::MAX);
                }
                true
            }
            11 => {
                // A clone takes the place of the forest.
                let s = &mut self.slots[self.cur];
                if let Some(f) = &s.f {
                    if let Some(new) = call(&mut self.stray, n, || f.clone()) {
                        s.f = Some(new);
                    }
                }
                false
            }
            _ => {
                // Creations in a forest where every ID is taken.
                if n >= Id::CAP {
                    self.create(i, None, false);
                }
                false
            }
        }
    }
}
const CYCLES: u16 = 13;
pub const CYCLE_NAMES: [&str; CYCLES as usize] = [
    "move there and back", "detach and insert", "refused calls", "replace data", "read, traverse and print",
    "clone the forest and drop the clone", "detach_single and insert", "create and remove", "copy a tree and remove it",
    "interrupted removals", "build and remove",
    "clone the forest and drop the original", "creation when IDs are used up",
];

const fn unit<Id: TestId, T>() -> i64 {
    (std::mem::size_of::<Option<T>>() + 4 * std::mem::size_of::<Option<Id>>() + 8) as i64
}

fn memory<R>(msg: String) -> Result<R, Fail> {
    fail(Cat::Memory, msg)
}

/// The bounds on one state.
fn judge<Id: TestId, T: Datum>(r: &Row, what: &str) -> Res {
    let n = (r.made + r.extra + 16 * r.forests) as i64;
    let data = ((r.alive + r.extra) * T::HEAP) as i64;
    let most = 2048 + 6 * n * unit::<Id, T>() + data;
    if r.live > most {
        return memory(format!(
            "{what}: {} bytes are in use for {} nodes ever made (at most {} more by refused calls) with {} data alive, of type {}; limit {most}",
            r.live, r.made, r.extra, r.alive, T::NAME
        ));
    }
    let most = 16_384 + 16 * n * unit::<Id, T>() + 2 * data;
    if r.rise > most {
        return memory(format!(
            "{what}: {} bytes are taken on the way, for {} nodes ever made (at most {} more), with data of type {}; limit {most}",
            r.rise, r.made, r.extra, T::NAME
        ));
    }
    Ok(())
}

struct Result1 {
    stray: Option<PanicClass>,
    rounds: u64,
    max: usize,
    peak: i64,
    fail: Option<Fail>,
    lost: i64,
}

fn run<Id: TestId, T: Datum>(case: &Case, rows: &mut Vec<Row>, trace: &mut Vec<String>, tr: bool) -> Result1 {
    rows.clear();
    let huge = case.ops.iter().any(|o| o.k == K_BIG);
    let cap = if huge { 80_000 } else { 3000 };
    let mut out = Result1 { stray: None, rounds: 0, max: 0, peak: 0, fail: None, lost: 0 };
    forget_message();
    let mut w: Run<Id, T> = Run::new(cap, if huge { 2 } else { SLOTS });
    let base = live_bytes();
    take_peak();
    w.base = base;
    let mut add = |r: Row, what: &dyn Fn() -> String, out: &mut Result1| {
        if rows.len() < rows.capacity() {
            rows.push(r);
        }
        out.max = out.max.max(r.made);
        out.peak = out.peak.max(r.live);
        if let Err(f) = judge::<Id, T>(&r, &what()) {
            out.fail.get_or_insert(Fail { step: r.step, ..f });
        }
    };
    for (i, o) in case.ops.iter().enumerate() {
        let before = live_bytes();
        take_peak();
        w.step(*o);
        if w.stray.is_some() {
            break;
        }
        let r = w.row(before, i);
        if tr {
            // Not part of what is measured.
            let s = format!("{} -> {} bytes in use, {} more on the way; {} nodes made, {} data alive",
                KIND_NAMES[o.k as usize % NKINDS], r.live, r.rise, r.made, r.alive);
            let l = live_bytes();
            trace.push(s);
            w.base += live_bytes() - l + trace.last().map_or(0, |s| s.capacity() as i64);
        }
        add(r, &|| format!("after {}", KIND_NAMES[o.k as usize % NKINDS]), &mut out);
        if out.fail.is_some() {
            break;
        }
    }
    // Repetitions.
    for (j, c) in case.prog.chunks(3).take(3).enumerate() {
        if w.slots[w.cur].f.is_none() || w.slots[w.cur].ids.len() > 600 || out.fail.is_some() || w.stray.is_some() {
            break;
        }
        let (kind, a, b) = (c[0] % CYCLES, c.get(1).copied().unwrap_or(1), c.get(2).copied().unwrap_or(0));
        let n = w.slots[w.cur].ids.len();
        let rounds: u16 = if n < 24 { 160 } else if n < 100 { 80 } else { 40 };
        let mut mark = None;
        let mut makes = false;
        for i in 0..rounds + 16 {
            if makes && w.slots[w.cur].ids.len() + n + 32 > cap {
                break;
            }
            out.rounds += 1;
            makes = w.round(kind, i, a, b);
            if w.stray.is_some() {
                break;
            }
            if i == 15 {
                mark = Some(live_bytes());
            }
        }
        if w.stray.is_some() {
            break;
        }
        let now = live_bytes();
        take_peak();
        let r = w.row(now, case.ops.len() + j);
        if tr {
            let s = format!("{rounds} times {}: {} bytes in use; {} nodes made, {} data alive", CYCLE_NAMES[kind as usize], r.live, r.made, r.alive);
            let l = live_bytes();
            trace.push(s);
            w.base += live_bytes() - l + trace.last().map_or(0, |s| s.capacity() as i64);
        }
        add(r, &|| format!("after {rounds} times {}", CYCLE_NAMES[kind as usize]), &mut out);
        let mark = mark.unwrap_or(now);
        if !makes && now - mark > 512 {
            out.fail.get_or_insert(Fail {
                cat: Cat::Memory,
                msg: format!("{rounds} times \"{}\" takes {} more bytes, though no node is made", CYCLE_NAMES[kind as usize], now - mark),
                step: r.step,
                tags: 0,
                outside: false,
            });
        }
    }
    out.stray = w.stray;
    let base = w.base;
    for s in w.slots.iter_mut() {
        s.f = None;
    }
    forget_message();
    out.lost = live_bytes() - base;
    out
}

/// Runs a case with one type of data. A first failure may be due to what the standard library sets up once.
fn twice<Id: TestId, T: Datum>(case: &Case, rows: &mut Vec<Row>, trace: &mut Vec<String>, tr: bool) -> (Result1, Res) {
    let mut r = run::<Id, T>(case, rows, trace, tr);
    for again in [true, false] {
        let bad = r.fail.take().or_else(|| {
            (r.lost != 0 && r.stray.is_none()).then(|| Fail {
                cat: Cat::Memory,
                msg: format!("{} bytes are in use after everything was dropped, with data of type {}", r.lost, T::NAME),
                step: case.ops.len(),
                tags: 0,
                outside: false,
            })
        });
        match bad {
            None => break,
            Some(_) if again => {
                trace.clear();
                r = run::<Id, T>(case, rows, trace, tr);
            }
            Some(f) => return (r, Err(f)),
        }
    }
    (r, Ok(()))
}

fn pair<Id: TestId>(case: &Case, rec: &mut Rec) -> (Result1, Res) {
    let n = case.ops.len() + 8;
    let (mut thin, mut thick) = (Vec::with_capacity(n), Vec::with_capacity(n));
    let mut trace = vec![];
    let (a, res) = twice::<Id, Fat<THIN>>(case, &mut thin, &mut trace, false);
    if res.is_err() || a.stray.is_some() {
        return (a, res);
    }
    let (b, res) = twice::<Id, Fat<THICK>>(case, &mut thick, &mut trace, rec.want_trace);
    rec.trace.append(&mut trace);
    if res.is_err() || b.stray.is_some() {
        return (b, res);
    }
    for (x, y) in thin.iter().zip(&thick) {
        if (x.made, x.alive, x.extra) != (y.made, y.alive, y.extra) {
            rec.foreign("Differ".to_string());
            break;
        }
        let one = (THICK - THIN) as i64;
        let d = y.live - x.live;
        let (lo, hi) = (x.alive as i64 * one, (x.alive + x.extra) as i64 * one);
        if d < lo || d > hi {
            let r = memory(format!(
                "after step {}: {} data are alive (at most {} more by refused calls), but memory is held for {}.{:02} of them",
                x.step, x.alive, x.extra, d / one, (d % one).abs() * 100 / one
            ));
            return (b, r);
        }
    }
    (b, Ok(()))
}

fn single<Id: TestId, T: Datum>(case: &Case, rec: &mut Rec) -> (Result1, Res) {
    let mut rows = Vec::with_capacity(case.ops.len() + 8);
    let mut trace = vec![];
    let r = twice::<Id, T>(case, &mut rows, &mut trace, rec.want_trace);
    rec.trace.append(&mut trace);
    r
}

fn c23_id<Id: TestId>(case: &Case, rec: &mut Rec) -> (Result1, Res) {
    match case.mode % 4 {
        0 => pair::<Id>(case, rec),
        1 => single::<Id, u64>(case, rec),
        2 => single::<Id, Nil>(case, rec),
        _ => single::<Id, String>(case, rec),
    }
}

pub fn c23(case: &Case, rec: &mut Rec) -> Res {
    rec.eval(1);
    let (r, res) = crate::with_few!(case.id, c23_id(case, rec));
    if let Some(s) = r.stray {
        rec.foreign(format!("{s:?}"));
    }
    rec.ops += case.ops.len() as u64 + r.rounds;
    rec.class(["data of 16 and of 2048 bytes on the heap", "data: u64", "data without size", "data: String"][case.mode as usize % 4]);
    if r.max > 4096 {
        rec.class("over 4096 nodes");
    }
    for c in case.prog.chunks(3).take(3) {
        if r.rounds > 0 {
            rec.class(&format!("repeated: {}", CYCLE_NAMES[(c[0] % CYCLES) as usize]));
        }
    }
    let edits = case.ops.iter().filter(|o| matches!(o.k, K_INSERT | K_REMOVE | K_RMPANIC | K_CLONE | K_FOREIGN | K_DETACH | K_DSINGLE)).count();
    if r.max > 2 && (r.rounds >= 40 || edits >= 3) {
        rec.nontrivial(hash_of(&(case.id, case.mode, &case.ops, &case.prog)));
    }
    res
}

/// Every repetition on every small forest, for every two of its nodes.
pub fn enumerate_c23(thorough: bool, out: &mut dyn FnMut(Case) -> bool) {
    let mut i = 0usize;
    for size in 1..=if thorough { 5 } else { 4 } {
        for fo in forests(size) {
            let ops: Vec<Op> = fo
                .iter()
                .map(|p| p.map_or(op(K_ROOT, 0, 0, 0, 0), |p| op(K_CREATE, p as u16, 0, 1, 1)))
                .collect();
            for kind in 0..CYCLES - 1 {
                for ab in 0..size * size {
                    for mode in 0..4 {
                        i += 1;
                        let prog = vec![kind, (ab / size) as u16, (ab % size) as u16];
                        if !out(Case { id: (i % 3) as u8, mode, ops: ops.clone(), prog }) {
                            return;
                        }
                    }
                }
            }
        }
    }
}
