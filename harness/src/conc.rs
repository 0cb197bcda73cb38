//! Forests in several threads (C22).
//!
//! A history of one forest is run alone in a fresh thread; what it shows after each operation is the expectation.
//! Then the same history runs while other threads work: passed from thread to thread, interleaved with the
//! histories of other forests at every access to a node, read by several threads at once, or free.

use std::collections::HashMap;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::hash::{BuildHasherDefault, Hash};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Barrier, Condvar, Mutex};
use std::time::Duration;

use treena::dynamic::{
    AdoptAs, AllocatingBreadthFirstTraverse, Ancestors, BreadthFirstTraverse, ChainTreeBuilder, DebugPrint, DepthFirstTraverse, DftEvent,
    Forest, InsertAs, NestTreeBuilder, Node, NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8, NodeIdUsize, NodeMut,
    ShallowDepthFirstTraverse, Siblings, StructureError,
};
use treena::verif_hook::{pause_point, set_pause};

use crate::base::*;
use crate::case::*;
use crate::engine::*;
use crate::exer;
use crate::rec::Rec;
use crate::with_id;

/// ID types that may cross threads, as all do.
pub trait ConcId: TestId + Send + Sync + NodeId<Internal: Send + Sync> {}
impl<Id: TestId + Send + Sync + NodeId<Internal: Send + Sync>> ConcId for Id {}

// ---------------------------------------------------------- what must compile

fn send<T: Send>() {}
fn sync<T: Sync>() {}
/// Data that may cross threads, but not be read by several.
type Lone = Cell<u32>;

macro_rules! shared {
    ($id:ty, $t:ty) => {
        send::<Forest<$id, $t>>();
        sync::<Forest<$id, $t>>();
        send::<Node<'static, $id, $t>>();
        sync::<Node<'static, $id, $t>>();
        send::<NodeMut<'static, $id, $t>>();
        send::<DepthFirstTraverse<'static, $id, $t>>();
        send::<ShallowDepthFirstTraverse<'static, $id, $t>>();
        send::<BreadthFirstTraverse<'static, $id, $t>>();
        send::<AllocatingBreadthFirstTraverse<'static, $id, $t>>();
        send::<Ancestors<'static, $id, $t>>();
        send::<Siblings<'static, $id, $t>>();
        send::<DebugPrint<'static, $id, $t>>();
        send::<ChainTreeBuilder<'static, $id, $t>>();
        send::<NestTreeBuilder<'static, $id, $t>>();
    };
}
macro_rules! for_id {
    ($id:ty) => {
        shared!($id, u32);
        shared!($id, String);
        shared!($id, Box<dyn Fn() -> u32 + Send + Sync>);
        send::<Forest<$id, Lone>>();
        send::<NodeMut<'static, $id, Lone>>();
        send::<ChainTreeBuilder<'static, $id, Lone>>();
        send::<NestTreeBuilder<'static, $id, Lone>>();
        send::<$id>();
        sync::<$id>();
        send::<InsertAs<$id>>();
        sync::<InsertAs<$id>>();
        send::<DftEvent<$id>>();
        sync::<DftEvent<$id>>();
    };
}
#[allow(dead_code)]
fn types() {
    for_id!(NodeIdU8);
    for_id!(NodeIdU16);
    for_id!(NodeIdU32);
    for_id!(NodeIdU64);
    for_id!(NodeIdUsize);
    for_id!(MyTuple);
    for_id!(MyStruct);
    send::<AdoptAs>();
    sync::<AdoptAs>();
    send::<StructureError>();
    sync::<StructureError>();
}

// ------------------------------------------------------------------- schedules

/// One thread runs at a time; the plan tells for how many pause points.
struct Sched {
    m: Mutex<St>,
    cv: Condvar,
}
struct St {
    turn: usize,
    done: Vec<bool>,
    plan: Vec<u16>,
    pos: usize,
    moves: u64,
    points: u64,
    /// The plan was given up: a thread waited for something that a paused one holds.
    free: bool,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}

const WAIT: Duration = Duration::from_millis(500);

impl Sched {
    fn new(lanes: usize, plan: Vec<u16>) -> Arc<Sched> {
        let plan = if plan.is_empty() { vec![5, 9, 2] } else { plan };
        let st = St { turn: 0, done: vec![false; lanes], plan, pos: 0, moves: 0, points: 0, free: false };
        Arc::new(Sched { m: Mutex::new(st), cv: Condvar::new() })
    }
    /// Number of pause points of the next turn.
    fn draw(s: &mut St) -> u64 {
        let d = s.plan[s.pos % s.plan.len()];
        s.pos += 1;
        let n = match d {
            65_535 => u64::MAX,
            // Mostly a few points, sometimes a whole operation.
            d if d % 8 == 7 => 20 + (d / 8) as u64 % 400,
            d => 1 + (d / 8) as u64 % 24,
        };
        s.points = s.points.saturating_add(if n == u64::MAX { 0 } else { n });
        n
    }
    fn wait(&self, me: usize) -> u64 {
        let mut s = self.m.lock().unwrap();
        loop {
            if s.free {
                return u64::MAX;
            }
            if s.turn == me {
                if (0..s.done.len()).all(|k| k == me || s.done[k]) {
                    return u64::MAX;
                }
                return Self::draw(&mut s);
            }
            let seen = s.moves;
            let (g, t) = self.cv.wait_timeout(s, WAIT).unwrap();
            s = g;
            if t.timed_out() && s.moves == seen && s.turn != me {
                s.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn pass(&self, me: usize, done: bool) {
        let mut s = self.m.lock().unwrap();
        s.moves += 1;
        s.done[me] |= done;
        if s.turn == me {
            let n = s.done.len();
            let p = s.plan[s.pos % s.plan.len()] as usize / 64;
            let next = (0..n).map(|k| (me + 1 + (p + k) % n) % n).filter(|k| !s.done[*k]);
            if let Some(k) = next.clone().find(|k| *k != me).or(next.clone().next()) {
                s.turn = k;
            }
        }
        self.cv.notify_all();
    }
    /// Runs `f` as lane `me`.
    fn lane<R>(self: &Arc<Self>, me: usize, f: impl FnOnce() -> R) -> R {
        ME.with(|m| *m.borrow_mut() = Some((self.clone(), me)));
        let n = self.wait(me);
        set_pause(n, turn_over);
        let r = f();
        set_pause(u64::MAX, turn_over);
        self.pass(me, true);
        ME.with(|m| *m.borrow_mut() = None);
        r
    }
}

/// Called by the hook in the midst of an operation.
fn turn_over() -> u64 {
    let me = ME.with(|m| m.borrow().clone());
    match me {
        Some((s, me)) => {
            s.pass(me, false);
            s.wait(me)
        }
        None => u64::MAX,
    }
}

// ------------------------------------------------------------------------ data

/// Data whose clones and prints are pause points too.
struct V(u32);
impl Clone for V {
    fn clone(&self) -> Self {
        pause_point();
        FUEL.with(|f| match f.get() {
            0 => panic!("{}", USER_PANIC),
            u64::MAX => {}
            n => f.set(n - 1),
        });
        V(self.0)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        pause_point();
    }
}
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        pause_point();
        for s in label(self.0) {
            f.write_str(&s)?;
        }
        Ok(())
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        pause_point();
        write!(f, "V{}", self.0)
    }
}

const CAP: usize = 150;

/// One forest and what it showed so far.
struct Run<Id: NodeId> {
    f: Forest<Id, V>,
    ids: Vec<Id>,
    index: HashMap<Id, usize, BuildHasherDefault<Fnv>>,
    h: Fnv,
    /// After each operation.
    hs: Vec<u64>,
}

fn ins<Id>(c: u16, a: Id) -> InsertAs<Id> {
    match c % 4 {
        0 => InsertAs::FirstChildOf(a),
        1 => InsertAs::LastChildOf(a),
        2 => InsertAs::PreviousSiblingOf(a),
        _ => InsertAs::NextSiblingOf(a),
    }
}
fn adp(c: u16) -> AdoptAs {
    match c % 4 {
        0 => AdoptAs::FirstChild,
        1 => AdoptAs::LastChild,
        2 => AdoptAs::PreviousSibling,
        _ => AdoptAs::NextSibling,
    }
}
fn err(e: StructureError) -> u8 {
    format!("{e:?}").bytes().fold(7, |a, b| a.wrapping_mul(31).wrapping_add(b))
}

impl<Id: ConcId> Run<Id> {
    fn new() -> Self {
        Run { f: Forest::new(), ids: vec![], index: Default::default(), h: Fnv::default(), hs: vec![] }
    }
    fn add(&mut self, id: Id) {
        self.index.insert(id, self.ids.len());
        self.ids.push(id);
    }
    fn ix(&self, id: Option<Id>) -> Option<usize> {
        id.map(|i| self.index.get(&i).copied().unwrap_or(usize::MAX))
    }
    /// Small numbers name any node, large ones a live one.
    fn pick(&self, a: usize) -> Option<Id> {
        let n = self.ids.len();
        if n == 0 {
            return None;
        }
        if a < n {
            return Some(self.ids[a]);
        }
        (0..n).map(|k| self.ids[(a + k) % n]).find(|i| self.f.node(*i).is_some())
    }
    fn rel(&self, x: Id, b: u16) -> Option<Id> {
        let n = self.f.node(x);
        match (b % 16, n) {
            (10, Some(n)) => n.parent_id(),
            (11, Some(n)) => n.next_sibling_id(),
            (12, Some(n)) => n.prev_sibling_id(),
            (13, Some(n)) => n.first_child_id(),
            (14, Some(n)) => n.last_child_id(),
            (15, _) => Some(x),
            _ => None,
        }
        .or_else(|| self.pick(b as usize / 16))
    }
    fn apply(&mut self, o: &Op) {
        let (a, b, c, d) = (o.a as usize, o.b, o.c, o.d);
        let room = CAP.saturating_sub(self.ids.len());
        if o.k == K_ROOT || self.ids.is_empty() {
            if room > 0 {
                let id = self.f.create_root(V(b as u32));
                self.add(id);
            }
            return;
        }
        let Some(x) = self.pick(a) else { return };
        match o.k {
            K_CREATE if room > 0 => {
                let v = V(b as u32);
                let id = match self.f.node_mut(x) {
                    Some(mut m) if d % 2 == 1 => m.create(v, adp(c)),
                    _ => self.f.create_insert(v, ins(c, x)),
                };
                self.add(id);
            }
            K_INSERT => {
                let Some(y) = self.rel(x, b) else { return };
                match d % 3 {
                    1 if self.f.node(y).is_some() => {
                        let r = self.f.node_mut(y).map(|mut m| m.try_adopt(x, adp(c)).map_err(err));
                        r.hash(&mut self.h);
                    }
                    2 if self.f.node(y).is_some() => {
                        if let Some(mut m) = self.f.node_mut(y) {
                            m.adopt(x, adp(c));
                        }
                    }
                    _ => self.f.insert(x, ins(c, y)).map_err(err).hash(&mut self.h),
                }
            }
            K_DETACH => match self.f.node_mut(x) {
                Some(mut m) if d % 2 == 1 => m.detach(),
                _ => self.f.detach(x),
            },
            K_DSINGLE => {
                let r = match self.f.node_mut(x) {
                    Some(mut m) if d % 2 == 1 => m.detach_single(),
                    _ => self.f.detach_single(x),
                };
                r.map_err(err).hash(&mut self.h);
            }
            K_REMOVE => {
                let mut h = self.h.clone();
                let mut hook = |v: V| {
                    pause_point();
                    v.0.hash(&mut h);
                };
                match (self.f.node_mut(x), d % 2, c % 3) {
                    (Some(m), 1, 0) => m.remove(),
                    (Some(m), 1, 1) => m.remove_hooked(&mut hook),
                    (Some(m), 1, _) => m.remove_hooked_panic_safe(&mut hook),
                    (_, _, 0) => self.f.remove(x),
                    (_, _, 1) => self.f.remove_hooked(x, &mut hook),
                    (_, _, _) => self.f.remove_hooked_panic_safe(x, &mut hook),
                }
                self.h = h;
            }
            K_RMPANIC => {
                let mut left = b % 6;
                self.f.remove_hooked_panic_safe(x, |_| {
                    pause_point();
                    if left == 0 {
                        panic!("{}", USER_PANIC);
                    }
                    left -= 1;
                });
            }
            K_SET => match (d % 3, self.f.node_mut(x)) {
                (1, Some(mut m)) => m.data_mut().0 = b as u32,
                (2, Some(m)) => m.into_data_ref_mut().0 = b as u32,
                _ => {
                    if let Some(v) = self.f.data_mut(x) {
                        v.0 = b as u32;
                    }
                }
            },
            K_CLONE | K_FOREIGN | K_CLONEPANIC if room > 40 => {
                let mut new: Vec<(Id, Id)> = vec![];
                if o.k == K_CLONEPANIC {
                    FUEL.with(|f| f.set(b as u64 % 6));
                }
                if o.k == K_FOREIGN {
                    let other = self.f.clone();
                    let Some(n) = other.node(x) else { return };
                    if other.depth_first_traverse(x).take(80).count() == 80 {
                        return;
                    }
                    if d % 2 == 0 {
                        let _ = self.f.clone_foreign_tree_with_id_mapping(n, |s, t| {
                            pause_point();
                            new.push((s, t));
                        });
                    } else {
                        let r = self.f.clone_foreign_tree(n);
                        new = self.f.depth_first_traverse(r).filter_map(open).map(|n| (x, n.id())).collect();
                    }
                } else {
                    if self.f.node(x).is_some() && self.f.depth_first_traverse(x).take(80).count() == 80 {
                        return;
                    }
                    if d % 2 == 0 || o.k == K_CLONEPANIC {
                        let _ = self.f.clone_local_tree_with_id_mapping(x, |s, t| {
                            pause_point();
                            new.push((s, t));
                        });
                    } else {
                        let r = self.f.clone_local_tree(x);
                        new = self.f.depth_first_traverse(r).filter_map(open).map(|n| (x, n.id())).collect();
                    }
                }
                for (s, t) in new {
                    self.index.get(&s).hash(&mut self.h);
                    self.add(t);
                }
            }
            K_FORK | K_NEWF => {
                if d % 2 == 0 {
                    self.f = self.f.clone();
                } else {
                    let mut g = Forest::new();
                    let _ = g.create_root(V(1));
                    g.clone_from(&self.f);
                    self.f = g;
                }
            }
            K_CHAIN if room > 20 => {
                let mut new = vec![];
                let mut w = b;
                let mut cb = ChainTreeBuilder::new(&mut self.f, V(c as u32));
                new.push(cb.root_id());
                for i in 0..2 + d % 9 {
                    match w % 3 {
                        0 => {
                            cb.child(V(i as u32));
                            new.push(cb.current_id());
                        }
                        1 if cb.current_id() != cb.root_id() => {
                            cb.sibling(V(i as u32));
                            new.push(cb.current_id());
                        }
                        _ => {
                            cb.try_parent().is_some().hash(&mut self.h);
                        }
                    }
                    w = w / 3 + 7 * i;
                }
                for x in new {
                    self.add(x);
                }
            }
            K_NEST if room > 20 => {
                let r = {
                    let mut nb = NestTreeBuilder::new(&mut self.f, V(c as u32));
                    nb.add_child(V(1));
                    nb.create_tree(V(b as u32), |t| {
                        pause_point();
                        t.add_child(V(2));
                        if d % 2 == 0 {
                            t.create_tree(V(3), |t| t.add_child(V(4)));
                        }
                        t.add_child(V(5));
                    });
                    nb.add_child(V(6));
                    nb.root()
                };
                let new: Vec<Id> = self.f.depth_first_traverse(r).filter_map(open).map(|n| n.id()).collect();
                for x in new {
                    self.add(x);
                }
            }
            K_MISUSE => {
                // Something removed, if there is such a thing.
                let Some(x) = self.ids.iter().copied().find(|i| self.f.node(*i).is_none()) else { return };
                match b % 4 {
                    0 => self.f.detach(x),
                    1 => self.f.insert(x, ins(c, self.ids[0])).map_err(err).hash(&mut self.h),
                    2 => self.f.remove(x),
                    _ => self.f.children(x).count().hash(&mut self.h),
                }
            }
            K_GROW => {
                let n = (c as usize).clamp(1, 30).min(room.saturating_sub(5));
                let mut last = x;
                for i in 0..n {
                    let w = match b % 4 {
                        0 => ins(i as u16, x),
                        1 => ins(1, last),
                        2 => ins(0, last),
                        _ => ins(1 + i as u16 % 3, last),
                    };
                    let w = match w {
                        InsertAs::NextSiblingOf(y) | InsertAs::PreviousSiblingOf(y) if self.f.node(y).map_or(false, |n| n.parent_id().is_none()) => {
                            InsertAs::LastChildOf(y)
                        }
                        w => w,
                    };
                    last = self.f.create_insert(V(b as u32 + i as u32), w);
                    self.add(last);
                }
            }
            K_PRUNE => {
                let go: Vec<Id> = self.ids.iter().copied().skip(a % 3).step_by(2 + c as usize % 3).take(20).collect();
                for x in go {
                    if self.f.node(x).is_some() {
                        self.f.remove(x);
                    }
                }
            }
            _ => {
                let h = self.read(x, b as usize, &|i| o.c.wrapping_add(i as u16 * 7));
                h.hash(&mut self.h);
            }
        }
    }
    fn shape(&self, h: &mut Fnv) {
        self.ids.len().hash(h);
        for i in &self.ids {
            match self.f.node(*i) {
                None => 0u8.hash(h),
                Some(n) => {
                    n.data().0.hash(h);
                    for l in [n.parent_id(), n.prev_sibling_id(), n.next_sibling_id(), n.first_child_id(), n.last_child_id()] {
                        self.ix(l).hash(h);
                    }
                }
            }
        }
    }
    fn step(&mut self, o: &Op) {
        budget(step_limit(self.ids.len() + 40) * 8);
        let r = guard(|| self.apply(o));
        FUEL.with(|f| f.set(u64::MAX));
        r.map_err(|p| p.class).hash(&mut self.h);
        let mut h = self.h.clone();
        budget(step_limit(self.ids.len() + 40) * 8);
        let r = guard(|| self.shape(&mut h));
        budget(u64::MAX);
        r.map_err(|p| p.class).hash(&mut h);
        self.h = h;
        self.hs.push(self.h.0);
    }
    /// Everything that can be read at a node.
    fn read(&self, id: Id, code: usize, prog: &dyn Fn(usize) -> u16) -> u64 {
        let f = &self.f;
        let mut h = Fnv::default();
        let Some(n) = f.node(id) else { return 0 };
        let ix = |n: Node<'_, Id, V>| (self.index.get(&n.id()).copied(), n.data().0);
        let e = |e: DftEvent<Node<'_, Id, V>>| match e {
            DftEvent::Open(n) => (true, ix(n)),
            DftEvent::Close(n) => (false, ix(n)),
        };
        let lim = 2 * self.ids.len() + 5;
        let small = code % 4 == 0;
        macro_rules! de {
            ($mk:expr, $map:expr) => {
                exer::both(&|| $mk, &$map, Some(&|i| i.peek()), Some(&|i| i.peek_back()), prog, lim, code, small, &mut h)
            };
        }
        macro_rules! se {
            ($mk:expr, $map:expr, $peek:expr) => {
                exer::forward(&|| $mk, &$map, $peek, lim, code, small, &mut h)
            };
        }
        for l in [n.parent(), n.prev_sibling(), n.next_sibling(), n.first_child(), n.last_child()] {
            l.map(|n| ix(n)).hash(&mut h);
        }
        match code / 4 % 8 {
            0 => de!(f.depth_first_traverse(id), e),
            1 => de!(f.shallow_depth_first_traverse(id, Some(code % 5)), |x: (_, usize)| (e(x.0), x.1)),
            2 => {
                de!(f.children(id), ix);
                de!(f.following_siblings(id), ix);
                de!(f.preceding_siblings_or_self(id), ix);
            }
            3 => {
                se!(f.ancestors(id), ix, Some(&|i| i.peek()));
                se!(f.ancestors_or_self(id), ix, Some(&|i| i.peek()));
                de!(f.following_siblings_or_self(id), ix);
                de!(f.preceding_siblings(id), ix);
            }
            4 => se!(f.breadth_first_traverse(id), |x: (_, usize)| (ix(x.0), x.1), None),
            5 => se!(f.allocating_breadth_first_traverse(id), |x: (_, usize)| (ix(x.0), x.1), Some(&|i| i.peek())),
            6 => {
                let mut s = String::new();
                (write!(s, "{}", f.debug_print(id)).is_ok(), &s).hash(&mut h);
            }
            _ => {
                let mut s = String::new();
                (write!(s, "{:?}", f.debug_print(id)).is_ok(), &s).hash(&mut h);
            }
        }
        h.0
    }
}

fn open<N>(e: DftEvent<N>) -> Option<N> {
    match e {
        DftEvent::Open(n) => Some(n),
        DftEvent::Close(_) => None,
    }
}

/// Runs `f` in a new thread.
fn fresh<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| s.spawn(f).join().expect("a thread of the harness panicked"))
}

/// The history alone.
fn alone<Id: ConcId>(ops: &[Op]) -> Vec<u64> {
    fresh(|| {
        let mut r = Run::<Id>::new();
        ops.iter().for_each(|o| r.step(o));
        r.hs
    })
}

fn compare(what: &str, ops: &[Op], want: &[u64], got: &[u64]) -> Res {
    match (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) {
        None => Ok(()),
        Some(i) => fail(
            Cat::Differ,
            format!("{what}: after operation {i} ({:?}, {}) the forest or a result is not what it is when the history runs in one thread, alone", ops.get(i),
                ops.get(i).map_or("", |o| KIND_NAMES[o.k as usize % NKINDS])),
        ),
    }
}

/// Number of repetitions of what is not determined by the case.
pub static REPEAT: AtomicU64 = AtomicU64::new(4);

fn at(p: &[u16], i: usize) -> usize {
    p.get(i).copied().unwrap_or(0) as usize
}

/// The histories of the threads: the same, or variations after a common beginning.
fn lanes(case: &Case, n: usize) -> Vec<Vec<Op>> {
    let k = at(&case.prog, 2) % (case.ops.len() + 1);
    let (pre, suf) = case.ops.split_at(k);
    (0..n)
        .map(|l| {
            let mut v = pre.to_vec();
            match at(&case.prog, 1) % 4 {
                _ if l == 0 => v.extend(suf),
                0 => v.extend(suf),
                1 => v.extend(suf.iter().rev()),
                2 => v.extend(suf.iter().enumerate().filter(|(i, _)| (i + l) % 3 != 0).map(|x| x.1)),
                _ => v.extend(suf.iter().skip(l % suf.len().max(1)).chain(suf.iter().take(l % suf.len().max(1)))),
            }
            v
        })
        .collect()
}

pub fn c22<Id: ConcId>(case: &Case, rec: &mut Rec) -> Res {
    rec.eval(1);
    let mode = case.mode % 6;
    let p = &case.prog;
    let edits = case.ops.iter().filter(|o| !matches!(o.k, K_TOUCH | K_ROOT | K_SET)).count();
    if edits >= 3 {
        rec.nontrivial(hash_of(case));
    }
    rec.calls += case.ops.len() as u64;
    if rec.want_trace {
        rec.trace.push(format!("mode {mode}, program {p:?}"));
        for o in &case.ops {
            rec.trace.push(format!("{} {:?}", KIND_NAMES[o.k as usize % NKINDS], o));
        }
    }
    match mode {
        // The forest goes from thread to thread; each thread has several turns.
        0 => {
            rec.class("histories passed from thread to thread");
            relay::<Id>(case)
        }
        // Several forests, one thread each, interleaved at any access to a node.
        1 | 2 => {
            rec.class("histories of several forests interleaved within calls");
            let ls = lanes(case, [2, 3, 2, 6][at(p, 0) % 4]);
            let want: Vec<_> = ls.iter().map(|l| alone::<Id>(l)).collect();
            let (got, switches, free) = together::<Id>(&ls, Some(p.get(3..).unwrap_or(&[]).to_vec()), 0);
            rec.class_n("switches between threads", switches);
            rec.class_n("schedules given up", free as u64);
            rec.trace.push(format!("{} threads, {switches} switches", ls.len()));
            for (i, l) in ls.iter().enumerate() {
                compare(&format!("thread {i} of {}, taking turns", ls.len()), l, &want[i], &got[i])?;
            }
            Ok(())
        }
        // The last operation of one forest is interrupted once, at every place.
        3 => {
            rec.class("last operation interrupted at every access");
            let mut ls = lanes(case, 2);
            let n = case.ops.len();
            let pre = at(p, 2).min(n);
            if at(p, 1) % 4 == 0 && n > pre {
                // The other forest runs another operation.
                ls[1].swap(pre, n - 1);
            }
            let want: Vec<_> = ls.iter().map(|l| alone::<Id>(l)).collect();
            for k in 1..400u64 {
                let (got, switches, _) = together::<Id>(&ls, Some(vec![8 * (k.min(24) as u16 - 1), 65_535]), pre.max(1) + (k.saturating_sub(24) as usize) * 65_536);
                rec.class_n("switches between threads", switches);
                for (i, l) in ls.iter().enumerate() {
                    compare(&format!("thread {i}, thread 0 being interrupted at access {k} after operation {pre}"), l, &want[i], &got[i])?;
                }
                if switches < 2 {
                    break;
                }
            }
            Ok(())
        }
        // One forest is read by several threads, while another one is edited.
        4 => {
            rec.class("forests read by several threads");
            reading::<Id>(case, rec, true)
        }
        // Without a schedule.
        _ => {
            rec.class("free running threads");
            let ls = lanes(case, 4);
            let want: Vec<_> = ls.iter().map(|l| alone::<Id>(l)).collect();
            for _ in 0..REPEAT.load(Ordering::Relaxed) {
                let (got, _, _) = together::<Id>(&ls, None, 0);
                for (i, l) in ls.iter().enumerate() {
                    compare(&format!("thread {i} of {}, running freely", ls.len()), l, &want[i], &got[i])?;
                }
            }
            reading::<Id>(case, rec, false)
        }
    }
}

/// Runs each history in its own thread. `apart`: low 16 bits: operations run before the schedule starts;
/// the rest: pause points added to the first turn.
fn together<Id: ConcId>(ls: &[Vec<Op>], plan: Option<Vec<u16>>, apart: usize) -> (Vec<Vec<u64>>, u64, bool) {
    let (pre, more) = (apart % 65_536, (apart / 65_536) as u64);
    let barrier = Barrier::new(ls.len());
    let sched = plan.as_ref().map(|p| Sched::new(ls.len(), p.clone()));
    let got = std::thread::scope(|s| {
        let hs: Vec<_> = ls
            .iter()
            .enumerate()
            .map(|(i, l)| {
                let (barrier, sched) = (&barrier, sched.clone());
                s.spawn(move || {
                    let mut r = Run::<Id>::new();
                    let pre = pre.min(l.len());
                    l[..pre].iter().for_each(|o| r.step(o));
                    barrier.wait();
                    let mut rest = || l[pre..].iter().for_each(|o| r.step(o));
                    match sched {
                        Some(s) => s.lane(i, || {
                            if more > 0 && i == 0 {
                                set_pause(24 + more, turn_over);
                            }
                            rest()
                        }),
                        None => rest(),
                    }
                    r.hs
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("a thread of the harness panicked")).collect()
    });
    match sched {
        Some(s) => {
            let s = s.m.lock().unwrap();
            (got, s.moves.saturating_sub(ls.len() as u64 - 1), s.free)
        }
        None => (got, 0, false),
    }
}

fn relay<Id: ConcId>(case: &Case) -> Res {
    let p = &case.prog;
    let mut ops = vec![];
    for (i, o) in case.ops.iter().enumerate() {
        ops.push(*o);
        // Calls return, with something else in between.
        let e = at(p, 2) * 7 + i * 3;
        if at(p, 2) > 0 && e % 4 == 0 && i > e % 3 + 1 {
            ops.push(case.ops[i - 2 - e % 3 % (i - 1)]);
        }
    }
    let want = alone::<Id>(&ops);
    let n = 2 + at(p, 0) % 3;
    // Each thread also has a forest of its own.
    let twin = at(p, 1) % 2 == 0;
    // The forest stays where it is in memory.
    type Job<Id> = (Box<Run<Id>>, Vec<Op>);
    let got = std::thread::scope(|s| {
        let (back, done) = mpsc::channel::<Box<Run<Id>>>();
        let to: Vec<mpsc::Sender<Job<Id>>> = (0..n)
            .map(|_| {
                let (tx, rx) = mpsc::channel::<Job<Id>>();
                let back = back.clone();
                s.spawn(move || {
                    let mut own = Run::<Id>::new();
                    for (mut r, ops) in rx {
                        for o in &ops {
                            r.step(o);
                            if twin {
                                own.step(o);
                            }
                        }
                        if back.send(r).is_err() {
                            break;
                        }
                    }
                });
                tx
            })
            .collect();
        let mut r = Box::new(Run::<Id>::new());
        let (mut i, mut k, mut who) = (0, 0, 0);
        let plan = p.get(3..).unwrap_or(&[]);
        while i < ops.len() {
            let d = at(plan, k % plan.len().max(1));
            let len = (1 + d % 8).min(ops.len() - i);
            who = (who + 1 + d / 8 % (n - 1).max(1)) % n;
            to[who].send((r, ops[i..i + len].to_vec())).expect("sending");
            r = match done.recv_timeout(Duration::from_secs(200)) {
                Ok(r) => r,
                Err(_) => return Err("a thread did not return the forest"),
            };
            i += len;
            k += 1;
        }
        drop(to);
        Ok(r.hs)
    });
    match got {
        Ok(got) => compare(&format!("passing the forest around {n} threads"), &ops, &want, &got),
        Err(e) => fail(Cat::Hang, e),
    }
}

enum It<'a, Id: NodeId> {
    Depth(DepthFirstTraverse<'a, Id, V>),
    Shallow(ShallowDepthFirstTraverse<'a, Id, V>),
    Sib(Siblings<'a, Id, V>),
    Anc(Ancestors<'a, Id, V>),
    Breadth(BreadthFirstTraverse<'a, Id, V>),
    Alloc(AllocatingBreadthFirstTraverse<'a, Id, V>),
}
impl<'a, Id: ConcId> It<'a, Id> {
    fn new(f: &'a Forest<Id, V>, id: Id, kind: usize) -> Self {
        match kind % 9 {
            0 => It::Depth(f.depth_first_traverse(id)),
            1 => It::Shallow(f.shallow_depth_first_traverse(id, Some(kind / 9 % 4))),
            2 => It::Sib(f.children(id)),
            3 => It::Sib(f.following_siblings_or_self(id)),
            4 => It::Sib(f.preceding_siblings(id)),
            5 => It::Anc(f.ancestors_or_self(id)),
            6 => It::Breadth(f.breadth_first_traverse(id)),
            7 => It::Alloc(f.allocating_breadth_first_traverse(id)),
            _ => It::Depth(f.node(id).expect("live").depth_first_traverse()),
        }
    }
    fn get(&mut self, r: &Run<Id>, back: bool) -> u64 {
        let ix = |n: Node<'_, Id, V>| (r.index.get(&n.id()).copied(), n.data().0);
        let e = |e: DftEvent<Node<'_, Id, V>>| match e {
            DftEvent::Open(n) => (true, ix(n)),
            DftEvent::Close(n) => (false, ix(n)),
        };
        macro_rules! two {
            ($i:expr, $m:expr) => {
                hash_of(&if back { $i.next_back().map($m) } else { $i.next().map($m) })
            };
        }
        match self {
            It::Depth(i) => two!(i, e),
            It::Shallow(i) => two!(i, |x| (e(x.0), x.1)),
            It::Sib(i) => two!(i, ix),
            It::Anc(i) => hash_of(&i.next().map(ix)),
            It::Breadth(i) => hash_of(&i.next().map(|x| (ix(x.0), x.1))),
            It::Alloc(i) => hash_of(&i.next().map(|x| (ix(x.0), x.1))),
        }
    }
    fn copy(&self) -> Self {
        match self {
            It::Depth(i) => It::Depth(i.clone()),
            It::Shallow(i) => It::Shallow(i.clone()),
            It::Sib(i) => It::Sib(i.clone()),
            It::Anc(i) => It::Anc(i.clone()),
            It::Breadth(i) => It::Breadth(i.clone()),
            It::Alloc(i) => It::Alloc(i.clone()),
        }
    }
}

/// Several threads read one forest, each with its own questions, and move iterators among them.
fn reading<Id: ConcId>(case: &Case, rec: &mut Rec, scheduled: bool) -> Res {
    let p = case.prog.clone();
    let n = [2, 3, 2, 6][at(&p, 0) % 4];
    // All ask the same, or each something else.
    let apart = at(&p, 1) % 3;
    let ops = &case.ops;
    let build = || {
        let mut r = Run::<Id>::new();
        ops.iter().for_each(|o| r.step(o));
        r
    };
    let live = |r: &Run<Id>| -> Vec<Id> { r.ids.iter().copied().filter(|i| r.f.node(*i).is_some()).collect() };
    let code = |k: usize| at(&p, k % p.len().max(1)).wrapping_add(k * 37);
    let steps = |k: usize| move |i: usize| (i * (3 + k % 7) + k) as u16;
    const Q: usize = 6;
    const ITERS: usize = 5;
    let len = |r: &Run<Id>| 2 * r.ids.len() + 3;
    // Whether the i-th step of iterator k is from the back.
    let back = |k: usize, i: usize| (code(k + 90) >> (i % 13)) & 1 == 1;
    // The answers when one thread asks.
    let (want, seqs, twin) = fresh(|| {
        let r = build();
        let l = live(&r);
        let mut want = vec![];
        let mut seqs = vec![];
        if !l.is_empty() {
            for q in 0..Q {
                budget(step_limit(r.ids.len() + 40) * 8);
                want.push(guard(|| r.read(l[code(q) % l.len()], code(q + 31), &steps(q))).map_err(|p| p.class));
            }
            for k in 0..ITERS {
                budget(step_limit(r.ids.len() + 40) * 8);
                let x = guard(|| {
                    let mut it = It::new(&r.f, l[code(k + 60) % l.len()], code(k + 70));
                    (0..len(&r)).map(|i| it.get(&r, back(k, i))).collect::<Vec<_>>()
                });
                seqs.push(x.map_err(|p| p.class));
            }
            budget(u64::MAX);
        }
        let mut t = r;
        ops.iter().rev().take(12).for_each(|o| t.step(o));
        (want, seqs, t.hs)
    });
    if want.is_empty() {
        return Ok(());
    }
    let rounds = if scheduled { 1 } else { REPEAT.load(Ordering::Relaxed) };
    for _ in 0..rounds {
        // The forest is built in one thread and read in others.
        let r = fresh(build);
        let l = live(&r);
        let editor = Box::new(fresh(build));
        let sched = scheduled.then(|| Sched::new(n + 1, p.get(3..).unwrap_or(&[]).to_vec()));
        let barrier = Barrier::new(n + 1);
        let pool: Mutex<Vec<(usize, usize, It<'_, Id>)>> = Mutex::new(vec![]);
        if l.len() != 0 {
            let mut g = pool.lock().unwrap();
            for (k, s) in seqs.iter().enumerate() {
                if s.is_ok() {
                    g.push((k, 0, It::new(&r.f, l[code(k + 60) % l.len()], code(k + 70))));
                }
            }
        }
        let (r, l, pool) = (&r, &l, &pool);
        let (want, seqs) = (&want, &seqs);
        let bad: Vec<Option<String>> = std::thread::scope(|s| {
            let mut hs = vec![];
            for t in 0..n {
                let (sched, barrier) = (sched.clone(), &barrier);
                hs.push(s.spawn(move || {
                    barrier.wait();
                    let work = || {
                        let mut bad = None;
                        for q in 0..Q {
                            let q = (q + t * apart) % Q;
                            budget(step_limit(r.ids.len() + 40) * 8);
                            let got = guard(|| r.read(l[code(q) % l.len()], code(q + 31), &steps(q))).map_err(|p| p.class);
                            budget(u64::MAX);
                            if got != want[q] {
                                bad = bad.or(Some(format!("thread {t} of {n} gets other answers to question {q}")));
                            }
                            // An iterator that another thread has advanced.
                            let x = pool.lock().unwrap().pop();
                            if let Some((k, mut i, mut it)) = x {
                                let Ok(seq) = &seqs[k] else { continue };
                                let mut twin = it.copy();
                                for j in 0..3 + q {
                                    if i >= seq.len() {
                                        break;
                                    }
                                    budget(step_limit(r.ids.len() + 40) * 8);
                                    let got = guard(|| (it.get(r, back(k, i)), if j < 3 { twin.get(r, back(k, i)) } else { seq[i] }));
                                    budget(u64::MAX);
                                    if !matches!(got, Ok((a, b)) if a == seq[i] && b == seq[i]) {
                                        bad = bad.or(Some(format!("iterator {k}, moved between threads, gives another item at step {i}")));
                                    }
                                    i += 1;
                                }
                                pool.lock().unwrap().insert(0, (k, i, it));
                            }
                        }
                        bad
                    };
                    match sched {
                        Some(s) => s.lane(t, work),
                        None => work(),
                    }
                }));
            }
            // Meanwhile another forest changes.
            let (sched2, barrier) = (sched.clone(), &barrier);
            let twin = &twin;
            hs.push(s.spawn(move || {
                let mut t = editor;
                barrier.wait();
                let mut work = || {
                    ops.iter().rev().take(12).for_each(|o| t.step(o));
                    (t.hs != *twin).then(|| "a forest that is edited while another one is read shows something else than alone".to_string())
                };
                match sched2 {
                    Some(s) => s.lane(n, work),
                    None => work(),
                }
            }));
            hs.into_iter().map(|h| h.join().expect("a thread of the harness panicked")).collect()
        });
        if let Some(s) = &sched {
            let s = s.m.lock().unwrap();
            rec.class_n("switches between threads", s.moves);
            rec.class_n("schedules given up", s.free as u64);
        }
        if let Some(b) = bad.into_iter().flatten().next() {
            return fail(Cat::Differ, b);
        }
    }
    Ok(())
}

/// Every pair of edits on small forests, the first being interrupted by the second at every access.
pub fn enumerate_c22(thorough: bool, out: &mut dyn FnMut(Case) -> bool) {
    let kinds = [K_CREATE, K_INSERT, K_DETACH, K_DSINGLE, K_REMOVE, K_RMPANIC, K_CLONE, K_SET, K_TOUCH];
    let top = if thorough { 5 } else { 4 };
    let mut i = 0usize;
    for size in 1..=top {
        for fo in forests(size) {
            let base = build_ops(&fo, (i % 2) as u8);
            let mut es = all_edits(size, &kinds, false);
            es.push(op(K_FORK, 0, 0, 0, 0));
            es.push(op(K_CHAIN, 0, 13, 0, 4));
            es.push(op(K_NEST, 0, 13, 0, 0));
            let n = es.len();
            for (j, e) in es.iter().enumerate() {
                i += 1;
                let other = es[(j * 7 + i * 13) % n];
                // The same edit, and another one.
                let mut ops = base.clone();
                ops.push(*e);
                if (size < 4 || i % 3 == 0) && !out(Case { id: (i % 3) as u8, mode: 3, ops, prog: vec![0, 0, base.len() as u16] }) {
                    return;
                }
                let mut ops = base.clone();
                ops.extend([*e, other]);
                if (size < 4 || i % 3 == 1) && !out(Case { id: (i % 3) as u8, mode: 3, ops, prog: vec![0, 0, base.len() as u16] }) {
                    return;
                }
                // What one thread did, another undoes, and the first repeats.
                if size > 1 && size < 4 && matches!(e.k, K_INSERT | K_DETACH | K_DSINGLE | K_REMOVE) {
                    for (m, f) in es.iter().enumerate() {
                        if size == 3 && (i + m) % 3 != 0 && f.k != K_INSERT || matches!(f.k, K_SET | K_TOUCH | K_RMPANIC) {
                            continue;
                        }
                        for between in [op(K_DETACH, e.a, 0, 0, 0), op(K_DETACH, f.a, 0, 0, 0)] {
                            let mut ops = base.clone();
                            ops.extend([*e, between, *f, *e]);
                            let prog = vec![0, 1, 0, base.len() as u16, 1, 0];
                            if !out(Case { id: (i % 3) as u8, mode: 0, ops, prog }) {
                                return;
                            }
                        }
                    }
                }
                // Readers.
                let mut ops = base.clone();
                ops.push(*e);
                let prog = vec![i as u16, 1, 0, (i * 5) as u16, 3, (j * 11) as u16, 40, 17];
                if i % 5 == 2 && !out(Case { id: (i % 3) as u8, mode: 4, ops, prog }) {
                    return;
                }
                let mut ops = base.clone();
                ops.extend([*e, other, *e]);
                if i % 5 == 3 && !out(Case { id: (i % 3) as u8, mode: 0, ops, prog: vec![i as u16, j as u16, (i % 3) as u16, 1, 0, 9, 7] }) {
                    return;
                }
            }
        }
    }
}

pub fn c22_any(case: &Case, rec: &mut Rec) -> Res {
    with_id!(case.id, c22(case, rec))
}
