//! Another forest used by the callbacks (`Clone`, `Drop`, `Display`, `Debug`, hooks, mappings) that
//! treena calls while it works on the forest under test, all on one thread. What happens to the
//! other forest must be what happens to it when it is alone.

use std::cell::Cell;
use std::fmt::Write as _;

use treena::dynamic::{AdoptAs, ChainTreeBuilder, DftEvent, Forest, InsertAs, NestTreeBuilder};

use crate::base::*;
use crate::engine::TestId;

const SCENARIOS: usize = 9;
/// Uses of the other forest in one case.
const FUEL: u32 = 40;

#[derive(Clone, Copy)]
struct Side {
    run: fn(usize) -> u64,
    want: [u64; SCENARIOS],
    every: u32,
    turn: u32,
    fuel: u32,
    busy: bool,
    used: u32,
    bad: Option<usize>,
}
thread_local! {
    static SIDE: Cell<Option<Side>> = const { Cell::new(None) };
}

/// Lets callbacks use another forest from now on, in every `every`-th of them.
pub fn arm<Id: TestId>(every: u32, turn: u32) {
    SIDE.with(|s| s.set(None));
    let run: fn(usize) -> u64 = scenario::<Id>;
    let mut want = [0; SCENARIOS];
    for (i, w) in want.iter_mut().enumerate() {
        budget(100_000);
        *w = run(i);
        budget(u64::MAX);
    }
    SIDE.with(|s| {
        s.set(Some(Side { run, want, every: every.max(1), turn, fuel: FUEL, busy: false, used: 0, bad: None }))
    });
}

/// Ends it, and tells how often the other forest was used and which scenario went wrong.
pub fn disarm() -> (u32, Option<usize>) {
    SIDE.with(|s| s.take()).map_or((0, None), |x| (x.used, x.bad))
}

/// Runs `f` with callbacks that leave other forests alone.
pub fn paused<R>(f: impl FnOnce() -> R) -> R {
    let old = SIDE.with(|s| s.take());
    let r = f();
    SIDE.with(|s| s.set(old));
    r
}

/// Called from within callbacks.
pub fn pulse() {
    let Ok(Some(mut x)) = SIDE.try_with(|s| s.get()) else { return };
    if x.busy || x.fuel == 0 || x.bad.is_some() || std::thread::panicking() {
        return;
    }
    x.turn += 1;
    if x.turn % x.every == 0 {
        let i = (x.turn / x.every) as usize % SCENARIOS;
        x.busy = true;
        SIDE.with(|s| s.set(Some(x)));
        let got = keep_message(|| (x.run)(i));
        x.busy = false;
        x.fuel -= 1;
        x.used += 1;
        if got != x.want[i] && got != 0 {
            x.bad = Some(i);
        }
    }
    SIDE.with(|s| s.set(Some(x)));
}

pub fn name(i: usize) -> &'static str {
    ["printing", "removal", "local copy", "edits", "removal with a panicking hook", "forest copy", "builders", "foreign copy",
        "traversal"][i]
}

/// Plain data with several fragments and lines.
#[derive(Clone)]
struct Text(u32);
impl std::fmt::Display for Text {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "side{}", self.0)?;
        if self.0 % 2 == 1 {
            f.write_str("\nline")?;
            f.write_str(" two")?;
        }
        Ok(())
    }
}
impl std::fmt::Debug for Text {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "D{}", self)
    }
}

/// A forest of two trees: 0(1(2, 3), 4, 5(6)) and 7(8).
fn made<Id: TestId>() -> (Forest<Id, Text>, Vec<Id>) {
    let mut f = Forest::<Id, Text>::new();
    let mut v = vec![f.create_root(Text(0))];
    for (i, p) in [(1, 0), (2, 1), (3, 1), (4, 0), (5, 0), (6, 5)] {
        let at: Id = v[p];
        v.push(f.create_insert(Text(i), InsertAs::LastChildOf(at)));
    }
    v.push(f.create_root(Text(7)));
    v.push(f.node_mut(v[7]).expect("side").create(Text(8), AdoptAs::FirstChild));
    (f, v)
}

fn see<Id: TestId>(f: &Forest<Id, Text>, v: &[Id], h: &mut Vec<u64>) {
    for x in v {
        match f.node(*x) {
            None => h.push(1),
            Some(n) => h.push(hash_of(&(
                n.data().0,
                n.parent_id(),
                n.prev_sibling_id(),
                n.next_sibling_id(),
                n.first_last_child_id(),
                n.children().count(),
            ))),
        }
    }
}

fn scenario<Id: TestId>(i: usize) -> u64 {
    let mut h: Vec<u64> = vec![];
    let r = guard(|| {
        let (mut f, mut v) = made::<Id>();
        match i {
            0 => {
                let mut s = String::new();
                let _ = write!(s, "{}{:?}", f.debug_print(v[0]), f.debug_print(v[7]));
                h.push(hash_of(&s));
            }
            1 => {
                let mut seen = vec![];
                f.remove_hooked_panic_safe(v[1], |d| seen.push(d.0));
                f.remove_hooked(v[5], |d| seen.push(d.0));
                f.remove(v[8]);
                h.push(hash_of(&seen));
            }
            2 => {
                let mut pairs = vec![];
                let c = f.clone_local_tree_with_id_mapping(v[0], |a, b| pairs.push((a, b)));
                h.push(hash_of(&pairs));
                v.push(c);
                let d = f.clone_local_tree(v[7]);
                v.push(d);
                h.push(hash_of(&f.depth_first_traverse(d).count()));
            }
            3 => {
                h.push(f.insert(v[7], InsertAs::PreviousSiblingOf(v[4])).is_ok() as u64);
                h.push(f.insert(v[0], InsertAs::FirstChildOf(v[8])).is_err() as u64);
                f.detach(v[5]);
                h.push(f.detach_single(v[1]).is_ok() as u64);
                h.push(f.detach_single(v[0]).is_err() as u64);
                f.data_mut(v[6]).expect("side").0 = 60;
            }
            4 => {
                let mut seen = vec![];
                let p = guard(|| {
                    f.remove_hooked_panic_safe(v[0], |d| {
                        seen.push(d.0);
                        if seen.len() == 3 {
                            panic!("{}", USER_PANIC);
                        }
                    })
                });
                h.push(p.is_err() as u64);
                h.push(hash_of(&seen));
                h.push(hash_of(&f.data(v[7]).map(|d| d.0)));
            }
            5 => {
                let g = f.clone();
                f.remove(v[1]);
                see(&g, &v, &mut h);
            }
            6 => {
                {
                    let mut c = ChainTreeBuilder::new(&mut f, Text(20));
                    c.child(Text(21)).sibling(Text(22)).child(Text(23)).parent().sibling(Text(24));
                    h.push(hash_of(&(c.root_id(), c.current_id(), c.try_parent().is_some())));
                    let r = c.root_id();
                    v.push(r);
                }
                let mut n = NestTreeBuilder::new(&mut f, Text(30));
                n.add_child(Text(31));
                n.create_tree(Text(32), |n| n.add_child(Text(33)));
                let r = n.root();
                drop(n);
                v.push(r);
                h.push(hash_of(&f.debug_print(r).to_string()));
            }
            7 => {
                let (mut g, w) = made::<Id>();
                g.remove(w[2]);
                let c = f.clone_foreign_tree(g.node(w[0]).expect("side"));
                v.push(c);
                let mut pairs = vec![];
                let d = f.clone_foreign_tree_with_id_mapping(g.node(w[5]).expect("side"), |a, b| pairs.push((a, b)));
                v.push(d);
                h.push(hash_of(&pairs));
                see(&g, &w, &mut h);
            }
            _ => {
                let t = f.depth_first_traverse(v[0]);
                h.push(hash_of(
                    &t.map(|e| match e {
                        DftEvent::Open(n) => (0, n.data().0),
                        DftEvent::Close(n) => (1, n.data().0),
                    })
                    .collect::<Vec<_>>(),
                ));
                h.push(hash_of(&f.breadth_first_traverse(v[0]).map(|(n, d)| (n.data().0, d)).collect::<Vec<_>>()));
                h.push(hash_of(
                    &f.allocating_breadth_first_traverse(v[0]).map(|(n, d)| (n.data().0, d)).collect::<Vec<_>>(),
                ));
                h.push(hash_of(&f.shallow_depth_first_traverse(v[0], Some(1)).count()));
                h.push(hash_of(&f.ancestors_or_self(v[6]).map(|n| n.data().0).collect::<Vec<_>>()));
            }
        }
        see(&f, &v, &mut h);
    });
    if let Err(p) = r {
        if p.class == PanicClass::OutOfSteps {
            return 0;
        }
        h.push(hash_of(&p.class));
        h.push(99);
    }
    hash_of(&h) | 1
}
