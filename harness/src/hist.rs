//! Properties of call histories, judged against the model.

use crate::base::*;
use crate::case::*;
use crate::engine::*;
use crate::model::*;
use crate::rec::Rec;
use crate::with_few;

pub struct Profile {
    pub id: &'static str,
    /// Steps with one of these tags belong to the property ...
    pub focus: u32,
    /// ... unless they have one of these.
    pub not: u32,
    /// Failures of any step with one of these kinds belong to the property.
    pub any: &'static [Cat],
    /// Failures of a focus step with one of these kinds do not.
    pub except: &'static [Cat],
    pub weights: &'static [(u8, u32)],
    pub nontrivial: fn(&[(usize, usize, u32)], u32) -> bool,
    pub children: bool,
    pub outside: bool,
    pub enum_kinds: &'static [u8],
}

/// Mostly everything.
const BASE: [(u8, u32); 21] = [
    (K_ROOT, 6), (K_CREATE, 22), (K_INSERT, 24), (K_DETACH, 5), (K_DSINGLE, 5), (K_REMOVE, 6), (K_RMPANIC, 2),
    (K_SET, 2), (K_CLONE, 4), (K_FOREIGN, 2), (K_FORK, 1), (K_NEWF, 1), (K_SWITCH, 2), (K_DROPF, 1), (K_CHAIN, 2),
    (K_NEST, 2), (K_MISUSE, 2), (K_GROW, 5), (K_PRUNE, 1), (K_CLONEPANIC, 1), (K_TOUCH, 1),
];

fn count(spans: &[(usize, usize, u32)], t: u32) -> usize {
    spans.iter().filter(|s| s.2 & t != 0).count()
}
fn pos(spans: &[(usize, usize, u32)], t: u32, not: u32) -> Option<usize> {
    spans.iter().position(|s| s.2 & t != 0 && s.2 & not == 0)
}
const EDIT: u32 = T_CREATE | T_INSERT | T_DETACH | T_DSINGLE | T_REMOVE | T_CLONE | T_BUILD;

pub static PROFILES: [Profile; 12] = [
    Profile {
        id: "C01",
        focus: 0, not: 0,
        any: &[Cat::Inconsistent, Cat::ChildList, Cat::PanicRead],
        except: &[],
        weights: &BASE,
        nontrivial: |s, _| count(s, EDIT) >= 5 && s.iter().any(|x| x.2 & (T_INSERT | T_DETACH | T_DSINGLE) != 0 && x.2 & T_REFUSED == 0 && x.2 & T_MULTI != 0),
        children: true, outside: false,
        enum_kinds: &[K_CREATE, K_INSERT, K_DETACH, K_DSINGLE, K_REMOVE, K_RMPANIC, K_CLONE],
    },
    Profile {
        id: "C02",
        focus: T_CREATE | T_INSERT, not: T_REFUSED | T_BUILD | T_MISUSE | T_OVERFLOW,
        any: &[], except: &[Cat::PanicMark, Cat::Ids],
        weights: &[(K_ROOT, 6), (K_CREATE, 22), (K_INSERT, 50), (K_DETACH, 5), (K_DSINGLE, 5), (K_REMOVE, 4), (K_RMPANIC, 1), (K_CLONE, 1), (K_GROW, 6), (K_CHAIN, 1)],
        nontrivial: |s, _| s.iter().any(|x| x.2 & T_INSERT != 0 && x.2 & T_REFUSED == 0 && x.2 & (T_MULTI | T_SAMEPARENT | T_NOOP) != 0),
        children: true, outside: false,
        enum_kinds: &[K_CREATE, K_INSERT],
    },
    Profile {
        id: "C03",
        focus: T_REFUSED, not: T_MISUSE | T_BUILD,
        any: &[], except: &[Cat::PanicMark],
        weights: &[(K_ROOT, 8), (K_CREATE, 25), (K_INSERT, 50), (K_DETACH, 5), (K_DSINGLE, 10), (K_REMOVE, 4), (K_RMPANIC, 1), (K_CLONE, 1), (K_GROW, 6)],
        nontrivial: |s, _| s.iter().any(|x| x.2 & T_REFUSED != 0),
        children: true, outside: false,
        enum_kinds: &[K_CREATE, K_INSERT, K_DSINGLE],
    },
    Profile {
        id: "C04",
        focus: T_DETACH | T_DSINGLE, not: T_REFUSED | T_BUILD,
        any: &[], except: &[Cat::PanicMark],
        weights: &[(K_ROOT, 5), (K_CREATE, 25), (K_INSERT, 25), (K_DETACH, 20), (K_DSINGLE, 20), (K_REMOVE, 4), (K_RMPANIC, 1), (K_CLONE, 1), (K_GROW, 6)],
        nontrivial: |s, _| s.iter().any(|x| x.2 & (T_DETACH | T_DSINGLE) != 0 && x.2 & T_REFUSED == 0 && x.2 & T_MULTI != 0),
        children: true, outside: false,
        enum_kinds: &[K_DETACH, K_DSINGLE],
    },
    Profile {
        id: "C05",
        focus: T_REMOVE, not: T_RMPANIC,
        any: &[], except: &[Cat::PanicMark],
        weights: &[(K_ROOT, 6), (K_CREATE, 25), (K_INSERT, 15), (K_DETACH, 4), (K_DSINGLE, 4), (K_REMOVE, 25), (K_RMPANIC, 1), (K_CLONE, 2), (K_GROW, 12), (K_PRUNE, 4), (K_SET, 2), (K_MISUSE, 1)],
        nontrivial: |s, _| s.iter().any(|x| x.2 & T_REMOVE != 0 && x.2 & T_MULTI != 0 && x.2 & T_RMPANIC == 0),
        children: true, outside: false,
        enum_kinds: &[K_REMOVE],
    },
    Profile {
        id: "C06",
        focus: T_RMPANIC, not: 0,
        any: &[], except: &[Cat::PanicMark],
        weights: &[(K_ROOT, 6), (K_CREATE, 25), (K_INSERT, 15), (K_DETACH, 4), (K_DSINGLE, 4), (K_REMOVE, 6), (K_RMPANIC, 20), (K_CLONE, 2), (K_GROW, 12), (K_TOUCH, 2), (K_SET, 2), (K_FORK, 1), (K_CHAIN, 1)],
        nontrivial: |s, _| {
            let k = s.iter().position(|x| x.2 & T_RMPANIC != 0 && x.2 & T_MULTI != 0);
            k.map_or(false, |k| k + 1 < s.len())
        },
        children: true, outside: false,
        enum_kinds: &[K_RMPANIC],
    },
    Profile {
        id: "C07",
        focus: T_MISUSE, not: 0,
        any: &[Cat::Zombie, Cat::Ids], except: &[Cat::PanicMark],
        weights: &[(K_ROOT, 8), (K_CREATE, 20), (K_INSERT, 8), (K_DETACH, 3), (K_DSINGLE, 3), (K_REMOVE, 14), (K_RMPANIC, 2), (K_CLONE, 4), (K_FORK, 1), (K_CHAIN, 2), (K_NEST, 2), (K_GROW, 6), (K_PRUNE, 4), (K_MISUSE, 30), (K_CLONEPANIC, 1), (K_FOREIGN, 1), (K_SWITCH, 1)],
        nontrivial: |s, _| {
            let removed = pos(s, T_REMOVE, 0);
            removed.map_or(false, |k| s[k + 1..].iter().any(|x| x.2 & T_MISUSE != 0)
                && s[k + 1..].iter().any(|x| x.2 & (T_CREATE | T_BUILD | T_CLONE) != 0))
        },
        children: false, outside: false,
        enum_kinds: &[K_REMOVE, K_RMPANIC],
    },
    Profile {
        id: "C08",
        focus: 0, not: 0,
        any: &[Cat::Data, Cat::Ledger], except: &[],
        weights: &[(K_ROOT, 6), (K_CREATE, 20), (K_INSERT, 16), (K_DETACH, 5), (K_DSINGLE, 5), (K_REMOVE, 10), (K_RMPANIC, 6), (K_SET, 14), (K_CLONE, 6), (K_FOREIGN, 3), (K_FORK, 3), (K_NEWF, 1), (K_SWITCH, 3), (K_DROPF, 2), (K_CHAIN, 3), (K_NEST, 3), (K_MISUSE, 2), (K_GROW, 5), (K_PRUNE, 2), (K_CLONEPANIC, 3)],
        nontrivial: |s, _| count(s, T_SET) > 0 && count(s, T_REMOVE) > 0 && count(s, T_INSERT | T_DETACH | T_DSINGLE) > 0,
        children: false, outside: false,
        enum_kinds: &[K_REMOVE, K_RMPANIC, K_CLONE, K_SET, K_INSERT, K_DETACH, K_DSINGLE],
    },
    Profile {
        id: "C13",
        focus: T_CLONE, not: T_BUILD,
        any: &[Cat::Mapping], except: &[Cat::PanicMark],
        weights: &[(K_ROOT, 6), (K_CREATE, 20), (K_INSERT, 16), (K_DETACH, 4), (K_DSINGLE, 4), (K_REMOVE, 8), (K_RMPANIC, 1), (K_SET, 4), (K_CLONE, 22), (K_FOREIGN, 12), (K_FORK, 3), (K_NEWF, 4), (K_SWITCH, 5), (K_GROW, 8), (K_PRUNE, 1), (K_CLONEPANIC, 2)],
        nontrivial: |s, _| {
            let k = s.iter().position(|x| x.2 & T_CLONE != 0 && x.2 & T_MULTI != 0);
            k.map_or(false, |k| s[k + 1..].iter().any(|x| x.2 & (T_INSERT | T_DETACH | T_DSINGLE | T_REMOVE | T_SET | T_CREATE) != 0))
        },
        children: true, outside: false,
        enum_kinds: &[K_CLONE],
    },
    Profile {
        id: "C14",
        focus: T_FORK, not: 0,
        any: &[], except: &[Cat::PanicMark],
        weights: &[(K_ROOT, 14), (K_CREATE, 20), (K_INSERT, 20), (K_DETACH, 8), (K_DSINGLE, 8), (K_REMOVE, 8), (K_RMPANIC, 3), (K_SET, 4), (K_CLONE, 4), (K_FOREIGN, 4), (K_FORK, 10), (K_NEWF, 3), (K_SWITCH, 10), (K_DROPF, 2), (K_CHAIN, 2), (K_NEST, 2), (K_GROW, 6), (K_PRUNE, 2), (K_TOUCH, 2), (K_CLONEPANIC, 1)],
        nontrivial: |s, _| {
            let k = pos(s, T_FORK, 0);
            k.map_or(false, |k| count(&s[k + 1..], EDIT | T_SET) >= 2)
        },
        children: true, outside: true,
        enum_kinds: &[K_CREATE, K_INSERT, K_DETACH, K_DSINGLE, K_REMOVE, K_RMPANIC, K_CLONE, K_SET],
    },
    Profile {
        id: "C15",
        focus: T_BUILD, not: 0,
        any: &[Cat::Builder], except: &[Cat::PanicMark],
        weights: &[(K_ROOT, 4), (K_CREATE, 20), (K_INSERT, 10), (K_DETACH, 4), (K_DSINGLE, 4), (K_REMOVE, 8), (K_RMPANIC, 1), (K_SET, 2), (K_CHAIN, 30), (K_NEST, 25), (K_GROW, 2), (K_MISUSE, 4)],
        nontrivial: |s, _| s.iter().any(|x| x.2 & T_BUILD != 0 && x.1 >= 4),
        children: true, outside: false,
        enum_kinds: &[],
    },
    Profile {
        id: "C18",
        focus: 0, not: 0,
        any: &[Cat::PanicValid, Cat::PanicMark, Cat::PanicRead, Cat::OutcomePanic], except: &[],
        weights: &[(K_ROOT, 6), (K_CREATE, 20), (K_INSERT, 20), (K_DETACH, 5), (K_DSINGLE, 6), (K_REMOVE, 10), (K_RMPANIC, 5), (K_SET, 2), (K_CLONE, 5), (K_FOREIGN, 2), (K_FORK, 2), (K_NEWF, 1), (K_SWITCH, 2), (K_DROPF, 1), (K_CHAIN, 5), (K_NEST, 2), (K_MISUSE, 24), (K_GROW, 5), (K_PRUNE, 2), (K_CLONEPANIC, 2), (K_TOUCH, 12)],
        nontrivial: |s, _| s.iter().any(|x| x.2 & (T_MISUSE | T_OVERFLOW | T_REFUSED) != 0) && s.iter().any(|x| x.2 & T_TOUCH != 0),
        children: true, outside: false,
        enum_kinds: &[K_TOUCH],
    },
];

pub fn profile(id: &str) -> Option<&'static Profile> {
    PROFILES.iter().find(|p| p.id == id)
}

impl Profile {
    fn own(&self, f: &Fail) -> bool {
        if self.any.contains(&f.cat) {
            return true;
        }
        if self.outside && f.outside {
            return true;
        }
        if self.id == "C03"
            && f.tags & (T_INSERT | T_DETACH | T_DSINGLE | T_CREATE) != 0
            && f.tags & (T_OVERFLOW | T_BUILD | T_MISUSE) == 0
            && matches!(f.cat, Cat::Accept | Cat::Outcome | Cat::OutcomePanic | Cat::PanicValid | Cat::Hang)
        {
            return true;
        }
        f.tags & self.focus != 0 && f.tags & self.not == 0 && !self.except.contains(&f.cat)
    }
}

pub fn env_for(p: &Profile, rec: &Rec) -> Env {
    let mut env = Env::new();
    env.check_children = p.children;
    env.track_outside = p.outside;
    env.probe = p.id == "C06";
    if rec.want_trace {
        env.trace = Some(vec![]);
    }
    env
}

/// Runs a history, and releases everything at its end.
pub fn run_world<Id: TestId>(mut env: Env, ops: &[Op]) -> (World<Id>, Res) {
    ledger::reset();
    env.step = 0;
    let mut w = World::<Id>::new(env);
    let r = w.run(ops);
    (w, r)
}

pub fn finish<Id: TestId>(w: &mut World<Id>) -> Res {
    let slots = std::mem::take(&mut w.slots);
    if let Err(p) = guard(move || drop(slots)) {
        return fail(Cat::PanicValid, format!("dropping the forests panicked: {}", p.msg));
    }
    let n = ledger::nlive();
    if n != 0 {
        return fail(Cat::Ledger, format!("{n} values are alive after all forests were dropped"));
    }
    Ok(())
}

/// A forest with the same nodes and links, made by the plainest calls.
pub fn fresh<Id: TestId>(m: &Model) -> Option<Slot<Id>> {
    let mut s: Slot<Id> = Slot { f: Default::default(), c: Ctx::default() };
    guard(|| -> Res {
        for n in &m.nodes {
            let p = P::new(n.val);
            let serial = p.serial;
            let id = s.f.create_root(p);
            s.c.register(id, serial, n.val)?;
        }
        for (i, n) in m.nodes.iter().enumerate() {
            if !n.alive {
                s.f.remove(s.c.ids[i]);
                s.c.m.remove(i);
            }
        }
        for r in m.roots() {
            for i in m.preorder(r) {
                for ch in m.children(i) {
                    if s.f.insert(s.c.ids[*ch], InsertAs::LastChildOf(s.c.ids[i])).is_err() {
                        return fail(Cat::Accept, "fresh");
                    }
                    s.c.m.insert(*ch, i, Where::LastChild);
                }
            }
        }
        verify(&s.f, &s.c, true, None)
    })
    .ok()?
    .ok()?;
    Some(s)
}

use treena::dynamic::InsertAs;

/// A failure in a step that is not of the property may still be the late effect of an earlier
/// step that is: when the same call works on a forest that looks the same but was made plainly,
/// and the history works without the steps of the property.
fn late<Id: TestId>(p: &Profile, case: &Case, w: &World<Id>, f: &Fail) -> bool {
    if p.focus == 0 {
        return false;
    }
    let suspects: Vec<(usize, usize, u32)> =
        w.spans.iter().copied().filter(|s| s.2 & p.focus != 0 && s.2 & p.not == 0).collect();
    if suspects.is_empty() {
        return false;
    }
    let at = w.spans.last().map_or(0, |s| s.0 + s.1);
    let _ = f;
    // The state before the failing step, remade.
    let (mut w2, r) = run_world::<Id>(env_for(p, &Rec::default()), &case.ops[..at]);
    if r.is_err() {
        return false;
    }
    let models: Vec<Model> = std::mem::take(&mut w2.slots).into_iter().map(|s| s.c.m).collect();
    ledger::reset();
    for m in &models {
        match fresh::<Id>(m) {
            Some(x) => w2.slots.push(x),
            None => return false,
        }
    }
    // The ledger counts only what the remade forests hold.
    let rest = case.ops[at..].to_vec();
    if w2.verify_ledger().is_err() || w2.run(&rest).is_err() {
        return false;
    }
    // Without the steps of the property.
    let mut ops = vec![];
    let mut i = 0;
    while i < case.ops.len() {
        if let Some(s) = suspects.iter().find(|s| s.0 == i) {
            i += s.1;
        } else {
            ops.push(case.ops[i]);
            i += 1;
        }
    }
    run_world::<Id>(env_for(p, &Rec::default()), &ops).1.is_ok()
}

/// Whether histories may be tried in another process (see `main.rs`).
pub static APART: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

/// The operations that the forest in use at the end of `ops` has seen, as a history of one forest.
/// `None` when that forest has received nodes of another, or when there is no other.
pub fn projected(ops: &[Op], spans: &[(usize, usize, u32)], last: usize) -> Option<Vec<Op>> {
    let mut slots: Vec<Option<Vec<Op>>> = vec![Some(vec![])];
    let mut cur = 0;
    let mut several = false;
    let rest = if matches!(ops[last].k % NKINDS as u8, K_CHAIN | K_NEST) { ops.len() - last } else { 1 };
    let steps = spans.iter().map(|s| (s.0, s.1)).chain(std::iter::once((last, rest)));
    for (at, n) in steps {
        let o = ops[at];
        match o.k % NKINDS as u8 {
            K_NEWF if slots.len() < 4 => {
                slots.push(Some(vec![]));
                cur = slots.len() - 1;
                several = true;
            }
            K_NEWF => {}
            K_SWITCH => cur = o.a as usize % slots.len(),
            K_DROPF => {
                if slots.len() > 1 {
                    slots.remove(o.a as usize % slots.len());
                    cur = cur.min(slots.len() - 1);
                }
            }
            K_FORK => {
                if o.c % 8 >= 5 {
                    // Panics in between, or goes into a forest that exists.
                    return None;
                }
                if slots.len() < 4 {
                    slots.push(slots[cur].clone());
                    if o.d % 2 == 1 {
                        cur = slots.len() - 1;
                    }
                    several = true;
                }
            }
            K_FOREIGN => {
                if slots.len() > 1 {
                    slots[cur] = None;
                }
            }
            _ => {
                if let Some(v) = &mut slots[cur] {
                    v.extend_from_slice(&ops[at..at + n]);
                }
            }
        }
    }
    if several { slots[cur].clone() } else { None }
}

/// Whether a failure vanishes when the forest lives alone, in a process of its own.
fn interference<Id: TestId>(case: &Case, w: &World<Id>, f: &Fail) -> bool {
    use std::sync::atomic::Ordering::Relaxed;
    if APART.load(Relaxed) == 0 || f.step >= case.ops.len() {
        return false;
    }
    let Some(ops) = projected(&case.ops, &w.spans, f.step) else { return false };
    APART.fetch_sub(1, Relaxed);
    let alone = Case { id: case.id, mode: 0, ops, prog: vec![] };
    let path = std::env::temp_dir().join(format!("tvh-alone-{}.case", std::process::id()));
    if std::fs::write(&path, alone.text()).is_err() {
        return false;
    }
    let ok = std::env::current_exe()
        .and_then(|e| {
            std::process::Command::new(e)
                .arg("alone")
                .arg(&path)
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
        })
        .map_or(false, |s| s.code() == Some(0));
    let _ = std::fs::remove_file(&path);
    ok
}

/// Runs a history of one forest; true when nothing fails.
pub fn alone(case: &Case) -> bool {
    fn go<Id: TestId>(case: &Case) -> bool {
        run_world::<Id>(Env::new(), &case.ops).1.is_ok()
    }
    with_few!(case.id, go(case))
}

pub fn tally<Id: TestId>(rec: &mut Rec, w: &World<Id>, case: &Case) {
    if rec.frozen {
        return;
    }
    rec.evaluations += 1;
    rec.ops += w.spans.len() as u64;
    rec.calls += w.env.calls;
    for (i, n) in TAG_NAMES.iter().enumerate() {
        if w.env.tags_seen >> i & 1 != 0 {
            rec.class(n);
        }
    }
    let n = w.slots.iter().map(|s| s.c.ids.len()).max().unwrap_or(0);
    rec.class(match n {
        0..=7 => "nodes: up to 7",
        8..=31 => "nodes: 8 to 31",
        32..=127 => "nodes: 32 to 127",
        128..=255 => "nodes: 128 to 255",
        _ => "nodes: over 255",
    });
    rec.class(id_name(case.id));
}

/// What is printed does not depend on whether `Display` uses another forest meanwhile.
fn nested_prints<Id: TestId>(w: &World<Id>) -> Res {
    for s in &w.slots {
        for r in s.c.m.roots().into_iter().take(4) {
            let print = || {
                budget(step_limit(s.c.ids.len()));
                let id = s.c.ids[r];
                let t = guard(|| format!("{}\n{:?}\n{:#?}", s.f.debug_print(id), s.f.debug_print(id), s.f.debug_print(id)));
                budget(u64::MAX);
                t.map_err(|p| p.class)
            };
            let a = print();
            let b = crate::side::paused(print);
            if a != b {
                let why = format!("printing n{r} gives {a:?} when `Display` prints another tree meanwhile, and else {b:?}");
                return fail(Cat::Differ, why);
            }
        }
    }
    Ok(())
}

fn run_history<Id: TestId>(p: &Profile, case: &Case, rec: &mut Rec) -> Res {
    let nested = p.id == "C14" && case.mode == 1;
    if nested {
        let k = case.prog.first().copied().unwrap_or(0) as u32;
        crate::side::arm::<Id>(1 + k % 5, k / 5 % 64);
    }
    let (mut w, mut r) = run_world::<Id>(env_for(p, rec), &case.ops);
    tally(rec, &w, case);
    if !rec.frozen && (p.nontrivial)(&w.spans, w.env.tags_seen) {
        rec.nontrivial(hash_of(&(case.id, &case.ops)));
    }
    rec.trace = w.env.trace.take().unwrap_or_default();
    if nested && rec.want_trace {
        rec.trace.insert(0, "callbacks use another forest on the same thread".into());
    }
    if r.is_ok() && p.id == "C08" {
        r = crate::extra::data_paths(&mut w, &case.prog);
    }
    if nested && r.is_ok() {
        r = nested_prints(&w);
    }
    if r.is_ok() {
        r = finish(&mut w);
    }
    if nested {
        let (used, bad) = crate::side::disarm();
        if !rec.frozen && used > 0 {
            rec.class("callbacks that use another forest");
        }
        if let Some(i) = bad {
            let why = format!("{} on another forest, within a callback, goes differently", crate::side::name(i));
            return fail(Cat::Differ, why);
        }
    }
    if r.is_ok() && p.id == "C08" && case.ops.first().map_or(true, |o| o.k != K_BIG) && (case.ops.len() < 12 || case.prog.first().map_or(true, |x| x % 4 == 0)) {
        r = crate::types::typed(&case.ops, hash_of(&case.ops), rec);
    }
    match r {
        Ok(()) => Ok(()),
        Err(f) => {
            // The other forest has changed this one?
            let inner = nested && f.cat == Cat::Differ || nested && run_world::<Id>(env_for(p, &Rec::default()), &case.ops).1.is_ok();
            if inner || p.own(&f) || late(p, case, &w, &f) || p.id == "C14" && interference(case, &w, &f) {
                Err(f)
            } else {
                rec.foreign(format!("{:?}", f.cat));
                Ok(())
            }
        }
    }
}

pub fn history(p: &Profile, case: &Case, rec: &mut Rec) -> Res {
    with_few!(case.id, run_history(p, case, rec))
}

/// All forests of up to `n` nodes, built in two ways, followed by each single edit, and on
/// forests of up to `two` nodes by each pair of edits.
pub fn enumerate(p: &Profile, thorough: bool, out: &mut dyn FnMut(Case) -> bool) {
    let ids = [0u8, 1, 0, 2];
    let t = thorough as usize;
    let mut i = 0usize;
    if p.id == "C14" {
        // Every call that runs code of the user, with another forest in each way in each place.
        for size in 1..=4 + t {
            for fo in forests(size) {
                let base = build_ops(&fo, 0);
                let mut last = all_edits(size, &[K_REMOVE, K_RMPANIC, K_CLONE], false);
                last.push(op(K_FORK, 0, 0, 0, 0));
                last.push(op(K_SET, 0, 0, 0, 0));
                for e in last {
                    for turn in 0..9u16 {
                        for every in 0..if turn == 0 { 4 } else { 1 } {
                            let mut ops = base.clone();
                            ops.push(e);
                            let id = ids[(size + turn as usize) % 4];
                            if !out(Case { id, mode: 1, ops, prog: vec![turn * 5 + every, 77] }) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    let mut emit = |ops: Vec<Op>| {
        i += 1;
        out(Case { id: ids[i % 4], mode: 0, ops, prog: vec![i as u16, 77] })
    };
    if p.id == "C15" {
        // All programs of a chain builder and of a nest builder.
        for len in 1..=6 + t * 2 {
            for code in 0..4usize.pow(len as u32) {
                let mut ops = vec![op(K_ROOT, 0, 16, 0, 0), op(K_CREATE, 0, 32, 1, 0), op(K_CHAIN, len as u16 - 1, 48, 0, 0)];
                let mut c = code;
                for k in 0..len {
                    ops.push(op(0, 64 + 16 * k as u16, [0, 2, 4, 6][c % 4], 0, 0));
                    c /= 4;
                }
                if !emit(ops) {
                    return;
                }
            }
        }
        for len in 1..=8 + t * 2 {
            for code in 0..3usize.pow(len as u32) {
                let mut ops = vec![op(K_ROOT, 0, 16, 0, 0), op(K_CREATE, 0, 32, 1, 0), op(K_NEST, len as u16 - 1, 48, 0, 0)];
                let mut c = code;
                for k in 0..len {
                    ops.push(op(0, 64 + 16 * k as u16, [0, 2, 4][c % 3], 0, 0));
                    c /= 3;
                }
                if len <= 6 {
                    let mut ops = ops.clone();
                    ops[2].a += 1;
                    ops.push(op(0, 0, 4, 13, 0));
                    if !emit(ops) {
                        return;
                    }
                }
                if !emit(ops) {
                    return;
                }
            }
        }
        return;
    }
    if p.id == "C14" {
        // The same edit on nodes of the same numbers in two forests, one right after the other.
        for size in 1..=3 + t {
            let fos = forests(size);
            for a in &fos {
                for (b, perm) in fos.iter().flat_map(|b| perms(size).into_iter().map(move |q| (b, q))) {
                    let mut base = build_ops(a, 0);
                    base.push(op(K_NEWF, 0, 0, 0, 0));
                    base.extend(build_perm(b, &perm));
                    for e in all_edits(size, p.enum_kinds, size < 3) {
                        let mut ops = base.clone();
                        ops.extend([e, op(K_SWITCH, 0, 0, 0, 0), e]);
                        if !emit(ops) {
                            return;
                        }
                        let mut ops = base.clone();
                        ops.extend([op(K_SWITCH, 0, 0, 0, 0), e, op(K_SWITCH, 1, 0, 0, 0), e]);
                        if !emit(ops) {
                            return;
                        }
                    }
                }
            }
        }
    }
    let light = p.enum_kinds == [K_TOUCH];
    let n = if light { 7 } else if p.enum_kinds.contains(&K_INSERT) { 5 + t } else { 6 + t };
    let two = match p.id {
        "C07" | "C18" => 3 + t,
        "C02" | "C03" => 2 + t,
        "C01" => 2 + t,
        _ => 4,
    };
    for size in 1..=n {
        let misuses: Vec<Op> = (0..N_MISUSE)
            .flat_map(|w| (0..4 * (size as u16).min(3)).map(move |c| op(K_MISUSE, 2, w, c, 0)))
            .collect();
        let seconds: Vec<Op> = if p.id == "C07" || p.id == "C18" {
            misuses
        } else {
            all_edits(size, &[K_CREATE, K_INSERT, K_DETACH, K_DSINGLE, K_REMOVE], false)
        };
        for fo in forests(size) {
            for variant in 0..2 {
                let mut base = build_ops(&fo, variant);
                if p.id == "C14" {
                    base.push(op(K_FORK, 0, 0, 0, variant as u16));
                }
                let mut firsts = all_edits(size, p.enum_kinds, true);
                if p.id == "C18" {
                    firsts.extend(all_edits(size, &[K_TOUCH], true));
                    if size <= two {
                        firsts.extend(all_edits(size, &[K_REMOVE], false));
                    }
                }
                for e in firsts {
                    let mut ops = base.clone();
                    ops.push(e);
                    if size <= two && e.k != K_TOUCH {
                        for e2 in &seconds {
                            let mut ops = ops.clone();
                            ops.push(*e2);
                            if !emit(ops) {
                                return;
                            }
                        }
                    } else if !emit(ops) {
                        return;
                    }
                }
            }
        }
    }
    // Larger shapes of every size, edited at their ends and in the middle.
    let sizes = (6u16..=40).chain(62..=67).chain(126..=131).chain(254..=259);
    for n in sizes {
        for shape in 0..BIG_SHAPES.len() as u16 {
            if light && n % 4 != 0 {
                continue;
            }
            let mut base = vec![op(K_BIG, n, shape, n, 0)];
            if p.id == "C14" {
                base.push(op(K_FORK, 0, 0, 0, n % 2));
            }
            for e in some_edits(n, p.enum_kinds) {
                let mut ops = base.clone();
                ops.push(e);
                if !emit(ops) {
                    return;
                }
            }
        }
    }
}

/// Edits of `n` nodes at the first, the last, and the middle ones.
fn some_edits(n: u16, kinds: &[u8]) -> Vec<Op> {
    let mut at = vec![0, 1, n / 2, n - 2, n - 1];
    at.dedup();
    let mut v = vec![];
    for k in kinds.iter().copied() {
        for (i, a) in at.iter().copied().enumerate() {
            let i = i as u16;
            match k {
                K_CREATE => (0..4).for_each(|w| v.push(op(k, a, 3, w, (i + w) % 2))),
                K_INSERT => {
                    for b in &at {
                        (0..4).for_each(|w| v.push(op(k, a, b * 16, w, (i + b + w) % 3)));
                    }
                }
                K_REMOVE => (0..3).for_each(|c| v.push(op(k, a, 0, c, (i + c) % 2))),
                K_RMPANIC => at.iter().for_each(|b| v.push(op(k, a, *b, 0, i % 2))),
                K_CLONE => (0..2).for_each(|d| v.push(op(k, a, 0, 0, d))),
                K_TOUCH => v.push(op(k, a, a, 0, 0)),
                _ => (0..2).for_each(|d| v.push(op(k, a, 77, d, d))),
            }
        }
    }
    v
}
