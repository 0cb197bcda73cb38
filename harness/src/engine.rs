//! Runs call histories against treena and against the model.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash};

use treena::dynamic::{
    AdoptAs, ChainTreeBuilder, DftEvent, Forest, InsertAs, NestTreeBuilder, Node, NodeId, StructureError,
};

use crate::base::*;
use crate::exer;
use crate::model::*;

pub type P = Payload;

// ---------------------------------------------------------------- operations

/// One raw operation. Its fields are resolved against the state when it runs.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Op {
    pub k: u8,
    pub a: u16,
    pub b: u16,
    pub c: u16,
    pub d: u16,
}
pub const fn op(k: u8, a: u16, b: u16, c: u16, d: u16) -> Op {
    Op { k, a, b, c, d }
}

pub const K_ROOT: u8 = 0;
pub const K_CREATE: u8 = 1;
pub const K_INSERT: u8 = 2;
pub const K_DETACH: u8 = 3;
pub const K_DSINGLE: u8 = 4;
pub const K_REMOVE: u8 = 5;
pub const K_RMPANIC: u8 = 6;
pub const K_SET: u8 = 7;
pub const K_CLONE: u8 = 8;
pub const K_FOREIGN: u8 = 9;
pub const K_FORK: u8 = 10;
pub const K_NEWF: u8 = 11;
pub const K_SWITCH: u8 = 12;
pub const K_DROPF: u8 = 13;
pub const K_CHAIN: u8 = 14;
pub const K_NEST: u8 = 15;
pub const K_MISUSE: u8 = 16;
pub const K_GROW: u8 = 17;
pub const K_PRUNE: u8 = 18;
pub const K_CLONEPANIC: u8 = 19;
pub const K_TOUCH: u8 = 20;
/// A huge shape, made by the cheapest calls.
pub const K_BIG: u8 = 21;
pub const NKINDS: usize = 22;
pub const KIND_NAMES: [&str; NKINDS] = [
    "create_root", "create", "insert", "detach", "detach_single", "remove", "remove_panicking_hook", "set_data",
    "clone_local", "clone_foreign", "clone_forest", "new_forest", "switch_forest", "drop_forest", "chain_builder",
    "nest_builder", "misuse", "grow", "prune", "clone_panicking", "touch", "big",
];

// Tags of what happened in a step.
pub const T_CREATE: u32 = 1 << 0;
pub const T_INSERT: u32 = 1 << 1;
pub const T_REFUSED: u32 = 1 << 2;
pub const T_NOOP: u32 = 1 << 3;
pub const T_DETACH: u32 = 1 << 4;
pub const T_DSINGLE: u32 = 1 << 5;
pub const T_REMOVE: u32 = 1 << 6;
pub const T_RMPANIC: u32 = 1 << 7;
pub const T_SET: u32 = 1 << 8;
pub const T_CLONE: u32 = 1 << 9;
pub const T_FORK: u32 = 1 << 10;
pub const T_BUILD: u32 = 1 << 11;
pub const T_MISUSE: u32 = 1 << 12;
pub const T_OVERFLOW: u32 = 1 << 13;
pub const T_TOUCH: u32 = 1 << 14;
pub const T_SAMEPARENT: u32 = 1 << 15;
pub const T_MULTI: u32 = 1 << 16;
pub const T_DEEP: u32 = 1 << 17;
pub const T_HOOKED: u32 = 1 << 18;
pub const T_FOREIGN: u32 = 1 << 19;
pub const T_BIG: u32 = 1 << 20;
pub const T_DEADEXIST: u32 = 1 << 21;
pub const T_HUGE: u32 = 1 << 22;
pub const TAG_NAMES: [&str; 23] = [
    "create", "insert", "refused", "noop_position", "detach", "detach_single", "remove", "hook_panicked", "set_data",
    "subtree_copy", "forest_clone", "builder", "misuse", "id_overflow", "touch", "move_within_siblings",
    "subtree_of_several", "depth_over_8", "hooked", "foreign_copy", "over_256_nodes", "after_a_removal",
    "over_4096_nodes",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cat {
    /// Link answers contradict each other.
    Inconsistent,
    /// children() contradicts the links.
    ChildList,
    /// Links differ from the model.
    Links,
    /// Reading links panicked.
    PanicRead,
    /// A removed ID resolves.
    Zombie,
    /// A live ID does not resolve.
    Missing,
    /// An ID was issued twice.
    Ids,
    /// Data differ from the model.
    Data,
    /// Values are lost, kept behind, or dropped early.
    Ledger,
    /// A call that must be refused was accepted, or refused in another way.
    Outcome,
    /// A call that must return an error panicked instead.
    OutcomePanic,
    /// A call that must be accepted was refused with an error.
    Accept,
    /// A valid call panicked.
    PanicValid,
    /// A panic is not marked as a violated precondition.
    PanicMark,
    /// Hook calls differ from the postorder.
    Hook,
    /// ID mapping or the shape of a copy is wrong.
    Mapping,
    /// root_id/current_id or so of a builder is wrong.
    Builder,
    /// The two routes differ.
    Route,
    /// A call with bounded work does not end.
    Hang,
    /// Traversal differs.
    Trav,
    /// Debug print differs.
    Print,
    /// ID types or builds differ.
    Differ,
    /// Cost bound exceeded.
    Cost,
    /// Memory is lost or grows.
    Memory,
    /// The process died.
    Crash,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub cat: Cat,
    pub msg: String,
    pub step: usize,
    pub tags: u32,
    /// Something that the operation did not name was affected.
    pub outside: bool,
}
pub fn fail<R>(cat: Cat, msg: impl Into<String>) -> Result<R, Fail> {
    Err(Fail { cat, msg: msg.into(), step: 0, tags: 0, outside: false })
}
pub type Res = Result<(), Fail>;

// ---------------------------------------------------------------------- IDs

pub trait TestId: NodeId + Ord + 'static {
    const NAME: &'static str;
    /// Number of nodes that the type can represent, when that can be reached.
    const CAP: usize;
}

pub type IdMap<Id> = HashMap<Id, usize, BuildHasherDefault<Fnv>>;

#[derive(Clone)]
pub struct Ctx<Id> {
    pub m: Model,
    pub ids: Vec<Id>,
    pub index: IdMap<Id>,
    /// Upper bound of nodes that were issued but never returned (refused creations).
    pub leaks: usize,
    pub leaked: Vec<u32>,
}
impl<Id> Default for Ctx<Id> {
    fn default() -> Self {
        Ctx { m: Model::default(), ids: vec![], index: Default::default(), leaks: 0, leaked: vec![] }
    }
}

pub struct Slot<Id: NodeId> {
    pub f: Forest<Id, P>,
    pub c: Ctx<Id>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Room {
    Yes,
    No,
    Maybe,
}

impl<Id: TestId> Ctx<Id> {
    pub fn room(&self, n: usize) -> Room {
        let lo = self.ids.len() + n;
        if lo > Id::CAP {
            Room::No
        } else if lo + self.leaks > Id::CAP {
            Room::Maybe
        } else {
            Room::Yes
        }
    }
    pub fn register(&mut self, id: Id, serial: u32, val: u32) -> Result<usize, Fail> {
        let i = self.m.add_root(serial, val);
        self.ids.push(id);
        if let Some(old) = self.index.insert(id, i) {
            return fail(Cat::Ids, format!("the ID of the new node n{i} is the ID of n{old}: {id:?}"));
        }
        Ok(i)
    }
    fn ix(&self, id: Id) -> usize {
        self.index.get(&id).copied().unwrap_or(usize::MAX)
    }
}

/// What a forest answers about one ID.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Obs {
    pub alive: bool,
    pub has_data: bool,
    pub parent: Option<usize>,
    pub prev: Option<usize>,
    pub next: Option<usize>,
    pub first: Option<usize>,
    pub last: Option<usize>,
    pub first_last: Option<(usize, usize)>,
    pub serial: u32,
    pub val: u32,
    pub serial2: u32,
    pub own: usize,
}

pub fn observe<Id: TestId>(f: &Forest<Id, P>, c: &Ctx<Id>) -> Vec<Obs> {
    c.ids
        .iter()
        .map(|id| {
            let mut o = Obs::default();
            if let Some(n) = f.node(*id) {
                o.alive = true;
                o.own = c.ix(n.id());
                o.parent = n.parent_id().map(|i| c.ix(i));
                o.prev = n.prev_sibling_id().map(|i| c.ix(i));
                o.next = n.next_sibling_id().map(|i| c.ix(i));
                o.first = n.first_child_id().map(|i| c.ix(i));
                o.last = n.last_child_id().map(|i| c.ix(i));
                o.first_last = n.first_last_child_id().map(|(a, b)| (c.ix(a), c.ix(b)));
                if f.data(*id).is_some() {
                    o.serial = n.data().serial;
                    o.val = n.data().val;
                }
            }
            if let Some(d) = f.data(*id) {
                o.has_data = true;
                o.serial2 = d.serial;
            }
            o
        })
        .collect()
}

/// Checks that the answers describe some ordered forest. No model involved.
pub fn consistent(obs: &[Obs]) -> Result<(), String> {
    let n = obs.len();
    let nd = |i: usize, who: usize, what: &str| -> Result<&Obs, String> {
        if i >= n {
            return Err(format!("{what} of n{who} is an ID that was never issued"));
        }
        if !obs[i].alive {
            return Err(format!("{what} of n{who} is n{i}, which is not alive"));
        }
        Ok(&obs[i])
    };
    let mut visited = vec![0u32; n];
    let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
    let alive = obs.iter().filter(|o| o.alive).count();
    for (i, o) in obs.iter().enumerate() {
        if !o.alive {
            continue;
        }
        if o.first_last != o.first.zip(o.last) || o.first.is_some() != o.last.is_some() {
            return Err(format!("n{i}: first child {:?}, last child {:?}, both {:?}", o.first, o.last, o.first_last));
        }
        match o.parent {
            Some(p) => {
                nd(p, i, "parent")?;
            }
            None => {
                if o.prev.is_some() || o.next.is_some() {
                    return Err(format!("root n{i} has siblings: prev {:?}, next {:?}", o.prev, o.next));
                }
            }
        }
        if let Some(x) = o.prev {
            if nd(x, i, "previous sibling")?.next != Some(i) {
                return Err(format!("prev of n{i} is n{x}, but next of n{x} is {:?}", obs[x].next));
            }
        }
        if let Some(x) = o.next {
            if nd(x, i, "next sibling")?.prev != Some(i) {
                return Err(format!("next of n{i} is n{x}, but prev of n{x} is {:?}", obs[x].prev));
            }
        }
        let mut cur = o.first;
        let mut prev = None;
        while let Some(x) = cur {
            let xo = nd(x, i, "a child")?;
            if xo.parent != Some(i) {
                return Err(format!("n{x} is listed as a child of n{i}, but its parent is {:?}", xo.parent));
            }
            if xo.prev != prev {
                return Err(format!("child n{x} of n{i}: prev is {:?} instead of {:?}", xo.prev, prev));
            }
            visited[x] += 1;
            if visited[x] > 1 {
                return Err(format!("n{x} occurs more than once among children"));
            }
            kids[i].push(x);
            prev = cur;
            cur = xo.next;
        }
        if prev != o.last {
            return Err(format!("last child of n{i} is {:?}, but the list ends with {:?}", o.last, prev));
        }
    }
    let mut seen = 0;
    let mut st: Vec<usize> = vec![];
    for (i, o) in obs.iter().enumerate() {
        if o.alive {
            if o.parent.is_none() {
                st.push(i);
            } else if visited[i] != 1 {
                return Err(format!("n{i} is not among the children of its parent {:?}", o.parent));
            }
        }
    }
    while let Some(x) = st.pop() {
        seen += 1;
        st.extend(&kids[x]);
    }
    if seen != alive {
        return Err("some nodes are not below any root".to_string());
    }
    Ok(())
}

/// State of one run.
pub struct Env {
    pub tags_seen: u32,
    pub cur_tags: u32,
    pub step: usize,
    pub kinds: [u64; NKINDS],
    pub hash: Fnv,
    pub trace: Option<Vec<String>>,
    pub check_children: bool,
    pub max_nodes: usize,
    pub calls: u64,
    pub track_outside: bool,
    /// Enter everything that is observed into the hash.
    pub hash_obs: bool,
    /// Hash after each step.
    pub hashes: Vec<(usize, u64)>,
    /// Most IDs issued in one forest.
    pub peak: usize,
    /// Outcome of each call, when wanted.
    pub outs: Option<Vec<(u8, u8)>>,
    /// After a panicking hook, try what was removed at every entry point.
    pub probe: bool,
}
impl Env {
    pub fn new() -> Self {
        Env {
            tags_seen: 0,
            cur_tags: 0,
            step: 0,
            kinds: [0; NKINDS],
            hash: Fnv::default(),
            trace: None,
            check_children: false,
            max_nodes: 3000,
            calls: 0,
            track_outside: false,
            hash_obs: false,
            hashes: vec![],
            peak: 0,
            outs: None,
            probe: false,
        }
    }
    pub fn tag(&mut self, t: u32) {
        self.cur_tags |= t;
        self.tags_seen |= t;
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(s());
        }
    }
    pub fn h(&mut self, v: impl Hash) {
        v.hash(&mut self.hash);
    }
}
impl Default for Env {
    fn default() -> Self {
        Self::new()
    }
}

pub enum Out<R> {
    Ok(R),
    Err(SErr),
    Panic(Panicked),
}

pub fn serr(e: StructureError) -> SErr {
    match e {
        StructureError::AncestorDescendantLoop => SErr::Loop,
        StructureError::UnorderableSiblings => SErr::Unorderable,
        StructureError::SiblingsWithoutParent => SErr::NoParent,
    }
}

pub fn step_limit(n: usize) -> u64 {
    10_000 + 1000 * (n as u64 + 8) * (n as u64 + 8)
}

/// Runs a call with a step budget that depends on the number of nodes.
pub fn attempt<R>(env: &mut Env, n: usize, f: impl FnOnce() -> Result<R, StructureError>) -> Out<R> {
    env.calls += 1;
    budget(step_limit(n));
    let r = guard(f);
    budget(u64::MAX);
    let o = match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(serr(e)),
        Err(p) => Out::Panic(p),
    };
    let code = match &o {
        Out::Ok(_) => (1u8, 0u8),
        Out::Err(e) => (2, *e as u8),
        Out::Panic(p) => (3, p.class as u8),
    };
    env.h(code);
    if let Some(v) = &mut env.outs {
        v.push(code);
    }
    let s = match &o {
        Out::Ok(_) => "ok".to_string(),
        Out::Err(e) => format!("Err({e:?})"),
        Out::Panic(p) => format!("panic {:?}", p.msg),
    };
    env.note(|| format!("    -> {s}"));
    o
}

pub fn must_ok<R>(o: Out<R>, what: &str) -> Result<R, Fail> {
    match o {
        Out::Ok(v) => Ok(v),
        Out::Err(e) => fail(Cat::Accept, format!("{what}: valid, but refused with {e:?}")),
        Out::Panic(p) if p.class == PanicClass::OutOfSteps => fail(Cat::Hang, format!("{what}: does not end")),
        Out::Panic(p) => fail(Cat::PanicValid, format!("{what}: valid, but panicked: {}", p.msg)),
    }
}

/// The call must be refused by one of `errs`, or by a panic when `panics`.
pub fn must_refuse<R>(o: Out<R>, errs: &[SErr], panics: bool, what: &str) -> Res {
    match o {
        Out::Ok(_) => fail(Cat::Outcome, format!("{what}: must be refused, but was accepted")),
        Out::Err(e) if errs.contains(&e) => Ok(()),
        Out::Err(e) => fail(Cat::Outcome, format!("{what}: refused with {e:?} instead of {errs:?} (panic allowed: {panics})")),
        Out::Panic(p) if p.class == PanicClass::OutOfSteps => fail(Cat::Hang, format!("{what}: does not end")),
        Out::Panic(p) if p.class == PanicClass::Precondition => {
            if panics {
                Ok(())
            } else {
                fail(Cat::OutcomePanic, format!("{what}: panicked instead of returning {errs:?}: {}", p.msg))
            }
        }
        Out::Panic(p) => {
            if panics {
                fail(Cat::PanicMark, format!("{what}: the panic is not marked as a violated precondition: {}", p.msg))
            } else {
                fail(Cat::OutcomePanic, format!("{what}: panicked instead of returning {errs:?}: {}", p.msg))
            }
        }
    }
}

pub fn ins<Id>(w: Where, a: Id) -> InsertAs<Id> {
    match w {
        Where::FirstChild => InsertAs::FirstChildOf(a),
        Where::LastChild => InsertAs::LastChildOf(a),
        Where::Prev => InsertAs::PreviousSiblingOf(a),
        Where::Next => InsertAs::NextSiblingOf(a),
    }
}
pub fn adp(w: Where) -> AdoptAs {
    match w {
        Where::FirstChild => AdoptAs::FirstChild,
        Where::LastChild => AdoptAs::LastChild,
        Where::Prev => AdoptAs::PreviousSibling,
        Where::Next => AdoptAs::NextSibling,
    }
}

/// Compares a forest with its model. `before`: (root table, named roots) to find effects outside.
pub fn verify<Id: TestId>(
    f: &Forest<Id, P>,
    c: &Ctx<Id>,
    children: bool,
    before: Option<(&[usize], &[usize])>,
) -> Res {
    budget(step_limit(c.ids.len()));
    let r = guard(|| observe(f, c));
    budget(u64::MAX);
    let obs = match r {
        Ok(o) => o,
        Err(p) => return fail(Cat::PanicRead, format!("reading the links panicked: {}", p.msg)),
    };
    verify_obs(&obs, c, before)?;
    if children {
        verify_children(f, c)?;
    }
    Ok(())
}

pub fn verify_children<Id: TestId>(f: &Forest<Id, P>, c: &Ctx<Id>) -> Res {
    budget(step_limit(c.ids.len()));
    let r = guard(|| {
        for i in c.m.alive() {
            let want = c.m.children(i);
            let got: Vec<usize> = f.children(c.ids[i]).take(want.len() + 2).map(|n| c.ix(n.id())).collect();
            if got != want {
                return Err(format!("children() of n{i}: {got:?} instead of {want:?}"));
            }
        }
        Ok(())
    });
    budget(u64::MAX);
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => fail(Cat::ChildList, m),
        Err(p) => fail(Cat::ChildList, format!("children() panicked: {}", p.msg)),
    }
}

pub fn verify_obs<Id: TestId>(obs: &[Obs], c: &Ctx<Id>, before: Option<(&[usize], &[usize])>) -> Res {
    let mut first: Option<Fail> = None;
    let mut outside = false;
    let mut add = |i: usize, cat: Cat, msg: String| {
        if let Some((tab, named)) = before {
            if i < tab.len() && tab[i] != usize::MAX && !named.contains(&tab[i]) {
                outside = true;
            }
        }
        if first.is_none() {
            first = Some(Fail { cat, msg, step: 0, tags: 0, outside: false });
        }
    };
    for (i, (o, n)) in obs.iter().zip(&c.m.nodes).enumerate() {
        if o.alive != n.alive {
            let s = if n.alive { "is alive but does not resolve" } else { "was removed but still resolves" };
            add(i, if n.alive { Cat::Missing } else { Cat::Zombie }, format!("n{i} {s}"));
            continue;
        }
        if o.has_data != n.alive {
            add(i, if n.alive { Cat::Missing } else { Cat::Zombie }, format!("n{i}: alive is {}, but data() is some: {}", n.alive, o.has_data));
            continue;
        }
        if o.alive && o.own != i {
            add(i, Cat::Ids, format!("the node for the ID of n{i} says it is n{}", o.own as isize));
        }
        if o.alive && (o.serial != n.serial || o.serial2 != n.serial || o.val != n.val) {
            add(i, Cat::Data, format!(
                "n{i} holds value #{}/#{} ({}) instead of #{} ({})", o.serial, o.serial2, o.val, n.serial, n.val));
        }
    }
    if let Err(m) = consistent(obs) {
        let mut fl = Fail { cat: Cat::Inconsistent, msg: m, step: 0, tags: 0, outside };
        for (i, (o, n)) in obs.iter().zip(&c.m.nodes).enumerate() {
            if let Some((tab, named)) = before {
                if o.alive && n.alive && (o.parent != n.parent || o.first != n.children.first().copied()
                    || o.last != n.children.last().copied())
                    && i < tab.len() && tab[i] != usize::MAX && !named.contains(&tab[i]) {
                    fl.outside = true;
                }
            }
        }
        return Err(fl);
    }
    // Consistent, so that parents and child lists say everything.
    for (i, (o, n)) in obs.iter().zip(&c.m.nodes).enumerate() {
        if !(o.alive && n.alive) {
            continue;
        }
        if o.parent != n.parent {
            add(i, Cat::Links, format!("parent of n{i} is {:?} instead of {:?}", o.parent, n.parent));
        }
        let mut got = vec![];
        let mut cur = o.first;
        while let Some(x) = cur {
            got.push(x);
            cur = obs[x].next;
        }
        if got != n.children {
            add(i, Cat::Links, format!("children of n{i} are {got:?} instead of {:?}", n.children));
        }
    }
    match first {
        Some(mut f) => {
            f.outside = outside;
            Err(f)
        }
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ resolving

pub fn pick(v: &[usize], raw: u16) -> Option<usize> {
    if v.is_empty() {
        None
    } else {
        Some(v[raw as usize % v.len()])
    }
}

/// Resolves the anchor of an edit on `n` by its relation to `n`.
pub fn relative(m: &Model, alive: &[usize], n: usize, raw: u16) -> usize {
    let rel = raw % 16;
    let i = raw / 16;
    let any = alive[i as usize % alive.len()];
    let r = match rel {
        1 => Some(n),
        2 => m.parent(n),
        3 => m.prev(n),
        4 => m.next(n),
        5 => m.children(n).first().copied(),
        6 => m.children(n).last().copied(),
        7 => pick(&m.ancestors(n), i),
        8 => {
            let d = m.preorder(n);
            pick(&d[1..], i)
        }
        9 => Some(m.root(n)),
        10 | 11 => {
            let v: Vec<usize> = m.siblings(n).into_iter().filter(|x| *x != n).collect();
            pick(&v, i)
        }
        12 => pick(&m.roots(), i),
        13 => {
            let r = m.root(n);
            let v: Vec<usize> = alive.iter().copied().filter(|x| m.root(*x) != r).collect();
            pick(&v, i)
        }
        14 => m.parent(n).and_then(|p| m.parent(p)),
        _ => None,
    };
    r.unwrap_or(any)
}

fn depth(m: &Model, n: usize) -> usize {
    m.ancestors(n).len()
}

// -------------------------------------------------------------------- engine

pub const N_MISUSE: u16 = 34;

/// Operations on one forest.
pub fn basic<Id: TestId>(f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, alien: Option<Id>, o: Op) -> Res {
    let alive = if matches!(o.k, K_ROOT | K_BIG) { vec![] } else { c.m.alive() };
    let nn = c.ids.len() + 2;
    match o.k {
        K_ROOT => {
            let val = o.b as u32;
            env.tag(T_CREATE);
            env.note(|| format!("n{} = create_root(v{val})", c.m.nodes.len()));
            let mark = ledger::next();
            let out = attempt(env, nn, || {
                let p = P::new(val);
                Ok(f.create_root(p))
            });
            created(c, env, out, mark, val, 1, "create_root").map(|_| ())
        }
        K_CREATE => {
            let Some(a) = pick(&alive, o.a) else {
                return basic(f, c, env, alien, op(K_ROOT, 0, o.b, 0, 0));
            };
            let w = WHERES[o.c as usize % 4];
            let val = o.b as u32;
            create_at(f, c, env, a, w, o.d % 2, val).map(|_| ())
        }
        K_INSERT => {
            let Some(n) = pick(&alive, o.a) else { return Ok(()) };
            let a = relative(&c.m, &alive, n, o.b);
            let w = WHERES[o.c as usize % 4];
            let route = o.d % 3;
            let errs = c.m.insert_errors(n, a, w);
            let rn = ["insert", "try_adopt", "adopt"][route as usize];
            env.tag(T_INSERT);
            if !errs.is_empty() {
                env.tag(T_REFUSED);
            } else {
                if c.m.is_noop(n, a, w) {
                    env.tag(T_NOOP);
                }
                let newp = if matches!(w, Where::FirstChild | Where::LastChild) { Some(a) } else { c.m.parent(a) };
                if c.m.parent(n).is_some() && c.m.parent(n) == newp {
                    env.tag(T_SAMEPARENT);
                }
                if !c.m.children(n).is_empty() {
                    env.tag(T_MULTI);
                }
            }
            env.note(|| format!("{rn} n{n} as {w:?} of n{a}"));
            let (ni, ai) = (c.ids[n], c.ids[a]);
            let out = attempt(env, nn, || match route {
                0 => f.insert(ni, ins(w, ai)),
                1 => f.node_mut(ai).expect("[harness] anchor").try_adopt(ni, adp(w)),
                _ => {
                    f.node_mut(ai).expect("[harness] anchor").adopt(ni, adp(w));
                    Ok(())
                }
            });
            let what = format!("{rn}(n{n}, {w:?} of n{a})");
            if errs.is_empty() {
                must_ok(out, &what)?;
                c.m.insert(n, a, w);
                Ok(())
            } else if route == 2 {
                must_refuse(out, &[], true, &what)
            } else {
                must_refuse(out, &errs, false, &what)
            }
        }
        K_DETACH => {
            let Some(n) = pick(&alive, o.a) else { return Ok(()) };
            env.tag(T_DETACH);
            if c.m.parent(n).is_some() && !c.m.children(n).is_empty() {
                env.tag(T_MULTI);
            }
            env.note(|| format!("detach n{n}"));
            let id = c.ids[n];
            let out = attempt(env, nn, || {
                if o.d % 2 == 0 {
                    f.detach(id)
                } else {
                    f.node_mut(id).expect("[harness] node").detach()
                }
                Ok(())
            });
            must_ok(out, &format!("detach(n{n})"))?;
            c.m.detach(n);
            Ok(())
        }
        K_DSINGLE => {
            let Some(n) = pick(&alive, o.a) else { return Ok(()) };
            env.tag(T_DSINGLE);
            let ok = c.m.detach_single_ok(n);
            if !ok {
                env.tag(T_REFUSED);
            } else if c.m.children(n).len() > 1 {
                env.tag(T_MULTI);
            }
            env.note(|| format!("detach_single n{n}"));
            let id = c.ids[n];
            let out = attempt(env, nn, || {
                if o.d % 2 == 0 {
                    f.detach_single(id)
                } else {
                    f.node_mut(id).expect("[harness] node").detach_single()
                }
            });
            let what = format!("detach_single(n{n})");
            if ok {
                must_ok(out, &what)?;
                c.m.detach_single(n);
                Ok(())
            } else {
                must_refuse(out, &[SErr::NoParent], false, &what)
            }
        }
        K_REMOVE => {
            let Some(n) = pick(&alive, o.a) else { return Ok(()) };
            remove_at(f, c, env, n, o.c % 3, o.d % 2)
        }
        K_RMPANIC => {
            let Some(n) = pick(&alive, o.a) else { return Ok(()) };
            let post = c.m.postorder(n);
            let k = 1 + o.b as usize % post.len();
            env.tag(T_RMPANIC | T_REMOVE | T_HOOKED);
            if post.len() > 1 {
                env.tag(T_MULTI);
            }
            env.note(|| format!("remove_hooked_panic_safe n{n}, hook panics on call {k} of {}", post.len()));
            let id = c.ids[n];
            let mut got: Vec<(u32, u32)> = vec![];
            env.calls += 1;
            budget(step_limit(nn));
            let r = guard(|| {
                let hook = |p: P| {
                    crate::side::pulse();
                    got.push((p.serial, p.val));
                    if got.len() == k {
                        panic!("{}", USER_PANIC);
                    }
                };
                if o.d % 2 == 0 {
                    f.remove_hooked_panic_safe(id, hook)
                } else {
                    f.node_mut(id).expect("[harness] node").remove_hooked_panic_safe(hook)
                }
            });
            budget(u64::MAX);
            env.h((got.len(), r.is_ok()));
            let what = format!("remove_hooked_panic_safe(n{n}) with a hook panicking on call {k}");
            match r {
                Ok(()) => return fail(Cat::Hook, format!("{what}: the panic does not reach the caller")),
                Err(p) if p.class == PanicClass::User => {}
                Err(p) if p.class == PanicClass::OutOfSteps => return fail(Cat::Hang, format!("{what}: does not end")),
                Err(p) => return fail(Cat::PanicValid, format!("{what}: panicked by itself: {}", p.msg)),
            }
            let want: Vec<(u32, u32)> = post[..k].iter().map(|i| (c.m.nodes[*i].serial, c.m.nodes[*i].val)).collect();
            if got != want {
                return fail(Cat::Hook, format!("{what}: the hook saw {got:?} instead of {want:?}"));
            }
            // The node itself is detached before anything else, which its own removal
            // would do as well. Which of both is seen for the survivors is left open.
            let mut kept = c.m.clone();
            for i in &post[..k] {
                kept.kill(*i);
            }
            if kept.nodes[n].alive {
                let mut det = kept.clone();
                det.detach(n);
                let detached = f.node(id).map_or(false, |x| x.parent_id().is_none());
                c.m = if detached { det } else { kept };
            } else {
                c.m = kept;
            }
            if env.probe {
                probe(f, c, env, &post[..k], o)?;
            }
            Ok(())
        }
        K_SET => {
            let Some(n) = pick(&alive, o.a) else { return Ok(()) };
            env.tag(T_SET);
            let val = o.b as u32;
            env.note(|| format!("set data of n{n} to v{val}"));
            let id = c.ids[n];
            let new = P::new(val);
            let ns = new.serial;
            let mut new = Some(new);
            let replace = o.c % 2 == 0;
            let out = attempt(env, nn, || {
                let mut nm;
                let r: &mut P = match o.d % 3 {
                    0 => f.data_mut(id).expect("[harness] node"),
                    1 => {
                        nm = f.node_mut(id).expect("[harness] node");
                        nm.data_mut()
                    }
                    _ => f.node_mut(id).expect("[harness] node").into_data_ref_mut(),
                };
                if replace {
                    *r = new.take().unwrap();
                } else {
                    r.val = val;
                }
                Ok(())
            });
            must_ok(out, &format!("data_mut(n{n})"))?;
            if replace {
                c.m.nodes[n].serial = ns;
            }
            c.m.nodes[n].val = val;
            Ok(())
        }
        K_CLONE | K_CLONEPANIC => {
            let Some(n) = pick(&alive, o.a) else { return Ok(()) };
            let src = c.m.preorder(n);
            if c.ids.len() + src.len() > env.max_nodes && c.room(src.len()) == Room::Yes || dear(&c.m, n, src.len()) {
                return Ok(());
            }
            env.tag(T_CLONE);
            if src.len() > 1 {
                env.tag(T_MULTI);
            }
            let mapping = o.d % 2 == 1;
            let fuel = (o.k == K_CLONEPANIC).then_some(o.b as u64 % src.len() as u64);
            // Panic in the mapping callback instead of `Clone`.
            let map_panic = if fuel.is_some() && mapping && o.c % 2 == 1 { fuel } else { None };
            env.note(|| format!("clone_local_tree n{n} (mapping: {mapping}, panics at: {fuel:?})"));
            let id = c.ids[n];
            let mark = ledger::next();
            ledger::take_clones();
            ledger::set_fuel(if map_panic.is_some() { None } else { fuel });
            let mut pairs: Vec<(Id, Id)> = vec![];
            let out = attempt(env, nn + src.len(), || {
                Ok(if mapping {
                    f.clone_local_tree_with_id_mapping(id, |a, b| {
                        if map_panic == Some(pairs.len() as u64) {
                            panic!("{}", USER_PANIC);
                        }
                        crate::side::pulse();
                        pairs.push((a, b))
                    })
                } else {
                    f.clone_local_tree(id)
                })
            });
            ledger::set_fuel(None);
            let srcm = c.m.clone();
            let src_ids: Vec<Id> = src.iter().map(|i| c.ids[*i]).collect();
            let what = format!("clone_local_tree(n{n})");
            copied(f, c, env, out, mark, &srcm, &src, &src_ids, if mapping { Some(pairs) } else { None },
                fuel.is_some(), &what)
        }
        K_MISUSE => misuse(f, c, env, alien, o, &alive),
        K_GROW => {
            let n = 1 + o.c as usize % 2048;
            if c.ids.len() + n > env.max_nodes && c.room(n) == Room::Yes {
                return Ok(());
            }
            if c.ids.len() + n > 256 {
                env.tag(T_BIG);
            }
            let mut last = match pick(&alive, o.a) {
                Some(x) => x,
                None => {
                    env.cur_tags |= T_CREATE;
                    if c.room(1) != Room::Yes {
                        return Ok(());
                    }
                    basic(f, c, env, alien, op(K_ROOT, 0, o.a, 0, 0))?;
                    c.ids.len() - 1
                }
            };
            let base = last;
            env.note(|| format!("grow {n} nodes at n{base}, shape {}", o.b % 6));
            let quiet = env.trace.take();
            let first_new = c.ids.len();
            let mut lcg = o.d as u64 | 0x1_0000;
            let mut res = Ok(());
            for i in 0..n {
                let k = c.ids.len() - first_new;
                lcg = lcg.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let r = (lcg >> 33) as usize;
                let (a, w) = match o.b % 6 {
                    0 => (last, Where::LastChild),
                    1 => (base, [Where::LastChild, Where::FirstChild][o.d as usize % 2]),
                    2 => {
                        // comb: spine with a leaf on every other step
                        if i % 2 == 0 { (last, Where::LastChild) } else {
                            (c.m.parent(last).unwrap_or(base), [Where::FirstChild, Where::LastChild][o.d as usize % 2])
                        }
                    }
                    3 => (if k == 0 { base } else { first_new + (k - 1) / 2 }, Where::LastChild),
                    4 => (if k == 0 { base } else { first_new + r % k }, WHERES[(r / 7) % 2]),
                    _ => {
                        let a = if k == 0 { base } else { first_new + r % k };
                        let w = WHERES[(r / 7) % 4];
                        if c.m.create_allowed(a, w) { (a, w) } else { (a, Where::LastChild) }
                    }
                };
                let was_spine = o.b % 6 != 2 || i % 2 == 0;
                match create_at(f, c, env, a, w, 0, (o.a as u32) + i as u32) {
                    Ok(Some(x)) => {
                        if was_spine {
                            last = x;
                        }
                    }
                    Ok(None) => break,
                    Err(e) => {
                        res = Err(e);
                        break;
                    }
                }
            }
            env.trace = quiet;
            if c.m.nalive() > 0 && c.m.nodes[last].alive && depth(&c.m, last) > 8 {
                env.tag(T_DEEP);
            }
            res
        }
        K_BIG => big(f, c, env, o),
        K_PRUNE => {
            let Some(n) = pick(&alive, o.a) else { return Ok(()) };
            let victims = match o.b % 3 {
                0 => c.m.roots(),
                1 => c.m.children(n).to_vec(),
                _ => vec![c.m.root(n)],
            };
            for v in victims {
                remove_at(f, c, env, v, o.c % 3, o.d % 2)?;
            }
            Ok(())
        }
        K_TOUCH => {
            let Some(n) = pick(&alive, o.a) else { return Ok(()) };
            if c.m.preorder(n).len() > 2500 {
                return Ok(());
            }
            env.tag(T_TOUCH);
            env.note(|| format!("call every read-only method on n{n}"));
            let id = c.ids[n];
            let lim = c.ids.len() * 3 + 10;
            let out = attempt(env, nn, || {
                touch(f, id, lim, o.b as usize);
                Ok(())
            });
            must_ok(out, &format!("reading at n{n}"))
        }
        _ => Ok(()),
    }
}

/// Whether copying the tree takes too long: each copied node costs as much as its depth.
fn dear(m: &Model, n: usize, size: usize) -> bool {
    size > 2500 && m.events(n).iter().filter(|e| e.0).map(|e| e.2 as u64).sum::<u64>() > 6_000_000
}

pub const BIG_SHAPES: [&str; 9] = [
    "chain", "star", "comb", "full binary tree", "broom", "star with a chain inside", "random tree", "caterpillar",
    "many small trees",
];

/// Makes a tree of about `n` nodes, deep ones from the bottom, so that each call is cheap.
/// At most 100 000 nodes, and as many as there are IDs.
pub fn big<Id: TestId>(f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, o: Op) -> Res {
    let n = (o.c as usize + 16 * (o.d as usize % 1024)).clamp(1, 100_000);
    let n = n.min(Id::CAP.saturating_sub(c.ids.len() + c.leaks));
    if n == 0 || c.ids.len() + n > 200_000 {
        return Ok(());
    }
    env.max_nodes = env.max_nodes.max(200_000);
    if n > 256 {
        env.tag(T_BIG);
    }
    if n > 4096 {
        env.tag(T_HUGE);
    }
    env.tag(T_CREATE | T_INSERT);
    let s = o.b as usize % BIG_SHAPES.len();
    env.note(|| format!("{} of {n} nodes", BIG_SHAPES[s]));
    let quiet = env.trace.take();
    let r = big_shape(f, c, env, s, n, o.a as u64);
    env.trace = quiet;
    r
}

fn big_shape<Id: TestId>(f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, s: usize, n: usize, seed: u64) -> Res {
    let first = c.ids.len();
    let root = |f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env| -> Result<usize, Fail> {
        basic(f, c, env, None, op(K_ROOT, 0, (c.ids.len() % 60_000) as u16, 0, 0))?;
        Ok(c.ids.len() - 1)
    };
    let over = |f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, top: usize| -> Result<usize, Fail> {
        let x = root(f, c, env)?;
        let (a, b) = (c.ids[top], c.ids[x]);
        let out = attempt(env, 64, || f.insert(a, InsertAs::LastChildOf(b)));
        must_ok(out, "insert below a new root")?;
        c.m.insert(top, x, Where::LastChild);
        Ok(x)
    };
    let leaf = |f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, a: usize, w: Where| -> Res {
        create_at(f, c, env, a, w, 0, (c.ids.len() % 60_000) as u32).map(|_| ())
    };
    let mut lcg = seed | 0x1_0000;
    match s {
        0 => {
            let mut top = root(f, c, env)?;
            for _ in 1..n {
                top = over(f, c, env, top)?;
            }
        }
        1 => {
            let top = root(f, c, env)?;
            for _ in 1..n {
                leaf(f, c, env, top, Where::LastChild)?;
            }
        }
        2 => {
            // A leaf beside each inner node of the spine.
            let mut top = root(f, c, env)?;
            while c.ids.len() - first + 2 <= n {
                top = over(f, c, env, top)?;
                leaf(f, c, env, top, if seed % 2 == 0 { Where::LastChild } else { Where::FirstChild })?;
            }
        }
        3 => {
            root(f, c, env)?;
            for i in 1..n {
                leaf(f, c, env, first + (i - 1) / 2, Where::LastChild)?;
            }
        }
        4 => {
            let mut top = root(f, c, env)?;
            for _ in 1..n / 2 {
                leaf(f, c, env, top, Where::LastChild)?;
            }
            while c.ids.len() - first < n {
                top = over(f, c, env, top)?;
            }
        }
        5 => {
            let mut top = root(f, c, env)?;
            for _ in 1..n / 2 {
                top = over(f, c, env, top)?;
            }
            let mut k = 0;
            while c.ids.len() - first < n {
                k += 1;
                if k == 1 {
                    top = over(f, c, env, top)?;
                } else {
                    leaf(f, c, env, top, if k < 8 { Where::FirstChild } else { Where::LastChild })?;
                }
            }
        }
        6 => {
            root(f, c, env)?;
            for i in 1..n {
                lcg = lcg.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                leaf(f, c, env, first + (lcg >> 33) as usize % i, WHERES[(lcg >> 20) as usize % 2])?;
            }
        }
        8 => {
            let mut top = first;
            for i in 0..n {
                match (i as u64 + seed) % (1 + seed % 4) {
                    0 => top = root(f, c, env)?,
                    1 if i > 0 => leaf(f, c, env, top, Where::LastChild)?,
                    _ if i > 0 => leaf(f, c, env, c.ids.len() - 1, Where::FirstChild)?,
                    _ => top = root(f, c, env)?,
                }
            }
        }
        _ => {
            // Few long legs.
            let mut top = root(f, c, env)?;
            let legs = 2 + seed as usize % 6;
            let mut tops = vec![];
            for _ in 0..legs {
                for _ in 1..(n / legs).max(2) {
                    if c.ids.len() - first + 1 < n {
                        top = over(f, c, env, top)?;
                    }
                }
                tops.push(top);
                if c.ids.len() - first + 1 >= n {
                    break;
                }
                top = root(f, c, env)?;
            }
            for t in tops {
                if t != top && !c.m.is_in(top, t) {
                    let (a, b) = (c.ids[t], c.ids[top]);
                    let out = attempt(env, 64, || f.insert(a, InsertAs::FirstChildOf(b)));
                    must_ok(out, "insert below another root")?;
                    c.m.insert(t, top, Where::FirstChild);
                }
            }
        }
    }
    Ok(())
}

/// Uses nodes that a panicking removal has taken away, and those it has left, at many entry points.
fn probe<Id: TestId>(f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, gone: &[usize], o: Op) -> Res {
    let dead = c.m.dead();
    let mut look: Vec<usize> = vec![gone[gone.len() - 1], gone[0], gone[o.b as usize / 7 % gone.len()]];
    look.sort_unstable();
    look.dedup();
    let small = c.ids.len() <= 40;
    if !small {
        look.truncate(1);
    }
    for (j, d) in look.into_iter().enumerate() {
        let at = dead.iter().position(|x| *x == d).unwrap_or(0);
        if at * 2 > u16::MAX as usize {
            continue;
        }
        let light = (o.a as usize + j) % 3;
        for which in 0..29u16 {
            // Refused creations use up IDs: only sometimes.
            if matches!(which, 6 | 23 | 24) && light != 0 || (12..22).contains(&which) && light != 1 {
                continue;
            }
            for w in 0..4u16 {
                let several = matches!(which, 4 | 5 | 27 | 28 | 30);
                if w > 0 && !several {
                    break;
                }
                let alive = c.m.alive();
                let other = (o.b / 3 + which + w) % 64;
                misuse(f, c, env, None, op(K_MISUSE, at as u16 * 2, which, other * 4 + w, 0), &alive)?;
                if small && (several && w % 2 == 1 || which > 5 && which < 12) {
                    verify(f, c, false, None)?;
                }
            }
        }
    }
    Ok(())
}

/// Bounded sink.
pub struct Sink {
    pub s: String,
    pub cap: usize,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.s.len() + s.len() > self.cap {
            return Err(std::fmt::Error);
        }
        self.s.push_str(s);
        Ok(())
    }
}

/// Calls every read-only method.
pub fn touch<Id: TestId>(f: &Forest<Id, P>, id: Id, lim: usize, raw: usize) {
    use std::fmt::Write;
    let maxd = raw % 5;
    let n = f.node(id).expect("[harness] node");
    let mut s = 0usize;
    for x in [n.parent(), n.next_sibling(), n.prev_sibling(), n.first_child(), n.last_child()].into_iter().flatten() {
        s += x.data().val as usize;
    }
    if let Some((a, b)) = n.first_last_child() {
        s += (a.id() == b.id()) as usize;
    }
    // On small trees also everything that consumes an iterator.
    let size = n.depth_first_traverse().take(120).count();
    let small = size < 120;
    let mut h = Fnv::default();
    let prog = |i: usize| ((raw >> 2) + i * (raw % 3 + 1)) as u16;
    let e = |e: DftEvent<Node<'_, Id, P>>| match e {
        DftEvent::Open(n) => (true, n.data().val),
        DftEvent::Close(n) => (false, n.data().val),
    };
    let x = |n: Node<'_, Id, P>| n.data().val;
    macro_rules! de {
        ($mk:expr, $map:expr) => {
            exer::both(&|| $mk, &$map, Some(&|i| i.peek()), Some(&|i| i.peek_back()), &prog, lim, raw, small, &mut h)
        };
    }
    macro_rules! se {
        ($mk:expr, $map:expr, $peek:expr) => {
            exer::forward(&|| $mk, &$map, $peek, lim, raw, small, &mut h)
        };
    }
    de!(n.depth_first_traverse(), e);
    let ed = |x: (DftEvent<Node<'_, Id, P>>, usize)| (e(x.0), x.1);
    de!(n.shallow_depth_first_traverse(Some(maxd)), ed);
    de!(f.shallow_depth_first_traverse(id, None), ed);
    let far = [usize::MAX - 2, usize::MAX / 2, usize::MAX / 2 + 1, u32::MAX as usize, u32::MAX as usize + 1,
        i32::MAX as usize, u16::MAX as usize, u8::MAX as usize];
    for far in [usize::MAX, usize::MAX - 1, far[raw / 5 % far.len()]] {
        de!(f.shallow_depth_first_traverse(id, Some(far)), ed);
    }
    de!(n.children(), x);
    de!(n.following_siblings(), x);
    de!(n.following_siblings_or_self(), x);
    de!(n.preceding_siblings(), x);
    de!(n.preceding_siblings_or_self(), x);
    se!(n.ancestors(), x, Some(&|i| i.peek()));
    se!(n.ancestors_or_self(), x, Some(&|i| i.peek()));
    let xd = |(n, d): (Node<'_, Id, P>, usize)| (x(n), d);
    se!(n.breadth_first_traverse(), xd, None);
    se!(n.allocating_breadth_first_traverse(), xd, Some(&|i| i.peek()));
    s += h.0 as usize % 2;
    for cap in [0, 3, 40, 20_000] {
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{}", n.debug_print());
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{:?}", f.debug_print(id));
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{:?} {:#?}", f, f.node(id).map(|n| n.id()));
        let cap = cap.min(600);
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{n:?}");
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{:?}", n.depth_first_traverse());
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{:#?}", n.children());
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{:?}", n.ancestors());
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{:?}", n.shallow_depth_first_traverse(Some(maxd)));
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{:?}", n.breadth_first_traverse());
        let mut k = Sink { s: String::new(), cap };
        let _ = write!(k, "{:?}", n.allocating_breadth_first_traverse());
    }
    std::hint::black_box(s);
}

fn created<Id: TestId>(
    c: &mut Ctx<Id>, env: &mut Env, out: Out<Id>, mark: u32, val: u32, need: usize, what: &str,
) -> Result<Option<usize>, Fail> {
    let room = c.room(need);
    let panicked = matches!(out, Out::Panic(_));
    match room {
        Room::No => {
            env.tag(T_OVERFLOW);
            must_refuse(out, &[], true, &format!("{what} with all IDs issued"))?;
        }
        Room::Maybe if panicked => {
            env.tag(T_OVERFLOW);
            must_refuse(out, &[], true, &format!("{what} with all IDs issued"))?;
        }
        _ => {
            let id = must_ok(out, what)?;
            return c.register(id, mark, val).map(Some);
        }
    }
    leak(c, mark, need);
    Ok(None)
}

/// After a refused creation: values given to it may or may not be kept in an unreachable node.
fn leak<Id: TestId>(c: &mut Ctx<Id>, mark: u32, n: usize) {
    c.leaks += n;
    c.leaked.extend(ledger::live_since(mark));
}

/// Creates a node by `create_insert` or `NodeMut::create`.
pub fn create_at<Id: TestId>(
    f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, a: usize, w: Where, route: u16, val: u32,
) -> Result<Option<usize>, Fail> {
    env.tag(T_CREATE);
    env.note(|| format!("n{} = create(v{val}) as {w:?} of n{a} (route {route})", c.m.nodes.len()));
    let id = c.ids[a];
    let mark = ledger::next();
    let out = attempt(env, c.ids.len() + 2, || {
        let p = P::new(val);
        Ok(if route == 0 {
            f.create_insert(p, ins(w, id))
        } else {
            f.node_mut(id).expect("[harness] anchor").create(p, adp(w))
        })
    });
    let what = format!("create({w:?} of n{a})");
    if !c.m.create_allowed(a, w) {
        env.tag(T_REFUSED);
        must_refuse(out, &[], true, &what)?;
        leak(c, mark, 1);
        return Ok(None);
    }
    let r = created(c, env, out, mark, val, 1, &what)?;
    if let Some(i) = r {
        c.m.insert(i, a, w);
    }
    Ok(r)
}

fn remove_at<Id: TestId>(
    f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, n: usize, form: u16, route: u16,
) -> Res {
    env.tag(T_REMOVE);
    if form > 0 {
        env.tag(T_HOOKED);
    }
    if !c.m.children(n).is_empty() {
        env.tag(T_MULTI);
    }
    let name = ["remove", "remove_hooked", "remove_hooked_panic_safe"][form as usize];
    env.note(|| format!("{name} n{n} (route {route})"));
    let id = c.ids[n];
    let mut got: Vec<P> = vec![];
    let out = attempt(env, c.ids.len() + 2, || {
        let hook = |p: P| {
            crate::side::pulse();
            got.push(p)
        };
        if route == 0 {
            match form {
                0 => f.remove(id),
                1 => f.remove_hooked(id, hook),
                _ => f.remove_hooked_panic_safe(id, hook),
            }
        } else {
            let nm = f.node_mut(id).expect("[harness] node");
            match form {
                0 => nm.remove(),
                1 => nm.remove_hooked(hook),
                _ => nm.remove_hooked_panic_safe(hook),
            }
        }
        Ok(())
    });
    let what = format!("{name}(n{n})");
    must_ok(out, &what)?;
    let want: Vec<(u32, u32)> =
        c.m.postorder(n).into_iter().map(|i| (c.m.nodes[i].serial, c.m.nodes[i].val)).collect();
    if form > 0 {
        let got: Vec<(u32, u32)> = got.iter().map(|p| (p.serial, p.val)).collect();
        if got != want {
            return fail(Cat::Hook, format!("{what}: the hook saw {got:?} instead of {want:?}"));
        }
    }
    drop(got);
    c.m.remove(n);
    Ok(())
}

/// Judges a subtree copy and enters it into the model.
#[allow(clippy::too_many_arguments)]
fn copied<Id: TestId>(
    f: &Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, out: Out<Id>, mark: u32, srcm: &Model, src: &[usize],
    src_ids: &[Id], pairs: Option<Vec<(Id, Id)>>, user_panic: bool, what: &str,
) -> Res {
    let room = c.room(src.len());
    if let Out::Panic(p) = &out {
        if user_panic && p.class == PanicClass::User {
            leak(c, mark, src.len());
            return Ok(());
        }
        if room != Room::Yes && p.class != PanicClass::User && p.class != PanicClass::OutOfSteps {
            env.tag(T_OVERFLOW);
            must_refuse(out, &[], true, &format!("{what} with too few IDs left"))?;
            leak(c, mark, src.len());
            return Ok(());
        }
    } else if room == Room::No {
        env.tag(T_OVERFLOW);
        return fail(Cat::Outcome, format!("{what}: succeeded although there are not enough IDs left"));
    } else if user_panic {
        return fail(Cat::Outcome, format!("{what}: a panic of user code was swallowed"));
    }
    let root = must_ok(out, what)?;
    let clones: HashMap<u32, u32> = ledger::take_clones().into_iter().collect();
    // Pairs of source index and new ID, parents first.
    let mut list: Vec<(usize, Id)> = vec![];
    match pairs {
        Some(pairs) => {
            if pairs.len() != src.len() {
                return fail(Cat::Mapping, format!("{what}: mapping called {} times for {} nodes", pairs.len(), src.len()));
            }
            let by_id: IdMap<Id> = src_ids.iter().copied().zip(src.iter().copied()).collect();
            let mut seen: IdMap<Id> = Default::default();
            let mut mapped: std::collections::HashSet<usize> = Default::default();
            for (s, d) in pairs {
                let Some(i) = by_id.get(&s).copied() else {
                    return fail(Cat::Mapping, format!("{what}: mapping called with {s:?}, which is no source node"));
                };
                if i != src[0] {
                    let p = srcm.parent(i).unwrap();
                    if !mapped.contains(&p) {
                        return fail(Cat::Mapping, format!("{what}: n{i} was mapped before its parent"));
                    }
                }
                if seen.insert(s, 0).is_some() {
                    return fail(Cat::Mapping, format!("{what}: n{i} was mapped twice"));
                }
                list.push((i, d));
                mapped.insert(i);
            }
            if list[0].1 != root {
                return fail(Cat::Mapping, format!("{what}: returned {root:?}, but the root was mapped to {:?}", list[0].1));
            }
        }
        None => {
            // Walk both in lockstep.
            let mut st = vec![(src[0], root)];
            budget(step_limit(c.ids.len() + src.len()));
            let r = guard(|| {
                while let Some((s, d)) = st.pop() {
                    list.push((s, d));
                    let Some(n) = f.node(d) else { return Err(format!("the copy of n{s} is not alive")) };
                    let mut cur = n.first_child_id();
                    for ch in srcm.children(s) {
                        let Some(x) = cur else { return Err(format!("the copy of n{s} lacks children")) };
                        st.push((*ch, x));
                        cur = f.node(x).and_then(|n| n.next_sibling_id());
                    }
                    if cur.is_some() {
                        return Err(format!("the copy of n{s} has extra children"));
                    }
                }
                Ok(())
            });
            budget(u64::MAX);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return fail(Cat::Mapping, format!("{what}: {m}")),
                Err(p) => return fail(Cat::Mapping, format!("{what}: walking the copy panicked: {}", p.msg)),
            }
        }
    }
    // Numbered in document order, whatever order the copies were made in.
    let place: HashMap<usize, usize> = src.iter().enumerate().map(|(k, s)| (*s, k)).collect();
    list.sort_by_key(|(s, _)| place[s]);
    let mut new_of: HashMap<usize, usize> = HashMap::new();
    for (s, d) in &list {
        let ser = srcm.nodes[*s].serial;
        let Some(ns) = clones.get(&ser).copied() else {
            return fail(Cat::Data, format!("{what}: the value of n{s} was not cloned"));
        };
        let i = c.register(*d, ns, srcm.nodes[*s].val)?;
        new_of.insert(*s, i);
    }
    for (s, _) in &list {
        let i = new_of[s];
        let ch: Vec<usize> = srcm.children(*s).iter().map(|x| new_of[x]).collect();
        for x in &ch {
            c.m.nodes[*x].parent = Some(i);
        }
        c.m.nodes[i].children = ch;
    }
    env.note(|| {
        let v: Vec<String> = list.iter().map(|(s, _)| format!("n{s}=>n{}", new_of[s])).collect();
        format!("    copies: {}", v.join(" "))
    });
    Ok(())
}

fn misuse<Id: TestId>(
    f: &mut Forest<Id, P>, c: &mut Ctx<Id>, env: &mut Env, alien: Option<Id>, o: Op, alive: &[usize],
) -> Res {
    // The bad ID: removed, or never issued by this forest.
    let dead = c.m.dead();
    let alien = alien.filter(|a| !c.index.contains_key(a) && (c.ids.len() + c.leaks) < Id::CAP.min(ALIEN).saturating_sub(1));
    // At times the very next ID, or one soon after it, if it is known which that is.
    let alien = match alien {
        Some(a) if c.leaks == 0 && o.a / 8 % 2 == 0 => {
            Some(nth_alien(c.ids.len() + o.a as usize / 16 % 3).filter(|b| !c.index.contains_key(b)).unwrap_or(a))
        }
        a => a,
    };
    let (x, xn) = match (pick(&dead, o.a / 2), alien) {
        (Some(d), None) => (c.ids[d], format!("removed n{d}")),
        (Some(d), Some(_)) if o.a % 8 != 0 => (c.ids[d], format!("removed n{d}")),
        (_, Some(a)) => (a, format!("never issued {a:?}")),
        (None, None) => return Ok(()),
    };
    env.tag(T_MISUSE);
    let y = pick(alive, o.c / 4);
    let w = WHERES[o.c as usize % 4];
    let nn = c.ids.len() + 2;
    let which = o.b % N_MISUSE;
    env.note(|| format!("use {xn} at entry point {which} (other node: {y:?}, {w:?})"));
    let what = format!("call {which} with {xn}");
    let yid = y.map(|y| c.ids[y]);
    let mut hook_calls = 0u32;
    let mut map_calls = 0u32;
    let mark = ledger::next();
    let mut errs: Vec<SErr> = vec![];
    let sib = matches!(w, Where::Prev | Where::Next);
    match which {
        0..=3 => {
            let out = attempt(env, nn, || {
                Ok(match which {
                    0 => f.node(x).is_some(),
                    1 => f.node_mut(x).is_some(),
                    2 => f.data(x).is_some(),
                    _ => f.data_mut(x).is_some(),
                })
            });
            if must_ok(out, &what)? {
                return fail(Cat::Zombie, format!("{what}: the lookup returned something"));
            }
            return Ok(());
        }
        _ => {}
    }
    let out: Out<()> = attempt(env, nn, || {
        match which {
            4 | 30 => {
                let Some(y) = yid else { return Ok(()) };
                if sib && c.m.parent(c.ix(y)).is_none() {
                    errs.push(SErr::NoParent);
                }
                if which == 30 {
                    f.node_mut(y).expect("[harness] node").try_adopt(x, adp(w))?;
                } else {
                    f.insert(x, ins(w, y))?;
                }
            }
            5 => {
                let Some(y) = yid else { return Ok(()) };
                f.insert(y, ins(w, x))?;
            }
            6 => {
                let p = P::new(7);
                let _ = f.create_insert(p, ins(w, x));
            }
            7 => f.detach(x),
            8 => f.detach_single(x)?,
            9 => f.remove(x),
            10 => f.remove_hooked(x, |_| hook_calls += 1),
            11 => f.remove_hooked_panic_safe(x, |_| hook_calls += 1),
            12 => drop(f.depth_first_traverse(x)),
            13 => drop(f.shallow_depth_first_traverse(x, Some(2))),
            14 => drop(f.breadth_first_traverse(x)),
            15 => drop(f.allocating_breadth_first_traverse(x)),
            16 => drop(f.ancestors(x)),
            17 => drop(f.ancestors_or_self(x)),
            18 => drop(f.children(x)),
            19 => drop(f.following_siblings(x)),
            20 => drop(f.following_siblings_or_self(x)),
            21 => drop(f.preceding_siblings(x)),
            22 => drop(f.preceding_siblings_or_self(x)),
            23 => {
                let _ = f.clone_local_tree(x);
            }
            24 => {
                let _ = f.clone_local_tree_with_id_mapping(x, |_, _| map_calls += 1);
            }
            25 => drop(f.debug_print(x)),
            26 => {
                let _ = f.debug_print(x).to_string();
            }
            27 => {
                let Some(y) = yid else { return Ok(()) };
                f.node_mut(y).expect("[harness] node").adopt(x, adp(w));
            }
            28 => {
                if sib {
                    errs.push(SErr::Unorderable);
                    errs.push(SErr::NoParent);
                } else {
                    errs.push(SErr::Loop);
                }
                f.insert(x, ins(w, x))?;
            }
            _ => return Ok(()),
        }
        Ok(())
    });
    if (which == 4 || which == 5 || which == 27 || which == 30) && yid.is_none() {
        return Ok(());
    }
    if which == 29 || which > 30 {
        // A chain builder whose current node was removed through the forest.
        if c.room(1) != Room::Yes {
            return Ok(());
        }
        let mut res: Result<(), (Cat, String)> = Ok(());
        let mut rootid = None;
        env.note(|| "    (chain builder whose current node was removed)".to_string());
        let out = attempt(env, nn, || {
            let mut b = ChainTreeBuilder::new(f, P::new(1));
            let id = b.root_id();
            rootid = Some((id, b.forest().data(id).map(|p| p.serial).unwrap_or(u32::MAX)));
            b.forest_mut().remove(id);
            let r = guard(|| match which % 4 {
                0 => drop(b.child(P::new(2))),
                1 => drop(b.sibling(P::new(2))),
                2 => drop(b.parent()),
                _ => drop(b.try_parent()),
            });
            res = match r {
                Ok(()) => Err((Cat::Outcome, "builder step on a removed current node was accepted".to_string())),
                Err(p) if p.class == PanicClass::Precondition => Ok(()),
                Err(p) if p.class == PanicClass::OutOfSteps => Err((Cat::Hang, "does not end".to_string())),
                Err(p) => Err((Cat::PanicMark, format!("builder step on a removed current node: {}", p.msg))),
            };
            Ok(())
        });
        must_ok(out, &what)?;
        let (id, s) = rootid.unwrap();
        let i = c.register(id, s, 1)?;
        c.m.remove(i);
        leak(c, mark, 1);
        return res.or_else(|(k, m)| fail(k, m));
    }
    if which == 6 || which == 23 || which == 24 {
        leak(c, mark, 1);
    }
    must_refuse(out, &errs, true, &what)?;
    if hook_calls > 0 || map_calls > 0 {
        return fail(Cat::Hook, format!("{what}: the callback was called"));
    }
    Ok(())
}

// ------------------------------------------------------------------- worlds

pub struct World<Id: NodeId> {
    pub slots: Vec<Slot<Id>>,
    pub cur: usize,
    pub alien: Option<Id>,
    pub env: Env,
    /// (first operation, number of operations, tags) of each step that ran.
    pub spans: Vec<(usize, usize, u32)>,
}

impl<Id: TestId> World<Id> {
    pub fn new(env: Env) -> Self {
        World { slots: vec![Slot { f: Forest::new(), c: Ctx::default() }], cur: 0, alien: alien_id::<Id>(), env, spans: vec![] }
    }
    pub fn slot(&self) -> &Slot<Id> {
        &self.slots[self.cur]
    }

    /// Runs all operations. The first failure ends the run.
    pub fn run(&mut self, ops: &[Op]) -> Res {
        let mut i = 0;
        while i < ops.len() {
            let used = self.step(ops, i).map_err(|mut f| {
                f.step = i;
                f.tags = self.env.cur_tags;
                f
            })?;
            self.spans.push((i, used, self.env.cur_tags));
            i += used;
        }
        Ok(())
    }

    /// Roots of the trees that the operation names, before it runs.
    fn named(&self, o: Op) -> Vec<usize> {
        let c = &self.slot().c;
        let alive = c.m.alive();
        let Some(n) = pick(&alive, o.a) else { return vec![] };
        match o.k {
            K_CREATE | K_DETACH | K_DSINGLE | K_REMOVE | K_RMPANIC | K_SET | K_GROW => vec![c.m.root(n)],
            K_INSERT => {
                let a = relative(&c.m, &alive, n, o.b);
                vec![c.m.root(n), c.m.root(a)]
            }
            K_PRUNE => match o.b % 3 {
                0 => c.m.roots(),
                _ => vec![c.m.root(n)],
            },
            K_CHAIN | K_NEST => c.m.roots(),
            // Copies name their source, but do not change it.
            _ => vec![],
        }
    }

    fn step(&mut self, ops: &[Op], i: usize) -> Result<usize, Fail> {
        let mut o = ops[i];
        o.k %= NKINDS as u8;
        self.env.step = i;
        self.env.cur_tags = 0;
        self.env.kinds[o.k as usize] += 1;
        let cur = self.cur;
        let before = if self.env.track_outside {
            Some((self.slot().c.m.root_table(), self.named(o)))
        } else {
            None
        };
        if !self.slot().c.m.nodes.iter().all(|n| n.alive) {
            self.env.cur_tags |= T_DEADEXIST;
            self.env.tags_seen |= T_DEADEXIST;
        }
        let mut used = 1;
        match o.k {
            K_CHAIN => used += self.chain(ops, i)?,
            K_NEST => used += self.nest(ops, i)?,
            K_FORK => self.fork(o)?,
            K_NEWF => {
                if self.slots.len() < 4 {
                    self.env.note(|| "new forest".to_string());
                    self.slots.push(Slot { f: Default::default(), c: Ctx::default() });
                    self.cur = self.slots.len() - 1;
                }
            }
            K_SWITCH => {
                self.cur = o.a as usize % self.slots.len();
                let c = self.cur;
                self.env.note(|| format!("use forest {c}"));
            }
            K_DROPF => {
                if self.slots.len() > 1 {
                    let k = o.a as usize % self.slots.len();
                    self.env.note(|| format!("drop forest {k}"));
                    let s = self.slots.remove(k);
                    let r = guard(move || drop(s));
                    if let Err(p) = r {
                        return fail(Cat::PanicValid, format!("dropping a forest panicked: {}", p.msg));
                    }
                    self.cur = self.cur.min(self.slots.len() - 1);
                }
            }
            K_FOREIGN => self.foreign(o)?,
            _ => {
                let alien = self.alien;
                let Slot { f, c } = &mut self.slots[cur];
                basic(f, c, &mut self.env, alien, o)?;
            }
        }
        if self.env.hash_obs {
            self.hash_state();
        }
        self.verify_all(cur, before)?;
        Ok(used)
    }

    /// Enters what all forests answer into the hash.
    pub fn hash_state(&mut self) {
        for s in &self.slots {
            self.env.peak = self.env.peak.max(s.c.ids.len() + s.c.leaks);
            budget(step_limit(s.c.ids.len()));
            let o = guard(|| observe(&s.f, &s.c)).map_err(|p| p.class);
            budget(u64::MAX);
            o.hash(&mut self.env.hash);
        }
        let h = self.env.hash.0;
        self.env.hashes.push((self.env.step, h));
    }

    pub fn verify_all(&self, cur: usize, before: Option<(Vec<usize>, Vec<usize>)>) -> Res {
        let ch = self.env.check_children;
        if let Some(s) = self.slots.get(cur) {
            verify(&s.f, &s.c, ch, before.as_ref().map(|b| (&b.0[..], &b.1[..])))?;
        }
        for (k, s) in self.slots.iter().enumerate() {
            if k != cur {
                verify(&s.f, &s.c, ch, None).map_err(|mut f| {
                    f.outside = true;
                    f.msg = format!("forest {k}, which the call does not name: {}", f.msg);
                    f
                })?;
            }
        }
        self.verify_ledger()
    }
    pub fn verify_ledger(&self) -> Res {
        let want: usize = self
            .slots
            .iter()
            .map(|s| s.c.m.nalive() + s.c.leaked.iter().filter(|x| ledger::is_live(**x)).count())
            .sum();
        let got = ledger::nlive();
        if got != want {
            return fail(Cat::Ledger, format!("{got} values are alive, but the forests should hold {want}"));
        }
        Ok(())
    }

    fn fork(&mut self, o: Op) -> Res {
        let cur = self.cur;
        let n = self.slots[cur].c.ids.len();
        ledger::take_clones();
        let fuel = (o.c % 8 == 7).then_some(o.b as u64 % (n as u64 + 1));
        // Into a forest that exists: its nodes and values go, whatever it held.
        let into = (o.c % 8 >= 5 && o.c % 8 < 7 && self.slots.len() > 1)
            .then(|| (cur + 1 + o.b as usize % (self.slots.len() - 1)) % self.slots.len());
        if into.is_none() && self.slots.len() >= 4 {
            return Ok(());
        }
        self.env.tag(T_FORK);
        ledger::set_fuel(fuel);
        let mark = ledger::next();
        let out = match into {
            None => {
                self.env.note(|| format!("forest {} = clone of forest {cur}", self.slots.len()));
                let f = &self.slots[cur].f;
                attempt(&mut self.env, n + 2, || Ok(f.clone()))
            }
            Some(j) => {
                self.env.note(|| format!("forest {j}.clone_from(forest {cur})"));
                let mut d = std::mem::take(&mut self.slots[j].f);
                let f = &self.slots[cur].f;
                attempt(&mut self.env, n + 2, move || {
                    d.clone_from(f);
                    Ok(d)
                })
            }
        };
        ledger::set_fuel(None);
        if let (Some(_), Out::Panic(p)) = (fuel, &out) {
            if p.class == PanicClass::User {
                return Ok(());
            }
        }
        let f = must_ok(out, "Forest::clone")?;
        let clones: HashMap<u32, u32> = ledger::take_clones().into_iter().collect();
        let mut c = self.slots[cur].c.clone();
        for (i, n) in c.m.nodes.iter_mut().enumerate() {
            if n.alive {
                match clones.get(&n.serial) {
                    Some(s) => n.serial = *s,
                    None => return fail(Cat::Data, format!("Forest::clone: the value of n{i} was not cloned")),
                }
            }
        }
        let known: std::collections::HashSet<u32> = c.m.nodes.iter().filter(|n| n.alive).map(|n| n.serial).collect();
        c.leaked = ledger::live_since(mark).into_iter().filter(|s| !known.contains(s)).collect();
        if c.leaked.len() > self.slots[cur].c.leaked.len() {
            return fail(Cat::Ledger, "Forest::clone: more values were cloned than there are nodes".to_string());
        }
        let k = match into {
            Some(j) => {
                self.slots[j] = Slot { f, c };
                j
            }
            None => {
                self.slots.push(Slot { f, c });
                self.slots.len() - 1
            }
        };
        if o.d % 2 == 1 {
            self.cur = k;
        }
        // Judge the snapshot right here, so that it is attributed to the clone.
        let s = &self.slots[k];
        verify(&s.f, &s.c, false, None).map_err(|mut e| {
            e.outside = true;
            e.msg = format!("snapshot by Forest::clone: {}", e.msg);
            e
        })
    }

    fn foreign(&mut self, o: Op) -> Res {
        if self.slots.len() < 2 {
            return Ok(());
        }
        let cur = self.cur;
        let mut j = o.b as usize % (self.slots.len() - 1);
        if j >= cur {
            j += 1;
        }
        let (lo, hi) = (cur.min(j), cur.max(j));
        let (x, y) = self.slots.split_at_mut(hi);
        let (dst, src) = if cur < j { (&mut x[lo], &mut y[0]) } else { (&mut y[0], &mut x[lo]) };
        let alive = src.c.m.alive();
        let Some(n) = pick(&alive, o.a) else { return Ok(()) };
        let pre = src.c.m.preorder(n);
        let Slot { f, c } = dst;
        let env = &mut self.env;
        if c.ids.len() + pre.len() > env.max_nodes && c.room(pre.len()) == Room::Yes || dear(&src.c.m, n, pre.len()) {
            return Ok(());
        }
        env.tag(T_CLONE | T_FOREIGN);
        if pre.len() > 1 {
            env.tag(T_MULTI);
        }
        let mapping = o.d % 2 == 1;
        let fuel = (o.c % 16 == 15 || o.c % 32 == 14 && mapping).then_some(o.c as u64 / 32 % pre.len() as u64);
        // Panic in the mapping callback instead of `Clone`.
        let map_panic = if o.c % 16 == 14 { fuel } else { None };
        env.note(|| format!("clone_foreign_tree n{n} of forest {j} (mapping: {mapping}, panics at: {fuel:?})"));
        let mark = ledger::next();
        ledger::take_clones();
        ledger::set_fuel(if map_panic.is_some() { None } else { fuel });
        let mut pairs: Vec<(Id, Id)> = vec![];
        let sid = src.c.ids[n];
        let sf = &src.f;
        let out = attempt(env, c.ids.len() + pre.len() + src.c.ids.len(), || {
            let sn: Node<'_, Id, P> = sf.node(sid).expect("[harness] source");
            Ok(if mapping {
                f.clone_foreign_tree_with_id_mapping(sn, |a, b| {
                    if map_panic == Some(pairs.len() as u64) {
                        panic!("{}", USER_PANIC);
                    }
                    crate::side::pulse();
                    pairs.push((a, b))
                })
            } else {
                f.clone_foreign_tree(sn)
            })
        });
        ledger::set_fuel(None);
        let src_ids: Vec<Id> = pre.iter().map(|i| src.c.ids[*i]).collect();
        let what = format!("clone_foreign_tree(n{n} of forest {j})");
        copied(f, c, env, out, mark, &src.c.m, &pre, &src_ids, if mapping { Some(pairs) } else { None },
            fuel.is_some(), &what)
    }

    /// A chain builder session; the following operations are its steps.
    fn chain(&mut self, ops: &[Op], at: usize) -> Result<usize, Fail> {
        let o = ops[at];
        let alien = self.alien;
        let cur = self.cur;
        let ch = self.env.check_children;
        let env = &mut self.env;
        env.tag(T_BUILD);
        let Slot { f, c } = &mut self.slots[cur];
        let n = (1 + o.a as usize % 16).min(ops.len() - at - 1);
        let val = o.b as u32;
        env.note(|| format!("chain builder, n{} = root v{val}", c.m.nodes.len()));
        let mark = ledger::next();
        let mut slot_b: Option<ChainTreeBuilder<'_, Id, P>> = None;
        let room = c.room(1);
        let out = attempt(env, c.ids.len() + 2, || {
            let p = P::new(val);
            slot_b = Some(ChainTreeBuilder::new(f, p));
            Ok(slot_b.as_ref().unwrap().root_id())
        });
        let Some(root) = created(c, env, out, mark, val, 1, "ChainTreeBuilder::new")? else { return Ok(0) };
        let _ = room;
        let mut b = slot_b.unwrap();
        let root_id = c.ids[root];
        let mut now = root;
        for (k, st) in ops[at + 1..at + 1 + n].iter().enumerate() {
            env.step = at + 1 + k;
            let nn = c.ids.len() + 2;
            let val = st.a as u32;
            let now_alive = c.m.nodes[now].alive;
            match st.b % 10 {
                s @ 0..=3 => {
                    let child = s < 2;
                    let name = if child { "child" } else { "sibling" };
                    env.note(|| format!("  .{name}(v{val}) = n{}", c.m.nodes.len()));
                    let mark = ledger::next();
                    let out = attempt(env, nn, || {
                        let p = P::new(val);
                        if child {
                            b.child(p);
                        } else {
                            b.sibling(p);
                        }
                        Ok(b.current_id())
                    });
                    let w = if child { Where::LastChild } else { Where::Next };
                    if !now_alive || !c.m.create_allowed(now, w) {
                        env.tag(T_REFUSED);
                        must_refuse(out, &[], true, &format!("builder step {name} at n{now}"))?;
                        leak(c, mark, 1);
                    } else if let Some(i) = created(c, env, out, mark, val, 1, &format!("builder step {name} at n{now}"))? {
                        c.m.insert(i, now, w);
                        now = i;
                    }
                }
                4 | 5 => {
                    env.note(|| "  .parent()".to_string());
                    let out = attempt(env, nn, || {
                        b.parent();
                        Ok(())
                    });
                    match c.m.parent(now) {
                        Some(p) if now_alive => {
                            must_ok(out, "builder step parent")?;
                            now = p;
                        }
                        _ => {
                            env.tag(T_REFUSED);
                            must_refuse(out, &[], true, "builder step parent at a root")?;
                        }
                    }
                }
                6 => {
                    env.note(|| "  .try_parent()".to_string());
                    let out = attempt(env, nn, || Ok(b.try_parent().is_some()));
                    match c.m.parent(now) {
                        Some(p) if now_alive => {
                            if !must_ok(out, "builder step try_parent")? {
                                return fail(Cat::Builder, "try_parent refused, although there is a parent");
                            }
                            now = p;
                        }
                        _ if now_alive => {
                            env.tag(T_REFUSED);
                            if must_ok(out, "builder step try_parent")? {
                                return fail(Cat::Builder, "try_parent at a root was accepted");
                            }
                        }
                        _ => must_refuse(out, &[], true, "builder step try_parent at a removed node")?,
                    }
                }
                _ => {
                    let mut e = *st;
                    e.k = [K_CREATE, K_INSERT, K_DETACH, K_DSINGLE, K_REMOVE, K_SET, K_CLONE][st.k as usize % 7];
                    e.b = st.b / 10;
                    env.note(|| "  edit through the builder:".to_string());
                    basic(b.forest_mut(), c, env, alien, e)?;
                }
            }
            let got = c.ix(b.current_id());
            if got != now {
                return fail(Cat::Builder, format!("current_id() is n{} instead of n{now}", got as isize));
            }
            if b.root_id() != root_id {
                return fail(Cat::Builder, format!("root_id() changed to {:?}", b.root_id()));
            }
            verify(b.forest(), c, ch, None)?;
        }
        drop(b);
        Ok(n)
    }

    /// A nest builder session; the following operations are its steps.
    fn nest(&mut self, ops: &[Op], at: usize) -> Result<usize, Fail> {
        let o = ops[at];
        let cur = self.cur;
        let env = &mut self.env;
        env.tag(T_BUILD);
        let Slot { f, c } = &mut self.slots[cur];
        let n = (1 + o.a as usize % 24).min(ops.len() - at - 1);
        let val = o.b as u32;
        env.note(|| format!("nest builder, root v{val}"));
        struct St<'o, Id> {
            steps: &'o [Op],
            pos: usize,
            // (parent, serial, val, ID if known)
            nodes: Vec<(Option<usize>, u32, u32, Option<Id>)>,
            log: Vec<String>,
            bad: Option<String>,
            panics: bool,
        }
        fn level<Id: TestId>(b: &mut NestTreeBuilder<'_, Id, P>, s: &mut St<'_, Id>, me: usize, depth: usize) {
            let id = b.root();
            while s.pos < s.steps.len() {
                let st = s.steps[s.pos];
                s.pos += 1;
                let val = st.a as u32;
                match st.b % 5 {
                    0 | 1 => {
                        s.log.push(format!("  {}add_child(v{val})", "  ".repeat(depth)));
                        let p = P::new(val);
                        let serial = p.serial;
                        b.add_child(p);
                        s.nodes.push((Some(me), serial, val, None));
                    }
                    2 | 3 => {
                        s.log.push(format!("  {}create_tree(v{val})", "  ".repeat(depth)));
                        let p = P::new(val);
                        let serial = p.serial;
                        let mut called = false;
                        b.create_tree(val_payload(p), |b2| {
                            called = true;
                            s.nodes.push((Some(me), serial, val, Some(b2.root())));
                            let i = s.nodes.len() - 1;
                            level(b2, s, i, depth + 1);
                            if s.nodes[i].3 != Some(b2.root()) && s.bad.is_none() {
                                s.bad = Some("root() of a nested builder changed".into());
                            }
                        });
                        if !called {
                            s.bad = Some("create_tree did not call the closure".into());
                        }
                    }
                    _ => {
                        if st.c % 16 == 13 {
                            s.log.push(format!("  {}panic of the user", "  ".repeat(depth)));
                            s.panics = true;
                            panic!("{}", USER_PANIC);
                        }
                        if depth > 0 {
                            s.log.push(format!("  {}end of level", "  ".repeat(depth)));
                            break;
                        }
                    }
                }
                if b.root() != id && s.bad.is_none() {
                    s.bad = Some("root() changed".into());
                }
            }
        }
        fn val_payload(p: P) -> P {
            p
        }
        let mut st: St<'_, Id> = St { steps: &ops[at + 1..at + 1 + n], pos: 0, nodes: vec![], log: vec![], bad: None, panics: false };
        let mark = ledger::next();
        let lim = c.ids.len() + n + 2;
        let out = attempt(env, lim, || {
            let p = P::new(val);
            let serial = p.serial;
            let mut b = NestTreeBuilder::new(f, p);
            st.nodes.push((None, serial, val, Some(b.root())));
            level(&mut b, &mut st, 0, 0);
            Ok(())
        });
        let log = std::mem::take(&mut st.log);
        env.note(|| log.join("\n"));
        // Enough room for all nodes that were made; the one that failed needs one more.
        let mut over = 0;
        if let Out::Panic(p) = &out {
            if st.panics && p.class == PanicClass::User {
                // What was built before the panic stays.
            } else if p.class != PanicClass::OutOfSteps && c.room(st.nodes.len() + 1) != Room::Yes {
                env.tag(T_OVERFLOW);
                must_refuse(out, &[], true, "NestTreeBuilder with all IDs issued")?;
                over = 1;
            } else {
                must_ok(out, "NestTreeBuilder")?;
            }
        } else if st.panics {
            return fail(Cat::Outcome, "NestTreeBuilder swallowed a panic of user code");
        } else if c.room(st.nodes.len()) == Room::No {
            return fail(Cat::Outcome, "NestTreeBuilder made more nodes than there are IDs");
        }
        if let Some(m) = st.bad {
            return fail(Cat::Builder, format!("nest builder: {m}"));
        }
        if st.nodes.is_empty() {
            leak(c, mark, 1);
            return Ok(n);
        }
        // Find the IDs that the builder does not tell, by the values.
        let by_serial: HashMap<u32, usize> = st.nodes.iter().enumerate().map(|(i, x)| (x.1, i)).collect();
        let root = st.nodes[0].3.unwrap();
        let nodes = &mut st.nodes;
        budget(step_limit(lim));
        let r = guard(|| {
            let mut q = vec![root];
            let mut seen = 0;
            while let Some(id) = q.pop() {
                seen += 1;
                if seen > nodes.len() + 1 {
                    return Err("more nodes than were built".to_string());
                }
                let Some(x) = f.node(id) else { return Err("a built node is not alive".to_string()) };
                let Some(i) = by_serial.get(&x.data().serial).copied() else {
                    return Err("an unknown node is in the built tree".to_string());
                };
                if nodes[i].3.map_or(false, |k| k != id) {
                    return Err("root() of a nested builder named another node".to_string());
                }
                nodes[i].3 = Some(id);
                let mut cur = x.first_child_id();
                let mut k = 0;
                while let Some(y) = cur {
                    q.push(y);
                    cur = f.node(y).and_then(|n| n.next_sibling_id());
                    k += 1;
                    if k > nodes.len() {
                        return Err("too many children".to_string());
                    }
                }
            }
            Ok(())
        });
        budget(u64::MAX);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => return fail(Cat::Builder, format!("nest builder: {m}")),
            Err(p) => return fail(Cat::Builder, format!("walking the built tree panicked: {}", p.msg)),
        }
        let mut ix = vec![];
        for (i, x) in st.nodes.iter().enumerate() {
            let Some(id) = x.3 else {
                return fail(Cat::Builder, format!("nest builder: the {i}-th node is not in the tree"));
            };
            let k = c.register(id, x.1, x.2)?;
            ix.push(k);
            if let Some(p) = x.0 {
                c.m.insert(k, ix[p], Where::LastChild);
            }
        }
        if over > 0 {
            leak_except(c, mark, 1);
        }
        Ok(n)
    }
}

/// As `leak`, but not for values that nodes hold.
fn leak_except<Id: TestId>(c: &mut Ctx<Id>, mark: u32, n: usize) {
    let known: std::collections::HashSet<u32> = c.m.nodes.iter().filter(|n| n.alive).map(|n| n.serial).collect();
    c.leaks += n;
    c.leaked.extend(ledger::live_since(mark).into_iter().filter(|s| !known.contains(s)));
}

/// Nodes in that larger forest.
const ALIEN: usize = 80_000;

/// IDs of a much larger forest: the first ones and the last one.
struct Aliens<Id> {
    first: Vec<Id>,
    last: Option<Id>,
}

fn aliens<Id: TestId, R>(f: impl FnOnce(&Aliens<Id>) -> R) -> R {
    use std::any::{Any, TypeId};
    use std::cell::RefCell;
    thread_local! {
        static CACHE: RefCell<Vec<(TypeId, Box<dyn Any>)>> = const { RefCell::new(Vec::new()) };
    }
    CACHE.with(|k| {
        let mut k = k.borrow_mut();
        if !k.iter().any(|x| x.0 == TypeId::of::<Id>()) {
            let n = Id::CAP.min(ALIEN);
            let mut first = vec![];
            let last = guard(|| {
                let mut f: Forest<Id, ()> = Forest::new();
                let mut id = f.create_root(());
                first.push(id);
                for i in 1..n {
                    id = f.create_root(());
                    if i < 400 {
                        first.push(id);
                    }
                }
                id
            })
            .ok();
            k.push((TypeId::of::<Id>(), Box::new(Aliens { first, last })));
        }
        let e = k.iter().find(|x| x.0 == TypeId::of::<Id>()).and_then(|x| x.1.downcast_ref::<Aliens<Id>>());
        f(e.expect("[harness] just entered"))
    })
}

/// An ID that smaller forests have not issued: the last one of a much larger forest.
pub fn alien_id<Id: TestId>() -> Option<Id> {
    aliens(|a| a.last)
}

/// The ID that another forest gave to its `i`-th node.
fn nth_alien<Id: TestId>(i: usize) -> Option<Id> {
    aliens(|a| a.first.get(i).copied())
}

/// Turns an event of an iterator into plain values.
pub fn ev<Id: TestId>(e: DftEvent<Node<'_, Id, P>>) -> (bool, Id, u32) {
    // Both ways to the contents have to agree.
    match (e, e.map(|n| (n.id(), n.data().serial))) {
        (DftEvent::Open(n), DftEvent::Open((id, serial))) if id == n.id() => (true, id, serial),
        (DftEvent::Close(n), DftEvent::Close((id, serial))) if id == n.id() => (false, id, serial),
        (_, DftEvent::Open((id, _)) | DftEvent::Close((id, _))) => (true, id, u32::MAX),
    }
}
