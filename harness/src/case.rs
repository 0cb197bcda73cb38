//! Cases, their text form, their generators, and the ID types under test.

use proptest::prelude::*;
use proptest::strategy::Union;
use treena::dynamic::{NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8, NodeIdUsize};
use treena::impl_dynamic_node_id;

use crate::engine::*;

/// User-defined ID types.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MyTuple(NodeIdU16);
impl_dynamic_node_id!(MyTuple, NodeIdU16, 0);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MyStruct {
    inner: NodeIdUsize,
}
impl_dynamic_node_id!(MyStruct, NodeIdUsize, inner);

macro_rules! test_id {
    ($t:ty, $n:expr, $c:expr) => {
        impl TestId for $t {
            const NAME: &'static str = $n;
            const CAP: usize = $c;
        }
    };
}
test_id!(NodeIdU8, "NodeIdU8", 255);
test_id!(NodeIdU16, "NodeIdU16", 65535);
test_id!(NodeIdU32, "NodeIdU32", usize::MAX / 4);
test_id!(NodeIdU64, "NodeIdU64", usize::MAX / 4);
test_id!(NodeIdUsize, "NodeIdUsize", usize::MAX / 4);
test_id!(MyTuple, "MyTuple(NodeIdU16)", 65535);
test_id!(MyStruct, "MyStruct{NodeIdUsize}", usize::MAX / 4);

/// Number of ID types that most checks choose from. All are in the build for C16 and C21.
#[cfg(not(feature = "allids"))]
pub const NIDS: u8 = 3;
#[cfg(feature = "allids")]
pub const NIDS: u8 = 7;

/// Calls a generic function with the ID type of the given number.
#[cfg(feature = "allids")]
#[macro_export]
macro_rules! with_id {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % $crate::case::NIDS {
            0 => $f::<treena::dynamic::NodeIdUsize>($($a),*),
            1 => $f::<treena::dynamic::NodeIdU8>($($a),*),
            2 => $f::<$crate::case::MyTuple>($($a),*),
            3 => $f::<treena::dynamic::NodeIdU32>($($a),*),
            4 => $f::<$crate::case::MyStruct>($($a),*),
            5 => $f::<treena::dynamic::NodeIdU64>($($a),*),
            _ => $f::<treena::dynamic::NodeIdU16>($($a),*),
        }
    };
}
#[cfg(not(feature = "allids"))]
#[macro_export]
macro_rules! with_id {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % $crate::case::NIDS {
            0 => $f::<treena::dynamic::NodeIdUsize>($($a),*),
            1 => $f::<treena::dynamic::NodeIdU8>($($a),*),
            _ => $f::<$crate::case::MyTuple>($($a),*),
        }
    };
}

/// As `with_id`, for what the build for C16 and C21 does not use.
#[cfg(feature = "allids")]
#[macro_export]
macro_rules! with_few {
    ($k:expr, $f:ident ( $($a:expr),* )) => { $f::<treena::dynamic::NodeIdUsize>($($a),*) };
}
#[cfg(not(feature = "allids"))]
#[macro_export]
macro_rules! with_few {
    ($k:expr, $f:ident ( $($a:expr),* )) => { $crate::with_id!($k, $f($($a),*)) };
}
/// Two types, for big shapes.
#[macro_export]
macro_rules! with_two {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        if $k % 2 == 0 {
            $f::<treena::dynamic::NodeIdUsize>($($a),*)
        } else {
            $f::<$crate::case::MyTuple>($($a),*)
        }
    };
}

pub fn id_name(k: u8) -> &'static str {
    fn name<Id: TestId>() -> &'static str {
        Id::NAME
    }
    with_id!(k, name())
}

pub fn id_cap(k: u8) -> usize {
    fn cap<Id: TestId>() -> usize {
        Id::CAP
    }
    with_id!(k, cap())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Case {
    /// Which ID type.
    pub id: u8,
    /// Which kind of case, for properties that have several.
    pub mode: u8,
    pub ops: Vec<Op>,
    /// Further choices (start nodes, interleavings, limits).
    pub prog: Vec<u16>,
}

impl Case {
    pub fn text(&self) -> String {
        let mut s = format!("id {} # {}\nmode {}\n", self.id, id_name(self.id), self.mode);
        for o in &self.ops {
            s += &format!(
                "op {} {} {} {} {} # {}\n",
                o.k, o.a, o.b, o.c, o.d, KIND_NAMES[o.k as usize % NKINDS]
            );
        }
        let p: Vec<String> = self.prog.iter().map(|x| x.to_string()).collect();
        s += &format!("prog {}\n", p.join(" "));
        s
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut c = Case::default();
        for l in t.lines() {
            let l = l.split('#').next().unwrap().trim();
            let w: Vec<&str> = l.split_whitespace().collect();
            let num = |i: usize| -> Option<u16> { w.get(i)?.parse().ok() };
            match w.first().copied() {
                Some("id") => c.id = num(1)? as u8,
                Some("mode") => c.mode = num(1)? as u8,
                Some("op") => c.ops.push(op(num(1)? as u8, num(2)?, num(3)?, num(4)?, num(5)?)),
                Some("prog") => c.prog = w[1..].iter().map(|x| x.parse().ok()).collect::<Option<_>>()?,
                _ => {}
            }
        }
        Some(c)
    }
    /// Structured decoding of fuzzer bytes.
    pub fn from_bytes(b: &[u8], weights: &[(u8, u32)], modes: u8, prog: bool) -> Case {
        let mut it = b.iter().copied();
        let mut nx = || it.next();
        let mut c = Case { id: nx().unwrap_or(0) % NIDS, mode: nx().unwrap_or(0) % modes.max(1), ..Default::default() };
        let np = if prog { nx().unwrap_or(0) as usize % 48 } else { 0 };
        for _ in 0..np {
            let Some(x) = nx() else { break };
            let y = if x & 0x80 != 0 { nx().unwrap_or(0) } else { 0 };
            c.prog.push(x as u16 | (y as u16) << 8);
        }
        let total: u32 = weights.iter().map(|w| w.1).sum();
        while c.ops.len() < 64 {
            let Some(k) = nx() else { break };
            let mut r = k as u32 * total / 256;
            let mut kind = weights[0].0;
            for (kk, w) in weights {
                if r < *w {
                    kind = *kk;
                    break;
                }
                r -= w;
            }
            let a = nx().unwrap_or(0) as u16;
            let b = nx().unwrap_or(0) as u16;
            let bh = nx().unwrap_or(0) as u16;
            let cd = nx().unwrap_or(0) as u16;
            let mut cc = cd & 15;
            if kind == K_GROW {
                cc = match cd >> 4 {
                    0..=11 => cd & 15,
                    12 | 13 => 16 + (cd & 15) * 4,
                    14 => 250 + (cd & 15),
                    _ => 1100,
                };
            }
            c.ops.push(op(kind, a, b | bh << 8, cc, cd >> 4));
        }
        c
    }
}

/// Sizes of grown shapes: mostly small, sometimes around powers of two.
fn grow_size(big: u32) -> BoxedStrategy<u16> {
    let mut v: Vec<(u32, BoxedStrategy<u16>)> =
        vec![(30, (0u16..7).boxed()), (10, (7u16..40).boxed()), (3, (60u16..72).boxed()), (2, (120u16..140).boxed())];
    if big > 0 {
        v.push((big, (250u16..270).boxed()));
        v.push((big, (500u16..530).boxed()));
        v.push((1, (1010u16..1040).boxed()));
    }
    Union::new_weighted(v).boxed()
}

fn op_of_kind(k: u8, big: u32) -> BoxedStrategy<Op> {
    let raw = 0u16..=u16::MAX;
    let small = 0u16..64;
    match k {
        K_GROW => (raw.clone(), 0u16..6, grow_size(big), raw)
            .prop_map(move |(a, b, c, d)| op(k, a, b, c, d))
            .boxed(),
        K_INSERT => (raw.clone(), 0u16..16, 0u16..64, 0u16..4, 0u16..3)
            .prop_map(move |(a, rel, i, c, d)| op(k, a, rel + 16 * i, c, d))
            .boxed(),
        _ => (raw.clone(), raw, small.clone(), small).prop_map(move |(a, b, c, d)| op(k, a, b, c, d)).boxed(),
    }
}

/// Strategy of cases.
#[derive(Clone)]
pub struct Gen {
    pub weights: Vec<(u8, u32)>,
    pub max_ops: usize,
    pub max_prog: usize,
    pub modes: u8,
    /// Weight of shapes of hundreds of nodes.
    pub big: u32,
    /// Numbers of ID types.
    pub ids: Vec<u8>,
    /// When not zero: so many cases, each on a huge shape.
    pub huge: u64,
    /// When not zero: so many cases, each a history of hundreds of operations on few nodes.
    pub long: u64,
    /// Do edits in two forests, one right after the other.
    pub twin: bool,
}

/// Sizes of huge shapes: any magnitude, and around powers of two.
fn huge_size() -> BoxedStrategy<usize> {
    let edges: Vec<usize> = (9..=16).flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1, (1 << e) + 2]).collect();
    prop_oneof![
        3 => 200usize..3000,
        3 => 3000usize..12_000,
        2 => proptest::sample::select(edges),
        2 => proptest::sample::select(vec![1000usize, 2000, 5000, 10_000, 20_000, 30_000, 40_000, 50_000, 65_530, 65_540, 70_000]),
    ]
    .boxed()
}

pub fn big_op(a: u16, shape: u16, n: usize) -> Op {
    let c = n.min(65_520);
    op(K_BIG, a, shape, c as u16 + ((n - c) % 16) as u16, ((n - c) / 16) as u16)
}

/// Two forests, equal at first or not, that take turns.
fn twins(ops: Vec<Op>) -> Vec<Op> {
    let n = ops.len();
    let mut v = vec![];
    for (i, o) in ops.into_iter().enumerate() {
        if i == n / 4 {
            v.push(op(if o.b % 2 == 0 { K_NEWF } else { K_FORK }, 0, 0, 0, 1));
        }
        v.push(o);
        if i > n / 4 && !matches!(o.k, K_SWITCH | K_CHAIN | K_NEST) {
            match o.c / 4 % 4 {
                0 => {}
                1 => v.push(op(K_SWITCH, o.a, 0, 0, 0)),
                _ => v.extend([op(K_SWITCH, i as u16, 0, 0, 0), o]),
            }
        }
    }
    v
}

impl Gen {
    pub fn strategy(&self) -> BoxedStrategy<Case> {
        if self.huge > 0 {
            let ops: Vec<(u32, BoxedStrategy<Op>)> = self
                .weights
                .iter()
                .filter(|(k, _)| !matches!(*k, K_GROW | K_TOUCH))
                .map(|(k, w)| (*w, op_of_kind(*k, 0)))
                .collect();
            let one = Union::new_weighted(ops);
            let first = (0u16..=u16::MAX, 0u16..BIG_SHAPES.len() as u16, huge_size());
            let prog = proptest::collection::vec(0u16..=u16::MAX, 0..=self.max_prog);
            let modes = 0..self.modes.max(1);
            return (proptest::sample::select(self.ids.clone()), first, proptest::collection::vec(one, 2..=self.max_ops), prog, modes)
                .prop_map(|(id, (a, s, n), mut ops, prog, mode)| {
                    ops.insert(0, big_op(a, s, n));
                    Case { id, mode, ops, prog }
                })
                .boxed();
        }
        let ops: Vec<(u32, BoxedStrategy<Op>)> = self
            .weights
            .iter()
            .filter(|(k, _)| self.long == 0 || !matches!(*k, K_GROW | K_NEWF | K_DROPF | K_FORK))
            .map(|(k, w)| {
                // As many nodes go as come.
                let w = match *k {
                    K_REMOVE if self.long > 0 => *w * 2,
                    K_CLONE | K_FOREIGN if self.long > 0 => (*w).min(3),
                    _ => *w,
                };
                (w, op_of_kind(*k, self.big))
            })
            .collect();
        let one = Union::new_weighted(ops);
        let twin = self.twin;
        let prog = if self.max_prog == 0 {
            Just(vec![]).boxed()
        } else {
            proptest::collection::vec(0u16..=u16::MAX, 0..self.max_prog).boxed()
        };
        (
            proptest::sample::select(self.ids.clone()),
            0..self.modes.max(1),
            proptest::collection::vec(one, (if self.long > 0 { self.max_ops / 4 } else { 1 })..=self.max_ops),
            prog,
        )
            .prop_map(move |(id, mode, ops, prog)| Case { id, mode, ops: if twin { twins(ops) } else { ops }, prog })
            .boxed()
    }
}

// ------------------------------------------------------------- enumeration

/// All ordered forests with `n` nodes, as parent arrays in preorder.
pub fn forests(n: usize) -> Vec<Vec<Option<usize>>> {
    fn go(n: usize, cur: &mut Vec<Option<usize>>, out: &mut Vec<Vec<Option<usize>>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        // The next node in preorder is a child of the last node, of one of its ancestors, or a root.
        let mut p = cur.len().checked_sub(1);
        loop {
            cur.push(p);
            go(n, cur, out);
            cur.pop();
            match p {
                None => break,
                Some(x) => p = cur[x],
            }
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}

/// Operations that build a forest. Variant 1 creates the nodes in reverse order.
pub fn build_ops(parents: &[Option<usize>], variant: u8) -> Vec<Op> {
    let n = parents.len();
    let label = |i: usize| (i * 16) as u16;
    if variant == 0 {
        return parents
            .iter()
            .enumerate()
            .map(|(i, p)| match p {
                None => op(K_ROOT, 0, label(i), 0, 0),
                Some(p) => op(K_CREATE, *p as u16, label(i), 1, 0),
            })
            .collect();
    }
    // Breadth first, each child list from its end.
    let mut order: Vec<usize> = (0..n).rev().filter(|i| parents[*i].is_none()).collect();
    let mut k = 0;
    while k < order.len() {
        let x = order[k];
        k += 1;
        order.extend((0..n).rev().filter(|i| parents[*i] == Some(x)));
    }
    let pos = |x: usize| order.iter().position(|y| *y == x).unwrap() as u16;
    order
        .iter()
        .map(|i| match parents[*i] {
            None => op(K_ROOT, 0, label(*i), 0, 0),
            Some(p) => op(K_CREATE, pos(p), label(*i), 0, 1),
        })
        .collect()
}

/// As `build_ops`, but the node that comes `i`-th in preorder is created `perm[i]`-th.
pub fn build_perm(parents: &[Option<usize>], perm: &[usize]) -> Vec<Op> {
    let n = parents.len();
    let mut v: Vec<Op> = (0..n).map(|i| op(K_ROOT, 0, (i * 16) as u16, 0, 0)).collect();
    for (i, p) in parents.iter().enumerate() {
        if let Some(p) = p {
            v.push(op(K_INSERT, perm[i] as u16, (perm[*p] * 16) as u16, 1, 0));
        }
    }
    v
}

/// All orders of `n` things.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            v.push(q);
        }
    }
    v
}

/// Every single edit on a forest of `n` live nodes.
pub fn all_edits(n: usize, kinds: &[u8], routes: bool) -> Vec<Op> {
    let mut v = vec![];
    let n16 = n as u16;
    for k in kinds.iter().copied() {
        match k {
            K_ROOT => v.push(op(k, 0, 5, 0, 0)),
            K_CREATE => {
                for a in 0..n16 {
                    for w in 0..4 {
                        for d in 0..if routes { 2 } else { 1 } {
                            v.push(op(k, a, 3, w, d));
                        }
                    }
                }
            }
            K_INSERT => {
                for a in 0..n16 {
                    for b in 0..n16 {
                        for w in 0..4 {
                            for d in 0..if routes { 3 } else { 1 } {
                                v.push(op(k, a, b * 16, w, d));
                            }
                        }
                    }
                }
            }
            K_DETACH | K_DSINGLE => {
                for a in 0..n16 {
                    for d in 0..if routes { 2 } else { 1 } {
                        v.push(op(k, a, 0, 0, d));
                    }
                }
            }
            K_REMOVE => {
                for a in 0..n16 {
                    for c in 0..3 {
                        for d in 0..if routes { 2 } else { 1 } {
                            v.push(op(k, a, 0, c, d));
                        }
                    }
                }
            }
            K_RMPANIC => {
                for a in 0..n16 {
                    for b in 0..n16 {
                        v.push(op(k, a, b, 0, if routes { b % 2 } else { 0 }));
                    }
                }
            }
            K_CLONE => {
                for a in 0..n16 {
                    for d in 0..2 {
                        v.push(op(k, a, 0, 0, d));
                    }
                }
            }
            K_TOUCH => {
                for a in 0..n16 {
                    v.push(op(k, a, a, 0, 0));
                }
            }
            K_SET => {
                for a in 0..n16 {
                    for d in 0..if routes { 3 } else { 1 } {
                        v.push(op(k, a, 77, d % 2, d));
                    }
                }
            }
            _ => {}
        }
    }
    v
}
