//! C08 with data of many types: with and without `Drop`, of size zero, large, over-aligned,
//! with niches, and with values that look like absence.

use std::cell::Cell;
use std::fmt::Debug;
use std::num::NonZeroU8;
use std::rc::Rc;

use treena::dynamic::{DftEvent, Forest, NodeIdUsize};

use crate::base::*;
use crate::engine::*;
use crate::model::*;

type Id = NodeIdUsize;

thread_local! {
    static COUNT: Cell<i64> = const { Cell::new(0) };
}
fn count(by: i64) {
    COUNT.with(|c| c.set(c.get() + by))
}

pub trait Datum: Clone + Debug + 'static {
    const NAME: &'static str;
    /// Instances are counted.
    const COUNTED: bool = false;
    fn mk(v: u32) -> Self;
    fn is(&self, v: u32) -> bool;
}

macro_rules! datum {
    ($t:ty, $n:expr, |$v:ident| $mk:expr) => {
        impl Datum for $t {
            const NAME: &'static str = $n;
            fn mk($v: u32) -> Self {
                $mk
            }
            fn is(&self, $v: u32) -> bool {
                *self == $mk
            }
        }
    };
}
const WORDS: [&str; 5] = ["", "a", "two words", "b\nc", "\u{3042}"];
datum!((), "()", |_v| ());
datum!(u8, "u8", |v| v as u8);
datum!(bool, "bool", |v| v % 2 == 1);
datum!(u64, "u64", |v| v as u64 * 0x1_0000_0001);
datum!((u32, u16), "(u32, u16)", |v| (v, v as u16));
datum!(Option<u32>, "Option<u32>", |v| if v % 3 == 0 { None } else { Some(v) });
datum!(Option<()>, "Option<()>", |v| if v % 2 == 0 { None } else { Some(()) });
datum!(Result<u8, ()>, "Result<u8, ()>", |v| if v % 2 == 0 { Err(()) } else { Ok(v as u8) });
datum!(NonZeroU8, "NonZeroU8", |v| NonZeroU8::new(1 + (v % 255) as u8).unwrap());
datum!(&'static str, "&str", |v| WORDS[v as usize % 5]);
datum!(String, "String", |v| format!("{v}"));
datum!(Box<u32>, "Box<u32>", |v| Box::new(v));
datum!(Option<Box<u32>>, "Option<Box<u32>>", |v| if v % 3 == 0 { None } else { Some(Box::new(v)) });
datum!(Vec<u8>, "Vec<u8>", |v| vec![v as u8; v as usize % 4]);
datum!([u64; 40], "[u64; 40]", |v| std::array::from_fn(|i| v as u64 + i as u64));

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(64))]
pub struct Aligned(u32);
impl Datum for Aligned {
    const NAME: &'static str = "64-byte aligned";
    fn mk(v: u32) -> Self {
        Aligned(v)
    }
    fn is(&self, v: u32) -> bool {
        self.0 == v && self as *const Self as usize % 64 == 0
    }
}

/// No size, but a destructor.
#[derive(Debug)]
pub struct Zst;
impl Datum for Zst {
    const NAME: &'static str = "empty struct with Drop";
    const COUNTED: bool = true;
    fn mk(_: u32) -> Self {
        count(1);
        Zst
    }
    fn is(&self, _: u32) -> bool {
        true
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        Self::mk(0)
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        count(-1)
    }
}

#[derive(Debug)]
pub struct Inner(u32);
impl Drop for Inner {
    fn drop(&mut self) {
        count(-1)
    }
}
/// Not `Send`, with its destructor behind two pointers and a niche.
#[derive(Debug)]
pub struct Shared(Rc<Box<Inner>>);
impl Datum for Shared {
    const NAME: &'static str = "Rc<Box<_>>";
    const COUNTED: bool = true;
    fn mk(v: u32) -> Self {
        count(1);
        Shared(Rc::new(Box::new(Inner(v))))
    }
    fn is(&self, v: u32) -> bool {
        self.0 .0 == v && Rc::strong_count(&self.0) == 1
    }
}
impl Clone for Shared {
    fn clone(&self) -> Self {
        Self::mk(self.0 .0)
    }
}

struct Run<T> {
    f: Forest<Id, T>,
    ids: Vec<Id>,
    m: Model,
}

/// `Ok(false)`: something else than data went wrong, which other properties judge.
fn go<T: Datum>(ops: &[Op]) -> Result<bool, String> {
    COUNT.with(|c| c.set(0));
    let mut r: Run<T> = Run { f: Forest::new(), ids: vec![], m: Model::default() };
    for (i, o) in ops.iter().enumerate() {
        match step(&mut r, *o) {
            Ok(true) => {}
            other => return other.map_err(|m| format!("operation {i}: {m}")),
        }
        if !check(&mut r).map_err(|m| format!("after operation {i}: {m}"))? {
            return Ok(false);
        }
    }
    drop(r);
    if T::COUNTED {
        let n = COUNT.with(|c| c.get());
        if n != 0 {
            return Err(format!("{n} values are left when the forest is gone"));
        }
    }
    Ok(true)
}

fn add<T>(r: &mut Run<T>, id: Id, v: u32) -> usize {
    r.ids.push(id);
    r.m.add_root(0, v)
}

fn step<T: Datum>(r: &mut Run<T>, o: Op) -> Result<bool, String> {
    let alive = r.m.alive();
    let k = match o.k % NKINDS as u8 {
        K_CHAIN | K_NEST | K_NEWF | K_SWITCH | K_DROPF | K_MISUSE | K_TOUCH | K_BIG => return Ok(true),
        _ if alive.is_empty() => K_ROOT,
        k => k,
    };
    if r.ids.len() > 150 && matches!(k, K_CREATE | K_ROOT | K_CLONE | K_FOREIGN | K_GROW) {
        return Ok(true);
    }
    let n = pick(&alive, o.a).unwrap_or(0);
    let v = o.b as u32;
    match k {
        K_ROOT => {
            let id = r.f.create_root(T::mk(v));
            add(r, id, v);
        }
        K_CREATE | K_GROW => {
            for j in 0..if k == K_GROW { 1 + o.c as u32 % 30 } else { 1 } {
                let w = WHERES[o.c as usize % 4];
                let w = if r.m.create_allowed(n, w) { w } else { Where::LastChild };
                let id = if o.d % 2 == 0 {
                    r.f.create_insert(T::mk(v + j), ins(w, r.ids[n]))
                } else {
                    let Some(mut x) = r.f.node_mut(r.ids[n]) else { return Ok(false) };
                    x.create(T::mk(v + j), adp(w))
                };
                let i = add(r, id, v + j);
                r.m.insert(i, n, w);
            }
        }
        K_INSERT => {
            let a = relative(&r.m, &alive, n, o.b);
            let w = WHERES[o.c as usize % 4];
            let ok = r.m.insert_errors(n, a, w).is_empty();
            if r.f.insert(r.ids[n], ins(w, r.ids[a])).is_ok() != ok {
                return Ok(false);
            }
            if ok {
                r.m.insert(n, a, w);
            }
        }
        K_DETACH => {
            r.f.detach(r.ids[n]);
            r.m.detach(n);
        }
        K_DSINGLE => {
            let ok = r.m.detach_single_ok(n);
            if r.f.detach_single(r.ids[n]).is_ok() != ok {
                return Ok(false);
            }
            if ok {
                r.m.detach_single(n);
            }
        }
        K_REMOVE | K_PRUNE => {
            let id = r.ids[n];
            let mut got: Vec<T> = vec![];
            match (o.c % 3, o.d % 2) {
                (0, 0) => r.f.remove(id),
                (0, _) => match r.f.node_mut(id) {
                    Some(x) => x.remove(),
                    None => return Ok(false),
                },
                (1, _) => r.f.remove_hooked(id, |x| got.push(x)),
                _ => r.f.remove_hooked_panic_safe(id, |x| got.push(x)),
            }
            let post = r.m.remove(n);
            if o.c % 3 > 0 {
                if got.len() != post.len() {
                    return Err(format!("the hook got {} values of {}", got.len(), post.len()));
                }
                if let Some(k) = got.iter().zip(&post).position(|(x, i)| !x.is(r.m.nodes[*i].val)) {
                    return Err(format!("the hook got {:?} instead of the value {} of n{}", got[k], r.m.nodes[post[k]].val, post[k]));
                }
            }
        }
        K_RMPANIC => {
            let id = r.ids[n];
            let post = r.m.postorder(n);
            let stop = 1 + o.b as usize % post.len();
            let mut got: Vec<T> = vec![];
            let res = guard(|| {
                r.f.remove_hooked_panic_safe(id, |x| {
                    got.push(x);
                    if got.len() == stop {
                        panic!("{}", USER_PANIC);
                    }
                })
            });
            if !matches!(res, Err(ref p) if p.class == PanicClass::User) {
                return Ok(false);
            }
            for i in &post[..stop] {
                r.m.kill(*i);
            }
            if let Some(k) = got.iter().zip(&post).position(|(x, i)| !x.is(r.m.nodes[*i].val)) {
                return Err(format!("the hook got {:?} instead of the value of n{}", got[k], post[k]));
            }
            if r.m.nodes[n].alive && r.f.node(id).map_or(false, |x| x.parent_id().is_none()) {
                r.m.detach(n);
            }
        }
        K_SET => {
            let id = r.ids[n];
            let d = match o.d % 2 {
                0 => r.f.data_mut(id),
                _ => r.f.node_mut(id).map(|x| x.into_data_ref_mut()),
            };
            match d {
                Some(d) if o.c % 2 == 0 => *d = T::mk(v),
                Some(d) => {
                    let old = std::mem::replace(d, T::mk(v));
                    if !old.is(r.m.nodes[n].val) {
                        return Err(format!("replacing the value of n{n} gave back {old:?}"));
                    }
                }
                None => return Err(format!("n{n} has no value to set")),
            }
            r.m.nodes[n].val = v;
        }
        K_CLONE | K_FOREIGN | K_CLONEPANIC => {
            let src = r.m.preorder(n);
            if src.len() + r.ids.len() > 300 {
                return Ok(true);
            }
            let id = r.ids[n];
            let mut pairs = vec![];
            let root;
            if k == K_FOREIGN {
                // There and back.
                let mut g: Forest<Id, T> = Forest::new();
                let Some(s) = r.f.node(id) else { return Ok(false) };
                let far = g.clone_foreign_tree(s);
                let Some(s) = g.node(far) else { return Ok(false) };
                root = r.f.clone_foreign_tree(s);
            } else if o.d % 2 == 0 {
                root = r.f.clone_local_tree(id);
            } else {
                root = r.f.clone_local_tree_with_id_mapping(id, |a, b| pairs.push((a, b)));
            }
            let lim = 2 * src.len() + 4;
            let new: Vec<Id> = r.f.depth_first_traverse(root).take(lim)
                .filter_map(|e| match e { DftEvent::Open(n) => Some(n.id()), DftEvent::Close(_) => None }).collect();
            let fresh = new.iter().all(|i| !r.ids.contains(i));
            if new.len() != src.len() || !fresh {
                return Ok(false);
            }
            let base = r.ids.len();
            let place = |x: usize| base + src.iter().position(|y| *y == x).unwrap();
            for (s, id) in src.iter().zip(&new) {
                let v = r.m.nodes[*s].val;
                add(r, *id, v);
            }
            for s in &src {
                let ch: Vec<usize> = r.m.children(*s).iter().map(|c| place(*c)).collect();
                for c in &ch {
                    r.m.nodes[*c].parent = Some(place(*s));
                }
                r.m.nodes[place(*s)].children = ch;
            }
            for (a, b) in pairs {
                let v = r.ids.iter().position(|x| *x == a).map(|i| r.m.nodes[i].val);
                if let (Some(v), Some(d)) = (v, r.f.data(b)) {
                    if !d.is(v) {
                        return Err(format!("a copy holds {d:?} instead of value {v}"));
                    }
                }
            }
        }
        K_FORK => {
            let old = if o.d % 3 == 2 {
                let mut g: Forest<Id, T> = Forest::new();
                for j in 0..o.c as u32 % 9 {
                    let _ = g.create_root(T::mk(j));
                }
                g.clone_from(&r.f);
                std::mem::replace(&mut r.f, g)
            } else {
                let g = r.f.clone();
                std::mem::replace(&mut r.f, g)
            };
            if T::COUNTED {
                let (n, want) = (COUNT.with(|c| c.get()), 2 * r.m.nalive() as i64);
                if n != want {
                    return Err(format!("{n} values live while a forest of {} nodes exists twice", want / 2));
                }
            }
            drop(old);
        }
        _ => {}
    }
    Ok(true)
}

fn check<T: Datum>(r: &mut Run<T>) -> Result<bool, String> {
    for i in 0..r.ids.len() {
        let (id, n) = (r.ids[i], &r.m.nodes[i]);
        let a = r.f.node(id).map(|x| x.data().is(n.val));
        let b = r.f.data(id).map(|d| d.is(n.val));
        let e = n.alive.then_some(true);
        let c = r.f.data_mut(id).map(|d| d.is(n.val));
        let d = r.f.node_mut(id).map(|mut x| x.data().is(n.val) && x.data_mut().is(n.val));
        for (how, got) in [("node()", a), ("data()", b), ("data_mut()", c), ("node_mut()", d)] {
            if got != e {
                let s = |x: Option<bool>| match x {
                    None => "nothing",
                    Some(true) => "the value",
                    Some(false) => "another value",
                };
                return Err(format!("{how} of n{i} ({}) shows {} instead of {}", if n.alive { "alive" } else { "removed" }, s(got), s(e)));
            }
        }
    }
    if T::COUNTED {
        let (n, want) = (COUNT.with(|c| c.get()), r.m.nalive() as i64);
        if n != want {
            return Err(format!("{n} values live, but there are {want} nodes"));
        }
    }
    Ok(true)
}

const RUNS: [(&str, fn(&[Op]) -> Result<bool, String>); 18] = [
    ((<() as Datum>::NAME), go::<()>),
    (u8::NAME, go::<u8>),
    (Zst::NAME, go::<Zst>),
    (<Option<u32>>::NAME, go::<Option<u32>>),
    (Shared::NAME, go::<Shared>),
    (String::NAME, go::<String>),
    (<&'static str>::NAME, go::<&'static str>),
    (bool::NAME, go::<bool>),
    (u64::NAME, go::<u64>),
    (<(u32, u16)>::NAME, go::<(u32, u16)>),
    (<Option<()>>::NAME, go::<Option<()>>),
    (<Result<u8, ()>>::NAME, go::<Result<u8, ()>>),
    (NonZeroU8::NAME, go::<NonZeroU8>),
    (<Box<u32>>::NAME, go::<Box<u32>>),
    (<Option<Box<u32>>>::NAME, go::<Option<Box<u32>>>),
    (<Vec<u8>>::NAME, go::<Vec<u8>>),
    (<[u64; 40]>::NAME, go::<[u64; 40]>),
    (Aligned::NAME, go::<Aligned>),
];

/// Runs a history with data of a few types, chosen by `key`.
pub fn typed(ops: &[Op], key: u64, rec: &mut crate::rec::Rec) -> Res {
    for j in 0..2 {
        let (name, f) = RUNS[(key as usize / 8 + j * 7) % RUNS.len()];
        budget(step_limit(400) * 4);
        let r = guard(|| f(ops));
        budget(u64::MAX);
        match r {
            Ok(Ok(true)) => rec.class(&format!("data of type {name}")),
            Ok(Ok(false)) => rec.foreign("structure with another data type".to_string()),
            Err(p) => rec.foreign(format!("panic with another data type: {:?}", p.class)),
            Ok(Err(m)) => return fail(Cat::Data, format!("data of type {name}: {m}")),
        }
    }
    Ok(())
}
