//! Calls everything an iterator offers, at the start, in the middle and after the end, and hashes what comes out.

use std::hash::{Hash, Hasher};

pub type PeekFn<'f, I> = Option<&'f dyn Fn(&I) -> Option<<I as Iterator>::Item>>;

/// The consuming methods on copies.
fn copies<I, E, H>(it: &I, map: &dyn Fn(I::Item) -> E, code: usize, h: &mut H)
where
    I: Iterator + Clone,
    E: Hash,
    H: Hasher,
{
    it.size_hint().hash(h);
    it.clone().count().hash(h);
    it.clone().last().map(map).hash(h);
    for k in [0, 1, 2, 3 + code % 5, 16 + code % 7, 70, usize::MAX] {
        let mut c = it.clone();
        c.nth(k).map(map).hash(h);
        c.size_hint().hash(h);
        c.next().map(map).hash(h);
        c.nth(0).map(map).hash(h);
    }
    it.clone().fold(0u64, |a, x| {
        map(x).hash(h);
        a + 1
    }).hash(h);
    let mut n = 0usize;
    let mut c = it.clone();
    c.all(|x| {
        map(x).hash(h);
        n += 1;
        n < 4 + code % 9
    }).hash(h);
    c.next().map(map).hash(h);
    it.clone().step_by(2 + code % 3).for_each(|x| map(x).hash(h));
    it.clone().skip(code % 4).map(map).collect::<Vec<_>>().hash(h);
    it.clone().take(code % 6).map(map).collect::<Vec<_>>().hash(h);
    let mut p = it.clone().peekable();
    (p.peek().is_some(), p.next().is_some(), p.size_hint()).hash(h);
    let mut z = it.clone().zip(it.clone().skip(1));
    z.by_ref().take(3).for_each(|(a, b)| (map(a), map(b)).hash(h));
    it.clone().chain(it.clone()).count().hash(h);
}

fn back_copies<I, E, H>(it: &I, map: &dyn Fn(I::Item) -> E, code: usize, h: &mut H)
where
    I: DoubleEndedIterator + Clone,
    E: Hash,
    H: Hasher,
{
    for k in [0, 1, 2, 3 + code % 5, 16 + code % 7, 70, usize::MAX] {
        let mut c = it.clone();
        c.nth_back(k).map(map).hash(h);
        c.size_hint().hash(h);
        c.next_back().map(map).hash(h);
        c.next().map(map).hash(h);
    }
    it.clone().rev().count().hash(h);
    it.clone().rev().last().map(map).hash(h);
    it.clone().rfold(0u64, |a, x| {
        map(x).hash(h);
        a + 1
    }).hash(h);
    let mut n = 0usize;
    let mut c = it.clone();
    c.rfind(|_| {
        n += 1;
        n > 3 + code % 9
    }).map(map).hash(h);
    c.next_back().map(map).hash(h);
    c.next().map(map).hash(h);
    it.clone().rev().skip(code % 3).step_by(2).for_each(|x| map(x).hash(h));
}

/// A forward iterator. `small`: also the methods that go through everything again and again.
pub fn forward<I, E, H>(mk: &dyn Fn() -> I, map: &dyn Fn(I::Item) -> E, peek: PeekFn<'_, I>, lim: usize, code: usize, small: bool, h: &mut H)
where
    I: Iterator + Clone,
    E: Hash,
    H: Hasher,
{
    let mut it = mk();
    if small {
        copies(&it, map, code, h);
    }
    let stop = 1 + code / 3 % 11;
    for i in 0..lim {
        it.size_hint().hash(h);
        if let Some(p) = peek {
            p(&it).map(map).hash(h);
        }
        if i == stop && small {
            copies(&it, map, code / 7, h);
        }
        let x = it.next();
        let end = x.is_none();
        x.map(map).hash(h);
        if end {
            break;
        }
    }
    // At the end, unless the limit came first.
    it.size_hint().hash(h);
    it.next().map(map).hash(h);
    if let Some(p) = peek {
        p(&it).map(map).hash(h);
    }
    it.nth(code % 3).map(map).hash(h);
    it.size_hint().hash(h);
    if small {
        copies(&it, map, code, h);
    }
}

/// An iterator with two ends.
#[allow(clippy::too_many_arguments)]
pub fn both<I, E, H>(mk: &dyn Fn() -> I, map: &dyn Fn(I::Item) -> E, peek: PeekFn<'_, I>, peek_back: PeekFn<'_, I>, prog: &dyn Fn(usize) -> u16,
    lim: usize, code: usize, small: bool, h: &mut H)
where
    I: DoubleEndedIterator + Clone,
    E: Hash,
    H: Hasher,
{
    if small {
        copies(&mk(), map, code, h);
        back_copies(&mk(), map, code, h);
    }
    let mut it = mk();
    let stop = 1 + code / 3 % 11;
    for i in 0..lim {
        it.size_hint().hash(h);
        if let Some(p) = peek {
            p(&it).map(map).hash(h);
        }
        if let Some(p) = peek_back {
            p(&it).map(map).hash(h);
        }
        if i == stop && small {
            copies(&it, map, code / 7, h);
            back_copies(&it, map, code / 7, h);
        }
        let x = if prog(i) % 3 == 0 { it.next_back() } else { it.next() };
        let end = x.is_none();
        x.map(map).hash(h);
        if end {
            break;
        }
    }
    it.size_hint().hash(h);
    it.next().map(map).hash(h);
    it.next_back().map(map).hash(h);
    if let Some(p) = peek {
        p(&it).map(map).hash(h);
    }
    if let Some(p) = peek_back {
        p(&it).map(map).hash(h);
    }
    it.nth(code % 3).map(map).hash(h);
    it.nth_back(code % 3).map(map).hash(h);
    if small {
        copies(&it, map, code, h);
        back_copies(&it, map, code, h);
    }
    // Only from one end.
    if !small {
        mk().rev().take(lim).for_each(|x| map(x).hash(h));
        mk().take(lim).for_each(|x| map(x).hash(h));
    }
}
