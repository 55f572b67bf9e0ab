use core::num::NonZeroU8;

use triple_arena::{
    utils::{InternalEntry, NonZeroInxVec},
    Advancer, Arena, Ptr, Recast, Recaster,
};

use crate::{arena::any_freelist, harnesses, nd::*, no_growth_harnesses, pool, reach, tr};

pub type C = Chain<P, u8>;
pub type E = InternalEntry<P, Lk<P, u8>>;
pub const FREE: E = InternalEntry::Free(NonZeroU8::MIN);
type EP = InternalEntry<P, P>;
const FREEP: EP = InternalEntry::Free(NonZeroU8::MIN);
type EV = InternalEntry<P, u8>;
const FREEV: EV = InternalEntry::Free(NonZeroU8::MIN);

/// Slot `i + 1` is free if `g[i] == 0`, otherwise has generation `g[i]`, value
/// `v[i]` and the neighbour slots `prev[i]` and `next[i]` (0 for none)
#[derive(Clone, Copy)]
pub struct Ch<const M: usize> {
    pub cap: usize,
    pub generation: u8,
    pub g: [u8; M],
    pub v: [u8; M],
    pub prev: [u8; M],
    pub next: [u8; M],
}

impl<const M: usize> Ch<M> {
    pub fn len(&self) -> usize {
        let mut n = 0;
        for i in 0..M {
            if self.g[i] != 0 {
                n += 1;
            }
        }
        n
    }

    pub fn slot(&self, p: P) -> Option<usize> {
        let i = p.inx().get() as usize - 1;
        if i < M && self.g[i] != 0 && self.g[i] == p.generation().get() {
            Some(i)
        } else {
            None
        }
    }

    /// The slot of an interlink given by the user
    pub fn lslot(&self, l: L) -> Option<usize> {
        let i = l_inx(l) as usize - 1;
        if i < M && self.g[i] != 0 && is(l, i as u8 + 1, self.g[i]) {
            Some(i)
        } else {
            None
        }
    }

    /// The pointer to slot number `s`
    pub fn link_p(&self, s: u8) -> Option<P> {
        if s == 0 {
            None
        } else {
            Some(mk(s, self.g[s as usize - 1]))
        }
    }

    fn link_is(&self, l: Option<L>, s: u8) -> bool {
        match l {
            None => s == 0,
            Some(l) => s != 0 && is(l, s, self.g[s as usize - 1]),
        }
    }

    /// If the interlinks are mutual
    pub fn consistent(&self) -> bool {
        let mut ok = true;
        for i in 0..M {
            let me = i as u8 + 1;
            if self.g[i] != 0 {
                let (u, d) = (self.prev[i] as usize, self.next[i] as usize);
                if u > M || d > M {
                    ok = false;
                } else {
                    if d != 0 && (self.g[d - 1] == 0 || self.prev[d - 1] != me) {
                        ok = false;
                    }
                    if u != 0 && (self.g[u - 1] == 0 || self.next[u - 1] != me) {
                        ok = false;
                    }
                }
            }
        }
        ok
    }

    fn set(&mut self, i: usize, v: u8, prev: u8, next: u8) {
        self.g[i] = self.generation;
        self.v[i] = v;
        self.prev[i] = prev;
        self.next[i] = next;
    }

    /// Joins `u` to `d` (slot numbers, 0 for none)
    fn join(&mut self, u: u8, d: u8) {
        if u != 0 {
            self.next[u as usize - 1] = d;
        }
        if d != 0 {
            self.prev[d as usize - 1] = u;
        }
    }
}

/// An arbitrary state with capacity `N`. With `consistent` false the interlinks
/// are arbitrary.
pub fn raw_state<const N: usize, const M: usize>(consistent: bool) -> (Arena<P, Lk<P, u8>>, Ch<M>) {
    raw_state_len::<N, M>(consistent, None, ndr(2, 255))
}

fn raw_state_len<const N: usize, const M: usize>(
    consistent: bool,
    len: Option<usize>,
    generation: u8,
) -> (Arena<P, Lk<P, u8>>, Ch<M>) {
    let mut m = Ch {
        cap: N,
        generation,
        g: [0; M],
        v: [0; M],
        prev: [0; M],
        next: [0; M],
    };
    let mut free = [true; N];
    for i in 0..N {
        if ndb() {
            free[i] = false;
            m.g[i] = ndr(2, generation);
            m.v[i] = nd();
            m.prev[i] = ndr(0, N as u8);
            m.next[i] = ndr(0, N as u8);
        }
    }
    if consistent {
        assume(m.consistent());
    }
    let (root, next) = any_freelist::<N>(&free);
    let mut vec = NonZeroInxVec::<E>::new();
    for i in 0..N {
        vec.push(if free[i] {
            InternalEntry::Free(nz(next[i]))
        } else {
            let l = |s: u8| {
                if s == 0 {
                    None
                } else {
                    // free slots have no generation
                    let g = m.g[s as usize - 1];
                    Some(lp(s, if g == 0 { 2 } else { g }))
                }
            };
            InternalEntry::Allocated(nz(m.g[i]), Lk::new((l(m.prev[i]), l(m.next[i])), m.v[i]))
        });
    }
    let len = match len {
        Some(len) => {
            assume(m.len() == len);
            len
        }
        None => m.len(),
    };
    let a = Arena::_from_raw_parts(vec, len, NonZeroU8::new(root), nz(generation));
    (a, m)
}

pub fn any_chain<const N: usize, const M: usize>() -> (C, Ch<M>) {
    let (a, m) = raw_state::<N, M>(true);
    (C::_from_raw_parts(a), m)
}

/// With a concrete number of entries
fn any_chain_len<const N: usize, const LEN: usize>() -> (C, Ch<N>) {
    let (a, m) = raw_state_len::<N, N>(true, Some(LEN), ndr(2, 255));
    assume(m.generation < 255);
    (C::_from_raw_parts(a), m)
}

pub fn check<const M: usize>(c: &C, m: &Ch<M>) {
    assert!(m.consistent(), "links are not mutual");
    assert!(c.len() == m.len(), "len");
    assert!(c.is_empty() == (m.len() == 0), "is_empty");
    assert!(c.capacity() == m.cap, "capacity");
    assert!(c.generation().get() == m.generation, "generation");
    for i in 0..M {
        match c.get_no_gen(nz(i as u8 + 1)) {
            Some((g, link)) => {
                assert!(m.g[i] != 0, "entry that should be free");
                assert!(g.get() == m.g[i], "generation of entry");
                assert!(link.t == m.v[i], "value of entry");
                assert!(m.link_is(link.prev(), m.prev[i]), "previous link");
                assert!(m.link_is(link.next(), m.next[i]), "next link");
            }
            None => assert!(m.g[i] == 0, "missing entry"),
        }
    }
    let p = any_ptr();
    let s = m.slot(p);
    assert!(c.contains(p) == s.is_some(), "contains");
    match c.get_link(p) {
        Some(l) => {
            let i = s.unwrap();
            assert!(l.t == m.v[i] && m.link_is(l.prev(), m.prev[i]) && m.link_is(l.next(), m.next[i]), "get_link");
        }
        None => assert!(s.is_none(), "get_link"),
    }
}

/// All remaining capacity is usable
pub fn exhaust<const M: usize>(c: &mut C, m: &mut Ch<M>) {
    let f = m.cap - m.len();
    for k in 0..M {
        if k < f {
            let v = nd();
            let p = c.insert_new(v);
            placed(m, p, v, 0, 0);
        }
    }
    check(c, m);
}

fn placed<const M: usize>(m: &mut Ch<M>, p: P, v: u8, prev: u8, next: u8) {
    let i = p.inx().get() as usize - 1;
    assert!(i < m.cap, "index in capacity");
    assert!(m.g[i] == 0, "insertion on an used slot");
    assert!(p.generation().get() == m.generation, "generation of insert");
    m.set(i, v, prev, next);
    m.join(prev, i as u8 + 1);
    m.join(i as u8 + 1, next);
}

/// Accounts for growth at an insertion
fn grow<const N: usize, const M: usize>(c: &C, m: &mut Ch<M>) {
    if m.len() == m.cap {
        assert!(c.capacity() > m.cap, "grown");
        m.cap = c.capacity();
        assume(m.cap <= M);
    }
}

/// Which calls a mapping function got
pub struct Log<const M: usize> {
    seen: [u8; M],
    bad: bool,
}

impl<const M: usize> Log<M> {
    pub fn new() -> Self {
        Log {
            seen: [0; M],
            bad: false,
        }
    }

    pub fn once(&mut self, m: &Ch<M>, p: P, v: u8) {
        match m.slot(p) {
            Some(i) => {
                self.seen[i] += 1;
                if m.v[i] != v {
                    self.bad = true;
                }
            }
            None => self.bad = true,
        }
    }

    pub fn link(&mut self, m: &Ch<M>, p: P, l: &Lk<P, u8>) {
        self.once(m, p, l.t);
        if let Some(i) = m.slot(p) {
            if !m.link_is(l.prev(), m.prev[i]) || !m.link_is(l.next(), m.next[i]) {
                self.bad = true;
            }
        }
    }

    pub fn done(&self, m: &Ch<M>) {
        assert!(!self.bad, "wrong entry");
        for i in 0..M {
            assert!(self.seen[i] == (m.g[i] != 0) as u8, "every entry exactly once");
        }
    }
}

fn fin(c: C) {
    core::mem::forget(c)
}

/// `kind`: 0 `insert`, 1 `insert_with`, 2 `ArenaTrait::insert`
fn insert<const N: usize, const M: usize>(kind: u8) {
    let (mut c, mut m) = any_chain::<N, M>();
    let (l0, l1) = (any_l(), any_l());
    let prev = if ndb() { Some(l0) } else { None };
    let next = if ndb() { Some(l1) } else { None };
    let v = nd();
    // what should happen
    let exp: Option<(u8, u8)> = match (prev, next) {
        (None, None) => Some((0, 0)),
        (Some(a), None) => m.lslot(a).map(|i| (i as u8 + 1, m.next[i])),
        (None, Some(b)) => m.lslot(b).map(|i| (m.prev[i], i as u8 + 1)),
        (Some(a), Some(b)) => match (m.lslot(a), m.lslot(b)) {
            (Some(i), Some(j)) if m.next[i] == j as u8 + 1 => Some((i as u8 + 1, j as u8 + 1)),
            _ => None,
        },
    };
    let mut given = None;
    let r = if kind == 2 {
        // panics otherwise
        assume(exp.is_some());
        Some(tr::insert(&mut c, Lk::new((prev, next), v)))
    } else if kind == 0 {
        match c.insert((prev, next), v) {
            Ok(p) => Some(p),
            Err(e) => {
                assert!(e == v);
                None
            }
        }
    } else {
        let r = c.insert_with((prev, next), |p| {
            given = Some(p);
            v
        });
        assert!(given == r, "argument of create");
        r
    };
    assert!(r.is_some() == exp.is_some(), "result");
    reach!(r.is_some() && prev.is_some() && next.is_some(), "between");
    if let Some((u, d)) = exp {
        grow::<N, M>(&c, &mut m);
        placed(&mut m, r.unwrap(), v, u, d);
    }
    check(&c, &m);
    fin(c);
}

fn insert_new<const N: usize, const M: usize>() {
    let (mut c, mut m) = any_chain::<N, M>();
    let v = nd();
    let mut given = None;
    let kind = ndr(0, 3);
    let p = match kind {
        0 => c.insert_new(v),
        1 => c.insert_new_with(|p| {
            given = Some(p);
            v
        }),
        2 => c.insert_new_cyclic(v),
        _ => c.insert_new_cyclic_with(|p| {
            given = Some(p);
            v
        }),
    };
    assert!(given == if kind == 1 || kind == 3 { Some(p) } else { None });
    grow::<N, M>(&c, &mut m);
    let me = if kind >= 2 { p.inx().get() } else { 0 };
    placed(&mut m, p, v, 0, 0);
    if kind >= 2 {
        m.join(me, me);
    }
    check(&c, &m);
    fin(c);
}

fn insert_start_end<const N: usize, const M: usize>(end: bool) {
    let (mut c, mut m) = any_chain::<N, M>();
    let p = any_ptr();
    let v = nd();
    let r = if end { c.insert_end(p, v) } else { c.insert_start(p, v) };
    let ok = match m.slot(p) {
        Some(i) => (if end { m.next[i] } else { m.prev[i] }) == 0,
        None => false,
    };
    match r {
        Ok(q) => {
            assert!(ok, "not an end");
            grow::<N, M>(&c, &mut m);
            let me = p.inx().get();
            if end {
                placed(&mut m, q, v, me, 0);
            } else {
                placed(&mut m, q, v, 0, me);
            }
        }
        Err(e) => assert!(!ok && e == v, "refused"),
    }
    check(&c, &m);
    fin(c);
}

fn access<const N: usize>() {
    let (mut c, mut m) = any_chain::<N, N>();
    let (p0, p1) = (any_ptr(), any_ptr());
    let (s0, s1) = (m.slot(p0), m.slot(p1));
    let n = match (s0, s1) {
        (Some(i), Some(j)) => m.next[i] == j as u8 + 1,
        _ => false,
    };
    assert!(c.are_neighbors(p0, p1) == n, "are_neighbors");
    match c.get(p0) {
        Some(v) => assert!(*v == m.v[s0.unwrap()]),
        None => assert!(s0.is_none()),
    }
    match c.get_mut(p0) {
        Some(v) => {
            assert!(*v == m.v[s0.unwrap()]);
            *v = 1;
            m.v[s0.unwrap()] = 1;
        }
        None => assert!(s0.is_none()),
    }
    match c.get_link_mut(p1) {
        Some(l) => {
            let i = s1.unwrap();
            assert!(*l.t == m.v[i] && m.link_is(l.prev(), m.prev[i]) && m.link_is(l.next(), m.next[i]));
            *l.t = 2;
            m.v[i] = 2;
        }
        None => assert!(s1.is_none()),
    }
    let two = s0.is_some() && s1.is_some() && s0 != s1;
    match c.get2_mut(p0, p1) {
        Some((a, b)) => {
            assert!(two);
            assert!(*a == m.v[s0.unwrap()] && *b == m.v[s1.unwrap()]);
            *a = 3;
            *b = 4;
            m.v[s0.unwrap()] = 3;
            m.v[s1.unwrap()] = 4;
        }
        None => assert!(!two),
    }
    match c.get2_link_mut(p0, p1) {
        Some((a, b)) => {
            assert!(two);
            let (i, j) = (s0.unwrap(), s1.unwrap());
            assert!(*a.t == m.v[i] && m.link_is(a.prev(), m.prev[i]) && m.link_is(a.next(), m.next[i]));
            assert!(*b.t == m.v[j] && m.link_is(b.prev(), m.prev[j]) && m.link_is(b.next(), m.next[j]));
            *a.t = 5;
            *b.t = 6;
            m.v[i] = 5;
            m.v[j] = 6;
        }
        None => assert!(!two),
    }
    if let Some(i) = s0 {
        assert!(c[p0] == m.v[i]);
        c[p0] = 7;
        m.v[i] = 7;
    }
    check(&c, &m);
    fin(c);
}

/// The rest of `ArenaTrait`
fn generic<const N: usize>() {
    let n: C = tr::new();
    assert!(n.len() == 0 && n.capacity() == 0 && n.generation().get() == 2, "new");
    let (mut c, mut m) = any_chain::<N, N>();
    assert!(tr::len(&c) == m.len() && tr::is_empty(&c) == (m.len() == 0), "len");
    assert!(tr::capacity(&c) == m.cap, "capacity");
    assert!(tr::generation(&c).get() == m.generation, "generation");
    let p = any_ptr();
    let s = m.slot(p);
    assert!(tr::contains(&c, p) == s.is_some(), "contains");
    match tr::get(&c, p) {
        Some(l) => {
            let i = s.unwrap();
            assert!(l.t == m.v[i] && m.link_is(l.prev(), m.prev[i]) && m.link_is(l.next(), m.next[i]), "get");
        }
        None => assert!(s.is_none(), "get"),
    }
    match tr::get_mut(&mut c, p) {
        Some(l) => {
            let i = s.unwrap();
            assert!(*l.t == m.v[i] && m.link_is(l.prev(), m.prev[i]) && m.link_is(l.next(), m.next[i]), "get_mut");
            *l.t = 2;
            m.v[i] = 2;
        }
        None => assert!(s.is_none(), "get_mut"),
    }
    let (mut x, mut y) = (tr::advancer(&c), c.advancer());
    for _ in 0..=N {
        assert!(x.advance(&c) == y.advance(&c), "advancer");
    }
    check(&c, &m);
    fin(c);
}

fn remove<const N: usize>(generic: bool) {
    let (mut c, mut m) = any_chain::<N, N>();
    let p = any_ptr();
    let s = m.slot(p);
    assume(m.generation < 255 || s.is_none());
    let r = if generic { tr::remove(&mut c, p) } else { c.remove(p) };
    match s {
        Some(i) => {
            match r {
                Some(l) => assert!(
                    l.t == m.v[i] && m.link_is(l.prev(), m.prev[i]) && m.link_is(l.next(), m.next[i]),
                    "removed link"
                ),
                None => assert!(false, "not removed"),
            }
            m.generation += 1;
            m.g[i] = 0;
            if m.prev[i] != i as u8 + 1 {
                let (u, d) = (m.prev[i], m.next[i]);
                m.join(u, 0);
                m.join(0, d);
                m.join(u, d);
            }
        }
        None => assert!(r.is_none()),
    }
    check(&c, &m);
    fin(c);
}

/// The slots in the chain of `i` in advancement order, 0 terminated
fn chain_of<const N: usize>(m: &Ch<N>, i: usize) -> ([u8; N], usize) {
    let mut res = [0; N];
    let mut n = 0;
    let me = i as u8 + 1;
    let mut cur = me;
    let mut cyclic = false;
    for _ in 0..N {
        if cur != 0 {
            res[n] = cur;
            n += 1;
            cur = m.next[cur as usize - 1];
            if cur == me {
                cyclic = true;
                cur = 0;
            }
        }
    }
    if !cyclic {
        cur = m.prev[i];
        for _ in 0..N {
            if cur != 0 {
                res[n] = cur;
                n += 1;
                cur = m.prev[cur as usize - 1];
            }
        }
    }
    (res, n)
}

fn remove_chain<const N: usize>() {
    let (mut c, mut m) = any_chain::<N, N>();
    let p = any_ptr();
    let s = m.slot(p);
    assume(m.generation < 255 || s.is_none());
    let r = c.remove_chain(p);
    match s {
        Some(i) => {
            let (list, n) = chain_of(&m, i);
            assert!(r == Some(n), "number of removed links");
            for k in 0..N {
                if k < n {
                    m.g[list[k] as usize - 1] = 0;
                }
            }
            assert!(c.generation().get() > m.generation, "removed pointers must be invalid");
            m.generation += 1;
        }
        None => assert!(r.is_none()),
    }
    check(&c, &m);
    fin(c);
}

/// 0 `advancer_chain`, 1 `iter_chain`
fn traverse<const N: usize>(kind: u8) {
    let (c, m) = any_chain::<N, N>();
    let p = any_l();
    let (list, n) = match m.lslot(p) {
        Some(i) => chain_of(&m, i),
        None => ([0; N], 0),
    };
    let mut k = 0;
    if kind == 0 {
        let mut adv = c.advancer_chain(p);
        while let Some(q) = adv.advance(&c) {
            assert!(k < n, "too many");
            let i = list[k] as usize;
            assert!(q == mk(i as u8, m.g[i - 1]), "order");
            k += 1;
        }
    } else {
        for (q, l) in c.iter_chain(p) {
            assert!(k < n, "too many");
            let i = list[k] as usize;
            assert!(q == mk(i as u8, m.g[i - 1]), "order");
            let i = i - 1;
            assert!(l.t == m.v[i] && m.link_is(l.prev(), m.prev[i]) && m.link_is(l.next(), m.next[i]), "link");
            k += 1;
        }
    }
    assert!(k == n, "ended early");
    fin(c);
}

fn invalidate<const N: usize>(replace: bool) {
    let (mut c, mut m) = any_chain::<N, N>();
    let p = any_ptr();
    let s = m.slot(p);
    let v = nd();
    assume(m.generation < 255 || s.is_none());
    let r = if replace {
        match c.replace_and_update_gen(p, v) {
            Ok((old, q)) => {
                assert!(s.is_some() && old == m.v[s.unwrap()], "old value");
                m.v[s.unwrap()] = v;
                Some(q)
            }
            Err(e) => {
                assert!(e == v);
                None
            }
        }
    } else {
        c.invalidate(p)
    };
    match s {
        Some(i) => {
            m.generation += 1;
            m.g[i] = m.generation;
            assert!(r == Some(mk(i as u8 + 1, m.generation)), "new pointer");
        }
        None => assert!(r.is_none()),
    }
    check(&c, &m);
    fin(c);
}

fn replace_keep<const N: usize>() {
    let (mut c, mut m) = any_chain::<N, N>();
    let p = any_ptr();
    let s = m.slot(p);
    let v = nd();
    match c.replace_and_keep_gen(p, v) {
        Ok(old) => {
            assert!(s.is_some() && old == m.v[s.unwrap()]);
            m.v[s.unwrap()] = v;
        }
        Err(e) => assert!(s.is_none() && e == v),
    }
    check(&c, &m);
    fin(c);
}

fn swap<const N: usize>() {
    let (mut c, mut m) = any_chain::<N, N>();
    let (p0, p1) = (any_ptr(), any_ptr());
    let r = c.swap(p0, p1);
    match (m.slot(p0), m.slot(p1)) {
        (Some(i), Some(j)) => {
            assert!(r == Some(()));
            let t = m.v[i];
            m.v[i] = m.v[j];
            m.v[j] = t;
        }
        _ => assert!(r.is_none()),
    }
    check(&c, &m);
    fin(c);
}

fn connect<const N: usize>() {
    let (mut c, mut m) = any_chain::<N, N>();
    let (p0, p1) = (any_ptr(), any_ptr());
    let r = c.connect(p0, p1);
    match (m.slot(p0), m.slot(p1)) {
        (Some(i), Some(j)) if m.next[i] == 0 && m.prev[j] == 0 => {
            assert!(r == Some(()));
            m.join(i as u8 + 1, j as u8 + 1);
        }
        _ => assert!(r.is_none()),
    }
    check(&c, &m);
    fin(c);
}

fn break_<const N: usize>(next: bool) {
    let (mut c, mut m) = any_chain::<N, N>();
    let p = any_ptr();
    let r = if next { c.break_next(p) } else { c.break_prev(p) };
    match m.slot(p) {
        Some(i) if (if next { m.next[i] } else { m.prev[i] }) != 0 => {
            assert!(r == Some(()));
            if next {
                let d = m.next[i];
                m.next[i] = 0;
                m.prev[d as usize - 1] = 0;
            } else {
                let u = m.prev[i];
                m.prev[i] = 0;
                m.next[u as usize - 1] = 0;
            }
        }
        _ => assert!(r.is_none()),
    }
    check(&c, &m);
    fin(c);
}

fn exchange_next<const N: usize>() {
    let (mut c, mut m) = any_chain::<N, N>();
    let (p0, p1) = (any_ptr(), any_ptr());
    let r = c.exchange_next(p0, p1);
    match (m.slot(p0), m.slot(p1)) {
        (Some(i), Some(j)) if m.next[i] != 0 && m.next[j] != 0 => {
            assert!(r == Some(()));
            let (d0, d1) = (m.next[i], m.next[j]);
            m.next[i] = d1;
            m.next[j] = d0;
            m.prev[d1 as usize - 1] = i as u8 + 1;
            m.prev[d0 as usize - 1] = j as u8 + 1;
        }
        _ => assert!(r.is_none()),
    }
    check(&c, &m);
    fin(c);
}

fn clear<const N: usize>(shrink: bool, generic: bool) {
    let (mut c, mut m) = any_chain::<N, N>();
    assume(m.generation < 255);
    if shrink {
        if generic {
            tr::clear_and_shrink(&mut c);
        } else {
            c.clear_and_shrink();
        }
        m.cap = 0;
    } else if generic {
        tr::clear(&mut c);
    } else {
        c.clear();
    }
    m.generation += 1;
    m.g = [0; N];
    check(&c, &m);
    fin(c);
}

/// `new[i]` is where slot `i` went
fn check_compressed<const M: usize>(c: &mut C, m: &Ch<M>, new: &[u8; M]) {
    let n = m.len();
    let mut m2 = Ch::<M> {
        cap: n,
        generation: m.generation + 1,
        g: [0; M],
        v: [0; M],
        prev: [0; M],
        next: [0; M],
    };
    let to = |s: u8| if s == 0 { 0 } else { new[s as usize - 1] };
    for i in 0..M {
        if m.g[i] != 0 {
            let j = new[i] as usize;
            assert!(j >= 1 && j <= n, "entry not moved into 1..=len");
            assert!(m2.g[j - 1] == 0, "two entries moved to the same index");
            m2.set(j - 1, m.v[i], to(m.prev[i]), to(m.next[i]));
        }
    }
    check(c, &m2);
}

fn compress<const N: usize>((mut c, mut m): (C, Ch<N>)) {
    let mut new = [0u8; N];
    let mut log = Log::new();
    let mut bad = false;
    c.compress_and_shrink_with(|p, v, q| {
        log.once(&m, p, *v);
        if let Some(i) = m.slot(p) {
            new[i] = q.inx().get();
        }
        if q.generation().get() != m.generation + 1 {
            bad = true;
        }
        *v = !*v;
    });
    assert!(!bad, "generation of new pointer");
    log.done(&m);
    for i in 0..N {
        m.v[i] = !m.v[i];
    }
    check_compressed(&mut c, &m, &new);
    fin(c);
}

/// Recasting the values
fn recast<const N: usize>() {
    let (mut c, mut m) = any_chain::<N, N>();
    let mut ok = true;
    for i in 0..N {
        if m.g[i] != 0 {
            ok &= m.v[i] != 9;
            m.v[i] ^= 0x80;
        }
    }
    let r = c.recast(&Flip);
    assert!(r == if ok { Ok(()) } else { Err(9) }, "result");
    if ok {
        check(&c, &m);
    }
    reach!(!ok, "not recast");
    core::mem::forget(c);
}

fn recaster<const N: usize>((mut c, m): (C, Ch<N>)) {
    let r = c.compress_and_shrink_recaster();
    let mut new = [0u8; N];
    for i in 0..N {
        if m.g[i] != 0 {
            let mut p = mk(i as u8 + 1, m.g[i]);
            assert!(r.recast_item(&mut p).is_ok(), "valid pointer rejected");
            assert!(p.generation().get() == m.generation + 1, "recast generation");
            new[i] = p.inx().get();
        }
    }
    let q0 = any_ptr();
    let mut q = q0;
    if m.slot(q0).is_none() {
        assert!(r.recast_item(&mut q) == Err(q0) && q == q0, "invalid pointer accepted");
    }
    check_compressed(&mut c, &m, &new);
    fin(c);
    core::mem::forget(r);
}

fn compress_plain<const N: usize>((mut c, m): (C, Ch<N>)) {
    for i in 0..N {
        if m.g[i] != 0 {
            assume(m.v[i] as usize / 16 == i);
        }
    }
    c.compress_and_shrink();
    let mut new = [0u8; N];
    for i in 0..N {
        if let Some((_, l)) = c.get_no_gen(nz(i as u8 + 1)) {
            let s = l.t as usize / 16;
            assert!(s < N && new[s] == 0, "unknown value");
            new[s] = i as u8 + 1;
        }
    }
    check_compressed(&mut c, &m, &new);
    fin(c);
}

/// 0 clone, 1 clone_from, 2 clone_from_with
fn clone<const S: usize, const D: usize, const M: usize>(kind: u8) {
    let (s, ms) = any_chain::<S, M>();
    let (mut d, _) = any_chain::<D, M>();
    let mut m = ms;
    m.cap = M;
    match kind {
        0 => {
            core::mem::forget(d);
            m.cap = S;
            d = s.clone();
        }
        1 => d.clone_from(&s),
        _ => {
            let mut log = Log::new();
            d.clone_from_with(&s, |p, l: &Lk<P, u8>| {
                log.link(&ms, p, l);
                !l.t
            });
            log.done(&ms);
            for i in 0..M {
                m.v[i] = !m.v[i];
            }
        }
    }
    assert!(d.capacity() >= m.cap);
    m.cap = d.capacity();
    assume(m.cap <= M);
    check(&d, &m);
    check(&s, &ms);
    exhaust(&mut d, &mut m);
    check(&s, &ms);
    fin(s);
    fin(d);
}

fn to_arena<const S: usize, const D: usize, const M: usize>() {
    let (s, m) = any_chain::<S, M>();
    let mut d: Arena<P, u8> = Arena::new();
    for _ in 0..D {
        d.insert(1);
    }
    let mut log = Log::new();
    s.clone_to_arena(&mut d, |p, l: &Lk<P, u8>| {
        log.link(&m, p, l);
        !l.t
    });
    log.done(&m);
    assert!(d.len() == m.len() && d.generation().get() == m.generation);
    assert!(d.capacity() >= S && d.capacity() >= D);
    for i in 0..M {
        match d.get_no_gen(nz(i as u8 + 1)) {
            Some((g, v)) => assert!(g.get() == m.g[i] && *v == !m.v[i], "entry"),
            None => assert!(m.g[i] == 0, "missing entry"),
        }
    }
    let f = d.capacity() - d.len();
    for k in 0..M {
        if k < f {
            assert!(d.try_insert(0).is_ok());
        }
    }
    assert!(d.try_insert(0).is_err());
    check(&s, &m);
    fin(s);
    core::mem::forget(d);
}

/// Accepts exactly the arenas with mutual interlinks
fn from_arena<const N: usize>() {
    let (a, m) = raw_state::<N, N>(false);
    let ok = m.consistent();
    match C::from_arena(a) {
        Ok(c) => {
            assert!(ok, "accepted inconsistent interlinks");
            check(&c, &m);
            fin(c);
        }
        Err(_) => assert!(!ok, "rejected consistent interlinks"),
    }
}

fn eq<const S: usize, const D: usize, const M: usize>() {
    let (a, ma) = any_chain::<S, M>();
    let (b, mb) = any_chain::<D, M>();
    let mut same = true;
    for i in 0..M {
        if ma.g[i] != mb.g[i] {
            same = false;
        }
        if ma.g[i] != 0 && (ma.v[i] != mb.v[i] || ma.prev[i] != mb.prev[i] || ma.next[i] != mb.next[i]) {
            same = false;
        }
    }
    reach!(same && ma.len() > 1, "equal");
    assert!((a == b) == same, "equality");
    fin(a);
    fin(b);
}

fn iters<const N: usize>(kind: u8) {
    let (mut c, mut m) = any_chain::<N, N>();
    let mut log = Log::new();
    match kind {
        0 => {
            let mut adv = c.advancer();
            while let Some(p) = adv.advance(&c) {
                let v = *c.get(p).unwrap();
                log.once(&m, p, v);
            }
        }
        1 => {
            for p in c.ptrs() {
                let v = *c.get(p).unwrap();
                log.once(&m, p, v);
            }
        }
        2 => {
            for (p, l) in c.iter() {
                log.link(&m, p, l);
            }
        }
        3 => {
            for (p, l) in &c {
                log.link(&m, p, l);
            }
        }
        4 => {
            for (p, l) in c.iter_mut() {
                log.link(&m, p, &Lk::new(l.prev_next(), *l.t));
                *l.t = !*l.t;
            }
        }
        5 => {
            for (p, l) in &mut c {
                log.link(&m, p, &Lk::new(l.prev_next(), *l.t));
                *l.t = !*l.t;
            }
        }
        _ => {
            // values identify the slots
            for i in 0..N {
                if m.g[i] != 0 {
                    assume(m.v[i] as usize / 16 == i);
                }
            }
            if kind == 6 {
                for l in c.vals() {
                    let i = l.t as usize / 16;
                    assert!(i < N && m.g[i] != 0);
                    log.link(&m, mk(i as u8 + 1, m.g[i]), l);
                }
            } else {
                for l in c.vals_mut() {
                    let i = *l.t as usize / 16;
                    assert!(i < N && m.g[i] != 0);
                    log.link(&m, mk(i as u8 + 1, m.g[i]), &Lk::new(l.prev_next(), *l.t));
                    *l.t = !*l.t;
                }
            }
        }
    }
    log.done(&m);
    if kind == 4 || kind == 5 || kind == 7 {
        for i in 0..N {
            m.v[i] = !m.v[i];
        }
    }
    check(&c, &m);
    fin(c);
}

fn drain<const N: usize>() {
    let (mut c, mut m) = any_chain::<N, N>();
    assume(m.generation < 254);
    let n = m.len();
    let k = ndr(0, N as u8 + 1) as usize;
    let mut log = Log::new();
    let mut cnt = 0;
    {
        let mut d = c.drain();
        for step in 0..N + 1 {
            if step < k {
                match d.next() {
                    Some((p, l)) => {
                        log.link(&m, p, &l);
                        cnt += 1;
                    }
                    None => assert!(cnt == n, "ended early"),
                }
            }
        }
    }
    if k >= n {
        log.done(&m);
    }
    assert!(!log.bad);
    assert!(cnt == if k < n { k } else { n });
    assert!(c.generation().get() > m.generation, "old pointers must be invalid");
    m.generation = c.generation().get();
    m.g = [0; N];
    check(&c, &m);
    exhaust(&mut c, &mut m);
    fin(c);
}

fn into_iter<const N: usize>(capacity: bool) {
    let (c, m) = any_chain::<N, N>();
    let mut log = Log::new();
    if capacity {
        for (p, l) in c.capacity_drain() {
            log.link(&m, p, &l);
        }
    } else {
        for (p, l) in c {
            log.link(&m, p, &l);
        }
    }
    log.done(&m);
}

fn from_iter<const N: usize>() {
    let mut vals = [0u8; N];
    for i in 0..N {
        vals[i] = nd();
        assume(vals[i] as usize / 16 == i);
    }
    let n = ndr(0, N as u8) as usize;
    let c: C = vals.iter().copied().take(n).collect();
    assert!(c.len() == n);
    let mut seen = [false; N];
    for i in 0..N {
        if let Some((g, l)) = c.get_no_gen(nz(i as u8 + 1)) {
            let k = l.t as usize / 16;
            assert!(k < n && vals[k] == l.t && !seen[k]);
            assert!(l.prev().is_none() && l.next().is_none() && g.get() == 2);
            seen[k] = true;
        }
    }
    for i in 0..N {
        assert!(seen[i] == (i < n));
    }
    fin(c);
}

fn reserve<const N: usize, const M: usize>() {
    let (mut c, mut m) = any_chain::<N, M>();
    let n = ndr(0, 2) as usize;
    c.reserve(n);
    assert!(c.capacity() >= m.len() + n && c.capacity() >= N);
    m.cap = c.capacity();
    assume(m.cap <= M);
    check(&c, &m);
    exhaust(&mut c, &mut m);
    fin(c);
}

fn gen_overflow<const N: usize>() {
    let (a, m) = raw_state_len::<N, N>(true, None, 255);
    let mut c = C::_from_raw_parts(a);
    let p = any_ptr();
    assume(m.slot(p).is_some());
    match ndr(0, 7) {
        0 => {
            let _ = c.remove(p);
        }
        1 => {
            let _ = c.invalidate(p);
        }
        2 => {
            let _ = c.replace_and_update_gen(p, 1);
        }
        3 => c.clear(),
        4 => c.clear_and_shrink(),
        5 => {
            let _ = c.remove_chain(p);
        }
        6 => {
            let _ = c.drain();
        }
        _ => c.compress_and_shrink(),
    }
    assert!(false, "must panic");
}

pool!(p3 { S0: E, FREE, 3; });
pool!(p4 { S0: E, FREE, 4; });
pool!(p6 { S0: E, FREE, 6; });
pool!(p33 { S0: E, FREE, 3; S1: E, FREE, 3; S2: E, FREE, 3; });
pool!(p44 { S0: E, FREE, 4; S1: E, FREE, 4; S2: E, FREE, 4; });
pool!(q33 { S0: E, FREE, 3; S1: E, FREE, 3; });
pool!(q3p3 { S0: E, FREE, 3; S1: EP, FREEP, 3; S2: E, FREE, 3; });
pool!(p4v4 { S0: E, FREE, 4; S1: EV, FREEV, 4; });

harnesses! {
    insert_0, 4, p3, insert_new::<0, 1>();
    insert_3, 8, p6, insert::<3, 6>(0);
    insert_with_2, 6, p4, insert::<2, 4>(1);
    insert_new_3, 8, p6, insert_new::<3, 6>();
    insert_start_3, 8, p6, insert_start_end::<3, 6>(false);
    insert_end_3, 8, p6, insert_start_end::<3, 6>(true);
    access_3, 5, p3, access::<3>();
    remove_4, 6, p4, remove::<4>(false);
    tr_remove_3, 5, p3, remove::<3>(true);
    tr_insert_2, 6, p4, insert::<2, 4>(2);
    tr_access_3, 5, p3, generic::<3>();
    tr_clear_3, 5, p3, clear::<3>(false, true);
    tr_clear_shrink_3, 5, p3, clear::<3>(true, true);
    remove_chain_4, 6, p4, remove_chain::<4>();
    advancer_chain_4, 6, p4, traverse::<4>(0);
    iter_chain_4, 6, p4, traverse::<4>(1);
    invalidate_4, 6, p4, invalidate::<4>(false);
    replace_update_4, 6, p4, invalidate::<4>(true);
    replace_keep_4, 6, p4, replace_keep::<4>();
    swap_4, 6, p4, swap::<4>();
    connect_4, 6, p4, connect::<4>();
    break_prev_4, 6, p4, break_::<4>(false);
    break_next_4, 6, p4, break_::<4>(true);
    exchange_next_4, 6, p4, exchange_next::<4>();
    clear_4, 6, p4, clear::<4>(false, false);
    clear_shrink_4, 6, p4, clear::<4>(true, false);
    clone_3, 5, p33, clone::<3, 0, 3>(0);
    clone_from_3_2, 5, p33, clone::<3, 2, 3>(1);
    clone_from_2_3, 5, p33, clone::<2, 3, 3>(1);
    clone_from_with_3_2, 5, p33, clone::<3, 2, 3>(2);
    clone_from_with_2_3, 5, p33, clone::<2, 3, 3>(2);
    to_arena_3_0, 5, p4v4, to_arena::<3, 0, 3>();
    to_arena_2_4, 6, p4v4, to_arena::<2, 4, 4>();
    from_arena_4, 6, p4, from_arena::<4>();
    eq_3_3, 5, p33, eq::<3, 3, 3>();
    eq_2_3, 5, p33, eq::<2, 3, 3>();
    advancer_4, 6, p4, iters::<4>(0);
    ptrs_4, 6, p4, iters::<4>(1);
    iter_4, 6, p4, iters::<4>(2);
    iter_ref_4, 6, p4, iters::<4>(3);
    iter_mut_4, 6, p4, iters::<4>(4);
    iter_mut_ref_4, 6, p4, iters::<4>(5);
    vals_4, 6, p4, iters::<4>(6);
    recast_4, 6, p4, recast::<4>();
    vals_mut_4, 6, p4, iters::<4>(7);
    drain_3, 5, p3, drain::<3>();
    into_iter_4, 6, p4, into_iter::<4>(false);
    capacity_drain_4, 6, p4, into_iter::<4>(true);
    from_iter_4, 6, p4, from_iter::<4>();
    reserve_2, 6, p4, reserve::<2, 4>();
    gen_overflow_3, 5, p33, gen_overflow::<3>();
}

/// The entries are one chain if `one`, otherwise more than one
fn compress_len<const N: usize, const LEN: usize>(one: bool, kind: u8) {
    let (c, m) = any_chain_len::<N, LEN>();
    // the slots connected with the first entry
    let mut start = 0;
    for i in 0..N {
        if m.g[N - 1 - i] != 0 {
            start = N - 1 - i;
        }
    }
    if LEN > 1 {
        assume((chain_of(&m, start).1 == LEN) == one);
    }
    match kind {
        0 => compress((c, m)),
        1 => compress_plain((c, m)),
        _ => recaster((c, m)),
    }
}

no_growth_harnesses! {
    compress_one_3_3, 4, q33, compress_len::<3, 3>(true, 0);
    compress_many_3_3, 4, q33, compress_len::<3, 3>(false, 0);
    compress_one_3_2, 4, q33, compress_len::<3, 2>(true, 0);
    compress_many_3_2, 4, q33, compress_len::<3, 2>(false, 0);
    compress_3_1, 4, q33, compress_len::<3, 1>(true, 0);
    compress_3_0, 4, q33, compress_len::<3, 0>(true, 0);
    compress_plain_one, 4, q33, compress_len::<3, 2>(true, 1);
    compress_plain_many, 4, q33, compress_len::<3, 2>(false, 1);
    recaster_one, 4, q3p3, compress_len::<3, 2>(true, 2);
    recaster_many, 4, q3p3, compress_len::<3, 2>(false, 2);
}
