//! `Arena`: one operation from an arbitrary state
#![allow(unused)]

use core::num::NonZeroU8;

use triple_arena::{
    ptr_struct,
    utils::{InternalEntry, NonZeroInxVec},
    Advancer, Arena, Ptr, Recaster,
};

use crate::{harnesses, nd::*, pool, reach, tr, unroll};

ptr_struct!(P[NonZeroU8](NonZeroU8));

pub type A = Arena<P, u8>;
pub type E = InternalEntry<P, u8>;

pub const FREE: E = InternalEntry::Free(NonZeroU8::MIN);

pub fn nz(x: u8) -> NonZeroU8 {
    NonZeroU8::new(x).unwrap()
}

pub fn mk(i: u8, g: u8) -> P {
    P::_from_raw(nz(i), nz(g))
}

/// An arbitrary pointer, valid or not
pub fn any_ptr() -> P {
    mk(ndr(1, 255), ndr(1, 255))
}

/// The reference: slot `i + 1` is free if `g[i] == 0`, otherwise it has value
/// `v[i]` with generation `g[i]`
pub struct Model<const M: usize> {
    pub cap: usize,
    pub generation: u8,
    pub g: [u8; M],
    pub v: [u8; M],
}

impl<const M: usize> Model<M> {
    pub fn len(&self) -> usize {
        let mut n = 0;
        for i in 0..M {
            if self.g[i] != 0 {
                n += 1;
            }
        }
        n
    }

    /// The slot of a valid pointer
    pub fn slot(&self, p: P) -> Option<usize> {
        let i = p.inx().get() as usize - 1;
        if i < M && self.g[i] != 0 && self.g[i] == p.generation().get() {
            Some(i)
        } else {
            None
        }
    }
}

/// Recasts everything except for 9
pub struct Flip;

impl Recaster for Flip {
    type Item = u8;

    fn recast_item(&self, item: &mut u8) -> Result<(), u8> {
        if *item == 9 {
            Err(9)
        } else {
            *item ^= 0x80;
            Ok(())
        }
    }
}

/// Symbolic freelist over exactly the slots with `g[i] == 0`. Returns the root
/// (0 for none) and the next indexes.
pub fn any_freelist<const N: usize>(free: &[bool; N]) -> (u8, [u8; N]) {
    let mut nfree = 0;
    unroll!(i, N, {
        if free[i] {
            nfree += 1;
        }
    });
    let mut next = [1u8; N];
    unroll!(i, N, {
        if free[i] {
            next[i] = ndr(1, N as u8);
        }
    });
    let mut root = 0;
    if nfree != 0 {
        root = ndr(1, N as u8);
        let mut cur = root;
        unroll!(k, N, {
            if k < nfree {
                let c = cur as usize - 1;
                assume(free[c]);
                // only the last one points to itself, so no slot is visited twice
                assume((next[c] == cur) == (k + 1 == nfree));
                cur = next[c];
            }
        });
    }
    (root, next)
}

/// An arbitrary arena with capacity `N`
pub fn any_arena<const N: usize, const M: usize>() -> (A, Model<M>) {
    let generation = ndr(2, 255);
    let mut m = Model {
        cap: N,
        generation,
        g: [0; M],
        v: [0; M],
    };
    let mut free = [true; N];
    for i in 0..N {
        if ndb() {
            free[i] = false;
            m.g[i] = ndr(2, generation);
            m.v[i] = nd();
        }
    }
    let (root, next) = any_freelist::<N>(&free);
    let mut vec = NonZeroInxVec::<E>::new();
    for i in 0..N {
        vec.push(if free[i] {
            InternalEntry::Free(nz(next[i]))
        } else {
            InternalEntry::Allocated(nz(m.g[i]), m.v[i])
        });
    }
    let a = Arena::_from_raw_parts(vec, m.len(), NonZeroU8::new(root), nz(generation));
    (a, m)
}

/// All observations on the arena match the model
pub fn check<const M: usize>(a: &A, m: &Model<M>) {
    assert!(a.len() == m.len(), "len");
    assert!(a.is_empty() == (m.len() == 0), "is_empty");
    assert!(a.capacity() == m.cap, "capacity");
    assert!(a.generation().get() == m.generation, "generation");
    for i in 0..M {
        match a.get_no_gen(nz(i as u8 + 1)) {
            Some((g, v)) => {
                assert!(m.g[i] != 0, "entry that should be free");
                assert!(g.get() == m.g[i], "generation of entry");
                assert!(*v == m.v[i], "value of entry");
            }
            None => assert!(m.g[i] == 0, "missing entry"),
        }
    }
    let p = any_ptr();
    let s = m.slot(p);
    assert!(a.contains(p) == s.is_some(), "contains");
    match a.get(p) {
        Some(v) => assert!(m.v[s.unwrap()] == *v, "get"),
        None => assert!(s.is_none(), "get"),
    }
}

/// Exactly the free slots can be inserted into
pub fn exhaust<const M: usize>(a: &mut A, m: &mut Model<M>) {
    let f = m.cap - m.len();
    for k in 0..M {
        if k < f {
            let v = nd();
            match a.try_insert(v) {
                Ok(p) => {
                    let i = p.inx().get() as usize - 1;
                    assert!(i < m.cap, "index in capacity");
                    assert!(m.g[i] == 0, "insertion on an used slot");
                    assert!(p.generation().get() == m.generation, "generation of insert");
                    m.g[i] = m.generation;
                    m.v[i] = v;
                }
                Err(_) => assert!(false, "try_insert refused an available slot"),
            }
        }
    }
    let v = nd();
    assert!(a.try_insert(v) == Err(v), "try_insert beyond capacity");
    check(a, m);
}

/// `p` was returned by an insertion of `v`
fn inserted<const M: usize>(m: &mut Model<M>, p: P, v: u8) {
    let i = p.inx().get() as usize - 1;
    assert!(i < m.cap, "index in capacity");
    assert!(m.g[i] == 0, "insertion on an used slot");
    assert!(p.generation().get() == m.generation, "generation of insert");
    m.g[i] = m.generation;
    m.v[i] = v;
}

fn fin(a: A) {
    core::mem::forget(a);
}

fn try_insert<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    let v = nd();
    let full = m.len() == N;
    match a.try_insert(v) {
        Ok(p) => {
            assert!(!full);
            inserted(&mut m, p, v);
        }
        Err(e) => assert!(full && e == v),
    }
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

fn try_insert_with<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    let v = nd();
    let full = m.len() == N;
    let mut given = None;
    match a.try_insert_with(|p| {
        given = Some(p);
        v
    }) {
        Ok(p) => {
            assert!(!full);
            assert!(given == Some(p));
            inserted(&mut m, p, v);
        }
        Err(_) => assert!(full && given.is_none()),
    }
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

/// `kind`: 0 `insert`, 1 `insert_with`, 2 `ArenaTrait::insert`. `M` should be at
/// least `2 * N`
fn insert<const N: usize, const M: usize>(kind: u8) {
    let with = kind == 1;
    let (mut a, mut m) = any_arena::<N, M>();
    let v = nd();
    let full = m.len() == N;
    let mut given = None;
    let p = if with {
        a.insert_with(|p| {
            given = Some(p);
            v
        })
    } else if kind == 0 {
        a.insert(v)
    } else {
        tr::insert(&mut a, v)
    };
    if with {
        assert!(given == Some(p));
    }
    if full {
        assert!(a.capacity() > N);
        m.cap = a.capacity();
        assume(m.cap <= M);
    }
    inserted(&mut m, p, v);
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

/// `M` should be at least `N + 2`
fn reserve<const N: usize, const M: usize>() {
    let (mut a, mut m) = any_arena::<N, M>();
    let n = ndr(0, 2) as usize;
    a.reserve(n);
    assert!(a.capacity() >= N, "reserve shrunk");
    assert!(a.capacity() >= m.len() + n, "reserve did not reserve");
    m.cap = a.capacity();
    assume(m.cap <= M);
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

fn remove<const N: usize>(generic: bool) {
    let (mut a, mut m) = any_arena::<N, N>();
    let p = any_ptr();
    let s = m.slot(p);
    // see `gen_overflow`
    assume(m.generation < 255 || s.is_none());
    let r = if generic { tr::remove(&mut a, p) } else { a.remove(p) };
    match s {
        Some(i) => {
            assert!(r == Some(m.v[i]));
            m.g[i] = 0;
            m.generation += 1;
        }
        None => assert!(r.is_none()),
    }
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

fn remove_by<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    assume(m.generation < 255);
    let mask = nd();
    let mut seen = [0u8; N];
    let mut bad = false;
    a.remove_by(|p, v| {
        let i = p.inx().get() as usize - 1;
        if i >= N || m.g[i] != p.generation().get() || m.v[i] != *v {
            bad = true;
            return false
        }
        seen[i] += 1;
        *v ^= 0x55;
        (mask >> i) & 1 != 0
    });
    assert!(!bad, "predicate called with something else");
    for i in 0..N {
        assert!(seen[i] == (m.g[i] != 0) as u8, "predicate not called once");
        m.v[i] ^= 0x55;
        if (mask >> i) & 1 != 0 {
            m.g[i] = 0;
        }
    }
    m.generation += 1;
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

fn invalidate<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    let p = any_ptr();
    let s = m.slot(p);
    assume(m.generation < 255 || s.is_none());
    let r = a.invalidate(p);
    match s {
        Some(i) => {
            m.generation += 1;
            m.g[i] = m.generation;
            assert!(r == Some(mk(i as u8 + 1, m.generation)));
        }
        None => assert!(r.is_none()),
    }
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

fn replace<const N: usize>(update: bool) {
    let (mut a, mut m) = any_arena::<N, N>();
    let p = any_ptr();
    let v = nd();
    let s = m.slot(p);
    assume(m.generation < 255 || s.is_none());
    if update {
        let r = a.replace_and_update_gen(p, v);
        match s {
            Some(i) => {
                m.generation += 1;
                m.g[i] = m.generation;
                assert!(r == Ok((m.v[i], mk(i as u8 + 1, m.generation))));
                m.v[i] = v;
            }
            None => assert!(r == Err(v)),
        }
    } else {
        let r = a.replace_and_keep_gen(p, v);
        match s {
            Some(i) => {
                assert!(r == Ok(m.v[i]));
                m.v[i] = v;
            }
            None => assert!(r == Err(v)),
        }
    }
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

fn swap<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    let p0 = any_ptr();
    let p1 = any_ptr();
    let r = a.swap(p0, p1);
    match (m.slot(p0), m.slot(p1)) {
        (Some(i), Some(j)) => {
            assert!(r == Some(()));
            let t = m.v[i];
            m.v[i] = m.v[j];
            m.v[j] = t;
        }
        _ => assert!(r.is_none()),
    }
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

fn access<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    let p0 = any_ptr();
    let p1 = any_ptr();
    let (s0, s1) = (m.slot(p0), m.slot(p1));
    let (v0, v1) = (nd(), nd());
    match a.get_mut(p0) {
        Some(v) => {
            assert!(*v == m.v[s0.unwrap()]);
            *v = v0;
            m.v[s0.unwrap()] = v0;
        }
        None => assert!(s0.is_none()),
    }
    match a.get2_mut(p0, p1) {
        Some((x0, x1)) => {
            let (i, j) = (s0.unwrap(), s1.unwrap());
            assert!(i != j, "get2_mut of the same entry");
            assert!(*x0 == m.v[i] && *x1 == m.v[j]);
            *x0 = v1;
            *x1 = !v1;
            m.v[i] = v1;
            m.v[j] = !v1;
        }
        None => assert!(s0.is_none() || s1.is_none() || s0 == s1),
    }
    if s1.is_some() {
        assert!(a[p1] == m.v[s1.unwrap()]);
        a[p1] = 7;
        m.v[s1.unwrap()] = 7;
    }
    check(&a, &m);
    fin(a);
}

fn clear<const N: usize>(shrink: bool, generic: bool) {
    let (mut a, mut m) = any_arena::<N, N>();
    assume(m.generation < 255);
    if shrink {
        if generic {
            tr::clear_and_shrink(&mut a);
        } else {
            a.clear_and_shrink();
        }
        m.cap = 0;
    } else if generic {
        tr::clear(&mut a);
    } else {
        a.clear();
    }
    m.generation += 1;
    m.g = [0; N];
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

/// The rest of `ArenaTrait`
fn generic<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    assert!(tr::len(&a) == m.len() && tr::is_empty(&a) == (m.len() == 0), "len");
    assert!(tr::capacity(&a) == m.cap, "capacity");
    assert!(tr::generation(&a).get() == m.generation, "generation");
    let p = any_ptr();
    let s = m.slot(p);
    assert!(tr::contains(&a, p) == s.is_some(), "contains");
    match tr::get(&a, p) {
        Some(v) => assert!(*v == m.v[s.unwrap()], "get"),
        None => assert!(s.is_none(), "get"),
    }
    let v0 = nd();
    match tr::get_mut(&mut a, p) {
        Some(v) => {
            assert!(*v == m.v[s.unwrap()], "get_mut");
            *v = v0;
            m.v[s.unwrap()] = v0;
        }
        None => assert!(s.is_none(), "get_mut"),
    }
    let (mut x, mut y) = (tr::advancer(&a), a.advancer());
    for _ in 0..=N {
        assert!(x.advance(&a) == y.advance(&a), "advancer");
    }
    check(&a, &m);
    fin(a);
}

fn fresh() {
    let mut a: A = Arena::new();
    let mut m = Model::<3> {
        cap: 0,
        generation: 2,
        g: [0; 3],
        v: [0; 3],
    };
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
    let a: A = tr::new();
    check(&a, &m);
    let n = ndr(0, 3);
    let mut a: A = Arena::with_capacity(n as usize);
    assert!(a.capacity() >= n as usize);
    m.cap = a.capacity();
    assume(m.cap <= 3);
    check(&a, &m);
    exhaust(&mut a, &mut m);
    fin(a);
}

pool!(p1 { S0: E, FREE, 1; });
pool!(p2 { S0: E, FREE, 2; });
pool!(p3 { S0: E, FREE, 3; });
pool!(p4 { S0: E, FREE, 4; });
pool!(p6 { S0: E, FREE, 6; });
pool!(p8 { S0: E, FREE, 8; });
pool!(p10 { S0: E, FREE, 10; });

harnesses! {
    arena_fresh, 5, p3, fresh();
    arena_try_insert_1, 4, p1, try_insert::<1>();
    arena_try_insert_4, 6, p4, try_insert::<4>();
    arena_try_insert_with_4, 6, p4, try_insert_with::<4>();
    arena_insert_0, 4, p1, insert::<0, 1>(0);
    arena_insert_1, 4, p2, insert::<1, 2>(0);
    arena_insert_3, 8, p6, insert::<3, 6>(0);
    arena_insert_with_0, 4, p1, insert::<0, 1>(1);
    arena_insert_with_3, 8, p6, insert::<3, 6>(1);
    arena_reserve_0, 5, p2, reserve::<0, 2>();
    arena_reserve_3, 7, p6, reserve::<3, 5>();
    arena_remove_1, 4, p1, remove::<1>(false);
    arena_remove_4, 6, p4, remove::<4>(false);
    arena_remove_by_4, 6, p4, remove_by::<4>();
    arena_invalidate_4, 6, p4, invalidate::<4>();
    arena_replace_keep_4, 6, p4, replace::<4>(false);
    arena_replace_update_4, 6, p4, replace::<4>(true);
    arena_swap_4, 6, p4, swap::<4>();
    arena_access_4, 6, p4, access::<4>();
    arena_clear_4, 6, p4, clear::<4>(false, false);
    arena_clear_shrink_4, 6, p4, clear::<4>(true, false);
    tr_insert_2, 6, p4, insert::<2, 4>(2);
    tr_remove_3, 5, p3, remove::<3>(true);
    tr_clear_3, 5, p3, clear::<3>(false, true);
    tr_clear_shrink_3, 5, p3, clear::<3>(true, true);
    tr_access_3, 5, p3, generic::<3>();
}
