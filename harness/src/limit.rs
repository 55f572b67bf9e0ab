//! `Arena` with an index type that has only the values 1, 2 and 3
#![allow(unused)]

use core::num::{NonZeroU8, NonZeroUsize};

use triple_arena::{
    utils::{InternalEntry, NonZeroInxVec, PtrInx},
    Advancer, Arena, ChainArena, Ptr, Recast, Recaster,
};

use crate::{arena::any_freelist, harnesses, nd::*, pool, reach};

/// A two bit index. Behaves like the `NonZeroU...` implementations: conversions
/// truncate and the result must not be zero.
#[derive(Debug, Hash, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct I2(NonZeroU8);

unsafe impl PtrInx for I2 {
    fn new(inx: NonZeroUsize) -> Self {
        I2(NonZeroU8::new((inx.get() & 3) as u8).unwrap())
    }

    fn get(this: Self) -> NonZeroUsize {
        NonZeroUsize::new(this.0.get() as usize).unwrap()
    }

    fn max() -> NonZeroUsize {
        NonZeroUsize::new(3).unwrap()
    }
}

impl Recast<Self> for I2 {
    fn recast<R: Recaster<Item = Self>>(&mut self, recaster: &R) -> Result<(), Self> {
        recaster.recast_item(self)
    }
}

#[derive(Debug, Hash, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Q {
    i: I2,
    g: NonZeroU8,
}

unsafe impl Ptr for Q {
    type Gen = NonZeroU8;
    type Inx = I2;

    fn name() -> &'static str {
        "Q"
    }

    fn invalid() -> Self {
        Q {
            i: I2::new(<I2 as PtrInx>::max()),
            g: NonZeroU8::MIN,
        }
    }

    fn inx(self) -> I2 {
        self.i
    }

    fn generation(self) -> NonZeroU8 {
        self.g
    }

    fn _from_raw(i: I2, g: NonZeroU8) -> Self {
        Q { i, g }
    }
}

impl Recast<Self> for Q {
    fn recast<R: Recaster<Item = Self>>(&mut self, recaster: &R) -> Result<(), Self> {
        recaster.recast_item(self)
    }
}

type A = Arena<Q, u8>;
type E = InternalEntry<Q, u8>;
const FREE: E = InternalEntry::Free(I2(NonZeroU8::MIN));

fn inx(i: u8) -> I2 {
    I2(NonZeroU8::new(i).unwrap())
}

struct Model {
    cap: usize,
    generation: u8,
    g: [u8; 3],
    v: [u8; 3],
}

impl Model {
    fn len(&self) -> usize {
        (self.g[0] != 0) as usize + (self.g[1] != 0) as usize + (self.g[2] != 0) as usize
    }
}

fn any_arena<const N: usize>() -> (A, Model) {
    let generation = ndr(2, 200);
    let mut m = Model {
        cap: N,
        generation,
        g: [0; 3],
        v: [0; 3],
    };
    let mut free = [true; N];
    for i in 0..N {
        if ndb() {
            free[i] = false;
            m.g[i] = ndr(2, generation);
            m.v[i] = nd();
        }
    }
    let (root, next) = any_freelist::<N>(&free);
    let mut vec = NonZeroInxVec::<E>::new();
    for i in 0..N {
        vec.push(if free[i] {
            InternalEntry::Free(inx(next[i]))
        } else {
            InternalEntry::Allocated(NonZeroU8::new(m.g[i]).unwrap(), m.v[i])
        });
    }
    let root = if root == 0 { None } else { Some(inx(root)) };
    let a = Arena::_from_raw_parts(vec, m.len(), root, NonZeroU8::new(generation).unwrap());
    (a, m)
}

fn check(a: &A, m: &Model) {
    assert!(a.len() == m.len(), "len");
    assert!(a.capacity() == m.cap, "capacity");
    assert!(a.generation().get() == m.generation, "generation");
    for i in 0..3 {
        match a.get_no_gen(inx(i as u8 + 1)) {
            Some((g, v)) => assert!(g.get() == m.g[i] && *v == m.v[i], "entry"),
            None => assert!(m.g[i] == 0, "missing entry"),
        }
    }
    // the advancer ends even though the next index is not representable
    let mut n = 0;
    let mut adv = a.advancer();
    while let Some(p) = adv.advance(a) {
        assert!(a.contains(p));
        n += 1;
    }
    assert!(n == m.len(), "advancer");
}

fn inserted(m: &mut Model, p: Q, v: u8) {
    let i = I2::get(p.i).get() - 1;
    assert!(i < m.cap && m.g[i] == 0, "insertion on an unused slot");
    assert!(p.g.get() == m.generation);
    m.g[i] = m.generation;
    m.v[i] = v;
}

fn exhaust(a: &mut A, m: &mut Model) {
    let f = m.cap - m.len();
    for k in 0..3 {
        if k < f {
            let v = nd();
            match a.try_insert(v) {
                Ok(p) => inserted(m, p, v),
                Err(_) => assert!(false, "try_insert refused an available slot"),
            }
        }
    }
    let v = nd();
    assert!(a.try_insert(v) == Err(v), "try_insert beyond capacity");
    check(a, m);
}

/// All insertions up to the index limit succeed
fn insert_to_limit<const N: usize>() {
    let (mut a, mut m) = any_arena::<N>();
    let n = 3 - m.len();
    for k in 0..3 {
        if k < n {
            let v = nd();
            let p = if ndb() { a.insert(v) } else { a.insert_with(|_| v) };
            assert!(a.capacity() <= 3);
            m.cap = a.capacity();
            inserted(&mut m, p, v);
            check(&a, &m);
        }
    }
    assert!(a.len() == 3);
    core::mem::forget(a);
}

fn insert_beyond() {
    let (mut a, m) = any_arena::<3>();
    assume(m.len() == 3);
    if ndb() {
        a.insert(1);
    } else {
        a.insert_with(|_| 1);
    }
    assert!(false, "must panic");
}

fn reserve_beyond<const N: usize>() {
    let (mut a, m) = any_arena::<N>();
    let n = ndr(0, 255) as usize;
    assume(m.len() + n > 3);
    if ndb() {
        a.reserve(n);
    } else {
        let _: A = Arena::with_capacity(n + m.len());
    }
    assert!(false, "must panic");
}

fn reserve<const N: usize>() {
    let (mut a, mut m) = any_arena::<N>();
    let n = ndr(0, 3) as usize;
    assume(N + n <= 3);
    a.reserve(n);
    assert!(a.capacity() >= m.len() + n && a.capacity() >= N);
    m.cap = a.capacity();
    check(&a, &m);
    exhaust(&mut a, &mut m);
    core::mem::forget(a);
}

fn clear<const N: usize>(op: u8) {
    let (mut a, mut m) = any_arena::<N>();
    match op {
        0 => {
            a.clear();
            m.generation += 1;
            m.g = [0; 3];
        }
        1 => {
            a.clear_and_shrink();
            m.generation += 1;
            m.g = [0; 3];
            m.cap = 0;
        }
        2 => {
            drop(a.drain());
            m.generation = a.generation().get();
            m.g = [0; 3];
        }
        _ => {
            let mask = nd();
            a.remove_by(|p, _| (mask >> (p.i .0.get() - 1)) & 1 != 0);
            m.generation += 1;
            for i in 0..3 {
                if (mask >> i) & 1 != 0 {
                    m.g[i] = 0;
                }
            }
        }
    }
    check(&a, &m);
    exhaust(&mut a, &mut m);
    core::mem::forget(a);
}

fn clone<const S: usize, const D: usize>(with: bool) {
    let (s, ms) = any_arena::<S>();
    let (mut d, _) = any_arena::<D>();
    if with {
        d.clone_from_with(&s, |_, v: &u8| *v);
    } else {
        d.clone_from(&s);
    }
    let mut m = Model {
        cap: if S > D { S } else { D },
        generation: ms.generation,
        g: ms.g,
        v: ms.v,
    };
    check(&d, &m);
    exhaust(&mut d, &mut m);
    core::mem::forget(s);
    core::mem::forget(d);
}

fn compress<const N: usize>() {
    let (mut a, m) = any_arena::<N>();
    let mut new = [0u8; 3];
    a.compress_and_shrink_with(|p, _, q| {
        new[p.i.0.get() as usize - 1] = q.i.0.get();
    });
    let mut m2 = Model {
        cap: m.len(),
        generation: m.generation + 1,
        g: [0; 3],
        v: [0; 3],
    };
    for i in 0..3 {
        if m.g[i] != 0 {
            assert!(new[i] != 0);
            let j = new[i] as usize - 1;
            assert!(m2.g[j] == 0);
            m2.g[j] = m2.generation;
            m2.v[j] = m.v[i];
        }
    }
    check(&a, &m2);
    exhaust(&mut a, &mut m2);
    core::mem::forget(a);
}

/// Removing and reinserting at the limit
fn remove<const N: usize>() {
    let (mut a, mut m) = any_arena::<N>();
    let i = ndr(1, 3);
    let g = ndr(1, 255);
    let r = a.remove(Q {
        i: inx(i),
        g: NonZeroU8::new(g).unwrap(),
    });
    let i = i as usize - 1;
    if m.g[i] == g {
        assert!(r == Some(m.v[i]));
        m.g[i] = 0;
        m.generation += 1;
    } else {
        assert!(r.is_none());
    }
    check(&a, &m);
    exhaust(&mut a, &mut m);
    core::mem::forget(a);
}

pool!(p3 { S0: E, FREE, 3; });
pool!(p33 { S0: E, FREE, 3; S1: E, FREE, 3; S2: E, FREE, 3; });

harnesses! {
    limit_insert_0, 5, p3, insert_to_limit::<0>();
    limit_insert_1, 5, p3, insert_to_limit::<1>();
    limit_insert_2, 5, p3, insert_to_limit::<2>();
    limit_insert_3, 5, p3, insert_to_limit::<3>();
    limit_insert_beyond, 6, p33, insert_beyond();
    limit_reserve_beyond_2, 6, p33, reserve_beyond::<2>();
    limit_reserve_0, 5, p3, reserve::<0>();
    limit_reserve_2, 5, p3, reserve::<2>();
    limit_clear_3, 5, p3, clear::<3>(0);
    limit_clear_shrink_3, 5, p3, clear::<3>(1);
    limit_drain_3, 5, p3, clear::<3>(2);
    limit_remove_by_3, 5, p3, clear::<3>(3);
    limit_clone_from_3_1, 5, p33, clone::<3, 1>(false);
    limit_clone_from_1_3, 5, p33, clone::<1, 3>(false);
    limit_clone_from_with_1_3, 5, p33, clone::<1, 3>(true);
    limit_compress_3, 5, p33, compress::<3>();
    limit_remove_3, 5, p3, remove::<3>();
}
