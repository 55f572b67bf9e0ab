//! `Arena`: iteration, compression, cloning, comparison, limits
#![allow(unused)]

use core::num::NonZeroU8;

use triple_arena::{
    ptr_struct,
    utils::{InternalEntry, NonZeroInxVec},
    Advancer, Arena, ArenaTrait, Ptr, Recast, Recaster,
};

use crate::{arena::*, harnesses, nd::*, pool, reach};

type EP = InternalEntry<P, P>;
const FREEP: EP = InternalEntry::Free(NonZeroU8::MIN);

/// Makes the values of different slots different
fn tag<const M: usize>(m: &Model<M>) {
    for i in 0..M {
        if m.g[i] != 0 {
            assume(m.v[i] as usize / 16 == i);
        }
    }
}

/// What an iteration yielded
struct Seen<const M: usize>([u8; M]);

impl<const M: usize> Seen<M> {
    fn new() -> Self {
        Seen([0; M])
    }

    fn pv(&mut self, m: &Model<M>, p: P, v: u8) {
        match m.slot(p) {
            Some(i) => {
                assert!(m.v[i] == v, "yielded with another value");
                self.0[i] += 1;
            }
            None => assert!(false, "yielded an invalid pointer"),
        }
    }

    fn p(&mut self, m: &Model<M>, p: P) {
        match m.slot(p) {
            Some(i) => self.0[i] += 1,
            None => assert!(false, "yielded an invalid pointer"),
        }
    }

    /// only after `tag`
    fn v(&mut self, m: &Model<M>, v: u8) {
        let i = v as usize / 16;
        assert!(i < M && m.g[i] != 0 && m.v[i] == v, "yielded an unknown value");
        self.0[i] += 1;
    }

    fn done(&self, m: &Model<M>) {
        for i in 0..M {
            assert!(self.0[i] == (m.g[i] != 0) as u8, "every entry exactly once");
        }
    }
}

fn iters<const N: usize>(kind: u8) {
    let (a, m) = any_arena::<N, N>();
    let mut s = Seen::new();
    match kind {
        0 => {
            let mut adv = a.advancer();
            while let Some(p) = adv.advance(&a) {
                s.p(&m, p);
            }
        }
        1 => {
            for p in a.ptrs() {
                s.p(&m, p);
            }
        }
        2 => {
            tag(&m);
            for v in a.vals() {
                s.v(&m, *v);
            }
        }
        3 => {
            for (p, v) in a.iter() {
                s.pv(&m, p, *v);
            }
        }
        _ => {
            for (p, v) in &a {
                s.pv(&m, p, *v);
            }
        }
    }
    s.done(&m);
    core::mem::forget(a);
}

fn iters_mut<const N: usize>(kind: u8) {
    let (mut a, mut m) = any_arena::<N, N>();
    let mut s = Seen::new();
    match kind {
        0 => {
            tag(&m);
            for v in a.vals_mut() {
                s.v(&m, *v);
                *v ^= 1;
            }
        }
        1 => {
            for (p, v) in a.iter_mut() {
                s.pv(&m, p, *v);
                *v ^= 1;
            }
        }
        _ => {
            for (p, v) in &mut a {
                s.pv(&m, p, *v);
                *v ^= 1;
            }
        }
    }
    s.done(&m);
    for i in 0..N {
        m.v[i] ^= 1;
    }
    check(&a, &m);
    core::mem::forget(a);
}

/// Modifications between the advances, `K` of them
fn advancer_mutation<const N: usize, const M: usize, const K: usize>() {
    let (mut a, mut m) = any_arena::<N, M>();
    assume(m.generation < 255 - K as u8);
    let start_g = m.g;
    // since the start live under the same pointer
    let mut live = [false; M];
    let mut seen = [false; M];
    for i in 0..M {
        live[i] = m.g[i] != 0;
    }
    let mut adv = a.advancer();
    let mut done = false;
    for step in 0..M + 1 {
        if done {
            continue
        }
        match adv.advance(&a) {
            Some(p) => match m.slot(p) {
                Some(i) => {
                    assert!(!seen[i], "yielded an index twice");
                    seen[i] = true;
                }
                None => assert!(false, "yielded an invalid pointer"),
            },
            None => done = true,
        }
        if !done && step < K {
            match ndr(0, 4) {
                0 => {
                    let p = any_ptr();
                    if let Some(i) = m.slot(p) {
                        assert!(a.remove(p) == Some(m.v[i]));
                        m.g[i] = 0;
                        m.generation += 1;
                        live[i] = false;
                    }
                }
                1 => {
                    let v = nd();
                    let full = m.len() == m.cap;
                    let p = a.insert(v);
                    if full {
                        m.cap = a.capacity();
                        assume(m.cap <= M);
                    }
                    let i = p.inx().get() as usize - 1;
                    assert!(i < M && m.g[i] == 0);
                    m.g[i] = m.generation;
                    m.v[i] = v;
                }
                2 => {
                    let p = any_ptr();
                    if let Some(i) = m.slot(p) {
                        assert!(a.invalidate(p).is_some());
                        m.generation += 1;
                        m.g[i] = m.generation;
                        live[i] = false;
                    }
                }
                3 => {
                    a.clear_and_shrink();
                    m.generation += 1;
                    m.g = [0; M];
                    m.cap = 0;
                    live = [false; M];
                }
                _ => (),
            }
        }
    }
    assert!(done, "does not terminate");
    for i in 0..M {
        if live[i] {
            assert!(seen[i], "missed an entry that was always valid");
        }
    }
    check(&a, &m);
    core::mem::forget(a);
}

fn drain<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    assume(m.generation < 254);
    let n = m.len();
    let k = ndr(0, N as u8 + 1) as usize;
    let mut s = Seen::<N>::new();
    let mut cnt = 0;
    {
        let mut d = a.drain();
        for step in 0..N + 1 {
            if step < k {
                match d.next() {
                    Some((p, v)) => {
                        s.pv(&m, p, v);
                        cnt += 1;
                    }
                    None => assert!(cnt == n, "ended early"),
                }
            }
        }
    }
    if k > n {
        s.done(&m);
        assert!(a.generation().get() == m.generation + 1);
    }
    for i in 0..N {
        assert!(s.0[i] <= 1, "yielded twice");
    }
    assert!(cnt == if k < n { k } else { n });
    assert!(a.generation().get() > m.generation, "old pointers must be invalid");
    m.generation = a.generation().get();
    m.g = [0; N];
    check(&a, &m);
    exhaust(&mut a, &mut m);
    core::mem::forget(a);
}

fn into_iter<const N: usize>(cap_drain: bool) {
    let (a, m) = any_arena::<N, N>();
    let mut s = Seen::new();
    if cap_drain {
        for (p, v) in a.capacity_drain() {
            s.pv(&m, p, v);
        }
    } else {
        for (p, v) in a {
            s.pv(&m, p, v);
        }
    }
    s.done(&m);
}

fn from_iter<const N: usize>() {
    let mut vals = [0u8; N];
    for i in 0..N {
        vals[i] = nd();
        assume(vals[i] as usize / 16 == i);
    }
    let n = ndr(0, N as u8) as usize;
    let mut a: A = vals.iter().copied().take(n).collect();
    assert!(a.len() == n);
    assert!(a.generation().get() == 2);
    let mut m = Model::<N> {
        cap: a.capacity(),
        generation: 2,
        g: [0; N],
        v: [0; N],
    };
    assume(m.cap <= N);
    let mut cnt = 0;
    for i in 0..N {
        if let Some((g, v)) = a.get_no_gen(nz(i as u8 + 1)) {
            let k = *v as usize / 16;
            assert!(k < n && vals[k] == *v);
            for j in 0..N {
                assert!(m.g[j] == 0 || m.v[j] != *v, "twice");
            }
            m.g[i] = 2;
            m.v[i] = *v;
            cnt += 1;
        }
    }
    assert!(cnt == n);
    check(&a, &m);
    exhaust(&mut a, &mut m);
    core::mem::forget(a);
}

/// The arena is the compressed form of `m`; `new[i]` is where slot `i` went
fn check_compressed<const M: usize>(a: &mut A, m: &Model<M>, new: &[u8; M]) {
    let n = m.len();
    let mut m2 = Model::<M> {
        cap: n,
        generation: m.generation + 1,
        g: [0; M],
        v: [0; M],
    };
    for i in 0..M {
        if m.g[i] != 0 {
            let j = new[i] as usize;
            assert!(j >= 1 && j <= n, "entry not moved into 1..=len");
            assert!(m2.g[j - 1] == 0, "two entries moved to the same index");
            m2.g[j - 1] = m2.generation;
            m2.v[j - 1] = m.v[i];
        }
    }
    check(a, &m2);
    exhaust(a, &mut m2);
}

fn compress<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    assume(m.generation < 255);
    let mut new = [0u8; N];
    let mut bad = false;
    a.compress_and_shrink_with(|p, v, q| {
        let i = p.inx().get() as usize - 1;
        if i >= N || m.g[i] != p.generation().get() || m.v[i] != *v || new[i] != 0 {
            bad = true;
        } else if q.generation().get() != m.generation + 1 {
            bad = true;
        } else {
            new[i] = q.inx().get();
            *v = !*v;
        }
    });
    assert!(!bad, "called with something wrong or twice");
    for i in 0..N {
        assert!((m.g[i] != 0) == (new[i] != 0), "not called for an entry");
        m.v[i] = !m.v[i];
    }
    check_compressed(&mut a, &m, &new);
    core::mem::forget(a);
}

fn compress_plain<const N: usize>() {
    let (mut a, m) = any_arena::<N, N>();
    assume(m.generation < 255);
    tag(&m);
    a.compress_and_shrink();
    let mut new = [0u8; N];
    for i in 0..N {
        if let Some((_, v)) = a.get_no_gen(nz(i as u8 + 1)) {
            let s = *v as usize / 16;
            assert!(s < N && new[s] == 0, "unknown value");
            new[s] = i as u8 + 1;
        }
    }
    check_compressed(&mut a, &m, &new);
    core::mem::forget(a);
}

fn recaster<const N: usize>() {
    let (mut a, m) = any_arena::<N, N>();
    assume(m.generation < 255);
    let r = a.compress_and_shrink_recaster();
    let mut new = [0u8; N];
    for i in 0..N {
        if m.g[i] != 0 {
            let mut p = mk(i as u8 + 1, m.g[i]);
            assert!(r.recast_item(&mut p).is_ok(), "valid pointer rejected");
            assert!(p.generation().get() == m.generation + 1, "recast generation");
            new[i] = p.inx().get();
        }
    }
    let q0 = any_ptr();
    let mut q = q0;
    match m.slot(q0) {
        Some(i) => {
            assert!(q.recast(&r).is_ok());
            assert!(q == mk(new[i], m.generation + 1));
        }
        None => assert!(q.recast(&r) == Err(q0) && q == q0, "invalid pointer accepted"),
    }
    check_compressed(&mut a, &m, &new);
    core::mem::forget(a);
    core::mem::forget(r);
}

/// Recasting the values
fn recast<const N: usize>() {
    let (mut a, mut m) = any_arena::<N, N>();
    let mut ok = true;
    for i in 0..N {
        if m.g[i] != 0 {
            ok &= m.v[i] != 9;
            m.v[i] ^= 0x80;
        }
    }
    let r = a.recast(&Flip);
    assert!(r == if ok { Ok(()) } else { Err(9) }, "result");
    if ok {
        check(&a, &m);
    }
    reach!(!ok, "not recast");
    core::mem::forget(a);
}

/// Recasting an arena of pointers
fn recast_arena<const N: usize>() {
    let (a, m) = any_arena::<N, N>();
    // maps `P` to itself with another generation
    struct R;
    impl Recaster for R {
        type Item = P;
        fn recast_item(&self, item: &mut P) -> Result<(), P> {
            if item.inx().get() == 9 {
                Err(*item)
            } else {
                *item = mk(item.inx().get(), item.generation().get() ^ 0x80);
                Ok(())
            }
        }
    }
    core::mem::forget(a);
    let mut b: Arena<P, P> = Arena::new();
    let p0 = mk(ndr(1, 10), ndr(1, 127));
    let p1 = mk(ndr(1, 10), ndr(1, 127));
    let q0 = b.insert(p0);
    let q1 = b.insert(p1);
    let r = b.recast(&R);
    if p0.inx().get() != 9 && p1.inx().get() != 9 {
        assert!(r.is_ok());
        assert!(b[q0] == mk(p0.inx().get(), p0.generation().get() ^ 0x80));
        assert!(b[q1] == mk(p1.inx().get(), p1.generation().get() ^ 0x80));
    } else {
        let e = r.unwrap_err();
        assert!(e.inx().get() == 9);
    }
    assert!(b.len() == 2);
    core::mem::forget(b);
}

fn widen<const A: usize, const B: usize>(x: &[u8; A]) -> [u8; B] {
    let mut r = [0; B];
    for i in 0..A {
        if i < B {
            r[i] = x[i];
        }
    }
    r
}

#[derive(PartialEq, Clone, Copy)]
enum CloneKind {
    Clone,
    From,
    FromWith,
}

/// `S` source capacity, `D` destination capacity, `M` the greater of them
fn clone<const S: usize, const D: usize, const M: usize>(kind: CloneKind) {
    let (mut s, mut ms) = any_arena::<S, M>();
    let (mut d, md) = any_arena::<D, M>();
    let mut m = Model::<M> {
        cap: M,
        generation: ms.generation,
        g: widen(&ms.g),
        v: widen(&ms.v),
    };
    match kind {
        CloneKind::Clone => {
            core::mem::forget(d);
            m.cap = S;
            d = s.clone();
        }
        CloneKind::From => d.clone_from(&s),
        CloneKind::FromWith => {
            let mut seen = [0u8; M];
            let mut bad = false;
            d.clone_from_with(&s, |p, v: &u8| {
                let i = p.inx().get() as usize - 1;
                if i >= M || ms.g[i] != p.generation().get() || ms.v[i] != *v {
                    bad = true;
                } else {
                    seen[i] += 1;
                }
                !*v
            });
            assert!(!bad, "map called with something else");
            for i in 0..M {
                assert!(seen[i] == (m.g[i] != 0) as u8, "map not called once per entry");
                m.v[i] = !m.v[i];
            }
        }
    }
    // an at least as large capacity
    assert!(d.capacity() >= m.cap);
    m.cap = d.capacity();
    assume(m.cap <= M);
    check(&d, &m);
    check(&s, &ms);
    exhaust(&mut d, &mut m);
    check(&s, &ms);
    core::mem::forget(s);
    core::mem::forget(d);
}

/// The source continues to be functional and independent
fn clone_source<const N: usize>() {
    let (mut s, mut ms) = any_arena::<N, N>();
    let d = s.clone();
    exhaust(&mut s, &mut ms);
    core::mem::forget(s);
    core::mem::forget(d);
}

/// Exactly the same pointers and values
fn eq<const S: usize, const D: usize, const M: usize>() {
    let (a, ma) = any_arena::<S, M>();
    let (b, mb) = any_arena::<D, M>();
    let mut same = true;
    for i in 0..M {
        if ma.g[i] != mb.g[i] {
            same = false;
        }
        if ma.g[i] != 0 && ma.v[i] != mb.v[i] {
            same = false;
        }
    }
    reach!(same && ma.len() > 1, "equal");
    reach!(!same, "different");
    assert!((a == b) == same, "equality");
    core::mem::forget(a);
    core::mem::forget(b);
}

fn gen_overflow<const N: usize>() {
    let (mut a, m) = any_arena::<N, N>();
    assume(m.generation == 255);
    let p = any_ptr();
    let s = m.slot(p);
    match ndr(0, 8) {
        0 => {
            assume(s.is_some());
            let _ = a.remove(p);
        }
        1 => {
            assume(s.is_some());
            let _ = a.invalidate(p);
        }
        2 => {
            assume(s.is_some());
            let _ = a.replace_and_update_gen(p, 1);
        }
        3 => a.clear(),
        4 => a.clear_and_shrink(),
        5 => a.remove_by(|_, _| true),
        6 => {
            assume(m.len() > 0);
            let _ = a.drain();
        }
        7 => a.compress_and_shrink(),
        _ => {
            a.compress_and_shrink_with(|_, _, _| ());
        }
    }
    assert!(false, "must panic");
}

pool!(p3 { S0: E, FREE, 3; });
pool!(p4 { S0: E, FREE, 4; });
pool!(p6 { S0: E, FREE, 6; });
pool!(p2p { S0: EP, FREEP, 2; });
pool!(p33 { S0: E, FREE, 3; S1: E, FREE, 3; });
pool!(p44 { S0: E, FREE, 4; S1: E, FREE, 4; });
pool!(p24 { S0: E, FREE, 4; S1: E, FREE, 4; S2: E, FREE, 4; });
pool!(p4p4 { S0: E, FREE, 4; S1: EP, FREEP, 4; S2: E, FREE, 4; });
pool!(p3p { S0: E, FREE, 3; S1: EP, FREEP, 3; });

harnesses! {
    arena_advancer_4, 6, p4, iters::<4>(0);
    arena_ptrs_4, 6, p4, iters::<4>(1);
    arena_vals_4, 6, p4, iters::<4>(2);
    arena_iter_4, 6, p4, iters::<4>(3);
    arena_iter_ref_4, 6, p4, iters::<4>(4);
    arena_vals_mut_4, 6, p4, iters_mut::<4>(0);
    arena_iter_mut_4, 6, p4, iters_mut::<4>(1);
    arena_iter_mut_ref_4, 6, p4, iters_mut::<4>(2);
    arena_advancer_mut_3, 8, p6, advancer_mutation::<3, 6, 2>();
    arena_drain_4, 6, p4, drain::<4>();
    arena_into_iter_4, 6, p4, into_iter::<4>(false);
    arena_capacity_drain_4, 6, p4, into_iter::<4>(true);
    arena_from_iter_4, 6, p4, from_iter::<4>();
    arena_compress_4, 6, p44, compress::<4>();
    arena_compress_plain_4, 6, p44, compress_plain::<4>();
    arena_recast_4, 6, p4, recast::<4>();
    arena_recaster_4, 6, p4p4, recaster::<4>();
    arena_recast_arena_3, 5, p3p, recast_arena::<3>();
    arena_clone_4, 6, p24, clone::<4, 0, 4>(CloneKind::Clone);
    arena_clone_from_4_2, 7, p24, clone::<4, 2, 4>(CloneKind::From);
    arena_clone_from_3_3, 6, p24, clone::<3, 3, 3>(CloneKind::From);
    arena_clone_from_2_4, 7, p24, clone::<2, 4, 4>(CloneKind::From);
    arena_clone_from_with_4_2, 7, p24, clone::<4, 2, 4>(CloneKind::FromWith);
    arena_clone_from_with_3_3, 6, p24, clone::<3, 3, 3>(CloneKind::FromWith);
    arena_clone_from_with_2_4, 7, p24, clone::<2, 4, 4>(CloneKind::FromWith);
    arena_clone_source_4, 6, p44, clone_source::<4>();
    arena_eq_3_3, 5, p33, eq::<3, 3, 3>();
    arena_eq_2_3, 5, p33, eq::<2, 3, 3>();
    arena_eq_3_2, 5, p33, eq::<3, 2, 3>();
    arena_gen_overflow_3, 6, p33, gen_overflow::<3>();
}
