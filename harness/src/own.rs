//! Values are dropped or handed back exactly once
#![allow(unused, static_mut_refs)]

use core::num::NonZeroU8;

use triple_arena::{
    utils::{InternalEntry, NonZeroInxVec},
    Advancer, Arena, ChainArena, Link, OrdArena, Ptr, SurjectArena,
};

use crate::{
    arena::{any_freelist, any_ptr, mk, nz, P},
    harnesses,
    nd::*,
    pool, reach,
};

pub static mut DROPS: [u8; 32] = [0; 32];

/// A value with an identity
pub struct D(pub u8);

impl Drop for D {
    fn drop(&mut self) {
        unsafe {
            DROPS[self.0 as usize] += 1;
        }
    }
}

impl Clone for D {
    fn clone(&self) -> D {
        D(self.0 + 16)
    }
}

pub fn drops(i: usize) -> u8 {
    unsafe { DROPS[i] }
}

type A = Arena<P, D>;
type E = InternalEntry<P, D>;
const FREE: E = InternalEntry::Free(NonZeroU8::MIN);

/// Slot `i + 1` has the value with identity `base + i` and the generation
/// `g[i]`, or is free
fn any_arena<const N: usize>(base: u8) -> (A, [u8; N]) {
    let generation = ndr(2, 250);
    let mut g = [0; N];
    let mut free = [true; N];
    let mut len = 0;
    for i in 0..N {
        if ndb() {
            free[i] = false;
            g[i] = ndr(2, generation);
            len += 1;
        }
    }
    let (root, next) = any_freelist::<N>(&free);
    let mut vec = NonZeroInxVec::<E>::new();
    for i in 0..N {
        vec.push(if free[i] {
            InternalEntry::Free(nz(next[i]))
        } else {
            InternalEntry::Allocated(nz(g[i]), D(base + i as u8))
        });
    }
    let a = Arena::_from_raw_parts(vec, len, NonZeroU8::new(root), nz(generation));
    (a, g)
}

fn slot<const N: usize>(g: &[u8; N], p: P) -> Option<usize> {
    let i = p.inx().get() as usize - 1;
    if i < N && g[i] != 0 && g[i] == p.generation().get() {
        Some(i)
    } else {
        None
    }
}

fn len<const N: usize>(g: &[u8; N]) -> usize {
    let mut n = 0;
    for i in 0..N {
        n += (g[i] != 0) as usize;
    }
    n
}

/// `inside[i]`: the value is in the arena, otherwise it must have been dropped
fn state<const N: usize>(g: &[u8; N], inside: &[bool; N]) {
    for i in 0..N {
        if g[i] != 0 {
            assert!(drops(i) == !inside[i] as u8, "dropped exactly when it left");
        } else {
            assert!(drops(i) == 0, "dropped something that did not exist");
        }
    }
}

fn live<const N: usize>(g: &[u8; N]) -> [bool; N] {
    let mut r = [false; N];
    for i in 0..N {
        r[i] = g[i] != 0;
    }
    r
}

/// Drops the arena, then everything must be dropped once
fn end<const N: usize>(a: A, g: &[u8; N]) {
    drop(a);
    state(g, &[false; N]);
}

fn drop_arena<const N: usize>() {
    let (a, g) = any_arena::<N>(0);
    end(a, &g);
}

fn remove<const N: usize>() {
    let (mut a, g) = any_arena::<N>(0);
    let p = any_ptr();
    let mut inside = live(&g);
    let r = a.remove(p);
    state(&g, &inside);
    match slot(&g, p) {
        Some(i) => {
            assert!(r.is_some());
            assert!(r.as_ref().unwrap().0 == i as u8);
            inside[i] = false;
        }
        None => assert!(r.is_none()),
    }
    drop(r);
    state(&g, &inside);
    end(a, &g);
}

fn remove_by<const N: usize>() {
    let (mut a, g) = any_arena::<N>(0);
    let mask = nd();
    let mut inside = live(&g);
    a.remove_by(|p, d| (mask >> d.0) & 1 != 0);
    for i in 0..N {
        if (mask >> i) & 1 != 0 {
            inside[i] = false;
        }
    }
    state(&g, &inside);
    end(a, &g);
}

fn replace<const N: usize>(update: bool) {
    let (mut a, g) = any_arena::<N>(0);
    let p = any_ptr();
    let mut inside = live(&g);
    let s = slot(&g, p);
    let new = D(15);
    let (ok, out) = if update {
        match a.replace_and_update_gen(p, new) {
            Ok((old, _)) => (true, old),
            Err(e) => (false, e),
        }
    } else {
        match a.replace_and_keep_gen(p, new) {
            Ok(old) => (true, old),
            Err(e) => (false, e),
        }
    };
    state(&g, &inside);
    assert!(drops(15) == 0);
    assert!(ok == s.is_some());
    match s {
        Some(i) => {
            assert!(out.0 == i as u8, "got another value");
            inside[i] = false;
        }
        None => assert!(out.0 == 15, "got another value"),
    }
    drop(out);
    state(&g, &inside);
    assert!(drops(15) == s.is_none() as u8);
    end(a, &g);
    assert!(drops(15) == 1);
}

fn insert<const N: usize>(kind: u8) {
    let (mut a, g) = any_arena::<N>(0);
    let inside = live(&g);
    let full = len(&g) == N;
    match kind {
        0 => match a.try_insert(D(15)) {
            Ok(p) => {
                assert!(!full);
                assert!(drops(15) == 0);
            }
            Err(e) => {
                assert!(full && e.0 == 15 && drops(15) == 0);
            }
        },
        1 => {
            let _ = a.try_insert_with(|_| D(15));
            if full {
                drop(D(15));
            }
        }
        2 => {
            a.insert(D(15));
            assert!(drops(15) == 0);
        }
        _ => {
            a.insert_with(|_| D(15));
            assert!(drops(15) == 0);
        }
    }
    state(&g, &inside);
    end(a, &g);
    assert!(drops(15) == 1);
}

fn keep<const N: usize>(kind: u8) {
    let (mut a, g) = any_arena::<N>(0);
    let inside = live(&g);
    match kind {
        0 => {
            let _ = a.swap(any_ptr(), any_ptr());
        }
        1 => {
            let _ = a.invalidate(any_ptr());
        }
        2 => a.compress_and_shrink(),
        _ => a.reserve(2),
    }
    state(&g, &inside);
    end(a, &g);
}

fn clear<const N: usize>(shrink: bool) {
    let (mut a, g) = any_arena::<N>(0);
    if shrink {
        a.clear_and_shrink();
    } else {
        a.clear();
    }
    state(&g, &[false; N]);
    end(a, &g);
}

/// Takes `k` of them
fn drain<const N: usize>(capacity: bool) {
    let (mut a, g) = any_arena::<N>(0);
    let mut inside = live(&g);
    let k = ndr(0, N as u8 + 1) as usize;
    if capacity {
        let mut d = a.capacity_drain();
        for i in 0..N + 1 {
            if i < k {
                if let Some((_, v)) = d.next() {
                    state(&g, &inside);
                    assert!((v.0 as usize) < N && inside[v.0 as usize]);
                    inside[v.0 as usize] = false;
                }
            }
        }
        state(&g, &inside);
        drop(d);
        state(&g, &[false; N]);
    } else {
        let mut d = a.drain();
        for i in 0..N + 1 {
            if i < k {
                if let Some((_, v)) = d.next() {
                    state(&g, &inside);
                    assert!((v.0 as usize) < N && inside[v.0 as usize]);
                    inside[v.0 as usize] = false;
                }
            }
        }
        state(&g, &inside);
        drop(d);
        state(&g, &[false; N]);
        end(a, &g);
    }
}

fn clone<const S: usize, const T: usize>(kind: u8) {
    let (s, gs) = any_arena::<S>(0);
    let (mut t, gt) = any_arena::<T>(8);
    match kind {
        0 => {
            drop(t);
            t = s.clone();
        }
        1 => t.clone_from(&s),
        _ => t.clone_from_with(&s, |_, d| d.clone()),
    }
    state(&gs, &live(&gs));
    for i in 0..T {
        assert!(drops(8 + i) == (gt[i] != 0) as u8, "old contents");
    }
    for i in 0..S {
        assert!(drops(16 + i) == 0, "new contents");
    }
    drop(s);
    state(&gs, &[false; S]);
    drop(t);
    for i in 0..S {
        assert!(drops(16 + i) == (gs[i] != 0) as u8, "new contents");
        assert!(drops(i) == (gs[i] != 0) as u8, "source");
    }
    for i in 0..T {
        assert!(drops(8 + i) == (gt[i] != 0) as u8, "old contents");
    }
}

pool!(p4 { S0: E, FREE, 4; });
pool!(p6 { S0: E, FREE, 6; });
pool!(p44 { S0: E, FREE, 4; S1: E, FREE, 4; });
pool!(p333 { S0: E, FREE, 3; S1: E, FREE, 3; S2: E, FREE, 3; });

harnesses! {
    own_drop_4, 6, p4, drop_arena::<4>();
    own_remove_4, 6, p4, remove::<4>();
    own_remove_by_4, 6, p4, remove_by::<4>();
    own_replace_keep_4, 6, p4, replace::<4>(false);
    own_replace_update_4, 6, p4, replace::<4>(true);
    own_try_insert_4, 6, p4, insert::<4>(0);
    own_try_insert_with_4, 6, p4, insert::<4>(1);
    own_insert_3, 8, p6, insert::<3>(2);
    own_insert_with_3, 8, p6, insert::<3>(3);
    own_swap_4, 6, p4, keep::<4>(0);
    own_invalidate_4, 6, p4, keep::<4>(1);
    own_compress_4, 6, p44, keep::<4>(2);
    own_reserve_4, 8, p6, keep::<4>(3);
    own_clear_4, 6, p4, clear::<4>(false);
    own_clear_shrink_4, 6, p4, clear::<4>(true);
    own_drain_4, 7, p4, drain::<4>(false);
    own_capacity_drain_4, 7, p4, drain::<4>(true);
    own_clone_3, 5, p333, clone::<3, 0>(0);
    own_clone_from_3_2, 5, p333, clone::<3, 2>(1);
    own_clone_from_2_3, 5, p333, clone::<2, 3>(1);
    own_clone_from_with_3_2, 5, p333, clone::<3, 2>(2);
    own_clone_from_with_2_3, 5, p333, clone::<2, 3>(2);
}
