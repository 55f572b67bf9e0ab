//! Links, keys and values of the other arena types are dropped or handed back
//! exactly once. The states are a few fixed ones, what is done with them is
//! arbitrary.
#![allow(unused, static_mut_refs)]

use core::{
    cmp::Ordering,
    num::{NonZeroU8, NonZeroUsize},
};

use triple_arena::{
    utils::{ChainNoGenArena, InternalEntry, Key, LinkNoGen, Node, NonZeroInxVec, PtrNoGen, Val},
    Arena, ChainArena, Link, OrdArena, Ptr, SurjectArena,
};

use crate::{
    arena::{mk, nz, P},
    harnesses,
    nd::*,
    pool, pool_kv, reach,
};

/// Identities that have been dropped once, and more often
static mut ONCE: u32 = 0;
static mut TWICE: u32 = 0;

/// Something with an identity, and with an order for keys
pub struct D(pub u8, pub u8);

impl Drop for D {
    fn drop(&mut self) {
        unsafe {
            TWICE |= ONCE & (1 << self.0);
            ONCE |= 1 << self.0;
        }
    }
}

/// The clone of `i` is `i + 16`
impl Clone for D {
    fn clone(&self) -> D {
        D(self.0 + 16, self.1)
    }
}

impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.1 == o.1
    }
}

impl Eq for D {}

impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for D {
    fn cmp(&self, o: &D) -> Ordering {
        self.1.cmp(&o.1)
    }
}

/// Exactly these were dropped, once
fn dropped(set: u32) {
    unsafe {
        assert!(TWICE == 0, "dropped twice");
        assert!(ONCE & !set == 0, "dropped too early");
        assert!(ONCE == set, "not dropped");
    }
}

/// A pointer to one of the entries, or an invalid one
fn some_ptr() -> P {
    mk(ndr(1, 5), ndr(2, 3))
}

macro_rules! chain {
    ($m:ident, $chain:ident, $link:ident, $lp:expr) => {
        pub mod $m {
            use super::*;

            type C = $chain<P, D>;
            type E = InternalEntry<P, $link<P, D>>;
            const FREE: E = InternalEntry::Free(NonZeroU8::MIN);

            /// Three links and one free slot, `shape` 0: a chain, 1: a cycle,
            /// 2: a chain and a cycle, 3: a chain of two
            fn make(shape: u8, id: u8) -> C {
                let lp = $lp;
                let l = |i: u8| if i == 0 { None } else { Some(lp(i)) };
                let (prev, next) = match shape {
                    0 => ([0, 1, 2], [2, 3, 0]),
                    1 => ([3, 1, 2], [2, 3, 1]),
                    _ => ([0, 1, 3], [2, 0, 3]),
                };
                if shape == 3 {
                    let mut vec = NonZeroInxVec::<E>::new();
                    vec.push(InternalEntry::Allocated(nz(2), $link::new((None, l(2)), D(id, 0))));
                    vec.push(InternalEntry::Allocated(nz(2), $link::new((l(1), None), D(id + 1, 0))));
                    return $chain::_from_raw_parts(Arena::_from_raw_parts(vec, 2, None, nz(3)))
                }
                let mut vec = NonZeroInxVec::<E>::new();
                for i in 0..3 {
                    vec.push(InternalEntry::Allocated(
                        nz(2),
                        $link::new((l(prev[i]), l(next[i])), D(id + i as u8, 0)),
                    ));
                }
                vec.push(InternalEntry::Free(nz(4)));
                $chain::_from_raw_parts(Arena::_from_raw_parts(vec, 3, Some(nz(4)), nz(3)))
            }

            /// 0: `remove`, 1: `remove_chain`, 2: `replace_and_keep_gen`, 3:
            /// `replace_and_update_gen`, 4: `insert`, 5: `insert_start`, 6:
            /// `insert_end`, 7: `swap`, 8: `invalidate`, 9: `connect`, 10:
            /// `exchange_next`, 11: `break_prev`
            fn op(kind: u8, shape: u8) {
                let lp = $lp;
                let mut c = make(shape, 0);
                let p = some_ptr();
                let mut all = 7;
                let ok;
                match kind {
                    0 => {
                        let r = c.remove(p);
                        dropped(0);
                        ok = r.is_some();
                    }
                    1 => {
                        let r = c.remove_chain(p);
                        ok = r.is_some();
                        let i = p.inx().get();
                        let set = if shape != 2 {
                            7
                        } else if i == 3 {
                            4
                        } else {
                            3
                        };
                        dropped(if ok { set } else { 0 });
                    }
                    2 => {
                        all = 0xf;
                        let r = c.replace_and_keep_gen(p, D(3, 0));
                        dropped(0);
                        ok = r.is_ok();
                    }
                    3 => {
                        all = 0xf;
                        let r = c.replace_and_update_gen(p, D(3, 0));
                        dropped(0);
                        ok = r.is_ok();
                    }
                    4 => {
                        all = 0xf;
                        let (i, j) = (ndr(0, 4), ndr(0, 4));
                        let l = |i: u8| if i == 0 { None } else { Some(lp(i)) };
                        let r = c.insert((l(i), l(j)), D(3, 0));
                        dropped(0);
                        ok = r.is_ok();
                    }
                    5 => {
                        all = 0xf;
                        let r = c.insert_start(p, D(3, 0));
                        dropped(0);
                        ok = r.is_ok() || shape == 1;
                    }
                    6 => {
                        all = 0xf;
                        let r = c.insert_end(p, D(3, 0));
                        dropped(0);
                        ok = r.is_ok() || shape == 1;
                    }
                    7 => ok = c.swap(p, some_ptr()).is_some(),
                    8 => ok = c.invalidate(p).is_some(),
                    9 => ok = c.connect(p, some_ptr()).is_some() || shape == 1,
                    10 => ok = c.exchange_next(p, some_ptr()).is_some(),
                    _ => ok = c.break_prev(p).is_some(),
                }
                if kind > 6 {
                    dropped(0);
                }
                reach!(ok, "done");
                drop(c);
                dropped(all);
            }

            /// 0: `clear`, 1: `clear_and_shrink`, 2: `compress_and_shrink`, 3:
            /// `drain`, 4: `capacity_drain`, 5: `reserve`
            fn whole(kind: u8, shape: u8) {
                let mut c = make(shape, 0);
                let all = if shape == 3 { 3 } else { 7 };
                match kind {
                    0 => {
                        c.clear();
                        dropped(7);
                    }
                    1 => {
                        c.clear_and_shrink();
                        dropped(7);
                    }
                    2 => {
                        c.compress_and_shrink();
                        dropped(0);
                    }
                    3 => {
                        let k = ndr(0, 3);
                        let mut d = c.drain();
                        let mut set = 0;
                        for i in 0..3 {
                            if i < k {
                                let (_, l) = d.next().unwrap();
                                dropped(set);
                                set |= 1 << l.t.0;
                            }
                        }
                        dropped(set);
                        drop(d);
                        dropped(7);
                    }
                    4 => {
                        let k = ndr(0, 3);
                        let mut d = c.capacity_drain();
                        let mut set = 0;
                        for i in 0..3 {
                            if i < k {
                                let (_, l) = d.next().unwrap();
                                dropped(set);
                                set |= 1 << l.t.0;
                            }
                        }
                        dropped(set);
                        drop(d);
                        dropped(7);
                        return
                    }
                    _ => {
                        c.reserve(2);
                        dropped(0);
                    }
                }
                drop(c);
                dropped(all);
            }

            /// 0: `clone`, 1: `clone_from`, 2: `clone_from_with`
            fn clone(kind: u8) {
                let s = make(0, 0);
                let mut all = 0x70007;
                if kind == 0 {
                    let t = s.clone();
                    dropped(0);
                    drop(t);
                    dropped(0x70000);
                } else {
                    let mut t = make(2, 8);
                    if kind == 1 {
                        t.clone_from(&s);
                    } else {
                        t.clone_from_with(&s, |_, l| l.t.clone());
                    }
                    dropped(0x700);
                    drop(t);
                    dropped(0x70700);
                    all = 0x70707;
                }
                drop(s);
                dropped(all);
            }

            pool!(p4 { S0: E, FREE, 4; });
            pool!(p6 { S0: E, FREE, 6; });
            pool!(p44 { S0: E, FREE, 4; S1: E, FREE, 4; });

            harnesses! {
                remove_path, 5, p4, op(0, 0);
                remove_both, 5, p4, op(0, 2);
                remove_chain_path, 5, p4, op(1, 0);
                remove_chain_cycle, 5, p4, op(1, 1);
                remove_chain_both, 5, p4, op(1, 2);
                replace_keep, 5, p4, op(2, 0);
                replace_update, 5, p4, op(3, 0);
                insert_path, 5, p4, op(4, 0);
                insert_cycle, 5, p4, op(4, 1);
                insert_both, 5, p4, op(4, 2);
                insert_start_path, 5, p4, op(5, 0);
                insert_start_cycle, 5, p4, op(5, 1);
                insert_end_path, 5, p4, op(6, 0);
                insert_end_cycle, 5, p4, op(6, 1);
                swap_path, 5, p4, op(7, 0);
                invalidate_path, 5, p4, op(8, 0);
                connect_path, 5, p4, op(9, 0);
                exchange_next_path, 5, p4, op(10, 0);
                break_prev_path, 5, p4, op(11, 0);
                clear_path, 5, p4, whole(0, 0);
                clear_shrink_path, 5, p4, whole(1, 0);
                compress_two, 4, p44, whole(2, 3);
                compress_path, 5, p44, whole(2, 0);
                compress_cycle, 5, p44, whole(2, 1);
                compress_both, 5, p44, whole(2, 2);
                drain_path, 5, p4, whole(3, 0);
                capacity_drain_path, 5, p4, whole(4, 0);
                reserve_path, 7, p6, whole(5, 0);
                clone_new, 5, p44, clone(0);
                clone_from, 5, p44, clone(1);
                clone_from_with, 5, p44, clone(2);
            }
        }
    };
}

chain!(cg, ChainArena, Link, |i: u8| mk(i, 2));
chain!(cn, ChainNoGenArena, LinkNoGen, |i: u8| nz(i));

pub mod su {
    use super::*;

    type S = SurjectArena<P, D, D>;
    type EK = InternalEntry<P, LinkNoGen<P, Key<P, D>>>;
    const FREEK: EK = InternalEntry::Free(NonZeroU8::MIN);
    type EV = InternalEntry<PtrNoGen<P>, Val<D>>;
    const FREEV: EV = InternalEntry::Free(NonZeroU8::MIN);

    /// Three keys `id..` and values `8 + id..`, in `shape` + 1 sets
    fn make(shape: u8, id: u8) -> (S, u32) {
        let mut vec = NonZeroInxVec::<EK>::new();
        let mut vals = NonZeroInxVec::<EV>::new();
        let (prev, next, set, count): (_, _, _, &[usize]) = match shape {
            0 => ([3, 1, 2], [2, 3, 1], [1, 1, 1], &[3]),
            1 => ([2, 1, 3], [2, 1, 3], [1, 1, 2], &[2, 1]),
            _ => ([1, 2, 3], [1, 2, 3], [1, 2, 3], &[1, 1, 1]),
        };
        for i in 0..3 {
            vec.push(InternalEntry::Allocated(
                nz(2),
                LinkNoGen::new((Some(nz(prev[i])), Some(nz(next[i]))), Key {
                    k: D(id + i as u8, 0),
                    p_val: PtrNoGen::_from_raw(nz(set[i]), ()),
                }),
            ));
        }
        vec.push(InternalEntry::Free(nz(4)));
        let n = shape + 1;
        for i in 0..n {
            vals.push(InternalEntry::Allocated((), Val {
                v: D(8 + id + i, 0),
                key_count: NonZeroUsize::new(count[i as usize]).unwrap(),
            }));
        }
        vals.push(InternalEntry::Free(nz(n + 1)));
        let keys = Arena::_from_raw_parts(vec, 3, Some(nz(4)), nz(3));
        let vals = Arena::_from_raw_parts(vals, n as usize, Some(nz(n + 1)), ());
        let all = (7u32 | (((1u32 << n) - 1) << 8)) << id;
        (SurjectArena::_from_raw_parts(ChainNoGenArena::_from_raw_parts(keys), vals), all)
    }

    /// The keys and the value of the set of key `i`
    fn set(shape: u8, i: u8) -> u32 {
        match (shape, i) {
            (0, _) => 0x107,
            (1, 1 | 2) => 0x103,
            (1, _) => 0x204,
            (_, i) => 0x101 << (i - 1),
        }
    }

    /// 0: `remove_key`, 1: `remove`, 2: `union`, 3: `insert_key`, 4:
    /// `insert_key_with`, 5: `insert`, 6: `insert_with`, 7: `invalidate`, 8:
    /// `swap_keys`, 9: `swap_vals`
    fn op(kind: u8, shape: u8) {
        let (mut a, mut all) = make(shape, 0);
        let p = some_ptr();
        let ok;
        match kind {
            0 => {
                let r = a.remove_key(p);
                dropped(0);
                ok = r.is_some();
            }
            1 => {
                let r = a.remove(p);
                ok = r.is_some();
                // the keys are dropped, the value handed back
                dropped(if ok { set(shape, p.inx().get()) & 0xff } else { 0 });
            }
            2 => {
                let r = a.union(p, some_ptr());
                dropped(0);
                ok = r.is_some() || shape == 0;
            }
            3 => {
                all |= 8;
                let r = a.insert_key(p, D(3, 0));
                dropped(0);
                ok = r.is_ok();
            }
            4 => {
                let r = a.insert_key_with(p, |_| D(3, 0));
                dropped(0);
                ok = r.is_some();
                if ok {
                    all |= 8;
                }
            }
            5 => {
                all |= 0x808;
                a.insert(D(3, 0), D(11, 0));
                dropped(0);
                ok = true;
            }
            6 => {
                all |= 0x808;
                a.insert_with(|_| (D(3, 0), D(11, 0)));
                dropped(0);
                ok = true;
            }
            7 => {
                ok = a.invalidate(p).is_some();
                dropped(0);
            }
            8 => {
                ok = a.swap_keys(p, some_ptr()).is_some();
                dropped(0);
            }
            _ => {
                ok = a.swap_vals(p, some_ptr()).is_some();
                dropped(0);
            }
        }
        reach!(ok, "done");
        drop(a);
        dropped(all);
    }

    /// 0: `clear`, 1: `clear_and_shrink`, 2: `compress_and_shrink`
    fn whole(kind: u8, shape: u8) {
        let (mut a, all) = make(shape, 0);
        match kind {
            0 => {
                a.clear();
                dropped(all);
            }
            1 => {
                a.clear_and_shrink();
                dropped(all);
            }
            _ => {
                a.compress_and_shrink();
                dropped(0);
            }
        }
        drop(a);
        dropped(all);
    }

    /// 0: `clone`, 1: `clone_from`, 2: `clone_from_with`
    fn clone(kind: u8) {
        let (s, all_s) = make(1, 0);
        let new = all_s << 16;
        if kind == 0 {
            let t = s.clone();
            dropped(0);
            drop(t);
            dropped(new);
            drop(s);
            dropped(new | all_s);
        } else {
            let (mut t, all_t) = make(2, 4);
            if kind == 1 {
                t.clone_from(&s);
            } else {
                t.clone_from_with(&s, |_, k| k.clone(), |_, v| v.clone());
            }
            dropped(all_t);
            drop(t);
            dropped(all_t | new);
            drop(s);
            dropped(all_t | new | all_s);
        }
    }

    pool_kv!(p44 { K0: EK, FREEK, 4; } { V0: EV, FREEV, 4; });
    pool_kv!(p4444 { K0: EK, FREEK, 4; K1: EK, FREEK, 4; } { V0: EV, FREEV, 4; V1: EV, FREEV, 4; });

    harnesses! {
        remove_key_1, 5, p44, op(0, 0);
        remove_key_2, 5, p44, op(0, 1);
        remove_key_3, 5, p44, op(0, 2);
        remove_1, 5, p44, op(1, 0);
        remove_2, 5, p44, op(1, 1);
        remove_3, 5, p44, op(1, 2);
        union_1, 5, p44, op(2, 0);
        union_2, 5, p44, op(2, 1);
        union_3, 5, p44, op(2, 2);
        insert_key_1, 5, p44, op(3, 0);
        insert_key_2, 5, p44, op(3, 1);
        insert_key_with_2, 5, p44, op(4, 1);
        insert_2, 5, p44, op(5, 1);
        insert_with_2, 5, p44, op(6, 1);
        invalidate_2, 5, p44, op(7, 1);
        swap_keys_2, 5, p44, op(8, 1);
        swap_vals_2, 5, p44, op(9, 1);
        clear_2, 5, p44, whole(0, 1);
        clear_shrink_2, 5, p44, whole(1, 1);
        compress_1, 5, p4444, whole(2, 0);
        compress_2, 5, p4444, whole(2, 1);
        compress_3, 5, p4444, whole(2, 2);
        clone_new, 5, p4444, clone(0);
        clone_from, 5, p4444, clone(1);
        clone_from_with, 5, p4444, clone(2);
    }
}

pub mod od {
    use super::*;

    type O = OrdArena<P, D, D>;
    type E = InternalEntry<P, LinkNoGen<P, Node<P, D, D>>>;
    const FREE: E = InternalEntry::Free(NonZeroU8::MIN);

    /// The keys 10, 20, 30
    fn make(id: u8) -> (O, u32) {
        let mut vec = NonZeroInxVec::<E>::new();
        let (prev, next) = ([None, Some(1), Some(2)], [Some(2), Some(3), None]);
        let (back, t0, t1) = ([Some(2), None, Some(2)], [None, Some(1), None], [None, Some(3), None]);
        for i in 0..3 {
            vec.push(InternalEntry::Allocated(
                nz(2),
                LinkNoGen::new((prev[i].map(nz), next[i].map(nz)), Node {
                    k: D(id + i as u8, 10 * (i as u8 + 1)),
                    v: D(8 + id + i as u8, 0),
                    p_back: back[i].map(nz),
                    p_tree0: t0[i].map(nz),
                    p_tree1: t1[i].map(nz),
                    rank: if i == 1 { 2 } else { 1 },
                }),
            ));
        }
        vec.push(InternalEntry::Free(nz(4)));
        let a = Arena::_from_raw_parts(vec, 3, Some(nz(4)), nz(3));
        (
            OrdArena::_from_raw_parts(ChainNoGenArena::_from_raw_parts(a), nz(2), nz(1), nz(3)),
            0x707 << id,
        )
    }

    /// 0: `insert`, 1: `insert_nonhereditary`, 2: `insert_linear`, 3:
    /// `insert_nonhereditary_linear`, 4: `insert_empty`, 5: `remove`, 6:
    /// `replace_val_and_keep_gen`, 7: `replace_val_and_update_gen`, 8:
    /// `invalidate`, 9: `swap_vals`
    fn op(kind: u8) {
        let (mut o, mut all) = make(0);
        let p = some_ptr();
        let ok;
        match kind {
            0 => {
                all |= 0x808;
                let (_, r) = o.insert(D(3, ndr(5, 35)), D(11, 0));
                dropped(0);
                ok = r.is_some();
            }
            1 => {
                all |= 0x808;
                o.insert_nonhereditary(D(3, ndr(5, 35)), D(11, 0));
                dropped(0);
                ok = true;
            }
            2 => {
                all |= 0x808;
                let (_, r) = o.insert_linear(mk(ndr(1, 3), 2), 2, D(3, ndr(5, 35)), D(11, 0));
                dropped(0);
                ok = r.is_some();
            }
            3 => {
                all |= 0x808;
                o.insert_nonhereditary_linear(mk(ndr(1, 3), 2), 2, D(3, ndr(5, 35)), D(11, 0));
                dropped(0);
                ok = true;
            }
            4 => {
                all |= 0x808;
                ok = o.insert_empty(D(3, 0), D(11, 0)).is_none();
                dropped(0x808);
            }
            5 => {
                let r = o.remove(p);
                dropped(0);
                ok = r.is_some();
            }
            6 => {
                all |= 0x800;
                let r = o.replace_val_and_keep_gen(p, D(11, 0));
                dropped(0);
                ok = r.is_ok();
            }
            7 => {
                all |= 0x800;
                let r = o.replace_val_and_update_gen(p, D(11, 0));
                dropped(0);
                ok = r.is_ok();
            }
            8 => {
                ok = o.invalidate(p).is_some();
                dropped(0);
            }
            _ => {
                ok = o.swap_vals(p, some_ptr()).is_some();
                dropped(0);
            }
        }
        reach!(ok, "done");
        drop(o);
        dropped(all);
    }

    /// 0: `clear`, 1: `clear_and_shrink`, 2: `compress_and_shrink`, 3: `drain`,
    /// 4: `capacity_drain`, 5: `into_iter`, taking `k` entries
    fn whole(kind: u8, k: u8) {
        let (mut o, all) = make(0);
        match kind {
            0 => {
                o.clear();
                dropped(all);
            }
            1 => {
                o.clear_and_shrink();
                dropped(all);
            }
            2 => {
                o.compress_and_shrink();
                dropped(0);
            }
            3 => {
                let mut d = o.drain();
                let mut set = 0;
                for i in 0..3 {
                    if i < k {
                        let (p, k, v) = d.next().unwrap();
                        assert!(p == mk(i + 1, 2) && k.0 == i && v.0 == i + 8, "order");
                        dropped(set);
                        set |= (1 << k.0) | (1 << v.0);
                    }
                }
                dropped(set);
                drop(d);
                dropped(all);
            }
            _ => {
                let mut d = if kind == 4 { o.capacity_drain() } else { o.into_iter() };
                let mut set = 0;
                for i in 0..3 {
                    if i < k {
                        let (p, k, v) = d.next().unwrap();
                        assert!(p == mk(i + 1, 2) && k.0 == i && v.0 == i + 8, "order");
                        dropped(set);
                        set |= (1 << k.0) | (1 << v.0);
                    }
                }
                dropped(set);
                drop(d);
                dropped(all);
                return
            }
        }
        drop(o);
        dropped(all);
    }

    /// 0: `clone`, 1: `clone_from`, 2: `clone_from_with`
    fn clone(kind: u8) {
        let (s, all_s) = make(0);
        let new = all_s << 16;
        if kind == 0 {
            let t = s.clone();
            dropped(0);
            drop(t);
            dropped(new);
            drop(s);
            dropped(new | all_s);
        } else {
            let (mut t, all_t) = make(4);
            if kind == 1 {
                t.clone_from(&s);
            } else {
                t.clone_from_with(&s, |_, v| v.clone());
            }
            dropped(all_t);
            drop(t);
            dropped(all_t | new);
            drop(s);
            dropped(all_t | new | all_s);
        }
    }

    pool!(p4 { S0: E, FREE, 4; });
    pool!(p44 { S0: E, FREE, 4; S1: E, FREE, 4; });

    harnesses! {
        insert_3, 5, p4, op(0);
        insert_nonhereditary_3, 5, p4, op(1);
        insert_linear_3, 5, p4, op(2);
        insert_nonhereditary_linear_3, 5, p4, op(3);
        insert_empty_3, 5, p4, op(4);
        remove_3, 5, p4, op(5);
        replace_keep_3, 5, p4, op(6);
        replace_update_3, 5, p4, op(7);
        invalidate_3, 5, p4, op(8);
        swap_vals_3, 5, p4, op(9);
        clear_3, 5, p4, whole(0, 0);
        clear_shrink_3, 5, p4, whole(1, 0);
        compress_3, 5, p44, whole(2, 0);
        drain_3_0, 5, p4, whole(3, 0);
        drain_3_1, 5, p4, whole(3, 1);
        drain_3_3, 5, p4, whole(3, 3);
        capacity_drain_3_0, 5, p4, whole(4, 0);
        capacity_drain_3_1, 5, p4, whole(4, 1);
        capacity_drain_3_3, 5, p4, whole(4, 3);
        into_iter_3_0, 5, p4, whole(5, 0);
        into_iter_3_1, 5, p4, whole(5, 1);
        into_iter_3_3, 5, p4, whole(5, 3);
        clone_new, 5, p44, clone(0);
        clone_from, 5, p44, clone(1);
        clone_from_with, 5, p44, clone(2);
    }
}
