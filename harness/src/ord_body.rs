// Included by the modules of `ord`, which define the pointer and value types

use core::{cmp::Ordering, num::NonZeroU8};

use triple_arena::{
    utils::{ChainNoGenArena, InternalEntry, LinkNoGen, Node, NonZeroInxVec},
    Advancer, Arena, OrdArena, Ptr,
};

use crate::{nd::*, pool, reach, tr, unroll};

pub type O = OrdArena<P, u8, V>;
pub type E = InternalEntry<P, LinkNoGen<P, Node<P, u8, V>>>;

pub const FREE: E = InternalEntry::Free(NonZeroU8::MIN);

fn onz(x: u8) -> Option<NonZeroU8> {
    NonZeroU8::new(x)
}

/// The expected entries in order: the slot, generation, key and value
#[derive(Clone, Copy)]
pub struct Ex<const X: usize> {
    pub n: usize,
    pub at: [u8; X],
    pub g: [u8; X],
    pub k: [u8; X],
    pub v: [u8; X],
    pub generation: u8,
}

impl<const X: usize> Ex<X> {
    fn ptr(&self, i: usize) -> P {
        mk(self.at[i], self.g[i])
    }

    /// The position of a pointer
    fn pos(&self, p: P) -> Option<usize> {
        let mut res = None;
        unroll!(I, X, {
            if I < self.n && self.at[I] == p.inx().get() && self.g[I] == gv(p.generation()) {
                res = Some(I);
            }
        });
        res
    }

    fn remove(&self, at: usize) -> Self {
        let mut m = *self;
        m.n = self.n - 1;
        unroll!(I, X - 1, {
            if I >= at {
                m.at[I] = self.at[I + 1];
                m.g[I] = self.g[I + 1];
                m.k[I] = self.k[I + 1];
                m.v[I] = self.v[I + 1];
            }
        });
        m
    }

    /// With a new entry at position `at`
    fn insert(&self, at: usize, p: P, k: u8, v: u8) -> Self {
        let mut m = *self;
        m.n = self.n + 1;
        unroll!(I, X, {
            if I > 0 && I > at {
                m.at[I] = self.at[I - 1];
                m.g[I] = self.g[I - 1];
                m.k[I] = self.k[I - 1];
                m.v[I] = self.v[I - 1];
            }
            if I == at {
                m.at[I] = p.inx().get();
                m.g[I] = gv(p.generation());
                m.k[I] = k;
                m.v[I] = v;
            }
        });
        m
    }

    /// The number of keys less than `k`, and less than or equal to `k`
    fn range(&self, k: u8) -> (usize, usize) {
        let mut lo = 0;
        let mut hi = 0;
        unroll!(I, X, {
            if I < self.n {
                if self.k[I] < k {
                    lo += 1;
                }
                if self.k[I] <= k {
                    hi += 1;
                }
            }
        });
        (lo, hi)
    }

    /// The generation after an invalidation
    fn inc(&mut self) {
        if GEN {
            assume(self.generation < 255);
            self.generation += 1;
        }
    }
}

/// How the keys of the start state are ordered
pub const ANY: u8 = 0;
pub const SORTED: u8 = 1;
pub const STRICT: u8 = 2;

/// An arbitrary valid arena with `N` entries and `S` slots. The slots are used in
/// any order if `perm`, otherwise in reverse order with the free slots at the
/// end. `X` is the size of the expected state.
pub fn any_ord<const N: usize, const S: usize, const X: usize>(perm: bool, order: u8) -> (O, Ex<X>) {
    any_ord_gen::<N, S, X>(perm, order, if GEN { ndr(2, 255) } else { 0 })
}

fn any_ord_gen<const N: usize, const S: usize, const X: usize>(
    perm: bool,
    order: u8,
    generation: u8,
) -> (O, Ex<X>) {
    let mut ex = Ex {
        n: N,
        at: [0; X],
        g: [0; X],
        k: [0; X],
        v: [0; X],
        generation,
    };
    // the position in each slot
    let mut free = [true; S];
    let mut in_slot = [0u8; S];
    unroll!(I, N, {
        if perm {
            let s = ndr(1, S as u8);
            assume(free[s as usize - 1]);
            ex.at[I] = s;
            free[s as usize - 1] = false;
            in_slot[s as usize - 1] = I as u8;
        } else {
            ex.at[I] = (N - I) as u8;
            free[N - 1 - I] = false;
            in_slot[N - 1 - I] = I as u8;
        }
        if GEN {
            ex.g[I] = ndr(2, generation);
            ex.v[I] = nd();
        }
        ex.k[I] = nd();
        if I > 0 {
            assume(order == ANY || ex.k[I - 1] <= ex.k[I]);
            assume(order != STRICT || ex.k[I - 1] < ex.k[I]);
        }
    });
    // the tree in terms of positions + 1, `lo` and `hi` are the first and last
    // positions of each subtree
    let mut left = [0u8; N];
    let mut right = [0u8; N];
    let mut back = [0u8; N];
    let mut rank = [0u8; N];
    let mut lo = [0u8; N];
    let mut hi = [0u8; N];
    unroll!(I, N, {
        let me = I as u8 + 1;
        left[I] = ndr(0, me - 1);
        right[I] = nd();
        assume(right[I] == 0 || (right[I] > me && right[I] <= N as u8));
        back[I] = ndr(0, N as u8);
        lo[I] = ndr(1, me);
        hi[I] = ndr(me, N as u8);
        rank[I] = ndr(1, 8);
    });
    let mut root = 1;
    if N > 0 {
        root = ndr(1, N as u8);
    }
    unroll!(I, N, {
        let me = I as u8 + 1;
        assume((left[I] == 0) == (lo[I] == me));
        assume((right[I] == 0) == (hi[I] == me));
        let mut rl = 0;
        let mut rr = 0;
        if left[I] != 0 {
            let c = left[I] as usize - 1;
            assume(back[c] == me && lo[c] == lo[I] && hi[c] == me - 1);
            rl = rank[c];
        }
        if right[I] != 0 {
            let c = right[I] as usize - 1;
            assume(back[c] == me && lo[c] == me + 1 && hi[c] == hi[I]);
            rr = rank[c];
        }
        assume((back[I] == 0) == (root == me));
        if back[I] != 0 {
            let b = back[I] as usize - 1;
            assume(if back[I] > me { left[b] == me } else { right[b] == me });
        }
        assume(rl < rank[I] && rr < rank[I] && rank[I] - rl <= 2 && rank[I] - rr <= 2);
        assume(left[I] != 0 || right[I] != 0 || rank[I] == 1);
    });
    let slot = |p: u8| if p == 0 { 0 } else { ex.at[p as usize - 1] };
    let (freelist, next) = if S == N {
        (0, [1; S])
    } else if perm {
        crate::arena::any_freelist::<S>(&free)
    } else {
        let mut next = [1; S];
        unroll!(I, S, {
            next[I] = if I + 1 == S { S as u8 } else { I as u8 + 2 };
        });
        (N as u8 + 1, next)
    };
    let mut vec = NonZeroInxVec::<E>::new();
    unroll!(I, S, {
        vec.push(if free[I] {
            InternalEntry::Free(nz(next[I]))
        } else {
            let i = in_slot[I] as usize;
            let node = Node {
                k: ex.k[i],
                v: mkv(ex.v[i]),
                p_back: onz(slot(back[i])),
                p_tree0: onz(slot(left[i])),
                p_tree1: onz(slot(right[i])),
                rank: rank[i],
            };
            let prev = if i == 0 { 0 } else { ex.at[i - 1] };
            let next = if i + 1 == N { 0 } else { ex.at[i + 1] };
            InternalEntry::Allocated(mg(ex.g[i]), LinkNoGen::new((onz(prev), onz(next)), node))
        });
    });
    let a = Arena::_from_raw_parts(vec, N, onz(freelist), mg(generation));
    let c = ChainNoGenArena::_from_raw_parts(a);
    let o = if N == 0 {
        // these can be left over from earlier entries
        OrdArena::_from_raw_parts(c, nz(ndr(1, 4)), nz(ndr(1, 4)), nz(ndr(1, 4)))
    } else {
        let r = root as usize - 1;
        assume(lo[r] == 1 && hi[r] == N as u8);
        OrdArena::_from_raw_parts(c, nz(ex.at[r]), nz(ex.at[0]), nz(ex.at[N - 1]))
    };
    (o, ex)
}

/// The maximum number of nodes on a path from the root
fn max_depth(n: usize) -> usize {
    if n < 2 {
        n
    } else if n < 3 {
        2
    } else if n < 5 {
        3
    } else if n < 7 {
        4
    } else if n < 11 {
        5
    } else if n < 15 {
        6
    } else {
        7
    }
}

/// Compares all entries, and checks the validity of the tree
pub fn check<const X: usize>(o: &O, ex: &Ex<X>) {
    assert!(o.len() == ex.n, "len");
    assert!(o.is_empty() == (ex.n == 0), "is_empty");
    assert!(gv(o.generation()) == ex.generation, "generation");
    if ex.n == 0 {
        assert!(o.first().is_none() && o.last().is_none());
        return
    }
    assert!(o.first() == Some(ex.ptr(0)), "first");
    assert!(o.last() == Some(ex.ptr(ex.n - 1)), "last");
    let (a, root) = o._raw_parts();
    // the position + 1 of each slot
    let mut pos = [0u8; 20];
    unroll!(I, X, {
        if I < ex.n {
            let s = ex.at[I] as usize;
            assert!(s < 20 && pos[s] == 0, "slot used twice");
            pos[s] = I as u8 + 1;
        }
    });
    unroll!(I, X, {
        if I < ex.n {
            let s = nz(ex.at[I]);
            match a.get_no_gen(s) {
                None => assert!(false, "missing entry"),
                Some((g, link)) => {
                    assert!(gv(g) == ex.g[I], "generation of entry");
                    let t = &link.t;
                    assert!(t.k == ex.k[I], "key of entry");
                    assert!(vv(&t.v) == ex.v[I], "value of entry");
                    let prev = if I == 0 { 0 } else { ex.at[I - 1] };
                    let next = if I + 1 == ex.n { 0 } else { ex.at[(I + 1) % X] };
                    assert!(link.prev() == onz(prev), "previous entry");
                    assert!(link.next() == onz(next), "next entry");
                    let mut rl = 0;
                    let mut rr = 0;
                    if let Some(c) = t.p_tree0 {
                        let c = &a.get_no_gen(c).unwrap().1.t;
                        assert!(c.p_back == Some(s), "parent of left child");
                        rl = c.rank;
                    }
                    if let Some(c) = t.p_tree1 {
                        let c = &a.get_no_gen(c).unwrap().1.t;
                        assert!(c.p_back == Some(s), "parent of right child");
                        rr = c.rank;
                    }
                    assert!(rl < t.rank && rr < t.rank, "rank not greater than rank of child");
                    assert!(t.rank - rl <= 2 && t.rank - rr <= 2, "rank difference");
                    assert!(t.p_tree0.is_some() || t.p_tree1.is_some() || t.rank == 1, "rank of leaf");
                    assert!(t.p_back.is_none() == (s == root), "root");
                }
            }
        }
    });
    // every entry is at its place in the tree, not deeper than allowed
    let j = ndr(1, X as u8);
    assume(j as usize <= ex.n);
    let mut cur = root;
    let mut found = false;
    unroll!(I, max_depth(X), {
        if !found && I < max_depth(ex.n) {
            let p = pos[cur.get() as usize];
            if p == j {
                found = true;
            } else {
                let t = &a.get_no_gen(cur).unwrap().1.t;
                let c = if j < p { t.p_tree0 } else { t.p_tree1 };
                match c {
                    Some(c) => cur = c,
                    None => assert!(false, "entry not at its place in the tree"),
                }
            }
        }
    });
    assert!(found, "entry too deep in the tree");
}

fn remove<const N: usize, const S: usize>(perm: bool) {
    let (mut o, mut ex) = any_ord::<N, S, N>(perm, SORTED);
    let p = any_ptr();
    let i = ex.pos(p);
    if N > 3 {
        assume(i.is_some());
    }
    assume(!GEN || ex.generation < 255);
    let res = o.remove(p);
    reach!(i.is_some(), "removed");
    match i {
        None => assert!(res.is_none(), "removed with invalid pointer"),
        Some(i) => {
            let (k, v) = res.unwrap();
            assert!(k == ex.k[i] && vv(&v) == ex.v[i], "removed another entry");
            ex.inc();
            ex = ex.remove(i);
        }
    }
    check(&o, &ex);
    assert!(o.capacity() == S, "capacity");
    core::mem::forget(o);
}

/// 0: `insert`, 1: `insert_nonhereditary`, 2: `insert_linear`, 3:
/// `insert_nonhereditary_linear`, 4: `insert_inx_manual_unwrap`, 5:
/// `ArenaTrait::insert`
fn insert<const N: usize, const S: usize, const X: usize>(kind: u8, perm: bool) {
    let order = if kind == 4 {
        ANY
    } else {
        SORTED
    };
    let (mut o, mut ex) = any_ord::<N, S, X>(perm, order);
    let k = nd();
    let v = if GEN { nd() } else { 0 };
    let p0 = any_ptr();
    let num = nd() as usize;
    let (mut lo, mut hi) = ex.range(k);
    let mut at0 = None;
    let (p, old) = match kind {
        0 => o.insert(k, mkv(v)),
        1 => (o.insert_nonhereditary(k, mkv(v)), None),
        2 => o.insert_linear(p0, num, k, mkv(v)),
        3 => (o.insert_nonhereditary_linear(p0, num, k, mkv(v)), None),
        5 => (tr::insert(&mut o, (k, mkv(v))), None),
        _ => {
            let i = ndr(0, N as u8 - 1) as usize;
            let d = ndr(0, 2);
            let d = if d == 0 {
                lo = i;
                hi = i;
                Ordering::Less
            } else if d == 1 {
                at0 = Some(i);
                lo = 0;
                hi = 1;
                Ordering::Equal
            } else {
                lo = i + 1;
                hi = i + 1;
                Ordering::Greater
            };
            o.insert_inx_manual_unwrap(nz(ex.at[i]), d, k, mkv(v))
        }
    };
    reach!(N < 2 || kind == 1 || kind == 3 || kind == 5 || old.is_some(), "replaced");
    reach!(old.is_none(), "inserted");
    if lo != hi && (kind == 0 || kind == 2 || kind == 4 || kind == 5) {
        // replaced
        let i = ex.pos(p);
        match i {
            None => assert!(false, "pointer to replaced"),
            Some(i) => {
                assert!(kind == 4 || ex.k[i] == k, "replaced value of another key");
                assert!(at0.is_none() || at0 == Some(i), "replaced value of another entry");
                if kind != 5 {
                    let (k1, v1) = old.unwrap();
                    assert!(k1 == k && vv(&v1) == ex.v[i], "replaced pair");
                }
                ex.v[i] = v;
            }
        }
    } else {
        assert!(old.is_none(), "unexpected replacement");
        assert!(gv(p.generation()) == ex.generation, "generation of new pointer");
        // the position is only determined up to equal keys
        let mut at = 0;
        let (_, link) = o.get_link_no_gen(p.inx()).unwrap();
        if let Some(prev) = link.prev() {
            at = N + 1;
            unroll!(I, N, {
                if ex.at[I] == prev.get() {
                    at = I + 1;
                }
            });
        }
        assert!(at >= lo && at <= hi, "position of new entry");
        ex = ex.insert(at, p, k, v);
    }
    check(&o, &ex);
    assert!(o.capacity() == S || (S == N && o.capacity() > S), "capacity");
    core::mem::forget(o);
}

/// 0: `find_key`, 1: `find_similar_key`, 2: `find_with`, 3: `find_similar_with`,
/// 4: `find_key_linear`, 5: `find_similar_key_linear`
fn find<const N: usize, const S: usize>(kind: u8) {
    let (o, ex) = any_ord::<N, S, N>(N <= 3, SORTED);
    let k = nd();
    let (lo, hi) = ex.range(k);
    let p0 = any_ptr();
    let num = nd();
    let num = if num == 255 { usize::MAX } else { num as usize };
    let mut bad = false;
    let cmp = |p: P, k1: &u8, v1: &V| {
        match ex.pos(p) {
            None => bad = true,
            Some(i) => {
                if *k1 != ex.k[i] || vv(v1) != ex.v[i] {
                    bad = true;
                }
            }
        }
        k.cmp(k1)
    };
    let res = match kind {
        0 => o.find_key(&k).map(|p| (p, Ordering::Equal)),
        1 => o.find_similar_key(&k),
        2 => o.find_with(cmp).map(|p| (p, Ordering::Equal)),
        3 => o.find_similar_with(cmp),
        4 => o.find_key_linear(p0, num, &k).map(|p| (p, Ordering::Equal)),
        _ => o.find_similar_key_linear(p0, num, &k),
    };
    assert!(!bad, "the function was called with something else than an entry");
    reach!(N == 0 || lo != hi, "present");
    reach!(lo == hi, "absent");
    match res {
        None => {
            if kind == 0 || kind == 2 || kind == 4 {
                assert!(lo == hi, "key not found");
            } else {
                assert!(N == 0, "no similar key");
            }
        }
        Some((p, d)) => match ex.pos(p) {
            None => assert!(false, "found invalid pointer"),
            Some(i) => match d {
                Ordering::Equal => assert!(ex.k[i] == k, "found another key"),
                // it would be inserted next to the entry
                Ordering::Less => assert!(lo == hi && lo == i, "not similar"),
                Ordering::Greater => assert!(lo == hi && lo == i + 1, "not similar"),
            },
        },
    }
    core::mem::forget(o);
}
