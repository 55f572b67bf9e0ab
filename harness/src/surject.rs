//! `SurjectArena`: one operation from an arbitrary state

use core::num::{NonZeroU8, NonZeroUsize};

use triple_arena::{
    utils::{ChainNoGenArena, InternalEntry, Key, LinkNoGen, NonZeroInxVec, PtrNoGen, Val},
    Advancer, Arena, ChainArena, Ptr, Recast, Recaster, SurjectArena,
};

use crate::{
    arena::{any_freelist, any_ptr, mk, nz, Flip, P},
    harnesses,
    nd::*,
    no_growth_harnesses, pool_kv, reach, tr,
};

pub type S = SurjectArena<P, u8, u8>;
pub type EK = InternalEntry<P, LinkNoGen<P, Key<P, u8>>>;
pub const FREEK: EK = InternalEntry::Free(NonZeroU8::MIN);
pub type EV = InternalEntry<PtrNoGen<P>, Val<u8>>;
pub const FREEV: EV = InternalEntry::Free(NonZeroU8::MIN);
type EP = InternalEntry<P, P>;
const FREEP: EP = InternalEntry::Free(NonZeroU8::MIN);
type EA = InternalEntry<P, u8>;
const FREEA: EA = InternalEntry::Free(NonZeroU8::MIN);
type EC = InternalEntry<P, triple_arena::Link<P, u8>>;
const FREEC: EC = InternalEntry::Free(NonZeroU8::MIN);
type EN = InternalEntry<P, LinkNoGen<P, u8>>;
const FREEN: EN = InternalEntry::Free(NonZeroU8::MIN);

/// Number of set labels, the labels `1..=N` are initially used
const L: usize = 6;

/// Slot `i + 1` is free if `g[i] == 0`, otherwise has generation `g[i]`, key
/// `k[i]` and is in the set labeled `s[i]`. The value of set `s` is `v[s]`.
#[derive(Clone, Copy)]
pub struct Sj<const M: usize> {
    pub cap: usize,
    pub cap_vals: usize,
    pub generation: u8,
    pub g: [u8; M],
    pub k: [u8; M],
    pub s: [u8; M],
    pub v: [u8; L],
    /// Initial order of the keys of a set
    pub next: [u8; M],
}

impl<const M: usize> Sj<M> {
    pub fn len(&self) -> usize {
        let mut n = 0;
        for i in 0..M {
            if self.g[i] != 0 {
                n += 1;
            }
        }
        n
    }

    /// Number of keys in a set
    pub fn count(&self, s: u8) -> usize {
        let mut n = 0;
        for i in 0..M {
            if self.g[i] != 0 && self.s[i] == s {
                n += 1;
            }
        }
        n
    }

    pub fn len_vals(&self) -> usize {
        let mut n = 0;
        for i in 0..M {
            // count the first key of each set
            let mut first = self.g[i] != 0;
            for j in 0..i {
                if self.g[j] != 0 && self.s[j] == self.s[i] {
                    first = false;
                }
            }
            if first {
                n += 1;
            }
        }
        n
    }

    pub fn slot(&self, p: P) -> Option<usize> {
        let i = p.inx().get() as usize - 1;
        if i < M && self.g[i] != 0 && self.g[i] == p.generation().get() {
            Some(i)
        } else {
            None
        }
    }

    pub fn val(&self, i: usize) -> u8 {
        self.v[self.s[i] as usize]
    }
}

/// The cycle through slot index `i` has exactly `n` slots
pub fn cycle<const M: usize>(next: &[u8; M], i: usize, n: usize) -> bool {
    let mut ok = true;
    let mut cur = i as u8 + 1;
    for k in 0..M {
        if k < n && ok {
            if cur == 0 || cur as usize > M {
                ok = false;
            } else {
                cur = next[cur as usize - 1];
                if (cur == i as u8 + 1) != (k + 1 == n) {
                    ok = false;
                }
            }
        }
    }
    ok
}

/// The value types
pub trait Vt {
    fn of(x: u8) -> Self;
    fn is(&self, x: u8) -> bool;
}

impl Vt for u8 {
    fn of(x: u8) -> u8 {
        x
    }

    fn is(&self, x: u8) -> bool {
        *self == x
    }
}

impl Vt for () {
    fn of(_: u8) {}

    fn is(&self, _: u8) -> bool {
        true
    }
}

/// An arbitrary state with capacities `N` and `NV`, and `len` keys
pub fn any_len<const N: usize, const NV: usize, const M: usize>(len: Option<usize>, generation: u8) -> (S, Sj<M>) {
    any_v::<u8, N, NV, M>(len, generation)
}

pub fn any_v<V: Vt, const N: usize, const NV: usize, const M: usize>(
    len: Option<usize>,
    generation: u8,
) -> (SurjectArena<P, u8, V>, Sj<M>) {
    let mut m = Sj {
        cap: N,
        cap_vals: NV,
        generation,
        g: [0; M],
        k: [0; M],
        s: [0; M],
        v: [0; L],
        next: [0; M],
    };
    let mut free = [true; N];
    let mut prev = [0u8; M];
    for i in 0..N {
        if ndb() {
            free[i] = false;
            m.g[i] = ndr(2, generation);
            m.k[i] = nd();
            m.s[i] = ndr(1, NV as u8);
            m.next[i] = ndr(1, N as u8);
            prev[i] = ndr(1, N as u8);
        }
    }
    for i in 0..N {
        if m.g[i] != 0 {
            let j = m.next[i] as usize - 1;
            // the rest of the set is reached, all of it
            assume(m.g[j] != 0 && m.s[j] == m.s[i] && prev[j] == i as u8 + 1);
            assume(cycle(&m.next, i, m.count(m.s[i])));
        }
    }
    let (root, fnext) = any_freelist::<N>(&free);
    let mut vec = NonZeroInxVec::<EK>::new();
    for i in 0..N {
        vec.push(if free[i] {
            InternalEntry::Free(nz(fnext[i]))
        } else {
            InternalEntry::Allocated(
                nz(m.g[i]),
                LinkNoGen::new((Some(nz(prev[i])), Some(nz(m.next[i]))), Key {
                    k: m.k[i],
                    p_val: PtrNoGen::_from_raw(nz(m.s[i]), ()),
                }),
            )
        });
    }
    let n = match len {
        Some(n) => {
            assume(m.len() == n);
            n
        }
        None => m.len(),
    };
    let keys = Arena::_from_raw_parts(vec, n, NonZeroU8::new(root), nz(generation));
    let mut vfree = [true; NV];
    let mut nv = 0;
    for i in 0..NV {
        let c = m.count(i as u8 + 1);
        if c != 0 {
            vfree[i] = false;
            m.v[i + 1] = nd();
            nv += 1;
        }
    }
    let (vroot, vnext) = any_freelist::<NV>(&vfree);
    let mut vec = NonZeroInxVec::<InternalEntry<PtrNoGen<P>, Val<V>>>::new();
    for i in 0..NV {
        vec.push(if vfree[i] {
            InternalEntry::Free(nz(vnext[i]))
        } else {
            InternalEntry::Allocated((), Val {
                v: V::of(m.v[i + 1]),
                key_count: NonZeroUsize::new(m.count(i as u8 + 1)).unwrap(),
            })
        });
    }
    let vals = Arena::_from_raw_parts(vec, nv, NonZeroU8::new(vroot), ());
    (SurjectArena::_from_raw_parts(ChainNoGenArena::_from_raw_parts(keys), vals), m)
}

pub fn any<const N: usize, const NV: usize, const M: usize>() -> (S, Sj<M>) {
    any_len::<N, NV, M>(None, ndr(2, 255))
}

pub fn check<V: Vt, const M: usize>(a: &SurjectArena<P, u8, V>, m: &Sj<M>) {
    assert!(a.len_keys() == m.len(), "len_keys");
    assert!(a.len_vals() == m.len_vals(), "len_vals");
    assert!(a.is_empty() == (m.len() == 0), "is_empty");
    assert!(a.capacity_keys() == m.cap, "capacity_keys");
    assert!(a.capacity_vals() == m.cap_vals, "capacity_vals");
    assert!(a.generation().get() == m.generation, "generation");
    let mut prev = [0u8; M];
    let mut next = [0u8; M];
    for i in 0..M {
        match a.get_link_no_gen(nz(i as u8 + 1)) {
            Some((g, l)) => {
                assert!(m.g[i] != 0, "key that should be free");
                assert!(g.get() == m.g[i], "generation of key");
                assert!(*l.t == m.k[i], "key");
                prev[i] = l.prev().map(|x| x.get()).unwrap_or(0);
                next[i] = l.next().map(|x| x.get()).unwrap_or(0);
            }
            None => assert!(m.g[i] == 0, "missing key"),
        }
    }
    for i in 0..M {
        if m.g[i] != 0 {
            let j = next[i] as usize;
            assert!(j >= 1 && j <= M && m.g[j - 1] != 0 && prev[j - 1] == i as u8 + 1, "links of the keys are not mutual");
            assert!(cycle(&next, i, m.count(m.s[i])), "links do not connect the key set");
            assert!(m.s[j - 1] == m.s[i], "linked to a key of another set");
        }
    }
    let (p, q) = (any_ptr(), any_ptr());
    let (sp, sq) = (m.slot(p), m.slot(q));
    assert!(a.contains(p) == sp.is_some(), "contains");
    match a.get(p) {
        Some((k, v)) => {
            let i = sp.unwrap();
            assert!(*k == m.k[i] && v.is(m.val(i)), "get");
        }
        None => assert!(sp.is_none(), "get"),
    }
    match a.len_key_set(p) {
        Some(n) => assert!(sp.is_some() && n.get() == m.count(m.s[sp.unwrap()]), "len_key_set"),
        None => assert!(sp.is_none(), "len_key_set"),
    }
    match a.in_same_set(p, q) {
        Some(b) => assert!(b == (m.s[sp.unwrap()] == m.s[sq.unwrap()]), "in_same_set"),
        None => assert!(sp.is_none() || sq.is_none(), "in_same_set"),
    }
}

/// All remaining capacity is usable
fn exhaust<const M: usize>(a: &mut S, m: &mut Sj<M>) {
    let f = m.cap - m.len();
    let fv = m.cap_vals - m.len_vals();
    for k in 0..M {
        if k < f && k < fv {
            let v = nd();
            let p = a.insert(v, v);
            placed(m, p, v, (L - 1 - k) as u8);
            m.v[L - 1 - k] = v;
        }
    }
    check(a, m);
}

fn placed<const M: usize>(m: &mut Sj<M>, p: P, k: u8, s: u8) {
    let i = p.inx().get() as usize - 1;
    assert!(i < m.cap, "index in capacity");
    assert!(m.g[i] == 0, "insertion on a used slot");
    assert!(p.generation().get() == m.generation, "generation of insert");
    m.g[i] = m.generation;
    m.k[i] = k;
    m.s[i] = s;
}

fn fin(a: S) {
    core::mem::forget(a)
}

/// Accounts for growth
fn grow<const M: usize>(a: &S, m: &mut Sj<M>, vals: bool) {
    if m.len() == m.cap {
        assert!(a.capacity_keys() > m.cap, "grown");
        m.cap = a.capacity_keys();
        assume(m.cap <= M);
    }
    if vals && m.len_vals() == m.cap_vals {
        assert!(a.capacity_vals() > m.cap_vals, "grown");
        m.cap_vals = a.capacity_vals();
        assume(m.cap_vals <= M);
    }
}

/// 0 `insert`, 1 `insert_with`
fn insert<const N: usize, const NV: usize, const M: usize>(kind: u8) {
    let (mut a, mut m) = any::<N, NV, M>();
    let (k, v) = (nd(), nd());
    let p = if kind == 0 {
        a.insert(k, v)
    } else {
        let mut given = None;
        let p = a.insert_with(|p| {
            given = Some(p);
            (k, v)
        });
        assert!(given == Some(p), "argument of create");
        p
    };
    grow(&a, &mut m, true);
    placed(&mut m, p, k, 5);
    m.v[5] = v;
    check(&a, &m);
    fin(a);
}

fn insert_key<const N: usize, const NV: usize, const M: usize>(kind: u8) {
    let (mut a, mut m) = any::<N, NV, M>();
    let (p, k) = (any_ptr(), nd());
    let s = m.slot(p);
    let r = if kind == 0 {
        match a.insert_key(p, k) {
            Ok(q) => Some(q),
            Err(e) => {
                assert!(e == k);
                None
            }
        }
    } else {
        let mut given = None;
        let r = a.insert_key_with(p, |q| {
            given = Some(q);
            k
        });
        assert!(given == r, "argument of create");
        r
    };
    assert!(r.is_some() == s.is_some(), "result");
    if let Some(i) = s {
        grow(&a, &mut m, false);
        let s = m.s[i];
        placed(&mut m, r.unwrap(), k, s);
    }
    check(&a, &m);
    fin(a);
}

fn access<const N: usize, const NV: usize>() {
    let (mut a, mut m) = any::<N, NV, N>();
    let (p0, p1) = (any_ptr(), any_ptr());
    let (s0, s1) = (m.slot(p0), m.slot(p1));
    match a.get_key(p0) {
        Some(k) => assert!(*k == m.k[s0.unwrap()]),
        None => assert!(s0.is_none()),
    }
    match a.get_val(p0) {
        Some(v) => assert!(*v == m.val(s0.unwrap())),
        None => assert!(s0.is_none()),
    }
    match a.get_key_mut(p0) {
        Some(k) => {
            assert!(*k == m.k[s0.unwrap()]);
            *k = 1;
            m.k[s0.unwrap()] = 1;
        }
        None => assert!(s0.is_none()),
    }
    match a.get_val_mut(p0) {
        Some(v) => {
            assert!(*v == m.val(s0.unwrap()));
            *v = 2;
            m.v[m.s[s0.unwrap()] as usize] = 2;
        }
        None => assert!(s0.is_none()),
    }
    match a.get_mut(p1) {
        Some((k, v)) => {
            assert!(*k == m.k[s1.unwrap()] && *v == m.val(s1.unwrap()));
            *k = 3;
            *v = 4;
            m.k[s1.unwrap()] = 3;
            m.v[m.s[s1.unwrap()] as usize] = 4;
        }
        None => assert!(s1.is_none()),
    }
    check(&a, &m);
    fin(a);
}

fn access2<const N: usize, const NV: usize>() {
    let (mut a, mut m) = any::<N, NV, N>();
    let (p0, p1) = (any_ptr(), any_ptr());
    let (s0, s1) = (m.slot(p0), m.slot(p1));
    let both = s0.is_some() && s1.is_some();
    let sets = both && m.s[s0.unwrap()] != m.s[s1.unwrap()];
    match a.get2_key_mut(p0, p1) {
        Some((a, b)) => {
            assert!(both && s0 != s1);
            assert!(*a == m.k[s0.unwrap()] && *b == m.k[s1.unwrap()]);
            *a = 1;
            *b = 2;
            m.k[s0.unwrap()] = 1;
            m.k[s1.unwrap()] = 2;
        }
        None => assert!(!both || s0 == s1),
    }
    match a.get2_val_mut(p0, p1) {
        Some((a, b)) => {
            assert!(sets);
            assert!(*a == m.val(s0.unwrap()) && *b == m.val(s1.unwrap()));
            *a = 3;
            *b = 4;
            m.v[m.s[s0.unwrap()] as usize] = 3;
            m.v[m.s[s1.unwrap()] as usize] = 4;
        }
        None => assert!(!sets),
    }
    match a.get2_mut(p0, p1) {
        Some(((k0, v0), (k1, v1))) => {
            assert!(sets);
            assert!(*k0 == 1 && *k1 == 2 && *v0 == 3 && *v1 == 4);
            *k0 = 5;
            *v0 = 6;
            *k1 = 7;
            *v1 = 8;
            m.k[s0.unwrap()] = 5;
            m.k[s1.unwrap()] = 7;
            m.v[m.s[s0.unwrap()] as usize] = 6;
            m.v[m.s[s1.unwrap()] as usize] = 8;
        }
        None => assert!(!sets),
    }
    check(&a, &m);
    fin(a);
}

fn union<const N: usize, const NV: usize>() {
    let (mut a, mut m) = any::<N, NV, N>();
    let (p0, p1) = (any_ptr(), any_ptr());
    let r = a.union(p0, p1);
    match (m.slot(p0), m.slot(p1)) {
        (Some(i), Some(j)) if m.s[i] != m.s[j] => {
            let (l0, l1) = (m.count(m.s[i]), m.count(m.s[j]));
            reach!(l0 < l1, "smaller first");
            reach!(l0 > l1, "larger first");
            let (keep, kept_p, gone) = if l0 < l1 { (m.s[j], p1, m.s[i]) } else { (m.s[i], p0, m.s[j]) };
            assert!(r == Some((m.v[gone as usize], kept_p)), "union result");
            for x in 0..N {
                if m.s[x] == gone {
                    m.s[x] = keep;
                }
            }
        }
        _ => assert!(r.is_none(), "union of the same set or invalid pointers"),
    }
    check(&a, &m);
    fin(a);
}

fn remove_key<const N: usize, const NV: usize>(ex: bool) {
    let (mut a, mut m) = any::<N, NV, N>();
    let p = any_ptr();
    let s = m.slot(p);
    assume(m.generation < 255 || s.is_none());
    let r = a.remove_key(p);
    match s {
        Some(i) => {
            let last = m.count(m.s[i]) == 1;
            reach!(!last, "not the last");
            assert!(r == Some((m.k[i], if last { Some(m.val(i)) } else { None })), "remove_key result");
            m.generation += 1;
            m.g[i] = 0;
        }
        None => assert!(r.is_none()),
    }
    if ex {
        exhaust(&mut a, &mut m);
    } else {
        check(&a, &m);
    }
    fin(a);
}

/// 0 `insert`, 1 `remove`, 2 `clear`, 3 `clear_and_shrink`, 4 the rest of
/// `ArenaTrait`
fn generic<const N: usize, const NV: usize, const M: usize>(kind: u8) {
    let (mut a, mut m) = any_v::<(), N, NV, M>(None, ndr(2, 255));
    let p = any_ptr();
    let s = m.slot(p);
    let k = nd();
    match kind {
        0 => {
            let p = tr::insert(&mut a, k);
            if m.len() == m.cap {
                assert!(a.capacity_keys() > m.cap, "grown");
                m.cap = a.capacity_keys();
                assume(m.cap <= M);
            }
            if m.len_vals() == m.cap_vals {
                assert!(a.capacity_vals() > m.cap_vals, "grown");
                m.cap_vals = a.capacity_vals();
                assume(m.cap_vals <= M);
            }
            placed(&mut m, p, k, 5);
        }
        1 => {
            assume(m.generation < 255 || s.is_none());
            let r = tr::remove(&mut a, p);
            match s {
                Some(i) => {
                    assert!(r == Some(m.k[i]), "removed key");
                    m.generation += 1;
                    m.g[i] = 0;
                }
                None => assert!(r.is_none(), "removed key"),
            }
        }
        2 | 3 => {
            assume(m.generation < 255);
            if kind == 2 {
                tr::clear(&mut a);
            } else {
                tr::clear_and_shrink(&mut a);
                m.cap = 0;
                m.cap_vals = 0;
            }
            m.generation += 1;
            m.g = [0; M];
        }
        _ => {
            let n: SurjectArena<P, u8, ()> = tr::new();
            assert!(n.len_keys() == 0 && n.capacity_keys() == 0 && n.generation().get() == 2, "new");
            assert!(tr::len(&a) == m.len() && tr::is_empty(&a) == (m.len() == 0), "len");
            assert!(tr::capacity(&a) == m.cap, "capacity");
            assert!(tr::generation(&a).get() == m.generation, "generation");
            assert!(tr::contains(&a, p) == s.is_some(), "contains");
            match tr::get(&a, p) {
                Some(k) => assert!(*k == m.k[s.unwrap()], "get"),
                None => assert!(s.is_none(), "get"),
            }
            match tr::get_mut(&mut a, p) {
                Some(x) => {
                    assert!(*x == m.k[s.unwrap()], "get_mut");
                    *x = k;
                    m.k[s.unwrap()] = k;
                }
                None => assert!(s.is_none(), "get_mut"),
            }
            let (mut x, mut y) = (tr::advancer(&a), a.advancer());
            for _ in 0..=N {
                assert!(x.advance(&a) == y.advance(&a), "advancer");
            }
        }
    }
    check(&a, &m);
    core::mem::forget(a);
}

fn remove<const N: usize, const NV: usize>(ex: bool) {
    let (mut a, mut m) = any::<N, NV, N>();
    let p = any_ptr();
    let s = m.slot(p);
    assume(m.generation < 255 || s.is_none());
    let r = a.remove(p);
    match s {
        Some(i) => {
            assert!(r == Some(m.val(i)), "remove result");
            m.generation += 1;
            let s = m.s[i];
            for x in 0..N {
                if m.s[x] == s {
                    m.g[x] = 0;
                }
            }
        }
        None => assert!(r.is_none()),
    }
    if ex {
        exhaust(&mut a, &mut m);
    } else {
        check(&a, &m);
    }
    fin(a);
}

fn invalidate<const N: usize, const NV: usize>() {
    let (mut a, mut m) = any::<N, NV, N>();
    let p = any_ptr();
    let s = m.slot(p);
    assume(m.generation < 255 || s.is_none());
    let r = a.invalidate(p);
    match s {
        Some(i) => {
            m.generation += 1;
            m.g[i] = m.generation;
            assert!(r == Some(mk(i as u8 + 1, m.generation)));
        }
        None => assert!(r.is_none()),
    }
    check(&a, &m);
    fin(a);
}

fn swap<const N: usize, const NV: usize>(vals: bool) {
    let (mut a, mut m) = any::<N, NV, N>();
    let (p0, p1) = (any_ptr(), any_ptr());
    let r = if vals { a.swap_vals(p0, p1) } else { a.swap_keys(p0, p1) };
    match (m.slot(p0), m.slot(p1)) {
        (Some(i), Some(j)) => {
            assert!(r == Some(()));
            if vals {
                m.v.swap(m.s[i] as usize, m.s[j] as usize);
            } else {
                m.k.swap(i, j);
            }
        }
        _ => assert!(r.is_none()),
    }
    check(&a, &m);
    fin(a);
}

fn clear<const N: usize, const NV: usize>(shrink: bool) {
    let (mut a, mut m) = any::<N, NV, N>();
    assume(m.generation < 255);
    if shrink {
        a.clear_and_shrink();
        m.cap = 0;
        m.cap_vals = 0;
    } else {
        a.clear();
    }
    m.generation += 1;
    m.g = [0; N];
    exhaust(&mut a, &mut m);
    fin(a);
}

fn reserve<const N: usize, const NV: usize, const M: usize>() {
    let (mut a, mut m) = any::<N, NV, M>();
    let (nk, nv) = (ndr(0, 2) as usize, ndr(0, 2) as usize);
    a.reserve_keys(nk);
    a.reserve_vals(nv);
    assert!(a.capacity_keys() >= m.len() + nk && a.capacity_keys() >= N);
    assert!(a.capacity_vals() >= m.len_vals() + nv && a.capacity_vals() >= NV);
    m.cap = a.capacity_keys();
    m.cap_vals = a.capacity_vals();
    assume(m.cap <= M && m.cap_vals <= M);
    check(&a, &m);
    fin(a);
}

/// Recasting the keys and values
fn recast<const N: usize, const NV: usize>() {
    let (mut a, mut m) = any::<N, NV, N>();
    let mut ok = true;
    for i in 0..N {
        if m.g[i] != 0 {
            ok &= m.k[i] != 9 && m.val(i) != 9;
            m.k[i] ^= 0x80;
        }
    }
    for i in 0..L {
        m.v[i] ^= 0x80;
    }
    let r = a.recast(&Flip);
    assert!(r == if ok { Ok(()) } else { Err(9) }, "result");
    if ok {
        check(&a, &m);
    }
    reach!(!ok, "not recast");
    core::mem::forget(a);
}

fn check_compressed<const M: usize>(a: &S, m: &Sj<M>, new: &[u8; M]) {
    let n = m.len();
    let mut m2 = *m;
    m2.cap = n;
    m2.cap_vals = m.len_vals();
    m2.generation = m.generation + 1;
    m2.g = [0; M];
    for i in 0..M {
        if m.g[i] != 0 {
            let j = new[i] as usize;
            assert!(j >= 1 && j <= n, "entry not moved into 1..=len");
            assert!(m2.g[j - 1] == 0, "two entries moved to the same index");
            m2.g[j - 1] = m2.generation;
            m2.k[j - 1] = m.k[i];
            m2.s[j - 1] = m.s[i];
        }
    }
    check(a, &m2);
}

/// Everything is in one set if `one`, otherwise in more than one. `kind`: 0
/// `compress_and_shrink_with`, 1 `compress_and_shrink`, 2 recaster
fn compress<const N: usize, const NV: usize, const LEN: usize>(one: bool, kind: u8) {
    let (mut a, mut m) = any_len::<N, NV, N>(Some(LEN), ndr(2, 255));
    assume(m.generation < 255);
    if LEN > 1 {
        assume((m.len_vals() == 1) == one);
    }
    let mut new = [0u8; N];
    match kind {
        0 => {
            let mut seen = [0u8; N];
            let mut bad = false;
            // values of already mapped sets
            let v0 = m.v;
            a.compress_and_shrink_with(|p, k, v, q| {
                match m.slot(p) {
                    Some(i) => {
                        seen[i] += 1;
                        new[i] = q.inx().get();
                        // every key of the set increments the value
                        let s = m.s[i] as usize;
                        if *k != m.k[i] || *v != m.v[s] {
                            bad = true;
                        }
                        *k = !*k;
                        *v = v.wrapping_add(1);
                        m.v[s] = m.v[s].wrapping_add(1);
                    }
                    None => bad = true,
                }
                if q.generation().get() != m.generation + 1 {
                    bad = true;
                }
            });
            assert!(!bad, "arguments of map");
            for i in 0..N {
                assert!(seen[i] == (m.g[i] != 0) as u8, "every key exactly once");
                m.k[i] = !m.k[i];
            }
        }
        1 => {
            // keys identify the slots
            for i in 0..N {
                if m.g[i] != 0 {
                    assume(m.k[i] as usize / 16 == i);
                }
            }
            a.compress_and_shrink();
            for i in 0..N {
                if let Some((_, l)) = a.get_link_no_gen(nz(i as u8 + 1)) {
                    let s = *l.t as usize / 16;
                    assert!(s < N && new[s] == 0, "unknown key");
                    new[s] = i as u8 + 1;
                }
            }
        }
        _ => {
            let r = a.compress_and_shrink_recaster();
            for i in 0..N {
                if m.g[i] != 0 {
                    let mut p = mk(i as u8 + 1, m.g[i]);
                    assert!(r.recast_item(&mut p).is_ok(), "valid pointer rejected");
                    assert!(p.generation().get() == m.generation + 1, "recast generation");
                    new[i] = p.inx().get();
                }
            }
            let q0 = any_ptr();
            let mut q = q0;
            if m.slot(q0).is_none() {
                assert!(r.recast_item(&mut q) == Err(q0) && q == q0, "invalid pointer accepted");
            }
            core::mem::forget(r);
        }
    }
    check_compressed(&a, &m, &new);
    fin(a);
}

/// 0 clone, 1 clone_from, 2 clone_from_with
fn clone<const SK: usize, const SV: usize, const D: usize, const M: usize>(kind: u8) {
    let (s, ms) = any::<SK, SV, M>();
    let mut m = ms;
    let mut d;
    match kind {
        0 => d = s.clone(),
        1 => {
            d = any::<D, D, M>().0;
            d.clone_from(&s);
        }
        _ => {
            d = any::<D, D, M>().0;
            let mut seen = [0u8; M];
            let mut nvals = 0;
            let mut bad = false;
            d.clone_from_with(
                &s,
                |p, k: &u8| {
                    match ms.slot(p) {
                        Some(i) => {
                            seen[i] += 1;
                            if *k != ms.k[i] {
                                bad = true;
                            }
                        }
                        None => bad = true,
                    }
                    !*k
                },
                |_, v: &u8| {
                    nvals += 1;
                    !*v
                },
            );
            assert!(!bad, "arguments of map_key");
            assert!(nvals == ms.len_vals(), "every value exactly once");
            for i in 0..M {
                assert!(seen[i] == (ms.g[i] != 0) as u8, "every key exactly once");
                m.k[i] = !m.k[i];
            }
            for i in 0..L {
                m.v[i] = !m.v[i];
            }
        }
    }
    assert!(d.capacity_keys() >= m.len() && d.capacity_vals() >= m.len_vals());
    m.cap = d.capacity_keys();
    m.cap_vals = d.capacity_vals();
    assume(m.cap <= M && m.cap_vals <= M);
    check(&d, &m);
    check(&s, &ms);
    fin(s);
    fin(d);
}

fn eq<const SK: usize, const D: usize, const M: usize>() {
    let (a, ma) = any::<SK, SK, M>();
    let (b, mb) = any::<D, D, M>();
    let mut same = true;
    for i in 0..M {
        if ma.g[i] != mb.g[i] {
            same = false;
        }
        if ma.g[i] != 0
            && (ma.k[i] != mb.k[i]
                || ma.v[ma.s[i] as usize] != mb.v[mb.s[i] as usize]
                || ma.next[i] != mb.next[i])
        {
            same = false;
        }
    }
    reach!(same && ma.len() > 1 && ma.s[0] != mb.s[0], "equal with other value slots");
    assert!((a == b) == same, "equality");
    fin(a);
    fin(b);
}

/// Overwrites another arena with the keys. 0 `Arena`, 1 `ChainArena`, 2
/// `ChainNoGenArena`
fn keys_to<const N: usize, const NV: usize>(kind: u8) {
    let (a, m) = any::<N, NV, N>();
    let mut seen = [0u8; N];
    let mut bad = false;
    let mut f = |p: P, k: &u8| {
        match m.slot(p) {
            Some(i) => {
                seen[i] += 1;
                if *k != m.k[i] {
                    bad = true;
                }
            }
            None => bad = true,
        }
        !*k
    };
    match kind {
        0 => {
            let mut d: Arena<P, u8> = Arena::new();
            d.insert(1);
            a.clone_keys_to_arena(&mut d, &mut f);
            assert!(d.len() == m.len() && d.generation().get() == m.generation);
            for i in 0..N {
                match d.get_no_gen(nz(i as u8 + 1)) {
                    Some((g, v)) => assert!(g.get() == m.g[i] && *v == !m.k[i], "entry"),
                    None => assert!(m.g[i] == 0, "missing entry"),
                }
            }
            core::mem::forget(d);
        }
        1 => {
            let mut d: ChainArena<P, u8> = ChainArena::new();
            d.insert_new(1);
            a.clone_keys_to_chain_arena(&mut d, &mut f);
            assert!(d.len() == m.len() && d.generation().get() == m.generation);
            for i in 0..N {
                match d.get_no_gen(nz(i as u8 + 1)) {
                    Some((g, l)) => {
                        assert!(g.get() == m.g[i] && l.t == !m.k[i], "entry");
                        let n = m.next[i];
                        assert!(l.next() == Some(mk(n, m.g[n as usize - 1])), "link");
                        let u = l.prev().unwrap();
                        assert!(m.slot(u).is_some() && m.next[m.slot(u).unwrap()] == i as u8 + 1, "link");
                    }
                    None => assert!(m.g[i] == 0, "missing entry"),
                }
            }
            core::mem::forget(d);
        }
        _ => {
            let mut d: ChainNoGenArena<P, u8> = ChainNoGenArena::new();
            d.insert_new(1);
            a.clone_keys_to_chain_no_gen_arena(&mut d, &mut f);
            assert!(d.len() == m.len() && d.generation().get() == m.generation);
            for i in 0..N {
                match d.get_no_gen(nz(i as u8 + 1)) {
                    Some((g, l)) => {
                        assert!(g.get() == m.g[i] && l.t == !m.k[i], "entry");
                        assert!(l.next() == Some(nz(m.next[i])), "link");
                        let u = l.prev().unwrap().get() as usize - 1;
                        assert!(u < N && m.g[u] != 0 && m.next[u] == i as u8 + 1, "link");
                    }
                    None => assert!(m.g[i] == 0, "missing entry"),
                }
            }
            core::mem::forget(d);
        }
    }
    assert!(!bad, "arguments of map");
    for i in 0..N {
        assert!(seen[i] == (m.g[i] != 0) as u8, "every key exactly once");
    }
    check(&a, &m);
    fin(a);
}

fn iters<const N: usize, const NV: usize>(kind: u8) {
    let (mut a, mut m) = any::<N, NV, N>();
    let mut seen = [0u8; N];
    // keys and values identify their slots and sets
    for i in 0..N {
        if m.g[i] != 0 {
            assume(m.k[i] as usize / 16 == i);
            assume(m.val(i) / 16 == m.s[i]);
        }
    }
    let mut vseen = [0u8; L];
    match kind {
        0 => {
            let mut adv = a.advancer();
            while let Some(p) = adv.advance(&a) {
                match m.slot(p) {
                    Some(i) => seen[i] += 1,
                    None => assert!(false, "invalid pointer"),
                }
            }
        }
        1 => {
            for p in a.ptrs() {
                match m.slot(p) {
                    Some(i) => seen[i] += 1,
                    None => assert!(false, "invalid pointer"),
                }
            }
        }
        2 => {
            for k in a.keys() {
                let i = *k as usize / 16;
                assert!(i < N && m.g[i] != 0 && m.k[i] == *k, "unknown key");
                seen[i] += 1;
            }
        }
        3 => {
            for k in a.keys_mut() {
                let i = *k as usize / 16;
                assert!(i < N && m.g[i] != 0 && m.k[i] == *k, "unknown key");
                seen[i] += 1;
                *k = !*k;
            }
        }
        4 | 5 => {
            if kind == 4 {
                for (p, k, v) in a.iter() {
                    match m.slot(p) {
                        Some(i) => {
                            seen[i] += 1;
                            assert!(*k == m.k[i] && *v == m.val(i), "key and value");
                        }
                        None => assert!(false, "invalid pointer"),
                    }
                }
            } else {
                for (p, k, v) in &a {
                    match m.slot(p) {
                        Some(i) => {
                            seen[i] += 1;
                            assert!(*k == m.k[i] && *v == m.val(i), "key and value");
                        }
                        None => assert!(false, "invalid pointer"),
                    }
                }
            }
        }
        6 => {
            for v in a.vals() {
                let s = *v as usize / 16;
                assert!(s < L && m.v[s] == *v, "unknown value");
                vseen[s] += 1;
            }
        }
        _ => {
            for v in a.vals_mut() {
                let s = *v as usize / 16;
                assert!(s < L && m.v[s] == *v, "unknown value");
                vseen[s] += 1;
                *v = !*v;
            }
        }
    }
    if kind < 6 {
        for i in 0..N {
            assert!(seen[i] == (m.g[i] != 0) as u8, "every key exactly once");
        }
    } else {
        for s in 1..=NV {
            assert!(vseen[s] == (m.count(s as u8) != 0) as u8, "every value exactly once");
        }
    }
    if kind == 3 {
        for i in 0..N {
            m.k[i] = !m.k[i];
        }
    }
    if kind == 7 {
        for i in 0..L {
            m.v[i] = !m.v[i];
        }
    }
    check(&a, &m);
    fin(a);
}

/// 0 `advancer_surject`, 1 `iter_surject`
fn traverse<const N: usize, const NV: usize>(kind: u8) {
    let (a, m) = any::<N, NV, N>();
    let p = any_ptr();
    let s = m.slot(p);
    let mut seen = [0u8; N];
    if kind == 0 {
        let mut adv = a.advancer_surject(p);
        while let Some(q) = adv.advance(&a) {
            match m.slot(q) {
                Some(i) => seen[i] += 1,
                None => assert!(false, "invalid pointer"),
            }
        }
    } else {
        for (q, k, v) in a.iter_surject(p) {
            match m.slot(q) {
                Some(i) => {
                    seen[i] += 1;
                    assert!(*k == m.k[i] && *v == m.val(i), "key and value");
                }
                None => assert!(false, "invalid pointer"),
            }
        }
    }
    for i in 0..N {
        let e = m.g[i] != 0 && s.is_some() && m.s[i] == m.s[s.unwrap()];
        assert!(seen[i] == e as u8, "exactly the keys of the set");
    }
    fin(a);
}

fn gen_overflow<const N: usize, const NV: usize>() {
    let (mut a, m) = any_len::<N, NV, N>(None, 255);
    let p = any_ptr();
    assume(m.slot(p).is_some());
    match ndr(0, 4) {
        0 => {
            let _ = a.remove(p);
        }
        1 => {
            let _ = a.remove_key(p);
        }
        2 => {
            let _ = a.invalidate(p);
        }
        3 => a.clear(),
        _ => a.clear_and_shrink(),
    }
    assert!(false, "must panic");
}

type EU = InternalEntry<PtrNoGen<P>, Val<()>>;
const FREEU: EU = InternalEntry::Free(NonZeroU8::MIN);
pool_kv!(u44 { K0: EK, FREEK, 4; } { V0: EU, FREEU, 4; });
pool_kv!(p22 { K0: EK, FREEK, 4; } { V0: EV, FREEV, 4; });
pool_kv!(p32 { K0: EK, FREEK, 3; } { V0: EV, FREEV, 2; });
pool_kv!(p33 { K0: EK, FREEK, 3; } { V0: EV, FREEV, 3; });
pool_kv!(p43 { K0: EK, FREEK, 4; } { V0: EV, FREEV, 3; });
pool_kv!(c33 { K0: EK, FREEK, 3; K1: EK, FREEK, 3; } { V0: EV, FREEV, 3; V1: EV, FREEV, 3; });
pool_kv!(q33 { K0: EK, FREEK, 3; K1: EK, FREEK, 3; } { V0: EV, FREEV, 3; V1: EV, FREEV, 3; });
pool_kv!(q23 { K0: EK, FREEK, 2; K1: EK, FREEK, 2; } { V0: EV, FREEV, 3; V1: EV, FREEV, 3; });
pool_kv!(q2p2 { K0: EK, FREEK, 2; K1: EP, FREEP, 2; K2: EK, FREEK, 2; } { V0: EV, FREEV, 3; V1: EV, FREEV, 3; });
pool_kv!(q3p3 { K0: EK, FREEK, 3; K1: EP, FREEP, 3; K2: EK, FREEK, 3; } { V0: EV, FREEV, 3; V1: EV, FREEV, 3; });
pool_kv!(a33 { K0: EK, FREEK, 3; K1: EA, FREEA, 4; } { V0: EV, FREEV, 3; });
pool_kv!(h33 { K0: EK, FREEK, 3; K1: EC, FREEC, 4; } { V0: EV, FREEV, 3; });
pool_kv!(n33 { K0: EK, FREEK, 3; K1: EN, FREEN, 4; } { V0: EV, FREEV, 3; });

harnesses! {
    insert_0, 4, p22, insert::<0, 0, 4>(0);
    insert_with_0, 4, p22, insert::<0, 0, 4>(1);
    insert_2, 6, p22, insert::<2, 2, 4>(0);
    insert_with_2, 6, p22, insert::<2, 2, 4>(1);
    insert_key_2, 6, p22, insert_key::<2, 2, 4>(0);
    insert_key_with_2, 6, p22, insert_key::<2, 2, 4>(1);
    access_3, 5, p32, access::<3, 2>();
    access2_3, 5, p33, access2::<3, 3>();
    union_4, 6, p43, union::<4, 3>();
    remove_key_3, 5, p33, remove_key::<3, 3>(false);
    remove_key_ex_2, 5, p33, remove_key::<2, 2>(true);
    remove_3, 5, p33, remove::<3, 3>(false);
    remove_ex_2, 5, p33, remove::<2, 2>(true);
    invalidate_3, 5, p33, invalidate::<3, 3>();
    swap_keys_3, 5, p33, swap::<3, 3>(false);
    swap_vals_3, 5, p33, swap::<3, 3>(true);
    clear_2, 5, p33, clear::<2, 2>(false);
    clear_shrink_2, 5, p33, clear::<2, 2>(true);
    reserve_2, 6, p22, reserve::<2, 2, 4>();
    clone_3, 5, c33, clone::<3, 3, 0, 3>(0);
    clone_from_3_2, 5, c33, clone::<3, 3, 2, 3>(1);
    clone_from_2_3, 5, c33, clone::<2, 2, 3, 3>(1);
    clone_from_with_3_2, 5, c33, clone::<3, 3, 2, 3>(2);
    clone_from_with_2_3, 5, c33, clone::<2, 2, 3, 3>(2);
    eq_3_3, 5, c33, eq::<3, 3, 3>();
    eq_2_3, 5, c33, eq::<2, 3, 3>();
    keys_to_arena_3, 5, a33, keys_to::<3, 2>(0);
    keys_to_chain_3, 5, h33, keys_to::<3, 2>(1);
    keys_to_chain_no_gen_3, 5, n33, keys_to::<3, 2>(2);
    advancer_3, 5, p33, iters::<3, 3>(0);
    ptrs_3, 5, p33, iters::<3, 3>(1);
    keys_3, 5, p33, iters::<3, 3>(2);
    keys_mut_3, 5, p33, iters::<3, 3>(3);
    iter_3, 5, p33, iters::<3, 3>(4);
    iter_ref_3, 5, p33, iters::<3, 3>(5);
    vals_3, 5, p33, iters::<3, 3>(6);
    recast_3, 5, p33, recast::<3, 3>();
    vals_mut_3, 5, p33, iters::<3, 3>(7);
    advancer_surject_4, 6, p43, traverse::<4, 2>(0);
    iter_surject_4, 6, p43, traverse::<4, 2>(1);
    tr_insert_2, 6, u44, generic::<2, 2, 4>(0);
    tr_remove_3, 5, u44, generic::<3, 3, 3>(1);
    tr_clear_2, 5, u44, generic::<2, 2, 2>(2);
    tr_clear_shrink_2, 5, u44, generic::<2, 2, 2>(3);
    tr_access_3, 5, u44, generic::<3, 2, 3>(4);
    gen_overflow_3, 5, p33, gen_overflow::<3, 2>();
}

no_growth_harnesses! {
    compress_one_3_3, 4, q33, compress::<3, 3, 3>(true, 0);
    compress_many_3_3, 4, q33, compress::<3, 3, 3>(false, 0);
    compress_one_2_2, 4, q23, compress::<2, 3, 2>(true, 0);
    compress_many_2_2, 4, q23, compress::<2, 3, 2>(false, 0);
    compress_2_1, 4, q23, compress::<2, 3, 1>(true, 0);
    compress_2_0, 4, q23, compress::<2, 3, 0>(true, 0);
    compress_plain_one, 4, q23, compress::<2, 2, 2>(true, 1);
    compress_plain_many, 4, q23, compress::<2, 3, 2>(false, 1);
    recaster_one, 4, q2p2, compress::<2, 2, 2>(true, 2);
    recaster_many, 4, q2p2, compress::<2, 3, 2>(false, 2);
}
