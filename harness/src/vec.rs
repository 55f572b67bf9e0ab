//! `NonZeroInxVec`, with an allocator that checks how it is used
//!
//! Every allocation is a separate typed object with exactly the requested
//! number of elements, so that every access outside of an allocation is found
//! by the bounds checks of CBMC. The allocator checks layouts and pairing,
//! reallocation always moves, and memory is poisoned before it is handed out
//! and after it is given back.
#![allow(unused, static_mut_refs)]

use core::{alloc::Layout, num::NonZeroUsize};

use triple_arena::utils::NonZeroInxVec;

use crate::{nd::*, reach};

/// The first allocation is for 128 elements because of this size
#[repr(C, align(2))]
pub struct B {
    /// identifies the value
    id: u8,
    tag: u8,
}

const POISON: B = B {
    id: 31,
    tag: 0xEE,
};

static mut DROPS: [u8; 32] = [0; 32];

impl Drop for B {
    fn drop(&mut self) {
        assert!(self.id < 31, "dropped uninitialized memory");
        unsafe {
            DROPS[self.id as usize] += 1;
        }
    }
}

/// Clones have another identity
impl Clone for B {
    fn clone(&self) -> B {
        B {
            id: self.id + 16,
            tag: self.tag,
        }
    }
}

fn drops(i: usize) -> u8 {
    unsafe { DROPS[i] }
}

#[cfg(kani)]
mod mem {
    use core::mem::ManuallyDrop;

    use super::*;

    type S = ManuallyDrop<B>;
    const X: S = ManuallyDrop::new(POISON);

    // every storage can be handed out once
    macro_rules! pools {
        ($($a:ident $live:ident $n:literal;)*) => {
            $(
                static mut $a: [S; $n] = [X; $n];
                // 0: not used yet, 1: live, 2: freed
                static mut $live: u8 = 0;
            )*

            unsafe fn get(n: usize) -> *mut u8 {
                $(
                    if n == $n && $live == 0 {
                        $live = 1;
                        return $a.as_mut_ptr() as *mut u8
                    }
                )*
                // the bounds of the harness
                assume(false);
                panic!("harness: allocation size")
            }

            /// Checks and frees, returns the number of elements
            unsafe fn give_back(p: *mut u8, l: Layout) -> usize {
                $(
                    if p == $a.as_mut_ptr() as *mut u8 {
                        assert!($live == 1, "freed twice");
                        assert!(l.align() == ALIGN && l.size() == $n * SIZE, "freed with another layout");
                        $live = 2;
                        return $n
                    }
                )*
                panic!("not an allocation")
            }
        };
    }

    pools! { A0 LA0 128; B0 LB0 128; A1 LA1 1; A2 LA2 2; B2 LB2 2; A3 LA3 3; A4 LA4 4; B4 LB4 4; A5 LA5 5; A8 LA8 8; }
    const ALIGN: usize = 2;
    const SIZE: usize = 2;

    static mut COUNT: isize = 0;

    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        assert!(l.align() == ALIGN && l.size() % SIZE == 0 && l.size() != 0, "layout of allocation");
        COUNT += 1;
        get(l.size() / SIZE)
    }

    unsafe fn poison(p: *mut S, n: usize) {
        // more than 8 are never used
        for i in 0..8 {
            if i < n {
                core::ptr::write(p.add(i), X);
            }
        }
    }

    pub unsafe fn realloc(p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let old = give_back(p, l);
        assert!(size != 0 && size % SIZE == 0, "size of reallocation");
        let new = size / SIZE;
        let q = get(new);
        let (ps, qs) = (p as *mut S, q as *mut S);
        for i in 0..8 {
            if i < old && i < new {
                core::ptr::write(qs.add(i), core::ptr::read(ps.add(i)));
            }
        }
        poison(ps, old);
        q
    }

    pub unsafe fn dealloc(p: *mut u8, l: Layout) {
        let old = give_back(p, l);
        COUNT -= 1;
        poison(p as *mut S, old);
    }

    /// Element wise replacement of `ptr::copy` and `ptr::copy_nonoverlapping`,
    /// CBMC is imprecise for a symbolic `count`
    pub unsafe fn copy<T>(src: *const T, dst: *mut T, count: usize) {
        assume(count <= 8);
        let mut tmp: [core::mem::MaybeUninit<T>; 8] = [const { core::mem::MaybeUninit::uninit() }; 8];
        for i in 0..8 {
            if i < count {
                tmp[i] = core::mem::MaybeUninit::new(core::ptr::read(src.add(i)));
            }
        }
        for i in 0..8 {
            if i < count {
                core::ptr::write(dst.add(i), tmp[i].assume_init_read());
            }
        }
    }

    pub fn live() -> isize {
        unsafe { COUNT }
    }
}

#[cfg(not(kani))]
mod mem {
    /// See `crate::checking_alloc`
    pub fn live() -> isize {
        crate::checking_alloc::live()
    }
}

type V = NonZeroInxVec<B>;

fn nzu(i: usize) -> NonZeroUsize {
    NonZeroUsize::new(i).unwrap()
}

/// `ids[i]` with `tags[i]` are the elements
struct Model {
    ids: [u8; 8],
    tags: [u8; 8],
    len: usize,
    /// next identity
    next: u8,
}

fn model() -> Model {
    Model {
        ids: [0; 8],
        tags: [0; 8],
        len: 0,
        next: 0,
    }
}

fn push(v: &mut V, m: &mut Model) {
    let tag = nd();
    v.push(B { id: m.next, tag });
    m.ids[m.len] = m.next;
    m.tags[m.len] = tag;
    m.len += 1;
    m.next += 1;
}

fn check(v: &V, m: &Model, offset: u8) {
    assert!(v.len() == m.len, "len");
    assert!(v.is_empty() == (m.len == 0), "is_empty");
    assert!(v.capacity() >= m.len, "capacity");
    let i = ndr(1, 255) as usize;
    match v.get(nzu(i)) {
        Some(b) => {
            assert!(i <= m.len, "get beyond the end");
            assert!(b.id == m.ids[i - 1] + offset && b.tag == m.tags[i - 1], "get");
        }
        None => assert!(i > m.len, "get in range"),
    }
    // huge indexes
    assert!(v.get(nzu(usize::MAX - i)).is_none());
}

fn op(v: &mut V, m: &mut Model, op: u8) {
    match op {
        0 => push(v, m),
        1 => {
            let r = v.pop();
            if m.len == 0 {
                assert!(r.is_none(), "pop of empty");
            } else {
                m.len -= 1;
                assert!(drops(m.ids[m.len] as usize) == 0);
                match r {
                    Some(b) => assert!(b.id == m.ids[m.len] && b.tag == m.tags[m.len], "pop"),
                    None => assert!(false, "pop"),
                }
            }
        }
        2 => {
            let n = ndr(0, 3) as usize;
            v.reserve(n);
            assert!(v.capacity() >= m.len + n, "reserve");
        }
        3 => {
            let c = v.capacity();
            v.clear();
            m.len = 0;
            assert!(v.capacity() == c, "clear keeps capacity");
        }
        4 => {
            v.clear_and_shrink();
            m.len = 0;
            assert!(v.capacity() == 0, "clear_and_shrink");
        }
        5 => {
            v.shrink_to_fit();
            assert!(v.capacity() == m.len, "shrink_to_fit");
        }
        6 => {
            let i = ndr(1, 255) as usize;
            let tag = nd();
            match v.get_mut(nzu(i)) {
                Some(b) => {
                    assert!(i <= m.len && b.id == m.ids[i - 1], "get_mut");
                    b.tag = tag;
                    m.tags[i - 1] = tag;
                }
                None => assert!(i > m.len, "get_mut"),
            }
        }
        _ => {
            let (i, j) = (ndr(1, 255) as usize, ndr(1, 255) as usize);
            match v.get2_mut(nzu(i), nzu(j)) {
                Some((x, y)) => {
                    assert!(i != j && i <= m.len && j <= m.len, "get2_mut");
                    assert!(x.id == m.ids[i - 1] && y.id == m.ids[j - 1], "get2_mut");
                    x.tag = 1;
                    y.tag = 2;
                    m.tags[i - 1] = 1;
                    m.tags[j - 1] = 2;
                }
                None => assert!(i == j || i > m.len || j > m.len, "get2_mut"),
            }
        }
    }
}

/// Exactly the elements of the model have not been dropped
fn check_drops(m: &Model) {
    let mut inside = [false; 8];
    for i in 0..8 {
        if i < m.len {
            inside[m.ids[i] as usize] = true;
        }
    }
    for i in 0..8 {
        assert!(drops(i) == (i < m.next as usize && !inside[i]) as u8, "dropped exactly once");
    }
}

/// `START` elements with spare capacity or not, then `K` operations
fn ops<const START: usize, const K: usize>(spare: bool) {
    let live0 = mem::live();
    let mut v = V::new();
    let mut m = model();
    assert!(v.capacity() == 0);
    for _ in 0..START {
        push(&mut v, &mut m);
    }
    if !spare {
        v.shrink_to_fit();
    }
    for i in 0..K {
        op(&mut v, &mut m, ndr(0, 7));
    }
    check(&v, &m, 0);
    check_drops(&m);
    drop(v);
    for i in 0..8 {
        assert!(drops(i) == (i < m.next as usize) as u8, "dropped exactly once");
    }
    assert!(mem::live() == live0, "memory is released");
}

fn clone<const START: usize>(spare: bool) {
    let live0 = mem::live();
    let mut v = V::new();
    let mut m = model();
    for _ in 0..START {
        push(&mut v, &mut m);
    }
    if !spare {
        v.shrink_to_fit();
    }
    let mut w = v.clone();
    check(&v, &m, 0);
    check(&w, &m, 16);
    check_drops(&m);
    for i in 0..8 {
        assert!(drops(16 + i) == 0, "clones");
    }
    drop(v);
    check(&w, &m, 16);
    // still functional
    let (x, n) = (w.pop(), m.len);
    match x {
        Some(b) => assert!(b.id == m.ids[n - 1] + 16),
        None => assert!(n == 0),
    }
    drop(w);
    for i in 0..8 {
        let mut cloned = false;
        for j in 0..8 {
            if j < n && m.ids[j] as usize == i {
                cloned = true;
            }
        }
        assert!(drops(i) == (i < m.next as usize) as u8, "dropped exactly once");
        assert!(drops(16 + i) == cloned as u8, "clone dropped exactly once");
    }
    assert!(mem::live() == live0, "memory is released");
}

/// The index iterator yields `1..=len`
fn nziter() {
    let mut v = V::new();
    let mut m = model();
    let n = ndr(0, 4) as usize;
    for i in 0..4 {
        if i < n {
            push(&mut v, &mut m);
        }
    }
    let mut next = 1;
    for i in v.nziter() {
        assert!(i.get() == next && next <= n, "index iterator");
        next += 1;
    }
    assert!(next == n + 1, "index iterator ended early");
    drop(v);
}

/// Exceeding the maximum allocation size panics instead of wrapping around
fn reserve_overflow() {
    let mut v = V::new();
    let n = isize::MAX as usize / 2 + 1 + nd() as usize;
    v.reserve(n);
    assert!(false, "must panic");
}

macro_rules! vec_harnesses {
    ($($name:ident, $unwind:literal, $body:expr;)*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($unwind)]
            #[kani::stub(std::alloc::alloc, mem::alloc)]
            #[kani::stub(std::alloc::realloc, mem::realloc)]
            #[kani::stub(std::alloc::dealloc, mem::dealloc)]
            #[kani::stub(core::ptr::copy, mem::copy)]
            #[kani::stub(core::ptr::copy_nonoverlapping, mem::copy)]
            fn $name() {
                $body;
                reach!(true, "end");
            }
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[
            $((concat!(module_path!(), "::", stringify!($name)), || { $body; reach!(true, "end"); })),*
        ];
    };
}

vec_harnesses! {
    vec_ops_0, 9, ops::<0, 2>(true);
    vec_ops_2, 9, ops::<2, 2>(true);
    vec_ops_shrunk_1, 9, ops::<1, 2>(false);
    vec_ops_shrunk_2, 9, ops::<2, 2>(false);
    vec_ops_shrunk_3, 9, ops::<3, 2>(false);
    vec_ops_shrunk_4, 9, ops::<4, 1>(false);
    vec_clone_0, 9, clone::<0>(true);
    vec_clone_2, 9, clone::<2>(true);
    vec_clone_shrunk_3, 9, clone::<3>(false);
    vec_nziter, 9, nziter();
    vec_reserve_overflow, 9, reserve_overflow();
}
