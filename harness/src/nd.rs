//! All nondeterminism of the harnesses goes through `nd`. Under Kani it is a
//! symbolic byte, natively (when a counterexample is replayed) the bytes are
//! taken from the solver's assignment.

#[cfg(kani)]
#[inline(never)]
pub fn nd() -> u8 {
    kani::any()
}

#[cfg(kani)]
pub fn assume(b: bool) {
    kani::assume(b)
}

#[cfg(not(kani))]
mod native {
    use std::cell::RefCell;

    thread_local! {
        static QUEUE: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    }

    pub fn set_queue(v: Vec<u8>) {
        QUEUE.with(|q| *q.borrow_mut() = (v, 0));
    }

    pub fn nd() -> u8 {
        QUEUE.with(|q| {
            let mut q = q.borrow_mut();
            let i = q.1;
            q.1 += 1;
            q.0.get(i).copied().unwrap_or(0)
        })
    }

    /// The assignment does not satisfy the assumptions of the harness
    pub fn assume(b: bool) {
        if !b {
            eprintln!("ASSUMPTION-VIOLATED");
            std::process::exit(77);
        }
    }
}

#[cfg(not(kani))]
pub use native::*;

pub fn ndb() -> bool {
    let x = nd();
    assume(x <= 1);
    x == 1
}

/// A value in `lo..=hi`
pub fn ndr(lo: u8, hi: u8) -> u8 {
    let x = nd();
    assume(x >= lo && x <= hi);
    x
}

/// A reachability witness, the driver requires all of them to be reachable
#[macro_export]
macro_rules! reach {
    ($($s:tt)*) => {
        #[cfg(kani)]
        kani::cover!($($s)*);
        #[cfg(not(kani))]
        $crate::native_cover!($($s)*);
    };
}

#[cfg(not(kani))]
#[doc(hidden)]
#[macro_export]
macro_rules! native_cover {
    ($cond:expr, $msg:literal) => {
        if $cond {
            println!("COVER {}", $msg);
        }
    };
}


/// Defines the proof harnesses of a module and the table used for native
/// replays. `pool` names a module made by one of the `pool!` macros.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident, $unwind:literal, $pool:ident, $body:expr;)*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($unwind)]
            #[kani::stub(std::alloc::alloc, $pool::alloc)]
            #[kani::stub(std::alloc::realloc, $pool::realloc)]
            #[kani::stub(std::alloc::dealloc, $pool::dealloc)]
            fn $name() {
                $body;
                $crate::reach!(true, "end");
            }
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[
            $((concat!(module_path!(), "::", stringify!($name)), || { $body; $crate::reach!(true, "end"); })),*
        ];
    };
}

/// The same as `harnesses!` but with `Arena::reserve` replaced by its contract,
/// see `grow_stub`
#[macro_export]
macro_rules! no_growth_harnesses {
    ($($name:ident, $unwind:literal, $pool:ident, $body:expr;)*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($unwind)]
            #[kani::stub(std::alloc::alloc, $pool::alloc)]
            #[kani::stub(std::alloc::realloc, $pool::realloc)]
            #[kani::stub(std::alloc::dealloc, $pool::dealloc)]
            #[kani::stub(triple_arena::Arena::reserve, $crate::nd::reserve_stub)]
            #[kani::stub(core::ptr::copy, $crate::nd::copy_stub)]
            fn $name() {
                $body;
                $crate::reach!(true, "end");
            }
        )*
        #[cfg(not(kani))]
        pub const NO_GROWTH: &[(&str, fn())] = &[
            $((concat!(module_path!(), "::", stringify!($name)), || { $body; $crate::reach!(true, "end"); })),*
        ];
    };
}

/// `ptr::copy` for the move into a shrunk allocation, element wise because CBMC
/// is imprecise for a symbolic number of bytes
#[cfg(kani)]
pub unsafe fn copy_stub<T>(src: *const T, dst: *mut T, count: usize) {
    if count > 4 {
        panic!("harness: copy")
    }
    if count > 0 {
        core::ptr::write(dst, core::ptr::read(src));
    }
    if count > 1 {
        core::ptr::write(dst.add(1), core::ptr::read(src.add(1)));
    }
    if count > 2 {
        core::ptr::write(dst.add(2), core::ptr::read(src.add(2)));
    }
    if count > 3 {
        core::ptr::write(dst.add(3), core::ptr::read(src.add(3)));
    }
}

/// What `Arena::reserve` does on an arena without capacity (which is checked
/// by `arena_reserve_0`). Arenas with capacity must not grow in the harnesses
/// using this.
#[cfg(kani)]
pub fn reserve_stub<P: triple_arena::Ptr, T>(a: &mut triple_arena::Arena<P, T>, additional: usize) {
    use triple_arena::utils::{InternalEntry, NonZeroInxVec, PtrInx};
    if a.capacity() != 0 {
        panic!("harness: growth")
    }
    if additional == 0 {
        return
    }
    let generation = a.generation();
    let inx = |i: usize| <P::Inx as PtrInx>::new(core::num::NonZeroUsize::new(i).unwrap());
    let mut vec = NonZeroInxVec::<InternalEntry<P, T>>::new();
    for i in 1..=additional {
        vec.push(InternalEntry::Free(inx(if i == additional { i } else { i + 1 })));
    }
    let old = core::mem::replace(a, triple_arena::Arena::_from_raw_parts(vec, 0, Some(inx(1)), generation));
    core::mem::forget(old);
}

/// The same as `harnesses!` but with the allocator model of CBMC
#[macro_export]
macro_rules! real_alloc_harnesses {
    ($($name:ident, $unwind:literal, $body:expr;)*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($unwind)]
            fn $name() {
                $body;
                $crate::reach!(true, "end");
            }
        )*
        #[cfg(not(kani))]
        pub const REAL_TABLE: &[(&str, fn())] = &[
            $((concat!(module_path!(), "::", stringify!($name)), || { $body; $crate::reach!(true, "end"); })),*
        ];
    };
}

/// Replaces the global allocator by typed static storage. CBMC represents a
/// heap allocation of symbolic type as an array of bytes, which makes accesses
/// at symbolic indexes intractable. The storage here has the element type that
/// the arena stores in it. The `i`th allocation is served from the `i`th of the
/// `storage` arrays (and the arrays must be large enough for what the harness
/// stores in them, which is checked by the bounds checks of CBMC).
/// Reallocation keeps the address.
#[macro_export]
macro_rules! pool {
    ($name:ident { $($store:ident: $e:ty, $init:expr, $n:expr;)* }) => {
        #[cfg(kani)]
        #[allow(static_mut_refs, unused_assignments)]
        mod $name {
            use super::*;
            $(static mut $store: [$e; $n] = {
                const X: $e = $init;
                [X; $n]
            };)*
            static mut NEXT: usize = 0;
            pub unsafe fn alloc(_: core::alloc::Layout) -> *mut u8 {
                let n = NEXT;
                NEXT = n + 1;
                let mut i = 0;
                $(
                    if n == i {
                        return $store.as_mut_ptr() as *mut u8
                    }
                    i += 1;
                )*
                panic!("harness: out of static pools")
            }
            pub unsafe fn realloc(p: *mut u8, _: core::alloc::Layout, _: usize) -> *mut u8 {
                p
            }
            pub unsafe fn dealloc(_: *mut u8, _: core::alloc::Layout) {}
        }
    };
}

/// The same as `pool!` with separate storages for elements aligned to one byte
/// and others, used when the order of the allocations of the two kinds should
/// not matter
#[macro_export]
macro_rules! pool_kv {
    ($name:ident { $($ks:ident: $ke:ty, $kinit:expr, $kn:expr;)* } { $($vs:ident: $ve:ty, $vinit:expr, $vn:expr;)* }) => {
        #[cfg(kani)]
        #[allow(static_mut_refs, unused_assignments)]
        mod $name {
            use super::*;
            $(static mut $ks: [$ke; $kn] = {
                const X: $ke = $kinit;
                [X; $kn]
            };)*
            $(static mut $vs: [$ve; $vn] = {
                const X: $ve = $vinit;
                [X; $vn]
            };)*
            static mut NEXT_K: usize = 0;
            static mut NEXT_V: usize = 0;
            pub unsafe fn alloc(l: core::alloc::Layout) -> *mut u8 {
                let mut i = 0;
                if l.align() == 1 {
                    let n = NEXT_K;
                    NEXT_K = n + 1;
                    $(
                        if n == i {
                            return $ks.as_mut_ptr() as *mut u8
                        }
                        i += 1;
                    )*
                } else {
                    let n = NEXT_V;
                    NEXT_V = n + 1;
                    $(
                        if n == i {
                            return $vs.as_mut_ptr() as *mut u8
                        }
                        i += 1;
                    )*
                }
                panic!("harness: out of static pools")
            }
            pub unsafe fn realloc(p: *mut u8, _: core::alloc::Layout, _: usize) -> *mut u8 {
                p
            }
            pub unsafe fn dealloc(_: *mut u8, _: core::alloc::Layout) {}
        }
    };
}
