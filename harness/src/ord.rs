//! `OrdArena`: one operation from an arbitrary valid tree

/// `for $i in 0..$n` without a loop, so that the unwinding bound of a harness
/// only needs to fit the loops of the checked code
#[macro_export]
macro_rules! unroll {
    ($i:ident, $n:expr, $b:block) => {
        $crate::unroll!(@ $i, $n, $b, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
    };
    (@ $i:ident, $n:expr, $b:block, $($x:literal)*) => {{
        let n: usize = $n;
        let mut f = |$i: usize| $b;
        $(if $x < n {
            f($x)
        })*
    }};
}

/// With generations and values
pub mod g {
    use crate::arena::*;

    type V = u8;

    fn mkv(x: u8) -> V {
        x
    }

    fn vv(v: &V) -> u8 {
        *v
    }

    fn gv(g: NonZeroU8) -> u8 {
        g.get()
    }

    fn mg(g: u8) -> NonZeroU8 {
        nz(g)
    }

    const GEN: bool = true;

    include!("ord_body.rs");

    include!("ord_more.rs");
}

/// Without generations and values, for larger trees
pub mod u {
    use crate::arena::nz;

    triple_arena::ptr_struct!(P[NonZeroU8]());

    type V = ();

    fn mkv(_: u8) -> V {}

    fn vv(_: &V) -> u8 {
        0
    }

    fn gv(_: ()) -> u8 {
        0
    }

    fn mg(_: u8) {}

    fn mk(i: u8, g: u8) -> P {
        P::_from_raw(nz(i), mg(g))
    }

    fn any_ptr() -> P {
        mk(ndr(1, 255), 0)
    }

    const GEN: bool = false;

    include!("ord_body.rs");

    /// The result of compression only depends on the number of entries apart from
    /// what is moved, so everything is concrete here in order to be able to check
    /// many sizes
    fn compress<const N: usize>() {
        let mut vec = NonZeroInxVec::<E>::new();
        for i in 0..N {
            // slots in reverse order
            let node = Node {
                k: (N - 1 - i) as u8,
                v: (),
                p_back: None,
                p_tree0: None,
                p_tree1: None,
                rank: 9,
            };
            let prev = if i + 1 == N { None } else { onz(i as u8 + 2) };
            vec.push(InternalEntry::Allocated((), LinkNoGen::new((prev, onz(i as u8)), node)));
        }
        vec.push(InternalEntry::Free(nz(N as u8 + 1)));
        let a = Arena::_from_raw_parts(vec, N, onz(N as u8 + 1), ());
        let c = ChainNoGenArena::_from_raw_parts(a);
        let mut o: O = OrdArena::_from_raw_parts(c, nz(1), nz(N as u8), nz(1));
        o.compress_and_shrink();
        let mut ex = Ex {
            n: N,
            at: [0; N],
            g: [0; N],
            k: [0; N],
            v: [0; N],
            generation: 0,
        };
        let mut adv = o.advancer();
        for i in 0..N {
            ex.at[i] = adv.advance(&o).unwrap().inx().get();
            ex.k[i] = i as u8;
        }
        assert!(o.capacity() == N, "capacity");
        check(&o, &ex);
        core::mem::forget(o);
    }

    pool!(q16 { S0: E, FREE, 17; S1: E, FREE, 16; });
    pool!(p6 { S0: E, FREE, 6; });
    pool!(p8 { S0: E, FREE, 8; });
    pool!(p12 { S0: E, FREE, 12; });
    pool!(p14 { S0: E, FREE, 14; });
    pool!(p10 { S0: E, FREE, 10; });

    crate::harnesses! {
        remove_5, 5, p6, remove::<5, 6>(false);
        find_key_7, 6, p8, find::<7, 8>(0);
        find_similar_7, 6, p8, find::<7, 8>(1);
        find_with_7, 6, p8, find::<7, 8>(2);
        find_similar_with_7, 6, p8, find::<7, 8>(3);
        find_linear_5, 7, p6, find::<5, 6>(4);
        find_similar_linear_5, 7, p6, find::<5, 6>(5);
        remove_7, 5, p8, remove::<7, 8>(false);
        remove_9, 6, p10, remove::<9, 10>(false);
        remove_11, 7, p12, remove::<11, 12>(false);
        remove_13, 7, p14, remove::<13, 14>(false);
    }

    crate::no_growth_harnesses! {
        insert_5, 5, p6, insert::<5, 6, 6>(0, false);
        insert_nonhereditary_5, 5, p6, insert::<5, 6, 6>(1, false);
        insert_manual_5, 5, p6, insert::<5, 6, 6>(4, false);
        insert_7, 5, p8, insert::<7, 8, 8>(0, false);
        insert_nonhereditary_7, 5, p8, insert::<7, 8, 8>(1, false);
        insert_9, 6, p10, insert::<9, 10, 10>(0, false);
        insert_11, 7, p12, insert::<11, 12, 12>(0, false);
        insert_13, 7, p14, insert::<13, 14, 14>(0, false);
        compress_4, 18, q16, compress::<4>();
        compress_5, 18, q16, compress::<5>();
        compress_6, 18, q16, compress::<6>();
        compress_7, 18, q16, compress::<7>();
        compress_8, 18, q16, compress::<8>();
        compress_9, 18, q16, compress::<9>();
        compress_10, 18, q16, compress::<10>();
        compress_11, 18, q16, compress::<11>();
        compress_12, 18, q16, compress::<12>();
        compress_13, 18, q16, compress::<13>();
        compress_14, 18, q16, compress::<14>();
        compress_15, 18, q16, compress::<15>();
        compress_16, 18, q16, compress::<16>();
    }
}
