//! `ChainArena` and `ChainNoGenArena`: one operation from an arbitrary state

/// With generations in the interlinks
pub mod g {
    use triple_arena::{ChainArena as Chain, Link as Lk};

    use crate::arena::*;

    /// What interlinks are
    pub type L = P;

    fn lp(i: u8, g: u8) -> L {
        mk(i, g)
    }

    fn any_l() -> L {
        any_ptr()
    }

    /// If `l` has this index and generation
    fn is(l: L, i: u8, g: u8) -> bool {
        l == mk(i, g)
    }

    fn l_inx(l: L) -> u8 {
        l.inx().get()
    }

    /// The interlink form of a pointer
    fn to_l(p: P) -> L {
        p
    }

    const NOGEN: bool = false;

    /// Recasting a link
    mod link {
        use triple_arena::{Link, Ptr, Recast, Recaster};

        use crate::{arena::*, harnesses, nd::*, pool};

        struct R;

        impl Recaster for R {
            type Item = P;

            fn recast_item(&self, item: &mut P) -> Result<(), P> {
                if item.inx().get() == 9 {
                    Err(*item)
                } else {
                    *item = mk(item.inx().get(), !item.generation().get() | 1);
                    Ok(())
                }
            }
        }

        fn any_opt() -> Option<P> {
            if ndb() {
                Some(any_ptr())
            } else {
                None
            }
        }

        fn recast() {
            let (prev, next, t) = (any_opt(), any_opt(), any_ptr());
            let mut l = Link::new((prev, next), t);
            let bad = |p: &P| p.inx().get() == 9;
            let e = |p: P| mk(p.inx().get(), !p.generation().get() | 1);
            match l.recast(&R) {
                Ok(()) => {
                    assert!(!prev.iter().any(|p| bad(p)) && !next.iter().any(|p| bad(p)) && !bad(&t), "accepted");
                    assert!(l.prev() == prev.map(e) && l.next() == next.map(e) && l.t == e(t), "links and value");
                }
                Err(p) => {
                    assert!(bad(&p), "rejected");
                    assert!(prev == Some(p) || next == Some(p) || t == p, "which one");
                }
            }
        }

        pool!(p1 { S0: E, FREE, 1; });

        harnesses! {
            link_recast, 3, p1, recast();
        }
    }
    #[cfg(not(kani))]
    pub const EXTRA: &[(&str, fn())] = link::TABLE;

    include!("chain_body.rs");
}

/// Without generations in the interlinks
pub mod n {
    use triple_arena::utils::{ChainNoGenArena as Chain, LinkNoGen as Lk};

    use crate::arena::*;

    pub type L = core::num::NonZeroU8;

    fn lp(i: u8, _: u8) -> L {
        nz(i)
    }

    fn any_l() -> L {
        nz(ndr(1, 255))
    }

    fn is(l: L, i: u8, _: u8) -> bool {
        l.get() == i
    }

    fn l_inx(l: L) -> u8 {
        l.get()
    }

    fn to_l(p: P) -> L {
        p.inx()
    }

    const NOGEN: bool = true;

    include!("chain_body.rs");

    use triple_arena::ChainArena;

    type EG = InternalEntry<P, triple_arena::Link<P, u8>>;
    const FREEG: EG = InternalEntry::Free(NonZeroU8::MIN);

    fn to_chain_arena<const S: usize, const D: usize, const M: usize>() {
        let (c, m) = any_chain::<S, M>();
        let mut d: ChainArena<P, u8> = ChainArena::new();
        for _ in 0..D {
            d.insert_new(1);
        }
        let mut log = Log::new();
        c.clone_to_chain_arena(&mut d, |p, t: &u8| {
            log.once(&m, p, *t);
            !*t
        });
        log.done(&m);
        assert!(d.len() == m.len() && d.generation().get() == m.generation);
        assert!(d.capacity() >= S && d.capacity() >= D);
        for i in 0..M {
            match d.get_no_gen(nz(i as u8 + 1)) {
                Some((g, link)) => {
                    assert!(g.get() == m.g[i] && link.t == !m.v[i], "entry");
                    assert!(link.prev() == m.link_p(m.prev[i]), "prev");
                    assert!(link.next() == m.link_p(m.next[i]), "next");
                }
                None => assert!(m.g[i] == 0, "missing entry"),
            }
        }
        let f = d.capacity() - d.len();
        let cap = d.capacity();
        for k in 0..M {
            if k < f {
                d.insert_new(0);
            }
        }
        assert!(d.capacity() == cap && d.len() == cap);
        check(&c, &m);
        core::mem::forget(c);
        core::mem::forget(d);
    }

    pool!(p4g4 { S0: E, FREE, 4; S1: EG, FREEG, 4; });

    mod extra {
        use super::*;

        crate::harnesses! {
            nchain_to_chain_3_0, 5, p4g4, to_chain_arena::<3, 0, 3>();
            nchain_to_chain_2_3, 6, p4g4, to_chain_arena::<2, 4, 4>();
        }
    }
    #[cfg(not(kani))]
    pub const EXTRA: &[(&str, fn())] = extra::TABLE;
}
