// The rest of the operations, included by `ord::g`

use triple_arena::{ChainArena, Recast, Recaster};

/// Recasting the values but not the keys
fn recast<const N: usize, const S: usize>() {
    let (mut o, mut ex) = any_ord::<N, S, N>(true, SORTED);
    let mut ok = true;
    unroll!(I, N, {
        ok &= ex.v[I] != 9;
        ex.v[I] ^= 0x80;
    });
    let r = o.recast(&crate::arena::Flip);
    assert!(r == if ok { Ok(()) } else { Err(9) }, "result");
    if ok {
        check(&o, &ex);
    }
    reach!(!ok, "not recast");
    core::mem::forget(o);
}

fn access<const N: usize, const S: usize>() {
    let (mut o, mut ex) = any_ord::<N, S, N>(true, SORTED);
    let p = any_ptr();
    let i = ex.pos(p);
    reach!(i.is_some(), "valid");
    assert!(o.contains(p) == i.is_some(), "contains");
    match i {
        None => {
            assert!(o.get(p).is_none() && o.get_key(p).is_none() && o.get_val(p).is_none());
            assert!(o.get_mut(p).is_none() && o.get_val_mut(p).is_none() && o.get_link(p).is_none());
        }
        Some(i) => {
            assert!(o.get(p) == Some((&ex.k[i], &ex.v[i])), "get");
            assert!(o.get_key(p) == Some(&ex.k[i]), "get_key");
            assert!(o.get_val(p) == Some(&ex.v[i]), "get_val");
            assert!(o[p] == ex.v[i] && o[&p] == ex.v[i], "index");
            {
                let link = o.get_link(p).unwrap();
                assert!(link.t == (&ex.k[i], &ex.v[i]), "get_link");
                let prev = if i == 0 { None } else { Some(ex.ptr(i - 1)) };
                let next = if i + 1 == N { None } else { Some(ex.ptr(i + 1)) };
                assert!(link.prev() == prev && link.next() == next, "get_link neighbors");
            }
            let (w0, w1, w2) = (nd(), nd(), nd());
            {
                let (k, v) = o.get_mut(p).unwrap();
                assert!(*k == ex.k[i] && *v == ex.v[i], "get_mut");
                *v = w0;
            }
            assert!(o.get_val(p) == Some(&w0));
            {
                let v = o.get_val_mut(p).unwrap();
                assert!(*v == w0, "get_val_mut");
                *v = w1;
            }
            assert!(o.get_val(p) == Some(&w1));
            o[p] = w2;
            ex.v[i] = w2;
        }
    }
    check(&o, &ex);
    core::mem::forget(o);
}

/// 0 `remove`, 1 `clear`, 2 `clear_and_shrink`, 3 the rest of `ArenaTrait`
fn generic<const N: usize, const S: usize>(kind: u8) {
    let (mut o, mut ex) = any_ord::<N, S, N>(true, SORTED);
    let p = any_ptr();
    let i = ex.pos(p);
    match kind {
        0 => {
            assume(ex.generation < 255);
            let res = tr::remove(&mut o, p);
            match i {
                None => assert!(res.is_none(), "removed with invalid pointer"),
                Some(i) => {
                    assert!(res == Some((ex.k[i], ex.v[i])), "removed another entry");
                    ex.inc();
                    ex = ex.remove(i);
                }
            }
            assert!(o.capacity() == S, "capacity");
        }
        1 | 2 => {
            ex.inc();
            if kind == 1 {
                tr::clear(&mut o);
                assert!(o.capacity() == S, "capacity");
            } else {
                tr::clear_and_shrink(&mut o);
                assert!(o.capacity() == 0, "capacity");
            }
            ex.n = 0;
        }
        _ => {
            let n: O = tr::new();
            assert!(n.len() == 0 && n.capacity() == 0 && n.generation().get() == 2, "new");
            assert!(tr::len(&o) == ex.n && tr::is_empty(&o) == (ex.n == 0), "len");
            assert!(tr::capacity(&o) == S, "capacity");
            assert!(tr::generation(&o).get() == ex.generation, "generation");
            assert!(tr::contains(&o, p) == i.is_some(), "contains");
            match tr::get(&o, p) {
                Some((k, v)) => assert!(*k == ex.k[i.unwrap()] && *v == ex.v[i.unwrap()], "get"),
                None => assert!(i.is_none(), "get"),
            }
            let w = nd();
            match tr::get_mut(&mut o, p) {
                Some((k, v)) => {
                    let i = i.unwrap();
                    assert!(*k == ex.k[i] && *v == ex.v[i], "get_mut");
                    *v = w;
                    ex.v[i] = w;
                }
                None => assert!(i.is_none(), "get_mut"),
            }
            let (mut x, mut y) = (tr::advancer(&o), o.advancer());
            for _ in 0..=N {
                assert!(x.advance(&o) == y.advance(&o), "advancer");
            }
        }
    }
    check(&o, &ex);
    core::mem::forget(o);
}

fn access2<const N: usize, const S: usize>() {
    let (mut o, mut ex) = any_ord::<N, S, N>(true, SORTED);
    let s = ndr(1, 255);
    match o.get_link_no_gen(nz(s)) {
        None => {
            unroll!(I, N, {
                assert!(ex.at[I] != s, "missing entry");
            });
        }
        Some((g, link)) => {
            let i = ex.pos(mk(s, g.get())).unwrap();
            let prev = if i == 0 { None } else { Some(nz(ex.at[i - 1])) };
            let next = if i + 1 == N { None } else { Some(nz(ex.at[i + 1])) };
            assert!(link.t == (&ex.k[i], &ex.v[i]) && link.prev() == prev && link.next() == next);
        }
    }
    let p0 = any_ptr();
    let p1 = any_ptr();
    let (i0, i1) = (ex.pos(p0), ex.pos(p1));
    let w = nd();
    match o.get2_val_mut(p0, p1) {
        None => assert!(i0.is_none() || i1.is_none() || p0 == p1, "get2_val_mut is None"),
        Some((v0, v1)) => {
            let (i0, i1) = (i0.unwrap(), i1.unwrap());
            assert!(i0 != i1 && *v0 == ex.v[i0] && *v1 == ex.v[i1], "get2_val_mut");
            *v0 = w;
            *v1 = !w;
            ex.v[i0] = w;
            ex.v[i1] = !w;
        }
    }
    check(&o, &ex);
    core::mem::forget(o);
}

fn invalidate<const N: usize, const S: usize>() {
    let (mut o, mut ex) = any_ord::<N, S, N>(true, SORTED);
    let p = any_ptr();
    match ex.pos(p) {
        None => assert!(o.invalidate(p).is_none()),
        Some(i) => {
            ex.inc();
            let q = o.invalidate(p).unwrap();
            ex.g[i] = ex.generation;
            assert!(q == ex.ptr(i), "new pointer");
            assert!(!o.contains(p), "still valid");
        }
    }
    check(&o, &ex);
    core::mem::forget(o);
}

fn replace<const N: usize, const S: usize>(update: bool) {
    let (mut o, mut ex) = any_ord::<N, S, N>(true, SORTED);
    let p = any_ptr();
    let v = nd();
    match ex.pos(p) {
        None => {
            if update {
                assert!(o.replace_val_and_update_gen(p, v) == Err(v));
            } else {
                assert!(o.replace_val_and_keep_gen(p, v) == Err(v));
            }
        }
        Some(i) => {
            if update {
                ex.inc();
                ex.g[i] = ex.generation;
                assert!(o.replace_val_and_update_gen(p, v) == Ok((ex.v[i], ex.ptr(i))));
            } else {
                assert!(o.replace_val_and_keep_gen(p, v) == Ok(ex.v[i]));
            }
            ex.v[i] = v;
        }
    }
    check(&o, &ex);
    core::mem::forget(o);
}

fn swap_vals<const N: usize, const S: usize>() {
    let (mut o, mut ex) = any_ord::<N, S, N>(true, SORTED);
    let p0 = any_ptr();
    let p1 = any_ptr();
    let res = o.swap_vals(p0, p1);
    match (ex.pos(p0), ex.pos(p1)) {
        (Some(i), Some(j)) => {
            assert!(res.is_some());
            let v = ex.v[i];
            ex.v[i] = ex.v[j];
            ex.v[j] = v;
        }
        _ => assert!(res.is_none()),
    }
    check(&o, &ex);
    core::mem::forget(o);
}

fn clear<const N: usize, const S: usize>(shrink: bool) {
    let (mut o, mut ex) = any_ord::<N, S, N>(true, SORTED);
    ex.inc();
    if shrink {
        o.clear_and_shrink();
        assert!(o.capacity() == 0, "capacity");
    } else {
        o.clear();
        assert!(o.capacity() == S, "capacity");
    }
    ex.n = 0;
    check(&o, &ex);
    let k = nd();
    assert!(o.find_key(&k).is_none() && o.find_similar_key(&k).is_none());
    core::mem::forget(o);
}

/// Into an arena without entries, after whatever made it empty
fn insert_empty<const N: usize, const S: usize>() {
    let (mut o, ex) = any_ord::<N, S, 1>(true, SORTED);
    let (k, v) = (nd(), nd());
    match o.insert_empty(k, v) {
        None => {
            assert!(N == 1, "not inserted");
            check(&o, &ex);
        }
        Some(p) => {
            assert!(N == 0, "inserted");
            assert!(gv(p.generation()) == ex.generation);
            check(&o, &ex.insert(0, p, k, v));
        }
    }
    core::mem::forget(o);
}

/// New arenas
fn fresh() {
    let mut o = O::new();
    assert!(o.len() == 0 && o.capacity() == 0 && o.first().is_none() && o.last().is_none());
    assert!(o.generation().get() == 2, "generation");
    let ex = Ex::<2> {
        n: 0,
        at: [0; 2],
        g: [0; 2],
        k: [0; 2],
        v: [0; 2],
        generation: 2,
    };
    let (k0, v0, k1, v1) = (nd(), nd(), nd(), nd());
    let (p0, old) = o.insert(k0, v0);
    assert!(old.is_none());
    let mut ex = ex.insert(0, p0, k0, v0);
    check(&o, &ex);
    let (p1, old) = o.insert(k1, v1);
    if k0 == k1 {
        assert!(p1 == p0 && old == Some((k1, v0)));
        ex.v[0] = v1;
    } else {
        assert!(old.is_none());
        ex = ex.insert((k0 < k1) as usize, p1, k1, v1);
    }
    check(&o, &ex);
    core::mem::forget(o);
}

fn reserve<const N: usize, const S: usize>() {
    let (mut o, ex) = any_ord::<N, S, N>(true, SORTED);
    let n = ndr(0, 2) as usize;
    o.reserve(n);
    assert!(o.capacity() >= N + n && o.capacity() >= S);
    check(&o, &ex);
    core::mem::forget(o);
}

/// 0: `advancer`, 1: `advancer_starting_from`, 2: `ptrs`, 3: `keys`, 4: `vals`,
/// 5: `vals_mut`, 6: `iter`, 7: `&a`
fn iter<const N: usize, const S: usize>(kind: u8) {
    let (mut o, mut ex) = any_ord::<N, S, N>(true, SORTED);
    let mut i = 0;
    let mut start = 0;
    match kind {
        0 => {
            let mut adv = o.advancer();
            while let Some(p) = adv.advance(&o) {
                assert!(i < N && p == ex.ptr(i), "advancer");
                i += 1;
            }
            assert!(adv.advance(&o).is_none());
        }
        1 => {
            let p = any_ptr();
            i = ex.pos(p).unwrap_or(N);
            start = i;
            let mut adv = o.advancer_starting_from(p);
            while let Some(p) = adv.advance(&o) {
                assert!(i < N && p == ex.ptr(i), "advancer_starting_from");
                i += 1;
            }
            assert!(adv.advance(&o).is_none());
        }
        2 => {
            for p in o.ptrs() {
                assert!(i < N && p == ex.ptr(i), "ptrs");
                i += 1;
            }
        }
        3 => {
            for k in o.keys() {
                assert!(i < N && *k == ex.k[i], "keys");
                i += 1;
            }
        }
        4 => {
            for v in o.vals() {
                assert!(i < N && *v == ex.v[i], "vals");
                i += 1;
            }
        }
        5 => {
            let w = nd();
            for v in o.vals_mut() {
                assert!(i < N && *v == ex.v[i], "vals_mut");
                *v ^= w;
                ex.v[i] ^= w;
                i += 1;
            }
        }
        6 => {
            for (p, k, v) in o.iter() {
                assert!(i < N && p == ex.ptr(i) && *k == ex.k[i] && *v == ex.v[i], "iter");
                i += 1;
            }
        }
        _ => {
            for (p, k, v) in &o {
                assert!(i < N && p == ex.ptr(i) && *k == ex.k[i] && *v == ex.v[i], "&a");
                i += 1;
            }
        }
    }
    assert!(i == N, "all entries");
    reach!(start == 0, "all");
    reach!(kind != 1 || start == N, "none");
    check(&o, &ex);
    core::mem::forget(o);
}

/// Removing entries with the pointers the advancer returned
fn advancer_remove<const N: usize, const S: usize>() {
    let (mut o, mut ex) = any_ord::<N, S, N>(false, SORTED);
    assume(ex.generation < 255);
    let mut adv = o.advancer();
    let at = ndr(0, N as u8 - 1) as usize;
    let mut i = 0;
    while let Some(p) = adv.advance(&o) {
        assert!(i < N && p == ex.ptr(i), "advancer");
        if i == at {
            assert!(o.remove(p) == Some((ex.k[i], ex.v[i])));
        }
        i += 1;
    }
    assert!(i == N, "all entries");
    ex.inc();
    let ex = ex.remove(at);
    check(&o, &ex);
    core::mem::forget(o);
}

/// Up to `t` steps, then dropped
fn drain<const N: usize, const S: usize>(t: usize) {
    let (mut o, mut ex) = any_ord::<N, S, N>(false, SORTED);
    // the removals increment it also
    assume(ex.generation < 200);
    {
        let mut d = o.drain();
        unroll!(I, t, {
            match d.next() {
                None => assert!(I >= N, "all entries"),
                Some((p, k, v)) => {
                    assert!(I < N && p == ex.ptr(I) && k == ex.k[I] && v == ex.v[I], "drain");
                }
            }
        });
    }
    assert!(o.capacity() == S, "capacity");
    assert!(o.generation().get() > ex.generation, "generation");
    ex.generation = o.generation().get();
    ex.n = 0;
    check(&o, &ex);
    core::mem::forget(o);
}

/// `t` steps
fn capacity_drain<const N: usize, const S: usize>(into: bool, t: usize) {
    let (o, ex) = any_ord::<N, S, N>(false, SORTED);
    assume(ex.generation < 200);
    let mut d = if into { o.into_iter() } else { o.capacity_drain() };
    unroll!(I, t, {
        match d.next() {
            None => assert!(I >= N, "all entries"),
            Some((p, k, v)) => {
                assert!(I < N && p == ex.ptr(I) && k == ex.k[I] && v == ex.v[I], "capacity_drain");
            }
        }
    });
    core::mem::forget(d);
}

/// Also with equal keys
fn from_iter(n: usize) {
    let (k, v) = ([nd(), nd()], [nd(), nd()]);
    let o: O = (0..n).map(|i| (k[i], v[i])).collect();
    if n == 0 {
        assert!(o.is_empty());
    } else if n == 1 || k[0] == k[1] {
        assert!(o.len() == 1);
        let p = o.first().unwrap();
        assert!(o.get(p) == Some((&k[0], &v[n - 1])));
        assert!(o.last() == Some(p) && o.find_key(&k[0]) == Some(p));
    } else {
        assert!(o.len() == 2);
        let i = (k[1] < k[0]) as usize;
        assert!(o.get(o.first().unwrap()) == Some((&k[i], &v[i])));
        assert!(o.get(o.last().unwrap()) == Some((&k[1 - i], &v[1 - i])));
    }
    core::mem::forget(o);
}

/// `d` is overwritten by `o`. 0: `clone`, 1: `clone_from`, 2: `clone_from_with`
fn clone<const N: usize, const S: usize, const DN: usize, const D: usize>(kind: u8) {
    let (o, ex) = any_ord::<N, S, N>(true, SORTED);
    let mut d;
    let mut ex1 = ex;
    if kind == 0 {
        d = o.clone();
        assert!(d.capacity() >= N);
    } else {
        d = any_ord::<DN, D, DN>(true, SORTED).0;
        if kind == 1 {
            d.clone_from(&o);
        } else {
            let mut count = [0u8; N];
            d.clone_from_with(&o, |p, v: &u8| {
                let i = ex.pos(p).unwrap();
                assert!(ex.v[i] == *v, "mapped value");
                count[i] += 1;
                !*v
            });
            unroll!(I, N, {
                assert!(count[I] == 1, "mapped once");
                ex1.v[I] = !ex.v[I];
            });
        }
        assert!(d.capacity() >= D && d.capacity() >= N, "capacity");
    }
    check(&d, &ex1);
    core::mem::forget(o);
    core::mem::forget(d);
}

fn clone_source<const N: usize, const S: usize>() {
    let (o, ex) = any_ord::<N, S, N>(true, SORTED);
    let d = o.clone();
    check(&o, &ex);
    core::mem::forget(o);
    core::mem::forget(d);
}

fn to_chain<const N: usize, const S: usize>() {
    let (o, ex) = any_ord::<N, S, N>(true, SORTED);
    let mut c: ChainArena<P, u8> = ChainArena::new();
    let mut count = [0u8; N];
    o.clone_to_chain_arena(&mut c, |p, k, v| {
        let i = ex.pos(p).unwrap();
        assert!(ex.k[i] == *k && ex.v[i] == *v, "mapped entry");
        count[i] += 1;
        k ^ v
    });
    assert!(c.len() == N && c.generation().get() == ex.generation);
    unroll!(I, N, {
        assert!(count[I] == 1, "mapped once");
        let link = c.get_link(ex.ptr(I)).unwrap();
        assert!(link.t == ex.k[I] ^ ex.v[I], "entry");
        let prev = if I == 0 { None } else { Some(ex.ptr(I - 1)) };
        let next = if I + 1 == N { None } else { Some(ex.ptr((I + 1) % N)) };
        assert!(link.prev() == prev && link.next() == next, "links");
    });
    core::mem::forget(o);
    core::mem::forget(c);
}

fn to_arena<const N: usize, const S: usize>() {
    let (o, ex) = any_ord::<N, S, N>(true, SORTED);
    let mut a: Arena<P, u8> = Arena::new();
    let mut count = [0u8; N];
    o.clone_to_arena(&mut a, |p, k, v| {
        let i = ex.pos(p).unwrap();
        assert!(ex.k[i] == *k && ex.v[i] == *v, "mapped entry");
        count[i] += 1;
        k ^ v
    });
    assert!(a.len() == N && a.generation().get() == ex.generation);
    unroll!(I, N, {
        assert!(count[I] == 1, "mapped once");
        assert!(a.get(ex.ptr(I)) == Some(&(ex.k[I] ^ ex.v[I])), "entry");
    });
    core::mem::forget(o);
    core::mem::forget(a);
}

/// 0: `eq`, 1: `cmp`, 2: `partial_cmp`
fn compare<const N: usize, const S: usize, const DN: usize, const D: usize>(kind: u8) {
    let (o, ex) = any_ord::<N, S, N>(true, SORTED);
    let (d, ey) = any_ord::<DN, D, DN>(true, SORTED);
    let mut res = N.cmp(&DN);
    let mut decided = false;
    unroll!(I, N, {
        if I < DN && !decided {
            let c = ex.k[I].cmp(&ey.k[I % DN]).then(ex.v[I].cmp(&ey.v[I % DN]));
            if c != Ordering::Equal {
                res = c;
                decided = true;
            }
        }
    });
    reach!(N != DN || res == Ordering::Equal, "equal");
    match kind {
        0 => assert!((o == d) == (res == Ordering::Equal), "eq"),
        1 => assert!(o.cmp(&d) == res, "cmp"),
        _ => assert!(o.partial_cmp(&d) == Some(res), "partial_cmp"),
    }
    core::mem::forget(o);
    core::mem::forget(d);
}

/// The tree is not used by compression, so it is left arbitrary here in order to
/// be able to check many sizes. `kind` 0: `compress_and_shrink_with`, 1:
/// `compress_and_shrink`, 2: `compress_and_shrink_recaster`
fn compress<const N: usize, const S: usize>(kind: u8) {
    let generation = ndr(2, 254);
    let mut ex = Ex {
        n: N,
        at: [0; N],
        g: [0; N],
        k: [0; N],
        v: [0; N],
        generation,
    };
    let mut vec = NonZeroInxVec::<E>::new();
    unroll!(I, N, {
        // slots in reverse order
        let i = N - 1 - I;
        ex.at[i] = I as u8 + 1;
        ex.g[i] = ndr(2, generation);
        ex.v[i] = nd();
        ex.k[i] = nd();
        let node = Node {
            k: ex.k[i],
            v: ex.v[i],
            p_back: onz(nd()),
            p_tree0: onz(nd()),
            p_tree1: onz(nd()),
            rank: nd(),
        };
        let prev = if i == 0 { 0 } else { I as u8 + 2 };
        let next = I as u8;
        vec.push(InternalEntry::Allocated(nz(ex.g[i]), LinkNoGen::new((onz(prev), onz(next)), node)));
    });
    unroll!(I, S, {
        if I >= N {
            vec.push(InternalEntry::Free(nz(if I + 1 == S { S as u8 } else { I as u8 + 2 })));
        }
    });
    let a = Arena::_from_raw_parts(vec, N, onz(if S == N { 0 } else { N as u8 + 1 }), nz(generation));
    let c = ChainNoGenArena::_from_raw_parts(a);
    let (first, last) = if N == 0 { (1, 1) } else { (N as u8, 1) };
    let mut o: O = OrdArena::_from_raw_parts(c, nz(ndr(1, 255)), nz(first), nz(last));
    let mut ex1 = ex;
    ex1.generation = generation + 1;
    match kind {
        0 => {
            let mut count = [0u8; N];
            o.compress_and_shrink_with(|p, k, v, q| {
                let mut i = N;
                unroll!(I, N, {
                    if p == ex.ptr(I) {
                        i = I;
                    }
                });
                assert!(i < N, "called with invalid pointer");
                assert!(ex.k[i] == *k && ex.v[i] == *v, "called with another entry");
                count[i] += 1;
                *v = !*v;
                ex1.v[i] = !ex.v[i];
                ex1.at[i] = q.inx().get();
                ex1.g[i] = q.generation().get();
            });
            unroll!(I, N, {
                assert!(count[I] == 1, "called once");
            });
        }
        1 => {
            o.compress_and_shrink();
            let mut adv = o.advancer();
            unroll!(I, N, {
                let p = adv.advance(&o).unwrap();
                ex1.at[I] = p.inx().get();
                ex1.g[I] = p.generation().get();
            });
        }
        _ => {
            let r = o.compress_and_shrink_recaster();
            unroll!(I, N, {
                let mut p = ex.ptr(I);
                assert!(r.recast_item(&mut p).is_ok(), "valid pointer rejected");
                ex1.at[I] = p.inx().get();
                ex1.g[I] = p.generation().get();
            });
            let q = any_ptr();
            if ex.pos(q).is_none() {
                let mut p = q;
                assert!(r.recast_item(&mut p) == Err(q), "invalid pointer accepted");
            }
            core::mem::forget(r);
        }
    }
    assert!(o.capacity() == N, "capacity");
    unroll!(I, N, {
        // no older pointer is valid
        assert!(ex1.g[I] == ex1.generation, "generation of new pointers");
    });
    check(&o, &ex1);
    core::mem::forget(o);
}

fn gen_overflow<const N: usize, const S: usize>() {
    let (mut o, ex) = any_ord_gen::<N, S, N>(true, SORTED, 255);
    let p = any_ptr();
    assume(ex.pos(p).is_some());
    match ndr(0, 7) {
        0 => {
            let _ = o.remove(p);
        }
        1 => {
            let _ = o.invalidate(p);
        }
        2 => {
            let _ = o.replace_val_and_update_gen(p, 1);
        }
        3 => o.clear(),
        4 => o.clear_and_shrink(),
        5 => {
            let _ = o.drain();
        }
        6 => {
            let _ = o.capacity_drain().next();
        }
        _ => o.compress_and_shrink(),
    }
    assert!(false, "must panic");
}

type EC = InternalEntry<P, triple_arena::Link<P, u8>>;
const FREEC: EC = InternalEntry::Free(NonZeroU8::MIN);
type EA = InternalEntry<P, u8>;
const FREEA: EA = InternalEntry::Free(NonZeroU8::MIN);
type EP = InternalEntry<P, P>;
const FREEP: EP = InternalEntry::Free(NonZeroU8::MIN);

pool!(p4 { S0: E, FREE, 4; });
pool!(p6 { S0: E, FREE, 6; });
pool!(p44 { S0: E, FREE, 4; S1: E, FREE, 4; });
pool!(p4c4 { S0: E, FREE, 4; S1: EC, FREEC, 4; });
pool!(p4a4 { S0: E, FREE, 4; S1: EA, FREEA, 4; });
pool!(q2 { S0: E, FREE, 3; S1: E, FREE, 2; });
pool!(q3 { S0: E, FREE, 4; S1: E, FREE, 3; });
pool!(q3p { S0: E, FREE, 4; S1: EP, FREEP, 4; S2: E, FREE, 3; });

crate::harnesses! {
    fresh_2, 5, p4, fresh();
    from_iter_0, 4, p4, from_iter(0);
    from_iter_1, 4, p4, from_iter(1);
    from_iter_2, 4, p4, from_iter(2);
    remove_1, 3, p4, remove::<1, 2>(true);
    remove_2, 4, p4, remove::<2, 3>(true);
    remove_3, 4, p4, remove::<3, 4>(true);
    remove_4, 5, p6, remove::<4, 5>(false);
    tr_remove_1, 3, p4, generic::<1, 2>(0);
    tr_clear_2, 5, p4, generic::<2, 3>(1);
    tr_clear_shrink_2, 5, p4, generic::<2, 3>(2);
    tr_access_2, 5, p4, generic::<2, 3>(3);
    insert_full_2, 4, p4, insert::<2, 2, 3>(0, true);
    find_key_0, 2, p4, find::<0, 1>(0);
    find_similar_0, 2, p4, find::<0, 1>(1);
    find_with_0, 2, p4, find::<0, 1>(2);
    find_similar_with_0, 2, p4, find::<0, 1>(3);
    find_linear_0, 2, p4, find::<0, 1>(4);
    find_similar_linear_0, 2, p4, find::<0, 1>(5);
    find_key_3, 5, p4, find::<3, 4>(0);
    find_similar_3, 5, p4, find::<3, 4>(1);
    find_with_3, 5, p4, find::<3, 4>(2);
    find_similar_with_3, 5, p4, find::<3, 4>(3);
    find_linear_3, 5, p4, find::<3, 4>(4);
    find_similar_linear_3, 5, p4, find::<3, 4>(5);
    access_3, 6, p4, access::<3, 4>();
    access2_3, 6, p4, access2::<3, 4>();
    invalidate_3, 6, p4, invalidate::<3, 4>();
    replace_keep_3, 6, p4, replace::<3, 4>(false);
    replace_update_3, 6, p4, replace::<3, 4>(true);
    swap_vals_3, 6, p4, swap_vals::<3, 4>();
    clear_3, 6, p4, clear::<3, 4>(false);
    clear_shrink_3, 6, p4, clear::<3, 4>(true);
    reserve_2, 7, p6, reserve::<2, 3>();
    advancer_3, 6, p4, iter::<3, 4>(0);
    advancer_from_3, 6, p4, iter::<3, 4>(1);
    ptrs_3, 6, p4, iter::<3, 4>(2);
    keys_3, 6, p4, iter::<3, 4>(3);
    vals_3, 6, p4, iter::<3, 4>(4);
    recast_3, 6, p4, recast::<3, 4>();
    vals_mut_3, 6, p4, iter::<3, 4>(5);
    iter_3, 6, p4, iter::<3, 4>(6);
    iter_ref_3, 6, p4, iter::<3, 4>(7);
    advancer_0, 6, p4, iter::<0, 2>(0);
    advancer_remove_2, 4, p4, advancer_remove::<2, 2>();
    advancer_remove_3, 4, p4, advancer_remove::<3, 3>();
    drain_2, 4, p4, drain::<2, 3>(3);
    drain_3, 5, p4, drain::<3, 3>(4);
    drain_1_0, 3, p4, drain::<1, 2>(0);
    drain_2_1, 4, p4, drain::<2, 3>(1);
    drain_3_0, 5, p4, drain::<3, 4>(0);
    drain_3_1, 5, p4, drain::<3, 4>(1);
    capacity_drain_2, 4, p4, capacity_drain::<2, 3>(false, 3);
    capacity_drain_2_1, 4, p4, capacity_drain::<2, 2>(false, 1);
    capacity_drain_1, 3, p4, capacity_drain::<1, 2>(false, 2);
    capacity_drain_3, 5, p4, capacity_drain::<3, 3>(false, 4);
    into_iter_1, 3, p4, capacity_drain::<1, 2>(true, 2);
    clone_3, 6, p44, clone::<3, 4, 0, 0>(0);
    clone_0, 6, p44, clone::<0, 2, 0, 0>(0);
    clone_source_3, 6, p44, clone_source::<3, 4>();
    clone_from_3_1, 6, p44, clone::<3, 4, 1, 2>(1);
    clone_from_1_3, 6, p44, clone::<1, 2, 3, 4>(1);
    clone_from_0_2, 6, p44, clone::<0, 2, 2, 3>(1);
    clone_from_2_0, 6, p44, clone::<2, 3, 0, 1>(1);
    clone_from_with_3_1, 6, p44, clone::<3, 4, 1, 2>(2);
    clone_from_with_1_3, 6, p44, clone::<1, 2, 3, 4>(2);
    clone_from_with_0_2, 6, p44, clone::<0, 2, 2, 3>(2);
    clone_from_with_2_0, 6, p44, clone::<2, 3, 0, 1>(2);
    to_chain_3, 6, p4c4, to_chain::<3, 4>();
    to_arena_3, 6, p4a4, to_arena::<3, 4>();
    eq_2_2, 4, p44, compare::<2, 3, 2, 2>(0);
    eq_2_1, 4, p44, compare::<2, 3, 1, 2>(0);
    eq_1_2, 4, p44, compare::<1, 2, 2, 3>(0);
    eq_0_1, 4, p44, compare::<0, 1, 1, 2>(0);
    cmp_2_2, 4, p44, compare::<2, 3, 2, 2>(1);
    cmp_2_1, 4, p44, compare::<2, 3, 1, 2>(1);
    cmp_1_2, 4, p44, compare::<1, 2, 2, 3>(1);
    cmp_0_1, 4, p44, compare::<0, 1, 1, 2>(1);
    partial_cmp_2_2, 4, p44, compare::<2, 3, 2, 2>(2);
    partial_cmp_2_1, 4, p44, compare::<2, 3, 1, 2>(2);
    partial_cmp_1_2, 4, p44, compare::<1, 2, 2, 3>(2);
    gen_overflow_2, 6, p44, gen_overflow::<2, 3>();
}

crate::no_growth_harnesses! {
    insert_0, 3, p4, insert::<0, 1, 1>(0, true);
    insert_1, 3, p4, insert::<1, 2, 2>(0, true);
    insert_2, 4, p4, insert::<2, 3, 3>(0, true);
    insert_3, 4, p4, insert::<3, 4, 4>(0, true);
    tr_insert_1, 3, p4, insert::<1, 2, 2>(5, true);
    insert_nonhereditary_0, 3, p4, insert::<0, 1, 1>(1, true);
    insert_nonhereditary_3, 4, p4, insert::<3, 4, 4>(1, false);
    insert_linear_0, 3, p4, insert::<0, 1, 1>(2, true);
    insert_linear_3, 4, p4, insert::<3, 4, 4>(2, false);
    insert_nonhereditary_linear_0, 3, p4, insert::<0, 1, 1>(3, true);
    insert_nonhereditary_linear_3, 4, p4, insert::<3, 4, 4>(3, false);
    insert_manual_3, 4, p4, insert::<3, 4, 4>(4, false);
    insert_empty_0, 3, p4, insert_empty::<0, 2>();
    insert_empty_1, 3, p4, insert_empty::<1, 2>();
    compress_0, 6, q2, compress::<0, 2>(0);
    compress_1, 6, q2, compress::<1, 2>(0);
    compress_2, 6, q2, compress::<2, 3>(0);
    compress_3, 6, q3, compress::<3, 4>(0);
    compress_plain_3, 6, q3, compress::<3, 4>(1);
    recaster_3, 6, q3p, compress::<3, 4>(2);
}
