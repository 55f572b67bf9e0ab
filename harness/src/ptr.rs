//! The index, generation and pointer types

use core::{
    cmp::Ordering,
    hash::{Hash, Hasher},
    num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize},
};

use triple_arena::{
    ptr_struct,
    utils::{PtrGen, PtrInx, PtrNoGen},
    Ptr, Recast, Recaster,
};

use crate::{nd::*, reach};

/// An arbitrary number of `n` bytes
fn num(n: usize) -> u128 {
    let mut x = 0u128;
    for _ in 0..n {
        x = (x << 8) | nd() as u128;
    }
    x
}

/// Checks what is needed of the index type with the largest value `max`, for the
/// value `x` of it, `get` is the value of an index
fn inx<I: PtrInx>(x: u128, max: u128, make: impl Fn(u128) -> Option<I>, get: impl Fn(I) -> u128) {
    let umax = usize::MAX as u128;
    let top = if max > umax { umax } else { max };
    assert!(<I as PtrInx>::max().get() as u128 == top, "max");
    assume(x != 0 && x <= top);
    let n = NonZeroUsize::new(x as usize).unwrap();
    let i = I::new(n);
    assert!(get(i) == x, "new");
    assert!(I::get(i) == n, "get");
    let j = make(x).unwrap();
    assert!(i == j && I::get(j) == n, "get");
    assert!(get(I::new(<I as PtrInx>::max())) == top && I::get(I::new(<I as PtrInx>::max())) == <I as PtrInx>::max(), "max");
    // the order is the one of the numbers
    assert!(i.cmp(&I::new(<I as PtrInx>::max())) == x.cmp(&top), "order");
    // conversion of something larger truncates
    let y = num(8);
    if y != 0 && y & max != 0 {
        let i = I::new(NonZeroUsize::new(y as usize).unwrap());
        assert!(get(i) == y & max, "truncation");
    }
    reach!(x == top, "max");
}

/// The same for generations
fn gen<G: PtrGen>(x: u128, max: u128, make: impl Fn(u128) -> Option<G>, get: impl Fn(G) -> u128) {
    assert!(get(G::one()) == 1 && get(G::two()) == 2, "constants");
    assume(x != 0 && x < max);
    let g = make(x).unwrap();
    let h = G::increment(g);
    assert!(get(h) == x + 1, "increment");
    assert!(h != g && h > g, "increment");
    reach!(get(h) == max, "max");
}

fn gen_panic<G: PtrGen>(g: G) {
    let _ = G::increment(g);
    assert!(false, "must panic");
}

/// For `P: Ptr`
fn ptr<P: Ptr + Default>(i: P::Inx, g: P::Gen, j: P::Inx, h: P::Gen, max: P::Inx, start: Option<P::Gen>) {
    let p = P::_from_raw(i, g);
    let q = P::_from_raw(j, h);
    assert!(p.inx() == i && p.generation() == g, "parts");
    assert!((p == q) == (i == j && g == h) && (p != q) == !(p == q), "equality");
    let ord = i.cmp(&j).then(g.cmp(&h));
    assert!(p.cmp(&q) == ord && p.partial_cmp(&q) == Some(ord), "order");
    assert!((p < q) == (ord == Ordering::Less), "order");
    let c = p;
    assert!(c == p && c.clone() == p, "copy");
    if p == q {
        assert!(hash(&p) == hash(&q), "hash");
    }
    let inv = P::invalid();
    assert!(inv.inx() == max && inv.generation() == P::Gen::one(), "invalid");
    assert!(P::default() == inv, "default");
    if let Some(start) = start {
        // arenas start at generation two
        if g >= start {
            assert!(p != inv, "invalid pointer equals a pointer of an arena");
        }
    }
    let mut r = p;
    assert!(r.recast(&To(p, q)) == Ok(()), "recast");
    assert!(r == q, "recast");
    let mut r = q;
    let res = r.recast(&To(p, q));
    if p == q {
        assert!(res == Ok(()) && r == q, "recast");
    } else {
        assert!(res == Err(q), "failing recast");
    }
    reach!(p == q, "equal");
    reach!(p != q && i == j || hash(&p) != hash(&q), "different");
}

/// Recasts the first one to the second one
struct To<P: Ptr>(P, P);

impl<P: Ptr> Recaster for To<P> {
    type Item = P;

    fn recast_item(&self, item: &mut P) -> Result<(), P> {
        if *item == self.0 {
            *item = self.1;
            Ok(())
        } else {
            Err(*item)
        }
    }
}

struct Sum(u64);

impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }

    fn write(&mut self, _: &[u8]) {
        self.0 = self.0.wrapping_mul(31).wrapping_add(7);
    }

    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }

    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }

    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }

    fn write_u64(&mut self, x: u64) {
        self.0 = self.0.rotate_left(8) ^ x;
    }

    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }

    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = Sum(0);
    t.hash(&mut h);
    h.finish()
}

ptr_struct!(D);
ptr_struct!(I8[NonZeroU8]);
ptr_struct!(G8(NonZeroU8));
ptr_struct!(I16G32[NonZeroU16](NonZeroU32));
ptr_struct!(I32G16[NonZeroU32](NonZeroU16));
ptr_struct!(I64G64[NonZeroU64](NonZeroU64));
ptr_struct!(I128G128[NonZeroU128](NonZeroU128));
ptr_struct!(U());
ptr_struct!(I8U[NonZeroU8]());
ptr_struct!(A0[NonZeroU8](NonZeroU16) doc="several"; A1[NonZeroU8](NonZeroU16));

macro_rules! any_nz {
    ($t:ident, $n:literal) => {{
        let x = num($n);
        assume(x != 0);
        $t::new(x as _).unwrap()
    }};
}

macro_rules! ptr_gen {
    ($p:ident, $i:ident, $ni:literal, $g:ident, $ng:literal) => {{
        let (i, g) = (any_nz!($i, $ni), any_nz!($g, $ng));
        let j = if ndb() { i } else { any_nz!($i, $ni) };
        let h = if ndb() { g } else { any_nz!($g, $ng) };
        ptr::<$p>(i, g, j, h, PtrInx::new(<$i as PtrInx>::max()), $g::new(2));
    }};
}

macro_rules! ptr_unit {
    ($p:ty, $i:ident, $ni:literal) => {{
        let i = any_nz!($i, $ni);
        let j = if ndb() { i } else { any_nz!($i, $ni) };
        ptr::<$p>(i, (), j, (), PtrInx::new(<$i as PtrInx>::max()), None);
    }};
}

fn unit_gen() {
    assert!(<() as PtrGen>::one() == () && <() as PtrGen>::increment(()) == ());
    ptr_unit!(U, NonZeroUsize, 8);
    let (x, y) = (any_nz!(NonZeroU8, 1), any_nz!(NonZeroU8, 1));
    ptr::<I8U>(x, (), y, (), NonZeroU8::MAX, None);
    ptr::<PtrNoGen<I8>>(x, (), y, (), NonZeroU8::MAX, None);
}

fn several() {
    ptr_gen!(A0, NonZeroU8, 1, NonZeroU16, 2);
    ptr_gen!(A1, NonZeroU8, 1, NonZeroU16, 2);
}

macro_rules! inx_of {
    ($t:ident, $u:ident, $n:literal) => {
        inx::<$t>(num($n), $u::MAX as u128, |x| $t::new(x as $u), |i| i.get() as u128)
    };
}

macro_rules! gen_of {
    ($t:ident, $u:ident, $n:literal) => {
        gen::<$t>(num($n), $u::MAX as u128, |x| $t::new(x as $u), |i| i.get() as u128)
    };
}

crate::real_alloc_harnesses! {
    inx_u8, 18, inx_of!(NonZeroU8, u8, 1);
    inx_u16, 18, inx_of!(NonZeroU16, u16, 2);
    inx_u32, 18, inx_of!(NonZeroU32, u32, 4);
    inx_u64, 18, inx_of!(NonZeroU64, u64, 8);
    inx_usize, 18, inx_of!(NonZeroUsize, usize, 8);
    inx_u128, 18, inx_of!(NonZeroU128, u128, 16);
    gen_u8, 18, gen_of!(NonZeroU8, u8, 1);
    gen_u16, 18, gen_of!(NonZeroU16, u16, 2);
    gen_u32, 18, gen_of!(NonZeroU32, u32, 4);
    gen_u64, 18, gen_of!(NonZeroU64, u64, 8);
    gen_u128, 18, gen_of!(NonZeroU128, u128, 16);
    panic_u8, 18, gen_panic(NonZeroU8::MAX);
    panic_u16, 18, gen_panic(NonZeroU16::MAX);
    panic_u32, 18, gen_panic(NonZeroU32::MAX);
    panic_u64, 18, gen_panic(NonZeroU64::MAX);
    panic_u128, 18, gen_panic(NonZeroU128::MAX);
    ptr_default, 18, ptr_gen!(D, NonZeroUsize, 8, NonZeroU64, 8);
    ptr_i8, 18, ptr_gen!(I8, NonZeroU8, 1, NonZeroU64, 8);
    ptr_g8, 18, ptr_gen!(G8, NonZeroUsize, 8, NonZeroU8, 1);
    ptr_i16_g32, 18, ptr_gen!(I16G32, NonZeroU16, 2, NonZeroU32, 4);
    ptr_i32_g16, 18, ptr_gen!(I32G16, NonZeroU32, 4, NonZeroU16, 2);
    ptr_i64_g64, 18, ptr_gen!(I64G64, NonZeroU64, 8, NonZeroU64, 8);
    ptr_i128_g128, 18, ptr_gen!(I128G128, NonZeroU128, 16, NonZeroU128, 16);
    ptr_several, 18, several();
    ptr_unit_gen, 18, unit_gen();
}
