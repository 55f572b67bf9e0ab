//! Serialization, with an in memory format that has one byte per number

use core::{fmt::Display, num::NonZeroU8};

use serde::{
    de::{self, DeserializeSeed, MapAccess, SeqAccess, Visitor},
    ser::{self, SerializeMap, SerializeTuple},
    Deserialize, Deserializer, Serialize, Serializer,
};
use triple_arena::{
    utils::{ChainNoGenArena, InternalEntry, LinkNoGen, PtrNoGen},
    Advancer, Arena, ChainArena, Link, OrdArena, Ptr, SurjectArena,
};

use crate::{
    arena::{self, any_arena, any_ptr, mk, nz, Model, P},
    chain, harnesses,
    nd::*,
    ord, pool, pool_kv, reach, surject, unroll,
};

const T: usize = 32;

/// Numbers are one byte, options are a flag and the content (or 0), maps start
/// with the length
struct Buf {
    t: [u8; T],
    n: usize,
}

impl Buf {
    fn new() -> Self {
        Buf {
            t: [0; T],
            n: 0,
        }
    }

    fn push(&mut self, x: u8) {
        assert!(self.n < T, "harness: buffer");
        self.t[self.n] = x;
        self.n += 1;
    }

    fn option(&mut self, x: u8) {
        self.push((x != 0) as u8);
        self.push(x);
    }

    fn same(&self, other: &Buf) {
        assert!(self.n == other.n, "serialized length");
        // the first ones and the rest
        unroll!(I, 16, {
            assert!(I >= self.n || self.t[I] == other.t[I], "serialized content");
        });
        unroll!(I, 16, {
            assert!(I + 16 >= self.n || self.t[I + 16] == other.t[I + 16], "serialized content");
        });
    }
}

/// Numbers out of range are rejected by `serde` itself, the input does not have
/// them. Ending the execution here keeps the position in the input concrete.
fn malformed() -> Fail {
    assume(false);
    Fail
}

#[derive(Debug)]
struct Fail;

impl Display for Fail {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}

impl std::error::Error for Fail {}

impl ser::Error for Fail {
    fn custom<D: Display>(_: D) -> Self {
        Fail
    }
}

impl de::Error for Fail {
    fn custom<D: Display>(_: D) -> Self {
        Fail
    }

    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        malformed()
    }

    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        malformed()
    }

    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        malformed()
    }
}

impl<'a> Serializer for &'a mut Buf {
    type Error = Fail;
    type Ok = ();
    type SerializeMap = Self;
    type SerializeSeq = ser::Impossible<(), Fail>;
    type SerializeStruct = ser::Impossible<(), Fail>;
    type SerializeStructVariant = ser::Impossible<(), Fail>;
    type SerializeTuple = Self;
    type SerializeTupleStruct = ser::Impossible<(), Fail>;
    type SerializeTupleVariant = ser::Impossible<(), Fail>;

    fn serialize_u8(self, v: u8) -> Result<(), Fail> {
        self.push(v);
        Ok(())
    }

    fn serialize_u64(self, v: u64) -> Result<(), Fail> {
        assert!(v < 256, "harness: large number");
        self.push(v as u8);
        Ok(())
    }

    fn serialize_none(self) -> Result<(), Fail> {
        self.option(0);
        Ok(())
    }

    fn serialize_some<S: Serialize + ?Sized>(self, v: &S) -> Result<(), Fail> {
        self.push(1);
        v.serialize(self)
    }

    fn serialize_unit(self) -> Result<(), Fail> {
        Ok(())
    }

    fn serialize_tuple(self, _: usize) -> Result<Self, Fail> {
        Ok(self)
    }

    fn serialize_map(self, len: Option<usize>) -> Result<Self, Fail> {
        self.push(len.unwrap() as u8);
        Ok(self)
    }

    fn collect_str<S: Display + ?Sized>(self, _: &S) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_bool(self, _: bool) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_i8(self, _: i8) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_i16(self, _: i16) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_i32(self, _: i32) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_i64(self, _: i64) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_u16(self, v: u16) -> Result<(), Fail> {
        self.serialize_u64(v as u64)
    }

    fn serialize_u32(self, v: u32) -> Result<(), Fail> {
        self.serialize_u64(v as u64)
    }

    fn serialize_f32(self, _: f32) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_f64(self, _: f64) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_char(self, _: char) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_str(self, _: &str) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_bytes(self, _: &[u8]) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_newtype_struct<S: Serialize + ?Sized>(self, _: &'static str, v: &S) -> Result<(), Fail> {
        v.serialize(self)
    }

    fn serialize_newtype_variant<S: Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &S,
    ) -> Result<(), Fail> {
        unreachable!()
    }

    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fail> {
        unreachable!()
    }

    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> {
        unreachable!()
    }

    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, Fail> {
        unreachable!()
    }

    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> {
        unreachable!()
    }

    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, Fail> {
        unreachable!()
    }
}

impl<'a> SerializeTuple for &'a mut Buf {
    type Error = Fail;
    type Ok = ();

    fn serialize_element<S: Serialize + ?Sized>(&mut self, v: &S) -> Result<(), Fail> {
        v.serialize(&mut **self)
    }

    fn end(self) -> Result<(), Fail> {
        Ok(())
    }
}

impl<'a> SerializeMap for &'a mut Buf {
    type Error = Fail;
    type Ok = ();

    fn serialize_key<S: Serialize + ?Sized>(&mut self, v: &S) -> Result<(), Fail> {
        v.serialize(&mut **self)
    }

    fn serialize_value<S: Serialize + ?Sized>(&mut self, v: &S) -> Result<(), Fail> {
        v.serialize(&mut **self)
    }

    fn end(self) -> Result<(), Fail> {
        Ok(())
    }
}

/// Reads what a `Buf` contains. The layout is given such that the position is
/// concrete also after parts that can fail.
struct De<'a> {
    b: &'a Buf,
    at: usize,
    /// If the size of maps is known in advance
    hint: bool,
    /// Number of maps started
    maps: usize,
    /// Length and entry size of the maps
    layout: [(usize, usize); 2],
}

impl<'a> De<'a> {
    fn next(&mut self) -> u8 {
        let x = self.b.t[self.at];
        self.at += 1;
        x
    }
}

macro_rules! not_used {
    ($($f:ident)*) => {
        $(fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Fail> {
            unreachable!()
        })*
    };
}

impl<'de, 'a, 'b> Deserializer<'de> for &'b mut De<'a> {
    type Error = Fail;

    not_used! {
        deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_f32
        deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
        deserialize_seq deserialize_identifier deserialize_ignored_any
    }

    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        v.visit_u8(self.next())
    }

    fn deserialize_u16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        v.visit_u8(self.next())
    }

    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        v.visit_u8(self.next())
    }

    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        v.visit_u64(self.next() as u64)
    }

    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        if self.next() == 0 {
            self.next();
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }

    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        v.visit_unit()
    }

    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, Fail> {
        v.visit_seq(Seq(self, len))
    }

    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        let k = self.maps;
        self.maps += 1;
        let (len, size) = self.layout[k];
        let start = if k == 0 { 1 } else { self.layout[0].0 * self.layout[0].1 + 2 };
        assert!(self.b.t[start - 1] as usize == len, "harness: layout");
        v.visit_map(Map {
            de: self,
            left: len,
            start,
            size,
        })
    }

    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fail> {
        v.visit_newtype_struct(self)
    }

    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Fail> {
        unreachable!()
    }

    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Fail> {
        unreachable!()
    }

    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        _: V,
    ) -> Result<V::Value, Fail> {
        unreachable!()
    }

    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        _: V,
    ) -> Result<V::Value, Fail> {
        unreachable!()
    }
}

/// The number of elements that are left
struct Seq<'a, 'b>(&'b mut De<'a>, usize);

impl<'de, 'a, 'b> SeqAccess<'de> for Seq<'a, 'b> {
    type Error = Fail;

    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Fail> {
        if self.1 == 0 {
            return Ok(None)
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }

    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}

struct Map<'a, 'b> {
    de: &'b mut De<'a>,
    left: usize,
    /// Where the next entry starts
    start: usize,
    size: usize,
}

impl<'de, 'a, 'b> MapAccess<'de> for Map<'a, 'b> {
    type Error = Fail;

    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Fail> {
        if self.left == 0 {
            return Ok(None)
        }
        self.left -= 1;
        self.de.at = self.start;
        self.start += self.size;
        s.deserialize(&mut *self.de).map(Some)
    }

    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Fail> {
        self.de.at = self.start - self.size + 1;
        s.deserialize(&mut *self.de)
    }

    fn size_hint(&self) -> Option<usize> {
        if self.de.hint {
            Some(self.left)
        } else {
            None
        }
    }
}

fn de<'a>(b: &'a Buf, hint: bool, layout: [(usize, usize); 2]) -> De<'a> {
    De {
        b,
        at: 0,
        hint,
        maps: 0,
        layout,
    }
}

fn pointers() {
    let p = any_ptr();
    let mut b = Buf::new();
    p.serialize(&mut b).unwrap();
    let mut e = Buf::new();
    e.push(p.inx().get());
    b.same(&e);
    let q = P::deserialize(&mut de(&b, true, [(0, 0); 2])).unwrap();
    assert!(q == mk(p.inx().get(), 2), "pointer");
    let q = PtrNoGen::<P>::_from_raw(p.inx(), ());
    let mut b = Buf::new();
    q.serialize(&mut b).unwrap();
    b.same(&e);
    assert!(PtrNoGen::<P>::deserialize(&mut de(&b, true, [(0, 0); 2])).unwrap() == q, "pointer");
    let q = ord::u::P::_from_raw(p.inx(), ());
    let mut b = Buf::new();
    q.serialize(&mut b).unwrap();
    b.same(&e);
    assert!(ord::u::P::deserialize(&mut de(&b, true, [(0, 0); 2])).unwrap() == q, "pointer");
}

fn arena_ser<const N: usize>() {
    let (a, m) = any_arena::<N, N>();
    let mut b = Buf::new();
    a.serialize(&mut b).unwrap();
    let mut e = Buf::new();
    e.push(m.len() as u8);
    for i in 0..N {
        if m.g[i] != 0 {
            e.push(i as u8 + 1);
            e.push(m.v[i]);
        }
    }
    b.same(&e);
    core::mem::forget(a);
}

/// `N` distinct or equal indexes in `1..=max`, the second result is if the indexes
/// are valid
fn any_inxs<const N: usize>(max: u8) -> ([u8; N], bool) {
    let mut x = [0; N];
    let mut ok = true;
    for i in 0..N {
        x[i] = ndr(1, max);
        for j in 0..i {
            if x[i] == x[j] {
                ok = false;
            }
        }
    }
    (x, ok)
}

fn max_of<const N: usize>(x: &[u8; N]) -> usize {
    let mut res = 0;
    for i in 0..N {
        if x[i] > res {
            res = x[i];
        }
    }
    res as usize
}

fn arena_de<const N: usize, const M: usize>(hint: bool) {
    let mut b = Buf::new();
    b.push(N as u8);
    let (x, ok) = any_inxs::<N>(M as u8);
    let mut m = Model::<M> {
        cap: 0,
        generation: 2,
        g: [0; M],
        v: [0; M],
    };
    for i in 0..N {
        b.push(x[i]);
        let v = nd();
        b.push(v);
        if ok {
            m.g[x[i] as usize - 1] = 2;
            m.v[x[i] as usize - 1] = v;
        }
    }
    match Arena::<P, u8>::deserialize(&mut de(&b, hint, [(N, 2); 2])) {
        Err(_) => assert!(!ok, "deserialization failed"),
        Ok(mut a) => {
            assert!(ok, "wrong indexes accepted");
            // unused slots up to the largest index are expected
            assert!(a.capacity() >= max_of(&x), "capacity");
            m.cap = a.capacity();
            assume(m.cap <= M);
            arena::check(&a, &m);
            arena::exhaust(&mut a, &mut m);
            core::mem::forget(a);
        }
    }
    reach!(ok, "accepted");
    reach!(N < 2 || !ok, "rejected");
}

macro_rules! chains {
    ($ser:ident, $de:ident, $module:path, $arena:ident) => {
        fn $ser<const N: usize>() {
            use $module as ch;
            let (c, m) = ch::any_chain::<N, N>();
            let mut b = Buf::new();
            c.serialize(&mut b).unwrap();
            let mut e = Buf::new();
            e.push(m.len() as u8);
            for i in 0..N {
                if m.g[i] != 0 {
                    e.push(i as u8 + 1);
                    e.option(m.prev[i]);
                    e.option(m.next[i]);
                    e.push(m.v[i]);
                }
            }
            b.same(&e);
            core::mem::forget(c);
        }

        fn $de<const N: usize, const M: usize>(hint: bool) {
            use $module as ch;
            let mut b = Buf::new();
            b.push(N as u8);
            let (x, ok) = any_inxs::<N>(M as u8);
            let mut m = ch::Ch::<M> {
                cap: 0,
                generation: 2,
                g: [0; M],
                v: [0; M],
                prev: [0; M],
                next: [0; M],
            };
            for i in 0..N {
                b.push(x[i]);
                let (prev, next, v) = (ndr(0, M as u8), ndr(0, M as u8), nd());
                b.option(prev);
                b.option(next);
                b.push(v);
                if ok {
                    let i = x[i] as usize - 1;
                    m.g[i] = 2;
                    m.v[i] = v;
                    m.prev[i] = prev;
                    m.next[i] = next;
                }
            }
            let ok = ok && m.consistent();
            match $arena::<P, u8>::deserialize(&mut de(&b, hint, [(N, 6); 2])) {
                Err(_) => assert!(!ok, "deserialization failed"),
                Ok(mut a) => {
                    assert!(ok, "inconsistent chains accepted");
                    assert!(a.capacity() >= max_of(&x), "capacity");
                    m.cap = a.capacity();
                    assume(m.cap <= M);
                    ch::check(&a, &m);
                    ch::exhaust(&mut a, &mut m);
                    core::mem::forget(a);
                }
            }
            reach!(ok, "accepted");
            reach!(N == 0 || !ok, "rejected");
        }
    };
}

chains!(chain_ser, chain_de, crate::chain::g, ChainArena);
chains!(nchain_ser, nchain_de, crate::chain::n, ChainNoGenArena);

fn surject_ser<const N: usize, const NV: usize>() {
    let (a, m) = surject::any::<N, NV, N>();
    let mut prev = [0u8; N];
    for i in 0..N {
        if m.g[i] != 0 {
            prev[m.next[i] as usize - 1] = i as u8 + 1;
        }
    }
    let mut b = Buf::new();
    a.serialize(&mut b).unwrap();
    let mut e = Buf::new();
    e.push(m.len() as u8);
    for i in 0..N {
        if m.g[i] != 0 {
            e.push(i as u8 + 1);
            e.option(prev[i]);
            e.option(m.next[i]);
            e.push(m.k[i]);
            e.push(m.s[i]);
        }
    }
    e.push(m.len_vals() as u8);
    for s in 1..=NV {
        let n = m.count(s as u8);
        if n != 0 {
            e.push(s as u8);
            e.push(m.v[s]);
            e.push(n as u8);
        }
    }
    b.same(&e);
    core::mem::forget(a);
}

/// `x` and `y` are the indexes of the keys and values
fn surject_de<const N: usize, const NV: usize, const M: usize>(x: [u8; N], y: [u8; NV]) {
    let mut b = Buf::new();
    b.push(N as u8);
    let mut ok = true;
    let mut m = surject::Sj::<M> {
        cap: 0,
        cap_vals: 0,
        generation: 2,
        g: [0; M],
        k: [0; M],
        s: [0; M],
        v: [0; 6],
        next: [0; M],
    };
    let mut prev = [0u8; M];
    for i in 0..N {
        b.push(x[i]);
        let (u, d, k, s) = (ndr(0, M as u8), ndr(0, M as u8), nd(), ndr(1, M as u8));
        b.option(u);
        b.option(d);
        b.push(k);
        b.push(s);
        let i = x[i] as usize - 1;
        m.g[i] = 2;
        m.k[i] = k;
        m.s[i] = s;
        m.next[i] = d;
        prev[i] = u;
    }
    b.push(NV as u8);
    let mut count = [0u8; 6];
    for i in 0..NV {
        b.push(y[i]);
        let (v, n) = (nd(), ndr(1, 3));
        b.push(v);
        b.push(n);
        m.v[y[i] as usize] = v;
        count[y[i] as usize] = n;
    }
    // every key is in a cycle with all keys of its value
    for i in 0..M {
        if ok && m.g[i] != 0 {
            let d = m.next[i] as usize;
            ok = m.s[i] != 0 && d != 0 && m.g[d - 1] != 0 && m.s[d - 1] == m.s[i] && prev[d - 1] == i as u8 + 1;
            ok = ok && surject::cycle(&m.next, i, m.count(m.s[i]));
        }
    }
    for s in 1..=M {
        if ok {
            ok = m.count(s as u8) == count[s] as usize;
        }
    }
    match SurjectArena::<P, u8, u8>::deserialize(&mut de(&b, true, [(N, 7), (NV, 3)])) {
        Err(_) => assert!(!ok, "deserialization failed"),
        Ok(a) => {
            assert!(ok, "inconsistent sets accepted");
            assert!(a.capacity_keys() >= max_of(&x) && a.capacity_vals() >= max_of(&y), "capacity");
            m.cap = a.capacity_keys();
            m.cap_vals = a.capacity_vals();
            surject::check(&a, &m);
            core::mem::forget(a);
        }
    }
    reach!(ok, "accepted");
    reach!(N == 0 || !ok, "rejected");
}

fn ord_ser<const N: usize, const S: usize>() {
    let (o, ex) = ord::g::any_ord::<N, S, N>(true, ord::g::SORTED);
    let mut compressed = true;
    let mut e = Buf::new();
    e.push(N as u8);
    for i in 0..N {
        if ex.at[i] as usize != i + 1 {
            compressed = false;
        }
        e.push(ex.k[i]);
        e.push(ex.v[i]);
    }
    let mut b = Buf::new();
    match o.serialize(&mut b) {
        Ok(()) => {
            assert!(compressed, "serialized something that is not compressed");
            b.same(&e);
        }
        Err(_) => assert!(!compressed, "serialization failed"),
    }
    reach!(compressed, "compressed");
    reach!(N == 0 || !compressed, "not compressed");
    core::mem::forget(o);
}

fn ord_de<const N: usize>() {
    let mut ex = ord::g::Ex::<N> {
        n: N,
        at: [0; N],
        g: [2; N],
        k: [0; N],
        v: [0; N],
        generation: 2,
    };
    let mut b = Buf::new();
    b.push(N as u8);
    for i in 0..N {
        ex.at[i] = i as u8 + 1;
        ex.k[i] = nd();
        ex.v[i] = nd();
        if i > 0 {
            assume(ex.k[i - 1] <= ex.k[i]);
        }
        b.push(ex.k[i]);
        b.push(ex.v[i]);
    }
    match OrdArena::<P, u8, u8>::deserialize(&mut de(&b, ndb(), [(N, 2); 2])) {
        Ok(mut o) => {
            ord::g::check(&o, &ex);
            if N == 0 {
                let (p, _) = o.insert(1, 2);
                assert!(o.get(p) == Some((&1, &2)) && o.first() == Some(p), "insert");
            }
            core::mem::forget(o);
        }
        Err(_) => assert!(false, "deserialization failed"),
    }
}

/// Everything concrete for the sake of a larger size
fn ord_de_concrete<const N: usize>() {
    let mut ex = ord::u::Ex::<N> {
        n: N,
        at: [0; N],
        g: [0; N],
        k: [0; N],
        v: [0; N],
        generation: 0,
    };
    let mut b = Buf::new();
    b.push(N as u8);
    for i in 0..N {
        ex.at[i] = i as u8 + 1;
        ex.k[i] = 3 * i as u8;
        b.push(ex.k[i]);
    }
    match OrdArena::<ord::u::P, u8, ()>::deserialize(&mut de(&b, true, [(N, 1); 2])) {
        Ok(o) => {
            ord::u::check(&o, &ex);
            core::mem::forget(o);
        }
        Err(_) => assert!(false, "deserialization failed"),
    }
}

harnesses! {
    sd_ord_ser_0, 3, o4, ord_ser::<0, 1>();
    sd_ord_ser_3, 5, o4, ord_ser::<3, 4>();
    sd_ord_de_0, 3, o4, ord_de::<0>();
    sd_ord_de_1, 3, o4, ord_de::<1>();
    sd_ord_de_2, 4, o4, ord_de::<2>();
    sd_ord_de_3, 5, o4, ord_de::<3>();
    sd_ord_de_8, 11, ou16, ord_de_concrete::<8>();
    sd_ord_de_11, 14, ou16, ord_de_concrete::<11>();
    sd_pointers, 3, p4, pointers();
    sd_arena_ser_3, 5, p4, arena_ser::<3>();
    sd_arena_de_0, 5, p4, arena_de::<0, 4>(false);
    sd_arena_de_3, 5, p4, arena_de::<3, 4>(false);
    sd_arena_de_hint_3, 5, p4, arena_de::<3, 4>(true);
    sd_chain_ser_3, 5, c4, chain_ser::<3>();
    sd_nchain_ser_3, 5, n4, nchain_ser::<3>();
    sd_chain_de_0, 4, c4, chain_de::<0, 3>(true);
    sd_nchain_de_0, 4, n4, nchain_de::<0, 3>(true);
    sd_chain_de_2, 4, c4, chain_de::<2, 3>(true);
    sd_nchain_de_2, 4, n4, nchain_de::<2, 3>(true);
    sd_surject_ser_2, 5, s44, surject_ser::<2, 3>();
    sd_surject_de_0, 3, s44, surject_de::<0, 0, 2>([], []);
    sd_surject_de_1, 3, s44, surject_de::<1, 1, 2>([2], [1]);
    sd_surject_de_2_1, 3, s44, surject_de::<2, 1, 2>([1, 2], [2]);
    sd_surject_de_3_1, 4, s44, surject_de::<3, 1, 3>([2, 1, 3], [1]);
    sd_surject_de_2_2, 3, s44, surject_de::<2, 2, 2>([2, 1], [1, 2]);
}

type E = arena::E;
use arena::FREE;
type EC = chain::g::E;
const FREEC: EC = chain::g::FREE;
type EN = chain::n::E;
const FREEN: EN = chain::n::FREE;
use surject::{EK, EV, FREEK, FREEV};

pool!(p4 { S0: E, FREE, 4; S1: E, FREE, 4; S2: E, FREE, 4; });
type EO = ord::g::E;
const FREEO: EO = ord::g::FREE;
type EOU = ord::u::E;
const FREEOU: EOU = ord::u::FREE;
pool!(o4 { S0: EO, FREEO, 4; });
pool!(ou16 { S0: EOU, FREEOU, 16; });
pool!(c4 { S0: EC, FREEC, 4; });
pool!(n4 { S0: EN, FREEN, 4; });
type EU = InternalEntry<PtrNoGen<P>, usize>;
const FREEU: EU = InternalEntry::Free(NonZeroU8::MIN);
pool_kv!(s44 { K0: EK, FREEK, 4; } { V0: EV, FREEV, 4; V1: EU, FREEU, 4; });
