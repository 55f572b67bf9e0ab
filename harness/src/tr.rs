//! Calls that only know that the arena is an `ArenaTrait`

use triple_arena::{ArenaTrait, Ptr};

pub fn new<A: ArenaTrait>() -> A {
    A::new()
}

pub fn capacity<A: ArenaTrait>(a: &A) -> usize {
    a.capacity()
}

pub fn generation<A: ArenaTrait>(a: &A) -> <A::P as Ptr>::Gen {
    a.generation()
}

pub fn len<A: ArenaTrait>(a: &A) -> usize {
    a.len()
}

pub fn is_empty<A: ArenaTrait>(a: &A) -> bool {
    a.is_empty()
}

pub fn insert<A: ArenaTrait>(a: &mut A, e: A::E) -> A::P {
    a.insert(e)
}

pub fn remove<A: ArenaTrait>(a: &mut A, p: A::P) -> Option<A::E> {
    a.remove(p)
}

pub fn get<A: ArenaTrait>(a: &A, p: A::P) -> Option<A::GetRes<'_>> {
    a.get(p)
}

pub fn get_mut<A: ArenaTrait>(a: &mut A, p: A::P) -> Option<A::GetMutRes<'_>> {
    a.get_mut(p)
}

pub fn advancer<A: ArenaTrait>(a: &A) -> A::Adv {
    a.advancer()
}

pub fn contains<A: ArenaTrait>(a: &A, p: A::P) -> bool {
    a.contains(p)
}

pub fn clear<A: ArenaTrait>(a: &mut A) {
    a.clear()
}

pub fn clear_and_shrink<A: ArenaTrait>(a: &mut A) {
    a.clear_and_shrink()
}
