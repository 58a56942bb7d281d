#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_unsafe, unused_parens, unused_braces, non_snake_case, mismatched_lifetime_syntaxes, unreachable_code, unused_attributes)]
use std::any::TypeId;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::ops::Deref;
use std::sync::Arc;
use vstd::prelude::*;
/// `anyhow::ensure!` without its message
macro_rules! ensure { ($c:expr $(, $($m:tt)*)?) => { if !($c) { return Err(AnyErr); } } }
/// `assert!` on an argument (functions marked `//@rw`): see `refuse_unless`
macro_rules! refuse { ($c:expr) => { refuse_unless($c) } }
type AnyResult<T> = Result<T, AnyErr>;
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------------------------------------------------------
// Assumed contracts on the standard library (each one listed in the evidence)
// ---------------------------------------------------------------------------------------------------------------

pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures
        r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]),
;

pub assume_specification<T, E>[ <Result<Option<T>, E>>::transpose ](x: Result<Option<T>, E>) -> (r: Option<Result<T, E>>)
    ensures
        r == match x {
            Ok(Some(v)) => Some(Ok::<T, E>(v)),
            Ok(None) => None,
            Err(e) => Some(Err::<T, E>(e)),
        },
;

pub assume_specification<T, E>[ <Option<Result<T, E>>>::transpose ](x: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures
        r == match x {
            Some(Ok(v)) => Ok::<Option<T>, E>(Some(v)),
            Some(Err(e)) => Err::<Option<T>, E>(e),
            None => Ok::<Option<T>, E>(None),
        },
;

pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ <Arc<T, A> as AsRef<T>>::as_ref ](a: &Arc<T, A>) -> (r: &T)
    ensures
        r == &**a,
;

/// `Arc<Vec<u8>>::as_ref().as_ref()`
#[verifier::external_body]
fn arc_bytes(a: &ManuallyDrop<Arc<Vec<u8>>>) -> (r: &[u8])
    ensures
        r@ == a@@,
{
    (***a).as_ref()
}

/// `Arc::make_mut`: the content is the same, the previous owners keep theirs
#[verifier::external_body]
fn arc_make_mut<T>(a: &mut Arc<Vec<T>>) -> (r: &mut Vec<T>)
    ensures
        (*r)@ == (**old(a))@,
        (**final(a))@ == (*final(r))@,
{
    unimplemented!()
}

/// the content of the slot has been dropped (C14: it must not be used or dropped again)
uninterp spec fn released<T>(m: ManuallyDrop<T>) -> bool;

/// `ManuallyDrop::drop`: releases the reference, at most once
#[verifier::external_body]
fn manually_drop<T>(a: &mut ManuallyDrop<T>)
    requires
        !released(*old(a)),
    ensures
        released(*final(a)),
{
    unsafe { ManuallyDrop::drop(a) }
}

/// `ManuallyDrop::new`
#[verifier::external_body]
fn md_new<T>(x: T) -> (r: ManuallyDrop<T>)
    ensures
        r@ == x,
        !released(r),
{
    ManuallyDrop::new(x)
}

/// `DerefMut` of `ManuallyDrop`
#[verifier::external_body]
fn md_mut<T>(a: &mut ManuallyDrop<T>) -> (r: &mut T)
    ensures
        *r == old(a)@,
        final(a)@ == *final(r),
        released(*final(a)) == released(*old(a)),
{
    &mut *a
}

/// `ManuallyDrop<Arc<T>>::clone`
#[verifier::external_body]
fn md_clone<T>(a: &ManuallyDrop<Arc<T>>) -> (r: ManuallyDrop<Arc<T>>)
    ensures
        r == *a,
{
    a.clone()
}

#[verifier::external_body]
fn strong_count<T>(a: &ManuallyDrop<Arc<T>>) -> usize {
    Arc::strong_count(a)
}

/// A pointer to the first byte of a region: `&'a u8` whose neighbours are read with `from_raw_parts`.
/// `tail` is the region of the buffer that starts at the pointer; reading past it is what the obligation on
/// `raw_parts` excludes.
#[verifier::external_body]
#[derive(Clone, Copy)]
struct BytePtr<'a> {
    p: &'a u8,
}

impl<'a> BytePtr<'a> {
    uninterp spec fn tail(self) -> Seq<u8>;
}

/// `&rest[0]`
#[verifier::external_body]
fn byte_ptr<'a>(s: &'a [u8]) -> (r: BytePtr<'a>)
    requires
        s@.len() > 0,
    ensures
        r.tail() == s@,
{
    BytePtr { p: &s[0] }
}

/// `std::slice::from_raw_parts(p, n)`
#[verifier::external_body]
fn raw_parts<'a>(p: BytePtr<'a>, n: usize) -> (r: &'a [u8])
    requires
        n <= p.tail().len(),
    ensures
        r@ == p.tail().take(n as int),
{
    unsafe { std::slice::from_raw_parts(p.p, n) }
}

