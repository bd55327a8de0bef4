//@ rename Cursor::new vcursor
//@ rename anyhow::Error AnyErr
//@ rename anyhow::Result AnyResult
//@ rename prost::alloc::vec::Vec Vec
//@ rename prost::alloc::string::String String
//@ rename core::option::Option Option
//@ rename std::cmp::Ordering Ordering
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;

// ---- errors: the message is dropped, only the fact that an error is returned matters
pub struct AnyErr { pub x: u8 }
#[verifier::external]
impl std::fmt::Debug for AnyErr { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub type AnyResult<T> = Result<T, AnyErr>;
pub fn verr() -> AnyErr { AnyErr { x: 0 } }
pub fn vctx<T, E>(r: Result<T, E>) -> (out: Result<T, AnyErr>)
    ensures
        out.is_ok() == r.is_ok(),
        r.is_ok() ==> out == Ok::<T, AnyErr>(r->Ok_0),
{
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(verr()),
    }
}
pub fn vctx_opt<T>(r: Option<T>) -> (out: Result<T, AnyErr>)
    ensures
        out.is_ok() == r.is_some(),
        r.is_some() ==> out == Ok::<T, AnyErr>(r->0),
{
    match r {
        Some(v) => Ok(v),
        None => Err(verr()),
    }
}
// a panic that must be unreachable
pub fn vpanic<T>() -> (r: T)
    requires false,
{
    vstd::pervasive::unreached()
}
pub fn vassert(b: bool)
    requires b,
{
}
// a panic that is allowed by the property (the call is refused by panicking)
#[verifier::external_body]
pub fn vdiverge<T>() -> (r: T)
    ensures false,
{
    panic!()
}
#[verifier::external_body]
pub fn vassert_diverge(b: bool)
    ensures b,
{
    assert!(b)
}
pub trait VUnwrap {
    type T;
    spec fn vok(&self) -> bool;
    spec fn vval(&self) -> Self::T;
    fn vunwrap(self) -> (r: Self::T)
        ensures self.vok(), r == self.vval();
}
impl<X> VUnwrap for Option<X> {
    type T = X;
    open spec fn vok(&self) -> bool { self.is_some() }
    open spec fn vval(&self) -> X { self->0 }
    fn vunwrap(self) -> X {
        match self { Some(x) => x, None => vdiverge() }
    }
}
impl<X, E> VUnwrap for Result<X, E> {
    type T = X;
    open spec fn vok(&self) -> bool { self.is_ok() }
    open spec fn vval(&self) -> X { self->Ok_0 }
    fn vunwrap(self) -> X {
        match self { Ok(x) => x, Err(_) => vdiverge() }
    }
}
pub fn vunwrap<U: VUnwrap>(u: U) -> (r: U::T)
    ensures u.vok(), r == u.vval(),
{
    u.vunwrap()
}
pub fn vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x,
{
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> v@[k] == x,
        decreases n - i,
    { v.push(x); i = i + 1; }
    v
}
// ---- protobuf decoding and encoding (prost): functions of the bytes and of the message
pub struct VCursor { pub data: Vec<u8> }
pub fn vcursor(data: Vec<u8>) -> (r: VCursor) ensures r.data == data { VCursor { data } }
}
