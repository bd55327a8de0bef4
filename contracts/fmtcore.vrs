// shared: format! (needs std.vrs)
verus! {
// ---- format!: the pieces appended one after another
pub trait VShow { spec fn show(&self) -> Seq<char>; }
/// the decimal form of an integer
pub uninterp spec fn dec(n: int) -> Seq<char>;
impl VShow for str { open spec fn show(&self) -> Seq<char> { self@ } }
impl VShow for String { open spec fn show(&self) -> Seq<char> { self@ } }
impl VShow for char { open spec fn show(&self) -> Seq<char> { seq![*self] } }
impl VShow for i8 { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VShow for i32 { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VShow for i64 { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VShow for u64 { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VShow for usize { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl<T: VShow + ?Sized> VShow for &T { open spec fn show(&self) -> Seq<char> { (**self).show() } }
#[verifier::external_body]
pub fn fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn fmt_put(a: String, c: char) -> (r: String) ensures r@ == a@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_arg<T: VShow + ?Sized>(a: String, x: &T) -> (r: String) ensures r@ == a@ + x.show() { unimplemented!() }
}
