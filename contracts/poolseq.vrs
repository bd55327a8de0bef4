verus! {
/// a thread pool, by the commands handed to it in order (command_executor runs each of them once)
#[verifier::external_body]
pub struct VPool { x: u8 }
impl VPool {
    pub uninterp spec fn set(&self) -> bool;
    pub uninterp spec fn sent(&self) -> Seq<VCmd>;
    #[verifier::external_body]
    pub fn none() -> (r: Self) ensures !r.set() { unimplemented!() }
    #[verifier::external_body]
    pub fn submit<C: Submit>(&mut self, c: C)
        requires old(self).set(),
        ensures final(self).set(), final(self).sent() == old(self).sent().push(c.cmd()),
    { unimplemented!() }
}
}
