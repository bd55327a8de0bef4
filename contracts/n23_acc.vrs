//@ rename HashMap VMap
//@ rename Uuid VUuid
//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include vmap.vrs
verus! {
/// uuid::Uuid
pub struct VUuid { pub x: u8 }
impl VUuid {
    #[verifier::external_body]
    pub fn new_v4() -> VUuid { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
//@ locals src/osm/pbf/thread_local_accumulator.rs Locals tl
    ensures r.ACCUMULATORS@ == Map::<Seq<char>, Vec<Element>>::empty(),
//@ end
//@ type src/osm/pbf/thread_local_accumulator.rs ThreadLocalAccumulator
/// what the accumulator called `id` holds on this thread
pub open spec fn held(tl: Locals, id: Seq<char>) -> Seq<Element> {
    if tl.ACCUMULATORS@.contains_key(id) { tl.ACCUMULATORS@[id]@ } else { Seq::<Element>::empty() }
}
/// only the accumulator called `id` changed
pub open spec fn apart(a: Locals, b: Locals, id: Seq<char>) -> bool {
    forall|k: Seq<char>| k != id ==> #[trigger] held(b, k) == held(a, k)
}
//@ fn src/osm/pbf/thread_local_accumulator.rs ThreadLocalAccumulator::new ret=r
    ensures r.capacity == capacity,
//@ end
//@ fn src/osm/pbf/thread_local_accumulator.rs ThreadLocalAccumulator::add
    ensures
        held(*final(tl), self.id@) == held(*old(tl), self.id@).push(element),
        apart(*old(tl), *final(tl), self.id@),
//@ end
//@ fn src/osm/pbf/thread_local_accumulator.rs ThreadLocalAccumulator::elements ret=r
    ensures
        r@ == held(*old(tl), self.id@),
        held(*final(tl), self.id@).len() == 0,
        apart(*old(tl), *final(tl), self.id@),
//@ end
//@ fn src/osm/pbf/thread_local_accumulator.rs ThreadLocalAccumulator::len ret=r
    ensures r == held(*old(tl), self.id@).len(), *final(tl) == *old(tl),
//@ end
// ---- the property: any history of two accumulators on one thread
pub enum Op { AddA(Element), AddB(Element), TakeA, TakeB }
pub struct Sim { pub a: Seq<Element>, pub b: Seq<Element>, pub got_a: Seq<Element>, pub got_b: Seq<Element> }
pub open spec fn sim(ops: Seq<Op>, n: int) -> Sim
    decreases n
{
    if n <= 0 { Sim { a: seq![], b: seq![], got_a: seq![], got_b: seq![] } } else {
        let s = sim(ops, n - 1);
        match ops[n - 1] {
            Op::AddA(e) => Sim { a: s.a.push(e), ..s },
            Op::AddB(e) => Sim { b: s.b.push(e), ..s },
            Op::TakeA => Sim { a: seq![], got_a: s.got_a + s.a, ..s },
            Op::TakeB => Sim { b: seq![], got_b: s.got_b + s.b, ..s },
        }
    }
}
pub open spec fn adds_a(ops: Seq<Op>, n: int) -> Seq<Element>
    decreases n
{ if n <= 0 { seq![] } else { match ops[n - 1] { Op::AddA(e) => adds_a(ops, n - 1).push(e), _ => adds_a(ops, n - 1) } } }
/// everything added is either returned already, in order, or still held
proof fn lemma_sim(ops: Seq<Op>, n: int)
    requires 0 <= n <= ops.len(),
    ensures sim(ops, n).got_a + sim(ops, n).a == adds_a(ops, n),
    decreases n,
{
    if n > 0 {
        lemma_sim(ops, n - 1);
        let s = sim(ops, n - 1);
        match ops[n - 1] {
            Op::AddA(e) => { assert(s.got_a + s.a.push(e) =~= (s.got_a + s.a).push(e)); }
            Op::AddB(e) => { }
            Op::TakeA => { assert((s.got_a + s.a) + Seq::<Element>::empty() =~= s.got_a + s.a); }
            Op::TakeB => { }
        }
    } else { assert(sim(ops, 0).got_a + sim(ops, 0).a =~= Seq::<Element>::empty()); }
}
pub exec fn n23_history(a: &ThreadLocalAccumulator, b: &ThreadLocalAccumulator, ops: Vec<Op>, tl: &mut Locals) -> (r: (Vec<Element>, Vec<Element>))
    requires a.id@ != b.id@, held(*old(tl), a.id@).len() == 0, held(*old(tl), b.id@).len() == 0,
    ensures
        r.0@ == sim(ops@, ops@.len() as int).got_a, r.1@ == sim(ops@, ops@.len() as int).got_b,
        held(*final(tl), a.id@) == sim(ops@, ops@.len() as int).a, held(*final(tl), b.id@) == sim(ops@, ops@.len() as int).b,
        forall|k: Seq<char>| k != a.id@ && k != b.id@ ==> #[trigger] held(*final(tl), k) == held(*old(tl), k),
{
    let mut x: Vec<Element> = Vec::new();
    let mut y: Vec<Element> = Vec::new();
    proof { assert(held(*tl, a.id@) =~= seq![]); assert(held(*tl, b.id@) =~= seq![]); }
    for op in it: ops
        invariant
            a.id@ != b.id@, it.seq() == ops@,
            x@ == sim(ops@, it.index@).got_a, y@ == sim(ops@, it.index@).got_b,
            held(*tl, a.id@) == sim(ops@, it.index@).a, held(*tl, b.id@) == sim(ops@, it.index@).b,
            forall|k: Seq<char>| k != a.id@ && k != b.id@ ==> #[trigger] held(*tl, k) == held(*old(tl), k),
    {
        let ghost m = *tl;
        proof { assert(ops@[it.index@] == op); }
        match op {
            Op::AddA(e) => { a.add(e, tl); }
            Op::AddB(e) => { b.add(e, tl); }
            Op::TakeA => { let mut v = a.elements(tl); x.append(&mut v); proof { assert(held(*tl, a.id@) =~= seq![]); } }
            Op::TakeB => { let mut v = b.elements(tl); y.append(&mut v); proof { assert(held(*tl, b.id@) =~= seq![]); } }
        }
    }
    (x, y)
}
}
fn main() {}
