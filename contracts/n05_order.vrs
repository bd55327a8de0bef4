//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include order.vrs
verus! {
// ---- the property, as lemmas over the contracts
pub open spec fn rev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal }
}
proof fn n05_reflexive(a: Element) ensures ord3(a, a) == Ordering::Equal { }
proof fn n05_antisymmetric(a: Element, b: Element) ensures ord3(b, a) == rev(ord3(a, b)) { }
proof fn n05_transitive(a: Element, b: Element, c: Element)
    requires ord3(a, b) != Ordering::Greater, ord3(b, c) != Ordering::Greater,
    ensures ord3(a, c) != Ordering::Greater,
        ord3(a, b) == Ordering::Less || ord3(b, c) == Ordering::Less ==> ord3(a, c) == Ordering::Less,
{ }
proof fn n05_kinds(n: Node, w: Way, r: Relation)
    ensures
        ord3(Element::Node { node: n }, Element::Way { way: w }) == Ordering::Less,
        ord3(Element::Way { way: w }, Element::Relation { relation: r }) == Ordering::Less,
        ord3(Element::Relation { relation: r }, Element::Sentinel) == Ordering::Less,
{ }
}
fn main() {}
