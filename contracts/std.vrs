verus! {
pub mod ax {
use vstd::prelude::*;
use vstd::std_specs::hash::*;
/// A `String` is its sequence of characters.
pub broadcast axiom fn axiom_string_ext(a: String, b: String)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
/// `String` and `str` hash and compare by content; std's hasher is deterministic.
pub broadcast axiom fn axiom_string_key()
    ensures #[trigger] obeys_key_model::<String>(), builds_valid_hashers::<std::hash::RandomState>();
pub broadcast axiom fn axiom_str_key<V>(m: Map<String, V>, k: &str)
    ensures #[trigger] contains_borrowed_key::<String, V, str>(m, k) <==> exists|s: String| #[trigger] m.contains_key(s) && s@ == k@;
pub broadcast axiom fn axiom_string_to_string(a: &String, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(a, r) <==> a@ == r@;
pub broadcast axiom fn axiom_str_to_string(a: &str, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<str>(a, r) <==> a@ == r@;
pub broadcast axiom fn axiom_string_eq(a: &String, b: &String)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_string_eq_ok()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
pub broadcast group group_string_eq { axiom_str_to_string, axiom_string_eq, axiom_string_eq_ok }
/// element by element clones
pub open spec fn seq_cloned<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned(a[i], #[trigger] b[i])
}
pub broadcast proof fn lemma_cloned_u8(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] seq_cloned(a, b) ==> a == b,
{ if seq_cloned(a, b) { assert(a =~= b); } }
/// a clone of a text is the same text
pub proof fn lemma_cloned_strings(a: Seq<String>, b: Seq<String>)
    ensures seq_cloned(a, b) ==> a == b,
{
    broadcast use axiom_string_ext;
    if seq_cloned(a, b) {
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(cloned(a[i], b[i])); assert(a[i]@ == b[i]@); }
        assert(a =~= b);
    }
}
}
// ---- assumed contracts of the standard library (the documented behaviour)
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures ax::seq_cloned(s@, r@);
pub assume_specification<T> [std::option::Option::<T>::replace] (o: &mut std::option::Option<T>, x: T) -> (r: std::option::Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T: std::default::Default> [std::mem::take] (x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x));
pub assume_specification<T> [std::mem::replace] (x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y;
}
