verus! {
use std::collections::HashMap;
use vstd::std_specs::hash::*;
use vstd::utf8::*;

pub assume_specification [std::string::String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);
/// the bytes of a text
pub open spec fn tb(s: String) -> Seq<u8> { encode_utf8(s@) }

proof fn lemma_empty_text()
    ensures ""@ == Seq::<char>::empty(), encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty(),
{ reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }

//@ type src/osm/pbf/generated/prost-osmpbf.rs StringTable
//@ type src/osm/pbf/string_table_builder.rs StringTableBuilder

impl Default for StringTable {
    #[verifier::external_body]
    fn default() -> (r: StringTable)
        ensures r.s@.len() == 0,
    { unimplemented!() }
}

impl StringTableBuilder {
    pub open spec fn table(self) -> Seq<Vec<u8>> { self.string_table->0.s@ }
    pub open spec fn len(self) -> nat { self.table().len() }
    /// N04: entry 0 is the empty string and belongs to no key; every index refers to its string;
    /// every other entry belongs to exactly one string.
    pub open spec fn wf(self) -> bool {
        &&& self.string_table.is_some()
        &&& 1 <= self.len() <= i32::MAX
        &&& self.table()[0]@ == Seq::<u8>::empty()
        &&& forall|k: String| #[trigger] self.index@.contains_key(k) ==> 1 <= self.index@[k] < self.len() && self.table()[self.index@[k] as int]@ == tb(k)
        &&& forall|k: String, l: String| #![trigger self.index@[k], self.index@[l]] self.index@.contains_key(k) && self.index@.contains_key(l) && self.index@[k] == self.index@[l] ==> k == l
        &&& forall|i: int| 1 <= i < self.len() ==> used(self.index@, #[trigger] self.table()[i], i)
    }
}
/// place `i` holds the bytes of the string it was given to
pub open spec fn used(index: Map<String, i32>, b: Vec<u8>, i: int) -> bool { exists|k: String| #[trigger] index.contains_key(k) && index[k] == i && b@ == tb(k) }
/// `i` is a place in table `t` that holds the bytes of `s`
pub open spec fn at(t: Seq<Vec<u8>>, i: int, s: String) -> bool {
    0 < i < t.len() && t[i]@ == tb(s)
}
pub open spec fn prefix(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == #[trigger] b[i]
}

//@ fn src/osm/pbf/string_table_builder.rs StringTableBuilder::new ret=r
    ensures r.wf(), r.len() == 1, r.index@ == Map::<String, i32>::empty(),
//@ start:
    proof { lemma_empty_text(); }
//@ end
//@ fn src/osm/pbf/string_table_builder.rs StringTableBuilder::add ret=r
    requires old(self).wf(), old(self).len() < i32::MAX,
    ensures final(self).wf(), at(final(self).table(), r as int, *s), prefix(old(self).table(), final(self).table()),
        final(self).len() <= old(self).len() + 1,
        final(self).index@ == old(self).index@.insert(*s, r),
//@ tail:
    proof {
        assert forall|i: int| 1 <= i < self.len() implies used(self.index@, #[trigger] self.table()[i], i) by {
            if i < old(self).len() {
                assert(used(old(self).index@, old(self).table()[i], i));
                let k = choose|k: String| #[trigger] old(self).index@.contains_key(k) && old(self).index@[k] == i && old(self).table()[i]@ == tb(k);
                assert(self.index@.contains_key(k) && self.index@[k] == i);
            } else { assert(self.index@.contains_key(*s) && self.index@[*s] == i); }
        }
    }
//@ end
//@ fn src/osm/pbf/string_table_builder.rs StringTableBuilder::build ret=r
    requires old(self).wf(),
    ensures r.s@ == old(self).table(), final(self).wf(), final(self).len() == 1, final(self).index@ == Map::<String, i32>::empty(),
//@ start:
    proof { lemma_empty_text(); }
//@ end
}
