//@ include prelude.vrs
//@ include std.vrs
//@ include strtab.vrs
verus! {
broadcast use { ax::axiom_string_ext, ax::axiom_string_key, ax::axiom_str_key, ax::lemma_cloned_u8, group_hash_axioms };
}
fn main() {}
