//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include strtab.vrs
//@ include pbf.vrs
//@ include info_spec.vrs
//@ include ways_types.vrs
//@ include ways_fns.vrs
//@ include rels_fns.vrs
//@ include readwr_fns.vrs
verus! {
broadcast use { ax::axiom_string_ext, ax::axiom_string_key, ax::axiom_str_key, ax::lemma_cloned_u8, group_hash_axioms };
}
fn main() {}
