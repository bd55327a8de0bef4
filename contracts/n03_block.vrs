//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include ieee.vrs
//@ include strtab.vrs
//@ include pbf.vrs
//@ include info_spec.vrs
//@ include dense_spec.vrs
//@ include ways_types.vrs
//@ include readdense_fns.vrs
//@ include readwr_fns.vrs
//@ include block_spec.vrs
//@ include block_fns.vrs
verus! {
broadcast use { ax::axiom_string_ext, ax::axiom_string_key, ax::axiom_str_key, ax::lemma_cloned_u8, group_hash_axioms, ieee::group_ieee };
}
fn main() {}
