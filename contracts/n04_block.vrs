//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include ieee.vrs
//@ include strtab.vrs
//@ include pbf.vrs
//@ include info_spec.vrs
//@ include dense_spec.vrs
//@ include ways_types.vrs
//@ include ways_fns.vrs trusted
//@ include rels_fns.vrs trusted
//@ include readwr_fns.vrs trusted
//@ include readdense_fns.vrs trusted
//@ include densew_fns.vrs trusted
//@ include dense_lemmas.vrs
//@ include grid.vrs
//@ include block_spec.vrs
//@ include block_fns.vrs trusted
//@ include block_write.vrs
//@ include block_round.vrs
verus! {
broadcast use { ax::axiom_string_ext, ax::axiom_string_key, ax::axiom_str_key, ax::lemma_cloned_u8, group_hash_axioms, ieee::group_ieee };
}
fn main() {}
