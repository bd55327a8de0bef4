// shared: the sort key of a dumped table (needs tabledef.vrs)
verus! {
/// stand-ins for text_file_sort's field definitions: a 1-based column and how it compares
#[derive(Clone, Copy)]
pub enum FieldType { String, Integer, Number }
#[derive(Clone, Copy)]
pub struct VField { pub index: usize, pub field_type: FieldType }
pub broadcast proof fn lemma_cloned_fields(a: Seq<VField>, b: Seq<VField>)
    ensures #[trigger] ax::seq_cloned(a, b) ==> a == b,
{ if ax::seq_cloned(a, b) { assert(a =~= b); } }
impl VField {
    pub fn new(index: usize, field_type: FieldType) -> (r: VField)
        ensures r.index == index, r.field_type == field_type,
    { VField { index, field_type } }
    pub fn with_str_name(self, name: &str) -> (r: VField)
        ensures r == self,
    { self }
}
//@ type src/osm/apidb_dump/read/table_pkey.rs TablePkey
//@ fn src/osm/apidb_dump/read/table_pkey.rs TablePkey::index ret=r
    requires fields@.len() < usize::MAX,
    ensures r.is_ok() ==> 1 <= r->Ok_0 && is_col(fields@, v@, r->Ok_0 - 1), r.is_err() <==> no_col(fields@, v@),
//@ loop 0:
    invariant_except_break
        pos_0 is None, forall|i: int| 0 <= i < at_0 ==> (#[trigger] fields@[i])@ != v@,
    invariant
        at_0 <= fields@.len(), fields@.len() < usize::MAX,
    ensures
        pos_0 is None ==> no_col(fields@, v@),
        pos_0 is Some ==> is_col(fields@, v@, pos_0->0 as int),
    decreases fields@.len() - at_0,
//@ end
/// the n-th sort column is the column `col`, compared as number or text
pub open spec fn sorts(k: Seq<VField>, n: int, c: Seq<String>, col: Seq<char>, number: bool) -> bool {
    0 <= n < k.len() && is_col(c, col, k[n].index - 1) && (if number { k[n].field_type is Integer } else { k[n].field_type is String })
}
/// parents are ordered by id and version, their rows by the same two columns first, then by sequence
pub open spec fn key_ok(name: Seq<char>, c: Seq<String>, k: Seq<VField>) -> bool {
    &&& name == "public.nodes"@ ==> k.len() == 2 && sorts(k, 0, c, "node_id"@, true) && sorts(k, 1, c, "version"@, true)
    &&& name == "public.node_tags"@ ==> sorts(k, 0, c, "node_id"@, true) && sorts(k, 1, c, "version"@, true)
    &&& name == "public.ways"@ ==> k.len() == 2 && sorts(k, 0, c, "way_id"@, true) && sorts(k, 1, c, "version"@, true)
    &&& name == "public.way_nodes"@ ==> sorts(k, 0, c, "way_id"@, true) && sorts(k, 1, c, "version"@, true) && sorts(k, 2, c, "sequence_id"@, true)
    &&& name == "public.way_tags"@ ==> sorts(k, 0, c, "way_id"@, true) && sorts(k, 1, c, "version"@, true)
    &&& name == "public.relations"@ ==> k.len() == 2 && sorts(k, 0, c, "relation_id"@, true) && sorts(k, 1, c, "version"@, true)
    &&& name == "public.relation_members"@ ==> sorts(k, 0, c, "relation_id"@, true) && sorts(k, 1, c, "version"@, true) && sorts(k, 2, c, "sequence_id"@, true)
    &&& name == "public.relation_tags"@ ==> sorts(k, 0, c, "relation_id"@, true) && sorts(k, 1, c, "version"@, true)
}
//@ fn src/osm/apidb_dump/read/table_pkey.rs TablePkey::new ret=r
    requires fields@.len() < usize::MAX,
    ensures
        r.is_ok() ==> known(name@) && key_ok(name@, fields@, r->Ok_0.key@),
        complete(name@, fields@) ==> r.is_ok(),
//@ start:
    proof { lemma_names(); }
//@ end
//@ fn src/osm/apidb_dump/read/table_pkey.rs TablePkey::key ret=r
    ensures r@ == self.key@,
//@ end
}
