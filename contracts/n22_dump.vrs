//@ rename Error AnyErr
//@ rename ParseError AnyErr
//@ rename NaiveDateTime VTime
//@ rename Field VField
//@ rename PathBuf VPath
//@ rename File VFile
//@ rename BufReader VReader
//@ rename i64::from_str i64_from_str
//@ rename i32::from_str i32_from_str
//@ rename i16::from_str i16_from_str
//@ rename f64::from_str f64_from_str
//@ rename Self::create_node RowFn::create_node
//@ rename Self::create_node_tag RowFn::create_node_tag
//@ rename Self::create_way RowFn::create_way
//@ rename Self::create_way_node RowFn::create_way_node
//@ rename Self::create_way_tag RowFn::create_way_tag
//@ rename Self::create_relation RowFn::create_relation
//@ rename Self::create_relation_member RowFn::create_relation_member
//@ rename Self::create_relation_tag RowFn::create_relation_tag
//@ rename Self::create_changeset RowFn::create_changeset
//@ rename Self::create_user RowFn::create_user
//@ include prelude.vrs
//@ include std.vrs
//@ include esc.vrs
verus! {
broadcast use ax::group_string_eq;
}
//@ include tabledef.vrs
//@ include tablekey.vrs
//@ include records.vrs
//@ include rows.vrs
fn main() {}
