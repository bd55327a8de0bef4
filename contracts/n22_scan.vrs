//@ rename Error AnyErr
//@ include prelude.vrs
//@ include std.vrs
verus! { pub struct Reader { pub x: u8 } }
//@ include scan.vrs
fn main() {}
