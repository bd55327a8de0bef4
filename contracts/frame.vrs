verus! {
/// header length, header, body
pub open spec fn frame(h: Seq<u8>, b: Seq<u8>) -> Seq<u8> { be4(h.len() as i32) + h + b }
}
