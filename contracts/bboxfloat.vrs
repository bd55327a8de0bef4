verus! {
/// the comparison axioms at struct fields (the verifier does not know that a field of type f64 is an f64 value)
pub mod bax {
use vstd::prelude::*;
use super::*;
pub broadcast proof fn l_lt_cb_left(c: f64, q: BoundingBox, r: bool)
    ensures num(c) && num(q.left) && #[trigger] vstd::std_specs::cmp::lt_ensures(c, q.left, r) ==> r == (fv(c) < fv(q.left)),
{ fax::axiom_lt(c, q.left, r); }
pub broadcast proof fn l_lt_bc_left(p: BoundingBox, d: f64, r: bool)
    ensures num(p.left) && num(d) && #[trigger] vstd::std_specs::cmp::lt_ensures(p.left, d, r) ==> r == (fv(p.left) < fv(d)),
{ fax::axiom_lt(p.left, d, r); }
pub broadcast proof fn l_lt_bb_left(p: BoundingBox, q: BoundingBox, r: bool)
    ensures num(p.left) && num(q.left) && #[trigger] vstd::std_specs::cmp::lt_ensures(p.left, q.left, r) ==> r == (fv(p.left) < fv(q.left)),
{ fax::axiom_lt(p.left, q.left, r); }
pub broadcast proof fn l_gt_cb_left(c: f64, q: BoundingBox, r: bool)
    ensures num(c) && num(q.left) && #[trigger] vstd::std_specs::cmp::gt_ensures(c, q.left, r) ==> r == (fv(c) > fv(q.left)),
{ fax::axiom_gt(c, q.left, r); }
pub broadcast proof fn l_gt_bc_left(p: BoundingBox, d: f64, r: bool)
    ensures num(p.left) && num(d) && #[trigger] vstd::std_specs::cmp::gt_ensures(p.left, d, r) ==> r == (fv(p.left) > fv(d)),
{ fax::axiom_gt(p.left, d, r); }
pub broadcast proof fn l_gt_bb_left(p: BoundingBox, q: BoundingBox, r: bool)
    ensures num(p.left) && num(q.left) && #[trigger] vstd::std_specs::cmp::gt_ensures(p.left, q.left, r) ==> r == (fv(p.left) > fv(q.left)),
{ fax::axiom_gt(p.left, q.left, r); }
pub broadcast proof fn l_lt_cb_right(c: f64, q: BoundingBox, r: bool)
    ensures num(c) && num(q.right) && #[trigger] vstd::std_specs::cmp::lt_ensures(c, q.right, r) ==> r == (fv(c) < fv(q.right)),
{ fax::axiom_lt(c, q.right, r); }
pub broadcast proof fn l_lt_bc_right(p: BoundingBox, d: f64, r: bool)
    ensures num(p.right) && num(d) && #[trigger] vstd::std_specs::cmp::lt_ensures(p.right, d, r) ==> r == (fv(p.right) < fv(d)),
{ fax::axiom_lt(p.right, d, r); }
pub broadcast proof fn l_lt_bb_right(p: BoundingBox, q: BoundingBox, r: bool)
    ensures num(p.right) && num(q.right) && #[trigger] vstd::std_specs::cmp::lt_ensures(p.right, q.right, r) ==> r == (fv(p.right) < fv(q.right)),
{ fax::axiom_lt(p.right, q.right, r); }
pub broadcast proof fn l_gt_cb_right(c: f64, q: BoundingBox, r: bool)
    ensures num(c) && num(q.right) && #[trigger] vstd::std_specs::cmp::gt_ensures(c, q.right, r) ==> r == (fv(c) > fv(q.right)),
{ fax::axiom_gt(c, q.right, r); }
pub broadcast proof fn l_gt_bc_right(p: BoundingBox, d: f64, r: bool)
    ensures num(p.right) && num(d) && #[trigger] vstd::std_specs::cmp::gt_ensures(p.right, d, r) ==> r == (fv(p.right) > fv(d)),
{ fax::axiom_gt(p.right, d, r); }
pub broadcast proof fn l_gt_bb_right(p: BoundingBox, q: BoundingBox, r: bool)
    ensures num(p.right) && num(q.right) && #[trigger] vstd::std_specs::cmp::gt_ensures(p.right, q.right, r) ==> r == (fv(p.right) > fv(q.right)),
{ fax::axiom_gt(p.right, q.right, r); }
pub broadcast proof fn l_lt_cb_top(c: f64, q: BoundingBox, r: bool)
    ensures num(c) && num(q.top) && #[trigger] vstd::std_specs::cmp::lt_ensures(c, q.top, r) ==> r == (fv(c) < fv(q.top)),
{ fax::axiom_lt(c, q.top, r); }
pub broadcast proof fn l_lt_bc_top(p: BoundingBox, d: f64, r: bool)
    ensures num(p.top) && num(d) && #[trigger] vstd::std_specs::cmp::lt_ensures(p.top, d, r) ==> r == (fv(p.top) < fv(d)),
{ fax::axiom_lt(p.top, d, r); }
pub broadcast proof fn l_lt_bb_top(p: BoundingBox, q: BoundingBox, r: bool)
    ensures num(p.top) && num(q.top) && #[trigger] vstd::std_specs::cmp::lt_ensures(p.top, q.top, r) ==> r == (fv(p.top) < fv(q.top)),
{ fax::axiom_lt(p.top, q.top, r); }
pub broadcast proof fn l_gt_cb_top(c: f64, q: BoundingBox, r: bool)
    ensures num(c) && num(q.top) && #[trigger] vstd::std_specs::cmp::gt_ensures(c, q.top, r) ==> r == (fv(c) > fv(q.top)),
{ fax::axiom_gt(c, q.top, r); }
pub broadcast proof fn l_gt_bc_top(p: BoundingBox, d: f64, r: bool)
    ensures num(p.top) && num(d) && #[trigger] vstd::std_specs::cmp::gt_ensures(p.top, d, r) ==> r == (fv(p.top) > fv(d)),
{ fax::axiom_gt(p.top, d, r); }
pub broadcast proof fn l_gt_bb_top(p: BoundingBox, q: BoundingBox, r: bool)
    ensures num(p.top) && num(q.top) && #[trigger] vstd::std_specs::cmp::gt_ensures(p.top, q.top, r) ==> r == (fv(p.top) > fv(q.top)),
{ fax::axiom_gt(p.top, q.top, r); }
pub broadcast proof fn l_lt_cb_bottom(c: f64, q: BoundingBox, r: bool)
    ensures num(c) && num(q.bottom) && #[trigger] vstd::std_specs::cmp::lt_ensures(c, q.bottom, r) ==> r == (fv(c) < fv(q.bottom)),
{ fax::axiom_lt(c, q.bottom, r); }
pub broadcast proof fn l_lt_bc_bottom(p: BoundingBox, d: f64, r: bool)
    ensures num(p.bottom) && num(d) && #[trigger] vstd::std_specs::cmp::lt_ensures(p.bottom, d, r) ==> r == (fv(p.bottom) < fv(d)),
{ fax::axiom_lt(p.bottom, d, r); }
pub broadcast proof fn l_lt_bb_bottom(p: BoundingBox, q: BoundingBox, r: bool)
    ensures num(p.bottom) && num(q.bottom) && #[trigger] vstd::std_specs::cmp::lt_ensures(p.bottom, q.bottom, r) ==> r == (fv(p.bottom) < fv(q.bottom)),
{ fax::axiom_lt(p.bottom, q.bottom, r); }
pub broadcast proof fn l_gt_cb_bottom(c: f64, q: BoundingBox, r: bool)
    ensures num(c) && num(q.bottom) && #[trigger] vstd::std_specs::cmp::gt_ensures(c, q.bottom, r) ==> r == (fv(c) > fv(q.bottom)),
{ fax::axiom_gt(c, q.bottom, r); }
pub broadcast proof fn l_gt_bc_bottom(p: BoundingBox, d: f64, r: bool)
    ensures num(p.bottom) && num(d) && #[trigger] vstd::std_specs::cmp::gt_ensures(p.bottom, d, r) ==> r == (fv(p.bottom) > fv(d)),
{ fax::axiom_gt(p.bottom, d, r); }
pub broadcast proof fn l_gt_bb_bottom(p: BoundingBox, q: BoundingBox, r: bool)
    ensures num(p.bottom) && num(q.bottom) && #[trigger] vstd::std_specs::cmp::gt_ensures(p.bottom, q.bottom, r) ==> r == (fv(p.bottom) > fv(q.bottom)),
{ fax::axiom_gt(p.bottom, q.bottom, r); }
pub broadcast group group_box { l_lt_cb_left, l_lt_bc_left, l_lt_bb_left, l_gt_cb_left, l_gt_bc_left, l_gt_bb_left, l_lt_cb_right, l_lt_bc_right, l_lt_bb_right, l_gt_cb_right, l_gt_bc_right, l_gt_bb_right, l_lt_cb_top, l_lt_bc_top, l_lt_bb_top, l_gt_cb_top, l_gt_bc_top, l_gt_bb_top, l_lt_cb_bottom, l_lt_bc_bottom, l_lt_bb_bottom, l_gt_cb_bottom, l_gt_bc_bottom, l_gt_bb_bottom }
}
}
