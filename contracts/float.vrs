verus! {
pub mod fax {
use vstd::prelude::*;
/// not a NaN
pub uninterp spec fn num(x: f64) -> bool;
/// an order embedding of the non-NaN f64 values in the reals (the numeric value for finite ones)
pub uninterp spec fn fv(x: f64) -> real;
/// `<` and friends on non-NaN f64 values are the order of their values (IEEE 754)
pub broadcast axiom fn axiom_lt(a: f64, b: f64, r: bool)
    ensures num(a) && num(b) && #[trigger] vstd::std_specs::cmp::lt_ensures(a, b, r) ==> r == (fv(a) < fv(b));
pub broadcast axiom fn axiom_gt(a: f64, b: f64, r: bool)
    ensures num(a) && num(b) && #[trigger] vstd::std_specs::cmp::gt_ensures(a, b, r) ==> r == (fv(a) > fv(b));
pub broadcast axiom fn axiom_le(a: f64, b: f64, r: bool)
    ensures num(a) && num(b) && #[trigger] vstd::std_specs::cmp::le_ensures(a, b, r) ==> r == (fv(a) <= fv(b));
pub broadcast axiom fn axiom_ge(a: f64, b: f64, r: bool)
    ensures num(a) && num(b) && #[trigger] vstd::std_specs::cmp::ge_ensures(a, b, r) ==> r == (fv(a) >= fv(b));
pub broadcast group group_float { axiom_lt, axiom_gt, axiom_le, axiom_ge }
}
use fax::*;
}
