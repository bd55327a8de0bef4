verus! {
pub mod ieee {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::float::float_cast_spec;
/// finite, and its exact value
pub uninterp spec fn fin(x: f64) -> bool;
pub uninterp spec fn fv(x: f64) -> real;
/// the operations of IEEE 754 binary64 are functions of their operands
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub uninterp spec fn fround(a: f64) -> f64;
pub uninterp spec fn i2f(i: i64) -> f64;
pub uninterp spec fn f2i(a: f64) -> i64;
pub uninterp spec fn f2u(a: f64) -> u64;
/// the integer `round` yields for a finite number
pub uninterp spec fn rnd(a: f64) -> int;
pub open spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
/// a value no larger than `m`, computed with one rounding to nearest: half a unit in the last place, or an underflow
pub open spec fn near(r: f64, exact: real) -> bool {
    fin(r) && rabs(fv(r) - exact) <= rabs(exact) / 9007199254740992real + 1real / 1000000000000000000000000000000real
}
pub open spec fn small(exact: real) -> bool { rabs(exact) <= 1000000000000000000000000000000real }
pub broadcast axiom fn axiom_add(a: f64, b: f64, r: f64)
    ensures #[trigger] add_ensures(a, b, r) ==> r == fadd(a, b);
pub broadcast axiom fn axiom_sub(a: f64, b: f64, r: f64)
    ensures #[trigger] sub_ensures(a, b, r) ==> r == fsub(a, b);
pub broadcast axiom fn axiom_mul(a: f64, b: f64, r: f64)
    ensures #[trigger] mul_ensures(a, b, r) ==> r == fmul(a, b);
pub broadcast axiom fn axiom_div(a: f64, b: f64, r: f64)
    ensures #[trigger] div_ensures(a, b, r) ==> r == fdiv(a, b);
pub broadcast axiom fn axiom_add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn axiom_sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn axiom_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn axiom_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
/// the same for operands read from a field (the quantified form does not apply to them in the verifier's encoding)
pub axiom fn axiom_mul_at(a: f64, b: f64)
    ensures a.mul_req(b), forall|r: f64| #[trigger] mul_ensures(a, b, r) ==> r == fmul(a, b);
/// one rounding to nearest per operation
pub axiom fn axiom_fadd(a: f64, b: f64)
    ensures fin(a) && fin(b) && small(fv(a) + fv(b)) ==> near(fadd(a, b), fv(a) + fv(b));
pub axiom fn axiom_fsub(a: f64, b: f64)
    ensures fin(a) && fin(b) && small(fv(a) - fv(b)) ==> near(fsub(a, b), fv(a) - fv(b));
pub axiom fn axiom_fmul(a: f64, b: f64)
    ensures fin(a) && fin(b) && small(fv(a) * fv(b)) ==> near(fmul(a, b), fv(a) * fv(b));
pub axiom fn axiom_fdiv(a: f64, b: f64)
    ensures fin(a) && fin(b) && fv(b) != 0real && small(fv(a) / fv(b)) ==> near(fdiv(a, b), fv(a) / fv(b));
/// `x - 0.0` is `x`, and other operations whose exact result is representable
pub axiom fn axiom_fsub_zero(a: f64, b: f64)
    ensures fin(a) && fin(b) && fv(b) == 0real ==> fin(fsub(a, b)) && fv(fsub(a, b)) == fv(a);
/// `round` yields an integer at distance at most one half
pub axiom fn axiom_round(a: f64)
    ensures fin(a) ==> fin(fround(a)) && fv(fround(a)) == rnd(a) as real && rabs(fv(a) - rnd(a) as real) <= 0.5real;
/// integers of at most 53 bits are exact; a finite integer in range converts to that integer
pub broadcast axiom fn axiom_i64(i: i64, f: f64)
    ensures #[trigger] float_cast_spec(i, f) ==> f == i2f(i);
pub broadcast axiom fn axiom_i32(i: i32, f: f64)
    ensures #[trigger] float_cast_spec(i, f) ==> f == i2f(i as i64);
pub broadcast axiom fn axiom_to_i64(f: f64, i: i64)
    ensures #[trigger] float_cast_spec(f, i) ==> i == f2i(f);
pub broadcast axiom fn axiom_to_u64(f: f64, i: u64)
    ensures #[trigger] float_cast_spec(f, i) ==> i == f2u(f);
pub axiom fn axiom_f2u(f: f64, i: u64)
    ensures fin(f) && fv(f) == i as real ==> f2u(f) == i;
pub axiom fn axiom_i2f(i: i64)
    ensures -9007199254740992 <= i <= 9007199254740992 ==> fin(i2f(i)) && fv(i2f(i)) == i as real;
pub axiom fn axiom_f2i(f: f64, i: i64)
    ensures fin(f) && fv(f) == i as real ==> f2i(f) == i;
pub assume_specification [f64::round] (x: f64) -> (r: f64) ensures r == fround(x);
/// the decimal literals of the code
pub axiom fn axiom_literals()
    ensures fin(1E7f64) && fv(1E7f64) == 10000000real, fin(1E9f64) && fv(1E9f64) == 1000000000real, fin(1000000000f64) && fv(1000000000f64) == 1000000000real;
pub broadcast group group_ieee { axiom_add, axiom_sub, axiom_mul, axiom_div, axiom_add_req, axiom_sub_req, axiom_mul_req, axiom_div_req, axiom_i64, axiom_i32, axiom_to_i64, axiom_to_u64 }
}
use ieee::*;
}
