// shared: positions of nodes written with granularity 100 and no offset (needs ieee, dense_spec, densew_fns)
verus! {
/// the value stored for a coordinate of at most 1000 degrees: the nearest multiple of 100 nanodegrees, up to the rounding of a multiplication and a division
proof fn lemma_fixed(x: f64)
    requires fin(x), rabs(fv(x)) <= 1000real,
    ensures rabs(fv(x) * 10000000real - fixed(x, 100, 0) as real) <= 0.5real + 0.00001real,
        -20000000000 <= fixed(x, 100, 0) <= 20000000000,
        grid_ok(x, 100, 0),
{
    axiom_literals();
    axiom_i2f(100i64);
    axiom_i2f(0i64);
    let p = fv(x) * 1000000000real;
    assert(rabs(p) <= 1000000000000real);
    axiom_fmul(x, 1E9f64);
    let m = fmul(x, 1E9f64);
    assert(rabs(fv(m) - p) <= 0.0002real);
    let q = fv(m) / 100real;
    assert(rabs(q) <= 20000000000real);
    axiom_fdiv(m, i2f(100i64));
    let d = fdiv(m, i2f(100i64));
    assert(fv(i2f(100i64)) == 100real);
    assert(fv(m) / fv(i2f(100i64)) == q);
    assert(rabs(fv(d) - q) <= 0.000005real);
    axiom_fsub_zero(d, i2f(0i64));
    let s = fsub(d, i2f(0i64));
    assert(fv(s) == fv(d));
    assert(q - p / 100real == (fv(m) - p) / 100real) by (nonlinear_arith) requires q == fv(m) / 100real;
    assert(p / 100real == fv(x) * 10000000real) by (nonlinear_arith) requires p == fv(x) * 1000000000real;
    assert(rabs(fv(s) - fv(x) * 10000000real) <= 0.00001real);
    axiom_round(s);
    let k = rnd(s);
    assert(-20000000000real <= k as real <= 20000000000real);
    assert(-20000000000 <= k <= 20000000000);
    axiom_f2i(fround(s), k as i64);
}
/// N01: a coordinate within rounding error of a multiple of 1e-7 degrees is stored as that multiple
proof fn lemma_fixed_grid(x: f64, k: int)
    requires fin(x), rabs(fv(x)) <= 1000real, rabs(fv(x) * 10000000real - k as real) <= 0.0001real,
    ensures fixed(x, 100, 0) == k,
{
    lemma_fixed(x);
    let d = (k - fixed(x, 100, 0)) as real;
    assert(rabs(d) <= 0.5002real);
}
/// N01: what is read back is that multiple, correctly rounded to a double
proof fn lemma_read_back(x: f64)
    requires fin(x), rabs(fv(x)) <= 1000real,
    ensures ({ let y = deg(nano(0, 100, fixed(x, 100, 0) as int));
        fin(y) && rabs(fv(y) * 10000000real - fixed(x, 100, 0) as real) <= 0.00001real && rabs(fv(y) * 10000000real - fv(x) * 10000000real) <= 0.5real + 0.00002real && rabs(fv(y)) <= 3000real }),
{
    lemma_fixed(x);
    axiom_literals();
    let k = fixed(x, 100, 0) as int;
    let c = nano(0, 100, k);
    assert(c == 100 * k);
    axiom_i2f(c as i64);
    let a = i2f(c as i64);
    assert(fv(a) == c as real);
    let e = fv(a) / 1000000000real;
    assert(rabs(e) <= 2001real);
    axiom_fdiv(a, 1000000000f64);
    let y = deg(c);
    assert(rabs(fv(y) - e) <= 0.000000000001real);
    assert(e * 10000000real == k as real) by (nonlinear_arith) requires e == fv(a) / 1000000000real, fv(a) == c as real, c == 100 * k;
    assert(rabs(fv(y) * 10000000real - k as real) <= 0.00001real) by (nonlinear_arith) requires e * 10000000real == k as real, rabs(fv(y) - e) <= 0.000000000001real;
}
/// N01: writing what was read back stores the same value again
proof fn lemma_stable(x: f64)
    requires fin(x), rabs(fv(x)) <= 900real,
    ensures ({ let y = deg(nano(0, 100, fixed(x, 100, 0) as int)); fixed(y, 100, 0) == fixed(x, 100, 0) }),
{
    lemma_read_back(x);
    let y = deg(nano(0, 100, fixed(x, 100, 0) as int));
    assert(rabs(fv(y)) <= 1000real);
    lemma_fixed_grid(y, fixed(x, 100, 0) as int);
}
}
