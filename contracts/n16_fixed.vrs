//@ include prelude.vrs
//@ include std.vrs
//@ include ieee.vrs
verus! {
broadcast use { group_ieee };
//@ type src/osm/model/coordinate.rs Coordinate
//@ fn src/osm/model/coordinate.rs Coordinate::lat7 ret=r
    ensures r == x7(self.lat),
//@ start:
    proof { axiom_mul_at(self.lat, 1E7f64); }
//@ end
//@ fn src/osm/model/coordinate.rs Coordinate::lon7 ret=r
    ensures r == x7(self.lon),
//@ start:
    proof { axiom_mul_at(self.lon, 1E7f64); }
//@ end
pub open spec fn x7(x: f64) -> i64 { f2i(fround(fmul(x, 1E7f64))) }
/// N16: the nearest 1e-7 degree integer, up to the rounding of one multiplication
proof fn lemma_nearest(x: f64)
    requires fin(x), rabs(fv(x)) <= 1000real,
    ensures rabs(fv(x) * 10000000real - x7(x) as real) <= 0.5real + 0.00001real,
{
    axiom_literals();
    let p = fv(x) * 10000000real;
    assert(rabs(p) <= 10000000000real);
    axiom_fmul(x, 1E7f64);
    let m = fmul(x, 1E7f64);
    axiom_round(m);
    assert(rabs(fv(m) - p) <= 0.00001real);
    let k = rnd(m);
    assert(-20000000000real <= k as real <= 20000000000real);
    assert(-20000000000 <= k <= 20000000000);
    axiom_f2i(fround(m), k as i64);
}
/// a coordinate within rounding error of a grid point converts to that grid point
proof fn lemma_grid(x: f64, k: int)
    requires fin(x), rabs(fv(x)) <= 1000real, rabs(fv(x) * 10000000real - k as real) <= 0.0001real, -10000000000 <= k <= 10000000000,
    ensures x7(x) == k,
{
    lemma_nearest(x);
    let d = (k - x7(x)) as real;
    assert(rabs(d) <= 0.5002real);
}

// ---------------- tile numbers
/// the 16-bit value of a coordinate shifted to [0, span] and scaled to [0, 65535]
pub open spec fn scaled(c: f64, half: f64, span: f64) -> u64 { f2u(fround(fdiv(fmul(fadd(c, half), 65535.0f64), span))) }
pub axiom fn axiom_tile_literals()
    ensures fin(180.0f64) && fv(180.0f64) == 180real, fin(90.0f64) && fv(90.0f64) == 90real, fin(360.0f64) && fv(360.0f64) == 360real, fin(65535.0f64) && fv(65535.0f64) == 65535real;
/// the scaled coordinate is the nearest 16-bit number, for every position including both ends
proof fn lemma_scaled(c: f64, half: f64, span: f64, h: real)
    requires fin(c), fin(half), fin(span), fv(half) == h, fv(span) == h + h, h == 90real || h == 180real, 0real - h <= fv(c) <= h,
    ensures scaled(c, half, span) <= 65535,
        rabs(scaled(c, half, span) as real - (fv(c) + h) * 65535real / (h + h)) <= 0.5real + 0.00001real,
{
    axiom_tile_literals();
    let e = fv(c) + h;
    assert(0real <= e <= 360real);
    axiom_fadd(c, half);
    let a = fadd(c, half);
    assert(rabs(fv(a) - e) <= 0.000000001real);
    let p = fv(a) * 65535real;
    assert(rabs(p) <= 30000000real);
    axiom_fmul(a, 65535.0f64);
    let m = fmul(a, 65535.0f64);
    assert(rabs(fv(m) - p) <= 0.00001real);
    let q = fv(m) / fv(span);
    assert(rabs(q) <= 1000000real) by (nonlinear_arith) requires q == fv(m) / fv(span), fv(span) == 180real || fv(span) == 360real, rabs(fv(m)) <= 40000000real;
    axiom_fdiv(m, span);
    let d = fdiv(m, span);
    assert(rabs(fv(d) - q) <= 0.000001real);
    let x = e * 65535real / (h + h);
    assert(rabs(q - x) <= 0.000001real) by (nonlinear_arith)
        requires q == fv(m) / fv(span), x == e * 65535real / (h + h), fv(span) == h + h, h == 90real || h == 180real, rabs(fv(m) - p) <= 0.00001real, p == fv(a) * 65535real, rabs(fv(a) - e) <= 0.000000001real;
    assert(0real <= x <= 65535real) by (nonlinear_arith) requires x == e * 65535real / (h + h), 0real <= e <= h + h, h == 90real || h == 180real;
    axiom_round(d);
    let k = rnd(d);
    assert(-0.51real <= k as real <= 65535.51real);
    assert(0 <= k <= 65535);
    axiom_f2u(fround(d), k as u64);
}
pub open spec fn bit(t: u64, n: int) -> u64 { (t >> (n as u64)) & 1 }
/// the low 16 bits of x in the odd places and those of y in the even places, nothing else
pub open spec fn interleaved(t: u64, x: u64, y: u64) -> bool {
    &&& t <= 0xffff_ffff
    &&& forall|j: int| 0 <= j < 16 ==> #[trigger] bit(t, 2 * j + 1) == bit(x, j)
    &&& forall|j: int| 0 <= j < 16 ==> #[trigger] bit(t, 2 * j) == bit(y, j)
}
pub open spec fn part(t: u64, x: u64, y: u64, k: int) -> bool {
    &&& t >> ((2 * k) as u64) == 0
    &&& forall|j: int| 0 <= j < k ==> #[trigger] bit(t, 2 * j + 1) == bit(x, 16 - k + j)
    &&& forall|j: int| 0 <= j < k ==> #[trigger] bit(t, 2 * j) == bit(y, 16 - k + j)
}
proof fn lemma_step(t: u64, x: u64, y: u64, k: int, i: u64, u: u64)
    requires part(t, x, y, k), 0 <= k < 16, i == 15 - k, u == ((((t << 1) | ((x >> i) & 1)) << 1) | ((y >> i) & 1)),
    ensures part(u, x, y, k + 1),
{
    let k2 = (2 * k) as u64;
    assert(u >> ((k2 + 2) as u64) == 0 && (u >> 1) & 1 == (x >> i) & 1 && (u >> 0) & 1 == (y >> i) & 1) by (bit_vector)
        requires t >> k2 == 0, k2 <= 30, i <= 15, u == ((((t << 1) | ((x >> i) & 1)) << 1) | ((y >> i) & 1));
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] bit(u, 2 * j + 1) == bit(x, 16 - (k + 1) + j) by {
        if j > 0 {
            let a = (2 * j - 1) as u64;
            assert(bit(t, 2 * (j - 1) + 1) == bit(x, 16 - k + (j - 1)));
            assert((u >> ((a + 2) as u64)) & 1 == (t >> a) & 1) by (bit_vector)
                requires t >> k2 == 0, k2 <= 30, a < 40, i <= 15, u == ((((t << 1) | ((x >> i) & 1)) << 1) | ((y >> i) & 1));
        }
    }
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] bit(u, 2 * j) == bit(y, 16 - (k + 1) + j) by {
        if j > 0 {
            let a = (2 * j - 2) as u64;
            assert(bit(t, 2 * (j - 1)) == bit(y, 16 - k + (j - 1)));
            assert((u >> ((a + 2) as u64)) & 1 == (t >> a) & 1) by (bit_vector)
                requires t >> k2 == 0, k2 <= 30, a < 40, i <= 15, u == ((((t << 1) | ((x >> i) & 1)) << 1) | ((y >> i) & 1));
        }
    }
}
//@ fn src/osm/apidb_dump/sql.rs calculate_tile ret=r
    ensures interleaved(r, scaled(lon, 180.0f64, 360.0f64), scaled(lat, 90.0f64, 180.0f64)),
//@ loop 0 it
        invariant part(tile, x, y, it.index@),
//@ loopstart 0
        let ghost t0 = tile;
//@ loopend 0
        proof { lemma_step(t0, x, y, it.index@, (15 - it.index@) as u64, tile); }
//@ afterloop 0
    proof {
        assert(tile <= 0xffff_ffff) by (bit_vector) requires tile >> 32u64 == 0;
    }
//@ start:
    proof {
        assert(0u64 >> 0u64 == 0) by (bit_vector);
    }
//@ end
/// N16 for the tile of every position on the globe
proof fn lemma_tile(lat: f64, lon: f64)
    requires fin(lat), fin(lon), -90real <= fv(lat) <= 90real, -180real <= fv(lon) <= 180real,
    ensures scaled(lon, 180.0f64, 360.0f64) <= 65535, scaled(lat, 90.0f64, 180.0f64) <= 65535,
        rabs(scaled(lon, 180.0f64, 360.0f64) as real - (fv(lon) + 180real) * 65535real / 360real) <= 0.50001real,
        rabs(scaled(lat, 90.0f64, 180.0f64) as real - (fv(lat) + 90real) * 65535real / 180real) <= 0.50001real,
{
    axiom_tile_literals();
    lemma_scaled(lon, 180.0f64, 360.0f64, 180real);
    lemma_scaled(lat, 90.0f64, 180.0f64, 90real);
}
}
fn main() {}
