//@ rename DateTime VDate
//@ include prelude.vrs
//@ include std.vrs
verus! {
broadcast use ax::axiom_string_ext;
/// s with every `c` replaced
pub open spec fn replaced(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { s } else if s[0] == c { t + replaced(s.skip(1), c, t) } else { seq![s[0]] + replaced(s.skip(1), c, t) } }
#[verifier::external_body]
pub fn str_replace(s: &String, c: char, t: &str) -> (r: String) ensures r@ == replaced(s@, c, t@) { unimplemented!() }
pub open spec fn lacks(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
proof fn lemma_replaced(a: Seq<char>, b: Seq<char>, c: char, t: Seq<char>)
    requires lacks(a, c), lacks(b, c),
    ensures replaced(a, c, t) == a, replaced(a.push(c) + b, c, t) == a + (t + b),
    decreases a.len(),
{
    let s = a.push(c) + b;
    if a.len() == 0 {
        assert(s.skip(1) =~= b); assert(a =~= seq![]);
        lemma_kept(b, c, t);
        assert(s[0] == c);
        assert(a + (t + b) =~= t + b);
    } else {
        assert(a[0] != c);
        assert(lacks(a.skip(1), c)) by { assert forall|i: int| 0 <= i < a.skip(1).len() implies #[trigger] a.skip(1)[i] != c by { assert(a[i + 1] != c); } }
        lemma_replaced(a.skip(1), b, c, t);
        assert(s.skip(1) =~= a.skip(1).push(c) + b);
        assert(seq![a[0]] + a.skip(1) =~= a);
        assert(seq![a[0]] + (a.skip(1) + (t + b)) =~= a + (t + b));
    }
}
proof fn lemma_kept(a: Seq<char>, c: char, t: Seq<char>)
    requires lacks(a, c),
    ensures replaced(a, c, t) == a,
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a[0] != c);
        assert(lacks(a.skip(1), c)) by { assert forall|i: int| 0 <= i < a.skip(1).len() implies #[trigger] a.skip(1)[i] != c by { assert(a[i + 1] != c); } }
        lemma_kept(a.skip(1), c, t);
        assert(seq![a[0]] + a.skip(1) =~= a);
    }
}
pub open spec fn no_marks(s: Seq<char>) -> bool { lacks(s, 'T') && lacks(s, 'Z') }
/// the date, a T, the time of day and a Z become the date, a space and the time of day
proof fn lemma_sql(d: Seq<char>, c: Seq<char>)
    requires no_marks(d), no_marks(c),
    ensures replaced(replaced((d.push('T') + c).push('Z'), 'T', " "@), 'Z', ""@) == d.push(' ') + c,
{
    reveal_strlit(" "); reveal_strlit("");
    let s = (d.push('T') + c).push('Z');
    assert(s =~= d.push('T') + c.push('Z'));
    lemma_replaced(d, c.push('Z'), 'T', " "@);
    let u = d.push(' ') + c;
    assert(d + (" "@ + c.push('Z')) =~= u.push('Z') + seq![]);
    lemma_replaced(u, seq![], 'Z', ""@);
    assert(u + (""@ + seq![]) =~= u);
}
proof fn lemma_digit(n: int) ensures digit(n) != 'T', digit(n) != 'Z' { let k = n % 10; assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7 || k == 8 || k == 9); }
proof fn lemma_clock(n: int)
    ensures no_marks(clock(n)),
{
    let s = clock(n);
    lemma_digit(n / 3600 / 10); lemma_digit(n / 3600); lemma_digit(n / 60 % 60 / 10); lemma_digit(n / 60 % 60); lemma_digit(n % 60 / 10); lemma_digit(n % 60);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 'T' && s[i] != 'Z' by {
        assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7);
    }
}
proof fn lemma_six(n: int)
    ensures no_marks(six(n)),
{ lemma_digit(n / 100000); lemma_digit(n / 10000); lemma_digit(n / 1000); lemma_digit(n / 100); lemma_digit(n / 10); lemma_digit(n); }
proof fn lemma_text(d: int, n: int)
    ensures replaced(replaced((day_text(d).push('T') + clock(n)).push('Z'), 'T', " "@), 'Z', ""@) == day_text(d).push(' ') + clock(n),
{ axiom_day(d); lemma_clock(n); lemma_sql(day_text(d), clock(n)); }
proof fn lemma_text_micros(d: int, n: int, u: int)
    ensures
        replaced(replaced((day_text(d).push('T') + (clock(n).push('.') + six(u))).push('Z'), 'T', " "@), 'Z', ""@)
            == day_text(d).push(' ') + (clock(n).push('.') + six(u)),
{ axiom_day(d); lemma_clock(n); lemma_six(u); lemma_sql(day_text(d), clock(n).push('.') + six(u)); }
// ---- chrono: instants and their RFC 3339 form
pub enum SecondsFormat { Secs, Millis, Micros, Nanos, AutoSi }
#[verifier::external_body]
pub struct VDate { x: u8 }
/// a day's text holds digits and signs only
pub broadcast axiom fn axiom_day(d: int) ensures no_marks(#[trigger] day_text(d));
impl VDate {
    /// microseconds after 1970
    pub uninterp spec fn us(&self) -> int;
    #[verifier::external_body]
    pub fn from_timestamp_millis(t: i64) -> (r: Option<VDate>) ensures r is Some ==> r->0.us() == t * 1000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_timestamp_micros(t: i64) -> (r: Option<VDate>) ensures r is Some ==> r->0.us() == t { unimplemented!() }
    #[verifier::external_body]
    pub fn to_rfc3339_opts(&self, f: SecondsFormat, z: bool) -> (r: String)
        ensures
            z ==> ({
                let day = day_text(self.us() / 86_400_000_000);
                let time = clock(self.us() / 1_000_000 % 86_400);
                &&& f is Secs ==> r@ == (day.push('T') + time).push('Z')
                &&& f is Micros ==> r@ == (day.push('T') + (time.push('.') + six(self.us() % 1_000_000))).push('Z')
            }),
    { unimplemented!() }
}
}
//@ include times.vrs
verus! {
/// different days have different texts
pub broadcast axiom fn axiom_days(a: int, b: int) ensures #[trigger] day_text(a) == #[trigger] day_text(b) ==> a == b;
proof fn lemma_digits(a: int, b: int)
    requires digit(a) == digit(b),
    ensures a % 10 == b % 10,
{
    let i = a % 10; let j = b % 10;
    assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9);
    assert(j == 0 || j == 1 || j == 2 || j == 3 || j == 4 || j == 5 || j == 6 || j == 7 || j == 8 || j == 9);
}
proof fn lemma_twos(a: int, b: int)
    requires 0 <= a < 100, 0 <= b < 100, digit(a / 10) == digit(b / 10), digit(a) == digit(b),
    ensures a == b,
{ lemma_digits(a / 10, b / 10); lemma_digits(a, b); }
proof fn lemma_hms(m: int, n: int)
    requires m / 3600 == n / 3600, m / 60 % 60 == n / 60 % 60, m % 60 == n % 60,
    ensures m == n,
{ assert(m / 3600 == m / 60 / 60); assert(n / 3600 == n / 60 / 60); assert(m / 60 == n / 60); }
proof fn lemma_day(t: int, u: int)
    requires t / 86_400_000 == u / 86_400_000, t / 1000 % 86_400 == u / 1000 % 86_400,
    ensures t / 1000 == u / 1000,
{ assert(t / 86_400_000 == t / 1000 / 86_400); assert(u / 86_400_000 == u / 1000 / 86_400); }
proof fn lemma_clocks(m: int, n: int)
    requires 0 <= m < 86_400, 0 <= n < 86_400, clock(m) == clock(n),
    ensures m == n,
{
    let (c, f) = (clock(m), clock(n));
    assert(c[0] == digit(m / 3600 / 10) && c[1] == digit(m / 3600) && c[3] == digit(m / 60 % 60 / 10) && c[4] == digit(m / 60 % 60) && c[6] == digit(m % 60 / 10) && c[7] == digit(m % 60));
    assert(f[0] == digit(n / 3600 / 10) && f[1] == digit(n / 3600) && f[3] == digit(n / 60 % 60 / 10) && f[4] == digit(n / 60 % 60) && f[6] == digit(n % 60 / 10) && f[7] == digit(n % 60));
    lemma_twos(m / 3600, n / 3600); lemma_twos(m / 60 % 60, n / 60 % 60); lemma_twos(m % 60, n % 60);
    lemma_hms(m, n);
}
/// the column of a timestamp tells its second
pub proof fn n17_seconds(t: i64, u: i64)
    requires sql_seconds(t) == sql_seconds(u),
    ensures t as int / 1000 == u as int / 1000,
{
    reveal(sql_seconds);
    let (a, b) = (sql_seconds(t), sql_seconds(u));
    let (d, e) = (day_text(t as int / 86_400_000), day_text(u as int / 86_400_000));
    let (m, n) = (t as int / 1000 % 86_400, u as int / 1000 % 86_400);
    let (c, f) = (clock(m), clock(n));
    assert(a.len() == d.len() + 9); assert(b.len() == e.len() + 9);
    assert(d =~= a.take(a.len() - 9)); assert(e =~= b.take(b.len() - 9));
    axiom_days(t as int / 86_400_000, u as int / 86_400_000);
    assert(c =~= a.skip(a.len() - 8)); assert(f =~= b.skip(b.len() - 8));
    assert(c == f);
    lemma_clocks(m, n);
    lemma_day(t as int, u as int);
}
}
fn main() {}
