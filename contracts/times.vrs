// shared: the text form of times (needs std.vrs)
verus! {
/// chrono's form of a day (days since 1970-01-01): digits and signs
pub uninterp spec fn day_text(day: int) -> Seq<char>;
pub open spec fn digit(n: int) -> char { seq!['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'][n % 10] }
pub open spec fn two(n: int) -> Seq<char> { seq![digit(n / 10), digit(n)] }
/// the second of a day as hours, minutes and seconds
pub open spec fn clock(s: int) -> Seq<char> { (two(s / 3600).push(':') + two(s / 60 % 60)).push(':') + two(s % 60) }
pub open spec fn six(n: int) -> Seq<char> { seq![digit(n / 100000), digit(n / 10000), digit(n / 1000), digit(n / 100), digit(n / 10), digit(n)] }
/// the time `t` milliseconds after 1970, to seconds
#[verifier::opaque]
pub open spec fn sql_seconds(t: i64) -> Seq<char> { day_text(t as int / 86_400_000).push(' ') + clock(t as int / 1000 % 86_400) }
/// the time `t` microseconds after 1970
#[verifier::opaque]
pub open spec fn sql_micros(t: i64) -> Seq<char> { day_text(t as int / 86_400_000_000).push(' ') + (clock(t as int / 1_000_000 % 86_400).push('.') + six(t as int % 1_000_000)) }
//@ fn src/osm/apidb_dump/sql.rs to_sql_time_millis ret=r diverge
    ensures r@ == sql_seconds(t),
//@ start:
    proof { reveal(sql_seconds); lemma_text(t as int / 86_400_000, t as int / 1000 % 86_400); }
//@ end
//@ fn src/osm/apidb_dump/sql.rs to_sql_time_micros ret=r diverge
    ensures r@ == sql_micros(t),
//@ start:
    proof { reveal(sql_micros); lemma_text_micros(t as int / 86_400_000_000, t as int / 1_000_000 % 86_400, t as int % 1_000_000); }
//@ end
}
