// shared: the table of contents of a dump (needs std.vrs)
//@ rename String::from_utf8 string_from_utf8
verus! {
use vstd::string::*;
use vstd::utf8::*;
// ---- bytes
/// `p` stands in `t` at byte `j`
pub open spec fn sits(t: Seq<u8>, j: int, p: Seq<u8>) -> bool { 0 <= j && j + p.len() <= t.len() && t.subrange(j, j + p.len()) == p }
#[verifier::external_body]
pub fn bytes_at(t: &[u8], j: usize, p: &[u8]) -> (r: bool)
    requires j <= t@.len(),
    ensures r == sits(t@, j as int, p@),
{ t[j..].starts_with(p) }
#[verifier::external_body]
pub fn bytes_sub(t: &[u8], a: usize, b: usize) -> (r: Vec<u8>)
    requires a <= b <= t@.len(),
    ensures r@ == t@.subrange(a as int, b as int),
{ t[a..b].to_vec() }
pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == digit(*c);
#[verifier::external_body]
pub fn string_from_utf8(v: Vec<u8>) -> (r: Result<String, AnyErr>)
    ensures r.is_ok() == valid_utf8(v@), r.is_ok() ==> encode_utf8(r->Ok_0@) == v@,
{ unimplemented!() }
pub open spec fn copy_() -> Seq<u8> { seq![67, 79, 80, 89, 32] }
pub open spec fn from_() -> Seq<u8> { seq![32, 70, 82, 79, 77, 32, 115, 116, 100, 105, 110] }
pub open spec fn dat_() -> Seq<u8> { seq![46, 100, 97, 116] }
proof fn lemma_bytes()
    ensures "COPY ".spec_bytes() == copy_(), " FROM stdin".spec_bytes() == from_(), ".dat".spec_bytes() == dat_(),
{
    reveal_strlit("COPY "); reveal_strlit(" FROM stdin"); reveal_strlit(".dat");
    is_ascii_chars_encode_utf8("COPY "@); is_ascii_chars_encode_utf8(" FROM stdin"@); is_ascii_chars_encode_utf8(".dat"@);
    assert("COPY ".spec_bytes() =~= copy_()); assert(" FROM stdin".spec_bytes() =~= from_()); assert(".dat".spec_bytes() =~= dat_());
}
// ---- what the scan finds
/// the first place at or after `i` where `p` stands, the end when there is none
pub open spec fn first(t: Seq<u8>, p: Seq<u8>, i: int) -> int
    decreases t.len() - i
{ if i < 0 || i >= t.len() { t.len() as int } else if sits(t, i, p) { i } else { first(t, p, i + 1) } }
/// where the digits begin that end before `e`
pub open spec fn number_start(t: Seq<u8>, e: int) -> int
    decreases e
{ if 0 < e <= t.len() && digit(t[e - 1]) { number_start(t, e - 1) } else { e } }
/// the statements from `i` on, each with the file name that follows it
pub open spec fn entries(t: Seq<u8>, i: int) -> Seq<(Seq<u8>, Seq<u8>)>
    decreases t.len() + 5 - i
{
    let c = first(t, copy_(), i);
    let e = first(t, from_(), c + 5);
    let d = first(t, dat_(), e + 11);
    if d >= t.len() || d < i { seq![] } else { seq![(t.subrange(c + 5, e), t.subrange(number_start(t, d), d + 4))] + entries(t, d + 5) }
}
pub open spec fn texts(r: Seq<(String, String)>) -> Seq<(Seq<u8>, Seq<u8>)> { r.map_values(|p: (String, String)| (encode_utf8(p.0@), encode_utf8(p.1@))) }
pub open spec fn readable(s: Seq<(Seq<u8>, Seq<u8>)>) -> bool { forall|k: int| 0 <= k < s.len() ==> valid_utf8((#[trigger] s[k]).0) && valid_utf8(s[k].1) }
proof fn lemma_first(t: Seq<u8>, p: Seq<u8>, i: int)
    requires 0 <= i,
    ensures i <= first(t, p, i) || first(t, p, i) == t.len(), first(t, p, i) <= t.len(), first(t, p, i) < t.len() ==> sits(t, first(t, p, i), p) && i <= first(t, p, i),
    decreases t.len() - i
{ if i < t.len() && !sits(t, i, p) { lemma_first(t, p, i + 1); } }
proof fn lemma_number(t: Seq<u8>, e: int)
    requires 0 <= e <= t.len(),
    ensures 0 <= number_start(t, e) <= e,
    decreases e
{ if e > 0 && digit(t[e - 1]) { lemma_number(t, e - 1); } }
//@ fn src/osm/apidb_dump/read/reader.rs Reader::get_table_def_strings ret=r
    requires toc@.len() <= isize::MAX, readable(entries(toc@, 0)),
    ensures texts(r@) == entries(toc@, 0),
//@ start:
    let ghost t = toc@;
    let ghost all = entries(t, 0);
    proof { lemma_bytes(); }
//@ loop 0:
    invariant
        t == toc@, all == entries(t, 0), toc@.len() <= isize::MAX, readable(all), i <= t.len() + 32,
        copy@ == copy_(), from_stdin@ == from_(), dotdat@ == dat_(),
        texts(result@) + entries(t, i as int) =~= all,
    decreases t.len() + 32 - i,
//@ loopstart 0:
    let ghost at = i as int;
    let ghost had = result@;
    proof {
        lemma_first(t, copy_(), at);
        lemma_first(t, copy_(), at + 1);
        if !sits(t, at, copy_()) { assert(first(t, copy_(), at) == first(t, copy_(), at + 1)); lemma_skip(t, at); }
    }
//@ beforeloop 1:
    let ghost s = i as int;
    proof { lemma_first(t, from_(), s); }
//@ loop 1:
    invariant_except_break
        first(t, from_(), i as int) == first(t, from_(), s), s <= i <= t.len() + 5, start_table_def == s, result@ == had,
    invariant
        t == toc@, all == entries(t, 0), toc@.len() <= isize::MAX, readable(all), s == at + 5, 0 <= at < t.len(), sits(t, at, copy_()), first(t, copy_(), at) == at,
        copy@ == copy_(), from_stdin@ == from_(), dotdat@ == dat_(),
        texts(had) + entries(t, at) =~= all,
    ensures
        at < i <= t.len() + 20,
        texts(result@) + entries(t, i + 1) =~= all,
    decreases t.len() + 5 - i,
//@ beforeloop 2:
    let ghost q = i as int;
    let ghost e = q - 11;
    proof { lemma_first(t, dat_(), q); }
//@ loop 2:
    invariant_except_break
        first(t, dat_(), i as int) == first(t, dat_(), q), q <= i <= t.len() + 11, result@ == had,
    invariant
        t == toc@, all == entries(t, 0), toc@.len() <= isize::MAX, readable(all), s == at + 5, 0 <= at < t.len(), sits(t, at, copy_()), first(t, copy_(), at) == at,
        s <= e < t.len(), q == e + 11, sits(t, e, from_()), first(t, from_(), s) == e, start_table_def == s, end_table_def == e,
        copy@ == copy_(), from_stdin@ == from_(), dotdat@ == dat_(),
        texts(had) + entries(t, at) =~= all,
    ensures
        at < i <= t.len() + 15,
        texts(result@) + entries(t, i + 1) =~= all,
    decreases t.len() + 11 - i,
//@ beforeloop 3:
    let ghost d = i - 4;
    proof {
        assert(from_()[10] == 110u8);
        assert(t.subrange(e, e + 11)[10] == t[e + 10]);
        lemma_number(t, d);
    }
//@ loop 3:
    invariant
        t == toc@, q - 1 <= start_file_name < d, d + 4 <= t.len(), 11 <= q, !digit(t[q - 1]),
        number_start(t, start_file_name + 1) == number_start(t, d),
    decreases start_file_name,
//@ afterloop 3:
    proof {
        assert(start_file_name + 1 == number_start(t, d));
        let x = (t.subrange(s, e), t.subrange(number_start(t, d), d + 4));
        assert(entries(t, at) == seq![x] + entries(t, d + 5));
        let k = texts(had).len() as int;
        assert(all[k] == x);
        assert(texts(had).push(x) + entries(t, d + 5) =~= all);
    }
//@ end
proof fn lemma_skip(t: Seq<u8>, i: int)
    requires 0 <= i < t.len(), !sits(t, i, copy_()),
    ensures entries(t, i) == entries(t, i + 1),
{
    let c = first(t, copy_(), i);
    lemma_first(t, copy_(), i);
    lemma_first(t, copy_(), i + 1);
    let e = first(t, from_(), c + 5);
    lemma_first(t, from_(), c + 5);
    lemma_first(t, dat_(), e + 11);
    let d = first(t, dat_(), e + 11);
    assert(c == first(t, copy_(), i + 1) || c == t.len());
}
// ---- the property: every table gets the file that follows its statement
/// a statement of the table of contents: other bytes, COPY, the statement, FROM stdin, other bytes, a number, .dat
pub struct TocEntry { pub gap: Seq<u8>, pub def: Seq<u8>, pub mid: Seq<u8>, pub num: Seq<u8> }
/// `p` stands in `a + p` at its end only
pub open spec fn clean(a: Seq<u8>, p: Seq<u8>) -> bool { forall|k: int| 0 <= k < a.len() ==> !#[trigger] sits(a + p, k, p) }
pub open spec fn wf(e: TocEntry) -> bool {
    &&& e.gap.len() > 0 && clean(e.gap, copy_()) && clean(e.def, from_()) && clean(e.mid + e.num, dat_())
    &&& forall|k: int| 0 <= k < e.num.len() ==> digit(#[trigger] e.num[k])
    &&& e.mid.len() > 0 ==> !digit(e.mid.last())
}
pub open spec fn one(e: TocEntry) -> Seq<u8> { e.gap + (copy_() + (e.def + (from_() + ((e.mid + e.num) + dat_())))) }
pub open spec fn lay(es: Seq<TocEntry>, end: Seq<u8>) -> Seq<u8>
    decreases es.len()
{ if es.len() == 0 { end } else { one(es[0]) + lay(es.drop_first(), end) } }
pub open spec fn told(es: Seq<TocEntry>) -> Seq<(Seq<u8>, Seq<u8>)> { es.map_values(|e: TocEntry| (e.def, e.num + dat_())) }
proof fn lemma_found(t: Seq<u8>, p: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j < t.len(), sits(t, j, p), forall|k: int| i <= k < j ==> !#[trigger] sits(t, k, p),
    ensures first(t, p, i) == j,
    decreases j - i
{ if i < j { lemma_found(t, p, i + 1, j); } }
proof fn lemma_none(t: Seq<u8>, p: Seq<u8>, i: int)
    requires 0 <= i, forall|k: int| i <= k < t.len() ==> !#[trigger] sits(t, k, p),
    ensures first(t, p, i) == t.len(),
    decreases t.len() - i
{ if i < t.len() { lemma_none(t, p, i + 1); } }
/// `a + p` stands in `t` at `x`: searching from there, or from anywhere in `a`, finds `p` right after `a`
proof fn lemma_after(t: Seq<u8>, p: Seq<u8>, x: int, i: int, a: Seq<u8>)
    requires clean(a, p), p.len() > 0, sits(t, x, a + p), x <= i <= x + a.len(),
    ensures first(t, p, i) == x + a.len(), sits(t, x + a.len(), p),
{
    let w = a + p;
    assert forall|k: int| 0 <= k <= a.len() implies #[trigger] sits(t, x + k, p) == sits(w, k, p) by {
        assert(t.subrange(x + k, x + k + p.len()) =~= t.subrange(x, x + w.len()).subrange(k, k + p.len()));
    }
    assert(w.subrange(a.len() as int, (a.len() + p.len()) as int) =~= p);
    assert(sits(t, x + a.len(), p));
    assert forall|k: int| i <= k < x + a.len() implies !#[trigger] sits(t, k, p) by { assert(sits(t, x + (k - x), p) == sits(w, k - x, p)); }
    lemma_found(t, p, i, x + a.len());
}
proof fn lemma_digits(t: Seq<u8>, e: int, n: int)
    requires 0 <= n < e <= t.len(), forall|k: int| e - n <= k < e ==> digit(#[trigger] t[k]), !digit(t[e - n - 1]),
    ensures number_start(t, e) == e - n,
    decreases n
{ if n > 0 { lemma_digits(t, e - 1, n - 1); } }
proof fn lemma_part(t: Seq<u8>, x: int, a: Seq<u8>, b: Seq<u8>)
    requires sits(t, x, a + b),
    ensures sits(t, x, a), sits(t, x + a.len(), b),
{
    let w = t.subrange(x, x + (a + b).len());
    assert(t.subrange(x, x + a.len()) =~= w.subrange(0, a.len() as int)); assert(w.subrange(0, a.len() as int) =~= a);
    assert(t.subrange(x + a.len(), x + a.len() + b.len()) =~= w.subrange(a.len() as int, w.len() as int)); assert(w.subrange(a.len() as int, w.len() as int) =~= b);
}
/// from `i`, in or right before the first gap
proof fn lemma_toc(t: Seq<u8>, es: Seq<TocEntry>, end: Seq<u8>, x: int, i: int)
    requires
        0 <= x <= i <= x + 1, t.len() == x + lay(es, end).len(), sits(t, x, lay(es, end)),
        forall|k: int| 0 <= k < es.len() ==> wf(#[trigger] es[k]),
        forall|k: int| !#[trigger] sits(end, k, copy_()),
    ensures entries(t, i) =~= told(es),
    decreases es.len()
{
    if es.len() == 0 {
        assert forall|k: int| i <= k < t.len() implies !#[trigger] sits(t, k, copy_()) by {
            if sits(t, k, copy_()) {
                assert(end.subrange(k - x, k - x + 5) =~= t.subrange(k, k + 5)) by { assert(t.subrange(x, x + end.len()) == end); }
                assert(sits(end, k - x, copy_()));
            }
        }
        lemma_none(t, copy_(), i);
        lemma_first(t, from_(), t.len() as int + 5);
        lemma_first(t, dat_(), t.len() as int + 11);
    } else {
        let e = es[0];
        let more = lay(es.drop_first(), end);
        let g = (e.mid + e.num) + dat_();
        lemma_part(t, x, one(e), more);
        let h4 = from_() + g; let h3 = e.def + h4; let h2 = copy_() + h3;
        assert(one(e) == e.gap + h2);
        lemma_part(t, x, e.gap, h2);
        let c = x + e.gap.len();
        lemma_part(t, c, copy_(), h3);
        assert(one(e) =~= (e.gap + copy_()) + h3);
        lemma_part(t, x, e.gap + copy_(), h3);
        lemma_after(t, copy_(), x, i, e.gap);
        lemma_part(t, c + 5, e.def, h4);
        assert(h3 =~= (e.def + from_()) + g);
        lemma_part(t, c + 5, e.def + from_(), g);
        lemma_after(t, from_(), c + 5, c + 5, e.def);
        let f = c + 5 + e.def.len();
        lemma_part(t, f, from_(), g);
        lemma_after(t, dat_(), f + 11, f + 11, e.mid + e.num);
        let d = f + 11 + (e.mid + e.num).len();
        lemma_part(t, f + 11, e.mid + e.num, dat_());
        lemma_part(t, f + 11, e.mid, e.num);
        assert forall|k: int| d - e.num.len() <= k < d implies digit(#[trigger] t[k]) by {
            assert(t.subrange(f + 11 + e.mid.len(), d)[k - (d - e.num.len())] == t[k]);
        }
        if e.mid.len() > 0 { assert(t.subrange(f + 11, f + 11 + e.mid.len())[e.mid.len() - 1] == t[d - e.num.len() - 1]); }
        else { assert(t.subrange(f, f + 11)[10] == t[f + 10]); assert(from_()[10] == 110u8); }
        lemma_digits(t, d, e.num.len() as int);
        assert(t.subrange(d - e.num.len(), d + 4) =~= e.num + dat_()) by {
            assert(t.subrange(f + 11 + e.mid.len(), d) == e.num); assert(t.subrange(d, d + 4) == dat_());
            assert(t.subrange(d - e.num.len(), d + 4) =~= t.subrange(d - e.num.len(), d) + t.subrange(d, d + 4));
        }
        assert(d + 4 == x + one(e).len());
        lemma_toc(t, es.drop_first(), end, d + 4, d + 5);
        assert(told(es) =~= seq![(e.def, e.num + dat_())] + told(es.drop_first()));
    }
}
/// every table of contents made of such statements is read as exactly these, in order
pub proof fn n22_toc(es: Seq<TocEntry>, end: Seq<u8>)
    requires forall|k: int| 0 <= k < es.len() ==> wf(#[trigger] es[k]), forall|k: int| !#[trigger] sits(end, k, copy_()),
    ensures entries(lay(es, end), 0) =~= told(es),
{ let t = lay(es, end); assert(t.subrange(0, t.len() as int) =~= t); lemma_toc(t, es, end, 0, 0); }
}
