//@ include prelude.vrs
//@ include std.vrs
//@ include esc.vrs
verus! {
broadcast use { ax::axiom_string_ext };
pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String) ensures r@.len() == 0;

/// N19: what is read back is what was written
proof fn lemma_roundtrip(s: Seq<char>)
    ensures un(esc(s)) == (s, false),
    decreases s.len(),
{
    if s.len() > 0 {
        let h = s.drop_last();
        let c = s.last();
        lemma_roundtrip(h);
        let a = esc(h);
        let e = esc1(c);
        assert(h.push(c) =~= s);
        if e.len() == 1 {
            assert((a + e).drop_last() =~= a);
        } else {
            assert((a + e).drop_last().drop_last() =~= a);
            assert((a + e).drop_last().last() == '\\');
            assert((a + e).drop_last().len() > 0);
            assert((a + e).last() == e[1]);
            assert(un((a + e).drop_last()) == (h, true));
        }
    } else {
        assert(esc(s) =~= seq![]);
        assert(s =~= seq![]);
    }
}
pub open spec fn is_plain(c: char) -> bool { c != '\t' && c != '\n' && c != '\r' }
/// the escaped text stays in its column and on its line
proof fn lemma_one_column(s: Seq<char>)
    ensures forall|i: int| 0 <= i < esc(s).len() ==> is_plain(#[trigger] esc(s)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_one_column(s.drop_last());
        let a = esc(s.drop_last());
        let e = esc1(s.last());
        assert forall|i: int| 0 <= i < esc(s).len() implies is_plain(#[trigger] esc(s)[i]) by {
            if i < a.len() { assert(esc(s)[i] == a[i]); } else { assert(esc(s)[i] == e[i - a.len()]); }
        }
    }
}
/// a backslash in the escaped text is followed by a backslash or a small letter of the format
proof fn lemma_no_marker(s: Seq<char>)
    ensures esc(s) != seq!['\\', 'N'], esc(s) != seq!['\\', '.'],
{
    lemma_roundtrip(s);
    let n = seq!['\\', 'N'];
    let d = seq!['\\', '.'];
    assert(n.drop_last() =~= seq!['\\'] && d.drop_last() =~= seq!['\\'] && seq!['\\'].drop_last() =~= Seq::<char>::empty());
    reveal_with_fuel(un, 4);
    // the only text that could be escaped to a marker is the one it reads as
    if esc(s) == n {
        assert(un(n).0 =~= seq!['N']);
        assert(seq!['N'].drop_last() =~= Seq::<char>::empty());
        reveal_with_fuel(esc, 3);
        assert(esc(seq!['N']) =~= seq!['N']);
        assert(false);
    }
    if esc(s) == d {
        assert(un(d).0 =~= seq!['.']);
        assert(seq!['.'].drop_last() =~= Seq::<char>::empty());
        reveal_with_fuel(esc, 3);
        assert(esc(seq!['.']) =~= seq!['.']);
        assert(false);
    }
}
/// the escaped text is empty only for the empty text, and two texts are never escaped alike
proof fn lemma_injective(a: Seq<char>, b: Seq<char>)
    requires esc(a) == esc(b),
    ensures a == b,
{ lemma_roundtrip(a); lemma_roundtrip(b); }

//@ fn src/osm/apidb_dump/sql.rs escape_sql_text ret=r
    ensures r@ == esc(s@),
//@ loop 0 it
        invariant it.seq() == s@, result@ == esc(s@.take(it.index@)),
//@ loopstart 0
        let ghost r0 = result@;
        proof {
        reveal_strlit("\\\\"); reveal_strlit("\\b"); reveal_strlit("\\f"); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t"); reveal_strlit("\\v");
        }
//@ loopend 0
        proof {
            assert(s@.take(it.index@ + 1).drop_last() =~= s@.take(it.index@));
            assert(s@.take(it.index@ + 1).last() == c);
            assert(result@ =~= r0 + esc1(c));
        }
//@ afterloop 0
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@ start:
    proof {
        assert(s@.take(0) =~= seq![]);
    }
//@ end
//@ fn src/osm/apidb_dump/sql.rs unescape_sql_text ret=r
    ensures r@ == un(s@).0,
//@ loop 0 it
        invariant it.seq() == s@, un(s@.take(it.index@)) == (result@, escaped),
//@ loopend 0
        proof {
            assert(s@.take(it.index@ + 1).drop_last() =~= s@.take(it.index@));
            assert(s@.take(it.index@ + 1).last() == c);
        }
//@ afterloop 0
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@ start:
    proof { assert(s@.take(0) =~= seq![]); }
//@ end
/// the two functions together
pub fn n19_client(s: &str) -> (r: String)
    ensures r@ == s@,
{
    proof { lemma_roundtrip(s@); lemma_one_column(s@); lemma_no_marker(s@); }
    let e = escape_sql_text(s);
    unescape_sql_text(e.as_str())
}
}
fn main() {}
