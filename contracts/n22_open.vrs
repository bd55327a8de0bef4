//@ rename Error AnyErr
//@ rename ParseError AnyErr
//@ rename NaiveDateTime VTime
//@ rename Field VField
//@ rename PathBuf::from rel_path
//@ rename PathBuf VPath
//@ rename File VFile
//@ rename BufReader VReader
//@ rename HashMap VMap
//@ rename fs::read read_bytes
//@ rename fs::create_dir_all make_dirs
//@ rename num_cpus::get vcpus
//@ rename Regex VRegex
//@ include prelude.vrs
//@ include std.vrs
//@ include esc.vrs
//@ include fmtcore.vrs
verus! {
broadcast use ax::group_string_eq;
}
//@ include tabledef.vrs trusted
//@ include tablekey.vrs trusted
//@ include records.vrs
//@ include rows.vrs trusted
//@ include vmap.vrs
//@ include scan.vrs trusted
verus! {
// ---- paths, files, the sort
/// a relative path of one name
pub uninterp spec fn named(s: Seq<char>) -> VPath;
pub uninterp spec fn contents(p: VPath) -> Seq<u8>;
#[verifier::external_body]
pub fn rel_path(s: String) -> (r: VPath) ensures r == named(s@) { unimplemented!() }
pub trait VText { spec fn text(&self) -> Seq<char>; }
impl VText for &str { open spec fn text(&self) -> Seq<char> { (*self)@ } }
impl VText for &String { open spec fn text(&self) -> Seq<char> { (*self)@ } }
impl VText for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl VPath {
    #[verifier::external_body]
    pub fn push(&mut self, p: VPath)
        ensures forall|s: Seq<char>| p == #[trigger] named(s) ==> *final(self) == below(*old(self), s),
    { unimplemented!() }
    /// what is on the disk is not modelled
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn join<S: VText>(&self, s: S) -> (r: VPath) ensures r == below(*self, s.text()) { unimplemented!() }
}
#[verifier::external_body]
pub fn read_bytes(p: &VPath) -> (r: Result<Vec<u8>, AnyErr>)
    ensures r.is_ok() ==> r->Ok_0@ == contents(*p) && r->Ok_0@.len() <= isize::MAX,
{ unimplemented!() }
#[verifier::external_body]
pub fn make_dirs(p: VPath) -> (r: Result<(), AnyErr>) { unimplemented!() }
#[verifier::external_body]
pub fn vcpus() -> (r: usize) { unimplemented!() }
/// names without separators are different files of a directory
pub broadcast axiom fn axiom_names(p: VPath, a: Seq<char>, b: Seq<char>)
    requires known(a), known(b), a != b,
    ensures #[trigger] sorted_in(p, a) != #[trigger] sorted_in(p, b);
/// text_file_sort: what is sorted into which file, by which columns, without which lines
pub struct Job { pub inputs: Seq<VPath>, pub output: VPath, pub key: Seq<VField>, pub skip_empty: bool, pub skip: Option<Seq<char>> }
#[verifier::external_body]
pub struct VWorld { x: u8 }
impl VWorld { pub uninterp spec fn sorted(&self) -> Seq<Job>; }
#[verifier::external_body]
pub struct Sort { x: u8 }
impl Sort {
    pub uninterp spec fn job(&self) -> Job;
    #[verifier::external_body]
    pub fn new(inputs: Vec<VPath>, output: VPath) -> (r: Sort)
        ensures r.job() == (Job { inputs: inputs@, output, key: seq![], skip_empty: false, skip: None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_tmp_dir(&mut self, p: VPath) ensures final(self).job() == old(self).job() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_intermediate_files(&mut self, n: usize) ensures final(self).job() == old(self).job() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_tasks(&mut self, n: usize) ensures final(self).job() == old(self).job() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_fields(&mut self, f: Vec<VField>) ensures final(self).job() == (Job { key: f@, ..old(self).job() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_ignore_empty(&mut self) ensures final(self).job() == (Job { skip_empty: true, ..old(self).job() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_ignore_lines(&mut self, r: VRegex) ensures final(self).job() == (Job { skip: Some(r.pattern()), ..old(self).job() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn sort(&self, w: &mut VWorld) -> (r: Result<(), AnyErr>)
        ensures r.is_ok() ==> final(w).sorted() == old(w).sorted().push(self.job()),
    { unimplemented!() }
}
// ---- the regular expressions used
/// a COPY statement: a name without spaces, columns in parentheses
pub open spec fn is_stmt(s: Seq<char>, name: Seq<char>, list: Seq<char>) -> bool {
    &&& s == ((name + seq![' ', '(']) + list) + seq![')']
    &&& name.len() > 0 && list.len() > 0
    &&& forall|i: int| 0 <= i < name.len() ==> #[trigger] name[i] != ' '
    &&& forall|i: int| 0 <= i < list.len() ==> #[trigger] list[i] != '\n'
}
#[verifier::external_body]
pub struct VRegex { x: u8 }
impl Clone for VRegex { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct VCaptures { x: u8 }
#[verifier::external_body]
pub struct VMatch<'a> { x: &'a u8 }
impl VRegex {
    pub uninterp spec fn pattern(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<VRegex, AnyErr>)
        ensures r.is_ok() ==> r->Ok_0.pattern() == p@, p@ == "^([^ ]+) \\((.+)\\)$"@ || p@ == "^\\\\\\.$"@ ==> r.is_ok(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<VCaptures>)
        ensures self.pattern() == "^([^ ]+) \\((.+)\\)$"@ ==> match r {
            Some(c) => c.group(1) is Some && c.group(2) is Some && is_stmt(s@, c.group(1)->0, c.group(2)->0),
            None => forall|n: Seq<char>, l: Seq<char>| !#[trigger] is_stmt(s@, n, l),
        },
    { unimplemented!() }
}
impl VCaptures {
    pub uninterp spec fn group(&self, n: int) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn get<'a>(&'a self, n: usize) -> (r: Option<VMatch<'a>>)
        ensures r is Some == self.group(n as int) is Some, r is Some ==> r->0.text() == self.group(n as int)->0,
    { unimplemented!() }
}
impl<'a> VMatch<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.text() { unimplemented!() }
}
// ---- going through a map
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct VMapIter<'a, V> { v: &'a V }
impl<V> VMap<String, V> {
    #[verifier::external_body]
    pub fn into_iter<'a>(&'a self) -> (r: VMapIter<'a, V>)
        ensures r.map() == self@, r.at() == 0, r.order().no_duplicates(), forall|k: Seq<char>| #[trigger] self@.contains_key(k) <==> r.order().contains(k),
    { unimplemented!() }
}
impl<'a, V> VMapIter<'a, V> {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
    pub uninterp spec fn order(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a String, &'a V)>)
        ensures
            final(self).map() == old(self).map(), final(self).order() == old(self).order(),
            match r {
                None => old(self).at() >= old(self).order().len() && final(self).at() == old(self).at(),
                Some((k, v)) => 0 <= old(self).at() < old(self).order().len() && final(self).at() == old(self).at() + 1 && k@ == old(self).order()[old(self).at()] && *v == old(self).map()[k@],
            },
    { unimplemented!() }
}
//@ fn src/osm/apidb_dump/read/table_def.rs TableDef::build_sorted_path ret=r as=build_sorted_path_
    ensures r == sorted_in(path, name@),
//@ start:
    proof {
        reveal_strlit("sorted-"); reveal_strlit(".dat");
        let f = Seq::<char>::empty().push('s').push('o').push('r').push('t').push('e').push('d').push('-');
        assert(f =~= "sorted-"@);
        assert((f + name@).push('.').push('d').push('a').push('t') =~= ("sorted-"@ + name@) + ".dat"@);
    }
//@ end
//@ fn src/osm/apidb_dump/read/table_def.rs TableDef::tmp_path ret=r
    ensures r == self.tmp_path,
//@ end
//@ fn src/osm/apidb_dump/read/table_def.rs TableDef::fields ret=r
    ensures r == self.fields,
//@ end
impl Clone for TablePkey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ fn src/osm/apidb_dump/read/table_def.rs TableDef::pkey ret=r
    ensures r == self.pkey,
//@ end
//@ type src/osm/apidb_dump/read/reader.rs Reader
/// the table's rows, ordered by its key, without the terminator and blank lines
pub open spec fn job_of(t: TableDef) -> Job { Job { inputs: seq![t.path], output: t.sorted_path, key: t.pkey.key@, skip_empty: true, skip: Some("^\\\\\\.$"@) } }
/// the job whose result a file holds
pub open spec fn last_job(s: Seq<Job>, p: VPath) -> Option<Job>
    decreases s.len()
{ if s.len() == 0 { None } else if s.last().output == p { Some(s.last()) } else { last_job(s.drop_last(), p) } }
pub open spec fn apart(t: Map<Seq<char>, TableDef>) -> bool {
    forall|a: Seq<char>, b: Seq<char>| #[trigger] t.contains_key(a) && #[trigger] t.contains_key(b) && a != b ==> t[a].sorted_path != t[b].sorted_path
}
//@ fn src/osm/apidb_dump/read/reader.rs Reader::sort_tables ret=r world=w:sort custominto=0
    requires apart(tables@),
    ensures r.is_ok() ==> forall|k: Seq<char>| #[trigger] tables@.contains_key(k) ==> last_job(final(w).sorted(), tables@[k].sorted_path) == Some(job_of(tables@[k])),
//@ loop 0:
    invariant
        apart(tables@), ignore_regex.pattern() == "^\\\\\\.$"@,
        iter_0.map() == tables@, 0 <= iter_0.at() <= iter_0.order().len(), iter_0.order().no_duplicates(),
        forall|k: Seq<char>| #[trigger] tables@.contains_key(k) <==> iter_0.order().contains(k),
        forall|j: int| 0 <= j < iter_0.at() ==> last_job(w.sorted(), tables@[#[trigger] iter_0.order()[j]].sorted_path) == Some(job_of(tables@[iter_0.order()[j]])),
    ensures
        forall|k: Seq<char>| #[trigger] tables@.contains_key(k) ==> last_job(w.sorted(), tables@[k].sorted_path) == Some(job_of(tables@[k])),
    decreases iter_0.order().len() - iter_0.at(),
//@ loopstart 0:
    let ghost had = w.sorted();
    let ghost now = iter_0.order()[iter_0.at()];
//@ loopend 0:
    proof {
        let t = tables@[now];
        assert(iter_0.order().contains(now));
        assert(tables@.contains_key(now));
        assert(w.sorted().drop_last() =~= had);
        assert(w.sorted().last().inputs =~= seq![t.path]);
        assert(w.sorted().last() == job_of(t));
        assert forall|j: int| 0 <= j < iter_0.at() implies last_job(w.sorted(), tables@[#[trigger] iter_0.order()[j]].sorted_path) == Some(job_of(tables@[iter_0.order()[j]])) by {
            assert(iter_0.order().contains(iter_0.order()[j]));
            assert(tables@.contains_key(iter_0.order()[j]));
            if j < iter_0.at() - 1 { assert(iter_0.order()[j] != now); }
        }
    }
//@ end
// ---- opening a dump
/// text to text (vstd states it for str)
pub broadcast axiom fn axiom_ref_to_string(x: &&str, r: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<&str>(x, r),
    ensures r@ == (**x)@;
/// the statements of the table of contents, each with its file name
pub open spec fn statements(toc: Seq<u8>) -> Seq<(Seq<char>, Seq<char>)> {
    entries(toc, 0).map_values(|e: (Seq<u8>, Seq<u8>)| (vstd::utf8::decode_utf8(e.0), vstd::utf8::decode_utf8(e.1)))
}
pub open spec fn of_table(s: Seq<char>, name: Seq<char>) -> bool { exists|l: Seq<char>| #[trigger] is_stmt(s, name, l) }
/// the last of the first n statements that is about the table, -1 when none is
pub open spec fn chosen(s: Seq<(Seq<char>, Seq<char>)>, n: int, name: Seq<char>) -> int
    decreases n
{ if n <= 0 { -1 } else if of_table(s[n - 1].0, name) { n - 1 } else { chosen(s, n - 1, name) } }
pub open spec fn seen(c: Seq<String>) -> Seq<Seq<char>> { c.map_values(|x: String| x@) }
/// the columns are those of the statement's list
pub open spec fn columns_are(t: TableDef, list: Seq<char>) -> bool { exists|c: Seq<String>| #[trigger] t.of(c) && seen(c) =~= splits(list, ", "@) }
/// the table is the one the statement and its file name describe
pub open spec fn described(t: TableDef, s: (Seq<char>, Seq<char>), input: VPath, tmp: VPath, name: Seq<char>) -> bool {
    &&& t.name@ == name && t.path == below(input, s.1) && t.tmp_path == tmp && t.sorted_path == sorted_in(tmp, name)
    &&& exists|l: Seq<char>| #[trigger] is_stmt(s.0, name, l) && columns_are(t, l)
}
pub open spec fn tables_of(t: Map<Seq<char>, TableDef>, s: Seq<(Seq<char>, Seq<char>)>, n: int, input: VPath, tmp: VPath) -> bool {
    forall|k: Seq<char>| (#[trigger] t.contains_key(k) <==> known(k) && chosen(s, n, k) >= 0) && (t.contains_key(k) ==> described(t[k], s[chosen(s, n, k)], input, tmp, k))
}
proof fn lemma_stmt(s: Seq<char>, a: Seq<char>, b: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires is_stmt(s, a, x), is_stmt(s, b, y),
    ensures a == b, x == y,
{
    assert(s[a.len() as int] == ' '); assert(s[b.len() as int] == ' ');
    if a.len() < b.len() { assert(b[a.len() as int] == s[a.len() as int]); }
    if b.len() < a.len() { assert(a[b.len() as int] == s[b.len() as int]); }
    assert(a =~= s.take(a.len() as int)); assert(b =~= s.take(b.len() as int));
    assert(x =~= s.subrange(a.len() as int + 2, s.len() - 1)); assert(y =~= s.subrange(b.len() as int + 2, s.len() - 1));
}
proof fn lemma_chosen(had: Map<Seq<char>, TableDef>, now: Map<Seq<char>, TableDef>, s: Seq<(Seq<char>, Seq<char>)>, n: int, input: VPath, tmp: VPath, a: Seq<char>, l: Seq<char>)
    requires
        tables_of(had, s, n, input, tmp), 0 <= n < s.len(), is_stmt(s[n].0, a, l), known(a), now == had.insert(a, now[a]),
        described(now[a], s[n], input, tmp, a),
    ensures tables_of(now, s, n + 1, input, tmp),
{
    assert(of_table(s[n].0, a));
    assert forall|k: Seq<char>| (#[trigger] now.contains_key(k) <==> known(k) && chosen(s, n + 1, k) >= 0) && (now.contains_key(k) ==> described(now[k], s[chosen(s, n + 1, k)], input, tmp, k)) by {
        assert(had.contains_key(k) <==> known(k) && chosen(s, n, k) >= 0);
        if k != a {
            if of_table(s[n].0, k) { let m = choose|m: Seq<char>| #[trigger] is_stmt(s[n].0, k, m); lemma_stmt(s[n].0, a, k, l, m); }
            assert(chosen(s, n + 1, k) == chosen(s, n, k));
        }
    }
}
proof fn lemma_passed(had: Map<Seq<char>, TableDef>, s: Seq<(Seq<char>, Seq<char>)>, n: int, input: VPath, tmp: VPath)
    requires tables_of(had, s, n, input, tmp), 0 <= n < s.len(), forall|k: Seq<char>| known(k) ==> !#[trigger] of_table(s[n].0, k),
    ensures tables_of(had, s, n + 1, input, tmp),
{
    assert forall|k: Seq<char>| (#[trigger] had.contains_key(k) <==> known(k) && chosen(s, n + 1, k) >= 0) && (had.contains_key(k) ==> described(had[k], s[chosen(s, n + 1, k)], input, tmp, k)) by {
        assert(known(k) ==> !of_table(s[n].0, k));
    }
}
pub open spec fn copied(v: Seq<String>, f: Seq<&str>, n: int) -> bool { forall|j: int| 0 <= j < n ==> (#[trigger] v[j])@ == f[j]@ }
//@ fn src/osm/apidb_dump/read/reader.rs Reader::new ret=r world=w:sort_tables map_collect
//@ attr:
#[verifier::rlimit(80)]
//@ spec:
    requires readable(entries(contents(below(input_path, "toc.dat"@)), 0)),
    ensures
        r.is_ok() ==> ({
            let s = statements(contents(below(input_path, "toc.dat"@)));
            let t = r->Ok_0.tables@;
            &&& tables_of(t, s, s.len() as int, input_path, tmp_path)
            &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> last_job(final(w).sorted(), t[k].sorted_path) == Some(job_of(t[k]))
        }),
//@ start:
    broadcast use axiom_ref_to_string;
    proof { reveal_strlit(", "); }
    let ghost s = statements(contents(below(input_path, "toc.dat"@)));
//@ beforeloop 0:
    proof {
        assert forall|j: int| 0 <= j < raw_table_defs@.len() implies (#[trigger] raw_table_defs@[j]).0@ == s[j].0 && raw_table_defs@[j].1@ == s[j].1 by {
            let e = texts(raw_table_defs@)[j];
            vstd::utf8::encode_utf8_decode_utf8(raw_table_defs@[j].0@);
            vstd::utf8::encode_utf8_decode_utf8(raw_table_defs@[j].1@);
        }
    }
//@ loop 0 it:
    invariant
        it.seq().len() == s.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] it.seq()[j]).0@ == s[j].0 && it.seq()[j].1@ == s[j].1,
        re.pattern() == "^([^ ]+) \\((.+)\\)$"@,
        tables_of(tables@, s, it.index@, input_path, tmp_path),
//@ loopstart 0:
    let ghost had = tables@;
    let ghost n = it.index@;
    proof { assert(it.seq()[n].0@ == s[n].0); }
//@ loop 1 of:
    invariant
        v__@.len() == of.index@, of.seq().len() == fields@.len(), forall|j: int| 0 <= j < fields@.len() ==> *(#[trigger] of.seq()[j]) == fields@[j],
        copied(v__@, fields@, of.index@),
//@ loopend 1:
    proof { broadcast use axiom_ref_to_string; assert(*of.seq()[of.index@] == fields@[of.index@]); assert(v__@.last()@ == fields@[of.index@]@); }
//@ afterloop 1:
    proof {
        let st = s[n];
        let (a, l) = choose|a: Seq<char>, l: Seq<char>| #[trigger] is_stmt(st.0, a, l);
        assert forall|b: Seq<char>, m: Seq<char>| #[trigger] is_stmt(st.0, b, m) implies b == a && m == l by { lemma_stmt(st.0, a, b, l, m); }
        reveal_strlit(", ");
        assert(fields@.len() == splits(l, ", "@).len());
        assert(seen(v__@) =~= splits(l, ", "@));
    }
//@ loopend 0:
    proof {
        let st = s[n];
        broadcast use ax::axiom_string_ext;
        if exists|a: Seq<char>, l: Seq<char>| #[trigger] is_stmt(st.0, a, l) {
            let (a, l) = choose|a: Seq<char>, l: Seq<char>| #[trigger] is_stmt(st.0, a, l);
            assert forall|b: Seq<char>, m: Seq<char>| #[trigger] is_stmt(st.0, b, m) implies b == a && m == l by { lemma_stmt(st.0, a, b, l, m); }
            if known(a) {
                assert(tables@ =~= had.insert(a, tables@[a]));
                assert(columns_are(tables@[a], l));
                lemma_chosen(had, tables@, s, n, input_path, tmp_path, a, l);
            } else { lemma_passed(had, s, n, input_path, tmp_path); }
        } else { lemma_passed(had, s, n, input_path, tmp_path); }
    }
//@ afterloop 0:
    proof { broadcast use axiom_names; }
//@ end
// ---- columns written one after another are the columns read back
pub open spec fn listed(c: Seq<Seq<char>>) -> Seq<char>
    decreases c.len()
{ if c.len() == 0 { seq![] } else if c.len() == 1 { c[0] } else { (c[0] + seq![',', ' ']) + listed(c.skip(1)) } }
pub open spec fn plain(c: Seq<char>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] != ',' }
proof fn lemma_stands(s: Seq<char>, p: Seq<char>, i: int, at: int)
    requires
        p == seq![',', ' '], 0 <= i <= at <= s.len(), forall|j: int| i <= j < at ==> #[trigger] s[j] != ',',
        at == s.len() || (at + 2 <= s.len() && s.subrange(at, at + 2) == p),
    ensures stands(s, p, i) == at,
    decreases at - i,
{
    if i < at {
        assert(s[i] != ',');
        if i + 2 <= s.len() { assert(s.subrange(i, i + 2)[0] == s[i]); assert(p[0] == ','); }
        lemma_stands(s, p, i + 1, at);
    }
}
pub proof fn n22_columns(c: Seq<Seq<char>>)
    requires c.len() > 0, forall|i: int| 0 <= i < c.len() ==> plain(#[trigger] c[i]),
    ensures splits(listed(c), ", "@) =~= c,
    decreases c.len(),
{
    reveal_strlit(", ");
    let p = seq![',', ' ']; assert(", "@ =~= p);
    let s = listed(c); let n = c[0].len() as int;
    assert(plain(c[0]));
    assert forall|j: int| 0 <= j < n implies #[trigger] s[j] != ',' by { assert(c[0][j] != ','); }
    if c.len() > 1 {
        assert(s.subrange(n, n + 2) =~= p);
        lemma_stands(s, p, 0, n);
        assert forall|i: int| 0 <= i < c.skip(1).len() implies plain(#[trigger] c.skip(1)[i]) by { assert(plain(c[i + 1])); }
        n22_columns(c.skip(1));
        assert(s.take(n) =~= c[0]); assert(s.skip(n + 2) =~= listed(c.skip(1)));
    } else { lemma_stands(s, p, 0, n); assert(c =~= seq![s]); }
}
}
fn main() {}
