verus! {
// ---- COPY text escaping, as PostgreSQL documents it
/// the escaped form of one character
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '\\' { seq!['\\', '\\'] }
    else if c == '\u{0008}' { seq!['\\', 'b'] }
    else if c == '\u{000C}' { seq!['\\', 'f'] }
    else if c == '\n' { seq!['\\', 'n'] }
    else if c == '\r' { seq!['\\', 'r'] }
    else if c == '\t' { seq!['\\', 't'] }
    else if c == '\u{000B}' { seq!['\\', 'v'] }
    else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc1(s.last()) } }
// ---- reading COPY text: a backslash takes the character after it
pub open spec fn un1(c: char) -> char {
    if c == 'b' { '\u{0008}' } else if c == 'f' { '\u{000C}' } else if c == 'n' { '\n' } else if c == 'r' { '\r' } else if c == 't' { '\t' } else if c == 'v' { '\u{000B}' } else { c }
}
/// the text read so far, and whether a backslash is pending
pub open spec fn un(s: Seq<char>) -> (Seq<char>, bool)
    decreases s.len(),
{
    if s.len() == 0 { (seq![], false) } else {
        let (t, e) = un(s.drop_last());
        let c = s.last();
        if e { (t.push(un1(c)), false) } else if c == '\\' { (t, true) } else { (t.push(c), false) }
    }
}
}
