/// equal but for ASCII letter case
pub open spec fn lowc(c: char) -> int { if 'A' <= c && c <= 'Z' { c as int + 32 } else { c as int } }
pub open spec fn nocase(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lowc(#[trigger] a[i]) == lowc(b[i]) }
#[verifier::external_body]
pub fn verif_nocase(a: &str, b: &str) -> (r: bool) ensures r == nocase(a@, b@) { unimplemented!() }
pub open spec fn op_named(s: Seq<char>) -> Option<CompareOp> {
    if nocase(s, "lt"@) || nocase(s, "<"@) { Some(CompareOp::LT) } else if nocase(s, "gt"@) || nocase(s, ">"@) { Some(CompareOp::GT) } else if nocase(s, "le"@) || nocase(s, "<="@) { Some(CompareOp::LE) }
    else if nocase(s, "ge"@) || nocase(s, ">="@) { Some(CompareOp::GE) } else if nocase(s, "eq"@) || nocase(s, "=="@) { Some(CompareOp::EQ) } else if nocase(s, "ne"@) || nocase(s, "!="@) { Some(CompareOp::NE) } else { None }
}
/// what it takes to be one of the names: no text is two of them
pub proof fn lemma_names(s: Seq<char>) ensures
    nocase(s, "lt"@) ==> s.len() == 2 && lowc(s[0]) == 108 && lowc(s[1]) == 116,
    nocase(s, "gt"@) ==> s.len() == 2 && lowc(s[0]) == 103 && lowc(s[1]) == 116,
    nocase(s, "le"@) ==> s.len() == 2 && lowc(s[0]) == 108 && lowc(s[1]) == 101,
    nocase(s, "ge"@) ==> s.len() == 2 && lowc(s[0]) == 103 && lowc(s[1]) == 101,
    nocase(s, "eq"@) ==> s.len() == 2 && lowc(s[0]) == 101 && lowc(s[1]) == 113,
    nocase(s, "ne"@) ==> s.len() == 2 && lowc(s[0]) == 110 && lowc(s[1]) == 101,
    nocase(s, "<"@) ==> s.len() == 1 && lowc(s[0]) == 60,
    nocase(s, ">"@) ==> s.len() == 1 && lowc(s[0]) == 62,
    nocase(s, "<="@) ==> s.len() == 2 && lowc(s[0]) == 60 && lowc(s[1]) == 61,
    nocase(s, ">="@) ==> s.len() == 2 && lowc(s[0]) == 62 && lowc(s[1]) == 61,
    nocase(s, "=="@) ==> s.len() == 2 && lowc(s[0]) == 61 && lowc(s[1]) == 61,
    nocase(s, "!="@) ==> s.len() == 2 && lowc(s[0]) == 33 && lowc(s[1]) == 61,
{
    reveal_strlit("lt");
    reveal_strlit("gt");
    reveal_strlit("le");
    reveal_strlit("ge");
    reveal_strlit("eq");
    reveal_strlit("ne");
    reveal_strlit("<");
    reveal_strlit(">");
    reveal_strlit("<=");
    reveal_strlit(">=");
    reveal_strlit("==");
    reveal_strlit("!=");
}
