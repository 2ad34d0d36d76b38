// Entries of the debug list
pub open spec fn is_delim(c: u8) -> bool { c == 44 || c == 59 }
// only white space between the delimiter (or the start) before i and i
pub open spec fn lead(s: Seq<u8>, i: int) -> bool decreases i { if i <= 0 || i > s.len() { true } else if is_delim(s[i - 1]) { true } else if is_ws(s[i - 1]) { lead(s, i - 1) } else { false } }
pub open spec fn trail(s: Seq<u8>, i: int) -> bool decreases s.len() - i { if i < 0 || i >= s.len() { true } else if is_delim(s[i]) { true } else if is_ws(s[i]) { trail(s, i + 1) } else { false } }
pub open spec fn entry_at(s: Seq<u8>, item: Seq<u8>, p: int) -> bool { match_ci(s, item, p, true) && lead(s, p) && trail(s, p + item.len()) }
pub open spec fn list_has(s: Seq<u8>, item: Seq<u8>) -> bool { item.len() > 0 && exists|p: int| 0 <= p <= s.len() && #[trigger] entry_at(s, item, p) }
pub open spec fn plain_name(item: Seq<u8>) -> bool { forall|k: int| 0 <= k < item.len() ==> !is_delim(#[trigger] item[k]) && !is_ws(item[k]) }
pub open spec fn none_before(s: Seq<u8>, item: Seq<u8>, n: int) -> bool { forall|p: int| 0 <= p < n ==> !#[trigger] entry_at(s, item, p) }
pub proof fn lemma_search(s: Seq<u8>, p: Seq<u8>, pos: int)
    requires 0 <= pos <= s.len(), s.len() <= MAXLEN()
    ensures pos <= search(s, p, pos, true) <= s.len(), search(s, p, pos, true) < s.len() ==> match_ci(s, p, search(s, p, pos, true), true),
        forall|q: int| pos <= q < search(s, p, pos, true) ==> !#[trigger] match_ci(s, p, q, true)
    decreases s.len() - pos
{
    if pos + p.len() <= s.len() && !match_ci(s, p, pos, true) { lemma_search(s, p, pos + 1); }
}
// no entry begins before the next match
pub proof fn lemma_none_next(s: Seq<u8>, item: Seq<u8>, it: int, skip: int)
    requires 0 <= it <= s.len(), s.len() <= MAXLEN(), none_before(s, item, it), plain_name(item), 0 <= skip, it + skip <= s.len(), skip > 0 ==> item.len() > 0 && match_ci(s, item, it, true) && !entry_at(s, item, it) && skip <= item.len()
    ensures none_before(s, item, search(s, item, it + skip, true)), it + skip <= search(s, item, it + skip, true) <= s.len(),
        search(s, item, it + skip, true) < s.len() ==> match_ci(s, item, search(s, item, it + skip, true), true)
{
    lemma_search(s, item, it + skip);
    assert forall|p: int| it <= p < search(s, item, it + skip, true) implies !#[trigger] entry_at(s, item, p) by {
        if it < p < it + skip {
            let c = item[p - 1 - it];
            assert(s[it + (p - 1 - it)] == c || up(s[it + (p - 1 - it)]) == up(c));
            assert(!is_delim(c) && !is_ws(c));
        }
    }
}
pub open spec fn debug_name(file: Seq<u8>) -> Seq<u8> { let b = basename(file); let d = sfindc(b, 46u8, 0); if d >= b.len() { b } else { b.subrange(0, d) } }
pub open spec fn debug_on(env: Map<Seq<u8>, Seq<u8>>, file: Seq<u8>) -> bool {
    let e = optenv(env, seq![75u8, 56u8, 80u8, 83u8, 72u8, 95u8, 68u8, 69u8, 66u8, 85u8, 71u8]);
    e._exists && (list_has(e.base, debug_name(file)) || list_has(e.base, seq![97u8, 108u8, 108u8]))
}
