// Meaning of the configuration file
pub open spec fn is_hex(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 || 65 <= c <= 70 }
pub open spec fn hexval(c: u8) -> u8 { if 48 <= c <= 57 { (c - 48) as u8 } else if 97 <= c <= 102 { (c - 97 + 10) as u8 } else { (c - 65 + 10) as u8 } }
pub open spec fn skip_comment(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || at0(s, i) == 0 || at0(s, i) == 10 { i } else { skip_comment(s, i + 1) } }
pub open spec fn skip_ws(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || !is_ws(at0(s, i)) { i } else { skip_ws(s, i + 1) } }
pub open spec fn is_blank(c: u8) -> bool { c == 9 || c == 32 }
pub open spec fn skip_blank(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || !is_blank(at0(s, i)) { i } else { skip_blank(s, i + 1) } }

// result of reading one word / line: ok, text, offset behind it
pub ghost struct Wd { pub ok: bool, pub v: Seq<u8>, pub e: int }
pub open spec fn wfail() -> Wd { Wd { ok: false, v: Seq::empty(), e: 0 } }
// single quoted text from behind the opening quote
pub open spec fn sq(s: Seq<u8>, i: int, acc: Seq<u8>) -> Wd decreases s.len() - i {
    if i < 0 || i >= s.len() || s[i] == 0 { wfail() }
    else if s[i] == 39 { if at0(s, i + 1) == 39 { sq(s, i + 2, acc.push(39u8)) } else { Wd { ok: true, v: acc, e: i + 1 } } }
    else { sq(s, i + 1, acc.push(s[i])) }
}
pub open spec fn is_esc(c: u8) -> bool { c == 34 || c == 92 || c == 39 || c == 98 || c == 116 || c == 110 || c == 102 || c == 114 || c == 48 }
pub open spec fn esc_val(c: u8) -> u8 { if c == 98 { 8 } else if c == 116 { 9 } else if c == 110 { 10 } else if c == 102 { 12 } else if c == 114 { 13 } else if c == 48 { 0 } else { c } }
pub open spec fn hexbyte(a: u8, b: u8) -> u8 { (hexval(a) * 16 + hexval(b)) as u8 }
// double quoted text from behind the opening quote
pub open spec fn dq(s: Seq<u8>, i: int, acc: Seq<u8>) -> Wd decreases s.len() - i {
    if i < 0 || i >= s.len() || s[i] == 0 { wfail() }
    else if s[i] == 34 { if at0(s, i + 1) == 34 { dq(s, i + 2, acc.push(34u8)) } else { Wd { ok: true, v: acc, e: i + 1 } } }
    else if s[i] != 92 { dq(s, i + 1, acc.push(s[i])) }
    else if is_esc(at0(s, i + 1)) { dq(s, i + 2, acc.push(esc_val(at0(s, i + 1)))) }
    else if at0(s, i + 1) == 120 && is_hex(at0(s, i + 2)) && is_hex(at0(s, i + 3)) { dq(s, i + 4, acc.push(hexbyte(at0(s, i + 2), at0(s, i + 3)))) }
    else { wfail() }
}
pub open spec fn stops(c: u8, term: u8) -> bool { c == 0 || is_ws(c) || c == 35 || c == term }
// the characters from ss on are subject to variable substitution
pub open spec fn fin(env: Map<Seq<u8>, Seq<u8>>, val: Seq<u8>, ss: int) -> Seq<u8> { val.subrange(0, ss) + subst(env, Map::empty(), val.subrange(ss, val.len() as int)) }
pub open spec fn word(env: Map<Seq<u8>, Seq<u8>>, s: Seq<u8>, i: int, val: Seq<u8>, ss: int, term: u8) -> Wd decreases s.len() - i {
    if i < 0 || i >= s.len() || stops(s[i], term) { Wd { ok: true, v: fin(env, val, ss), e: i } }
    else if s[i] == 39 { let q = sq(s, i + 1, fin(env, val, ss)); if q.ok && i < q.e <= s.len() { word(env, s, q.e, q.v, q.v.len() as int, term) } else { wfail() } }
    else if s[i] == 34 { let q = dq(s, i + 1, val); if q.ok && i < q.e <= s.len() { word(env, s, q.e, q.v, ss, term) } else { wfail() } }
    else { word(env, s, i + 1, val.push(s[i]), ss, term) }
}
pub open spec fn wordat(env: Map<Seq<u8>, Seq<u8>>, s: Seq<u8>, i: int, term: u8) -> Wd { word(env, s, i, Seq::empty(), 0, term) }
// nothing but white space up to the end of the line
pub open spec fn blankline(s: Seq<u8>, i: int) -> Wd decreases s.len() - i {
    if i < 0 || i >= s.len() || s[i] == 0 || s[i] == 10 { Wd { ok: true, v: Seq::empty(), e: i } }
    else if is_ws(s[i]) { blankline(s, i + 1) } else { wfail() }
}
pub open spec fn lineend(s: Seq<u8>, i: int) -> Wd {
    let j = skip_blank(s, i);
    if at0(s, j) == 35 { Wd { ok: true, v: Seq::empty(), e: skip_comment(s, j + 1) } } else { blankline(s, j) }
}
// blanks around one equals sign
pub ghost struct Eq { pub found: bool, pub e: int }
pub open spec fn equals(s: Seq<u8>, i: int, found: bool) -> Eq decreases s.len() - i {
    if i < 0 || i >= s.len() { Eq { found, e: i } }
    else if is_blank(s[i]) { equals(s, i + 1, found) }
    else if s[i] == 61 && !found { equals(s, i + 1, true) }
    else { Eq { found, e: i } }
}
// the same, told by the blanks skipped
pub broadcast proof fn lemma_equals_skip(s: Seq<u8>, i: int, found: bool)
    requires 0 <= i <= s.len()
    ensures i <= skip_blank(s, i) <= s.len(),
        #[trigger] equals(s, i, found) == (if found || skip_blank(s, i) >= s.len() || s[skip_blank(s, i)] != 61 { Eq { found, e: skip_blank(s, i) } } else { Eq { found: true, e: skip_blank(s, skip_blank(s, i) + 1) } })
    decreases s.len() - i
{
    if i < s.len() {
        if is_blank(s[i]) { lemma_equals_skip(s, i + 1, found); }
        else if s[i] == 61 && !found { lemma_equals_skip(s, i + 1, true); }
    }
}
// words up to the end of the line or a comment
pub ghost struct Args { pub ok: bool, pub vs: Seq<Seq<u8>>, pub e: int }
pub open spec fn args(env: Map<Seq<u8>, Seq<u8>>, s: Seq<u8>, i: int, acc: Seq<Seq<u8>>) -> Args decreases s.len() - i {
    if i < 0 || i >= s.len() || stops(s[i], 0) { Args { ok: true, vs: acc, e: i } }
    else { let w = wordat(env, s, i, 0); if w.ok && i < skip_blank(s, w.e) <= s.len() { args(env, s, skip_blank(s, w.e), acc.push(w.v)) } else { Args { ok: false, vs: Seq::empty(), e: 0 } } }
}
pub ghost struct Kv { pub ok: bool, pub k: Seq<u8>, pub v: Seq<u8>, pub e: int }
pub open spec fn kv(env: Map<Seq<u8>, Seq<u8>>, s: Seq<u8>, i: int, v0: Seq<u8>) -> Kv {
    let k = wordat(env, s, i, 61);
    let q = equals(s, k.e, false);
    let v = wordat(env, s, q.e, 0);
    if !k.ok { Kv { ok: false, k: Seq::empty(), v: Seq::empty(), e: 0 } }
    else if !q.found { Kv { ok: true, k: k.v, v: v0, e: q.e } }
    else { Kv { ok: v.ok, k: k.v, v: v.v, e: v.e } }
}
pub open spec fn hosttag(env: Map<Seq<u8>, Seq<u8>>, s: Seq<u8>, i: int) -> Wd {
    let w = wordat(env, s, i, 93);
    let j = skip_blank(s, w.e);
    if !w.ok || w.v.len() == 0 || at0(s, j) != 93 { wfail() } else { Wd { ok: true, v: w.v, e: skip_blank(s, j + 1) } }
}
