// Environment variables and ${NAME} references
pub open spec fn optenv(env: Map<Seq<u8>, Seq<u8>>, name: Seq<u8>) -> OptionalString { OptionalString { base: env_get(env, cstr(name)).s, _exists: env_get(env, cstr(name)).nn } }
pub open spec fn lookup(env: Map<Seq<u8>, Seq<u8>>, ov: Map<Seq<u8>, OptionalString>, name: Seq<u8>) -> OptionalString {
    if ov.dom().contains(name) && ov[name]._exists { ov[name] } else { optenv(env, name) }
}
pub open spec fn is_name(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122 || c == 95 || c == 32 || c == 40 || c == 41 || c == 45 || c == 46 }
pub open spec fn name_end(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || !is_name(s[i]) { i } else { name_end(s, i + 1) } }
pub open spec fn dollar() -> Seq<u8> { seq![36u8, 123u8] }
pub open spec fn refval(env: Map<Seq<u8>, Seq<u8>>, ov: Map<Seq<u8>, OptionalString>, name: Seq<u8>, def: Seq<u8>) -> Seq<u8> { if lookup(env, ov, name)._exists { lookup(env, ov, name).base } else { def } }
pub open spec fn subst_at(env: Map<Seq<u8>, Seq<u8>>, ov: Map<Seq<u8>, OptionalString>, s: Seq<u8>, i: int) -> Seq<u8> decreases s.len() - i {
    let d = sfind(s, dollar(), i);
    if i < 0 || i > s.len() { Seq::empty() }
    else if d < i || d + 2 > s.len() { s.subrange(i, s.len() as int) }
    else {
        let j = name_end(s, d + 2);
        if j < d + 2 || j > s.len() { Seq::empty() }
        else if at0(s, j) == 125 { s.subrange(i, d) + refval(env, ov, s.subrange(d + 2, j), Seq::empty()) + subst_at(env, ov, s, j + 1) }
        else if at0(s, j) == 58 && at0(s, j + 1) == 45 {
            let e = sfindc(s, 125u8, j + 2);
            if e < j + 2 || e >= s.len() { s.subrange(i, s.len() as int) }
            else { s.subrange(i, d) + refval(env, ov, s.subrange(d + 2, j), s.subrange(j + 2, e)) + subst_at(env, ov, s, e + 1) }
        }
        else { s.subrange(i, j) + subst_at(env, ov, s, j) }
    }
}
pub open spec fn subst(env: Map<Seq<u8>, Seq<u8>>, ov: Map<Seq<u8>, OptionalString>, s: Seq<u8>) -> Seq<u8> { subst_at(env, ov, s, 0) }

pub broadcast proof fn lemma_sfind(s: Seq<u8>, p: Seq<u8>, pos: int)
    requires 0 <= pos
    ensures #[trigger] sfind(s, p, pos) == NPOS() || (pos <= sfind(s, p, pos) && match_at(s, p, sfind(s, p, pos)))
    decreases s.len() - pos
{ if pos + p.len() > s.len() {} else if match_at(s, p, pos) {} else { lemma_sfind(s, p, pos + 1); } }
pub broadcast proof fn lemma_sfindc(s: Seq<u8>, c: u8, pos: int)
    requires 0 <= pos
    ensures #[trigger] sfindc(s, c, pos) == NPOS() || (pos <= sfindc(s, c, pos) < s.len() && s[sfindc(s, c, pos)] == c)
    decreases s.len() - pos
{ if pos >= s.len() {} else if s[pos] == c {} else { lemma_sfindc(s, c, pos + 1); } }
pub broadcast proof fn lemma_name_end(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] name_end(s, i) <= s.len()
    decreases s.len() - i
{ if i >= s.len() || !is_name(s[i]) {} else { lemma_name_end(s, i + 1); } }
// one step of the substitution, with the text copied so far
pub proof fn lemma_subst_step(env: Map<Seq<u8>, Seq<u8>>, ov: Map<Seq<u8>, OptionalString>, s: Seq<u8>, r: Seq<u8>, at: int, i: int)
    requires 0 <= at <= i < s.len(), s.len() <= MAXLEN()
    ensures ({
        let base = r + s.subrange(at, i) + subst_at(env, ov, s, i);
        let d = sfind(s, dollar(), i);
        let j = name_end(s, d + 2);
        let e = sfindc(s, 125u8, j + 2);
        if d >= s.len() { base == r + s.subrange(at, s.len() as int) }
        else {
            &&& i <= d && d + 2 <= j <= s.len()
            &&& at0(s, j) == 125 ==> base == r + s.subrange(at, d) + refval(env, ov, s.subrange(d + 2, j), Seq::empty()) + subst_at(env, ov, s, j + 1)
            &&& at0(s, j) == 58 && at0(s, j + 1) == 45 && e >= s.len() ==> base == r + s.subrange(at, d) + s.subrange(d, s.len() as int)
            &&& at0(s, j) == 58 && at0(s, j + 1) == 45 && e < s.len() ==> j + 2 <= e && base == r + s.subrange(at, d) + refval(env, ov, s.subrange(d + 2, j), s.subrange(j + 2, e)) + subst_at(env, ov, s, e + 1)
            &&& at0(s, j) != 125 && !(at0(s, j) == 58 && at0(s, j + 1) == 45) ==> base == r + s.subrange(at, d) + s.subrange(d, j) + subst_at(env, ov, s, j)
        }
    })
{
    broadcast use {lemma_sfind, lemma_sfindc, lemma_name_end};
    let base = r + s.subrange(at, i) + subst_at(env, ov, s, i);
    let d = sfind(s, dollar(), i);
    let j = name_end(s, d + 2);
    let e = sfindc(s, 125u8, j + 2);
    if d >= s.len() { assert(base =~= r + s.subrange(at, s.len() as int)); }
    else {
        assert(s.subrange(at, i) + s.subrange(i, d) =~= s.subrange(at, d));
        if at0(s, j) == 125 {
            let v = refval(env, ov, s.subrange(d + 2, j), Seq::empty());
            assert(base =~= r + (s.subrange(at, i) + s.subrange(i, d)) + v + subst_at(env, ov, s, j + 1));
        } else if at0(s, j) == 58 && at0(s, j + 1) == 45 {
            if e >= s.len() { assert(base =~= r + s.subrange(at, d) + s.subrange(d, s.len() as int)); }
            else {
                let v = refval(env, ov, s.subrange(d + 2, j), s.subrange(j + 2, e));
                assert(base =~= r + (s.subrange(at, i) + s.subrange(i, d)) + v + subst_at(env, ov, s, e + 1));
            }
        } else {
            assert(base =~= r + s.subrange(at, d) + s.subrange(d, j) + subst_at(env, ov, s, j));
        }
    }
}
