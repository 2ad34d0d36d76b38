// Paths: components, normalization, relativization
pub open spec fn is_sep(c: u8) -> bool { c == 47 }
pub open spec fn skip_sep(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || !is_sep(s[i]) { i } else { skip_sep(s, i + 1) } }
// end of the component starting at i (a NUL character ends the whole path)
pub open spec fn comp_end(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || s[i] == 0 || is_sep(s[i]) { i } else { comp_end(s, i + 1) } }
pub open spec fn dot() -> Seq<u8> { seq![46u8] }
pub open spec fn dotdot() -> Seq<u8> { seq![46u8, 46u8] }
pub ghost struct Np { pub ups: int, pub dirs: Seq<Seq<u8>> }
// the components from i on, applied to `ups` leading ".." and the directories `dirs`
pub open spec fn norm_from(s: Seq<u8>, i: int, abs: bool, n: Np) -> Np decreases s.len() - i {
    let j = skip_sep(s, i);
    let e = comp_end(s, j);
    if i < 0 || j < i || j >= s.len() || s[j] == 0 || e <= j || e > s.len() { n }
    else { norm_from(s, e, abs, norm_step(n, abs, s.subrange(j, e))) }
}
pub open spec fn norm_step(n: Np, abs: bool, c: Seq<u8>) -> Np {
    if c =~= dot() { n }
    else if !(c =~= dotdot()) { Np { ups: n.ups, dirs: n.dirs.push(c) } }
    else if n.dirs.len() > 0 { Np { ups: n.ups, dirs: n.dirs.drop_last() } }
    else if abs { n }
    else { Np { ups: n.ups + 1, dirs: n.dirs } }
}
pub open spec fn join2(a: Seq<u8>, b: Seq<u8>, abs: bool) -> Seq<u8> { if a.len() == 0 || (abs && a.len() == 1) { a + b } else { a.push(47u8) + b } }
pub open spec fn ups_str(n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { join2(ups_str(n - 1), dotdot(), false) } }
pub open spec fn render(abs: bool, n: Np) -> Seq<u8> decreases n.dirs.len() {
    if n.dirs.len() == 0 { if abs { seq![47u8] } else { ups_str(n.ups) } } else { join2(render(abs, Np { ups: n.ups, dirs: n.dirs.drop_last() }), n.dirs.last(), abs) }
}
pub open spec fn is_abs(s: Seq<u8>) -> bool { is_sep(at0(s, 0)) }
pub open spec fn norm(s: Seq<u8>) -> Seq<u8> { render(is_abs(s), norm_from(s, 0, is_abs(s), Np { ups: 0, dirs: Seq::empty() })) }

// the representation used by the code: the text so far and the lengths of the text before each directory
pub open spec fn nrep(p: Seq<u8>, ds: Seq<int>, abs: bool, n: Np) -> bool decreases ds.len() {
    &&& ds.len() == n.dirs.len()
    &&& n.ups >= 0 && (abs ==> n.ups == 0)
    &&& if ds.len() == 0 { p =~= if abs { seq![47u8] } else { ups_str(n.ups) } }
        else { 0 <= ds.last() <= p.len() && n.dirs.last().len() > 0 && nrep(p.subrange(0, ds.last()), ds.drop_last(), abs, Np { ups: n.ups, dirs: n.dirs.drop_last() }) && p =~= join2(p.subrange(0, ds.last()), n.dirs.last(), abs) }
}
pub open spec fn np_of(p: Seq<u8>, ds: Seq<int>, abs: bool) -> Np { choose|n: Np| nrep(p, ds, abs, n) }
pub proof fn lemma_ups_len(n: int)
    requires n >= 0
    ensures ups_str(n).len() == (if n == 0 { 0 } else { 3 * n - 1 })
    decreases n
{ if n > 0 { lemma_ups_len(n - 1); } }
pub proof fn lemma_nrep_unique(p: Seq<u8>, ds: Seq<int>, abs: bool, a: Np, b: Np)
    requires nrep(p, ds, abs, a), nrep(p, ds, abs, b)
    ensures a == b
    decreases ds.len()
{
    if ds.len() == 0 {
        lemma_ups_len(a.ups); lemma_ups_len(b.ups);
        assert(a.dirs =~= b.dirs);
    } else {
        let q = p.subrange(0, ds.last());
        lemma_nrep_unique(q, ds.drop_last(), abs, Np { ups: a.ups, dirs: a.dirs.drop_last() }, Np { ups: b.ups, dirs: b.dirs.drop_last() });
        let k = if q.len() == 0 || (abs && q.len() == 1) { q.len() as int } else { q.len() as int + 1 };
        assert(a.dirs.last() =~= p.subrange(k, p.len() as int));
        assert(b.dirs.last() =~= p.subrange(k, p.len() as int));
        assert(a.dirs =~= a.dirs.drop_last().push(a.dirs.last()));
        assert(b.dirs =~= b.dirs.drop_last().push(b.dirs.last()));
    }
}
pub proof fn lemma_nrep_is(p: Seq<u8>, ds: Seq<int>, abs: bool, n: Np)
    requires nrep(p, ds, abs, n)
    ensures np_of(p, ds, abs) == n
{ lemma_nrep_unique(p, ds, abs, np_of(p, ds, abs), n); }
pub proof fn lemma_nrep_init(abs: bool)
    ensures nrep(if abs { seq![47u8] } else { Seq::empty() }, Seq::empty(), abs, Np { ups: 0, dirs: Seq::empty() })
{ }
pub proof fn lemma_nrep_push(p: Seq<u8>, ds: Seq<int>, abs: bool, n: Np, c: Seq<u8>)
    requires nrep(p, ds, abs, n), c.len() > 0
    ensures nrep(join2(p, c, abs), ds.push(p.len() as int), abs, Np { ups: n.ups, dirs: n.dirs.push(c) })
{
    let p2 = join2(p, c, abs);
    assert(p2.subrange(0, p.len() as int) =~= p);
    assert(ds.push(p.len() as int).drop_last() =~= ds);
    assert(n.dirs.push(c).drop_last() =~= n.dirs);
}
pub proof fn lemma_nrep_up(p: Seq<u8>, ds: Seq<int>, abs: bool, n: Np)
    requires nrep(p, ds, abs, n), ds.len() == 0, !abs
    ensures nrep(join2(p, dotdot(), false), ds, abs, Np { ups: n.ups + 1, dirs: n.dirs })
{ }
pub proof fn lemma_render(p: Seq<u8>, ds: Seq<int>, abs: bool, n: Np)
    requires nrep(p, ds, abs, n)
    ensures p == render(abs, n)
    decreases ds.len()
{
    if ds.len() > 0 {
        lemma_render(p.subrange(0, ds.last()), ds.drop_last(), abs, Np { ups: n.ups, dirs: n.dirs.drop_last() });
    }
}
pub broadcast proof fn lemma_skip_sep(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] skip_sep(s, i) <= s.len(), skip_sep(s, i) == s.len() || !is_sep(s[skip_sep(s, i)])
    decreases s.len() - i
{ if i < s.len() && is_sep(s[i]) { lemma_skip_sep(s, i + 1); } }
pub broadcast proof fn lemma_comp_end(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] comp_end(s, i) <= s.len(), comp_end(s, i) == s.len() || s[comp_end(s, i)] == 0 || is_sep(s[comp_end(s, i)])
    decreases s.len() - i
{ if i < s.len() && s[i] != 0 && !is_sep(s[i]) { lemma_comp_end(s, i + 1); } }

// parent and base name
pub open spec fn trim_end(s: Seq<u8>, e: int) -> int decreases e { if e > 1 && e <= s.len() && is_sep(s[e - 1]) { trim_end(s, e - 1) } else { e } }
pub open spec fn name_start(s: Seq<u8>, i: int) -> int decreases i { if i > 0 && i <= s.len() && !is_sep(s[i - 1]) { name_start(s, i - 1) } else { i } }
pub open spec fn basename(s: Seq<u8>) -> Seq<u8> {
    if s.len() == 0 { dot() } else { let e = trim_end(s, s.len() as int); s.subrange(name_start(s, e - 1), e) }
}
pub open spec fn parent_dir(s: Seq<u8>) -> Seq<u8> { s.subrange(0, trim_end(s, name_start(s, s.len() as int))) }
pub broadcast proof fn lemma_trim_end(s: Seq<u8>, e: int)
    requires 0 <= e <= s.len()
    ensures 0 <= #[trigger] trim_end(s, e) <= e, e >= 1 ==> trim_end(s, e) >= 1
    decreases e
{ if e > 1 && is_sep(s[e - 1]) { lemma_trim_end(s, e - 1); } }
pub broadcast proof fn lemma_name_start(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures 0 <= #[trigger] name_start(s, i) <= i
    decreases i
{ if i > 0 && !is_sep(s[i - 1]) { lemma_name_start(s, i - 1); } }

// relativization
pub open spec fn dotcomp(s: Seq<u8>, i: int) -> bool { at0(s, i) == 46 && (i + 1 == s.len() || is_sep(at0(s, i + 1))) }
pub open spec fn skip_dots(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || !(is_sep(s[i]) || dotcomp(s, i)) { i } else { skip_dots(s, i + 1) } }
pub open spec fn piece_end(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || is_sep(s[i]) { i } else { piece_end(s, i + 1) } }
pub open spec fn piece(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(i, piece_end(s, i)) }
pub ghost struct Rel { pub ok: bool, pub v: Seq<u8> }
// compare the rest of the components at j and i, then what follows them
pub open spec fn rel_at(p: Seq<u8>, j: int, s: Seq<u8>, i: int) -> Rel decreases p.len() - j, 1int {
    let f = piece_end(p, j);
    if j < 0 || j > p.len() || f < j || f > p.len() || !(piece(p, j) =~= piece(s, i)) { Rel { ok: false, v: Seq::empty() } }
    else { rel_next(p, f, s, piece_end(s, i)) }
}
// j and i are at the end of equal components
pub open spec fn rel_next(p: Seq<u8>, j: int, s: Seq<u8>, i: int) -> Rel decreases p.len() - j, 0int {
    let j2 = skip_dots(p, j);
    let i2 = skip_dots(s, i);
    if j2 >= p.len() || j2 <= j { Rel { ok: true, v: s.subrange(i2, s.len() as int) } }
    else { rel_at(p, j2, s, i2) }
}
pub open spec fn relativize(p: Seq<u8>, s: Seq<u8>) -> Rel { rel_at(p, 0, s, 0) }
pub broadcast proof fn lemma_piece_end(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] piece_end(s, i) <= s.len(), piece_end(s, i) == s.len() || is_sep(s[piece_end(s, i)])
    decreases s.len() - i
{ if i < s.len() && !is_sep(s[i]) { lemma_piece_end(s, i + 1); } }
pub broadcast proof fn lemma_skip_dots(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= #[trigger] skip_dots(s, i) <= s.len(), skip_dots(s, i) == s.len() || !is_sep(s[skip_dots(s, i)]), i < s.len() && is_sep(s[i]) ==> skip_dots(s, i) > i
    decreases s.len() - i
{ if i < s.len() && (is_sep(s[i]) || dotcomp(s, i)) { lemma_skip_dots(s, i + 1); } }
pub proof fn lemma_rel_step(p: Seq<u8>, j: int, s: Seq<u8>, i: int)
    requires 0 <= j < p.len(), 0 <= i <= s.len(), !is_sep(p[j])
    ensures i < s.len() && s[i] == p[j] ==> rel_at(p, j, s, i) == rel_at(p, j + 1, s, i + 1), i == s.len() || s[i] != p[j] ==> !rel_at(p, j, s, i).ok
{
    broadcast use {lemma_piece_end, lemma_skip_dots};
    let a = piece(p, j);
    assert(piece_end(p, j) == piece_end(p, j + 1));
    assert(a[0] == p[j]);
    if i < s.len() && s[i] == p[j] {
        let b = piece(s, i);
        assert(piece_end(s, i) == piece_end(s, i + 1));
        assert(b[0] == p[j]);
        let a1 = piece(p, j + 1);
        let b1 = piece(s, i + 1);
        assert(a =~= seq![p[j]] + a1);
        assert(b =~= seq![p[j]] + b1);
        assert(a1 =~= a.subrange(1, a.len() as int));
        assert(b1 =~= b.subrange(1, b.len() as int));
    } else if i < s.len() {
        let b = piece(s, i);
        if b.len() > 0 { assert(b[0] == s[i]); }
    }
}
pub proof fn lemma_nrep_len(p: Seq<u8>, ds: Seq<int>, abs: bool, n: Np)
    requires nrep(p, ds, abs, n)
    ensures p.len() >= (if abs { 1int } else { 0int }), ds.len() > 0 ==> p.len() > (if abs { 1int } else { 0int }), ds.len() == 0 && abs ==> p.len() == 1
    decreases ds.len()
{ if ds.len() > 0 { lemma_nrep_len(p.subrange(0, ds.last()), ds.drop_last(), abs, Np { ups: n.ups, dirs: n.dirs.drop_last() }); } }

// normal forms: normalizing again changes nothing
pub open spec fn clean(c: Seq<u8>) -> bool { c.len() > 0 && forall|k: int| 0 <= k < c.len() ==> !is_sep(#[trigger] c[k]) && c[k] != 0 }
pub open spec fn named(c: Seq<u8>) -> bool { clean(c) && !(c =~= dot()) && !(c =~= dotdot()) }
pub open spec fn np_ok(abs: bool, n: Np) -> bool { n.ups >= 0 && (abs ==> n.ups == 0) && forall|k: int| 0 <= k < n.dirs.len() ==> named(#[trigger] n.dirs[k]) }
pub open spec fn nonul(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != 0 }
pub open spec fn np0() -> Np { Np { ups: 0, dirs: Seq::empty() } }
pub proof fn lemma_skip_app(a: Seq<u8>, s: Seq<u8>, i: int)
    requires 0 <= i <= a.len() <= s.len(), s.subrange(0, a.len() as int) =~= a
    ensures skip_sep(a, i) < a.len() ==> skip_sep(s, i) == skip_sep(a, i), skip_sep(a, i) == a.len() ==> skip_sep(s, i) == skip_sep(s, a.len() as int)
    decreases a.len() - i
{
    lemma_skip_sep(a, i);
    if i < a.len() { assert(s.subrange(0, a.len() as int)[i] == s[i]); if is_sep(a[i]) { lemma_skip_app(a, s, i + 1); } }
}
pub proof fn lemma_comp_app(a: Seq<u8>, s: Seq<u8>, i: int)
    requires 0 <= i <= a.len() < s.len(), s.subrange(0, a.len() as int) =~= a, is_sep(s[a.len() as int])
    ensures comp_end(s, i) == comp_end(a, i)
    decreases a.len() - i
{
    if i < a.len() { assert(s.subrange(0, a.len() as int)[i] == s[i]); if a[i] != 0 && !is_sep(a[i]) { lemma_comp_app(a, s, i + 1); } }
}
pub proof fn lemma_comp_clean(s: Seq<u8>, k: int, i: int)
    requires 0 <= k <= i <= s.len(), clean(s.subrange(k, s.len() as int))
    ensures comp_end(s, i) == s.len()
    decreases s.len() - i
{
    if i < s.len() { assert(s.subrange(k, s.len() as int)[i - k] == s[i]); lemma_comp_clean(s, k, i + 1); }
}
// one more component
pub proof fn lemma_norm_last(s: Seq<u8>, i: int, abs: bool, n: Np)
    requires 0 <= i < s.len(), clean(s.subrange(i, s.len() as int))
    ensures norm_from(s, i, abs, n) == norm_step(n, abs, s.subrange(i, s.len() as int))
{
    assert(s.subrange(i, s.len() as int)[0] == s[i]);
    lemma_comp_clean(s, i, i);
    let n1 = norm_step(n, abs, s.subrange(i, s.len() as int));
    assert(skip_sep(s, s.len() as int) == s.len());
    assert(norm_from(s, s.len() as int, abs, n1) == n1);
}
pub proof fn lemma_norm_app(a: Seq<u8>, c: Seq<u8>, i: int, abs: bool, n: Np)
    requires 0 <= i <= a.len(), clean(c), nonul(a)
    ensures norm_from(a.push(47u8) + c, i, abs, n) == norm_step(norm_from(a, i, abs, n), abs, c)
    decreases a.len() - i
{
    let s = a.push(47u8) + c;
    let k = a.len() as int;
    assert(s.subrange(0, k) =~= a);
    assert(s.subrange(k + 1, s.len() as int) =~= c);
    assert(s[k] == 47u8);
    let j = skip_sep(a, i);
    lemma_skip_sep(a, i);
    lemma_skip_app(a, s, i);
    assert(s[k + 1] == c[0]);
    assert(skip_sep(s, k) == k + 1) by { assert(skip_sep(s, k + 1) == k + 1); }
    if j == k {
        lemma_norm_last(s, k + 1, abs, n);
        assert(norm_from(s, i, abs, n) == norm_from(s, k + 1, abs, n)) by { assert(skip_sep(s, i) == k + 1); }
        assert(norm_from(a, i, abs, n) == n);
    } else {
        lemma_comp_end(a, j);
        lemma_comp_app(a, s, j);
        assert(a[j] != 0);
        let e = comp_end(a, j);
        assert(s[j] == s.subrange(0, k)[j]);
        assert(e > j) by { assert(!is_sep(a[j])); assert(comp_end(a, j) == comp_end(a, j + 1)); lemma_comp_end(a, j + 1); }
        assert(s.subrange(j, e) =~= a.subrange(j, e));
        lemma_norm_app(a, c, e, abs, norm_step(n, abs, a.subrange(j, e)));
    }
}
pub proof fn lemma_render_shape(abs: bool, n: Np)
    requires np_ok(abs, n)
    ensures nonul(render(abs, n)), is_abs(render(abs, n)) == abs, abs ==> render(abs, n).len() > 0,
        render(abs, n).len() == 0 <==> !abs && n.ups == 0 && n.dirs.len() == 0,
        n.dirs.len() > 0 && abs ==> render(abs, n).len() > 1,
        norm_from(render(abs, n), 0, abs, np0()) == n
    decreases n.dirs.len(), n.ups
{
    let r = render(abs, n);
    if n.dirs.len() == 0 {
        assert(n.dirs =~= Seq::<Seq<u8>>::empty());
        if abs {
            assert(r =~= seq![47u8]);
            assert(r.len() == 1 && is_sep(r[0]));
            assert(skip_sep(r, 1) == 1);
            assert(skip_sep(r, 0) == 1) by { assert(skip_sep(r, 0) == skip_sep(r, 1)); }
        } else if n.ups > 0 {
            let m = Np { ups: n.ups - 1, dirs: n.dirs };
            lemma_render_shape(abs, m);
            lemma_ups_len(n.ups - 1);
            let a = ups_str(n.ups - 1);
            assert(clean(dotdot()));
            assert(r =~= join2(a, dotdot(), false));
            if a.len() == 0 {
                assert(r =~= dotdot());
                assert(r.subrange(0, r.len() as int) =~= dotdot());
                lemma_norm_last(r, 0, abs, np0());
            } else {
                assert(r[0] == a[0]);
                lemma_norm_app(a, dotdot(), 0, abs, np0());
            }
        } else { assert(skip_sep(r, 0) == 0); }
    } else {
        let m = Np { ups: n.ups, dirs: n.dirs.drop_last() };
        let c = n.dirs.last();
        assert(named(n.dirs[n.dirs.len() - 1]));
        assert(np_ok(abs, m)) by { assert forall|k: int| 0 <= k < m.dirs.len() implies named(#[trigger] m.dirs[k]) by { assert(m.dirs[k] == n.dirs[k]); } }
        lemma_render_shape(abs, m);
        let a = render(abs, m);
        assert(m.dirs.push(c) =~= n.dirs);
        assert(r =~= join2(a, c, abs));
        if a.len() == 0 {
            assert(r =~= c);
            assert(r.subrange(0, r.len() as int) =~= c);
            assert(m.dirs.len() == 0 && m.ups == 0);
            assert(m.dirs =~= Seq::<Seq<u8>>::empty());
            lemma_norm_last(r, 0, abs, np0());
        } else if abs && a.len() == 1 {
            assert(m.dirs =~= Seq::<Seq<u8>>::empty());
            assert(r.subrange(1, r.len() as int) =~= c);
            assert(r[1] == c[0] && r[0] == a[0]);
            assert(skip_sep(r, 1) == 1);
            assert(skip_sep(r, 0) == 1) by { assert(skip_sep(r, 0) == skip_sep(r, 1)); }
            lemma_norm_last(r, 1, abs, np0());
            assert(norm_from(r, 0, abs, np0()) == norm_from(r, 1, abs, np0()));
        } else {
            assert(r[0] == a[0]);
            lemma_norm_app(a, c, 0, abs, np0());
        }
    }
}
pub proof fn lemma_comp_named(s: Seq<u8>, j: int, i: int)
    requires 0 <= j <= i <= s.len(), clean(s.subrange(j, i)) || i == j
    ensures comp_end(s, i) == j || clean(s.subrange(j, comp_end(s, i)))
    decreases s.len() - i
{
    if i < s.len() && s[i] != 0 && !is_sep(s[i]) {
        assert forall|k: int| 0 <= k < s.subrange(j, i + 1).len() implies !is_sep(#[trigger] s.subrange(j, i + 1)[k]) && s.subrange(j, i + 1)[k] != 0 by {
            if k < i - j { assert(s.subrange(j, i + 1)[k] == s.subrange(j, i)[k]); }
        }
        lemma_comp_named(s, j, i + 1);
    }
}
pub proof fn lemma_norm_ok(s: Seq<u8>, i: int, abs: bool, n: Np)
    requires np_ok(abs, n), 0 <= i <= s.len()
    ensures np_ok(abs, norm_from(s, i, abs, n))
    decreases s.len() - i
{
    let j = skip_sep(s, i);
    lemma_skip_sep(s, i);
    lemma_comp_end(s, j);
    let e = comp_end(s, j);
    if !(j >= s.len() || s[j] == 0 || e <= j) {
        let c = s.subrange(j, e);
        lemma_comp_named(s, j, j);
        let n1 = norm_step(n, abs, c);
        assert(np_ok(abs, n1)) by {
            assert forall|k: int| 0 <= k < n1.dirs.len() implies named(#[trigger] n1.dirs[k]) by { if k < n.dirs.len() { assert(n1.dirs[k] == n.dirs[k]); } }
        }
        lemma_norm_ok(s, e, abs, n1);
    }
}
pub broadcast proof fn lemma_norm_normal(s: Seq<u8>)
    ensures norm(#[trigger] norm(s)) == norm(s), is_abs(norm(s)) == is_abs(s), nonul(norm(s))
{
    lemma_norm_ok(s, 0, is_abs(s), np0());
    lemma_render_shape(is_abs(s), norm_from(s, 0, is_abs(s), np0()));
}
