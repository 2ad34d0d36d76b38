// The request as the server reads it: directory, environment variables, arguments until the command is started
pub ghost struct Req { pub ok: bool, pub dir: Seq<u8>, pub env: Map<Seq<u8>, Seq<u8>>, pub args: Seq<Seq<u8>>, pub cmd: Seq<u8>, pub rest: Seq<u8> }
pub open spec fn rq(dir: Seq<u8>, env: Map<Seq<u8>, Seq<u8>>, args: Seq<Seq<u8>>) -> Req { Req { ok: false, dir: dir, env: env, args: args, cmd: Seq::empty(), rest: Seq::empty() } }
pub open spec fn req0() -> Req { rq(Seq::empty(), Map::empty(), Seq::empty()) }
pub open spec fn join_dir(wd: Seq<u8>, d: Seq<u8>) -> Seq<u8> { if wd.len() == 0 { d } else { wd + seq![47u8] + d } }
pub open spec fn add_var(env: Map<Seq<u8>, Seq<u8>>, m: Map<Seq<u8>, Seq<u8>>, p: Seq<u8>) -> Map<Seq<u8>, Seq<u8>> {
    let e = sfindc(p, 61u8, 0);
    if e >= p.len() { if m.dom().contains(p) { m } else { m.insert(p, optenv(env, p).base) } } else { m.insert(p.subrange(0, e), p.subrange(e + 1, p.len() as int)) }
}
pub open spec fn req_from(env: Map<Seq<u8>, Seq<u8>>, wd: Seq<u8>, s: Seq<u8>, q: Req) -> Req decreases s.len() {
    let n = 5 + le32(s);
    if s.len() < 5 || s.len() < n { Req { ok: false, ..q } }
    else if s[0] == 0 { req_from(env, wd, s.skip(n), Req { dir: join_dir(wd, payload(s)), ..q }) }
    else if s[0] == 1 { req_from(env, wd, s.skip(n), Req { env: add_var(env, q.env, payload(s)), ..q }) }
    else if s[0] == 2 { req_from(env, wd, s.skip(n), Req { args: q.args.push(payload(s)), ..q }) }
    else if s[0] == 3 { Req { ok: true, cmd: payload(s), rest: s.skip(n), ..q } }
    else { Req { ok: false, ..q } }
}
// one message p[..] that was read, r remains
pub proof fn lemma_req_step(env: Map<Seq<u8>, Seq<u8>>, wd: Seq<u8>, p: Seq<u8>, r: Seq<u8>, dir: Seq<u8>, ev: Map<Seq<u8>, Seq<u8>>, args: Seq<Seq<u8>>)
    ensures p.len() >= 5 && p.skip(5).len() >= le32(p) && r =~= p.skip(5).skip(le32(p)) ==> ({
        let t = take(p.skip(5), le32(p)); let a = req_from(env, wd, p, rq(dir, ev, args));
        &&& p[0] == 0 ==> a == req_from(env, wd, r, rq(join_dir(wd, t), ev, args))
        &&& p[0] == 1 ==> a == req_from(env, wd, r, rq(dir, add_var(env, ev, t), args))
        &&& p[0] == 2 ==> a == req_from(env, wd, r, rq(dir, ev, args.push(t)))
        &&& p[0] == 3 ==> a == Req { ok: true, dir: dir, env: ev, args: args, cmd: t, rest: r }
    })
{
    if p.len() >= 5 && p.skip(5).len() >= le32(p) && r =~= p.skip(5).skip(le32(p)) {
        assert(r =~= p.skip(5 + le32(p))); assert(take(p.skip(5), le32(p)) =~= payload(p));
    }
}
pub broadcast proof fn lemma_find1(s: Seq<u8>, c: u8, pos: int) ensures #[trigger] sfind(s, seq![c], pos) == sfindc(s, c, pos) decreases s.len() - pos {
    if pos < 0 || pos >= s.len() {} else { assert(match_at(s, seq![c], pos) == (s[pos] == c)) by { if s[pos] == c { assert(s.subrange(pos, pos + 1) =~= seq![c]); } else { assert(s.subrange(pos, pos + 1)[0] == s[pos]); } } lemma_find1(s, c, pos + 1); }
}
// The values of the configured variables
pub open spec fn some_str(s: Seq<u8>) -> OptionalString { OptionalString { base: s, _exists: true } }
pub open spec fn var_val(env: Map<Seq<u8>, Seq<u8>>, recv: Map<Seq<u8>, Seq<u8>>, m: Map<Seq<u8>, OptionalString>, k: Seq<u8>, v: Seq<u8>) -> OptionalString {
    if at0(k, 0) == 61 { if v.len() == 0 { optenv(env, env_key(k)) } else { some_str(subst(env, m, v)) } }
    else if recv.dom().contains(env_key(k)) { some_str(recv[env_key(k)]) }
    else if v.len() == 0 && at0(k, 0) == 63 { lookup(env, m, env_key(k)) } else { some_str(subst(env, m, v)) }
}
pub open spec fn env_build(env: Map<Seq<u8>, Seq<u8>>, recv: Map<Seq<u8>, Seq<u8>>, vars: Seq<(Seq<u8>, Seq<u8>)>, n: int) -> Map<Seq<u8>, OptionalString> decreases n {
    if n <= 0 { Map::empty() } else { let m = env_build(env, recv, vars, n - 1); m.insert(env_key(vars[n - 1].0), var_val(env, recv, m, vars[n - 1].0, vars[n - 1].1)) }
}
// The strings NAME=value: each name once
pub ghost struct El { pub l: Seq<Seq<u8>>, pub m: Map<Seq<u8>, OptionalString> }
pub open spec fn env_list(vars: Seq<(Seq<u8>, Seq<u8>)>, n: int, m: Map<Seq<u8>, OptionalString>) -> El decreases n {
    if n <= 0 { El { l: Seq::empty(), m: m } } else {
        let e = env_list(vars, n - 1, m); let k = env_key(vars[n - 1].0);
        if e.m.dom().contains(k) && e.m[k]._exists { El { l: e.l.push(k + seq![61u8] + cstr(e.m[k].base)), m: e.m.remove(k) } } else { e }
    }
}
pub open spec fn env_of(env: Map<Seq<u8>, Seq<u8>>, recv: Map<Seq<u8>, Seq<u8>>, c: Configuration_Command) -> Seq<Seq<u8>> {
    let vs = c._environmentVariables; env_list(vs, vs.len() as int, env_build(env, recv, vs, vs.len() as int)).l
}
// a null terminated array of C strings
pub open spec fn is_cps(a: Seq<CP>, l: Seq<Seq<u8>>) -> bool {
    a.len() == l.len() + 1 && !a[l.len() as int].nn && forall|k: int| 0 <= k < l.len() ==> (#[trigger] a[k]).nn && a[k].s == cstr(l[k])
}
pub open spec fn part_cps(a: Seq<CP>, l: Seq<Seq<u8>>, n: int) -> bool { a.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).nn && a[k].s == cstr(l[k]) }
// Every string of the environment belongs to a configured variable, no two to the same.
pub open spec fn of_var(vars: Seq<(Seq<u8>, Seq<u8>)>, s: Seq<u8>, j: int) -> bool { 0 <= j < vars.len() && exists|v: Seq<u8>| s == env_key(vars[j].0) + seq![61u8] + v }
// What the server sends: output and end of the input, then the exit code as the last message
pub open spec fn srv(s: Seq<u8>) -> bool decreases s.len() {
    s.len() == 0 || s.len() >= 5 && (if s[0] == 8 { s.len() == 5 } else if s[0] == 4 { le32(s) == 0 && srv(s.skip(5)) } else { (s[0] == 5 || s[0] == 6) && 5 + le32(s) <= s.len() && srv(s.skip(5 + le32(s))) })
}
// an empty message of kind t: the end of that output
pub open spec fn ends(t: int, s: Seq<u8>) -> bool decreases s.len() {
    s.len() >= 5 && (if s[0] == 4 { ends(t, s.skip(5)) } else { (s[0] == 5 || s[0] == 6) && 5 + le32(s) <= s.len() && (s[0] == t && le32(s) == 0 || ends(t, s.skip(5 + le32(s)))) })
}
pub open spec fn srv_open(s: Seq<u8>) -> bool { srv(s) && exit_of(s) == -1 }
pub broadcast proof fn lemma_srv_push(s: Seq<u8>, k: int, p: Seq<u8>)
    ensures srv_open(s) && 4 <= k <= 6 && (k == 4 ==> p.len() == 0) && p.len() < 0x1_0000_0000 ==> ({ let x = #[trigger] (s + msg(k, p));
        srv_open(x) && out_of(5, x) =~= out_of(5, s) + (if k == 5 { p } else { Seq::empty() }) && out_of(6, x) =~= out_of(6, s) + (if k == 6 { p } else { Seq::empty() })
        && ends(5, x) == (ends(5, s) || k == 5 && p.len() == 0) && ends(6, x) == (ends(6, s) || k == 6 && p.len() == 0) })
    decreases s.len()
{
    if srv_open(s) && 4 <= k <= 6 && (k == 4 ==> p.len() == 0) && p.len() < 0x1_0000_0000 {
        let m = msg(k, p); let x = s + m;
        if s.len() == 0 {
            assert(x =~= m);
            lemma_roundtrip(k, p, Seq::empty());
            assert(m + Seq::<u8>::empty() =~= m);
            let r = x.skip(5 + p.len() as int);
            assert(r =~= Seq::<u8>::empty());
            assert(srv(r) && exit_of(r) == -1 && out_of(5, r) =~= Seq::empty() && out_of(6, r) =~= Seq::empty() && !ends(5, r) && !ends(6, r));
            assert(out_of(5, s) =~= Seq::empty() && out_of(6, s) =~= Seq::empty());
            assert(x[0] == k && le32(x) == p.len());
            assert(payload(x) =~= p);
            assert(srv(x)); assert(exit_of(x) == -1);
        } else {
            let n = if s[0] == 4 { 5 } else { 5 + le32(s) };
            assert(x[0] == s[0] && x[1] == s[1] && x[2] == s[2] && x[3] == s[3] && x[4] == s[4]);
            assert(x.skip(n) =~= s.skip(n) + m);
            assert(s[0] != 8);
            assert(srv_open(s.skip(n)));
            lemma_srv_push(s.skip(n), k, p);
            if s[0] != 4 { assert(payload(x) =~= payload(s)); }
            assert(srv(x)); assert(exit_of(x) == -1);
        }
    }
}
pub proof fn lemma_srv_exit(s: Seq<u8>, v: int)
    ensures srv_open(s) && 0 <= v < 0x1_0000_0000 ==> ({ let x = s + msgv(8, v); srv(x) && exit_of(x) == v && out_of(5, x) =~= out_of(5, s) && out_of(6, x) =~= out_of(6, s) && ends(5, x) == ends(5, s) && ends(6, x) == ends(6, s) })
    decreases s.len()
{
    if srv_open(s) && 0 <= v < 0x1_0000_0000 {
        let m = msgv(8, v); let x = s + m;
        lemma_msgv(8, v);
        if s.len() == 0 { assert(x =~= m); assert(exit_of(x) == v); assert(out_of(5, s) =~= Seq::empty() && out_of(6, s) =~= Seq::empty()); assert(out_of(5, x) =~= Seq::empty() && out_of(6, x) =~= Seq::empty()); }
        else {
            let n = if s[0] == 4 { 5 } else { 5 + le32(s) };
            assert(x[0] == s[0] && x[1] == s[1] && x[2] == s[2] && x[3] == s[3] && x[4] == s[4]);
            assert(x.skip(n) =~= s.skip(n) + m);
            assert(s[0] != 8);
            assert(srv_open(s.skip(n)));
            lemma_srv_exit(s.skip(n), v);
            if s[0] != 4 { assert(payload(x) =~= payload(s)); }
            assert(srv(x)); assert(exit_of(x) == v);
        }
    }
}
// a connection that was cut off: what arrived is a part of what was meant
pub proof fn lemma_out_part(t: int, p: Seq<u8>, s: Seq<u8>) requires is_part(p, s), t == 5 || t == 6 ensures is_part(out_of(t, p), out_of(t, s)), exit_of(p) == -1 || exit_of(p) == exit_of(s) decreases s.len() {
    if p.len() >= 5 {
        assert(p[0] == s[0] && p[1] == s[1] && p[2] == s[2] && p[3] == s[3] && p[4] == s[4]);
        if p[0] == 8 {}
        else {
            let n = if p[0] == 4 { 5 } else { 5 + le32(p) };
            if n <= p.len() && 4 <= p[0] <= 6 {
                assert(is_part(p.skip(n), s.skip(n)));
                lemma_out_part(t, p.skip(n), s.skip(n));
                if p[0] != 4 {
                    assert(payload(p) =~= payload(s));
                    let a = if p[0] == t { payload(p) } else { Seq::<u8>::empty() };
                    assert(out_of(t, p) == a + out_of(t, p.skip(n)) && out_of(t, s) == a + out_of(t, s.skip(n)));
                    assert(is_part(a + out_of(t, p.skip(n)), a + out_of(t, s.skip(n)))) by { let x = a + out_of(t, p.skip(n)); assert forall|k: int| 0 <= k < x.len() implies #[trigger] x[k] == (a + out_of(t, s.skip(n)))[k] by { if k >= a.len() { assert(out_of(t, p.skip(n))[k - a.len()] == out_of(t, s.skip(n))[k - a.len()]); } } }
                }
            }
        }
    }
}
// The messages of the client during the session: standard input (an empty one is its end) until another one arrives
pub open spec fn sd(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() >= 5 && s[0] == 4 && 5 + le32(s) <= s.len() { payload(s) + sd(s.skip(5 + le32(s))) } else { Seq::empty() } }
pub open spec fn sd_eof(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 5 && s[0] == 4 && 5 + le32(s) <= s.len() && le32(s) > 0 { payload(s) + sd_eof(s.skip(5 + le32(s))) } else { Seq::empty() } }
pub open spec fn has_eof(s: Seq<u8>) -> bool decreases s.len() { s.len() >= 5 && s[0] == 4 && 5 + le32(s) <= s.len() && (le32(s) == 0 || has_eof(s.skip(5 + le32(s)))) }
pub open spec fn ctl(s: Seq<u8>) -> int decreases s.len() { if s.len() < 5 { -1 } else if s[0] != 4 { s[0] as int } else if 5 + le32(s) <= s.len() { ctl(s.skip(5 + le32(s))) } else { -1 } }
pub proof fn lemma_sd_step(p: Seq<u8>, r: Seq<u8>) ensures p.len() >= 5 && p[0] == 4 && p.skip(5).len() >= le32(p) && r =~= p.skip(5).skip(le32(p)) ==> ({ let t = take(p.skip(5), le32(p));
        sd(p) =~= t + sd(r) && ctl(p) == ctl(r) && (le32(p) == 0 ==> has_eof(p) && sd_eof(p) =~= Seq::empty()) && (le32(p) > 0 ==> has_eof(p) == has_eof(r) && sd_eof(p) =~= t + sd_eof(r)) }) {
    if p.len() >= 5 && p[0] == 4 && p.skip(5).len() >= le32(p) && r =~= p.skip(5).skip(le32(p)) { assert(r =~= p.skip(5 + le32(p))); assert(take(p.skip(5), le32(p)) =~= payload(p)); }
}
// a variable without a value is the same as none
pub proof fn lemma_subst_eq(env: Map<Seq<u8>, Seq<u8>>, a: Map<Seq<u8>, OptionalString>, b: Map<Seq<u8>, OptionalString>, s: Seq<u8>, i: int)
    requires forall|n: Seq<u8>| #[trigger] lookup(env, a, n) == lookup(env, b, n) ensures subst_at(env, a, s, i) == subst_at(env, b, s, i) decreases s.len() - i
{
    let d = sfind(s, dollar(), i);
    if i < 0 || i > s.len() {} else if d < i || d + 2 > s.len() {} else {
        let j = name_end(s, d + 2);
        if j < d + 2 || j > s.len() {}
        else if at0(s, j) == 125 { assert(lookup(env, a, s.subrange(d + 2, j)) == lookup(env, b, s.subrange(d + 2, j))); lemma_subst_eq(env, a, b, s, j + 1); }
        else if at0(s, j) == 58 && at0(s, j + 1) == 45 { let e = sfindc(s, 125u8, j + 2); if e < j + 2 || e >= s.len() {} else { assert(lookup(env, a, s.subrange(d + 2, j)) == lookup(env, b, s.subrange(d + 2, j))); lemma_subst_eq(env, a, b, s, e + 1); } }
        else { lemma_subst_eq(env, a, b, s, j); }
    }
}
pub broadcast proof fn lemma_subst_none(env: Map<Seq<u8>, Seq<u8>>, m: Map<Seq<u8>, OptionalString>, k: Seq<u8>, o: OptionalString, s: Seq<u8>)
    ensures !m.dom().contains(k) && !o._exists ==> #[trigger] subst(env, m.insert(k, o), s) == subst(env, m, s)
{ if !m.dom().contains(k) && !o._exists { assert forall|n: Seq<u8>| #[trigger] lookup(env, m.insert(k, o), n) == lookup(env, m, n) by { if n == k {} } lemma_subst_eq(env, m.insert(k, o), m, s, 0); } }
