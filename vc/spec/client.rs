// The request of the client: directory, arguments, environment variables, start
pub open spec fn req_args(argv: Seq<CP>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { req_args(argv, n - 1) + msg(2, argv[n - 1].s) } }
pub open spec fn env_key(k: Seq<u8>) -> Seq<u8> { if k.len() > 0 && (k[0] == 63 || k[0] == 61) { k.skip(1) } else { k } }
pub open spec fn env_msg(env: Map<Seq<u8>, Seq<u8>>, k: Seq<u8>) -> Seq<u8> {
    let v = env_get(env, cstr(env_key(k)));
    if at0(k, 0) == 61 || !v.nn { Seq::empty() } else { msg(1, env_key(k).push(61u8) + v.s) }
}
pub open spec fn req_env(env: Map<Seq<u8>, Seq<u8>>, vars: Seq<(Seq<u8>, Seq<u8>)>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { req_env(env, vars, n - 1) + env_msg(env, vars[n - 1].0) } }
pub open spec fn request(env: Map<Seq<u8>, Seq<u8>>, dir: Seq<u8>, argv: Seq<CP>, argc: int, c: Configuration_Command) -> Seq<u8> {
    msg(0, dir) + req_args(argv, argc) + req_env(env, c._environmentVariables, c._environmentVariables.len() as int) + msg(3, c._name)
}
// Frames of one kind with a payload
pub open spec fn nz(t: int, s: Seq<u8>) -> bool decreases s.len() { s.len() == 0 || s.len() > 5 && s[0] == t && 0 < le32(s) && 5 + le32(s) <= s.len() && nz(t, s.skip(5 + le32(s))) }
pub open spec fn cat(t: int, s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 5 && 0 < le32(s) && 5 + le32(s) <= s.len() { payload(s) + cat(t, s.skip(5 + le32(s))) } else { Seq::empty() } }
pub proof fn lemma_nz_push(t: int, s: Seq<u8>, p: Seq<u8>) requires 0 <= t < 256, nz(t, s), 0 < p.len() < 0x1_0000_0000 ensures nz(t, s + msg(t, p)), cat(t, s + msg(t, p)) =~= cat(t, s) + p decreases s.len() {
    let m = msg(t, p);
    lemma_roundtrip(t, p, Seq::empty());
    assert(m + Seq::<u8>::empty() =~= m);
    if s.len() == 0 {
        assert(s + m =~= m); assert(m.skip(5 + p.len() as int) =~= Seq::<u8>::empty()); assert(payload(m) =~= p);
        assert(nz(t, Seq::<u8>::empty())); assert(m[0] == t && le32(m) == p.len()); assert(nz(t, m));
        assert(cat(t, Seq::<u8>::empty()) =~= Seq::<u8>::empty()); assert(cat(t, m) =~= p); assert(cat(t, s) =~= Seq::<u8>::empty());
    } else {
        let k = 5 + le32(s);
        let x = s + m;
        assert(x[0] == s[0] && x[1] == s[1] && x[2] == s[2] && x[3] == s[3] && x[4] == s[4]);
        assert(payload(x) =~= payload(s)); assert(x.skip(k) =~= s.skip(k) + m);
        lemma_nz_push(t, s.skip(k), p);
        assert(le32(x) == le32(s)); assert(nz(t, x));
        assert(cat(t, s) == payload(s) + cat(t, s.skip(k))); assert(cat(t, x) == payload(x) + cat(t, x.skip(k)));
        assert(payload(s) + (cat(t, s.skip(k)) + p) =~= payload(s) + cat(t, s.skip(k)) + p);
        assert(cat(t, x) =~= cat(t, s) + p);
    }
}
// Everything sent after the request: the standard input that was read so far, then an empty message once its end was read
pub open spec fn stdin_sent(sent: Seq<u8>, all: Seq<u8>, rest: Seq<u8>, closed: bool) -> bool {
    if closed { sent.len() >= 5 && rest.len() == 0 && nz(4, sent.subrange(0, sent.len() - 5)) && sent.skip(sent.len() - 5) =~= msgv(4, 0) && cat(4, sent.subrange(0, sent.len() - 5)) =~= all }
    else { nz(4, sent) && cat(4, sent) + rest =~= all }
}
pub proof fn lemma_stdin_step(sent: Seq<u8>, all: Seq<u8>, rest: Seq<u8>, n: int, s2: Seq<u8>) requires stdin_sent(sent, all, rest, false), 0 <= n < 0x1_0000_0000, n <= rest.len(), n == 0 ==> rest.len() == 0, s2 =~= sent + msg(4, rest.subrange(0, n))
    ensures stdin_sent(s2, all, rest.skip(n), n == 0) {
    if n == 0 {
        assert(s2.subrange(0, s2.len() - 5) =~= sent);
        assert(msg(4, rest.subrange(0, 0)) =~= msgv(4, 0));
        assert(s2.skip(s2.len() - 5) =~= msgv(4, 0));
        assert(cat(4, sent) + rest =~= cat(4, sent));
        assert(rest.skip(n) =~= rest);
    } else {
        lemma_nz_push(4, sent, rest.subrange(0, n));
        assert(s2 == sent + msg(4, rest.subrange(0, n)));
        assert(cat(4, sent) + rest.subrange(0, n) + rest.skip(n) =~= cat(4, sent) + rest);
    }
}
// What the server's messages mean: the output of one kind until the exit code arrives, and the exit code (-1 when there is none)
pub open spec fn out_of(t: int, s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() < 5 || s[0] == 8 { Seq::empty() } else if s[0] == 4 { out_of(t, s.skip(5)) }
    else if (s[0] == 5 || s[0] == 6) && 5 + le32(s) <= s.len() { (if s[0] == t { payload(s) } else { Seq::empty() }) + out_of(t, s.skip(5 + le32(s))) } else { Seq::empty() }
}
pub open spec fn exit_of(s: Seq<u8>) -> int decreases s.len() {
    if s.len() < 5 { -1 } else if s[0] == 8 { le32(s) } else if s[0] == 4 { exit_of(s.skip(5)) }
    else if (s[0] == 5 || s[0] == 6) && 5 + le32(s) <= s.len() { exit_of(s.skip(5 + le32(s))) } else { -1 }
}
pub open spec fn i32_of(x: int) -> int { if x < 0x8000_0000 { x } else { x - 0x1_0000_0000 } }
pub open spec fn clientok(fd: Map<int, Fd>, h: int) -> bool { h > 2 && fd.dom().contains(h) && fd[h].st == 4 }
// what remains after one message
pub proof fn lemma_out_step(t: int, p: Seq<u8>, q: Seq<u8>, f: Seq<u8>) requires t == 5 || t == 6
    ensures p.len() >= 5 && p[0] == 4 && q =~= p.skip(5) ==> out_of(t, p) == out_of(t, q) && exit_of(p) == exit_of(q),
        p.len() >= 5 + le32(p) && (p[0] == 5 || p[0] == 6) && q =~= p.skip(5).skip(le32(p)) ==> exit_of(p) == exit_of(q)
            && f + out_of(t, p) =~= (if p[0] == t { f + take(p.skip(5), le32(p)) } else { f }) + out_of(t, q) {
    if p.len() >= 5 && p[0] == 4 && q =~= p.skip(5) { assert(q == p.skip(5)); }
    if p.len() >= 5 + le32(p) && (p[0] == 5 || p[0] == 6) && q =~= p.skip(5).skip(le32(p)) {
        assert(q =~= p.skip(5 + le32(p))); assert(payload(p) =~= take(p.skip(5), le32(p)));
        assert(out_of(t, p) == (if p[0] == t { payload(p) } else { Seq::empty() }) + out_of(t, q));
    }
}
pub proof fn lemma_stdin_tx(t0: Seq<u8>, t1: Seq<u8>, n0: int, all: Seq<u8>, rest0: Seq<u8>, rest1: Seq<u8>, buf: Seq<u8>)
    ensures ({ let k = rest0.len() - rest1.len(); stdin_sent(t0.skip(n0), all, rest0, false) && 0 <= n0 <= t0.len() && 0 <= k <= buf.len() && k < 0x1_0000_0000 && t1 =~= t0 + msg(4, take(buf, k)) && take(buf, k) =~= take(rest0, k)
        && rest1 =~= rest0.skip(k) && (k == 0 ==> rest0.len() == 0) ==> stdin_sent(t1.skip(n0), all, rest1, k == 0) }) {
    let k = rest0.len() - rest1.len();
    if stdin_sent(t0.skip(n0), all, rest0, false) && 0 <= n0 <= t0.len() && 0 <= k <= buf.len() && k < 0x1_0000_0000 && t1 =~= t0 + msg(4, take(buf, k)) && take(buf, k) =~= take(rest0, k) && rest1 =~= rest0.skip(k) && (k == 0 ==> rest0.len() == 0) {
        assert(take(buf, k) == rest0.subrange(0, k));
        assert(t1.skip(n0) =~= t0.skip(n0) + msg(4, rest0.subrange(0, k)));
        lemma_stdin_step(t0.skip(n0), all, rest0, k, t1.skip(n0));
    }
}
