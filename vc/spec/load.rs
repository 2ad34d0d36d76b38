// Meaning of a whole configuration
pub uninterp spec fn realpath_ok(cwd: Seq<u8>, p: Seq<u8>) -> bool;
pub uninterp spec fn realpath_of(cwd: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
// absolute path of a file name
pub open spec fn abs_ok(cwd: Seq<u8>, f: Seq<u8>) -> bool { f.len() == 0 || is_abs(f) || realpath_ok(cwd, cstr(f)) }
pub open spec fn abspath(cwd: Seq<u8>, f: Seq<u8>) -> Seq<u8> { if f.len() == 0 { cwd } else if is_abs(f) { f } else { realpath_of(cwd, cstr(f)) } }

pub open spec fn is_digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn digits(s: Seq<u8>, i: int) -> bool decreases s.len() - i { if i < 0 || i >= s.len() { true } else { is_digit(s[i]) && digits(s, i + 1) } }
pub open spec fn eqpos(w: Seq<u8>) -> int { sfindc(w, 61u8, 1) }
pub open spec fn has_eq(w: Seq<u8>) -> bool { eqpos(w) < w.len() }
pub open spec fn split_eq(w: Seq<u8>) -> (Seq<u8>, Seq<u8>) { (w.subrange(0, eqpos(w)), w.subrange(eqpos(w) + 1, w.len() as int)) }

pub ghost struct Cf { pub ok: bool, pub e: int, pub base: Seq<u8>, pub timeout: int }
pub open spec fn cfail() -> Cf { Cf { ok: false, e: 0, base: Seq::empty(), timeout: 0 } }
pub open spec fn key_base() -> Seq<u8> { seq![98u8, 97u8, 115u8, 101u8, 68u8, 105u8, 114u8, 101u8, 99u8, 116u8, 111u8, 114u8, 121u8] }
pub open spec fn key_timeout() -> Seq<u8> { seq![99u8, 111u8, 110u8, 110u8, 101u8, 99u8, 116u8, 84u8, 105u8, 109u8, 101u8, 111u8, 117u8, 116u8, 77u8, 115u8] }
pub open spec fn wd_path(wd: Seq<u8>, v: Seq<u8>) -> Seq<u8> { if is_abs(v) { v } else { wd.push(47u8) + v } }
// the settings before the first section
pub open spec fn settings(env: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, s: Seq<u8>, i: int, wd: Seq<u8>, base: Seq<u8>, timeout: int) -> Cf decreases s.len() - i {
    let j = skip_ws(s, i);
    if i < 0 || i > s.len() || j < i || j > s.len() { cfail() }
    else if at0(s, j) == 0 || at0(s, j) == 91 { Cf { ok: true, e: j, base, timeout } }
    else if at0(s, j) == 35 { let e = skip_comment(s, j + 1); if j < e <= s.len() { settings(env, cwd, s, e, wd, base, timeout) } else { cfail() } }
    else {
        let k = kv(env, s, j, Seq::empty());
        let l = lineend(s, k.e);
        if !k.ok || !l.ok || !(j < l.e <= s.len()) { cfail() }
        else if k.k =~= key_base() {
            if is_abs(k.v) || abs_ok(cwd, wd.push(47u8) + k.v) { settings(env, cwd, s, l.e, wd, norm(if is_abs(k.v) { k.v } else { abspath(cwd, wd.push(47u8) + k.v) }), timeout) } else { cfail() }
        }
        else if k.k =~= key_timeout() { if stoll_ok(k.v) { settings(env, cwd, s, l.e, wd, base, stoll_val(k.v)) } else { cfail() } }
        else { cfail() }
    }
}

// leading NAME=value words of a section
pub ghost struct Oe { pub envs: Seq<(Seq<u8>, Seq<u8>)>, pub rest: Seq<Seq<u8>> }
pub open spec fn is_option(w: Seq<u8>) -> bool { at0(w, 0) == 45 && at0(w, 1) == 45 }
pub open spec fn opt_envs(o: Seq<Seq<u8>>, k: int, envs: Seq<(Seq<u8>, Seq<u8>)>) -> Oe decreases o.len() - k {
    if k < 0 || k >= o.len() || is_option(o[k]) || !has_eq(o[k]) { Oe { envs, rest: o.subrange(k, o.len() as int) } }
    else { opt_envs(o, k + 1, envs.push(split_eq(o[k]))) }
}
// environment settings, program and arguments of a command line
pub ghost struct Ce { pub envs: Seq<(Seq<u8>, Seq<u8>)>, pub exe: Seq<Seq<u8>> }
pub open spec fn cmd_words(w: Seq<Seq<u8>>, j: int, envs: Seq<(Seq<u8>, Seq<u8>)>, exe: Seq<Seq<u8>>) -> Ce decreases w.len() - j {
    if j < 0 || j >= w.len() { Ce { envs, exe } }
    else if exe.len() > 0 || !has_eq(w[j]) { cmd_words(w, j + 1, envs, exe.push(w[j])) }
    else { cmd_words(w, j + 1, envs.push(split_eq(w[j])), exe) }
}
pub open spec fn mk_command(host: Configuration_Host, w: Seq<Seq<u8>>, envs: Seq<(Seq<u8>, Seq<u8>)>) -> Configuration_Command {
    let c = cmd_words(w, 1, envs, Seq::empty());
    Configuration_Command { _host: SP { nn: true, sh: true, v: host }, _name: w[0], _executable: if c.exe.len() > 0 { c.exe } else { seq![w[0]] }, _environmentVariables: c.envs }
}
pub ghost struct Cmds { pub hosts: Map<Seq<u8>, Map<Seq<u8>, Configuration_Command>>, pub all: Map<Seq<u8>, Configuration_Command> }
pub open spec fn cmds_of(m: Map<Seq<u8>, Map<Seq<u8>, Configuration_Command>>, h: Seq<u8>) -> Map<Seq<u8>, Configuration_Command> { if m.dom().contains(h) { m[h] } else { Map::empty() } }
pub open spec fn add_cmd(c: Cmds, x: Configuration_Command) -> Cmds {
    Cmds { hosts: c.hosts.insert(x._host.v._hostname, cmds_of(c.hosts, x._host.v._hostname).insert(x._name, x)), all: c.all.insert(x._name, x) }
}
// host[:port]
pub ghost struct Hp { pub ok: bool, pub name: Seq<u8>, pub port: int }
pub open spec fn hostport(h: Seq<u8>, next: int) -> Hp {
    let c = sfindc(h, 58u8, 0);
    if c >= h.len() { Hp { ok: next < 65536, name: h.subrange(0, h.len() as int), port: next } }
    else { let p = h.subrange(c + 1, h.len() as int); Hp { ok: digits(p, 0) && stoul_ok(p) && stoul_val(p) < 65536, name: h.subrange(0, c), port: stoul_val(p) } }
}
pub ghost struct Sec { pub ok: bool, pub cmds: Cmds }
pub open spec fn sfail() -> Sec { Sec { ok: false, cmds: Cmds { hosts: Map::empty(), all: Map::empty() } } }
pub open spec fn sections(env: Map<Seq<u8>, Seq<u8>>, s: Seq<u8>, i: int, host: Configuration_Host, next: int, envs: Seq<(Seq<u8>, Seq<u8>)>, c: Cmds) -> Sec decreases s.len() - i {
    let j = skip_ws(s, i);
    if i < 0 || i > s.len() || j < i || j > s.len() { sfail() }
    else if at0(s, j) == 0 { Sec { ok: true, cmds: c } }
    else if at0(s, j) == 35 { let e = skip_comment(s, j + 1); if j < e <= s.len() { sections(env, s, e, host, next, envs, c) } else { sfail() } }
    else if at0(s, j) == 91 {
        let h = hosttag(env, s, skip_blank(s, j + 1));
        let a = args(env, s, h.e, Seq::empty());
        let l = lineend(s, a.e);
        let p = hostport(h.v, next);
        let o = opt_envs(a.vs, 0, Seq::empty());
        if !h.ok || !a.ok || !l.ok || !(j < l.e <= s.len()) || !p.ok { sfail() }
        else { sections(env, s, l.e, Configuration_Host { _hostname: p.name, _port: p.port, _options: o.rest }, p.port + 1, o.envs, c) }
    }
    else {
        let a = args(env, s, j, Seq::empty());
        let l = lineend(s, a.e);
        if !a.ok || !l.ok || !(j < l.e <= s.len()) { sfail() }
        else { sections(env, s, l.e, host, next, envs, add_cmd(c, mk_command(host, a.vs, envs))) }
    }
}
pub ghost struct Ld { pub ok: bool, pub cfg: Configuration }
pub open spec fn no_host() -> Configuration_Host { Configuration_Host { _hostname: Seq::empty(), _port: 0, _options: Seq::empty() } }
pub open spec fn load(env: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, s: Seq<u8>, path: Seq<u8>) -> Ld {
    let wd = norm(abspath(cwd, path));
    let a = settings(env, cwd, s, 0, wd, wd, 30000);
    let b = sections(env, s, a.e, no_host(), 1120, Seq::empty(), Cmds { hosts: Map::empty(), all: Map::empty() });
    Ld { ok: abs_ok(cwd, path) && a.ok && b.ok, cfg: Configuration { _baseDirectory: a.base, _connectTimeoutMs: a.timeout, _hostCommands: b.cmds.hosts, _commands: b.cmds.all } }
}
pub proof fn lemma_cstr_nonul(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> s[k] != 0
    ensures cstr_len(s, i) == s.len()
    decreases s.len() - i
{ if i < s.len() { lemma_cstr_nonul(s, i + 1); } }
pub proof fn lemma_cstr_at(s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n < s.len(), s[n] == 0, forall|k: int| i <= k < n ==> s[k] != 0
    ensures cstr_len(s, i) == n
    decreases n - i
{ if i < n { lemma_cstr_at(s, i + 1, n); } }
// a buffer that holds the text t and its terminator
pub broadcast proof fn lemma_cstr_prefix(t: Seq<u8>, b: Seq<u8>)
    requires !t.contains(0u8), b.len() > t.len(), #[trigger] b.subrange(0, t.len() as int) =~= t, b[t.len() as int] == 0
    ensures cstr(b) == t
{
    assert forall|k: int| 0 <= k < t.len() implies b[k] != 0 by { assert(t[k] == b.subrange(0, t.len() as int)[k]); assert(t.contains(t[k])); }
    lemma_cstr_at(b, 0, t.len() as int);
}

// two assignments to one key are one
pub broadcast proof fn lemma_insert2<K, W>(m: Map<K, W>, k: K, a: W, b: W)
    ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b)
{ assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b)); }

// the name of a command line is not looked at again
pub broadcast proof fn lemma_cmd_words_name(w: Seq<Seq<u8>>, x: Seq<u8>, j: int, envs: Seq<(Seq<u8>, Seq<u8>)>, exe: Seq<Seq<u8>>)
    requires j >= 1, w.len() > 0
    ensures #[trigger] cmd_words(w.update(0, x), j, envs, exe) == cmd_words(w, j, envs, exe)
    decreases w.len() - j
{
    let v = w.update(0, x);
    if j < w.len() {
        assert(v[j] == w[j]);
        if exe.len() > 0 || !has_eq(w[j]) { lemma_cmd_words_name(w, x, j + 1, envs, exe.push(w[j])); } else { lemma_cmd_words_name(w, x, j + 1, envs.push(split_eq(w[j])), exe); }
    }
}

// white space in front makes no difference
pub broadcast proof fn lemma_settings_skip(env: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, s: Seq<u8>, i: int, wd: Seq<u8>, base: Seq<u8>, timeout: int)
    requires 0 <= i <= s.len()
    ensures #[trigger] settings(env, cwd, s, skip_ws(s, i), wd, base, timeout) == settings(env, cwd, s, i, wd, base, timeout)
{ lemma_skip_ws(s, i); }
pub broadcast proof fn lemma_sections_skip(env: Map<Seq<u8>, Seq<u8>>, s: Seq<u8>, i: int, host: Configuration_Host, next: int, envs: Seq<(Seq<u8>, Seq<u8>)>, c: Cmds)
    requires 0 <= i <= s.len()
    ensures #[trigger] sections(env, s, skip_ws(s, i), host, next, envs, c) == sections(env, s, i, host, next, envs, c)
{ lemma_skip_ws(s, i); }
pub proof fn lemma_skip_ws(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= skip_ws(s, i) <= s.len(), skip_ws(s, skip_ws(s, i)) == skip_ws(s, i)
    decreases s.len() - i
{ if i < s.len() && is_ws(at0(s, i)) { lemma_skip_ws(s, i + 1); } }
