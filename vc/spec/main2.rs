// ---- server
// The arguments of the server: options that are applied after those of the configuration (held back), the configuration and the name.
// k: 0 serve, 1 print usage, 2 print version, 3 not valid
pub ghost struct SArgs { pub k: int, pub held: Seq<Seq<u8>>, pub cfg: OptionalString, pub name: Seq<u8>, pub ignore: bool }
pub open spec fn is_flag(a: Seq<u8>) -> bool {
    a == b"-b" || a == b"--background" || a == b"-d" || a == b"--disable-client-executables" || a == b"-k" || a == b"--keep-client-executables"
    || a == b"-l" || a == b"--generate-local-executables" || a == b"-o" || a == b"--overwrite-client-executables" || a == b"-w" || a == b"--no-wait"
}
pub open spec fn o_dir(a: Seq<u8>) -> int { opt_kind(a, b"-e", b"--executable-directory") }
pub open spec fn o_max(a: Seq<u8>) -> int { opt_kind(a, b"-m", b"--max-connections") }
pub open spec fn o_pid(a: Seq<u8>) -> int { opt_kind(a, b"-p", b"--pidfile") }
pub open spec fn o_time(a: Seq<u8>) -> int { opt_kind(a, b"-t", b"--timeout") }
pub open spec fn o_conf(a: Seq<u8>) -> int { opt_kind(a, b"-c", b"--config") }
pub open spec fn o_name(a: Seq<u8>) -> int { opt_kind(a, b"-n", b"--name") }
pub open spec fn o_long(a: Seq<u8>) -> Seq<u8> { if o_dir(a) != 0 { b"--executable-directory" } else if o_max(a) != 0 { b"--max-connections" } else if o_pid(a) != 0 { b"--pidfile" } else { b"--timeout" } }
pub open spec fn o_held(a: Seq<u8>) -> int { if o_dir(a) != 0 { o_dir(a) } else if o_max(a) != 0 { o_max(a) } else if o_pid(a) != 0 { o_pid(a) } else { o_time(a) } }
pub open spec fn sargs(k: int, held: Seq<Seq<u8>>, cfg: OptionalString, name: Seq<u8>, ignore: bool) -> SArgs { SArgs { k, held, cfg, name, ignore } }
pub open spec fn server_args(argv: Seq<CP>, n: int, i: int, held: Seq<Seq<u8>>, cfg: OptionalString, name: Seq<u8>, ignore: bool) -> SArgs decreases n - i {
    if i < 0 || i >= n { sargs(0, held, cfg, name, ignore) } else {
        let a = argv[i].s;
        let last = i + 1 == n;
        let next = argv[i + 1].s;
        if is_flag(a) { server_args(argv, n, i + 1, held.push(a), cfg, name, ignore) }
        else if o_held(a) != 0 {
            if o_held(a) == 2 { server_args(argv, n, i + 1, held.push(o_long(a)).push(opt_text(a, o_long(a))), cfg, name, ignore) }
            else if last { sargs(3, held, cfg, name, ignore) }
            else { server_args(argv, n, i + 2, held.push(a).push(next), cfg, name, ignore) }
        }
        else if o_conf(a) != 0 {
            if o_conf(a) == 2 { server_args(argv, n, i + 1, held, some(opt_text(a, b"--config")), name, ignore) }
            else if last { sargs(3, held, cfg, name, ignore) } else { server_args(argv, n, i + 2, held, some(next), name, ignore) }
        }
        else if o_name(a) != 0 {
            if o_name(a) == 2 { server_args(argv, n, i + 1, held, cfg, opt_text(a, b"--name"), ignore) }
            else if last { sargs(3, held, cfg, name, ignore) } else { server_args(argv, n, i + 2, held, cfg, next, ignore) }
        }
        else if a == b"-h" || a == b"--help" { sargs(1, held, cfg, name, ignore) }
        else if a == b"-i" || a == b"--ignore-invalid-arguments" { server_args(argv, n, i + 1, held, cfg, name, true) }
        else if a == b"-s" || a == b"--server" { server_args(argv, n, i + 1, held, cfg, name, ignore) }
        else if a == b"-v" || a == b"--version" { sargs(2, held, cfg, name, ignore) }
        else if ignore { server_args(argv, n, i + 1, held, cfg, name, ignore) }
        else { sargs(3, held, cfg, name, ignore) }
    }
}
// The settings of the server
pub ghost struct SOpt { pub ok: bool, pub daemon: bool, pub disable: bool, pub local: bool, pub ignore: bool, pub keep: bool, pub over: bool, pub wait: bool, pub dir: Seq<u8>, pub max: Seq<u8>, pub pid: Seq<u8>, pub time: Seq<u8> }
// the next of the options d[i..n), which takes its value from before n: where to go on, and the settings
pub ghost struct SStep { pub i: int, pub s: SOpt }
pub open spec fn sstep(i: int, s: SOpt) -> SStep { SStep { i, s } }
pub open spec fn opt_step(d: Seq<Seq<u8>>, i: int, n: int, s: SOpt) -> SStep {
    let a = d[i];
    let last = i + 1 == n;
    let bad = sstep(i + 1, SOpt { ok: false, ..s });
    if a == b"-b" || a == b"--background" { sstep(i + 1, SOpt { daemon: true, ..s }) }
    else if a == b"-d" || a == b"--disable-client-executables" { sstep(i + 1, SOpt { disable: true, ..s }) }
    else if o_dir(a) != 0 {
        if o_dir(a) == 2 { sstep(i + 1, SOpt { dir: opt_text(a, b"--executable-directory").push(47u8), ..s }) }
        else if last { bad } else { sstep(i + 2, SOpt { dir: d[i + 1].push(47u8), ..s }) }
    }
    else if a == b"-i" || a == b"--ignore-invalid-arguments" { sstep(i + 1, SOpt { ignore: true, ..s }) }
    else if a == b"-k" || a == b"--keep-client-executables" { sstep(i + 1, SOpt { keep: true, ..s }) }
    else if a == b"-l" || a == b"--generate-local-executables" { sstep(i + 1, SOpt { local: true, ..s }) }
    else if o_max(a) != 0 {
        if o_max(a) == 2 { sstep(i + 1, SOpt { max: opt_text(a, b"--max-connections"), ..s }) }
        else if last { bad } else { sstep(i + 2, SOpt { max: d[i + 1], ..s }) }
    }
    else if o_pid(a) != 0 {
        if o_pid(a) == 2 { sstep(i + 1, SOpt { pid: opt_text(a, b"--pidfile"), ..s }) }
        else if last { bad } else { sstep(i + 2, SOpt { pid: d[i + 1], ..s }) }
    }
    else if o_time(a) != 0 {
        if o_time(a) == 2 { sstep(i + 1, SOpt { time: opt_text(a, b"--timeout"), ..s }) }
        else if last { bad } else { sstep(i + 2, SOpt { time: d[i + 1], ..s }) }
    }
    else if a == b"-o" || a == b"--overwrite-client-executables" { sstep(i + 1, SOpt { over: true, ..s }) }
    else if a == b"-w" || a == b"--no-wait" { sstep(i + 1, SOpt { wait: false, ..s }) }
    else if s.ignore { sstep(i + 1, s) }
    else { bad }
}
pub open spec fn server_opts(d: Seq<Seq<u8>>, i: int, n: int, s: SOpt) -> SOpt decreases n - i {
    if i < 0 || i >= n || !s.ok { s } else { let t = opt_step(d, i, n, s); server_opts(d, t.i, n, t.s) }
}
// first the options d[i..m), then those from m on
#[verifier::opaque]
pub open spec fn opts2(d: Seq<Seq<u8>>, i: int, m: int, s: SOpt) -> SOpt { server_opts(d, m, d.len() as int, server_opts(d, i, m, s)) }
pub open spec fn s_pidfile() -> Seq<u8> { b"/run/k8pshd.pid" }
pub open spec fn opts0(ignore: bool, keep: bool) -> SOpt { SOpt { ok: true, daemon: false, disable: false, local: false, ignore, keep, over: false, wait: true, dir: Seq::empty(), max: b"-1", pid: s_pidfile(), time: b"-1" } }
// Everything the server is told: the name it goes by, its configuration, whether it serves commands, its host, its options
pub ghost struct Srv { pub ok: bool, pub name: Seq<u8>, pub cfg: Configuration, pub serves: bool, pub cmds: Map<Seq<u8>, Configuration_Command>, pub host: Configuration_Host, pub o: SOpt }
pub open spec fn s_name() -> Seq<u8> { b"K8PSH_NAME" }
pub open spec fn server_name(n: Seq<u8>, env: Map<Seq<u8>, Seq<u8>>, host: Seq<u8>) -> Seq<u8> { if n.len() > 0 { n } else if env.dom().contains(s_name()) { env[s_name()] } else { host } }
pub open spec fn server(argv: Seq<CP>, n: int, env: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, disk: Map<Seq<u8>, Seq<u8>>, hostname: Seq<u8>) -> Srv {
    let a = server_args(argv, n, 1, Seq::empty(), none(), Seq::empty(), false);
    let l = conf_of(env, cwd, disk, config_file(env, a.cfg));
    let name = server_name(a.name, env, hostname);
    let cmds = cmds_of(l.cfg._hostCommands, name);
    let serves = l.cfg._hostCommands.dom().contains(name) && mapkeys(cmds).len() > 0;
    let host = cmds[mapkeys(cmds)[0]]._host.v;
    let d = if serves { host._options + a.held } else { a.held };
    let m = if serves && host._options.len() > 0 { host._options.len() as int } else { d.len() as int };
    Srv { ok: a.k == 0 && l.ok && (a.name.len() > 0 || env.dom().contains(s_name()) || hostname.len() > 0), name, cfg: l.cfg, serves, cmds, host, o: opts2(d, 0, m, opts0(a.ignore, !serves)) }
}
pub open spec fn absolute(cwd: Seq<u8>, p: Seq<u8>, daemon: bool) -> Seq<u8> { if daemon && !is_abs(p) { cwd.push(47u8) + p } else { p } }
pub open spec fn exe_dir(s: Srv, cwd: Seq<u8>) -> Seq<u8> { absolute(cwd, s.o.dir, s.o.daemon) }
pub open spec fn pid_name(s: Srv, cwd: Seq<u8>) -> Seq<u8> { if s.o.pid.len() == 0 { s.o.pid } else { absolute(cwd, s.o.pid, s.o.daemon) } }
// the file that is the client executable of a command, and whether it is made
pub open spec fn exe_file(s: Srv, cwd: Seq<u8>, k: Seq<u8>) -> Seq<u8> { fileid(cwd, cstr(exe_dir(s, cwd) + s.cfg._commands[k]._name)) }
pub open spec fn wanted(s: Srv, k: Seq<u8>) -> bool { !s.o.disable && (s.o.local || s.name != s.cfg._commands[k]._host.v._hostname) }
// client executables of the first n commands; files that had to make way for them
pub open spec fn exe_links(s: Srv, cwd: Seq<u8>, exe: Seq<u8>, n: int) -> Map<Seq<u8>, Seq<u8>> decreases n {
    if n <= 0 { Map::empty() } else { let k = mapkeys(s.cfg._commands)[n - 1]; if wanted(s, k) { exe_links(s, cwd, exe, n - 1).insert(exe_file(s, cwd, k), exe) } else { exe_links(s, cwd, exe, n - 1) } }
}
pub open spec fn exe_removed(s: Srv, cwd: Seq<u8>, n: int) -> Set<Seq<u8>> decreases n {
    if n <= 0 { Set::empty() } else { let k = mapkeys(s.cfg._commands)[n - 1]; if s.o.disable || s.o.over { exe_removed(s, cwd, n - 1).insert(exe_file(s, cwd, k)) } else { exe_removed(s, cwd, n - 1) } }
}
pub open spec fn all_links(s: Srv, cwd: Seq<u8>, exe: Seq<u8>) -> Map<Seq<u8>, Seq<u8>> { exe_links(s, cwd, exe, mapkeys(s.cfg._commands).len() as int) }
pub open spec fn all_removed(s: Srv, cwd: Seq<u8>) -> Set<Seq<u8>> { exe_removed(s, cwd, mapkeys(s.cfg._commands).len() as int) }
// no two commands have the same client executable
pub open spec fn distinct_files(s: Srv, cwd: Seq<u8>) -> bool {
    forall|a: int, b: int| 0 <= a < b < mapkeys(s.cfg._commands).len() ==> #[trigger] exe_file(s, cwd, mapkeys(s.cfg._commands)[a]) != #[trigger] exe_file(s, cwd, mapkeys(s.cfg._commands)[b])
}
pub proof fn lemma_opts2(d: Seq<Seq<u8>>, i: int, m: int, s: SOpt)
    ensures i == m && 0 <= i <= d.len() ==> opts2(d, i, m, s) == opts2(d, i, d.len() as int, s) {
    reveal(opts2);
    if i == m && 0 <= i <= d.len() {
        let n = d.len() as int;
        assert(server_opts(d, i, m, s) == s);
        let t = server_opts(d, i, n, s);
        assert(server_opts(d, n, n, t) == t);
    }
}
pub proof fn lemma_opts_step(d: Seq<Seq<u8>>, i: int, m: int, s: SOpt)
    ensures 0 <= i < m && s.ok ==> opts2(d, i, m, s) == opts2(d, opt_step(d, i, m, s).i, m, opt_step(d, i, m, s).s), 0 <= i < m && s.ok && !opt_step(d, i, m, s).s.ok ==> !opts2(d, i, m, s).ok {
    reveal(opts2);
    if 0 <= i < m && s.ok { let t = opt_step(d, i, m, s); assert(server_opts(d, t.i, m, t.s) == server_opts(d, i, m, s)); if !t.s.ok { assert(server_opts(d, t.i, m, t.s) == t.s); assert(server_opts(d, m, d.len() as int, t.s) == t.s); } }
}
pub proof fn lemma_opts_end(d: Seq<Seq<u8>>, i: int, m: int, s: SOpt)
    ensures i == m && m == d.len() ==> opts2(d, i, m, s) == s { reveal(opts2); }
// ---- files that were created, and where they are when the working directory changes
pub open spec fn cfile(cwd: Seq<u8>, p: Seq<u8>) -> Seq<u8> { fileid(cwd, cstr(p)) }
pub proof fn lemma_cstr_len_ge(s: Seq<u8>, i: int) requires 0 <= i ensures i <= cstr_len(s, i) decreases s.len() - i { if i < s.len() && s[i] != 0 { lemma_cstr_len_ge(s, i + 1); } }
pub proof fn lemma_abs_file(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>) ensures is_abs(p) || a == b ==> cfile(a, p) == cfile(b, p) {
    if is_abs(p) { lemma_cstr_len_ge(p, 1); lemma_cstr_le(p, 0); assert(cstr_len(p, 0) == cstr_len(p, 1)); assert(cstr(p)[0] == p[0]); }
}
pub proof fn lemma_cstr_le(s: Seq<u8>, i: int) ensures i <= s.len() ==> cstr_len(s, i) <= s.len() decreases s.len() - i { if 0 <= i < s.len() && s[i] != 0 { lemma_cstr_le(s, i + 1); } }
pub open spec fn all_abs(c: Seq<Seq<u8>>) -> bool { forall|j: int| 0 <= j < c.len() ==> is_abs(#[trigger] c[j]) }
// the links that exist are those with the names c[k..), which are all different
#[verifier::opaque]
pub open spec fn created_ok(l: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, c: Seq<Seq<u8>>, k: int) -> bool {
    &&& forall|j: int| k <= j < c.len() ==> l.dom().contains(cfile(cwd, #[trigger] c[j]))
    &&& forall|f: Seq<u8>| #[trigger] l.dom().contains(f) ==> exists|j: int| k <= j < c.len() && f == cfile(cwd, #[trigger] c[j])
    &&& forall|i: int, j: int| k <= i < j < c.len() ==> cfile(cwd, #[trigger] c[i]) != cfile(cwd, #[trigger] c[j])
}
pub proof fn lemma_created_none(cwd: Seq<u8>) ensures created_ok(Map::empty(), cwd, Seq::empty(), 0) { reveal(created_ok); }
pub proof fn lemma_created_push(l: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, c: Seq<Seq<u8>>, p: Seq<u8>, t: Seq<u8>)
    ensures created_ok(l, cwd, c, 0) && !l.dom().contains(cfile(cwd, p)) ==> created_ok(l.insert(cfile(cwd, p), t), cwd, c.push(p), 0) {
    reveal(created_ok);
    if created_ok(l, cwd, c, 0) && !l.dom().contains(cfile(cwd, p)) {
        let l2 = l.insert(cfile(cwd, p), t); let d = c.push(p);
        assert forall|f: Seq<u8>| #[trigger] l2.dom().contains(f) implies exists|j: int| 0 <= j < d.len() && f == cfile(cwd, #[trigger] d[j]) by {
            if l.dom().contains(f) { let j = choose|j: int| 0 <= j < c.len() && f == cfile(cwd, #[trigger] c[j]); assert(d[j] == c[j]); } else { assert(d[c.len() as int] == p); }
        }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies cfile(cwd, #[trigger] d[i]) != cfile(cwd, #[trigger] d[j]) by {
            assert(d[i] == c[i]); if j < c.len() { assert(d[j] == c[j]); } else { assert(l.dom().contains(cfile(cwd, c[i]))); }
        }
        assert forall|j: int| 0 <= j < d.len() implies l2.dom().contains(cfile(cwd, #[trigger] d[j])) by { if j < c.len() { assert(d[j] == c[j]); } }
    }
}
pub proof fn lemma_created_pop(l: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, c: Seq<Seq<u8>>, k: int)
    ensures created_ok(l, cwd, c, k) && 0 <= k < c.len() ==> l.dom().contains(cfile(cwd, c[k])) && created_ok(l.remove(cfile(cwd, c[k])), cwd, c, k + 1) {
    reveal(created_ok);
    if created_ok(l, cwd, c, k) && 0 <= k < c.len() {
        assert(l.dom().contains(cfile(cwd, c[k])));
        let l2 = l.remove(cfile(cwd, c[k]));
        assert forall|f: Seq<u8>| #[trigger] l2.dom().contains(f) implies exists|j: int| k + 1 <= j < c.len() && f == cfile(cwd, #[trigger] c[j]) by {
            assert(l.dom().contains(f)); let j = choose|j: int| k <= j < c.len() && f == cfile(cwd, #[trigger] c[j]); assert(j != k);
        }
    }
}
pub proof fn lemma_created_end(l: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, c: Seq<Seq<u8>>, k: int) ensures created_ok(l, cwd, c, k) && k >= c.len() ==> l =~= Map::empty() {
    reveal(created_ok);
    if created_ok(l, cwd, c, k) && k >= c.len() { assert forall|f: Seq<u8>| !l.dom().contains(f) by { if l.dom().contains(f) { let j = choose|j: int| k <= j < c.len() && f == cfile(cwd, #[trigger] c[j]); } } assert(l.dom() =~= Set::empty()); }
}
pub proof fn lemma_created_cwd(l: Map<Seq<u8>, Seq<u8>>, a: Seq<u8>, b: Seq<u8>, c: Seq<Seq<u8>>, k: int)
    ensures (a == b || all_abs(c)) && k >= 0 && created_ok(l, a, c, k) ==> created_ok(l, b, c, k) {
    reveal(created_ok);
    if (a == b || all_abs(c)) && k >= 0 && created_ok(l, a, c, k) {
        assert forall|j: int| 0 <= j < c.len() implies cfile(a, #[trigger] c[j]) == cfile(b, c[j]) by { lemma_abs_file(c[j], a, b); }
        assert forall|f: Seq<u8>| #[trigger] l.dom().contains(f) implies exists|j: int| k <= j < c.len() && f == cfile(b, #[trigger] c[j]) by { let j = choose|j: int| k <= j < c.len() && f == cfile(a, #[trigger] c[j]); assert(f == cfile(b, c[j])); }
        assert forall|i: int, j: int| k <= i < j < c.len() implies cfile(b, #[trigger] c[i]) != cfile(b, #[trigger] c[j]) by { assert(cfile(a, c[i]) != cfile(a, c[j])); }
        assert forall|j: int| k <= j < c.len() implies l.dom().contains(cfile(b, #[trigger] c[j])) by { assert(l.dom().contains(cfile(a, c[j]))); }
    }
}
// a command's client executable is not among those made before
pub proof fn lemma_exe_in(s: Srv, cwd: Seq<u8>, exe: Seq<u8>, n: int, m: int)
    ensures distinct_files(s, cwd) && 0 <= n <= m < mapkeys(s.cfg._commands).len() ==> !exe_links(s, cwd, exe, n).dom().contains(exe_file(s, cwd, mapkeys(s.cfg._commands)[m]))
    decreases n {
    if distinct_files(s, cwd) && 0 < n <= m < mapkeys(s.cfg._commands).len() { lemma_exe_in(s, cwd, exe, n - 1, m); }
}
pub proof fn lemma_exe_kept(s: Srv, cwd: Seq<u8>, n: int) ensures !s.o.disable && !s.o.over ==> exe_removed(s, cwd, n) =~= Set::empty() decreases n {
    if n > 0 { lemma_exe_kept(s, cwd, n - 1); }
}
pub proof fn lemma_cstr_clean(s: Seq<u8>, i: int, k: int) requires 0 <= i <= k < cstr_len(s, i) ensures k < s.len() && s[k] != 0 decreases k - i { if i < k { lemma_cstr_clean(s, i + 1, k); } }
pub proof fn lemma_cstr_twice(s: Seq<u8>) ensures cstr(cstr(s)) == cstr(s) {
    lemma_cstr_le(s, 0); lemma_cstr_len_ge(s, 0);
    assert forall|k: int| 0 <= k < cstr(s).len() implies cstr(s)[k] != 0 by { lemma_cstr_clean(s, 0, k); }
    lemma_cstr_nonul(cstr(s), 0); assert(cstr(cstr(s)) =~= cstr(s));
}
pub proof fn lemma_abs_all(p: Seq<u8>, a: Seq<u8>) ensures is_abs(p) ==> forall|b: Seq<u8>| #[trigger] fileid(b, cstr(p)) == fileid(a, cstr(p)) {
    assert forall|b: Seq<u8>| is_abs(p) implies #[trigger] fileid(b, cstr(p)) == fileid(a, cstr(p)) by { lemma_abs_file(p, a, b); }
}
