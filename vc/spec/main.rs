// Command line options: 0 not this option, 1 the value is the next argument, 2 the value follows an equals sign
#[verifier::opaque]
pub open spec fn opt_kind(a: Seq<u8>, short: Seq<u8>, long: Seq<u8>) -> int {
    if short.len() > 0 && a =~= short || a =~= long { 1 } else if a.len() > long.len() && ssub(a, 0, (long.len() + 1) as int) == long + seq![61u8] { 2 } else { 0 }
}
#[verifier::opaque]
pub open spec fn opt_text(a: Seq<u8>, long: Seq<u8>) -> Seq<u8> { a.subrange((long.len() + 1) as int, a.len() as int) }
pub open spec fn s_config() -> Seq<u8> { seq![75u8, 56u8, 80u8, 83u8, 72u8, 95u8, 67u8, 79u8, 78u8, 70u8, 73u8, 71u8] }
pub open spec fn s_default() -> Seq<u8> { seq![107u8, 56u8, 112u8, 115u8, 104u8, 46u8, 99u8, 111u8, 110u8, 102u8] }
// the configuration file: named by the option, else by K8PSH_CONFIG, else k8psh.conf
pub open spec fn config_file(env: Map<Seq<u8>, Seq<u8>>, c: OptionalString) -> Seq<u8> { if c._exists { c.base } else if env.dom().contains(s_config()) { env[s_config()] } else { s_default() } }
pub open spec fn conf_of(env: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, disk: Map<Seq<u8>, Seq<u8>>, f: Seq<u8>) -> Ld { load(env, cwd, disk[fileid(cwd, cstr(f))], parent_dir(f)) }

// What the arguments of the client ask for: 0 run a command, 1 print usage, 2 print version, 3 act as server, 4 install, 5 nothing valid
pub ghost struct CAct { pub k: int, pub name: Seq<u8>, pub i: int, pub cfg: OptionalString }
pub open spec fn s_client() -> Seq<u8> { seq![107u8, 56u8, 112u8, 115u8, 104u8] }
pub open spec fn s_server() -> Seq<u8> { seq![107u8, 56u8, 112u8, 115u8, 104u8, 100u8] }
pub open spec fn some(s: Seq<u8>) -> OptionalString { OptionalString { base: s, _exists: true } }
pub open spec fn none() -> OptionalString { OptionalString { base: Seq::empty(), _exists: false } }
pub open spec fn cact(k: int, name: Seq<u8>, i: int, cfg: OptionalString) -> CAct { CAct { k, name, i, cfg } }
pub open spec fn client_args(argv: Seq<CP>, n: int, i: int, cfg: OptionalString) -> CAct decreases n - i {
    if i < 0 || i >= n { cact(0, s_client(), i, cfg) } else {
        let a = argv[i].s;
        let c = opt_kind(a, b"-c", b"--config");
        let f = opt_kind(a, b"", b"--install");
        if c != 0 { if c == 2 { client_args(argv, n, i + 1, some(opt_text(a, b"--config"))) } else if i + 1 == n { cact(5, a, i, cfg) } else { client_args(argv, n, i + 2, some(argv[i + 1].s)) } }
        else if a == b"-h" || a == b"--help" { cact(1, a, i, cfg) }
        else if f != 0 { if f == 2 { cact(4, opt_text(a, b"--install"), i, cfg) } else if i + 1 == n { cact(5, a, i, cfg) } else { cact(4, argv[i + 1].s, i, cfg) } }
        else if a == b"-s" || a == b"--server" { cact(3, a, i, cfg) }
        else if a == b"-v" || a == b"--version" { cact(2, a, i, cfg) }
        else { cact(0, a, i + 1, cfg) }
    }
}
// what the program was asked to do: the name it was called by, then its arguments
pub open spec fn client_act(argv: Seq<CP>, n: int) -> CAct {
    if basename(argv[0].s) == s_client() { client_args(argv, n, 1, none()) } else { cact(0, basename(argv[0].s), 1, none()) }
}
pub open spec fn is_server(argv: Seq<CP>, n: int) -> bool { basename(argv[0].s) == s_server() || basename(argv[0].s) == s_client() && client_args(argv, n, 1, none()).k == 3 }
pub proof fn lemma_cstr_id(s: Seq<u8>) requires !s.contains(0u8) ensures cstr(s) == s {
    assert forall|k: int| 0 <= k < s.len() implies s[k] != 0 by { assert(s.contains(s[k])); }
    lemma_cstr_nonul(s, 0); assert(cstr(s) =~= s);
}
// what is true of every configuration that could be loaded
pub broadcast axiom fn axiom_stoul_range(s: Seq<u8>) ensures 0 <= #[trigger] stoul_val(s);
pub open spec fn cmd_good(c: Configuration_Command, k: Seq<u8>) -> bool { c._host.nn && 0 <= c._host.v._port <= 0xffff && c._executable.len() > 0 && c._name == k }
pub open spec fn cmds_good(c: Cmds) -> bool {
    (forall|k: Seq<u8>| #[trigger] c.all.dom().contains(k) ==> cmd_good(c.all[k], k))
    && (forall|h: Seq<u8>, k: Seq<u8>| c.hosts.dom().contains(h) && #[trigger] c.hosts[h].dom().contains(k) ==> cmd_good(c.hosts[h][k], k) && c.hosts[h][k]._host.v._hostname == h)
}
pub proof fn lemma_sections_good(env: Map<Seq<u8>, Seq<u8>>, s: Seq<u8>, i: int, host: Configuration_Host, next: int, envs: Seq<(Seq<u8>, Seq<u8>)>, c: Cmds)
    requires cmds_good(c), 0 <= host._port <= 0xffff, 0 <= next ensures ({ let r = sections(env, s, i, host, next, envs, c); r.ok ==> cmds_good(r.cmds) }) decreases s.len() - i
{
    broadcast use axiom_stoul_range;
    let j = skip_ws(s, i);
    if i < 0 || i > s.len() || j < i || j > s.len() || at0(s, j) == 0 {}
    else if at0(s, j) == 35 { let e = skip_comment(s, j + 1); if j < e <= s.len() { lemma_sections_good(env, s, e, host, next, envs, c); } }
    else if at0(s, j) == 91 {
        let h = hosttag(env, s, skip_blank(s, j + 1));
        let a = args(env, s, h.e, Seq::empty());
        let l = lineend(s, a.e);
        let p = hostport(h.v, next);
        let o = opt_envs(a.vs, 0, Seq::empty());
        if h.ok && a.ok && l.ok && j < l.e <= s.len() && p.ok { lemma_sections_good(env, s, l.e, Configuration_Host { _hostname: p.name, _port: p.port, _options: o.rest }, p.port + 1, o.envs, c); }
    } else {
        let a = args(env, s, j, Seq::empty());
        let l = lineend(s, a.e);
        if a.ok && l.ok && j < l.e <= s.len() {
            let x = mk_command(host, a.vs, envs);
            let d = add_cmd(c, x);
            assert(cmd_good(x, x._name));
            assert forall|h: Seq<u8>, k: Seq<u8>| d.hosts.dom().contains(h) && #[trigger] d.hosts[h].dom().contains(k) implies cmd_good(d.hosts[h][k], k) && d.hosts[h][k]._host.v._hostname == h by {
                if h == host._hostname && k != x._name { assert(cmds_of(c.hosts, h).dom().contains(k)); }
            }
            lemma_sections_good(env, s, l.e, host, next, envs, d);
        }
    }
}
pub proof fn lemma_load_good(env: Map<Seq<u8>, Seq<u8>>, cwd: Seq<u8>, s: Seq<u8>, path: Seq<u8>)
    ensures ({ let l = load(env, cwd, s, path); l.ok ==> cmds_good(Cmds { hosts: l.cfg._hostCommands, all: l.cfg._commands }) })
{
    let wd = norm(abspath(cwd, path));
    let a = settings(env, cwd, s, 0, wd, wd, 30000);
    lemma_sections_good(env, s, a.e, no_host(), 1120, Seq::empty(), Cmds { hosts: Map::empty(), all: Map::empty() });
}
pub broadcast proof fn lemma_opt_kind(a: Seq<u8>, short: Seq<u8>, long: Seq<u8>) ensures 0 <= #[trigger] opt_kind(a, short, long) <= 2 { reveal(opt_kind); }
