"""Contracts of Main.cxx, and of the functions of Utilities.cxx only used there"""
from contract import Contract as C, Loop as L

OPT = 'opt_kind({argument}, {shortOption}, {option})'
OPTV = 'opt_value({argument}, {option}, {next})'


def parse_option(match, at):
    v = f'(if {OPT} == 1 {{ {at} }} else {{ opt_text({{argument}}, {{option}}) }})'
    return C('parseOption', entry_hints=['reveal(opt_kind); reveal(opt_text);', 'let a = {argument}; let o = {option}; if a.len() > o.len() { let x = ssub(a, 0, (o.len() + 1) as int); let y = o + seq![61u8]; assert(ssub(a, 0, o.len() as int).len() == o.len() && x.len() == y.len()); assert(a[o.len() as int] == x[o.len() as int] && y[o.len() as int] == 61u8); assert(ssub(a, 0, o.len() as int) =~= x.subrange(0, o.len() as int) && o =~= y.subrange(0, o.len() as int)); if ssub(a, 0, o.len() as int) == o && a[o.len() as int] == 61u8 { assert forall|k: int| 0 <= k < x.len() implies #[trigger] x[k] == y[k] by { if k < o.len() { assert(x[k] == ssub(a, 0, o.len() as int)[k]); assert(y[k] == o[k]); } } assert(x =~= y); } }'], props='C14 C22 C17 C18', params='argument shortOption option expecting index argumentCount arguments value deferredArgs', match=match, ptr={'deferredArgs': 'object'},
             requires=[('an argument', '0 <= {index} < {argumentCount} <= {arguments}.len()'), ('arguments', 'forall|k: int| 0 <= k < {argumentCount} ==> (#[trigger] {arguments}[k]).nn' if 'char' in match else 'true')],
             throws=f'{OPT} == 1 && {{index}} + 1 == {{argumentCount}}', throws_props='C14', modifies='index value deferredArgs',
             ensures=[('recognized in every form', f'{{ret}} == ({OPT} != 0) && 0 <= {OPT} <= 2', 'C14'), ('the value is consumed', f'{{index}} == {{index@pre}} + b2i({OPT} == 1)', 'C14'),
                      ('the value is taken', f'{{value}} == (if {OPT} != 0 && {{deferredArgs@null}} {{ {v} }} else {{ {{value@pre}} }})', 'C14'),
                      ('or deferred', f'!{{deferredArgs@null}} ==> {{deferredArgs}} =~= (if {OPT} == 1 {{ {{deferredArgs@pre}}.push({{argument}}).push({v}) }} else if {OPT} == 2 {{ {{deferredArgs@pre}}.push({{option}}).push({v}) }} else {{ {{deferredArgs@pre}} }})', 'C14')])


CONTRACTS = [
    parse_option('char **', '{arguments}[{index@pre} + 1].s'),
    parse_option('const std::vector', '{arguments}[{index@pre} + 1]'),
    C('k8psh::Utilities::readFile', 'C22', 'filename', throws='may', modifies='w.errno w.failed w.fpath w.fpos w.fclosed w.fd',
      ensures=[('the contents of the file', '{ret._exists} ==> {w.disk}.dom().contains(fileid({w.cwd}, cstr({filename}))) && {ret.base} == {w.disk}[fileid({w.cwd}, cstr({filename}))]', 'C22'), ('a file that can be opened is read', '{w.failed} == ({w.failed@pre} || !{ret._exists})', 'C22'),
               ('nothing stays open', '{w.fd} == {w.fd@pre} && {w.fclosed} == {w.fclosed@pre}')],
      exc_ensures=[('only when it cannot be read', '{w.failed}', 'C22'), ('no descriptor changed', '{w.fd} == {w.fd@pre} && {w.fclosed} == {w.fclosed@pre}')]),
    C('k8psh::Utilities::getExecutablePath', 'C13 C17', '', modifies='w.errno w.failed', opts={'statics': {'initialBufferSize': '1 <= {it} <= 0x3fff_ffff_ffff_ffff'}},
      ensures=[('the program that runs', '{ret} == {w.exe}', 'C13 C17')], loops={0: L(inv=['1 <= {buffer}.len() <= MAXLEN()', 'forall|k: int| {w.exe}.len() <= k < {buffer}.len() ==> #[trigger] {buffer}[k] == 0'], decr=['{w.exe}.len() + 1 - {buffer}.len()'])}),
    C('k8psh::Utilities::getHostname', 'C14', '', modifies='w.errno', opts={'statics': {'initialBufferSize': '1 <= {it} <= 0x3fff_ffff_ffff_ffff'}}, ensures=[('name of the machine', '{ret} == {w.host}')],
      loops={0: L(inv=['1 <= {buffer}.len() <= MAXLEN()'], decr=['{w.host}.len() + 1 - {buffer}.len()'])}),
    C('k8psh::Utilities::deleteFile', 'C13 C19 C20', 'filename', modifies='w.errno w.removed w.links w.newfiles w.disk', exit_hints=['let f = fileid({w.cwd}, cstr({filename})); assert(!{w.links@pre}.dom().contains(f) ==> {w.links} =~= {w.links@pre}); assert(!{w.newfiles@pre}.contains(f) ==> {w.newfiles} =~= {w.newfiles@pre});'], requires=[('not a session', '!{w.session}', 'C19 C13')],
      ensures=[('removed', 'let f = fileid({w.cwd}, cstr({filename})); {w.links} == {w.links@pre}.remove(f) && {w.newfiles} == {w.newfiles@pre}.remove(f) && {w.removed} == (if {w.links@pre}.dom().contains(f) || {w.newfiles@pre}.contains(f) { {w.removed@pre} } else { {w.removed@pre}.insert(f) }) && (!{w.links@pre}.dom().contains(f) ==> {w.links} == {w.links@pre}) && (!{w.newfiles@pre}.contains(f) ==> {w.newfiles} == {w.newfiles@pre}) && ({w.disk} == {w.disk@pre} || {w.disk} == {w.disk@pre}.remove(f))')]),
    C('clampPositive', 'C15', 'value max', ensures=[('clamped', '{ret} == (if {value} < 0 { 0 } else if {value} > {max} { {max} } else { {value} })')]),
    C('handleSignal', 'C15', 'signal', modifies='g.exitRequested w.fd w.errno', requires=[('pipe', 'pipeok({w.fd}, {g.exitRequested._input}, {g.exitRequested._output})')],
      ensures=[('the server is asked to exit', '{g.exitRequested._input} == -1 && {g.exitRequested._output} == {g.exitRequested._output@pre}'), ('by closing the pipe', '{w.fd} =~= without({w.fd@pre}, {g.exitRequested._input@pre})')]),
    C('getConfiguration', 'C22', 'config', throws='may', entry_hints=['assert(b"K8PSH_" + b"CONFIG" =~= s_config()); assert(b"k8psh" + b".conf" =~= s_default()); lemma_cstr_nonul(s_config(), 0); assert(cstr(s_config()) =~= s_config());'], modifies='w.errno w.failed w.fpath w.fpos w.fclosed w.fd',
      ensures=[('from the file that is named', 'let f = config_file({w.env}, {config}); let l = conf_of({w.env}, {w.cwd}, {w.disk}, f); {w.disk}.dom().contains(fileid({w.cwd}, cstr(f))) && l.ok && {ret._baseDirectory} == l.cfg._baseDirectory && {ret._connectTimeoutMs} == l.cfg._connectTimeoutMs && {ret._hostCommands} == l.cfg._hostCommands && {ret._commands} == l.cfg._commands', 'C22'), ('nothing stays open', '{w.fd} == {w.fd@pre} && {w.fclosed} == {w.fclosed@pre}')],
      exc_ensures=[('only when it cannot be read or is wrong', 'let f = config_file({w.env}, {config}); {w.failed} || !conf_of({w.env}, {w.cwd}, {w.disk}, f).ok', 'C22'), ('no descriptor changed', '{w.fd} == {w.fd@pre} && {w.fclosed} == {w.fclosed@pre}')]),
]

PROG = 'w.fd w.rx w.tx w.shared w.nosock w.sendfail w.conn w.peer w.sess w.errno w.failed w.hangup w.until w.clock w.started w.slept w.fout w.feof w.fclosed w.fpath w.fpos w.under w.newfiles w.disk w.broken'
ALL = PROG + ' w.removed w.made w.links w.nb w.sig w.session w.kids w.pid w.forks w.status w.entered w.cwd w.leader w.child w.accepted w.environ g.exitRequested'
START = [('arguments', '0 < {argc} <= {argv}.len() && {argc} <= 0x7fff_ffff && forall|k: int| 0 <= k < {argc} ==> (#[trigger] {argv}[k]).nn'),
         ('nothing was connected yet', '{w.conn} == -1 && {w.started} == -1 && {w.slept} == -1 && !{w.nosock} && !{w.sendfail}'),
         ('the standard streams are open', '{w.feof}[1] == {w.fclosed}.contains(1) && {w.feof}[2] == {w.fclosed}.contains(2) && {w.feof}[0] == {w.fclosed}.contains(0) && forall|k: int| 0 <= k <= 2 ==> #[trigger] {w.fd}.dom().contains(k)')]
INIT = ('!{w.session} && !{w.child} && {w.accepted} == 0 && !{w.hangup} && !{w.failed} && {w.made} =~= Map::empty() && {w.links} =~= Map::empty() && {w.removed} =~= Set::empty() && {w.newfiles} =~= Set::empty() && {w.kids} =~= Set::empty() && {w.until} == 0 && 0 <= {w.clock}')
EXITPIPE = '{g.exitRequested._input} > 2 && {g.exitRequested._output} > 2 && {g.exitRequested._input} != {g.exitRequested._output} && {w.fd}.dom().contains({g.exitRequested._input}) && {w.fd}[{g.exitRequested._input}].st == 7 && {w.fd}.dom().contains({g.exitRequested._output}) && {w.fd}[{g.exitRequested._output}].st == 6'
ONLY = 'forall|h: int| #[trigger] {w.fd}.dom().contains(h) && h != {g.exitRequested._input} && h != {g.exitRequested._output} ==> h >= 0 && ({w.fd}[h].st == 0 || {w.fd}[h].st == 10)'
START2 = START + [('nothing has happened yet', INIT), ('the exit pipe is open', EXITPIPE), ('and nothing else but the standard streams', ONLY)]
A = 'client_act({argv}, {argc})'
LD = f'conf_of({{w.env}}, {{w.cwd@pre}}, {{w.disk@pre}}, config_file({{w.env}}, {A}.cfg))'
CMD = f'{LD}.cfg._commands[{A}.name]'
INST = f'fileid({{w.cwd@pre}}, cstr({A}.name))'
SELF = 'fileid({w.cwd@pre}, {w.exe})'
same = lambda roots, at='loop': ' && '.join(f'{{{r}}} == {{{r}@{at}}}' for r in roots.split())
COPY = (f'{{source}} != {{dest}} && {{w.fd}}.dom().contains({{source}}) && {{w.fd}}.dom().contains({{dest}}) && {{w.fd}}[{{source}}].st == 8 && {{w.fd}}[{{dest}}].st == 9 && {{w.fpath}}[{{dest}}] == {INST} && {{w.under}}[{{dest}}].len() == 0'
        f' && {{w.disk@pre}}.dom().contains({SELF}) && {{w.disk}}.dom().contains({INST}) && {{w.disk}}[{INST}] =~= {{w.tx}}[{{dest}}]')

CONTRACTS += [
    C('mainClient', 'C17 C18 C22 C02 C05 C23', 'argc argv', entry_hints=['broadcast use lemma_opt_kind;', 'lemma_cstr_id({w.exe});', f'let l = client_act({{argv}}, {{argc}}); let f = config_file({{w.env}}, l.cfg); lemma_load_good({{w.env}}, {{w.cwd}}, {{w.disk}}[fileid({{w.cwd}}, cstr(f))], parent_dir(f));'], throws='may',
      opts={'calls': {'runRemoteCommand': [('the timeout of the configuration', f'{{arg.configuration._connectTimeoutMs}} == {LD}.cfg._connectTimeoutMs', 'C23'), ('the command that is named', f'{{arg.command}} == {CMD}', 'C02 C22'),
                                           ('the remaining arguments', f'{{arg.argc}} == {{argc}} - {A}.i && {{arg.argv}} =~= {{argv}}.skip({A}.i)', 'C02 C22')]},
            'assume': [('the base directory of the configuration has no NUL character', f'forall|c: OptionalString| nonul((#[trigger] conf_of({{w.env}}, {{w.cwd}}, {{w.disk}}, config_file({{w.env}}, c))).cfg._baseDirectory)')]}, may_exit=True, may_abort=True, noreturn=True, modifies=ALL,
      requires=START2 + [('not called as server', '!(basename({argv}[0].s) == s_server())', 'C22')],
      ensures=[('ends the program', 'false')],
      exit_ensures=[('a valid request', f'{A}.k == 0 || {A}.k == 1 || {A}.k == 2 || {A}.k == 3 || {A}.k == 4', 'C22'),
                    ('usage and version succeed', f'{A}.k == 1 || {A}.k == 2 ==> {{code}} == 0 && {{w.conn}} == -1 && {{w.disk}} == {{w.disk@pre}}', 'C22'),
                    ('the command that is named runs with its configuration', f'{A}.k == 0 ==> {LD}.ok && {LD}.cfg._commands.dom().contains({A}.name) && {{w.conn}} != -1 && {{w.peer}} == {CMD}._host.v._port', 'C22'),
                    ('in the corresponding directory with the remaining arguments', f'{A}.k == 0 ==> ({{ let l = {LD}; let r = relativize(l.cfg._baseDirectory, {{w.cwd@pre}}); r.ok && is_part(request({{w.env}}, r.v, {{argv}}.skip({A}.i), {{argc}} - {A}.i, {CMD}), {{w.tx}}[{{w.conn}}]) }})', 'C22 C02'),
                    ('its exit code is that of the program', f'{A}.k == 0 ==> exit_of({{w.sess}}) >= 0 && {{code}} == i32_of(exit_of({{w.sess}}))', 'C05'),
                    ('a complete copy is installed', f'{A}.k == 4 ==> {{code}} == 0 && {{w.disk@pre}}.dom().contains({SELF}) && {{w.disk}}.dom().contains({INST}) && {{w.disk}}[{INST}] == {{w.disk@pre}}[{SELF}]', 'C17')],
      exc_ensures=[('usage and version do not fail', f'{A}.k != 1 && {A}.k != 2', 'C22')],
      abort_ensures=[('only while a command runs', f'{A}.k == 3 || {A}.k == 0 && {LD}.ok', 'C22')],
      loops={0: L(inv=['1 <= {i} <= {argc}', '{commandName} == s_client() && basename({argv}[0].s) == s_client()', 'client_args({argv}, {argc}, {i} as int, {config}) == client_args({argv}, {argc}, 1, none())', same(' '.join(x for x in PROG.split() if x not in ('w.errno',)))]),
             1: L(inv=[COPY, f'{{w.tx}}[{{dest}}] + {{w.rx}}[{{source}}] =~= {{w.disk@pre}}[{SELF}]']),
             2: L(inv=[COPY, '{w.tx} == {w.tx@loop}'])}),
    C('main', 'C22', 'argc argv', throws='may', may_exit=True, may_abort=True, modifies=ALL, requires=START2, entry_hints=['assert(b"k8psh" + b"d" =~= s_server());']),
]

SA = 'server_args({argv}, {argc}, 1, Seq::empty(), none(), Seq::empty(), false)'
S = 'server({argv}, {argc}, {w.env}, {w.cwd@pre}, {w.disk@pre}, {w.host})'
LINKS = f'all_links({S}, {{w.cwd@pre}}, {{w.exe}})'
PARENT = f'!{{w.session}} && !{{w.child}} && {S}.serves && {S}.o.daemon && {SA}.k == 0'
FIN = f'!{{w.session}} && {SA}.k == 0 && ({{w.child}} || !({S}.serves && {S}.o.daemon))'
SERVED = f'{FIN} && {S}.serves'
MAX, TIME = f'stoll_val({S}.o.max)', f'stoll_val({S}.o.time)'
LISTENER = '{listener._handle} > 2 && {w.fd}.dom().contains({listener._handle}) && {w.fd}[{listener._handle}].st == 3'
OPTF = [('daemon', 'daemonize'), ('disable', 'disableClientExecutables'), ('local', 'generateLocalExecutables'), ('ignore', 'ignoreInvalidArguments'), ('keep', 'keepClientExecutables'), ('over', 'overwriteClientExecutables'),
        ('wait', 'waitOnClientConnections'), ('dir', 'directory'), ('max', 'connections'), ('pid', 'pidFilename'), ('time', 'timeout')]
OPT = 'SOpt { ok: true, ' + ', '.join(f'{k}: {{{v}}}' for k, v in OPTF) + ' }'
STEP = 'opt_step({deferredArgs}, {i@head} as int, {deferredArgc@head} as int, ' + OPT.replace('}', '@head}').replace(' @head}', ' }') + ')'

PIDF = 'fileid({w.cwd}, cstr({pidFilename}))'
HASPID = f'({S}.o.daemon && {S}.o.pid.len() > 0)'
UNTIL = f'{TIME} >= 0 ==> {{w.until}} <= {{w.started}} + {TIME} * 1_000_000 + 1_000_000'
TIMES = [f'{{maxConnections}} == {MAX} && {{timeoutMs}} == {TIME}', f'{TIME} >= 0 ==> {{endTime}} <= {{w.started}} + {TIME} * 1_000_000 + 1_000_000 && ({{endTime}} >= {{w.clock@pre}} + {TIME} * 1_000_000 || {{endTime}} == 0x7fff_ffff_ffff_ffff)']
LOOP3 = [('listens on the configured port only', f'{LISTENER} && {{w.fd}}[{{listener._handle}}].port == {S}.host._port', 'C16'),
         '!{w.shared}.contains({listener._handle}) && {listener._handle} != {g.exitRequested._input} && {listener._handle} != {g.exitRequested._output}',
         EXITPIPE, 'forall|h: int| #[trigger] {w.fd}.dom().contains(h) && h != {g.exitRequested._input} && h != {g.exitRequested._output} && h != {listener._handle} ==> h >= 0 && ({w.fd}[h].st == 0 || {w.fd}[h].st == 10)', 'forall|k: int| 0 <= k <= 2 ==> #[trigger] {w.fd}.dom().contains(k)',
         f'!{{w.session}} && {{w.child}} == {S}.o.daemon', same('w.cwd w.sig w.pid w.entered w.environ w.child w.session w.sendfail g.exitRequested'),
         ('can be told to exit', '{w.sig}[15] == 2 && {w.sig}[2] == 2', 'C15'), ('sessions that ended are not kept', '{w.sig}[17] == 1', 'C15'),
         ('detached', f'{S}.o.daemon ==> {{w.leader}} && {{w.sig}}[1] == 1', 'C20'), ('not in the directory it was started in', f'{S}.o.daemon ==> {{w.entered}}.len() > 0 && {{w.entered}}.last() == seq![47u8]', 'C20'), ('detached from its streams', f'{S}.o.daemon ==> {{w.fd}}[0].st == 10 && {{w.fd}}[1].st == 10 && {{w.fd}}[2].st == 10', 'C20'),
         ('a server in the foreground ends with its terminal', f'!{S}.o.daemon ==> {{w.sig}}[1] == 2', 'C15'),
         ('client executables while serving', f'{{w.links}} == {LINKS}', 'C13'),
         f'{{w.made}} == {LINKS} && {{w.removed}} == all_removed({S}, {{w.cwd@pre}})', 'created_ok({w.links}, {w.cwd}, {createdExecutables}, 0)',
         ('PID file while serving', f'if {HASPID} {{ {{pidFile}} >= 0 && {{w.newfiles}} == set![{PIDF}] && {{w.disk}}.dom().contains({PIDF}) && {{w.disk}}[{PIDF}] =~= dec_str({{w.pid}}) + seq![10u8] }} else {{ {{pidFile}} < 0 && {{w.newfiles}} =~= Set::empty() }}', 'C20'),
         'forall|f: Seq<u8>| {w.newfiles}.contains(f) ==> !#[trigger] {w.links}.dom().contains(f)',
         ('every connection counts', '{connectionCount} == {w.accepted} && {w.accepted} >= 0', 'C15'), ('and no other', f'{{w.accepted}} > 0 && {MAX} >= 0 ==> {{w.accepted}} <= {MAX}', 'C15'),
         '{w.accepted} == 0 ==> {w.kids} =~= Set::empty()', ('stops when it is told to', '!{w.hangup}', 'C15'), ('waits no longer than its time', UNTIL, 'C15'), f'({TIME} >= 0 ==> {{w.started}} >= 0) && {{w.clock}} >= {{w.clock@pre}}',
         '{pollSet}.len() == 2 && {pollSet}[0].fd == {g.exitRequested._output} && {pollSet}[0].events == 1 && {pollSet}[1].fd == {listener._handle} && {pollSet}[1].events == 1'] + TIMES
FILE2 = f'exe_file({S}, {{w.cwd}}, mapkeys({S}.cfg._commands)[{{it@head}}])'

CONTRACTS += [
    C('mainServer', 'C06 C07 C13 C14 C15 C16 C18 C19 C20 C22', 'argc argv', throws='may', may_exit=True, may_abort=True, noreturn=True, modifies=ALL, requires=START2 + [('asked to act as server', 'is_server({argv}, {argc})', 'C22')],
      ensures=[('ends the program', 'false')],
      exit_ensures=[('valid arguments', f'{SA}.k == 1 || {SA}.k == 2 || {S}.ok && {S}.o.ok', 'C14 C22'),
                    ('usage and version only print', f'{SA}.k == 1 || {SA}.k == 2 ==> {{code}} == 0 && {{w.made}} =~= Map::empty() && {{w.removed}} =~= Set::empty() && {{w.newfiles}} =~= Set::empty() && {{w.accepted}} == 0', 'C14'),
                    ('success', f'{SA}.k == 0 ==> {{code}} == 0', 'C15 C20'),
                    ('the client executables that are asked for were made', f'{SA}.k == 0 ==> {{w.made}} =~= {LINKS}', 'C13 C14'),
                    ('and removed again', f'{FIN} ==> {{w.links}} =~= (if {S}.o.keep {{ {LINKS} }} else {{ Map::empty() }})', 'C13 C14'),
                    ('existing files only made way', f'{SA}.k == 0 ==> {{w.removed}} =~= all_removed({S}, {{w.cwd@pre}})', 'C13 C14 C20'),
                    ('the PID file is removed', f'{FIN} ==> {{w.newfiles}} =~= Set::empty()', 'C20'),
                    ('the original process leaves everything to the server', f'{PARENT} ==> {{w.links}} =~= {LINKS} && {{w.accepted}} == 0', 'C20'),
                    ('sessions leave everything to the server', f'{{w.session}} ==> {{w.links}} =~= {LINKS}', 'C19 C13'),
                    ('waits for its sessions', f'{SERVED} && {S}.o.wait ==> {{w.kids}} =~= Set::empty()', 'C15 C14'),
                    ('no more connections than allowed', f'{SERVED} && {MAX} >= 0 ==> {{w.accepted}} <= {MAX}', 'C15 C14'),
                    ('stops for a reason', f'{SERVED} ==> {{w.hangup}} || {MAX} >= 0 && {{w.accepted}} >= {MAX} || {TIME} >= 0 && {{w.clock}} - {{w.clock@pre}} >= {TIME} * 1_000_000 - 1_000_000', 'C15 C14')],
      exc_ensures=[('only the server itself', '!{w.session}', 'C19 C13'),
                   ('created client executables are removed', f'{{w.links}} =~= Map::empty() || {S}.ok && {S}.o.ok && {S}.o.keep', 'C13'),
                   ('existing files are not removed unless told', f'{{w.removed}} =~= Set::empty() || {S}.ok && {S}.o.ok && ({S}.o.disable || {S}.o.over)', 'C13'),
                   ('the PID file is removed', '{w.newfiles} =~= Set::empty()', 'C20'),
                   ('only for a reason', f'{{w.failed}} || {{w.nosock}} || {SA}.k == 3 || !{S}.ok || !{S}.o.ok || !stoll_ok({S}.o.max) || !stoll_ok({S}.o.time)', 'C14 C15')],
      abort_ensures=[('only a session', '{w.session}', 'C19 C15')],
      opts={'calls': {'run': [('the commands of this server', f'{{arg.commands}} == cmds_of({S}.cfg._hostCommands, {S}.name)', 'C06 C07'), ('below the base directory of the configuration', f'{{arg.workingDirectory}} == {S}.cfg._baseDirectory', 'C06')]},
            'assume': [('the client executables of different commands are different files', f'distinct_files({S}, {{w.cwd}})')]},
      entry_hints=['lemma_cstr_nonul(seq![47u8], 0); assert(cstr(seq![47u8]) =~= seq![47u8]);', 'assert(b"/run/" + (b"k8psh" + b"d") + b".pid" =~= s_pidfile()); assert(b"K8PSH_" + b"NAME" =~= s_name()); lemma_cstr_nonul(s_name(), 0); assert(cstr(s_name()) =~= s_name()); lemma_cstr_id({w.exe});',
                   'let l = ' + SA + '; let f = config_file({w.env}, l.cfg); lemma_load_good({w.env}, {w.cwd}, {w.disk}[fileid({w.cwd}, cstr(f))], parent_dir(f));'],
      loops={0: L(inv=['1 <= {i} <= {argc}', '{directory} =~= Seq::empty() && {connections} == b"-1" && {timeout} == b"-1" && {pidFilename} == s_pidfile()', 'server_args({argv}, {argc}, {i} as int, {deferredArgs}, {config}, {name}, {ignoreInvalidArguments}) == ' + SA], local=True, hide=['server']),
             1: L(entry=[f'assert({SA}.k == 0);', f'assert({{name}} == {S}.name);', f'assert({S}.ok);', '''assert({directory} =~= Seq::empty());''', f'assert({{deferredArgs}} =~= (if {S}.serves {{ {S}.host._options + {SA}.held }} else {{ {SA}.held }}));', f'assert({OPT} == opts0({SA}.ignore, !{S}.serves));'], inv=['0 <= {i} <= {deferredArgc} <= {deferredArgs}.len()', '{i} == {deferredArgc} ==> {deferredArgc} == {deferredArgs}.len()', 'sockok({w.fd}, {listener._handle})', '{listener._handle} == -1 || !{w.shared}.contains({listener._handle})', 'opts2({deferredArgs}, {i} as int, {deferredArgc} as int, ' + OPT + f') == {S}.o'], head=['lemma_opts_step({deferredArgs}, {i} as int, {deferredArgc} as int, ' + OPT + ');'],
                  end=[f'assert({STEP}.i == {{i}} as int);'] + [f'assert({STEP}.s.{k} == {{{v}}});' for k, v in OPTF] + [f'assert({STEP}.s.ok);', 'lemma_opts2({deferredArgs}, {i} as int, {deferredArgc@head} as int, ' + OPT + ');'], local=True, hide=['server'], exit=['lemma_opts_end({deferredArgs}, {i} as int, {deferredArgc} as int, ' + OPT + ');', f'assert({OPT} == {S}.o);']),
             2: L(entry=['assert({w.cwd} + seq![47u8] =~= {w.cwd}.push(47u8));', f'assert({{directory}} =~= exe_dir({S}, {{w.cwd@pre}}));', f'assert({{pidFilename}} =~= pid_name({S}, {{w.cwd@pre}}));', f'assert({OPT} == SOpt {{ dir: exe_dir({S}, {{w.cwd@pre}}), pid: pid_name({S}, {{w.cwd@pre}}), ..{S}.o }});', 'lemma_created_none({w.cwd});', f'assert({{commands}} == {S}.cfg._commands);'],
                  inv=[f'0 <= {{it}} <= mapkeys({{commands}}).len()', f'{{clientCommand}} == {{w.exe}}', f'{{w.made}} == exe_links({S}, {{w.cwd}}, {{w.exe}}, {{it}})', f'{{w.links}} == {{w.made}}', f'{{w.removed}} == exe_removed({S}, {{w.cwd}}, {{it}})',
                       '{w.newfiles} =~= Set::empty()', 'created_ok({w.links}, {w.cwd}, {createdExecutables}, 0)', f'{S}.o.daemon ==> all_abs({{createdExecutables}})', 'forall|f: Seq<u8>| #[trigger] {w.links}.dom().contains(f) ==> {w.disk}.dom().contains(f)'],
                  head=[f'lemma_exe_kept({S}, {{w.cwd}}, {{it}});', f'lemma_cstr_twice({{directory}} + {{commands}}[mapkeys({{commands}})[{{it}}]]._name);', f'lemma_exe_in({S}, {{w.cwd}}, {{w.exe}}, {{it}}, {{it}});'],
                  end=[f'lemma_created_push({{w.links@head}}, {{w.cwd}}, {{createdExecutables@head}}, {{directory}} + {{commands}}[mapkeys({{commands}})[{{it@head}}]]._name, {{w.exe}});',
                       f'assert({FILE2} == cfile({{w.cwd}}, {{directory}} + {{commands}}[mapkeys({{commands}})[{{it@head}}]]._name));'], decr=['mapkeys({commands}).len() - {it}'], exit=['lemma_cstr_twice({pidFilename});', 'lemma_abs_all({pidFilename}, {w.cwd});', f'lemma_exe_kept({S}, {{w.cwd}}, {{it}});']),
             3: L(entry=['lemma_abs_file({pidFilename}, {w.cwd@pre}, {w.cwd});', 'lemma_created_cwd({w.links}, {w.cwd@pre}, {w.cwd}, {createdExecutables}, 0);'] + [f'assert({x});' for x in TIMES], inv=LOOP3),
             4: L(entry=['assert({timeoutMs} >= 0 && {waitMs} > 0 ==> {w.clock} + {waitMs} * 1_000_000 <= {endTime} && {waitMs} <= 0x7fff_ffff);'], inv=['{pollSet}.len() == 2 && {pollSet}[0].fd == {pollSet@loop}[0].fd && {pollSet}[1].fd == {pollSet@loop}[1].fd && {pollSet}[0].events == {pollSet@loop}[0].events && {pollSet}[1].events == {pollSet@loop}[1].events',
                       same('w.hangup w.failed'), '{w.clock} == {w.clock@loop}', UNTIL]),
             5: L(inv=[]),
             6: L(entry=['lemma_created_cwd({w.links}, {w.cwd@pre}, {w.cwd}, {createdExecutables}, 0);'],
                  inv=['0 <= {it} <= {createdExecutables}.len()', 'created_ok({w.links}, {w.cwd}, {createdExecutables}, {it})', same('w.removed w.newfiles'), 'forall|f: Seq<u8>| {w.newfiles}.contains(f) ==> !#[trigger] {w.links}.dom().contains(f)'],
                  end=['lemma_cstr_twice({createdExecutables}[{it@head}]);', 'lemma_created_pop({w.links@head}, {w.cwd}, {createdExecutables}, {it@head});', 'assert({w.newfiles@head}.remove(cfile({w.cwd}, {createdExecutables}[{it@head}])) =~= {w.newfiles@head});'],
                  exit=['lemma_created_end({w.links}, {w.cwd}, {createdExecutables}, {it});'], decr=['{createdExecutables}.len() - {it}']),
             7: L(entry=['lemma_created_cwd({w.links}, {w.cwd@pre}, {w.cwd}, {createdExecutables}, 0);'],
                  inv=['0 <= {it} <= {createdExecutables}.len()', 'created_ok({w.links}, {w.cwd}, {createdExecutables}, {it})', same('w.removed w.newfiles'), 'forall|f: Seq<u8>| {w.newfiles}.contains(f) ==> !#[trigger] {w.links}.dom().contains(f)'],
                  end=['lemma_cstr_twice({createdExecutables}[{it@head}]);', 'lemma_created_pop({w.links@head}, {w.cwd}, {createdExecutables}, {it@head});', 'assert({w.newfiles@head}.remove(cfile({w.cwd}, {createdExecutables}[{it@head}])) =~= {w.newfiles@head});'],
                  exit=['lemma_created_end({w.links}, {w.cwd}, {createdExecutables}, {it});'], decr=['{createdExecutables}.len() - {it}']),
             })
]
