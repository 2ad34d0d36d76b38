"""Contracts of the server side of a connection (Process.cxx)"""
from contract import Contract as C, Loop as L

H = '{socket@pre}._handle'
S0 = f'{{w.rx@pre}}[{H}]'
Q = f'req_from({{w.env}}, {{workingDirectory}}, {S0}, req0())'
CMD = f'{{commands}}[{Q}.cmd]'
RI = '0 <= {receiveSocket._readOffset} <= {receiveSocket._end} <= {receiveSocket._data}.len() && {receiveSocket._data}.len() >= 5'
SB = '0 <= {sendSocket._end} <= {sendSocket._data}.len() && {sendSocket._data}.len() >= 5 && {sendSocket._end} == 0'
OPEN = f'{{socket._handle}} == {H} && {H} > 2 && {{w.fd}}.dom().contains({H}) && {{w.fd}}[{H}].st == 5 && !{{w.shared}}.contains({H})'
PEND = f'pending({{receiveSocket._data}}, {{receiveSocket._readOffset}}, {{receiveSocket._end}}, {{w.rx}}[{H}])'
PENDH = f'pending({{receiveSocket@head}}._data, {{receiveSocket@head}}._readOffset, {{receiveSocket@head}}._end, {{w.rx@head}}[{H}])'
VARS = f'{CMD}._environmentVariables'
TX = f'{{w.tx}}[{H}]'
I0, O1, O2 = '{stdInPipe@fork}._input', '{stdOutPipe@fork}._output', '{stdErrPipe@fork}._output'
ALL1, ALL2 = f'{{w.rx@fork}}[{O1}]', f'{{w.rx@fork}}[{O2}]'
STDIN = f'{{w.tx}}[{I0}]'
REST = f'{Q}.rest'
PIPES = (f'pipeok({{w.fd}}, {{stdInPipe._input}}, {{stdInPipe._output}}) && pipeok({{w.fd}}, {{stdOutPipe._input}}, {{stdOutPipe._output}}) && pipeok({{w.fd}}, {{stdErrPipe._input}}, {{stdErrPipe._output}})'
         f' && {{stdInPipe._output}} == -1 && {{stdOutPipe._input}} == -1 && {{stdErrPipe._input}} == -1 && ({{stdInPipe._input}} == -1 || {{stdInPipe._input}} == {I0}) && ({{stdOutPipe._output}} == -1 || {{stdOutPipe._output}} == {O1}) && ({{stdErrPipe._output}} == -1 || {{stdErrPipe._output}} == {O2})')
DIST = f'{I0} >= 0 && {O1} >= 0 && {O2} >= 0 && {O1} != {O2} && {I0} != {O1} && {I0} != {O2} && {H} != {I0} && {H} != {O1} && {H} != {O2}'
SESS = [OPEN, RI, SB, PIPES, DIST, '{w.sig}[13] == 1', '{pollSet}.len() == 4', '{pipeData}.len() > 0 && {pipeData}.len() < 0x1_0000_0000', '{stdInPipe._input} == -1 || {w.nb}.contains({stdInPipe._input})', '{process} > 0 && {w.forks} == {w.forks@loop}']
EXITED = '(ws_exited({w.status}) || ws_killed({w.status}))'
WAIT = [f'{{processHasExited}} == !{{w.kids}}.contains({{process}})', f'{{processHasExited}} ==> {{exitStatus}} == {{w.status}} && {EXITED}']
OUT = [('standard output is relayed unchanged', f'srv_open({TX}) && out_of(5, {TX}) + {{w.rx}}[{O1}] =~= {ALL1}', 'C04'), ('standard error is relayed unchanged', f'out_of(6, {TX}) + {{w.rx}}[{O2}] =~= {ALL2}', 'C04'),
       ('closed at the end only', f'({{stdOutPipe._output}} == -1 ==> {{w.rx}}[{O1}].len() == 0) && ({{stdErrPipe._output}} == -1 ==> {{w.rx}}[{O2}].len() == 0)', 'C04'),
       ('the end is announced at the end', f'ends(5, {TX}) == ({{stdOutPipe._output}} == -1) && ends(6, {TX}) == ({{stdErrPipe._output}} == -1)', 'C04')]
STEP = [f'/*@relayed@*/ assert({{w.rx}}[{O2}] =~= {{w.rx@head}}[{O2}].skip({{w.rx@head}}[{O2}].len() - {{w.rx}}[{O2}].len()));', f'/*@relayed@*/ assert({{w.rx}}[{O1}] =~= {{w.rx@head}}[{O1}].skip({{w.rx@head}}[{O1}].len() - {{w.rx}}[{O1}].len()));',
        f'/*@relayed@*/ assert(out_of(5, {TX}) =~= out_of(5, {{w.tx@head}}[{H}]) + take({{w.rx@head}}[{O1}], {{w.rx@head}}[{O1}].len() - {{w.rx}}[{O1}].len()));',
        f'/*@relayed@*/ assert(out_of(6, {TX}) =~= out_of(6, {{w.tx@head}}[{H}]) + take({{w.rx@head}}[{O2}], {{w.rx@head}}[{O2}].len() - {{w.rx}}[{O2}].len()));',
        f'/*@relayed@*/ assert(out_of(5, {TX}) + {{w.rx}}[{O1}] =~= out_of(5, {{w.tx@head}}[{H}]) + {{w.rx@head}}[{O1}]);', f'/*@relayed@*/ assert(out_of(6, {TX}) + {{w.rx}}[{O2}] =~= out_of(6, {{w.tx@head}}[{H}]) + {{w.rx@head}}[{O2}]);', f'/*@relayed@*/ assert(srv_open({TX}));']
REQ = [f'let p = {PENDH}; let t = take(p.skip(5), le32(p)); if p[0] == 0 {{ assert({{processDirectory}} =~= join_dir({{workingDirectory}}, t)); }}', f'let p = {PENDH}; let t = take(p.skip(5), le32(p)); if p[0] == 1 {{ assert({{receivedEnvironmentVariables}} =~= add_var({{w.env}}, {{receivedEnvironmentVariables@head}}, t)); }}',
       f'let p = {PENDH}; let t = take(p.skip(5), le32(p)); if p[0] == 2 {{ assert({{arguments}} =~= {{arguments@head}}.push(t)); }}']
IN = [('standard input is passed on unchanged', f'is_part({STDIN}, sd({REST})) && ({{stdInPipe._input}} != -1 ==> {STDIN} + {{stdInData}} + sd({PEND}) =~= sd({REST}))', 'C03'),
      ('until its end', f'{{stdInPipe._input}} != -1 ==> (if {{closeStdIn}} {{ has_eof({REST}) && is_part(sd_eof({REST}), {STDIN} + {{stdInData}}) }} else {{ {STDIN} + {{stdInData}} + sd_eof({PEND}) =~= sd_eof({REST}) && has_eof({PEND}) == has_eof({REST}) }})', 'C03')]
CLOSED = ('closed after all of it was written', f'{{stdInPipe._input}} == -1 ==> {{w.broken}}.contains({I0}) || {{processHasExited}} || has_eof({REST}) && is_part(sd_eof({REST}), {STDIN})', 'C03')
CTL = f'ctl({PEND}) == ctl({REST})'
RQ = f'req_from({{w.env}}, {{workingDirectory}}, {PEND}, rq({{processDirectory}}, {{receivedEnvironmentVariables}}, {{arguments}})) == {Q}'
DONE = f'ws_exited({{w.status}}) && exit_of({TX}) == ws_code({{w.status}}) && out_of(5, {TX}) =~= {ALL1} && out_of(6, {TX}) =~= {ALL2} && ends(5, {TX}) && ends(6, {TX})'
CHILD = '{w.pid} != {w.pid@pre}'
SENT = (f'let t0 = {{w.tx@head5}}[{H}]; let sc = ws_code({{w.status}}); lemma_srv_exit(t0, sc);'
        f' if ws_exited({{w.status}}) {{ assert({{exitStatus}} == {{w.status}}); }}'
        f' if ws_exited({{w.status}}) {{ assert({TX} =~= t0 + msgv(8, sc)); assert(exit_of({TX}) == sc); assert(out_of(5, {TX}) =~= {ALL1}); assert(out_of(6, {TX}) =~= {ALL2}); assert(ends(5, {TX})); assert(ends(6, {TX})); }}')

CONTRACTS = [
    C('k8psh::Process::run', 'C03 C04 C05 C06 C07 C16 C18 C19', 'workingDirectory commands socket', throws='may', may_abort=True,
      modifies='socket w.fd w.rx w.tx w.shared w.broken w.nb w.sig w.kids w.pid w.forks w.status w.entered w.errno w.cwd w.environ w.sendfail w.failed w.child w.hangup w.until w.clock',
      requires=[('nothing failed yet', '!{w.sendfail}'), ('connection', '{socket._handle} > 2 && {w.fd}.dom().contains({socket._handle}) && {w.fd}[{socket._handle}].st == 5 && !{w.shared}.contains({socket._handle}) && {w.tx}[{socket._handle}].len() == 0'),
                ('the listening socket is not used', '!has_st({w.fd}, 3)', 'C19'), ('standard streams', 'forall|k: int| 0 <= k <= 2 ==> #[trigger] {w.fd}.dom().contains(k)'),
                ('every command has a program', 'forall|k: Seq<u8>| #[trigger] {commands}.dom().contains(k) ==> {commands}[k]._executable.len() > 0')],
      exec_ensures=[('a complete request for a configured command was received', f'{Q}.ok && {{commands}}.dom().contains({Q}.cmd)', 'C06'),
                    ('the configured program and arguments, then the client\'s', f'is_cps({{exec.argv}}, {CMD}._executable + {Q}.args)', 'C06'), ('the program that is named', '{exec.path} == {exec.argv}[0].s', 'C06'),
                    ('in the directory the client named', f'{{w.entered}} == {{w.entered@pre}}.push(cstr({Q}.dir))', 'C06'),
                    ('the environment of the configuration', f'is_cps({{exec.env}}, env_of({{w.env}}, {Q}.env, {CMD}))', 'C07'),
                    ('the standard streams are the pipes', '{w.fd}[0] == {w.fd@fork}[{stdInPipe@fork}._output] && {w.fd}[1] == {w.fd@fork}[{stdOutPipe@fork}._input] && {w.fd}[2] == {w.fd@fork}[{stdErrPipe@fork}._input]', 'C06 C03 C04'),
                    ('nothing else keeps the input open', 'forall|h: int| {w.fd}.dom().contains(h) && #[trigger] {w.fd}[h].st == 7 ==> {w.fd}[h].port != {w.fd}[0].port', 'C03'),
                    ('the connection is not inherited', f'!{{w.fd}}.dom().contains({H})', 'C19')],
      ensures=[('what was started was asked for', f'{{w.forks}} > {{w.forks@pre}} ==> {Q}.ok && {{commands}}.dom().contains({Q}.cmd)', 'C06'),
               ('the output, and the exit status after all of it', f'srv({TX}) && is_part(out_of(5, {TX}), {ALL1}) && is_part(out_of(6, {TX}), {ALL2}) && (exit_of({TX}) == -1 || {DONE})', 'C04 C05'),
               ('the exit status when the command ended normally', f'exit_of({TX}) == -1 ==> ctl({REST}) >= 0 || !ws_exited({{w.status}})', 'C05')],
      exc_ensures=[('what was started was asked for', f'{{w.forks}} > {{w.forks@pre}} ==> {Q}.ok && {{commands}}.dom().contains({Q}.cmd)', 'C06'),
                   ('nothing but output', f'{CHILD} || {{w.sendfail}} || {{w.forks}} == {{w.forks@pre}} || is_part(out_of(5, {TX}), {ALL1}) && is_part(out_of(6, {TX}), {ALL2})', 'C04'),
                   ('no other exit status', f'{CHILD} || {{w.sendfail}} || exit_of({TX}) == -1 || {DONE}', 'C05')],
      abort_ensures=[('no other exit status', f'{CHILD} || {{w.sendfail}} || exit_of({TX}) == -1 || {DONE}', 'C05')],
      entry_hints=['broadcast use {lemma_sfindc, lemma_find1, lemma_srv_push, lemma_subst_none};'],
      loops={0: L(inv=[OPEN, RI, SB, RQ, '{w.forks} == {w.forks@pre}'], end=[f'lemma_req_step({{w.env}}, {{workingDirectory}}, {PENDH}, {PEND}, {{processDirectory@head}}, {{receivedEnvironmentVariables@head}}, {{arguments@head}});'] + REQ,
                  exit=[f'lemma_req_step({{w.env}}, {{workingDirectory}}, {PENDH}, {PEND}, {{processDirectory@head}}, {{receivedEnvironmentVariables@head}}, {{arguments@head}});'], decr=[f'{PEND}.len()']),
             1: L(inv=[f'0 <= {{it}} <= {VARS}.len()', f'{{environmentVariables}} == env_build({{w.env}}, {{receivedEnvironmentVariables}}, {VARS}, {{it}})'], decr=[f'{VARS}.len() - {{it}}'],
                  end=[f'let m = {{environmentVariables@head}}; let v = {VARS}[{{it@head}}]; assert(env_build({{w.env}}, {{receivedEnvironmentVariables}}, {VARS}, {{it}}) == m.insert(env_key(v.0), var_val({{w.env}}, {{receivedEnvironmentVariables}}, m, v.0, v.1)));'
                       f' assert({{environmentVariables}}[env_key(v.0)] == var_val({{w.env}}, {{receivedEnvironmentVariables}}, m, v.0, v.1)); assert({{environmentVariables}} =~= m.insert(env_key(v.0), var_val({{w.env}}, {{receivedEnvironmentVariables}}, m, v.0, v.1)));']),
             2: L(inv=[f'0 <= {{it}} <= {VARS}.len()', f'env_list({VARS}, {{it}}, {{environmentVariables@loop}}) == (El {{ l: {{environment}}, m: {{environmentVariables}} }})'], decr=[f'{VARS}.len() - {{it}}']),
             3: L(inv=['0 <= {it} <= {environment}.len()', 'part_cps({env}, {environment}, {it})'], decr=['{environment}.len() - {it}']),
             4: L(inv=['0 <= {it} <= {arguments}.len()', 'part_cps({argv}, {arguments}, {it})'], decr=['{arguments}.len() - {it}']),
             5: L(inv=SESS + WAIT + OUT + IN + [CLOSED, CTL], end=STEP),
             6: L(inv=['{pollSet}.len() == 4 && {pollSet}[0].fd == {pollSet@loop}[0].fd && {pollSet}[1].fd == {pollSet@loop}[1].fd && {pollSet}[2].fd == {pollSet@loop}[2].fd && {pollSet}[3].fd == {pollSet@loop}[3].fd']),
             7: L(inv=[RI, f'{{w.rx}}[{O1}] == {{w.rx@loop}}[{O1}] && {{w.rx}}[{O2}] == {{w.rx@loop}}[{O2}]', IN[0], IN[1], CLOSED, CTL], end=[f'lemma_sd_step({PENDH}, {PEND});']),
             8: L(inv=['{pid} > 0 && (ws_exited({exitStatus}) || ws_killed({exitStatus})) ==> {exitStatus} == {w.status}', f'{{w.kids}}.contains({{process}}) || {{exitStatus}} == {{w.status}} && {EXITED}']),
             9: L(inv=[], entry=[SENT])})]
