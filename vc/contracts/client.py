"""Contracts of the client side (Process.cxx)"""
from contract import Contract as C, Loop as L

RS = '{receiveSocket._readOffset}'
RI = '0 <= {receiveSocket._readOffset} <= {receiveSocket._end} <= {receiveSocket._data}.len() && {receiveSocket._data}.len() >= 5'
OPEN = '{w.fd}.dom().contains({receiveSocket._socket._handle})'
PEND = 'pending({receiveSocket._data}, {receiveSocket._readOffset}, {receiveSocket._end}, {w.rx}[{receiveSocket._socket._handle}])'
PENDP = 'pending({receiveSocket@pre}._data, {receiveSocket@pre}._readOffset, {receiveSocket@pre}._end, {w.rx@pre}[{receiveSocket._socket._handle}])'
ELSE = 'forall|h: int| h != {receiveSocket._socket._handle} ==> #[trigger] {w.rx}[h] == {w.rx@pre}[h]'
CONTRACTS = [
    C('outputStdStreamData', 'C04 C18', 'stream file name receiveSocket length', throws='may', modifies='receiveSocket w.rx w.errno w.fout w.feof w.fclosed w.fd',
      requires=[('buffer', RI), ('open', OPEN), ('length', '0 <= {length} < 0x1_0000_0000'), ('not the connection', '{receiveSocket._socket._handle} != {file}'), ('the stream of the file', '{stream} == {file} && 1 <= {file} <= 2'), ('closed at the end', '{w.feof}[{stream}] == {w.fclosed}.contains({file})')],
      ensures=[('buffer', RI), ('the payload is output unchanged', f'{{length}} > 0 ==> {PENDP}.len() >= {{length}} && ins({{w.fout@pre}}, {{w.fout}}, {{file}}, {{w.fout@pre}}[{{file}}] + take({PENDP}, {{length}}))', 'C04'),
               ('nothing after the end', '{length} > 0 ==> !{w.fclosed@pre}.contains({file}) && {w.feof} == {w.feof@pre} && {w.fclosed} == {w.fclosed@pre}', 'C04'),
               ('an empty message closes the stream', '{length} == 0 ==> {w.fout} == {w.fout@pre} && setb({w.feof@pre}, {w.feof}, {stream}) && {w.fclosed} =~= {w.fclosed@pre}.insert({file})', 'C04'),
               ('the rest follows', f'{PEND} =~= {PENDP}.skip({{length}})', 'C04'), ('other streams are not touched', ELSE), ('no other descriptor is closed', '{w.fd} == {w.fd@pre} || {w.fd} == {w.fd@pre}.remove({file})')],
      exc_ensures=[('nothing else is output', f'{{w.fout}} == {{w.fout@pre}} || {PENDP}.len() >= {{length}} && {{length}} > 0 && part_sent({{w.fout@pre}}, {{w.fout}}, {{file}}, take({PENDP}, {{length}}))', 'C04'), ('streams stay open', '{w.feof} == {w.feof@pre} && {w.fclosed} == {w.fclosed@pre} && {w.fd} == {w.fd@pre}')]),
]

H = '{socket._handle}'
SB = '0 <= {sendSocket._end} <= {sendSocket._data}.len() && {sendSocket._data}.len() >= 5'
OUTB = f'{{w.tx}}[{H}] + {{sendSocket._data}}.subrange(0, {{sendSocket._end}})'
SENT = f'{{w.tx}}[{H}].skip(request({{w.env}}, {{workingDirectory}}, {{argv}}, {{argc}}, {{command}}).len() as int)'
REQ = 'request({w.env}, {workingDirectory}, {argv}, {argc}, {command})'
VARS = '{command}._environmentVariables'
CONN = f'clientok({{w.fd}}, {H}) && {{w.conn}} == {H} && {{w.fd}}[{H}].port == {{command}}._host.v._port && {{w.peer}} == {{command}}._host.v._port'
NOREAD = '{receiveSocket._readOffset} == 0 && {receiveSocket._end} == 0 && {receiveSocket._data}.len() >= 5'
PENDH = 'pending({receiveSocket@head}._data, {receiveSocket@head}._readOffset, {receiveSocket@head}._end, {w.rx@head}[{receiveSocket._socket._handle}])'
STREAMS = '{w.feof}[1] == {w.fclosed}.contains(1) && {w.feof}[2] == {w.fclosed}.contains(2) && {w.feof}[0] == {w.fclosed}.contains(0)'
SOCKRX = f'{{w.rx}}[{H}] == {{w.sess}}'
DL = '{w.started} + {configuration}._connectTimeoutMs * 1_000_000'
TIME = f'({{configuration}}._connectTimeoutMs >= 0 ==> {{w.slept}} <= {DL})'
SPENT = f'{{configuration}}._connectTimeoutMs >= 0 && {{w.clock}} >= {DL}'
REST = [RI, CONN, STREAMS, SB, '{sendSocket._end} == 0', 'forall|h: int| {w.fd@pre}.dom().contains(h) && h != 0 && h != 1 && h != 2 ==> {w.fd}.dom().contains(h)']
STDIN = ['{pollSet}.len() == 2 && {pollSet}[1].fd == ' + H + ' && ({pollSet}[0].fd == 0 || {pollSet}[0].fd == -1)', '0 < {stdInBuffer}.len() < 0x1_0000_0000', f'is_part({REQ}, {{w.tx}}[{H}])', f'stdin_sent({SENT}, {{w.rx@pre}}[0], {{w.rx}}[0], {{pollSet}}[0].fd == -1)']
STEP = f'lemma_stdin_tx({{w.tx@head3}}[{H}], {{w.tx}}[{H}], {REQ}.len() as int, {{w.rx@pre}}[0], {{w.rx@head3}}[0], {{w.rx}}[0], {{stdInBuffer}});'
OUTP = ['{w.fout}[1] + out_of(5, ' + PEND + ') =~= {w.fout@pre}[1] + out_of(5, {w.sess})', '{w.fout}[2] + out_of(6, ' + PEND + ') =~= {w.fout@pre}[2] + out_of(6, {w.sess})', 'exit_of(' + PEND + ') == exit_of({w.sess})',
        'forall|k: int| k != 1 && k != 2 ==> #[trigger] {w.fout}[k] == {w.fout@pre}[k]']

CONTRACTS += [
    C('k8psh::Process::runRemoteCommand', 'C02 C03 C04 C05 C16 C18 C23', 'workingDirectory command argc argv configuration', throws='may', may_abort=True,
      modifies='w.fd w.rx w.tx w.shared w.nosock w.sendfail w.conn w.peer w.sess w.errno w.failed w.hangup w.until w.clock w.started w.slept w.fout w.feof w.fclosed',
      requires=[('host', '{command}._host.nn && 0 <= {command}._host.v._port <= 0xffff'), ('arguments', '0 <= {argc} <= {argv}.len() && forall|k: int| 0 <= k < {argc} ==> (#[trigger] {argv}[k]).nn'),
                ('start', '{w.conn} == -1 && {w.started} == -1 && {w.slept} == -1 && !{w.nosock} && !{w.sendfail}'), ('standard streams', STREAMS + ' && forall|k: int| 0 <= k <= 2 ==> #[trigger] {w.fd}.dom().contains(k)')],
      ensures=[('connected to the port of the command\'s host', '{w.conn} != -1 && {w.peer} == {command}._host.v._port', 'C02 C16 C23'),
               ('the invocation was sent, then standard input', f'is_part({REQ}, {{w.tx}}[{{w.conn}}])', 'C02'),
               ('standard input is sent complete and in order', ' || '.join(f'stdin_sent({{w.tx}}[{{w.conn}}].skip({REQ}.len() as int), {{w.rx@pre}}[0], {{w.rx}}[0], {c})' for c in ('true', 'false')), 'C03'),
               ('standard output as received', '{w.fout}[1] =~= {w.fout@pre}[1] + out_of(5, {w.sess})', 'C04'), ('standard error as received', '{w.fout}[2] =~= {w.fout@pre}[2] + out_of(6, {w.sess})', 'C04'),
               ('the exit code as received', 'exit_of({w.sess}) >= 0 && {ret} == i32_of(exit_of({w.sess}))', 'C05'), ('did not sleep past the deadline', TIME, 'C23')],
      exc_ensures=[('gives up only when the time is over', f'{{w.conn}} == -1 ==> {{w.nosock}} || {SPENT}', 'C23'), ('did not sleep past the deadline', TIME, 'C23')],
      abort_ensures=[('only without exit code', '{w.sendfail} || {w.conn} != -1 && exit_of({w.sess}) == -1', 'C05')],
      entry_hints=[],
      opts={'assume': [('arguments, environment variables and configured strings are shorter than 1 GiB', '(forall|k: int| 0 <= k < {argv}.len() ==> (#[trigger] {argv}[k]).s.len() < 0x4000_0000) && (forall|k: Seq<u8>| {w.env}.dom().contains(k) ==> (#[trigger] {w.env}[k]).len() < 0x4000_0000)'
                        f' && {{workingDirectory}}.len() < 0x4000_0000 && {{command}}._name.len() < 0x4000_0000 && forall|k: int| 0 <= k < {VARS}.len() ==> (#[trigger] {VARS}[k]).0.len() < 0x4000_0000')]},
      loops={0: L(inv=['{w.conn} == -1 && {socket._handle} == -1 && {w.fd} =~= {w.fd@pre}', f'{TIME} && ({{configuration}}._connectTimeoutMs >= 0 ==> {{w.started}} >= 0 && {{w.started}} == {{w.started@loop}})', NOREAD, SB, '{sendSocket._end} == 0', '{w.rx}[0] == {w.rx@pre}[0]', '16 <= {backoff} <= 1000']),
             1: L(inv=['0 <= {i} <= {argc}', f'{OUTB} =~= msg(0, {{workingDirectory}}) + req_args({{argv}}, {{i}})', NOREAD, CONN, SB, SOCKRX]),
             2: L(inv=[f'0 <= {{it}} <= {VARS}.len()', f'{OUTB} =~= msg(0, {{workingDirectory}}) + req_args({{argv}}, {{argc}}) + req_env({{w.env}}, {VARS}, {{it}})', NOREAD, CONN, SB, SOCKRX]),
             3: L(inv=REST + STDIN + OUTP, end=[STEP]),
             4: L(inv=['{pollSet}.len() == 2 && {pollSet}[0].fd == {pollSet@loop}[0].fd && {pollSet}[1].fd == {pollSet@loop}[1].fd']),
             5: L(inv=REST + OUTP + ['{w.tx} == {w.tx@loop} && {w.rx}[0] == {w.rx@loop}[0]'], entry=[STEP], end=[f'lemma_out_step({t}, {PENDH}, {PEND}, {{w.fout@head}}[{i}]);' for t, i in ((5, 1), (6, 2))])}),
]
