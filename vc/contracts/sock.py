"""Contracts of Socket.cxx"""
from contract import Contract as C, Loop as L

H = '{this._handle}'
CONTRACTS = [
    C('createSocketHandle', 'C16', '', throws='may', modifies='w.fd w.rx w.tx w.shared w.nosock w.errno',
      ensures=[('a new socket', '{ret} >= 0 && !{w.fd@pre}.dom().contains({ret}) && {w.fd} == {w.fd@pre}.insert({ret}, Fd { st: 1, port: 0 })'), ('nobody else uses it', '{w.shared} == {w.shared@pre}.remove({ret})'),
               ('nothing sent', 'ins({w.tx@pre}, {w.tx}, {ret}, Seq::empty())'), ('other streams are not touched', 'forall|h: int| h != {ret} ==> #[trigger] {w.rx}[h] == {w.rx@pre}[h]')],
      exc_ensures=[('the system refused', '{w.nosock}'), ('nothing happened', '{w.fd} == {w.fd@pre} && {w.rx} == {w.rx@pre} && {w.tx} == {w.tx@pre} && {w.shared} == {w.shared@pre}')]),
    C('k8psh::Socket::listen', 'C16', 'port', throws='may', modifies='w.failed w.fd w.rx w.tx w.shared w.nosock w.errno', entry_hints=['broadcast use lemma_bswap;'],
      ensures=[('listens on the port', '{ret}._handle >= 0 && !{w.fd@pre}.dom().contains({ret}._handle) && {w.fd} =~= {w.fd@pre}.insert({ret}._handle, Fd { st: 3, port: {port} })', 'C16'),
               ('nobody else uses it', '!{w.shared}.contains({ret}._handle)')],
      exc_ensures=[('no socket is left', '{w.fd} =~= {w.fd@pre}', 'C16'), ('the system refused', '{w.failed} || {w.nosock}')]),
    C('k8psh::Socket::connect', 'C16 C23', 'port failOnError', throws='may', modifies='w.fd w.rx w.tx w.shared w.nosock w.conn w.peer w.sess w.errno', entry_hints=['broadcast use lemma_bswap;'],
      ensures=[('connected to the port', '{ret}._handle != -1 ==> {ret}._handle >= 0 && !{w.fd@pre}.dom().contains({ret}._handle) && {w.fd} =~= {w.fd@pre}.insert({ret}._handle, Fd { st: 4, port: {port} })', 'C16'),
               ('no socket when it failed', '{ret}._handle == -1 ==> {w.fd} =~= {w.fd@pre}', 'C16'),
               ('nothing sent', '{ret}._handle != -1 ==> {w.tx}[{ret}._handle] =~= Seq::<u8>::empty()', 'C01 C02'), ('nobody else uses it', '{ret}._handle != -1 ==> !{w.shared}.contains({ret}._handle)'),
               ('it is the current connection', '{ret}._handle != -1 ==> {w.conn} == {ret}._handle && {w.peer} == {port} && {w.sess} == {w.rx}[{ret}._handle]'), ('or there is none', '{ret}._handle == -1 ==> {w.conn} == {w.conn@pre} && {w.sess} == {w.sess@pre}'),
               ('other streams are not touched', 'kept({w.fd@pre}, {w.rx@pre}, {w.rx}) && kept({w.fd@pre}, {w.tx@pre}, {w.tx})')],
      exc_ensures=[('a refused connection is not an error', '!{failOnError} ==> {w.nosock}', 'C23'), ('no connection', '{w.conn} == {w.conn@pre} && {w.sess} == {w.sess@pre}'), ('no socket is left', '{w.fd} =~= {w.fd@pre}', 'C16'), ('other streams are not touched', 'kept({w.fd@pre}, {w.rx@pre}, {w.rx}) && kept({w.fd@pre}, {w.tx@pre}, {w.tx})')]),
    C('k8psh::Socket::abandon', 'C16 C19', '', modifies='this', ensures=[('the handle is handed over', '{ret} == {this@pre}._handle && {this}._handle == -1')]),
    C('k8psh::Socket::accept', 'C15 C16 C19', '', throws='may', modifies='w.accepted w.failed w.fd w.rx w.tx w.shared w.errno', requires=[('listening socket', '{this._handle} != -1 && {w.fd}.dom().contains({this._handle}) && {w.fd}[{this._handle}].st == 3')],
      ensures=[('a new connection', '{ret}._handle != -1 ==> {ret}._handle >= 0 && !{w.fd@pre}.dom().contains({ret}._handle) && {w.fd} =~= {w.fd@pre}.insert({ret}._handle, Fd { st: 5, port: {w.fd@pre}[{this._handle}].port }) && {w.fd}[{ret}._handle].st == 5 && {w.fd}[{this._handle}].st == 3'),
               ('otherwise nothing happened', '{ret}._handle == -1 ==> {w.fd} =~= {w.fd@pre}'), ('nobody else uses it', '{ret}._handle != -1 ==> {w.shared} == {w.shared@pre}.remove({ret}._handle)'), ('no sharing otherwise', '{ret}._handle == -1 ==> {w.shared} == {w.shared@pre}'),
               ('counted', '{w.accepted} == {w.accepted@pre} + b2i({ret}._handle != -1) && {w.accepted} <= 0x3fff_ffff_ffff_ffff && {w.failed} == {w.failed@pre}', 'C15'),
               ('nothing sent', '{ret}._handle != -1 ==> {w.tx}[{ret}._handle] =~= Seq::<u8>::empty()'),
               ('other streams are not touched', 'kept({w.fd@pre}, {w.rx@pre}, {w.rx}) && kept({w.fd@pre}, {w.tx@pre}, {w.tx})')],
      exc_ensures=[('no connection is left', '{w.fd} =~= {w.fd@pre} && {w.shared} == {w.shared@pre} && {w.accepted} == {w.accepted@pre}'), ('only when accepting cannot work any more', '{w.failed}', 'C15')]),
    C('k8psh::Socket::close', 'C16 C19', '', modifies='this w.fd w.errno', requires=[('open or invalid', 'sockok({w.fd}, {this._handle})'), ('not used by another process', '{this._handle} == -1 || !{w.shared}.contains({this._handle})')],
      ensures=[('closed', '{this}._handle == -1 && {w.fd} =~= (if {this@pre}._handle == -1 { {w.fd@pre} } else { {w.fd@pre}.remove({this@pre}._handle) })')]),
    C('k8psh::Socket::getPort', 'C16', '', modifies='w.errno', entry_hints=['broadcast use lemma_bswap;'], requires=[('ports are 16 bit numbers', '{w.fd}.dom().contains({this._handle}) ==> 0 <= {w.fd}[{this._handle}].port <= 0xffff')],
      ensures=[('the bound port', '{ret} == 0 || {w.fd}.dom().contains({this._handle}) && {ret} == {w.fd}[{this._handle}].port', 'C16')]),
    C('k8psh::Socket::hasData', 'C01 C18', '', modifies='w.errno'),
    C('socketRead', 'C01 C18', 'handle buffer length waitAll', throws='may', modifies='buffer w.rx w.errno',
      requires=[('open socket', '{w.fd}.dom().contains({handle})'), ('buffer large enough', '0 <= {length} <= {buffer}.len()')],
      exc_ensures=[('other streams are not touched', 'forall|h: int| h != {handle} ==> #[trigger] {w.rx}[h] == {w.rx@pre}[h]')],
      ensures=[('no more than asked for', '0 <= {ret} <= {length} && {ret} <= {w.rx@pre}[{handle}].len()', 'C01 C18'), ('the next bytes of the stream', 'ins({w.rx@pre}, {w.rx}, {handle}, {w.rx@pre}[{handle}].skip({ret}))', 'C01'),
               ('are in the buffer', '{buffer}.len() == {buffer@pre}.len() && forall|k: int| 0 <= k < {buffer}.len() ==> #[trigger] {buffer}[k] == (if k < {ret} { {w.rx@pre}[{handle}][k] } else { {buffer@pre}[k] })', 'C01'),
               ('nothing only at the end', '{ret} == 0 && {length} > 0 ==> {w.rx@pre}[{handle}].len() == 0', 'C01')],
      loops={0: L(inv=['0 <= {totalReceived} <= {length}', '{totalReceived} <= {w.rx@pre}[{handle}].len()', 'ins({w.rx@pre}, {w.rx}, {handle}, {w.rx@pre}[{handle}].skip({totalReceived}))', '{buffer}.len() == {buffer@pre}.len()',
                       'forall|k: int| 0 <= k < {buffer}.len() ==> #[trigger] {buffer}[k] == (if k < {totalReceived} { {w.rx@pre}[{handle}][k] } else { {buffer@pre}[k] })', '{totalReceived} == 0 || {waitAll}'],
                  decr=['{length} - {totalReceived}'])}),
    C('k8psh::Socket::read', 'C01 C18', 'data offset waitAll', throws='may', modifies='data w.rx w.errno',
      requires=[('open socket', '{w.fd}.dom().contains({this._handle})')],
      exc_ensures=[('other streams are not touched', 'forall|h: int| h != {this._handle} ==> #[trigger] {w.rx}[h] == {w.rx@pre}[h]')],
      ensures=[('no more than fits', '0 <= {ret} && ({offset} < {data}.len() ==> {offset} + {ret} <= {data}.len()) && ({offset} >= {data}.len() ==> {ret} == 0) && {ret} <= {w.rx@pre}[{this._handle}].len()', 'C01 C18'),
               ('the next bytes of the stream', 'ins({w.rx@pre}, {w.rx}, {this._handle}, {w.rx@pre}[{this._handle}].skip({ret}))', 'C01'),
               ('are in the buffer', '{data}.len() == {data@pre}.len() && forall|k: int| 0 <= k < {data}.len() ==> #[trigger] {data}[k] == (if {offset} <= k < {offset} + {ret} { {w.rx@pre}[{this._handle}][k - {offset}] } else { {data@pre}[k] })', 'C01'),
               ('nothing only at the end', '{ret} == 0 && {offset} < {data}.len() ==> {w.rx@pre}[{this._handle}].len() == 0', 'C01')]),
    C('k8psh::Socket::write', 'C01 C18', 'data offset end', nparams=3, throws='may', modifies='w.tx w.sendfail w.errno',
      requires=[('open socket', '{w.fd}.dom().contains({this._handle})'), ('existing bytes', '0 <= {offset} <= {end} <= {data}.len()')],
      ensures=[('everything is sent', '{ret} == {end} - {offset}', 'C01'), ('unchanged and in order', 'ins({w.tx@pre}, {w.tx}, {this._handle}, {w.tx@pre}[{this._handle}] + {data}.subrange({offset}, {end}))', 'C01'), ('a failure is remembered', '{w.sendfail@pre} ==> {w.sendfail}')],
      exc_ensures=[('sending failed', '{w.sendfail}'), ('only a part was sent', 'part_sent({w.tx@pre}, {w.tx}, {this._handle}, {data}.subrange({offset}, {end}))', 'C01')],
      exc_hints=[],
      loops={0: L(inv=['{offset@loop} <= {offset} <= {end}', '{totalSent} == {offset} - {offset@loop}', '{w.sendfail@pre} ==> {w.sendfail}', 'ins({w.tx@pre}, {w.tx}, {this._handle}, {w.tx@pre}[{this._handle}] + {data}.subrange({offset@loop}, {offset}))'], decr=['{end} - {offset}'])}),
]
