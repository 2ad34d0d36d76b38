"""Contracts of the message layer (Process.cxx)"""
from contract import Contract as C, Loop as L

R = 'BufferedReceiveSocket'
S = 'BufferedSendSocket'
RI = '0 <= {this._readOffset} <= {this._end} <= {this._data}.len() && {this._data}.len() >= 5'
OPEN = '{w.fd}.dom().contains({this._socket._handle})'
PEND = 'pending({this._data}, {this._readOffset}, {this._end}, {w.rx}[{this._socket._handle}])'
PENDP = 'pending({this@pre}._data, {this@pre}._readOffset, {this@pre}._end, {w.rx@pre}[{this._socket._handle}])'
ELSE = 'forall|h: int| h != {this._socket._handle} ==> #[trigger] {w.rx}[h] == {w.rx@pre}[h]'
SI = '0 <= {this._end} <= {this._data}.len() && {this._data}.len() >= 5'
OUT = '{w.tx}[{this._socket._handle}] + {this._data}.subrange(0, {this._end})'
OUTP = '{w.tx@pre}[{this._socket._handle}] + {this@pre}._data.subrange(0, {this@pre}._end)'
ELSET = 'forall|h: int| h != {this._socket._handle} ==> #[trigger] {w.tx}[h] == {w.tx@pre}[h]'

CONTRACTS = [
    C(R + '::hasBufferedData', 'C01', '', ensures=[('buffered bytes', '{ret} == ({this._readOffset} != {this._end})')]),
    C(R + '::hasData', 'C01', '', modifies='w.errno', ensures=[('buffered bytes are data', '{this._readOffset} != {this._end} ==> {ret}')]),
    C(R + '::read', 'C01 C18', 'type value', throws='may', modifies='this type value w.rx w.errno', requires=[('buffer', RI), ('open', OPEN)],
      ensures=[('buffer', RI),
               ('false only at the end of the connection', f'!{{ret}} ==> {PENDP}.len() < 5', 'C01'),
               ('kind and value of the next message', f'{{ret}} ==> {PENDP}.len() >= 5 && {{type}} == {PENDP}[0] && {{value}} == le32({PENDP})', 'C01'),
               ('the rest follows', f'{{ret}} ==> {PEND} =~= {PENDP}.skip(5)', 'C01'),
               ('other streams are not touched', ELSE)],
      exc_ensures=[('other streams are not touched', ELSE)],
      loops={0: L(inv=['0 <= {i} <= {this@pre}._end - {this@pre}._readOffset', '{this._data}.len() == {this@pre}._data.len()', '{this._readOffset} == {this@pre}._readOffset && {this._end} == {this@pre}._end',
                       'forall|k: int| 0 <= k < {this._data}.len() ==> #[trigger] {this._data}[k] == {this@pre}._data[if k < {i} { k + {this@pre}._readOffset } else { k }]'],
                  exit=['assert({this._data}.subrange(0, {this._end} - {this._readOffset}) =~= {this@pre}._data.subrange({this@pre}._readOffset, {this@pre}._end));'],
                  decr=['{this._end} - {this._readOffset} - {i}']),
             1: L(inv=['{this._readOffset} == 0', '0 <= {this._end} <= {this._data}.len()', '{this._end} < 5', '{this._data}.len() == {this@pre}._data.len()', f'{PEND} =~= {PENDP}', ELSE],
                  decr=['if {this._end} < 5 { 5 - {this._end} } else { 0 }'])}),
    C(R + '::readString', 'C01 C18', 'length', throws='may', modifies='this w.rx w.errno', requires=[('buffer', RI), ('open', OPEN), ('length', '0 <= {length} < 0x1_0000_0000')],
      ensures=[('buffer', RI),
               ('a truncated payload is an error', f'{PENDP}.len() >= {{length}}', 'C01'),
               ('the payload unchanged', f'{{ret}} =~= take({PENDP}, {{length}})', 'C01'),
               ('the rest follows', f'{PEND} =~= {PENDP}.skip({{length}})', 'C01'),
               ('other streams are not touched', ELSE)],
      exc_ensures=[('other streams are not touched', ELSE)],
      loops={0: L(inv=[RI, '{string}.len() <= {length}', f'{{string}} + {PEND} =~= {PENDP}', ELSE],
                  decr=['2 * ({length} - {string}.len()) - (if {this._end} > {this._readOffset} { 1int } else { 0 })'])}),
    C(S + '::flush', 'C01', '', throws='may', modifies='this w.tx w.sendfail w.errno', requires=[('buffer', SI), ('open', f'{{this._end}} == 0 || {OPEN}')],
      ensures=[('buffer', SI), ('nothing is left in the buffer', '{this._end} == 0', 'C01'), ('everything was sent in order', f'{{w.tx}}[{{this._socket._handle}}] =~= {OUTP}', 'C01'), ('buffer size', '{this._data}.len() == {this@pre}._data.len()'), ('other streams are not touched', ELSET), ('a failure is remembered', '{w.sendfail@pre} ==> {w.sendfail}')],
      exc_ensures=[('sending failed', '{w.sendfail}'), ('only a part was sent', f'is_part({{w.tx}}[{{this._socket._handle}}], {OUTP})', 'C01'), ('buffer', SI), ('other streams are not touched', ELSET)]),
    C(S + '::write', 'C01 C18', 'type string length flush', nparams=4, throws='may', modifies='this w.tx w.sendfail w.errno',
      requires=[('buffer', SI), ('open', OPEN), ('length', '0 <= {length} < 0x1_0000_0000 && {length} <= {string}.len()'), ('kind', '0 <= {type} < 256')],
      ensures=[('buffer', SI), ('the message follows what was written before', f'{OUT} =~= {OUTP} + msg({{type}}, take({{string}}, {{length}}))', 'C01'), ('sent when flushed', '{flush} ==> {this._end} == 0', 'C01'), ('at once', f'{{flush}} && {{this@pre}}._end == 0 ==> {{w.tx}}[{{this._socket._handle}}] =~= {{w.tx@pre}}[{{this._socket._handle}}] + msg({{type}}, take({{string}}, {{length}}))'), ('other streams are not touched', ELSET), ('a failure is remembered', '{w.sendfail@pre} ==> {w.sendfail}')],
      exc_ensures=[('sending failed', '{w.sendfail}'), ('only a part was sent', f'is_part({{w.tx}}[{{this._socket._handle}}], {OUTP} + msg({{type}}, take({{string}}, {{length}})))', 'C01'), ('buffer', SI), ('other streams are not touched', ELSET), ('a failure is remembered', '{w.sendfail@pre} ==> {w.sendfail}')],
      loops={0: L(inv=['0 <= {i} <= {length}', '{this._end} + {length} - {i} <= {this._data}.len() && 5 <= {this._end}',
                       f'{OUT} =~= {OUTP} + msgv({{type}}, {{length}}) + {{string}}.subrange(0, {{i}})'],
                  end=['assert({string}.subrange(0, {i@head} + 1) =~= {string}.subrange(0, {i@head}).push({string}[{i@head}])); assert({this._data}.subrange(0, {this._end}) =~= {this@head}._data.subrange(0, {this@head}._end).push({string}[{i@head}]));'
                       'let o0 = {w.tx}[{this._socket._handle}] + {this@head}._data.subrange(0, {this@head}._end); assert({w.tx}[{this._socket._handle}] + {this._data}.subrange(0, {this._end}) =~= o0.push({string}[{i@head}]));'],
                  decr=['{length} - {i}'])}),
    C(S + '::write', 'C01', 'type string flush', nparams=3, throws='may', modifies='this w.tx w.sendfail w.errno', requires=[('buffer', SI), ('open', OPEN), ('length', '{string}.len() < 0x1_0000_0000'), ('kind', '0 <= {type} < 256')],
      ensures=[('buffer', SI), ('the message follows what was written before', f'{OUT} =~= {OUTP} + msg({{type}}, {{string}})', 'C01'), ('sent when flushed', '{flush} ==> {this._end} == 0', 'C01'), ('at once', f'{{flush}} && {{this@pre}}._end == 0 ==> {{w.tx}}[{{this._socket._handle}}] =~= {{w.tx@pre}}[{{this._socket._handle}}] + msg({{type}}, {{string}})'), ('other streams are not touched', ELSET), ('a failure is remembered', '{w.sendfail@pre} ==> {w.sendfail}')],
      exc_ensures=[('sending failed', '{w.sendfail}'), ('only a part was sent', f'is_part({{w.tx}}[{{this._socket._handle}}], {OUTP} + msg({{type}}, {{string}}))', 'C01'), ('buffer', SI), ('other streams are not touched', ELSET)]),
]
