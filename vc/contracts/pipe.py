"""Contracts of Pipe (Utilities.cxx)"""
from contract import Contract as C, Loop as L

P = 'k8psh::Pipe'
OK = 'pipeok({w.fd}, {this._input}, {this._output})'
CONTRACTS = [
    C(P + '::Pipe', 'C03 C04 C06', '', throws='may', modifies='this w.fd w.rx w.tx w.broken w.nb w.shared w.errno',
      ensures=[('two new ends', '{this._input} >= 0 && {this._output} >= 0 && {this._input} != {this._output} && !{w.fd@pre}.dom().contains({this._input}) && !{w.fd@pre}.dom().contains({this._output})'),
               ('of one pipe', '{w.fd} =~= {w.fd@pre}.insert({this._output}, Fd { st: 6, port: {w.fd}[{this._input}].port }).insert({this._input}, Fd { st: 7, port: {w.fd}[{this._input}].port }) && fresh_pipe({w.fd@pre}, {w.fd}[{this._input}].port)'),
               ('empty', 'ins({w.tx@pre}, {w.tx}, {this._input}, Seq::empty())'), ('other streams are not touched', 'forall|h: int| h != {this._output} ==> #[trigger] {w.rx}[h] == {w.rx@pre}[h]'),
               ('nothing else', '{w.broken} == {w.broken@pre}.remove({this._input}) && {w.nb} == {w.nb@pre}.remove({this._output}).remove({this._input}) && {w.shared} == {w.shared@pre}.remove({this._output}).remove({this._input})')],
      exc_ensures=[('nothing happened', '{w.fd} == {w.fd@pre} && {w.rx} == {w.rx@pre} && {w.tx} == {w.tx@pre} && {w.broken} == {w.broken@pre} && {w.shared} == {w.shared@pre} && {w.nb} == {w.nb@pre}')]),
    C(P + '::~Pipe', 'C03 C04 C06', '', modifies='w.fd w.errno', requires=[('pipe', OK), ('different ends', '{this._input} == -1 || {this._input} != {this._output}')],
      ensures=[('both ends are closed', '{w.fd} =~= without(without({w.fd@pre}, {this._input}), {this._output})')]),
    C(P + '::closeInput', 'C03 C06', '', modifies='this w.fd w.errno', requires=[('pipe', OK)],
      ensures=[('only the input is closed', '{this._input} == -1 && {this._output} == {this@pre}._output && {w.fd} =~= without({w.fd@pre}, {this@pre}._input)')]),
    C(P + '::closeOutput', 'C04 C06', '', modifies='this w.fd w.errno', requires=[('pipe', OK)],
      ensures=[('only the output is closed', '{this._output} == -1 && {this._input} == {this@pre}._input && {w.fd} =~= without({w.fd@pre}, {this@pre}._output)')]),
    C(P + '::read', 'C04 C18', 'buffer', throws='may', modifies='buffer w.rx w.errno', requires=[('pipe', OK), ('open', '{this._output} >= 0'), ('room', '0 < {buffer}.len()')],
      ensures=[('no more than fits', '0 <= {ret} <= {buffer}.len() && {ret} <= {w.rx@pre}[{this._output}].len()'), ('the next bytes', 'ins({w.rx@pre}, {w.rx}, {this._output}, {w.rx@pre}[{this._output}].skip({ret}))', 'C04'),
               ('are in the buffer', '{buffer}.len() == {buffer@pre}.len() && take({buffer}, {ret}) =~= take({w.rx@pre}[{this._output}], {ret})', 'C04'),
               ('nothing only at the end', '{ret} == 0 ==> {w.rx@pre}[{this._output}].len() == 0', 'C04')],
      exc_ensures=[('other streams are not touched', 'forall|h: int| h != {this._output} ==> #[trigger] {w.rx}[h] == {w.rx@pre}[h]')],
      loops={0: L(inv=['-1 <= {read} <= {buffer}.len() && {read} <= {w.rx@pre}[{this._output}].len() && {buffer}.len() == {buffer@pre}.len()',
                       'ins({w.rx@pre}, {w.rx}, {this._output}, if {read} > 0 { {w.rx@pre}[{this._output}].skip({read}) } else { {w.rx@pre}[{this._output}] })',
                       'forall|k: int| 0 <= k < {read} ==> #[trigger] {buffer}[k] == {w.rx@pre}[{this._output}][k]', '{read} == 0 ==> {w.rx@pre}[{this._output}].len() == 0'])}),
    C(P + '::write', 'C03 C18', 'buffer', modifies='this w.fd w.tx w.broken w.errno', requires=[('pipe', OK), ('a broken pipe does not kill the process', '{w.sig}[13] == 1'), ('cannot block', '{this._input} == -1 || {w.nb}.contains({this._input})'), ('data', '{buffer}.len() > 0')],
      ensures=[('no more than there is', '0 <= {ret} <= {buffer}.len()'), ('written unchanged', '{this@pre}._input >= 0 ==> ins({w.tx@pre}, {w.tx}, {this@pre}._input, {w.tx@pre}[{this@pre}._input] + take({buffer}, {ret}))', 'C03'),
               ('nothing without a pipe', '{this@pre}._input == -1 ==> {ret} == 0 && {w.tx} == {w.tx@pre}'), ('output', '{this._output} == {this@pre}._output'),
               ('stays open', '{this._input} == {this@pre}._input && {w.fd} == {w.fd@pre} && {w.broken} == {w.broken@pre} || {this._input} == -1 && {ret} == 0 && {w.fd} =~= {w.fd@pre}.remove({this@pre}._input) && {w.broken} == {w.broken@pre}.insert({this@pre}._input)', 'C03')]),
    C(P + '::remapInput', 'C06 C04', 'handle', modifies='this w.fd w.rx w.tx w.errno', requires=[('pipe', OK), ('handle', '{handle} >= 0 && {handle} != {this._output}')],
      ensures=[('the pipe has the new number', '{ret} ==> {this._input} == {handle} && {this@pre}._input >= 0 && {w.fd} =~= (if {this@pre}._input == {handle} { {w.fd@pre} } else { {w.fd@pre}.insert({handle}, {w.fd@pre}[{this@pre}._input]).remove({this@pre}._input) })'),
               ('output', '{this._output} == {this@pre}._output'), ('nothing happens when it fails', '!{ret} ==> {w.fd} == {w.fd@pre} && {this._input} == {this@pre}._input')]),
    C(P + '::remapOutput', 'C06 C03', 'handle', modifies='this w.fd w.rx w.tx w.errno', requires=[('pipe', OK), ('handle', '{handle} >= 0 && {handle} != {this._input}')],
      ensures=[('the pipe has the new number', '{ret} ==> {this._output} == {handle} && {this@pre}._output >= 0 && {w.fd} =~= (if {this@pre}._output == {handle} { {w.fd@pre} } else { {w.fd@pre}.insert({handle}, {w.fd@pre}[{this@pre}._output]).remove({this@pre}._output) })'),
               ('input', '{this._input} == {this@pre}._input'), ('nothing happens when it fails', '!{ret} ==> {w.fd} == {w.fd@pre} && {this._output} == {this@pre}._output')]),
    C(P + '::setInputNonblocking', 'C03', '', modifies='w.nb w.errno', requires=[('pipe', OK), ('open', '{this._input} >= 0')], ensures=[('writing cannot block', '{ret} ==> {w.nb} == {w.nb@pre}.insert({this._input})', 'C03')]),
]
