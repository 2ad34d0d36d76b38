"""Contracts of Utilities.cxx"""
from contract import Contract as C, Loop as L

CONTRACTS = [
    C('k8psh::Utilities::getEnvironmentVariable', 'C08 C07', 'name', nparams=1, ensures=[('value in the environment', '{ret} == optenv({w.env}, {name})')]),
    C('k8psh::Utilities::getEnvironmentVariable', 'C08 C07', 'overrides name', nparams=2,
      ensures=[('override, else the environment', '{ret} == lookup({w.env}, {overrides}, {name})')]),
    C('k8psh::Utilities::substituteEnvironmentVariables', 'C08 C18', 'in overrides', entry_hints=['broadcast use {lemma_sfind, lemma_sfindc, lemma_name_end};'],
      ensures=[('references substituted', '{ret} == subst({w.env}, {overrides}, {in})', 'C08')],
      loops={0: L(inv=['0 <= {at} <= {in}.len() && {at} <= {i}',
                       '{i} <= {in}.len() ==> {result} + {in}.subrange({at}, {i}) + subst_at({w.env}, {overrides}, {in}, {i}) =~= subst({w.env}, {overrides}, {in})',
                       '{i} > {in}.len() ==> {result} + {in}.subrange({at}, {in}.len() as int) =~= subst({w.env}, {overrides}, {in})'],
                  decr=['{in}.len() - {i}'], head=['if {i} < {in}.len() { lemma_subst_step({w.env}, {overrides}, {in}, {result}, {at}, {i}); }']),
             1: L(inv=['{envNameOffset} <= {i} <= {in}.len()', 'name_end({in}, {i}) == name_end({in}, {envNameOffset})', '{at} == {dollar}',
                       '{result} == {result@loop}'],
                  decr=['{in}.len() - {i}'])}),

    C('isPathSeparator', 'C11 C12 C22', 'c', pure='is_sep({c})', ensures=[('separator', '{ret} == is_sep({c})')]),
    C('k8psh::Utilities::isAbsolutePath', 'C11 C10', 'filename', ensures=[('starts with a separator', '{ret} == is_abs({filename})')]),
    C('k8psh::Utilities::getBasename', 'C22 C18 C21', 'filename', entry_hints=['broadcast use {lemma_trim_end, lemma_name_start};'],
      ensures=[('last component', '{ret} == basename({filename})')],
      loops={0: L(inv=['1 <= {end} <= {filename}.len()', 'trim_end({filename}, {end}) == trim_end({filename}, {filename}.len() as int)'], decr=['{end}']),
             1: L(inv=['0 <= {i} < {end}', '{end} <= {filename}.len()', 'name_start({filename}, {i}) == name_start({filename}, {end} - 1)'], decr=['{i}'])}),
    C('k8psh::Utilities::getExecutableBasename', 'C22', 'filename', ensures=[('last component', '{ret} == basename({filename})')]),
    C('k8psh::Utilities::getParentDirectory', 'C22 C18', 'filename', entry_hints=['broadcast use {lemma_trim_end, lemma_name_start};'],
      ensures=[('directory part', '{ret} == parent_dir({filename})')],
      loops={0: L(inv=['0 <= {end} <= {filename}.len()', 'name_start({filename}, {end}) == name_start({filename}, {filename}.len() as int)'], decr=['{end}']),
             1: L(inv=['0 <= {end} <= {filename}.len()', 'trim_end({filename}, {end}) == trim_end({filename}, name_start({filename}, {filename}.len() as int))'], decr=['{end}'])}),
    C('k8psh::Utilities::normalizePath', 'C11 C18', 'path', exit_hints=['lemma_norm_normal({path});'], entry_hints=['broadcast use {lemma_skip_sep, lemma_comp_end};', 'lemma_nrep_init(is_abs({path}));'],
      ensures=[('normal form', '{ret} == norm({path})', 'C11'), ('stable under normalization', 'norm({ret}) == {ret}', 'C11'), ('absolute exactly when the input is', 'is_abs({ret}) == is_abs({path})', 'C11'), ('no NUL character', 'nonul({ret})', 'C11')],
      loops={0: L(inv=['0 <= {i} <= {path}.len()', '{isAbsolute} == is_abs({path})',
                       'nrep({newPath}, {directories}, {isAbsolute}, np_of({newPath}, {directories}, {isAbsolute}))',
                       'norm_from({path}, {i}, {isAbsolute}, np_of({newPath}, {directories}, {isAbsolute})) == norm_from({path}, 0, {isAbsolute}, Np { ups: 0, dirs: Seq::empty() })'],
                  entry=['lemma_nrep_is({newPath}, {directories}, {isAbsolute}, Np { ups: 0, dirs: Seq::empty() });'],
                  end=['let n0 = np_of({newPath@head}, {directories@head}, {isAbsolute}); let c0 = {path}.subrange({start}, {i});'
                       'lemma_nrep_push({newPath@head}, {directories@head}, {isAbsolute}, n0, c0);'
                       'if {directories@head}.len() == 0 && !{isAbsolute} { lemma_nrep_up({newPath@head}, {directories@head}, {isAbsolute}, n0); }'
                       'lemma_nrep_len({newPath@head}, {directories@head}, {isAbsolute}, n0); let n1 = norm_step(n0, {isAbsolute}, c0);'
                       'if !(c0 =~= dot()) && !(c0 =~= dotdot()) { assert({newPath} =~= join2({newPath@head}, c0, {isAbsolute})); }'
                       'assert(c0.len() == {i} - {start}); assert(c0[0] == {path}[{start}]); assert(dot()[0] == 46 && dotdot()[0] == 46 && dotdot()[1] == 46); if c0.len() > 1 { assert(c0[1] == {path}[{start} + 1]); }'
                       'if c0 =~= dot() { assert({newPath} =~= {newPath@head}); assert({directories} =~= {directories@head}); }'
                       'else if !(c0 =~= dotdot()) { assert({directories} =~= {directories@head}.push({newPath@head}.len() as int)); }'
                       'else if {directories@head}.len() > 0 { assert({newPath} =~= {newPath@head}.subrange(0, {directories@head}.last())); assert({directories} =~= {directories@head}.drop_last()); }'
                       'else if {isAbsolute} { assert({newPath} =~= {newPath@head}); assert({directories} =~= {directories@head}); }'
                       'else { assert({newPath} =~= join2({newPath@head}, dotdot(), false)); assert({directories} =~= {directories@head}); }'
                       'assert(nrep({newPath}, {directories}, {isAbsolute}, n1));'
                       'lemma_nrep_is({newPath}, {directories}, {isAbsolute}, n1);'],
                  exit=['lemma_render({newPath}, {directories}, {isAbsolute}, np_of({newPath}, {directories}, {isAbsolute}));'],
                  decr=['{path}.len() - {i}']),
             1: L(inv=['0 <= {i} <= {path}.len()', 'skip_sep({path}, {i}) == skip_sep({path}, {i@loop})'], decr=['{path}.len() - {i}']),
             2: L(inv=['{start} <= {i} <= {path}.len()', 'comp_end({path}, {i}) == comp_end({path}, {start})'], decr=['{path}.len() - {i}'])}),
    C('k8psh::Utilities::relativizePath', 'C12 C18', 'parent path', entry_hints=['broadcast use {lemma_piece_end, lemma_skip_dots};'],
      requires=[('parent has no NUL', 'nonul({parent})')],
      throws='!relativize({parent}, {path}).ok', throws_props='C12',
      ensures=[('rest of the path', '{ret} == relativize({parent}, {path}).v', 'C12')],
      loops={0: L(inv=['0 <= {i} <= {path}.len()', '0 <= {j} <= {parent}.len()', 'rel_at({parent}, {j}, {path}, {i}) == relativize({parent}, {path})'],
                  head=['if {j} < {parent}.len() && !is_sep({parent}[{j}]) { lemma_rel_step({parent}, {j}, {path}, {i}); }'],
                  decr=['{parent}.len() - {j}']),
             1: L(inv=['0 <= {j} <= {parent}.len()', 'skip_dots({parent}, {j}) == skip_dots({parent}, {j@loop})'], decr=['{parent}.len() - {j}']),
             2: L(inv=['0 <= {i} <= {path}.len()', 'skip_dots({path}, {i}) == skip_dots({path}, {i@loop})'], decr=['{path}.len() - {i}'],
                  exit=['if {j} < {parent}.len() { lemma_rel_step({parent}, {j}, {path}, {i}); }'])}),
    C('k8psh::Utilities::getWorkingDirectory', 'C10 C02', '', modifies='w.errno', opts={'statics': {'initialBufferSize': '1 <= {it} <= 0x3fff_ffff_ffff_ffff'}},
      ensures=[('working directory of the process', '{ret} == {w.cwd}')],
      loops={0: L(inv=['1 <= {buffer}.len() <= MAXLEN()'], decr=['{w.cwd}.len() + 1 - {buffer}.len()'])}),
    C('k8psh::Utilities::getAbsolutePath', 'C10 C18', 'filename', modifies='w.errno', throws='!abs_ok({w.cwd}, {filename})', throws_props='C10',
      ensures=[('absolute path', '{ret} == abspath({w.cwd}, {filename})'), ('starts at the root', 'is_abs({ret})')]),
    C('listContainsCaseInsensitive', 'C21 C18', 'list item', requires=[('plain name', 'plain_name({item})')],
      ensures=[('an entry of the list', '{ret} == list_has({list}, {item})', 'C21')],
      entry_hints=['if {list}.len() >= 0 { assert({list}.subrange(0, {list}.len() as int) =~= {list}); assert({item}.subrange(0, {item}.len() as int) =~= {item}); }'],
      loops={0: L(inv=['0 <= {it} <= {list}.len()', '{it} < {list}.len() ==> match_ci({list}, {item}, {it}, true)', 'none_before({list}, {item}, {it})'],
                  entry=['lemma_none_next({list}, {item}, 0, 0);'],
                  head=['if {it} < {list}.len() && !entry_at({list}, {item}, {it}) { lemma_none_next({list}, {item}, {it}, {item}.len() as int); }'],
                  decr=['{list}.len() - {it}']),
             1: L(inv=['0 <= {backIt} < {it}', 'lead({list}, {backIt} + 1) == lead({list}, {it})', '{matches}'], exit=['assert(lead({list}, 0));'], decr=['{backIt} + 1']),
             2: L(inv=['{it} + {item}.len() <= {fwdIt} <= {list}.len()', 'trail({list}, {fwdIt}) == trail({list}, {it} + {item}.len())'], decr=['{list}.len() + 1 - {fwdIt}'])}),
    C('getDebugName', 'C21', 'filename', requires=[('file name', '{filename}.nn')], entry_hints=['broadcast use {lemma_sfindc, lemma_sfind};'],
      ensures=[('name of the component', '{ret} == debug_name({filename}.s)')]),
    C('k8psh::Logger::shouldLogDebug', 'C21', 'filename', requires=[('file name', '{filename}.nn'), ('component names contain no separators', 'plain_name(debug_name({filename}.s))')],
      ensures=[('listed', '{ret} == debug_on({w.env}, {filename}.s)')]),
]
