"""Contracts of Configuration.cxx"""
from contract import Contract as C, Loop as L

CONTRACTS = [
    C('k8psh::Utilities::isWhitespace', 'C09 C10 C18 C21', 'c', pure='is_ws({c})', ensures=[('is_ws', '{ret} == is_ws({c})')]),
    C('getRestOfLine', 'C18', 'in offset',
      requires=[('offset in string', '0 <= {offset} <= {in}.len()')],
      loops={0: L(inv=['{offset} <= {i} <= {in}.len()'], decr=['{in}.len() - {i}'])}),
    C('parseHexValue', 'C09 C18', 'c', throws='!is_hex({c})', throws_props='C09',
      ensures=[('value of the digit', '{ret} == hexval({c})', 'C09')]),
    C('skipComment', 'C09 C10 C18', 'configurationString offset',
      requires=[('offset in string', '0 <= {offset} <= {configurationString}.len()')],
      ensures=[('stops at the end of the line', '{ret} == skip_comment({configurationString}, {offset})'),
               ('in string', '{offset} <= {ret} <= {configurationString}.len()')],
      loops={0: L(inv=['{offset@pre} <= {offset} <= {configurationString}.len()',
                       'skip_comment({configurationString}, {offset}) == skip_comment({configurationString}, {offset@pre})'],
                  decr=['{configurationString}.len() - {offset}'])}),
    C('skipWhitespace', 'C10 C18', 'configurationString offset',
      requires=[('offset in string', '0 <= {offset} <= {configurationString}.len()')],
      ensures=[('stops at the first other character', '{ret} == skip_ws({configurationString}, {offset})'),
               ('in string', '{offset} <= {ret} <= {configurationString}.len()'),
               ('no white space there', '!is_ws(at0({configurationString}, {ret}))')],
      loops={0: L(inv=['{offset@pre} <= {offset} <= {configurationString}.len()',
                       'skip_ws({configurationString}, {offset}) == skip_ws({configurationString}, {offset@pre})'],
                  decr=['{configurationString}.len() - {offset}'])}),
    C('skipNonNewlineWhitespace', 'C10 C18', 'configurationString offset',
      requires=[('offset in string', '0 <= {offset} <= {configurationString}.len()')],
      ensures=[('stops at the first other character', '{ret} == skip_blank({configurationString}, {offset})'),
               ('in string', '{offset} <= {ret} <= {configurationString}.len()')],
      loops={0: L(inv=['{offset@pre} <= {offset} <= {configurationString}.len()',
                       'skip_blank({configurationString}, {offset}) == skip_blank({configurationString}, {offset@pre})'],
                  decr=['{configurationString}.len() - {offset}'])}),

    C('parseString', 'C09 C18', 'configurationString offset value terminator', modifies='value',
      requires=[('offset in string', '0 <= {offset} <= {configurationString}.len()')],
      throws='!wordat({w.env}, {configurationString}, {offset}, {terminator}).ok', throws_props='C09',
      ensures=[('text of the word', '{value} == wordat({w.env}, {configurationString}, {offset}, {terminator}).v', 'C09'),
               ('end of the word', '{ret} == wordat({w.env}, {configurationString}, {offset}, {terminator}).e', 'C09'),
               ('in string', '{offset} <= {ret} <= {configurationString}.len()'),
               ('progress', '{ret} > {offset} || stops(at0({configurationString}, {offset}), {terminator})')],
      loops={0: L(inv=['{offset@pre} <= {offset} <= {configurationString}.len()',
                       '0 <= {substituteStart} <= {value}.len()',
                       '{offset} == {offset@pre} ==> {value}.len() == 0',
                       'word({w.env}, {configurationString}, {offset}, {value}, {substituteStart}, {terminator}) == wordat({w.env}, {configurationString}, {offset@pre}, {terminator})'],
                  decr=['{configurationString}.len() - {offset}']),
             1: L(inv=['{offset@loop} <= {offset} <= {configurationString}.len() && {offset@pre} < {offset}',
                       'sq({configurationString}, {offset}, {value}) == sq({configurationString}, {offset@loop}, {value@loop})'],
                  decr=['{configurationString}.len() - {offset}']),
             2: L(inv=['{offset@loop} <= {offset} <= {configurationString}.len() && {offset@pre} < {offset}',
                       '0 <= {substituteStart} <= {value}.len()',
                       'dq({configurationString}, {offset}, {value}) == dq({configurationString}, {offset@loop}, {value@loop})'],
                  decr=['{configurationString}.len() - {offset}'])}),
    C('ensureRestOfLineEmpty', 'C10 C18', 'configurationString offset',
      requires=[('offset in string', '0 <= {offset} <= {configurationString}.len()')],
      throws='!lineend({configurationString}, {offset}).ok', throws_props='C10',
      ensures=[('stops at the end of the line', '{ret} == lineend({configurationString}, {offset}).e'),
               ('in string', '{offset} <= {ret} <= {configurationString}.len()')],
      loops={0: L(inv=['{offset@pre} <= {offset} <= {configurationString}.len()',
                       'blankline({configurationString}, {offset}) == lineend({configurationString}, {offset@pre})'],
                  decr=['{configurationString}.len() - {offset}'])}),
    C('getConfigurationValue', 'C10 C18', 'configurationString offset key value', modifies='key value', entry_hints=['broadcast use lemma_equals_skip;'],
      requires=[('offset in string', '0 <= {offset} <= {configurationString}.len()')],
      throws='!kv({w.env}, {configurationString}, {offset}, {value}).ok', throws_props='C10',
      ensures=[('key', '{key} == kv({w.env}, {configurationString}, {offset}, {value@pre}).k'),
               ('value', '{value} == kv({w.env}, {configurationString}, {offset}, {value@pre}).v'),
               ('end', '{ret} == kv({w.env}, {configurationString}, {offset}, {value@pre}).e'),
               ('progress', '{ret} > {offset} || stops(at0({configurationString}, {offset}), 0u8)'),
               ('in string', '{offset} <= {ret} <= {configurationString}.len()')],
      loops={0: L(inv=['{offset@loop} <= {offset} <= {configurationString}.len()',
                       'equals({configurationString}, {offset}, {foundEquals}) == equals({configurationString}, {offset@loop}, false)'],
                  decr=['{configurationString}.len() - {offset}'])}),
    C('parseHost', 'C10 C18', 'configurationString offset host', modifies='host',
      requires=[('offset in string', '0 <= {offset} <= {configurationString}.len()')],
      throws='!hosttag({w.env}, {configurationString}, {offset}).ok', throws_props='C10',
      ensures=[('name', '{host} == hosttag({w.env}, {configurationString}, {offset}).v'),
               ('end', '{ret} == hosttag({w.env}, {configurationString}, {offset}).e'),
               ('in string', '{offset} <= {ret} <= {configurationString}.len()')]),
    C('parseArguments', 'C10 C18', 'configurationString offset values', modifies='values',
      requires=[('offset in string', '0 <= {offset} <= {configurationString}.len()')],
      throws='!args({w.env}, {configurationString}, {offset}, {values}).ok', throws_props='C10',
      ensures=[('words', '{values} == args({w.env}, {configurationString}, {offset}, {values@pre}).vs'),
               ('end', '{ret} == args({w.env}, {configurationString}, {offset}, {values@pre}).e'),
               ('in string', '{offset} <= {ret} <= {configurationString}.len()'),
               ('grows', '{values}.len() >= {values@pre}.len()'),
               ('progress', '({ret} > {offset} && {values}.len() > {values@pre}.len()) || stops(at0({configurationString}, {offset}), 0u8)')],
      loops={0: L(inv=['{offset@pre} <= {offset} <= {configurationString}.len()',
                       '{values}.len() >= {values@pre}.len()',
                       '{offset} == {offset@pre} || {values}.len() > {values@pre}.len()',
                       'args({w.env}, {configurationString}, {offset}, {values}) == args({w.env}, {configurationString}, {offset@pre}, {values@pre})'],
                  end=['assert({values} =~= {values@head}.push({values}[{values}.len() - 1]));'],
                  decr=['{configurationString}.len() - {offset}'])}),
    C('k8psh::Configuration::load', 'C10 C18', 'configurationString workingPath', entry_hints=['broadcast use {lemma_sfindc, lemma_sfind, lemma_insert2, lemma_cmd_words_name, lemma_settings_skip, lemma_sections_skip};'],
      throws='!load({w.env}, {w.cwd}, {configurationString}, {workingPath}).ok', throws_props='C10', modifies='w.errno',
      ensures=[('base directory', '{ret._baseDirectory} == load({w.env}, {w.cwd}, {configurationString}, {workingPath}).cfg._baseDirectory', 'C10'),
               ('connect timeout', '{ret._connectTimeoutMs} == load({w.env}, {w.cwd}, {configurationString}, {workingPath}).cfg._connectTimeoutMs', 'C10'),
               ('commands of the hosts', '{ret._hostCommands} == load({w.env}, {w.cwd}, {configurationString}, {workingPath}).cfg._hostCommands', 'C10'),
               ('all commands', '{ret._commands} == load({w.env}, {w.cwd}, {configurationString}, {workingPath}).cfg._commands', 'C10')],
      loops={0: L(inv=['0 <= {i} <= {configurationString}.len()', '{configuration._hostCommands} == {configuration._hostCommands@loop} && {configuration._commands} == {configuration._commands@loop}',
                       '{absoluteWorkingPath} == norm(abspath({w.cwd}, {workingPath}))', 'is_abs({absoluteWorkingPath})',
                       'settings({w.env}, {w.cwd}, {configurationString}, {i}, {absoluteWorkingPath}, {configuration._baseDirectory}, {configuration._connectTimeoutMs}) == settings({w.env}, {w.cwd}, {configurationString}, 0, norm(abspath({w.cwd}, {workingPath})), norm(abspath({w.cwd}, {workingPath})), 30000)'],
                  decr=['{configurationString}.len() - {i}']),
             1: L(inv=['0 <= {i} <= {configurationString}.len()', '{configuration._baseDirectory} == {configuration._baseDirectory@loop} && {configuration._connectTimeoutMs} == {configuration._connectTimeoutMs@loop}',
                       '{currentHost}.nn || ({i} == {i@loop} && (at0({configurationString}, {i}) == 0 || at0({configurationString}, {i}) == 91))',
                       '0 <= {currentPort} <= 65536',
                       'sections({w.env}, {configurationString}, {i}, {currentHost}.v, {currentPort}, {environmentVariables}, Cmds { hosts: {configuration._hostCommands}, all: {configuration._commands} }) == sections({w.env}, {configurationString}, {i@loop}, no_host(), 1120, Seq::empty(), Cmds { hosts: Map::empty(), all: Map::empty() })'],
                  end=['let i0 = skip_ws({configurationString}, {i@head}); let k0 = at0({configurationString}, i0); if k0 != 0 && k0 != 35 && k0 != 91 {'
                       ' let a = args({w.env}, {configurationString}, i0, Seq::empty()); let x = mk_command({currentHost@head}.v, a.vs, {environmentVariables@head}); let y = {configuration._commands}[x._name];'
                       ' assert(y._host == x._host); assert(y._name == x._name); assert(y._environmentVariables == x._environmentVariables); assert(y._executable == x._executable);'
                       ' let c0 = Cmds { hosts: {configuration._hostCommands@head}, all: {configuration._commands@head} }; assert({configuration._hostCommands} == add_cmd(c0, x).hosts); assert({configuration._commands} == add_cmd(c0, x).all); }'],
                  decr=['{configurationString}.len() - {i}']),
             2: L(inv=['0 <= {j} <= {port}.len()', 'digits({port}, {j}) == digits({port}, 0)'], decr=['{port}.len() - {j}']),
             3: L(inv=['0 <= {it} <= {currentHost._options}.len()', '{currentHost} == {currentHost@loop}', 'opt_envs({currentHost._options}, {it}, {environmentVariables}) == opt_envs({currentHost._options}, 0, Seq::empty())'], decr=['{currentHost._options}.len() - {it}']),
             4: L(inv=['1 <= {j} <= {values}.len()', '{values}.len() == {values@loop}.len()', 'forall|q: int| {j} <= q < {values}.len() ==> {values}[q] == {values@loop}[q]',
                       '{command._host} == {command._host@loop} && {command._name} == {command._name@loop}',
                       'cmd_words({values@loop}, {j}, {command._environmentVariables}, {command._executable}) == cmd_words({values@loop}, 1, {environmentVariables}, Seq::empty())'], decr=['{values}.len() - {j}'])}),
]
