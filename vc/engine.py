"""Symbolic executor: turns one function of the real program into verification conditions.

The function body is executed symbolically over its clang AST.  Every assignment becomes a `let`, every branch a path
condition, every loop is cut at its invariant, every call of a function under contract is replaced by that contract, and
every call of another function of /repo is inlined.  The result is a passive (assignment free) Verus `proof fn` whose
`assert`s are the proof obligations of the function."""
import re
from cast import Unsupported

I64MAX = 2**63 - 1
MAXLEN = 'MAXLEN()'

BOOL = ('bool',)
CHAR = ('char',)
U8 = ('u8',)
STR = ('str',)
CPTR = ('cptr',)
VOID = ('void',)
STREAM = ('stream',)
NULLT = ('null',)


def INT(bits, signed):
    return ('int', bits, signed)


I32 = INT(32, True)
U32 = INT(32, False)
I64 = INT(64, True)
U64 = INT(64, False)

_builtin = {
    'int': I32, 'signed int': I32, 'unsigned int': U32, 'unsigned': U32, 'long': I64, 'long long': I64, 'unsigned long': U64,
    'unsigned long long': U64, 'short': INT(16, True), 'unsigned short': INT(16, False), 'bool': BOOL, 'char': CHAR,
    'unsigned char': U8, 'signed char': INT(8, True), 'void': VOID, 'std::size_t': U64, 'size_t': U64, 'ssize_t': I64,
    'std::uint8_t': U8, 'uint8_t': U8, 'std::uint32_t': U32, 'uint32_t': U32, 'pid_t': I32, 'socklen_t': U32, 'nfds_t': U64,
    'std::nullptr_t': NULLT, 'nullptr_t': NULLT, 'mode_t': U32, 'uint16_t': INT(16, False), 'in_port_t': INT(16, False),
    'sa_family_t': INT(16, False), 'double': ('double',), 'size_type': U64,
}


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def rng(t):
    """(lo, hi) of an integral type, or None"""
    if t[0] == 'int':
        return (-(2**(t[1] - 1)), 2**(t[1] - 1) - 1) if t[2] else (0, 2**t[1] - 1)
    if t == CHAR:
        return (-128, 127)
    if t == U8:
        return (0, 255)
    if t == BOOL:
        return (0, 1)
    return None


class LV:
    __slots__ = ('root', 'path', 't')

    def __init__(self, root, path, t):
        self.root, self.path, self.t = root, tuple(path), t

    def at(self, el, t):
        return LV(self.root, self.path + (el,), t)

    def __repr__(self):
        return f'LV({self.root},{self.path},{self.t})'


class V:
    """A value: an rvalue term, an lvalue, or a statically known thing (pointer, iterator, lambda, stream)."""
    __slots__ = ('t', 'term', 'lv', 'const', 'chr', 'x', 'null', 'idx')

    def __init__(self, t, term=None, lv=None, const=None, chr=None, x=None, null=None, idx=None):
        self.t, self.term, self.lv, self.const, self.chr, self.x, self.null, self.idx = t, term, lv, const, chr, x, null, idx

    def __repr__(self):
        return f'V({self.t},{self.term},{self.lv})'


class St:
    __slots__ = ('roots', 'pc')

    def __init__(self, roots, pc):
        self.roots, self.pc = roots, pc

    def copy(self):
        return St(dict(self.roots), self.pc)


class Obl:
    __slots__ = ('name', 'kind', 'fn', 'line', 'props', 'text', 'out', 'src', 'inv')

    def __init__(self, name, kind, fn, props, text, src):
        self.name, self.kind, self.fn, self.props, self.text, self.src = name, kind, fn, props, text, src
        self.out = None
        self.line = None
        self.inv = None


class Frame:
    def __init__(self, decl, parent=None, key=()):
        self.decl, self.parent, self.key = decl, parent, key
        self.locals = {}      # decl id -> V (binding)
        self.names = {}       # name -> V (latest)
        self.this = None      # V lvalue
        self.order = []       # (name, type) of declared locals


class Target:
    def __init__(self, kind, depth, label=None, frame=None):
        self.kind, self.depth, self.label, self.frame = kind, depth, label, frame
        self.brk, self.cont, self.ret, self.thr = [], [], [], []


def paren(t):
    return t if re.fullmatch(r'[A-Za-z_][\w.]*|\d+|\(.*\)', t) and _bal(t) else f'({t})'


def _bal(t):
    if not t.startswith('('):
        return True
    d = 0
    for i, c in enumerate(t):
        d += (c == '(') - (c == ')')
        if d == 0 and i < len(t) - 1:
            return False
    return True


def conj(xs):
    xs = [x for x in xs if x != 'true']
    if any(x == 'false' for x in xs):
        return 'false'
    if not xs:
        return 'true'
    return ' && '.join(paren(x) for x in xs)


def neg(x):
    if x == 'true':
        return 'false'
    if x == 'false':
        return 'true'
    return '!' + paren(x)


def ilit(n):
    return f'({n})' if n < 0 else str(n)


class Types:
    """C++ type strings -> model types, model types -> Verus types; struct declarations."""

    def __init__(self, repo, fieldmap=None):
        self.repo = repo
        self.cache = {}
        self.structs = {}       # verus name -> [(field, T)]
        self.refs = {}          # verus name -> {field: T}
        self.fieldmap = fieldmap or {}
        self.alias = {}

    def short(self, q):
        return q.replace('k8psh::', '').replace('::', '_')

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s):
        s = s.strip()
        s = re.sub(r'\b(const|volatile|typename|struct|class|enum)\b', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        s = re.sub(r'\s*([<>,&*])\s*', r'\1', s)
        while s.endswith('&'):
            s = s[:-1].strip()
        if s in _builtin:
            return _builtin[s]
        m = re.fullmatch(r'(.*)\[(\d*)\]', s)
        if m:
            return ('arr', self.parse(m.group(1)), int(m.group(2) or 0))
        if s.endswith('*'):
            inner = s[:-1].strip()
            if inner == 'char':
                return CPTR
            if inner == 'char*':
                return ('ptr', CPTR)
            if inner in ('FILE', '_IO_FILE', 'std::FILE'):
                return ('file',)
            try:
                return ('ptr', self.parse(inner))
            except Unsupported:
                return ('ptr', ('opaque', inner))
        m = re.fullmatch(r'([\w:]+)<(.*)>((?:::\w+)*)', s)
        if m and not m.group(3):
            n, a = m.group(1), split_args(m.group(2))
            n = n.split('::')[-1]
            if n == 'basic_string':
                return STR
            if n in ('vector', 'initializer_list'):
                return ('vec', self.parse(a[0]))
            if n == 'pair':
                return ('pair', self.parse(a[0]), self.parse(a[1]))
            if n == 'unordered_map':
                return ('map', self.parse(a[0]), self.parse(a[1]))
            if n in ('shared_ptr', '__shared_ptr_access', '__shared_ptr'):
                return ('sptr', self.parse(a[0]))
            if n in ('basic_ostream', 'basic_istream', 'basic_ostringstream', 'basic_ios', 'basic_iostream'):
                return STREAM
            if n == 'duration':
                return ('dur', self.ratio(a))
            if n == 'time_point':
                return ('tp',)
            if n in ('__normal_iterator', '_Node_iterator', '_Node_const_iterator'):
                return ('itdecl',)
            if n in ('allocator', 'hash'):
                return ('opaque', n)
        if s in ('std::string', 'string', 'basic_string'):
            return STR
        if s in ('std::ostream', 'std::istream', 'ostream', 'std::ostringstream', 'std::ios_base', 'std::basic_ios'):
            return STREAM
        if s in ('FILE', '_IO_FILE', 'std::FILE'):
            return ('file',)
        if s in ('iterator', 'const_iterator'):
            return ('itdecl',)
        if '(lambda at' in s:
            return ('lambda',)
        if re.fullmatch(r'(\w+::)*(Handle|Event)', s):
            return I32
        if s in ('std::exception', 'std::runtime_error', 'std::out_of_range'):
            return ('exc',)
        if s in ('std::chrono::milliseconds',):
            return ('dur', 1000000)
        if s in ('std::chrono::steady_clock::time_point',):
            return ('tp',)
        for q in self.repo.enums:
            if s == q or q.endswith('::' + s):
                return U32
        for q in self.repo.structs:
            if s == q:
                return self.struct(q)
        for q in self.repo.structs:
            if q.endswith('::' + s):
                return self.struct(q)
        for q, ty in self.repo.typedefs.items():
            if (s == q or q.endswith('::' + s)) and ty != s:
                return self.parse(ty)
        if s in ('sockaddr_in', 'pollfd', 'in_addr', 'sockaddr'):
            return self.libstruct(s)
        raise Unsupported(f'type {s}')

    def ratio(self, a):
        if len(a) < 2:
            return 1000000000
        m = re.match(r'(?:std::)?ratio<(\d+)(?:,(\d+))?>', a[1])
        if m:
            num, den = int(m.group(1)), int(m.group(2) or 1)
            return 1000000000 * num // den
        n = a[1].split('::')[-1]
        return {'nano': 1, 'micro': 1000, 'milli': 1000000}[n]

    def struct(self, q):
        n = self.short(q)
        t = ('struct', n)
        if n not in self.structs:
            self.structs[n] = []
            self.refs[n] = {}
            self.alias[n] = q
            rec = next((x for x in self.repo.node.values() if x.get('kind') == 'CXXRecordDecl' and x.get('completeDefinition') and x.get('name') == q.split('::')[-1] and x.get('_base') is not None), None)
            if rec is not None and rec.get('_base'):
                self.structs[n].append(('base', self.parse(rec['_base'])))
            for f, ty in self.repo.structs[q]:
                cf = self.fieldmap.get((n, f), f)
                if ty.strip().endswith('&'):
                    self.refs[n][f] = self.parse(ty)
                else:
                    try:
                        self.structs[n].append((cf, self.parse(ty)))
                    except Unsupported:
                        self.structs[n].append((cf, ('opaque', ty)))
        return t

    def libstruct(self, s):
        d = {'sockaddr_in': [('sin_family', INT(16, False)), ('sin_port', INT(16, False)), ('sin_addr', ('arr', U8, 4))],
             'pollfd': [('fd', I32), ('events', INT(16, True)), ('revents', INT(16, True))]}
        if s not in d:
            raise Unsupported('type ' + s)
        self.structs[s] = d[s]
        self.refs.setdefault(s, {})
        return ('struct', s)

    def fields(self, t):
        return self.structs[t[1]]

    def fieldt(self, t, f):
        for a, b in self.structs[t[1]]:
            if a == f:
                return b
        raise Unsupported(f'no field {f} in {t}')

    def vt(self, t):
        k = t[0]
        if k in ('int', 'dur', 'tp'):
            return 'int'
        if k == 'bool':
            return 'bool'
        if k in ('char', 'u8'):
            return 'u8'
        if k == 'str':
            return 'Seq<u8>'
        if k in ('vec', 'arr'):
            return f'Seq<{self.vt(t[1])}>'
        if k == 'pair':
            return f'({self.vt(t[1])}, {self.vt(t[2])})'
        if k == 'map':
            return f'Map<{self.vt(t[1])}, {self.vt(t[2])}>'
        if k == 'struct':
            return t[1]
        if k == 'sptr':
            return f'SP<{self.vt(t[1])}>'
        if k == 'cptr':
            return 'CP'
        if k == 'it':
            return 'Option<Seq<u8>>' if t[2] == 'mapkey' else 'int'
        if k == 'file':
            return 'int'
        if k == 'raw':
            return t[1]
        if k == 'opaque' or k == 'ptr':
            return 'int'
        raise Unsupported(f'no Verus type for {t}')

    def default(self, t):
        k = t[0]
        if k in ('int', 'dur', 'tp', 'file', 'opaque', 'ptr'):
            return '0int'
        if k == 'bool':
            return 'false'
        if k in ('char', 'u8'):
            return '0u8'
        if k == 'str':
            return 'Seq::<u8>::empty()'
        if k == 'vec':
            return f'Seq::<{self.vt(t[1])}>::empty()'
        if k == 'arr':
            return f'Seq::<{self.vt(t[1])}>::new({t[2]}, |i: int| {self.default(t[1])})'
        if k == 'pair':
            return f'({self.default(t[1])}, {self.default(t[2])})'
        if k == 'map':
            return f'Map::<{self.vt(t[1])}, {self.vt(t[2])}>::empty()'
        if k == 'struct':
            return t[1] + ' { ' + ', '.join(f'{f}: {self.default(ft)}' for f, ft in self.fields(t)) + ' }'
        if k == 'sptr':
            return f'SP {{ nn: false, sh: false, v: {self.default(t[1])} }}'
        if k == 'cptr':
            return 'CP { nn: false, s: Seq::<u8>::empty() }'
        raise Unsupported(f'default of {t}')

    def decls(self):
        out = []
        for n, fs in self.structs.items():
            try:
                body = ', '.join(f'pub {f}: {self.vt(t)}' for f, t in fs)
            except Unsupported:
                continue
            out.append(f'pub ghost struct {n} {{ {body} }}')
        return '\n'.join(out)


GENERIC = {'begin', 'end', 'it', 'i', 'j', 'size', 'length', 'first', 'second'}


def loop_var(n):
    """the variable a loop counts with"""
    def decls(x):
        return [d.get('name') for d in (x.get('inner') or []) if d.get('kind') == 'VarDecl']
    if n.get('kind') == 'ForStmt':
        return (decls(n['inner'][0]) or [None])[0]
    if n.get('kind') == 'CXXForRangeStmt':
        return (decls(n['inner'][-6]) or [None])[0]
    return None


def loop_sig(n, skip=lambda x: False):
    """the names a loop is made of"""
    out = set()

    def go(x):
        if not isinstance(x, dict):
            return
        k, nm = x.get('kind'), None
        if k == 'DeclRefExpr':
            nm = (x.get('referencedDecl') or {}).get('name')
        elif k == 'MemberExpr':
            nm = x.get('name')
        elif k in ('IntegerLiteral', 'StringLiteral', 'CharacterLiteral'):
            nm = str(x.get('value'))
        if nm and not nm.startswith('operator') and not nm.startswith('__') and nm not in GENERIC:
            out.add(nm)
        for y in x.get('inner', []) or []:
            if not (isinstance(y, dict) and skip(y)):
                go(y)
    go(n)
    return out


class Exec:
    MAXDEPTH = 40

    def __init__(self, repo, types, contracts, lib, name, decl, contract, inline_only=()):
        self.repo, self.ty, self.contracts, self.lib = repo, types, contracts, lib
        self.name, self.decl, self.c = name, decl, contract
        self.lines = []
        self.params = []         # (name, verus type)
        self.obls = []
        self.n = 0
        self.dry = 0
        self.writes = None
        self.rtype = {}
        self.refs = {}
        self.scopes = [[]]
        self.targets = []
        self.exits = []          # (kind, St, code)
        self.frame = None
        self.loopidx = {}
        self.notes = []
        self.called = set()      # contracts relied upon
        self.inlined = set()
        self.libused = set()
        self.statics = {}
        self.curline = None
        self.loopmaps = []
        self.oblcount = {}
        self.consts = {}         # extra spec fns
        self.unsupported_hints = []
        self.detached = set()    # loops whose annotations do not fit the text any more
        self.headsnaps = {}
        self.spans = []          # (first line, end, hidden definitions) of loops whose iterations are proved from the invariants alone
        self.joins = {}          # path condition -> path conditions of the parts of an expression evaluated under it

    # ---------------------------------------------------------------- emission
    def fresh_name(self, base):
        self.n += 1
        base = re.sub(r'\W', '_', base)
        return f'{base}_{self.n}'

    def let(self, base, vt, term):
        if re.fullmatch(r'[A-Za-z_]\w*|\d+|true|false', term) and vt != 'nolet':
            return term
        nm = self.fresh_name(base)
        self.lines.append(f'let {nm}: {vt} = {term};')
        return nm

    def fresh(self, base, t, wf=True):
        vt = self.ty.vt(t)
        nm = self.fresh_name(base)
        self.params.append((nm, vt))
        if wf:
            for f in self.wf(t, nm):
                self.assume_raw(f)
        return nm

    def wf(self, t, term, depth=0):
        r = rng(t)
        if r and t not in (CHAR, U8, BOOL):
            return [f'{ilit(r[0])} <= {term} <= {r[1]}']
        if t[0] in ('str', 'vec'):
            return [f'{term}.len() <= {MAXLEN}']
        if t[0] == 'arr':
            return [f'{term}.len() == {t[2]}']
        if t == CPTR:
            return [f'cwf({term})']
        if t[0] == 'struct' and depth < 3:
            out = []
            for f, ft in self.ty.fields(t):
                out += self.wf(ft, f'{term}.{f}', depth + 1)
            return out
        return []

    def assume_raw(self, f):
        self.lines.append(f'assume({f});')

    def assume(self, f):
        if f == 'true':
            return
        pc = self.st.pc
        self.lines.append(f'assume({f});' if pc == 'true' else f'assume({pc} ==> ({f}));')

    def hint(self, text):
        if self.collect is not None:
            self.collect.setdefault(('hint', text, None, None), []).append(self.st.pc)
            return
        pc = self.st.pc
        self.lines.append(text if pc == 'true' else f'if {pc} {{ {text} }}')

    def obl(self, kind, label, f, props=None, by=None, inv=None):
        """Emit a named obligation; afterwards it may be assumed."""
        if f == 'true' or self.st is None:
            return
        if self.collect is not None:
            self.collect.setdefault((kind, label, f, props), []).append(self.st.pc)
            return
        fn = self.name
        base = f'{fn}/{label}'
        k = self.oblcount.get(base, 0) + 1
        if not self.dry:
            self.oblcount[base] = k
        nm = base if k == 1 else f'{base}#{k}'
        o = Obl(nm, kind, fn, props, f, self.curline)
        o.inv = inv
        pc = self.st.pc
        body = f if pc == 'true' else f'{pc} ==> ({f})'
        if by:
            text = f'assert({body}) by {{ {by} }};'
        else:
            text = f'assert({body});'
        if not self.dry:
            o.text = body
            self.lines.append(('OBL', len(self.obls), text))
            self.obls.append(o)
        else:
            self.lines.append(text)

    # ---------------------------------------------------------------- state access
    def root_new(self, base, t, term):
        r = self.fresh_name(base)
        self.rtype[r] = t
        self.st.roots[r] = self.let(base, self.ty.vt(t), term) if term is not None else term
        return LV(r, (), t)

    def acc(self, term, path):
        for el in path:
            k = el[0]
            if k == 'f':
                term = f'{paren(term)}.{el[2]}'
            elif k == 'i':
                term = f'{paren(term)}[{el[1]}]'
            elif k == 'c':
                term = f'at0({term}, {el[1]})'
            elif k == 'k':
                term = f'{paren(term)}[{el[1]}]'
            elif k == 'p':
                term = f'{paren(term)}.{el[1]}'
            elif k == 'sv':
                term = f'{paren(term)}.v'
            else:
                raise Unsupported(f'path {el}')
        return term

    def upd(self, term, path, v):
        if not path:
            return v
        el, rest = path[0], path[1:]
        inner = self.upd(self.acc(term, (el,)), rest, v)
        k = el[0]
        if k == 'f':
            fs = self.ty.fields(('struct', el[1]))
            return f'{el[1]} {{ ' + ', '.join(f'{f}: ' + (inner if f == el[2] else f'{paren(term)}.{f}') for f, _ in fs) + ' }'
        if k in ('i', 'c'):
            return f'{paren(term)}.update({el[1]}, {inner})'
        if k == 'k':
            return f'{paren(term)}.insert({el[1]}, {inner})'
        if k == 'p':
            return f'({inner}, {paren(term)}.1)' if el[1] == 0 else f'({paren(term)}.0, {inner})'
        if k == 'sv':
            return f'SP {{ nn: true, sh: {paren(term)}.sh, v: {inner} }}'
        raise Unsupported(f'path {el}')

    def get(self, lv):
        if lv.root not in self.st.roots:
            raise Unsupported(f'read of unknown root {lv.root}')
        base = self.st.roots[lv.root]
        if base is None:
            # uninitialised variable: an arbitrary value of its type
            base = self.fresh(lv.root, self.rtype[lv.root])
            self.st.roots[lv.root] = base
        return self.acc(base, lv.path)

    def set(self, lv, term):
        if self.writes is not None:
            pre = []
            for el in lv.path:
                if el[0] != 'f':
                    break
                pre.append(el)
            self.writes.add((lv.root, tuple(pre)))
        if any(el[0] == 'sv' for el in lv.path):
            i = max(j for j, el in enumerate(lv.path) if el[0] == 'sv')
            self.obl('aliasing', 'object is not yet shared when modified', neg(self.get(LV(lv.root, lv.path[:i], None)) + '.sh'))
        base = self.st.roots[lv.root]
        if base is None and lv.path:
            base = self.fresh(lv.root, self.rtype[lv.root])
        t = self.rtype[lv.root]
        new = self.upd(base, lv.path, term)
        self.st.roots[lv.root] = self.let(re.sub(r'_\d+$', '', lv.root), self.ty.vt(t), new)

    def w(self, name):
        """A root of the ghost world."""
        r = 'w.' + name
        t = self.lib.WORLD[name]
        if r not in self.rtype:
            self.rtype[r] = t
        if r not in self.st.roots:
            raise Unsupported('world root not initialised ' + r)
        return LV(r, (), t)

    def rv(self, v):
        """Term of the value (reading an lvalue)."""
        if v.lv is not None and v.t[0] not in ('ptr',):
            t = self.get(v.lv)
            if v.t[0] == 'int' and v.lv.path and v.term is None:
                for f in self.wf(v.t, t):
                    self.assume(f)
            return t
        if v.term is None:
            raise Unsupported(f'no term for value of type {v.t}')
        return v.term

    def load(self, v):
        """lvalue-to-rvalue conversion: captures the current value."""
        if v.lv is None or v.t[0] in ('ptr', 'lambda', 'stream', 'file'):
            return v
        t = self.rv(v)
        x = V(v.t, t)
        if v.t[0] == 'it':
            x.x = v.x
        return x

    # ---------------------------------------------------------------- merging
    def merge(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        a = sts[0]
        for b in sts[1:]:
            a = self.merge2(a, b)
        return a

    def merge2(self, a, b):
        roots = {}
        for r, ta in a.roots.items():
            if r not in b.roots:
                continue
            tb = b.roots[r]
            if ta == tb:
                roots[r] = ta
            elif ta is None or tb is None:
                roots[r] = ta if tb is None else tb  # uninitialised on one side: any value is a legal choice there
                if ta is None or tb is None:
                    roots[r] = ta if ta is not None else tb
            else:
                roots[r] = self.let(re.sub(r'_\d+$', '', r), self.ty.vt(self.rtype[r]), f'if {a.pc} {{ {ta} }} else {{ {tb} }}')
        if a.pc == 'true' or b.pc == 'true':
            pc = 'true'
        else:
            pc = self.let('pc', 'bool', f'{a.pc} || {b.pc}')
        return St(roots, pc)

    def and_pc(self, c):
        if c == 'true':
            return self.st.pc
        if self.st.pc == 'true':
            return self.let('pc', 'bool', c)
        return self.let('pc', 'bool', f'{self.st.pc} && {paren(c)}')

    # ---------------------------------------------------------------- exits
    def unwind(self, depth):
        """Run destructors of all scopes above depth on the current state (innermost first)."""
        saved = self.scopes
        while len(self.scopes) > depth:
            sc = self.scopes[-1]
            self.scopes = self.scopes[:-1]
            for lv, d in reversed(sc):
                if self.st is None:
                    break
                self.run_dtor(lv, d)
        self.scopes = saved

    def run_dtor(self, lv, d):
        if self.st is None:
            return
        c = self.contract_for(d)
        if c is not None and c is not self.c or d.body is not None:
            self.call_repo(d, V(lv.t, lv=lv), [], None, noexcept=True)

    def push_scope(self):
        self.scopes = self.scopes + [[]]

    def pop_scope(self):
        if self.st is not None:
            sc = self.scopes[-1]
            self.scopes = self.scopes[:-1]
            for lv, d in reversed(sc):
                if self.st is None:
                    break
                self.run_dtor(lv, d)
        else:
            self.scopes = self.scopes[:-1]

    def leave(self, kind, val=None):
        """Abrupt completion of the current state."""
        if self.st is None:
            return
        ts = self.targets
        for i in range(len(ts) - 1, -1, -1):
            t = ts[i]
            if kind == 'throw' and t.kind == 'try':
                self.unwind(t.depth)
                if self.st is not None:
                    t.thr.append(self.st)
                self.st = None
                return
            if kind == 'throw' and t.kind == 'noexcept':
                t.thr.append(self.st)
                self.st = None
                return
            if kind == 'break' and t.kind in ('loop', 'switch'):
                self.unwind(t.depth)
                if self.st is not None:
                    t.brk.append(self.st)
                self.st = None
                return
            if kind == 'continue' and t.kind == 'loop':
                self.unwind(t.depth)
                if self.st is not None:
                    t.cont.append(self.st)
                self.st = None
                return
            if kind == 'return' and t.kind == 'fn':
                self.unwind(t.depth)
                if self.st is not None:
                    t.ret.append((self.st, val))
                self.st = None
                return
            if kind == 'goto' and t.kind == 'label' and t.label == val:
                self.unwind(t.depth)
                if self.st is not None:
                    t.brk.append(self.st)
                self.st = None
                return
        if kind == 'throw':
            self.unwind(1)
            if self.st is not None:
                self.exits.append(('throw', self.st, None))
            self.st = None
            return
        if kind in ('exit', 'abort'):
            self.exits.append((kind, self.st, val))
            self.st = None
            return
        raise Unsupported(f'no target for {kind}')

    def exec_obls(self, vals):
        """The program of this process is replaced: what the function under contract promises about that."""
        c = self.c
        saved, self.frame = self.frame, self.rootframe
        env = self.env_here({})
        env['exec'] = vals
        root = self.frame

        def names(nm):
            keep, self.frame = self.frame, root
            try:
                return self.lookup_name(nm)
            finally:
                self.frame = keep
        env['names'] = names
        self.frame = saved
        if not c.exec_ensures and not c.may_exec:
            self.obl('ensures', 'does not replace the program of the process', 'false', props='C06 C19')
        for lab, f, *tags in c.exec_ensures:
            self.obl('exec', f'when the program starts: {lab}', self.placeholder(env, f), props=tags[0] if tags else None)
        self.canaries_exec.append(self.st.pc)

    def exit_with(self, kind, code=None):
        self.exits.append((kind, self.st, code))
        self.st = None

    def throw_if(self, cond):
        """Split off the exceptional path under cond."""
        if cond == 'false' or self.st is None:
            return
        if cond == 'true':
            self.leave('throw')
            return
        cond = self.let('thr', 'bool', cond)
        s = self.st.copy()
        s.pc = self.and_pc(cond)
        rest = self.and_pc(neg(cond))
        self.st.pc = rest
        keep = self.st
        self.st = s
        self.leave('throw')
        self.st = keep

    # ---------------------------------------------------------------- contracts
    def contract_for(self, d):
        return self.contracts.lookup(d)

    def placeholder(self, env, text, ret=None, st=None):
        def f(m):
            return self.resolve(env, m.group(1), ret)
        return re.sub(r'\{([A-Za-z_*][\w.*]*(?:@\w+)?)\}', f, text)

    def resolve(self, env, name, ret=None):
        suffix = None
        if '@' in name:
            name, suffix = name.split('@')
        parts = name.split('.')
        head = parts[0]
        st = self.st
        if suffix and suffix not in ('idx', 'null'):
            if suffix not in env['snap']:
                raise Unsupported(f'placeholder snapshot {suffix}')
            st = env['snap'][suffix]
        saved = self.st
        self.st = st
        try:
            if head == 'ret':
                if ret is None:
                    raise Unsupported('no return value here')
                if isinstance(ret, str):
                    t = ret
                else:
                    t = self.rv(ret)
                for p in parts[1:]:
                    t = f'{paren(t)}.{p}'
                return t
            if head == 'exec' and 'exec' in env:
                return env['exec'][parts[1]]
            if head == 'w':
                v = V(self.lib.WORLD[parts[1]], lv=self.w(parts[1]))
                parts = parts[1:]
            elif head == 'g':
                lv = self.g(parts[1])
                v = V(lv.t, lv=lv)
                parts = parts[1:]
            elif head == 'this':
                v = env['this']
                if v is None:
                    raise Unsupported('no this')
            else:
                v = (env['locals'] if suffix == 'fork' and 'locals' in env else env['names'])(head)
            for p in parts[1:]:
                if v.lv is None:
                    return f'{paren(self.rv(v))}.' + '.'.join(parts[parts.index(p):])
                v = self.member(v, p)
            if v.t[0] == 'ptr':
                if suffix == 'idx':
                    return v.idx or '0'
                if suffix == 'null':
                    return v.null or 'false'
                if v.lv is None:
                    raise Unsupported('null pointer in contract')
                base = self.get(v.lv)
                return base if v.idx in (None, '0') else f'{paren(base)}.skip({v.idx})'
            if v.t[0] == 'stream':
                return self.lib.sid(v)
            if v.t[0] == 'lambda':
                raise Unsupported('placeholder of ' + v.t[0])
            return self.rv(v)
        finally:
            self.st = saved

    def g(self, name, fields=()):
        r = 'g.' + name
        if r not in self.rtype:
            raise Unsupported(f'no global variable {name}')
        v = V(self.rtype[r], lv=LV(r, (), self.rtype[r]))
        for f in fields:
            v = self.member(v, f)
        return v.lv

    def resolve_lv(self, env, name):
        parts = name.split('.')
        if parts[0] == 'w':
            return self.w(parts[1])
        if parts[0] == 'g':
            return self.g(parts[1], parts[2:])
        v = env['this'] if parts[0] == 'this' else env['names'](parts[0])
        for p in parts[1:]:
            v = self.member(v, p)
        if v.lv is None:
            raise Unsupported('modifies of non-lvalue ' + name)
        return v.lv

    def member(self, v, fname):
        """Field access on an lvalue / value."""
        t = v.t
        if t[0] == 'ptr':
            v = self.deref(v)
            t = v.t
        if t[0] == 'sptr':
            v = V(t[1], lv=v.lv.at(('sv',), t[1]))
            t = v.t
        if t[0] != 'struct':
            raise Unsupported(f'member {fname} of {t}')
        rf = self.ty.refs.get(t[1], {})
        if fname in rf:
            key = (v.lv.root, v.lv.path, fname)
            if key not in self.refs:
                raise Unsupported(f'unbound reference member {fname}')
            return self.refs[key]
        fname = self.ty.fieldmap.get((t[1], fname), fname)
        ft = self.ty.fieldt(t, fname)
        if v.lv is not None:
            return V(ft, lv=v.lv.at(('f', t[1], fname), ft))
        return V(ft, f'{paren(self.rv(v))}.{fname}')

    def deref(self, v):
        if v.t[0] != 'ptr' or v.lv is None:
            raise Unsupported(f'dereference of {v.t}')
        if v.null and v.null != 'false':
            self.obl('safety', 'no null dereference', neg(v.null))
        if v.idx is not None:
            base = v.lv
            bt = base.t
            n = self.get(base)
            self.obl('safety', 'element access in bounds', f'0 <= {v.idx} < {n}.len()')
            et = bt[1] if bt[0] in ('vec', 'arr') else CHAR
            return V(et, lv=base.at(('i', v.idx), et))
        return V(v.t[1], lv=v.lv)

    def call_contract(self, c, d, thisv, args, node, noexcept=False):
        pn = c.params
        names = {}
        for i, p in enumerate(pn):
            if i < len(args):
                names[p] = args[i]
                if c.ptr.get(p) == 'object' and (args[i].t[0] == 'null' or args[i].lv is None):
                    # a null pointer: stands for an object nobody else can see
                    t = self.ty.parse(d.params[i]['type'].get('desugaredQualType') or d.params[i]['type']['qualType'])
                    r = self.root_new('null', t[1], self.fresh('nothing', t[1]))
                    names[p] = V(t, lv=r, null='true')
        # capture by-value arguments now
        snap = self.st.copy()

        def lookup(n):
            if n in names:
                return names[n]
            raise Unsupported(f'contract {c.key}: unknown name {n}')
        env = {'this': thisv, 'names': lookup, 'snap': {'pre': snap}}
        self.called.add(c.key)
        for lab, f, *tags in c.requires:
            self.obl('requires', f'call {c.short}: {lab}', self.placeholder(env, f), props=tags[0] if tags else None)
            if self.st is None:
                return V(VOID)
        # what the caller has to pass: {arg.x} is the argument for the callee's parameter x, everything else as in the caller's postconditions
        for lab, f, *tags in (self.c.opts.get('calls', {}) if self.c else {}).get(c.short, ()):
            f = re.sub(r'\{arg\.([\w.]+)\}', lambda m: paren(self.resolve(env, m.group(1))), f)
            self.obl('requires', f'call {c.short}: {lab}', self.placeholder(self.outenv, f), props=tags[0] if tags else None)
        for h in c.call_hints:
            self.hint(self.placeholder(env, h))
        # havoc
        for m in c.modifies:
            lv = self.resolve_lv(env, m)
            for on, ov in list(names.items()) + [('this', thisv)]:
                if ov is not None and ov.lv is not None and on != m.split('.')[0] and ov.lv.root == lv.root and ov.t[0] != 'it':
                    k = min(len(ov.lv.path), len(lv.path))
                    if ov.lv.path[:k] == lv.path[:k]:
                        raise Unsupported(f'argument {on} aliases what {c.short} modifies')
            nm = self.fresh(m.replace('.', '_').replace('@', ''), lv.t)
            pv = names.get(m)
            if pv is not None and pv.t[0] == 'ptr' and pv.idx is not None:
                # the callee reaches the elements from the pointer on, and cannot change how many there are
                old = self.get(lv)
                self.assume(f'{nm}.len() == {paren(old)}.len()')
                if pv.idx != '0':
                    self.assume(f'forall|k: int| 0 <= k < {pv.idx} ==> #[trigger] {nm}[k] == {paren(old)}[k]')
                    self.hint(f'if 0 <= {pv.idx} <= {nm}.len() {{ assert(forall|k: int| {pv.idx} <= k < {nm}.len() ==> {nm}.skip({pv.idx})[k - {paren(pv.idx)}] == #[trigger] {nm}[k]); }}')
            self.set(lv, nm)
        rt = self.ret_type(d)
        ret = None
        if c.pure is not None:
            ret = V(rt, self.let('r', self.ty.vt(rt), self.placeholder({**env}, c.pure)))
        elif rt != VOID:
            ret = V(rt, self.fresh('ret_' + d.name, rt))
        if c.throws == 'never':
            pass
        else:
            if c.throws == 'may':
                thr = self.fresh('thr', BOOL)
            else:
                saved = self.st
                self.st = snap.copy()
                self.st.pc = saved.pc
                cond = self.placeholder(env, c.throws)
                self.st = saved
                thr = self.let('thr', 'bool', cond)
            s = self.st.copy()
            s.pc = self.and_pc(thr)
            rest = self.and_pc(neg(thr))
            keep = self.st
            self.st = s
            for lab, f, *_ in c.exc_ensures:
                if '@fork' not in f:
                    self.assume(self.placeholder(env, f))
            self.leave('throw')
            self.st = keep
            self.st.pc = rest
        # what is said in terms of the callee's own fork is not for its callers
        own = lambda xs: [x for x in xs if '@fork' not in x[1]]
        for kind, on, ens in (('abort', c.may_abort or c.abort_ensures, c.abort_ensures), ('exit', c.may_exit or c.exit_ensures, c.exit_ensures)):
            if not on:
                continue
            keep = self.st
            self.st = self.st.copy()
            if not (c.noreturn and kind == 'exit'):
                b = self.fresh('ends', BOOL)
                self.st.pc = self.and_pc(b)
                rest = (keep, neg(b))
            else:
                rest = None
            code = self.fresh('code', I32)
            for lab, f, *_ in own(ens):
                self.assume(self.placeholder(env, f.replace('{code}', code)))
            self.exits.append((kind, self.st, code if kind == 'exit' else None))
            self.st = keep
            if rest:
                self.st.pc = self.and_pc(rest[1])
        if c.noreturn:
            self.st = None
            return V(VOID)
        for lab, f, *_ in own(c.ensures):
            self.assume(self.placeholder(env, f, ret))
        for h in c.after_hints:
            self.hint(self.placeholder(env, h, ret))
        return ret if ret is not None else V(VOID)

    def ret_type(self, d):
        if d.kind in ('CXXConstructorDecl', 'CXXDestructorDecl'):
            return VOID
        s = d.ctype
        i = s.find('(')
        # function type "R (A, B)"; R may itself contain parentheses only for function pointers (not used here)
        if d.kind == 'CXXConversionDecl':
            pass
        r = s[:i].strip()
        rs = r.rstrip('& ')
        n = None
        try:
            return self.ty.parse(r)
        except Unsupported:
            if d.cls:
                try:
                    return self.ty.parse(d.cls + '::' + rs)
                except Unsupported:
                    pass
            alias = {'Handle': I32, 'Event': I32, 'const CommandMap *': None, 'const CommandMap &': None, 'const Host &': None}
            if rs in alias and alias[rs]:
                return alias[rs]
            if 'CommandMap' in r:
                m = ('map', STR, self.ty.parse('k8psh::Configuration::Command'))
                return ('ptr', m) if '*' in r else m
            if 'HostCommandsMap' in r:
                return ('map', STR, ('map', STR, self.ty.parse('k8psh::Configuration::Command')))
            raise

    # ---------------------------------------------------------------- calls of repo functions
    def call_repo(self, d, thisv, args, node, noexcept=False):
        c = self.contract_for(d)
        if c is not None and not (c.inline) and (c is not self.c or self.recursion_ok(d)):
            if noexcept:
                tg = Target('noexcept', len(self.scopes))
                self.targets.append(tg)
                r = self.call_contract(c, d, thisv, args, node)
                self.targets.pop()
                self.aborts(tg)
                return r
            return self.call_contract(c, d, thisv, args, node)
        if d.body is None:
            raise Unsupported(f'call of {d.qname} without a body')
        self.inlined.add(d.qname)
        depth = 0
        f = self.frame
        while f is not None:
            depth += 1
            if f.decl is d:
                raise Unsupported(f'recursion through {d.qname}')
            f = f.parent
        if depth > self.MAXDEPTH:
            raise Unsupported('inlining too deep')
        key = (self.frame.key if self.frame else ()) + (node['id'] if node else d.id,)
        fr = Frame(d, self.frame, key)
        fr.this = thisv
        pre = []
        for i, p in enumerate(d.params):
            ps = p['type'].get('desugaredQualType') or p['type']['qualType']
            a = args[i] if i < len(args) else None
            if a is None:
                continue
            if ps.strip().endswith('&'):
                if a.lv is None and a.t[0] not in ('ptr', 'lambda', 'stream', 'it', 'file', 'opaque', 'null'):
                    a = V(a.t, lv=self.root_new(p.get('name', 'arg'), a.t, self.rv(a)))
                fr.locals[p['id']] = a
            else:
                a = self.load(a)
                if a.t[0] in ('ptr', 'lambda', 'stream', 'file', 'opaque', 'null'):
                    fr.locals[p['id']] = a
                else:
                    lv = self.root_new(p.get('name', 'arg'), a.t, self.rv(a))
                    fr.locals[p['id']] = V(a.t, lv=lv, x=a.x)
            fr.names[p.get('name')] = fr.locals[p['id']]
        tg = Target('fn', len(self.scopes), frame=fr)
        nt = None
        if noexcept or (d.kind == 'CXXDestructorDecl'):
            nt = Target('noexcept', len(self.scopes))
            self.targets.append(nt)
        self.targets.append(tg)
        saved = self.frame
        self.frame = fr
        for ini in d.inits:
            self.ctor_init(d, ini, thisv)
        rt = self.ret_type(d)
        if self.st is not None:
            self.stmt(d.body)
        if self.st is not None:
            tg.ret.append((self.st, None))
        self.frame = saved
        self.targets.pop()
        if nt is not None:
            self.targets.pop()
            self.aborts(nt)
        return self.join_returns(tg.ret, rt)

    def aborts(self, nt):
        for s in nt.thr:
            self.exits.append(('abort', s, None))

    def recursion_ok(self, d):
        return False

    def user_move(self, t):
        q = self.ty.alias.get(t[1])
        return any(d.cls == q and not d.node.get('isImplicit') and '&&' in d.ctype and (d.kind == 'CXXConstructorDecl' or d.name == 'operator=') and len(d.params) == 1 and q.split('::')[-1] in d.ctype for d in self.repo.fn.values())

    def join_returns(self, rets, rt):
        if not rets:
            self.st = None
            return V(rt if rt else VOID, None)
        if len(rets) == 1:
            self.st, v = rets[0]
            return v if v is not None else V(VOID)
        vals = [v for _, v in rets]
        if all(v is None for v in vals):
            self.st = self.merge([s for s, _ in rets])
            return V(VOID)
        v0 = vals[0]
        if v0.t[0] in ('ptr', 'null') or any(v.t[0] in ('ptr', 'null') for v in vals):
            r = None
            for s, v in rets:
                r = v if r is None else self.merge_ptr(s.pc, v, r)
            self.st = self.merge([s for s, _ in rets])
            return r
        if all(v.lv is not None for v in vals) and len({(v.lv.root, v.lv.path) for v in vals}) == 1:
            self.st = self.merge([s for s, _ in rets])
            return v0
        # value join through a pseudo root
        r = self.fresh_name('retv')
        self.rtype[r] = v0.t
        for s, v in rets:
            self.st = s
            s.roots[r] = self.rv(v)
        self.st = self.merge([s for s, _ in rets])
        return V(v0.t, self.st.roots[r], x=v0.x)

    def merge_ptr(self, c, a, b):
        """pointer value: a if c else b"""
        if a.t[0] == 'null' and b.t[0] == 'null':
            return a
        an = 'true' if a.t[0] == 'null' else (a.null or 'false')
        bn = 'true' if b.t[0] == 'null' else (b.null or 'false')
        base = b if a.t[0] == 'null' or a.lv is None else a
        o = a if base is b else b
        if o.t[0] != 'null' and o.lv is not None and base.lv is not None and (o.lv.root, o.lv.path, o.idx) != (base.lv.root, base.lv.path, base.idx):
            raise Unsupported('pointer join with different targets')
        if a.t == CPTR or b.t == CPTR:
            raise Unsupported('cptr join')
        nl = self.let('isnull', 'bool', f'if {c} {{ {an} }} else {{ {bn} }}') if an != bn else an
        return V(base.t, base.term, lv=base.lv, null=nl, idx=base.idx)

    def ctor_init(self, d, ini, thisv):
        e = ini['inner'][0] if ini.get('inner') else None
        if 'anyInit' in ini:
            f = ini['anyInit']
            ts = f['type'].get('desugaredQualType') or f['type']['qualType']
            if ts.strip().endswith('&'):
                v = self.ev(e)
                self.refs[(thisv.lv.root, thisv.lv.path, f['name'])] = v
                return
            m = self.member(thisv, f['name'])
            self.init_into(m.lv, m.t, e)
        elif 'baseInit' in ini or True:
            if e is None:
                return
            t = thisv.t
            fs = self.ty.fields(t)
            if fs and fs[0][0] == 'base':
                m = self.member(thisv, 'base')
                self.init_into(m.lv, m.t, e)

    def init_into(self, lv, t, e):
        """Initialise storage lv of type t with expression e (may be None)."""
        if e is None:
            return
        v = self.ev(e)
        if self.st is None:
            return
        if v.t[0] == 'inplace':
            return
        self.set(lv, self.conv(v, t))

    def conv(self, v, t):
        """Term of v as type t (structural types agree; ints are already converted by casts)."""
        if v.t[0] == 'null' and t == CPTR:
            return 'CP { nn: false, s: Seq::<u8>::empty() }'
        if t == CPTR and v.t[0] == 'ptr':
            return self.as_cp(v)
        if t == STR and v.t == CPTR:
            return self.cstr(v)
        if v.t[0] == 'initlist':
            if t[0] == 'vec':
                return f'seq![{", ".join(self.conv(x, t[1]) for x in v.x)}]' if v.x else self.ty.default(t)
        return self.rv(v)

    def as_cp(self, v):
        if v.t == CPTR:
            return self.rv(v)
        if v.t[0] == 'null':
            return 'CP { nn: false, s: Seq::<u8>::empty() }'
        if v.t[0] == 'ptr' and v.lv is not None:
            return f'CP {{ nn: true, s: {self.ptrstr(v)} }}'
        raise Unsupported(f'as_cp {v.t}')

    def ptrstr(self, v):
        b = self.get(v.lv)
        i = v.idx or '0'
        return f'cstr({b})' if i == '0' else f'cstr({paren(b)}.skip({i}))'

    def cstr(self, v):
        """std::string(const char *)"""
        if v.t == STR:
            return self.rv(v)
        if v.t[0] == 'ptr' and v.lv is not None:
            return self.ptrstr(v)
        t = self.as_cp(v)
        if v.const is not None:
            return v.x
        self.obl('safety', 'string is not built from a null pointer', f'{paren(t)}.nn')
        return f'{paren(t)}.s'

    # ---------------------------------------------------------------- statements
    def line(self, n):
        l = n.get('_line')
        if l:
            self.curline = l

    def stmt(self, n):
        if self.st is None:
            # dead code: only labels matter, handled in compound
            return
        self.line(n)
        k = n.get('kind')
        m = getattr(self, 's_' + k, None) if k else None
        if m is not None:
            return m(n)
        if not k:
            return
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k == 'ExprWithCleanups':
            self.full(n)
            return
        raise Unsupported(f'statement {k}')

    def full(self, n):
        """Full expression: temporaries die at its end."""
        self.push_scope()
        v = self.ev(n)
        self.pop_scope()
        return v

    def s_CompoundStmt(self, n):
        self.push_scope()
        inner = n.get('inner', [])
        labels = [c for c in inner if c.get('kind') == 'LabelStmt']
        tgs = []
        for l in reversed(labels):
            t = Target('label', len(self.scopes), l['declId'])
            self.targets.append(t)
            tgs.append(t)
        for c in inner:
            if c.get('kind') == 'LabelStmt':
                t = tgs.pop()
                self.targets.remove(t)
                self.st = self.merge([self.st] + t.brk)
                if self.st is None:
                    continue
                for cc in c.get('inner', []):
                    self.stmt(cc)
                continue
            if self.st is None:
                continue
            self.stmt(c)
        self.pop_scope()

    def s_NullStmt(self, n):
        pass

    def s_LabelStmt(self, n):
        raise Unsupported('label outside a compound statement')

    def s_GotoStmt(self, n):
        self.leave('goto', n['targetLabelDeclId'])

    def s_DeclStmt(self, n):
        for c in n.get('inner', []):
            if self.st is None:
                return
            k = c.get('kind')
            if k == 'VarDecl':
                self.vardecl(c)
            elif k in ('CXXRecordDecl', 'TypedefDecl', 'UsingDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'EnumDecl', 'FunctionDecl', 'EmptyDecl'):
                pass
            else:
                raise Unsupported('declaration ' + str(k))

    def bind(self, c, v):
        self.frame.locals[c['id']] = v
        self.frame.names[c.get('name')] = v
        if c.get('name') and not self.dry:
            self.frame.order.append((c['name'], c['type'].get('desugaredQualType') or c['type']['qualType']))

    def vardecl(self, c):
        ts = c['type'].get('desugaredQualType') or c['type']['qualType']
        init = c['inner'][0] if c.get('inner') else None
        static = c.get('storageClass') == 'static'
        name = c.get('name', 'v')
        if static:
            return self.static_var(c, ts, init)
        if ts.strip().endswith('&'):
            self.push_scope()
            v = self.ev(init)
            if self.st is None:
                self.pop_scope()
                return
            tmps = self.scopes[-1]
            self.scopes = self.scopes[:-1]
            if tmps:
                self.scopes[-1].extend(tmps)     # lifetime extension of the bound temporary
            if v.lv is None and v.t[0] not in ('ptr', 'lambda', 'stream', 'it', 'file', 'fn', 'initlist', 'mapentry'):
                v = V(v.t, lv=self.root_new(name, v.t, self.rv(v)))
            self.bind(c, v)
            return
        try:
            t = self.ty.parse(ts)
        except Unsupported:
            t = None
        if init is None:
            if t is None:
                raise Unsupported('type ' + ts)
            if t[0] == 'struct' or t[0] in ('str', 'vec', 'map', 'sptr'):
                lv = self.root_new(name, t, self.ty.default(t))
            elif t[0] == 'arr':
                r = self.fresh_name(name)
                self.rtype[r] = t
                self.st.roots[r] = None
                lv = LV(r, (), t)
            else:
                r = self.fresh_name(name)
                self.rtype[r] = t
                self.st.roots[r] = None
                lv = LV(r, (), t)
            self.bind(c, V(t, lv=lv))
            return
        self.push_scope()
        if t is not None and t[0] == 'struct':
            lv = self.construct_var(name, t, init)
            if self.st is None:
                self.pop_scope()
                return
            self.pop_scope()
            if self.st is None:
                return
            self.bind(c, V(t, lv=lv))
            self.register(lv, t)
            return
        v = self.ev(init)
        if self.st is None:
            self.pop_scope()
            return
        if t == CPTR and v.t[0] == 'ptr' and v.lv is not None:
            pass
        elif t is not None and t[0] in ('vec', 'str', 'map', 'pair', 'sptr', 'arr') and v.t[0] in ('initlist',):
            v = V(t, self.initlist(t, v.x))
        if v.t[0] in ('ptr', 'lambda', 'stream', 'file', 'fn') or (v.t[0] == 'null'):
            self.pop_scope()
            if v.t[0] == 'null' and t == CPTR:
                v = V(CPTR, 'CP { nn: false, s: Seq::<u8>::empty() }')
                lv = self.root_new(name, CPTR, v.term)
                v = V(CPTR, lv=lv)
            elif v.t[0] == 'ptr' and v.lv is not None and v.idx is not None:
                # pointer into a sequence: the index is a variable of its own
                lv = self.root_new(name + '_ix', I64, v.idx)
                v = V(v.t, lv=v.lv, null=v.null, idx=v.idx, x=('ptrvar', lv))
            self.bind(c, v)
            return
        vt = v.t if (t is None or t[0] in ('itdecl', 'opaque')) else t
        if vt[0] == 'it':
            lv = self.root_new(name, vt, self.rv(v))
            self.pop_scope()
            self.bind(c, V(vt, lv=lv, x=v.x))
            return
        lv = self.root_new(name, vt, self.conv(v, vt))
        self.pop_scope()
        if self.st is None:
            return
        self.bind(c, V(vt, lv=lv))

    def register(self, lv, t):
        d = self.dtor_of(t)
        if d is not None:
            self.scopes[-1].append((lv, d))

    def dtor_of(self, t):
        if t[0] != 'struct':
            return None
        q = self.ty.alias.get(t[1])
        if q is None:
            return None
        d = self.repo.dtor.get(q)
        if d is None or d.node.get('isImplicit'):
            # members with destructors of implicit ones are not used by this code base
            return None
        return d

    def construct_var(self, name, t, init):
        """Struct variable: constructor runs in place."""
        e = self.strip(init)
        r = self.fresh_name(name)
        self.rtype[r] = t
        self.st.roots[r] = self.let(name, self.ty.vt(t), self.ty.default(t))
        lv = LV(r, (), t)
        self.construct_at(lv, t, e)
        return lv

    def strip(self, e):
        """Skip wrappers that do not matter for construction (elided copies included)."""
        while True:
            k = e.get('kind')
            if k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ConstantExpr'):
                e = e['inner'][0]
            elif k == 'ImplicitCastExpr' and e.get('castKind') in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion') and e['inner'][0].get('kind') not in ('DeclRefExpr', 'MemberExpr', 'CXXMemberCallExpr'):
                e = e['inner'][0]
            elif k in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr') and e.get('castKind') in ('ConstructorConversion', 'NoOp'):
                e = e['inner'][0]
            elif k == 'CXXConstructExpr' and e.get('elidable'):
                e = e['inner'][0]
            else:
                return e

    def construct_at(self, lv, t, e):
        e = self.strip(e)
        k = e.get('kind')
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            et = self.ty.parse(e['type'].get('desugaredQualType') or e['type']['qualType'])
            if et == t:
                v = self.construct(e, into=lv)
                if v is not None and self.st is not None and v.t[0] != 'inplace':
                    self.set(lv, self.rv(v))
                return
        v = self.ev_noreg(e)
        if self.st is None or v.t[0] == 'inplace':
            return
        if v.t[0] == 'initlist':
            self.set(lv, self.initlist(t, v.x))
            return
        self.set(lv, self.conv(v, t))

    def ev_noreg(self, e):
        """Evaluate a prvalue whose object becomes the variable itself (no temporary)."""
        return self.ev(e)

    def initlist(self, t, xs):
        if t[0] == 'struct':
            fs = self.ty.fields(t)
            parts = []
            for i, (f, ft) in enumerate(fs):
                parts.append(f'{f}: ' + (self.conv(xs[i], ft) if i < len(xs) else self.ty.default(ft)))
            return t[1] + ' { ' + ', '.join(parts) + ' }'
        if t[0] == 'arr':
            if not xs:
                return self.ty.default(t)
            els = [self.initlist(t[1], x.x) if x.t[0] == 'initlist' else self.conv(x, t[1]) for x in xs]
            els += [self.ty.default(t[1])] * (t[2] - len(els))
            return 'seq![' + ', '.join(els) + ']'
        if t[0] == 'vec':
            if not xs:
                return self.ty.default(t)
            return 'seq![' + ', '.join(self.conv(x, t[1]) for x in xs) + ']'
        if len(xs) == 0:
            return self.ty.default(t)
        if len(xs) == 1:
            return self.conv(xs[0], t)
        raise Unsupported(f'init list for {t}')

    def static_var(self, c, ts, init):
        key = c['id']
        const = 'const ' in (c['type']['qualType'] + ' ') or c.get('constexpr')
        name = c.get('name')
        t = self.ty.parse(ts) if '(lambda' not in ts else None
        if const and t is not None and t[0] == 'arr' and init is not None:
            vals = self.const_array(init, t)
            if vals is not None:
                self.bind(c, V(('ctable', t[1], t[2]), x=self.table(name, vals)))
                return
        if t is None:
            self.bind(c, self.ev(init))
            return
        if const and init is not None:
            v = self.ev(init)
            self.bind(c, V(t, lv=self.root_new(name, t, self.conv(v, t))))
            return
        # mutable static: an arbitrary value left behind by earlier calls
        root = 's.' + name
        if root not in self.st.roots:
            self.rtype[root] = t
            self.st.roots[root] = self.fresh('static_' + name, t)
            self.entry.roots[root] = self.st.roots[root]
            if init is not None and self.static_inv:
                iv = self.ev(init)
                for nm, f in self.static_inv.items():
                    if nm == name or name not in self.c.opts['statics']:
                        self.obl('inv-entry', f'static invariant of {nm} holds initially', f.replace('{it}', self.rv(iv)))
            for nm, f in self.static_inv.items():
                if nm == name or name not in self.c.opts['statics']:
                    self.assume(f.replace('{it}', self.st.roots[root]))
        self.bind(c, V(t, lv=LV(root, (), t)))

    def const_array(self, init, t):
        vals = []
        items = init.get('inner') or []
        if init.get('array_filler'):
            items = [x for x in init['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
        for x in items:
            v = self.repo._const(x)
            if v is None:
                return None
            vals.append(v)
        return vals + [0] * (t[2] - len(vals))

    def table(self, name, vals):
        """A constant table becomes a spec function generated from its initialiser."""
        fn = f'tbl_{name}'
        by = {}
        for i, v in enumerate(vals):
            by.setdefault(v, []).append(i)
        common = max(by, key=lambda v: len(by[v]))
        out = ''
        for v, ix in by.items():
            if v == common:
                continue
            rs = []
            s = p = ix[0]
            for i in ix[1:] + [None]:
                if i is not None and i == p + 1:
                    p = i
                    continue
                rs.append(f'{s} <= i <= {p}' if s != p else f'i == {s}')
                s = p = i
            out += f'if {" || ".join(rs)} {{ {v} }} else '
        self.consts[fn] = f'pub open spec fn {fn}(i: int) -> int {{ {out}{{ {common} }} }}'
        return fn

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit') or n.get('hasVar'):
            self.push_scope()
            self.stmt(inner.pop(0))
        c = self.cond(inner[0])
        if self.st is None:
            return
        if c == 'true':
            self.stmt(inner[1])
        elif c == 'false':
            if len(inner) > 2:
                self.stmt(inner[2])
        else:
            c = self.let('c', 'bool', c)
            base = self.st
            a = base.copy()
            a.pc = self.and_pc(c)
            b = base.copy()
            b.pc = self.and_pc(neg(c))
            self.st = a
            self.stmt(inner[1])
            ra = self.st
            self.st = b
            if len(inner) > 2:
                self.stmt(inner[2])
            rb = self.st
            self.st = self.merge([ra, rb])
        if n.get('hasInit') or n.get('hasVar'):
            self.pop_scope()

    def cond(self, e):
        self.push_scope()
        v = self.ev(e)
        if self.st is None:
            self.scopes = self.scopes[:-1]
            return 'false'
        t = self.tobool(v)
        self.pop_scope()
        return t

    def tobool(self, v):
        if v.t == BOOL:
            return self.rv(v)
        if v.t[0] == 'int' and isinstance(v.x, tuple) and v.x[0] == 'band':
            return ' || '.join(f'hasbit({v.x[1]}, {1 << k})' for k in range(v.x[2].bit_length()) if v.x[2] >> k & 1)
        if v.t[0] == 'int':
            return f'{self.rv(v)} != 0'
        if v.t in (CHAR, U8):
            return f'{self.rv(v)} != 0'
        if v.t == CPTR:
            return f'{paren(self.rv(v))}.nn'
        if v.t[0] == 'ptr':
            return neg(v.null) if v.null else 'true'
        if v.t[0] == 'null':
            return 'false'
        if v.t[0] == 'file':
            return f'{paren(self.rv(v))} != -1'
        raise Unsupported(f'tobool {v.t}')

    def s_ReturnStmt(self, n):
        v = None
        if n.get('inner'):
            self.push_scope()
            e = n['inner'][0]
            v = self.ev_ret(e)
            if self.st is None:
                self.scopes = self.scopes[:-1]
                return
            ft = None
            rt = self.ret_type(self.frame.decl) if self.frame.decl is not None else None
            ret_ref = self.frame.decl is not None and self.frame.decl.ctype[:self.frame.decl.ctype.find('(')].strip().endswith('&')
            if v.t == VOID:
                v = None
            elif v.t[0] in ('ptr', 'lambda', 'stream', 'null') or ret_ref:
                pass
            else:
                if rt is not None and rt[0] in ('str', 'vec', 'cptr', 'struct') and v.t != rt:
                    v = V(rt, self.conv(v, rt)) if v.t[0] != 'initlist' else V(rt, self.initlist(rt, v.x))
                x = v.x
                v = V(v.t, self.let('r', self.ty.vt(v.t), self.rv(v)), x=x)
            self.pop_scope()
        self.leave('return', v)

    def ev_ret(self, e):
        """Return value: a local returned by value is moved or elided; the temporary is the returned object itself."""
        s = self.strip(e)
        if s.get('kind') in ('CXXConstructExpr',) and len(s.get('inner', [])) == 1:
            t = self.ty.parse(s['type'].get('desugaredQualType') or s['type']['qualType'])
            if t[0] == 'struct':
                q = self.ty.alias.get(t[1])
                src = self.strip(s['inner'][0])
                ct = s.get('ctorType', {}).get('qualType', '')
                if '&&' in ct:
                    # move-construct the result from a local: run the move constructor into a fresh result object
                    r = self.fresh_name('retobj')
                    self.rtype[r] = t
                    self.st.roots[r] = self.let('retobj', self.ty.vt(t), self.ty.default(t))
                    lv = LV(r, (), t)
                    self.construct_at(lv, t, s)
                    return V(t, lv=lv)
                if 'Handle' in ct or 'int' in ct:
                    r = self.fresh_name('retobj')
                    self.rtype[r] = t
                    self.st.roots[r] = self.let('retobj', self.ty.vt(t), self.ty.default(t))
                    lv = LV(r, (), t)
                    self.construct_at(lv, t, s)
                    return V(t, lv=lv)
        if s.get('kind') in ('CallExpr', 'CXXMemberCallExpr'):
            return self.ev(s)
        return self.ev(s)

    def s_BreakStmt(self, n):
        self.leave('break')

    def s_ContinueStmt(self, n):
        self.leave('continue')

    def s_SwitchStmt(self, n):
        v = self.ev(n['inner'][0])
        if self.st is None:
            return
        x = self.let('sw', 'int', self.rv(self.toint(v)))
        body = n['inner'][1]
        self.push_scope()
        tg = Target('switch', len(self.scopes))
        self.targets.append(tg)
        items = []      # (labels or None, stmt)

        def flat(c):
            labs = []
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    labs.append(self.case_value(c['inner'][0]))
                    c = c['inner'][-1]
                else:
                    labs.append('default')
                    c = c['inner'][0]
            return labs, c
        for c in body.get('inner', []):
            items.append(flat(c))
        allv = [l for labs, _ in items for l in labs if l != 'default']
        base = self.st
        hasdef = any('default' in labs for labs, _ in items)
        self.st = None
        for labs, c in items:
            if labs:
                conds = []
                for l in labs:
                    if l == 'default':
                        conds.append(conj([f'{x} != {a}' for a in allv]))
                    else:
                        conds.append(f'{x} == {l}')
                s = base.copy()
                keep = self.st
                self.st = s
                s.pc = self.and_pc(' || '.join(paren(q) for q in conds))
                self.st = self.merge([keep, s])
            if self.st is not None:
                self.stmt(c)
        outs = [self.st] + tg.brk
        if not hasdef:
            s = base.copy()
            keep = self.st
            self.st = s
            s.pc = self.and_pc(conj([f'{x} != {a}' for a in allv]))
            outs.append(s)
        self.targets.pop()
        self.st = self.merge(outs)
        self.pop_scope()

    def case_value(self, e):
        k = e.get('kind')
        if 'value' in e:
            return int(e['value'])
        if k == 'DeclRefExpr':
            return self.repo.enumc[e['referencedDecl']['id']]
        return self.case_value(e['inner'][0])

    def s_CXXTryStmt(self, n):
        inner = n['inner']
        tg = Target('try', len(self.scopes))
        self.targets.append(tg)
        self.stmt(inner[0])
        self.targets.pop()
        ok = self.st
        outs = [ok]
        self.st = self.merge(tg.thr)
        if self.st is not None:
            for c in inner[1:]:
                if c.get('kind') == 'CXXCatchStmt':
                    body = c['inner'][-1]
                    self.stmt(body)
                    break
            outs.append(self.st)
        self.st = self.merge(outs)

    # ---------------------------------------------------------------- LOG macros
    def log_kind(self, n):
        """Recognise the expansions of LOG_DEBUG (a for loop) and LOG_ERROR (a for loop that throws)."""
        inner = n.get('inner', [])
        if not inner:
            return None
        i = inner[0]
        if i.get('kind') == 'DeclStmt' and i.get('inner') and i['inner'][0].get('name') == 'LOG_DEBUG_shouldLog_':
            return 'debug'
        if i.get('kind') == 'DeclStmt' and i.get('inner') and i['inner'][0].get('name') == 'LOG_ERROR_message_':
            return 'error'
        return None

    def log_operands(self, n):
        """The operands of the << chain (not the Logger object itself)."""
        out = []

        def chain(e):
            k = e.get('kind')
            if k in ('ExprWithCleanups', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ParenExpr', 'CXXBindTemporaryExpr'):
                return chain(e['inner'][0])
            if k == 'CXXOperatorCallExpr':
                nm = self.callee_name(e['inner'][0])
                if nm == 'operator<<' and len(e['inner']) == 3:
                    chain(e['inner'][1])
                    out.append(e['inner'][2])
                    return
            if k == 'CXXMemberCallExpr':
                me = e['inner'][0]
                if me.get('name') == 'operator<<':
                    chain(me['inner'][0])
                    out.append(e['inner'][1])
                    return
                if me.get('name') == 'getStream':
                    return
            return
        chain(n)
        return out

    def is_logger(self, e):
        """Expression rooted in a Logger temporary's stream."""
        found = []

        def go(x, d):
            if not isinstance(x, dict) or d > 60:
                return
            if x.get('kind') == 'MemberExpr' and x.get('name') == 'getStream':
                found.append(1)
                return
            for c in x.get('inner', [])[:2]:
                go(c, d + 1)
        go(e, 0)
        return bool(found)

    def impure(self, e):
        """Could evaluating the expression change program state?  (syntactic, conservative)"""
        k = e.get('kind')
        if k == 'UnaryOperator' and e.get('opcode') in ('++', '--'):
            return True
        if k == 'CompoundAssignOperator' or (k == 'BinaryOperator' and e.get('opcode') == '='):
            return True
        if k == 'LambdaExpr':
            return False
        if k == 'CXXMemberCallExpr':
            me = e['inner'][0]
            d = self.repo.fn.get(me.get('referencedMemberDecl'))
            if d is not None and ') const' not in d.ctype:
                if not (d.name == 'getStream'):
                    return True
            if d is None and me.get('name') not in ('length', 'size', 'substr', 'back', 'front', 'c_str', 'what', 'begin', 'end', 'empty', 'find', 'data', 'count', 'str', 'at', 'operator<<', 'getStream'):
                return True
        if k == 'CallExpr':
            d = self.callee_decl(e['inner'][0])
            if d is not None:
                q = d.qname.split('::')[-1]
                if d.body is not None or d.mangled in self.repo.mang:
                    df = self.repo.definition(d.id)
                    if df is not None and df.body is not None and self.impure(df.body):
                        return True
        if k == 'CXXOperatorCallExpr':
            nm = self.callee_name(e['inner'][0])
            if nm in ('operator=', 'operator+=', 'operator++', 'operator--'):
                return True
        for c in e.get('inner', []):
            if isinstance(c, dict) and self.impure(c):
                return True
        return False

    def log_debug(self, n):
        body = n['inner'][-1]
        ops = self.log_operands(body)
        ops = [o for o in ops if self.impure(o)]
        if ops:
            # operands with side effects are executed under an arbitrary "debug enabled" condition
            b = self.fresh('debug', BOOL)
            base = self.st
            a = base.copy()
            a.pc = self.and_pc(b)
            c = base.copy()
            c.pc = self.and_pc(neg(b))
            self.st = a
            for o in ops:
                if self.st is not None:
                    self.full(o)
            self.st = self.merge([self.st, c])

    def log_error(self, n):
        body = n['inner'][-1]
        for o in self.log_operands(body):
            if self.st is None:
                return
            try:
                self.full(o)
            except Unsupported as ex:
                self.notes.append(f'error message operand not modelled: {ex}')
        if self.st is not None:
            self.leave('throw')

    # ---------------------------------------------------------------- loops
    def s_ForStmt(self, n):
        lk = self.log_kind(n)
        if lk == 'debug':
            return self.log_debug(n)
        if lk == 'error':
            return self.log_error(n)
        init, _, cond, inc, body = n['inner']
        self.push_scope()
        if init.get('kind'):
            self.stmt(init)
        if self.st is not None and not self.unroll(n, init, cond, inc, body):
            self.loop(n, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None)
        self.pop_scope()

    def loop_id(self, n):
        key = (self.frame.key, n['id'])
        if key not in self.loopidx:
            self.loopidx[key] = self.match_loop(n)
        return self.loopidx[key]

    def unroll(self, n, init, cond, inc, body):
        """A loop without annotations that counts from one literal to another is executed iteration by iteration (all of them)."""
        if not (init.get('kind') == 'DeclStmt' and len(init['inner']) == 1 and cond.get('kind') == 'BinaryOperator' and cond['opcode'] in ('<', '<=', '!=')
                and inc.get('kind') == 'UnaryOperator' and inc['opcode'] == '++'):
            return False
        d = init['inner'][0]
        strip = lambda x: strip(x['inner'][0]) if x.get('kind') in ('ImplicitCastExpr', 'ParenExpr') else x
        isvar = lambda x: strip(x).get('kind') == 'DeclRefExpr' and strip(x)['referencedDecl']['id'] == d['id']
        lit = lambda x: int(strip(x)['value']) if strip(x).get('kind') == 'IntegerLiteral' else None
        lo, hi = (lit(d['inner'][0]) if d.get('inner') else None), lit(cond['inner'][1])
        if lo is None or hi is None or not isvar(cond['inner'][0]) or not isvar(inc['inner'][0]) or self.loop_id(n) < 1000:
            return False
        vals = list(range(lo, hi + (cond['opcode'] == '<=')))
        if len(vals) > 8 or (not vals and cond['opcode'] == '!='):
            return False
        t = self.frame.locals[d['id']].t
        return self.iterations(n, [lambda v=v: self.frame.locals.__setitem__(d['id'], V(t, ilit(v), const=v)) for v in vals], body)

    def braced(self, rng_):
        """the elements of a loop over { a, b, c }"""
        x = rng_['inner'][0]['inner'][0] if rng_.get('inner') and rng_['inner'][0].get('inner') else {}
        seen = False
        while x.get('kind') in ('ExprWithCleanups', 'CXXStdInitializerListExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXBindTemporaryExpr'):
            seen = seen or x['kind'] == 'CXXStdInitializerListExpr'
            x = x['inner'][0]
        return x.get('inner', []) if seen and x.get('kind') == 'InitListExpr' else None

    def iterations(self, n, binds, body):
        snap = self.snapshot()
        tg = Target('loop', len(self.scopes))
        self.targets.append(tg)
        try:
            for b in binds:
                if self.st is None:
                    break
                self.push_scope()
                b()
                self.stmt(body)
                self.pop_scope()
                self.st = self.merge([self.st] + tg.cont)
                tg.cont = []
        except Unsupported:
            self.restore(snap)
            return False
        self.targets.pop()
        self.st = self.merge([self.st] + tg.brk)
        return True

    def s_WhileStmt(self, n):
        inner = n['inner']
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        self.loop(n, inner[0], inner[1], None)

    def s_DoStmt(self, n):
        body, cond = n['inner']
        self.loop(n, cond, body, None, post=True)

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        # [init] range begin end cond inc var body
        rng_, beg, end, cond, inc, var, body = inner[-7:]
        self.push_scope()
        if inner[0].get('kind') and len(inner) == 8:
            self.stmt(inner[0])
        els = self.braced(rng_)
        if els is not None and len(els) <= 8 and self.loop_id(n) >= 1000:
            def bind(e):
                v = dict(var)
                v['inner'] = [dict(v['inner'][0])]
                v['inner'][0]['inner'] = [e]
                return lambda: self.stmt(v)
            if self.iterations(n, [bind(e) for e in els], body):
                self.pop_scope()
                return
        self.stmt(rng_)
        if beg.get('kind'):
            self.stmt(beg)
        if end.get('kind'):
            self.stmt(end)
        if self.st is not None:
            self.loop(n, cond, body, inc, var=var)
        self.pop_scope()

    def snapshot(self):
        return (self.st.copy() if self.st else None, len(self.lines), len(self.params), len(self.obls), len(self.exits),
                [(t, len(t.brk), len(t.cont), len(t.ret), len(t.thr)) for t in self.targets], list(self.targets), list(self.scopes), [list(s) for s in self.scopes],
                dict(self.refs), dict(self.frame.locals), dict(self.frame.names), self.frame, self.curline, len(self.notes))

    def restore(self, s):
        (self.st, nl, np_, no, ne, tl, tg, sc, scc, self.refs, fl, fn, fr, self.curline, nn) = s
        del self.lines[nl:]
        del self.params[np_:]
        del self.obls[no:]
        del self.exits[ne:]
        for t, a, b, c, d in tl:
            del t.brk[a:]
            del t.cont[b:]
            del t.ret[c:]
            del t.thr[d:]
        self.targets = tg
        self.scopes = sc
        for cur, old in zip(sc, scc):
            cur[:] = old
        self.frame = fr
        self.frame.locals = fl
        self.frame.names = fn
        del self.notes[nn:]

    def loop_body(self, cond, body, inc, post, tg, var=None):
        """One iteration from the head; returns (state after the iteration, [exit states])."""
        outs = []
        if cond is not None and not post:
            c = self.cond(cond)
            if self.st is None:
                return None, outs
            c = self.let('c', 'bool', c)
            if c != 'true':
                s = self.st.copy()
                s.pc = self.and_pc(neg(c))
                outs.append(s)
                self.st.pc = self.and_pc(c)
            if c == 'false':
                return None, outs
        if var is not None:
            self.push_scope()
            self.stmt(var)
        self.stmt(body)
        if var is not None:
            self.pop_scope()
        self.st = self.merge([self.st] + tg.cont)
        tg.cont = []
        if self.st is not None and post:
            c = self.let('c', 'bool', self.cond(cond)) if cond is not None else 'true'
            if self.st is not None and c != 'true':
                s = self.st.copy()
                s.pc = self.and_pc(neg(c))
                outs.append(s)
                if c == 'false':
                    self.st = None
                else:
                    self.st.pc = self.and_pc(c)
        if self.st is not None and inc is not None:
            self.full(inc)
        return self.st, outs

    def havoc(self, writes, tag):
        done = set()
        for root, path in sorted(writes, key=lambda x: (x[0], len(x[1]), str(x[1]))):
            if root not in self.st.roots:
                continue
            if any((root, path[:i]) in done for i in range(len(path) + 1)):
                continue
            done.add((root, path))
            t = self.rtype[root]
            for el in path:
                t = self.ty.fieldt(('struct', el[1]), el[2])
            base = re.sub(r'_\d+$', '', root) + ('_' + '_'.join(el[2] for el in path) if path else '')
            if self.st.roots[root] is None:
                continue
            nm = self.fresh(base + '_' + tag, t)
            term = self.upd(self.st.roots[root], path, nm)
            self.st.roots[root] = self.let(base, self.ty.vt(self.rtype[root]), term) if path else nm
        return done

    def find_writes(self, cond, body, inc, post, var=None):
        """Roots (and fields) the loop may modify, found by executing it without emitting anything."""
        outer_w = self.writes
        acc = set()
        for rnd in range(8):
            snap = self.snapshot()
            entry_roots = set(self.st.roots)
            self.writes = set()
            self.dry += 1
            n0 = self.n
            self.havoc(acc, 'd')
            self.writes = set()
            tg = Target('loop', len(self.scopes))
            self.targets.append(tg)
            head = dict(self.st.roots)
            back = None
            try:
                back, _ = self.loop_body(cond, body, inc, post, tg, var)
            finally:
                # only what is different when the next iteration starts
                w = set() if back is None else {(r, p) for r, p in self.writes if back.roots.get(r) != head.get(r)}
                self.restore(snap)
                self.dry -= 1
                self.writes = outer_w
            new = {(r, p) for r, p in w if r in entry_roots}
            if new <= acc:
                break
            acc |= new
        else:
            raise Unsupported('loop writes do not stabilise')
        if outer_w is not None:
            outer_w |= acc
        return acc

    def env_here(self, snaps):
        def names(nm):
            return self.lookup_name(nm)
        return {'this': self.frame_this(), 'names': names, 'snap': {**self.presnap, **self.headsnaps, **snaps}}

    def frame_this(self):
        f = self.frame
        while f is not None:
            if f.this is not None and f.parent is None:
                return f.this
            if f.parent is None:
                return f.this
            f = f.parent
        return None

    def lookup_name(self, nm):
        if nm in self.loopvars:
            v = self.loopvars[nm]
            return V(v.t, f'({self.rv(v)} as int)') if v.t[0] == 'int' else v
        m = self.namemap.get(nm) if self.namemap else None
        f = self.frame
        while f is not None:
            if nm in f.names:
                return f.names[nm]
            f = f.parent
        if m:
            f = self.frame
            while f is not None:
                if m in f.names:
                    return f.names[m]
                f = f.parent
        raise Unsupported(f'unknown name {nm} in an annotation of {self.name}')

    def find_name(self, nm):
        f = self.frame
        while f is not None:
            if nm in f.names:
                return f.names[nm]
            f = f.parent
        return None

    def annotate(self, env, text):
        """Annotation text -> Verus, or None when it mentions something that no longer exists."""
        try:
            return self.placeholder(env, text)
        except Unsupported as ex:
            if not self.dry:
                self.unsupported_hints.append(f'{text}: {ex}')
            return None

    def match_loop(self, n):
        """Which of the loops that the contract talks about this is: the one it has most in common with, in order."""
        sig = loop_sig(n, lambda x: x.get('kind') in ('ForStmt', 'IfStmt') and self.log_kind(x))
        f = self.frame
        while f is not None and f.decl is None and f.parent is not None:
            f = f.parent
        where = ('' if f is None or f.parent is None or f.decl is None else f.decl.qname) + f'/{sum(t.kind == "loop" for t in self.targets)}'
        parts = n.get('inner', [])
        shape = n.get('kind') + (':' + ''.join(c if parts[i].get('kind') not in (None, 'NullStmt') else '-' for i, c in ((0, 'i'), (2, 'c'), (3, 'n'))) if n.get('kind') == 'ForStmt' and len(parts) == 5 else '')
        self.loopsigs.append({'sig': sorted(sig), 'var': loop_var(n), 'at': where, 'shape': shape})
        if not self.baseloops:
            return len(self.loopidx)
        used = set(self.loopidx.values())
        best, score = None, 0
        for i, b in enumerate(self.baseloops):
            if i not in used:
                o = set(b['sig'])
                sc = len(sig & o) / (len(sig | o) or 1) if sig | o else 1
                if sc > score:
                    best, score = i, sc
        if best is not None and score >= 0.3:
            if self.baseloops[best].get('at', where) != where:
                self.detached.add(f'the loop at line {n.get("_line")} has moved')
            elif self.baseloops[best].get('shape', shape) != shape:
                self.detached.add(f'the loop at line {n.get("_line")} has another head')
            return best
        return 1000 + len(self.loopidx)

    def loop(self, n, cond, body, inc, post=False, var=None):
        idx = self.loop_id(n)
        lv = loop_var(n)
        outer = self.loopvars
        if idx < len(self.baseloops) and self.baseloops[idx]['var'] and lv != self.baseloops[idx]['var']:
            v = self.find_name(lv) if lv else None
            if v is not None:
                self.loopvars = {**outer, self.baseloops[idx]['var']: v}
        elif lv in outer:
            self.loopvars = {k: v for k, v in outer.items() if k != lv}
        try:
            self.loop_at(idx, n, cond, body, inc, post, var)
        finally:
            self.loopvars = outer

    def loop_at(self, idx, n, cond, body, inc, post, var):
        ann = self.c.loop(idx) if self.c else None
        writes = self.find_writes(cond, body, inc, post, var)
        entry = self.st.copy()
        env = self.env_here({'loop': entry})
        line = n.get('_line')
        self.line(n)
        invs = []
        if ann is not None:
            for i, iv in enumerate(ann.inv):
                if (idx, i) in self.c.drop:
                    continue
                lab = f'loop{idx} inv{i}'
                if isinstance(iv, tuple):
                    # an invariant that carries a property is never left out
                    invs.append((f'loop{idx}: {iv[0]}', iv[1], (None, iv[2])))
                else:
                    invs.append((lab, iv, ((idx, i), None)))
        if ann is not None:
            for h in ann.entry_hints:
                hh = self.annotate(env, h)
                if hh:
                    self.hint(hh)
        if idx >= 1000 and self.baseloops is not None and writes:
            self.detached.add(f'the loop at line {line} is new')

        def inv_text(e, iv, key):
            t = self.annotate(e, iv) if key[0] is not None else self.placeholder(e, iv)
            if t is None:
                self.detached.add(f'an invariant of the loop at line {line} mentions variables that are gone')
            return t
        for lab, iv, key in invs:
            f = inv_text(env, iv, key)
            if f:
                self.obl('inv-entry', lab + ' holds initially', f, inv=key[0], props=key[1])
        self.havoc(writes, f'h{idx}')
        env = self.env_here({'loop': entry})
        start = len(self.lines)
        for lab, iv, key in invs:
            f = inv_text(env, iv, key)
            if f:
                self.assume(f)
        head = self.st.copy()
        self.headsnaps[f'head{idx}'] = head
        if ann is not None:
            for h in ann.head_hints:
                hh = self.annotate(env, h)
                if hh:
                    self.hint(hh)
        decr0 = []
        if ann is not None and ann.decr:
            for dtext in ann.decr:
                d0 = self.annotate(env, dtext)
                if d0:
                    decr0.append((dtext, self.let('dec', 'int', f'({d0}) as int')))
        tg = Target('loop', len(self.scopes))
        self.targets.append(tg)
        st, outs = self.loop_body(cond, body, inc, post, tg, var)
        self.targets.pop()
        if st is not None:
            self.st = st
            self.curline = line
            env2 = self.env_here({'loop': entry, 'head': head})
            if ann is not None:
                for h in ann.end_hints:
                    hh = self.annotate(env2, h)
                    if hh:
                        self.hint(hh)
            for lab, iv, key in invs:
                f = inv_text(env2, iv, key)
                if f:
                    self.obl('inv-preserved', lab + ' is preserved', f, inv=key[0], props=key[1])
            if decr0:
                # lexicographic
                alts = []
                eqs = []
                for dtext, d0 in decr0:
                    d1 = self.annotate(env2, dtext)
                    if d1 is None:
                        alts = None
                        break
                    alts.append(conj(eqs + [f'0 <= {d0}', f'(({d1}) as int) < {d0}']))
                    eqs.append(f'(({d1}) as int) == {d0}')
                if alts:
                    self.obl('termination', f'loop{idx} terminates', ' || '.join(paren(a) for a in alts))
        if ann is not None and ann.local and not self.dry:
            self.spans.append((start, len(self.lines), ann.hide))
        self.st = self.merge(outs + tg.brk)
        if self.st is not None and ann is not None:
            env3 = self.env_here({'loop': entry, 'head': head})
            for h in ann.exit_hints:
                hh = self.annotate(env3, h)
                if hh:
                    self.hint(hh)

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        if self.st is None:
            return V(VOID)
        self.line(n)
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported(f'expression {k}')
        return m(n)

    def typ(self, n):
        return self.ty.parse(n['type'].get('desugaredQualType') or n['type']['qualType'])

    def e_ParenExpr(self, n):
        return self.ev(n['inner'][0])

    def e_ConstantExpr(self, n):
        return self.ev(n['inner'][0])

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev(n['inner'][-1])

    def e_ExprWithCleanups(self, n):
        return self.ev(n['inner'][0])

    def e_CXXBindTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if self.st is None:
            return v
        if v.t[0] == 'struct' and self.dtor_of(v.t) is not None:
            if v.lv is None or True:
                lv = self.root_new('tmp', v.t, self.rv(v))
                self.scopes[-1].append((lv, self.dtor_of(v.t)))
                return V(v.t, lv=lv)
        return v

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if self.st is None or v.lv is not None:
            return v
        if v.t[0] in ('ptr', 'lambda', 'stream', 'it', 'file', 'fn', 'initlist', 'null', 'opaque', 'void'):
            return v
        if v.const is not None or v.chr is not None:
            return v
        return v

    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported('default argument outside a call')

    def e_IntegerLiteral(self, n):
        v = int(n['value'])
        return V(self.typ(n), ilit(v), const=v)

    def e_CharacterLiteral(self, n):
        c = n['value'] & 255
        return V(CHAR, f'{c}u8', const=c if c < 128 else c - 256)

    def e_CXXBoolLiteralExpr(self, n):
        return V(BOOL, 'true' if n['value'] else 'false')

    def e_CXXNullPtrLiteralExpr(self, n):
        return V(NULLT)

    def e_GNUNullExpr(self, n):
        return V(NULLT, '0', const=0)

    def e_StringLiteral(self, n):
        b = self.decode(n['value'])
        s = self.bytes_term(b)
        z = s if 0 not in b else self.bytes_term(b[:b.index(0)])
        return V(CPTR, f'CP {{ nn: true, s: {z} }}', const=b, x=z)

    def bytes_term(self, b):
        if not b:
            return 'Seq::<u8>::empty()'
        nm = 'lit_' + ''.join(f'{c:02x}' for c in b) if len(b) <= 24 else 'litx_' + str(abs(hash(bytes(b))))
        import hashlib
        if len(b) > 24:
            nm = 'litx_' + hashlib.sha1(bytes(b)).hexdigest()[:16]
        return 'seq![' + ', '.join(f'{c}u8' for c in b) + ']'

    def decode(self, s):
        # clang prints the literal in source form
        m = re.match(r'^(u8|L|u|U)?"(.*)"$', s, re.S)
        body = m.group(2)
        out = []
        i = 0
        esc = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'b': 8, 'f': 12, 'a': 7, 'v': 11, '?': 63}
        raw = body.encode('utf-8')
        while i < len(raw):
            c = raw[i:i + 1].decode('latin1')
            if c == '\\':
                d = raw[i + 1:i + 2].decode('latin1')
                if d in '01234567':
                    j = i + 1
                    v = 0
                    while j < len(raw) and j < i + 4 and chr(raw[j]) in '01234567':
                        v = v * 8 + int(chr(raw[j]))
                        j += 1
                    out.append(v & 255)
                    i = j
                    continue
                if d == 'x':
                    j = i + 2
                    v = 0
                    while j < len(raw) and chr(raw[j]) in '0123456789abcdefABCDEF':
                        v = v * 16 + int(chr(raw[j]), 16)
                        j += 1
                    out.append(v & 255)
                    i = j
                    continue
                out.append(esc[d])
                i += 2
                continue
            out.append(raw[i])
            i += 1
        return out

    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        i = r['id']
        if r['kind'] == 'EnumConstantDecl':
            if i in self.repo.enumc:
                c = self.repo.enumc[i]
                return V(U32, ilit(c), const=c)
            return self.lib.enum_const(self, r['name'])
        f = self.frame
        while f is not None:
            if i in f.locals:
                v = f.locals[i]
                if v.x is not None and isinstance(v.x, tuple) and v.x[0] == 'ptrvar':
                    return V(v.t, lv=v.lv, null=v.null, idx=self.get(v.x[1]), x=v.x)
                return v
            f = f.parent
        if i in self.repo.globals:
            return self.global_var(self.repo.globals[i])
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return V(('fn',), x=r)
        v = self.lib.global_ref(self, r)
        if v is not None:
            return v
        raise Unsupported(f'reference to {r["kind"]} {r.get("name")}')

    def global_var(self, g):
        name = g['name']
        ts = g['type'].get('desugaredQualType') or g['type']['qualType']
        const = g['type']['qualType'].startswith('const ') or g.get('constexpr')
        if g.get('previousDecl') and not g.get('inner') and g['previousDecl'] in self.repo.globals:
            return self.global_var(self.repo.globals[g['previousDecl']])
        t = self.ty.parse(ts)
        if const and g.get('inner'):
            init = g['inner'][0]
            saved = self.frame
            v = self.ev(init)
            if v.const is not None and t[0] == 'int':
                return V(t, v.term, const=v.const)
            return V(t, self.conv(v, t))
        root = 'g.' + name
        if root not in self.st.roots:
            raise Unsupported('global variable ' + name + ' not declared in the contract world')
        return V(t, lv=LV(root, (), t))

    def e_CXXThisExpr(self, n):
        f = self.frame
        while f is not None:
            if f.this is not None:
                return V(('ptr', f.this.t), lv=f.this.lv)
            f = f.parent
        raise Unsupported('this')

    def e_MemberExpr(self, n):
        base = self.ev(n['inner'][0])
        if self.st is None:
            return V(VOID)
        if n.get('isArrow') and base.t[0] == 'ptr':
            base = self.deref(base)
        name = n['name']
        if base.t[0] == 'pair':
            i = 0 if name == 'first' else 1
            t = base.t[1 + i]
            if base.lv is not None:
                return V(t, lv=base.lv.at(('p', i), t))
            return V(t, f'{paren(self.rv(base))}.{i}')
        if base.t[0] == 'mapentry':
            mlv, key = base.x
            if name == 'first':
                return V(mlv.t[1], key)
            return V(mlv.t[2], lv=mlv.at(('k', key), mlv.t[2]))
        md = n.get('referencedMemberDecl')
        if md in self.repo.globals:
            return self.global_var(self.repo.globals[md])
        return self.member(base, name)

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        if ck == 'LValueToRValue':
            return self.load(self.ev(e))
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e)
            if v.t == CPTR or v.t[0] in ('ctable', 'ptr'):
                return v
            if v.t[0] == 'arr' and v.lv is not None:
                return V(('ptr', v.t[1]), lv=v.lv, idx='0')
            raise Unsupported(f'decay of {v.t}')
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'Dependent', 'BuiltinFnToFnPtr'):
            return self.ev(e)
        if ck == 'ToVoid':
            self.ev(e)
            return V(VOID)
        if ck == 'IntegralCast':
            return self.icast(self.ev(e), self.typ(n))
        if ck == 'IntegralToBoolean':
            v = self.ev(e)
            return V(BOOL, self.tobool(v)) if self.st is not None else V(VOID)
        if ck == 'PointerToBoolean':
            v = self.ev(e)
            return V(BOOL, self.tobool(v))
        if ck in ('NullToPointer',):
            return V(NULLT)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(e)
            if self.st is None:
                return V(VOID)
            if v.t[0] == 'struct':
                fs = self.ty.fields(v.t)
                if fs and fs[0][0] == 'base':
                    return self.member(v, 'base')
            if v.t[0] == 'ptr' and v.t[1][0] == 'struct' and v.lv is not None and v.idx is None:
                fs = self.ty.fields(v.t[1])
                if fs and fs[0][0] == 'base':
                    return V(('ptr', fs[0][1]), lv=v.lv.at(('f', v.t[1][1], 'base'), fs[0][1]), null=v.null)
            return v
        if ck == 'BitCast':
            return self.ev(e)
        if ck == 'FloatingToIntegral' or ck == 'IntegralToFloating':
            raise Unsupported(ck)
        raise Unsupported(f'cast {ck}')

    def toint(self, v):
        if v.t[0] == 'int':
            return v
        if v.t == CHAR:
            t = self.rv(v)
            if v.const is not None:
                return V(I32, ilit(v.const), const=v.const)
            return V(I32, f'ch({t})', chr=('s', t))
        if v.t == U8:
            t = self.rv(v)
            if v.const is not None:
                return V(I32, ilit(v.const), const=v.const)
            return V(I32, f'({t} as int)', chr=('u', t))
        if v.t == BOOL:
            t = self.rv(v)
            if t in ('true', 'false'):
                c = 1 if t == 'true' else 0
                return V(I32, str(c), const=c)
            return V(I32, f'b2i({t})', x=('bool', t))
        raise Unsupported(f'toint {v.t}')

    def icast(self, v, t):
        if self.st is None:
            return V(VOID)
        if v.t == t and v.t not in (CHAR, U8):
            return self.load(v)
        if t == BOOL:
            return V(BOOL, self.tobool(v))
        if v.t == t:
            return self.load(v)
        if v.t[0] in ('dur', 'tp'):
            return V(t, self.rv(v))
        src = v
        v = self.toint(self.load(v))
        r = rng(t)
        sr = rng(src.t)
        if r is None:
            raise Unsupported(f'integral cast to {t}')
        if v.const is not None:
            c = (v.const - r[0]) % (r[1] - r[0] + 1) + r[0]
            if t in (CHAR, U8):
                return V(t, f'{c & 255}u8', const=c)
            return V(t, ilit(c), const=c)
        if t in (CHAR, U8):
            if v.chr is not None:
                return V(t, v.chr[1])
            return V(t, f'bt({v.term})')
        if sr is not None and r[0] <= sr[0] and sr[1] <= r[1]:
            return V(t, v.term, chr=v.chr, x=v.x)
        if not t[2]:
            if sr is not None and sr[0] >= 0 or t[1] < 64:
                return V(t, f'wrapu({v.term}, {2**t[1]})')
            if sr is not None and sr[0] < 0 and t[1] >= 64:
                tm = self.let('x', 'int', v.term)
                return V(t, f's2u64({tm})')
            return V(t, f'wrapu({v.term}, {2**t[1]})')
        return V(t, f'wraps({v.term}, {2**t[1]})')

    def castexpr(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        if ck == 'ConstructorConversion' or ck == 'UserDefinedConversion':
            return self.ev(e)
        if ck == 'NullToPointer':
            return V(NULLT)
        if ck == 'IntegralToPointer':
            v = self.ev(e)
            return V(('fnptr',), v.term, const=v.const)
        if ck in ('BitCast', 'NoOp', 'LValueBitCast'):
            v = self.ev(e)
            if v.t[0] == 'ptr' and v.lv is not None and v.lv.t == ('struct', 'sockaddr_in'):
                return v
            return v
        return self.e_ImplicitCastExpr(n)

    e_CStyleCastExpr = castexpr
    e_CXXStaticCastExpr = castexpr
    e_CXXFunctionalCastExpr = castexpr
    e_CXXReinterpretCastExpr = castexpr
    e_CXXConstCastExpr = castexpr

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            if 'argType' in n:
                t = self.ty.parse(n['argType'].get('desugaredQualType') or n['argType']['qualType'])
            else:
                e = n['inner'][0]
                t = self.ty.parse(e['type'].get('desugaredQualType') or e['type']['qualType'])
            s = self.sizeof(t)
            return V(U64, str(s), const=s)
        raise Unsupported('trait')

    def sizeof(self, t):
        if t[0] == 'int':
            return t[1] // 8
        if t in (CHAR, U8, BOOL):
            return 1
        if t[0] == 'arr':
            return t[2] * self.sizeof(t[1])
        if t == ('struct', 'pollfd'):
            return 8
        if t == ('struct', 'sockaddr_in'):
            return 16
        raise Unsupported(f'sizeof {t}')

    def e_UnaryOperator(self, n):
        op = n['opcode']
        e = n['inner'][0]
        if op in ('++', '--'):
            v = self.ev(e)
            if self.st is None:
                return V(VOID)
            if v.t[0] == 'ptr' and v.idx is not None:
                lv = v.x[1]
                old = self.get(lv)
                self.set(lv, f'{old} {op[0]} 1')
                o = V(v.t, lv=v.lv, null=v.null, idx=old, x=v.x)
                return o if n.get('isPostfix') else V(v.t, lv=v.lv, null=v.null, idx=self.get(lv), x=v.x)
            old = self.load(v)
            new = self.arith(op[0], V(v.t, old.term) if v.t[0] == 'int' else self.toint(old), V(v.t if v.t[0] == 'int' else I32, '1', const=1), v.t if v.t[0] == 'int' else I32)
            if v.t[0] != 'int':
                new = self.icast(new, v.t)
            self.set(v.lv, new.term)
            return old if n.get('isPostfix') else v
        if op == '!':
            v = self.ev(e)
            if self.st is None:
                return V(VOID)
            return V(BOOL, neg(self.tobool(v)))
        if op == '*':
            v = self.ev(e)
            if self.st is None:
                return V(VOID)
            if v.x == 'errno':
                return v
            if v.t == CPTR:
                t = self.rv(v)
                self.obl('safety', 'no null dereference', f'{paren(t)}.nn')
                return V(CHAR, f'at0({paren(t)}.s, 0)')
            return self.deref(v)
        if op == '&':
            v = self.ev(e)
            if self.st is None:
                return V(VOID)
            if v.lv is None:
                raise Unsupported('address of rvalue')
            lv = v.lv
            if lv.path and lv.path[-1][0] in ('i', 'c'):
                base = LV(lv.root, lv.path[:-1], STR if lv.path[-1][0] == 'c' or lv.t == CHAR else ('vec', lv.t))
                if lv.path[-1][0] == 'i' and lv.t == CHAR:
                    base = LV(lv.root, lv.path[:-1], STR)
                return V(('ptr', v.t), lv=base, idx=lv.path[-1][1])
            return V(('ptr', v.t), lv=lv)
        if op == '-':
            v = self.toint(self.load(self.ev(e)))
            if v.const is not None:
                return V(v.t, ilit(-v.const), const=-v.const)
            if v.t[2]:
                self.obl('overflow', 'negation does not overflow', f'{v.term} > {rng(v.t)[0]}')
                return V(v.t, f'(-{paren(v.term)})')
            return V(v.t, f'wrapu(-{paren(v.term)}, {2**v.t[1]})')
        if op == '+':
            return self.toint(self.load(self.ev(e)))
        if op == '~':
            v = self.toint(self.load(self.ev(e)))
            if v.const is not None and v.t[2]:
                return V(v.t, ilit(~v.const), const=~v.const)
            return V(v.t, f'(-{paren(v.term)} - 1)')
        if op == '__extension__':
            return self.ev(e)
        raise Unsupported('unary ' + op)

    def arith(self, op, a, b, t):
        """Arithmetic on two integers of the (already converted) type t."""
        x, y = a.term, b.term
        if a.const is not None and b.const is not None:
            r = {'+': lambda: a.const + b.const, '-': lambda: a.const - b.const, '*': lambda: a.const * b.const,
                 '<<': lambda: a.const << b.const, '>>': lambda: a.const >> b.const, '&': lambda: a.const & b.const,
                 '|': lambda: a.const | b.const, '^': lambda: a.const ^ b.const,
                 '/': lambda: int(a.const / b.const) if b.const else None, '%': lambda: a.const - b.const * int(a.const / b.const) if b.const else None}[op]()
            lo, hi = rng(t)
            if r is not None:
                if not t[2]:
                    r %= hi + 1
                if lo <= r <= hi:
                    return V(t, ilit(r), const=r)
        lo, hi = rng(t)
        if op in ('+', '-', '*'):
            e = f'{paren(x)} {op} {paren(y)}'
            if t[2]:
                tm = self.let('x', 'int', e)
                self.obl('overflow', 'signed arithmetic does not overflow', f'{ilit(lo)} <= {tm} <= {hi}')
                return V(t, tm)
            if op == '+':
                return V(t, f'uadd{t[1]}({x}, {y})')
            if op == '-':
                return V(t, f'usub{t[1]}({x}, {y})')
            return V(t, f'wrapu({e}, {2**t[1]})')
        if op in ('<<', '>>'):
            if b.const is None:
                raise Unsupported('shift by a variable')
            if op == '>>':
                return V(t, f'({paren(x)} / {2**b.const})')
            if t[2]:
                tm = self.let('x', 'int', f'{paren(x)} * {2**b.const}')
                self.obl('overflow', 'shift does not overflow', f'0 <= {x} && {tm} <= {2 * hi + 1}')
                return V(t, tm)
            return V(t, f'wrapu({paren(x)} * {2**b.const}, {2**t[1]})')
        if op in ('/', '%'):
            self.obl('safety', 'no division by zero', f'{y} != 0')
            if t[2]:
                if b.const is None or b.const <= 0:
                    raise Unsupported('signed division')
                # rounds towards zero
                tm = self.let('x', 'int', f'if {x} >= 0 {{ {paren(x)} {op} {paren(y)} }} else {{ -((-{paren(x)}) {op} {paren(y)}) }}')
                return V(t, tm)
            return V(t, f'({paren(x)} {op} {paren(y)})')
        if op == '&':
            if b.const is None and a.const is not None:
                a, b, x, y = b, a, y, x
            if b.const is not None and b.const > 0:
                low = b.const & -b.const
                top = b.const + low
                if b.const != low and top & (top - 1) == 0:
                    # contiguous bits: exact
                    return V(t, f'{paren(x)} % {top}' if low == 1 else f'{paren(x)} / {low} % {top // low} * {low}')
                return V(t, f'band({x}, {y})', x=('band', x, b.const))
            return V(t, f'band({x}, {y})')
        if op == '|':
            if a.const is not None and b.const is not None:
                return V(t, str(a.const | b.const), const=a.const | b.const)
            if b.const is None:
                a, b, x, y = b, a, y, x
            if b.const is not None and b.const > 0:
                r = self.let('or', 'int', f'bor({x}, {y})')
                for k in range(b.const.bit_length()):
                    if b.const >> k & 1:
                        self.assume(f'hasbit({r}, {1 << k})')
                return V(t, r)
            return V(t, f'bor({x}, {y})')
        raise Unsupported('arith ' + op)

    def compare(self, op, a, b):
        vop = {'==': '==', '!=': '!=', '<': '<', '>': '>', '<=': '<=', '>=': '>='}[op]
        if a.const is not None and b.const is not None:
            r = eval(f'{a.const}{op}{b.const}')
            return 'true' if r else 'false'
        if b.const is not None and a.chr is not None and op in ('==', '!='):
            lo, hi = (-128, 127) if a.chr[0] == 's' else (0, 255)
            if lo <= b.const <= hi:
                return f'{a.chr[1]} {vop} {b.const & 255}u8'
        if a.const is not None and b.chr is not None and op in ('==', '!='):
            return self.compare(op, b, a)
        if a.chr is not None and b.chr is not None and a.chr[0] == b.chr[0] and op in ('==', '!='):
            return f'{a.chr[1]} {vop} {b.chr[1]}'
        if a.x is not None and isinstance(a.x, tuple) and a.x[0] == 'bool' and b.x is not None and isinstance(b.x, tuple) and b.x[0] == 'bool' and op in ('==', '!='):
            return f'{paren(a.x[1])} {vop} {paren(b.x[1])}'
        return f'{paren(a.term)} {vop} {paren(b.term)}'

    def e_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op == ',':
            self.ev(l)
            return self.ev(r)
        if op in ('&&', '||'):
            return self.shortcircuit(op, l, r)
        if op == '=':
            a = self.ev(l)
            if self.st is None:
                return V(VOID)
            b = self.ev(r)
            if self.st is None:
                return V(VOID)
            return self.assign(a, b)
        a = self.ev(l)
        if self.st is None:
            return V(VOID)
        b = self.ev(r)
        if self.st is None:
            return V(VOID)
        a, b = self.load(a), self.load(b)
        return self.binop(op, a, b, n)

    def assign(self, a, b):
        if a.lv is None and not (a.x == 'environ'):
            raise Unsupported('assignment to non-lvalue')
        if a.x == 'environ':
            self.lib.set_environ(self, b)
            return a
        if a.t[0] == 'ptr' or a.t == CPTR and b.t[0] == 'ptr':
            if a.x is not None and isinstance(a.x, tuple) and a.x[0] == 'ptrvar' and b.idx is not None:
                self.set(a.x[1], b.idx)
                return a
            if a.t[0] == 'ptr':
                raise Unsupported('pointer assignment')
        self.check_write(a)
        self.set(a.lv, self.conv(b, a.t))
        return a

    def check_write(self, a):
        """Element writes must be inside the sequence (a string's terminator may not be written)."""
        if a.lv.path and a.lv.path[-1][0] == 'c':
            base = LV(a.lv.root, a.lv.path[:-1], STR)
            self.obl('safety', 'element write in bounds', f'0 <= {a.lv.path[-1][1]} < {self.get(base)}.len()')

    def binop(self, op, a, b, n=None):
        if op in ('==', '!=') and (a.t[0] in ('ptr', 'null', 'cptr', 'file') or b.t[0] in ('ptr', 'null', 'cptr', 'file')):
            if a.t[0] == 'null':
                a, b = b, a
            if b.t[0] == 'null':
                c = self.tobool(a)
                return V(BOOL, neg(c) if op == '==' else c)
            if a.t[0] == 'ptr' and b.t[0] == 'ptr' and a.lv is not None and b.lv is not None and a.idx is not None and b.idx is not None and (a.lv.root, a.lv.path) == (b.lv.root, b.lv.path):
                return V(BOOL, f'{paren(a.idx)} {op} {paren(b.idx)}')
            raise Unsupported('pointer comparison')
        if a.t[0] == 'ptr' and op in ('+', '-') and b.t[0] in ('int',):
            return V(a.t, lv=a.lv, null=a.null, idx=f'{paren(a.idx or "0")} {op} {paren(b.term)}')
        if op in ('+', '-') and a.t == CPTR:
            raise Unsupported('char pointer arithmetic')
        if a.t == BOOL and b.t == BOOL and op in ('==', '!='):
            return V(BOOL, f'{paren(self.rv(a))} {op} {paren(self.rv(b))}')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = self.toint(a), self.toint(b)
            if a.x and isinstance(a.x, tuple) and a.x[0] == 'band' and b.const == 0 and op in ('==', '!='):
                t = ' || '.join(f'hasbit({a.x[1]}, {1 << k})' for k in range(a.x[2].bit_length()) if a.x[2] >> k & 1)
                return V(BOOL, t if op == '!=' else neg(t))
            return V(BOOL, self.compare(op, a, b))
        if op in ('|', '&', '^') and a.t == BOOL and b.t == BOOL:
            return V(BOOL, f'{paren(self.rv(a))} {"||" if op == "|" else "&&"} {paren(self.rv(b))}')
        t = self.typ(n) if n is not None else a.t
        a, b = self.toint(a), self.toint(b)
        if op in ('&', '|') and a.x and b.x and isinstance(a.x, tuple) and isinstance(b.x, tuple) and a.x[0] == 'bool' and b.x[0] == 'bool':
            r = f'{paren(a.x[1])} {"||" if op == "|" else "&&"} {paren(b.x[1])}'
            return V(I32, f'b2i({r})', x=('bool', r))
        return self.arith(op, a, b, t if t[0] == 'int' else I32)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a = self.ev(n['inner'][0])
        if self.st is None:
            return V(VOID)
        b = self.ev(n['inner'][1])
        if self.st is None:
            return V(VOID)
        cur = self.load(a)
        b = self.load(b)
        if a.t == BOOL and op in ('|', '&'):
            bt = self.tobool(b) if not (b.x and isinstance(b.x, tuple) and b.x[0] == 'bool') else b.x[1]
            self.set(a.lv, f'{paren(cur.term)} {"||" if op == "|" else "&&"} {paren(bt)}')
            return a
        if a.t[0] == 'ptr' and a.x and a.x[0] == 'ptrvar':
            self.set(a.x[1], f'{paren(a.idx)} {op} {paren(b.term)}')
            return a
        ct = n.get('computeResultType')
        t = self.ty.parse(ct.get('desugaredQualType') or ct['qualType']) if ct else a.t
        lt = n.get('computeLHSType')
        t1 = self.ty.parse(lt.get('desugaredQualType') or lt['qualType']) if lt else t
        x = self.icast(cur, t1) if cur.t != t1 else cur
        if x.t in (CHAR, U8):
            x = self.toint(x)
        r = self.arith(op, self.toint(x), self.toint(b), t if t[0] == 'int' else I32)
        r = self.icast(r, a.t) if r.t != a.t else r
        self.check_write(a)
        self.set(a.lv, r.term)
        return a

    def shortcircuit(self, op, l, r):
        a = self.ev(l)
        if self.st is None:
            return V(VOID)
        ta = self.tobool(a)
        if (op == '&&' and ta == 'false') or (op == '||' and ta == 'true'):
            return V(BOOL, ta)
        if (op == '&&' and ta == 'true') or (op == '||' and ta == 'false'):
            b = self.ev(r)
            return V(BOOL, self.tobool(b)) if self.st is not None else V(VOID)
        ta = self.let('c', 'bool', ta)
        base = self.st.copy()
        nl = len(self.lines)
        g = self.st
        g.pc = self.and_pc(ta if op == '&&' else neg(ta))
        gpc = g.pc
        b = self.ev(r)
        if self.st is None:
            self.st = base
            self.st.pc = self.and_pc(neg(ta) if op == '&&' else ta)
            return V(BOOL, 'false' if op == '&&' else 'true')
        tb = self.tobool(b)
        if self.st.pc == gpc and self.st.roots == base.roots:
            # no effect, no exit: keep the original path condition
            self.st.pc = base.pc
            self.joins.setdefault(base.pc, []).append(gpc)
            return V(BOOL, f'{paren(ta)} {op} {paren(tb)}')
        tb = self.let('c', 'bool', tb)
        eff = self.st
        self.st = base
        base.pc = self.and_pc(neg(ta) if op == '&&' else ta)
        res = self.let('c', 'bool', f'{paren(ta)} {op} {paren(tb)}')
        self.st = self.merge([eff, base])
        return V(BOOL, res)

    def e_ConditionalOperator(self, n):
        c0, l, r = n['inner']
        c = self.ev(c0)
        if self.st is None:
            return V(VOID)
        c = self.let('c', 'bool', self.tobool(c))
        if c == 'true':
            return self.ev(l)
        if c == 'false':
            return self.ev(r)
        base = self.st
        a = base.copy()
        a.pc = self.and_pc(c)
        b = base.copy()
        b.pc = self.and_pc(neg(c))
        self.st = a
        va = self.ev(l)
        sa = self.st
        ta = self.cond_term(va)
        sa = self.st
        self.st = b
        vb = self.ev(r)
        tb = self.cond_term(vb)
        sb = self.st
        if sa is None or sb is None:
            self.st = self.merge([sa, sb])
            v = vb if sa is None else va
            return v
        if va.t[0] in ('ptr', 'null') or vb.t[0] in ('ptr', 'null'):
            if va.t == CPTR or vb.t == CPTR:
                t = f'if {c} {{ {self.as_cp_in(sa, va)} }} else {{ {self.as_cp_in(sb, vb)} }}'
                self.st = self.merge([sa, sb])
                return V(CPTR, self.let('p', 'CP', t))
            self.st = self.merge([sa, sb])
            return self.merge_ptr(c, va, vb)
        if va.lv is not None and vb.lv is not None and n.get('valueCategory') == 'lvalue' and (va.lv.root, va.lv.path) == (vb.lv.root, vb.lv.path):
            self.st = self.merge([sa, sb])
            return va
        t = va.t
        if va.t != vb.t:
            if {va.t[0], vb.t[0]} == {'cptr', 'str'}:
                raise Unsupported('mixed conditional')
            t = self.typ(n)
        if t == VOID:
            self.st = self.merge([sa, sb])
            return V(VOID)
        if sa.roots == sb.roots and sa.pc == a.pc and sb.pc == b.pc:
            self.st = base
            self.joins.setdefault(base.pc, []).extend([a.pc, b.pc])
        else:
            self.st = self.merge([sa, sb])
        if ta == tb:
            return V(t, ta, const=va.const if va.const == vb.const else None)
        return V(t, self.let('v', self.ty.vt(t), f'if {c} {{ {ta} }} else {{ {tb} }}'), x=va.x if t[0] == 'it' else None)

    def as_cp_in(self, st, v):
        keep = self.st
        self.st = st
        t = self.as_cp(v)
        self.st = keep
        return t

    def cond_term(self, v):
        if self.st is None or v.t[0] in ('ptr', 'null', 'void', 'stream', 'lambda'):
            return None
        return self.rv(v)

    def e_ArraySubscriptExpr(self, n):
        a = self.ev(n['inner'][0])
        if self.st is None:
            return V(VOID)
        i = self.toint(self.load(self.ev(n['inner'][1])))
        if self.st is None:
            return V(VOID)
        if a.t[0] == 'ctable':
            self.obl('safety', 'table index in bounds', f'0 <= {i.term} < {a.t[2]}')
            et = a.t[1]
            if et in (CHAR, U8):
                return V(I32, f'{a.x}({i.term})')
            return V(et, f'{a.x}({i.term})')
        if a.t == CPTR:
            # reading through a C string: characters up to and including its terminator exist
            t = self.rv(a)
            self.obl('safety', 'C string access in bounds', f'{paren(t)}.nn && 0 <= {i.term} <= {paren(t)}.s.len()')
            return V(CHAR, f'at0({paren(t)}.s, {i.term})')
        if a.t[0] == 'ptr':
            ix = i.term if a.idx in (None, '0') else f'{paren(a.idx)} + {paren(i.term)}'
            return self.deref(V(a.t, lv=a.lv, null=a.null, idx=ix))
        raise Unsupported(f'subscript of {a.t}')

    def e_CXXThrowExpr(self, n):
        if n.get('inner'):
            pass
        self.leave('throw')
        return V(VOID)

    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        op = None
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
        return V(('lambda',), x=(op, self.frame))

    def call_lambda(self, lam, args, node):
        op, fr0 = lam.x
        body = next(c for c in op['inner'] if c.get('kind') == 'CompoundStmt')
        params = [c for c in op['inner'] if c.get('kind') == 'ParmVarDecl']
        fr = Frame(None, fr0, (fr0.key if fr0 else ()) + (node['id'],))
        fr.parent = self.frame if self.frame is not None else fr0
        # a lambda runs in the frame chain of its definition; our inlining keeps that frame alive
        fr2 = Frame(None, fr0, self.frame.key + (node['id'],))
        for p, a in zip(params, args):
            ps = p['type'].get('desugaredQualType') or p['type']['qualType']
            if not ps.strip().endswith('&') and a.t[0] not in ('ptr', 'lambda', 'stream', 'it'):
                a = self.load(a)
                a = V(a.t, lv=self.root_new(p.get('name', 'a'), a.t, self.rv(a)))
            fr2.locals[p['id']] = a
            fr2.names[p.get('name')] = a
        tg = Target('fn', len(self.scopes), frame=fr2)
        self.targets.append(tg)
        saved = self.frame
        self.frame = fr2
        self.stmt(body)
        if self.st is not None:
            tg.ret.append((self.st, None))
        self.frame = saved
        self.targets.pop()
        return self.join_returns(tg.ret, None)

    def e_InitListExpr(self, n):
        items = n.get('inner') or []
        if n.get('array_filler'):
            items = [x for x in n['array_filler'] if x.get('kind') not in ('ImplicitValueInitExpr',)]
            items = [x for x in items if not (x.get('kind') == 'InitListExpr' and not x.get('inner') and x is n['array_filler'][0])]
        t = self.typ(n)
        xs = []
        for x in items:
            if x.get('kind') == 'ImplicitValueInitExpr':
                ft = None
                xs.append(V(self.typ(x), self.ty.default(self.typ(x))))
            else:
                xs.append(self.load(self.ev(x)))
        if t[0] in ('struct', 'arr'):
            return V(t, self.let('il', self.ty.vt(t), self.initlist(t, xs)))
        if len(xs) == 1 and t[0] in ('int', 'bool', 'char', 'u8'):
            return xs[0]
        return V(('initlist',), x=xs)

    def e_CXXStdInitializerListExpr(self, n):
        e = n['inner'][0]
        while e.get('kind') in ('MaterializeTemporaryExpr', 'ImplicitCastExpr'):
            e = e['inner'][0]
        items = e.get('inner') or []
        return V(('initlist',), x=[self.load(self.ev(x)) for x in items])

    def e_CXXScalarValueInitExpr(self, n):
        t = self.typ(n)
        if t[0] == 'ptr' or t == CPTR:
            return V(NULLT)
        return V(t, self.ty.default(t))

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_CXXConstructExpr(self, n):
        v = self.construct(n)
        return v

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, n, into=None):
        ts = n['type'].get('desugaredQualType') or n['type']['qualType']
        t = self.ty.parse(ts)
        args = n.get('inner', [])
        if n.get('elidable'):
            return self.ev(args[0])
        if t[0] == 'struct' and t[1] in self.ty.alias:
            q = self.ty.alias[t[1]]
            ct = n['ctorType']['qualType']
            cands = [d for d in self.repo.fn.values() if d.kind == 'CXXConstructorDecl' and d.cls == q]
            d = None
            for x in cands:
                if self.same_sig(x.ctype, ct):
                    d = self.repo.definition(x.id) or x
                    break
            lvt = into
            if lvt is None:
                r = self.fresh_name('obj')
                self.rtype[r] = t
                self.st.roots[r] = self.let('obj', self.ty.vt(t), self.ty.default(t))
                lvt = LV(r, (), t)
            if d is None or d.body is None or d.node.get('isImplicit'):
                if not args:
                    # implicit default constructor: members without initialiser
                    self.default_construct(lvt, t)
                    return V(t, lv=lvt) if into is None else V(('inplace',))
                src = self.ev(args[0])
                if self.st is None:
                    return V(VOID)
                self.mark_shared(src)
                self.set(lvt, self.rv(src))
                return V(t, lv=lvt) if into is None else V(('inplace',))
            # run the real constructor
            avs = self.eval_args(d, args)
            if self.st is None:
                return V(VOID)
            self.call_repo(d, V(t, lv=lvt), avs, n)
            return V(t, lv=lvt) if into is None else V(('inplace',))
        return self.lib.construct(self, t, n, args)

    def default_construct(self, lv, t):
        # integer members stay uninitialised
        q = self.ty.alias.get(t[1])
        term = self.ty.default(t)
        parts = []
        for f, ft in self.ty.fields(t):
            if ft[0] in ('int', 'bool'):
                parts.append(f'{f}: {self.fresh("uninit_" + f, ft)}')
            else:
                parts.append(f'{f}: {self.ty.default(ft)}')
        self.set(lv, t[1] + ' { ' + ', '.join(parts) + ' }')

    def mark_shared(self, v):
        """Copying an object that holds shared_ptr members makes the pointees shared."""
        if v.lv is None:
            return
        if v.t[0] == 'sptr':
            cur = self.get(v.lv)
            self.set(v.lv, f'SP {{ nn: {paren(cur)}.nn, sh: true, v: {paren(cur)}.v }}')

    def same_sig(self, a, b):
        na = re.sub(r'\s|noexcept(\([^)]*\))?|k8psh::|throw\(\)', '', a)
        nb = re.sub(r'\s|noexcept(\([^)]*\))?|k8psh::|throw\(\)', '', b)
        return na == nb

    def eval_args(self, d, args):
        out = []
        for i, a in enumerate(args):
            if a.get('kind') == 'CXXDefaultArgExpr':
                p = d.params[i]
                e = self.repo.defaults.get(p['id'])
                if e is None:
                    # look at other declarations of the same function
                    for x in self.repo.fn.values():
                        if x.mangled == d.mangled and i < len(x.params) and x.params[i]['id'] in self.repo.defaults:
                            e = self.repo.defaults[x.params[i]['id']]
                if e is None:
                    raise Unsupported('default argument not found')
                v = self.ev(e)
            else:
                v = self.ev(a)
            if self.st is None:
                return out
            ps = d.params[i]['type'].get('desugaredQualType') or d.params[i]['type']['qualType'] if i < len(d.params) else ''
            if v.lv is not None and not ps.strip().endswith('&'):
                v = self.load(v)
            if v.t[0] == 'null' and ps:
                pt = self.ty.parse(ps)
                if pt == CPTR:
                    v = V(CPTR, 'CP { nn: false, s: Seq::<u8>::empty() }')
            if v.t == CPTR and ps and self.ty.parse(ps) == STR:
                v = V(STR, self.cstr(v))
            out.append(v)
        return out

    def callee_ref(self, e):
        while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            e = e['inner'][0]
        return e

    def callee_name(self, e):
        e = self.callee_ref(e)
        if e.get('kind') == 'DeclRefExpr':
            return e['referencedDecl'].get('name')
        return e.get('name')

    def callee_decl(self, e):
        e = self.callee_ref(e)
        if e.get('kind') == 'DeclRefExpr':
            return self.repo.fn.get(e['referencedDecl']['id'])
        return None

    def e_CallExpr(self, n):
        f = n['inner'][0]
        args = n['inner'][1:]
        ref = self.callee_ref(f)
        if ref.get('kind') == 'DeclRefExpr':
            rid = ref['referencedDecl']['id']
            name = ref['referencedDecl'].get('name')
            if rid in self.repo.fn:
                d = self.repo.definition(rid)
                avs = self.eval_args(d, args)
                if self.st is None:
                    return V(VOID)
                return self.ret_conv(self.call_repo(d, None, avs, n))
            return self.lib.call(self, name, args, n, ref)
        raise Unsupported('indirect call')

    def ret_conv(self, v):
        return v if v is not None else V(VOID)

    def e_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        args = n['inner'][1:]
        while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me.get('kind') != 'MemberExpr':
            raise Unsupported('member call through ' + me.get('kind', '?'))
        name = me['name']
        if self.is_logger(n) and self.log_root(n):
            return self.log_other(n)
        obj = self.ev(me['inner'][0])
        if self.st is None:
            return V(VOID)
        if me.get('isArrow') and obj.t[0] == 'ptr':
            obj = self.deref(obj)
        md = me.get('referencedMemberDecl')
        if md in self.repo.fn:
            d = self.repo.definition(md)
            if d.node.get('isImplicit') and d.name == 'operator=':
                raise Unsupported('explicit implicit assignment')
            avs = self.eval_args(d, args)
            if self.st is None:
                return V(VOID)
            if obj.lv is None and obj.t[0] == 'struct':
                obj = V(obj.t, lv=self.root_new('tmpobj', obj.t, self.rv(obj)))
            return self.ret_conv(self.call_repo(d, obj if not d.static else None, avs, n))
        return self.lib.method(self, obj, name, args, n)

    def log_root(self, n):
        ops = []
        e = n
        while isinstance(e, dict):
            k = e.get('kind')
            if k == 'CXXMemberCallExpr':
                me = e['inner'][0]
                if me.get('name') == 'getStream':
                    return True
                e = me['inner'][0] if me.get('inner') else None
            elif k == 'CXXOperatorCallExpr':
                e = e['inner'][1]
            elif k in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ExprWithCleanups', 'MemberExpr'):
                e = e['inner'][0]
            else:
                return False
        return False

    def log_other(self, n):
        """LOG_INFO / LOG_WARNING: output only; operands are evaluated when they could have effects."""
        for o in self.log_operands(n):
            if self.impure(o) and self.st is not None:
                self.ev(o)
        return V(STREAM)

    def e_CXXOperatorCallExpr(self, n):
        name = self.callee_name(n['inner'][0])
        args = n['inner'][1:]
        if name == 'operator<<' and self.log_root(n):
            return self.log_other(n)
        d = self.callee_decl(n['inner'][0])
        if d is not None:
            df = self.repo.definition(d.id)
            obj = self.ev(args[0])
            if self.st is None:
                return V(VOID)
            if name == 'operator()' and obj.t[0] == 'lambda':
                avs = [self.ev(a) for a in args[1:]]
                return self.call_lambda(obj, avs, n)
            if df.node.get('isImplicit') or df.body is None:
                if name == 'operator=':
                    b = self.ev(args[1])
                    if self.st is None:
                        return V(VOID)
                    self.mark_shared_in(b)
                    self.set(obj.lv, self.rv(b))
                    return obj
                raise Unsupported('implicit ' + name)
            avs = self.eval_args(df, args[1:])
            if self.st is None:
                return V(VOID)
            return self.ret_conv(self.call_repo(df, obj, avs, n))
        if name == 'operator()':
            obj = self.ev(args[0])
            if obj.t[0] == 'lambda':
                avs = [self.ev(a) for a in args[1:]]
                return self.call_lambda(obj, avs, n)
            raise Unsupported('call operator')
        return self.lib.operator(self, name, args, n)

    def mark_shared_in(self, v):
        pass

    # ---------------------------------------------------------------- whole function
    def run(self):
        d, c = self.decl, self.c
        self.canaries_exec = []
        self.collect = None
        self.st = St({}, 'true')
        fr = Frame(d, None, ())
        self.frame = self.rootframe = fr
        self.namemap = {}
        self.presnap = {}
        for nm, t in self.lib.WORLD.items():
            r = 'w.' + nm
            self.rtype[r] = t
            self.st.roots[r] = self.fresh('w_' + nm, t)
        for g in self.repo.globals.values():
            ts = g['type'].get('desugaredQualType') or g['type']['qualType']
            if g['type']['qualType'].startswith('const ') or g.get('constexpr'):
                continue
            try:
                t = self.ty.parse(ts)
                r = 'g.' + g['name']
                if r not in self.st.roots:
                    self.rtype[r] = t
                    self.st.roots[r] = self.fresh('g_' + g['name'], t)
            except Unsupported:
                pass
        if d.cls and not d.static:
            t = self.ty.parse(d.cls)
            self.rtype['this'] = t
            self.st.roots['this'] = self.fresh('this', t)
            fr.this = V(t, lv=LV('this', (), t))
            for f, ft in self.ty.refs.get(t[1], {}).items():
                r = 'this.' + f
                self.rtype[r] = ft
                self.st.roots[r] = self.fresh('this_' + f, ft)
                self.refs[('this', (), f)] = V(ft, lv=LV(r, (), ft))
        for i, p in enumerate(d.params):
            ts = p['type'].get('desugaredQualType') or p['type']['qualType']
            name = p.get('name') or f'arg{i}'
            cname = c.params[i] if i < len(c.params) else name
            t = self.ty.parse(ts)
            if t == ('ptr', VOID):
                t = ('ptr', U8)
            if t[0] == 'ptr':
                # pointer to the first element of an array (or to a single object when the contract says so)
                if c.ptr.get(cname) == 'object':
                    r = name + '_obj'
                    self.rtype[r] = t[1]
                    self.st.roots[r] = self.fresh(name, t[1])
                    nl = self.fresh(name + '_null', BOOL)
                    v = V(t, lv=LV(r, (), t[1]), null=nl)
                else:
                    vt_ = ('vec', t[1])
                    r = name + '_arr'
                    self.rtype[r] = vt_
                    self.st.roots[r] = self.fresh(name, vt_)
                    ix = self.root_new(name + '_ix', I64, '0')
                    v = V(t, lv=LV(r, (), vt_), idx='0', x=('ptrvar', ix))
            elif t[0] in ('stream', 'file', 'opaque'):
                v = V(t, self.fresh(name, t) if t[0] == 'file' else None, x=('param', cname))
                if t[0] == 'stream':
                    v = V(t, x=self.lib.stream_param(self, cname))
            else:
                r = name + '_p'
                self.rtype[r] = t
                self.st.roots[r] = self.fresh(name, t)
                v = V(t, lv=LV(r, (), t))
                for f, ft in (self.ty.refs.get(t[1], {}) if t[0] == 'struct' else {}).items():
                    rr = r + '.' + f
                    self.rtype[rr] = ft
                    self.st.roots[rr] = self.fresh(name + '_' + f, ft)
                    self.refs[(r, (), f)] = V(ft, lv=LV(rr, (), ft))
            fr.locals[p['id']] = v
            fr.names[name] = v
            fr.names[cname] = v
        self.loopvars, self.loopsigs = {}, []
        self.baseloops = self.contracts.baseline.get(self.contracts.cid(c), {}).get('loops', [])
        self.entry = self.st.copy()
        self.presnap = {'pre': self.entry}
        self.namemap = self.contracts.namemap(c, d)
        env = self.env_here({})
        for f in self.lib.WORLD_WF:
            self.assume(self.placeholder(env, f))
        for lab, f, *_ in c.requires:
            self.assume(self.placeholder(env, f))
        for lab, f in c.opts.get('assume', []):
            self.assume(self.placeholder(env, f))
        self.static_inv = {}
        for nm, f in c.opts.get('statics', {}).items():
            self.static_inv[nm] = f
        for h in c.entry_hints:
            self.hint(self.placeholder(env, h))
        env = self.env_here({})
        # the names of locals are not visible to postconditions, only parameters
        pnames = {cn: fr.names[cn] for cn in c.params if cn in fr.names}

        def names(nm):
            if nm in pnames:
                return pnames[nm]
            raise Unsupported(f'{nm} is not a parameter of {c.key}')
        env['names'] = names

        # what was in a local variable when the process forked
        def locs(nm):
            saved, self.frame = self.frame, fr
            try:
                return self.lookup_name(nm)
            finally:
                self.frame = saved
        env['locals'] = locs
        self.canaries = []
        # by-value parameters: contracts talk about their values at entry
        byval = {}
        for i, p in enumerate(d.params):
            ts = p['type'].get('desugaredQualType') or p['type']['qualType']
            cn = c.params[i] if i < len(c.params) else None
            if cn and not ts.strip().endswith('&') and cn in pnames and pnames[cn].lv is not None and pnames[cn].t[0] != 'ptr':
                byval[cn] = V(pnames[cn].t, self.entry.roots[pnames[cn].lv.root])
            if cn and cn in pnames and pnames[cn].t[0] == 'ptr' and pnames[cn].idx is not None:
                byval[cn] = V(pnames[cn].t, lv=pnames[cn].lv, idx='0', null=pnames[cn].null)
        pnames.update(byval)
        self.outenv = env
        self.pre_lines = len(self.lines)
        tg = Target('fn', len(self.scopes), frame=fr)
        nt = None
        self.targets.append(tg)
        for ini in d.inits:
            self.ctor_init(d, ini, fr.this)
        self.stmt(d.body)
        if self.st is not None:
            tg.ret.append((self.st, None))
        self.targets.pop()
        self.returns = tg.ret
        rets = list(tg.ret)
        env = self.outenv
        env['snap'] = self.env_here({})['snap']
        for s, v in rets:
            self.st = s
            self.curline = None
            for h in c.exit_hints:
                self.hint_try(env, h, v)
            for lab, f, *tags in c.ensures:
                self.obl('ensures', f'ensures {lab}', self.placeholder(env, f, v), props=tags[0] if tags else None)
            if c.throws not in ('never', 'may'):
                self.st = self.entry.copy()
                cond = self.placeholder(env, c.throws)
                self.st = s
                self.obl('ensures', 'returns only when no error is required', neg(cond), props=c.throws_props)
            self.frame_obls(c, s, env)
            self.static_obls(s)
            self.canaries.append(('return', s.pc))
        self.curline = None
        self.collect = {}
        for kind, s, code in self.exits:
            self.st = s
            if kind == 'throw':
                for h in c.exc_hints:
                    self.hint_try(env, h, None)
                if c.throws == 'never':
                    self.obl('ensures', 'does not fail with an exception', 'false', props=c.throws_props)
                else:
                    if c.throws != 'may':
                        self.st = self.entry.copy()
                        cond = self.placeholder(env, c.throws)
                        self.st = s
                        self.obl('ensures', 'fails with an exception only when required', cond, props=c.throws_props)
                    for lab, f, *tags in c.exc_ensures:
                        self.obl('ensures', f'on exception: {lab}', self.placeholder(env, f), props=tags[0] if tags else None)
                    self.frame_obls(c, s, env)
                    self.canaries.append(('throw', s.pc))
            elif kind == 'exit':
                for lab, f, *tags in c.exit_ensures:
                    ff = self.placeholder(env, f.replace('{code}', code if code is not None else '0'))
                    self.obl('ensures', f'on exit: {lab}', ff, props=tags[0] if tags else None)
                if not c.exit_ensures and not c.may_exit:
                    self.obl('ensures', 'does not terminate the process', 'false')
                self.canaries.append(('exit', s.pc))
            elif kind == 'abort':
                if c.abort_ensures:
                    for lab, f, *tags in c.abort_ensures:
                        self.obl('ensures', f'on abnormal termination: {lab}', self.placeholder(env, f), props=tags[0] if tags else None)
                elif not c.may_abort:
                    self.obl('ensures', 'does not abort', 'false')
        self.emit_collected()

    def emit_collected(self):
        """What is the same on several ways out becomes one obligation."""
        got, self.collect = self.collect, None
        pcs = {}
        for (kind, label, f, props), ps in sorted(got.items(), key=lambda kv: kv[0][0] != 'hint'):
            k = tuple(dict.fromkeys(ps))
            if k not in pcs:
                if len(k) == 1:
                    pcs[k] = k[0]
                else:
                    pcs[k] = self.let('pc', 'bool', ' || '.join(k))
                    self.joins[pcs[k]] = k
            self.st = St({}, pcs[k])
            if kind == 'hint':
                self.hint(label)
            else:
                self.obl(kind, label, f, props=props)
        self.st = None

    def static_obls(self, s):
        for r in s.roots:
            if r.startswith('s.'):
                for nm, f in self.static_inv.items():
                    if nm == r[2:] or r[2:] not in self.c.opts['statics']:
                        self.obl('inv-preserved', f'static invariant of {nm}', f.replace('{it}', s.roots[r]))

    def hint_try(self, env, h, v):
        try:
            self.hint(self.placeholder(env, h, v))
        except Unsupported as ex:
            self.unsupported_hints.append(f'{h}: {ex}')

    def frame_obls(self, c, s, env):
        """Everything not in `modifies` is unchanged."""
        allowed = set()
        saved = self.st
        self.st = s
        for m in c.modifies:
            lv = self.resolve_lv(env, m)
            allowed.add((lv.root, lv.path))
        for r, old in self.entry.roots.items():
            new = s.roots.get(r, old)
            if new == old or (r, ()) in allowed:
                continue
            if r.startswith('s.') or r.startswith('g.') and False:
                continue
            if r.endswith('_ix') or self.is_byval(r):
                continue
            parts = [p for rr, p in allowed if rr == r]
            if parts:
                term = new
                for p in parts:
                    term = self.upd(term, p, self.acc(old, p))
                self.obl('frame', f'only declared state of {r} changes', f'{paren(term)} == {old}')
            else:
                self.obl('frame', f'{r} is unchanged', f'{new} =~= {old}' if self.rtype[r][0] in ('str', 'vec', 'map') else f'{new} == {old}')
        self.st = saved

    def is_byval(self, r):
        for p in self.decl.params:
            ts = p['type'].get('desugaredQualType') or p['type']['qualType']
            if (p.get('name') or '') + '_p' == r and not ts.strip().endswith('&'):
                return True
        return False
