"""Front end: loads the typed AST of the real sources (clang -ast-dump=json of /repo/src/k8psh.cxx, which #includes every
source file of the program) and indexes the declarations that come from /repo/src."""
import json, os, re, subprocess

SRC = os.environ.get('K8PSH_SRC', '/repo/src')


class ExtractionError(Exception):
    pass


class Unsupported(Exception):
    """The symbolic executor met a construct it has no rule for."""


def _dump(flags):
    cmd = ['clang++', '-std=c++11', '-I' + SRC, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', *flags, SRC + '/k8psh.cxx']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractionError('clang failed: ' + p.stderr.decode(errors='replace')[:2000])
    return p.stdout


def load_chunks(flags=('-DDEBUG',)):
    b = _dump(flags)
    filere = re.compile(rb'"file": "([^"]*)"')
    src = SRC.encode()
    out = []
    i = b.find(b'\n  "inner": [')
    cur = b''
    while True:
        s = b.find(b'\n    {', i)
        if s < 0:
            break
        e = b.find(b'\n    }', s)
        chunk = b[s + 1:e + 6]
        i = e + 5
        k = chunk.find(b'"range"')
        head = chunk[:k] if k >= 0 else chunk[:500]
        m = filere.search(head)
        f = m.group(1) if m else cur
        k = chunk.rfind(b'"file": "')
        # "includedFrom": {"file": ..} also matches; only a loc's own file changes the current one
        best = None
        for m in re.finditer(rb'"file": "([^"]*)"', chunk):
            pre = chunk[max(0, m.start() - 40):m.start()]
            if b'includedFrom' in pre:
                continue
            best = m.group(1)
        start = cur if not filere.search(head) else f
        if best:
            cur = best
        if f and f.startswith(src):
            out.append((f.decode(), json.loads(chunk)))
    return out


class Decl:
    __slots__ = ('id', 'name', 'qname', 'node', 'kind', 'params', 'body', 'ret', 'cls', 'static', 'inits', 'file', 'line', 'ctype', 'mangled', 'noexcept')


class Repo:
    def __init__(self, flags=('-DDEBUG',)):
        self.node = {}      # decl id -> node
        self.fn = {}        # decl id -> Decl (function)
        self.by_q = {}      # qualified name -> [Decl with body]
        self.structs = {}   # qualified name -> [(field, type string)]
        self.field = {}     # field id -> (struct, name, type)
        self.enumc = {}     # id -> int
        self.enums = set()
        self.typedefs = {}
        self.globals = {}   # id -> node (VarDecl at namespace/class scope)
        self.dtor = {}      # struct qname -> Decl
        self.defaults = {}  # parm id -> node
        self.labels = {}
        mang = {}
        chunks = load_chunks(flags)
        self._lines(chunks)
        for f, d in chunks:
            self._walk(d, '', None, f, mang)
        # merge out-of-line definitions with the names of their in-class declarations
        for did, d in list(self.fn.items()):
            if d.body is None and d.mangled in mang:
                df = mang[d.mangled]
                if not df.static:
                    df.static = d.static
        self.mang = mang
        for d in mang.values():
            self.by_q.setdefault(d.qname, []).append(d)
        self.files = sorted({f for f, _ in chunks})

    def _lines(self, chunks):
        st = {'line': 0}

        def fix(loc):
            if not isinstance(loc, dict):
                return
            for k in ('spellingLoc', 'expansionLoc'):
                if k in loc:
                    fix(loc[k])
            if 'expansionLoc' in loc:
                loc['line'] = loc['expansionLoc'].get('line')
                return
            if 'offset' in loc:
                if 'line' in loc:
                    st['line'] = loc['line']
                else:
                    loc['line'] = st['line']

        def go(n):
            for k, v in list(n.items()):
                if k == 'loc':
                    fix(v)
                elif k == 'range':
                    fix(v.get('begin'))
                    fix(v.get('end'))
                    if 'line' in v.get('begin', {}):
                        n['_line'] = v['begin']['line']
                elif k in ('inner', 'array_filler'):
                    for c in v:
                        if isinstance(c, dict):
                            go(c)
                elif k in ('decl',) and isinstance(v, dict):
                    pass
        for f, d in chunks:
            go(d)

    def _walk(self, n, ctx, cls, f, mang):
        k = n.get('kind')
        i = n.get('id')
        if i:
            self.node[i] = n
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            nctx = ctx + n['name'] + '::' if k == 'NamespaceDecl' and n.get('name') else ctx
            for c in n.get('inner', []):
                self._walk(c, nctx, None, f, mang)
            return
        if k == 'CXXRecordDecl' and n.get('name') and n.get('completeDefinition'):
            q = ctx + n['name']
            flds = []
            base = None
            for bs in n.get('bases', []):
                base = bs['type'].get('desugaredQualType') or bs['type']['qualType']
            for c in n.get('inner', []):
                if c.get('kind') == 'FieldDecl' and c.get('name'):
                    ty = c['type'].get('desugaredQualType') or c['type']['qualType']
                    flds.append((c['name'], ty))
                    self.field[c['id']] = (q, c['name'], ty)
            self.structs[q] = flds
            n['_base'] = base
            for c in n.get('inner', []):
                self._walk(c, q + '::', q, f, mang)
            return
        if k in ('TypedefDecl', 'TypeAliasDecl') and n.get('name'):
            self.typedefs[ctx + n['name']] = n['type'].get('desugaredQualType') or n['type']['qualType']
            return
        if k == 'EnumDecl':
            v = -1
            if n.get('name'):
                self.enums.add(ctx + n['name'])
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v += 1
                    for e in c.get('inner', []):
                        x = self._const(e)
                        if x is not None:
                            v = x
                    self.enumc[c['id']] = v
                    self.node[c['id']] = c
            return
        if k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and c.get('mangledName'):
                    self._walk(c, ctx, cls, f, mang)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            d = Decl()
            d.id, d.name, d.kind, d.node, d.file = i, n.get('name'), k, n, f
            d.mangled = n.get('mangledName')
            d.line = (n.get('loc') or {}).get('line')
            d.params = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            d.body = next((c for c in n.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
            d.inits = [c for c in n.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
            d.ctype = n['type']['qualType']
            d.static = n.get('storageClass') == 'static'
            d.cls = cls
            d.qname = ctx + (n.get('name') or '')
            pd = n.get('parentDeclContextId')
            if n.get('previousDecl') and n['previousDecl'] in self.fn:
                p = self.fn[n['previousDecl']]
                d.qname, d.cls = p.qname, p.cls
                if k != 'FunctionDecl':
                    d.static = p.static
                for a, b in zip(d.params, p.params):
                    if b['id'] in self.defaults:
                        self.defaults[a['id']] = self.defaults[b['id']]
            d.noexcept = 'noexcept' in d.ctype
            for c in d.params:
                self.node[c['id']] = c
                if c.get('inner') and c.get('init'):
                    self.defaults[c['id']] = c['inner'][0]
            self.fn[i] = d
            if d.body is not None and d.mangled:
                mang[d.mangled] = d
            if k == 'CXXDestructorDecl' and d.body is not None:
                self.dtor[d.cls] = d
            return
        if k == 'VarDecl':
            self.globals[i] = n
            n['_ctx'] = ctx
            return

    def _const(self, e):
        k = e.get('kind')
        if k in ('ConstantExpr', 'IntegerLiteral') and 'value' in e:
            try:
                return int(e['value'])
            except ValueError:
                return None
        for c in e.get('inner', []):
            x = self._const(c)
            if x is not None:
                return x
        return None

    def definition(self, did):
        d = self.fn.get(did)
        if d is None:
            return None
        if d.mangled and d.mangled in self.mang:
            return self.mang[d.mangled]
        return d


if __name__ == '__main__':
    import time
    t = time.time()
    r = Repo()
    print(time.time() - t, len(r.fn))
    for q, ds in sorted(r.by_q.items()):
        for d in ds:
            print(q, d.kind, len(d.params), d.file.split('/')[-1], d.line, d.ctype, 'static' if d.static else '')
    print(r.structs)
    print(r.enums)
