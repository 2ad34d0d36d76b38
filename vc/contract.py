"""Contracts: machine-checked specifications attached to the functions of /repo."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))


class Loop:
    def __init__(self, inv=(), decr=(), entry=(), head=(), end=(), exit=(), local=False, hide=()):
        self.local, self.hide = local, list(hide)      # local: an iteration is proved from the invariants alone; hide: definitions that do not matter
        self.inv, self.decr = list(inv), list(decr)
        self.entry_hints, self.head_hints, self.end_hints, self.exit_hints = list(entry), list(head), list(end), list(exit)


def blit(text):
    """b"..." -> seq![..u8]"""
    def f(m):
        raw = m.group(1).encode().decode('unicode_escape').encode('latin1')
        return 'seq![' + ', '.join(f'{c}u8' for c in raw) + ']' if raw else 'Seq::<u8>::empty()'
    return re.sub(r'\bb"((?:[^"\\]|\\.)*)"', f, text)


class Contract:
    def __init__(self, key, props='', params='', requires=(), ensures=(), throws='never', loops=None, modifies='', pure=None, inline=False,
                 noreturn=False, exc_ensures=(), exit_ensures=(), abort_ensures=(), may_exit=False, may_abort=False, may_exec=False, exec_ensures=(), ptr=None, throws_props=None,
                 call_hints=(), after_hints=(), entry_hints=(), exit_hints=(), exc_hints=(), trusted=None, lemmas=(), nparams=None, opts=None, match=None):
        self.key = key
        self.nparams = nparams
        self.match_type = match
        self.short = key.split('::')[-1]
        self.props = props.split()
        self.params = params.split()
        lab = lambda xs, d: [(x if isinstance(x, tuple) else (f'{d}{i}', x)) for i, x in enumerate(xs)]
        wrap = lambda f: '({ ' + f + ' })' if f.startswith('let ') else f
        bl = lambda xs: [tuple([x[0], wrap(blit(x[1]))] + list(x[2:])) for x in xs]
        self.requires = bl(lab(requires, 'pre'))
        self.ensures = bl(lab(ensures, 'post'))
        self.exc_ensures = bl(lab(exc_ensures, 'exc'))
        self.exit_ensures = bl(lab(exit_ensures, 'exit'))
        self.abort_ensures = bl(lab(abort_ensures, 'abort'))
        self.exec_ensures = bl(lab(exec_ensures, 'exec'))
        self.may_exec = may_exec
        self.throws = blit(throws)
        self.throws_props = throws_props
        self.loops = loops or {}
        for l in self.loops.values():
            for a in ('inv', 'decr', 'entry_hints', 'head_hints', 'end_hints', 'exit_hints'):
                setattr(l, a, [blit(x) if isinstance(x, str) else (x[0], blit(x[1]), x[2]) for x in getattr(l, a)])
        self.modifies = modifies.split()
        self.pure = blit(pure) if pure else None
        self.inline = inline
        self.noreturn = noreturn
        self.may_exit, self.may_abort = may_exit, may_abort
        self.ptr = ptr or {}
        self.call_hints = [blit(x) for x in call_hints]
        self.after_hints = [blit(x) for x in after_hints]
        self.entry_hints = [blit(x) for x in entry_hints]
        self.exit_hints = [blit(x) for x in exit_hints]
        self.exc_hints = [blit(x) for x in exc_hints]
        self.trusted = trusted
        self.lemmas = lemmas
        self.drop = set()
        self.opts = opts or {}
        if 'calls' in self.opts:
            self.opts['calls'] = {k: bl(v) for k, v in self.opts['calls'].items()}

    def loop(self, i):
        return self.loops.get(i)


class Contracts:
    def __init__(self, repo, clist, baseline=None):
        self.repo = repo
        self.list = clist
        self.bykey = {}
        for c in clist:
            self.bykey.setdefault(c.key, []).append(c)
        self.baseline = baseline if baseline is not None else self.load_baseline()
        self.by_decl = {}
        self.missing = []
        self.notes = []
        self.match()

    def load_baseline(self):
        p = os.path.join(HERE, 'baseline.json')
        return json.load(open(p)) if os.path.exists(p) else {}

    def cid(self, c):
        return c.key + (f'/{c.nparams}' if c.nparams is not None else '') + (f'<{c.match_type}>' if c.match_type else '')

    def match(self):
        taken = set()
        for c in self.list:
            ds = [d for d in self.repo.by_q.get(c.key, []) if (c.nparams is None or len(d.params) == c.nparams) and (not c.match_type or c.match_type in d.ctype)]
            if len(ds) > 1:
                want = self.baseline.get(self.cid(c), {}).get('ctype')
                ds = [d for d in ds if d.ctype == want] or ds
            if ds:
                c.decl = ds[0]
                taken.add(ds[0].mangled)
            else:
                c.decl = None
        missing = [c for c in self.list if c.decl is None]
        for c in missing:
            b = self.baseline.get(self.cid(c))
            if not b:
                continue
            cand = [d for ds in self.repo.by_q.values() for d in ds if d.mangled not in taken and d.ctype == b['ctype'] and d.cls == b['cls'] and (d.qname not in self.all_baseline())]
            if len(cand) == 1:
                c.decl = cand[0]
                taken.add(cand[0].mangled)
                self.notes.append(f'{c.key} is now {cand[0].qname}')
        for c in self.list:
            if c.decl is not None:
                self.by_decl[c.decl.mangled] = c
        self.missing = [c for c in self.list if c.decl is None]

    def all_baseline(self):
        return {k for b in self.baseline.get('*functions', []) for k in [b]}

    def lookup(self, d):
        return self.by_decl.get(d.mangled)

    def namemap(self, c, d):
        b = self.baseline.get(self.cid(c))
        if not b:
            return {}
        cur = symbols(d)['locals']
        old = [tuple(x) for x in b['locals']]
        cn, on = {n for n, _ in cur}, {n for n, _ in old}
        restc = [x for x in cur if x[0] not in on]
        m = {}
        for n, t in old:
            if n in cn:
                continue
            for i, (n2, t2) in enumerate(restc):
                if t2 == t:
                    m[n] = n2
                    del restc[i]
                    break
        return m


def symbols(d):
    loc = []

    def go(n):
        if not isinstance(n, dict):
            return
        if n.get('kind') == 'VarDecl' and n.get('name'):
            loc.append((n['name'], (n['type'].get('desugaredQualType') or n['type']['qualType']).replace('const ', '')))
        for x in n.get('inner', []) or []:
            go(x)
    go(d.body)
    for i in d.inits:
        go(i)
    return {'ctype': d.ctype, 'cls': d.cls, 'params': [p.get('name') for p in d.params], 'locals': loc}
