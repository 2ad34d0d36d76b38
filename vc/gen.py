#!/usr/bin/env python3
"""Generate the Verus file of a set of functions (development tool and library of check.py)."""
import importlib, json, os, re, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from cast import Repo, Unsupported, ExtractionError
from engine import Exec, Types
from contract import Contracts, symbols, blit
from lib import Lib

MODULES = ['config', 'util', 'sock', 'wire', 'pipe', 'client', 'server', 'main']


def load_contracts():
    out = []
    for m in MODULES:
        out += importlib.import_module('contracts.' + m).CONTRACTS
    return out


def spec_text():
    order = ['base.rs'] + sorted(f for f in os.listdir(os.path.join(HERE, 'spec')) if f.endswith('.rs') and f != 'base.rs')
    return blit('\n'.join(open(os.path.join(HERE, 'spec', f)).read() for f in order))


class Session:
    def __init__(self):
        self.repo = Repo()
        self.types = Types(self.repo)
        for q in self.repo.structs:
            try:
                self.types.struct(q)
            except Unsupported:
                pass
        self.clist = load_contracts()
        self.contracts = Contracts(self.repo, self.clist)
        self.types.libstruct('pollfd')
        self.lib = Lib(self.repo)

    def vcname(self, c):
        parts = c.key.split('::')
        n = parts[-1]
        if any(o.key != c.key and o.key.split('::')[-1] == n for o in self.clist) and len(parts) > 1:
            n = '::'.join(parts[-2:])
        return n + (f'_{c.nparams}' if c.nparams else '') + (f'<{c.match_type}>' if c.match_type else '')

    def vc(self, c):
        ex = Exec(self.repo, self.types, self.contracts, self.lib, self.vcname(c), c.decl, c)
        ex.run()
        return ex


if __name__ == '__main__':
    import batch
    t0 = time.time()
    s = Session()
    want = [a for a in sys.argv[1:] if a not in ('-s', '-g')]
    fns = []

    class F:
        todo = None
    for c in s.clist:
        if want and not any(w == c.short or w == c.short + f'/{c.nparams}' for w in want):
            continue
        if c.trusted or c.decl is None:
            print('skip', c.key, 'missing' if c.decl is None else 'trusted')
            continue
        try:
            f = F()
            f.ex = s.vc(c)
            fns.append(f)
        except Unsupported as e:
            traceback.print_exc(limit=-6)
            print('UNSUPPORTED', c.key, e)
    for f in fns:
        for h in f.ex.unsupported_hints:
            print('HINT', f.ex.name, h)
    t1 = time.time()
    us = batch.units(fns, split=fns if '-s' in sys.argv or os.environ.get('EACH') == '1' else (), only=os.environ.get('ONLY'))
    os.makedirs('/tmp/w_vc', exist_ok=True)
    for x in os.listdir('/tmp/w_vc'):
        os.unlink('/tmp/w_vc/' + x)
    r, where, heads = batch.run(s, fns, us, '/tmp/w_vc/vc.rs', 60, 800, lib=True)
    texts = {}
    for ln, msg in r.failed + [(l, 'RESOURCE LIMIT') for l in sorted(r.undecided)]:
        k, i = divmod(ln, batch.STEP)
        if k not in texts:
            texts[k] = open(f'/tmp/w_vc/vc{k}.rs').read().split('\n')
        w = where.get(ln)
        if w and w[1] == 'obl':
            o = w[0].ex.obls[w[2]]
            print(f'{msg[:120]} | {o.name} (src line {o.src}) file {k} line {i}\n     {o.text[:int(os.environ.get("W", 300))]}')
        elif ln in r.undecided:
            h = [l for l in heads if l <= ln and l // batch.STEP == k]
            print(f'{msg} file {k} line {i}', [heads[h2][0].ex.obls[x].name for h2 in [max(h)] for x in (heads[h2][1] or ())] if h else '')
        else:
            nx = next((w2[0].ex.obls[w2[2]].name for l2, w2 in sorted(where.items()) if l2 > ln and w2[1] == 'obl'), '')
            print(f'{msg[:120]} | file {k} line {i}: {texts[k][i - 1][:260]}   next: {nx}')
    if r.fatal:
        print('FATAL', r.fatal[-300:])
        print('\n'.join(l for l in re.split(r'\n(?=error|warning|note)', r.fatal) if l.startswith('error'))[:3000])
    print(f'{r.verified} verified, {len(r.failed)} failed, {len(r.undecided)} undecided{" TIMEOUT" if r.timeout else ""}; vc {t1 - t0:.1f} s, verus {time.time() - t1:.1f} s, smt {r.smt_ms} ms, lines {sum(len(u.lines) for u in us)}')
