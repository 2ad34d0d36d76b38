"""The Verus text of a set of functions, as independent units that are distributed over files and verified in parallel.
The specification library (spec/*.rs with its lemmas) is verified once, in a file of its own; the other files only use it (--verify-root)."""
import concurrent.futures, os, re
import verus
from gen import spec_text
from slicer import Slicer

JOBS = 8
STEP = 10_000_000        # file number * STEP + line: a position
BIG = 60                 # obligations from which on a function is verified in slices


class Unit:
    def __init__(self, f, what=None):
        self.f, self.what = f, what      # what: the obligations of the unit (None: all of the function)
        self.lines, self.at = [], {}     # at: line of the unit -> meaning


def hintline(ln):
    return not (ln.startswith('let ') or ln.startswith('assume(') or ln.startswith('broadcast use'))


def canary_points(e):
    pts = [('return', [pc for w, pc in e.canaries if w == 'return']), ('exec', e.canaries_exec)]
    return [(w, ps) for w, ps in pts if ps]


def units(fns, split=(), canary=False, only=None):
    out = []
    for f in fns:
        e = f.ex
        fn = 'vc_' + re.sub(r'\W', '_', e.name)
        params = ', '.join(f'{n}: {t}' for n, t in e.params)
        big = len(e.obls) > BIG
        if canary:
            for ci, (what, pcs) in enumerate(canary_points(e)):
                pc = ' || '.join(f'({p})' for p in pcs)
                u = Unit(f)
                u.at[0] = None
                sl = Slicer(e)
                ls, ps = sl.reach(pcs)
                u.lines.append(f'pub proof fn {fn}__reach{ci}(' + ', '.join(f'{n}: {t}' for n, t in ps) + ') {')
                u.lines += ls
                u.at[len(u.lines)] = (f, 'canary', ci)
                u.lines += [f'assert(!({pc}));', '}']
                out.append(u)
            continue
        if f in split or big:
            sl = Slicer(e)
            each = f in split
            gs = sl.groups(each=each, limit=6)
            if each and f.todo is not None:
                gs = [g for g in gs if sl.lines[g[0]][4] in f.todo]
            if only:
                gs = [g for g in gs if any(re.search(only, e.obls[sl.lines[i][4]].name) for i in g)]
            for gi, g in enumerate(gs):
                ls, ps = sl.query(g)
                u = Unit(f, tuple(sl.lines[i][4] for i in g))
                u.lines.append(('#[verifier::spinoff_prover] ' if big else '') + f'pub proof fn {fn}__{gi}(' + ', '.join(f'{n}: {t}' for n, t in ps) + ') {')
                for i, t, k in ls:
                    if k == 'obl':
                        u.at[len(u.lines)] = (f, 'obl', sl.lines[i][4])
                    elif k == 'hint':
                        u.at[len(u.lines)] = (f, 'hint', i)
                    u.lines.append(t)
                u.lines.append('}')
                out.append(u)
            continue
        u = Unit(f)
        u.lines.append(f'pub proof fn {fn}({params}) {{')
        for li, ln in enumerate(e.lines):
            if isinstance(ln, tuple):
                u.at[len(u.lines)] = (f, 'obl', ln[1])
                u.lines.append(ln[2].replace('\n', ' '))
            else:
                if hintline(ln):
                    u.at[len(u.lines)] = (f, 'hint', li)
                u.lines.append(ln.replace('\n', ' '))
        u.lines.append('}')
        out.append(u)
    return out


def header(s, fns):
    out = ['use vstd::prelude::*;', 'verus! {', 'pub mod spec {', 'use vstd::prelude::*;']
    out += spec_text().split('\n')
    out += s.types.decls().split('\n')
    consts = {}
    for f in fns:
        if f.ex is not None:
            consts.update(f.ex.consts)
    out += list(consts.values())
    out += ['}', 'use spec::*;']
    return out


def run(s, fns, us, path, rlimit, timeout, lib=False, multi=200):
    """-> Result (positions: file * STEP + line), where, heads"""
    head = header(s, fns)
    tail = ['fn main() {}', '}']
    n = max(1, min(JOBS, sum(len(u.lines) for u in us) // 400 + 1, len(us)))
    files = [[] for _ in range(n)]
    size = [0] * n
    for u in sorted(us, key=lambda u: -len(u.lines)):
        i = size.index(min(size))
        files[i].append(u)
        size[i] += len(u.lines) + 20
    where, heads, jobs = {}, {}, []
    if lib:
        jobs.append((0, head + tail, False))
    for k, uu in enumerate(files, 1):
        if not uu:
            continue
        text = list(head)
        for u in uu:
            base = k * STEP + len(text) + 1
            heads[base] = (u.f, u.what)
            for i, w in u.at.items():
                if w is not None:
                    where[base + i] = w
            text += u.lines
        jobs.append((k, text + tail, True))
    threads = max(1, JOBS // len(jobs))
    tot = verus.Result()
    tot.ok = True
    tot.smt_ms = 0

    def one(job):
        k, text, root = job
        return k, verus.run('\n'.join(text) + '\n', path.replace('.rs', f'{k}.rs'), rlimit, timeout, multi, root=root, threads=threads)
    with concurrent.futures.ThreadPoolExecutor(max_workers=JOBS + 1) as ex:
        for k, r in ex.map(one, jobs):
            tot.ok = tot.ok and r.ok
            tot.failed += [(k * STEP + ln, msg) for ln, msg in r.failed]
            tot.undecided |= {k * STEP + ln for ln in r.undecided}
            tot.verified += r.verified
            if not r.ok:
                tot.text += r.text
            tot.time = max(tot.time, r.time)
            tot.timeout = tot.timeout or r.timeout
            if r.timeout:
                tot.late |= {f for h, (f, _) in heads.items() if h // STEP == k}
            tot.fatal = tot.fatal or r.fatal
            tot.smt_ms += r.smt_ms or 0
    return tot, where, heads
