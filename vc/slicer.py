"""Splits the verification condition of one function into queries. A query contains the assumptions that can matter where its obligations
are: an assumption made on a path that the obligation is not on is left out, and so are definitions nobody uses. (Leaving out an assumption
never makes an obligation provable that is not.)"""
import re

IDENT = re.compile(r'[A-Za-z_]\w*')
LET = re.compile(r'let (\w+): (.*?) = (.*);$', re.S)
GUARD = re.compile(r'(?:assume|assert)\((\w+) ==> \(')
FOR = re.compile(r'/\*@(.*?)@\*/')
IFG = re.compile(r'if (\w+) \{ ')


class Slicer:
    def __init__(self, ex):
        self.ex = ex
        self.lines = []          # (kind, text, guard, idents, obl)
        self.defs = {}
        names = set(n for n, _ in ex.params)
        for ln in ex.lines:
            if not isinstance(ln, tuple):
                m = LET.match(ln)
                if m:
                    names.add(m.group(1))
        self.names = names
        self.params = set(n for n, _ in ex.params)
        for i, ln in enumerate(ex.lines):
            if isinstance(ln, tuple):
                g = GUARD.match(ln[2])
                self.lines.append(('obl', ln[2].replace('\n', ' '), g.group(1) if g and g.group(1) in names else None, self.ids(ln[2]), ln[1]))
                continue
            t = ln.replace('\n', ' ')
            m = LET.match(t)
            if m:
                self.defs[m.group(1)] = i
                self.lines.append(('let', t, m.group(1), self.ids(m.group(3)), None))
                continue
            g = GUARD.match(t) if t.startswith('assume(') else IFG.match(t)
            k = 'assume' if t.startswith('assume(') else ('use' if t.startswith('broadcast use') else 'hint')
            self.lines.append((k, t, g.group(1) if g and g.group(1) in names else None, self.ids(t), None))
        self.clo = {}

    def ids(self, t):
        return {x for x in IDENT.findall(t) if x in self.names}

    def closure(self, pc):
        if pc in self.clo:
            return self.clo[pc]
        out, todo = set(), [pc, 'true']
        joins = self.ex.joins
        while todo:
            p = todo.pop()
            if p in out:
                continue
            out.add(p)
            todo += joins.get(p, ())
            i = self.defs.get(p)
            if i is not None and re.match(r'let (pc|thr|c|ok|b)_', self.lines[i][1]):
                todo += [x for x in self.lines[i][3] if re.match(r'(pc|thr|c|ok|b)_', x)]
        self.clo[pc] = out
        return out

    def groups(self, each=False, limit=12):
        """obligations that are proved together"""
        gs, last = [], None
        for i, l in enumerate(self.lines):
            if l[0] != 'obl':
                continue
            o = self.ex.obls[l[4]]
            alone = each or o.kind == 'inv-preserved' and o.props is not None
            if alone or last is None or last[0] != l[2] or len(last[1]) >= limit:
                last = (None if alone else l[2], [])
                gs.append(last)
            last[1].append(i)
        return [g[1] for g in gs]

    def query(self, idx):
        """lines of one query: (source index, text, 'obl'|'hint'|None)"""
        clo = self.closure(self.lines[idx[0]][2] or 'true')
        mine = set(idx)
        names = [self.ex.obls[self.lines[i][4]].name for i in idx]
        keep = []
        first, hide = 0, []
        for a, b, hs in self.ex.spans:
            if all(a <= i < b for i in idx):
                first = max(first, a)
                hide += [h for h in hs if h not in hide]
        for i in range(idx[-1] + 1):
            k, t, g, ids, o = self.lines[i]
            if i < first and k != 'let' and not (k == 'assume' and i < self.ex.pre_lines) and not (g is None and len(ids) == 1 and k == 'assume'):
                continue
            if i in mine:
                keep.append((i, t, 'obl'))
            elif k == 'let':
                keep.append((i, t, 'let'))
            elif g is None or g in clo:
                if k == 'obl':
                    keep.append((i, f'assume({self.ex.obls[o].text});'.replace('\n', ' '), None))
                elif k == 'hint' and '/*@' in t and not any(w in n for w in FOR.findall(t) for n in names):
                    pass         # help for another obligation
                else:
                    keep.append((i, t, 'hint' if k == 'hint' else None))
        out, need = self.cone(keep, set())
        out = [(-1, f'hide({h});', None) for h in hide if any(re.search(r'\b' + h + r'\(', t) for _, t, _ in out)] + out
        return out, [(n, t) for n, t in self.ex.params if n in need]

    def cone(self, keep, need):
        """without the definitions and the ranges of what nobody uses, and without repetitions"""
        last, dup = set(), set()
        for i, t, k in keep:
            if k is None and (t in last):
                dup.add(i)
            last.add(t)
        out, ranges = [], []
        for i, t, k in reversed(keep):
            if k == 'let':
                if self.lines[i][2] in need:
                    need |= self.lines[i][3]
                    out.append((i, t, None))
            elif i in dup:
                pass
            elif k is None and self.lines[i][0] == 'assume' and self.lines[i][2] is None and len(self.lines[i][3]) == 1 and self.lines[i][3] <= self.params:
                ranges.append((i, t, None))
            else:
                need |= self.lines[i][3]
                out.append((i, t, k))
        out += [x for x in ranges if self.lines[x[0]][3] <= need]
        out.sort(key=lambda x: x[0])
        return out, need

    def reach(self, pcs):
        """the lines of the question whether one of the path conditions can hold at all"""
        clo = set()
        for p in pcs:
            clo |= self.closure(p)
        keep = []
        for i, (k, t, g, ids, o) in enumerate(self.lines):
            if k == 'let':
                keep.append((i, t, 'let'))
            elif k in ('assume', 'use') and (g is None or g in clo):
                keep.append((i, t, None))
            elif k == 'obl' and (g is None or g in clo):
                keep.append((i, f'assume({self.ex.obls[o].text});'.replace('\n', ' '), None))
        out, need = self.cone(keep, set(p for p in pcs if p in self.names))
        return [t for i, t, k in out], [(n, t) for n, t in self.ex.params if n in need]
