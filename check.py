#!/usr/bin/env python3
"""check.py ID: decide property ID for /repo's current source. Exit 0: held; 1: VIOLATION line printed."""
import importlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
import verus, harness
from gen import Session
import batch
from batch import units, canary_points
from cast import Unsupported, ExtractionError
from props import PROPS, TRUSTED

T0 = time.time()
BUDGET = 780


def left():
    return BUDGET - (time.time() - T0)


class Fn:
    """One function under contract: its VC and what became of it."""
    def __init__(self, c):
        self.c = c
        self.name = c.short if c.nparams is None else f'{c.short}_{c.nparams}'
        self.ex = None
        self.unsupported = None
        self.dropped = []       # loop invariants / hints not used
        self.first_failures = []
        self.failed = []        # obligations not discharged
        self.output = ''
        self.ranout = False     # what is open was not judged by the solver: the time was over
        self.todo = None         # the obligations to look at one by one (None: all)


def generate(s, f):
    try:
        f.ex = s.vc(f.c)
        f.unsupported = None
    except Unsupported as e:
        f.ex, f.unsupported = None, str(e)
    except RecursionError as e:
        f.ex, f.unsupported = None, 'too deep'
    except Exception as e:      # an internal error of the executor is "out of reach", never a verdict
        f.ex, f.unsupported = None, 'internal: ' + ''.join(traceback.format_exception_only(e)).strip()
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    work = tempfile.mkdtemp(prefix=f'k8psh_{pid}_')
    try:
        rc = decide(pid, P, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def decide(pid, P, tier, seed, work):
    rl = 40 if tier == 'quick' else 200
    path = os.path.join(work, 'vc.rs')
    ev = {'property': pid, 'tier': tier, 'seed': seed}
    stats = {'smt': 0, 'runs': 0, 'text': ''}
    problems = []           # reasons why something is not proved (out of reach)
    fns = []
    try:
        s = Session()
    except ExtractionError as e:
        s = None
        problems.append(f'the source could not be loaded: {e}')
    except Exception as e:
        s = None
        problems.append('internal error while loading the source: ' + repr(e))
    if s is not None:
        extra = P.get('extra', '').replace('<const std::', '<const_std::').replace('<char **', '<char_**').split()
        for c in s.clist:
            helper = any(('::' + s.contracts.cid(c).replace(' ', '_')).endswith('::' + x) for x in extra)
            if pid not in c.props and not helper or c.trusted:
                continue
            if c.decl is None:
                if c.opts.get('internal') or not s.contracts.baseline or s.contracts.baseline.get(s.contracts.cid(c), {}).get('internal'):
                    problems.append(f'note: {c.key} no longer exists; its text is verified where it is used')
                else:
                    problems.append(f'unreachable: {c.key} not found')
                continue
            f = Fn(c)
            f.helper = helper       # the property relies on everything its contract says
            generate(s, f)
            fns.append(f)
            if f.unsupported:
                problems.append(f'unreachable: {c.key}: {f.unsupported}')
    good = [f for f in fns if f.ex is not None]
    total = sum(len(f.ex.obls) for f in good)
    lemma_ok = True
    if good:
        r, where, heads = batch.run(s, good, units(good), path, rl, max(60, min(400, left() - 300)), lib=True)
        stats['runs'] += 1
        stats['smt'] += r.smt_ms or 0
        if r.fatal or (r.timeout and False):
            # a VC that Verus does not accept as well-formed text: find the culprits one by one
            bad = isolate(s, good, path)
            for f, msg in bad:
                problems.append(f'unreachable: {f.c.key}: obligations not accepted: {msg[:300]}')
                f.unsupported, f.ex = msg[:300], None
            good = [f for f in good if f.ex is not None]
            r, where, heads = batch.run(s, good, units(good), path, rl, max(60, min(400, left() - 300)), lib=True)
            stats['smt'] += r.smt_ms or 0
        if not r.ok:
            refine(s, good, r, where, heads, path, pid, rl, stats)
    undone = []
    for f in good:
        if f.failed and f.ranout:
            problems.append(f'unreachable: {f.c.key}: the time was over before the solver had judged all of its obligations, among them: ' + '; '.join(o.name for o in f.failed)[:600])
            continue
        if f.failed and rewritten(s, f):
            problems.append(f'unreachable: {f.c.key}: its loops were rewritten ({"; ".join(rewritten(s, f))[:300]}); without annotations that fit, these obligations are open: ' + '; '.join(o.name for o in f.failed)[:600])
            continue
        for o in f.failed:
            if o.props is None or f.helper or pid in str(o.props).split():
                undone.append((f, o))
    # vacuity: the assumptions of each function must not be contradictory
    vac = vacuity(s, good, path, pid) if good and not undone else []
    for f in vac:
        problems.append(f'unreachable: {f.c.key}: no execution satisfies the assumptions (vacuous)')
    unreach = [p for p in problems if p.startswith('unreachable')] + ([p for p in problems if not p.startswith('note')] if s is None else [])
    # the bounded stand-in / replay
    need = bool(undone) or bool(unreach) or P.get('always') or tier == 'thorough'
    h = None
    if need and P.get('harness'):
        h = harness.run(P['harness'], pid, seed, work, budget=min(left() - 10, 90 if not undone and tier == 'quick' else (150 if tier == 'quick' else 400)), focus=[f.c.key for f, _ in undone])
    viol = 0
    lines = []
    ks = [k for k in known() if k[0] == pid]
    for k in ks:
        lines.append(f'KNOWN-FINDING: property={pid} {k[1]} {k[2]}')
    hfail = h.failure if h else None
    if hfail and any(re.search(k[1], hfail['id']) for k in ks):
        hfail = None
    if hfail:
        viol = 1
        rp = replay_file(pid, undone, hfail, problems)
        lines.append(f'VIOLATION property={pid} replay={rp}')
    elif undone:
        viol = 1
        rp = replay_file(pid, undone, None, problems)
        lines.append(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
    ndis = total - sum(len(f.failed) for f in good)
    ev['level'] = P.get('level', 'proof') if not unreach else 'other'
    cov = {
        'obligations': total, 'discharged': ndis,
        'checker_cmd': f'python3 check.py {pid}  (verus --rlimit {rl} on the obligations generated from /repo/src)',
        'back_end': 'Verus 0.2026.09.13 / Z3', 'solver_ms': stats['smt'],
        'functions_under_contract': [{'function': f.c.key, 'obligations': len(f.ex.obls) if f.ex else 0, 'undischarged': [o.name for o in f.failed],
                                      'unused_annotations': f.dropped, 'inlined': sorted(f.ex.inlined) if f.ex else [], 'callee_contracts_used': sorted(f.ex.called) if f.ex else [],
                                      'out_of_reach': f.unsupported} for f in fns],
        'obligation_kinds': kinds(good),
        'trusted_base': TRUSTED + P.get('trusted', []) + [f'{c.key}: {c.trusted}' for c in (s.clist if s else []) if c.trusted and any(f.ex and c.key in f.ex.called for f in fns)]
        + [f'assumed in {f.c.key}: {l}: {t}' for f in fns for l, t in f.c.opts.get('assume', ())]
        + [f'assumed when main starts: {q[1] if isinstance(q, tuple) else q}' for f in fns if f.c.key == 'main' for q in f.c.requires],
        'vacuity': {'functions_checked': len(good), 'vacuous': [f.c.key for f in vac]},
    }
    if unreach:
        cov['explanation'] = 'Part of the code is out of reach of the verifier; bounded check instead: ' + '; '.join(unreach)
    if h:
        cov['bounded'] = {'what': h.what, 'evaluations': h.evaluations, 'distinct_nontrivial': h.distinct, 'samples': h.samples, 'note': h.note, 'label': 'bounded, not counted as proved'}
        cov.update({'evaluations': h.evaluations, 'distinct_nontrivial': h.distinct, 'rule': h.what, 'samples': h.samples})
    ev['coverage'] = cov
    ev['assumptions'] = P.get('assumptions', []) + [p for p in problems]
    ev['wall_s'] = round(time.time() - T0, 1)
    ev['violations'] = viol
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for p in problems:
        print(p)
    for f, o in undone:
        print(f'not discharged: {o.name} (line {o.src})')
    if h:
        print(f'bounded run: {h.evaluations} cases, {h.note}')
    print(f'{pid}: {ndis}/{total} obligations of {len(good)} functions discharged in {ev["wall_s"]} s')
    for l in lines:
        print(l)
    return 1 if viol else 0


def rewritten(s, f):
    """Why the loop annotations of the contract cannot be expected to fit this text (then a bounded check stands in)."""
    why = sorted(f.ex.detached)
    if any(d.startswith('loop ') for d in f.dropped):
        why += [f'{a} is gone' for a in sorted(f.ex.namemap or {})]
    return why


def kinds(good):
    k = {}
    for f in good:
        for o in f.ex.obls:
            k[o.kind] = k.get(o.kind, 0) + 1
    return k


def isolate(s, good, path):
    bad = []
    for f in good:
        r, _, _ = batch.run(s, [f], units([f]), path, 1, 60)
        if r.fatal:
            m = re.search(r'^error.*|^internal error.*', r.fatal, re.M)
            bad.append((f, m.group(0) if m else r.fatal))
    return bad


def failures(r, where, heads):
    """-> {fn: (set of obl indices, set of hint lines, undecided set of obl indices or None)}"""
    res = {}
    for ln, msg in r.failed:
        w = where.get(ln)
        if w is None:
            # the statement inside a multi-part hint, or a lemma of the spec library
            hs = [l for l in heads if l <= ln]
            if not hs:
                res.setdefault(None, (set(), set(), set()))[0].add(msg + f' at line {ln}')
            continue
        e = res.setdefault(w[0], (set(), set(), set()))
        (e[0] if w[1] == 'obl' else e[1]).add(w[2])
    for ln in r.undecided:
        hs = [l for l in heads if l <= ln]
        if hs:
            f, k = heads[max(hs)]
            res.setdefault(f, (set(), set(), set()))[2].update([None] if k is None else k)
        else:
            res.setdefault(None, (set(), set(), set()))[0].add(f'resource limit at line {ln}')
    return res


def refine(s, good, r, where, heads, path, pid, rl, stats):
    """Find out which obligations are not discharged: one query per obligation, dropping failing hints and loop invariants."""
    fail = failures(r, where, heads)
    if None in fail:
        raise SystemExit('the specification library itself does not verify: ' + str(fail[None][0]) + '\n' + r.text[:3000])
    work = [f for f in good if f in fail or f in r.late]
    clean = {f for f in work if f not in fail or not any(fail[f])}
    gof = {}
    for f, ks in heads.values():
        for k in ks or ():
            gof.setdefault(f, {})[k] = ks
    for f in work:
        f.output = r.text
        if f in gof and f not in r.late and not fail[f][1]:
            # only the queries that failed
            f.todo = {k for b in fail[f][0] | fail[f][2] if b is not None for k in gof[f].get(b, (b,))}
    rounds = 0
    while work and left() > 200:
        rounds += 1
        r, where, heads = batch.run(s, work, units(work, split=work), path, rl, max(60, min(300, left() - 180)))
        stats['runs'] += 1
        stats['smt'] += r.smt_ms or 0
        fail = failures(r, where, heads)
        if None in fail:
            raise SystemExit('the specification library itself does not verify')
        nxt = []
        for f in work:
            obls, hints, und = fail.get(f, (set(), set(), set()))
            f.ranout = f in r.late and f in clean and not {k for k in obls | und if k is not None}
            if f in r.late:
                und = und | (f.todo if f.todo is not None else set(range(len(f.ex.obls))))
            bad = {k for k in obls | und if k is not None}
            f.todo = None
            if rounds == 1:
                f.first_failures = sorted({f.ex.obls[k].name for k in bad} | {f'hint: {f.ex.lines[h][:100]}' for h in hints})
            f.output = '\n'.join(b for b in re.split(r'\n(?=error|note: )', r.text) if 'vc.rs' in b)[:6000]
            if hints:
                # hints are only help: leave out the failing ones and try again
                for h in hints:
                    f.dropped.append('hint: ' + f.ex.lines[h][:200])
                    f.ex.lines[h] = 'assume(true);'
                if rounds < 6:
                    nxt.append(f)
                    continue
            invs = {f.ex.obls[k].inv for k in bad if getattr(f.ex.obls[k], 'inv', None)}
            if invs and rounds < 6:
                for i in invs:
                    f.c.drop.add(i)
                    f.dropped.append(f'loop {i[0]} invariant {i[1]}')
                generate(s, f)
                if f.ex is None:
                    continue
                nxt.append(f)
                continue
            f.failed = [f.ex.obls[k] for k in sorted(bad)]
        if r.timeout and rounds >= 2:
            break
        work = nxt
    for f in work:
        if not f.failed and f.ex is not None and left() <= 200:
            f.failed, f.ranout = (list(f.ex.obls), True) if f in clean else (f.ex.obls[-1:], False)


def vacuity(s, good, path, pid):
    r, where, heads = batch.run(s, good, units(good, canary=True), path, 10, max(30, min(120, left() - 120)))
    if r.fatal:
        return []
    seen = {where[ln] for ln, _ in r.failed if ln in where}
    und = {max(l for l in heads if l <= ln) for ln in r.undecided if any(l <= ln for l in heads)}
    ok = lambda f: all((f, 'canary', ci) in seen or any(heads[h][0] is f and where_of(h, heads, where) == (f, 'canary', ci) for h in und) for ci in range(len(canary_points(f.ex))))
    return [f for f in good if not ok(f) and f not in r.late]


def where_of(h, heads, where):
    """what the unit that begins at h asks"""
    nxt = min([l for l in heads if l > h] or [1 << 60])
    return next((w for l, w in where.items() if h <= l < nxt), None)


def replay_file(pid, undone, hfail, problems):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{pid}.txt')
    with open(p, 'w') as o:
        o.write(f'property {pid}\n')
        if hfail:
            o.write('\nfailing input replayed on the real code:\n' + hfail['text'] + '\n')
        for f, ob in undone:
            o.write(f'\nobligation not discharged: {ob.name}\n  function {f.c.key}, source line {ob.src}\n  {ob.text[:3000]}\n')
            o.write('  first failing obligations: ' + '; '.join(f.first_failures)[:2000] + '\n')
        for x in problems:
            o.write('\n' + x + '\n')
        seen = set()
        for f, _ in undone:
            if f.name not in seen:
                seen.add(f.name)
                o.write(f'\nverifier output for {f.name}:\n{f.output[:6000]}\n')
    return p


if __name__ == '__main__':
    main()
