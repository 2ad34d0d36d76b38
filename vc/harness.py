"""Bounded stand-ins and replays on the real code. Each harness is compiled from /repo's current sources on every run."""
import os, re, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(os.path.dirname(HERE), 'harness')
SRC = os.environ.get('K8PSH_SRC', '/repo/src')


class HResult:
    def __init__(self, what):
        self.what = what
        self.failure = None
        self.evaluations = self.distinct = 0
        self.samples = []
        self.note = ''


def compile_(out, sources, flags=()):
    objs, ps = [], []
    for i, src in enumerate(sources):
        o = f'{out}.{i}.o'
        objs.append(o)
        ps.append((src, subprocess.Popen(['g++', '-std=c++17', '-O1', '-g', '-w', '-DDEBUG', '-I' + SRC, '-I' + H, *flags, '-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    err = ''
    for src, p in ps:
        o, _ = p.communicate()
        if p.returncode != 0:
            err += f'{src}: {o[:1500]}\n'
    if err:
        return err
    r = subprocess.run(['g++', *flags, *objs, '-o', out, '-lpthread', '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.stdout if r.returncode != 0 else None


def outcome(h, text, rc):
    m = re.search(r'^FAIL (\S*)\n(.*?)(?=^OK \d|\Z)', text, re.M | re.S)
    if m:
        h.failure = {'id': m.group(1), 'text': m.group(2).strip()}
    elif rc not in (0,):
        h.note = f'the harness ended with status {rc}: {text[-300:]}'
    m = re.search(r'^OK (\d+) (\d+)', text, re.M)
    if m:
        h.evaluations, h.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r'^NOTE (.*)', text, re.M)
    if m:
        h.note = m.group(1)
    h.samples = [l[7:] for l in text.split('\n') if l.startswith('SAMPLE ')]


def text(pid, seed, work, budget):
    h = HResult('strings, paths, references and configurations run through the real functions and compared with independent oracles; exhaustive for small strings over small alphabets, then random; non-trivial = distinct input')
    exe = os.path.join(work, 'h_text')
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
    err = compile_(exe, [H + '/text.cxx', SRC + '/Utilities.cxx', SRC + '/Configuration.cxx'], san)
    if err:
        h.note = 'the harness does not compile against the current source: ' + err[:500]
        return h
    try:
        p = subprocess.run([exe, pid, str(seed), str(int(budget))], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=budget + 60,
                           env={'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=6000', 'UBSAN_OPTIONS': 'abort_on_error=1', 'PATH': os.environ.get('PATH', '')})
        outcome(h, p.stdout.decode(errors='replace'), p.returncode)
    except subprocess.TimeoutExpired:
        h.note = 'the harness did not finish in time'
    return h


def e2e(pid, seed, work, budget):
    h = HResult('sessions of the real program (built from the current source) with raw protocol peers, injected short and failing system calls, and commands that report what they were given; non-trivial = distinct scenario')
    try:
        p = subprocess.run(['python3', H + '/e2e.py', pid, str(seed), str(int(budget)), SRC], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=budget + 150)
        outcome(h, p.stdout.decode(errors='replace'), 0 if p.returncode == 3 else p.returncode)
    except subprocess.TimeoutExpired:
        h.note = 'the harness did not finish in time'
    return h


RUNNERS = {'text': text, 'e2e': e2e}


def run(names, pid, seed, work, budget, focus=()):
    """Runs the harnesses of a property; the first failure wins."""
    total = None
    for n in names.split():
        h = RUNNERS[n](pid, seed, work, max(5, budget / len(names.split())))
        if total is None:
            total = h
        else:
            total.what += '; ' + h.what
            total.evaluations += h.evaluations
            total.distinct += h.distinct
            total.samples += h.samples
            total.note += '; ' + h.note
            total.failure = total.failure or h.failure
        if total.failure:
            break
    return total
