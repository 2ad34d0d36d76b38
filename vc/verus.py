"""Running Verus on a generated file and mapping its errors back to named obligations."""
import os, re, signal, subprocess, tempfile, time

THREADS = '8'


class Result:
    def __init__(self):
        self.ok = False
        self.failed = []        # line numbers of failing statements
        self.undecided = set()  # functions whose resource limit was exceeded
        self.verified = 0
        self.late = set()       # functions whose file ran out of time
        self.text = ''
        self.time = 0.0
        self.timeout = False
        self.fatal = None
        self.smt_ms = None


def run(text, path, rlimit=40, timeout=300, multi=200, root=False, threads=None):
    open(path, 'w').write(text)
    r = Result()
    t0 = time.time()
    cmd = ['verus', path, '--multiple-errors', str(multi), '--no-auto-recommends-check', '--rlimit', str(rlimit), '--num-threads', str(threads or THREADS), '--time'] + (['--verify-root'] if root else [])
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, cwd=os.path.dirname(path))
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        r.timeout = True
    r.time = time.time() - t0
    r.text = out
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', out)
    if m:
        r.verified = int(m.group(1))
        r.ok = m.group(2) == '0' and p.returncode == 0
    elif not r.timeout:
        r.fatal = out if len(out) < 100000 else out[:50000] + out[-50000:]
    m = re.search(r'smt-run:\s+(\d+) ms', out)
    if m:
        r.smt_ms = int(m.group(1))
    f = re.escape(path)
    for m in re.finditer(r'^(error[^\n]*)\n\s*--> ' + f + r':(\d+):(\d+)', out, re.M):
        ln = int(m.group(2))
        if 'esource limit' in m.group(1):
            r.undecided.add(ln)
        else:
            r.failed.append((ln, m.group(1)))
    # with --multiple-errors the second and later failures of an assertion are notes on the same error
    for m in re.finditer(r'^note: [^\n]*\n\s*--> ' + f + r':(\d+):', out, re.M):
        pass
    return r
