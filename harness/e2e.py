#!/usr/bin/env python3
"""End-to-end bounded harness: the real program, built from the current sources, against raw protocol peers.
usage: e2e.py PROPERTY SEED BUDGET SRC   -> FAIL id\\ntext | OK evaluations distinct, NOTE, SAMPLE lines
Everything started runs as an unprivileged user with a scratch directory of its own."""
import glob, os, random, re, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
WD, ENVV, ARG, START, STDIN, STDOUT, STDERR, TERM, EXITC = range(9)
LONG = 25           # seconds after which something counts as stuck


class Fail(Exception):
    def __init__(self, id, text):
        self.id, self.text = id, text


class Skip(Exception):
    pass


def msg(kind, payload=b''):
    return bytes([kind]) + struct.pack('<I', len(payload)) + payload


def msgv(kind, v):
    return bytes([kind]) + struct.pack('<I', v & 0xffffffff)


def parse(b):
    """-> messages, rest"""
    out = []
    while len(b) >= 5:
        k, n = b[0], struct.unpack('<I', b[1:5])[0]
        if k == EXITC:
            out.append((k, n)); b = b[5:]
            continue
        if len(b) < 5 + n:
            break
        out.append((k, b[5:5 + n])); b = b[5 + n:]
    return out, b


def cat(ms, kind):
    return b''.join(p for k, p in ms if k == kind)


def show(b):
    s = repr(b)
    return s if len(s) < 300 else s[:140] + f' … ({len(b)} bytes) … ' + s[-100:]


class World:
    def __init__(self, src, seed, san=False):
        self.rng = random.Random(seed)
        self.root = tempfile.mkdtemp(prefix='k8psh_e2e_')
        os.chmod(self.root, 0o755)
        self.uid = 200000 + os.getpid() % 50000
        self.root_user = os.geteuid() == 0
        self.procs = []
        self.n = 0
        self.cases = 0
        self.seen = set()
        self.samples = []
        b = self.root + '/bin'
        os.mkdir(b)
        cmds = [['g++', '-std=c++17', '-O1', '-w', '-DDEBUG', '-I' + src, src + '/k8psh.cxx', '-o', b + '/k8psh', '-lpthread'],
                ['gcc', '-O1', '-w', HERE + '/probe.c', '-o', b + '/probe'], ['gcc', '-shared', '-fPIC', '-O1', '-w', HERE + '/shim.c', '-o', b + '/shim.so', '-ldl']]
        self.san = None
        if san:
            self.san = self.dir() + '/san'
            cmds[0] += [HERE + '/assert.cxx', '-D_GLIBCXX_ASSERTIONS', '-g', '-fsanitize=address,bounds,signed-integer-overflow,shift', '-fno-sanitize-recover=all', '-static-libasan', '-static-libubsan']
        ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for c in cmds]
        for p in ps:
            o = p.communicate()[0]
            if p.returncode:
                raise Skip('does not compile: ' + o.decode(errors='replace')[:600])
        os.symlink('k8psh', b + '/k8pshd')
        self.k, self.d, self.probe, self.shim = b + '/k8psh', b + '/k8pshd', b + '/probe', b + '/shim.so'
        for f in os.listdir(b):
            os.chmod(f'{b}/{f}', 0o755)

    def close(self):
        for p in self.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        if self.root_user:
            # what detached itself: processes of the user that only this run uses
            for _ in range(3):
                for d in glob.glob('/proc/[0-9]*'):
                    try:
                        if os.stat(d).st_uid == self.uid:
                            os.kill(int(d[6:]), signal.SIGKILL)
                    except Exception:
                        pass
        for p in self.procs:
            try:
                p.wait(5)
            except Exception:
                pass
        shutil.rmtree(self.root, ignore_errors=True)

    def own(self, path):
        if self.root_user:
            os.chown(path, self.uid, self.uid)
        return path

    def dir(self):
        self.n += 1
        d = f'{self.root}/d{self.n}'
        os.mkdir(d)
        return self.own(d)

    def file(self, path, data, mode=0o644):
        with open(path, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        os.chmod(path, mode)
        return self.own(path)

    def demote(self):
        if self.root_user:
            os.setgroups([])
            os.setgid(self.uid)
            os.setuid(self.uid)
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        os.umask(0o022)
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def spawn(self, argv, cwd, env=None, exe=None, log=None, fail=None, shim=None, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE):
        e = dict(env or {})
        if self.san:
            e['ASAN_OPTIONS'] = 'detect_leaks=0:log_path=' + self.san
            e['UBSAN_OPTIONS'] = 'log_path=' + self.san
            e['SAN_LOG'] = self.san + '.assert'
        if log or fail or shim:
            e['LD_PRELOAD'] = self.shim
            if log:
                e['SHIM_LOG'] = log
            if fail:
                e['SHIM_FAIL'] = fail
            e.update(shim or {})
        p = subprocess.Popen(argv, executable=exe, cwd=cwd, env=e, stdin=stdin, stdout=stdout, stderr=stderr, preexec_fn=self.demote, start_new_session=True)
        self.procs.append(p)
        return p

    def count(self, key, sample=None):
        self.cases += 1
        self.seen.add(repr(key))
        if sample and len(self.samples) < 8:
            self.samples.append(sample.replace('\n', ' ')[:300])


def free_port(n=1):
    while True:
        ss = []
        try:
            s = socket.socket(); ss.append(s)
            s.bind(('127.0.0.1', 0))
            p = s.getsockname()[1]
            if p + n > 65535:
                continue
            for i in range(1, n):
                t = socket.socket(); ss.append(t)
                t.bind(('127.0.0.1', p + i))
            return p
        except OSError:
            continue
        finally:
            for s in ss:
                s.close()


def listening(port):
    """inode and address of the listening socket"""
    out = []
    for fam in ('tcp', 'tcp6'):
        try:
            for l in open('/proc/net/' + fam).read().split('\n')[1:]:
                f = l.split()
                if len(f) > 9 and f[3] == '0A' and int(f[1].split(':')[1], 16) == port:
                    out.append((f[9], f[1].split(':')[0]))
        except OSError:
            pass
    return out


def until(f, limit=LONG, step=0.01):
    t = time.time()
    while time.time() - t < limit:
        r = f()
        if r:
            return r
        time.sleep(step)
    return f()


class Server:
    def __init__(self, w, conf, args=(), env=None, cwd=None, name='srv', port=None, argv0=None, wait=True, **kw):
        self.w, self.port = w, port
        self.cwd = cwd or w.dir()
        self.conf = w.file(self.cwd + '/k8psh.conf', conf) if conf is not None else None
        self.err = open(self.cwd + '/server.err', 'wb')
        self.argv = [argv0 or w.d] + (['-n', name] if name else []) + list(args)
        self.t0 = time.time()
        self.p = w.spawn(self.argv, self.cwd, env=env if env is not None else {'PATH': '/usr/bin:/bin'}, exe=None, stdout=self.err, stderr=self.err, **kw)
        if wait:
            until(lambda: listening(port) or self.p.poll() is not None)
            if not listening(port):
                raise Fail('server-start', f'the server {self.argv} with configuration\n{conf}\ndoes not listen on port {port}; exit status {self.p.poll()}; output: {self.log()}')

    def log(self):
        return open(self.cwd + '/server.err', 'rb').read()[-1500:].decode(errors='replace')

    def wait(self, t=LONG):
        try:
            return self.p.wait(t)
        except subprocess.TimeoutExpired:
            return None

    def stop(self):
        if self.p.poll() is None:
            self.p.send_signal(signal.SIGTERM)
            if self.wait(3) is None:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait(5)


class Session:
    """A raw client"""
    def __init__(self, port):
        try:
            self.s = socket.create_connection(('127.0.0.1', port), LONG)
        except ConnectionRefusedError:
            raise Fail('refused', f'a server that should be listening on port {port} does not take a connection')
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b''
        self.eof = False
        self.reset = False

    def send(self, data, cuts=None, pause=0.0):
        try:
            if cuts is None:
                self.s.sendall(data)
                return True
            o = 0
            for c in cuts + [len(data)]:
                if c > o:
                    self.s.sendall(data[o:c])
                    o = c
                    if pause:
                        time.sleep(pause)
            return True
        except (BrokenPipeError, ConnectionResetError):
            return False

    def recv(self, until_=None, limit=LONG):
        t = time.time()
        while not self.eof and (until_ is None or not until_(parse(self.buf)[0])):
            left = limit - (time.time() - t)
            if left <= 0:
                break
            self.s.settimeout(left)
            try:
                b = self.s.recv(65536)
            except (socket.timeout, TimeoutError):
                break
            except (ConnectionResetError, BrokenPipeError):
                self.reset = self.eof = True
                break
            if not b:
                self.eof = True
            self.buf += b
        return parse(self.buf)

    def close(self):
        self.s.close()


def request(wd, args, env, name):
    return msg(WD, wd) + b''.join(msg(ARG, a) for a in args) + b''.join(msg(ENVV, e) for e in env) + msg(START, name)


class FakeServer:
    """Accepts one client; what happens is decided by the caller."""
    def __init__(self, port=None):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(('127.0.0.1', port or 0))
        self.l.listen(5)
        self.port = self.l.getsockname()[1]

    def accept(self):
        self.l.settimeout(LONG)
        try:
            c, _ = self.l.accept()
        except (socket.timeout, TimeoutError):
            return None
        s = Session.__new__(Session)
        s.s, s.buf, s.eof, s.reset = c, b'', False, False
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s

    def close(self):
        self.l.close()


def started(ms):
    return any(k == START for k, _ in ms)


def cuts(rng, n, how):
    if how == 'whole':
        return None
    if how == 'bytes':
        return list(range(1, n))
    if how == 'halves':
        return [n // 2]
    k = min(n - 1, rng.randint(1, 9)) if n > 1 else 0
    return sorted(rng.sample(range(1, n), k)) if k > 0 else None


def dump(path, limit=LONG):
    if not until(lambda: os.path.exists(path), limit):
        return None
    d = {'arg': [], 'env': [], 'fd': []}
    for l in open(path).read().split('\n'):
        f = l.split(' ')
        if f[0] in ('arg', 'env'):
            d[f[0]].append(bytes.fromhex(f[1]) if len(f) > 1 else b'')
        elif f[0] == 'cwd':
            d['cwd'] = bytes.fromhex(f[1])
        elif f[0] == 'fd':
            d['fd'].append((int(f[1]), f[2], f[3], f[4]))
    return d


def finish(s, what, limit=LONG):
    ms, rest = s.recv(limit=limit)
    if not s.eof:
        raise Fail('stuck', what + f': the session does not end; received so far {show(s.buf)}')
    return ms, rest


def q(s):
    return "'" + s.replace("'", "''") + "'"


def client(w, cwd, argv, conf, port=None, stdin=subprocess.DEVNULL, env=None, **kw):
    e = {'PATH': '/usr/bin:/bin', 'K8PSH_CONFIG': conf} if env is None else env
    return w.spawn(argv, cwd, env=e, stdin=stdin, **kw)


def ended(p, what, limit=LONG):
    try:
        o, e = p.communicate(timeout=limit)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        raise Fail('client-stuck', what + ': the client does not end')


# ---------------------------------------------------------------- scenarios
def sanitized(w):
    time.sleep(0.1)
    for f in glob.glob(w.san + '*'):
        return open(f, errors='replace').read()[:1500]


def c18(w, deep):
    """malformed messages to either side, under the address sanitizer and with library assertions"""
    rng = w.rng

    def junk():
        good = [request(b'', [b'a', b''], [b'A=b'], b'dump'), msg(STDIN, b'data'), msg(STDIN), msgv(EXITC, 3), msg(STDOUT, b'x' * 300), msg(STDERR), msg(WD, b'..'), msg(ENVV, b'='), msg(ENVV, b''), msg(START, b''), msg(START, b'nosuch'), msg(ARG, b'y' * rng.choice([8180, 8187, 8188, 8192]))]
        out = b''
        for _ in range(rng.randint(1, 5)):
            m = rng.choice(good)
            r = rng.random()
            if r < .25:
                m = bytes([rng.randrange(256)]) + struct.pack('<I', rng.choice([0, 1, 4, 5, 8187, 8188, 8192, 8193, 65536, 0x7fffffff, 0x80000000, 0xffffffff])) + blob(rng, rng.choice([0, 1, 5, 9000]))
            elif r < .4:
                m = m[:rng.randint(0, len(m))]
            elif r < .5 and m:
                k = rng.randrange(len(m))
                m = m[:k] + bytes([rng.randrange(256)]) + m[k + 1:]
            out += m
        return out
    d = w.dir()
    port = free_port()
    sv = Server(w, f"baseDirectory = .\n[srv:{port}]\ndump {w.probe} dump\n", port=port, cwd=d)
    fs = FakeServer()
    conf = w.file(d + '/c.conf', f'baseDirectory = .\nconnectTimeoutMs = 20000\n[srv:{fs.port}]\ncmd\n')
    # every fill of the receive buffer when a header begins
    edge = [msg(WD, b'') + msg(ARG, b'k' * (n - 10)) + msg(ARG, b'z') + msg(START, b'nosuch') for n in range(8180, 8196)]
    for i in range(len(edge) + (120 if deep else 40)):
        data = edge[i] if i < len(edge) else junk()
        s = Session(port)
        cs = cuts(rng, len(data), rng.choice(['whole', 'random', 'halves']))
        s.send(data, cs, 0.0005 if cs else 0)
        try:
            s.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        s.recv(limit=5)
        s.close()
        w.count(('server', len(data), data[:40]))
        t = sanitized(w) if i % 8 == 7 or i < len(edge) else None
        if t:
            raise Fail('memory', f'the server receives {show(data)} cut at {cs and cs[:20]}: {t}')
    sv.stop()
    for i in range(40 if deep else 14):
        data = junk() if i > 4 else b''.join(msg(STDOUT, b'k' * (n - 5)) + msg(STDERR, b'ab') for n in range(8183 + 2 * i, 8190 + 2 * i))
        p = client(w, d, [w.k, 'cmd'], conf)
        s = fs.accept()
        if s is None:
            break
        s.recv(started, 5)
        cs = cuts(rng, len(data), rng.choice(['whole', 'random', 'halves']))
        s.send(data, cs, 0.0005 if cs else 0)
        s.close()
        ended(p, 'a session with the answer ' + show(data))
        w.count(('client', len(data), data[:40]))
        t = sanitized(w)
        if t:
            raise Fail('memory', f'the client receives {show(data)} cut at {cs and cs[:20]}: {t}')
    fs.close()


def c18_more(w, deep):
    """ordinary sessions, under the address sanitizer"""
    for f in (c01_server, c01_client, c03_client, c02):
        try:
            f(w, False)
        except Fail as e:
            t = sanitized(w)
            if t:
                raise Fail('memory', e.text + ': ' + t)
        t = sanitized(w)
        if t:
            raise Fail('memory', t)


def blob(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n)) if n < 4000 else (bytes(range(256)) * (n // 256 + 1))[:n]


def c01_server(w, deep):
    """messages from a client, in every fragmentation, with every kind of content"""
    rng = w.rng
    port = free_port()
    d = w.dir()
    sv = Server(w, f"baseDirectory = .\n[srv:{port}]\ndump {w.probe} dump\nslurp {w.probe} slurp\n", port=port, cwd=d, shim={'SHIM_RECV': '7000'} if rng.random() < .5 else None)
    todo = [('bytes', [b'a', b'', b'b c\n']), ('whole', [b'', b'', b'']), ('random', [b'x' * 8187, b'y']), ('random', [b'x' * 8182, b'y']), ('halves', [b'\x01\xff\x80' * 900, b'z' * 40000]), ('whole', [bytes([i]) * i for i in range(1, 256, 3)]), ('random', [b'q' * 100000])]
    for k in range(8180, 8194):
        todo.append(('whole', [b'k' * (k - 5 * 3)]))
    for k in range(30 if deep else 8):
        todo.append((rng.choice(['whole', 'random', 'random', 'bytes', 'halves']), [bytes(rng.randint(1, 255) for _ in range(rng.choice([0, 1, 4, 5, 6, 251, 255, 256, 257, 4090, 8187]))) for _ in range(rng.randint(0, 6))]))
    for i, (how, args) in enumerate(todo):
        out = f'{d}/o{i}'
        data = request(b'', [out.encode()] + args, [], b'dump')
        if how == 'bytes' and len(data) > 600:
            how = 'random'
        cs = cuts(rng, len(data), how)
        s = Session(port)
        s.send(data, cs, 0.0004 if cs else 0)
        ms, rest = finish(s, f'request with arguments {show(args)} sent in pieces {how}')
        s.close()
        w.count(('args', how, tuple(len(a) for a in args)), f'arguments of lengths {[len(a) for a in args]} sent {how}')
        r = dump(out, 3)
        if r is None or r['arg'][3:] != args or rest:
            raise Fail('request-changed', f'a client sends the arguments {show(args)} ({how}, cut at {cs and cs[:20]}); the command got {show(r and r["arg"][3:])}; answer {show(s.buf)}')
    # payloads of any content on standard input
    for i in range(12 if deep else 5):
        chunks = [blob(rng, rng.choice([1, 2, 5, 250, 256, 257, 8187, 8188, 8192, 20000])) for _ in range(rng.randint(1, 5))]
        if i == 0:
            chunks = [b'\0', b'\0\0\0\0\0', b'\x03\x05\0\0\0']
        out = f'{d}/s{i}'
        data = request(b'', [out.encode(), b'4000', b'0', b'100000000'], [], b'slurp') + b''.join(msg(STDIN, c) for c in chunks) + msg(STDIN)
        cs = cuts(rng, len(data), rng.choice(['whole', 'random', 'halves']))
        s = Session(port)
        s.send(data, cs, 0.001 if cs else 0)
        finish(s, 'standard input')
        s.close()
        w.count(('stdin', tuple(len(c) for c in chunks)))
        got = open(out, 'rb').read() if os.path.exists(out) else None
        if got != b''.join(chunks) + b'EOF':
            raise Fail('stdin-changed', f'a client sends standard input {show(b"".join(chunks))} in messages of {[len(c) for c in chunks]} bytes cut at {cs}; the command got {show(got)}')
    # a connection that ends in the middle of a message
    full = request(b'', [f'{d}/trunc'.encode(), b'arg'], [], b'dump')
    ends = sorted({1, 3, 4, 5, len(full) - 1, len(full) - 3, len(full) - 4, len(full) - 5, len(full) - 6} | {rng.randrange(1, len(full)) for _ in range(20 if deep else 6)})
    for n in ends:
        s = Session(port)
        s.send(full[:n])
        s.s.shutdown(socket.SHUT_WR)
        ms, rest = finish(s, f'request cut after {n} of {len(full)} bytes')
        s.close()
        w.count(('cut', n))
        if os.path.exists(f'{d}/trunc') or any(k == EXITC for k, _ in ms):
            raise Fail('truncated-request', f'the connection ends after {n} of the {len(full)} bytes of a request: a command was started all the same; answer {show(s.buf)}')
    # shortly after the end of a message far into what is received at once
    for i in range(12 if deep else 5):
        out = f'{d}/b{i}'
        args = [b'p' * rng.choice([5000, 4500, 4200, 6000, 7600]), b'tail' * 20]
        data = request(b'', [out.encode()] + args, [], b'dump')
        edge = len(msg(WD, b'')) + len(msg(ARG, out.encode())) + len(msg(ARG, args[0]))
        c = edge + (i % 5 if i < 5 else rng.randint(0, 6))
        s = Session(port)
        s.send(data, [c], 0.08)
        ms, rest = finish(s, f'request cut {c - edge} bytes after the end of a message')
        s.close()
        w.count(('edge', i), f'request cut {c - edge} bytes after a message that ends at {edge}')
        r = dump(out, 3)
        if r is None or r['arg'][3:] != args:
            raise Fail('request-changed', f'a client sends the arguments {show(args)}, with a pause {c - edge} bytes after the end of the message at offset {edge}; the command got {show(r and r["arg"][3:])}; answer {show(s.buf)}')
    # kinds of messages that do not exist
    for bit in (16, 32, 64, 128) if deep else (16, 128, rng.choice([32, 64])):
        for k, at in ((START, -1), (ARG, 1)):
            ms0, _ = parse(request(b'', [f'{d}/kind'.encode(), b'arg'], [], b'dump'))
            data = b''.join(msg(kk + bit if (i == at % len(ms0) and kk == k) else kk, p) for i, (kk, p) in enumerate(ms0))
            s = Session(port)
            s.send(data); s.s.shutdown(socket.SHUT_WR)
            ms, rest = finish(s, f'a message of kind {k + bit}')
            s.close()
            w.count(('kind', k + bit), f'a message of kind {k + bit}')
            if os.path.exists(f'{d}/kind') or any(k == EXITC for k, _ in ms):
                raise Fail('kind', f'a client sends a request in which one message has the kind {k + bit}, which does not exist: a command was started all the same; answer {show(s.buf)}')
    # in the middle of standard input
    for n in (0, 1, 4, 5, 6, 14):
        out = f'{d}/ts{n}'
        s = Session(port)
        body = msg(STDIN, b'0123456789')
        s.send(request(b'', [out.encode(), b'100', b'0', b'1000000'], [], b'slurp') + msg(STDIN, b'first') + body[:n])
        until(lambda: os.path.exists(out + '.tmp') and os.path.getsize(out + '.tmp') >= 5, 1)
        s.s.shutdown(socket.SHUT_WR)
        finish(s, f'standard input cut {n} bytes into a message')
        s.close()
        time.sleep(0.05)
        got = b''.join(open(f, 'rb').read() for f in (out + '.tmp', out) if os.path.exists(f))
        w.count(('stdin-cut', n))
        if not b'first'.startswith(got[:-3] if got.endswith(b'EOF') else got):
            raise Fail('truncated-stdin', f'the connection ends {n} bytes into a message of 10 bytes of standard input; the command got {show(got)}')
    sv.stop()


def c01_client(w, deep):
    rng = w.rng
    d = w.dir()
    fs = FakeServer()
    conf = w.file(d + '/c.conf', f'baseDirectory = .\nconnectTimeoutMs = 20000\n[srv:{fs.port}]\ncmd\n')
    for i in range(24 if deep else 9):
        parts = [(rng.choice([STDOUT, STDERR]), blob(rng, rng.choice([1, 4, 5, 100, 255, 256, 8187, 8188, 8192, 70000]))) for _ in range(rng.randint(1, 6))]
        if i == 0:
            parts = [(STDOUT, b'\0\n\0'), (STDERR, b'\x08\0\0\0\0'), (STDOUT, b'e' * 8182)]
        code = rng.randint(0, 255)
        data = b''.join(msg(k, p) for k, p in parts) + msg(STDOUT) + msg(STDERR) + msgv(EXITC, code)
        how = rng.choice(['whole', 'random', 'halves']) if i != 1 else 'bytes'
        if i == 1:
            parts = [(STDOUT, b'abc'), (STDERR, b'xyz' * 20)]
            data = b''.join(msg(k, p) for k, p in parts) + msg(STDOUT) + msg(STDERR) + msgv(EXITC, code)
        cs = cuts(rng, len(data), how)
        trunc = None
        if i % 3 == 2:
            trunc = rng.randrange(1, len(data))
        p = client(w, d, [w.k, 'cmd'], conf, shim=rng.choice([None, {'SHIM_RECV': '900'}]))
        s = fs.accept()
        if s is None:
            raise Fail('no-connection', 'the client does not connect')
        s.recv(started)
        s.send(data if trunc is None else data[:trunc], cs if trunc is None else None, 0.001 if cs and len(cs) < 500 else 0)
        s.s.shutdown(socket.SHUT_WR)
        rc, o, e = ended(p, 'a session with the answer ' + show(data))
        s.close()
        w.count(('answer', i, how, trunc, tuple(len(x) for _, x in parts)), f'answer with messages of {[len(x) for _, x in parts]} bytes, {how}, cut at {trunc}')
        wo, we = cat(parts, STDOUT), cat(parts, STDERR)
        if trunc is None:
            if o != wo or e != we or rc != code:
                raise Fail('answer-changed', f'the server sends {show(data)} in pieces {cs and cs[:20]}: the client writes {show(o)} / {show(e)} and exits with {rc}; expected {show(wo)} / {show(we)} and {code}')
        else:
            ms, _ = parse(data[:trunc])
            if not cat(ms, STDOUT).startswith(o) or not e.startswith(cat(ms, STDERR)) or rc >= 0:
                raise Fail('truncated-answer', f'the connection ends after {trunc} of the bytes {show(data)}: the client writes {show(o)} / {show(e)} and exits with {rc}')
    for bit in (16, 32, 64, 128) if deep else (16, 128):
        p = client(w, d, [w.k, 'cmd'], conf)
        s = fs.accept()
        if s is None:
            raise Fail('no-connection', 'the client does not connect')
        s.recv(started)
        s.send(msg(STDOUT) + msg(STDERR) + msgv(EXITC + bit, 5))
        s.s.shutdown(socket.SHUT_WR)
        rc, o, e = ended(p, f'an answer of kind {EXITC + bit}')
        s.close()
        w.count(('answer-kind', bit))
        if rc >= 0:
            raise Fail('kind', f'the server sends a message of kind {EXITC + bit}, which does not exist: the client exits with {rc}')
    fs.close()


def c02(w, deep):
    rng = w.rng
    d = w.dir()
    os.makedirs(d + '/base/sub/deep'); [w.own(x) for x in (d + '/base', d + '/base/sub', d + '/base/sub/deep')]
    fs = FakeServer()
    for i in range(30 if deep else 12):
        names = ['A', 'B2', 'LONG_NAME', 'C', 'D', 'E']
        rng.shuffle(names)
        cfg, exp, env = [], [], {}
        for n in names[:rng.randint(0, 6)]:
            kind = rng.choice(['', '?', '='])
            default = rng.choice(['', 'dflt', 'a b'])
            cfg.append((kind, n, default))
            st = rng.choice(['unset', 'empty', 'value', 'odd'])
            if st != 'unset':
                env[n] = {'empty': '', 'value': 'v' + n, 'odd': 'x=y ${A} \\n \n"\''}[st]
                if kind != '=':
                    exp.append(f'{n}={env[n]}'.encode())
        env['UNCONFIGURED'] = 'secret'
        args = [bytes(rng.choice([97, 32, 34, 39, 92, 10, 36, 200, 255, 45]) for _ in range(rng.choice([0, 1, 3, 10]))) for _ in range(rng.randint(0, 7))]
        if i == 0:
            args = [b'', b'--config', b'-c', b'--', b'cmd', b'']
        if i == 1:
            args = [b'x' * 100000, b'y' * 8187, b'z' * 8192]
        if i == 2:
            args = [b'%d' % k for k in range(3000)]
        wd = rng.choice(['', 'sub', 'sub/deep'])
        glob_env = ' '.join(q(k + n + '=' + v) for k, n, v in cfg[:1])
        cmdname = rng.choice(['cmd', 'other'])
        conf = w.file(d + '/c.conf', f'baseDirectory = {q(d + "/base")}\nconnectTimeoutMs = 20000\n[srv:{fs.port}] {glob_env}\n' + ''.join(f"{c} {' '.join(q(k + n + '=' + v) for k, n, v in cfg[1:])} /bin/true fixed\n" for c in ('cmd', 'other')))
        e = dict(env); e['K8PSH_CONFIG'] = conf
        p = w.spawn([w.k.encode(), cmdname.encode()] + args, d + '/base/' + wd, env=e, shim=rng.choice([None, {'SHIM_SEND': '3000'}]))
        s = fs.accept()
        if s is None:
            raise Fail('no-connection', f'the client does not connect (environment {env}, configuration {open(conf).read()}): {p.poll()}')
        ms, rest = s.recv(started)
        s.send(msg(STDOUT) + msg(STDERR) + msgv(EXITC, 0))
        ended(p, 'client')
        s.close()
        w.count(('request', i), f'arguments {show(args)[:80]} configured {cfg} environment {env}')
        want = [(WD, wd.encode())] + [(ARG, a) for a in args] + [(ENVV, x) for x in exp] + [(START, cmdname.encode())]
        k = next((j for j, m in enumerate(ms) if m[0] == START), len(ms))
        got = ms[:k + 1]
        if got != want:
            raise Fail('request-differs', f'client run in base/{wd} as {cmdname} with arguments {show(args)}, environment {env}, configured variables {cfg}: it sends {show(got)}, expected {show(want)}')
    fs.close()


def c03_client(w, deep):
    rng = w.rng
    d = w.dir()
    fs = FakeServer()
    conf = w.file(d + '/c.conf', f'baseDirectory = .\nconnectTimeoutMs = 20000\n[srv:{fs.port}]\ncmd\n')
    for i in range(12 if deep else 5):
        data = blob(rng, [3, 0, 65535, 65536, 300001, 131070][i % 6])
        p = client(w, d, [w.k, 'cmd'], conf, stdin=subprocess.PIPE, shim=rng.choice([None, {'SHIM_READ': '1000'}, {'SHIM_SEND': '5000'}]))
        s = fs.accept()
        if s is None:
            raise Fail('no-connection', 'the client does not connect')
        s.recv(started)

        def feed():
            try:
                o = 0
                while o < len(data):
                    n = rng.choice([1, 7, 4096, 65535, 65536, 200000])
                    p.stdin.write(data[o:o + n]); p.stdin.flush()
                    o += n
                    if rng.random() < .3:
                        time.sleep(0.003)
                p.stdin.close()
            except OSError:
                pass
        t = threading.Thread(target=feed); t.start()
        answered = i % 2
        if answered:
            s.send(msg(STDOUT, b'early'))
        ms, rest = s.recv(lambda m: any(k == STDIN and not x for k, x in m))
        w.count(('stdin', i, len(data)), f'{len(data)} bytes of standard input')
        after = [m for m in ms if m[0] != START][len([m for m in ms if m[0] in (WD, ARG, ENVV)]):]
        s.send(msg(STDOUT) + msg(STDERR) + msgv(EXITC, 4))
        t.join(5)
        p.stdin = None
        rc, o, e = ended(p, 'client with standard input')
        got = cat(after, STDIN)
        if got != data or any(k != STDIN for k, _ in after) or any(not x for _, x in after[:-1]) or not after or after[-1][1] or rest or rc != 4:
            k = next((j for j in range(min(len(got), len(data))) if got[j] != data[j]), min(len(got), len(data)))
            raise Fail('stdin-forwarding', f'{len(data)} bytes on the client\'s standard input: it sends messages {[(m[0], len(m[1])) for m in after[:40]]}, differing from byte {k} on (of {len(got)}), exit status {rc}')
        s.close()
    # the server closes the command's standard input: the rest of the session goes on
    p = client(w, d, [w.k, 'cmd'], conf, stdin=subprocess.PIPE)
    s = fs.accept()
    s.recv(started)
    s.send(msg(STDIN) + msg(STDOUT, b'more'))
    time.sleep(0.05)
    s.send(msg(STDERR, b'err') + msg(STDOUT) + msg(STDERR) + msgv(EXITC, 9))
    rc, o, e = ended(p, 'client whose standard input was closed by the server')
    w.count('stdin closed by the server')
    if (rc, o, e) != (9, b'more', b'err'):
        raise Fail('stdin-closed', f'the server reports a closed standard input, then output and exit status 9: the client writes {o} / {e} and exits with {rc}')
    s.close(); fs.close()


def c03_server(w, deep):
    rng = w.rng
    port = free_port()
    d = w.dir()
    sv = Server(w, f"baseDirectory = .\n[srv:{port}]\nslurp {w.probe} slurp\nexit {w.probe} exit\nclosed {w.probe} closed\n", port=port, cwd=d, shim=rng.choice([None, {'SHIM_SHORT': '1000'}]))
    for i in range(10 if deep else 5):
        total, chunk, pause = [(10, 1, 0), (200000, 60000, 0), (300000, 5000, 1), (70000, 333, 0), (150000, 65536, 20)][i % 5]
        data = blob(rng, total)
        o, parts = 0, []
        while o < total:
            n = rng.choice([1, 500, 8187, 30000, 65535]) if total > 100 else rng.randint(1, 3)
            parts.append(data[o:o + n]); o += n
        out = f'{d}/s{i}'
        s = Session(port)
        s.send(request(b'', [out.encode(), b'%d' % chunk, b'%d' % pause, b'100000000'], [], b'slurp'))
        for x in parts:
            s.send(msg(STDIN, x))
            if rng.random() < .1:
                time.sleep(0.002)
        s.send(msg(STDIN))
        ms, rest = finish(s, f'{total} bytes of standard input')
        s.close()
        got = open(out, 'rb').read() if os.path.exists(out) else None
        w.count(('stdin', i), f'{total} bytes of standard input in {len(parts)} messages to a command that reads {chunk} bytes every {pause} ms')
        if got != data + b'EOF':
            k = next((j for j in range(min(len(got or b''), total)) if got[j] != data[j]), min(len(got or b''), total))
            raise Fail('stdin-written', f'{total} bytes of standard input in {len(parts)} messages to a command that reads {chunk} bytes every {pause} ms: the command got {show(got)}, differing from byte {k} on')
        if (EXITC, 7) not in ms:
            raise Fail('stdin-exit', f'no exit status after {total} bytes of standard input: {show(ms)}')
    # input that is pending when the end of file arrives, and arrives late
    # the command closes its standard input; more input, also input that looks like messages, is discarded
    for i, extra in enumerate([[b'x' * 10], [msg(TERM)], [b'\0' * 100, msgv(EXITC, 3), b'y' * 20000], [b'z' * 200000, b'q' * 70000]]):
        out = f'{d}/t{i}'
        s = Session(port)
        s.send(request(b'', [out.encode(), b'100', b'0', b'5', b'700'], [], b'slurp') + msg(STDIN, b'01234'))
        until(lambda: os.path.exists(out), 5)
        for x in extra:
            s.send(msg(STDIN, x))
            time.sleep(0.03)
        time.sleep(0.05)
        for x in extra:
            s.send(msg(STDIN, x))
        s.send(msg(STDIN))
        ms, rest = finish(s, 'input after the command closed its standard input')
        s.close()
        w.count(('late', i), f'standard input {[len(x) for x in extra]} after the command closed its standard input')
        if cat(ms, STDOUT) != b'after' or (EXITC, 8) not in ms:
            raise Fail('stdin-after-close', f'the command closes its standard input after 5 bytes and later writes "after" and exits with 8; the client goes on sending standard input {show(extra)}: the client receives {show(ms)}')
    sv.stop()


def c04_server(w, deep):
    rng = w.rng
    port = free_port()
    d = w.dir()
    sv = Server(w, f"baseDirectory = .\n[srv:{port}]\nout {w.probe} out\norphan {w.probe} orphan\nclosed {w.probe} closed\n", port=port, cwd=d)
    O = lambda n: bytes((i * 7 + i // 251) & 255 for i in range(n))
    E = lambda n: bytes((i * 5 + i // 241 + 1) & 255 for i in range(n))
    for n, m, step in [(0, 0, 1), (1, 0, 1), (0, 1, 1), (10, 7, 1), (65535, 65536, 65536), (65537, 3, 70000), (300000, 200000, 1000), (5, 400000, 4096)] + ([(rng.randint(0, 500000), rng.randint(0, 500000), rng.choice([100, 4096, 65536])) for _ in range(6)] if deep else []):
        s = Session(port)
        s.send(request(b'', [b'%d' % n, b'%d' % m, b'%d' % step, b'6'], [], b'out'))
        if rng.random() < .5:
            time.sleep(0.1)
        ms, rest = finish(s, f'a command that writes {n} and {m} bytes')
        s.close()
        w.count(('out', n, m, step), f'a command that writes {n} bytes to its output and {m} to its error output, {step} at a time')
        what = f'the command writes {n} bytes to standard output and {m} to standard error, {step} at a time'
        if cat(ms, STDOUT) != O(n) or cat(ms, STDERR) != E(m):
            raise Fail('output-changed', f'{what}: the server sends {len(cat(ms, STDOUT))} and {len(cat(ms, STDERR))} bytes, messages {[(k, x if k == EXITC else len(x)) for k, x in ms[:30]]}')
        if not ms or ms[-1] != (EXITC, 6) or sum(k == EXITC for k, _ in ms) != 1 or rest:
            raise Fail('exit-order', f'{what} and exits with 6: the server sends {[(k, x if k == EXITC else len(x)) for k, x in ms[-10:]]}')
        for k in (STDOUT, STDERR):
            xs = [x for kk, x in ms if kk == k]
            if not xs or xs[-1] != b'' or any(not x for x in xs[:-1]):
                raise Fail('end-of-output', f'{what}: the end of stream {k} is not announced exactly once at its end: {[len(x) for x in xs[-10:]]}')
    for ms_ in (300, 30):
        s = Session(port)
        s.send(request(b'', [b'%d' % ms_, b'3'], [], b'orphan'))
        ms, rest = finish(s, 'output after the end of the started process')
        s.close()
        w.count(('orphan', ms_))
        if cat(ms, STDOUT) != b'first;late' or cat(ms, STDERR) != b'LATE' or ms[-1] != (EXITC, 3):
            raise Fail('late-output', f'a child of the command writes "late" after the command has exited with 3: the server sends {show(ms)}')
    s = Session(port)
    s.send(request(b'', [b'400', b'5'], [], b'closed'))
    ms, rest = finish(s, 'closed streams')
    w.count('closed')
    if not ms or ms[-1] != (EXITC, 5):
        raise Fail('exit-after-close', f'the command closes its streams and exits with 5 later: the server sends {show(ms)}')
    sv.stop()


def c04_client(w, deep):
    rng = w.rng
    d = w.dir()
    fs = FakeServer()
    conf = w.file(d + '/c.conf', f'baseDirectory = .\nconnectTimeoutMs = 20000\n[srv:{fs.port}]\ncmd\n')
    for i in range(16 if deep else 7):
        parts = [(rng.choice([STDOUT, STDERR]), blob(rng, rng.choice([1, 3, 300, 65536, 100000]))) for _ in range(rng.randint(0, 12))]
        order = rng.sample([STDOUT, STDERR], 2)
        for k in order[:rng.randint(0, 2)]:
            j = max([x for x, (kk, _) in enumerate(parts) if kk == k], default=-1)
            parts.insert(rng.randint(j + 1, len(parts)), (k, b''))
        p = client(w, d, [w.k, 'cmd'], conf)
        s = fs.accept()
        if s is None:
            raise Fail('no-connection', 'the client does not connect')
        s.recv(started)
        for k, x in parts:
            s.send(msg(k, x))
            if rng.random() < .2:
                time.sleep(0.003)
        s.send(msgv(EXITC, 11))
        rc, o, e = ended(p, 'output')
        s.close()
        w.count(('out', i), f'messages {[(k, len(x)) for k, x in parts]}')
        if o != cat(parts, STDOUT) or e != cat(parts, STDERR) or rc != 11:
            raise Fail('output-written', f'the server sends {[(k, len(x)) for k, x in parts]} and exit status 11: the client writes {len(o)} / {len(e)} bytes {show(o)} / {show(e)}; expected {len(cat(parts, STDOUT))} / {len(cat(parts, STDERR))}; exit status {rc}')
    fs.close()


def c05(w, deep):
    rng = w.rng
    port = free_port()
    d = w.dir()
    sv = Server(w, f"baseDirectory = .\nconnectTimeoutMs = 20000\n[srv:{port}]\nexit {w.probe} exit\nsig {w.probe} signal\nsleep {w.probe} sleep\nclosed {w.probe} closed\nmissing /nonexistent/program\n", port=port, cwd=d)
    codes = list(range(256)) if deep else [0, 1, 2, 127, 128, 200, 254, 255]
    for c in codes:
        s = Session(port)
        s.send(request(b'', [b'%d' % c], [], b'exit'))
        ms, rest = finish(s, f'exit {c}')
        s.close()
        w.count(('exit', c), f'exit status {c}')
        if [x for k, x in ms if k == EXITC] != [c]:
            raise Fail('exit-status', f'the command exits with {c}: the server sends {show(ms)}')
    for g in (9, 15, 6, 11) if deep else (9, 15):
        s = Session(port)
        s.send(request(b'', [b'%d' % g], [], b'sig'))
        ms, rest = finish(s, f'signal {g}')
        s.close()
        w.count(('signal', g), f'command killed by signal {g}')
        if any(k == EXITC for k, _ in ms):
            raise Fail('killed', f'the command is killed by signal {g}: the server reports {show(ms)}')
    for ms_, c in ((400, 3), (50, 77)):
        for name in (b'sleep', b'closed'):
            s = Session(port)
            s.send(request(b'', [b'%d' % ms_, b'%d' % c], [], name))
            m, rest = finish(s, 'slow command')
            s.close()
            w.count((name, ms_))
            if [x for k, x in m if k == EXITC] != [c]:
                raise Fail('exit-status', f'the command ({name}) exits with {c} after {ms_} ms: the server sends {show(m)}')
    # a command that is stopped and continued
    for sig in ((signal.SIGSTOP, signal.SIGTSTP) if deep else (signal.SIGSTOP,)):
        before = set(children(sv.p.pid))
        s = Session(port)
        s.send(request(b'', [b'700', b'9'], [], b'sleep'))
        pid = []

        def found():
            for k in set(children(sv.p.pid)) - before:
                for g in [k] + children(k):
                    try:
                        if b'sleep' in open(f'/proc/{g}/cmdline', 'rb').read().split(b'\0'):
                            pid[:] = [g]
                    except OSError:
                        pass
            return bool(pid)
        if until(found, 0.6):
            os.kill(pid[0], sig); time.sleep(0.3); os.kill(pid[0], signal.SIGCONT)
        m, rest = finish(s, 'a command that is stopped and continued')
        s.close()
        w.count(('stopped', sig), f'command stopped by {sig} and continued: {bool(pid)}')
        if [x for k, x in m if k == EXITC] != [9]:
            raise Fail('exit-status', f'a command is stopped ({sig}) and continued and exits with 9: the server sends {show(m)}')
    for argv, want in ((['exit', '0'], 0), (['exit', '42'], 42), (['exit', '255'], 255), (['sig', '9'], None), (['missing'], None)):
        p = client(w, d, [w.k] + argv, d + '/k8psh.conf')
        rc, o, e = ended(p, str(argv))
        w.count(tuple(argv))
        if rc != want if want is not None else rc >= 0:
            raise Fail('client-exit', f'{argv} run through server and client: the client exits with {rc}')
    # more standard input than anybody reads
    for i in range(24 if deep else 12):
        y = subprocess.Popen(['yes'], stdout=subprocess.PIPE, preexec_fn=w.demote)
        p = client(w, d, [w.k, 'exit', '3'], d + '/k8psh.conf', stdin=y.stdout)
        y.stdout.close()
        rc, o, e = ended(p, 'endless standard input')
        y.kill(); y.wait()
        w.count(('yes', i), 'endless standard input to a command that does not read it')
        if rc != 3:
            raise Fail('endless-input', f'the command exits with 3 without reading its endless standard input: the client ends with {rc}, {e[-200:]}')
    sv.stop()
    fs = FakeServer()
    conf = w.file(d + '/c.conf', f'baseDirectory = .\nconnectTimeoutMs = 20000\n[srv:{fs.port}]\ncmd\n')
    for data, want in [(msgv(EXITC, c), c) for c in (0, 1, 128, 255)] + [(b'', None), (msg(STDOUT, b'x'), None), (msg(STDOUT) + msg(STDERR), None), (msgv(EXITC, 0)[:4], None), (msg(STDOUT, b'abc') + msgv(EXITC, 7) + msgv(EXITC, 9), 7), (b'\x09\0\0\0\0', None), (msg(STDOUT) + msg(STDOUT, b'late') + msgv(EXITC, 0), None)]:
        for kill in (False, True):
            p = client(w, d, [w.k, 'cmd'], conf)
            s = fs.accept()
            if s is None:
                raise Fail('no-connection', 'the client does not connect')
            s.recv(started)
            if not (kill and want is not None):
                s.send(data)
            if kill:
                s.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            s.close()
            rc, o, e = ended(p, f'answer {data}')
            w.count((data, kill), f'answer {data}, then {"reset" if kill else "end"} of the connection')
            exp = None if kill else want
            if rc != exp if exp is not None else rc >= 0:
                raise Fail('client-status', f'the server answers {data} and then {"resets" if kill else "closes"} the connection: the client exits with {rc}, expected {"no normal exit" if exp is None else exp}')
    fs.close()


def c06(w, deep):
    rng = w.rng
    port = free_port(2)
    d = w.dir()
    for x in ('base', 'base/sub', 'base/sub/deep', 'base/a b', 'elsewhere'):
        os.mkdir(f'{d}/{x}'); w.own(f'{d}/{x}')
    conf = f"baseDirectory = {q(d + '/base')}\n[srv:{port}]\ndump {w.probe} dump {q(d + '/out')} 'fixed 1' '' two\n[remote:{port + 1}]\nother {w.probe} dump {q(d + '/out')} other\n"
    os.mkdir(d + '/base/locked'); os.mkdir(d + '/base/locked/in'); w.own(d + '/base/locked/in'); w.own(d + '/base/locked'); os.chmod(d + '/base/locked', 0)
    w.file(d + '/base/sub/file', 'x')
    os.symlink('loop', d + '/base/loop')
    sv = Server(w, conf, port=port, cwd=d + '/elsewhere')
    out = d + '/out'

    def go(data, what, keep=False):
        if os.path.exists(out):
            os.unlink(out)
        s = Session(port)
        s.send(data)
        if not keep:
            ms, rest = finish(s, what)
        else:
            ms, rest = s.recv(limit=1)
        s.close()
        return ms, dump(out, 0.05)
    for i in range(14 if deep else 7):
        args = [bytes(rng.randint(1, 255) for _ in range(rng.choice([0, 1, 5, 40]))) for _ in range(rng.randint(0, 5))]
        if i < 4:
            args = [[w.probe.encode(), b'dump', b''], [b'dump', out.encode()], [b'', b'', b''], [b'fixed 1', b'', b'two']][i]
        wd = rng.choice([b'', b'sub', b'sub/deep', b'a b', b'.', b'sub/../sub'])
        ms, r = go(request(wd, args, [], b'dump'), 'request')
        w.count(('args', i), f'arguments {show(args)} in {wd}')
        want = [w.probe.encode(), b'dump', out.encode(), b'fixed 1', b'', b'two'] + args
        if r is None or r['arg'] != want:
            raise Fail('arguments', f'request with arguments {show(args)}: the command ran as {show(r and r["arg"])}, expected {show(want)}; answer {show(ms)}')
        wantd = os.path.normpath(f'{d}/base/{wd.decode()}').encode()
        if r['cwd'] != wantd:
            raise Fail('directory', f'request with directory {wd}: the command ran in {r["cwd"]}, expected {wantd}')
        fds = r['fd']
        kinds = {(n, k) for n, k, _, _ in fds}
        if not {(0, 'pipe'), (1, 'pipe'), (2, 'pipe')} <= kinds or len({i for n, k, i, a in fds if n < 3}) != 3 or [a for n, k, i, a in sorted(fds) if n < 3] != ['r', 'w', 'w']:
            raise Fail('streams', f'the standard streams of the command are {fds[:5]}, expected the ends of three different pipes')
        if any(k == 'socket' and n > 2 for n, k, i, a in fds):
            raise Fail('connection-inherited', f'the command inherits a socket: {fds}')
        stdin_id = [i for n, k, i, a in fds if n == 0][0]
        if any(i == stdin_id and a == 'w' for n, k, i, a in fds):
            raise Fail('stdin-writer', f'the command inherits the writing end of its own standard input: {fds}')
    for data, what in [(request(b'', [], [], b'nope'), 'unknown command'), (request(b'', [], [], b'other'), 'command of another server'), (request(b'', [], [], b''), 'empty command name'), (request(b'', [], [], b'dump\0'), 'command name with a NUL'),
                       (request(b'', [], [], w.probe.encode()), 'a path as command'), (request(b'missing', [], [], b'dump'), 'directory that does not exist'), (request(b'sub/file/x', [], [], b'dump'), 'directory that does not exist'), (request(b'sub/file', [], [], b'dump'), 'directory that is a file'), (request(b'locked', [], [], b'dump'), 'directory that may not be entered'), (request(b'locked/in', [], [], b'dump'), 'directory inside one that may not be entered'),
                       (request(b'loop', [], [], b'dump'), 'directory that is a circular link'), (request(b'sub/' + b'n' * 300, [], [], b'dump'), 'directory with a name that is too long'), (msg(WD, b'') + msg(7) + msg(START, b'dump'), 'terminate before start'),
                       (msg(9, b'') + request(b'', [], [], b'dump'), 'unknown kind of message'), (msg(STDIN, b'abc') + request(b'', [], [], b'dump'), 'standard input before the start'), (msgv(255, 0) + msg(START, b'dump'), 'unknown kind of message'), (msg(STDOUT, b'q') + msg(START, b'dump'), 'output before the start')]:
        ms, r = go(data, what)
        w.count(what, what)
        if r is not None or any(k == EXITC for k, _ in ms) and 'directory' not in what:
            raise Fail('started', f'{what}: a command was started as {r and r["arg"]} in {r and r["cwd"]}; answer {show(ms)}')
    sv.stop()
    os.chmod(d + '/base/locked', 0o755)
    # a relative base directory, and a command without a path
    w.file(d + '/base/sub/runme', f'#!/bin/sh\nexec {w.probe} dump {d}/out local\n', 0o755)
    os.mkdir(d + '/path'); w.own(d + '/path')
    w.file(d + '/path/onpath', f'#!/bin/sh\nexec {w.probe} dump {d}/out "$@"\n', 0o755)
    port = free_port()
    sv = Server(w, f"baseDirectory = base\n[srv:{port}]\nonpath\nrunme\n", port=port, cwd=d, env={'PATH': d + '/path:/usr/bin:/bin'})
    for name, args, want in ((b'onpath', [b'a', b'b'], [b'a', b'b']), (b'runme', [], [b'local'])):
        if os.path.exists(out):
            os.unlink(out)
        s = Session(port)
        s.send(request(b'sub', args, [], name))
        ms, rest = finish(s, 'request'); s.close()
        r = dump(out, 0.05)
        w.count(name)
        if r is None and name == b'onpath':
            continue        # PATH is not configured for the command: whether it is found is up to the system
        if r is None or r['arg'][3:] != want or r['cwd'] != (d + '/base/sub').encode():
            raise Fail('relative', f'command {name} in sub of the relative base directory: ran {show(r)}; answer {show(ms)}')
    sv.stop()


def subst(v, ov, env):
    def get(n):
        if ov.get(n) is not None:
            return ov[n]
        if n in ov and ov[n] is None:
            return env.get(n)
        return env.get(n)
    return re.sub(r'\$\{([A-Za-z0-9_]+)(?::-([^}]*))?\}', lambda m: get(m.group(1)) if get(m.group(1)) is not None else (m.group(2) or ''), v)


def c07(w, deep):
    rng = w.rng
    d = w.dir()
    for i in range(24 if deep else 9):
        port = free_port()
        pool = ['A', 'B', 'CC', 'D', 'E_1', 'F']
        cfg, seenn = [], set()
        for _ in range(rng.randint(0, 7)):
            n = rng.choice(pool)
            kind = rng.choice(['', '?', '='])
            dv = rng.choice(['', '', 'dflt', '${A}', 'x${B:-nob}y', '${CC}${D:-d}', '$A', 'p=q'])
            cfg.append((kind, n, dv))
        if i == 0:
            cfg = [('', 'A', ''), ('?', 'B', ''), ('=', 'CC', ''), ('=', 'D', 'fixed'), ('', 'E_1', 'dflt'), ('?', 'F', '${D}')]
        if i == 1:
            cfg = [('=', 'A', 'fixed'), ('', 'A', 'other'), ('?', 'B', '${A}'), ('=', 'B', '${B}:.')]
        senv = {n: 'srv-' + n for n in pool if rng.random() < .5}
        senv['SECRET'] = 'leak'
        senv['PATH'] = '/usr/bin:/bin'
        cl = [(n, rng.choice(['cl-' + n, '', 'a=b', '${A}', 'two words'])) for n in pool + ['EVIL', 'LD_PRELOAD_X', '=A', '?B'] if rng.random() < .5]
        split = rng.randint(0, len(cfg))
        conf = f"baseDirectory = .\n[srv:{port}] {' '.join(q(k + n + '=' + v) for k, n, v in cfg[:split])}\ndump {' '.join(q(k + n + '=' + v) for k, n, v in cfg[split:])} {w.probe} dump\n"
        out = f'{d}/o{i}'
        sv = Server(w, conf, port=port, cwd=w.dir(), env=senv)
        s = Session(port)
        s.send(request(b'', [out.encode()], [f'{n}={v}'.encode() for n, v in cl], b'dump'))
        finish(s, 'request'); s.close()
        sv.stop()
        r = dump(out, 0.05)
        # what is allowed
        got = dict(cl)
        vals, names = {}, []
        cdict = {}
        for n, v in cl:
            cdict[n] = v
        for k, n, v in cfg:
            if k == '=':
                vals[n] = senv.get(n) if v == '' else subst(v, vals, senv)
            elif n in cdict:
                vals[n] = cdict[n]
            elif v == '' and k == '?':
                vals[n] = vals[n] if vals.get(n) is not None else senv.get(n)
            else:
                vals[n] = subst(v, vals, senv)
        want, done = [], set()
        for k, n, v in cfg:
            if n not in done and vals.get(n) is not None:
                want.append(f'{n}={vals[n]}'.encode()); done.add(n)
        w.count(('env', i), f'configured {cfg} sent {cl} server {senv}')
        if r is None or sorted(r['env']) != sorted(want):
            raise Fail('environment', f'configured variables {cfg}, server environment {senv}, client sends {cl}: the command\'s environment is {r and r["env"]}, expected {want}')


def ls(d):
    return sorted(f for f in os.listdir(d) if f not in ('k8psh.conf', 'server.err'))


def c13(w, deep):
    def setup(extra='', existing=(), local='srv'):
        d = w.dir()
        x = d + '/x'
        os.mkdir(x); w.own(x)
        for e in existing:
            w.file(f'{x}/{e}', 'old ' + e)
        port = free_port(2)
        conf = f"baseDirectory = .\n[srv:{port}]\nloc1 {w.probe} exit\nloc2 {w.probe} wait\n[far:{port + 1}] \nfar1 /bin/true\nfar2 /bin/true\n"
        return d, x, port, conf

    def check(x, want, what, sv):
        if ls(x) != sorted(want):
            raise Fail('executables', f'{what}: the directory contains {ls(x)}, expected {sorted(want)}; log {sv.log()[-500:]}')
        for f in want:
            p = f'{x}/{f}'
            if f in ('far1', 'far2', 'loc1', 'loc2') and not (os.path.islink(p) and os.path.realpath(p) == os.path.realpath(w.k)):
                raise Fail('executable-link', f'{what}: {f} is not a link to the program: {os.path.islink(p) and os.readlink(p)}')
    cases = [([], ['far1', 'far2'], []), (['-l'], ['far1', 'far2', 'loc1', 'loc2'], []), (['-d'], [], []), (['-k'], ['far1', 'far2'], ['far1', 'far2']), (['-l', '-k'], ['far1', 'far2', 'loc1', 'loc2'], ['far1', 'far2', 'loc1', 'loc2']), (['-d', '-l'], [], [])]
    for how in ('signal', 'max') if not deep else ('signal', 'max', 'timeout', 'error'):
        for opts, during, after in cases:
            d, x, port, conf = setup()
            a = ['-e', x] + opts + {'max': ['-m', '1'], 'timeout': ['-t', '600']}.get(how, [])
            sv = Server(w, conf, a, port=port, cwd=d, fail='poll:0:0:0' if how == 'error' else None)
            until(lambda: ls(x) == sorted(during), 2)
            what = f'options {a}'
            if how != 'timeout':
                check(x, during, what + ' while the server runs', sv)
            if how == 'max':
                s = Session(port); s.send(request(b'', [b'3'], [], b'loc1')); finish(s, what); s.close()
            elif how in ('signal', 'error'):
                time.sleep(0.05)
                sv.p.send_signal(signal.SIGTERM if how == 'signal' else signal.SIGINT)
            if sv.wait() is None:
                raise Fail('no-end', what + f': the server does not end ({how})')
            check(x, after, what + f' after the server has ended ({how})', sv)
            w.count((how, tuple(opts)), f'options {opts}, ended by {how}')
    # existing files are not replaced, and only what was created is removed
    for ex, o in ((['far1'], []), (['far2'], ['-k']), (['far1', 'far2'], []), (['other'], []), (['far1'], ['-k']), (['loc2'], ['-l']), (['loc1', 'far2'], ['-k', '-l']), (['loc1', 'loc2'], [])):
        d, x, port, conf = setup(existing=ex)
        sv = Server(w, conf, ['-e', x, '-m', '0'] + o, port=port, cwd=d, wait=False)
        rc = sv.wait()
        w.count(('existing', tuple(ex), tuple(o)), f'existing files {ex}, options {o}')
        if not any('far' in e for e in ex) and '-l' not in o:
            if rc != 0 or ls(x) != sorted(ex) or any(open(f'{x}/{e}').read() != 'old ' + e for e in ex):
                raise Fail('existing', f'existing files {ex} that are none of the executables to create: afterwards the directory contains {ls(x)}, exit status {rc}')
            continue
        kept = [f for f in ls(x) if f not in ex] if '-k' in o else []
        if any(os.path.islink(f'{x}/{e}') or open(f'{x}/{e}').read() != 'old ' + e for e in ex if os.path.exists(f'{x}/{e}')) or ls(x) != sorted(ex + kept):
            raise Fail('existing', f'existing {ex} in the executable directory, no option to overwrite: afterwards the directory contains {ls(x)}, exit status {rc}')
        if rc == 0:
            raise Fail('existing-ok', f'existing {ex}: the server ends with success')
    d, x, port, conf = setup(existing=['far1', 'loc1', 'other'])
    sv = Server(w, conf, ['-e', x, '-o'], port=port, cwd=d)
    until(lambda: 'far2' in ls(x), 5)
    if not os.path.islink(x + '/far1'):
        raise Fail('overwrite', 'with --overwrite-client-executables an existing far1 is not replaced')
    sv.p.send_signal(signal.SIGTERM); sv.wait()
    w.count('overwrite')
    if 'other' not in ls(x) or 'far1' in ls(x) or 'far2' in ls(x):
        raise Fail('overwrite-end', f'after a server with -o has ended the directory contains {ls(x)}')
    # the server ends by an error
    for fail in ('poll:12:0:1', 'poll:22:1:1', 'accept:9:0:1', 'accept:22:1:1'):
        for o in ([], ['-k'], ['-l']):
            d, x, port, conf = setup(existing=['other'])
            sv = Server(w, conf, ['-e', x] + o, port=port, cwd=d, fail=fail, wait=False)
            until(lambda: sv.p.poll() is not None or listening(port) and len(ls(x)) > 2, 5)
            for _ in range(3):
                try:
                    s = Session(port); s.send(request(b'', [b'1'], [], b'loc1')); s.recv(limit=5); s.close()
                except (Fail, OSError):
                    pass
                if sv.wait(0.3) is not None:
                    break
            r = sv.wait()
            w.count(('error', fail, tuple(o)), f'options {o}, injected failure {fail}')
            want = sorted(['other'] + (['far1', 'far2'] if '-k' in o else []))
            if r is None or r == 0 or ls(x) != want:
                raise Fail('executables-error', f'options {o}, the server fails by {fail} (call:errno:nth): exit status {r}, the directory contains {ls(x)}, expected {want}')
    # other names and numbers of commands
    for n in range(8):
        d = w.dir(); x = d + '/x'; os.mkdir(x); w.own(x)
        port = free_port(3)
        names = w.rng.sample(['a', 'b', 'cc', 'gcc', 'make', 'test', 'run-it', 'x_1', 'Y', 'zzz', 'é', 'longer name'], w.rng.randrange(2, 8))
        at = {c: w.rng.choice(['srv', 'srv', 'far', 'Srv']) for c in names}
        at[names[0]] = 'srv'
        conf = 'baseDirectory = .\n' + ''.join(f'[{h}:{port + i}]\n' + ''.join(f"'{c}' {w.probe} exit\n" for c in names if at[c] == h) for i, h in enumerate(('srv', 'far', 'Srv')) if h in at.values())
        local = n % 3 == 2
        want = [c for c in names if local or at[c] != 'srv']
        sv = Server(w, conf, ['-e', x] + (['-l'] if local else []), port=port, cwd=d)
        until(lambda: ls(x) == sorted(want), 2)
        w.count(('names', tuple(names)), f'commands {at}')
        check(x, want, f'configuration\n{conf}', sv)
        sv.p.send_signal(signal.SIGTERM); sv.wait()
        check(x, [], f'configuration\n{conf}after the end of the server', sv)
    # sessions that end by an error leave everything in place
    d, x, port, conf = setup()
    sv = Server(w, conf, ['-e', x], port=port, cwd=d)
    for data in (b'', b'\x09\0\0\0\0', request(b'', [], [], b'nope'), request(b'nowhere', [b'1'], [], b'loc1'), request(b'', [b'1'], [], b'loc1')[:-2]):
        s = Session(port); s.send(data); s.s.shutdown(socket.SHUT_WR); finish(s, 'broken session'); s.close()
        time.sleep(0.05)
        w.count(('session', data), f'session with request {data}')
        check(x, ['far1', 'far2'], f'after a session with the request {data}', sv)
    sv.p.send_signal(signal.SIGTERM); sv.wait()
    check(x, [], 'after the end of the server', sv)
    # some have been removed or replaced by somebody else meanwhile
    for gone in (['far1'], ['far2'], ['loc1'], ['far1', 'loc1', 'loc2']):
        d, x, port, conf = setup()
        sv = Server(w, conf, ['-e', x, '-l'], port=port, cwd=d)
        until(lambda: len(ls(x)) == 4, 5)
        for g in gone:
            os.unlink(f'{x}/{g}')
        sv.p.send_signal(signal.SIGTERM); sv.wait()
        w.count(('gone', tuple(gone)), f'{gone} removed while the server runs')
        check(x, [], f'{gone} were removed while the server ran: after its end', sv)
    # no commands to serve: executables stay
    d, x, port, conf = setup()
    for opts in ([], ['-k'], ['-o']):
        sv = Server(w, conf, ['-e', x] + opts, port=port, cwd=d, name='nobody', wait=False)
        rc = sv.wait()
        w.count(('nobody', tuple(opts)))
        if opts == []:
            if rc != 0:
                raise Fail('nobody', f'a server without commands ends with {rc}: {sv.log()}')
        check(x, ['far1', 'far2', 'loc1', 'loc2'], f'a server without commands of its own, options {opts}', sv)


def c14(w, deep):
    def run(conf_opts, args, existing=(), wait=True, env=None, name='srv', dirs=('A', 'B', 'A=B', '=', '-k'), tail=''):
        d = w.dir()
        for x in dirs:
            os.mkdir(f'{d}/{x}'); w.own(f'{d}/{x}')
        for e in existing:
            w.file(f'{d}/{e}', 'old')
        port = free_port(2)
        conf = f"baseDirectory = .\n[srv:{port}] {conf_opts}\nloc {w.probe} exit\n[far:{port + 1}]\nfar /bin/true\n" + tail
        sv = Server(w, conf, args, port=port, cwd=d, name=name, wait=False, env=env)
        rc = sv.wait(12) if wait else None
        return d, sv, rc, port
    tree = lambda d: sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs if f not in ('k8psh.conf', 'server.err'))
    ok = []

    def expect(what, got, want, sv):
        w.count(what, str(what))
        if got != want:
            raise Fail('option', f'{what}: {got}, expected {want}; log: {sv.log()[-600:]}')
    forms = lambda s, l, v: [[s, v], [l, v], [l + '=' + v]]
    # (configuration options, command line options, files afterwards)
    K = ['-m', '0', '-k']
    tests = []
    for f in forms('-e', '--executable-directory', 'A'):
        tests.append(('', K + f, ['A/far'], 0)); tests.append((' '.join(f) + ' -m 0 -k', [], ['A/far'], 0))
    for f in forms('-m', '--max-connections', '0'):
        tests.append(('', f + ['-k', '-e', 'A'], ['A/far'], 0)); tests.append((' '.join(f), ['-k', '-e', 'A'], ['A/far'], 0))
    for f in forms('-t', '--timeout', '0'):
        tests.append(('', f + ['-k', '-e', 'A'], ['A/far'], 0)); tests.append((' '.join(f), ['-k', '-e', 'A'], ['A/far'], 0))
    for f in ('-k', '--keep-client-executables'):
        tests.append(('', ['-m', '0', '-e', 'A', f], ['A/far'], 0)); tests.append((f, ['-m', '0', '-e', 'A'], ['A/far'], 0))
    tests.append(('', ['-m', '0', '-e', 'A'], [], 0))
    for f in ('-l', '--generate-local-executables'):
        tests.append(('', K + ['-e', 'A', f], ['A/far', 'A/loc'], 0)); tests.append((f, K + ['-e', 'A'], ['A/far', 'A/loc'], 0))
    for f in ('-d', '--disable-client-executables'):
        tests.append(('', K + ['-e', 'A', f], [], 0)); tests.append((f, K + ['-e', 'A'], [], 0))
    # the command line wins
    tests += [('-e A -m 0 -k', ['-e', 'B'], ['B/far'], 0), ('--executable-directory=A', ['--executable-directory', 'B'] + K, ['B/far'], 0), ('-m 7 -e A -k', ['-m', '0'], ['A/far'], 0), ('-t 60000 -e A -k', ['--timeout=0'], ['A/far'], 0),
              ('-m 0 -e A -k', ['--no-wait'], ['A/far'], 0)]
    # values that look odd
    tests += [('', ['-e', 'A', '-m', '0', '-k', '--pidfile', '-b'], ['A/far'], 0), ('', ['--executable-directory=A', '--max-connections=0', '--keep-client-executables'], ['A/far'], 0)]
    tests += [('', K + f, ['A=B/far'], 0) for f in forms('-e', '--executable-directory', 'A=B')] + [(' '.join(q(x) for x in f) + ' -m 0 -k', [], ['A=B/far'], 0) for f in forms('-e', '--executable-directory', 'A=B')] + [('', K + ['--executable-directory=='], ['=/far'], 0), ('', ['-m', '0', '-e', '-k', '-k'], ['-k/far'], 0)]
    # missing values, unknown options
    bad = [('', ['-e', 'A', '-m'], None), ('', K + ['-e'], None), ('', K + ['--timeout'], None), ('', K + ['--pidfile'], None), ('', K + ['--config'], None), ('', K + ['-n'], None), ('-m 0 -k -e', ['A'], None), ('-m 0 -k -e', ['-l'], None), ('-k -e A -m', ['0'], None), ('-k -e A --max-connections', ['-m', '0'], None), ('-m 0 -t', ['-e', 'A'], None), ('-m 0 -p', ['-k', '-e', 'A'], None),
           ('', K + ['-e', 'A', '--unknown'], None), ('', K + ['-e', 'A', 'word'], None), ('--unknown', K + ['-e', 'A'], None), ('word', K + ['-e', 'A'], None), ('', ['-e', 'A', '-m', 'x'], None), ('', ['-e', 'A', '-t', 'x'], None), ('', K + ['-e', 'A', '--keep-client-executable'], None), ('', K + ['-e', 'A', '--executable-directoryB'], None)]
    tests += [('', ['-i'] + K + ['-e', 'A', '--unknown', 'word'], ['A/far'], 0), ('', ['--ignore-invalid-arguments'] + K + ['-e', 'A', 'word'], ['A/far'], 0), ('--ignore-invalid-arguments --unknown word', K + ['-e', 'A'], ['A/far'], 0), ('-i --unknown', K + ['-e', 'A'], ['A/far'], 0), ('word', ['-i'] + K + ['-e', 'A'], ['A/far'], 0)]
    # options are not recognized by a part of them, or with their value attached
    odd = ['-t5', '-m0', '-eA', '-mm', '--timeout5', '--timeoutX5', '--timeout:5', '--time=5', '--max-connections0', '--maxconnections=0', '--pidfileX', '-bk', '-kl', '--no-waits', '--keep-client-executables=', '-k=1', '-', '--', '-t=5', '']
    if not deep:
        odd = odd[:8] + w.rng.sample(odd[8:], 5)
    bad += [('', ['-e', 'A', o] + z + K, None) for o in odd for z in ([], ['0'])] + [(o, K + ['-e', 'A'], None) for o in w.rng.sample(odd, len(odd) if deep else 5) if o and (o.startswith('--') or '=' not in o)]
    # empty values; switches given more than once, in the configuration and on the command line
    more = [('', K + ['-e', 'A', '--pidfile='], ['A/far'], 0), ('', K + ['-e', 'A', '--pidfile', ''], ['A/far'], 0), ('--pidfile=', K + ['-e', 'A'], ['A/far'], 0), ('-k', ['-k', '-m', '0', '-e', 'A'], ['A/far'], 0), ('', ['--keep-client-executables'] + K + ['-e', 'A'], ['A/far'], 0), ('-l -k', K + ['-l', '-e', 'A'], ['A/far', 'A/loc'], 0), ('-d', K + ['-d', '-e', 'A'], [], 0), ('-i word', ['-i', 'word'] + K + ['-e', 'A', 'word'], ['A/far'], 0)]
    if not deep:
        tests = tests[:4] + w.rng.sample(tests[4:], min(len(tests) - 4, 34))
    tests += more
    for co, args, files, rc in tests:
        d, sv, r, port = run(co, args)
        if r is None:
            sv.stop()
        expect(f'configuration options "{co}", command line {args}: exit status', r, rc, sv)
        expect(f'configuration options "{co}", command line {args}: executables', [f for f in tree(d)], files, sv)
    for co, args, _ in bad:
        d, sv, r, port = run(co, args)
        if r is None:
            sv.stop()
        expect(f'configuration options "{co}", command line {args}: rejected', r not in (0, None), True, sv)
        expect(f'configuration options "{co}", command line {args}: no executables', [f for f in tree(d) if f.startswith(('A', 'B', '=', '-'))], [], sv)
    # overwrite
    for co, args, want in (('', ['-o'], True), ('', ['--overwrite-client-executables'], True), ('-o', [], True), ('', [], False)):
        d, sv, r, port = run(co, K + ['-e', 'A'] + args, existing=['A/far'])
        expect(f'existing executable, options "{co}" {args}', (os.path.islink(d + '/A/far'), r == 0), (want, want), sv)
    # --no-wait, given once or twice
    for co, args in (('-w', []), ('-w', ['-w']), ('', ['--no-wait', '-w']), ('', [])):
        d = w.dir(); port = free_port()
        sv = Server(w, f"baseDirectory = .\n[srv:{port}] {co}\nwait {w.probe} wait\n", ['-m', '1'] + args, port=port, cwd=d)
        s = Session(port); s.send(request(b'', [f'{d}/go'.encode()], [], b'wait')); s.recv(lambda m: (STDOUT, b'w') in m)
        r = sv.wait(8 if co or args else 0.5)
        open(f'{d}/go', 'w').close(); s.recv(limit=8); s.close()
        expect(f'--no-wait as "{co}" {args}: the server ends while a session runs', r, 0 if co or args else None, sv)
        sv.stop()
    # name and configuration file
    for args, nm, env in ((['-n', 'srv'], None, None), (['--name', 'srv'], None, None), (['--name=srv'], None, None), ([], None, {'K8PSH_NAME': 'srv'}), (['-n', 'srv'], None, {'K8PSH_NAME': 'far'})):
        d, sv, r, port = run('', K + ['-e', 'A'] + args, name=nm, env=env)
        expect(f'name given as {args} {env}', tree(d), ['A/far'], sv)
    for f in forms('-c', '--config', 'other.conf'):
        d = w.dir(); os.mkdir(d + '/A'); w.own(d + '/A')
        port = free_port()
        w.file(d + '/other.conf', f'[srv:{port}]\nloc /bin/true\n[x]\nelsewhere /bin/true\n')
        sv = Server(w, 'nonsense', f + K + ['-e', 'A'], port=port, cwd=d, wait=False)
        r = sv.wait(12)
        expect(f'configuration given as {f}', (r, ls(d + '/A')), (0, ['elsewhere']), sv)


def c15(w, deep):
    def start(args, **kw):
        d = w.dir()
        port = free_port(2)
        conf = f"baseDirectory = .\n[srv:{port}]\nexit {w.probe} exit\nwait {w.probe} wait\n"
        return d, port, Server(w, conf, args, port=port, cwd=d, **kw)

    def one(port, code=3):
        s = Session(port)
        s.send(request(b'', [b'%d' % code], [], b'exit'))
        ms, _ = finish(s, 'session')
        s.close()
        return (EXITC, code) in ms
    for n in (1, 2, 4):
        d, port, sv = start(['-m', str(n)])
        for i in range(n):
            if sv.p.poll() is not None:
                raise Fail('max-early', f'--max-connections {n}: the server ended after {i} connections; {sv.log()}')
            if not one(port):
                raise Fail('max-session', f'--max-connections {n}: session {i + 1} got no exit status')
            if i < n - 1:
                time.sleep(0.15)
        r = sv.wait()
        w.count(('max', n), f'--max-connections {n}')
        if r != 0:
            raise Fail('max-late', f'--max-connections {n}: after {n} connections the server ends with {r}')
    d = w.dir(); port = free_port()
    sv = Server(w, f"baseDirectory = .\n[srv:{port}]\nexit {w.probe} exit\n", ['-m', '0'], port=port, cwd=d, wait=False)
    r = sv.wait(15)
    w.count(('max', 0), '--max-connections 0')
    if r != 0:
        raise Fail('max-zero', f'--max-connections 0: the server ends with {r} (None: not at all)')
    # failed accepts do not count
    for err in (103, 11, 24):
        d, port, sv = start(['-m', '2'], fail=f'accept:{err}:0:3')
        okk = one(port)
        time.sleep(0.1)
        ok2 = sv.p.poll() is None and one(port)
        r = sv.wait()
        w.count(('accept', err), f'accept fails with {err} three times, --max-connections 2')
        if not okk or not ok2 or r != 0:
            raise Fail('accept-counted', f'--max-connections 2, the first three accepts fail with errno {err}: sessions served {okk} {ok2}, exit status {r}; {sv.log()[-300:]}')
    # waiting for the sessions
    for opts in ([], ['-w'], ['-w', '--no-wait']):
        d, port, sv = start(['-m', '2'] + opts)
        ss = []
        for i in range(2):
            s = Session(port); s.send(request(b'', [f'{d}/go{i}'.encode()], [], b'wait')); s.recv(lambda m: (STDOUT, b'w') in m); ss.append(s)
        if opts:
            r = sv.wait()
            if r is None:
                raise Fail('no-wait', '--no-wait with running sessions: the server does not end')
        else:
            time.sleep(0.5)
            if sv.p.poll() is not None:
                raise Fail('not-waited', f'the maximum of connections is reached while sessions run: the server ended with {sv.p.poll()} without waiting')
        open(f'{d}/go0', 'w').close()
        finish(ss[0], 'first session'); ss[0].close()
        time.sleep(0.3)
        if not opts and sv.p.poll() is not None:
            raise Fail('not-waited', 'one of two sessions still runs: the server ended without waiting for it')
        open(f'{d}/go1', 'w').close()
        ms, _ = finish(ss[1], 'session at the end'); ss[1].close()
        if (EXITC, 5) not in ms:
            raise Fail('session-lost', f'a session that is running when the server stops accepting ({opts}) ends with {show(ms)}')
        r = sv.wait()
        w.count(('wait', tuple(opts)), f'sessions running at the end, options {opts}')
        if r != 0:
            raise Fail('end', f'the server ends with {r} after its last session')
    # one of the last sessions ends abnormally, or a child that was stopped, while another still runs
    for how in ('garbage', 'reset', 'unknown', 'killed'):
        d, port, sv = start(['-m', '2'])
        s = Session(port); s.send(request(b'', [f'{d}/go'.encode()], [], b'wait')); s.recv(lambda m: (STDOUT, b'w') in m)
        before = set(children(sv.p.pid))
        b = Session(port)
        time.sleep(0.2)
        if how == 'killed':
            for k in set(children(sv.p.pid)) - before:
                os.kill(k, signal.SIGKILL)
        else:
            b.send({'garbage': b'\x63\0\0\0\0', 'reset': b'\0', 'unknown': request(b'', [], [], b'nope')}[how])
            if how == 'reset':
                b.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        if how != 'reset':
            b.recv(limit=5)
        b.close()
        time.sleep(0.5)
        early = sv.p.poll()
        open(f'{d}/go', 'w').close()
        finish(s, 'the other session'); s.close()
        r = sv.wait()
        w.count(('last', how), f'one of the last two sessions ends: {how}')
        if early is not None or r != 0:
            raise Fail('not-waited', f'the maximum of connections is reached, one of two sessions ends ({how}) and the other still runs: the server ended with {early} at that time, in the end {r}')
    # time
    for t in (500, 0, 1200):
        d = w.dir(); port = free_port()
        sv = Server(w, f"baseDirectory = .\n[srv:{port}]\nexit {w.probe} exit\n", ['-t', str(t)], port=port, cwd=d, wait=False)
        if t == 1200:
            until(lambda: listening(port), 5)
            for _ in range(4):
                one(port)
        r = sv.wait()
        el = time.time() - sv.t0
        w.count(('timeout', t), f'--timeout {t}')
        if r != 0 or el < t / 1000:
            raise Fail('timeout', f'--timeout {t}: the server ended with {r} after {el:.3f} s')
    for t in ('-1', '-500', '9223372036854775807', '9223372036854775', '4000000000', '86400000'):
        d, port, sv = start(['-t', t])
        one(port)
        time.sleep(0.4)
        alive = sv.p.poll() is None
        w.count(('timeout', t), f'--timeout {t}')
        if not alive or not one(port):
            raise Fail('timeout-early', f'--timeout {t}: the server ended with {sv.p.poll()} after {time.time() - sv.t0:.3f} s; {sv.log()[-300:]}')
        sv.stop()
    # the wait for connections is interrupted, or cannot be as long as the timeout
    for a, fail in ((['-m', '2'], 'poll:4:0:3'), (['-m', '2'], 'poll:11:1:3'), (['-m', '2', '-t', '3000000000'], 'poll0:0:0:2'), (['-m', '2', '-t', '9000000000'], 'poll0:0:1:3'), (['-m', '2', '-t', '60000'], 'poll:4:0:2')):
        d, port, sv = start(a, fail=fail)
        r = [sv.p.poll() is None and one(port) for _ in (0, 1)]
        rc = sv.wait()
        w.count(('poll', fail), f'{a} with injected results of poll {fail}')
        if r != [True, True] or rc != 0:
            raise Fail('wait-interrupted', f'options {a}, injected results of poll {fail} (0 is the end of the time poll was given): sessions served {r}, exit status {rc}; {sv.log()[-300:]}')
    for m in ('-1', '-7'):
        d, port, sv = start(['-m', m])
        for _ in range(3):
            if not one(port):
                raise Fail('max-negative', f'--max-connections {m}: a session was not served')
        time.sleep(0.2)
        if sv.p.poll() is not None:
            raise Fail('max-negative', f'--max-connections {m}: the server ended with {sv.p.poll()}')
        w.count(('max', m))
        sv.stop()
    # signals, also while a session runs
    for sig in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        for busy in (False, True, ['-w', '-m', '5'], ['-w', '-t', '60000']):
            d, port, sv = start(['-w'] if busy is True else busy or [])
            s = None
            if busy:
                s = Session(port); s.send(request(b'', [f'{d}/go'.encode()], [], b'wait')); s.recv(lambda m: (STDOUT, b'w') in m)
            else:
                one(port)
            time.sleep(0.1)
            sv.p.send_signal(sig)
            r = sv.wait(8)
            w.count(('signal', sig, str(busy)), f'signal {sig}, session running: {busy}')
            if busy:
                open(f'{d}/go', 'w').close()
                s.recv(limit=5); s.close()
            if r != 0:
                raise Fail('signal', f'signal {sig.name} {f"while a session runs (options {'-w' if busy is True else busy})" if busy else ""}: the server ends with {r} (None: not at all)')


def c16(w, deep):
    d = w.dir()
    port = free_port(2)
    log = d + '/log'
    w.file(log, '', 0o666)
    conf = f"baseDirectory = .\nconnectTimeoutMs = 3000\n[srv:{port}]\nexit {w.probe} exit\n[far:{port + 1}]\nfar /bin/true\n"
    lines = lambda: [l.split() for l in open(log).read().split('\n') if l]

    def scan(what, ports):
        for l in lines():
            if l[0] in ('bind', 'connect', 'sendto') and (l[2] != '127.0.0.1' or int(l[3]) not in ports):
                raise Fail('address', f'{what}: {l[0]} to {l[2]} port {l[3]}; only 127.0.0.1 and the ports {ports} are allowed')
    sv = Server(w, conf, port=port, cwd=d, log=log)
    inode = listening(port)
    if [a for _, a in inode] != ['0100007F']:
        raise Fail('listen-address', f'the server listens on {inode}')
    scan('server', [port])
    w.count('server', 'addresses used by the server')
    w.file(log, '', 0o666)
    p = client(w, d, [w.k, 'exit', '4'], d + '/k8psh.conf', log=log)
    rc, _, _ = ended(p, 'client')
    scan('client', [port])
    if rc != 4:
        raise Fail('client', f'the client exits with {rc}')
    w.count('client', 'addresses used by the client')
    # the client of another host's command
    fs = FakeServer(port + 1)
    w.file(log, '', 0o666)
    p = client(w, d, [w.k, 'far'], d + '/k8psh.conf', log=log)
    s = fs.accept()
    if s is None:
        raise Fail('port', f'the command of the host with port {port + 1}: the client does not connect there: {lines()}')
    s.recv(started); s.send(msgv(EXITC, 0)); ended(p, 'client'); s.close(); fs.close()
    scan('client', [port + 1])
    w.count('far')
    # connecting fails first
    for err in (111, 4, 105):
        p = client(w, d, [w.k, 'exit', '5'], d + '/k8psh.conf', fail=f'connect:{err}:0:2', log=log)
        rc, _, _ = ended(p, 'client')
        w.count(('connect', err), f'connect fails twice with {err}')
        if rc != 5:
            raise Fail('connect-failed', f'connect fails twice with errno {err}, then succeeds: the client exits with {rc}')
    sv.stop()
    for what, end in [(x, e) for x in ('bind:98', 'listen:98', 'bind:13', 'listen:95', 'bind:99', 'bind:22', 'listen:22') for e in (['-t', '300'], ['-m', '0'])]:
        port = free_port()
        dd = w.dir()
        x = dd + '/x'; os.mkdir(x); w.own(x)
        sv = Server(w, f"[srv:{port}]\nc /bin/true\n[f]\nfar /bin/true\n", ['-e', 'x', '-k'] + end, port=port, cwd=dd, wait=False, fail=what + ':0:9')
        r = sv.wait()
        w.count(what, f'{what} fails')
        if r == 0:
            raise Fail('setup-failed', f'{what} (call:errno) fails when the server starts: it ends with success, executables {ls(x)}')


def c17(w, deep):
    data = open(w.k, 'rb').read()
    for i, (kw, pre, expect) in enumerate([({}, None, 'ok'), ({}, b'old', 'ok'), ({'fail': 'link:18:0:9'}, None, 'ok'), ({'fail': 'link:18:0:9'}, b'short', 'ok'), ({'fail': 'link:18:0:9'}, data + b'tail of the old file', 'ok'), ({'fail': 'link:18:0:9'}, b'z' * (len(data) + 8192 * 3), 'ok'),
                                          ({'fail': 'link:18:0:9', 'shim': {'SHIM_READ': '1000'}}, None, 'ok'), ({'fail': 'link:18:0:9', 'shim': {'SHIM_READ': '8191'}}, None, 'ok'), ({'fail': 'link:18:0:9', 'shim': {'SHIM_WRITE': '3'}}, None, 'any'), ({'fail': 'link:18:0:9', 'shim': {'SHIM_WRITE': '0'}}, None, 'any'),
                                          ({'fail': 'link:18:0:9 write:4:2:2'}, None, 'ok'), ({'fail': 'link:18:0:9 read:4:1:2'}, None, 'ok'), ({'fail': 'link:18:0:9 write:28:2:99'}, None, 'bad'), ({'fail': 'link:18:0:9 write:28:0:99'}, None, 'bad'), ({'fail': 'link:18:0:9 read:5:1:99'}, None, 'bad'), ({'fail': 'link:18:0:9 read:5:0:99'}, None, 'bad'),
                                          ({'fail': 'link:18:0:9', 'dir': True}, None, 'bad')]):
        d = w.dir()
        f = d + '/inst'
        if kw.pop('dir', None):
            f = d + '/missing/inst'
        if pre is not None:
            w.file(f, pre)
        for form in ([['--install', f]] if i else [['--install', f], ['--install=' + f]]):
            p = w.spawn([w.k] + form, d, env={'PATH': '/bin'}, **kw)
            rc, o, e = ended(p, '--install')
            got = open(f, 'rb').read() if os.path.exists(f) else None
            w.count((i, len(form)), f'install over {"nothing" if pre is None else f"{len(pre)} bytes"} with {kw}')
            what = f'{form} over {"nothing" if pre is None else f"an existing file of {len(pre)} bytes"} with injected conditions {kw}: exit status {rc}, '
            if rc == 0 and got != data:
                raise Fail('copy-differs', what + f'but the installed file has {len(got or b"")} bytes and differs from the program ({len(data)} bytes)')
            if rc == 0 and expect == 'bad':
                raise Fail('failure-hidden', what + 'although reading or writing failed')
            if rc != 0 and expect == 'ok':
                raise Fail('install-failed', what + e.decode(errors='replace')[-300:])
            if rc == 0 and not os.access(f, os.X_OK) and pre is None:
                raise Fail('not-executable', what + 'not executable')


def children(pid):
    out = []
    for p in glob.glob('/proc/[0-9]*/stat'):
        try:
            f = open(p).read().rsplit(')', 1)[1].split()
            if int(f[1]) == pid:
                out.append(int(p.split('/')[2]))
        except (OSError, IndexError):
            pass
    return out


def fds(pid):
    out = {}
    for f in glob.glob(f'/proc/{pid}/fd/*'):
        try:
            out[int(f.rsplit('/', 1)[1])] = os.readlink(f)
        except OSError:
            pass
    return out


def c19(w, deep):
    d = w.dir()
    port = free_port(2)
    x = d + '/x'; os.mkdir(x); w.own(x)
    sv = Server(w, f"baseDirectory = .\n[srv:{port}]\nexit {w.probe} exit\nwait {w.probe} wait\n[far:{port + 1}]\nfar /bin/true\n", ['-e', 'x'], port=port, cwd=d)

    def fine(what):
        w.count(what, what)
        if sv.p.poll() is not None:
            raise Fail('server-ended', f'{what}: the server ended with {sv.p.poll()}; {sv.log()[-400:]}')
        if ls(x) != ['far']:
            raise Fail('files-removed', f'{what}: the server\'s executables are now {ls(x)}, expected far')
        if not listening(port):
            raise Fail('listener', f'{what}: the server no longer listens')
        s = Session(port); s.send(request(b'', [b'6'], [], b'exit'))
        ms, _ = finish(s, what); s.close()
        if (EXITC, 6) not in ms:
            raise Fail('not-served', f'{what}: the next session got {show(ms)}')
    fine('a normal session')
    # a running session
    s = Session(port); s.send(request(b'', [f'{d}/go'.encode()], [], b'wait')); s.recv(lambda m: (STDOUT, b'w') in m)
    kids = [k for k in children(sv.p.pid)]
    inode = {f'socket:[{i}]' for i, _ in listening(port)}
    if not kids:
        raise Fail('no-process', 'a running session has no process of its own')
    for k in kids:
        if inode & set(fds(k).values()):
            raise Fail('listener-shared', f'the process of a session keeps the listening socket: {fds(k)}')
    est = [v for v in fds(sv.p.pid).values() if v.startswith('socket:') and v not in inode]
    if est:
        raise Fail('connection-kept', f'the server keeps the accepted connection: {fds(sv.p.pid)}')
    fine('while another session runs')
    s2 = Session(port); s2.send(request(b'', [f'{d}/go2'.encode()], [], b'wait')); s2.recv(lambda m: (STDOUT, b'w') in m)
    s.close()       # disconnects in the middle
    time.sleep(0.4)
    fine('after a client disconnected')
    open(f'{d}/go2', 'w').close()
    ms, _ = finish(s2, 'second session'); s2.close()
    if (EXITC, 5) not in ms:
        raise Fail('other-session', f'a session during which another client disconnected ended with {show(ms)}')
    for what, data, rst in [('connection without data', b'', False), ('reset connection', b'', True), ('unknown message', b'\x63\0\0\0\0', False), ('unknown command', request(b'', [], [], b'nope'), False), ('missing directory', request(b'nowhere', [b'1'], [], b'exit'), False), ('half a request', request(b'', [b'1'], [], b'exit')[:20], True),
                            ('huge length', b'\x02\xff\xff\xff\xff', False), ('unknown message after the start', request(b'', [f'{d}/never'.encode()], [], b'wait') + b'\x63\0\0\0\0', False), ('terminate', request(b'', [f'{d}/never'.encode()], [], b'wait') + msg(TERM), False), ('disconnect after the start', request(b'', [f'{d}/never'.encode()], [], b'wait'), True)]:
        s = Session(port)
        s.send(data)
        if rst:
            time.sleep(0.05)
            s.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        else:
            s.s.shutdown(socket.SHUT_WR)
            s.recv(limit=10)
        s.close()
        time.sleep(0.15)
        fine('after a session with ' + what)
    sv.p.send_signal(signal.SIGTERM)
    if sv.wait() is None:
        raise Fail('stuck', 'the server does not end')
    # sessions that outlive their server
    for opts, how in ((['-m', '1', '-w'], 'max'), (['-w'], 'signal'), (['-w', '-t', '700'], 'time'), (['-m', '-1', '-w'], 'signal')):
        d = w.dir()
        port = free_port()
        sv = Server(w, f"baseDirectory = .\n[srv:{port}]\nwait {w.probe} wait\n", opts, port=port, cwd=d)
        s = Session(port); s.send(request(b'', [f'{d}/go'.encode()], [], b'wait')); s.recv(lambda m: (STDOUT, b'w') in m)
        if how == 'signal':
            sv.p.send_signal(signal.SIGTERM)
        r = sv.wait()
        time.sleep(0.05)
        l = listening(port)
        open(d + '/go', 'w').close()
        ms, _ = s.recv(limit=8); s.close()
        w.count(('outlive', tuple(opts)), f'a session that outlives a server with {opts}')
        if l or r != 0:
            raise Fail('listener-shared', f'options {opts}: the server has ended with {r}, its session goes on: the port still listens: {l}')
        if (EXITC, 5) not in ms:
            raise Fail('session-lost', f'options {opts}: the session that outlives the server ended with {show(ms)}')


def c20(w, deep):
    def alive(pid):
        try:
            return open(f'/proc/{pid}/stat').read().rsplit(')', 1)[1].split()[0] != 'Z'
        except OSError:
            return False
    for i, rel in enumerate((False, True)):
        for empty in (False, True):
            d = w.dir()
            port = free_port(2)
            x = d + '/x'; os.mkdir(x); w.own(x)
            pidf = '' if empty else ('p.pid' if rel else d + '/p.pid')
            full = d + '/p.pid'
            sv = Server(w, f"baseDirectory = .\n[srv:{port}]\nexit {w.probe} exit\nwait {w.probe} wait\n[far:{port + 1}]\nfar /bin/true\n", ['-b', '-e', 'x' if rel else x, '-p', pidf], port=port, cwd=d, wait=False)
            r = sv.wait()
            what = f'k8pshd -b -e {"x" if rel else x} -p "{pidf}"'
            w.count((rel, empty), what)
            if r != 0:
                raise Fail('parent', f'{what}: the original process ends with {r}; {sv.log()[-300:]}')
            until(lambda: listening(port))
            ino = listening(port)
            pid = None
            for _ in range(300):
                for p in glob.glob('/proc/[0-9]*'):
                    try:
                        if os.stat(p).st_uid == (w.uid if w.root_user else os.getuid()) and f'socket:[{ino[0][0]}]' in fds(int(p[6:])).values():
                            pid = int(p[6:])
                    except (OSError, IndexError):
                        pass
                if pid and (empty or os.path.exists(full)) and fds(pid).get(2) == '/dev/null':
                    break
                time.sleep(0.02)
            if not pid:
                raise Fail('no-daemon', f'{what}: no process listens on the port; {sv.log()[-300:]}')
            try:
                time.sleep(0.1)
                st = open(f'/proc/{pid}/stat').read().rsplit(')', 1)[1].split()
                if int(st[3]) != pid or int(st[4]) != 0:
                    raise Fail('session', f'{what}: the server (process {pid}) is in session {st[3]} with terminal {st[4]}')
                if os.readlink(f'/proc/{pid}/cwd') != '/':
                    raise Fail('cwd', f'{what}: the server works in {os.readlink(f"/proc/{pid}/cwd")}')
                f = fds(pid)
                if [f.get(k) for k in range(3)] != ['/dev/null'] * 3:
                    raise Fail('streams', f'{what}: standard streams are {[f.get(k) for k in range(3)]}')
                if not empty:
                    got = open(full).read() if os.path.exists(full) else None
                    if got != f'{pid}\n':
                        raise Fail('pid-file', f'{what}: the PID file contains {got!r}, the server is process {pid}')
                s = Session(port); s.send(request(b'', [b'6'], [], b'exit')); ms, _ = finish(s, what); s.close()
                if (EXITC, 6) not in ms:
                    raise Fail('serve', f'{what}: a session with the server in the background got {show(ms)}')
                # a session that ends by an error
                s = Session(port); s.send(b'\x63\0\0\0\0'); s.recv(limit=5); s.close()
                time.sleep(0.1)
                if not empty and not os.path.exists(full):
                    raise Fail('pid-file-session', f'{what}: a broken session removes the PID file')
            finally:
                os.kill(pid, signal.SIGTERM)
            if not until(lambda: not alive(pid), 10):
                os.kill(pid, signal.SIGKILL)
                raise Fail('stop', f'{what}: the server does not stop')
            if os.path.exists(full) or ls(x):
                raise Fail('left', f'{what}: after the server has ended the PID file is {"still there" if os.path.exists(full) else "removed"}, executables {ls(x)}')
    # a PID file that exists
    for content in ('12345\n', ''):
        d = w.dir()
        port = free_port(2)
        x = d + '/x'; os.mkdir(x); w.own(x)
        w.file(d + '/p.pid', content)
        sv = Server(w, f"baseDirectory = .\n[srv:{port}]\nexit {w.probe} exit\n[far:{port + 1}]\nfar /bin/true\n", ['-b', '-e', x, '-p', d + '/p.pid'], port=port, cwd=d, wait=False)
        sv.wait()
        until(lambda: not listening(port), 10)
        time.sleep(0.2)
        w.count(('existing', content), 'an existing PID file')
        got = open(d + '/p.pid').read() if os.path.exists(d + '/p.pid') else None
        if got != content:
            raise Fail('foreign-pid-file', f'an existing PID file with {content!r}: afterwards {got!r}')
        if listening(port):
            raise Fail('runs', 'the PID file exists, but the server runs all the same')
        if ls(x):
            raise Fail('left', f'the PID file exists: executables {ls(x)} are left')
    # the server ends by an error: before it has written the PID file, or afterwards
    for fail in ('write:28:0:1', 'poll:12:0:1', 'poll:22:0:1'):
        d = w.dir()
        port = free_port(2)
        x = d + '/x'; os.mkdir(x); w.own(x)
        sv = Server(w, f"baseDirectory = .\n[srv:{port}]\nexit {w.probe} exit\n[far:{port + 1}]\nfar /bin/true\n", ['-b', '-e', x, '-p', d + '/p.pid'], port=port, cwd=d, wait=False, fail=fail)
        r = sv.wait()
        until(lambda: not listening(port) and not os.path.exists(d + '/p.pid') and not ls(x), 5)
        w.count(('error', fail), f'a server in the background with the injected failure {fail}')
        if os.path.exists(d + '/p.pid') or ls(x) or listening(port):
            left = (ls(d), ls(x), bool(listening(port)))
            raise Fail('left-error', f'-b -p {d}/p.pid, injected failure {fail} (call:errno) in the background process: afterwards there are {left[0]}, executables {left[1]}, listening {left[2]}')
    # without -b nothing is written
    d = w.dir(); port = free_port()
    sv = Server(w, f"[srv:{port}]\nexit {w.probe} exit\n", ['-p', d + '/p.pid'], port=port, cwd=d)
    w.file(d + '/p.pid', 'mine')
    sv.stop()
    w.count('foreground')
    if not os.path.exists(d + '/p.pid'):
        raise Fail('foreign-pid-file', 'a server in the foreground removes a PID file it did not create')


def c22(w, deep):
    d = w.dir()
    for x in ('bin', 'base', 'base/sub', 'conf', 'other'):
        os.mkdir(f'{d}/{x}'); w.own(f'{d}/{x}')
    A, B, C = FakeServer(), FakeServer(), FakeServer()
    mk = lambda path, port, base: w.file(path, f'baseDirectory = {base}\nconnectTimeoutMs = 15000\n[h:{port}]\ncmd /bin/true\nk8pshx /bin/true\n"two words" /bin/true\n')
    mk(d + '/conf/a.conf', A.port, '..'); mk(d + '/conf/b.conf', B.port, '../base'); mk(d + '/base/k8psh.conf', C.port, '.')
    for f in ('conf/a.conf', 'conf/b.conf', 'base/k8psh.conf'):
        with open(f'{d}/{f}', 'a') as h:
            h.write(''.join(f'{n} /bin/true\n' for n in ('k8pshd2', 'k8pshd-tool', 'k8pshdk8pshd', 'xk8pshd', 'k8psh-x', 'xk8psh', 'k8ps', 'K8PSHD', 'K8psh')))
    for n in ('cmd', 'k8pshx', 'two words', 'unknown', 'k8psh.exe', 'k8pshd2', 'k8pshd-tool', 'k8pshdk8pshd', 'xk8pshd', 'k8psh-x', 'xk8psh', 'k8ps', 'K8PSHD', 'K8psh'):
        os.symlink(w.k, f'{d}/bin/{n}')
    tests = [(['bin/cmd'], 'base', {'K8PSH_CONFIG': d + '/conf/a.conf'}, A, 'cmd', 'base'), (['bin/cmd', '-c', 'x'], 'base', {}, C, 'cmd', ''), (['bin/two words'], 'base', {'K8PSH_CONFIG': d + '/conf/b.conf'}, B, 'two words', ''), (['bin/k8pshx'], 'base/sub', {'K8PSH_CONFIG': '../../conf/b.conf'}, B, 'k8pshx', 'sub'),
             (['K', 'cmd'], 'base', {'K8PSH_CONFIG': d + '/conf/a.conf'}, A, 'cmd', 'base'), (['K', '-c', d + '/conf/b.conf', 'cmd', '-c', 'q'], 'base/sub', {'K8PSH_CONFIG': d + '/conf/a.conf'}, B, 'cmd', 'sub'), (['K', '--config', '../conf/b.conf', 'cmd'], 'base', {'K8PSH_CONFIG': '/nonexistent'}, B, 'cmd', ''), (['K', '--config=../conf/a.conf', 'cmd'], 'base', {}, A, 'cmd', 'base'),
             (['K', 'cmd'], 'base', {}, C, 'cmd', ''), (['K', 'k8pshx'], 'base', {}, C, 'k8pshx', '')]
    tests += [(['bin/k8pshx', 'cmd', 'x'], 'base', {}, C, 'k8pshx', ''), (['bin/k8pshx', '--version'], 'base', {}, C, 'k8pshx', ''), (['bin/k8pshx', '--config', d + '/conf/a.conf', 'cmd'], 'base', {}, C, 'k8pshx', ''), (['bin/cmd', '--help'], 'base', {}, C, 'cmd', ''), (['bin/cmd', '-s'], 'base', {}, C, 'cmd', '')]
    tests += [(['bin/' + n] + a, 'base', {}, C, n, '') for n, a in (('k8pshd2', []), ('k8pshd-tool', ['-n', 'h']), ('k8pshdk8pshd', []), ('xk8pshd', []), ('k8psh-x', ['cmd']), ('xk8psh', ['cmd']), ('k8ps', ['cmd']), ('K8PSHD', []), ('K8psh', ['cmd']))]
    for argv, cwd, env, srv, name, wd in tests:
        a = [w.k if argv[0] == 'K' else d + '/' + argv[0]] + argv[1:]
        p = w.spawn(a, d + '/' + cwd, env=env)
        s = None
        t = time.time()
        while s is None and time.time() - t < LONG and p.poll() is None:
            for f in (A, B, C):
                f.l.settimeout(0.02)
                try:
                    c, _ = f.l.accept()
                    s = Session.__new__(Session); s.s, s.buf, s.eof, s.reset = c, b'', False, False
                    who = f
                    break
                except (socket.timeout, TimeoutError):
                    pass
        w.count(tuple(argv), f'{argv} in {cwd} with {env}')
        what = f'{argv} in {cwd} with environment {env}'
        if s is None:
            raise Fail('no-connection', f'{what}: the client does not connect; exit status {p.poll()} {p.stderr.read()[-300:] if p.poll() is not None else ""}')
        ms, _ = s.recv(started)
        s.send(msgv(EXITC, 0)); s.close(); ended(p, what)
        if who is not srv:
            raise Fail('configuration', f'{what}: another configuration is used')
        if (START, name.encode()) not in ms or (WD, wd.encode()) not in ms:
            raise Fail('name', f'{what}: the request is {show(ms)}, expected command {name} in {wd!r}')
    for argv, cwd, env in ((['bin/unknown'], 'base', {}), (['K', 'nope'], 'base', {}), (['K', 'cmd'], 'other', {}), (['K', '-c', 'missing.conf', 'cmd'], 'base', {}), (['bin/cmd'], 'base', {'K8PSH_CONFIG': '/nonexistent/x'}), (['bin/k8psh.exe'], 'base', {}), (['K', '--config'], 'base', {}), (['K'], 'base', {}), (['K', '--config=', 'cmd'], 'base', {'K8PSH_CONFIG': d + '/conf/a.conf'}), (['K', '-c', '', 'cmd'], 'base', {'K8PSH_CONFIG': d + '/conf/a.conf'}), (['K', '-c', 'missing.conf', 'cmd'], 'base', {'K8PSH_CONFIG': d + '/conf/a.conf'}), (['bin/cmd'], 'base', {'K8PSH_CONFIG': ''})):
        a = [w.k if argv[0] == 'K' else d + '/' + argv[0]] + argv[1:]
        p = w.spawn(a, d + '/' + cwd, env=env)
        rc, o, e = ended(p, str(argv))
        w.count(tuple(argv) + (cwd,))
        if rc == 0:
            raise Fail('accepted', f'{argv} in {cwd} with {env}: ends with success')
    # the server's name and configuration
    for argv0, args in ((w.d, []), (w.k, ['--server']), (w.k, ['-s'])):
        dd = w.dir(); os.mkdir(dd + '/x'); w.own(dd + '/x'); os.mkdir(dd + '/etc'); w.own(dd + '/etc')
        port = free_port()
        w.file(dd + '/etc/s.conf', f'[srv:{port}]\na /bin/true\n[z]\nfromenv /bin/true\n')
        sv = Server(w, f'[srv:{port}]\na /bin/true\n[z]\ndefault /bin/true\n', args + ['-n', 'srv', '-m', '0', '-k', '-e', 'x'], port=port, cwd=dd, name=None, argv0=argv0, wait=False, env={'K8PSH_CONFIG': 'etc/s.conf'} if args else {})
        rc = sv.wait()
        w.count((argv0, tuple(args)))
        if rc != 0 or ls(dd + '/x') != (['fromenv'] if args else ['default']):
            raise Fail('server-mode', f'{argv0} {args}: exit status {rc}, executables {ls(dd + "/x")}')
    for f in (A, B, C):
        f.close()


def c23(w, deep):
    d = w.dir()
    log = d + '/log'

    def conf(port, t):
        return w.file(d + '/c.conf', f'baseDirectory = .\nconnectTimeoutMs = {t}\n[h:{port}]\ncmd /bin/true\n')

    def sleeps(t, what):
        ls_ = [list(map(int, l.split()[1:])) for l in open(log).read().split('\n') if l.startswith('sleep')]
        for now, to in ls_:
            if to - now > 1_000_000_000:
                raise Fail('pause', f'{what}: a pause of {(to - now) / 1e9:.3f} s')
            if t >= 0 and to > ls_[0][0] + t * 1_000_000:
                raise Fail('deadline', f'{what}: a pause extends {(to - ls_[0][0]) / 1e6:.0f} ms past the first failure, beyond the timeout of {t} ms')
    for t in (0, 300, 900, 1700) if not deep else (0, 1, 15, 16, 40, 300, 900, 1700, 3100, 5000):
        port = free_port()
        w.file(log, '', 0o666)
        t0 = time.time()
        p = client(w, d, [w.k, 'cmd'], conf(port, t), log=log)
        rc, o, e = ended(p, f'connectTimeoutMs {t}')
        el = time.time() - t0
        w.count(('fails', t), f'connectTimeoutMs {t}, no server')
        if rc == 0 or el * 1000 < t:
            raise Fail('gave-up', f'connectTimeoutMs {t}, no server: the client ends with {rc} after {el:.3f} s')
        sleeps(t, f'connectTimeoutMs {t}')
    for t, delay in ((20000, .4), (-1, .4), (-5, .3), (-9223372036854775808, .2), (-1, 2.5), (9223372036854775807, .3), (9223372036854776, .3), (30000, 1.2)) if not deep else ((20000, .4), (-1, .4), (-1, 4.5), (-5, .2), (9223372036854775807, .3), (9223372036854776, .3), (9223372036854, .3), (30000, 1.2)):
        port = free_port()
        w.file(log, '', 0o666)
        p = client(w, d, [w.k, 'cmd'], conf(port, t), log=log)
        time.sleep(delay)
        if p.poll() is not None:
            raise Fail('gave-up', f'connectTimeoutMs {t}: the client ended with {p.poll()} within {delay} s')
        fs = FakeServer(port)
        s = fs.accept()
        if s is None:
            raise Fail('no-connection', f'connectTimeoutMs {t}, the server appears after {delay} s: the client does not connect')
        s.recv(started); s.send(msgv(EXITC, 3)); s.close()
        rc, o, e = ended(p, 'late server')
        fs.close()
        w.count(('late', t, delay), f'connectTimeoutMs {t}, the server appears after {delay} s')
        if rc != 3:
            raise Fail('late-server', f'connectTimeoutMs {t}, the server appears after {delay} s: the client exits with {rc}')
        sleeps(t if 0 <= t < 10 ** 9 else -1, f'connectTimeoutMs {t}')
    # timeout 0 with a server that is there
    fs = FakeServer()
    p = client(w, d, [w.k, 'cmd'], conf(fs.port, 0))
    s = fs.accept()
    if s is None:
        raise Fail('first-attempt', 'connectTimeoutMs 0 with a server: the client does not connect')
    s.recv(started); s.send(msgv(EXITC, 8)); s.close()
    rc, _, _ = ended(p, 'timeout 0')
    w.count('zero')
    if rc != 8:
        raise Fail('first-attempt', f'connectTimeoutMs 0 with a server: the client exits with {rc}')
    fs.close()


SCEN = {'C01': [c01_server, c01_client, c02, c03_server, c04_server, c04_client], 'C02': [c02], 'C18': [c18, c18_more], 'C03': [c03_server, c03_client, c01_server], 'C04': [c04_server, c04_client, c01_client], 'C05': [c05, c01_client], 'C06': [c06], 'C07': [c07], 'C13': [c13], 'C14': [c14], 'C15': [c15], 'C16': [c16], 'C17': [c17], 'C19': [c19], 'C20': [c20], 'C22': [c22], 'C23': [c23]}


def main():
    pid, seed, budget, src = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    t0 = time.time()
    w = None
    note, evals, seen, samples = '', 0, set(), []
    try:
        w = World(src, seed, pid == 'C18')
        rounds = 0
        while True:
            for f in SCEN[pid]:
                state = w.rng.getstate()
                for again in (False, True):
                    try:
                        f(w, budget >= 200)
                    except Fail as e:
                        if e.id == 'refused' and not again:
                            w.rng.setstate(state)
                            continue
                        print(f'FAIL {e.id}\n{e.text}')
                        return 3
                    except Skip:
                        raise
                    except Exception:
                        print('NOTE the harness could not go on: ' + ' '.join(traceback.format_exc().split())[-600:])
                    break
            rounds += 1
            if time.time() - t0 > budget * 0.6 or rounds >= 10:
                break
            w.rng.seed(seed * 1000 + rounds)
    except Skip as e:
        print('NOTE ' + str(e).replace('\n', ' '))
        return 0
    except Exception as e:
        print('NOTE the harness could not go on: ' + ' '.join(traceback.format_exc().split())[-600:])
        note = 'x'
        return 0
    finally:
        if w:
            print(f'OK {w.cases} {len(w.seen)}')
            for s in w.samples:
                print('SAMPLE ' + s)
            w.close()
    return 0


if __name__ == '__main__':
    sys.exit(main())
