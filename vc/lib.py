"""Model of the C++ standard library and of the system calls the program uses (the trusted interface, see DESIGN.md)."""
import re
from cast import Unsupported
from engine import V, LV, INT, BOOL, CHAR, U8, STR, CPTR, VOID, STREAM, NULLT, I32, U32, I64, U64, paren, neg, conj, ilit, rng

from syslib import Sys, ENUMS

NPOS = 2**64 - 1
NULLCP = 'CP { nn: false, s: Seq::<u8>::empty() }'


class Lib(Sys):
    WORLD = {
        'env': ('raw', 'Map<Seq<u8>, Seq<u8>>'),
        'errno': I32,
        'cwd': STR,
        'fd': ('raw', 'Map<int, Fd>'),          # open descriptors
        'rx': ('raw', 'Map<int, Seq<u8>>'),     # bytes that are still going to be read from a descriptor until its end
        'tx': ('raw', 'Map<int, Seq<u8>>'),     # bytes written to a descriptor so far
        'shared': ('raw', 'Set<int>'),          # sockets another process goes on using
        'broken': ('raw', 'Set<int>'),          # pipes whose reader is gone (a write failed)
        'nb': ('raw', 'Set<int>'),              # descriptors in non-blocking mode
        'sig': ('raw', 'Map<int, int>'),        # signal dispositions: 0 default, 1 ignored, 2 handler
        'session': ('raw', 'bool'),             # this process serves one connection of the server
        'kids': ('raw', 'Set<int>'),            # child processes not yet waited for
        'pid': ('raw', 'int'),
        'forks': ('raw', 'int'),
        'status': ('raw', 'int'),               # how the last process that was waited for ended
        'entered': ('raw', 'Seq<Seq<u8>>'),     # directories changed to
        'leader': ('raw', 'bool'),              # this process has a session of its own
        'environ': ('raw', 'Seq<CP>'),          # environment of programs started from here
        'removed': ('raw', 'Set<Seq<u8>>'),     # files of others that were to be removed
        'made': ('raw', 'Map<Seq<u8>, Seq<u8>>'),    # symbolic links ever created
        'links': ('raw', 'Map<Seq<u8>, Seq<u8>>'),   # those that were not to be removed again
        'feof': ('raw', 'Map<int, bool>'),      # end-of-file state of cin 0, cout 1, cerr 2
        'fout': ('raw', 'Map<int, Seq<u8>>'),   # bytes output to stdout 1 and stderr 2
        'fclosed': ('raw', 'Set<int>'),         # standard streams that were closed
        'clock': ('raw', 'int'),                # monotonic time in nanoseconds
        'started': ('raw', 'int'),              # first reading of the clock, -1 before
        'slept': ('raw', 'int'),                # the latest moment the process slept until
        'conn': ('raw', 'int'),                 # the socket connected last, -1 before
        'peer': ('raw', 'int'),                 # the port it is connected to
        'sess': ('raw', 'Seq<u8>'),             # everything that is going to arrive on it
        'sendfail': ('raw', 'bool'),            # sending on a connection failed
        'nosock': ('raw', 'bool'),              # the system refused to create a socket
        'disk': ('raw', 'Map<Seq<u8>, Seq<u8>>'),   # contents of the files
        'fpath': ('raw', 'Map<int, Seq<u8>>'),  # the file an open descriptor or stream denotes
        'under': ('raw', 'Map<int, Seq<u8>>'),  # what was in a file when it was opened for writing
        'fpos': ('raw', 'Map<int, int>'),       # position of a stream in its file
        'newfiles': ('raw', 'Set<Seq<u8>>'),    # files that came into existence by opening them and were not removed again
        'failed': ('raw', 'bool'),              # the system refused something the program needs
        'exe': STR,                             # the running program
        'host': STR,                            # name of the machine
        'accepted': ('raw', 'int'),             # connections accepted
        'hangup': ('raw', 'bool'),              # the pipe that asks the server to exit was reported closed
        'child': ('raw', 'bool'),               # this process was created by fork
        'until': ('raw', 'int'),                # the latest moment the process waited for events until
    }
    # what holds of the world at the start of every function (see DESIGN.md)
    WORLD_WF = ['{w.exe}.len() < 0x4000_0000 && !{w.exe}.contains(0u8) && ({w.exe}.len() == 0 || is_abs({w.exe}))', '{w.host}.len() < 0x4000_0000 && !{w.host}.contains(0u8)',
                '{w.cwd}.len() < 0x4000_0000 && !{w.cwd}.contains(0u8) && is_abs({w.cwd})']

    def __init__(self, repo):
        self.repo = repo
        self.used = set()

    # ------------------------------------------------------------ helpers
    def args(self, ex, args):
        out = []
        for a in args:
            if a.get('kind') == 'CXXDefaultArgExpr':
                out.append(None)
                continue
            v = ex.ev(a)
            if ex.st is None:
                return None
            out.append(v)
        return out

    def S(self, ex, v):
        """byte sequence denoted by a string-like value"""
        if v.t == STR:
            return ex.rv(v)
        if v.t == CPTR or v.t[0] == 'null':
            return ex.cstr(v)
        if v.t[0] == 'ptr' and v.lv is not None and (v.lv.t == STR or v.lv.t[0] in ('arr', 'vec') and v.lv.t[1] in (CHAR, U8)):
            return ex.cstr(v)
        if v.t in (CHAR, U8):
            return f'seq![{ex.rv(v)}]'
        if v.t[0] == 'struct' and ex.ty.fields(v.t) and ex.ty.fields(v.t)[0] == ('base', STR):
            return self.S(ex, ex.member(v, 'base'))
        raise Unsupported(f'string argument of type {v.t}')

    def I(self, ex, v):
        return ex.toint(ex.load(v)).term

    def setstr(self, ex, obj, term):
        ex.set(obj.lv, term)
        ex.assume(f'{ex.get(obj.lv)}.len() <= MAXLEN()')

    def strv(self, ex, term, name='s'):
        """A new string value (allocation is assumed to succeed)."""
        t = ex.let(name, 'Seq<u8>', term)
        ex.assume(f'{t}.len() <= MAXLEN()')
        return V(STR, t)

    def it(self, lv, kind, term):
        return V(('it', lv, kind), term)

    # ------------------------------------------------------------ names
    def enum_const(self, ex, name):
        tbl = ENUMS
        if name in tbl:
            return V(I32, str(tbl[name]), const=tbl[name])
        raise Unsupported('enumerator ' + name)

    def global_ref(self, ex, r):
        n = r.get('name')
        if n in ('cout', 'cerr', 'cin'):
            return V(STREAM, x=n)
        if n == 'npos':
            return V(U64, str(NPOS), const=NPOS)
        if n in ('stdin', 'stdout', 'stderr'):
            return V(('file',), {'stdin': '0', 'stdout': '1', 'stderr': '2'}[n])
        if n == 'environ':
            return V(('ptr', CPTR), x='environ')
        return None

    # ------------------------------------------------------------ constructors
    def construct(self, ex, t, n, args):
        vs = self.args(ex, args)
        if vs is None:
            return V(VOID)
        vs = [v for v in vs if v is not None]
        # drop allocator arguments
        vs = [v for v in vs if not (v.t[0] == 'opaque')]
        k = t[0]
        if t == STR:
            if not vs:
                return V(STR, 'Seq::<u8>::empty()')
            a = vs[0]
            if len(vs) == 1:
                if a.t[0] == 'initlist':
                    return self.strv(ex, 'seq![' + ', '.join(ex.rv(x) for x in a.x) + ']' if a.x else 'Seq::<u8>::empty()')
                if a.t == STR and a.lv is None:
                    return a
                return V(STR, ex.let('s', 'Seq<u8>', self.S(ex, a)))
            if len(vs) == 2 and a.t[0] == 'int' and vs[1].t == CHAR:
                nn = self.I(ex, a)
                return self.strv(ex, f'Seq::new({paren(nn)} as nat, |i: int| {ex.rv(vs[1])})')
            if len(vs) == 2 and a.t[0] in ('ptr',) and vs[1].t[0] == 'int':
                base = ex.get(a.lv)
                nn = self.I(ex, vs[1])
                ix = a.idx or '0'
                ex.obl('safety', 'string is built from existing bytes', f'0 <= {ix} && {ix} + {nn} <= {base}.len()')
                return self.strv(ex, f'{paren(base)}.subrange({ix}, {ix} + {nn})')
            if len(vs) == 2 and a.t == CPTR and vs[1].t[0] == 'int':
                s = ex.rv(a)
                nn = self.I(ex, vs[1])
                if a.const is not None:
                    full = ex.bytes_term(a.const)
                    ex.obl('safety', 'string is built from existing bytes', f'{nn} <= {full}.len() + 1')
                    return self.strv(ex, f'{full}.push(0u8).subrange(0, {nn})')
                ex.obl('safety', 'string is built from existing bytes', f'{paren(s)}.nn && {nn} <= {paren(s)}.s.len()')
                return self.strv(ex, f'{paren(s)}.s.subrange(0, {nn})')
            if len(vs) == 2 and a.t[0] == 'it' and vs[1].t[0] == 'it':
                lv = a.t[1]
                i, j = ex.rv(a), ex.rv(vs[1])
                ex.obl('safety', 'iterator range is valid', f'0 <= {i} <= {j} <= {ex.get(lv)}.len()')
                return self.strv(ex, f'{ex.get(lv)}.subrange({i}, {j})')
            if a.t == STR and vs[1].t[0] == 'int':
                return self.substr(ex, a, vs[1:])
        if k in ('vec', 'map'):
            if not vs:
                return V(t, ex.ty.default(t))
            if len(vs) == 1:
                a = vs[0]
                if a.t[0] == 'initlist':
                    if k == 'vec':
                        return V(t, ex.let('v', ex.ty.vt(t), ex.initlist(t, a.x)))
                    if not a.x:
                        return V(t, ex.ty.default(t))
                if a.t == t:
                    return V(t, ex.rv(a))
                if k == 'vec' and a.t[0] == 'int':
                    nn = self.I(ex, a)
                    return V(t, ex.let('v', ex.ty.vt(t), f'Seq::new({paren(nn)} as nat, |i: int| {ex.ty.default(t[1])})'))
            if len(vs) == 2 and k == 'vec' and vs[0].t[0] == 'it':
                lv = vs[0].t[1]
                i, j = ex.rv(vs[0]), ex.rv(vs[1])
                ex.obl('safety', 'iterator range is valid', f'0 <= {i} <= {j} <= {ex.get(lv)}.len()')
                return V(t, f'{ex.get(lv)}.subrange({i}, {j})')
            if len(vs) == 2 and k == 'vec' and vs[0].t[0] == 'int':
                return V(t, ex.let('v', ex.ty.vt(t), f'Seq::new({paren(self.I(ex, vs[0]))} as nat, |i: int| {ex.conv(vs[1], t[1])})'))
        if k == 'pair':
            if len(vs) == 2:
                return V(t, ex.let('p', ex.ty.vt(t), f'({self.as_t(ex, vs[0], t[1])}, {self.as_t(ex, vs[1], t[2])})'))
            if len(vs) == 1 and vs[0].t == t:
                return V(t, ex.rv(vs[0]))
            if not vs:
                return V(t, ex.ty.default(t))
        if k == 'sptr':
            if not vs or vs[0].t[0] == 'null':
                return V(t, ex.ty.default(t))
            if vs[0].t == t:
                if vs[0].lv is not None:
                    ex.mark_shared(vs[0])
                return V(t, ex.rv(vs[0]))
        if k == 'dur':
            if vs and vs[0].t[0] == 'int':
                return V(t, self.I(ex, vs[0]), x=('dur',))
            if vs and vs[0].t[0] == 'dur':
                return self.durconv(ex, vs[0], t)
            if not vs:
                return V(t, '0int')
        if k == 'tp':
            if vs and vs[0].t == t:
                return V(t, ex.rv(vs[0]))
        if k == 'itdecl':
            if len(vs) == 1 and vs[0].t[0] == 'it':
                return ex.load(vs[0])
        if k == 'opaque':
            return V(t, '0int')
        if k == 'stream':
            return V(STREAM, x='local')
        if k == 'exc':
            return V(t, '0int')
        if k == 'lambda' and len(vs) == 1:
            return vs[0]
        if k == 'struct' and not vs and t[1] in ('sockaddr_in', 'pollfd'):
            return V(t, ex.ty.default(t) if n.get('zeroing') or n.get('kind') == 'CXXTemporaryObjectExpr' else ex.fresh(t[1], t))
        if k == 'struct' and len(vs) == 1 and vs[0].t == t:
            return V(t, ex.rv(vs[0]))
        r = getattr(self, 'construct_more', None)
        if r is not None:
            v = r(ex, t, n, vs)
            if v is not None:
                return v
        raise Unsupported(f'construction of {t} from {[v.t for v in vs]}')

    def as_t(self, ex, v, t):
        if t == STR:
            return self.S(ex, v)
        if t[0] == 'struct' and t[1] == 'OptionalString' and v.t in (STR, CPTR):
            return f'OptionalString {{ base: {self.S(ex, v)}, _exists: true }}'
        return ex.conv(v, t)

    # ------------------------------------------------------------ strings
    def substr(self, ex, obj, vs):
        s = ex.rv(obj)
        pos = self.I(ex, vs[0]) if vs and vs[0] is not None else '0'
        if pos != '0':
            ex.throw_if(f'{pos} > {paren(s)}.len()')
            if ex.st is None:
                return V(STR, 'Seq::<u8>::empty()')
        if len(vs) > 1 and vs[1] is not None:
            return V(STR, ex.let('sub', 'Seq<u8>', f'ssub({s}, {pos}, {self.I(ex, vs[1])})'))
        return V(STR, ex.let('sub', 'Seq<u8>', f'ssub({s}, {pos}, {NPOS})'))

    def str_method(self, ex, obj, name, vs):
        s = ex.rv(obj)
        ps = paren(s)
        n = len([v for v in vs if v is not None])
        if name in ('length', 'size'):
            return V(U64, f'({ps}.len() as int)')
        if name == 'empty':
            return V(BOOL, f'{ps}.len() == 0')
        if name == 'substr':
            return self.substr(ex, obj, vs)
        if name in ('c_str', 'data'):
            if obj.lv is None:
                obj = V(STR, lv=ex.root_new('tmp', STR, s))
            return V(('ptr', CHAR), lv=obj.lv, idx='0', x=('cstr',))
        if name == 'find':
            pos = self.I(ex, vs[1]) if n > 1 else '0'
            if vs[0].t in (CHAR, U8):
                return V(U64, ex.let('fnd', 'int', f'sfindc({s}, {ex.rv(vs[0])}, {pos})'))
            if isinstance(vs[0].const, list) and len(vs[0].const) == 1:
                return V(U64, ex.let('fnd', 'int', f'sfindc({s}, {vs[0].const[0]}u8, {pos})'))
            return V(U64, ex.let('fnd', 'int', f'sfind({s}, {self.S(ex, vs[0])}, {pos})'))
        if name == 'rfind':
            pos = self.I(ex, vs[1]) if n > 1 else str(NPOS)
            if vs[0].t in (CHAR, U8):
                return V(U64, ex.let('fnd', 'int', f'srfind({s}, seq![{ex.rv(vs[0])}], {pos})'))
            return V(U64, ex.let('fnd', 'int', f'srfind({s}, {self.S(ex, vs[0])}, {pos})'))
        if name in ('back', 'front'):
            ex.obl('safety', f'{name}() of a non-empty string', f'{ps}.len() > 0')
            i = '0' if name == 'front' else f'({ps}.len() - 1)'
            if obj.lv is not None:
                return V(CHAR, lv=obj.lv.at(('c', i), CHAR))
            return V(CHAR, f'at0({s}, {i})')
        if name == 'at':
            i = self.I(ex, vs[0])
            ex.throw_if(f'{i} >= {ps}.len()')
            if ex.st is None:
                return V(VOID)
            return V(CHAR, lv=obj.lv.at(('c', i), CHAR)) if obj.lv is not None else V(CHAR, f'at0({s}, {i})')
        if name in ('begin', 'cbegin'):
            return self.it(obj.lv, 'seq', '0')
        if name in ('end', 'cend'):
            return self.it(obj.lv, 'seq', f'({ps}.len() as int)')
        if name == 'compare':
            if n == 1:
                o = self.S(ex, vs[0])
                r = ex.fresh('cmp', I32)
                ex.assume(f'({r} == 0) == ({s} == {o})')
                return V(I32, r)
            pos, ln = self.I(ex, vs[0]), self.I(ex, vs[1])
            ex.throw_if(f'{pos} > {ps}.len()')
            o = self.S(ex, vs[2]) if n == 3 else None
            if o is not None:
                r = ex.fresh('cmp', I32)
                ex.assume(f'({r} == 0) == (ssub({s}, {pos}, {ln}) =~= {o})')
                return V(I32, r)
        if name == 'reserve':
            return V(VOID)
        if name == 'capacity':
            return V(U64, ex.fresh('capacity', U64))
        if obj.lv is None:
            raise Unsupported('string method on rvalue ' + name)
        # mutators
        if name == 'clear':
            ex.set(obj.lv, 'Seq::<u8>::empty()')
            return V(VOID)
        if name == 'push_back':
            self.setstr(ex, obj, f'{ps}.push({ex.rv(vs[0])})')
            return V(VOID)
        if name == 'pop_back':
            ex.obl('safety', 'pop_back() of a non-empty string', f'{ps}.len() > 0')
            ex.set(obj.lv, f'{ps}.drop_last()')
            return V(VOID)
        if name in ('append', 'assign'):
            add = self.piece(ex, vs)
            if ex.st is None:
                return V(VOID)
            self.setstr(ex, obj, f'{ps} + {paren(add)}' if name == 'append' else add)
            return obj
        if name == 'operator=':
            self.setstr(ex, obj, self.S(ex, vs[0]))
            return obj
        if name == 'operator+=':
            self.setstr(ex, obj, f'{ps} + {paren(self.S(ex, vs[0]))}' if vs[0].t not in (CHAR, U8) else f'{ps}.push({ex.rv(vs[0])})')
            return obj
        if name == 'erase':
            if vs and vs[0] is not None and vs[0].t[0] == 'it':
                i = ex.rv(vs[0])
                j = ex.rv(vs[1]) if n > 1 else f'({i} + 1)'
                ex.obl('safety', 'erase range is valid', f'0 <= {i} <= {j} <= {ps}.len()')
                ex.set(obj.lv, f'{ps}.subrange(0, {i}) + {ps}.subrange({j}, {ps}.len() as int)')
                return self.it(obj.lv, 'seq', i)
            pos = self.I(ex, vs[0]) if n > 0 else '0'
            ex.throw_if(f'{pos} > {ps}.len()')
            if ex.st is None:
                return V(VOID)
            ln = self.I(ex, vs[1]) if n > 1 else str(NPOS)
            ex.set(obj.lv, f'serase({s}, {pos}, {ln})')
            return obj
        if name == 'replace':
            if vs[0].t[0] == 'int':
                pos, ln = self.I(ex, vs[0]), self.I(ex, vs[1])
                ex.throw_if(f'{pos} > {ps}.len()')
                if ex.st is None:
                    return V(VOID)
                add = self.piece(ex, vs[2:])
                self.setstr(ex, obj, f'sreplace({s}, {pos}, {ln}, {add})')
                return obj
        if name == 'insert':
            if vs[0].t[0] == 'int':
                pos = self.I(ex, vs[0])
                ex.throw_if(f'{pos} > {ps}.len()')
                if ex.st is None:
                    return V(VOID)
                add = self.piece(ex, vs[1:])
                self.setstr(ex, obj, f'sreplace({s}, {pos}, 0, {add})')
                return obj
        if name == 'resize':
            nn = self.I(ex, vs[0])
            ch = ex.rv(vs[1]) if n > 1 else '0u8'
            # length_error / bad_alloc for absurd sizes
            ex.throw_if(f'{nn} > MAXLEN()')
            if ex.st is None:
                return V(VOID)
            ex.set(obj.lv, f'sresize({s}, {nn}, {ch})')
            return V(VOID)
        if name == 'swap':
            o = vs[0]
            a, b = ex.rv(obj), ex.rv(o)
            ex.set(obj.lv, b)
            ex.set(o.lv, a)
            return V(VOID)
        raise Unsupported('string method ' + name)

    def piece(self, ex, vs):
        """argument group of append/assign/insert/replace"""
        vs = [v for v in vs if v is not None]
        a = vs[0]
        if len(vs) == 1:
            return self.S(ex, a)
        if a.t[0] == 'int':
            return f'Seq::new({paren(self.I(ex, a))} as nat, |i: int| {ex.rv(vs[1])})'
        if a.t == STR or a.t[0] == 'struct':
            s = self.S(ex, a)
            pos = self.I(ex, vs[1])
            ln = self.I(ex, vs[2]) if len(vs) > 2 else str(NPOS)
            ex.throw_if(f'{pos} > {paren(s)}.len()')
            return f'ssub({s}, {pos}, {ln})'
        if a.t[0] in ('ptr', 'cptr'):
            return ex.rv(self.construct(ex, STR, None, []) if False else self.from_buf(ex, a, vs[1]))
        if a.t[0] == 'it':
            lv = a.t[1]
            i, j = ex.rv(a), ex.rv(vs[1])
            ex.obl('safety', 'iterator range is valid', f'0 <= {i} <= {j} <= {ex.get(lv)}.len()')
            return f'{paren(ex.get(lv))}.subrange({i}, {j})'
        raise Unsupported('string piece')

    def from_buf(self, ex, a, nv):
        nn = self.I(ex, nv)
        if a.t == CPTR:
            s = ex.rv(a)
            if a.const is not None:
                full = ex.bytes_term(a.const)
                ex.obl('safety', 'bytes exist', f'{nn} <= {full}.len()')
                return V(STR, f'{full}.subrange(0, {nn})')
            ex.obl('safety', 'bytes exist', f'{paren(s)}.nn && {nn} <= {paren(s)}.s.len()')
            return V(STR, f'{paren(s)}.s.subrange(0, {nn})')
        base = ex.get(a.lv)
        ix = a.idx or '0'
        ex.obl('safety', 'bytes exist', f'0 <= {ix} && {ix} + {nn} <= {base}.len()')
        return V(STR, f'{paren(base)}.subrange({ix}, {ix} + {nn})')

    # ------------------------------------------------------------ vectors and maps
    def vec_method(self, ex, obj, name, vs):
        t = obj.t
        s = ex.rv(obj)
        ps = paren(s)
        et = t[1]
        if name == 'size':
            return V(U64, f'({ps}.len() as int)')
        if name == 'empty':
            return V(BOOL, f'{ps}.len() == 0')
        if name in ('begin', 'cbegin'):
            return self.it(obj.lv, 'seq', '0')
        if name in ('end', 'cend'):
            return self.it(obj.lv, 'seq', f'({ps}.len() as int)')
        if name in ('back', 'front'):
            ex.obl('safety', f'{name}() of a non-empty vector', f'{ps}.len() > 0')
            i = '0' if name == 'front' else f'({ps}.len() - 1)'
            return V(et, lv=obj.lv.at(('i', i), et)) if obj.lv is not None else V(et, f'{ps}[{i}]')
        if name == 'at':
            i = self.I(ex, vs[0])
            ex.throw_if(f'{i} >= {ps}.len()')
            if ex.st is None:
                return V(VOID)
            return V(et, lv=obj.lv.at(('i', i), et))
        if name in ('push_back', 'emplace_back'):
            vs = [v for v in vs if v is not None]
            if len(vs) == 1:
                e = self.as_t(ex, vs[0], et)
                if vs[0].lv is not None and et[0] == 'sptr':
                    ex.mark_shared(vs[0])
                    e = ex.rv(vs[0])
            elif not vs:
                e = ex.ty.default(et)
            elif et[0] == 'pair' and len(vs) == 2:
                e = f'({self.as_t(ex, vs[0], et[1])}, {self.as_t(ex, vs[1], et[2])})'
            else:
                raise Unsupported('emplace_back')
            ex.set(obj.lv, f'{ps}.push({e})')
            ex.assume(f'{ex.get(obj.lv)}.len() <= MAXLEN()')
            return V(VOID)
        if name == 'pop_back':
            ex.obl('safety', 'pop_back() of a non-empty vector', f'{ps}.len() > 0')
            ex.set(obj.lv, f'{ps}.drop_last()')
            return V(VOID)
        if name == 'clear':
            ex.set(obj.lv, ex.ty.default(t))
            return V(VOID)
        if name in ('reserve', 'shrink_to_fit'):
            return V(VOID)
        if name == 'data':
            return V(('ptr', et), lv=obj.lv, idx='0')
        if name == 'operator=':
            ex.set(obj.lv, self.as_vec(ex, vs[0], t))
            return obj
        if name == 'erase':
            i = ex.rv(vs[0])
            if len(vs) > 1 and vs[1] is not None:
                j = ex.rv(vs[1])
                ex.obl('safety', 'erase range is valid', f'0 <= {i} <= {j} <= {ps}.len()')
            else:
                j = f'({i} + 1)'
                ex.obl('safety', 'erase position is valid', f'0 <= {i} < {ps}.len()')
            if i == '0':
                ex.set(obj.lv, f'{ps}.subrange({j}, {ps}.len() as int)')
            else:
                ex.set(obj.lv, f'{ps}.subrange(0, {i}) + {ps}.subrange({j}, {ps}.len() as int)')
            return self.it(obj.lv, 'seq', i)
        if name == 'insert':
            i = ex.rv(vs[0])
            ex.obl('safety', 'insert position is valid', f'0 <= {i} <= {ps}.len()')
            if len(vs) == 3 and vs[1].t[0] == 'it':
                a, b = ex.rv(vs[1]), ex.rv(vs[2])
                src = ex.get(vs[1].t[1])
                ex.obl('safety', 'iterator range is valid', f'0 <= {a} <= {b} <= {src}.len()')
                mid = f'{paren(src)}.subrange({a}, {b})'
            elif len(vs) == 2:
                mid = f'seq![{self.as_t(ex, vs[1], et)}]'
            else:
                raise Unsupported('vector insert')
            ex.set(obj.lv, f'{ps}.subrange(0, {i}) + {mid} + {ps}.subrange({i}, {ps}.len() as int)')
            ex.assume(f'{ex.get(obj.lv)}.len() <= MAXLEN()')
            return self.it(obj.lv, 'seq', i)
        if name == 'resize':
            nn = self.I(ex, vs[0])
            e = ex.conv(vs[1], et) if len(vs) > 1 and vs[1] is not None else ex.ty.default(et)
            ex.throw_if(f'{nn} > MAXLEN()')
            ex.set(obj.lv, f'Seq::new({paren(nn)} as nat, |i: int| if i < {ps}.len() {{ {ps}[i] }} else {{ {e} }})')
            return V(VOID)
        raise Unsupported('vector method ' + name)

    def as_vec(self, ex, v, t):
        if v.t[0] == 'initlist':
            return ex.initlist(t, v.x)
        return ex.rv(v)

    def map_method(self, ex, obj, name, vs):
        t = obj.t
        m = ex.rv(obj)
        pm = paren(m)
        if name == 'empty':
            return V(BOOL, f'mapkeys({m}).len() == 0')
        if name == 'size':
            return V(U64, f'(mapkeys({m}).len() as int)')
        if name in ('end', 'cend'):
            return self.it(obj.lv, 'mapend', '0')
        if name in ('begin', 'cbegin'):
            return self.it(obj.lv, 'mapidx', '0')
        if name == 'count':
            return V(U64, f'b2i({pm}.dom().contains({self.as_t(ex, vs[0], t[1])}))')
        if name == 'find':
            key = ex.let('key', ex.ty.vt(t[1]), self.as_t(ex, vs[0], t[1]))
            if obj.lv is None:
                obj = V(t, lv=ex.root_new('tmpmap', t, m))
            return self.it(obj.lv, 'mapkey', f'(if {pm}.dom().contains({key}) {{ Some({key}) }} else {{ None::<{ex.ty.vt(t[1])}> }})')
        if name == 'at':
            key = ex.let('key', ex.ty.vt(t[1]), self.as_t(ex, vs[0], t[1]))
            ex.throw_if(f'!{pm}.dom().contains({key})')
            return V(t[2], lv=obj.lv.at(('k', key), t[2]))
        if name in ('emplace', 'insert'):
            vs = [v for v in vs if v is not None]
            if len(vs) == 2:
                key = ex.let('key', ex.ty.vt(t[1]), self.as_t(ex, vs[0], t[1]))
                val = self.as_t(ex, vs[1], t[2])
            else:
                pt = vs[0].t if vs[0].t[0] == 'pair' else ('pair', t[1], t[2])
                p = ex.let('ent', ex.ty.vt(pt), ex.rv(vs[0]))
                key, val = self.as_t(ex, V(pt[1], f'{p}.0'), t[1]), self.as_t(ex, V(pt[2], f'{p}.1'), t[2])
            ins = ex.let('isnew', 'bool', f'!{pm}.dom().contains({key})')
            ex.set(obj.lv, f'if {ins} {{ {pm}.insert({key}, {val}) }} else {{ {m} }}')
            return V(('insres',), x=ins)
        if name == 'clear':
            ex.set(obj.lv, ex.ty.default(t))
            return V(VOID)
        if name == 'erase':
            if vs[0].t[0] == 'it':
                key = f'{ex.rv(vs[0])}->0'
                ex.set(obj.lv, f'{pm}.remove({key})')
                return V(VOID)
            key = self.as_t(ex, vs[0], t[1])
            ex.set(obj.lv, f'{pm}.remove({key})')
            return V(U64, f'b2i({pm}.dom().contains({key}))')
        raise Unsupported('map method ' + name)

    # ------------------------------------------------------------ member calls
    def method(self, ex, obj, name, args, node):
        if obj.t[0] == 'stream':
            return self.stream_method(ex, obj, name, args, node)
        vs = self.args(ex, args)
        if vs is None:
            return V(VOID)
        if obj.t == STR or obj.t[0] == 'vec':
            t = obj.term if obj.lv is None else ex.get(obj.lv)
            if t is not None and '[' in t:
                for f in ex.wf(obj.t, paren(t)):    # every element of a container is a possible object of its type
                    ex.assume(f)
        if obj.t == STR:
            return self.str_method(ex, obj, name, vs)
        if obj.t[0] == 'vec':
            return self.vec_method(ex, obj, name, vs)
        if obj.t[0] == 'map':
            return self.map_method(ex, obj, name, vs)
        if obj.t[0] == 'arr':
            if name == 'size':
                return V(U64, str(obj.t[2]), const=obj.t[2])
        if obj.t[0] == 'sptr':
            if name in ('operator bool',):
                return V(BOOL, f'{paren(ex.rv(obj))}.nn')
            if name == 'get':
                return V(('ptr', obj.t[1]), lv=obj.lv.at(('sv',), obj.t[1]), null=neg(f'{paren(ex.rv(obj))}.nn'))
            if name == 'reset' and not vs:
                ex.set(obj.lv, ex.ty.default(obj.t))
                return V(VOID)
        if obj.t[0] == 'exc' and name == 'what':
            return V(CPTR, 'CP { nn: true, s: Seq::<u8>::empty() }')
        if obj.t[0] == 'pair' and name == 'operator=':
            ex.set(obj.lv, ex.rv(vs[0]))
            return obj
        r = getattr(self, 'method_more', None)
        if r is not None:
            v = r(ex, obj, name, vs, node)
            if v is not None:
                return v
        raise Unsupported(f'method {name} of {obj.t}')

    # ------------------------------------------------------------ operators
    def operator(self, ex, name, args, node):
        op = name[len('operator'):]
        a = ex.ev(args[0])
        if ex.st is None:
            return V(VOID)
        if a.t[0] == 'stream' or op == '<<' or op == '>>':
            return self.stream_op(ex, a, op, args, node)
        b = None
        if len(args) > 1:
            if op == '[]' and a.t == STR and a.lv is None:
                a = V(STR, lv=ex.root_new('tmp', STR, ex.rv(a)))
            b = ex.ev(args[1])
            if ex.st is None:
                return V(VOID)
        if op == '[]':
            return self.index(ex, a, b)
        if a.t[0] == 'it' or (b is not None and b.t[0] == 'it'):
            return self.it_op(ex, op, a, b, node)
        if a.t[0] == 'sptr':
            if op in ('->', '*'):
                ex.obl('safety', 'no null dereference', f'{paren(ex.rv(a))}.nn')
                if a.lv is None:
                    a = V(a.t, lv=ex.root_new('tmpsp', a.t, ex.rv(a)))
                lv = a.lv.at(('sv',), a.t[1])
                return V(('ptr', a.t[1]), lv=lv) if op == '->' else V(a.t[1], lv=lv)
            if op == '=':
                if b.t[0] == 'null':
                    ex.set(a.lv, ex.ty.default(a.t))
                    return a
                if b.lv is not None:
                    ex.mark_shared(b)
                ex.set(a.lv, ex.rv(b))
                return a
            if op in ('==', '!='):
                if b.t[0] == 'null':
                    c = f'{paren(ex.rv(a))}.nn'
                    return V(BOOL, neg(c) if op == '==' else c)
        if a.t[0] == 'null' and b is not None and b.t[0] == 'sptr' and op in ('==', '!='):
            c = f'{paren(ex.rv(b))}.nn'
            return V(BOOL, neg(c) if op == '==' else c)
        isstr = lambda v: v is not None and (v.t == STR or v.t == CPTR or (v.t[0] == 'struct' and ex.ty.fields(v.t) and ex.ty.fields(v.t)[0] == ('base', STR)))
        if op in ('==', '!=') and isstr(a) and isstr(b):
            return V(BOOL, f'{paren(self.S(ex, a))} {op} {paren(self.S(ex, b))}')
        if op in ('<', '>', '<=', '>=') and isstr(a) and isstr(b):
            raise Unsupported('string ordering')
        if op == '+' and (isstr(a) or isstr(b)):
            x, y = self.S(ex, a), self.S(ex, b)
            if b.t in (CHAR, U8):
                return self.strv(ex, f'{paren(x)}.push({ex.rv(b)})')
            return self.strv(ex, f'{paren(x)} + {paren(y)}')
        if op == '+=' and a.t == STR:
            if b.t in (CHAR, U8):
                self.setstr(ex, a, f'{paren(ex.rv(a))}.push({ex.rv(b)})')
            elif b.t[0] == 'initlist':
                self.setstr(ex, a, f'{paren(ex.rv(a))} + {paren(ex.initlist(("vec", CHAR), b.x))}')
            else:
                self.setstr(ex, a, f'{paren(ex.rv(a))} + {paren(self.S(ex, b))}')
            return a
        if op == '=':
            if a.t == STR:
                if b.t[0] == 'initlist':
                    ex.set(a.lv, 'Seq::<u8>::empty()')
                else:
                    ex.set(a.lv, self.S(ex, b))
                return a
            if a.t[0] in ('vec', 'map', 'pair', 'tp'):
                ex.set(a.lv, self.as_vec(ex, b, a.t))
                return a
            if a.t[0] == 'dur':
                ex.set(a.lv, ex.rv(self.durconv(ex, b, a.t)))
                return a
        if op in ('==', '!=') and a.t[0] in ('vec', 'map', 'pair') and a.t == b.t:
            return V(BOOL, f'{paren(ex.rv(a))} {op} {paren(ex.rv(b))}')
        r = getattr(self, 'operator_more', None)
        if r is not None:
            v = r(ex, op, a, b, node)
            if v is not None:
                return v
        raise Unsupported(f'operator {op} on {a.t} and {b.t if b is not None else None}')

    def stream_op(self, ex, a, op, args, node):
        if op != '<<' or a.t[0] != 'stream':
            raise Unsupported('stream operator')
        k = self.sid(a)
        e = args[1]
        while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
            e = e['inner'][0]
        if e.get('kind') == 'DeclRefExpr' and e.get('referencedDecl', {}).get('name') in ('endl', 'flush', 'ends'):
            t = {'endl': 'seq![10u8]', 'flush': 'Seq::<u8>::empty()', 'ends': 'seq![0u8]'}[e['referencedDecl']['name']]
        else:
            b = ex.ev(args[1])
            if ex.st is None:
                return a
            if b.t in (CHAR, U8):
                t = f'seq![{ex.rv(b)}]'
            elif b.t == STR or b.t == CPTR or (b.t[0] == 'struct' and ex.ty.fields(b.t) and ex.ty.fields(b.t)[0] == ('base', STR)):
                t = self.S(ex, b)
            elif b.t[0] == 'int':
                t = ex.fresh('text', STR)
            else:
                raise Unsupported(f'output of {b.t}')
        o = self.wget(ex, 'fout')
        self.wset(ex, 'fout', f'{o}.insert({k}, {o}[{k}] + {paren(t)})')
        return a

    def index(self, ex, a, b):
        if a.t == STR:
            i = self.I(ex, b)
            s = ex.rv(a)
            ex.obl('safety', 'string index in bounds', f'0 <= {i} <= {paren(s)}.len()')
            return V(CHAR, lv=a.lv.at(('c', i), CHAR))
        if a.t[0] in ('vec', 'arr'):
            i = self.I(ex, b)
            s = ex.rv(a)
            ex.obl('safety', 'element index in bounds', f'0 <= {i} < {paren(s)}.len()')
            if a.lv is None:
                return V(a.t[1], f'{paren(s)}[{i}]')
            return V(a.t[1], lv=a.lv.at(('i', i), a.t[1]))
        if a.t[0] == 'map':
            key = ex.let('key', ex.ty.vt(a.t[1]), self.as_t(ex, b, a.t[1]))
            m = ex.rv(a)
            ex.set(a.lv, f'if {paren(m)}.dom().contains({key}) {{ {m} }} else {{ {paren(m)}.insert({key}, {ex.ty.default(a.t[2])}) }}')
            return V(a.t[2], lv=a.lv.at(('k', key), a.t[2]))
        if a.t[0] == 'it':
            return self.it_deref(ex, a, f'{ex.rv(a)} + {self.I(ex, b)}')
        raise Unsupported(f'index of {a.t}')

    def it_deref(self, ex, a, ix=None):
        _, lv, kind = a.t
        i = ix or ex.rv(a)
        if kind == 'seq':
            s = ex.get(lv)
            if lv.t == STR:
                ex.obl('safety', 'iterator is dereferenceable', f'0 <= {i} < {paren(s)}.len()')
                return V(CHAR, lv=lv.at(('c', i), CHAR))
            ex.obl('safety', 'iterator is dereferenceable', f'0 <= {i} < {paren(s)}.len()')
            return V(lv.t[1], lv=lv.at(('i', i), lv.t[1]))
        if kind == 'mapkey':
            ex.obl('safety', 'iterator is dereferenceable', f'({i}) is Some')
            return V(('mapentry',), x=(lv, f'{paren(i)}->0'))
        if kind == 'mapidx':
            m = ex.get(lv)
            ex.obl('safety', 'iterator is dereferenceable', f'0 <= {i} < mapkeys({m}).len()')
            key = ex.let('key', ex.ty.vt(lv.t[1]), f'mapkeys({m})[{i}]')
            ex.assume(f'0 <= {i} < mapkeys({m}).len() ==> {paren(m)}.dom().contains({key})')
            return V(('mapentry',), x=(lv, key))
        raise Unsupported('dereference of iterator kind ' + kind)

    def it_op(self, ex, op, a, b, node):
        if op in ('==', '!='):
            ka, kb = a.t[2], b.t[2]
            if (a.t[1].root, a.t[1].path) != (b.t[1].root, b.t[1].path):
                raise Unsupported('comparison of iterators of different containers')
            if ka == 'mapend':
                a, b, ka, kb = b, a, kb, ka
            if kb == 'mapend':
                if ka == 'mapkey':
                    c = f'{paren(ex.rv(a))} is None'
                    return V(BOOL, c if op == '==' else f'{paren(ex.rv(a))} is Some')
                if ka == 'mapidx':
                    return V(BOOL, f'{paren(ex.rv(a))} {op} mapkeys({ex.get(a.t[1])}).len()')
                return V(BOOL, 'true' if op == '==' else 'false')
            return V(BOOL, f'{paren(ex.rv(a))} {op} {paren(ex.rv(b))}')
        if op == '*':
            return self.it_deref(ex, a)
        if op == '->':
            v = self.it_deref(ex, a)
            if v.t[0] == 'mapentry':
                return v
            return V(('ptr', v.t), lv=v.lv)
        if op in ('++', '--'):
            old = ex.rv(a)
            if a.t[2] == 'mapkey':
                raise Unsupported('increment of a find() iterator')
            if a.t[2] == 'seq':
                n = f'{paren(ex.get(a.t[1]))}.len()'
                ex.obl('safety', 'iterator stays in range', f'{paren(old)} < {n}' if op == '++' else f'{paren(old)} > 0')
            ex.set(a.lv, f'{paren(old)} {op[0]} 1')
            post = b is not None
            return V(a.t, old) if post else a
        if op in ('+', '-', '+=', '-='):
            if b.t[0] == 'it':
                return V(I64, f'{paren(ex.rv(a))} - {paren(ex.rv(b))}')
            i = f'{paren(ex.rv(a))} {op[0]} {paren(self.I(ex, b))}'
            t = ex.let('it', 'int', i)
            n = f'{paren(ex.get(a.t[1]))}.len()'
            ex.obl('safety', 'iterator stays in range', f'0 <= {t} <= {n}')
            if op in ('+=', '-='):
                ex.set(a.lv, t)
                return a
            return V(a.t, t)
        if op in ('<', '>', '<=', '>='):
            return V(BOOL, f'{paren(ex.rv(a))} {op} {paren(ex.rv(b))}')
        if op == '=':
            if b.t[0] != 'it' or (b.t[1].root, b.t[1].path) != (a.t[1].root, a.t[1].path) or a.t[2] != b.t[2]:
                raise Unsupported('iterator assignment')
            ex.set(a.lv, ex.rv(b))
            return a
        raise Unsupported('iterator operator ' + op)

    def durconv(self, ex, v, t):
        if v.t == t:
            return V(t, ex.rv(v))
        if v.t[0] == 'dur' and t[0] == 'dur':
            if v.t[1] % t[1] == 0:
                r = ex.let('dur', 'int', f'{paren(ex.rv(v))} * {v.t[1] // t[1]}')
                ex.obl('overflow', 'duration conversion does not overflow', f'-0x8000_0000_0000_0000 <= {r} <= 0x7fff_ffff_ffff_ffff')
                return V(t, r)
        raise Unsupported('duration conversion')

    # ------------------------------------------------------------ free functions
    def call(self, ex, name, args, node, ref):
        m = getattr(self, 'f_' + name, None)
        if m is None:
            raise Unsupported('library function ' + name)
        self.used.add(name)
        ex.libused.add(name)
        vs = self.args(ex, args)
        if vs is None:
            return V(VOID)
        vs = [v for v in vs if v is not None]
        return m(ex, vs, node)

    def f_move(self, ex, vs, node):
        v = vs[0]
        if v.lv is None or v.t[0] not in ('str', 'vec', 'map', 'pair', 'struct'):
            return v
        if v.t[0] == 'struct' and ex.user_move(v.t):
            return v        # the move constructor or assignment of the program itself is executed
        r = ex.load(v)
        ex.set(v.lv, ex.fresh('moved', v.t))
        return r

    def f_forward(self, ex, vs, node):
        return vs[0]

    def f_getcwd(self, ex, vs, node):
        lv, idx = self.buf(ex, vs[0])
        n = self.I(ex, vs[1])
        old = ex.get(lv)
        cwd = ex.get(ex.w('cwd'))
        ex.obl('safety', 'buffer is large enough', f'{idx} + {n} <= {paren(old)}.len()')
        ok = ex.let('ok', 'bool', f'{paren(cwd)}.len() + 1 <= {n}')
        rest = f'{paren(old)}.subrange(({idx} + {paren(cwd)}.len() + 1) as int, {paren(old)}.len() as int)'
        ex.set(lv, f'if {ok} {{ {paren(old)}.subrange(0, {idx}) + {paren(cwd)}.push(0u8) + {rest} }} else {{ {old} }}')
        ex.set(ex.w('errno'), f'if {ok} {{ {ex.get(ex.w("errno"))} }} else {{ 34int }}')
        self.cstr_fact(ex, ok, lv, idx, cwd)
        return V(('ptr', CHAR), lv=lv, idx=idx, null=neg(ok))

    def f_realpath(self, ex, vs, node):
        lv, idx = self.buf(ex, vs[1])
        p = self.S(ex, vs[0])
        old = ex.get(lv)
        cwd = ex.get(ex.w('cwd'))
        ex.obl('safety', 'buffer is large enough', f'{idx} + 4096 <= {paren(old)}.len()')
        ok = ex.let('ok', 'bool', f'realpath_ok({cwd}, {p})')
        r = ex.let('rp', 'Seq<u8>', f'realpath_of({cwd}, {p})')
        ex.assume(f'{ok} ==> {r}.len() < 4096 && !{r}.contains(0u8) && is_abs({r})')
        nb = ex.fresh('buf', lv.t)
        ex.assume(f'{nb}.len() == {paren(old)}.len()')
        rest = f'{nb}.subrange(({idx} + {r}.len() + 1) as int, {nb}.len() as int)'
        ex.set(lv, f'if {ok} {{ {paren(old)}.subrange(0, {idx}) + {r}.push(0u8) + {rest} }} else {{ {nb} }}')
        ex.set(ex.w('errno'), ex.fresh('errno', I32))
        self.cstr_fact(ex, ok, lv, idx, r)
        return V(('ptr', CHAR), lv=lv, idx=idx, null=neg(ok))

    def cstr_fact(self, ex, ok, lv, idx, text):
        b = ex.get(lv)
        sk = b if idx == '0' else f'{paren(b)}.skip({idx})'
        ex.hint(f'if {ok} {{ assert({sk}.subrange(0, {paren(text)}.len() as int) =~= {text}); lemma_cstr_prefix({text}, {sk}); }}')

    def buf(self, ex, v):
        if v.t[0] != 'ptr' or v.lv is None:
            raise Unsupported('buffer argument')
        return v.lv, (v.idx or '0')

    def f_make_pair(self, ex, vs, node):
        t = ex.typ(node)
        return V(t, ex.let('p', ex.ty.vt(t), f'({self.as_t(ex, vs[0], t[1])}, {self.as_t(ex, vs[1], t[2])})'))

    def f_make_shared(self, ex, vs, node):
        t = ex.typ(node)
        if vs:
            raise Unsupported('make_shared with arguments')
        inner = t[1]
        r = ex.fresh_name('shared')
        ex.rtype[r] = inner
        ex.st.roots[r] = ex.let('shared', ex.ty.vt(inner), ex.ty.default(inner))
        return V(t, ex.let('sp', ex.ty.vt(t), f'SP {{ nn: true, sh: false, v: {ex.st.roots[r]} }}'))

    def f_toupper(self, ex, vs, node):
        v = ex.toint(ex.load(vs[0]))
        if v.chr is not None and v.chr[0] == 's':
            # bytes above 127 are negative ints: the C locale tables of glibc accept -128..255 and leave them unchanged
            return V(I32, f'ch(up({v.chr[1]}))', chr=('s', f'up({v.chr[1]})'))
        return V(I32, f'toupper_int({v.term})')

    def f_stoll(self, ex, vs, node):
        s = self.S(ex, vs[0])
        ex.throw_if(f'!stoll_ok({s})')
        r = ex.let('num', 'int', f'stoll_val({s})')
        ex.assume(f'-0x8000_0000_0000_0000 <= {r} <= 0x7fff_ffff_ffff_ffff')
        return V(I64, r)

    f_stol = f_stoll

    def f_stoul(self, ex, vs, node):
        s = self.S(ex, vs[0])
        ex.throw_if(f'!stoul_ok({s})')
        r = ex.let('num', 'int', f'stoul_val({s})')
        ex.assume(f'0 <= {r} <= 0xffff_ffff_ffff_ffff')
        return V(U64, r)

    f_stoull = f_stoul

    def f_search(self, ex, vs, node):
        a, b, c, d = vs[:4]
        hay, ndl = a.t[1], c.t[1]
        up = 'false'
        if len(vs) > 4:
            if vs[4].t[0] != 'lambda':
                raise Unsupported('search predicate')
            op, _ = vs[4].x
            # the predicate is executed on two arbitrary characters and must be the case-insensitive comparison
            x, y = ex.fresh('cx', CHAR), ex.fresh('cy', CHAR)
            r = ex.call_lambda(vs[4], [V(CHAR, x), V(CHAR, y)], node)
            ex.obl('model', 'search predicate compares case-insensitively', f'{ex.rv(r)} == (up({x}) == up({y}))')
            up = 'true'
        i, j, p, q = (ex.rv(v) for v in (a, b, c, d))
        s, n = ex.get(hay), ex.get(ndl)
        ex.obl('safety', 'iterator range is valid', f'0 <= {i} <= {j} <= {paren(s)}.len() && 0 <= {p} <= {q} <= {paren(n)}.len()')
        r = ex.let('srch', 'int', f'search({paren(s)}.subrange(0, {j}), {paren(n)}.subrange({p}, {q}), {i}, {up})')
        return V(a.t, r)

    def f_min(self, ex, vs, node):
        if not vs:
            t = ex.typ(node)
            if t[0] in ('tp', 'dur'):
                return V(t, '(-0x8000_0000_0000_0000)')
            if t[0] == 'int':
                lo, hi = (-2**(t[1] - 1), 2**(t[1] - 1) - 1) if t[2] else (0, 2**t[1] - 1)
                return V(t, ilit(lo), const=lo)
            raise Unsupported('min')
        if vs[0].t[0] in ('int', 'dur') and vs[0].t == vs[1].t:
            a, b = ex.rv(vs[0]), ex.rv(vs[1])
            return V(vs[0].t, ex.let('mn', 'int', f'if {paren(b)} < {paren(a)} {{ {b} }} else {{ {a} }}'))
        raise Unsupported('min')

    def f_max(self, ex, vs, node):
        if not vs:
            t = ex.typ(node)
            if t[0] in ('tp', 'dur'):
                return V(t, '(0x7fff_ffff_ffff_ffff)')
            if t[0] == 'int':
                lo, hi = (-2**(t[1] - 1), 2**(t[1] - 1) - 1) if t[2] else (0, 2**t[1] - 1)
                return V(t, ilit(hi), const=hi)
            raise Unsupported('max')
        if vs[0].t[0] in ('int', 'dur') and vs[0].t == vs[1].t:
            a, b = ex.rv(vs[0]), ex.rv(vs[1])
            return V(vs[0].t, ex.let('mx', 'int', f'if {paren(a)} < {paren(b)} {{ {b} }} else {{ {a} }}'))
        raise Unsupported('max')

    def f_getenv(self, ex, vs, node):
        s = self.S(ex, vs[0])
        return V(CPTR, ex.let('envp', 'CP', f'env_get({ex.get(ex.w("env"))}, {s})'))

    def f___errno_location(self, ex, vs, node):
        return V(('ptr', I32), lv=ex.w('errno'))

    def f_to_string(self, ex, vs, node):
        return self.strv(ex, f'dec_str({self.I(ex, vs[0])})')
