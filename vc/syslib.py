"""Model of the system calls: descriptors, sockets, pipes, polling, signals, processes, files (trusted, see DESIGN.md)."""
from cast import Unsupported
from engine import V, LV, INT, BOOL, CHAR, U8, STR, CPTR, VOID, STREAM, NULLT, I32, U32, I64, U64, paren, neg, conj, ilit, rng

ENUMS = {'SOCK_STREAM': 1, 'SOCK_DGRAM': 2, 'SOCK_CLOEXEC': 0o2000000, 'SOCK_NONBLOCK': 0o4000, 'IPPROTO_TCP': 6, 'MSG_WAITALL': 0x100, 'MSG_NOSIGNAL': 0x4000, 'MSG_DONTWAIT': 0x40,
         'MSG_PEEK': 2, 'SHUT_RD': 0, 'SHUT_WR': 1, 'SHUT_RDWR': 2, 'INADDR_LOOPBACK': 0x7f000001}


class Sys:
    def wget(self, ex, n):
        return ex.get(ex.w(n))

    def wset(self, ex, n, term):
        ex.set(ex.w(n), term)

    def new_errno(self, ex):
        self.wset(ex, 'errno', ex.fresh('errno', I32))

    def is_open(self, ex, h, what):
        ex.obl('safety', f'{what} uses an open descriptor', f'{self.wget(ex, "fd")}.dom().contains({h})')

    def iov(self, ex, v, n, what):
        """buffer argument -> (LV, index), with the obligation that n bytes exist there"""
        v = ex.load(v)
        if v.t[0] == 'ptr' and v.lv is not None and v.idx is not None:
            ex.obl('safety', f'{what} stays inside the buffer', f'0 <= {v.idx} && {v.idx} + {n} <= {paren(ex.get(v.lv))}.len()')
            return v.lv, v.idx
        raise Unsupported('buffer argument of ' + what)

    def new_fd(self, ex, r, st, port='0'):
        """r >= 0 becomes a fresh descriptor"""
        fd, rx, tx, sh = (self.wget(ex, n) for n in ('fd', 'rx', 'tx', 'shared'))
        ok = ex.let('ok', 'bool', f'{r} != -1')
        ex.assume(f'{r} >= -1 && ({ok} ==> !{fd}.dom().contains({r}))')
        future = ex.fresh('stream', STR, wf=False)
        self.wset(ex, 'fd', f'if {ok} {{ {fd}.insert({r}, Fd {{ st: {st}, port: {port} }}) }} else {{ {fd} }}')
        self.wset(ex, 'rx', f'if {ok} {{ {rx}.insert({r}, {future}) }} else {{ {rx} }}')
        self.wset(ex, 'tx', f'if {ok} {{ {tx}.insert({r}, Seq::<u8>::empty()) }} else {{ {tx} }}')
        self.wset(ex, 'shared', f'if {ok} {{ {sh}.remove({r}) }} else {{ {sh} }}')
        return ok

    # ------------------------------------------------------------ sockets
    def f_htons(self, ex, vs, node):
        return V(INT(16, False), f'bswap16({self.I(ex, vs[0])})')

    f_ntohs = f_htons

    def f_socket(self, ex, vs, node):
        a, b = self.I(ex, vs[0]), self.I(ex, vs[1])
        ex.obl('socket', 'only IPv4 stream sockets are created', f'{a} == 2 && wrapu({b}, 16) == 1', props='C16')
        r = ex.fresh('sock', I32)
        self.new_fd(ex, r, 1)
        self.wset(ex, 'nosock', f'{self.wget(ex, "nosock")} || {r} == -1')
        self.new_errno(ex)
        return V(I32, r)

    def addr(self, ex, v):
        if v.t[0] != 'ptr' or v.lv is None or v.lv.t != ('struct', 'sockaddr_in'):
            raise Unsupported('socket address')
        return ex.get(v.lv)

    def local(self, ex, a, what):
        ex.obl('socket', f'{what} only the loopback address', f'{a}.sin_family == 2 && {a}.sin_addr =~= seq![127u8, 0u8, 0u8, 1u8]', props='C16')

    def result(self, ex, name='rc'):
        r = ex.fresh(name, I32)
        ex.assume(f'{r} == 0 || {r} == -1')
        self.new_errno(ex)
        return r

    def fails(self, ex, r):
        self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || {r} == -1')

    def f_bind(self, ex, vs, node):
        h = self.I(ex, vs[0])
        a = self.addr(ex, vs[1])
        fd = self.wget(ex, 'fd')
        self.is_open(ex, h, 'bind')
        self.local(ex, a, 'binds')
        ex.obl('socket', 'a new socket is bound', f'{fd}[{h}].st == 1', props='C16')
        r = self.result(ex)
        self.wset(ex, 'fd', f'if {r} == 0 {{ {fd}.insert({h}, Fd {{ st: 2, port: bswap16({a}.sin_port) }}) }} else {{ {fd} }}')
        self.fails(ex, r)
        return V(I32, r)

    def f_listen(self, ex, vs, node):
        h = self.I(ex, vs[0])
        fd = self.wget(ex, 'fd')
        self.is_open(ex, h, 'listen')
        ex.obl('socket', 'only a bound socket listens', f'{fd}[{h}].st == 2', props='C16')
        r = self.result(ex)
        self.wset(ex, 'fd', f'if {r} == 0 {{ {fd}.insert({h}, Fd {{ st: 3, port: {fd}[{h}].port }}) }} else {{ {fd} }}')
        self.fails(ex, r)
        return V(I32, r)

    def f_connect(self, ex, vs, node):
        h = self.I(ex, vs[0])
        a = self.addr(ex, vs[1])
        fd = self.wget(ex, 'fd')
        self.is_open(ex, h, 'connect')
        self.local(ex, a, 'connects to')
        ex.obl('socket', 'a new socket is connected', f'{fd}[{h}].st == 1', props='C16')
        r = self.result(ex)
        self.wset(ex, 'fd', f'if {r} == 0 {{ {fd}.insert({h}, Fd {{ st: 4, port: bswap16({a}.sin_port) }}) }} else {{ {fd} }}')
        self.wset(ex, 'conn', f'if {r} == 0 {{ {h} }} else {{ {self.wget(ex, "conn")} }}')
        self.wset(ex, 'peer', f'if {r} == 0 {{ bswap16({a}.sin_port) as int }} else {{ {self.wget(ex, "peer")} }}')
        self.wset(ex, 'sess', f'if {r} == 0 {{ {self.wget(ex, "rx")}[{h}] }} else {{ {self.wget(ex, "sess")} }}')
        return V(I32, r)

    def f_accept(self, ex, vs, node):
        h = self.I(ex, vs[0])
        fd = self.wget(ex, 'fd')
        self.is_open(ex, h, 'accept')
        ex.obl('socket', 'connections are accepted on a listening socket', f'{fd}[{h}].st == 3', props='C16 C15')
        r = ex.fresh('acc', I32)
        self.new_fd(ex, r, 5, f'{fd}[{h}].port')
        # nobody can make 2^62 connections
        ex.assume(f'{self.wget(ex, "accepted")} < 0x3fff_ffff_ffff_ffff')
        self.wset(ex, 'accepted', f'{self.wget(ex, "accepted")} + b2i({r} != -1)')
        self.new_errno(ex)
        e = self.wget(ex, 'errno')
        # not being able to accept a connection at the moment is no failure
        self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || {r} == -1 && !accept_again({e})')
        return V(I32, r)

    f_accept4 = f_accept

    def f_shutdown(self, ex, vs, node):
        h = self.I(ex, vs[0])
        self.is_open(ex, h, 'shutdown')
        ex.obl('isolation', 'a connection used by another process is not shut down', f'!{self.wget(ex, "shared")}.contains({h})', props='C19')
        return V(I32, self.result(ex))

    def f_close(self, ex, vs, node):
        h = self.I(ex, vs[0])
        self.is_open(ex, h, 'close')
        fd = self.wget(ex, 'fd')
        self.wset(ex, 'fd', f'{fd}.remove({h})')
        return V(I32, self.result(ex))

    def f_setsockopt(self, ex, vs, node):
        self.is_open(ex, self.I(ex, vs[0]), 'setsockopt')
        r = self.result(ex)
        # SO_REUSEADDR
        self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || {paren(self.I(ex, vs[2]))} == 2 && {r} == -1')
        return V(I32, r)

    def f_getsockname(self, ex, vs, node):
        h = self.I(ex, vs[0])
        a = vs[1]
        self.addr(ex, a)
        n = ex.fresh('addr', a.lv.t)
        fd = self.wget(ex, 'fd')
        r = self.result(ex)
        ex.assume(f'{r} == 0 ==> {fd}.dom().contains({h}) && {n}.sin_port == bswap16({fd}[{h}].port)')
        ex.set(a.lv, n)
        return V(I32, r)

    def f_recv(self, ex, vs, node, what='recv'):
        h = self.I(ex, vs[0])
        n = self.I(ex, vs[2])
        lv, ix = self.iov(ex, vs[1], n, what)
        self.is_open(ex, h, what)
        rx = self.wget(ex, 'rx')
        r = ex.fresh('got', I64)
        src = ex.let('rest', 'Seq<u8>', f'{rx}[{h}]')
        # every amount between one byte and what was asked for may arrive; nothing only at the end of the stream; any call may fail
        ex.assume(f'-1 <= {r} <= {n} && {r} <= {src}.len() && ({r} == 0 ==> {n} == 0 || {src}.len() == 0)')
        old = ex.get(lv)
        new = ex.fresh('buf', lv.t, wf=False)
        ex.assume(f'{new}.len() == {paren(old)}.len()')
        ex.assume(f'forall|k: int| 0 <= k < {new}.len() ==> #[trigger] {new}[k] == (if {ix} <= k < {ix} + {r} {{ {src}[k - {paren(ix)}] }} else {{ {paren(old)}[k] }})')
        ex.set(lv, new)
        self.wset(ex, 'rx', f'if {r} > 0 {{ {rx}.insert({h}, {src}.skip({r})) }} else {{ {rx} }}')
        self.new_errno(ex)
        return V(I64, r)

    def f_read(self, ex, vs, node):
        return self.f_recv(ex, vs, node, 'read')

    def f_send(self, ex, vs, node, low=1, what='send'):
        h = self.I(ex, vs[0])
        n = self.I(ex, vs[2])
        lv, ix = self.iov(ex, vs[1], n, what)
        self.is_open(ex, h, what)
        tx = self.wget(ex, 'tx')
        r = ex.fresh('sent', I64)
        ex.assume(f'-1 <= {r} <= {n} && ({r} == 0 ==> {n} == 0)' if low else f'-1 <= {r} <= {n}')
        old = ex.get(lv)
        self.wset(ex, 'tx', f'if {r} > 0 {{ {tx}.insert({h}, {tx}[{h}] + {paren(old)}.subrange({ix}, {ix} + {r})) }} else {{ {tx} }}')
        self.new_errno(ex)
        if low:
            e = self.wget(ex, 'errno')
            self.wset(ex, 'sendfail', f'{self.wget(ex, "sendfail")} || {r} == -1')
        return V(I64, r)

    # ------------------------------------------------------------ polling
    def f_poll(self, ex, vs, node):
        a = vs[0]
        n = self.I(ex, vs[1])
        r = ex.fresh('polled', I32)
        ex.assume(f'-1 <= {r} <= {n}')
        if a.t[0] != 'ptr' or a.lv is None:
            raise Unsupported('poll set')
        if a.idx is None:
            old = ex.get(a.lv)
            ex.obl('safety', 'poll stays inside its array', f'{n} <= 1')
            rev = ex.fresh('revents', INT(16, True))
            ex.assume(f'{r} == 0 ==> {rev} == 0')
            ex.assume(f'{old}.fd < 0 ==> {rev} == 0')
            ex.assume(self.nval(ex, f'{old}.fd', rev))
            ex.set(a.lv.at(('f', 'pollfd', 'revents'), INT(16, True)), rev)
        else:
            old = ex.get(a.lv)
            ex.obl('safety', 'poll stays inside its array', f'{a.idx} + {n} <= {paren(old)}.len()')
            new = ex.fresh('pollset', a.lv.t)
            ex.assume(f'{new}.len() == {paren(old)}.len()')
            inn = f'{a.idx} <= k < {a.idx} + {n}'
            ex.assume(f'forall|k: int| 0 <= k < {new}.len() ==> (#[trigger] {new}[k]).fd == {paren(old)}[k].fd && {new}[k].events == {paren(old)}[k].events && -0x8000 <= {new}[k].revents <= 0x7fff && (({inn} && {r} >= 0) || {new}[k].revents == {paren(old)}[k].revents)'
                      f' && ({inn} && {r} >= 0 && ({r} == 0 || {new}[k].fd < 0) ==> {new}[k].revents == 0)')
            nv = self.nval(ex, f'{new}[k].fd', f'{new}[k].revents')
            ex.assume(f'forall|k: int| {inn} && {r} >= 0 ==> (#[trigger] {new}[k]).fd >= -0x8000_0000 && ({nv})')
            ex.set(a.lv, new)
            fd, hu, e = self.wget(ex, 'fd'), self.wget(ex, 'hangup'), None
            self.new_errno(ex)
            e = self.wget(ex, 'errno')
            self.wset(ex, 'hangup', f'{hu} || {r} > 0 && pipe_ready({fd}, {new}, {a.idx}, {paren(a.idx)} + {n})')
            self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || {r} == -1 && {e} != 4 && {e} != 11 || {r} > 0 && poll_error({new}, {a.idx}, {paren(a.idx)} + {n})')
            t, u = self.I(ex, vs[2]), self.wget(ex, 'until')
            w = ex.let('until', 'int', f'if {paren(t)} < 0 {{ 0x7fff_ffff_ffff_ffff }} else {{ {self.wget(ex, "clock")} + {paren(t)} * 1_000_000 }}')
            self.wset(ex, 'until', f'if {u} < {w} && {paren(t)} != 0 {{ {w} }} else {{ {u} }}')
            # when nothing happened the time is over; waiting that is interrupted is not counted (the signals that are handled ask the server to exit)
            ck = ex.fresh('now', I64)
            c = self.wget(ex, 'clock')
            ex.assume(f'{c} <= {ck} <= 0x3fff_ffff_ffff_ffff && ({r} == 0 ==> {paren(t)} >= 0 && {w} <= {ck}) && ({r} == -1 ==> {ck} == {c})')
            self.wset(ex, 'clock', ck)
            return V(I32, r)
        self.new_errno(ex)
        return V(I32, r)

    def nval(self, ex, fd, rev):
        """a descriptor that is not open has no data, no end and no error (POLLNVAL only)"""
        return f'{fd} < 0 || !{self.wget(ex, "fd")}.dom().contains({fd}) ==> ' + ' && '.join(f'!hasbit({rev}, {b})' for b in (1, 2, 4, 8, 16))

    # ------------------------------------------------------------ descriptors, pipes, processes
    def f_write(self, ex, vs, node):
        h = self.I(ex, vs[0])
        fd = self.wget(ex, 'fd')
        ex.obl('pipe', 'writing to a pipe cannot block', f'{fd}[{h}].st == 7 ==> {self.wget(ex, "nb")}.contains({h})', props='C03')
        ex.obl('signals', 'writing to a closed pipe cannot kill the process', f'{fd}[{h}].st == 7 ==> {self.wget(ex, "sig")}[13] == 1', props='C03')
        v = self.f_send(ex, vs, node, low=0, what='write')
        e = self.wget(ex, 'errno')
        b = self.wget(ex, 'broken')
        self.wset(ex, 'broken', f'if {v.term} == -1 && {e} != 4 && {e} != 11 {{ {b}.insert({h}) }} else {{ {b} }}')
        # a file gets what was written over what was in it
        d = self.wget(ex, 'disk')
        self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || {fd}[{h}].st == 9 && {v.term} != {paren(self.I(ex, vs[2]))}')
        self.wset(ex, 'disk', f'if {fd}[{h}].st == 9 {{ {d}.insert({self.wget(ex, "fpath")}[{h}], overlay({self.wget(ex, "tx")}[{h}], {self.wget(ex, "under")}[{h}])) }} else {{ {d} }}')
        return v

    def f_pipe(self, ex, vs, node):
        lv, ix = self.iov(ex, vs[0], '2', 'pipe')
        r = self.result(ex)
        a, b = ex.fresh('rd', I32), ex.fresh('wr', I32)
        pid = ex.fresh('pipeid', I64)
        fd, rx, tx = (self.wget(ex, n) for n in ('fd', 'rx', 'tx'))
        sh, br = self.wget(ex, 'shared'), self.wget(ex, 'broken')
        ok = ex.let('ok', 'bool', f'{r} == 0')
        ex.assume(f'{ok} ==> {a} >= 0 && {b} >= 0 && {a} != {b} && !{fd}.dom().contains({a}) && !{fd}.dom().contains({b}) && fresh_pipe({fd}, {pid})')
        fut = ex.fresh('stream', STR, wf=False)
        self.wset(ex, 'fd', f'if {ok} {{ {fd}.insert({a}, Fd {{ st: 6, port: {pid} }}).insert({b}, Fd {{ st: 7, port: {pid} }}) }} else {{ {fd} }}')
        self.wset(ex, 'rx', f'if {ok} {{ {rx}.insert({a}, {fut}) }} else {{ {rx} }}')
        self.wset(ex, 'tx', f'if {ok} {{ {tx}.insert({b}, Seq::<u8>::empty()) }} else {{ {tx} }}')
        self.wset(ex, 'broken', f'if {ok} {{ {br}.remove({b}) }} else {{ {br} }}')
        nb = self.wget(ex, 'nb')
        self.wset(ex, 'nb', f'if {ok} {{ {nb}.remove({a}).remove({b}) }} else {{ {nb} }}')
        self.wset(ex, 'shared', f'if {ok} {{ {sh}.remove({a}).remove({b}) }} else {{ {sh} }}')
        old = ex.get(lv)
        ex.set(lv, f'if {ok} {{ {paren(old)}.update({ix}, {a}).update({ix} + 1int, {b}) }} else {{ {old} }}')
        return V(I32, r)

    def f_dup2(self, ex, vs, node):
        a, b = self.I(ex, vs[0]), self.I(ex, vs[1])
        self.is_open(ex, a, 'dup2')
        r = ex.fresh('dup', I32)
        # discarding output always works
        ex.assume(f'{r} == {b} || {r} == -1 && {self.wget(ex, "fd")}[{a}].st != 10')
        ok = ex.let('ok', 'bool', f'{r} != -1')
        fd = self.wget(ex, 'fd')
        self.wset(ex, 'fd', f'if {ok} {{ {fd}.insert({b}, {fd}[{a}]) }} else {{ {fd} }}')
        for n in ('rx', 'tx'):
            m = self.wget(ex, n)
            self.wset(ex, n, f'if {ok} {{ {m}.insert({b}, {m}[{a}]) }} else {{ {m} }}')
        self.new_errno(ex)
        return V(I32, r)

    def f_fcntl(self, ex, vs, node):
        h = self.I(ex, vs[0])
        self.is_open(ex, h, 'fcntl')
        cmd = vs[1].const
        if cmd not in (1, 2, 3, 4):
            raise Unsupported('fcntl command')
        r = ex.fresh('fl', I32)
        ex.assume(f'{r} >= -1')
        if cmd == 4:
            v = self.I(ex, vs[2])
            nb = self.wget(ex, 'nb')
            self.wset(ex, 'nb', f'if {r} == -1 {{ {nb} }} else if hasbit({v}, 2048) {{ {nb}.insert({h}) }} else {{ {nb}.remove({h}) }}')
        self.new_errno(ex)
        return V(I32, r)

    def f_signal(self, ex, vs, node):
        n = self.I(ex, vs[0])
        h = vs[1]
        if h.const is not None:
            d = str(h.const)
        elif h.t[0] == 'null':
            d = '0'
        elif h.t[0] in ('fn', 'fnptr'):
            d = '2'
        else:
            d = self.I(ex, h)
        s = self.wget(ex, 'sig')
        self.wset(ex, 'sig', f'{s}.insert({n}, {d})')
        return V(VOID)

    def f_fork(self, ex, vs, node):
        ex.presnap['fork'] = ex.st.copy()
        r = ex.fresh('pid', I32)
        ex.assume(f'{r} >= -1')
        fd, sh = self.wget(ex, 'fd'), self.wget(ex, 'shared')
        # While a server is listening: the process that serves a connection shares the listening socket with the server, and the server
        # shares the connection with it; a server that moves to the background shares the listening socket with the process that ends.
        sh2 = ex.fresh('shared', self.WORLD['shared'])
        ex.assume(f'forall|h: int| #[trigger] {sh2}.contains(h) == ({sh}.contains(h) || forked_shares({fd}, {r}, h))')
        self.wset(ex, 'shared', sh2)
        self.wset(ex, 'session', f'{self.wget(ex, "session")} || {r} == 0 && serving({fd})')
        k = self.wget(ex, 'kids')
        self.wset(ex, 'kids', f'if {r} > 0 {{ {k}.insert({r}) }} else if {r} == 0 {{ Set::empty() }} else {{ {k} }}')
        self.wset(ex, 'child', f'{self.wget(ex, "child")} || {r} == 0')
        p = self.wget(ex, 'pid')
        np = ex.fresh('self', I32)
        ex.assume(f'{np} > 0 && {np} != {p}')
        self.wset(ex, 'pid', f'if {r} == 0 {{ {np} }} else {{ {p} }}')
        self.wset(ex, 'forks', f'{self.wget(ex, "forks")} + 1')
        self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || {r} == -1')
        self.new_errno(ex)
        return V(I32, r)

    def f_waitpid(self, ex, vs, node):
        p = self.I(ex, vs[0])
        st = vs[1]
        r = ex.fresh('waited', I32)
        s = ex.fresh('status', I32)
        k = self.wget(ex, 'kids')
        flags = self.I(ex, vs[2])
        # a child that has been waited for is gone
        ex.assume(f'{r} >= -1 && 0 <= {s} <= 0xffff && ({r} > 0 ==> {r} == {p} && {k}.contains({p})) && ({r} == 0 ==> {flags} != 0)')
        ended = ex.let('ended', 'bool', f'{r} > 0 && (ws_exited({s}) || ws_killed({s}))')
        if st.t[0] == 'ptr' and st.lv is not None and st.idx is None:
            ex.set(st.lv, f'if {r} > 0 {{ {s} }} else {{ {ex.get(st.lv)} }}')
        elif st.t[0] != 'null':
            raise Unsupported('waitpid status argument')
        self.wset(ex, 'status', f'if {ended} {{ {s} }} else {{ {self.wget(ex, "status")} }}')
        self.wset(ex, 'kids', f'if {ended} {{ {k}.remove({r}) }} else {{ {k} }}')
        self.new_errno(ex)
        return V(I32, r)

    def f_wait(self, ex, vs, node):
        st = vs[0]
        r = ex.fresh('waited', I32)
        k = self.wget(ex, 'kids')
        ex.assume(f'{r} == -1 || {r} > 0 && {k}.contains({r})')
        if st.t[0] == 'ptr' and st.lv is not None and st.idx is None:
            ex.set(st.lv, ex.fresh('status', I32))
        self.wset(ex, 'kids', f'if {r} > 0 {{ {k}.remove({r}) }} else {{ {k} }}')
        self.new_errno(ex)
        # ECHILD: there is no child left to wait for
        ex.assume(f'{r} == -1 && {self.wget(ex, "errno")} == 10 ==> {self.wget(ex, "kids")} =~= Set::empty()')
        return V(I32, r)

    def f_kill(self, ex, vs, node):
        p = self.I(ex, vs[0])
        ex.obl('isolation', 'only a single child process is signalled', f'{p} > 0', props='C19 C05')
        return V(I32, self.result(ex))

    def f_getpid(self, ex, vs, node):
        p = self.wget(ex, 'pid')
        ex.assume(f'{p} > 0')
        return V(I32, p)

    def f_chdir(self, ex, vs, node):
        p = ex.let('dir', 'Seq<u8>', self.S(ex, vs[0]))
        r = self.result(ex)
        c = self.wget(ex, 'cwd')
        n = ex.fresh('cwd', STR)
        ex.assume(f'{n}.len() < 0x4000_0000 && !{n}.contains(0u8) && is_abs({n})')
        ex.assume(f'({p}.len() == 0 ==> {r} == -1) && ({p} =~= seq![47u8] ==> {r} == 0)')     # ENOENT; the root directory can be entered
        self.wset(ex, 'cwd', f'if {r} == 0 {{ {n} }} else {{ {c} }}')
        e = self.wget(ex, 'entered')
        self.wset(ex, 'entered', f'if {r} == 0 {{ {e}.push({p}) }} else {{ {e} }}')
        return V(I32, r)

    def f_setsid(self, ex, vs, node):
        r = ex.fresh('sid', I32)
        # only a process that leads a group already is refused; a process created by fork does not
        ex.assume(f'{r} >= 0 || {r} == -1 && !{self.wget(ex, "child")}')
        self.wset(ex, 'leader', f'{self.wget(ex, "leader")} || {r} != -1')
        self.new_errno(ex)
        return V(I32, r)

    def f_umask(self, ex, vs, node):
        return V(U32, ex.fresh('umask', U32))

    def exec_vec(self, ex, v):
        """contents of a null terminated array of C strings"""
        v = ex.load(v)
        if v.t[0] != 'ptr' or v.lv is None or v.idx not in ('0', None) or v.lv.t[0] not in ('vec', 'arr') or v.lv.t[1] != CPTR:
            raise Unsupported('argument vector')
        return ex.get(v.lv)

    def set_environ(self, ex, v):
        v = ex.load(v)
        if v.t[0] != 'ptr' or v.lv is None or v.idx not in ('0', None) or v.lv.t[0] not in ('vec', 'arr') or v.lv.t[1] != CPTR:
            raise Unsupported('environment array')
        self.wset(ex, 'environ', ex.get(v.lv))
        ex.environ_lv = v.lv

    def f_execv(self, ex, vs, node):
        p = ex.rv(vs[0]) if vs[0].t == CPTR else None
        path = self.S(ex, vs[0])
        av = self.exec_vec(ex, vs[1])
        ev = self.wget(ex, 'environ')
        for what, t in (('arguments', av), ('environment', ev)):
            ex.obl('safety', f'the {what} of a program end with a null pointer', f'{paren(t)}.len() > 0 && !{paren(t)}.last().nn && (forall|k: int| 0 <= k < {paren(t)}.len() - 1 ==> (#[trigger] {paren(t)}[k]).nn)')
        envlv = getattr(ex, 'environ_lv', None)
        if envlv is not None and envlv.root in ex.st.roots:
            ex.obl('safety', 'the environment is not modified after it was installed', f'{ex.get(envlv)} == {ev}')
        # whether it succeeds is not known: what is promised must hold for every attempt
        ex.exec_obls({'path': path, 'argv': av, 'env': ev})
        self.new_errno(ex)
        return V(I32, '(-1)')

    f_execvp = f_execv

    def f_exit(self, ex, vs, node):
        code = self.I(ex, vs[0])
        ex.exit_with('exit', code)
        return V(VOID)

    def f__exit(self, ex, vs, node):
        code = self.I(ex, vs[0])
        ex.exit_with('exit', code)
        return V(VOID)

    f__Exit = f__exit

    def f_abort(self, ex, vs, node):
        ex.exit_with('abort', None)
        return V(VOID)

    f_terminate = f_abort

    # ------------------------------------------------------------ files
    def f_unlink(self, ex, vs, node):
        i = self.file(ex, self.S(ex, vs[0]))
        ex.obl('isolation', 'a process that serves a connection removes no files', f'!{self.wget(ex, "session")}', props='C19 C13')
        r = self.result(ex)
        own = ex.let('own', 'bool', f'{self.wget(ex, "links")}.dom().contains({i}) || {self.wget(ex, "newfiles")}.contains({i})')
        rm = self.wget(ex, 'removed')
        self.wset(ex, 'removed', f'if {own} {{ {rm} }} else {{ {rm}.insert({i}) }}')
        for n in ('links', 'newfiles'):
            self.wset(ex, n, f'{self.wget(ex, n)}.remove({i})')
        d = self.wget(ex, 'disk')
        self.wset(ex, 'disk', f'if {r} == 0 {{ {d}.remove({i}) }} else {{ {d} }}')
        return V(I32, r)

    def f_symlink(self, ex, vs, node):
        t, p = ex.let('target', 'Seq<u8>', self.S(ex, vs[0])), ex.let('path', 'Seq<u8>', self.S(ex, vs[1]))
        r = self.result(ex)
        i = self.file(ex, p)
        d, m, l = self.wget(ex, 'disk'), self.wget(ex, 'made'), self.wget(ex, 'links')
        # an existing file is not replaced
        ex.assume(f'{r} == 0 ==> {t}.len() > 0 && {p}.len() > 0 && !{d}.dom().contains({i}) && !{l}.dom().contains({i})')
        self.wset(ex, 'made', f'if {r} == 0 {{ {m}.insert({i}, {t}) }} else {{ {m} }}')
        self.wset(ex, 'links', f'if {r} == 0 {{ {l}.insert({i}, {t}) }} else {{ {l} }}')
        self.wset(ex, 'disk', f'if {r} == 0 {{ {d}.insert({i}, {d}[fileid({self.wget(ex, "cwd")}, {t})]) }} else {{ {d} }}')
        self.fails(ex, r)
        return V(I32, r)

    def file(self, ex, p):
        return ex.let('file', 'Seq<u8>', f'fileid({self.wget(ex, "cwd")}, {paren(p)})')

    def f_link(self, ex, vs, node):
        t, p = self.file(ex, self.S(ex, vs[0])), self.file(ex, self.S(ex, vs[1]))
        r = self.result(ex)
        c = self.wget(ex, 'disk')
        # the new name denotes the same file; an existing name is not replaced
        ex.assume(f'{r} == 0 ==> {c}.dom().contains({t}) && !{c}.dom().contains({p})')
        self.wset(ex, 'disk', f'if {r} == 0 {{ {c}.insert({p}, {c}[{t}]) }} else {{ {c} }}')
        return V(I32, r)

    def f_open(self, ex, vs, node):
        name = ex.let('name', 'Seq<u8>', self.S(ex, vs[0]))
        p = self.file(ex, name)
        fl = ex.load(vs[1]).const
        if fl is None or fl & ~0o2003303:
            raise Unsupported('flags of open')
        r = ex.fresh('fd', I32)
        d = self.wget(ex, 'disk')
        there = f'{d}.dom().contains({p})'
        w = fl & 3
        if w == 2 and not fl & 0o1000 and not fl & 0o100:
            w = 3   # a device: neither contents nor position
        ok = self.new_fd(ex, r, {0: 8, 1: 9, 2: 9, 3: 10}[w])
        ex.assume(f'{name}.len() == 0 ==> {r} == -1')
        self.fails(ex, r)
        if not fl & 0o100:
            ex.assume(f'{ok} ==> {there}')
        if fl & 0o300 == 0o300:
            ex.assume(f'{ok} ==> !{there}')
        fp = self.wget(ex, 'fpath')
        self.wset(ex, 'fpath', f'if {ok} {{ {fp}.insert({r}, {p}) }} else {{ {fp} }}')
        if w == 0:
            rx = self.wget(ex, 'rx')
            self.wset(ex, 'rx', f'if {ok} {{ {rx}.insert({r}, {d}[{p}]) }} else {{ {rx} }}')
        elif w < 3:
            # a program cannot be written while it runs
            ex.assume(f'{ok} ==> {p} != {self.wget(ex, "exe")}')
            c = ex.let('old', 'Seq<u8>', 'Seq::empty()' if fl & 0o1000 else f'if {there} {{ {d}[{p}] }} else {{ Seq::empty() }}')
            un, nw = self.wget(ex, 'under'), self.wget(ex, 'newfiles')
            self.wset(ex, 'under', f'if {ok} {{ {un}.insert({r}, {c}) }} else {{ {un} }}')
            self.wset(ex, 'newfiles', f'if {ok} && !{there} {{ {nw}.insert({p}) }} else {{ {nw} }}')
            self.wset(ex, 'disk', f'if {ok} {{ {d}.insert({p}, {c}) }} else {{ {d} }}')
        self.new_errno(ex)
        return V(I32, r)

    # streams opened by name have numbers no descriptor can have
    def f_fopen(self, ex, vs, node):
        p = self.file(ex, self.S(ex, vs[0]))
        mode = vs[1].x if isinstance(vs[1].x, str) else None
        m = ex.cstr(vs[1])
        ex.obl('safety', 'files are opened for reading', f'{m} =~= seq![114u8] || {m} =~= seq![114u8, 98u8]')
        r = ex.fresh('file', I64)
        d, fp, po = self.wget(ex, 'disk'), self.wget(ex, 'fpath'), self.wget(ex, 'fpos')
        ex.assume(f'{r} == -1 || {r} >= 0x1_0000_0000 && {d}.dom().contains({p}) && {d}[{p}].len() < 0x4000_0000_0000')
        ok = ex.let('ok', 'bool', f'{r} != -1')
        self.wset(ex, 'fpath', f'if {ok} {{ {fp}.insert({r}, {p}) }} else {{ {fp} }}')
        self.wset(ex, 'fpos', f'if {ok} {{ {po}.insert({r}, 0) }} else {{ {po} }}')
        self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || !{ok}')
        self.new_errno(ex)
        return V(('file',), r)

    def stream_of(self, ex, v):
        f = ex.rv(v)
        ex.obl('safety', 'the file is open', f'{paren(f)} != -1')
        return f, f'{self.wget(ex, "disk")}[{self.wget(ex, "fpath")}[{f}]]'

    def f_fseek(self, ex, vs, node):
        f, data = self.stream_of(ex, vs[0])
        off, wh = self.I(ex, vs[1]), vs[2].const
        if wh not in (0, 1, 2):
            raise Unsupported('fseek origin')
        po = self.wget(ex, 'fpos')
        base = {0: '0', 1: f'{po}[{f}]', 2: f'({data}.len() as int)'}[wh]
        np = ex.let('pos', 'int', f'({base} + {paren(off)}) as int')
        ok = ex.let('ok', 'bool', f'seekable({self.wget(ex, "fpath")}[{f}]) && {np} >= 0')
        self.wset(ex, 'fpos', f'if {ok} {{ {po}.insert({f}, {np}) }} else {{ {po} }}')
        self.new_errno(ex)
        return V(I32, f'if {ok} {{ 0int }} else {{ -1int }}')

    def f_rewind(self, ex, vs, node):
        f, data = self.stream_of(ex, vs[0])
        po = self.wget(ex, 'fpos')
        self.wset(ex, 'fpos', f'if seekable({self.wget(ex, "fpath")}[{f}]) {{ {po}.insert({f}, 0) }} else {{ {po} }}')
        return V(VOID)

    def f_ftell(self, ex, vs, node):
        f, data = self.stream_of(ex, vs[0])
        ok = f'seekable({self.wget(ex, "fpath")}[{f}])'
        self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || !{ok}')
        self.new_errno(ex)
        return V(I64, ex.let('pos', 'int', f'if {ok} {{ {self.wget(ex, "fpos")}[{f}] }} else {{ -1 }}'))

    def f_fread(self, ex, vs, node):
        size, cnt = self.I(ex, vs[1]), self.I(ex, vs[2])
        if vs[1].const != 1 and vs[2].const != 1:
            raise Unsupported('fread of items')
        f, data = self.stream_of(ex, vs[3])
        n = ex.let('n', 'int', f'{paren(size)} * {paren(cnt)}')
        lv, ix = self.iov(ex, vs[0], n, 'fread')
        r = ex.fresh('got', U64)
        po = self.wget(ex, 'fpos')
        at = ex.let('at', 'int', f'{po}[{f}]')
        ex.assume(f'{r} <= {n} && ({r} > 0 ==> {at} + {r} <= {data}.len())')
        old = ex.get(lv)
        new = ex.fresh('buf', lv.t, wf=False)
        ex.assume(f'{new}.len() == {paren(old)}.len()')
        ex.assume(f'forall|k: int| 0 <= k < {new}.len() ==> #[trigger] {new}[k] == (if {ix} <= k < {ix} + {r} {{ {data}[{at} + k - {paren(ix)}] }} else {{ {paren(old)}[k] }})')
        ex.set(lv, new)
        self.wset(ex, 'fpos', f'{po}.insert({f}, {at} + {r})')
        self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || {r} < {n}')
        self.new_errno(ex)
        if vs[1].const == 1:
            return V(U64, r)
        return V(U64, f'if {r} == {n} && {n} > 0 {{ 1int }} else {{ 0int }}')

    def f_readlink(self, ex, vs, node):
        p = self.S(ex, vs[0])
        self_exe = 'seq![' + ', '.join(f'{c}u8' for c in b'/proc/self/exe') + ']'
        n = self.I(ex, vs[2])
        lv, ix = self.iov_str(ex, vs[1], n, 'readlink')
        e = self.wget(ex, 'exe')
        r = ex.fresh('len', I64)
        ex.assume(f'{r} == -1 && ({paren(p)} =~= {self_exe} ==> {e}.len() == 0) || {r} == (if {e}.len() <= {n} {{ {e}.len() as int }} else {{ {n} }}) || !({paren(p)} =~= {self_exe}) && 0 <= {r} <= {n}')
        old = ex.get(lv)
        new = ex.fresh('buf', lv.t, wf=False)
        ex.assume(f'{new}.len() == {paren(old)}.len()')
        ex.assume(f'forall|k: int| 0 <= k < {new}.len() && !({ix} <= k < {ix} + {r}) ==> #[trigger] {new}[k] == {paren(old)}[k]')
        ex.assume(f'{paren(p)} =~= {self_exe} ==> forall|k: int| {ix} <= k < {ix} + {r} ==> #[trigger] {new}[k] == {e}[k - {paren(ix)}]')
        ex.set(lv, new)
        ok = f'{paren(p)} =~= {self_exe} && {r} == {e}.len() && {r} < {n} && {paren(old)}[{paren(ix)} + {r}] == 0'
        self.cstr_fact(ex, ok, lv, ix, e)
        self.wset(ex, 'failed', f'{self.wget(ex, "failed")} || {r} == -1')
        self.new_errno(ex)
        return V(I64, r)

    def f_gethostname(self, ex, vs, node):
        n = self.I(ex, vs[1])
        lv, ix = self.iov_str(ex, vs[0], n, 'gethostname')
        h = self.wget(ex, 'host')
        ok = ex.let('ok', 'bool', f'{h}.len() + 1 <= {n}')
        old = ex.get(lv)
        new = ex.fresh('buf', lv.t, wf=False)
        ex.assume(f'{new}.len() == {paren(old)}.len()')
        ex.assume(f'forall|k: int| 0 <= k < {new}.len() ==> #[trigger] {new}[k] == (if {ix} <= k < {ix} + {h}.len() + 1 && {ok} {{ {h}.push(0u8)[k - {paren(ix)}] }} else {{ {paren(old)}[k] }}) || !{ok}')
        ex.set(lv, new)
        self.cstr_fact(ex, ok, lv, ix, h)
        self.new_errno(ex)
        ex.assume(f'!{ok} ==> {self.wget(ex, "errno")} == 36')
        return V(I32, f'if {ok} {{ 0int }} else {{ -1int }}')

    def iov_str(self, ex, v, n, what):
        lv, ix = self.buf(ex, v)
        ex.obl('safety', f'{what} stays inside the buffer', f'0 <= {ix} && {ix} + {n} <= {paren(ex.get(lv))}.len()')
        return lv, ix

    # ------------------------------------------------------------ standard streams
    def sid(self, v):
        if v.x in ('cin', 'cout', 'cerr'):
            return {'cin': '0', 'cout': '1', 'cerr': '2'}[v.x]
        if isinstance(v.x, tuple) and v.x[0] == 'sid':
            return v.x[1]
        raise Unsupported('stream')

    def stream_param(self, ex, cname):
        return ('sid', ex.fresh(cname, I32))

    def stream_method(self, ex, obj, name, args, node):
        i = self.sid(obj)
        f = self.wget(ex, 'feof')
        if name == 'eof':
            return V(BOOL, f'{f}[{i}]')
        if name == 'flush':
            return obj
        if name == 'setstate':
            a = args[0]
            while a.get('kind') in ('ImplicitCastExpr', 'ConstantExpr', 'ParenExpr', 'ExprWithCleanups'):
                a = a['inner'][0]
            nm = a.get('referencedDecl', {}).get('name') or a.get('name')
            if nm not in ('eofbit', '_S_eofbit'):
                raise Unsupported('setstate of other than eofbit')
            self.wset(ex, 'feof', f'{f}.insert({i}, true)')
            return V(VOID)
        raise Unsupported('stream method ' + name)

    def f_fwrite(self, ex, vs, node):
        size, cnt, file = self.I(ex, vs[1]), self.I(ex, vs[2]), ex.rv(vs[3])
        n = ex.let('n', 'int', f'{size} * {cnt}')
        lv, ix = self.iov(ex, vs[0], n, 'fwrite')
        ex.obl('safety', 'the standard stream is still open', f'!{self.wget(ex, "fclosed")}.contains({file})')
        r = ex.fresh('items', U64)
        part = ex.fresh('part', U64)
        o = self.wget(ex, 'fout')
        data = f'{paren(ex.get(lv))}.subrange({ix}, {ix} + {part})'
        ex.assume(f'{r} <= {cnt} && {r} * {paren(size)} <= {part} <= {n} && ({r} == {cnt} ==> {part} == {n}) && ({part} == {n} && {n} > 0 ==> {r} == {cnt}) && ({n} == 0 ==> {r} == 0)')
        self.wset(ex, 'fout', f'{o}.insert({file}, {o}[{file}] + {data})')
        self.new_errno(ex)
        return V(U64, r)

    def f_fclose(self, ex, vs, node):
        file = ex.rv(vs[0])
        c = self.wget(ex, 'fclosed')
        named = ex.let('named', 'bool', f'{paren(file)} >= 0x1_0000_0000')
        ex.obl('safety', 'a stream is closed only once', f'{paren(file)} != -1 && ({named} || !{c}.contains({file}))')
        self.wset(ex, 'fclosed', f'if {named} {{ {c} }} else {{ {c}.insert({file}) }}')
        # a standard stream and its descriptor have the same number
        self.wset(ex, 'fd', f'if {named} {{ {self.wget(ex, "fd")} }} else {{ {self.wget(ex, "fd")}.remove({file}) }}')
        return V(I32, self.result(ex))

    def f_fflush(self, ex, vs, node):
        return V(I32, self.result(ex))

    # ------------------------------------------------------------ time
    I64MAX = '0x7fff_ffff_ffff_ffff'

    def i64(self, ex, term, what):
        t = ex.let('tm', 'int', term)
        ex.obl('overflow', f'{what} does not overflow', f'-0x8000_0000_0000_0000 <= {t} <= {self.I64MAX}', props='C15 C23 C18')
        return t

    def f_now(self, ex, vs, node):
        c = self.wget(ex, 'clock')
        t = ex.fresh('now', I64)
        # the clock never goes back; it counts nanoseconds since the machine was started (less than 146 years)
        ex.assume(f'0 <= {t} && {c} <= {t} <= 0x3fff_ffff_ffff_ffff')
        self.wset(ex, 'clock', t)
        s = self.wget(ex, 'started')
        self.wset(ex, 'started', f'if {s} < 0 {{ {t} }} else {{ {s} }}')
        return V(('tp',), t)

    def ns(self, ex, v):
        """value of a duration in nanoseconds"""
        if v.t[1] == 1:
            return ex.rv(v)
        return self.i64(ex, f'{paren(ex.rv(v))} * {v.t[1]}', 'duration conversion')

    def operator_more(self, ex, op, a, b, node):
        ta, tb = a.t[0], b.t[0] if b is not None else None
        if ta == 'dur' and tb == 'int' and op in ('*', '/'):
            t = self.i64(ex, f'{paren(ex.rv(a))} * {self.I(ex, b)}', 'duration arithmetic') if op == '*' else f'{paren(ex.rv(a))} / {self.I(ex, b)}'
            return V(a.t, t)
        if ta == 'dur' and tb == 'dur':
            if op in ('<', '>', '<=', '>=', '==', '!='):
                x, y = (ex.rv(a), ex.rv(b)) if a.t == b.t else (self.ns(ex, a), self.ns(ex, b))
                return V(BOOL, f'{paren(x)} {op} {paren(y)}')
            if op in ('+', '-'):
                if a.t == b.t:
                    return V(a.t, self.i64(ex, f'{paren(ex.rv(a))} {op} {paren(ex.rv(b))}', 'duration arithmetic'))
                m = min(a.t[1], b.t[1])
                x = ex.rv(self.durconv(ex, a, ('dur', m)))
                y = ex.rv(self.durconv(ex, b, ('dur', m)))
                return V(('dur', m), self.i64(ex, f'{paren(x)} {op} {paren(y)}', 'duration arithmetic'))
        if ta == 'tp' and tb == 'dur' and op in ('+', '-'):
            return V(('tp',), self.i64(ex, f'{paren(ex.rv(a))} {op} {paren(self.ns(ex, b))}', 'time arithmetic'))
        if ta == 'dur' and tb == 'tp' and op == '+':
            return V(('tp',), self.i64(ex, f'{paren(self.ns(ex, a))} + {paren(ex.rv(b))}', 'time arithmetic'))
        if ta == 'tp' and tb == 'tp':
            if op == '-':
                return V(('dur', 1), self.i64(ex, f'{paren(ex.rv(a))} - {paren(ex.rv(b))}', 'time arithmetic'))
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return V(BOOL, f'{paren(ex.rv(a))} {op} {paren(ex.rv(b))}')
        if ta == 'dur' and op in ('*=', '/='):
            t = self.i64(ex, f'{paren(ex.rv(a))} * {self.I(ex, b)}', 'duration arithmetic') if op == '*=' else f'{paren(ex.rv(a))} / {self.I(ex, b)}'
            ex.set(a.lv, t)
            return a
        if op == '+=' and ta in ('tp', 'dur') and tb == 'dur':
            t = self.i64(ex, f'{paren(ex.rv(a))} + {paren(self.ns(ex, b) if ta == "tp" else ex.rv(self.durconv(ex, b, a.t)))}', 'time arithmetic')
            ex.set(a.lv, t)
            return a
        return None

    def method_more(self, ex, obj, name, vs, node):
        if obj.t[0] == 'dur' and name == 'count':
            return V(I64, ex.rv(obj))
        return None

    def f_duration_cast(self, ex, vs, node):
        t = ex.typ(node)
        v = vs[0]
        if t[0] == 'dur' and v.t[0] == 'dur':
            if v.t[1] % t[1] == 0:
                return self.durconv(ex, v, t)
            if t[1] % v.t[1] == 0:
                # rounds towards zero
                k = t[1] // v.t[1]
                x = paren(ex.rv(v))
                return V(t, ex.let('dur', 'int', f'if {x} >= 0 {{ {x} / {k} }} else {{ -((-{x}) / {k}) }}'))
        raise Unsupported('duration_cast')

    def pause(self, ex, t):
        c = self.wget(ex, 'clock')
        ex.obl('time', 'a pause is at most one second', f'{t} <= {c} + 1_000_000_000', props='C23')
        n = ex.fresh('now', I64)
        ex.assume(f'{c} <= {n} <= 0x3fff_ffff_ffff_ffff && {t} <= {n}')
        self.wset(ex, 'clock', n)
        s = self.wget(ex, 'slept')
        self.wset(ex, 'slept', f'if {s} < {t} {{ {t} }} else {{ {s} }}')
        return V(VOID)

    def f_sleep_until(self, ex, vs, node):
        return self.pause(ex, ex.rv(vs[0]))

    def f_sleep_for(self, ex, vs, node):
        d = self.ns(ex, vs[0])
        c = self.wget(ex, 'clock')
        return self.pause(ex, ex.let('until', 'int', f'{c} + {paren(d)}'))
