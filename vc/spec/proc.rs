// Pipes: both ends carry the same number
pub open spec fn fresh_pipe(fd: Map<int, Fd>, id: int) -> bool { forall|h: int| fd.dom().contains(h) && (#[trigger] fd[h].st == 6 || fd[h].st == 7) ==> fd[h].port != id }
pub open spec fn pipeok(fd: Map<int, Fd>, i: int, o: int) -> bool {
    i >= -1 && o >= -1 && (i >= 0 ==> fd.dom().contains(i) && fd[i].st == 7) && (o >= 0 ==> fd.dom().contains(o) && fd[o].st == 6)
}
pub open spec fn without(fd: Map<int, Fd>, h: int) -> Map<int, Fd> { if h >= 0 { fd.remove(h) } else { fd } }
// The process listens and has an accepted connection: what it starts next is a process that serves the connection.
pub open spec fn has_st(fd: Map<int, Fd>, st: int) -> bool { exists|h: int| fd.dom().contains(h) && #[trigger] fd[h].st == st }
pub open spec fn serving(fd: Map<int, Fd>) -> bool { has_st(fd, 3) && has_st(fd, 5) }
pub open spec fn forked_shares(fd: Map<int, Fd>, r: int, h: int) -> bool {
    fd.dom().contains(h) && (if serving(fd) { r == 0 && fd[h].st == 3 || r > 0 && fd[h].st == 5 } else { r > 0 && fd[h].st == 3 })
}
// wait status: terminated normally, by a signal
pub open spec fn ws_exited(s: int) -> bool { s % 128 == 0 }
pub open spec fn ws_killed(s: int) -> bool { s % 128 != 0 && s % 128 != 127 }
pub open spec fn ws_code(s: int) -> int { s / 256 % 256 }
// the file a name denotes for a process whose working directory is cwd
pub open spec fn fileid(cwd: Seq<u8>, p: Seq<u8>) -> Seq<u8> { if is_abs(p) { p } else { cwd.push(47u8) + p } }
pub open spec fn setb(a: Map<int, bool>, b: Map<int, bool>, h: int) -> bool { forall|k: int| #[trigger] b[k] == (k == h || a[k]) }
// contents of a file after t was written from its start over u
pub open spec fn overlay(t: Seq<u8>, u: Seq<u8>) -> Seq<u8> { if t.len() < u.len() { t + u.skip(t.len() as int) } else { t } }
pub uninterp spec fn seekable(f: Seq<u8>) -> bool;
// the other end of a pipe was closed, an error was reported
pub open spec fn ready_bits(e: int) -> bool { hasbit(e, 1) || hasbit(e, 8) || hasbit(e, 16) }
pub open spec fn pipe_ready(fd: Map<int, Fd>, p: Seq<pollfd>, a: int, b: int) -> bool { exists|k: int| a <= k < b && 0 <= k < p.len() && fd[(#[trigger] p[k]).fd].st == 6 && fd.dom().contains(p[k].fd) && ready_bits(p[k].revents) }
pub open spec fn poll_error(p: Seq<pollfd>, a: int, b: int) -> bool { exists|k: int| a <= k < b && 0 <= k < p.len() && hasbit((#[trigger] p[k]).revents, 8) }
// EAGAIN, ECONNABORTED, EINTR, EMFILE, ENFILE, ENOBUFS, ENOMEM: may work later
pub open spec fn accept_again(e: int) -> bool { e == 11 || e == 103 || e == 4 || e == 24 || e == 23 || e == 105 || e == 12 }
