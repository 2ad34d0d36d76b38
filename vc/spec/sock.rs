// Descriptors of the process. st: 1 new socket, 2 bound, 3 listening, 4 connected, 5 accepted, 6 pipe (reading end), 7 pipe (writing end), 8 file
pub ghost struct Fd { pub st: int, pub port: int }
pub open spec fn bswap16(x: int) -> int { (x % 256) * 256 + x / 256 }
pub broadcast proof fn lemma_bswap(x: int) requires 0 <= x <= 0xffff ensures 0 <= #[trigger] bswap16(x) <= 0xffff, bswap16(bswap16(x)) == x { }
pub open spec fn data_socket(fd: Map<int, Fd>, h: int) -> bool { h != -1 && fd.dom().contains(h) && (fd[h].st == 4 || fd[h].st == 5) }
pub open spec fn sockok(fd: Map<int, Fd>, h: int) -> bool { h == -1 || h >= 0 && fd.dom().contains(h) && 1 <= fd[h].st <= 5 }
pub open spec fn is_part(s: Seq<u8>, t: Seq<u8>) -> bool { s.len() <= t.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == t[k] }
pub open spec fn part_sent(a: Map<int, Seq<u8>>, b: Map<int, Seq<u8>>, h: int, d: Seq<u8>) -> bool {
    (forall|k: int| k != h ==> #[trigger] b[k] == a[k]) && is_part(a[h], b[h]) && is_part(b[h], a[h] + d)
}
// b is a with the stream of descriptor h set to v
pub open spec fn ins(a: Map<int, Seq<u8>>, b: Map<int, Seq<u8>>, h: int, v: Seq<u8>) -> bool { (forall|k: int| k != h ==> #[trigger] b[k] == a[k]) && b[h] =~= v }
// the streams of the descriptors that are open are the same
pub open spec fn kept(fd: Map<int, Fd>, a: Map<int, Seq<u8>>, b: Map<int, Seq<u8>>) -> bool { forall|k: int| fd.dom().contains(k) ==> #[trigger] b[k] == a[k] }
