// Messages: one kind byte, four bytes little-endian length or value, payload
pub open spec fn le32(s: Seq<u8>) -> int { s[1] as int + s[2] as int * 0x100 + s[3] as int * 0x1_0000 + s[4] as int * 0x100_0000 }
pub open spec fn msg(t: int, p: Seq<u8>) -> Seq<u8> { msgv(t, p.len() as int) + p }
pub open spec fn msgv(t: int, n: int) -> Seq<u8> { seq![bt(t), bt(n), bt(n / 0x100), bt(n / 0x1_0000), bt(n / 0x100_0000)] }
// what a receiver is still going to deliver: the buffered bytes and then the rest of the connection
pub open spec fn pending(d: Seq<u8>, a: int, b: int, r: Seq<u8>) -> Seq<u8> { d.subrange(a, b) + r }
pub open spec fn take(s: Seq<u8>, n: int) -> Seq<u8> { s.subrange(0, n) }
pub open spec fn payload(s: Seq<u8>) -> Seq<u8> { s.subrange(5, 5 + le32(s)) }
pub proof fn lemma_msgv(t: int, n: int) requires 0 <= t < 256, 0 <= n < 0x1_0000_0000 ensures msgv(t, n).len() == 5, msgv(t, n)[0] == t, le32(msgv(t, n)) == n {
    assert(n / 0x1_0000 == n / 0x100 / 0x100); assert(n / 0x100_0000 == n / 0x1_0000 / 0x100);
}
// A message is decoded as what was sent, whatever follows it.
pub proof fn lemma_roundtrip(t: int, p: Seq<u8>, r: Seq<u8>) requires 0 <= t < 256, p.len() < 0x1_0000_0000
    ensures ({ let s = msg(t, p) + r; s.len() >= 5 + p.len() && s[0] == t && le32(s) == p.len() && payload(s) =~= p && s.skip(5 + p.len() as int) =~= r })
{
    lemma_msgv(t, p.len() as int);
    let s = msg(t, p) + r; let h = msgv(t, p.len() as int);
    assert(s[0] == h[0] && s[1] == h[1] && s[2] == h[2] && s[3] == h[3] && s[4] == h[4]);
    assert(payload(s) =~= p);
    assert(s.skip(5 + p.len() as int) =~= r);
}
