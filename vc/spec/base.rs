// Basic vocabulary of the verification conditions: C++ characters, machine arithmetic, std::string operations.
pub open spec fn MAXLEN() -> int { 0x3fff_ffff_ffff_ffff }
pub open spec fn NPOS() -> int { 0xffff_ffff_ffff_ffff }
pub open spec fn ch(c: u8) -> int { if c < 128 { c as int } else { c as int - 256 } }
pub open spec fn bt(x: int) -> u8 { (x % 256) as u8 }
pub open spec fn at0(s: Seq<u8>, i: int) -> u8 { if 0 <= i < s.len() { s[i] } else { 0u8 } }
pub open spec fn uadd64(a: int, b: int) -> int { if a + b <= 0xffff_ffff_ffff_ffff { a + b } else { a + b - 0x1_0000_0000_0000_0000 } }
pub open spec fn usub64(a: int, b: int) -> int { if a >= b { a - b } else { a - b + 0x1_0000_0000_0000_0000 } }
pub open spec fn uadd32(a: int, b: int) -> int { if a + b <= 0xffff_ffff { a + b } else { a + b - 0x1_0000_0000 } }
pub open spec fn usub32(a: int, b: int) -> int { if a >= b { a - b } else { a - b + 0x1_0000_0000 } }
pub open spec fn uadd16(a: int, b: int) -> int { if a + b <= 0xffff { a + b } else { a + b - 0x1_0000 } }
pub open spec fn usub16(a: int, b: int) -> int { if a >= b { a - b } else { a - b + 0x1_0000 } }
pub open spec fn wrapu(x: int, m: int) -> int { x % m }
pub open spec fn wraps(x: int, m: int) -> int { if x % m < m / 2 { x % m } else { x % m - m } }
pub open spec fn s2u64(x: int) -> int { if x >= 0 { x } else { x + 0x1_0000_0000_0000_0000 } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub uninterp spec fn bor(x: int, y: int) -> int;
pub uninterp spec fn band(x: int, y: int) -> int;
pub open spec fn hasbit(x: int, c: int) -> bool { x != 0 && band(x, c) != 0 }

pub ghost struct CP { pub nn: bool, pub s: Seq<u8> }
pub ghost struct SP<T> { pub nn: bool, pub sh: bool, pub v: T }
pub open spec fn cwf(p: CP) -> bool { p.s.len() <= MAXLEN() && !p.s.contains(0u8) }

// prefix before the first NUL
pub open spec fn cstr_len(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || s[i] == 0 { i } else { cstr_len(s, i + 1) } }
pub open spec fn cstr(s: Seq<u8>) -> Seq<u8> { s.subrange(0, cstr_len(s, 0)) }

pub open spec fn ssub(s: Seq<u8>, pos: int, n: int) -> Seq<u8> { if n <= s.len() - pos { s.subrange(pos, pos + n) } else { s.subrange(pos, s.len() as int) } }
pub open spec fn serase(s: Seq<u8>, pos: int, n: int) -> Seq<u8> { if n <= s.len() - pos { s.subrange(0, pos) + s.subrange(pos + n, s.len() as int) } else { s.subrange(0, pos) } }
pub open spec fn sreplace(s: Seq<u8>, pos: int, n: int, t: Seq<u8>) -> Seq<u8> { if n <= s.len() - pos { s.subrange(0, pos) + t + s.subrange(pos + n, s.len() as int) } else { s.subrange(0, pos) + t } }
pub open spec fn sresize(s: Seq<u8>, n: int, c: u8) -> Seq<u8> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { c }) }
pub open spec fn match_at(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p }
pub open spec fn sfind(s: Seq<u8>, p: Seq<u8>, pos: int) -> int decreases s.len() - pos { if pos < 0 || pos + p.len() > s.len() { NPOS() } else if match_at(s, p, pos) { pos } else { sfind(s, p, pos + 1) } }
pub open spec fn sfindc(s: Seq<u8>, c: u8, pos: int) -> int decreases s.len() - pos { if pos < 0 || pos >= s.len() { NPOS() } else if s[pos] == c { pos } else { sfindc(s, c, pos + 1) } }
pub open spec fn srfind(s: Seq<u8>, p: Seq<u8>, pos: int) -> int decreases pos + 1 when pos >= -1 { if pos + p.len() > s.len() { if s.len() < p.len() { NPOS() } else { srfind0(s, p, s.len() - p.len()) } } else { srfind0(s, p, pos) } }
pub open spec fn srfind0(s: Seq<u8>, p: Seq<u8>, pos: int) -> int decreases pos + 1 { if pos < 0 { NPOS() } else if match_at(s, p, pos) { pos } else { srfind0(s, p, pos - 1) } }

pub open spec fn up(c: u8) -> u8 { if 97 <= c <= 122 { (c - 32) as u8 } else { c } }
pub open spec fn match_ci(s: Seq<u8>, p: Seq<u8>, i: int, ci: bool) -> bool { 0 <= i && i + p.len() <= s.len() && forall|k: int| 0 <= k < p.len() ==> #[trigger] s[i + k] == p[k] || (ci && up(s[i + k]) == up(p[k])) }
pub open spec fn search(s: Seq<u8>, p: Seq<u8>, pos: int, ci: bool) -> int decreases s.len() - pos { if pos < 0 || pos + p.len() > s.len() { s.len() as int } else if match_ci(s, p, pos, ci) { pos } else { search(s, p, pos + 1, ci) } }

// library functions with a trusted meaning
pub uninterp spec fn stoll_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn stoll_val(s: Seq<u8>) -> int;
pub uninterp spec fn stoul_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn stoul_val(s: Seq<u8>) -> int;
pub uninterp spec fn dec_str(n: int) -> Seq<u8>;
pub open spec fn env_get(env: Map<Seq<u8>, Seq<u8>>, name: Seq<u8>) -> CP { if env.dom().contains(name) { CP { nn: true, s: env[name] } } else { CP { nn: false, s: Seq::empty() } } }
pub uninterp spec fn mapkeys<K, W>(m: Map<K, W>) -> Seq<K>;
pub open spec fn is_ws(c: u8) -> bool { 9 <= c <= 13 || c == 32 }
