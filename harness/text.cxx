// Bounded check of the text-handling code of k8psh against independent oracles.
// usage: text PROPERTY SEED SECONDS
#include "common.hxx"
#include "Configuration.hxx"
#include "Utilities.hxx"
#include <stdexcept>

using k8psh::Utilities;
using k8psh::OptionalString;
typedef std::string S;
typedef std::vector<S> VS;
static S scratch;

// Calls f on every string over the alphabet of length up to n.
static void strings(const S &alphabet, int n, const std::function<void (const S &)> &f)
{
	std::function<void (S &, int)> go = [&](S &s, int k) { f(s); if (k == 0) return; for (char c : alphabet) { s.push_back(c); go(s, k - 1); s.pop_back(); } };
	S s;
	go(s, n);
}
static S randomString(Rng &r, const S &alphabet, int maxLength) { S s; for (std::size_t n = r.below(std::size_t(maxLength) + 1); n; n--) s += alphabet[r.below(alphabet.size())]; return s; }
static VS splitOn(const S &s, char d) { VS v; S c; for (char x : s) { if (x == d) { v.push_back(c); c.clear(); } else c += x; } v.push_back(c); return v; }
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
static S joinWith(const VS &v, const S &d) { S r; for (std::size_t i = 0; i < v.size(); i++) { if (i) r += d; r += v[i]; } return r; }
static S showAll(const VS &v) { S r = "["; for (auto &x : v) r += (r.size() > 1 ? ", " : "") + showBytes(x); return r + "]"; }
static void expect(const S &got, const S &want, const S &what) { if (got != want) failCase(what + ": got " + showBytes(got) + ", expected " + showBytes(want)); }

// ---------------------------------------------------------------- C11 normalization
static S normalOracle(const S &full)
{
	const S p = full.substr(0, full.find('\0'));
	const bool abs = !p.empty() && p[0] == '/';
	VS st;
	for (auto &c : splitOn(p, '/'))
	{
		if (c.empty() || c == ".") continue;
		if (c == ".." && !st.empty() && st.back() != "..") st.pop_back();
		else if (c == ".." && abs) ;
		else st.push_back(c);
	}
	return (abs ? "/" : "") + joinWith(st, "/");
}
static void c11(const S &p)
{
	begin("normalizePath", "normalizePath(" + showBytes(p) + ")");
	const S r = Utilities::normalizePath(p);
	expect(r, normalOracle(p), "normal form");
	expect(Utilities::normalizePath(r), r, "normalizing again");
	if (Utilities::isAbsolutePath(r) != (!p.empty() && p[0] == '/')) failCase("absoluteness differs");
}

// ---------------------------------------------------------------- C12 relativization
static void c12(const S &parent, const S &path)
{
	if (parent.empty() || path.empty() || parent[0] != '/' || path[0] != '/' || parent.find('\0') != S::npos) return;
	begin("relativizePath", "relativizePath(" + showBytes(parent) + ", " + showBytes(path) + ")");
	auto comps = [](const S &s) { VS v; for (auto &c : splitOn(s, '/')) if (!c.empty() && c != ".") v.push_back(c); return v; };
	VS a = comps(parent);
	// position behind the first a.size() components of path and what separates them from the rest
	std::size_t i = 0;
	bool ok = true;
	auto skip = [&]() { for (;;) { if (i < path.size() && path[i] == '/') i++; else if (i < path.size() && path[i] == '.' && (i + 1 == path.size() || path[i + 1] == '/')) i++; else break; } };
	skip();
	for (auto &c : a)
	{
		std::size_t e = path.find('/', i);
		if (e == S::npos) e = path.size();
		if (path.substr(i, e - i) != c) { ok = false; break; }
		i = e;
		skip();
	}
	S got;
	bool err = throws([&]() { got = Utilities::relativizePath(parent, path); });
	if (err && ok) failCase("rejected although the parent contains the path");
	if (!err && !ok) failCase("accepted (result " + showBytes(got) + ") although the parent does not contain the path");
	if (ok) expect(got, path.substr(i), "remaining path");
}

// ---------------------------------------------------------------- C08 substitution
typedef std::map<S, S> Env;
static const Env &testEnv() { static Env e = { { "A", "1" }, { "B", "" }, { "LONG_NAME", "${A}" }, { "C", "x}y" } }; return e; }
static S substOracle(const S &in, const Env &ov)
{
	S r;
	std::size_t i = 0;
	while (i < in.size())
	{
		if (in.compare(i, 2, "${") == 0)
		{
			std::size_t j = i + 2;
			while (j < in.size() && (isalnum((unsigned char)in[j]) || (in[j] && strchr("_ ().-", in[j])))) j++;
			std::size_t end = S::npos;
			S def;
			if (j < in.size() && in[j] == '}') end = j;
			else if (in.compare(j, 2, ":-") == 0) { end = in.find('}', j + 2); if (end != S::npos) def = in.substr(j + 2, end - j - 2); }
			if (end != S::npos)
			{
				const S name = in.substr(i + 2, j - i - 2);
				auto o = ov.find(name);
				auto e = testEnv().find(name);
				r += o != ov.end() ? o->second : e != testEnv().end() ? e->second : def;
				i = end + 1;
				continue;
			}
		}
		r += in[i++];
	}
	return r;
}
static void c08(const S &in, bool withOverrides)
{
	begin("substituteEnvironmentVariables", "substituteEnvironmentVariables(" + showBytes(in) + (withOverrides ? ", {A=o, D=d, B unset})" : ")"));
	std::unordered_map<S, OptionalString> ov;
	Env oe;
	if (withOverrides) { ov["A"] = OptionalString(S("o")); ov["D"] = OptionalString(S("d")); ov["B"] = OptionalString(); oe = { { "A", "o" }, { "D", "d" } }; }
	expect(Utilities::substituteEnvironmentVariables(in, ov), substOracle(in, oe), "result");
}

// ---------------------------------------------------------------- C22 names
static void c22(const S &p)
{
	begin("getBasename", "getBasename/getExecutableBasename/getParentDirectory(" + showBytes(p) + ")");
	S t = p;
	while (t.size() > 1 && t.back() == '/') t.pop_back();
	S base = p.empty() ? "." : t == "/" ? "/" : t.substr(t.rfind('/') == S::npos ? 0 : t.rfind('/') + 1);
	expect(Utilities::getBasename(p), base, "getBasename");
	expect(Utilities::getExecutableBasename(p), base, "getExecutableBasename");
	S dir = p.substr(0, p.rfind('/') == S::npos ? 0 : p.rfind('/') + 1);
	while (dir.size() > 1 && dir.back() == '/') dir.pop_back();
	expect(Utilities::getParentDirectory(p), dir, "getParentDirectory");
}
static void readFileCase(const S &content)
{
	const S f = scratch + "/file";
	std::FILE *h = std::fopen(f.c_str(), "wb");
	std::fwrite(content.data(), 1, content.size(), h);
	std::fclose(h);
	begin("readFile", "readFile of a file with " + std::to_string(content.size()) + " bytes " + showBytes(content.substr(0, 60)));
	OptionalString r = Utilities::readFile(f);
	if (!r) failCase("the file was not read");
	expect(r, content, "content");
	begin("readFile", "readFile of a missing file");
	if (Utilities::readFile(f + ".missing")) failCase("reported as read");
}

// ---------------------------------------------------------------- C21 debug names
static void c21(const S &list, const S &file, const S &name)
{
	if (list.find('\0') != S::npos) return;
	begin("shouldLogDebug", "K8PSH_DEBUG=" + showBytes(list) + ", shouldLogDebug(" + showBytes(file) + ")");
	setenv("K8PSH_DEBUG", list.c_str(), 1);
	auto upper = [](S s) { for (char &c : s) if (c >= 'a' && c <= 'z') c = char(c - 32); return s; };
	bool want = false;
	S l = list;
	for (char &c : l) if (c == ';') c = ',';
	for (auto &e : splitOn(l, ','))
	{
		std::size_t a = e.find_first_not_of(" \t\n\v\f\r"), b = e.find_last_not_of(" \t\n\v\f\r");
		const S x = a == S::npos ? S() : upper(e.substr(a, b - a + 1));
		want = want || (!x.empty() && (x == upper(name) || x == "ALL"));
	}
	const bool got = k8psh::Logger::shouldLogDebug(file.c_str());
	unsetenv("K8PSH_DEBUG");
	if (got != want) failCase(S("debug output is ") + (got ? "enabled" : "disabled") + ", expected the opposite");
}

// ---------------------------------------------------------------- C09 words and C10 configurations
struct Word { S text, value; };
// A word with its meaning. `plain`: characters that may appear unquoted.
static S unq(Rng &r) { static const S a = "abcXYZ019_.,:/@%+-~^&*(){}|;<>!`$"; S s; for (std::size_t n = 1 + r.below(5); n; n--) { char c = a[r.below(a.size())]; s += c; } return s; }
static Word randomWord(Rng &r, bool equals)
{
	Word w;
	S pending;      // unquoted and double quoted text whose references are substituted together
	auto flush = [&]() { w.value += substOracle(pending, Env()); pending.clear(); };
	for (std::size_t n = 1 + r.below(3); n; n--)
	{
		switch (r.below(6))
		{
		case 0: case 1: { S u = unq(r); if (equals && r.chance(50)) u += "="; w.text += u; pending += u; break; }
		case 2: { // single quoted (two of them must not touch)
			if (!w.text.empty() && w.text.back() == '\'') { w.text += "k"; pending += "k"; }
			flush();
			w.text += "'";
			for (std::size_t k = r.below(6); k; k--) { static const S a = "ab #\"\\\t\n[]={}$A'\x01\xff"; char c = a[r.below(a.size())]; w.value += c; w.text += c; if (c == '\'') w.text += c; }
			w.text += "'";
			break; }
		case 3: { // double quoted
			if (!w.text.empty() && w.text.back() == '"') { w.text += "k"; pending += "k"; }
			w.text += "\"";
			for (std::size_t k = r.below(6); k; k--)
			{
				static const char *esc[][2] = { { "\\\"", "\"" }, { "\"\"", "\"" }, { "\\\\", "\\" }, { "\\'", "'" }, { "\\b", "\b" }, { "\\t", "\t" }, { "\\n", "\n" }, { "\\f", "\f" }, { "\\r", "\r" } };
				if (r.chance(40)) { auto &e = esc[r.below(9)]; w.text += e[0]; pending += e[1]; }
				else if (r.chance(10)) { w.text += "\\0"; pending += '\0'; }
				else if (r.chance(40)) { static const char *d = "0123456789abcdefABCDEF"; char h = d[r.below(22)], l = d[r.below(22)]; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; w.text += S("\\x") + h + l; pending += char(v(h) * 16 + v(l)); }
				else { static const S a = "ab #'\t\n[]={}A\x01\xff"; char c = a[r.below(a.size())]; w.text += c; pending += c; }
			}
			w.text += "\"";
			break; }
		default: { static const char *refs[] = { "${A}", "${B}", "${MISSING}", "${MISSING:-d}", "${A:-d}", "${LONG_NAME}", "${", "${A", "$A", "${?}" }; S u = refs[r.below(10)]; w.text += u; pending += u; break; }
		}
	}
	flush();
	return w;
}
static S blanks(Rng &r, bool atLeastOne) { S s; for (std::size_t n = (atLeastOne ? 1 : 0) + r.below(3); n; n--) s += r.chance(70) ? ' ' : '\t'; return s; }
static S lineEnd(Rng &r) { static const char *e[] = { "\n", " \n", "\t # comment [x] \"\n", " # c\n", "\r\n", "\n\n", "#c\n", "\n  # c\n" }; return e[r.below(8)]; }

struct Expected
{
	S base; long long timeout = 30000;
	struct Cmd { S host; unsigned port; VS options; VS exe; std::vector<std::pair<S, S> > env; };
	std::map<S, Cmd> all;
	std::map<S, std::map<S, Cmd> > hosts;
};
static S describe(const k8psh::Configuration::Command &c)
{
	S r = c.getName() + " @" + c.getHost().getHostname() + ":" + std::to_string(c.getHost().getPort()) + " options " + showAll(c.getHost().getOptions()) + " exe " + showAll(c.getExecutable()) + " env ";
	for (auto &e : c.getEnvironmentVariables()) r += showBytes(e.first) + "=" + showBytes(e.second) + " ";
	return r;
}
static S describe(const S &name, const Expected::Cmd &c)
{
	S r = name + " @" + c.host + ":" + std::to_string(c.port) + " options " + showAll(c.options) + " exe " + showAll(c.exe) + " env ";
	for (auto &e : c.env) r += showBytes(e.first) + "=" + showBytes(e.second) + " ";
	return r;
}
static void loadCase(const S &text, const Expected *want, const S &what)
{
	begin("load", "Configuration::load(" + showBytes(text) + ")");
	k8psh::Configuration got;
	S error;
	try { got = k8psh::Configuration::load(text, scratch); } catch (const std::exception &e) { error = e.what(); if (error.empty()) error = "?"; }
	if (!want) { if (error.empty()) failCase("accepted although " + what); return; }
	if (!error.empty()) failCase("rejected: " + error);
	expect(got.getBaseDirectory(), want->base, "base directory");
	if (got.getConnectTimeoutMs() != want->timeout) failCase("connect timeout " + std::to_string(got.getConnectTimeoutMs()) + ", expected " + std::to_string(want->timeout));
	if (got.getCommands().size() != want->all.size()) failCase("number of commands: " + std::to_string(got.getCommands().size()) + ", expected " + std::to_string(want->all.size()));
	for (auto &w : want->all)
	{
		auto it = got.getCommands().find(w.first);
		if (it == got.getCommands().end()) failCase("command " + showBytes(w.first) + " is missing");
		expect(describe(it->second), describe(w.first, w.second), "command");
	}
	for (auto &h : want->hosts)
	{
		auto *m = got.getCommands(h.first);
		if (!m || m->size() != h.second.size()) failCase("commands of host " + showBytes(h.first) + " differ in number");
		for (auto &w : h.second)
		{
			auto it = m->find(w.first);
			if (it == m->end()) failCase("command " + showBytes(w.first) + " is not listed under its host");
			expect(describe(it->second), describe(w.first, w.second), "command of the host");
		}
	}
	if (got.getCommands("no such host")) failCase("commands for an unknown host");
}
static S quoteWord(Rng &r, const S &v)
{
	static const S special = " \t\r\n\v\f#'\"=]\\";
	bool plain = !v.empty() && v.find("${") == S::npos;
	for (char c : v) if (special.find(c) != S::npos || c == 0) plain = false;
	if (plain && r.chance(70)) return v;
	S s = "'";
	for (char c : v) { s += c; if (c == '\'') s += c; }
	return s + "'";
}
static void randomConfig(Rng &r, bool words)
{
	Expected e;
	e.base = scratch;
	S t;
	if (r.chance(30)) t += lineEnd(r);
	if (r.chance(30)) { S d = r.chance(50) ? scratch + "/x/../y//z/." : "sub/./.."; t += "baseDirectory" + blanks(r, false) + "=" + blanks(r, false) + d + lineEnd(r); e.base = normalOracle(d[0] == '/' ? d : scratch + "/" + d); }
	if (r.chance(30)) { static const long long v[] = { 0, -1, 5, 60000, 1ll << 40 }; e.timeout = v[r.below(5)]; t += "connectTimeoutMs =" + blanks(r, false) + std::to_string(e.timeout) + lineEnd(r); }
	unsigned long port = 1120;
	std::size_t nh = r.below(4);
	for (std::size_t h = 0; h < nh; h++)
	{
		static const VS names = { "alpha", "beta", "a-b.c", "h" };
		S name = names[r.below(4)];
		S tag = name;
		if (r.chance(40)) { static const unsigned long p[] = { 0, 1, 80, 2102, 65534, 65535, 8080 }; port = p[r.below(7)]; tag += ":" + (r.chance(20) ? "00" + std::to_string(port) : std::to_string(port)); }
		if (port > 65535) { t += "[" + tag + "]\nx\n"; loadCase(t, nullptr, "a port is out of range"); return; }
		t += "[" + blanks(r, false) + tag + blanks(r, false) + "]";
		std::vector<std::pair<S, S> > henv;
		VS options;
		for (std::size_t k = r.below(3); k; k--) { static const VS w = { "E=1", "?F=", "=G=x y", "H=a=b", "=PATH=", "Q='" }; S x = w[r.below(6)]; t += blanks(r, true) + quoteWord(r, x); std::size_t q = x.find('=', 1); henv.push_back({ x.substr(0, q), x.substr(q + 1) }); }
		for (std::size_t k = r.below(3); k; k--) { static const VS w = { "--timeout=5", "--overwrite", "-x", "plain", "", "--a=b" }; VS c = options.empty() ? VS{ "--timeout=5", "--overwrite", "plain", "" } : w; S x = c[r.below(c.size())]; t += blanks(r, true) + quoteWord(r, x); options.push_back(x); }
		if (!options.empty() && r.chance(30)) { t += " Z=1"; options.push_back("Z=1"); }
		t += lineEnd(r);
		for (std::size_t c = r.below(4); c; c--)
		{
			Expected::Cmd cmd { name, unsigned(port), options, {}, henv };
			static const VS cn = { "gcc", "g++", "make", "c d", "x=y" };
			S cname = cn[r.below(5)];
			t += blanks(r, false) + quoteWord(r, cname);
			for (std::size_t k = r.below(3); k; k--) { static const VS w = { "E=2", "?I=", "=J=", "K=", "L==" }; S x = w[r.below(5)]; t += blanks(r, true) + quoteWord(r, x); std::size_t q = x.find('=', 1); cmd.env.push_back({ x.substr(0, q), x.substr(q + 1) }); }
			if (r.chance(70))
			{
				static const VS first = { "/bin/true", "exe", "", "=" }, rest = { "a", "b=c", "", "--opt=1", " " };
				S x = first[r.below(4)];
				t += blanks(r, true) + quoteWord(r, x);
				cmd.exe.push_back(x);
				// an empty first word is still the program
				for (std::size_t k = r.below(3); k; k--) { S y = rest[r.below(5)]; t += blanks(r, true) + quoteWord(r, y); cmd.exe.push_back(y); }
				if (words) { Word w = randomWord(r, true); t += " " + w.text; cmd.exe.push_back(w.value); }
			}
			if (cmd.exe.empty()) cmd.exe.push_back(cname);
			t += lineEnd(r);
			e.all[cname] = cmd;
			e.hosts[name][cname] = cmd;
		}
		port++;
	}
	if (r.chance(20) && !t.empty()) { while (!t.empty() && t.back() == '\n') t.pop_back(); }
	loadCase(t, &e, "");
	// malformed variants
	static const char *bad[] = { "unknownKey = 1\n", "baseDirectory = /tmp extra\n", "connectTimeoutMs = abc\n", "connectTimeoutMs = 99999999999999999999\n", "[ ]\n", "[ a b ]\n", "[ a\n", "[a:65536]\n", "[a:x]\n", "[a:-1]\n", "[a:+1]\n", "[a:99999999999999999999]\n", "[a:]\n", "[a:1x]\nc\n",
		"[a]\nc 'unterminated\n", "[a]\nc \"unterminated\n", "[a]\nc \"\\q\"\n", "[a]\nc \"\\xg0\"\n", "[a]\nc \"\\x0g\"\n", "[a]\nc \"\\x\"\n", "[a]\nc \"\\x1\"\n", "[a]\nc \"\\x/0\"\n", "[a]\nc \"\\x:0\"\n", "[a]\nc \"\\x@0\"\n", "[a]\nc \"\\xG0\"\n", "[a]\nc \"\\x`0\"\n", "[a]\nc \"\\x0`\"\n", "[a:65535]\nb\n[d]\nx\n", "[a]\nc \"\\", "[a]\nc '", "[a]\nc \"\\x" };
	const char *b = bad[r.below(sizeof bad / sizeof *bad)];
	loadCase((b[0] == '[' ? t + "\n" : S()) + b, nullptr, "it contains the malformed text " + showBytes(b));
}
static void wordCase(Rng &r)
{
	Expected e;
	e.base = scratch;
	Expected::Cmd cmd { "h", 1120, {}, {}, {} };
	S t = "[h]\ncmd prog";
	cmd.exe.push_back("prog");
	for (std::size_t n = 1 + r.below(3); n; n--) { Word w = randomWord(r, true); t += blanks(r, true) + w.text; cmd.exe.push_back(w.value); }
	t += r.chance(50) ? lineEnd(r) : S();
	e.all["cmd"] = cmd;
	e.hosts["h"]["cmd"] = cmd;
	loadCase(t, &e, "");
}
// every byte through \x, every escape letter
static void escapes()
{
	for (int i = 0; i < 256; i++)
		for (int style = 0; style < 2; style++)
		{
			char b[3];
			std::snprintf(b, sizeof b, style ? "%02X" : "%02x", i);
			Expected e; e.base = scratch;
			Expected::Cmd cmd { "h", 1120, {}, { "p", S("<") + char(i) + ">" }, {} };
			e.all["c"] = cmd; e.hosts["h"]["c"] = cmd;
			loadCase(S("[h]\nc p \"<\\x") + b + ">\"", &e, "");
		}
	for (int i = 1; i < 256; i++)
	{
		static const std::map<char, char> ok = { { '"', '"' }, { '\\', '\\' }, { '\'', '\'' }, { 'b', '\b' }, { 't', '\t' }, { 'n', '\n' }, { 'f', '\f' }, { 'r', '\r' }, { '0', '\0' } };
		if (i == 'x') continue;
		auto it = ok.find(char(i));
		Expected e; e.base = scratch;
		Expected::Cmd cmd { "h", 1120, {}, { "p", S("<") + (it != ok.end() ? it->second : '?') + ">" }, {} };
		e.all["c"] = cmd; e.hosts["h"]["c"] = cmd;
		loadCase(S("[h]\nc p \"<\\") + char(i) + ">\"", it != ok.end() ? &e : nullptr, "it contains an unknown escape");
	}
	for (int i = 1; i < 256; i++)
		for (int pos = 0; pos < 2; pos++)
			if (!isxdigit(i)) loadCase(S("[h]\nc p \"\\x") + (pos ? S("0") + char(i) : S(1, char(i)) + "0") + "\"", nullptr, "it contains a bad hexadecimal digit");
}
// no particular meaning: only defined behaviour and termination
static void anything(const S &s)
{
	begin("load", "Configuration::load(" + showBytes(s) + ")");
	throws([&]() { k8psh::Configuration::load(s, scratch); });
}

int main(int argc, char **argv)
{
	if (argc < 4) return 2;
	const S prop = argv[1];
	const std::uint64_t seed = std::strtoull(argv[2], nullptr, 10);
	deadline = Clock::now() + std::chrono::seconds(std::atoi(argv[3]));
	char dir[] = "/tmp/k8psh_h_XXXXXX";
	char real[4097];
	scratch = realpath(mkdtemp(dir), real);
	if (argc > 4) { }
	setup();
	clearenv();
	for (auto &e : testEnv()) setenv(e.first.c_str(), e.second.c_str(), 1);
	(void)!system(("/bin/mkdir -p " + scratch + "/sub " + scratch + "/y/z " + scratch + "/x").c_str());
	Rng r(seed);
	struct Cleanup { ~Cleanup() { } } cleanup;
	const Clock::time_point end = deadline, start = Clock::now();
	int stage = 0;
	// C18 runs every stage, each with its share of the time
	auto share = [&]() { if (prop == "C18") deadline = start + (end - start) * ++stage / 6; };
	auto all = [&]() {
		share();
		if (prop == "C11" || prop == "C18") { strings("/.ab", 7, c11); strings(S("/.a\0", 4), 5, c11); while (timeLeft() && cases < 400000) c11(randomString(r, S("//...ab\0 \xff", 10), 40)); }
		share();
		if (prop == "C12" || prop == "C18")
		{
			VS v;
			strings("/.a", 5, [&](const S &s) { if (!s.empty() && s[0] == '/') v.push_back(s); });
			for (auto &a : v) for (auto &b : v) c12(a, b);
			for (unsigned long long n = 0; timeLeft() && n < 300000; n++)
			{
				S a = "/" + randomString(r, "/.ab", 12), b = r.chance(70) ? a + randomString(r, "/.ab", 8) : "/" + randomString(r, "/.ab", 12);
				if (r.chance(40)) { std::size_t k = b.find('/', r.below(b.size())); if (k != S::npos) b.insert(k, r.chance(50) ? "/" : "/."); }
				c12(a, b);
			}
		}
		share();
		if (prop == "C08" || prop == "C18")
		{
			for (int o = 0; o < 2; o++) strings("${A}:-", 6, [&](const S &s) { c08(s, o != 0); });
			static const VS bits = { "${", "}", "A", "B", "D", ":-", ":", "-", "$", "{", "${A}", "${D}", "${B:-q}", "${NO:-q}", "${NO}", "LONG_NAME", " ", "(", "x", S(1, '\0'), "\xff", "=", "?", "[", "/", "@", "`", "${C}", "_", ".", "9" };
			for (unsigned long long n = 0; timeLeft() && n < 400000; n++) { S s; for (std::size_t k = r.below(10); k; k--) s += r.pick(bits); c08(s, r.chance(50)); }
			for (int i = 0; i < 256; i++) { c08(S("${A") + char(i) + "}", false); c08(S("${A") + char(i) + "b}x", true); }
		}
		share();
		if (prop == "C22" || prop == "C18") { strings("/ab.", 7, c22); for (std::size_t n = 0; n < 40; n++) readFileCase(randomString(r, S("ab\n\r\0\xff", 6), int(n * 300))); for (unsigned long long n = 0; timeLeft() && n < 50000; n++) c22(randomString(r, "//a.b", 20)); }
		share();
		if (prop == "C21" || prop == "C18")
		{
			for (auto &f : VS{ "/x/src/Ab.cxx", "Ab.cxx" }) strings("aB,; ", 6, [&](const S &s) { c21(s, f, "Ab"); });
			static const VS bits = { "ab", "AB", "aB", ",", ";", " ", "\t", "\n", "all", "ALL", "al", "l", "a", "b", "socket", "Socket", "x", "\r", "\v" };
			for (unsigned long long n = 0; timeLeft() && n < 200000; n++) 
			{
				static const VS files = { "/s/Ab.cxx", "src/Socket.hxx", "/a.b/k8psh.cxx" }, names = { "Ab", "Socket", "k8psh" };
				const std::size_t f = r.below(3);
				S s;
				for (std::size_t k = r.below(9); k; k--) { if (r.chance(8)) s += char(1 + r.below(255)); else if (r.chance(15)) s += names[f]; else s += r.pick(bits); }
				if (r.chance(10) && !s.empty()) s[r.below(s.size())] ^= char(1 << r.below(7));
				c21(s, files[f], names[f]);
			}
			// one unusual character next to or within an entry
			for (std::size_t f = 0; f < 2; f++)
				for (int i = 1; i < 256; i++)
				{
					static const VS files = { "/s/Ab.cxx", "k8psh.cxx" }, names = { "Ab", "k8psh" };
					const S &n = names[f];
					c21(n + char(i), files[f], n); c21(char(i) + n, files[f], n); c21("x," + n + char(i) + "y", files[f], n); c21("x" + S(1, char(i)) + n + ",y", files[f], n); c21("all" + S(1, char(i)), files[f], n);
					for (std::size_t k = 0; k < n.size(); k++) { S t = n; t[k] = char(i); c21(t, files[f], n); }
				}
		}
		if (prop == "C09") { escapes(); for (unsigned long long n = 0; timeLeft() && n < 60000; n++) { wordCase(r); if (n % 8 == 0) randomConfig(r, true); } }
		if (prop == "C10") for (unsigned long long n = 0; timeLeft() && n < 60000; n++) randomConfig(r, r.chance(20));
		share();
		if (prop == "C18")
		{
			escapes();
			strings("['\"\\x=# a", 5, anything);
			static const VS bits = { "[", "]", "'", "\"", "\\", "\\x", "=", "#", " ", "\n", "a", "1", ":", "baseDirectory", "connectTimeoutMs", "${", "}", S(1, '\0'), "--", "[h]\n", "\xff", "\r", "[h:99999]", "c E=1 x\n", "''", "\"\"" };
			for (unsigned long long n = 0; timeLeft() && n < 200000; n++) { S s; for (std::size_t k = r.below(14); k; k--) s += r.pick(bits); anything(s); }
		}
	};
	all();
	alarm(0);
	(void)!system(("/bin/rm -rf " + scratch).c_str());
	done("exhaustive over small strings, then random with seed " + std::to_string(seed));
}
