// Support for the bounded harnesses: deterministic randomness, the current case, and reporting of the first failing one.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

struct Rng {
	std::uint64_t s;
	explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { }
	std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	std::size_t below(std::size_t n) { return n ? std::size_t((next() >> 20) % n) : 0; }
	bool chance(int percent) { return below(100) < std::size_t(percent); }
	template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

static std::string showBytes(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s)
	{
		char b[8];
		if (c == '\\' || c == '"') { r += '\\'; r += char(c); }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}

static int reportFd = 1;
static std::string currentCase;          // description of the case being run
static std::string currentId;
static unsigned long long cases = 0;
static std::set<std::uint64_t> *seen = new std::set<std::uint64_t>();
static std::vector<std::string> *samples = new std::vector<std::string>();

static void out(const std::string &s) { std::size_t o = 0; while (o < s.size()) { ssize_t n = ::write(reportFd, s.data() + o, s.size() - o); if (n <= 0) return; o += std::size_t(n); } }

[[noreturn]] static void failCase(const std::string &what)
{
	out("FAIL " + currentId + "\n" + currentCase + "\n" + what + "\n");
	_exit(3);
}
static void onDeath() { out("FAIL " + currentId + "\n" + currentCase + "\nthe sanitizer reported an error (undefined behaviour or memory error)\n"); }
static void onSignal(int sig)
{
	out("FAIL " + currentId + "\n" + currentCase + "\n" + (sig == SIGALRM ? "does not terminate within the time limit\n" : "crashes with signal " + std::to_string(sig) + "\n"));
	_exit(3);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

static void setup()
{
	reportFd = dup(1);
	int n = open("/dev/null", O_WRONLY);
	dup2(n, 1); 
	if (!getenv("H_STDERR")) dup2(n, 2);
	close(n);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
	signal(SIGALRM, onSignal);
	signal(SIGABRT, onSignal);
}

static std::uint64_t fnv(const std::string &s) { std::uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

// Starts a case. Returns false when it is a duplicate.
static void begin(const std::string &id, const std::string &desc, int seconds = 10)
{
	currentId = id;
	currentCase = desc;
	cases++;
	if (seen->size() < 2000000) seen->insert(fnv(id + desc));
	if (samples->size() < 3 || (cases % 5000 == 0 && samples->size() < 8)) samples->push_back(desc);
	alarm(unsigned(seconds));
}
static void done(const std::string &note)
{
	alarm(0);
	out("OK " + std::to_string(cases) + " " + std::to_string(seen->size()) + "\nNOTE " + note + "\n");
	for (auto &s : *samples) out("SAMPLE " + s.substr(0, 300) + "\n");
	_exit(0);
}

typedef std::chrono::steady_clock Clock;
static Clock::time_point deadline;
static bool timeLeft() { return Clock::now() < deadline; }
