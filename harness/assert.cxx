// Failed assertions of the C++ library go to a file
#include <cstdio>
#include <cstdlib>
namespace std { void __glibcxx_assert_fail(const char *file, int line, const char *function, const char *condition) noexcept
{
	if (const char *name = std::getenv("SAN_LOG"))
		if (std::FILE *f = std::fopen(name, "a"))
		{
			std::fprintf(f, "%s:%d: %s: assertion '%s' failed\n", file, line, function, condition);
			std::fclose(f);
		}

	std::abort();
} }
