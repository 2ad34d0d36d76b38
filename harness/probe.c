/* The commands that the end-to-end harness runs: they report exactly what they were given. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

static void nap(int ms) { struct timespec t = { ms / 1000, (ms % 1000) * 1000000L }; while (nanosleep(&t, &t) && errno == EINTR) ; }
static void hex(FILE *f, const char *k, const char *s) { fprintf(f, "%s ", k); for (; *s; s++) fprintf(f, "%02x", (unsigned char)*s); fputc('\n', f); }
static void all(int fd, const char *d, size_t n) { while (n) { ssize_t w = write(fd, d, n); if (w < 0) { if (errno == EINTR) continue; _exit(90); } d += w; n -= (size_t)w; } }

int main(int argc, char **argv)
{
	const char *mode = argc > 1 ? argv[1] : "";
	if (!strcmp(mode, "dump"))			/* dump FILE args...: arguments, environment, directory, descriptors */
	{
		char tmp[4096], cwd[4096];
		struct stat st;
		snprintf(tmp, sizeof tmp, "%s.tmp", argv[2]);
		FILE *f = fopen(tmp, "w");
		if (!f) return 91;
		for (int i = 0; i < argc; i++) hex(f, "arg", argv[i]);
		for (char **e = environ; *e; e++) hex(f, "env", *e);
		hex(f, "cwd", getcwd(cwd, sizeof cwd) ? cwd : "?");
		for (int i = 0; i < 64; i++)
			if (i != fileno(f) && !fstat(i, &st))
				fprintf(f, "fd %d %s %lu %s\n", i, S_ISFIFO(st.st_mode) ? "pipe" : S_ISSOCK(st.st_mode) ? "socket" : "other", (unsigned long)st.st_ino, (fcntl(i, F_GETFL) & O_ACCMODE) == O_RDONLY ? "r" : (fcntl(i, F_GETFL) & O_ACCMODE) == O_WRONLY ? "w" : "rw");
		fclose(f);
		rename(tmp, argv[2]);
		return 0;
	}
	if (!strcmp(mode, "out"))			/* out N M STEP CODE: pattern bytes to stdout and stderr */
	{
		long n = atol(argv[2]), m = atol(argv[3]), step = atol(argv[4]), a = 0, b = 0;
		char *buf = malloc((size_t)step);
		while (a < n || b < m)
		{
			long k = n - a < step ? n - a : step;
			for (long i = 0; i < k; i++) buf[i] = (char)((a + i) * 7 + (a + i) / 251);
			all(1, buf, (size_t)k); a += k;
			k = m - b < step ? m - b : step;
			for (long i = 0; i < k; i++) buf[i] = (char)((b + i) * 5 + (b + i) / 241 + 1);
			all(2, buf, (size_t)k); b += k;
		}
		return atoi(argv[5]);
	}
	if (!strcmp(mode, "slurp"))			/* slurp FILE CHUNK PAUSEMS LIMIT: reads stdin, a little at a time, up to LIMIT bytes */
	{
		char tmp[4096], buf[65536];
		long chunk = atol(argv[3]), pause = atol(argv[4]), limit = atol(argv[5]), got = 0;
		snprintf(tmp, sizeof tmp, "%s.tmp", argv[2]);
		int f = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0644), eof = 0;
		if (f < 0) return 91;
		while (got < limit)
		{
			long k = limit - got < chunk ? limit - got : chunk;
			ssize_t r = read(0, buf, (size_t)k);
			if (r < 0) { if (errno == EINTR) continue; return 92; }
			if (!r) { eof = 1; break; }
			all(f, buf, (size_t)r); got += r;
			if (pause) nap((int)pause);
		}
		close(0);
		all(f, eof ? "EOF" : "END", 3);
		close(f);
		rename(tmp, argv[2]);
		if (argc > 6) { nap(atoi(argv[6])); all(1, "after", 5); }
		return eof ? 7 : 8;
	}
	if (!strcmp(mode, "exit")) return atoi(argv[2]);
	if (!strcmp(mode, "sleep")) { nap(atoi(argv[2])); return atoi(argv[3]); }
	if (!strcmp(mode, "signal")) { all(1, "x", 1); signal(atoi(argv[2]), SIG_DFL); raise(atoi(argv[2])); return 93; }
	if (!strcmp(mode, "orphan"))			/* the output continues after the started process has ended */
	{
		all(1, "first;", 6);
		if (fork() == 0) { nap(atoi(argv[2])); all(1, "late", 4); all(2, "LATE", 4); return 0; }
		return atoi(argv[3]);
	}
	if (!strcmp(mode, "wait"))			/* wait FILE: until the file appears (at most a minute) */
	{
		struct stat st;
		all(1, "w", 1);
		for (int i = 0; i < 3000 && stat(argv[2], &st); i++) nap(20);
		return 5;
	}
	if (!strcmp(mode, "closed"))			/* closes everything, ends later */
	{
		close(0); close(1); close(2);
		nap(atoi(argv[2]));
		return atoi(argv[3]);
	}
	return 99;
}
