/* Preloaded into the programs under test: records what they ask the system for, and injects short or failing calls. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <netinet/in.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

static void note(const char *s)
{
	const char *p = getenv("SHIM_LOG");
	if (!p) return;
	int e = errno, f = (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND, 0666);
	if (f >= 0) { (void)!syscall(SYS_write, f, s, strlen(s)); syscall(SYS_close, f); }
	errno = e;
}
static int want(const char *what)		/* SHIM_FAIL="call:errno:first:count ..." */
{
	static int counts[64];
	const char *p = getenv("SHIM_FAIL");
	for (int k = 0; p && *p && k < 64; k++)
	{
		char name[32]; int err, first, count, n = 0;
		if (sscanf(p, "%31[^:]:%d:%d:%d%n", name, &err, &first, &count, &n) < 4) return 0;
		if (!strcmp(name, what)) { int c = counts[k]++; if (c >= first && c < first + count) { errno = err; return 1; } }
		p += n; while (*p == ' ') p++;
	}
	return 0;
}
static void addr(const char *what, int fd, const struct sockaddr *a, int r)
{
	char b[200];
	int e = errno;
	if (a && a->sa_family == AF_INET) { const struct sockaddr_in *i = (const void *)a; snprintf(b, sizeof b, "%s %d %s %d %d\n", what, fd, inet_ntoa(i->sin_addr), ntohs(i->sin_port), r); }
	else snprintf(b, sizeof b, "%s %d family%d 0 %d\n", what, fd, a ? a->sa_family : -1, r);
	note(b);
	errno = e;
}
#define REAL(n) __typeof__(n) *real = (__typeof__(n) *)dlsym(RTLD_NEXT, #n)
int bind(int fd, const struct sockaddr *a, socklen_t l) { REAL(bind); int r = want("bind") ? -1 : real(fd, a, l); addr("bind", fd, a, r); return r; }
int connect(int fd, const struct sockaddr *a, socklen_t l) { REAL(connect); int r = want("connect") ? -1 : real(fd, a, l); addr("connect", fd, a, r); return r; }
int listen(int fd, int n) { REAL(listen); int r = want("listen") ? -1 : real(fd, n); char b[80]; snprintf(b, sizeof b, "listen %d %d\n", fd, r); note(b); return r; }
int accept(int fd, struct sockaddr *a, socklen_t *l) { REAL(accept); if (want("accept")) return -1; int r = real(fd, a, l); char b[80]; snprintf(b, sizeof b, "accept %d %d\n", fd, r); note(b); return r; }
int link(const char *a, const char *b) { REAL(link); return want("link") ? -1 : real(a, b); }
int shutdown(int fd, int how) { REAL(shutdown); char b[80]; snprintf(b, sizeof b, "shutdown %d %d\n", fd, (int)getpid()); note(b); return real(fd, how); }
ssize_t sendto(int fd, const void *d, size_t n, int f, const struct sockaddr *a, socklen_t l) { REAL(sendto); if (a) addr("sendto", fd, a, 0); return real(fd, d, n, f, a, l); }
ssize_t send(int fd, const void *d, size_t n, int f) { REAL(send); const char *m = getenv("SHIM_SEND"); if (m && n > 1) { size_t k = 1 + (size_t)rand() % (size_t)atoi(m); if (k < n) n = k; } return real(fd, d, n, f); }
ssize_t recv(int fd, void *d, size_t n, int f) { REAL(recv); const char *m = getenv("SHIM_RECV"); if (m && n > 1) { size_t k = 1 + (size_t)rand() % (size_t)atoi(m); if (k < n) n = k; } return real(fd, d, n, f); }
ssize_t read(int fd, void *d, size_t n) { REAL(read); if (want("read")) return -1; const char *m = getenv("SHIM_READ"); if (m && n > (size_t)atoi(m)) n = (size_t)atoi(m); return real(fd, d, n); }
ssize_t write(int fd, const void *d, size_t n)
{
	REAL(write);
	if (want("write")) return -1;
	const char *m = getenv("SHIM_WRITE");
	static int c;
	if (m && fd > 2 && n > 1 && ++c > atoi(m)) n = n / 2;
	const char *q = getenv("SHIM_SHORT");		/* pipes that take only a few bytes at a time */
	if (q && fd > 2 && n > (size_t)atoi(q)) n = (size_t)atoi(q);
	return real(fd, d, n);
}
static long long ns(const struct timespec *t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r)
{
	REAL(clock_nanosleep);
	char b[120]; struct timespec now;
	clock_gettime(CLOCK_MONOTONIC, &now);
	snprintf(b, sizeof b, "sleep %lld %lld\n", ns(&now), (f & TIMER_ABSTIME) ? ns(t) : ns(&now) + ns(t));
	note(b);
	return real(c, f, t, r);
}
int nanosleep(const struct timespec *t, struct timespec *r)
{
	REAL(nanosleep);
	char b[120]; struct timespec now;
	clock_gettime(CLOCK_MONOTONIC, &now);
	snprintf(b, sizeof b, "sleep %lld %lld\n", ns(&now), ns(&now) + ns(t));
	note(b);
	return real(t, r);
}
int poll(struct pollfd *p, nfds_t n, int t)
{
	REAL(poll);
	if (t) { if (want("poll")) return -1; if (want("poll0")) { for (nfds_t i = 0; i < n; i++) p[i].revents = 0; return 0; } }	/* interrupted; waited for as long as it was told */
	return real(p, n, t);
}
