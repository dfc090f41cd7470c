/* Preloaded into the program under test: makes its writes to stdout and stderr misbehave in ways
 * the kernel may, according to FAULT_PLAN, a list of
 *   S<n>        at most n bytes are accepted per call
 *   I<n>        every n-th call is interrupted
 *   E<k>:<e>    once k bytes were accepted, every further call fails with errno e
 *   O<k>:<e>    the same, but only the first such call fails
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static long shorten = -1, interrupt_every = -1, fail_at = -1, fail_errno, once;
static long calls, accepted;
static int ready;

static void plan(void) {
	ready = 1;
	const char *p = getenv("FAULT_PLAN");
	while (p && *p) {
		char kind = *p++;
		char *end;
		long n = strtol(p, &end, 10);
		p = end;
		switch (kind) {
		case 'S': shorten = n; break;
		case 'I': interrupt_every = n; break;
		case 'O': once = 1; /* fall through */
		case 'E':
			fail_at = n;
			if (*p == ':') {
				fail_errno = strtol(p + 1, &end, 10);
				p = end;
			}
			break;
		}
		if (*p == ',') p++;
	}
}

/* Returns 0 to go on with *n bytes, or -1 with errno set. */
static int decide(size_t *n) {
	if (!ready) plan();
	calls++;
	if (interrupt_every > 0 && calls % interrupt_every == 0) {
		errno = EINTR;
		return -1;
	}
	if (shorten > 0 && *n > (size_t)shorten) *n = (size_t)shorten;
	if (fail_at >= 0) {
		if (accepted >= fail_at) {
			if (once) fail_at = -1;
			errno = (int)fail_errno;
			return -1;
		}
		if (*n > (size_t)(fail_at - accepted)) *n = (size_t)(fail_at - accepted);
	}
	return 0;
}

ssize_t write(int fd, const void *buf, size_t n) {
	static ssize_t (*real)(int, const void *, size_t);
	if (!real) real = dlsym(RTLD_NEXT, "write");
	if ((fd == 1 || fd == 2) && n > 0) {
		if (decide(&n)) return -1;
		ssize_t r = real(fd, buf, n);
		if (r > 0) accepted += r;
		return r;
	}
	return real(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
	static ssize_t (*real)(int, const struct iovec *, int);
	if (!real) real = dlsym(RTLD_NEXT, "writev");
	if (fd == 1 || fd == 2) {
		/* Only the first part that is not empty, which a writer has to expect anyway */
		for (int i = 0; i < c; i++)
			if (v[i].iov_len > 0) return write(fd, v[i].iov_base, v[i].iov_len);
		return 0;
	}
	return real(fd, v, c);
}
