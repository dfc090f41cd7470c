/* Preloaded into the program under test: moves the date by CLOCK_SHIFT seconds. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long shift(void) {
	const char *s = getenv("CLOCK_SHIFT");
	return s ? atol(s) : 0;
}

int clock_gettime(clockid_t id, struct timespec *t) {
	int r = (int)syscall(SYS_clock_gettime, id, t);
	if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) t->tv_sec += shift();
	return r;
}
int gettimeofday(struct timeval *t, void *z) {
	struct timespec s;
	(void)z;
	if (clock_gettime(CLOCK_REALTIME, &s)) return -1;
	t->tv_sec = s.tv_sec;
	t->tv_usec = s.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *t) {
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	if (t) *t = s.tv_sec;
	return s.tv_sec;
}
