/* Stand-in for write(2) and writev(2) on standard output, or on the file FAULT_PATH:
   accepts FAULT_AT bytes and then fails with FAULT_ERRNO (once only with FAULT_ONCE),
   takes at most FAULT_SHORT bytes at a time, and is interrupted every FAULT_EINTR-th call.
   Appends "calls bytes faults" to FAULT_LOG at exit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
#include <fcntl.h>

static long at = -1, shortn = 0, eintr = 0, once = 0, err = 0, taken = 0, calls = 0, faults = 0;
static const char *path, *logp;
static ssize_t (*real_write)(int, const void *, size_t);

__attribute__((constructor)) static void init(void) {
    char *e;
    real_write = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    if ((e = getenv("FAULT_AT"))) at = atol(e);
    if ((e = getenv("FAULT_ERRNO"))) err = atol(e);
    if ((e = getenv("FAULT_SHORT"))) shortn = atol(e);
    if ((e = getenv("FAULT_EINTR"))) eintr = atol(e);
    once = getenv("FAULT_ONCE") != NULL;
    path = getenv("FAULT_PATH");
    logp = getenv("FAULT_LOG");
}

__attribute__((destructor)) static void fini(void) {
    char b[128];
    if (!logp) return;
    int fd = open(logp, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd < 0) return;
    int n = snprintf(b, sizeof b, "%ld %ld %ld\n", calls, taken, faults);
    real_write(fd, b, n);
    close(fd);
}

static int watched(int fd) {
    if (!path) return fd == 1;
    char l[64], p[4096];
    if (fd <= 2) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n < 0) return 0;
    p[n] = 0;
    return strcmp(p, path) == 0;
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (!watched(fd)) return real_write(fd, buf, n);
    calls++;
    if (eintr && calls % eintr == 0) { errno = EINTR; return -1; }
    if (shortn && n > (size_t)shortn) n = shortn;
    if (at >= 0 && n > 0 && !(once && faults)) {
        if (taken >= at) { faults++; errno = err; return -1; }
        if ((size_t)(at - taken) < n) n = at - taken;
    }
    ssize_t k = real_write(fd, buf, n);
    if (k > 0) taken += k;
    return k;
}

ssize_t writev(int fd, const struct iovec *iov, int c) {
    for (int i = 0; i < c; i++)
        if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}
