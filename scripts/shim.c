/* Replays faults on the natively built linker: the n-th call that can fail does what the line
 * "n kind" of the file named by DLDSHIM says (kinds as in engine/src/natives.rs). */
#define _GNU_SOURCE
#define _FILE_OFFSET_BITS 64
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int calls, n = -1, at[64], kind[64];

static void load(void) {
    n = 0;
    const char *f = getenv("DLDSHIM");
    if (!f) return;
    ssize_t (*rd)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
    int (*op)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
    static char buf[4096];
    int fd = op(f, O_RDONLY | O_CLOEXEC);
    ssize_t k = rd(fd, buf, sizeof buf - 1);
    if (k < 0) k = 0;
    close(fd);
    for (char *p = buf, *q; n < 64; n++) {
        at[n] = strtol(p, &q, 10);
        if (q == p) break;
        p = q;
        kind[n] = strtol(p, &p, 10);
    }
}
static int fate(void) {
    if (n < 0) load();
    int c = calls++;
    for (int i = 0; i < n; i++)
        if (at[i] == c) {
            if (kind[i] == 3) kill(getpid(), SIGKILL);
            return kind[i];
        }
    return 0;
}
static size_t limit(int k, size_t l) { return l < 2 ? l : k == 4 ? 1 : k == 5 ? l / 2 : l - 1; }
#define FATE(err)                                    \
    int k = fate();                                  \
    if (k == 1 || k == 2) {                          \
        errno = k == 1 ? EINTR : err;                \
        return -1;                                   \
    }
#define REAL(name, ret, ...) ret (*real)(__VA_ARGS__) = dlsym(RTLD_NEXT, name)

static int do_open(const char *name, const char *p, int fl, mode_t m) {
    REAL(name, int, const char *, int, ...);
    FATE(EACCES)
    return real(p, fl, m);
}
int open64(const char *p, int fl, ...) {
    va_list a;
    va_start(a, fl);
    mode_t m = va_arg(a, int);
    va_end(a);
    return do_open("open64", p, fl, m);
}
ssize_t read(int fd, void *b, size_t l) {
    REAL("read", ssize_t, int, void *, size_t);
    if (fd < 3) return real(fd, b, l);
    FATE(EIO)
    ssize_t r = real(fd, b, l);
    if (k && r > 1) {
        ssize_t s = limit(k, r);
        lseek(fd, s - r, SEEK_CUR);
        r = s;
    }
    return r;
}
ssize_t pread64(int fd, void *b, size_t l, off64_t o) {
    REAL("pread64", ssize_t, int, void *, size_t, off64_t);
    if (fd < 3) return real(fd, b, l, o);
    FATE(EIO)
    ssize_t r = real(fd, b, l, o);
    return k && r > 1 ? (ssize_t)limit(k, r) : r;
}
ssize_t write(int fd, const void *b, size_t l) {
    REAL("write", ssize_t, int, const void *, size_t);
    if (fd < 3) return real(fd, b, l);
    FATE(ENOSPC)
    return real(fd, b, k ? limit(k, l) : l);
}
ssize_t pwrite64(int fd, const void *b, size_t l, off64_t o) {
    REAL("pwrite64", ssize_t, int, const void *, size_t, off64_t);
    if (fd < 3) return real(fd, b, l, o);
    FATE(ENOSPC)
    return real(fd, b, k ? limit(k, l) : l, o);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL("readv", ssize_t, int, const struct iovec *, int);
    if (fd < 3) return real(fd, v, c);
    FATE(EIO)
    ssize_t r = real(fd, v, c);
    if (k && r > 1) {
        ssize_t s = limit(k, r);
        lseek(fd, s - r, SEEK_CUR);
        r = s;
    }
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL("writev", ssize_t, int, const struct iovec *, int);
    if (fd < 3) return real(fd, v, c);
    FATE(ENOSPC)
    if (!k) return real(fd, v, c);
    size_t t = 0;
    for (int i = 0; i < c; i++) t += v[i].iov_len;
    t = limit(k, t);
    struct iovec w[64];
    int i = 0;
    for (; i < c && i < 64 && t > 0; i++) {
        w[i] = v[i];
        if (w[i].iov_len > t) w[i].iov_len = t;
        t -= w[i].iov_len;
    }
    return real(fd, w, i);
}
int fchmod(int fd, mode_t m) {
    REAL("fchmod", int, int, mode_t);
    FATE(EPERM)
    return real(fd, m);
}
int chmod(const char *p, mode_t m) {
    REAL("chmod", int, const char *, mode_t);
    FATE(EPERM)
    return real(p, m);
}
int unlink(const char *p) {
    REAL("unlink", int, const char *);
    FATE(EPERM)
    return real(p);
}
int rename(const char *p, const char *q) {
    REAL("rename", int, const char *, const char *);
    FATE(EPERM)
    return real(p, q);
}
int ftruncate64(int fd, off64_t l) {
    REAL("ftruncate64", int, int, off64_t);
    FATE(EPERM)
    return real(fd, l);
}
