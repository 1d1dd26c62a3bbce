/* LD_PRELOAD fault injector: while armed, counts every operation that changes a file under a
   directory (open for writing, write, truncate, rename, unlink, mkdir, rmdir, link) and from the n-th on performs
   none of them, except for a torn prefix of the n-th when it is a write: the files stay as if the process had ended there. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXOPS 100000
static int armed = 0, dead = 0;
static long at = -1, torn = 0, count = 0;
static char dir[4096];
static size_t dirlen;
static long sizes[MAXOPS];
static char tracked[65536];

void vk_arm(const char *d, long n, long t) {
    strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir);
    at = n; torn = t; count = 0; dead = 0; memset(tracked, 0, sizeof tracked); armed = 1;
}
long vk_disarm(void) { armed = 0; dead = 0; return count; }
long vk_size(long i) { return i < MAXOPS ? sizes[i] : -1; }

static int under(const char *p) {
    if (!armed || !p) return 0;
    if (p[0] == '/') return !strncmp(p, dir, dirlen);
    char cwd[4096];
    return getcwd(cwd, sizeof cwd) && !strncmp(cwd, dir, dirlen);
}
/* counts an operation; true when it is not to be performed */
static int op(long size) {
    if (dead) return 1;
    long k = count++;
    if (k < MAXOPS) sizes[k] = size;
    if (k == at && torn == 0) dead = 1;
    return dead;
}
#define NEXT(name) static typeof(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)

static int opened(int fd, const char *p, int flags) {
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = under(p) && (flags & O_ACCMODE) != O_RDONLY;
    return fd;
}
#define WANT(p, flags) (under(p) && ((flags & O_ACCMODE) != O_RDONLY))
#define OPEN(name, PRE, call) \
    mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); } \
    NEXT(name); \
    if (WANT(p, flags) && (flags & (O_TRUNC | O_CREAT) || dead) && op(-1)) { const char *q = p; p = "/dev/null"; flags &= ~(O_CREAT | O_EXCL | O_TRUNC); int fd = call; \
        if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 1; (void)q; return fd; } \
    return opened(call, p, flags);

int open(const char *p, int flags, ...) { OPEN(open, , real(p, flags, mode)) }
int open64(const char *p, int flags, ...) { OPEN(open64, , real(p, flags, mode)) }
int openat(int d, const char *p, int flags, ...) { OPEN(openat, , real(d, p, flags, mode)) }
int openat64(int d, const char *p, int flags, ...) { OPEN(openat64, , real(d, p, flags, mode)) }
static FILE *fo(FILE *f, const char *p, const char *m) { if (f && m[0] != 'r') opened(fileno(f), p, O_WRONLY); return f; }
FILE *fopen(const char *p, const char *m) { NEXT(fopen); if (under(p) && m[0] != 'r' && op(-1)) return real("/dev/null", m); return fo(real(p, m), p, m); }
FILE *fopen64(const char *p, const char *m) { NEXT(fopen64); if (under(p) && m[0] != 'r' && op(-1)) return real("/dev/null", m); return fo(real(p, m), p, m); }

#define TR(fd) (armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd])
#define WRITE(call) \
    if (TR(fd) && n) { \
        long k = count; \
        if (op((long)n)) return (ssize_t)n; \
        if (k == at) { size_t full = n; n = (size_t)torn < n ? (size_t)torn : n; ssize_t r = call; (void)r; dead = 1; return (ssize_t)full; } \
    } \
    return call;
ssize_t write(int fd, const void *b, size_t n) { NEXT(write); WRITE(real(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { NEXT(pwrite); WRITE(real(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { NEXT(pwrite64); WRITE(real(fd, b, n, o)) }
ssize_t writev(int fd, const struct iovec *v, int c) {
    NEXT(writev);
    if (TR(fd) && op(-1)) { ssize_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; return n; }
    return real(fd, v, c);
}
int ftruncate(int fd, off_t n) { NEXT(ftruncate); if (TR(fd) && op(-1)) return 0; return real(fd, n); }
int ftruncate64(int fd, off64_t n) { NEXT(ftruncate64); if (TR(fd) && op(-1)) return 0; return real(fd, n); }
int truncate(const char *p, off_t n) { NEXT(truncate); if (under(p) && op(-1)) return 0; return real(p, n); }
int rename(const char *a, const char *b) { NEXT(rename); if ((under(a) || under(b)) && op(-1)) return 0; return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { NEXT(renameat); if ((under(a) || under(b)) && op(-1)) return 0; return real(x, a, y, b); }
int link(const char *a, const char *b) { NEXT(link); if ((under(a) || under(b)) && op(-1)) return 0; return real(a, b); }
int unlink(const char *p) { NEXT(unlink); if (under(p) && op(-1)) return 0; return real(p); }
int unlinkat(int d, const char *p, int f) { NEXT(unlinkat); if (under(p) && op(-1)) return 0; return real(d, p, f); }
int remove(const char *p) { NEXT(remove); if (under(p) && op(-1)) return 0; return real(p); }
int mkdir(const char *p, mode_t m) { NEXT(mkdir); if (under(p) && op(-1)) return 0; return real(p, m); }
int rmdir(const char *p) { NEXT(rmdir); if (under(p) && op(-1)) return 0; return real(p); }
