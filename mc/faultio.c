/* Counts the file system calls which concern files below one directory and
 * makes the n-th of them fail.  Preloaded; the harness arms it with fault_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>

enum { K_OPEN = 1, K_READ = 2, K_WRITE = 4, K_TRUNC = 8, K_RENAME = 16, K_MMAP = 32 };
enum { M_ONCE = 0, M_ON = 1, M_SHORT = 2, M_EXIT = 3 };

static char root[4096];
static size_t rootlen;
static volatile long target = -1, calls, fired;
static volatile int mask, error_no, mode, armed;

void fault_arm(const char *dir, long n, int err, int kinds, int how)
{
    strncpy(root, dir, sizeof root - 1);
    rootlen = strlen(root);
    target = n; error_no = err; mask = kinds; mode = how; calls = 0; fired = 0; armed = 1;
}
long fault_disarm(void) { armed = 0; return calls; }
long fault_fired(void) { return fired; }

static int below(const char *p)
{
    char buf[4096];
    if (p[0] == '/') return strncmp(p, root, rootlen) == 0;
    if (!getcwd(buf, sizeof buf)) return 0;
    return strncmp(buf, root, rootlen) == 0;
}
static int fd_below(int fd)
{
    char link[64], buf[4096];
    ssize_t n;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = readlink(link, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return strncmp(buf, root, rootlen) == 0;
}
/* 0: go on, 1: fail, 2: transfer less */
static int hit(int kind)
{
    if (!(mask & kind)) return 0;
    calls++;
    if (target < 0) return 0;
    if (calls == target || (mode == M_ON && calls > target)) {
        fired++;
        if (mode == M_EXIT) _exit(77);
        if (mode == M_SHORT && (kind == K_READ || kind == K_WRITE)) return 2;
        errno = error_no;
        return 1;
    }
    return 0;
}
static int hit_path(int kind, const char *p) { return armed && p && below(p) ? hit(kind) : 0; }
static int hit_fd(int kind, int fd) { int e = errno, r; r = armed && fd_below(fd) ? hit(kind) : 0; if (r != 1) errno = e; return r; }

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
#define OPENMODE(fl) mode_t md = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); md = va_arg(ap, int); va_end(ap); }

int open(const char *p, int fl, ...) { REAL(open); OPENMODE(fl); if (hit_path(K_OPEN, p)) return -1; return real(p, fl, md); }
int open64(const char *p, int fl, ...) { REAL(open64); OPENMODE(fl); if (hit_path(K_OPEN, p)) return -1; return real(p, fl, md); }
int openat(int d, const char *p, int fl, ...) { REAL(openat); OPENMODE(fl); if (hit_path(K_OPEN, p)) return -1; return real(d, p, fl, md); }
int openat64(int d, const char *p, int fl, ...) { REAL(openat64); OPENMODE(fl); if (hit_path(K_OPEN, p)) return -1; return real(d, p, fl, md); }
FILE *fopen(const char *p, const char *m) { REAL(fopen); if (hit_path(K_OPEN, p)) return NULL; return real(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); if (hit_path(K_OPEN, p)) return NULL; return real(p, m); }
ssize_t read(int fd, void *b, size_t n) { REAL(read); int h = hit_fd(K_READ, fd); if (h == 1) return -1; return real(fd, b, h ? (n + 1) / 2 : n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(pread); int h = hit_fd(K_READ, fd); if (h == 1) return -1; return real(fd, b, h ? (n + 1) / 2 : n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); int h = hit_fd(K_READ, fd); if (h == 1) return -1; return real(fd, b, h ? (n + 1) / 2 : n, o); }
size_t fread(void *b, size_t s, size_t n, FILE *f)
{
    REAL(fread);
    int h = hit_fd(K_READ, fileno(f));
    /* numpy does not tell its callers about the error: it is there to stay */
    if (h == 1) { if (mode == M_ONCE) mode = M_ON; errno = error_no; return 0; }
    return real(b, s, n, f);
}
ssize_t write(int fd, const void *b, size_t n) { REAL(write); int h = hit_fd(K_WRITE, fd); if (h == 1) return -1; return real(fd, b, h ? (n + 1) / 2 : n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); int h = hit_fd(K_WRITE, fd); if (h == 1) return -1; return real(fd, b, h ? (n + 1) / 2 : n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); int h = hit_fd(K_WRITE, fd); if (h == 1) return -1; return real(fd, b, h ? (n + 1) / 2 : n, o); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    REAL(fwrite);
    int h = hit_fd(K_WRITE, fileno(f));
    if (h == 1) { errno = error_no; return 0; }
    return real(b, s, n, f);
}
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (hit_fd(K_TRUNC, fd)) return -1; return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (hit_fd(K_TRUNC, fd)) return -1; return real(fd, n); }
int rename(const char *a, const char *b) { REAL(rename); if (hit_path(K_RENAME, b)) return -1; return real(a, b); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { REAL(mmap); if (fd >= 0 && armed && hit_fd(K_MMAP, fd)) return MAP_FAILED; return real(a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o) { REAL(mmap64); if (fd >= 0 && armed && hit_fd(K_MMAP, fd)) return MAP_FAILED; return real(a, n, pr, fl, fd, o); }
