/* Interposed file operations, counted and made to fail one at a time, for
   files below one directory. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

enum { NONE, ERROR, FULL, KILL, TEAR, SHORT, BAD };
#define MAXFD 1024
#define MAXOPS 100000

static int mode, at, count, failed, active;
static char prefix[PATH_MAX], bad[PATH_MAX];
static char fds[MAXFD];
static char ops[MAXOPS + 1];

/* kinds: o open, w open to write, W write, R read, r rename, u unlink,
   m mode, t truncate, c close, C close of one open to write, d mkdir,
   l link, D read a directory */

void vf_arm(const char *p, int m, int n)
{
    strncpy(prefix, p, sizeof prefix - 1);
    mode = m; at = n; count = 0; failed = 0; active = 1;
    memset(fds, 0, sizeof fds);
}

void vf_track(int fd) { if (fd >= 0 && fd < MAXFD) fds[fd] = 2; }
int vf_disarm(void) { active = 0; return count; }
int vf_failed(void) { return failed; }
const char *vf_ops(void)
{
    ops[count < MAXOPS ? count : MAXOPS] = 0;
    return ops;
}

static int below(int dir, const char *path)
{
    if (!active)
        return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (dir != AT_FDCWD)
            return dir >= 0 && dir < MAXFD && fds[dir];
        if (!getcwd(cwd, sizeof cwd))
            return 0;
        return !strncmp(cwd, prefix, strlen(prefix));
    }
    return !strncmp(path, prefix, strlen(prefix));
}

static int tracked(int fd)
{
    return active && fd >= 0 && fd < MAXFD && fds[fd];
}

static int changes(char kind) { return !!strchr("wWtdl", kind); }

static void whole(char *to, int fd, const char *path)
{
    char name[40];
    ssize_t n;
    if (path && path[0] == '/') {
        strncpy(to, path, PATH_MAX - 1);
    } else if (path) {
        if (!getcwd(to, PATH_MAX))
            return;
        n = strlen(to);
        snprintf(to + n, PATH_MAX - n, "/%s", path);
    } else {
        snprintf(name, sizeof name, "/proc/self/fd/%d", fd);
        n = readlink(name, to, PATH_MAX - 1);
        to[n < 0 ? 0 : n] = 0;
    }
    for (n = strlen(to); n > 1 && to[n - 1] == '/'; n--)
        to[n - 1] = 0;
}

/* 0: go on, 1: fail, 2: do half of it and fail later, 3: half and die */
static int hit_at(char kind, int fd, const char *path)
{
    char now[PATH_MAX] = "";
    int i = count++;
    if (i < MAXOPS)
        ops[i] = kind;
    if (failed && (mode == FULL || mode == SHORT) && changes(kind)) {
        errno = ENOSPC;
        return 1;
    }
    if (mode == BAD && failed && strchr("oRD", kind)) {
        whole(now, fd, path);
        if (!strcmp(now, bad)) {
            errno = EIO;
            return 1;
        }
    }
    if (i != at)
        return 0;
    switch (mode) {
    case BAD:
        if (!strchr("oRD", kind))
            return 0;
        whole(bad, fd, path);
        /* fall through */
    case ERROR:
        failed = 1;
        errno = EIO;
        return 1;
    case FULL:
        failed = 1;
        if (!changes(kind))
            return 0;
        errno = ENOSPC;
        return 1;
    case KILL:
        _exit(77);
    case TEAR:
        if (kind != 'W')
            _exit(77);
        return 3;
    case SHORT:
        failed = 1;
        return kind == 'W' ? 2 : 0;
    }
    return 0;
}

static int hit(char kind) { return hit_at(kind, -1, ""); }

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

static char openkind(int flags)
{
    return (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT) ? 'w' : 'o';
}

static int opened(int fd, int flags)
{
    if (fd >= 0 && fd < MAXFD)
        fds[fd] = openkind(flags) == 'w' ? 2 : 1;
    return fd;
}

#define OPEN(fn) \
int fn(const char *path, int flags, ...) \
{ \
    mode_t m = 0; \
    va_list ap; \
    REAL(int, #fn, const char *, int, ...); \
    va_start(ap, flags); \
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); \
    va_end(ap); \
    if (!below(AT_FDCWD, path)) return real(path, flags, m); \
    if (hit_at(openkind(flags), -1, path) == 1) return -1; \
    return opened(real(path, flags, m), flags); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(fn) \
int fn(int dir, const char *path, int flags, ...) \
{ \
    mode_t m = 0; \
    va_list ap; \
    REAL(int, #fn, int, const char *, int, ...); \
    va_start(ap, flags); \
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); \
    va_end(ap); \
    if (!below(dir, path)) return real(dir, path, flags, m); \
    if (hit_at(openkind(flags), -1, path) == 1) return -1; \
    return opened(real(dir, path, flags, m), flags); \
}
OPENAT(openat)
OPENAT(openat64)

#define FOPEN(fn) \
FILE *fn(const char *path, const char *how) \
{ \
    REAL(FILE *, #fn, const char *, const char *); \
    if (below(AT_FDCWD, path) && hit_at(strpbrk(how, "wa+") ? 'w' : 'o', \
        -1, path) == 1) return NULL; \
    return real(path, how); \
}
FOPEN(fopen)
FOPEN(fopen64)

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (tracked(fd))
        switch (hit('W')) {
        case 1: return -1;
        case 2: return real(fd, buf, (n + 1) / 2);
        case 3: real(fd, buf, (n + 1) / 2); _exit(77);
        }
    return real(fd, buf, n);
}

#define PWRITE(fn, off) \
ssize_t fn(int fd, const void *buf, size_t n, off o) \
{ \
    REAL(ssize_t, #fn, int, const void *, size_t, off); \
    if (tracked(fd)) \
        switch (hit('W')) { \
        case 1: return -1; \
        case 2: return real(fd, buf, (n + 1) / 2, o); \
        case 3: real(fd, buf, (n + 1) / 2, o); _exit(77); \
        } \
    return real(fd, buf, n, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

#define SENDFILE(fn, off) \
ssize_t fn(int out, int in, off *o, size_t n) \
{ \
    size_t half; \
    struct stat st; \
    REAL(ssize_t, #fn, int, int, off *, size_t); \
    if (tracked(out)) { \
        half = !fstat(in, &st) ? (st.st_size + 1) / 2 : 1; \
        switch (hit('W')) { \
        case 1: return -1; \
        case 2: return real(out, in, o, half); \
        case 3: real(out, in, o, half); _exit(77); \
        } \
    } \
    return real(out, in, o, n); \
}
SENDFILE(sendfile, off_t)
SENDFILE(sendfile64, off64_t)

ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n,
                        unsigned int flags)
{
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t,
         unsigned int);
    if (tracked(out) && hit('W') == 1)
        return -1;
    return real(in, io, out, oo, n, flags);
}

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(ssize_t, "read", int, void *, size_t);
    if (tracked(fd) && hit_at('R', fd, NULL) == 1)
        return -1;
    return real(fd, buf, n);
}

int close(int fd)
{
    REAL(int, "close", int);
    if (tracked(fd)) {
        int h = hit(fds[fd] == 2 ? 'C' : 'c'), e = errno, r = real(fd);
        fds[fd] = 0;
        if (h == 1) {
            errno = e;
            return -1;
        }
        return r;
    }
    return real(fd);
}

DIR *opendir(const char *path)
{
    DIR *d;
    REAL(DIR *, "opendir", const char *);
    if (!below(AT_FDCWD, path))
        return real(path);
    if (hit_at('D', -1, path) == 1)
        return NULL;
    d = real(path);
    if (d)
        opened(dirfd(d), O_RDONLY);
    return d;
}

DIR *fdopendir(int fd)
{
    REAL(DIR *, "fdopendir", int);
    if (tracked(fd) && hit_at('D', fd, NULL) == 1)
        return NULL;
    return real(fd);
}

#define READDIR(type, fn) \
struct type *fn(DIR *d) \
{ \
    REAL(struct type *, #fn, DIR *); \
    if (tracked(dirfd(d)) && hit_at('D', dirfd(d), NULL) == 1) \
        return NULL; \
    return real(d); \
}
READDIR(dirent, readdir)
READDIR(dirent64, readdir64)

int closedir(DIR *d)
{
    REAL(int, "closedir", DIR *);
    if (tracked(dirfd(d)))
        fds[dirfd(d)] = 0;
    return real(d);
}

#define PATHS1(fn, kind, P, A, check) \
int fn P \
{ \
    REAL(int, #fn, A); \
    if ((check) && hit(kind) == 1) return -1; \
    return real
#define C ,
PATHS1(unlink, 'u', (const char *p), const char *, below(AT_FDCWD, p))(p); }
PATHS1(unlinkat, 'u', (int d, const char *p, int f), int C const char * C int,
       below(d, p))(d, p, f); }
PATHS1(rename, 'r', (const char *p, const char *q), const char * C
       const char *, below(AT_FDCWD, p) || below(AT_FDCWD, q))(p, q); }
PATHS1(renameat, 'r', (int d, const char *p, int e, const char *q), int C
       const char * C int C const char *, below(d, p) || below(e, q))
       (d, p, e, q); }
PATHS1(link, 'l', (const char *p, const char *q), const char * C
       const char *, below(AT_FDCWD, q))(p, q); }
PATHS1(symlink, 'l', (const char *p, const char *q), const char * C
       const char *, below(AT_FDCWD, q))(p, q); }
PATHS1(chmod, 'm', (const char *p, mode_t m), const char * C mode_t,
       below(AT_FDCWD, p))(p, m); }
PATHS1(fchmodat, 'm', (int d, const char *p, mode_t m, int f), int C
       const char * C mode_t C int, below(d, p))(d, p, m, f); }
PATHS1(fchmod, 'm', (int fd, mode_t m), int C mode_t, tracked(fd))(fd, m); }
PATHS1(mkdir, 'd', (const char *p, mode_t m), const char * C mode_t,
       below(AT_FDCWD, p))(p, m); }
PATHS1(truncate, 't', (const char *p, off_t n), const char * C off_t,
       below(AT_FDCWD, p))(p, n); }
PATHS1(truncate64, 't', (const char *p, off64_t n), const char * C off64_t,
       below(AT_FDCWD, p))(p, n); }
PATHS1(ftruncate, 't', (int fd, off_t n), int C off_t, tracked(fd))(fd, n); }
PATHS1(ftruncate64, 't', (int fd, off64_t n), int C off64_t, tracked(fd))
       (fd, n); }
