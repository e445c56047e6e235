/* LD_PRELOAD library that fails or kills the process at a chosen file operation.
 * Only operations on files below TT_ROOT count.  TT_FAULT is "<kind>:<n>[:<errno>]", or up to four of these with
 * commas between them:
 *   before  die before operation n          after  die after operation n
 *   mid     do half of write n, then die    fail   operation n fails with errno
 *   full    operation n and all later writes and creations fail with errno
 *   short   write n does only half          half   as short, later writes fail with errno
 *   pause   stop (SIGSTOP) before operation n
 * TT_TELL: from this write to the standard output on, all of them fail with EPIPE.
 * TT_PID: the process id the command is told it has.
 * TT_READ: how a directory is read: "reverse", "shuffle:<seed>", or "late": as it is, and in the end the files that have
 * been added to it meanwhile (the system may or may not show them).
 * TT_LOG: a file that lists the operations, one letter per line. */
#define _GNU_SOURCE
#define MAX_FAULTS 4
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static struct { char kind[16]; long at; int err; } faults[MAX_FAULTS];
static char *kind = "";     /* of the fault planned for the operation under way */
static long count = 0;
static int err = EIO, planned = 0, logfd = -1, sticky = 0, ready = 0, pending = 0;
static const char *root;
static unsigned char mine[4096];

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

static void setup(void) {
    if (ready) return;
    ready = 1;
    root = getenv("TT_ROOT");
    const char *f = getenv("TT_FAULT"), *l = getenv("TT_LOG");
    while (f && planned < MAX_FAULTS) {
        const char *c = strchr(f, ':'), *next = strchr(f, ',');
        if (!c) break;
        size_t n = (size_t)(c - f);
        if (n > 15) n = 15;
        memcpy(faults[planned].kind, f, n);
        char *rest;
        faults[planned].at = strtol(c + 1, &rest, 10);
        faults[planned].err = *rest == ':' ? atoi(rest + 1) : EIO;
        planned++;
        f = next ? next + 1 : 0;
    }
    if (l) logfd = REAL(open)(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
}

static int inside(int dir, const char *p) {
    setup();
    if (!root || !p) return 0;
    if (p[0] != '/') return dir == AT_FDCWD || (dir >= 0 && dir < 4096 && mine[dir]);
    size_t n = strlen(root);
    return !strncmp(p, root, n) && (p[n] == '/' || p[n] == 0);
}

static void die(void) { raise(SIGKILL); for (;;) pause(); }

/* commands in different containers may have the same process id */
pid_t getpid(void) {
    const char *p = getenv("TT_PID");
    return p ? atoi(p) : REAL(getpid)();
}

/* 0: go on, 1: fail */
static int enter(char what) {
    count++;
    if (logfd >= 0) { char b[2] = {what, '\n'}; if (REAL(write)(logfd, b, 2) < 0) {} }
    pending = 0;
    for (int i = 0; i < planned; i++)
        if (faults[i].at == count) { pending = 1; kind = faults[i].kind; if (!sticky) err = faults[i].err; }
    if (pending && !strcmp(kind, "before")) die();
    if (pending && !strcmp(kind, "pause")) { pending = 0; raise(SIGSTOP); }
    if (sticky && strchr("wcm", what)) { errno = err; pending = 0; return 1; }
    if (!pending) return 0;
    if (!strcmp(kind, "fail")) { errno = err; return 1; }
    if (!strcmp(kind, "full")) { sticky = 1; errno = err; return 1; }
    return 0;
}
static void leave(void) { if (pending && !strcmp(kind, "after")) { int e = errno; die(); errno = e; } }
static int known(int fd) { setup(); return fd >= 0 && fd < 4096 && mine[fd]; }

#define OPEN(name, decl, call, dirfd)                                                              \
    decl {                                                                                         \
        mode_t mode = 0;                                                                           \
        if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
        if (!inside(dirfd, path)) return call;                                                     \
        int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));                  \
        if (enter(w ? 'c' : 'o')) return -1;                                                       \
        int fd = call;                                                                             \
        if (fd >= 0 && fd < 4096) mine[fd] = 1;                                                    \
        leave();                                                                                   \
        return fd;                                                                                 \
    }
OPEN(open, int open(const char *path, int flags, ...), REAL(open)(path, flags, mode), AT_FDCWD)
OPEN(open64, int open64(const char *path, int flags, ...), REAL(open64)(path, flags, mode), AT_FDCWD)
OPEN(openat, int openat(int dir, const char *path, int flags, ...), REAL(openat)(dir, path, flags, mode), dir)
OPEN(openat64, int openat64(int dir, const char *path, int flags, ...), REAL(openat64)(dir, path, flags, mode), dir)

int close(int fd) {
    if (!known(fd)) return REAL(close)(fd);
    mine[fd] = 0;
    if (enter('x')) { REAL(close)(fd); return -1; }
    int r = REAL(close)(fd);
    leave();
    return r;
}

static size_t part(size_t n) {      /* how much of write number `count` to do */
    if (pending && n > 0 && (!strcmp(kind, "mid") || !strcmp(kind, "short") || !strcmp(kind, "half"))) return n / 2;
    return n;
}
static void wrote(void) {
    if (pending && !strcmp(kind, "mid")) die();
    if (pending && !strcmp(kind, "half")) sticky = 1;
    leave();
}
/* from write number TT_TELL on nobody reads the standard output any more */
static int unread(int fd) {
    static int told;
    return fd == 1 && getenv("TT_TELL") && ++told >= atoi(getenv("TT_TELL")) ? (errno = EPIPE, 1) : 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (unread(fd)) return -1;
    if (!known(fd)) return REAL(write)(fd, b, n);
    if (enter('w')) return -1;
    size_t m = part(n);
    ssize_t r = m || !n ? REAL(write)(fd, b, m) : (!strcmp(kind, "mid") ? 0 : REAL(write)(fd, b, 1));
    wrote();
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (!known(fd)) return REAL(pwrite64)(fd, b, n, o);
    if (enter('w')) return -1;
    ssize_t r = REAL(pwrite64)(fd, b, part(n) ? part(n) : n, o);
    wrote();
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!known(fd)) return REAL(writev)(fd, v, c);
    if (enter('w')) return -1;
    ssize_t r = pending && c > 0 && (kind[0] == 'm' || kind[0] == 's' || kind[0] == 'h')
                    ? REAL(write)(fd, v[0].iov_base, (v[0].iov_len + 1) / 2) : REAL(writev)(fd, v, c);
    wrote();
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    if (!known(fd)) return REAL(read)(fd, b, n);
    if (enter('r')) return -1;
    ssize_t r = REAL(read)(fd, b, n);
    leave();
    return r;
}

#define PLAIN(letter, decl, cond, call) decl { if (!(cond)) return call; if (enter(letter)) return -1; int r = call; leave(); return r; }
PLAIN('m', int mkdir(const char *p, mode_t m), inside(AT_FDCWD, p), REAL(mkdir)(p, m))
PLAIN('m', int mkdirat(int d, const char *p, mode_t m), inside(d, p), REAL(mkdirat)(d, p, m))
PLAIN('n', int rename(const char *a, const char *b), inside(AT_FDCWD, b), REAL(rename)(a, b))
PLAIN('n', int renameat(int d, const char *a, int e, const char *b), inside(e, b), REAL(renameat)(d, a, e, b))
PLAIN('n', int renameat2(int d, const char *a, int e, const char *b, unsigned f), inside(e, b), REAL(renameat2)(d, a, e, b, f))
PLAIN('l', int link(const char *a, const char *b), inside(AT_FDCWD, b), REAL(link)(a, b))
PLAIN('l', int linkat(int d, const char *a, int e, const char *b, int f), inside(e, b), REAL(linkat)(d, a, e, b, f))
PLAIN('u', int unlink(const char *p), inside(AT_FDCWD, p), REAL(unlink)(p))
PLAIN('u', int unlinkat(int d, const char *p, int f), inside(d, p), REAL(unlinkat)(d, p, f))
PLAIN('u', int rmdir(const char *p), inside(AT_FDCWD, p), REAL(rmdir)(p))
PLAIN('t', int ftruncate64(int fd, off64_t n), known(fd), REAL(ftruncate64)(fd, n))
PLAIN('t', int truncate(const char *p, off_t n), inside(AT_FDCWD, p), REAL(truncate)(p, n))
PLAIN('t', int truncate64(const char *p, off64_t n), inside(AT_FDCWD, p), REAL(truncate64)(p, n))
PLAIN('l', int symlink(const char *a, const char *b), inside(AT_FDCWD, b), REAL(symlink)(a, b))
PLAIN('l', int symlinkat(const char *a, int d, const char *b), inside(d, b), REAL(symlinkat)(a, d, b))
PLAIN('t', int ftruncate(int fd, off_t n), known(fd), REAL(ftruncate)(fd, n))
PLAIN('h', int fchmod(int fd, mode_t m), known(fd), REAL(fchmod)(fd, m))
PLAIN('h', int chmod(const char *p, mode_t m), inside(AT_FDCWD, p), REAL(chmod)(p, m))
PLAIN('s', int fsync(int fd), known(fd), REAL(fsync)(fd))
PLAIN('s', int fdatasync(int fd), known(fd), REAL(fdatasync)(fd))
/* kernel-side copies go through read and write instead */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (known(a) || known(b)) { errno = ENOSYS; return -1; }
    return REAL(copy_file_range)(a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *x, size_t n);
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) {
    if (known(o) || known(i)) { errno = ENOSYS; return -1; }
    ssize_t (*real)(int, int, off64_t *, size_t) = dlsym(RTLD_NEXT, "sendfile64");
    return real(o, i, x, n);
}

/* directories are read as a whole and handed out as TT_READ says */
static struct { DIR *dir; struct dirent64 *list; int n, at; } reads[16];

static int named(int r, const char *name) {
    for (int i = 0; i < reads[r].n; i++)
        if (!strcmp(reads[r].list[i].d_name, name)) return 1;
    return 0;
}
static void gather(int r) {
    struct dirent64 *e;
    while ((e = REAL(readdir64)(reads[r].dir)))
        if (!named(r, e->d_name)) {
            reads[r].list = realloc(reads[r].list, sizeof *e * (reads[r].n + 1));
            memcpy(&reads[r].list[reads[r].n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        }
}
struct dirent64 *readdir64(DIR *dir) {
    const char *how = getenv("TT_READ");
    if (!how) return REAL(readdir64)(dir);
    int r = 0;
    while (r < 16 && reads[r].dir && reads[r].dir != dir) r++;
    if (r == 16) return REAL(readdir64)(dir);
    if (!reads[r].dir) {
        reads[r].dir = dir;
        gather(r);
        unsigned seed = strchr(how, ':') ? (unsigned)atoi(strchr(how, ':') + 1) : 0;
        for (int i = 1, n = reads[r].n; i < n; i++) {
            seed = seed * 1103515245u + 12345u;
            int j = how[0] == 's' ? (int)(seed >> 8) % (i + 1) : how[0] == 'r' ? 0 : i;
            struct dirent64 e = reads[r].list[i];
            if (how[0] == 's') { reads[r].list[i] = reads[r].list[j]; reads[r].list[j] = e; }
            else { memmove(&reads[r].list[j + 1], &reads[r].list[j], sizeof e * (i - j)); reads[r].list[j] = e; }
        }
    }
    if (reads[r].at == reads[r].n && how[0] == 'l') { rewinddir(dir); gather(r); }
    return reads[r].at < reads[r].n ? &reads[r].list[reads[r].at++] : 0;
}
int closedir(DIR *dir) {
    for (int r = 0; r < 16; r++)
        if (reads[r].dir == dir) { free(reads[r].list); reads[r].dir = 0; reads[r].list = 0; reads[r].n = reads[r].at = 0; }
    return REAL(closedir)(dir);
}
