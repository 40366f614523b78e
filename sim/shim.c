/* simio: the simulated operating system under sofar, CPython and HDF5.
 *
 * LD_PRELOADed into every simulation process.  It interposes the libc calls
 * through which the system under test meets nondeterminism or faults:
 * file I/O, directory enumeration, the real-time clock and the random pool.
 * Files below the registered roots are "the simulated disk": every operation
 * on them gets a sequence number, is logged, and can be failed, shortened,
 * interrupted or turned into a process crash by an armed fault.
 * With nothing registered, every call is passed through unchanged.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXP 1024
#define MAXFD 4096
#define MAXLOG 200000
#define MAXPATHS 4096
#define MAXFAULT 32
#define MAXROOT 8

enum { OP_OPENR = 1, OP_OPENW = 2, OP_READ = 4, OP_WRITE = 8, OP_TRUNC = 16,
       OP_CLOSE = 32, OP_RENAME = 64, OP_UNLINK = 128, OP_MKDIR = 256,
       OP_STAT = 512, OP_OPENDIR = 1024, OP_FSYNC = 2048, OP_FLOCK = 4096,
       OP_RMDIR = 8192, OP_META = 16384 };
enum { ACT_ERR = 1, ACT_SHORT = 2, ACT_CRASH_BEFORE = 3, ACT_CRASH_TORN = 4,
       ACT_CRASH_AFTER = 5, ACT_INTR = 6, ACT_EINTR = 7, ACT_CALL = 8,
       ACT_EOF = 9 };

typedef struct { int32_t op, path, path2, fd, fault, err; int64_t len, ret; } logent;
typedef struct { int32_t mask, nth, action, err, sticky, seen, fired; int64_t arg; char sub[128]; } fault_t;
typedef struct {
    int32_t nlog, npaths, dropped, pad;
    logent log[MAXLOG];
    char paths[MAXPATHS][160];
} shared_t;

static shared_t *S;
static struct { char from[MAXP], to[MAXP]; size_t nf, nt; } redir[MAXROOT];
static int nredir;
static struct { char p[MAXP]; size_t n; } roots[MAXROOT];
static int nroot;
static struct { char active; char w; int pathid; char path[MAXP]; } fdt[MAXFD];
static fault_t faults[MAXFAULT];
static int nfault;
static int logging, quiet;
static int clock_on; static int64_t clock_ns, clock_step; static int64_t clock_reads;
static int rnd_on; static uint64_t rnd_state;
static int dir_on; static uint64_t dir_state;
static void (*callback)(int);
static int64_t space_left = -1;   /* <0: unlimited */

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__); \
    static inline void need_##name(void) { if (!r_##name) r_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name); }

REAL(int, open64, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, pread64, int, void *, size_t, off64_t)
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(ssize_t, readv, int, const struct iovec *, int)
REAL(int, close, int)
REAL(int, ftruncate64, int, off64_t)
REAL(int, truncate64, const char *, off64_t)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(int, flock, int, int)
REAL(int, rename, const char *, const char *)
REAL(int, renameat, int, const char *, int, const char *)
REAL(int, unlink, const char *)
REAL(int, remove, const char *)
REAL(int, unlinkat, int, const char *, int)
REAL(int, rmdir, const char *)
REAL(int, mkdir, const char *, mode_t)
REAL(int, mkdirat, int, const char *, mode_t)
REAL(int, stat64, const char *, struct stat64 *)
REAL(int, lstat64, const char *, struct stat64 *)
REAL(int, fstatat64, int, const char *, struct stat64 *, int)
REAL(int, access, const char *, int)
REAL(int, faccessat, int, const char *, int, int)
REAL(ssize_t, readlink, const char *, char *, size_t)
REAL(int, chmod, const char *, mode_t)
REAL(int, fchmodat, int, const char *, mode_t, int)
REAL(int, utimensat, int, const char *, const struct timespec *, int)
REAL(DIR *, opendir, const char *)
REAL(DIR *, fdopendir, int)
REAL(struct dirent64 *, readdir64, DIR *)
REAL(int, closedir, DIR *)
REAL(void, rewinddir, DIR *)
REAL(FILE *, fopen64, const char *, const char *)
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(int, gettimeofday, struct timeval *, void *)
REAL(time_t, time, time_t *)
REAL(ssize_t, getrandom, void *, size_t, unsigned)
REAL(int, dup, int)
REAL(int, link, const char *, const char *)
REAL(int, symlink, const char *, const char *)

static uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

/* ---- path handling ---------------------------------------------------- */
static void norm(int dirfd, const char *in, char *out) {
    char buf[2 * MAXP]; buf[0] = 0;
    if (in[0] != '/') {
        if (dirfd == AT_FDCWD) {
            if (!getcwd(buf, MAXP)) buf[0] = 0;
        } else if (dirfd >= 0 && dirfd < MAXFD && fdt[dirfd].active) {
            strcpy(buf, fdt[dirfd].path);
        } else { strncpy(out, in, MAXP - 1); out[MAXP - 1] = 0; return; }
        strcat(buf, "/");
    }
    strncat(buf, in, MAXP - 1);
    char *comp[256]; int nc = 0; char *sv = NULL;
    for (char *t = strtok_r(buf, "/", &sv); t && nc < 255; t = strtok_r(NULL, "/", &sv)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { if (nc) nc--; continue; }
        comp[nc++] = t;
    }
    size_t n = 0; out[0] = 0;
    for (int i = 0; i < nc; i++) {
        size_t l = strlen(comp[i]);
        if (n + l + 2 >= MAXP) break;
        out[n++] = '/'; memcpy(out + n, comp[i], l); n += l;
    }
    if (!n) out[n++] = '/';
    out[n] = 0;
}
static int under(const char *p, const char *root, size_t n) {
    return !strncmp(p, root, n) && (p[n] == '/' || p[n] == 0);
}
/* returns the path to use; sets *sim if on the simulated disk */
static const char *mapp(int dirfd, const char *in, char *buf, int *sim) {
    *sim = 0;
    if (!in || (!nroot && !nredir)) return in;
    char t[MAXP]; norm(dirfd, in, t);
    for (int i = 0; i < nredir; i++)
        if (under(t, redir[i].from, redir[i].nf)) {
            char u[2 * MAXP]; snprintf(u, sizeof u, "%s%s", redir[i].to, t + redir[i].nf);
            strncpy(t, u, MAXP - 1); t[MAXP - 1] = 0;
            for (int k = 0; k < nroot; k++) if (under(t, roots[k].p, roots[k].n)) *sim = 1;
            strcpy(buf, t); return buf;
        }
    for (int k = 0; k < nroot; k++) if (under(t, roots[k].p, roots[k].n)) { *sim = 1; strcpy(buf, t); return buf; }
    return in;
}
static int pathid(const char *p) {
    if (!S) return -1;
    const char *rel = p;
    for (int k = 0; k < nroot; k++) if (under(p, roots[k].p, roots[k].n)) { rel = p + roots[k].n; break; }
    char b[160]; strncpy(b, rel, 159); b[159] = 0;
    for (int i = 0; i < S->npaths; i++) if (!strcmp(S->paths[i], b)) return i;
    if (S->npaths >= MAXPATHS) { S->dropped++; return -1; }
    strcpy(S->paths[S->npaths], b);
    return S->npaths++;
}
static int logop(int op, int pid, int pid2, int fd, int64_t len) {
    if (!S || !logging || quiet) return -1;
    if (S->nlog >= MAXLOG) { S->dropped++; return -1; }
    logent *e = &S->log[S->nlog];
    e->op = op; e->path = pid; e->path2 = pid2; e->fd = fd; e->len = len; e->ret = 0; e->err = 0; e->fault = -1;
    return S->nlog++;
}
static void logret(int id, int64_t ret) { if (id >= 0) { S->log[id].ret = ret; S->log[id].err = ret < 0 ? errno : 0; } }

static fault_t *match(int op, const char *path, const char *path2, int id) {
    if (quiet) return NULL;
    fault_t *hit = NULL; int cb = 0; int64_t cbarg = 0;
    for (int i = 0; i < nfault; i++) {
        fault_t *f = &faults[i];
        if (!(f->mask & op)) continue;
        if (f->sub[0] && !(path && strstr(path, f->sub)) && !(path2 && strstr(path2, f->sub))) continue;
        f->seen++;
        if (f->action == ACT_CALL) {
            if (f->seen == f->nth || (f->sticky && f->seen > f->nth)) { f->fired++; cb = 1; cbarg = f->arg; }
            continue;
        }
        if (!hit && (f->seen == f->nth || (f->sticky && f->seen > f->nth))) {
            f->fired++; hit = f; if (id >= 0) S->log[id].fault = i;
        }
    }
    if (cb && callback) { int e = errno; quiet++; callback((int)cbarg); quiet--; errno = e; }
    return hit;
}
static void docrash(void) { _exit(77); }
/* generic handling before an operation; returns 1 if the op fails */
static int pre(fault_t *f) {
    if (!f) return 0;
    switch (f->action) {
    case ACT_ERR: errno = f->err; return 1;
    case ACT_CRASH_BEFORE: docrash(); return 1;
    case ACT_INTR: raise(SIGINT); errno = EINTR; return 1;
    case ACT_EINTR: errno = EINTR; return 1;
    default: return 0;
    }
}
static void post(fault_t *f) { if (f && (f->action == ACT_CRASH_AFTER || f->action == ACT_CRASH_TORN)) docrash(); }
static size_t shorten(fault_t *f, size_t n) {
    if (f && (f->action == ACT_SHORT || f->action == ACT_CRASH_TORN) && n > 0) {
        size_t k = (size_t)((double)n * (double)f->arg / 1000.0);
        if (f->action == ACT_SHORT && k == 0) k = 1;
        if (k > n) k = n;
        return k;
    }
    return n;
}
static int simfd(int fd) { return fd >= 0 && fd < MAXFD && fdt[fd].active; }
static void setfd(int fd, const char *path, int w) {
    if (fd < 0 || fd >= MAXFD) return;
    fdt[fd].active = 1; fdt[fd].w = w; strncpy(fdt[fd].path, path, MAXP - 1); fdt[fd].pathid = pathid(path);
}

/* ---- open / close ----------------------------------------------------- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    need_openat64();
    char b[MAXP]; int sim; const char *p = mapp(dirfd, path, b, &sim);
    if (p != path) dirfd = AT_FDCWD;
    if (!sim) return r_openat64(dirfd, p, flags, mode);
    int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    int op = w ? OP_OPENW : OP_OPENR;
    int id = logop(op, pathid(p), -1, -1, flags);
    fault_t *f = match(op, p, NULL, id);
    if (pre(f)) { logret(id, -1); return -1; }
    int fd = r_openat64(dirfd, p, flags, mode);
    int e = errno;
    if (fd >= 0) { setfd(fd, p, w); if (id >= 0) S->log[id].fd = fd; }
    errno = e; logret(id, fd < 0 ? -1 : 0);
    post(f); errno = e;
    return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat(const char *path, mode_t mode) { return creat64(path, mode); }

int close(int fd) {
    need_close();
    if (!simfd(fd)) return r_close(fd);
    int id = logop(OP_CLOSE, fdt[fd].pathid, -1, fd, 0);
    fault_t *f = match(OP_CLOSE, fdt[fd].path, NULL, id);
    if (f && (f->action == ACT_CRASH_BEFORE)) docrash();
    fdt[fd].active = 0;
    int r = r_close(fd);
    if (f && f->action == ACT_ERR) { errno = f->err; r = -1; }   /* delayed write error */
    if (f && f->action == ACT_INTR) raise(SIGINT);
    logret(id, r); post(f);
    return r;
}

/* ---- data ------------------------------------------------------------- */
static fault_t *begin(int op, int fd, size_t n, int *id) {
    *id = logop(op, fdt[fd].pathid, -1, fd, (int64_t)n);
    return match(op, fdt[fd].path, NULL, *id);
}
ssize_t read(int fd, void *buf, size_t n) {
    need_read();
    if (!simfd(fd)) return r_read(fd, buf, n);
    int id; fault_t *f = begin(OP_READ, fd, n, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    if (f && f->action == ACT_EOF) { logret(id, 0); return 0; }
    ssize_t r = r_read(fd, buf, shorten(f, n));
    logret(id, r); post(f); return r;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
    need_pread64();
    if (!simfd(fd)) return r_pread64(fd, buf, n, o);
    int id; fault_t *f = begin(OP_READ, fd, n, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    if (f && f->action == ACT_EOF) { logret(id, 0); return 0; }
    ssize_t r = r_pread64(fd, buf, shorten(f, n), o);
    logret(id, r); post(f); return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    need_readv();
    if (!simfd(fd)) return r_readv(fd, v, c);
    int id; fault_t *f = begin(OP_READ, fd, 0, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    ssize_t r = r_readv(fd, v, c); logret(id, r); return r;
}
static int space(size_t *n) {
    if (space_left < 0) return 0;
    if (space_left == 0 && *n) { errno = ENOSPC; return 1; }
    if ((int64_t)*n > space_left) *n = (size_t)space_left;
    return 0;
}
ssize_t write(int fd, const void *buf, size_t n) {
    need_write();
    if (!simfd(fd)) return r_write(fd, buf, n);
    int id; fault_t *f = begin(OP_WRITE, fd, n, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    n = shorten(f, n);
    if (space(&n)) { logret(id, -1); return -1; }
    ssize_t r = n ? r_write(fd, buf, n) : 0;
    if (r > 0 && space_left >= 0) space_left -= r;
    logret(id, r); post(f); return r;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    need_pwrite64();
    if (!simfd(fd)) return r_pwrite64(fd, buf, n, o);
    int id; fault_t *f = begin(OP_WRITE, fd, n, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    n = shorten(f, n);
    if (space(&n)) { logret(id, -1); return -1; }
    ssize_t r = n ? r_pwrite64(fd, buf, n, o) : 0;
    if (r > 0 && space_left >= 0) space_left -= r;
    logret(id, r); post(f); return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return pwrite64(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    need_writev();
    if (!simfd(fd)) return r_writev(fd, v, c);
    int id; fault_t *f = begin(OP_WRITE, fd, 0, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    ssize_t r = r_writev(fd, v, c); logret(id, r); post(f); return r;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    need_sendfile64();
    if (!simfd(out)) return r_sendfile64(out, in, o, n);
    int id; fault_t *f = begin(OP_WRITE, out, n, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    if (f && (f->action == ACT_SHORT || f->action == ACT_CRASH_TORN)) {
        struct stat st; if (!fstat(in, &st) && (size_t)st.st_size < n) n = st.st_size;
        n = shorten(f, n);
    }
    if (space(&n)) { logret(id, -1); return -1; }
    ssize_t r = n ? r_sendfile64(out, in, o, n) : 0;
    if (r > 0 && space_left >= 0) space_left -= r;
    logret(id, r); post(f); return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    need_copy_file_range();
    if (!simfd(out)) return r_copy_file_range(in, oi, out, oo, n, fl);
    int id; fault_t *f = begin(OP_WRITE, out, n, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    ssize_t r = r_copy_file_range(in, oi, out, oo, shorten(f, n), fl);
    logret(id, r); post(f); return r;
}
int ftruncate64(int fd, off64_t n) {
    need_ftruncate64();
    if (!simfd(fd)) return r_ftruncate64(fd, n);
    int id; fault_t *f = begin(OP_TRUNC, fd, (size_t)n, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    int r = r_ftruncate64(fd, n); logret(id, r); post(f); return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) {
    need_fsync();
    if (!simfd(fd)) return r_fsync(fd);
    int id; fault_t *f = begin(OP_FSYNC, fd, 0, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    logret(id, 0); post(f); return 0;
}
int fdatasync(int fd) {
    need_fdatasync();
    if (!simfd(fd)) return r_fdatasync(fd);
    return fsync(fd);
}
int flock(int fd, int op) {
    need_flock();
    if (!simfd(fd)) return r_flock(fd, op);
    int id; fault_t *f = begin(OP_FLOCK, fd, (size_t)op, &id);
    if (pre(f)) { logret(id, -1); return -1; }
    int r = r_flock(fd, op); logret(id, r); return r;
}

/* ---- namespace -------------------------------------------------------- */
#define NS1(op, call) \
    char b[MAXP]; int sim; const char *p = mapp(d, path, b, &sim); if (p != path) d = AT_FDCWD; (void)d; \
    if (!sim) return call; \
    int id = logop(op, pathid(p), -1, -1, 0); fault_t *f = match(op, p, NULL, id); \
    if (pre(f)) { logret(id, -1); return -1; } \
    int r = call; int e = errno; logret(id, r); post(f); errno = e; return r;
int unlink(const char *path) { need_unlink(); int d = AT_FDCWD; NS1(OP_UNLINK, r_unlink(p)) }
int remove(const char *path) { need_remove(); int d = AT_FDCWD; NS1(OP_UNLINK, r_remove(p)) }
int unlinkat(int d, const char *path, int fl) { need_unlinkat(); NS1((fl & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK), r_unlinkat(d, p, fl)) }
int rmdir(const char *path) { need_rmdir(); int d = AT_FDCWD; NS1(OP_RMDIR, r_rmdir(p)) }
int mkdir(const char *path, mode_t m) { need_mkdir(); int d = AT_FDCWD; NS1(OP_MKDIR, r_mkdir(p, m)) }
int mkdirat(int d, const char *path, mode_t m) { need_mkdirat(); NS1(OP_MKDIR, r_mkdirat(d, p, m)) }
int chmod(const char *path, mode_t m) { need_chmod(); int d = AT_FDCWD; NS1(OP_META, r_chmod(p, m)) }
int fchmodat(int d, const char *path, mode_t m, int fl) { need_fchmodat(); NS1(OP_META, r_fchmodat(d, p, m, fl)) }
int utimensat(int d, const char *path, const struct timespec *t, int fl) {
    need_utimensat(); if (!path) return r_utimensat(d, path, t, fl); NS1(OP_META, r_utimensat(d, p, t, fl)) }
int truncate64(const char *path, off64_t n) { need_truncate64(); int d = AT_FDCWD; NS1(OP_TRUNC, r_truncate64(p, n)) }
int truncate(const char *path, off_t n) { return truncate64(path, n); }
int stat64(const char *path, struct stat64 *st) { need_stat64(); int d = AT_FDCWD; NS1(OP_STAT, r_stat64(p, st)) }
int stat(const char *path, struct stat *st) { return stat64(path, (struct stat64 *)st); }
int lstat64(const char *path, struct stat64 *st) { need_lstat64(); int d = AT_FDCWD; NS1(OP_STAT, r_lstat64(p, st)) }
int lstat(const char *path, struct stat *st) { return lstat64(path, (struct stat64 *)st); }
int fstatat64(int d, const char *path, struct stat64 *st, int fl) {
    need_fstatat64(); if (path && !path[0]) return r_fstatat64(d, path, st, fl); NS1(OP_STAT, r_fstatat64(d, p, st, fl)) }
int fstatat(int d, const char *path, struct stat *st, int fl) { return fstatat64(d, path, (struct stat64 *)st, fl); }
int access(const char *path, int m) { need_access(); int d = AT_FDCWD; NS1(OP_STAT, r_access(p, m)) }
int faccessat(int d, const char *path, int m, int fl) { need_faccessat(); NS1(OP_STAT, r_faccessat(d, p, m, fl)) }
ssize_t readlink(const char *path, char *buf, size_t n) {
    need_readlink(); char b[MAXP]; int sim; const char *p = mapp(AT_FDCWD, path, b, &sim); return r_readlink(p, buf, n); }
static int do_rename(int d1, const char *a, int d2, const char *c) {
    need_renameat();
    char b1[MAXP], b2[MAXP]; int s1, s2;
    const char *p1 = mapp(d1, a, b1, &s1), *p2 = mapp(d2, c, b2, &s2);
    if (p1 != a) d1 = AT_FDCWD;
    if (p2 != c) d2 = AT_FDCWD;
    if (!s1 && !s2) return r_renameat(d1, p1, d2, p2);
    int id = logop(OP_RENAME, pathid(p1), pathid(p2), -1, 0);
    fault_t *f = match(OP_RENAME, p1, p2, id);
    if (pre(f)) { logret(id, -1); return -1; }
    int r = r_renameat(d1, p1, d2, p2); int e = errno; logret(id, r); post(f); errno = e; return r;
}
int rename(const char *a, const char *c) { return do_rename(AT_FDCWD, a, AT_FDCWD, c); }
int renameat(int d1, const char *a, int d2, const char *c) { return do_rename(d1, a, d2, c); }
int renameat2(int d1, const char *a, int d2, const char *c, unsigned fl) { (void)fl; return do_rename(d1, a, d2, c); }
int link(const char *a, const char *c) {
    need_link(); char b1[MAXP], b2[MAXP]; int s1, s2;
    const char *p1 = mapp(AT_FDCWD, a, b1, &s1), *p2 = mapp(AT_FDCWD, c, b2, &s2);
    if (!s1 && !s2) return r_link(p1, p2);
    int id = logop(OP_RENAME, pathid(p1), pathid(p2), -1, 1);
    fault_t *f = match(OP_RENAME, p1, p2, id);
    if (pre(f)) { logret(id, -1); return -1; }
    int r = r_link(p1, p2); logret(id, r); post(f); return r;
}
FILE *fopen64(const char *path, const char *m) {
    need_fopen64();
    char b[MAXP]; int sim; const char *p = mapp(AT_FDCWD, path, b, &sim);
    if (!sim) return r_fopen64(p, m);
    int op = (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')) ? OP_OPENW : OP_OPENR;
    int id = logop(op, pathid(p), -1, -1, 0); fault_t *f = match(op, p, NULL, id);
    if (pre(f)) { logret(id, -1); return NULL; }
    FILE *r = r_fopen64(p, m); int e = errno; logret(id, r ? 0 : -1); errno = e; return r;
}
FILE *fopen(const char *path, const char *m) { return fopen64(path, m); }

/* ---- directory enumeration -------------------------------------------- */
#define MAXDIRS 64
static struct { DIR *d; struct dirent64 *e; int n, i; } dirs[MAXDIRS];
static void slurp(DIR *d) {
    need_readdir64();
    int s = -1;
    for (int i = 0; i < MAXDIRS; i++) if (!dirs[i].d) { s = i; break; }
    if (s < 0) return;
    int cap = 64, n = 0; struct dirent64 *e = malloc(cap * sizeof *e), *x;
    while ((x = r_readdir64(d))) {
        if (n == cap) { cap *= 2; e = realloc(e, cap * sizeof *e); }
        memcpy(&e[n], x, x->d_reclen < sizeof *e ? x->d_reclen : sizeof *e); n++;
    }
    for (int i = 1; i < n; i++) for (int j = i; j > 0 && strcmp(e[j - 1].d_name, e[j].d_name) > 0; j--) {
        struct dirent64 t = e[j]; e[j] = e[j - 1]; e[j - 1] = t; }
    if (dir_on == 1) for (int i = n - 1; i > 0; i--) {
        int j = (int)(splitmix(&dir_state) % (uint64_t)(i + 1)); struct dirent64 t = e[i]; e[i] = e[j]; e[j] = t; }
    if (dir_on == 3) for (int i = 0; i < n / 2; i++) { struct dirent64 t = e[i]; e[i] = e[n - 1 - i]; e[n - 1 - i] = t; }
    dirs[s].d = d; dirs[s].e = e; dirs[s].n = n; dirs[s].i = 0;
}
DIR *opendir(const char *path) {
    need_opendir();
    char b[MAXP]; int sim; const char *p = mapp(AT_FDCWD, path, b, &sim);
    if (!sim) return r_opendir(p);
    int id = logop(OP_OPENDIR, pathid(p), -1, -1, 0); fault_t *f = match(OP_OPENDIR, p, NULL, id);
    if (pre(f)) { logret(id, -1); return NULL; }
    DIR *d = r_opendir(p); logret(id, d ? 0 : -1);
    if (d && dir_on) slurp(d);
    return d;
}
DIR *fdopendir(int fd) {
    need_fdopendir();
    int sim = simfd(fd);
    DIR *d = r_fdopendir(fd);
    if (d && sim && dir_on) slurp(d);
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    need_readdir64();
    for (int i = 0; i < MAXDIRS; i++) if (dirs[i].d == d) return dirs[i].i < dirs[i].n ? &dirs[i].e[dirs[i].i++] : NULL;
    return r_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) {
    need_rewinddir();
    for (int i = 0; i < MAXDIRS; i++) if (dirs[i].d == d) { dirs[i].i = 0; return; }
    r_rewinddir(d);
}
int closedir(DIR *d) {
    need_closedir();
    int fd = dirfd(d);
    if (simfd(fd)) fdt[fd].active = 0;
    for (int i = 0; i < MAXDIRS; i++) if (dirs[i].d == d) { free(dirs[i].e); dirs[i].d = NULL; }
    return r_closedir(d);
}

/* ---- clock and randomness --------------------------------------------- */
static int64_t tick(void) { int64_t t = clock_ns; clock_ns += clock_step; clock_reads++; return t; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    need_clock_gettime();
    if (clock_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        int64_t t = tick(); ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0; }
    return r_clock_gettime(c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    need_gettimeofday();
    if (clock_on && tv) { int64_t t = tick(); tv->tv_sec = t / 1000000000LL; tv->tv_usec = (t % 1000000000LL) / 1000; return 0; }
    return r_gettimeofday(tv, tz);
}
time_t time(time_t *o) {
    need_time();
    if (clock_on) { time_t t = tick() / 1000000000LL; if (o) *o = t; return t; }
    return r_time(o);
}
static int simpid = 0;
void sim_pid(int p) { simpid = p; }
REAL(pid_t, getpid, void)
pid_t getpid(void) {
    need_getpid();
    return simpid ? simpid : r_getpid();
}

ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    need_getrandom();
    if (!rnd_on) return r_getrandom(buf, n, fl);
    unsigned char *p = buf; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(splitmix(&rnd_state) >> 32);
    return (ssize_t)n;
}

/* ---- control interface (ctypes) --------------------------------------- */
int sim_present(void) { return 1; }
int sim_init(void) {
    if (!S) { S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
              if (S == MAP_FAILED) { S = NULL; return -1; } }
    S->nlog = 0; S->npaths = 0; S->dropped = 0; return 0;
}
void sim_add_root(const char *p) { if (nroot < MAXROOT) { strcpy(roots[nroot].p, p); roots[nroot].n = strlen(p); nroot++; } }
void sim_clear_roots(void) { nroot = 0; nredir = 0; }
void sim_add_redirect(const char *a, const char *b) {
    if (nredir < MAXROOT) { strcpy(redir[nredir].from, a); strcpy(redir[nredir].to, b);
        redir[nredir].nf = strlen(a); redir[nredir].nt = strlen(b); nredir++; } }
void sim_logging(int on) { logging = on; }
void sim_quiet(int d) { quiet += d; }
void sim_clear_log(void) { if (S) { S->nlog = 0; S->npaths = 0; S->dropped = 0; } }
int sim_nlog(void) { return S ? S->nlog : 0; }
int sim_dropped(void) { return S ? S->dropped : 0; }
logent *sim_log(void) { return S ? S->log : NULL; }
const char *sim_path(int i) { return S && i >= 0 && i < S->npaths ? S->paths[i] : ""; }
void sim_clear_faults(void) { nfault = 0; }
int sim_add_fault(int mask, const char *sub, int nth, int action, int err, int64_t arg, int sticky) {
    if (nfault >= MAXFAULT) return -1;
    fault_t *f = &faults[nfault]; memset(f, 0, sizeof *f);
    f->mask = mask; f->nth = nth; f->action = action; f->err = err; f->arg = arg; f->sticky = sticky;
    strncpy(f->sub, sub ? sub : "", 127); return nfault++;
}
int sim_fault_fired(int i) { return i >= 0 && i < nfault ? faults[i].fired : 0; }
int sim_fault_seen(int i) { return i >= 0 && i < nfault ? faults[i].seen : 0; }
void sim_space(int64_t n) { space_left = n; }
void sim_callback(void (*cb)(int)) { callback = cb; }
void sim_clock(int on, int64_t ns, int64_t step) { clock_on = on; clock_ns = ns; clock_step = step; }
int64_t sim_clock_now(void) { return clock_ns; }
int64_t sim_clock_reads(void) { return clock_reads; }
void sim_clock_step(int64_t step) { clock_step = step; }
void sim_random(int on, uint64_t seed) { rnd_on = on; rnd_state = seed; }
void sim_dirorder(int on, uint64_t seed) { dir_on = on; dir_state = seed; }
int sim_open_fds(const char *sub, int writable_only) {
    int n = 0;
    for (int i = 0; i < MAXFD; i++) if (fdt[i].active && (!sub[0] || strstr(fdt[i].path, sub)) && (!writable_only || fdt[i].w)) n++;
    return n;
}
const char *sim_open_path(const char *sub, int k) {
    for (int i = 0; i < MAXFD; i++) if (fdt[i].active && (!sub[0] || strstr(fdt[i].path, sub))) if (k-- == 0) return fdt[i].path;
    return "";
}
