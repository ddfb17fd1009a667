/* Preloaded into the tool under simulation: every file operation below the scratch root is
 * numbered, logged and, where the plan says so, made to fail, stop half-way or kill the process.
 * Everything that could differ between two executions (directory order, random bytes, clock, process
 * id) is decided by the plan's seed. Nothing outside the root can be changed. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum kind { K_OPEN_R = 1, K_OPEN_W, K_READ, K_WRITE, K_STAT, K_OPENDIR, K_READDIR, K_MKDIR, K_RENAME, K_UNLINK,
            K_FSYNC, K_CHMOD, K_TRUNC, K_LINK, K_READLINK, K_GETCWD, K_RMDIR, K_CLOSE, K_EXEC };
enum action { A_NONE, A_ERR, A_SHORT, A_KILL_BEFORE, A_KILL_AFTER, A_KILL_PARTIAL, A_FULL, A_BAD_PATH };

struct rule { uint32_t op, action; int32_t err; uint32_t param; };
struct entry { uint8_t kind, action; int16_t err; int32_t ret; char path[248]; };
#define MAXLOG 8000
struct shm {
    uint32_t magic, nrules;
    struct rule rules[16];
    uint64_t seed;      /* directory order, random bytes, clock */
    uint32_t dt_unknown; /* the file system does not tell entry types */
    uint32_t nops, nlog, escapes;
    uint32_t full;      /* disk is full after this many more bytes, if full_on */
    uint32_t full_on;
    uint32_t ticks, draws;
    uint32_t lane;      /* 0 to 2: one of several tools that run at the same time */
    char bad[256];      /* every operation on this path fails */
    int32_t bad_err;
    char root[256];
    struct entry log[MAXLOG];
};

static struct shm *S;
static int gate_ask = -1, gate_go = -1;
static char cwd[PATH_MAX];

#define MAXFD 1024
static char fdpath[MAXFD][512]; /* path relative to the root, "" if not ours */

static uint64_t mixed(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

__attribute__((constructor)) static void start(void) {
    const char *e = getenv("SIM_FD");
    if (!e) return;
    void *p = mmap(0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(e), 0);
    if (p == MAP_FAILED) _exit(99);
    S = p;
    if (S->magic != 0x51a0f5) _exit(98);
    const char *g = getenv("SIM_GATE");
    if (g && sscanf(g, "%d %d", &gate_ask, &gate_go) != 2) _exit(97);
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) cwd[0] = 0;
    struct rlimit l = {20, 22};
    setrlimit(RLIMIT_CPU, &l);
    alarm(60);
}

/* The path below the root, or NULL if it is elsewhere. "." components and "//" are removed. */
static const char *rel(int dirfd, const char *path) {
    static char out[2][PATH_MAX];
    static int turn;
    if (!S || !path) return 0;
    char full[PATH_MAX * 2];
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else if (dirfd == AT_FDCWD) snprintf(full, sizeof full, "%s/%s", cwd, path);
    else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd][0]) {
        const char *b = fdpath[dirfd];
        snprintf(full, sizeof full, "%s/%s/%s", S->root, b, path);
    } else return 0;
    char *o = out[turn ^= 1];
    size_t n = 0;
    for (char *c = full; *c;) {
        while (*c == '/') c++;
        char *d = c;
        while (*d && *d != '/') d++;
        size_t l = (size_t)(d - c);
        if (l == 0) break;
        if (l == 1 && c[0] == '.') { c = d; continue; }
        if (l == 2 && c[0] == '.' && c[1] == '.') {
            while (n > 0 && o[n - 1] != '/') n--;
            if (n > 0) n--;
            c = d;
            continue;
        }
        if (n + l + 2 >= PATH_MAX) return 0;
        o[n++] = '/';
        memcpy(o + n, c, l);
        n += l;
        c = d;
    }
    o[n] = 0;
    size_t rl = strlen(S->root);
    if (strncmp(o, S->root, rl) != 0) return 0;
    if (o[rl] == 0) return ".";
    if (o[rl] != '/') return 0;
    return o + rl + 1;
}

static void die(void) {
    /* the machine stops: the tool and everything it started (they share a process group) */
    syscall(SYS_kill, 0, SIGKILL);
    for (;;) pause();
}

static struct entry *note(int kind, const char *path) {
    static struct entry sink;
    struct entry *e = S->nlog < MAXLOG ? &S->log[S->nlog++] : &sink;
    e->kind = (uint8_t)kind;
    e->action = 0;
    e->err = 0;
    e->ret = 0;
    snprintf(e->path, sizeof e->path, "%s", path);
    return e;
}

/* Numbers the operation and applies the plan. Returns the entry; *hit is the rule to carry out, and if
 * errno must be set for an immediate failure, entry->err is it. */
static struct entry *step(int kind, const char *path, struct rule **hit) {
    if (gate_ask >= 0) {
        /* other tools run at the same time: the simulator says who is next */
        char c = 1;
        if (syscall(SYS_write, gate_ask, &c, 1) != 1 || syscall(SYS_read, gate_go, &c, 1) != 1) _exit(96);
    }
    uint32_t op = S->nops++;
    struct entry *e = note(kind, path);
    *hit = 0;
    for (uint32_t i = 0; i < S->nrules && i < 16; i++) {
        struct rule *r = &S->rules[i];
        if (r->op != op) continue;
        e->action = (uint8_t)r->action;
        if (r->action == A_KILL_BEFORE) die();
        if (r->action == A_FULL) { S->full_on = 1; S->full = r->param; }
        else if (r->action == A_BAD_PATH) {
            snprintf(S->bad, sizeof S->bad, "%s", path);
            S->bad_err = r->err;
        } else if (r->action == A_ERR) { e->err = (int16_t)r->err; *hit = r; }
        else *hit = r;
    }
    if (!e->err && S->bad[0] && kind != K_CLOSE && strcmp(S->bad, path) == 0) {
        e->action = A_BAD_PATH;
        e->err = (int16_t)S->bad_err;
    }
    return e;
}

/* For calls that either happen or fail. */
#define PLAIN(kind, path, call)                                            \
    do {                                                                   \
        struct rule *hit_;                                                 \
        struct entry *e_ = step(kind, path, &hit_);                        \
        if (e_->err) { e_->ret = -1; errno = e_->err; return -1; }         \
        long r_ = (call);                                                  \
        e_->ret = r_ < 0 ? -1 : 0;                                         \
        if (r_ < 0) e_->err = (int16_t)errno;                              \
        int keep_ = errno;                                                 \
        if (hit_ && hit_->action == A_KILL_AFTER) die();                   \
        errno = keep_;                                                     \
        return (int)r_;                                                    \
    } while (0)

static int outside(const char *what, const char *path) {
    if (path && (strcmp(path, "/dev/null") == 0 || strcmp(path, "/dev/tty") == 0)) return 0;
    S->escapes++;
    char b[240];
    snprintf(b, sizeof b, "ESCAPE %s %s", what, path ? path : "?");
    note(K_OPEN_W, b)->err = EACCES;
    return 1;
}

static int full_create(struct entry *e) {
    if (S->full_on && S->full == 0) {
        e->err = ENOSPC;
        e->action = A_FULL;
        return 1;
    }
    return 0;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!S) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    const char *p = rel(dirfd, path);
    int writing = (flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC);
    if (!p) {
        if (writing && outside("open", path)) { errno = EACCES; return -1; }
        return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    }
    struct rule *hit;
    char keep[512];
    snprintf(keep, sizeof keep, "%s", p);
    struct entry *e = step(writing ? K_OPEN_W : K_OPEN_R, keep, &hit);
    if (!e->err && flags & O_CREAT && syscall(SYS_faccessat, dirfd, path, F_OK) != 0) full_create(e);
    if (e->err) { e->ret = -1; errno = e->err; return -1; }
    long r = syscall(SYS_openat, dirfd, path, flags, mode);
    if (r < 0) { e->ret = -1; e->err = (int16_t)errno; }
    else if (r < MAXFD) memcpy(fdpath[r], keep, sizeof keep);
    if (r >= 0) e->ret = flags & O_TRUNC ? 1 : 0;
    int k = errno;
    if (hit && hit->action == A_KILL_AFTER) die();
    errno = k;
    return (int)r;
}

#define MODE(flags) mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static const char *ours(int fd) { return S && fd >= 0 && fd < MAXFD && fdpath[fd][0] ? fdpath[fd] : 0; }

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int positioned) {
    const char *p = ours(fd);
    if (!p) return positioned ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
    struct rule *hit;
    struct entry *e = step(K_READ, p, &hit);
    if (e->err) { e->ret = -1; errno = e->err; return -1; }
    if (hit && hit->action == A_SHORT && n > 1) n = hit->param < n ? (hit->param ? hit->param : 1) : n;
    ssize_t r = positioned ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
    e->ret = (int32_t)r;
    if (r < 0) e->err = (int16_t)errno;
    if (hit && hit->action == A_KILL_AFTER) die();
    return r;
}

ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, 0, 0); }
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return do_read(fd, buf, n, o, 1); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { return do_read(fd, buf, n, o, 1); }

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int positioned) {
    const char *p = ours(fd);
    if (!p) return positioned ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
    struct rule *hit;
    struct entry *e = step(K_WRITE, p, &hit);
    if (e->err) { e->ret = -1; errno = e->err; return -1; }
    int kill = hit && hit->action == A_KILL_PARTIAL;
    if (hit && (hit->action == A_SHORT || kill)) n = hit->param < n ? hit->param : n;
    if (hit && hit->action == A_SHORT && n == 0) n = 1;
    if (S->full_on) {
        if (n > 0 && S->full == 0) { e->ret = -1; e->err = ENOSPC; e->action = A_FULL; errno = ENOSPC; return -1; }
        if (n > S->full) n = S->full;
        S->full -= (uint32_t)n;
    }
    ssize_t r = 0;
    if (n || !kill) r = positioned ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
    e->ret = (int32_t)r;
    if (r < 0) e->err = (int16_t)errno;
    if (kill || (hit && hit->action == A_KILL_AFTER)) die();
    return r;
}

ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, 0, 0); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return do_write(fd, buf, n, o, 1); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return do_write(fd, buf, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!ours(fd)) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!ours(fd)) return syscall(SYS_readv, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
/* no in-kernel copies: the caller falls back to read and write */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    if (ours(a) || ours(c)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, a, b, c, d, n, f);
}
ssize_t sendfile(int o, int i, off_t *f, size_t n) {
    if (ours(o) || ours(i)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, o, i, f, n);
}
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { return sendfile(o, i, (off_t *)f, n); }

int close(int fd) {
    const char *p = ours(fd);
    if (!p) return (int)syscall(SYS_close, fd);
    struct rule *hit;
    struct entry *e = step(K_CLOSE, p, &hit);
    e->err = 0;
    fdpath[fd][0] = 0;
    long r = syscall(SYS_close, fd);
    if (hit && hit->action == A_KILL_AFTER) die();
    return (int)r;
}

int fsync(int fd) { const char *p = ours(fd); if (!p) return (int)syscall(SYS_fsync, fd); PLAIN(K_FSYNC, p, 0L); }
int fdatasync(int fd) { const char *p = ours(fd); if (!p) return (int)syscall(SYS_fdatasync, fd); PLAIN(K_FSYNC, p, 0L); }
static int trunc_fd(int fd, off_t n) { const char *p = ours(fd); if (!p) return (int)syscall(SYS_ftruncate, fd, n); PLAIN(K_TRUNC, p, syscall(SYS_ftruncate, fd, n)); }
int ftruncate(int fd, off_t n) { return trunc_fd(fd, n); }
int ftruncate64(int fd, off64_t n) { return trunc_fd(fd, n); }
int fallocate(int fd, int m, off_t o, off_t l) { if (!ours(fd)) return (int)syscall(SYS_fallocate, fd, m, o, l); errno = EOPNOTSUPP; return -1; }

#define SCOPED(kind, dirfd, path, what, call)                                                   \
    if (!S) return (int)(call);                                                                  \
    const char *q_ = rel(dirfd, path);                                                           \
    if (!q_) { if (outside(what, path)) { errno = EACCES; return -1; } return (int)(call); }     \
    char p_[512]; snprintf(p_, sizeof p_, "%s", q_);                                             \
    PLAIN(kind, p_, call)

int truncate(const char *p, off_t n) { SCOPED(K_TRUNC, AT_FDCWD, p, "truncate", syscall(SYS_truncate, p, n)); }
int unlink(const char *p) { SCOPED(K_UNLINK, AT_FDCWD, p, "unlink", syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { SCOPED(f & AT_REMOVEDIR ? K_RMDIR : K_UNLINK, d, p, "unlinkat", syscall(SYS_unlinkat, d, p, f)); }
int rmdir(const char *p) { SCOPED(K_RMDIR, AT_FDCWD, p, "rmdir", syscall(SYS_rmdir, p)); }
int chmod(const char *p, mode_t m) { SCOPED(K_CHMOD, AT_FDCWD, p, "chmod", syscall(SYS_chmod, p, m)); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; SCOPED(K_CHMOD, d, p, "fchmodat", syscall(SYS_fchmodat, d, p, m)); }
int fchmod(int fd, mode_t m) { const char *p = ours(fd); if (!p) return (int)syscall(SYS_fchmod, fd, m); PLAIN(K_CHMOD, p, syscall(SYS_fchmod, fd, m)); }
int fchown(int fd, uid_t u, gid_t g) { const char *p = ours(fd); if (!p) return (int)syscall(SYS_fchown, fd, u, g); PLAIN(K_CHMOD, p, syscall(SYS_fchown, fd, u, g)); }
int symlink(const char *t, const char *p) { SCOPED(K_LINK, AT_FDCWD, p, "symlink", syscall(SYS_symlink, t, p)); }

static int make_dir(int d, const char *path, mode_t m) {
    if (!S) return (int)syscall(SYS_mkdirat, d, path, m);
    const char *q = rel(d, path);
    if (!q) {
        if (syscall(SYS_faccessat, d, path, F_OK) == 0) { errno = EEXIST; return -1; }
        outside("mkdir", path);
        errno = EACCES;
        return -1;
    }
    char p[512];
    snprintf(p, sizeof p, "%s", q);
    struct rule *hit;
    struct entry *e = step(K_MKDIR, p, &hit);
    if (!e->err && syscall(SYS_faccessat, d, path, F_OK) != 0) full_create(e);
    if (e->err) { e->ret = -1; errno = e->err; return -1; }
    long r = syscall(SYS_mkdirat, d, path, m);
    if (r < 0) { e->ret = -1; e->err = (int16_t)errno; }
    int k = errno;
    if (hit && hit->action == A_KILL_AFTER) die();
    errno = k;
    return (int)r;
}
int mkdir(const char *p, mode_t m) { return make_dir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return make_dir(d, p, m); }

static int two(int kind, const char *what, int d1, const char *a, int d2, const char *b, long nr, unsigned flags) {
    long call_nr = nr;
    if (!S) return (int)syscall(call_nr, d1, a, d2, b, flags);
    const char *pa = rel(d1, a);
    char keep[600];
    snprintf(keep, sizeof keep, "%s", pa ? pa : "?");
    const char *pb = rel(d2, b);
    if (!pa || !pb) {
        outside(what, pa ? b : a);
        errno = EACCES;
        return -1;
    }
    char p[1200];
    snprintf(p, sizeof p, "%s -> %s", keep, pb);
    PLAIN(kind, p, syscall(call_nr, d1, a, d2, b, flags));
}
int rename(const char *a, const char *b) { return two(K_RENAME, "rename", AT_FDCWD, a, AT_FDCWD, b, SYS_renameat2, 0); }
int renameat(int d, const char *a, int e, const char *b) { return two(K_RENAME, "rename", d, a, e, b, SYS_renameat2, 0); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return two(K_RENAME, "rename", d, a, e, b, SYS_renameat2, f); }
int link(const char *a, const char *b) { return two(K_LINK, "link", AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, 0); }
int linkat(int d, const char *a, int e, const char *b, int f) { return two(K_LINK, "link", d, a, e, b, SYS_linkat, (unsigned)f); }

/* Looking only: outside the root it goes through. */
#define LOOK(kind, dirfd, path, call)                      \
    if (!S) return (int)(call);                             \
    const char *q_ = rel(dirfd, path);                      \
    if (!q_) return (int)(call);                            \
    char p_[512]; snprintf(p_, sizeof p_, "%s", q_);        \
    PLAIN(kind, p_, call)

int stat64(const char *p, struct stat64 *b) { LOOK(K_STAT, AT_FDCWD, p, syscall(SYS_stat, p, b)); }
int stat(const char *p, struct stat *b) { LOOK(K_STAT, AT_FDCWD, p, syscall(SYS_stat, p, b)); }
int lstat64(const char *p, struct stat64 *b) { LOOK(K_STAT, AT_FDCWD, p, syscall(SYS_lstat, p, b)); }
int lstat(const char *p, struct stat *b) { LOOK(K_STAT, AT_FDCWD, p, syscall(SYS_lstat, p, b)); }
static int at_stat(int d, const char *p, void *b, int f) {
    if (!*p) { const char *o = ours(d); if (!o) return (int)syscall(SYS_newfstatat, d, p, b, f); PLAIN(K_STAT, o, syscall(SYS_newfstatat, d, p, b, f)); }
    LOOK(K_STAT, d, p, syscall(SYS_newfstatat, d, p, b, f));
}
int fstatat64(int d, const char *p, struct stat64 *b, int f) { return at_stat(d, p, b, f); }
int fstatat(int d, const char *p, struct stat *b, int f) { return at_stat(d, p, b, f); }
static int fd_stat(int fd, void *b) { const char *o = ours(fd); if (!o) return (int)syscall(SYS_fstat, fd, b); PLAIN(K_STAT, o, syscall(SYS_fstat, fd, b)); }
int fstat64(int fd, struct stat64 *b) { return fd_stat(fd, b); }
int fstat(int fd, struct stat *b) { return fd_stat(fd, b); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) {
    const char *volatile v = p; /* may be null whatever the declaration says */
    if (!v) return (int)syscall(SYS_statx, d, v, f, m, b);
    if (!*p) { const char *o = ours(d); if (!o) return (int)syscall(SYS_statx, d, p, f, m, b); PLAIN(K_STAT, o, syscall(SYS_statx, d, p, f, m, b)); }
    LOOK(K_STAT, d, p, syscall(SYS_statx, d, p, f, m, b));
}
int access(const char *p, int m) { LOOK(K_STAT, AT_FDCWD, p, syscall(SYS_access, p, m)); }
int faccessat(int d, const char *p, int m, int f) { (void)f; LOOK(K_STAT, d, p, syscall(SYS_faccessat, d, p, m)); }
ssize_t readlink(const char *p, char *b, size_t n) {
    if (!S) return syscall(SYS_readlink, p, b, n);
    const char *q = rel(AT_FDCWD, p);
    if (!q) return syscall(SYS_readlink, p, b, n);
    struct rule *hit;
    struct entry *e = step(K_READLINK, q, &hit);
    if (e->err) { e->ret = -1; errno = e->err; return -1; }
    ssize_t r = syscall(SYS_readlink, p, b, n);
    e->ret = (int32_t)r;
    if (r < 0) e->err = (int16_t)errno;
    if (hit && hit->action == A_KILL_AFTER) die();
    return r;
}
char *realpath(const char *p, char *o) {
    static char *(*real)(const char *, char *);
    if (!real) *(void **)&real = dlsym(RTLD_NEXT, "realpath");
    const char *q = S ? rel(AT_FDCWD, p) : 0;
    if (!q) return real(p, o);
    struct rule *hit;
    struct entry *e = step(K_READLINK, q, &hit);
    if (e->err) { e->ret = -1; errno = e->err; return 0; }
    char *r = real(p, o);
    if (!r) { e->ret = -1; e->err = (int16_t)errno; }
    if (hit && hit->action == A_KILL_AFTER) die();
    return r;
}
char *getcwd(char *b, size_t n) {
    if (S) {
        struct rule *hit;
        struct entry *e = step(K_GETCWD, ".", &hit);
        if (e->err) { e->ret = -1; errno = e->err; return 0; }
        if (hit && hit->action == A_KILL_AFTER) die();
    }
    if (!b) { b = malloc(n ? n : PATH_MAX); if (!n) n = PATH_MAX; }
    return syscall(SYS_getcwd, b, n) < 0 ? 0 : b;
}

/* Directories: read at once, put into an order decided by the seed. */
struct dir { DIR *d; char path[512]; struct dirent64 *all; size_t n, at; };
#define MAXDIR 64
static struct dir dirs[MAXDIR];
static DIR *(*real_opendir)(const char *);
static DIR *(*real_fdopendir)(int);
static struct dirent64 *(*real_readdir)(DIR *);
static int (*real_closedir)(DIR *);

static void dir_calls(void) {
    if (real_opendir) return;
    *(void **)&real_opendir = dlsym(RTLD_NEXT, "opendir");
    *(void **)&real_fdopendir = dlsym(RTLD_NEXT, "fdopendir");
    *(void **)&real_readdir = dlsym(RTLD_NEXT, "readdir64");
    *(void **)&real_closedir = dlsym(RTLD_NEXT, "closedir");
}

static int by_name(const void *a, const void *b) {
    return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}

static DIR *adopt(DIR *d, const char *path) {
    for (int i = 0; i < MAXDIR; i++) {
        struct dir *x = &dirs[i];
        if (x->d) continue;
        x->d = d;
        snprintf(x->path, sizeof x->path, "%s", path);
        x->n = x->at = 0;
        size_t cap = 16;
        x->all = malloc(cap * sizeof *x->all);
        for (struct dirent64 *e; (e = real_readdir(d));) {
            if (x->n == cap) x->all = realloc(x->all, (cap *= 2) * sizeof *x->all);
            memset(&x->all[x->n], 0, sizeof *x->all);
            x->all[x->n].d_ino = e->d_ino;
            x->all[x->n].d_reclen = sizeof *x->all;
            x->all[x->n].d_type = S->dt_unknown ? DT_UNKNOWN : e->d_type;
            snprintf(x->all[x->n].d_name, sizeof e->d_name, "%s", e->d_name);
            x->n++;
        }
        qsort(x->all, x->n, sizeof *x->all, by_name);
        uint64_t s = S->seed;
        for (const char *c = path; *c; c++) s = mixed(s ^ (uint8_t)*c);
        for (size_t k = x->n; k > 1; k--) {
            s = mixed(s);
            size_t j = s % k;
            struct dirent64 t = x->all[k - 1];
            x->all[k - 1] = x->all[j];
            x->all[j] = t;
        }
        break;
    }
    return d;
}

DIR *opendir(const char *path) {
    dir_calls();
    const char *q = S ? rel(AT_FDCWD, path) : 0;
    if (!q) return real_opendir(path);
    char p[512];
    snprintf(p, sizeof p, "%s", q);
    struct rule *hit;
    struct entry *e = step(K_OPENDIR, p, &hit);
    if (e->err) { e->ret = -1; errno = e->err; return 0; }
    DIR *d = real_opendir(path);
    if (!d) { e->ret = -1; e->err = (int16_t)errno; return 0; }
    if (hit && hit->action == A_KILL_AFTER) die();
    return adopt(d, p);
}
DIR *fdopendir(int fd) {
    dir_calls();
    const char *p = ours(fd);
    if (!p) return real_fdopendir(fd);
    char keep[512];
    snprintf(keep, sizeof keep, "%s", p);
    DIR *d = real_fdopendir(fd);
    return d ? adopt(d, keep) : d;
}
static struct dir *find(DIR *d) {
    for (int i = 0; i < MAXDIR; i++) if (dirs[i].d == d) return &dirs[i];
    return 0;
}
struct dirent64 *readdir64(DIR *d) {
    dir_calls();
    struct dir *x = S ? find(d) : 0;
    if (!x) return real_readdir(d);
    struct rule *hit;
    struct entry *e = step(K_READDIR, x->path, &hit);
    if (e->err) { e->ret = -1; errno = e->err; return 0; }
    if (hit && hit->action == A_KILL_AFTER) die();
    if (x->at == x->n) return 0;
    e->ret = 1;
    return &x->all[x->at++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    dir_calls();
    struct dir *x = S ? find(d) : 0;
    if (x) {
        int fd = dirfd(d);
        if (fd >= 0 && fd < MAXFD) fdpath[fd][0] = 0;
        free(x->all);
        x->d = 0;
    }
    return real_closedir(d);
}

/* Other nondeterminism. */
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!S) return syscall(SYS_getrandom, b, n, f);
    uint8_t *o = b;
    for (size_t i = 0; i < n; i++) o[i] = (uint8_t)mixed(S->seed ^ 0x5eedull ^ ((uint64_t)S->draws++ << 20));
    return (ssize_t)n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!S) return (int)syscall(SYS_clock_gettime, c, t);
    uint32_t k = S->ticks++;
    uint64_t base = c == CLOCK_REALTIME ? 1000000000ull + mixed(S->seed ^ 77) % 2000000000ull : 1000;
    t->tv_sec = (time_t)(base + k / 1000);
    t->tv_nsec = (long)(k % 1000) * 1000000;
    return 0;
}
pid_t getpid(void) { return S ? (pid_t)(2 + mixed(S->seed ^ 0x91d) % 10000 * 3 + S->lane) : (pid_t)syscall(SYS_getpid); }
