/*
 * File seam.  Every file-system operation on a path below `root` is a numbered
 * step at which the simulator may fail it, shorten it, kill the process, or
 * (lock-step mode) let another simulated process run first.
 */
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static char root[1024]; static size_t rootlen;
static int sync_in = -1, sync_out = -1;
static long nops, nfired;
static long quota = -1, written;
static int bufsize = 4096, read_chunk;
static rng_t R;
static unsigned long fired[32];
static unsigned long kinds_seen[16];

enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_MKDIR, K_STAT, K_RENAME, K_UNLINK, K_SYNC, K_TRUNC };
static const char *kname[] = { "open", "read", "write", "close", "mkdir", "stat", "rename", "unlink", "sync", "trunc" };
enum { X_NONE, X_EIO, X_ENOSPC, X_EACCES, X_EMFILE, X_SHORT, X_TORN, X_CRASH, X_CRASHAFTER, X_EINTR, X_ENOENT, X_EEXIST, X_QUOTA, X_EROFS, X_EDQUOT };
static const char *xname[] = { "none", "eio", "enospc", "eacces", "emfile", "short", "torn", "crash", "crashafter", "eintr", "enoent", "eexist", "quota", "erofs", "edquot" };
static const int xerr[] = { 0, EIO, ENOSPC, EACCES, EMFILE, 0, 0, 0, 0, EINTR, ENOENT, EEXIST, ENOSPC, EROFS, EDQUOT };

typedef struct { long op; int kind; int sticky; } flt_t;
static flt_t flt[64]; static int nflt;

typedef struct { int kind; long bytes; int x; char path[96]; } op_t;
#define MAXLOG 3000
static op_t *log_; static int nlog, logging;

#define MAXFD 1024
static struct { char used; char path[200]; } fdt[MAXFD];
typedef struct { FILE *f; int fd; } st_t;
static st_t streams[256];

#define NEXT(name) static __typeof__(&name) real; if (unlikely(!real)) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int in_root(const char *p){
    if (!rootlen || !p) return 0;
    char b[4096];
    if (p[0] != '/'){
        if (syscall(SYS_getcwd, b, sizeof b) <= 0) return 0;
        size_t l = strlen(b);
        snprintf(b + l, sizeof b - l, "/%s", p);
        p = b;
    }
    return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || p[rootlen] == 0);
}

static void crash(const char *how){
    sim_ev(0xDEAD);
    (void)how;
    sim_flush_stats();
    syscall(SYS_exit_group, 137);
}

/* one step; returns the fault to apply (X_NONE: none) */
static int step_(int kind, const char *path, long bytes){
    nops++;
    sim_clock_io(nops);
    kinds_seen[kind]++;
    if (sync_out >= 0){
        char b[400];
        int n = snprintf(b, sizeof b, "%s %ld %s\n", kname[kind], bytes, path);
        sim_raw_write(sync_out, b, (size_t)n);
        char c;
        if (syscall(SYS_read, sync_in, &c, 1) != 1) syscall(SYS_exit_group, 98);
    }
    int x = X_NONE;
    for (int i = 0; i < nflt; ++i)
        if (flt[i].op == nops || (flt[i].sticky && nops > flt[i].op && kind != K_CLOSE && kind != K_STAT)) x = flt[i].kind;
    if (x == X_NONE && kind == K_WRITE && quota >= 0 && written + bytes > quota) x = X_QUOTA;
    if ((x == X_SHORT || x == X_TORN) && kind != K_WRITE && kind != K_READ) x = x == X_TORN ? X_CRASH : X_NONE;
    if (x != X_NONE){ nfired++; fired[x]++; }
    sim_ev(((uint64_t)kind << 32) ^ (uint64_t)bytes ^ ((uint64_t)x << 48));
    if (logging && log_ && nlog < MAXLOG){
        op_t *o = &log_[nlog++];
        o->kind = kind; o->bytes = bytes; o->x = x;
        const char *q = path;
        if (rootlen && !strncmp(path, root, rootlen)) q = path + rootlen;
        snprintf(o->path, sizeof o->path, "%.90s", q);
        for (char *c = o->path; *c; ++c) if (*c == '"' || *c == '\\' || *c < 32) *c = '?';
    }
    if (x == X_CRASH) crash("before");
    return x;
}
static void after(int x){ if (x == X_CRASHAFTER || x == X_TORN) crash("after"); }

/* ------------------------------------------------------------------ fd level */
static int do_open(const char *path, int flags, mode_t mode){
    int x = step_(K_OPEN, path, flags & (O_WRONLY | O_RDWR | O_TRUNC | O_APPEND | O_CREAT));
    if (xerr[x] && x != X_QUOTA){ errno = xerr[x]; return -1; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (fd >= 0 && fd < MAXFD){ fdt[fd].used = 1; snprintf(fdt[fd].path, sizeof fdt[fd].path, "%.199s", path); }
    if (x == X_CRASHAFTER) after(x);
    return fd;
}
static long do_write(int fd, const void *p, size_t n){
    int x = step_(K_WRITE, fdt[fd].path, (long)n);
    if (x == X_QUOTA){
        long room = quota - written;
        if (room > 0){ long r = syscall(SYS_write, fd, p, (size_t)room); if (r > 0) written += r; return r; }
        errno = ENOSPC; return -1;
    }
    if (xerr[x]){ errno = xerr[x]; return -1; }
    size_t m = n;
    if (x == X_SHORT || x == X_TORN) m = n > 1 ? 1 + rng_below(&R, n - 1) : n;
    long r = syscall(SYS_write, fd, p, m);
    if (r > 0) written += r;
    after(x);
    return r;
}
static long do_read(int fd, void *p, size_t n){
    int x = step_(K_READ, fdt[fd].path, (long)n);
    if (xerr[x]){ errno = xerr[x]; return -1; }
    size_t m = n;
    if (x == X_SHORT || x == X_TORN) m = n > 1 ? 1 + rng_below(&R, n > 64 ? 64 : n - 1) : n;
    if (read_chunk && m > (size_t)read_chunk) m = (size_t)read_chunk;
    long r = syscall(SYS_read, fd, p, m);
    after(x);
    return r;
}
static int do_close(int fd){
    int x = step_(K_CLOSE, fdt[fd].path, 0);
    fdt[fd].used = 0;
    int r = (int)syscall(SYS_close, fd);
    if (xerr[x] && x != X_QUOTA){ errno = xerr[x]; return -1; }
    after(x);
    return r;
}
static int simfd(int fd){ return fd >= 0 && fd < MAXFD && fdt[fd].used; }

#define OPENV(name) \
    EXPORT int name(const char *p, int fl, ...); \
    EXPORT int name(const char *p, int fl, ...){ \
        mode_t m = 0; \
        if (fl & (O_CREAT | __O_TMPFILE)){ va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
        if (rootlen && in_root(p)) return do_open(p, fl, m); \
        return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m) < 0 ? -1 : last_fd; }
/* syscall() sets errno itself */
#undef OPENV
static int plain_open(int dir, const char *p, int fl, mode_t m){ return (int)syscall(SYS_openat, dir, p, fl, m); }
#define OPENV(name) \
    EXPORT int name(const char *p, int fl, ...); \
    EXPORT int name(const char *p, int fl, ...){ \
        mode_t m = 0; \
        if (fl & (O_CREAT | __O_TMPFILE)){ va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
        if (rootlen && in_root(p)) return do_open(p, fl, m); \
        return plain_open(AT_FDCWD, p, fl, m); }
OPENV(open) OPENV(open64)
#define OPENAT(name) \
    EXPORT int name(int d, const char *p, int fl, ...); \
    EXPORT int name(int d, const char *p, int fl, ...){ \
        mode_t m = 0; \
        if (fl & (O_CREAT | __O_TMPFILE)){ va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
        if (rootlen && (d == AT_FDCWD || p[0] == '/') && in_root(p)) return do_open(p, fl, m); \
        return plain_open(d, p, fl, m); }
OPENAT(openat) OPENAT(openat64)
EXPORT int creat(const char *p, mode_t m){ return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT ssize_t write(int fd, const void *p, size_t n){ return simfd(fd) ? do_write(fd, p, n) : syscall(SYS_write, fd, p, n); }
EXPORT ssize_t read(int fd, void *p, size_t n){ return simfd(fd) ? do_read(fd, p, n) : syscall(SYS_read, fd, p, n); }
EXPORT int close(int fd){ return simfd(fd) ? do_close(fd) : (int)syscall(SYS_close, fd); }
#define PATHOP(kind, path) \
    int x = step_(kind, path, 0); \
    if (xerr[x] && x != X_QUOTA){ errno = xerr[x]; return -1; }
EXPORT int mkdir(const char *p, mode_t m){
    if (!rootlen || !in_root(p)) return (int)syscall(SYS_mkdir, p, m);
    PATHOP(K_MKDIR, p)
    int r = (int)syscall(SYS_mkdir, p, m);
    int e = errno; after(x); errno = e;
    return r;
}
EXPORT int mkdirat(int d, const char *p, mode_t m){
    if (d == AT_FDCWD) return mkdir(p, m);
    return (int)syscall(SYS_mkdirat, d, p, m);
}
EXPORT int rename(const char *a, const char *b){
    if (!rootlen || !(in_root(a) || in_root(b))) return (int)syscall(SYS_rename, a, b);
    PATHOP(K_RENAME, b)
    int r = (int)syscall(SYS_rename, a, b);
    int e = errno; after(x); errno = e;
    return r;
}
EXPORT int unlink(const char *a){
    if (!rootlen || !in_root(a)) return (int)syscall(SYS_unlink, a);
    PATHOP(K_UNLINK, a)
    int r = (int)syscall(SYS_unlink, a);
    int e = errno; after(x); errno = e;
    return r;
}
EXPORT int remove(const char *a){
    struct stat s;
    if (syscall(SYS_lstat, a, &s) == 0 && S_ISDIR(s.st_mode)) return (int)syscall(SYS_rmdir, a);
    return unlink(a);
}
EXPORT int fsync(int fd){
    if (!simfd(fd)) return (int)syscall(SYS_fsync, fd);
    PATHOP(K_SYNC, fdt[fd].path)
    after(x);
    return 0;
}
EXPORT int fdatasync(int fd){ return fsync(fd); }
/* looking at a path is a step (another process may act between look and use) but never fails by itself */
EXPORT int stat(const char *p, struct stat *b){ NEXT(stat); if (rootlen && in_root(p)){ int x = step_(K_STAT, p, 0); after(x); } return real(p, b); }
EXPORT int access(const char *p, int m){ NEXT(access); if (rootlen && in_root(p)){ int x = step_(K_STAT, p, 0); after(x); } return real(p, m); }

/* --------------------------------------------------------------- stream level */
typedef struct { int fd, append; } ck_t;
static ck_t cks[256];
static ssize_t ck_read(void *c, char *b, size_t n){ return do_read(((ck_t *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n){
    size_t done = 0;
    while (done < n){
        long r = do_write(((ck_t *)c)->fd, b + done, n - done);
        if (r < 0) return (ssize_t)0;
        done += (size_t)r;
    }
    return (ssize_t)n;
}
static int ck_seek(void *c, off64_t *o, int w){
    off_t r = lseek(((ck_t *)c)->fd, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c){
    int fd = ((ck_t *)c)->fd;
    for (int i = 0; i < 256; ++i) if (streams[i].f && streams[i].fd == fd) streams[i].f = 0;
    ((ck_t *)c)->fd = -1;
    return do_close(fd);
}
static FILE *wrap(int fd, const char *mode){
    int k = 0;
    while (k < 255 && cks[k].fd > 0) ++k;
    cks[k].fd = fd;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *f = fopencookie(&cks[k], mode, io);
    if (!f) return 0;
    for (int i = 0; i < 256; ++i) if (!streams[i].f){ streams[i].f = f; streams[i].fd = fd; break; }
    if (bufsize > 1) setvbuf(f, 0, _IOFBF, (size_t)bufsize);
    else setvbuf(f, 0, _IONBF, 0);
    return f;
}
static int mflags(const char *m){
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    for (const char *c = m + 1; *c && *c != ','; ++c){
        if (*c == '+') fl = (fl & ~O_ACCMODE) | O_RDWR;
        if (*c == 'x') fl |= O_EXCL;
        if (*c == 'e') fl |= O_CLOEXEC;
    }
    return fl;
}
static FILE *open_stream(const char *p, const char *m){
    int fd = do_open(p, mflags(m), 0666);
    if (fd < 0) return 0;
    return wrap(fd, m);
}
EXPORT FILE *fopen(const char *p, const char *m){ NEXT(fopen); if (rootlen && in_root(p)) return open_stream(p, m); return real(p, m); }
EXPORT FILE *fopen64(const char *p, const char *m){ NEXT(fopen64); if (rootlen && in_root(p)) return open_stream(p, m); return real(p, m); }
EXPORT FILE *fdopen(int fd, const char *m){ NEXT(fdopen); if (simfd(fd)) return wrap(fd, m); return real(fd, m); }
EXPORT int fileno(FILE *f){
    NEXT(fileno);
    for (int i = 0; i < 256; ++i) if (streams[i].f == f) return streams[i].fd;
    return real(f);
}

/* -------------------------------------------------------------------- control */
void sim_io_reset(uint64_t s){ R.s = s; nops = nfired = 0; nflt = 0; nlog = 0; quota = -1; written = 0; memset(fired, 0, sizeof fired); memset(kinds_seen, 0, sizeof kinds_seen); }
void sim_io_config(const char *k, const char *v){
    if (!strcmp(k, "root")){ snprintf(root, sizeof root, "%.1000s", v); rootlen = strlen(root); }
    else if (!strcmp(k, "log")){
        logging = atoi(v);
        extern void *__libc_malloc(size_t);
        if (logging && !log_) log_ = __libc_malloc(MAXLOG * sizeof *log_);
    }
    else if (!strcmp(k, "bufsize")) bufsize = atoi(v);
    else if (!strcmp(k, "read_chunk")) read_chunk = atoi(v);
    else if (!strcmp(k, "quota")){ quota = atol(v); written = 0; }
    else if (!strcmp(k, "ops")) { nops = atol(v); nflt = 0; nlog = 0; }
    else if (!strcmp(k, "sync")){ sync_in = atoi(v); const char *c = strchr(v, ','); sync_out = c ? atoi(c + 1) : -1; }
    else if (!strcmp(k, "fault")){
        /* op:kind[:s] separated by commas */
        nflt = 0;
        const char *p = v;
        while (*p && nflt < 64){
            char *e; long o = strtol(p, &e, 10);
            if (*e != ':') break;
            p = e + 1;
            size_t l = strcspn(p, ",:");
            int x = 0;
            for (int i = 0; i < (int)(sizeof xname / sizeof *xname); ++i) if (strlen(xname[i]) == l && !strncmp(p, xname[i], l)) x = i;
            p += l;
            flt[nflt] = (flt_t){ o, x, 0 };
            if (!strncmp(p, ":s", 2)){ flt[nflt].sticky = 1; p += 2; }
            nflt++;
            if (*p == ',') ++p;
        }
    }
    else sim_die("io.%s", k);
}
int sim_io_stats(char *b, size_t n){
    int l = snprintf(b, n, "\"ops\":%ld,\"fired\":%ld,\"written\":%ld,\"faults\":{", nops, nfired, written);
    int c = 0;
    for (int i = 1; i < (int)(sizeof xname / sizeof *xname); ++i) if (fired[i]) l += snprintf(b + l, n - l, "%s\"%s\":%lu", c++ ? "," : "", xname[i], fired[i]);
    l += snprintf(b + l, n - l, "},\"kinds\":{");
    c = 0;
    for (int i = 0; i < (int)(sizeof kname / sizeof *kname); ++i) if (kinds_seen[i]) l += snprintf(b + l, n - l, "%s\"%s\":%lu", c++ ? "," : "", kname[i], kinds_seen[i]);
    l += snprintf(b + l, n - l, "},\"log\":[");
    for (int i = 0; i < nlog && l < (int)n - 400; ++i)
        l += snprintf(b + l, n - l, "%s[\"%s\",%ld,\"%s\",\"%s\"]", i ? "," : "", kname[log_[i].kind], log_[i].bytes, xname[log_[i].x], log_[i].path);
    l += snprintf(b + l, n - l, "]");
    return l;
}
EXPORT long sim_io_ops(void){ return nops; }
EXPORT long sim_io_fired(void){ return nfired; }
