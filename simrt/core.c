#include "simrt.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

uint64_t sim_hash = 0xcbf29ce484222325ull;
static char viol_buf[16384];
static int viol_len, viol_count;
static char stats_path[1024];

void sim_raw_write(int fd, const void *p, size_t n){
    const char *c = p;
    while (n){
        long r = syscall(SYS_write, fd, c, n);
        if (r <= 0) return;
        c += r; n -= (size_t)r;
    }
}

void sim_die(const char *fmt, ...){
    char b[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim_raw_write(2, "simrt: ", 7);
    sim_raw_write(2, b, (size_t)n);
    sim_raw_write(2, "\n", 1);
    syscall(SYS_exit_group, 97);
    __builtin_unreachable();
}

int sim_snprint_pc(char *buf, size_t n, void *pc){
    Dl_info di;
    if (pc && dladdr(pc, &di) && di.dli_fname){
        const char *base = strrchr(di.dli_fname, '/');
        return snprintf(buf, n, "%s+0x%lx", base ? base + 1 : di.dli_fname,
                        (unsigned long)((char *)pc - (char *)di.dli_fbase));
    }
    return snprintf(buf, n, "?");
}

void sim_violation(const char *kind, const char *fmt, ...){
    char msg[1500];
    va_list ap; va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    for (char *c = msg; *c; ++c) if (*c == '"' || *c == '\\' || *c == '\n') *c = ' ';
    viol_count++;
    /* the same text is reported once */
    if (strstr(viol_buf, msg)) return;
    if (viol_len < (int)sizeof viol_buf - 2000)
        viol_len += snprintf(viol_buf + viol_len, sizeof viol_buf - viol_len,
                             "%s{\"kind\":\"%s\",\"msg\":\"%s\"}", viol_len ? "," : "", kind, msg);
}

EXPORT int sim_violations(char *buf, int n){
    snprintf(buf, n, "[%s]", viol_buf);
    return viol_count;
}
EXPORT void sim_clear_violations(void){ viol_len = viol_count = 0; viol_buf[0] = 0; }

static void set_one(const char *k, const char *v){
    if (!strncmp(k, "omp.", 4)) sim_omp_config(k + 4, v);
    else if (!strncmp(k, "mem.", 4)) sim_mem_config(k + 4, v);
    else if (!strncmp(k, "io.", 3)) sim_io_config(k + 3, v);
    else if (!strncmp(k, "clk.", 4)) sim_clock_config(k + 4, v);
    else if (!strcmp(k, "stats")) snprintf(stats_path, sizeof stats_path, "%s", v);
    else if (!strcmp(k, "seed")){
        uint64_t s = strtoull(v, 0, 10);
        sim_hash = 0xcbf29ce484222325ull;
        sim_omp_reset(rng_mix(s, 1));
        sim_mem_reset(rng_mix(s, 2));
        sim_io_reset(rng_mix(s, 3));
        sim_clock_reset(rng_mix(s, 4));
    }
    else sim_die("unknown setting %s", k);
}

/* "key=value\n..." ; newline-separated so that values may hold anything else */
EXPORT void sim_config(const char *text){
    const char *p = text;
    static char k[128], v[1 << 20];
    while (*p){
        const char *nl = strchrnul(p, '\n');
        const char *eq = memchr(p, '=', (size_t)(nl - p));
        if (eq){
            size_t a = (size_t)(eq - p), b = (size_t)(nl - eq - 1);
            if (a >= sizeof k || b >= sizeof v) sim_die("setting too long");
            memcpy(k, p, a); k[a] = 0;
            memcpy(v, eq + 1, b); v[b] = 0;
            set_one(k, v);
        }
        p = *nl ? nl + 1 : nl;
    }
}

EXPORT int sim_stats(char *buf, int n){
    int l = 0;
    l += snprintf(buf + l, n - l, "{\"hash\":\"%016lx\",\"violations\":[%s],\"nviol\":%d,\"omp\":{",
                  (unsigned long)sim_hash, viol_buf, viol_count);
    l += sim_omp_stats(buf + l, n - l);
    l += snprintf(buf + l, n - l, "},\"mem\":{");
    l += sim_mem_stats(buf + l, n - l);
    l += snprintf(buf + l, n - l, "},\"io\":{");
    l += sim_io_stats(buf + l, n - l);
    l += snprintf(buf + l, n - l, "},\"clk\":{");
    l += sim_clock_stats(buf + l, n - l);
    l += snprintf(buf + l, n - l, "}}");
    return l;
}

void sim_flush_stats(void){
    static char b[1 << 21];
    if (!stats_path[0]) return;
    int n = sim_stats(b, sizeof b);
    int fd = (int)syscall(SYS_openat, AT_FDCWD, stats_path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    sim_raw_write(fd, b, (size_t)n);
    syscall(SYS_close, fd);
}

static char cfg_buf[1 << 21];
__attribute__((constructor)) static void init(void){
    const char *path = getenv("SIM_CONFIG");
    if (!path) return;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0);
    if (fd < 0) sim_die("cannot read %s", path);
    size_t n = 0; long r;
    while (n < sizeof cfg_buf - 1 && (r = syscall(SYS_read, fd, cfg_buf + n, sizeof cfg_buf - 1 - n)) > 0) n += (size_t)r;
    syscall(SYS_close, fd);
    cfg_buf[n] = 0;
    unsetenv("SIM_CONFIG");
    sim_config(cfg_buf);
}
__attribute__((destructor)) static void fini(void){ sim_flush_stats(); }

/* control bits of the floating-point environment (not the sticky flags) */
EXPORT int sim_fenv(void){
    unsigned mx; unsigned short cw;
    __asm__ volatile("stmxcsr %0" : "=m"(mx));
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    return (int)((mx & 0xFFC0u) | ((unsigned)cw << 16));
}
