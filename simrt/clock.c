/* Clock seam: while it is on, every clock the process reads is simulated. */
#include "simrt.h"
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int on;
static long long now_ns = 1700000000000000000ll, cpu_ns, step_ns = 1000000, first_ns;
static unsigned long reads, jumps_done;
static struct { unsigned long at; long long d; } jump[32]; static int nj;
static struct { long at; long long d; } jio, jreg;      /* the clock jumps at that file operation, at that parallel region */
static rng_t R;

static long long tick(void){
    reads++;
    now_ns += step_ns;
    cpu_ns += step_ns > 0 ? step_ns / 2 : 0;
    for (int i = 0; i < nj; ++i) if (jump[i].at == reads){ now_ns += jump[i].d; jumps_done++; }
    sim_ev((uint64_t)now_ns);
    return now_ns;
}
EXPORT time_t time(time_t *t){
    struct timespec ts;
    if (!on){ syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
    time_t v = (time_t)(tick() / 1000000000ll);
    if (t) *t = v;
    return v;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts){
    if (!on) return (int)syscall(SYS_clock_gettime, c, ts);
    long long v = tick();
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) v = cpu_ns + 1000000000ll;
    ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll;
    return 0;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz){
    if (!on) return (int)syscall(SYS_gettimeofday, tv, tz);
    long long v = tick();
    tv->tv_sec = v / 1000000000ll; tv->tv_usec = v % 1000000000ll / 1000;
    return 0;
}
EXPORT clock_t clock(void){
    struct timespec ts;
    if (!on){ syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
    tick();
    return (clock_t)(cpu_ns / 1000);
}
void sim_clock_io(long n){ if (on && jio.at == n){ now_ns += jio.d; jumps_done++; jio.at = 0; } }
void sim_clock_region(long n){ if (on && jreg.at == n){ now_ns += jreg.d; jumps_done++; jreg.at = 0; } }
void sim_clock_reset(uint64_t s){ R.s = s; reads = jumps_done = 0; }
void sim_clock_config(const char *k, const char *v){
    if (!strcmp(k, "on")) on = atoi(v);
    else if (!strcmp(k, "start")){ now_ns = first_ns = atoll(v) * 1000000000ll; cpu_ns = 0; }
    else if (!strcmp(k, "step")) step_ns = atoll(v);
    else if (!strcmp(k, "jump_io") || !strcmp(k, "jump_region")){
        char *e; long a = strtol(v, &e, 10);
        long long d = *e == ':' ? strtoll(e + 1, &e, 10) * 1000000000ll : 0;
        if (k[5] == 'i'){ jio.at = a; jio.d = d; } else { jreg.at = a; jreg.d = d; }
    }
    else if (!strcmp(k, "jumps")){
        nj = 0;
        const char *p = v;
        while (*p && nj < 32){
            char *e; jump[nj].at = strtoul(p, &e, 10); if (*e != ':') break;
            jump[nj].d = strtoll(e + 1, &e, 10) * 1000000000ll; nj++;
            p = *e == ',' ? e + 1 : e;
        }
    }
    else sim_die("clk.%s", k);
}
int sim_clock_stats(char *b, size_t n){
    return snprintf(b, n, "\"reads\":%lu,\"jumps\":%lu,\"span_s\":%lld", reads, jumps_done, on ? (now_ns - first_ns) / 1000000000ll : 0);
}
