/*
 * Simulated OpenMP runtime.  Every thread of a parallel region is a fiber of
 * the one real thread; a seeded scheduler decides at every yield point
 * (memory access outside the fiber's own stack, synchronisation operation,
 * allocation, loop-chunk fetch) which fiber runs next.  A happens-before race
 * detector (vector clocks) watches the same events.
 */
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

/* ------------------------------------------------------------------ fibers */
#define STACK_SIZE (4u << 20)
enum { F_READY, F_BLOCKED, F_DONE };
typedef struct ws {
    int used, kind;               /* 1 dynamic-like, 2 static, 3 sections, 4 unsigned long long */
    long start, end, incr, chunk, next;
    unsigned long long ustart, uend, uincr, uchunk, unext;
    int up;
    int left;
} ws_t;
typedef struct {
    void *sp;
    char *stk;
    int state;
    int err;
    const void *wait_on;
    uint32_t vc[SIM_MAXT];
    uint64_t prio;
    unsigned ws_count, single_count;
    ws_t *cur;
    long st_next;                 /* static loops */
    unsigned long runs;
    int nest;                     /* depth of (serialised) nested regions */
    ws_t nws[8];
} fiber_t;

#define NWS 256

static fiber_t F[SIM_MAXT];
static int nf, cur = -1;
static void *sched_sp;
int sim_in_team;
static int region_depth;
static ws_t W[NWS];
static unsigned single_taken;
static void *copy_data;
static void (*region_fn)(void *);
static void *region_data;
static int barrier_waiting;
static uint32_t barrier_vc[SIM_MAXT];

__asm__(
".text\n.globl sim_switch_asm\n.hidden sim_switch_asm\n.type sim_switch_asm,@function\nsim_switch_asm:\n"
"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
"  subq $16,%rsp\n  stmxcsr (%rsp)\n  fnstcw 8(%rsp)\n"
"  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
"  ldmxcsr (%rsp)\n  fldcw 8(%rsp)\n  addq $16,%rsp\n"
"  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
".size sim_switch_asm,.-sim_switch_asm\n");
extern void sim_switch_asm(void **save, void *to);

/* -------------------------------------------------------------- configuration */
enum { P_SERIAL, P_RW, P_PCT, P_BURST };
static int cfg_max_threads = 1;         /* what the program is told */
static int cfg_team;                    /* 0: as requested, k: at most k */
static int cfg_policy = P_SERIAL, cfg_policy_mix = 1;
static int cfg_race = 1;
static int cfg_replay;
static uint64_t seed0;
static rng_t R;

/* recorded / replayed decisions */
typedef struct { uint32_t region, to; uint64_t step; } dec_t;
static dec_t *dec, *rep;
static size_t ndec, capdec, nrep, caprep, rep_pos;
#define MAXDEC 200000

static uint32_t region_no;
static uint64_t step;
static double rw_p;
static uint64_t pct_points[8];
static int pct_n, pct_used;
static int policy;

static struct {
    unsigned long regions, par_regions, steps, preempt, forced, races, maxteam, yields_ext, nested, crit, blocked;
    unsigned long pol[4];
    unsigned long team_hist[SIM_MAXT + 1];
    unsigned long stalls;
} st;
static uint64_t inter_hash;
static uint64_t *seen; static size_t nseen;   /* distinct interleavings (per region kind) */
#define SEEN_CAP 65536

void sim_omp_reset(uint64_t s){
    seed0 = s; R.s = s;
    region_no = 0; ndec = 0; rep_pos = 0;
    memset(&st, 0, sizeof st);
    nseen = 0;
    if (seen) memset(seen, 0, SEEN_CAP * sizeof *seen);
}

static void *sysmap(size_t n){
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) sim_die("mmap failed");
    return p;
}

void sim_omp_config(const char *k, const char *v){
    if (!strcmp(k, "max_threads")) cfg_max_threads = atoi(v);
    else if (!strcmp(k, "team")) cfg_team = atoi(v);
    else if (!strcmp(k, "race")) cfg_race = atoi(v);
    else if (!strcmp(k, "policy")){
        cfg_policy_mix = 0;
        if (!strcmp(v, "serial")) cfg_policy = P_SERIAL;
        else if (!strcmp(v, "rw")) cfg_policy = P_RW;
        else if (!strcmp(v, "pct")) cfg_policy = P_PCT;
        else if (!strcmp(v, "burst")) cfg_policy = P_BURST;
        else if (!strcmp(v, "mix")) cfg_policy_mix = 1;
        else sim_die("policy %s", v);
    }
    else if (!strcmp(k, "replay")){
        /* region:step:to region:step:to ... */
        cfg_replay = 1; nrep = 0; rep_pos = 0;
        const char *p = v;
        while (*p){
            char *e;
            dec_t d;
            d.region = (uint32_t)strtoul(p, &e, 10); if (*e != ':') break; p = e + 1;
            d.step = strtoull(p, &e, 10); if (*e != ':') break; p = e + 1;
            d.to = (uint32_t)strtoul(p, &e, 10); p = e;
            while (*p == ' ') ++p;
            if (nrep == caprep){
                size_t nc = caprep ? caprep * 2 : 4096;
                dec_t *q = sysmap(nc * sizeof *q);
                if (nrep) memcpy(q, rep, nrep * sizeof *q);
                rep = q; caprep = nc;
            }
            rep[nrep++] = d;
        }
    }
    else if (!strcmp(k, "noreplay")){ cfg_replay = 0; nrep = 0; rep_pos = 0; }
    else sim_die("omp.%s", k);
}

EXPORT int sim_omp_trace(char *buf, int n){
    int l = 0;
    buf[0] = 0;
    for (size_t i = 0; i < ndec && l < n - 64; ++i)
        l += snprintf(buf + l, n - l, "%u:%lu:%u ", dec[i].region, (unsigned long)dec[i].step, dec[i].to);
    return (int)ndec;
}

static void record(int to){
    if (ndec >= MAXDEC) return;
    if (ndec == capdec){
        size_t nc = capdec ? capdec * 2 : 4096;
        dec_t *q = sysmap(nc * sizeof *q);
        if (ndec) memcpy(q, dec, ndec * sizeof *q);
        if (dec) munmap(dec, capdec * sizeof *q);
        dec = q; capdec = nc;
    }
    dec[ndec++] = (dec_t){ region_no, (uint32_t)to, step };
}

/* ---------------------------------------------------------------- race detector */
typedef struct {
    uint64_t key;                    /* granule address >> 3 */
    uint32_t gen, pe;
    uint8_t wt, wmask, watomic, rfull;
    uint32_t wclk;
    void *wpc;
    uint32_t rclk[SIM_MAXT];
    uint8_t rmask[SIM_MAXT];
    void *rpc;
} shadow_t;
#define SHBITS 17
#define SHN (1u << SHBITS)
static shadow_t *sh;
static uint32_t gen;
static uint32_t page_epoch[1u << 16];         /* collisions forget, they never invent */
#define PE(key) ((uint32_t)(((key) >> 9) * 2654435761u) >> 16)

typedef struct { const void *key; uint32_t vc[SIM_MAXT]; int owner, depth; uint32_t gen; } lock_t;
#define NLOCK 512
static lock_t locks[NLOCK];

static lock_t *lock_get(const void *key){
    unsigned h = (unsigned)(((uintptr_t)key >> 3) * 2654435761u) % NLOCK;
    for (unsigned i = 0; i < NLOCK; ++i){
        lock_t *l = &locks[(h + i) % NLOCK];
        if (l->gen != gen || !l->key){
            memset(l, 0, sizeof *l);
            l->key = key; l->gen = gen; l->owner = -1;
            return l;
        }
        if (l->key == key) return l;
    }
    sim_die("too many locks");
}

static void vc_join(uint32_t *a, const uint32_t *b){
    for (int i = 0; i < nf; ++i) if (b[i] > a[i]) a[i] = b[i];
}

static NOINLINE void race(const void *addr, int ww, void *pc1, void *pc2, int t1, int t2){
    char a[300], b[300];
    st.races++;
    sim_snprint_pc(a, sizeof a, pc1);
    sim_snprint_pc(b, sizeof b, pc2);
    (void)addr; (void)t1; (void)t2;
    sim_violation("race", "unsynchronised %s at %s and %s", ww ? "write/write" : "read/write", a, b);
}

static inline shadow_t *sh_get(uint64_t key){
    uint32_t h = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> (64 - SHBITS));
    /* two-way; a collision evicts (loses history, never invents any) */
    const uint32_t pe = page_epoch[PE(key)];
    shadow_t *s = &sh[h];
    if (s->gen == gen && s->key == key && s->pe == pe) return s;
    shadow_t *t = &sh[h ^ 1];
    if (t->gen == gen && t->key == key && t->pe == pe) return t;
    if (t->gen == gen && t->key == key) s = t;
    if (s->gen == gen && t->gen != gen) s = t;
    memset(s, 0, sizeof *s);
    s->key = key; s->gen = gen; s->pe = pe; s->wt = 255;
    return s;
}

static inline void hb_one(uint64_t key, uint8_t mask, int wr, int atomic, void *pc){
    shadow_t *s = sh_get(key);
    fiber_t *f = &F[cur];
    if (!wr){
        if (s->rclk[cur] == f->vc[cur] && (s->rmask[cur] & mask) == mask) return;
        if (s->wt != 255 && s->wt != cur && (s->wmask & mask) && s->wclk > f->vc[s->wt] && !(atomic && s->watomic))
            race((void *)(key << 3), 0, s->wpc, pc, s->wt, cur);
        if (!atomic){
            if (s->rclk[cur] == f->vc[cur]) s->rmask[cur] |= mask;
            else { s->rclk[cur] = f->vc[cur]; s->rmask[cur] = mask; }
            s->rpc = pc;
        }
        return;
    }
    if (s->wt != 255 && s->wt != cur && (s->wmask & mask) && s->wclk > f->vc[s->wt] && !(atomic && s->watomic))
        race((void *)(key << 3), 1, s->wpc, pc, s->wt, cur);
    for (int i = 0; i < nf; ++i)
        if (i != cur && s->rclk[i] > f->vc[i] && (s->rmask[i] & mask))
            race((void *)(key << 3), 0, s->rpc, pc, i, cur);
    if (s->wt == cur && s->wclk == f->vc[cur] && s->watomic == atomic) s->wmask |= mask;
    else { s->wt = (uint8_t)cur; s->wclk = f->vc[cur]; s->wmask = mask; s->watomic = (uint8_t)atomic; }
    s->wpc = pc;
}

static void hb(const void *addr, size_t size, int wr, int atomic, void *pc){
    uint64_t a = (uint64_t)addr, e = a + size;
    while (a < e){
        uint64_t g = a >> 3, lo = a & 7, hi = ((g + 1) << 3) < e ? 8 : e - (g << 3);
        hb_one(g, (uint8_t)(((1u << (hi - lo)) - 1) << lo), wr, atomic, pc);
        a = (g + 1) << 3;
    }
}
void sim_hb_access(const void *addr, size_t size, int wr, void *pc){
    if (sim_in_team && cfg_race) hb(addr, size, wr, 0, pc);
}
void sim_hb_clear(const void *addr, size_t size){
    if (!sh) return;
    uint64_t g = (uint64_t)addr >> 3, e = ((uint64_t)addr + size + 7) >> 3;
    while (g < e){
        if (!(g & 511) && e - g >= 512){ page_epoch[PE(g)]++; g += 512; continue; }     /* a whole page at once */
        uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> (64 - SHBITS));
        if (sh[h].key == g) sh[h].gen = 0;
        if (sh[h ^ 1].key == g) sh[h ^ 1].gen = 0;
        ++g;
    }
}

/* -------------------------------------------------------------------- scheduler */
int sim_cur_thread(void){ return cur < 0 ? 0 : cur; }

static void switch_to(int to){
    int from = cur;
    F[from].err = errno;
    cur = to;
    F[to].runs++;
    inter_hash = (inter_hash ^ (uint64_t)(to + 1) ^ (step << 8)) * 0x100000001B3ull;
    sim_switch_asm(&F[from].sp, F[to].sp);
    errno = F[cur].err;
}

static int pick_ready(int not_me){
    int c[SIM_MAXT], n = 0;
    for (int i = 0; i < nf; ++i) if (F[i].state == F_READY && i != not_me) c[n++] = i;
    if (!n) return -1;
    if (policy == P_PCT){
        int b = c[0];
        for (int i = 1; i < n; ++i) if (F[c[i]].prio > F[b].prio) b = c[i];
        return b;
    }
    if (policy == P_SERIAL){
        /* highest "prio" first: a random serial order */
        int b = c[0];
        for (int i = 1; i < n; ++i) if (F[c[i]].prio > F[b].prio) b = c[i];
        return b;
    }
    return c[rng_below(&R, (uint64_t)n)];
}

static int forced_pick(void){
    int to = -1;
    if (cfg_replay){
        if (rep_pos < nrep && rep[rep_pos].region == region_no && rep[rep_pos].step == step){
            to = (int)rep[rep_pos].to; rep_pos++;
            if (to >= nf || F[to].state != F_READY) to = -1;
        }
        if (to < 0) for (int i = 0; i < nf; ++i) if (F[i].state == F_READY){ to = i; break; }
    } else to = pick_ready(-1);
    if (to >= 0){ record(to); st.forced++; }
    return to;
}

static void maybe_preempt(int weight){
    int to = -1;
    ++step;
    if (cfg_replay){
        while (rep_pos < nrep && (rep[rep_pos].region < region_no ||
               (rep[rep_pos].region == region_no && rep[rep_pos].step < step))) rep_pos++;
        if (rep_pos < nrep && rep[rep_pos].region == region_no && rep[rep_pos].step == step){
            to = (int)rep[rep_pos].to; rep_pos++;
            if (to >= nf || F[to].state != F_READY || to == cur) return;
            record(to);
        } else return;
    } else {
        if (ndec >= MAXDEC) return;
        switch (policy){
        case P_SERIAL: return;
        case P_PCT:
            if (pct_used < pct_n && step >= pct_points[pct_used]){
                pct_used++;
                F[cur].prio = (uint64_t)(pct_n - pct_used);   /* below all initial priorities */
                to = pick_ready(-1);
                if (to == cur || to < 0) return;
                record(to);
                break;
            }
            return;
        case P_BURST:
            /* alternate calm stretches with dense switching */
            if (rng_unit(&R) >= (((step >> 9) % 7 == 3) ? 0.5 : rw_p * 0.1) * weight) return;
            to = pick_ready(cur);
            if (to < 0) return;
            record(to);
            break;
        default:
            if (rng_unit(&R) >= rw_p * weight) return;
            to = pick_ready(cur);
            if (to < 0) return;
            record(to);
        }
    }
    st.preempt++;
    switch_to(to);
}

static void block_current(const void *on){
    F[cur].state = F_BLOCKED;
    F[cur].wait_on = on;
    st.blocked++;
    ++step;
    int to = forced_pick();
    if (to < 0){
        sim_violation("deadlock", "all simulated threads are blocked");
        sim_flush_stats();
        sim_die("deadlock");
    }
    switch_to(to);
}

void sim_yield_ext(int kind){
    if (!sim_in_team) return;
    (void)kind;
    st.yields_ext++;
    maybe_preempt(4);
}

static inline int own_stack(const void *a){
    return (const char *)a >= F[cur].stk && (const char *)a < F[cur].stk + STACK_SIZE;
}

static inline void access_(const void *a, size_t n, int wr, int atomic, void *pc){
    if (likely(!sim_in_team)) return;
    if (own_stack(a)) return;
    maybe_preempt(1);
    if (cfg_race) hb(a, n, wr, atomic, pc);
}
#define PC __builtin_return_address(0)
#define RW(n) \
    EXPORT void __tsan_read##n(void *a){ access_(a, n, 0, 0, PC); } \
    EXPORT void __tsan_write##n(void *a){ access_(a, n, 1, 0, PC); } \
    EXPORT void __tsan_unaligned_read##n(void *a){ access_(a, n, 0, 0, PC); } \
    EXPORT void __tsan_unaligned_write##n(void *a){ access_(a, n, 1, 0, PC); } \
    EXPORT void __tsan_volatile_read##n(void *a){ access_(a, n, 0, 0, PC); } \
    EXPORT void __tsan_volatile_write##n(void *a){ access_(a, n, 1, 0, PC); } \
    EXPORT void __tsan_unaligned_volatile_read##n(void *a){ access_(a, n, 0, 0, PC); } \
    EXPORT void __tsan_unaligned_volatile_write##n(void *a){ access_(a, n, 1, 0, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *a, unsigned long n){ access_(a, n, 0, 0, PC); }
EXPORT void __tsan_write_range(void *a, unsigned long n){ access_(a, n, 1, 0, PC); }
EXPORT void __tsan_func_entry(void *p){ (void)p; }
EXPORT void __tsan_func_exit(void){}
EXPORT void __tsan_init(void){}
EXPORT void __tsan_vptr_update(void *a, void *b){ (void)a; (void)b; }
EXPORT void __tsan_vptr_read(void *a){ (void)a; }

static void atomic_sync(const void *a, int mo, int is_load, int is_store){
    if (!sim_in_team || mo == 0) return;         /* relaxed: no ordering */
    lock_t *l = lock_get((const char *)a + 1);
    if (is_load) vc_join(F[cur].vc, l->vc);
    if (is_store){ vc_join(l->vc, F[cur].vc); F[cur].vc[cur]++; }
}
typedef unsigned __int128 u128;
#define AT(bits, T) \
    EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int mo){ access_((void *)a, bits / 8, 0, 1, PC); atomic_sync((void *)a, mo, 1, 0); return *a; } \
    EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int mo){ access_((void *)a, bits / 8, 1, 1, PC); atomic_sync((void *)a, mo, 0, 1); *a = v; } \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo){ access_((void *)a, bits / 8, 1, 1, PC); atomic_sync((void *)a, mo, 1, 1); T o = *a; *a = v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo){ access_((void *)a, bits / 8, 1, 1, PC); atomic_sync((void *)a, mo, 1, 1); T o = *a; *a = o + v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo){ access_((void *)a, bits / 8, 1, 1, PC); atomic_sync((void *)a, mo, 1, 1); T o = *a; *a = o - v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo){ access_((void *)a, bits / 8, 1, 1, PC); atomic_sync((void *)a, mo, 1, 1); T o = *a; *a = o & v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo){ access_((void *)a, bits / 8, 1, 1, PC); atomic_sync((void *)a, mo, 1, 1); T o = *a; *a = o | v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo){ access_((void *)a, bits / 8, 1, 1, PC); atomic_sync((void *)a, mo, 1, 1); T o = *a; *a = o ^ v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo){ access_((void *)a, bits / 8, 1, 1, PC); atomic_sync((void *)a, mo, 1, 1); T o = *a; *a = ~(o & v); return o; } \
    EXPORT bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo){ (void)fmo; access_((void *)a, bits / 8, 1, 1, PC); atomic_sync((void *)a, mo, 1, 1); \
        T o = *a; if (o == *c){ *a = v; return true; } *c = o; return false; } \
    EXPORT bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo){ return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo){ __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo){ (void)mo; }
EXPORT void __tsan_atomic_signal_fence(int mo){ (void)mo; }

/* --------------------------------------------------------- locks and barriers */
static void lock_acquire(const void *key, int nest){
    if (!sim_in_team) return;
    sim_yield_ext(1);
    lock_t *l = lock_get(key);
    if (nest && l->owner == cur){ l->depth++; return; }
    while (l->owner >= 0) block_current(key);
    l->owner = cur; l->depth = 1;
    st.crit++;
    vc_join(F[cur].vc, l->vc);
}
static void lock_release(const void *key, int nest){
    if (!sim_in_team) return;
    lock_t *l = lock_get(key);
    if (nest && --l->depth > 0) return;
    vc_join(l->vc, F[cur].vc);
    F[cur].vc[cur]++;
    l->owner = -1;
    for (int i = 0; i < nf; ++i)
        if (F[i].state == F_BLOCKED && F[i].wait_on == key) F[i].state = F_READY;
    sim_yield_ext(1);
}
static char crit_default, atomic_default, bar_key, task_key;
EXPORT void GOMP_critical_start(void){ lock_acquire(&crit_default, 0); }
EXPORT void GOMP_critical_end(void){ lock_release(&crit_default, 0); }
EXPORT void GOMP_critical_name_start(void **p){ lock_acquire(p, 0); }
EXPORT void GOMP_critical_name_end(void **p){ lock_release(p, 0); }
EXPORT void GOMP_atomic_start(void){ lock_acquire(&atomic_default, 0); }
EXPORT void GOMP_atomic_end(void){ lock_release(&atomic_default, 0); }
EXPORT void omp_init_lock(void *l){ (void)l; }
EXPORT void omp_destroy_lock(void *l){ (void)l; }
EXPORT void omp_set_lock(void *l){ lock_acquire(l, 0); }
EXPORT void omp_unset_lock(void *l){ lock_release(l, 0); }
EXPORT int omp_test_lock(void *p){
    if (!sim_in_team) return 1;
    sim_yield_ext(1);
    lock_t *l = lock_get(p);
    if (l->owner >= 0) return 0;
    l->owner = cur; l->depth = 1; vc_join(F[cur].vc, l->vc);
    return 1;
}
EXPORT void omp_init_nest_lock(void *l){ (void)l; }
EXPORT void omp_destroy_nest_lock(void *l){ (void)l; }
EXPORT void omp_set_nest_lock(void *l){ lock_acquire(l, 1); }
EXPORT void omp_unset_nest_lock(void *l){ lock_release(l, 1); }

EXPORT void GOMP_barrier(void){
    if (!sim_in_team || F[cur].nest) return;
    sim_yield_ext(2);
    vc_join(barrier_vc, F[cur].vc);
    if (++barrier_waiting < nf){ block_current(&bar_key); return; }
    barrier_waiting = 0;
    for (int i = 0; i < nf; ++i){
        memcpy(F[i].vc, barrier_vc, sizeof barrier_vc);
        F[i].vc[i]++;
        if (F[i].state == F_BLOCKED && F[i].wait_on == &bar_key) F[i].state = F_READY;
    }
    sim_yield_ext(2);
}
EXPORT bool GOMP_barrier_cancel(void){ GOMP_barrier(); return false; }
EXPORT bool GOMP_cancel(int w, bool d){ (void)w; (void)d; return false; }
EXPORT bool GOMP_cancellation_point(int w){ (void)w; return false; }

/* ------------------------------------------------------------------- regions */
static void fiber_main(void){
    region_fn(region_data);
    F[cur].state = F_DONE;
    F[cur].err = errno;
    ++step;
    int any = 0;
    for (int i = 0; i < nf; ++i) if (F[i].state != F_DONE) any = 1;
    if (!any){
        void *dummy;
        cur = -1;
        sim_switch_asm(&dummy, sched_sp);
    }
    int to = forced_pick();
    if (to < 0){
        sim_violation("deadlock", "a simulated thread ended while all others are blocked");
        sim_flush_stats();
        sim_die("deadlock");
    }
    switch_to(to);
    __builtin_unreachable();
}

static rng_t junk_rng;
static void fiber_prepare(int i){
    fiber_t *f = &F[i];
    char *stk = f->stk;
    if (!stk) stk = sysmap(STACK_SIZE);
    memset(f, 0, sizeof *f);
    f->stk = stk;
    /* whatever an earlier use of this stack left behind */
    uint64_t *w = (uint64_t *)(stk + STACK_SIZE - 49152);
    uint64_t j = rng_next(&junk_rng);
    for (int k = 0; k < 49152 / 8; ++k) w[k] = j ^ (uint64_t)k * 0x9E3779B97F4A7C15ull;
    uint64_t *sp = (uint64_t *)(stk + STACK_SIZE - 64);
    *--sp = 0;                                /* alignment: entry sees rsp % 16 == 8 */
    *--sp = (uint64_t)(uintptr_t)fiber_main;
    sp -= 6; memset(sp, 0, 48);
    sp -= 2;
    __asm__ volatile("stmxcsr (%0)\n\tfnstcw 8(%0)" :: "r"(sp) : "memory");
    f->sp = sp;
    f->vc[i] = 1;
    f->prio = 1000 + rng_below(&R, 1u << 30);
    f->err = errno;
}

static void run_region(void (*fn)(void *), void *data, unsigned req, ws_t *pre){
    st.regions++;
    if (region_depth){                        /* nested parallelism is off, as by default in libgomp */
        fiber_t *f = &F[cur];
        st.nested++;
        ws_t savew[8]; ws_t *savec = f->cur; long savest = f->st_next;
        memcpy(savew, f->nws, sizeof savew);
        memset(f->nws, 0, sizeof f->nws);
        f->nest++;
        if (pre){ f->nws[0] = *pre; f->cur = &f->nws[0]; f->st_next = 0; }
        fn(data);
        f = &F[cur];
        f->nest--;
        memcpy(f->nws, savew, sizeof savew); f->cur = savec; f->st_next = savest;
        return;
    }
    int n = req ? (int)req : cfg_max_threads;
    if (cfg_team && n > cfg_team) n = cfg_team;
    if (n > SIM_MAXT) n = SIM_MAXT;
    if (n < 1) n = 1;
    region_no++;
    sim_clock_region((long)region_no);
    st.team_hist[n]++;
    nf = n;
    gen++;
    if (!sh) sh = sysmap(SHN * sizeof *sh);
    rng_t save = R;
    R.s = rng_mix(seed0, 0x1000 + region_no);
    junk_rng.s = rng_mix(seed0, 0x2000 + region_no);
    policy = cfg_policy;
    if (cfg_policy_mix){
        double u = rng_unit(&R);
        policy = u < 0.1 ? P_SERIAL : u < 0.55 ? P_RW : u < 0.8 ? P_PCT : P_BURST;
    }
    static const double ps[] = { 0.3, 0.05, 0.01, 0.002, 0.0003 };
    rw_p = ps[rng_below(&R, 5)];
    pct_n = 1 + (int)rng_below(&R, 6); pct_used = 0;
    static const uint64_t spans[] = { 60, 600, 6000, 60000, 1000000 };
    uint64_t span = spans[rng_below(&R, 5)];
    for (int i = 0; i < pct_n; ++i) pct_points[i] = 1 + rng_below(&R, span);
    for (int i = 1; i < pct_n; ++i)
        for (int j = i; j > 0 && pct_points[j] < pct_points[j - 1]; --j){
            uint64_t t = pct_points[j]; pct_points[j] = pct_points[j - 1]; pct_points[j - 1] = t;
        }
    if (n > 1){ st.par_regions++; st.pol[policy]++; }
    if ((unsigned long)n > st.maxteam) st.maxteam = (unsigned long)n;
    memset(W, 0, sizeof W);
    if (pre) W[0] = *pre;
    single_taken = 0;
    barrier_waiting = 0;
    memset(barrier_vc, 0, sizeof barrier_vc);
    region_fn = fn; region_data = data;
    for (int i = 0; i < n; ++i){
        fiber_prepare(i);
        if (pre){ F[i].ws_count = 1; F[i].cur = &W[0]; F[i].st_next = i; }
    }
    step = 0; inter_hash = 0xcbf29ce484222325ull ^ (uint64_t)n;
    region_depth = 1;
    sim_in_team = n > 1;
    int to = cfg_replay || n > 1 ? forced_pick() : 0;
    if (to < 0) to = 0;
    cur = to;
    sim_switch_asm(&sched_sp, F[to].sp);
    sim_in_team = 0;
    region_depth = 0;
    errno = F[0].err;
    cur = -1;
    st.steps += step;
    if (n > 1){
        uint64_t h = inter_hash ^ step;
        sim_ev(h);
        if (!seen) seen = sysmap(SEEN_CAP * sizeof *seen);
        size_t i = h % SEEN_CAP;
        if (!h) h = 1;
        for (size_t k = 0; k < 64; ++k){
            size_t x = (i + k) % SEEN_CAP;
            if (seen[x] == h) break;
            if (!seen[x]){ seen[x] = h; nseen++; break; }
        }
    }
    R = save;
}

EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags){
    (void)flags;
    run_region(fn, data, n, 0);
}
EXPORT void GOMP_parallel_start(void (*fn)(void *), void *data, unsigned n){ (void)fn; (void)data; (void)n; sim_die("GOMP_parallel_start"); }
EXPORT void GOMP_parallel_end(void){}

/* ------------------------------------------------------------------ worksharing */
static fiber_t solo;                          /* orphaned constructs outside a region */
static int teamed(void){ return cur >= 0 && !F[cur].nest; }
static fiber_t *me(void){ return cur >= 0 ? &F[cur] : &solo; }
static int team_n(void){ return teamed() ? nf : 1; }
static int team_id(void){ return teamed() ? cur : 0; }
static ws_t *ws_slot(void){
    fiber_t *f = me();
    if (teamed()) return &W[f->ws_count++ % NWS];
    f->nws[0].used = 0;
    return &f->nws[0];
}

static ws_t *ws_enter(int kind, long s, long e, long inc, long ch){
    fiber_t *f = me();
    ws_t *w = ws_slot();
    if (!w->used){
        w->used = 1; w->kind = kind; w->start = s; w->end = e; w->incr = inc; w->chunk = ch ? ch : 1; w->next = s; w->left = 0;
    }
    f->cur = w;
    f->st_next = team_id();
    return w;
}
static void ws_leave(void){
    fiber_t *f = me();
    ws_t *w = f->cur;
    if (w && ++w->left >= team_n()) w->used = 0;
}
static bool dyn_next(long *is, long *ie){
    sim_yield_ext(3);
    ws_t *w = me()->cur;
    long left = w->incr > 0 ? w->end - w->next : w->next - w->end;
    if (left <= 0) return false;
    *is = w->next;
    long c = w->chunk * w->incr;
    if (w->incr > 0 ? w->next + c > w->end : w->next + c < w->end) w->next = w->end;
    else w->next += c;
    *ie = w->next;
    sim_yield_ext(3);
    return true;
}
static bool sta_next(long *is, long *ie){
    fiber_t *f = me();
    ws_t *w = f->cur;
    long n = w->incr > 0 ? (w->end - w->start + w->incr - 1) / w->incr : (w->start - w->end - w->incr - 1) / -w->incr;
    if (n <= 0) return false;
    if (w->chunk <= 0) return false;
    long a = f->st_next * w->chunk;
    if (a >= n) return false;
    long b = a + w->chunk > n ? n : a + w->chunk;
    f->st_next += team_n();
    *is = w->start + a * w->incr; *ie = w->start + b * w->incr;
    sim_yield_ext(3);
    return true;
}
static long static_chunk(long s, long e, long inc, long ch){
    if (ch) return ch;
    long n = inc > 0 ? (e - s + inc - 1) / inc : (s - e - inc - 1) / -inc;
    long t = team_n();
    return n > 0 ? (n + t - 1) / t : 1;
}
#define DYN(name) \
    EXPORT bool GOMP_loop_##name##_start(long s, long e, long inc, long ch, long *is, long *ie){ ws_enter(1, s, e, inc, ch); return dyn_next(is, ie); } \
    EXPORT bool GOMP_loop_##name##_next(long *is, long *ie){ return dyn_next(is, ie); } \
    EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long inc, long ch, unsigned fl){ \
        (void)fl; ws_t w = { .used = 1, .kind = 1, .start = s, .end = e, .incr = inc, .chunk = ch ? ch : 1, .next = s }; run_region(fn, d, n, &w); }
DYN(dynamic) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided)
#define RUN(name) \
    EXPORT bool GOMP_loop_##name##_start(long s, long e, long inc, long *is, long *ie){ ws_enter(1, s, e, inc, 1); return dyn_next(is, ie); } \
    EXPORT bool GOMP_loop_##name##_next(long *is, long *ie){ return dyn_next(is, ie); } \
    EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long inc, unsigned fl){ \
        (void)fl; ws_t w = { .used = 1, .kind = 1, .start = s, .end = e, .incr = inc, .chunk = 1, .next = s }; run_region(fn, d, n, &w); }
RUN(runtime) RUN(nonmonotonic_runtime) RUN(maybe_nonmonotonic_runtime)
EXPORT bool GOMP_loop_static_start(long s, long e, long inc, long ch, long *is, long *ie){ ws_enter(2, s, e, inc, static_chunk(s, e, inc, ch)); return sta_next(is, ie); }
EXPORT bool GOMP_loop_static_next(long *is, long *ie){ return sta_next(is, ie); }
EXPORT void GOMP_parallel_loop_static(void (*fn)(void *), void *d, unsigned n, long s, long e, long inc, long ch, unsigned fl){
    (void)fl;
    if (!ch) sim_die("GOMP_parallel_loop_static without chunk");
    ws_t w = { .used = 1, .kind = 2, .start = s, .end = e, .incr = inc, .chunk = ch, .next = s };
    run_region(fn, d, n, &w);
}
EXPORT void GOMP_loop_end(void){ ws_leave(); GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait(void){ ws_leave(); }
EXPORT bool GOMP_loop_end_cancel(void){ GOMP_loop_end(); return false; }

/* unsigned long long loops */
typedef unsigned long long ull;
static bool ull_start(bool up, ull s, ull e, ull inc, ull ch, ull *is, ull *ie);
static bool ull_next(ull *is, ull *ie){
    sim_yield_ext(3);
    ws_t *w = me()->cur;
    if (w->up ? w->unext >= w->uend : w->unext <= w->uend) return false;
    *is = w->unext;
    ull left = w->up ? w->uend - w->unext : w->unext - w->uend;
    ull c = w->up ? w->uchunk * w->uincr : w->uchunk * (0ull - w->uincr);
    if (c >= left) w->unext = w->uend;
    else w->unext = w->up ? w->unext + c : w->unext - c;
    *ie = w->unext;
    sim_yield_ext(3);
    return true;
}
static bool ull_start(bool up, ull s, ull e, ull inc, ull ch, ull *is, ull *ie){
    fiber_t *f = me();
    ws_t *w = ws_slot();
    if (!w->used){
        memset(w, 0, sizeof *w);
        w->used = 1; w->kind = 4; w->up = up; w->ustart = s; w->uend = e; w->uincr = inc; w->uchunk = ch ? ch : 1; w->unext = s;
    }
    f->cur = w;
    return ull_next(is, ie);
}
#define ULL(name) \
    EXPORT bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull inc, ull ch, ull *is, ull *ie){ return ull_start(up, s, e, inc, ch, is, ie); } \
    EXPORT bool GOMP_loop_ull_##name##_next(ull *is, ull *ie){ return ull_next(is, ie); }
ULL(dynamic) ULL(guided) ULL(nonmonotonic_dynamic) ULL(nonmonotonic_guided) ULL(static)
#define ULR(name) \
    EXPORT bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull inc, ull *is, ull *ie){ return ull_start(up, s, e, inc, 1, is, ie); } \
    EXPORT bool GOMP_loop_ull_##name##_next(ull *is, ull *ie){ return ull_next(is, ie); }
ULR(runtime) ULR(nonmonotonic_runtime) ULR(maybe_nonmonotonic_runtime)

EXPORT unsigned GOMP_sections_next(void){
    long a, b;
    return dyn_next(&a, &b) ? (unsigned)a : 0;
}
EXPORT unsigned GOMP_sections_start(unsigned n){ ws_enter(3, 1, (long)n + 1, 1, 1); return GOMP_sections_next(); }
EXPORT void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned fl){
    (void)fl; ws_t w = { .used = 1, .kind = 3, .start = 1, .end = (long)n + 1, .incr = 1, .chunk = 1, .next = 1 };
    run_region(fn, d, nt, &w);
}
EXPORT void GOMP_sections_end(void){ ws_leave(); GOMP_barrier(); }
EXPORT void GOMP_sections_end_nowait(void){ ws_leave(); }

EXPORT bool GOMP_single_start(void){
    if (!teamed()) return true;
    sim_yield_ext(3);
    if (F[cur].single_count++ == single_taken){ single_taken++; return true; }
    return false;
}
EXPORT void *GOMP_single_copy_start(void){
    if (GOMP_single_start()) return 0;
    GOMP_barrier();
    void *p = copy_data;
    GOMP_barrier();
    return p;
}
EXPORT void GOMP_single_copy_end(void *d){ copy_data = d; GOMP_barrier(); GOMP_barrier(); }
EXPORT bool GOMP_masked_start(void){ return team_id() == 0; }

/* tasks run at once on the thread that creates them, which OpenMP allows */
EXPORT void GOMP_task(void (*fn)(void *), void *d, void (*cp)(void *, void *), long sz, long al, bool c, unsigned fl, void **dep, int prio, void *det){
    (void)c; (void)fl; (void)dep; (void)prio; (void)det;
    sim_yield_ext(3);
    if (cp){
        char b[sz + al];
        char *p = (char *)(((uintptr_t)b + (uintptr_t)al - 1) / (uintptr_t)al * (uintptr_t)al);
        cp(p, d);
        fn(p);
    } else fn(d);
    sim_yield_ext(3);
}
EXPORT void GOMP_taskwait(void){ (void)task_key; }
EXPORT void GOMP_taskyield(void){ sim_yield_ext(3); }
EXPORT void GOMP_taskgroup_start(void){}
EXPORT void GOMP_taskgroup_end(void){}
EXPORT void GOMP_ordered_start(void){ sim_die("ordered loops are unsupported by the simulator"); }
EXPORT void GOMP_ordered_end(void){}

/* ------------------------------------------------------------------- omp_* API */
EXPORT int omp_get_max_threads(void){ return cfg_max_threads; }
EXPORT int omp_get_num_threads(void){ return team_n(); }
EXPORT int omp_get_thread_num(void){ return team_id(); }
EXPORT int omp_get_num_procs(void){ return cfg_max_threads; }
EXPORT void omp_set_num_threads(int n){ if (n > 0) cfg_max_threads = n; }
EXPORT int omp_in_parallel(void){ return sim_in_team; }
EXPORT int omp_get_thread_limit(void){ return SIM_MAXT; }
EXPORT int omp_get_dynamic(void){ return 0; }
EXPORT void omp_set_dynamic(int v){ (void)v; }
EXPORT int omp_get_nested(void){ return 0; }
EXPORT void omp_set_nested(int v){ (void)v; }
EXPORT int omp_get_level(void){ return cur >= 0; }
EXPORT int omp_get_active_level(void){ return sim_in_team; }
EXPORT int omp_get_max_active_levels(void){ return 1; }
EXPORT void omp_set_max_active_levels(int v){ (void)v; }
EXPORT int omp_get_cancellation(void){ return 0; }
EXPORT void omp_set_schedule(int k, int c){ (void)k; (void)c; }
static double fake_wtime = 1000.0;
EXPORT double omp_get_wtime(void){ return fake_wtime += 1e-3; }
EXPORT double omp_get_wtick(void){ return 1e-9; }

/* -------------------------------------------------------- thread-local storage
 * Every simulated worker but the master has its own copy of the program's
 * thread-local block; the copies outlive a region, as a thread pool's do. */
#include <link.h>
typedef struct { unsigned long mod, off; } tls_idx_t;
#define NTLS 8
static struct { unsigned long mod; size_t filesz, memsz; const void *image; char *blk[SIM_MAXT]; } tlsm[NTLS];
static int ntls;
static unsigned long tls_known[64]; static int ntls_known;
static unsigned long tls_query;
static int tls_find(struct dl_phdr_info *in, size_t sz, void *d){
    (void)sz; (void)d;
    if (in->dlpi_tls_modid != tls_query) return 0;
    const char *base = strrchr(in->dlpi_name, '/');
    base = base ? base + 1 : in->dlpi_name;
    if (!strstr(base, "coffe.cpython") && !strstr(base, "simtest")) return 1;
    for (int i = 0; i < in->dlpi_phnum; ++i)
        if (in->dlpi_phdr[i].p_type == PT_TLS && ntls < NTLS){
            tlsm[ntls].mod = tls_query;
            tlsm[ntls].filesz = in->dlpi_phdr[i].p_filesz; tlsm[ntls].memsz = in->dlpi_phdr[i].p_memsz;
            tlsm[ntls].image = (const void *)(in->dlpi_addr + in->dlpi_phdr[i].p_vaddr);
            ntls++;
        }
    return 1;
}
EXPORT void *__tls_get_addr(tls_idx_t *t);
EXPORT void *__tls_get_addr(tls_idx_t *t){
    static void *(*real)(tls_idx_t *);
    if (unlikely(!real)) real = (void *(*)(tls_idx_t *))dlsym(RTLD_NEXT, "__tls_get_addr");
    void *p = real(t);
    if (likely(cur <= 0)) return p;
    int k = 0, found = -1;
    for (int i = 0; i < ntls_known; ++i) if (tls_known[i] == t->mod) k = 1;
    if (!k){
        if (ntls_known < 64) tls_known[ntls_known++] = t->mod;
        tls_query = t->mod;
        dl_iterate_phdr(tls_find, 0);
    }
    for (int i = 0; i < ntls; ++i) if (tlsm[i].mod == t->mod) found = i;
    if (found < 0) return p;
    char **b = &tlsm[found].blk[cur];
    if (!*b){
        *b = sysmap(tlsm[found].memsz + 64);
        memcpy(*b, tlsm[found].image, tlsm[found].filesz);
    }
    tls_idx_t z = { t->mod, 0 };
    return *b + ((char *)p - (char *)real(&z));
}

/* -------- libraries that are not instrumented: their shared state as pseudo accesses -------- */
static uint64_t fftw_planner_state[2], gsl_handler_state[2];
static void planner(void *pc){
    if (!sim_in_team) return;
    maybe_preempt(4);
    if (cfg_race) hb(fftw_planner_state, 8, 1, 0, pc);
}
#define NEXT(name) static __typeof__(&name) real; if (unlikely(!real)) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define PLAN(name, proto, args) \
    EXPORT void *name proto; \
    EXPORT void *name proto { NEXT(name); planner(PC); void *r = real args; sim_yield_ext(4); planner(PC); return r; }
typedef int in_; typedef unsigned un_;
PLAN(fftw_plan_dft_1d, (in_ n, void *i, void *o, in_ s, un_ f), (n, i, o, s, f))
PLAN(fftw_plan_dft_2d, (in_ n, in_ m, void *i, void *o, in_ s, un_ f), (n, m, i, o, s, f))
PLAN(fftw_plan_dft_r2c_1d, (in_ n, void *i, void *o, un_ f), (n, i, o, f))
PLAN(fftw_plan_dft_c2r_1d, (in_ n, void *i, void *o, un_ f), (n, i, o, f))
PLAN(fftw_plan_dft_r2c_2d, (in_ n, in_ m, void *i, void *o, un_ f), (n, m, i, o, f))
PLAN(fftw_plan_dft_c2r_2d, (in_ n, in_ m, void *i, void *o, un_ f), (n, m, i, o, f))
PLAN(fftw_plan_r2r_1d, (in_ n, void *i, void *o, in_ k, un_ f), (n, i, o, k, f))
EXPORT void fftw_destroy_plan(void *p);
EXPORT void fftw_destroy_plan(void *p){ NEXT(fftw_destroy_plan); planner(PC); sim_yield_ext(4); real(p); planner(PC); }
EXPORT void fftw_cleanup(void);
EXPORT void fftw_cleanup(void){ NEXT(fftw_cleanup); planner(PC); real(); }
EXPORT void fftw_execute(void *p);
EXPORT void fftw_execute(void *p){ NEXT(fftw_execute); sim_yield_ext(4); if (sim_in_team && cfg_race) hb(p, 1, 1, 0, PC); real(p); sim_yield_ext(4); }
EXPORT void *gsl_set_error_handler(void *h);
EXPORT void *gsl_set_error_handler(void *h){
    NEXT(gsl_set_error_handler);
    if (sim_in_team){ maybe_preempt(4); if (cfg_race) hb(gsl_handler_state, 8, 1, 0, PC); }
    return real(h);
}
EXPORT void *gsl_set_error_handler_off(void);
EXPORT void *gsl_set_error_handler_off(void){
    NEXT(gsl_set_error_handler_off);
    if (sim_in_team){ maybe_preempt(4); if (cfg_race) hb(gsl_handler_state, 8, 1, 0, PC); }
    return real();
}
/* workspaces of the (uninstrumented) integrator: used for the whole call */
typedef struct { double (*f)(double, void *); void *p; } gsl_fn;
#define WSRACE(w) do { if (sim_in_team){ maybe_preempt(4); if (cfg_race) hb(w, 8, 1, 0, PC); } } while (0)
EXPORT int gsl_integration_qag(const gsl_fn *f, double a, double b, double ea, double er, size_t l, int k, void *w, double *r, double *e);
EXPORT int gsl_integration_qag(const gsl_fn *f, double a, double b, double ea, double er, size_t l, int k, void *w, double *r, double *e){
    NEXT(gsl_integration_qag); WSRACE(w); int x = real(f, a, b, ea, er, l, k, w, r, e); WSRACE(w); return x; }
EXPORT int gsl_integration_qags(const gsl_fn *f, double a, double b, double ea, double er, size_t l, void *w, double *r, double *e);
EXPORT int gsl_integration_qags(const gsl_fn *f, double a, double b, double ea, double er, size_t l, void *w, double *r, double *e){
    NEXT(gsl_integration_qags); WSRACE(w); int x = real(f, a, b, ea, er, l, w, r, e); WSRACE(w); return x; }
EXPORT int gsl_integration_cquad(const gsl_fn *f, double a, double b, double ea, double er, void *w, double *r, double *e, size_t *n);
EXPORT int gsl_integration_cquad(const gsl_fn *f, double a, double b, double ea, double er, void *w, double *r, double *e, size_t *n){
    NEXT(gsl_integration_cquad); WSRACE(w); int x = real(f, a, b, ea, er, w, r, e, n); WSRACE(w); return x; }
/* an interpolation accelerator is written by every look-up made through it */
#define ACC1(a) do { if ((a) && sim_in_team){ maybe_preempt(1); if (cfg_race) hb(a, 8, 1, 0, PC); } } while (0)
#define SPL1(name) \
    EXPORT double name(const void *s, double x, void *a); \
    EXPORT double name(const void *s, double x, void *a){ NEXT(name); ACC1(a); return real(s, x, a); }
SPL1(gsl_spline_eval) SPL1(gsl_spline_eval_deriv) SPL1(gsl_spline_eval_deriv2)
EXPORT double gsl_spline_eval_integ(const void *s, double x, double y, void *a);
EXPORT double gsl_spline_eval_integ(const void *s, double x, double y, void *a){ NEXT(gsl_spline_eval_integ); ACC1(a); return real(s, x, y, a); }
EXPORT int gsl_spline_eval_e(const void *s, double x, void *a, double *r);
EXPORT int gsl_spline_eval_e(const void *s, double x, void *a, double *r){ NEXT(gsl_spline_eval_e); ACC1(a); return real(s, x, a, r); }
EXPORT double gsl_interp_eval(const void *s, const double *xs, const double *ys, double x, void *a);
EXPORT double gsl_interp_eval(const void *s, const double *xs, const double *ys, double x, void *a){ NEXT(gsl_interp_eval); ACC1(a); return real(s, xs, ys, x, a); }
EXPORT size_t gsl_interp_accel_find(void *a, const double *xs, size_t n, double x);
EXPORT size_t gsl_interp_accel_find(void *a, const double *xs, size_t n, double x){ NEXT(gsl_interp_accel_find); ACC1(a); return real(a, xs, n, x); }
EXPORT double gsl_spline2d_eval(const void *s, double x, double y, void *a, void *b);
EXPORT double gsl_spline2d_eval(const void *s, double x, double y, void *a, void *b){ NEXT(gsl_spline2d_eval); ACC1(a); ACC1(b); return real(s, x, y, a, b); }
EXPORT int gsl_spline2d_eval_e(const void *s, double x, double y, void *a, void *b, double *r);
EXPORT int gsl_spline2d_eval_e(const void *s, double x, double y, void *a, void *b, double *r){ NEXT(gsl_spline2d_eval_e); ACC1(a); ACC1(b); return real(s, x, y, a, b, r); }
EXPORT double gsl_rng_uniform(const void *r);
EXPORT double gsl_rng_uniform(const void *r){ NEXT(gsl_rng_uniform); WSRACE(r); return real(r); }
EXPORT unsigned long gsl_rng_get(const void *r);
EXPORT unsigned long gsl_rng_get(const void *r){ NEXT(gsl_rng_get); WSRACE(r); return real(r); }
#define MONTE(name) \
    EXPORT int name(void *f, const double *xl, const double *xu, size_t d, size_t c, void *r, void *s, double *res, double *err); \
    EXPORT int name(void *f, const double *xl, const double *xu, size_t d, size_t c, void *r, void *s, double *res, double *err){ \
        NEXT(name); WSRACE(s); WSRACE(r); int x = real(f, xl, xu, d, c, r, s, res, err); WSRACE(s); WSRACE(r); return x; }
MONTE(gsl_monte_vegas_integrate) MONTE(gsl_monte_miser_integrate)
EXPORT int gsl_monte_plain_integrate(void *f, const double *xl, const double *xu, size_t d, size_t c, void *r, void *s, double *res, double *err);
EXPORT int gsl_monte_plain_integrate(void *f, const double *xl, const double *xu, size_t d, size_t c, void *r, void *s, double *res, double *err){
    NEXT(gsl_monte_plain_integrate); WSRACE(s); WSRACE(r); int x = real(f, xl, xu, d, c, r, s, res, err); WSRACE(s); return x; }
EXPORT char *strtok(char *s, const char *d){ NEXT(strtok); static uint64_t state; WSRACE(&state); return real(s, d); }

int sim_omp_stats(char *b, size_t n){
    int l = snprintf(b, n,
        "\"regions\":%lu,\"par_regions\":%lu,\"steps\":%lu,\"preempt\":%lu,\"forced\":%lu,\"races\":%lu,\"maxteam\":%lu,"
        "\"yields_ext\":%lu,\"crit\":%lu,\"blocked\":%lu,\"distinct\":%lu,\"pol\":[%lu,%lu,%lu,%lu],\"team_hist\":[",
        st.regions, st.par_regions, st.steps, st.preempt, st.forced, st.races, st.maxteam, st.yields_ext, st.crit,
        st.blocked, (unsigned long)nseen, st.pol[0], st.pol[1], st.pol[2], st.pol[3]);
    for (int i = 0; i <= SIM_MAXT; ++i) l += snprintf(b + l, n - l, "%s%lu", i ? "," : "", st.team_hist[i]);
    l += snprintf(b + l, n - l, "]");
    return l;
}
EXPORT unsigned long sim_region_count(void){ return region_no; }
EXPORT int sim_seen_hashes(uint64_t *out, int max){
    int k = 0;
    if (!seen) return 0;
    for (size_t i = 0; i < SEEN_CAP && k < max; ++i) if (seen[i]) out[k++] = seen[i];
    return k;
}
