/*
 * Allocation seam.  Requests made by the code under test (class 1) and by the
 * numerical libraries it calls (class 2) are tracked: seeded content of fresh
 * memory, canaries, poisoned quarantine after free, double-free and leak
 * detection, and failure of the k-th request.
 */
#include "simrt.h"
#include <errno.h>
#include <link.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static int on;                         /* tracking enabled */
static int fill_mode;                  /* 0 zero, 1 NaN pattern, 2 random, 3 large finite doubles, 4 leave alone */
static long fail_at = -1;              /* fail the k-th eligible request (1-based) */
static int fail_mask = 3, fail_sticky, light, libc_too;
static rng_t R;

static struct { unsigned long n1, n2, frees, bytes, failed, dbl, canary, uaf, eligible, live_hw; } st;

/* ------------------------------------------------------ which DSO is calling */
static struct { uintptr_t lo, hi; int cls; } seg[32];
static int nseg;
static char names1[512] = "coffe-cli;coffe.cpython;simtest", names2[512] = "libgsl.so;libfftw3;libconfig.so;libgslcblas";
static int match(const char *list, const char *name){
    char b[512]; snprintf(b, sizeof b, "%s", list);
    for (char *p = b, *q; p && *p; p = q){
        q = strchr(p, ';'); if (q) *q++ = 0;
        if (*p && strstr(name, p)) return 1;
    }
    return 0;
}
static int scan_cb(struct dl_phdr_info *i, size_t n, void *d){
    (void)n;
    const char *nm = i->dlpi_name;
    const char *exe = d;
    static int first; if (!nm || !*nm){ nm = first ? "" : exe; }
    const char *base = strrchr(nm, '/'); base = base ? base + 1 : nm;
    int c = match(names1, base) ? 1 : match(names2, base) ? 2 : libc_too && !strncmp(base, "libc.so", 7) ? 4 : 0;
    if (!c) return 0;
    for (int k = 0; k < i->dlpi_phnum && nseg < 32; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)){
            seg[nseg].lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            seg[nseg].hi = seg[nseg].lo + i->dlpi_phdr[k].p_memsz;
            seg[nseg++].cls = c;
        }
    return 0;
}
extern char *program_invocation_name;
static void rescan(void){ nseg = 0; dl_iterate_phdr(scan_cb, program_invocation_name); }
static int classify(void *pc){
    uintptr_t p = (uintptr_t)pc;
    for (int i = 0; i < nseg; ++i) if (p >= seg[i].lo && p < seg[i].hi) return seg[i].cls;
    return 0;
}

/* ------------------------------------------------------------- tracked blocks */
#define DEPTH 5
typedef struct { char *ptr; void *base; size_t size; uint32_t cls, seq; void *pc[DEPTH]; } blk_t;
#define TBITS 20
#define TN (1u << TBITS)
static blk_t *T;
static size_t nlive, live_bytes;
static uint32_t seq;
#define FRONT 32
#define BACK 32
#define CAN 0xC5

static void *sysmap(size_t n){
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) sim_die("mmap");
    return p;
}
static inline uint32_t hsh(const void *p){ return (uint32_t)((((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> (64 - TBITS)); }
static blk_t *find(const void *p){
    for (uint32_t i = hsh(p);; i = (i + 1) & (TN - 1)){
        if (!T[i].ptr) return 0;
        if (T[i].ptr == p) return &T[i];
    }
}
static void tbl_del(blk_t *b){
    uint32_t i = (uint32_t)(b - T), j = i;
    for (;;){
        T[i].ptr = 0;
        uint32_t k;
        do {
            j = (j + 1) & (TN - 1);
            if (!T[j].ptr) return;
            k = hsh(T[j].ptr);
        } while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
        T[i] = T[j];
        i = j;
    }
}

/* quarantine */
typedef struct { void *base; char *ptr; size_t size; void *pc, *fpc; } q_t;
#define QN 32768
#define QBYTES (128u << 20)
static q_t *Q; static unsigned qh, qt; static size_t qbytes;
#define POISON 0x7ff4deadbeef5a5aull

/* of a big block only both ends are marked: touching every page of each 2 MB workspace would dominate the run */
#define BIG (32u << 10)
#define HEAD (12u << 10)
#define TAIL (4u << 10)
static void poison_(char *p, size_t n){
    size_t i = 0; uint64_t v = POISON;
    for (; i + 8 <= n; i += 8) memcpy(p + i, &v, 8);
    for (; i < n; ++i) p[i] = 0x5a;
}
static void poison(char *p, size_t n){
    if (n <= BIG){ poison_(p, n); return; }
    poison_(p, HEAD);
    poison_(p + ((n - TAIL) & ~(size_t)7), n - ((n - TAIL) & ~(size_t)7));
}
static int poison_ok_(const char *p, size_t n){
    size_t i = 0; uint64_t v;
    for (; i + 8 <= n; i += 8){ memcpy(&v, p + i, 8); if (v != POISON) return 0; }
    for (; i < n; ++i) if (p[i] != 0x5a) return 0;
    return 1;
}
static int poison_ok(const char *p, size_t n){
    if (n <= BIG) return poison_ok_(p, n);
    return poison_ok_(p, HEAD) && poison_ok_(p + ((n - TAIL) & ~(size_t)7), n - ((n - TAIL) & ~(size_t)7));
}
static void q_pop(void){
    q_t *q = &Q[qh++ % QN];
    if (!poison_ok(q->ptr, q->size)){
        char a[300]; sim_snprint_pc(a, sizeof a, q->fpc);
        st.uaf++;
        sim_violation("use-after-free", "memory released at %s was written afterwards", a);
    }
    qbytes -= q->size;
    __libc_free(q->base);
}
EXPORT void sim_mem_drain(void){ while (Q && qh != qt) q_pop(); }

static void check_canary(blk_t *b, void *pc){
    (void)pc;
    int bad = 0;
    for (int i = 1; i <= FRONT; ++i) if ((unsigned char)b->ptr[-i] != CAN) bad = 1;
    for (int i = 0; i < BACK; ++i) if ((unsigned char)b->ptr[b->size + i] != CAN) bad = 2;
    if (bad){
        char a[300]; sim_snprint_pc(a, sizeof a, b->pc[0]);
        st.canary++;
        sim_violation("overrun", "write %s a block of %zu bytes allocated at %s", bad == 1 ? "before" : "past", b->size, a);
    }
}

static void fill_(char *p, size_t n);
static void fill(char *p, size_t n){
    if (n <= BIG){ fill_(p, n); return; }
    fill_(p, HEAD);
    fill_(p + ((n - TAIL) & ~(size_t)7), n - ((n - TAIL) & ~(size_t)7));
}
static void fill_(char *p, size_t n){
    switch (fill_mode){
    case 0: memset(p, 0, n); break;
    case 1: { size_t i = 0; uint64_t v = 0x7ff8cafe0badf00dull; for (; i + 8 <= n; i += 8) memcpy(p + i, &v, 8); for (; i < n; ++i) p[i] = 0x7f; break; }
    case 2: { rng_t r = { rng_next(&R) }; size_t i = 0; for (; i + 8 <= n; i += 8){ uint64_t v = rng_next(&r); memcpy(p + i, &v, 8); } for (; i < n; ++i) p[i] = (char)rng_next(&r); break; }
    case 3: { size_t i = 0; for (; i + 8 <= n; i += 8){ double v = 12345.678 + (double)(rng_next(&R) & 1023); memcpy(p + i, &v, 8); } for (; i < n; ++i) p[i] = 0x41; break; }
    default: ;
    }
}

static void unwind(blk_t *b, void **fp){
    /* frame pointers are only meaningful inside code built for the simulator;
       anything implausible ends the walk */
    char *lo = (char *)__builtin_frame_address(0);
    for (int i = 1; i < DEPTH; ++i){
        char *p = (char *)fp;
        if (p < lo || p > lo + 65536 || ((uintptr_t)p & 7)) return;
        void *ret = fp[1];
        if (!classify(ret)) return;
        b->pc[i] = ret;
        fp = (void **)fp[0];
    }
}

/* returns 1 if this request must fail */
static int must_fail(int cls){
    if (!(fail_mask & cls)) return 0;
    st.eligible++;
    if (fail_at > 0 && ((long)st.eligible == fail_at || (fail_sticky && (long)st.eligible > fail_at))){
        st.failed++;
        sim_ev(0xFA11 + st.eligible);
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

static void *track(size_t size, size_t align, int cls, void *pc, void **fp, int zero){
    if (must_fail(cls)) return 0;
    size_t front = align > FRONT ? align : FRONT;
    if (size > (1ull << 40)){ errno = ENOMEM; return 0; }
    void *base = align > 16 ? __libc_memalign(align, size + front + BACK) : __libc_malloc(size + front + BACK);
    if (!base) return 0;
    char *p = (char *)base + front;
    memset(p - FRONT, CAN, FRONT);
    memset(p + size, CAN, BACK);
    if (zero) memset(p, 0, size); else if (!light) fill(p, size);
    if (nlive > TN - TN / 4) sim_die("too many live blocks");
    uint32_t i = hsh(p);
    while (T[i].ptr) i = (i + 1) & (TN - 1);
    blk_t *b = &T[i];
    memset(b, 0, sizeof *b);
    b->ptr = p; b->base = base; b->size = size; b->cls = (uint32_t)cls; b->seq = ++seq; b->pc[0] = pc;
    if (fp) unwind(b, fp);
    nlive++; live_bytes += size;
    if (nlive > st.live_hw) st.live_hw = nlive;
    if (cls == 1) st.n1++; else st.n2++;
    st.bytes += size;
    if (unlikely(sim_in_team)){ sim_hb_clear(p, size); }
    return p;
}

static int untrack(void *ptr, void *pc){
    blk_t *b = find(ptr);
    if (!b){
        if (Q && classify(pc)) for (unsigned i = qh; i != qt; ++i) if (Q[i % QN].ptr == ptr){
            char a[300], c[300]; sim_snprint_pc(a, sizeof a, pc); sim_snprint_pc(c, sizeof c, Q[i % QN].fpc);
            st.dbl++;
            sim_violation("double-free", "block released at %s was already released at %s", a, c);
            return 1;
        }
        return 0;
    }
    check_canary(b, pc);
    if (unlikely(sim_in_team)) sim_hb_clear(b->ptr, b->size);
    if (light){
        void *base = b->base;
        nlive--; live_bytes -= b->size;
        tbl_del(b);
        st.frees++;
        __libc_free(base);
        return 1;
    }
    poison(b->ptr, b->size);
    Q[qt++ % QN] = (q_t){ b->base, b->ptr, b->size, b->pc[0], pc };
    qbytes += b->size;
    nlive--; live_bytes -= b->size;
    tbl_del(b);
    st.frees++;
    while (qt - qh >= QN - 1 || qbytes > QBYTES) q_pop();
    return 1;
}

/* ------------------------------------------------------------- interposed entry points */
#define FP __builtin_frame_address(0)
#define RA __builtin_return_address(0)
EXPORT NOINLINE void *malloc(size_t n){
    if (likely(!on)) return __libc_malloc(n);
    int c = classify(RA);
    if (!c) return __libc_malloc(n);
    sim_yield_ext(5);
    return track(n, 16, c, RA, *(void ***)FP, 0);
}
EXPORT NOINLINE void *calloc(size_t a, size_t b){
    if (likely(!on)) return __libc_calloc(a, b);
    int c = classify(RA);
    if (!c) return __libc_calloc(a, b);
    sim_yield_ext(5);
    if (b && a > (size_t)-1 / b){ errno = ENOMEM; return 0; }
    return track(a * b, 16, c, RA, *(void ***)FP, 1);
}
EXPORT NOINLINE void free(void *p){
    if (!p) return;
    if (likely(!T)){ __libc_free(p); return; }
    int e = errno;
    if (on && classify(RA)) sim_yield_ext(5);
    if (!untrack(p, RA)) __libc_free(p);
    errno = e;
}
EXPORT NOINLINE void *realloc(void *p, size_t n){
    if (likely(!T)) return __libc_realloc(p, n);
    blk_t *b = p ? find(p) : 0;
    int c = on ? classify(RA) : 0;
    if (!b && !c) return __libc_realloc(p, n);
    if (p && !b) return __libc_realloc(p, n);      /* from before tracking started */
    if (b && n == 0){ free(p); return 0; }
    if (b) c = (int)b->cls;
    void *q = track(n, 16, c, RA, *(void ***)FP, 0);
    if (!q) return 0;
    if (b){
        b = find(p);
        memcpy(q, p, b->size < n ? b->size : n);
        untrack(p, RA);
    }
    return q;
}
EXPORT void *reallocarray(void *p, size_t a, size_t b){
    if (b && a > (size_t)-1 / b){ errno = ENOMEM; return 0; }
    return realloc(p, a * b);
}
EXPORT NOINLINE void *memalign(size_t al, size_t n){
    int c = on ? classify(RA) : 0;
    if (!c) return __libc_memalign(al, n);
    return track(n, al, c, RA, *(void ***)FP, 0);
}
EXPORT NOINLINE void *aligned_alloc(size_t al, size_t n){
    int c = on ? classify(RA) : 0;
    if (!c) return __libc_memalign(al, n);
    return track(n, al, c, RA, *(void ***)FP, 0);
}
EXPORT NOINLINE int posix_memalign(void **out, size_t al, size_t n){
    int c = on ? classify(RA) : 0;
    void *p = c ? track(n, al, c, RA, *(void ***)FP, 0) : __libc_memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
EXPORT size_t malloc_usable_size(void *p);
EXPORT size_t malloc_usable_size(void *p){
    static size_t (*real)(void *);
    if (T && p){ blk_t *b = find(p); if (b) return b->size; }
    if (!real){ extern void *dlsym(void *, const char *); real = (size_t (*)(void *))dlsym((void *)-1l, "malloc_usable_size"); }
    return real(p);
}
/* fftw has its own aligned allocator on top of memalign: classified through libfftw3 */

/* ------------------------------------------------------------------- control */
void sim_mem_reset(uint64_t s){ R.s = s; memset(&st, 0, sizeof st); fail_at = -1; fail_sticky = 0; }
void sim_mem_config(const char *k, const char *v){
    if (!strcmp(k, "on")){
        if (atoi(v)){
            if (!T){ T = sysmap(TN * sizeof *T); Q = sysmap(QN * sizeof *Q); }
            rescan();
            on = 1;
        } else on = 0;
    }
    else if (!strcmp(k, "fill")) fill_mode = atoi(v);
    else if (!strcmp(k, "fail_at")) { fail_at = atol(v); st.eligible = 0; st.failed = 0; }
    else if (!strcmp(k, "fail_mask")) fail_mask = atoi(v);
    else if (!strcmp(k, "fail_sticky")) fail_sticky = atoi(v);
    else if (!strcmp(k, "light")) light = atoi(v);   /* count and fail requests only: no fill, no poison, no quarantine */
    else if (!strcmp(k, "libc")) libc_too = atoi(v);     /* requests the C library makes for itself count as class 4; to be set before `on` */
    else if (!strcmp(k, "class1")) snprintf(names1, sizeof names1, "%.500s", v);
    else sim_die("mem.%s", k);
}
int sim_mem_stats(char *b, size_t n){
    return snprintf(b, n, "\"own\":%lu,\"lib\":%lu,\"frees\":%lu,\"bytes\":%lu,\"failed\":%lu,\"eligible\":%lu,\"live\":%zu,\"live_bytes\":%zu,\"highwater\":%lu,\"dbl\":%lu,\"canary\":%lu,\"uaf\":%lu",
        st.n1, st.n2, st.frees, st.bytes, st.failed, st.eligible, nlive, live_bytes, st.live_hw, st.dbl, st.canary, st.uaf);
}
EXPORT uint32_t sim_mem_mark(void){ return seq; }
EXPORT unsigned long sim_mem_eligible(void){ return st.eligible; }
EXPORT unsigned long sim_mem_failed(void){ return st.failed; }
/* live tracked blocks younger than `mark`: one line each "size class pc pc pc" */
EXPORT long sim_mem_live(uint32_t mark, char *buf, long n){
    long cnt = 0, l = 0;
    if (n) buf[0] = 0;
    if (!T) return 0;
    for (uint32_t i = 0; i < TN; ++i) if (T[i].ptr && T[i].seq > mark){
        cnt++;
        if (l < n - 1024){
            l += snprintf(buf + l, (size_t)(n - l), "%zu %u", T[i].size, T[i].cls);
            for (int d = 0; d < DEPTH && T[i].pc[d]; ++d){
                char a[300]; sim_snprint_pc(a, sizeof a, T[i].pc[d]);
                l += snprintf(buf + l, (size_t)(n - l), " %s", a);
            }
            l += snprintf(buf + l, (size_t)(n - l), "\n");
        }
    }
    return cnt;
}
EXPORT void sim_mem_check(void){ if (T) for (uint32_t i = 0; i < TN; ++i) if (T[i].ptr) check_canary(&T[i], 0); }
