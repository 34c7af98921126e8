/* Deterministic simulation runtime: shared declarations. */
#ifndef SIMRT_H
#define SIMRT_H
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

#define SIM_MAXT 16            /* simulated worker threads per team */
#define NOINLINE __attribute__((noinline))
#define EXPORT __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

/* ---- PRNG: one splitmix64 stream per purpose, all derived from one seed ---- */
typedef struct { uint64_t s; } rng_t;
static inline uint64_t rng_next(rng_t *r){
    uint64_t z = (r->s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline uint64_t rng_mix(uint64_t a, uint64_t b){
    rng_t r = { a ^ (b * 0xD6E8FEB86659FD93ull) };
    rng_next(&r);
    return rng_next(&r);
}
static inline uint64_t rng_below(rng_t *r, uint64_t n){ return n ? rng_next(r) % n : 0; }
static inline double rng_unit(rng_t *r){ return (rng_next(r) >> 11) * (1.0 / 9007199254740992.0); }

/* ---- violations found inside the runtime (races, deadlock, heap misuse) ---- */
void sim_violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
int sim_snprint_pc(char *buf, size_t n, void *pc);
extern uint64_t sim_hash;                   /* rolling hash of every simulator event */
static inline void sim_ev(uint64_t v){ sim_hash = (sim_hash ^ v) * 0x100000001B3ull; sim_hash ^= sim_hash >> 29; }

/* raw output that neither allocates nor goes through an interposed call */
void sim_raw_write(int fd, const void *p, size_t n);
void sim_die(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void sim_flush_stats(void);

/* ---- threads ---- */
extern int sim_in_team;                     /* a simulated team with >1 threads is running */
int sim_cur_thread(void);
void sim_yield_ext(int kind);               /* yield point outside instrumented memory accesses */
void sim_hb_access(const void *addr, size_t size, int is_write, void *pc);
void sim_hb_clear(const void *addr, size_t size);
void sim_omp_config(const char *key, const char *val);
int sim_omp_stats(char *buf, size_t n);
void sim_omp_reset(uint64_t seed);

/* ---- memory ---- */
void sim_mem_config(const char *key, const char *val);
int sim_mem_stats(char *buf, size_t n);
void sim_mem_reset(uint64_t seed);

/* ---- files and clock ---- */
void sim_io_config(const char *key, const char *val);
int sim_io_stats(char *buf, size_t n);
void sim_io_reset(uint64_t seed);
void sim_clock_config(const char *key, const char *val);
int sim_clock_stats(char *buf, size_t n);
void sim_clock_reset(uint64_t seed);
#endif
void sim_clock_io(long);
void sim_clock_region(long);
