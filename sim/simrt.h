/* Deterministic simulation runtime: fibers, virtual time, decisions, faults, results. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

#define MS 1000000ULL
#define SEC 1000000000ULL
#define NEVER UINT64_MAX

/* ---- PRNG streams: independent so that one kind of choice does not shift another ---- */
enum stream { R_CFG, R_GEN, R_SCHED, R_TIME, R_FAULT, R_WORLD, R_NSTREAM };
u64 rnd(enum stream s);
u32 rndn(enum stream s, u32 n);              /* [0,n) */
u32 rndr(enum stream s, u32 lo, u32 hi);     /* [lo,hi] */
bool rndp(enum stream s, u32 num, u32 den);  /* true with num/den */
u64 rndlog(enum stream s, u64 lo, u64 hi);   /* log-uniform */

/* draw from a generator seeded with v until sim_unsubseed */
void sim_subseed(enum stream s, u64 v);
void sim_unsubseed(enum stream s);

/* ---- faults ---- */
enum fkind {
        F_ALLOC,      /* malloc & co return NULL */
        F_THREAD,     /* pthread_create EAGAIN */
        F_SPURIOUS,   /* spurious condition variable wake-up */
        F_EINTR,      /* interrupted system call */
        F_EAGAIN,     /* would-block although ready */
        F_SHORT,      /* short transfer */
        F_IOERR,      /* host call fails with an errno */
        F_EMFILE,     /* descriptor exhaustion */
        F_STALL,      /* thread is stalled for a while */
        F_CLOCKJUMP,  /* realtime clock step */
        F_RESTART,    /* injected execution restart */
        F_INTR,       /* embedder raises its interrupt flag */
        F_RANDOM,     /* getrandom short/EINTR */
        F_LATE,       /* timer fires late */
        F_DISCARD,    /* lost write: data accepted but dropped (unused on sync'ed data) */
        F_NKIND
};
extern const char *const fkind_name[F_NKIND];
/* 0 = no fault, otherwise a positive value chosen for this firing */
u32 sim_fault(enum fkind k);

struct sim_cfg {
        u32 prob[F_NKIND];       /* per 2^20 */
        u32 maxf[F_NKIND];       /* max firings, 0 = unlimited */
        bool fault_on;           /* master gate */
        u64 alloc_nth;           /* fail exactly this allocation (1-based), 0 = off */
        bool alloc_persist;      /* ... and all later ones */
        size_t alloc_min;        /* smaller requests do not fail */
        bool alloc_gated;        /* only allocations of fibers with sim_alloc_gate fail */
        /* scheduling */
        int strategy;            /* 0 random walk, 1 pct-like, 2 run-to-block */
        u32 p_sync;              /* preempt probability at sync points, per 1024 */
        u32 gap_cold, gap_hot;   /* mean accesses between preemptions; 0 = never */
        u64 tick_ps;             /* virtual picoseconds per instrumented access */
        u64 clock_read_ns;       /* virtual ns per clock read */
        u64 syscall_ns;          /* virtual ns per host call */
        u64 max_ticks;           /* progress bound: instrumented accesses */
        u64 max_vtime;           /* progress bound: virtual ns */
        u32 check_interval;      /* initial interrupt check interval */
        bool quiet_restart;      /* hook restarts off */
};
extern struct sim_cfg cfg;

/* ---- results shared with the parent ---- */
#define MAXDEC 400000
#define NPROBE 96
#define COVSZ 65536
struct dec {
        u8 type; /* 'S' or 'F' */
        u8 kind;
        u32 val;
        u64 key;
};
enum { ST_RUN, ST_OK, ST_VIOL, ST_SKIP };
struct sim_shm {
        volatile int status;
        char kind[64];
        char msg[6000];
        u64 trace_hash, sched_hash, ticks, vtime, nswitch, nfibers, nops, nsys, nalloc;
        u64 fault_count[F_NKIND], fault_site[F_NKIND];
        u64 probe[NPROBE];
        u64 cfg_hash;
        u32 ndec, dec_overflow;
        u32 genops; /* number of maskable operations generated */
        char sample[3000];
        u8 cov[COVSZ];  /* edges */
        u8 pairs[COVSZ]; /* preemption pairs */
        struct dec dec[MAXDEC];
};
extern struct sim_shm *shm;

/* probes: named rare conditions */
int probe_id(const char *name);
#define PROBE(name) do { static int id_ = -1; if (id_ < 0) id_ = probe_id(name); shm->probe[id_]++; } while (0)
/* survives across the runs of a batch */
struct sim_pers {
        int nprobes;
        char probe_names[NPROBE][40];
};
extern struct sim_pers *pers;

/* ---- violations ---- */
void sim_violation(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_trace(u64 a, u64 b, u64 c); /* fold into the trace hash */
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern int sim_verbose;
void sim_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
u64 hash64(u64 h, u64 v);
u64 hash_bytes(u64 h, const void *p, size_t n);

/* ---- time ---- */
u64 sim_now(void);          /* monotonic virtual ns */
u64 sim_realtime(void);
extern i64 sim_rt_off;
void sim_advance(u64 ns);

/* ---- fibers ---- */
struct fiber;
typedef void (*fiber_fn)(void *);
struct fiber *sim_spawn(const char *name, fiber_fn fn, void *arg, bool actor);
int sim_fiber_id(void);
bool sim_fiber_done(struct fiber *);
/* block until pred(arg) or the monotonic deadline; 0 or ETIMEDOUT */
int sim_block(bool (*pred)(void *), void *arg, u64 deadline, const char *what);
void sim_sleep(u64 ns);
bool sim_cond_blocked(int fid, u64 *deadline);
void sim_sync_point(void);
void sim_join_all(void); /* wait until all non-actor fibers other than the caller are done */
int sim_live_threads(void);
void sim_kill_actors(void);
extern u64 sim_ticks;
#define MAXFIB 256
extern bool sim_alloc_gate[MAXFIB];
extern u32 sim_fiber_faults[MAXFIB]; /* allocation and thread creation failures met */
extern u64 sim_stalled; /* total virtual ns of injected stalls */

/* ops mask (minimisation) */
bool sim_op_enabled(u32 idx);
u32 sim_op_next(void);

/* memory ledger */
size_t sim_live_bytes(void);
size_t sim_live_blocks(void);
u64 sim_alloc_count(void);
void sim_check_leaks(const char *where);
/* allocations on behalf of memory contexts */
extern u64 sim_charged_cap; /* a violation when exceeded */
size_t sim_charged_bytes(size_t *blocks);
bool sim_block_size(const void *p, size_t *sz);
struct alloc_mark { u64 seq; };
struct alloc_mark sim_alloc_mark(void);
size_t sim_live_since(struct alloc_mark m, char *buf, size_t bufsz);

/* world reset (simfs.c) */
void world_init(void);

/* ---- run control (main.c) ---- */
struct scenario {
        const char *name;
        void (*run)(void);
        void (*config)(void); /* adjust cfg for this scenario (optional) */
};
extern const struct scenario scenarios[];
extern const int nscenarios;
extern u64 sim_seed, sim_index;

void sim_start(void);
void sim_set_replay(struct dec *d, u32 n);
void sim_set_opmask(u8 *m, u32 n);
u32 sim_nguards(void);
int sim_unreleased_threads(void);
void sim_run_root(fiber_fn fn, void *arg);
void sim_default_cfg(void);
extern bool sim_replaying;

#endif
