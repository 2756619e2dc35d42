/* Deterministic simulation runtime: fibers, virtual time, decisions, faults. */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include "simrt.h"

struct sim_shm *shm;
struct sim_cfg cfg;
u64 sim_seed, sim_index;
int sim_verbose;
bool sim_replaying;

const char *const fkind_name[F_NKIND] = {
        "alloc-fail", "thread-create-fail", "spurious-wakeup", "eintr", "eagain", "short-io", "io-error", "fd-exhaustion",
        "stall", "clock-jump", "restart", "user-interrupt", "getrandom-fault", "late-timer", "discard",
};

/* ------------------------------------------------------------------ hash / prng */
u64
hash64(u64 h, u64 v)
{
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h ^= h >> 32;
        h *= 0xd6e8feb86659fd93ULL;
        h ^= h >> 32;
        return h;
}

u64
hash_bytes(u64 h, const void *p, size_t n)
{
        const u8 *b = p;
        for (size_t i = 0; i < n; i++) {
                h = (h ^ b[i]) * 0x100000001b3ULL;
        }
        return hash64(h, n);
}

static u64 rs[R_NSTREAM];

static u64
splitmix(u64 *x)
{
        u64 z = (*x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
}

static u64 rs_saved[R_NSTREAM];
void
sim_subseed(enum stream s, u64 v)
{
        rs_saved[s] = rs[s];
        rs[s] = v;
}
void
sim_unsubseed(enum stream s)
{
        rs[s] = rs_saved[s];
}

u64
rnd(enum stream s)
{
        return splitmix(&rs[s]);
}

u32
rndn(enum stream s, u32 n)
{
        if (n == 0) {
                return 0;
        }
        return (u32)((rnd(s) >> 32) * (u64)n >> 32);
}

u32
rndr(enum stream s, u32 lo, u32 hi)
{
        return lo + rndn(s, hi - lo + 1);
}

bool
rndp(enum stream s, u32 num, u32 den)
{
        return rndn(s, den) < num;
}

u64
rndlog(enum stream s, u64 lo, u64 hi)
{
        double u = (double)(rnd(s) >> 11) / 9007199254740992.0;
        double v = exp(log((double)lo) + u * (log((double)hi) - log((double)lo)));
        u64 r = (u64)v;
        return r < lo ? lo : r > hi ? hi : r;
}

static void
prng_init(void)
{
        for (int i = 0; i < R_NSTREAM; i++) {
                u64 x = hash64(hash64(sim_seed, sim_index), i + 1);
                splitmix(&x);
                rs[i] = x;
        }
}

/* ------------------------------------------------------------------ log */
void
sim_log(const char *fmt, ...)
{
        if (!sim_verbose) {
                return;
        }
        va_list ap;
        va_start(ap, fmt);
        fprintf(stderr, "[%12llu ns t%llu f%d] ", (unsigned long long)sim_now(), (unsigned long long)sim_ticks, sim_fiber_id());
        vfprintf(stderr, fmt, ap);
        fputc('\n', stderr);
        va_end(ap);
}

void
sim_sample(const char *fmt, ...)
{
        size_t l = strlen(shm->sample);
        if (l >= sizeof(shm->sample) - 1) {
                return;
        }
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(shm->sample + l, sizeof(shm->sample) - l, fmt, ap);
        va_end(ap);
}

struct sim_pers *pers;
int
probe_id(const char *name)
{
        for (int i = 0; i < pers->nprobes; i++) {
                if (!strcmp(pers->probe_names[i], name)) {
                        return i;
                }
        }
        if (pers->nprobes >= NPROBE) {
                return NPROBE - 1;
        }
        snprintf(pers->probe_names[pers->nprobes], sizeof(pers->probe_names[0]), "%s", name);
        return pers->nprobes++;
}

void
sim_trace(u64 a, u64 b, u64 c)
{
        shm->trace_hash = hash64(hash64(hash64(shm->trace_hash, a), b), c);
}

static void
finish_stats(void)
{
        shm->ticks = sim_ticks;
        shm->vtime = sim_now() - 5 * SEC;
        shm->nalloc = sim_alloc_count();
        shm->trace_hash = hash64(hash64(shm->trace_hash, shm->ticks), shm->vtime);
}

void
sim_violation(const char *kind, const char *fmt, ...)
{
        va_list ap;
        va_start(ap, fmt);
        snprintf(shm->kind, sizeof(shm->kind), "%s", kind);
        vsnprintf(shm->msg, sizeof(shm->msg), fmt, ap);
        va_end(ap);
        finish_stats();
        shm->status = ST_VIOL;
        if (sim_verbose) {
                fprintf(stderr, "VIOLATION %s: %s\n", shm->kind, shm->msg);
                __sanitizer_print_stack_trace();
        }
        _exit(3);
}

/* ------------------------------------------------------------------ time */
u64 sim_ticks;
static u64 time_base;  /* ns accumulated by explicit advances */
static u64 tick_acc_ps;
static u64 tick_seen;
i64 sim_rt_off;

u64
sim_now(void)
{
        u64 d = sim_ticks - tick_seen;
        tick_seen = sim_ticks;
        tick_acc_ps += d * cfg.tick_ps;
        time_base += tick_acc_ps / 1000;
        tick_acc_ps %= 1000;
        return time_base;
}

u64
sim_realtime(void)
{
        return (u64)((i64)sim_now() + sim_rt_off);
}

void
sim_advance(u64 ns)
{
        sim_now();
        time_base += ns;
}

/* ------------------------------------------------------------------ decisions */
static struct dec *rep; /* replay decisions */
static u32 nrep;
static u32 rep_p;       /* next tick preemption */
static u64 sim_nev;

static void
record(u8 type, u8 kind, u64 key, u32 val)
{
        if (shm->ndec < MAXDEC) {
                struct dec *d = &shm->dec[shm->ndec++];
                d->type = type;
                d->kind = kind;
                d->key = key;
                d->val = val;
        } else {
                shm->dec_overflow++;
        }
}

void
sim_set_replay(struct dec *d, u32 n)
{
        rep = d;
        nrep = n;
        sim_replaying = true;
}

/* replay indexes are sorted by the parser: preemptions by tick, events by key, faults by (kind,key) */
static const struct dec *
rep_find(u8 type, u8 kind, u64 key)
{
        u32 lo = 0, hi = nrep;
        while (lo < hi) {
                u32 m = (lo + hi) / 2;
                const struct dec *d = &rep[m];
                int c = d->type != type ? (d->type < type ? -1 : 1)
                        : d->kind != kind ? (d->kind < kind ? -1 : 1)
                                          : d->key < key ? -1 : d->key > key;
                if (c == 0) {
                        return d;
                }
                if (c < 0) {
                        lo = m + 1;
                } else {
                        hi = m;
                }
        }
        return NULL;
}

bool sim_alloc_gate[MAXFIB];
u32 sim_fiber_faults[MAXFIB];
u64 sim_stalled;

u32
sim_fault(enum fkind k)
{
        if (k == F_ALLOC && cfg.alloc_gated && !sim_alloc_gate[sim_fiber_id() & (MAXFIB - 1)]) {
                return 0;
        }
        u64 nth = ++shm->fault_site[k];
        u32 v = 0;
        if (sim_replaying) {
                const struct dec *d = rep_find('F', k, nth);
                if (d != NULL) {
                        v = d->val;
                }
        } else if (cfg.fault_on && cfg.prob[k] != 0 && (cfg.maxf[k] == 0 || shm->fault_count[k] < cfg.maxf[k])) {
                u64 r = rnd(R_FAULT);
                if ((r & 0xfffff) < cfg.prob[k]) {
                        v = (u32)((r >> 24) & 0x7fffffff) | 1;
                        v = v == 0 ? 1 : v;
                }
        }
        if (!sim_replaying && k == F_ALLOC && cfg.alloc_nth != 0 && cfg.fault_on) {
                if (nth == cfg.alloc_nth || (cfg.alloc_persist && nth > cfg.alloc_nth)) {
                        v = 1;
                }
        }
        if (v != 0) {
                if (k == F_ALLOC || k == F_THREAD) {
                        sim_fiber_faults[sim_fiber_id() & (MAXFIB - 1)]++;
                }
                shm->fault_count[k]++;
                if (k != F_ALLOC || shm->fault_count[k] < 2000) {
                        record('F', k, nth, v);
                }
                sim_trace(0xfa, k, nth);
                sim_log("FAULT %s #%llu v=%u", fkind_name[k], (unsigned long long)nth, v);
        }
        return v;
}

/* ------------------------------------------------------------------ fibers */
#define STKSZ (256 * 1024)
enum fstate { FS_READY, FS_BLOCKED, FS_DONE };
struct fiber {
        int id;
        enum fstate state;
        bool actor;
        bool detached;
        bool joined;
        const char *name;
        void *sp;
        u8 *stk;
        void *fake;
        fiber_fn fn;
        void *arg;
        int err;
        bool (*pred)(void *);
        void *predarg;
        u64 deadline;
        const char *what;
        i64 prio;
        void *retval;
        void *(*pfn)(void *);
};
static struct fiber *fibs[MAXFIB];
static int nfib;
static struct fiber *cur;
static void *root_sp;
static const void *root_bottom;
static size_t root_size;
static u64 last_switch_tick;
static u64 sim_next_event; /* tick at which slow path runs */
static long bud_cold;
static u64 next_hot;
static u32 last_guard;
static i64 pct_next_low;

void sim_swap(void **save, void *to);
__asm__(".text\n.globl sim_swap\n.type sim_swap,@function\nsim_swap:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
        ".size sim_swap,.-sim_swap\n");

int
sim_fiber_id(void)
{
        return cur != NULL ? cur->id : -1;
}

bool
sim_fiber_done(struct fiber *f)
{
        return f->state == FS_DONE;
}

static long
geo(u32 mean)
{
        if (mean == 0) {
                return 1L << 60;
        }
        double u = ((double)(rnd(R_SCHED) >> 11) + 1) / 9007199254740993.0;
        long g = 1 + (long)(-log(u) * mean);
        return g;
}

#define QUANTUM 300000

static void
plan_next(void)
{
        u64 q = last_switch_tick + QUANTUM;
        if (q <= sim_ticks) {
                q = sim_ticks + QUANTUM;
        }
        if (sim_replaying) {
                bud_cold = 1L << 60;
                while (rep_p < nrep && rep[rep_p].type == 'S' && rep[rep_p].kind == 0 && rep[rep_p].key <= sim_ticks) {
                        rep_p++;
                }
                u64 t = NEVER;
                if (rep_p < nrep && rep[rep_p].type == 'S' && rep[rep_p].kind == 0) {
                        t = rep[rep_p].key;
                }
                sim_next_event = t < q ? t : q;
                return;
        }
        sim_next_event = next_hot < q ? next_hot : q;
}

static bool
fiber_runnable(struct fiber *f)
{
        if (f->state == FS_READY) {
                return true;
        }
        if (f->state == FS_BLOCKED) {
                if (f->pred != NULL && f->pred(f->predarg)) {
                        return true;
                }
                if (f->deadline != NEVER && f->deadline <= sim_now()) {
                        return true;
                }
        }
        return false;
}

static void
after_switch(void)
{
        /* running on cur's stack now */
        __sanitizer_finish_switch_fiber(cur->fake, NULL, NULL);
        errno = cur->err;
}

static void
switch_to(struct fiber *f)
{
        struct fiber *from = cur;
        if (f == from) {
                return;
        }
        from->err = errno;
        shm->nswitch++;
        u32 g = last_guard;
        shm->sched_hash = hash64(hash64(shm->sched_hash, ((u64)from->id << 32) | f->id), g);
        shm->trace_hash = hash64(hash64(shm->trace_hash, ((u64)from->id << 32) | f->id), sim_ticks);
        static u32 resume_guard[MAXFIB];
        resume_guard[from->id] = g;
        u64 ph = hash64(g, resume_guard[f->id]);
        shm->pairs[ph % COVSZ] = 1;
        last_switch_tick = sim_ticks;
        plan_next();
        cur = f;
        __sanitizer_start_switch_fiber(from->state == FS_DONE ? NULL : &from->fake, f->stk, STKSZ);
        sim_swap(&from->sp, f->sp);
        after_switch();
}

static void
dump_fibers(char *buf, size_t sz)
{
        size_t l = 0;
        for (int i = 0; i < nfib && l < sz; i++) {
                struct fiber *f = fibs[i];
                if (f->state == FS_DONE) {
                        continue;
                }
                l += snprintf(buf + l, sz - l, " [%d %s %s%s%s dl=%lld]", f->id, f->name, f->state == FS_READY ? "ready" : "blocked:",
                              f->state == FS_BLOCKED && f->what ? f->what : "", f->actor ? " actor" : "",
                              f->deadline == NEVER ? -1LL : (long long)f->deadline);
        }
}

static void
check_caps(void)
{
        static bool done;
        if (done) {
                return;
        }
        if (sim_ticks > cfg.max_ticks || sim_now() > cfg.max_vtime) {
                char b[1500];
                done = true;
                dump_fibers(b, sizeof(b));
                sim_violation("no-progress", "run did not finish within bound: ticks=%llu vtime=%llums;%s", (unsigned long long)sim_ticks,
                              (unsigned long long)(sim_now() / MS), b);
        }
}

/* choose a runnable fiber; cur may or may not be runnable. */
static struct fiber *
pick(bool must_leave, bool voluntary)
{
        struct fiber *run[MAXFIB];
        int n = 0;
        u64 ev = sim_nev++;
        check_caps();
again:
        n = 0;
        for (int i = 0; i < nfib; i++) {
                struct fiber *f = fibs[i];
                if (f == cur && must_leave) {
                        continue;
                }
                if (f == cur && !voluntary) {
                        /* cur is running and could continue */
                        run[n++] = f;
                        continue;
                }
                if (fiber_runnable(f)) {
                        run[n++] = f;
                }
        }
        if (n == 0) {
                u64 best = NEVER;
                for (int i = 0; i < nfib; i++) {
                        struct fiber *f = fibs[i];
                        if (f->state == FS_BLOCKED && f->deadline < best) {
                                best = f->deadline;
                        }
                }
                if (best == NEVER) {
                        char b[2500];
                        b[0] = 0;
                        dump_fibers(b, sizeof(b));
                        sim_violation("deadlock", "all threads are blocked forever:%s", b);
                }
                u64 now = sim_now();
                if (best > now) {
                        sim_advance(best - now);
                }
                check_caps();
                goto again;
        }
        /* default: continue cur if possible, else the next id in round-robin order */
        struct fiber *def = NULL;
        if (!voluntary && !must_leave) {
                def = cur;
        } else {
                for (int i = 0; i < n; i++) {
                        if (run[i]->id > cur->id) {
                                def = run[i];
                                break;
                        }
                }
                if (def == NULL) {
                        def = run[0];
                }
        }
        struct fiber *c = def;
        if (sim_replaying) {
                const struct dec *d = rep_find('S', 1, ev);
                if (d != NULL) {
                        for (int i = 0; i < n; i++) {
                                if ((u32)run[i]->id == d->val) {
                                        c = run[i];
                                }
                        }
                }
        } else if (cfg.strategy == 1) {
                c = run[0];
                for (int i = 1; i < n; i++) {
                        if (run[i]->prio > c->prio) {
                                c = run[i];
                        }
                }
        } else {
                c = run[rndn(R_SCHED, n)];
        }
        if (c != def || sim_replaying) {
                if (c != def) {
                        record('S', 1, ev, c->id);
                }
        }
        return c;
}

/* possible preemption at a synchronisation point or host call */
void
sim_sync_point(void)
{
        if (cur == NULL) {
                return;
        }
        bool go;
        if (cfg.strategy == 1 || sim_replaying) {
                go = true;
        } else {
                go = rndn(R_SCHED, 1024) < cfg.p_sync;
        }
        int e = errno;
        if (go) {
                struct fiber *f = pick(false, false);
                if (f != cur) {
                        switch_to(f);
                }
        } else {
                sim_nev++;
                check_caps();
        }
        if (!cur->actor) {
                u32 v = sim_fault(F_STALL);
                if (v != 0) {
                        u64 ns = 1 + (u64)(v % 3000) * MS / 2;
                        sim_stalled += ns;
                        sim_sleep(ns);
                }
        }
        errno = e;
}

/* slow path of the access callbacks */
static void __attribute__((noinline))
slow(bool cold)
{
        if (cur == NULL) {
                sim_next_event = NEVER;
                bud_cold = 1L << 60;
                return;
        }
        int e = errno;
        check_caps();
        struct fiber *run[MAXFIB];
        int n = 0;
        bool forced = sim_ticks - last_switch_tick >= QUANTUM;
        for (int i = 0; i < nfib; i++) {
                if (fibs[i] != cur && fiber_runnable(fibs[i])) {
                        run[n++] = fibs[i];
                }
        }
        struct fiber *c = NULL;
        if (sim_replaying) {
                if (rep_p < nrep && rep[rep_p].type == 'S' && rep[rep_p].kind == 0 && rep[rep_p].key <= sim_ticks) {
                        u32 want = rep[rep_p].val;
                        rep_p++;
                        for (int i = 0; i < n; i++) {
                                if ((u32)run[i]->id == want) {
                                        c = run[i];
                                }
                        }
                }
        } else {
                if (n > 0) {
                        bool hit = cold ? bud_cold <= 0 : sim_ticks >= next_hot;
                        if (hit) {
                                if (cfg.strategy == 1) {
                                        /* PCT: demote the current fiber */
                                        cur->prio = --pct_next_low;
                                        c = run[0];
                                        for (int i = 1; i < n; i++) {
                                                if (run[i]->prio > c->prio) {
                                                        c = run[i];
                                                }
                                        }
                                } else {
                                        c = run[rndn(R_SCHED, n)];
                                }
                        }
                }
                if (cold) {
                        if (bud_cold <= 0) {
                                bud_cold = geo(cfg.gap_cold);
                        }
                } else if (sim_ticks >= next_hot) {
                        next_hot = sim_ticks + geo(cfg.gap_hot);
                }
        }
        if (c == NULL && forced && n > 0) {
                for (int i = 0; i < n; i++) {
                        if (run[i]->id > cur->id) {
                                c = run[i];
                                break;
                        }
                }
                if (c == NULL) {
                        c = run[0];
                }
                if (cfg.strategy == 1) {
                        cur->prio = --pct_next_low;
                }
        }
        if (forced && c == NULL) {
                last_switch_tick = sim_ticks;
        }
        if (c != NULL) {
                record('S', 0, sim_ticks, c->id);
                if (!forced) {
                        PROBE("access-preemption");
                }
                switch_to(c);
        }
        plan_next();
        errno = e;
}

#define COLD(fn) \
        void fn(void *p) \
        { \
                sim_ticks++; \
                if (__builtin_expect(--bud_cold <= 0, 0)) \
                        slow(true); \
                else if (__builtin_expect(sim_ticks >= sim_next_event, 0)) \
                        slow(false); \
        }
#define HOTF(fn) \
        void fn(void *p) \
        { \
                if (__builtin_expect(++sim_ticks >= sim_next_event, 0)) \
                        slow(false); \
        }
COLD(__sanitizer_cov_load1)
COLD(__sanitizer_cov_load2)
COLD(__sanitizer_cov_load4)
COLD(__sanitizer_cov_load8)
COLD(__sanitizer_cov_load16)
COLD(__sanitizer_cov_store1)
COLD(__sanitizer_cov_store2)
COLD(__sanitizer_cov_store4)
COLD(__sanitizer_cov_store8)
COLD(__sanitizer_cov_store16)
HOTF(simhot_cov_load1)
HOTF(simhot_cov_load2)
HOTF(simhot_cov_load4)
HOTF(simhot_cov_load8)
HOTF(simhot_cov_load16)
HOTF(simhot_cov_store1)
HOTF(simhot_cov_store2)
HOTF(simhot_cov_store4)
HOTF(simhot_cov_store8)
HOTF(simhot_cov_store16)

static u32 nguards;
void
__sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
        if (start == stop || *start) {
                return;
        }
        for (uint32_t *x = start; x < stop; x++) {
                *x = ++nguards;
        }
}
static u64 nblocks;
static u8 cov_dummy[COVSZ];
static u8 *cov_map = cov_dummy;
void
__sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
        last_guard = *guard;
        cov_map[*guard & (COVSZ - 1)] = 1;
        if (__builtin_expect(++nblocks > 4000000000ULL, 0)) {
                nblocks = 0;
                sim_violation("no-progress", "a run executed more than 4e9 basic blocks");
        }
}
u32
sim_nguards(void)
{
        return nguards;
}

static void fiber_entry(void);

static struct fiber *
fiber_new(const char *name, fiber_fn fn, void *arg, bool actor)
{
        if (nfib >= MAXFIB) {
                sim_violation("sim-limit", "too many fibers");
        }
        struct fiber *f = calloc(1, sizeof(*f));
        f->id = nfib;
        f->name = name;
        f->fn = fn;
        f->arg = arg;
        f->actor = actor;
        f->state = FS_READY;
        f->deadline = NEVER;
        f->stk = mmap(NULL, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (f->stk == MAP_FAILED) {
                abort();
        }
        memset(f->stk + STKSZ - 32768, 0xb5, 32768);
        void **sp = (void **)(f->stk + STKSZ - 64);
        *--sp = NULL; /* alignment: entry is reached by ret */
        *--sp = (void *)fiber_entry;
        for (int i = 0; i < 6; i++) {
                *--sp = NULL;
        }
        f->sp = sp;
        if (cfg.strategy == 1) {
                f->prio = 1000 + rndn(R_SCHED, 1000000);
        }
        fibs[nfib++] = f;
        shm->nfibers++;
        return f;
}

static void
fiber_exit(void)
{
        struct fiber *me = cur;
        me->state = FS_DONE;
        if (me->id == 0) {
                /* root fiber done: leave the simulation */
                finish_stats();
                cur = NULL;
                __sanitizer_start_switch_fiber(NULL, root_bottom, root_size);
                sim_swap(&me->sp, root_sp);
                abort();
        }
        struct fiber *f = pick(true, true);
        switch_to(f);
        abort();
}

static void
fiber_entry(void)
{
        __sanitizer_finish_switch_fiber(NULL, root_bottom == NULL ? &root_bottom : NULL, root_size == 0 ? &root_size : NULL);
        errno = 0;
        cur->fn(cur->arg);
        fiber_exit();
}

struct fiber *
sim_spawn(const char *name, fiber_fn fn, void *arg, bool actor)
{
        return fiber_new(name, fn, arg, actor);
}

int
sim_block(bool (*pred)(void *), void *arg, u64 deadline, const char *what)
{
        struct fiber *me = cur;
        if (pred != NULL && pred(arg)) {
                return 0;
        }
        u64 d0 = deadline;
        if (deadline != NEVER) {
                if (!me->actor) {
                        u32 v = sim_fault(F_LATE);
                        if (v != 0) {
                                deadline += (u64)(v % 20000) * 1000;
                        }
                }
        }
        me->state = FS_BLOCKED;
        me->pred = pred;
        me->predarg = arg;
        me->deadline = deadline;
        me->what = what;
        for (;;) {
                struct fiber *f = pick(false, true);
                if (f == me) {
                        break;
                }
                switch_to(f);
                /* we were chosen, hence runnable */
                break;
        }
        me->state = FS_READY;
        me->pred = NULL;
        me->deadline = NEVER;
        me->what = NULL;
        if (pred != NULL && pred(arg)) {
                return 0;
        }
        if (d0 != NEVER && sim_now() >= d0) {
                return ETIMEDOUT;
        }
        return 0;
}

void
sim_sleep(u64 ns)
{
        sim_block(NULL, NULL, sim_now() + ns, "sleep");
}

static bool
all_threads_done(void *vp)
{
        struct fiber *me = vp;
        for (int i = 0; i < nfib; i++) {
                if (fibs[i] != me && !fibs[i]->actor && fibs[i]->state != FS_DONE) {
                        return false;
                }
        }
        return true;
}

void
sim_join_all(void)
{
        sim_block(all_threads_done, cur, NEVER, "join-all");
}

int
sim_live_threads(void)
{
        int n = 0;
        for (int i = 0; i < nfib; i++) {
                if (fibs[i] != cur && !fibs[i]->actor && fibs[i]->state != FS_DONE) {
                        n++;
                }
        }
        return n;
}

void
sim_kill_actors(void)
{
        for (int i = 0; i < nfib; i++) {
                if (fibs[i]->actor && fibs[i] != cur) {
                        fibs[i]->state = FS_DONE;
                }
        }
}

void
sim_run_root(fiber_fn fn, void *arg)
{
        nfib = 0;
        cov_map = shm->cov;
        struct fiber *f = fiber_new("main", fn, arg, false);
        cur = f;
        bud_cold = sim_replaying ? 1L << 60 : geo(cfg.gap_cold);
        next_hot = sim_replaying ? NEVER : (u64)geo(cfg.gap_hot);
        pct_next_low = 900;
        plan_next();
        void *fake;
        __sanitizer_start_switch_fiber(&fake, f->stk, STKSZ);
        sim_swap(&root_sp, f->sp);
        __sanitizer_finish_switch_fiber(fake, NULL, NULL);
        cov_map = cov_dummy;
        sim_next_event = NEVER;
        bud_cold = 1L << 60;
}

void
sim_start(void)
{
        prng_init();
        sim_ticks = 0;
        time_base = 5 * SEC; /* uptime */
        tick_seen = 0;
        sim_rt_off = 1700000000LL * 1000000000LL;
        shm->trace_hash = 0x1234;
        shm->sched_hash = 0x4321;
}

/* ------------------------------------------------------------------ default, swarm-style configuration */
void
sim_default_cfg(void)
{
        memset(&cfg, 0, sizeof(cfg));
        cfg.fault_on = true;
        static const u32 gaps[] = {0, 3, 10, 30, 100, 300, 1000, 5000};
        cfg.strategy = rndn(R_CFG, 10);
        cfg.strategy = cfg.strategy < 6 ? 0 : cfg.strategy < 9 ? 1 : 2;
        if (cfg.strategy == 0) {
                cfg.gap_cold = gaps[rndn(R_CFG, 8)];
                cfg.gap_hot = gaps[rndn(R_CFG, 8)] * 8;
                static const u32 ps[] = {30, 100, 300, 700};
                cfg.p_sync = ps[rndn(R_CFG, 4)];
        } else if (cfg.strategy == 1) {
                cfg.gap_cold = (u32)rndlog(R_CFG, 50, 20000);
                cfg.gap_hot = (u32)rndlog(R_CFG, 1000, 200000);
        } else {
                cfg.p_sync = 5;
        }
        static const u64 tps[] = {500, 2000, 20000, 200000, 2000000};
        cfg.tick_ps = tps[rndn(R_CFG, 5)];
        cfg.clock_read_ns = rndlog(R_CFG, 1, 100000);
        cfg.syscall_ns = rndlog(R_CFG, 10, 100000);
        static const u32 ci[] = {1, 1, 2, 3, 7, 50, 1000};
        cfg.check_interval = ci[rndn(R_CFG, 7)];
        cfg.max_ticks = 60000000;
        cfg.max_vtime = 3600 * SEC;
}

/* ------------------------------------------------------------------ toywasm hooks */
uint32_t
toywasm_sim_hook_check_interval(uint32_t def)
{
        return cfg.check_interval != 0 ? cfg.check_interval : def;
}

struct exec_context;
bool
toywasm_sim_hook_restart(struct exec_context *ctx)
{
        if (cfg.quiet_restart) {
                return false;
        }
        return sim_fault(F_RESTART) != 0;
}

/* ------------------------------------------------------------------ pthread */
#define MTX_MAGIC 0x6d747831
#define CND_MAGIC 0x636e6431
#define DEAD_MAGIC 0xdeadbeef
struct smutex {
        u32 magic; /* 0 for static initialisers */
        int owner; /* fiber id + 1 */
        u32 dead;
};
struct scond {
        u32 magic;
        u32 dead;
        u32 seq;
        u32 nwait;
};
_Static_assert(sizeof(struct smutex) <= sizeof(pthread_mutex_t), "");
_Static_assert(sizeof(struct scond) <= sizeof(pthread_cond_t), "");

static void
mtx_check(struct smutex *m, const char *op)
{
        if (m->dead == DEAD_MAGIC) {
                sim_violation("lock-misuse", "%s on a destroyed mutex", op);
        }
        if (m->magic != 0 && m->magic != MTX_MAGIC) {
                sim_violation("lock-misuse", "%s on an uninitialised mutex", op);
        }
}

int
sim_pthread_mutex_init(pthread_mutex_t *mm, const pthread_mutexattr_t *a)
{
        struct smutex *m = (void *)mm;
        m->magic = MTX_MAGIC;
        m->owner = 0;
        m->dead = 0;
        return 0;
}

int
sim_pthread_mutex_destroy(pthread_mutex_t *mm)
{
        struct smutex *m = (void *)mm;
        mtx_check(m, "destroy");
        if (m->owner != 0) {
                sim_violation("lock-misuse", "destroying a locked mutex");
        }
        m->dead = DEAD_MAGIC;
        return 0;
}

static bool
mtx_free(void *vp)
{
        return ((struct smutex *)vp)->owner == 0;
}

int
sim_pthread_mutex_lock(pthread_mutex_t *mm)
{
        struct smutex *m = (void *)mm;
        sim_sync_point();
        mtx_check(m, "lock");
        if (m->owner == cur->id + 1) {
                sim_violation("deadlock", "a thread locks a mutex it already holds");
        }
        while (m->owner != 0) {
                PROBE("mutex-contention");
                sim_block(mtx_free, m, NEVER, "mutex");
                mtx_check(m, "lock");
        }
        m->owner = cur->id + 1;
        return 0;
}

int
sim_pthread_mutex_trylock(pthread_mutex_t *mm)
{
        struct smutex *m = (void *)mm;
        sim_sync_point();
        mtx_check(m, "trylock");
        if (m->owner != 0) {
                return EBUSY;
        }
        m->owner = cur->id + 1;
        return 0;
}

int
sim_pthread_mutex_unlock(pthread_mutex_t *mm)
{
        struct smutex *m = (void *)mm;
        mtx_check(m, "unlock");
        if (m->owner != cur->id + 1) {
                sim_violation("lock-misuse", "unlocking a mutex that is not held by the thread (owner %d)", m->owner - 1);
        }
        m->owner = 0;
        sim_sync_point();
        return 0;
}

static void
cnd_check(struct scond *c, const char *op)
{
        if (c->dead == DEAD_MAGIC) {
                sim_violation("lock-misuse", "%s on a destroyed condition variable", op);
        }
}

int
sim_pthread_cond_init(pthread_cond_t *cc, const pthread_condattr_t *a)
{
        struct scond *c = (void *)cc;
        memset(c, 0, sizeof(*c));
        c->magic = CND_MAGIC;
        return 0;
}

struct cwait {
        struct scond *c;
        bool woken;
        struct cwait *next;
        int fid;
};
static struct cwait *cwaiters;

int
sim_pthread_cond_destroy(pthread_cond_t *cc)
{
        struct scond *c = (void *)cc;
        cnd_check(c, "destroy");
        for (struct cwait *w = cwaiters; w != NULL; w = w->next) {
                if (w->c == c && !w->woken) {
                        sim_violation("lock-misuse", "destroying a condition variable with waiters");
                }
        }
        c->dead = DEAD_MAGIC;
        return 0;
}

static bool
cw_woken(void *vp)
{
        return ((struct cwait *)vp)->woken;
}

static int
cond_wait_common(pthread_cond_t *cc, pthread_mutex_t *mm, u64 deadline)
{
        struct scond *c = (void *)cc;
        struct smutex *m = (void *)mm;
        cnd_check(c, "wait");
        if (m->owner != cur->id + 1) {
                sim_violation("lock-misuse", "condition wait without holding the mutex");
        }
        struct cwait *w = calloc(1, sizeof(*w));
        w->c = c;
        w->fid = cur->id;
        struct cwait **pp = &cwaiters;
        while (*pp != NULL) {
                pp = &(*pp)->next;
        }
        *pp = w;
        m->owner = 0;
        int ret;
        u32 v = sim_fault(F_SPURIOUS);
        if (v != 0) {
                u64 d = sim_now() + v % (20 * MS);
                sim_block(cw_woken, w, d < deadline ? d : deadline, "cond-spurious");
                ret = w->woken ? 0 : sim_now() >= deadline ? ETIMEDOUT : 0;
        } else {
                ret = sim_block(cw_woken, w, deadline, "cond");
                if (w->woken) {
                        ret = 0;
                }
        }
        for (pp = &cwaiters; *pp != w; pp = &(*pp)->next) {
        }
        *pp = w->next;
        free(w);
        while (m->owner != 0) {
                sim_block(mtx_free, m, NEVER, "mutex(cond)");
        }
        m->owner = cur->id + 1;
        return ret;
}

int
sim_pthread_cond_wait(pthread_cond_t *cc, pthread_mutex_t *mm)
{
        return cond_wait_common(cc, mm, NEVER);
}

/* realtime deadline -> monotonic */
u64
sim_deadline_from_realtime(const struct timespec *ts)
{
        if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) {
                return 0;
        }
        __int128 t = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - sim_rt_off;
        if (t < 0) {
                return 0;
        }
        if (t > (__int128)1 << 62) {
                return (u64)1 << 62;
        }
        return (u64)t;
}

int
sim_pthread_cond_timedwait(pthread_cond_t *cc, pthread_mutex_t *mm, const struct timespec *ts)
{
        if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) {
                return EINVAL;
        }
        return cond_wait_common(cc, mm, sim_deadline_from_realtime(ts));
}

int
sim_pthread_cond_signal(pthread_cond_t *cc)
{
        struct scond *c = (void *)cc;
        cnd_check(c, "signal");
        struct cwait *cand[MAXFIB];
        int n = 0;
        for (struct cwait *w = cwaiters; w != NULL; w = w->next) {
                if (w->c == c && !w->woken) {
                        cand[n++] = w;
                }
        }
        if (n > 0) {
                u32 k = 0;
                u64 ev = sim_nev++;
                if (sim_replaying) {
                        const struct dec *d = rep_find('S', 2, ev);
                        if (d != NULL && d->val < (u32)n) {
                                k = d->val;
                        }
                } else if (n > 1) {
                        k = rndn(R_SCHED, n);
                }
                if (k != 0) {
                        record('S', 2, ev, k);
                }
                cand[k]->woken = true;
        }
        sim_sync_point();
        return 0;
}

int
sim_pthread_cond_broadcast(pthread_cond_t *cc)
{
        struct scond *c = (void *)cc;
        cnd_check(c, "broadcast");
        for (struct cwait *w = cwaiters; w != NULL; w = w->next) {
                if (w->c == c) {
                        w->woken = true;
                }
        }
        sim_sync_point();
        return 0;
}

static void
pthread_tramp(void *vp)
{
        struct fiber *f = cur;
        f->retval = f->pfn(vp);
}

int
sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
        sim_sync_point();
        if (sim_fault(F_THREAD) != 0) {
                return EAGAIN;
        }
        struct fiber *f = fiber_new("thread", pthread_tramp, arg, false);
        f->pfn = fn;
        *t = (pthread_t)f->id;
        sim_trace(0x7c, f->id, 0);
        sim_sync_point();
        return 0;
}

int
sim_pthread_detach(pthread_t t)
{
        int id = (int)t;
        if (id <= 0 || id >= nfib || fibs[id]->detached || fibs[id]->joined) {
                sim_violation("thread-misuse", "detaching an invalid or already detached thread");
        }
        fibs[id]->detached = true;
        sim_sync_point();
        return 0;
}

static bool
fiber_is_done(void *vp)
{
        return ((struct fiber *)vp)->state == FS_DONE;
}

int
sim_pthread_join(pthread_t t, void **ret)
{
        int id = (int)t;
        if (id <= 0 || id >= nfib || fibs[id]->detached || fibs[id]->joined) {
                sim_violation("thread-misuse", "joining an invalid or detached thread");
        }
        fibs[id]->joined = true;
        sim_block(fiber_is_done, fibs[id], NEVER, "join");
        if (ret != NULL) {
                *ret = fibs[id]->retval;
        }
        return 0;
}

int
sim_unreleased_threads(void)
{
        int n = 0;
        for (int i = 1; i < nfib; i++) {
                if (fibs[i]->pfn != NULL && !fibs[i]->detached && !fibs[i]->joined) {
                        n++;
                }
        }
        return n;
}

pthread_t
sim_pthread_self(void)
{
        return (pthread_t)cur->id;
}

int
sim_sched_yield(void)
{
        sim_advance(1000);
        sim_sync_point();
        return 0;
}

/* assertion failures inside toywasm */
void
sim__assert_fail(const char *expr, const char *file, unsigned line, const char *func)
{
        const char *b = strrchr(file, '/');
        sim_violation("assert", "assertion '%s' failed in %s (%s:%u)", expr, func, b ? b + 1 : file, line);
}

void
sim_abort(void)
{
        sim_violation("abort", "abort() called");
}

/* ------------------------------------------------------------------ operation mask */
static u32 opctr;
static u8 *opmask;
static u32 opmask_n;
void
sim_set_opmask(u8 *m, u32 n)
{
        opmask = m;
        opmask_n = n;
}
u32
sim_op_next(void)
{
        shm->genops = opctr + 1;
        return opctr++;
}
bool
sim_op_enabled(u32 idx)
{
        return !(opmask != NULL && idx < opmask_n && opmask[idx]);
}

/* is the fiber blocked in a condition wait that only a signal or the reported deadline can end? */
bool
sim_cond_blocked(int fid, u64 *deadline)
{
        if (fid < 0 || fid >= nfib) {
                return false;
        }
        struct fiber *f = fibs[fid];
        if (f->state != FS_BLOCKED || f->what == NULL || strcmp(f->what, "cond") != 0 || f->pred(f->predarg)) {
                return false;
        }
        *deadline = f->deadline;
        return true;
}
