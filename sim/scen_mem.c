/* P15: memory contexts. */
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "progen.h"

void cfg_mem(void);
void run_mem(void);

typedef unsigned __int128 u128;
#define NCTX 6
#define NBLK 24
#define MAXT 6
#define NOPS 200
#define HOSTMAX ((size_t)200 << 20) /* requests above may be refused by the host */

void
cfg_mem(void)
{
        static const u32 p[] = {0, 0, 5000, 50000, 300000};
        cfg.prob[F_ALLOC] = p[rndn(R_CFG, 5)];
        cfg.max_vtime = 100000 * SEC;
        static const u32 g[] = {2, 3, 5, 10, 30};
        cfg.gap_cold = g[rndn(R_CFG, 5)];
}

/* ------------------------------------------------------------------ the contexts themselves */
struct ctx {
        struct mem_context c;
        int parent;
        size_t limit, maxlimit;
        u128 live;          /* certainly charged */
        u128 lo, hi;        /* bounds with the calls in progress */
        u128 maxlive, maxhi;
};
static struct ctx C[NCTX];
static int nctx;
struct blk {
        u8 *p;
        size_t sz;
        int ctx;
        u8 tag;
        bool busy;
};
static struct blk B[NBLK];
static u8 nexttag;
/* calls in progress */
struct call {
        bool active;
        int ctx;
        u128 maxhi[NCTX];
} calls[MAXT];
static int nthr, phase, nphase;
enum mk { M_ALLOC, M_ZALLOC, M_CALLOC, M_FREE, M_EXTEND, M_EXTENDZ, M_SHRINK, M_NK };
static struct mop {
        enum mk k;
        int thr, phase;
        u32 sel, ctx;
        size_t sz;
        bool on;
} ops[NOPS];
static int nops;
static u64 nrefused, nhostfail, nok;

#define UP(i, c) for (int i = (c); i >= 0; i = C[i].parent)

static void
observe(const char *when)
{
        for (int i = 0; i < nctx; i++) {
                struct ctx *c = &C[i];
                size_t a = c->c.allocated;
                if (a < c->lo || a > c->hi) {
                        sim_violation("accounting", "%s: context %d is charged %zu bytes, not %llu to %llu", when, i, a, (unsigned long long)c->lo,
                                      (unsigned long long)c->hi);
                }
                if (a > c->limit) {
                        sim_violation("limit", "%s: context %d is charged %zu bytes, its limit is %zu", when, i, a, c->limit);
                }
                if (c->live > c->limit) {
                        sim_violation("limit", "%s: %llu bytes of context %d are in use, its limit is %zu", when, (unsigned long long)c->live, i, c->limit);
                }
        }
}
static void
begin(int t, int ctx, u128 more, u128 less)
{
        struct call *k = &calls[t];
        memset(k, 0, sizeof(*k));
        k->active = true;
        k->ctx = ctx;
        UP(i, ctx)
        {
                C[i].hi += more;
                C[i].lo -= less;
                C[i].live -= less;
                if (C[i].hi > C[i].maxhi) {
                        C[i].maxhi = C[i].hi;
                }
        }
        for (int o = 0; o < nthr; o++) {
                if (calls[o].active) {
                        for (int i = 0; i < nctx; i++) {
                                if (C[i].hi > calls[o].maxhi[i]) {
                                        calls[o].maxhi[i] = C[i].hi;
                                }
                        }
                }
        }
}
/* the call is over: more: what it could have added, less: could have removed; what it did */
static void
end(int t, int ctx, u128 more, u128 less, bool done)
{
        calls[t].active = false;
        UP(i, ctx)
        {
                if (done) {
                        C[i].lo += more;
                        C[i].live += more;
                        C[i].hi -= less;
                } else {
                        C[i].hi -= more;
                        C[i].lo += less;
                        C[i].live += less;
                }
                if (C[i].live > C[i].maxlive) {
                        C[i].maxlive = C[i].live;
                }
        }
        observe("after a call");
}
static bool
justified(int t, int ctx)
{
        UP(i, ctx)
        {
                if (calls[t].maxhi[i] > C[i].limit) {
                        return true;
                }
        }
        return false;
}
static void
contents(const struct blk *b, size_t n, const char *when)
{
        size_t sz;
        if (!sim_block_size(b->p, &sz) || sz < b->sz) {
                sim_violation("contents", "%s: the host allocation of a %zu byte block is smaller", when, b->sz);
        }
        for (size_t i = 0; i < n; i++) {
                if (b->p[i] != b->tag) {
                        sim_violation("contents", "%s: byte %zu of a %zu byte block has changed", when, i, b->sz);
                }
        }
}
static void
zeroed(const u8 *p, size_t from, size_t to, const char *when)
{
        for (size_t i = from; i < to; i++) {
                if (p[i] != 0) {
                        sim_violation("contents", "%s: byte %zu is not zero", when, i);
                }
        }
}
static struct blk *
pick(u32 sel, bool used)
{
        for (u32 i = 0; i < NBLK; i++) {
                struct blk *b = &B[(sel + i) % NBLK];
                if (!b->busy && (b->p != NULL) == used) {
                        return b;
                }
        }
        return NULL;
}
static void
refused(int t, int ctx, size_t sz, u32 faults0, const char *what)
{
        if (sim_fiber_faults[sim_fiber_id() & (MAXFIB - 1)] != faults0 || sz > HOSTMAX) {
                nhostfail++;
                return;
        }
        if (!justified(t, ctx)) {
                sim_violation("refused", "%s for %zu bytes failed although no limit is reached", what, sz);
        }
        nrefused++;
}

static void
do_op(int t, const struct mop *o)
{
        u32 f0 = sim_fiber_faults[sim_fiber_id() & (MAXFIB - 1)];
        sim_trace(0x3e, o->k, o->sz);
        switch (o->k) {
        case M_ALLOC:
        case M_ZALLOC:
        case M_CALLOC: {
                struct blk *b = pick(o->sel, false);
                if (b == NULL) {
                        return;
                }
                b->busy = true;
                int c = (int)(o->ctx % (u32)nctx);
                size_t n = o->sz;
                size_t m = 1;
                if (o->k == M_CALLOC) {
                        m = 1 + o->sel % 9;
                        n = n / m == 0 ? 1 : n / m;
                        if (o->sel % 37 == 0) {
                                /* overflows */
                                n = SIZE_MAX / 4;
                                m = 8 + o->sel % 5;
                        }
                }
                size_t total;
                bool ovf = __builtin_mul_overflow(n, m, &total);
                sim_log("t%d: %s %zu * %zu in %d", t, o->k == M_ALLOC ? "alloc" : "zeroed alloc", n, m, c);
                u128 charge = ovf ? 0 : total;
                begin(t, c, charge, 0);
                u8 *p = o->k == M_ALLOC ? mem_alloc(&C[c].c, n) : o->k == M_ZALLOC ? mem_zalloc(&C[c].c, n) : mem_calloc(&C[c].c, n, m);
                if (p == NULL) {
                        if (!ovf) {
                                refused(t, c, total, f0, "an allocation");
                        }
                        end(t, c, charge, 0, false);
                } else {
                        if (ovf) {
                                sim_violation("size", "an allocation of %zu * %zu bytes succeeded", n, m);
                        }
                        nok++;
                        b->p = p;
                        b->sz = total;
                        b->ctx = c;
                        b->tag = ++nexttag;
                        size_t hs;
                        if (!sim_block_size(p, &hs) || hs < total) {
                                sim_violation("size", "an allocation of %zu bytes has fewer", total);
                        }
                        if (o->k != M_ALLOC) {
                                zeroed(p, 0, total, "a zeroed allocation");
                        }
                        memset(p, b->tag, total);
                        end(t, c, charge, 0, true);
                }
                b->busy = false;
                return;
        }
        case M_FREE: {
                struct blk *b = pick(o->sel, true);
                if (b == NULL) {
                        return;
                }
                b->busy = true;
                sim_log("t%d: free %zu in %d", t, b->sz, b->ctx);
                contents(b, b->sz, "before release");
                u8 *p = b->p;
                begin(t, b->ctx, 0, b->sz);
                mem_free(&C[b->ctx].c, p, b->sz);
                size_t hs;
                if (sim_block_size(p, &hs) && hs == b->sz && p == b->p) {
                        /* may have been handed out again already */
                        bool other = false;
                        for (int i = 0; i < NBLK; i++) {
                                other |= &B[i] != b && B[i].p == p;
                        }
                        for (int i = 0; i < nthr; i++) {
                                other |= i != t && calls[i].active;
                        }
                        if (!other) {
                                sim_violation("size", "a released block of %zu bytes is still allocated", b->sz);
                        }
                }
                b->p = NULL;
                end(t, b->ctx, 0, b->sz, true);
                b->busy = false;
                nok++;
                return;
        }
        case M_EXTEND:
        case M_EXTENDZ: {
                struct blk *b = pick(o->sel, true);
                if (b == NULL) {
                        return;
                }
                b->busy = true;
                size_t nsz;
                if (__builtin_add_overflow(b->sz, o->sz, &nsz)) {
                        nsz = SIZE_MAX;
                }
                size_t diff = nsz - b->sz;
                sim_log("t%d: extend %zu to %zu in %d", t, b->sz, nsz, b->ctx);
                begin(t, b->ctx, diff, 0);
                u8 *p = o->k == M_EXTEND ? mem_extend(&C[b->ctx].c, b->p, b->sz, nsz) : mem_extend_zero(&C[b->ctx].c, b->p, b->sz, nsz);
                if (p == NULL) {
                        refused(t, b->ctx, nsz, f0, "an extension");
                        contents(b, b->sz, "after a failed extension");
                        end(t, b->ctx, diff, 0, false);
                } else {
                        nok++;
                        b->p = p;
                        size_t osz = b->sz;
                        b->sz = nsz;
                        contents(b, osz, "after an extension");
                        if (o->k == M_EXTENDZ) {
                                zeroed(p, osz, nsz, "a zeroed extension");
                        }
                        memset(p, b->tag, nsz);
                        end(t, b->ctx, diff, 0, true);
                }
                b->busy = false;
                return;
        }
        default: {
                struct blk *b = pick(o->sel, true);
                if (b == NULL || b->sz < 2) {
                        return;
                }
                b->busy = true;
                size_t nsz = 1 + o->sz % (b->sz - 1);
                size_t diff = b->sz - nsz;
                sim_log("t%d: shrink %zu to %zu in %d", t, b->sz, nsz, b->ctx);
                begin(t, b->ctx, 0, diff);
                u8 *p = mem_shrink(&C[b->ctx].c, b->p, b->sz, nsz);
                if (p == NULL) {
                        if (sim_fiber_faults[sim_fiber_id() & (MAXFIB - 1)] == f0) {
                                sim_violation("refused", "shrinking a block failed although no allocation did");
                        }
                        nhostfail++;
                        contents(b, b->sz, "after failing to shrink");
                        end(t, b->ctx, 0, diff, false);
                } else {
                        nok++;
                        b->p = p;
                        b->sz = nsz;
                        contents(b, nsz, "after shrinking");
                        end(t, b->ctx, 0, diff, true);
                }
                b->busy = false;
        }
        }
}

static void
thread(void *arg)
{
        int t = (int)(intptr_t)arg;
        for (int i = 0; i < nops; i++) {
                if (ops[i].on && ops[i].thr == t && ops[i].phase == phase) {
                        do_op(t, &ops[i]);
                }
        }
}

/* while nothing is in progress */
static void
set_limits(void)
{
        for (int i = 0; i < nctx; i++) {
                if (!rndp(R_WORLD, 1, 2)) {
                        continue;
                }
                struct ctx *c = &C[i];
                u64 v = rndlog(R_WORLD, 1, 40000);
                size_t l;
                switch (rndn(R_WORLD, 6)) {
                case 0:
                        l = (size_t)c->live;
                        break;
                case 1:
                        l = (size_t)c->live - (c->live != 0);
                        break;
                case 2:
                        l = SIZE_MAX;
                        break;
                case 3:
                        l = v;
                        break;
                default:
                        l = (size_t)c->live + v;
                        break;
                }
                int ret = mem_context_setlimit(&c->c, l);
                sim_log("limit of %d: %zu -> %d", i, l, ret);
                if ((ret != 0) != (l < c->live)) {
                        sim_violation("limit", "setting the limit of a context with %llu bytes charged to %zu returns %d", (unsigned long long)c->live, l, ret);
                }
                if (ret == 0) {
                        c->limit = l;
                } else {
                        PROBE("limit-too-small");
                }
                if (c->limit > c->maxlimit) {
                        c->maxlimit = c->limit;
                }
        }
        observe("after setting limits");
}
static void
quiet(const char *when)
{
        observe(when);
        for (int i = 0; i < nctx; i++) {
                struct ctx *c = &C[i];
                if (c->c.peak < c->maxlive || c->c.peak > c->maxhi || c->c.peak > c->maxlimit) {
                        sim_violation("peak", "%s: the peak of context %d reads %zu, but %llu to %llu bytes were charged (limit %zu)", when, i, (size_t)c->c.peak,
                                      (unsigned long long)c->maxlive, (unsigned long long)c->maxhi, c->maxlimit);
                }
        }
}

static void
direct(void)
{
        nthr = (int)rndr(R_GEN, 1, MAXT);
        nctx = (int)rndr(R_GEN, 1, NCTX);
        nphase = (int)rndr(R_GEN, 1, 3);
        for (int i = 0; i < nctx; i++) {
                mem_context_init(&C[i].c);
                C[i].parent = i == 0 || rndp(R_GEN, 1, 8) ? -1 : (int)rndn(R_GEN, (u32)i);
                C[i].limit = SIZE_MAX;
                C[i].maxlimit = 0;
                if (C[i].parent >= 0) {
                        C[i].c.parent = &C[C[i].parent].c;
                }
                C[i].limit = C[i].maxlimit = SIZE_MAX;
        }
        nops = (int)rndr(R_GEN, 5, NOPS);
        u32 bias = rndn(R_GEN, 3);
        for (int i = 0; i < nops; i++) {
                struct mop *o = &ops[i];
                o->k = bias == 0 && rndp(R_GEN, 1, 2) ? M_FREE : rndn(R_GEN, M_NK);
                o->thr = (int)rndn(R_GEN, (u32)nthr);
                o->phase = (int)rndn(R_GEN, (u32)nphase);
                o->sel = (u32)rnd(R_GEN);
                o->ctx = (u32)rnd(R_GEN);
                o->sz = rndlog(R_GEN, 1, 20000);
                if (rndp(R_GEN, 1, 40)) {
                        /* more than any machine has */
                        o->sz = SIZE_MAX >> rndn(R_GEN, 12);
                }
                o->on = sim_op_enabled(sim_op_next());
        }
        cfg.fault_on = true;
        for (phase = 0; phase < nphase; phase++) {
                set_limits();
                for (int t = 0; t < nthr; t++) {
                        sim_spawn("t", thread, (void *)(intptr_t)t, false);
                }
                sim_join_all();
                quiet("at rest");
        }
        cfg.fault_on = false;
        for (int i = 0; i < NBLK; i++) {
                struct mop f = {.k = M_FREE, .sel = (u32)i};
                do_op(0, &f);
        }
        quiet("in the end");
        for (int i = 0; i < nctx; i++) {
                if (C[i].c.allocated != 0) {
                        sim_violation("accounting", "context %d is charged %zu bytes although everything was given back", i, (size_t)C[i].c.allocated);
                }
                mem_context_clear(&C[i].c);
        }
        if (nrefused != 0) {
                PROBE("limit-reached");
        }
        if (nhostfail != 0) {
                PROBE("host-refused");
        }
        sim_sample("%d contexts, %d threads, %llu calls succeeded, %llu refused by a limit, %llu by the host\n", nctx, nthr, (unsigned long long)nok,
                   (unsigned long long)nrefused, (unsigned long long)nhostfail);
}

/* ------------------------------------------------------------------ as used by a running program */
static struct pg pg;
static struct pg_run run1;
static u64 nseen;
static void
exact(struct emb *e, const char *when)
{
        struct mem_context *sub[] = {&e->mod, &e->ins, &e->wasim, &e->imp};
        size_t sum = 0;
        for (u32 i = 0; i < 4; i++) {
                sum += sub[i]->allocated;
        }
        size_t top = e->top.allocated;
        size_t blocks, real = sim_charged_bytes(&blocks);
        if (sum != top) {
                sim_violation("accounting", "%s: the contexts of module, instance, host functions and imports are charged %zu bytes, the one above them %zu", when, sum,
                              top);
        }
        if (real != top) {
                sim_violation("accounting", "%s: %zu bytes are charged, %zu blocks of %zu bytes are in use", when, top, blocks, real);
        }
        if (top > e->top.limit) {
                sim_violation("limit", "%s: %zu bytes are charged to a context limited to %zu", when, top, (size_t)e->top.limit);
        }
        if (e->top.peak < top || (e->limit != 0 && e->top.peak > e->limit)) {
                sim_violation("peak", "%s: the peak reads %zu with %zu bytes charged and a limit of %zu", when, (size_t)e->top.peak, top, (size_t)e->top.limit);
        }
        nseen++;
}
static void
on_event(struct pg_run *r, const struct pg_ev *v)
{
        if (!pg.o.threaded) {
                exact(&r->e, "in a host call");
        }
}
static int
on_restart(struct emb *e, struct exec_context *ctx, int ret)
{
        if (!pg.o.threaded) {
                exact(e, "when interrupted");
        }
        return 0;
}
static void
program(void)
{
        struct pg_opt o;
        memset(&o, 0, sizeof(o));
        o.threaded = rndp(R_GEN, 1, 4);
        o.waits = rndp(R_GEN, 1, 2);
        o.report = true;
        o.nfunc = rndr(R_GEN, 2, 8);
        o.fuel = (u32)rndlog(R_GEN, 4, 60);
#if defined(TOYWASM_USE_USER_SCHED)
        o.threaded = false;
#endif
        pg_generate(&pg, &o);
        run1.inkey = rnd(R_GEN);
        pg_prepare(&run1, &pg);
        run1.on_event = on_event;
        run1.e.on_restart = on_restart;
        struct emb *e = &run1.e;
        bool late = rndp(R_GEN, 1, 2);
        u64 limit = rndlog(R_GEN, 20000, 3000000);
        if (!late) {
                e->limit = limit;
                sim_charged_cap = o.threaded ? UINT64_MAX : limit;
        }
        cfg.fault_on = !late;
        if (!late && rndp(R_GEN, 1, 2)) {
                cfg.alloc_nth = 1 + rndn(R_GEN, 400);
        }
        int s, ret = 0;
        static const char *const names[] = {"after setting up", "after loading", "after linking", "after initialisation"};
        for (s = 0; s < 4 && ret == 0; s++) {
                ret = s == 0 ? emb_setup(e) : s == 1 ? emb_load(e) : s == 2 ? emb_link(e) : emb_start(e);
                exact(e, names[s]);
        }
        if (ret == 0) {
                if (late && rndp(R_GEN, 1, 2)) {
                        u64 cap = e->top.allocated + limit % 300000;
                        sim_charged_cap = o.threaded ? UINT64_MAX : cap;
                        if (mem_context_setlimit(&e->top, cap)) {
                                sim_violation("limit", "a limit above the bytes charged was refused");
                        }
                }
                cfg.fault_on = true;
                pg_exec(&run1);
                cfg.fault_on = false;
                pg_final(&run1);
                sim_join_all();
                exact(e, "after the execution");
                PROBE("program-run");
                if (run1.ret == ENOMEM) {
                        PROBE("program-out-of-memory");
                }
        } else {
                PROBE("program-not-loaded");
        }
        cfg.fault_on = false;
        run1.over = true;
        emb_teardown(e);
        size_t blocks, real = sim_charged_bytes(&blocks);
        if (real != 0) {
                sim_violation("accounting", "%zu blocks of %zu bytes are in use after everything was given back", blocks, real);
        }
        sim_sample("program of %u functions, %s limit, exact at %llu points, ended with %d\n", o.nfunc, late ? "late" : "early", (unsigned long long)nseen, ret);
        pg_free(&pg);
}

void
run_mem(void)
{
        cfg.fault_on = false;
        if (rndp(R_GEN, 2, 3)) {
                direct();
        } else {
                program();
        }
}
