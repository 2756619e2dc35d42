/* P01: a random program is run undisturbed and then again with interruptions; P14: with allocation failures. */
#include <errno.h>
#include <stdlib.h>
#include <string.h>

#include "progen.h"

void cfg_threads(void);
void cfg_prog(void);
void run_prog(void);
void cfg_oom(void);
void run_oom(void);

static struct pg pg;
static struct pg_run base, test;
static u32 p_restart;
static u64 nalloc; /* allocations made by the undisturbed run */

void
cfg_prog(void)
{
        static const u32 p[] = {1 << 20, 1 << 19, 1 << 18, 1 << 16, 1 << 13};
        p_restart = p[rndn(R_CFG, 5)];
        cfg.prob[F_RESTART] = p_restart;
        if (cfg.check_interval == 1 && p_restart == 1 << 20) {
                cfg.prob[F_RESTART] = 900000; /* some instruction has to be executed between two restarts */
        }
        cfg.prob[F_INTR] = rndp(R_CFG, 1, 2) ? 600000 : 0;
        static const u32 q[] = {0, 0, 5000, 50000};
        cfg.prob[F_EAGAIN] = q[rndn(R_CFG, 4)];
        cfg.prob[F_SPURIOUS] = q[rndn(R_CFG, 4)];
        cfg.prob[F_LATE] = q[rndn(R_CFG, 4)];
        if (rndp(R_CFG, 1, 2)) {
                cfg.clock_read_ns = 26 * MS; /* keeps the check interval from growing */
        }
        cfg.max_vtime = 100000 * SEC;
}

static void
options(struct pg_opt *o)
{
        memset(o, 0, sizeof(*o));
        o->threaded = rndp(R_GEN, 1, 4);
        o->waits = rndp(R_GEN, 1, 2);
        o->nfunc = rndr(R_GEN, 2, 8);
        o->fuel = (u32)rndlog(R_GEN, 4, 80);
#if defined(TOYWASM_USE_USER_SCHED)
        o->threaded = false;
#endif
}

static void
baseline(void)
{
        struct sim_cfg saved = cfg;
        cfg.fault_on = false;
        cfg.quiet_restart = true;
        cfg.check_interval = 100000000;
        cfg.clock_read_ns = 100;
        cfg.tick_ps = 500;
        base.inkey = test.inkey = rnd(R_GEN);
        int ret = pg_setup(&base, &pg);
        if (ret != 0) {
                sim_violation("generator", "the program does not load: %d %s %s", ret, base.e.loadmsg, base.e.trapmsg);
        }
        u64 n0 = sim_alloc_count();
        ret = pg_exec(&base);
        nalloc = sim_alloc_count() - n0;
        if (ret != 0 && ret != ETOYWASMTRAP) {
                sim_violation("outcome", "the undisturbed run ends with %d", ret);
        }
        pg_final(&base);
        emb_teardown(&base.e);
        cfg = saved;
}

static atomic_uint flag;
static u32 pflag;
static int
on_restart(struct emb *e, struct exec_context *ctx, int ret)
{
        if (pg.o.waits) {
                sim_sleep(rndlog(R_WORLD, 10000, 20 * MS)); /* something else to do meanwhile */
        }
        if (e->intrp != &flag) {
                return 0;
        }
        if (ret == ETOYWASMUSERINTERRUPT) {
                flag = 0;
        } else if (pflag != 0 && rndp(R_WORLD, pflag, 100)) {
                flag = 1;
        }
        return 0;
}

void
run_prog(void)
{
        struct pg_opt o;
        options(&o);
        u32 mode = rndn(R_GEN, 3);
        pg_generate(&pg, &o);
        baseline();
        if (mode == 0) {
                emb_interrupts(&test.e);
        } else if (mode == 1) {
                pflag = rndr(R_GEN, 1, 90);
                flag = 1;
                test.e.intrp = &flag;
                test.e.intr_delay = rndn(R_GEN, 3) ? 0 : rndn(R_GEN, 5);
        }
        test.e.on_restart = on_restart;
        if (o.waits && cfg.prob[F_RESTART] > 600000) {
                cfg.prob[F_RESTART] = 600000; /* waiting consists of checks only */
        }
        cfg.fault_on = true;
        int ret = pg_setup(&test, &pg);
        if (ret != 0) {
                sim_violation("setup", "the second run could not be set up: %d %s", ret, test.e.loadmsg);
        }
        pg_exec(&test);
        cfg.fault_on = false;
        pg_final(&test);
        const char *d = pg_diff(&base, &test);
        if (d != NULL) {
                sim_violation("differs", "a program interrupted %u times (%u by the embedder): %s", test.e.nrestarts + test.e.nintr, test.e.nintr, d);
        }
        if (test.e.nintr > 0) {
                PROBE("user-interrupt");
        }
        if (test.e.nrestarts + test.e.nintr > 100) {
                PROBE("many-restarts");
        }
        if (base.trapped) {
                PROBE("trapped");
        }
        emb_teardown(&test.e);
        sim_sample("%u functions, %u host calls, %u restarts, %u interrupts, ended with %d trap %u '%s'\n", o.nfunc, base.nlog, test.e.nrestarts, test.e.nintr,
                   base.ret, base.trapid, base.trapmsg);
        pg_free(&pg);
}

/* ------------------------------------------------------------------ P14 */
void
cfg_oom(void)
{
        static const u32 p[] = {0, 0, 1 << 18, 1 << 15};
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 4)];
        cfg.max_vtime = 100000 * SEC;
}

static bool diverged;
static u32 divkind;
static void
compare(struct pg_run *r, const struct pg_ev *v)
{
        u32 i = r->nlog - 1;
        if (diverged) {
                return;
        }
        if (i >= base.nlog) {
                sim_violation("differs", "after running out of memory: more than the %u host calls of an undisturbed run", base.nlog);
        }
        const struct pg_ev *b = &base.log[i];
        bool same = v->what == b->what && v->a == b->a && v->b == b->b;
        bool grow = v->what == 3 && b->what == 3 && v->a == b->a && (u32)v->b == UINT32_MAX;
        bool err = v->what == 1 && b->what == 1 && v->a == 48;
        if (!same && (grow || err)) {
                diverged = true;
                divkind = grow ? 1 + (v->a >= 8) : 3;
                if (grow && v->a >= 8) {
                        return; /* the other run's table has grown */
                }
                if (err) {
                        return;
                }
        } else if (!same) {
                sim_violation("differs", "after running out of memory: host call %u is %u(%llx, %llx) instead of %u(%llx, %llx)", i, v->what,
                              (unsigned long long)v->a, (unsigned long long)v->b, b->what, (unsigned long long)b->a, (unsigned long long)b->b);
        }
        if (v->state != b->state) {
                sim_violation("differs", "after running out of memory: at host call %u the memories, globals and tables have different contents", i);
        }
}

static void
call_again(struct pg_run *r)
{
        struct val a[1], o[1];
        memset(a, 0, sizeof(a));
        memset(o, 0, sizeof(o));
        a[0].u.i32 = 77;
        int ret = emb_call(&r->e, "again", a, o);
        if (ret != 0) {
                sim_violation("afterwards", "a call after memory became available again ends with %d '%s'", ret, r->e.trapmsg);
        }
        if (o[0].u.i32 != 77 * 77) {
                sim_violation("afterwards", "a call after memory became available again returns %u", o[0].u.i32);
        }
}

static struct pg_run third;
void
run_oom(void)
{
        struct pg_opt o;
        options(&o);
        o.shared = o.threaded || rndp(R_GEN, 1, 6);
        o.threaded = false;
        o.report = true;
        pg_generate(&pg, &o);
        baseline();
        u32 mode = rndn(R_GEN, 4);
        cfg.fault_on = false;
        int ret = pg_setup(&test, &pg);
        if (ret != 0) {
                sim_violation("setup", "the second run could not be set up: %d %s", ret, test.e.loadmsg);
        }
        test.on_event = compare;
        test.e.on_restart = on_restart;
        u64 nth = rndn(R_GEN, (u32)nalloc + 2);
        u64 limit = rndlog(R_GEN, 16, 300000);
        switch (mode) {
        case 0: /* one failure */
        case 1: /* from some point on */
                cfg.alloc_nth = sim_alloc_count() + 1 + nth;
                cfg.alloc_persist = mode == 1;
                break;
        case 2:
                cfg.prob[F_ALLOC] = (u32)rndlog(R_GEN, 2000, 300000);
                break;
        default:
                ret = mem_context_setlimit(&test.e.top, test.e.top.allocated + limit);
                if (ret != 0) {
                        sim_violation("setup", "the limit could not be set");
                }
        }
        cfg.fault_on = true;
        pg_exec(&test);
        cfg.fault_on = false;
        cfg.alloc_nth = 0;
        u64 fired = shm->fault_count[F_ALLOC];
        if (!diverged) {
                if (test.ret == ENOMEM) {
                        if (fired == 0 && mode != 3) {
                                sim_violation("outcome", "the program ended with an out-of-memory error although no allocation failed");
                        }
                        PROBE("out-of-memory");
                } else {
                        pg_final(&test);
                        if (fired != 0) {
                                /* the text of a trap needs memory */
                                snprintf(base.trapmsg, sizeof(base.trapmsg), "%s", test.trapmsg);
                                PROBE("survived");
                        }
                        const char *d = pg_diff(&base, &test);
                        if (d != NULL) {
                                sim_violation("differs", "%u allocations failed: %s", (u32)fired, d);
                        }
                }
        } else {
                if (divkind == 1) {
                        PROBE("memory-grow-failed");
                } else if (divkind == 2) {
                        PROBE("table-grow-failed");
                } else {
                        PROBE("host-call-failed");
                }
                if (fired == 0 && mode != 3) {
                        sim_violation("differs", "an operation failed although no allocation did");
                }
                if (test.ret != 0 && test.ret != ETOYWASMTRAP && test.ret != ENOMEM) {
                        sim_violation("outcome", "the program ended with %d", test.ret);
                }
        }
        if (mode == 3) {
                ret = mem_context_setlimit(&test.e.top, SIZE_MAX);
                if (ret != 0) {
                        sim_violation("setup", "the limit could not be lifted");
                }
        }
        cfg.prob[F_ALLOC] = 0;
        if (rndp(R_GEN, 1, 2)) {
                call_again(&test);
        }
        test.over = true;
        emb_teardown(&test.e);
        /* a new run is as if nothing had happened */
        third.inkey = base.inkey;
        ret = pg_setup(&third, &pg);
        if (ret == 0) {
                pg_exec(&third);
                pg_final(&third);
                snprintf(base.trapmsg, sizeof(base.trapmsg), "%s", third.trapmsg);
                const char *d = pg_diff(&base, &third);
                if (d != NULL) {
                        sim_violation("afterwards", "a new run after the failure: %s", d);
                }
        } else {
                sim_violation("afterwards", "a new run cannot be set up: %d", ret);
        }
        emb_teardown(&third.e);
        sim_sample("%u functions, %u host calls, mode %u, %u failures, ended with %d after %u calls%s\n", o.nfunc, base.nlog, mode, (u32)fired, test.ret,
                   test.nlog, diverged ? ", told the program" : "");
        pg_free(&pg);
}
