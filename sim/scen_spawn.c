/* P06: thread creation. P07: end of the process. */
#include <stdlib.h>
#include <string.h>

#include "mt.h"
#include "simfs.h"

/* with the user-level scheduler the new thread starts running inside the spawn, so its own allocations may fail there */
#if defined(SIM_USCHED)
#define USCHED true
#else
#define USCHED false
#endif

/* ------------------------------------------------------------------ P06 */
#define MAXS 16
struct sop {
        int parent;  /* thread whose body spawns */
        u32 arg;     /* argument passed */
        int api;     /* 0 "thread-spawn"(i)i, 1 "thread_spawn"(i)i, 2 "thread-spawn"(ii) */
        u32 pre;     /* what precedes it: 0 nothing, 1 yield, 2 sleep */
        u64 ns;
        int end;     /* how the spawned thread ends: 0 returns, 1 thread_exit */
        u32 work;
        bool on;
        bool bad;    /* the start function of the new thread's instance traps */
};
#define MT_BAD 20 /* number of such spawns in progress */
static struct sop S[MAXS];
static int nS;
static u32 starts[MAXS], ends[MAXS], stid[MAXS];
static u64 startb[MAXS], ende[MAXS];
static u32 f0[MAXS]; /* fault count of the fiber at the begin */
static bool hadfault[MAXS];
static bool over;

/* the thread met an allocation failure and has been ended by it */
static bool
out_of_memory(int thr)
{
        if (USCHED) {
                return shm->fault_count[F_ALLOC] != 0;
        }
        for (int j = 0; j < nS; j++) {
                if (S[j].parent == thr && H[j].nbegin == 1 && H[j].nend == 0 && sim_fiber_faults[H[j].fid] != f0[j]) {
                        return true;
                }
        }
        return false;
}

static void
spawn_note(u32 id, u32 val)
{
        if (over) {
                sim_violation("after-end", "a guest thread ran after the process had ended");
        }
        u32 k = id % 1000, what = id / 1000;
        switch (what) {
        case 1:
                if (k >= (u32)nS) {
                        sim_violation("spawn-arg", "a thread was started with an argument that no spawn passed");
                }
                starts[k]++;
                if (starts[k] != 1) {
                        sim_violation("spawn-twice", "the thread of spawn %u was started %u times", k, starts[k]);
                }
                stid[k] = val;
                startb[k] = ++hclock;
                if ((int32_t)val <= 0 || val > 0x1fffffff) {
                        sim_violation("tid", "thread identifier %d", (int)val);
                }
                for (int i = 0; i < nS; i++) {
                        if (i != (int)k && starts[i] && !ends[i] && stid[i] == val && !out_of_memory(i) && !out_of_memory(-1)) {
                                sim_violation("tid", "two live threads have the identifier %u", val);
                        }
                }
                break;
        case 2:
                ends[k]++;
                ende[k] = ++hclock;
                break;
        case 3:
                if (val != 7) {
                        sim_violation("thread-state", "a global of a new thread holds %u instead of its initial value", val);
                }
                break;
        case 4:
                if (val != 100 + k) {
                        sim_violation("thread-state", "a thread's own global changed to %u", val);
                }
                break;
        }
}

static void
spawn_begin(u32 id)
{
        int f = sim_fiber_id();
        if (id < (u32)nS) {
                f0[id] = sim_fiber_faults[f];
                sim_alloc_gate[f] = true;
        }
}

static void
spawn_end(u32 id, i64 res)
{
        int f = sim_fiber_id();
        if (id < (u32)nS) {
                sim_alloc_gate[f] = false;
                hadfault[id] = sim_fiber_faults[f] != f0[id];
        }
}

void
cfg_spawn(void)
{
        static const u32 p[] = {0, 0, 500, 5000, 40000};
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 5)];
        cfg.prob[F_SPURIOUS] = p[rndn(R_CFG, 5)] * 10;
        cfg.prob[F_STALL] = rndp(R_CFG, 1, 4) ? p[rndn(R_CFG, 3)] : 0;
        cfg.maxf[F_STALL] = 4;
        cfg.prob[F_THREAD] = rndp(R_CFG, 1, 2) ? 300000 : 0;
        cfg.prob[F_ALLOC] = rndp(R_CFG, 1, 2) ? 1 : 0;
}

static void
emit_spawn(struct mt *t, struct wfunc *f, int k, u32 f_spawn_u, u32 f_spawn2)
{
        struct sop *s = &S[k];
        u32 r = wf_local(f, T_I32);
        if (s->pre == 1) {
                call(f, t->f_yield);
        } else if (s->pre == 2) {
                i64c(f, (i64)s->ns);
                call(f, t->f_sleep);
        }
        /* expected++ before, -- after a failure */
        i32c(f, 0);
        i32c(f, 1);
        atomop(f, 0x1e, 2, MT_NSPAWN);
        op(f, OP_DROP);
        if (s->bad) {
                i32c(f, 0);
                i32c(f, 1);
                atomop(f, 0x1e, 2, MT_BAD);
                op(f, OP_DROP);
        }
        evb(t, f, k);
        if (s->api == 2) {
                i32c(f, s->arg);
                i32c(f, MT_AREA + 16 * k);
                call(f, f_spawn2);
                i32c(f, 0);
                memop(f, OP_I32_LOAD8_U, 0, MT_AREA + 16 * k);
                blk(f, OP_IF, T_I32);
                i32c(f, -1);
                op(f, OP_ELSE);
                i32c(f, 0);
                memop(f, OP_I32_LOAD, 2, MT_AREA + 16 * k + 4);
                op(f, OP_END);
        } else {
                i32c(f, s->arg);
                call(f, s->api ? f_spawn_u : t->f_spawn);
        }
        ltee(f, r);
        op(f, OP_I64_EXT_S);
        eve_i64(t, f, k);
        if (s->bad) {
                i32c(f, 0);
                i32c(f, 1);
                atomop(f, 0x25, 2, MT_BAD);
                op(f, OP_DROP);
        }
        lget(f, r);
        i32c(f, 0);
        op(f, 0x4c); /* le_s */
        blk(f, OP_IF, 0x40);
        i32c(f, 0);
        i32c(f, 1);
        atomop(f, 0x25, 2, MT_NSPAWN);
        op(f, OP_DROP);
        op(f, OP_END);
}

void
run_spawn(void)
{
        struct mt t;
        mt_begin(&t, 1, 1, 2);
        u32 f_spawn_u = wm_import_func(t.m, "wasi", "thread_spawn", "i:i");
        u32 f_spawn2 = wm_import_func(t.m, "wasi", "thread-spawn", "ii:");
        u32 f_texit = wm_import_func(t.m, "wasi", "thread_exit", ":");
        u32 g = wm_global_const(t.m, T_I32, true, 7);
        nS = rndr(R_GEN, 1, MAXS);
        memset(S, 0, sizeof(S));
        u32 shape = rndn(R_GEN, 3); /* wide, deep, mixed */
        bool starts_fail = rndp(R_GEN, 1, 5);
        for (int k = 0; k < nS; k++) {
                struct sop *s = &S[k];
                s->parent = shape == 0 ? -1 : shape == 1 ? k - 1 : (int)rndn(R_GEN, k + 1) - 1;
                s->arg = (u32)rnd(R_GEN);
                s->api = rndn(R_GEN, 3);
                s->pre = rndn(R_GEN, 3);
                s->ns = rndlog(R_GEN, 1000, 50 * MS);
                s->end = rndn(R_GEN, 3) == 0;
                s->work = rndp(R_GEN, 1, 2) ? rndn(R_GEN, 300) : 0;
                s->bad = rndp(R_GEN, 1, 3) && starts_fail;
                s->on = sim_op_enabled(sim_op_next());
        }
        if (starts_fail) {
                struct wfunc *f = wm_func(t.m, ":");
                i32c(f, 0);
                atomop(f, 0x10, 2, MT_BAD);
                blk(f, OP_IF, 0x40);
                op(f, OP_UNREACHABLE);
                op(f, OP_END);
                t.m->start = (int)f->idx;
        }
        /* with failing allocations a thread may be ended before it reports */
        bool afault = cfg.prob[F_ALLOC] != 0;
        struct wfunc *bodyf[MAXS + 1];
        for (int k = 0; k <= nS; k++) {
                bodyf[k] = wm_func(t.m, ":");
        }
        for (int k = 0; k < nS; k++) {
                if (S[k].on) {
                        emit_spawn(&t, bodyf[S[k].parent + 1], k, f_spawn_u, f_spawn2);
                }
        }
        for (int k = 0; k < nS; k++) {
                struct wfunc *f = bodyf[k + 1];
                u32 l = wf_local(f, T_I32);
                if (S[k].work) {
                        blk(f, OP_LOOP, 0x40);
                        lget(f, l);
                        i32c(f, 1);
                        op(f, OP_I32_ADD);
                        ltee(f, l);
                        i32c(f, S[k].work);
                        op(f, OP_I32_LT_U);
                        op_u(f, OP_BR_IF, 0);
                        op(f, OP_END);
                }
        }
        struct wfunc *ts = wm_func(t.m, "ii:");
        u32 known = wf_local(ts, T_I32);
        for (int k = 0; k < nS; k++) {
                if (!S[k].on) {
                        continue;
                }
                lget(ts, 1);
                i32c(ts, S[k].arg);
                op(ts, OP_I32_EQ);
                blk(ts, OP_IF, 0x40);
                i32c(ts, 1);
                lset(ts, known);
                i32c(ts, 1000 + k);
                lget(ts, 0);
                call(ts, t.f_note);
                i32c(ts, 3000 + k);
                gget(ts, g);
                call(ts, t.f_note);
                i32c(ts, 100 + k);
                gset(ts, g);
                call(ts, bodyf[k + 1]->idx);
                i32c(ts, 4000 + k);
                gget(ts, g);
                call(ts, t.f_note);
                i32c(ts, 2000 + k);
                lget(ts, 0);
                call(ts, t.f_note);
                i32c(ts, 0);
                i32c(ts, 1);
                atomop(ts, 0x1e, 2, MT_DONE);
                op(ts, OP_DROP);
                i32c(ts, 0);
                i32c(ts, -1);
                atomop(ts, A_NOTIFY, 2, MT_DONE);
                op(ts, OP_DROP);
                if (S[k].end) {
                        call(ts, f_texit);
                        i32c(ts, 1999);
                        i32c(ts, 0);
                        call(ts, t.f_note);
                }
                op(ts, OP_END);
        }
        lget(ts, known);
        op(ts, OP_I32_EQZ);
        blk(ts, OP_IF, 0x40);
        i32c(ts, 1999);
        i32c(ts, 0);
        call(ts, t.f_note);
        op(ts, OP_END);
        wm_export(t.m, "wasi_thread_start", 0, ts->idx);
        struct wfunc *f = wm_func(t.m, ":");
        call(f, bodyf[0]->idx);
        u32 v = wf_local(f, T_I32), rounds = wf_local(f, T_I32);
        blk(f, OP_BLOCK, 0x40);
        blk(f, OP_LOOP, 0x40);
        i32c(f, 0);
        atomop(f, 0x10, 2, MT_DONE);
        ltee(f, v);
        i32c(f, 0);
        atomop(f, 0x10, 2, MT_NSPAWN);
        op(f, OP_I32_EQ);
        op_u(f, OP_BR_IF, 1);
        i32c(f, 0);
        lget(f, v);
        i64c(f, afault ? (i64)SEC : -1);
        atomop(f, A_WAIT32, 2, MT_DONE);
        op(f, OP_DROP);
        lget(f, rounds);
        i32c(f, 1);
        op(f, OP_I32_ADD);
        ltee(f, rounds);
        i32c(f, 60);
        op(f, OP_I32_GE_U);
        i32c(f, afault);
        op(f, OP_I32_AND);
        op_u(f, OP_BR_IF, 1);
        op_u(f, OP_BR, 0);
        op(f, OP_END);
        op(f, OP_END);
        wm_export(t.m, "_start", 0, f->idx);
        size_t sz;
        u8 *b = mt_build(&t, &sz);
        struct emb e;
        emb_init(&e);
        e.use_wasi = e.use_threads = true;
        e.bin = b;
        e.binsz = sz;
        emb_note = spawn_note;
        emb_begin_cb = spawn_begin;
        emb_end_cb = spawn_end;
        cfg.prob[F_ALLOC] = 0;
        int ret = emb_all(&e);
        if (ret != 0) {
                sim_violation("setup", "setting up failed: %d %s", ret, e.loadmsg);
        }
        if (afault) {
                cfg.alloc_gated = true;
                cfg.prob[F_ALLOC] = 10000;
        }
        ret = emb_call(&e, "_start", NULL, NULL);
        cfg.prob[F_ALLOC] = 0;
        over = true;
        if ((ret != 0 || e.trapped) && !(ret == 12 && out_of_memory(-1))) {
                sim_violation("outcome", "program ended with %d trap %u %s", ret, e.trapid, e.trapmsg);
        }
        bool cut = ret != 0;
        int nsucc = 0, nfail = 0;
        for (int k = 0; k < nS; k++) {
                struct hist *h = &H[k];
                if (h->nend != 1) {
                        if (starts[k] && !cut && !out_of_memory(S[k].parent)) {
                                sim_violation("spawn-failed-ran", "spawn %d never completed but its thread ran", k);
                        }
                        continue;
                }
                if (h->res > 0) {
                        nsucc++;
                        if (S[k].bad) {
                                sim_violation("spawn-failed", "spawn %d reported identifier %lld although the start function trapped", k, (long long)h->res);
                        }
                        if (starts[k] != 1 && !(cut && starts[k] == 0) && !(USCHED && out_of_memory(k) && starts[k] == 0)) {
                                sim_violation("spawn-lost", "spawn %d reported identifier %lld; its thread was started %u times", k, (long long)h->res,
                                              starts[k]);
                        }
                        if (starts[k] == 1 && stid[k] != (u32)h->res) {
                                sim_violation("tid", "spawn %d reported identifier %lld, the thread was given %u", k, (long long)h->res, stid[k]);
                        }
                        if (!cut && starts[k] == 1 && ends[k] != 1 && !out_of_memory(k)) {
                                sim_violation("spawn-lost", "the thread of spawn %d did not reach its end", k);
                        }
                } else {
                        nfail++;
                        if (h->res == 0) {
                                sim_violation("tid", "spawn %d returned 0", k);
                        }
                        if (starts[k]) {
                                sim_violation("spawn-failed-ran", "spawn %d failed with %lld but its thread ran", k, (long long)h->res);
                        }
                        if (!hadfault[k] && !starts_fail) {
                                sim_violation("spawn-failed", "spawn %d failed with %lld although resources were available", k, (long long)h->res);
                        }
                        PROBE("spawn-failed");
                }
        }
        sim_sample("%d spawns (shape %u): %d succeeded, %d failed\n", nS, shape, nsucc, nfail);
        sim_sleep(SEC);
        emb_teardown(&e);
}

/* ------------------------------------------------------------------ P07 */
enum act { A_SPIN, A_WAITINF, A_WAITLONG, A_POLL, A_READ, A_WRITE, A_ACCEPT, A_GROW, A_SPAWN, A_SIZE, A_ATOMIC, A_FINISH, A_TEXIT, A_END, A_NACT };
static const char *const act_name[] = {"spins", "waits forever", "waits with timeouts", "polls", "reads", "writes", "accepts",
                                       "grows memory", "spawns", "reads the size", "counts", "finishes", "ends itself", "ends the process"};
enum endk { E_EXIT, E_UNREACH, E_DIV0, E_OOB, E_THROW, E_UNALIGNED, E_OOBN, E_RET, E_NK };
static const char *const end_name[] = {"exit", "unreachable", "division by zero", "out of bounds", "uncaught exception", "unaligned wait", "notify out of bounds", "return from main"};
struct xthr {
        enum act act;
        enum endk ek;
        u32 code;
        int delay; /* 0 none, 1 sleep, 2 spin */
        u64 ns;
        u32 spin;
        bool on;
};
static struct xthr X[MT_MAXT];
static u64 first_end;

static void
exit_note(u32 id, u32 val)
{
        if (over) {
                sim_violation("after-end", "a guest thread ran after the process had ended");
        }
}

static void
exit_begin(u32 id)
{
        if (over) {
                sim_violation("after-end", "a guest thread ran after the process had ended");
        }
        if (first_end == 0 && id < MT_MAXT && (X[id].act == A_END)) {
                first_end = sim_now();
        }
}

void
cfg_exit(void)
{
        static const u32 p[] = {0, 0, 500, 5000, 40000};
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 5)];
        cfg.prob[F_SPURIOUS] = p[rndn(R_CFG, 5)] * 10;
        cfg.prob[F_STALL] = rndp(R_CFG, 1, 4) ? p[rndn(R_CFG, 3)] : 0;
        cfg.maxf[F_STALL] = 4;
        cfg.prob[F_EINTR] = p[rndn(R_CFG, 5)];
        static const u64 tps[] = {200000, 1000000};
        cfg.tick_ps = tps[rndn(R_CFG, 2)];
        cfg.syscall_ns = rndlog(R_CFG, 1000, 100000);
}

static void
cell_inc(struct wfunc *f, int i)
{
        i32c(f, 0);
        i32c(f, 0);
        memop(f, OP_I32_LOAD, 2, 1024 + 64 * i);
        i32c(f, 1);
        op(f, OP_I32_ADD);
        memop(f, OP_I32_STORE, 2, 1024 + 64 * i);
}

void
run_exit(void)
{
        struct mt t;
        int nt = rndr(R_GEN, 1, 7);
        u32 maxp = rndr(R_GEN, 2, 40);
        mt_begin(&t, nt, 1, maxp);
        const char *w1 = "wasi_snapshot_preview1";
        u32 f_read = wm_import_func(t.m, w1, "fd_read", "iiii:i");
        u32 f_write = wm_import_func(t.m, w1, "fd_write", "iiii:i");
        u32 f_poll = wm_import_func(t.m, w1, "poll_oneoff", "iiii:i");
        u32 f_accept = wm_import_func(t.m, w1, "sock_accept", "iii:i");
        u32 f_texit = wm_import_func(t.m, "wasi", "thread_exit", ":");
        u32 tag = wm_tag(t.m, ":");
        memset(X, 0, sizeof(X));
        first_end = 0;
        int nend = rndp(R_GEN, 1, 6) ? 0 : rndp(R_GEN, 1, 2) ? 1 : rndr(R_GEN, 2, 3);
        bool quiet = nend == 0; /* nobody ends the process: main joins the others */
        for (int i = 0; i < nt; i++) {
                X[i].act = quiet ? (rndp(R_GEN, 1, 2) ? A_FINISH : A_TEXIT) : rndn(R_GEN, A_END);
                X[i].ek = rndn(R_GEN, E_NK);
                X[i].code = rndn(R_GEN, 126);
                X[i].delay = rndn(R_GEN, 3);
                X[i].ns = rndlog(R_GEN, 1000, 3 * SEC);
                X[i].spin = rndlog(R_GEN, 1, 2000);
                X[i].on = sim_op_enabled(sim_op_next());
        }
        if (quiet) {
                X[0].act = A_FINISH;
        }
        for (int i = 0; i < nend; i++) {
                X[rndn(R_GEN, nt)].act = A_END;
        }
        if (!quiet) {
                /* main either ends the process or never returns */
                if (X[0].act == A_FINISH || X[0].act == A_TEXIT) {
                        X[0].act = A_WAITINF;
                }
                bool any = false;
                for (int i = 0; i < nt; i++) {
                        any |= X[i].act == A_END && X[i].on;
                }
                if (!any) {
                        X[0].act = A_END;
                        X[0].on = true;
                }
        }
        for (int i = 0; i < nt; i++) {
                struct xthr *x = &X[i];
                struct wfunc *f = t.tf[i] = wm_func(t.m, ":");
                u32 base = 4096 + 512 * i;
                u32 l = wf_local(f, T_I32);
                if (!x->on && !(i == 0 && !quiet)) {
                        continue; /* a thread that does nothing */
                }
                if (x->delay == 1) {
                        /* a sleep the guest itself performs */
                        i32c(f, 0);
                        i32c(f, 0);
                        i64c(f, (i64)x->ns);
                        atomop(f, A_WAIT32, 2, base);
                        op(f, OP_DROP);
                } else if (x->delay == 2) {
                        blk(f, OP_LOOP, 0x40);
                        cell_inc(f, i);
                        lget(f, l);
                        i32c(f, 1);
                        op(f, OP_I32_ADD);
                        ltee(f, l);
                        i32c(f, x->spin);
                        op(f, OP_I32_LT_U);
                        op_u(f, OP_BR_IF, 0);
                        op(f, OP_END);
                }
                if (x->act == A_END) {
                        if (x->ek == E_RET && i != 0) {
                                x->ek = E_EXIT;
                        }
                        evb(&t, f, i);
                        switch (x->ek) {
                        case E_EXIT:
                                i32c(f, x->code);
                                call(f, t.f_exit);
                                break;
                        case E_UNREACH:
                                op(f, OP_UNREACHABLE);
                                break;
                        case E_DIV0:
                                i32c(f, 1);
                                i32c(f, 0);
                                op(f, 0x6d);
                                op(f, OP_DROP);
                                break;
                        case E_OOB:
                                i32c(f, -4);
                                memop(f, OP_I32_LOAD, 2, 0);
                                op(f, OP_DROP);
                                break;
                        case E_THROW:
                                op_u(f, 0x08, tag);
                                break;
                        case E_UNALIGNED:
                                i32c(f, base + 2);
                                i32c(f, 0);
                                i64c(f, -1);
                                atomop(f, A_WAIT32, 2, 0);
                                op(f, OP_DROP);
                                break;
                        case E_OOBN:
                                i32c(f, -4);
                                i32c(f, 1);
                                atomop(f, A_NOTIFY, 2, 0);
                                op(f, OP_DROP);
                                break;
                        default:
                                op(f, OP_RETURN);
                                break;
                        }
                        continue;
                }
                if (x->act == A_FINISH || x->act == A_TEXIT) {
                        evb(&t, f, i);
                        if (x->act == A_TEXIT && i != 0) {
                                i32c(f, 0);
                                i32c(f, 1);
                                atomop(f, 0x1e, 2, MT_DONE);
                                op(f, OP_DROP);
                                i32c(f, 0);
                                i32c(f, -1);
                                atomop(f, A_NOTIFY, 2, MT_DONE);
                                op(f, OP_DROP);
                                call(f, f_texit);
                        }
                        continue;
                }
                blk(f, OP_LOOP, 0x40);
                cell_inc(f, i);
                switch (x->act) {
                case A_WAITINF:
                        i32c(f, 0);
                        i32c(f, 0);
                        i64c(f, -1);
                        atomop(f, A_WAIT32, 2, base);
                        op(f, OP_DROP);
                        break;
                case A_WAITLONG:
                        i32c(f, 0);
                        i32c(f, 0);
                        i64c(f, (i64)x->ns * 100);
                        atomop(f, A_WAIT32, 2, base);
                        op(f, OP_DROP);
                        break;
                case A_POLL:
                        st64(f, base, 1);
                        st64(f, base + 8, 0);
                        st64(f, base + 16, x->code & 1);
                        st64(f, base + 24, x->ns * 1000);
                        st64(f, base + 32, 0);
                        st64(f, base + 40, 0);
                        i32c(f, base);
                        i32c(f, base + 64);
                        i32c(f, 1);
                        i32c(f, base + 128);
                        call(f, f_poll);
                        op(f, OP_DROP);
                        break;
                case A_READ:
                case A_WRITE:
                        st32(f, base, base + 64);
                        st32(f, base + 4, 64);
                        i32c(f, x->act == A_READ ? 0 : 1);
                        i32c(f, base);
                        i32c(f, 1);
                        i32c(f, base + 8);
                        call(f, x->act == A_READ ? f_read : f_write);
                        op(f, OP_DROP);
                        break;
                case A_ACCEPT:
                        i32c(f, 3);
                        i32c(f, 0);
                        i32c(f, base);
                        call(f, f_accept);
                        op(f, OP_DROP);
                        break;
                case A_GROW:
                        i32c(f, x->code & 1);
                        op(f, OP_MEMORY_GROW);
                        bb_u8(&f->code, 0);
                        op(f, OP_DROP);
                        break;
                case A_SPAWN:
                        lget(f, l);
                        i32c(f, 1);
                        op(f, OP_I32_ADD);
                        ltee(f, l);
                        i32c(f, 25);
                        op(f, OP_I32_LT_U);
                        blk(f, OP_IF, 0x40);
                        i32c(f, 1000); /* does nothing */
                        call(f, t.f_spawn);
                        op(f, OP_DROP);
                        op(f, OP_END);
                        i32c(f, 0);
                        i32c(f, 0);
                        i64c(f, (i64)(20 * MS));
                        atomop(f, A_WAIT32, 2, base);
                        op(f, OP_DROP);
                        break;
                case A_SIZE:
                        op(f, OP_MEMORY_SIZE);
                        bb_u8(&f->code, 0);
                        op(f, OP_DROP);
                        break;
                case A_ATOMIC:
                        i32c(f, 0);
                        i32c(f, 1);
                        atomop(f, 0x1e, 2, 128);
                        op(f, OP_DROP);
                        break;
                default:
                        break;
                }
                op_u(f, OP_BR, 0);
                op(f, OP_END);
        }
        bool mainfirst = !quiet && rndp(R_GEN, 1, 10) && X[0].act == A_END;
        mt_end(&t, mainfirst ? 0 : nt, quiet);
        size_t sz;
        u8 *b = mt_build(&t, &sz);
        struct emb e;
        emb_init(&e);
        e.use_wasi = e.use_threads = true;
        e.bin = b;
        e.binsz = sz;
        emb_note = exit_note;
        emb_begin_cb = exit_begin;
        std_in->wclosed = false;
        std_out->cap = 200;
        int ret = emb_setup(&e);
        if (ret == 0) {
                ret = wasi_instance_add_hostfd(e.wasi, 3, world_install(of_listen(), -1));
        }
        if (ret == 0) {
                ret = emb_load(&e);
        }
        if (ret == 0) {
                ret = emb_link(&e);
        }
        if (ret == 0) {
                ret = emb_start(&e);
        }
        if (ret != 0) {
                sim_violation("setup", "setting up failed: %d %s", ret, e.loadmsg);
        }
        u64 te, msz;
        bool hasty = rndp(R_GEN, 1, 2);
        int rounds = rndp(R_GEN, 1, 3) ? 2 : 1;
again:;
        u64 stalled0 = sim_stalled;
        over = false;
        first_end = 0;
        memset(H, 0, sizeof(H));
        e.trapid = e.exit_code = 0;
        ret = emb_call(&e, "_start", NULL, NULL);
        te = sim_now();
        over = true;
        static const u32 tid[] = {TRAP_VOLUNTARY_EXIT, TRAP_UNREACHABLE, TRAP_DIV_BY_ZERO, TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS, TRAP_UNCAUGHT_EXCEPTION,
                                     TRAP_UNALIGNED_ATOMIC_OPERATION, TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS};
        bool ok = false;
        char want[600];
        size_t l = 0;
        want[0] = 0;
        if (quiet) {
                ok = ret == 0;
                for (int i = 0; i < nt; i++) {
                        if (X[i].on && H[i].nbegin != 1) {
                                sim_violation("thread-lost", "the process completed but thread %d did not", i);
                        }
                }
                l += snprintf(want, sizeof(want), " normal completion");
        }
        for (int i = 0; i < nt && !quiet; i++) {
                if (X[i].act != A_END || H[i].nbegin == 0) {
                        continue;
                }
                if (X[i].ek == E_RET) {
                        ok |= ret == 0;
                } else if (ret == ETOYWASMTRAP && e.trapid == tid[X[i].ek]) {
                        ok |= X[i].ek != E_EXIT || e.exit_code == X[i].code;
                }
                l += snprintf(want + l, sizeof(want) - l, " %s(%u)", end_name[X[i].ek], X[i].ek == E_EXIT ? X[i].code : 0);
        }
        if (!ok) {
                sim_violation("outcome", "the embedder saw %d trap %u exit code %u; what happened in the program was:%s", ret, e.trapid, e.exit_code, want);
        }
        if (!quiet && te - first_end > 10 * SEC + (sim_stalled - stalled0) + 4 * (u64)nt * (300000 * cfg.tick_ps / 1000)) {
                sim_violation("late-end", "the process ended %llu ms after a thread had ended it", (unsigned long long)((te - first_end) / MS));
        }
        if (!hasty) {
                u8 *mem = emb_mem(&e, &msz);
                u8 snap[8192];
                memcpy(snap, mem, sizeof(snap));
                sim_sleep(20 * SEC);
                mem = emb_mem(&e, &msz);
                if (memcmp(snap, mem, sizeof(snap))) {
                        sim_violation("after-end", "guest memory changed after the process had ended");
                }
                if (sim_live_threads() != 0) {
                        sim_violation("after-end", "%d threads are alive after the process has ended", sim_live_threads());
                }
        }
        if (--rounds > 0) {
                /* once more with the same instance */
                memset(emb_mem(&e, &msz), 0, 16384);
                PROBE("executed-again");
                goto again;
        }
        for (int i = 0; i < nt; i++) {
                if (X[i].on) {
                        sim_sample("%s%s", act_name[X[i].act], i == nt - 1 ? "" : ", ");
                        if (X[i].act < A_END && !quiet) {
                                static int pid[A_NACT];
                                char nm[40];
                                snprintf(nm, sizeof(nm), "stopped-while-%s", act_name[X[i].act]);
                                for (char *c = nm; *c; c++) {
                                        if (*c == ' ') {
                                                *c = '-';
                                        }
                                }
                                pid[X[i].act] = probe_id(nm);
                                shm->probe[pid[X[i].act]]++;
                        }
                }
        }
        sim_sample(" -> %d trap %u code %u after %llu ms\n", ret, e.trapid, e.exit_code, quiet ? 0ULL : (unsigned long long)((te - first_end) / MS));
        emb_teardown(&e);
}
