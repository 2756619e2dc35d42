/* P13: allocations fail while modules are loaded, linked and instantiated. */
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "progen.h"

void cfg_load(void);
void run_load(void);

void
cfg_load(void)
{
        static const u32 p[] = {0, 0, 1 << 18, 1 << 15};
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 4)];
        cfg.max_vtime = 100000 * SEC;
}

/* ------------------------------------------------------------------ failures */
static u64 fired0, nfail, nsurvived;
static u32 mode;
static int limit_stage; /* the stage before which a memory limit is set */
static struct mem_context *limited;
/* make allocations fail from now on; total: how many a undisturbed attempt makes */
static void
arm(u64 total)
{
        cfg.alloc_nth = 0;
        cfg.prob[F_ALLOC] = 0;
        limit_stage = -1;
        if (mode == 3) {
                limit_stage = rndr(R_WORLD, 1, 4);
        } else if (mode == 2) {
                cfg.prob[F_ALLOC] = (u32)rndlog(R_WORLD, 2000, 200000);
        } else {
                cfg.alloc_nth = sim_alloc_count() + 1 + rndn(R_WORLD, (u32)total + 1);
                cfg.alloc_persist = mode == 1;
        }
        fired0 = shm->fault_count[F_ALLOC];
        cfg.fault_on = true;
}
static bool
disarm(void)
{
        cfg.fault_on = false;
        cfg.alloc_nth = 0;
        cfg.prob[F_ALLOC] = 0;
        limit_stage = -1;
        if (limited != NULL) {
                if (mem_context_setlimit(limited, SIZE_MAX)) {
                        sim_violation("afterwards", "cannot lift a memory limit");
                }
                limited = NULL;
                return true;
        }
        return shm->fault_count[F_ALLOC] != fired0;
}
static void
nothing_left(struct alloc_mark m, const char *after)
{
        char b[800];
        size_t n = sim_live_since(m, b, sizeof(b));
        if (n != 0) {
                sim_violation("left-behind", "%zu allocations remain after %s failed:%s", n, after, b);
        }
}
static void
failed(int ret, bool fired, const char *what)
{
        if (!fired) {
                sim_violation("failed", "%s failed with %d although nothing else did", what, ret);
        }
        if (IS_RESTARTABLE(ret)) {
                sim_violation("failed", "%s failed with %d, which asks for a restart", what, ret);
        }
        sim_log("%s failed with %d", what, ret);
        nfail++;
}

static const char *const stages[] = {"setting up", "importing", "loading", "linking", "starting"};
static struct import_object *
unlink_shmem(struct emb *e)
{
        if (e->shmem != NULL) {
                import_object_destroy(&e->imp, e->shmem);
                e->shmem = NULL;
        }
        return NULL;
}

/* one stage of getting a module to run */
static int
stage(struct emb *e, int s, struct instance *lib)
{
        static const struct name libname = NAME_FROM_CSTR_LITERAL("L");
        switch (s) {
        case 0:
                return emb_setup(e);
        case 1: {
                if (lib == NULL) {
                        return 0;
                }
                struct import_object *im;
                int ret = import_object_create_for_exports(&e->imp, lib, &libname, &im);
                if (ret == 0) {
                        e->extra_chain = im;
                }
                return ret;
        }
        case 2:
                return emb_load(e);
        case 3:
                return emb_link(e);
        default:
                return emb_start(e);
        }
}
static void
down(struct emb *e)
{
        if (e->inst != NULL) {
                instance_destroy(e->inst);
                e->inst = NULL;
        }
        if (e->extra_chain != NULL) {
                import_object_destroy(&e->imp, e->extra_chain);
                e->extra_chain = NULL;
        }
        emb_teardown(e);
}

/*
 * Gets a module to run, with failures. A stage that failed is repeated or everything is taken down.
 * Returns whether it is running.
 */
static bool
attempt(struct emb *e, struct instance *lib, u64 total, void (*unchanged)(int s))
{
        bool again = rndp(R_WORLD, 1, 2);
        arm(total);
        for (int s = 0; s < 5; s++) {
                struct alloc_mark m = sim_alloc_mark();
                if (s == limit_stage) {
                        limited = &e->top;
                        if (mem_context_setlimit(limited, limited->allocated + rndlog(R_WORLD, 1, 200000))) {
                                sim_violation("failed", "cannot set a memory limit");
                        }
                }
                int ret = stage(e, s, lib);
                if (ret == 0) {
                        continue;
                }
                failed(ret, disarm(), stages[s]);
                if (s == 3) {
                        unlink_shmem(e);
                }
                if (s >= 1 && s <= 3) {
                        nothing_left(m, stages[s]);
                }
                if (unchanged != NULL) {
                        unchanged(s);
                }
                if (s == 0 || !again) {
                        down(e);
                        if (s < 4) {
                                return false;
                        }
                        return false;
                }
                if (s == 4) {
                        instance_destroy(e->inst);
                        e->inst = NULL;
                        unlink_shmem(e);
                        s = 3;
                }
                ret = stage(e, s, lib);
                if (ret != 0) {
                        sim_violation("afterwards", "%s again after a failure ends with %d %s", stages[s], ret, e->loadmsg);
                }
                PROBE("repeated-stage");
        }
        if (disarm()) {
                nsurvived++;
        }
        return true;
}

/* loading something that is not quite a module, at times with failures too: refused or not, nothing remains of it */
static void
damaged(const u8 *good, size_t n)
{
        static struct emb e;
        size_t bn = n;
        u8 *b = malloc(n + 8);
        memcpy(b, good, n);
        u32 k = rndr(R_GEN, 1, 3);
        for (u32 i = 0; i < k && bn > 16; i++) {
                u32 at = 8 + rndn(R_GEN, (u32)bn - 8), j = rndr(R_GEN, 1, 4);
                switch (rndn(R_GEN, 6)) {
                case 0:
                        bn = at;
                        break;
                case 1:
                        b[at] ^= 1 << rndn(R_GEN, 8);
                        break;
                case 2:
                        b[at] = (u8)rndn(R_GEN, 256);
                        break;
                case 3:
                        b[at] = (u8)(b[at] + rndr(R_GEN, 0, 2) - 1);
                        break;
                case 4:
                        for (; j-- > 0 && at < bn; at++) {
                                b[at] = rndp(R_GEN, 1, 2) ? 0xff : 0x80;
                        }
                        break;
                default: /* some bytes are missing */
                        if (at + j < bn) {
                                memmove(b + at, b + at + j, bn - at - j);
                                bn -= j;
                        }
                        break;
                }
        }
        u8 *x = malloc(bn);
        memcpy(x, b, bn);
        free(b);
        emb_init(&e);
        e.bin = x;
        e.binsz = bn;
        if (emb_setup(&e)) {
                sim_violation("generator", "cannot set up");
        }
        bool fail = rndp(R_GEN, 1, 3);
        struct alloc_mark m = sim_alloc_mark();
        if (fail) {
                arm(40 + n / 10);
                limit_stage = -1;
        }
        int ret = emb_load(&e);
        if (fail) {
                disarm();
        }
        if (ret == 0) {
                PROBE("damaged-accepted");
                module_destroy(&e.mod, e.m);
                e.m = NULL;
        } else {
                PROBE("damaged-refused");
        }
        sim_log("loading a damaged module: %d %s", ret, ret ? e.loadmsg : "");
        nothing_left(m, "loading a damaged module");
        down(&e);
        free(x);
}

/* ------------------------------------------------------------------ a module of its own */
static struct pg pg;
static struct pg_run base, test;
static void
check_run(void)
{
        pg_exec(&test);
        pg_final(&test);
        snprintf(test.trapmsg, sizeof(test.trapmsg), "%s", base.trapmsg);
        const char *d = pg_diff(&base, &test);
        if (d != NULL) {
                sim_violation("afterwards", "after %llu failed attempts: %s", (unsigned long long)nfail, d);
        }
        down(&test.e);
}
static void
reset(struct pg_run *r)
{
        memset(r, 0, sizeof(*r));
        r->inkey = base.inkey;
        pg_prepare(r, &pg);
}
static void
own(void)
{
        struct pg_opt o;
        memset(&o, 0, sizeof(o));
        o.threaded = rndp(R_GEN, 1, 4);
        o.waits = rndp(R_GEN, 1, 2);
        o.nfunc = rndr(R_GEN, 2, 8);
        o.fuel = (u32)rndlog(R_GEN, 4, 30);
#if defined(TOYWASM_USE_USER_SCHED)
        o.threaded = false;
#endif
        pg_generate(&pg, &o);
        base.inkey = rnd(R_GEN);
        pg_prepare(&base, &pg);
        u64 n0 = sim_alloc_count();
        int ret = emb_all(&base.e);
        if (ret != 0) {
                sim_violation("generator", "the program does not load: %d %s %s", ret, base.e.loadmsg, base.e.trapmsg);
        }
        u64 total = sim_alloc_count() - n0;
        pg_exec(&base);
        pg_final(&base);
        down(&base.e);
        u32 tries = rndr(R_GEN, 1, 6);
        for (u32 i = 0; i < tries; i++) {
                u32 id = sim_op_next();
                if (!sim_op_enabled(id)) {
                        continue;
                }
                if (rndp(R_GEN, 1, 3)) {
                        damaged(pg.bin, pg.n);
                        continue;
                }
                struct alloc_mark m = sim_alloc_mark();
                reset(&test);
                if (attempt(&test.e, NULL, total, NULL)) {
                        check_run();
                        if (nsurvived != 0) {
                                PROBE("survived");
                        }
                } else {
                        test.over = true;
                        nothing_left(m, "an attempt");
                        PROBE("failed-attempt");
                }
        }
        reset(&test);
        for (int s = 0; s < 5; s++) {
                ret = stage(&test.e, s, NULL);
                if (ret != 0) {
                        sim_violation("afterwards", "%s after failed attempts ends with %d %s", stages[s], ret, test.e.loadmsg);
                }
        }
        check_run();
        sim_sample("module of its own: %u functions, %zu bytes, %llu allocations, %llu failed and %llu survived attempts\n", o.nfunc, pg.n,
                   (unsigned long long)total, (unsigned long long)nfail, (unsigned long long)nsurvived);
        pg_free(&pg);
}

/* ------------------------------------------------------------------ a module that imports from another instance */
#define LMEM 8192
#define LTAB 8
#define NLFUNC 3
static struct emb lib, cli;
/* what the library's objects have to contain */
struct lstate {
        u8 mem[LMEM];
        int tab[LTAB]; /* function, -1 null */
        u32 g;
};
static struct lstate L;
/* the writes instantiation of the client makes, in order */
static struct wr {
        int kind; /* 0 table, 1 memory, 2 global */
        u32 off, n;
        u8 val[64];
} wr[16];
static u32 nwr, fsel, cval;

static void
apply(struct lstate *l, const struct wr *x)
{
        if (x->kind == 0) {
                for (u32 i = 0; i < x->n; i++) {
                        l->tab[x->off + i] = x->val[i];
                }
        } else if (x->kind == 1) {
                memcpy(l->mem + x->off, x->val, x->n);
        } else {
                memcpy(&l->g, x->val, 4);
        }
}
static void
get_state(struct lstate *l)
{
        struct instance *in = lib.inst;
        struct meminst *mi = VEC_ELEM(in->mems, 0);
        memset(l, 0, sizeof(*l));
        memcpy(l->mem, mi->data, mi->allocated < LMEM ? mi->allocated : LMEM);
        struct tableinst *t = VEC_ELEM(in->tables, 0);
        for (u32 i = 0; i < LTAB; i++) {
                struct val v;
                memset(&v, 0, sizeof(v));
                table_get(t, i, &v);
                l->tab[i] = -1;
                if (v.u.funcref.func != NULL) {
                        l->tab[i] = 99;
                        for (u32 k = 0; k < in->funcs.lsize; k++) {
                                if (VEC_ELEM(in->funcs, k) == v.u.funcref.func) {
                                        l->tab[i] = (int)k;
                                }
                        }
                }
        }
        struct val v;
        memset(&v, 0, sizeof(v));
        global_get(VEC_ELEM(in->globals, 0), &v);
        l->g = v.u.i32;
}
static bool
same(const struct lstate *a, const struct lstate *b)
{
        return memcmp(a, b, sizeof(*a)) == 0;
}
static void
check_lib(int s)
{
        static struct lstate now, want;
        get_state(&now);
        want = L;
        for (u32 i = 0;; i++) {
                if (same(&now, &want)) {
                        L = now;
                        return;
                }
                if (s < 4 || i == nwr) {
                        break;
                }
                apply(&want, &wr[i]);
        }
        sim_violation("disturbed", "the objects imported from another instance were changed when %s failed", stages[s]);
}
static void
check_lib_works(void)
{
        struct val a[2], o[1];
        memset(a, 0, sizeof(a));
        memset(o, 0, sizeof(o));
        a[0].u.i32 = 1000;
        a[1].u.i32 = 77;
        int ret = emb_call(&lib, "add", a, o);
        if (ret != 0 || o[0].u.i32 != 1077) {
                sim_violation("disturbed", "a function of the other instance returns %d with %u", ret, o[0].u.i32);
        }
        ret = emb_call(&lib, "get", a, o);
        u32 want;
        memcpy(&want, L.mem + 1000, 4);
        if (ret != 0 || o[0].u.i32 != want) {
                sim_violation("disturbed", "a load by the other instance returns %d with %u instead of %u", ret, o[0].u.i32, want);
        }
}

static u8 *
build_lib(size_t *n)
{
        struct wmod *m = wm_new();
        wm_memory(m, 1, rndp(R_GEN, 1, 2) ? 4 : -1, false);
        wm_table(m, T_FUNCREF, LTAB, 2 * LTAB);
        wm_global_const(m, T_I32, true, 5);
        wm_global_const(m, T_I64, false, 64);
        wm_tag(m, "i:");
        struct wfunc *add = wm_func(m, "ii:i");
        lget(add, 0);
        lget(add, 1);
        op(add, OP_I32_ADD);
        struct wfunc *get = wm_func(m, "ii:i");
        lget(get, 0);
        memop(get, OP_I32_LOAD, 0, 0);
        struct wfunc *sub = wm_func(m, "ii:i");
        lget(sub, 0);
        lget(sub, 1);
        op(sub, OP_I32_SUB);
        wm_export(m, "m", 2, 0);
        wm_export(m, "t", 1, 0);
        wm_export(m, "g", 3, 0);
        wm_export(m, "c", 3, 1);
        wm_export(m, "e", 4, 0);
        wm_export(m, "add", 0, add->idx);
        wm_export(m, "get", 0, get->idx);
        wm_export(m, "sub", 0, sub->idx);
        memset(&L, 0, sizeof(L));
        for (int i = 0; i < LTAB; i++) {
                L.tab[i] = -1;
        }
        L.g = 5;
        u8 d[16];
        for (int i = 0; i < 16; i++) {
                d[i] = (u8)rnd(R_GEN);
        }
        wm_data(m, 1000, d, 16);
        memcpy(L.mem + 1000, d, 16);
        if (rndp(R_GEN, 1, 2)) {
                u32 f[2] = {2, 0};
                wm_elem_funcs(m, 1, f, 2);
                L.tab[1] = 2;
                L.tab[2] = 0;
        }
        u8 *b = wm_build(m, n);
        wm_free(m);
        return b;
}

static u8 *
build_client(size_t *n, u32 nshared)
{
        static const char *const fn[NLFUNC] = {"add", "get", "sub"};
        struct wmod *m = wm_new();
        u32 f_add = 0;
        u32 nextra = rndn(R_GEN, 20);
        for (int i = 0; i < NLFUNC; i++) {
                u32 x = wm_import_func(m, "L", fn[i], "ii:i");
                f_add = i == 0 ? x : f_add;
        }
        for (u32 i = 0; i < nextra; i++) {
                wm_import_func(m, "L", fn[i % NLFUNC], "ii:i");
        }
        wm_import_memory(m, "L", "m", 1, -1, false);
        for (u32 i = 0; i < nshared; i++) {
                char nm[8];
                snprintf(nm, sizeof(nm), "s%u", i);
                wm_import_memory(m, "env", nm, 1, 2 + i, true);
        }
        wm_import_table(m, "L", "t", 1, -1);
        u32 g = wm_import_global(m, "L", "g", T_I32, true);
        u32 c = wm_import_global(m, "L", "c", T_I64, false);
        nwr = 0;
        u32 ne = rndn(R_GEN, 4), nd = rndn(R_GEN, 5);
        for (u32 i = 0; i < ne; i++) {
                struct wr *x = &wr[nwr++];
                x->kind = 0;
                x->n = rndr(R_GEN, 0, 4);
                x->off = rndn(R_GEN, LTAB - 4);
                u32 f[4];
                for (u32 k = 0; k < x->n; k++) {
                        f[k] = rndn(R_GEN, NLFUNC);
                        x->val[k] = (u8)f[k];
                }
                wm_elem_funcs(m, x->off, f, x->n);
        }
        for (u32 i = 0; i < nd; i++) {
                struct wr *x = &wr[nwr++];
                x->kind = 1;
                x->n = rndr(R_GEN, 0, 60);
                x->off = rndp(R_GEN, 1, 2) ? 990 + rndn(R_GEN, 30) : rndn(R_GEN, LMEM - 64);
                for (u32 k = 0; k < x->n; k++) {
                        x->val[k] = (u8)rnd(R_GEN);
                }
                wm_data(m, x->off, x->val, x->n);
        }
        u32 npass = rndn(R_GEN, 3);
        for (u32 i = 0; i < npass; i++) {
                wm_data_passive(m, "hello", 5);
        }
        u32 ng = rndn(R_GEN, 5);
        for (u32 i = 0; i < ng; i++) {
                wm_global_const(m, T_I32, true, i);
        }
        u32 nf = rndn(R_GEN, 6);
        for (u32 i = 0; i < nf; i++) {
                struct wfunc *f = wm_func(m, "iI:f");
                u32 nb = rndn(R_GEN, 40);
                for (u32 k = 0; k < nb; k++) {
                        blk(f, OP_BLOCK, 0x40);
                        op(f, OP_END);
                }
                op(f, 0x43);
                bb_raw(&f->code, "\0\0\0", 4);
        }
        cval = (u32)rnd(R_GEN) & 0xffff;
        struct wfunc *f = wm_func(m, "i:i");
        lget(f, 0);
        i32c(f, (int32_t)cval);
        call(f, f_add);
        gget(f, g);
        op(f, OP_I32_ADD);
        gget(f, c);
        op(f, OP_I32_WRAP);
        op(f, OP_I32_ADD);
        wm_export(m, "f", 0, f->idx);
        fsel = rndn(R_GEN, 2);
        if (fsel) {
                /* memory write, then global write */
                struct wfunc *st = wm_func(m, ":");
                struct wr *x = &wr[nwr++];
                x->kind = 1;
                x->off = 2000;
                x->n = 4;
                u32 v = (u32)rnd(R_GEN);
                memcpy(x->val, &v, 4);
                i32c(st, 2000);
                i32c(st, (int32_t)v);
                memop(st, OP_I32_STORE, 0, 0);
                x = &wr[nwr++];
                x->kind = 2;
                v = (u32)rnd(R_GEN) & 0xffff;
                memcpy(x->val, &v, 4);
                i32c(st, (int32_t)v);
                i32c(st, 0);
                call(st, f_add);
                gset(st, g);
                m->start = (int)st->idx;
        }
        u8 *b = wm_build(m, n);
        wm_free(m);
        return b;
}
static void
check_client(void)
{
        for (u32 i = 0; i < nwr; i++) {
                apply(&L, &wr[i]);
        }
        static struct lstate now;
        get_state(&now);
        if (!same(&now, &L)) {
                sim_violation("afterwards", "after %llu failed attempts, instantiation does not leave what it is specified to write", (unsigned long long)nfail);
        }
        struct val a[1], o[1];
        memset(a, 0, sizeof(a));
        memset(o, 0, sizeof(o));
        a[0].u.i32 = 31;
        int ret = emb_call(&cli, "f", a, o);
        if (ret != 0 || o[0].u.i32 != 31 + cval + L.g + 64) {
                sim_violation("afterwards", "a call of the new instance returns %d with %u instead of %u", ret, o[0].u.i32, 31 + cval + L.g + 64);
        }
        check_lib_works();
        down(&cli);
}
static void
prepare(const u8 *b, size_t n, bool thr)
{
        emb_init(&cli);
        cli.bin = b;
        cli.binsz = n;
        cli.use_threads = thr;
}
static void
importing(void)
{
        size_t ln, cn;
        u8 *lb = build_lib(&ln);
        u32 nshared = 0;
#if !defined(TOYWASM_USE_USER_SCHED)
        if (rndp(R_GEN, 1, 2)) {
                nshared = rndr(R_GEN, 1, 3);
        }
#endif
        emb_init(&lib);
        lib.bin = lb;
        lib.binsz = ln;
        int ret = emb_all(&lib);
        if (ret != 0) {
                sim_violation("generator", "the library does not load: %d %s", ret, lib.loadmsg);
        }
        u8 *cb = build_client(&cn, nshared);
        u64 total = 60 + nwr * 4 + cn / 10;
        u32 tries = rndr(R_GEN, 1, 6);
        for (u32 i = 0; i < tries; i++) {
                u32 id = sim_op_next();
                if (!sim_op_enabled(id)) {
                        continue;
                }
                if (rndp(R_GEN, 1, 3)) {
                        bool which = rndp(R_GEN, 1, 2);
                        damaged(which ? cb : lb, which ? cn : ln);
                        check_lib_works();
                        continue;
                }
                prepare(cb, cn, nshared != 0);
                u64 n0 = sim_alloc_count();
                if (attempt(&cli, lib.inst, total, check_lib)) {
                        total = sim_alloc_count() - n0;
                        check_client();
                } else {
                        PROBE("failed-attempt");
                        check_lib_works();
                }
        }
        prepare(cb, cn, nshared != 0);
        for (int s = 0; s < 5; s++) {
                ret = stage(&cli, s, lib.inst);
                if (ret != 0) {
                        sim_violation("afterwards", "%s after failed attempts ends with %d %s", stages[s], ret, cli.loadmsg);
                }
        }
        check_client();
        emb_teardown(&lib);
        free(lb);
        free(cb);
        sim_sample("importing module: %u shared memories, %u writes, %zu bytes, %llu failed attempts\n", nshared, nwr, cn, (unsigned long long)nfail);
}

void
run_load(void)
{
        mode = rndn(R_GEN, 4);
        cfg.fault_on = false;
        if (rndp(R_GEN, 1, 2)) {
                own();
        } else {
                importing();
        }
}
