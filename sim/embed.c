#include "embed.h"
#include <assert.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>

struct hist H[MAXH];
u64 hclock;
void (*emb_begin_cb)(u32 id);
void (*emb_end_cb)(u32 id, i64 res);

struct sim_hi {
        struct host_instance hi;
};
static struct sim_hi sim_hi;

static int
h_ev_begin(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v[1];
        vals_from_cells(v, params, &ft->parameter);
        u32 id = v[0].u.i32;
        sim_sync_point();
        if (id >= MAXH) {
                sim_violation("history", "operation id %u out of range", id);
        }
        struct hist *h = &H[id];
        if (++h->nbegin != 1 || h->nend != 0) {
                sim_violation("executed-twice", "operation %u was started %u times", id, h->nbegin);
        }
        h->b = ++hclock;
        h->tb = sim_now();
        h->fid = sim_fiber_id();
        shm->nops++;
        sim_trace(0xb, id, 0);
        sim_log("op %u begins", id);
        if (emb_begin_cb != NULL) {
                emb_begin_cb(id);
        }
        return 0;
}

static int
h_ev_end(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v[2];
        vals_from_cells(v, params, &ft->parameter);
        u32 id = v[0].u.i32;
        if (id >= MAXH) {
                sim_violation("history", "operation id %u out of range", id);
        }
        struct hist *h = &H[id];
        if (++h->nend != 1 || h->nbegin != 1) {
                sim_violation("executed-twice", "operation %u was completed %u times", id, h->nend);
        }
        h->e = ++hclock;
        h->te = sim_now();
        h->res = (i64)v[1].u.i64;
        sim_trace(0xc, id, v[1].u.i64);
        sim_log("op %u ends: %lld", id, (long long)h->res);
        if (emb_end_cb != NULL) {
                emb_end_cb(id, h->res);
        }
        sim_sync_point();
        return 0;
}

static int
h_now(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v;
        memset(&v, 0, sizeof(v));
        v.u.i64 = sim_now();
        vals_to_cells(&v, results, &ft->result);
        return 0;
}

static int
h_yield(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        sim_sync_point();
        return 0;
}

static int
h_sleep(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v[1];
        vals_from_cells(v, params, &ft->parameter);
        sim_sleep(v[0].u.i64);
        return 0;
}

void (*emb_note)(u32 id, u32 val);
static int
h_note(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v[2];
        vals_from_cells(v, params, &ft->parameter);
        sim_sync_point();
        sim_trace(0xd, v[0].u.i32, v[1].u.i32);
        sim_log("note %u %u", v[0].u.i32, v[1].u.i32);
        if (emb_note != NULL) {
                emb_note(v[0].u.i32, v[1].u.i32);
        }
        return 0;
}

static const struct host_func sim_funcs[] = {
        HOST_FUNC("ev_begin", h_ev_begin, "(i)"),
        HOST_FUNC("ev_end", h_ev_end, "(iI)"),
        HOST_FUNC("now", h_now, "()I"),
        HOST_FUNC("yield", h_yield, "()"),
        HOST_FUNC("sleep", h_sleep, "(I)"),
        HOST_FUNC("note", h_note, "(ii)"),
};
static const struct name sim_modname = NAME_FROM_CSTR_LITERAL("sim");
static const struct host_module sim_module = {
        .module_name = &sim_modname,
        .funcs = sim_funcs,
        .nfuncs = ARRAYCOUNT(sim_funcs),
};

void
emb_init(struct emb *e)
{
        memset(e, 0, sizeof(*e));
}

static void
chain(struct emb *e, struct import_object *im)
{
        im->next = e->imports;
        e->imports = im;
}

int
emb_setup(struct emb *e)
{
        mem_context_init(&e->top);
        mem_context_init(&e->mod);
        mem_context_init(&e->ins);
        mem_context_init(&e->wasim);
        mem_context_init(&e->imp);
        e->mod.parent = e->ins.parent = e->wasim.parent = e->imp.parent = &e->top;
        e->mctx_ready = true;
        int ret;
        if (e->limit != 0) {
                ret = mem_context_setlimit(&e->top, e->limit);
                if (ret != 0) {
                        return ret;
                }
        }
        struct import_object *im;
        ret = import_object_create_for_host_funcs(&e->imp, &sim_module, 1, &sim_hi.hi, &im);
        if (ret != 0) {
                return ret;
        }
        chain(e, im);
        if (e->hostmods != NULL) {
                ret = import_object_create_for_host_funcs(&e->imp, e->hostmods, e->nhostmods, &sim_hi.hi, &im);
                if (ret != 0) {
                        return ret;
                }
                chain(e, im);
        }
        if (e->use_wasi) {
                ret = wasi_instance_create(&e->wasim, &e->wasi);
                if (ret != 0) {
                        e->wasi = NULL;
                        return ret;
                }
                if (!e->no_stdio) {
                        ret = wasi_instance_populate_stdio_with_hostfd(e->wasi);
                        if (ret != 0) {
                                return ret;
                        }
                }
                for (int i = 0; i < e->nhostfd; i++) {
                        ret = wasi_instance_add_hostfd(e->wasi, e->hostfd[i].wasi, e->hostfd[i].host);
                        if (ret != 0) {
                                return ret;
                        }
                }
                ret = import_object_create_for_wasi(&e->imp, e->wasi, &im);
                if (ret != 0) {
                        return ret;
                }
                chain(e, im);
                for (int i = 0; i < e->npreopen; i++) {
                        ret = wasi_instance_prestat_add(e->wasi, e->preopen[i]);
                        if (ret != 0) {
                                return ret;
                        }
                }
                wasi_instance_set_args(e->wasi, e->argc, e->argv);
                wasi_instance_set_environ(e->wasi, e->nenv, e->envs);
        }
        if (e->use_threads) {
                ret = wasi_threads_instance_create(&e->wasim, &e->wt);
                if (ret != 0) {
                        e->wt = NULL;
                        return ret;
                }
                ret = import_object_create_for_wasi_threads(&e->imp, e->wt, &im);
                if (ret != 0) {
                        return ret;
                }
                chain(e, im);
        }
        return 0;
}

int
emb_load(struct emb *e)
{
        struct load_context ctx;
        load_context_init(&ctx, &e->mod);
        struct module *m;
        int ret = module_create(&m, e->bin, e->bin + e->binsz, &ctx);
        if (ret == 0) {
                e->m = m;
        } else {
                snprintf(e->loadmsg, sizeof(e->loadmsg), "%s", report_getmessage(&ctx.report));
        }
        load_context_clear(&ctx);
        return ret;
}

int
emb_link(struct emb *e)
{
        int ret;
        struct import_object *imports = e->imports;
        if (e->use_threads) {
                struct import_object *imo;
                ret = create_satisfying_shared_memories(&e->imp, &e->ins, e->m, &imo);
                if (ret != 0) {
                        return ret;
                }
                e->shmem = imo;
                imo->next = e->imports;
                imports = imo;
        }
        struct import_object **tail = &imports;
        if (e->extra_chain != NULL) {
                while (*tail != NULL) {
                        tail = &(*tail)->next;
                }
                *tail = e->extra_chain;
        }
        struct report report;
        report_init(&report);
        struct instance *inst;
        ret = instance_create_no_init(&e->ins, e->m, &inst, imports, &report);
        if (e->extra_chain != NULL) {
                *tail = NULL;
        }
        if (ret != 0) {
                snprintf(e->loadmsg, sizeof(e->loadmsg), "%s", report_getmessage(&report));
                report_clear(&report);
                return ret;
        }
        report_clear(&report);
        e->inst = inst;
        struct meminst *mem = cconv_memory(inst);
        if (e->wasi != NULL) {
                wasi_instance_set_memory(e->wasi, mem);
        }
        if (e->wt != NULL) {
                wasi_threads_instance_set_memory(e->wt, mem);
        }
        sim_hi.hi.memory = mem;
        return 0;
}

u32
emb_split(void)
{
        u32 k = rndn(R_GEN, 4);
        return k == 0 ? 0 : k == 1 ? rndn(R_GEN, 16) : (u32)rnd(R_GEN);
}

static atomic_uint intr_flag;
#define NGAP 16
static u64 gaps[NGAP];
static u32 nrounds;
static void
intr_actor(void *vp)
{
        for (u32 i = 0; i < NGAP * nrounds; i++) {
                sim_sleep(gaps[i % NGAP]);
                if (sim_fault(F_INTR) != 0) {
                        intr_flag = 1;
                }
        }
}

void
emb_interrupts(struct emb *e)
{
        if (cfg.prob[F_INTR] == 0) {
                return;
        }
        bool regular = rndp(R_GEN, 1, 3);
#if defined(TOYWASM_USE_USER_SCHED)
        regular = false; /* a thread may be interrupted whenever it is its turn */
#endif
        for (int i = 0; i < NGAP; i++) {
                gaps[i] = regular && i > 0 ? gaps[0] : rndlog(R_GEN, regular ? 2 * MS : 1000, 500 * MS);
        }
        nrounds = regular ? 20 : 1;
        e->intrp = &intr_flag;
        e->intr_delay = rndp(R_GEN, 1, 3) ? rndn(R_GEN, 4) : 0;
        sim_spawn("interrupter", intr_actor, NULL, true);
}

static int
drive(struct emb *e, struct exec_context *ctx, int ret)
{
        while (IS_RESTARTABLE(ret)) {
                if (ret == ETOYWASMUSERINTERRUPT) {
                        e->nintr++;
                        if (e->intrp == &intr_flag) {
                                intr_flag = 0;
                        }
                } else {
                        e->nrestarts++;
                }
                if (e->on_restart != NULL) {
                        int r = e->on_restart(e, ctx, ret);
                        if (r != 0) {
                                return r;
                        }
                }
                ret = instance_execute_handle_restart_once(ctx, ret);
        }
        return ret;
}

static void
setctx(struct emb *e, struct exec_context *ctx)
{
        if (e->max_frames != 0) {
                ctx->options.max_frames = e->max_frames;
        }
        if (e->max_stackcells != 0) {
                ctx->options.max_stackcells = e->max_stackcells;
        }
        if (e->intrp != NULL) {
                ctx->intrp = e->intrp;
                ctx->user_intr_delay = e->intr_delay;
        }
}

static void
outcome(struct emb *e, struct exec_context *ctx, int ret)
{
        e->ret = ret;
        e->trapped = false;
        e->trapid = 0;
        e->trapmsg[0] = 0;
        if (ret == ETOYWASMTRAP) {
                if (!ctx->trapped) {
                        sim_violation("trap-state", "execution reported a trap but recorded none");
                }
                e->trapped = true;
                e->trapid = ctx->trap.trapid;
                snprintf(e->trapmsg, sizeof(e->trapmsg), "%s", report_getmessage(ctx->report));
        }
}

int
emb_start(struct emb *e)
{
        struct exec_context ctx0, *ctx = &ctx0;
        exec_context_init(ctx, e->inst, &e->ins);
        setctx(e, ctx);
        int ret = instance_execute_init(ctx);
        ret = drive(e, ctx, ret);
        outcome(e, ctx, ret);
        exec_context_clear(ctx);
        if (ret == 0 && e->wt != NULL) {
                ret = wasi_threads_instance_set_thread_spawn_args(e->wt, e->m, e->shmem != NULL ? e->shmem : e->imports);
        }
        return ret;
}

int
emb_all(struct emb *e)
{
        int ret = emb_setup(e);
        if (ret == 0) {
                ret = emb_load(e);
        }
        if (ret == 0) {
                ret = emb_link(e);
        }
        if (ret == 0) {
                ret = emb_start(e);
        }
        return ret;
}

int
emb_call(struct emb *e, const char *name, const struct val *params, struct val *results)
{
        struct name nm;
        set_name_cstr(&nm, (char *)name);
        uint32_t funcidx;
        int ret = module_find_export(e->m, &nm, EXTERNTYPE_FUNC, &funcidx);
        if (ret != 0) {
                return ret;
        }
        const struct functype *ft = module_functype(e->m, funcidx);
        struct exec_context ctx0, *ctx = &ctx0;
        exec_context_init(ctx, e->inst, &e->ins);
        setctx(e, ctx);
        const struct trap_info *trap = NULL;
        wasi_threads_setup_exec_context(e->wt, ctx);
        ret = exec_push_vals(ctx, &ft->parameter, params);
        if (ret == 0) {
                ret = instance_execute_func(ctx, funcidx, &ft->parameter, &ft->result);
                ret = drive(e, ctx, ret);
        }
        outcome(e, ctx, ret);
        if (ret == ETOYWASMTRAP) {
                trap = &ctx->trap;
        } else if (ret == 0) {
                exec_pop_vals(ctx, &ft->result, results);
                if (ctx->stack.lsize != 0) {
                        sim_violation("stack", "%u cells left on the operand stack after a call", (unsigned)ctx->stack.lsize);
                }
        }
        wasi_threads_complete_exec(e->wt, &trap);
        if (ret == ETOYWASMTRAP) {
                e->trapid = trap->trapid;
                if (trap->trapid == TRAP_VOLUNTARY_EXIT && e->wasi != NULL) {
                        e->exit_code = wasi_instance_exit_code(e->wasi);
                }
        }
        exec_context_clear(ctx);
        return ret;
}

u8 *
emb_mem(struct emb *e, u64 *sizep)
{
        struct meminst *mi = cconv_memory(e->inst);
        *sizep = (u64)mi->size_in_pages << memtype_page_shift(mi->type);
        return mi->data;
}

void
emb_teardown(struct emb *e)
{
        while (e->imports != NULL && e->imports == e->shmem) {
                e->imports = e->imports->next;
        }
        if (e->inst != NULL) {
                instance_destroy(e->inst);
                e->inst = NULL;
        }
        if (e->m != NULL) {
                module_destroy(&e->mod, e->m);
                e->m = NULL;
        }
        if (e->shmem != NULL) {
                import_object_destroy(&e->imp, e->shmem);
                e->shmem = NULL;
        }
        while (e->imports != NULL) {
                struct import_object *im = e->imports;
                e->imports = im->next;
                import_object_destroy(&e->imp, im);
        }
        if (e->wt != NULL) {
                wasi_threads_instance_destroy(e->wt);
                e->wt = NULL;
        }
        if (e->wasi != NULL) {
                /* closing what the program left open may fail, which must not matter */
                bool on = cfg.fault_on;
                u32 p = cfg.prob[F_IOERR], mx = cfg.maxf[F_IOERR];
                cfg.fault_on = true;
                cfg.prob[F_IOERR] = rndp(R_WORLD, 1, 4) ? 400000 : 0;
                cfg.maxf[F_IOERR] = 0;
                wasi_instance_destroy(e->wasi);
                cfg.fault_on = on;
                cfg.prob[F_IOERR] = p;
                cfg.maxf[F_IOERR] = mx;
                e->wasi = NULL;
        }
        if (e->mctx_ready) {
                struct mem_context *c[] = {&e->mod, &e->ins, &e->wasim, &e->imp, &e->top};
                static const char *const nm[] = {"module", "instance", "wasi", "import", "total"};
                for (int i = 0; i < 5; i++) {
                        if (c[i]->allocated != 0) {
                                sim_violation("accounting", "%s memory context reports %zu bytes in use after teardown", nm[i],
                                              (size_t)c[i]->allocated);
                        }
                        mem_context_clear(c[i]);
                }
        }
}

void
emb_nap(u64 ns)
{
        sim_sleep(ns);
#if defined(TOYWASM_USE_USER_SCHED)
        sim_stalled += ns;
#endif
}
