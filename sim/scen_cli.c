/* P19: the command-line tool as a simulated process. */
#define _GNU_SOURCE
#include <errno.h>
#include <getopt.h>
#include <inttypes.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "simfs.h"
#include "simrt.h"
#include "wasmgen.h"

void cfg_cli(void);
void run_cli(void);
int toywasm_cli_main(int, char **);

#define OUTMAX (1 << 20)
#define DATA 8192 /* where the program's output lies in its memory */
enum { H_NONE, H_ALLOC_NTH, H_ALLOC_PERSIST, H_ALLOC_RANDOM, H_IO, H_WRITE };
static int hard; /* what kind of failures, if any, the process meets */
static u32 hard_p;

void
cfg_cli(void)
{
        static const u32 p[] = {0, 0, 2000, 20000, 150000};
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 5)];
        cfg.prob[F_SPURIOUS] = p[rndn(R_CFG, 4)];
        cfg.prob[F_STALL] = rndp(R_CFG, 1, 4) ? p[rndn(R_CFG, 3)] : 0;
        cfg.maxf[F_STALL] = 4;
        cfg.prob[F_SHORT] = p[rndn(R_CFG, 5)] * 2;
        cfg.prob[F_EINTR] = p[rndn(R_CFG, 5)] * 2;
        cfg.prob[F_EAGAIN] = p[rndn(R_CFG, 5)];
        cfg.prob[F_IOERR] = cfg.prob[F_EMFILE] = cfg.prob[F_ALLOC] = 0;
        cfg.max_vtime = 100000 * SEC;
        if (cfg.tick_ps < 20000) {
                cfg.tick_ps = 20000; /* computing has to be affordable */
        }
#if defined(SIM_USCHED)
        if (cfg.tick_ps < 100000) {
                cfg.tick_ps = 100000; /* and so do many time slices */
        }
#endif
        hard = rndn(R_CFG, 6);
        hard_p = (u32)rndlog(R_CFG, 500, 200000);
        if (hard == H_WRITE) {
                hard_p = (u32)rndlog(R_CFG, 10000, 200000);
        }
}

/* ------------------------------------------------------------------ the process */
static char *args[64];
static int nargs;
static u8 *out; /* what it wrote to its standard output */
static size_t nout;
static struct chan *oc; /* its output pipe; NULL: a file */
static u32 pace;
static jmp_buf jb;
static int status;
static bool over;
static u64 t_exit;

static void
arg(const char *fmt, ...)
{
        va_list ap;
        va_start(ap, fmt);
        if (vasprintf(&args[nargs++], fmt, ap) < 0) {
                abort();
        }
        va_end(ap);
        args[nargs] = NULL;
}

static void
take(u32 max)
{
        u8 b[512];
        if (oc == NULL) {
                return;
        }
        while (max > 0) {
                size_t n = chan_get(oc, b, max < sizeof(b) ? max : sizeof(b));
                if (n == 0) {
                        break;
                }
                if (nout + n > OUTMAX) {
                        sim_violation("output", "the process wrote more than %u bytes", OUTMAX);
                }
                memcpy(out + nout, b, n);
                nout += n;
                max -= (u32)n;
        }
}

static void
reader(void *vp)
{
        u8 b[512];
        while (!over) {
                switch (pace) {
                case 0:
                        sim_sleep(rndlog(R_WORLD, 1000, MS));
                        take(UINT32_MAX);
                        break;
                case 1:
                        sim_sleep(rndlog(R_WORLD, 10000, 300 * MS));
                        take(1 + rndn(R_WORLD, 2000));
                        break;
                default:
                        sim_sleep(rndp(R_WORLD, 1, 30) ? 20 * SEC : rndlog(R_WORLD, 10000, 3 * SEC));
                        take(1 + rndn(R_WORLD, 600));
                        break;
                }
                while (chan_get(std_err, b, sizeof(b)) > 0) {
                }
        }
}

static void
exited(int st)
{
        status = st & 0xff;
        longjmp(jb, 1);
}

static u64 fired0[F_NKIND];
static bool
failed_calls(void)
{
        return shm->fault_count[F_ALLOC] != fired0[F_ALLOC] || shm->fault_count[F_IOERR] != fired0[F_IOERR] || shm->fault_count[F_EMFILE] != fired0[F_EMFILE];
}
static u32 saved_p;
static bool writes_fail;
/* errors of nothing but the tool's own output */
static void
only_writes(const char *name)
{
        cfg.prob[F_IOERR] = writes_fail && !strcmp(name, "write") ? hard_p : 0;
}
static void
hard_on(u32 range)
{
        saved_p = 0;
        cfg.alloc_nth = 0;
        cfg.prob[F_ALLOC] = cfg.prob[F_IOERR] = cfg.prob[F_EMFILE] = 0;
        switch (hard) {
        case H_ALLOC_NTH:
        case H_ALLOC_PERSIST:
                cfg.alloc_nth = sim_alloc_count() + rndlog(R_WORLD, 1, range);
                cfg.alloc_persist = hard == H_ALLOC_PERSIST;
                break;
        case H_ALLOC_RANDOM:
                cfg.prob[F_ALLOC] = hard_p;
                break;
        case H_IO:
                cfg.prob[F_IOERR] = hard_p;
                cfg.prob[F_EMFILE] = hard_p / 2;
                break;
        case H_WRITE:
                writes_fail = true;
                world_cb = only_writes;
                break;
        }
}
static void
hard_off(void)
{
        saved_p = 0;
        writes_fail = false;
        cfg.alloc_nth = 0;
        cfg.prob[F_ALLOC] = cfg.prob[F_IOERR] = cfg.prob[F_EMFILE] = 0;
}

/* run it to its end */
static void
process(void)
{
        u8 b[512];
        sim_catch_exit(exited);
        optind = 0;
        opterr = 0;
        memcpy(fired0, shm->fault_count, sizeof(fired0));
        for (int i = 0; i < nargs; i++) {
                sim_log("argv[%d] %s", i, args[i]);
        }
        sim_spawn("reader", reader, NULL, true);
        if (setjmp(jb) == 0) {
                cfg.fault_on = true;
                toywasm_cli_main(nargs, args);
                sim_violation("exit", "main returned");
        }
        cfg.fault_on = false;
        hard_off();
        t_exit = sim_now();
        over = true;
        if (oc != NULL) {
                take(UINT32_MAX);
        } else {
                size_t n;
                u8 *p = world_file(W, "/tmp/out", &n);
                nout = n;
                memcpy(out, p, n);
        }
        while (chan_get(std_err, b, sizeof(b)) > 0) {
        }
}

static const char *
show(const u8 *p, size_t n)
{
        static char b[4][400];
        static int k;
        char *s = b[k++ & 3];
        size_t j = 0;
        for (size_t i = 0; i < n && j < 300; i++) {
                j += snprintf(s + j, 400 - j, p[i] >= 32 && p[i] < 127 ? "%c" : "\\x%02x", p[i]);
        }
        s[j] = 0;
        return s;
}

/* ------------------------------------------------------------------ programs that run from _start */
static u8 *want; /* the program's output */
static size_t nwant;
static u32 timeout_ms; /* 0: none */

enum end {
        E_RETURN,
        E_EXIT,
        E_UNREACHABLE,
        E_DIV,
        E_OOB,
        E_INDIRECT,
        E_RECURSE,
        E_THROW,
        E_HOG,    /* grow memory until refused, then exit 7 */
        E_LOOP,   /* never ends */
        E_SLEEP,
        E_READ,
        E_WAIT,
        E_T_EXIT, /* a second thread exits */
        E_T_TRAP,
        E_T_LEFT, /* main returns while others run */
        E_JOIN,   /* threads finish, main returns */
        E_NEND
};
static const char *const endname[] = {"return", "exit",  "unreachable", "divide", "out of bounds", "null call",   "recursion",   "exception", "hog",
                                      "loop",   "sleep", "read",        "wait",   "thread exit",   "thread trap", "left threads", "join"};

static struct wmod *m;
static u32 f_write, f_exit, f_spawn, f_poll, f_read, f_asz, f_aget, f_esz, f_eget;
static u32 f_wr; /* write everything */
static void put_module(const char *path);
enum { D_NONE, D_ALONE, D_LIB, D_MISSING, D_UNDEF, D_CTOR, D_TRAP }; /* dynamically linked: without, with a library; it is missing, lacks a function, fails to initialize, or traps */
static int dyn;
static u32 f_lib, f_open;
static bool hide_memory;

static void
imports(bool shared, bool used_threads)
{
        m = wm_new();
        const char *w = "wasi_snapshot_preview1";
        f_write = wm_import_func(m, w, "fd_write", "iiii:i");
        f_exit = wm_import_func(m, w, "proc_exit", "i:");
        f_poll = wm_import_func(m, w, "poll_oneoff", "iiii:i");
        f_read = wm_import_func(m, w, "fd_read", "iiii:i");
        f_asz = wm_import_func(m, w, "args_sizes_get", "ii:i");
        f_aget = wm_import_func(m, w, "args_get", "ii:i");
        f_esz = wm_import_func(m, w, "environ_sizes_get", "ii:i");
        f_eget = wm_import_func(m, w, "environ_get", "ii:i");
        f_open = wm_import_func(m, w, "path_open", "iiiiiIIii:i");
        if (used_threads) {
                f_spawn = wm_import_func(m, "wasi", "thread-spawn", "i:i");
        }
        if (dyn >= D_LIB) {
                f_lib = wm_import_func(m, "env", "plus", "i:i");
        }
        if (shared) {
                wm_import_memory(m, "env", "memory", 2, 6, true);
        } else {
                wm_memory(m, 2, 6, false);
        }
        wm_export(m, hide_memory ? "hidden" : "memory", 2, 0);
        struct wfunc *f = wm_func(m, "ii:");
        f_wr = f->idx;
        u32 r = wf_local(f, T_I32);
        blk(f, OP_BLOCK, 0x40);
        blk(f, OP_LOOP, 0x40);
        lget(f, 1);
        op(f, OP_I32_EQZ);
        op_u(f, OP_BR_IF, 1);
        i32c(f, 16);
        lget(f, 0);
        memop(f, OP_I32_STORE, 2, 0);
        i32c(f, 16);
        lget(f, 1);
        memop(f, OP_I32_STORE, 2, 4);
        i32c(f, 1);
        i32c(f, 16);
        i32c(f, 1);
        i32c(f, 32);
        call(f, f_write);
        ltee(f, r);
        i32c(f, 27); /* interrupted */
        op(f, OP_I32_EQ);
        op_u(f, OP_BR_IF, 0);
        lget(f, r);
        i32c(f, 6); /* would block */
        op(f, OP_I32_EQ);
        op_u(f, OP_BR_IF, 0);
        lget(f, r);
        blk(f, OP_IF, 0x40);
        i32c(f, 99);
        call(f, f_exit);
        op(f, OP_END);
        lget(f, 0);
        i32c(f, 32);
        memop(f, OP_I32_LOAD, 2, 0);
        op(f, OP_I32_ADD);
        lset(f, 0);
        lget(f, 1);
        i32c(f, 32);
        memop(f, OP_I32_LOAD, 2, 0);
        op(f, OP_I32_SUB);
        lset(f, 1);
        op_u(f, OP_BR, 0);
        op(f, OP_END);
        op(f, OP_END);
}

/* what makes it a program that is linked when it is loaded */
static void
dynamic(bool bindnow)
{
        wm_table(m, T_FUNCREF, 1, -1);
        wm_export(m, "__indirect_function_table", 1, 0);
        wm_export(m, "__stack_pointer", 3, wm_global_const(m, T_I32, true, DATA));
        static const char *const lay[] = {"__heap_base", "__heap_end", "__stack_low", "__stack_high"};
        for (int i = 0; i < 4; i++) {
                wm_export(m, lay[i], 3, wm_global_const(m, T_I32, false, 2 * 65536));
        }
        static const u8 none[] = {1, 4, 0, 0, 0, 0};
        static const u8 needs[] = {1, 4, 0, 0, 0, 0, 2, 9, 1, 7, 'l', 'i', 'b', 'p', '.', 's', 'o'};
        wm_custom(m, true, "dylink.0", dyn >= D_LIB ? needs : none, dyn >= D_LIB ? sizeof(needs) : sizeof(none));
        if (bindnow) {
                arg("--dyld-bindnow");
        }
        if (dyn != D_ALONE && dyn != D_MISSING) {
                struct wmod *save = m;
                m = wm_new();
                wm_import_memory(m, "env", "memory", 0, -1, false);
                u32 mb = wm_import_global(m, "env", "__memory_base", T_I32, false);
                struct wfunc *f = wm_func(m, "i:i");
                if (dyn == D_TRAP) {
                        op(f, OP_UNREACHABLE);
                }
                lget(f, 0);
                gget(f, mb);
                memop(f, OP_I32_LOAD, 2, 0);
                op(f, OP_I32_ADD);
                wm_export(m, dyn != D_UNDEF ? "plus" : "minus", 0, f->idx);
                if (dyn == D_CTOR) {
                        f = wm_func(m, ":");
                        op(f, OP_UNREACHABLE);
                        wm_export(m, "__wasm_call_ctors", 0, f->idx);
                }
                wm_data_global(m, mb, "\x5\0\0\0", 4);
                static const u8 d[] = {1, 4, 16, 2, 0, 0};
                wm_custom(m, true, "dylink.0", d, sizeof(d));
                put_module("/tmp/libp.so");
                m = save;
        }
        if (rndp(R_GEN, 1, 2)) {
                arg("--dyld-path");
                arg("/");
        }
        arg("--dyld-path");
        arg("/tmp");
        arg("--dyld");
}

static void
check99(struct wfunc *f)
{
        blk(f, OP_IF, 0x40);
        i32c(f, 99);
        call(f, f_exit);
        op(f, OP_END);
}

static void
expect(const void *p, size_t n)
{
        memcpy(want + nwant, p, n);
        nwant += n;
}

/* names of things, for traces; some malformed, which makes no difference to the program */
static void
names(void)
{
        static const u8 kinds[] = {0, 1, 2, 7, 9, 11, 127};
        struct bb s = {0};
        u32 wrong = rndp(R_GEN, 1, 2) ? rndn(R_GEN, 6) : UINT32_MAX;
        for (u32 i = 0; i < sizeof(kinds); i++) {
                u32 k = kinds[i];
                if (wrong == 0 && rndp(R_GEN, 1, 3)) {
                        k = kinds[rndn(R_GEN, sizeof(kinds))]; /* out of order, or a second time */
                } else if (rndp(R_GEN, 1, 3)) {
                        continue;
                }
                struct bb t = {0};
                if (k == 0) {
                        bb_name(&t, "a program");
                } else {
                        u32 n = rndn(R_GEN, 2) ? m->nimpfuncs + m->nfuncs : rndn(R_GEN, 20);
                        u32 idx = rndp(R_GEN, 1, 3) ? rndn(R_GEN, 5) : 0;
                        bb_u(&t, wrong == 1 ? rndlog(R_GEN, 1, UINT32_MAX) : n);
                        for (u32 j = 0; j < n; j++) {
                                char nm[40];
                                snprintf(nm, sizeof(nm), "thing %u%.*s", j, (int)rndn(R_GEN, 9), "--------");
                                bb_u(&t, idx);
                                bb_name(&t, nm);
                                idx += wrong == 2 ? rndn(R_GEN, 2) : rndp(R_GEN, 1, 8) ? 1 + rndn(R_GEN, 100) : 1;
                        }
                }
                bb_u(&s, k);
                bb_u(&s, wrong == 3 ? rndlog(R_GEN, 1, UINT32_MAX) : t.n);
                bb_cat(&s, &t);
                bb_free(&t);
        }
        if (wrong == 4 && s.n > 0) {
                s.n = rndn(R_GEN, s.n);
        } else if (wrong == 5 && s.n > 0) {
                s.p[rndn(R_GEN, s.n)] = (u8)rndn(R_GEN, 256);
        }
        wm_custom(m, false, "name", s.p, s.n);
        bb_free(&s);
}

static void
put_module(const char *path)
{
        size_t n;
        if (rndp(R_GEN, 1, 3)) {
                names();
        }
        u8 *p = wm_build(m, &n);
        const char *dump = getenv("SIM_WASM");
        if (dump != NULL) {
                FILE *fp = fopen(dump, "wb");
                fwrite(p, n, 1, fp);
                fclose(fp);
        }
        world_add_file(W, path, p, n);
        free(p);
        wm_free(m);
}

static u32 spec_code;
static enum end ending;

static void
loop_forever(struct wfunc *f)
{
        blk(f, OP_LOOP, 0x40);
        i32c(f, 0);
        i32c(f, 1);
        atomop(f, 0x1e, 2, 64);
        op(f, OP_DROP);
        op_u(f, OP_BR, 0);
        op(f, OP_END);
}

static void
sleep_ns(struct wfunc *f, u64 ns)
{
        st64(f, 256, 0);
        st64(f, 264, 0); /* tag: clock */
        st64(f, 272, 1); /* monotonic */
        st64(f, 280, ns);
        st64(f, 288, 0);
        st64(f, 296, 0);
        blk(f, OP_LOOP, 0x40);
        i32c(f, 256);
        i32c(f, 320);
        i32c(f, 1);
        i32c(f, 352);
        call(f, f_poll);
        ltee(f, wf_local(f, T_I32));
        i32c(f, 27); /* interrupted */
        op(f, OP_I32_EQ);
        op_u(f, OP_BR_IF, 0);
        op(f, OP_END);
        lget(f, f->nparam + f->nloc - 1);
        check99(f);
}

static int
wasi_program(void)
{
        ending = rndn(R_GEN, E_NEND);
        bool threads = ending >= E_T_EXIT;
        bool shared = threads || ending == E_WAIT || rndp(R_GEN, 1, 4);
        /* wait_async keeps the process alive in these */
        if ((ending >= E_LOOP && ending <= E_WAIT) || rndp(R_GEN, 1, 8)) {
                timeout_ms = (u32)rndlog(R_GEN, 1, ending == E_LOOP ? 20 : 8000);
        }
        if (threads && hard != H_NONE && hard != H_IO && hard != H_WRITE) {
                timeout_ms = rndr(R_GEN, 1, 100); /* a thread may end for lack of memory before it does anything */
        }
        arg("toywasm");
        if (rndp(R_GEN, 1, 4)) {
                arg("--disable-jump-table");
        }
        if (rndp(R_GEN, 1, 4)) {
                arg("--disable-localtype-cellidx");
        }
        if (rndp(R_GEN, 1, 4)) {
                arg("--disable-resulttype-cellidx");
        }
        arg("--wasi");
        dyn = !shared && rndp(R_GEN, 1, 4) ? 1 + (int)rndn(R_GEN, 6) : D_NONE;
        bool bindnow = rndp(R_GEN, 1, 2);
        imports(shared, threads);
        if (dyn != D_NONE) {
                dynamic(bindnow);
        }
        struct wfunc *f = wm_func(m, ":");
        u32 entry = f->idx;
        if (!threads && dyn == D_NONE && ending != E_EXIT && ending != E_HOG && rndp(R_GEN, 1, 6)) {
                m->start = (int)f->idx; /* all of it while it is loaded */
                entry = wm_func(m, ":")->idx;
        }
        wm_export(m, "_start", 0, entry);
        int nenv = (int)rndn(R_GEN, 3);
        char envs[200];
        size_t envn = 0;
        for (int i = 0; i < nenv; i++) {
                arg("--wasi-env");
                arg("V%d=%0*d", i, (int)rndr(R_GEN, 1, 20), i);
                strcpy(envs + envn, args[nargs - 1]);
                envn += strlen(args[nargs - 1]) + 1;
        }
        u32 ndir = rndp(R_GEN, 1, 3) ? rndr(R_GEN, 1, 3) : 0;
        static const char *const dirs[] = {"/tmp", "/tmp::/g", "/data", "/data::data", "/none"};
        const char *dir[3];
        for (u32 i = 0; i < ndir; i++) {
                dir[i] = dirs[rndn(R_GEN, 5)];
                arg("--wasi-dir");
                arg("%s", dir[i]);
        }
        if (timeout_ms) {
                arg("--timeout");
                arg("%u", timeout_ms);
        }
        if (ending == E_RECURSE) {
                arg(rndp(R_GEN, 1, 2) ? "--max-frames" : "--max-stack-cells");
                arg("%u", rndr(R_GEN, 20, 300));
        }
        if (ending == E_HOG && rndp(R_GEN, 1, 2)) {
                arg("--max-memory");
                arg("%u", 400000 + rndn(R_GEN, 200000));
        }
        if (rndp(R_GEN, 1, 4)) {
                arg("--");
        }
        bool sub = rndp(R_GEN, 1, 2);
        arg(sub ? "/tmp/prog.wasm" : "/prog.wasm");
        const char *path = args[nargs - 1];
        char av[200];
        size_t avn = 0;
        strcpy(av, "prog.wasm");
        avn = strlen(av) + 1;
        for (int i = (int)rndn(R_GEN, 3); i > 0; i--) {
                arg("%0*d", (int)rndr(R_GEN, 1, 20), i);
                strcpy(av + avn, args[nargs - 1]);
                avn += strlen(args[nargs - 1]) + 1;
        }

        /* what it writes */
        u32 npieces = rndn(R_GEN, 7);
        u32 loc = wf_local(f, T_I32);
        if (ndir > 0) {
                wm_data(m, 1100, "note", 4);
                world_add_file(W, "/tmp/note", "\xf1\xf2\xf3", 3);
                w_mkdir(W, "/data");
                world_add_file(W, "/data/note", "\xf4\xf5\xf6\xf7", 4);
        }
        u32 pos = 0;
        for (u32 i = 0; i < npieces; i++) {
                u32 what = rndn(R_GEN, 10);
                if (what == 0) {
                        i32c(f, 1024);
                        i32c(f, 1028);
                        call(f, f_asz);
                        check99(f);
                        i32c(f, 2048);
                        i32c(f, 3072);
                        call(f, f_aget);
                        check99(f);
                        i32c(f, 3072);
                        i32c(f, 0);
                        memop(f, OP_I32_LOAD, 2, 1028);
                        call(f, f_wr);
                        expect(av, avn);
                } else if (what == 1) {
                        i32c(f, 1024);
                        i32c(f, 1028);
                        call(f, f_esz);
                        check99(f);
                        i32c(f, 2048);
                        i32c(f, 3072);
                        call(f, f_eget);
                        check99(f);
                        i32c(f, 3072);
                        i32c(f, 0);
                        memop(f, OP_I32_LOAD, 2, 1028);
                        call(f, f_wr);
                        expect(envs, envn);
                } else if (what == 2 && ndir > 0) {
                        /* a file below one of its directories */
                        u32 d = rndn(R_GEN, ndir);
                        i32c(f, 3 + d);
                        i32c(f, 0);
                        i32c(f, 1100);
                        i32c(f, 4);
                        i32c(f, 0);
                        i64c(f, 2);
                        i64c(f, 0);
                        i32c(f, 0);
                        i32c(f, 1024);
                        call(f, f_open);
                        if (dir[d][1] == 'n') {
                                op(f, OP_I32_EQZ);
                                check99(f);
                                continue;
                        }
                        check99(f);
                        i32c(f, 1032);
                        i32c(f, 2048);
                        memop(f, OP_I32_STORE, 2, 0);
                        i32c(f, 1036);
                        i32c(f, 6);
                        memop(f, OP_I32_STORE, 2, 0);
                        blk(f, OP_LOOP, 0x40);
                        i32c(f, 1024);
                        memop(f, OP_I32_LOAD, 2, 0);
                        i32c(f, 1032);
                        i32c(f, 1);
                        i32c(f, 1028);
                        call(f, f_read);
                        ltee(f, loc);
                        i32c(f, 27); /* interrupted */
                        op(f, OP_I32_EQ);
                        op_u(f, OP_BR_IF, 0);
                        lget(f, loc);
                        check99(f);
                        i32c(f, 2048);
                        i32c(f, 1028);
                        memop(f, OP_I32_LOAD, 2, 0);
                        call(f, f_wr);
                        i32c(f, 1028);
                        memop(f, OP_I32_LOAD, 2, 0);
                        op_u(f, OP_BR_IF, 0);
                        op(f, OP_END);
                        expect(dir[d][1] == 't' ? "\xf1\xf2\xf3" : "\xf4\xf5\xf6\xf7", dir[d][1] == 't' ? 3 : 4);
                } else {
                        u32 n = (u32)rndlog(R_GEN, 1, 12000);
                        if (pos + n > 60000) {
                                continue;
                        }
                        u8 *d = malloc(n);
                        for (u32 k = 0; k < n; k++) {
                                d[k] = (u8)hash64(77, pos + k) | 0x80; /* unlike any message */
                        }
                        u32 cut = rndn(R_GEN, n + 1);
                        if (sim_op_enabled(sim_op_next())) {
                                wm_data(m, DATA + pos, d, n);
                                i32c(f, DATA + pos);
                                i32c(f, cut);
                                call(f, f_wr);
                                i32c(f, DATA + pos + cut);
                                i32c(f, n - cut);
                                call(f, f_wr);
                                expect(d, n);
                        }
                        pos += n;
                        free(d);
                }
        }
        if (dyn >= D_LIB) {
                i32c(f, 37);
                call(f, f_lib);
                i32c(f, 42);
                op(f, OP_I32_NE);
                check99(f);
        }
        /* how it ends */
        int st = 0;
        spec_code = rndp(R_GEN, 1, 2) ? rndr(R_GEN, 2, 98) : rndr(R_GEN, 100, 255);
        u32 tcount = rndr(R_GEN, 1, 3);
        if (threads) {
                struct wfunc *ts = wm_func(m, "ii:");
                wm_export(m, "wasi_thread_start", 0, ts->idx);
                u32 delay = rndp(R_GEN, 1, 2) ? (u32)rndlog(R_GEN, 1000, 5 * MS) : 0;
                u32 spin = rndn(R_GEN, 200);
                bool spinning = rndp(R_GEN, 1, 2);
                u32 l = wf_local(ts, T_I32);
                blk(ts, OP_LOOP, 0x40);
                lget(ts, l);
                i32c(ts, 1);
                op(ts, OP_I32_ADD);
                ltee(ts, l);
                i32c(ts, spin);
                op(ts, OP_I32_LT_U);
                op_u(ts, OP_BR_IF, 0);
                op(ts, OP_END);
                lget(ts, 1);
                blk(ts, OP_IF, 0x40);
                if (ending == E_T_EXIT) {
                        i32c(ts, spec_code);
                        call(ts, f_exit);
                } else if (ending == E_T_TRAP) {
                        op(ts, OP_UNREACHABLE);
                } else if (ending == E_JOIN) {
                        i32c(ts, 0);
                        i32c(ts, 1);
                        atomop(ts, 0x1e, 2, 512);
                        op(ts, OP_DROP);
                        i32c(ts, 0);
                        i32c(ts, -1);
                        atomop(ts, A_NOTIFY, 2, 512);
                        op(ts, OP_DROP);
                }
                op(ts, OP_ELSE);
                if (ending == E_JOIN) {
                        i32c(ts, 0);
                        i32c(ts, 1);
                        atomop(ts, 0x1e, 2, 512);
                        op(ts, OP_DROP);
                        i32c(ts, 0);
                        i32c(ts, -1);
                        atomop(ts, A_NOTIFY, 2, 512);
                        op(ts, OP_DROP);
                } else if (spinning) {
                        loop_forever(ts);
                } else {
                        i32c(ts, 0);
                        i32c(ts, 0);
                        i64c(ts, -1);
                        atomop(ts, A_WAIT32, 2, 516);
                        op(ts, OP_DROP);
                }
                op(ts, OP_END);
                for (u32 i = 0; i < tcount; i++) {
                        i32c(f, i + 1 == tcount);
                        call(f, f_spawn);
                        i32c(f, 0);
                        op(f, 0x4c); /* le_s */
                        check99(f);
                }
                if (delay) {
                        sleep_ns(f, delay);
                }
                if (ending == E_JOIN) {
                        blk(f, OP_BLOCK, 0x40);
                        blk(f, OP_LOOP, 0x40);
                        i32c(f, 0);
                        atomop(f, 0x10, 2, 512);
                        ltee(f, wf_local(f, T_I32));
                        i32c(f, tcount);
                        op(f, OP_I32_EQ);
                        op_u(f, OP_BR_IF, 1);
                        i32c(f, 0);
                        lget(f, f->nparam + f->nloc - 1);
                        i64c(f, rndp(R_GEN, 1, 2) ? -1 : 20000000);
                        atomop(f, A_WAIT32, 2, 512);
                        op(f, OP_DROP);
                        op_u(f, OP_BR, 0);
                        op(f, OP_END);
                        op(f, OP_END);
                } else if (ending != E_T_LEFT) {
                        if (rndp(R_GEN, 1, 2)) {
                                loop_forever(f);
                        } else {
                                i32c(f, 0);
                                i32c(f, 0);
                                i64c(f, -1);
                                atomop(f, A_WAIT32, 2, 516);
                                op(f, OP_DROP);
                        }
                }
        }
        switch (ending) {
        case E_RETURN:
        case E_JOIN:
        case E_T_LEFT:
        case E_NEND:
                break;
        case E_EXIT:
                if (rndp(R_GEN, 1, 4)) {
                        spec_code = 0;
                }
                i32c(f, spec_code);
                call(f, f_exit);
                op(f, OP_UNREACHABLE);
                st = spec_code;
                break;
        case E_UNREACHABLE:
                op(f, OP_UNREACHABLE);
                st = 1;
                break;
        case E_DIV:
                i32c(f, 1);
                i32c(f, 0);
                op(f, 0x6d);
                op(f, OP_DROP);
                st = 1;
                break;
        case E_OOB:
                i32c(f, -1);
                memop(f, OP_I32_LOAD, 2, 0);
                op(f, OP_DROP);
                st = 1;
                break;
        case E_INDIRECT:
                wm_table(m, T_FUNCREF, 2, 2);
                i32c(f, rndn(R_GEN, 3));
                op_u(f, 0x11, wm_type(m, ":"));
                op(f, 0);
                st = 1;
                break;
        case E_RECURSE: {
                struct wfunc *g = wm_func(m, "iI:i");
                i32c(g, 1);
                lget(g, 0);
                lget(g, 1);
                call(g, g->idx);
                op(g, OP_I32_ADD);
                i32c(f, 0);
                i64c(f, 0);
                call(f, g->idx);
                op(f, OP_DROP);
                st = 1;
                break;
        }
        case E_THROW:
                op_u(f, 0x08, wm_tag(m, ":"));
                st = 1;
                break;
        case E_HOG:
                blk(f, OP_LOOP, 0x40);
                i32c(f, 1);
                op_u(f, OP_MEMORY_GROW, 0);
                i32c(f, -1);
                op(f, OP_I32_NE);
                op_u(f, OP_BR_IF, 0);
                op(f, OP_END);
                i32c(f, 7);
                call(f, f_exit);
                st = 7;
                break;
        case E_LOOP:
                loop_forever(f);
                st = 1;
                break;
        case E_SLEEP:
                sleep_ns(f, 3600 * SEC);
                st = 1;
                break;
        case E_READ:
                std_in->wclosed = false;
                st32(f, 128, 1024);
                st32(f, 132, 10);
                blk(f, OP_LOOP, 0x40);
                i32c(f, 0);
                i32c(f, 128);
                i32c(f, 1);
                i32c(f, 140);
                call(f, f_read);
                ltee(f, wf_local(f, T_I32));
                i32c(f, 27); /* interrupted */
                op(f, OP_I32_EQ);
                lget(f, f->nparam + f->nloc - 1);
                i32c(f, 6); /* would block */
                op(f, OP_I32_EQ);
                op(f, 0x72); /* or */
                op_u(f, OP_BR_IF, 0);
                op(f, OP_END);
                lget(f, f->nparam + f->nloc - 1);
                check99(f);
                st = 1;
                break;
        case E_WAIT:
                i32c(f, 0);
                i32c(f, 0);
                i64c(f, rndp(R_GEN, 1, 2) ? -1 : (i64)(3600 * SEC));
                atomop(f, A_WAIT32, 2, 516);
                op(f, OP_DROP);
                st = 1;
                break;
        case E_T_EXIT:
                st = spec_code;
                break;
        case E_T_TRAP:
                st = 1;
                break;
        }
        put_module(path);
        if (dyn >= D_MISSING) {
                ending = E_RETURN; /* it does not get there */
                st = 1;
                if (dyn != D_TRAP && (dyn != D_UNDEF || bindnow)) {
                        nwant = 0;
                }
        }
        sim_sample("ending: %s, dynamic %d, status %d, %zu bytes of output, timeout %u ms, failures %d", endname[ending], dyn, st, nwant, timeout_ms, hard);
        return st;
}

/* tool messages on the standard output */
static bool
is_message(const u8 *p, size_t n)
{
        static const char *const pre[] = {"Error: ", "load/validation error: ", "instantiation error: ", "Usage:"};
        if (n == 0) {
                return true;
        }
        for (size_t i = 0; i < sizeof(pre) / sizeof(pre[0]); i++) {
                size_t l = strlen(pre[i]);
                if (!memcmp(p, pre[i], l < n ? l : n)) {
                        return true;
                }
        }
        if (failed_calls()) {
                /* parts of messages; the program's own output is unlike them */
                size_t i = 0;
                while (i < n && p[i] < 0x80) {
                        i++;
                }
                return i == n;
        }
        /* the trace of calls, when the message itself could not be printed */
        return n >= 5 && (!memcmp(p, "frame", 5) || !memcmp(p, "curre", 5));
}

static void
run_wasi(void)
{
        int st = wasi_program();
        u64 t0 = sim_now();
        hard_on(3000);
        process();
        u64 took = t_exit - t0;
        size_t k = 0;
        while (k < nout && k < nwant && out[k] == want[k]) {
                k++;
        }
        bool complete = k == nwant;
        bool timed = timeout_ms && took >= timeout_ms * MS;
        bool fc = failed_calls();
        sim_trace(0xc11, status, nout);
        if (k < nwant && !is_message(out + k, nout - k)) {
                sim_violation("output", "after %zu of %zu bytes the process wrote \"%s\" instead of \"%s\"", k, nwant, show(out + k, nout - k),
                              show(want + k, nwant - k));
        }
        if (complete && !is_message(out + k, nout - k)) {
                sim_violation("output", "after the output of the program (%zu bytes) the process wrote \"%s\"", k, show(out + k, nout - k));
        }
        if (status == st && complete) {
                if (status != 1 && nout > nwant) {
                        sim_violation("output", "the process reported an error (%s) and exited with %d", show(out + k, nout - k), status);
                }
                PROBE("cli-expected");
                if (((ending >= E_UNREACHABLE && ending <= E_THROW) || ending == E_T_TRAP) && !fc && !timed) {
                        static const char msg[] = "Error: [trap] ";
                        if (memmem(out + k, nout - k, msg, sizeof(msg) - 1) == NULL) {
                                sim_violation("output", "the process did not report the trap: it wrote \"%s\"", show(out + k, nout - k));
                        }
                }
                if (st == 1 && ending >= E_LOOP && ending <= E_WAIT) {
                        PROBE("cli-timeout");
                        /* reading its last words may take longer than that */
                        u64 lim = timeout_ms * MS + (pace == 0 || oc == NULL ? 600 * MS : 60 * SEC) + sim_stalled;
                        if (took > lim && !fc) {
                                sim_violation("timeout", "the process ended %llu ms after its start, with a time limit of %u ms",
                                              (unsigned long long)(took / MS), timeout_ms);
                        }
                        if (!timed && !fc) {
                                sim_violation("timeout", "the process gave up after %llu us, before its time limit of %u ms",
                                              (unsigned long long)(took / 1000), timeout_ms);
                        }
                }
                return;
        }
        if (status == 1 && (timed || fc)) {
                PROBE("cli-gave-up");
                return;
        }
        if (status == 99 && fc) {
                PROBE("cli-program-failed");
                return;
        }
        if ((ending == E_HOG || ending == E_EXIT) && status == st) {
                sim_violation("output", "%zu of %zu bytes were written when the process exited with %d", k, nwant, status);
        }
        sim_violation(complete ? "status" : "output",
                      "the program (end: %s) ought to exit with %d after %zu bytes of output; the process exited with %d after %zu bytes%s", endname[ending],
                      st, nwant, status, k, fc ? " although a host call failed" : "");
}

/* ------------------------------------------------------------------ programs that cannot run */
static void
run_broken(void)
{
        arg("toywasm");
        arg("--wasi");
        u32 b = rndn(R_GEN, 14);
        hide_memory = b == 13; /* no memory for host calls */
        imports(false, false);
        struct wfunc *f = wm_func(m, ":");
        bool nofile = false, corrupt = false, trunc = false;
        const char *path = "/prog.wasm";
        const char *exp = "_start";
        i32c(f, DATA);
        i32c(f, 4);
        call(f, f_wr);
        wm_data(m, DATA, "ran!", 4);
        struct wfunc *g;
        switch (b) {
        case 0:
                nofile = true;
                break;
        case 1:
                corrupt = true;
                break;
        case 2:
                trunc = true;
                break;
        case 3:
                exp = "start";
                break;
        case 4: /* the start function traps */
                g = wm_func(m, ":");
                op(g, OP_UNREACHABLE);
                m->start = g->idx;
                break;
        case 5: /* data does not fit */
                wm_data(m, 0x7fffff00, "xxxx", 4);
                break;
        case 6: /* bad type */
                g = wm_func(m, ":i");
                i64c(g, 1);
                break;
        case 7: /* wants an argument */
                g = wm_func(m, "i:");
                exp = NULL;
                wm_export(m, "_start", 0, g->idx);
                break;
        case 8: /* no such option */
                arg("--no-such-option");
                break;
        case 9: /* no room */
                arg("--max-memory");
                arg("%u", rndr(R_GEN, 1, 3000));
                break;
        case 10: { /* bad number */
                static const char *const o[] = {"--max-frames", "--max-stack-cells", "--max-memory", "--dyld-stack-size"};
                static const char *const v[] = {"12x", "", "99999999999999999999", "x"};
                arg("%s", o[rndn(R_GEN, 4)]);
                arg("%s", v[rndn(R_GEN, 4)]);
                break;
        }
        case 11: /* not a file name */
                path = "/prog.wasm/";
                nofile = true;
                break;
        case 12: /* not a dynamically linked program */
                arg("--dyld");
                break;
        }
        if (exp != NULL) {
                wm_export(m, exp, 0, f->idx);
        }
        size_t n;
        u8 *p = wm_build(m, &n);
        wm_free(m);
        if (corrupt) {
                p[rndn(R_GEN, 8)] ^= 1 + rndn(R_GEN, 255);
        }
        if (trunc) {
                n = rndn(R_GEN, (u32)n - 1) + 1;
        }
        if (!nofile) {
                world_add_file(W, path, p, n);
        }
        free(p);
        arg("%s", path);
        sim_sample("broken: %u", b);
        hard_on(3000);
        process();
        if (status != 1) {
                sim_violation("status", "a program that cannot run (case %u) made the process exit with %d", b, status);
        }
        if (memmem(out, nout, "ran!", 4) != NULL) {
                sim_violation("output", "a program that cannot run (case %u) wrote \"%s\"", b, show(out, nout));
        }
        PROBE("cli-broken");
}

/* ------------------------------------------------------------------ functions called by name */
enum { M_A, M_B, M_IMP, M_BAD, M_SAVED, M_UNRES, M_WASI, M_TRAP, M_N };
struct inst {
        char name[16];
        int mod;
        int imp; /* instance of the imported function, -1: plain module, -2: nothing */
        bool ext; /* "ext" can be called */
        u32 count, maybe; /* calls of inc; maybe that many more */
};
static struct inst I[64];
static int ninst;
static int reg; /* the instance registered as "reg", -1: none */
static bool lost; /* the model does not know the state any more */
static bool unres, has_wasi; /* functions need not be resolved; WASI is there */
static int saved = -1; /* the kind of module that was saved */

static void
plain_module(const char *path, int kind, u32 init)
{
        m = wm_new();
        u32 fi = 0;
        bool with_import = kind == M_IMP;
        if (with_import) {
                fi = wm_import_func(m, "reg", "inc", ":i");
        }
        u32 fx = 0;
        if (kind == M_UNRES) {
                fx = wm_import_func(m, "nowhere", "f", "I:i");
        }
        if (kind == M_WASI) {
                fx = wm_import_func(m, "wasi_snapshot_preview1", "fd_write", "iiii:i");
        }
        wm_memory(m, 1, 1, false);
        wm_export(m, "memory", 2, 0);
        wm_data(m, 16, "\x20\0\0\0\1\0\0\0", 8);
        wm_data(m, 32, "~", 1);
        u32 g = wm_global_const(m, T_I32, true, init);
        struct wfunc *f = wm_func(m, "ii:i");
        lget(f, 0);
        lget(f, 1);
        op(f, OP_I32_ADD);
        wm_export(m, "add", 0, f->idx);
        f = wm_func(m, "I:I");
        lget(f, 0);
        i64c(f, 1);
        op(f, 0x7d); /* sub */
        wm_export(m, "dec64", 0, f->idx);
        f = wm_func(m, "iI:Ii");
        lget(f, 1);
        lget(f, 0);
        wm_export(m, "swap", 0, f->idx);
        f = wm_func(m, "F:F");
        lget(f, 0);
        wm_export(m, "fid", 0, f->idx);
        f = wm_func(m, ":");
        wm_export(m, "nop", 0, f->idx);
        f = wm_func(m, "fver:verfx");
        lget(f, 1);
        lget(f, 2);
        lget(f, 3);
        lget(f, 0);
        op(f, 0xd0); /* ref.null exn */
        op(f, T_EXNREF);
        wm_export(m, "mi x", 0, f->idx);
        f = wm_func(m, "ii:i");
        lget(f, 0);
        lget(f, 1);
        op(f, 0x6e); /* div_u */
        wm_export(m, "div", 0, f->idx);
        f = wm_func(m, ":i");
        if (with_import) {
                call(f, fi);
        } else {
                gget(f, g);
                i32c(f, 1);
                op(f, OP_I32_ADD);
                gset(f, g);
                gget(f, g);
        }
        wm_export(m, "inc", 0, f->idx);
        wm_export(m, "g", 3, g);
        f = wm_func(m, ":i");
        if (kind == M_UNRES) {
                i64c(f, 3);
                call(f, fx);
        } else if (kind == M_WASI) {
                u32 r = wf_local(f, T_I32);
                blk(f, OP_LOOP, 0x40);
                i32c(f, 1);
                i32c(f, 16);
                i32c(f, 1);
                i32c(f, 40);
                call(f, fx);
                ltee(f, r);
                i32c(f, 27); /* interrupted */
                op(f, OP_I32_EQ);
                op_u(f, OP_BR_IF, 0);
                lget(f, r);
                i32c(f, 6); /* would block */
                op(f, OP_I32_EQ);
                op_u(f, OP_BR_IF, 0);
                op(f, OP_END);
                lget(f, r);
        } else {
                i32c(f, 42);
        }
        wm_export(m, "ext", 0, f->idx);
        if (kind == M_TRAP) {
                f = wm_func(m, ":");
                i32c(f, 77);
                gset(f, g);
                op(f, OP_UNREACHABLE);
                m->start = f->idx;
        }
        put_module(path);
}

/* expected output of one command; kinds: */
enum seg { S_TEXT, S_FAIL, S_NONE, S_TRAP };
static char segtext[200];

enum cmdk { C_LOAD, C_LOADNAMED, C_CALL, C_CALLNAMED, C_REGISTER, C_GET, C_BADLOAD, C_BADFUNC, C_BADARG, C_RANGE, C_UNKNOWN, C_EMPTY, C_INIT, C_DIV0, C_SAVE, C_NK };
struct cmd {
        enum cmdk k;
        u32 mod;     /* which file */
        char name[16];
        u32 fn, a, b;
        u64 c;
        char line[200];
};
static struct cmd cmds[80];
static int ncmds;

static int
find(const char *name)
{
        if (name[0] == 0) {
                return ninst - 1;
        }
        for (int i = 0; i < ninst; i++) {
                if (!strcmp(I[i].name, name)) {
                        return i;
                }
        }
        return -1;
}

static void
gen_call(struct cmd *c, char *b, size_t n)
{
        c->fn = rndn(R_GEN, 12);
        c->fn = c->fn == 11 ? 8 : c->fn;
        c->a = rndp(R_GEN, 1, 4) ? UINT32_MAX - rndn(R_GEN, 2) : (u32)rnd(R_GEN) >> rndn(R_GEN, 32);
        c->b = (u32)rnd(R_GEN) >> rndn(R_GEN, 32);
        c->c = rnd(R_GEN) >> rndn(R_GEN, 64);
        switch (c->fn) {
        case 0:
                snprintf(b, n, rndp(R_GEN, 1, 2) ? "add %u %u" : "add 0x%x 0x%x", c->a, c->b);
                break;
        case 1:
                snprintf(b, n, "dec64 %" PRIu64, c->c);
                break;
        case 2:
                snprintf(b, n, "swap %u %" PRIu64, c->a, c->c);
                break;
        case 3:
                snprintf(b, n, "fid %" PRIu64, c->c);
                break;
        case 4:
                snprintf(b, n, "nop");
                break;
        case 5:
                c->b |= 1;
                snprintf(b, n, "div %u %u", c->a, c->b);
                break;
        case 7:
                snprintf(b, n, rndp(R_GEN, 1, 4) ? "\"ext\"" : "ext");
                break;
        case 8: {
                char e[24], r[24];
                snprintf(e, sizeof(e), c->b % 3 == 0 ? "null" : c->b % 3 == 1 ? "0" : "%u", c->b);
                snprintf(r, sizeof(r), c->b % 2 == 0 ? "null" : "%u", c->b);
                snprintf(b, n, "mi\\x20x %u %016" PRIx64 "%016" PRIx64 " %s %s", c->a, hash64(c->c, 1), c->c, e, r);
                break;
        }
        default:
                c->fn = 6;
                snprintf(b, n, rndp(R_GEN, 1, 8) ? "i\\x6ec" : "inc");
                break;
        }
}

/* what a call prints; "inc" depends on the model */
static int
root_of(int i)
{
        while (i >= 0 && I[i].imp != -1) {
                i = I[i].imp;
        }
        return i;
}
static bool
can_call(const struct cmd *c, int inst)
{
        return c->fn == 6 ? root_of(inst) >= 0 : c->fn == 7 ? I[inst].ext : true;
}
static void
call_text(const struct cmd *c, int inst)
{
        switch (c->fn) {
        case 7:
                sprintf(segtext, I[inst].mod == M_WASI ? "~Result: 0:i32\n" : "Result: 42:i32\n");
                break;
        case 8: {
                char e[24], r[24];
                snprintf(e, sizeof(e), c->b % 3 == 0 ? "null" : c->b % 3 == 1 ? "0" : "%u", c->b);
                snprintf(r, sizeof(r), c->b % 2 == 0 ? "null" : "%u", c->b);
                sprintf(segtext, "Result: %016" PRIx64 "%016" PRIx64 ":v128, %s:externref, %s:funcref, %u:f32, null:exnref\n", hash64(c->c, 1), c->c, e, r,
                        c->a);
                break;
        }
        case 0:
                sprintf(segtext, "Result: %u:i32\n", c->a + c->b);
                break;
        case 1:
                sprintf(segtext, "Result: %" PRIu64 ":i64\n", c->c - 1);
                break;
        case 2:
                sprintf(segtext, "Result: %" PRIu64 ":i64, %u:i32\n", c->c, c->a);
                break;
        case 3:
                sprintf(segtext, "Result: %" PRIu64 ":f64\n", c->c);
                break;
        case 4:
                sprintf(segtext, "Result: <Empty Stack>\n");
                break;
        case 5:
                sprintf(segtext, "Result: %u:i32\n", c->a / c->b);
                break;
        case 6:
                sprintf(segtext, "Result: %u:i32\n", I[root_of(inst)].count + 1);
                break;
        }
}

static const char *const paths[M_N] = {"/a.wasm", "/tmp/b.wasm", "/imp.wasm", "/bad.wasm", "/tmp/s.wasm", "/un.wasm", "/w.wasm", "/trap.wasm"};

static void
files(void)
{
        plain_module(paths[M_A], M_A, 0);
        plain_module(paths[M_B], M_B, 1000);
        plain_module(paths[M_IMP], M_IMP, 7);
        plain_module(paths[M_UNRES], M_UNRES, 0);
        plain_module(paths[M_WASI], M_WASI, 0);
        plain_module(paths[M_TRAP], M_TRAP, 0);
        world_add_file(W, paths[3], "\0asm\1\0\0\0\x63", 9);
}

static void
gen_cmd(struct cmd *c)
{
        char b[160];
        memset(c, 0, sizeof(*c));
        static const u8 weights[C_NK] = {5, 4, 14, 8, 4, 4, 2, 2, 2, 2, 1, 1, 1, 2, 3};
        u32 w = 0;
        for (int i = 0; i < C_NK; i++) {
                w += weights[i];
        }
        w = rndn(R_GEN, w);
        c->k = 0;
        while (w >= weights[c->k]) {
                w -= weights[c->k];
                c->k++;
        }
        static const u8 loadable[] = {M_A, M_A, M_B, M_B, M_IMP, M_IMP, M_SAVED, M_UNRES, M_WASI, M_TRAP};
        c->mod = loadable[rndn(R_GEN, 10)];
        sprintf(c->name, "m%u", rndn(R_GEN, 3));
        char *l = c->line;
        size_t n = sizeof(c->line);
        switch (c->k) {
        case C_LOAD:
                c->name[0] = 0;
                snprintf(l, n, ":load %s\n", paths[c->mod]);
                break;
        case C_LOADNAMED:
                snprintf(l, n, ":module %s load %s\n", c->name, paths[c->mod]);
                break;
        case C_CALL:
                c->name[0] = 0;
                gen_call(c, b, sizeof(b));
                snprintf(l, n, ":invoke %s\n", b);
                break;
        case C_CALLNAMED:
                gen_call(c, b, sizeof(b));
                snprintf(l, n, ":module %s invoke %s\n", c->name, b);
                break;
        case C_REGISTER:
                if (rndp(R_GEN, 1, 2)) {
                        c->name[0] = 0;
                        snprintf(l, n, ":register reg\n");
                } else {
                        snprintf(l, n, ":module %s register reg\n", c->name);
                }
                break;
        case C_GET:
                if (rndp(R_GEN, 1, 2)) {
                        c->name[0] = 0;
                        snprintf(l, n, ":global-get g\n");
                } else {
                        snprintf(l, n, ":module %s global-get g\n", c->name);
                }
                break;
        case C_BADLOAD:
                snprintf(l, n, ":load %s\n", rndp(R_GEN, 1, 2) ? paths[3] : "/none.wasm");
                break;
        case C_BADFUNC:
                snprintf(l, n, ":invoke nosuch 1\n");
                break;
        case C_BADARG:
                snprintf(l, n, rndp(R_GEN, 1, 3) ? ":invoke add 1\n" : rndp(R_GEN, 1, 2) ? ":invoke add 1 2 3\n" : ":invoke add 1 zz\n");
                break;
        case C_RANGE:
                snprintf(l, n, ":invoke add %" PRIu64 " 1\n", UINT64_C(0x100000000) << rndn(R_GEN, 32));
                break;
        case C_UNKNOWN:
                snprintf(l, n, ":nonsense\n");
                break;
        case C_EMPTY:
                snprintf(l, n, rndp(R_GEN, 1, 2) ? "\n" : "  \n");
                break;
        case C_INIT:
                snprintf(l, n, ":init\n");
                break;
        case C_DIV0:
                c->name[0] = 0;
                snprintf(l, n, ":invoke div %u 0\n", rndn(R_GEN, 100));
                break;
        case C_SAVE:
                if (rndp(R_GEN, 1, 2)) {
                        c->name[0] = 0;
                        snprintf(l, n, ":save %s\n", paths[M_SAVED]);
                } else {
                        snprintf(l, n, ":module %s save %s\n", c->name, paths[M_SAVED]);
                }
                break;
        case C_NK:
                break;
        }
}
/* the kind of module a command loads, -1: none */
static int
loads(const struct cmd *c)
{
        return c->mod == M_SAVED ? saved : (int)c->mod;
}

/* what the model expects a command to print */
static enum seg
expected(const struct cmd *c)
{
        int i = find(c->name);
        switch (c->k) {
        case C_LOAD:
        case C_LOADNAMED:
                switch (loads(c)) {
                case -1:
                        return S_FAIL;
                case M_IMP:
                        return reg < 0 && !unres ? S_FAIL : S_NONE;
                case M_UNRES:
                        return unres ? S_NONE : S_FAIL;
                case M_WASI:
                        return unres || has_wasi ? S_NONE : S_FAIL;
                case M_TRAP:
                        return S_TRAP;
                default:
                        return S_NONE;
                }
        case C_CALL:
        case C_CALLNAMED:
                if (i < 0 || !can_call(c, i)) {
                        return S_FAIL;
                }
                call_text(c, i);
                return S_TEXT;
        case C_REGISTER:
        case C_SAVE:
                return i < 0 ? S_FAIL : S_NONE;
        case C_GET:
                if (i < 0) {
                        return S_FAIL;
                }
                sprintf(segtext, "Result: %u:i32\n", I[i].mod == M_IMP ? 7 : I[i].count);
                return S_TEXT;
        case C_BADLOAD:
        case C_BADFUNC:
        case C_BADARG:
        case C_RANGE:
        case C_DIV0:
                return S_FAIL;
        default:
                return S_NONE;
        }
}
/* it succeeded */
static void
apply(const struct cmd *c)
{
        int i = find(c->name);
        switch (c->k) {
        case C_LOAD:
        case C_LOADNAMED:
                if (ninst == 64) {
                        lost = true;
                        return;
                }
                memset(&I[ninst], 0, sizeof(I[ninst]));
                strcpy(I[ninst].name, c->name);
                I[ninst].mod = loads(c);
                I[ninst].imp = loads(c) != M_IMP ? -1 : reg >= 0 ? reg : -2;
                I[ninst].count = loads(c) == M_B ? 1000 : loads(c) == M_TRAP ? 77 : 0;
                I[ninst].ext = loads(c) == M_UNRES ? false : loads(c) == M_WASI ? has_wasi : true;
                ninst++;
                break;
        case C_CALL:
        case C_CALLNAMED:
                if (c->fn == 6) {
                        I[root_of(i)].count++;
                }
                break;
        case C_REGISTER:
                reg = i;
                break;
        case C_INIT:
                ninst = 0;
                reg = -1;
                has_wasi = false;
                break;
        case C_SAVE:
                saved = I[i].mod;
                break;
        default:
                break;
        }
}

static void
options(void)
{
        unres = rndp(R_GEN, 1, 3);
        has_wasi = rndp(R_GEN, 1, 3);
        if (unres) {
                arg("--allow-unresolved-functions");
        }
        if (has_wasi) {
                arg("--wasi");
        }
}

/* --load and --invoke */
static void
run_invoke(void)
{
        reg = -1;
        files();
        arg("toywasm");
        options();
        ncmds = (int)rndr(R_GEN, 1, 12);
        int st = 0;
        for (int k = 0; k < ncmds; k++) {
                struct cmd *c = &cmds[k];
                do {
                        gen_cmd(c);
                        c->name[0] = 0;
                } while (c->k != C_LOAD && c->k != C_CALL && !(k > 2 && (c->k == C_BADLOAD || c->k == C_BADFUNC || c->k == C_BADARG || c->k == C_RANGE || c->k == C_DIV0)));
                if (k == 0) {
                        while (c->k != C_LOAD || c->mod >= M_IMP) {
                                gen_cmd(c);
                        }
                }
                bool on = k == 0 || sim_op_enabled(sim_op_next());
                if (!on) {
                        continue;
                }
                char *p = strchr(c->line, ' ');
                arg(c->k == C_LOAD || c->k == C_BADLOAD ? "--load" : "--invoke");
                arg("%.*s", (int)strlen(p) - 2, p + 1);
                if (st == 0) {
                        switch (expected(c)) {
                        case S_TEXT:
                                expect(segtext, strlen(segtext));
                                apply(c);
                                break;
                        case S_NONE:
                                apply(c);
                                break;
                        case S_FAIL:
                        case S_TRAP:
                                st = 1;
                                break;
                        }
                }
        }
        sim_sample("%d commands, status %d, failures %d", ncmds, st, hard);
        hard_on(2000);
        process();
        size_t k = 0;
        while (k < nout && k < nwant && out[k] == want[k]) {
                k++;
        }
        bool fc = failed_calls();
        bool okout = k == nwant && (st == 0 ? nout == nwant : is_message(out + k, nout - k));
        if (status == st && okout) {
                PROBE("cli-invoked");
                return;
        }
        if (status == 1 && fc) {
                PROBE("cli-invoke-failed");
                return;
        }
        sim_violation(status != st ? "status" : "output", "the process ought to exit with %d after \"%s\"; it exited with %d after \"%s\"%s", st,
                      show(want, nwant), status, show(out, nout), fc ? "; a host call failed" : "");
}

/* ------------------------------------------------------------------ a session */
static size_t mark[82];
static u64 hit[82]; /* failed calls */
static int cur_cmd;
#define PROMPT "toywasm> "
static u64
nfailed(void)
{
        return shm->fault_count[F_ALLOC] + shm->fault_count[F_IOERR] + shm->fault_count[F_EMFILE];
}
static bool eager;
static u8 windowed[82];

static void
type_line(const char *s)
{
        size_t n = strlen(s);
        while (n > 0) {
                size_t k = rndp(R_WORLD, 1, 4) ? 1 + rndn(R_WORLD, (u32)n) : n;
                if (chan_put(std_in, s, k) != k) {
                        abort();
                }
                s += k;
                n -= k;
                if (n > 0) {
                        sim_sleep(rndlog(R_WORLD, 1000, 10 * MS));
                }
        }
}
/* errors of reads would cut the input in unknown places */
static void
spare_reads(const char *name)
{
        if (!strcmp(name, "read") || !strcmp(name, "fcntl")) {
                if (cfg.prob[F_IOERR] != 0) {
                        saved_p = cfg.prob[F_IOERR];
                        cfg.prob[F_IOERR] = 0;
                }
        } else if (saved_p != 0) {
                cfg.prob[F_IOERR] = saved_p;
                saved_p = 0;
        }
}
static bool
prompted(void)
{
        size_t l = strlen(PROMPT);
        return nout >= l && !memcmp(out + nout - l, PROMPT, l) && (cur_cmd < 0 || nout > mark[cur_cmd]);
}
static void
typist(void *vp)
{
        cur_cmd = -1;
        for (int k = 0; k < ncmds; k++) {
                u64 t = sim_now();
                while (!eager && !prompted() && sim_now() < t + 300 * SEC && !over) {
                        sim_sleep(2 * MS);
                }
                hard_off();
                cur_cmd = k;
                mark[k] = nout;
                hit[k] = nfailed();
                if (windowed[k]) {
                        hard_on(60);
                }
                sim_log("type at %zu: %s", nout, cmds[k].line);
                type_line(cmds[k].line);
        }
        u64 t = sim_now();
        while (!eager && !prompted() && sim_now() < t + 300 * SEC && !over) {
                sim_sleep(2 * MS);
        }
        hard_off();
        mark[ncmds] = nout;
        hit[ncmds] = nfailed();
        if (rndp(R_WORLD, 1, 2)) {
                type_line(":exit\n");
        }
        std_in->wclosed = true;
}

static bool
ends_with(const u8 *p, size_t n, const char *s)
{
        size_t l = strlen(s);
        return n >= l && !memcmp(p + n - l, s, l);
}

static void
run_session(void)
{
        reg = -1;
        files();
        arg("toywasm");
        options();
        arg("--repl");
        ncmds = (int)rndr(R_GEN, 2, 60);
        bool focus = has_wasi && rndp(R_GEN, 1, 2); /* on host calls after loads that may have failed */
        int n = 0;
        for (int k = 0; k < ncmds; k++) {
                do {
                        gen_cmd(&cmds[n]);
                } while (focus && k > 0 && !(cmds[n].k == C_LOADNAMED && cmds[n].mod >= M_WASI) && !(cmds[n].k == C_CALLNAMED && cmds[n].fn == 7));
                while (k == 0 && (cmds[n].k != C_LOAD || cmds[n].mod >= M_IMP)) {
                        gen_cmd(&cmds[n]);
                }
                windowed[n] = rndp(R_GEN, 1, 3);
                if (sim_op_enabled(sim_op_next())) {
                        n++;
                }
        }
        ncmds = n;
        if (hard == H_NONE) {
                memset(windowed, 0, sizeof(windowed));
                eager = rndp(R_GEN, 1, 3);
        }
        std_in->wclosed = false;
        memset(mark, 0xff, sizeof(mark));
        pace = pace == 2 ? 1 : pace;
        sim_sample("session of %d commands, failures %d", ncmds, hard);
        world_cb = hard == H_WRITE ? only_writes : spare_reads;
        sim_spawn("typist", typist, NULL, true);
        process();
        if (status != 0) {
                sim_violation("status", "a session ended with the exit status %d", status);
        }
        size_t pos = 0, pl = strlen(PROMPT);
        for (int k = 0; k < ncmds && !lost; k++) {
                const u8 *s;
                size_t sn;
                struct cmd *c = &cmds[k];
                bool fc = false;
                if (eager) {
                        if (k == 0) {
                                if (nout < pl || memcmp(out, PROMPT, pl)) {
                                        sim_violation("output", "a session began with \"%s\"", show(out, nout));
                                }
                                pos = pl;
                        }
                        s = out + pos;
                        const u8 *e = memmem(s, nout - pos, PROMPT, pl);
                        if (e == NULL) {
                                sim_violation("output", "no prompt after %s", show((u8 *)c->line, strlen(c->line)));
                        }
                        sn = e - s;
                        pos += sn + pl;
                } else {
                        if (mark[k + 1] == SIZE_MAX) {
                                /* it ended when it could not read a line */
                                if (nfailed() == 0) {
                                        sim_violation("session", "the session ended before its input did");
                                }
                                lost = true;
                                break;
                        }
                        s = out + mark[k];
                        sn = mark[k + 1] - mark[k];
                        fc = hit[k + 1] != hit[k];
                        if (ends_with(s, sn, PROMPT)) {
                                sn -= pl;
                        } else if (!fc) {
                                sim_violation("output", "no prompt after %s", show((u8 *)c->line, strlen(c->line)));
                        }
                }
                enum seg x = expected(c);
                u8 *tail = memrchr(s, 'E', sn);
                char failed[60];
                snprintf(failed, sizeof(failed), "Error: command '%.*s' failed with", (int)strcspn(c->line, " \n"), c->line);
                bool errline = sn > 0 && s[sn - 1] == '\n' && memmem(s, sn, failed, strlen(failed)) != NULL;
                (void)tail;
                bool asexp = x == S_TEXT ? sn == strlen(segtext) && !memcmp(s, segtext, sn) : x == S_FAIL ? errline : sn == 0;
                if (x == S_TRAP) {
                        asexp = !errline && memmem(s, sn, "Error: [trap]", 13) != NULL;
                }
                if (asexp && !(fc && (x == S_NONE || x == S_TRAP))) {
                        if (x != S_FAIL) {
                                apply(c);
                        }
                        continue;
                }
                if (!fc) {
                        sim_violation("session", "%.*s: the session printed \"%s\", not \"%s\"", (int)strcspn(c->line, "\n"), c->line, show(s, sn),
                                      x == S_TEXT ? segtext : x == S_FAIL ? "Error: command ... failed" : x == S_TRAP ? "Error: [trap] ..." : "");
                }
                PROBE("cli-session-failure");
                if (errline && x != S_FAIL) {
                        /* it had no effect, other than that a call may have run */
                        if ((c->k == C_CALL || c->k == C_CALLNAMED) && c->fn == 6) {
                                lost = true;
                        }
                        if (c->k == C_SAVE) {
                                lost = true; /* part of a file may be there */
                        }
                        continue;
                }
                if (x == S_NONE && asexp) {
                        /* the report of a failure may have been lost */
                        if (c->k != C_UNKNOWN && c->k != C_EMPTY && c->k != C_INIT) {
                                lost = true;
                        } else {
                                apply(c);
                        }
                        continue;
                }
                if (x == S_TEXT && segtext[0] != '~' && sn > 8 && !memcmp(s, "Result: ", 8) && s[sn - 1] == '\n' && sn >= strlen(segtext)) {
                        sim_violation("session", "%.*s: the session printed \"%s\", not \"%s\", when a host call failed", (int)strcspn(c->line, "\n"), c->line,
                                      show(s, sn), segtext);
                }
                if (x == S_TEXT && hard == H_WRITE && hit[k + 1] - hit[k] == 1 && (sn < strlen(segtext) || memcmp(s, segtext, strlen(segtext)))) {
                        sim_violation("session", "%.*s: the session printed \"%s\", not \"%s\", and no error, when one write failed", (int)strcspn(c->line, "\n"),
                                      c->line, show(s, sn), segtext);
                }
                lost = true;
        }
        if (lost) {
                PROBE("cli-session-lost");
        }
        PROBE("cli-session");
}

void
run_cli(void)
{
        out = malloc(OUTMAX);
        want = malloc(OUTMAX);
        world_ninj = 0;
        u32 kind = rndn(R_GEN, 8);
        pace = rndn(R_GEN, 3);
        if (kind < 7 && rndp(R_GEN, 1, 6)) {
                struct ofile *of;
                if (w_open(W, "/tmp/out", 01 | 0100 | 01000, &of) != 0) {
                        abort();
                }
                world_install(of, 1);
        } else {
                static const u32 caps[] = {16, 64, 4096, 65536};
                oc = chan_new(caps[rndn(R_GEN, 4)]);
                world_install(of_pipe_w(oc), 1);
        }
        if (kind < 4) {
                run_wasi();
        } else if (kind == 4) {
                run_broken();
        } else if (kind < 7) {
                run_invoke();
        } else {
                run_session();
        }
}
