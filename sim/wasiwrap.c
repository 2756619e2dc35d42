#include "wasiwrap.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>

#include "mt.h"

static const struct {
        const char *name, *sig;
} calls[] = {
        {"args_get", "ii:i"},
        {"args_sizes_get", "ii:i"},
        {"clock_res_get", "ii:i"},
        {"clock_time_get", "iIi:i"},
        {"environ_get", "ii:i"},
        {"environ_sizes_get", "ii:i"},
        {"fd_advise", "iIIi:i"},
        {"fd_allocate", "iII:i"},
        {"fd_close", "i:i"},
        {"fd_datasync", "i:i"},
        {"fd_fdstat_get", "ii:i"},
        {"fd_fdstat_set_flags", "ii:i"},
        {"fd_fdstat_set_rights", "iII:i"},
        {"fd_filestat_get", "ii:i"},
        {"fd_filestat_set_size", "iI:i"},
        {"fd_filestat_set_times", "iIIi:i"},
        {"fd_pread", "iiiIi:i"},
        {"fd_prestat_dir_name", "iii:i"},
        {"fd_prestat_get", "ii:i"},
        {"fd_pwrite", "iiiIi:i"},
        {"fd_read", "iiii:i"},
        {"fd_readdir", "iiiIi:i"},
        {"fd_renumber", "ii:i"},
        {"fd_seek", "iIii:i"},
        {"fd_sync", "i:i"},
        {"fd_tell", "ii:i"},
        {"fd_write", "iiii:i"},
        {"path_create_directory", "iii:i"},
        {"path_filestat_get", "iiiii:i"},
        {"path_filestat_set_times", "iiiiIIi:i"},
        {"path_link", "iiiiiii:i"},
        {"path_open", "iiiiiIIii:i"},
        {"path_readlink", "iiiiii:i"},
        {"path_remove_directory", "iii:i"},
        {"path_rename", "iiiiii:i"},
        {"path_symlink", "iiiii:i"},
        {"path_unlink_file", "iii:i"},
        {"poll_oneoff", "iiii:i"},
        {"random_get", "ii:i"},
        {"sched_yield", ":i"},
        {"sock_accept", "iii:i"},
        {"sock_recv", "iiiiii:i"},
        {"sock_send", "iiiii:i"},
        {"sock_shutdown", "ii:i"},
        {"u.fd_seek", "iIii:i"},
        {"u.fd_filestat_get", "ii:i"},
        {"u.path_filestat_get", "iiiii:i"},
        {"proc_exit", "i:"},
};
#define NCALLS (int)(sizeof(calls) / sizeof(calls[0]))

const char *
ww_sig(const char *name)
{
        for (int i = 0; i < NCALLS; i++) {
                if (!strcmp(calls[i].name, name)) {
                        return calls[i].sig;
                }
        }
        return NULL;
}
int
ww_ncalls(void)
{
        return NCALLS;
}
const char *
ww_callname(int i)
{
        return calls[i].name;
}

void
ww_begin(struct ww *w, u32 pages)
{
        memset(w, 0, sizeof(*w));
        emb_init(&w->e);
        w->e.use_wasi = true;
        w->pages = pages;
        w->check = true;
        struct wmod *m = wm_new();
        for (int i = 0; i < NCALLS; i++) {
                const char *n = calls[i].name;
                bool u = n[0] == 'u' && n[1] == '.';
                wm_import_func(m, u ? "wasi_unstable" : "wasi_snapshot_preview1", u ? n + 2 : n, calls[i].sig);
        }
        wm_memory(m, pages, pages, false);
        wm_export(m, "memory", 2, 0);
        for (int i = 0; i < NCALLS; i++) {
                struct wfunc *f = wm_func(m, calls[i].sig);
                u32 np = (u32)(strchr(calls[i].sig, ':') - calls[i].sig);
                for (u32 j = 0; j < np; j++) {
                        lget(f, j);
                }
                call(f, i);
                wm_export(m, calls[i].name, 0, f->idx);
        }
        /* memory is allocated when it is first used */
        struct wfunc *f = wm_func(m, ":");
        i32c(f, (int32_t)(pages * WW_PAGE - 1));
        i32c(f, 0);
        memop(f, OP_I32_STORE8, 0, 0);
        wm_export(m, "touch", 0, f->idx);
        size_t sz;
        w->bin = wm_build(m, &sz);
        w->e.bin = w->bin;
        w->e.binsz = sz;
}

int
ww_start(struct ww *w)
{
        int ret = emb_all(&w->e);
        if (ret == 0 && !w->lazy) {
                ret = emb_call(&w->e, "touch", NULL, NULL);
        }
        w->shadow = malloc((size_t)w->pages * WW_PAGE);
        return ret;
}

u8 *
ww_mem(struct ww *w)
{
        u64 sz;
        return emb_mem(&w->e, &sz);
}
u64
ww_allocated(struct ww *w)
{
        return cconv_memory(w->e.inst)->allocated;
}
void
ww_need(struct ww *w, u64 n)
{
        void *p;
        bool on = cfg.fault_on;
        cfg.fault_on = false;
        if (n > ww_allocated(w) && memory_instance_getptr2(cconv_memory(w->e.inst), 0, 0, (u32)n, &p, NULL) != 0) {
                abort();
        }
        cfg.fault_on = on;
}
void
ww_put(struct ww *w, u32 a, const void *p, size_t n)
{
        ww_need(w, (u64)a + n);
        memcpy(ww_mem(w) + a, p, n);
}
u32
ww_u32(struct ww *w, u32 a)
{
        u32 v;
        memcpy(&v, ww_mem(w) + a, 4);
        return v;
}
u64
ww_u64(struct ww *w, u32 a)
{
        u64 v;
        memcpy(&v, ww_mem(w) + a, 8);
        return v;
}
u8
ww_u8(struct ww *w, u32 a)
{
        return ww_mem(w)[a];
}
u32
ww_u16(struct ww *w, u32 a)
{
        uint16_t v;
        memcpy(&v, ww_mem(w) + a, 2);
        return v;
}
void
ww_p32(struct ww *w, u32 a, u32 v)
{
        ww_put(w, a, &v, 4);
}
void
ww_p64(struct ww *w, u32 a, u64 v)
{
        ww_put(w, a, &v, 8);
}
void
ww_outs(struct ww *w, u64 a, u64 n)
{
        if (w->nout >= 64) {
                abort();
        }
        w->out[w->nout].a = a;
        w->out[w->nout++].n = n;
}

static void
check_mem(struct ww *w, const char *name)
{
        u64 sz = ww_allocated(w);
        u8 *m = ww_mem(w);
        for (int i = 0; i < w->nout; i++) {
                u64 a = w->out[i].a, n = w->out[i].n;
                if (a < sz) {
                        if (n > sz - a) {
                                n = sz - a;
                        }
                        memcpy(w->shadow + a, m + a, n);
                }
        }
        if (sz > 0 && memcmp(w->shadow, m, sz) != 0) {
                u64 i = 0;
                while (w->shadow[i] == m[i]) {
                        i++;
                }
                sim_violation("stray-write", "%s changed guest memory at %llu, outside the areas it was given", name, (unsigned long long)i);
        }
}

int
wc_(struct ww *w, const char *name, int n, const u64 *args)
{
        const char *sig = ww_sig(name);
        struct val v[12], r[1];
        memset(v, 0, sizeof(v));
        memset(r, 0, sizeof(r));
        if (sig == NULL || n != (int)(strchr(sig, ':') - sig)) {
                fprintf(stderr, "wc: bad call %s\n", name);
                abort();
        }
        char line[300];
        int k = 0;
        for (int i = 0; i < n; i++) {
                if (sig[i] == 'i') {
                        v[i].u.i32 = (u32)args[i];
                } else {
                        v[i].u.i64 = args[i];
                }
                k += snprintf(line + k, sizeof(line) - k, "%s%llu", i ? "," : "", (unsigned long long)(sig[i] == 'i' ? (u32)args[i] : args[i]));
        }
        if (w->check) {
                u64 sz = ww_allocated(w);
                if (sz > 0) {
                        memcpy(w->shadow, ww_mem(w), sz);
                }
                memset(w->shadow + sz, 0, (size_t)w->pages * WW_PAGE - sz);
        }
        for (int i = 0; i < F_NKIND; i++) {
                w->fc[i] = shm->fault_count[i];
        }
        world_ninj = 0;
        sim_log("call %s(%s)", name, line);
        int ret = emb_call(&w->e, name, v, r);
        int out;
        if (ret == 0) {
                out = (int)r[0].u.i32;
                if (sig[n + 1] == 'i' && (r[0].u.i32 > 76)) {
                        sim_violation("errno-range", "%s returned %u, which is not a WASI error code", name, r[0].u.i32);
                }
        } else if (ret == ETOYWASMTRAP) {
                out = WC_TRAP;
        } else {
                out = WC_ERR;
        }
        shm->nops++;
        sim_trace(0x77, out, hash_bytes(n, args, n * sizeof(*args)));
        sim_log("     %s -> %d (ret %d trap %u)", name, out, ret, w->e.trapid);
        if (w->check) {
                check_mem(w, name);
        }
        w->nout = 0;
        return out;
}

u64
ww_fired(struct ww *w, enum fkind k)
{
        return shm->fault_count[k] - w->fc[k];
}

static const struct {
        int host, wasi;
        bool opt; /* the runtime may only know the generic code */
} errs[] = {
        {EACCES, 2}, {EAGAIN, 6}, {EBADF, 8}, {EBUSY, 10, true}, {ECONNRESET, 15}, {EDQUOT, 19, true}, {EEXIST, 20}, {EFBIG, 22, true},
        {EINTR, 27}, {EINVAL, 28}, {EIO, 29}, {EISDIR, 31}, {ELOOP, 32}, {EMFILE, 33, true}, {EMLINK, 34, true}, {ENAMETOOLONG, 37, true},
        {ENFILE, 41, true}, {ENODEV, 43, true}, {ENOENT, 44}, {ENOMEM, 48}, {ENOSPC, 51}, {ENOTCONN, 53, true}, {ENOTDIR, 54}, {ENOTEMPTY, 55},
        {ENOTSOCK, 57}, {ENOTSUP, 58}, {EOVERFLOW, 61}, {EPERM, 63}, {EPIPE, 64}, {ERANGE, 68}, {EROFS, 69, true}, {ESPIPE, 70}, {EXDEV, 75, true},
};

int
ww_err(int h)
{
        for (size_t i = 0; i < sizeof(errs) / sizeof(errs[0]); i++) {
                if (errs[i].host == h) {
                        return errs[i].wasi;
                }
        }
        return -1;
}

bool
ww_err_is(int got, int h)
{
        for (size_t i = 0; i < sizeof(errs) / sizeof(errs[0]); i++) {
                if (errs[i].host == h) {
                        return got == errs[i].wasi || (errs[i].opt && got == 29);
                }
        }
        return got == 29;
}

/* ------------------------------------------------------------------ threads */
static struct wmt *cur;

u8 *
wmt_mem(struct wmt *w)
{
        u64 sz;
        return emb_mem(&w->e, &sz);
}
u32
wmt_u32(struct wmt *w, u32 a)
{
        u32 v;
        memcpy(&v, wmt_mem(w) + a, 4);
        return v;
}
u64
wmt_u64(struct wmt *w, u32 a)
{
        u64 v;
        memcpy(&v, wmt_mem(w) + a, 8);
        return v;
}
void
wmt_p32(struct wmt *w, u32 a, u32 v)
{
        memcpy(wmt_mem(w) + a, &v, 4);
}
void
wmt_p64(struct wmt *w, u32 a, u64 v)
{
        memcpy(wmt_mem(w) + a, &v, 8);
}

/* operations other than WASI calls */
static const struct {
        const char *name;
        int nargs;
} extras[] = {
        {"@grow", 1},   /* pages */
        {"@stores", 2}, /* list, count */
        {"@wait", 3},   /* address, expected value, timeout */
        {"@notify", 2}, /* address, count */
        {"@spin", 2},   /* until the word at this address is not 0; how */
};
#define NEXTRA ((int)(sizeof(extras) / sizeof(extras[0])))

void
wmt_call_(struct wmt *w, int t, const char *name, int n, const u64 *args)
{
        int i;
        for (i = 0; i < NCALLS && strcmp(calls[i].name, name) != 0; i++) {
        }
        int nargs;
        struct wmt_thr *h = &w->th[t];
        if (i == NCALLS) {
                int x;
                for (x = 0; x < NEXTRA && strcmp(extras[x].name, name) != 0; x++) {
                }
                i += x;
                nargs = x < NEXTRA ? extras[x].nargs : -1;
                h->name = x < NEXTRA ? extras[x].name : NULL;
        } else {
                nargs = (int)(strchr(calls[i].sig, ':') - calls[i].sig);
                h->name = calls[i].name;
        }
        if (n != nargs) {
                fprintf(stderr, "wmt_call: bad call %s\n", name);
                abort();
        }
        memcpy(h->args, args, n * sizeof(*args));
        wmt_p32(w, WMT_SLOT(t), i);
        wmt_p32(w, WMT_SLOT(t) + 4, 0xdead);
        char line[300];
        int k = 0;
        line[0] = 0;
        for (int j = 0; j < n; j++) {
                wmt_p64(w, WMT_SLOT(t) + 8 + 8 * j, args[j]);
                k += snprintf(line + k, sizeof(line) - k, "%s%llu", j ? "," : "", (unsigned long long)args[j]);
        }
        sim_log("thread %d: %s(%s)", t, name, line);
}

static void
wmt_note(u32 t, u32 v)
{
        struct wmt *w = cur;
        struct wmt_thr *h = &w->th[t];
        if (h->busy) {
                h->res = (int)wmt_u32(w, WMT_SLOT(t) + 4);
                if (h->name[0] != '@' && (h->res > 76 || h->res < 0)) {
                        sim_violation("errno-range", "%s returned %d, which is not a WASI error code", h->name, h->res);
                }
                h->e = ++w->clock;
                h->te = sim_now();
                h->busy = false;
                sim_trace(0x78, t, h->res);
                sim_log("thread %d: %s -> %d", t, h->name, h->res);
        }
        if (!w->next(w, t)) {
                h->done = true;
                wmt_p32(w, WMT_SLOT(t), NCALLS + NEXTRA);
                return;
        }
        shm->nops++;
        h->busy = true;
        h->b = ++w->clock;
        h->tb = sim_now();
}

/* functions that compute until the word at their argument is not 0 */
static void
spins(struct wmod *m, u32 *idx, const u32 *imp)
{
        int yield, i;
        for (yield = 0; strcmp(calls[yield].name, "sched_yield") != 0; yield++) {
        }
        struct wfunc *dec = wm_func(m, "i:i"); /* counts down by recursion */
        lget(dec, 0);
        blk(dec, OP_IF, T_I32);
        lget(dec, 0);
        i32c(dec, 1);
        op(dec, OP_I32_SUB);
        call(dec, dec->idx);
        op(dec, OP_ELSE);
        i32c(dec, 0);
        op(dec, OP_END);
        u32 tag = wm_tag(m, "i:");
        for (i = 0; i < WMT_NSPIN; i++) {
                struct wfunc *f = wm_func(m, "i:");
                u32 k = wf_local(f, T_I32);
                idx[i] = f->idx;
                if (i == 3) {
                        /* no loop at all */
                        lget(f, 0);
                        atomop(f, 0x10, 2, 0);
                        op_u(f, OP_IF, 0x40);
                        op(f, OP_RETURN);
                        op(f, OP_END);
                        lget(f, 0);
                        op_u(f, 0x12, f->idx);
                        continue;
                }
                blk(f, OP_LOOP, 0x40);
                switch (i) {
                case 1:
                        i32c(f, 0);
                        call(f, dec->idx);
                        op(f, OP_DROP);
                        break;
                case 2:
                        i32c(f, 100);
                        call(f, dec->idx);
                        op(f, OP_DROP);
                        break;
                case 4:
                        lget(f, 0);
                        i32c(f, 20000);
                        op(f, OP_I32_ADD);
                        i32c(f, 1);
                        i32c(f, 2000);
                        fcop(f, 11); /* memory.fill */
                        bb_u(&f->code, 0);
                        break;
                case 5:
                        call(f, imp[yield]);
                        op(f, OP_DROP);
                        break;
                case 6:
                        blk(f, OP_BLOCK, T_I32);
                        blk(f, 0x1f, 0x40); /* try_table */
                        bb_u(&f->code, 1);
                        bb_u8(&f->code, 0); /* catch */
                        bb_u(&f->code, tag);
                        bb_u(&f->code, 0);
                        lget(f, k);
                        op_u(f, 0x08, tag);
                        op(f, OP_END);
                        op(f, OP_UNREACHABLE);
                        op(f, OP_END);
                        op(f, OP_DROP);
                        break;
                }
                lget(f, k);
                i32c(f, 1);
                op(f, OP_I32_ADD);
                lset(f, k);
                lget(f, 0);
                atomop(f, 0x10, 2, 0);
                op(f, OP_I32_EQZ);
                op_u(f, OP_BR_IF, 0);
                op(f, OP_END);
        }
}

void
wmt_begin(struct wmt *w, int n, bool barrier)
{
        u32 more = w->morepages;
        memset(w, 0, sizeof(*w));
        w->morepages = more;
        emb_init(&w->e);
        w->e.use_wasi = w->e.use_threads = true;
        w->n = n;
        cur = w;
        emb_note = wmt_note;
        struct mt mt, *t = &mt;
        mt_begin(t, n, 1 + n, 1 + n + w->morepages);
        t->barrier = barrier;
        u32 imp[NCALLS];
        for (int i = 0; i < NCALLS; i++) {
                const char *nm = calls[i].name;
                bool u = nm[0] == 'u' && nm[1] == '.';
                imp[i] = wm_import_func(t->m, u ? "wasi_unstable" : "wasi_snapshot_preview1", u ? nm + 2 : nm, calls[i].sig);
        }
        u32 spin[WMT_NSPIN];
        spins(t->m, spin, imp);
        struct wfunc *f = wm_func(t->m, "i:");
        u32 base = wf_local(f, T_I32), r = wf_local(f, T_I32);
        lget(f, 0);
        i32c(f, 256);
        op(f, OP_I32_MUL);
        i32c(f, WMT_SLOT(0));
        op(f, OP_I32_ADD);
        lset(f, base);
        blk(f, OP_LOOP, 0x40);
        lget(f, 0);
        i32c(f, 0);
        call(f, t->f_note);
        for (int i = 0; i <= NCALLS + NEXTRA; i++) {
                blk(f, OP_BLOCK, 0x40);
        }
        lget(f, base);
        memop(f, OP_I32_LOAD, 2, 0);
        op(f, 0x0e); /* br_table */
        bb_u(&f->code, NCALLS + NEXTRA);
        for (int i = 0; i <= NCALLS + NEXTRA; i++) {
                bb_u(&f->code, i);
        }
        for (int i = 0; i < NCALLS; i++) {
                op(f, OP_END);
                const char *sig = calls[i].sig;
                int j;
                for (j = 0; sig[j] != ':'; j++) {
                        lget(f, base);
                        memop(f, sig[j] == 'i' ? OP_I32_LOAD : OP_I64_LOAD, 2, 8 + 8 * j);
                }
                call(f, imp[i]);
                if (sig[j + 1] == 'i') {
                        lset(f, r);
                        lget(f, base);
                        lget(f, r);
                        memop(f, OP_I32_STORE, 2, 4);
                }
                op_u(f, OP_BR, NCALLS + NEXTRA - i);
        }
        op(f, OP_END);
        lget(f, base);
        lget(f, base);
        memop(f, OP_I32_LOAD, 2, 8);
        op(f, 0x40);
        bb_u(&f->code, 0);
        memop(f, OP_I32_STORE, 2, 4);
        op_u(f, OP_BR, NEXTRA);
        op(f, OP_END);
        /* stores of 32-bit values; the list has pairs of address and value */
        u32 p = wf_local(f, T_I32), cnt = wf_local(f, T_I32);
        lget(f, base);
        memop(f, OP_I32_LOAD, 2, 8);
        lset(f, p);
        lget(f, base);
        memop(f, OP_I32_LOAD, 2, 16);
        lset(f, cnt);
        blk(f, OP_LOOP, 0x40);
        lget(f, p);
        memop(f, OP_I32_LOAD, 2, 0);
        lget(f, p);
        memop(f, OP_I32_LOAD, 2, 4);
        memop(f, OP_I32_STORE, 2, 0);
        lget(f, p);
        i32c(f, 8);
        op(f, OP_I32_ADD);
        lset(f, p);
        lget(f, cnt);
        i32c(f, -1);
        op(f, OP_I32_ADD);
        lset(f, cnt);
        lget(f, cnt);
        op_u(f, OP_BR_IF, 0);
        op(f, OP_END);
        op_u(f, OP_BR, NEXTRA - 1);
        op(f, OP_END);
        lget(f, base);
        lget(f, base);
        memop(f, OP_I32_LOAD, 2, 8);
        lget(f, base);
        memop(f, OP_I32_LOAD, 2, 16);
        lget(f, base);
        memop(f, OP_I64_LOAD, 3, 24);
        atomop(f, A_WAIT32, 2, 0);
        memop(f, OP_I32_STORE, 2, 4);
        op_u(f, OP_BR, NEXTRA - 2);
        op(f, OP_END);
        lget(f, base);
        lget(f, base);
        memop(f, OP_I32_LOAD, 2, 8);
        lget(f, base);
        memop(f, OP_I32_LOAD, 2, 16);
        atomop(f, A_NOTIFY, 2, 0);
        memop(f, OP_I32_STORE, 2, 4);
        op_u(f, OP_BR, NEXTRA - 3);
        op(f, OP_END);
        for (int i = 0; i < WMT_NSPIN; i++) {
                lget(f, base);
                memop(f, OP_I32_LOAD, 2, 16);
                i32c(f, i);
                op(f, OP_I32_EQ);
                blk(f, OP_IF, 0x40);
                lget(f, base);
                memop(f, OP_I32_LOAD, 2, 8);
                call(f, spin[i]);
                op(f, OP_END);
        }
        lget(f, base);
        i32c(f, 0);
        memop(f, OP_I32_STORE, 2, 4);
        op_u(f, OP_BR, NEXTRA - 4);
        op(f, OP_END);
        op(f, OP_END);
        for (int i = 0; i < n; i++) {
                t->tf[i] = wm_func(t->m, ":");
                i32c(t->tf[i], i);
                call(t->tf[i], f->idx);
        }
        mt_end(t, n, true);
        size_t sz;
        w->bin = mt_build(t, &sz);
        w->e.bin = w->bin;
        w->e.binsz = sz;
}

int
wmt_run(struct wmt *w)
{
        bool on = cfg.fault_on;
        cfg.fault_on = false;
        int ret = emb_all(&w->e);
        cfg.fault_on = on;
        if (ret == 0) {
                ret = emb_call(&w->e, "_start", NULL, NULL);
        }
        return ret;
}
