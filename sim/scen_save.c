/* P21: a module is written to a file, with failures, and what is there is compared and loaded again. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "module_writer.h"
#include "progen.h"

void cfg_save(void);
void run_save(void);

void
cfg_save(void)
{
        cfg.max_vtime = 100000 * SEC;
}

/* ------------------------------------------------------------------ what a binary says, independent of its encoding */
struct text {
        char *p;
        size_t n, cap;
};
static void
add(struct text *t, const char *fmt, ...)
{
        va_list ap;
        if (t->cap - t->n < 400) {
                t->cap = t->cap * 2 + 4000;
                t->p = realloc(t->p, t->cap);
        }
        va_start(ap, fmt);
        t->n += (size_t)vsnprintf(t->p + t->n, t->cap - t->n, fmt, ap);
        va_end(ap);
}
static void
hex(struct text *t, const u8 *p, size_t n)
{
        for (size_t i = 0; i < n; i++) {
                add(t, "%02x", p[i]);
        }
}
static const u8 *cp, *ce;
static bool bad;
static u8
byte(void)
{
        if (cp >= ce) {
                bad = true;
                return 0;
        }
        return *cp++;
}
static u64
leb(void)
{
        u64 v = 0;
        for (int s = 0; s < 64; s += 7) {
                u8 b = byte();
                v |= (u64)(b & 0x7f) << s;
                if (!(b & 0x80)) {
                        return v;
                }
        }
        bad = true;
        return 0;
}
static i64
sleb(void)
{
        u64 v = 0;
        for (int s = 0; s < 70; s += 7) {
                u8 b = byte();
                v |= s < 64 ? (u64)(b & 0x7f) << s : 0;
                if (!(b & 0x80)) {
                        if ((b & 0x40) && s + 7 < 64) {
                                v |= ~0ull << (s + 7);
                        }
                        return (i64)v;
                }
        }
        bad = true;
        return 0;
}
static const u8 *
take(u64 n)
{
        static const u8 none;
        if (n > (u64)(ce - cp)) {
                bad = true;
                return &none;
        }
        cp += n;
        return cp - n;
}
static void
name(struct text *t)
{
        u64 n = leb();
        const u8 *p = take(n);
        add(t, "'");
        hex(t, p, bad ? 0 : n);
        add(t, "'");
}
static void
limits(struct text *t, bool mem)
{
        u64 fl = leb();
        u64 min = leb();
        u64 max = fl & 1 ? leb() : UINT64_MAX;
        u64 shift = fl & 8 ? leb() : 16;
        /* the most there can be anyway is no limit */
        if (max >= (mem && shift == 16 ? 65536 : UINT32_MAX)) {
                max = UINT64_MAX;
        }
        add(t, " flags %u min %llu max %lld", (u32)(fl & 2), (unsigned long long)min, (long long)max);
        if (mem) {
                add(t, " page %llu", (unsigned long long)shift);
        }
        add(t, "\n");
}
static void
globaltype(struct text *t)
{
        u8 ty = byte();
        add(t, " type %02x mut %u ", ty, byte());
}
static void
cexpr(struct text *t)
{
        while (!bad) {
                u8 o = byte();
                switch (o) {
                case 0x0b:
                        add(t, " end");
                        return;
                case 0x41:
                case 0x42:
                        add(t, " %02x %lld", o, (long long)sleb());
                        break;
                case 0x43:
                        add(t, " f32 ");
                        hex(t, take(4), bad ? 0 : 4);
                        break;
                case 0x44:
                        add(t, " f64 ");
                        hex(t, take(8), bad ? 0 : 8);
                        break;
                case 0xfd:
                        leb();
                        add(t, " v128 ");
                        hex(t, take(16), bad ? 0 : 16);
                        break;
                case 0x23:
                case 0xd2:
                        add(t, " %02x %llu", o, (unsigned long long)leb());
                        break;
                case 0xd0:
                        add(t, " null %02x", byte());
                        break;
                default:
                        add(t, " %02x", o);
                        break;
                }
        }
}
static int
cmp_str(const void *a, const void *b)
{
        return strcmp(*(char *const *)a, *(char *const *)b);
}
/* NULL when it isn't a module */
static char *
describe(const u8 *bin, size_t n)
{
        struct text t = {0};
        bad = false;
        if (n < 8 || memcmp(bin, "\0asm\1\0\0\0", 8)) {
                return NULL;
        }
        const u8 *end = bin + n;
        cp = bin + 8;
        u64 ndata = 0, dcount = UINT64_MAX;
        u8 last = 0;
        static const u8 rank[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 11, 6};
        while (cp < end && !bad) {
                ce = end;
                u8 id = byte();
                u64 len = leb();
                if (bad || id > 13 || len > (u64)(end - cp)) {
                        bad = true;
                        break;
                }
                ce = cp + len;
                if (id == 0) {
                        cp = ce;
                        continue;
                }
                if (rank[id] <= last) {
                        bad = true;
                        break;
                }
                last = rank[id];
                if (id == 8) {
                        add(&t, "start %llu\n", (unsigned long long)leb());
                        bad |= cp != ce;
                        continue;
                }
                u64 cnt = leb();
                if (id == 12) {
                        dcount = cnt;
                        bad |= cp != ce;
                        continue;
                }
                if (cnt == 0) {
                        bad |= cp != ce;
                        continue;
                }
                char **ex = NULL;
                if (id == 7) {
                        ex = calloc(cnt, sizeof(*ex));
                }
                for (u64 i = 0; i < cnt && !bad; i++) {
                        if (id != 7) {
                                add(&t, "section %u %llu:", id, (unsigned long long)i);
                        }
                        switch (id) {
                        case 1:
                                add(&t, " %02x", byte());
                                for (int k = 0; k < 2; k++) {
                                        u64 m = leb();
                                        add(&t, " %llu ", (unsigned long long)m);
                                        hex(&t, take(m), bad ? 0 : m);
                                }
                                add(&t, "\n");
                                break;
                        case 2: {
                                name(&t);
                                name(&t);
                                u8 k = byte();
                                add(&t, " kind %u", k);
                                if (k == 0) {
                                        add(&t, " %llu\n", (unsigned long long)leb());
                                } else if (k == 1) {
                                        add(&t, " %02x", byte());
                                        limits(&t, false);
                                } else if (k == 2) {
                                        limits(&t, true);
                                } else if (k == 3) {
                                        globaltype(&t);
                                        add(&t, "\n");
                                } else {
                                        add(&t, " %02x", byte());
                                        add(&t, " %llu\n", (unsigned long long)leb());
                                }
                                break;
                        }
                        case 3:
                                add(&t, " %llu\n", (unsigned long long)leb());
                                break;
                        case 4:
                                add(&t, " %02x", byte());
                                limits(&t, false);
                                break;
                        case 5:
                                limits(&t, true);
                                break;
                        case 6:
                                globaltype(&t);
                                cexpr(&t);
                                add(&t, "\n");
                                break;
                        case 7: {
                                struct text x = {0};
                                name(&x);
                                add(&x, " kind %u", byte());
                                add(&x, " %llu\n", (unsigned long long)leb());
                                ex[i] = x.p;
                                break;
                        }
                        case 9: {
                                u64 k = leb();
                                u8 ty = T_FUNCREF;
                                if (!(k & 1)) {
                                        add(&t, " active table %llu at", (unsigned long long)(k & 2 ? leb() : 0));
                                        cexpr(&t);
                                } else {
                                        add(&t, k & 2 ? " declarative" : " passive");
                                }
                                if (k & 3) {
                                        u8 b = byte();
                                        ty = k & 4 ? b : T_FUNCREF;
                                }
                                u64 m = leb();
                                add(&t, " %02x %llu", ty, (unsigned long long)m);
                                for (u64 j = 0; j < m && !bad; j++) {
                                        if (k & 4) {
                                                cexpr(&t);
                                        } else {
                                                add(&t, " d2 %llu end", (unsigned long long)leb());
                                        }
                                }
                                add(&t, "\n");
                                break;
                        }
                        case 10: {
                                u64 m = leb();
                                const u8 *e = cp + m;
                                if (m > (u64)(ce - cp)) {
                                        bad = true;
                                        break;
                                }
                                u64 nl = leb(), run = 0;
                                u8 rt = 0;
                                for (u64 j = 0; j < nl && !bad; j++) {
                                        u64 c = leb();
                                        u8 ty = byte();
                                        if (c == 0) {
                                                continue;
                                        }
                                        if (run != 0 && ty != rt) {
                                                add(&t, " %llux%02x", (unsigned long long)run, rt);
                                                run = 0;
                                        }
                                        rt = ty;
                                        run += c;
                                }
                                if (run != 0) {
                                        add(&t, " %llux%02x", (unsigned long long)run, rt);
                                }
                                if (bad || cp > e) {
                                        bad = true;
                                        break;
                                }
                                add(&t, " ");
                                hex(&t, cp, (size_t)(e - cp));
                                add(&t, "\n");
                                cp = e;
                                break;
                        }
                        case 11: {
                                u64 k = leb();
                                if (k == 1) {
                                        add(&t, " passive");
                                } else {
                                        add(&t, " active memory %llu at", (unsigned long long)(k == 2 ? leb() : 0));
                                        cexpr(&t);
                                }
                                u64 m = leb();
                                const u8 *p = take(m);
                                add(&t, " %llu ", (unsigned long long)m);
                                hex(&t, p, bad ? 0 : m);
                                add(&t, "\n");
                                ndata++;
                                break;
                        }
                        case 13:
                                add(&t, " %02x", byte());
                                add(&t, " %llu\n", (unsigned long long)leb());
                                break;
                        }
                }
                if (ex != NULL) {
                        if (!bad) {
                                qsort(ex, cnt, sizeof(*ex), cmp_str);
                                for (u64 i = 0; i < cnt; i++) {
                                        add(&t, "export %s", ex[i]);
                                }
                        }
                        for (u64 i = 0; i < cnt; i++) {
                                free(ex[i]);
                        }
                        free(ex);
                }
                bad |= cp != ce;
        }
        bad |= dcount != UINT64_MAX && dcount != ndata;
        if (bad) {
                free(t.p);
                return NULL;
        }
        add(&t, "%s", "");
        return t.p;
}

/* ------------------------------------------------------------------ modules */
static struct wmod *M;
static void
rname(char *b)
{
        static const char *const pieces[] = {"a", "memory", "_start", "\xc3\xa9", "\xe2\x82\xac", " ", "x.y", "0", "\n"};
        b[0] = 0;
        for (u32 k = rndn(R_GEN, 4); k > 0; k--) {
                strcat(b, pieces[rndn(R_GEN, 9)]);
        }
}
static void
init_expr(struct bb *b, u8 ty, u32 nf)
{
        u64 x = rnd(R_GEN) >> rndn(R_GEN, 64);
        switch (ty) {
        case T_I32:
                bb_u8(b, 0x41);
                bb_s(b, (int32_t)x);
                if (rndp(R_GEN, 1, 4)) {
                        bb_u8(b, 0x41);
                        bb_s(b, (int32_t)rnd(R_GEN));
                        bb_u8(b, 0x6a);
                }
                break;
        case T_I64:
                bb_u8(b, 0x42);
                bb_s(b, (i64)x);
                break;
        case T_F32:
                bb_u8(b, 0x43);
                bb_raw(b, &x, 4);
                break;
        case T_F64:
                bb_u8(b, 0x44);
                bb_raw(b, &x, 8);
                break;
        case T_V128:
                bb_u8(b, 0xfd);
                bb_u(b, 12);
                bb_raw(b, &x, 8);
                bb_raw(b, &x, 8);
                break;
        case T_FUNCREF:
                if (nf > 0 && rndp(R_GEN, 2, 3)) {
                        bb_u8(b, 0xd2);
                        bb_u(b, rndn(R_GEN, nf));
                        break;
                }
                /* FALLTHROUGH */
        default:
                bb_u8(b, 0xd0);
                bb_u8(b, ty);
        }
        bb_u8(b, OP_END);
}
static u32
some(u32 n)
{
        return rndp(R_GEN, 1, 2) ? 0 : rndp(R_GEN, 1, 40) ? rndr(R_GEN, 100, 300) : rndr(R_GEN, 1, n);
}
/* any sections; it is not run */
static u8 *
collage(size_t *np)
{
        static const u8 vt[] = {T_I32, T_I64, T_F32, T_F64, T_V128, T_FUNCREF, T_EXTERNREF};
        static const char *const sigs[] = {":", "i:", ":i", "iIfFvre:iIfFvre", "ii:ii", "I:f", "i:", "r:e"};
        static const char *const tsigs[] = {":", "i:", "I:", "ii:"};
        char a[64], b[64];
        M = wm_new();
        for (u32 k = some(5); k > 0; k--) {
                rname(a);
                rname(b);
                switch (rndn(R_GEN, 5)) {
                case 0:
                        wm_import_func(M, a, b, sigs[rndn(R_GEN, 8)]);
                        break;
                case 1:
                        wm_import_table(M, a, b, rndn(R_GEN, 200), rndp(R_GEN, 1, 2) ? -1 : (i64)200 + rndn(R_GEN, 1000));
                        break;
                case 2: {
                        bool sh = rndp(R_GEN, 1, 3);
                        wm_import_memory_ps(M, a, b, rndn(R_GEN, 200), sh || rndp(R_GEN, 1, 2) ? (i64)200 + rndn(R_GEN, 1000) : -1, sh, rndp(R_GEN, 1, 4) ? 0 : -1);
                        break;
                }
                case 3:
                        wm_import_global(M, a, b, vt[rndn(R_GEN, 7)], rndp(R_GEN, 1, 2));
                        break;
                case 4:
                        wm_import_tag(M, a, b, tsigs[rndn(R_GEN, 4)]);
                        break;
                }
        }
        for (u32 k = some(4); k > 0; k--) {
                struct wfunc *f = wm_func(M, ":");
                for (u32 j = some(6); j > 0; j--) {
                        if (f->nloc < 60) {
                                wf_local(f, vt[rndn(R_GEN, 7)]);
                        }
                }
                for (u32 j = rndp(R_GEN, 1, 10) ? rndlog(R_GEN, 1, 9000) : rndn(R_GEN, 6); j > 0; j--) {
                        op(f, OP_NOP);
                }
        }
        u32 nf = M->nimpfuncs + M->nfuncs;
        for (u32 k = some(3); k > 0; k--) {
                wm_table(M, rndp(R_GEN, 1, 2) ? T_FUNCREF : T_EXTERNREF, rndn(R_GEN, 200), rndp(R_GEN, 1, 2) ? -1 : (i64)200 + rndn(R_GEN, 1000));
        }
        u32 t0 = M->nimptables;
        for (u32 k = some(3); k > 0; k--) {
                bool sh = rndp(R_GEN, 1, 3);
                wm_memory_ps(M, rndp(R_GEN, 1, 4) ? 0 : rndn(R_GEN, 200), sh || rndp(R_GEN, 1, 2) ? (i64)200 + rndn(R_GEN, 1000) : -1, sh, rndp(R_GEN, 1, 4) ? 0 : -1);
        }
        for (u32 k = some(3); k > 0; k--) {
                wm_tag(M, tsigs[rndn(R_GEN, 4)]);
        }
        u32 ng = 0;
        for (u32 k = some(5); k > 0; k--) {
                u8 ty = vt[rndn(R_GEN, 7)];
                bb_u8(&M->globals, ty);
                bb_u8(&M->globals, (u8)rndn(R_GEN, 2));
                init_expr(&M->globals, ty, nf);
                M->nglobals++;
                ng++;
        }
        u32 cnts[5] = {nf, M->nimptables + M->ntables, M->nimpmems + M->nmems, M->nimpglobals + ng, M->nimptags + M->ntags};
        for (u32 k = some(8); k > 0; k--) {
                u32 kind = rndn(R_GEN, 5);
                if (cnts[kind] == 0) {
                        continue;
                }
                /* names have to differ */
                rname(a);
                snprintf(b, sizeof(b), "%s%u", M->nexports == 0 ? "" : a, M->nexports);
                wm_export(M, M->nexports == 0 ? a : b, (u8)kind, rndn(R_GEN, cnts[kind]));
        }
        if (M->nfuncs > 0 && rndp(R_GEN, 1, 3)) {
                M->start = (int)(M->nimpfuncs + rndn(R_GEN, M->nfuncs));
        }
        for (u32 k = some(5); k > 0; k--) {
                u32 kind = rndn(R_GEN, 8);
                bool ext = kind >= 5 && rndp(R_GEN, 1, 3);
                u32 tab = UINT32_MAX;
                /* an active segment needs a table of its type */
                if (!(kind & 1)) {
                        if (M->ntables == 0 || M->nimptables != 0) {
                                continue;
                        }
                        tab = t0 + rndn(R_GEN, kind & 2 ? M->ntables : 1);
                        const u8 *p = M->tables.p;
                        u8 ty = 0;
                        const u8 *save = cp, *savee = ce;
                        cp = p;
                        ce = p + M->tables.n;
                        for (u32 i = 0; i <= tab - t0; i++) {
                                ty = byte();
                                u8 fl = byte();
                                leb();
                                if (fl & 1) {
                                        leb();
                                }
                        }
                        cp = save;
                        ce = savee;
                        ext = ty == T_EXTERNREF;
                        if (ext && kind != 6) {
                                continue;
                        }
                }
                u32 n = some(6);
                if (!(kind & 4) && nf == 0) {
                        n = 0;
                }
                struct bb *e = &M->elems;
                bb_u8(e, (u8)kind);
                if (kind == 2 || kind == 6) {
                        bb_u(e, tab);
                }
                if (!(kind & 1)) {
                        init_expr(e, T_I32, 0);
                }
                if (kind & 3) {
                        bb_u8(e, kind & 4 ? (ext ? T_EXTERNREF : T_FUNCREF) : 0);
                }
                bb_u(e, n);
                for (u32 i = 0; i < n; i++) {
                        if (kind & 4) {
                                init_expr(e, ext ? T_EXTERNREF : T_FUNCREF, nf);
                        } else {
                                bb_u(e, rndn(R_GEN, nf));
                        }
                }
                M->nelems++;
        }
        for (u32 k = some(5); k > 0; k--) {
                u32 kind = rndn(R_GEN, 3);
                if (kind != 1 && cnts[2] == 0) {
                        continue;
                }
                u32 mem = kind == 2 ? rndn(R_GEN, cnts[2]) : 0;
                bb_u8(&M->datas, (u8)kind);
                if (kind == 2) {
                        bb_u(&M->datas, mem);
                }
                if (kind != 1) {
                        init_expr(&M->datas, T_I32, 0);
                }
                u32 n = some(9);
                bb_u(&M->datas, n);
                for (u32 i = 0; i < n; i++) {
                        bb_u8(&M->datas, (u8)rnd(R_GEN));
                }
                M->ndatas++;
        }
        M->datacount = rndp(R_GEN, 1, 2);
        if (rndp(R_GEN, 1, 3)) {
                wm_custom(M, rndp(R_GEN, 1, 2), "producers", "xyz", rndn(R_GEN, 4));
        }
        u8 *r = wm_build(M, np);
        wm_free(M);
        return r;
}

/* ------------------------------------------------------------------ */
static void
must_match(const u8 *src, size_t n, const u8 *got, size_t gn)
{
        char *a = describe(src, n), *b = describe(got, gn);
        if (a == NULL) {
                sim_violation("generator", "not a module");
        }
        if (b == NULL) {
                sim_violation("saved", "what was saved with success (%zu bytes) is not a module", gn);
        }
        size_t i = 0, l = 0;
        while (a[i] != 0 && a[i] == b[i]) {
                l = a[i] == '\n' ? i + 1 : l;
                i++;
        }
        if (a[i] != b[i]) {
                sim_violation("saved", "what was saved says \"%.*s\", the module \"%.*s\"", (int)strcspn(b + l, "\n") > 160 ? 160 : (int)strcspn(b + l, "\n"), b + l,
                              (int)strcspn(a + l, "\n") > 160 ? 160 : (int)strcspn(a + l, "\n"), a + l);
        }
        free(a);
        free(b);
}

#define NPATH 3
static const char *const paths[NPATH] = {"/tmp/a.wasm", "/tmp/b.wasm", "/tmp/d/c.wasm"};
static int
fds(void)
{
        return world_open_fds();
}
static void
calm(void)
{
        cfg.fault_on = false;
        cfg.prob[F_IOERR] = cfg.prob[F_EMFILE] = cfg.prob[F_ALLOC] = 0;
        W->quota = UINT64_MAX / 2;
}

void
run_save(void)
{
        static struct pg pg;
        static struct pg_run base, test;
        struct pg_opt o;
        bool runs = rndp(R_GEN, 1, 3);
        u8 *src;
        size_t n;
        memset(&o, 0, sizeof(o));
        if (runs) {
                o.threaded = false;
                o.waits = false;
                o.nfunc = rndr(R_GEN, 2, 8);
                o.fuel = (u32)rndlog(R_GEN, 4, 30);
                pg_generate(&pg, &o);
                src = pg.bin;
                n = pg.n;
                base.inkey = rnd(R_GEN);
        } else {
                src = collage(&n);
        }
        calm();
        static struct emb e;
        emb_init(&e);
        e.bin = src;
        e.binsz = n;
        int ret = emb_setup(&e) || emb_load(&e);
        if (ret != 0) {
                sim_violation("generator", "the module does not load: %d %s", ret, e.loadmsg);
        }
        u32 tries = rndr(R_GEN, 1, 8), nok = 0, nfailed = 0;
        u8 *good = NULL;
        size_t goodn = 0;
        for (u32 k = 0; k < tries; k++) {
                bool on = sim_op_enabled(sim_op_next());
                u32 how = rndn(R_GEN, 6), old = rndn(R_GEN, 4);
                const char *path = paths[rndn(R_GEN, NPATH)];
                if (!on) {
                        continue;
                }
                bool nodir = !strcmp(path, paths[2]);
                if (!nodir && old != 0) {
                        /* a longer or shorter file is there */
                        size_t on_ = old == 1 ? 1 : old == 2 ? n / 2 : n * 2 + 10;
                        u8 *x = calloc(1, on_);
                        memset(x, 0xee, on_);
                        world_add_file(W, path, x, on_);
                        free(x);
                }
                u64 f0 = shm->fault_count[F_IOERR] + shm->fault_count[F_EMFILE];
                bool full = false;
                switch (how) {
                case 1:
                        cfg.prob[F_IOERR] = 1 << 20;
                        cfg.maxf[F_IOERR] = (u32)shm->fault_count[F_IOERR] + 1;
                        break;
                case 2:
                        cfg.prob[F_IOERR] = (u32)rndlog(R_WORLD, 1 << 14, 1 << 19);
                        break;
                case 3:
                        cfg.prob[F_EMFILE] = 1 << 20;
                        break;
                case 4:
                        W->quota = W->used + rndn(R_WORLD, (u32)n + 1);
                        full = true;
                        break;
                }
                cfg.fault_on = true;
                int nfd = fds();
                errno = 0;
                ret = module_write(path, e.m);
                bool injected = shm->fault_count[F_IOERR] + shm->fault_count[F_EMFILE] != f0;
                calm();
                cfg.maxf[F_IOERR] = 0;
                if (fds() != nfd) {
                        sim_violation("fd-leak", "%d more descriptors are open after saving (result %d)", fds() - nfd, ret);
                }
                sim_trace(0x51, (u64)ret, how);
                sim_log("save to %s: %d", path, ret);
                if (ret != 0) {
                        nfailed++;
                        if (!injected && !full && !nodir) {
                                sim_violation("failed", "saving a module failed with %d although nothing else did", ret);
                        }
                        PROBE("save-failed");
                        continue;
                }
                if (nodir) {
                        sim_violation("saved", "a module was saved with success in a directory that is not there");
                }
                nok++;
                size_t gn;
                u8 *got = world_file(W, path, &gn);
                if (got == NULL) {
                        sim_violation("saved", "a module was saved with success, but there is no file");
                }
                must_match(src, n, got, gn);
                if (injected) {
                        PROBE("save-survived");
                }
                if (good == NULL) {
                        good = malloc(gn);
                        goodn = gn;
                        memcpy(good, got, gn);
                }
        }
        emb_teardown(&e);
        if (good != NULL) {
                if (runs) {
                        /* it does the same */
                        pg_prepare(&base, &pg);
                        ret = emb_all(&base.e);
                        if (ret != 0) {
                                sim_violation("generator", "the program does not load: %d %s %s", ret, base.e.loadmsg, base.e.trapmsg);
                        }
                        pg_exec(&base);
                        pg_final(&base);
                        emb_teardown(&base.e);
                        struct pg pg2 = pg;
                        pg2.bin = good;
                        pg2.n = goodn;
                        test.inkey = base.inkey;
                        pg_prepare(&test, &pg2);
                        ret = emb_all(&test.e);
                        if (ret != 0) {
                                sim_violation("saved", "what was saved does not load: %d %s %s", ret, test.e.loadmsg, test.e.trapmsg);
                        }
                        pg_exec(&test);
                        pg_final(&test);
                        snprintf(test.trapmsg, sizeof(test.trapmsg), "%s", base.trapmsg);
                        const char *d = pg_diff(&base, &test);
                        if (d != NULL) {
                                sim_violation("saved", "what was saved behaves differently: %s", d);
                        }
                        emb_teardown(&test.e);
                        PROBE("save-ran");
                } else {
                        emb_init(&e);
                        e.bin = good;
                        e.binsz = goodn;
                        ret = emb_setup(&e) || emb_load(&e);
                        if (ret != 0) {
                                sim_violation("saved", "what was saved does not load: %d %s", ret, e.loadmsg);
                        }
                        emb_teardown(&e);
                }
        }
        sim_sample("module of %zu bytes, %s, saved %u times, failed %u times", n, runs ? "run" : "not run", nok, nfailed);
        free(good);
        if (runs) {
                pg_free(&pg);
        } else {
                free(src);
        }
}
