/* P05: memory growth. */
#include <stdlib.h>
#include <string.h>

#include "mt.h"

enum gk { G_GROW, G_SIZE, G_TOUCH, G_CELL, G_ADD, G_FILL, G_WAIT, G_SLEEP, G_READ, G_NK };
struct gop {
        enum gk k;
        int thr;
        u32 n, off;
        u64 v;
        bool on;
        u32 mem;
};
/* the second memory: shared, or one of its own for every thread */
static struct {
        u32 min, max, shift;
        bool priv;
} M[2];
static u32
domain(const struct gop *o)
{
        return o->mem == 0 ? 0 : M[1].priv ? 2 + o->thr : 1;
}
static void
acc(struct wfunc *f, u8 o, u32 mem, u32 off)
{
        op(f, o);
        bb_u(&f->code, mem != 0 ? 0x40 : 0);
        if (mem != 0) {
                bb_u(&f->code, mem);
        }
        bb_u(&f->code, off);
}
#define MAXG 80
static struct gop ops[MAXG];
static int nops;
#define CELLS 0     /* 8 bytes per thread */
#define COUNTER 128
#define WORD 136
#define FILLB 256   /* 64 bytes per thread */

void
cfg_grow(void)
{
        static const u32 p[] = {0, 0, 500, 5000, 40000};
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 5)];
        cfg.prob[F_SPURIOUS] = p[rndn(R_CFG, 5)] * 10;
        cfg.prob[F_STALL] = rndp(R_CFG, 1, 4) ? p[rndn(R_CFG, 3)] : 0;
        cfg.maxf[F_STALL] = 4;
        cfg.prob[F_THREAD] = rndp(R_CFG, 1, 10) ? 200000 : 0;
        cfg.prob[F_ALLOC] = rndp(R_CFG, 1, 3) ? 1 : 0; /* the rate is set once running */
}

/* v at off of the thread's own last grown region */
static void
emit(struct mt *t, struct wfunc *f, u32 base, int id)
{
        struct gop *o = &ops[id];
        u32 tmp;
        base += o->mem;
        switch (o->k) {
        case G_GROW:
                evb(t, f, id);
                i32c(f, o->n);
                op(f, OP_MEMORY_GROW);
                bb_u8(&f->code, o->mem);
                tmp = wf_local(f, T_I32);
                ltee(f, tmp);
                eve_i32(t, f, id);
                if (o->n << M[o->mem].shift >= 8) {
                        lget(f, tmp);
                        i32c(f, -1);
                        op(f, OP_I32_NE);
                        blk(f, OP_IF, 0x40);
                        lget(f, tmp);
                        lset(f, base);
                        op(f, OP_END);
                }
                break;
        case G_SIZE:
                evb(t, f, id);
                op(f, OP_MEMORY_SIZE);
                bb_u8(&f->code, o->mem);
                eve_i32(t, f, id);
                break;
        case G_TOUCH:
                lget(f, base);
                i32c(f, -1);
                op(f, OP_I32_NE);
                blk(f, OP_IF, 0x40);
                evb(t, f, id);
                tmp = wf_local(f, T_I64);
                lget(f, base);
                i32c(f, 1 << M[o->mem].shift);
                op(f, OP_I32_MUL);
                acc(f, OP_I64_LOAD, o->mem, o->off);
                lset(f, tmp);
                lget(f, base);
                i32c(f, 1 << M[o->mem].shift);
                op(f, OP_I32_MUL);
                i64c(f, (i64)o->v);
                acc(f, OP_I64_STORE, o->mem, o->off);
                lget(f, tmp);
                eve_i64(t, f, id);
                op(f, OP_END);
                break;
        case G_CELL:
                i32c(f, MT_AREA);
                i32c(f, MT_AREA);
                memop(f, OP_I64_LOAD, 3, CELLS + 8 * o->thr);
                i64c(f, 1);
                op(f, OP_I64_ADD);
                memop(f, OP_I64_STORE, 3, CELLS + 8 * o->thr);
                evb(t, f, id);
                eve_none(t, f, id);
                break;
        case G_ADD:
                i32c(f, MT_AREA);
                i32c(f, 1);
                atomop(f, 0x1e, 2, COUNTER);
                op(f, OP_DROP);
                evb(t, f, id);
                eve_none(t, f, id);
                break;
        case G_FILL:
                evb(t, f, id);
                i32c(f, MT_AREA + FILLB + 64 * o->thr);
                i32c(f, (int)o->v & 0xff);
                i32c(f, 64);
                fcop(f, 11);
                bb_u8(&f->code, 0);
                i32c(f, MT_AREA + FILLB + 64 * o->thr);
                memop(f, OP_I64_LOAD, 3, o->off & 56);
                eve_i64(t, f, id);
                break;
        case G_READ:
                /* read back what the last fill left */
                evb(t, f, id);
                i32c(f, MT_AREA + FILLB + 64 * o->thr);
                memop(f, OP_I64_LOAD, 3, o->off & 56);
                eve_i64(t, f, id);
                break;
        case G_WAIT:
                i32c(f, MT_AREA);
                i32c(f, 0);
                i64c(f, (i64)o->v);
                atomop(f, A_WAIT32, 2, WORD);
                op(f, OP_DROP);
                break;
        case G_SLEEP:
                i64c(f, (i64)o->v);
                call(f, t->f_sleep);
                break;
        default:
                break;
        }
}

static u64
rep8(u64 v)
{
        return (v & 0xff) * 0x0101010101010101ULL;
}

void
run_grow(void)
{
        struct mt t;
        int nt = rndr(R_GEN, 2, 5);
        u32 min = rndr(R_GEN, 1, 5), max = min + rndn(R_GEN, 14);
        mt_begin(&t, nt, min, max);
        memset(M, 0, sizeof(M));
        M[0].min = min;
        M[0].max = max;
        M[0].shift = 16;
        bool second = rndp(R_GEN, 1, 2);
        if (second) {
                M[1].shift = rndp(R_GEN, 1, 3) ? 0 : 16;
                M[1].min = M[1].shift ? rndn(R_GEN, 4) : rndn(R_GEN, 5000);
                M[1].max = M[1].min + (M[1].shift ? rndn(R_GEN, 10) : rndn(R_GEN, 20000));
                M[1].priv = rndp(R_GEN, 1, 2) && cfg.prob[F_ALLOC] == 0;
                if (M[1].priv) {
                        wm_memory_ps(t.m, M[1].min, M[1].max, false, M[1].shift ? -1 : 0);
                } else {
                        wm_import_memory_ps(t.m, "env", "memory2", M[1].min, M[1].max, true, M[1].shift ? -1 : 0);
                }
        }
        u32 base[MT_MAXT];
        for (int i = 0; i < nt; i++) {
                t.tf[i] = wm_func(t.m, ":");
                base[i] = wf_local(t.tf[i], T_I32);
                i32c(t.tf[i], -1);
                lset(t.tf[i], base[i]);
                wf_local(t.tf[i], T_I32);
                i32c(t.tf[i], -1);
                lset(t.tf[i], base[i] + 1);
        }
        int total = rndr(R_GEN, 2, 40);
        u32 mask = rndp(R_GEN, 1, 3) ? 0x1ff : ((u32)rnd(R_GEN) & 0x1ff) | 1;
        memset(ops, 0, sizeof(ops));
        nops = 0;
        for (int i = 0; i < total; i++) {
                struct gop *o = &ops[nops];
                static const u8 ks[] = {G_GROW, G_GROW, G_GROW, G_SIZE, G_TOUCH, G_TOUCH, G_CELL, G_CELL, G_ADD, G_FILL, G_READ, G_WAIT, G_SLEEP};
                int tries = 0;
                do {
                        o->k = ks[rndn(R_GEN, sizeof(ks))];
                } while (!(mask >> o->k & 1) && ++tries < 30);
                o->thr = rndn(R_GEN, nt);
                static const u32 ds[] = {0, 1, 1, 1, 2, 3, 5, 70000, 0xffffffff};
                o->n = ds[rndn(R_GEN, rndp(R_GEN, 1, 5) ? 9 : 6)];
                o->off = rndn(R_GEN, 4) * 16376;
                o->mem = second && o->k <= G_TOUCH && rndp(R_GEN, 1, 2);
                if (rndp(R_GEN, 1, 20)) {
                        /* about what is left, or wrapping around to something small */
                        o->n = rndp(R_GEN, 1, 2) ? M[o->mem].max - M[o->mem].min + rndn(R_GEN, 3) - 1 : (rndp(R_GEN, 1, 2) ? 65536 : 0) - rndr(R_GEN, 1, 20);
                }
                if (M[o->mem].shift == 0) {
                        o->off = 0;
                        if (o->n > 0 && o->n < 10) {
                                o->n = (u32)rndlog(R_GEN, 1, 9000);
                        }
                }
                o->v = rnd(R_GEN);
                if (o->k == G_WAIT) {
                        o->v = rndlog(R_GEN, 1000, 200 * MS);
                }
                if (o->k == G_SLEEP) {
                        o->v = rndlog(R_GEN, 1000, 20 * MS);
                }
                o->on = sim_op_enabled(sim_op_next());
                if (o->on) {
                        emit(&t, t.tf[o->thr], base[o->thr], nops);
                }
                nops++;
        }
        t.barrier = rndp(R_GEN, 2, 3);
        mt_end(&t, nt, true);
        size_t sz;
        u8 *b = mt_build(&t, &sz);
        struct emb e;
        emb_init(&e);
        e.use_wasi = e.use_threads = true;
        e.bin = b;
        e.binsz = sz;
        bool afault = cfg.prob[F_ALLOC] != 0;
        cfg.prob[F_ALLOC] = 0;
        int ret = emb_all(&e);
        if (ret != 0) {
                sim_violation("setup", "setting up failed: %d %s", ret, e.loadmsg);
        }
        if (afault) {
                /* only the large allocations, i.e. the growth itself, fail */
                cfg.prob[F_ALLOC] = 300000;
                cfg.alloc_min = 60000;
        }
        ret = emb_call(&e, "_start", NULL, NULL);
        cfg.prob[F_ALLOC] = 0;
        cfg.alloc_min = 0;
        if (ret != 0 || e.trapped) {
                sim_violation("outcome", "program ended with %d trap %u %s", ret, e.trapid, e.trapmsg);
        }
        u64 msz;
        u8 *mem = emb_mem(&e, &msz);
        /* which threads ran */
        bool ran[MT_MAXT] = {true};
        for (int i = 1; i < nt; i++) {
                int32_t r;
                memcpy(&r, mem + MT_TIDS + 4 * i, 4);
                ran[i] = r > 0;
        }
        /* successful growths tile the range from the minimum to the final size */
        int succ[MAXG], ns = 0, nfail = 0;
        for (int i = 0; i < nops; i++) {
                struct gop *o = &ops[i];
                if (!o->on || !ran[o->thr] || o->k == G_WAIT || o->k == G_SLEEP) {
                        continue;
                }
                if (o->k == G_TOUCH && H[i].nbegin == 0) {
                        continue;
                }
                if (H[i].nbegin != 1 || H[i].nend != 1) {
                        sim_violation("incomplete", "operation %d did not complete", i);
                }
                if (o->k == G_GROW && H[i].res != 0xffffffff && o->n != 0) {
                        succ[ns++] = i;
                }
        }
        for (int i = 0; i < ns; i++) {
                for (int j = i + 1; j < ns; j++) {
                        if (H[succ[j]].res < H[succ[i]].res) {
                                int x = succ[i];
                                succ[i] = succ[j];
                                succ[j] = x;
                        }
                }
        }
        for (u32 d = 0; d < 2 + (u32)nt; d++) {
                u32 mi = d != 0;
                u64 cur = M[mi].min;
                if (mi && !second) {
                        break;
                }
                for (int i = 0; i < ns; i++) {
                        int k = succ[i];
                        if (domain(&ops[k]) != d) {
                                continue;
                        }
                        if ((u64)H[k].res != cur) {
                                sim_violation("growth-order", "growth %d by %u returned previous size %lld; in any sequential order it is %llu", k,
                                              ops[k].n, (long long)H[k].res, (unsigned long long)cur);
                        }
                        cur += ops[k].n;
                        for (int j = 0; j < i; j++) {
                                if (domain(&ops[succ[j]]) == d && H[succ[j]].b > H[k].e) {
                                        sim_violation("growth-order", "growth %d returned a size that a later growth %d establishes", k, succ[j]);
                                }
                        }
                }
                struct meminst *m1 = d == 1 + (M[1].priv ? 1 : 0) ? VEC_ELEM(e.inst->mems, 1) : NULL;
                u64 bytes = d == 0 ? msz : m1 != NULL ? (u64)m1->size_in_pages << M[1].shift : cur << M[mi].shift;
                if (cur > M[mi].max || bytes != cur << M[mi].shift) {
                        sim_violation("size", "final size of memory %u is %llu bytes, expected %llu pages (maximum %u)", mi, (unsigned long long)bytes,
                                      (unsigned long long)cur, M[mi].max);
                }
        }
        u32 cells[MT_MAXT] = {0}, adds = 0;
        u64 lastfill[MT_MAXT] = {0};
        u64 tbase[2][MT_MAXT];
        struct { u64 a, v; u32 d; } tv[MAXG];
        int ntv = 0;
        memset(tbase, 0xff, sizeof(tbase));
        for (int i = 0; i < nops; i++) {
                struct gop *o = &ops[i];
                struct hist *h = &H[i];
                if (!o->on || !ran[o->thr]) {
                        continue;
                }
                switch (o->k) {
                case G_GROW:
                case G_SIZE: {
                        u64 lo = M[o->mem].min, hi = lo; /* sizes possible while the operation ran */
                        for (int j = 0; j < ns; j++) {
                                int k = succ[j];
                                u64 after = (u64)H[k].res + ops[k].n;
                                if (k == i || domain(&ops[k]) != domain(o)) {
                                        continue;
                                }
                                if (H[k].e < h->b && after > lo) {
                                        lo = after;
                                }
                                if (H[k].b < h->e && after > hi) {
                                        hi = after;
                                }
                        }
                        if (o->k == G_GROW && h->res == 0xffffffff) {
                                nfail++;
                                if (hi + o->n <= M[o->mem].max && !(afault && o->n != 0)) {
                                        sim_violation("growth-failed", "growth by %u failed at a size of at most %llu, maximum %u", o->n,
                                                      (unsigned long long)hi, M[o->mem].max);
                                }
                                break;
                        }
                        if ((u64)h->res < lo || (u64)h->res > hi) {
                                sim_violation("size", "operation %d read size %lld, possible are %llu to %llu", i, (long long)h->res,
                                              (unsigned long long)lo, (unsigned long long)hi);
                        }
                        if (o->k == G_GROW && o->n << M[o->mem].shift >= 8) {
                                tbase[o->mem][o->thr] = (u64)h->res << M[o->mem].shift;
                        }
                        break;
                }
                case G_TOUCH: {
                        if (tbase[o->mem][o->thr] == NEVER) {
                                break;
                        }
                        if (h->nend != 1) {
                                sim_violation("incomplete", "operation %d did not complete", i);
                        }
                        u64 a = tbase[o->mem][o->thr] + o->off, want = 0;
                        for (int j = 0; j < ntv; j++) {
                                if (tv[j].a == a && tv[j].d == domain(o)) {
                                        want = tv[j].v;
                                }
                        }
                        if ((u64)h->res != want) {
                                sim_violation("contents", "address %llu in grown memory read %llx, expected %llx", (unsigned long long)a,
                                              (unsigned long long)h->res, (unsigned long long)want);
                        }
                        tv[ntv].a = a;
                        tv[ntv].d = domain(o);
                        tv[ntv++].v = o->v;
                        break;
                }
                case G_CELL:
                        cells[o->thr]++;
                        break;
                case G_ADD:
                        adds++;
                        break;
                case G_FILL:
                        lastfill[o->thr] = rep8(o->v);
                        /* FALLTHROUGH */
                case G_READ:
                        if ((u64)h->res != lastfill[o->thr]) {
                                sim_violation("contents", "filled memory reads %llx, expected %llx", (unsigned long long)h->res,
                                              (unsigned long long)lastfill[o->thr]);
                        }
                        break;
                default:
                        break;
                }
        }
        for (int i = 0; i < nt; i++) {
                u64 c;
                memcpy(&c, mem + MT_AREA + CELLS + 8 * i, 8);
                if (c != cells[i]) {
                        sim_violation("lost-update", "thread %d incremented its own word %u times, it holds %llu", i, cells[i], (unsigned long long)c);
                }
        }
        u32 c;
        memcpy(&c, mem + MT_AREA + COUNTER, 4);
        if (c != adds) {
                sim_violation("lost-update", "%u atomic increments left %u", adds, c);
        }
        for (int j = ntv - 1; j >= 0; j--) {
                bool later = tv[j].d > 1;
                u8 *tm = tv[j].d == 1 ? VEC_ELEM(e.inst->mems, 1)->data : mem;
                for (int k = j + 1; k < ntv; k++) {
                        later |= tv[k].a == tv[j].a && tv[k].d == tv[j].d;
                }
                u64 now;
                if (later) {
                        continue;
                }
                memcpy(&now, tm + tv[j].a, 8);
                if (now != tv[j].v) {
                        sim_violation("contents", "address %llu finally holds %llx, expected %llx", (unsigned long long)tv[j].a,
                                      (unsigned long long)now, (unsigned long long)tv[j].v);
                }
        }
        for (int i = 0; i < ns; i++) {
                for (int j = 0; j < i; j++) {
                        if (domain(&ops[succ[i]]) == domain(&ops[succ[j]]) && H[succ[i]].b < H[succ[j]].e && H[succ[j]].b < H[succ[i]].e) {
                                PROBE("overlapping-growths");
                        }
                }
        }
        sim_sample("%d threads, memory %u..%u pages%s: %d growths succeeded, %d failed, final %llu bytes\n", nt, min, max,
                   !second ? "" : M[1].priv ? " and one each" : " and another", ns, nfail, (unsigned long long)msz);
        emb_teardown(&e);
}
