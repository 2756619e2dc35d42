/* P03: atomic accesses are linearizable. */
#include <stdlib.h>
#include <string.h>

#include "mt.h"

#define AREA 16
struct aop {
        int kind;  /* 0 load 1 store 2 add 3 sub 4 and 5 or 6 xor 7 xchg 8 cmpxchg 9 fence */
        int var;   /* width variant index */
        u32 off, split;
        u64 a, b;
};
static const struct {
        u8 w;   /* bytes accessed */
        bool i64;
} vars[7] = {{4, 0}, {8, 1}, {1, 0}, {2, 0}, {1, 1}, {2, 1}, {4, 1}};
static const u8 load_op[7] = {0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16};
static const u8 store_op[7] = {0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d};
static const u8 rmw_base[9] = {0, 0, 0x1e, 0x25, 0x2c, 0x33, 0x3a, 0x41, 0x48};

static struct aop ops[64];
static int nops;
static u32 area, amem; /* where the cells are, in which memory */

static u64
rdw(const u8 *m, u32 w)
{
        u64 v = 0;
        memcpy(&v, m, w);
        return v;
}

/* applies to the model; false when the recorded result is impossible */
static bool
apply(const struct aop *o, u8 *m, u64 res)
{
        u32 w = vars[o->var].w;
        u64 msk = w == 8 ? ~0ULL : (1ULL << (w * 8)) - 1;
        u64 old = o->kind == 9 ? 0 : rdw(m + o->off, w);
        u64 nv = old;
        u64 a = o->a & msk;
        switch (o->kind) {
        case 1:
                nv = a;
                old = 0;
                break;
        case 2:
                nv = old + a;
                break;
        case 3:
                nv = old - a;
                break;
        case 4:
                nv = old & a;
                break;
        case 5:
                nv = old | a;
                break;
        case 6:
                nv = old ^ a;
                break;
        case 7:
                nv = a;
                break;
        case 8: {
                u64 full = vars[o->var].i64 ? o->a : (u32)o->a;
                if (old == full) {
                        nv = o->b & msk;
                }
                break;
        }
        }
        if (res != old) {
                return false;
        }
        if (o->kind != 9) {
                memcpy(m + o->off, &nv, w);
        }
        return true;
}

static const u8 *fin;
static u64 nodes;
struct memo {
        u64 set, s0, s1;
};
static struct memo *memo;
#define MEMOSZ (1u << 16)

static int
lin(u64 done, u8 *st)
{
        if (++nodes > 400000) {
                return -1;
        }
        u64 minend = NEVER;
        int left = 0;
        for (int i = 0; i < nops; i++) {
                if (!(done >> i & 1) && H[i].nbegin) {
                        left++;
                        if (H[i].e < minend) {
                                minend = H[i].e;
                        }
                }
        }
        if (left == 0) {
                return memcmp(st, fin, AREA) == 0;
        }
        u64 s0 = rdw(st, 8), s1 = rdw(st + 8, 8);
        u64 h = hash64(hash64(hash64(0, done), s0), s1) % MEMOSZ;
        struct memo *e = &memo[h];
        if (e->set == ~done && e->s0 == s0 && e->s1 == s1) {
                return 0;
        }
        for (int i = 0; i < nops; i++) {
                if ((done >> i & 1) || !H[i].nbegin || H[i].b > minend) {
                        continue;
                }
                u8 n[AREA];
                memcpy(n, st, AREA);
                if (!apply(&ops[i], n, (u64)H[i].res)) {
                        continue;
                }
                int r = lin(done | 1ULL << i, n);
                if (r != 0) {
                        return r;
                }
        }
        e->set = ~done;
        e->s0 = s0;
        e->s1 = s1;
        return 0;
}

void
cfg_threads(void)
{
        /* swarm: each fault kind is on in some runs only */
        static const u32 p[] = {0, 0, 500, 5000, 40000};
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 5)];
        cfg.prob[F_SPURIOUS] = p[rndn(R_CFG, 5)] * 10;
        cfg.prob[F_LATE] = p[rndn(R_CFG, 5)] * 5;
        cfg.prob[F_STALL] = p[rndn(R_CFG, 3)];
        cfg.maxf[F_STALL] = 4;
        cfg.prob[F_THREAD] = rndp(R_CFG, 1, 6) ? 200000 : 0;
}

static const char *const knames[] = {"load", "store", "add", "sub", "and", "or", "xor", "xchg", "cmpxchg", "fence"};

static void
emit(struct mt *t, struct wfunc *f, int id)
{
        struct aop *o = &ops[id];
        bool l = vars[o->var].i64;
        u32 al = vars[o->var].w == 1 ? 0 : vars[o->var].w == 2 ? 1 : vars[o->var].w == 4 ? 2 : 3;
        evb(t, f, id);
        if (o->kind == 9) {
                op(f, 0xfe);
                bb_u8(&f->code, 3);
                bb_u8(&f->code, 0);
                eve_none(t, f, id);
                return;
        }
        u32 imm = o->split % (area + o->off + 1);
        i32c(f, (int32_t)(area + o->off - imm));
        if (o->kind != 0) {
                if (l) {
                        i64c(f, (i64)o->a);
                } else {
                        i32c(f, (int32_t)o->a);
                }
                if (o->kind == 8) {
                        if (l) {
                                i64c(f, (i64)o->b);
                        } else {
                                i32c(f, (int32_t)o->b);
                        }
                }
        }
        u8 sub = o->kind == 0 ? load_op[o->var] : o->kind == 1 ? store_op[o->var] : rmw_base[o->kind] + o->var;
        if (amem == 0) {
                atomop(f, sub, al, imm);
        } else {
                op(f, 0xfe);
                bb_u(&f->code, sub);
                bb_u(&f->code, al | 0x40);
                bb_u(&f->code, amem);
                bb_u(&f->code, imm);
        }
        if (o->kind == 1) {
                eve_none(t, f, id);
        } else if (l) {
                eve_i64(t, f, id);
        } else {
                eve_i32(t, f, id);
        }
}

static u64
pickval(void)
{
        switch (rndn(R_GEN, 4)) {
        case 0:
                return rndn(R_GEN, 3);
        case 1:
                return ~0ULL - rndn(R_GEN, 2);
        case 2:
                return 0x0101010101010101ULL * rndn(R_GEN, 4);
        default:
                return rnd(R_GEN);
        }
}

void
run_atomics(void)
{
        struct mt t;
        int nt = rndr(R_GEN, 2, 5);
        u32 pages = rndp(R_GEN, 3, 4) ? 1 : rndr(R_GEN, 2, 40);
        bool grows = rndp(R_GEN, 1, 3);
        mt_begin(&t, nt, pages, pages + rndr(R_GEN, 0, grows ? 30 : 3));
        if (rndp(R_GEN, 1, 6)) {
                amem = 1;
                wm_import_memory_ps(t.m, "env", "memory2", pages, pages + rndr(R_GEN, 0, 30), true, -1);
        }
        area = MT_AREA;
        if (rndp(R_GEN, 1, 3)) {
                u32 pg = rndn(R_GEN, pages);
                area = pg * 65536 + (rndp(R_GEN, 1, 2) ? 65536 - AREA : 8192 + AREA * rndn(R_GEN, 200));
        }
        /* swarm: restrict kinds, widths and offsets */
        u32 kmask = rndp(R_GEN, 1, 2) ? 0x3ff : (u32)rnd(R_GEN) | 2;
        u32 vmask = rndp(R_GEN, 1, 2) ? 0x7f : (u32)rnd(R_GEN) & 0x7f;
        u32 span = rndp(R_GEN, 1, 3) ? AREA : rndp(R_GEN, 1, 2) ? 8 : 4;
        bool noise = rndp(R_GEN, 1, 3);
        int per = rndr(R_GEN, 2, 9);
        nops = 0;
        memset(ops, 0, sizeof(ops));
        for (int i = 0; i < nt; i++) {
                struct wfunc *f = t.tf[i] = wm_func(t.m, ":");
                int n = rndr(R_GEN, 1, per);
                for (int j = 0; j < n && nops < 44; j++) {
                        struct aop *o = &ops[nops];
                        int tries = 0;
                        do {
                                o->kind = rndn(R_GEN, 10);
                        } while (!(kmask >> o->kind & 1) && ++tries < 40);
                        if (o->kind == 9 && !rndp(R_GEN, 1, 4)) {
                                o->kind = 2;
                        }
                        tries = 0;
                        do {
                                o->var = rndn(R_GEN, 7);
                        } while ((!(vmask >> o->var & 1) || vars[o->var].w > span) && ++tries < 40);
                        u32 w = vars[o->var].w;
                        if (w > span) {
                                o->var = 0;
                                w = 4;
                        }
                        o->off = rndn(R_GEN, span / w) * w;
                        o->split = emb_split();
                        o->a = pickval();
                        o->b = pickval();
                        if (o->kind == 8 && rndp(R_GEN, 3, 4)) {
                                u64 msk = w == 8 ? ~0ULL : (1ULL << (w * 8)) - 1;
                                o->a &= msk;
                        }
                        if (sim_op_enabled(sim_op_next())) {
                                emit(&t, f, nops);
                        }
                        nops++;
                        if (noise && rndp(R_GEN, 1, 3)) {
                                call(f, t.f_yield);
                        }
                        if (grows && rndp(R_GEN, 1, 4)) {
                                i32c(f, (int32_t)rndn(R_GEN, 8));
                                op(f, OP_MEMORY_GROW);
                                bb_u(&f->code, rndp(R_GEN, 1, 2) ? amem : 0);
                                op(f, OP_DROP);
                        }
                }
        }
        t.barrier = rndp(R_GEN, 2, 3);
        mt_end(&t, t.barrier ? nt : (int)rndr(R_GEN, 0, nt), true);
        size_t sz;
        u8 *b = mt_build(&t, &sz);
        struct emb e;
        emb_init(&e);
        e.use_wasi = e.use_threads = true;
        e.bin = b;
        e.binsz = sz;
        int ret = emb_all(&e);
        if (ret != 0) {
                sim_violation("setup", "setting up failed: %d %s", ret, e.loadmsg);
        }
        ret = emb_call(&e, "_start", NULL, NULL);
        if (ret != 0 || e.trapped) {
                sim_violation("outcome", "program ended with %d trap %u %s", ret, e.trapid, e.trapmsg);
        }
        u64 msz;
        u8 *mem = amem == 0 ? emb_mem(&e, &msz) : VEC_ELEM(e.inst->mems, 1)->data;
        static u8 finbuf[AREA];
        memcpy(finbuf, mem + area, AREA);
        fin = finbuf;
        int live = 0;
        for (int i = 0; i < nops; i++) {
                if (H[i].nbegin != H[i].nend) {
                        sim_violation("incomplete", "operation %d did not complete", i);
                }
                live += H[i].nbegin;
        }
        memo = calloc(MEMOSZ, sizeof(*memo));
        u8 st[AREA] = {0};
        int r = lin(0, st);
        free(memo);
        if (r < 0) {
                PROBE("linearizability-search-cut");
        } else if (r == 0) {
                char buf[4000];
                size_t l = 0;
                for (int i = 0; i < nops && l < sizeof(buf) - 200; i++) {
                        if (H[i].nbegin) {
                                l += snprintf(buf + l, sizeof(buf) - l, " [f%d %llu-%llu %s%u@%u %llx,%llx -> %llx]", H[i].fid,
                                              (unsigned long long)H[i].b, (unsigned long long)H[i].e, knames[ops[i].kind],
                                              vars[ops[i].var].w * 8, ops[i].off, (unsigned long long)ops[i].a,
                                              (unsigned long long)ops[i].b, (unsigned long long)H[i].res);
                        }
                }
                sim_violation("not-linearizable", "no sequential order explains the results and final memory %016llx %016llx:%s",
                              (unsigned long long)rdw(fin, 8), (unsigned long long)rdw(fin + 8, 8), buf);
        } else {
                int conc = 0;
                for (int i = 0; i < nops; i++) {
                        for (int j = 0; j < i; j++) {
                                conc += H[i].nbegin && H[j].nbegin && H[i].b < H[j].e && H[j].b < H[i].e;
                        }
                }
                if (conc > 0) {
                        PROBE("overlapping-atomics");
                }
                sim_sample("%d atomic operations on %u bytes by %d threads, %d overlapping pairs, linearization found in %llu nodes\n", live, span,
                           nt, conc, (unsigned long long)nodes);
        }
        emb_teardown(&e);
}
