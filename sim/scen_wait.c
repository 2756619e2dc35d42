/* P04: wait and notify. */
#include <stdlib.h>
#include <string.h>

#include "mt.h"

enum wk { W_WAIT, W_NOTIFY, W_STORE, W_SLEEP, W_SET, W_AWAIT, W_CRIT };
struct wop {
        enum wk k;
        bool w64;
        u32 addr; /* relative to MT_AREA */
        u32 split; /* how the address is split into operand and immediate */
        u64 val;  /* expected / stored */
        i64 timeout;
        u32 count;
        int thr;
        bool on;
        /* notify: waits that were certainly blocked when it began */
        u32 certain[16];
        u64 certain_dl[16];
        u32 ncertain;
        bool overlap;
};
#define MAXW 64
static struct wop ops[MAXW];
static int nops;
#define SLOTS 3
static u32 slotpos[SLOTS]; /* relative to MT_AREA */
#define FLAGS 64
#define LOCK 160
#define CNT 168

static void
on_begin(u32 id)
{
        struct wop *o = &ops[id];
        if (o->k != W_NOTIFY) {
                return;
        }
        for (int i = 0; i < nops; i++) {
                u64 dl;
                if (ops[i].k == W_NOTIFY && (u32)i != id && H[i].nbegin && !H[i].nend && ops[i].addr == o->addr) {
                        o->overlap = true;
                        ops[i].overlap = true;
                }
                if (ops[i].k == W_WAIT && ops[i].addr == o->addr && H[i].nbegin && !H[i].nend && sim_cond_blocked(H[i].fid, &dl)) {
                        o->certain[o->ncertain] = i;
                        o->certain_dl[o->ncertain++] = dl;
                }
        }
}

static void
on_end(u32 id, i64 res)
{
        struct wop *o = &ops[id];
        if (o->k != W_NOTIFY) {
                return;
        }
        if ((u64)res > o->count) {
                sim_violation("notify-count", "notify of at most %u threads reported %lld woken", o->count, (long long)res);
        }
        if (o->overlap) {
                return;
        }
        u32 n = 0;
        for (u32 i = 0; i < o->ncertain; i++) {
                if (o->certain_dl[i] > sim_now()) {
                        n++;
                }
        }
        u32 want = n < o->count ? n : o->count;
        if (want > 0) {
                PROBE("notify-with-blocked-waiters");
        }
        if (want > 1) {
                PROBE("notify-several-blocked-waiters");
        }
        if (res < want) {
                sim_violation("lost-notify", "%u threads were blocked on the address, notify of %u woke %lld", n, o->count, (long long)res);
        }
}

/* could the 32-bit word at addr hold a value (== v, or != v) at some point of [b,e]? */
static bool
possible(u32 addr, u32 v, bool eq, u64 b, u64 e)
{
        bool init_dead = false;
        for (int i = 0; i < nops; i++) {
                struct wop *s = &ops[i];
                if (s->k != W_STORE || !H[i].nbegin || H[i].b > e) {
                        continue;
                }
                u32 sv;
                if (s->w64 && (s->addr == addr || s->addr + 4 == addr)) {
                        sv = s->addr == addr ? (u32)s->val : (u32)(s->val >> 32);
                } else if (!s->w64 && s->addr == addr) {
                        sv = (u32)s->val;
                } else {
                        continue;
                }
                if (H[i].nend && H[i].e < b) {
                        init_dead = true;
                }
                bool dead = false;
                for (int j = 0; j < nops && !dead; j++) {
                        struct wop *t = &ops[j];
                        if (j == i || t->k != W_STORE || !H[j].nend) {
                                continue;
                        }
                        bool same = t->w64 ? (t->addr == addr || t->addr + 4 == addr) : t->addr == addr;
                        if (same && H[i].nend && H[j].b > H[i].e && H[j].e < b) {
                                dead = true;
                        }
                }
                if (!dead && (sv == v) == eq) {
                        return true;
                }
        }
        return !init_dead && (0 == v) == eq;
}

void
cfg_wait(void)
{
        static const u32 p[] = {0, 0, 500, 5000, 40000};
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 5)];
        cfg.prob[F_SPURIOUS] = p[rndn(R_CFG, 5)] * 10;
        cfg.prob[F_LATE] = p[rndn(R_CFG, 5)] * 5;
        cfg.prob[F_STALL] = rndp(R_CFG, 1, 3) ? p[rndn(R_CFG, 4)] : 0;
        cfg.maxf[F_STALL] = 4;
        cfg.prob[F_INTR] = rndp(R_CFG, 1, 3) ? 500000 : 0;
}

static void
emit(struct mt *t, struct wfunc *f, int id)
{
        struct wop *o = &ops[id];
        u32 a = MT_AREA + (o->addr < 8 * SLOTS ? slotpos[o->addr / 8] + o->addr % 8 : o->addr);
        u32 off = o->split % (a + 1), base = a - off;
        switch (o->k) {
        case W_WAIT:
                evb(t, f, id);
                i32c(f, base);
                if (o->w64) {
                        i64c(f, (i64)o->val);
                } else {
                        i32c(f, (int32_t)o->val);
                }
                i64c(f, o->timeout);
                atomop(f, o->w64 ? A_WAIT64 : A_WAIT32, o->w64 ? 3 : 2, off);
                eve_i32(t, f, id);
                break;
        case W_NOTIFY:
                evb(t, f, id);
                i32c(f, base);
                i32c(f, (int32_t)o->count);
                atomop(f, A_NOTIFY, 2, off);
                eve_i32(t, f, id);
                break;
        case W_STORE:
                evb(t, f, id);
                i32c(f, base);
                if (o->w64) {
                        i64c(f, (i64)o->val);
                } else {
                        i32c(f, (int32_t)o->val);
                }
                atomop(f, o->w64 ? 0x18 : 0x17, o->w64 ? 3 : 2, off);
                eve_none(t, f, id);
                break;
        case W_SLEEP:
                i64c(f, o->timeout);
                call(f, t->f_sleep);
                break;
        case W_SET:
                i32c(f, base);
                i32c(f, 1);
                atomop(f, 0x17, 2, off);
                i32c(f, base);
                i32c(f, -1);
                atomop(f, A_NOTIFY, 2, off);
                op(f, OP_DROP);
                break;
        case W_AWAIT:
                evb(t, f, id);
                blk(f, OP_BLOCK, 0x40);
                blk(f, OP_LOOP, 0x40);
                i32c(f, base);
                atomop(f, 0x10, 2, off);
                op_u(f, OP_BR_IF, 1);
                i32c(f, base);
                i32c(f, 0);
                i64c(f, o->timeout);
                atomop(f, A_WAIT32, 2, off);
                op(f, OP_DROP);
                op_u(f, OP_BR, 0);
                op(f, OP_END);
                op(f, OP_END);
                eve_none(t, f, id);
                break;
        case W_CRIT:
                blk(f, OP_BLOCK, 0x40);
                blk(f, OP_LOOP, 0x40);
                i32c(f, MT_AREA);
                i32c(f, 0);
                i32c(f, 1);
                atomop(f, 0x48, 2, LOCK);
                op(f, OP_I32_EQZ);
                op_u(f, OP_BR_IF, 1);
                i32c(f, MT_AREA);
                i32c(f, 1);
                i64c(f, -1);
                atomop(f, A_WAIT32, 2, LOCK);
                op(f, OP_DROP);
                op_u(f, OP_BR, 0);
                op(f, OP_END);
                op(f, OP_END);
                evb(t, f, id);
                i32c(f, MT_AREA);
                i32c(f, MT_AREA);
                memop(f, OP_I32_LOAD, 2, CNT);
                i32c(f, 1);
                op(f, OP_I32_ADD);
                call(f, t->f_yield);
                memop(f, OP_I32_STORE, 2, CNT);
                eve_none(t, f, id);
                i32c(f, MT_AREA);
                i32c(f, 0);
                atomop(f, 0x17, 2, LOCK);
                i32c(f, MT_AREA);
                i32c(f, 1);
                atomop(f, A_NOTIFY, 2, LOCK);
                op(f, OP_DROP);
                break;
        }
}

void
run_wait(void)
{
        struct mt t;
        int nt = rndr(R_GEN, 2, 6);
        /* the addresses: next to each other, or alike but for one bit */
        u32 pages = rndp(R_GEN, 1, 2) ? 1 : rndp(R_GEN, 1, 6) ? 256 : rndr(R_GEN, 2, 4);
        mt_begin(&t, nt, pages, pages + 1);
        for (u32 i = 1; i < SLOTS; i++) {
                u32 d;
                do {
                        d = 1u << rndr(R_GEN, 8, pages == 1 ? 14 : pages < 4 ? 16 : pages == 4 ? 17 : 23);
                } while (i == 2 && d == slotpos[1]);
                slotpos[i] = rndp(R_GEN, 1, 2) ? 8 * i : d;
        }
        slotpos[0] = 0;
        for (int i = 0; i < nt; i++) {
                t.tf[i] = wm_func(t.m, ":");
        }
        int total = rndr(R_GEN, 3, 30);
        u32 slots = rndr(R_GEN, 1, SLOTS);
        u32 mask = rndp(R_GEN, 1, 3) ? 0x7f : (u32)rnd(R_GEN) & 0x7f;
        mask |= rndp(R_GEN, 3, 4) ? 3 : 1 << rndn(R_GEN, 2);
        int flagset[16] = {0}, nflags = 0;
        static const i64 tos[] = {0, 0, 1, 1000, 300000, 5000000, 49000000, 60000000, 250000000, 2000000000};
        memset(ops, 0, sizeof(ops));
        nops = 0;
        for (int i = 0; i < total; i++) {
                struct wop *o = &ops[nops];
                static const u8 ks[] = {W_WAIT, W_WAIT, W_WAIT, W_NOTIFY, W_NOTIFY, W_STORE, W_SLEEP, W_SET, W_AWAIT, W_CRIT};
                int tries = 0;
                do {
                        o->k = ks[rndn(R_GEN, sizeof(ks))];
                } while (!(mask >> o->k & 1) && ++tries < 30);
                o->thr = rndn(R_GEN, nt);
                o->w64 = rndp(R_GEN, 1, 4);
                o->addr = 8 * rndn(R_GEN, slots) + (!o->w64 && rndp(R_GEN, 1, 4) ? 4 : 0);
                o->val = rndn(R_GEN, 10) < 8 ? 0 : rndn(R_GEN, 3);
                if (o->k == W_STORE) {
                        o->val = rndn(R_GEN, 3);
                }
                if (o->w64 && rndp(R_GEN, 1, 3)) {
                        o->val |= (u64)rndn(R_GEN, 2) << 32;
                }
                o->timeout = rndp(R_GEN, 1, 8) ? INT64_MAX / 1000000 : tos[rndn(R_GEN, sizeof(tos) / sizeof(tos[0]))];
                if (o->timeout == INT64_MAX / 1000000) {
                        o->timeout = (i64)rndlog(R_GEN, 1, 3 * SEC);
                }
                static const u32 cs[] = {0, 1, 1, 1, 2, 3, 0xffffffff};
                o->count = cs[rndn(R_GEN, 7)];
                if (o->k == W_SLEEP) {
                        o->timeout = (i64)rndlog(R_GEN, 1000, 400 * MS);
                }
                o->split = emb_split();
                bool on = sim_op_enabled(sim_op_next());
                if (o->k == W_SET) {
                        if (nflags >= 16) {
                                continue;
                        }
                        o->addr = FLAGS + 4 * nflags;
                        flagset[nflags++] = on;
                }
                if (o->k == W_AWAIT) {
                        if (nflags == 0) {
                                continue;
                        }
                        int fl = rndn(R_GEN, nflags);
                        o->addr = FLAGS + 4 * fl;
                        o->timeout = rndp(R_GEN, 2, 3) ? -1 : rndp(R_GEN, 1, 3) ? INT64_MAX - (i64)rndn(R_GEN, 2) : (i64)rndlog(R_GEN, MS, SEC);
                        on = on && flagset[fl];
                }
                o->on = on;
                if (on) {
                        emit(&t, t.tf[o->thr], nops);
                }
                nops++;
        }
        t.barrier = rndp(R_GEN, 2, 3);
        mt_end(&t, nt, true);
        size_t sz;
        u8 *b = mt_build(&t, &sz);
        struct emb e;
        emb_init(&e);
        e.use_wasi = e.use_threads = true;
        e.bin = b;
        e.binsz = sz;
        emb_begin_cb = on_begin;
        emb_end_cb = on_end;
        emb_interrupts(&e);
        int ret = emb_all(&e);
        if (ret != 0) {
                sim_violation("setup", "setting up failed: %d %s", ret, e.loadmsg);
        }
        ret = emb_call(&e, "_start", NULL, NULL);
        if (ret != 0 || e.trapped) {
                sim_violation("outcome", "program ended with %d trap %u %s", ret, e.trapid, e.trapmsg);
        }
        u64 msz;
        u8 *mem = emb_mem(&e, &msz);
        i64 woken[8 * SLOTS] = {0}, zero[8 * SLOTS] = {0};
        u32 crit = 0, nw = 0, r[3] = {0};
#if defined(TOYWASM_USE_USER_SCHED)
        const u64 slack = 2 * SEC; /* the threads take turns */
#else
        const u64 slack = 500 * MS;
#endif
        bool timing = cfg.prob[F_STALL] == 0 && cfg.prob[F_LATE] == 0 && cfg.tick_ps <= 2000;
        for (int i = 0; i < nops; i++) {
                struct wop *o = &ops[i];
                struct hist *h = &H[i];
                if (!o->on || o->k == W_SLEEP || o->k == W_SET) {
                        continue;
                }
                if (h->nbegin != 1 || h->nend != 1) {
                        sim_violation("incomplete", "operation %d of kind %d began %u times and ended %u times", i, o->k, h->nbegin, h->nend);
                }
                if (o->k == W_CRIT) {
                        crit++;
                        for (int j = 0; j < i; j++) {
                                if (ops[j].on && ops[j].k == W_CRIT && H[j].b < h->e && h->b < H[j].e) {
                                        sim_violation("mutual-exclusion", "critical sections %d and %d overlap", i, j);
                                }
                        }
                }
                if (o->k == W_NOTIFY) {
                        woken[o->addr] += h->res;
                }
                if (o->k != W_WAIT) {
                        continue;
                }
                nw++;
                if (h->res < 0 || h->res > 2) {
                        sim_violation("wait-result", "wait returned %lld", (long long)h->res);
                }
                r[h->res]++;
                u32 lo = (u32)o->val, hi = (u32)(o->val >> 32);
                bool may_eq = possible(o->addr, lo, true, h->b, h->e) && (!o->w64 || possible(o->addr + 4, hi, true, h->b, h->e));
                bool may_ne = possible(o->addr, lo, false, h->b, h->e) || (o->w64 && possible(o->addr + 4, hi, false, h->b, h->e));
                if (h->res == 1 && !may_ne) {
                        sim_violation("wait-result", "wait %d returned not-equal, but the value equalled the expected %llx throughout", i,
                                      (unsigned long long)o->val);
                }
                if (h->res != 1 && !may_eq) {
                        sim_violation("wait-result", "wait %d blocked (result %lld) although the value never was the expected %llx", i,
                                      (long long)h->res, (unsigned long long)o->val);
                }
                if (h->res == 2) {
                        if (h->te - h->tb < (u64)o->timeout) {
                                sim_violation("early-timeout", "wait %d with timeout %lld ns timed out after %llu ns", i,
                                              (long long)o->timeout, (unsigned long long)(h->te - h->tb));
                        }
                        PROBE("wait-timeout");
                }
                if (timing && h->te - h->tb > (u64)o->timeout + slack) {
                        sim_violation("late-return", "wait %d with timeout %lld ns took %llu ns", i, (long long)o->timeout,
                                      (unsigned long long)(h->te - h->tb));
                }
                if (h->res == 0) {
                        zero[o->addr]++;
                        bool any = false;
                        for (int j = 0; j < nops; j++) {
                                any |= ops[j].on && ops[j].k == W_NOTIFY && ops[j].addr == o->addr && H[j].b < h->e && H[j].e > h->b && H[j].res > 0;
                        }
                        if (!any) {
                                sim_violation("wait-result", "wait %d returned woken without a notify on its address", i);
                        }
                        PROBE("wait-woken");
                }
        }
        for (u32 a = 0; a < 8 * SLOTS; a++) {
                if (woken[a] != zero[a]) {
                        sim_violation("notify-conservation", "notifies on address +%u report %lld woken threads, %lld waits returned woken", a,
                                      (long long)woken[a], (long long)zero[a]);
                }
        }
        u32 c;
        memcpy(&c, mem + MT_AREA + CNT, 4);
        if (c != crit) {
                sim_violation("mutual-exclusion", "%u critical sections left a counter of %u", crit, c);
        }
        sim_sample("%d threads, %d operations: %u waits (%u woken, %u not-equal, %u timed out), %u critical sections\n", nt, nops, nw, r[0], r[1],
                   r[2], crit);
        emb_teardown(&e);
}
