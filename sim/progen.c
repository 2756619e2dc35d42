#include "progen.h"
#include "restart.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>

#define NT 7
static const char tych[] = "iIfFvre";
static const u8 tyval[] = {T_I32, T_I64, T_F32, T_F64, T_V128, T_FUNCREF, T_EXTERNREF};
static int
tyi(char c)
{
        return (int)(strchr(tych, c) - tych);
}

#define NLOC 2
#define MAXLAB 40
struct lab {
        char ty[6];
        int n;
        bool dead; /* must not be a branch target */
};
static struct wfunc *F;
static const char *fsig;
static u32 loc[NT][NLOC], xloc, cnt[4];
static struct lab L[MAXLAB];
static int nl, loopdepth;
static int budget;
static struct pg *P;
static struct wmod *M;
static struct {
        char sig[12];
        struct wfunc *f;
} fn[16];
static u32 nfn;
static u32 h_log, h_log64, h_cb, h_grew, w_read, w_write, w_poll, w_yield, w_time;
static u32 gl[NT][2], glconst, tagidx[3], ndata, nelem, fieldtab;
static const char *const tagsig[] = {"i:", "I:", ":"};
static u32 typedtab[3]; /* table of funcref (calls), funcref (data), externref */

static void expr(char t, int d);
static void stmt(int d);
static void stmts(int n, int d);
static bool
chance(u32 a, u32 b)
{
        return rndp(R_GEN, a, b);
}
static u32
pick(u32 n)
{
        return rndn(R_GEN, n);
}
static u64
anyint(void)
{
        static const u64 k[] = {0, 1, 2, 3, 7, 8, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, UINT64_MAX};
        switch (pick(3)) {
        case 0:
                return k[pick(16)];
        case 1:
                return pick(64);
        default:
                return rnd(R_GEN) >> pick(64);
        }
}
static void
fdop(u32 sub)
{
        op(F, 0xfd);
        bb_u(&F->code, sub);
}
static void
konst(char t)
{
        u64 v = anyint();
        switch (t) {
        case 'i':
                i32c(F, (int32_t)v);
                break;
        case 'I':
                i64c(F, (i64)v);
                break;
        case 'f': {
                float x = (float)(i64)v / 3;
                op(F, 0x43);
                bb_raw(&F->code, &x, 4);
                break;
        }
        case 'F': {
                double x = (double)(i64)v / 7;
                op(F, 0x44);
                bb_raw(&F->code, &x, 8);
                break;
        }
        case 'v': {
                u64 b = anyint();
                fdop(12);
                bb_raw(&F->code, &v, 8);
                bb_raw(&F->code, &b, 8);
                break;
        }
        case 'r':
                if (chance(1, 3)) {
                        op(F, 0xd0);
                        op(F, T_FUNCREF);
                } else {
                        op_u(F, 0xd2, fn[pick(nfn)].f->idx);
                }
                break;
        default:
                if (chance(1, 3)) {
                        op(F, 0xd0);
                        op(F, T_EXTERNREF);
                } else {
                        gget(F, gl[6][0]);
                }
        }
}
/* an address: nearly always inside */
static void
addr(u32 mem, int d)
{
        expr('i', d - 1);
        if (!chance(1, 400) || (P->o.threaded && mem == 0)) {
                static const u32 mask[] = {0xff, 0xff0, 0xfff, 0x3ffc, 0xfff0};
                i32c(F, (int32_t)mask[pick(5)]);
                op(F, OP_I32_AND);
        }
}
static void
marg(u32 mem, u32 maxalign)
{
        static const u32 offs[] = {0, 0, 1, 4, 16, 64, 1000, 4096};
        u32 al = pick(maxalign + 1);
        u32 off = P->o.threaded && mem == 0 ? offs[pick(5)] : chance(1, 300) ? (u32)rnd(R_GEN) : offs[pick(8)];
        if (mem != 0) {
                bb_u(&F->code, al | 64);
                bb_u(&F->code, mem);
        } else {
                bb_u(&F->code, al);
        }
        bb_u(&F->code, off);
}
static void
margx(u32 mem, u32 al) /* atomics: exact alignment */
{
        if (mem != 0) {
                bb_u(&F->code, al | 64);
                bb_u(&F->code, mem);
        } else {
                bb_u(&F->code, al);
        }
        bb_u(&F->code, 8 * pick(4));
}
static void
aaddr(int d)
{
        expr('i', d - 1);
        i32c(F, 0xff8);
        op(F, OP_I32_AND);
}
static void
vals(const char *ty, int d)
{
        for (; *ty != 0 && *ty != ':'; ty++) {
                expr(*ty, d);
        }
}
/* put the top of the stack somewhere */
static void
sink(char t)
{
        if (t == 'x') {
                if (chance(1, 2)) {
                        lset(F, xloc);
                } else {
                        op(F, OP_DROP);
                }
                return;
        }
        switch (pick(3)) {
        case 0:
                op(F, OP_DROP);
                break;
        case 1:
                lset(F, loc[tyi(t)][pick(NLOC)]);
                break;
        default:
                gset(F, gl[tyi(t)][1]);
        }
}
static void
sinks(const char *ty)
{
        for (size_t n = strlen(ty); n > 0; n--) {
                sink(ty[n - 1]);
        }
}
static void
push(const char *ty)
{
        if (nl == MAXLAB) {
                abort();
        }
        memset(&L[nl], 0, sizeof(L[nl]));
        snprintf(L[nl].ty, sizeof(L[nl].ty), "%s", ty);
        nl++;
}
static void
pop(void)
{
        nl--;
        op(F, OP_END);
}
static void
bt(const char *sig)
{
        const char *c = strchr(sig, ':');
        if (c == sig && strlen(c) == 1) {
                op(F, 0x40);
        } else if (c == sig && strlen(c) == 2) {
                op(F, tyval[tyi(c[1])]);
        } else {
                bb_s(&F->code, wm_type(M, sig));
        }
}
static const char *const multi[] = {":ii", "i:i", "I:iI", "iF:", "v:vi", ":rI", "ii:ii", "f:F", ":Iv", "r:r"};
static const char *
callee(void)
{
        return fn[pick(nfn)].sig;
}
static int
find_fn(char t) /* a function whose first result is t */
{
        int c[16], n = 0;
        for (u32 i = 0; i < nfn; i++) {
                if (strchr(fn[i].sig, ':')[1] == t) {
                        c[n++] = i;
                }
        }
        return n == 0 ? -1 : c[pick(n)];
}
static void
docall(u32 i, int d)
{
        vals(fn[i].sig, d - 1);
        if (chance(1, 3)) { /* through the table; nearly always the right entry */
                if (chance(1, 60)) {
                        expr('i', 0);
                } else {
                        i32c(F, (int32_t)i);
                }
                op(F, 0x11);
                bb_u(&F->code, wm_type(M, fn[i].sig));
                bb_u(&F->code, typedtab[0]);
        } else {
                call(F, fn[i].f->idx);
        }
}
static void
fuel(u32 n)
{
        gget(F, P->fuelglob);
        i32c(F, (int32_t)n);
        op(F, OP_I32_SUB);
        gset(F, P->fuelglob);
}
static void
grown(u32 what)
{
        /* the result of a growth is on the stack */
        if (P->o.report) {
                i32c(F, (int32_t)what);
                call(F, h_grew);
        }
}
static void
leaf(char t)
{
        switch (pick(4)) {
        case 0:
                konst(t);
                break;
        case 1:
                if (t != 'e' && t != 'r') {
                        gget(F, gl[tyi(t)][pick(2)]);
                        break;
                }
                gget(F, gl[tyi(t)][1]);
                break;
        default:
                lget(F, loc[tyi(t)][pick(NLOC)]);
        }
}
static void
ops(const u8 *t, size_t n)
{
        op(F, t[pick(n)]);
}
#define OPS(...) ops((const u8[]){__VA_ARGS__}, sizeof((u8[]){__VA_ARGS__}))
static void
vbin(void)
{
        static const u32 k[] = {0x6e, 0x71, 0x8e, 0x91, 0x95, 0xae, 0xb1, 0xb5, 0xce, 0xd1, 0xd5, 0xe4, 0xe6, 0xf0, 0x4e, 0x4f, 0x50, 0x51, 0x23, 0x37, 0x6f, 0x76, 0x0e};
        fdop(k[pick(sizeof(k) / sizeof(k[0]))]);
}
static void
structured(char t, int d)
{
        char sig[3] = {':', t, 0};
        char ty[2] = {t, 0};
        switch (pick(4)) {
        case 0: /* block */
                op(F, OP_BLOCK);
                bt(sig);
                push(ty);
                stmts(pick(3), d - 1);
                expr(t, d - 1);
                if (chance(1, 2)) {
                        expr('i', d - 2);
                        op_u(F, OP_BR_IF, 0);
                }
                pop();
                break;
        case 1: /* if */
                expr('i', d - 1);
                op(F, OP_IF);
                bt(sig);
                push(ty);
                stmts(pick(2), d - 1);
                expr(t, d - 1);
                op(F, OP_ELSE);
                stmts(pick(2), d - 1);
                expr(t, d - 1);
                pop();
                break;
        case 2: { /* parameters and several results */
                char s2[8];
                snprintf(s2, sizeof(s2), "i%c:%ci", t, t);
                i32c(F, 5);
                expr(t, d - 1);
                op(F, OP_BLOCK);
                bt(s2);
                snprintf(s2, sizeof(s2), "%ci", t);
                push(s2);
                sink(t);
                sink('i');
                stmts(pick(2), d - 1);
                expr(t, d - 2);
                expr('i', d - 2);
                if (chance(1, 2)) {
                        expr('i', 0);
                        op_u(F, OP_BR_IF, 0);
                }
                pop();
                sink('i');
                break;
        }
        default: /* loop whose body runs once, unless branched to */
                if (loopdepth >= 3) {
                        leaf(t);
                        break;
                }
                i32c(F, (int32_t)(1 + pick(5)));
                lset(F, cnt[loopdepth]);
                op(F, OP_LOOP);
                bt(sig);
                push("");
                L[nl - 1].dead = true;
                loopdepth++;
                stmts(1 + pick(2), d - 1);
                loopdepth--;
                lget(F, cnt[loopdepth]);
                i32c(F, 1);
                op(F, OP_I32_SUB);
                ltee(F, cnt[loopdepth]);
                i32c(F, 0);
                op(F, 0x4a); /* gt_s */
                gget(F, P->fuelglob);
                i32c(F, 0);
                op(F, 0x4a);
                op(F, OP_I32_AND);
                fuel(1);
                op_u(F, OP_BR_IF, 0);
                expr(t, d - 1);
                pop();
        }
}
static void
expr(char t, int d)
{
        if (d <= 0 || --budget <= 0 || chance(1, 6)) {
                leaf(t);
                return;
        }
        if (chance(1, 7)) {
                structured(t, d);
                return;
        }
        if (chance(1, 8)) {
                int i = find_fn(t);
                if (i >= 0) {
                        docall(i, d);
                        const char *res = strchr(fn[i].sig, ':') + 1;
                        sinks(res + 1);
                        return;
                }
        }
        if (chance(1, 10)) {
                expr(t, d - 1);
                ltee(F, loc[tyi(t)][pick(NLOC)]);
                return;
        }
        if (chance(1, 12)) { /* select */
                expr(t, d - 1);
                expr(t, d - 1);
                expr('i', d - 1);
                if (t == 'r' || t == 'e' || chance(1, 3)) {
                        op(F, 0x1c);
                        bb_u(&F->code, 1);
                        op(F, tyval[tyi(t)]);
                } else {
                        op(F, OP_SELECT);
                }
                return;
        }
        u32 mem = pick(P->nmem);
        switch (t) {
        case 'i':
                switch (pick(15)) {
                case 0:
                        expr('i', d - 1);
                        OPS(0x45, 0x67, 0x68, 0x69, 0xc0, 0xc1);
                        break;
                case 1:
                case 2:
                case 3:
                        expr('i', d - 1);
                        expr('i', d - 1);
                        OPS(0x6a, 0x6b, 0x6c, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f);
                        break;
                case 4:
                        expr('i', d - 1);
                        i32c(F, (int32_t)(chance(1, 40) ? 0 : 1 + pick(9)));
                        OPS(0x6d, 0x6e, 0x6f, 0x70);
                        break;
                case 5:
                        expr('I', d - 1);
                        if (chance(1, 2)) {
                                OPS(0xa7, 0x50);
                        } else {
                                expr('I', d - 1);
                                OPS(0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a);
                        }
                        break;
                case 6:
                        expr('f', d - 1);
                        if (chance(1, 2)) {
                                if (chance(1, 15)) {
                                        OPS(0xa8, 0xa9); /* may trap */
                                } else {
                                        fcop(F, pick(2));
                                }
                        } else {
                                expr('f', d - 1);
                                OPS(0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60);
                        }
                        break;
                case 7:
                        expr('F', d - 1);
                        if (chance(1, 2)) {
                                fcop(F, 2 + pick(2));
                        } else {
                                expr('F', d - 1);
                                OPS(0x61, 0x62, 0x63, 0x64, 0x65, 0x66);
                        }
                        break;
                case 8:
                        addr(mem, d);
                        switch (pick(5)) {
                        case 0:
                                op(F, 0x28);
                                marg(mem, 2);
                                break;
                        case 1:
                        case 2:
                                OPS(0x2c, 0x2d);
                                marg(mem, 0);
                                break;
                        default:
                                OPS(0x2e, 0x2f);
                                marg(mem, 1);
                        }
                        break;
                case 9:
                        if (P->o.threaded && mem == 0) {
                                leaf('i');
                                break;
                        }
                        if (chance(1, 2)) {
                                op_u(F, 0x3f, mem);
                        } else {
                                i32c(F, (int32_t)(chance(1, 8) ? pick(100000) : pick(3)));
                                op_u(F, 0x40, mem);
                                grown(mem);
                        }
                        break;
                case 10: {
                        u32 k = pick(3);
                        if (chance(1, 2) || k == 0) {
                                fcop(F, 16);
                        } else {
                                expr(k == 2 ? 'e' : 'r', d - 1);
                                i32c(F, (int32_t)(chance(1, 10) ? pick(80) : pick(4)));
                                fcop(F, 15);
                        }
                        bool g = F->code.p[F->code.n - 1] == 15;
                        bb_u(&F->code, typedtab[k]);
                        if (g) {
                                grown(8 + k);
                        }
                        break;
                }
                case 11:
                        if (chance(1, 2)) {
                                expr('r', d - 1);
                        } else {
                                expr('e', d - 1);
                        }
                        op(F, 0xd1);
                        break;
                case 12:
                        expr('v', d - 1);
                        switch (pick(3)) {
                        case 0:
                                fdop(0x53);
                                break;
                        case 1:
                                fdop(0x1b);
                                op(F, pick(4));
                                break;
                        default:
                                fdop(0x16);
                                op(F, pick(16));
                        }
                        break;
                case 13:
                        switch (pick(4)) {
                        case 0:
                                expr('i', d - 1);
                                i32c(F, 3);
                                op(F, OP_I32_AND);
                                expr('i', d - 1);
                                call(F, h_cb);
                                break;
                        case 1:
                                expr('i', d - 1);
                                expr('I', d - 1);
                                call(F, h_log64);
                                break;
                        default:
                                expr('i', d - 1);
                                call(F, h_log);
                        }
                        break;
                default: /* atomics */
                        aaddr(d);
                        switch (pick(6)) {
                        case 0:
                                op(F, 0xfe);
                                bb_u(&F->code, 0x10);
                                margx(mem, 2);
                                break;
                        case 1: {
                                static const u8 rmw[] = {0x1e, 0x25, 0x2c, 0x33, 0x3a, 0x41};
                                expr('i', d - 1);
                                op(F, 0xfe);
                                bb_u(&F->code, rmw[pick(6)]);
                                margx(mem, 2);
                                break;
                        }
                        case 2:
                                expr('i', d - 1);
                                expr('i', d - 1);
                                op(F, 0xfe);
                                bb_u(&F->code, 0x48);
                                margx(mem, 2);
                                break;
                        case 3:
                                i32c(F, (int32_t)pick(3));
                                op(F, 0xfe);
                                bb_u(&F->code, A_NOTIFY);
                                margx(mem, 2);
                                break;
                        case 4:
                                if (P->o.waits && (P->o.threaded || P->o.shared)) { /* waits need a shared memory */
                                        bool w64 = chance(1, 2);
                                        if (chance(3, 4)) {
                                                i32c(F, 128);
                                                op(F, 0xfe);
                                                bb_u(&F->code, w64 ? 0x11 : 0x10);
                                                bb_u(&F->code, w64 ? 3 : 2);
                                                bb_u(&F->code, 0);
                                                /* wait for the value that is at 128 */
                                                lset(F, w64 ? loc[1][0] : loc[0][0]);
                                                op(F, OP_DROP);
                                                i32c(F, 128);
                                        } else if (w64) {
                                                i64c(F, 5);
                                                lset(F, loc[1][0]);
                                        } else {
                                                i32c(F, 5);
                                                lset(F, loc[0][0]);
                                        }
                                        lget(F, w64 ? loc[1][0] : loc[0][0]);
                                        i64c(F, (i64)rndlog(R_GEN, 1, 400 * MS));
                                        op(F, 0xfe);
                                        bb_u(&F->code, w64 ? A_WAIT64 : A_WAIT32);
                                        bb_u(&F->code, w64 ? 3 : 2);
                                        bb_u(&F->code, 0);
                                        break;
                                }
                                /* fallthrough */
                        default:
                                op(F, 0xfe);
                                bb_u(&F->code, 0x12);
                                margx(mem, 0);
                        }
                }
                break;
        case 'I':
                switch (pick(6)) {
                case 0:
                        expr('i', d - 1);
                        OPS(0xac, 0xad);
                        break;
                case 1:
                        expr('I', d - 1);
                        OPS(0x79, 0x7a, 0x7b, 0xc2, 0xc3, 0xc4);
                        break;
                case 2:
                        addr(mem, d);
                        switch (pick(3)) {
                        case 0:
                                op(F, 0x29);
                                marg(mem, 3);
                                break;
                        case 1:
                                OPS(0x30, 0x31);
                                marg(mem, 0);
                                break;
                        default:
                                OPS(0x34, 0x35);
                                marg(mem, 2);
                        }
                        break;
                case 3:
                        expr(chance(1, 2) ? 'F' : 'F', d - 1);
                        op(F, 0xbd);
                        break;
                case 4:
                        expr('v', d - 1);
                        fdop(0x1d);
                        op(F, pick(2));
                        break;
                default:
                        expr('I', d - 1);
                        expr('I', d - 1);
                        OPS(0x7c, 0x7d, 0x7e, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a);
                }
                break;
        case 'f':
                switch (pick(4)) {
                case 0:
                        expr('i', d - 1);
                        OPS(0xb2, 0xb3, 0xbe);
                        break;
                case 1:
                        addr(mem, d);
                        op(F, 0x2a);
                        marg(mem, 2);
                        break;
                case 2:
                        expr('f', d - 1);
                        OPS(0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90);
                        break;
                default:
                        expr('f', d - 1);
                        expr('f', d - 1);
                        OPS(0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98);
                }
                break;
        case 'F':
                switch (pick(4)) {
                case 0:
                        expr('I', d - 1);
                        OPS(0xb9, 0xba, 0xbf);
                        break;
                case 1:
                        addr(mem, d);
                        op(F, 0x2b);
                        marg(mem, 3);
                        break;
                case 2:
                        expr('f', d - 1);
                        op(F, 0xbb);
                        break;
                default:
                        expr('F', d - 1);
                        expr('F', d - 1);
                        OPS(0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6);
                }
                break;
        case 'v':
                switch (pick(6)) {
                case 0:
                        expr('i', d - 1);
                        fdop(0x0f + pick(3));
                        break;
                case 1:
                        expr('I', d - 1);
                        fdop(0x12);
                        break;
                case 2:
                        addr(mem, d);
                        if (chance(1, 2)) {
                                fdop(0);
                                marg(mem, 4);
                        } else {
                                fdop(7 + pick(2) * 2); /* load8_splat, load32_splat */
                                marg(mem, 0);
                        }
                        break;
                case 3:
                        expr('v', d - 1);
                        expr('v', d - 1);
                        fdop(0x0d);
                        for (int i = 0; i < 16; i++) {
                                op(F, pick(32));
                        }
                        break;
                case 4:
                        expr('v', d - 1);
                        expr('v', d - 1);
                        expr('v', d - 1);
                        fdop(0x52);
                        break;
                default:
                        expr('v', d - 1);
                        expr('v', d - 1);
                        vbin();
                }
                break;
        case 'r':
                if (chance(1, 2)) {
                        i32c(F, (int32_t)pick(chance(1, 60) ? 200 : 8));
                        op_u(F, 0x25, typedtab[1]);
                } else {
                        konst('r');
                }
                break;
        default:
                if (chance(1, 2)) {
                        i32c(F, (int32_t)pick(chance(1, 60) ? 200 : 4));
                        op_u(F, 0x25, typedtab[2]);
                } else {
                        konst('e');
                }
        }
}
static void
loop(int d)
{
        if (loopdepth >= 3) {
                return;
        }
        u32 c = cnt[loopdepth];
        i32c(F, (int32_t)(1 + pick(6)));
        lset(F, c);
        blk(F, OP_BLOCK, 0x40);
        push("");
        const char *sig = chance(1, 3) ? "I:" : ":";
        if (*sig == 'I') {
                i64c(F, (i64)anyint());
        }
        op(F, OP_LOOP);
        bt(sig);
        push(*sig == 'I' ? "I" : "");
        if (*sig == 'I') {
                sink('I');
        }
        lget(F, c);
        i32c(F, 0);
        op(F, 0x4c); /* le_s */
        gget(F, P->fuelglob);
        i32c(F, 0);
        op(F, 0x4c);
        op(F, 0x72);
        op_u(F, OP_BR_IF, 1);
        lget(F, c);
        i32c(F, 1);
        op(F, OP_I32_SUB);
        lset(F, c);
        fuel(1);
        loopdepth++;
        stmts(1 + pick(4), d - 1);
        loopdepth--;
        if (*sig == 'I') {
                expr('I', d - 1);
        }
        op_u(F, OP_BR, 0);
        pop();
        pop();
}
/* a conditional jump somewhere */
static void
sleepargs(void)
{
        st64(F, 384, 77);
        st64(F, 392, 0);
        st64(F, 400, pick(2));
        st64(F, 408, rndlog(R_GEN, 1, 300 * MS));
        st64(F, 416, 0);
        st64(F, 424, 0);
        i32c(F, 384);
        i32c(F, 432);
        i32c(F, 1);
        i32c(F, 472);
}
static void
jump(int d)
{
        expr('i', d - 1);
        i32c(F, (int32_t)(1 + pick(7)));
        op(F, OP_I32_AND);
        if (chance(1, 2)) {
                op(F, OP_I32_EQZ);
        }
        blk(F, OP_IF, 0x40);
        push("");
        switch (pick(7)) {
        case 0: /* return */
                vals(strchr(fsig, ':') + 1, d - 1);
                op(F, OP_RETURN);
                break;
        case 1: { /* tail call */
                int c[16], n = 0;
                for (u32 i = 0; i < nfn; i++) {
                        if (!strcmp(strchr(fn[i].sig, ':'), strchr(fsig, ':'))) {
                                c[n++] = i;
                        }
                }
                if (n == 0) {
                        op(F, OP_NOP);
                        break;
                }
                int i = c[pick(n)];
                vals(fn[i].sig, d - 1);
                if (chance(1, 3)) {
                        i32c(F, i);
                        op(F, 0x13);
                        bb_u(&F->code, wm_type(M, fn[i].sig));
                        bb_u(&F->code, typedtab[0]);
                } else {
                        op_u(F, 0x12, fn[i].f->idx);
                }
                break;
        }
        case 2: { /* throw */
                u32 k = pick(3);
                if (chance(1, 8)) {
                        lget(F, xloc);
                        op(F, 0x0a);
                        break;
                }
                vals(tagsig[k], d - 1);
                op_u(F, 0x08, tagidx[k]);
                break;
        }
        case 3: /* tail call of a host function */
                if (!strcmp(strchr(fsig, ':'), ":i")) {
                        if (P->o.waits && !P->o.report && chance(1, 2)) {
                                if (chance(1, 4)) {
                                        op_u(F, 0x12, w_yield);
                                } else {
                                        sleepargs();
                                        op_u(F, 0x12, w_poll);
                                }
                                break;
                        }
                        expr('i', d - 1);
                        if (chance(1, 2)) {
                                expr('i', d - 1);
                                op_u(F, 0x12, h_cb);
                        } else {
                                op_u(F, 0x12, h_log);
                        }
                }
                break;
        default: {
                int c[MAXLAB], n = 0;
                for (int i = 0; i < nl - 1; i++) {
                        if (!L[i].dead) {
                                c[n++] = i;
                        }
                }
                if (n == 0) {
                        break;
                }
                int a = c[pick(n)];
                vals(L[a].ty, d - 1);
                if (chance(1, 2)) {
                        op_u(F, OP_BR, nl - 1 - a);
                        break;
                }
                int s[MAXLAB], m = 0;
                for (int i = 0; i < n; i++) {
                        if (!strcmp(L[c[i]].ty, L[a].ty)) {
                                s[m++] = c[i];
                        }
                }
                expr('i', d - 1);
                u32 k = pick(5);
                op(F, 0x0e);
                bb_u(&F->code, k);
                for (u32 i = 0; i <= k; i++) {
                        bb_u(&F->code, nl - 1 - s[pick(m)]);
                }
        }
        }
        pop();
}
static void
trytable(int d)
{
        u32 kind = pick(4), k = pick(3);
        char ty[4] = "";
        if (kind < 2) {
                snprintf(ty, sizeof(ty), "%.1s", tagsig[k][0] == ':' ? "" : tagsig[k]);
        }
        bool ref = kind & 1;
        blk(F, OP_BLOCK, 0x40);
        push("");
        op(F, OP_BLOCK);
        if (ref) {
                char s[8];
                snprintf(s, sizeof(s), ":%sx", ty);
                bb_s(&F->code, wm_type(M, s));
        } else {
                char s[8];
                snprintf(s, sizeof(s), ":%s", ty);
                bt(s);
        }
        push(ty);
        L[nl - 1].dead = ref;
        op(F, 0x1f);
        op(F, 0x40);
        bb_u(&F->code, 1);
        op(F, kind);
        if (kind < 2) {
                bb_u(&F->code, tagidx[k]);
        }
        bb_u(&F->code, 0);
        push("");
        stmts(1 + pick(3), d - 1);
        if (chance(1, 2)) {
                vals(tagsig[k], d - 1);
                op_u(F, 0x08, tagidx[k]);
        }
        pop();
        op_u(F, OP_BR, 1);
        pop();
        if (ref) {
                sink('x');
        }
        sinks(ty);
        pop();
}
static void
wasicall(void)
{
        u32 m = 0;
        u32 a = 512 + 16 * pick(20);
        switch (pick(5)) {
        case 0: /* write one byte */
        case 1: /* read one byte */
        {
                bool wr = pick(2);
                st32(F, 256, a);
                st32(F, 260, 1);
                i32c(F, wr ? 6 : 5);
                i32c(F, 256);
                i32c(F, 1);
                i32c(F, 264);
                call(F, wr ? w_write : w_read);
                break;
        }
        case 2: /* sleep */
                sleepargs();
                call(F, w_poll);
                break;
        case 3:
                call(F, w_yield);
                break;
        default: /* wait for input */
                st64(F, 384, 78);
                st64(F, 392, 1);
                st64(F, 400, 5);
                i32c(F, 384);
                i32c(F, 432);
                i32c(F, 1);
                i32c(F, 472);
                call(F, w_poll);
                /* how much there is depends on time */
                st64(F, 448, 0);
                st64(F, 456, 0);
        }
        (void)m;
        call(F, h_log);
        sink('i');
}
static void
stmt(int d)
{
        if (--budget <= 0 || nl + 8 > MAXLAB) {
                return;
        }
        u32 mem = pick(P->nmem);
        switch (pick(16)) {
        case 0:
        case 1: {
                char t = tych[pick(NT)];
                expr(t, d);
                sink(t);
                break;
        }
        case 2:
        case 3: {
                addr(mem, d);
                switch (pick(7)) {
                case 0:
                        expr('I', d - 1);
                        op(F, 0x37);
                        marg(mem, 3);
                        break;
                case 1:
                        expr('f', d - 1);
                        op(F, 0x38);
                        marg(mem, 2);
                        break;
                case 2:
                        expr('v', d - 1);
                        fdop(11);
                        marg(mem, 4);
                        break;
                case 3:
                        expr('i', d - 1);
                        OPS(0x3a);
                        marg(mem, 0);
                        break;
                case 4:
                        expr('I', d - 1);
                        OPS(0x3d);
                        marg(mem, 1);
                        break;
                case 5:
                        expr('F', d - 1);
                        op(F, 0x39);
                        marg(mem, 3);
                        break;
                default:
                        expr('i', d - 1);
                        op(F, 0x36);
                        marg(mem, 2);
                }
                break;
        }
        case 4:
                expr('i', d - 1);
                blk(F, OP_IF, 0x40);
                push("");
                stmts(1 + pick(3), d - 1);
                if (chance(1, 2)) {
                        op(F, OP_ELSE);
                        stmts(1 + pick(3), d - 1);
                }
                pop();
                break;
        case 5:
                blk(F, OP_BLOCK, 0x40);
                push("");
                stmts(1 + pick(4), d - 1);
                pop();
                break;
        case 6:
        case 7:
                loop(d);
                break;
        case 8:
                jump(d);
                break;
        case 9: {
                u32 i = pick(nfn);
                docall(i, d);
                sinks(strchr(fn[i].sig, ':') + 1);
                break;
        }
        case 10: { /* bulk memory */
                u32 other = pick(P->nmem);
                u32 len = chance(1, 4) ? pick(3000) : pick(40);
                switch (pick(4)) {
                case 0:
                        addr(mem, d);
                        expr('i', d - 1);
                        i32c(F, (int32_t)len);
                        fcop(F, 11);
                        bb_u(&F->code, mem);
                        break;
                case 1:
                        addr(mem, d);
                        addr(other, d);
                        i32c(F, (int32_t)len);
                        fcop(F, 10);
                        bb_u(&F->code, mem);
                        bb_u(&F->code, other);
                        break;
                case 2:
                        addr(mem, d);
                        i32c(F, (int32_t)pick(8));
                        i32c(F, (int32_t)pick(chance(1, 50) ? 100 : 24));
                        fcop(F, 8);
                        bb_u(&F->code, pick(ndata));
                        bb_u(&F->code, mem);
                        break;
                default:
                        if (chance(1, 12)) {
                                fcop(F, 9);
                                bb_u(&F->code, pick(ndata));
                        }
                }
                break;
        }
        case 11: { /* tables */
                u32 k = 1 + pick(2);
                char t = k == 2 ? 'e' : 'r';
                switch (pick(5)) {
                case 0:
                        i32c(F, (int32_t)pick(chance(1, 60) ? 200 : 4));
                        expr(t, d - 1);
                        op_u(F, 0x26, typedtab[k]);
                        break;
                case 1:
                        i32c(F, (int32_t)pick(4));
                        expr(t, d - 1);
                        i32c(F, (int32_t)pick(chance(1, 60) ? 200 : 4));
                        fcop(F, 17);
                        bb_u(&F->code, typedtab[k]);
                        break;
                case 2:
                        i32c(F, (int32_t)pick(4));
                        i32c(F, (int32_t)pick(3));
                        i32c(F, (int32_t)pick(chance(1, 60) ? 200 : 3));
                        fcop(F, 14);
                        bb_u(&F->code, typedtab[1]);
                        bb_u(&F->code, typedtab[chance(1, 2)]);
                        break;
                case 3:
                        i32c(F, (int32_t)pick(4));
                        i32c(F, (int32_t)pick(2));
                        i32c(F, (int32_t)pick(chance(1, 60) ? 200 : 3));
                        fcop(F, 12);
                        bb_u(&F->code, pick(nelem));
                        bb_u(&F->code, typedtab[1]);
                        break;
                default:
                        if (chance(1, 10)) {
                                fcop(F, 13);
                                bb_u(&F->code, pick(nelem));
                        }
                }
                break;
        }
        case 12:
                trytable(d);
                break;
        case 13:
                if (P->o.waits && !P->o.report && chance(1, 2)) {
                        wasicall();
                } else if (P->o.waits && P->o.shared && chance(2, 3)) {
                        u32 a = 128 + 8 * pick(16);
                        i32c(F, (int32_t)a);
                        i32c(F, (int32_t)a);
                        op(F, 0xfe);
                        bb_u(&F->code, 0x10);
                        bb_u(&F->code, 2);
                        bb_u(&F->code, 0);
                        i64c(F, (i64)rndlog(R_GEN, 1, 400 * MS));
                        op(F, 0xfe);
                        bb_u(&F->code, A_WAIT32);
                        bb_u(&F->code, 2);
                        bb_u(&F->code, 0);
                        sink('i');
                } else {
                        expr('i', d - 1);
                        call(F, h_log);
                        sink('i');
                }
                break;
        case 14: {
                const char *s = multi[pick(10)];
                const char *c = strchr(s, ':');
                char in[4] = "";
                memcpy(in, s, c - s);
                vals(in, d - 1);
                op(F, OP_BLOCK);
                bt(s);
                push(c + 1);
                sinks(in);
                stmts(pick(3), d - 1);
                vals(c + 1, d - 1);
                if (c[1] != 0 && chance(1, 2)) {
                        expr('i', d - 1);
                        op_u(F, OP_BR_IF, 0);
                }
                pop();
                sinks(c + 1);
                break;
        }
        default:
                if (chance(1, 60)) {
                        expr('i', d);
                        blk(F, OP_IF, 0x40);
                        op(F, OP_UNREACHABLE);
                        op(F, OP_END);
                } else if (chance(1, 2)) {
                        aaddr(d);
                        expr('I', d - 1);
                        op(F, 0xfe);
                        bb_u(&F->code, 0x18);
                        margx(mem, 3);
                } else {
                        op(F, 0xfe);
                        bb_u(&F->code, A_FENCE);
                        op(F, 0);
                }
        }
}
static void
stmts(int n, int d)
{
        for (int i = 0; i < n; i++) {
                stmt(d);
        }
}
static void
body(u32 fi, const char *sig, u32 nst, u64 seed)
{
        fsig = sig;
        nl = loopdepth = 0;
        const char *c = strchr(sig, ':');
        for (int t = 0; t < NT; t++) {
                for (int i = 0; i < NLOC; i++) {
                        const char *q = sig;
                        int seen = 0;
                        bool used = false;
                        for (; q < c; q++) {
                                if (*q == tych[t] && seen++ == i) {
                                        loc[t][i] = q - sig;
                                        used = true;
                                        break;
                                }
                        }
                        if (!used) {
                                loc[t][i] = wf_local(F, tyval[t]);
                        }
                }
        }
        xloc = wf_local(F, T_EXNREF);
        for (int i = 0; i < 4; i++) {
                cnt[i] = wf_local(F, T_I32);
        }
        push(c + 1); /* the function itself */
        budget = 30;
        gget(F, P->fuelglob);
        i32c(F, 0);
        op(F, 0x4c);
        blk(F, OP_IF, 0x40);
        for (const char *q = c + 1; *q; q++) {
                leaf(*q);
        }
        op(F, OP_RETURN);
        op(F, OP_END);
        fuel(1);
        if (fi == 1) {
                lget(F, 1);
                gset(F, gl[6][0]);
                lget(F, 2);
                gset(F, gl[6][1]);
        }
        for (u32 k = 0; k < nst; k++) {
                u32 idx = fi * 16 + k;
                while (sim_op_next() < idx) {
                }
                sim_subseed(R_GEN, hash64(seed, idx));
                size_t n0 = F->code.n;
                budget = rndr(R_GEN, 8, 50);
                stmt(2 + pick(4));
                if (!sim_op_enabled(idx)) {
                        F->code.n = n0;
                }
                sim_unsubseed(R_GEN);
        }
        while (sim_op_next() < fi * 16 + 15) {
        }
        sim_subseed(R_GEN, hash64(seed, fi * 16 + 15));
        budget = 20;
        vals(c + 1, 2);
        sim_unsubseed(R_GEN);
}

void
pg_generate(struct pg *p, const struct pg_opt *o)
{
        memset(p, 0, sizeof(*p));
        p->o = *o;
        P = p;
        M = wm_new();
        u64 seed = rnd(R_GEN);
        h_log = wm_import_func(M, "h", "log", "i:i");
        h_log64 = wm_import_func(M, "h", "log64", "iI:i");
        h_cb = wm_import_func(M, "h", "cb", "ii:i");
        h_grew = wm_import_func(M, "h", "grew", "ii:i");
        u32 spawn = 0, f_sleep = 0;
        if (o->waits) {
                w_read = wm_import_func(M, "wasi_snapshot_preview1", "fd_read", "iiii:i");
                w_write = wm_import_func(M, "wasi_snapshot_preview1", "fd_write", "iiii:i");
                w_poll = wm_import_func(M, "wasi_snapshot_preview1", "poll_oneoff", "iiii:i");
                w_yield = wm_import_func(M, "wasi_snapshot_preview1", "sched_yield", ":i");
        }
        if (o->threaded) {
                spawn = wm_import_func(M, "wasi", "thread-spawn", "i:i");
                f_sleep = wm_import_func(M, "sim", "sleep", "I:");
                wm_import_memory(M, "env", "memory", 2, 12, true);
        } else {
                wm_memory(M, 1, 5, o->shared);
        }
        p->mempages[0] = o->threaded ? 2 : 1;
        p->nmem = 1 + rndn(R_GEN, 2);
        if (p->nmem > 1) {
                if (rndp(R_GEN, 1, 3)) {
                        wm_memory_ps(M, 70000, 90000, false, 0);
                } else {
                        wm_memory(M, 2, rndp(R_GEN, 1, 2) ? 4 : -1, false);
                }
        }
        wm_export(M, "memory", 2, 0);
        p->ntab = 3;
        typedtab[0] = wm_table(M, T_FUNCREF, 16, 16);
        typedtab[1] = wm_table(M, T_FUNCREF, 8, 40);
        typedtab[2] = wm_table(M, T_EXTERNREF, 4, -1);
        for (int k = 0; k < 3; k++) {
                tagidx[k] = wm_tag(M, tagsig[k]);
        }
        p->fuelglob = wm_global_const(M, T_I32, true, (i64)o->fuel);
        for (int t = 0; t < NT; t++) {
                for (int i = 0; i < 2; i++) {
                        gl[t][i] = wm_global_const(M, tyval[t], true, t >= 5 ? -1 : (i64)anyint());
                }
        }
        p->nglob = 1 + 2 * NT;
        /* signatures */
        static const char *const sigs[] = {"i:i", "ii:i", "I:I", ":", "iF:f", "v:v", "r:r", "e:e", "fI:iI", "ivI:F", ":ii", "i:r", "IIiif:i", "i:vi"};
        nfn = o->nfunc;
        for (u32 i = 0; i < nfn; i++) {
                const char *s = i == 0 ? "i:i" : i == 1 ? "iee:iIfFv" : sigs[rndn(R_GEN, 14)];
                snprintf(fn[i].sig, sizeof(fn[i].sig), "%s", s);
                fn[i].f = wm_func(M, s);
        }
        ndata = 2;
        static const char d0[] = "the quick brown fox jumps over the lazy dog 0123456789";
        wm_data_passive(M, d0, 48);
        wm_data_passive(M, d0 + 10, 40);
        u32 all[16], some[6];
        for (u32 i = 0; i < nfn; i++) {
                all[i] = fn[i].f->idx;
        }
        for (u32 i = 0; i < 6; i++) {
                some[i] = fn[rndn(R_GEN, nfn)].f->idx;
        }
        wm_elem_funcs(M, 0, all, nfn);
        wm_elem_passive(M, some, 6);
        wm_elem_exprs(M, all, nfn);
        nelem = 3; /* an active segment counts as dropped */
        for (u32 i = 0; i < nfn; i++) {
                F = fn[i].f;
                body(i, fn[i].sig, rndr(R_GEN, 2, 10), seed);
                if (!strcmp(fn[i].sig, "i:i") && p->ncb < 4) {
                        p->cbfunc[p->ncb++] = fn[i].f->idx;
                }
        }
        snprintf(p->ressig, sizeof(p->ressig), "iIfFv");
        wm_export(M, "run", 0, fn[1].f->idx);
        /* afterwards: does the instance still work */
        F = wm_func(M, "i:i");
        lget(F, 0);
        lget(F, 0);
        op(F, OP_I32_MUL);
        i32c(F, 64);
        i32c(F, 64);
        memop(F, 0x28, 0, 0);
        i32c(F, 1);
        op(F, OP_I32_ADD);
        memop(F, 0x36, 0, 0);
        wm_export(M, "again", 0, F->idx);
        if (o->threaded) {
                F = wm_func(M, "ii:");
                u32 k = wf_local(F, T_I32);
                i32c(F, 10);
                lset(F, k);
                blk(F, OP_LOOP, 0x40);
                i64c(F, (i64)rndlog(R_GEN, 1000, 20 * MS));
                call(F, f_sleep);
                i32c(F, 1);
                op_u(F, OP_MEMORY_GROW, 0);
                op(F, OP_DROP);
                lget(F, k);
                i32c(F, 1);
                op(F, OP_I32_SUB);
                ltee(F, k);
                op_u(F, OP_BR_IF, 0);
                op(F, OP_END);
                wm_export(M, "wasi_thread_start", 0, F->idx);
                F = wm_func(M, "i:i");
                lget(F, 0);
                call(F, spawn);
                wm_export(M, "spawn", 0, F->idx);
        }
        p->bin = wm_build(M, &p->n);
        wm_free(M);
        M = NULL;
}

void
pg_free(struct pg *p)
{
        free(p->bin);
        p->bin = NULL;
}

/* ------------------------------------------------------------------ running */
static struct pg_run *R;

static u64
hash_sparse(const u8 *p, size_t n)
{
        u64 h = 1;
        size_t i = 0;
        for (; i + 8 <= n; i += 8) {
                u64 v;
                memcpy(&v, p + i, 8);
                if (v != 0) {
                        h = hash64(hash64(h, i), v);
                }
        }
        if (i < n) {
                u64 v = 0;
                memcpy(&v, p + i, n - i);
                if (v != 0) {
                        h = hash64(hash64(h, i), v);
                }
        }
        return h;
}
static u64
ref_id(struct instance *inst, const void *p)
{
        if (p == NULL) {
                return 0;
        }
        for (u32 i = 0; i < inst->funcs.lsize; i++) {
                if (VEC_ELEM(inst->funcs, i) == p) {
                        return 1 + i;
                }
        }
        return 0x8000000000000000ull | (u64)(uintptr_t)p;
}
static u64
val_id(struct instance *inst, u8 t, const struct val *v)
{
        switch (t) {
        case T_I32:
        case T_F32:
                return v->u.i32;
        case T_I64:
        case T_F64:
                return v->u.i64;
        case T_V128:
                return hash_bytes(3, &v->u.v128, 16);
        case T_FUNCREF:
                return ref_id(inst, v->u.funcref.func);
        default:
                return (u64)(uintptr_t)v->u.externref;
        }
}
static u64
mem_hash(struct pg_run *r, u32 k)
{
        struct meminst *mi = VEC_ELEM(r->e.inst->mems, k);
        size_t n = mi->allocated;
        if (r->p->o.threaded && k == 0 && n > 2 * 65536) {
                n = 2 * 65536;
        }
        return hash_sparse(mi->data, n);
}
static u64
glob_hash(struct pg_run *r)
{
        struct instance *inst = r->e.inst;
        u64 h = 5;
        for (u32 i = 0; i < r->p->nglob; i++) {
                struct globalinst *g = VEC_ELEM(inst->globals, i);
                struct val v;
                memset(&v, 0, sizeof(v));
                global_get(g, &v);
                h = hash64(h, val_id(inst, (u8)g->type->t, &v));
        }
        return h;
}
static u64
tab_hash(struct pg_run *r)
{
        struct instance *inst = r->e.inst;
        u64 h = 7;
        for (u32 i = 0; i < r->p->ntab; i++) {
                struct tableinst *t = VEC_ELEM(inst->tables, i);
                h = hash64(h, t->size);
                for (u32 k = 0; k < t->size; k++) {
                        struct val v;
                        memset(&v, 0, sizeof(v));
                        table_get(t, k, &v);
                        h = hash64(h, val_id(inst, (u8)t->type->et, &v));
                }
        }
        return h;
}
static void
event(u32 what, u64 a, u64 b)
{
        struct pg_run *r = R;
        if (r->nlog == PG_MAXLOG) {
                sim_violation("history", "more host calls than an uninterrupted run could make");
        }
        struct pg_ev *v = &r->log[r->nlog++];
        v->what = what;
        v->a = a;
        v->b = b;
        v->state = 0;
        for (u32 k = 0; k < r->p->nmem; k++) {
                v->state = hash64(v->state, mem_hash(r, k));
        }
        v->state = hash64(hash64(v->state, glob_hash(r)), tab_hash(r));
        sim_trace(what, a, b);
        sim_log("host call %u: %u (%llx, %llx)", r->nlog - 1, what, (unsigned long long)a, (unsigned long long)b);
        shm->nops++;
        if (r->on_event != NULL) {
                r->on_event(r, v);
        }
}
static void
ret32(const struct functype *ft, struct cell *results, u32 x)
{
        struct val v;
        memset(&v, 0, sizeof(v));
        v.u.i32 = x;
        vals_to_cells(&v, results, &ft->result);
}
/* a host function may ask to be called again */
static int
host_check(struct exec_context *ctx)
{
        if (cfg.quiet_restart || rndp(R_WORLD, 1, 2)) {
                return 0;
        }
        return check_interrupt(ctx);
}
static int
h_log_(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v[1];
        int ret = host_check(ctx);
        if (ret != 0) {
                return ret;
        }
        vals_from_cells(v, params, &ft->parameter);
        event(1, v[0].u.i32, 0);
        ret32(ft, results, v[0].u.i32 * 2654435761u + 1);
        return 0;
}
static int
h_log64_(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v[2];
        int ret = host_check(ctx);
        if (ret != 0) {
                return ret;
        }
        vals_from_cells(v, params, &ft->parameter);
        event(2, v[0].u.i32, v[1].u.i64);
        ret32(ft, results, (u32)(v[1].u.i64 >> 7) ^ v[0].u.i32);
        return 0;
}
static int
h_grew_(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v[2];
        vals_from_cells(v, params, &ft->parameter);
        event(3, v[1].u.i32, v[0].u.i32);
        ret32(ft, results, v[0].u.i32);
        return 0;
}
/* calls a guest function once or twice and adds up what it returns */
static int
h_cb_(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v[2];
        vals_from_cells(v, params, &ft->parameter);
        u32 times = 1 + (v[1].u.i32 & 1), k = v[0].u.i32, x = v[1].u.i32;
        u32 step = 0, sum = 0;
        int ret = restart_info_prealloc(ctx);
        if (ret != 0) {
                return ret;
        }
        struct restart_info *restart = &VEC_NEXTELEM(ctx->restarts);
        const struct funcinst *f = VEC_ELEM(R->e.inst->funcs, R->p->cbfunc[k % R->p->ncb]);
        const struct functype *cft = funcinst_functype(f);
        if (restart->restart_type != RESTART_NONE) {
                if (restart->restart_type != RESTART_HOSTFUNC) {
                        sim_violation("restart-state", "a host function called back with restart state of type %d", restart->restart_type);
                }
                struct restart_hostfunc *hf = &restart->restart_u.hostfunc;
                step = hf->user1;
                sum = hf->user2;
                restart_info_clear(ctx);
                ctx->stack.lsize += hf->stack_adj;
                struct val r[1];
                memset(r, 0, sizeof(r));
                exec_pop_vals(ctx, &cft->result, r);
                sum += r[0].u.i32;
                event(5, step, r[0].u.i32);
        } else {
                ret = host_check(ctx);
                if (ret != 0) {
                        return ret;
                }
                event(4, k, x);
        }
        if (step < times) {
                struct val a[1];
                memset(a, 0, sizeof(a));
                a[0].u.i32 = x + step;
                ret = exec_push_vals(ctx, &cft->parameter, a);
                if (ret != 0) {
                        return ret;
                }
                ret = schedule_call_from_hostfunc(ctx, restart, f);
                restart->restart_u.hostfunc.user1 = step + 1;
                restart->restart_u.hostfunc.user2 = sum;
                return ret;
        }
        ret32(ft, results, sum);
        return 0;
}
static const struct host_func pg_funcs[] = {
        HOST_FUNC("log", h_log_, "(i)i"), HOST_FUNC("log64", h_log64_, "(iI)i"), HOST_FUNC("cb", h_cb_, "(ii)i"),
        HOST_FUNC("grew", h_grew_, "(ii)i"),
};
static const struct name pg_modname = NAME_FROM_CSTR_LITERAL("h");
static const struct host_module pg_module = {
        .module_name = &pg_modname,
        .funcs = pg_funcs,
        .nfuncs = ARRAYCOUNT(pg_funcs),
};

static void
pg_feeder(void *vp)
{
        struct pg_run *r = vp;
        while (!r->over) {
                sim_sleep(rndlog(R_WORLD, 1000, 200 * MS));
                u8 b = (u8)hash64(r->inkey, r->in->in);
                chan_put(r->in, &b, 1);
        }
}
static void
drain_out(struct pg_run *r, u32 n)
{
        u8 b;
        while (n-- > 0 && chan_get(r->out, &b, 1) == 1) {
                r->outhash = hash64(r->outhash, b);
                r->noutb++;
        }
}
static void
pg_drainer(void *vp)
{
        struct pg_run *r = vp;
        while (!r->over) {
                sim_sleep(rndlog(R_WORLD, 1000, 200 * MS));
                drain_out(r, 1);
        }
}

void
pg_prepare(struct pg_run *r, const struct pg *p)
{
        r->p = p;
        R = r;
        struct emb *e = &r->e;
        e->use_wasi = p->o.waits;
        e->use_threads = p->o.threaded;
        e->hostmods = &pg_module;
        e->nhostmods = 1;
        e->bin = p->bin;
        e->binsz = p->n;
        if (p->o.waits) {
                r->in = chan_new(4);
                r->out = chan_new(2);
                e->nhostfd = 2;
                e->hostfd[0].wasi = 5;
                e->hostfd[0].host = world_install(of_pipe_r(r->in), -1);
                e->hostfd[1].wasi = 6;
                e->hostfd[1].host = world_install(of_pipe_w(r->out), -1);
                e->no_stdio = true;
                sim_spawn("feeder", pg_feeder, r, true);
                sim_spawn("drainer", pg_drainer, r, true);
        }
}
int
pg_setup(struct pg_run *r, const struct pg *p)
{
        pg_prepare(r, p);
        return emb_all(&r->e);
}
int
pg_exec(struct pg_run *r)
{
        R = r;
        struct emb *e = &r->e;
        struct val a[3], o[8];
        memset(a, 0, sizeof(a));
        memset(o, 0, sizeof(o));
        if (r->p->o.threaded) {
                int ret = emb_call(e, "spawn", a, o);
                if (ret != 0) {
                        return ret;
                }
                memset(o, 0, sizeof(o));
        }
        a[0].u.i32 = 12345;
        a[1].u.externref = (void *)0x1230;
        a[2].u.externref = (void *)0x4560;
        r->ret = emb_call(e, "run", a, o);
        r->trapped = e->trapped;
        r->trapid = e->trapid;
        snprintf(r->trapmsg, sizeof(r->trapmsg), "%s", e->trapmsg);
        if (r->ret == 0) {
                static const u8 ty[] = {T_I32, T_I64, T_F32, T_F64, T_V128};
                for (int i = 0; i < 5; i++) {
                        r->reshash = hash64(r->reshash, val_id(e->inst, ty[i], &o[i]));
                }
        }
        return r->ret;
}
void
pg_final(struct pg_run *r)
{
        struct instance *inst = r->e.inst;
        r->over = true;
        if (r->out != NULL) {
                drain_out(r, 100000);
        }
        for (u32 k = 0; k < r->p->nmem; k++) {
                r->memhash[k] = mem_hash(r, k);
                r->memsize[k] = r->p->o.threaded && k == 0 ? 0 : VEC_ELEM(inst->mems, k)->size_in_pages;
        }
        r->globhash = glob_hash(r);
        r->tabhash = tab_hash(r);
}
const char *
pg_diff(const struct pg_run *a, const struct pg_run *b)
{
        static char buf[500];
        u32 n = a->nlog < b->nlog ? a->nlog : b->nlog;
        for (u32 i = 0; i < n; i++) {
                const struct pg_ev *x = &a->log[i], *y = &b->log[i];
                if (x->what != y->what || x->a != y->a || x->b != y->b) {
                        snprintf(buf, sizeof(buf), "host call %u is %u(%llx, %llx) instead of %u(%llx, %llx)", i, y->what, (unsigned long long)y->a,
                                 (unsigned long long)y->b, x->what, (unsigned long long)x->a, (unsigned long long)x->b);
                        return buf;
                }
                if (x->state != y->state) {
                        snprintf(buf, sizeof(buf), "at host call %u the memories, globals and tables have different contents", i);
                        return buf;
                }
        }
        if (a->nlog != b->nlog) {
                snprintf(buf, sizeof(buf), "%u host calls instead of %u", b->nlog, a->nlog);
                return buf;
        }
        if (a->ret != b->ret || a->trapid != b->trapid || strcmp(a->trapmsg, b->trapmsg)) {
                snprintf(buf, sizeof(buf), "it ends with %d trap %u '%s' instead of %d trap %u '%s'", b->ret, b->trapid, b->trapmsg, a->ret, a->trapid, a->trapmsg);
                return buf;
        }
        if (a->reshash != b->reshash) {
                return "it returns different results";
        }
        for (u32 k = 0; k < a->p->nmem; k++) {
                if (a->memsize[k] != b->memsize[k]) {
                        snprintf(buf, sizeof(buf), "memory %u has %llu pages instead of %llu", k, (unsigned long long)b->memsize[k], (unsigned long long)a->memsize[k]);
                        return buf;
                }
                if (a->memhash[k] != b->memhash[k]) {
                        snprintf(buf, sizeof(buf), "memory %u has different contents in the end", k);
                        return buf;
                }
        }
        if (a->globhash != b->globhash) {
                return "globals have different values in the end";
        }
        if (a->tabhash != b->tabhash) {
                return "tables have different contents in the end";
        }
        if (a->noutb != b->noutb || a->outhash != b->outhash) {
                snprintf(buf, sizeof(buf), "it wrote different output (%llu and %llu bytes)", (unsigned long long)b->noutb, (unsigned long long)a->noutb);
                return buf;
        }
        return NULL;
}
