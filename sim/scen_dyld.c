/* P20: programs with shared libraries, loaded at the start and while running, with failures. */
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define SIM_WITH_DYLD
#include "dyld.h"
#include "embed.h"
#include "simfs.h"
#include "wasmgen.h"

void cfg_dyld(void);
void run_dyld(void);

void
cfg_dyld(void)
{
        static const u32 p[] = {0, 0, 1 << 17, 1 << 14};
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 4)];
        cfg.prob[F_INTR] = rndp(R_CFG, 1, 3) ? 1 << 19 : 0;
        cfg.max_vtime = 100000 * SEC;
}

/* ------------------------------------------------------------------ the libraries */
#define NF 6
#define ND 4
#define MAXLIB 7
#define STR_OFF 96  /* of the main module's strings */
#define DAT(k) (48 + 8 * (k))
#define MAIN_MB 1024 /* where a non-PIE main module has its data */

enum { D_LEAF, D_CALL, D_TAIL, D_ICALL, D_ITAIL, D_THROW, ND_KIND };
struct fdef {
        u8 kind, tgt;
        bool wide; /* another type than the importers expect */
        u32 c;
};
enum { B_OK, B_MISSING, B_GARBAGE, B_NODYLINK, B_EMPTY, B_HUGEMEM, B_HUGETAB, B_ALIGN, B_NEEDMISSING, B_NEEDBAD, B_IMPORT, B_DATA, B_START, B_N };
enum { C_NONE, C_CALL, C_TRAP, C_DLOPEN };
struct ldef {
        char name[32];
        u32 needs[8], nneeds;
        u8 fexp[NF]; /* definition + 1 */
        struct fdef def[NF];
        u32 ndef;
        u8 dexp[ND]; /* 1: address, 2: a variable global, which is no address */
        bool pimp[NF], gfimp[NF], gdimp[ND], fweak[NF], dweak[ND];
        u32 memsz, malign, dlen, tsz, talign;
        u8 telem[4];
        u32 ntelem;
        bool reloc;
        u8 rsym;
        u8 ctor; /* 1 _initialize 2 __wasm_call_ctors */
        u8 cact, csym, clib;
        u32 carg;
        int broken;
        u8 data[160 + 1024];
        bool reach[MAXLIB]; /* by needs */
};
static struct ldef lib[MAXLIB]; /* [nlib]: the main module */
static u32 nlib;
#define MAINL nlib
static bool pie, dlfcn, bindnow, bytepages;
static struct wmod *M;

/* the main module's strings */
static char strs[1024];
static u32 nstrs, s_lib[MAXLIB], s_f[NF], s_d[ND], s_probe[MAXLIB], s_bad[4], s_badlen[4];
static u32
addstr(const char *s, size_t n)
{
        u32 o = nstrs;
        memcpy(strs + nstrs, s, n);
        nstrs += n + 1;
        return o;
}

static void
gen_lib(u32 i)
{
        struct ldef *l = &lib[i];
        bool m = i == MAINL;
        memset(l, 0, sizeof(*l));
        snprintf(l->name, sizeof(l->name), "lib%c.so", (int)('a' + i));
        l->ndef = rndr(R_GEN, 1, NF);
        for (u32 k = 0; k < l->ndef; k++) {
                l->def[k].kind = rndp(R_GEN, 1, 3) ? D_LEAF : rndn(R_GEN, ND_KIND);
                l->def[k].tgt = rndn(R_GEN, NF);
                l->def[k].c = (u32)rnd(R_GEN) & 0xffffff00;
                l->def[k].wide = rndp(R_GEN, 1, 60);
        }
        for (u32 k = 0; k < NF; k++) {
                if (rndp(R_GEN, 2, 5)) {
                        l->fexp[k] = 1 + rndn(R_GEN, l->ndef);
                }
                l->pimp[k] = rndp(R_GEN, 2, 5);
                l->gfimp[k] = rndp(R_GEN, 1, 3);
                l->fweak[k] = rndp(R_GEN, 1, 4);
        }
        for (u32 k = 0; k < l->ndef; k++) {
                struct fdef *d = &l->def[k];
                if (d->kind == D_CALL || d->kind == D_TAIL) {
                        l->pimp[d->tgt] = true;
                } else if (d->kind == D_ICALL || d->kind == D_ITAIL) {
                        l->gfimp[d->tgt] = true;
                }
        }
        for (u32 k = 0; k < ND; k++) {
                if (rndp(R_GEN, 2, 5)) {
                        l->dexp[k] = rndp(R_GEN, 1, 8) ? 2 : 1;
                }
                l->gdimp[k] = rndp(R_GEN, 1, 3);
                l->dweak[k] = rndp(R_GEN, 1, 4);
        }
        l->dlen = m ? STR_OFF + nstrs : rndr(R_GEN, 80, 160);
        l->memsz = l->dlen + (rndp(R_GEN, 1, 3) ? 0 : (u32)rndlog(R_GEN, 1, 140000));
        l->malign = rndn(R_GEN, 8) ? rndr(R_GEN, 2, 6) : rndr(R_GEN, 7, 17);
        l->ntelem = rndn(R_GEN, 5);
        for (u32 k = 0; k < l->ntelem; k++) {
                l->telem[k] = rndn(R_GEN, l->ndef);
        }
        l->tsz = l->ntelem + rndn(R_GEN, 4);
        l->talign = rndn(R_GEN, 4) ? 0 : rndn(R_GEN, 5);
        l->reloc = rndp(R_GEN, 1, 2);
        l->rsym = ND;
        for (u32 k = 0; k < ND; k++) {
                if (l->gdimp[k] && rndp(R_GEN, 1, 2)) {
                        l->rsym = k;
                }
        }
        l->ctor = rndn(R_GEN, 3);
        l->carg = (u32)rnd(R_GEN) & 0xffffff0f;
        if (l->ctor != 0 && rndp(R_GEN, 1, 2)) {
                l->cact = C_CALL;
                l->csym = rndn(R_GEN, NF);
                if (!l->pimp[l->csym]) {
                        l->cact = C_NONE;
                }
        } else if (l->ctor != 0 && rndp(R_GEN, 1, 30)) {
                l->cact = C_TRAP;
        }
        for (u32 k = 0; k < l->dlen; k++) {
                l->data[k] = (u8)rnd(R_GEN);
        }
        if (m) {
                memcpy(l->data + STR_OFF, strs, nstrs);
        }
        l->nneeds = m ? rndn(R_GEN, nlib < 4 ? nlib + 1 : 5) : rndp(R_GEN, 1, 2) ? 0 : rndn(R_GEN, 4);
        for (u32 k = 0; k < l->nneeds; k++) {
                l->needs[k] = rndn(R_GEN, nlib); /* itself, the same twice and cycles too */
        }
}

static bool
reach_defines(u32 l, bool fn, u32 k)
{
        for (u32 i = 0; i <= nlib; i++) {
                bool in = i == l || i == MAINL || (i < nlib && (lib[l].reach[i] || lib[MAINL].reach[i]));
                if (in && (fn ? lib[i].fexp[k] != 0 : lib[i].dexp[k] == 1)) {
                        return true;
                }
        }
        return false;
}
static void
closure(void)
{
        for (u32 i = 0; i <= nlib; i++) {
                memset(lib[i].reach, 0, sizeof(lib[i].reach));
                for (u32 k = 0; k < lib[i].nneeds; k++) {
                        lib[i].reach[lib[i].needs[k]] = true;
                }
        }
        for (u32 r = 0; r <= nlib; r++) {
                for (u32 i = 0; i <= nlib; i++) {
                        for (u32 a = 0; a < nlib; a++) {
                                for (u32 b = 0; b < nlib && lib[i].reach[a]; b++) {
                                        lib[i].reach[b] |= lib[a].reach[b];
                                }
                        }
                }
        }
}
static void
generate(void)
{
        nlib = rndr(R_GEN, 1, MAXLIB - 1);
        pie = rndp(R_GEN, 2, 3);
        dlfcn = rndp(R_GEN, 3, 4);
        bindnow = rndp(R_GEN, 1, 3);
        bytepages = rndp(R_GEN, 1, 6);
        nstrs = 0;
        for (u32 i = 0; i < nlib; i++) {
                char b[40];
                snprintf(b, sizeof(b), "lib%c.so", (int)('a' + i));
                s_lib[i] = addstr(b, strlen(b));
        }
        for (u32 i = 0; i < MAXLIB; i++) {
                char b[40];
                snprintf(b, sizeof(b), "probe%u", i);
                s_probe[i] = addstr(b, strlen(b));
        }
        for (u32 k = 0; k < NF; k++) {
                char b[8];
                snprintf(b, sizeof(b), "f%u", k);
                s_f[k] = addstr(b, strlen(b));
        }
        for (u32 k = 0; k < ND; k++) {
                char b[8];
                snprintf(b, sizeof(b), "d%u", k);
                s_d[k] = addstr(b, strlen(b));
        }
        static const char *const bad[4] = {"../p1/x.so", "sub/x.so", "libz.so", "x.so\0y"};
        for (u32 i = 0; i < 4; i++) {
                s_badlen[i] = i == 3 ? 6 : (u32)strlen(bad[i]);
                s_bad[i] = addstr(bad[i], s_badlen[i]);
        }
        for (u32 i = 0; i <= nlib; i++) {
                gen_lib(i);
        }
        if (dlfcn && !pie) {
                lib[MAINL].needs[lib[MAINL].nneeds++] = 0;
        }
        closure();
        if (rndp(R_GEN, 1, 4)) {
                struct ldef *l = &lib[rndn(R_GEN, nlib + 1)];
                l->broken = rndr(R_GEN, 1, B_N - 1);
                if (l == &lib[MAINL] && !pie && l->broken >= B_HUGEMEM && l->broken <= B_ALIGN) {
                        l->broken = B_OK; /* it has its own memory and table */
                }
        }
        /* symbols nobody defines are weak references, mostly */
        for (u32 i = 0; i <= nlib; i++) {
                for (u32 k = 0; k < NF; k++) {
                        if ((lib[i].pimp[k] || lib[i].gfimp[k]) && !reach_defines(i, true, k) && !rndp(R_GEN, 1, 12)) {
                                lib[i].fweak[k] = true;
                        }
                }
                for (u32 k = 0; k < ND; k++) {
                        if (lib[i].gdimp[k] && !reach_defines(i, false, k) && !rndp(R_GEN, 1, 12)) {
                                lib[i].dweak[k] = true;
                        }
                }
        }
        if (dlfcn) {
                /* initialisation that loads another library, which does not do so */
                for (u32 i = 0; i <= nlib; i++) {
                        u32 t = rndn(R_GEN, nlib);
                        bool ok = lib[i].ctor != 0 && t != i && rndp(R_GEN, 1, 4) && lib[t].cact != C_DLOPEN;
                        for (u32 a = 0; a < nlib; a++) {
                                ok &= !(lib[t].reach[a] && (a == i || lib[a].cact == C_DLOPEN));
                                /* nor becomes one that is reached by such a library */
                        }
                        for (u32 a = 0; a <= nlib; a++) {
                                ok &= !(lib[a].cact == C_DLOPEN && (lib[a].clib == i || lib[lib[a].clib].reach[i < nlib ? i : 0]));
                        }
                        if (ok) {
                                lib[i].cact = C_DLOPEN;
                                lib[i].clib = t;
                                memcpy(lib[i].data + 12, lib[t].name, strlen(lib[t].name));
                        }
                }
        }
}

/* ------------------------------------------------------------------ as modules */
static u32 g_mb, g_tb, g_sp, g_layout[4], g_fn[NF], g_dat[ND], i_fn[NF], i_note, i_load, i_sym, i_probe[MAXLIB], t_i, t_iii, tag;
static void
mb(struct wfunc *f, bool m)
{
        if (m && !pie) {
                i32c(f, MAIN_MB);
        } else {
                gget(f, g_mb);
        }
}
static void
note(struct wfunc *f, bool m, u32 code, u32 l)
{
        i32c(f, (int)(code * 256 + l));
        mb(f, m);
        i32c(f, 0);
        call(f, i_note);
}
static void
icall(struct wfunc *f, u32 type, bool tail)
{
        op_u(f, tail ? 0x13 : 0x11, type);
        bb_u(&f->code, 0);
}
static void
when(struct wfunc *f, u32 var, u32 v)
{
        lget(f, var);
        i32c(f, (int)v);
        op(f, OP_I32_EQ);
        blk(f, OP_IF, 0x40);
}
static void
done(struct wfunc *f)
{
        op(f, OP_RETURN);
        op(f, OP_END);
}
enum { P_CALL, P_FADDR, P_ICALL, P_DADDR, P_LOAD, P_STORE, P_MB, P_TB, P_OWN, P_SP, P_SETSP, P_LAYOUT, P_CATCH };
static const char *const layoutname[4] = {"__heap_base", "__heap_end", "__stack_low", "__stack_high"};
#define NP_PAGES 3
static u32 lay[4]; /* of a non-PIE main module */

/* a load through the library loader, with notes around it; leaves the result on the stack */
static void
dlopen_code(struct wfunc *f, bool m, u32 l, void (*namep)(struct wfunc *, bool, u32), u32 target, u32 len, u32 modev, u32 retoff)
{
        u32 r = wf_local(f, T_I32);
        i32c(f, (int)(4 * 256 + l));
        mb(f, m);
        i32c(f, (int)target);
        call(f, i_note);
        namep(f, m, target);
        i32c(f, (int)len);
        i32c(f, (int)modev);
        mb(f, m);
        i32c(f, (int)retoff);
        op(f, OP_I32_ADD);
        call(f, i_load);
        lset(f, r);
        i32c(f, (int)(5 * 256 + l));
        lget(f, r);
        mb(f, m);
        memop(f, OP_I32_LOAD, 2, retoff);
        call(f, i_note);
        lget(f, r);
}
static void
name_own(struct wfunc *f, bool m, u32 target)
{
        mb(f, m);
        i32c(f, 12);
        op(f, OP_I32_ADD);
}

static u8 *
build(u32 li, size_t *n)
{
        struct ldef *l = &lib[li];
        bool m = li == MAINL;
        bool own = m && !pie;
        M = wm_new();
        int ps = bytepages ? 0 : -1;
        if (own) {
                wm_memory_ps(M, bytepages ? NP_PAGES * 65536 : NP_PAGES, -1, false, ps);
                wm_table(M, T_FUNCREF, 1 + l->tsz, -1);
        } else {
                wm_import_memory_ps(M, "env", "memory", 0, -1, false, ps);
                wm_import_table(M, "env", "__indirect_function_table", 0, -1);
                g_mb = wm_import_global(M, "env", "__memory_base", T_I32, false);
                g_tb = wm_import_global(M, "env", "__table_base", T_I32, false);
                g_sp = wm_import_global(M, "env", "__stack_pointer", T_I32, true);
                for (int k = 0; k < 4; k++) {
                        g_layout[k] = wm_import_global(M, "GOT.mem", layoutname[k], T_I32, true);
                }
                tag = wm_import_tag(M, "env", "__cpp_exception", "i:");
        }
        i_note = wm_import_func(M, "host", "note", "iii:");
        if (dlfcn) {
                /* a non-PIE main module has them from a library only */
                i_load = wm_import_func(M, own ? "env" : "dyld", own ? "dl_load" : "load_object", "iiii:i");
                i_sym = wm_import_func(M, own ? "env" : "dyld", own ? "dl_sym" : "resolve_symbol", "iiiii:i");
        }
        if (l->broken == B_IMPORT) {
                wm_import_func(M, "elsewhere", "f", ":");
        }
        char b[40];
        for (u32 k = 0; k < NF; k++) {
                snprintf(b, sizeof(b), "f%u", k);
                if (l->pimp[k]) {
                        i_fn[k] = wm_import_func(M, "env", b, "i:i");
                }
                if (l->gfimp[k]) {
                        g_fn[k] = wm_import_global(M, "GOT.func", b, T_I32, true);
                }
        }
        for (u32 k = 0; k < ND; k++) {
                snprintf(b, sizeof(b), "d%u", k);
                if (l->gdimp[k]) {
                        g_dat[k] = wm_import_global(M, "GOT.mem", b, T_I32, true);
                }
        }
        if (m) {
                for (u32 k = 0; k < nlib; k++) {
                        snprintf(b, sizeof(b), "probe%u", k);
                        i_probe[k] = wm_import_func(M, "env", b, "iii:i");
                }
        }
        if (own) {
                g_sp = wm_global_const(M, T_I32, true, (int)lay[3]);
                wm_export(M, "__stack_pointer", 3, g_sp);
                for (int k = 0; k < 4; k++) {
                        g_layout[k] = wm_global_const(M, T_I32, false, (int)lay[k]);
                        wm_export(M, layoutname[k], 3, g_layout[k]);
                }
                wm_export(M, "memory", 2, 0);
                wm_export(M, "__indirect_function_table", 1, 0);
        }
        t_i = wm_type(M, "i:i");
        t_iii = wm_type(M, "iii:i");
        /* the definitions */
        u32 fidx[NF];
        for (u32 k = 0; k < l->ndef; k++) {
                struct fdef *d = &l->def[k];
                if (d->wide) {
                        struct wfunc *f = wm_func(M, "I:I");
                        lget(f, 0);
                        fidx[k] = f->idx;
                        continue;
                }
                struct wfunc *f = wm_func(M, "i:i");
                fidx[k] = f->idx;
                if (d->kind != D_LEAF && d->kind != D_THROW) {
                        lget(f, 0);
                        i32c(f, 255);
                        op(f, OP_I32_AND);
                        blk(f, OP_IF, 0x40);
                        lget(f, 0);
                        i32c(f, 1);
                        op(f, OP_I32_SUB);
                        switch (d->kind) {
                        case D_CALL:
                                call(f, i_fn[d->tgt]);
                                break;
                        case D_TAIL:
                                op_u(f, 0x12, i_fn[d->tgt]);
                                break;
                        case D_ICALL:
                                gget(f, g_fn[d->tgt]);
                                icall(f, t_i, false);
                                break;
                        default:
                                gget(f, g_fn[d->tgt]);
                                icall(f, t_i, true);
                                break;
                        }
                        if (d->kind == D_CALL || d->kind == D_ICALL) {
                                i32c(f, (int)d->c);
                                op(f, OP_I32_XOR);
                                op(f, OP_RETURN);
                        }
                        op(f, OP_END);
                }
                lget(f, 0);
                i32c(f, (int)d->c);
                op(f, OP_I32_XOR);
                if (d->kind == D_THROW && !own) {
                        op_u(f, 0x08, tag);
                }
        }
        for (u32 k = 0; k < NF; k++) {
                if (l->fexp[k] != 0) {
                        snprintf(b, sizeof(b), "f%u", k);
                        wm_export(M, b, 0, fidx[l->fexp[k] - 1]);
                }
        }
        for (u32 k = 0; k < ND; k++) {
                if (l->dexp[k] != 0) {
                        snprintf(b, sizeof(b), "d%u", k);
                        wm_export(M, b, 3, wm_global_const(M, T_I32, l->dexp[k] == 2, (int)((own ? MAIN_MB : 0) + DAT(k))));
                }
        }
        if (dlfcn && li == 0) {
                struct wfunc *f = wm_func(M, "iiii:i");
                wm_export(M, "dl_load", 0, f->idx);
                for (u32 k = 0; k < 4; k++) {
                        lget(f, k);
                }
                call(f, i_load);
                f = wm_func(M, "iiiii:i");
                wm_export(M, "dl_sym", 0, f->idx);
                for (u32 k = 0; k < 5; k++) {
                        lget(f, k);
                }
                op_u(f, 0x12, i_sym);
        }
        /* (op, k, x) */
        struct wfunc *p = wm_func(M, "iii:i");
        snprintf(b, sizeof(b), "probe%u", li);
        wm_export(M, b, 0, p->idx);
        for (u32 k = 0; k < NF; k++) {
                when(p, 1, k);
                if (l->pimp[k]) {
                        when(p, 0, P_CALL);
                        lget(p, 2);
                        call(p, i_fn[k]);
                        done(p);
                        if (!own) {
                                when(p, 0, P_CATCH);
                                blk(p, OP_BLOCK, T_I32);
                                op(p, 0x1f);
                                op(p, 0x40);
                                bb_u(&p->code, 1);
                                op(p, 0);
                                bb_u(&p->code, tag);
                                bb_u(&p->code, 0);
                                lget(p, 2);
                                call(p, i_fn[k]);
                                op(p, OP_RETURN);
                                op(p, OP_END);
                                op(p, OP_UNREACHABLE);
                                op(p, OP_END);
                                i32c(p, 1);
                                op(p, OP_I32_ADD);
                                done(p);
                        }
                }
                if (l->gfimp[k]) {
                        when(p, 0, P_FADDR);
                        gget(p, g_fn[k]);
                        done(p);
                        when(p, 0, P_ICALL);
                        lget(p, 2);
                        gget(p, g_fn[k]);
                        icall(p, t_i, false);
                        done(p);
                }
                if (k < ND && l->gdimp[k]) {
                        when(p, 0, P_DADDR);
                        gget(p, g_dat[k]);
                        done(p);
                        when(p, 0, P_LOAD);
                        gget(p, g_dat[k]);
                        memop(p, OP_I32_LOAD, 0, 0);
                        done(p);
                        when(p, 0, P_STORE);
                        gget(p, g_dat[k]);
                        lget(p, 2);
                        memop(p, OP_I32_STORE, 0, 0);
                        i32c(p, 0);
                        done(p);
                }
                if (k < 4) {
                        when(p, 0, P_LAYOUT);
                        gget(p, g_layout[k]);
                        done(p);
                }
                op(p, OP_END);
        }
        when(p, 0, P_MB);
        mb(p, m);
        done(p);
        when(p, 0, P_TB);
        if (own) {
                i32c(p, 1);
        } else {
                gget(p, g_tb);
        }
        done(p);
        when(p, 0, P_OWN);
        lget(p, 2);
        lget(p, 1);
        if (own) {
                i32c(p, 1);
        } else {
                gget(p, g_tb);
        }
        op(p, OP_I32_ADD);
        icall(p, t_i, false);
        done(p);
        when(p, 0, P_SP);
        gget(p, g_sp);
        done(p);
        when(p, 0, P_SETSP);
        lget(p, 2);
        gset(p, g_sp);
        i32c(p, 0);
        done(p);
        op(p, OP_UNREACHABLE);
        /* initialisation */
        if (l->reloc) {
                struct wfunc *f = wm_func(M, ":");
                wm_export(M, "__wasm_apply_data_relocs", 0, f->idx);
                note(f, m, 1, li);
                if (l->rsym < ND) {
                        mb(f, m);
                        gget(f, g_dat[l->rsym]);
                        memop(f, OP_I32_STORE, 0, 0);
                }
        }
        if (l->ctor != 0) {
                struct wfunc *f = wm_func(M, ":");
                wm_export(M, l->ctor == 1 ? "_initialize" : "__wasm_call_ctors", 0, f->idx);
                note(f, m, 2, li);
                switch (l->cact) {
                case C_CALL:
                        mb(f, m);
                        i32c(f, (int)l->carg);
                        call(f, i_fn[l->csym]);
                        memop(f, OP_I32_STORE, 0, 4);
                        break;
                case C_TRAP:
                        op(f, OP_UNREACHABLE);
                        break;
                case C_DLOPEN:
                        dlopen_code(f, m, li, name_own, l->clib, (u32)strlen(lib[l->clib].name), 0, 8);
                        op(f, OP_DROP);
                        break;
                default:
                        break;
                }
                note(f, m, 3, li);
        }
        if (m) {
                /* drv(lib, op, k, x) */
                struct wfunc *f = wm_func(M, "iiii:i");
                wm_export(M, "drv", 0, f->idx);
                for (u32 k = 0; k <= nlib; k++) {
                        when(f, 0, k);
                        lget(f, 1);
                        lget(f, 2);
                        lget(f, 3);
                        call(f, k < nlib ? i_probe[k] : p->idx);
                        done(f);
                }
                op(f, OP_UNREACHABLE);
                f = wm_func(M, "iiii:i"); /* by function pointer */
                wm_export(M, "ptr", 0, f->idx);
                lget(f, 1);
                lget(f, 2);
                lget(f, 3);
                lget(f, 0);
                icall(f, t_iii, false);
                f = wm_func(M, "i:i");
                wm_export(M, "grow", 0, f->idx);
                lget(f, 0);
                op_u(f, OP_MEMORY_GROW, 0);
                f = wm_func(M, ":i");
                wm_export(M, "size", 0, f->idx);
                op_u(f, OP_MEMORY_SIZE, 0);
                f = wm_func(M, "ii:");
                wm_export(M, "st", 0, f->idx);
                lget(f, 0);
                lget(f, 1);
                memop(f, OP_I32_STORE, 0, 0);
                f = wm_func(M, "i:i"); /* table.grow with null */
                wm_export(M, "tgrow", 0, f->idx);
                op(f, 0xd0);
                op(f, T_FUNCREF);
                lget(f, 0);
                fcop(f, 15);
                bb_u(&f->code, 0);
                f = wm_func(M, "ii:"); /* copy a table element */
                wm_export(M, "tcopy", 0, f->idx);
                lget(f, 0);
                lget(f, 1);
                op_u(f, 0x25, 0);
                op_u(f, 0x26, 0);
                f = wm_func(M, "ii:i"); /* call an element */
                wm_export(M, "tcall", 0, f->idx);
                lget(f, 1);
                lget(f, 0);
                icall(f, t_i, false);
                if (dlfcn) {
                        f = wm_func(M, "iiii:i"); /* (library, string, length, mode) */
                        wm_export(M, "dlopen", 0, f->idx);
                        i32c(f, (int)(4 * 256 + li));
                        mb(f, m);
                        lget(f, 0);
                        call(f, i_note);
                        lget(f, 1);
                        lget(f, 2);
                        lget(f, 3);
                        mb(f, m);
                        i32c(f, 44);
                        op(f, OP_I32_ADD);
                        call(f, i_load);
                        lset(f, 0);
                        i32c(f, (int)(5 * 256 + li));
                        lget(f, 0);
                        mb(f, m);
                        memop(f, OP_I32_LOAD, 2, 44);
                        call(f, i_note);
                        lget(f, 0);
                        f = wm_func(M, "iiii:i"); /* (handle, type, string, length): result in the slot at 44 */
                        wm_export(M, "dlsym", 0, f->idx);
                        lget(f, 0);
                        lget(f, 1);
                        lget(f, 2);
                        lget(f, 3);
                        mb(f, m);
                        i32c(f, 44);
                        op(f, OP_I32_ADD);
                        call(f, i_sym);
                }
        }
        u32 te[4];
        for (u32 k = 0; k < l->ntelem; k++) {
                te[k] = fidx[l->telem[k]];
        }
        if (own) {
                wm_data(M, MAIN_MB, l->data, l->dlen);
                wm_elem_funcs(M, 1, te, l->ntelem);
        } else {
                wm_data_global(M, g_mb, l->data, l->dlen);
                wm_elem_global(M, g_tb, te, l->ntelem);
        }
        if (l->broken == B_DATA) {
                wm_data(M, 0xfffffff0, "0123456789abcdefg", 17);
        }
        if (l->broken == B_START) {
                struct wfunc *f = wm_func(M, ":");
                op(f, OP_UNREACHABLE);
                M->start = (int)f->idx;
        }
        /* dylink.0 */
        struct bb d = {0}, t = {0};
        bb_u(&t, l->broken == B_HUGEMEM ? 0xffffffff - rndn(R_GEN, 60) : own ? 0 : l->memsz);
        bb_u(&t, l->broken == B_ALIGN ? 32 + rndn(R_GEN, 40) : own ? 0 : l->malign);
        bb_u(&t, l->broken == B_HUGETAB ? 0xffffffff : own ? 0 : l->tsz);
        bb_u(&t, own ? 0 : l->talign);
        bb_u8(&d, 1);
        bb_u(&d, t.n);
        bb_cat(&d, &t);
        bb_free(&t);
        memset(&t, 0, sizeof(t));
        bool more = l->broken == B_NEEDMISSING || l->broken == B_NEEDBAD;
        if (l->nneeds != 0 || more) {
                u32 at = rndn(R_GEN, l->nneeds + 1);
                bb_u(&t, l->nneeds + more);
                for (u32 k = 0; k <= l->nneeds; k++) {
                        if (more && k == at) {
                                bb_name(&t, l->broken == B_NEEDMISSING ? "libz.so" : rndn(R_GEN, 2) ? "../p1/x.so" : "sub/x.so");
                        }
                        if (k < l->nneeds) {
                                bb_name(&t, lib[l->needs[k]].name);
                        }
                }
                bb_u8(&d, 2);
                bb_u(&d, t.n);
                bb_cat(&d, &t);
                bb_free(&t);
                memset(&t, 0, sizeof(t));
        }
        if (rndp(R_GEN, 1, 4)) {
                /* one that is not known, or not used */
                static const u8 sub[] = {3, 5, 0, 77};
                bb_u8(&d, sub[rndn(R_GEN, 4)]);
                bb_u(&d, 1);
                bb_u8(&d, 0);
        }
        u32 nw = 0;
        struct bb w = {0};
        for (u32 k = 0; k < NF + ND + (m ? nlib : 0); k++) {
                bool weak = k < NF ? l->fweak[k] && (l->pimp[k] || l->gfimp[k]) : k < NF + ND ? l->dweak[k - NF] && l->gdimp[k - NF] : true;
                if (weak || rndp(R_GEN, 1, 10)) {
                        if (k < NF) {
                                snprintf(b, sizeof(b), "f%u", k);
                        } else if (k < NF + ND) {
                                snprintf(b, sizeof(b), "d%u", k - NF);
                        } else {
                                snprintf(b, sizeof(b), "probe%u", k - NF - ND);
                        }
                        bb_name(&w, "env");
                        bb_name(&w, b);
                        bb_u(&w, weak ? 1 : 0);
                        nw++;
                }
        }
        bb_u(&t, nw);
        bb_cat(&t, &w);
        bb_free(&w);
        bb_u8(&d, 4);
        bb_u(&d, t.n);
        bb_cat(&d, &t);
        bb_free(&t);
        if (l->broken != B_NODYLINK) {
                wm_custom(M, true, "dylink.0", d.p, d.n);
        }
        bb_free(&d);
        u8 *r = wm_build(M, n);
        wm_free(M);
        return r;
}

static void
describe(u32 i)
{
        struct ldef *l = &lib[i];
        char b[600];
        int n = 0;
#define ADD(...) n += snprintf(b + n, sizeof(b) - (size_t)n, __VA_ARGS__)
        ADD("%s%s:", i == MAINL ? "main" : l->name, l->broken ? " broken" : "");
        if (l->broken) {
                ADD("%d", l->broken);
        }
        ADD(" needs");
        for (u32 k = 0; k < l->nneeds; k++) {
                ADD(" %u", l->needs[k]);
        }
        ADD(", exports");
        for (u32 k = 0; k < NF; k++) {
                if (l->fexp[k]) {
                        ADD(" f%u=%u%s", k, l->fexp[k] - 1, l->def[l->fexp[k] - 1].wide ? "wide" : "");
                }
        }
        for (u32 k = 0; k < ND; k++) {
                if (l->dexp[k]) {
                        ADD(" d%u%s", k, l->dexp[k] == 2 ? "mut" : "");
                }
        }
        ADD(", imports");
        for (u32 k = 0; k < NF; k++) {
                if (l->pimp[k] || l->gfimp[k]) {
                        ADD(" %s%s%sf%u", l->fweak[k] ? "weak" : "", l->pimp[k] ? "p" : "", l->gfimp[k] ? "g" : "", k);
                }
        }
        for (u32 k = 0; k < ND; k++) {
                if (l->gdimp[k]) {
                        ADD(" %sd%u", l->dweak[k] ? "weak" : "", k);
                }
        }
        ADD(", definitions");
        static const char *const kn[] = {"leaf", "call", "tail", "icall", "itail", "throw"};
        for (u32 k = 0; k < l->ndef; k++) {
                ADD(" %s%u", kn[l->def[k].kind], l->def[k].tgt);
        }
        ADD(", mem %u/%u table %u/%u, reloc %d ctor %d %d", l->memsz, l->malign, l->tsz, l->talign, l->reloc, l->ctor, l->cact);
        sim_log("%s", b);
}
static const char *const dirs[2] = {"/p0", "/p1"};
static void
put_files(void)
{
        w_mkdir(W, "/p0");
        w_mkdir(W, "/p1");
        w_mkdir(W, "/p0/sub");
        if (!pie) {
                lay[2] = MAIN_MB + lib[MAINL].memsz; /* stack low */
                lay[3] = (lay[2] + 8192 + 15) & ~15u;
                lay[0] = lay[3];
                lay[1] = NP_PAGES * 65536;
        }
        for (u32 i = 0; i <= nlib; i++) {
                struct ldef *l = &lib[i];
                if (i == MAINL && !pie) {
                        l->memsz = l->dlen;
                }
        }
        sim_log("%s main%s%s%s", pie ? "PIE" : "non-PIE", dlfcn ? ", dlopen" : "", bindnow ? ", eager" : "", bytepages ? ", 1-byte pages" : "");
        for (u32 i = 0; i <= nlib; i++) {
                struct ldef *l = &lib[i];
                size_t n;
                describe(i);
                u8 *b = build(i, &n);
                char path[64];
                if (i == 0) {
                        /* reached by no acceptable name */
                        world_add_file(W, "/p1/x.so", b, n);
                        world_add_file(W, "/p0/sub/x.so", b, n);
                        if (rndp(R_GEN, 1, 2)) {
                                world_add_file(W, "/p0/x.so", b, n);
                        }
                }
                if (l->broken == B_GARBAGE) {
                        if (rndp(R_GEN, 1, 2)) {
                                n -= rndr(R_GEN, 1, 40); /* inside the last section */
                        } else {
                                b[rndn(R_GEN, 8)] ^= 0x55;
                        }
                }
                if (l->broken == B_EMPTY) {
                        n = 0;
                }
                u32 dir = i == MAINL ? 0 : rndn(R_GEN, 2);
                snprintf(path, sizeof(path), "%s/%s", dirs[dir], i == MAINL ? "main" : l->name);
                if (l->broken != B_MISSING) {
                        world_add_file(W, path, b, n);
                        if (dir == 0 && i != MAINL && l->broken != B_IMPORT && rndp(R_GEN, 1, 2)) {
                                /* another library of that name, found too late */
                                struct ldef save = *l;
                                size_t dn;
                                l->broken = B_OK;
                                l->data[4] ^= 1;
                                for (u32 k = 0; k < l->ndef; k++) {
                                        l->def[k].c ^= 0x5500;
                                }
                                u8 *db = build(i, &dn);
                                *l = save;
                                snprintf(path, sizeof(path), "/p1/%s", l->name);
                                world_add_file(W, path, db, dn);
                                free(db);
                        }
                }
                free(b);
        }
}

/* ------------------------------------------------------------------ the model */
struct obj {
        u32 l;
        u32 group;
        bool failed;
        bool known; /* the addresses are */
        u32 mb, tb;
        u8 nreloc, nctor, nctordone;
        u32 cres;   /* of the initialisation's call */
        bool cres_ok, cres_any;
        bool hset;
        u32 hval;
        u8 data[160 + 1024];
        int gf[NF], gd[ND]; /* the defining object, -1 none */
        u32 handle;
        u32 faddr[NF]; /* function pointers, by definition */
};
#define MAXOBJ 64
static struct obj O[MAXOBJ];
static u32 nobj;
struct group {
        u32 first, top;
        bool started, fail, any; /* initialisation began; it has to fail; or may */
        bool expect;
        u64 fired0;
        bool over, tainted;
        u32 parent;
};
#define MAXGRP 64
static struct group G[MAXGRP];
static u32 ngrp;
static u32 stack[16], nstack;
#define NOLIB 999

enum { R_OK, R_TRAP, R_NOENT, R_EXC, R_ANY };
struct res {
        int kind;
        u32 v, depth;
};

static int
find_f(u32 k, bool *unsure)
{
        bool z = false;
        for (u32 i = 0; i < nobj; i++) {
                if (lib[O[i].l].fexp[k] != 0) {
                        if (!O[i].failed) {
                                if (unsure != NULL) {
                                        *unsure = z;
                                }
                                return (int)i;
                        }
                        z |= G[O[i].group].tainted;
                }
        }
        if (unsure != NULL) {
                *unsure = z;
        }
        return -1;
}
static int
find_d(u32 k)
{
        for (u32 i = 0; i < nobj; i++) {
                if (!O[i].failed && lib[O[i].l].dexp[k] == 1) {
                        return (int)i;
                }
        }
        return -1;
}
static struct res
mk(int kind, u32 v, u32 depth)
{
        struct res r = {kind, v, depth};
        return r;
}
static struct res plt(u32 o, u32 k, u32 x);
static struct res
exec_def(u32 o, u32 di, u32 x);
static struct res
got_call(u32 o, u32 k, u32 x)
{
        int d = O[o].gf[k];
        if (d < 0) {
                return mk(R_TRAP, 0, 1);
        }
        return exec_def((u32)d, lib[O[d].l].fexp[k] - 1, x);
}
static struct res
exec_def(u32 o, u32 di, u32 x)
{
        struct ldef *l = &lib[O[o].l];
        struct fdef *d = &l->def[di];
        if (d->wide) {
                return mk(R_TRAP, 0, 1);
        }
        if (d->kind == D_LEAF || d->kind == D_THROW || (x & 255) == 0) {
                return mk(d->kind == D_THROW && !(O[o].l == MAINL && !pie) ? R_EXC : R_OK, x ^ d->c, 1);
        }
        struct res r = d->kind == D_CALL || d->kind == D_TAIL ? plt(o, d->tgt, x - 1) : got_call(o, d->tgt, x - 1);
        if (d->kind == D_CALL || d->kind == D_ICALL) {
                if (r.kind == R_OK) {
                        r.v ^= d->c;
                }
                r.depth++;
        }
        return r;
}
static struct res
plt(u32 o, u32 k, u32 x)
{
        bool unsure;
        int d = find_f(k, &unsure);
        if (unsure) {
                return mk(R_ANY, 0, 1000);
        }
        if (d < 0) {
                return mk(lib[O[o].l].fweak[k] ? R_TRAP : R_NOENT, 0, 1);
        }
        return exec_def((u32)d, lib[O[d].l].fexp[k] - 1, x);
}

static u32
add_obj(u32 l, u32 g)
{
        if (nobj == MAXOBJ) {
                sim_violation("generator", "too many libraries");
        }
        struct obj *o = &O[nobj];
        memset(o, 0, sizeof(*o));
        o->l = l;
        o->group = g;
        memcpy(o->data, lib[l].data, lib[l].dlen);
        return nobj++;
}
static bool
loads(u32 l)
{
        switch (lib[l].broken) {
        case B_OK:
        case B_NEEDMISSING:
        case B_NEEDBAD:
                return true;
        default:
                return false;
        }
}
/* what loading a library and what it needs makes of the list; whether it succeeds up to the initialisation */
static bool
model_load(u32 l, bool now, u32 g)
{
        u32 first = nobj;
        G[g].first = first;
        if (l == NOLIB || !loads(l)) {
                return false;
        }
        G[g].top = add_obj(l, g);
        for (u32 i = first; i < nobj; i++) {
                struct ldef *d = &lib[O[i].l];
                if (d->broken != B_OK) {
                        return false;
                }
                for (u32 k = 0; k < d->nneeds; k++) {
                        bool have = false;
                        for (u32 j = 0; j < nobj; j++) {
                                have |= !O[j].failed && O[j].l == d->needs[k];
                        }
                        if (have) {
                                continue;
                        }
                        if (!loads(d->needs[k])) {
                                return false;
                        }
                        add_obj(d->needs[k], g);
                }
        }
        for (u32 i = first; i < nobj; i++) {
                struct ldef *d = &lib[O[i].l];
                for (u32 k = 0; k < NF; k++) {
                        O[i].gf[k] = d->gfimp[k] ? find_f(k, NULL) : -1;
                        if (d->gfimp[k] && O[i].gf[k] < 0 && !d->fweak[k]) {
                                return false;
                        }
                        if (now && d->pimp[k] && !d->fweak[k]) {
                                int x = find_f(k, NULL);
                                if (x < 0 || lib[O[x].l].def[lib[O[x].l].fexp[k] - 1].wide) {
                                        return false;
                                }
                        }
                }
                for (u32 k = 0; k < ND; k++) {
                        O[i].gd[k] = d->gdimp[k] ? find_d(k) : -1;
                        if (d->gdimp[k] && O[i].gd[k] < 0 && !d->dweak[k]) {
                                return false;
                        }
                }
        }
        return true;
}
static void
model_drop(u32 g)
{
        for (u32 i = 0; i < nobj; i++) {
                if (O[i].group == g) {
                        O[i].failed = true;
                }
        }
        G[g].over = true;
        G[g].tainted = G[g].started;
}
static void
need_init_done(u32 g)
{
        for (u32 i = 0; i < nobj; i++) {
                struct obj *o = &O[i];
                if (o->group == g && (o->nreloc != lib[o->l].reloc || o->nctordone != (lib[o->l].ctor != 0))) {
                        sim_violation("init", "library %u was loaded with %u of %u relocation and %u of %u initialisation functions called", o->l, o->nreloc,
                                      lib[o->l].reloc, o->nctordone, lib[o->l].ctor != 0);
                }
        }
}

/* ------------------------------------------------------------------ failures while loading */
static u32 fmode;
static u64 nfail, nsurvived;
static struct mem_context *limited, *limit_target;
static u64 total_est;
static u64
fired(void)
{
        return shm->fault_count[F_ALLOC] + shm->fault_count[F_IOERR] + shm->fault_count[F_EMFILE] + (limited != NULL);
}
static void
arm(void)
{
        cfg.alloc_nth = 0;
        memset(cfg.prob, 0, sizeof(u32) * F_STALL);
        switch (fmode) {
        case 0:
        case 1:
                cfg.alloc_nth = sim_alloc_count() + 1 + rndn(R_WORLD, (u32)total_est + 1);
                cfg.alloc_persist = fmode == 1;
                break;
        case 2:
                cfg.prob[F_ALLOC] = (u32)rndlog(R_WORLD, 2000, 100000);
                break;
        case 3:
                cfg.prob[F_IOERR] = (u32)rndlog(R_WORLD, 1 << 13, 1 << 18);
                cfg.prob[F_EMFILE] = (u32)rndlog(R_WORLD, 1 << 12, 1 << 17);
                break;
        default:
                limited = limit_target;
                if (mem_context_setlimit(limited, limited->allocated + rndlog(R_WORLD, 1, 400000))) {
                        sim_violation("failed", "cannot set a memory limit");
                }
                break;
        }
        cfg.fault_on = true;
}
static void
disarm(void)
{
        cfg.fault_on = false;
        cfg.alloc_nth = 0;
        cfg.prob[F_ALLOC] = cfg.prob[F_IOERR] = cfg.prob[F_EMFILE] = 0;
        if (limited != NULL) {
                if (mem_context_setlimit(limited, SIZE_MAX)) {
                        sim_violation("afterwards", "cannot lift a memory limit");
                }
                limited = NULL;
                shm->fault_count[F_ALLOC]++; /* count it as having fired */
        }
}

/* ------------------------------------------------------------------ notes from the program */
static bool arm_next; /* the next load by the program meets failures */
static u32 dl_ret, dl_handle, dl_top;
static bool ininit;
static u32
who(u32 l, u32 addr)
{
        for (u32 i = 0; i < nobj; i++) {
                if (O[i].known && !O[i].failed && O[i].mb == addr && O[i].l == l) {
                        return i;
                }
        }
        if (nstack == 0) {
                sim_violation("init", "library %u at %u initialises itself although nothing is being loaded", l, addr);
        }
        u32 g = stack[nstack - 1];
        for (u32 i = 0; i < nobj; i++) {
                if (O[i].l == l && O[i].group == g && !O[i].known && !O[i].failed) {
                        O[i].known = true;
                        O[i].mb = addr;
                        return i;
                }
        }
        sim_violation("init", "library %u at %u initialises itself although it is not being loaded", l, addr);
}
/* whether l needs x, not counting through libraries that need each other with l */
static bool
must_precede(u32 x, u32 l)
{
        for (u32 k = 0; k < lib[l].nneeds; k++) {
                u32 a = lib[l].needs[k];
                if (a != l && (l == MAINL || !lib[a].reach[l]) && (a == x || lib[a].reach[x])) {
                        return true;
                }
        }
        return false;
}
static void
on_note(u32 code, u32 l, u32 a, u32 b)
{
        u32 i;
        struct obj *o;
        sim_log("note %u from %u: %u %u", code, l, a, b);
        sim_trace(0x20 + code, l, b);
        switch (code) {
        case 1:
                o = &O[i = who(l, a)];
                if (o->nreloc++ != 0) {
                        sim_violation("init", "library %u is relocated twice", l);
                }
                for (u32 j = 0; j < nobj; j++) {
                        if (O[j].group == o->group && O[j].nctor != 0) {
                                sim_violation("init", "library %u is relocated after library %u was initialised", l, O[j].l);
                        }
                }
                G[o->group].started = true;
                break;
        case 2: {
                o = &O[i = who(l, a)];
                if (nstack == 0 || stack[nstack - 1] != o->group) {
                        sim_violation("init", "library %u is initialised although it is not being loaded", l);
                }
                G[o->group].started = true;
                if (o->nctor++ != 0) {
                        sim_violation("init", "library %u is initialised twice", l);
                }
                for (u32 j = 0; j < nobj; j++) {
                        struct obj *x = &O[j];
                        if (x->group != o->group || x->failed) {
                                continue;
                        }
                        if (x->nreloc != lib[x->l].reloc) {
                                sim_violation("init", "library %u is initialised before library %u was relocated", l, x->l);
                        }
                        if (x->l < nlib && must_precede(x->l, l) && x->nctordone != (lib[x->l].ctor != 0)) {
                                sim_violation("init", "library %u is initialised before library %u which it needs", l, x->l);
                        }
                }
                if (lib[l].cact == C_CALL) {
                        struct res r = plt(i, lib[l].csym, lib[l].carg);
                        o->cres_any = r.kind == R_ANY;
                        o->cres = r.v;
                        if (r.kind == R_ANY) {
                                G[o->group].any = true;
                        } else if (r.kind != R_OK) {
                                G[o->group].fail = true;
                        }
                } else if (lib[l].cact == C_TRAP) {
                        G[o->group].fail = true;
                }
                break;
        }
        case 3:
                o = &O[i = who(l, a)];
                if (o->nctor != 1 || o->nctordone != 0) {
                        sim_violation("init", "library %u ends its initialisation more than once", l);
                }
                if (G[o->group].fail) {
                        sim_violation("symbol", "the initialisation of library %u calls what it cannot", l);
                }
                o->nctordone = 1;
                o->cres_ok = lib[l].cact == C_CALL;
                break;
        case 4: {
                if (ngrp == MAXGRP || nstack == 16) {
                        sim_violation("generator", "too many loads");
                }
                struct group *g = &G[ngrp];
                memset(g, 0, sizeof(*g));
                stack[nstack++] = ngrp++;
                g->expect = model_load(b, false, ngrp - 1);
                if (!g->expect) {
                        model_drop(ngrp - 1);
                }
                if (arm_next) {
                        arm_next = false;
                        arm();
                }
                g->fired0 = fired() - (limited != NULL);
                break;
        }
        case 5: {
                struct group *g = &G[stack[--nstack]];
                bool f = fired() != g->fired0;
                if (nstack == (ininit ? 1 : 0)) {
                        disarm();
                }
                dl_ret = a;
                dl_handle = b;
                if (a != 0) {
                        if (g->expect && !g->fail && !g->any && !f) {
                                sim_violation("load", "loading a library while running fails although nothing else did");
                        }
                        if (g->expect) {
                                model_drop((u32)(g - G));
                        }
                        nfail++;
                        PROBE("failed-while-running");
                        break;
                }
                if (!g->expect || g->fail) {
                        sim_violation("load", "loading a library while running succeeds although it cannot");
                }
                nsurvived += f;
                PROBE("loaded-while-running");
                g->over = true;
                need_init_done((u32)(g - G));
                dl_top = g->top;
                for (u32 j = 0; j < nobj; j++) {
                        if (O[j].handle == b) {
                                sim_violation("handle", "handle %u is returned for library %u and for library %u", b, O[j].l, O[g->top].l);
                        }
                }
                if (b == 0) {
                        sim_violation("handle", "handle 0 is returned");
                }
                O[g->top].handle = b;
                if (l != MAINL || nstack != 0) {
                        /* a nested load: its caller keeps the handle in its own data */
                        if (nstack == 0) {
                                sim_violation("generator", "nested load without an initialisation");
                        }
                        for (u32 j = 0; j < nobj; j++) {
                                if (O[j].l == l && O[j].group == stack[nstack - 1] && !O[j].failed && O[j].nctor != O[j].nctordone) {
                                        O[j].hset = true;
                                        O[j].hval = b;
                                }
                        }
                        PROBE("nested-load");
                }
                break;
        }
        }
}
static int
h_note(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params, struct cell *results)
{
        struct val v[3];
        memset(v, 0, sizeof(v));
        vals_from_cells(v, params, &ft->parameter);
        on_note(v[0].u.i32 >> 8, v[0].u.i32 & 255, v[1].u.i32, v[2].u.i32);
        return 0;
}
static const struct host_func h_funcs[] = {HOST_FUNC("note", h_note, "(iii)")};
static const struct name h_name = NAME_FROM_CSTR_LITERAL("host");
static const struct host_module h_mod = {.module_name = &h_name, .funcs = h_funcs, .nfuncs = 1};

/* ------------------------------------------------------------------ running */
static struct emb E;
static struct mem_context dctx;
static struct dyld D;
static bool up;
static int
callv(const char *fn, u32 *out, u32 n, ...)
{
        struct val a[4], r[1];
        memset(a, 0, sizeof(a));
        memset(r, 0, sizeof(r));
        va_list ap;
        va_start(ap, n);
        for (u32 i = 0; i < n; i++) {
                a[i].u.i32 = va_arg(ap, u32);
        }
        va_end(ap);
        int ret = emb_call(&E, fn, a, r);
        *out = r[0].u.i32;
        sim_trace(0x30, (u64)ret, *out);
        return ret;
}
static u32
need(const char *what, const char *fn, u32 a, u32 b)
{
        u32 out;
        int ret = callv(fn, &out, 2, a, b);
        if (ret != 0) {
                sim_violation("program", "%s fails with %d %s", what, ret, E.trapmsg);
        }
        return out;
}
/* calls the probe of an object, if it can be reached */
static bool
reachable(u32 i)
{
        if (O[i].failed) {
                return false;
        }
        if (O[i].l == MAINL || O[i].handle != 0) {
                return true;
        }
        for (u32 j = 0; j < i; j++) {
                if (O[j].l == O[i].l && (!O[j].failed || G[O[j].group].tainted)) {
                        return false;
                }
        }
        return true;
}
static u32
dlsym(u32 handle, u32 type, u32 str, u32 len, u32 *addr)
{
        u32 r;
        int ret = callv("dlsym", &r, 4, handle, type, O[0].mb + STR_OFF + str, len);
        if (ret != 0) {
                sim_violation("program", "looking a symbol up fails with %d %s", ret, E.trapmsg);
        }
        struct meminst *mi = dyld_memory(&D);
        if (r == 0) {
                memcpy(addr, mi->data + O[0].mb + 44, 4);
                memcpy(O[0].data + 44, mi->data + O[0].mb + 44, 4);
        }
        return r;
}
static void
learn_faddr(u32 d, u32 di, u32 addr, const char *how)
{
        if (addr == 0) {
                sim_violation("symbol", "a function of library %u has a null pointer (%s)", O[d].l, how);
        }
        for (u32 i = 0; i < nobj; i++) {
                for (u32 k = 0; k < NF; k++) {
                        if (!O[i].failed && O[i].faddr[k] == addr && (i != d || k != di)) {
                                sim_violation("symbol", "different functions, of libraries %u and %u, have the same pointer (%s)", O[i].l, O[d].l, how);
                        }
                }
        }
        if (O[d].faddr[di] != 0 && O[d].faddr[di] != addr) {
                sim_violation("symbol", "a function of library %u has two different pointers %u and %u (%s)", O[d].l, O[d].faddr[di], addr, how);
        }
        O[d].faddr[di] = addr;
}
static int
probe(u32 i, u32 what, u32 k, u32 x, u32 *out)
{
        if (O[i].handle != 0) {
                u32 a;
                if (dlsym(O[i].handle, 1, s_probe[O[i].l], 6, &a) != 0) {
                        sim_violation("symbol", "library %u does not have its own function", O[i].l);
                }
                return callv("ptr", out, 4, a, what, k, x);
        }
        return callv("drv", out, 4, O[i].l, what, k, x);
}

/* pages the program made for itself */
static struct chunk {
        u32 addr, len;
        u32 key;
} heap[32];
static u32 nheap;
static struct {
        u32 idx, obj, di;
} tsave[32];
static u32 ntsave;

static u8
at(u32 addr)
{
        struct meminst *mi = dyld_memory(&D);
        return addr < mi->allocated ? mi->data[addr] : 0;
}
static u32
regsize(u32 i)
{
        return lib[O[i].l].memsz;
}
static void
learn(u32 i)
{
        struct obj *o = &O[i];
        u32 a, t;
        if (!reachable(i)) {
                return;
        }
        if (o->tb == 0) {
                if (probe(i, P_MB, 0, 0, &a) != 0 || probe(i, P_TB, 0, 0, &t) != 0) {
                        sim_violation("symbol", "library %u cannot be called: %d %s", o->l, E.ret, E.trapmsg);
                }
                if (o->known && o->mb != a) {
                        sim_violation("memory", "library %u is at %u and at %u", o->l, o->mb, a);
                }
                o->known = true;
                o->mb = a;
                o->tb = t;
                struct ldef *l = &lib[o->l];
                bool own = o->l == MAINL && !pie;
                if (!own && ((a & ((1u << l->malign) - 1)) != 0 || (t & ((1u << l->talign) - 1)) != 0)) {
                        sim_violation("memory", "library %u is at %u and %u, not aligned as it asks", o->l, a, t);
                }
                u64 sz = (u64)dyld_memory(&D)->size_in_pages << memtype_page_shift(dyld_memory(&D)->type);
                if ((u64)a + regsize(i) > sz) {
                        sim_violation("memory", "library %u is not inside the memory", o->l);
                }
                for (u32 j = 0; j < nobj; j++) {
                        struct obj *x = &O[j];
                        if (j == i || !x->known || (x->failed && !G[x->group].tainted)) {
                                continue;
                        }
                        if (a < x->mb + regsize(j) && x->mb < a + regsize(i)) {
                                sim_violation("memory", "libraries %u and %u overlap in memory", o->l, x->l);
                        }
                        if (x->tb != 0 && t < x->tb + lib[x->l].tsz && x->tb < t + l->tsz) {
                                sim_violation("memory", "libraries %u and %u overlap in the table", o->l, x->l);
                        }
                }
                for (u32 j = 0; j < nheap; j++) {
                        if (a < heap[j].addr + heap[j].len && heap[j].addr < a + regsize(i)) {
                                sim_violation("memory", "library %u at %u overlaps memory the program added for itself at %u", o->l, a, heap[j].addr);
                        }
                }
                for (u32 j = 0; j < ntsave; j++) {
                        if (tsave[j].idx >= t && tsave[j].idx < t + l->tsz) {
                                sim_violation("memory", "library %u at %u overlaps a table element the program added for itself", o->l, t);
                        }
                }
        }
}
static void
verify(void)
{
        for (u32 i = 0; i < nobj; i++) {
                learn(i);
        }
        for (u32 i = 0; i < nobj; i++) {
                struct obj *o = &O[i];
                struct ldef *l = &lib[o->l];
                if (!o->known || o->failed) {
                        continue;
                }
                u8 want[sizeof(o->data)];
                memcpy(want, o->data, sizeof(want));
                u32 skip = UINT32_MAX;
                if (o->nreloc != 0 && l->rsym < ND) {
                        int d = o->gd[l->rsym];
                        u32 v = 0;
                        if (d >= 0) {
                                if (!O[d].known) {
                                        skip = 0;
                                }
                                v = O[d].mb + DAT(l->rsym);
                        }
                        memcpy(want, &v, 4);
                }
                if (o->cres_ok) {
                        if (o->cres_any) {
                                skip = 4;
                        }
                        memcpy(want + 4, &o->cres, 4);
                }
                if (o->hset) {
                        memcpy(want + 8, &o->hval, 4);
                }
                for (u32 b = 0; b < regsize(i); b++) {
                        u8 w = b < l->dlen ? want[b] : 0;
                        if (at(o->mb + b) != w && !(b >= skip && b < skip + 4)) {
                                sim_violation("memory", "byte %u of library %u at %u is %02x instead of %02x", b, o->l, o->mb, at(o->mb + b), w);
                        }
                }
        }
        for (u32 i = 0; i < nheap; i++) {
                for (u32 b = 0; b < heap[i].len; b += 4) {
                        u32 v = (u32)at(heap[i].addr + b) | (u32)at(heap[i].addr + b + 1) << 8;
                        u32 w = b == 0 || b + 8 >= heap[i].len ? (heap[i].key + b) & 0xffff : 0;
                        if (v != w) {
                                sim_violation("memory", "memory the program added for itself changed at %u", heap[i].addr + b);
                        }
                }
        }
        for (u32 i = 0; i < ntsave; i++) {
                u32 out;
                struct res r = exec_def(tsave[i].obj, tsave[i].di, 0x1200);
                int ret = callv("tcall", &out, 2, tsave[i].idx, (u32)0x1200);
                if ((r.kind == R_OK) != (ret == 0) || (ret == 0 && out != r.v)) {
                        sim_violation("memory", "a table element the program added for itself changed");
                }
        }
}

static void
expect(struct res r, int ret, u32 out, const char *what, u32 i, u32 k)
{
        switch (r.kind) {
        case R_ANY:
                return;
        case R_OK:
                if (ret != 0 || out != r.v) {
                        sim_violation("symbol", "%s %u by library %u gives %d with %x instead of %x %s", what, k, O[i].l, ret, out, r.v, E.trapmsg);
                }
                return;
        case R_NOENT:
                if (ret == 0 || ret == ETOYWASMTRAP || IS_RESTARTABLE(ret)) {
                        sim_violation("symbol", "%s %u by library %u, which nobody defines, gives %d", what, k, O[i].l, ret);
                }
                PROBE("undefined-call");
                return;
        default:
                if (ret != ETOYWASMTRAP) {
                        sim_violation("symbol", "%s %u by library %u gives %d with %x instead of a trap", what, k, O[i].l, ret, out);
                }
                PROBE("trapping-call");
                return;
        }
}

static void
use(u32 i)
{
        struct obj *o = &O[i];
        struct ldef *l = &lib[o->l];
        u32 k = rndn(R_GEN, NF), x = (u32)rnd(R_GEN) & 0xffffff00, out;
        x |= rndp(R_GEN, 1, 2) ? rndn(R_GEN, 8) : rndn(R_GEN, 256);
        u32 what = rndn(R_GEN, 10);
        u32 dk = k % ND;
        if (!reachable(i)) {
                return;
        }
        int ret;
        switch (what) {
        case 0:
        case 1:
                if (l->pimp[k]) {
                        struct res r = plt(i, k, x);
                        if (r.kind == R_OK && rndp(R_GEN, 1, 2)) {
                                E.max_frames = r.depth + 4;
                        }
                        ret = probe(i, P_CALL, k, x, &out);
                        E.max_frames = 0;
                        expect(r, ret, out, "calling function", i, k);
                        if (r.kind == R_OK && (x & 255) > 20 && r.depth <= 3) {
                                PROBE("tail-chain");
                        }
                }
                break;
        case 2:
                if (l->pimp[k] && !(o->l == MAINL && !pie)) {
                        struct res r = plt(i, k, x);
                        if (r.kind == R_EXC) {
                                r.kind = R_OK;
                                r.v++;
                                PROBE("caught");
                        }
                        ret = probe(i, P_CATCH, k, x, &out);
                        expect(r, ret, out, "calling function, and catching,", i, k);
                }
                break;
        case 3:
                if (l->gfimp[k]) {
                        ret = probe(i, P_FADDR, k, 0, &out);
                        if (ret != 0) {
                                sim_violation("symbol", "reading a function pointer fails with %d", ret);
                        }
                        int d = o->gf[k];
                        if (d >= 0) {
                                learn_faddr((u32)d, lib[O[d].l].fexp[k] - 1, out, "imported");
                        } else if (out != 0) {
                                sim_violation("symbol", "function %u, which nobody defines, has the pointer %u in library %u", k, out, o->l);
                        }
                }
                break;
        case 4:
                if (l->gfimp[k]) {
                        ret = probe(i, P_ICALL, k, x, &out);
                        expect(got_call(i, k, x), ret, out, "calling by pointer function", i, k);
                }
                break;
        case 5:
        case 6: {
                if (!l->gdimp[dk]) {
                        break;
                }
                int d = o->gd[dk];
                ret = probe(i, P_DADDR, dk, 0, &out);
                if (ret != 0 || out != (d < 0 ? 0 : O[d].mb + DAT(dk))) {
                        if (d < 0 || O[d].known) {
                                sim_violation("symbol", "symbol %u is at %u in library %u instead of at %u (%d)", dk, out, o->l, d < 0 ? 0 : O[d].mb + DAT(dk), ret);
                        }
                }
                if (d < 0 || !O[d].known) {
                        break;
                }
                if (what == 5) {
                        ret = probe(i, P_STORE, dk, x, &out);
                        memcpy(O[d].data + DAT(dk), &x, 4);
                } else {
                        ret = probe(i, P_LOAD, dk, 0, &out);
                        if (memcmp(&out, O[d].data + DAT(dk), 4)) {
                                sim_violation("symbol", "symbol %u of library %u reads %x through library %u", dk, O[d].l, out, o->l);
                        }
                }
                if (ret != 0) {
                        sim_violation("symbol", "using symbol %u through library %u fails with %d", dk, o->l, ret);
                }
                break;
        }
        case 7:
                if (l->ntelem != 0) {
                        k = rndn(R_GEN, l->ntelem);
                        ret = probe(i, P_OWN, k, x, &out);
                        expect(exec_def(i, l->telem[k], x), ret, out, "calling its own table element", i, k);
                }
                break;
        case 8: {
                static u32 spv;
                if (rndp(R_GEN, 1, 2) && spv == 0) {
                        break;
                }
                if (probe(i, P_SETSP, 0, x, &out) != 0) {
                        sim_violation("symbol", "setting the stack pointer fails");
                }
                spv = x;
                u32 j = rndn(R_GEN, nobj);
                if (reachable(j) && (probe(j, P_SP, 0, 0, &out) != 0 || out != spv)) {
                        sim_violation("symbol", "libraries %u and %u do not agree on the stack pointer: %x and %x", o->l, O[j].l, spv, out);
                }
                break;
        }
        case 9: {
                u32 j = rndn(R_GEN, nobj), o1, o2;
                if (reachable(j) && (probe(i, P_LAYOUT, k % 4, 0, &o1) != 0 || probe(j, P_LAYOUT, k % 4, 0, &o2) != 0 || o1 != o2)) {
                        sim_violation("symbol", "libraries %u and %u do not agree on the layout", o->l, O[j].l);
                }
                break;
        }
        }
}

static void
check_layout(void)
{
        u32 v[4], sp;
        for (u32 k = 0; k < 4; k++) {
                if (probe(0, P_LAYOUT, k, 0, &v[k]) != 0) {
                        sim_violation("symbol", "reading the layout fails");
                }
        }
        if (probe(0, P_SP, 0, 0, &sp) != 0) {
                sim_violation("symbol", "reading the stack pointer fails");
        }
        if (!pie) {
                for (u32 k = 0; k < 4; k++) {
                        if (v[k] != lay[k]) {
                                sim_violation("memory", "%s is %u instead of %u", layoutname[k], v[k], lay[k]);
                        }
                }
        }
        u64 sz = (u64)dyld_memory(&D)->size_in_pages << memtype_page_shift(dyld_memory(&D)->type);
        if (pie && (v[3] < v[2] || v[3] - v[2] < D.opts.stack_size || sp != v[3] || (sp & 15) != 0 || v[1] < v[0] || v[1] > sz || (v[0] < v[3] && v[2] < v[1]))) {
                sim_violation("memory", "the stack is %u to %u with the pointer at %u, the heap %u to %u, the memory %llu bytes", v[2], v[3], sp, v[0], v[1],
                              (unsigned long long)sz);
        }
        for (u32 i = 0; i < nobj; i++) {
                if (O[i].known && !O[i].failed && O[i].group == 0 && ((O[i].mb < v[3] && v[2] < O[i].mb + regsize(i)) || (O[i].mb < v[1] && v[0] < O[i].mb + regsize(i)))) {
                        sim_violation("memory", "library %u at %u overlaps the stack or the heap", O[i].l, O[i].mb);
                }
        }
        if (v[1] > v[0] + 8 && nheap < 32) {
                /* the initial heap belongs to the program */
                heap[nheap].addr = v[0];
                heap[nheap].len = (v[1] - v[0]) & ~7u;
                heap[nheap].key = 0x1111;
                need("a store", "st", v[0], 0x1111);
                u32 last = (heap[nheap].len - 4) & ~3u;
                need("a store", "st", v[0] + last, (0x1111 + last) & 0xffff);
                u32 prev = last - 4;
                if (prev != 0) {
                        need("a store", "st", v[0] + prev, (0x1111 + prev) & 0xffff);
                }
                nheap++;
        }
}

static void
grow(void)
{
        u32 out, n = bytepages ? rndr(R_GEN, 8, 20000) & ~3u : rndr(R_GEN, 1, 2);
        if (nheap == 32) {
                return;
        }
        if (callv("grow", &out, 1, n) != 0 || out == UINT32_MAX) {
                sim_violation("program", "growing the memory fails");
        }
        u32 ps = memtype_page_shift(dyld_memory(&D)->type);
        struct chunk *c = &heap[nheap];
        c->addr = out << ps;
        c->len = n << ps;
        c->key = (u32)rnd(R_GEN) & 0xffff;
        for (u32 i = 0; i < nobj; i++) {
                if (O[i].known && !O[i].failed && c->addr < O[i].mb + regsize(i) && O[i].mb < c->addr + c->len) {
                        sim_violation("memory", "memory added by the program overlaps library %u", O[i].l);
                }
        }
        need("a store", "st", c->addr, c->key);
        for (u32 b = (c->len - 8) & ~3u; b < c->len; b += 4) {
                if (b + 4 <= c->len) {
                        need("a store", "st", c->addr + b, (c->key + b) & 0xffff);
                }
        }
        nheap++;
        PROBE("grown");
}
static void
tgrow(void)
{
        u32 out;
        u32 i = rndn(R_GEN, nobj);
        if (ntsave == 32 || !reachable(i) || O[i].tb == 0 || lib[O[i].l].ntelem == 0) {
                return;
        }
        u32 e = rndn(R_GEN, lib[O[i].l].ntelem);
        u32 n = rndr(R_GEN, 1, 3);
        if (callv("tgrow", &out, 1, n) != 0 || out == UINT32_MAX) {
                sim_violation("program", "growing the table fails");
        }
        u32 idx = out + rndn(R_GEN, n);
        u32 d;
        if (callv("tcopy", &d, 2, idx, O[i].tb + e) != 0) {
                sim_violation("program", "copying a table element fails");
        }
        tsave[ntsave].idx = idx;
        tsave[ntsave].obj = i;
        tsave[ntsave].di = lib[O[i].l].telem[e];
        ntsave++;
        PROBE("table-grown");
}

static void
dl(void)
{
        u32 kind = rndn(R_GEN, 12), out;
        u32 l = rndn(R_GEN, nlib), str = s_lib[l], len = 7, modev = 0;
        bool faults = rndp(R_GEN, 1, 2);
        u32 addr = O[0].mb + STR_OFF;
        if (nobj + 2 * nlib >= MAXOBJ || ngrp + 6 >= MAXGRP) {
                return;
        }
        if (kind == 0) {
                l = NOLIB;
                u32 b = rndn(R_GEN, 4);
                str = s_bad[b];
                len = s_badlen[b];
        } else if (kind == 1) {
                l = NOLIB;
                modev = rndr(R_GEN, 1, 3);
        }
        bool wild = kind == 2 && rndp(R_GEN, 1, 2);
        if (wild) {
                l = NOLIB;
                addr = 0xffffff00;
                len = 0x1000;
                faults = false;
        }
        arm_next = faults;
        fmode = rndn(R_GEN, 5);
        u32 depth0 = nstack;
        size_t blocks = sim_live_blocks();
        u32 tsz0 = dyld_func_table(&D)->size;
        u64 fail0 = nfail;
        u32 ng = ngrp;
        int ret = callv("dlopen", &out, 4, l, addr + str, len, modev);
        arm_next = false;
        struct group *g = &G[ng];
        if (ngrp == ng) {
                sim_violation("program", "the program cannot call the loader: %d %s", ret, E.trapmsg);
        }
        if (nstack != depth0) {
                /* the call of the loader did not return */
                bool f = fired() != g->fired0;
                disarm();
                nstack = depth0;
                if (wild ? ret != ETOYWASMTRAP : !f || ret == ETOYWASMTRAP || IS_RESTARTABLE(ret)) {
                        sim_violation("load", "loading a library while running ends the program with %d %s", ret, E.trapmsg);
                }
                if (g->expect) {
                        model_drop(ng);
                }
                nfail++;
        } else if (wild) {
                sim_violation("load", "loading a library with a wild name returns");
        } else if (ret != 0) {
                sim_violation("program", "the program fails with %d after loading a library", ret);
        } else {
                memcpy(O[0].data + 44, dyld_memory(&D)->data + O[0].mb + 44, 4);
        }
        if (nfail != fail0) {
                /* whatever the table has now can be called */
                u32 tsz = dyld_func_table(&D)->size, ign;
                for (u32 t = tsz0; t < tsz; t++) {
                        int r1 = callv("tcall", &ign, 2, t, (u32)0x100);
                        if (IS_RESTARTABLE(r1)) {
                                sim_violation("program", "calling a table element gives %d", r1);
                        }
                }
        }
        bool inits = false;
        for (u32 i = g->first; i < nobj && g->expect; i++) {
                inits |= O[i].group == ng && (lib[O[i].l].reloc || lib[O[i].l].ctor != 0);
        }
        if (nfail != fail0 && ngrp == ng + 1 && !inits) {
                /* nothing is kept but room in the memory, the table and the list of handles */
                size_t now = sim_live_blocks();
                if (now > blocks + 3) {
                        sim_violation("kept", "%zu allocations remain after loading a library failed", now - blocks);
                }
                PROBE("released");
        }
        verify();
}
static void
sym(void)
{
        u32 h = 0, i = rndn(R_GEN, nobj);
        u32 type = rndp(R_GEN, 1, 20) ? rndr(R_GEN, 3, 5) : rndr(R_GEN, 1, 2);
        u32 k = rndn(R_GEN, 4);
        u32 a = 0;
        bool swapped = rndp(R_GEN, 1, 12); /* a function's name as data */
        bool fn = (type == 1) != swapped;
        bool valid = true;
        if (rndp(R_GEN, 1, 10)) {
                u32 max = 0;
                for (u32 j = 0; j < nobj; j++) {
                        max = O[j].handle > max ? O[j].handle : max;
                }
                u32 hk = rndn(R_GEN, 4);
                h = hk == 0 ? 0 : hk == 1 ? UINT32_MAX - rndn(R_GEN, 2) : max + rndr(R_GEN, 1, 4);
                valid = false;
        } else {
                for (u32 j = 0; j < nobj; j++) {
                        u32 x = (i + j) % nobj;
                        if (O[x].handle != 0 && !O[x].failed) {
                                h = O[x].handle;
                                i = x;
                                break;
                        }
                }
                if (h == 0) {
                        return;
                }
        }
        u32 r = dlsym(h, type, fn ? s_f[k] : s_d[k], 2, &a);
        struct ldef *l = &lib[O[i].l];
        bool exists = valid && !swapped && type <= 2 && (type == 1 ? l->fexp[k] != 0 : l->dexp[k] == 1);
        if ((r == 0) != exists) {
                sim_violation("symbol", "looking up %s %u in library %u gives %u", fn ? "function" : "symbol", k, O[i].l, r);
        }
        if (!exists) {
                return;
        }
        PROBE("looked-up");
        if (type == 2) {
                if (O[i].known && a != O[i].mb + DAT(k)) {
                        sim_violation("symbol", "looking up symbol %u in library %u gives %u instead of %u", k, O[i].l, a, O[i].mb + DAT(k));
                }
                return;
        }
        learn_faddr(i, l->fexp[k] - 1, a, "looked up");
        u32 x = (u32)rnd(R_GEN) & 0xffffff0f, out;
        struct res res = exec_def(i, l->fexp[k] - 1, x);
        int ret = callv("tcall", &out, 2, a, x);
        expect(res, ret, out, "calling a function looked up", i, k);
}

static void
model_reset(void)
{
        memset(G, 0, sizeof(G));
        nobj = ngrp = nstack = nheap = ntsave = 0;
        ininit = false;
}
static void
nothing_left(struct alloc_mark m, const char *after)
{
        char b[800];
        size_t n = sim_live_since(m, b, sizeof(b));
        if (n != 0) {
                sim_violation("left-behind", "%zu allocations remain after %s:%s", n, after, b);
        }
        if (dctx.allocated != 0) {
                sim_violation("left-behind", "%zu bytes are accounted for after %s", (size_t)dctx.allocated, after);
        }
}
/* 0: running; otherwise what failed */
static int
start(bool faults)
{
        model_reset();
        dyld_init(&D, &dctx);
        D.opts.base_import_obj = E.imports;
        D.opts.npaths = 2;
        D.opts.paths = dirs;
        D.opts.bindnow = bindnow;
        D.opts.enable_dlfcn = dlfcn;
        static u32 stksz;
        if (stksz == 0) {
                stksz = rndp(R_GEN, 1, 2) ? 16384 : rndr(R_GEN, 1, 40000);
        }
        D.opts.stack_size = stksz;
        struct alloc_mark m = sim_alloc_mark();
        bool can = model_load(MAINL, bindnow, ngrp++);
        limit_target = &dctx;
        u64 n0 = sim_alloc_count();
        u64 f0 = fired();
        if (faults) {
                arm();
        }
        int ret = dyld_load(&D, "/p0/main");
        bool f = fired() != f0;
        if (faults) {
                disarm();
        }
        sim_trace(0x40, (u64)ret, can);
        if (ret != 0) {
                if (can && !f) {
                        sim_violation("load", "the program does not load: %d", ret);
                }
                if (IS_RESTARTABLE(ret)) {
                        sim_violation("load", "the program does not load and asks for a restart: %d", ret);
                }
                nothing_left(m, "loading the program failed");
                nfail++;
                PROBE("failed-load");
                return ret;
        }
        if (!can) {
                sim_violation("load", "a program that cannot be linked is loaded");
        }
        if (!faults) {
                total_est = sim_alloc_count() - n0;
        }
        up = true;
        E.inst = dyld_main_object_instance(&D);
        E.m = (struct module *)E.inst->module;
        stack[nstack++] = 0;
        ininit = true;
        f0 = fired();
        if (faults) {
                fmode = rndn(R_GEN, 5);
                arm();
        }
        ret = dyld_execute_init_funcs(&D);
        f = fired() != f0;
        if (faults) {
                disarm();
        }
        ininit = false;
        nstack = 0;
        if (ret != 0) {
                if (!f && !G[0].fail && !G[0].any) {
                        sim_violation("init", "initialisation fails with %d", ret);
                }
                PROBE("failed-init");
                return ret;
        }
        if (G[0].fail) {
                sim_violation("symbol", "initialisation succeeds although it calls what it cannot");
        }
        need_init_done(0);
        return 0;
}
static void
stop(void)
{
        if (!up) {
                return;
        }
        E.inst = NULL;
        E.m = NULL;
        dyld_clear(&D);
        if (dctx.allocated != 0) {
                sim_violation("left-behind", "%zu bytes are accounted for after everything was cleared", (size_t)dctx.allocated);
        }
        up = false;
}

void
run_dyld(void)
{
        cfg.fault_on = false;
        generate();
        put_files();
        emb_init(&E);
        E.hostmods = &h_mod;
        E.nhostmods = 1;
        if (emb_setup(&E) != 0) {
                sim_violation("generator", "cannot set up");
        }
        mem_context_init(&dctx);
        dctx.parent = &E.top;
        total_est = 200 + 100 * nlib;
        emb_interrupts(&E);
        u32 tries = rndn(R_GEN, 4);
        for (u32 i = 0; i < tries; i++) {
                fmode = rndn(R_GEN, 5);
                u32 id = sim_op_next();
                if (!sim_op_enabled(id)) {
                        continue;
                }
                struct alloc_mark m = sim_alloc_mark();
                start(true);
                stop();
                nothing_left(m, "clearing");
        }
        struct alloc_mark m = sim_alloc_mark();
        cfg.fault_on = true; /* interrupts */
        int ret = start(false);
        u32 nops = 0, steps = rndr(R_GEN, 5, 60);
        if (ret == 0) {
                verify();
                check_layout();
                for (u32 s = 0; s < steps; s++) {
                        u32 id = sim_op_next();
                        sim_subseed(R_GEN, rnd(R_GEN));
                        if (sim_op_enabled(id)) {
                                u32 k = rndn(R_GEN, 20);
                                cfg.fault_on = true;
                                if (k == 0) {
                                        grow();
                                } else if (k == 1) {
                                        tgrow();
                                } else if (k < 5 && dlfcn) {
                                        dl();
                                } else if (k < 8 && dlfcn) {
                                        sym();
                                } else {
                                        use(rndn(R_GEN, nobj));
                                }
                                nops++;
                        }
                        sim_unsubseed(R_GEN);
                }
                verify();
        }
        stop();
        cfg.fault_on = false;
        nothing_left(m, "clearing");
        mem_context_clear(&dctx);
        emb_teardown(&E);
        sim_sample("%u libraries, %s main%s%s%s: %s, %u operations, %u objects, %llu failed and %llu survived loads\n", nlib, pie ? "PIE" : "non-PIE", dlfcn ? ", dlopen" : "",
                   bindnow ? ", eager" : "", bytepages ? ", 1-byte pages" : "", ret == 0 ? "runs" : "cannot run", nops, nobj, (unsigned long long)nfail,
                   (unsigned long long)nsurvived);
}
