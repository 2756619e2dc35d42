#include "wasmgen.h"
#include <stdlib.h>
#include <string.h>

void
bb_u8(struct bb *b, u8 v)
{
        if (b->n == b->cap) {
                b->cap = b->cap ? b->cap * 2 : 64;
                b->p = realloc(b->p, b->cap);
        }
        b->p[b->n++] = v;
}
void
bb_u(struct bb *b, u64 v)
{
        do {
                u8 c = v & 0x7f;
                v >>= 7;
                bb_u8(b, v ? c | 0x80 : c);
        } while (v);
}
void
bb_s(struct bb *b, i64 v)
{
        for (;;) {
                u8 c = v & 0x7f;
                v >>= 7;
                if ((v == 0 && !(c & 0x40)) || (v == -1 && (c & 0x40))) {
                        bb_u8(b, c);
                        return;
                }
                bb_u8(b, c | 0x80);
        }
}
void
bb_raw(struct bb *b, const void *p, size_t n)
{
        for (size_t i = 0; i < n; i++) {
                bb_u8(b, ((const u8 *)p)[i]);
        }
}
void
bb_name(struct bb *b, const char *s)
{
        bb_u(b, strlen(s));
        bb_raw(b, s, strlen(s));
}
void
bb_cat(struct bb *b, const struct bb *x)
{
        bb_raw(b, x->p, x->n);
}
void
bb_free(struct bb *b)
{
        free(b->p);
        memset(b, 0, sizeof(*b));
}

struct wmod *
wm_new(void)
{
        struct wmod *m = calloc(1, sizeof(*m));
        m->start = -1;
        return m;
}

void
wm_free(struct wmod *m)
{
        struct bb *bs[] = {&m->types, &m->imports, &m->tables, &m->mems, &m->globals, &m->exports, &m->elems, &m->datas, &m->tags, &m->customs_front, &m->customs_back};
        for (size_t i = 0; i < sizeof(bs) / sizeof(bs[0]); i++) {
                bb_free(bs[i]);
        }
        for (u32 i = 0; i < m->ntypes; i++) {
                free(m->sigs[i]);
        }
        for (u32 i = 0; i < m->nfuncs; i++) {
                bb_free(&m->funcs[i]->code);
                free(m->funcs[i]);
        }
        free(m);
}

static u8
tc(char c)
{
        switch (c) {
        case 'i':
                return T_I32;
        case 'I':
                return T_I64;
        case 'f':
                return T_F32;
        case 'F':
                return T_F64;
        case 'v':
                return T_V128;
        case 'r':
                return T_FUNCREF;
        case 'e':
                return T_EXTERNREF;
        case 'x':
                return T_EXNREF;
        }
        abort();
}

u32
wm_type(struct wmod *m, const char *sig)
{
        for (u32 i = 0; i < m->ntypes; i++) {
                if (!strcmp(m->sigs[i], sig)) {
                        return i;
                }
        }
        const char *c = strchr(sig, ':');
        bb_u8(&m->types, 0x60);
        bb_u(&m->types, c - sig);
        for (const char *p = sig; p < c; p++) {
                bb_u8(&m->types, tc(*p));
        }
        bb_u(&m->types, strlen(c + 1));
        for (const char *p = c + 1; *p; p++) {
                bb_u8(&m->types, tc(*p));
        }
        m->sigs[m->ntypes] = strdup(sig);
        return m->ntypes++;
}

u32
wm_import_func(struct wmod *m, const char *mod, const char *name, const char *sig)
{
        if (m->nfuncs != 0) {
                abort();
        }
        bb_name(&m->imports, mod);
        bb_name(&m->imports, name);
        bb_u8(&m->imports, 0);
        bb_u(&m->imports, wm_type(m, sig));
        m->nimports++;
        return m->nimpfuncs++;
}

static void
limits(struct bb *b, u32 min, i64 max, bool shared, int ps)
{
        bb_u8(b, (max >= 0 ? 1 : 0) | (shared ? 2 : 0) | (ps >= 0 ? 8 : 0));
        bb_u(b, min);
        if (max >= 0) {
                bb_u(b, max);
        }
        if (ps >= 0) {
                bb_u(b, ps);
        }
}

void
wm_import_memory_ps(struct wmod *m, const char *mod, const char *name, u32 min, i64 max, bool shared, int ps)
{
        bb_name(&m->imports, mod);
        bb_name(&m->imports, name);
        bb_u8(&m->imports, 2);
        limits(&m->imports, min, max, shared, ps);
        m->nimports++;
        m->nimpmems++;
}
void
wm_import_memory(struct wmod *m, const char *mod, const char *name, u32 min, i64 max, bool shared)
{
        wm_import_memory_ps(m, mod, name, min, max, shared, -1);
}
u32
wm_import_tag(struct wmod *m, const char *mod, const char *name, const char *sig)
{
        bb_name(&m->imports, mod);
        bb_name(&m->imports, name);
        bb_u8(&m->imports, 4);
        bb_u8(&m->imports, 0);
        bb_u(&m->imports, wm_type(m, sig));
        m->nimports++;
        return m->nimptags++;
}
void
wm_import_table(struct wmod *m, const char *mod, const char *name, u32 min, i64 max)
{
        bb_name(&m->imports, mod);
        bb_name(&m->imports, name);
        bb_u8(&m->imports, 1);
        bb_u8(&m->imports, T_FUNCREF);
        limits(&m->imports, min, max, false, -1);
        m->nimports++;
        m->nimptables++;
}
u32
wm_import_global(struct wmod *m, const char *mod, const char *name, u8 type, bool mut)
{
        bb_name(&m->imports, mod);
        bb_name(&m->imports, name);
        bb_u8(&m->imports, 3);
        bb_u8(&m->imports, type);
        bb_u8(&m->imports, mut);
        m->nimports++;
        return m->nimpglobals++;
}
u32
wm_memory_ps(struct wmod *m, u32 min, i64 max, bool shared, int ps)
{
        limits(&m->mems, min, max, shared, ps);
        return m->nimpmems + m->nmems++;
}
u32
wm_memory(struct wmod *m, u32 min, i64 max, bool shared)
{
        return wm_memory_ps(m, min, max, shared, -1);
}
u32
wm_table(struct wmod *m, u8 reftype, u32 min, i64 max)
{
        bb_u8(&m->tables, reftype);
        limits(&m->tables, min, max, false, -1);
        return m->nimptables + m->ntables++;
}
u32
wm_global_const(struct wmod *m, u8 type, bool mut, i64 v)
{
        bb_u8(&m->globals, type);
        bb_u8(&m->globals, mut);
        switch (type) {
        case T_I32:
                bb_u8(&m->globals, 0x41);
                bb_s(&m->globals, (int32_t)v);
                break;
        case T_I64:
                bb_u8(&m->globals, 0x42);
                bb_s(&m->globals, v);
                break;
        case T_F32:
                bb_u8(&m->globals, 0x43);
                bb_raw(&m->globals, &v, 4);
                break;
        case T_F64:
                bb_u8(&m->globals, 0x44);
                bb_raw(&m->globals, &v, 8);
                break;
        case T_V128:
                bb_u8(&m->globals, 0xfd);
                bb_u(&m->globals, 12);
                bb_raw(&m->globals, &v, 8);
                bb_raw(&m->globals, &v, 8);
                break;
        case T_FUNCREF:
                if (v < 0) {
                        bb_u8(&m->globals, 0xd0);
                        bb_u8(&m->globals, T_FUNCREF);
                } else {
                        bb_u8(&m->globals, 0xd2);
                        bb_u(&m->globals, v);
                }
                break;
        default:
                bb_u8(&m->globals, 0xd0);
                bb_u8(&m->globals, type);
                break;
        }
        bb_u8(&m->globals, OP_END);
        return m->nimpglobals + m->nglobals++;
}
struct wfunc *
wm_func(struct wmod *m, const char *sig)
{
        struct wfunc *f = calloc(1, sizeof(*f));
        f->type = wm_type(m, sig);
        f->nparam = strchr(sig, ':') - sig;
        f->idx = m->nimpfuncs + m->nfuncs;
        m->funcs[m->nfuncs++] = f;
        return f;
}
u32
wf_local(struct wfunc *f, u8 type)
{
        f->loc[f->nloc] = type;
        return f->nparam + f->nloc++;
}
void
wm_export(struct wmod *m, const char *name, u8 kind, u32 idx)
{
        bb_name(&m->exports, name);
        bb_u8(&m->exports, kind);
        bb_u(&m->exports, idx);
        m->nexports++;
}
void
wm_data(struct wmod *m, u32 off, const void *p, size_t n)
{
        bb_u8(&m->datas, 0);
        bb_u8(&m->datas, 0x41);
        bb_s(&m->datas, (int32_t)off);
        bb_u8(&m->datas, OP_END);
        bb_u(&m->datas, n);
        bb_raw(&m->datas, p, n);
        m->ndatas++;
}
void
wm_data_global(struct wmod *m, u32 g, const void *p, size_t n)
{
        bb_u8(&m->datas, 0);
        bb_u8(&m->datas, 0x23);
        bb_u(&m->datas, g);
        bb_u8(&m->datas, OP_END);
        bb_u(&m->datas, n);
        bb_raw(&m->datas, p, n);
        m->ndatas++;
}
u32
wm_data_passive(struct wmod *m, const void *p, size_t n)
{
        m->datacount = true;
        bb_u8(&m->datas, 1);
        bb_u(&m->datas, n);
        bb_raw(&m->datas, p, n);
        return m->ndatas++;
}
void
wm_elem_funcs(struct wmod *m, u32 off, const u32 *f, u32 n)
{
        bb_u8(&m->elems, 0);
        bb_u8(&m->elems, 0x41);
        bb_s(&m->elems, (int32_t)off);
        bb_u8(&m->elems, OP_END);
        bb_u(&m->elems, n);
        for (u32 i = 0; i < n; i++) {
                bb_u(&m->elems, f[i]);
        }
        m->nelems++;
}
void
wm_elem_global(struct wmod *m, u32 g, const u32 *f, u32 n)
{
        bb_u8(&m->elems, 0);
        bb_u8(&m->elems, 0x23);
        bb_u(&m->elems, g);
        bb_u8(&m->elems, OP_END);
        bb_u(&m->elems, n);
        for (u32 i = 0; i < n; i++) {
                bb_u(&m->elems, f[i]);
        }
        m->nelems++;
}
u32
wm_elem_passive(struct wmod *m, const u32 *f, u32 n)
{
        bb_u8(&m->elems, 1);
        bb_u8(&m->elems, 0);
        bb_u(&m->elems, n);
        for (u32 i = 0; i < n; i++) {
                bb_u(&m->elems, f[i]);
        }
        return m->nelems++;
}
u32
wm_elem_exprs(struct wmod *m, const u32 *f, u32 n)
{
        bb_u8(&m->elems, 5);
        bb_u8(&m->elems, T_FUNCREF);
        bb_u(&m->elems, n);
        for (u32 i = 0; i < n; i++) {
                if (i % 3 == 2) {
                        bb_u8(&m->elems, 0xd0);
                        bb_u8(&m->elems, T_FUNCREF);
                } else {
                        bb_u8(&m->elems, 0xd2);
                        bb_u(&m->elems, f[i]);
                }
                bb_u8(&m->elems, OP_END);
        }
        return m->nelems++;
}
u32
wm_tag(struct wmod *m, const char *sig)
{
        bb_u8(&m->tags, 0);
        bb_u(&m->tags, wm_type(m, sig));
        return m->nimptags + m->ntags++;
}

static void
section(struct bb *o, u8 id, u32 count, const struct bb *body)
{
        struct bb t = {0};
        bb_u(&t, count);
        bb_cat(&t, body);
        bb_u8(o, id);
        bb_u(o, t.n);
        bb_cat(o, &t);
        bb_free(&t);
}

void
wm_custom(struct wmod *m, bool front, const char *name, const void *p, size_t n)
{
        struct bb *o = front ? &m->customs_front : &m->customs_back;
        struct bb t = {0};
        bb_name(&t, name);
        bb_raw(&t, p, n);
        bb_u8(o, 0);
        bb_u(o, t.n);
        bb_cat(o, &t);
        bb_free(&t);
}

u8 *
wm_build(struct wmod *m, size_t *np)
{
        struct bb o = {0};
        bb_raw(&o, "\0asm\1\0\0\0", 8);
        bb_cat(&o, &m->customs_front);
        if (m->ntypes) {
                section(&o, 1, m->ntypes, &m->types);
        }
        if (m->nimports) {
                section(&o, 2, m->nimports, &m->imports);
        }
        if (m->nfuncs) {
                struct bb t = {0};
                for (u32 i = 0; i < m->nfuncs; i++) {
                        bb_u(&t, m->funcs[i]->type);
                }
                section(&o, 3, m->nfuncs, &t);
                bb_free(&t);
        }
        if (m->ntables) {
                section(&o, 4, m->ntables, &m->tables);
        }
        if (m->nmems) {
                section(&o, 5, m->nmems, &m->mems);
        }
        if (m->ntags) {
                section(&o, 13, m->ntags, &m->tags);
        }
        if (m->nglobals) {
                section(&o, 6, m->nglobals, &m->globals);
        }
        if (m->nexports) {
                section(&o, 7, m->nexports, &m->exports);
        }
        if (m->start >= 0) {
                struct bb t = {0};
                bb_u(&t, m->start);
                bb_u8(&o, 8);
                bb_u(&o, t.n);
                bb_cat(&o, &t);
                bb_free(&t);
        }
        if (m->nelems) {
                section(&o, 9, m->nelems, &m->elems);
        }
        if (m->datacount) {
                struct bb t = {0};
                bb_u(&t, m->ndatas);
                bb_u8(&o, 12);
                bb_u(&o, t.n);
                bb_cat(&o, &t);
                bb_free(&t);
        }
        if (m->nfuncs) {
                struct bb all = {0};
                for (u32 i = 0; i < m->nfuncs; i++) {
                        struct wfunc *f = m->funcs[i];
                        struct bb t = {0};
                        /* run-length groups of locals */
                        u32 groups = 0;
                        for (u32 j = 0; j < f->nloc; j++) {
                                if (j == 0 || f->loc[j] != f->loc[j - 1]) {
                                        groups++;
                                }
                        }
                        bb_u(&t, groups);
                        for (u32 j = 0; j < f->nloc;) {
                                u32 k = j;
                                while (k < f->nloc && f->loc[k] == f->loc[j]) {
                                        k++;
                                }
                                bb_u(&t, k - j);
                                bb_u8(&t, f->loc[j]);
                                j = k;
                        }
                        bb_cat(&t, &f->code);
                        bb_u8(&t, OP_END);
                        bb_u(&all, t.n);
                        bb_cat(&all, &t);
                        bb_free(&t);
                }
                section(&o, 10, m->nfuncs, &all);
                bb_free(&all);
        }
        if (m->ndatas) {
                section(&o, 11, m->ndatas, &m->datas);
        }
        bb_cat(&o, &m->customs_back);
        *np = o.n;
        const char *dp = getenv("SIM_WASM"); /* debugging aid */
        if (dp != NULL) {
                FILE *df = fopen(dp, "wb");
                fwrite(o.p, 1, o.n, df);
                fclose(df);
        }
        return o.p;
}

void
op(struct wfunc *f, u8 o)
{
        bb_u8(&f->code, o);
}
void
op_u(struct wfunc *f, u8 o, u64 imm)
{
        bb_u8(&f->code, o);
        bb_u(&f->code, imm);
}
void
i32c(struct wfunc *f, int32_t v)
{
        bb_u8(&f->code, 0x41);
        bb_s(&f->code, v);
}
void
i64c(struct wfunc *f, i64 v)
{
        bb_u8(&f->code, 0x42);
        bb_s(&f->code, v);
}
void
lget(struct wfunc *f, u32 i)
{
        op_u(f, 0x20, i);
}
void
lset(struct wfunc *f, u32 i)
{
        op_u(f, 0x21, i);
}
void
ltee(struct wfunc *f, u32 i)
{
        op_u(f, 0x22, i);
}
void
gget(struct wfunc *f, u32 i)
{
        op_u(f, 0x23, i);
}
void
gset(struct wfunc *f, u32 i)
{
        op_u(f, 0x24, i);
}
void
call(struct wfunc *f, u32 i)
{
        op_u(f, 0x10, i);
}
void
memop(struct wfunc *f, u8 o, u32 align, u32 off)
{
        op(f, o);
        bb_u(&f->code, align);
        bb_u(&f->code, off);
}
void
atomop(struct wfunc *f, u32 sub, u32 align, u32 off)
{
        op(f, 0xfe);
        bb_u(&f->code, sub);
        bb_u(&f->code, align);
        bb_u(&f->code, off);
}
void
blk(struct wfunc *f, u8 o, u8 bt)
{
        op(f, o);
        op(f, bt);
}
void
fcop(struct wfunc *f, u32 sub)
{
        op(f, 0xfc);
        bb_u(&f->code, sub);
}

void
st32(struct wfunc *f, u32 addr, u32 v)
{
        i32c(f, (int32_t)addr);
        i32c(f, (int32_t)v);
        memop(f, OP_I32_STORE, 0, 0);
}

void
st64(struct wfunc *f, u32 addr, u64 v)
{
        i32c(f, (int32_t)addr);
        i64c(f, (i64)v);
        memop(f, OP_I64_STORE, 0, 0);
}
