/* Minimal wasm module emitter. */
#ifndef WASMGEN_H
#define WASMGEN_H
#include "simrt.h"

struct bb {
        u8 *p;
        size_t n, cap;
};
void bb_u8(struct bb *b, u8 v);
void bb_u(struct bb *b, u64 v);  /* unsigned leb */
void bb_s(struct bb *b, i64 v);  /* signed leb */
void bb_raw(struct bb *b, const void *p, size_t n);
void bb_name(struct bb *b, const char *s);
void bb_cat(struct bb *b, const struct bb *x);
void bb_free(struct bb *b);

#define T_I32 0x7f
#define T_I64 0x7e
#define T_F32 0x7d
#define T_F64 0x7c
#define T_V128 0x7b
#define T_FUNCREF 0x70
#define T_EXTERNREF 0x6f
#define T_EXNREF 0x69

struct wfunc {
        u32 type;
        u32 idx;
        struct bb code;
        u8 loc[64];
        u32 nloc;
        u32 nparam;
};

struct wmod {
        struct bb types, imports, tables, mems, globals, exports, elems, datas, tags;
        u32 ntypes, nimports, ntables, nmems, nglobals, nexports, nelems, ndatas, ntags;
        u32 nimpfuncs, nimpmems, nimptables, nimpglobals, nimptags;
        char *sigs[200];
        struct wfunc *funcs[400];
        u32 nfuncs;
        int start; /* -1: none */
        bool datacount;
        struct bb customs_front; /* e.g. dylink.0, placed first */
        struct bb customs_back;
};

struct wmod *wm_new(void);
void wm_free(struct wmod *m);
/* signature: chars i I f F v r(funcref) e(externref), params ':' results */
u32 wm_type(struct wmod *m, const char *sig);
u32 wm_import_func(struct wmod *m, const char *mod, const char *name, const char *sig);
void wm_import_memory(struct wmod *m, const char *mod, const char *name, u32 min, i64 max, bool shared);
void wm_import_memory_ps(struct wmod *m, const char *mod, const char *name, u32 min, i64 max, bool shared, int page_shift);
u32 wm_import_tag(struct wmod *m, const char *mod, const char *name, const char *sig);
void wm_import_table(struct wmod *m, const char *mod, const char *name, u32 min, i64 max);
u32 wm_import_global(struct wmod *m, const char *mod, const char *name, u8 type, bool mut);
u32 wm_memory(struct wmod *m, u32 min, i64 max, bool shared);
u32 wm_memory_ps(struct wmod *m, u32 min, i64 max, bool shared, int page_shift); /* -1: default */
u32 wm_table(struct wmod *m, u8 reftype, u32 min, i64 max);
u32 wm_global_const(struct wmod *m, u8 type, bool mut, i64 v);
struct wfunc *wm_func(struct wmod *m, const char *sig);
u32 wf_local(struct wfunc *f, u8 type);
void wm_export(struct wmod *m, const char *name, u8 kind, u32 idx); /* 0 func 1 table 2 mem 3 global */
void wm_data(struct wmod *m, u32 off, const void *p, size_t n);
void wm_data_global(struct wmod *m, u32 g, const void *p, size_t n); /* at the address in a global */
void wm_elem_global(struct wmod *m, u32 g, const u32 *f, u32 n);
u32 wm_data_passive(struct wmod *m, const void *p, size_t n);
void wm_elem_funcs(struct wmod *m, u32 off, const u32 *f, u32 n);
u32 wm_elem_passive(struct wmod *m, const u32 *f, u32 n);
u32 wm_elem_exprs(struct wmod *m, const u32 *f, u32 n);
u32 wm_tag(struct wmod *m, const char *sig);
void wm_custom(struct wmod *m, bool front, const char *name, const void *p, size_t n);
u8 *wm_build(struct wmod *m, size_t *np);

/* instructions */
void op(struct wfunc *f, u8 o);
void op_u(struct wfunc *f, u8 o, u64 imm);
void i32c(struct wfunc *f, int32_t v);
void i64c(struct wfunc *f, i64 v);
void lget(struct wfunc *f, u32 i);
void lset(struct wfunc *f, u32 i);
void ltee(struct wfunc *f, u32 i);
void gget(struct wfunc *f, u32 i);
void gset(struct wfunc *f, u32 i);
void call(struct wfunc *f, u32 i);
void memop(struct wfunc *f, u8 o, u32 align, u32 off); /* plain loads and stores */
void atomop(struct wfunc *f, u32 sub, u32 align, u32 off); /* 0xfe prefix */
void blk(struct wfunc *f, u8 o, u8 bt); /* block/loop/if; bt 0x40 or a value type */
void st32(struct wfunc *f, u32 addr, u32 v);
void st64(struct wfunc *f, u32 addr, u64 v);
void fcop(struct wfunc *f, u32 sub); /* 0xfc prefix */
#define OP_UNREACHABLE 0x00
#define OP_NOP 0x01
#define OP_BLOCK 0x02
#define OP_LOOP 0x03
#define OP_IF 0x04
#define OP_ELSE 0x05
#define OP_END 0x0b
#define OP_BR 0x0c
#define OP_BR_IF 0x0d
#define OP_RETURN 0x0f
#define OP_DROP 0x1a
#define OP_SELECT 0x1b
#define OP_I32_LOAD 0x28
#define OP_I64_LOAD 0x29
#define OP_I32_LOAD8_U 0x2d
#define OP_I32_STORE 0x36
#define OP_I64_STORE 0x37
#define OP_I32_STORE8 0x3a
#define OP_MEMORY_SIZE 0x3f
#define OP_MEMORY_GROW 0x40
#define OP_I32_EQZ 0x45
#define OP_I32_EQ 0x46
#define OP_I32_NE 0x47
#define OP_I32_LT_S 0x48
#define OP_I32_LT_U 0x49
#define OP_I32_GT_U 0x4b
#define OP_I32_GE_U 0x4f
#define OP_I32_ADD 0x6a
#define OP_I32_SUB 0x6b
#define OP_I32_MUL 0x6c
#define OP_I32_AND 0x71
#define OP_I32_XOR 0x73
#define OP_I64_ADD 0x7c
#define OP_I64_XOR 0x85
#define OP_I32_WRAP 0xa7
#define OP_I64_EXT_U 0xad
#define OP_I64_EXT_S 0xac
/* atomics */
#define A_NOTIFY 0x00
#define A_WAIT32 0x01
#define A_WAIT64 0x02
#define A_FENCE 0x03
#endif
