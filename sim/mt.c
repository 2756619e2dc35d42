#include "mt.h"
#include <stdlib.h>
#include <string.h>

void
mt_begin(struct mt *t, int n, u32 memmin, u32 memmax)
{
        memset(t, 0, sizeof(*t));
        t->m = wm_new();
        t->n = n;
        t->f_spawn = wm_import_func(t->m, "wasi", "thread-spawn", "i:i");
        t->f_evb = wm_import_func(t->m, "sim", "ev_begin", "i:");
        t->f_eve = wm_import_func(t->m, "sim", "ev_end", "iI:");
        t->f_exit = wm_import_func(t->m, "wasi_snapshot_preview1", "proc_exit", "i:");
        t->f_yield = wm_import_func(t->m, "sim", "yield", ":");
        t->f_sleep = wm_import_func(t->m, "sim", "sleep", "I:");
        t->f_note = wm_import_func(t->m, "sim", "note", "ii:");
        wm_import_memory(t->m, "env", "memory", memmin, memmax, true);
        wm_export(t->m, "memory", 2, 0);
}

static struct wfunc *
body(struct mt *t, int i)
{
        if (t->tf[i] == NULL) {
                t->tf[i] = wm_func(t->m, ":");
        }
        return t->tf[i];
}

void
evb(struct mt *t, struct wfunc *f, u32 id)
{
        i32c(f, id);
        call(f, t->f_evb);
}

void
eve_i64(struct mt *t, struct wfunc *f, u32 id)
{
        u32 l = wf_local(f, T_I64);
        lset(f, l);
        i32c(f, id);
        lget(f, l);
        call(f, t->f_eve);
}

void
eve_i32(struct mt *t, struct wfunc *f, u32 id)
{
        op(f, OP_I64_EXT_U);
        eve_i64(t, f, id);
}

void
eve_none(struct mt *t, struct wfunc *f, u32 id)
{
        i32c(f, id);
        i64c(f, 0);
        call(f, t->f_eve);
}

void
mt_end(struct mt *t, int main_pos, bool join)
{
        for (int i = 0; i < t->n; i++) {
                body(t, i);
        }
        struct wfunc *ts = wm_func(t->m, "ii:");
        if (t->barrier) {
                blk(ts, OP_BLOCK, 0x40);
                blk(ts, OP_LOOP, 0x40);
                i32c(ts, 0);
                atomop(ts, 0x10, 2, MT_GO);
                op_u(ts, OP_BR_IF, 1);
                i32c(ts, 0);
                i32c(ts, 0);
                i64c(ts, -1);
                atomop(ts, A_WAIT32, 2, MT_GO);
                op(ts, OP_DROP);
                op_u(ts, OP_BR, 0);
                op(ts, OP_END);
                op(ts, OP_END);
        }
        for (int i = 1; i < t->n; i++) {
                lget(ts, 1);
                i32c(ts, i);
                op(ts, OP_I32_EQ);
                blk(ts, OP_IF, 0x40);
                call(ts, t->tf[i]->idx);
                op(ts, OP_END);
        }
        i32c(ts, 0);
        i32c(ts, 1);
        atomop(ts, 0x1e, 2, MT_DONE);
        op(ts, OP_DROP);
        i32c(ts, 0);
        i32c(ts, -1);
        atomop(ts, A_NOTIFY, 2, MT_DONE);
        op(ts, OP_DROP);
        wm_export(t->m, "wasi_thread_start", 0, ts->idx);

        struct wfunc *f = wm_func(t->m, ":");
        u32 r = wf_local(f, T_I32), ns = wf_local(f, T_I32), v = wf_local(f, T_I32);
        for (int i = 1; i <= t->n; i++) {
                if (i == t->n && t->barrier) {
                        i32c(f, 0);
                        i32c(f, 1);
                        atomop(f, 0x17, 2, MT_GO);
                        i32c(f, 0);
                        i32c(f, -1);
                        atomop(f, A_NOTIFY, 2, MT_GO);
                        op(f, OP_DROP);
                }
                if (main_pos == i - 1 || (i == t->n && main_pos >= t->n)) {
                        call(f, t->tf[0]->idx);
                }
                if (i == t->n) {
                        break;
                }
                i32c(f, i);
                call(f, t->f_spawn);
                lset(f, r);
                i32c(f, 0);
                lget(f, r);
                memop(f, OP_I32_STORE, 2, MT_TIDS + 4 * i);
                lget(f, r);
                i32c(f, 0);
                op(f, 0x4a); /* gt_s */
                lget(f, ns);
                op(f, OP_I32_ADD);
                lset(f, ns);
        }
        i32c(f, 0);
        lget(f, ns);
        memop(f, OP_I32_STORE, 2, MT_NSPAWN);
        if (join) {
                blk(f, OP_BLOCK, 0x40);
                blk(f, OP_LOOP, 0x40);
                i32c(f, 0);
                atomop(f, 0x10, 2, MT_DONE);
                ltee(f, v);
                lget(f, ns);
                op(f, OP_I32_EQ);
                op_u(f, OP_BR_IF, 1);
                i32c(f, 0);
                lget(f, v);
                i64c(f, -1);
                atomop(f, A_WAIT32, 2, MT_DONE);
                op(f, OP_DROP);
                op_u(f, OP_BR, 0);
                op(f, OP_END);
                op(f, OP_END);
        }
        wm_export(t->m, "_start", 0, f->idx);
}

u8 *
mt_build(struct mt *t, size_t *n)
{
        u8 *b = wm_build(t->m, n);
        wm_free(t->m);
        return b;
}
