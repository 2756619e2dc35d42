/* Multi-threaded guest programs. */
#ifndef MT_H
#define MT_H
#include "embed.h"
#include "wasmgen.h"

#define MT_MAXT 16
#define MT_DONE 8      /* number of finished threads */
#define MT_NSPAWN 12   /* number of successful spawns (kept by main) */
#define MT_GO 16
#define MT_TIDS 64     /* spawn results, one word per thread */
#define MT_AREA 256
struct mt {
        struct wmod *m;
        u32 f_spawn, f_evb, f_eve, f_exit, f_yield, f_sleep, f_note;
        int n; /* threads, 0 is the main thread */
        struct wfunc *tf[MT_MAXT];
        u32 nops;
        bool barrier; /* threads start their bodies together */
};
void mt_begin(struct mt *t, int n, u32 memmin, u32 memmax);
/* emits spawns, bodies, join. When main_first, main's body runs before the spawns */
void mt_end(struct mt *t, int main_pos, bool join);
u8 *mt_build(struct mt *t, size_t *n);
void evb(struct mt *t, struct wfunc *f, u32 id);
void eve_i32(struct mt *t, struct wfunc *f, u32 id); /* consumes an i32 */
void eve_i64(struct mt *t, struct wfunc *f, u32 id);
void eve_none(struct mt *t, struct wfunc *f, u32 id);
#endif
