/* Embedding of toywasm used by the scenarios: the same calls as the command line program makes. */
#ifndef EMBED_H
#define EMBED_H
#include <stdatomic.h>

#include "simrt.h"
#include "toywasm_config.h"
#include "cconv.h"
#include "exec_context.h"
#ifndef SIM_WITH_DYLD /* the header has no guard and dyld.h includes it */
#include "host_instance.h"
#endif
#include "instance.h"
#include "load_context.h"
#include "mem.h"
#include "module.h"
#include "report.h"
#include "type.h"
#include "wasi.h"
#include "wasi_threads.h"

struct emb {
        /* configuration */
        bool use_wasi, use_threads;
        const char *preopen[4];
        int npreopen;
        int argc;
        const char **argv;
        int nenv;
        const char **envs;
        bool no_stdio;
        int nhostfd;
        struct {
                u32 wasi;
                int host;
        } hostfd[32]; /* further descriptors given to the guest */
        u64 limit; /* of top */
        u32 max_frames, max_stackcells; /* 0: default */
        const u8 *bin;
        size_t binsz;
        /* user interrupt */
        const atomic_uint *intrp;
        u32 intr_delay;
        int (*on_restart)(struct emb *, struct exec_context *, int ret); /* nonzero: abandon with that error */
        void *user;
        const struct host_module *hostmods; /* further host functions */
        size_t nhostmods;
        struct import_object *extra_chain; /* caller-owned import objects */

        /* state */
        struct mem_context top, mod, ins, wasim, imp;
        bool mctx_ready;
        struct module *m;
        struct instance *inst;
        struct import_object *imports; /* all, owned here */
        struct import_object *shmem;
        struct wasi_instance *wasi;
        struct wasi_threads_instance *wt;
        /* result of the last execution */
        int ret;
        bool trapped;
        u32 trapid;
        u32 exit_code;
        char trapmsg[200];
        u32 nrestarts, nintr;
        char loadmsg[200];
};

void emb_init(struct emb *e);
int emb_setup(struct emb *e);   /* wasi and imports; errno */
int emb_load(struct emb *e);    /* errno */
int emb_link(struct emb *e);    /* instance_create_no_init */
int emb_start(struct emb *e);   /* execute_init */
int emb_call(struct emb *e, const char *name, const struct val *params, struct val *results);
void emb_teardown(struct emb *e);
int emb_all(struct emb *e); /* setup, load, link, start */
/* a random split of an address into operand and immediate offset: 0, small or anything (taken modulo the address + 1) */
u32 emb_split(void);
/* an actor raises the interrupt flag now and then (F_INTR); the execution is then resumed */
void emb_interrupts(struct emb *e);
u8 *emb_mem(struct emb *e, u64 *sizep);

/* recorded history of guest operations */
#define MAXH 4096
struct hist {
        u32 nbegin, nend;
        u64 b, e;   /* logical order */
        u64 tb, te; /* virtual time */
        i64 res;
        int fid;
};
extern struct hist H[MAXH];
extern u64 hclock;
extern void (*emb_note)(u32 id, u32 val);
extern void (*emb_begin_cb)(u32 id);
extern void (*emb_end_cb)(u32 id, i64 res);
/* a pause of the calling guest thread; stalls all of them where they share one host thread */
void emb_nap(u64 ns);
#endif
