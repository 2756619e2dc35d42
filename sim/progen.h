/* Random typed programs, and running one while recording everything it does. */
#ifndef PROGEN_H
#define PROGEN_H
#include "embed.h"
#include "simfs.h"
#include "wasmgen.h"

struct pg_opt {
        bool threaded; /* memory 0 is shared and another thread keeps growing it */
        bool shared;   /* memory 0 is shared, but no thread is started */
        bool waits;    /* sleeps, timed atomic waits, reads that block */
        bool report;   /* growths are reported to the host */
        u32 fuel;
        u32 nfunc;
};
struct pg {
        struct pg_opt o;
        u8 *bin;
        size_t n;
        char ressig[8]; /* result types of "run" */
        u32 cbfunc[8];  /* functions the host may call back */
        u32 ncb;
        u32 nmem, nglob, ntab;
        u32 mempages[3];
        u32 fuelglob;
};
void pg_generate(struct pg *p, const struct pg_opt *o);
void pg_free(struct pg *p);

#define PG_MAXLOG 4000
struct pg_ev {
        u32 what;
        u64 a, b;
        u64 state; /* hash of memories, globals and tables */
};
struct pg_run {
        const struct pg *p;
        struct emb e;
        int ret;
        u32 trapid;
        bool trapped;
        char trapmsg[200];
        struct val res[8];
        u64 reshash;
        struct pg_ev log[PG_MAXLOG];
        u32 nlog;
        u64 memhash[3], globhash, tabhash, tabsize[3], memsize[3];
        u64 outhash, noutb;
        /* blocking input and output */
        struct chan *in, *out;
        u64 inkey;
        bool over;
        void (*on_event)(struct pg_run *r, const struct pg_ev *v);
};
void pg_prepare(struct pg_run *r, const struct pg *p);
int pg_setup(struct pg_run *r, const struct pg *p); /* up to and including the start function */
int pg_exec(struct pg_run *r);
void pg_final(struct pg_run *r);
/* compare from an event on; NULL or a description */
const char *pg_diff(const struct pg_run *a, const struct pg_run *b);
#endif
