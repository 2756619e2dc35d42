/* A guest that exports one function per WASI call, driven call by call from the scenario. */
#ifndef WASIWRAP_H
#define WASIWRAP_H
#include "embed.h"
#include "simfs.h"

#define WW_PAGE 65536
struct ww_out {
        u64 a, n;
};
struct ww {
        struct emb e;
        u8 *bin;
        u32 pages;
        u8 *shadow; /* memory before the call */
        struct ww_out out[64];
        int nout;
        bool lazy;  /* leave the memory unallocated until it is used */
        bool check; /* compare the memory outside the declared output areas */
        u64 fc[F_NKIND]; /* fault counts before the call */
        int inj0;
};
#define WC_TRAP (-1)
#define WC_ERR (-2) /* ended with an error that is not a trap; e.ret has it */
void ww_begin(struct ww *w, u32 pages); /* then set w->e options */
int ww_start(struct ww *w);             /* errno of setting up */
u8 *ww_mem(struct ww *w);
u64 ww_allocated(struct ww *w);
void ww_need(struct ww *w, u64 n); /* make the first n bytes allocated */
void ww_put(struct ww *w, u32 a, const void *p, size_t n);
u32 ww_u32(struct ww *w, u32 a);
u64 ww_u64(struct ww *w, u32 a);
u8 ww_u8(struct ww *w, u32 a);
u32 ww_u16(struct ww *w, u32 a);
void ww_p32(struct ww *w, u32 a, u32 v);
void ww_p64(struct ww *w, u32 a, u64 v);
/* the next call may write here */
void ww_outs(struct ww *w, u64 a, u64 n);
/* name "fd_read", or "u.fd_seek" for the older interface; every argument is widened to u64. returns the WASI error, or WC_* */
int wc_(struct ww *w, const char *name, int n, const u64 *args);
#define wc(w, name, ...) wc_(w, name, sizeof((u64[]){__VA_ARGS__}) / sizeof(u64), (u64[]){__VA_ARGS__})
const char *ww_sig(const char *name);
int ww_ncalls(void);
const char *ww_callname(int i);
/* firings of a fault kind during the last call */
u64 ww_fired(struct ww *w, enum fkind k);
/* whether a WASI error is the code for a host errno (or the generic one where there is no mapping) */
bool ww_err_is(int got, int host_errno);
int ww_err(int host_errno); /* -1: only the generic code is known */

/*
 * Threads of one guest, each of which asks the scenario for its next WASI call. Thread 0 is the main thread.
 * Thread t may use the memory from WMT_BUF(t) on, WW_PAGE bytes.
 */
#define WMT_NSPIN 7
#define WMT_MAX 8
#define WMT_BUF(t) ((u32)(WW_PAGE * (1 + (t))))
#define WMT_SLOT(t) ((u32)(1024 + 256 * (t)))
struct wmt_thr {
        const char *name; /* of the last call, NULL before the first one */
        u64 args[12];
        int res;
        u64 b, e;   /* logical order of begin and end */
        u64 tb, te; /* virtual time */
        bool busy, done;
};
struct wmt {
        struct emb e;
        int n;
        u32 morepages; /* set before wmt_begin: how far "@grow" can go */
        u8 *bin;
        struct wmt_thr th[WMT_MAX];
        u64 clock;
        /* called when thread t has no call in progress: wmt_call() and true, or false to finish the thread */
        bool (*next)(struct wmt *w, int t);
};
void wmt_begin(struct wmt *w, int n, bool barrier); /* then set w->e options */
int wmt_run(struct wmt *w);                         /* result of the execution */
void wmt_call_(struct wmt *w, int t, const char *name, int n, const u64 *args);
#define wmt_call(w, t, name, ...) wmt_call_(w, t, name, sizeof((u64[]){__VA_ARGS__}) / sizeof(u64), (u64[]){__VA_ARGS__})
u8 *wmt_mem(struct wmt *w);
u32 wmt_u32(struct wmt *w, u32 a);
u64 wmt_u64(struct wmt *w, u32 a);
void wmt_p32(struct wmt *w, u32 a, u32 v);
void wmt_p64(struct wmt *w, u32 a, u64 v);
#endif
