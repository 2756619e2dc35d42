/* P16: guest threads that compute, wait, sleep and do I/O at the same time on one host thread. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>

#include "mt.h"
#include "wasiwrap.h"

void cfg_threads(void);
void cfg_sched(void);
void run_sched(void);

#define MAXOPS 6
enum { K_SPIN, K_PEER, K_WAIT, K_CHANGE, K_NOTIFIED, K_SLEEP, K_POLL, K_READ, K_WRITE, K_ACCEPT, K_YIELD, K_N };
static const char *const knames[] = {"computing",      "computing until another thread is done", "waiting with a timeout", "waiting for a value to change",
                                     "waiting for a notification", "sleeping", "polling", "reading", "writing", "accepting", "yielding"};
static struct sop {
        int kind;
        u32 sub;
        u64 delay; /* of the event it is for */
        bool abs, is64;
        int peer;
        bool begun, released, done;
        u64 due;     /* when it can complete, 0: not yet known */
        u64 stalled; /* then */
        u32 nnotify, nwoken;
        u64 first_notify;
} O[WMT_MAX][MAXOPS];
static u32 nops[WMT_MAX], at[WMT_MAX];
static struct chan *rc[WMT_MAX], *oc[WMT_MAX];
static struct ofile *ls[WMT_MAX];
static struct wmt w;
static int nthr;
static bool over;
static u64 lat, t_lost;
static u32 lost_n;
static struct sop *nlast;
static int notifier; /* the last thread only notifies, if not 0 */

void
cfg_sched(void)
{
        cfg_threads();
        static const u32 p[] = {0, 0, 2000, 20000, 150000};
        cfg.prob[F_THREAD] = 0;
        cfg.prob[F_EAGAIN] = p[rndn(R_CFG, 5)];
        cfg.prob[F_INTR] = p[rndn(R_CFG, 5)];
        if (cfg.tick_ps < 20000) {
                cfg.tick_ps = 20000; /* computing has to be affordable */
        }
        cfg.max_vtime = 4000 * SEC;
        cfg.max_ticks = 200000000;
}

static u32
word(int t, u32 k)
{
        return WMT_BUF(t) + 512 + 16 * k;
}

static void
due(struct sop *o)
{
        o->due = sim_now();
        o->stalled = sim_stalled;
}

static void
release(int t, u32 k)
{
        struct sop *o = &O[t][k];
        u8 b = 0x5a;
        if (o->released || over) {
                return;
        }
        o->released = true;
        if (o->begun) {
                due(o);
        }
        sim_log("thread %d can go on with operation %u", t, k);
        switch (o->kind) {
        case K_SPIN:
        case K_PEER:
        case K_CHANGE:
        case K_NOTIFIED:
                wmt_p32(&w, word(t, k), 1);
                break;
        case K_POLL:
        case K_READ:
                chan_put(rc[t], &b, 1);
                break;
        case K_WRITE:
                chan_get(oc[t], &b, 1);
                break;
        case K_ACCEPT:
                ls[t]->pend[ls[t]->npend++] = of_sock(chan_new(8), chan_new(8));
                break;
        }
}

static void
releaser(void *vp)
{
        u32 i = (u32)(uintptr_t)vp;
        struct sop *o = &O[i / MAXOPS][i % MAXOPS];
        sim_sleep(o->delay);
        release((int)(i / MAXOPS), i % MAXOPS);
}

static void
late(int t, u32 k, u64 now)
{
        struct sop *o = &O[t][k];
        if (o->due != 0 && now > o->due + lat + (sim_stalled - o->stalled)) {
                sim_violation("starved", "thread %d, %s, could go on but has not for %llu ms (%d threads)", t, knames[o->kind],
                              (unsigned long long)((now - o->due) / MS), nthr);
        }
}

static void
watch(void *vp)
{
        while (!over) {
                sim_sleep(200 * MS);
                for (int t = 0; t < nthr && !over; t++) {
                        if (at[t] > 0 && at[t] <= nops[t] && !O[t][at[t] - 1].done) {
                                late(t, at[t] - 1, sim_now());
                        }
                }
        }
}

static void
sub(int t, u32 tag, u32 what, u64 tmo, bool abs)
{
        u32 b0 = WMT_BUF(t);
        memset(wmt_mem(&w) + b0 + 4096, 0, 48);
        wmt_p64(&w, b0 + 4096, 4711);
        wmt_mem(&w)[b0 + 4096 + 8] = (u8)tag;
        wmt_p32(&w, b0 + 4096 + 16, what);
        wmt_p64(&w, b0 + 4096 + 24, tmo);
        wmt_p32(&w, b0 + 4096 + 40, abs);
        wmt_p32(&w, b0 + 8, 77);
}

static void
finish(int t, u32 k)
{
        struct sop *o = &O[t][k];
        struct wmt_thr *h = &w.th[t];
        u32 b0 = WMT_BUF(t), n = wmt_u32(&w, b0 + 8);
        const char *what = knames[o->kind];
        bool ok = h->res == 0;
        o->done = true;
        late(t, k, h->te);
        switch (o->kind) {
        case K_WAIT:
        case K_SLEEP:
                if (h->te < o->due) {
                        sim_violation("early", "thread %d, %s for %llu us, went on after %llu us", t, what, (unsigned long long)o->delay / 1000,
                                      (unsigned long long)(o->delay - (o->due - h->te)) / 1000);
                }
                ok = o->kind == K_WAIT ? h->res == 2 : h->res == 0 && n == 1 && wmt_u64(&w, b0 + 2048) == 4711;
                break;
        case K_CHANGE:
        case K_NOTIFIED:
                if (h->res == 0) {
                        ok = o->nwoken == 1 || nlast == o;
                } else {
                        ok = h->res == 1 && o->released;
                }
                break;
        case K_POLL:
                ok = h->res == 0 && n == 1 && wmt_u64(&w, b0 + 2048) == 4711;
                break;
        case K_READ:
                ok = h->res == 0 && n == 1 && wmt_mem(&w)[b0 + 3000] == 0x5a;
                break;
        case K_WRITE:
                ok = h->res == 0 && n == 1;
                break;
        }
        if (!ok) {
                sim_violation("result", "thread %d, %s, ended with %d and %u", t, what, h->res, n);
        }
        if (o->kind != K_WAIT && o->kind != K_SLEEP && o->kind != K_YIELD && o->kind != K_NOTIFIED && !o->released) {
                sim_violation("early", "thread %d, %s, went on although there was nothing to do yet", t, what);
        }
        if (o->kind == K_POLL) {
                u8 b;
                chan_get(rc[t], &b, 1);
        }
        for (int u = 0; u < nthr; u++) {
                for (u32 j = 0; j < nops[u]; j++) {
                        if (O[u][j].kind == K_PEER && O[u][j].peer == t && u != t) {
                                release(u, j);
                        }
                }
        }
}

static bool
notify_next(int t)
{
        /* notifies whoever waits until it is told that the waiter woke up */
        struct wmt_thr *h = &w.th[t];
        if (nlast != NULL && !strcmp(h->name, "@notify")) {
                nlast->nnotify++;
                if (h->res > 1 || h->res < 0) {
                        sim_violation("result", "a notification of one waiter woke %d", h->res);
                }
                if (h->res == 1) {
                        nlast->nwoken++;
                        due(nlast);
                        PROBE("notified");
                }
        }
        bool left = false;
        for (int u = 0; u < nthr; u++) {
                for (u32 j = 0; j < nops[u]; j++) {
                        struct sop *o = &O[u][j];
                        if (o->kind != K_NOTIFIED || !sim_op_enabled((u32)u * MAXOPS + j) || o->done) {
                                continue;
                        }
                        left = true;
                        if (!o->begun || o->nwoken != 0 || o->released) {
                                continue;
                        }
                        if (o->nnotify == 0) {
                                o->first_notify = sim_now();
                        }
                        if (o->nnotify > 20 && sim_now() - o->first_notify > 4 * lat + (sim_stalled - o->stalled)) {
                                if (lost_n == 0) {
                                        lost_n = o->nnotify;
                                        t_lost = sim_now() - o->first_notify;
                                }
                                release(u, j); /* let it go on all the same */
                                continue;
                        }
                        if (h->name != NULL && strcmp(h->name, "@notify") != 0) {
                                nlast = o;
                                wmt_call(&w, t, "@notify", word(u, j), 1);
                                return true;
                        }
                }
        }
        if (!left) {
                return false;
        }
        nlast = NULL;
        sub(t, 0, 1, 70 * MS, false);
        wmt_call(&w, t, "poll_oneoff", WMT_BUF(t) + 4096, WMT_BUF(t) + 2048, 1, WMT_BUF(t) + 8);
        return true;
}

static bool
next(struct wmt *w_, int t)
{
        if (notifier != 0 && t == notifier) {
                return notify_next(t);
        }
        if (at[t] > 0 && at[t] <= nops[t]) {
                finish(t, at[t] - 1);
        }
        while (at[t] < nops[t] && !sim_op_enabled((u32)t * MAXOPS + at[t])) {
                O[t][at[t]].done = true;
                at[t]++;
        }
        if (at[t] == nops[t]) {
                at[t]++;
                for (int u = 0; u < nthr; u++) {
                        for (u32 j = 0; j < nops[u]; j++) {
                                if (O[u][j].kind == K_PEER && O[u][j].peer == t) {
                                        release(u, j);
                                }
                        }
                }
                return false;
        }
        u32 k = at[t]++;
        struct sop *o = &O[t][k];
        u32 b0 = WMT_BUF(t), wd = word(t, k);
        sim_log("thread %d: %s", t, knames[o->kind]);
        o->begun = true;
        if (o->released || o->kind == K_YIELD) {
                due(o);
        }
        switch (o->kind) {
        case K_WAIT:
        case K_SLEEP:
                o->due = sim_now() + o->delay;
                o->stalled = sim_stalled;
                break;
        case K_NOTIFIED:
                o->stalled = sim_stalled;
                break;
        case K_PEER:
        case K_YIELD:
                break;
        default:
                sim_spawn("releaser", releaser, (void *)(uintptr_t)(t * MAXOPS + k), true);
        }
        wmt_p32(&w, b0 + 1024, b0 + 3000);
        wmt_p32(&w, b0 + 1028, 1);
        wmt_p32(&w, b0 + 8, 77);
        switch (o->kind) {
        case K_SPIN:
        case K_PEER:
                wmt_call(w_, t, "@spin", wd, o->sub);
                break;
        case K_WAIT:
                wmt_call(w_, t, "@wait", wd, 0, o->delay);
                break;
        case K_CHANGE:
        case K_NOTIFIED:
                wmt_call(w_, t, "@wait", wd, 0, o->abs ? UINT64_MAX : 4000 * SEC);
                break;
        case K_SLEEP:
                sub(t, 0, 1, o->abs ? o->due : o->delay, o->abs);
                wmt_call(w_, t, "poll_oneoff", b0 + 4096, b0 + 2048, 1, b0 + 8);
                break;
        case K_POLL:
                sub(t, 1, 5 + 3 * (u32)t, 0, false);
                wmt_call(w_, t, "poll_oneoff", b0 + 4096, b0 + 2048, 1, b0 + 8);
                break;
        case K_READ:
                wmt_call(w_, t, "fd_read", 5 + 3 * t, b0 + 1024, 1, b0 + 8);
                break;
        case K_WRITE:
                wmt_call(w_, t, "fd_write", 6 + 3 * t, b0 + 1024, 1, b0 + 8);
                break;
        case K_ACCEPT:
                wmt_call(w_, t, "sock_accept", 7 + 3 * t, 0, b0 + 8);
                break;
        case K_YIELD:
                wmt_call_(w_, t, "sched_yield", 0, NULL);
                break;
        }
        return true;
}

void
run_sched(void)
{
        nthr = rndr(R_GEN, 2, WMT_MAX);
        bool waits = rndp(R_GEN, 1, 50);
        /* what the scheduler promises: turns of 100 ms, noticed every 50 ms */
        u64 turn = 220 * MS + 20000 * cfg.tick_ps / 1000;
        lat = 3 * (u64)nthr * turn + 500 * MS;
        wmt_begin(&w, nthr, rndp(R_GEN, 1, 2));
        notifier = waits ? nthr - 1 : 0;
        u32 load = rndn(R_GEN, 3); /* how much of it is computing */
        for (int t = 0; t < nthr; t++) {
                nops[t] = rndr(R_GEN, 1, MAXOPS);
                if (notifier != 0 && t == notifier) {
                        nops[t] = 0;
                }
                for (u32 k = 0; k < MAXOPS; k++) {
                        struct sop *o = &O[t][k];
                        sim_op_next();
                        o->kind = rndn(R_GEN, 3) < load ? K_SPIN : rndn(R_GEN, K_N);
                        if (o->kind == K_NOTIFIED && !waits) {
                                o->kind = K_SPIN;
                        }
#if !defined(TOYWASM_USE_USER_SCHED)
                        if (o->kind == K_CHANGE) {
                                o->kind = K_WAIT;
                        }
#endif
                        o->sub = rndn(R_GEN, WMT_NSPIN);
                        o->abs = rndp(R_GEN, 1, 2);
                        o->peer = rndn(R_GEN, nthr);
                        u64 most = o->kind == K_SPIN ? (cfg.tick_ps < 200000 ? 300 * MS : 3 * SEC) : 12 * SEC;
                        o->delay = rndlog(R_GEN, 1000, most);
                        if (o->kind == K_PEER && (o->peer <= t || o->peer == notifier || cfg.tick_ps < 200000)) {
                                o->kind = K_SPIN;
                                o->delay = rndlog(R_GEN, 1000, 300 * MS);
                        }
                }
                rc[t] = chan_new(8);
                oc[t] = chan_new(8);
                u8 x = 1;
                while (chan_put(oc[t], &x, 1) > 0) {
                }
                ls[t] = of_listen();
                struct ofile *of[3] = {of_pipe_r(rc[t]), of_pipe_w(oc[t]), ls[t]};
                for (int i = 0; i < 3; i++) {
                        w.e.hostfd[w.e.nhostfd].wasi = 5 + 3 * t + i;
                        w.e.hostfd[w.e.nhostfd++].host = world_install(of[i], -1);
                }
        }
        w.next = next;
        emb_interrupts(&w.e);
        sim_spawn("watchdog", watch, NULL, true);
        int ret = wmt_run(&w);
        over = true;
        cfg.fault_on = false;
        if (ret != 0) {
                sim_violation("outcome", "the program ended with %d, trap %u %s", ret, w.e.trapid, w.e.trapmsg);
        }
        for (int t = 0; t < nthr; t++) {
                if (!w.th[t].done) {
                        sim_violation("thread-lost", "the program ended but thread %d did not complete", t);
                }
        }
        emb_teardown(&w.e);
        sim_sample("%d threads, %u operations of the first one beginning with %s%s\n", nthr, nops[0], knames[O[0][0].kind],
                   lost_n != 0 ? ", lost notifications" : "");
        if (lost_n != 0) {
                sim_violation("notify-lost", "a thread in an atomic wait was not woken by any of %u notifications within %llu ms", lost_n,
                              (unsigned long long)(t_lost / MS));
        }
}
