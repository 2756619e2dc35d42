/* P02: the embedder raises its interrupt flag while the program computes or waits. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>

#include "mt.h"
#include "wasiwrap.h"

void cfg_threads(void);
void cfg_intr(void);
void run_intr(void);

#define LAT (10 * SEC)
#define MAXTASK 4
enum { K_SPIN, K_WAIT, K_NOTIFIED, K_SLEEP, K_POLL, K_READ, K_RECV, K_WRITE, K_SEND, K_ACCEPT, K_CLOSE, K_N };
static const char *const knames[] = {"computing", "waiting on an atomic", "waiting for a notification", "sleeping", "polling", "reading", "receiving",
                                     "writing", "sending", "accepting", "closing"};
static struct task {
        int kind;
        u32 sub;
        u32 fd;
        struct ofile *of;
        struct chan *r, *o;
        u64 delay;   /* how long the operation takes */
        u64 until;   /* deadline on the clock, if absolute */
        u64 rel;     /* when it can complete */
        bool inf;
        u32 clk;
        bool abs;
        /* state when it began */
        u64 stalled, paused, nintr, in0, out0;
} T[MAXTASK];
static u32 ntask, cur_;
static int nthr;
static struct wmt w;
static atomic_uint flag;
static bool over, started;
static u64 paused, since, gen, nintr, stall0;
static u64 gap[8];
static u32 ngap, p_keep, p_abandon, nkeep;
static bool abandoned;

void
cfg_intr(void)
{
        cfg_threads();
        static const u32 p[] = {0, 0, 2000, 20000, 150000};
        cfg.prob[F_THREAD] = 0;
        cfg.prob[F_EAGAIN] = p[rndn(R_CFG, 5)];
        cfg.prob[F_INTR] = 1 << 20;
        if (cfg.tick_ps < 20000) {
                cfg.tick_ps = 20000; /* computing has to be affordable */
        }
        if (rndp(R_CFG, 1, 8)) {
                cfg.tick_ps = 5000000; /* a very slow machine, to compute for long */
        }
        cfg.max_vtime = 4000 * SEC;
        cfg.max_ticks = 200000000;
}

static u64
word(int k)
{
        return 512 + 16 * k;
}

static void
release(struct task *k)
{
        u8 b = 0x5a;
        k->rel = sim_now();
        sim_log("task %d can complete", (int)(k - T));
        switch (k->kind) {
        case K_SPIN:
                wmt_p32(&w, WMT_BUF(0) + (u32)word((int)(k - T)), 1);
                break;
        case K_POLL:
        case K_READ:
        case K_RECV:
        case K_CLOSE:
                if (k->r != NULL) {
                        chan_put(k->r, &b, 1);
                }
                break;
        case K_WRITE:
        case K_SEND:
                chan_get(k->o, &b, 1);
                break;
        case K_ACCEPT:
                k->of->pend[k->of->npend++] = of_sock(chan_new(8), chan_new(8));
                break;
        }
}

static void
releaser(void *vp)
{
        struct task *k = vp;
        sim_sleep(k->delay);
        if (!over && !abandoned) {
                release(k);
        }
}

static void
watch(void *vp)
{
        u64 g = gen;
        while (flag != 0 && gen == g && !over && !abandoned) {
                u64 lim = since + LAT + (sim_stalled - stall0);
                if (sim_now() > lim) {
                        const char *what = !started                ? "starting"
                                           : cur_ == 0 || cur_ > ntask ? "ending"
                                                                   : knames[T[cur_ - 1].kind];
                        sim_violation("late", "an interrupt request made while %s has not been answered after %llu ms", what,
                                      (unsigned long long)((sim_now() - since) / MS));
                }
                sim_sleep(500 * MS);
        }
}

static void
raise_(void)
{
        gen++;
        since = sim_now();
        stall0 = sim_stalled;
        flag = 1;
        sim_log("interrupt requested");
        sim_spawn("watchdog", watch, NULL, true);
}

static void
requester(void *vp)
{
        for (u32 i = 0; i < ngap && !over; i++) {
                sim_sleep(gap[i]);
                if (flag == 0 && !over && sim_fault(F_INTR) != 0) {
                        raise_();
                }
        }
}

static int
on_restart(struct emb *e, struct exec_context *ctx, int ret)
{
        if (ret != ETOYWASMUSERINTERRUPT) {
                return 0;
        }
        u64 t0 = sim_now();
        if (flag == 0) {
                sim_violation("unrequested", "the execution was interrupted although nobody requested it");
        }
        if (t0 - since > LAT + (sim_stalled - stall0)) {
                sim_violation("late", "an interrupt request was answered after %llu ms", (unsigned long long)((t0 - since) / MS));
        }
        nintr++;
        if (cur_ > 0 && cur_ <= ntask) {
                static int ids[K_N];
                int k = T[cur_ - 1].kind;
                if (ids[k] == 0) {
                        char nm[40];
                        snprintf(nm, sizeof(nm), "interrupted-%s", knames[k]);
                        for (char *c = nm; *c != 0; c++) {
                                *c = *c == ' ' ? '-' : *c;
                        }
                        ids[k] = 1 + probe_id(nm);
                }
                shm->probe[ids[k] - 1]++;
        }
        if (rndp(R_WORLD, p_abandon, 100)) {
                sim_log("abandoned");
                abandoned = true;
                return ECANCELED;
        }
        sim_sleep(rndlog(R_WORLD, 1000, 700 * MS));
        if (nkeep < 6 && rndp(R_WORLD, p_keep, 100)) {
                nkeep++;
                gen++;
                since = sim_now();
                stall0 = sim_stalled;
                sim_spawn("watchdog", watch, NULL, true);
        } else {
                flag = 0;
        }
        paused += sim_now() - t0;
        return 0;
}

static void
finish(struct task *k)
{
        struct wmt_thr *h = &w.th[0];
        const char *what = knames[k->kind];
        u32 b0 = WMT_BUF(0);
        u64 took = h->te - h->tb;
        if (k->kind == K_WAIT || k->kind == K_SLEEP) {
                if (k->until != 0 ? (k->clk ? h->te : sim_realtime()) < k->until : took < k->delay) {
                        sim_violation("early", "%s for %llu us ended after %llu us", what, (unsigned long long)k->delay / 1000, (unsigned long long)took / 1000);
                }
                k->rel = h->tb + k->delay;
        }
        if (k->rel == 0 && k->kind != K_NOTIFIED && k->kind != K_CLOSE) {
                sim_violation("early", "%s ended although there was nothing to do yet", what);
        }
        if (k->kind != K_NOTIFIED && k->kind != K_CLOSE) {
                u64 rel = k->rel > h->tb ? k->rel : h->tb;
                u64 lim = rel + LAT * (1 + nintr - k->nintr) + (sim_stalled - k->stalled) + (paused - k->paused);
                if (h->te > lim) {
                        sim_violation("stuck", "%s could end but went on for %llu ms with %llu interruptions", what,
                                      (unsigned long long)((h->te - rel) / MS), (unsigned long long)(nintr - k->nintr));
                }
        }
        u32 n = wmt_u32(&w, b0 + 8);
        bool ok;
        switch (k->kind) {
        case K_WAIT:
                ok = h->res == 2;
                break;
        case K_NOTIFIED:
                ok = h->res == 0;
                break;
        case K_SLEEP:
        case K_POLL:
                ok = h->res == 0 && n == 1 && wmt_u64(&w, b0 + 2048) == 4711 && (wmt_u32(&w, b0 + 2048 + 8) & 0xffff) == 0;
                break;
        case K_READ:
        case K_RECV:
                ok = h->res == 0 && n == 1 && wmt_mem(&w)[b0 + 3000] == 0x5a && k->r->out - k->out0 == 1;
                break;
        case K_WRITE:
        case K_SEND:
                ok = h->res == 0 && n == 1 && k->o->in - k->in0 == 1;
                break;
        case K_ACCEPT:
                ok = h->res == 0 && k->of->npend == 0;
                break;
        default:
                ok = h->res == 0;
        }
        if (!ok) {
                sim_violation("result", "%s, interrupted %llu times: ended with %d and %u", what, (unsigned long long)(nintr - k->nintr), h->res, n);
        }
}

static void
iov(u32 b0)
{
        wmt_p32(&w, b0 + 1024, b0 + 3000);
        wmt_p32(&w, b0 + 1028, 1);
        wmt_p32(&w, b0 + 8, 77);
        wmt_mem(&w)[b0 + 3000] = 0x33;
}
static void
sub_clock(u32 b0, u32 clk, u64 tmo, bool abs)
{
        memset(wmt_mem(&w) + b0 + 4096, 0, 48);
        wmt_p64(&w, b0 + 4096, 4711);
        wmt_p32(&w, b0 + 4096 + 16, clk);
        wmt_p64(&w, b0 + 4096 + 24, tmo);
        wmt_p32(&w, b0 + 4096 + 40, abs);
        wmt_p32(&w, b0 + 8, 77);
}

static bool
other(int t)
{
        /* thread 1 reads what main closes or notifies main, the others are just there */
        u32 b0 = WMT_BUF(t);
        struct wmt_thr *h = &w.th[t];
        if (t == 1) {
                for (u32 i = 0; i < ntask; i++) {
                        struct task *k = &T[i];
                        if (k->kind == K_CLOSE && k->sub == 1) {
                                k->sub = 2;
                                iov(b0);
                                wmt_call(&w, t, "fd_read", k->fd, b0 + 1024, 1, b0 + 8);
                                return true;
                        }
                }
        }
        if (w.th[0].done) {
                return false;
        }
        if (t == 1 && h->name != NULL && !strcmp(h->name, "poll_oneoff") && cur_ > 0 && cur_ <= ntask && T[cur_ - 1].kind == K_NOTIFIED) {
                wmt_call(&w, t, "@notify", WMT_BUF(0) + word((int)cur_ - 1), 1);
                return true;
        }
        if (t == 2) {
                wmt_call(&w, t, "@wait", WMT_BUF(t), 0, 300 * MS);
                return true;
        }
        sub_clock(b0, 1, 400 * MS, false);
        wmt_call(&w, t, "poll_oneoff", b0 + 4096, b0 + 2048, 1, b0 + 8);
        return true;
}

static bool
next(struct wmt *w_, int t)
{
        started = true;
        if (over) {
                return false; /* the second time */
        }
        if (t != 0) {
                return other(t);
        }
        if (cur_ > 0 && cur_ <= ntask) {
                finish(&T[cur_ - 1]);
        }
        while (cur_ < ntask && !sim_op_enabled(cur_)) {
                cur_++;
        }
        if (cur_ == ntask) {
                cur_++;
                for (u32 i = 0; i < ntask; i++) {
                        if (T[i].kind == K_CLOSE && T[i].rel == 0) {
                                release(&T[i]);
                        }
                }
                return false;
        }
        struct task *k = &T[cur_++];
        int i = (int)(k - T);
        u32 b0 = WMT_BUF(0), wd = b0 + (u32)word(i);
        k->stalled = sim_stalled;
        k->paused = paused;
        k->nintr = nintr;
        k->in0 = k->o != NULL ? k->o->in : 0;
        k->out0 = k->r != NULL ? k->r->out : 0;
        sim_log("task %d: %s for %llu us", i, knames[k->kind], (unsigned long long)k->delay / 1000);
        if (k->kind != K_WAIT && k->kind != K_SLEEP && k->kind != K_NOTIFIED) {
                sim_spawn("releaser", releaser, k, true);
        }
        switch (k->kind) {
        case K_SPIN:
                wmt_call(w_, t, "@spin", wd, k->sub);
                break;
        case K_WAIT:
                wmt_call(w_, t, "@wait", wd, 0, k->delay);
                break;
        case K_NOTIFIED:
                wmt_call(w_, t, "@wait", wd, 0, k->inf ? UINT64_MAX : 4000 * SEC);
                break;
        case K_SLEEP:
                if (k->abs) {
                        k->until = (k->clk ? sim_now() : sim_realtime()) + k->delay;
                }
                sub_clock(b0, k->clk, k->abs ? k->until : k->delay, k->abs);
                wmt_call(w_, t, "poll_oneoff", b0 + 4096, b0 + 2048, 1, b0 + 8);
                break;
        case K_POLL:
                memset(wmt_mem(w_) + b0 + 4096, 0, 48);
                wmt_p64(w_, b0 + 4096, 4711);
                wmt_mem(w_)[b0 + 4096 + 8] = 1;
                wmt_p32(w_, b0 + 4096 + 16, k->fd);
                wmt_p32(w_, b0 + 8, 77);
                wmt_call(w_, t, "poll_oneoff", b0 + 4096, b0 + 2048, 1, b0 + 8);
                break;
        case K_READ:
                iov(b0);
                wmt_call(w_, t, "fd_read", k->fd, b0 + 1024, 1, b0 + 8);
                break;
        case K_RECV:
                iov(b0);
                wmt_call(w_, t, "sock_recv", k->fd, b0 + 1024, 1, 0, b0 + 8, b0 + 16);
                break;
        case K_WRITE:
                iov(b0);
                wmt_call(w_, t, "fd_write", k->fd, b0 + 1024, 1, b0 + 8);
                break;
        case K_SEND:
                iov(b0);
                wmt_call(w_, t, "sock_send", k->fd, b0 + 1024, 1, 0, b0 + 8);
                break;
        case K_ACCEPT:
                wmt_call(w_, t, "sock_accept", k->fd, 0, b0 + 8);
                break;
        case K_CLOSE:
                wmt_call(w_, t, "fd_close", k->fd);
                break;
        }
        return true;
}

void
run_intr(void)
{
        nthr = rndr(R_GEN, 1, 3);
        ntask = rndr(R_GEN, 1, MAXTASK);
        p_keep = rndp(R_GEN, 1, 2) ? rndr(R_GEN, 10, 90) : 0;
        p_abandon = rndp(R_GEN, 1, 3) ? rndr(R_GEN, 10, 90) : 0;
        ngap = rndr(R_GEN, 1, 8);
        for (u32 i = 0; i < 8; i++) {
                gap[i] = rndp(R_GEN, 1, 2) ? rndlog(R_GEN, 1000, 20 * MS) : rndlog(R_GEN, 1 * MS, rndp(R_GEN, 1, 4) ? 60 * SEC : 4 * SEC);
        }
        wmt_begin(&w, nthr, rndp(R_GEN, 1, 2));
        bool closing = false, notified = false;
        for (u32 i = 0; i < ntask; i++) {
                struct task *k = &T[i];
                k->kind = rndp(R_GEN, 1, 5) ? K_SPIN : rndn(R_GEN, K_N);
#if defined(TOYWASM_USE_USER_SCHED)
                if (k->kind == K_NOTIFIED) {
                        k->kind = K_WAIT; /* see the finding on notifications */
                }
#endif
                if ((k->kind == K_NOTIFIED || k->kind == K_CLOSE) && nthr == 1) {
                        k->kind = K_WAIT;
                }
                /* thread 1 is needed for these */
                if ((k->kind == K_CLOSE && (closing || notified)) || (k->kind == K_NOTIFIED && closing)) {
                        k->kind = K_READ;
                }
                notified = notified || k->kind == K_NOTIFIED;
                k->sub = rndn(R_GEN, WMT_NSPIN);
                k->fd = 5 + i;
                k->inf = rndp(R_GEN, 1, 2);
                k->clk = rndn(R_GEN, 2);
                k->abs = rndp(R_GEN, 1, 2);
                u64 most = k->kind == K_SPIN ? (cfg.tick_ps < 200000 ? 600 * MS : cfg.tick_ps < 5000000 ? 3 * SEC : 100 * SEC) : 60 * SEC;
                k->delay = rndlog(R_GEN, 1000, most);
                if ((k->kind != K_SPIN || cfg.tick_ps >= 5000000) && rndp(R_GEN, 1, 2)) {
                        k->delay = rndlog(R_GEN, 2 * SEC, most);
                }
                sim_op_next();
                switch (k->kind) {
                case K_CLOSE:
                        closing = true;
                        k->sub = 1;
                        /* fall through */
                case K_POLL:
                case K_READ:
                        k->r = chan_new(8);
                        k->of = of_pipe_r(k->r);
                        break;
                case K_WRITE:
                        k->o = chan_new(8);
                        k->of = of_pipe_w(k->o);
                        break;
                case K_RECV:
                case K_SEND:
                        k->r = chan_new(8);
                        k->o = chan_new(8);
                        k->of = of_sock(k->r, k->o);
                        break;
                case K_ACCEPT:
                        k->of = of_listen();
                        break;
                }
                if (k->o != NULL) {
                        u8 x = 1;
                        while (chan_put(k->o, &x, 1) > 0) {
                        }
                }
                if (k->of != NULL) {
                        w.e.hostfd[w.e.nhostfd].wasi = k->fd;
                        w.e.hostfd[w.e.nhostfd++].host = world_install(k->of, -1);
                }
        }
        w.next = next;
        w.e.on_restart = on_restart;
        w.e.intrp = &flag;
        w.e.intr_delay = rndp(R_GEN, 1, 3) ? rndn(R_GEN, 4) : 0;
        if (rndp(R_GEN, 1, 8)) {
                raise_();
        }
        sim_spawn("embedder", requester, NULL, true);
        int ret = wmt_run(&w);
        over = true;
        cfg.fault_on = false;
        flag = 0;
        if (ret != 0 && !(abandoned && ret == ECANCELED)) {
                sim_violation("outcome", "the program ended with %d, trap %u %s", ret, w.e.trapid, w.e.trapmsg);
        }
        if (abandoned) {
                PROBE("abandoned");
                if (started && rndp(R_GEN, 1, 2)) {
                        memset(w.th, 0, sizeof(w.th));
                        wmt_p32(&w, MT_DONE, 0);
                        wmt_p32(&w, MT_GO, 0);
                        ret = emb_call(&w.e, "_start", NULL, NULL);
                        if (ret != 0) {
                                sim_violation("afterwards", "a call after abandoning an interrupted one ended with %d, trap %u %s", ret, w.e.trapid,
                                              w.e.trapmsg);
                        }
                }
        }
        emb_teardown(&w.e);
        sim_sample("%d threads, %u tasks, first %s, %llu interrupts%s\n", nthr, ntask, knames[T[0].kind], (unsigned long long)nintr,
                   abandoned ? ", abandoned" : "");
}
