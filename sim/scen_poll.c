/* P10: polls, sleeps and clock readings of several threads. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>

#include "wasiwrap.h"

void cfg_threads(void);

#define PAT (700 * MS)
#define MAXCH 4
#define MAXSUB 40
enum { C_IN, C_OUT, C_SOCK, C_LISTEN, C_TTY, C_FILE, C_NTYPE };
static const char *const cnames[] = {"input pipe", "output pipe", "socket", "listening socket", "terminal", "file"};
static const short evs[2] = {POLLIN, POLLOUT};
static struct ch {
        int type;
        u32 fd;
        struct ofile *of;
        struct chan *r, *o;
        bool was[2];
        u64 since[2]; /* ready since then, NEVER: not ready */
        u64 last[2];  /* was ready at that time */
        bool closing; /* a thread has begun to close it */
        u64 closed;   /* when that was done */
} S[MAXCH];
static int nch, nthr;
static struct wmt w;
static u64 seed0, npoll, ntimer, nfdev, nclk;
static u32 kth[WMT_MAX], quota[WMT_MAX];
static bool over, closes;
static u64 maxmono; /* of the readings that were complete at some point */
static struct sub {
        int tag; /* 0 clock, 1 read, 2 write */
        u64 ud;
        int ch; /* -1: no such descriptor */
        u32 clk;
        bool abs;
        u8 badtype; /* no such event */
        u64 tmo;
} B[WMT_MAX][MAXSUB];
static struct cur {
        bool live;
        int kind; /* 0 poll, 1 time, 2 resolution, 3 yield, 4 close */
        int ch;
        u32 n, out;
        bool odd; /* anything may be refused */
        u64 rt0, stalled, jumps, mono0;
} C[WMT_MAX];

/* how late is too late */
static u64
patience(void)
{
#if !defined(TOYWASM_USE_USER_SCHED)
        if (cfg.prob[F_STALL] == 0 && cfg.prob[F_LATE] == 0 && cfg.prob[F_CLOCKJUMP] == 0 && cfg.prob[F_INTR] == 0 && cfg.tick_ps <= 2000 && cfg.clock_read_ns <= MS) {
                return PAT;
        }
#endif
        return 5 * SEC;
}

void
cfg_poll(void)
{
        cfg_threads();
        static const u32 p[] = {0, 0, 2000, 20000, 150000};
        cfg.prob[F_THREAD] = 0;
        cfg.prob[F_EINTR] = p[rndn(R_CFG, 5)];
        cfg.prob[F_INTR] = rndp(R_CFG, 1, 2) ? 400000 : 0;
        cfg.prob[F_CLOCKJUMP] = rndp(R_CFG, 1, 3) ? p[rndn(R_CFG, 5)] : 0;
        cfg.maxf[F_CLOCKJUMP] = 3;
        cfg.max_vtime = 40000 * SEC;
        if (rndp(R_CFG, 1, 5)) { /* nothing excuses being late */
                cfg.prob[F_STALL] = cfg.prob[F_LATE] = cfg.prob[F_CLOCKJUMP] = cfg.prob[F_INTR] = 0;
                cfg.tick_ps = 500;
        }
}

static void
before(struct ch *s)
{
        for (int i = 0; i < 2; i++) {
                s->was[i] = of_poll(s->of, evs[i]) != 0;
                if (s->was[i]) {
                        s->last[i] = sim_now();
                }
        }
}
static void
after(struct ch *s)
{
        for (int i = 0; i < 2; i++) {
                bool now = of_poll(s->of, evs[i]) != 0;
                if (now && s->since[i] == NEVER) {
                        s->since[i] = sim_now();
                        sim_log("%s %u ready to %s", cnames[s->type], s->fd, i ? "write" : "read");
                } else if (!now && s->since[i] != NEVER) {
                        s->since[i] = NEVER;
                        sim_log("%s %u no longer ready to %s", cnames[s->type], s->fd, i ? "write" : "read");
                }
        }
}

static void
change(struct ch *s, bool end)
{
        u8 buf[64];
        memset(buf, 7, sizeof(buf));
        before(s);
        u32 v = rndn(R_WORLD, 100);
        if (end) {
                v = 99;
        }
        if (s->type == C_LISTEN) {
                if (s->of->npend == 0 || (v < 50 && s->of->npend < 8)) {
                        s->of->pend[s->of->npend++] = of_sock(chan_new(8), chan_new(8));
                } else {
                        of_release(W, s->of->pend[--s->of->npend]);
                }
        } else {
                if (s->r != NULL) {
                        if (end || v == 98) {
                                s->r->wclosed = true;
                        } else if (s->r->len > 0 && v < 50) {
                                chan_get(s->r, buf, s->r->len > 64 ? 64 : s->r->len);
                        } else {
                                chan_put(s->r, buf, 1 + v % 8);
                        }
                }
                if (s->o != NULL) {
                        if (end || v == 97) {
                                s->o->rclosed = true;
                        } else if (s->o->len == s->o->cap || (s->o->len > 0 && v % 2)) {
                                chan_get(s->o, buf, 1 + v % 16);
                        } else {
                                while (chan_put(s->o, buf, 64) > 0) {
                                }
                        }
                }
        }
        after(s);
}

static void
peer(void *vp)
{
        struct ch *s = vp;
        u32 n = rndn(R_WORLD, 40);
        bool fast = rndp(R_WORLD, 1, 3);
        while (!over && n-- > 0) {
                sim_sleep(rndp(R_WORLD, 1, 8) ? 12 * SEC + rndn(R_WORLD, 30) * SEC : rndlog(R_WORLD, 10000, fast ? 20 * MS : 3 * SEC));
                change(s, false);
        }
        sim_sleep(rndlog(R_WORLD, 10000, 60 * SEC));
        if (s->type == C_LISTEN) {
                if (s->of->npend == 0) {
                        change(s, true);
                }
        } else {
                change(s, true);
        }
}

static void
fin_poll(int t)
{
        struct cur *c = &C[t];
        struct wmt_thr *h = &w.th[t];
        u32 b0 = WMT_BUF(t);
        u64 stalled = sim_stalled - c->stalled;
        bool jumped = world_rt_jumps != c->jumps;
        const char *jm = jumped ? " (the realtime clock was set meanwhile)" : "";
        if (h->res != 0) {
                if (c->odd) {
                        PROBE("poll-refused");
                        return;
                }
                if (h->res == 27 && cfg.prob[F_EINTR] != 0) {
                        return;
                }
                sim_violation("error", "poll_oneoff failed with %d%s", h->res, jm);
        }
        u32 n = wmt_u32(&w, b0 + 8);
        if (n == 0 || n > c->n) {
                sim_violation("count", "poll_oneoff with %u subscriptions reports %u events", c->n, n);
        }
        u64 seen = 0;
        bool timer = false;
        for (u32 i = 0; i < n; i++) {
                u32 a = c->out + 32 * i;
                u64 ud = wmt_u64(&w, a);
                u32 k;
                for (k = 0; k < c->n && B[t][k].ud != ud; k++) {
                }
                if (k == c->n) {
                        sim_violation("userdata", "poll_oneoff reports user data %llx, which no subscription has", (unsigned long long)ud);
                }
                if (seen >> k & 1) {
                        sim_violation("twice", "poll_oneoff reports subscription %u twice", k);
                }
                seen |= 1ULL << k;
                struct sub *b = &B[t][k];
                u8 *m = wmt_mem(&w) + a;
                u32 err = m[8] | m[9] << 8;
                if (m[10] != b->tag) {
                        sim_violation("type", "the event of subscription %u has type %u instead of %u", k, m[10], b->tag);
                }
                if (b->tag == 0) {
                        timer = true;
                        ntimer++;
                        if (err != 0) {
                                sim_violation("error", "a timer event has error %u", err);
                        }
                        u64 now = b->clk == 0 ? sim_realtime() : sim_now();
                        u64 dl = b->abs ? b->tmo : (b->clk == 0 ? c->rt0 : h->tb) + b->tmo;
                        if (b->clk == 0 && !b->abs) {
                                now = sim_now(); /* a relative delay */
                                dl = h->tb + b->tmo;
                        }
                        if (dl < b->tmo) {
                                dl = NEVER;
                        }
                        if (b->clk == 0 && b->abs) {
                                /* the highest it read meanwhile */
                                for (u64 j = c->jumps; j < world_rt_jumps; j++) {
                                        now = world_jump[j % 64].rt > now ? world_jump[j % 64].rt : now;
                                }
                        }
                        if (now < dl) {
                                sim_violation("early", "a timer (%s clock, %s) fired %llu ns before its time%s", b->clk ? "monotonic" : "realtime",
                                              b->abs ? "absolute" : "relative", (unsigned long long)(dl - now), jm);
                        }
                        continue;
                }
                nfdev++;
                int d = b->tag - 1;
                if (b->ch < 0) {
                        if (err != 8) {
                                sim_violation("error", "an event for a descriptor that is not open has error %u", err);
                        }
                        continue;
                }
                struct ch *s = &S[b->ch];
                if (s->closing && err == 8) {
                        PROBE("poll-closed");
                        continue;
                }
                if (s->since[d] == NEVER && (s->last[d] == 0 || s->last[d] < h->tb)) {
                        sim_violation("false-event", "poll_oneoff reports the %s ready to %s, which it was not", cnames[s->type], d ? "write" : "read");
                }
                bool closed = (s->r != NULL && s->r->wclosed) || (s->o != NULL && s->o->rclosed);
                if (err != 0 && !(closed && (err == 64 || err == 29))) {
                        sim_violation("error", "an event for the %s has error %u", cnames[s->type], err);
                }
        }
        /* how soon */
        u64 first = NEVER;
        bool held = false; /* a descriptor was ready all the time */
        for (u32 k = 0; k < c->n; k++) {
                struct sub *b = &B[t][k];
                u64 at = NEVER;
                if (b->tag == 0) {
                        if (b->abs && b->clk == 0) {
                                if (!jumped) {
                                        at = b->tmo <= c->rt0 ? h->tb : h->tb + (b->tmo - c->rt0);
                                }
                        } else if (b->abs) {
                                at = b->tmo < h->tb ? h->tb : b->tmo;
                        } else {
                                at = h->tb + b->tmo < h->tb ? NEVER : h->tb + b->tmo;
                        }
                } else if (b->ch < 0 || S[b->ch].closed < h->tb) {
                        at = h->tb;
                        held = true;
                } else if (!S[b->ch].closing) {
                        u64 s = S[b->ch].since[b->tag - 1];
                        if (s != NEVER) {
                                at = s < h->tb ? h->tb : s;
                                held |= s < h->tb;
                        }
                }
                first = at < first ? at : first;
        }
        if (first != NEVER && h->te > first && h->te - first > patience() + stalled) {
                sim_violation("late", "poll_oneoff returned %llu ms after its first event%s", (unsigned long long)((h->te - first) / MS), jm);
        }
        if (timer && n == 1 && held) {
                sim_violation("missed", "poll_oneoff reports only a timer although a descriptor was ready all the time");
        }
}

static void
finish(int t)
{
        struct cur *c = &C[t];
        struct wmt_thr *h = &w.th[t];
        u32 b0 = WMT_BUF(t);
        if (c->kind == 0) {
                npoll++;
                fin_poll(t);
                return;
        }
        if (c->kind == 4) {
                if (h->res == 0) {
                        S[c->ch].closed = h->te;
                }
                return;
        }
        if (h->res != 0) {
                if (c->odd) {
                        return;
                }
                sim_violation("error", "%s failed with %d", h->name, h->res);
        }
        if (c->kind == 3) {
                return;
        }
        u64 v = wmt_u64(&w, b0 + 8);
        nclk++;
        if (c->kind == 2) {
                if (v == 0) {
                        sim_violation("clock", "the resolution of clock %llu is reported as zero", (unsigned long long)h->args[0]);
                }
                return;
        }
        if (h->args[0] == 1) {
                if (v < h->tb || v > h->te) {
                        sim_violation("clock", "the monotonic clock reads %llu between %llu and %llu", (unsigned long long)v, (unsigned long long)h->tb,
                                      (unsigned long long)h->te);
                }
                if (v < c->mono0) {
                        sim_violation("clock", "the monotonic clock went back from %llu to %llu", (unsigned long long)c->mono0, (unsigned long long)v);
                }
                maxmono = v > maxmono ? v : maxmono;
        } else if (h->args[0] == 0 && world_rt_jumps == c->jumps) {
                u64 rt = sim_realtime();
                if (v < c->rt0 || v > rt) {
                        sim_violation("clock", "the realtime clock reads %llu between %llu and %llu", (unsigned long long)v, (unsigned long long)c->rt0,
                                      (unsigned long long)rt);
                }
        }
}

static bool
next(struct wmt *w_, int t)
{
        struct cur *c = &C[t];
        u32 b0 = WMT_BUF(t);
        if (c->live) {
                finish(t);
                c->live = false;
        }
        for (;;) {
                if (kth[t] == quota[t]) {
                        return false;
                }
                u32 k = kth[t]++;
                if (!sim_op_enabled(t * 64 + k)) {
                        continue;
                }
                sim_subseed(R_GEN, hash64(seed0, t * 64 + k));
                u64 nap = rndp(R_GEN, 1, 4) ? rndlog(R_GEN, 1000, 5 * SEC) : 0;
                u32 what = rndn(R_GEN, 10), clk = rndp(R_GEN, 1, 20) ? rndn(R_GEN, 9) : rndn(R_GEN, 2);
                u32 n = rndp(R_GEN, 1, 20) ? 1 + rndn(R_GEN, MAXSUB) : rndp(R_GEN, 1, 3) ? 1 : 1 + rndn(R_GEN, 7);
                u32 salt = (u32)rnd(R_GEN), shut = rndn(R_GEN, 10 * nch);
                struct sub *b = B[t];
                bool odd = false, clock = false, sure = false;
                for (u32 i = 0; i < n; i++, b++) {
                        memset(b, 0, sizeof(*b));
                        b->ud = hash64(salt, i);
                        b->tag = rndp(R_GEN, 1, 3) || n == 1 ? (int)rndn(R_GEN, 3) : 1 + (int)rndn(R_GEN, 2);
                        u32 form = rndn(R_GEN, 12);
                        u64 rel = form < 2 ? 0 : form < 4 ? rndlog(R_GEN, 1, 2 * MS) : rndlog(R_GEN, MS, 90 * SEC);
                        b->clk = rndn(R_GEN, 2);
                        b->abs = rndp(R_GEN, 1, 2);
                        b->tmo = rel;
                        bool back = rndp(R_GEN, 1, 4), bad = rndp(R_GEN, 1, 25), weird = rndp(R_GEN, 1, 60);
                        u32 pick = rndn(R_GEN, nch);
                        if (b->tag == 0) {
                                if (clock && !weird) {
                                        b->tag = 1;
                                } else {
                                        odd |= clock;
                                        clock = true;
                                }
                        }
                        if (b->tag == 0) {
                                if (b->abs) {
                                        u64 now = b->clk == 0 ? sim_realtime() : sim_now();
                                        b->tmo = back ? (form == 5 ? 0 : now > rel ? now - rel : 0) : now + rel;
                                }
                                if (weird) {
                                        odd = true;
                                        if (form < 4 || !sure) {
                                                b->clk = 2 + form % 4;
                                        } else {
                                                b->tmo = UINT64_MAX - rel;
                                        }
                                }
                        } else {
                                b->ch = bad ? -1 : (int)pick;
                                sure |= bad;
                                if (weird && form < 2) {
                                        b->badtype = 3 + form * 100;
                                        odd = true;
                                }
                                if (!bad && S[pick].type == C_LISTEN && !clock) {
                                        b->tag = 1; /* never ready to write */
                                }
                        }
                }
                sim_unsubseed(R_GEN);
                if (nap != 0) {
                        emb_nap(nap);
                }
                memset(c, 0, sizeof(*c));
                c->live = true;
                c->stalled = sim_stalled;
                c->jumps = world_rt_jumps;
                c->rt0 = sim_realtime();
                c->mono0 = maxmono;
                if (what == 0 || what == 1) {
                        c->kind = 1 + (what == 1);
                        c->odd = clk > 1;
                        if (what == 0) {
                                wmt_call(&w, t, "clock_time_get", clk, salt, b0 + 8);
                        } else {
                                wmt_call(&w, t, "clock_res_get", clk, b0 + 8);
                        }
                        return true;
                }
                if (what == 2) {
                        c->kind = 3;
                        wmt_call(&w, t, "sched_yield");
                        return true;
                }
                if (closes && t != 0 && salt % 2 && C[0].live && C[0].kind == 0) { /* one that the first thread is polling */
                        for (u32 i = 0; i < C[0].n; i++) {
                                shut = B[0][i].tag != 0 && B[0][i].ch >= 0 && shut < 4 * (u32)nch ? (u32)B[0][i].ch : shut;
                        }
                }
                if (closes && shut < (u32)nch && !S[shut].closing) {
                        c->kind = 4;
                        c->ch = (int)shut;
                        S[shut].closing = true;
                        wmt_call(&w, t, "fd_close", S[shut].fd);
                        return true;
                }
                c->n = n;
                c->odd = odd;
                u8 *m = wmt_mem(&w);
                memset(m + b0 + 4096, 0xa5, 48 * n);
                c->out = salt % 7 ? b0 + 16384 : b0 + 4096 + 8 * (salt / 7 % 8); /* over the subscriptions */
                memset(m + b0 + 16384, 0x5a, 32 * n);
                wmt_p32(&w, b0 + 8, 0);
                for (u32 i = 0; i < n; i++) {
                        u32 a = b0 + 4096 + 48 * i;
                        b = &B[t][i];
                        wmt_p64(&w, a, b->ud);
                        m[a + 8] = (u8)(b->badtype ? b->badtype : b->tag);
                        if (b->tag == 0) {
                                wmt_p32(&w, a + 16, b->clk);
                                wmt_p64(&w, a + 24, b->tmo);
                                wmt_p64(&w, a + 32, salt & 1 ? 0 : salt);
                                m[a + 40] = b->abs;
                                m[a + 41] = 0;
                                sim_log("  %u: clock %u %s %llu", i, b->clk, b->abs ? "at" : "after", (unsigned long long)b->tmo);
                        } else {
                                wmt_p32(&w, a + 16, b->ch < 0 ? 40 + salt % 3 : S[b->ch].fd);
                                sim_log("  %u: %s %s %d", i, b->tag == 1 ? "read" : "write", b->ch < 0 ? "bad" : cnames[S[b->ch].type], b->ch);
                        }
                }
                wmt_call(&w, t, "poll_oneoff", b0 + 4096, c->out, n, b0 + 8);
                return true;
        }
}

void
run_poll(void)
{
        nthr = rndp(R_GEN, 1, 2) ? 1 : rndr(R_GEN, 2, 4);
        nch = rndr(R_GEN, 1, MAXCH);
        closes = rndp(R_GEN, 1, nthr > 1 ? 2 : 6);
        seed0 = rnd(R_GEN);
        wmt_begin(&w, nthr, rndp(R_GEN, 1, 2));
        world_add_file(W, "/regular", "abc", 3);
        for (int i = 0; i < nch; i++) {
                struct ch *s = &S[i];
                s->type = rndn(R_GEN, C_NTYPE);
                s->fd = 5 + i;
                u32 cap = rndr(R_GEN, 1, 64);
                if (s->type == C_IN || s->type == C_SOCK || s->type == C_TTY) {
                        s->r = chan_new(cap);
                }
                if (s->type == C_OUT || s->type == C_SOCK || s->type == C_TTY) {
                        s->o = chan_new(cap);
                }
                switch (s->type) {
                case C_IN:
                        s->of = of_pipe_r(s->r);
                        break;
                case C_OUT:
                        s->of = of_pipe_w(s->o);
                        break;
                case C_SOCK:
                        s->of = of_sock(s->r, s->o);
                        break;
                case C_LISTEN:
                        s->of = of_listen();
                        break;
                case C_TTY:
                        s->of = of_tty(s->r, s->o);
                        break;
                case C_FILE:
                        if (w_open(W, "/regular", O_RDWR, &s->of) != 0) {
                                abort();
                        }
                        break;
                }
                w.e.hostfd[i].wasi = s->fd;
                w.e.hostfd[i].host = world_install(s->of, -1);
                s->since[0] = s->since[1] = s->closed = NEVER;
                if (s->o != NULL && rndp(R_GEN, 1, 2)) {
                        u8 x = 1;
                        while (chan_put(s->o, &x, 1) > 0) {
                        }
                }
                after(s);
                if (s->type != C_FILE) {
                        sim_spawn("peer", peer, s, true);
                }
        }
        w.e.nhostfd = nch;
        for (int t = 0; t < nthr; t++) {
                quota[t] = rndr(R_GEN, 3, 25);
        }
        while (sim_op_next() < 64u * nthr - 1) {
        }
        w.next = next;
        emb_interrupts(&w.e);
        int ret = wmt_run(&w);
        over = true;
        cfg.fault_on = false;
        if (ret != 0) {
                sim_violation("outcome", "the program ended with %d, trap %u", ret, w.e.trapid);
        }
        emb_teardown(&w.e);
        sim_sample("%d threads, %d descriptors: %llu polls, %llu timer and %llu descriptor events, %llu clock readings\n", nthr, nch, (unsigned long long)npoll,
                   (unsigned long long)ntimer, (unsigned long long)nfdev, (unsigned long long)nclk);
}
