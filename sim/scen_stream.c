/* P09: byte streams between guest threads and simulated peers. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>

#include "wasiwrap.h"

void cfg_threads(void);

#define MAXST 4
#define MAXIOV 8
enum { PIPE_IN, PIPE_OUT, SOCK, TTY, NSTYPE };
static const char *const tnames[] = {"input pipe", "output pipe", "socket", "terminal"};
static struct st {
        int type;
        u32 fd;
        u32 key;
        struct ofile *of;
        struct chan *r, *o; /* guest reads from r, writes to o */
        u32 rthr, wthr;     /* bit masks of the threads that read and write */
        bool nonblock, setnb;
        /* a connection that the guest accepts first */
        struct ofile *listen;
        u32 lfd;
        bool accepted, accepting, dead, lnonblock;
        /* peer */
        u64 supply; /* bytes it will send */
        u64 drained;
        u64 wseq[WMT_MAX], dseq[WMT_MAX]; /* bytes each writer sent and the peer received */
        u64 t_readable, t_writable;        /* since when, NEVER: not */
        bool reset, shut;
        int state; /* peer's decision: 1 close early */
        u64 close_after;
} S[MAXST];
static int nst, nthr;
static struct wmt w;
static u64 seed0;
static u32 kth[WMT_MAX], quota[WMT_MAX];
static bool over;
static u64 nread, nwritten, nerrs, nagain;
static struct cur {
        struct st *s;
        int kind; /* 0 read, 1 write, 2 set flags, 3 shutdown, 4 accept, 5 set flags of the listening socket */
        bool nb;
        bool peek;
        u32 total;
        u32 niov;
        u32 base[MAXIOV], len[MAXIOV];
        u64 r_out, stalled, ninj;
        bool was_ready, eof_before;
        u64 again; /* injected would-blocks before */
} C[WMT_MAX];

void
cfg_stream(void)
{
        cfg_threads();
        static const u32 p[] = {0, 0, 2000, 20000, 150000};
        cfg.prob[F_THREAD] = 0;
        cfg.prob[F_IOERR] = rndp(R_CFG, 1, 3) ? p[rndn(R_CFG, 5)] : 0;
        cfg.prob[F_SHORT] = p[rndn(R_CFG, 5)] * 2;
        cfg.prob[F_EINTR] = p[rndn(R_CFG, 5)];
        cfg.prob[F_EAGAIN] = p[rndn(R_CFG, 5)];
        cfg.prob[F_INTR] = rndp(R_CFG, 1, 3) ? 400000 : 0;
        cfg.max_vtime = 40000 * SEC;
}

static u8
in_byte(struct st *s, u64 pos)
{
        return (u8)hash64(s->key, pos);
}
static u8
out_byte(int t, u64 seq)
{
        return (u8)(t << 5 | (seq & 31));
}

static void
feeder(void *vp)
{
        struct st *s = vp;
        while (!over && s->supply > 0) {
                sim_sleep(rndp(R_WORLD, 1, 12) ? 12 * SEC + rndn(R_WORLD, 8) * SEC : rndlog(R_WORLD, 10000, 2 * SEC));
                u32 n = 1 + rndn(R_WORLD, rndp(R_WORLD, 1, 3) ? 600 : 20);
                while (n > 0 && s->supply > 0) {
                        u8 b = in_byte(s, s->r->in);
                        if (chan_put(s->r, &b, 1) == 0) {
                                break;
                        }
                        n--;
                        s->supply--;
                }
                if (s->r->len > 0 && s->t_readable == NEVER) {
                        s->t_readable = sim_now();
                }
                if (s->type == SOCK && s->reset && s->supply < 50) {
                        s->reset = false;
                        s->of->pending_err = ECONNRESET;
                        PROBE("connection-reset");
                }
        }
        sim_sleep(rndlog(R_WORLD, 10000, 20 * SEC));
        s->r->wclosed = true;
        if (s->t_readable == NEVER) {
                s->t_readable = sim_now();
        }
}

static void
connector(void *vp)
{
        struct st *s = vp;
        sim_sleep(rndlog(R_WORLD, 10000, 15 * SEC));
        if (s->listen->refs > 0) {
                s->listen->pend[s->listen->npend++] = s->of;
        }
}

static void
drain(struct st *s, u32 n)
{
        u8 b;
        bool was_full = s->o->len == s->o->cap;
        while (n-- > 0 && chan_get(s->o, &b, 1) == 1) {
                int t = b >> 5;
                if (t >= nthr || b != out_byte(t, s->dseq[t])) {
                        sim_violation("corrupt", "%s: byte %llu arrived as %02x; the next byte of thread %d is %02x", tnames[s->type],
                                      (unsigned long long)s->drained, b, t, out_byte(t, s->dseq[t]));
                }
                s->dseq[t]++;
                s->drained++;
        }
        if (was_full && s->o->len < s->o->cap) {
                s->t_writable = sim_now();
        }
}

static void
drainer(void *vp)
{
        struct st *s = vp;
        while (!over) {
                sim_sleep(rndp(R_WORLD, 1, 12) ? 12 * SEC + rndn(R_WORLD, 8) * SEC : rndlog(R_WORLD, 10000, 2 * SEC));
                drain(s, 1 + rndn(R_WORLD, rndp(R_WORLD, 1, 3) ? 2000 : 50));
                if (s->close_after != 0 && s->drained >= s->close_after) {
                        PROBE("reader-closed");
                        s->o->rclosed = true;
                        return;
                }
        }
}

static bool
readable(struct st *s)
{
        return s->r->len > 0 || s->r->wclosed || s->of->pending_err != 0 || s->of->shut_rd;
}
static bool
writable(struct st *s)
{
        return s->o->len < s->o->cap || s->o->rclosed || s->of->pending_err != 0 || s->of->shut_wr;
}

#if defined(TOYWASM_USE_USER_SCHED)
static int
who(const void *buf)
{
        return (int)(((const u8 *)buf - wmt_mem(&w)) / WW_PAGE) - 1;
}
#endif

static struct xfer *
xfer_of(int t)
{
        return &world_xfer[world_who != NULL ? t : sim_fiber_id()];
}

static void
finish(int t)
{
        struct cur *c = &C[t];
        struct st *s = c->s;
        struct wmt_thr *h = &w.th[t];
        struct xfer *x = xfer_of(t);
        u8 *m = wmt_mem(&w);
        const char *what = h->name;
        if (c->kind == 2) {
                if (h->res == 0) {
                        s->nonblock = h->args[1] != 0;
                } else if (world_ninj == 0) {
                        sim_violation("error", "fd_fdstat_set_flags failed with %d", h->res);
                }
                return;
        }
        if (c->kind == 3) {
                return;
        }
        if (c->kind == 5) {
                s->accepting = false;
                if (h->res == 0) {
                        s->lnonblock = c->nb;
                } else if (world_ninj == 0) {
                        sim_violation("error", "fd_fdstat_set_flags failed with %d", h->res);
                }
                return;
        }
        if (c->kind == 4) {
                s->accepting = false;
                if (h->res == 0) {
                        s->accepted = true;
                        s->fd = wmt_u32(&w, WMT_BUF(t) + 8);
                        s->nonblock = c->nb;
                        PROBE("stream-accepted");
                        return;
                }
                if (h->res == 6) {
                        if (!s->lnonblock) {
                                sim_violation("again", "a blocking %s returned 'try again'", what);
                        }
                } else if (world_ninj == 0) {
                        sim_violation("error", "%s failed with %d although nothing on the host did", what, h->res);
                }
                if (s->of->refs == 1) {
                        s->dead = true; /* it was accepted, and lost by a later failure */
                        s->supply = 0;
                        s->o->rclosed = true;
                }
                return;
        }
        u32 n = wmt_u32(&w, WMT_BUF(t) + 8);
        u64 took = h->te - h->tb, stalled = sim_stalled - c->stalled;
        if (h->res == 0) {
                if (n > c->total) {
                        sim_violation("count", "%s of %u bytes on the %s reports %u", what, c->total, tnames[s->type], n);
                }
                if (c->peek) {
                        if (x->n != 0) {
                                sim_violation("consumed", "a peek consumed %llu bytes", (unsigned long long)x->n);
                        }
                } else if (x->n != n || (x->gap && s->type != TTY)) {
                        sim_violation("count", "%s on the %s reports %u bytes but moved %llu", what, tnames[s->type], n, (unsigned long long)x->n);
                }
                u32 left = n;
                u64 pos = c->kind == 0 ? (c->peek ? c->r_out : x->pos) : 0;
                for (u32 i = 0; i < c->niov && left > 0; i++) {
                        for (u32 j = 0; j < c->len[i] && left > 0; j++, left--, pos++) {
                                if (c->kind == 0 && m[c->base[i] + j] != in_byte(s, pos)) {
                                        sim_violation("corrupt", "%s on the %s: byte %llu of the stream was delivered as %02x instead of %02x", what,
                                                      tnames[s->type], (unsigned long long)pos, m[c->base[i] + j], in_byte(s, pos));
                                }
                        }
                }
                if (c->kind == 0) {
                        nread += n;
                        if (n == 0 && c->total > 0 && !((s->r->wclosed && s->r->len == 0) || s->of->shut_rd)) {
                                sim_violation("eof", "%s on the %s reports the end of a stream that has not ended", what, tnames[s->type]);
                        }
                        if (s->r->len == 0 && !s->r->wclosed && !c->peek) {
                                s->t_readable = NEVER;
                        }
                } else {
                        nwritten += n;
                        if (n == 0 && c->total > 0) {
                                sim_violation("count", "%s on the %s of %u bytes wrote nothing without an error", what, tnames[s->type], c->total);
                        }
                        s->wseq[t] += n;
                }
        } else {
                nerrs++;
                if (x->n != 0) {
                        sim_violation("failed-transfer", "%s on the %s failed with %d after moving %llu bytes", what, tnames[s->type], h->res,
                                      (unsigned long long)x->n);
                }
                bool ok = false;
                if (h->res == 6) {
                        nagain++;
                        if (!s->nonblock) {
                                sim_violation("again", "a blocking %s on the %s returned 'try again'", what, tnames[s->type]);
                        }
                        if (c->was_ready && shm->fault_count[F_EAGAIN] + shm->fault_count[F_EINTR] == c->again && (c->kind == 0 ? s->rthr : s->wthr) == (1u << t)) {
                                sim_violation("again", "a non-blocking %s on the %s returned 'try again' although it was ready all the time", what,
                                              tnames[s->type]);
                        }
                        ok = true;
                }
                for (int i = 0; i < world_ninj; i++) {
                        ok |= ww_err_is(h->res, world_inj[i]);
                }
                ok |= world_ninj >= 16;
                ok |= h->res == 15 && s->type == SOCK;
                ok |= h->res == 64 && c->kind == 1 && (s->o->rclosed || s->of->shut_wr);
                if (!ok) {
                        sim_violation("error", "%s on the %s failed with %d although nothing on the host did", what, tnames[s->type], h->res);
                }
        }
        if (s->nonblock && took > 2 * SEC + stalled && s->type != TTY) {
                sim_violation("blocked", "a non-blocking %s on the %s took %llu ms", what, tnames[s->type], (unsigned long long)(took / MS));
        }
        /* one user of this direction: once it is ready nothing can delay it for long */
        u64 since = c->kind == 0 ? s->t_readable : s->t_writable;
        if (h->res == 0 && since != NEVER && (c->kind == 0 ? s->rthr : s->wthr) == (1u << t)) {
                u64 from = since > h->tb ? since : h->tb;
                if (h->te > from && h->te - from > 5 * SEC + stalled && s->type != TTY) {
                        sim_violation("late", "%s on the %s returned %llu ms after it could", what, tnames[s->type], (unsigned long long)((h->te - from) / MS));
                }
        }
}

static bool
next(struct wmt *w_, int t)
{
        struct cur *c = &C[t];
        u32 b0 = WMT_BUF(t);
        if (c->s != NULL) {
                finish(t);
                c->s = NULL;
        }
        for (;;) {
                if (kth[t] == quota[t]) {
                        return false;
                }
                u32 k = kth[t]++;
                if (!sim_op_enabled(t * 64 + k)) {
                        continue;
                }
                sim_subseed(R_GEN, hash64(seed0, t * 64 + k));
                u64 nap = rndp(R_GEN, 1, 4) ? rndlog(R_GEN, 1000, 5 * SEC) : 0;
                struct st *s = &S[rndn(R_GEN, nst)];
                bool rd = s->rthr >> t & 1, wr = s->wthr >> t & 1;
                u32 kind = rndn(R_GEN, 2), special = rndn(R_GEN, 40), fill = rndn(R_GEN, 3);
                u32 niov = rndp(R_GEN, 1, 3) ? 1 + rndn(R_GEN, MAXIOV) : 1;
                u32 maxlen = fill == 0 ? 4 : fill == 1 ? 60 : 1500;
                u32 off = 256 + rndn(R_GEN, 64);
                u32 lens[MAXIOV], gaps[MAXIOV];
                for (u32 i = 0; i < niov; i++) {
                        lens[i] = rndp(R_GEN, 1, 10) ? 0 : rndr(R_GEN, 1, maxlen);
                        gaps[i] = rndn(R_GEN, 9);
                }
                bool lnb = rndp(R_GEN, 1, 4);
                bool peek = rndp(R_GEN, 1, 5), viasock = rndp(R_GEN, 1, 2), nbflag = rndp(R_GEN, 1, 2);
                sim_unsubseed(R_GEN);
                if ((!rd && !wr) || s->dead || s->accepting) {
                        continue;
                }
                if (nap != 0) {
                        emb_nap(nap);
                }
                if (s->dead || s->accepting) { /* meanwhile */
                        continue;
                }
                memset(c, 0, sizeof(*c));
                c->s = s;
                memset(xfer_of(t), 0, sizeof(world_xfer[0]));
                c->stalled = sim_stalled;
                c->again = shm->fault_count[F_EAGAIN] + shm->fault_count[F_EINTR];
                if (s->listen != NULL && !s->accepted) {
                        s->accepting = true;
                        if (lnb && !s->lnonblock) {
                                c->kind = 5;
                                c->nb = true;
                                wmt_call(&w, t, "fd_fdstat_set_flags", s->lfd, 4);
                                return true;
                        }
                        c->kind = 4;
                        c->nb = nbflag;
                        wmt_call(&w, t, "sock_accept", s->lfd, nbflag ? 4 : 0, b0 + 8);
                        return true;
                }
                u32 only = (rd ? s->rthr : 1u << t) | (wr ? s->wthr : 1u << t) | s->rthr | s->wthr;
                if (special == 0 && only == (1u << t)) {
                        c->kind = 2;
                        wmt_call(&w, t, "fd_fdstat_set_flags", s->fd, nbflag ? 4 : 0);
                        return true;
                }
                if (special == 1 && s->type == SOCK && only == (1u << t)) {
                        c->kind = 3;
                        wmt_call(&w, t, "sock_shutdown", s->fd, 1 + nbflag);
                        return true;
                }
                c->kind = rd && wr ? kind : rd ? 0 : 1;
                u32 a = b0 + off, iov = b0 + 64;
                u64 seq = s->wseq[t];
                u8 *m = wmt_mem(&w);
                c->niov = niov;
                for (u32 i = 0; i < niov; i++) {
                        a += gaps[i];
                        c->base[i] = a;
                        c->len[i] = lens[i];
                        c->total += lens[i];
                        wmt_p32(&w, iov + 8 * i, a);
                        wmt_p32(&w, iov + 8 * i + 4, lens[i]);
                        for (u32 j = 0; j < lens[i]; j++) {
                                m[a + j] = c->kind == 1 ? out_byte(t, seq++) : 0x5c;
                        }
                        a += lens[i];
                }
                c->r_out = s->r != NULL ? s->r->out : 0;
                c->was_ready = c->kind == 0 ? readable(s) : writable(s);
                bool sk = s->type == SOCK && viasock;
                if (c->kind == 0) {
                        c->peek = sk && peek && s->rthr == (1u << t);
                        if (sk) {
                                wmt_call(&w, t, "sock_recv", s->fd, iov, niov, c->peek, b0 + 8, b0 + 16);
                        } else {
                                wmt_call(&w, t, "fd_read", s->fd, iov, niov, b0 + 8);
                        }
                } else if (sk) {
                        wmt_call(&w, t, "sock_send", s->fd, iov, niov, 0, b0 + 8);
                } else {
                        wmt_call(&w, t, "fd_write", s->fd, iov, niov, b0 + 8);
                }
                return true;
        }
}

void
run_stream(void)
{
        nthr = rndp(R_GEN, 1, 2) ? 1 : rndr(R_GEN, 2, 3);
        nst = rndr(R_GEN, 1, MAXST);
        seed0 = rnd(R_GEN);
        wmt_begin(&w, nthr, rndp(R_GEN, 1, 2));
        for (int i = 0; i < nst; i++) {
                struct st *s = &S[i];
                s->type = rndn(R_GEN, NSTYPE);
#if defined(TOYWASM_USE_USER_SCHED)
                if (s->type == TTY) {
                        s->type = SOCK; /* terminals are left blocking, which holds up the only host thread */
                }
#endif
                s->fd = 5 + i;
                s->key = (u32)rnd(R_GEN);
                u32 cap = rndp(R_GEN, 1, 3) ? rndr(R_GEN, 1, 16) : rndr(R_GEN, 16, 3000);
                bool in = s->type != PIPE_OUT, out = s->type != PIPE_IN;
                s->t_readable = NEVER;
                if (in) {
                        s->r = chan_new(cap);
                        s->supply = rndlog(R_GEN, 1, 4000);
                        s->rthr = rndp(R_GEN, 1, 5) ? (1u << nthr) - 1 : 1u << rndn(R_GEN, nthr);
                        s->reset = s->type == SOCK && rndp(R_GEN, 1, 6);
                }
                if (out) {
                        s->o = chan_new(cap);
                        s->wthr = rndp(R_GEN, 1, 3) ? (1u << nthr) - 1 : 1u << rndn(R_GEN, nthr);
                        s->close_after = rndp(R_GEN, 1, 8) ? rndlog(R_GEN, 1, 3000) : 0;
                }
                s->of = s->type == PIPE_IN ? of_pipe_r(s->r) : s->type == PIPE_OUT ? of_pipe_w(s->o) : s->type == SOCK ? of_sock(s->r, s->o) : of_tty(s->r, s->o);
                if (s->type == SOCK && rndp(R_GEN, 1, 3)) {
                        s->listen = of_listen();
                        s->lfd = s->fd;
                        s->of->refs++; /* the peer's */
                        sim_spawn("connector", connector, s, true);
                }
                w.e.hostfd[i].wasi = s->fd;
                w.e.hostfd[i].host = world_install(s->listen != NULL ? s->listen : s->of, -1);
                if (in) {
                        sim_spawn("feeder", feeder, s, true);
                }
                if (out) {
                        sim_spawn("drainer", drainer, s, true);
                }
        }
        w.e.nhostfd = nst;
        for (int t = 0; t < nthr; t++) {
                quota[t] = rndr(R_GEN, 3, 25);
        }
        while (sim_op_next() < 64u * nthr - 1) {
        }
#if defined(TOYWASM_USE_USER_SCHED)
        world_who = who;
#endif
        w.next = next;
        emb_interrupts(&w.e);
        int ret = wmt_run(&w);
        over = true;
        cfg.fault_on = false;
        if (ret != 0) {
                sim_violation("outcome", "the program ended with %d, trap %u", ret, w.e.trapid);
        }
        for (int i = 0; i < nst; i++) {
                struct st *s = &S[i];
                if (s->o == NULL) {
                        continue;
                }
                drain(s, 1 << 20);
                for (int t = 0; t < nthr; t++) {
                        if (s->dseq[t] != s->wseq[t]) {
                                sim_violation("lost", "thread %d was told that %llu bytes were written to the %s, which received %llu", t,
                                              (unsigned long long)s->wseq[t], tnames[s->type], (unsigned long long)s->dseq[t]);
                        }
                }
        }
        emb_teardown(&w.e);
        sim_sample("%d threads on %d streams: %llu bytes read, %llu written, %llu calls failed (%llu try again)\n", nthr, nst, (unsigned long long)nread,
                   (unsigned long long)nwritten, (unsigned long long)nerrs, (unsigned long long)nagain);
}
