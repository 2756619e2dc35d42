/* P18: host calls while other threads change their arguments in memory and grow the memory. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>

#include "wasiwrap.h"

void cfg_threads(void);

#define NV 8
#define IOV 64
#define STR 512
#define SUBS 1024
#define EVENTS 2048
#define DATA 8192
#define DLEN 5200
static struct wmt w;
static int nthr;
static u64 seed0;
static u32 kth[WMT_MAX], quota[WMT_MAX];
static u8 *snap[WMT_MAX];
static bool live[WMT_MAX];
static u32 dbase[WMT_MAX], cnt[WMT_MAX];
static struct ofile *sck;
static u64 ncalls, ngrow, nmut;

void
cfg_hostrace(void)
{
        cfg_threads();
        static const u32 p[] = {0, 0, 2000, 20000, 150000};
        cfg.prob[F_THREAD] = 0;
        cfg.prob[F_SHORT] = p[rndn(R_CFG, 5)];
        cfg.prob[F_EINTR] = p[rndn(R_CFG, 5)];
        cfg.prob[F_RANDOM] = p[rndn(R_CFG, 5)];
        cfg.prob[F_INTR] = rndp(R_CFG, 1, 3) ? 400000 : 0;
}

/* a change of an argument of thread t */
static void
change(int t, u32 i, u32 what, u32 *a, u32 *v)
{
        u32 b = WMT_BUF(t);
        u32 x = b + SUBS + 48 * i;
        switch (what) {
        case 0:
                *a = b + IOV + 8 * i;
                *v = dbase[t] + rndn(R_WORLD, 4096);
                break;
        case 1:
                *a = b + IOV + 8 * i + 4;
                *v = rndp(R_WORLD, 1, 4) ? 0 : rndn(R_WORLD, 1000);
                break;
        case 2:
                *a = x + 8;
                *v = rndp(R_WORLD, 1, 40) ? 3 : rndp(R_WORLD, 1, 3) ? 0 : 1 + rndn(R_WORLD, 2);
                break;
        case 3:
                *a = x + 16;
                *v = (u32[]){5, 6, 40, 0, 1}[rndn(R_WORLD, 5)];
                if (*v < 2) {
                        *v = 5;
                }
                break;
        case 4:
                *a = x;
                *v = (u32)rnd(R_WORLD);
                break;
        default:
                *a = b + STR;
                *v = (u8)"abs./x"[rndn(R_WORLD, 6)];
                break;
        }
}

static void
finish(int t)
{
        struct wmt_thr *h = &w.th[t];
        u32 b = WMT_BUF(t);
        u8 *m = wmt_mem(&w) + b;
        if (h->name[0] == '@') {
                ngrow += h->name[1] == 'g' && h->res != -1;
                return;
        }
        ncalls++;
        /* what no call was given */
        static const struct {
                u32 a, n;
        } keep[] = {{0, 8}, {24, 40}, {128, 384}, {520, 504}, {1024 + 48 * NV, 1024 - 48 * NV}, {EVENTS + 32 * NV, DATA - EVENTS - 32 * NV},
                    {DATA + DLEN, 65536 - DATA - DLEN}};
        for (size_t i = 0; i < sizeof(keep) / sizeof(keep[0]); i++) {
                u32 a = keep[i].a;
                if (memcmp(m + a, snap[t] + a, keep[i].n) != 0) {
                        u32 k = 0;
                        while (m[a + k] == snap[t][a + k]) {
                                k++;
                        }
                        sim_violation("stray-write", "%s changed guest memory at +%u, outside the areas it was given", h->name, a + k);
                }
        }
        u32 v;
        memcpy(&v, m + 8, 4);
        if (h->res == 0) {
                if (!strcmp(h->name, "poll_oneoff") && (v == 0 || v > cnt[t])) {
                        sim_violation("count", "poll_oneoff with %u subscriptions reports %u events", cnt[t], v);
                }
                if ((!strcmp(h->name, "fd_read") || !strcmp(h->name, "fd_write")) && v > cnt[t] * 1000) {
                        sim_violation("count", "%s reports %u bytes", h->name, v);
                }
        }
}

static bool
next(struct wmt *w_, int t)
{
        u32 b = WMT_BUF(t);
        if (live[t]) {
                finish(t);
                live[t] = false;
        }
        u8 junk[4096];
        while (chan_get(std_out, junk, sizeof(junk)) > 0 || chan_get(sck->wch, junk, sizeof(junk)) > 0) {
        }
        while (sck->rch->len < 20000) {
                chan_put(sck->rch, junk, sizeof(junk));
        }
        for (;;) {
                if (kth[t] == quota[t]) {
                        return false;
                }
                u32 k = kth[t]++;
                if (!sim_op_enabled(t * 64 + k)) {
                        continue;
                }
                sim_subseed(R_GEN, hash64(seed0, t * 64 + k));
                u32 what = rndn(R_GEN, 20), n = 1 + rndn(R_GEN, NV);
                bool far = rndp(R_GEN, 1, 5);
                sim_unsubseed(R_GEN);
                u64 msz;
                u8 *m = emb_mem(&w.e, &msz);
                live[t] = true;
                if (what < 2) {
                        wmt_call(&w, t, "@grow", 1);
                        return true;
                }
                u32 a, v;
                if (what < 6 && nthr > 1) {
                        u32 k = 1 + rndn(R_WORLD, 60);
                        for (u32 i = 0; i < k; i++) {
                                change(rndn(R_WORLD, nthr), rndn(R_WORLD, NV), rndn(R_WORLD, 6), &a, &v);
                                wmt_p32(&w, b + DATA + 8 * i, a);
                                wmt_p32(&w, b + DATA + 8 * i + 4, v);
                                nmut++;
                        }
                        wmt_call(&w, t, "@stores", b + DATA, k);
                        return true;
                }
                if (what < 6) {
                        what = 8 + what;
                }
                far &= msz > (u64)(1 + nthr) * WW_PAGE;
                dbase[t] = far ? (u32)msz - DLEN : b + DATA;
                cnt[t] = n;
                for (u32 i = 0; i < NV; i++) {
                        for (u32 j = 0; j < 6; j++) {
                                change(t, i, j, &a, &v);
                                wmt_p32(&w, a, v);
                        }
                        u32 x = b + SUBS + 48 * i;
                        wmt_p64(&w, x + 24, rndn(R_WORLD, 50) * MS);
                        wmt_p64(&w, x + 40, 0);
                }
                memcpy(snap[t], m + b, 65536);
                switch (what) {
                case 6:
                case 7:
                case 8:
                        wmt_call(&w, t, "fd_read", 5, b + IOV, n, b + 8);
                        break;
                case 9:
                case 10:
                        wmt_call(&w, t, "fd_write", far ? 5 : 1, b + IOV, n, b + 8);
                        break;
                case 11:
                case 12:
                case 13:
                        wmt_call(&w, t, "poll_oneoff", b + SUBS, b + EVENTS, n, b + 8);
                        break;
                case 14:
                        wmt_call(&w, t, "fd_pread", 6, b + IOV, n, 0, b + 8);
                        break;
                case 15:
                        wmt_call(&w, t, "random_get", dbase[t], 5000);
                        break;
                case 16:
                        wmt_call(&w, t, "path_filestat_get", 3, 0, b + STR, 1, dbase[t] & ~7u);
                        break;
                case 17:
                        wmt_call(&w, t, "path_readlink", 3, b + STR, 1, dbase[t], 1000, b + 8);
                        break;
                case 18:
                        wmt_call(&w, t, "fd_readdir", 3, dbase[t], 1000, 0, b + 8);
                        break;
                default:
                        wmt_call(&w, t, "sock_recv", 5, b + IOV, n, 0, b + 8, b + 16);
                        break;
                }
                return true;
        }
}

void
run_hostrace(void)
{
        nthr = rndr(R_GEN, 1, 4);
        seed0 = rnd(R_GEN);
        w.morepages = rndr(R_GEN, 1, 12);
        wmt_begin(&w, nthr, rndp(R_GEN, 1, 2));
        w_mkdir(W, "/d");
        world_add_file(W, "/d/a", "0123456789abcdef", 16);
        w_mkdir(W, "/d/b");
        w_symlink(W, "a", "/d/s");
        w.e.npreopen = 1;
        w.e.preopen[0] = "/d";
        struct ofile *f;
        if (w_open(W, "/d/a", O_RDWR, &f) != 0) {
                abort();
        }
        sck = of_sock(chan_new(1 << 15), chan_new(1 << 15));
        sck->refs++;
        w.e.hostfd[0].wasi = 5;
        w.e.hostfd[0].host = world_install(sck, -1);
        w.e.hostfd[1].wasi = 6;
        w.e.hostfd[1].host = world_install(f, -1);
        w.e.nhostfd = 2;
        for (int t = 0; t < nthr; t++) {
                quota[t] = rndr(R_GEN, 3, 25);
                dbase[t] = WMT_BUF(t) + DATA;
                snap[t] = malloc(65536);
        }
        while (sim_op_next() < 64u * nthr - 1) {
        }
        w.next = next;
        emb_interrupts(&w.e);
        int ret = wmt_run(&w);
        cfg.fault_on = false;
        if (ret != 0) {
                sim_violation("outcome", "the program ended with %d, trap %u %s", ret, w.e.trapid, w.e.trapmsg);
        }
        emb_teardown(&w.e);
        sim_sample("%d threads: %llu host calls, %llu growths, %llu changes of arguments\n", nthr, (unsigned long long)ncalls, (unsigned long long)ngrow,
                   (unsigned long long)nmut);
}
