/* P08: histories of descriptor operations by several threads are linearizable against a table. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>

#include "wasiwrap.h"

void cfg_threads(void);

#define MAXOPS 48
#define NF 16 /* descriptor numbers in the model */
#define OBJ_STDIN 20
#define OBJ_LISTEN 21
#define OBJ_PRE 23
#define OBJ_CONN 32
#define NCONN 60
enum { K_OPEN, K_CLOSE, K_RENUMBER, K_STAT, K_PREAD, K_PWRITE, K_READDIR, K_READ, K_ACCEPT, K_FDSTAT, K_POLL, K_PATH, K_NKIND };
static const char *const knames[] = {"open", "close", "renumber", "stat", "pread", "pwrite", "readdir", "read", "accept", "fdstat", "poll", "path"};
struct dop {
        int kind, thr;
        u32 a, b;
        u64 tb, te; /* order */
        int res;
        int obj; /* what the call saw or made, 0: nothing can be said */
        bool done;
};
static struct dop O[MAXOPS * 2];
static int nO;
static struct dop *cur_op[WMT_MAX];
static u32 kth[WMT_MAX], quota[WMT_MAX];
static struct wmt w;
static u64 seed0;
static struct inode *files[8];
static struct ofile *lst;
static u64 conns[NCONN];
static int nconn;
static bool over, limits, limited;
static u64 marks[2]; /* inodes in the directories */

void
cfg_fd(void)
{
        cfg_threads();
        static const u32 p[] = {0, 0, 0, 4000, 60000};
        cfg.prob[F_THREAD] = 0;
        cfg.prob[F_IOERR] = p[rndn(R_CFG, 5)];
        cfg.prob[F_EMFILE] = p[rndn(R_CFG, 5)];
        cfg.prob[F_EINTR] = p[rndn(R_CFG, 5)];
        cfg.prob[F_EAGAIN] = p[rndn(R_CFG, 5)];
        cfg.prob[F_INTR] = rndp(R_CFG, 1, 3) ? 400000 : 0;
}

/* supplies data and connections so that nothing blocks for ever */
static void
feeder(void *vp)
{
        while (!over) {
                if (limits && w.e.inst != NULL) {
                        /* now and then the embedder leaves no room for the table to grow */
                        bool on = rndp(R_WORLD, 1, 2);
                        limited = limited || on;
                        if (mem_context_setlimit(&w.e.wasim, on ? w.e.wasim.allocated + rndn(R_WORLD, 40) : SIZE_MAX)) {
                                limits = false;
                        }
                }
                if (std_in->len < 4) {
                        chan_put(std_in, "S", 1);
                }
                if (lst->npend < 2 && nconn < NCONN && lst->refs > 0) {
                        struct chan *r = chan_new(100), *o = chan_new(100);
                        u8 d[64];
                        memset(d, OBJ_CONN + nconn, sizeof(d));
                        chan_put(r, d, sizeof(d));
                        r->wclosed = true;
                        struct ofile *c = of_sock(r, o);
                        conns[nconn++] = c->id;
                        lst->pend[lst->npend++] = c;
                }
                sim_sleep(rndlog(R_WORLD, 1 * MS, 600 * MS));
        }
}

static void
finish(int t)
{
        struct dop *o = cur_op[t];
        struct wmt_thr *h = &w.th[t];
        u32 base = WMT_BUF(t);
        u8 *m = wmt_mem(&w) + base;
        o->res = h->res;
        o->tb = h->b;
        o->te = h->e;
        o->done = true;
        if (h->res != 0) {
                return;
        }
        switch (o->kind) {
        case K_ACCEPT:
                for (int i = 0; i < nconn; i++) {
                        if (conns[i] == world_accepted[sim_fiber_id()]) {
                                o->obj = OBJ_CONN + i;
                        }
                }
                /* fallthrough */
        case K_OPEN:
                o->b = wmt_u32(&w, base + 8);
                break;
        case K_STAT:
                for (int i = 0; i < 8; i++) {
                        if (files[i]->ino == wmt_u64(&w, base + 64 + 8)) {
                                o->obj = i + 1;
                        }
                }
                break;
        case K_PATH:
                for (int i = 0; i < 2; i++) {
                        if (marks[i] == wmt_u64(&w, base + 64 + 8)) {
                                o->obj = 7 + i;
                        }
                }
                break;
        case K_POLL:
                if (wmt_u32(&w, base + 8) >= 1 && wmt_u64(&w, base + 64) == 1 && (wmt_u32(&w, base + 64 + 8) & 0xffff) == 8) {
                        o->res = 8;
                }
                break;
        case K_PREAD:
        case K_READ:
                if (wmt_u32(&w, base + 8) == 1) {
                        o->obj = m[64] == 'S' ? OBJ_STDIN : m[64];
                }
                break;
        case K_READDIR: {
                u64 ino;
                memcpy(&ino, m + 64 + 8, 8);
                for (int i = 0; i < 8; i++) {
                        if (files[i]->ino == ino && wmt_u32(&w, base + 8) >= 25) {
                                o->obj = i + 1;
                        }
                }
                break;
        }
        }
}

static u32
somefd(void)
{
        u32 k = rndn(R_GEN, 16);
        if (rndp(R_GEN, 1, 24)) {
                static const u32 odd[] = {3, 3, 9, 10, 11, 12, 15, 16, 1000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
                return odd[rndn(R_GEN, sizeof(odd) / sizeof(odd[0]))];
        }
        return k == 0 ? 0 : k == 1 ? 1 : 4 + rndn(R_GEN, 5);
}

static bool
next(struct wmt *w_, int t)
{
        u32 base = WMT_BUF(t);
        if (cur_op[t] != NULL) {
                finish(t);
                cur_op[t] = NULL;
        }
        u32 k;
        do {
                if (kth[t] == quota[t]) {
                        return false;
                }
                k = kth[t]++;
        } while (!sim_op_enabled(t * 64 + k));
        struct dop *o = &O[nO++];
        cur_op[t] = o;
        o->thr = t;
        sim_subseed(R_GEN, hash64(seed0, t * 64 + k));
        static const u8 wt[] = {8, 6, 4, 3, 4, 3, 2, 3, 2, 1, 2, 2};
        u32 sum = 0;
        for (int i = 0; i < K_NKIND; i++) {
                sum += wt[i];
        }
        u32 r = rndn(R_GEN, sum);
        for (o->kind = 0; r >= wt[o->kind]; o->kind++) {
                r -= wt[o->kind];
        }
        if (k < 2) {
                o->kind = K_OPEN;
        }
        o->a = somefd();
        if (rndp(R_GEN, 1, 12)) {
                emb_nap(rndlog(R_GEN, 1000, 300 * MS));
        }
        u32 iov = base + 32, ret = base + 8, data = base + 64;
        wmt_p32(&w, iov, data);
        wmt_p32(&w, iov + 4, 1);
        switch (o->kind) {
        case K_OPEN: {
                u32 f = rndn(R_GEN, 8);
                o->obj = f + 1;
                char nm[8];
                snprintf(nm, sizeof(nm), "f%u", f);
                memcpy(wmt_mem(&w) + data, nm, 2);
                u64 rights = f < 6 ? (1 << 1 | 1 << 6 | 1 << 2) : 1 << 14;
                wmt_call(&w, t, "path_open", 3, 0, data, 2, f < 6 ? 0 : 2, rights, rights, 0, ret);
                break;
        }
        case K_CLOSE:
                wmt_call(&w, t, "fd_close", o->a);
                break;
        case K_RENUMBER:
                o->b = somefd();
                wmt_call(&w, t, "fd_renumber", o->a, o->b);
                break;
        case K_STAT:
                wmt_call(&w, t, "fd_filestat_get", o->a, data);
                break;
        case K_FDSTAT:
                wmt_call(&w, t, "fd_fdstat_get", o->a, data);
                break;
        case K_PREAD:
                wmt_call(&w, t, "fd_pread", o->a, iov, 1, 0, ret);
                break;
        case K_PWRITE:
                /* the file that receives the byte shows where the write went */
                wmt_mem(&w)[data] = 0xee;
                wmt_call(&w, t, "fd_pwrite", o->a, iov, 1, 16 + (o - O), ret);
                break;
        case K_READDIR:
                wmt_call(&w, t, "fd_readdir", o->a, data, 200, 0, ret);
                break;
        case K_READ:
                wmt_call(&w, t, "fd_read", o->a, iov, 1, ret);
                break;
        case K_POLL:
                memset(wmt_mem(&w) + base + 256, 0, 96);
                wmt_p64(&w, base + 256, 1);
                wmt_mem(&w)[base + 256 + 8] = 1;
                wmt_p32(&w, base + 256 + 16, o->a);
                wmt_p64(&w, base + 256 + 48, 2);
                wmt_p32(&w, base + 256 + 48 + 16, 1);
                wmt_p64(&w, base + 256 + 48 + 24, rndlog(R_GEN, 1, 100 * MS));
                wmt_call(&w, t, "poll_oneoff", base + 256, data, 2, ret);
                break;
        case K_PATH:
                memcpy(wmt_mem(&w) + base + 256, "mark", 4);
                wmt_call(&w, t, "path_filestat_get", o->a, 0, base + 256, 4, data);
                break;
        case K_ACCEPT:
                o->a = rndp(R_GEN, 3, 4) ? 1 : o->a;
                wmt_call(&w, t, "sock_accept", o->a, 0, ret);
                break;
        }
        sim_unsubseed(R_GEN);
        return true;
}

static bool
apply(struct dop *o, u8 *s)
{
        static u8 none;
        none = 0;
        u8 *a = o->a < NF ? &s[o->a] : &none, *b = o->b < NF ? &s[o->b] : &none;
        bool ebadf = o->res == 8;
        switch (o->kind) {
        case K_ACCEPT:
                /* its new descriptor is a separate step, as the call may have waited in between */
                return ebadf ? *a == 0 || *a == OBJ_PRE : *a != 0 && (o->res != 0 || *a == OBJ_LISTEN);
        case K_OPEN:
                if (o->res == 0) {
                        if (s[o->b] != 0) {
                                return false;
                        }
                        s[o->b] = o->obj;
                }
                return true;
        case K_CLOSE:
                if (ebadf) {
                        return *a == 0;
                }
                if (*a == 0) {
                        return false;
                }
                *a = 0;
                return true;
        case K_RENUMBER:
                if (ebadf) {
                        return *a == 0 || *b == 0;
                }
                if (*a == 0 || *b == 0) {
                        return false;
                }
                if (o->res == 0 && o->a != o->b) {
                        *b = *a;
                        *a = 0;
                }
                return true;
        default:
                if (ebadf) {
                        /* the host says the same of a descriptor that is not open for writing */
                        return *a == 0 || *a == OBJ_PRE || (o->kind == K_PWRITE && (*a == 7 || *a == 8));
                }
                return *a != 0 && (o->obj == 0 || *a == o->obj);
        }
}

static u64 nodes;
struct memo {
        u64 set, s0, s1;
};
static struct memo *memo;
#define MEMOSZ (1u << 16)
static u8 last[NF];

static int
lin(u64 done, const u8 *st)
{
        if (++nodes > 400000) {
                return -1;
        }
        u64 minend = NEVER;
        int left = 0;
        for (int i = 0; i < nO; i++) {
                if (!(done >> i & 1)) {
                        left++;
                        if (O[i].te < minend) {
                                minend = O[i].te;
                        }
                }
        }
        if (left == 0) {
                memcpy(last, st, NF);
                return 1;
        }
        u64 s0, s1;
        memcpy(&s0, st, 8);
        memcpy(&s1, st + 8, 8);
        struct memo *e = &memo[hash64(hash64(hash64(0, done), s0), s1) % MEMOSZ];
        if (e->set == ~done && e->s0 == s0 && e->s1 == s1) {
                return 0;
        }
        for (int i = 0; i < nO; i++) {
                if ((done >> i & 1) || O[i].tb > minend) {
                        continue;
                }
                u8 n[NF];
                memcpy(n, st, NF);
                if (!apply(&O[i], n)) {
                        continue;
                }
                int r = lin(done | 1ULL << i, n);
                if (r != 0) {
                        return r;
                }
        }
        e->set = ~done;
        e->s0 = s0;
        e->s1 = s1;
        return 0;
}

void
run_fd(void)
{
        int n = rndr(R_GEN, 2, 4);
        w_mkdir(W, "/d");
        for (int i = 0; i < 8; i++) {
                char p[16];
                snprintf(p, sizeof(p), "/d/f%d", i);
                u8 d[80];
                memset(d, i + 1, sizeof(d));
                if (i < 6) {
                        world_add_file(W, p, d, sizeof(d));
                } else {
                        w_mkdir(W, p);
                        struct inode *mk;
                        snprintf(p, sizeof(p), "/d/f%d/mark", i);
                        world_add_file(W, p, d, 1);
                        w_lookup(W, p, true, &mk);
                        marks[i - 6] = mk->ino;
                        p[5] = 0;
                }
                w_lookup(W, p, true, &files[i]);
        }
        of_release(W, W->fds[1]);
        lst = of_listen();
        world_install(lst, 1);
        seed0 = rnd(R_GEN);
        u32 total = 0;
        for (int t = 0; t < n; t++) {
                quota[t] = rndr(R_GEN, 3, MAXOPS / n - 2);
                total += quota[t];
        }
        while (sim_op_next() < 64u * n - 1) {
        }
        wmt_begin(&w, n, rndp(R_GEN, 1, 2));
        w.next = next;
        w.e.preopen[0] = "/d";
        w.e.npreopen = 1;
        emb_interrupts(&w.e);
        limits = rndp(R_GEN, 1, 4);
        int before = world_open_fds();
        sim_spawn("feeder", feeder, NULL, true);
        int ret = wmt_run(&w);
        over = true;
        cfg.fault_on = false;
        if (ret != 0) {
                sim_violation("outcome", "the program ended with %d, trap %u", ret, w.e.trapid);
        }
        if (w.e.inst != NULL && mem_context_setlimit(&w.e.wasim, SIZE_MAX)) {
                sim_violation("setup", "a limit could not be lifted");
        }
        int nerr = 0, overlap = 0;
        bool nodir = false;
        for (int i = 0; i < nO; i++) {
                nodir = nodir || ((O[i].kind == K_CLOSE || O[i].kind == K_RENUMBER) && (O[i].a == 3 || O[i].b == 3));
        }
        for (int i = 0; i < nO; i++) {
                struct dop *o = &O[i];
                if (!o->done) {
                        sim_violation("outcome", "operation %d did not finish", i);
                }
                nerr += o->res != 0;
                if ((o->kind == K_OPEN || o->kind == K_ACCEPT) && o->res == 0 && o->b >= NF) {
                        PROBE("many-descriptors");
                        emb_teardown(&w.e);
                        return;
                }
                if (o->kind == K_OPEN && o->res != 0 && !nodir && !(limited && o->res == 48) && shm->fault_count[F_IOERR] + shm->fault_count[F_EMFILE] + shm->fault_count[F_EINTR] == 0) {
                        sim_violation("open-failed", "opening an existing file failed with %d although no host call failed", o->res);
                }
                /* writes: find the file that has the byte */
                if (o->kind == K_PWRITE && o->res == 0) {
                        for (int f = 0; f < 6; f++) {
                                if (files[f]->size > 16u + i && files[f]->data[16 + i] == 0xee) {
                                        if (o->obj != 0) {
                                                sim_violation("write-twice", "one write went to two files");
                                        }
                                        o->obj = f + 1;
                                }
                        }
                        if (o->obj == 0) {
                                sim_violation("write-lost", "a write that reported success went to no file");
                        }
                }
                for (int j = 0; j < i; j++) {
                        overlap += O[j].tb < o->te && o->tb < O[j].te;
                }
        }
        int calls = nO;
        for (int i = 0; i < calls; i++) {
                if (O[i].kind == K_ACCEPT && O[i].res == 0 && nO < 64) {
                        O[nO] = O[i];
                        O[nO++].kind = K_OPEN;
                }
        }
        u8 st[NF] = {[0] = OBJ_STDIN, [1] = OBJ_LISTEN, [2] = 22, [3] = OBJ_PRE};
        memo = calloc(MEMOSZ, sizeof(*memo));
        int r = lin(0, st);
        free(memo);
        if (r < 0) {
                PROBE("linearizability-search-cut");
        } else if (r == 0) {
                char b[5000];
                int k = 0;
                for (int i = 0; i < nO && k < 4800; i++) {
                        k += snprintf(b + k, sizeof(b) - k, "\n  [%llu,%llu] thread %d %s(%u,%u) -> %d, file %d", (unsigned long long)O[i].tb,
                                      (unsigned long long)O[i].te, O[i].thr, knames[O[i].kind], O[i].a, O[i].b, O[i].res, O[i].obj);
                }
                sim_violation("not-linearizable", "no sequential table explains the results:%s", b);
        }
        /* stdio has a second host descriptor each, and the pre-opened directory none */
        int now = world_open_fds(), inuse = 0;
        for (int i = 0; i < NF; i++) {
                inuse += last[i] != 0 && last[i] != OBJ_PRE;
        }
        if (r > 0 && now != before + inuse) {
                sim_violation("fd-leak", "%d guest descriptors for host files are open, with %d host descriptors", inuse, now - before);
        }
        emb_teardown(&w.e);
        world_check_fds("after teardown", before);
        sim_sample("%d operations by %d threads on the descriptor table, %d failed, %d overlapping pairs, explained by a sequential order in %llu nodes\n", calls, n, nerr,
                   overlap, (unsigned long long)nodes);
}
