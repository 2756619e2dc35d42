/* P17: directory listings by several threads, with any buffer sizes, against the simulated directory. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>

#include "wasiwrap.h"

void cfg_threads(void);

#define MAXENT 400
static struct wmt w;
enum { ST_OPEN, ST_LIST, ST_CLOSE, ST_END };
static struct lst {
        int st;
        u32 fd;
        bool own, opened, waiting;
        int rounds;
        /* the listing in progress */
        u64 cookie;
        u32 buflen, buf;
        bool seen[MAXENT];
        u32 nseen;
        int calls;
} L[WMT_MAX];
static u32 round_no, nwaiting, nrounds;
static u32 nerrs, nlists, seq;
static struct inode *dir;

void
cfg_dir(void)
{
        cfg_threads();
        static const u32 p[] = {0, 0, 500, 4000, 30000};
        cfg.prob[F_THREAD] = 0;
        cfg.prob[F_IOERR] = p[rndn(R_CFG, 5)];
}

static void
new_entry(void)
{
        char path[400];
        int n = snprintf(path, sizeof(path), "/d/x/%u", seq++);
        if (rndp(R_GEN, 1, 2)) {
                u32 l = rndp(R_GEN, 1, 5) ? 255 : rndr(R_GEN, 6, 255);
                while (n < (int)(5 + l)) {
                        path[n++] = (char)('a' + rndn(R_GEN, 26));
                }
                path[n] = 0;
        }
        switch (rndn(R_GEN, 4)) {
        case 0:
                w_mkdir(W, path);
                break;
        case 1:
                w_symlink(W, "nowhere", path);
                break;
        default:
                world_add_file(W, path, "x", 1);
                break;
        }
}

static void
mutate(void)
{
        u32 k = rndn(R_GEN, 6);
        for (u32 i = 0; i < k; i++) {
                if (dir->nents > 0 && rndp(R_GEN, 1, 2)) {
                        char path[400];
                        struct dent *d = &dir->ents[rndn(R_GEN, dir->nents)];
                        snprintf(path, sizeof(path), "/d/x/%s", d->name);
                        if (d->in->type == N_DIR) {
                                w_rmdir(W, path);
                        } else {
                                w_unlink(W, path);
                        }
                } else {
                        new_entry();
                }
        }
}

static void
list_begin(struct lst *l)
{
        memset(l->seen, 0, sizeof(l->seen));
        l->nseen = 0;
        l->cookie = 0;
        l->calls = 0;
}

static bool
round_over(void *vp)
{
        return round_no > *(u32 *)vp;
}
static bool
is_open(void *vp)
{
        return L[0].opened;
}

static void
barrier(void)
{
        u32 r = round_no;
        if (++nwaiting == (u32)w.n) {
                nwaiting = 0;
                round_no++;
                mutate();
                return;
        }
        sim_block(round_over, &r, NEVER, "next round");
}

/* the result of a listing call. true: the listing is complete */
static bool
parse(int t, struct lst *l)
{
        u32 n = wmt_u32(&w, l->buf - 8);
        u8 *m = wmt_mem(&w) + l->buf;
        if (n > l->buflen) {
                sim_violation("count", "a listing into %u bytes reports %u bytes", l->buflen, n);
        }
        u32 off = 0, got = 0, stop = rndp(R_GEN, 1, 4) ? 1 + rndn(R_GEN, 4) : ~0u;
        bool cut = false;
        while (n - off >= 24) {
                u64 next, ino;
                u32 nl;
                memcpy(&next, m + off, 8);
                memcpy(&ino, m + off + 8, 8);
                memcpy(&nl, m + off + 16, 4);
                u8 type = m[off + 20];
                if (nl > n - off - 24) {
                        break;
                }
                char name[260];
                if (nl > 255) {
                        sim_violation("entry", "a name of %u bytes", nl);
                }
                memcpy(name, m + off + 24, nl);
                name[nl] = 0;
                u32 idx;
                u64 wino;
                enum ntype wt = N_DIR;
                if (!strcmp(name, ".")) {
                        idx = 0;
                        wino = dir->ino;
                } else if (!strcmp(name, "..")) {
                        idx = 1;
                        wino = dir->parent->ino;
                } else {
                        u32 i;
                        for (i = 0; i < dir->nents && strcmp(dir->ents[i].name, name) != 0; i++) {
                        }
                        if (i == dir->nents) {
                                sim_violation("entry", "thread %d: a listing returned '%s', which is not in the directory", t, name);
                        }
                        idx = 2 + i;
                        wino = dir->ents[i].in->ino;
                        wt = dir->ents[i].in->type;
                }
                if (l->seen[idx]) {
                        sim_violation("duplicate", "thread %d: '%s' was returned twice in one listing", t, name);
                }
                static const u8 wtype[] = {4, 3, 7};
                if (ino != wino || type != wtype[wt]) {
                        sim_violation("entry", "thread %d: '%s' has inode %llu type %u, listed with inode %llu type %u", t, name, (unsigned long long)wino,
                                      wtype[wt], (unsigned long long)ino, type);
                }
                l->seen[idx] = true;
                l->nseen++;
                l->cookie = next;
                off += 24 + nl;
                if (++got == stop) {
                        cut = true;
                        break;
                }
        }
        if (cut) {
                PROBE("resumed-from-earlier-cookie");
                return false;
        }
        if (n < l->buflen) {
                if (off != n) {
                        sim_violation("entry", "thread %d: a listing that did not fill its buffer ends with a partial entry (%u of %u bytes)", t, off, n);
                }
                if (l->nseen != dir->nents + 2) {
                        sim_violation("missing", "thread %d: a listing ended after %u of %u entries", t, l->nseen, dir->nents + 2);
                }
                return true;
        }
        PROBE("buffer-filled");
        if (got == 0) {
                l->buflen = l->buflen < 24 ? rndr(R_GEN, l->buflen + 1, 300) : l->buflen + rndr(R_GEN, 1, 300);
        }
        return false;
}

static bool
err_ok(int res)
{
        for (int i = 0; i < world_ninj; i++) {
                if (ww_err_is(res, world_inj[i])) {
                        return true;
                }
        }
        return world_ninj >= 16;
}

static bool
next(struct wmt *w_, int t)
{
        struct lst *l = &L[t];
        u32 base = WMT_BUF(t);
        struct wmt_thr *h = &w.th[t];
        if (h->name == NULL) {
                l->own = t == 0 || rndp(R_GEN, 1, 3);
                if (!l->own) {
                        sim_block(is_open, NULL, NEVER, "shared descriptor");
                        l->fd = L[0].fd;
                        l->st = ST_LIST;
                }
        } else {
                if (h->res != 0) {
                        if (!err_ok(h->res)) {
                                sim_violation("error", "thread %d: %s failed with %d although the host call did not", t, h->name, h->res);
                        }
                        PROBE("call-failed");
                        if (++nerrs > 60) {
                                cfg.fault_on = false;
                        }
                }
                switch (l->st) {
                case ST_OPEN:
                        if (h->res == 0) {
                                l->fd = wmt_u32(&w, base + 8);
                                l->opened = true;
                                l->st = ST_LIST;
                        }
                        break;
                case ST_LIST:
                        if (h->res == 0 && parse(t, l)) {
                                nlists++;
                                l->rounds++;
                                barrier();
                                if ((u32)l->rounds == nrounds) {
                                        if (!l->own) {
                                                return false;
                                        }
                                        l->st = ST_CLOSE;
                                        break;
                                }
                                list_begin(l);
                        }
                        break;
                case ST_CLOSE:
                        return false;
                }
        }
        switch (l->st) {
        case ST_OPEN: {
                u32 p = base + 64;
                memcpy(wmt_mem(&w) + p, "x", 1);
                wmt_call(&w, t, "path_open", 3, 0, p, 1, 2, 1 << 14, 1 << 14, 0, base + 8);
                return true;
        }
        case ST_LIST:
                if (h->name == NULL || l->buflen == 0 || rndp(R_GEN, 1, 8)) {
                        static const u32 lim[] = {30, 100, 400, 4000, 30000};
                        l->buflen = rndr(R_GEN, 1, lim[rndn(R_GEN, 5)]);
                        l->buf = base + 1024 + rndn(R_GEN, 32) * 8 + rndn(R_GEN, 8);
                        l->buf = (l->buf + 7) & ~7u;
                }
                l->calls++;
                wmt_call(&w, t, "fd_readdir", l->fd, l->buf, l->buflen, l->cookie, l->buf - 8);
                return true;
        case ST_CLOSE:
                wmt_call(&w, t, "fd_close", l->fd);
                return true;
        }
        return false;
}

void
run_dir(void)
{
        int n = rndp(R_GEN, 1, 4) ? 1 : rndr(R_GEN, 2, 4);
        w_mkdir(W, "/d");
        w_mkdir(W, "/d/x");
        w_lookup(W, "/d/x", true, &dir);
        u32 ne = rndp(R_GEN, 1, 4) ? rndn(R_GEN, 4) : rndn(R_GEN, 40);
        for (u32 i = 0; i < ne; i++) {
                new_entry();
        }
        nrounds = rndr(R_GEN, 1, 4);
        wmt_begin(&w, n, rndp(R_GEN, 1, 2));
        w.next = next;
        w.e.preopen[0] = "/d";
        w.e.npreopen = 1;
        int before = world_open_fds();
        int ret = wmt_run(&w);
        cfg.fault_on = false;
        if (ret != 0) {
                sim_violation("outcome", "the listing program ended with %d, trap %u", ret, w.e.trapid);
        }
        for (int t = 0; t < n; t++) {
                if (!w.th[t].done) {
                        sim_violation("outcome", "thread %d did not finish", t);
                }
        }
        emb_teardown(&w.e);
        world_check_fds("after the listings", before);
        sim_sample("%d threads made %u listings of a directory with %u entries in %u rounds of changes, %u calls failed\n", n, nlists, dir->nents, nrounds, nerrs);
}
