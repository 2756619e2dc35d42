#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>

#include "simfs.h"

#define MAXFILE ((u64)8 << 20)
struct world *W;
struct chan *std_in, *std_out, *std_err;
void (*world_cb)(const char *name);
u64 world_rt_jumps;
struct rtjump world_jump[64];
int world_ninj, world_inj[16];
const char *world_lastsys;
u64 world_accepted[MAXFIB];

static int
injected(int e)
{
        if (world_ninj < 16) {
                world_inj[world_ninj++] = e;
        }
        return e;
}

/* ------------------------------------------------------------------ inodes */
static struct inode *
in_new(struct world *w, enum ntype t)
{
        struct inode *in = calloc(1, sizeof(*in));
        in->type = t;
        in->ino = ++w->next_ino;
        in->nlink = 1;
        in->at = in->mt = sim_realtime();
        return in;
}

struct world *
world_new(void)
{
        struct world *w = calloc(1, sizeof(*w));
        w->next_ino = 100;
        w->root = in_new(w, N_DIR);
        w->root->parent = w->root;
        w->root->nlink = 2;
        w->quota = (u64)64 << 20;
        w->nextfd = 3;
        return w;
}

static struct dent *
dfind(struct inode *d, const char *name)
{
        for (u32 i = 0; i < d->nents; i++) {
                if (!strcmp(d->ents[i].name, name)) {
                        return &d->ents[i];
                }
        }
        return NULL;
}

static void
dadd(struct world *w, struct inode *d, const char *name, struct inode *in)
{
        /* entries are kept in cookie order, which is unrelated to creation order */
        u64 c = hash_bytes(hash64(d->ino, ++w->next_cookie_seed), name, strlen(name));
        c = (c & 0x3fffffffffffffULL) + 16;
        u32 i = 0;
        while (i < d->nents && d->ents[i].cookie < c) {
                i++;
        }
        d->ents = realloc(d->ents, (d->nents + 1) * sizeof(*d->ents));
        memmove(&d->ents[i + 1], &d->ents[i], (d->nents - i) * sizeof(*d->ents));
        d->ents[i].name = strdup(name);
        d->ents[i].in = in;
        d->ents[i].cookie = c;
        d->nents++;
        d->mt = sim_realtime();
        d->mt_explicit = false;
        if (in->type == N_DIR) {
                in->parent = d;
                d->nlink++;
        }
}

static void
ddel(struct inode *d, struct dent *e)
{
        if (e->in->type == N_DIR) {
                d->nlink--;
        }
        free(e->name);
        u32 i = e - d->ents;
        memmove(e, e + 1, (d->nents - i - 1) * sizeof(*e));
        d->nents--;
        d->mt = sim_realtime();
        d->mt_explicit = false;
}

static void
in_put(struct world *w, struct inode *in)
{
        if (in->nlink == 0 && in->opens == 0 && in->type == N_REG) {
                w->used -= in->size;
                free(in->data);
                in->data = NULL;
                in->size = in->cap = 0;
        }
}

#define WALK_MAX 40
/*
 * resolve path to (parent, last component); *in is NULL when the last component does not exist.
 * mustdir: trailing slash.
 */
static int
walk(struct world *w, struct inode *start, const char *path, bool follow, int depth, struct inode **parent, char *last, struct inode **in,
     bool *mustdir)
{
        struct inode *d = path[0] == '/' ? w->root : start;
        if (depth > WALK_MAX) {
                return -ELOOP;
        }
        if (path[0] == 0) {
                return -ENOENT;
        }
        if (strlen(path) > 4000) {
                return -ENAMETOOLONG;
        }
        *mustdir = false;
        const char *p = path;
        while (*p == '/') {
                p++;
        }
        if (*p == 0) {
                *parent = w->root;
                strcpy(last, ".");
                *in = w->root;
                *mustdir = true;
                return 0;
        }
        for (;;) {
                const char *e = p;
                while (*e != 0 && *e != '/') {
                        e++;
                }
                size_t n = e - p;
                if (n > 255) {
                        return -ENAMETOOLONG;
                }
                char name[256];
                memcpy(name, p, n);
                name[n] = 0;
                const char *q = e;
                while (*q == '/') {
                        q++;
                }
                bool islast = *q == 0;
                bool slash = islast && q != e;
                struct inode *next;
                if (d->type != N_DIR) {
                        return -ENOTDIR;
                }
                if (!strcmp(name, ".")) {
                        next = d;
                } else if (!strcmp(name, "..")) {
                        next = d->parent;
                } else {
                        struct dent *de = dfind(d, name);
                        next = de != NULL ? de->in : NULL;
                }
                if (next != NULL && next->type == N_LNK && (!islast || follow || slash)) {
                        struct inode *par, *tgt;
                        char l2[256];
                        bool md;
                        int r = walk(w, d, next->target, true, depth + 1, &par, l2, &tgt, &md);
                        if (r != 0) {
                                return r;
                        }
                        if (islast) {
                                *parent = par;
                                strcpy(last, l2);
                                *in = tgt;
                                *mustdir = slash || md;
                                if (tgt != NULL && *mustdir && tgt->type != N_DIR) {
                                        return -ENOTDIR;
                                }
                                return 0;
                        }
                        if (tgt == NULL) {
                                return -ENOENT;
                        }
                        next = tgt;
                }
                if (islast) {
                        *parent = d;
                        strcpy(last, name);
                        *in = next;
                        *mustdir = slash;
                        if (next != NULL && slash && next->type != N_DIR) {
                                return -ENOTDIR;
                        }
                        return 0;
                }
                if (next == NULL) {
                        return -ENOENT;
                }
                if (next->type != N_DIR) {
                        return -ENOTDIR;
                }
                d = next;
                p = q;
        }
}

int
w_lookup(struct world *w, const char *path, bool follow, struct inode **out)
{
        struct inode *par, *in;
        char last[256];
        bool md;
        int r = walk(w, w->root, path, follow, 0, &par, last, &in, &md);
        if (r != 0) {
                return r;
        }
        if (in == NULL) {
                return -ENOENT;
        }
        *out = in;
        return 0;
}

static struct ofile *
of_new(struct world *w)
{
        struct ofile *f = calloc(1, sizeof(*f));
        f->id = ++w->next_id;
        f->refs = 1;
        return f;
}

int
w_truncate(struct world *w, struct inode *in, u64 size)
{
        if (in->type != N_REG) {
                return -EINVAL;
        }
        if (size > MAXFILE) {
                return -EFBIG;
        }
        if (size > in->size && w->used + (size - in->size) > w->quota) {
                return -ENOSPC;
        }
        if (size > in->cap) {
                in->cap = size + size / 2;
                in->data = realloc(in->data, in->cap);
        }
        if (size > in->size) {
                memset(in->data + in->size, 0, size - in->size);
        }
        w->used += size;
        w->used -= in->size;
        in->size = size;
        in->mt = sim_realtime();
        in->mt_explicit = false;
        return 0;
}

int
w_open(struct world *w, const char *path, int flags, struct ofile **out)
{
        struct inode *par, *in;
        char last[256];
        bool md;
        bool creat = (flags & O_CREAT) != 0;
        bool excl = creat && (flags & O_EXCL);
        int acc = flags & O_ACCMODE;
        int r = walk(w, w->root, path, !(flags & O_NOFOLLOW) && !excl, 0, &par, last, &in, &md);
        if (r != 0) {
                return r;
        }
        if (in == NULL) {
                if (!creat) {
                        return -ENOENT;
                }
                if (md) {
                        return -EISDIR;
                }
                if (flags & O_DIRECTORY) {
                        return -EINVAL; /* recent Linux rejects O_CREAT|O_DIRECTORY */
                }
                in = in_new(w, N_REG);
                dadd(w, par, last, in);
        } else {
                if (excl) {
                        return -EEXIST;
                }
                if (in->type == N_LNK) {
                        return (flags & O_DIRECTORY) ? -ENOTDIR : -ELOOP;
                }
                if (creat && (flags & O_DIRECTORY)) {
                        return -EINVAL;
                }
                if (in->type == N_DIR) {
                        if (creat || acc != O_RDONLY || (flags & O_TRUNC)) {
                                return -EISDIR;
                        }
                } else if (flags & O_DIRECTORY) {
                        return -ENOTDIR;
                }
                if ((flags & O_TRUNC) && in->type == N_REG) {
                        w_truncate(w, in, 0);
                }
        }
        struct ofile *f = of_new(w);
        f->in = in;
        in->opens++;
        f->flags = flags & (O_ACCMODE | O_APPEND | O_NONBLOCK | O_SYNC | O_DSYNC);
        *out = f;
        return 0;
}

int
w_mkdir(struct world *w, const char *path)
{
        struct inode *par, *in;
        char last[256];
        bool md;
        int r = walk(w, w->root, path, false, 0, &par, last, &in, &md);
        if (r != 0) {
                return r == -ENOTDIR && in != NULL && 0 ? -EEXIST : r;
        }
        if (in != NULL) {
                return -EEXIST;
        }
        in = in_new(w, N_DIR);
        in->nlink = 2;
        dadd(w, par, last, in);
        return 0;
}

int
w_rmdir(struct world *w, const char *path)
{
        struct inode *par, *in;
        char last[256];
        bool md;
        int r = walk(w, w->root, path, false, 0, &par, last, &in, &md);
        if (r != 0) {
                return r;
        }
        if (in == NULL) {
                return -ENOENT;
        }
        if (!strcmp(last, ".")) {
                return -EINVAL;
        }
        if (!strcmp(last, "..")) {
                return -ENOTEMPTY;
        }
        if (in->type != N_DIR) {
                return -ENOTDIR;
        }
        if (in->nents != 0) {
                return -ENOTEMPTY;
        }
        ddel(par, dfind(par, last));
        in->nlink = 0;
        return 0;
}

int
w_unlink(struct world *w, const char *path)
{
        struct inode *par, *in;
        char last[256];
        bool md;
        int r = walk(w, w->root, path, false, 0, &par, last, &in, &md);
        if (r != 0) {
                return r;
        }
        if (in == NULL) {
                return -ENOENT;
        }
        if (in->type == N_DIR) {
                return -EISDIR;
        }
        if (md) {
                return -ENOTDIR;
        }
        ddel(par, dfind(par, last));
        in->nlink--;
        in_put(w, in);
        return 0;
}

int
w_link(struct world *w, const char *a, const char *b)
{
        struct inode *par, *in, *in2;
        char last[256];
        bool md;
        int r = walk(w, w->root, a, false, 0, &par, last, &in, &md);
        if (r != 0) {
                return r;
        }
        if (in == NULL) {
                return -ENOENT;
        }
        r = walk(w, w->root, b, false, 0, &par, last, &in2, &md);
        if (r != 0) {
                return r;
        }
        if (in2 != NULL) {
                return -EEXIST;
        }
        if (md) {
                return -ENOENT;
        }
        if (in->type == N_DIR) {
                return -EPERM;
        }
        dadd(w, par, last, in);
        in->nlink++;
        return 0;
}

int
w_symlink(struct world *w, const char *target, const char *path)
{
        struct inode *par, *in;
        char last[256];
        bool md;
        if (target[0] == 0) {
                return -ENOENT;
        }
        int r = walk(w, w->root, path, false, 0, &par, last, &in, &md);
        if (r != 0) {
                return r;
        }
        if (in != NULL) {
                return -EEXIST;
        }
        if (md) {
                return -ENOENT;
        }
        in = in_new(w, N_LNK);
        in->target = strdup(target);
        in->size = strlen(target);
        dadd(w, par, last, in);
        return 0;
}

int
w_readlink(struct world *w, const char *path, char *buf, size_t sz)
{
        struct inode *in;
        int r = w_lookup(w, path, false, &in);
        if (r != 0) {
                return r;
        }
        if (sz == 0 || in->type != N_LNK) {
                return -EINVAL;
        }
        size_t n = strlen(in->target);
        n = n < sz ? n : sz;
        memcpy(buf, in->target, n);
        return (int)n;
}

int
w_rename(struct world *w, const char *a, const char *b)
{
        struct inode *pa, *pb, *ia, *ib;
        char la[256], lb[256];
        bool ma, mb;
        int r = walk(w, w->root, a, false, 0, &pa, la, &ia, &ma);
        if (r != 0) {
                return r;
        }
        r = walk(w, w->root, b, false, 0, &pb, lb, &ib, &mb);
        if (r != 0) {
                return r;
        }
        if (!strcmp(la, ".") || !strcmp(la, "..") || !strcmp(lb, ".") || !strcmp(lb, "..")) {
                return -EBUSY;
        }
        if (ia == NULL) {
                return -ENOENT;
        }
        if (ia->type != N_DIR && mb) {
                return -ENOTDIR;
        }
        if (ia->type == N_DIR) {
                for (struct inode *d = pb;; d = d->parent) {
                        if (d == ia) {
                                return -EINVAL;
                        }
                        if (d == w->root) {
                                break;
                        }
                }
        }
        if (ib == ia) {
                return 0;
        }
        if (ib != NULL) {
                if (ia->type == N_DIR && ib->type != N_DIR) {
                        return -ENOTDIR;
                }
                if (ia->type != N_DIR && ib->type == N_DIR) {
                        return -EISDIR;
                }
                if (ib->type == N_DIR) {
                        for (struct inode *d = pa;; d = d->parent) {
                                if (d == ib) {
                                        return -ENOTEMPTY;
                                }
                                if (d == w->root) {
                                        break;
                                }
                        }
                        if (ib->nents != 0) {
                                return -ENOTEMPTY;
                        }
                        ddel(pb, dfind(pb, lb));
                        ib->nlink = 0;
                } else {
                        ddel(pb, dfind(pb, lb));
                        ib->nlink--;
                        in_put(w, ib);
                }
        }
        ddel(pa, dfind(pa, la));
        dadd(w, pb, lb, ia);
        return 0;
}

void
w_stat(struct inode *in, struct stat *st)
{
        memset(st, 0, sizeof(*st));
        st->st_dev = 7;
        st->st_ino = in->ino;
        st->st_nlink = in->nlink;
        static const mode_t m[] = {S_IFREG | 0644, S_IFDIR | 0755, S_IFLNK | 0777, S_IFIFO | 0600, S_IFSOCK | 0777, S_IFCHR | 0620};
        st->st_mode = m[in->type];
        st->st_size = in->type == N_DIR ? 4096 : (off_t)in->size;
        st->st_blksize = 4096;
        st->st_atim.tv_sec = in->at / SEC;
        st->st_atim.tv_nsec = in->at % SEC;
        st->st_mtim.tv_sec = in->mt / SEC;
        st->st_mtim.tv_nsec = in->mt % SEC;
        st->st_ctim = st->st_mtim;
}

ssize_t
of_read(struct world *w, struct ofile *f, void *buf, size_t n, i64 off)
{
        if ((f->flags & O_ACCMODE) == O_WRONLY) {
                return -EBADF;
        }
        if (f->in->type == N_DIR) {
                return -EISDIR;
        }
        u64 o = off >= 0 ? (u64)off : f->off;
        size_t av = o < f->in->size ? f->in->size - o : 0;
        if (n > av) {
                n = av;
        }
        if (n > 0) {
                memcpy(buf, f->in->data + o, n);
        }
        if (off < 0) {
                f->off += n;
        }
        return n;
}

ssize_t
of_write(struct world *w, struct ofile *f, const void *buf, size_t n, i64 off)
{
        if ((f->flags & O_ACCMODE) == O_RDONLY) {
                return -EBADF;
        }
        struct inode *in = f->in;
        if (in->type != N_REG) {
                return -EINVAL;
        }
        u64 o = off >= 0 ? (u64)off : f->off;
        if (f->flags & O_APPEND) {
                o = in->size;
        }
        if (n == 0) {
                return 0;
        }
        if (o >= MAXFILE) {
                return -EFBIG;
        }
        if (o + n > MAXFILE) {
                n = MAXFILE - o;
        }
        if (o + n > in->size) {
                u64 grow = o + n - in->size;
                if (w->used + grow > w->quota) {
                        u64 room = w->quota > w->used ? w->quota - w->used : 0;
                        if (o + 1 > in->size + room) {
                                return -ENOSPC;
                        }
                        n = in->size + room - o;
                }
                u64 end = o + n;
                if (end > in->size) {
                        int r = w_truncate(w, in, end);
                        if (r != 0) {
                                return r;
                        }
                }
        }
        memcpy(in->data + o, buf, n);
        in->mt = sim_realtime();
        in->mt_explicit = false;
        if (off < 0) {
                f->off = o + n;
        }
        return n;
}

i64
of_seek(struct ofile *f, i64 off, int whence)
{
        if (f->in == NULL) {
                return -ESPIPE;
        }
        __int128 base;
        switch (whence) {
        case SEEK_SET:
                base = 0;
                break;
        case SEEK_CUR:
                base = f->off;
                break;
        case SEEK_END:
                base = f->in->size;
                break;
        default:
                return -EINVAL;
        }
        base += off;
        if (base < 0) {
                return -EINVAL;
        }
        if (base > INT64_MAX) {
                return -EOVERFLOW;
        }
        f->off = (u64)base;
        return (i64)base;
}

void
of_release(struct world *w, struct ofile *f)
{
        if (--f->refs > 0) {
                return;
        }
        if (f->in != NULL) {
                f->in->opens--;
                in_put(w, f->in);
        }
        if (f->rch != NULL) {
                f->rch->rclosed = true;
        }
        if (f->wch != NULL) {
                f->wch->wclosed = true;
        }
        for (int i = 0; i < f->npend; i++) {
                of_release(w, f->pend[i]);
        }
        free(f);
}

void
world_add_file(struct world *w, const char *path, const void *data, size_t n)
{
        struct ofile *f;
        if (w_open(w, path, O_CREAT | O_WRONLY | O_TRUNC, &f) != 0) {
                fprintf(stderr, "world_add_file %s\n", path);
                abort();
        }
        of_write(w, f, data, n, 0);
        of_release(w, f);
}

u8 *
world_file(struct world *w, const char *path, size_t *n)
{
        struct inode *in;
        if (w_lookup(w, path, true, &in) != 0 || in->type != N_REG) {
                return NULL;
        }
        *n = in->size;
        return in->data;
}

static u64
in_hash(struct inode *in, u64 h, int depth)
{
        h = hash64(h, in->type);
        h = hash64(h, in->nlink);
        if (in->type == N_REG) {
                h = hash_bytes(h, in->data, in->size);
        } else if (in->type == N_LNK) {
                h = hash_bytes(h, in->target, in->size);
        } else if (in->type == N_DIR) {
                u64 s = 0;
                for (u32 i = 0; i < in->nents; i++) {
                        s += in_hash(in->ents[i].in, hash_bytes(1, in->ents[i].name, strlen(in->ents[i].name)), depth + 1);
                }
                h = hash64(h, s);
        }
        return h;
}

u64
world_hash(struct world *w)
{
        return in_hash(w->root, 7, 0);
}

static bool
in_equal(struct inode *a, struct inode *b, const char *path, char *why, size_t sz)
{
        if (a->type != b->type) {
                snprintf(why, sz, "%s: type %d vs %d", path, a->type, b->type);
                return false;
        }
        if (a->nlink != b->nlink) {
                snprintf(why, sz, "%s: link count %u vs %u", path, a->nlink, b->nlink);
                return false;
        }
        if (b->mt_explicit && (!a->mt_explicit || a->mt != b->mt)) {
                snprintf(why, sz, "%s: mtime %llu vs %llu", path, (unsigned long long)a->mt, (unsigned long long)b->mt);
                return false;
        }
        if (b->at_explicit && (!a->at_explicit || a->at != b->at)) {
                snprintf(why, sz, "%s: atime %llu vs %llu", path, (unsigned long long)a->at, (unsigned long long)b->at);
                return false;
        }
        if (a->type == N_REG) {
                if (a->size != b->size) {
                        snprintf(why, sz, "%s: size %zu vs %zu", path, a->size, b->size);
                        return false;
                }
                for (size_t i = 0; i < a->size; i++) {
                        if (a->data[i] != b->data[i]) {
                                snprintf(why, sz, "%s: contents differ at offset %zu", path, i);
                                return false;
                        }
                }
        } else if (a->type == N_LNK) {
                if (strcmp(a->target, b->target)) {
                        snprintf(why, sz, "%s: link target %.100s vs %.100s", path, a->target, b->target);
                        return false;
                }
        } else if (a->type == N_DIR) {
                for (u32 i = 0; i < a->nents; i++) {
                        char p2[1000];
                        snprintf(p2, sizeof(p2), "%s/%s", path, a->ents[i].name);
                        struct dent *e = dfind(b, a->ents[i].name);
                        if (e == NULL) {
                                snprintf(why, sz, "%s: should not exist", p2);
                                return false;
                        }
                        if (!in_equal(a->ents[i].in, e->in, p2, why, sz)) {
                                return false;
                        }
                }
                for (u32 i = 0; i < b->nents; i++) {
                        if (dfind(a, b->ents[i].name) == NULL) {
                                snprintf(why, sz, "%s/%s: missing", path, b->ents[i].name);
                                return false;
                        }
                }
        }
        return true;
}

/* a: actual, b: expected */
bool
world_equal(struct world *a, struct world *b, char *why, size_t sz)
{
        return in_equal(a->root, b->root, "", why, sz);
}

/* ------------------------------------------------------------------ channels */
struct chan *
chan_new(size_t cap)
{
        struct chan *c = calloc(1, sizeof(*c));
        c->cap = cap;
        c->buf = malloc(cap);
        return c;
}

size_t
chan_put(struct chan *c, const void *p, size_t n)
{
        size_t i;
        for (i = 0; i < n && c->len < c->cap; i++) {
                c->buf[(c->head + c->len) % c->cap] = ((const u8 *)p)[i];
                c->len++;
        }
        c->in += i;
        return i;
}

size_t
chan_peek(struct chan *c, void *p, size_t n)
{
        size_t i;
        for (i = 0; i < n && i < c->len; i++) {
                ((u8 *)p)[i] = c->buf[(c->head + i) % c->cap];
        }
        return i;
}

size_t
chan_get(struct chan *c, void *p, size_t n)
{
        size_t i = chan_peek(c, p, n);
        c->head = (c->head + i) % c->cap;
        c->len -= i;
        c->out += i;
        return i;
}

struct ofile *
of_pipe_r(struct chan *c)
{
        struct ofile *f = of_new(W);
        f->flags = O_RDONLY;
        f->rch = c;
        return f;
}

struct ofile *
of_pipe_w(struct chan *c)
{
        struct ofile *f = of_new(W);
        f->flags = O_WRONLY;
        f->wch = c;
        return f;
}

struct ofile *
of_tty(struct chan *r, struct chan *w)
{
        struct ofile *f = of_new(W);
        f->flags = O_RDWR;
        f->is_tty = true;
        f->rch = r;
        f->wch = w;
        return f;
}

struct ofile *
of_listen(void)
{
        struct ofile *f = of_new(W);
        f->flags = O_RDWR;
        f->is_sock = f->is_listen = true;
        return f;
}

struct ofile *
of_sock(struct chan *r, struct chan *w)
{
        struct ofile *f = of_new(W);
        f->flags = O_RDWR;
        f->is_sock = true;
        f->rch = r;
        f->wch = w;
        return f;
}

/* ------------------------------------------------------------------ descriptors */
int
world_install(struct ofile *f, int fd)
{
        if (fd < 0) {
                /* descriptor numbers are not reused, so a stale number is always noticed */
                fd = W->nextfd++;
                if (fd >= MAXFD) {
                        sim_violation("sim-limit", "descriptor table exhausted");
                }
        }
        W->fds[fd] = f;
        return fd;
}

int
world_open_fds(void)
{
        int n = 0;
        for (int i = 0; i < MAXFD; i++) {
                n += W->fds[i] != NULL;
        }
        return n;
}

void
world_check_fds(const char *where, int expected)
{
        int n = world_open_fds();
        if (n != expected) {
                sim_violation("fd-leak", "%d host descriptors open %s, expected %d", n, where, expected);
        }
        if (W->opendirs != 0) {
                sim_violation("fd-leak", "%d directory streams open %s", W->opendirs, where);
        }
}

void
world_check_released(void)
{
        for (int i = 0; i < MAXFD; i++) {
                if (W->taken[i]) {
                        sim_violation("fd-leak", "host descriptor %d is still open in the end", i);
                }
        }
        if (W->opendirs != 0) {
                sim_violation("fd-leak", "%d directory streams are still open in the end", W->opendirs);
        }
}
static int
taken(int fd)
{
        W->taken[fd] = true;
        return fd;
}

static struct ofile *
getf(int fd, const char *call)
{
        if (fd < 0 || fd >= MAXFD || W->fds[fd] == NULL) {
                sim_violation("host-fd-misuse", "%s() on host descriptor %d, which is not open", call, fd);
        }
        return W->fds[fd];
}

static void
sysenter(const char *name)
{
        shm->nsys++;
        world_lastsys = name;
        sim_advance(cfg.syscall_ns);
        if (world_cb != NULL) {
                world_cb(name);
        }
        sim_sync_point();
        sim_log("sys %s", name);
}

static int
fail(int e)
{
        errno = e;
        sim_trace(0xe, e, 0);
        return -1;
}

static int
rr(int r)
{
        if (r < 0) {
                return fail(-r);
        }
        return r;
}

static const int path_errs[] = {EACCES, EIO, ENOSPC, EPERM, ELOOP, ENOMEM, EROFS};
static const int fd_errs[] = {EIO, ENOSPC, EDQUOT, EFBIG};
#define INJ(k, list) \
        do { \
                u32 v_ = sim_fault(k); \
                if (v_ != 0) \
                        return fail(injected((list)[(v_ >> 3) % (sizeof(list) / sizeof((list)[0]))])); \
        } while (0)
static const int emf[] = {EMFILE, ENFILE};
static const int eio[] = {EIO};

int
sim_open(const char *path, int flags, ...)
{
        struct ofile *f;
        sysenter("open");
        INJ(F_IOERR, path_errs);
        INJ(F_EMFILE, emf);
        int r = w_open(W, path, flags, &f);
        if (r != 0) {
                return fail(-r);
        }
        int fd = taken(world_install(f, -1));
        sim_log("open %s flags %x -> %d", path, flags, fd);
        return fd;
}

int
sim_close(int fd)
{
        sysenter("close");
        struct ofile *f = getf(fd, "close");
        if (f->inuse != 0 && f->refs == 1) {
                sim_violation("host-fd-misuse", "close() of host descriptor %d while another thread is using it", fd);
        }
        sim_log("close %d", fd);
        W->fds[fd] = NULL;
        W->taken[fd] = false;
        of_release(W, f);
        u32 v = sim_fault(F_IOERR);
        if (v != 0) {
                return fail(injected(EIO)); /* the descriptor is closed nevertheless, as on Linux */
        }
        return 0;
}

int
sim_dup(int fd)
{
        sysenter("dup");
        struct ofile *f = getf(fd, "dup");
        INJ(F_EMFILE, emf);
        f->refs++;
        return taken(world_install(f, -1));
}

int
sim_dup2(int a, int b)
{
        sysenter("dup2");
        struct ofile *f = getf(a, "dup2");
        if (a == b) {
                return b;
        }
        f->refs++;
        if (W->fds[b] != NULL) {
                of_release(W, W->fds[b]);
        }
        W->fds[b] = f;
        return b;
}

int
sim_fcntl(int fd, int cmd, ...)
{
        va_list ap;
        va_start(ap, cmd);
        long arg = va_arg(ap, long);
        va_end(ap);
        sysenter("fcntl");
        struct ofile *f = getf(fd, "fcntl");
        switch (cmd) {
        case F_GETFL:
                return f->flags;
        case F_SETFL:
                INJ(F_IOERR, eio);
                f->flags = (f->flags & (O_ACCMODE | O_SYNC | O_DSYNC)) | ((int)arg & (O_APPEND | O_NONBLOCK));
                return 0;
        case F_GETFD:
        case F_SETFD:
                return 0;
        }
        return fail(EINVAL);
}

int
sim_fstat(int fd, struct stat *st)
{
        sysenter("fstat");
        struct ofile *f = getf(fd, "fstat");
        INJ(F_IOERR, eio);
        if (f->in != NULL) {
                w_stat(f->in, st);
        } else {
                memset(st, 0, sizeof(*st));
                st->st_mode = f->is_sock ? S_IFSOCK | 0777 : f->is_tty ? S_IFCHR | 0620 : S_IFIFO | 0600;
                st->st_ino = f->id;
                st->st_nlink = 1;
        }
        return 0;
}

#define PATHOP(name, args, call) \
        int sim_##name args \
        { \
                sysenter(#name); \
                INJ(F_IOERR, path_errs); \
                return rr(call); \
        }
PATHOP(mkdir, (const char *p, mode_t m), w_mkdir(W, p))
PATHOP(rmdir, (const char *p), w_rmdir(W, p))
PATHOP(unlink, (const char *p), w_unlink(W, p))
PATHOP(rename, (const char *a, const char *b), w_rename(W, a, b))
PATHOP(link, (const char *a, const char *b), w_link(W, a, b))
PATHOP(symlink, (const char *a, const char *b), w_symlink(W, a, b))

ssize_t
sim_readlink(const char *p, char *buf, size_t sz)
{
        sysenter("readlink");
        INJ(F_IOERR, path_errs);
        return rr(w_readlink(W, p, buf, sz));
}

static int
stat_common(const char *p, bool follow, struct stat *st)
{
        INJ(F_IOERR, path_errs);
        struct inode *in;
        int r = w_lookup(W, p, follow, &in);
        if (r != 0) {
                return fail(-r);
        }
        w_stat(in, st);
        return 0;
}

int
sim_stat(const char *p, struct stat *st)
{
        sysenter("stat");
        return stat_common(p, true, st);
}

int
sim_lstat(const char *p, struct stat *st)
{
        sysenter("lstat");
        return stat_common(p, false, st);
}

int
sim_access(const char *p, int mode)
{
        struct stat st;
        sysenter("access");
        return stat_common(p, true, &st);
}

static int
set_times(struct inode *in, const struct timeval *tv)
{
        if (tv == NULL) {
                in->at = in->mt = sim_realtime();
                in->at_explicit = in->mt_explicit = false;
        } else {
                if (tv[0].tv_usec < 0 || tv[0].tv_usec > 999999 || tv[1].tv_usec < 0 || tv[1].tv_usec > 999999) {
                        return fail(EINVAL);
                }
                in->at = (u64)tv[0].tv_sec * SEC + tv[0].tv_usec * 1000;
                in->mt = (u64)tv[1].tv_sec * SEC + tv[1].tv_usec * 1000;
                in->at_explicit = in->mt_explicit = true;
        }
        return 0;
}

int
sim_utimes(const char *p, const struct timeval *tv)
{
        sysenter("utimes");
        INJ(F_IOERR, path_errs);
        struct inode *in;
        int r = w_lookup(W, p, true, &in);
        return r != 0 ? fail(-r) : set_times(in, tv);
}

int
sim_lutimes(const char *p, const struct timeval *tv)
{
        sysenter("lutimes");
        INJ(F_IOERR, path_errs);
        struct inode *in;
        int r = w_lookup(W, p, false, &in);
        return r != 0 ? fail(-r) : set_times(in, tv);
}

int
sim_futimes(int fd, const struct timeval *tv)
{
        sysenter("futimes");
        struct ofile *f = getf(fd, "futimes");
        INJ(F_IOERR, eio);
        return f->in == NULL ? 0 : set_times(f->in, tv);
}

static int
set_times_ts(struct inode *in, const struct timespec *ts)
{
        u64 now = sim_realtime();
        for (int i = 0; i < 2; i++) {
                u64 *t = i == 0 ? &in->at : &in->mt;
                bool *ex = i == 0 ? &in->at_explicit : &in->mt_explicit;
                if (ts == NULL || ts[i].tv_nsec == UTIME_NOW) {
                        *t = now;
                        *ex = false;
                } else if (ts[i].tv_nsec != UTIME_OMIT) {
                        *t = (u64)ts[i].tv_sec * SEC + ts[i].tv_nsec;
                        *ex = true;
                }
        }
        return 0;
}

int
sim_utimensat(int dfd, const char *p, const struct timespec *ts, int flags)
{
        sysenter("utimensat");
        INJ(F_IOERR, path_errs);
        struct inode *in;
        int r = w_lookup(W, p, !(flags & AT_SYMLINK_NOFOLLOW), &in);
        return r != 0 ? fail(-r) : set_times_ts(in, ts);
}

int
sim_futimens(int fd, const struct timespec *ts)
{
        sysenter("futimens");
        struct ofile *f = getf(fd, "futimens");
        INJ(F_IOERR, eio);
        return f->in == NULL ? 0 : set_times_ts(f->in, ts);
}

int
sim_ftruncate(int fd, off_t len)
{
        sysenter("ftruncate");
        struct ofile *f = getf(fd, "ftruncate");
        INJ(F_IOERR, fd_errs);
        if (len < 0 || f->in == NULL || f->in->type != N_REG || (f->flags & O_ACCMODE) == O_RDONLY) {
                return fail(EINVAL);
        }
        return rr(w_truncate(W, f->in, len));
}

int
sim_posix_fallocate(int fd, off_t off, off_t len)
{
        sysenter("posix_fallocate");
        struct ofile *f = getf(fd, "posix_fallocate");
        u32 v = sim_fault(F_IOERR);
        if (v != 0) {
                return injected(fd_errs[(v >> 3) % 4]);
        }
        if (off < 0 || len <= 0) {
                return EINVAL;
        }
        if (f->in == NULL) {
                return ESPIPE;
        }
        if ((f->flags & O_ACCMODE) == O_RDONLY) {
                return EBADF;
        }
        if (f->in->type != N_REG) {
                return ENODEV;
        }
        if ((u64)off + len > MAXFILE) {
                return EFBIG;
        }
        if ((u64)off + len > f->in->size) {
                return -w_truncate(W, f->in, off + len);
        }
        return 0;
}

off_t
sim_lseek(int fd, off_t off, int whence)
{
        sysenter("lseek");
        struct ofile *f = getf(fd, "lseek");
        INJ(F_IOERR, eio);
        i64 r = of_seek(f, off, whence);
        if (r < 0) {
                return fail((int)-r);
        }
        return r;
}

u64 world_synced_ino; /* what was made durable last */
int world_synced;      /* 1: the data, 2: everything */
int
sim_fsync(int fd)
{
        sysenter("fsync");
        struct ofile *f = getf(fd, "fsync");
        INJ(F_IOERR, eio);
        if (f->in == NULL) {
                return fail(EINVAL);
        }
        world_synced_ino = f->in->ino;
        world_synced = 2;
        return 0;
}

int
sim_fdatasync(int fd)
{
        sysenter("fdatasync");
        struct ofile *f = getf(fd, "fdatasync");
        INJ(F_IOERR, eio);
        if (f->in == NULL) {
                return fail(EINVAL);
        }
        world_synced_ino = f->in->ino;
        world_synced = 1;
        return 0;
}

/* ------------------------------------------------------------------ data transfer */
static bool
ch_readable(struct ofile *f)
{
        return f->rch->len > 0 || f->rch->wclosed || f->shut_rd || f->pending_err != 0;
}
static bool
ch_writable(struct ofile *f)
{
        return f->wch->len < f->wch->cap || f->wch->rclosed || f->shut_wr || f->pending_err != 0;
}
static bool
p_readable(void *vp)
{
        return ch_readable(vp);
}
static bool
p_writable(void *vp)
{
        return ch_writable(vp);
}

/* wait for readiness if the description is blocking */
static int
chwait(struct ofile *f, bool wr, bool dontwait)
{
        bool (*pred)(void *) = wr ? p_writable : p_readable;
        if (!pred(f)) {
                if ((f->flags & O_NONBLOCK) || dontwait) {
                        return EAGAIN;
                }
                PROBE("blocking-host-io");
                u32 v = sim_fault(F_EINTR);
                if (v != 0) {
                        return injected(EINTR);
                }
                sim_block(pred, f, NEVER, wr ? "write" : "read");
        } else if ((f->flags & O_NONBLOCK) && !f->is_tty && sim_fault(F_EAGAIN) != 0) {
                return EAGAIN;
        }
        if (f->pending_err != 0) {
                int e = f->pending_err;
                f->pending_err = 0;
                return e;
        }
        return 0;
}

static size_t
shorten(size_t n)
{
        if (n > 1) {
                u32 v = sim_fault(F_SHORT);
                if (v != 0) {
                        return 1 + (v >> 1) % (n - 1);
                }
        }
        return n;
}

static size_t
iovlen(const struct iovec *iov, int cnt)
{
        size_t n = 0;
        for (int i = 0; i < cnt; i++) {
                n += iov[i].iov_len;
        }
        return n;
}

struct xfer world_xfer[MAXFIB];
int (*world_who)(const void *buf);
static void
xfer(const struct iovec *iov, int cnt, struct chan *c, u64 pos, size_t n)
{
        int who = sim_fiber_id();
        for (int i = 0; i < cnt && world_who != NULL; i++) {
                if (iov[i].iov_len > 0) {
                        who = world_who(iov[i].iov_base);
                        break;
                }
        }
        struct xfer *x = &world_xfer[who];
        if (n == 0) {
                return;
        }
        if (x->n == 0) {
                x->c = c;
                x->pos = pos;
        } else if (x->c != c || x->pos + x->n != pos) {
                x->gap = true;
        }
        x->n += n;
}

static ssize_t
do_readv(int fd, const struct iovec *iov, int cnt, i64 off, const char *name, bool peek, bool dontwait)
{
        sysenter(name);
        struct ofile *f = getf(fd, name);
        if (cnt < 0 || cnt > 1024) {
                return fail(EINVAL);
        }
        if (off >= 0 && f->in == NULL) {
                return fail(ESPIPE);
        }
        size_t want = iovlen(iov, cnt);
        INJ(F_IOERR, eio);
        ssize_t total = 0;
        if (f->in != NULL) {
                if (f->in->type == N_DIR) {
                        return fail(EISDIR);
                }
                size_t left = shorten(want);
                for (int i = 0; i < cnt && left > 0; i++) {
                        size_t n = iov[i].iov_len < left ? iov[i].iov_len : left;
                        ssize_t r = of_read(W, f, iov[i].iov_base, n, off >= 0 ? off + total : -1);
                        if (r < 0) {
                                return fail((int)-r);
                        }
                        total += r;
                        left -= r;
                        if ((size_t)r < n) {
                                break;
                        }
                }
                if (want == 0 && (f->flags & O_ACCMODE) == O_WRONLY) {
                        return fail(EBADF);
                }
                return total;
        }
        if (f->is_listen) {
                return fail(ENOTCONN);
        }
        if (f->rch == NULL) {
                return fail(EBADF);
        }
        if (want == 0) {
                return 0;
        }
        f->inuse++;
        int e = chwait(f, false, dontwait);
        f->inuse--;
        if (e != 0) {
                return fail(e);
        }
        if (f->shut_rd) {
                return 0;
        }
        size_t left = shorten(want);
        size_t skip = 0;
        for (int i = 0; i < cnt && left > 0; i++) {
                size_t n = iov[i].iov_len < left ? iov[i].iov_len : left;
                size_t r;
                if (peek) {
                        u8 *tmp = malloc(skip + n + 1);
                        size_t got = chan_peek(f->rch, tmp, skip + n);
                        r = got > skip ? got - skip : 0;
                        memcpy(iov[i].iov_base, tmp + skip, r);
                        skip += r;
                        free(tmp);
                } else {
                        u64 pos = f->rch->out;
                        r = chan_get(f->rch, iov[i].iov_base, n);
                        xfer(iov, cnt, f->rch, pos, r);
                }
                total += r;
                left -= r;
                if (r < n) {
                        break;
                }
        }
        sim_trace(0x5d, total, fd);
        return total;
}

static ssize_t
do_writev(int fd, const struct iovec *iov, int cnt, i64 off, const char *name)
{
        sysenter(name);
        struct ofile *f = getf(fd, name);
        if (cnt < 0 || cnt > 1024) {
                return fail(EINVAL);
        }
        if (off >= 0 && f->in == NULL) {
                return fail(ESPIPE);
        }
        size_t want = iovlen(iov, cnt);
        if (f->in != NULL) {
                INJ(F_IOERR, fd_errs);
        } else {
                INJ(F_IOERR, eio);
        }
        ssize_t total = 0;
        if (f->in != NULL) {
                size_t left = shorten(want);
                if ((f->flags & O_ACCMODE) == O_RDONLY) {
                        return fail(EBADF);
                }
                for (int i = 0; i < cnt && left > 0; i++) {
                        size_t n = iov[i].iov_len < left ? iov[i].iov_len : left;
                        ssize_t r = of_write(W, f, iov[i].iov_base, n, off >= 0 ? off + total : -1);
                        if (r < 0) {
                                if (total > 0) {
                                        break;
                                }
                                return fail((int)-r);
                        }
                        total += r;
                        left -= r;
                        if ((size_t)r < n) {
                                break;
                        }
                }
                return total;
        }
        if (f->is_listen) {
                return fail(ENOTCONN);
        }
        if (f->wch == NULL) {
                return fail(EBADF);
        }
        if (want == 0) {
                return 0;
        }
        bool blocking = !(f->flags & O_NONBLOCK);
        size_t left = shorten(want);
        for (int i = 0; i < cnt && left > 0; i++) {
                size_t n = iov[i].iov_len < left ? iov[i].iov_len : left;
                const u8 *p = iov[i].iov_base;
                while (n > 0) {
                        if (total == 0 || blocking) {
                                f->inuse++;
                                int e = chwait(f, true, false);
                                f->inuse--;
                                if (e != 0) {
                                        if (total > 0) {
                                                return total;
                                        }
                                        return fail(e);
                                }
                        }
                        if (f->wch->rclosed || f->shut_wr) {
                                return total > 0 ? total : fail(EPIPE);
                        }
                        u64 pos = f->wch->in;
                        size_t r = chan_put(f->wch, p, n);
                        xfer(iov, cnt, f->wch, pos, r);
                        p += r;
                        n -= r;
                        left -= r;
                        total += r;
                        if (r == 0 && !blocking) {
                                goto out;
                        }
                }
        }
out:
        sim_trace(0x5e, total, fd);
        return total;
}

ssize_t
sim_read(int fd, void *buf, size_t n)
{
        struct iovec v = {buf, n};
        return do_readv(fd, &v, 1, -1, "read", false, false);
}
ssize_t
sim_pread(int fd, void *buf, size_t n, off_t off)
{
        struct iovec v = {buf, n};
        if (off < 0) {
                return fail(EINVAL);
        }
        return do_readv(fd, &v, 1, off, "pread", false, false);
}
ssize_t
sim_readv(int fd, const struct iovec *iov, int cnt)
{
        return do_readv(fd, iov, cnt, -1, "readv", false, false);
}
ssize_t
sim_preadv(int fd, const struct iovec *iov, int cnt, off_t off)
{
        if (off < 0) {
                return fail(EINVAL);
        }
        return do_readv(fd, iov, cnt, off, "preadv", false, false);
}
ssize_t
sim_write(int fd, const void *buf, size_t n)
{
        struct iovec v = {(void *)buf, n};
        if (fd == 1 || fd == 2) {
                sim_log("prints %.*s", (int)n, (const char *)buf);
        }
        return do_writev(fd, &v, 1, -1, "write");
}
ssize_t
sim_pwrite(int fd, const void *buf, size_t n, off_t off)
{
        struct iovec v = {(void *)buf, n};
        if (off < 0) {
                return fail(EINVAL);
        }
        return do_writev(fd, &v, 1, off, "pwrite");
}
ssize_t
sim_writev(int fd, const struct iovec *iov, int cnt)
{
        return do_writev(fd, iov, cnt, -1, "writev");
}
ssize_t
sim_pwritev(int fd, const struct iovec *iov, int cnt, off_t off)
{
        if (off < 0) {
                return fail(EINVAL);
        }
        return do_writev(fd, iov, cnt, off, "pwritev");
}

/* ------------------------------------------------------------------ sockets */
ssize_t
sim_recvmsg(int fd, struct msghdr *m, int flags)
{
        struct ofile *f = getf(fd, "recvmsg");
        if (!f->is_sock) {
                sysenter("recvmsg");
                return fail(ENOTSOCK);
        }
        if (m->msg_name != NULL && (int)m->msg_namelen < 0) {
                return fail(EINVAL);
        }
        m->msg_flags = 0;
        return do_readv(fd, m->msg_iov, (int)m->msg_iovlen, -1, "recvmsg", flags & MSG_PEEK, flags & MSG_DONTWAIT);
}
ssize_t
sim_sendmsg(int fd, const struct msghdr *m, int flags)
{
        struct ofile *f = getf(fd, "sendmsg");
        if (!f->is_sock) {
                sysenter("sendmsg");
                return fail(ENOTSOCK);
        }
        if (m->msg_name != NULL) {
                return fail((int)m->msg_namelen < 0 ? EINVAL : EISCONN);
        }
        if (m->msg_controllen > 0) {
                return fail(m->msg_controllen > INT32_MAX ? ENOBUFS : EINVAL);
        }
        return do_writev(fd, m->msg_iov, (int)m->msg_iovlen, -1, "sendmsg");
}
ssize_t
sim_recv(int fd, void *buf, size_t n, int flags)
{
        struct iovec v = {buf, n};
        struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1};
        return sim_recvmsg(fd, &m, flags);
}
ssize_t
sim_send(int fd, const void *buf, size_t n, int flags)
{
        struct iovec v = {(void *)buf, n};
        struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1};
        return sim_sendmsg(fd, &m, flags);
}
ssize_t
sim_recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *sa,
             socklen_t *salen)
{
        struct iovec v = {buf, n};
        struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1};
        ssize_t r = sim_recvmsg(fd, &m, flags);
        if (r >= 0 && salen != NULL) {
                *salen = 0;
        }
        return r;
}
ssize_t
sim_sendto(int fd, const void *buf, size_t n, int flags,
           const struct sockaddr *sa, socklen_t salen)
{
        struct iovec v = {(void *)buf, n};
        struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1};
        return sim_sendmsg(fd, &m, flags);
}
static bool
p_acceptable(void *vp)
{
        return ((struct ofile *)vp)->npend > 0;
}
int
sim_accept(int fd, struct sockaddr *sa, socklen_t *len)
{
        sysenter("accept");
        struct ofile *f = getf(fd, "accept");
        if (!f->is_sock) {
                return fail(ENOTSOCK);
        }
        if (!f->is_listen) {
                return fail(EINVAL);
        }
        if (sa != NULL && (len == NULL || *len > sizeof(struct sockaddr_storage))) {
                sim_violation("host-call-args", "accept() called with an invalid address length %u", len ? *len : 0);
        }
        if (f->npend == 0) {
                if (f->flags & O_NONBLOCK) {
                        return fail(EAGAIN);
                }
                f->inuse++;
                sim_block(p_acceptable, f, NEVER, "accept");
                f->inuse--;
        } else if ((f->flags & O_NONBLOCK) && sim_fault(F_EAGAIN) != 0) {
                return fail(EAGAIN);
        }
        INJ(F_EMFILE, emf);
        struct ofile *n = f->pend[0];
        memmove(&f->pend[0], &f->pend[1], sizeof(f->pend[0]) * (f->npend - 1));
        f->npend--;
        if (sa != NULL) {
                struct sockaddr tmp;
                memset(&tmp, 0, sizeof(tmp));
                tmp.sa_family = AF_INET;
                memcpy(sa, &tmp, *len < sizeof(tmp) ? *len : sizeof(tmp));
                *len = sizeof(tmp);
        }
        world_accepted[sim_fiber_id()] = n->id;
        return taken(world_install(n, -1));
}
int
sim_accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags)
{
        int r = sim_accept(fd, sa, len);
        if (r >= 0 && (flags & SOCK_NONBLOCK)) {
                W->fds[r]->flags |= O_NONBLOCK;
        }
        return r;
}
int
sim_shutdown(int fd, int how)
{
        sysenter("shutdown");
        struct ofile *f = getf(fd, "shutdown");
        if (!f->is_sock) {
                return fail(ENOTSOCK);
        }
        if (f->is_listen) {
                return fail(ENOTCONN);
        }
        if (how != SHUT_RD && how != SHUT_WR && how != SHUT_RDWR) {
                return fail(EINVAL);
        }
        if (how != SHUT_WR) {
                f->shut_rd = true;
        }
        if (how != SHUT_RD) {
                f->shut_wr = true;
                f->wch->wclosed = true;
        }
        return 0;
}
int
sim_getsockopt(int fd, int level, int opt, void *val, socklen_t *len)
{
        sysenter("getsockopt");
        struct ofile *f = getf(fd, "getsockopt");
        if (!f->is_sock) {
                return fail(ENOTSOCK);
        }
        if (level == SOL_SOCKET && opt == SO_TYPE) {
                if (*len != sizeof(int)) {
                        sim_violation("host-call-args", "getsockopt() called with an invalid length %u", *len);
                }
                *(int *)val = SOCK_STREAM;
                return 0;
        }
        return fail(ENOPROTOOPT);
}

/* ------------------------------------------------------------------ poll and time */
short
of_poll(struct ofile *f, short events)
{
        short r = 0;
        if (f->in != NULL) {
                return events & (POLLIN | POLLOUT);
        }
        if (f->is_listen) {
                return f->npend > 0 ? (events & POLLIN) : 0;
        }
        if (f->pending_err != 0) {
                r |= POLLERR | (events & (POLLIN | POLLOUT));
        }
        if (f->rch != NULL) {
                if ((f->rch->len > 0 || f->shut_rd) && (events & POLLIN)) {
                        r |= POLLIN;
                }
                if (f->rch->wclosed) {
                        if (f->is_sock) {
                                r |= events & POLLIN;
                                if (f->shut_wr) {
                                        r |= POLLHUP;
                                }
                        } else {
                                r |= POLLHUP;
                        }
                }
        }
        if (f->wch != NULL) {
                if (f->wch->rclosed) {
                        /* a socket hangs up only when both directions are closed */
                        r |= events & POLLOUT;
                        if (!f->is_sock) {
                                r |= POLLERR;
                        } else if (f->rch->wclosed) {
                                r |= POLLHUP;
                        }
                } else if ((f->wch->len < f->wch->cap || f->shut_wr) && (events & POLLOUT)) {
                        r |= POLLOUT;
                }
        }
        return r;
}

struct pollarg {
        struct pollfd *p;
        nfds_t n;
        struct ofile **of;
};
static int
poll_scan(struct pollarg *a)
{
        int n = 0;
        for (nfds_t i = 0; i < a->n; i++) {
                a->p[i].revents = a->of[i] == NULL ? 0 : of_poll(a->of[i], a->p[i].events);
                n += a->p[i].revents != 0;
        }
        return n;
}
static bool
p_poll(void *vp)
{
        struct pollarg *a = vp;
        for (nfds_t i = 0; i < a->n; i++) {
                if (a->of[i] != NULL && of_poll(a->of[i], a->p[i].events) != 0) {
                        return true;
                }
        }
        return false;
}

int
sim_poll(struct pollfd *p, nfds_t n, int timeout)
{
        sysenter("poll");
        struct ofile *ofs[n + 1];
        for (nfds_t i = 0; i < n; i++) {
                ofs[i] = p[i].fd < 0 ? NULL : getf(p[i].fd, "poll");
                p[i].revents = 0;
        }
        struct pollarg a = {p, n, ofs};
        int r = poll_scan(&a);
        if (r > 0 || timeout == 0) {
                return r;
        }
        u32 v = sim_fault(F_EINTR);
        if (v != 0) {
                sim_sleep((timeout < 0 ? v % (50 * MS) : v % ((u64)timeout * MS)));
                return fail(injected(EINTR));
        }
        for (nfds_t i = 0; i < n; i++) {
                if (ofs[i] != NULL) {
                        ofs[i]->inuse++;
                }
        }
        sim_block(p_poll, &a, timeout < 0 ? NEVER : sim_now() + (u64)timeout * MS, "poll");
        for (nfds_t i = 0; i < n; i++) {
                if (ofs[i] != NULL) {
                        ofs[i]->inuse--;
                }
        }
        r = poll_scan(&a);
        sim_trace(0x90, r, 0);
        return r;
}

static void
maybe_jump(void)
{
        u32 v = sim_fault(F_CLOCKJUMP);
        if (v != 0) {
                i64 d = v & 1 ? (i64)(v / 2 % 3600000) : -(i64)(v / 2 % 30000);
                world_jump[world_rt_jumps % 64].at = sim_now();
                world_jump[world_rt_jumps % 64].rt = sim_realtime();
                sim_rt_off += d * 1000000;
                world_rt_jumps++;
        }
}

int
sim_clock_gettime(clockid_t id, struct timespec *ts)
{
        u64 t;
        sim_advance(cfg.clock_read_ns);
        switch (id) {
        case CLOCK_REALTIME:
                maybe_jump();
                t = sim_realtime();
                break;
        case CLOCK_MONOTONIC:
                t = sim_now();
                break;
        case CLOCK_PROCESS_CPUTIME_ID:
        case CLOCK_THREAD_CPUTIME_ID:
                t = sim_ticks * 10;
                break;
        default:
                return fail(EINVAL);
        }
        ts->tv_sec = t / SEC;
        ts->tv_nsec = t % SEC;
        return 0;
}

int
sim_clock_getres(clockid_t id, struct timespec *ts)
{
        if (ts != NULL) {
                ts->tv_sec = 0;
                ts->tv_nsec = id == CLOCK_REALTIME ? 1000 : id == CLOCK_MONOTONIC ? 1 : 10;
        }
        return 0;
}

int
sim_gettimeofday(struct timeval *tv, void *tz)
{
        u64 t = sim_realtime();
        tv->tv_sec = t / SEC;
        tv->tv_usec = t % SEC / 1000;
        return 0;
}

time_t
sim_time(time_t *tp)
{
        time_t t = sim_realtime() / SEC;
        if (tp != NULL) {
                *tp = t;
        }
        return t;
}

int
sim_nanosleep(const struct timespec *req, struct timespec *rem)
{
        sysenter("nanosleep");
        if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) {
                return fail(EINVAL);
        }
        __int128 ns = (__int128)req->tv_sec * SEC + req->tv_nsec;
        u64 d = ns > ((__int128)1 << 62) ? (u64)1 << 62 : (u64)ns;
        u32 v = sim_fault(F_EINTR);
        if (v != 0 && d > 0) {
                u64 part = v % d;
                sim_sleep(part);
                if (rem != NULL) {
                        rem->tv_sec = (d - part) / SEC;
                        rem->tv_nsec = (d - part) % SEC;
                }
                return fail(EINTR);
        }
        sim_sleep(d);
        return 0;
}

int
sim_usleep(useconds_t us)
{
        sim_sleep((u64)us * 1000);
        return 0;
}

struct tm *
sim_localtime_r(const time_t *t, struct tm *tm)
{
        return gmtime_r(t, tm);
}

ssize_t
sim_getrandom(void *buf, size_t n, unsigned flags)
{
        sysenter("getrandom");
        u32 v = sim_fault(F_RANDOM);
        if (v != 0) {
                if (v & 2) {
                        return fail(EINTR);
                }
                if (n > 1) {
                        n = 1 + (v >> 2) % (n - 1);
                }
        }
        for (size_t i = 0; i < n; i++) {
                u8 b = (u8)rnd(R_WORLD);
                ((u8 *)buf)[i] = b == 0 ? 1 : b; /* never zero: an unfilled byte is visible */
        }
        return n;
}

/* ------------------------------------------------------------------ directories */
struct sdir {
        u32 magic;
        int fd;
        u64 pos; /* cookie of the next entry; 0 '.', 1 '..', >=16 entries */
        struct dirent de;
        int busy;
};

static struct sdir *
getd(DIR *dd, const char *call)
{
        struct sdir *d = (void *)dd;
        if (d == NULL || d->magic != 0xd1d1) {
                sim_violation("host-fd-misuse", "%s() on an invalid directory stream", call);
        }
        if (d->busy) {
                sim_violation("host-fd-misuse", "%s() on a directory stream used by another thread", call);
        }
        return d;
}

DIR *
sim_fdopendir(int fd)
{
        sysenter("fdopendir");
        struct ofile *f = getf(fd, "fdopendir");
        if (f->in == NULL || f->in->type != N_DIR) {
                fail(ENOTDIR);
                return NULL;
        }
        if (sim_fault(F_IOERR) != 0) {
                fail(injected(ENOMEM));
                return NULL;
        }
        struct sdir *d = calloc(1, sizeof(*d));
        d->magic = 0xd1d1;
        d->fd = fd;
        W->opendirs++;
        return (DIR *)d;
}

int
sim_closedir(DIR *dd)
{
        struct sdir *d = getd(dd, "closedir");
        int fd = d->fd;
        d->magic = 0xdead;
        free(d);
        W->opendirs--;
        return sim_close(fd);
}

struct dirent *
sim_readdir(DIR *dd)
{
        struct sdir *d = getd(dd, "readdir");
        d->busy = 1;
        sysenter("readdir");
        d->busy = 0;
        struct inode *in = getf(d->fd, "readdir")->in;
        if (sim_fault(F_IOERR) != 0) {
                fail(injected(EIO));
                return NULL;
        }
        memset(&d->de, 0, sizeof(d->de));
        if (d->pos == 0) {
                strcpy(d->de.d_name, ".");
                d->de.d_ino = in->ino;
                d->de.d_type = DT_DIR;
                d->pos = 1;
        } else if (d->pos == 1) {
                strcpy(d->de.d_name, "..");
                d->de.d_ino = in->parent->ino;
                d->de.d_type = DT_DIR;
                d->pos = 2;
        } else {
                struct dent *e = NULL;
                for (u32 i = 0; i < in->nents; i++) {
                        if (in->ents[i].cookie >= d->pos) {
                                e = &in->ents[i];
                                break;
                        }
                }
                if (e == NULL) {
                        return NULL; /* errno unchanged */
                }
                snprintf(d->de.d_name, sizeof(d->de.d_name), "%s", e->name);
                d->de.d_ino = e->in->ino;
                static const u8 t[] = {DT_REG, DT_DIR, DT_LNK, DT_FIFO, DT_SOCK, DT_CHR};
                d->de.d_type = t[e->in->type];
                d->pos = e->cookie + 1;
        }
        d->de.d_off = d->pos;
        return &d->de;
}

void
sim_rewinddir(DIR *dd)
{
        struct sdir *d = getd(dd, "rewinddir");
        sysenter("rewinddir");
        d->pos = 0;
}
void
sim_seekdir(DIR *dd, long loc)
{
        struct sdir *d = getd(dd, "seekdir");
        sysenter("seekdir");
        d->pos = (u64)loc;
}
long
sim_telldir(DIR *dd)
{
        return (long)getd(dd, "telldir")->pos;
}

/* ------------------------------------------------------------------ mmap */
void *
sim_malloc(size_t);
void sim_free(void *);
void *
sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
        sysenter("mmap");
        if (sim_fault(F_IOERR) != 0) {
                fail(ENOMEM);
                return MAP_FAILED;
        }
        if (len == 0) {
                fail(EINVAL);
                return MAP_FAILED;
        }
        u8 *p = sim_malloc(len);
        if (p == NULL) {
                fail(ENOMEM);
                return MAP_FAILED;
        }
        memset(p, 0, len);
        if (!(flags & MAP_ANONYMOUS)) {
                struct ofile *f = getf(fd, "mmap");
                if (f->in == NULL || f->in->type != N_REG) {
                        sim_free(p);
                        fail(ENODEV);
                        return MAP_FAILED;
                }
                if ((u64)off < f->in->size) {
                        size_t n = f->in->size - off;
                        memcpy(p, f->in->data + off, n < len ? n : len);
                }
        }
        return p;
}
int
sim_munmap(void *p, size_t len)
{
        sim_free(p);
        return 0;
}

/* ------------------------------------------------------------------ stdio on descriptors 0..2 */
static int flk_owner[3], flk_cnt[3];
int
sim_fileno(FILE *f)
{
        return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1;
}
static bool
p_flk(void *vp)
{
        return *(int *)vp == 0;
}
void
sim_flockfile(FILE *f)
{
        int i = sim_fileno(f);
        int me = sim_fiber_id() + 1;
        while (flk_owner[i] != 0 && flk_owner[i] != me) {
                sim_block(p_flk, &flk_owner[i], NEVER, "flockfile");
        }
        flk_owner[i] = me;
        flk_cnt[i]++;
}
void
sim_funlockfile(FILE *f)
{
        int i = sim_fileno(f);
        if (flk_owner[i] != sim_fiber_id() + 1) {
                sim_violation("lock-misuse", "funlockfile by a non-owner");
        }
        if (--flk_cnt[i] == 0) {
                flk_owner[i] = 0;
                sim_sync_point();
        }
}

/* FILE objects returned by fopen */
struct sfile {
        u32 magic;
        int fd;
        int err;
        size_t n, cap; /* output not yet written */
        u8 buf[4096];
};
static int out_all(FILE *f, const char *p, size_t n);
static int
sf_flush(struct sfile *s)
{
        size_t n = s->n;
        s->n = 0;
        return out_all((FILE *)s, (char *)s->buf, n);
}
static struct sfile *
asfile(FILE *f)
{
        struct sfile *s = (void *)f;
        if (f == stdin || f == stdout || f == stderr) {
                return NULL;
        }
        if (s->magic != 0xf11e) {
                sim_violation("host-fd-misuse", "stdio call on an invalid FILE");
        }
        return s;
}
FILE *
sim_fopen(const char *path, const char *mode)
{
        int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
        int fd = sim_open(path, fl, 0666);
        if (fd < 0) {
                return NULL;
        }
        struct sfile *s = calloc(1, sizeof(*s));
        s->magic = 0xf11e;
        s->fd = fd;
        static const size_t caps[] = {4096, 512, 64};
        s->cap = caps[rndn(R_WORLD, 3)];
        return (FILE *)s;
}
int
sim_fclose(FILE *f)
{
        struct sfile *s = asfile(f);
        if (s == NULL) {
                return 0;
        }
        int fd = s->fd;
        int r = sf_flush(s);
        int e = errno;
        s->magic = 0;
        free(s);
        if (sim_close(fd) != 0) {
                return EOF;
        }
        errno = e;
        return r == 0 ? 0 : EOF;
}
int
sim_ferror(FILE *f)
{
        struct sfile *s = asfile(f);
        return s ? s->err : 0;
}
int
sim_fflush(FILE *f)
{
        struct sfile *s = f != NULL ? asfile(f) : NULL;
        return s == NULL || sf_flush(s) == 0 ? 0 : EOF;
}

static int
out_all(FILE *f, const char *p, size_t n)
{
        struct sfile *s = asfile(f);
        int fd = s ? s->fd : sim_fileno(f);
        while (n > 0) {
                ssize_t r = sim_write(fd, p, n);
                if (r < 0) {
                        if (errno == EINTR) {
                                continue;
                        }
                        if (s) {
                                s->err = 1;
                        }
                        return -1;
                }
                p += r;
                n -= r;
        }
        return 0;
}
int
sim_vfprintf(FILE *f, const char *fmt, va_list ap)
{
        char *b;
        int n = vasprintf(&b, fmt, ap);
        if (n < 0) {
                return -1;
        }
        int r = out_all(f, b, n);
        free(b);
        return r < 0 ? r : n;
}
int
sim_fprintf(FILE *f, const char *fmt, ...)
{
        va_list ap;
        va_start(ap, fmt);
        int r = sim_vfprintf(f, fmt, ap);
        va_end(ap);
        return r;
}
int
sim_vprintf(const char *fmt, va_list ap)
{
        return sim_vfprintf(stdout, fmt, ap);
}
int
sim_printf(const char *fmt, ...)
{
        va_list ap;
        va_start(ap, fmt);
        int r = sim_vfprintf(stdout, fmt, ap);
        va_end(ap);
        return r;
}
int
sim_dprintf(int fd, const char *fmt, ...)
{
        va_list ap;
        va_start(ap, fmt);
        int r = sim_vfprintf(fd == 1 ? stdout : stderr, fmt, ap);
        va_end(ap);
        return r;
}
size_t sim_fwrite(const void *, size_t, size_t, FILE *);
int
sim_fputs(const char *s, FILE *f)
{
        size_t n = strlen(s);
        return sim_fwrite(s, 1, n, f) != n ? EOF : 1;
}
int
sim_puts(const char *s)
{
        out_all(stdout, s, strlen(s));
        return out_all(stdout, "\n", 1);
}
int
sim_fputc(int c, FILE *f)
{
        char ch = (char)c;
        return sim_fwrite(&ch, 1, 1, f) != 1 ? EOF : c;
}
int
sim_putc(int c, FILE *f)
{
        return sim_fputc(c, f);
}
int
sim_putchar(int c)
{
        return sim_fputc(c, stdout);
}
size_t
sim_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
        struct sfile *s = asfile(f);
        if (sz == 0 || n == 0) {
                return 0;
        }
        if (s == NULL) {
                return out_all(f, p, sz * n) < 0 ? 0 : n;
        }
        size_t k = 0;
        while (k < sz * n) {
                size_t l = sz * n - k < s->cap - s->n ? sz * n - k : s->cap - s->n;
                memcpy(s->buf + s->n, (const u8 *)p + k, l);
                s->n += l;
                k += l;
                if (s->n == s->cap && sf_flush(s) != 0) {
                        return k / sz == n ? n - 1 : k / sz;
                }
        }
        return n;
}

/* stdin: small read-ahead buffer, as stdio has */
static u8 inbuf[512];
static size_t inpos, inlen;
int
sim_fgetc(FILE *f)
{
        if (f == stdin) {
                if (inpos == inlen) {
                        ssize_t r;
                        do {
                                /* nothing in the process handles signals */
                                r = sim_read(0, inbuf, sizeof(inbuf));
                        } while (r < 0 && errno == EINTR);
                        if (r <= 0) {
                                return EOF;
                        }
                        inpos = 0;
                        inlen = r;
                }
                return inbuf[inpos++];
        }
        struct sfile *s = asfile(f);
        u8 c;
        ssize_t r = sim_read(s->fd, &c, 1);
        if (r < 0) {
                s->err = 1;
        }
        return r == 1 ? c : EOF;
}
int
sim_getc(FILE *f)
{
        return sim_fgetc(f);
}
size_t
sim_fread(void *p, size_t sz, size_t n, FILE *f)
{
        size_t i;
        for (i = 0; i < sz * n; i++) {
                int c = sim_fgetc(f);
                if (c == EOF) {
                        break;
                }
                ((u8 *)p)[i] = (u8)c;
        }
        return sz == 0 ? 0 : i / sz;
}
char *
sim_fgets(char *b, int n, FILE *f)
{
        int i = 0;
        while (i < n - 1) {
                int c = sim_fgetc(f);
                if (c == EOF) {
                        break;
                }
                b[i++] = (char)c;
                if (c == '\n') {
                        break;
                }
        }
        if (i == 0) {
                return NULL;
        }
        b[i] = 0;
        return b;
}
void *sim_realloc(void *, size_t);
void *sim_malloc(size_t);
ssize_t
sim___getdelim(char **lp, size_t *np, int delim, FILE *f)
{
        size_t i = 0;
        /* as glibc has it: a buffer of no size is not reused */
        if (*lp == NULL || *np == 0) {
                char *q = sim_malloc(120);
                if (q == NULL) {
                        return -1;
                }
                *lp = q;
                *np = 120;
        }
        for (;;) {
                int c = sim_fgetc(f);
                if (c == EOF) {
                        break;
                }
                if (i + 2 > *np) {
                        size_t ns = (i + 2) * 2 + 60;
                        char *q = sim_realloc(*lp, ns);
                        if (q == NULL) {
                                return -1;
                        }
                        *lp = q;
                        *np = ns;
                }
                (*lp)[i++] = (char)c;
                if (c == delim) {
                        break;
                }
        }
        if (i == 0) {
                return -1;
        }
        (*lp)[i] = 0;
        return i;
}
ssize_t
sim_getdelim(char **lp, size_t *np, int d, FILE *f)
{
        return sim___getdelim(lp, np, d, f);
}
ssize_t
sim_getline(char **lp, size_t *np, FILE *f)
{
        return sim___getdelim(lp, np, '\n', f);
}

int
sim_isatty(int fd)
{
        struct ofile *f = getf(fd, "isatty");
        if (!f->is_tty) {
                errno = ENOTTY;
                return 0;
        }
        return 1;
}

/* ------------------------------------------------------------------ exit */
static void (*exit_fn)(int);
void
sim_catch_exit(void (*fn)(int))
{
        exit_fn = fn;
}
void
sim_exit(int code)
{
        if (exit_fn != NULL) {
                exit_fn(code);
        }
        sim_violation("exit", "exit(%d) called", code);
}
void
sim__exit(int code)
{
        sim_exit(code);
}

void
world_init(void)
{
        W = world_new();
        w_mkdir(W, "/tmp");
        std_in = chan_new(1 << 16);
        std_in->wclosed = true;
        std_out = chan_new(1 << 20);
        std_err = chan_new(1 << 20);
        world_install(of_pipe_r(std_in), 0);
        world_install(of_pipe_w(std_out), 1);
        world_install(of_pipe_w(std_err), 2);
}
