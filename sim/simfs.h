/* Simulated host: file system, pipes, sockets, terminals, descriptor table. */
#ifndef SIMFS_H
#define SIMFS_H
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>

#include "simrt.h"

enum ntype { N_REG, N_DIR, N_LNK, N_FIFO, N_SOCK, N_TTY };
struct inode;
struct dent {
        char *name;
        struct inode *in;
        u64 cookie;
};
struct inode {
        enum ntype type;
        u64 ino;
        u32 nlink;
        u8 *data;
        size_t size, cap;
        struct dent *ents;
        u32 nents;
        struct inode *parent;
        char *target;
        u64 at, mt; /* ns */
        bool at_explicit, mt_explicit;
        u32 opens;
};

/* one-directional byte channel */
struct chan {
        u8 *buf;
        size_t cap, len, head;
        bool wclosed; /* no more data will be written */
        bool rclosed; /* nobody reads */
        u64 in, out;
};

struct ofile {
        int refs;
        u64 id;
        struct inode *in;
        int flags;
        u64 off;
        struct chan *rch, *wch;
        bool is_sock, is_listen, is_tty, shut_rd, shut_wr;
        struct ofile *pend[16];
        int npend;
        int inuse; /* host calls in progress */
        int pending_err;
};

#define MAXFD 4096
struct world {
        struct inode *root;
        u64 next_ino, next_cookie_seed;
        u64 quota, used;
        struct ofile *fds[MAXFD];
        bool taken[MAXFD]; /* opened by a call of the program under test */
        int nextfd;
        u64 next_id;
        int opendirs;
};
extern struct world *W;
extern struct chan *std_in, *std_out, *std_err; /* what descriptors 0-2 are at the start */

struct world *world_new(void);
/* path operations: 0 or -errno */
int w_lookup(struct world *w, const char *path, bool follow, struct inode **out);
int w_open(struct world *w, const char *path, int flags, struct ofile **out);
int w_mkdir(struct world *w, const char *path);
int w_rmdir(struct world *w, const char *path);
int w_unlink(struct world *w, const char *path);
int w_rename(struct world *w, const char *a, const char *b);
int w_link(struct world *w, const char *a, const char *b);
int w_symlink(struct world *w, const char *target, const char *path);
int w_readlink(struct world *w, const char *path, char *buf, size_t sz);
void w_stat(struct inode *in, struct stat *st);
int w_truncate(struct world *w, struct inode *in, u64 size);
/* description operations on files */
ssize_t of_read(struct world *w, struct ofile *f, void *buf, size_t n, i64 off /* -1: use the file offset */);
ssize_t of_write(struct world *w, struct ofile *f, const void *buf, size_t n, i64 off);
i64 of_seek(struct ofile *f, i64 off, int whence);
void of_release(struct world *w, struct ofile *f);
bool world_equal(struct world *a, struct world *b, char *why, size_t whysz);
u64 world_hash(struct world *w);

/* channels and peers */
struct chan *chan_new(size_t cap);
size_t chan_put(struct chan *c, const void *p, size_t n);
size_t chan_get(struct chan *c, void *p, size_t n);
size_t chan_peek(struct chan *c, void *p, size_t n);
struct ofile *of_pipe_r(struct chan *c);
struct ofile *of_pipe_w(struct chan *c);
struct ofile *of_tty(struct chan *r, struct chan *w);
struct ofile *of_listen(void);
struct ofile *of_sock(struct chan *r, struct chan *w);
/* install at a descriptor number; -1: allocate */
int world_install(struct ofile *f, int fd);
int world_open_fds(void);
void world_check_released(void);
void world_check_fds(const char *where, int expected);
void world_add_file(struct world *w, const char *path, const void *data, size_t n);
u8 *world_file(struct world *w, const char *path, size_t *n);
short of_poll(struct ofile *f, short events);
/* hooks for scenarios */
extern void (*world_cb)(const char *name);
/* the process-exit trap */
void sim_catch_exit(void (*fn)(int));
extern u64 world_rt_jumps; /* steps of the realtime clock; when, and what it read before */
extern struct rtjump {
        u64 at, rt;
} world_jump[64];
/* errors made up since the scenario last reset the count */
/* bytes moved through channels by each thread since the scenario last cleared this */
struct xfer {
        struct chan *c;
        u64 pos, n;
        bool gap; /* not one contiguous piece */
};
extern struct xfer world_xfer[MAXFIB];
extern int (*world_who)(const void *buf); /* whose transfer this is, where one host thread runs several guest threads */
extern u64 world_accepted[MAXFIB]; /* the last connection a thread accepted */
extern int world_ninj, world_inj[16];
extern u64 world_synced_ino;
extern int world_synced;
#endif
