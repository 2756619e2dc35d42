/* P11: file operations against a second copy of the file system on which every call is carried out as specified. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>

#include "wasiwrap.h"

#define NFD 512
struct mfd {
        bool open, prestat, special;
        char path[600]; /* directories: host path by which it was opened */
        struct ofile *of;
        bool nonblock;
};
static struct mfd mf[NFD];
static struct ww ww;
static struct world *M;
static u32 bump;
static int nexec, nerr, ninjected;

static const char *const comps[] = {"a", "b", "c", "d", "e", "lnk", "f.txt", "sub"};

void
cfg_file(void)
{
        static const u32 p[] = {0, 0, 4000, 30000, 150000};
        cfg.prob[F_IOERR] = p[rndn(R_CFG, 5)];
        cfg.prob[F_SHORT] = p[rndn(R_CFG, 5)] * 2;
        cfg.prob[F_EMFILE] = p[rndn(R_CFG, 5)];
        cfg.prob[F_ALLOC] = (u32[]){0, 0, 2000, 10000, 40000}[rndn(R_CFG, 5)];
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 5)];
        cfg.prob[F_EINTR] = p[rndn(R_CFG, 5)];
}

/* an area of guest memory for this call */
static u32
area(u32 n, u32 align)
{
        bump += rndn(R_GEN, 40);
        bump = (bump + align - 1) & ~(align - 1);
        u32 a = bump;
        bump += n;
        if (bump > ww.pages * WW_PAGE) {
                fprintf(stderr, "area\n");
                abort();
        }
        return a;
}

static void
gen_path(char *b, bool want_bad)
{
        b[0] = 0;
        u32 k = rndn(R_GEN, 60);
        if (want_bad && k == 0) {
                strcpy(b, "/");
        }
        int n = 1 + (rndp(R_GEN, 1, 3) ? 1 + rndn(R_GEN, 2) : 0);
        for (int i = 0; i < n; i++) {
                if (i > 0) {
                        strcat(b, rndp(R_GEN, 1, 12) ? "//" : "/");
                }
                u32 r = rndn(R_GEN, 40);
                if (r == 0) {
                        strcat(b, ".");
                } else if (r == 1 && i > 0) {
                        strcat(b, "..");
                } else if (r == 2 && k == 1) {
                        size_t l = strlen(b);
                        memset(b + l, 'x', 280);
                        b[l + 280] = 0;
                } else if (i + 1 < n) {
                        strcat(b, rndp(R_GEN, 2, 3) ? "d" : comps[rndn(R_GEN, 8)]);
                } else {
                        strcat(b, comps[rndn(R_GEN, 8)]);
                }
        }
        if (k == 2) {
                strcat(b, "/");
        }
}

/* any descriptor, mostly one that is open */
static u32
gen_fd(void)
{
        u32 r = rndn(R_GEN, 24);
        if (r == 0) {
                static const u32 odd[] = {100, 499, 4096, 0x7fffffff, 0x80000000, 0xffffffff};
                return odd[rndn(R_GEN, 6)];
        }
        u32 c[NFD], n = 0;
        for (u32 i = 0; i < NFD; i++) {
                if (mf[i].open && !mf[i].special && (!mf[i].prestat || r == 1)) {
                        c[n++] = i;
                }
        }
        return n == 0 ? 3 : c[rndn(R_GEN, n)];
}
static u32
gen_dirfd(void)
{
        if (rndp(R_GEN, 1, 20)) {
                return gen_fd();
        }
        u32 c[NFD], n = 0;
        for (u32 i = 0; i < NFD; i++) {
                if (mf[i].open && mf[i].path[0]) {
                        c[n++] = i;
                }
        }
        return n == 0 ? 3 : c[rndn(R_GEN, n)];
}
static struct mfd *
getm(u32 fd)
{
        return fd < NFD && mf[fd].open ? &mf[fd] : NULL;
}

/* host path of a guest path: 0, -1 the call has to be refused, -2 not decided here */
static int
mpath(u32 dirfd, const char *path, size_t len, char *out, size_t outsz)
{
        struct mfd *d = getm(dirfd);
        if (d != NULL && d->path[0] && !d->prestat) {
                struct inode *in;
                if (w_lookup(M, d->path, true, &in) != 0 || in != d->of->in) {
                        return -2; /* the directory has been moved or removed since */
                }
        }
        if (d == NULL || d->path[0] == 0 || path[0] == '/' || strlen(path) != len) {
                return -1;
        }
        snprintf(out, outsz, "%s/%s", d->path, path);
        return 0;
}

static const char *opname;
/*
 * exp: 0 success, >0 host errno, -1 any error.
 * returns whether the call took effect; with_fault tells whether it failed because of an injected fault.
 */
static bool
failed_by_fault(int got)
{
        if (ww_fired(&ww, F_ALLOC) != 0 && (got == ww_err(ENOMEM) || (got == WC_ERR && ww.e.ret == ENOMEM))) {
                return true;
        }
        if (got > 0) {
                for (int i = 0; i < world_ninj; i++) {
                        if (ww_err_is(got, world_inj[i])) {
                                return true;
                        }
                }
        }
        return false;
}

static void
judge(int got, int exp, bool may_ignore)
{
        if (got == WC_TRAP) {
                sim_violation("trap", "%s trapped: %s", opname, ww.e.trapmsg);
        }
        if (got == WC_ERR) {
                sim_violation("error", "%s ended the execution with error %d", opname, ww.e.ret);
        }
        if (got == 0 && world_ninj > 0 && !may_ignore) {
                sim_violation("error-lost", "%s succeeded although the host reported %s", opname, strerror(world_inj[0]));
        }
        bool ok = exp == 0 ? got == 0 : exp < 0 ? got != 0 : ww_err_is(got, exp);
        if (!ok) {
                sim_violation("result", "%s returned %d; expected %s%s", opname, got, exp == 0 ? "success" : exp < 0 ? "an error" : "the code for ",
                              exp > 0 ? strerror(exp) : "");
        }
        if (got != 0) {
                nerr++;
        }
}

static void
compare(void)
{
        char why[400];
        if (!world_equal(W, M, why, sizeof(why))) {
                sim_violation("effect", "after %s the file system differs from what the calls so far specify: %s", opname, why);
        }
}

static u32
put_path(const char *p, size_t n)
{
        u32 a = area((u32)n, 1);
        ww_put(&ww, a, p, n);
        return a;
}

/* path possibly with an embedded NUL */
static size_t
gen_len(const char *p)
{
        size_t n = strlen(p);
        return rndp(R_GEN, 1, 80) ? n + 2 : n;
}

static void
op_open(void)
{
        char p[800], hp[1600];
        gen_path(p, true);
        size_t len = gen_len(p);
        memset(p + strlen(p), 0, 4);
        u32 dfd = gen_dirfd();
        u32 lf = rndn(R_GEN, 2);
        static const u32 ofs[] = {0, 0, 1, 1, 1, 1 | 8, 1 | 4, 1 | 4 | 8, 8, 2, 2};
        u32 ofl = ofs[rndn(R_GEN, 11)];
        static const u64 rs[] = {2, 2, 0x42, 0x42, 0x42, 0x40, 0};
        u64 rights = rs[rndn(R_GEN, 7)];
        if (ofl & 2) {
                rights = rndp(R_GEN, 1, 10) ? 0x42 : rndn(R_GEN, 2) * 2;
        }
        u32 ff = (rndp(R_GEN, 1, 4) ? 1 : 0) | (rndp(R_GEN, 1, 4) ? 4 : 0);
        u32 pa = put_path(p, len), ra = area(4, 4);
        int ps = mpath(dfd, p, len, hp, sizeof(hp));
        if (ps == -2) {
                return;
        }
        ww_outs(&ww, ra, 4);
        int flags = (lf & 1 ? 0 : O_NOFOLLOW) | (ofl & 1 ? O_CREAT : 0) | (ofl & 2 ? O_DIRECTORY : 0) | (ofl & 4 ? O_EXCL : 0) |
                    (ofl & 8 ? O_TRUNC : 0) | (ff & 1 ? O_APPEND : 0);
        flags |= (rights & 0x42) == 0x42 ? O_RDWR : rights & 0x40 ? O_WRONLY : O_RDONLY;
        int got = wc(&ww, "path_open", dfd, lf, pa, len, ofl, rights | (rndn(R_GEN, 2) ? 0x1fffffbd : 0), rnd(R_GEN) & 0x1fffffff, ff, ra);
        if (failed_by_fault(got)) {
                ninjected++;
                char why[300];
                if (ps == 0 && !world_equal(W, M, why, sizeof(why))) {
                        /* the host opened it before a later step failed: creation and truncation cannot be taken back */
                        struct ofile *of;
                        PROBE("open-undone");
                        if (w_open(M, hp, flags, &of) == 0) {
                                of_release(M, of);
                        }
                }
                return;
        }
        struct ofile *of = NULL;
        int exp = ps;
        if (ps == 0) {
                if ((ofl & 2) && (rights & 0x40)) {
                        exp = -1;
                } else {
                        exp = -w_open(M, hp, flags, &of);
                }
        }
        judge(got, exp, false);
        if (got == 0) {
                u32 fd = ww_u32(&ww, ra);
                if (fd >= NFD) {
                        sim_violation("fd-number", "path_open returned descriptor %u", fd);
                }
                if (mf[fd].open) {
                        sim_violation("fd-number", "path_open returned descriptor %u, which is already open", fd);
                }
                struct mfd *m = &mf[fd];
                memset(m, 0, sizeof(*m));
                m->open = true;
                m->of = of;
                m->nonblock = (ff & 4) != 0;
                if (of->in->type == N_DIR) {
                        snprintf(m->path, sizeof(m->path), "%s", hp);
                }
        }
}

static void
op_close(void)
{
        u32 fd = gen_fd();
        struct mfd *m = getm(fd);
        if (m != NULL && m->prestat && !rndp(R_GEN, 1, 20)) {
                return;
        }
        int got = wc(&ww, "fd_close", fd);
        if (m != NULL && got > 0 && world_ninj > 0 && ww_err_is(got, world_inj[0])) {
                /* reported, and closed nevertheless */
                ninjected++;
        } else if (failed_by_fault(got)) {
                return;
        } else {
                judge(got, m != NULL ? 0 : EBADF, false);
                if (got != 0) {
                        return;
                }
        }
        m->open = false;
        if (m->of != NULL) {
                of_release(M, m->of);
                m->of = NULL;
        }
}

static u8 buf1[200000], buf2[200000];

static void
op_rw(bool wr, bool pos)
{
        u32 fd = gen_fd();
        struct mfd *m = getm(fd);
        u32 cnt = rndr(R_GEN, 1, 5);
        if (rndp(R_GEN, 1, 40)) {
                cnt = 20;
        }
        u32 ia = area(8 * cnt, 4), base[20], len[20];
        size_t want = 0;
        u32 big = rndn(R_GEN, 12) == 0 ? 4000 : rndn(R_GEN, 3) == 0 ? 200 : 12;
        for (u32 i = 0; i < cnt; i++) {
                len[i] = rndn(R_GEN, big);
                base[i] = area(len[i], 1);
                ww_p32(&ww, ia + 8 * i, base[i]);
                ww_p32(&ww, ia + 8 * i + 4, len[i]);
                for (u32 j = 0; j < len[i]; j++) {
                        u8 c = (u8)rnd(R_GEN);
                        ww_put(&ww, base[i] + j, &c, 1);
                        buf1[want + j] = c;
                }
                want += len[i];
        }
        u32 ra = area(4, 4);
        ww_outs(&ww, ra, 4);
        if (!wr) {
                for (u32 i = 0; i < cnt; i++) {
                        ww_outs(&ww, base[i], len[i]);
                }
        }
        u64 off = rndn(R_GEN, 3) == 0 ? rndlog(R_GEN, 1, (u64)1 << 40) : rndn(R_GEN, 300);
        if (rndp(R_GEN, 1, 50)) {
                off = ~(u64)rndn(R_GEN, 3);
        } else if (off > 100000 && off < (9 << 20)) {
                off = 100000;
        }
        int got;
        if (pos) {
                got = wc(&ww, wr ? "fd_pwrite" : "fd_pread", fd, ia, cnt, off, ra);
        } else {
                got = wc(&ww, wr ? "fd_write" : "fd_read", fd, ia, cnt, ra);
        }
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        int exp = 0;
        u32 n = got == 0 ? ww_u32(&ww, ra) : 0;
        if (m == NULL) {
                exp = EBADF;
        } else if (m->prestat) {
                exp = -1;
        } else if (pos && (i64)off < 0) {
                exp = EINVAL;
        } else {
                size_t use = want;
                bool sh = got == 0 && ww_fired(&ww, F_SHORT) != 0;
                if (sh) {
                        if (n == 0 && want > 0 && wr) {
                                sim_violation("count", "%s reported 0 bytes of %zu", opname, want);
                        }
                        use = n <= want ? n : want;
                }
                ssize_t r = wr ? of_write(M, m->of, buf1, use, pos ? (i64)off : -1) : of_read(M, m->of, buf2, use, pos ? (i64)off : -1);
                if (r < 0) {
                        exp = (int)-r;
                } else if (got == 0 && n != (size_t)r) {
                        sim_violation("count", "%s reported %u bytes of %zu; %zd were to be transferred", opname, n, want, r);
                }
        }
        judge(got, exp, false);
        if (got == 0 && !wr) {
                u32 k = 0;
                u8 *mem = ww_mem(&ww);
                for (u32 i = 0; i < cnt; i++) {
                        for (u32 j = 0; j < len[i]; j++, k++) {
                                /* bytes beyond the count are left alone */
                                u8 e = k < n ? buf2[k] : buf1[k];
                                if (mem[base[i] + j] != e) {
                                        sim_violation("data", "%s of %u bytes delivered a wrong byte at %u", opname, n, k);
                                }
                        }
                }
        }
}

static void
op_seek(void)
{
        u32 fd = gen_fd(), ra = area(8, 8);
        struct mfd *m = getm(fd);
        bool u = rndp(R_GEN, 1, 3);
        u32 wh = rndp(R_GEN, 1, 20) ? 3 + rndn(R_GEN, 3) : rndn(R_GEN, 3);
        i64 off = rndn(R_GEN, 4) == 0 ? -(i64)rndlog(R_GEN, 1, 1000) : (i64)rndlog(R_GEN, 1, 2000) - 1;
        if (rndp(R_GEN, 1, 30)) {
                off = rndp(R_GEN, 1, 2) ? INT64_MAX : INT64_MIN;
        }
        ww_outs(&ww, ra, 8);
        int got = wc(&ww, u ? "u.fd_seek" : "fd_seek", fd, off, wh, ra);
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        static const int wh1[] = {SEEK_SET, SEEK_CUR, SEEK_END}, wh0[] = {SEEK_CUR, SEEK_END, SEEK_SET};
        int exp = 0;
        if (m == NULL) {
                exp = EBADF;
        } else if (wh > 2 || m->of == NULL || m->of->in->type == N_DIR) {
                exp = -1;
        } else {
                i64 r = of_seek(m->of, off, (u ? wh0 : wh1)[wh]);
                if (r < 0) {
                        exp = (int)-r;
                } else if (got == 0 && ww_u64(&ww, ra) != (u64)r) {
                        sim_violation("offset", "%s reported offset %llu instead of %lld", opname, (unsigned long long)ww_u64(&ww, ra), (long long)r);
                }
        }
        judge(got, exp, false);
}

static void
op_tell(void)
{
        u32 fd = gen_fd(), ra = area(8, 8);
        struct mfd *m = getm(fd);
        ww_outs(&ww, ra, 8);
        int got = wc(&ww, "fd_tell", fd, ra);
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        judge(got, m == NULL ? EBADF : m->of == NULL || m->of->in->type == N_DIR ? -1 : 0, false);
        if (got == 0 && ww_u64(&ww, ra) != m->of->off) {
                sim_violation("offset", "fd_tell reported %llu instead of %llu", (unsigned long long)ww_u64(&ww, ra), (unsigned long long)m->of->off);
        }
}

static const u8 wtypes[] = {4, 3, 7, 6, 6, 2}; /* by enum ntype; only the first three occur */

static void
check_stat(u32 a, struct inode *in, bool unstable)
{
        u64 nlink = unstable ? ww_u32(&ww, a + 20) : ww_u64(&ww, a + 24);
        u32 o = unstable ? 24 : 32;
        if (ww_u8(&ww, a + 16) != wtypes[in->type]) {
                sim_violation("stat", "%s reported file type %u for type %d", opname, ww_u8(&ww, a + 16), in->type);
        }
        if (ww_u64(&ww, a + 8) != in->ino || nlink != in->nlink) {
                sim_violation("stat", "%s reported inode %llu with %llu links instead of %llu with %u", opname,
                              (unsigned long long)ww_u64(&ww, a + 8), (unsigned long long)nlink, (unsigned long long)in->ino, in->nlink);
        }
        struct stat st;
        w_stat(in, &st);
        if (in->type != N_DIR && ww_u64(&ww, a + o) != (u64)st.st_size) {
                sim_violation("stat", "%s reported size %llu instead of %lld", opname, (unsigned long long)ww_u64(&ww, a + o), (long long)st.st_size);
        }
        if ((in->at_explicit && ww_u64(&ww, a + o + 8) != in->at) || (in->mt_explicit && ww_u64(&ww, a + o + 16) != in->mt)) {
                sim_violation("stat", "%s reported times %llu %llu instead of %llu %llu", opname, (unsigned long long)ww_u64(&ww, a + o + 8),
                              (unsigned long long)ww_u64(&ww, a + o + 16), (unsigned long long)in->at, (unsigned long long)in->mt);
        }
}

static void
op_fstat(void)
{
        u32 fd = gen_fd();
        struct mfd *m = getm(fd);
        bool u = rndp(R_GEN, 1, 3);
        u32 n = u ? 56 : 64, ra = area(n, 8);
        ww_outs(&ww, ra, n);
        int got = wc(&ww, u ? "u.fd_filestat_get" : "fd_filestat_get", fd, ra);
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        if (m != NULL && m->prestat) {
                return;
        }
        judge(got, m == NULL ? EBADF : 0, false);
        if (got == 0) {
                check_stat(ra, m->of->in, u);
        }
}

static void
op_pstat(void)
{
        char p[800], hp[1600];
        gen_path(p, true);
        size_t len = gen_len(p);
        memset(p + strlen(p), 0, 4);
        u32 dfd = gen_dirfd(), lf = rndn(R_GEN, 2);
        bool u = rndp(R_GEN, 1, 3);
        u32 n = u ? 56 : 64, pa = put_path(p, len), ra = area(n, 8);
        int exp = mpath(dfd, p, len, hp, sizeof(hp));
        if (exp == -2) {
                return;
        }
        ww_outs(&ww, ra, n);
        int got = wc(&ww, u ? "u.path_filestat_get" : "path_filestat_get", dfd, lf, pa, len, ra);
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        struct inode *in = NULL;
        if (exp == 0) {
                exp = -w_lookup(M, hp, lf & 1, &in);
        }
        judge(got, exp, false);
        if (got == 0) {
                check_stat(ra, in, u);
        }
}

static void
op_fdstat(void)
{
        u32 fd = gen_fd(), ra = area(24, 8);
        struct mfd *m = getm(fd);
        ww_outs(&ww, ra, 24);
        int got = wc(&ww, "fd_fdstat_get", fd, ra);
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        judge(got, m == NULL ? EBADF : 0, false);
        if (got == 0) {
                u8 t = m->prestat ? 3 : wtypes[m->of->in->type];
                if (ww_u8(&ww, ra) != t) {
                        sim_violation("stat", "fd_fdstat_get reported file type %u instead of %u", ww_u8(&ww, ra), t);
                }
                if (!m->prestat) {
                        u32 f = (m->of->flags & O_APPEND ? 1 : 0) | (m->nonblock ? 4 : 0);
                        if ((ww_u16(&ww, ra + 2) & 5) != f) {
                                sim_violation("stat", "fd_fdstat_get reported flags %u instead of %u", ww_u16(&ww, ra + 2), f);
                        }
                }
        }
}

static void
op_setflags(void)
{
        u32 fd = gen_fd();
        struct mfd *m = getm(fd);
        if (m != NULL && (m->prestat || (m->of->flags & O_APPEND))) {
                return;
        }
        bool nb = rndn(R_GEN, 2);
        int got = wc(&ww, "fd_fdstat_set_flags", fd, nb ? 4 : 0);
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        judge(got, m == NULL ? EBADF : 0, false);
        if (got == 0) {
                m->nonblock = nb;
        }
}

static void
op_size(bool alloc)
{
        u32 fd = gen_fd();
        struct mfd *m = getm(fd);
        u64 n = rndn(R_GEN, 20) == 0 ? rndlog(R_GEN, (u64)9 << 20, UINT64_MAX) : rndlog(R_GEN, 1, 5000) - 1;
        u64 off = rndn(R_GEN, 20) == 0 ? rndlog(R_GEN, (u64)9 << 20, INT64_MAX / 2) : rndlog(R_GEN, 1, 3000) - 1;
        int got;
        if (alloc) {
                n &= INT64_MAX / 2;
                got = wc(&ww, "fd_allocate", fd, off, n);
        } else {
                got = wc(&ww, "fd_filestat_set_size", fd, n);
        }
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        int exp;
        if (m == NULL) {
                exp = EBADF;
        } else if (m->prestat || m->of->in->type != N_REG || (m->of->flags & O_ACCMODE) == O_RDONLY) {
                exp = -1;
        } else if (alloc) {
                if (n == 0) {
                        exp = EINVAL;
                } else if (off + n > ((u64)8 << 20)) {
                        exp = EFBIG;
                } else {
                        exp = off + n > m->of->in->size ? -w_truncate(M, m->of->in, off + n) : 0;
                }
        } else if ((i64)n < 0) {
                exp = -1;
        } else {
                exp = -w_truncate(M, m->of->in, n);
        }
        judge(got, exp, false);
}

/* a multiple of a microsecond in the range of a 64-bit count of nanoseconds */
static u64
gen_time(void)
{
        u64 max = UINT64_MAX / 1000;
        return (rndp(R_GEN, 1, 2) ? rndlog(R_GEN, 1, max) : rnd(R_GEN) % max) * 1000;
}

static void
op_times(bool path)
{
        char p[800], hp[1600];
        gen_path(p, true);
        size_t len = strlen(p);
        u32 fd = path ? gen_dirfd() : gen_fd(), lf = rndn(R_GEN, 2);
        struct mfd *m = getm(fd);
        u64 at = gen_time(), mt = gen_time();
        static const u32 fl[] = {5, 5, 5, 10, 10, 3, 12};
        u32 ff = fl[rndn(R_GEN, 7)];
        int got, exp;
        if (path) {
                u32 pa = put_path(p, len);
                exp = mpath(fd, p, len, hp, sizeof(hp));
                if (exp == -2) {
                        return;
                }
                got = wc(&ww, "path_filestat_set_times", fd, lf, pa, len, at, mt, ff);
        } else {
                exp = m == NULL ? EBADF : 0;
                if (m != NULL && m->prestat) {
                        exp = -1;
                }
                got = wc(&ww, "fd_filestat_set_times", fd, at, mt, ff);
        }
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        struct inode *in = NULL;
        if (ff == 3 || ff == 12) {
                exp = -1;
        } else if (exp == 0) {
                if (path) {
                        exp = -w_lookup(M, hp, lf & 1, &in);
                } else {
                        in = m->of->in;
                }
        }
        judge(got, exp, false);
        if (got == 0 && ff == 5) {
                in->at = at;
                in->mt = mt;
                in->at_explicit = in->mt_explicit = true;
        } else if (got == 0) {
                in->at_explicit = in->mt_explicit = false;
        }
}

static void
op_sync(void)
{
        u32 fd = gen_fd();
        struct mfd *m = getm(fd);
        u32 k = rndn(R_GEN, 3);
        world_synced = 0;
        int got = k == 0 ? wc(&ww, "fd_sync", fd) : k == 1 ? wc(&ww, "fd_datasync", fd) : wc(&ww, "fd_advise", fd, rndn(R_GEN, 100), rndn(R_GEN, 100), rndn(R_GEN, 6));
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        if (m != NULL && (m->prestat || k == 2)) {
                return;
        }
        judge(got, m == NULL ? EBADF : 0, false);
        if (got == 0 && m != NULL && (world_synced < 2 - (int)k || world_synced_ino != m->of->in->ino)) {
                sim_violation("sync", "fd_%ssync succeeded but the file was not made durable on the host", k == 0 ? "" : "data");
        }
}

static void
op_path1(int k)
{
        static const char *const nm[] = {"path_create_directory", "path_remove_directory", "path_unlink_file"};
        char p[800], hp[1600];
        gen_path(p, true);
        size_t len = gen_len(p);
        memset(p + strlen(p), 0, 4);
        u32 dfd = gen_dirfd(), pa = put_path(p, len);
        int exp = mpath(dfd, p, len, hp, sizeof(hp));
        if (exp == -2) {
                return;
        }
        int got = wc(&ww, nm[k], dfd, pa, len);
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        if (exp == 0) {
                exp = -(k == 0 ? w_mkdir(M, hp) : k == 1 ? w_rmdir(M, hp) : w_unlink(M, hp));
        }
        judge(got, exp, false);
}

static void
op_path2(bool rename)
{
        char p[800], q[800], hp[1600], hq[1600];
        gen_path(p, true);
        gen_path(q, true);
        u32 d1 = gen_dirfd(), d2 = gen_dirfd();
        u32 pa = put_path(p, strlen(p)), qa = put_path(q, strlen(q));
        int e1 = mpath(d1, p, strlen(p), hp, sizeof(hp)), e2 = mpath(d2, q, strlen(q), hq, sizeof(hq));
        if (e1 == -2 || e2 == -2) {
                return;
        }
        u32 lf = 1;
        struct inode *in;
        int got;
        if (rename) {
                got = wc(&ww, "path_rename", d1, pa, strlen(p), d2, qa, strlen(q));
        } else {
                if (e1 == 0 && w_lookup(M, hp, false, &in) == 0 && in->type == N_LNK) {
                        return; /* whether a link to the symbolic link or to its target is made depends on the host */
                }
                got = wc(&ww, "path_link", d1, lf, pa, strlen(p), d2, qa, strlen(q));
        }
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        int exp = -1;
        if (e1 == 0 && e2 == 0) {
                exp = -(rename ? w_rename(M, hp, hq) : w_link(M, hp, hq));
        }
        judge(got, exp, false);
}

static void
op_symlink(void)
{
        char p[800], t[800], hp[1600];
        gen_path(p, true);
        gen_path(t, false);
        u32 dfd = gen_dirfd();
        u32 ta = put_path(t, strlen(t)), pa = put_path(p, strlen(p));
        int exp = mpath(dfd, p, strlen(p), hp, sizeof(hp));
        if (exp == -2) {
                return;
        }
        int got = wc(&ww, "path_symlink", ta, strlen(t), dfd, pa, strlen(p));
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        if (exp == 0) {
                exp = -w_symlink(M, t, hp);
        }
        judge(got, exp, false);
}

static void
op_readlink(void)
{
        char p[800], hp[1600], b[2000];
        gen_path(p, true);
        u32 dfd = gen_dirfd(), pa = put_path(p, strlen(p));
        u32 sz = rndn(R_GEN, 3) == 0 ? rndr(R_GEN, 1, 4) : 300;
        u32 ba = area(sz, 1), ra = area(4, 4);
        int exp = mpath(dfd, p, strlen(p), hp, sizeof(hp));
        if (exp == -2) {
                return;
        }
        ww_outs(&ww, ba, sz);
        ww_outs(&ww, ra, 4);
        int got = wc(&ww, "path_readlink", dfd, pa, strlen(p), ba, sz, ra);
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        int r = 0;
        if (exp == 0) {
                r = w_readlink(M, hp, b, sz);
                exp = r < 0 ? -r : 0;
        }
        judge(got, exp, false);
        if (got == 0 && (ww_u32(&ww, ra) != (u32)r || memcmp(ww_mem(&ww) + ba, b, r))) {
                sim_violation("data", "path_readlink returned %u bytes %.*s instead of %d bytes %.*s", ww_u32(&ww, ra), (int)ww_u32(&ww, ra) % 300,
                              ww_mem(&ww) + ba, r, r, b);
        }
}

static void
op_renumber(void)
{
        u32 a = gen_fd(), b = gen_fd();
        struct mfd *ma = getm(a), *mb = getm(b);
        if ((ma != NULL && ma->prestat) || (mb != NULL && mb->prestat)) {
                return;
        }
        int got = wc(&ww, "fd_renumber", a, b);
        if (failed_by_fault(got) && world_ninj == 0) {
                ninjected++;
                return;
        }
        judge(got, ma == NULL || mb == NULL ? EBADF : 0, true);
        if (got == 0 && a != b) {
                of_release(M, mb->of);
                *mb = *ma;
                ma->open = false;
                ma->of = NULL;
        }
}

static const char *guestname[4];
static void
op_prestat(void)
{
        u32 fd = rndn(R_GEN, 3) ? 3 + rndn(R_GEN, 4) : gen_fd();
        struct mfd *m = getm(fd);
        bool name = rndn(R_GEN, 2);
        u32 sz = rndn(R_GEN, 20), ra = area(name ? sz : 8, 4);
        int pi = -1;
        if (m != NULL && m->prestat) {
                pi = (int)m->path[599];
        }
        ww_outs(&ww, ra, name ? sz : 8);
        int got = name ? wc(&ww, "fd_prestat_dir_name", fd, ra, sz) : wc(&ww, "fd_prestat_get", fd, ra);
        if (failed_by_fault(got)) {
                ninjected++;
                return;
        }
        if (pi < 0) {
                judge(got, -1, false);
                return;
        }
        size_t l = strlen(guestname[pi]);
        if (name) {
                if (sz < l) {
                        judge(got, -1, false);
                } else {
                        judge(got, 0, false);
                        if (memcmp(ww_mem(&ww) + ra, guestname[pi], l)) {
                                sim_violation("data", "fd_prestat_dir_name returned %.*s", (int)l, ww_mem(&ww) + ra);
                        }
                }
        } else {
                judge(got, 0, false);
                if (ww_u8(&ww, ra) != 0 || ww_u32(&ww, ra + 4) != l) {
                        sim_violation("data", "fd_prestat_get returned type %u, length %u", ww_u8(&ww, ra), ww_u32(&ww, ra + 4));
                }
        }
}

static void
populate(struct world *w, u64 shape)
{
        w_mkdir(w, "/r0");
        w_mkdir(w, "/r1");
        w_mkdir(w, "/out");
        world_add_file(w, "/out/secret", "secret", 6);
        if (shape & 1) {
                w_mkdir(w, "/r0/d");
                w_mkdir(w, "/r0/d/d");
        }
        if (shape & 2) {
                world_add_file(w, "/r0/a", "0123456789abcdef", 16);
                world_add_file(w, "/r0/b", "", 0);
        }
        if ((shape & 5) == 5) {
                world_add_file(w, "/r0/d/a", "hello world", 11);
                w_symlink(w, "../a", "/r0/d/lnk");
        }
        if (shape & 8) {
                w_symlink(w, "a", "/r0/lnk");
                w_symlink(w, "d", "/r0/sub");
        }
        if (shape & 16) {
                w_mkdir(w, "/r1/d");
                world_add_file(w, "/r1/f.txt", "xyzzy", 5);
        }
}

void
run_file(void)
{
        ww_begin(&ww, 4);
        M = world_new();
        w_mkdir(M, "/tmp");
        u64 shape = rnd(R_GEN);
        u64 quota = rndp(R_GEN, 1, 4) ? rndlog(R_GEN, 100, 20000) : (u64)64 << 20;
        populate(W, shape);
        populate(M, shape);
        W->quota = M->quota = quota;
        ww.e.npreopen = rndr(R_GEN, 1, 2);
        ww.e.preopen[0] = rndp(R_GEN, 1, 2) ? "/r0" : "/r0::/guest";
        guestname[0] = ww.e.preopen[0][3] ? "/guest" : "/r0";
        ww.e.preopen[1] = "/r1";
        guestname[1] = "/r1";
        struct sim_cfg saved = cfg;
        memset(cfg.prob, 0, sizeof(cfg.prob));
        int ret = ww_start(&ww);
        if (ret != 0) {
                sim_violation("setup", "setting up failed: %d %s", ret, ww.e.loadmsg);
        }
        memcpy(cfg.prob, saved.prob, sizeof(cfg.prob));
        for (int i = 0; i < 3; i++) {
                mf[i].open = mf[i].special = true;
        }
        for (int i = 0; i < ww.e.npreopen; i++) {
                mf[3 + i].open = mf[3 + i].prestat = true;
                snprintf(mf[3 + i].path, sizeof(mf[3 + i].path), "/r%d", i);
                mf[3 + i].path[599] = (char)i;
        }
        int nops = rndr(R_GEN, 3, 150);
        u32 mask = rndp(R_GEN, 1, 3) ? 0xffffffff : (u32)rnd(R_GEN) | 3;
        static const struct {
                u8 k, w;
        } ws[] = {{0, 14}, {1, 6}, {2, 8}, {3, 6}, {4, 8}, {5, 6}, {6, 6}, {7, 3}, {8, 4}, {9, 4}, {10, 2}, {11, 2}, {12, 5}, {13, 3},
                  {14, 3}, {15, 4}, {16, 3}, {17, 5}, {18, 3}, {19, 5}, {20, 5}, {21, 4}, {22, 4}, {23, 3}, {24, 4}, {25, 2}};
        u32 total = 0;
        for (size_t i = 0; i < sizeof(ws) / sizeof(ws[0]); i++) {
                total += ws[i].w;
        }
        static const char *const names[] = {"path_open", "fd_close", "fd_write", "fd_read", "fd_pwrite", "fd_pread", "fd_seek", "fd_tell",
                "fd_filestat_get", "path_filestat_get", "fd_fdstat_get", "fd_fdstat_set_flags", "fd_filestat_set_size", "fd_allocate",
                "fd_filestat_set_times", "path_filestat_set_times", "fd_sync", "path_create_directory", "path_remove_directory",
                "path_unlink_file", "path_rename", "path_link", "path_symlink", "path_readlink", "fd_renumber", "fd_prestat"};
        for (int i = 0; i < nops; i++) {
                u32 k;
                int tries = 0;
                do {
                        u32 r = rndn(R_GEN, total);
                        k = 0;
                        while (r >= ws[k].w) {
                                r -= ws[k++].w;
                        }
                } while (!(mask >> k & 1) && ++tries < 40);
                /* every operation draws from a generator of its own so that dropping one does not change the others */
                u64 sub = rnd(R_GEN);
                if (!sim_op_enabled(sim_op_next())) {
                        continue;
                }
                sim_subseed(R_GEN, sub);
                bump = 1024;
                opname = names[k];
                nexec++;
                switch (k) {
                case 0: op_open(); break;
                case 1: op_close(); break;
                case 2: op_rw(true, false); break;
                case 3: op_rw(false, false); break;
                case 4: op_rw(true, true); break;
                case 5: op_rw(false, true); break;
                case 6: op_seek(); break;
                case 7: op_tell(); break;
                case 8: op_fstat(); break;
                case 9: op_pstat(); break;
                case 10: op_fdstat(); break;
                case 11: op_setflags(); break;
                case 12: op_size(false); break;
                case 13: op_size(true); break;
                case 14: op_times(false); break;
                case 15: op_times(true); break;
                case 16: op_sync(); break;
                case 17: op_path1(0); break;
                case 18: op_path1(1); break;
                case 19: op_path1(2); break;
                case 20: op_path2(true); break;
                case 21: op_path2(false); break;
                case 22: op_symlink(); break;
                case 23: op_readlink(); break;
                case 24: op_renumber(); break;
                case 25: op_prestat(); break;
                }
                sim_unsubseed(R_GEN);
                compare();
        }
        memset(cfg.prob, 0, sizeof(cfg.prob));
        emb_teardown(&ww.e);
        opname = "teardown";
        compare();
        sim_sample("%d file operations: %d refused or failed, %d ended by an injected fault", nexec, nerr, ninjected);
}
