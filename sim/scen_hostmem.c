/* P18: host calls with arbitrary arguments; only the areas they describe may change. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>

#include "wasiwrap.h"

#define PAGES 8
#define MEMSZ ((u64)PAGES * WW_PAGE)

/*
 * One letter per argument:
 * f descriptor, k flags, K 64-bit number, c clock, 2 4 8 or other digits in <>: pointer to a result of that size,
 * b m: buffer for results and its length, v n: vectors for input and their number, w n: the same for output,
 * s l: string and its length, S E N: subscriptions, events and their number, A B: strings and their pointers
 */
static const struct {
        const char *name, *args;
} specs[] = {
        {"args_get", "AB"},
        {"args_sizes_get", "<4><4>"},
        {"clock_res_get", "c<8>"},
        {"clock_time_get", "cK<8>"},
        {"environ_get", "AB"},
        {"environ_sizes_get", "<4><4>"},
        {"fd_advise", "fKKk"},
        {"fd_allocate", "fKK"},
        {"fd_close", "f"},
        {"fd_datasync", "f"},
        {"fd_fdstat_get", "f<24>"},
        {"fd_fdstat_set_flags", "fk"},
        {"fd_fdstat_set_rights", "fKK"},
        {"fd_filestat_get", "f<64>"},
        {"fd_filestat_set_size", "fK"},
        {"fd_filestat_set_times", "fKKk"},
        {"fd_pread", "fvnK<4>"},
        {"fd_prestat_dir_name", "fbm"},
        {"fd_prestat_get", "f<8>"},
        {"fd_pwrite", "fwnK<4>"},
        {"fd_read", "fvn<4>"},
        {"fd_readdir", "fbmK<4>"},
        {"fd_renumber", "ff"},
        {"fd_seek", "fKk<8>"},
        {"fd_sync", "f"},
        {"fd_tell", "f<8>"},
        {"fd_write", "fwn<4>"},
        {"path_create_directory", "fsl"},
        {"path_filestat_get", "fksl<64>"},
        {"path_filestat_set_times", "fkslKKk"},
        {"path_link", "fkslfsl"},
        {"path_open", "fkslkKKk<4>"},
        {"path_readlink", "fslbm<4>"},
        {"path_remove_directory", "fsl"},
        {"path_rename", "fslfsl"},
        {"path_symlink", "slfsl"},
        {"path_unlink_file", "fsl"},
        {"poll_oneoff", "SEN<4>"},
        {"random_get", "bm"},
        {"sched_yield", ""},
        {"sock_accept", "fk<4>"},
        {"sock_recv", "fvnk<4><2>"},
        {"sock_send", "fwnk<4>"},
        {"sock_shutdown", "fk"},
        {"u.fd_seek", "fKk<8>"},
        {"u.fd_filestat_get", "f<56>"},
        {"u.path_filestat_get", "fksl<56>"},
};
#define NSPEC (sizeof(specs) / sizeof(specs[0]))

static struct ww ww;
static u32 bump;
static struct reg {
        u64 a, n;
        bool out, opt; /* opt: need not be used completely */
} R[200];
static int nreg;
static struct ofile *lst, *sck;
static u32 ntrap, nok, nerr, nmoved;
static const char *const args_[] = {"program", "", "an argument with spaces", "x"};
static const char *const envs_[] = {"HOME=/", "EMPTY="};

void
cfg_hostmem(void)
{
        static const u32 p[] = {0, 0, 4000, 30000, 150000};
        cfg.prob[F_IOERR] = p[rndn(R_CFG, 5)];
        cfg.prob[F_SHORT] = p[rndn(R_CFG, 5)] * 2;
        cfg.prob[F_EMFILE] = p[rndn(R_CFG, 5)];
        cfg.prob[F_ALLOC] = (u32[]){0, 0, 2000, 10000, 40000}[rndn(R_CFG, 5)];
        cfg.prob[F_RESTART] = p[rndn(R_CFG, 5)];
        cfg.prob[F_EINTR] = p[rndn(R_CFG, 5)];
        cfg.prob[F_EAGAIN] = p[rndn(R_CFG, 5)];
        cfg.prob[F_RANDOM] = p[rndn(R_CFG, 5)] * 4;
}

static bool
inside(u64 a, u64 n)
{
        return a + n <= MEMSZ;
}

/* an address for n bytes; mostly a sensible one */
static u32
place(u64 n, u32 align)
{
        u32 r = rndn(R_GEN, 60);
        if (n > MEMSZ / 2) {
                return r < 10 ? rndn(R_GEN, 64) : r < 20 ? (u32)(MEMSZ - rndn(R_GEN, 64)) : rndn(R_GEN, (u32)MEMSZ);
        }
        if (r == 0) {
                return (u32)(MEMSZ - n); /* ends with the memory */
        }
        if (r == 1) {
                return (u32)(MEMSZ - n + 1 + rndn(R_GEN, n == 0 ? 1 : (u32)n)) & ~(align - 1);
        }
        if (r == 2) {
                return (u32)MEMSZ + align * rndn(R_GEN, 100);
        }
        if (r == 3) {
                return (UINT32_MAX - rndn(R_GEN, 2 * (u32)n + 8)) & ~(rndp(R_GEN, 1, 2) ? align - 1 : 0);
        }
        u64 from = bump;
        if (ww.lazy && rndp(R_GEN, 1, 2) && ww_allocated(&ww) > from && ww_allocated(&ww) + n + 4000 < MEMSZ) {
                from = ww_allocated(&ww);
        }
        from += rndn(R_GEN, rndp(R_GEN, 1, 4) ? 3000 : 40);
        if (from + n + 16 > MEMSZ) {
                from = MEMSZ - n - 16;
        }
        u32 a = ((u32)from + align - 1) & ~(align - 1);
        if (r == 4 && align > 1) {
                return a + rndn(R_GEN, align);
        }
        if (a >= bump) {
                bump = a + (u32)n;
        }
        return a;
}
static u32
wildlen(u32 max)
{
        switch (rndn(R_GEN, 24)) {
        case 0:
                return 0;
        case 1:
                return UINT32_MAX - rndn(R_GEN, 4);
        case 2:
                return (u32)rndlog(R_GEN, 1, UINT32_MAX);
        case 3:
                return (u32)MEMSZ;
        default:
                return 1 + rndn(R_GEN, max);
        }
}
static void
reg(u64 a, u64 n, bool out)
{
        if (nreg < 200) {
                R[nreg].a = a;
                R[nreg].n = n;
                R[nreg].opt = false;
                R[nreg++].out = out;
        }
}

static u32
gen_fd(void)
{
        static const u32 odd[] = {99, 0x7fffffff, 0x80000000, 0xffffffff, 1000000};
        static const u32 ok[] = {0, 1, 2, 3, 4, 5, 6, 10, 11, 4, 5, 5, 3};
        return rndp(R_GEN, 1, 30) ? odd[rndn(R_GEN, 5)] : ok[rndn(R_GEN, 13)];
}
static u64
gen_u64(void)
{
        switch (rndn(R_GEN, 8)) {
        case 0:
                return UINT64_MAX - rndn(R_GEN, 3);
        case 1:
                return (u64)INT64_MAX - rndn(R_GEN, 3);
        case 2:
                return rndlog(R_GEN, 1, UINT64_MAX);
        default:
                return rndn(R_GEN, 200);
        }
}

static void
one(u32 k)
{
        const char *name = specs[k].name, *s = specs[k].args;
        u64 a[12];
        int n = 0;
        nreg = 0;
        bump = 64 + rndn(R_GEN, 200);
        /* the inputs that are not set below are nothing sensible */
        if (ww_allocated(&ww) > 0) {
                memset(ww_mem(&ww), 0xf5, ww_allocated(&ww));
        }
        u32 abase = 0, bufa = 0;
        u64 bufn = 0;
        for (; *s != 0; s++) {
                u64 v = 0;
                switch (*s) {
                case 'f':
                        v = gen_fd();
                        break;
                case 'k':
                        v = rndp(R_GEN, 1, 12) ? (u32)rndlog(R_GEN, 1, UINT32_MAX) : rndn(R_GEN, rndp(R_GEN, 1, 2) ? 2 : 20);
                        break;
                case 'K':
                        v = gen_u64();
                        break;
                case 'c':
                        v = rndp(R_GEN, 1, 8) ? rnd(R_GEN) & 0xffffffff : rndn(R_GEN, 4);
                        break;
                case '<': {
                        u32 sz = (u32)strtoul(s + 1, NULL, 10);
                        while (*s != '>') {
                                s++;
                        }
                        v = place(sz, sz > 8 ? 8 : sz);
                        reg(v, sz, true);
                        break;
                }
                case 'b': {
                        u32 len = wildlen(rndp(R_GEN, 1, 4) ? 5000 : 200);
                        v = place(len, 1);
                        reg(v, len, true);
                        R[nreg - 1].opt = strcmp(name, "random_get") != 0; /* else: at most that much */
                        bufa = (u32)v;
                        bufn = len;
                        if (!strcmp(name, "random_get") && inside(v, len) && len < 6000) {
                                ww_need(&ww, v + len);
                                memset(ww_mem(&ww) + v, 0, len);
                        }
                        a[n++] = v;
                        s++;
                        v = len;
                        break;
                }
                case 'v':
                case 'w': {
                        bool out = *s == 'v';
                        u32 cnt = rndp(R_GEN, 1, 30) ? (u32)rndlog(R_GEN, 1, UINT32_MAX) : rndp(R_GEN, 1, 30) ? 0x80000000u >> rndn(R_GEN, 4) : rndn(R_GEN, 12);
                        u64 bytes = (u64)cnt * 8;
                        v = place(bytes, 4);
                        reg(v, bytes, false);
                        if (inside(v, bytes) && cnt < 40) {
                                ww_need(&ww, v + bytes);
                                for (u32 i = 0; i < cnt; i++) {
                                        u32 len = rndp(R_GEN, 1, 40) ? wildlen(100) : rndn(R_GEN, rndp(R_GEN, 1, 3) ? 400 : 20);
                                        u32 p = place(len, 1);
                                        ww_p32(&ww, (u32)v + 8 * i, p);
                                        ww_p32(&ww, (u32)v + 8 * i + 4, len);
                                        reg(p, len, out);
                                        if (!out && rndp(R_GEN, 1, 2) && inside(p, len) && len < 2000) {
                                                ww_need(&ww, (u64)p + len);
                                        }
                                }
                                /* the vectors may have been placed over each other: believe the memory */
                                for (u32 i = 0; i < cnt; i++) {
                                        struct reg *r = &R[nreg - cnt + i];
                                        r->a = ww_u32(&ww, (u32)v + 8 * i);
                                        r->n = ww_u32(&ww, (u32)v + 8 * i + 4);
                                }
                        }
                        a[n++] = v;
                        s++;
                        v = cnt;
                        break;
                }
                case 's': {
                        static const char *const ps[] = {"a", "sub", "sub/x", "lnk", "new", ".", "sub/..", "none/x", "b"};
                        const char *str = ps[rndn(R_GEN, 9)];
                        u32 len = rndp(R_GEN, 1, 12) ? wildlen(600) : (u32)strlen(str);
                        v = place(len, 1);
                        reg(v, len, false);
                        if (inside(v, len) && len == strlen(str)) {
                                ww_put(&ww, (u32)v, str, len);
                        }
                        a[n++] = v;
                        s++;
                        v = len;
                        break;
                }
                case 'S': {
                        u32 cnt = rndp(R_GEN, 1, 20) ? (u32)rndlog(R_GEN, 1, UINT32_MAX) : rndn(R_GEN, 10);
                        u64 in = (u64)cnt * 48, out = (u64)cnt * 32;
                        v = place(in, 8);
                        u32 o = place(out, 8);
                        if (rndp(R_GEN, 1, 20)) {
                                o = (u32)v; /* over each other */
                        }
                        reg(v, in, false);
                        reg(o, out, true);
                        if (inside(v, in) && cnt < 60) {
                                ww_need(&ww, v + in);
                                for (u32 i = 0; i < cnt; i++) {
                                        u32 x = (u32)v + 48 * i;
                                        u8 tag = rndp(R_GEN, 1, 60) ? 3 + (u8)rndn(R_GEN, 253) : i == 0 ? 0 : 1 + (u8)rndn(R_GEN, 2);
                                        ww_put(&ww, x + 8, &tag, 1);
                                        static const u32 fds[] = {0, 1, 2, 3, 4, 5, 10, 99, 0xffffffff};
                                        ww_p32(&ww, x + 16, tag == 0 ? rndn(R_GEN, rndp(R_GEN, 1, 10) ? 4 : 2) : fds[rndn(R_GEN, 9)]);
                                        ww_p64(&ww, x + 24, rndn(R_GEN, 3) * 10 * SEC);
                                        ww_p64(&ww, x + 40, rndn(R_GEN, 2));
                                }
                        }
                        a[n++] = v;
                        a[n++] = o;
                        s += 2;
                        v = cnt;
                        break;
                }
                case 'A': {
                        bool env = name[0] == 'e';
                        u32 cnt = env ? 2 : 4;
                        bufn = 0;
                        for (u32 i = 0; i < cnt; i++) {
                                bufn += strlen(env ? envs_[i] : args_[i]) + 1;
                        }
                        v = place(cnt * 4, 4);
                        reg(v, cnt * 4, true);
                        abase = (u32)v;
                        a[n++] = v;
                        s++;
                        v = place(bufn, 1);
                        bufa = (u32)v;
                        reg(v, bufn, true);
                        break;
                }
                default:
                        abort();
                }
                a[n++] = v;
        }
        bool bad = false;
        for (int i = 0; i < nreg; i++) {
                if (!inside(R[i].a, R[i].n)) {
                        bad |= R[i].n > 0 && !R[i].opt;
                }
                if (R[i].out) {
                        if (ww.nout < 63) {
                                ww_outs(&ww, R[i].a, R[i].n);
                        } else {
                                return; /* too many to describe */
                        }
                }
        }
        while (lst->npend < 3) {
                lst->pend[lst->npend++] = of_sock(chan_new(8), chan_new(8));
        }
        u64 before = ww_allocated(&ww);
        int got = wc_(&ww, name, n, a);
        nmoved += ww_allocated(&ww) != before && before != 0;
        u8 drain[4096];
        while (chan_get(std_out, drain, sizeof(drain)) > 0 || chan_get(sck->wch, drain, sizeof(drain)) > 0) {
        }
        if (got == WC_TRAP) {
                ntrap++;
                PROBE("host-call-trap");
                return;
        }
        if (got == WC_ERR) {
                if (ww.e.ret == ENOMEM && ww_fired(&ww, F_ALLOC) > 0) {
                        return;
                }
                sim_violation("outcome", "%s ended the execution with error %d", name, ww.e.ret);
        }
        if (got != 0) {
                nerr++;
                return;
        }
        nok++;
        if (bad) {
                sim_violation("out-of-bounds", "%s succeeded with an area outside the memory", name);
        }
        if (strchr(specs[k].args, 'A') != NULL) {
                bool env = name[0] == 'e';
                u32 cnt = env ? 2 : 4;
                bool apart = abase + cnt * 4 <= bufa || bufa + bufn <= abase;
                u32 at = bufa;
                for (u32 i = 0; i < cnt && apart; i++) {
                        const char *str = env ? envs_[i] : args_[i];
                        if (ww_u32(&ww, abase + 4 * i) != at || memcmp(ww_mem(&ww) + at, str, strlen(str) + 1)) {
                                sim_violation("result", "%s did not store string %u", name, i);
                        }
                        at += strlen(str) + 1;
                }
        }
        if (!strcmp(name, "args_sizes_get") || !strcmp(name, "environ_sizes_get")) {
                bool env = name[0] == 'e';
                if (a[0] + 4 <= a[1] || a[1] + 4 <= a[0]) {
                        if (ww_u32(&ww, (u32)a[0]) != (env ? 2 : 4) || ww_u32(&ww, (u32)a[1]) != (env ? 14 : 35)) {
                                sim_violation("result", "%s reports %u strings of %u bytes", name, ww_u32(&ww, (u32)a[0]), ww_u32(&ww, (u32)a[1]));
                        }
                }
        }
        if (!strcmp(name, "random_get") && bufn < 6000) {
                for (u64 i = 0; i < bufn; i++) {
                        if (ww_mem(&ww)[bufa + i] == 0) {
                                sim_violation("result", "random_get of %llu bytes did not fill byte %llu", (unsigned long long)bufn, (unsigned long long)i);
                        }
                }
        }
}

void
run_hostmem(void)
{
        ww_begin(&ww, PAGES);
        ww.lazy = rndp(R_GEN, 1, 2);
        w_mkdir(W, "/d");
        w_mkdir(W, "/d/sub");
        world_add_file(W, "/d/a", "0123456789abcdef", 16);
        world_add_file(W, "/d/sub/x", "x", 1);
        world_add_file(W, "/d/sub/y", "y", 1);
        w_symlink(W, "sub/x", "/d/lnk");
        W->quota = 1 << 20;
        ww.e.npreopen = 1;
        ww.e.preopen[0] = "/d";
        ww.e.argc = 4;
        ww.e.argv = (const char **)args_;
        ww.e.nenv = 2;
        ww.e.envs = (const char **)envs_;
        struct chan *r = chan_new(4096), *o = chan_new(1 << 16);
        u8 b[600];
        memset(b, 'q', sizeof(b));
        chan_put(r, b, sizeof(b));
        r->wclosed = true;
        sck = of_sock(r, o);
        lst = of_listen();
        ww.e.hostfd[0].wasi = 10;
        ww.e.hostfd[0].host = world_install(sck, -1);
        ww.e.hostfd[1].wasi = 11;
        ww.e.hostfd[1].host = world_install(lst, -1);
        sck->refs++;
        lst->refs++;
        ww.e.nhostfd = 2;
        struct sim_cfg saved = cfg;
        memset(cfg.prob, 0, sizeof(cfg.prob));
        int ret = ww_start(&ww);
        if (ret != 0) {
                sim_violation("setup", "setting up failed: %d %s", ret, ww.e.loadmsg);
        }
        /* a file and a directory */
        ww_put(&ww, 16, "asub", 4);
        ww.check = false;
        if (wc(&ww, "path_open", 3, 0, 16, 1, 0, 0xffffffff & ~(1u << 14), 0, 0, 32) != 0 || wc(&ww, "path_open", 3, 0, 17, 3, 2, 1 << 14, 0, 0, 32) != 0) {
                sim_violation("setup", "opening the files failed");
        }
        ww.check = true;
        memcpy(cfg.prob, saved.prob, sizeof(cfg.prob));
        int nops = rndr(R_GEN, 3, 40);
        u32 only = rndp(R_GEN, 1, 3) ? rndn(R_GEN, NSPEC) : NSPEC;
        for (int i = 0; i < nops; i++) {
                u64 sub = rnd(R_GEN);
                if (!sim_op_enabled(sim_op_next())) {
                        continue;
                }
                sim_subseed(R_GEN, sub);
                u32 k = only < NSPEC && rndp(R_GEN, 3, 4) ? only : rndn(R_GEN, NSPEC);
                if (strcmp(specs[k].name, "fd_close") || rndp(R_GEN, 1, 4)) {
                        one(k);
                }
                sim_unsubseed(R_GEN);
        }
        memset(cfg.prob, 0, sizeof(cfg.prob));
        emb_teardown(&ww.e);
        sim_sample("%u host calls succeeded, %u failed, %u trapped; the memory moved during %u\n", nok, nerr, ntrap, nmoved);
}
