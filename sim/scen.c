#include "simrt.h"
#define SCENARIOS(X) \
        X("atomics", run_atomics, cfg_threads) \
        X("wait", run_wait, cfg_wait) \
        X("grow", run_grow, cfg_grow) \
        X("spawn", run_spawn, cfg_spawn) \
        X("exit", run_exit, cfg_exit) \
        X("file", run_file, cfg_file) \
        X("dir", run_dir, cfg_dir) \
        X("fd", run_fd, cfg_fd) \
        X("stream", run_stream, cfg_stream) \
        X("poll", run_poll, cfg_poll) \
        X("hostmem", run_hostmem, cfg_hostmem) \
        X("hostrace", run_hostrace, cfg_hostrace) \
        X("prog", run_prog, cfg_prog) \
        X("oom", run_oom, cfg_oom) \
        X("intr", run_intr, cfg_intr) \
        X("sched", run_sched, cfg_sched) \
        X("load", run_load, cfg_load) \
        X("mem", run_mem, cfg_mem) \
        X("cli", run_cli, cfg_cli) \
        X("dyld", run_dyld, cfg_dyld) \
        X("save", run_save, cfg_save)
#define DECL(n, r, c) \
        void r(void); \
        void c(void);
SCENARIOS(DECL)
#define ENT(n, r, c) {n, r, c},
const struct scenario scenarios[] = {SCENARIOS(ENT)};
const int nscenarios = sizeof(scenarios) / sizeof(scenarios[0]);
