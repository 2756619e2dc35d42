/* Runner: one forked child per simulated run. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "simfs.h"
#include "simrt.h"

const char *
__asan_default_options(void)
{
        return "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=16:"
               "handle_abort=1:handle_segv=1:symbolize=1:print_legend=0:print_full_thread_history=0:malloc_context_size=8";
}

static void
asan_cb(const char *rep)
{
        if (shm->status != ST_RUN) {
                return;
        }
        const char *p = strstr(rep, "AddressSanitizer: ");
        char what[48] = "error";
        if (p != NULL) {
                p += strlen("AddressSanitizer: ");
                size_t n = strcspn(p, " \n");
                if (n > 40) {
                        n = 40;
                }
                memcpy(what, p, n);
                what[n] = 0;
        }
        bool freed = !strcmp(what, "heap-use-after-free") || !strcmp(what, "attempting");
        snprintf(shm->kind, sizeof(shm->kind), "%s", freed ? "use-after-free" : "memory-error");
        const char *s = strstr(rep, "SUMMARY: ");
        char fr[600] = "";
        size_t l = 0;
        const char *q = rep;
        for (int i = 0; i < 6 && (q = strstr(q, " in ")) != NULL && l < sizeof(fr) - 1; i++) {
                q += 4;
                size_t n = strcspn(q, " \n(");
                l += snprintf(fr + l, sizeof(fr) - l, "%.*s < ", (int)n, q);
                if (l >= sizeof(fr)) {
                        break;
                }
        }
        snprintf(shm->msg, sizeof(shm->msg), "%s: %s (frames: %s)", what, s ? s : "", fr);
        char *sb = strstr(shm->msg, "Shadow bytes");
        if (sb != NULL) {
                snprintf(sb, shm->msg + sizeof(shm->msg) - sb, "(frames: %s)", fr);
        }
        for (char *c = shm->msg; *c; c++) {
                if (*c == '\n') {
                        *c = ' ';
                }
        }
        shm->status = ST_VIOL;
}

/* "+end" after the name: everything has to be given back in the end */
static bool check_end;
static const struct scenario *
find_scenario(const char *name)
{
        size_t n = strcspn(name, "+");
        check_end = !strcmp(name + n, "+end");
        for (int i = 0; i < nscenarios && (check_end || name[n] == 0); i++) {
                if (!strncmp(scenarios[i].name, name, n) && scenarios[i].name[n] == 0) {
                        return &scenarios[i];
                }
        }
        fprintf(stderr, "unknown scenario %s\n", name);
        exit(2);
}

static void
root(void *vp)
{
        const struct scenario *s = vp;
        s->run();
        if (check_end) {
                cfg.fault_on = false;
                sim_kill_actors();
                sim_join_all(); /* a thread may have an instruction or two left */
                sim_check_leaks("in the end");
                world_check_released();
                int n = sim_unreleased_threads();
                if (n != 0) {
                        sim_violation("thread-leak", "%d threads were neither joined nor detached in the end", n);
                }
        }
}

static void
child(const struct scenario *s)
{
        if (!sim_verbose) {
                int fd = open("/dev/null", O_RDWR);
                dup2(fd, 0);
                dup2(fd, 1);
                dup2(fd, 2);
        }
        __asan_set_error_report_callback(asan_cb);
        sim_start();
        sim_default_cfg();
        if (s->config != NULL) {
                s->config();
        }
        world_init();
        sim_run_root(root, (void *)s);
        if (shm->status == ST_RUN) {
                shm->status = ST_OK;
        }
        _exit(0);
}

static void
shm_reset(void)
{
        memset(shm, 0, offsetof(struct sim_shm, dec));
}

static int wall_limit = 30;

/* returns status: ST_OK, ST_VIOL, ST_SKIP or -1 (error) */
static int
run_one(const struct scenario *s)
{
        shm_reset();
        fflush(NULL);
        pid_t pid = fork();
        if (pid < 0) {
                perror("fork");
                return -1;
        }
        if (pid == 0) {
                struct rlimit rl = {wall_limit, wall_limit + 5};
                setrlimit(RLIMIT_CPU, &rl);
                alarm(wall_limit * 3);
                child(s);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        if (shm->status == ST_RUN && WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) {
                /* a run normally takes milliseconds */
                snprintf(shm->kind, sizeof(shm->kind), "hang");
                snprintf(shm->msg, sizeof(shm->msg), "the run used %d s of CPU time without finishing", wall_limit);
                shm->trace_hash = 1;
                shm->status = ST_VIOL;
        }
        if (shm->status == ST_RUN) {
                snprintf(shm->kind, sizeof(shm->kind), "harness");
                snprintf(shm->msg, sizeof(shm->msg), "child ended without a result: status %x", st);
                return -1;
        }
        if (shm->status == ST_VIOL && shm->trace_hash == 0) {
                shm->trace_hash = 1;
        }
        return shm->status;
}

static void
print_dec(FILE *f)
{
        for (u32 i = 0; i < shm->ndec; i++) {
                struct dec *d = &shm->dec[i];
                fprintf(f, "dec %c %u %llu %u\n", d->type, d->kind, (unsigned long long)d->key, d->val);
        }
}

static void
print_result(FILE *f, int st)
{
        fprintf(f, "status %s\n", st == ST_OK ? "ok" : st == ST_VIOL ? "violation" : st == ST_SKIP ? "skip" : "error");
        fprintf(f, "kind %s\n", shm->kind);
        fprintf(f, "msg %s\n", shm->msg);
        fprintf(f, "hash %016llx\n", (unsigned long long)shm->trace_hash);
        fprintf(f, "sched %016llx\n", (unsigned long long)shm->sched_hash);
        fprintf(f, "ticks %llu\nvtime %llu\nswitches %llu\nfibers %llu\nops %llu\nsys %llu\nallocs %llu\ngenops %u\nndec %u\noverflow %u\n",
                (unsigned long long)shm->ticks, (unsigned long long)shm->vtime, (unsigned long long)shm->nswitch,
                (unsigned long long)shm->nfibers, (unsigned long long)shm->nops, (unsigned long long)shm->nsys,
                (unsigned long long)shm->nalloc, shm->genops, shm->ndec, shm->dec_overflow);
        for (int k = 0; k < F_NKIND; k++) {
                if (shm->fault_count[k]) {
                        fprintf(f, "fault %s %llu\n", fkind_name[k], (unsigned long long)shm->fault_count[k]);
                }
        }
        for (int i = 0; i < pers->nprobes; i++) {
                if (shm->probe[i]) {
                        fprintf(f, "probe %s %llu\n", pers->probe_names[i], (unsigned long long)shm->probe[i]);
                }
        }
        for (char *l = strtok(shm->sample, "\n"); l != NULL; l = strtok(NULL, "\n")) {
                fprintf(f, "sample %s\n", l);
        }
}

static double
now(void)
{
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static int
batch(const struct scenario *s, u64 start, u64 stride, u64 maxn, double limit, const char *out, const char *known)
{
        u64 runs = 0, viol = 0, nknown = 0, skips = 0, errors = 0;
        u64 tot[9] = {0};
        u64 faults[F_NKIND] = {0}, fruns[F_NKIND] = {0}, probes[NPROBE] = {0};
        u64 mixed = 0;
        static u8 cov[COVSZ], pairs[COVSZ];
        u64 *hashes = malloc(sizeof(u64) * 3 * (maxn + 1));
        u64 nh = 0;
        double t0 = now();
        for (u64 i = 0; i < maxn; i++) {
                if (now() - t0 > limit) {
                        break;
                }
                sim_index = start + i * stride;
                int st = run_one(s);
                if (st < 0) {
                        errors++;
                        printf("E %llu %s %s\n", (unsigned long long)sim_index, shm->kind, shm->msg);
                        fflush(stdout);
                        if (errors > 3) {
                                break;
                        }
                        continue;
                }
                if (st == ST_SKIP) {
                        skips++;
                        continue;
                }
                runs++;
                if (st == ST_VIOL) {
                        if (strstr(known, shm->kind) != NULL && ++nknown > 4) {
                                goto count; /* a kind with a recorded finding */
                        }
                        viol++;
                        printf("V %llu %s %s\n", (unsigned long long)sim_index, shm->kind, shm->msg);
                        fflush(stdout);
                        if (viol - (nknown < 4 ? nknown : 4) >= 8) {
                                break;
                        }
                }
        count:;
                u64 v[] = {shm->ticks, shm->vtime, shm->nswitch, shm->nfibers, shm->nops, shm->nsys, shm->nalloc, shm->genops, shm->ndec};
                for (int k = 0; k < 9; k++) {
                        tot[k] += v[k];
                }
                for (int k = 0; k < F_NKIND; k++) {
                        faults[k] += shm->fault_count[k];
                        fruns[k] += shm->fault_count[k] != 0;
                }
                for (int k = 0; k < NPROBE; k++) {
                        probes[k] += shm->probe[k];
                }
                for (int k = 0; k < COVSZ; k++) {
                        cov[k] |= shm->cov[k];
                        pairs[k] |= shm->pairs[k];
                }
                u64 nf = 0;
                for (int k = 0; k < F_NKIND; k++) {
                        nf += shm->fault_count[k];
                }
                hashes[nh++] = shm->sched_hash;
                hashes[nh++] = shm->trace_hash;
                hashes[nh++] = (shm->nswitch != 0 ? 1 : 0) | (nf != 0 ? 2 : 0);
                mixed ^= hash64(shm->trace_hash, sim_index);
                if (i < 2) {
                        for (char *l = strtok(shm->sample, "\n"); l != NULL; l = strtok(NULL, "\n")) {
                                printf("sample run %llu: %s\n", (unsigned long long)sim_index, l);
                        }
                }
        }
        printf("runs %llu\nskips %llu\nerrors %llu\nviolations %llu\n", (unsigned long long)runs, (unsigned long long)skips,
               (unsigned long long)errors, (unsigned long long)viol);
        static const char *const nm[] = {"ticks", "vtime", "switches", "fibers", "ops", "sys", "allocs", "genops", "ndec"};
        for (int k = 0; k < 9; k++) {
                printf("%s %llu\n", nm[k], (unsigned long long)tot[k]);
        }
        for (int k = 0; k < F_NKIND; k++) {
                if (faults[k]) {
                        printf("fault %s %llu %llu\n", fkind_name[k], (unsigned long long)faults[k], (unsigned long long)fruns[k]);
                }
        }
        for (int i = 0; i < pers->nprobes; i++) {
                printf("probe %s %llu\n", pers->probe_names[i], (unsigned long long)probes[i]);
        }
        printf("mixhash %016llx\nwall %.3f\nguards %u\n", (unsigned long long)mixed, now() - t0, sim_nguards());
        if (out != NULL) {
                FILE *f = fopen(out, "wb");
                if (f != NULL) {
                        fwrite(cov, 1, COVSZ, f);
                        fwrite(pairs, 1, COVSZ, f);
                        fwrite(hashes, 8, nh, f);
                        fclose(f);
                }
        }
        printf("done\n");
        return errors ? 2 : 0;
}

static int
decmp(const void *a, const void *b)
{
        const struct dec *x = a, *y = b;
        if (x->type != y->type) {
                /* 'S' kind 0 first, then the rest in the order rep_find uses */
                return x->type < y->type ? -1 : 1;
        }
        if (x->kind != y->kind) {
                return x->kind < y->kind ? -1 : 1;
        }
        return x->key < y->key ? -1 : x->key > y->key;
}

static int
replay(const char *path, const char *dump)
{
        FILE *f = fopen(path, "r");
        if (f == NULL) {
                perror(path);
                return 2;
        }
        char line[20000];
        const struct scenario *s = NULL;
        static struct dec *decs;
        u32 n = 0, cap = 0;
        static u8 mask[MAXDEC];
        u32 nmask = 0;
        while (fgets(line, sizeof(line), f)) {
                char a[200];
                unsigned long long u, v;
                unsigned k, w;
                char c;
                if (sscanf(line, "scenario %199s", a) == 1) {
                        s = find_scenario(a);
                } else if (sscanf(line, "seed %llu", &u) == 1) {
                        sim_seed = u;
                } else if (sscanf(line, "index %llu", &u) == 1) {
                        sim_index = u;
                } else if (!strncmp(line, "mask", 4)) {
                        char *p = line + 4, *q;
                        for (;;) {
                                v = strtoull(p, &q, 10);
                                if (q == p) {
                                        break;
                                }
                                p = q;
                                if (v < MAXDEC) {
                                        mask[v] = 1;
                                        if (v + 1 > nmask) {
                                                nmask = v + 1;
                                        }
                                }
                        }
                } else if (sscanf(line, "dec %c %u %llu %u", &c, &k, &u, &w) == 4) {
                        if (n == cap) {
                                cap = cap ? cap * 2 : 1024;
                                decs = realloc(decs, cap * sizeof(*decs));
                        }
                        decs[n].type = c;
                        decs[n].kind = k;
                        decs[n].key = u;
                        decs[n].val = w;
                        n++;
                }
        }
        fclose(f);
        if (s == NULL) {
                return 2;
        }
        qsort(decs, n, sizeof(*decs), decmp);
        sim_set_replay(decs, n);
        sim_set_opmask(mask, nmask);
        int st = run_one(s);
        print_result(stdout, st);
        if (dump != NULL) {
                FILE *o = fopen(dump, "w");
                print_dec(o);
                fclose(o);
        }
        printf("done\n");
        return st < 0 ? 2 : 0;
}

int
main(int argc, char **argv)
{
        /* identical addresses in every process */
        int pers_flags = personality(0xffffffff);
        if (pers_flags != -1 && !(pers_flags & ADDR_NO_RANDOMIZE) && getenv("SIM_REEXEC") == NULL) {
                if (personality(pers_flags | ADDR_NO_RANDOMIZE) != -1) {
                        setenv("SIM_REEXEC", "1", 1);
                        execv("/proc/self/exe", argv);
                }
        }
        shm = mmap(NULL, sizeof(*shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pers = mmap(NULL, sizeof(*pers), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (shm == MAP_FAILED || pers == MAP_FAILED) {
                perror("mmap");
                return 2;
        }
        const char *dump = NULL, *out = NULL, *known = "";
        double limit = 1e9;
        u64 stride = 1;
        for (int i = 1; i < argc; i++) {
                if (!strcmp(argv[i], "-v")) {
                        sim_verbose = 1;
                } else if (!strcmp(argv[i], "--dump")) {
                        dump = argv[++i];
                } else if (!strcmp(argv[i], "--out")) {
                        out = argv[++i];
                } else if (!strcmp(argv[i], "--known")) {
                        known = argv[++i];
                } else if (!strcmp(argv[i], "--limit")) {
                        limit = atof(argv[++i]);
                } else if (!strcmp(argv[i], "--stride")) {
                        stride = strtoull(argv[++i], NULL, 10);
                } else {
                        continue;
                }
        }
        if (argc >= 6 && !strcmp(argv[1], "batch")) {
                const struct scenario *s = find_scenario(argv[2]);
                sim_seed = strtoull(argv[3], NULL, 10);
                return batch(s, strtoull(argv[4], NULL, 10), stride, strtoull(argv[5], NULL, 10), limit, out, known);
        }
        if (argc >= 5 && !strcmp(argv[1], "one")) {
                const struct scenario *s = find_scenario(argv[2]);
                sim_seed = strtoull(argv[3], NULL, 10);
                sim_index = strtoull(argv[4], NULL, 10);
                int st = run_one(s);
                print_result(stdout, st);
                if (dump != NULL) {
                        FILE *o = fopen(dump, "w");
                        print_dec(o);
                        fclose(o);
                }
                printf("done\n");
                return st < 0 ? 2 : 0;
        }
        if (argc >= 3 && !strcmp(argv[1], "replay")) {
                return replay(argv[2], dump);
        }
        if (argc >= 2 && !strcmp(argv[1], "list")) {
                for (int i = 0; i < nscenarios; i++) {
                        printf("%s\n", scenarios[i].name);
                }
                return 0;
        }
        fprintf(stderr, "usage: sim batch SCENARIO SEED START COUNT | one SCENARIO SEED INDEX | replay FILE\n");
        return 2;
}
