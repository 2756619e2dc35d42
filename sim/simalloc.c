/* Allocation ledger: every allocation made by toywasm goes through here. */
#define _GNU_SOURCE
#include <errno.h>
#include <sanitizer/common_interface_defs.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "simrt.h"

struct ent {
        void *p;
        size_t sz;
        void *pc;
        u64 seq;
        bool charged; /* on behalf of a memory context */
};
static size_t charged_bytes, charged_blocks;
u64 sim_charged_cap = UINT64_MAX;
static bool charged_over;
static struct ent *tab;
static size_t tabsz, tabn, tabused; /* used includes tombstones */
static size_t live_bytes;
static u64 seq;
#define TOMB ((void *)1)
#define MAXALLOC ((size_t)256 << 20)

static size_t
hp(void *p)
{
        return (size_t)(((u64)p >> 4) * 0x9e3779b97f4a7c15ULL >> 20);
}

static struct ent *ins(void *p, size_t sz, void *pc, u64 sq);
static void
grow(void)
{
        struct ent *o = tab;
        size_t on = tabsz;
        tabsz = tabsz == 0 ? 4096 : tabn * 4 > tabsz ? tabsz * 2 : tabsz;
        tab = calloc(tabsz, sizeof(*tab));
        tabn = tabused = 0;
        live_bytes = 0;
        for (size_t i = 0; i < on; i++) {
                if (o[i].p != NULL && o[i].p != TOMB) {
                        ins(o[i].p, o[i].sz, o[i].pc, o[i].seq)->charged = o[i].charged;
                }
        }
        free(o);
}

static struct ent *
ins(void *p, size_t sz, void *pc, u64 sq)
{
        if (tabused * 2 >= tabsz) {
                grow();
        }
        size_t i = hp(p) & (tabsz - 1);
        while (tab[i].p != NULL && tab[i].p != TOMB) {
                i = (i + 1) & (tabsz - 1);
        }
        if (tab[i].p == NULL) {
                tabused++;
        }
        tab[i].p = p;
        tab[i].sz = sz;
        tab[i].pc = pc;
        tab[i].seq = sq;
        tab[i].charged = false;
        tabn++;
        live_bytes += sz;
        return &tab[i];
}

static struct ent *
find(const void *p)
{
        if (tabsz == 0) {
                return NULL;
        }
        size_t i = hp((void *)p) & (tabsz - 1);
        while (tab[i].p != NULL) {
                if (tab[i].p == p) {
                        return &tab[i];
                }
                i = (i + 1) & (tabsz - 1);
        }
        return NULL;
}

static void *
alloc(size_t sz, bool zero, void *pc)
{
        if (sz >= cfg.alloc_min && sim_fault(F_ALLOC) != 0) {
                errno = ENOMEM;
                return NULL;
        }
        if (sz > MAXALLOC) {
                errno = ENOMEM;
                return NULL;
        }
        void *p;
        if (zero) {
                p = calloc(1, sz);
        } else {
                p = malloc(sz);
                if (p != NULL) {
                        memset(p, 0xa5, sz < 65536 ? sz : 65536);
                }
        }
        if (p == NULL) {
                errno = ENOMEM;
                return NULL;
        }
        ins(p, sz, pc, ++seq);
        return p;
}

void *
sim_malloc(size_t sz)
{
        return alloc(sz, false, __builtin_return_address(0));
}

void *
sim_calloc(size_t n, size_t m)
{
        size_t t;
        if (__builtin_mul_overflow(n, m, &t)) {
                errno = ENOMEM;
                return NULL;
        }
        return alloc(t, true, __builtin_return_address(0));
}

static void
release(struct ent *e)
{
        live_bytes -= e->sz;
        if (e->charged) {
                charged_bytes -= e->sz;
                charged_blocks--;
                charged_over &= charged_bytes > sim_charged_cap;
        }
        tabn--;
        void *p = e->p;
        e->p = TOMB;
        free(p);
}

void
sim_free(void *p)
{
        if (p == NULL) {
                return;
        }
        struct ent *e = find(p);
        if (e == NULL) {
                sim_violation("bad-free", "free() of a pointer that is not a live allocation");
        }
        int er = errno;
        release(e);
        errno = er;
}

static void *
reallocx(void *p, size_t sz, void *pc)
{
        if (p == NULL) {
                return alloc(sz, false, pc);
        }
        struct ent *e = find(p);
        if (e == NULL) {
                sim_violation("bad-free", "realloc() of a pointer that is not a live allocation");
        }
        if (sz == 0) {
                release(e);
                return NULL;
        }
        size_t osz = e->sz;
        void *n = alloc(sz, false, pc); /* always moves: stale pointers are caught */
        if (n == NULL) {
                return NULL;
        }
        memcpy(n, p, osz < sz ? osz : sz);
        release(find(p));
        return n;
}

void *
sim_realloc(void *p, size_t sz)
{
        return reallocx(p, sz, __builtin_return_address(0));
}

void *
sim_reallocarray(void *p, size_t n, size_t m)
{
        size_t t;
        if (__builtin_mul_overflow(n, m, &t)) {
                errno = ENOMEM;
                return NULL;
        }
        return reallocx(p, t, __builtin_return_address(0));
}

/* ------------------------------------------------------------------ on behalf of a memory context */
static void *
charge(void *p)
{
        if (p != NULL) {
                struct ent *e = find(p);
                e->charged = true;
                charged_bytes += e->sz;
                charged_blocks++;
                /* a block may be given back only after the one that replaces it was taken */
                bool again = charged_over;
                charged_over = charged_bytes > sim_charged_cap;
                if (again && charged_over) {
                        sim_violation("limit", "%zu bytes are in use on behalf of a memory context limited to %llu", charged_bytes,
                                      (unsigned long long)sim_charged_cap);
                }
        }
        return p;
}
void *
sim_mem_malloc(size_t sz)
{
        return charge(alloc(sz, false, __builtin_return_address(0)));
}
void *
sim_mem_calloc(size_t n, size_t m)
{
        size_t t;
        if (__builtin_mul_overflow(n, m, &t)) {
                errno = ENOMEM;
                return NULL;
        }
        return charge(alloc(t, true, __builtin_return_address(0)));
}
void *
sim_mem_realloc(void *p, size_t sz)
{
        return charge(reallocx(p, sz, __builtin_return_address(0)));
}
void
sim_mem_free(void *p)
{
        sim_free(p);
}
size_t
sim_charged_bytes(size_t *blocks)
{
        if (blocks != NULL) {
                *blocks = charged_blocks;
        }
        return charged_bytes;
}

char *
sim_strdup(const char *s)
{
        size_t n = strlen(s) + 1;
        char *p = alloc(n, false, __builtin_return_address(0));
        if (p != NULL) {
                memcpy(p, s, n);
        }
        return p;
}

char *
sim_strndup(const char *s, size_t max)
{
        size_t n = strnlen(s, max);
        char *p = alloc(n + 1, false, __builtin_return_address(0));
        if (p != NULL) {
                memcpy(p, s, n);
                p[n] = 0;
        }
        return p;
}

int
sim_vasprintf(char **out, const char *fmt, va_list ap)
{
        va_list ap2;
        va_copy(ap2, ap);
        int n = vsnprintf(NULL, 0, fmt, ap2);
        va_end(ap2);
        if (n < 0) {
                return -1;
        }
        char *p = alloc(n + 1, false, __builtin_return_address(0));
        *out = NULL;
        if (p == NULL) {
                return -1;
        }
        vsnprintf(p, n + 1, fmt, ap);
        *out = p;
        return n;
}

int
sim_asprintf(char **out, const char *fmt, ...)
{
        va_list ap;
        va_start(ap, fmt);
        int n = sim_vasprintf(out, fmt, ap);
        va_end(ap);
        return n;
}

size_t
sim_live_bytes(void)
{
        return live_bytes;
}

size_t
sim_live_blocks(void)
{
        return tabn;
}

u64
sim_alloc_count(void)
{
        return seq;
}

struct alloc_mark
sim_alloc_mark(void)
{
        struct alloc_mark m = {seq};
        return m;
}

/* number of live blocks allocated after the mark; describes a few of them */
size_t
sim_live_since(struct alloc_mark m, char *buf, size_t bufsz)
{
        size_t n = 0, l = 0;
        if (bufsz > 0) {
                buf[0] = 0;
        }
        for (size_t i = 0; i < tabsz; i++) {
                if (tab[i].p != NULL && tab[i].p != TOMB && tab[i].seq > m.seq) {
                        n++;
                        if (n <= 3 && l < bufsz) {
                                char s[200] = "";
                                __sanitizer_symbolize_pc((char *)tab[i].pc - 1, "%f", s, sizeof(s));
                                l += snprintf(buf + l, bufsz - l, " [%zu bytes from %s]", tab[i].sz, s);
                        }
                }
        }
        return n;
}

void
sim_check_leaks(const char *where)
{
        char b[800];
        struct alloc_mark m = {0};
        size_t n = sim_live_since(m, b, sizeof(b));
        if (n != 0) {
                sim_violation("leak", "%zu allocations (%zu bytes) not given back %s:%s", n, live_bytes, where, b);
        }
}

bool
sim_block_size(const void *p, size_t *sz)
{
        struct ent *e = find(p);
        if (e == NULL) {
                return false;
        }
        *sz = e->sz;
        return true;
}
