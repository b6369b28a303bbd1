/* Runs harness entries natively with given inputs: replays counterexamples and validates sampled
 * paths of the symbolic executor against the compiled code.
 *
 *   runner LIB JOBS      one job per block of lines:
 *     job ENTRY CASE TIER SECONDS
 *     s HEX | c N        inputs in order
 *     t HEX              expected trace (optional)
 *     run
 * Every job runs in its own process.  Output: one line per job. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

struct shared {
    char why[400];
    int done;
    size_t ntrace;
    unsigned char trace[1 << 20];
};
static struct shared *sh;
struct input { char kind; uint64_t n; unsigned char *d; size_t len; };
static struct input *inp;
static size_t ninp, pos;
static uint64_t job_case, job_tier;
static int armed;
static uint64_t lim_single = (1ull << 30), lim_total = ~0ull, live;

static void stop(const char *fmt, uint64_t a, uint64_t b)
{
    snprintf(sh->why, sizeof sh->why, fmt, (unsigned long long)a, (unsigned long long)b);
    _exit(9);
}
static void charge(size_t n)
{
    if (!armed) return;
    if (n > lim_single) { armed = 0; stop("MEMORY single allocation of %llu bytes, limit %llu", n, lim_single); }
}
static void *added(void *p)
{
    if (p) {
        live += malloc_usable_size(p);
        if (armed && live > lim_total) { armed = 0; stop("MEMORY live heap of %llu bytes, limit %llu", live, lim_total); }
    }
    return p;
}
void *malloc(size_t n) { charge(n); return added(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { charge(a * b); return added(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n)
{
    charge(n);
    if (p) live -= malloc_usable_size(p);
    return added(__libc_realloc(p, n));
}
void free(void *p)
{
    if (p) live -= malloc_usable_size(p);
    __libc_free(p);
}
int posix_memalign(void **r, size_t al, size_t n)
{
    charge(n);
    *r = added(__libc_memalign(al, n));
    return *r ? 0 : ENOMEM;
}
void *aligned_alloc(size_t al, size_t n) { charge(n); return added(__libc_memalign(al, n)); }

void vp_sym(unsigned char *p, size_t n)
{
    if (pos >= ninp) { memset(p, 0, n); pos++; return; }
    if (inp[pos].kind != 's' || inp[pos].len != n) stop("INPUTS input %llu does not fit", pos, 0);
    memcpy(p, inp[pos++].d, n);
}
uint64_t vp_choose(uint64_t n)
{
    if (pos >= ninp) { pos++; return 0; }
    if (inp[pos].kind != 'c' || inp[pos].n >= n) stop("INPUTS choice %llu does not fit", pos, 0);
    return inp[pos++].n;
}
uint64_t vp_first(uint64_t n)
{
    if (job_case >= n) stop("INPUTS case %llu of %llu", job_case, n);
    return job_case;
}
void vp_assume(bool c) { if (!c) stop("ASSUME", 0, 0); }
void vp_assert(bool c, uint32_t id) { if (!c) stop("ASSERT %llu", id, 0); }
void vp_cover(uint32_t id) { (void)id; }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_mem_limit(uint64_t single, uint64_t total)
{
    lim_single = single;
    lim_total = total > ~0ull - live ? ~0ull : total + live;
    armed = 1;
}
void vp_step_limit(uint64_t n) { (void)n; }
void vp_split(uint64_t n) { (void)n; }
void vp_trace(const unsigned char *p, size_t n)
{
    for (size_t i = 0; i < n && sh->ntrace < sizeof sh->trace; i++) sh->trace[sh->ntrace++] = p[i];
}
uint64_t vp_case(void) { return job_case; }
uint64_t vp_tier(void) { return job_tier; }
void vp_print(const unsigned char *p, size_t n) { fprintf(stderr, "print: %.*s\n", (int)n, p); }
bool vp_is_sym(uint64_t v) { (void)v; return false; }
bool vp_same(const void *a, const void *b) { (void)a; (void)b; return false; }
void vp_mark(uint64_t n) { (void)n; }

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static unsigned char *unhex(const char *s, size_t *n)
{
    size_t l = strspn(s, "0123456789abcdefABCDEF") / 2;
    unsigned char *d = __libc_malloc(l + 1);
    for (size_t i = 0; i < l; i++) d[i] = hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]);
    *n = l;
    return d;
}

int main(int argc, char **argv)
{
    if (argc < 3) return 3;
    int inproc = argc > 3; /* no child: for running under valgrind */
    void *lib = dlopen(argv[1], RTLD_NOW);
    if (!lib) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE *f = fopen(argv[2], "r");
    if (!f) return 3;
    char *line = 0, entry[256] = "";
    size_t cap = 0;
    unsigned secs = 20;
    unsigned char *want = 0;
    size_t nwant = 0;
    int bad = 0;
    inp = __libc_calloc(1 << 16, sizeof *inp);
    while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "job ", 4)) {
            unsigned long long c, t;
            if (sscanf(line + 4, "%255s %llu %llu %u", entry, &c, &t, &secs) != 4) return 3;
            job_case = c, job_tier = t;
            for (size_t i = 0; i < ninp; i++) __libc_free(inp[i].d);
            ninp = 0;
            __libc_free(want);
            want = 0;
            nwant = 0;
        } else if (line[0] == 's') {
            inp[ninp].kind = 's';
            inp[ninp].d = unhex(line + 2, &inp[ninp].len);
            if (ninp < 65535) ninp++;
        } else if (line[0] == 'c') {
            inp[ninp].kind = 'c';
            inp[ninp].d = 0;
            inp[ninp].n = strtoull(line + 2, 0, 10);
            if (ninp < 65535) ninp++;
        } else if (line[0] == 't') {
            want = unhex(line + 2, &nwant);
        } else if (!strncmp(line, "run", 3)) {
            void (*fn)(void) = (void (*)(void))dlsym(lib, entry);
            if (!fn) { printf("MISSING %s\n", entry); bad = 1; continue; }
            sh->why[0] = 0, sh->done = 0, sh->ntrace = 0;
            pos = 0;
            fflush(stdout);
            if (inproc) { fn(); return 0; }
            pid_t p = fork();
            if (!p) {
                struct rlimit none = {0, 0};
                setrlimit(RLIMIT_CORE, &none);
                struct rlimit as = {12ull << 30, 12ull << 30};
                setrlimit(RLIMIT_AS, &as);
                alarm(secs);
                fn();
                sh->done = 1;
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (sh->why[0]) printf("%s\n", sh->why);
            else if (WIFSIGNALED(st)) printf(WTERMSIG(st) == SIGALRM ? "TIMEOUT %d\n" : "SIGNAL %d\n", WTERMSIG(st) == SIGALRM ? (int)secs : WTERMSIG(st));
            else if (!sh->done) printf("EXIT %d\n", WEXITSTATUS(st));
            else if (want && (nwant != sh->ntrace || memcmp(want, sh->trace, nwant))) {
                size_t i = 0;
                while (i < nwant && i < sh->ntrace && want[i] == sh->trace[i]) i++;
                printf("TRACE differs at byte %zu (%zu expected, %zu observed)\n", i, nwant, sh->ntrace);
            } else printf("OK %zu\n", sh->ntrace);
        }
    }
    return bad;
}
