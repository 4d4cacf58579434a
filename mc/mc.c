#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <sanitizer/common_interface_defs.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ spaces */
void (*mc_case_reset)(void);
typedef struct { const char *name; uint64_t count, chunk; mc_fn fn; const void *arg; } space_t;
#define MAX_SPACES 512
static space_t spaces[MAX_SPACES];
static int nspaces;

void mc_space_chunk(const char *name, uint64_t count, uint64_t chunk, mc_fn fn, const void *arg)
{
    if (nspaces >= MAX_SPACES) { fprintf(stderr, "too many spaces\n"); exit(3); }
    if (!count) return;
    char *n = strdup(name);
    spaces[nspaces++] = (space_t){n, count, chunk, fn, arg};
}
void mc_space(const char *name, uint64_t count, mc_fn fn, const void *arg)
{
    mc_space_chunk(name, count, 4096, fn, arg);
}

/* ------------------------------------------------------------------ shared memory */
#define MAX_VIOL 24
#define MAX_WORKERS 16
#define STATE_BITS 22
typedef struct { int space; uint64_t chunk_start, idx; int kind; /*0 fail 1 crash 2 hang*/ char msg[512]; } viol_t;
typedef struct {
    volatile uint64_t cur_idx; volatile uint64_t case_started; /* ns */
    int space; uint64_t start, end; pid_t pid; int active;
} slot_t;
typedef struct {
    volatile uint64_t cases, trans, execs, nstates, states_full;
    volatile int nviol;
    viol_t viol[MAX_VIOL];
    slot_t slot[MAX_WORKERS];
    char note[16384]; size_t note_len; char failmsg[2048]; int failed;
    uint64_t states[1u << STATE_BITS];
} shm_t;
static shm_t *S;

int mc_describe;
static int my_slot = -1;
static sigjmp_buf fail_env;
static uint64_t l_trans, l_execs;

static uint64_t now_ns(void)
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec;
}

void mc_note(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    size_t room = sizeof S->note - S->note_len;
    int n = vsnprintf(S->note + S->note_len, room, fmt, ap);
    va_end(ap);
    if (n > 0) S->note_len += (size_t)n < room ? (size_t)n : room - 1;
}
static char l_fail[512];
void mc_fail(const char *fmt, ...)
{
    track_pause(); fault_disarm();
    va_list ap; va_start(ap, fmt);
    vsnprintf(l_fail, sizeof l_fail, fmt, ap);
    va_end(ap);
    siglongjmp(fail_env, 1);
}
void mc_trans(uint64_t n) { l_trans += n; }
void mc_exec(uint64_t n) { l_execs += n; }
void mc_state(uint64_t h)
{
    if (!h) h = 1;
    uint32_t mask = (1u << STATE_BITS) - 1, i = (uint32_t)(h ^ (h >> 32)) & mask;
    if (S->nstates > (mask - mask / 8)) { S->states_full = 1; return; }
    for (int probe = 0; probe < 4096; probe++, i = (i + 1) & mask) {
        uint64_t cur = __atomic_load_n(&S->states[i], __ATOMIC_RELAXED);
        if (cur == h) return;
        if (cur == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&S->states[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(&S->nstates, 1, __ATOMIC_RELAXED);
                return;
            }
            if (z == h) return;
        }
    }
    S->states_full = 1;
}

/* ------------------------------------------------------------------ capture */
#define CAP_SZ (1u << 18)
typedef struct { char *buf; size_t len; } cap_t;
static cap_t capo, cape;
static FILE *fo, *fe, *orig_out, *orig_err;
static bool real_err; static int real_err_fd = -1, saved_fd2 = -1;
static char obuf[1 << 14], ebuf[1 << 14];
static ssize_t cap_write(void *c, const char *b, size_t n)
{
    cap_t *cap = c;
    size_t k = n;
    if (cap->len + k > CAP_SZ - 1) k = CAP_SZ - 1 - cap->len;
    memcpy(cap->buf + cap->len, b, k);
    cap->len += k;
    return (ssize_t)n;
}
static void cap_init(void)
{
    capo.buf = malloc(CAP_SZ); cape.buf = malloc(CAP_SZ);
    cookie_io_functions_t io = {.write = cap_write};
    fo = fopencookie(&capo, "w", io); fe = fopencookie(&cape, "w", io);
    setvbuf(fo, obuf, _IOFBF, sizeof obuf); setvbuf(fe, ebuf, _IOFBF, sizeof ebuf);
    orig_out = stdout; orig_err = stderr;
    stdout = fo; stderr = fe;
}
void cap_use_real_stderr(bool on)
{
    if (on == real_err) return;
    real_err = on;
    if (on) {
        if (real_err_fd < 0) real_err_fd = memfd_create("stderr", 0);
        saved_fd2 = dup(2);
        dup2(real_err_fd, 2);
        stderr = orig_err;
    } else {
        fflush(stderr);
        dup2(saved_fd2, 2); close(saved_fd2);
        stderr = fe;
    }
}
void cap_reset(void)
{
    fflush(stdout); fflush(stderr);
    capo.len = cape.len = 0;
    if (real_err) { if (ftruncate(real_err_fd, 0)) {} lseek(real_err_fd, 0, SEEK_SET); }
}
char *cap_out(size_t *len)
{
    fflush(stdout);
    capo.buf[capo.len] = 0;
    if (len) *len = capo.len;
    return capo.buf;
}
char *cap_err(size_t *len)
{
    fflush(stderr);
    if (real_err) {
        ssize_t n = pread(real_err_fd, cape.buf, CAP_SZ - 1, 0);
        cape.len = n > 0 ? (size_t)n : 0;
    }
    cape.buf[cape.len] = 0;
    if (len) *len = cape.len;
    return cape.buf;
}

/* ------------------------------------------------------------------ exit interception */
static jmp_buf exit_env; static volatile int exit_armed; static volatile int exit_code;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code) __attribute__((noreturn));
void __wrap_exit(int code)
{
    if (exit_armed) { exit_code = code; exit_armed = 0; longjmp(exit_env, 1); }
    __real_exit(code);
}
bool guarded(guard_fn fn, void *arg, int *code)
{
    exit_armed = 1;
    if (setjmp(exit_env) == 0) { fn(arg); exit_armed = 0; if (code) *code = -1; return false; }
    if (code) *code = exit_code;
    return true;
}

/* ------------------------------------------------------------------ allocation accounting */
#define TRK (1u << 16)
static struct { const volatile void *p; size_t n; } trk[TRK];
static size_t trk_n, trk_bytes, trk_tot, trk_used; static volatile int trk_on;
static uint32_t trk_used_list[TRK];
static inline uint32_t trk_h(const volatile void *p) { uint64_t x = (uint64_t)p >> 4; x *= 0x9e3779b97f4a7c15ull; return (uint32_t)(x >> 40) & (TRK - 1); }
#define TOMB ((const void *)1)
static void hook_malloc(const volatile void *p, size_t n)
{
    static uint32_t calls; /* an execution that eats memory without end is a failure, not a reason to take the machine down */
    if (n > (1u << 26) || (++calls & 0x7fff) == 0) {
        int fd = open("/proc/self/statm", O_RDONLY); char b[64]; ssize_t k = fd < 0 ? -1 : read(fd, b, sizeof b - 1);
        if (fd >= 0) close(fd);
        if (k > 0) { b[k] = 0; char *q = strchr(b, ' '); if (q && strtoull(q, NULL, 10) > (3ull << 30) / 4096) abort(); }
    }
    if (!trk_on || !p) return;
    trk_tot++;
    if (trk_used >= TRK - 1) return;
    uint32_t i = trk_h(p);
    while (trk[i].p && trk[i].p != TOMB) i = (i + 1) & (TRK - 1);
    if (!trk[i].p) trk_used_list[trk_used++] = i;
    trk[i].p = p; trk[i].n = n; trk_n++; trk_bytes += n;
}
static void hook_free(const volatile void *p)
{
    if (!trk_on || !p || !trk_n) return;
    uint32_t i = trk_h(p);
    while (trk[i].p) {
        if (trk[i].p == p) { trk[i].p = TOMB; trk_n--; trk_bytes -= trk[i].n; return; }
        i = (i + 1) & (TRK - 1);
    }
}
void track_start(void)
{
    trk_on = 0;
    for (size_t k = 0; k < trk_used; k++) trk[trk_used_list[k]].p = NULL;
    trk_used = trk_n = trk_bytes = trk_tot = 0;
    trk_on = 1;
}
void track_pause(void) { trk_on = 0; }
void track_resume(void) { trk_on = 1; }
size_t track_live(void) { return trk_n; }
size_t track_live_bytes(void) { return trk_bytes; }
size_t track_total(void) { return trk_tot; }

/* ------------------------------------------------------------------ allocation faults */
static long f_nth = -1; static bool f_sticky, f_hit, f_on; static uint64_t f_cnt;
void fault_arm(long nth, bool sticky) { f_nth = nth; f_sticky = sticky; f_hit = false; f_cnt = 0; f_on = true; }
void fault_disarm(void) { f_on = false; }
uint64_t fault_count(void) { return f_cnt; }
bool fault_hit(void) { return f_hit; }
static bool f_fail(void)
{
    if (!f_on) return false;
    uint64_t k = f_cnt++;
    if (f_nth < 0) return false;
    bool r = f_sticky ? k >= (uint64_t)f_nth : k == (uint64_t)f_nth;
    if (r) { f_hit = true; errno = ENOMEM; }
    return r;
}
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
/* contents of fresh memory, under the check's control: no outcome may depend on them */
int mc_fill = -1;
size_t __sanitizer_get_allocated_size(const volatile void *p);
void *__wrap_malloc(size_t n) { if (f_fail()) return NULL; void *p = __real_malloc(n); if (p && mc_fill >= 0) memset(p, mc_fill, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { return f_fail() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n)
{
    if (f_fail()) return NULL;
    if (mc_fill < 0) return __real_realloc(p, n);
    size_t old = p ? __sanitizer_get_allocated_size(p) : 0; char *q = __real_realloc(p, n);
    if (q && n > old) memset(q + old, mc_fill, n - old);
    return q;
}
char *__wrap_strdup(const char *s) { return f_fail() ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return f_fail() ? NULL : __real_strndup(s, n); }

/* the regex library allocates by itself: let its two allocating calls fail like any other allocation */
void *__real_pcre2_compile_8(const void *, size_t, uint32_t, int *, size_t *, void *);
void *__wrap_pcre2_compile_8(const void *p, size_t l, uint32_t o, int *e, size_t *off, void *c)
{
    if (!f_fail()) return __real_pcre2_compile_8(p, l, o, e, off, c);
    *e = 121; *off = 0; return NULL; /* "failed to allocate heap memory" */
}
void *__real_pcre2_match_data_create_from_pattern_8(const void *, void *);
void *__wrap_pcre2_match_data_create_from_pattern_8(const void *p, void *c) { return f_fail() ? NULL : __real_pcre2_match_data_create_from_pattern_8(p, c); }
void *__real_pcre2_match_data_create_8(uint32_t, void *);
void *__wrap_pcre2_match_data_create_8(uint32_t n, void *c) { return f_fail() ? NULL : __real_pcre2_match_data_create_8(n, c); }

/* ------------------------------------------------------------------ sequences */
uint64_t seq_count(unsigned a, unsigned maxlen)
{
    uint64_t t = 1, p = 1;
    for (unsigned i = 0; i < maxlen; i++) { p *= a; t += p; }
    return t;
}
unsigned seq_decode(uint64_t idx, unsigned a, unsigned maxlen, unsigned *out)
{
    uint64_t p = 1; unsigned len = 0;
    while (idx >= p && len < maxlen) { idx -= p; p *= a; len++; }
    for (unsigned i = len; i-- > 0;) { out[i] = (unsigned)(idx % a); idx /= a; }
    return len;
}

/* ------------------------------------------------------------------ running */
const char *__asan_default_options(void)
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
           "hard_rss_limit_mb=3000:malloc_context_size=12:max_malloc_fill_size=4096:malloc_fill_byte=202:"
           "quarantine_size_mb=4:thread_local_quarantine_size_kb=256:handle_abort=1:"
           "detect_stack_use_after_return=0:allow_user_segv_handler=0";
}
const char *__ubsan_default_options(void) { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }

static void worker_init(void)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    cap_init();
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
}
/* Runs one case; returns true if it failed (message in l_fail). */
static bool run_case(int sp, uint64_t idx)
{
    bool failed = false;
    cap_reset();
    if (mc_case_reset) mc_case_reset();
    if (sigsetjmp(fail_env, 0) == 0) spaces[sp].fn(idx, spaces[sp].arg);
    else failed = true;
    exit_armed = 0;
    track_pause(); fault_disarm();
    return failed;
}
/* Run fn once in a process of its own, before any case; what it writes to shared memory stays. */
bool mc_isolated(void (*fn)(void *), void *arg)
{
    fflush(NULL); pid_t p = fork();
    if (p == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1); worker_init(); alarm(20); if (sigsetjmp(fail_env, 0) == 0) { fn(arg); _exit(0); } _exit(1); }
    int st = 1; if (p > 0) waitpid(p, &st, 0);
    return p > 0 && st == 0;
}
static void worker_chunk(int slot, int sp, uint64_t start, uint64_t end)
{
    worker_init();
    my_slot = slot;
    slot_t *s = &S->slot[slot];
    uint64_t done = 0;
    for (uint64_t i = start; i < end; i++) {
        s->cur_idx = i;
        s->case_started = now_ns();
        if (run_case(sp, i)) {
            int k = __atomic_fetch_add(&S->nviol, 1, __ATOMIC_SEQ_CST);
            if (k < MAX_VIOL) {
                viol_t *v = &S->viol[k];
                v->space = sp; v->chunk_start = start; v->idx = i; v->kind = 0;
                snprintf(v->msg, sizeof v->msg, "%s", l_fail);
            }
            done++;
            break; /* the rest of the chunk is continued by a fresh worker */
        }
        done++;
    }
    __atomic_fetch_add(&S->cases, done, __ATOMIC_RELAXED);
    __atomic_fetch_add(&S->trans, l_trans, __ATOMIC_RELAXED);
    __atomic_fetch_add(&S->execs, l_execs, __ATOMIC_RELAXED);
    _exit(0);
}

/* Replay in a fresh process: cases [from..idx]; describe only the last.  Fills S->note/failmsg.
 * Result: 0 ok, 1 failed, 2 crashed, 3 hung */
static int replay(int sp, uint64_t from, uint64_t idx, int limit_s, char *crash, size_t crash_sz)
{
    S->note_len = 0; S->note[0] = 0; S->failmsg[0] = 0; S->failed = 0;
    int fd = memfd_create("crash", 0);
    pid_t p = fork();
    if (p == 0) {
        dup2(fd, 2);
        worker_init();
        for (uint64_t i = from; i < idx; i++) run_case(sp, i);
        mc_describe = 1;
        bool f = run_case(sp, idx);
        if (f) { S->failed = 1; snprintf(S->failmsg, sizeof S->failmsg, "%s", l_fail); }
        _exit(0);
    }
    uint64_t t0 = now_ns(); int st; int res = -1;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now_ns() - t0 > (uint64_t)limit_s * 1000000000ull) { kill(p, SIGKILL); waitpid(p, &st, 0); res = 3; break; }
        usleep(1000);
    }
    if (res < 0) res = (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? (S->failed ? 1 : 0) : 2;
    if (res == 2 && crash) {
        char buf[8192]; ssize_t n = pread(fd, buf, sizeof buf - 1, 0); if (n < 0) n = 0; buf[n] = 0;
        char *e = strstr(buf, "ERROR: "); if (!e) e = strstr(buf, "runtime error"); if (!e) e = buf;
        snprintf(crash, crash_sz, "%s", e);
        char *nl = strchr(crash, '\n'); if (nl) *nl = 0;
        /* first frame inside the library */
        char *fr = strstr(e, "/source/");
        if (fr) { while (fr > e && fr[-1] != '\n') fr--; char *end = strchr(fr, '\n'); size_t L = strlen(crash);
            snprintf(crash + L, crash_sz - L, " | %.*s", (int)(end ? end - fr : 200), fr); }
    }
    close(fd);
    S->note[sizeof S->note - 1] = 0;
    return res;
}

/* ------------------------------------------------------------------ known findings */
static char *known[256]; static int nknown; static int known_hit[256];
static void load_known(const char *path)
{
    FILE *f = fopen(path, "r"); if (!f) return;
    char line[4096]; char pre[64]; snprintf(pre, sizeof pre, "finding: property=%s ", mc_property);
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if (strncmp(line, pre, strlen(pre)) == 0) {
            char *k = strstr(line, "case=\""); if (!k) continue; k += 6;
            char *e = strstr(k, "\" what="); if (!e) continue; *e = 0;
            if (nknown < 256) known[nknown++] = strdup(k);
        }
    }
    fclose(f);
}
/* A finding is identified by the exact description of a failing case, or by a prefix ended by '*'. */
static int match_known(const char *note)
{
    for (int i = 0; i < nknown; i++) {
        size_t L = strlen(known[i]);
        if (L && known[i][L - 1] == '*' ? !strncmp(known[i], note, L - 1) : !strcmp(known[i], note)) return i;
    }
    return -1;
}

static void json_str(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

int main(int argc, char **argv)
{
    const char *tier = "quick", *evid = NULL, *rdir = ".", *kfile = NULL, *replayf = NULL, *level = "model_checking";
    int jobs = 8; const char *only = NULL; bool list = false;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--tier")) tier = argv[++i];
        else if (!strcmp(argv[i], "--evidence")) evid = argv[++i];
        else if (!strcmp(argv[i], "--replaydir")) rdir = argv[++i];
        else if (!strcmp(argv[i], "--known")) kfile = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replayf = argv[++i];
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--only")) only = argv[++i];
        else if (!strcmp(argv[i], "--level")) level = argv[++i];
        else if (!strcmp(argv[i], "--list")) list = true;
    }
    if (jobs > MAX_WORKERS) jobs = MAX_WORKERS;
    char rtier[32] = ""; char rspace[256] = ""; uint64_t rfrom = 0, ridx = 0;
    if (replayf) {
        FILE *f = fopen(replayf, "r"); if (!f) { perror(replayf); return 3; }
        char line[1024];
        while (fgets(line, sizeof line, f)) {
            sscanf(line, "tier=%31s", rtier);
            if (!strncmp(line, "space=", 6)) { snprintf(rspace, sizeof rspace, "%s", line + 6); rspace[strcspn(rspace, "\n")] = 0; }
            unsigned long long x; if (sscanf(line, "from=%llu", &x) == 1) rfrom = x; if (sscanf(line, "idx=%llu", &x) == 1) ridx = x;
        }
        fclose(f); tier = rtier;
    }
    int thorough = !strcmp(tier, "thorough");
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 3; }
    mc_register(thorough);
    if (list) { uint64_t t = 0; for (int i = 0; i < nspaces; i++) { printf("%12llu %s\n", (unsigned long long)spaces[i].count, spaces[i].name); t += spaces[i].count; } printf("%12llu total\n", (unsigned long long)t); return 0; }
    if (replayf) {
        for (int i = 0; i < nspaces; i++) if (!strcmp(spaces[i].name, rspace)) {
            char crash[1024] = ""; int r = replay(i, rfrom, ridx, 60, crash, sizeof crash);
            printf("case: %s\nresult: %s %s%s\n", S->note, r == 0 ? "held" : r == 1 ? "FAILED" : r == 2 ? "CRASHED" : "HUNG", S->failmsg, crash);
            return r ? 1 : 0;
        }
        fprintf(stderr, "no such space\n"); return 3;
    }
    if (kfile) load_known(kfile);
    uint64_t t0 = now_ns();

    /* work queue: (space, start) in order, plus continuation ranges */
    int sp = 0; uint64_t next = 0; int running = 0;
    struct { int sp; uint64_t s, e; } cont[64]; int ncont = 0;
    int exec_limit_s = 10; bool stop = false;
    uint64_t t_hist = 0; (void)t_hist;
    for (;;) {
        while (running < jobs && !stop) {
            int csp = -1; uint64_t cs = 0, ce = 0;
            if (ncont) { ncont--; csp = cont[ncont].sp; cs = cont[ncont].s; ce = cont[ncont].e; }
            else {
                while (sp < nspaces && (next >= spaces[sp].count || (only && !strstr(spaces[sp].name, only)))) { sp++; next = 0; }
                if (sp >= nspaces) break;
                csp = sp; cs = next; ce = cs + spaces[sp].chunk; if (ce > spaces[sp].count) ce = spaces[sp].count; next = ce;
            }
            int k = 0; while (S->slot[k].active) k++;
            slot_t *s = &S->slot[k];
            s->space = csp; s->start = cs; s->end = ce; s->cur_idx = cs; s->case_started = now_ns(); s->active = 1;
            fflush(NULL);
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 3; }
            if (p == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1); worker_chunk(k, csp, cs, ce); }
            s->pid = p; running++;
        }
        if (!running) break;
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int k = 0; k < MAX_WORKERS; k++) if (S->slot[k].active && S->slot[k].pid == p) {
                slot_t *s = &S->slot[k]; s->active = 0; running--;
                uint64_t cur = s->cur_idx;
                bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                if (!clean) {
                    if (getenv("MC_DEBUG")) fprintf(stderr, "debug: worker %d st=%x space=%d [%llu,%llu) cur=%llu\n", p, st, s->space, (unsigned long long)s->start, (unsigned long long)s->end, (unsigned long long)cur);
                    int v = __atomic_fetch_add(&S->nviol, 1, __ATOMIC_SEQ_CST);
                    if (v < MAX_VIOL) { S->viol[v].space = s->space; S->viol[v].chunk_start = s->start; S->viol[v].idx = cur; S->viol[v].kind = s->pid < 0 ? 2 : 1; S->viol[v].msg[0] = 0; }
                    S->cases += cur - s->start + 1;
                }
                if (cur + 1 < s->end && ncont < 64) { cont[ncont].sp = s->space; cont[ncont].s = cur + 1; cont[ncont].e = s->end; ncont++; }
                if (S->nviol >= MAX_VIOL) stop = true;
            }
            continue;
        }
        uint64_t now = now_ns();
        for (int k = 0; k < MAX_WORKERS; k++) { slot_t *s = &S->slot[k];
            uint64_t began = __atomic_load_n(&s->case_started, __ATOMIC_RELAXED); /* one read: the worker keeps writing it */
            if (s->active && now > began && now - began > (uint64_t)exec_limit_s * 1000000000ull) kill(s->pid, SIGKILL); }
        usleep(200);
    }

    /* confirm every candidate violation by replaying it in a fresh process */
    int confirmed = 0, nk = 0; int nv = S->nviol < MAX_VIOL ? S->nviol : MAX_VIOL; int unconfirmed = 0;
    char vpaths[MAX_VIOL][600]; 
    uint64_t t_explore = now_ns() - t0;
    for (int v = 0; v < nv; v++) {
        viol_t *x = &S->viol[v]; char crash[1024] = ""; uint64_t from = x->idx;
        if (confirmed >= 5) break;
        int r = replay(x->space, from, x->idx, 25, crash, sizeof crash);
        if (r == 0) { from = x->chunk_start; r = replay(x->space, from, x->idx, 120, crash, sizeof crash); }
        if (r == 0) { unconfirmed++; continue; }
        char note[16384]; snprintf(note, sizeof note, "%s", S->note); 
        char what[4096]; snprintf(what, sizeof what, "%s%s", r == 1 ? S->failmsg : r == 2 ? "crash: " : "does not terminate", crash);
        int kn = from == x->idx ? match_known(note) : -1;
        if (kn >= 0) { if (!known_hit[kn]++) { printf("KNOWN-FINDING: property=%s %s: %s\n", mc_property, note, what); nk++; } continue; }
        snprintf(vpaths[confirmed], sizeof vpaths[0], "%s/%s-%d.replay", rdir, mc_property, confirmed);
        FILE *f = fopen(vpaths[confirmed], "w");
        if (f) { fprintf(f, "property=%s\ntier=%s\nspace=%s\nfrom=%llu\nidx=%llu\ncase=%s\nwhat=%s\n", mc_property, tier, spaces[x->space].name, (unsigned long long)from, (unsigned long long)x->idx, note, what); fclose(f); }
        printf("VIOLATION property=%s replay=%s\n  case: %s\n  what: %s\n", mc_property, vpaths[confirmed], note, what);
        confirmed++;
    }
    uint64_t total = 0; for (int i = 0; i < nspaces; i++) if (!only || strstr(spaces[i].name, only)) total += spaces[i].count;
    double wall = (double)(now_ns() - t0) / 1e9;
    printf("%s %s: spaces=%d cases=%llu/%llu executions=%llu transitions=%llu distinct_outcomes=%llu%s candidates=%d unconfirmed=%d violations=%d wall=%.1fs (explore %.1fs)\n",
           mc_property, tier, nspaces, (unsigned long long)S->cases, (unsigned long long)total, (unsigned long long)S->execs, (unsigned long long)S->trans,
           (unsigned long long)S->nstates, S->states_full ? "+" : "", S->nviol, unconfirmed, confirmed, wall, t_explore / 1e9);
    /* samples: describe the first, a middle and the last case of some spaces */
    if (evid) {
        FILE *f = fopen(evid, "w");
        if (!f) { perror(evid); return 3; }
        bool fe_level = !strcmp(level, "fault_enumeration");
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %s,\n \"level\": \"%s\",\n \"coverage\": {\n", mc_property, tier, getenv("VERIF_SEED") && *getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1", level);
        if (fe_level) fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": ", (unsigned long long)S->execs, (unsigned long long)S->nstates), json_str(f, mc_bounds), fprintf(f, ",\n");
        else fprintf(f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n  \"bounds\": ", (unsigned long long)S->nstates, (unsigned long long)S->trans, (unsigned long long)S->execs), json_str(f, mc_bounds), fprintf(f, ",\n");
        fprintf(f, "  \"cases_in_spaces\": %llu,\n  \"cases_run\": %llu,\n  \"exhaustive\": %s,\n  \"spaces\": {", (unsigned long long)total, (unsigned long long)S->cases, S->cases == total && !stop ? "true" : "false");
        for (int i = 0; i < nspaces; i++) { fprintf(f, "%s\n   ", i ? "," : ""); json_str(f, spaces[i].name); fprintf(f, ": %llu", (unsigned long long)spaces[i].count); }
        fprintf(f, "\n  },\n  \"samples\": [");
        int step = nspaces > 6 ? nspaces / 6 : 1, first = 1;
        for (int i = 0; i < nspaces; i += step) {
            uint64_t idx = spaces[i].count * 2 / 3; int r = replay(i, idx, idx, 20, NULL, 0); (void)r;
            char tmp[16384]; snprintf(tmp, sizeof tmp, "%s#%llu: %.600s", spaces[i].name, (unsigned long long)idx, S->note);
            fprintf(f, "%s\n   ", first ? "" : ","); json_str(f, tmp); first = 0;
        }
        fprintf(f, "\n  ]\n },\n \"assumptions\": [");
        const char *as[] = {"sequential library: no schedules; the C library, compiler and sanitizers are trusted", "behaviours outside the stated alphabets and bounds are not covered"};
        for (int i = 0; i < 2; i++) { fprintf(f, "%s", i ? ", " : ""); json_str(f, as[i]); }
        fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, confirmed);
        fclose(f);
    }
    if (confirmed) return 1;
    if (S->cases != total || stop) {
        /* every case must have run; unexplained shortfall is an error of the check */
        if (!nk && !unconfirmed) { fprintf(stderr, "incomplete exploration\n"); return 4; }
    }
    return 0;
}
