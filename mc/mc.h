/* Bounded exhaustive explorer: engine interface.
 *
 * A check declares a list of finite spaces; each space is an indexed set of cases.  The engine runs
 * every case of every space (never a sample), spread over forked workers, and collects violations.
 * A chunk of consecutive cases runs in one fresh process, so that state leaking from one case into
 * the next can only reach later cases of the same chunk, and is replayed by re-running the chunk. */
#ifndef MC_H
#define MC_H

#include <setjmp.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef void (*mc_fn)(uint64_t idx, const void *arg);

/* ---- provided by each check ---- */
extern const char *mc_property;          /* "C01" */
extern const char *mc_bounds;            /* one-paragraph description of alphabet and bounds */
void               mc_register(int thorough); /* calls mc_space() */

/* ---- registering ---- */
void mc_space(const char *name, uint64_t count, mc_fn fn, const void *arg);
void mc_space_chunk(const char *name, uint64_t count, uint64_t chunk, mc_fn fn, const void *arg);

extern void (*mc_case_reset)(void);      /* called before every case */

/* ---- used inside a case ---- */
extern int mc_describe;                  /* true while a case is being replayed for its description */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define NOTE(...) do { if (mc_describe) mc_note(__VA_ARGS__); } while (0)
void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void mc_state(uint64_t hash);            /* count a distinct observed outcome / model state */
void mc_trans(uint64_t n);               /* count transitions (words, operations) */
void mc_exec(uint64_t n);                /* executions of the implementation compared to the model */

static inline uint64_t mc_mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
static inline uint64_t mc_mixs(uint64_t h, const char *s)
{
    while (*s) h = mc_mix(h, (unsigned char)*s++);
    return mc_mix(h, 0x100);
}

/* ---- environment of the code under test ---- */
/* capture of stdout / stderr (cookie streams) */
void  cap_reset(void);
char *cap_out(size_t *len);              /* NUL-terminated */
char *cap_err(size_t *len);
void  cap_use_real_stderr(bool on);      /* stderr on a real descriptor (needed by the table validator) */

/* run body with exit() intercepted; *code gets the exit status.  Returns true if exit was called. */
typedef void (*guard_fn)(void *);
bool guarded(guard_fn fn, void *arg, int *code);

/* allocation accounting: blocks allocated while tracking and not freed */
void   track_start(void);                /* forget everything, start recording */
void   track_pause(void);
void   track_resume(void);
size_t track_live(void);
size_t track_live_bytes(void);
size_t track_total(void);

/* allocation faults (link-time wrapped malloc/calloc/realloc/strdup/strndup) */
void     fault_arm(long nth, bool sticky); /* nth allocation fails (0-based), or all from it on */
void     fault_disarm(void);
uint64_t fault_count(void);              /* allocations attempted since arming */
bool     fault_hit(void);

extern int mc_fill;                      /* >= 0: byte that fresh memory is filled with (malloc, realloc) */
bool mc_isolated(void (*fn)(void *), void *arg); /* from mc_register: run in a fresh process; results through shared memory */

/* sequence decoding: index -> word sequence over alphabet of size a, shortest first */
uint64_t seq_count(unsigned a, unsigned maxlen);
unsigned seq_decode(uint64_t idx, unsigned a, unsigned maxlen, unsigned *out);

#endif
