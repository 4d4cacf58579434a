/* Driving the library: fresh option tables, fresh argument vectors, captured results. */
#ifndef DRV_H
#define DRV_H
#include "argus.h"
#include "argus/errors.h"
#include "argus/options.h"
#include "argus/regex.h"
#include "mc.h"

#define D_MAXARGS 400
#define D_MAXENV  24

typedef struct {
    const argus_option_t *tmpl;      /* definition (never modified) */
    const argus_option_t *meant;     /* what the definition means, for the model, when it is not the definition itself */
    const char *env_prefix;
    int argc; const char *argv[D_MAXARGS];          /* words, without argv[0] */
    int nenv; const char *ename[D_MAXENV], *evalue[D_MAXENV];
    bool debug_validate;
    void (*tweak)(argus_t *);
} dcase_t;

typedef struct {
    argus_t argus;
    argus_option_t *opts;            /* fresh copy of the definition tree */
    char **argv; int argc;           /* heap copies, exact size */
    const dcase_t *c;
    bool exited; int exit_code; int status; int error_code;
    size_t outlen, errlen;
} drun_t;

/* presentation: copies of tables get marks, hints and help texts that must not influence parsing (bits: hidden, advanced,
   deprecated, experimental, texts, automatic naming beside an
   explicit variable name, a program prefix that no option takes); d_space_dressed repeats a space under six such dressings */
#define D_DRESSES 6
extern unsigned d_dress;
extern bool d_fixed; /* true (default): each run finds table and words at the addresses of the run before, with other contents; false: on the heap, exactly sized */
/* a space, and if it is not too large, also under the dressings */
#define D_DRESSED_MAX 150000
void d_space(const char *name, uint64_t count, void (*fn)(uint64_t, const void *), const void *arg);
void d_space_dressed(const char *name, uint64_t count, void (*fn)(uint64_t, const void *), const void *arg);
argus_option_t *tbl_copy(const argus_option_t *t);
void            tbl_free(argus_option_t *t);
int             tbl_len(const argus_option_t *t);

void d_words(dcase_t *c, int n, const char **w);
/* set up context and words; does not parse */
void d_begin(drun_t *r, const dcase_t *c);
/* argus_parse under exit interception, with allocation tracking on during the call */
void d_parse(drun_t *r);
extern long d_fault_nth; extern bool d_fault_sticky; /* allocation to fail during d_parse: -2 not counted, -1 counted only */
void d_free(drun_t *r);              /* argus_free (tracked) */
void d_end(drun_t *r);               /* release harness memory; checks argv unchanged if asked */
bool d_argv_intact(drun_t *r);
void d_env_clear(const dcase_t *c);
void d_note_case(const dcase_t *c, const char *tname);
/* textual canonical dump of everything observable about a parse through the public API */
size_t d_dump(drun_t *r, char *buf, size_t sz);
void d_path(drun_t *r, int level, const char *name, char *buf, size_t sz);
/* logging handlers: the builtin conversion, after appending "name=value;" to d_trace */
extern char d_trace[1 << 14];
extern int  d_trace_on;
void d_trace_add(const char *name, const char *value);
int d_log_flag(argus_t *a, argus_option_t *o, char *v);
int d_log_string(argus_t *a, argus_option_t *o, char *v);
int d_log_int(argus_t *a, argus_option_t *o, char *v);
int d_log_float(argus_t *a, argus_option_t *o, char *v);
int d_log_vstring(argus_t *a, argus_option_t *o, char *v);
int d_log_vint(argus_t *a, argus_option_t *o, char *v);
int d_log_vfloat(argus_t *a, argus_option_t *o, char *v);
int d_log_bool(argus_t *a, argus_option_t *o, char *v);
int d_log_as(argus_t *a, argus_option_t *o, char *v);
int d_log_ai(argus_t *a, argus_option_t *o, char *v);
int d_log_af(argus_t *a, argus_option_t *o, char *v);
int d_log_ms(argus_t *a, argus_option_t *o, char *v);
int d_log_mi(argus_t *a, argus_option_t *o, char *v);
int d_log_mf(argus_t *a, argus_option_t *o, char *v);
int d_log_mb(argus_t *a, argus_option_t *o, char *v);
#define LOGB HANDLER(d_log_bool)
#define LOGAS HANDLER(d_log_as)
#define LOGAI HANDLER(d_log_ai)
#define LOGAF HANDLER(d_log_af)
#define LOGMS HANDLER(d_log_ms)
#define LOGMI HANDLER(d_log_mi)
#define LOGMF HANDLER(d_log_mf)
#define LOGMB HANDLER(d_log_mb)
#define LOGF HANDLER(d_log_flag)
#define LOGS HANDLER(d_log_string)
#define LOGI HANDLER(d_log_int)
#define LOGD HANDLER(d_log_float)
#define LOGVS HANDLER(d_log_vstring)
#define LOGVI HANDLER(d_log_vint)
#define LOGVD HANDLER(d_log_vfloat)
#define OPTL FLAGS(FLAG_OPTIONAL)
const argus_option_t *d_level(drun_t *r, int level); /* 0 = root ... subcommand_depth */
#endif
