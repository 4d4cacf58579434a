/* Reference model of argus_parse, written from the documentation, independent of the implementation:
 * it reads only the *definition* part of an option table and never calls the library. */
#ifndef MODEL_H
#define MODEL_H
#include "drv.h"

#define M_MAXLEV 10
#define M_MAXOPT 400
#define M_MAXEL  3000
#define M_MAXCOLL 40

typedef struct { int64_t i; double f; int b; const char *s; int n; } mv_t;
typedef struct { int n; mv_t key[M_MAXEL]; mv_t el[M_MAXEL]; } mcoll_t;
typedef struct {
    const argus_option_t *t;
    bool set;        /* provided by the user (command line or environment) */
    bool from_env;
    int  times;      /* occurrences */
    mv_t v; mcoll_t *c;
} mopt_t;
typedef struct { const argus_option_t *tbl; int n; mopt_t o[M_MAXOPT]; const argus_option_t *cmd; } mlev_t;

/* one way to say what is wrong: the texts that a diagnostic of one of these statuses has to name */
#define M_MAXPART 24
#define M_MAXSAY 48
typedef struct { uint64_t errs; int n; bool ordered; const char *p[M_MAXPART]; int len[M_MAXPART]; } msay_t;
enum { M_OK, M_EXIT, M_ERR };
#define M_ANYERR (~3ull)             /* any status other than success / should-exit */
typedef struct {
    int kind; uint64_t errs;         /* acceptable statuses as a bit set */
    int depth; mlev_t lev[M_MAXLEV];
    const char *why;
    int stop_word;                   /* index of the first word with an error / exit, or -1 */
    int nsay; msay_t say[M_MAXSAY];  /* acceptable diagnoses; more than M_MAXSAY: not asserted */
} mres_t;

extern bool m_big;   /* a collection outgrew M_MAXEL: its elements are not compared */
/* value conversion, exposed for the checks */
bool m_int(const char *s, int n, int64_t *out);
bool m_float(const char *s, int n, double *out);
int  m_bool(const char *s, int n);   /* 1 0 -1; -2 = outside the documented list but tolerated */
const char *m_env_name(const dcase_t *c, const argus_option_t *o, char *buf, size_t sz); /* NULL if none */

extern bool (*m_regex_hook)(const char *pattern, const char *val, int n);
/* custom validators: 0 accepts, else the status; pre-validators get the raw text, post-validators val==NULL */
extern int (*m_custom_hook)(const validator_entry_t *v, const mopt_t *o, const char *val, int n);
/* conversions by the application: 0 stored, > 0 refused with that status, < 0 built-in conversion */
extern int (*m_handler_hook)(mopt_t *o, const char *val);
extern char m_trace[1 << 14];
void m_parse(const dcase_t *c, mres_t *r);          /* whole pipeline */
/* compare a run with the model; calls mc_fail on disagreement; returns outcome hash */
uint64_t m_compare(drun_t *r, const mres_t *m);
/* value comparison only (run must have succeeded) */
void m_compare_values(drun_t *r, const mres_t *m);
enum { R_ABSENT, R_OPT, R_SKIP };   /* SKIP: a path naming a subcommand itself, where nothing is promised */
int m_resolve(const mres_t *m, const char *path, const mopt_t **out);
/* does a diagnostic of this status name what is wrong?  *missing: a text it lacks */
bool m_named(const mres_t *m, int status, const char *text, const char **missing, int *len);
bool m_same(argus_valtype_t t, argus_value_t v, mv_t m);
/* convenience: note, run, compare, free */
void m_check(const dcase_t *c, const char *tname);
#endif
