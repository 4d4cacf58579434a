#define _GNU_SOURCE
#include "drv.h"
#include <sanitizer/asan_interface.h>

int tbl_len(const argus_option_t *t) { int n = 0; while (t[n].type != TYPE_NONE) n++; return n; }
unsigned d_dress;
/* With d_fixed every run takes its table (names, texts, validators and all) and its arguments from one arena, so that
   consecutive runs find other contents at the same addresses: whatever the library remembers by address goes wrong.  The
   gaps between the blocks are poisoned, overflows are seen as on the heap. */
bool d_fixed = true;
static char arena[1 << 20] __attribute__((aligned(64))); static size_t arena_n; static int live;
static bool mine(const void *p) { return (const char *)p >= arena && (const char *)p < arena + sizeof arena; }
static void *grab(size_t n)
{
    size_t k = (n + 16 + 31) / 32 * 32;
    if (!d_fixed || arena_n + k > sizeof arena) return malloc(n);
    void *p = arena + arena_n; ASAN_POISON_MEMORY_REGION(p, k); ASAN_UNPOISON_MEMORY_REGION(p, n); arena_n += k; return p;
}
static void drop(void *p) { if (!mine(p)) free(p); }
static bool room(size_t n) { return d_fixed && arena_n + n + 64 < sizeof arena / 2; }
static const void *again(const void *p, size_t n) { if (!p || !room(n)) return p; void *q = grab(n); memcpy(q, p, n); return q; }
static const char *text(const char *s) { return s ? again(s, strlen(s) + 1) : NULL; }
static const char **names(const char **v)
{
    size_t n = 0, b = 0; if (!v) return v; for (; v[n]; n++) b += strlen(v[n]) + 64; if (!room(b + (n + 1) * sizeof *v)) return v;
    const char **w = grab((n + 1) * sizeof *w); for (size_t i = 0; i < n; i++) w[i] = text(v[i]); w[n] = NULL; return w;
}
static validator_entry_t **checks(validator_entry_t **v)
{
    size_t n = 0; if (!v) return v; for (; v[n]; n++) {} if (!room((n + 1) * (sizeof **v + 64))) return v;
    validator_entry_t **w = grab((n + 1) * sizeof *w); w[n] = NULL;
    for (size_t i = 0; i < n; i++) {
        validator_entry_t *e = grab(sizeof *e); *e = *v[i]; w[i] = e; choices_data_t *c = &e->data.choices;
        if (e->func == regex_validator) { e->data.regex.pattern = text(e->data.regex.pattern); e->data.regex.hint = text(e->data.regex.hint); }
        else if (e->func == choices_int_validator || e->func == choices_float_validator) c->as_ints = (int64_t *)(uintptr_t)again(c->as_ints, c->count * sizeof *c->as_ints);
        else if (e->func == choices_string_validator && c->as_strings && room(c->count * sizeof(char *))) { char **q = grab(c->count * sizeof *q); for (size_t k = 0; k < c->count; k++) q[k] = (char *)(uintptr_t)text(c->as_strings[k]); c->as_strings = q; }
    }
    return w;
}
/* commands that share one table of options also share its copy */
#define SHARED_MAX 1024
static struct { const argus_option_t *t; argus_option_t *c; } shared[SHARED_MAX]; static int nshared;
/* marks 32 and 64: automatic naming beside an explicit name; a prefix for the program that no option takes */
static bool d_env;
static argus_option_t *copy(const argus_option_t *t)
{
    for (int i = 0; i < nshared; i++) if (shared[i].t == t) return shared[i].c;
    int n = tbl_len(t) + 1;
    argus_option_t *c = grab(sizeof *c * (size_t)n);
    if (nshared < SHARED_MAX) { shared[nshared].t = t; shared[nshared++].c = c; }
    memcpy(c, t, sizeof *c * (size_t)n);
    for (int i = 0; i < n; i++) {
        if (c[i].type == TYPE_SUBCOMMAND && c[i].sub_options) c[i].sub_options = copy(c[i].sub_options);
        unsigned f = 0;
        if (c[i].type == TYPE_OPTION || c[i].type == TYPE_SUBCOMMAND) f = (d_dress & 1 ? FLAG_HIDDEN : 0u) | (d_dress & 2 ? FLAG_ADVANCED : 0u);
        if (c[i].type == TYPE_OPTION || c[i].type == TYPE_SUBCOMMAND || (c[i].value_type & VALUE_TYPE_VARIADIC)) f |= (d_dress & 4 ? FLAG_DEPRECATED : 0u) | (d_dress & 8 ? FLAG_EXPERIMENTAL : 0u);
        if (d_env && d_dress & 32 && c[i].type == TYPE_OPTION) f |= FLAG_AUTO_ENV * !!c[i].env_name;
        if (d_env && d_dress & 64 && (c[i].type == TYPE_OPTION || c[i].type == TYPE_POSITIONAL)) f |= FLAG_NO_ENV_PREFIX;
        c[i].flags |= f;
        if (d_dress & 16 && c[i].type != TYPE_NONE && c[i].type != TYPE_GROUP) { c[i].help = "100% other text\nof %s two lines"; if (c[i].type != TYPE_SUBCOMMAND) c[i].hint = "HINT"; }
        if (d_fixed && c[i].type != TYPE_NONE) {
            const char *name = text(c[i].name); c[i].lname = c[i].lname == c[i].name ? name : text(c[i].lname); c[i].name = name;
            c[i].help = text(c[i].help); c[i].hint = text(c[i].hint); c[i].env_name = (char *)(uintptr_t)text(c[i].env_name);
            c[i].validators = checks(c[i].validators); c[i].require = names(c[i].require); c[i].conflict = names(c[i].conflict);
        }
    }
    return c;
}
argus_option_t *tbl_copy(const argus_option_t *t) { nshared = 0; return copy(t); }
typedef struct { mc_fn fn; const void *arg; } dressed_t;
static void dressed(uint64_t idx, const void *arg)
{
    static const unsigned MASK[D_DRESSES] = {1 + 32, 2, 4 + 64, 8, 16 + 32 + 64, 31}; const dressed_t *d = arg;
    d_dress = MASK[idx % D_DRESSES]; d->fn(idx / D_DRESSES, d->arg); d_dress = 0;
}
static void undress(void) { d_dress = 0; }
void d_space_dressed(const char *name, uint64_t count, mc_fn fn, const void *arg)
{
    static const char *had[256]; static int nhad; for (int i = 0; i < nhad; i++) if (!strcmp(had[i], name)) return; 
    if (nhad < 256) had[nhad++] = strdup(name);
    dressed_t *d = malloc(sizeof *d); d->fn = fn; d->arg = arg; char *n = malloc(strlen(name) + 10); sprintf(n, "%s, marked", name);
    mc_case_reset = undress; mc_space(n, count * D_DRESSES, dressed, d);
}
void d_space(const char *name, uint64_t count, mc_fn fn, const void *arg) { mc_space(name, count, fn, arg); if (count <= D_DRESSED_MAX) d_space_dressed(name, count, fn, arg); }
static void tables(argus_option_t *t)
{
    for (int i = 0; i < nshared; i++) if (shared[i].c == t) return;
    if (nshared == SHARED_MAX) return;
    shared[nshared++].c = t;
    for (int i = 0; t[i].type != TYPE_NONE; i++) if (t[i].type == TYPE_SUBCOMMAND && t[i].sub_options) tables(t[i].sub_options);
}
void tbl_free(argus_option_t *t) { nshared = 0; tables(t); for (int i = 0; i < nshared; i++) drop(shared[i].c); }
void d_words(dcase_t *c, int n, const char **w) { c->argc = n; for (int i = 0; i < n; i++) c->argv[i] = w[i]; }

/* argus_init prints and exits on invalid tables in debug builds; tables here are valid unless stated */
static void init_body(void *p)
{
    drun_t *r = p;
    r->argus = _argus_init_validate(r->opts, "prog", "1.0", r->c->debug_validate);
}
void d_begin(drun_t *r, const dcase_t *c)
{
    memset(r, 0, sizeof *r);
    r->c = c;
    if (live++ == 0) arena_n = 0;
    d_env = !c->env_prefix && !c->debug_validate; r->opts = tbl_copy(c->tmpl);
    r->argc = c->argc + 1;
    r->argv = grab(sizeof(char *) * (size_t)(r->argc + 1));
    r->argv[0] = grab(5); strcpy(r->argv[0], "prog");
    for (int i = 0; i < c->argc; i++) { size_t n = strlen(c->argv[i]) + 1; r->argv[i + 1] = grab(n); memcpy(r->argv[i + 1], c->argv[i], n); }
    r->argv[r->argc] = NULL;
    for (int i = 0; i < c->nenv; i++) setenv(c->ename[i], c->evalue[i], 1);
    init_body(r);
    r->argus.env_prefix = d_env && d_dress & 64 ? "PFX" : c->env_prefix; d_env = false;
    if (c->tweak) c->tweak(&r->argus);
}
long d_fault_nth = -2; bool d_fault_sticky;
static void parse_body(void *p) { drun_t *r = p; r->status = argus_parse(&r->argus, r->argc, r->argv); }
void d_parse(drun_t *r)
{
    cap_reset();
    d_trace[0] = 0;
    r->status = -1;
    track_resume();
    if (d_fault_nth > -2) fault_arm(d_fault_nth, d_fault_sticky);
    r->exited = guarded(parse_body, r, &r->exit_code);
    fault_disarm();
    track_pause();
    r->error_code = r->argus.error_code;
    cap_out(&r->outlen); cap_err(&r->errlen);
}
void d_free(drun_t *r) { track_resume(); argus_free(&r->argus); track_pause(); }
bool d_argv_intact(drun_t *r)
{
    if (!r->argv[0] || strcmp(r->argv[0], "prog") || r->argv[r->argc]) return false;
    for (int i = 0; i < r->c->argc; i++) if (strcmp(r->argv[i + 1], r->c->argv[i])) return false;
    return true;
}
void d_env_clear(const dcase_t *c) { for (int i = 0; i < c->nenv; i++) unsetenv(c->ename[i]); }
void d_end(drun_t *r)
{
    if (live > 0) live--;
    d_env_clear(r->c);
    for (int i = 0; i < r->argc; i++) drop(r->argv[i]);
    drop(r->argv);
    tbl_free(r->opts);
}
void d_note_case(const dcase_t *c, const char *tname)
{
    if (!mc_describe) return;
    if (d_dress) mc_note("marks=%u ", d_dress);
    mc_note("table=%s argv=[", tname);
    for (int i = 0; i < c->argc; i++) mc_note("%s'%s'", i ? " " : "", c->argv[i]);
    mc_note("]");
    if (c->env_prefix) mc_note(" prefix='%s'", c->env_prefix);
    for (int i = 0; i < c->nenv; i++) mc_note(" env %s='%s'", c->ename[i], c->evalue[i]);
}
const argus_option_t *d_level(drun_t *r, int level)
{
    return level == 0 ? r->opts : r->argus.subcommand_stack[level - 1]->sub_options;
}
void d_path(drun_t *r, int level, const char *name, char *buf, size_t sz)
{
    if (level == 0) { snprintf(buf, sz, ".%s", name); return; }
    size_t n = 0;
    for (int i = 0; i < level; i++) n += (size_t)snprintf(buf + n, sz - n, "%s.", r->argus.subcommand_stack[i]->name);
    snprintf(buf + n, sz - n, "%s", name);
}
#define W(...) do { int k_ = snprintf(buf + n, n < sz ? sz - n : 0, __VA_ARGS__); if (k_ > 0) n += (size_t)k_; if (n >= sz) n = sz - 1; } while (0)
static size_t dump_val(char *buf, size_t n, size_t sz, argus_valtype_t t, argus_value_t v)
{
    if (t & (VALUE_TYPE_STRING | VALUE_TYPE_ARRAY_STRING | VALUE_TYPE_MAP_STRING | VALUE_TYPE_VARIADIC_STRING)) {
        if (v.as_string) W("'%s'", v.as_string); else W("null");
    } else if (t & (VALUE_TYPE_INT | VALUE_TYPE_MAP_INT | VALUE_TYPE_VARIADIC_INT)) W("%lld", (long long)v.as_int64);
    else if (t & VALUE_TYPE_ARRAY_INT) W("%d", v.as_int);
    else if (t & (VALUE_TYPE_FLOAT | VALUE_TYPE_ARRAY_FLOAT | VALUE_TYPE_MAP_FLOAT | VALUE_TYPE_VARIADIC_FLOAT)) W("%a", v.as_float);
    else W("%d", v.as_bool);
    return n;
}
size_t d_dump(drun_t *r, char *buf, size_t sz)
{
    size_t n = 0; char path[2048];
    buf[0] = 0;
    if (r->exited) { W("exit(%d)", r->exit_code); return n; }
    W("status=%d", r->status);
    if (r->status != 0) return n;
    int depth = (int)r->argus.subcommand_depth;
    W(" depth=%d", depth);
    for (int l = 0; l <= depth; l++) {
        const argus_option_t *o = d_level(r, l);
        if (!o) continue;
        if (l) W(" <%s>", r->argus.subcommand_stack[l - 1]->name);
        for (int i = 0; o[i].type != TYPE_NONE; i++) {
            if (o[i].type != TYPE_OPTION && o[i].type != TYPE_POSITIONAL) continue;
            d_path(r, l, o[i].name, path, sizeof path);
            bool set = argus_is_set(&r->argus, path);
            W(" %s:%d", o[i].name, set);
            argus_valtype_t t = o[i].value_type;
            if (t & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC)) {
                size_t c = argus_count(&r->argus, path);
                W("[");
                for (size_t k = 0; k < c; k++) { if (k) W(","); n = dump_val(buf, n, sz, t, argus_array_get(&r->argus, path, k)); }
                W("]");
            } else if (t & VALUE_TYPE_MAP) {
                argus_map_it_t it = argus_map_it(&r->argus, path);
                W("{");
                while (argus_map_next(&it)) { W("%s=", it.key); n = dump_val(buf, n, sz, t, it.value); W(","); }
                W("}");
            } else {
                W("="); 
                n = dump_val(buf, n, sz, t, argus_get(&r->argus, path));
            }
        }
    }
    return n;
}

char d_trace[1 << 14]; int d_trace_on;
static size_t tr_n;
void d_trace_add(const char *name, const char *value)
{
    if (!d_trace_on) return;
    tr_n = strlen(d_trace);
    snprintf(d_trace + tr_n, sizeof d_trace - tr_n, value ? "%s=%s;" : "%s;", name, value);
}
#define LOGH(fn, real) int fn(argus_t *a, argus_option_t *o, char *v) { d_trace_add(o->name, v); return real(a, o, v); }
LOGH(d_log_flag, flag_handler)
LOGH(d_log_string, string_handler)
LOGH(d_log_int, int_handler)
LOGH(d_log_float, float_handler)
LOGH(d_log_vstring, variadic_string_handler)
LOGH(d_log_vint, variadic_int_handler)
LOGH(d_log_vfloat, variadic_float_handler)
LOGH(d_log_bool, bool_handler)
LOGH(d_log_as, array_string_handler)
LOGH(d_log_ai, array_int_handler)
LOGH(d_log_af, array_float_handler)
LOGH(d_log_ms, map_string_handler)
LOGH(d_log_mi, map_int_handler)
LOGH(d_log_mf, map_float_handler)
LOGH(d_log_mb, map_bool_handler)
