#include "model.h"
#include <ctype.h>
#include <limits.h>
#include <math.h>

static mcoll_t pool[M_MAXCOLL]; static int pool_n; bool m_big;

#define BIT(e) (1ull << ((e) < 0 ? 62 : (e) > 62 ? 61 : (e))) /* 62: negative, 61: large; only callbacks of the application use those */
bool (*m_regex_hook)(const char *pattern, const char *val, int n);
int  (*m_custom_hook)(const validator_entry_t *v, const mopt_t *o, const char *val, int n); /* 0 = accept, else status */

/* ------------------------------------------------------------ value syntax */
bool m_int(const char *s, int n, int64_t *out)
{
    int i = 0; bool neg = false; __int128 x = 0;
    if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (i >= n) return false;
    for (; i < n; i++) {
        if (s[i] < '0' || s[i] > '9') return false;
        x = x * 10 + (s[i] - '0');
        if (x > ((__int128)1 << 70)) x = (__int128)1 << 70;
    }
    if (neg) x = -x;
    if (x < INT64_MIN || x > INT64_MAX) return false;
    *out = (int64_t)x;
    return true;
}
bool m_float(const char *s, int n, double *out)
{
    int i = 0, digits = 0;
    if (i < n && (s[i] == '-' || s[i] == '+')) i++;
    while (i < n && isdigit((unsigned char)s[i])) i++, digits++;
    if (i < n && s[i] == '.') { i++; while (i < n && isdigit((unsigned char)s[i])) i++, digits++; }
    if (!digits) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) {
        i++;
        if (i < n && (s[i] == '-' || s[i] == '+')) i++;
        if (i >= n || !isdigit((unsigned char)s[i])) return false;
        while (i < n && isdigit((unsigned char)s[i])) i++;
    }
    static char buf[1 << 16]; if (i != n || n >= (int)sizeof buf) return false;
    memcpy(buf, s, (size_t)n); buf[n] = 0;
    *out = strtod(buf, NULL);
    return isfinite(*out);
}
int m_bool(const char *s, int n)
{
    static const char *T[] = {"true", "yes", "1", "on", "y"}, *F[] = {"false", "no", "0", "off", "n"}, *X[] = {"0x0", "0b0", "0x1", "0b1"};
    char b[8]; if (n >= (int)sizeof b) return -1;
    for (int i = 0; i < n; i++) b[i] = (char)tolower((unsigned char)s[i]);
    b[n] = 0;
    for (int i = 0; i < 5; i++) { if (!strcmp(b, T[i])) return 1; if (!strcmp(b, F[i])) return 0; }
    for (int i = 0; i < 4; i++) if (!strcmp(b, X[i])) return -2;
    return -1;
}
/* integer element of an array: value or inclusive range */
static bool m_elem_int(const char *s, int n, int64_t *lo, int64_t *hi)
{
    if (m_int(s, n, lo)) { *hi = *lo; goto range; }
    for (int k = 1; k < n - 1; k++) {
        if ((s[k] == '-' || s[k] == ':') && isdigit((unsigned char)s[k - 1])) {
            int64_t a, b;
            if (s[k + 1] == '+' || !m_int(s, k, &a) || !m_int(s + k + 1, n - k - 1, &b)) return false;
            *lo = a < b ? a : b; *hi = a < b ? b : a;
            goto range;
        }
    }
    return false;
range:
    return *lo >= INT_MIN && *hi <= INT_MAX;
}

/* ------------------------------------------------------------ collections */
static mcoll_t *coll(mopt_t *o)
{
    if (!o->c) {
        if (pool_n >= M_MAXCOLL) { fprintf(stderr, "model pool\n"); abort(); }
        o->c = &pool[pool_n++]; o->c->n = 0;
    }
    return o->c;
}
static int cmp_s(mv_t a, mv_t b)
{
    int m = a.n < b.n ? a.n : b.n; int r = memcmp(a.s, b.s, (size_t)m);
    return r ? r : (a.n > b.n) - (a.n < b.n);
}
#define STRT (VALUE_TYPE_ARRAY_STRING | VALUE_TYPE_VARIADIC_STRING | VALUE_TYPE_MAP_STRING | VALUE_TYPE_STRING)
#define FLTT (VALUE_TYPE_ARRAY_FLOAT | VALUE_TYPE_VARIADIC_FLOAT | VALUE_TYPE_MAP_FLOAT | VALUE_TYPE_FLOAT)
#define INTT (VALUE_TYPE_ARRAY_INT | VALUE_TYPE_VARIADIC_INT | VALUE_TYPE_MAP_INT | VALUE_TYPE_INT)
static int cmp_v(argus_valtype_t t, mv_t a, mv_t b)
{
    if (t & STRT) return cmp_s(a, b);
    if (t & FLTT) return (a.f > b.f) - (a.f < b.f);
    if (t & INTT) return (a.i > b.i) - (a.i < b.i);
    return a.b - b.b;
}
static void sort_by(mcoll_t *c, argus_valtype_t t, bool by_key)
{
    for (int i = 1; i < c->n; i++)
        for (int j = i; j > 0; j--) {
            int r = by_key ? cmp_s(c->key[j - 1], c->key[j]) : cmp_v(t, c->el[j - 1], c->el[j]);
            if (r <= 0) break;
            mv_t x = c->key[j]; c->key[j] = c->key[j - 1]; c->key[j - 1] = x;
            x = c->el[j]; c->el[j] = c->el[j - 1]; c->el[j - 1] = x;
        }
}
static void unique(mcoll_t *c, argus_valtype_t t)
{
    int w = 0;
    for (int i = 0; i < c->n; i++) {
        bool dup = false;
        for (int j = 0; j < w && !dup; j++) dup = cmp_v(t, c->el[j], c->el[i]) == 0;
        if (!dup) { c->el[w] = c->el[i]; c->key[w] = c->key[i]; w++; }
    }
    c->n = w;
}
static bool push(mcoll_t *c, mv_t v)
{
    if (c->n >= M_MAXEL) { m_big = true; return false; }
    c->el[c->n++] = v;
    return true;
}
static bool conv_elem(argus_valtype_t t, const char *s, int n, mv_t *v)
{
    if (t & STRT) { v->s = s; v->n = n; return true; }
    if (t & FLTT) return m_float(s, n, &v->f);
    if (t & INTT) return m_int(s, n, &v->i);
    int b = m_bool(s, n); v->b = b == 1; return b >= 0;
}
/* ------------------------------------------------------------ diagnoses */
static mres_t *cur; static char say_pool[1 << 14]; static size_t say_n;
static msay_t *say(uint64_t errs) { static msay_t sink; msay_t *s = cur && cur->nsay < M_MAXSAY ? &cur->say[cur->nsay] : &sink; if (cur) cur->nsay++; s->n = 0; s->ordered = false; s->errs = errs; return s; }
static void part(msay_t *s, const char *p, int n) { if (n > 0 && s->n < M_MAXPART) { s->p[s->n] = p; s->len[s->n++] = n; } }
static void parts(msay_t *s, const char *p) { if (p) part(s, p, (int)strlen(p)); }
static void partf(msay_t *s, const char *f, ...)
{
    if (say_n + 400 > sizeof say_pool) return;
    va_list ap; va_start(ap, f); int k = vsnprintf(say_pool + say_n, 399, f, ap); va_end(ap);
    if (k > 0 && k < 399) { part(s, say_pool + say_n, k); say_n += (size_t)k + 1; }
}
static bool word_char(int c) { return isalnum(c) || c == '_' || c >= 128; }
/* the text as a whole, not within a longer name or number */
static const char *names(const char *text, const char *p, int n, const char *from)
{
    for (const char *q = from; *q; q++) {
        if (strncmp(q, p, (size_t)n)) continue;
        if (word_char((unsigned char)p[0]) && q > text && word_char((unsigned char)q[-1])) continue;
        if (word_char((unsigned char)p[n - 1]) && word_char((unsigned char)q[n])) continue;
        return q + n;
    }
    return NULL;
}
bool m_named(const mres_t *m, int status, const char *text, const char **missing, int *len)
{
    if (m->nsay > M_MAXSAY || !m->nsay) return true;
    *missing = "a reason of that status"; *len = (int)strlen(*missing);
    for (int i = 0; i < m->nsay; i++) {
        if (status < 0 || status > 60 || !(m->say[i].errs & BIT(status))) continue;
        bool all = true; const char *from = text;
        for (int j = 0; j < m->say[i].n && all; j++) {
            const char *q = names(text, m->say[i].p[j], m->say[i].len[j], from);
            if (!q) { all = false; *missing = m->say[i].p[j]; *len = m->say[i].len[j]; }
            else if (m->say[i].ordered) from = q;
        }
        if (all) return true;
    }
    return false;
}

/* one occurrence of a collection value; false = malformed */
static bool give_collection(mopt_t *o, const char *s)
{
    const argus_option_t *t = o->t; mcoll_t *c = coll(o);
    int L = (int)strlen(s);
    bool has_comma = strchr(s, ',') != NULL;
    if (t->value_type & VALUE_TYPE_VARIADIC) {
        mv_t v = {0};
        if (!conv_elem(t->value_type, s, L, &v)) { part(say(M_ANYERR), s, L); return false; }
        push(c, v);
    } else {
        for (int i = 0; i <= L;) {
            int e = i; while (e < L && s[e] != ',') e++;
            int n = e - i;
            if (n == 0 && has_comma) { i = e + 1; continue; }
            const char *p = s + i; i = e + 1;
            if (t->value_type & VALUE_TYPE_MAP) {
                const char *q = memchr(p, '=', (size_t)n);
                if (!q) { part(say(M_ANYERR), p, n); return false; }
                mv_t k = {.s = p, .n = (int)(q - p)}, v = {0};
                if (!conv_elem(t->value_type, q + 1, n - k.n - 1, &v)) { msay_t *y = say(M_ANYERR); y->ordered = true; part(y, k.s, k.n); part(y, q + 1, n - k.n - 1); return false; }
                int at = -1;
                for (int j = 0; j < c->n; j++) if (!cmp_s(c->key[j], k)) at = j;
                if (at < 0) { if (c->n < M_MAXEL) c->key[c->n] = k; push(c, v); } else c->el[at] = v;
            } else if (t->value_type == VALUE_TYPE_ARRAY_INT) {
                int64_t lo, hi;
                if (!m_elem_int(p, n, &lo, &hi)) { part(say(M_ANYERR), p, n); return false; }
                for (int64_t x = lo; x <= hi; x++) { mv_t v = {.i = x}; if (!push(c, v)) break; }
            } else {
                mv_t v = {0};
                if (!conv_elem(t->value_type, p, n, &v)) { part(say(M_ANYERR), p, n); return false; }
                push(c, v);
            }
        }
    }
    if (t->value_type & VALUE_TYPE_MAP) {
        if (t->flags & FLAG_UNIQUE_VALUE) unique(c, t->value_type);
        if (t->flags & FLAG_SORTED_KEY) sort_by(c, t->value_type, true);
        else if (t->flags & FLAG_SORTED_VALUE) sort_by(c, t->value_type, false);
    } else {
        if (t->flags & FLAG_SORTED) sort_by(c, t->value_type, false);
        if (t->flags & FLAG_UNIQUE) unique(c, t->value_type);
    }
    return true;
}

/* ------------------------------------------------------------ validators */
static uint64_t run_validator(const validator_entry_t *v, const mopt_t *o, const char *val, int n)
{
    validator_data_t d = v->data;
    if (v->func == range_validator) {
        bool ok = (o->t->value_type & VALUE_TYPE_FLOAT) ? (o->v.f >= (double)d.range.min && o->v.f <= (double)d.range.max)
                                                        : (o->v.i >= d.range.min && o->v.i <= d.range.max);
        return ok ? 0 : BIT(ARGUS_ERROR_INVALID_RANGE);
    }
    if (v->func == length_validator) return o->v.n >= d.range.min && o->v.n <= d.range.max ? 0 : BIT(ARGUS_ERROR_INVALID_RANGE);
    if (v->func == count_validator) { int k = o->c ? o->c->n : 1; return k >= d.range.min && k <= d.range.max ? 0 : BIT(ARGUS_ERROR_INVALID_RANGE); }
    if (v->func == choices_string_validator) {
        for (size_t i = 0; i < d.choices.count; i++) if ((int)strlen(d.choices.as_strings[i]) == o->v.n && !memcmp(d.choices.as_strings[i], o->v.s, (size_t)o->v.n)) return 0;
        return BIT(ARGUS_ERROR_INVALID_CHOICE);
    }
    if (v->func == choices_int_validator) {
        for (size_t i = 0; i < d.choices.count; i++) if (d.choices.as_ints[i] == o->v.i) return 0;
        return BIT(ARGUS_ERROR_INVALID_CHOICE);
    }
    if (v->func == choices_float_validator) {
        for (size_t i = 0; i < d.choices.count; i++) if (d.choices.as_floats[i] == o->v.f) return 0;
        return BIT(ARGUS_ERROR_INVALID_CHOICE);
    }
    if (v->func == regex_validator) return m_regex_hook && m_regex_hook(d.regex.pattern, val, n) ? 0 : M_ANYERR;
    if (m_custom_hook) { int s = m_custom_hook(v, o, val, n); return s == 0 ? 0 : BIT(s); }
    return 0;
}

static void refusal(uint64_t e, const validator_entry_t *v, const mopt_t *o, const char *val, int n)
{
    validator_data_t d = v->data; msay_t *s = say(e);
    bool range = v->func == range_validator, length = v->func == length_validator, count = v->func == count_validator;
    if (range || length || count) {
        if (!range && (d.range.min < 0 || d.range.max < 0)) return;
        if (d.range.min <= d.range.max) {
            s->ordered = true; /* the value, then the lower, then the upper limit */
            if (range && !(o->t->value_type & VALUE_TYPE_FLOAT)) partf(s, "%lld", (long long)o->v.i);
            if (length) partf(s, "%d", o->v.n);
            if (count) partf(s, "%d", o->c ? o->c->n : 1);
        }
        partf(s, "%lld", (long long)d.range.min); partf(s, "%lld", (long long)d.range.max);
    }
    if (v->func == choices_string_validator) { part(s, o->v.s, o->v.n); for (size_t i = 0; i < d.choices.count; i++) parts(s, d.choices.as_strings[i]); }
    if (v->func == choices_int_validator) { partf(s, "%lld", (long long)o->v.i); for (size_t i = 0; i < d.choices.count && i < 20; i++) partf(s, "%lld", (long long)d.choices.as_ints[i]); }
    if (v->func == choices_float_validator) for (size_t i = 0; i < d.choices.count && i < 20; i++) partf(s, "%g", d.choices.as_floats[i]);
    if (v->func == regex_validator) { part(s, val, n); parts(s, d.regex.hint); }
}

/* ------------------------------------------------------------ one option occurrence */
int (*m_handler_hook)(mopt_t *o, const char *val);
/* 0 ok, else error bits; *exits set when the option ends the program */
char m_trace[1 << 14];
static uint64_t give(mopt_t *o, const char *val, bool *exits)
{
    const argus_option_t *t = o->t;
    if (t->validators) for (int i = 0; t->validators[i]; i++)
        if (t->validators[i]->order == ORDER_PRE) { uint64_t e = run_validator(t->validators[i], o, val, val ? (int)strlen(val) : 0); if (e) { refusal(e, t->validators[i], o, val, val ? (int)strlen(val) : 0); return e; } }
    if (m_handler_hook) { int h = m_handler_hook(o, val); if (h > 0) return BIT(h); if (h == 0) { o->set = true; o->times++; if (t->flags & FLAG_EXIT) *exits = true; return 0; } }
    int n = val ? (int)strlen(val) : 0;
    if (d_trace_on) { size_t k = strlen(m_trace); snprintf(m_trace + k, sizeof m_trace - k, val ? "%s=%s;" : "%s;", t->name, val); }
    if (t->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)) { if (!give_collection(o, val)) return M_ANYERR; }
    else switch (t->value_type) {
        case VALUE_TYPE_FLAG: o->v.b = 1; break;
        case VALUE_TYPE_BOOL: { int b = m_bool(val, n); if (b < 0) { part(say(M_ANYERR), val, n); return M_ANYERR; } o->v.b = b; break; }
        case VALUE_TYPE_STRING: o->v.s = val; o->v.n = n; break;
        case VALUE_TYPE_INT: if (!m_int(val, n, &o->v.i)) { part(say(M_ANYERR), val, n); return M_ANYERR; } break;
        case VALUE_TYPE_FLOAT: if (!m_float(val, n, &o->v.f)) { part(say(M_ANYERR), val, n); return M_ANYERR; } break;
        default: break;
    }
    o->set = true; o->times++;
    if (t->flags & FLAG_EXIT) *exits = true;
    return 0;
}

static void init_level(mlev_t *l, const argus_option_t *tbl, const argus_option_t *cmd)
{
    l->tbl = tbl; l->cmd = cmd; l->n = 0;
    for (int i = 0; tbl[i].type != TYPE_NONE; i++) {
        if (l->n >= M_MAXOPT) { fprintf(stderr, "model: table too big\n"); abort(); }
        mopt_t *o = &l->o[l->n++];
        memset(o, 0, sizeof *o);
        o->t = &tbl[i];
    }
}
static mopt_t *m_pos(mlev_t *l, int k)
{
    for (int i = 0; i < l->n; i++) if (l->o[i].t->type == TYPE_POSITIONAL) {
        if (l->o[i].t->value_type & VALUE_TYPE_VARIADIC) return &l->o[i];
        if (k-- == 0) return &l->o[i];
    }
    return NULL;
}
static mopt_t *m_name(mlev_t *l, const char *name)
{
    for (int i = 0; i < l->n; i++) if ((l->o[i].t->type == TYPE_OPTION || l->o[i].t->type == TYPE_POSITIONAL) && !strcmp(l->o[i].t->name, name)) return &l->o[i];
    return NULL;
}

static bool is_active_provided(const mopt_t *o) { return o->set; }
static bool is_present(const mopt_t *o) { return o->set || o->t->have_default; }

static void scan(const dcase_t *c, mres_t *r)
{
    mlev_t *l = &r->lev[0]; int pos = 0; bool only = false;
#define ERR(bits, msg) do { r->kind = M_ERR; r->errs = (bits); r->why = (msg); r->stop_word = i; return; } while (0)
#define GIVE(o, val) do { bool ex = false; uint64_t e_ = give((o), (val), &ex); if (e_) ERR(e_, "value refused"); if (ex) { r->kind = M_EXIT; r->stop_word = i; return; } } while (0)
    const uint64_t inv = BIT(ARGUS_ERROR_INVALID_ARGUMENT);
    for (int i = 0; i < c->argc; i++) {
        const char *w = c->argv[i];
        bool positional = only || w[0] != '-' || w[1] == '\0';
        if (!only && !strcmp(w, "--")) { only = true; continue; }
        if (!positional && w[1] != '-' && (isdigit((unsigned char)w[1]) || (w[1] == '.' && isdigit((unsigned char)w[2])))) {
            mopt_t *p = m_pos(l, pos);
            if (p && (p->t->value_type & (VALUE_TYPE_INT | VALUE_TYPE_FLOAT | VALUE_TYPE_VARIADIC_INT | VALUE_TYPE_VARIADIC_FLOAT))) positional = true;
        }
        if (positional) {
            if (!only && !(w[0] == '-')) {
                int hits = 0; mopt_t *sub = NULL; bool exact = false;
                for (int k = 0; k < l->n; k++) if (l->o[k].t->type == TYPE_SUBCOMMAND) {
                    if (!strcmp(w, l->o[k].t->name)) { sub = &l->o[k]; exact = true; break; }
                    if (w[0] && !strncmp(w, l->o[k].t->name, strlen(w))) { hits++; sub = &l->o[k]; }
                }
                if (!exact && hits > 1) for (int a = 0; a < l->n; a++) for (int b = a + 1; b < l->n; b++) {
                    if (l->o[a].t->type != TYPE_SUBCOMMAND || l->o[b].t->type != TYPE_SUBCOMMAND || strncmp(w, l->o[a].t->name, strlen(w)) || strncmp(w, l->o[b].t->name, strlen(w))) continue;
                    msay_t *y = say(BIT(ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND)); parts(y, w); parts(y, l->o[a].t->name); parts(y, l->o[b].t->name);
                }
                if (!exact && hits > 1) ERR(BIT(ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND), "ambiguous command");
                if (exact || hits == 1) {
                    if (r->depth >= MAX_SUBCOMMAND_DEPTH) parts(say(BIT(ARGUS_ERROR_STACK_OVERFLOW)), sub->t->name);
                    if (r->depth >= MAX_SUBCOMMAND_DEPTH) ERR(BIT(ARGUS_ERROR_STACK_OVERFLOW), "too deep");
                    sub->set = true;
                    r->depth++;
                    init_level(&r->lev[r->depth], sub->t->sub_options, sub->t);
                    l = &r->lev[r->depth]; pos = 0;
                    continue;
                }
            }
            mopt_t *p = m_pos(l, pos);
            pos++;
            if (!p) parts(say(inv), w);
            if (!p) ERR(inv, "no such positional");
            GIVE(p, w);
            continue;
        }
        if (w[1] == '-') {
            const char *eq = strchr(w + 2, '='); size_t n = eq ? (size_t)(eq - w - 2) : strlen(w + 2);
            mopt_t *o = NULL;
            for (int k = 0; k < l->n && !o; k++) if (l->o[k].t->type == TYPE_OPTION && l->o[k].t->lname && strlen(l->o[k].t->lname) == n && !strncmp(l->o[k].t->lname, w + 2, n)) o = &l->o[k];
            if (!o) part(say(inv), w, (int)n + 2);
            if (!o) ERR(inv, "unknown long option");
            if (o->t->value_type == VALUE_TYPE_FLAG) {
                if (eq) part(say(inv), w, (int)n + 2);
                if (eq) ERR(inv, "value for a flag");
                GIVE(o, NULL);
            } else if (eq) GIVE(o, eq + 1);
            else if (i + 1 < c->argc) { i++; GIVE(o, c->argv[i]); }
            else { part(say(BIT(ARGUS_ERROR_MISSING_VALUE)), w, (int)n + 2); ERR(BIT(ARGUS_ERROR_MISSING_VALUE), "missing value"); }
            continue;
        }
        for (const char *p = w + 1; *p; p++) {
            mopt_t *o = NULL;
            for (int k = 0; k < l->n && !o; k++) if (l->o[k].t->type == TYPE_OPTION && l->o[k].t->sname == *p) o = &l->o[k];
            if (!o) partf(say(inv), "-%c", *p);
            if (!o) ERR(inv, "unknown short option");
            if (o->t->value_type == VALUE_TYPE_FLAG) { GIVE(o, NULL); continue; }
            if (p[1]) GIVE(o, p + 1);
            else if (i + 1 < c->argc) { i++; GIVE(o, c->argv[i]); }
            else { partf(say(BIT(ARGUS_ERROR_MISSING_VALUE)), "-%c", *p); ERR(BIT(ARGUS_ERROR_MISSING_VALUE), "missing value"); }
            break;
        }
    }
}

const char *m_env_name(const dcase_t *c, const argus_option_t *o, char *buf, size_t sz)
{
    const char *pre = c->env_prefix ? c->env_prefix : ""; size_t pl = strlen(pre);
    const char *sep = pl && pre[pl - 1] != '_' ? "_" : "";
    if (o->flags & FLAG_NO_ENV_PREFIX) pre = sep = "";
    if (o->env_name) {
        if (pl && !(o->flags & FLAG_NO_ENV_PREFIX) && !strncmp(o->env_name, pre, pl)) pre = sep = "";
        snprintf(buf, sz, "%s%s%s", pre, sep, o->env_name);
        return buf;
    }
    if (!(o->flags & FLAG_AUTO_ENV)) return NULL;
    snprintf(buf, sz, "%s%s%s", pre, sep, o->name);
    for (char *p = buf; *p; p++) *p = *p == '-' ? '_' : (char)toupper((unsigned char)*p);
    return buf;
}
static const char *env_lookup(const dcase_t *c, const char *name)
{
    const char *v = NULL;
    for (int i = 0; i < c->nenv; i++) if (!strcmp(c->ename[i], name)) v = c->evalue[i];
    return v;
}

static void environment(const dcase_t *c, mres_t *r)
{
    for (int L = 0; L <= r->depth; L++) for (int k = 0; k < r->lev[L].n; k++) {
        mopt_t *o = &r->lev[L].o[k]; char nm[512];
        if (o->t->type != TYPE_OPTION && o->t->type != TYPE_POSITIONAL) continue;
        if (o->set && !(o->t->flags & FLAG_ENV_OVERRIDE)) continue;
        const char *name = m_env_name(c, o->t, nm, sizeof nm);
        const char *val = name ? env_lookup(c, name) : NULL;
        if (!val) continue;
        if (o->c) o->c->n = 0; /* replaced, not extended */
        if (o->t->value_type == VALUE_TYPE_FLAG) {
            int b = m_bool(val, (int)strlen(val));
            if (b < 0) { msay_t *y = say(M_ANYERR); parts(y, val); parts(y, o->t->name); r->kind = M_ERR; r->errs = M_ANYERR; r->why = "bad flag text in environment"; return; }
            if (!b) { o->v.b = 0; o->set = false; o->times = 0; continue; }
        }
        bool ex = false; uint64_t e = give(o, val, &ex);
        if (e) { r->kind = M_ERR; r->errs = e; r->why = "environment value refused"; return; }
        o->from_env = true;
        if (ex) { r->kind = M_EXIT; return; }
    }
}

static void constraints(mres_t *r)
{
    uint64_t bits = 0;
    for (int L = 0; L <= r->depth; L++) {
        mlev_t *l = &r->lev[L]; bool excl = false; int members = 0;
        for (int k = 0; k < l->n; k++) {
            mopt_t *o = &l->o[k];
            if (o->t->type == TYPE_GROUP) { excl = o->t->flags & FLAG_EXCLUSIVE; members = 0; continue; }
            if (o->t->type != TYPE_OPTION && o->t->type != TYPE_POSITIONAL) continue;
            if ((o->t->flags & FLAG_REQUIRED) && !is_present(o)) { bits |= BIT(ARGUS_ERROR_MISSING_REQUIRED); parts(say(BIT(ARGUS_ERROR_MISSING_REQUIRED)), o->t->name); }
            if (is_active_provided(o)) {
                if (excl && ++members > 1) {
                    bits |= BIT(ARGUS_ERROR_EXCLUSIVE_GROUP); const char *gn = NULL; int b = k; while (l->o[b].t->type != TYPE_GROUP) b--; gn = l->o[b].t->name;
                    for (int q = b + 1; q < k; q++) if (is_active_provided(&l->o[q])) { msay_t *y = say(BIT(ARGUS_ERROR_EXCLUSIVE_GROUP)); parts(y, gn); parts(y, l->o[q].t->name); parts(y, o->t->name); }
                }
                if (o->t->require) for (int j = 0; o->t->require[j]; j++) { mopt_t *q = m_name(l, o->t->require[j]); if (q && !is_present(q)) { bits |= BIT(ARGUS_ERROR_MISSING_REQUIRED); msay_t *y = say(BIT(ARGUS_ERROR_MISSING_REQUIRED)); y->ordered = true; parts(y, q->t->name); parts(y, o->t->name); } }
                if (o->t->conflict) for (int j = 0; o->t->conflict[j]; j++) { mopt_t *q = m_name(l, o->t->conflict[j]); if (q && is_active_provided(q)) { bits |= BIT(ARGUS_ERROR_CONFLICTING_OPTIONS); msay_t *y = say(BIT(ARGUS_ERROR_CONFLICTING_OPTIONS)); parts(y, q->t->name); parts(y, o->t->name); } }
                if (o->t->validators) for (int j = 0; o->t->validators[j]; j++) if (o->t->validators[j]->order == ORDER_POST) {
                    uint64_t e = run_validator(o->t->validators[j], o, NULL, 0);
                    bits |= e; if (e) refusal(e, o->t->validators[j], o, NULL, 0);
                    if (e && m_custom_hook) goto out; /* the first refusal ends the parse: later callbacks do not run */
                    if (e) break;
                }
            }
        }
    }
out:
    if (bits) { r->kind = M_ERR; r->errs = bits; r->why = "constraint violated"; }
}

void m_parse(const dcase_t *c, mres_t *r)
{
    pool_n = 0; m_big = false; m_trace[0] = 0; cur = r; say_n = 0; r->nsay = 0;
    r->kind = M_OK; r->errs = 0; r->depth = 0; r->why = ""; r->stop_word = -1;
    init_level(&r->lev[0], c->meant ? c->meant : c->tmpl, NULL);
    scan(c, r);
    if (r->kind == M_OK) environment(c, r);
    if (r->kind == M_OK) constraints(r);
}

/* ------------------------------------------------------------ comparison */
static void show(const mopt_t *o, mv_t v, char *b, size_t n)
{
    argus_valtype_t t = o->t->value_type;
    if (t & STRT) snprintf(b, n, "'%.*s'", v.n, v.s ? v.s : "");
    else if (t & FLTT) snprintf(b, n, "%.17g", v.f);
    else if (t & INTT) snprintf(b, n, "%lld", (long long)v.i);
    else snprintf(b, n, "%d", v.b);
}
static bool same(argus_valtype_t t, argus_value_t v, mv_t m)
{
    if (t & STRT) return v.as_string && (int)strlen(v.as_string) == m.n && !memcmp(v.as_string, m.s, (size_t)m.n);
    if (t & FLTT) return v.as_float == m.f;
    if (t == VALUE_TYPE_ARRAY_INT) return v.as_int == (int)m.i;
    if (t & INTT) return v.as_int64 == m.i;
    return v.as_bool == (bool)m.b;
}
/* resolver over the model; SKIP = the statement does not say (a path naming a subcommand itself) */
static int at_level(const mres_t *m, int L, const char *name, size_t n, const mopt_t **out)
{
    for (int k = 0; k < m->lev[L].n; k++) {
        const argus_option_t *t = m->lev[L].o[k].t;
        if (!t->name || strlen(t->name) != n || memcmp(t->name, name, n)) continue;
        if (t->type == TYPE_SUBCOMMAND) return R_SKIP;
        if (t->type == TYPE_OPTION || t->type == TYPE_POSITIONAL) { *out = &m->lev[L].o[k]; return R_OPT; }
    }
    return R_ABSENT;
}
int m_resolve(const mres_t *m, const char *path, const mopt_t **out)
{
    const char *dot = strrchr(path, '.');
    if (!dot) {
        for (int L = m->depth; L >= 0; L--) { int r = at_level(m, L, path, strlen(path), out); if (r != R_ABSENT) return r; }
        return R_ABSENT;
    }
    const char *last = dot + 1;
    if (dot == path) return at_level(m, 0, last, strlen(last), out);
    int L = 0;
    for (const char *p = path; p < last;) {
        const char *e = strchr(p, '.');
        if (L >= m->depth) return R_ABSENT;
        const char *cn = m->lev[L + 1].cmd->name;
        if (strlen(cn) != (size_t)(e - p) || memcmp(cn, p, strlen(cn))) return R_ABSENT;
        L++; p = e + 1;
    }
    return at_level(m, L, last, strlen(last), out);
}
bool m_same(argus_valtype_t t, argus_value_t v, mv_t m) { return same(t, v, m); }
void m_compare_values(drun_t *r, const mres_t *m)
{
    char path[2048], exp[256];
    argus_t *a = &r->argus;
    if ((m->depth > 0) != argus_has_command(a)) mc_fail("has_command=%d, expected %d", argus_has_command(a), m->depth > 0);
    if ((int)a->subcommand_depth != m->depth) mc_fail("%d subcommands selected, expected %d", (int)a->subcommand_depth, m->depth);
    for (int L = 1; L <= m->depth; L++) if (strcmp(a->subcommand_stack[L - 1]->name, m->lev[L].cmd->name)) mc_fail("subcommand level %d is '%s', expected '%s'", L, a->subcommand_stack[L - 1]->name, m->lev[L].cmd->name);
    for (int L = 0; L <= m->depth; L++) for (int k = 0; k < m->lev[L].n; k++) {
        const mopt_t *o = &m->lev[L].o[k]; const argus_option_t *t = o->t;
        if (t->type != TYPE_OPTION && t->type != TYPE_POSITIONAL) continue;
        d_path(r, L, t->name, path, sizeof path);
        bool want = o->set || t->have_default;
        if (argus_is_set(a, path) != want) mc_fail("is_set(%s)=%d, expected %d", path, !want, want);
        if (t->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC)) {
            int n = o->c ? o->c->n : 0;
            if ((int)argus_count(a, path) != n) mc_fail("count(%s)=%zu, expected %d", path, argus_count(a, path), n);
            argus_array_it_t it = argus_array_it(a, path);
            for (int j = 0; j < n; j++) {
                argus_value_t v = argus_array_get(a, path, (size_t)j);
                if (a->error_code) mc_fail("array_get(%s,%d) error %d", path, j, a->error_code);
                if (!same(t->value_type, v, o->c->el[j])) { show(o, o->c->el[j], exp, sizeof exp); mc_fail("%s[%d] is not %s", path, j, exp); }
                if (!argus_array_next(&it)) mc_fail("iteration of %s stops after %d of %d", path, j, n);
                if (!same(t->value_type, it.value, o->c->el[j])) { show(o, o->c->el[j], exp, sizeof exp); mc_fail("iterated %s[%d] is not %s", path, j, exp); }
            }
            if (argus_array_next(&it)) mc_fail("iteration of %s does not stop after %d", path, n);
        } else if (t->value_type & VALUE_TYPE_MAP) {
            int n = o->c ? o->c->n : 0;
            if ((int)argus_count(a, path) != n) mc_fail("count(%s)=%zu, expected %d", path, argus_count(a, path), n);
            argus_map_it_t it = argus_map_it(a, path);
            bool ties = !(t->flags & FLAG_SORTED_KEY) && (t->flags & FLAG_SORTED_VALUE);
            bool seen[n + 1]; memset(seen, 0, sizeof seen);
            for (int j = 0; j < n; j++) {
                if (!argus_map_next(&it)) mc_fail("iteration of %s stops after %d of %d", path, j, n);
                int at = -1;
                for (int q = 0; q < n; q++) if ((int)strlen(it.key) == o->c->key[q].n && !memcmp(it.key, o->c->key[q].s, (size_t)o->c->key[q].n)) at = q;
                if (at < 0 || seen[at]) mc_fail("iteration of %s yields unexpected key '%s'", path, it.key);
                seen[at] = true;
                if (!same(t->value_type, it.value, o->c->el[at])) { show(o, o->c->el[at], exp, sizeof exp); mc_fail("iterated %s['%s'] is not %s", path, it.key, exp); }
                bool place = at == j || (ties && cmp_v(t->value_type, o->c->el[at], o->c->el[j]) == 0);
                if (!place) mc_fail("%s: key '%s' iterated at position %d, expected %d", path, it.key, j, at);
                argus_value_t v = argus_map_get(a, path, it.key);
                if (a->error_code) mc_fail("map_get(%s,%s) error %d", path, it.key, a->error_code);
                if (!same(t->value_type, v, o->c->el[at])) { show(o, o->c->el[at], exp, sizeof exp); mc_fail("%s['%s'] is not %s", path, it.key, exp); }
            }
            if (argus_map_next(&it)) mc_fail("iteration of %s does not stop after %d", path, n);
        } else {
            if ((o->set || !t->have_default) && argus_count(a, path) != (size_t)o->set) mc_fail("count(%s)=%zu, expected %d", path, argus_count(a, path), o->set);
            argus_value_t v = argus_get(a, path);
            if (a->error_code) mc_fail("get(%s) error %d", path, a->error_code);
            if (o->set || (t->value_type == VALUE_TYPE_FLAG)) {
                if (!same(t->value_type, v, o->v)) { show(o, o->v, exp, sizeof exp); mc_fail("%s is not %s (got raw 0x%llx)", path, exp, (unsigned long long)v.raw); }
            } else if (t->have_default) {
                argus_value_t d = t->default_value;
                bool ok = (t->value_type & STRT) ? v.as_string == d.as_string : (t->value_type & FLTT) ? v.as_float == d.as_float : t->value_type == VALUE_TYPE_BOOL ? v.as_bool == d.as_bool : v.as_int64 == d.as_int64;
                if (!ok) mc_fail("%s does not have its default value", path);
            } else if (v.raw) mc_fail("unset %s has a value", path);
        }
    }
}
static uint64_t out_hash(const mres_t *m)
{
    uint64_t h = mc_mix(7, (uint64_t)m->kind);
    h = mc_mix(h, m->errs); h = mc_mix(h, (uint64_t)m->depth);
    if (m->kind == M_ERR) h = mc_mixs(h, m->why);
    if (m->kind == M_OK) for (int L = 0; L <= m->depth; L++) for (int k = 0; k < m->lev[L].n; k++) {
        const mopt_t *o = &m->lev[L].o[k];
        h = mc_mix(h, (uint64_t)(o->t - m->lev[L].tbl) * 4 + o->set * 2 + o->from_env);
        if (o->c) for (int j = 0; j < o->c->n; j++) {
            h = mc_mix(h, (uint64_t)o->c->el[j].i ^ (uint64_t)o->c->el[j].b); double f = o->c->el[j].f; uint64_t u; memcpy(&u, &f, 8); h = mc_mix(h, u);
            for (int q = 0; o->c->el[j].s && q < o->c->el[j].n; q++) h = mc_mix(h, (unsigned char)o->c->el[j].s[q]);
            for (int q = 0; o->c->key[j].s && (o->t->value_type & VALUE_TYPE_MAP) && q < o->c->key[j].n; q++) h = mc_mix(h, (unsigned char)o->c->key[j].s[q]);
        } else { h = mc_mix(h, (uint64_t)o->v.i ^ (uint64_t)o->v.b); double f = o->v.f; uint64_t u; memcpy(&u, &f, 8); h = mc_mix(h, u); for (int q = 0; o->v.s && q < o->v.n; q++) h = mc_mix(h, (unsigned char)o->v.s[q]); }
    }
    return h;
}
uint64_t m_compare(drun_t *r, const mres_t *m)
{
    if (r->exited && m->kind != M_EXIT) mc_fail("parsing ended the program (exit %d), expected %s %s", r->exit_code, m->kind == M_OK ? "success" : "an error:", m->why);
    if (!r->exited && m->kind == M_EXIT) mc_fail("parse returned %d, expected the program to end", r->status);
    if (m->kind == M_EXIT && r->exit_code != 0) mc_fail("exit status %d", r->exit_code);
    if (m->kind == M_OK && r->status != 0) mc_fail("parse failed with %d (%s), expected success; stderr: %.200s", r->status, argus_strerror((argus_error_type_t)r->status), cap_err(NULL));
    if (m->kind == M_ERR) {
        if (r->status == 0) mc_fail("parse succeeded, expected an error (%s)", m->why);
        if (((r->status < 0 || r->status > 60) && m->errs == M_ANYERR) || !(m->errs & BIT(r->status))) mc_fail("parse failed with %d (%s), expected %s", r->status, argus_strerror((argus_error_type_t)r->status), m->why);
    }
    if (d_trace_on && strcmp(d_trace, m_trace)) mc_fail("handlers ran as [%s], expected [%s]", d_trace, m_trace);
    if (m->kind == M_OK && !m_big) m_compare_values(r, m);
    return out_hash(m);
}
static mres_t g_res;
void m_check(const dcase_t *c, const char *tname)
{
    d_note_case(c, tname);
    m_parse(c, &g_res);
    drun_t r;
    d_begin(&r, c);
    d_parse(&r);
    uint64_t h = m_compare(&r, &g_res);
    mc_state(mc_mixs(h, tname)); mc_trans((uint64_t)c->argc + 1); mc_exec(1);
    if (!r.exited) d_free(&r);
    d_end(&r);
}
