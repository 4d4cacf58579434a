/* C25: application-defined handlers: when they run, with what, and who frees what they stored. */
#include "argus/internal/utils.h"
#include "model.h"
const char *mc_property = "C25";
const char *mc_bounds =
    "options, flags and positionals of the custom type and of the built-in scalar types with application-defined handlers (own free handler, none, the default one; environment with and without override; defaults; pre- and post-validators; requirements and conflicts; an exit option; two nested commands reusing names): "
    "every sequence of up to 4 (5) of 27 words per table, the texts deciding whether the handler stores fresh memory, stores a constant, extends what it stored before, refuses before or after storing, with every status code, negative ones included; "
    "up to 3 (4) words with 3 environment texts for 3 variables each; tables of 1..120 such options with every single one refusing; chains of 1..8 commands with a refusal at every level; 1..200 occurrences of one option.  "
    "Every handler call (option, text, order), the status, every stored value and every free-handler call compared with a ledger.";

/* ---- ledger */
typedef struct { const argus_option_t *tmpl; const char *name; char *text; bool live, heap; const void *owner; } obj_t; /* owner: set when the option itself holds no pointer to the block */
#define MAXOBJ 2000
static obj_t obj[MAXOBJ]; static unsigned nobj;
static char *obj_ptr[MAXOBJ];
static char calls[1 << 16]; static size_t ncalls;      /* as observed */
static char want[1 << 16]; static size_t nwant;        /* as expected by the model */
static argus_t *ctx; static unsigned frees, wrongs; static char wrong[256];
static void oops(const char *fmt, ...) { va_list ap; va_start(ap, fmt); if (!wrongs++) vsnprintf(wrong, sizeof wrong, fmt, ap); va_end(ap); }
#define LOG(buf, n, ...) do { int k_ = snprintf(buf + n, sizeof buf - n, __VA_ARGS__); if (k_ > 0 && n + (size_t)k_ < sizeof buf) n += (size_t)k_; } while (0)
static char KONST[] = "constant";
static obj_t *find(const void *p) { for (unsigned i = 0; i < nobj; i++) if (obj_ptr[i] == p && obj[i].live) return &obj[i]; return NULL; }
static obj_t *of(const argus_option_t *o) { if (o->value.as_ptr) return find(o->value.as_ptr); for (unsigned i = 0; i < nobj; i++) if (obj[i].live && obj[i].owner == o) return &obj[i]; return NULL; }
static void store(argus_option_t *o, const char *text)
{
    char *m = malloc(strlen(text) + 1); strcpy(m, text);
    if (nobj >= MAXOBJ) abort();
    obj[nobj] = (obj_t){.name = o->name, .text = m, .live = true, .heap = true}; obj_ptr[nobj++] = m;
    o->value.as_ptr = m; o->is_allocated = true;
}
static void drop(argus_option_t *o)
{
    if (!o->is_allocated) return;
    obj_t *x = of(o);
    if (!x) { oops("'%s' holds memory that was already freed or is not its own", o->name); return; }
    if (strcmp(x->name, o->name)) oops("'%s' holds the value of '%s'", o->name, x->name);
    x->live = false; free(x->text); o->value.as_ptr = NULL; o->is_allocated = false;
}
static int fr(argus_option_t *o)
{
    frees++;
    obj_t *x = of(o);
    if (!x) { oops("free handler of '%s' got a value that is not live", o->name); return 0; }
    if (strcmp(x->name, o->name)) oops("free handler of '%s' got the value of '%s'", o->name, x->name);
    x->live = false; free(x->text); o->value.as_ptr = NULL; return 0;
}
/* what a text asks for: first letter decides.  0 stored, else the status; *stored tells whether fresh memory was stored */
#define NEG 62 /* stands for any negative status in the model's set of statuses */
static int plan(const char *t, char *kind)
{
    *kind = t ? t[0] : '0';
    if (!t) return 0;
    if (t[0] == 'F' || t[0] == 'f') { int s = ARGUS_ERROR_INVALID_VALUE; if (t[1]) s = t[1] >= '1' && t[1] <= '9' ? -(t[1] - '0') : 2 + (t[1] - 'A'); return s; }
    return 0;
}
static int cust(argus_t *a, argus_option_t *o, char *arg)
{
    if (a != ctx) oops("handler called with another context");
    LOG(calls, ncalls, "%s(%s);", o->name, arg ? arg : "-");
    char k; int st = plan(arg, &k);
    switch (k) {
        case 'k': drop(o); o->value.as_ptr = KONST; break;
        case 'e': { char b[4096] = ""; if (o->is_allocated && find(o->value.as_ptr)) snprintf(b, sizeof b, "%s", (char *)o->value.as_ptr); strncat(b, arg, sizeof b - strlen(b) - 1); drop(o); store(o, b); break; }
        case 'f': break;
        case 'c': drop(o); store(o, arg); o->value_count += 2; break;
        case 'n': drop(o); store(o, arg); if (o->free_handler == (argus_free_handler_t)fr) { obj[nobj - 1].owner = o; o->value.as_ptr = NULL; } break; /* the value lives elsewhere: only the free handler knows */
        default: drop(o); store(o, arg); break;
    }
    if (st) ARGUS_PARSING_ERROR(a, (argus_error_type_t)st, "refused '%s'", arg);
    return st;
}
static int cflag(argus_t *a, argus_option_t *o, char *arg)
{
    if (a != ctx) oops("handler called with another context");
    if (arg && strcmp(arg, "yes")) oops("flag handler of '%s' got the text '%s'", o->name, arg);
    LOG(calls, ncalls, "%s(-);", o->name); o->value.as_bool = true; return 0;
}
static int cnum(argus_t *a, argus_option_t *o, char *arg)
{
    if (a != ctx) oops("handler called with another context");
    LOG(calls, ncalls, "%s(%s);", o->name, arg);
    if (arg[0] == 'f') { ARGUS_PARSING_ERROR(a, ARGUS_ERROR_INVALID_FORMAT, "refused"); return ARGUS_ERROR_INVALID_FORMAT; }
    o->value.as_int64 = (int64_t)strlen(arg) * 1000000007ll; return 0;
}
static int pre(argus_t *a, void *v, validator_data_t d)
{
    (void)d; const char *t = v; LOG(calls, ncalls, "pre(%s);", t);
    if (strchr(t, '!')) { ARGUS_PARSING_ERROR(a, ARGUS_ERROR_INVALID_RANGE, "no '!'"); return ARGUS_ERROR_INVALID_RANGE; }
    return 0;
}
static int postv(argus_t *a, void *v, validator_data_t d)
{
    const argus_option_t *o = v; LOG(calls, ncalls, "post%s(%s);", (const char *)d.custom, o->name);
    if (o->value.as_ptr && strchr(o->value.as_ptr, '#')) { ARGUS_PARSING_ERROR(a, ARGUS_ERROR_INVALID_CHOICE, "no '#'"); return ARGUS_ERROR_INVALID_CHOICE; }
    return 0;
}
static char *nofmt(validator_data_t d) { (void)d; return NULL; }
/* ---- the same, on the model's side */
static int mhook(mopt_t *o, const char *val)
{
    const argus_option_t *t = o->t;
    if (t->handler == (argus_handler_t)cust) {
        char k; int st; LOG(want, nwant, "%s(%s);", t->name, val); st = plan(val, &k); if (st) return st < 0 ? NEG : st;
        if (k == 'k') { o->v.i = 1; o->v.s = KONST; }
        else if (k == 'e') { char b[4096] = ""; if (o->v.i == 2) snprintf(b, sizeof b, "%s", o->v.s); strncat(b, val, sizeof b - strlen(b) - 1); static char pool[1 << 16]; static size_t pn; size_t L = strlen(b) + 1; if (pn + L > sizeof pool) pn = 0; memcpy(pool + pn, b, L); o->v.s = pool + pn; pn += L; o->v.i = 2; }
        else { o->v.i = k == 'n' && t->free_handler == (argus_free_handler_t)fr ? 3 : 2; o->v.s = val; if (k == 'c') o->v.n += 2; }
        if (!o->v.n) o->v.n = 1;
        return 0;
    }
    if (t->handler == (argus_handler_t)cflag) { LOG(want, nwant, "%s(-);", t->name); o->v.b = 1; return 0; }
    if (t->handler == (argus_handler_t)cnum) { LOG(want, nwant, "%s(%s);", t->name, val); if (val[0] == 'f') return ARGUS_ERROR_INVALID_FORMAT; o->v.i = (int64_t)strlen(val) * 1000000007ll; return 0; }
    return -1;
}
static int mval(const validator_entry_t *v, const mopt_t *o, const char *val, int n)
{
    (void)n; if (v->func == (argus_validator_t)postv) { LOG(want, nwant, "post%s(%s);", (const char *)v->data.custom, o->t->name); return o->v.i != 3 && strchr(o->v.s, '#') ? ARGUS_ERROR_INVALID_CHOICE : 0; }
    if (v->func != (argus_validator_t)pre) return 0;
    LOG(want, nwant, "pre(%s);", val); return strchr(val, '!') ? ARGUS_ERROR_INVALID_RANGE : 0;
}
/* compare handler calls: exact for the words; any order among the variables */
static int cmpp(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static void sorted_tail(char *s, size_t from, char *out, size_t sz)
{
    char *v[400]; int n = 0; size_t o = 0; static char tmp[1 << 16]; strcpy(tmp, s + from);
    for (char *p = strtok(tmp, ";"); p && n < 400; p = strtok(NULL, ";")) v[n++] = p;
    qsort(v, (size_t)n, sizeof *v, cmpp); out[0] = 0; for (int i = 0; i < n; i++) o += (size_t)snprintf(out + o, sz - o, "%s;", v[i]);
}
static mres_t M;
static void one(const dcase_t *c, const char *tname)
{
    d_note_case(c, tname); drun_t r; nobj = 0; ncalls = nwant = 0; calls[0] = want[0] = 0; frees = wrongs = 0;
    m_handler_hook = mhook; m_custom_hook = mval;
    dcase_t cmdline = *c; cmdline.nenv = 0; m_parse(&cmdline, &M); bool late = M.stop_word < 0; char *after = strstr(want, "post"); size_t head = after ? (size_t)(after - want) : nwant; /* calls made for words */
    nwant = 0; want[0] = 0; m_parse(c, &M);
    d_begin(&r, c); ctx = &r.argus; d_parse(&r); mc_exec(1); mc_trans((uint64_t)c->argc);
    if (wrongs) mc_fail("%s", wrong);
    if (!late) { if (strcmp(calls, want)) mc_fail("handlers ran as [%s], expected [%s]", calls, want); }
    else {
        if (strncmp(calls, want, head) || ncalls < head) mc_fail("handlers ran as [%s], expected to begin with [%.*s]", calls, (int)head, want);
        static char a[1 << 16], b[1 << 16]; sorted_tail(calls, head, a, sizeof a); sorted_tail(want, head, b, sizeof b);
        if (M.kind == M_OK && strcmp(a, b)) mc_fail("handlers ran as [%s], expected [%s]", calls, want);
    }
    if (M.kind == M_EXIT) { if (!r.exited || r.exit_code) mc_fail("expected the exit option to end the program (exited %d code %d status %d)", r.exited, r.exit_code, r.status); }
    else if (r.exited) mc_fail("the parse ended the program");
    else if (M.kind == M_OK ? r.status != 0 : (r.status == 0 || r.status == 1)) mc_fail("status %d, expected %s (%s)", r.status, M.kind == M_OK ? "success" : "an error", M.why);
    else if (M.kind == M_ERR && !late && !(M.errs >> (r.status < 0 ? NEG : r.status > 61 ? 61 : r.status) & 1)) mc_fail("status %d is not the handler's (%s)", r.status, M.why);
    uint64_t h = mc_mix(mc_mixs(5, calls), (uint64_t)r.status);
    if (!r.exited && !r.status) for (int L = 0; L <= M.depth; L++) for (int k = 0; k < M.lev[L].n; k++) {
        mopt_t *o = &M.lev[L].o[k]; char path[600]; if (o->t->type != TYPE_OPTION && o->t->type != TYPE_POSITIONAL) continue;
        d_path(&r, L, o->t->name, path, sizeof path); argus_value_t v = argus_get(&r.argus, path); bool set = argus_is_set(&r.argus, path); size_t n = argus_count(&r.argus, path);
        if (set != (o->set || o->t->have_default)) mc_fail("'%s' is %s", path, set ? "set" : "not set");
        if (o->set && o->from_env && (o->t->flags & FLAG_ENV_OVERRIDE) ? n < 1 : o->set && n != (o->t->handler == (argus_handler_t)cust ? (size_t)o->v.n : 1)) mc_fail("'%s' counts %zu", path, n);
        if (o->t->handler == (argus_handler_t)cust) {
            if (!o->set) { if (o->t->have_default ? v.as_ptr != o->t->default_value.as_ptr : v.as_ptr != NULL) mc_fail("'%s' holds a value that was not stored", path); continue; }
            if (o->v.i == 3) { if (v.as_ptr) mc_fail("'%s' holds a pointer its handler never stored", path); continue; }
            if (o->v.i == 1 ? v.as_ptr != KONST : (!find(v.as_ptr) || strcmp(v.as_ptr, o->v.s))) mc_fail("'%s' does not hold what its handler stored last ('%s')", path, o->v.s);
            if (o->v.i == 2 && strcmp(find(v.as_ptr)->name, o->t->name)) mc_fail("'%s' holds the value stored by '%s'", path, find(v.as_ptr)->name);
            h = mc_mixs(h, o->v.s);
        } else if (o->t->handler == (argus_handler_t)cnum) { if (v.as_int64 != (o->set ? o->v.i : o->t->default_value.as_int64)) mc_fail("'%s' is %lld, its handler stored %lld", path, (long long)v.as_int64, (long long)o->v.i); }
        else if (o->t->handler == (argus_handler_t)cflag) { if (v.as_bool != (o->set && o->v.b)) mc_fail("flag '%s' is %d", path, v.as_bool); }
    }
    mc_state(h); d_free(&r); d_free(&r);
    if (wrongs) mc_fail("%s", wrong);
    for (unsigned i = 0; i < nobj; i++) if (obj[i].live && obj[i].heap && track_live() == 0) obj[i].live = false; /* released by the default free handler */
    if (track_live()) mc_fail("%zu blocks stored by handlers were never freed", track_live());
    d_end(&r); m_handler_hook = NULL; m_custom_hook = NULL;
}
#define PLAIN(s, l, ...) OPTION_BASE(s, l, VALUE_TYPE_CUSTOM, HANDLER(cust), HELP("h"), ##__VA_ARGS__)
#define CUS(s, l, ...) PLAIN(s, l, FREE_HANDLER(fr), ##__VA_ARGS__)
#define PCUS(n, ...) POSITIONAL_BASE(n, VALUE_TYPE_CUSTOM, HANDLER(cust), FREE_HANDLER(fr), HELP("h"), ##__VA_ARGS__)
#define V_PRE MAKE_VALIDATOR(pre, nofmt, _V_DATA_CUSTOM_(NULL), ORDER_PRE)
ARGUS_OPTIONS(RUN2, CUS('c', "cus"), CUS('z', "zed", ENV_VAR("E3")), )
ARGUS_OPTIONS(RUN, CUS('c', "cus", ENV_VAR("E2")), CUS('r', "req", FLAGS(FLAG_REQUIRED)), OPTION_BASE('y', "why", VALUE_TYPE_FLAG, HANDLER(cflag), HELP("h")), SUBCOMMAND("deep", RUN2, HELP("h")), )
ARGUS_OPTIONS(TA, CUS('c', "cus", ENV_VAR("E1")), CUS('o', "ovr", ENV_VAR("E2"), FLAGS(FLAG_ENV_OVERRIDE)), PLAIN('d', "def", ENV_VAR("E3"), FLAGS(FLAG_ENV_OVERRIDE)), PLAIN('q', "nil", FREE_HANDLER(NULL)), CUS('k', "kon", DEFAULT("dflt")),
    OPTION_BASE('n', "num", VALUE_TYPE_INT, HANDLER(cnum), HELP("h"), DEFAULT(7)), OPTION_BASE('f', "flg", VALUE_TYPE_FLAG, HANDLER(cflag), HELP("h")), OPTION_BASE('x', "exi", VALUE_TYPE_FLAG, HANDLER(cflag), HELP("h"), FLAGS(FLAG_EXIT)), PCUS("pos", OPTL), )
ARGUS_OPTIONS(TB, CUS('c', "cus", ENV_VAR("E1")), CUS('v', "val", VALIDATOR(V_PRE), ENV_VAR("E3")), SUBCOMMAND("run", RUN, HELP("h")), )
ARGUS_OPTIONS(TC, CUS('a', "aaa", CONFLICT("bbb"), ENV_VAR("E1")), CUS('b', "bbb", ENV_VAR("E2")), CUS('c', "cus", REQUIRE("aaa"), ENV_VAR("E3")), GROUP_START("g", FLAGS(FLAG_EXCLUSIVE)), CUS('m', "mmm"), CUS('w', "www"), GROUP_END(), PCUS("one"), PCUS("two", OPTL), )
#define V_POST(n) MAKE_VALIDATOR(postv, nofmt, _V_DATA_CUSTOM_(n), ORDER_POST)
ARGUS_OPTIONS(TD2, CUS('c', "cus", VALIDATOR(V_POST("3"), V_PRE)), PCUS("pp", OPTL), )
ARGUS_OPTIONS(TD, CUS('c', "cus", VALIDATOR(V_PRE, V_POST("1"), V_POST("2")), ENV_VAR("E1")), CUS('p', "pst", VALIDATOR(V_POST("1")), ENV_VAR("E2"), FLAGS(FLAG_ENV_OVERRIDE)), PLAIN('d', "def", VALIDATOR(V_PRE)), CUS('k', "kon", VALIDATOR(V_POST("1"))), SUBCOMMAND("sub", TD2, HELP("h")), PCUS("one", OPTL), PCUS("two", OPTL), )
/* the same handlers on options declared with the built-in value types */
#define TPLAIN(T, s, l, ...) OPTION_BASE(s, l, T, HANDLER(cust), HELP("h"), ##__VA_ARGS__)
#define TCUS(T, s, l, ...) TPLAIN(T, s, l, FREE_HANDLER(fr), ##__VA_ARGS__)
ARGUS_OPTIONS(TE, TCUS(VALUE_TYPE_STRING, 'c', "cus", ENV_VAR("E1")), TCUS(VALUE_TYPE_INT, 'o', "ovr", ENV_VAR("E2"), FLAGS(FLAG_ENV_OVERRIDE)), TPLAIN(VALUE_TYPE_FLOAT, 'd', "def", ENV_VAR("E3"), FLAGS(FLAG_ENV_OVERRIDE)), TPLAIN(VALUE_TYPE_BOOL, 'q', "nil", FREE_HANDLER(NULL)), TCUS(VALUE_TYPE_STRING, 'k', "kon", DEFAULT("dflt")),
    OPTION_BASE('n', "num", VALUE_TYPE_INT, HANDLER(cnum), FREE_HANDLER(fr), HELP("h"), DEFAULT(7)), OPTION_BASE('f', "flg", VALUE_TYPE_FLAG, HANDLER(cflag), FREE_HANDLER(fr), HELP("h")), OPTION_BASE('x', "exi", VALUE_TYPE_FLAG, HANDLER(cflag), HELP("h"), FLAGS(FLAG_EXIT)), POSITIONAL_BASE("pos", VALUE_TYPE_STRING, HANDLER(cust), FREE_HANDLER(fr), HELP("h"), OPTL), )
static const argus_option_t *TT[] = {TA, TB, TC, TD, TE};
static const char *WA[] = {"-csA", "--cus=fB", "--cus", "-osA", "-o", "--ovr=Fx", "-dsA", "-dk", "-dF3", "-qs1", "-qe", "-ks", "-kk", "-n12", "-nf", "-f", "-x", "-fces", "-ce", "s", "f", "--nope", "", "-cn", "-dn", "-ff", "-fffcsB"};
static const char *WB[] = {"-csA", "-ce", "--cus", "-vs", "--val=s!", "--val=f!", "-vf1", "run", "ru", "-rs", "-rk", "-rF", "-y", "--req=e", "deep", "-zs", "-zfS", "-ze", "s", "-yce1", "--", "-yr", "", "-vn!", "-vn", "-yy", "-yyycsA"};
static const char *WC[] = {"-as", "-ae", "-ak", "-bs", "-bF", "-cs", "-ck", "--cus", "-ms", "-ws", "-wf", "--mmm=k", "s1", "k", "e1", "e2", "f", "F", "--", "-", "-q", "-a", "", "-an", "--bbb=", "-aas", "-mms1"};
static const char *WD[] = {"-cs", "-cc", "-cc#", "-cc!", "-cn", "-cn#", "--cus=", "-ps", "-pc", "-p#", "-pn", "-ds", "-d!", "-dc", "-ks", "-kc", "-k", "-ce", "-pe#", "", "s", "c1", "n1", "sub", "f", "-dds", "-ccs"};
static const char **WW[] = {WA, WB, WC, WD, WA};
static const char *EV[] = {NULL, "s-env", "F"};
static unsigned LEN;
static void words(uint64_t idx, const void *arg)
{
    unsigned t = (unsigned)(uintptr_t)arg % 8, e = 0; if ((uintptr_t)arg >= 8) { e = (unsigned)(idx % 26) + 1; idx /= 26; }
    unsigned k[8], n = seq_decode(idx, 27, LEN, k); dcase_t c = {.tmpl = TT[t]};
    for (unsigned i = 0; i < n; i++) c.argv[c.argc++] = WW[t][k[i]];
    static const char *EN[] = {"E1", "E2", "E3"};
    for (int i = 0; i < 3; i++, e /= 3) if (e % 3) { c.ename[c.nenv] = EN[i]; c.evalue[c.nenv++] = EV[e % 3]; }
    one(&c, t == 0 ? "A" : t == 1 ? "B" : t == 2 ? "C" : t == 3 ? "D" : "E");
}
static void codes(uint64_t idx, const void *arg)
{
    (void)arg; char w[8]; dcase_t c = {.tmpl = TA}; unsigned st = (unsigned)(idx % 37), how = (unsigned)(idx / 37 % 3), pos = (unsigned)(idx / 111 % 2); char t[4] = {pos ? 'F' : 'f', (char)(st < 28 ? 'A' + st : '1' + (st - 28)), 0};
    if (how == 0) { snprintf(w, sizeof w, "-c%s", t); c.argv[c.argc++] = w; c.argv[c.argc++] = "-f"; } else if (how == 1) c.argv[c.argc++] = t; else { c.nenv = 1; c.ename[0] = "E1"; c.evalue[0] = t; c.argv[c.argc++] = "-qs"; }
    one(&c, "A");
}
static void wide(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 120) + 1; idx /= 120; unsigned bad = (unsigned)(idx % 121), mode = (unsigned)(idx / 121); if (bad > n) return;
    static argus_option_t t[128]; static char nm[128][8], w[128][24]; dcase_t c = {.tmpl = t};
    for (unsigned i = 0; i < n; i++) { snprintf(nm[i], 8, "o%u", i); t[i] = PLAIN(0, "x", FREE_HANDLER(fr)); t[i].name = t[i].lname = nm[i]; if (i % 3 == 1) t[i].free_handler = NULL;
        snprintf(w[i], 24, "--o%u=%s%u", i, i == bad ? (mode & 1 ? "F" : "f") : i % 5 == 4 ? "k" : "s", i); if (i == bad) w[i][strcspn(w[i], "=") + 2] = 0; c.argv[c.argc++] = w[i]; }
    t[n] = OPTION_END(); if (mode & 2) for (unsigned i = 0; i < n / 2; i++) { const char *x = c.argv[i]; c.argv[i] = c.argv[n - 1 - i]; c.argv[n - 1 - i] = x; }
    one(&c, "wide");
}
static void deep(uint64_t idx, const void *arg)
{
    (void)arg; unsigned d = (unsigned)(idx % 9); idx /= 9; unsigned bad = (unsigned)(idx % 10); idx /= 10; unsigned envs = (unsigned)(idx % 3), mode = (unsigned)(idx / 3); if (bad > d + 1) return;
    static argus_option_t t[10][8]; static char w[12][16]; static char nm[12][8]; dcase_t c = {.tmpl = t[0]};
    for (unsigned l = 0; l <= d; l++) { unsigned k = 0; snprintf(nm[l], 8, "v%u", l); t[l][k++] = CUS('c', "cus", ENV_VAR("E1")); t[l][k++] = CUS('l', "x"); t[l][k - 1].name = t[l][k - 1].lname = nm[l]; t[l][k++] = PLAIN('p', "ptr"); if (l < d) t[l][k++] = SUBCOMMAND("go", t[l + 1], HELP("h")); t[l][k] = OPTION_END(); }
    for (unsigned l = 0; l <= d; l++) { if (l) c.argv[c.argc++] = "go"; snprintf(w[l], 16, "-l%s%u", bad == l ? (mode & 1 ? "F" : "f") : "s", l); if (bad == l) w[l][3] = 0; c.argv[c.argc++] = w[l]; if (mode & 2) c.argv[c.argc++] = "-psx"; if (mode & 4 && l == d / 2) c.argv[c.argc++] = "-cs0"; }
    if (envs) { c.nenv = 1; c.ename[0] = "E1"; c.evalue[0] = EV[envs]; }
    one(&c, "deep");
}
static void repeat(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 200) + 1, mode = (unsigned)(idx / 200); dcase_t c = {.tmpl = TA}; static const char *W[][3] = {{"-cs1", "-cs2", "-cs3"}, {"-ce1", "-ce2", "-ce3"}, {"-cs1", "-ck", "-ce"}, {"-ds1", "-dk", "-de"}, {"-qe", "-os", "-qs"}, {"-n1", "-n22", "-f"}};
    for (unsigned i = 0; i < n; i++) c.argv[c.argc++] = W[mode % 6][i % 3];
    if (mode >= 6 && mode < 12) c.argv[c.argc++] = mode % 2 ? "-dF" : "-qf"; if (mode >= 12) { c.nenv = 3; c.ename[0] = "E1"; c.ename[1] = "E2"; c.ename[2] = "E3"; c.evalue[0] = c.evalue[1] = c.evalue[2] = "s-env"; }
    one(&c, "A");
}
void mc_register(int thorough)
{
    LEN = thorough ? 5 : 4; static const char *NM[] = {"words/A", "words/B", "words/C", "words/D", "words/E"}, *NE[] = {"words+env/A", "words+env/B", "words+env/C", "words+env/D", "words+env/E"};
    for (unsigned t = 0; t < 5; t++) { d_space(NM[t], seq_count(27, LEN), words, (void *)(uintptr_t)t); d_space(NE[t], 26 * seq_count(27, LEN - 1), words, (void *)(uintptr_t)(t + 8)); }
    d_space("codes", 37 * 3 * 2, codes, NULL); d_space("wide", 120 * 121 * 4, wide, NULL); d_space("deep", 9 * 10 * 3 * 8, deep, NULL); d_space("repeat", 200 * 18, repeat, NULL);
    for (unsigned t = 0; t < 5; t++) d_space_dressed(NE[t], 26 * seq_count(27, thorough ? 2 : 1), words, (void *)(uintptr_t)(t + 8));
}
