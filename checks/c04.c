/* C04: option paths resolve along the active command chain only. */
#include "model.h"
const char *mc_property = "C04";
const char *mc_bounds =
    "a four-level command tree whose levels reuse option, command and group names; every command chain of it (exact and abbreviated), with all, no or only "
    "root-level options given; every path of up to 4 (5) components over 13 components (right, misspelt, abbreviated, wrong level, group, empty) and every path "
    "string of up to 6 (8) characters over {. x r u n}; option and command eight nested commands with an option at every subset of the levels, every selected depth and every prefix path; chains of 1..8 commands with names of every length up to 80 (150) and the path with each component shortened, lengthened or changed; tables of 1..120 options at the root and in a command; names of every length 1..200 with the exact path, one character less and one more.  "
    "Every accessor is called with every path and compared with an independent resolver over the definition tree.";

static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
#define A ACTION(act)
ARGUS_OPTIONS(t_bot, OPTION_STRING('x', "x", HELP("h")), OPTION_INT('q', "q", HELP("h")), OPTION_FLAG('f', "f", HELP("h")), )
ARGUS_OPTIONS(t_deep, OPTION_ARRAY_INT('y', "y", HELP("h")), GROUP_START("grp"), OPTION_MAP_STRING('z', "z", HELP("h")), GROUP_END(), SUBCOMMAND("bot", t_bot, HELP("h"), A), )
ARGUS_OPTIONS(t_runrun, OPTION_STRING('x', "x", HELP("h")), OPTION_FLOAT('q', "q", HELP("h")), OPTION_STRING('r', "run", HELP("h")), )
ARGUS_OPTIONS(t_run, OPTION_STRING('x', "x", HELP("h")), OPTION_ARRAY_STRING('z', "z", HELP("h")), GROUP_START("g"), OPTION_BOOL('f', "f", HELP("h")), GROUP_END(), SUBCOMMAND("run", t_runrun, HELP("h"), A), SUBCOMMAND("deep", t_deep, HELP("h"), A), )
ARGUS_OPTIONS(t_runner, OPTION_STRING('y', "y", HELP("h")), OPTION_STRING('n', "nur", HELP("h"), DEFAULT("dflt")), )
ARGUS_OPTIONS(t_other, OPTION_STRING('x', "x", HELP("h")), OPTION_STRING('r', "run", HELP("h")), OPTION_STRING(0, "grp", HELP("h")), )
ARGUS_OPTIONS(t_root, OPTION_STRING('x', "x", HELP("h")), OPTION_MAP_INT('y', "y", HELP("h")), GROUP_START("grp"), OPTION_INT('g', "g", HELP("h")), GROUP_END(), OPTION_INT('d', "d", HELP("h"), DEFAULT(7)),
    SUBCOMMAND("run", t_run, HELP("h"), A), SUBCOMMAND("runner", t_runner, HELP("h"), A), SUBCOMMAND("other", t_other, HELP("h"), A), )

static const char *CHAINS[][5] = {{0}, {"run"}, {"runner"}, {"other"}, {"ot"}, {"runn"}, {"run", "run"}, {"run", "ru"}, {"run", "deep"}, {"run", "d"}, {"run", "deep", "bot"}, {"run", "deep", "b"}};
#define NCH (sizeof CHAINS / sizeof *CHAINS)
static mres_t M;

static void probe(argus_t *a, const char *path)
{
    const mopt_t *o = NULL; int r = m_resolve(&M, path, &o);
    if (r == R_SKIP) return;
    mc_trans(8);
    argus_value_t v; argus_array_it_t ai; argus_map_it_t mi;
    if (r == R_ABSENT) {
        if (argus_is_set(a, path)) mc_fail("'%s' is reported as set", path);
        if (argus_count(a, path)) mc_fail("'%s' has count %zu", path, argus_count(a, path));
        a->error_code = 0; v = argus_get(a, path);
        if (v.raw || a->error_code != ARGUS_ERROR_NO_VALUE) mc_fail("get('%s'): raw %llx error %d, expected no value", path, (unsigned long long)v.raw, a->error_code);
        a->error_code = 0; v = argus_array_get(a, path, 0);
        if (v.raw || a->error_code != ARGUS_ERROR_NO_VALUE) mc_fail("array_get('%s'): raw %llx error %d", path, (unsigned long long)v.raw, a->error_code);
        a->error_code = 0; v = argus_map_get(a, path, "k");
        if (v.raw || a->error_code != ARGUS_ERROR_NO_VALUE) mc_fail("map_get('%s'): raw %llx error %d", path, (unsigned long long)v.raw, a->error_code);
        ai = argus_array_it(a, path); if (argus_array_next(&ai)) mc_fail("array_it('%s') yields an element", path);
        mi = argus_map_it(a, path); if (argus_map_next(&mi)) mc_fail("map_it('%s') yields an element", path);
        a->error_code = 0;
        return;
    }
    argus_valtype_t t = o->t->value_type;
    if (argus_is_set(a, path) != (o->set || o->t->have_default)) mc_fail("is_set('%s') is %d", path, argus_is_set(a, path));
    bool co = t & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP);
    int n = o->c ? o->c->n : 0;
    if (co && (int)argus_count(a, path) != n) mc_fail("count('%s') is %zu, expected %d", path, argus_count(a, path), n);
    v = argus_get(a, path);
    if (a->error_code) mc_fail("get('%s') error %d", path, a->error_code);
    if (!co && o->set) {
        bool ok = t == VALUE_TYPE_STRING ? v.as_string && !strcmp(v.as_string, o->v.s) : t == VALUE_TYPE_FLOAT ? v.as_float == o->v.f : t == VALUE_TYPE_INT ? v.as_int64 == o->v.i : v.as_bool == (bool)o->v.b;
        if (!ok) mc_fail("get('%s') is not the value of that option", path);
    } else if (!co && o->t->have_default) { if (v.raw != o->t->default_value.raw) mc_fail("get('%s') is not its default", path); }
    else if (!co && v.raw) mc_fail("get('%s') has a value but was not given", path);
    v = argus_array_get(a, path, 0);
    int want = !(t & VALUE_TYPE_ARRAY) ? ARGUS_ERROR_INVALID_TYPE : n ? 0 : ARGUS_ERROR_INVALID_INDEX;
    if (a->error_code != want) mc_fail("array_get('%s',0) error %d, expected %d", path, a->error_code, want);
    if (!want && (t == VALUE_TYPE_ARRAY_INT ? v.as_int != (int)o->c->el[0].i : strlen(v.as_string) != (size_t)o->c->el[0].n || memcmp(v.as_string, o->c->el[0].s, strlen(v.as_string)))) mc_fail("array_get('%s',0) is another value", path);
    v = argus_map_get(a, path, "k");
    want = !(t & VALUE_TYPE_MAP) ? ARGUS_ERROR_INVALID_TYPE : n ? 0 : ARGUS_ERROR_INVALID_KEY;
    if (a->error_code != want) mc_fail("map_get('%s','k') error %d, expected %d", path, a->error_code, want);
    if (!want && (t == VALUE_TYPE_MAP_INT ? v.as_int64 != o->c->el[0].i : strlen(v.as_string) != (size_t)o->c->el[0].n || memcmp(v.as_string, o->c->el[0].s, strlen(v.as_string)))) mc_fail("map_get('%s','k') is another value", path);
    int k = 0; ai = argus_array_it(a, path); while (argus_array_next(&ai)) k++;
    if (k != ((t & VALUE_TYPE_ARRAY) ? n : 0)) mc_fail("iterating '%s' as array yields %d", path, k);
    k = 0; mi = argus_map_it(a, path); while (argus_map_next(&mi)) k++;
    if (k != ((t & VALUE_TYPE_MAP) ? n : 0)) mc_fail("iterating '%s' as map yields %d", path, k);
    a->error_code = 0;
}
/* words for one chain; mode 0 nothing given, 1 everything at every level, 2 root only, 3 deepest level only */
static char buf[64][64]; static int nb;
static const char *w(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(buf[nb], sizeof buf[nb], fmt, ap); va_end(ap); return buf[nb++]; }
static void give_level(dcase_t *c, const argus_option_t *t, int L)
{
    for (int i = 0; t[i].type != TYPE_NONE; i++) {
        if (t[i].type != TYPE_OPTION || (t[i].flags & FLAG_EXIT)) continue;
        const char *n = t[i].lname, *l;
        switch (t[i].value_type) {
            case VALUE_TYPE_FLAG: l = w("--%s", n); break;
            case VALUE_TYPE_BOOL: l = w("--%s=%s", n, "yes"); break;
            case VALUE_TYPE_INT: l = w("--%s=%d", n, 100 + L); break;
            case VALUE_TYPE_FLOAT: l = w("--%s=%d.5", n, L); break;
            case VALUE_TYPE_ARRAY_INT: l = w("--%s=%d,%d", n, 10 + L, 5); break;
            case VALUE_TYPE_ARRAY_STRING: l = w("--%s=e%d,f,g", n, L); break;
            case VALUE_TYPE_MAP_INT: l = w("--%s=k=%d,j=1", n, 20 + L); break;
            case VALUE_TYPE_MAP_STRING: l = w("--%s=k=v%d", n, L); break;
            default: l = w("--%s=%s%d", n, n, L); break;
        }
        c->argv[c->argc++] = l;
    }
}
static void build(dcase_t *c, unsigned chain, unsigned mode)
{
    nb = 0; memset(c, 0, sizeof *c); c->tmpl = t_root;
    const argus_option_t *t = t_root;
    int len = 0; while (CHAINS[chain][len]) len++;
    for (int L = 0;; L++) {
        if (mode == 1 || (mode == 2 && L == 0) || (mode == 3 && L == len)) give_level(c, t, L);
        if (L == len) break;
        const char *cw = CHAINS[chain][L]; const argus_option_t *sub = NULL;
        for (int i = 0; t[i].type != TYPE_NONE; i++) if (t[i].type == TYPE_SUBCOMMAND && !strcmp(t[i].name, cw)) sub = &t[i];
        for (int i = 0; !sub && t[i].type != TYPE_NONE; i++) if (t[i].type == TYPE_SUBCOMMAND && !strncmp(t[i].name, cw, strlen(cw))) sub = &t[i];
        c->argv[c->argc++] = cw; t = sub->sub_options;
    }
}
static const char *COMP[] = {"", "x", "y", "z", "q", "run", "ru", "runner", "other", "deep", "bot", "grp", "f"};
#define NC (sizeof COMP / sizeof *COMP)
static unsigned MAXC, MAXS;
/* one case = one chain+mode and a block of paths; the parse is done once per case */
static const char *(*path_of)(uint64_t idx, char *out);
static const char *path_comp(uint64_t idx, char *out)
{
    unsigned k[8]; unsigned n = seq_decode(idx, NC, MAXC, k); out[0] = 0;
    for (unsigned i = 0; i < n; i++) { if (i) strcat(out, "."); strcat(out, COMP[k[i]]); }
    return out;
}
static const char *path_char(uint64_t idx, char *out)
{
    static const char CH[] = ".xrun"; unsigned k[16]; unsigned n = seq_decode(idx, 5, MAXS, k);
    for (unsigned i = 0; i < n; i++) out[i] = CH[k[i]];
    out[n] = 0; return out;
}
#define BLK 256
static void paths(uint64_t idx, const void *arg)
{
    path_of = arg ? path_char : path_comp;
    uint64_t total = arg ? seq_count(5, MAXS) : seq_count(NC, MAXC), nblk = (total + BLK - 1) / BLK;
    uint64_t b = idx % nblk; idx /= nblk;
    unsigned mode = (unsigned)(idx % 4), chain = (unsigned)(idx / 4);
    dcase_t c; build(&c, chain, mode); d_note_case(&c, "tree");
    m_parse(&c, &M);
    if (M.kind != M_OK) mc_fail("model refuses its own words: %s", M.why);
    drun_t r; d_begin(&r, &c); d_parse(&r);
    uint64_t h = m_compare(&r, &M); char p[128];
    for (uint64_t i = b * BLK; i < total && i < (b + 1) * BLK; i++) {
        const char *heap = strdup(path_of(i, p));        /* exact-size copy: overreads are caught */
        const mopt_t *o = NULL; int k = m_resolve(&M, heap, &o);
        probe(&r.argus, heap);
        mc_state(mc_mix(mc_mix(h, (uint64_t)k), o ? (uint64_t)(o->t - t_root) : 0));
        mc_exec(1);
        free((void *)heap);
    }
    d_free(&r); d_end(&r);
}
static void lengths(uint64_t idx, const void *arg)
{
    (void)arg; unsigned which = idx % 3; idx /= 3; unsigned len = 1 + (unsigned)idx;
    char on[256], cn[256], o2[256];
    memset(on, 'o', len); on[len] = 0; memset(cn, 'c', len); cn[len] = 0; memset(o2, 'o', len); o2[len] = 0; o2[len - 1] = 'z';
    if (which == 1) strcpy(cn, "cmd"); if (which == 2) { strcpy(on, "opt"); strcpy(o2, "opz"); }
    argus_option_t leaf[] = { OPTION_STRING(0, on, HELP("h")), OPTION_STRING(0, o2, HELP("h")), OPTION_END() };
    argus_option_t mid[] = { OPTION_INT(0, "mid", HELP("h")), SUBCOMMAND(cn, leaf, HELP("h")), OPTION_END() };
    argus_option_t root[] = { OPTION_STRING(0, o2, HELP("h")), SUBCOMMAND(cn, mid, HELP("h")), OPTION_END() };
    char w0[300]; snprintf(w0, sizeof w0, "--%s=val", on);
    char w1[300]; snprintf(w1, sizeof w1, "--%s=root", o2);
    dcase_t c = {.tmpl = root, .argc = 4}; c.argv[0] = w1; c.argv[1] = cn; c.argv[2] = cn; c.argv[3] = w0;
    NOTE("names of length %u kind %u", len, which);
    m_parse(&c, &M);
    drun_t r; d_begin(&r, &c); d_parse(&r); uint64_t h = m_compare(&r, &M);
    char path[1000];
    const char *names[] = {on, o2};
    for (int a = 0; a < 2; a++) for (int cut = -1; cut <= 1; cut++) for (int where = 0; where < 3; where++) for (int pre = 0; pre < 5; pre++) {
        char C1[260], C2[260], N[260];
        strcpy(C1, cn); strcpy(C2, cn); strcpy(N, names[a]);
        char *t = where == 0 ? C1 : where == 1 ? C2 : N; size_t tl = strlen(t);
        if (cut < 0) t[tl - 1] = 0; if (cut > 0) { t[tl] = t[tl - 1]; t[tl + 1] = 0; }
        if (pre == 0) snprintf(path, sizeof path, "%s.%s.%s", C1, C2, N);
        if (pre == 1) snprintf(path, sizeof path, "%s", N);
        if (pre == 2) snprintf(path, sizeof path, ".%s", N);
        if (pre == 3) snprintf(path, sizeof path, "%s.%s", C1, N);
        if (pre == 4) snprintf(path, sizeof path, "%s.%s.%s.%s", C1, C2, C2, N);
        probe(&r.argus, path); mc_exec(1);
    }
    mc_state(h);
    d_free(&r); d_end(&r);
}
/* eight nested commands: option 'x' defined at a subset of the levels, every depth selected, every prefix path and near misses */
static argus_option_t o_x(void) { return OPTION_STRING('x', "x", HELP("h")); }
static argus_option_t o_f(void) { return OPTION_FLAG('f', "f", HELP("h")); }
static argus_option_t o_end(void) { return OPTION_END(); }
static void nest(uint64_t idx, const void *arg)
{
    (void)arg; unsigned mask = idx % 512, depth = (unsigned)(idx / 512 % 9), same = (unsigned)(idx / 512 / 9);
    static argus_option_t lev[9][4]; static char nm[9][8];
    for (int d = 8; d >= 0; d--) {
        int m = 0;
        lev[d][m++] = (mask >> d & 1) ? o_x() : o_f();
        if (d < 8) { if (same) strcpy(nm[d], "c"); else sprintf(nm[d], "c%d", d); lev[d][m++] = (argus_option_t)SUBCOMMAND(nm[d], lev[d + 1], HELP("h")); }
        lev[d][m++] = o_end();
    }
    dcase_t c = {.tmpl = lev[0]}; nb = 0;
    for (unsigned d = 0;; d++) { if (mask >> d & 1) c.argv[c.argc++] = w("--x=at%u", d); if (d == depth) break; c.argv[c.argc++] = nm[d]; }
    d_note_case(&c, "nest"); NOTE(" mask=%x", mask);
    m_parse(&c, &M); drun_t r; d_begin(&r, &c); d_parse(&r); uint64_t h = m_compare(&r, &M);
    char path[200];
    for (unsigned len = 0; len <= 9; len++) for (unsigned bad = 0; bad <= 9; bad++) {
        path[0] = 0;
        for (unsigned i = 0; i < len; i++) { char t[16]; snprintf(t, sizeof t, "%s%s.", i < 8 ? nm[i] : "c", bad == i + 1 ? "x" : ""); strcat(path, t); }
        strcat(path, "x"); probe(&r.argus, path); mc_exec(1);
        if (len == 0) { probe(&r.argus, "x"); probe(&r.argus, ".x"); }
    }
    mc_state(mc_mix(h, mask));
    d_free(&r); d_end(&r);
}
/* d nested commands with names of one length: the full path, and with one component or the name shortened, lengthened or changed in its first, middle or last character */
static void deeplong(uint64_t idx, const void *arg)
{
    (void)arg; unsigned depth = 1 + (unsigned)(idx % 8), len = 1 + (unsigned)(idx / 8); static argus_option_t lev[9][5]; static char nm[9][160], x[160], path[2400], t[200];
    memset(x, 'x', len); x[len] = 0;
    for (int d = (int)depth; d >= 0; d--) { int m = 0; memset(nm[d], 'a' + d, len); nm[d][len] = 0; lev[d][m++] = o_f(); lev[d][m++] = (argus_option_t)OPTION_INT(0, x, HELP("h")); if (d < (int)depth) lev[d][m++] = (argus_option_t)SUBCOMMAND(nm[d], lev[d + 1], HELP("h")); lev[d][m++] = o_end(); }
    static char w[9][200]; dcase_t c = {.tmpl = lev[0]}; for (unsigned d = 0; d <= depth; d++) { sprintf(w[d], "--%s=%u", x, d + 40); c.argv[c.argc++] = w[d]; if (d < depth) c.argv[c.argc++] = nm[d]; }
    NOTE("%u commands with names of %u", depth, len); m_parse(&c, &M); drun_t r; d_begin(&r, &c); d_parse(&r); uint64_t h = m_compare(&r, &M);
    for (unsigned at = 0; at <= depth + 1; at++) for (unsigned how = 0; how < 6; how++) for (unsigned n = 0; n <= depth; n++) {
        path[0] = 0; for (unsigned i = 0; i <= n; i++) { strcpy(t, i < n ? nm[i] : x); if (i == at) { if (how == 0) t[len - 1] = 0; if (how == 1) strcat(t, (char[]){t[0], 0}); if (how == 2) t[0]++; if (how == 3) t[len / 2]++; if (how == 4) t[len - 1]++; if (how == 5) t[0] = '.'; } strcat(path, t); if (i < n) strcat(path, "."); }
        if (at > depth && how) continue;
        char *heap = strdup(path); probe(&r.argus, heap); free(heap); mc_exec(1);
    }
    mc_state(h); d_free(&r); d_end(&r);
}
/* tables of n options (prefixes of each other), each looked up at the root and in a command that has a table of its own */
static void wide(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = 1 + (unsigned)(idx % 120), sub = (unsigned)(idx / 120); static argus_option_t t[2][160]; static char nm[120][12], w[240][24], path[40]; dcase_t c = {.tmpl = t[0]}; int e[2] = {0, 0}; unsigned k = 0;
    for (unsigned i = 0; i < n; i++) sprintf(nm[i], "%s%u", i % 3 ? "o" : "opt", i);
    for (int l = 0; l < 2; l++) { for (unsigned i = 0; i < n; i++) if (l == 0 || i % 2) { if (i % 10 == 5) t[l][e[l]++] = (argus_option_t)GROUP_START("o1"); t[l][e[l]++] = (argus_option_t)OPTION_INT(0, nm[i], HELP("h")); if (i % 10 == 7) t[l][e[l]++] = (argus_option_t)GROUP_END(); } if (l == 0) t[0][e[0]++] = (argus_option_t)SUBCOMMAND("cmd", t[1], HELP("h")); t[l][e[l]] = o_end(); }
    for (unsigned i = 0; i < n; i++) if (i % 5) { sprintf(w[k], "--%s=%u", nm[i], i + 1); c.argv[c.argc++] = w[k++]; } if (sub) { c.argv[c.argc++] = "cmd"; for (unsigned i = 1; i < n; i += 2) if (i % 7) { sprintf(w[k], "--%s=%u", nm[i], i + 1001); c.argv[c.argc++] = w[k++]; } }
    NOTE("%u options, %s", n, sub ? "command" : "root"); m_parse(&c, &M); drun_t r; d_begin(&r, &c); d_parse(&r); uint64_t h = m_compare(&r, &M);
    for (unsigned i = 0; i < n + 2; i++) for (unsigned f = 0; f < 6; f++) { char q[16]; sprintf(q, "%s%u", i % 3 ? "o" : "opt", i); snprintf(path, sizeof path, (const char *[]){"%s", ".%s", "cmd.%s", "%s0", "cm.%s", "O%s"}[f], f == 5 ? q + 1 : q); char *heap = strdup(path); probe(&r.argus, heap); free(heap); mc_exec(1); }
    mc_state(h); d_free(&r); d_end(&r);
}
void mc_register(int thorough)
{
    MAXC = thorough ? 5 : 4; MAXS = thorough ? 8 : 6;
    d_space("paths", NCH * 4 * ((seq_count(NC, MAXC) + BLK - 1) / BLK), paths, NULL);
    d_space("strings", NCH * 4 * ((seq_count(5, MAXS) + BLK - 1) / BLK), paths, (void *)1);
    d_space("nest", 512 * 9 * 2, nest, NULL); d_space_dressed("nest", 512 * 9 * 2, nest, NULL); d_space_dressed("paths", NCH * 4 * ((seq_count(NC, 2) + BLK - 1) / BLK), paths, NULL);
    d_space("lengths", 200 * 3, lengths, NULL); d_space("deep names", 8 * (thorough ? 150 : 80), deeplong, NULL); d_space("wide", 240, wide, NULL);
}
