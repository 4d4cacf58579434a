/* C23: usage line and command listings describe the command tree exactly. */
#include "model.h"
const char *mc_property = "C23";
const char *mc_bounds =
    "usage: every list of up to 4 (5) entries out of 11 kinds (required, optional and multi-value positionals, options, hidden options, groups, visible and hidden commands) that the table rules allow, at every depth from the program itself to 8 nested commands, with names of every length up to 200 and with every choice of four names for the levels, names repeated on the way included; "
    "listings: every command tree of up to 2 (3) commands, each with up to 2 subcommands, each with up to 1 sub-subcommand, with every placement of actions and of one hidden, experimental, deprecated or advanced command, also with the same names on every level, without and with other entries (options, optional positionals, groups) between them, with and without descriptions; for each, the listing without a command and the listing of every selectable command without action; "
    "nested chains down to 8 levels, path names of every length up to 300 and description columns 0..60; 1..100 commands with up to 120 below each, without and with marks on them; 0..39 positionals of which any number is required, with and without 60 options.";
static int ran; static int act(argus_t *a, void *d) { (void)a; (void)d; ran++; return 0; }
static char want[1 << 15], got[1 << 15];
static void show_usage(void *p) { argus_print_usage(p); }
static int xs; static void do_exec(void *p) { xs = argus_exec(p, NULL); }
static void chain_case(dcase_t *c, const argus_option_t *t, int n, const char **w) { memset(c, 0, sizeof *c); c->tmpl = t; for (int i = 0; i < n; i++) c->argv[c->argc++] = w[i]; }
/* ---- usage */
static argus_option_t LV[10][10]; static const char *CN[9] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"};
static char NM[8][256];
static unsigned L;
static void usage_of(argus_option_t *t, int depth, const char *const *chain)
{
    /* chain levels above the tested one */
    argus_option_t *top = t;
    for (int d = depth - 1; d >= 0; d--) { LV[d][0] = (argus_option_t)OPTION_FLAG('u', "upper", HELP("h")); LV[d][1] = (argus_option_t)SUBCOMMAND(chain[d], top, HELP("h"), ACTION(act)); LV[d][2] = (argus_option_t)OPTION_END(); top = LV[d]; }
    static dcase_t c; chain_case(&c, top, depth, (const char **)chain); int req = 0; for (argus_option_t *o = t; o->type != TYPE_NONE; o++) if (o->type == TYPE_POSITIONAL && (o->flags & FLAG_REQUIRED)) req++;
    for (int i = 0; i < req; i++) c.argv[c.argc++] = "w";
    drun_t r; d_begin(&r, &c); d_parse(&r); if (r.exited || r.status) mc_fail("harness: the level cannot be selected (%d)", r.status);
    size_t n = (size_t)sprintf(want, "Usage: prog"); for (int i = 0; i < depth; i++) n += (size_t)sprintf(want + n, " %s", chain[i]); n += (size_t)sprintf(want + n, " [OPTIONS]"); bool sub = false;
    for (argus_option_t *o = t; o->type != TYPE_NONE; o++) { sub |= o->type == TYPE_SUBCOMMAND; if (o->type == TYPE_POSITIONAL) { bool q = o->flags & FLAG_REQUIRED; n += (size_t)sprintf(want + n, " %c%s%s%c", q ? '<' : '[', o->name, o->value_type & VALUE_TYPE_VARIADIC ? "..." : "", q ? '>' : ']'); } }
    if (sub) n += (size_t)sprintf(want + n, " COMMAND"); sprintf(want + n, "\n");
    int code; size_t en; cap_reset(); if (guarded(show_usage, &r.argus, &code)) mc_fail("usage ends the program"); char *out = cap_out(&n); if (strcmp(out, want)) mc_fail("usage is '%.300s', expected '%.300s'", out, want); cap_err(&en); if (en) mc_fail("usage writes to standard error");
    mc_state(mc_mixs(1, want)); mc_exec(1); mc_trans((uint64_t)(depth + tbl_len(t))); d_free(&r); d_end(&r);
}
static argus_option_t sub0[2];
static void usages(uint64_t idx, const void *arg)
{
    (void)arg; int depth = (int)(idx % 9); idx /= 9; unsigned k[8], n = seq_decode(idx, 11, L, k); argus_option_t t[10]; sub0[0] = (argus_option_t)OPTION_FLAG('q', "qq", HELP("h")); sub0[1] = (argus_option_t)OPTION_END(); bool pos = false, opt = false, many = false, sub = false, grp = false; if (depth == 8) { for (unsigned i = 0; i < n; i++) if (k[i] == 9 || k[i] == 10) return; }
    NOTE("depth %d entries", depth); for (unsigned i = 0; i < n; i++) NOTE(" %u", k[i]);
    for (unsigned i = 0; i < n; i++) {
        static char s[8][8]; sprintf(s[i], "e%u", i); char *nm = s[i];
        if (k[i] < 5) { if (many || (opt && (k[i] == 0 || k[i] == 3)) || sub || grp) return; pos = true; opt |= k[i] != 0 && k[i] != 3; many |= k[i] == 2 || k[i] == 3; }
        switch (k[i]) {
            case 0: t[i] = (argus_option_t)POSITIONAL_STRING(nm, HELP("h")); break; case 1: t[i] = (argus_option_t)POSITIONAL_STRING(nm, HELP("h"), OPTL); break; case 2: t[i] = (argus_option_t)POSITIONAL_MANY_STRING(nm, HELP("h"), OPTL); break; case 3: t[i] = (argus_option_t)POSITIONAL_MANY_STRING(nm, HELP("h")); break;
            case 4: t[i] = (argus_option_t)POSITIONAL_FLOAT(nm, HELP("h"), DEFAULT(0.5), OPTL); break; case 5: t[i] = (argus_option_t)OPTION_STRING((char)('a' + i), nm, HELP("h")); break; case 6: t[i] = (argus_option_t)OPTION_ARRAY_INT((char)('a' + i), nm, HELP("h"), FLAGS(FLAG_HIDDEN)); break;
            case 7: t[i] = (argus_option_t)GROUP_START("grp"); break; case 8: t[i] = (argus_option_t)GROUP_END(); break; 
            case 9: if (pos) return; sub = true; t[i] = (argus_option_t)SUBCOMMAND(nm, sub0, HELP("h"), ACTION(act)); break; default: if (pos) return; sub = true; t[i] = (argus_option_t)SUBCOMMAND(nm, sub0, HELP("h"), ACTION(act), FLAGS(FLAG_HIDDEN)); }
        if (k[i] == 7) { if (grp) return; grp = true; } if (k[i] == 8) { if (!grp) return; grp = false; }
    }
    if (grp) return;
    t[n] = (argus_option_t)OPTION_END(); usage_of(t, depth, CN);
}
static void usage_len(uint64_t idx, const void *arg)
{
    (void)arg; int depth = (int)(idx % 9); unsigned len = (unsigned)(idx / 9) + 1; NOTE("depth %d names of %u characters", depth, len); const char *ch[9]; for (int i = 0; i < 8; i++) { for (unsigned j = 0; j < len; j++) NM[i][j] = (char)('a' + (i + (int)j * 3) % 26); NM[i][len] = 0; ch[i] = NM[i]; }
    argus_option_t t[] = {POSITIONAL_STRING(NM[0], HELP("h")), POSITIONAL_INT(NM[1], HELP("h"), OPTL), POSITIONAL_MANY_STRING(NM[2], HELP("h"), OPTL), OPTION_END()}; usage_of(t, depth, ch);
}
/* commands that share names with the ones above them, with the positionals or with the program */
static void usage_same(uint64_t idx, const void *arg)
{
    (void)arg; static const char *N[] = {"a", "ab", "prog", "e0"}; int depth = (int)(idx % 9); idx /= 9; const char *ch[9]; NOTE("depth %d names", depth); for (int i = 0; i < 8; i++) { ch[i] = N[idx & 3]; idx >>= 2; if (i < depth) NOTE(" %s", ch[i]); } if (idx % 2 && depth < 8) for (int i = depth; i < 8; i++) if (ch[i] != N[0]) return;
    argus_option_t t[] = {POSITIONAL_STRING("e0", HELP("h")), POSITIONAL_INT("a", HELP("h"), OPTL), POSITIONAL_MANY_STRING("prog", HELP("h"), OPTL), OPTION_END()}, u[] = {OPTION_FLAG('q', "a", HELP("h")), SUBCOMMAND("a", sub0, HELP("h"), ACTION(act)), OPTION_END()}; if (idx / 2 && depth == 8) return; sub0[0] = (argus_option_t)OPTION_FLAG('q', "qq", HELP("h")); sub0[1] = (argus_option_t)OPTION_END(); usage_of(idx / 2 ? u : t, depth, ch);
}
/* ---- listings */
static int cmp(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static void sort_lines(char *b) { static char tmp[1 << 15]; char *l[512]; size_t n = 0; strcpy(tmp, b); for (char *p = strtok(tmp, "\n"); p && n < 512; p = strtok(NULL, "\n")) l[n++] = p; qsort(l, n, sizeof *l, cmp); size_t k = 0; for (size_t i = 0; i < n; i++) k += (size_t)sprintf(b + k, "%s\n", l[i]); if (!n) *b = 0; }
/* path and description of every command line printed; command lines are the indented ones */
static void lines(const char *out)
{
    size_t k = 0; got[0] = 0; bool list = false;
    for (const char *p = out; *p;) {
        size_t n = strcspn(p, "\n"); char line[4096]; snprintf(line, sizeof line, "%.*s", (int)n, p); p += n + (p[n] == '\n'); if (!n) continue; if (!strcmp(line, "Available commands:")) { list = true; continue; }
        if (line[0] != ' ') continue; if (!list) mc_fail("command line before the listing: '%s'", line);
        char *s = line + strspn(line, " "), *d = strstr(s, " - "), *e = d ? d : s + strlen(s); while (e > s && e[-1] == ' ') e--; *e = 0; k += (size_t)sprintf(got + k, "%s|%s\n", s, d ? d + 3 : "");
    }
    if (!list) mc_fail("no listing printed: '%.200s'", out);
}
static size_t wn; static void expect(const char *path, const char *h) { wn += (size_t)sprintf(want + wn, "%s|%s\n", path, h ? h : ""); }
static void below(const argus_option_t *t, const char *base) { if (t) for (; t->type != TYPE_NONE; t++) if (t->type == TYPE_SUBCOMMAND) { char p[4096]; snprintf(p, sizeof p, "%s %s", base, t->name); expect(p, t->help); below(t->sub_options, p); } }
static argus_helper_config_t CFG; static bool cfg_on; static void tweak(argus_t *a) { if (cfg_on) a->helper.config = CFG; }
static void listing(const argus_option_t *root, int n, const char **chain, const argus_option_t *sel)
{
    static dcase_t c; chain_case(&c, root, n, chain); c.tweak = tweak; drun_t r; d_begin(&r, &c); d_parse(&r); if (r.exited || r.status) mc_fail("harness: cannot select (%d)", r.status); wn = 0; want[0] = 0; ran = 0; 
    if (!sel) { for (const argus_option_t *a = root; a->type != TYPE_NONE; a++) if (a->type == TYPE_SUBCOMMAND) { char p[4096]; snprintf(p, sizeof p, "prog %s", a->name); if (a->action) expect(p, a->help); for (const argus_option_t *b = a->sub_options; b && b->type != TYPE_NONE; b++) if (b->type == TYPE_SUBCOMMAND && b->action) { snprintf(p, sizeof p, "prog %s %s", a->name, b->name); expect(p, b->help); } } }
    else below(sel->sub_options, sel->name);
    int code; size_t q; cap_reset(); track_start(); if (guarded(do_exec, &r.argus, &code)) mc_fail("exec ends the program"); track_pause(); if (track_live()) mc_fail("the listing leaks"); if (ran) mc_fail("an action ran"); if (xs == 0) mc_fail("exec reports success although nothing ran");
    char *out = cap_out(&q); lines(out); sort_lines(want); sort_lines(got); if (strcmp(want, got)) mc_fail("listing differs:\n expected\n%s printed\n%s", want, got); mc_state(mc_mixs(2, want)); mc_exec(1); mc_trans((uint64_t)n + 1); d_free(&r); d_end(&r);
}
/* trees in a pool */
static argus_option_t pool[64][20]; static unsigned np; static char pn[128][16]; static unsigned pnn; static unsigned noise, hid, hidn, hidf; static bool samename; /* the same names on every level */
static const char *hp(void) { static char h[128][24]; if (hidn % 3 == 2) return NULL; sprintf(h[hidn % 128], "does %u - x", hidn); return h[hidn % 128]; }
static void put(argus_option_t *l, unsigned *n, bool a, argus_option_t *sub)
{
    char *nm = pn[pnn++]; if (samename) sprintf(nm, "k%ux", *n); else sprintf(nm, "k%ux", pnn);
    if (noise) { l[(*n)++] = (argus_option_t)OPTION_STRING(0, "opt", HELP("h")); l[(*n)++] = (argus_option_t)POSITIONAL_STRING("popt", HELP("h"), OPTL); }
    l[*n] = (argus_option_t)SUBCOMMAND(nm, sub); l[*n].action = a ? act : NULL; l[*n].help = hp(); if (hidn++ == hid) l[*n].flags |= (argus_optflags_t)hidf; (*n)++;
}
static argus_option_t *build1(unsigned k) /* L2 children: 0..2 */
{
    argus_option_t *l = pool[np++]; unsigned n = 0; l[n++] = (argus_option_t)OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler)); if (k) put(l, &n, k == 2, pool[0]); l[n] = (argus_option_t)OPTION_END(); return l;
}
static argus_option_t *build2(unsigned k) /* 0..42 */
{
    unsigned c = k == 0 ? 0 : k < 7 ? 1 : 2; k -= c == 0 ? 0 : c == 1 ? 1 : 7; argus_option_t *l = pool[np++]; unsigned n = 0; l[n++] = (argus_option_t)OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler));
    for (unsigned i = 0; i < c; i++) { unsigned v = k % 6; k /= 6; argus_option_t *s = build1(v / 2); put(l, &n, v & 1, v / 2 || noise ? s : pool[0]); } l[n] = (argus_option_t)OPTION_END(); return l;
}
static unsigned RL;
static void select_all(const argus_option_t *root, const argus_option_t *t, int n, const char **w)
{
    for (; t && t->type != TYPE_NONE; t++) if (t->type == TYPE_SUBCOMMAND) { w[n] = t->name; if (!t->action) listing(root, n + 1, w, t); select_all(root, t->sub_options, n + 1, w); }
}
static void trees(uint64_t idx, const void *arg)
{
    unsigned mode = (unsigned)(uintptr_t)arg; noise = mode & 1; samename = mode & 4; hid = mode & 2 ? (unsigned)(idx % 4) : 99; if (mode & 2) idx /= 4; hidf = FLAG_HIDDEN; if (mode & 2) { static const argus_optflags_t F[] = {FLAG_HIDDEN, FLAG_EXPERIMENTAL, FLAG_DEPRECATED, FLAG_ADVANCED}; hidf = F[idx % 4]; idx /= 4; } unsigned k[4], n = seq_decode(idx, 86, RL, k); NOTE("tree"); for (unsigned i = 0; i < n; i++) NOTE(" %u", k[i]); if (noise) NOTE(" with other entries"); if (hid < 99) NOTE(" command %u marked 0x%x", hid, hidf);
    np = 1; pnn = 0; hidn = 0; pool[0][0] = (argus_option_t)OPTION_FLAG('z', "zz", HELP("h")); pool[0][1] = (argus_option_t)OPTION_END();
    argus_option_t *root = pool[np++]; unsigned m = 0; root[m++] = (argus_option_t)OPTION_FLAG('a', "alpha", HELP("h")); if (noise) root[m++] = (argus_option_t)GROUP_START("grp"), root[m++] = (argus_option_t)OPTION_INT('n', "num", HELP("h")), root[m++] = (argus_option_t)GROUP_END();
    for (unsigned i = 0; i < n; i++) { argus_option_t *s = build2(k[i] / 2); put(root, &m, k[i] & 1, s); } root[m] = (argus_option_t)OPTION_END();
    listing(root, 0, NULL, NULL); const char *w[8]; select_all(root, root, 0, w);
}
/* long chains, long names, every column */
static void deep(uint64_t idx, const void *arg)
{
    (void)arg; int depth = (int)(idx % 8) + 1; idx /= 8; unsigned mask = (unsigned)(idx % 256); unsigned len = (unsigned)(idx / 256) ; static const unsigned LEN[] = {1, 30, 60, 255}; len = LEN[len]; if (mask >> depth) return; NOTE("chain of %d, actions 0x%x, names of %u characters", depth, mask, len);
    const char *w[9]; for (int i = 0; i < depth; i++) { memset(NM[i], 'a' + i, len); NM[i][len] = 0; w[i] = NM[i]; }
    argus_option_t *t = sub0; sub0[0] = (argus_option_t)OPTION_FLAG('q', "qq", HELP("h")); sub0[1] = (argus_option_t)OPTION_END(); for (int d = depth - 1; d >= 0; d--) { LV[d][0] = (argus_option_t)OPTION_FLAG('u', "upper", HELP("h")); LV[d][1] = (argus_option_t)SUBCOMMAND(NM[d], t, HELP("h")); if (mask >> d & 1) LV[d][1].action = act; LV[d][2] = (argus_option_t)OPTION_END(); t = LV[d]; }
    listing(t, 0, NULL, NULL); const char *v[9]; select_all(t, t, 0, v); (void)w;
}
static void columns(uint64_t idx, const void *arg)
{
    (void)arg; unsigned col = (unsigned)(idx % 61); idx /= 61; unsigned len = (unsigned)(idx % 300) + 1; unsigned which = (unsigned)(idx / 300); NOTE("column %u name of %u characters in place %u", col, len, which); static char b[400]; for (unsigned i = 0; i < len; i++) b[i] = (char)('a' + i % 26); b[len] = 0;
    sub0[0] = (argus_option_t)OPTION_FLAG('q', "qq", HELP("h")); sub0[1] = (argus_option_t)OPTION_END();
    argus_option_t s2[] = {OPTION_FLAG('u', "upper", HELP("h")), SUBCOMMAND(which == 2 ? b : "leaf", sub0, HELP("the leaf"), ACTION(act)), OPTION_END()}, s1[] = {SUBCOMMAND(which == 1 ? b : "mid", s2, HELP("the middle"), ACTION(act)), SUBCOMMAND("nolabel", sub0), OPTION_END()}, r[] = {SUBCOMMAND(which == 0 ? b : "top", s1, HELP("the top")), SUBCOMMAND("zother", s2, ACTION(act)), OPTION_END()};
    cfg_on = true; CFG = (argus_helper_config_t){.max_line_width = 80, .description_column = col, .option_indent = 2, .smart_hint_max_length = 20}; listing(r, 0, NULL, NULL); const char *v[9]; select_all(r, r, 0, v); cfg_on = false;
}
static argus_optflags_t mark(unsigned mk, unsigned i) { static const argus_optflags_t F[] = {FLAG_EXPERIMENTAL, FLAG_DEPRECATED, FLAG_ADVANCED, FLAG_HIDDEN}; return mk < 5 ? F[mk - 1] : F[i % 4]; }
/* n commands at the root, m below each; n positionals in the usage line */
static void wide(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 100) + 1; idx /= 100; unsigned m = (unsigned)(idx % 6); idx /= 6; unsigned pat = (unsigned)(idx % 6), mk = (unsigned)(idx / 6); NOTE("%u commands, %u below each, pattern %u, marks %u", n, m, pat, mk); static argus_option_t r[102], s[100][124]; static char a[100][12], b[100][120][12]; m = m < 4 ? m : m == 4 ? 9 : n <= 3 ? 120 : 40; if (n * m > 400) return;
    sub0[0] = (argus_option_t)OPTION_FLAG('q', "qq", HELP("h")); sub0[1] = (argus_option_t)OPTION_END();
    for (unsigned i = 0; i < n; i++) { for (unsigned j = 0; j < m; j++) { sprintf(b[i][j], "s%u-%u", i, j); s[i][j] = (argus_option_t)SUBCOMMAND(b[i][j], sub0, HELP("below")); if (pat == 0 || (i + j) % pat == 1) s[i][j].action = act; if (mk) s[i][j].flags = mark(mk, i + j); } s[i][m] = (argus_option_t)OPTION_END(); sprintf(a[i], "c%u", i); r[i] = (argus_option_t)SUBCOMMAND(a[i], s[i], HELP("above")); if (pat == 1 || (pat > 1 && i % pat == 0)) r[i].action = act; if (mk) r[i].flags = mark(mk, i + 1); }
    r[n] = (argus_option_t)OPTION_END(); listing(r, 0, NULL, NULL); const char *w[2]; for (unsigned i = 0; i < n; i++) if (!r[i].action && (i < 3 || i + 3 > n)) { w[0] = a[i]; listing(r, 1, w, &r[i]); }
}
static void usage_wide(uint64_t idx, const void *arg)
{
    (void)arg; int depth = (int)(idx % 9); idx /= 9; unsigned n = (unsigned)(idx % 40), req = (unsigned)(idx / 40 % 41), opts = (unsigned)(idx / 1640); if (req > n) return; NOTE("depth %d, %u positionals, %u required, %u options", depth, n, req, opts ? 60 : 0); static argus_option_t t[104]; static char p[40][8], o[60][8]; unsigned e = 0; for (unsigned i = 0; opts && i < 60; i++) { sprintf(o[i], "o%u", i); t[e++] = (argus_option_t)OPTION_FLAG(0, o[i], HELP("h")); }
    for (unsigned i = 0; i < n; i++) { sprintf(p[i], "p%u", i); t[e] = i == n - 1 && (n & 1) ? (argus_option_t)POSITIONAL_MANY_INT(p[i], HELP("h")) : (argus_option_t)POSITIONAL_STRING(p[i], HELP("h")); if (i >= req) t[e].flags &= (argus_optflags_t)~FLAG_REQUIRED; e++; } for (unsigned i = 0; i < req; i++) if (n && i == n - 1 && (n & 1)) t[e - 1].value_type = VALUE_TYPE_VARIADIC_STRING, t[e - 1].handler = variadic_string_handler; t[e] = (argus_option_t)OPTION_END(); usage_of(t, depth, CN);
}
void mc_register(int thorough)
{
    L = thorough ? 5 : 4; RL = thorough ? 3 : 2;
    mc_space("usage", seq_count(11, L) * 9, usages, NULL); mc_space("usage/same names", 9ull * 65536 * 4, usage_same, NULL); mc_space("usage/lengths", 200 * 9, usage_len, NULL);
    for (uintptr_t m = 0; m < 6; m++) mc_space(((const char *[]){"trees", "trees/noise", "trees/hidden", "trees/noise,hidden", "trees/same names", "trees/same names,noise"})[m], seq_count(86, m == 0 || thorough ? RL : 2) * (m & 2 ? 16 : 1), trees, (void *)m);
    mc_space("chains", 8 * 256 * 4, deep, NULL); mc_space("columns", 61 * 300 * 3, columns, NULL);
    mc_space("wide", 100 * 36 * 6, wide, NULL); mc_space("usage/wide", 9 * 40 * 41 * 2, usage_wide, NULL);
}
