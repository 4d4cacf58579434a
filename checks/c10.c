/* C10: requirements, conflicts and exclusivity are enforced exactly. */
#include "model.h"
const char *mc_property = "C10";
const char *mc_bounds =
    "three options with every matrix of none/requires/conflicts between them (3^6), every required subset, five group layouts and every presence (absent, command line, environment, "
    "default only, default and command line, command line with exactly the default) of each; every kind of option and positional as partner of each relation in every presence mode; five flags with every placement of exclusive groups, plain groups and "
    "group ends and every provided subset; two required and two conflicting names per option; constraints at three nested levels with every selected depth, and at every level of chains of up to 8; tables of 5, 12, 20, 33 (66) options with one relation, one required mark or one exclusive group between every two; every number of required and optional positionals up to 40 with every number of words; several spaces also under six sets of presentation marks.  Success or the set of acceptable error codes comes from a direct evaluation of the stated rule.";
static argus_option_t o_flag(void) { return OPTION_FLAG('a', "a", HELP("h"), ENV_VAR("EA")); }
static argus_option_t o_int(void) { return OPTION_INT('b', "b", HELP("h"), ENV_VAR("EB")); }
static argus_option_t o_arr(void) { return OPTION_ARRAY_STRING('c', "c", HELP("h"), ENV_VAR("EC")); }
static argus_option_t o_str(void) { return OPTION_STRING('c', "c", HELP("h"), ENV_VAR("EC")); }
static argus_option_t o_help(void) { return OPTION_FLAG('h', "help", HELP("h")); }
static argus_option_t g_ex(void) { return GROUP_START("gx", FLAGS(FLAG_EXCLUSIVE)); }
static argus_option_t g_pl(void) { return GROUP_START("gp"); }
static argus_option_t g_end(void) { return GROUP_END(); }
static argus_option_t o_end(void) { return OPTION_END(); }
static const char *NAME[] = {"a", "b", "c"};
static int DEFMODES = 1;
/* relation digits: a->b a->c b->a b->c c->a c->b */
static void matrix(uint64_t idx, const void *arg)
{
    (void)arg; unsigned rel = (unsigned)(idx % 729); idx /= 729; unsigned req = (unsigned)(idx % 8); idx /= 8; unsigned lay = (unsigned)(idx % 5); idx /= 5;
    const char *lists[3][2][4] = {{{0}}}; int nl[3][2] = {{0}}; unsigned r = rel;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) { unsigned d = r % 3; r /= 3; if (d) lists[i][d - 1][nl[i][d - 1]++] = NAME[j]; }
    argus_option_t o[3] = {o_flag(), o_int(), o_arr()};
    o[2] = o_str();
    dcase_t c = {0}; unsigned p = (unsigned)idx; char tn[80];
    static const char *ON[] = {"-a", "-b5", "-cx"}, *EN[] = {"EA", "EB", "EC"}, *EV[] = {"yes", "6", "z"};
    for (int i = 0; i < 3; i++) {
        unsigned m = p % 6; p /= 6;
        if (m >= 3) { if (i == 0) return; o[i].have_default = o[i].is_set = true; o[i].value = o[i].default_value = i == 1 ? (argus_value_t){.as_int64 = 9} : (argus_value_t){.as_string = "dflt"}; }
        if (m == 1 || m == 4) c.argv[c.argc++] = ON[i]; if (m == 5) c.argv[c.argc++] = i == 1 ? "-b9" : "-cdflt";
        if (m == 2) { c.ename[c.nenv] = EN[i]; c.evalue[c.nenv++] = EV[i]; }
        if (nl[i][0]) o[i].require = lists[i][0];
        if (nl[i][1]) o[i].conflict = lists[i][1];
        if (req >> i & 1) o[i].flags |= FLAG_REQUIRED;
    }
    argus_option_t t[10]; int n = 0;
    if (lay == 1 || lay == 2) t[n++] = g_ex();
    if (lay == 3) t[n++] = g_pl();
    if (lay == 4) t[n++] = g_ex();
    t[n++] = o[0];
    if (lay == 4) t[n++] = g_ex();
    t[n++] = o[1];
    if (lay == 2) t[n++] = g_end();
    t[n++] = o[2];
    if (lay) t[n++] = g_end();
    t[n++] = o_help(); t[n++] = o_end();
    c.tmpl = t; sprintf(tn, "matrix rel=%u required=%u layout=%u", rel, req, lay);
    m_check(&c, tn);
}
/* partner kinds: relation from flag a to the partner, or required / exclusive on the partner itself */
static void kinds(uint64_t idx, const void *arg)
{
    (void)arg; unsigned a = (unsigned)(idx % 3); idx /= 3; unsigned m = (unsigned)(idx % 9); idx /= 9; unsigned rel = (unsigned)(idx % 5); idx /= 5; unsigned dir = (unsigned)(idx % 2); idx /= 2;
    unsigned kind = (unsigned)idx; argus_option_t p;
    const char *cmd, *env, *bad = NULL; argus_value_t dv = {0};
    switch (kind) {
        case 0: p = (argus_option_t)OPTION_FLAG('p', "p", HELP("h"), ENV_VAR("EP")); cmd = "-p"; env = "yes"; bad = "no"; break;
        case 1: p = (argus_option_t)OPTION_BOOL('p', "p", HELP("h"), ENV_VAR("EP")); cmd = "-pno"; env = "no"; dv.as_bool = true; break;
        case 2: p = (argus_option_t)OPTION_INT('p', "p", HELP("h"), ENV_VAR("EP")); cmd = "-p0"; env = "0"; dv.as_int64 = 3; break;
        case 3: p = (argus_option_t)OPTION_FLOAT('p', "p", HELP("h"), ENV_VAR("EP")); cmd = "-p0"; env = "0.0"; dv.as_float = 1.5; break;
        case 4: p = (argus_option_t)OPTION_STRING('p', "p", HELP("h"), ENV_VAR("EP")); cmd = "--p="; env = ""; dv.as_string = ""; break;
        case 5: p = (argus_option_t)OPTION_ARRAY_INT('p', "p", HELP("h"), ENV_VAR("EP")); cmd = "-p1,2"; env = "3-5"; break;
        case 6: p = (argus_option_t)OPTION_MAP_INT('p', "p", HELP("h"), ENV_VAR("EP")); cmd = "-pk=1"; env = "j=2"; break;
        case 7: p = (argus_option_t)POSITIONAL_STRING("p", HELP("h"), OPTL); cmd = "word"; env = "e"; p.env_name = "EP"; dv.as_string = "d"; break;
        case 8: p = (argus_option_t)POSITIONAL_INT("p", HELP("h"), OPTL); cmd = "0"; env = "17"; p.env_name = "EP"; dv.as_int64 = 4; break;
        case 9: p = (argus_option_t)POSITIONAL_MANY_STRING("p", HELP("h"), OPTL); cmd = "w"; env = "x,y"; p.env_name = "EP"; break;
        case 10: p = (argus_option_t)POSITIONAL_MANY_INT("p", HELP("h"), OPTL); cmd = "-1"; env = "3-4"; p.env_name = "EP"; break;
        case 11: p = (argus_option_t)OPTION_STRING('p', NULL, HELP("h"), ENV_VAR("EP")); p.name = "p"; cmd = "-px"; env = "a"; dv.as_string = "q"; break;
        default: p = (argus_option_t)OPTION_FLOAT(0, "p", HELP("h"), ENV_VAR("EP")); cmd = "--p=2"; env = "1e3"; dv.as_float = 0; break;
    }
    argus_option_t f = o_flag(), t[10]; dcase_t c = {.tmpl = t}; int n = 0; char tn[60];
    static const char *P[] = {"p", NULL}, *A[] = {"a", NULL};
    bool pos = p.type == TYPE_POSITIONAL;
    if (pos && dir && (rel == 1 || rel == 2)) return;      /* positionals carry no dependencies */
    if (rel == 1) { if (dir) p.require = A; else f.require = P; }
    if (rel == 2) { if (dir) p.conflict = A; else f.conflict = P; }
    if (rel == 3) { p.flags |= FLAG_REQUIRED; }
    static const char *EQ[] = {NULL, "-pyes", "-p3", "-p1.5", "--p=", NULL, NULL, "d", "4", NULL, NULL, "-pq", "--p=0"};
    if (m == 8) { if (!EQ[kind]) return; c.argc = 0; cmd = EQ[kind]; }
    if (m == 3 || m == 4 || m == 8) { if (kind == 0 || kind == 5 || kind == 6 || (kind >= 9 && kind < 11)) return; p.have_default = p.is_set = true; p.value = p.default_value = dv; }
    if (rel == 4) t[n++] = g_ex();
    if (dir) { t[n++] = f; t[n++] = p; } else { t[n++] = p; t[n++] = f; }
    if (rel == 4) t[n++] = g_end();
    t[n++] = o_help(); t[n++] = o_end();
    if (a == 1) c.argv[c.argc++] = "-a";
    if (a == 2) { c.ename[c.nenv] = "EA"; c.evalue[c.nenv++] = "1"; }
    if (m == 1 || m == 4 || m == 5 || m == 7 || m == 8) c.argv[c.argc++] = cmd; if (m == 7) { if (pos && kind < 9) return; c.argv[c.argc++] = cmd; }
    if (m == 2 || m == 5) { if (!env) return; c.ename[c.nenv] = "EP"; c.evalue[c.nenv++] = env; }
    if (m == 6) { if (!bad) return; c.ename[c.nenv] = "EP"; c.evalue[c.nenv++] = bad; }
    sprintf(tn, "kind=%u rel=%u dir=%u default=%d", kind, rel, dir, m == 3 || m == 4);
    m_check(&c, tn);
}
static void groups(uint64_t idx, const void *arg)
{
    (void)arg; unsigned sub = (unsigned)(idx % 32); idx /= 32; unsigned src = (unsigned)(idx % 3); idx /= 3; unsigned lay = (unsigned)idx; char tn[60];
    argus_option_t t[24]; int n = 0; static const char *W[] = {"-a", "-b", "-c", "-d", "-e"}, *E[] = {"GA", "GB", "GC", "GD", "GE"}, *L[] = {"a", "b", "c", "d", "e"}; unsigned l = lay;
    dcase_t c = {.tmpl = t};
    for (int i = 0; i < 5; i++) {
        unsigned g = l % 4; l /= 4;
        if (g) t[n++] = g == 1 ? g_ex() : g == 2 ? g_pl() : g_end();
        t[n++] = (argus_option_t)OPTION_FLAG('a' + i, L[i], HELP("h"), ENV_VAR((char *)E[i]));
        if (sub >> i & 1) { if (src == 0 || (src == 2 && i % 2)) c.argv[c.argc++] = W[i]; else { c.ename[c.nenv] = E[i]; c.evalue[c.nenv++] = "on"; } }
    }
    t[n++] = o_help(); t[n++] = o_end();
    sprintf(tn, "groups layout=%u", lay);
    m_check(&c, tn);
}
/* lists of several names */
static void lists(uint64_t idx, const void *arg)
{
    (void)arg; unsigned sub = (unsigned)(idx % 32); idx /= 32; unsigned rq = (unsigned)(idx % 16); idx /= 16; unsigned cf = (unsigned)(idx % 16); unsigned at = (unsigned)(idx / 16);
    if (rq & cf) return;
    static const char *L[] = {"a", "b", "c", "d", "e"}, *W[] = {"-a", "-b", "-c", "-d", "-e"}; char tn[60];
    const char *R[6] = {0}, *C[6] = {0}; int nr = 0, nc = 0, k = 0;
    for (unsigned i = 0; i < 5; i++) if (i != at) { if (rq >> k & 1) R[nr++] = L[i]; if (cf >> k & 1) C[nc++] = L[i]; k++; }
    argus_option_t t[10]; int n = 0; dcase_t c = {.tmpl = t};
    for (unsigned i = 0; i < 5; i++) {
        t[n] = (argus_option_t)OPTION_FLAG('a' + i, L[i], HELP("h"));
        if (i == at) { if (nr) t[n].require = R; if (nc) t[n].conflict = C; }
        n++;
        if (sub >> i & 1) c.argv[c.argc++] = W[i];
    }
    t[n++] = o_help(); t[n++] = o_end();
    sprintf(tn, "lists at=%u requires=%u conflicts=%u", at, rq, cf);
    m_check(&c, tn);
}
/* three levels, the same rule alphabet at each; only selected levels count */
static void levels(uint64_t idx, const void *arg)
{
    (void)arg; unsigned depth = (unsigned)(idx % 3); idx /= 3; unsigned rule[3], pres[3]; char tn[80];
    for (int i = 0; i < 3; i++) { rule[i] = (unsigned)(idx % 6); idx /= 6; }
    for (int i = 0; i < 3; i++) { pres[i] = (unsigned)(idx % 9); idx /= 9; if (i > (int)depth && pres[i] % 3 == 1) return; if (i > (int)depth && pres[i] / 3 == 1) return; }
    static const char *A[] = {"a", NULL}, *B[] = {"b", NULL}, *EA[] = {"LA0", "LA1", "LA2"}, *EB[] = {"LB0", "LB1", "LB2"};
    argus_option_t t[3][10]; dcase_t c = {.tmpl = t[0]};
    for (int i = 2; i >= 0; i--) {
        int n = 0; argus_option_t a = OPTION_FLAG('a', "a", HELP("h"), ENV_VAR((char *)EA[i])), b = OPTION_INT('b', "b", HELP("h"), ENV_VAR((char *)EB[i]));
        if (rule[i] == 1) a.flags |= FLAG_REQUIRED;
        if (rule[i] == 2) a.require = B;
        if (rule[i] == 3) b.conflict = A;
        if (rule[i] == 5) b.require = A;
        if (rule[i] == 4) t[i][n++] = g_ex();
        t[i][n++] = a; t[i][n++] = b;
        if (rule[i] == 4) t[i][n++] = g_end();
        t[i][n++] = o_help();
        if (i < 2) { t[i][n++] = (argus_option_t)SUBCOMMAND("cmd", t[i + 1], HELP("h")); t[i][n++] = (argus_option_t)SUBCOMMAND("other", t[2], HELP("h")); if (i == 1) n--; }
        t[i][n++] = o_end();
    }
    for (int i = 0; i < 3; i++) {
        if (i <= (int)depth) { if (i) c.argv[c.argc++] = "cmd"; if (pres[i] % 3 == 1) c.argv[c.argc++] = "-a"; if (pres[i] / 3 == 1) c.argv[c.argc++] = "-b7"; }
        if (pres[i] % 3 == 2) { c.ename[c.nenv] = EA[i]; c.evalue[c.nenv++] = "true"; }
        if (pres[i] / 3 == 2) { c.ename[c.nenv] = EB[i]; c.evalue[c.nenv++] = "8"; }
    }
    sprintf(tn, "levels rules=%u,%u,%u", rule[0], rule[1], rule[2]);
    m_check(&c, tn);
}
/* tables of n options: one relation (or a required mark, or one exclusive group over all) between any two of them, each given or not, everything else given or not */
static void wide(uint64_t idx, const void *arg)
{
    int n = (int)(intptr_t)arg; int i = (int)(idx % (unsigned)n); idx /= (unsigned)n; int j = (int)(idx % (unsigned)n); idx /= (unsigned)n; unsigned rel = (unsigned)(idx % 6), rest = (unsigned)(idx / 6 % 2), gi = (unsigned)(idx / 12 % 2), gj = (unsigned)(idx / 24); if (i == j) return;
    static char nm[100][12], w[100][16]; static argus_option_t t[110]; const char *R[2] = {0}; static const char *ALL[101]; dcase_t c = {.tmpl = t}; char tn[60]; int m = 0, na = 0; if (rel == 3) t[m++] = g_ex();
    for (int k = 0; k < n; k++) { sprintf(nm[k], "o%d", k); sprintf(w[k], "--o%d", k); t[m] = (argus_option_t)OPTION_FLAG(0, nm[k], HELP("h")); if (rel == 2 && k == i) t[m].flags |= FLAG_REQUIRED; if (k == i) { if (rel == 0) t[m].require = R; if (rel == 1) t[m].conflict = R; if (rel == 4) t[m].require = ALL; if (rel == 5) t[m].conflict = ALL; } else ALL[na++] = nm[k]; m++;
        if (k == i ? gi : k == j ? gj : rest && rel != 3 && rel != 5) c.argv[c.argc++] = w[k]; }
    R[0] = nm[j]; ALL[na] = NULL; if (rel == 3) t[m++] = g_end(); t[m++] = o_help(); t[m++] = o_end(); sprintf(tn, "%d options, o%d %s o%d rest=%u", n, i, (const char *[]){"requires", "conflicts with", "required,", "excludes all with", "requires all,", "conflicts with all,"}[rel], j, rest); m_check(&c, tn);
}
/* n required or optional positionals, k words */
static void positionals(uint64_t idx, const void *arg)
{
    (void)arg; int n = (int)(idx % 40) + 1, req = (int)(idx / 40 % 41), k = (int)(idx / 1640 % 42), many = (int)(idx / 68880); if (req > n || k > n + 1) return; static char nm[40][8]; static argus_option_t t[44]; dcase_t c = {.tmpl = t}; char tn[60];
    for (int i = 0; i < n; i++) { sprintf(nm[i], "p%d", i); t[i] = many && i == n - 1 ? (argus_option_t)POSITIONAL_MANY_STRING(nm[i], HELP("h")) : (argus_option_t)POSITIONAL_STRING(nm[i], HELP("h")); if (i >= req) t[i].flags &= (argus_optflags_t)~FLAG_REQUIRED; else t[i].flags |= FLAG_REQUIRED; }
    t[n] = o_help(); t[n + 1] = o_end(); for (int i = 0; i < k; i++) c.argv[c.argc++] = "w"; sprintf(tn, "%d positionals, %d required%s", n, req, many ? ", last takes many" : ""); m_check(&c, tn);
}
/* chains of up to 8 commands: a rule at one level, satisfied or not, and the same rule at a level beyond the selected one or in a sibling */
static void deep(uint64_t idx, const void *arg)
{
    (void)arg; int depth = (int)(idx % 9); idx /= 9; int at = (int)(idx % 9); idx /= 9; unsigned rule = (unsigned)(idx % 7); idx /= 7; unsigned given = (unsigned)(idx % 9); idx /= 9; int other = (int)idx; /* 0 none, 1 all other levels have it too */ char tn[60];
    if (rule == 6 && (at < 8 || other)) return; /* no required positional next to commands */
    static argus_option_t t[9][14]; static char cn[9][8], ea[9][8], eb[9][8]; static const char *A[] = {"a", NULL}, *B[] = {"b", NULL}; dcase_t c = {.tmpl = t[0]};
    for (int i = 8; i >= 0; i--) {
        int n = 0; unsigned r = i == at || other ? rule : 0; sprintf(ea[i], "DA%d", i); sprintf(eb[i], "DB%d", i); argus_option_t a = OPTION_FLAG('a', "a", HELP("h"), ENV_VAR(ea[i])), b = OPTION_INT('b', "b", HELP("h"), ENV_VAR(eb[i]));
        if (r == 1) a.flags |= FLAG_REQUIRED; if (r == 2) a.require = B; if (r == 3) b.conflict = A; if (r == 5) b.require = A; if (r == 4) t[i][n++] = g_ex(); t[i][n++] = a; t[i][n++] = b; if (r == 4) t[i][n++] = g_end(); t[i][n++] = o_help(); if (r == 6) t[i][n++] = (argus_option_t)POSITIONAL_STRING("p", HELP("h"));
        if (i < 8) { sprintf(cn[i], "cmd%d", i); t[i][n++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h")); } t[i][n++] = o_end();
    }
    for (int i = 0; i <= depth; i++) { if (i) c.argv[c.argc++] = cn[i - 1]; if (i == at) { if (given % 3 == 1) c.argv[c.argc++] = "-a"; if (given / 3 == 1) c.argv[c.argc++] = "-b7"; } }
    if (given % 3 == 2) { c.ename[c.nenv] = ea[at]; c.evalue[c.nenv++] = "on"; } if (given / 3 == 2) { c.ename[c.nenv] = eb[at]; c.evalue[c.nenv++] = "9"; } sprintf(tn, "chain, rule %u at level %d%s", rule, at, other ? " and all others" : ""); m_check(&c, tn);
}
void mc_register(int thorough)
{
    (void)thorough; (void)DEFMODES; (void)o_arr;
    d_space("matrix", 729ull * 8 * 5 * 216, matrix, NULL);
    d_space("kinds", 13ull * 2 * 5 * 9 * 3, kinds, NULL);
    d_space("groups", 1024ull * 3 * 32, groups, NULL); d_space_dressed("kinds", 13ull * 2 * 5 * 9 * 3, kinds, NULL); d_space_dressed("groups", 1024ull * 3 * 32, groups, NULL); d_space_dressed("lists", 5ull * 16 * 16 * 32, lists, NULL);
    d_space("lists", 5ull * 16 * 16 * 32, lists, NULL);
    d_space("levels", 3ull * 216 * 729, levels, NULL); d_space_dressed("levels", 3ull * 216 * 729, levels, NULL); d_space("deep", 9ull * 9 * 7 * 9 * 2, deep, NULL); d_space("positionals", 40ull * 41 * 42 * 2, positionals, NULL);
    static const int W[] = {5, 12, 20, 33, 66}; for (int k = 0; k < (thorough ? 5 : 4); k++) d_space(((const char *[]){"wide/5", "wide/12", "wide/20", "wide/33", "wide/66"})[k], (uint64_t)(W[k] * W[k]) * 48, wide, (void *)(intptr_t)W[k]);
}
