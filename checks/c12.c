/* C12: command line beats environment beats default; override flips the first two. */
#include "model.h"
const char *mc_property = "C12";
const char *mc_bounds =
    "all 12 option types and two ordered collections x {no, one, two command-line occurrences out of 4 texts} x {variable unset, 6-9 texts incl. empty and malformed} x default x override x required x "
    "{explicit, automatic, prefixed} variable x {root, selected command, command selected by abbreviation, nested command, unselected command}; every letter case of the ten boolean spellings and one-character edits "
    "for flags and booleans; two options of two levels sharing names with every combination of sources; environment collections of 1..40 elements over command-line ones of 0..40 with and without override; positionals of seven types with 0..3 words, variable and default; chains of up to 8 commands with a variable of its own and a common one at every level; tables of 1..60 options, any one from its variable, any one given; the product also under six sets of presentation marks.  "
    "Outcome, set state and values equal the model's.";
typedef struct { const char *n; argus_option_t o; const char *cmd[4]; const char *env[9]; int has_def; argus_value_t def; } kind_t;
#define V ENV_VAR("VV")
static kind_t K[17]; static int NK;
static void add(const char *n, argus_option_t o, const char *c0, const char *c1, const char *c2, const char *c3, const char **env, int has_def, argus_value_t def)
{
    kind_t *k = &K[NK++]; *k = (kind_t){.n = n, .o = o, .cmd = {c0, c1, c2, c3}, .has_def = has_def, .def = def};
    for (int i = 0; i < 9 && env[i]; i++) k->env[i] = env[i];
}
static void init(void)
{
    static const char *ef[] = {"yes", "no", "1", "0", "TRUE", "oFF", "maybe", "", NULL}, *ei[] = {"7", "-9223372036854775808", "0", "7x", "", "9223372036854775808", NULL}, *ed[] = {"7.5", "-1e3", "0", "7.5x", "", "1e999", NULL};
    static const char *es[] = {"env", "", "--val", "a,b", " ", "\xff", NULL}, *eas[] = {"e", "e,f,g", "e,,f", "a", ",", NULL}, *eai[] = {"7", "5-8", "1,2,3,4,5,6,7,8,9", "x", "1,x", "2:1,1", NULL};
    static const char *eaf[] = {"7.5", "1,2", "x", "1,x", ".5,,2", NULL}, *ems[] = {"a=env", "k=1,a=2", "a", "a=1,b", "a=", NULL}, *emi[] = {"a=9", "k=1,a=2", "a=x", "a", "b=1,b=2", NULL}, *emf[] = {"a=9.5", "k=1,a=2", "a=x", "a", NULL}, *emb[] = {"a=no", "k=yes,a=off", "a=x", "a", NULL};
    argus_value_t z = {0};
    add("flag", (argus_option_t)OPTION_FLAG('v', "val", HELP("h"), V), "-v", "--val", "-v", "--val=1", ef, 0, z);
    add("bool", (argus_option_t)OPTION_BOOL('v', "val", HELP("h"), V), "--val=yes", "--val=no", "-v1", "--val=x", ef, 1, (argus_value_t){.as_bool = true});
    add("int", (argus_option_t)OPTION_INT('v', "val", HELP("h"), V), "--val=1", "-v-2", "--val=0", "--val=x", ei, 1, (argus_value_t){.as_int64 = 1234567890123});
    add("float", (argus_option_t)OPTION_FLOAT('v', "val", HELP("h"), V), "--val=1.5", "-v-2", "--val=0", "--val=x", ed, 1, (argus_value_t){.as_float = -0.125});
    add("string", (argus_option_t)OPTION_STRING('v', "val", HELP("h"), V), "--val=cmd", "-vx", "--val=", "-v--", es, 1, (argus_value_t){.as_string = "dflt"});
    add("array_string", (argus_option_t)OPTION_ARRAY_STRING('v', "val", HELP("h"), V), "--val=a", "-va,b,c", "--val=,", "-vx", eas, 0, z);
    add("array_int", (argus_option_t)OPTION_ARRAY_INT('v', "val", HELP("h"), V), "--val=1", "-v3-5,1", "--val=,", "-vx", eai, 0, z);
    add("array_float", (argus_option_t)OPTION_ARRAY_FLOAT('v', "val", HELP("h"), V), "--val=1.5", "-v3,1", "--val=,", "-vx", eaf, 0, z);
    add("map_string", (argus_option_t)OPTION_MAP_STRING('v', "val", HELP("h"), V), "--val=a=1", "-vb=2,c=3", "--val=a=", "-vx", ems, 0, z);
    add("map_int", (argus_option_t)OPTION_MAP_INT('v', "val", HELP("h"), V), "--val=a=1", "-vb=2,c=3", "--val=a=4", "-va=x", emi, 0, z);
    add("map_float", (argus_option_t)OPTION_MAP_FLOAT('v', "val", HELP("h"), V), "--val=a=1", "-vb=2,c=3.5", "--val=a=4", "-va=x", emf, 0, z);
    add("map_bool", (argus_option_t)OPTION_MAP_BOOL('v', "val", HELP("h"), V), "--val=a=1", "-vb=no,c=yes", "--val=a=0", "-va=x", emb, 0, z);
    add("array_sorted_unique", (argus_option_t)OPTION_ARRAY_INT('v', "val", HELP("h"), V, FLAGS(FLAG_SORTED | FLAG_UNIQUE)), "--val=5,1", "-v3-5,1", "--val=9", "-vx", eai, 0, z);
    add("map_unique_sorted", (argus_option_t)OPTION_MAP_INT('v', "val", HELP("h"), V, FLAGS(FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE)), "--val=a=1", "-vb=2,c=3", "--val=c=2,a=2", "-va=x", emi, 0, z);
}
#define ENVO (FLAG_ENV_OVERRIDE)
static argus_option_t o_end(void) { return OPTION_END(); }
static argus_option_t o_help(void) { return OPTION_FLAG('h', "help", HELP("h")); }
static void product(uint64_t idx, const void *arg)
{
    (void)arg;
    unsigned ki = (unsigned)(idx % 14); idx /= 14; unsigned c1 = (unsigned)(idx % 5); idx /= 5; unsigned c2 = (unsigned)(idx % 5); idx /= 5; unsigned ev = (unsigned)(idx % 10); idx /= 10; unsigned def = (unsigned)(idx % 2); idx /= 2; unsigned ov = (unsigned)(idx % 4); idx /= 4; unsigned nm = (unsigned)(idx % 4); idx /= 4; unsigned lev = (unsigned)idx;
    kind_t *k = &K[ki]; if (ev && !k->env[ev - 1]) return;
    if (def && !k->has_def) return;
    if (!c1 && c2) return;
    argus_option_t x = k->o, in[4], mid[4], top[4]; dcase_t c = {.tmpl = top}; char tn[80]; const char *var = "VV";
    if (ov & 1) x.flags |= ENVO; if (ov & 2) x.flags |= FLAG_REQUIRED;
    if (def) { x.have_default = x.is_set = true; x.value = x.default_value = k->def; }
    if (nm == 1) { x.env_name = NULL; x.flags |= FLAG_AUTO_ENV; var = "VAL"; }
    if (nm == 2) { c.env_prefix = "APP"; var = "APP_VV"; }
    if (nm == 3) { c.env_prefix = "APP"; x.env_name = NULL; x.flags |= FLAG_AUTO_ENV; var = "APP_VAL"; }
    in[0] = x; in[1] = o_help(); in[2] = o_end();
    if (lev == 0) c.tmpl = in;
    if (lev == 3) { mid[0] = o_help(); mid[1] = (argus_option_t)SUBCOMMAND("inner", in, HELP("h")); mid[2] = o_end(); }
    top[0] = o_help(); top[1] = (argus_option_t)SUBCOMMAND("sub", lev == 3 ? mid : in, HELP("h")); top[2] = o_end();
    if (lev == 1) c.argv[c.argc++] = "sub";
    if (lev == 2) c.argv[c.argc++] = "s";
    if (lev == 3) { c.argv[c.argc++] = "sub"; c.argv[c.argc++] = "inner"; }
    if (lev == 4 && c1) return;
    if (c1) c.argv[c.argc++] = k->cmd[c1 - 1];
    if (c2) c.argv[c.argc++] = k->cmd[c2 - 1];
    if (ev) { c.nenv = 1; c.ename[0] = var; c.evalue[0] = k->env[ev - 1]; }
    sprintf(tn, "%s default=%u override=%u naming=%u level=%u", k->n, def, ov, nm, lev);
    m_check(&c, tn);
}
static const char *SP[] = {"true", "yes", "1", "on", "y", "false", "no", "0", "off", "n"};
static void spell(uint64_t idx, const void *arg)
{
    (void)arg; static const char EDIT[] = "teyn01 xo."; unsigned cmd = (unsigned)(idx % 2); idx /= 2; unsigned ov = (unsigned)(idx % 2); idx /= 2; unsigned flag = (unsigned)(idx % 2); idx /= 2; unsigned edit = (unsigned)(idx % 130); idx /= 130; unsigned cs = (unsigned)(idx % 32); const char *s = SP[idx / 32];
    char t[16]; size_t n = strlen(s); if (cs >> n) return;
    for (size_t i = 0; i < n; i++) t[i] = (cs >> i & 1) ? (char)(s[i] >= 'a' ? s[i] - 32 : s[i]) : s[i];
    t[n] = 0;
    if (edit) {
        edit--; unsigned pos = edit % 6, kind = edit / 6;
        if (kind == 0) { if (pos >= n) return; memmove(t + pos, t + pos + 1, n - pos); }
        else if (kind <= 10) { if (pos > n) return; memmove(t + pos + 1, t + pos, n - pos + 1); t[pos] = EDIT[kind - 1]; }
        else { if (pos >= n) return; t[pos] = EDIT[(kind - 11) % 10]; }
    }
    if (m_bool(t, (int)strlen(t)) == -2) return;
    argus_option_t o[3] = {K[flag ? 0 : 1].o, o_help(), o_end()}; if (ov) o[0].flags |= ENVO;
    dcase_t c = {.tmpl = o, .nenv = 1}; c.ename[0] = "VV"; c.evalue[0] = t; if (cmd) c.argv[c.argc++] = flag ? "-v" : "--val=no";
    m_check(&c, flag ? "flag" : "bool");
}
/* two levels using the same option and variable names; third, unselected command with the same */
static void shared(uint64_t idx, const void *arg)
{
    (void)arg; unsigned t1 = (unsigned)(idx % 14); idx /= 14; unsigned t2 = (unsigned)(idx % 14); idx /= 14; unsigned c1 = (unsigned)(idx % 3); idx /= 3; unsigned c2 = (unsigned)(idx % 3); idx /= 3; unsigned ev = (unsigned)(idx % 4); idx /= 4; unsigned ov = (unsigned)(idx % 4); idx /= 4; unsigned d = (unsigned)(idx % 4); idx /= 4; unsigned sel = (unsigned)(idx % 3);
    static const char *E[] = {NULL, "1", "0", "a=1"}; argus_option_t s[4], s2[4], o[6]; dcase_t c = {.tmpl = o}; char tn[80]; int e = 0;
    argus_option_t a = K[t1].o, b = K[t2].o;
    if (ov & 1) a.flags |= ENVO; if (ov & 2) b.flags |= ENVO;
    if (d & 1) { if (!K[t1].has_def) return; a.have_default = a.is_set = true; a.value = a.default_value = K[t1].def; }
    if (d & 2) { if (!K[t2].has_def) return; b.have_default = b.is_set = true; b.value = b.default_value = K[t2].def; }
    s[0] = b; s[1] = o_help(); s[2] = o_end(); s2[0] = a; s2[0].sname = 'w'; s2[1] = o_help(); s2[2] = o_end();
    o[e++] = a; o[e++] = o_help(); o[e++] = (argus_option_t)SUBCOMMAND("sub", s, HELP("h")); o[e++] = (argus_option_t)SUBCOMMAND("two", s2, HELP("h")); o[e++] = o_end();
    if (c1) c.argv[c.argc++] = K[t1].cmd[c1 - 1];
    if (sel == 1) { c.argv[c.argc++] = "sub"; if (c2) c.argv[c.argc++] = K[t2].cmd[c2 - 1]; } else if (c2) return;
    if (sel == 2) c.argv[c.argc++] = "two";
    if (ev) { c.nenv = 1; c.ename[0] = "VV"; c.evalue[0] = E[ev]; }
    sprintf(tn, "shared %s/%s override=%u default=%u", K[t1].n, K[t2].n, ov, d);
    m_check(&c, tn);
}
static char b1[1 << 12], b2[1 << 12];
static void sizes(uint64_t idx, const void *arg)
{
    (void)arg; unsigned ki = 5 + (unsigned)(idx % 7); idx /= 7; unsigned ov = (unsigned)(idx % 2); idx /= 2; unsigned m = (unsigned)(idx % 41); unsigned n = 1 + (unsigned)(idx / 41);
    argus_option_t o[3] = {K[ki].o, o_help(), o_end()}; if (ov) o[0].flags |= ENVO; bool map = ki >= 8; dcase_t c = {.tmpl = o, .nenv = 1};
    size_t p = 0, q = 0; for (unsigned i = 0; i < m; i++) p += (size_t)sprintf(b1 + p, map ? "%sk%u=%u" : "%s%.0u%u", i ? "," : "", i, i & 1);
    for (unsigned i = 0; i < n; i++) q += (size_t)sprintf(b2 + q, map ? "%sk%u=%u" : "%s%.0u%u", i ? "," : "", i * 2, (i >> 1) & 1);
    c.ename[0] = "VV"; c.evalue[0] = b2; if (m) { c.argv[0] = "-v"; c.argv[1] = b1; c.argc = 2; }
    m_check(&c, K[ki].n);
}
/* positionals of every type: k words, variable, default; at the root, in a command and in a command that is not selected */
static void positional(uint64_t idx, const void *arg)
{
    (void)arg; unsigned kind = (unsigned)(idx % 7); idx /= 7; unsigned k = (unsigned)(idx % 4); idx /= 4; unsigned ev = (unsigned)(idx % 7); idx /= 7; bool def = idx & 1; idx /= 2; unsigned nm = (unsigned)(idx % 3); idx /= 3; unsigned lev = (unsigned)idx;
    static const char *W[] = {"1", "-2", "1"}, *E[] = {"5", "", "x", "3,4", "1-3", "7.5"}; argus_option_t p, t[5], top[5]; dcase_t c = {.tmpl = lev ? top : t, .env_prefix = nm == 2 ? "APP" : NULL}; char tn[60]; argus_value_t d = {0};
    switch (kind) { case 0: p = (argus_option_t)POSITIONAL_STRING("val", HELP("h"), OPTL); d.as_string = "dd"; break; case 1: p = (argus_option_t)POSITIONAL_INT("val", HELP("h"), OPTL); d.as_int64 = 77; break; case 2: p = (argus_option_t)POSITIONAL_FLOAT("val", HELP("h"), OPTL); d.as_float = 0.5; break; case 3: p = (argus_option_t)POSITIONAL_BOOL("val", HELP("h"), OPTL); d.as_bool = true; break;
        case 4: p = (argus_option_t)POSITIONAL_MANY_STRING("val", HELP("h"), OPTL); break; case 5: p = (argus_option_t)POSITIONAL_MANY_INT("val", HELP("h"), OPTL); break; default: p = (argus_option_t)POSITIONAL_MANY_FLOAT("val", HELP("h"), OPTL); }
    if (def) { if (kind >= 4) return; p.have_default = p.is_set = true; p.value = p.default_value = d; } if (nm == 1) p.flags |= FLAG_REQUIRED; if (nm == 1 && def) return; p.env_name = "VV";
    t[0] = o_help(); t[1] = p; t[2] = (argus_option_t)POSITIONAL_STRING("next", HELP("h"), OPTL); if (kind >= 4) t[2] = o_end(); t[3] = o_end(); top[0] = o_help(); top[1] = (argus_option_t)SUBCOMMAND("sub", t, HELP("h")); top[2] = o_end();
    if (lev == 1) c.argv[c.argc++] = "sub"; if (lev == 2 && k) return; for (unsigned i = 0; i < k; i++) c.argv[c.argc++] = W[i]; if (ev) { c.nenv = 1; c.ename[0] = nm == 2 ? "APP_VV" : "VV"; c.evalue[0] = E[ev - 1]; } sprintf(tn, "positional %u default=%d naming=%u level=%u", kind, def, nm, lev); m_check(&c, tn);
}
/* chains of up to 8 commands, an option with its own variable and one with a common variable at every level: which level is given, which variables are set, how far the words go */
static void deep(uint64_t idx, const void *arg)
{
    (void)arg; unsigned depth = (unsigned)(idx % 9); idx /= 9; unsigned at = (unsigned)(idx % 9); idx /= 9; unsigned given = (unsigned)(idx % 3); idx /= 3; unsigned vars = (unsigned)(idx % 6); idx /= 6; unsigned ov = (unsigned)(idx % 3); idx /= 3; unsigned ki = (unsigned)(idx % 4), last = (unsigned)(idx / 4);
    static argus_option_t t[9][8]; static char cn[9][8], ev[9][8]; static const unsigned KI[] = {4, 2, 5, 0}; static const char *VAL[] = {"e1", "41", "x,y", "no"}, *VAL2[] = {"e2", "42", "z", "yes"}; kind_t *k = &K[KI[ki]]; dcase_t c = {.tmpl = t[0]}; char tn[80];
    for (int i = 8; i >= 0; i--) { int n = 0; sprintf(ev[i], "DV%d", i); argus_option_t a = k->o, b = k->o; a.env_name = ev[i]; b.sname = 'w'; b.lname = b.name = "com"; if (ov == 1 || (ov == 2 && i == (int)at)) { a.flags |= ENVO; b.flags |= ENVO; } t[i][n++] = a; t[i][n++] = o_help(); t[i][n++] = b; if (i < 8) { sprintf(cn[i], "cmd%d", i); t[i][n++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h")); } t[i][n++] = o_end(); }
    for (unsigned i = 0; i <= depth; i++) { if (i) c.argv[c.argc++] = cn[i - 1]; if (given && i == at) c.argv[c.argc++] = k->cmd[0]; if (given == 2 && i == at) c.argv[c.argc++] = ki ? k->cmd[1] : "--val=again"; }
    if (vars & 1) { c.ename[c.nenv] = ev[at]; c.evalue[c.nenv++] = VAL[ki]; } if (vars & 2) { c.ename[c.nenv] = "VV"; c.evalue[c.nenv++] = VAL2[ki]; } if (vars >= 4) { c.nenv = 0; for (int i = 0; i < 9; i++) { c.ename[c.nenv] = ev[i]; c.evalue[c.nenv++] = (vars & 1) == (i == (int)at) ? VAL[ki] : VAL2[ki]; } }
    if (last) c.argv[c.argc++] = "-w"; if (last && ki) { if (ki != 3) c.argv[c.argc++] = "8"; } else if (last) c.argv[c.argc++] = "text"; sprintf(tn, "chain %s override=%u", k->n, ov); m_check(&c, tn);
}
/* tables of n options with a variable each */
static void wide(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 60) + 1; idx /= 60; unsigned i = (unsigned)(idx % 60), j = (unsigned)(idx / 60 % 60), ov = (unsigned)(idx / 3600 % 2), naming = (unsigned)(idx / 7200); if (i >= n || j >= n) return; static char nm[60][12], ev[60][16]; static argus_option_t t[64]; char w[20], tn[40]; dcase_t c = {.tmpl = t, .env_prefix = naming ? "P_" : NULL};
    for (unsigned k = 0; k < n; k++) { sprintf(nm[k], "o-%u", k); sprintf(ev[k], naming ? "P_O_%u" : "V%u", k); t[k] = (argus_option_t)OPTION_INT(0, nm[k], HELP("h")); if (naming) t[k].flags |= FLAG_AUTO_ENV; else t[k].env_name = ev[k]; if (ov) t[k].flags |= ENVO; } t[n] = o_help(); t[n + 1] = o_end();
    c.nenv = 1; c.ename[0] = ev[i]; c.evalue[0] = "12"; sprintf(w, "--o-%u=5", j); c.argv[c.argc++] = w; sprintf(tn, "%u options override=%u naming=%u", n, ov, naming); m_check(&c, tn);
}
void mc_register(int thorough)
{
    (void)thorough; init();
    d_space("product", 14ull * 5 * 5 * 10 * 2 * 4 * 4 * 5, product, NULL); d_space_dressed("product", 14ull * 5 * 5 * 10 * 2 * 4 * 4 * 5, product, NULL);
    d_space("spellings", 10ull * 32 * 130 * 8, spell, NULL);
    d_space("shared", 14ull * 14 * 9 * 4 * 4 * 4 * 3, shared, NULL);
    d_space("sizes", 7ull * 2 * 41 * 40, sizes, NULL); d_space("positionals", 7ull * 4 * 7 * 2 * 3 * 3, positional, NULL); d_space("deep", 9ull * 9 * 3 * 6 * 3 * 4 * 2, deep, NULL); d_space("wide", 60ull * 3600 * 4, wide, NULL);
}
