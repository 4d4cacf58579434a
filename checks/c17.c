/* C17: help and version stop the program successfully, and only they do. */
#include "model.h"
const char *mc_property = "C17";
const char *mc_bounds =
    "every sequence of up to 4 (5) words out of 19-21 over three command trees (three nested levels, exit options per level, required options and positionals, exclusive groups, conflicts, refusing validators, exit options that take values or come from the environment); "
    "every cluster of up to 5 (6) short options in every command chain; every abbreviation and spelling of the exit options alone and between other words; an exit option at any place (quick: a third of them beyond 10) of a table of up to 40 options, after 0..300 other words, before failing ones, in chains of 0..8 commands; version texts with program names, versions and descriptions of every length up to 600.  "
    "Outcome, exit status and the trace of handlers that ran come from the reference model; the text on standard output must be exactly the help or version of the active command, whose first line must name the whole chain and which must show every entry of that level and none of another level.";
static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
static int h_help(argus_t *a, argus_option_t *o, char *v) { d_trace_add(o->name, v); return help_handler(a, o, v); }
static int h_version(argus_t *a, argus_option_t *o, char *v) { d_trace_add(o->name, v); return version_handler(a, o, v); }
static int h_list(argus_t *a, argus_option_t *o, char *v) { d_trace_add(o->name, v); printf("LIST of %s\n", o->name); (void)argus_get(a, "no-such-option"); return flag_handler(a, o, v); }
static int h_show(argus_t *a, argus_option_t *o, char *v) { int r = d_log_string(a, o, v); printf("SHOW %s\n", v); (void)argus_array_get(a, "no.such", 3); return r; }
#define HLP OPTION_FLAG('h', "help", HELP("[help]"), HANDLER(h_help), FLAGS(FLAG_EXIT))
#define EX FLAGS(FLAG_EXIT)
ARGUS_OPTIONS(A2, HLP, OPTION_STRING('s', "str", HELP("[A2-str]"), LOGS), OPTION_FLAG('d', "dump", HELP("[A2-dump]"), HANDLER(h_list), EX), POSITIONAL_INT("num", HELP("[A2-num]"), LOGI), )
ARGUS_OPTIONS(A1, HLP, OPTION_FLAG('a', "all", HELP("[A1-all]"), LOGF), OPTION_STRING('s', "str", HELP("[A1-str]"), LOGS, FLAGS(FLAG_REQUIRED)), SUBCOMMAND("deep", A2, HELP("[A1-deep]"), ACTION(act)), SUBCOMMAND("delta", A2, HELP("[A1-delta]"), ACTION(act)), )
ARGUS_OPTIONS(A0, HLP, OPTION_FLAG('V', "version", HELP("[A0-version]"), HANDLER(h_version), EX), OPTION_FLAG('a', "all", HELP("[A0-all]"), LOGF), OPTION_INT('n', "num", HELP("[A0-num]"), LOGI, VALIDATOR(V_RANGE(0, 9)), FLAGS(FLAG_REQUIRED)), OPTION_ARRAY_STRING('l', "ls", HELP("[A0-ls]"), LOGAS, CONFLICT("all")), SUBCOMMAND("sub", A1, HELP("[A0-sub]")), SUBCOMMAND("sux", A2, HELP("[A0-sux]"), ACTION(act)), )
ARGUS_OPTIONS(B0, HLP, OPTION_FLAG('V', "version", HELP("[B0-version]"), HANDLER(h_version), EX), OPTION_FLAG('a', "all", HELP("[B0-all]"), LOGF), OPTION_FLAG('L', "list", HELP("[B0-list]"), HANDLER(h_list), EX, ENV_VAR("LIST")), OPTION_STRING('S', "show", HELP("[B0-show]"), HANDLER(h_show), EX, ENV_VAR("SHOW")),
    GROUP_START("gx", FLAGS(FLAG_EXCLUSIVE)), OPTION_STRING('s', "str", HELP("[B0-str]"), LOGS, ENV_VAR("STR")), OPTION_INT('n', "num", HELP("[B0-num]"), LOGI, ENV_VAR("NUM")), GROUP_END(), POSITIONAL_INT("pi", HELP("[B0-pi]"), LOGI), POSITIONAL_MANY_STRING("rest", HELP("[B0-rest]"), LOGVS, OPTL), )
ARGUS_OPTIONS(C1, HELP_OPTION(), OPTION_FLAG('x', "xx", HELP("[C1-xx]")), SUBCOMMAND("sub", A2, HELP("[C1-sub]"), ACTION(act)), )
ARGUS_OPTIONS(C0, HELP_OPTION(), VERSION_OPTION(), OPTION_FLAG('a', "all", HELP("[C0-all]")), OPTION_MAP_INT('m', "map", HELP("[C0-map]"), FLAGS(FLAG_REQUIRED)), SUBCOMMAND("sub", C1, HELP("[C0-sub]"), ACTION(act)), SUBCOMMAND("sub2", C1, HELP("[C0-sub2]"), ACTION(act)), )
ARGUS_OPTIONS(D2, HLP, OPTION_FLAG('l', "list2", HELP("[D2-list]"), HANDLER(h_list), EX, ENV_VAR("LIST2")), OPTION_INT('n', "num", HELP("[D2-num]"), LOGI, ENV_VAR("NUM")), )
ARGUS_OPTIONS(D1, HLP, OPTION_FLAG('L', "list", HELP("[D1-list]"), HANDLER(h_list), EX, ENV_VAR("LIST")), OPTION_STRING('S', "show", HELP("[D1-show]"), HANDLER(h_show), EX, ENV_VAR("SHOW")), OPTION_STRING('s', "str", HELP("[D1-str]"), LOGS, FLAGS(FLAG_REQUIRED)), SUBCOMMAND("deep", D2, HELP("[D1-deep]"), ACTION(act)), )
ARGUS_OPTIONS(D0, HLP, OPTION_INT('n', "num", HELP("[D0-num]"), LOGI, VALIDATOR(V_RANGE(0, 9))), SUBCOMMAND("sub", D1, HELP("[D0-sub]"), ACTION(act)), SUBCOMMAND("dub", D2, HELP("[D0-dub]"), ACTION(act)), )
static const argus_option_t *T[] = {A0, B0, C0, D0};
static const char *WA[] = {"-h", "--help", "-V", "--version", "-a", "-n5", "-n", "-n50", "-lx,y", "sub", "su", "sux", "deep", "del", "-sx", "--str", "-d", "3", "--", "--nope", "-ah"};
static const char *WB[] = {"-h", "--help", "-V", "-L", "--list", "-Sx", "--show=y", "-S", "-a", "-aLh", "-aV", "-sx", "-n5", "-nx", "7", "q", "--", "--help=1", "--hel", "-q"};
static const char *WC[] = {"-h", "--help", "-V", "--version", "-a", "-ah", "-Va", "-ma=1", "-ma", "-m", "sub", "sub2", "su", "-x", "-xh", "5", "-d", "--", "--dump", "help"};
static const struct { const char **w; unsigned n; } WS[] = {{WA, 21}, {WB, 20}, {WC, 20}};
static mres_t M; static unsigned L, CL;

/* ---- expected texts */
static const char *kind_of(const argus_option_t *o)
{
    if (!strcmp(o->name, "help")) return "help";
    if (!strcmp(o->name, "version")) return "version";
    return "other";
}
/* structural check of the help of a level: own entries shown once, no entry of other levels, full chain in the first line */
static const argus_option_t *ALL[] = {A0, A1, A2, B0, C0, C1, D0, D1, D2};
static unsigned occurrences(const char *t, const char *s) { unsigned n = 0; for (const char *p = t; (p = strstr(p, s)); p += strlen(s)) n++; return n; }
static void check_help(const char *out, const mres_t *m)
{
    const argus_option_t *tbl = m->lev[m->depth].tbl; char first[200] = "Usage: prog";
    for (int i = 1; i <= m->depth; i++) { strcat(first, " "); strcat(first, m->lev[i].cmd->name); }
    strcat(first, " [OPTIONS]");
    if (strncmp(out, first, strlen(first))) mc_fail("help begins '%.80s', expected '%s...'", out, first);
    for (unsigned a = 0; a < sizeof ALL / sizeof *ALL; a++) for (const argus_option_t *o = ALL[a]; o->type != TYPE_NONE; o++) if (o->help && *o->help == '[' && strcmp(o->help, "[help]")) {
        unsigned n = occurrences(out, o->help), want = ALL[a] == tbl;
        if (n != want) mc_fail("help of '%s' shows the entry %s %u times, expected %u", first, o->help, n, want);
    }
    if (!strstr(out, "--help")) mc_fail("help does not show --help");
}
/* the reference help of a chain: what plain "<chain> --help" prints, itself checked structurally */
static char canon[4][80][1 << 13];
static const char *canonical(const dcase_t *c, const mres_t *m, int ti)
{
    unsigned id = 0; for (int i = 1; i <= m->depth; i++) id = id * 8 + 1 + (unsigned)(m->lev[i].cmd->name[strlen(m->lev[i].cmd->name) - 1] % 7);
    char *t = canon[ti][id]; if (*t) return t;
    drun_t r; dcase_t cc = {.tmpl = c->tmpl}; for (int i = 1; i <= m->depth; i++) cc.argv[cc.argc++] = m->lev[i].cmd->name;
    cc.argv[cc.argc++] = "--help"; int tr = d_trace_on; d_trace_on = 0; d_begin(&r, &cc); d_parse(&r); if (!r.exited) mc_fail("'<chain> --help' does not end the program");
    d_trace_on = tr; snprintf(t, sizeof canon[0][0], "%s", cap_out(NULL)); check_help(t, m); d_end(&r);
    return t;
}
static char expect[1 << 14];
static void check(const dcase_t *c, const char *tn, int ti)
{
    d_note_case(c, tn); d_trace_on = ti != 2; m_parse(c, &M);
    drun_t r; d_begin(&r, c); d_parse(&r); uint64_t h = m_compare(&r, &M);
    if (M.kind == M_EXIT) {
        /* which exit option was reached: the last one given in the model */
        const mopt_t *x = NULL; bool env = true; for (int l = 0; l <= M.depth; l++) for (int k = 0; k < M.lev[l].n; k++) { mopt_t *o = &M.lev[l].o[k]; if ((o->t->type == TYPE_OPTION || o->t->type == TYPE_POSITIONAL) && o->set && (o->t->flags & FLAG_EXIT)) { if (x) mc_fail("harness: two exit options"); x = o; env = o->from_env; } }
        (void)env; if (!x) mc_fail("harness: no exit option");
        size_t n; char *out = cap_out(&n); const char *k = kind_of(x->t);
        if (!strcmp(k, "help")) { check_help(out, &M); snprintf(expect, sizeof expect, "%s", out); const char *want = canonical(c, &M, ti); if (strcmp(expect, want)) mc_fail("help text differs from the help of the command:\n%s\n--- expected\n%s", expect, want); }
        else {
            if (!strcmp(k, "version")) snprintf(expect, sizeof expect, "prog v1.0\n"); else if (x->t->value_type == VALUE_TYPE_STRING) snprintf(expect, sizeof expect, "SHOW %.*s\n", x->v.n, x->v.s); else snprintf(expect, sizeof expect, "LIST of %s\n", x->t->name);
            if (strcmp(out, expect)) mc_fail("standard output is '%.200s', expected '%s'", out, expect);
        }
        cap_err(&n); if (n) mc_fail("an exit option wrote to standard error");
    } else d_free(&r);
    d_trace_on = 0; mc_state(mc_mixs(h, tn)); mc_trans((uint64_t)c->argc + 1); mc_exec(1); d_end(&r);
}
static void words(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; unsigned k[8], n = seq_decode(idx, WS[t].n, L, k);
    dcase_t c = {.tmpl = T[t], .argc = (int)n}; for (unsigned i = 0; i < n; i++) c.argv[i] = WS[t].w[k[i]];
    check(&c, t == 0 ? "A0" : t == 1 ? "B0" : "C0", t);
}
static void clusters(uint64_t idx, const void *arg)
{
    (void)arg; static const struct { int t; const char *pre[3]; } CH[] = {{0, {0}}, {0, {"sub"}}, {0, {"sub", "deep"}}, {0, {"sux"}}, {1, {0}}, {1, {"7"}}, {2, {"sub2"}}, {2, {"sub", "sub"}}};
    unsigned ch = (unsigned)(idx % 8); idx /= 8; unsigned post = (unsigned)(idx % 3); idx /= 3; unsigned k[8], n = seq_decode(idx, 8, CL, k); if (!n) return;
    char w[16] = "-"; for (unsigned i = 0; i < n; i++) w[i + 1] = "haVLSsnx"[k[i]];
    w[n + 1] = 0; dcase_t c = {.tmpl = T[CH[ch].t]}; for (int i = 0; i < 3 && CH[ch].pre[i]; i++) c.argv[c.argc++] = CH[ch].pre[i];
    c.argv[c.argc++] = w; if (post == 1) c.argv[c.argc++] = "3"; if (post == 2) { c.argv[c.argc++] = "--nope"; }
    check(&c, "cluster", CH[ch].t);
}
static void envs(uint64_t idx, const void *arg)
{
    (void)arg; static const char *EV[][6] = {{NULL, "yes", "no", "", "0", "bad"}, {NULL, "v", "", "-x", "a b", "--help"}, {NULL, "x", "", 0, 0, 0}, {NULL, "5", "x", 0, 0, 0}}; static const char *EN[] = {"LIST", "SHOW", "STR", "NUM"};
    static const char *W[] = {"7", "-h", "-L", "-Sx", "-V", "-sx", "-n5", "--nope", "-a", "x"};
    unsigned v[4] = {(unsigned)(idx % 6), (unsigned)(idx / 6 % 6), (unsigned)(idx / 36 % 3), (unsigned)(idx / 108 % 3)}; idx /= 324; unsigned k[8], n = seq_decode(idx, 10, 2, k);
    dcase_t c = {.tmpl = T[1], .argc = (int)n}; for (unsigned i = 0; i < n; i++) c.argv[i] = W[k[i]];
    for (int i = 0; i < 4; i++) if (EV[i][v[i]]) { c.ename[c.nenv] = EN[i]; c.evalue[c.nenv++] = EV[i][v[i]]; }
    check(&c, "environment", 1);
}
/* exit options of commands whose value comes from the environment */
static void envdeep(uint64_t idx, const void *arg)
{
    (void)arg; static const char *EV[][6] = {{NULL, "yes", "no", "", "0", "1"}, {NULL, "v", "", "--help", 0, 0}, {NULL, "yes", "no", "bad", 0, 0}, {NULL, "5", "x", 0, 0, 0}}; static const char *EN[] = {"LIST", "SHOW", "LIST2", "NUM"};
    static const char *W[] = {"sub", "deep", "dub", "-h", "-L", "-Sx", "-sx", "-n5", "-l", "--nope", "q"};
    unsigned v[4] = {(unsigned)(idx % 6), (unsigned)(idx / 6 % 4), (unsigned)(idx / 24 % 4), (unsigned)(idx / 96 % 3)}; idx /= 288; unsigned k[8], n = seq_decode(idx, 11, L < 5 ? 3 : 4, k);
    dcase_t c = {.tmpl = T[3], .argc = (int)n}; for (unsigned i = 0; i < n; i++) c.argv[i] = W[k[i]];
    for (int i = 0; i < 4; i++) if (EV[i][v[i]]) { c.ename[c.nenv] = EN[i]; c.evalue[c.nenv++] = EV[i][v[i]]; }
    check(&c, "environment of commands", 3);
}
static void spellings(uint64_t idx, const void *arg)
{
    (void)arg; static const char *F[] = {"help", "version", "list", "show=v", "Help", "helpx", "help ", "-help", "show", "dump"}; static const char *CH[][3] = {{0}, {"sub"}, {"sub", "deep"}};
    unsigned t = (unsigned)(idx % 3); idx /= 3; unsigned f = (unsigned)(idx % 10); idx /= 10; unsigned dash = (unsigned)(idx % 4); idx /= 4; unsigned ch = (unsigned)(idx % 3); idx /= 3; unsigned len = (unsigned)idx; if (len > strlen(F[f])) return;
    char w[24]; sprintf(w, "%.*s%.*s", (int)dash, "---", (int)len, F[f]); dcase_t c = {.tmpl = T[t]};
    for (int i = 0; i < 3 && CH[ch][i]; i++) c.argv[c.argc++] = CH[ch][i];
    c.argv[c.argc++] = w; check(&c, "spelling", (int)t);
}
/* an exit option at any place of a table of n options, after k other words and before failing ones, in chains of 0..8 commands */
static void far(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 40); idx /= 40; unsigned at = (unsigned)(idx % 40); idx /= 40; unsigned k = (unsigned)(idx % 12); idx /= 12; unsigned depth = (unsigned)(idx % 9), what = (unsigned)(idx / 9 % 5), after = (unsigned)(idx / 45); if (at > n || (L < 5 && ((k > 5 && depth % 4) || (n > 9 && (n + at) % 3)))) return; static const unsigned KS[] = {0, 1, 2, 3, 7, 8, 31, 63, 100, 128, 255, 300}; k = KS[k];
    static argus_option_t t[9][48]; static char nm[40][8], cn[9][8]; dcase_t c = {.tmpl = t[0]}; char tn[60], first[200] = "Usage: prog";
    for (int i = 8; i >= 0; i--) { int e = 0; for (unsigned q = 0; q <= n; q++) { if (q == at) t[i][e++] = what < 2 ? (argus_option_t)HLP : what == 2 ? (argus_option_t)OPTION_FLAG('V', "version", HELP("v"), HANDLER(h_version), EX) : what == 3 ? (argus_option_t)OPTION_FLAG('L', "list", HELP("l"), HANDLER(h_list), EX) : (argus_option_t)OPTION_STRING('S', "show", HELP("s"), HANDLER(h_show), EX); if (q < n) { sprintf(nm[q], "w%u", q); t[i][e++] = (argus_option_t)OPTION_FLAG(0, nm[q], HELP("h")); } } t[i][e++] = (argus_option_t)OPTION_FLAG('a', "all", HELP("h")); if (i < 8) { sprintf(cn[i], "cmd%d", i); t[i][e++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h")); } t[i][e] = (argus_option_t)OPTION_END(); }
    for (unsigned i = 0; i < depth; i++) { c.argv[c.argc++] = cn[i]; strcat(first, " "); strcat(first, cn[i]); } strcat(first, " [OPTIONS]"); for (unsigned i = 0; i < k; i++) c.argv[c.argc++] = "-a"; c.argv[c.argc++] = (const char *[]){"--help", "-ah", "--version", "-aL", "--show=x"}[what]; if (after & 1) { c.argv[c.argc++] = "--nope"; } if (after & 2) c.argv[c.argc++] = "zzz"; if (after & 4) { c.argv[c.argc - 1] = "-a"; }
    if (after & 4 && c.argc == (int)(depth + 1)) return;
    sprintf(tn, "%u options, exit option at %u", n, at); d_note_case(&c, tn); d_trace_on = 0; m_parse(&c, &M); drun_t r; d_begin(&r, &c); d_parse(&r); uint64_t h = m_compare(&r, &M);
    if (M.kind == M_EXIT) { char *out = cap_out(NULL); if (what < 2) { if (strncmp(out, first, strlen(first))) mc_fail("help begins '%.80s', expected '%s...'", out, first); } else if (strcmp(out, what == 2 ? "prog v1.0\n" : what == 3 ? "LIST of list\n" : "SHOW x\n")) mc_fail("output is '%.80s'", out); size_t en; cap_err(&en); if (en) mc_fail("an exit option wrote to standard error"); } else d_free(&r);
    mc_state(mc_mixs(h, tn)); mc_trans((uint64_t)c.argc + 1); mc_exec(1); d_end(&r);
}
/* "--version" prints the program, its version and its description */
static struct { const char *prog, *version, *desc; } VI; static void vtweak(argus_t *a) { a->program_name = VI.prog; a->version = VI.version; a->description = VI.desc; }
static char vt[3][700];
static void versions(uint64_t idx, const void *arg)
{
    (void)arg; unsigned len = (unsigned)(idx % 600); idx /= 600; unsigned which = (unsigned)(idx % 3); idx /= 3; unsigned desc = (unsigned)(idx % 4), how = (unsigned)(idx / 4); strcpy(vt[0], "prog"); strcpy(vt[1], "1.2.3-rc%d"); strcpy(vt[2], "does (100%) things\nin two lines"); for (unsigned i = 0; i < len; i++) vt[which][i] = "ab.-%s 0_"[(i * 7 + len) % 9]; vt[which][len] = 0; if (which == 0 && !len) return; if (which == 2 && desc != 1) return;
    VI.prog = vt[0]; VI.version = vt[1]; VI.desc = desc == 0 ? NULL : desc == 1 ? vt[2] : desc == 2 ? "" : "x"; if (!*vt[1]) return; if (VI.desc && !*VI.desc) return; static char want[3000]; sprintf(want, "%s v%s\n", VI.prog, VI.version); if (VI.desc) sprintf(want + strlen(want), "\n%s\n", VI.desc);
    dcase_t c = {.tmpl = how ? C0 : A0, .tweak = vtweak, .argc = 1}; c.argv[0] = how & 1 ? "-V" : "--version"; NOTE("version of place %u length %u description %u", which, len, desc); d_trace_on = 0; drun_t r; d_begin(&r, &c); d_parse(&r); if (!r.exited || r.exit_code) mc_fail("version does not end the program successfully (%d)", r.exit_code);
    char *out = cap_out(NULL); if (strcmp(out, want)) mc_fail("version prints '%.200s', expected '%.200s'", out, want); mc_exec(1); mc_trans(1); mc_state(mc_mixs(1, want)); d_end(&r);
}
void mc_register(int thorough)
{
    L = thorough ? 5 : 4; CL = thorough ? 6 : 5;
    static const char *N[] = {"words/A", "words/B", "words/C"};
    for (int t = 0; t < 3; t++) mc_space(N[t], seq_count(WS[t].n, L), words, (void *)(intptr_t)t);
    mc_space("clusters", seq_count(8, CL) * 24, clusters, NULL);
    mc_space("environment", 324 * seq_count(10, 2), envs, NULL);
    mc_space("environment of commands", 288 * seq_count(11, thorough ? 4 : 3), envdeep, NULL);
    mc_space("spellings", 3 * 10 * 4 * 3 * 9, spellings, NULL);
    mc_space("far", 40ull * 40 * 12 * 9 * 5 * (thorough ? 8 : 4), far, NULL); mc_space("versions", 600 * 3 * 4 * 3, versions, NULL);
}
