/* C18: failures are reported consistently: status, error code, message, stderr. */
#include "kit.h"
const char *mc_property = "C18";
const char *mc_bounds =
    "every sequence of up to 3 (4) words out of 20-24 over eight option tables (every option type, validator, relation, group and nested command; of up to 4 over a table of commands three levels deep with common prefixes at each), each on a fresh context and on one whose error code was already set by a failed access; every pair of environment texts for every environment-backed option; "
    "custom handlers and validators returning every status in -3..40 and extremes, with and without a message of their own, for options, positionals, nested commands and environment values; every option value of up to 4 (5) characters over {- 1 . a = ,} for every type; program names of length 1..300; every error code -5..300 for descriptions; 14 kinds of failing word after 0..340 good ones, in chains of 0..8 commands and in tables of 8 and 68 entries; offending words of 0..5900 characters.  "
    "Whether a parse must fail comes from the reference model; every failure must agree in status, stored code and standard error, every success must be silent, and a failure caused by a word must suggest the help of the command reached.";
ARGUS_OPTIONS(C0, OPTION_FLAG('a', "aa", HELP("h"), CONFLICT("bb")), OPTION_FLAG('b', "bb", HELP("h"), REQUIRE("cc")), GROUP_START("g", FLAGS(FLAG_EXCLUSIVE)), OPTION_STRING('c', "cc", HELP("h"), VALIDATOR(V_CHOICE_STR("x", "yy"))), OPTION_INT('d', "dd", HELP("h"), VALIDATOR(V_RANGE(-2, 9))), GROUP_END(),
    OPTION_FLOAT('f', "ff", HELP("h"), VALIDATOR(V_CHOICE_FLOAT(1.5, 2.0))), OPTION_STRING('r', "re", HELP("h"), VALIDATOR(V_REGEX(MAKE_REGEX("^a+$", "as")))), OPTION_BOOL('t', "tt", HELP("h")), POSITIONAL_STRING("p", HELP("h"), VALIDATOR(V_LENGTH(1, 2))), )
static const char *WC[] = {"-a", "-b", "-cx", "-cz", "-d5", "-d10", "-dx", "-f1.5", "-f3", "-raa", "-rb", "-ty", "-tq", "p", "ppp", "", "--cc=yy", "--dd", "--", "--aa=1"};
static bool regex_aa(const char *pattern, const char *v, int n) { (void)pattern; if (!n) return false; for (int i = 0; i < n; i++) if (v[i] != 'a') return false; return true; }
ARGUS_OPTIONS(D1, OPTION_INT('n', "num", HELP("h"), FLAGS(FLAG_REQUIRED)), OPTION_ARRAY_INT('i', "li", HELP("h"), VALIDATOR(V_COUNT(2, 3)), ENV_VAR("LI")), POSITIONAL_MANY_INT("rest", HELP("h"), OPTL), )
ARGUS_OPTIONS(D0, OPTION_FLAG('a', "aa", HELP("h"), FLAGS(FLAG_REQUIRED)), OPTION_MAP_BOOL('m', "mb", HELP("h"), ENV_VAR("MB")), OPTION_FLAG('x', "xx", HELP("h"), ENV_VAR("XX")), SUBCOMMAND("run", D1, HELP("h"), ACTION(act)), SUBCOMMAND("runner", D1, HELP("h"), ACTION(act)), SUBCOMMAND("rest", D1, HELP("h"), ACTION(act)), )
static const char *WD[] = {"-a", "-ma=1", "-ma", "-ma=q", "-x", "-xa", "run", "r", "ru", "res", "zzz", "-n5", "-n", "-i1", "-i1,2", "-i1-9", "7", "q", "--num=3", "-"};
ARGUS_OPTIONS(E0, OPTION_FLAG('v', "vv", HELP("h")), OPTION_STRING('o', "out", HELP("h"), ENV_VAR("OUT"), FLAGS(FLAG_ENV_OVERRIDE)), POSITIONAL_FLOAT("x", HELP("h")), POSITIONAL_BOOL("y", HELP("h"), OPTL), )
static const char *WE[] = {"-v", "-vv", "-vq", "-o", "-ox", "--out", "--out=", "1.5", "1.5e", "-1", "-1x", "yes", "maybe", "--", "-", "", "--ou", "--v=1", "-=", "--="};
ARGUS_OPTIONS(G2, OPTION_FLAG('z', "zz", HELP("h")), SUBCOMMAND("xray", D1, HELP("h"), ACTION(act)), SUBCOMMAND("xenon", D1, HELP("h"), ACTION(act)), )
ARGUS_OPTIONS(G1, OPTION_FLAG('v', "verbose", HELP("h")), OPTION_STRING('s', "str", HELP("h")), SUBCOMMAND("alpha", G2, HELP("h"), ACTION(act)), SUBCOMMAND("alps", G2, HELP("h"), ACTION(act)), SUBCOMMAND("beta", G2, HELP("h"), ACTION(act)), )
ARGUS_OPTIONS(G0, OPTION_FLAG('v', "verbose", HELP("h")), SUBCOMMAND("one", G1, HELP("h"), ACTION(act)), SUBCOMMAND("once", G1, HELP("h"), ACTION(act)), SUBCOMMAND("two", G1, HELP("h")), )
static const char *WG[] = {"one", "on", "t", "two", "alpha", "al", "b", "beta", "x", "xe", "xray", "-v", "--v", "-sx", "-s", "-q", "zz", "-z", "--", ""};
static const struct { const argus_option_t *t; const char **w; unsigned n; } TB[] = {{T0, W0, 22}, {T1, W1, 22}, {T2, W2, 24}, {T3, W3, 22}, {C0, WC, 20}, {D0, WD, 20}, {E0, WE, 20}, {G0, WG, 20}};
#define NTB 8
static mres_t M; static unsigned L, VL;
static void channels(drun_t *r, bool noisy_ok)
{
    size_t on, en; char *out = cap_out(&on), *err = cap_err(&en); const char *pn = r->argus.program_name ? r->argus.program_name : "prog"; size_t k = strlen(pn);
    if (r->exited) return;
    if (r->error_code != r->status) mc_fail("status %d, stored error code %d", r->status, r->error_code);
    if (r->status == 0) { if (noisy_ok) return; if (on) mc_fail("a successful parse wrote to standard output: '%.100s'", out); if (en) mc_fail("a successful parse wrote to standard error: '%.100s'", err); return; }
    if (!en) mc_fail("failure %d (%s) without a diagnostic", r->status, argus_strerror((argus_error_type_t)r->status));
    if (noisy_ok) return;
    if (strncmp(err, pn, k) || strncmp(err + k, ":", 1)) mc_fail("the diagnostic of failure %d does not start with the program name: '%.100s'", r->status, err);
    const char *p = err + k + 1; while (*p == ' ') p++; if (!*p || *p == '\n') mc_fail("the diagnostic of failure %d is empty: '%.100s'", r->status, err);
    for (const char *l = strchr(err, '\n'); l; l = strchr(l + 1, '\n')) if (!strncmp(l + 1, pn, k) && l[1 + k] == ':') mc_fail("failure %d is reported twice: '%.300s'", r->status, err);
}
/* a word that cannot be used is answered with how to get the help of the command reached so far */
static void suggestion(drun_t *r)
{
    static char want[4096]; size_t n = (size_t)sprintf(want, "\nTry '%s", r->argus.program_name); for (int i = 1; i <= M.depth; i++) n += (size_t)sprintf(want + n, " %s", M.lev[i].cmd->name); sprintf(want + n, " --help' for more information.\n");
    size_t en; char *err = cap_err(&en), *p = strstr(err, want); if (!p) mc_fail("no line '%s' after failure %d: '%.300s'", want + 1, r->status, err); if (p == err) mc_fail("no message before the suggestion"); if (strstr(p + 1, "\nTry '")) mc_fail("two suggestions");
}
static void run(const dcase_t *c, const char *tn, bool stale)
{
    d_note_case(c, tn); NOTE("%s", stale ? " after a failed access" : ""); m_parse(c, &M); drun_t r; d_begin(&r, c);
    if (stale) { argus_get(&r.argus, "no such option"); if (!r.argus.error_code) mc_fail("a failed access leaves no error"); }
    d_parse(&r); channels(&r, false); if (M.kind == M_ERR && M.stop_word >= 0 && !r.exited && r.status) suggestion(&r);
    if (M.kind == M_OK && (r.exited || r.status)) mc_fail("parse failed with %d, expected success", r.status);
    if (M.kind == M_ERR && !r.exited && !r.status) mc_fail("parse succeeded, expected failure (%s)", M.why);
    mc_state(mc_mix(mc_mix(mc_mixs(1, tn), (uint64_t)r.status), mc_mixs(2, M.why))); mc_exec(1); mc_trans((uint64_t)c->argc + 1);
    if (!r.exited) d_free(&r);
    d_end(&r);
}
static void words(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; bool stale = idx & 1; idx >>= 1; unsigned k[8], n = seq_decode(idx, TB[t].n, t == 7 ? 4 : L, k); m_regex_hook = regex_aa;
    dcase_t c = {.tmpl = TB[t].t, .argc = (int)n}; for (unsigned i = 0; i < n; i++) c.argv[i] = TB[t].w[k[i]];
    char tn[8]; sprintf(tn, "T%d", t); run(&c, tn, stale);
}
static void envs(uint64_t idx, const void *arg)
{
    (void)arg; static const char *EN[] = {"LS", "LI", "MS", "LF", "MI", "MF", "MB", "OUT", "XX", "MB"}; static const int ET[] = {0, 0, 0, 1, 1, 1, 1, 6, 5, 5};
    static const char *V[] = {"", "x", "1", "1,x", "a=1", "a=1,b", "a=x", "yes", "1-3,2", "9-", ",", "=", "a==1", "1.5,2", "99999999999999999999", "-1"};
    unsigned e = (unsigned)(idx % 10), v = (unsigned)(idx / 10 % 16), f = (unsigned)(idx / 160 % 10), u = (unsigned)(idx / 1600 % 16), w = (unsigned)(idx / 25600 % 3);
    if (ET[e] != ET[f]) return; if (e == f && u) return;
    dcase_t c = {.tmpl = TB[ET[e]].t, .nenv = 1}; c.ename[0] = EN[e]; c.evalue[0] = V[v]; if (e != f) { c.nenv = 2; c.ename[1] = EN[f]; c.evalue[1] = V[u]; }
    if (ET[e] == 5) c.argv[c.argc++] = "-a"; if (ET[e] == 6) c.argv[c.argc++] = "1.5"; if (w == 1) c.argv[c.argc++] = "--"; if (w == 2) c.argv[c.argc++] = "-q";
    run(&c, "env", idx & 1);
}
static const char VC[] = "-1.a=,";
static void values(uint64_t idx, const void *arg)
{
    (void)arg; unsigned ty = (unsigned)(idx % 14); idx /= 14; unsigned k[8], n = seq_decode(idx, 6, VL, k); char v[8]; for (unsigned i = 0; i < n; i++) v[i] = VC[k[i]]; v[n] = 0;
    argus_option_t t[] = {ty == 0 ? (argus_option_t)OPTION_STRING('v', "val", HELP("h")) : ty == 1 ? (argus_option_t)OPTION_INT('v', "val", HELP("h")) : ty == 2 ? (argus_option_t)OPTION_FLOAT('v', "val", HELP("h")) : ty == 3 ? (argus_option_t)OPTION_BOOL('v', "val", HELP("h")) : ty == 4 ? (argus_option_t)OPTION_ARRAY_STRING('v', "val", HELP("h")) :
        ty == 5 ? (argus_option_t)OPTION_ARRAY_INT('v', "val", HELP("h")) : ty == 6 ? (argus_option_t)OPTION_ARRAY_FLOAT('v', "val", HELP("h")) : ty == 7 ? (argus_option_t)OPTION_MAP_STRING('v', "val", HELP("h")) : ty == 8 ? (argus_option_t)OPTION_MAP_INT('v', "val", HELP("h")) : ty == 9 ? (argus_option_t)OPTION_MAP_FLOAT('v', "val", HELP("h")) :
        ty == 10 ? (argus_option_t)OPTION_MAP_BOOL('v', "val", HELP("h")) : ty == 11 ? (argus_option_t)POSITIONAL_INT("val", HELP("h")) : ty == 12 ? (argus_option_t)POSITIONAL_MANY_FLOAT("val", HELP("h")) : (argus_option_t)POSITIONAL_BOOL("val", HELP("h")), OPTION_END()};
    dcase_t c = {.tmpl = t}; if (ty < 11) { c.argv[c.argc++] = "-v"; } c.argv[c.argc++] = v; char tn[20]; sprintf(tn, "type%u", ty); run(&c, tn, false);
}
/* custom callbacks */
static int g_code; static bool g_msg;
static int result(argus_t *a) { if (g_msg && g_code) ARGUS_PARSING_ERROR(a, (argus_error_type_t)g_code, "custom %d", g_code); return g_code; }
static int h_custom(argus_t *a, argus_option_t *o, char *v) { (void)o; (void)v; return result(a); }
static int v_pre(argus_t *a, void *v, validator_data_t d) { (void)v; (void)d; return result(a); }
static int v_post(argus_t *a, void *o, validator_data_t d) { (void)o; (void)d; return result(a); }
static void customs(uint64_t idx, const void *arg)
{
    (void)arg; static const int X[] = {100, 255, 256, 1000, 2147483647, -2147483647 - 1}; unsigned where = (unsigned)(idx % 10); idx /= 10; unsigned stale = (unsigned)(idx % 6); idx /= 6; g_msg = idx & 1; idx >>= 1; g_code = idx < 44 ? (int)idx - 3 : X[idx - 44];
    if (g_code == ARGUS_SHOULD_EXIT) return;
    argus_option_t sub[] = {OPTION_STRING('s', "str", HELP("h"), HANDLER(h_custom)), OPTION_END()};
    validator_entry_t pre = {.func = v_pre, .order = ORDER_PRE}, post = {.func = v_post, .order = ORDER_POST}; validator_entry_t *vpre[] = {&pre, NULL}, *vpost[] = {&post, NULL};
    argus_option_t t[] = {OPTION_FLAG('f', "flg", HELP("h"), HANDLER(h_custom), ENV_VAR("F")), OPTION_STRING('h', "hh", HELP("h"), HANDLER(h_custom), ENV_VAR("H")), OPTION_STRING('p', "pre", HELP("h"), ENV_VAR("P")), OPTION_STRING('q', "post", HELP("h"), ENV_VAR("Q")), POSITIONAL_STRING("pos", HELP("h"), OPTL), OPTION_END()};
    argus_option_t ts[] = {OPTION_FLAG('f', "flg", HELP("h")), SUBCOMMAND("sub", sub, HELP("h"), ACTION(act)), OPTION_END()};
    t[2].validators = vpre; t[3].validators = vpost; if (where == 6) t[4].validators = vpre; if (where == 7) t[4].handler = h_custom;
    dcase_t c = {.tmpl = where == 5 ? ts : t};
    switch (where) {
        case 0: c.argv[c.argc++] = "-f"; break; case 1: c.argv[c.argc++] = "-hx"; break; case 2: c.argv[c.argc++] = "--pre=x"; break; case 3: c.argv[c.argc++] = "-qx"; break; case 4: c.nenv = 1; c.ename[0] = "H"; c.evalue[0] = "x"; break;
        case 5: c.argv[c.argc++] = "sub"; c.argv[c.argc++] = "-sx"; break; case 6: case 7: c.argv[c.argc++] = "x"; break; case 8: c.nenv = 1; c.ename[0] = "P"; c.evalue[0] = "x"; break; default: c.nenv = 1; c.ename[0] = "Q"; c.evalue[0] = "x";
    }
    char tn[60]; sprintf(tn, "custom place=%u code=%d message=%d before=%u", where, g_code, g_msg, stale); d_note_case(&c, tn);
    drun_t r; d_begin(&r, &c); argus_array_it_t it; size_t en;
    switch (stale) { case 1: argus_get(&r.argus, "nope"); break; case 2: argus_array_get(&r.argus, where == 5 ? "flg" : "pre", 0); break; case 3: argus_map_get(&r.argus, where == 5 ? "flg" : "pre", "k"); break; case 4: it = argus_array_it(&r.argus, "nope"); (void)it; break; case 5: d_parse(&r); if (r.exited) mc_fail("parsing ended the program"); argus_free(&r.argus); cap_reset(); (void)cap_err(&en); break; default: break; } d_parse(&r); if (r.exited) mc_fail("parsing ended the program");
    if ((r.status != 0) != (g_code != 0)) mc_fail("callback returned %d, parse returned %d", g_code, r.status);
    channels(&r, false); mc_exec(1); mc_trans(1); mc_state(mc_mixs(3, tn)); d_free(&r); d_end(&r);
}
/* program names */
static char g_prog[320]; static void set_prog(argus_t *a) { a->program_name = g_prog; }
static void names(uint64_t idx, const void *arg)
{
    (void)arg; static const char *W[] = {"-q", "--nope", "-nx", "zz", "-Lx", "sub", "-V", "", "-s"}; unsigned w = (unsigned)(idx % 9), n = (unsigned)(idx / 9) + 1; for (unsigned i = 0; i < n; i++) g_prog[i] = "./a%sb-c"[(i + n) % 8]; g_prog[n] = 0;
    dcase_t c = {.tmpl = T2, .argc = 1, .tweak = set_prog}; c.argv[0] = W[w]; char tn[40]; sprintf(tn, "program name of %u", n); d_note_case(&c, tn);
    drun_t r; d_begin(&r, &c); d_parse(&r); channels(&r, false); if (!r.exited) d_free(&r); d_end(&r); mc_exec(1); mc_trans(1); mc_state(mc_mixs(4, tn));
}
static void strerrors(uint64_t idx, const void *arg)
{
    (void)idx; (void)arg; const char *s[306]; NOTE("descriptions");
    for (int i = -5; i <= 300; i++) { s[i + 5] = argus_strerror((argus_error_type_t)i); mc_trans(1); if (!s[i + 5] || !*s[i + 5]) mc_fail("no description of %d", i); }
    const char *unknown = s[305]; int last = ARGUS_ERROR_STACK_OVERFLOW; if (last > 299) return;
    for (int i = 0; i <= last; i++) { if (!strcmp(s[i + 5], unknown)) mc_fail("error %d is described as '%s'", i, unknown); for (int j = 0; j < i; j++) if (!strcmp(s[i + 5], s[j + 5])) mc_fail("errors %d and %d share the description '%s'", j, i, s[i + 5]); mc_state((uint64_t)i); }
    mc_exec(1);
}
/* failures late on the command line, in wide tables and in deep chains */
static void late(uint64_t idx, const void *arg)
{
    (void)arg; static const char *BAD[] = {"--nope", "-q", "-nx", "--num=", "-n", "--alpha=1", "-ix", "-i5-", "-mk", "-fx", "zzz", "-byes!", "-n99", "-v0"}; static const char *OK[] = {"-a", "-lx", "-i1-3", "-mk=1", "-n5", "-f1.5"};
    unsigned n = (unsigned)(idx % 60); idx /= 60; unsigned b = (unsigned)(idx % 15); idx /= 15; unsigned o = (unsigned)(idx % 6); idx /= 6; unsigned after = (unsigned)(idx % 2), depth = (unsigned)(idx / 2 % 9), wide_ = (unsigned)(idx / 18); n = n < 30 ? n : n < 50 ? n * 3 : 200 + n * 3; if (n > 340) return;
    static argus_option_t t[9][80]; static char cn[9][8], fn[60][8]; dcase_t c = {.tmpl = t[0]}; char tn[60]; static validator_entry_t rg; rg = (validator_entry_t){.func = range_validator, .formatter = format_range_validator, .order = ORDER_POST}; rg.data.range.max = 9; static validator_entry_t *vs[] = {&rg, NULL};
    for (int i = 8; i >= 0; i--) { int e = 0; for (int q = 0; wide_ && q < 60; q++) { sprintf(fn[q], "w%d", q); t[i][e++] = (argus_option_t)OPTION_FLAG(0, fn[q], HELP("h")); } t[i][e++] = (argus_option_t)OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler)); t[i][e++] = (argus_option_t)OPTION_FLAG('a', "alpha", HELP("h")); t[i][e] = (argus_option_t)OPTION_INT('n', "num", HELP("h")); t[i][e++].validators = vs; t[i][e++] = (argus_option_t)OPTION_FLOAT('f', "flt", HELP("h")); t[i][e++] = (argus_option_t)OPTION_BOOL('b', "boo", HELP("h")); t[i][e++] = (argus_option_t)OPTION_ARRAY_STRING('l', "ls", HELP("h")); t[i][e++] = (argus_option_t)OPTION_ARRAY_INT('i', "li", HELP("h")); t[i][e++] = (argus_option_t)OPTION_MAP_INT('m', "map", HELP("h")); if (i < 8) { sprintf(cn[i], "cmd%d", i); t[i][e++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h")); } t[i][e] = (argus_option_t)OPTION_END(); }
    for (unsigned i = 0; i < depth; i++) c.argv[c.argc++] = cn[i]; for (unsigned i = 0; i < n; i++) c.argv[c.argc++] = OK[o]; if (b < 14) c.argv[c.argc++] = BAD[b]; if (after) c.argv[c.argc++] = wide_ ? "--w59" : "-a"; sprintf(tn, "late depth=%u wide=%u", depth, wide_); run(&c, tn, b & 1);
}
/* words of every length in the message */
static void longwords(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 700); idx /= 700; unsigned where = (unsigned)(idx % 8), ch = (unsigned)(idx / 8); static char w[6000]; size_t k = 0; n = n < 600 ? n : 600 + (n - 600) * 53; static const char *PRE[] = {"--", "-", "-n", "--num=", "", "-i", "-mk=", "--num"}; k = (size_t)sprintf(w, "%s", PRE[where]); memset(w + k, "q%,\xc3"[ch], n); w[k + n] = 0;
    argus_option_t t[] = {OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler)), OPTION_INT('n', "num", HELP("h")), OPTION_ARRAY_INT('i', "li", HELP("h")), OPTION_MAP_INT('m', "map", HELP("h")), OPTION_END()}; dcase_t c = {.tmpl = t, .argc = 1}; c.argv[0] = w; if (ch == 2 && where >= 5) return; run(&c, "long word", false);
}
void mc_register(int thorough)
{
    L = thorough ? 4 : 3; VL = thorough ? 5 : 4;
    static const char *N[] = {"words/T0", "words/T1", "words/T2", "words/T3", "words/C0", "words/D0", "words/E0", "words/G0"};
    for (int t = 0; t < NTB; t++) mc_space(N[t], seq_count(TB[t].n, t == 7 ? 4 : L) * 2, words, (void *)(intptr_t)t);
    for (int t = 0; t < NTB; t++) d_space_dressed(N[t], seq_count(TB[t].n, L - 1) * 2, words, (void *)(intptr_t)t);
    mc_space("environment", 25600 * 3, envs, NULL); d_space_dressed("environment", 25600 * 3, envs, NULL);
    mc_space("values", seq_count(6, VL) * 14, values, NULL);
    mc_space("callbacks", 50 * 20 * 6, customs, NULL);
    mc_space("program names", 300 * 9, names, NULL);
    mc_space("descriptions", 1, strerrors, NULL);
    mc_space("late", 60ull * 15 * 6 * 2 * 9 * 2, late, NULL); mc_space("long words", 700 * 8 * 4, longwords, NULL);
}
