/* C26: the diagnostic of a failing parse names what is wrong. */
#include "kit.h"
const char *mc_property = "C26";
const char *mc_bounds =
    "every sequence of up to 4 (5) words out of 21-24 over nine option tables (every option type, validator, relation, group, nested and abbreviated commands, three levels of commands); every text of up to 5 (6) characters over 9 for every option type by five routes (attached and separate, long and short, positional, environment); every pair of environment texts; range, length, count and choice validators over every pair (triple) of 14 extreme limits and every value of 25; unknown, incomplete, superfluous and ambiguous words of length 1..300; every printable short name; every set of 6 required options and positionals, every requirement and conflict and exclusive group over 5 options and every subset of them provided, in 4 orders, at the root and in nested commands; every failing word after 0..340 good ones in chains of 0..8 commands.  "
    "What is wrong comes from the reference model; the diagnostic must name it in full.";
ARGUS_OPTIONS(C0, OPTION_FLAG('a', "apple", HELP("h"), CONFLICT("beet")), OPTION_FLAG('b', "beet", HELP("h"), REQUIRE("celery")), GROUP_START("greens", FLAGS(FLAG_EXCLUSIVE)), OPTION_STRING('c', "celery", HELP("h"), VALIDATOR(V_CHOICE_STR("xylo", "yyy"))), OPTION_INT('d', "dill", HELP("h"), VALIDATOR(V_RANGE(-21, 19))), GROUP_END(),
    OPTION_FLOAT('f', "fennel", HELP("h"), VALIDATOR(V_CHOICE_FLOAT(1.5, 2.25))), OPTION_STRING('r', "radish", HELP("h"), VALIDATOR(V_REGEX(MAKE_REGEX("^a+$", "only the letter")))), OPTION_BOOL('t', "thyme", HELP("h")), POSITIONAL_STRING("pepper", HELP("h"), VALIDATOR(V_LENGTH(11, 12))), )
static const char *WC[] = {"-a", "-b", "-cxylo", "-cz", "-d5", "-d20", "-dx", "-f1.5", "-f3", "-raa", "-rb", "-ty", "-tq", "pppp", "elevenchars", "", "--celery=yyy", "--dill", "--", "--apple=1", "-d-22", "--radish=baab"};
static bool regex_aa(const char *pattern, const char *v, int n) { (void)pattern; if (!n) return false; for (int i = 0; i < n; i++) if (v[i] != 'a') return false; return true; }
ARGUS_OPTIONS(D1, OPTION_INT('n', "number", HELP("h"), FLAGS(FLAG_REQUIRED)), OPTION_ARRAY_INT('i', "list", HELP("h"), VALIDATOR(V_COUNT(2, 3)), ENV_VAR("LI")), POSITIONAL_MANY_INT("rest", HELP("h"), OPTL), )
ARGUS_OPTIONS(D0, OPTION_FLAG('a', "apple", HELP("h"), FLAGS(FLAG_REQUIRED)), OPTION_MAP_BOOL('m', "mapped", HELP("h"), ENV_VAR("MB")), OPTION_FLAG('x', "xflag", HELP("h"), ENV_VAR("XX")), SUBCOMMAND("run", D1, HELP("h"), ACTION(act)), SUBCOMMAND("runner", D1, HELP("h"), ACTION(act)), SUBCOMMAND("rest", D1, HELP("h"), ACTION(act)), )
static const char *WD[] = {"-a", "-ma=1", "-ma", "-ma=q", "-x", "-xa", "run", "r", "ru", "res", "zzz", "-n5", "-n", "-i1", "-i1,2", "-i1-9", "7", "q", "--number=3", "-", "--mapped=on=1,off"};
ARGUS_OPTIONS(E0, OPTION_FLAG('v', "vv", HELP("h")), OPTION_STRING('o', "out", HELP("h"), ENV_VAR("OUT"), FLAGS(FLAG_ENV_OVERRIDE)), POSITIONAL_FLOAT("xpos", HELP("h")), POSITIONAL_BOOL("ypos", HELP("h"), OPTL), )
static const char *WE[] = {"-v", "-vv", "-vq", "-o", "-ox", "--out", "--out=", "1.5", "1.5e", "-1", "-1x", "yes", "maybe", "--", "-", "", "--ou", "--v=1", "-=", "--=", "--outer=3=4", "-v="};
ARGUS_OPTIONS(G2, OPTION_FLAG('z', "zz", HELP("h")), OPTION_STRING(0, "needed", HELP("h"), FLAGS(FLAG_REQUIRED)), SUBCOMMAND("xray", D1, HELP("h"), ACTION(act)), SUBCOMMAND("xenon", D1, HELP("h"), ACTION(act)), )
ARGUS_OPTIONS(G1, OPTION_FLAG('v', "verbose", HELP("h")), OPTION_STRING('s', "str", HELP("h")), SUBCOMMAND("alpha", G2, HELP("h"), ACTION(act)), SUBCOMMAND("alps", G2, HELP("h"), ACTION(act)), SUBCOMMAND("beta", G2, HELP("h"), ACTION(act)), )
ARGUS_OPTIONS(G0, OPTION_FLAG('v', "verbose", HELP("h")), SUBCOMMAND("one", G1, HELP("h"), ACTION(act)), SUBCOMMAND("once", G1, HELP("h"), ACTION(act)), SUBCOMMAND("only", G1, HELP("h"), ACTION(act)), SUBCOMMAND("two", G1, HELP("h")), )
static const char *WG[] = {"one", "on", "t", "two", "alpha", "al", "b", "beta", "x", "xe", "xray", "-v", "--v", "-sx", "-s", "-q", "zz", "-z", "--", "", "--needed=1"};
ARGUS_OPTIONS(F0, OPTION_INT('n', "num", HELP("h"), VALIDATOR(V_CHOICE_INT(-3, 14, 159))), OPTION_STRING('k', "kind", HELP("h"), VALIDATOR(V_CHOICE_STR("tiny", "tiny-er", "huge")), REQUIRE("num")), OPTION_ARRAY_STRING('w', "word", HELP("h"), VALIDATOR(V_COUNT(2, 2)), CONFLICT("kind", "real")), OPTION_FLOAT('r', "real", HELP("h"), VALIDATOR(V_RANGE(-12, 34))), OPTION_MAP_FLOAT('m', "map", HELP("h"), REQUIRE("word", "num")), POSITIONAL_INT("int", HELP("h"), VALIDATOR(V_RANGE(100, 200))), POSITIONAL_MANY_STRING("more", HELP("h"), VALIDATOR(V_COUNT(1, 2)), OPTL), )
static const char *WF[] = {"-n14", "-n15", "-n-3", "-ktiny", "-kti", "-khuge!", "-wa,b", "-wa", "-w", "a,b,c", "-r3.5", "-r35", "-r-13", "-ma=1", "-ma=1,b=q", "-mab", "100", "99", "x", "--", "--num=159", "--real"};
static const struct { const argus_option_t *t; const char **w; unsigned n; } TB[] = {{T0, W0, 22}, {T1, W1, 22}, {T2, W2, 24}, {T3, W3, 22}, {C0, WC, 22}, {D0, WD, 21}, {E0, WE, 22}, {F0, WF, 22}, {G0, WG, 21}};
#define NTB 9
static mres_t M; static unsigned L, VL;
static void diagnosis(drun_t *r)
{
    static char text[1 << 16]; size_t en; char *err = cap_err(&en); const char *pn = r->argus.program_name ? r->argus.program_name : "", *miss = ""; int len = 0; size_t k = strlen(pn);
    if (!strncmp(err, pn, k) && err[k] == ':') err += k + 1;
    snprintf(text, sizeof text, "%s", err); char *e; if ((e = strstr(text, "\n\n"))) *e = 0; if ((e = strstr(text, "\nUsage:"))) *e = 0; if ((e = strstr(text, "\nTry '"))) *e = 0;
    if (!m_named(&M, r->status, text, &miss, &len)) mc_fail("the diagnostic of failure %d does not name '%.*s': '%.300s'", r->status, len > 200 ? 200 : len, miss, text);
}
static void run(const dcase_t *c, const char *tn)
{
    d_note_case(c, tn); m_regex_hook = regex_aa; m_parse(c, &M); drun_t r; d_begin(&r, c); d_parse(&r);
    if (M.kind == M_ERR && !r.exited && r.status) diagnosis(&r);
    mc_state(mc_mix(mc_mix(mc_mixs(1, tn), (uint64_t)r.status), mc_mixs(2, M.why))); mc_exec(1); mc_trans((uint64_t)c->argc + 1);
    if (!r.exited) d_free(&r);
    d_end(&r);
}
static void words(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; unsigned k[8], n = seq_decode(idx, TB[t].n, L, k);
    dcase_t c = {.tmpl = TB[t].t, .argc = (int)n}; for (unsigned i = 0; i < n; i++) c.argv[i] = TB[t].w[k[i]];
    char tn[8]; sprintf(tn, "T%d", t); run(&c, tn);
}
static void envs(uint64_t idx, const void *arg)
{
    (void)arg; static const char *EN[] = {"LS", "LI", "MS", "LF", "MI", "MF", "MB", "OUT", "XX", "MB"}; static const int ET[] = {0, 0, 0, 1, 1, 1, 1, 6, 5, 5};
    static const char *V[] = {"", "x", "1", "1,x", "a=1", "a=1,b", "a=x", "yes", "1-3,2", "9-", ",", "=", "a==1", "1.5,2", "99999999999999999999", "-1"};
    unsigned e = (unsigned)(idx % 10), v = (unsigned)(idx / 10 % 16), f = (unsigned)(idx / 160 % 10), u = (unsigned)(idx / 1600 % 16), w = (unsigned)(idx / 25600 % 3);
    if (ET[e] != ET[f]) return; if (e == f && u) return;
    dcase_t c = {.tmpl = TB[ET[e]].t, .nenv = 1}; c.ename[0] = EN[e]; c.evalue[0] = V[v]; if (e != f) { c.nenv = 2; c.ename[1] = EN[f]; c.evalue[1] = V[u]; }
    if (ET[e] == 5) c.argv[c.argc++] = "-a"; if (ET[e] == 6) c.argv[c.argc++] = "1.5"; if (w == 1) c.argv[c.argc++] = "--"; if (w == 2) c.argv[c.argc++] = "-q";
    run(&c, "env");
}
/* every short text for every type by every route */
static const char VC[] = "-1.a=,e:9";
static void values(uint64_t idx, const void *arg)
{
    (void)arg; unsigned ty = (unsigned)(idx % 14); idx /= 14; unsigned route = (unsigned)(idx % 5); idx /= 5; unsigned k[8], n = seq_decode(idx, 9, VL, k); static char v[16], w[40], w2[40]; for (unsigned i = 0; i < n; i++) v[i] = VC[k[i]]; v[n] = 0;
    argus_option_t t[] = {ty == 0 ? (argus_option_t)OPTION_FLAG('v', "val", HELP("h"), ENV_VAR("VAL")) : ty == 1 ? (argus_option_t)OPTION_INT('v', "val", HELP("h"), ENV_VAR("VAL")) : ty == 2 ? (argus_option_t)OPTION_FLOAT('v', "val", HELP("h"), ENV_VAR("VAL")) : ty == 3 ? (argus_option_t)OPTION_BOOL('v', "val", HELP("h"), ENV_VAR("VAL")) : ty == 4 ? (argus_option_t)OPTION_ARRAY_STRING('v', "val", HELP("h"), ENV_VAR("VAL")) :
        ty == 5 ? (argus_option_t)OPTION_ARRAY_INT('v', "val", HELP("h"), ENV_VAR("VAL")) : ty == 6 ? (argus_option_t)OPTION_ARRAY_FLOAT('v', "val", HELP("h"), ENV_VAR("VAL")) : ty == 7 ? (argus_option_t)OPTION_MAP_STRING('v', "val", HELP("h"), ENV_VAR("VAL")) : ty == 8 ? (argus_option_t)OPTION_MAP_INT('v', "val", HELP("h"), ENV_VAR("VAL")) : ty == 9 ? (argus_option_t)OPTION_MAP_FLOAT('v', "val", HELP("h"), ENV_VAR("VAL")) :
        ty == 10 ? (argus_option_t)OPTION_MAP_BOOL('v', "val", HELP("h"), ENV_VAR("VAL")) : ty == 11 ? (argus_option_t)POSITIONAL_INT("val", HELP("h")) : ty == 12 ? (argus_option_t)POSITIONAL_MANY_FLOAT("val", HELP("h"), OPTL) : (argus_option_t)POSITIONAL_BOOL("val", HELP("h")), OPTION_END()};
    dcase_t c = {.tmpl = t};
    if (ty >= 11) { if (route) { if (route == 1) c.argv[c.argc++] = "--"; else if (route == 2) c.argv[c.argc++] = "1"; else return; } c.argv[c.argc++] = v; }
    else switch (route) {
        case 0: c.argv[c.argc++] = "-v"; c.argv[c.argc++] = v; break;
        case 1: sprintf(w, "-v%s", v); c.argv[c.argc++] = w; break;
        case 2: sprintf(w, "--val=%s", v); c.argv[c.argc++] = w; break;
        case 3: c.argv[c.argc++] = "--val"; c.argv[c.argc++] = v; break;
        default: sprintf(w2, "%s", v); c.nenv = 1; c.ename[0] = "VAL"; c.evalue[0] = w2;
    }
    char tn[20]; sprintf(tn, "type%u", ty); run(&c, tn);
}
/* limits */
static const int64_t LIM[] = {0, 1, 2, 3, 9, 10, 11, 99, 100, 1000, 2147483647, 2147483648, 9223372036854775806, INT64_MAX}, VAL[] = {0, 1, 2, 4, 8, 12, 98, 101, 999, 1001, 65536, 2147483646, 2147483648, 2147483649, 4294967296, 9223372036854775805, INT64_MAX, -1, -2, -10, -100, -2147483648, -2147483649, -9223372036854775807, INT64_MIN};
static void limits(uint64_t idx, const void *arg)
{
    (void)arg; unsigned a = (unsigned)(idx % 28), b = (unsigned)(idx / 28 % 28), v = (unsigned)(idx / 784 % 25), f = (unsigned)(idx / 19600); static char w[64], e[64];
    int64_t lo = a < 14 ? LIM[a] : -LIM[a - 14], hi = b < 14 ? LIM[b] : -LIM[b - 14];
    validator_entry_t ve = {.func = f == 0 || f == 1 ? range_validator : f == 2 ? length_validator : f == 3 ? count_validator : choices_int_validator, .order = ORDER_POST}, *vs[] = {&ve, NULL}; int64_t ch[] = {lo, hi, 77};
    if (f == 4) { ve.data.choices.as_ints = ch; ve.data.choices.count = 3; ve.data.choices.type = VALUE_TYPE_INT; } else { ve.data.range.min = lo; ve.data.range.max = hi; }
    if ((f == 2 || f == 3) && (v > 11 || VAL[v] > 1001)) return;
    argus_option_t t[] = {f == 0 || f == 4 ? (argus_option_t)OPTION_INT('v', "val", HELP("h")) : f == 1 ? (argus_option_t)OPTION_FLOAT('v', "val", HELP("h")) : f == 2 ? (argus_option_t)OPTION_STRING('v', "val", HELP("h")) : (argus_option_t)OPTION_ARRAY_INT('v', "val", HELP("h")), OPTION_END()}; t[0].validators = vs;
    dcase_t c = {.tmpl = t, .argc = 2}; c.argv[0] = "--val"; static char big[1100];
    if (f == 2) { memset(big, 's', (size_t)VAL[v]); big[VAL[v]] = 0; c.argv[1] = big; } else if (f == 3) { sprintf(e, "1-%lld", (long long)VAL[v]); c.argv[1] = e; } else { sprintf(w, "%lld", (long long)VAL[v]); c.argv[1] = w; }
    static const char *FN[] = {"range", "range of a float", "length", "count", "choice"}; char tn[80]; sprintf(tn, "%s %lld..%lld", FN[f], (long long)lo, (long long)hi); run(&c, tn);
}
/* names and words of every length */
static void lengths(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 300) + 1, k = (unsigned)(idx / 300); static char nm[3][320], w[700], fill[16] = "abcdefghijklmno"; for (int j = 0; j < 3; j++) { for (unsigned i = 0; i < n; i++) nm[j][i] = fill[(i + i / 13) % 15]; nm[j][n] = 0; nm[j][n - 1] = "xyz"[j]; }
    static validator_entry_t ce; static const char *chs[3]; static validator_entry_t *vs[] = {&ce, NULL}; ce = (validator_entry_t){.func = choices_string_validator, .order = ORDER_POST}; chs[0] = nm[0]; chs[1] = nm[1]; chs[2] = nm[2]; ce.data.choices.as_strings = chs; ce.data.choices.count = 3; ce.data.choices.type = VALUE_TYPE_STRING;
    static const char *req[] = {NULL, NULL}, *con[] = {NULL, NULL}; req[0] = nm[1]; con[0] = nm[1];
    argus_option_t t[] = {k == 2 || k == 5 ? (argus_option_t)OPTION_FLAG(0, nm[0], HELP("h")) : (argus_option_t)OPTION_STRING(0, nm[0], HELP("h")), OPTION_STRING(0, nm[1], HELP("h")), k >= 9 && k < 11 ? (argus_option_t)SUBCOMMAND(nm[2], D1, HELP("h"), ACTION(act)) : (argus_option_t)OPTION_INT(0, nm[2], HELP("h")), OPTION_END(), OPTION_END(), OPTION_END()};
    dcase_t c = {.tmpl = t, .argc = 1}; c.argv[0] = w; w[0] = 0;
    switch (k) {
        case 0: sprintf(w, "--%.*s", (int)n - 1 ? (int)n - 1 : 1, n > 1 ? nm[0] : "q"); break;          /* unknown long option */
        case 1: sprintf(w, "--%s", nm[0]); break;                        /* lacks its value */
        case 2: sprintf(w, "--%s=%s", nm[0], nm[1]); break;              /* takes none */
        case 3: sprintf(w, "%s", nm[0]); break;                          /* unusable word */
        case 4: sprintf(w, "--%s=%s", nm[2], nm[0]); break;              /* not a number */
        case 5: t[0].flags = FLAG_REQUIRED; t[1].flags = FLAG_REQUIRED; c.argc = 0; break;
        case 6: t[0].require = req; sprintf(w, "--%s=1", nm[0]); break;
        case 7: t[0].conflict = con; sprintf(w, "--%s=1", nm[0]); c.argv[c.argc++] = "--"; c.argc = 1; { static char w2[700]; sprintf(w2, "--%s=1", nm[1]); c.argv[c.argc++] = w2; } break;
        case 8: t[0].validators = vs; sprintf(w, "--%s=%.*s", nm[0], (int)n - 1, nm[0]); break;
        case 9: t[3] = (argus_option_t)SUBCOMMAND(nm[0], D1, HELP("h"), ACTION(act)); t[0] = t[1] = (argus_option_t)OPTION_FLAG('q', NULL, HELP("h")); t[0].name = "q"; t[1] = (argus_option_t)OPTION_FLAG('z', NULL, HELP("h")); t[1].name = "z"; sprintf(w, "%.*s", (int)n - 1, nm[0]); if (n < 2) return; break; /* ambiguous */
        case 10: t[3] = (argus_option_t)SUBCOMMAND(nm[0], D1, HELP("h"), ACTION(act)); sprintf(w, "%s!", nm[0]); break;
        default: t[0] = (argus_option_t)POSITIONAL_STRING(nm[0], HELP("h")); c.argc = 0;
    }
    static const char *KN[] = {"unknown", "no value", "superfluous value", "word", "not a number", "required", "requires", "conflict", "choice", "ambiguous", "no command", "positional"}; run(&c, KN[k]);
}
static void shorts(uint64_t idx, const void *arg)
{
    (void)arg; unsigned ch = (unsigned)(idx % 94) + 33, before = (unsigned)(idx / 94 % 3), kind = (unsigned)(idx / 282); static char w[16]; if (kind && ch == '-') return;
    argus_option_t t[] = {OPTION_FLAG('a', "apple", HELP("h")), OPTION_FLAG('1', "first", HELP("h")), OPTION_STRING(0, "str", HELP("h")), OPTION_END()}; if (kind) { if (ch == 'a' || ch == '1') return; t[2].sname = (char)ch; }
    dcase_t c = {.tmpl = t, .argc = 1}; c.argv[0] = w; sprintf(w, "-%s%c", before == 0 ? "" : before == 1 ? "a" : "1a", ch); run(&c, kind ? "short without value" : "unknown short");
}
/* relations */
static void relations(uint64_t idx, const void *arg)
{
    (void)arg; unsigned kind = (unsigned)(idx % 4), def = (unsigned)(idx / 4 % 32), i = (unsigned)(idx / 128 % 5), given = (unsigned)(idx / 640 % 32), order = (unsigned)(idx / 20480 % 4), at = (unsigned)(idx / 81920 % 3), extra = (unsigned)(idx / 245760); static const char *N[] = {"alpha", "beta", "alphabet", "gamma", "gam"}; static const char SN[] = "abcde"; static char w[5][20];
    if (kind >= 2 && i) return; if (kind < 2 && (def >> i & 1)) return;
    static argus_option_t t[3][24]; int e = 0; static const char *rel[6]; unsigned nr = 0; argus_option_t *o = t[0];
    if (kind < 2) { for (unsigned j = 0; j < 5; j++) if (def >> j & 1) rel[nr++] = N[j]; rel[nr] = NULL; }
    if (extra && kind != 3) return;
    if (extra & 1) { o[e++] = (argus_option_t)GROUP_START("fruit", FLAGS(FLAG_EXCLUSIVE)); o[e++] = (argus_option_t)OPTION_FLAG('p', "pear", HELP("h")); o[e++] = (argus_option_t)OPTION_FLAG('q', "quince", HELP("h")); if (extra & 2) o[e++] = (argus_option_t)GROUP_END(); }
    if (kind == 3) o[e++] = (argus_option_t)GROUP_START("veg", FLAGS(FLAG_EXCLUSIVE));
    for (unsigned j = 0; j < 5; j++) {
        if (kind == 3 && !(def >> j & 1)) continue;
        o[e] = (argus_option_t)OPTION_FLAG(SN[j], N[j], HELP("h")); if (j == 3) o[e] = (argus_option_t)OPTION_STRING(SN[j], N[j], HELP("h"));
        if (kind == 2 && def >> j & 1) o[e].flags = FLAG_REQUIRED; if (kind < 2 && j == i) { if (kind) o[e].conflict = rel; else o[e].require = rel; } e++;
    }
    if (kind == 3 && !(extra & 2)) o[e++] = (argus_option_t)GROUP_END();
    if (extra & 2) { o[e++] = (argus_option_t)GROUP_START("nuts", FLAGS(extra == 2 ? FLAG_EXCLUSIVE : FLAG_NONE)); o[e++] = (argus_option_t)OPTION_FLAG('x', "hazel", HELP("h")); o[e++] = (argus_option_t)OPTION_FLAG('y', "peanut", HELP("h")); o[e++] = (argus_option_t)GROUP_END(); }
    if (kind == 3) for (unsigned j = 0; j < 5; j++) if (!(def >> j & 1)) { o[e] = j == 3 ? (argus_option_t)OPTION_STRING(SN[j], N[j], HELP("h")) : (argus_option_t)OPTION_FLAG(SN[j], N[j], HELP("h")); e++; }
    o[e] = (argus_option_t)OPTION_END();
    dcase_t c = {.tmpl = o}; if (extra) { c.argv[c.argc++] = extra == 2 ? "-y" : "-q"; } if (at) { if (extra) return; t[1][0] = (argus_option_t)SUBCOMMAND("cmd", o, HELP("h"), ACTION(act)); t[1][1] = (argus_option_t)OPTION_END(); c.tmpl = t[1]; c.argv[c.argc++] = "cmd"; } if (at == 2) { t[2][0] = (argus_option_t)SUBCOMMAND("top", t[1], HELP("h"), ACTION(act)); t[2][1] = (argus_option_t)OPTION_END(); c.tmpl = t[2]; c.argv[0] = "top"; c.argv[c.argc++] = "cmd"; }
    for (unsigned q = 0; q < 5; q++) { unsigned j = order == 0 ? q : order == 1 ? 4 - q : order == 2 ? (q * 2) % 5 : (q * 3 + 1) % 5; if (!(given >> j & 1)) continue; if (order & 1) sprintf(w[j], j == 3 ? "-%cx" : "-%c", SN[j]); else sprintf(w[j], j == 3 ? "--%s=x" : "--%s", N[j]); c.argv[c.argc++] = w[j]; }
    static const char *KN[] = {"require", "conflict", "required", "exclusive"}; char tn[40]; sprintf(tn, "%s def=%02x", KN[kind], def); run(&c, tn);
}
static void needs(uint64_t idx, const void *arg)
{
    (void)arg; unsigned req = (unsigned)(idx % 64), given = (unsigned)(idx / 64 % 64), at = (unsigned)(idx / 4096); argus_option_t t[] = {OPTION_FLAG('f', NULL, HELP("h")), OPTION_INT('n', "nut", HELP("h"), HINT("NN")), OPTION_ARRAY_STRING('l', "leek", HELP("h"), ENV_VAR("LEEK")), POSITIONAL_STRING("source", HELP("h"), HINT("SRC"), OPTL), POSITIONAL_INT("times", HELP("h"), OPTL), OPTION_MAP_INT(0, "mango", HELP("h"), HINT("MM")), OPTION_END()};
    for (int j = 0; j < 6; j++) { if (req >> j & 1) t[j].flags |= FLAG_REQUIRED; } if ((given & 16) && !(given & 8)) return;
    argus_option_t s[] = {SUBCOMMAND("cmd", t, HELP("h"), ACTION(act)), OPTION_END()}; dcase_t c = {.tmpl = at ? s : t}; if (at) c.argv[c.argc++] = "cmd";
    static const char *G[] = {"-f", "--nut=1", NULL, "src", "7", "--mango=a=1"}; for (int j = 0; j < 6; j++) if ((given >> j & 1) && G[j]) c.argv[c.argc++] = G[j]; if (given & 4) { c.nenv = 1; c.ename[0] = "LEEK"; c.evalue[0] = "a"; }
    run(&c, "needs");
}
/* late on the command line and deep */
static void late(uint64_t idx, const void *arg)
{
    (void)arg; static const char *BAD[] = {"--nope", "-q", "-nx", "--num=", "-n", "--alpha=1", "-ix", "-i5-", "-mk", "-fx", "zzz", "-byes!", "-n99", "-v0", "c", "cmd9"}; static const char *OK[] = {"-a", "-lx", "-i1-3", "-mk=1", "-n5", "-f1.5"};
    unsigned n = (unsigned)(idx % 40); idx /= 40; unsigned b = (unsigned)(idx % 16); idx /= 16; unsigned o = (unsigned)(idx % 6); idx /= 6; unsigned depth = (unsigned)(idx % 10); n = n < 20 ? n : n < 30 ? n * 4 : 40 + n * 7; if (n > 340) return;
    static argus_option_t t[12][16]; static char cn[12][8]; dcase_t c = {.tmpl = t[0]}; char tn[60]; static validator_entry_t rg; rg = (validator_entry_t){.func = range_validator, .order = ORDER_POST}; rg.data.range.max = 9; static validator_entry_t *vs[] = {&rg, NULL};
    for (int i = 10; i >= 0; i--) { int e = 0; t[i][e++] = (argus_option_t)OPTION_FLAG('a', "alpha", HELP("h")); t[i][e] = (argus_option_t)OPTION_INT('n', "num", HELP("h")); t[i][e++].validators = vs; t[i][e++] = (argus_option_t)OPTION_FLOAT('f', "flt", HELP("h")); t[i][e++] = (argus_option_t)OPTION_BOOL('b', "boo", HELP("h")); t[i][e++] = (argus_option_t)OPTION_ARRAY_STRING('l', "ls", HELP("h")); t[i][e++] = (argus_option_t)OPTION_ARRAY_INT('i', "li", HELP("h")); t[i][e++] = (argus_option_t)OPTION_MAP_INT('m', "map", HELP("h")); if (i < 10) { sprintf(cn[i], "cmd%d", i); t[i][e++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h"), ACTION(act)); } t[i][e] = (argus_option_t)OPTION_END(); }
    for (unsigned i = 0; i < depth; i++) c.argv[c.argc++] = cn[i]; for (unsigned i = 0; i < n; i++) c.argv[c.argc++] = OK[o]; c.argv[c.argc++] = BAD[b]; sprintf(tn, "late depth=%u", depth); run(&c, tn);
}
void mc_register(int thorough)
{
    L = thorough ? 5 : 4; VL = thorough ? 6 : 5;
    static const char *N[] = {"words/T0", "words/T1", "words/T2", "words/T3", "words/C0", "words/D0", "words/E0", "words/F0", "words/G0"};
    for (int t = 0; t < NTB; t++) mc_space(N[t], seq_count(TB[t].n, L), words, (void *)(intptr_t)t);
    mc_space("environment", 25600 * 3, envs, NULL);
    mc_space("values", seq_count(9, VL) * 14 * 5, values, NULL);
    mc_space("limits", 19600ull * 5, limits, NULL);
    mc_space("lengths", 300 * 12, lengths, NULL); mc_space("shorts", 94 * 3 * 2, shorts, NULL);
    mc_space("relations", 81920ull * 12, relations, NULL); mc_space("needs", 4096 * 2, needs, NULL); mc_space("late", 40ull * 16 * 6 * 10, late, NULL);
}
