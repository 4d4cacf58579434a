/* C01: every word is routed exactly once by the documented grammar. */
#include "model.h"
const char *mc_property = "C01";
const char *mc_bounds =
    "every sequence of up to L words (up to L-1 also with six sets of presentation marks and texts on every entry) over an alphabet of 21-29 words (all option spellings, clusters, '--', '-', "
    "numeric words, empty and unknown words), L=3 quick / 4 thorough, on 10 option tables (optional, numeric, defaulted, exiting, "
    "multi-value and absent positionals, subcommands); every single word of up to 5 (6) characters over {- a s 5 = . x} and "
    "every pair of words of up to 3 characters; every long-name length 1..140; every byte value at 12 places of a word and as an option letter; numeric words of 2..130 characters in five forms at the first and second positional; one word repeated 0..299 times (quick: 46 lengths) between others; clusters of 1..300 letters; tables of 1..100 options addressed at every position in every spelling; 1..100 positionals with 0..n+2 words; below chains of 1, 2, 3 and 8 (1..8) commands on seven tables every sequence of up to 2 (3) words, with every one of 4 beginnings at the root and before the last command. Each handler call is logged: the log "
    "(order, names, values), the outcome and all values must equal the model's.";

ARGUS_OPTIONS(TA, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), OPTION_FLAG('b', "beta", HELP("h"), LOGF),
    OPTION_STRING('s', "str", HELP("h"), LOGS), OPTION_INT('n', "num", HELP("h"), LOGI),
    POSITIONAL_STRING("p", HELP("h"), OPTL, LOGS), POSITIONAL_STRING("q", HELP("h"), OPTL, LOGS), )
ARGUS_OPTIONS(TB, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), OPTION_FLAG('5', "five", HELP("h"), LOGF),
    OPTION_STRING('s', "str", HELP("h"), LOGS), OPTION_STRING('.', "dot", HELP("h"), LOGS),
    POSITIONAL_INT("p", HELP("h"), OPTL, LOGI), POSITIONAL_STRING("q", HELP("h"), OPTL, LOGS), POSITIONAL_FLOAT("r", HELP("h"), OPTL, LOGD), )
ARGUS_OPTIONS(TC, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), OPTION_STRING('s', "str", HELP("h"), LOGS), OPTION_FLAG('5', "five", HELP("h"), LOGF),
    POSITIONAL_MANY_INT("p", HELP("h"), LOGVI), )
ARGUS_OPTIONS(TD, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), OPTION_STRING('s', "str", HELP("h"), LOGS),
    POSITIONAL_FLOAT("f", HELP("h"), LOGD), POSITIONAL_MANY_STRING("p", HELP("h"), LOGVS), )
ARGUS_OPTIONS(TE, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), OPTION_STRING('s', "str", HELP("h"), LOGS), OPTION_FLOAT('5', "num", HELP("h"), LOGD), )
ARGUS_OPTIONS(TF_run, OPTION_STRING('s', "str", HELP("h"), LOGS), OPTION_FLAG('x', "xx", HELP("h"), LOGF), POSITIONAL_INT("n", HELP("h"), OPTL, LOGI), POSITIONAL_STRING("m", HELP("h"), OPTL, LOGS), )
ARGUS_OPTIONS(TF_rm, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), POSITIONAL_MANY_FLOAT("f", HELP("h"), LOGVD), )
ARGUS_OPTIONS(TF, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), OPTION_STRING('s', "str", HELP("h"), LOGS), POSITIONAL_STRING("p", HELP("h"), OPTL, LOGS),
    SUBCOMMAND("run", TF_run, HELP("h")), SUBCOMMAND("rm", TF_rm, HELP("h")), )
/* names that are prefixes of one another; short names that are digits and punctuation */
ARGUS_OPTIONS(TG, OPTION_FLAG('a', "a", HELP("h"), LOGF), OPTION_STRING('A', "alpha", HELP("h"), LOGS), OPTION_FLAG('s', "alp", HELP("h"), LOGF),
    OPTION_STRING('=', "str", HELP("h"), LOGS), OPTION_FLAG('.', "st", HELP("h"), LOGF), POSITIONAL_STRING("p", HELP("h"), OPTL, LOGS), )
/* options without a short or without a long name, multi-valued float positional */
ARGUS_OPTIONS(TH, OPTION_FLAG('a', NULL, HELP("h"), LOGF), OPTION_STRING(0, "str", HELP("h"), LOGS), OPTION_STRING('s', NULL, HELP("h"), LOGS),
    OPTION_FLAG(0, "alpha", HELP("h"), LOGF), POSITIONAL_INT("i", HELP("h"), OPTL, LOGI), POSITIONAL_MANY_FLOAT("p", HELP("h"), OPTL, LOGVD), )

/* the standard help and version options among the others: they are options like any other, so a word behind '--' never is one */
#define HELPX OPTION_FLAG('h', "help", HELP("h"), LOGF, FLAGS(FLAG_EXIT)), OPTION_FLAG('V', "version", HELP("h"), LOGF, FLAGS(FLAG_EXIT))
ARGUS_OPTIONS(TI_run, HELPX, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), OPTION_STRING('s', "str", HELP("h"), LOGS), POSITIONAL_MANY_STRING("p", HELP("h"), OPTL, LOGVS), )
ARGUS_OPTIONS(TI, HELPX, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), OPTION_STRING('s', "str", HELP("h"), LOGS), SUBCOMMAND("help", TI_run, HELP("h")), POSITIONAL_STRING("p", HELP("h"), OPTL, LOGS), POSITIONAL_STRING("q", HELP("h"), OPTL, LOGS), )

/* numeric positionals with defaults, an environment variable and validators, and a multi-value one behind them */
#define DI .value = {.as_int64 = 3}, .default_value = {.as_int64 = 3}, .have_default = true, .is_set = true, OPTL
#define DFL .value = {.as_float = 2.5}, .default_value = {.as_float = 2.5}, .have_default = true, .is_set = true, OPTL
ARGUS_OPTIONS(TJ, OPTION_FLAG('a', "alpha", HELP("h"), LOGF), OPTION_STRING('s', "str", HELP("h"), LOGS), OPTION_FLAG('5', "five", HELP("h"), LOGF),
    POSITIONAL_INT("p", HELP("h"), LOGI, DI), POSITIONAL_FLOAT("f", HELP("h"), LOGD, DFL, ENV_VAR("NOT_SET_HERE"), VALIDATOR(V_RANGE(-99, 99))), POSITIONAL_MANY_INT("q", HELP("h"), OPTL, LOGVI), )
static const struct { const char *name; const argus_option_t *t; } T[] = {{"A", TA}, {"B", TB}, {"C", TC}, {"D", TD}, {"E", TE}, {"F", TF}, {"G", TG}, {"H", TH}, {"I", TI}, {"J", TJ}};
#define NT 10
static const char *W[] = {"-a", "-ab", "-s", "-sv", "-as", "-asv", "--str", "--str=v", "--str=", "--alpha", "--alpha=1", "--", "-", "-5", "-.5", "x", "5", "", "-q", "--nope", "-n7", "-5a", "--STR", "--alph", "--alphaa=1", "-A", "--str ", "-s=", "-1e2"};
static const char *WF[] = {"-a", "-s", "-sv", "--str=v", "--", "-", "-5", "-.5", "x", "5", "run", "ru", "r", "rm", "-x", "--alpha", "--alpha=1", "--str", "", "-sx", "-xs"};
static const char *WI[] = {"--help", "-h", "--version", "-V", "--", "x", "-a", "-s", "-sv", "--str", "--str=--help", "--help=1", "-ah", "-ha", "-hs", "-sh", "help", "he", "-", "-5", "", "--hel", "--help ", "-V=1"};
#define NWI (sizeof WI / sizeof *WI)
#define NW (sizeof W / sizeof *W)
#define NWF (sizeof WF / sizeof *WF)
static unsigned L;
static unsigned nwords(int t) { return T[t].t == TF ? NWF : T[t].t == TI ? NWI : NW; }
static void words(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; unsigned k[8]; const char **w = T[t].t == TF ? WF : T[t].t == TI ? WI : W;
    unsigned n = seq_decode(idx, nwords(t), L, k);
    dcase_t c = {.tmpl = T[t].t, .argc = (int)n};
    for (unsigned i = 0; i < n; i++) c.argv[i] = w[k[i]];
    m_check(&c, T[t].name);
}
static const char CH[] = "-as5=.x";
#define NC 7
static unsigned decode_word(uint64_t idx, unsigned maxlen, char *out)
{
    unsigned k[8], n = seq_decode(idx, NC, maxlen, k);
    for (unsigned i = 0; i < n; i++) out[i] = CH[k[i]];
    out[n] = 0;
    return n;
}
static unsigned CL1;
static void chars1(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; char w[16];
    static const char *follow[] = {NULL, "v", "-a", "7"};
    decode_word(idx / 4, CL1, w);
    dcase_t c = {.tmpl = T[t].t, .argc = 1}; c.argv[0] = w;
    if (follow[idx % 4]) c.argv[c.argc++] = follow[idx % 4];
    m_check(&c, T[t].name);
}
static void chars2(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; char w[16], v[16]; uint64_t n = seq_count(NC, 3);
    decode_word(idx / n, 3, w); decode_word(idx % n, 3, v);
    dcase_t c = {.tmpl = T[t].t, .argc = 2}; c.argv[0] = w; c.argv[1] = v;
    m_check(&c, T[t].name);
}
/* long names of every length: exact, one character short, one character more, other last character */
static void longname(uint64_t idx, const void *arg)
{
    (void)arg;
    int len = 1 + (int)(idx / 10), kind = (int)(idx / 2 % 5), flag = (int)(idx % 2);
    static char name[200], other[200], word[400];
    memset(name, 'n', (size_t)len); name[len] = 0; if (len > 1) name[len - 1] = 'z';
    strcpy(other, name); other[len - 1] = 'y';
    argus_option_t tbl[] = { OPTION_STRING('s', name, HELP("h"), LOGS), OPTION_FLAG('o', other, HELP("h"), LOGF), OPTION_END() };
    if (kind == 0) snprintf(word, sizeof word, "--%s=val", name);
    if (kind == 1) snprintf(word, sizeof word, "--%s", name);
    if (kind == 2) snprintf(word, sizeof word, "--%.*s", len - 1, name);
    if (kind == 3) snprintf(word, sizeof word, "--%sz", name);
    if (kind == 4) snprintf(word, sizeof word, "--%s", other);
    dcase_t c = {.tmpl = tbl, .argc = 2}; c.argv[0] = word; c.argv[1] = flag ? "-o" : "--";
    m_check(&c, "longname");
}
/* every byte value in five places of a word, as an option's letter too */
static void bytes(uint64_t idx, const void *arg)
{
    unsigned ch = (unsigned)(idx % 255) + 1, how = (unsigned)(idx / 255 % 12), letter = (unsigned)(idx / 255 / 12 % 3); int t = (int)(intptr_t)arg; static const char *F[] = {"%c", "-%c", "--%c", "-a%c", "-%ca", "--alpha%c", "-s%c", "--str=%c", "%c5", "-%c5", "--%calpha", "-a%ca"};
    if (how == 8 && strchr(" \t\n\v\f\r+", (int)ch)) return; /* numbers with leading white space: not specified */
    char w[16]; snprintf(w, sizeof w, F[how], (int)ch); argus_option_t tb[12]; int n = 0; const argus_option_t *src = T[t].t; for (; src[n].type != TYPE_NONE; n++) tb[n] = src[n]; tb[n] = src[n];
    if (letter) { for (int i = 0; i < n; i++) if (tb[i].type == TYPE_OPTION && tb[i].sname == (char)ch) return; if (ch == '-' || ch == ' ') return; for (int i = 0, k = 0; i < n; i++) if (tb[i].type == TYPE_OPTION && (tb[i].value_type == VALUE_TYPE_FLAG) == (letter == 1) && tb[i].lname && !k++) tb[i].sname = (char)ch; }
    dcase_t c = {.tmpl = tb, .argc = 2}; c.argv[0] = w; c.argv[1] = "7"; NOTE("letter %u ", letter); m_check(&c, T[t].name);
}
/* repetition: n times one word between two others; clusters of n letters */
static const char *RW[] = {"-a", "-sv", "--str=v", "x", "5", "-5", "--alpha", "-", "--", "-ab", "run", ""};
static bool deep;
static int lengthof(uint64_t i) { if (deep) return (int)i; int k = (int)i; return k < 25 ? k : k < 30 ? k + 5 : k < 35 ? k + 32 : k < 40 ? k + 91 : k < 45 ? k + 214 : 299; }
static void repeat(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; unsigned ln = deep ? 300 : 46; int n = lengthof(idx % ln); idx /= ln; const char *w = RW[idx % 12], *first = RW[idx / 12 % 12], *last = RW[idx / 144]; dcase_t c = {.tmpl = T[t].t};
    c.argv[c.argc++] = first; for (int i = 0; i < n; i++) c.argv[c.argc++] = w; c.argv[c.argc++] = last; d_trace_on = n < 200; m_check(&c, T[t].name); d_trace_on = 1;
}
static void cluster(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; int n = (int)(idx % 300) + 1; idx /= 300; static const char *TAIL[] = {"", "s", "sv", "q", "-", "5"}; char w[400]; w[0] = '-'; memset(w + 1, 'a', (size_t)n); strcpy(w + 1 + n, TAIL[idx % 6]);
    dcase_t c = {.tmpl = T[t].t, .argc = 2}; c.argv[0] = w; c.argv[1] = idx / 6 ? "x" : "-a"; m_check(&c, T[t].name);
}
/* tables of n entries: the one at each position is addressed by each spelling; n positionals with k words */
static void wide(uint64_t idx, const void *arg)
{
    (void)arg; int n = (int)(idx % 100) + 1; idx /= 100; int at = (int)(idx % 100); idx /= 100; unsigned how = (unsigned)(idx % 5), kind = (unsigned)(idx / 5 % 2), rest = (unsigned)(idx / 10); if (at >= n) return;
    static char nm[100][8]; static argus_option_t tb[102]; static const char L52[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"; char w[3][32];
    for (int i = 0; i < n; i++) { sprintf(nm[i], "o%d", i); char sn = i < 52 ? L52[i] : 0; if (kind) tb[i] = (argus_option_t)OPTION_STRING(sn, nm[i], HELP("h"), LOGS); else tb[i] = (argus_option_t)OPTION_FLAG(sn, nm[i], HELP("h"), LOGF); }
    tb[n] = (argus_option_t)OPTION_END(); if (rest) { tb[n] = (argus_option_t)POSITIONAL_STRING("p", HELP("h"), OPTL, LOGS); tb[n + 1] = (argus_option_t)OPTION_END(); }
    sprintf(w[0], how == 0 ? "--%s" : how == 1 ? "--%s=v" : how == 2 ? "-%.0s%c" : how == 3 ? "-%.0s%cv" : "--%s0", nm[at], at < 52 ? L52[at] : '?'); dcase_t c = {.tmpl = tb, .argc = 3}; c.argv[0] = w[0]; c.argv[1] = "x"; c.argv[2] = "--o0"; m_check(&c, "wide");
}
static void manypos(uint64_t idx, const void *arg)
{
    (void)arg; int n = (int)(idx % 100) + 1, k = (int)(idx / 100 % 103), kind = (int)(idx / 10300); if (k > n + 2) return; static char nm[100][8]; static argus_option_t tb[102]; dcase_t c = {.tmpl = tb};
    for (int i = 0; i < n; i++) { sprintf(nm[i], "p%d", i); if (kind == 1 && i % 2) tb[i] = (argus_option_t)POSITIONAL_INT(nm[i], HELP("h"), OPTL, LOGI); else if (kind == 2 && i == n - 1) tb[i] = (argus_option_t)POSITIONAL_MANY_STRING(nm[i], HELP("h"), OPTL, LOGVS); else tb[i] = (argus_option_t)POSITIONAL_STRING(nm[i], HELP("h"), OPTL, LOGS); }
    tb[n] = (argus_option_t)OPTION_END(); for (int i = 0; i < k; i++) c.argv[c.argc++] = i % 2 ? "-5" + (kind != 1) : "x"; m_check(&c, "positionals");
}
/* every word sequence below a chain of commands, with words at the levels above */
static void chain(uint64_t idx, const void *arg)
{
    (void)arg; static const int DEP[] = {1, 2, 3, 8}; static const char *PRE[] = {NULL, "-a", "--str=v", "p"}; static argus_option_t t[9][24]; static const char *CN[] = {"go", "go", "gone", "x", "run", "5", "go-go", "z"};
    int tab = (int)(idx % 7); idx /= 7; int d = deep ? 1 + (int)(idx % 8) : DEP[idx % 4]; idx /= deep ? 8 : 4; unsigned a = (unsigned)(idx % 4), b = (unsigned)(idx / 4 % 4); idx /= 16; if (tab >= 5) tab++;   /* F has commands of its own */
    unsigned k[8], n = seq_decode(idx, NW, deep ? 3 : 2, k); char nm[40]; if (d == 1 && b) return;
    for (int l = d; l >= 0; l--) {
        const argus_option_t *src = l == d ? T[tab].t : TA; int m = 0;
        for (; src[m].type != TYPE_NONE; m++) t[l][m] = src[m];
        if (l < d) t[l][m++] = (argus_option_t)SUBCOMMAND(CN[l], t[l + 1], HELP("h"));
        t[l][m] = (argus_option_t)OPTION_END();
    }
    dcase_t c = {.tmpl = t[0]};
    if (a) c.argv[c.argc++] = PRE[a];
    for (int l = 0; l < d; l++) { if (l == d - 1 && b) c.argv[c.argc++] = PRE[b]; c.argv[c.argc++] = CN[l]; }
    for (unsigned i = 0; i < n; i++) c.argv[c.argc++] = W[k[i]];
    snprintf(nm, sizeof nm, "%s below %d commands", T[tab].name, d); m_check(&c, nm);
}
/* numeric words of every length, negative ones included, at the first and at the next positional */
static void longnum(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg, len = (int)(idx % 120) + 1, form = (int)(idx / 120 % 5), follow = (int)(idx / 600 % 4), lead = (int)(idx / 2400); char z[130], w[160]; memset(z, '0', (size_t)len); z[len] = 0;
    static const char *F[] = {"-%s5", "-.%s5", "-1.5%s", "-%s", "-1.%se-3"}; static const char *N[] = {"x", "-5", "7", "-a"}; snprintf(w, sizeof w, F[form], z);
    dcase_t c = {.tmpl = T[t].t, .argc = 0}; if (lead) c.argv[c.argc++] = lead == 1 ? "5" : "-s"; c.argv[c.argc++] = w; c.argv[c.argc++] = N[follow]; m_check(&c, T[t].name);
}
void mc_register(int thorough)
{
    d_space("chain", 7ull * (thorough ? 8 : 4) * 16 * seq_count(NW, thorough ? 3 : 2), chain, NULL);
    d_trace_on = 1;
    static char nm[64];
    deep = thorough; L = thorough ? 4 : 3; CL1 = thorough ? 6 : 5;
    for (int t = 0; t < NT; t++) {
        intptr_t a = t;
        snprintf(nm, sizeof nm, "words/%s", T[t].name);
        d_space(nm, seq_count(nwords(t), L), words, (void *)a);
        d_space_dressed(nm, seq_count(nwords(t), L - 1), words, (void *)a);
        snprintf(nm, sizeof nm, "chars1/%s", T[t].name);
        d_space(nm, seq_count(NC, CL1) * 4, chars1, (void *)a);
        snprintf(nm, sizeof nm, "chars2/%s", T[t].name);
        d_space(nm, seq_count(NC, 3) * seq_count(NC, 3), chars2, (void *)a);
        snprintf(nm, sizeof nm, "bytes/%s", T[t].name); d_space(nm, 255 * 12 * 3, bytes, (void *)a);
        snprintf(nm, sizeof nm, "repeat/%s", T[t].name); d_space(nm, (thorough ? 300 : 46) * 12 * 12 * (thorough ? 12 : 3), repeat, (void *)a);
        snprintf(nm, sizeof nm, "numbers/%s", T[t].name); d_space(nm, 120 * 5 * 4 * 3, longnum, (void *)a);
        snprintf(nm, sizeof nm, "cluster/%s", T[t].name); d_space(nm, 300 * 12, cluster, (void *)a);
    }
    d_space("longname", 140 * 10, longname, NULL); d_space("wide", 100 * 100 * 20, wide, NULL); d_space("many positionals", 100 * 103 * 3, manypos, NULL);
}
