/* C02: all spellings of the same option assignment are equivalent; occurrences of different things commute. */
#include "model.h"
#include "edits.h"
const char *mc_property = "C02";
const char *mc_bounds =
    "every sequence of up to K items (K=3 quick, 4 thorough) out of 27 option assignments (flags, every value type, good and bad "
    "values, values that look like options or contain '=' and ',') and positionals, at the root and inside a command; for each "
    "sequence every combination of the four spellings of its valued options must give the same outcome (status, set state, "
    "values, counts, number of handler runs) as the first, and every exchange of neighbours that are an option and a positional, or two different "
    "options, must leave a successful outcome unchanged; every one-byte edit (255 byte values) of 3 or 4 base values for each valued option, in all four spellings and behind a cluster of one to four flags, at the root and in a command; every pair of first and last byte; values of 0..5000 bytes; every way of clustering up to 4 (5) short options behind one dash, with "
    "the last value attached or following, must equal the unclustered form.";

static unsigned calls[2];   /* how often the handler of a flag ran */
static int bump(argus_t *a, argus_option_t *o, char *v) { (void)a; (void)v; calls[o->sname == 'b']++; o->value.as_bool = true; return 0; }
#define TAB(EXTRA) OPTION_FLAG('a', "alpha", HELP("h"), HANDLER(bump)), OPTION_FLAG('b', "beta-b", HELP("h"), REQUIRE("str"), HANDLER(bump)), \
    OPTION_STRING('s', "str", HELP("h")), OPTION_INT('n', "num", HELP("h"), VALIDATOR(V_RANGE(-9, 99))), OPTION_BOOL('o', "on", HELP("h")), \
    OPTION_FLOAT('f', "flo", HELP("h")), OPTION_ARRAY_STRING('l', "list", HELP("h")), OPTION_ARRAY_INT('i', "ints", HELP("h"), FLAGS(FLAG_SORTED)), \
    OPTION_MAP_INT('m', "map", HELP("h")), POSITIONAL_STRING("p", HELP("h"), OPTL), POSITIONAL_STRING("q", HELP("h"), OPTL), EXTRA
ARGUS_OPTIONS(sub, TAB())
ARGUS_OPTIONS(root, TAB() SUBCOMMAND("run", sub, HELP("h")), )

typedef struct { char s; const char *l, *v; } item_t; /* s=0: positional with word l */
static const item_t I[] = {
    {'a', "alpha", NULL}, {'b', "beta-b", NULL}, {'s', "str", "v"}, {'s', "str", "-a"}, {'s', "str", "--"}, {'s', "str", "a=b"}, {'s', "str", "=x"}, {'s', "str", ""},
    {'s', "str", "--alpha"}, {'n', "num", "7"}, {'n', "num", "-5"}, {'n', "num", "x"}, {'n', "num", "100"}, {'o', "on", "yes"}, {'o', "on", "maybe"},
    {'f', "flo", "-1.5"}, {'f', "flo", "1.5x"}, {'l', "list", "a,b"}, {'l', "list", "c"}, {'i', "ints", "3,1-2"}, {'i', "ints", "9,z"}, {'m', "map", "k=1"}, {'m', "map", "j=2,k=3"}, {'m', "map", "-j=2"}, {'l', "list", "-a,--"},
    {0, "pos", NULL}, {0, "5", NULL},
};
#define NI (sizeof I / sizeof *I)
static unsigned K;
static void put(dcase_t *c, const item_t *it, int sp, char (*buf)[64], int *nb)
{
    if (!it->s) { c->argv[c->argc++] = it->l; return; }
    char *w = buf[(*nb)++];
    if (!it->v) { if (sp) sprintf(w, "-%c", it->s); else sprintf(w, "--%s", it->l); c->argv[c->argc++] = w; return; }
    switch (sp) {
        case 0: sprintf(w, "--%s", it->l); c->argv[c->argc++] = w; c->argv[c->argc++] = it->v; break;
        case 1: sprintf(w, "--%s=%s", it->l, it->v); c->argv[c->argc++] = w; break;
        case 2: sprintf(w, "-%c", it->s); c->argv[c->argc++] = w; c->argv[c->argc++] = it->v; break;
        case 3: sprintf(w, "-%c%s", it->s, it->v); c->argv[c->argc++] = w; break;
    }
}
static bool run(const dcase_t *c, char *dump, size_t sz)
{
    drun_t r; calls[0] = calls[1] = 0;
    d_begin(&r, c); d_parse(&r);
    d_dump(&r, dump, sz); snprintf(dump + strlen(dump), sz - strlen(dump), " handlers ran %u,%u times", calls[0], calls[1]);
    bool ok = !r.exited && r.status == 0;
    if (!r.exited) d_free(&r);
    d_end(&r);
    mc_trans((uint64_t)c->argc + 1); mc_exec(1);
    return ok;
}
static char A[1 << 14], B[1 << 14];
static void same(const dcase_t *c, const char *what)
{
    run(c, B, sizeof B);
    if (strcmp(A, B)) { d_note_case(c, "  vs"); mc_fail("%s: [%.180s] but [%.180s]", what, A, B); }
}
static void seqs(uint64_t idx, const void *arg)
{
    unsigned k[8], n = seq_decode(idx, NI, K, k); bool in_sub = arg != NULL;
    char buf[16][64]; int nb = 0;
    dcase_t c0 = {.tmpl = root};
    if (in_sub) c0.argv[c0.argc++] = "run";
    dcase_t c = c0;
    for (unsigned i = 0; i < n; i++) put(&c, &I[k[i]], 0, buf, &nb);
    d_note_case(&c, "std");
    bool ok = run(&c, A, sizeof A);
    mc_state(mc_mixs(in_sub, A));
    /* spellings: flags have two, valued options four (attached empty text is not a spelling of the empty value) */
    unsigned radix[8]; uint64_t total = 1;
    for (unsigned i = 0; i < n; i++) { const item_t *it = &I[k[i]]; radix[i] = !it->s ? 1 : it->v ? 4 : 2; total *= radix[i]; }
    for (uint64_t s = 1; s < total; s++) {
        uint64_t q = s; bool skip = false; c = c0; nb = 0;
        for (unsigned i = 0; i < n; i++) {
            unsigned sp = (unsigned)(q % radix[i]); q /= radix[i];
            if (sp == 3 && !I[k[i]].v[0]) skip = true;
            if (!skip) put(&c, &I[k[i]], (int)sp, buf, &nb);
        }
        if (!skip) same(&c, "another spelling differs");
    }
    if (!ok) return;
    for (unsigned i = 0; i + 1 < n; i++) {
        const item_t *x = &I[k[i]], *y = &I[k[i + 1]];
        if (x->s == y->s) continue; /* two positionals, or two occurrences of one option */
        c = c0; nb = 0;
        for (unsigned j = 0; j < n; j++) put(&c, &I[k[j == i ? i + 1 : j == i + 1 ? i : j]], (int)(j % 4 == 3 ? 1 : j % 3), buf, &nb);
        same(&c, "order of independent words matters");
    }
}
/* clusters */
static const item_t CI[] = {{'a', 0, NULL}, {'b', 0, NULL}, {'s', 0, "v"}, {'s', 0, "=ab"}, {'n', 0, "7"}, {'n', 0, "x"}, {'l', 0, "a,b"}, {'m', 0, "k=1"}, {'o', 0, "no"}, {'z', 0, NULL}, {'s', 0, "--"}, {'s', 0, "-a"}, {'l', 0, "--b"}};
#define NCI (sizeof CI / sizeof *CI)
static unsigned KC;
static void clusters(uint64_t idx, const void *arg)
{
    unsigned k[8], n = seq_decode(idx, NCI, KC, k); bool in_sub = arg != NULL;
    if (n < 2) return;
    char buf[16][64]; int nb = 0;
    dcase_t c0 = {.tmpl = root};
    if (in_sub) c0.argv[c0.argc++] = "run";
    dcase_t c = c0;
    for (unsigned i = 0; i < n; i++) put(&c, &CI[k[i]], 2, buf, &nb);
    d_note_case(&c, "std");
    run(&c, A, sizeof A);
    mc_state(mc_mixs(in_sub + 2, A));
    for (unsigned merge = 0; merge < 1u << (n - 1); merge++) for (unsigned att = 0; att < 1u << n; att++) {
        bool bad = false; c = c0; nb = 0; char *w = NULL;
        for (unsigned i = 0; i < n && !bad; i++) {
            const item_t *it = &CI[k[i]];
            bool m = i > 0 && (merge >> (i - 1) & 1);
            if (m && CI[k[i - 1]].v) { bad = true; break; }
            if (!it->v && (att >> i & 1)) { bad = true; break; }
            if (m) sprintf(w + strlen(w), "%c", it->s);
            else { w = buf[nb++]; sprintf(w, "-%c", it->s); c.argv[c.argc++] = w; }
            if (it->v) { if (att >> i & 1) strcat(w, it->v); else c.argv[c.argc++] = it->v; }
        }
        if (!bad) same(&c, "clustered form differs");
    }
}
/* a value behind two, three and four flags */
static void behind(const item_t *it, dcase_t c0)
{
    static char w[6100]; static const char *const FL[] = {"aa", "aba", "aaaa"};
    for (int f = 0; f < 3; f++) {
        dcase_t c = c0; int fl = (int)strlen(FL[f]); static char one[5][3];
        for (int i = 0; i < fl; i++) { sprintf(one[i], "-%c", FL[f][i]); c.argv[c.argc++] = one[i]; }
        sprintf(one[4], "-%c", it->s); c.argv[c.argc++] = one[4]; c.argv[c.argc++] = it->v; run(&c, A, sizeof A);
        for (int at = 0; at < 2; at++) if (!at || it->v[0]) { c = c0; sprintf(w, "-%s%c%s", FL[f], it->s, at ? it->v : ""); c.argv[c.argc++] = w; if (!at) c.argv[c.argc++] = it->v; same(&c, "clustered form differs"); }
    }
}
/* every one-byte edit of a value, in every spelling: the forms must agree with '-n value' */
static const item_t EI[] = {{'s', "str", "val"}, {'s', "str", "a=b"}, {'s', "str", "-x"}, {'n', "num", "12"}, {'n', "num", "-5"}, {'n', "num", "0"}, {'o', "on", "yes"}, {'o', "on", "1"}, {'o', "on", "off"}, {'f', "flo", "1.5"}, {'f', "flo", "-2"}, {'f', "flo", "1e2"}, {'l', "list", "a,b"}, {'l', "list", "x"}, {'l', "list", ",y"}, {'i', "ints", "3,1"}, {'i', "ints", "1-2"}, {'i', "ints", "-4"}, {'m', "map", "k=1"}, {'m', "map", "j=2,k=3"}, {'m', "map", "=4"}, {'s', "str", "--"}, {'l', "list", "--x"}, {'i', "ints", "--1"}};
#define NEI (sizeof EI / sizeof *EI)
static void edits(uint64_t idx, const void *arg)
{
    (void)arg; item_t it = EI[idx % NEI]; idx /= NEI; bool in_sub = idx % 2; idx /= 2; static char v[40], w[60]; char buf[16][64]; int nb = 0;
    if (!edit_apply(it.v, idx, v)) return;
    it.v = v; dcase_t c0 = {.tmpl = root}; if (in_sub) c0.argv[c0.argc++] = "run";
    dcase_t c = c0; put(&c, &it, 2, buf, &nb); d_note_case(&c, "std"); run(&c, A, sizeof A); mc_state(mc_mixs(in_sub, A));
    for (int sp = 0; sp < 4; sp++) if (sp != 2 && (sp != 3 || v[0])) { c = c0; nb = 0; put(&c, &it, sp, buf, &nb); same(&c, "another spelling differs"); }
    c = c0; c.argv[c.argc++] = "-a"; nb = 0; put(&c, &it, 0, buf, &nb); run(&c, A, sizeof A);
    for (int at = 0; at < 2; at++) if (!at || v[0]) { c = c0; sprintf(w, "-a%c%s", it.s, at ? v : ""); c.argv[c.argc++] = w; if (!at) c.argv[c.argc++] = v; same(&c, "clustered form differs"); }
    behind(&it, c0);
}
/* a value in every spelling, alone and behind flags */
static void forms(const item_t *it, bool in_sub)
{
    static char w[4][6000]; dcase_t c0 = {.tmpl = root}; if (in_sub) c0.argv[c0.argc++] = "run";
    dcase_t c = c0; sprintf(w[0], "-%c", it->s); c.argv[c.argc++] = w[0]; c.argv[c.argc++] = it->v; d_note_case(&c, "std"); run(&c, A, sizeof A); mc_state(mc_mixs(in_sub, A));
    c = c0; sprintf(w[0], "--%s", it->l); c.argv[c.argc++] = w[0]; c.argv[c.argc++] = it->v; same(&c, "'--name value' differs");
    c = c0; sprintf(w[0], "--%s=%s", it->l, it->v); c.argv[c.argc++] = w[0]; same(&c, "'--name=value' differs");
    if (it->v[0]) { c = c0; sprintf(w[0], "-%c%s", it->s, it->v); c.argv[c.argc++] = w[0]; same(&c, "'-nvalue' differs"); }
    c = c0; c.argv[c.argc++] = "-a"; sprintf(w[0], "-%c", it->s); c.argv[c.argc++] = w[0]; c.argv[c.argc++] = it->v; run(&c, A, sizeof A);
    c = c0; sprintf(w[0], "-a%c", it->s); c.argv[c.argc++] = w[0]; c.argv[c.argc++] = it->v; same(&c, "clustered '-an value' differs");
    if (it->v[0]) { c = c0; sprintf(w[0], "-a%c%s", it->s, it->v); c.argv[c.argc++] = w[0]; same(&c, "clustered '-anvalue' differs"); }
    if (strlen(it->v) < 64) behind(it, c0);
}
/* every pair of a first and a last byte */
static void ends(uint64_t idx, const void *arg)
{
    (void)arg; static const struct { item_t it; const char *mid; } E[] = {{{'s', "str", 0}, ""}, {{'s', "str", 0}, "x"}, {{'l', "list", 0}, "a,b"}, {{'m', "map", 0}, "k=1"}, {{'n', "num", 0}, "7"}};
    unsigned e = (unsigned)(idx % 5); idx /= 5; bool in_sub = idx >= 65025; idx %= 65025; char v[16]; sprintf(v, "%c%s%c", (int)(idx % 255 + 1), E[e].mid, (int)(idx / 255 + 1)); item_t it = E[e].it; it.v = v; forms(&it, in_sub);
}
/* texts of every length */
static void lengths(uint64_t idx, const void *arg)
{
    (void)arg; static const item_t E[] = {{'s', "str", 0}, {'l', "list", 0}, {'i', "ints", 0}, {'m', "map", 0}, {'n', "num", 0}, {'f', "flo", 0}, {'o', "on", 0}}; static const char *const PAT[] = {"abcd=-,", "ab,", "12,", "k=1,", "0", "1", "yes"};
    unsigned e = (unsigned)(idx % 7); idx /= 7; bool in_sub = idx % 2; size_t n = idx / 2; if (n > 1100) n = 1024 + (n - 1100) * 64; static char v[5600]; size_t p = strlen(PAT[e]); for (size_t i = 0; i < n; i++) v[i] = PAT[e][i % p]; v[n] = 0; if (n && v[n - 1] == ',' && e) v[n - 1] = e == 3 ? '1' : '2';
    item_t it = E[e]; it.v = v; forms(&it, in_sub);
}
void mc_register(int thorough)
{
    mc_space_chunk("ends", 65025ull * (thorough ? 10 : 5), 256, ends, NULL); mc_space_chunk("lengths", 14ull * 1160, 32, lengths, NULL);
    mc_space_chunk("edits", 2 * NEI * EDIT_COUNT, 256, edits, NULL);
    K = thorough ? 4 : 3; KC = thorough ? 5 : 4;
    mc_space_chunk("spellings/root", seq_count(NI, K), 64, seqs, NULL);
    mc_space_chunk("spellings/command", seq_count(NI, K), 64, seqs, (void *)1);
    for (uintptr_t n = 0; n < 2; n++) { d_space_dressed(n ? "spellings/command" : "spellings/root", seq_count(NI, K - 1), seqs, (void *)n); d_space_dressed(n ? "clusters/command" : "clusters/root", seq_count(NCI, KC - 1), clusters, (void *)n); }
    mc_space_chunk("clusters/root", seq_count(NCI, KC), 64, clusters, NULL);
    mc_space_chunk("clusters/command", seq_count(NCI, KC), 64, clusters, (void *)1);
}
