/* C03: command resolution and execution. */
#include "model.h"
#include <limits.h>
const char *mc_property = "C03";
const char *mc_bounds =
    "flat: every ordered set of 1..3 (4) command names out of {a ab abc ad b B}, with and without actions and an optional positional, "
    "against every word of up to 3 characters over {a b c d B} followed by nothing, an option or another command word; nested: every pair of such sets with "
    "up to 2 names per level and every pair of words; depth: every chain of 1..10 commands, given exactly or abbreviated, run or refused; "
    "scope: every sequence of up to L words (L=5 quick, 6 thorough) over a three-level tree whose levels reuse the same option names (shorter ones and the flat and depth spaces also with six sets of presentation marks); tables of 1..70 commands, each addressed exactly, abbreviated and almost, with and without options and groups between them; pairs of names of every length 1..130 that differ in one place, with every prefix; 0..139 words before and after a command; actions at depth 1..4 that return every number in -300..300 and the extremes, in a context whose earlier error is any of 41 or left by a failed look-up.  Outcome, selected chain and all values must "
    "equal the model's, then executing must run exactly the action of the deepest command once, with the caller's data and result.";

/* ---- actions */
static int ran, ran_id; static void *ran_data; static argus_t *ran_ctx; static int result;
#define ACT(n) static int act##n(argus_t *a, void *d) { ran++; ran_id = n; ran_data = d; ran_ctx = a; return result; }
ACT(0) ACT(1) ACT(2) ACT(3) ACT(4) ACT(5) ACT(6) ACT(7) ACT(8) ACT(9) ACT(10) ACT(11)
static const argus_action_t ACTS[] = {act0, act1, act2, act3, act4, act5, act6, act7, act8, act9, act10, act11};

static mres_t M;
static int act_id(argus_action_t a) { for (int i = 0; i < 12; i++) if (ACTS[i] == a) return i; return -1; }
static void check(const dcase_t *c, const char *tname)
{
    static const int results[] = {0, 65537, -3};
    d_note_case(c, tname);
    m_parse(c, &M);
    drun_t r; d_begin(&r, c); d_parse(&r);
    uint64_t h = m_compare(&r, &M);
    if (!r.exited && r.status == 0) {
        argus_action_t want = M.depth ? M.lev[M.depth].cmd->action : NULL;
        for (int k = 0; k < 3; k++) {
            int data; ran = 0; ran_id = -1; result = results[k]; cap_reset();
            void *d = k == 2 ? NULL : (void *)&data;
            int ret = argus_exec(&r.argus, d);
            size_t ol; cap_out(&ol);
            if (want) {
                if (ran != 1 || ran_id != act_id(want)) mc_fail("exec ran action %d (%d times), expected %d once", ran_id, ran, act_id(want));
                if (ran_data != d || ran_ctx != &r.argus) mc_fail("exec passed other data or another context");
                if (ret != result) mc_fail("exec returned %d, action returned %d", ret, result);
            } else {
                int e = M.depth ? ARGUS_ERROR_INVALID_HANDLER : ARGUS_ERROR_NO_COMMAND;
                if (ran) mc_fail("exec ran action %d, expected none", ran_id);
                if (ret != e) mc_fail("exec returned %d, expected %d", ret, e);
            }
            h = mc_mix(h, (uint64_t)ran_id + 1);
        }
    }
    mc_state(mc_mixs(h, tname)); mc_trans((uint64_t)c->argc + 1); mc_exec(1);
    if (!r.exited) d_free(&r);
    d_end(&r);
}
static const char *NM[] = {"a", "ab", "abc", "ad", "b", "B"};
#define NN 6
/* ordered selections of 1..k distinct names */
static uint64_t perm_count(unsigned maxk) { uint64_t t = 0, p = 1; for (unsigned i = 0; i < maxk; i++) { p *= NN - i; t += p; } return t; }
static unsigned perm_decode(uint64_t idx, unsigned maxk, int *out)
{
    unsigned k = 1; uint64_t p = NN;
    while (idx >= p && k < maxk) { idx -= p; k++; p *= NN - k + 1; }
    bool used[NN] = {0};
    for (unsigned i = 0; i < k; i++) {
        unsigned r = (unsigned)(idx % (NN - i)); idx /= NN - i;
        for (int j = 0; j < NN; j++) if (!used[j]) { if (!r) { out[i] = j; used[j] = true; break; } r--; }
    }
    return k;
}
static const char CH[] = "abcdB";
static void word(uint64_t idx, unsigned maxlen, char *out) { unsigned k[8], n = seq_decode(idx, 5, maxlen, k); for (unsigned i = 0; i < n; i++) out[i] = CH[k[i]]; out[n] = 0; }

ARGUS_OPTIONS(leaf, OPTION_FLAG('v', "verbose", HELP("h")), POSITIONAL_STRING("x", HELP("h"), OPTL), )
static unsigned MAXN; static uint64_t NWORD;
static argus_option_t opt_end(void) { return OPTION_END(); }
static argus_option_t opt_v(void) { return OPTION_FLAG('v', "verbose", HELP("h")); }
static argus_option_t opt_pos(void) { return POSITIONAL_STRING("x", HELP("h"), OPTL); }
static void flat(uint64_t idx, const void *arg)
{
    (void)arg; int sel[4]; char w[8];
    unsigned f = idx % 4; idx /= 4;             /* follow-up */
    unsigned pos = idx % 2; idx /= 2;
    unsigned acts = idx % 3; idx /= 3;          /* all, none, alternating */
    word(idx % NWORD, 3, w); idx /= NWORD;
    unsigned n = perm_decode(idx, MAXN, sel);
    argus_option_t t[8]; int m = 0;
    t[m++] = opt_v();
    if (pos) t[m++] = opt_pos();
    char name[64] = "flat";
    for (unsigned i = 0; i < n; i++) {
        t[m++] = (argus_option_t)SUBCOMMAND(NM[sel[i]], leaf, HELP("h"), ACTION((acts == 0 || (acts == 2 && i % 2)) ? ACTS[i] : NULL));
        strcat(name, " "); strcat(name, NM[sel[i]]);
    }
    t[m++] = opt_end();
    static const char *F[] = {NULL, "-v", "a", "b"};
    dcase_t c = {.tmpl = t, .argc = 1}; c.argv[0] = w;
    if (F[f]) c.argv[c.argc++] = F[f];
    sprintf(name + strlen(name), " pos=%u acts=%u", pos, acts);
    check(&c, name);
}
static uint64_t NP2;
static void nested(uint64_t idx, const void *arg)
{
    (void)arg; int s1[4], s2[4]; char w1[8], w2[8];
    uint64_t n2 = seq_count(5, 2);
    unsigned acts = idx % 4; idx /= 4;
    word(idx % n2, 2, w1); idx /= n2; word(idx % n2, 2, w2); idx /= n2;
    unsigned a = perm_decode(idx % NP2, 2, s1), b = perm_decode(idx / NP2, 2, s2);
    argus_option_t in[6], t[6]; int m = 0; char name[80] = "nested";
    for (unsigned i = 0; i < b; i++) in[m++] = (argus_option_t)SUBCOMMAND(NM[s2[i]], leaf, HELP("h"), ACTION((acts & 2) ? ACTS[4 + i] : NULL));
    in[m++] = opt_end(); m = 0;
    for (unsigned i = 0; i < a; i++) {
        t[m++] = (argus_option_t)SUBCOMMAND(NM[s1[i]], i ? leaf : in, HELP("h"), ACTION((acts & 1) ? ACTS[i] : NULL));
        sprintf(name + strlen(name), " %s", NM[s1[i]]);
    }
    t[m++] = opt_end();
    strcat(name, " /"); for (unsigned i = 0; i < b; i++) sprintf(name + strlen(name), " %s", NM[s2[i]]);
    dcase_t c = {.tmpl = t, .argc = 2}; c.argv[0] = w1; c.argv[1] = w2;
    sprintf(name + strlen(name), " acts=%u", acts);
    check(&c, name);
}
/* chains: depth 1..10, words given 0..depth, exact or abbreviated (bit per level pair), action at one level or nowhere */
static void chain(uint64_t idx, const void *arg)
{
    (void)arg;
    unsigned given = idx % 12; idx /= 12; unsigned abbr = idx % 4; idx /= 4; unsigned act = idx % 12; idx /= 12; unsigned depth = 1 + (unsigned)idx;
    static argus_option_t lev[12][4]; static char nm[12][16];
    if (given > depth + 1) return;
    for (int d = (int)depth; d >= 0; d--) {
        int m = 0;
        lev[d][m++] = opt_v();
        if (d < (int)depth) { sprintf(nm[d], "level%c%d", 'a' + d, d); lev[d][m++] = (argus_option_t)SUBCOMMAND(nm[d], lev[d + 1], HELP("h"), ACTION((int)act == d || act == 11 ? ACTS[d] : NULL)); }
        lev[d][m++] = opt_end();
    }
    dcase_t c = {.tmpl = lev[0]}; static char w[12][16];
    for (unsigned i = 0; i < given; i++) {
        strcpy(w[i], i < depth ? nm[i] : "level");
        if (i < depth && ((abbr & 1 && i % 2) || (abbr & 2 && i % 2 == 0))) w[i][6 - (i % 3)] = 0;
        c.argv[c.argc++] = w[i];
    }
    if (act % 2) c.argv[c.argc++] = "-v";
    char name[64]; sprintf(name, "chain depth=%u action at %u", depth, act);
    check(&c, name);
}
/* scope of words after a command */
ARGUS_OPTIONS(s_deep, OPTION_FLAG('v', "verbose", HELP("h")), OPTION_STRING('o', "out", HELP("h")), POSITIONAL_STRING("p", HELP("h"), OPTL), )
ARGUS_OPTIONS(s_mid, OPTION_STRING('v', "out", HELP("h")), OPTION_FLAG('o', "verbose", HELP("h")), SUBCOMMAND("deep", s_deep, HELP("h"), ACTION(act2)), SUBCOMMAND("deeper", s_deep, HELP("h"), ACTION(act3)), )
ARGUS_OPTIONS(s_two, POSITIONAL_STRING("p", HELP("h"), OPTL), OPTION_INT('o', "out", HELP("h")), )
ARGUS_OPTIONS(s_root, OPTION_FLAG('v', "verbose", HELP("h")), OPTION_STRING('o', "out", HELP("h")), POSITIONAL_STRING("p", HELP("h"), OPTL),
    SUBCOMMAND("mid", s_mid, HELP("h"), ACTION(act0)), SUBCOMMAND("two", s_two, HELP("h"), ACTION(act1)), )
static const char *SW[] = {"-v", "-o", "--out", "--verbose", "--out=mid", "mid", "mi", "two", "t", "deep", "deepe", "d", "x", "--", "-v5"};
#define NSW (sizeof SW / sizeof *SW)
static unsigned LS;
static void scope(uint64_t idx, const void *arg)
{
    (void)arg; unsigned k[8], n = seq_decode(idx, NSW, LS, k);
    dcase_t c = {.tmpl = s_root, .argc = (int)n};
    for (unsigned i = 0; i < n; i++) c.argv[i] = SW[k[i]];
    check(&c, "scope");
}
/* n commands between other entries, each addressed exactly, abbreviated and almost */
static void wide(uint64_t idx, const void *arg)
{
    (void)arg; int n = (int)(idx % 70) + 1; idx /= 70; int at = (int)(idx % 70); idx /= 70; unsigned how = (unsigned)(idx % 6), noise = (unsigned)(idx / 6 % 2), acts = (unsigned)(idx / 12); if (at >= n) return;
    static char nm[70][16], gn[70][8], on[70][8]; static argus_option_t t[260]; int m = 0; t[m++] = opt_v(); if (noise) for (int i = 0; i < n; i++) { sprintf(on[i], "o%d", i); t[m++] = (argus_option_t)OPTION_STRING(0, on[i], HELP("h")); }
    for (int i = 0; i < n; i++) { sprintf(nm[i], i % 7 == 6 ? "%dc" : "c%d-x", i); if (noise) { sprintf(gn[i], "c%d", i); t[m++] = (argus_option_t)GROUP_START(gn[i]); } t[m++] = (argus_option_t)SUBCOMMAND(nm[i], leaf, HELP("h"), ACTION(acts ? (i == at ? NULL : ACTS[i % 12]) : i == at ? ACTS[11] : ACTS[i % 11])); if (noise && i % 2) t[m++] = (argus_option_t)GROUP_END(); }
    t[m++] = opt_end(); char w[24]; strcpy(w, nm[at]); size_t l = strlen(w); if (how == 1) w[l - 1] = 0; if (how == 2) w[l > 3 ? l - 2 : 1] = 0; if (how == 3) strcat(w, "x"); if (how == 4) w[0] = (char)(w[0] ^ 1); if (how == 5) w[0] = (char)(w[0] == 'c' ? 'C' : '9');
    dcase_t c = {.tmpl = t, .argc = 2}; c.argv[0] = w; c.argv[1] = "-v"; char name[40]; sprintf(name, "%d commands noise=%u acts=%u", n, noise, acts); check(&c, name);
}
/* two names of the same length that differ in one place; words of every prefix length */
static void lengths(uint64_t idx, const void *arg)
{
    (void)arg; int len = (int)(idx % 130) + 1; idx /= 130; int plen = (int)(idx % 132); idx /= 132; int diff = (int)(idx % 4); if (plen > len + 1) return; static char a[140], b[140], w[140]; memset(a, 'n', (size_t)len); a[len] = 0; strcpy(b, a);
    int d = diff == 0 ? len - 1 : diff == 1 ? len / 2 : diff == 2 ? 0 : len; if (d == len) { if (len < 2) return; b[len - 1] = 0; } else b[d] = 'z';
    argus_option_t t[] = {SUBCOMMAND(b, leaf, HELP("h"), ACTION(act1)), SUBCOMMAND(a, leaf, HELP("h"), ACTION(act0)), OPTION_END()}; memset(w, 'n', sizeof w); w[plen] = 0; if (idx / 4 && plen > d) w[d] = 'z';
    dcase_t c = {.tmpl = t, .argc = 1}; c.argv[0] = w; char name[40]; sprintf(name, "names of %d, differing at %d", len, d); check(&c, name);
}
/* n words before and after the command word */
static void before(uint64_t idx, const void *arg)
{
    (void)arg; static const char *BW[] = {"-v", "-oo", "--out=mid", "x", "t", "-vv", "--verbose"}; static argus_option_t t[8]; int n = (int)(idx % 140); idx /= 140; const char *w = BW[idx % 7]; idx /= 7; const char *cmd[] = {"mid", "m", "two", "midd"}; dcase_t c = {.argc = 0};
    int m = 0; for (; s_root[m].type != TYPE_NONE; m++) t[m] = s_root[m]; t[m] = s_root[m]; if (idx / 4 % 2) t[2] = (argus_option_t)POSITIONAL_MANY_STRING("p", HELP("h"), OPTL); c.tmpl = t;
    for (int i = 0; i < n; i++) c.argv[c.argc++] = w; c.argv[c.argc++] = cmd[idx % 4]; if (idx / 8 == 1) c.argv[c.argc++] = "deep"; if (idx / 8 == 2) for (int i = 0; i < n; i++) c.argv[c.argc++] = w; check(&c, "words before a command");
}
/* every result of an action, after every earlier error of the context */
static int exec_result;
static int act_res(argus_t *a, void *d) { ran++; ran_data = d; ran_ctx = a; return exec_result; }
static void results(uint64_t idx, const void *arg)
{
    (void)arg; static const int X[] = {INT_MIN, INT_MAX, -65536, 65536, 1 << 30, 4096}; static argus_option_t l[5][3];
    int v = (int)(idx % 607) - 300; idx /= 607; int stale = (int)(idx % 42) - 1; idx /= 42; int depth = (int)(idx % 4) + 1; if (v > 300) v = X[v - 301];
    for (int i = 4; i >= 0; i--) { l[i][0] = opt_v(); l[i][1] = opt_end(); if (i < depth) { l[i][1] = (argus_option_t)SUBCOMMAND("cmd", l[i + 1], HELP("h"), ACTION(i == depth - 1 ? act_res : act0)); l[i][2] = opt_end(); } }
    dcase_t c = {.tmpl = l[0]}; for (int i = 0; i < depth; i++) c.argv[c.argc++] = "cmd"; d_note_case(&c, "results"); mc_note(" result=%d earlier error=%d", v, stale);
    drun_t r; d_begin(&r, &c); d_parse(&r); if (r.exited || r.status) mc_fail("parse failed");
    for (int twice = 0; twice < 2; twice++) {
        if (stale >= 0) r.argus.error_code = (argus_error_type_t)stale; else argus_get(&r.argus, "nowhere");
        int data, got; ran = 0; exec_result = v; got = argus_exec(&r.argus, &data);
        if (ran != 1 || ran_data != &data || ran_ctx != &r.argus) mc_fail("the action did not run exactly once with the caller's data");
        if (got != v) mc_fail("exec returned %d, the action returned %d", got, v);
    }
    mc_state(mc_mix(mc_mix((uint64_t)v, (uint64_t)stale), (uint64_t)depth)); mc_trans(3); mc_exec(1); d_free(&r); d_end(&r);
}
void mc_register(int thorough)
{
    MAXN = thorough ? 4 : 3; NWORD = seq_count(5, 3); NP2 = perm_count(2); LS = thorough ? 6 : 5;
    d_space("flat", perm_count(MAXN) * NWORD * 3 * 2 * 4, flat, NULL);
    d_space("results", 607ull * 42 * 4, results, NULL);
    d_space("nested", NP2 * NP2 * seq_count(5, 2) * seq_count(5, 2) * 4, nested, NULL);
    d_space("chain", 10ull * 12 * 4 * 12, chain, NULL);
    d_space("scope", seq_count(NSW, LS), scope, NULL); d_space("wide", 70ull * 70 * 24, wide, NULL); d_space("lengths", 130ull * 132 * 8, lengths, NULL); d_space("before", 140ull * 7 * 24, before, NULL);
    d_space_dressed("scope", seq_count(NSW, LS - 1), scope, NULL); d_space_dressed("chain", 10ull * 12 * 4 * 12, chain, NULL); d_space_dressed("flat", perm_count(2) * NWORD * 3 * 2 * 4, flat, NULL);
}
