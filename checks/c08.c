/* C08: maps hold exactly the last value given for every key. */
#include "model.h"
#include "edits.h"
const char *mc_property = "C08";
const char *mc_bounds =
    "string, int, float and bool maps without ordering flags: every text of up to 6-8 (7-9) characters over {a b = , <value characters>} on the command line and in the environment, every pair of such texts of up to 4 characters as two occurrences; every sequence of up to 3 (4) pairs out of 5 keys x 6 values (valid and malformed, with '=' inside) with every split over occurrences; "
    "every one-byte edit (255 byte values) of 6 base texts per type; 1..300 keys, each given once or several times in several orders, in one and in many occurrences; keys and values agreeing on a prefix of 0..4096 bytes; every pair of byte values in keys; 2..8 maps filled in turn, at one level or one per command of a chain.  Count, iteration, lookup of every present key and of absent near-miss keys are compared with the model.";
#define E ENV_VAR("V")
ARGUS_OPTIONS(MS, OPTION_MAP_STRING('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(MI, OPTION_MAP_INT('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(MF, OPTION_MAP_FLOAT('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(MB, OPTION_MAP_BOOL('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
static const argus_option_t *T[] = {MS, MI, MF, MB};
static const char *TN[] = {"map_string", "map_int", "map_float", "map_bool"};
static mres_t M;
static const char *PROBE[] = {"", "a", "b", "ab", "A", "k", "k1", "aa", "=", "a=", "1", "1.5"};
static void check(const dcase_t *c, const char *tn)
{
    d_note_case(c, tn); m_parse(c, &M);
    drun_t r; d_begin(&r, c); d_parse(&r);
    uint64_t h = m_compare(&r, &M);
    if (!r.exited && r.status == 0) {
        const mopt_t *o = &M.lev[0].o[1]; int n = o->c ? o->c->n : 0;   /* index 0 is the help option */
        for (int i = 0; i < M.lev[0].n; i++) if (!strcmp(M.lev[0].o[i].t->name, "val")) { o = &M.lev[0].o[i]; n = o->c ? o->c->n : 0; }
        for (unsigned p = 0; p < sizeof PROBE / sizeof *PROBE; p++) {
            bool in = false;
            for (int j = 0; j < n; j++) if ((int)strlen(PROBE[p]) == o->c->key[j].n && !memcmp(PROBE[p], o->c->key[j].s, strlen(PROBE[p]))) in = true;
            argus_value_t v = argus_map_get(&r.argus, "val", PROBE[p]);
            if (!in && (r.argus.error_code != ARGUS_ERROR_INVALID_KEY || v.raw)) mc_fail("lookup of absent key '%s': error %d raw %llx", PROBE[p], r.argus.error_code, (unsigned long long)v.raw);
        }
    }
    mc_state(mc_mixs(h, tn)); mc_trans((uint64_t)c->argc + 1); mc_exec(1);
    d_free(&r); d_end(&r);
}
static const char *CHS[] = {"ab=,", "ab=,1-", "a=,1.", "a=,1no"};
static unsigned CL[4], PL;
static unsigned dec(int ty, uint64_t idx, unsigned max, char *t)
{
    unsigned k[16], n = seq_decode(idx, (unsigned)strlen(CHS[ty]), max, k);
    for (unsigned i = 0; i < n; i++) t[i] = CHS[ty][k[i]];
    t[n] = 0; return n;
}
static void chars(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, how = (int)(idx % 3); idx /= 3; char t[16], w[32];
    if (!dec(ty, idx, CL[ty], t)) return;
    dcase_t c = {.tmpl = T[ty], .argc = 1}; c.argv[0] = w;
    if (how == 0) sprintf(w, "--val=%s", t);
    if (how == 1) { c.argv[0] = "-fv"; c.argv[1] = t; c.argc = 2; }
    if (how == 2) { c.argc = 0; c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = t; }
    check(&c, TN[ty]);
}
static void pairs(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; char t[2][8]; uint64_t per = seq_count((unsigned)strlen(CHS[ty]), 4);
    if (!dec(ty, idx % per, 4, t[0]) || !dec(ty, idx / per, 4, t[1])) return;
    dcase_t c = {.tmpl = T[ty], .argc = 4}; c.argv[0] = "-v"; c.argv[1] = t[0]; c.argv[2] = "-v"; c.argv[3] = t[1];
    check(&c, TN[ty]);
}
static const char *KEY[] = {"a", "b", "ab", "A", ""};
static const char *VAL[4][6] = {{"x", "y", "x=y", "", " ", "=="}, {"1", "-2", "9223372036854775807", "9223372036854775808", "1x", ""}, {"1", "-2.5", "1e3", "1e999", "1.5.", ""}, {"yes", "NO", "1", "tru", "2", ""}};
static void seqs(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; unsigned how = (unsigned)(idx % 2); idx /= 2; unsigned split = (unsigned)(idx % (1u << (PL - 1))); idx >>= PL - 1;
    unsigned k[8], n = seq_decode(idx, 31, PL, k);           /* 30 pairs plus one without '=' */
    if (!n || split >> (n - 1)) return;
    char w[8][160]; int words = 0; strcpy(w[0], "--val=");
    for (unsigned i = 0; i < n; i++) {
        if (i) { if (split >> (i - 1) & 1) strcpy(w[++words], "--val="); else strcat(w[words], ","); }
        if (k[i] == 30) strcat(w[words], "k");
        else { strcat(w[words], KEY[k[i] / 6]); strcat(w[words], "="); strcat(w[words], VAL[ty][k[i] % 6]); }
    }
    dcase_t c = {.tmpl = T[ty]};
    for (int i = 0; i <= words; i++) c.argv[c.argc++] = w[i];
    if (how) { if (words) return; c.argc = 0; c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = w[0] + 6; }
    check(&c, TN[ty]);
}
static char one[1 << 15];
static void growth(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; unsigned per = (unsigned)(idx % 3); idx /= 3; unsigned pat = (unsigned)(idx % 4), n = 1 + (unsigned)(idx / 4);
    static const unsigned PER[] = {2, 9, 100000}; dcase_t c = {.tmpl = T[ty]}; size_t o = 0;
    unsigned total = pat == 0 ? n : 2 * n;
    if (total / PER[per] > 190) return;
    for (unsigned i = 0; i < total; i++) {
        unsigned key = pat == 0 ? i : pat == 1 ? i % n : pat == 2 ? (i < n ? i : 2 * n - 1 - i) : i / 2;
        if (i % PER[per] == 0) { c.argv[c.argc++] = "--val"; if (i) o++; c.argv[c.argc++] = one + o; } else one[o++] = ',';
        o += (size_t)sprintf(one + o, "k%u=", key);
        o += (size_t)(ty == 3 ? sprintf(one + o, "%s", i % 3 ? "yes" : "no") : ty == 2 ? sprintf(one + o, "%u.5", i) : sprintf(one + o, "%u", i));
    }
    check(&c, TN[ty]);
}
/* lengths worth trying for a common prefix */
static unsigned plen(unsigned i) { return i < 42 ? i : i < 47 ? i + 20 : i < 52 ? i + 79 : i < 57 ? i + 202 : i < 62 ? i + 453 : i < 67 ? i + 960 : 4096; }
/* keys and values with long common prefixes: every present key and every absent relative of it is looked up */
static void longkeys(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; static const char *SX[] = {"", "a", "b", "A", "aa", "\xc3\xa9"}; unsigned p = plen((unsigned)(idx % 68)); idx /= 68; unsigned how = (unsigned)(idx % 2); idx /= 2; unsigned k[3] = {(unsigned)(idx % 6), (unsigned)(idx / 6 % 6), (unsigned)(idx / 36 % 6)}, lv = (unsigned)(idx / 216); static char w[3][9000], all[27000], pr[4200]; size_t o = 0; dcase_t c = {.tmpl = T[ty]}; if (lv && ty) return;
    memset(pr, 'p', p); pr[p] = 0; for (unsigned i = 0; i < 3; i++) { sprintf(w[i], "%s%s=%s%s", pr, SX[k[i]], lv ? pr : "", VAL[ty][i == 2 ? 0 : i]); o += (size_t)sprintf(all + o, "%s%s", i ? "," : "", w[i]); if (how) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = w[i]; } } if (!how) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = all; }
    d_note_case(&c, TN[ty]); m_parse(&c, &M); drun_t r; d_begin(&r, &c); d_parse(&r); uint64_t h = m_compare(&r, &M);
    if (!r.exited && r.status == 0) for (unsigned i = 0; i < 7; i++) { bool in = false; for (unsigned j = 0; j < 3; j++) in |= i < 6 && !strcmp(SX[k[j]], SX[i]); static char q[4300]; sprintf(q, "%s%s", pr, i < 6 ? SX[i] : "c"); if (i == 6 && p) { q[p - 1] = 'q'; q[p] = 0; } argus_value_t v = argus_map_get(&r.argus, "val", q); if (!in && (r.argus.error_code != ARGUS_ERROR_INVALID_KEY || v.raw)) mc_fail("lookup of an absent key agreeing on %u bytes: error %d raw %llx", p, r.argus.error_code, (unsigned long long)v.raw); if (in && r.argus.error_code) mc_fail("lookup of a present key: error %d", r.argus.error_code); }
    mc_state(mc_mix(h, p)); mc_trans((uint64_t)c.argc); mc_exec(1); d_free(&r); d_end(&r);
}
/* every pair of single bytes as keys */
static void bytekeys(uint64_t idx, const void *arg)
{
    (void)arg; unsigned a = (unsigned)(idx % 255) + 1, b = (unsigned)(idx / 255) + 1; if (a == ',' || b == ',' || a == '=' || b == '=') return; char w[40]; sprintf(w, "%c=1,x%c=2,%cy=3", (int)a, (int)b, (int)b); dcase_t c = {.tmpl = MS, .argc = 2}; c.argv[0] = "-v"; c.argv[1] = w; check(&c, "map_string");
}
/* maps filled in turn, at one level or in a chain */
static void several(uint64_t idx, const void *arg)
{
    (void)arg; unsigned m = 2 + (unsigned)(idx % 7); idx /= 7; unsigned n = (unsigned)(idx % 40) + 1; idx /= 40; unsigned ord = (unsigned)(idx % 3), chain = (unsigned)(idx / 3 % 2), bad = (unsigned)(idx / 6); static argus_option_t t[9][14]; static char nm[9][8], cn[9][8], w[400][24]; dcase_t c = {.tmpl = t[0]}; char tn[60];
    for (int i = (int)m - 1; i >= 0; i--) { sprintf(nm[i], "c%d", i); argus_option_t x = i % 4 == 0 ? (argus_option_t)OPTION_MAP_INT(0, nm[i], HELP("h")) : i % 4 == 1 ? (argus_option_t)OPTION_MAP_STRING(0, nm[i], HELP("h")) : i % 4 == 2 ? (argus_option_t)OPTION_MAP_FLOAT(0, nm[i], HELP("h")) : (argus_option_t)OPTION_MAP_BOOL(0, nm[i], HELP("h")); if (!chain) { t[0][i] = x; continue; } int k = 0; t[i][k++] = x; if (i < (int)m - 1) { sprintf(cn[i], "cmd%d", i); t[i][k++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h")); } t[i][k++] = (argus_option_t)OPTION_END(); }
    if (!chain) t[0][m] = (argus_option_t)OPTION_END();
    unsigned total = n * m > 180 ? 180 : n * m; if (chain && ord) return; if (bad > m) return;
    for (unsigned i = 0; i < total; i++) { unsigned k = chain || ord == 1 ? i * m / total : ord == 0 ? i % m : (i * i + i / 3) % m; if (chain && k && (i - 1) * m / total != k) c.argv[c.argc++] = cn[k - 1]; sprintf(w[i], k % 4 == 0 ? "--c%u=k%u=%u" : k % 4 == 1 ? "--c%u=k%u=e%u" : k % 4 == 2 ? "--c%u=k%u=%u.5" : i % 2 ? "--c%u=k%u=yes" : "--c%u=k%u=no", k, (i * 5) % (n + 1), i); if (bad && k == bad - 1 && i + m >= total) strcat(w[i], ",z"); c.argv[c.argc++] = w[i]; }
    sprintf(tn, "%u maps chain=%u order=%u", m, chain, ord); m_check(&c, tn);
}
static const char *EB[4][6] = {{"k=v", "a=b,c=d", "k=", "=v", "a=b=c", "k=v,k=w"}, {"k=12", "a=1,b=-2", "k=-5", "=3", "a=1,a=2", "k=9223372036854775807"}, {"k=1.5", "a=1,b=-2.5", "k=1e3", "=.5", "a=1,a=2.", "k=-.5"}, {"k=yes", "a=1,b=no", "k=TRUE", "=off", "a=n,a=y", "k=false"}};
static void edits(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; unsigned how = (unsigned)(idx % 2), b = (unsigned)(idx / 2 % 6); char t[40], w[50];
    if (!edit_apply(EB[ty][b], idx / 12, t) || !*t || ((ty == 1 || ty == 2) && edit_blank(t, "=")) || (ty == 2 && strpbrk(t, "xX"))) return;
    dcase_t c = {.tmpl = T[ty], .argc = 1}; c.argv[0] = w; sprintf(w, "--val=%s", t);
    if (how) { c.argc = 0; c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = t; }
    check(&c, TN[ty]);
}
void mc_register(int thorough)
{
    for (int t = 0; t < 4; t++) d_space(((const char *[]){"edits/string", "edits/int", "edits/float", "edits/bool"})[t], 12ull * EDIT_COUNT, edits, (void *)(intptr_t)t);
    static const char *N[4][4] = {{"chars/string", "pairs/string", "seqs/string", "growth/string"}, {"chars/int", "pairs/int", "seqs/int", "growth/int"}, {"chars/float", "pairs/float", "seqs/float", "growth/float"}, {"chars/bool", "pairs/bool", "seqs/bool", "growth/bool"}};
    unsigned b[4] = {8, 6, 7, 6}; PL = thorough ? 4 : 3;
    for (int t = 0; t < 4; t++) {
        CL[t] = b[t] + (unsigned)(thorough != 0); void *a = (void *)(intptr_t)t; unsigned m = (unsigned)strlen(CHS[t]);
        d_space(N[t][0], seq_count(m, CL[t]) * 3, chars, a);
        d_space(N[t][1], seq_count(m, 4) * seq_count(m, 4), pairs, a);
        d_space(N[t][2], (seq_count(31, PL) << (PL - 1)) * 2, seqs, a);
        d_space(N[t][3], 300 * 4 * 3, growth, a); d_space_dressed(N[t][1], seq_count(m, 4) * seq_count(m, 2), pairs, a); d_space_dressed(N[t][0], seq_count(m, 4) * 3, chars, a);
    }
    for (int t = 0; t < 4; t++) d_space(((const char *[]){"long keys/string", "long keys/int", "long keys/float", "long keys/bool"})[t], 68ull * 2 * 216 * 2, longkeys, (void *)(intptr_t)t);
    d_space("byte keys", 255ull * 255, bytekeys, NULL); d_space("several", 7ull * 40 * 6 * 9, several, NULL);
}
