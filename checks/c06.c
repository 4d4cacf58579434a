/* C06: arrays hold exactly the given elements, with integer ranges expanded. */
#include "model.h"
#include "edits.h"
const char *mc_property = "C06";
const char *mc_bounds =
    "integer, string and float arrays and multi-value positionals without ordering flags: every text of up to 6 (7) characters over {1 2 0 - : , x} / {1 . , - e x} / {a b , = space}, "
    "every pair of texts of up to 3 characters as two occurrences or as environment text; every list of up to 4 (5) elements out of 18-20 (numbers, ranges in both notations and "
    "directions, negative ends, type limits, malformed ones) with every way of splitting it over occurrences; every count 1..300 in one occurrence and in several; "
    "every one-byte edit (255 byte values) of 8 base texts per type on the command line, positionally and in the environment; every prefix of 0..40 elements before a range of 1..40; numbers and range ends behind 0..1026 zeros; ranges of 1..300 at 8 positions including the type limits; every position of one malformed element in lists of 1..24; string elements of 0..4100 bytes with a common prefix; 2..8 collections filled in turn with 1..48 elements each, at one level or one per command of a chain, with and without a malformed last element.  "
    "Count, indexed access and iteration are compared with the model's list.";
#define E ENV_VAR("V")
ARGUS_OPTIONS(AI, OPTION_ARRAY_INT('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(AS, OPTION_ARRAY_STRING('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(AF, OPTION_ARRAY_FLOAT('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(VI, OPTION_FLAG('f', "flag", HELP("h")), POSITIONAL_MANY_INT("val", HELP("h"), OPTL), )
ARGUS_OPTIONS(VS, OPTION_FLAG('f', "flag", HELP("h")), POSITIONAL_MANY_STRING("val", HELP("h"), OPTL), )
ARGUS_OPTIONS(VF, OPTION_FLAG('f', "flag", HELP("h")), POSITIONAL_MANY_FLOAT("val", HELP("h"), OPTL), )
static const argus_option_t *T[] = {AI, AS, AF, VI, VS, VF};
static const char *TN[] = {"array_int", "array_string", "array_float", "many_int", "many_string", "many_float"};
static const char *CHS[] = {"120-:,x", "ab,= ", "1.,-ex"};
static unsigned CL, EL;
static bool lead(const char *t) { return t[0] == ' ' || strstr(t, ", "); }     /* leading blanks: not stated */
static void chars(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, how = (int)(idx % 5); idx /= 5;
    char t[16], w[32]; unsigned k[16], a = (unsigned)strlen(CHS[ty]), n = seq_decode(idx, a, CL, k);
    for (unsigned i = 0; i < n; i++) t[i] = CHS[ty][k[i]];
    t[n] = 0;
    if (!n || (ty == 2 && lead(t))) return;      /* an entirely empty text: not stated whether that is no element or an empty one */
    dcase_t c = {.tmpl = T[ty], .argc = 1};
    switch (how) {
        case 0: sprintf(w, "--val=%s", t); c.argv[0] = w; break;
        case 1: c.argv[0] = "-v"; c.argv[1] = t; c.argc = 2; break;
        case 2: sprintf(w, "-fv%s", t); c.argv[0] = w; break;
        case 3: c.argc = 0; c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = t; break;
        case 4: c.tmpl = T[ty + 3]; c.argv[0] = "--"; c.argv[1] = t; c.argc = 2; break;
    }
    m_check(&c, TN[how == 4 ? ty + 3 : ty]);
}
static void pairs(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; unsigned k[8], a = (unsigned)strlen(CHS[ty]), n; char t[2][8], w[2][20];
    uint64_t per = seq_count(a, 3) - 1; int how = (int)(idx % 2); idx /= 2;
    for (int j = 0; j < 2; j++) {
        n = seq_decode(1 + (j ? idx / per : idx % per), a, 3, k);
        for (unsigned i = 0; i < n; i++) t[j][i] = CHS[ty][k[i]];
        t[j][n] = 0;
        if (ty == 2 && lead(t[j])) return;
        sprintf(w[j], "--val=%s", t[j]);
    }
    dcase_t c = {.tmpl = T[ty], .argc = 2}; c.argv[0] = w[0]; c.argv[1] = w[1];
    if (how) { c.tmpl = T[ty + 3]; c.argv[0] = "--"; c.argv[1] = t[0]; c.argv[2] = t[1]; c.argc = 3; }
    m_check(&c, TN[how ? ty + 3 : ty]);
}
static const char *EI[] = {"1", "-2", "3-5", "5:3", "-3--1", "-1:1", "007", "2147483647", "-2147483648", "7-7", "9:9", "-2147483648--2147483646", "2147483648", "x", "1-", "1:2:3", "-", "2-x", "4 ", ""};
static const char *ES[] = {"a", "b", "abc", "1-3", "a=b", " ", "-x", "--", "a b", "\xc3\xa9", "0", ":", "a:b", "%s", "=", ".", "+", ""};
static const char *EF[] = {"1", "-2", "0.5", "1e3", "-.5", "2.", "1.5", "0", "-0.25", "9007199254740993", "1e-300", "x", "1-2", "1e", "-", ".", "1e999", ""};
static const struct { const char **e; unsigned n; } EE[] = {{EI, 20}, {ES, 18}, {EF, 18}};
static void lists(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; unsigned k[8]; char w[8][200];
    unsigned split = (unsigned)(idx % 16); idx /= 16; int how = (int)(idx % 3); idx /= 3;
    unsigned n = seq_decode(idx, EE[ty].n, EL, k);
    dcase_t c = {.tmpl = T[ty]};
    if (!n || split >> (n - 1)) return;
    if (how == 2) {                                       /* positionals: one word each, the flag before word number split */
        c.tmpl = T[ty + 3];
        if (split) return;
        for (unsigned i = 0; i < n; i++) { if (i == 1) c.argv[c.argc++] = "-f"; if (i == 2) c.argv[c.argc++] = "--"; c.argv[c.argc++] = EE[ty].e[k[i]]; }
        if (EE[ty].e[k[0]][0] == '-' || (n > 1 && EE[ty].e[k[1]][0] == '-')) { c.argc = 0; c.argv[c.argc++] = "--"; for (unsigned i = 0; i < n; i++) c.argv[c.argc++] = EE[ty].e[k[i]]; }
        m_check(&c, TN[ty + 3]);
        return;
    }
    int words = 0; strcpy(w[0], "--val=");
    for (unsigned i = 0; i < n; i++) {
        if (i) { if (split >> (i - 1) & 1) { if (!w[words][6]) return; strcpy(w[++words], "--val="); } else strcat(w[words], ","); }
        strcat(w[words], EE[ty].e[k[i]]);
    }
    if (!w[words][6]) return;
    for (int i = 0; i <= words; i++) c.argv[c.argc++] = w[i];
    if (how == 1) { if (words) return; c.argc = 0; c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = w[0] + 6; }
    m_check(&c, TN[ty]);
}
static char store[400][16], one[8192];
static const char *el(int ty, unsigned i, char *b) { if (ty == 0) sprintf(b, "%d", (int)(i * 7919 % 1000) - 500); else if (ty == 1) sprintf(b, "s%u", i * 7919 % 1000); else sprintf(b, "%d.25", (int)(i * 7919 % 1000) - 500); return b; }
static void growth(uint64_t idx, const void *arg)
{
    (void)arg; int ty = (int)(idx % 3); idx /= 3; unsigned per = (unsigned)(idx % 4); idx /= 4; unsigned n = 1 + (unsigned)idx; /* per occurrence: 1, 3, 8, all */
    static const unsigned PER[] = {1, 3, 8, 1000};
    dcase_t c = {.tmpl = T[ty]}; size_t o = 0; char b[16];
    if (per == 0 && n > 190) {                             /* one word each */
        c.tmpl = T[ty + 3]; c.argv[c.argc++] = "--";
        for (unsigned i = 0; i < n; i++) { strcpy(store[i], el(ty, i, b)); c.argv[c.argc++] = store[i]; }
        m_check(&c, TN[ty + 3]); return;
    }
    for (unsigned i = 0; i < n; i++) {
        if (i % PER[per] == 0) { c.argv[c.argc++] = "--val"; if (i) o++; c.argv[c.argc++] = one + o; } else one[o++] = ',';
        o += (size_t)sprintf(one + o, "%s", el(ty, i, b));
    }
    m_check(&c, TN[ty]);
}
static void prefixed(uint64_t idx, const void *arg)
{
    (void)arg; unsigned k = (unsigned)(idx % 41); idx /= 41; unsigned r = 1 + (unsigned)(idx % 40); idx /= 40; unsigned split = (unsigned)(idx % 2), rev = (unsigned)(idx / 2);
    size_t o = 0; dcase_t c = {.tmpl = AI}; char w[40];
    for (unsigned i = 0; i < k; i++) o += (size_t)sprintf(one + o, "%u,", i * 3);
    one[o] = 0;
    if (rev) sprintf(w, "%u:%d", r, 1); else sprintf(w, "1-%u", r);
    if (split && k) { c.argv[c.argc++] = "--val"; c.argv[c.argc++] = one; c.argv[c.argc++] = "--val"; c.argv[c.argc++] = w; }
    else { strcat(one, w); strcat(one, ",99"); c.argv[c.argc++] = "--val"; c.argv[c.argc++] = one; }
    m_check(&c, "array_int");
}
static void ranges(uint64_t idx, const void *arg)
{
    (void)arg; static const long long B[] = {0, 1, -1, -150, 2147483647, -2147483647 - 1, 1000000, -5}; int form = (int)(idx % 4); idx /= 4; int r = 1 + (int)(idx % 300); long long b = B[idx / 300];
    long long lo = b, hi = b + r - 1; if (b == 2147483647) { hi = b; lo = b - r + 1; }
    sprintf(one, form & 2 ? "%lld:%lld" : "%lld-%lld", form & 1 ? hi : lo, form & 1 ? lo : hi);
    dcase_t c = {.tmpl = AI, .argc = 2}; c.argv[0] = "-v"; c.argv[1] = one;
    m_check(&c, "array_int");
}
/* long ranges, checked directly */
static void longrange(uint64_t idx, const void *arg)
{
    (void)arg; int n = 301 + (int)idx * 997; char w[60];
    sprintf(w, "--val=%d-%d,5", -n / 2, -n / 2 + n - 1); NOTE("array_int argv=['%s']", w);
    dcase_t c = {.tmpl = AI, .argc = 1}; c.argv[0] = w;
    drun_t r; d_begin(&r, &c); d_parse(&r); mc_exec(1); mc_trans((uint64_t)n); mc_state((uint64_t)n);
    if (r.exited || r.status) mc_fail("parse failed with %d", r.status);
    if (argus_count(&r.argus, "val") != (size_t)n + 1) mc_fail("count is %zu, expected %d", argus_count(&r.argus, "val"), n + 1);
    argus_array_it_t it = argus_array_it(&r.argus, "val");
    for (int i = 0; i <= n; i++) {
        int want = i < n ? -n / 2 + i : 5;
        if (!argus_array_next(&it) || it.value.as_int != want || argus_array_get(&r.argus, "val", (size_t)i).as_int != want) mc_fail("element %d is not %d", i, want);
    }
    if (argus_array_next(&it)) mc_fail("iteration does not stop");
    d_free(&r); d_end(&r);
}
static void malformed(uint64_t idx, const void *arg)
{
    (void)arg; static const char *BAD[2][6] = {{"x", "1x", "-", "1-2-3", "9999999999", "1.5"}, {"x", "1x", "-", "1e", ".", "1e999"}};
    int ty = (int)(idx % 2); idx /= 2; unsigned bad = (unsigned)(idx % 6); idx /= 6; unsigned split = (unsigned)(idx % 3); idx /= 3; unsigned n = 1 + (unsigned)(idx % 24), pos = (unsigned)(idx / 24);
    if (pos >= n) return;
    dcase_t c = {.tmpl = ty ? AF : AI}; size_t o = 0; 
    if (split == 2) {
        c.tmpl = ty ? VF : VI; c.argv[c.argc++] = "--";
        for (unsigned i = 0; i < n; i++) { sprintf(store[i], "%s", i == pos ? BAD[ty][bad] : "4"); c.argv[c.argc++] = store[i]; }
    } else for (unsigned i = 0; i < n; i++) {
        if (i == 0 || split) { c.argv[c.argc++] = "--val"; if (i) o++; c.argv[c.argc++] = one + o; } else one[o++] = ',';
        o += (size_t)sprintf(one + o, "%s", i == pos ? BAD[ty][bad] : "4");
    }
    m_check(&c, "malformed");
}
/* lengths worth trying for a common prefix */
static unsigned plen(unsigned i) { return i < 42 ? i : i < 47 ? i + 20 : i < 52 ? i + 79 : i < 57 ? i + 202 : i < 62 ? i + 453 : i < 67 ? i + 960 : 4096; }
static void longel(uint64_t idx, const void *arg)
{
    (void)arg; static const char *SX[] = {"", "a", "b", "a=b", " ", "-1"}; unsigned p = plen((unsigned)(idx % 68)); idx /= 68; unsigned how = (unsigned)(idx % 4); idx /= 4; unsigned a = (unsigned)(idx % 6), b = (unsigned)(idx / 6 % 6), n = 1 + (unsigned)(idx / 36); static char w[8][8400];
    dcase_t c = {.tmpl = how == 3 ? VS : AS}; size_t o = 0; if (how == 3) c.argv[c.argc++] = "--"; if (!p && (!a || !b)) return;
    for (unsigned i = 0; i < n; i++) { if (how != 0 && how != 2) o = 0; char *t = w[how == 0 || how == 2 ? 0 : i]; if (o) t[o++] = ','; memset(t + o, 'p', p); strcpy(t + o + p, SX[i % 2 ? b : a]); o += strlen(t + o); if (how == 1) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = t; } if (how == 3) c.argv[c.argc++] = t; }
    if (how == 0) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = w[0]; } if (how == 2) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = w[0]; }
    m_check(&c, how == 3 ? "many_string" : "array_string");
}
/* several collections filled in turn, at one level or one per level of a chain of commands */
static void several(uint64_t idx, const void *arg)
{
    (void)arg; unsigned m = 2 + (unsigned)(idx % 7); idx /= 7; unsigned n = (unsigned)(idx % 48) + 1; idx /= 48; unsigned ord = (unsigned)(idx % 3), chain = (unsigned)(idx / 3 % 2), bad = (unsigned)(idx / 6); static argus_option_t t[9][14]; static char nm[9][8], cn[9][8], w[400][24]; dcase_t c = {.tmpl = t[0]}; char tn[60];
    for (int i = (int)m - 1; i >= 0; i--) { sprintf(nm[i], "c%d", i); argus_option_t x = i % 3 == 0 ? (argus_option_t)OPTION_ARRAY_INT(0, nm[i], HELP("h")) : i % 3 == 1 ? (argus_option_t)OPTION_ARRAY_STRING(0, nm[i], HELP("h")) : (argus_option_t)OPTION_ARRAY_FLOAT(0, nm[i], HELP("h")); if (!chain) { t[0][i] = x; continue; } int k = 0; t[i][k++] = x; if (i < (int)m - 1) { sprintf(cn[i], "cmd%d", i); t[i][k++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h")); } t[i][k++] = (argus_option_t)OPTION_END(); }
    if (!chain) t[0][m] = (argus_option_t)OPTION_END();
    unsigned total = n * m > 180 ? 180 : n * m; if (chain && ord) return; if (bad && bad > m) return;
    for (unsigned i = 0; i < total; i++) { unsigned k = chain || ord == 1 ? i * m / total : ord == 0 ? i % m : (i * i + i / 3) % m; if (chain && k && (i - 1) * m / total != k) c.argv[c.argc++] = cn[k - 1]; sprintf(w[i], k % 3 == 0 ? "--c%u=%u" : k % 3 == 1 ? "--c%u=e%u" : "--c%u=%u.5", k, i); if (bad && k == bad - 1 && i + m >= total) strcat(w[i], "z,"); c.argv[c.argc++] = w[i]; }
    sprintf(tn, "%u collections chain=%u order=%u", m, chain, ord); m_check(&c, tn);
}
static const char *EB[3][8] = {{"12", "-7", "1-3", "3:1", "-2--1", "1,20", "4,2-3,5", "-5:-4,0"}, {"a", "ab,c", "x=y,z", "a b,-c", "1-3", ",a", "a,,b", "\xc3\xa9,q"}, {"1.5", "-2", "1e3", ".5,2.", "1,-2.5", "0.25,1e-1", "-.5", "7,8"}};
static void edits(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; unsigned how = (unsigned)(idx % 3), b = (unsigned)(idx / 3 % 8); char t[40], w[50];
    if (!edit_apply(EB[ty][b], idx / 24, t) || !*t || (ty != 1 && edit_blank(t, ",-:")) || (ty == 2 && strpbrk(t, "xX"))) return;      /* hexadecimal floats and leading blanks: not stated */
    dcase_t c = {.tmpl = T[ty], .argc = 1};
    if (how == 0) { sprintf(w, "--val=%s", t); c.argv[0] = w; } else if (how == 1) { c.tmpl = T[ty + 3]; c.argv[0] = "--"; c.argv[1] = t; c.argc = 2; } else { c.argc = 0; c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = t; }
    m_check(&c, TN[how == 1 ? ty + 3 : ty]);
}
/* numbers written with leading zeros, alone, among others and as ends of ranges */
static void zeros(uint64_t idx, const void *arg)
{
    (void)arg; unsigned z = plen((unsigned)(idx % 67)); idx /= 67; unsigned f = (unsigned)(idx % 10), how = (unsigned)(idx / 10 % 3), fl = (unsigned)(idx / 30); static char Z[2200], w[9000]; memset(Z, '0', z); Z[z] = 0;
    static const char *F[] = {"%1$s5", "-%1$s5", "%1$s1-%1$s3", "%1$s3:%1$s1", "-%1$s3--%1$s1", "1-%1$s3", "%1$s1:2", "7,%1$s5,%1$s9", "-%1$s2:1", "%1$s5x"}, *D[] = {"%1$s5", "-%1$s5", "%1$s1.5", "0.%1$s3", "-%1$s3.%1$s1", "1.5%1$s", "%1$s1e%1$s2", "7,%1$s5,%1$s9", "1.%1$s,2", "%1$s5x"};
    snprintf(w, sizeof w, (fl ? D : F)[f], Z); dcase_t c = {.tmpl = T[(fl ? 2 : 0) + (how == 2 ? 3 : 0)]};
    if (how == 1) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = w; } else { c.argv[c.argc++] = how ? "--" : "-v"; c.argv[c.argc++] = w; } m_check(&c, "leading zeros");
}
void mc_register(int thorough)
{
    for (int t = 0; t < 3; t++) d_space(((const char *[]){"edits/int", "edits/string", "edits/float"})[t], 24ull * EDIT_COUNT, edits, (void *)(intptr_t)t);
    CL = thorough ? 7 : 6; EL = thorough ? 5 : 4;
    for (int t = 0; t < 3; t++) {
        unsigned a = (unsigned)strlen(CHS[t]); static const char *N1[] = {"chars/int", "chars/string", "chars/float"}, *N2[] = {"pairs/int", "pairs/string", "pairs/float"}, *N3[] = {"lists/int", "lists/string", "lists/float"};
        d_space(N1[t], seq_count(a, CL) * 5, chars, (void *)(intptr_t)t);
        d_space(N2[t], (seq_count(a, 3) - 1) * (seq_count(a, 3) - 1) * 2, pairs, (void *)(intptr_t)t);
        d_space(N3[t], seq_count(EE[t].n, EL) * 16 * 3, lists, (void *)(intptr_t)t); d_space_dressed(N3[t], seq_count(EE[t].n, EL - 1) * 16 * 3, lists, (void *)(intptr_t)t);
    }
    d_space("leading zeros", 67 * 60, zeros, NULL);
    d_space("growth", 300 * 4 * 3, growth, NULL);
    d_space("prefixed", 41 * 40 * 4, prefixed, NULL);
    d_space("ranges", 300 * 8 * 4, ranges, NULL);
    d_space("longrange", thorough ? 100 : 12, longrange, NULL);
    d_space("malformed", 24 * 24 * 6 * 3 * 2, malformed, NULL);
    d_space("long elements", 68ull * 4 * 36 * 3, longel, NULL); d_space("several", 7ull * 48 * 6 * 9, several, NULL);
}
