/* C07: sorted and unique arrays are exactly the sorted / duplicate-free list. */
#include "model.h"
const char *mc_property = "C07";
const char *mc_bounds =
    "the six collection types (int/string/float arrays and multi-value positionals) with sorted, unique and both: every sequence of up to 4 (6) elements out of 8 per type "
    "(repeats, ranges, type limits, 64-bit values, equal prefixes, high bytes, upper case, tiny and huge floats) with every split over occurrences; every command-line list of up to 2 elements "
    "with every environment list of up to 3, with and without override; all permutations of 8 distinct elements; lengths 1..70 and around multiples of 64 up to 300 in 6 patterns with 1..n distinct values; four strings agreeing on a prefix of 0..4096 bytes; every triple of 20 numbers next to powers of two; every sorted list of up to 4 out of two sets of 10 floats that lie as close as doubles can; two collections with different flags filled in turn with up to 5 elements.";
#define E ENV_VAR("V")
#define TBL3(nm, MAC, ...) \
    ARGUS_OPTIONS(nm##_s, MAC('v', "val", HELP("h"), E, FLAGS(FLAG_SORTED __VA_ARGS__)), ) \
    ARGUS_OPTIONS(nm##_u, MAC('v', "val", HELP("h"), E, FLAGS(FLAG_UNIQUE __VA_ARGS__)), ) \
    ARGUS_OPTIONS(nm##_b, MAC('v', "val", HELP("h"), E, FLAGS(FLAG_SORTED | FLAG_UNIQUE __VA_ARGS__)), )
TBL3(AI, OPTION_ARRAY_INT) TBL3(AS, OPTION_ARRAY_STRING) TBL3(AF, OPTION_ARRAY_FLOAT)
TBL3(OI, OPTION_ARRAY_INT, | FLAG_ENV_OVERRIDE) TBL3(OS, OPTION_ARRAY_STRING, | FLAG_ENV_OVERRIDE) TBL3(OF, OPTION_ARRAY_FLOAT, | FLAG_ENV_OVERRIDE)
#define VT(nm, MAC) ARGUS_OPTIONS(nm##_s, OPTION_FLAG('f', "flag", HELP("h")), MAC("val", HELP("h"), FLAGS(FLAG_SORTED)), ) ARGUS_OPTIONS(nm##_u, OPTION_FLAG('f', "flag", HELP("h")), MAC("val", HELP("h"), FLAGS(FLAG_UNIQUE)), ) \
    ARGUS_OPTIONS(nm##_b, OPTION_FLAG('f', "flag", HELP("h")), MAC("val", HELP("h"), FLAGS(FLAG_SORTED | FLAG_UNIQUE)), )
VT(VI, POSITIONAL_MANY_INT) VT(VS, POSITIONAL_MANY_STRING) VT(VF, POSITIONAL_MANY_FLOAT)
static const argus_option_t *T[3][3] = {{AI_s, AI_u, AI_b}, {AS_s, AS_u, AS_b}, {AF_s, AF_u, AF_b}};
static const argus_option_t *O[3][3] = {{OI_s, OI_u, OI_b}, {OS_s, OS_u, OS_b}, {OF_s, OF_u, OF_b}};
static const argus_option_t *V[3][3] = {{VI_s, VI_u, VI_b}, {VS_s, VS_u, VS_b}, {VF_s, VF_u, VF_b}};
static const char *TN[3][3] = {{"int/sorted", "int/unique", "int/both"}, {"string/sorted", "string/unique", "string/both"}, {"float/sorted", "float/unique", "float/both"}};
static const char *EL[3][8] = {
    {"1", "3", "-2", "10", "2-4", "2147483647", "-2147483648", "1:-1"},
    {"a", "b", "abc", "ab", "B", "\xc3\xa9", "10", "9"},
    {"1", "1.25", "-2", "1e300", "-1e300", "1.5", "0.999", "10"}};
static const char *VEL[3][8] = {
    {"1", "3", "-2", "9223372036854775807", "-9223372036854775808", "4294967297", "10", "4294967296"},
    {"a", "b", "a,b", "ab", "B", "\xff", "", "commonprefix1"},
    {"1", "1.25", "-2", "1e300", "-1e300", "1.5", "0.999", "10"}};
static unsigned L;
static void seqs(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 3); idx /= 3; unsigned split = (unsigned)(idx % (1u << (L - 1))); idx >>= L - 1;
    unsigned k[8], n = seq_decode(idx, 8, L, k);
    if (!n || split >> (n - 1)) return;
    char w[8][120]; int words = 0; strcpy(w[0], "--val=");
    for (unsigned i = 0; i < n; i++) {
        if (i) { if (split >> (i - 1) & 1) strcpy(w[++words], "--val="); else strcat(w[words], ","); }
        strcat(w[words], EL[ty][k[i]]);
    }
    dcase_t c = {.tmpl = T[ty][fl]};
    for (int i = 0; i <= words; i++) c.argv[c.argc++] = w[i];
    m_check(&c, TN[ty][fl]);
}
static void many(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 3); idx /= 3; unsigned mid = (unsigned)(idx % 2); idx /= 2;
    unsigned k[8], n = seq_decode(idx, 8, L, k);
    dcase_t c = {.tmpl = V[ty][fl]};
    for (unsigned i = 0; i < n; i++) {
        if (mid && i == 1) c.argv[c.argc++] = "-f";
        if (ty == 1 && i == 0 && !mid) c.argv[c.argc++] = "--";
        c.argv[c.argc++] = VEL[ty][k[i]];
    }
    m_check(&c, TN[ty][fl]);
}
static const char *join(unsigned *k, unsigned n, int ty, char *o) { *o = 0; for (unsigned i = 0; i < n; i++) { if (i) strcat(o, ","); strcat(o, EL[ty][k[i]]); } return o; }
static void envs(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 3); idx /= 3; int ov = (int)(idx % 2); idx /= 2;
    unsigned k[8], n; char a[80], b[80]; uint64_t c2 = seq_count(8, 2);
    dcase_t c = {.tmpl = ov ? O[ty][fl] : T[ty][fl]};
    n = seq_decode(idx % c2, 8, 2, k); join(k, n, ty, a); if (n) { c.argv[0] = "-v"; c.argv[1] = a; c.argc = 2; }
    n = seq_decode(idx / c2, 8, 3, k); join(k, n, ty, b); if (n) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = b; }
    m_check(&c, TN[ty][fl]);
}
static const char *PEL[3][8] = {
    {"5", "-7", "0", "2147483647", "-2147483648", "6", "100", "-1"},
    {"a", "aa", "b", "A", "\xf0", "~", "0", "aB"},
    {"0.5", "-0.5", "1e10", "1e-3", "0", "-1e10", "0.25", "3"}};
static void perms(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 3); idx /= 3; int how = (int)(idx % 3); idx /= 3;
    bool used[8] = {0}; char t[200] = ""; dcase_t c = {.tmpl = how == 2 ? V[ty][fl] : T[ty][fl]};
    char half[200]; 
    if (how == 2) c.argv[c.argc++] = "--";
    for (unsigned i = 8; i > 0; i--) {
        unsigned r = (unsigned)(idx % i); idx /= i; unsigned j = 0;
        for (;; j++) if (!used[j] && r-- == 0) break;
        used[j] = true;
        if (how == 2) c.argv[c.argc++] = PEL[ty][j];
        else { if (*t) strcat(t, ","); strcat(t, PEL[ty][j]); if (how == 1 && i == 5) { strcpy(half, t); *t = 0; } }
    }
    if (how == 1) { c.argv[c.argc++] = "--val"; c.argv[c.argc++] = half; }
    if (how < 2) { c.argv[c.argc++] = "--val"; c.argv[c.argc++] = t; }
    m_check(&c, TN[ty][fl]);
}
static char one[8192], store[400][24];
static void lens(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 3); idx /= 3; int how = (int)(idx % 2); idx /= 2; unsigned pat = (unsigned)(idx % 6); idx /= 6; unsigned dist = (unsigned)(idx % 5), n = 1 + (unsigned)(idx / 5);
    if (n > 70 && !(n % 64 == 0 || n % 64 == 1 || n % 64 == 63 || n == 100 || n == 300)) return;
    if (how && n > 140) return;
    unsigned D = dist == 0 ? 1 : dist == 1 ? 2 : dist == 2 ? 7 : dist == 3 ? n / 2 + 1 : n;
    dcase_t c = {.tmpl = how ? V[ty][fl] : T[ty][fl]}; size_t o = 0;
    if (how) c.argv[c.argc++] = "--"; else { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = one; }
    for (unsigned i = 0; i < n; i++) {
        unsigned p = pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i % 2 ? n - i : i) : pat == 3 ? i * 7919 % 1009 : pat == 4 ? (i + n / 2) % n : (i * i) % 811;
        char *b = store[i]; p %= D;
        if (ty == 0) sprintf(b, "%d", (int)p - (int)D / 2); else if (ty == 1) sprintf(b, "k%u", p); else sprintf(b, "%g", ((double)p - D / 2.0) * 0.125);
        if (how) c.argv[c.argc++] = b; else o += (size_t)sprintf(one + o, "%s%s", i ? "," : "", b);
    }
    m_check(&c, TN[ty][fl]);
}
/* sizes around the powers of two */
static void big(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 3); idx /= 3; unsigned how = (unsigned)(idx % 2); idx /= 2; unsigned pat = (unsigned)(idx % 4), dist = (unsigned)(idx / 4 % 3); static const unsigned N[] = {255, 256, 257, 301, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1026, 2047, 2048, 2049}; unsigned n = N[idx / 12]; static char t[60000]; size_t o = 0;
    unsigned D = dist == 0 ? n : dist == 1 ? n / 2 + 1 : n - 1; for (unsigned i = 0; i < n; i++) {
        unsigned p = pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? i * 7919 % 100003 : (i % 2 ? n - i : i); p %= D;
        o += (size_t)sprintf(t + o, ty == 0 ? "%s%d" : ty == 1 ? "%sk%d" : "%s%d.5", i ? "," : "", (int)p - (ty == 1 ? 0 : 300)); }
    dcase_t c = {.tmpl = T[ty][fl]}; if (how) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = t; } else { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = t; } m_check(&c, TN[ty][fl]);
}
/* lengths worth trying for a common prefix */
static unsigned plen(unsigned i) { return i < 42 ? i : i < 47 ? i + 20 : i < 52 ? i + 79 : i < 57 ? i + 202 : i < 62 ? i + 453 : i < 67 ? i + 960 : 4096; }
/* elements that agree on a long prefix */
static void longpre(uint64_t idx, const void *arg)
{
    (void)arg; static const char *SX[] = {"", "a", "b", "B", "aa", "\xc3\xa9"}; unsigned p = plen((unsigned)(idx % 68)); idx /= 68; int fl = (int)(idx % 3); idx /= 3; unsigned how = (unsigned)(idx % 2); idx /= 2; unsigned k[4] = {(unsigned)(idx % 6), (unsigned)(idx / 6 % 6), (unsigned)(idx / 36 % 6), (unsigned)(idx / 216)}; static char w[4][4200], all[4 * 4200]; size_t o = 0;
    dcase_t c = {.tmpl = how ? V[1][fl] : T[1][fl]}; if (how) c.argv[c.argc++] = "--"; for (unsigned i = 0; i < 4; i++) { memset(w[i], 'p', p); strcpy(w[i] + p, SX[k[i]]); if (how) c.argv[c.argc++] = w[i]; o += (size_t)sprintf(all + o, "%s%s", i ? "," : "", w[i]); }
    if (!how) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = all; } if (o < 4) return; m_check(&c, TN[1][fl]);
}
/* numbers next to the powers of two and of ten */
static const char *NUM[3][20] = {
    {"0", "1", "-1", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "16777216", "16777217", "1073741824", "2147483646", "2147483647", "-2147483648", "-2147483647", "-32768", "-65536"},
    {"0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-4294967296", "4294967297", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "4611686018427387904", "-4611686018427387905"},
    {"0", "1", "-1", "2147483648", "2147483649", "-2147483649", "4294967296.5", "4294967297.5", "1e15", "1000000000000001", "0.5", "0.500001", "0.499999", "-0.5", "1e300", "1.0000001e300", "-1e300", "1e-3", "2e-3", "16777217"}};
static void numbers(uint64_t idx, const void *arg)
{
    int g = (int)(intptr_t)arg, fl = (int)(idx % 3); idx /= 3; unsigned how = (unsigned)(idx % 2); idx /= 2; unsigned k[3] = {(unsigned)(idx % 20), (unsigned)(idx / 20 % 20), (unsigned)(idx / 400)}; if (g == 1 && !how) return; char w[120]; int ty = g == 2 ? 2 : 0;
    dcase_t c = {.tmpl = how ? V[ty][fl] : T[ty][fl]}; if (how) { c.argv[c.argc++] = "--"; for (int i = 0; i < 3; i++) c.argv[c.argc++] = NUM[g][k[i]]; } else { sprintf(w, "%s,%s,%s", NUM[g][k[0]], NUM[g][k[1]], NUM[g][k[2]]); c.argv[c.argc++] = "-v"; c.argv[c.argc++] = w; } m_check(&c, TN[ty][fl]);
}
/* every sorted list of up to 4 out of two sets of 10 floats that lie as close as doubles can; two collections with different flags filled in turn, on one level or two */
static void twins(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; int f1 = (int)(idx % 3), f2 = (int)(idx / 3 % 3); idx /= 9; unsigned chain = (unsigned)(idx % 2); idx /= 2; unsigned k[8], n = seq_decode(idx, 8, 5, k); static argus_option_t t[6], sub[4]; dcase_t c = {.tmpl = t}; static char w[8][80]; argus_option_t x = T[ty][f1][0], y = T[ty][f2][0]; if (x.type != TYPE_OPTION || x.value_type == VALUE_TYPE_FLAG) { x = T[ty][f1][1]; y = T[ty][f2][1]; } y.sname = 'w'; y.lname = y.name = chain ? "val" : "wal"; y.env_name = NULL; if (!chain) { t[0] = x; t[1] = y; t[2] = (argus_option_t)OPTION_END(); } else { sub[0] = y; sub[1] = (argus_option_t)OPTION_END(); t[0] = x; t[1] = (argus_option_t)SUBCOMMAND("sub", sub, HELP("h")); t[2] = (argus_option_t)OPTION_END(); }
    unsigned half = n / 2; for (unsigned i = 0; i < n; i++) { bool second = chain ? i >= half : i % 2; if (chain && i == half) c.argv[c.argc++] = "sub"; sprintf(w[i], second ? "-w%s" : "-v%s", EL[ty][k[i]]); c.argv[c.argc++] = w[i]; } m_check(&c, TN[ty][f1]);
}
/* floats next to each other */
static const char *CLOSE[10] = {"0.5", "0.50000005", "0.50000002", "0.5000000000000001", "-0.5", "-0.5000000000000001", "0", "4.9e-324", "1e-300", "2e-300"};
static const char *CLOSE2[10] = {"1", "1.0000000000000002", "1.00000001", "1.0000001", "1e300", "1.0000000000000002e300", "100000", "100000.00000000001", "100000.000001", "-100000.000001"};
static void close_floats(uint64_t idx, const void *arg)
{
    (void)arg; const char **N = idx % 2 ? CLOSE : CLOSE2; idx /= 2; unsigned how = (unsigned)(idx % 2); idx /= 2; unsigned k[4], n = seq_decode(idx, 10, 4, k); if (!n) return; char w[160] = "--val=";
    dcase_t c = {.tmpl = how ? V[2][0] : T[2][0]}; if (how) c.argv[c.argc++] = "--"; else c.argv[c.argc++] = w; for (unsigned i = 0; i < n; i++) if (how) c.argv[c.argc++] = N[k[i]]; else { if (i) strcat(w, ","); strcat(w, N[k[i]]); } m_check(&c, TN[2][0]);
}
void mc_register(int thorough)
{
    static const char *NM[3][5] = {{"seqs/int", "many/int", "env/int", "perms/int", "lengths/int"}, {"seqs/string", "many/string", "env/string", "perms/string", "lengths/string"}, {"seqs/float", "many/float", "env/float", "perms/float", "lengths/float"}};
    L = thorough ? 6 : 4;
    for (int t = 0; t < 3; t++) {
        void *a = (void *)(intptr_t)t;
        d_space(NM[t][0], (seq_count(8, L) << (L - 1)) * 3, seqs, a);
        d_space(NM[t][1], seq_count(8, L) * 6, many, a);
        d_space(NM[t][2], seq_count(8, 2) * seq_count(8, 3) * 6, envs, a); d_space_dressed(NM[t][2], seq_count(8, 2) * seq_count(8, 2) * 6, envs, a); d_space_dressed(NM[t][1], seq_count(8, 3) * 6, many, a);
        d_space(NM[t][3], 40320 * 9, perms, a);
        d_space(NM[t][4], 300 * 5 * 6 * 2 * 3, lens, a);
    }
    for (int t = 0; t < 3; t++) mc_space_chunk(((const char *[]){"big/int", "big/string", "big/float"})[t], 16 * 12 * 6, 4, big, (void *)(intptr_t)t);
    d_space("close floats", 4 * seq_count(10, 4), close_floats, NULL);
    d_space("long prefixes", 68ull * 6 * 1296, longpre, NULL); d_space("numbers/int", 8000 * 6, numbers, (void *)0); d_space("numbers/int64", 8000 * 6, numbers, (void *)1); d_space("numbers/float", 8000 * 6, numbers, (void *)2);
    d_space("twins/int", 18 * seq_count(8, 5), twins, (void *)0); d_space("twins/string", 18 * seq_count(8, 5), twins, (void *)1); d_space("twins/float", 18 * seq_count(8, 5), twins, (void *)2);
}
