/* C09: map ordering and uniqueness flags hold. */
#include "model.h"
const char *mc_property = "C09";
const char *mc_bounds =
    "string, int, float and bool maps with all seven combinations of sorted-key, sorted-value and unique-value: every sequence of up to 3 (5) pairs out of 4 keys x 4 values "
    "(byte-order traps, 64-bit extremes, huge and close floats) with every split over occurrences; command line of up to 2 pairs against environment of up to 2, with and without override; all permutations of 7 pairs "
    "with 1..7 distinct values; 1..300 keys in 5 patterns; keys and values agreeing on a prefix of 0..4096 bytes; every triple of 20 numbers next to powers of two as values; two maps with different flags filled in turn, at one level or two.  Order, keys, values and lookups are compared with the model (entries of equal value are not ordered by sorted-value).";
#define E ENV_VAR("V")
#define COMBO(X) X(1, FLAG_SORTED_KEY) X(2, FLAG_SORTED_VALUE) X(3, FLAG_SORTED_KEY | FLAG_SORTED_VALUE) X(4, FLAG_UNIQUE_VALUE) X(5, FLAG_UNIQUE_VALUE | FLAG_SORTED_KEY) X(6, FLAG_UNIQUE_VALUE | FLAG_SORTED_VALUE) X(7, FLAG_UNIQUE_VALUE | FLAG_SORTED_KEY | FLAG_SORTED_VALUE)
#define DEF(k, f) ARGUS_OPTIONS(MS##k, OPTION_MAP_STRING('v', "val", HELP("h"), E, FLAGS(f)), ) ARGUS_OPTIONS(MI##k, OPTION_MAP_INT('v', "val", HELP("h"), E, FLAGS(f)), ) \
    ARGUS_OPTIONS(MF##k, OPTION_MAP_FLOAT('v', "val", HELP("h"), E, FLAGS(f)), ) ARGUS_OPTIONS(MB##k, OPTION_MAP_BOOL('v', "val", HELP("h"), E, FLAGS(f)), ) \
    ARGUS_OPTIONS(OS##k, OPTION_MAP_STRING('v', "val", HELP("h"), E, FLAGS((f) | FLAG_ENV_OVERRIDE)), ) ARGUS_OPTIONS(OI##k, OPTION_MAP_INT('v', "val", HELP("h"), E, FLAGS((f) | FLAG_ENV_OVERRIDE)), ) \
    ARGUS_OPTIONS(OF##k, OPTION_MAP_FLOAT('v', "val", HELP("h"), E, FLAGS((f) | FLAG_ENV_OVERRIDE)), ) ARGUS_OPTIONS(OB##k, OPTION_MAP_BOOL('v', "val", HELP("h"), E, FLAGS((f) | FLAG_ENV_OVERRIDE)), )
COMBO(DEF)
#define ROW(p) {p##S1, p##S2, p##S3, p##S4, p##S5, p##S6, p##S7}, {p##I1, p##I2, p##I3, p##I4, p##I5, p##I6, p##I7}, {p##F1, p##F2, p##F3, p##F4, p##F5, p##F6, p##F7}, {p##B1, p##B2, p##B3, p##B4, p##B5, p##B6, p##B7}
static const argus_option_t *T[4][7] = {ROW(M)}, *O[4][7] = {ROW(O)};
static char nm[80];
static const char *name(int ty, int fl) { static const char *TN[] = {"map_string", "map_int", "map_float", "map_bool"}; fl++; sprintf(nm, "%s%s%s%s", TN[ty], fl & 1 ? "+sorted-key" : "", fl & 2 ? "+sorted-value" : "", fl & 4 ? "+unique-value" : ""); return nm; }
static const char *KEY[] = {"b", "a", "B", "ab"};
static const char *VAL[4][4] = {{"b", "a", "ab", "\xff"}, {"4294967296", "0", "-9223372036854775808", "9223372036854775807"}, {"0.25", "0", "-1e300", "1e300"}, {"yes", "no", "1", "0"}};
static unsigned L;
static void pair(char *o, int ty, unsigned k) { strcat(o, KEY[k / 4]); strcat(o, "="); strcat(o, VAL[ty][k % 4]); }
static void seqs(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 7); idx /= 7; unsigned split = (unsigned)(idx % (1u << (L - 1))); idx >>= L - 1;
    unsigned k[8], n = seq_decode(idx, 16, L, k);
    if (!n || split >> (n - 1)) return;
    char w[8][200]; int words = 0; strcpy(w[0], "--val=");
    for (unsigned i = 0; i < n; i++) {
        if (i) { if (split >> (i - 1) & 1) strcpy(w[++words], "--val="); else strcat(w[words], ","); }
        pair(w[words], ty, k[i]);
    }
    dcase_t c = {.tmpl = T[ty][fl]};
    for (int i = 0; i <= words; i++) c.argv[c.argc++] = w[i];
    m_check(&c, name(ty, fl));
}
static void envs(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 7); idx /= 7; int ov = (int)(idx % 2); idx /= 2; uint64_t s2 = seq_count(16, 2);
    unsigned k[8], n; char a[100] = "", b[100] = "";
    dcase_t c = {.tmpl = ov ? O[ty][fl] : T[ty][fl]};
    n = seq_decode(idx % s2, 16, 2, k); for (unsigned i = 0; i < n; i++) { if (i) strcat(a, ","); pair(a, ty, k[i]); }
    if (n) { c.argv[0] = "-v"; c.argv[1] = a; c.argc = 2; }
    n = seq_decode(idx / s2, 16, 2, k); for (unsigned i = 0; i < n; i++) { if (i) strcat(b, ","); pair(b, ty, k[i]); }
    if (n) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = b; }
    m_check(&c, name(ty, fl));
}
static const char *val(int ty, unsigned i, char *b)
{
    static const char *S[] = {"m", "Z", "zz", "0", "a", "mm", "\xe9"};
    if (ty == 0) sprintf(b, "%s", S[i % 7]); else if (ty == 1) sprintf(b, "%lld", ((long long)i - 3) * 3000000000ll); else if (ty == 2) sprintf(b, "%g", ((double)i - 3) * 0.125); else sprintf(b, "%s", i & 1 ? "on" : "off");
    return b;
}
static void perms(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 7); idx /= 7; int how = (int)(idx % 2); idx /= 2; unsigned D = 1 + (unsigned)(idx % 7); idx /= 7;
    bool used[7] = {0}; char t[2][200] = {"", ""}, b[40]; int h = 0; static const char *K[] = {"d", "a", "c", "aa", "C", "", "b"};
    for (unsigned i = 7; i > 0; i--) {
        unsigned r = (unsigned)(idx % i); idx /= i; unsigned j = 0;
        for (;; j++) if (!used[j] && r-- == 0) break;
        used[j] = true;
        if (*t[h]) strcat(t[h], ",");
        sprintf(t[h] + strlen(t[h]), "%s=%s", K[j], val(ty, j % D, b));
        if (how && i == 5) h = 1;
    }
    dcase_t c = {.tmpl = T[ty][fl], .argc = 2}; c.argv[0] = "-v"; c.argv[1] = t[0];
    if (how) { c.argv[2] = "--val"; c.argv[3] = t[1]; c.argc = 4; }
    m_check(&c, name(ty, fl));
}
static char one[1 << 14];
static void lens(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 7); idx /= 7; int how = (int)(idx % 2); idx /= 2; unsigned pat = (unsigned)(idx % 5); idx /= 5; unsigned dist = (unsigned)(idx % 4), n = 1 + (unsigned)(idx / 4);
    if (n > 70 && !(n % 64 == 0 || n % 64 == 1 || n % 64 == 63 || n == 100 || n == 300)) return;
    unsigned D = dist == 0 ? 1 : dist == 1 ? 3 : dist == 2 ? n / 2 + 1 : n;
    dcase_t c = {.tmpl = T[ty][fl]}; size_t o = 0; char b[40];
    for (unsigned i = 0; i < n; i++) {
        unsigned p = pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i % 2 ? n - i : i) : pat == 3 ? i * 7919 % 1009 : (i * i) % 811;
        if (i == 0 || (how && i % 50 == 20)) { c.argv[c.argc++] = "--val"; if (i) o++; c.argv[c.argc++] = one + o; } else one[o++] = ',';
        if (ty == 0) sprintf(b, "v%u", p % D); else val(ty, p % D, b);
        o += (size_t)sprintf(one + o, "k%u=%s", (i * 31) % (n + 1), b);
    }
    m_check(&c, name(ty, fl));
}
/* lengths worth trying for a common prefix */
static unsigned plen(unsigned i) { return i < 42 ? i : i < 47 ? i + 20 : i < 52 ? i + 79 : i < 57 ? i + 202 : i < 62 ? i + 453 : i < 67 ? i + 960 : 4096; }
static void longpre(uint64_t idx, const void *arg)
{
    (void)arg; static const char *SX[] = {"", "a", "b", "B", "aa"}; unsigned p = plen((unsigned)(idx % 68)); idx /= 68; int fl = (int)(idx % 7); idx /= 7; unsigned side = (unsigned)(idx % 3); idx /= 3; static char pr[4200], w[3 * 8500]; char *o = w; memset(pr, 'p', p); pr[p] = 0;
    for (int i = 0; i < 3; i++, idx /= 5) o += sprintf(o, "%s%s%s%d=%s%s", i ? "," : "", side != 1 ? pr : "", SX[(idx % 5 + (unsigned)i) % 5], side == 2 ? 0 : 2 - i, side != 0 ? pr : "", SX[idx % 5]);
    dcase_t c = {.tmpl = T[0][fl], .argc = 2}; c.argv[0] = "-v"; c.argv[1] = w; m_check(&c, name(0, fl));
}
static const char *NUM[2][20] = {
    {"0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-4294967296", "4294967297", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "4611686018427387904", "-4611686018427387905"},
    {"0", "1", "-1", "2147483648", "2147483649", "-2147483649", "4294967296.5", "4294967297.5", "1e15", "1000000000000001", "0.5", "0.500001", "0.499999", "-0.5", "1e300", "1.0000001e300", "-1e300", "1e-3", "2e-3", "16777217"}};
static void numbers(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg, fl = (int)(idx % 7); idx /= 7; char w[120]; sprintf(w, "c=%s,a=%s,b=%s", NUM[ty - 1][idx % 20], NUM[ty - 1][idx / 20 % 20], NUM[ty - 1][idx / 400]); dcase_t c = {.tmpl = T[ty][fl], .argc = 2}; c.argv[0] = "-v"; c.argv[1] = w; m_check(&c, name(ty, fl));
}
static void twins(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; int f1 = (int)(idx % 7), f2 = (int)(idx / 7 % 7); idx /= 49; unsigned chain = (unsigned)(idx % 2); idx /= 2; unsigned k[8], n = seq_decode(idx, 8, 4, k); static argus_option_t t[6], sub[4]; dcase_t c = {.tmpl = t}; static char w[8][80]; argus_option_t x = T[ty][f1][0], y = T[ty][f2][0]; y.sname = 'w'; y.lname = y.name = chain ? "val" : "wal"; y.env_name = NULL; if (!chain) { t[0] = x; t[1] = y; t[2] = (argus_option_t)OPTION_END(); } else { sub[0] = y; sub[1] = (argus_option_t)OPTION_END(); t[0] = x; t[1] = (argus_option_t)SUBCOMMAND("sub", sub, HELP("h")); t[2] = (argus_option_t)OPTION_END(); }
    unsigned half = n / 2; for (unsigned i = 0; i < n; i++) { bool second = chain ? i >= half : i % 2; if (chain && i == half) c.argv[c.argc++] = "sub"; strcpy(w[i], second ? "-w" : "-v"); pair(w[i], ty, k[i] * 5 % 16); c.argv[c.argc++] = w[i]; } m_check(&c, name(ty, f1));
}
void mc_register(int thorough)
{
    static const char *N[4][4] = {{"seqs/string", "env/string", "perms/string", "lengths/string"}, {"seqs/int", "env/int", "perms/int", "lengths/int"}, {"seqs/float", "env/float", "perms/float", "lengths/float"}, {"seqs/bool", "env/bool", "perms/bool", "lengths/bool"}};
    L = thorough ? 5 : 3;
    for (int t = 0; t < 4; t++) {
        void *a = (void *)(intptr_t)t;
        d_space(N[t][0], (seq_count(16, L) << (L - 1)) * 7, seqs, a);
        d_space(N[t][1], seq_count(16, 2) * seq_count(16, 2) * 14, envs, a); d_space_dressed(N[t][1], seq_count(16, 2) * seq_count(16, 1) * 14, envs, a);
        d_space(N[t][2], 5040 * 7 * 14, perms, a);
        d_space(N[t][3], 300 * 4 * 5 * 14, lens, a);
    }
    d_space("long prefixes", 68ull * 7 * 3 * 125, longpre, NULL); d_space("numbers/int", 8000 * 7, numbers, (void *)1); d_space("numbers/float", 8000 * 7, numbers, (void *)2);
    for (int t = 0; t < 4; t++) d_space(((const char *[]){"twins/string", "twins/int", "twins/float", "twins/bool"})[t], 98 * seq_count(8, 4), twins, (void *)(intptr_t)t);
}
