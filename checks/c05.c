/* C05: scalar values are converted exactly or rejected. */
#include "model.h"
#include "edits.h"
const char *mc_property = "C05";
const char *mc_bounds =
    "every text of up to 5 (6) characters over an alphabet per type (int: 0 1 9 - + . x a space; float: 0 5 . - + e x; bool: letters of the documented spellings, "
    "0 and 1; string: a , = - space % newline 0xff), every one- and two-byte string, string lengths 0..600 and powers of two up to 1 MiB, all letter-case variants of the ten boolean spellings "
    "with every one-character deletion, insertion and substitution, integers at +-2 around every power of two and ten up to 10^25 with leading zeros and both signs, "
    "floats of 24 mantissas times every exponent -400..400; every one-byte edit (255 byte values) of six texts per type and every pair of bytes before, after and around two of them; each given as '--name=T', '--name T', '-nT', '-n T', positionally and by environment variable, to optional and "
    "overridden options.";

#define E ENV_VAR("V")
ARGUS_OPTIONS(TI, OPTION_INT('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(TF, OPTION_FLOAT('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(TB, OPTION_BOOL('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(TS, OPTION_STRING('v', "val", HELP("h"), E), OPTION_FLAG('f', "flag", HELP("h")), )
ARGUS_OPTIONS(PI, POSITIONAL_INT("val", HELP("h"), OPTL), )
ARGUS_OPTIONS(PF, POSITIONAL_FLOAT("val", HELP("h"), OPTL), )
ARGUS_OPTIONS(PB, POSITIONAL_BOOL("val", HELP("h"), OPTL), )
ARGUS_OPTIONS(PS, POSITIONAL_STRING("val", HELP("h"), OPTL), )
ARGUS_OPTIONS(DI, OPTION_INT('v', "val", HELP("h"), E, DEFAULT(77)), )
ARGUS_OPTIONS(DF, OPTION_FLOAT('v', "val", HELP("h"), E, DEFAULT(7.5)), )
ARGUS_OPTIONS(DB, OPTION_BOOL('v', "val", HELP("h"), E, DEFAULT(true)), )
ARGUS_OPTIONS(DS, OPTION_STRING('v', "val", HELP("h"), E, DEFAULT("dflt")), )
static const argus_option_t *OT[] = {TI, TF, TB, TS}, *PT[] = {PI, PF, PB, PS}, *DT[] = {DI, DF, DB, DS};
static const char *TN[] = {"int", "float", "bool", "string"};
#define NDEL 9
static char *big;
static void deliver(int type, int how, const char *text)
{
    dcase_t c = {.tmpl = OT[type]}; size_t n = strlen(text);
    char sm[64], *w = n > 50 ? malloc(n + 16) : sm;
    switch (how) {
        case 0: sprintf(w, "--val=%s", text); c.argv[c.argc++] = w; c.argv[c.argc++] = "-f"; break;
        case 1: c.argv[c.argc++] = "--val"; c.argv[c.argc++] = text; break;
        case 2: if (!n) return; sprintf(w, "-v%s", text); c.argv[c.argc++] = w; break;
        case 3: c.argv[c.argc++] = "-fv"; c.argv[c.argc++] = text; break;
        case 4: c.tmpl = PT[type]; c.argv[c.argc++] = "--"; c.argv[c.argc++] = text; break;
        case 5: c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = text; break;
        case 6: c.tmpl = DT[type]; c.argv[c.argc++] = "--val"; c.argv[c.argc++] = text; break;
        case 7: c.tmpl = DT[type]; c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = text; break;
        case 8: sprintf(w, "--val=%s", text); c.argv[c.argc++] = "--val=1"; c.argv[c.argc++] = w; break; /* later occurrence wins */
    }
    m_check(&c, TN[type]);
    if (w != sm) free(w);
}
static const char *CHS[] = {"019-+.xa ", "05.-+ex", "truefalsyno10", "a,=- %\n\xff"};
static unsigned CL[4];
static bool avoid(int type, const char *t)
{
    if (type < 2 && t[0] == ' ') return true;                         /* leading blanks: not stated */
    if (type == 1) {                                                  /* hexadecimal floats, inf, nan: not stated */
        const char *p = t; if (*p == '+' || *p == '-') p++;
        if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) return true;
    }
    return false;
}
static void chars(uint64_t idx, const void *arg)
{
    int type = (int)(intptr_t)arg, how = (int)(idx % NDEL); idx /= NDEL;
    char t[16]; unsigned k[16], a = (unsigned)strlen(CHS[type]), n = seq_decode(idx, a, CL[type], k);
    for (unsigned i = 0; i < n; i++) t[i] = CHS[type][k[i]];
    t[n] = 0;
    if (!avoid(type, t)) deliver(type, how, t);
}
/* boolean spellings: case variants, then every one-character edit of them */
static const char *SP[] = {"true", "yes", "1", "on", "y", "false", "no", "0", "off", "n"};
static const char EDIT[] = "teyn01 xo.";
static void bools(uint64_t idx, const void *arg)
{
    (void)arg; int how = (int)(idx % NDEL); idx /= NDEL;
    unsigned edit = (unsigned)(idx % 130); idx /= 130; unsigned cs = (unsigned)(idx % 32); const char *s = SP[idx / 32];
    char t[16]; size_t n = strlen(s); if (cs >> n) return;
    for (size_t i = 0; i < n; i++) t[i] = (cs >> i & 1) ? (char)(s[i] >= 'a' ? s[i] - 32 : s[i]) : s[i];
    t[n] = 0;
    if (edit) {
        edit--; unsigned pos = edit % 6, kind = edit / 6;            /* 0: delete, 1..10 insert, 11..20 substitute */
        if (kind == 0) { if (pos >= n) return; memmove(t + pos, t + pos + 1, n - pos); }
        else if (kind <= 10) { if (pos > n) return; memmove(t + pos + 1, t + pos, n - pos + 1); t[pos] = EDIT[kind - 1]; }
        else { if (pos >= n) return; t[pos] = EDIT[(kind - 11) % 10]; }
    }
    if (m_bool(t, (int)strlen(t)) != -2) deliver(2, how, t);
}
static void ints(uint64_t idx, const void *arg)
{
    (void)arg; int how = (int)(idx % NDEL); idx /= NDEL;
    int type = (int)(idx % 2); idx /= 2;
    unsigned form = (unsigned)(idx % 8); idx /= 8; int d = (int)(idx % 5) - 2; idx /= 5;
    __uint128_t b = 1;
    if (idx < 84) for (unsigned i = 0; i < idx; i++) b *= 2; else for (unsigned i = 84; i < idx; i++) b *= 10;
    if (b == 1 && d < -1) return;
    b += (__int128)d;
    char dg[64], t[80]; int p = 63; dg[p] = 0; do dg[--p] = (char)('0' + (int)(b % 10)); while (b /= 10);
    static const char *PRE[] = {"", "-", "+", "00", "-000", "+0", "--", "-+"};
    snprintf(t, sizeof t, "%s%s", PRE[form], dg + p);
    deliver(type, how, t);
}
static const char *MANT[] = {"1", "1.5", "9.999999999999999", "9.9999999999999999", "1.7976931348623157", "1.7976931348623159", "2.2250738585072014", "4.9406564584124654", "2.47", "0.1", ".1", "1.", "3.14159265358979323846264338327950288419716939937510", "9007199254740993", "0.30000000000000004", "123456789012345678901234567890", "0", "0.0", "-1", "-1.7976931348623157", "+2.5", "-.5", "1..", "e"};
static void floats(uint64_t idx, const void *arg)
{
    (void)arg; int how = (int)(idx % NDEL); idx /= NDEL;
    unsigned form = (unsigned)(idx % 4); idx /= 4; int e = (int)(idx % 801) - 400; const char *m = MANT[idx / 801];
    char t[128];
    if (form == 3 && e) return;
    static const char *F[] = {"%se%d", "%sE%+d", "%se%03d"};
    if (form == 3) snprintf(t, sizeof t, "%s", m); else snprintf(t, sizeof t, F[form], m, e);
    deliver(1, how, t);
}
static void bytes(uint64_t idx, const void *arg)
{
    (void)arg; int how = (int)(idx % NDEL); idx /= NDEL;
    char t[3] = {(char)(idx % 256), (char)(idx / 256), 0};
    deliver(3, how, t);
    if (idx < 256 && t[0]) for (int ty = 0; ty < 3; ty++) if (!(ty < 2 && strchr(" \t\n\v\f\r", t[0]))) deliver(ty, how, t);
}
static void lens(uint64_t idx, const void *arg)
{
    (void)arg; int how = (int)(idx % NDEL); idx /= NDEL;
    size_t n = idx <= 600 ? idx : (size_t)1 << (idx - 591);
    big = malloc(n + 1); for (size_t i = 0; i < n; i++) big[i] = (char)('a' + i % 23); big[n] = 0;
    mc_note("length %zu", n); int d = mc_describe; if (n > 200) mc_describe = 0;
    deliver(3, how, big);
    if (n && n < 300) { memset(big, '0', n); big[n - 1] = '7'; deliver(0, how, big); deliver(1, how, big); memset(big, '9', n); deliver(0, how, big); deliver(1, how, big); }
    mc_describe = d;
    free(big);
}
/* every text one byte away from a good one; every pair of bytes before, after and around one */
static const char *EB[4][6] = {{"0", "12", "-7", "+345", "9223372036854775807", "-9223372036854775808"}, {"0", "1.5", "-2.25", "1e10", "+.5", "12."}, {"true", "No", "1", "off", "Y", "0"}, {"", "a", "a=b", "-x", "a b", "%s"}};
static void edits(uint64_t idx, const void *arg)
{
    (void)arg; int how = (int)(idx % NDEL); idx /= NDEL; int type = (int)(idx % 4); idx /= 4; const char *b = EB[type][idx % 6]; char t[64];
    if (!edit_apply(b, idx / 6, t) || (type < 2 && (isspace((unsigned char)t[0]) || avoid(type, t)))) return;
    if (type != 2 || m_bool(t, (int)strlen(t)) != -2) deliver(type, how, t);
}
static void pairs(uint64_t idx, const void *arg)
{
    (void)arg; int type = (int)(idx % 3); idx /= 3; unsigned where = (unsigned)(idx % 3); idx /= 3; const char *b = EB[type][1 + idx % 2]; idx /= 2; char x = (char)(idx % 255 + 1), y = (char)(idx / 255 + 1), t[32];
    if (where == 0) sprintf(t, "%s%c%c", b, x, y); else if (where == 1) sprintf(t, "%c%s%c", x, b, y); else sprintf(t, "%c%c%s", x, y, b);
    const char *p = t; if (type < 2) { if (*p == '+' || *p == '-') p++; if (isspace((unsigned char)*p) || isspace((unsigned char)*t) || avoid(type, t)) return; }
    if (type != 2 || m_bool(t, (int)strlen(t)) != -2) deliver(type, (int)(idx % NDEL), t);
}
void mc_register(int thorough)
{
    CL[0] = thorough ? 6 : 5; CL[1] = thorough ? 7 : 6; CL[2] = thorough ? 5 : 4; CL[3] = thorough ? 6 : 5;
    static const char *NM[] = {"chars/int", "chars/float", "chars/bool", "chars/string"};
    for (int t = 0; t < 4; t++) d_space(NM[t], seq_count((unsigned)strlen(CHS[t]), CL[t]) * NDEL, chars, (void *)(intptr_t)t);
    d_space("edits", 24ull * EDIT_COUNT * NDEL, edits, NULL); d_space("pairs", 18ull * 65025, pairs, NULL);
    d_space("bools", 10ull * 32 * 130 * NDEL, bools, NULL);
    d_space("ints", (84 + 26) * 5ull * 8 * 2 * NDEL, ints, NULL);
    d_space("floats", 24ull * 801 * 4 * NDEL, floats, NULL);
    d_space("bytes", 65536ull * NDEL, bytes, NULL);
    for (int t = 0; t < 4; t++) d_space_dressed(NM[t], seq_count((unsigned)strlen(CHS[t]), 2) * NDEL, chars, (void *)(intptr_t)t);
    d_space_dressed("ints", (84 + 26) * 5ull * 8 * 2 * NDEL, ints, NULL);
    d_space("lengths", (601 + 11) * (uint64_t)NDEL, lens, NULL);
}
