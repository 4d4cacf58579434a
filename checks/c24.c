/* C24: the predefined patterns accept exactly the format they are named for. */
#include <ctype.h>
#include "drv.h"
const char *mc_property = "C24";
const char *mc_bounds =
    "the twenty predefined patterns, each as the only validator of a string option, against a recogniser written by hand from the documented format (three-valued: texts on which the "
    "documentation is silent are not asserted): every text of up to 4..7 (5..8) characters over an alphabet per pattern that can spell the format; every one-character deletion, insertion and "
    "substitution with every byte, canonical texts on one of several lines, and every two-character edit over that alphabet, of canonical texts; every octet 0..999 in every place, every port 0..99999 with and without leading zero, "
    "every month, day, hour, minute and second 00..99, every length around the documented limits; every IPv6 address of 1..8 groups of 1..4 characters with the compression at any place or nowhere and one character out of 28 at any place, of fourteen heads before every embedded IPv4 octet, and with every byte in the address or zone part of a link-local one; delivered by command line, positional and environment.";

/* ---- recognisers: 1 accept, 0 refuse, -1 not stated ---- */
static bool alnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool alpha(int c) { return alnum(c) && !(c >= '0' && c <= '9'); }
static bool digit(int c) { return c >= '0' && c <= '9'; }
static bool hex(int c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool blank(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static size_t span(const char *s, bool (*f)(int)) { size_t n = 0; while (s[n] && f((unsigned char)s[n])) n++; return n; }
static int r_ipv4(const char *s)
{
    int res = 1;
    for (int i = 0; i < 4; i++) {
        size_t n = span(s, digit); if (n < 1 || n > 3) return 0;
        int v = 0; for (size_t k = 0; k < n; k++) v = v * 10 + s[k] - '0';
        if (v > 255) return 0;
        if (n > 1 && s[0] == '0') res = -1;
        s += n;
        if (i < 3 && *s++ != '.') return 0;
    }
    return *s ? 0 : res;
}
static int r_ipv6(const char *s)
{
    const char *zone = strchr(s, '%');
    if (zone) {                                      /* link-local with a zone: fe80::, one to four groups, '%', letters and digits */
        if (strncmp(s, "fe80::", 6) || !zone[1] || zone[1 + span(zone + 1, alnum)]) return -1;
        for (const char *p = s + 5, *q; p < zone; p = q) { if (*p != ':') return -1; size_t n = span(p + 1, hex); if (n < 1 || n > 4) return -1; q = p + 1 + n; }
        int g = 0; for (const char *p = s + 5; p < zone; p++) g += *p == ':';
        return g >= 1 && g <= 4 ? 1 : -1;
    }
    if (strchr(s, '.')) {                            /* embedded IPv4: after '::', '::ffff:' or one to four groups and '::' */
        { const char *p = s; int g = 0; for (;;) { size_t n = span(p, hex); if (n < 1 || n > 4 || p[n] != ':') break; g++; p += n + 1; if (*p == ':') { if (g <= 4 && r_ipv4(p + 1) == 1) return 1; break; } } }
        const char *v4 = NULL; if (!strncmp(s, "::ffff:", 7)) v4 = s + 7; else if (!strncmp(s, "::", 2)) v4 = s + 2;
        if (v4 && r_ipv4(v4) == 1) return 1;
        const char *l = strrchr(s, ':'); if (!l || !r_ipv4(l + 1)) return 0;
        for (const char *p = s; p < l; p++) if (!hex(*p) && *p != ':') return 0;
        if (!strncmp(s, "::ffff:0", 8)) { size_t n = strspn(s + 7, "0"); if (n <= 4 && s[7 + n] == ':' && r_ipv4(s + 8 + n) == 1) return 1; }
        char u[1400]; if ((size_t)(l - s) + 8 > sizeof u) return -1; memcpy(u, s, (size_t)(l - s) + 1); strcpy(u + (l - s) + 1, "1:1"); /* the IPv4 part stands for two groups */
        return r_ipv6(u) == 0 ? 0 : -1;
    }
    int groups = 0; bool gap = false;
    if (s[0] == ':') { if (s[1] != ':') return 0; }
    const char *p = s;
    if (p[0] == ':' && p[1] == ':') { gap = true; p += 2; if (!*p) return 1; }
    for (;;) {
        size_t n = span(p, hex); if (n < 1 || n > 4) return 0;
        groups++; p += n;
        if (!*p) break;
        if (*p != ':') return 0;
        p++;
        if (*p == ':') { if (gap) return 0; gap = true; p++; if (!*p) break; }
    }
    return gap ? groups <= 7 : groups == 8;
}
static int r_port(const char *s)
{
    size_t n = span(s, digit); if (s[n] || !n || n > 5 || s[0] == '0') return 0;
    int v = atoi(s); return v >= 1 && v <= 65535;
}
/* labels of letters, digits and inner hyphens, 1..63 long */
static bool label(const char *s, size_t n)
{
    if (n < 1 || n > 63 || s[0] == '-' || s[n - 1] == '-') return false;
    for (size_t i = 0; i < n; i++) if (!alnum((unsigned char)s[i]) && s[i] != '-') return false;
    return true;
}
static int r_domain(const char *s)
{
    size_t t = strlen(s); if (!t || t > 253) return 0;
    const char *last = strrchr(s, '.'); if (!last) return 0;
    size_t k = span(last + 1, alpha); if (last[1 + k] || k < 2) return 0;
    for (const char *p = s; p <= last;) { const char *d = strchr(p, '.'); if (!label(p, (size_t)(d - p))) return 0; p = d + 1; }
    return k > 63 ? -1 : 1;
}
static int url_rest(const char *p)                   /* after "://" */
{
    if (!*p || strchr("/$.?#", *p)) return 0;
    for (const char *q = p; *q; q++) if (blank((unsigned char)*q)) return 0;
    return p[1] ? 1 : -1;
}
static int r_url(const char *s)
{
    if (!alpha((unsigned char)s[0])) return 0;
    size_t n = 1; while (s[n] && (alnum((unsigned char)s[n]) || strchr("+.-", s[n]))) n++;
    return strncmp(s + n, "://", 3) ? 0 : url_rest(s + n + 3);
}
static int r_http(const char *s)
{
    if (!strncmp(s, "http://", 7)) return url_rest(s + 7);
    if (!strncmp(s, "https://", 8)) return url_rest(s + 8);
    return !strncasecmp(s, "http", 4) && (s[0] != 'h' || s[1] != 't' || s[2] != 't' || s[3] != 'p' || s[4] == 'S') ? (r_url(s) ? -1 : 0) : 0;
}
static int r_email(const char *s)
{
    const char *at = strchr(s, '@'); if (!at || at == s || strchr(at + 1, '@')) return 0;
    for (const char *p = s; p < at; p++) if (!alnum((unsigned char)*p) && !strchr("._%+-", *p)) return 0;
    const char *d = at + 1, *last = strrchr(d, '.'); if (!last || last == d) return 0;
    for (const char *p = d; *p; p++) if (!alnum((unsigned char)*p) && *p != '.' && *p != '-') return 0;
    size_t k = span(last + 1, alpha); return k >= 2 && !last[1 + k];
}
static int r_email_strict(const char *s)
{
    const char *at = strrchr(s, '@'); if (!at || at == s) return 0;
    int res = 1;
    for (const char *p = s; p < at; p++) {
        if (!alnum((unsigned char)*p) && !strchr(".!#$%&'*+/=?^_`{|}~-", *p)) return 0;
        if (*p == '.' && (p == s || p + 1 == at || p[1] == '.')) res = -1;
    }
    for (const char *p = at + 1;;) { size_t n = strcspn(p, "."); if (!label(p, n)) return 0; if (!p[n]) break; p += n + 1; }
    return res;
}
static int two(const char *s) { return digit(s[0]) && digit(s[1]) ? (s[0] - '0') * 10 + s[1] - '0' : -1; }
static bool date10(const char *s)
{
    for (int i = 0; i < 10; i++) if (i == 4 || i == 7 ? s[i] != '-' : !digit(s[i])) return false;
    int m = two(s + 5), d = two(s + 8); return m >= 1 && m <= 12 && d >= 1 && d <= 31;
}
static int r_date(const char *s)
{
    if (strlen(s) != 10 || !date10(s)) return 0;
    return two(s + 8) > 28 ? (two(s + 8) > 30 || two(s + 5) == 2 ? (strchr("\1\3\5\7\10\12\14", two(s + 5)) ? 1 : -1) : 1) : 1;
}
static int r_time(const char *s)
{
    if (strlen(s) != 19 || !date10(s) || s[10] != 'T' || s[13] != ':' || s[16] != ':') return 0;
    int h = two(s + 11), m = two(s + 14), c = two(s + 17);
    if (h < 0 || h > 23 || m < 0 || m > 59 || c < 0 || c > 59) return 0;
    char d[11]; memcpy(d, s, 10); d[10] = 0; return r_date(d);
}
static int r_user(const char *s)
{
    size_t n = 0; for (; s[n]; n++) if (!alnum((unsigned char)s[n]) && s[n] != '_' && s[n] != '-') return 0;
    return n >= 3 && n <= 20;
}
static int r_passwd(const char *s)
{
    size_t n = 0; bool l = false, d = false, o = false;
    for (; s[n]; n++) { if (alpha((unsigned char)s[n])) l = true; else if (digit((unsigned char)s[n])) d = true; else o = true; }
    if (n < 8 || !l || !d) return 0;
    return o ? -1 : 1;
}
static int r_uuid(const char *s)
{
    if (strlen(s) != 36) return 0;
    for (int i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23 ? s[i] != '-' : !hex(s[i])) return 0;
    return s[14] == '4' && strchr("89abAB", s[19]);
}
static int r_path(const char *s) { if (s[0] != '/') return 0; return strchr(s, ' ') ? -1 : 1; }
static int r_filename(const char *s)
{
    const char *dot = strrchr(s, '.'); if (!dot || dot == s || !dot[1] || strchr(s, '/')) return 0;
    int res = 1; for (const char *p = s; p < dot; p++) if (!alnum((unsigned char)*p) && !strchr("_,- ", *p)) res = -1;
    size_t k = span(dot + 1, alpha); return dot[1 + k] || k > 5 ? -1 : res;
}
static bool ident(int c) { return alnum(c) || c == '-'; }
static const char *dotted(const char *p, bool pre)
{
    for (;;) {
        size_t n = span(p, ident); if (!n) return NULL;
        if (pre && span(p, digit) >= n && n > 1 && p[0] == '0') return NULL;
        p += n; if (*p != '.') return p; p++;
    }
}
static int r_semver(const char *s)
{
    for (int i = 0; i < 3; i++) { size_t n = span(s, digit); if (!n || (n > 1 && s[0] == '0')) return 0; s += n; if (i < 2 && *s++ != '.') return 0; }
    if (*s == '-') { s = dotted(s + 1, true); if (!s) return 0; }
    if (*s == '+') { s = dotted(s + 1, false); if (!s) return 0; }
    return !*s;
}
static int posint(const char *s)
{
    size_t n = span(s, digit); if (!n || s[n]) return 0;
    if (strspn(s, "0") == n) return 0;
    return s[0] == '0' ? -1 : 1;
}
static int r_pos(const char *s) { return s[0] == '+' ? (posint(s + 1) ? -1 : 0) : posint(s); }
static int r_neg(const char *s) { return s[0] == '-' ? posint(s + 1) : 0; }
static int r_float(const char *s)
{
    const char *p = s; if (*p == '-' || *p == '+') p++;
    size_t a = span(p, digit), b = 0; p += a; bool dot = *p == '.';
    if (dot) { p++; b = span(p, digit); p += b; }
    if (!a && !b) return 0;
    if (*p == 'e' || *p == 'E') { p++; if (*p == '-' || *p == '+') p++; size_t k = span(p, digit); return k && !p[k] ? -1 : 0; }
    if (*p) return 0;
    return dot && !b ? -1 : 1;
}
static int r_hex(const char *s)
{
    if (s[0] != '0' || (s[1] != 'x' && s[1] != 'X')) return 0;
    size_t n = span(s + 2, hex); if (!n || s[2 + n]) return 0;
    return s[1] == 'x' ? 1 : -1;
}

#define TAB(N, V) ARGUS_OPTIONS(O_##N, OPTION_STRING('v', "val", HELP("h"), ENV_VAR("V"), VALIDATOR(V)), ) ARGUS_OPTIONS(P_##N, POSITIONAL_STRING("val", HELP("h"), OPTL, VALIDATOR(V)), )
TAB(ipv4, V_RE_IPV4()) TAB(ipv6, V_RE_IPV6()) TAB(domain, V_RE_DOMAIN()) TAB(url, V_RE_URL()) TAB(http, V_RE_HTTP()) TAB(port, V_RE_PORT()) TAB(email, V_RE_EMAIL()) TAB(strict, V_RE_EMAIL_STRICT())
TAB(date, V_RE_ISO_DATE()) TAB(time, V_RE_ISO_TIME()) TAB(user, V_RE_USERNAME()) TAB(passwd, V_RE_PASSWORD()) TAB(uuid, V_RE_UUID()) TAB(path, V_REGEX(ARGUS_RE_UNIX_PATH)) TAB(filename, V_REGEX(ARGUS_RE_FILENAME))
TAB(semver, V_REGEX(ARGUS_RE_SEMVER)) TAB(pos, V_REGEX(ARGUS_RE_POS_INT)) TAB(neg, V_REGEX(ARGUS_RE_NEG_INT)) TAB(flt, V_REGEX(ARGUS_RE_FLOAT)) TAB(hx, V_REGEX(ARGUS_RE_HEX))
typedef struct { const char *name; const argus_option_t *o, *p; int (*rec)(const char *); const char *alpha; unsigned len; const char *seed[16]; } pat_t;
#define PAT(N, R, A, L, ...) {#N, O_##N, P_##N, R, A, L, {__VA_ARGS__}}
static const pat_t P[] = {
    PAT(ipv4, r_ipv4, "0125.", 7, "192.168.1.1", "0.0.0.0", "255.255.255.255", "249.199.99.10"),
    PAT(ipv6, r_ipv6, "0f:1", 7, "2001:db8::1", "1:2:3:4:5:6:7:8", "::", "::1", "fe80::1:2", "1:2:3:4:5:6:7::", "::ffff:1.2.3.4", "abcd:EF01:2345:6789:0000:ffff:1:0", "2001:db8::192.0.2.33", "a::250.249.199.9", "::ffff:0:255.0.0.1", "::ffff:0000:200.100.50.25", "1:2:3:4::0.0.0.0", "::249.250.19.255"),
    PAT(domain, r_domain, "a-.1Z", 6, "example.com", "a.b.co", "x-1.y2.org", "sub.example.co.uk"),
    PAT(url, r_url, "a:/.+ ", 6, "https://example.com/path", "a+b.c-1://x/y?z#w", "ftp://user@host:21/"),
    PAT(http, r_http, "htps:/.", 5, "http://example.com", "https://example.com/a?b=c", "http://1.2.3.4:80", "https://ab"),
    PAT(port, r_port, "0123456789", 5, "8080", "65535", "1", "59999", "60123", "65012", "65512", "65533", "9999"),
    PAT(email, r_email, "a@.-1_", 6, "user@example.com", "a.b%c+d-e_f@x-y.z.org", "u@1.co"),
    PAT(strict, r_email_strict, "a@.-1!", 6, "user.name+tag@example.com", "a!#$%&'*+/=?^_`{|}~-b@c", "u@a-b.c-d.e"),
    PAT(date, r_date, "0123-", 5, "2024-03-15", "1999-12-31", "0000-01-01", "2020-10-30"),
    PAT(time, r_time, "0T:-2", 5, "2024-03-15T14:30:00", "1999-12-31T23:59:59", "0001-01-01T00:00:00"),
    PAT(user, r_user, "aZ0_-.", 6, "user_123", "abc", "a-b_c-d_e-f_g-h_i-j0"),
    PAT(passwd, r_passwd, "aZ0", 9, "password123", "A1b2C3d4", "1234567a"),
    PAT(uuid, r_uuid, "4-a", 6, "550e8400-e29b-41d4-a716-446655440000", "ABCDEF01-2345-4789-8BCD-EF0123456789", "00000000-0000-4000-B000-000000000000"),
    PAT(path, r_path, "/a. -", 6, "/path/to/file", "/", "/a/", "/x//y"),
    PAT(filename, r_filename, "a.,-1/", 6, "document.pdf", "my file, v-1.jpeg", "_.c"),
    PAT(semver, r_semver, "01.-+a", 7, "1.2.3", "1.0.0-beta+build", "10.20.30-alpha.1.0b+001.x-y", "0.0.0-0", "1.0.0+0"),
    PAT(pos, r_pos, "019-+ax.", 5, "123", "1", "900000000000000000000"),
    PAT(neg, r_neg, "019-+ax.", 5, "-123", "-1", "-900000000000000000000"),
    PAT(flt, r_float, "05.-+e", 6, "3.14", "-2.7", "+.5", "10", "-0.0"),
    PAT(hx, r_hex, "0xXaFg1", 6, "0x1A3F", "0x0", "0xabcdefABCDEF0123456789"),
};
#define NPAT (sizeof P / sizeof *P)
static void judge(const pat_t *p, const char *text, int how)
{
    int want = p->rec(text); if (want < 0) return;
    dcase_t c = {.tmpl = p->o}; drun_t r; char w[1200];
    switch (how) {
        case 0: snprintf(w, sizeof w, "--val=%s", text); c.argv[c.argc++] = w; break;
        case 1: c.tmpl = p->p; c.argv[c.argc++] = "--"; c.argv[c.argc++] = text; break;
        case 2: c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = text; break;
    }
    NOTE("%s '%s' by %s, documented format %s it", p->name, text, how == 0 ? "option" : how == 1 ? "positional" : "environment", want ? "includes" : "excludes");
    d_begin(&r, &c); d_parse(&r); mc_exec(1); mc_trans(1);
    if (r.exited) mc_fail("the parse ended the program");
    if (want && r.status) mc_fail("refused with status %d", r.status);
    if (!want && !r.status) mc_fail("accepted");
    if (want) { argus_value_t v = argus_get(&r.argus, "val"); if (!v.as_string || strcmp(v.as_string, text)) mc_fail("stored '%s'", v.as_string ? v.as_string : "(null)"); }
    mc_state(mc_mix(mc_mixs(1, p->name), (uint64_t)(want * 8 + r.status)));
    d_free(&r); d_end(&r); d_env_clear(&c);
}
static unsigned EXTRA;
static void texts(uint64_t idx, const void *arg)
{
    const pat_t *p = arg; unsigned k[16], a = (unsigned)strlen(p->alpha), n = seq_decode(idx, a, p->len + EXTRA, k); char t[20];
    for (unsigned i = 0; i < n; i++) t[i] = p->alpha[k[i]];
    t[n] = 0; judge(p, t, 0);
}
#define SLOTS 96
/* kind 0 delete, 1..254 insert, 255..508 substitute */
static bool edit(char *t, unsigned pos, unsigned kind)
{
    size_t n = strlen(t);
    if (!kind) { if (pos >= n) return false; memmove(t + pos, t + pos + 1, n - pos); return true; }
    bool ins = kind < 256; int b = (int)(ins ? kind : kind - 255);
    if (ins) { if (pos > n) return false; memmove(t + pos + 1, t + pos, n - pos + 1); }
    else if (pos >= n) return false;
    t[pos] = (char)b; return true;
}
static void edits1(uint64_t idx, const void *arg)
{
    const pat_t *p = arg; int how = (int)(idx % 3); idx /= 3; unsigned kind = (unsigned)(idx % 511); idx /= 511; unsigned pos = (unsigned)(idx % 42); const char *s = p->seed[idx / 42];
    if (!s) return;
    char t[128]; strcpy(t, s); if (!edit(t, pos, kind)) return;
    judge(p, t, how); if (!pos && !kind) judge(p, s, how);
}
static bool edita(char *t, unsigned pos, unsigned kind, const char *al)
{
    unsigned a = (unsigned)strlen(al), b;
    if (!kind) return edit(t, pos, 0);
    kind--; b = (unsigned char)al[kind % a];
    return edit(t, pos, kind < a ? b : b + 255);
}
static void edits2(uint64_t idx, const void *arg)
{
    const pat_t *p = arg; unsigned a = 2 * (unsigned)strlen(p->alpha) + 1, k1 = (unsigned)(idx % a); idx /= a; unsigned k2 = (unsigned)(idx % a); idx /= a;
    unsigned p1 = (unsigned)(idx % 40); idx /= 40; unsigned p2 = (unsigned)(idx % 40); const char *s = p->seed[idx / 40];
    if (!s || p2 < p1) return;
    char t[128]; strcpy(t, s); if (!edita(t, p2, k2, p->alpha) || !edita(t, p1, k1, p->alpha)) return;
    judge(p, t, 0);
}
static void octets(uint64_t idx, const void *arg)
{
    (void)arg; unsigned v = (unsigned)(idx % 1000), place = (unsigned)(idx / 1000 % 4), pad = (unsigned)(idx / 4000); char t[64], o[4][8];
    for (unsigned i = 0; i < 4; i++) snprintf(o[i], 8, i != place ? "7" : pad ? "%03u" : "%u", v);
    snprintf(t, sizeof t, "%s.%s.%s.%s", o[0], o[1], o[2], o[3]); judge(&P[0], t, 0);
    if (!pad) { char u[80]; snprintf(u, sizeof u, "::ffff:%s", t); judge(&P[1], u, 0); snprintf(u, sizeof u, "::%s", t); judge(&P[1], u, 0); }
}
static void ports(uint64_t idx, const void *arg)
{
    (void)arg; char t[16]; static const char *F[] = {"%u", "0%u", "%u0", "-%u"}; snprintf(t, sizeof t, F[idx % 4], (unsigned)(idx / 4)); judge(&P[5], t, 0);
}
static void dates(uint64_t idx, const void *arg)
{
    (void)arg; static const char *Y[] = {"2024", "0000", "9999", "1900"}; char t[40], u[64]; unsigned a = (unsigned)(idx % 100), b = (unsigned)(idx / 100 % 100), y = (unsigned)(idx / 10000);
    snprintf(t, sizeof t, "%s-%02u-%02u", Y[y], a, b); judge(&P[8], t, 0);
    snprintf(u, sizeof u, "%sT12:00:59", t); judge(&P[9], u, 0);
    snprintf(u, sizeof u, "%s-10-20T%02u:%02u:%02u", Y[y], a, b, (a * 7 + b) % 100); judge(&P[9], u, 0);
    snprintf(u, sizeof u, "%s-10-20T10:%02u:%02u", Y[y], a, b); judge(&P[9], u, 0);
    snprintf(u, sizeof u, "%s-10-20T%02u:10:%02u", Y[y], a, b); judge(&P[9], u, 0);
}
/* every arrangement of groups and one gap in an IPv6 address: group lengths 1..5, number of groups 0..10, gap place */
static void groups(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 11); idx /= 11; unsigned gap = (unsigned)(idx % 12); idx /= 12; unsigned gap2 = (unsigned)(idx % 12); idx /= 12; unsigned odd = (unsigned)(idx % 11); idx /= 11; unsigned len = (unsigned)(idx % 6);
    char t[128] = ""; static const char *G[] = {"", "a", "0b", "C1d", "ffff", "12345"};
    if (gap > n + 1 && gap != 11) return;
    if (gap2 > n + 1 && gap2 != 11) return;
    for (unsigned i = 0; i <= n; i++) { /* separators before group i; gap g: a double colon in place g */
        if (i == gap || i == gap2) strcat(t, gap == gap2 && gap == i ? ":::" : "::"); else if (i && i < n) strcat(t, ":");
        if (i < n) strcat(t, i == odd ? G[len] : "1");
    }
    judge(&P[1], t, 0);
}
/* every shape of an address with every hexadecimal digit (and its neighbours) at every place of every group; every octet in every embedded IPv4 form; zones */
static void forms(uint64_t idx, const void *arg)
{
    (void)arg; static const char C[] = "0123456789abcdefABCDEFgG@/`:"; static const unsigned LP[10][2] = {{1, 0}, {2, 0}, {2, 1}, {3, 0}, {3, 1}, {3, 2}, {4, 0}, {4, 1}, {4, 2}, {4, 3}};
    char t[80] = "", g[8]; char c = C[idx % 28]; idx /= 28; unsigned lp = (unsigned)(idx % 10); idx /= 10; unsigned n = (unsigned)(idx % 8) + 1; idx /= 8; unsigned gap = (unsigned)(idx % 10), at = (unsigned)(idx / 10); /* gap 9: none */
    if (at >= n || (gap > n && gap != 9)) return;
    memset(g, '1', 8); g[LP[lp][0]] = 0; g[LP[lp][1]] = c;
    for (unsigned i = 0; i <= n; i++) { if (i == gap) strcat(t, "::"); else if (i && i < n) strcat(t, ":"); if (i < n) strcat(t, i == at ? g : "1"); }
    judge(&P[1], t, 0);
}
static void tails(uint64_t idx, const void *arg)
{
    (void)arg; static const char *H[] = {"::", "::ffff:", "1::", "64:ff9b::", "1:2:3::", "aB:c9:0:ffff::", "::FFFF:", "::ffff:0:", "1:2:3:4:5:6:", "1:2:3:4:5::", ":", "", "::1:", "1::2:"}; unsigned v = (unsigned)(idx % 300); idx /= 300; unsigned place = (unsigned)(idx % 4); idx /= 4; unsigned h = (unsigned)(idx % 14), end = (unsigned)(idx / 14); char t[80];
    if (!*H[h]) return;
    int k = sprintf(t, "%s", H[h]); for (unsigned i = 0; i < 4; i++) k += sprintf(t + k, "%s%u", i ? "." : "", i == place ? v : i == 3 ? 250 : 19 * i + 7); strcpy(t + k, (const char *[]){"", ".", ":", " ", "1", "x"}[end]);
    judge(&P[1], t, 0);
}
static void zones(uint64_t idx, const void *arg)
{
    (void)arg; unsigned b = (unsigned)(idx % 255) + 1; idx /= 255; unsigned n = (unsigned)(idx % 4) + 1; idx /= 4; unsigned len = (unsigned)(idx % 4) + 1; idx /= 4; unsigned where = (unsigned)idx; char t[80] = "fe80::";
    for (unsigned i = 0; i < n; i++) { if (i) strcat(t, ":"); strncat(t, "a09F", len); } size_t e = strlen(t); sprintf(t + e, "%%eth0"); if (where < 4) t[e + 1 + where] = (char)b; else { t[e - 1] = (char)b; } judge(&P[1], t, 0);
}
/* lengths around every documented limit */
static void limits(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 300), which = (unsigned)(idx / 300); char t[700], f[400]; memset(f, 'a', sizeof f); f[n] = 0;
    switch (which) {
        case 0: judge(&P[10], f, 0); if (n) { f[n - 1] = '-'; judge(&P[10], f, 0); f[0] = '_'; judge(&P[10], f, 0); } break;
        case 1: if (n) { judge(&P[11], f, 0); f[n - 1] = '7'; judge(&P[11], f, 0); f[n - 1] = 'a'; f[0] = '7'; judge(&P[11], f, 0); memset(f, '7', n); judge(&P[11], f, 0); f[n / 2] = 'Z'; judge(&P[11], f, 0); } break;
        case 2: snprintf(t, sizeof t, "%s.com", f); judge(&P[2], t, 0); snprintf(t, sizeof t, "x.%s.com", f); judge(&P[2], t, 0); snprintf(t, sizeof t, "x.%s", f); judge(&P[2], t, 0); break;
        case 3: { t[0] = 0; for (unsigned i = 0; i < n; i++) strcat(t, i % 50 == 49 ? "." : "b"); strcat(t, ".org"); judge(&P[2], t, 0); break; }
        case 4: snprintf(t, sizeof t, "u@%s", f); judge(&P[7], t, 0); snprintf(t, sizeof t, "u@%s.com", f); judge(&P[7], t, 0); snprintf(t, sizeof t, "u@x.%s", f); judge(&P[7], t, 0); if (n > 1) { t[4] = '-'; judge(&P[7], t, 0); } break;
        case 5: snprintf(t, sizeof t, "%s@x.co", f); judge(&P[6], t, 0); judge(&P[7], t, 0); snprintf(t, sizeof t, "u@%s.co", f); judge(&P[6], t, 0); snprintf(t, sizeof t, "u@x.%s", f); judge(&P[6], t, 0); break;
        case 6: snprintf(t, sizeof t, "%s.%.*s", f, (int)(n % 9), "abcdefghij"); judge(&P[14], t, 0); snprintf(t, sizeof t, "a.%s", f); judge(&P[14], t, 0); break;
        case 7: memset(f, '1', n); judge(&P[16], f, 0); snprintf(t, sizeof t, "-%s", f); judge(&P[17], t, 0); snprintf(t, sizeof t, "0x%s", f); judge(&P[19], t, 0); judge(&P[18], f, 0); snprintf(t, sizeof t, "-%s.%s", f, f); judge(&P[18], t, 0); snprintf(t, sizeof t, "%s.1.1-%s+%s", f, f, f); judge(&P[15], t, 0); break;
        case 8: snprintf(t, sizeof t, "/%s/%s/", f, f); judge(&P[13], t, 0); t[0] = 0; for (unsigned i = 0; i < n; i++) strcat(t, "/a"); judge(&P[13], t, 0); memset(f, '/', n); judge(&P[13], f, 0); break;
        case 9: snprintf(t, sizeof t, "http://%s", f); judge(&P[4], t, 0); judge(&P[3], t, 0); snprintf(t, sizeof t, "x%s://a.%s", f, f); judge(&P[3], t, 0); snprintf(t, sizeof t, "http://ab%s c", f); judge(&P[4], t, 0); judge(&P[3], t, 0); break;
        case 10: { static const unsigned L[] = {8, 4, 4, 4, 12}; unsigned part = n % 5, len = n / 5 % 16; t[0] = 0;
            for (unsigned i = 0; i < 5; i++) { unsigned l = i == part ? len : L[i]; for (unsigned k = 0; k < l; k++) strcat(t, k == 0 && i == 2 ? "4" : k == 0 && i == 3 ? "8" : "c"); if (i < 4) strcat(t, "-"); } judge(&P[12], t, 0); break; }
    }
}
/* a canonical text on one line of several */
static void lines(uint64_t idx, const void *arg)
{
    (void)arg; unsigned i = (unsigned)(idx % NPAT); idx /= NPAT; unsigned sd = (unsigned)(idx % 16); idx /= 16; unsigned how = (unsigned)(idx % 3); idx /= 3; unsigned x = (unsigned)(idx % 7), y = (unsigned)(idx / 7); char t[400];
    const char *s = P[i].seed[sd]; static const char *X[] = {"", "\n", "x\n", "\r\n", "\n\n", NULL, "5\n"}, *Y[] = {"", "\n", "\nx", "\r\n", "\n\n", NULL, "\n5"}; for (unsigned k = 0; k < sd; k++) if (!P[i].seed[k]) return;
    if (!s) return;
    *t = 0; if (X[x]) strcat(t, X[x]); else sprintf(t, "%s\n", s);
    strcat(t, s); if (Y[y]) strcat(t, Y[y]); else sprintf(t + strlen(t), "\n%s", s);
    judge(&P[i], t, (int)how);
}
/* passwords whose only letter, or only digit, is any one character at any place */
static void sole(uint64_t idx, const void *arg)
{
    (void)arg; static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; char t[40]; unsigned c = (unsigned)(idx % 62), place = (unsigned)(idx / 62 % 12), len = (unsigned)(idx / 744 % 7) + 6, fill = (unsigned)(idx / 5208); if (place >= len) return;
    memset(t, fill < 62 ? A[fill] : 0, len); t[len] = 0; t[place] = A[c]; judge(&P[11], t, 0);
}
void mc_register(int thorough)
{
    mc_space("passwd/sole", 5208ull * 62, sole, NULL);
    mc_space("lines", NPAT * 16ull * 3 * 49, lines, NULL);
    EXTRA = thorough ? 1 : 0;
    for (unsigned i = 0; i < NPAT; i++) {
        char *nm = malloc(64); snprintf(nm, 64, "texts/%s", P[i].name); mc_space(nm, seq_count((unsigned)strlen(P[i].alpha), P[i].len + EXTRA), texts, &P[i]);
        unsigned ns = 0; while (ns < 16 && P[i].seed[ns]) ns++;
        nm = malloc(64); snprintf(nm, 64, "edits/%s", P[i].name); mc_space(nm, 3ull * 511 * 42 * ns, edits1, &P[i]);
        unsigned a = 2 * (unsigned)strlen(P[i].alpha) + 1; if (!thorough) ns = ns > 1 ? (i == 12 || i == 9 ? 1 : 2) : 1;
        nm = malloc(64); snprintf(nm, 64, "edits2/%s", P[i].name); mc_space(nm, (uint64_t)a * a * 1600 * ns, edits2, &P[i]);
    }
    mc_space("octets", 8000, octets, NULL); mc_space("ports", 400000, ports, NULL); mc_space("dates", 40000, dates, NULL);
    mc_space("ipv6/groups", 11ull * 12 * 12 * 11 * 6, groups, NULL); mc_space("ipv6/forms", 28ull * 10 * 8 * 10 * 8, forms, NULL); mc_space("ipv6/tails", 300 * 4 * 14 * 6, tails, NULL); mc_space("ipv6/zones", 255 * 4 * 4 * 5, zones, NULL); mc_space("limits", 300 * 11, limits, NULL);
}
