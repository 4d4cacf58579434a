/* C13: environment variable names follow the documented rule, and help shows them. */
#include "model.h"
const char *mc_property = "C13";
const char *mc_bounds =
    "20 prefixes (none, empty, with and without trailing underscores, lower and mixed case, one character) x 24 explicit or automatic names (dashes, underscores, case, equal to or starting with the prefix, substrings of it) "
    "x {prefixed, unprefixed} x {root, selected command}; for each, every candidate variable out of all combinations of case, dash mapping, prefix spelling, underscore count and one-character truncation/extension is set alone, "
    "then all candidates but the right one together; every option name of up to 4 (5) and explicit name of up to 3 (4) characters over a - _ Q 7; prefix, explicit and option names of every length 1..160; prefixes of every length 1..40 with explicit names that share any leading part of them.  A variable influences the option exactly if it is the one the rule names, and help shows exactly that name.";
static const char *PRE[] = {NULL, "", "APP", "APP_", "app", "MyApp", "A", "_", "APP__", "AP", "APP_SUB", "my-app", "X9", "VAL", "val", "APPVAL", "A_", "a", "__", "V"};
/* names: explicit variable names, then automatic option names */
static const char *EXP[] = {"VAL", "APP_VAL", "APPVAL", "val", "A", "APP", "MY_VAR", "My-Var", "APP_APP_VAL", "V", "_VAL", "app_val"};
static const char *AUT[] = {"val", "my-opt", "a", "MiXed", "x-y-z", "with_us", "app-val", "app", "V", "a1-b2", "-val", "val-"};
static argus_option_t o_end(void) { return OPTION_END(); }
static argus_option_t o_help(void) { return OPTION_FLAG('h', "help", HELP("h")); }
static const char *fold(const char *s, int cs, int dash, char *o)
{
    char *d = o;
    for (; *s; s++) {
        char ch = *s; if (ch == '-') { if (dash == 2) continue; if (dash == 1) ch = '_'; }
        *d++ = cs == 1 ? (char)(ch >= 'a' && ch <= 'z' ? ch - 32 : ch) : cs == 2 ? (char)(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch) : ch;
    }
    *d = 0; return o;
}
static char cand[1200][1000]; static int nc;
static void cadd(const char *s) { if (!*s || strchr(s, '=')) return; for (int i = 0; i < nc; i++) if (!strcmp(cand[i], s)) return; if (nc >= 1200) abort(); strcpy(cand[nc++], s); }
static void candidates(const char *pre, const char *base)
{
    char b[400], p[400], t[1000]; if (!pre) pre = "";
    for (int cs = 0; cs < 3; cs++) for (int d = 0; d < 3; d++) {
        fold(base, cs, d, b);
        for (int pc = 0; pc < 3; pc++) for (int pd = 0; pd < 2; pd++) for (int f = 0; f < 7; f++) {
            fold(pre, pc, pd, p); size_t n = strlen(p); while (f == 6 && n && p[n - 1] == '_') p[--n] = 0;
            snprintf(t, sizeof t, f == 0 ? "%.0s%s" : f == 1 ? "%s%s" : f == 2 || f == 6 ? "%s_%s" : f == 3 ? "%s__%s" : f == 4 ? "%.0s_%s" : "%s_", p, b); cadd(t);
            if (f == 5) { snprintf(t, sizeof t, "%s_%s_%s", p, p, b); cadd(t); snprintf(t, sizeof t, "%s%s%s", p, p, b); cadd(t); }
        }
    }
}
static mres_t M;
static char right[1000];
static bool try(const argus_option_t *t, const char *pre, int n, char (*names)[1000], int skip, int sub, const char *tn)
{
    dcase_t c = {.tmpl = t, .env_prefix = pre}; if (sub) c.argv[c.argc++] = "cmd";
    if (n == 1) { c.nenv = 1; c.ename[0] = names[0]; c.evalue[0] = "7"; }
    else for (int i = 0; i < n; i++) if (i != skip && strcmp(names[i], right)) setenv(names[i], "7", 1);
    m_parse(&c, &M);
    drun_t r; d_begin(&r, &c); d_parse(&r); mc_exec(1); mc_trans(1);
    for (int i = 0; n > 1 && i < n; i++) unsetenv(names[i]);
    if (r.exited || r.status) mc_fail("%s: parse failed with %d", tn, r.status);
    bool set = argus_is_set(&r.argus, sub ? "cmd.opt-x" : "opt-x");
    if (!set) { char p[300]; snprintf(p, sizeof p, "%s%s", sub ? "cmd." : "", t[0].name); if (!sub) set = argus_is_set(&r.argus, t[0].name); else set = argus_is_set(&r.argus, t[1].sub_options[0].name); (void)p; }
    d_free(&r); d_end(&r);
    return set;
}
static void help_name(const argus_option_t *t, const char *pre, int sub, char *out, size_t sz)
{
    dcase_t c = {.tmpl = t, .env_prefix = pre}; if (sub) c.argv[c.argc++] = "cmd";
    drun_t r; d_begin(&r, &c); r.argus.helper.config.max_line_width = 5000; d_parse(&r); cap_reset();
    argus_print_help(&r.argus);
    char *o = cap_out(NULL), *e = strstr(o, "env: "); out[0] = 0;
    if (e) { e += 5; size_t n = strcspn(e, ")\n, "); if (n >= sz) n = sz - 1; memcpy(out, e, n); out[n] = 0; if (strstr(e, "env: ")) strcat(out, "<twice>"); }
    d_free(&r); d_end(&r);
}
static void one(const argus_option_t *opt, const char *pre, int sub, const char *tn)
{
    argus_option_t in[3] = {*opt, o_help(), o_end()}, top[3] = {o_help(), o_end(), o_end()};
    if (sub) top[1] = (argus_option_t)SUBCOMMAND("cmd", in, HELP("h"));
    const argus_option_t *t = sub ? top : in; dcase_t c = {.tmpl = t, .env_prefix = pre};
    const char *m = m_env_name(&c, opt, right, sizeof right); if (!m) right[0] = 0;
    NOTE("%s prefix='%s' env='%s' auto=%d noprefix=%d name='%s' sub=%d", tn, pre ? pre : "(none)", opt->env_name ? opt->env_name : "", !!(opt->flags & FLAG_AUTO_ENV), !!(opt->flags & FLAG_NO_ENV_PREFIX), opt->name, sub);
    nc = 0; if (*right) { cadd(right); char x[1000]; strcpy(x, right); strcat(x, "X"); cadd(x); x[strlen(right) - 1] = 0; cadd(x); cadd(right + 1); }
    candidates(pre, opt->name); if (opt->env_name) candidates(pre, opt->env_name);
    for (int i = 0; i < nc; i++) {
        bool want = *right && !strcmp(cand[i], right), got = try(t, pre, 1, &cand[i], -1, sub, tn);
        if (want != got) mc_fail("variable '%s' %s the option; the rule names '%s'", cand[i], got ? "influences" : "does not influence", right);
    }
    if (nc > 1 && try(t, pre, nc, cand, -1, sub, tn)) mc_fail("some variable other than '%s' influences the option", right);
    char shown[1200]; help_name(t, pre, sub, shown, sizeof shown);
    if (strcmp(shown, right)) mc_fail("help shows variable '%s', the name read is '%s'", shown, right);
    mc_state(mc_mixs(mc_mix(3, (uint64_t)sub), right));
}
static const argus_valtype_t TY[] = {VALUE_TYPE_INT, VALUE_TYPE_STRING};
static argus_option_t mk(const char *name, const char *env, unsigned fl)
{
    argus_option_t o = OPTION_STRING(0, name, HELP("text")); (void)TY;
    o.env_name = (char *)env; if (fl & 1) o.flags |= FLAG_NO_ENV_PREFIX; if (fl & 2) o.flags |= FLAG_AUTO_ENV; if (fl & 4) o.flags |= FLAG_ENV_OVERRIDE;
    return o;
}
static void rule(uint64_t idx, const void *arg)
{
    (void)arg; int sub = (int)(idx % 2); idx /= 2; unsigned np = (unsigned)(idx % 2); idx /= 2; unsigned n = (unsigned)(idx % 25); const char *pre = PRE[idx / 25];
    argus_option_t o;
    if (n < 12) o = mk("opt-x", EXP[n], np); else if (n < 24) o = mk(AUT[n - 12], NULL, np | 2); else o = mk("opt-x", NULL, np); /* last: no variable at all */
    one(&o, pre, sub, "rule");
}
/* explicit name wins over automatic naming */
static void both(uint64_t idx, const void *arg)
{
    (void)arg; unsigned np = (unsigned)(idx % 2); idx /= 2; unsigned a = (unsigned)(idx % 12); idx /= 12; unsigned e = (unsigned)(idx % 12); const char *pre = PRE[idx / 12];
    argus_option_t o = mk(AUT[a], EXP[e], np | 2);
    one(&o, pre, 0, "both");
}
static void lens(uint64_t idx, const void *arg)
{
    (void)arg; unsigned which = (unsigned)(idx % 5); idx /= 5; unsigned np = (unsigned)(idx % 2); size_t len = 1 + (size_t)(idx / 2); char n[200];
    memset(n, 'q', len); n[len] = 0; if (len > 2) n[len / 2] = '-'; n[len - 1] = 'z';
    if (which == 2 || which == 4) { if (len > 2) n[len / 2] = '_'; }
    argus_option_t o = which == 0 ? mk(n, NULL, 2 | np) : which == 1 ? mk("opt", NULL, 2 | np) : which == 2 ? mk("opt-x", n, np) : which == 3 ? mk(n, NULL, 2 | np) : mk("opt-x", "VAR", np);
    const char *pre = which == 0 || which == 2 ? "APP" : n;
    one(&o, pre, 0, "lengths");
}
/* explicit names that share any leading part of the prefix, and go on in another way */
static void leads(uint64_t idx, const void *arg)
{
    (void)arg; unsigned pl = (unsigned)(idx % 40) + 1; idx /= 40; unsigned k = (unsigned)(idx % 43); idx /= 43; unsigned tail = (unsigned)(idx % 4); idx /= 4; unsigned us = (unsigned)(idx % 2), np = (unsigned)(idx / 2); static char p[80], e[120]; if (k > pl + us) return;
    for (unsigned i = 0; i < pl; i++) p[i] = "PREFIXLONG_"[(i * 3 + i / 11) % 11]; if (p[pl - 1] == '_') p[pl - 1] = 'Q'; p[pl] = 0; if (us) strcat(p, "_"); memcpy(e, p, k); e[k] = 0; strcat(e, (const char *[]){"", "Z", "_Z", "ZED_VAR"}[tail]); if (!*e) return;
    argus_option_t o = mk("opt-x", e, np); one(&o, p, 0, "leads");
}
/* every option name of up to 4 (5) characters out of five, every explicit name of up to 3 (4) of them */
static unsigned NL;
static void short_names(uint64_t idx, const void *arg)
{
    bool ex = arg; unsigned np = (unsigned)(idx % 2); idx /= 2; const char *pre = PRE[(unsigned[]){0, 2, 3}[idx % 3]]; idx /= 3; unsigned k[8], n = seq_decode(idx, 5, NL - ex, k); char t[8]; if (!n) return;
    for (unsigned i = 0; i < n; i++) t[i] = "a-_Q7"[k[i]]; t[n] = 0; argus_option_t o = ex ? mk("opt-x", t, np) : mk(t, NULL, 2 | np); one(&o, pre, 0, ex ? "short explicit" : "short automatic");
}
void mc_register(int thorough)
{
    mc_space_chunk("leading parts", 40ull * 43 * 4 * 2 * 2, 10, leads, NULL);
    mc_space_chunk("rule", 20ull * 25 * 2 * 2, 10, rule, NULL);
    NL = thorough ? 5 : 4; mc_space_chunk("short names", seq_count(5, NL) * 6, 20, short_names, NULL); mc_space_chunk("short explicit names", seq_count(5, NL - 1) * 6, 20, short_names, (void *)1);
    mc_space_chunk("both", 20ull * 12 * 12 * 2, 20, both, NULL);
    mc_space_chunk("lengths", (thorough ? 180ull : 160) * 2 * 5, 10, lens, NULL);
}
