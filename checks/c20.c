/* C20: help lists every visible entry exactly once, in its section, with its facts. */
#include "model.h"
const char *mc_property = "C20";
const char *mc_bounds =
    "every table of up to 4 (5) entries out of 18 entry shapes (options of several types, hidden, positionals, commands, hidden commands, groups opened, reopened, empty and closed), at the root and in a nested command; every entry built from type (12) x validators (18 sets) x default (3) x environment naming (6) x hint (4) x help text (5), "
    "x every combination of the six marks for part of them; positionals and commands likewise; every placeholder setting (hint length 0..24, spaces allowed or not) against validator summaries of every length 0..30; default and help strings of every length 0..300 and every name length 1..100; 1..100 options, positionals, commands, groups or a mixture, any one of them hidden; up to 500 of each kind in four orders, up to 500 groups; three headings of up to 48 characters that differ in any one place, each opened twice in four orders; 1..40 validators on one entry; one option of every type under any set of marks, alone or with hidden, plain or marked ones before and after it, in six ways of opening sections around them; every level of a chain of 8 commands with names of 1..120 characters.  "
    "The expected sections, order, names, placeholders and descriptions are computed from the definition alone; the printed help must contain exactly these, nothing twice and nothing else.";
static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
/* ---- expected facts */
static char *custom_fmt(validator_data_t d) { (void)d; return strdup("cust"); }
static int custom_ok(argus_t *a, void *v, validator_data_t d) { (void)a; (void)v; (void)d; return 0; }
static void summary(const validator_entry_t *v, char *b)
{
    *b = 0;
    if (v->func == range_validator || v->func == count_validator) sprintf(b, "%lld-%lld", (long long)v->data.range.min, (long long)v->data.range.max);
    else if (v->func == length_validator) sprintf(b, "%lld-%lld chars", (long long)v->data.range.min, (long long)v->data.range.max);
    else if (v->func == regex_validator) strcpy(b, v->data.regex.hint && *v->data.regex.hint ? v->data.regex.hint : v->data.regex.pattern && *v->data.regex.pattern && strlen(v->data.regex.pattern) <= 15 ? v->data.regex.pattern : "pattern");
    else if (v->func == custom_ok) strcpy(b, "cust");
    else if (v->func == choices_string_validator) for (size_t i = 0; i < v->data.choices.count; i++) sprintf(b + strlen(b), "%s%s", i ? "|" : "", v->data.choices.as_strings[i]);
    else if (v->func == choices_int_validator) { for (size_t i = 0; i < v->data.choices.count; i++) sprintf(b + strlen(b), "%s%lld", i ? "|" : "", (long long)v->data.choices.as_ints[i]); }
    else if (v->func == choices_float_validator) { for (size_t i = 0; i < v->data.choices.count; i++) sprintf(b + strlen(b), "%s%g", i ? "|" : "", v->data.choices.as_floats[i]); }
}
static bool in_hint(const dcase_t *c, const argus_option_t *o, const argus_helper_config_t *cfg, char *b)
{
    (void)c; if (o->type != TYPE_OPTION || o->hint || !o->validators || !o->validators[0] || o->validators[1] || !o->validators[0]->formatter) return false;
    summary(o->validators[0], b); return strlen(b) <= cfg->smart_hint_max_length && (cfg->smart_hint_allow_spaces || !strchr(b, ' '));
}
static void placeholder(const dcase_t *c, const argus_option_t *o, const argus_helper_config_t *cfg, char *out)
{
    char b[1024]; const char *h = o->hint; *out = 0; if (o->value_type == VALUE_TYPE_FLAG) return;
    if (!h && in_hint(c, o, cfg, b)) h = b;
    if (!h) h = o->value_type == VALUE_TYPE_INT ? "NUM" : o->value_type == VALUE_TYPE_STRING ? "STR" : o->value_type == VALUE_TYPE_FLOAT ? "FLOAT" : o->value_type == VALUE_TYPE_BOOL ? "BOOL" : "VALUE";
    sprintf(out, o->value_type & VALUE_TYPE_ARRAY ? " <%s,...>" : o->value_type & VALUE_TYPE_MAP ? " <KEY=%s,...>" : " <%s>", h);
}
static void names(const dcase_t *c, const argus_option_t *o, const argus_helper_config_t *cfg, char *b)
{
    if (o->type == TYPE_SUBCOMMAND) { strcpy(b, o->name); return; }
    if (o->type == TYPE_POSITIONAL) { bool r = o->flags & FLAG_REQUIRED; sprintf(b, "%c%s%s%c", r ? '<' : '[', o->name, o->value_type & VALUE_TYPE_VARIADIC ? "..." : "", r ? '>' : ']'); return; }
    *b = 0; if (o->sname) sprintf(b, "-%c", o->sname); if (o->sname && o->lname) strcat(b, ", "); if (o->lname) { strcat(b, "--"); strcat(b, o->lname); }
    placeholder(c, o, cfg, b + strlen(b));
}
static void description(const dcase_t *c, const argus_option_t *o, const argus_helper_config_t *cfg, char *d)
{
    char b[1200]; strcpy(d, o->help ? o->help : "");
    if (o->validators && !in_hint(c, o, cfg, b)) for (int i = 0; o->validators[i]; i++) {
        const validator_entry_t *v = o->validators[i]; if (!v->formatter || v->func == custom_ok) continue; summary(v, b);
        sprintf(d + strlen(d), v->func == regex_validator ? " (pattern: %s)" : v->func == length_validator ? " (%s)" : v->func == range_validator ? " (range: %s)" : v->func == count_validator ? " (count: %s)" : " [%s]", b);
    }
    if (o->have_default && o->value_type != VALUE_TYPE_FLAG) {
        const argus_value_t *v = &o->default_value; d += strlen(d);
        switch (o->value_type) { case VALUE_TYPE_INT: sprintf(d, " (default: %lld)", (long long)v->as_int64); break; case VALUE_TYPE_STRING: if (v->as_string) sprintf(d, " (default: \"%s\")", v->as_string); else sprintf(d, " (default: null)"); break; case VALUE_TYPE_FLOAT: sprintf(d, " (default: %.2f)", v->as_float); break; default: sprintf(d, " (default: %s)", v->as_bool ? "true" : "false"); }
    }
    const char *e = o->type == TYPE_SUBCOMMAND ? NULL : m_env_name(c, o, b, sizeof b);
    size_t hl = o->help ? strlen(o->help) : 0; 
    if (e) { char *base = d; (void)base; size_t n = strlen(d); bool info = n && d[n - 1] == ')' && (o->have_default ? o->value_type != VALUE_TYPE_FLAG : n > hl); if (info) sprintf(d + n - 1, ", env: %s)", e); else sprintf(d + n, " (env: %s)", e); }
    if (o->flags & FLAG_EXIT) strcat(d, " (exit)"); if (o->flags & FLAG_REQUIRED) strcat(d, " (required)"); if (o->flags & FLAG_DEPRECATED) strcat(d, " (deprecated)"); if (o->flags & FLAG_EXPERIMENTAL) strcat(d, " (experimental)");
}
/* canonical list: "S:heading" and "E:names|description" lines */
#define CSZ (1 << 17)
static char want[CSZ], got[CSZ]; static size_t wn, gn;
static void put(char *b, size_t *n, const char *f, const char *a, const char *c) { *n += (size_t)snprintf(b + *n, CSZ - *n, f, a, c); if (*n >= CSZ) mc_fail("harness: canonical list too long"); }
static void entry(const dcase_t *c, const argus_option_t *o, const argus_helper_config_t *cfg) { char a[2000], d[4000]; names(c, o, cfg, a); description(c, o, cfg, d); put(want, &wn, "E:%s|%s\n", a, d); }
static void expected(const dcase_t *c, const argus_option_t *t, const argus_helper_config_t *cfg, const char *chain)
{
    wn = 0; want[0] = 0; bool head = false; 
    for (const argus_option_t *o = t; o->type != TYPE_NONE; o++) if (o->type == TYPE_POSITIONAL) { if (!head) put(want, &wn, "S:%s%s\n", "Arguments", ""); head = true; entry(c, o, cfg); }
    /* groups, by first visible member; equal headings are one section */
    const char *done[600]; int nd = 0;
    const char *cur = NULL;
    for (const argus_option_t *o = t; o->type != TYPE_NONE; o++) {
        if (o->type == TYPE_GROUP) { cur = o->name; continue; }
        if (o->type != TYPE_OPTION || !cur || (o->flags & FLAG_HIDDEN)) continue;
        bool seen = false; for (int i = 0; i < nd; i++) seen |= !strcmp(done[i], cur);
        if (seen) continue;
        done[nd++] = cur; put(want, &wn, "S:%s%s\n", cur, ""); const char *in = NULL;
        for (const argus_option_t *q = t; q->type != TYPE_NONE; q++) { if (q->type == TYPE_GROUP) in = q->name; else if (q->type == TYPE_OPTION && in && !strcmp(in, cur) && !(q->flags & FLAG_HIDDEN)) entry(c, q, cfg); }
    }
    head = false; cur = NULL;
    for (const argus_option_t *o = t; o->type != TYPE_NONE; o++) { if (o->type == TYPE_GROUP) cur = o->name; else if (o->type == TYPE_OPTION && !cur && !(o->flags & FLAG_HIDDEN)) { if (!head) put(want, &wn, "S:%s%s\n", "Options", ""); head = true; entry(c, o, cfg); } }
    head = false;
    for (const argus_option_t *o = t; o->type != TYPE_NONE; o++) if (o->type == TYPE_SUBCOMMAND && !(o->flags & FLAG_HIDDEN)) { if (!head) put(want, &wn, "S:%s%s\n", "Commands", ""); head = true; entry(c, o, cfg); }
    if (head) put(want, &wn, "T:Run 'prog%s COMMAND --help' for more information on a command.%s\n", chain, "");
}
static void actual(const char *out, size_t indent)
{
    gn = 0; got[0] = 0;
    for (const char *p = out; *p;) {
        const char *e = strchr(p, '\n'); if (!e) mc_fail("the help does not end with a newline"); size_t n = (size_t)(e - p); char line[6000]; snprintf(line, sizeof line, "%.*s", (int)n, p); p = e + 1;
        if (!n) continue;
        if (line[0] != ' ' || !indent) {
            if (line[n - 1] == ':' && !strstr(line, " - ")) { line[n - 1] = 0; put(got, &gn, "S:%s%s\n", line, ""); continue; }
            if (indent) { put(got, &gn, "T:%s%s\n", line, ""); continue; }
        }
        char *d = strstr(line, " - "); if (strspn(line, " ") != indent || !d) mc_fail("unexpected line in help: '%.200s'", line);
        char *a = line + indent, *ae = d; while (ae > a && ae[-1] == ' ') ae--; *ae = 0;
        put(got, &gn, "E:%s|%s\n", a, d + 3);
    }
}
static argus_helper_config_t CFG = {.max_line_width = 100000, .description_column = 220, .option_indent = 2, .smart_hint_max_length = 20, .smart_hint_allow_spaces = false};
static void tweak(argus_t *a) { a->helper.config = CFG; }
static void show(void *p) { argus_print_help(p); }
static void check(dcase_t *c, const argus_option_t *level, const char *chain)
{
    c->tweak = tweak; drun_t r; d_begin(&r, c); if (c->argc) { d_parse(&r); if (r.exited || r.status) mc_fail("harness: selecting the command failed with %d", r.status); }
    expected(c, level, &CFG, chain); int code; size_t n; cap_reset(); track_start(); if (guarded(show, &r.argus, &code)) mc_fail("help ended the program"); track_pause();
    if (track_live()) mc_fail("printing help leaks %zu allocations", track_live());
    char *out = cap_out(&n); actual(out, CFG.option_indent); size_t en; cap_err(&en); if (en) mc_fail("printing help writes to standard error");
    if (strcmp(want, got)) { char *a = want, *b = got; while (*a && *a == *b) { a++; b++; } while (a > want && a[-1] != '\n') { a--; b--; } mc_fail("help differs from the definition:\n  expected %.*s\n  printed  %.*s\n--- full output:\n%.1500s", (int)strcspn(a, "\n"), a, (int)strcspn(b, "\n"), b, out); }
    mc_state(mc_mixs(1, want)); mc_exec(1); mc_trans((uint64_t)tbl_len(level)); d_free(&r); d_end(&r);
}
/* ---- tables */
static argus_option_t leaf[2];
static argus_option_t mk(unsigned k, unsigned i)
{
    static char ln[8][8], hp[8][24]; sprintf(ln[i], "o%u", i); sprintf(hp[i], "help %u.", i); char *n = ln[i], *h = hp[i]; char s = (char)('a' + i);
    static argus_option_t e; 
    switch (k) {
        case 0: return (argus_option_t)OPTION_FLAG(s, n, HELP(h)); case 1: return (argus_option_t)OPTION_STRING(s, n, HELP(h), DEFAULT("d v"), ENV_VAR("EV"));
        case 2: return (argus_option_t)OPTION_INT(0, n, HELP(h), FLAGS(FLAG_HIDDEN)); case 3: return (argus_option_t)OPTION_ARRAY_INT(s, n, HELP(h), FLAGS(FLAG_ADVANCED | FLAG_AUTO_ENV)); case 4: { e = (argus_option_t)OPTION_MAP_STRING(s, NULL, HELP(h), FLAGS(FLAG_DEPRECATED)); e.name = n; return e; }
        case 5: return (argus_option_t)POSITIONAL_STRING(n, HELP(h), OPTL); case 6: return (argus_option_t)POSITIONAL_INT(n, HELP(h), OPTL, DEFAULT(7)); case 7: return (argus_option_t)POSITIONAL_MANY_STRING(n, HELP(h), OPTL);
        case 8: return (argus_option_t)SUBCOMMAND(n, leaf, HELP(h), ACTION(act)); case 9: return (argus_option_t)SUBCOMMAND(n, leaf, HELP(h), FLAGS(FLAG_HIDDEN)); case 10: return (argus_option_t)SUBCOMMAND(n, leaf, HELP(h), ACTION(act), FLAGS(FLAG_EXPERIMENTAL));
        case 11: return (argus_option_t)GROUP_START("Alpha group"); case 12: return (argus_option_t)GROUP_START("Beta", FLAGS(FLAG_EXCLUSIVE)); case 13: return (argus_option_t)GROUP_END();
        case 14: return (argus_option_t)OPTION_FLOAT(0, n, HELP(h), DEFAULT(1.5)); case 15: return (argus_option_t)OPTION_FLAG(s, n, HELP(h), FLAGS(FLAG_HIDDEN | FLAG_EXIT)); case 16: return (argus_option_t)OPTION_BOOL(s, n, HELP(""), DEFAULT(false)); default: return (argus_option_t)POSITIONAL_STRING(n, HELP(h));
    }
}
static unsigned L;
static void tables(uint64_t idx, const void *arg)
{
    bool sub = arg; unsigned k[8], n = seq_decode(idx, 18, L, k); argus_option_t t[10]; NOTE("%s entries:", sub ? "nested" : "root"); for (unsigned i = 0; i < n; i++) { t[i] = mk(k[i], i); NOTE(" %u", k[i]); if (k[i] == 17 && sub) return; }
    if (sub) for (unsigned i = 0; i < n; i++) if (k[i] == 17) return;
    t[n] = (argus_option_t)OPTION_END(); leaf[0] = (argus_option_t)OPTION_FLAG('q', "quux", HELP("not here")); leaf[1] = t[n]; dcase_t c = {.tmpl = t};
    argus_option_t up[] = {OPTION_FLAG('u', "upper", HELP("not here either")), GROUP_START("Alpha group"), OPTION_INT('v', "vv", HELP("nor here")), GROUP_END(), SUBCOMMAND("nest", t, HELP("neither here"), ACTION(act)), OPTION_END()};
    if (sub) { c.tmpl = up; c.argc = 1; c.argv[0] = "nest"; }
    check(&c, t, sub ? " nest" : "");
}
/* ---- facts of one entry */
static const argus_optflags_t MK[] = {FLAG_EXIT, FLAG_REQUIRED, FLAG_DEPRECATED, FLAG_EXPERIMENTAL, FLAG_ADVANCED, FLAG_ENV_OVERRIDE};
static char longs[400];
static argus_option_t typed(unsigned ty, const char *ln)
{
    switch (ty) {
        case 0: return (argus_option_t)OPTION_FLAG('v', ln); case 1: return (argus_option_t)OPTION_STRING('v', ln); case 2: return (argus_option_t)OPTION_INT('v', ln); case 3: return (argus_option_t)OPTION_FLOAT('v', ln); case 4: return (argus_option_t)OPTION_BOOL('v', ln);
        case 5: return (argus_option_t)OPTION_ARRAY_STRING('v', ln); case 6: return (argus_option_t)OPTION_ARRAY_INT('v', ln); case 7: return (argus_option_t)OPTION_ARRAY_FLOAT('v', ln); case 8: return (argus_option_t)OPTION_MAP_STRING('v', ln); case 9: return (argus_option_t)OPTION_MAP_INT('v', ln); case 10: return (argus_option_t)OPTION_MAP_FLOAT('v', ln); case 11: return (argus_option_t)OPTION_MAP_BOOL('v', ln);
        case 12: return (argus_option_t)POSITIONAL_STRING(ln); case 13: return (argus_option_t)POSITIONAL_INT(ln); case 14: return (argus_option_t)POSITIONAL_FLOAT(ln); case 15: return (argus_option_t)POSITIONAL_BOOL(ln); case 16: return (argus_option_t)POSITIONAL_MANY_STRING(ln); default: return (argus_option_t)POSITIONAL_MANY_INT(ln);
    }
}
static validator_entry_t VE[12]; static validator_entry_t *VL[12][4];
static void validators(void)
{
    if (VE[0].func) return; static char *cs[] = {"aa", "b"}, *cl[] = {"aaaaaaaaaa", "bbbbbbbbbb", "cc"}, *cw[] = {"a b", "c"}; static int64_t ci[] = {-9223372036854775807ll - 1, 0, 12}; static double cf[] = {1.5, -2, 1e10, 0.125};
#define VSET(i, f, fm) VE[i].func = (argus_validator_t)f; VE[i].formatter = fm; VE[i].order = ORDER_POST
    VSET(0, range_validator, format_range_validator); VE[0].data.range.min = -5; VE[0].data.range.max = 100;
    VSET(1, length_validator, format_length_validator); VE[1].data.range.min = 1; VE[1].data.range.max = 8;
    VSET(2, count_validator, format_count_validator); VE[2].data.range.min = 0; VE[2].data.range.max = 3;
    VSET(3, regex_validator, format_regex_validator); VE[3].data.regex.pattern = "^[a-z]+$";
    VSET(4, regex_validator, format_regex_validator); VE[4].data.regex.pattern = "^[a-z]+[0-9]*(x|y)?$"; VE[4].data.regex.hint = "lower case word";
    VSET(5, choices_string_validator, format_choices_validator); VE[5].data.choices.as_strings = cs; VE[5].data.choices.count = 2; VE[5].data.choices.type = VALUE_TYPE_STRING;
    VSET(6, choices_string_validator, format_choices_validator); VE[6].data.choices.as_strings = cl; VE[6].data.choices.count = 3; VE[6].data.choices.type = VALUE_TYPE_STRING;
    VSET(7, choices_int_validator, format_choices_validator); VE[7].data.choices.as_ints = ci; VE[7].data.choices.count = 3; VE[7].data.choices.type = VALUE_TYPE_INT;
    VSET(8, choices_float_validator, format_choices_validator); VE[8].data.choices.as_floats = cf; VE[8].data.choices.count = 4; VE[8].data.choices.type = VALUE_TYPE_FLOAT;
    VSET(9, custom_ok, custom_fmt); VSET(10, custom_ok, NULL); VSET(11, regex_validator, format_regex_validator); VE[11].data.regex.pattern = "^[a-z]+[0-9]*(x|y)?$"; (void)cw;
}
/* validator sets: none, each single one, pairs */
static validator_entry_t **vset(unsigned i)
{
    static const signed char SETS[][3] = {{-1}, {0, -1}, {1, -1}, {2, -1}, {3, -1}, {4, -1}, {5, -1}, {6, -1}, {7, -1}, {8, -1}, {9, -1}, {10, -1}, {11, -1}, {0, 5, -1}, {2, 9, -1}, {1, 4, -1}, {10, 0, -1}, {9, 9, -1}};
    static validator_entry_t *l[4]; validators(); int n = 0; for (; SETS[i][n] >= 0 && n < 3; n++) l[n] = &VE[SETS[i][n]]; l[n] = NULL; return n ? l : NULL;
}
static void facts(uint64_t idx, const void *arg)
{
    bool pos = arg == (void *)1, mk_only = arg == (void *)2; if (mk_only) idx = idx % (12ull * 18 * 3 * 6) + idx / (12ull * 18 * 3 * 6) * (12ull * 18 * 3 * 6 * 20); /* hint and help text fixed */
    unsigned ty = (unsigned)(idx % (pos ? 6 : 12)); idx /= pos ? 6 : 12; unsigned v = (unsigned)(idx % 18); idx /= 18; unsigned def = (unsigned)(idx % 3); idx /= 3; unsigned env = (unsigned)(idx % 6); idx /= 6; unsigned hint = (unsigned)(idx % 4); idx /= 4; unsigned help = (unsigned)(idx % 5); idx /= 5; unsigned marks = (unsigned)(idx % 64); idx /= 64; unsigned nm = (unsigned)idx;
    static const char *HT[] = {"text", "", "does it (well)", "a [b]", "50% %s - x (y), env: z)"}, *HI[] = {NULL, "H", "two words", "a_very_long_hint_that_is_not_short_at_all"};
    if (pos && (hint > 1 || (marks & ~2u))) return;
    argus_option_t t[2]; t[0] = typed(pos ? ty + 12 : ty, nm == 1 ? NULL : "val-x"); t[1] = (argus_option_t)OPTION_END(); argus_option_t *o = &t[0]; dcase_t c = {.tmpl = t};
    if (nm == 1) { if (pos) return; o->name = "v"; } if (nm == 2) { if (pos) return; o->sname = 0; }
    o->help = HT[help]; o->hint = HI[hint]; o->validators = vset(v); o->flags = 0; for (int i = 0; i < 6; i++) if (marks >> i & 1) o->flags |= MK[i];
    bool scalar = o->value_type & (VALUE_TYPE_STRING | VALUE_TYPE_INT | VALUE_TYPE_FLOAT | VALUE_TYPE_BOOL); if (def && !scalar) return;
    if (def) { o->have_default = o->is_set = true; o->default_value = o->value_type == VALUE_TYPE_STRING ? (argus_value_t){.as_string = def == 1 ? "some default" : ""} : o->value_type == VALUE_TYPE_INT ? (argus_value_t){.as_int64 = def == 1 ? -9223372036854775807ll - 1 : 0} : o->value_type == VALUE_TYPE_FLOAT ? (argus_value_t){.as_float = def == 1 ? -3.14159 : 1e15} : (argus_value_t){.as_bool = def == 1}; o->value = o->default_value; }
    if (env == 1 || env == 4) o->env_name = "MY_VAR"; if (env == 2 || env == 3) o->flags |= FLAG_AUTO_ENV; if (env >= 3) c.env_prefix = "APP"; if (env == 5) { o->env_name = "MY_VAR"; o->flags |= FLAG_NO_ENV_PREFIX; }
    NOTE("type %u validators %u default %u env %u hint %u help %u marks 0x%x names %u", pos ? ty + 12 : ty, v, def, env, hint, help, marks, nm); check(&c, t, "");
}
static void commands(uint64_t idx, const void *arg)
{
    (void)arg; static const char *HT[] = {"text", "", "does it (well)", "50% %s - x"}; unsigned help = (unsigned)(idx % 4); idx /= 4; unsigned marks = (unsigned)(idx % 8); idx /= 8; unsigned env = (unsigned)(idx % 2), a = (unsigned)(idx / 2); NOTE("command help %u marks %u prefix %u action %u", help, marks, env, a);
    leaf[0] = (argus_option_t)OPTION_FLAG('q', "quux", HELP("not here")); leaf[1] = (argus_option_t)OPTION_END();
    argus_option_t t[] = {OPTION_FLAG('x', "xx", HELP("flag")), SUBCOMMAND("cmd", leaf, HELP(HT[help])), SUBCOMMAND("other", leaf, HELP("more")), OPTION_END()}; if (marks & 1) t[1].flags |= FLAG_DEPRECATED; if (marks & 2) t[1].flags |= FLAG_EXPERIMENTAL; if (marks & 4) t[1].flags |= FLAG_ADVANCED; if (a) t[1].action = act;
    dcase_t c = {.tmpl = t, .env_prefix = env ? "APP" : NULL}; check(&c, t, "");
}
/* placeholder settings against summaries of every length */
static void hints(uint64_t idx, const void *arg)
{
    (void)arg; unsigned lim = (unsigned)(idx % 26); idx /= 26; bool sp = idx & 1; idx >>= 1; bool space = idx & 1; idx >>= 1; unsigned ty = (unsigned)(idx % 12); unsigned len = (unsigned)(idx / 12); NOTE("limit %u spaces %d summary of %u%s type %u", lim, sp, len, space ? " with space" : "", ty);
    static char h[64]; for (unsigned i = 0; i < len; i++) h[i] = (char)('a' + i); h[len] = 0; if (space && len > 2) h[len / 2] = ' ';
    validator_entry_t v = {.func = regex_validator, .formatter = format_regex_validator, .order = ORDER_PRE}; v.data.regex.pattern = "x"; v.data.regex.hint = h; validator_entry_t *vs[] = {&v, NULL};
    argus_option_t t[] = {typed(ty, "val"), OPTION_END()}; t[0].help = "text"; t[0].validators = vs; argus_helper_config_t keep = CFG; CFG.smart_hint_max_length = lim; CFG.smart_hint_allow_spaces = sp; dcase_t c = {.tmpl = t}; check(&c, t, ""); CFG = keep;
}
/* text of every length in every place */
static void lengths(uint64_t idx, const void *arg)
{
    (void)arg; unsigned where = (unsigned)(idx % 9), n = (unsigned)(idx / 9); for (unsigned i = 0; i < n; i++) longs[i] = (char)('a' + (i * 7 + n) % 26); longs[n] = 0; if ((where >= 3 && n == 0) || (where >= 5 && n > 150)) return; NOTE("place %u length %u", where, n);
    static char *ch[3]; ch[0] = longs; ch[1] = "zz"; validator_entry_t v = {.func = choices_string_validator, .formatter = format_choices_validator, .order = ORDER_POST}; v.data.choices.as_strings = ch; v.data.choices.count = 2; v.data.choices.type = VALUE_TYPE_STRING; validator_entry_t *vs[] = {&v, NULL};
    leaf[0] = (argus_option_t)OPTION_FLAG('q', "quux", HELP("not here")); leaf[1] = (argus_option_t)OPTION_END();
    argus_option_t t[] = {OPTION_STRING('v', "val", HELP("text")), OPTION_END()}; argus_option_t *o = t; dcase_t c = {.tmpl = t};
    switch (where) {
        case 0: o->help = longs; break; case 1: o->have_default = o->is_set = true; o->default_value = o->value = (argus_value_t){.as_string = longs}; break; case 2: o->help = longs; o->env_name = "EV"; o->have_default = o->is_set = true; o->default_value = o->value = (argus_value_t){.as_string = longs}; break; case 3: o->env_name = longs; c.env_prefix = longs + n / 2; break;
        case 4: o->validators = vs; break; case 5: o->lname = o->name = longs; o->flags |= FLAG_AUTO_ENV; break; case 6: o->hint = longs; o->value_type = VALUE_TYPE_ARRAY_STRING; break; case 7: t[0] = (argus_option_t)SUBCOMMAND(longs, leaf, HELP(longs)); break; default: t[0] = (argus_option_t)POSITIONAL_MANY_STRING(longs, HELP(longs)); }
    check(&c, t, "");
}
/* n options, positionals, groups or commands; one of them hidden, another in a group of its own */
static void wide(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 100) + 1; idx /= 100; unsigned i = (unsigned)(idx % 101); idx /= 101; unsigned kind = (unsigned)(idx % 5), per = (unsigned)(idx / 5 % 4), sub = (unsigned)(idx / 20); if (i > n) return; static argus_option_t t[310]; static char nm[100][12], hp[100][24], gn_[100][12]; unsigned e = 0; NOTE("%s %u entries of kind %u, number %u hidden, %u", sub ? "nested" : "root", n, kind, i, per); leaf[0] = (argus_option_t)OPTION_FLAG('q', "quux", HELP("not here")); leaf[1] = (argus_option_t)OPTION_END();
    for (unsigned k = 0; k < n; k++) {
        sprintf(nm[k], "ent-%u", k); sprintf(hp[k], "help %u.", k);
        switch (kind) {
            case 0: t[e++] = (argus_option_t)OPTION_STRING(k < 52 ? (char)(k < 26 ? 'a' + k : 'A' + k - 26) : (char)0, nm[k], HELP(hp[k])); break;
            case 1: t[e++] = k == n - 1 && per ? (argus_option_t)POSITIONAL_MANY_STRING(nm[k], HELP(hp[k]), OPTL) : (argus_option_t)POSITIONAL_STRING(nm[k], HELP(hp[k]), OPTL); break;
            case 2: if (per && k % per == 0) { sprintf(gn_[k], "Group %u", per == 3 ? k % 7 : k); t[e++] = (argus_option_t)GROUP_START(gn_[k]); } t[e++] = (argus_option_t)OPTION_FLAG(0, nm[k], HELP(hp[k])); if (per && (k % per == per - 1 || k == n - 1)) t[e++] = (argus_option_t)GROUP_END(); break;
            case 3: t[e++] = (argus_option_t)SUBCOMMAND(nm[k], leaf, HELP(hp[k]), ACTION(act)); break;
            default: t[e++] = k * 3 < n ? (argus_option_t)OPTION_INT(0, nm[k], HELP(hp[k]), DEFAULT(4)) : k * 3 < 2 * n ? (argus_option_t)OPTION_BOOL(0, nm[k], HELP(hp[k]), FLAGS(FLAG_DEPRECATED)) : (argus_option_t)SUBCOMMAND(nm[k], leaf, HELP(hp[k])); }
        if (k == i && kind != 1) { unsigned at = e - 1; while (t[at].type == TYPE_GROUP) at--; t[at].flags |= FLAG_HIDDEN; } if (k == i && kind == 1) return;
    }
    t[e] = (argus_option_t)OPTION_END(); dcase_t c = {.tmpl = t}; argus_option_t up[] = {OPTION_FLAG('u', "upper", HELP("not here either")), GROUP_START("Group 0"), OPTION_INT('v', "vv", HELP("nor here")), GROUP_END(), SUBCOMMAND("nest", t, HELP("neither here"), ACTION(act)), OPTION_END()};
    if (sub) { c.tmpl = up; c.argc = 1; c.argv[0] = "nest"; } check(&c, t, sub ? " nest" : "");
}
/* 100..500 entries whose names and texts are in no particular order */
static void vast(uint64_t idx, const void *arg)
{
    (void)arg; static const unsigned NV[] = {101, 127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 500}; unsigned n = NV[idx % 12]; idx /= 12; unsigned kind = (unsigned)(idx % 5); idx /= 5; unsigned per = (unsigned)(idx % 6); idx /= 6; unsigned sub = (unsigned)(idx % 2), mul = (unsigned)(idx / 2); static argus_option_t t[1600]; static char nm[500][12], hp[500][24], gn_[500][12]; unsigned e = 0; NOTE("%s %u entries of kind %u, groups of %u, order %u", sub ? "nested" : "root", n, kind, per, mul); leaf[0] = (argus_option_t)OPTION_FLAG('q', "quux", HELP("not here")); leaf[1] = (argus_option_t)OPTION_END(); static const unsigned PG[] = {0, 1, 2, 10, 64, 130}; per = PG[per]; static const unsigned MU[] = {1, 499, 37, 211};
    for (unsigned k = 0; k < n; k++) {
        sprintf(nm[k], "e%03u", k * MU[mul] % 997); sprintf(hp[k], "help %u.", k);
        switch (kind) {
            case 0: if (per && k == per) { t[e++] = (argus_option_t)GROUP_START("Late"); } t[e++] = (argus_option_t)OPTION_STRING(0, nm[k], HELP(hp[k])); break;
            case 1: if (per > 1) return; t[e++] = k == n - 1 && per ? (argus_option_t)POSITIONAL_MANY_STRING(nm[k], HELP(hp[k]), OPTL) : (argus_option_t)POSITIONAL_STRING(nm[k], HELP(hp[k]), OPTL); break;
            case 2: if (per && k % per == 0) { sprintf(gn_[k], "Group %u", k * MU[mul] % 997); t[e++] = (argus_option_t)GROUP_START(gn_[k]); } t[e++] = (argus_option_t)OPTION_FLAG(0, nm[k], HELP(hp[k])); if (per && (k % per == per - 1 || k == n - 1)) t[e++] = (argus_option_t)GROUP_END(); break;
            case 3: if (per > 1) return; t[e++] = (argus_option_t)SUBCOMMAND(nm[k], leaf, HELP(hp[k]), ACTION(act)); break;
            default: if (!per) return; sprintf(gn_[k], "Group %u", k % per); t[e++] = (argus_option_t)GROUP_START(gn_[k]); t[e++] = (argus_option_t)OPTION_INT(0, nm[k], HELP(hp[k]), DEFAULT(4)); t[e++] = (argus_option_t)GROUP_END(); }
    }
    t[e] = (argus_option_t)OPTION_END(); dcase_t c = {.tmpl = t}; argus_option_t up[] = {OPTION_FLAG('u', "upper", HELP("not here either")), SUBCOMMAND("nest", t, HELP("neither here"), ACTION(act)), OPTION_END()};
    if (sub) { c.tmpl = up; c.argc = 1; c.argv[0] = "nest"; } check(&c, t, sub ? " nest" : "");
}
/* the help of every level of a chain of 8 commands */
static void deep(uint64_t idx, const void *arg)
{
    (void)arg; int depth = (int)(idx % 9); unsigned len = (unsigned)(idx / 9) + 1; NOTE("level %d of a chain with names of %u", depth, len); static argus_option_t t[9][12]; static char cn[9][128], on[9][8], hp[9][16], chain[1400]; dcase_t c = {.tmpl = t[0]}; size_t k = 0; chain[0] = 0; leaf[0] = (argus_option_t)OPTION_FLAG('q', "quux", HELP("not here")); leaf[1] = (argus_option_t)OPTION_END();
    for (int i = 8; i >= 0; i--) { int e = 0; sprintf(on[i], "own%d", i); sprintf(hp[i], "of level %d", i); memset(cn[i], 'a' + i, len); cn[i][len] = 0; t[i][e++] = (argus_option_t)OPTION_STRING('o', on[i], HELP(hp[i])); t[i][e++] = (argus_option_t)GROUP_START(i % 2 ? "Odd" : "Even"); t[i][e++] = (argus_option_t)OPTION_FLAG('c', "common", HELP(hp[i])); t[i][e++] = (argus_option_t)GROUP_END(); if (i < 8) { t[i][e++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP(hp[i])); t[i][e++] = (argus_option_t)SUBCOMMAND("zz", leaf, HELP(hp[i])); } else t[i][e++] = (argus_option_t)POSITIONAL_STRING("pp", HELP(hp[i]), OPTL); t[i][e] = (argus_option_t)OPTION_END(); }
    for (int i = 0; i < depth; i++) { c.argv[c.argc++] = cn[i]; k += (size_t)sprintf(chain + k, " %s", cn[i]); } check(&c, t[depth], chain);
}
/* group headings that differ in one place only, or in length, each opened twice */
static void groupnames(uint64_t idx, const void *arg)
{
    (void)arg; unsigned len = (unsigned)(idx % 48) + 1; idx /= 48; unsigned at = (unsigned)(idx % 49); idx /= 49; unsigned ord = (unsigned)(idx % 4), how = (unsigned)(idx / 4); if (at > len) return; static char g[3][64]; for (unsigned q = 0; q < 3; q++) { memset(g[q], 'g', len); g[q][len] = 0; if (at < len) g[q][at] = how ? (char)("gG "[q]) : (char)("gxy"[q]); else for (unsigned k = 0; k < q; k++) { g[q][len + k] = 's'; g[q][len + k + 1] = 0; } }
    if (how && (at == 0 || at + 1 == len) && at < len) return; /* a heading with a blank at an end is not read back */
    static const unsigned O[4][6] = {{0, 1, 2, 0, 1, 2}, {2, 1, 0, 1, 2, 0}, {0, 0, 1, 1, 2, 2}, {1, 2, 1, 0, 2, 0}}; static char nm[6][8], hp[6][16]; argus_option_t t[20]; unsigned e = 0; NOTE("headings of %u characters differing at %u, order %u, %u", len, at, ord, how);
    for (unsigned q = 0; q < 6; q++) { sprintf(nm[q], "o%u", q); sprintf(hp[q], "help %u.", q); t[e++] = (argus_option_t)GROUP_START(g[O[ord][q]]); t[e++] = (argus_option_t)OPTION_FLAG((char)('a' + q), nm[q], HELP(hp[q])); t[e++] = (argus_option_t)GROUP_END(); } t[e] = (argus_option_t)OPTION_END(); dcase_t c = {.tmpl = t}; check(&c, t, "");
}
/* 1..40 validators on one entry, every one of them in the description */
static void many(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 40) + 1; idx /= 40; unsigned ty = (unsigned)(idx % 5); idx /= 5; unsigned extra = (unsigned)(idx % 8); NOTE("%u validators on type %u, extra %u", n, ty, extra); static validator_entry_t v[40]; static validator_entry_t *vs[41]; validators();
    for (unsigned q = 0; q < n; q++) { v[q] = (validator_entry_t){.order = ORDER_POST}; if (ty == 2 || ty == 4) { v[q].func = range_validator; v[q].formatter = format_range_validator; v[q].data.range.min = -(int64_t)q; v[q].data.range.max = 100 + (int64_t)q * q; } else { v[q].func = length_validator; v[q].formatter = format_length_validator; v[q].data.range.min = 0; v[q].data.range.max = 100 + (int64_t)q; } if (extra & 1 && q % 5 == 3) v[q] = VE[10]; if (extra & 1 && q % 7 == 2) v[q] = VE[5]; vs[q] = &v[q]; } vs[n] = NULL;
    argus_option_t t[] = {ty == 0 ? (argus_option_t)OPTION_FLAG('v', "val") : ty == 1 ? (argus_option_t)OPTION_STRING('v', "val") : ty == 2 ? (argus_option_t)OPTION_INT('v', "val") : ty == 3 ? (argus_option_t)OPTION_ARRAY_STRING('v', "val") : (argus_option_t)POSITIONAL_INT("val", OPTL), OPTION_END()}; t[0].help = "text"; t[0].validators = vs; if (extra & 2 && ty == 2) { t[0].have_default = t[0].is_set = true; t[0].default_value = t[0].value = (argus_value_t){.as_int64 = 50}; } if (extra & 4) t[0].env_name = "EV"; dcase_t c = {.tmpl = t}; check(&c, t, "");
}
/* one option under every set of marks in every company: alone, alone in its section, with hidden, plain or marked ones before, after and in the same section */
static void company(uint64_t idx, const void *arg)
{
    (void)arg; unsigned ty = (unsigned)(idx % 12); idx /= 12; unsigned marks = (unsigned)(idx % 128); idx /= 128; unsigned before = (unsigned)(idx % 5), after = (unsigned)(idx / 5 % 5); idx /= 25; unsigned grp = (unsigned)(idx % 6); idx /= 6; unsigned sub = (unsigned)(idx % 2);
    NOTE("%s type %u marks 0x%x, %u before, %u after, section %u", sub ? "nested" : "root", ty, marks, before, after, grp); argus_option_t x = typed(ty, "val-x"), t[16]; unsigned e = 0; x.help = "text"; x.flags = 0; for (int i = 0; i < 6; i++) if (marks >> i & 1) x.flags |= MK[i]; if (marks & 64) x.flags |= FLAG_HIDDEN;
    for (int side = 0; side < 3; side++) {
        bool open = (grp == 1 && side == 1) || (grp == 2 && side == 0) || (grp == 3 && side == 1) || (grp == 4 && side == 0) || (grp == 5 && side < 3), close = (grp == 1 && side == 1) || (grp == 2 && side == 2) || (grp == 3 && side == 2) || (grp == 4 && side == 1) || grp == 5;
        if (open) { t[e++] = grp == 5 ? (argus_option_t)GROUP_START(side == 1 ? "Mine" : "Other") : (argus_option_t)GROUP_START("Mine"); if (grp == 3) t[e - 1].flags |= FLAG_EXCLUSIVE; }
        if (side == 1) t[e++] = x; else switch (side ? after : before) { case 0: break; case 1: t[e++] = (argus_option_t)OPTION_FLAG(side ? 'b' : 'a', side ? "bbb" : "aaa", HELP("side")); break; case 2: t[e++] = (argus_option_t)OPTION_STRING(side ? 'b' : 'a', side ? "bbb" : "aaa", HELP("side"), FLAGS(FLAG_HIDDEN)); break; case 3: t[e++] = (argus_option_t)OPTION_INT(0, side ? "bbb" : "aaa", HELP("side"), FLAGS(FLAG_REQUIRED | FLAG_EXIT)); break; default: t[e++] = (argus_option_t)OPTION_FLAG(side ? 'b' : 'a', side ? "bbb" : "aaa", HELP("side"), FLAGS(FLAG_DEPRECATED | FLAG_EXPERIMENTAL)); }
        if (close) t[e++] = (argus_option_t)GROUP_END();
    }
    t[e] = (argus_option_t)OPTION_END(); leaf[0] = (argus_option_t)OPTION_FLAG('q', "quux", HELP("not here")); leaf[1] = t[e]; dcase_t c = {.tmpl = t}; argus_option_t up[] = {OPTION_FLAG('u', "upper", HELP("not here either")), SUBCOMMAND("nest", t, HELP("neither here"), ACTION(act)), OPTION_END()};
    if (sub) { if ((x.flags & FLAG_REQUIRED) || before == 3 || after == 3) return; c.tmpl = up; c.argc = 1; c.argv[0] = "nest"; } check(&c, t, sub ? " nest" : "");
}
void mc_register(int thorough)
{
    mc_space("vast", 12 * 5 * 6 * 2 * 4, vast, NULL);
    L = thorough ? 5 : 4;
    mc_space("tables/root", seq_count(18, L), tables, NULL); mc_space("tables/nested", seq_count(18, L - 1), tables, (void *)1);
    mc_space("facts/options", 12ull * 18 * 3 * 6 * 4 * 5 * (thorough ? 64 * 3 : 3), facts, NULL);
    if (!thorough) mc_space("facts/marks", 12ull * 18 * 3 * 6 * 64 * 3, facts, (void *)2);
    mc_space("facts/positionals", 6ull * 18 * 3 * 6 * 4 * 5 * 4, facts, (void *)1);
    mc_space("facts/commands", 4 * 8 * 4, commands, NULL);
    mc_space("placeholders", 26 * 4 * 12 * 31, hints, NULL);
    mc_space("lengths", 301 * 9, lengths, NULL);
    mc_space("wide", 100ull * 101 * 5 * 4 * 2, wide, NULL); mc_space("deep", 9 * 120, deep, NULL); mc_space("group names", 48 * 49 * 4 * 2, groupnames, NULL); mc_space("company", 12ull * 128 * 25 * 6 * 2, company, NULL); mc_space("many validators", 40 * 5 * 8, many, NULL);
}
