/* C11: declared validators decide acceptance exactly. */
#include "model.h"
const char *mc_property = "C11";
const char *mc_bounds =
    "integer ranges with both bounds out of 16 (0, +-1, 32- and 64-bit limits) against every bound and its neighbours; float ranges against values just inside, on and outside; "
    "string lengths 0..8 and 100 against texts of 0..12, 99..101 bytes, also multi-byte; element counts 0..5 against 0..7 elements of every collection type over 1..3 occurrences, with and without unique; "
    "every non-empty ordered choice set of up to 3 of 6 strings / integers / floats against every text of up to 3 characters or every value; 8 regular expressions against every text of up to 6 (7) characters over "
    "{a b 0}; every list of up to 3 validators (builtin, regex, custom before and after conversion) on one option and on two options of two levels with every value sequence of up to 3 from 6 texts, given by every source; 1..40 validators with one at any place refusing; "
    "1..100 choices with every entry and near misses; choices of up to 150 bytes with a common beginning or end; length bounds out of 16 up to 65535 with texts around each; regular expressions on subjects of 0..299 characters with one character changed; patterns of up to 4096 characters that differ only at the end, two in one table or one parse after another; counts of 0..101 elements, of every collection type under every combination of its flags with up to 14 (24) elements that repeat keys or values, and around every power of two from 256 to 131072; "
    "the validator macros with 1..40 choices and all bounds above against the same definition spelt out; "
    "1..60 validated options, any one given badly and any other well; chains of 8 commands validated at every level.  "
    "Outcome, status and the exact trace of callback and conversion calls are compared with the model.";

/* ---- regular expressions: hand-written recognisers */
static const char *RE[] = {"^a+b$", "^$", "a", "^[0-9ab]{2,3}$", "^(a|ab)$", "^(?=.*a)(?=.*0).{2,}$", "b0|0b", "^a(b0)*$"};
static bool re_match(int k, const char *s, int n)
{
    switch (k) {
        case 0: { int i = 0; while (i < n && s[i] == 'a') i++; return i > 0 && i == n - 1 && s[i] == 'b'; }
        case 1: return n == 0;
        case 2: return memchr(s, 'a', (size_t)n) != NULL;
        case 3: return n == 2 || n == 3;
        case 4: return (n == 1 && s[0] == 'a') || (n == 2 && s[0] == 'a' && s[1] == 'b');
        case 5: return n >= 2 && memchr(s, 'a', (size_t)n) && memchr(s, '0', (size_t)n);
        case 6: for (int i = 0; i + 1 < n; i++) if ((s[i] == 'b' && s[i + 1] == '0') || (s[i] == '0' && s[i + 1] == 'b')) return true; return false;
        default: if (n % 2 == 0 || s[0] != 'a') return false; for (int i = 1; i < n; i += 2) if (s[i] != 'b' || s[i + 1] != '0') return false; return true;
    }
}
static bool regex_hook(const char *p, const char *v, int n) { for (int k = 0; k < 8; k++) if (p == RE[k]) return re_match(k, v, n); abort(); }

/* ---- custom callbacks: pre refuse texts containing a character, post refuse values */
static int pre_rule(int id, const char *v) { if (id == 0 && strchr(v, 'x')) return ARGUS_ERROR_INVALID_FORMAT; if (id == 1 && strchr(v, '7')) return v[1] ? -2 : ARGUS_ERROR_UNSUPPORTED; return 0; }
static int cb_pre(argus_t *a, void *v, validator_data_t d)
{
    (void)a; char n[8]; sprintf(n, "pre%d", (int)d.custom); d_trace_add(n, v);
    int s = pre_rule((int)d.custom, v);
    return s;
}
static int post_rule(int id, long long num) { if (id == 10 && num % 2) return ARGUS_ERROR_INVALID_CHOICE; if (id == 11 && num > 9) return num > 50 ? 300 : -1; return 0; }
static int cb_post(argus_t *a, void *o, validator_data_t d)
{
    (void)a; argus_option_t *opt = o; char n[8], v[40]; sprintf(n, "post%d", (int)d.custom);
    long long num = opt->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC) ? (long long)opt->value_count : opt->value_type == VALUE_TYPE_STRING ? (long long)strlen(opt->value.as_string) : opt->value.as_int64;
    sprintf(v, "%lld", num); d_trace_add(n, v);
    return post_rule((int)d.custom, num);
}
static int custom_hook(const validator_entry_t *v, const mopt_t *o, const char *val, int n)
{
    (void)n; int id = (int)v->data.custom; size_t k = strlen(m_trace);
    if (v->order == ORDER_PRE) { snprintf(m_trace + k, sizeof m_trace - k, "pre%d=%s;", id, val); return pre_rule(id, val); }
    long long num = o->c ? o->c->n : o->t->value_type == VALUE_TYPE_STRING ? o->v.n : o->v.i;
    snprintf(m_trace + k, sizeof m_trace - k, "post%d=%lld;", id, num);
    return post_rule(id, num);
}
static argus_option_t o_end(void) { return OPTION_END(); }
static argus_option_t o_help(void) { return OPTION_FLAG('h', "help", HELP("h"), LOGF); }
static argus_option_t opt(argus_valtype_t t)
{
    switch (t) {
        case VALUE_TYPE_INT: return (argus_option_t)OPTION_INT('v', "val", HELP("h"), ENV_VAR("V"), LOGI);
        case VALUE_TYPE_FLOAT: return (argus_option_t)OPTION_FLOAT('v', "val", HELP("h"), ENV_VAR("V"), LOGD);
        case VALUE_TYPE_STRING: return (argus_option_t)OPTION_STRING('v', "val", HELP("h"), ENV_VAR("V"), LOGS);
        case VALUE_TYPE_ARRAY_INT: return (argus_option_t)OPTION_ARRAY_INT('v', "val", HELP("h"), ENV_VAR("V"), LOGAI);
        case VALUE_TYPE_ARRAY_STRING: return (argus_option_t)OPTION_ARRAY_STRING('v', "val", HELP("h"), ENV_VAR("V"), LOGAS);
        case VALUE_TYPE_ARRAY_FLOAT: return (argus_option_t)OPTION_ARRAY_FLOAT('v', "val", HELP("h"), ENV_VAR("V"), LOGAF);
        case VALUE_TYPE_MAP_STRING: return (argus_option_t)OPTION_MAP_STRING('v', "val", HELP("h"), ENV_VAR("V"), LOGMS);
        case VALUE_TYPE_MAP_INT: return (argus_option_t)OPTION_MAP_INT('v', "val", HELP("h"), ENV_VAR("V"), LOGMI);
        case VALUE_TYPE_VARIADIC_INT: return (argus_option_t)POSITIONAL_MANY_INT("val", HELP("h"), OPTL, LOGVI);
        case VALUE_TYPE_MAP_FLOAT: return (argus_option_t)OPTION_MAP_FLOAT('v', "val", HELP("h"), ENV_VAR("V"), LOGMF);
        case VALUE_TYPE_MAP_BOOL: return (argus_option_t)OPTION_MAP_BOOL('v', "val", HELP("h"), ENV_VAR("V"), LOGMB);
        case VALUE_TYPE_VARIADIC_FLOAT: return (argus_option_t)POSITIONAL_MANY_FLOAT("val", HELP("h"), OPTL, LOGVD);
        default: return (argus_option_t)POSITIONAL_MANY_STRING("val", HELP("h"), OPTL, LOGVS);
    }
}
static argus_option_t pos(argus_valtype_t t)
{
    if (t == VALUE_TYPE_INT) return (argus_option_t)POSITIONAL_INT("val", HELP("h"), OPTL, LOGI);
    if (t == VALUE_TYPE_FLOAT) return (argus_option_t)POSITIONAL_FLOAT("val", HELP("h"), OPTL, LOGD);
    return (argus_option_t)POSITIONAL_STRING("val", HELP("h"), OPTL, LOGS);
}
/* one scalar option with one validator, given by one of five sources */
static void scalar(argus_valtype_t ty, validator_entry_t *v, const char *text, unsigned how, const char *tn)
{
    validator_entry_t *vs[] = {v, NULL}; argus_option_t t[4]; char w[160]; dcase_t c = {.tmpl = t};
    t[0] = how == 3 ? pos(ty) : opt(ty); t[0].validators = vs; t[1] = o_help(); t[2] = o_end();
    snprintf(w, sizeof w, "--val=%s", text);
    switch (how) {
        case 0: c.argv[c.argc++] = w; break;
        case 1: c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = text; break;
        case 2: c.argv[c.argc++] = ty == VALUE_TYPE_STRING ? "--val=a" : "--val=0"; c.argv[c.argc++] = "-v"; c.argv[c.argc++] = text; break;
        case 3: c.argv[c.argc++] = "--"; c.argv[c.argc++] = text; break;
    }
    m_check(&c, tn);
}
static const int64_t B[] = {INT64_MIN, INT64_MIN + 1, -4294967297ll, -2147483649ll, -2147483648ll, -1, 0, 1, 5, 10, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, INT64_MAX - 1, INT64_MAX};
static void range_int(uint64_t idx, const void *arg)
{
    (void)arg; unsigned how = (unsigned)(idx % 4); idx /= 4; int64_t lo = B[idx % 16]; idx /= 16; int64_t hi = B[idx % 16]; idx /= 16; int64_t b = B[idx % 16]; int d = (int)(idx / 16) - 1;
    int64_t x; if (__builtin_add_overflow(b, d, &x)) return;
    char t[32], tn[80]; sprintf(t, "%lld", (long long)x); sprintf(tn, "range %lld..%lld", (long long)lo, (long long)hi);
    validator_entry_t v = {.func = range_validator, .formatter = format_range_validator, .order = ORDER_POST}; v.data.range.min = lo; v.data.range.max = hi;
    scalar(VALUE_TYPE_INT, &v, t, how, tn);
}
static void range_float(uint64_t idx, const void *arg)
{
    (void)arg; static const int64_t FB[] = {-1000000000000ll, -2147483649ll, -3, -1, 0, 1, 2, 5, 2147483648ll, 9007199254740992ll}; static const char *FV[] = {"-1e300", "-0.000001", "0.000001", "-0.5", "0.5", "1.9999999999999998", "2.0000000000000004", "5.5", "4.9999999", "1e300", "2147483648.5", "2147483647.5"};
    unsigned how = (unsigned)(idx % 4); idx /= 4; int64_t lo = FB[idx % 10]; idx /= 10; int64_t hi = FB[idx % 10]; idx /= 10;
    char t[64], tn[80]; if (idx < 12) strcpy(t, FV[idx]); else { int64_t b = FB[(idx - 12) % 10]; unsigned f = (unsigned)(idx - 12) / 10; static const char *FM[] = {"%lld", "%lld.0", "%lld.25"}; sprintf(t, FM[f], (long long)b); }
    sprintf(tn, "float range %lld..%lld", (long long)lo, (long long)hi);
    validator_entry_t v = {.func = range_validator, .formatter = format_range_validator, .order = ORDER_POST}; v.data.range.min = lo; v.data.range.max = hi;
    scalar(VALUE_TYPE_FLOAT, &v, t, how, tn);
}
static void length(uint64_t idx, const void *arg)
{
    (void)arg; unsigned how = (unsigned)(idx % 4); idx /= 4; int64_t lo = (int64_t)(idx % 10); idx /= 10; int64_t hi = (int64_t)(idx % 10); idx /= 10; unsigned kind = (unsigned)(idx % 3); unsigned n = (unsigned)(idx / 3); if (n > 12) n += 86;
    if (lo == 9) lo = 100; if (hi == 9) hi = 100;
    char t[128] = "", tn[80]; static const char *CH[] = {"a", "\xc3\xa9", "ab "}; size_t cl = strlen(CH[kind]);
    for (unsigned i = 0; i < n; i++) t[i] = CH[kind][i % cl];
    t[n] = 0; sprintf(tn, "length %lld..%lld", (long long)lo, (long long)hi);
    validator_entry_t v = {.func = length_validator, .formatter = format_length_validator, .order = ORDER_POST}; v.data.range.min = lo; v.data.range.max = hi;
    scalar(VALUE_TYPE_STRING, &v, t, how, tn);
}
static const argus_valtype_t CT[] = {VALUE_TYPE_ARRAY_INT, VALUE_TYPE_ARRAY_STRING, VALUE_TYPE_ARRAY_FLOAT, VALUE_TYPE_MAP_STRING, VALUE_TYPE_MAP_INT, VALUE_TYPE_VARIADIC_INT, VALUE_TYPE_VARIADIC_STRING};
static void count(uint64_t idx, const void *arg)
{
    (void)arg; argus_valtype_t ty = CT[idx % 7]; idx /= 7; int64_t lo = (int64_t)(idx % 6); idx /= 6; int64_t hi = (int64_t)(idx % 6); idx /= 6; unsigned uniq = (unsigned)(idx % 2); idx /= 2; unsigned n = (unsigned)(idx % 8); idx /= 8; unsigned occ = 1 + (unsigned)(idx % 3); idx /= 3; unsigned dup = (unsigned)(idx % 2), env = (unsigned)(idx / 2);
    bool many = ty & VALUE_TYPE_VARIADIC, map = ty & VALUE_TYPE_MAP; char w[8][80], tn[80];
    validator_entry_t v = {.func = count_validator, .formatter = format_count_validator, .order = ORDER_POST}; v.data.range.min = lo; v.data.range.max = hi;
    validator_entry_t *vs[] = {&v, NULL}; argus_option_t t[4]; dcase_t c = {.tmpl = t};
    t[0] = opt(ty); t[0].validators = vs; if (uniq) t[0].flags |= map ? FLAG_UNIQUE_VALUE : FLAG_UNIQUE; t[1] = o_help(); t[2] = o_end();
    unsigned per = (n + occ - 1) / occ, i = 0; char *o = NULL;
    if (many) { if (env || occ > 1) return; c.argv[c.argc++] = "--"; for (; i < n; i++) { sprintf(w[i], "%u", dup ? i / 2 : i); c.argv[c.argc++] = w[i]; } }
    else for (unsigned k = 0; k < occ; k++) {
        o = w[k]; *o = 0;
        for (unsigned j = 0; j < per && i < n; j++, i++) { if (*o) strcat(o, ","); if (map) sprintf(o + strlen(o), "k%u=", i); sprintf(o + strlen(o), "%u", dup ? i / 2 : i); }
        if (!*o) strcpy(o, ",");
        if (env) { if (occ > 1) return; c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = o; } else { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = o; }
    }
    sprintf(tn, "count %lld..%lld type=%x unique=%u", (long long)lo, (long long)hi, ty, uniq);
    m_check(&c, tn);
}
static const char *CS[] = {"a", "ab", "A", "", "b", "abb"};
static const int64_t CI[] = {0, -1, 7, 2147483648ll, INT64_MIN, INT64_MAX};
static const double CF[] = {0, -0.5, 0.1, 1e10, 1.5, 3};
static const char *IV[] = {"0", "-1", "7", "2147483648", "-9223372036854775808", "9223372036854775807", "1", "-2147483648", "007", "-0", "8"};
static const char *FV[] = {"0", "-0.5", "0.1", "1e10", "1.5", "3", "0.10000000000000001", "0.1000001", "3.0000000000000004", "-0.0", "10000000000", "1.50", "0.5"};
static void choice(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; unsigned how = (unsigned)(idx % 4); idx /= 4; uint64_t nset = seq_count(6, 3); unsigned k[4], n = seq_decode(idx % nset, 6, 3, k); idx /= nset;
    if (!n) return;
    validator_entry_t v = {.order = ORDER_POST, .formatter = format_choices_validator}; v.data.choices.count = n; char tn[80] = "choices", t[16];
    char *ss[3]; int64_t is[3]; double fs[3];
    for (unsigned i = 0; i < n; i++) { ss[i] = (char *)CS[k[i]]; is[i] = CI[k[i]]; fs[i] = CF[k[i]]; sprintf(tn + strlen(tn), " %u", k[i]); }
    if (ty == 0) {
        unsigned q[4], m = seq_decode(idx, 3, 3, q); for (unsigned i = 0; i < m; i++) t[i] = "abA"[q[i]]; t[m] = 0;
        v.func = choices_string_validator; v.data.choices.as_strings = ss; v.data.choices.type = VALUE_TYPE_STRING; scalar(VALUE_TYPE_STRING, &v, t, how, tn);
    } else if (ty == 1) { v.func = choices_int_validator; v.data.choices.as_ints = is; v.data.choices.type = VALUE_TYPE_INT; scalar(VALUE_TYPE_INT, &v, IV[idx], how, tn); }
    else { v.func = choices_float_validator; v.data.choices.as_floats = fs; v.data.choices.type = VALUE_TYPE_FLOAT; scalar(VALUE_TYPE_FLOAT, &v, FV[idx], how, tn); }
}
static unsigned RL;
static void regex(uint64_t idx, const void *arg)
{
    (void)arg; unsigned how = (unsigned)(idx % 7); idx /= 7; unsigned r = (unsigned)(idx % 8); idx /= 8; char t[16], tn[60]; unsigned k[16], n = seq_decode(idx, 3, RL, k);
    for (unsigned i = 0; i < n; i++) t[i] = "ab0"[k[i]];
    t[n] = 0;
    validator_entry_t v = {.func = regex_validator, .formatter = format_regex_validator, .order = ORDER_PRE}; v.data.regex.pattern = RE[r]; v.data.regex.hint = r % 2 ? "hint" : NULL;
    sprintf(tn, "regex %s", RE[r]);
    if (how < 4) { scalar(VALUE_TYPE_STRING, &v, t, how, tn); return; }
    validator_entry_t *vs[] = {&v, NULL}; argus_option_t o[4]; dcase_t c = {.tmpl = o};
    static const argus_valtype_t RT[] = {VALUE_TYPE_ARRAY_STRING, VALUE_TYPE_VARIADIC_STRING, VALUE_TYPE_INT};
    o[0] = opt(RT[how - 4]); o[0].validators = vs; o[1] = o_help(); o[2] = o_end();
    if (how == 4) { if (!n) return; c.argv[c.argc++] = "-v"; c.argv[c.argc++] = "ab"; c.argv[c.argc++] = "-v"; c.argv[c.argc++] = t; }
    if (how == 5) { c.argv[c.argc++] = "a"; c.argv[c.argc++] = t; }
    if (how == 6) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = t; }
    m_check(&c, tn);
}
/* ---- lists of validators with call traces */
static validator_entry_t VL[8]; static char *LS[] = {"4", "77", "x"}; static int64_t LI[] = {4, 8, 11};
static const char *TXT[] = {"4", "8", "x", "77", "11", ""};
static void init_lists(void)
{
    VL[0] = (validator_entry_t){.func = cb_pre, .data = {.custom = 0}, .order = ORDER_PRE};
    VL[1] = (validator_entry_t){.func = cb_pre, .data = {.custom = 1}, .order = ORDER_PRE};
    VL[2] = (validator_entry_t){.func = cb_post, .data = {.custom = 10}, .order = ORDER_POST};
    VL[3] = (validator_entry_t){.func = cb_post, .data = {.custom = 11}, .order = ORDER_POST};
    VL[4] = (validator_entry_t){.func = range_validator, .formatter = format_range_validator, .order = ORDER_POST}; VL[4].data.range.min = 0; VL[4].data.range.max = 10;
    VL[5] = (validator_entry_t){.func = choices_int_validator, .formatter = format_choices_validator, .order = ORDER_POST}; VL[5].data.choices = (choices_data_t){.as_ints = LI, .count = 3, .type = VALUE_TYPE_INT};
    VL[6] = (validator_entry_t){.func = length_validator, .formatter = format_length_validator, .order = ORDER_POST}; VL[6].data.range.min = 1; VL[6].data.range.max = 1;
    VL[7] = (validator_entry_t){.func = choices_string_validator, .formatter = format_choices_validator, .order = ORDER_POST}; VL[7].data.choices = (choices_data_t){.as_strings = LS, .count = 3, .type = VALUE_TYPE_STRING};
}
/* kind 0 int (validators 0-5), 1 string (0-3, 6, 7), 2 array of strings (0-3), 3 many ints (0-3) */
static const int VK[4][6] = {{0, 1, 2, 3, 4, 5}, {0, 1, 2, 3, 6, 7}, {0, 1, 2, 3, 2, 0}, {0, 1, 2, 3, 1, 3}};
static const argus_valtype_t KT[] = {VALUE_TYPE_INT, VALUE_TYPE_STRING, VALUE_TYPE_ARRAY_STRING, VALUE_TYPE_VARIADIC_INT};
static void lists(uint64_t idx, const void *arg)
{
    (void)arg; unsigned kind = (unsigned)(idx % 4); idx /= 4; unsigned src = (unsigned)(idx % 4); idx /= 4; uint64_t nv = seq_count(6, 3), nt = seq_count(6, 3); unsigned k[4], q[4];
    unsigned n = seq_decode(idx % nv, 6, 3, k); idx /= nv; unsigned m = seq_decode(idx % nt, 6, 3, q);
    validator_entry_t *vs[4] = {0}; char tn[60] = "lists"; argus_option_t sub[4], o[4]; dcase_t c = {.tmpl = o};
    for (unsigned i = 0; i < n; i++) { vs[i] = &VL[VK[kind][k[i]]]; sprintf(tn + strlen(tn), " %d", VK[kind][k[i]]); }
    argus_option_t x = opt(KT[kind]); x.validators = vs;
    if (src == 2) x.flags |= FLAG_ENV_OVERRIDE;
    int e = 0;
    if (src == 3) { sub[0] = x; sub[1] = o_help(); sub[2] = o_end(); o[e++] = o_help(); o[e++] = (argus_option_t)SUBCOMMAND("sub", sub, HELP("h")); o[e++] = o_end(); c.argv[c.argc++] = "sub"; }
    else { o[e++] = x; o[e++] = o_help(); o[e++] = o_end(); }
    if (kind == 3) { if (src == 1 || src == 2) return; c.argv[c.argc++] = "--"; }
    if (kind == 2) for (unsigned i = 0; i < m; i++) if (!*TXT[q[i]]) return;
    for (unsigned i = 0; i < m; i++) {
        if ((src == 1 || src == 2) && i == m - 1) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = TXT[q[i]]; break; }
        if (kind != 3) c.argv[c.argc++] = "-v";
        c.argv[c.argc++] = TXT[q[i]];
    }
    sprintf(tn + strlen(tn), " kind=%u src=%u", kind, src);
    m_check(&c, tn);
}
/* two validated options, one per level */
static void two(uint64_t idx, const void *arg)
{
    (void)arg; unsigned v1 = (unsigned)(idx % 6); idx /= 6; unsigned v2 = (unsigned)(idx % 6); idx /= 6; unsigned v3 = (unsigned)(idx % 6); idx /= 6; unsigned t1 = (unsigned)(idx % 7); idx /= 7; unsigned t2 = (unsigned)(idx % 7); idx /= 7; unsigned same = (unsigned)(idx % 2), order = (unsigned)(idx / 2);
    validator_entry_t *a[] = {&VL[v1], &VL[v2], NULL}, *b[] = {&VL[v3], NULL}; char tn[60]; argus_option_t sub[4], o[5]; dcase_t c = {.tmpl = o}; int e = 0;
    argus_option_t x = opt(VALUE_TYPE_INT), y = opt(VALUE_TYPE_INT); x.validators = a; y.validators = b; y.sname = 'w'; y.lname = y.name = "wal"; y.env_name = NULL;
    if (same) { o[e++] = x; o[e++] = y; o[e++] = o_help(); o[e++] = o_end(); }
    else { sub[0] = y; sub[1] = o_help(); sub[2] = o_end(); o[e++] = x; o[e++] = o_help(); o[e++] = (argus_option_t)SUBCOMMAND("sub", sub, HELP("h")); o[e++] = o_end(); }
    if (order && !same) return;
    if (order && t2 < 6) { c.argv[c.argc++] = "-w"; c.argv[c.argc++] = TXT[t2]; }
    if (t1 < 6) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = TXT[t1]; }
    if (!same) c.argv[c.argc++] = "sub";
    if (!order && t2 < 6) { c.argv[c.argc++] = "-w"; c.argv[c.argc++] = TXT[t2]; }
    sprintf(tn, "two %u,%u / %u same=%u", v1, v2, v3, same);
    m_check(&c, tn);
}
/* n validators on one option, the one at position j refusing */
static void many(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 40) + 1; idx /= 40; unsigned j = (unsigned)(idx % 41); idx /= 41; unsigned base = (unsigned)(idx % 3); idx /= 3; unsigned bad = (unsigned)(idx % 4), src = (unsigned)(idx / 4); if (j > n) return;
    static validator_entry_t ok_r, bad_r; ok_r = VL[4]; ok_r.data.range.max = 100; bad_r = VL[4]; bad_r.data.range.max = 7; validator_entry_t *vs[42] = {0}, *acc[] = {&VL[0], &VL[2], &ok_r}, *ref[] = {&VL[1], &VL[3], &bad_r, &VL[5]};
    for (unsigned i = 0; i < n; i++) vs[i] = i == j ? ref[bad] : acc[base == 2 ? i % 3 : base];
    argus_option_t o[4]; dcase_t c = {.tmpl = o}; char tn[60]; o[0] = opt(VALUE_TYPE_INT); o[0].validators = vs; o[1] = o_help(); o[2] = o_end();
    if (src == 1) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = "70"; } else { c.argv[c.argc++] = "--val=70"; if (src == 2) c.argv[c.argc++] = "-v6"; }
    sprintf(tn, "%u validators %u, number %u is %u", n, base, j, bad); m_check(&c, tn);
}
/* choice sets of n entries: every entry and its near misses */
static void bigchoice(uint64_t idx, const void *arg)
{
    int ty = (int)(intptr_t)arg; unsigned n = (unsigned)(idx % 100) + 1; idx /= 100; unsigned i = (unsigned)(idx % 100), how = (unsigned)(idx / 100 % 4), miss = (unsigned)(idx / 400); if (i > n) return;
    static char st[100][24]; static char *ss[100]; static int64_t is[100]; static double fs[100]; validator_entry_t v = {.order = ORDER_POST, .formatter = format_choices_validator}; v.data.choices.count = n; char t[48], tn[60];
    for (unsigned k = 0; k < n; k++) { sprintf(st[k], "common-part-%02u", k); ss[k] = st[k]; is[k] = (int64_t)k * 4294967296ll + 3; fs[k] = k + 0.25; }
    if (ty == 0) { v.func = choices_string_validator; v.data.choices.as_strings = ss; v.data.choices.type = VALUE_TYPE_STRING; sprintf(t, "common-part-%02u", i); if (miss == 1) t[strlen(t) - 1] = 0; if (miss == 2) strcat(t, "x"); if (miss == 3) t[0] = 'C'; }
    else if (ty == 1) { v.func = choices_int_validator; v.data.choices.as_ints = is; v.data.choices.type = VALUE_TYPE_INT; sprintf(t, "%lld", (long long)i * 4294967296ll + (miss == 0 ? 3 : miss == 1 ? 2 : miss == 2 ? 4 : 2147483651ll)); }
    else { v.func = choices_float_validator; v.data.choices.as_floats = fs; v.data.choices.type = VALUE_TYPE_FLOAT; sprintf(t, "%u.%s", i, (const char *[]){"25", "250", "2500001", "75"}[miss]); }
    sprintf(tn, "%u choices", n); scalar(ty == 0 ? VALUE_TYPE_STRING : ty == 1 ? VALUE_TYPE_INT : VALUE_TYPE_FLOAT, &v, t, how == 2 && ty == 0 ? 0 : how, tn);
}
/* choices that share a long beginning, or a long end, and values that leave them at one place */
static void longchoice(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 150); idx /= 150; unsigned v = (unsigned)(idx % 9), tail = (unsigned)(idx / 9 % 2), how = (unsigned)(idx / 18); static char s[3][160], t[320]; char *ss[3] = {s[0], s[1], s[2]}, tn[60];
    if (n > 40 && n % 8 > 1 && n % 8 < 7) return;
    for (unsigned i = 0; i < 3; i++) { char *o = s[i]; if (tail) *o++ = "abc"[i]; memset(o, 'p', n); o += n; if (!tail) *o++ = "abc"[i]; *o = 0; }
    strcpy(t, s[v % 3]); size_t l = strlen(t);
    switch (v) { case 3: t[l - 1] = 0; break; case 4: strcat(t, "a"); break; case 5: t[0] = 'd'; break; case 6: t[l - 1] = 'd'; break; case 7: t[l / 2] = 'P'; break; case 8: memmove(t, t + 1, l); break; }
    validator_entry_t e = {.func = choices_string_validator, .formatter = format_choices_validator, .order = ORDER_POST}; e.data.choices.as_strings = ss; e.data.choices.count = 3; e.data.choices.type = VALUE_TYPE_STRING;
    sprintf(tn, "choices of %u bytes", n + 1); argus_option_t o[4]; dcase_t c = {.tmpl = o}; validator_entry_t *vs[] = {&e, NULL}; o[0] = how == 2 ? pos(VALUE_TYPE_STRING) : opt(VALUE_TYPE_STRING); o[0].validators = vs; o[1] = o_help(); o[2] = o_end();
    if (how == 0) c.argv[c.argc++] = "-v"; if (how == 1) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = t; } else { if (how == 2) c.argv[c.argc++] = "--"; c.argv[c.argc++] = t; }
    m_check(&c, tn);
}
/* long texts around length bounds; long subjects of regular expressions */
static const int LB[] = {0, 1, 15, 16, 31, 63, 64, 100, 127, 128, 255, 256, 511, 1023, 4095, 65535};
static void longlen(uint64_t idx, const void *arg)
{
    (void)arg; int lo = LB[idx % 16], hi = LB[idx / 16 % 16], at = LB[idx / 256 % 16] + (int)(idx / 4096 % 3) - 1; unsigned how = (unsigned)(idx / 12288); if (at < 0) return; static char t[65600]; char tn[60]; memset(t, 'q', (size_t)at); t[at] = 0;
    argus_option_t o[4]; dcase_t c = {.tmpl = o}; validator_entry_t v = VL[6]; v.data.range.min = lo; v.data.range.max = hi; validator_entry_t *vs[] = {&v, NULL}; o[0] = how == 2 ? pos(VALUE_TYPE_STRING) : opt(VALUE_TYPE_STRING); o[0].validators = vs; o[1] = o_help(); o[2] = o_end();
    if (how == 0) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = t; } else if (how == 1) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = t; } else { c.argv[c.argc++] = "--"; c.argv[c.argc++] = t; } sprintf(tn, "length %d..%d of a %d byte text", lo, hi, at); m_check(&c, tn);
}
static void longre(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 300); idx /= 300; unsigned p = (unsigned)(idx % 12); idx /= 12; unsigned r = (unsigned)(idx % 8), how = (unsigned)(idx / 8); static char t[320]; unsigned q = p < 4 ? p : p < 8 ? n / 2 + p - 4 : n + p >= 11 ? n + p - 11 : 0;
    if (r == 7) for (unsigned i = 0; i < n; i++) t[i] = i == 0 ? 'a' : i % 2 ? 'b' : '0'; else memset(t, 'a', n); if (r == 0 && n) t[n - 1] = 'b'; if (q < n) t[q] = r == 5 || r == 6 ? '0' : 'b'; if (r == 6 && q + 1 < n) t[q + 1] = 'b'; t[n] = 0;
    validator_entry_t v = {.func = regex_validator, .formatter = format_regex_validator, .order = ORDER_PRE}; v.data.regex.pattern = RE[r]; char tn[60]; sprintf(tn, "regex %s on %u bytes", RE[r], n);
    if (how == 0) { argus_option_t o[4]; dcase_t c = {.tmpl = o}; validator_entry_t *vs[] = {&v, NULL}; o[0] = opt(VALUE_TYPE_STRING); o[0].validators = vs; o[1] = o_help(); o[2] = o_end(); c.argv[c.argc++] = "-v"; c.argv[c.argc++] = t; m_check(&c, tn); } else scalar(VALUE_TYPE_STRING, &v, t, how == 1 ? 1 : 3, tn);
}
/* counts of n elements */
static void longcount(uint64_t idx, const void *arg)
{
    (void)arg; static const int NB[] = {0, 1, 7, 8, 9, 16, 17, 64, 65, 100}; int lo = NB[idx % 10], hi = NB[idx / 10 % 10], n = (int)(idx / 100 % 102); unsigned how = (unsigned)(idx / 10200); static char w[1024], num[102][8]; char *o = w, tn[60];
    validator_entry_t v = {.func = count_validator, .formatter = format_count_validator, .order = ORDER_POST}; v.data.range.min = lo; v.data.range.max = hi; validator_entry_t *vs[] = {&v, NULL}; argus_option_t t[4]; dcase_t c = {.tmpl = t}; argus_valtype_t ty = how == 0 ? VALUE_TYPE_ARRAY_INT : how == 1 ? VALUE_TYPE_MAP_INT : how == 2 ? VALUE_TYPE_ARRAY_STRING : how == 3 ? VALUE_TYPE_VARIADIC_INT : VALUE_TYPE_ARRAY_INT;
    t[0] = opt(ty); t[0].validators = vs; t[1] = o_help(); t[2] = o_end(); if (n == 0 && how != 3) return;
    if (how == 0) { sprintf(w, "1-%d", n); c.argv[c.argc++] = "-v"; c.argv[c.argc++] = w; } else if (how == 3) for (int i = 0; i < n; i++) { sprintf(num[i], "%d", i); c.argv[c.argc++] = num[i]; } else if (how == 2) for (int i = 0; i < n; i++) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = "e"; }
    else { *o = 0; for (int i = 0; i < n; i++) o += sprintf(o, how == 1 ? "%sk%d=1" : "%s%d", i ? "," : "", i); if (how == 1) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = w; } else { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = w; } }
    sprintf(tn, "count %d..%d of %d, %u", lo, hi, n, how); m_check(&c, tn);
}
/* tables of n validated options: i given badly, j given well (after or before) */
static void wide(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 60) + 1; idx /= 60; unsigned i = (unsigned)(idx % 60), j = (unsigned)(idx / 60 % 60), bad = (unsigned)(idx / 3600 % 3), shared = (unsigned)(idx / 10800 % 2), env = (unsigned)(idx / 21600); if (i >= n || j >= n) return;
    static char nm[60][8], w[2][16]; static validator_entry_t v[60]; static validator_entry_t *vs[60][3]; static argus_option_t t[64]; dcase_t c = {.tmpl = t}; char tn[40];
    for (unsigned k = 0; k < n; k++) { sprintf(nm[k], "o%u", k); v[k] = VL[4]; v[k].data.range.min = shared ? 0 : 10 * k; v[k].data.range.max = shared ? 9 : 10 * k + 9; vs[k][0] = &v[shared ? 0 : k]; vs[k][1] = k % 2 ? &VL[0] : NULL; vs[k][2] = NULL; t[k] = (argus_option_t)OPTION_INT(0, nm[k], HELP("h"), LOGI); t[k].validators = vs[k]; }
    t[n] = o_help(); t[n + 1] = o_end(); unsigned bi = shared ? 0 : 10 * i, bj = shared ? 0 : 10 * j; sprintf(w[0], "--o%u=%d", i, (int)bi + (bad == 0 ? 5 : bad == 1 ? -1 : 10)); sprintf(w[1], "--o%u=%u", j, bj + 9); c.argv[c.argc++] = w[env & 1]; c.argv[c.argc++] = w[!(env & 1)]; sprintf(tn, "%u validated options shared=%u", n, shared); m_check(&c, tn);
}
/* chains of up to 8 commands with a validated option of the same name at every level */
static void deep(uint64_t idx, const void *arg)
{
    (void)arg; unsigned depth = (unsigned)(idx % 9); idx /= 9; unsigned at = (unsigned)(idx % 9), at2 = (unsigned)(idx / 9 % 9); idx /= 81; unsigned x1 = (unsigned)(idx % 4), x2 = (unsigned)(idx / 4 % 4), kind = (unsigned)(idx / 16); if (at >= at2) return;
    static argus_option_t t[9][8]; static char cn[9][8], w[2][16]; static validator_entry_t v[9]; static validator_entry_t *vs[9][4]; dcase_t c = {.tmpl = t[0]}; char tn[60];
    for (int i = 8; i >= 0; i--) { int n = 0; v[i] = VL[4]; v[i].data.range.min = 10 * i; v[i].data.range.max = 10 * i + 9; vs[i][0] = &v[i]; vs[i][1] = kind ? &VL[kind == 1 ? 0 : 2] : NULL; vs[i][2] = NULL; t[i][n] = opt(VALUE_TYPE_INT); t[i][n].env_name = NULL; t[i][n++].validators = vs[i]; t[i][n++] = o_help(); if (i < 8) { sprintf(cn[i], "cmd%d", i); t[i][n++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h")); } t[i][n++] = o_end(); }
    for (unsigned i = 0; i <= depth; i++) { if (i) c.argv[c.argc++] = cn[i - 1]; for (unsigned q = 0; q < 2; q++) if (i == (q ? at2 : at)) { sprintf(w[q], "--val=%d", (int)(10 * i) + (int[]){4, -1, 10, 9}[q ? x2 : x1]); c.argv[c.argc++] = w[q]; } }
    sprintf(tn, "validated chain %u", kind); m_check(&c, tn);
}
/* the definition macros: a table written with them against the same definition spelt out */
#define LIST1(f) f(0)
#define LIST2(f) LIST1(f), f(1)
#define LIST3(f) LIST2(f), f(2)
#define LIST4(f) LIST3(f), f(3)
#define LIST5(f) LIST4(f), f(4)
#define LIST6(f) LIST5(f), f(5)
#define LIST7(f) LIST6(f), f(6)
#define LIST8(f) LIST7(f), f(7)
#define LIST9(f) LIST8(f), f(8)
#define LIST10(f) LIST9(f), f(9)
#define LIST12(f) LIST10(f), f(10), f(11)
#define LIST16(f) LIST12(f), f(12), f(13), f(14), f(15)
#define LIST17(f) LIST16(f), f(16)
#define LIST32(f) LIST17(f), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)
#define LIST33(f) LIST32(f), f(32)
#define LIST40(f) LIST33(f), f(33), f(34), f(35), f(36), f(37), f(38), f(39)
#define SIZES(M) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(12) M(16) M(17) M(32) M(33) M(40)
#define CH_S(i) "c" #i
#define CH_I(i) ((int64_t)i * 4294967296ll - 3)
#define CH_F(i) (i + 0.5)
#define CHOICE_ENTRY(n) V_CHOICE_STR(LIST##n(CH_S)), V_CHOICE_INT(LIST##n(CH_I)), V_CHOICE_FLOAT(LIST##n(CH_F)),
#define CHOICE_SIZE(n) n,
static validator_entry_t *MACRO_CHOICES[] = {SIZES(CHOICE_ENTRY)};
static const unsigned MACRO_SIZE[] = {SIZES(CHOICE_SIZE)};
static void meant(argus_valtype_t ty, validator_entry_t *given, validator_entry_t *spelt, const char *text, const char *tn)
{
    validator_entry_t *vg[] = {given, NULL}, *vm[] = {spelt, NULL}; argus_option_t g[3], m[3]; dcase_t c = {.tmpl = g, .meant = m, .argc = 2};
    g[0] = m[0] = opt(ty); g[0].validators = vg; m[0].validators = vm; g[1] = m[1] = o_help(); g[2] = m[2] = o_end(); c.argv[0] = "-v"; c.argv[1] = text; m_check(&c, tn);
}
static void macros(uint64_t idx, const void *arg)
{
    unsigned kind = (unsigned)(intptr_t)arg; char tn[60], t[64]; validator_entry_t s = {.order = ORDER_POST};
    if (kind == 0) {
        unsigned z = (unsigned)(idx % 16), n = MACRO_SIZE[z]; idx /= 16; unsigned ty = (unsigned)(idx % 3); idx /= 3; unsigned i = (unsigned)(idx % 42), miss = (unsigned)(idx / 42); if (i > n + 1) return;
        static char st[40][8]; static char *ss[40]; static int64_t is[40]; static double fs[40]; for (int k = 0; k < 40; k++) { sprintf(st[k], "c%d", k); ss[k] = st[k]; is[k] = (int64_t)k * 4294967296ll - 3; fs[k] = k + 0.5; }
        s.data.choices.count = n; sprintf(tn, "V_CHOICE of %u", n);
        if (ty == 0) { s.func = choices_string_validator; s.data.choices.as_strings = ss; sprintf(t, "c%u%s", i, miss ? "0" : ""); } else if (ty == 1) { s.func = choices_int_validator; s.data.choices.as_ints = is; sprintf(t, "%lld", (long long)i * 4294967296ll - 3 + miss); } else { s.func = choices_float_validator; s.data.choices.as_floats = fs; sprintf(t, "%u.5%s", i, miss ? "1" : ""); }
        meant(ty == 0 ? VALUE_TYPE_STRING : ty == 1 ? VALUE_TYPE_INT : VALUE_TYPE_FLOAT, MACRO_CHOICES[3 * z + ty], &s, t, tn); return;
    }
    if (kind == 1) {
        int64_t lo = B[idx % 16], hi = B[idx / 16 % 16], b = B[idx / 256 % 16], x; unsigned fl = (unsigned)(idx / 4096 % 2); if (__builtin_add_overflow(b, (int)(idx / 8192) - 1, &x)) return; if (fl && (x > 1ll << 52 || x < -(1ll << 52))) return;
        s.func = range_validator; s.data.range.min = lo; s.data.range.max = hi; sprintf(t, "%lld", (long long)x); sprintf(tn, "V_RANGE(%lld, %lld)", (long long)lo, (long long)hi); meant(fl ? VALUE_TYPE_FLOAT : VALUE_TYPE_INT, V_RANGE(lo, hi), &s, t, tn); return;
    }
    static const int64_t NB[] = {0, 1, 2, 3, 4, 255, 256, 257, 4294967295ll, 4294967296ll, INT64_MAX}; static const unsigned LEN[] = {0, 1, 2, 3, 4, 5, 254, 255, 256, 257, 258}; int64_t lo = NB[idx % 11], hi = NB[idx / 11 % 11]; unsigned n = LEN[idx / 121]; static char big[1200]; if (lo > hi) return;
    s.data.range.min = lo; s.data.range.max = hi;
    if (kind == 2) { memset(big, 'q', n); big[n] = 0; s.func = length_validator; sprintf(tn, "V_LENGTH(%lld, %lld)", (long long)lo, (long long)hi); meant(VALUE_TYPE_STRING, V_LENGTH(lo, hi), &s, big, tn); }
    else { if (!n) return; sprintf(big, "1-%u", n); s.func = count_validator; sprintf(tn, "V_COUNT(%lld, %lld)", (long long)lo, (long long)hi); meant(VALUE_TYPE_ARRAY_INT, V_COUNT(lo, hi), &s, big, tn); }
}
/* counts at and around powers of two, far beyond what the model enumerates element by element: acceptance and the count only */
static void hugecount(uint64_t idx, const void *arg)
{
    (void)arg; static const int64_t P[] = {256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}; int64_t n = P[idx % 10] + (int64_t)(idx / 10 % 3) - 1, lo = P[idx / 30 % 10], hi = P[idx / 300 % 10]; if (lo > hi) return; if (idx / 3000 % 2) lo = 0; if (idx / 6000) hi = 1;
    if (lo > hi) return; char w[32]; sprintf(w, "1-%lld", (long long)n); argus_option_t t[] = {opt(VALUE_TYPE_ARRAY_INT), o_help(), o_end()}; validator_entry_t *vs[] = {V_COUNT(lo, hi), NULL}; t[0].validators = vs; t[0].handler = array_int_handler; dcase_t c = {.tmpl = t, .argc = 2}; c.argv[0] = "-v"; c.argv[1] = w;
    drun_t r; char tn[60]; sprintf(tn, "count %lld..%lld", (long long)lo, (long long)hi); d_note_case(&c, tn); d_begin(&r, &c); d_parse(&r); bool ok = n >= lo && n <= hi; mc_exec(1);
    if (r.exited) mc_fail("the parse exits the program");
    if (ok != (r.status == 0)) mc_fail("%lld elements, bounds %lld..%lld: status %d", (long long)n, (long long)lo, (long long)hi, r.status);
    if (ok && argus_count(&r.argus, "val") != (size_t)n) mc_fail("%zu elements stored, %lld given", argus_count(&r.argus, "val"), (long long)n);
    mc_state(mc_mix(mc_mix((uint64_t)n, (uint64_t)lo), (uint64_t)hi)); d_free(&r); d_end(&r);
}
/* several patterns at work: in one table, or one parse after the other with table and texts at the same addresses; patterns that share a long beginning */
static void patterns(uint64_t idx, const void *arg)
{
    (void)arg; static const char *SX[] = {"", "a", "b", "ab", "[ab]"}, *VX[] = {"", "a", "b", "ab", "c"}; static const unsigned N[] = {0, 1, 2, 7, 8, 14, 15, 16, 31, 32, 61, 62, 63, 64, 65, 100, 126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 4096};
    unsigned mode = (unsigned)(idx % 3); idx /= 3; unsigned pa = (unsigned)(idx % 5), pb = (unsigned)(idx / 5 % 5), va = (unsigned)(idx / 25 % 5), vb = (unsigned)(idx / 125 % 5); idx /= 625; unsigned n = N[idx % 33], lead = (unsigned)(idx / 33); static char p[2][4200], v[2][4200]; 
    unsigned P[3] = {pa, pb, pa}, V[3] = {va, vb, vb}; int runs = mode == 0 ? 1 : mode == 1 ? 2 : 3; if (lead && n < 6) return;
    NOTE("patterns of %u characters and '%s' / '%s', values '%s' / '%s', mode %u", n, SX[pa], SX[pb], VX[va], VX[vb], mode);
    for (int run = 0; run < runs; run++) {
        validator_entry_t e[2]; argus_option_t t[4]; validator_entry_t *vs[2][2]; dcase_t c = {.tmpl = t}; bool good = true; int k = mode == 0 ? 2 : 1;
        for (int q = 0; q < k; q++) { unsigned a = P[run + q], b = V[run + q]; bool m = a == b && a != 4 ? true : a == 4 && (b == 1 || b == 2); good &= m;
            char *o = p[q]; *o++ = '^'; memset(o, 'p', n); o += n; if (lead) { memcpy(p[q] + 1, "(?:)pp", 6); } sprintf(o, "%s$", SX[a]); o = v[q]; unsigned vn = lead ? n - 4 : n; memset(o, 'p', vn); strcpy(o + vn, VX[b]);
            e[q] = (validator_entry_t){.func = regex_validator, .formatter = format_regex_validator, .order = ORDER_PRE}; e[q].data.regex.pattern = p[q]; vs[q][0] = &e[q]; vs[q][1] = NULL; t[q] = q ? (argus_option_t)OPTION_STRING('w', "wal", HELP("h")) : (argus_option_t)OPTION_STRING('v', "val", HELP("h")); t[q].validators = vs[q]; c.argv[c.argc++] = q ? "-w" : "-v"; c.argv[c.argc++] = v[q]; }
        t[k] = o_end(); drun_t r; d_begin(&r, &c); d_parse(&r); if (r.exited) mc_fail("the parse exits the program"); if ((r.status == 0) != good) mc_fail("run %d: status %d, the values %s", run, r.status, good ? "match" : "do not all match"); d_free(&r); d_end(&r); mc_exec(1); mc_trans(1); mc_state(mc_mix(mc_mix(P[run] * 8 + V[run], n), mode));
    }
}
static unsigned CN;
/* counts of collections that sort or drop elements: every type, every combination of its flags, up to 24 elements of which d keys and e values are distinct */
static void flagged(uint64_t idx, const void *arg)
{
    static const argus_valtype_t TY[] = {VALUE_TYPE_ARRAY_INT, VALUE_TYPE_ARRAY_STRING, VALUE_TYPE_ARRAY_FLOAT, VALUE_TYPE_VARIADIC_INT, VALUE_TYPE_VARIADIC_STRING, VALUE_TYPE_VARIADIC_FLOAT, VALUE_TYPE_MAP_INT, VALUE_TYPE_MAP_STRING, VALUE_TYPE_MAP_FLOAT, VALUE_TYPE_MAP_BOOL};
    (void)arg; unsigned ty = (unsigned)(idx % 10); idx /= 10; unsigned fl = (unsigned)(idx % 8); idx /= 8; int n = (int)(idx % CN) + 1; idx /= CN; int d = (int[]){1, 2, 3, 8, 9, 24}[idx % 6]; idx /= 6; int e = (int[]){1, 2, 5, 24}[idx % 4]; idx /= 4; int m = (int)(idx % 26) - 1, form = (int)(idx / 26 % 3); unsigned how = (unsigned)(idx / 78); bool map = ty > 5, var = ty > 2 && ty < 6;
    if (!map && (fl > 3 || d != 24)) return; if (m < 0 || (var && how)) return;
    validator_entry_t v = {.func = count_validator, .formatter = format_count_validator, .order = ORDER_POST}; v.data.range.min = form == 2 ? 0 : m; v.data.range.max = form == 1 ? 100 : m; validator_entry_t *vs[] = {&v, NULL}; argus_option_t t[4]; dcase_t c = {.tmpl = t}; static char w[1024], el[24][24]; char *o = w, tn[60]; *o = 0;
    t[0] = opt(TY[ty]); t[0].validators = vs; t[0].flags |= map ? (fl & 1 ? FLAG_SORTED_KEY : 0u) | (fl & 2 ? FLAG_SORTED_VALUE : 0u) | (fl & 4 ? FLAG_UNIQUE_VALUE : 0u) : (fl & 1 ? FLAG_SORTED : 0u) | (fl & 2 ? FLAG_UNIQUE : 0u); t[1] = o_help(); t[2] = o_end();
    for (int i = 0; i < n; i++) { char *b = el[i]; if (map) b += sprintf(b, "k%d=", i * 5 % 24 % d); if (ty == 9) strcpy(b, i % e % 2 ? "yes" : "no"); else sprintf(b, ty == 2 || ty == 5 || ty == 8 ? "%d.5" : "%d", i * 7 % 24 % e); if (var) c.argv[c.argc++] = el[i]; else if (how == 2) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = el[i]; } else o += sprintf(o, "%s%s", i ? "," : "", el[i]); }
    if (how == 1) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = w; } else if (!var && how == 0) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = w; }
    sprintf(tn, "count %d..%d flags=%u", (int)v.data.range.min, (int)v.data.range.max, fl); m_check(&c, tn);
}
void mc_register(int thorough)
{
    d_space("macros/choices", 16 * 3 * 42 * 2, macros, (void *)0); d_space("macros/range", 8192 * 3, macros, (void *)1); d_space("macros/length", 1331, macros, (void *)2); d_space("macros/count", 1331, macros, (void *)3);
    d_space("huge counts", 3000 * 4, hugecount, NULL);
    CN = thorough ? 24 : 14; d_space("flagged counts", 10ull * 8 * CN * 6 * 4 * 26 * 9, flagged, NULL);
    mc_space("several patterns", 3ull * 625 * 33 * 2, patterns, NULL);
    d_trace_on = 1; m_regex_hook = regex_hook; m_custom_hook = custom_hook; init_lists();
    RL = thorough ? 7 : 6;
    d_space("range/int", 16ull * 16 * 16 * 3 * 4, range_int, NULL);
    d_space("range/float", 42ull * 100 * 4, range_float, NULL);
    d_space("length", 16ull * 3 * 100 * 4, length, NULL);
    d_space("count", 2ull * 2 * 3 * 8 * 2 * 36 * 7, count, NULL);
    d_space("choice/string", 40 * seq_count(6, 3) * 4, choice, (void *)0);
    d_space("choice/int", 11 * seq_count(6, 3) * 4, choice, (void *)1);
    d_space("choice/float", 13 * seq_count(6, 3) * 4, choice, (void *)2);
    d_space("regex", seq_count(3, RL) * 8 * 7, regex, NULL);
    d_space("lists", seq_count(6, 3) * seq_count(6, 3) * 16, lists, NULL);
    d_space("two", 216ull * 49 * 4, two, NULL); d_space_dressed("two", 216ull * 49 * 4, two, NULL); d_space_dressed("lists", seq_count(6, 2) * seq_count(6, 3) * 16, lists, NULL); d_space_dressed("count", 2ull * 2 * 3 * 8 * 2 * 36 * 7, count, NULL);
    d_space("many validators", 40ull * 41 * 3 * 4 * 3, many, NULL); d_space("many choices/string", 100ull * 100 * 16, bigchoice, (void *)0); d_space("many choices/int", 100ull * 100 * 16, bigchoice, (void *)1); d_space("many choices/float", 100ull * 100 * 16, bigchoice, (void *)2);
    d_space("long choices", 150ull * 18 * 3, longchoice, NULL); d_space("long texts", 12288ull * 3, longlen, NULL); d_space("long subjects", 300ull * 12 * 8 * 3, longre, NULL); d_space("long counts", 10200ull * 5, longcount, NULL);
    d_space("wide", 60ull * 3600 * 12, wide, NULL); d_space("deep", 9ull * 81 * 16 * 3, deep, NULL);
}
