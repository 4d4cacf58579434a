/* C14: no input can corrupt memory, hang or leak. */
#include "model.h"
const char *mc_property = "C14";
const char *mc_bounds =
    "every sequence of up to 3 (4) words out of 22-24 over four option tables that use every option type, ordering flag, positional kind and nested commands; every single word of up to 5 (7) characters over "
    "{- a s = , 1 :} and pairs of texts of up to 3 and 2 (3); every history of up to 4 (6) API calls out of {parse, help, usage, version, every accessor and iterator, exec, free} with at most one parse, for 14 inputs (successful, "
    "failing at each stage, ending by help) and before/after use; words, values, names and paths of lengths 0..300 and powers of two up to 64 KiB in every error and help path; every environment text of up to 4 characters for each collection type; argument vectors of 0..1 entries; chains of up to 8 commands any set of whose levels stores a collection of any type, ending well or in four other ways; collections of every type with 1..65 elements of which any one is repeated, in one word, word by word, from the environment or from both, ending well or badly.  "
    "The library runs under address and undefined-behaviour sanitizers with poisoned fresh memory, a per-case watchdog, and an allocation ledger that must be empty after free; outcome and values are also compared with the model.";
#include "kit.h"
static mres_t M;
static void b_help(void *p) { argus_print_help(p); }
static void b_usage(void *p) { argus_print_usage(p); }
static void b_version(void *p) { argus_print_version(p); }
static void b_exec(void *p) { argus_exec(p, NULL); }
static void shown(drun_t *r, guard_fn f, const char *what)
{
    int code; cap_reset(); track_resume(); bool ex = guarded(f, &r->argus, &code); track_pause();
    if (ex) mc_fail("%s ended the program", what);
}
static void ledger(const char *when) { if (track_live()) mc_fail("%zu allocations (%zu bytes) remain %s", track_live(), track_live_bytes(), when); }
/* full life of a context around one parse */
static void life(const dcase_t *c, const char *tn, bool model)
{
    d_note_case(c, tn);
    if (model) m_parse(c, &M);
    drun_t r; track_start(); track_pause(); d_begin(&r, c); d_parse(&r);
    uint64_t h = model ? m_compare(&r, &M) : mc_mix(1, (uint64_t)r.status);
    if (!r.exited) { if (r.status == 0) access_all(&r); shown(&r, b_help, "help"); shown(&r, b_usage, "usage"); shown(&r, b_version, "version"); shown(&r, b_exec, "exec"); }
    if (r.status != 0) ledger(r.exited ? "when the program ends" : "after a failed parse");
    d_free(&r); ledger("after free");
    access_all(&r); if (!r.exited) shown(&r, b_help, "help");
    d_free(&r); ledger("after a second free");
    mc_state(mc_mixs(h, tn)); mc_exec(1); mc_trans((uint64_t)c->argc + 8);
    d_end(&r);
}
static unsigned L, CL, HL, TL;
static void words(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; unsigned k[8], n = seq_decode(idx, WS[t].n, L, k); char tn[8]; sprintf(tn, "T%d", t);
    dcase_t c = {.tmpl = T[t], .argc = (int)n}; for (unsigned i = 0; i < n; i++) c.argv[i] = WS[t].w[k[i]];
    life(&c, tn, true);
}
static const char CH[] = "-as=,1:";
static void chars(uint64_t idx, const void *arg)
{
    (void)arg; int t = (int)(idx % 4); idx /= 4; char w[16]; unsigned k[16], n = seq_decode(idx, 7, CL, k);
    for (unsigned i = 0; i < n; i++) w[i] = CH[k[i]];
    w[n] = 0;
    char tn[8]; sprintf(tn, "T%d", t); dcase_t c = {.tmpl = T[t], .argc = 1}; c.argv[0] = w; life(&c, tn, true);
}
static const char *OPTS[] = {"-L", "-i", "-m", "-f", "-b"};
static void texts(uint64_t idx, const void *arg)
{
    (void)arg; static const char *EN[] = {"LS", "LI", "MS", "LF", "MI", "MF", "MB"}; static const int ET[] = {0, 0, 0, 1, 1, 1, 1}; static const char C2[] = "a=,1-:";
    unsigned e = (unsigned)(idx % 7); idx /= 7; unsigned two = (unsigned)(idx % 2); idx /= 2; char a[8], b[8]; uint64_t c3 = seq_count(6, 3); unsigned k[8], n;
    n = seq_decode(idx % c3, 6, 3, k); for (unsigned i = 0; i < n; i++) a[i] = C2[k[i]]; a[n] = 0; if (!n) return;
    n = seq_decode(idx / c3, 6, TL, k); for (unsigned i = 0; i < n; i++) b[i] = C2[k[i]]; b[n] = 0; if (!n) return;
    (void)OPTS; char w[16], w2[16]; dcase_t c = {.tmpl = T[ET[e]]}; static const char *LN[] = {"ls", "li", "ms", "lf", "mi", "mf", "mb"};
    sprintf(w, "--%s=%s", LN[e], a); c.argv[c.argc++] = w;
    if (two) { sprintf(w2, "--%s=%s", LN[e], b); c.argv[c.argc++] = w2; } else { c.argc = 0; sprintf(w2, "%s%s", a, b); c.nenv = 1; c.ename[0] = EN[e]; c.evalue[0] = w2; }
    life(&c, ET[e] ? "T1" : "T0", true);
}
/* ---- histories */
static const struct { int t; const char *w[5]; const char *en, *ev; } IN[] = {
    {0, {"-Lx,y", "-i5-1", "-mk=v", "p", "q"}, NULL, NULL}, {0, {"-Lx", "-i1,x"}, NULL, NULL}, {0, {"-Lx,y", "-h", "-q"}, NULL, NULL}, {0, {NULL}, "LI", "4,4,x"}, {0, {"-q"}, "LS", "a,b"},
    {1, {"-f1,2", "-ia=1", "-ma=1,b=2", "-ba=1", "5"}, NULL, NULL}, {1, {"-ia=1,b=2", "-ba=1,b=x"}, NULL, NULL}, {1, {"5", "6", "x"}, "MB", "a=1"},
    {2, {"-Lx", "sub", "-mk=v", "deep", "1.5"}, "LS", "e,f"}, {2, {"sub", "-i1-9", "-h"}, NULL, NULL}, {2, {"sub", "-mk=v", "deep", "x"}, "LS", "e"}, {2, {"-n50", "sux", "-Lq"}, NULL, NULL}, {2, {"-Lx", "su"}, NULL, NULL},
    {3, {"-i1,2,3", "-Lx", "-sxy"}, NULL, NULL}};
#define NIN (sizeof IN / sizeof *IN)
static void histories(uint64_t idx, const void *arg)
{
    (void)arg; unsigned in = (unsigned)(idx % NIN); idx /= NIN; unsigned k[8], n = seq_decode(idx, 7, HL, k), parses = 0;
    for (unsigned i = 0; i < n; i++) parses += k[i] == 0;
    if (parses > 1) return;
    dcase_t c = {.tmpl = T[IN[in].t]}; for (int i = 0; i < 5 && IN[in].w[i]; i++) c.argv[c.argc++] = IN[in].w[i];
    if (IN[in].en) { c.nenv = 1; c.ename[0] = IN[in].en; c.evalue[0] = IN[in].ev; }
    char tn[40]; sprintf(tn, "T%d history=", IN[in].t); for (unsigned i = 0; i < n; i++) sprintf(tn + strlen(tn), "%c", "PHUVAEF"[k[i]]);
    d_note_case(&c, tn);
    drun_t r; track_start(); track_pause(); d_begin(&r, &c);
    for (unsigned i = 0; i < n; i++) switch (k[i]) {
        case 0: d_parse(&r); if (r.exited) { ledger("when the program ends"); i = n; } break;
        case 1: shown(&r, b_help, "help"); break;
        case 2: shown(&r, b_usage, "usage"); break;
        case 3: shown(&r, b_version, "version"); break;
        case 4: { bool ex = r.exited; int st = r.status; r.exited = false; r.status = 0; access_all(&r); r.exited = ex; r.status = st; break; }
        case 5: shown(&r, b_exec, "exec"); break;
        default: d_free(&r); ledger("after free"); break;
    }
    d_free(&r); ledger("after free");
    mc_exec(1); mc_trans(n); mc_state(mc_mixs(5, tn));
    d_end(&r);
}
/* ---- lengths */
static void lengths(uint64_t idx, const void *arg)
{
    (void)arg; unsigned kind = (unsigned)(idx % 16); idx /= 16; size_t n = idx <= 300 ? idx : (size_t)1 << (idx - 292); if (n > 65536) return;
    char *s = malloc(n + 1), *w = malloc(3 * n + 64); for (size_t i = 0; i < n; i++) s[i] = (char)(i % 60 == 59 ? ' ' : 'a' + i % 26); s[n] = 0;
    dcase_t c = {.tmpl = T[0]}; int d = mc_describe; char tn[60]; sprintf(tn, "lengths kind=%u n=%zu", kind, n);
    switch (kind) {
        case 0: sprintf(w, "--%s", s); c.argv[c.argc++] = w; break;
        case 1: sprintf(w, "-%s", s); c.argv[c.argc++] = w; break;
        case 2: c.argv[c.argc++] = "-L"; c.argv[c.argc++] = s; break;
        case 3: c.argv[c.argc++] = "-i"; c.argv[c.argc++] = s; break;
        case 4: c.argv[c.argc++] = "-m"; c.argv[c.argc++] = s; break;
        case 5: sprintf(w, "k=1,%.*s=%s", (int)(n / 2), s, s); c.argv[c.argc++] = "-m"; c.argv[c.argc++] = w; break;
        case 6: c.argv[c.argc++] = s; c.argv[c.argc++] = s; break;
        case 7: c.tmpl = T[1]; c.argv[c.argc++] = "-f"; c.argv[c.argc++] = s; break;
        case 8: c.tmpl = T[1]; c.argv[c.argc++] = s; break;
        case 9: c.tmpl = T[2]; c.argv[c.argc++] = "sub"; c.argv[c.argc++] = s; break;
        case 10: c.tmpl = T[2]; c.argv[c.argc++] = "-n"; c.argv[c.argc++] = s; break;
        case 11: c.nenv = 1; c.ename[0] = "LI"; c.evalue[0] = s; break;
        case 12: sprintf(w, "--alpha%s", s); c.argv[c.argc++] = w; break;
        case 13: sprintf(w, "--alpha=%s", s); c.argv[c.argc++] = w; break;
        default: { /* long names in the definition: help, usage, errors, paths, environment */
            if (!n) goto out;
            for (size_t i = 0; i < n; i++) if (s[i] == ' ') s[i] = '-';
            static argus_option_t in[4]; int q = 0;
            in[q++] = (argus_option_t)OPTION_STRING('x', s, HELP(s), FLAGS(FLAG_AUTO_ENV), HINT(s)); in[q++] = (argus_option_t)POSITIONAL_STRING(s, HELP(s)); in[1].name = "pos"; in[q++] = (argus_option_t)OPTION_END();
            argus_option_t o14[] = {OPTION_ARRAY_STRING('x', s, HELP(s), ENV_VAR(s), HINT(s), VALIDATOR(V_COUNT(0, 3))), OPTION_STRING('y', "yy", HELP(s), DEFAULT(s), CONFLICT(s)), OPTION_END()};
            argus_option_t o15[] = {SUBCOMMAND(s, in, HELP(s)), OPTION_END()};
            if (kind == 14) { c.argv[c.argc++] = "-xa"; c.argv[c.argc++] = "-yb"; } else c.argv[c.argc++] = s;
            c.tmpl = kind == 14 ? o14 : o15; c.env_prefix = s; mc_note("%s", tn); mc_describe = 0; life(&c, tn, false); mc_describe = d; goto out; }
    }
    mc_note("%s", tn); mc_describe = 0; life(&c, tn, false); mc_describe = d;
out: free(s); free(w);
}
/* collections of n elements, then element i once more (with another value), then possibly a refused element */
static void element(char *o, unsigned e, unsigned x, unsigned j)
{
    switch (e) {
        case 0: case 7: sprintf(o, "e%u", x); break;                   /* lists of texts */
        case 1: case 3: sprintf(o, "%u", x); break;                    /* lists of numbers */
        case 2: sprintf(o, "k%u=v%u", x, j); break;
        case 6: sprintf(o, "k%u=%s", x, j % 2 ? "yes" : "no"); break;
        default: sprintf(o, "k%u=%u", x, j);
    }
}
static void collections(uint64_t idx, const void *arg)
{
    (void)arg; static const unsigned NS[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 64, 65}; static const char *LN[] = {"ls", "li", "ms", "lf", "mi", "mf", "mb", ""}, *EN[] = {"LS", "LI", "MS", "LF", "MI", "MF", "MB", ""}; static const int ET[] = {0, 0, 0, 1, 1, 1, 1, 0};
    unsigned e = (unsigned)(idx % 8); idx /= 8; unsigned how = (unsigned)(idx % 4); idx /= 4; unsigned end = (unsigned)(idx % 3); idx /= 3; unsigned n = NS[idx % 21], i = (unsigned)(idx / 21); if (i >= n) return;
    static char w[140][24], all[140 * 24]; char tn[80]; unsigned k = 0; dcase_t c = {.tmpl = T[ET[e]]}; *all = 0;
    for (unsigned j = 0; j <= n; j++) element(w[k++], e, j == n ? i : j, j);
    if (end == 1) strcpy(w[k++], "x=x"); if (end == 2) element(w[k++], e, i, n + 1);
    if (e == 7) { if (how) return; c.argv[c.argc++] = "p"; for (unsigned j = 0; j < k; j++) c.argv[c.argc++] = w[j]; }
    else if (how == 1) { static char v[140][40]; for (unsigned j = 0; j < k; j++) { snprintf(v[j], sizeof v[j], "--%s=%s", LN[e], w[j]); c.argv[c.argc++] = v[j]; } }
    else {
        char *o = all + sprintf(all, "%s%s", how == 0 ? "--" : "", how == 0 ? LN[e] : ""); if (how == 0) *o++ = '=';
        for (unsigned j = 0; j < k; j++) o += sprintf(o, "%s%s", j ? "," : "", w[j]);
        if (how == 0) c.argv[c.argc++] = all; else { c.nenv = 1; c.ename[0] = EN[e]; c.evalue[0] = all; if (how == 3) { static char v[40]; snprintf(v, sizeof v, "--%s=%s", LN[e], w[0]); c.argv[c.argc++] = v; } }
    }
    sprintf(tn, "T%d %s %u elements, number %u again", ET[e], LN[e], n, i); life(&c, tn, true);
}
/* chains of up to 8 commands, any set of whose levels stores a collection, ending well or badly at any point */
static void chains(uint64_t idx, const void *arg)
{
    (void)arg; static argus_option_t t[9][4]; static char cn[9][8]; static const char *LV[] = {"-va,b", "-v1-3", "-vk=v,j=w", "-v1.5,2", "-vk=1", "-vk=1.5", "-vk=yes"}; unsigned depth = (unsigned)(idx % 9); idx /= 9; unsigned mask = (unsigned)(idx % 512); idx /= 512; unsigned kind = (unsigned)(idx % 8), end = (unsigned)(idx / 8); if (mask >> (depth + 1)) return;
    for (int i = 8; i >= 0; i--) { unsigned k = kind == 7 ? (unsigned)i % 7 : kind; int n = 0;
        argus_option_t o[] = {OPTION_ARRAY_STRING('v', "val", HELP("h"), ENV_VAR("V")), OPTION_ARRAY_INT('v', "val", HELP("h"), ENV_VAR("V")), OPTION_MAP_STRING('v', "val", HELP("h"), ENV_VAR("V")), OPTION_ARRAY_FLOAT('v', "val", HELP("h"), ENV_VAR("V")), OPTION_MAP_INT('v', "val", HELP("h"), ENV_VAR("V")), OPTION_MAP_FLOAT('v', "val", HELP("h"), ENV_VAR("V")), OPTION_MAP_BOOL('v', "val", HELP("h"), ENV_VAR("V"))};
        t[i][n++] = o[k]; if (i < 8) { sprintf(cn[i], "cmd%d", i); t[i][n++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h")); } else t[i][n++] = (argus_option_t)POSITIONAL_MANY_STRING("p", HELP("h"), OPTL); t[i][n++] = (argus_option_t)OPTION_END(); }
    dcase_t c = {.tmpl = t[0]}; for (unsigned i = 0; i <= depth; i++) { if (i) c.argv[c.argc++] = cn[i - 1]; if (mask >> i & 1) c.argv[c.argc++] = LV[kind == 7 ? i % 7 : kind]; }
    if (end == 1) c.argv[c.argc++] = "--nope"; if (end == 2) c.argv[c.argc++] = "-v,=,x=x="; if (end == 3) { c.nenv = 1; c.ename[0] = "V"; c.evalue[0] = LV[kind % 7] + 2; } if (end == 4) c.argv[c.argc++] = "w";
    life(&c, "chain", true);
}
/* argument vectors without words; argc 0 */
static void vectors(uint64_t idx, const void *arg)
{
    (void)arg; int t = (int)(idx % 4), argc = (int)(idx / 4); dcase_t c = {.tmpl = T[t]}; char tn[20]; sprintf(tn, "T%d argc=%d", t, argc); d_note_case(&c, tn);
    drun_t r; track_start(); track_pause(); d_begin(&r, &c); r.argc = argc; if (!argc) { free(r.argv[0]); r.argv[0] = NULL; } d_parse(&r); if (r.exited) mc_fail("parsing ended the program"); d_free(&r); ledger("after free"); mc_exec(1); d_end(&r);
}
void mc_register(int thorough)
{
    d_fixed = false; TL = thorough ? 3 : 2; L = thorough ? 4 : 3; CL = thorough ? 7 : 5; HL = thorough ? 6 : 4;
    static const char *N[] = {"words/T0", "words/T1", "words/T2", "words/T3"};
    for (int t = 0; t < 4; t++) mc_space(N[t], seq_count(WS[t].n, L), words, (void *)(intptr_t)t);
    for (int t = 0; t < 4; t++) d_space_dressed(N[t], seq_count(WS[t].n, L - 1), words, (void *)(intptr_t)t);
    mc_space("chars", seq_count(7, CL) * 4, chars, NULL);
    mc_space("texts", seq_count(6, 3) * seq_count(6, TL) * 14, texts, NULL);
    mc_space("histories", seq_count(7, HL) * NIN, histories, NULL);
    mc_space("lengths", 309 * 16, lengths, NULL);
    d_space("chains", 9ull * 512 * 8 * 5, chains, NULL);
    mc_space("vectors", 8, vectors, NULL);
    mc_space("collections", 8ull * 4 * 3 * 21 * 65, collections, NULL);
}
