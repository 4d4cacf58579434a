/* C15: a failing allocation never corrupts, crashes or passes for success. */
#include "kit.h"
const char *mc_property = "C15";
const char *mc_bounds =
    "every allocation made while parsing, counted in a fault-free run, failing once and failing from there on, for: every sequence of up to 2 (3) words out of 22-24 over five option tables that use every option type, validator, "
    "ordering flag, positional kind, nested commands, regular expressions and environment names; collections of 0..40 (130) elements of every type given in 1-3 occurrences, by range, as positionals or from the environment, with each ordering flag.  "
    "A faulted parse must equal the fault-free one (status, exit, every value through the accessors) or return an error that is also stored; the library runs under address sanitizer, with an empty allocation ledger required after failure, exit and free.";
ARGUS_OPTIONS(TR, OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler), FLAGS(FLAG_EXIT)), OPTION_STRING('r', "re", HELP("h"), VALIDATOR(V_REGEX(MAKE_REGEX("^[a-c]+$", "abc"))), FLAGS(FLAG_AUTO_ENV)), OPTION_STRING('c', "choice", HELP("h"), VALIDATOR(V_CHOICE_STR("aa", "b", "c")), DEFAULT("b")),
    OPTION_ARRAY_STRING('L', "ls", HELP("h"), VALIDATOR(V_COUNT(1, 2)), FLAGS(FLAG_AUTO_ENV)), OPTION_INT('n', "num", HELP("h"), VALIDATOR(V_RANGE(0, 9)), ENV_VAR("NUM"), REQUIRE("re")), POSITIONAL_STRING("p", HELP("h"), OPTL, VALIDATOR(V_REGEX(MAKE_REGEX("x|y", NULL)))), )
static const char *WR[] = {"-h", "-ra", "-rabc", "-rz", "--re=c", "-caa", "-cq", "-La", "-La,b", "--ls=a,b,c", "-n5", "-nx", "-n77", "x", "xz", "q", "--", "-q", "--", "-r", "--re", ""};
static char want[1 << 16], got[1 << 16]; static int want_st; static bool want_ex;
static void ledger(const char *when) { if (track_live()) mc_fail("%zu allocations (%zu bytes) remain %s", track_live(), track_live_bytes(), when); }
static void one(const dcase_t *c, const char *tn, long nth, bool sticky, bool *hit, char *buf)
{
    drun_t r; track_start(); track_pause(); d_begin(&r, c);
    d_fault_nth = nth; d_fault_sticky = sticky; d_parse(&r); d_fault_nth = -2;
    *hit = fault_hit();
    d_dump(&r, buf, 1 << 16);
    if (nth >= 0 && *hit) {
        if (r.exited && !want_ex) mc_fail("allocation %ld failing%s makes parsing end the program", nth, sticky ? " from there on" : "");
        if ((r.exited || r.status == 0) && strcmp(want, buf)) mc_fail("allocation %ld failing%s passes for success with a different result:\n  expected %s\n  got      %s", nth, sticky ? " from there on" : "", want, buf);
        if (!r.exited && r.status != 0 && r.error_code != r.status) mc_fail("allocation %ld failing: status %d but stored error %d", nth, r.status, r.error_code);
    } else if (nth < 0) { want_st = r.status; want_ex = r.exited; }
    if (r.exited) ledger("when the program ends"); else { if (r.status) ledger("after a failed parse"); access_all(&r); }
    d_free(&r); ledger("after free"); access_all(&r); d_free(&r); ledger("after a second free");
    mc_exec(1); mc_trans(1); mc_state(mc_mix(mc_mixs(mc_mix((uint64_t)nth, sticky), tn), mc_mixs(1, buf)));
    d_end(&r);
}
static void all(const dcase_t *c, const char *tn)
{
    d_note_case(c, tn);
    bool hit; one(c, tn, -1, false, &hit, want); uint64_t n = fault_count();
    for (uint64_t k = 0; k < n; k++) { one(c, tn, (long)k, false, &hit, got); one(c, tn, (long)k, true, &hit, got); }
}
static unsigned L, N;
static void words(uint64_t idx, const void *arg)
{
    int t = (int)(intptr_t)arg; const char **w = t == 4 ? WR : WS[t].w; unsigned wn = t == 4 ? 22 : WS[t].n;
    unsigned k[8], n = seq_decode(idx, wn, L, k); char tn[8]; sprintf(tn, "T%d", t);
    dcase_t c = {.tmpl = t == 4 ? TR : T[t], .argc = (int)n}; for (unsigned i = 0; i < n; i++) c.argv[i] = w[k[i]];
    all(&c, tn);
}
static void envs(uint64_t idx, const void *arg)
{
    (void)arg; static const char *EN[] = {"LS", "LI", "MS", "LF", "MI", "MF", "MB", "PFX_RE", "PFX_LS", "NUM", "PFX_XX"}; static const int ET[] = {0, 0, 0, 1, 1, 1, 1, 4, 4, 4, 4};
    static const char *V[] = {"a,b", "1,2", "3-9", "a=1", "a=1,b=2,a=3", "x", "", "abc", "7", "a,,b", "a=x,b", "1,x"};
    unsigned e1 = (unsigned)(idx % 11), e2 = (unsigned)(idx / 11 % 11), v1 = (unsigned)(idx / 121 % 12), v2 = (unsigned)(idx / 1452 % 12);
    if (ET[e1] != ET[e2] || e2 < e1) return;
    dcase_t c = {.tmpl = ET[e1] == 4 ? TR : T[ET[e1]], .env_prefix = ET[e1] == 4 ? "PFX" : NULL, .nenv = 1}; c.ename[0] = EN[e1]; c.evalue[0] = V[v1];
    if (e2 != e1) { c.nenv = 2; c.ename[1] = EN[e2]; c.evalue[1] = V[v2]; } else if (v2) return;
    if (ET[e1] == 4) { c.argc = 1; c.argv[0] = "-ra"; if (e1 == 7 || e2 == 7) c.argc = 0; }
    all(&c, "env");
}
/* growth: every element count, every collection type */
static const argus_optflags_t AF[] = {0, FLAG_SORTED, FLAG_UNIQUE, FLAG_SORTED | FLAG_UNIQUE}, MF[] = {0, FLAG_SORTED_KEY, FLAG_SORTED_VALUE, FLAG_UNIQUE_VALUE, FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE};
static char big[3][1 << 13];
static void growth(uint64_t idx, const void *arg)
{
    (void)arg; unsigned ty = (unsigned)(idx % 10); idx /= 10; unsigned fl = (unsigned)(idx % 5); idx /= 5; unsigned how = (unsigned)(idx % 4); idx /= 4; unsigned dup = (unsigned)(idx % 2), n = (unsigned)(idx / 2);
    bool map = ty >= 3 && ty < 7, pos = ty >= 7; if (!map && fl == 4) return; if (pos && how == 3) return; if (how == 3 && !n) return;
    argus_optflags_t F = map ? MF[fl] : AF[fl];
    argus_option_t t[] = {
        ty == 0 ? (argus_option_t)OPTION_ARRAY_STRING('v', "val", HELP("h"), ENV_VAR("VAL"), FLAGS(F)) : ty == 1 ? (argus_option_t)OPTION_ARRAY_INT('v', "val", HELP("h"), ENV_VAR("VAL"), FLAGS(F)) : ty == 2 ? (argus_option_t)OPTION_ARRAY_FLOAT('v', "val", HELP("h"), ENV_VAR("VAL"), FLAGS(F)) :
        ty == 3 ? (argus_option_t)OPTION_MAP_STRING('v', "val", HELP("h"), ENV_VAR("VAL"), FLAGS(F)) : ty == 4 ? (argus_option_t)OPTION_MAP_INT('v', "val", HELP("h"), ENV_VAR("VAL"), FLAGS(F)) : ty == 5 ? (argus_option_t)OPTION_MAP_FLOAT('v', "val", HELP("h"), ENV_VAR("VAL"), FLAGS(F)) :
        ty == 6 ? (argus_option_t)OPTION_MAP_BOOL('v', "val", HELP("h"), ENV_VAR("VAL"), FLAGS(F)) : ty == 7 ? (argus_option_t)POSITIONAL_MANY_STRING("val", HELP("h"), FLAGS(F | FLAG_OPTIONAL)) : ty == 8 ? (argus_option_t)POSITIONAL_MANY_INT("val", HELP("h"), FLAGS(F | FLAG_OPTIONAL)) :
        (argus_option_t)POSITIONAL_MANY_FLOAT("val", HELP("h"), FLAGS(F | FLAG_OPTIONAL)), OPTION_END()};
    dcase_t c = {.tmpl = t}; static char w[140][12]; unsigned D = dup ? n / 2 + 1 : n + 1, parts = how == 2 ? 3 : 1;
    for (unsigned p = 0; p < 3; p++) big[p][0] = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned x = (i * 37) % D; char *b = pos ? w[i] : big[how == 1 ? 0 : i * parts / n]; if (!pos && *b) strcat(b, ","); if (pos) *b = 0;
        if (map) sprintf(b + strlen(b), ty == 3 ? "k%u=v%u" : ty == 4 ? "k%u=%u" : ty == 5 ? "k%u=%u.5" : "k%u=1", dup ? x : i, x); else sprintf(b + strlen(b), ty == 0 || ty == 7 ? "v%u" : ty == 2 || ty == 9 ? "%u.5" : "%u", x);
        if (pos) c.argv[c.argc++] = b;
    }
    char rg[40]; if (ty == 1 && how == 1) { sprintf(rg, "7,0-%u", n); c.argv[0] = "-v"; c.argv[1] = rg; c.argc = 2; }
    else if (how == 3) { c.nenv = 1; c.ename[0] = "VAL"; c.evalue[0] = big[0]; }
    else if (!pos) for (unsigned p = 0; p < parts; p++) if (*big[p]) { c.argv[c.argc++] = "-v"; c.argv[c.argc++] = big[p]; }
    char tn[60]; sprintf(tn, "growth type=%u flags=%u", ty, fl); all(&c, tn);
}
void mc_register(int thorough)
{
    d_fixed = false; L = thorough ? 3 : 2; N = thorough ? 130 : 40;
    static const char *S[] = {"words/T0", "words/T1", "words/T2", "words/T3", "words/TR"};
    for (int t = 0; t < 5; t++) mc_space(S[t], seq_count(t == 4 ? 22 : WS[t].n, L), words, (void *)(intptr_t)t);
    mc_space("environment", 121 * 144, envs, NULL);
    mc_space_chunk("growth", (uint64_t)(N + 1) * 2 * 4 * 5 * 10, 200, growth, NULL);
}
