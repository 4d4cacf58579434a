/* C22: parsing is a function of its inputs: no interference between contexts. */
#define _GNU_SOURCE
#include <sys/mman.h>
#include "kit.h"
const char *mc_property = "C22";
const char *mc_bounds =
    "30 context scripts (4 tables with nested commands, every option type, defaults, constraints; successful, failing and exiting argument vectors; each: init, parse, read, help, exec, free) with two environments; every interleaving of the operations of every ordered pair of scripts (5 operations each; thorough 7), "
    "every triple of scripts over every merge of 3 operations each (thorough), every history of up to 2 (3) completed scripts before a probe, also with table and arguments at the same addresses each time, every script run completely inside each callback of every parse of up to 3 words; 24 tables that differ in one respect each (a name, a pattern, a bound, a choice, a flag, a default, a text ...) with 25 argument vectors and 2 environments, every ordered pair one after the other in the same memory; 41 texts for each of 20 kinds of option from the command line or the environment, every ordered pair one after the other; every script 300 (6000) times before itself and three others; every operation compared with the same script run alone in a fresh process.  "
    "For every argument vector of up to 2 (3) words over four tables with 22-24 words each: argument vector, environment and definitions unchanged after parse and after free, every ordered pair of read-only operations leaves all later observations unchanged, and the outcome is the same for every content of fresh heap and stack memory (4 fills).";
extern char **environ;
/* ---- scripts */
static const struct { unsigned t; const char *w[6]; } SC[] = {
    {0, {0}}, {0, {"-a", "--str=x", "a", "b"}}, {0, {"--nope"}}, {0, {"-h"}}, {0, {"-Lx,y", "-i3,1", "-mk=v,j=w"}}, {0, {"-i1,x"}}, {1, {"-a", "-f1,2,1", "5", "-7"}}, {1, {"-ba=yes,b=no", "-ia=1", "-ma=0.5"}}, {1, {"-q"}}, {1, {"-ia=x"}},
    {2, {"sub", "-mk=v", "deep", "-Lx", "1.5"}}, {2, {"sub", "-i1-4"}}, {2, {"sux", "-sx"}}, {2, {"-V"}}, {2, {"-n50"}}, {2, {0}}, {2, {"sub", "--help"}}, {3, {"-Lx"}}, {3, {"-Lx", "-i1", "-sx"}}, {3, {0}}, {3, {"-Lx", "-i1", "-mk=v"}}, {2, {"su"}}, {2, {"sub", "d", "x"}}, {2, {"sux", "-sy"}}, {2, {"zz"}}, {0, {"--al"}}, {1, {"-ba=no", "-syes"}}, {0, {"-i3,1"}}, {1, {"-f2,1"}}, {0, {"-Lb,a"}}};
#define NS (sizeof SC / sizeof *SC)
#define NOPS 7
static const char *PAT[] = {"IPDHF", "IUPDXHF", "IPF"};
static void sc_case(dcase_t *c, unsigned s) { memset(c, 0, sizeof *c); c->tmpl = T[SC[s].t]; c->debug_validate = SC[s].t == 0 || SC[s].t == 3; for (int i = 0; i < 6 && SC[s].w[i]; i++) c->argv[c->argc++] = SC[s].w[i]; }
static void env_set(unsigned e) { unsetenv("LS"); unsetenv("MS"); unsetenv("LI"); if (e) { setenv("LS", "e,f", 1); setenv("MS", "k=env", 1); } }
typedef struct { drun_t r; dcase_t c; bool up; } ctx_t;
static void do_help(void *p) { argus_print_help(p); }
static void do_usage(void *p) { argus_print_usage(p); }
static void do_version(void *p) { argus_print_version(p); }
static int xr; static void do_exec(void *p) { xr = argus_exec(p, NULL); }
static void do_init(void *p) { ctx_t *x = p; d_begin(&x->r, &x->c); x->r.argus.description = "a description"; }
static bool nested; static uint64_t texts_hash(uint64_t h) { size_t n; h = mc_mixs(h, cap_out(&n)); return mc_mixs(h, cap_err(&n)); }
/* one operation; everything observable about it, hashed */
static uint64_t op(ctx_t *x, char o)
{
    uint64_t h = mc_mix(7, (uint64_t)o); int code = -1; bool ex = false; cap_reset(); drun_t *r = &x->r;
    bool alive = x->up && !r->exited && r->status == 0;
    switch (o) {
        case 'I': do_init(x); x->up = true; break;
        case 'P': if (nested) { r->status = argus_parse(&r->argus, r->argc, r->argv); r->error_code = r->argus.error_code; } else d_parse(r); h = mc_mix(h, (uint64_t)r->status + 3 * (uint64_t)r->exited + 1000 * (uint64_t)r->error_code + 77 * (uint64_t)(r->exited ? r->exit_code : 0)); break;
        case 'D': if (alive) { d_dump(r, dump, sizeof dump); h = mc_mixs(h, dump); } break;
        case 'A': if (alive) { access_all(r); h = mc_mixs(h, dump); } break;
        case 'H': case 'U': case 'V': if (x->up && !r->exited && (alive || !r->status)) ex = nested ? ((o == 'H' ? do_help : o == 'U' ? do_usage : do_version)(&r->argus), false) : guarded(o == 'H' ? do_help : o == 'U' ? do_usage : do_version, &r->argus, &code); break;
        case 'X': if (alive) { ex = nested ? (do_exec(&r->argus), false) : guarded(do_exec, &r->argus, &code); h = mc_mix(h, (uint64_t)xr); } break;
        default: argus_free(&r->argus); h = texts_hash(h); if (!d_argv_intact(r)) mc_fail("the argument vector was changed"); d_end(r); env_set(0); return h;
    }
    return mc_mix(texts_hash(h), (uint64_t)ex * 100 + (uint64_t)code);
}
static struct { bool ok; uint64_t h[3][NOPS]; } (*BASE)[NS]; /* [env][script] */
typedef struct { unsigned e, s, p; } solo_t;
static void solo(void *a)
{
    solo_t *q = a; ctx_t x = {0}; sc_case(&x.c, q->s); for (int k = 0; PAT[q->p][k]; k++) { env_set(q->e); BASE[q->e][q->s].h[q->p][k] = op(&x, PAT[q->p][k]); }
}
static void baselines(void)
{
    BASE = mmap(NULL, 2 * sizeof *BASE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (unsigned e = 0; e < 2; e++) for (unsigned s = 0; s < NS; s++) { BASE[e][s].ok = true; for (unsigned p = 0; p < 3; p++) { solo_t q = {e, s, p}; if (!mc_isolated(solo, &q)) BASE[e][s].ok = false; } }
}
static void step(ctx_t *x, unsigned e, unsigned s, unsigned p, int k, const char *who)
{
    if (!BASE[e][s].ok) mc_fail("script %u alone does not complete", s);
    env_set(e); uint64_t h = op(x, PAT[p][k]); mc_trans(1);
    if (h != BASE[e][s].h[p][k]) { size_t n; mc_fail("operation %d (%c) of the %s context differs from the same script run alone; now prints '%.200s' '%.200s' status %d", k, PAT[p][k], who, PAT[p][k] == 'F' ? "" : cap_out(&n), PAT[p][k] == 'F' ? "" : cap_err(&n), x->r.status); }
}
static uint64_t binom(unsigned n, unsigned k) { uint64_t b = 1; for (unsigned i = 1; i <= k; i++) b = b * (n - k + i) / i; return b; }
static void pairs(uint64_t idx, const void *arg)
{
    unsigned p = (unsigned)(uintptr_t)arg, L = (unsigned)strlen(PAT[p]); uint64_t nI = binom(2 * L, L), il = idx % nI; idx /= nI; unsigned e = (unsigned)(idx % 2); idx /= 2; unsigned s[2] = {(unsigned)(idx % NS), (unsigned)(idx / NS)};
    NOTE("env %u scripts %u and %u, %s each, order ", e, s[0], s[1], PAT[p]); static ctx_t x[2]; for (int i = 0; i < 2; i++) { x[i].up = false; sc_case(&x[i].c, s[i]); memset(&x[i].r, 0, sizeof x[i].r); }
    unsigned ra = L, rb = L, k[2] = {0, 0};
    char sched[2 * NOPS + 1]; unsigned n = 0; while (ra || rb) { uint64_t c = ra ? binom(ra - 1 + rb, rb) : 0; if (ra && il < c) { sched[n++] = 'A'; ra--; } else { il -= c; sched[n++] = 'B'; rb--; } } sched[n] = 0; NOTE("%s", sched);
    for (unsigned i = 0; i < n; i++) { int w = sched[i] - 'A'; step(&x[w], e, s[w], p, (int)k[w]++, w ? "second" : "first"); }
    mc_exec(2); mc_state(mc_mix(mc_mix(s[0], s[1]), mc_mixs(e, sched)));
}
static void triples(uint64_t idx, const void *arg)
{
    (void)arg; unsigned p = 2; uint64_t il = idx % 1680; idx /= 1680; unsigned s[3] = {(unsigned)(idx % NS), (unsigned)(idx / NS % NS), (unsigned)(idx / NS / NS)}; static ctx_t x[3]; for (int i = 0; i < 3; i++) { x[i].up = false; memset(&x[i].r, 0, sizeof x[i].r); sc_case(&x[i].c, s[i]); }
    unsigned rem[3] = {3, 3, 3}, k[3] = {0}, left = 9; NOTE("scripts %u, %u and %u, %s each, order ", s[0], s[1], s[2], PAT[p]); char sched[10]; unsigned n = 0;
    while (left) for (int w = 0; w < 3; w++) { if (!rem[w]) continue; rem[w]--; uint64_t c = binom(left - 1, rem[0]) * binom(left - 1 - rem[0], rem[1]); if (il < c) { sched[n++] = (char)('A' + w); left--; break; } il -= c; rem[w]++; }
    sched[n] = 0; NOTE("%s", sched); for (unsigned i = 0; i < n; i++) { int w = sched[i] - 'A'; step(&x[w], 0, s[w], p, (int)k[w]++, "merged"); } mc_exec(3); mc_state(mc_mix(mc_mix(s[0] * 64 + s[1], s[2]), mc_mixs(9, sched)));
}
static unsigned HL;
static void unfix(void) { d_fixed = false; }
static void history(uint64_t idx, const void *arg)
{
    d_fixed = arg; unsigned probe = (unsigned)(idx % NS); idx /= NS; unsigned e = (unsigned)(idx % 2); idx /= 2; unsigned k[8], n = seq_decode(idx, NS * 2, HL, k); NOTE("history (script, env):"); static ctx_t x;
    for (unsigned i = 0; i <= n; i++) { unsigned s = i < n ? k[i] % NS : probe, en = i < n ? k[i] / NS : e; NOTE(" %u,%u", s, en); x.up = false; memset(&x.r, 0, sizeof x.r); sc_case(&x.c, s); for (int j = 0; PAT[1][j]; j++) step(&x, en, s, 1, j, i < n ? "earlier" : "probed"); mc_exec(1); mc_state(mc_mix(mc_mix(idx, probe), i)); }
    d_fixed = false;
}
/* ---- one script again and again, then another */
static unsigned RUNS;
static void again(uint64_t idx, const void *arg)
{
    (void)arg; unsigned s = (unsigned)(idx % NS), e = (unsigned)(idx / NS % 2), probe = (s + (unsigned)(idx / NS / 2) * 7) % NS; NOTE("script %u parsed %u times, then %u, environment %u", s, RUNS, probe, e); static ctx_t x;
    for (unsigned i = 0; i < RUNS; i++) { x.up = false; memset(&x.r, 0, sizeof x.r); sc_case(&x.c, s); env_set(e); op(&x, 'I'); op(&x, 'P'); if (x.up) op(&x, 'F'); mc_exec(1); mc_trans(3); }
    x.up = false; memset(&x.r, 0, sizeof x.r); sc_case(&x.c, probe); for (int j = 0; PAT[1][j]; j++) step(&x, e, probe, 1, j, "probed"); mc_state(mc_mix(5, idx));
}
/* ---- a whole script inside a callback of another parse */
static int fire_at, fired; static unsigned fire_script; 
static void hook(void)
{
    if (fired++ != fire_at) return;
    size_t n; static char so[1 << 16], se[1 << 16]; snprintf(so, sizeof so, "%s", cap_out(&n)); snprintf(se, sizeof se, "%s", cap_err(&n)); 
    static ctx_t x; x.up = false; memset(&x.r, 0, sizeof x.r); sc_case(&x.c, fire_script); nested = true; for (int j = 0; PAT[1][j]; j++) step(&x, 0, fire_script, 1, j, "inner"); nested = false;
    cap_reset(); fputs(so, stdout); fputs(se, stderr);
}
static int h_flag(argus_t *a, argus_option_t *o, char *v) { hook(); return flag_handler(a, o, v); }
static int h_int(argus_t *a, argus_option_t *o, char *v) { int s = array_int_handler(a, o, v); hook(); return s; }
static int h_map(argus_t *a, argus_option_t *o, char *v) { hook(); int s = map_string_handler(a, o, v); hook(); return s; }
static int h_many(argus_t *a, argus_option_t *o, char *v) { hook(); return variadic_string_handler(a, o, v); }
static int v_hook(argus_t *a, void *o, validator_data_t d) { (void)a; (void)o; (void)d; hook(); return 0; }
static int a_hook(argus_t *a, void *d) { (void)a; (void)d; hook(); return 5; }
static validator_entry_t VPRE = {.func = v_hook, .order = ORDER_PRE}, VPOST = {.func = v_hook, .order = ORDER_POST}; static validator_entry_t *VL[] = {&VPRE, &VPOST, NULL};
ARGUS_OPTIONS(NTS, OPTION_STRING('s', "str", HELP("h")), OPTION_MAP_STRING('m', "ms", HELP("h"), HANDLER(h_map)), POSITIONAL_MANY_STRING("rest", HELP("h"), OPTL, HANDLER(h_many)), )
ARGUS_OPTIONS(NT, OPTION_FLAG('a', "alpha", HELP("h"), HANDLER(h_flag)), OPTION_STRING('s', "str", HELP("h"), DEFAULT("dd")), OPTION_ARRAY_INT('i', "li", HELP("h"), HANDLER(h_int)), OPTION_MAP_STRING('m', "ms", HELP("h"), HANDLER(h_map)), SUBCOMMAND("sub", NTS, HELP("h"), ACTION(a_hook)), )
static const char *NW[] = {"-a", "-sx", "-i2,1", "-mk=v", "sub", "w", "-q"};
static unsigned NL;
static void outer(dcase_t *c, int at, unsigned s, char *out, size_t sz)
{
    fire_at = at; fire_script = s; fired = 0; static ctx_t x; memset(&x, 0, sizeof x); x.c = *c; x.up = true; d_begin(&x.r, &x.c);
    size_t n, k; cap_reset(); d_parse(&x.r); k = d_dump(&x.r, out, sz); k += (size_t)snprintf(out + k, sz - k, "|%d|%s|%s", x.r.error_code, cap_out(&n), cap_err(&n)); if (!x.r.exited && !x.r.status) { cap_reset(); do_exec(&x.r.argus); k += (size_t)snprintf(out + k, sz - k, "|%d|%s", xr, cap_out(&n)); } argus_free(&x.r.argus); d_end(&x.r);
}
static void inside(uint64_t idx, const void *arg)
{
    (void)arg; unsigned s = (unsigned)(idx % NS); idx /= NS; int at = (int)(idx % 7); idx /= 7; unsigned k[8], n = seq_decode(idx, 7, NL, k); if (SC[s].w[0] && (!strcmp(SC[s].w[0], "-h") || !strcmp(SC[s].w[0], "-V") || (SC[s].w[1] && !strcmp(SC[s].w[1], "--help")))) return; /* exits */
    static dcase_t c; memset(&c, 0, sizeof c); c.tmpl = NT; for (unsigned i = 0; i < n; i++) c.argv[c.argc++] = NW[k[i]]; d_note_case(&c, "NT"); NOTE(" script %u inside callback %d", s, at); 
    static char a[1 << 14], b[1 << 14]; 
    outer(&c, -1, 0, a, sizeof a); if (at >= fired) return; outer(&c, at, s, b, sizeof b); if (strcmp(a, b)) mc_fail("the outer parse gives\n %s\nwith an inner parse and\n %s\nwithout", b, a); mc_exec(2); mc_trans(n + 1); mc_state(mc_mixs(mc_mix(s, (uint64_t)at), a));
}
/* ---- purity */
static uint64_t hs(uint64_t h, const char *s) { return s ? mc_mixs(mc_mix(h, (uint64_t)(uintptr_t)s), s) : mc_mix(h, 0); }
static uint64_t defs(uint64_t h, const argus_option_t *o)
{
    for (;; o++) {
        h = mc_mix(h, o->type); h = hs(h, o->name); h = mc_mix(h, (unsigned char)o->sname); h = hs(h, o->lname); h = hs(h, o->help); h = hs(h, o->hint); h = mc_mix(h, o->value_type); h = mc_mix(h, o->default_value.as_int64); if (o->have_default && o->value_type == VALUE_TYPE_STRING) h = hs(h, o->default_value.as_string); h = mc_mix(h, o->have_default); h = hs(h, o->env_name);
        h = mc_mix(h, (uintptr_t)o->handler); h = mc_mix(h, (uintptr_t)o->free_handler); h = mc_mix(h, (uintptr_t)o->validators); for (int i = 0; o->validators && o->validators[i]; i++) { h = mc_mix(h, (uintptr_t)o->validators[i]->func); h = mc_mix(h, o->validators[i]->data.custom); h = mc_mix(h, (uint64_t)o->validators[i]->data.range.max); h = mc_mix(h, o->validators[i]->order); }
        for (int i = 0; o->conflict && o->conflict[i]; i++) h = hs(h, o->conflict[i]); h = mc_mix(h, (uintptr_t)o->conflict); for (int i = 0; o->require && o->require[i]; i++) h = hs(h, o->require[i]); h = mc_mix(h, (uintptr_t)o->require);
        h = mc_mix(h, o->flags); h = mc_mix(h, (uintptr_t)o->action); h = mc_mix(h, (uintptr_t)o->sub_options); h = mc_mix(h, (uint64_t)o->line); if (o->type == TYPE_SUBCOMMAND && o->sub_options) h = defs(h, o->sub_options);
        if (o->type == TYPE_NONE) return h;
    }
}
static uint64_t envh(void) { uint64_t h = 1; for (char **e = environ; *e; e++) h = hs(h, *e); return h; }
static unsigned PL;
static __attribute__((noinline)) void scribble(int v) { volatile char b[24576]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; __asm__ volatile("" ::: "memory"); }
static void pure(uint64_t idx, const void *arg)
{
    unsigned ti = (unsigned)(uintptr_t)arg, e = (unsigned)(idx % 2); idx /= 2; unsigned k[8], n = seq_decode(idx, WS[ti].n, PL, k); static dcase_t c; memset(&c, 0, sizeof c); c.tmpl = T[ti]; char tn[8]; sprintf(tn, "T%u", ti); for (unsigned i = 0; i < n; i++) c.argv[c.argc++] = WS[ti].w[k[i]]; d_note_case(&c, tn); NOTE(" env %u", e);
    env_set(e); static ctx_t x; memset(&x, 0, sizeof x); x.c = c; d_begin(&x.r, &x.c); drun_t *r = &x.r; uint64_t d0 = defs(1, r->opts), e0 = envh(); char *av[16]; memcpy(av, r->argv, sizeof(char *) * (size_t)(r->argc + 1));
    d_parse(r); x.up = true; if (defs(1, r->opts) != d0) mc_fail("parsing changes option definitions"); if (envh() != e0) mc_fail("parsing changes the environment"); if (memcmp(av, r->argv, sizeof(char *) * (size_t)(r->argc + 1)) || !d_argv_intact(r)) mc_fail("parsing changes the argument vector");
    static char first[1 << 16], now[1 << 16]; size_t q; char *eo = cap_out(&q); size_t m = (size_t)snprintf(first, sizeof first, "out '%s'", eo); m += (size_t)snprintf(first + m, sizeof first - m, " err '%s' code %d ", cap_err(&q), r->error_code); d_dump(r, first + m, sizeof first - m);
    if (!r->exited && !r->status) {
        /* read-only operations, every ordered pair */
        static const char RO[] = "DAHUVX"; uint64_t o0[6]; for (int i = 0; i < 6; i++) o0[i] = op(&x, RO[i]);
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { if (op(&x, RO[i]) != o0[i]) mc_fail("operation %c gives another result when repeated", RO[i]); if (op(&x, RO[j]) != o0[j]) mc_fail("operation %c gives another result after %c", RO[j], RO[i]); mc_trans(2); }
        if (defs(1, r->opts) != d0 || envh() != e0 || !d_argv_intact(r)) mc_fail("read-only operations change definitions, environment or arguments");
    }
    argus_free(&r->argus); if (defs(1, r->opts) != d0) mc_fail("freeing changes option definitions"); if (envh() != e0 || !d_argv_intact(r)) mc_fail("freeing changes the environment or arguments"); d_end(r);
    static const int FILL[] = {0, 0xff, 1, 0x41};
    for (int f = 0; f < 4; f++) {
        env_set(e); memset(&x.r, 0, sizeof x.r); mc_fill = FILL[f]; d_begin(r, &x.c); scribble(FILL[f]); d_parse(r); char *o1 = cap_out(&q); m = (size_t)snprintf(now, sizeof now, "out '%s'", o1); m += (size_t)snprintf(now + m, sizeof now - m, " err '%s' code %d ", cap_err(&q), r->error_code); d_dump(r, now + m, sizeof now - m); argus_free(&r->argus); d_end(r); mc_fill = -1;
        if (strcmp(first, now)) mc_fail("the outcome depends on the content of fresh memory (0x%02x):\n %s\nbut\n %s", (unsigned)FILL[f], first, now);
    }
    env_set(0); mc_exec(5); mc_state(mc_mixs(ti * 2 + e, first));
}
/* ---- tables that differ in one respect, run one after the other in the same memory */
#define NVAR 24
static const char *VW[][4] = {{0}, {"-sab"}, {"-sbc"}, {"--str=a"}, {"--sty=b"}, {"-ta"}, {"-n3"}, {"-n7"}, {"-n2.5"}, {"-cy"}, {"-cz"}, {"-i2,1,2"}, {"-i1-4"}, {"-lb,a,b"}, {"-mb=1,a=2"}, {"-a"}, {"-a", "-b"}, {"sub"}, {"sux"}, {"sub", "-a"}, {"sub", "-ax", "w"}, {"-h"}, {"-cy", "-k2"}, {"-k3"}, {"sub", "-h"}};
#define NVW (sizeof VW / sizeof *VW)
static struct { bool ok; uint64_t h[NOPS]; } (*VB)[NVAR][NVW];
static unsigned vdesc;
static void v_tweak(argus_t *a) { a->version = vdesc == 20 ? "9.9" : "1.0"; a->description = vdesc == 21 ? "other words" : "a description"; }
static int va_exec(argus_t *a, void *d) { (void)a; (void)d; return 21; }
static int vb_exec(argus_t *a, void *d) { (void)a; (void)d; return 22; }
static void variant(dcase_t *c, unsigned v, unsigned w)
{
    static argus_option_t t[16], s[5]; static validator_entry_t re, rg, ch, cn, ci; static validator_entry_t *vre[2] = {&re}, *vrg[2] = {&rg}, *vch[2] = {&ch}, *vcn[2] = {&cn}, *vci[2] = {&ci}; static char *C1[] = {"x", "y"}, *C2[] = {"x", "z"}; static int64_t I1[] = {1, 2}, I2[] = {1, 3}; static const char *BR[] = {"bravo", NULL}, *NU[] = {"num", NULL};
    re = (validator_entry_t){.func = regex_validator, .formatter = format_regex_validator, .order = ORDER_PRE}; re.data.regex.pattern = v == 1 ? "^[bc]+$" : "^[ab]+$"; rg = (validator_entry_t){.func = range_validator, .formatter = format_range_validator, .order = ORDER_POST}; rg.data.range.min = v == 2 ? 6 : 1; rg.data.range.max = v == 2 ? 9 : 5;
    ch = (validator_entry_t){.func = choices_string_validator, .formatter = format_choices_validator, .order = ORDER_POST}; ch.data.choices.as_strings = v == 3 ? C2 : C1; ch.data.choices.count = 2; ch.data.choices.type = VALUE_TYPE_STRING; ci = ch; ci.func = choices_int_validator; ci.data.choices.as_ints = v == 19 ? I2 : I1; ci.data.choices.type = VALUE_TYPE_INT;
    cn = (validator_entry_t){.func = count_validator, .formatter = format_count_validator, .order = ORDER_POST}; cn.data.range.min = v == 4 ? 4 : 1; cn.data.range.max = v == 4 ? 5 : 3;
    int n = 0; t[n] = (argus_option_t)OPTION_STRING('s', "str", HELP("text"), ENV_VAR("E1"), DEFAULT("dd")); t[n].validators = vre; if (v == 7) t[n].name = t[n].lname = "sty"; if (v == 8) t[n].sname = 't'; if (v == 10) t[n].env_name = "E2"; if (v == 11) t[n].value.as_string = t[n].default_value.as_string = "ee"; if (v == 17) t[n].help = "texu"; if (v == 18) t[n].hint = "HINT"; n++;
    t[n] = (argus_option_t)OPTION_INT('n', "num", HELP("h")); if (v == 14) t[n] = (argus_option_t)OPTION_FLOAT('n', "num", HELP("h")); t[n++].validators = vrg; t[n] = (argus_option_t)OPTION_STRING('c', "cho", HELP("h")); t[n++].validators = vch; t[n] = (argus_option_t)OPTION_INT('k', "cki", HELP("h")); t[n++].validators = vci; t[n] = (argus_option_t)OPTION_ARRAY_INT('i', "li", HELP("h")); if (v == 23) t[n].flags |= FLAG_UNIQUE; t[n++].validators = vcn;
    t[n] = (argus_option_t)OPTION_ARRAY_STRING('l', "ls", HELP("h"), ENV_VAR("E1")); if (v == 5) t[n].flags |= FLAG_SORTED | FLAG_UNIQUE; n++; t[n] = (argus_option_t)OPTION_MAP_INT('m', "mi", HELP("h")); if (v == 6) t[n].flags |= FLAG_SORTED_KEY; n++;
    t[n] = (argus_option_t)OPTION_FLAG('a', "alpha", HELP("h")); if (v == 12) t[n].require = NU; else if (v != 13) t[n].conflict = BR; if (v == 15) t[n].flags |= FLAG_REQUIRED; n++; t[n++] = (argus_option_t)OPTION_FLAG('b', "bravo", HELP("h")); t[n++] = (argus_option_t)OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler));
    s[0] = v == 16 ? (argus_option_t)OPTION_STRING('a', "alpha", HELP("h")) : (argus_option_t)OPTION_FLAG('a', "alpha", HELP("h")); s[1] = (argus_option_t)POSITIONAL_STRING("pos", HELP("h"), OPTL); s[2] = (argus_option_t)OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler)); s[3] = (argus_option_t)OPTION_END();
    t[n] = (argus_option_t)SUBCOMMAND(v == 9 ? "sux" : "sub", s, HELP("h"), ACTION(va_exec)); if (v == 22) t[n].action = vb_exec; n++; t[n] = (argus_option_t)OPTION_END(); memset(c, 0, sizeof *c); c->tmpl = t; vdesc = v; c->tweak = v_tweak; for (int i = 0; i < 4 && VW[w][i]; i++) c->argv[c->argc++] = VW[w][i];
}
static void v_env(unsigned e) { if (e) { setenv("E1", "ba", 1); setenv("E2", "bb", 1); } else { unsetenv("E1"); unsetenv("E2"); } }
static uint64_t v_op(ctx_t *x, unsigned e, int j) { v_env(e); uint64_t h = op(x, PAT[1][j]); v_env(0); return h; }
static void v_solo(void *a) { solo_t *q = a; ctx_t x = {0}; d_fixed = true; variant(&x.c, q->s, q->p); for (int j = 0; PAT[1][j]; j++) VB[q->e][q->s][q->p].h[j] = v_op(&x, q->e, j); }
static void tables(uint64_t idx, const void *arg)
{
    (void)arg; unsigned v[2], w[2], e = (unsigned)(idx % 2); idx /= 2; v[0] = (unsigned)(idx % NVAR); idx /= NVAR; v[1] = (unsigned)(idx % NVAR); idx /= NVAR; w[0] = (unsigned)(idx % NVW); w[1] = (unsigned)(idx / NVW); d_fixed = true; static ctx_t x; NOTE("env %u, variant/words:", e);
    for (int r = 0; r < 2; r++) { NOTE(" %u/%u", v[r], w[r]); if (!VB[e][v[r]][w[r]].ok) mc_fail("does not complete alone"); memset(&x, 0, sizeof x); variant(&x.c, v[r], w[r]); for (int j = 0; PAT[1][j]; j++) { uint64_t h = v_op(&x, e, j); mc_trans(1); if (h != VB[e][v[r]][w[r]].h[j]) { size_t n; mc_fail("operation %d (%c) of run %d differs from the same run alone; status %d, prints '%.200s' '%.200s'", j, PAT[1][j], r, x.r.status, PAT[1][j] == 'F' ? "" : cap_out(&n), PAT[1][j] == 'F' ? "" : cap_err(&n)); } } mc_exec(1); }
    mc_state(mc_mix(mc_mix(v[0] * 64 + v[1], w[0] * 64 + w[1]), e)); d_fixed = false;
}
static void v_baselines(void)
{
    VB = mmap(NULL, 2 * sizeof *VB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (unsigned e = 0; e < 2; e++) for (unsigned s = 0; s < NVAR; s++) for (unsigned p = 0; p < NVW; p++) { solo_t q = {e, s, p}; VB[e][s][p].ok = mc_isolated(v_solo, &q); }
}
/* ---- every text for every kind of option after every other, and the environment's own text is never touched */
#define NKIND 20
#define NTXT 41
static const char *txt(unsigned i) { static char b[40][4]; static const char A[] = "1a,=-", *const MORE[] = {"a=1", "1-3", "a1a", "1,1", "1a=", "y", "yes", "0", " 1", "1 "}; if (i >= 31) return MORE[i - 31]; unsigned k[4], n = seq_decode(i, 5, 2, k); for (unsigned j = 0; j < n; j++) b[i][j] = A[k[j]]; b[i][n] = 0; return b[i]; }
ARGUS_OPTIONS(KT, OPTION_STRING('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_INT('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_FLOAT('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_BOOL('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_FLAG('v', "val", HELP("h"), ENV_VAR("VV")),
    OPTION_ARRAY_STRING('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_ARRAY_INT('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_ARRAY_FLOAT('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_MAP_STRING('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_MAP_INT('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_MAP_FLOAT('v', "val", HELP("h"), ENV_VAR("VV")), OPTION_MAP_BOOL('v', "val", HELP("h"), ENV_VAR("VV")),
    OPTION_STRING('v', "val", HELP("h"), ENV_VAR("VV"), VALIDATOR(V_CHOICE_STR("a", "1", "yes", "1a"))), OPTION_INT('v', "val", HELP("h"), ENV_VAR("VV"), VALIDATOR(V_CHOICE_INT(1, 11, -1))), OPTION_FLOAT('v', "val", HELP("h"), ENV_VAR("VV"), VALIDATOR(V_CHOICE_FLOAT(1, 11, -1))), OPTION_STRING('v', "val", HELP("h"), ENV_VAR("VV"), VALIDATOR(V_REGEX(MAKE_REGEX("^[a1]+$", "as")))),
    OPTION_INT('v', "val", HELP("h"), ENV_VAR("VV"), VALIDATOR(V_RANGE(0, 5))), OPTION_STRING('v', "val", HELP("h"), ENV_VAR("VV"), VALIDATOR(V_LENGTH(1, 1))), OPTION_ARRAY_STRING('v', "val", HELP("h"), ENV_VAR("VV"), FLAGS(FLAG_SORTED | FLAG_UNIQUE), VALIDATOR(V_COUNT(1, 1))), OPTION_MAP_STRING('v', "val", HELP("h"), ENV_VAR("VV"), FLAGS(FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE)), )
static uint64_t (*TX)[2][NTXT]; static bool (*TXOK)[2][NTXT];
static uint64_t t_run(unsigned kind, unsigned route, unsigned t)
{
    static argus_option_t o[3]; static ctx_t x; static char w[32], cur[1 << 15]; memset(&x, 0, sizeof x); o[0] = KT[kind]; o[1] = (argus_option_t)OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler)); o[2] = (argus_option_t)OPTION_END(); x.c.tmpl = o; sprintf(w, "--val=%s", txt(t)); if (route) setenv("VV", txt(t), 1); else { unsetenv("VV"); x.c.argv[x.c.argc++] = w; }
    d_begin(&x.r, &x.c); drun_t *r = &x.r; uint64_t e0 = envh(), d0 = defs(1, r->opts); cap_reset(); d_parse(r); if (envh() != e0) mc_fail("parsing changes the environment"); if (defs(1, r->opts) != d0) mc_fail("parsing changes option definitions"); if (!d_argv_intact(r)) mc_fail("parsing changes the argument vector");
    d_dump(r, cur, sizeof cur); uint64_t h = texts_hash(mc_mixs((uint64_t)r->error_code + 1, cur)); argus_free(&r->argus); if (envh() != e0 || !d_argv_intact(r)) mc_fail("freeing changes the environment or arguments"); d_end(r); unsetenv("VV"); return h;
}
static void t_solo(void *a) { solo_t *q = a; d_fixed = true; TX[q->s][q->e][q->p] = t_run(q->s, q->e, q->p); }
static void texts(uint64_t idx, const void *arg)
{
    (void)arg; d_fixed = true; unsigned k[2], r[2], t[2]; for (int i = 0; i < 2; i++) { k[i] = (unsigned)(idx % NKIND); idx /= NKIND; r[i] = (unsigned)(idx % 2); idx /= 2; t[i] = (unsigned)(idx % NTXT); idx /= NTXT; } NOTE("kind %u %s '%s', then kind %u %s '%s'", k[0], r[0] ? "environment" : "words", txt(t[0]), k[1], r[1] ? "environment" : "words", txt(t[1]));
    for (int i = 0; i < 2; i++) { if (!TXOK[k[i]][r[i]][t[i]]) mc_fail("run %d does not complete alone, or changes its inputs", i); if (t_run(k[i], r[i], t[i]) != TX[k[i]][r[i]][t[i]]) mc_fail("run %d differs from the same run alone", i); mc_exec(1); mc_trans(1); }
    mc_state(mc_mix(TX[k[0]][r[0]][t[0]], TX[k[1]][r[1]][t[1]])); d_fixed = false;
}
static void t_baselines(void)
{
    TX = mmap(NULL, NKIND * sizeof *TX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); TXOK = mmap(NULL, NKIND * sizeof *TXOK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (unsigned k = 0; k < NKIND; k++) for (unsigned r = 0; r < 2; r++) for (unsigned t = 0; t < NTXT; t++) { solo_t q = {r, k, t}; TXOK[k][r][t] = mc_isolated(t_solo, &q); }
}
void mc_register(int thorough)
{
    d_fixed = false; HL = thorough ? 3 : 2; NL = thorough ? 4 : 3; PL = thorough ? 3 : 2; baselines(); v_baselines(); t_baselines();
    mc_space("pairs", (uint64_t)NS * NS * 2 * binom(10, 5), pairs, (void *)0); 
    if (thorough) { mc_space("pairs, long", (uint64_t)NS * NS * 2 * binom(14, 7), pairs, (void *)1); mc_space("triples", (uint64_t)NS * NS * NS * 1680, triples, NULL); }
    mc_space("history", seq_count(NS * 2, HL) * 2 * NS, history, NULL); mc_case_reset = unfix; mc_space("tables in the same memory", 2ull * NVAR * NVAR * NVW * NVW, tables, NULL); mc_space("history in the same memory", seq_count(NS * 2, HL) * 2 * NS, history, (void *)1); mc_space("inside callbacks", seq_count(7, NL) * 7 * NS, inside, NULL);
    RUNS = thorough ? 6000 : 300; mc_space("again and again", NS * 2ull * 4, again, NULL);
    mc_space("texts one after the other", (uint64_t)(NKIND * 2 * NTXT) * (NKIND * 2 * NTXT), texts, NULL);
    for (uintptr_t t = 0; t < 4; t++) mc_space(((const char *[]){"pure/T0", "pure/T1", "pure/T2", "pure/T3"})[t], seq_count(WS[t].n, PL) * 2, pure, (void *)t);
}
