/* C16: accessors and iterators agree with each other and report precise errors. */
#include "model.h"
const char *mc_property = "C16";
const char *mc_bounds =
    "12 parsed states (nothing given; every kind of option with 0..5 elements, defaults, duplicates, sorted and unique variants, from the environment, at the root and inside one and two nested commands that reuse names for other kinds); in each: every accessor with every path, index 0..n+1 and extremes, "
    "and key; every sequence of up to 3 (4) operations out of about 60 accessor and iterator operations; every sequence of up to 6 (7) operations of two array and two map iterators (create on either of two options, next, reset) in one process; collections of 0..129 and up to 700 elements, and of sizes around 2^12, 2^15, 2^16 and 2^17, at every depth 0..8, every index, every key and relatives of keys.  "
    "Every returned value, set state, count, error code and iterator step is compared with the reference model of the parse.";
static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
ARGUS_OPTIONS(S2, OPTION_MAP_FLOAT('s', "str", HELP("h")), OPTION_INT('l', "ls", HELP("h")), POSITIONAL_MANY_FLOAT("rest", HELP("h"), OPTL), )
ARGUS_OPTIONS(S1, OPTION_MAP_INT('l', "ls", HELP("h"), FLAGS(FLAG_SORTED_VALUE)), OPTION_ARRAY_INT('m', "ms", HELP("h")), OPTION_BOOL('s', "str", HELP("h")), OPTION_FLAG('z', "zz", HELP("h")), SUBCOMMAND("deep", S2, HELP("h"), ACTION(act)), )
ARGUS_OPTIONS(ROOT, OPTION_FLAG('a', "alpha", HELP("h")), OPTION_STRING('s', "str", HELP("h"), DEFAULT("dd")), OPTION_INT('n', "num", HELP("h")), OPTION_FLOAT('f', "flt", HELP("h")), OPTION_ARRAY_STRING('l', "ls", HELP("h"), ENV_VAR("LS")), OPTION_ARRAY_INT('i', "li", HELP("h"), FLAGS(FLAG_SORTED | FLAG_UNIQUE)), OPTION_MAP_STRING('m', "ms", HELP("h"), ENV_VAR("MS")), OPTION_MAP_BOOL('b', "mb", HELP("h"), FLAGS(FLAG_SORTED_KEY)),
    GROUP_START("grp"), OPTION_ARRAY_FLOAT('F', "lf", HELP("h")), GROUP_END(), SUBCOMMAND("sub", S1, HELP("h"), ACTION(act)), )
ARGUS_OPTIONS(PROOT, OPTION_FLAG('a', "alpha", HELP("h")), OPTION_ARRAY_STRING('l', "ls", HELP("h")), OPTION_MAP_STRING('m', "ms", HELP("h")), OPTION_STRING('s', "str", HELP("h")), POSITIONAL_INT("num", HELP("h"), OPTL), POSITIONAL_MANY_STRING("rest", HELP("h"), OPTL), )
static const struct { const argus_option_t *t; const char *w[9]; const char *env[4]; } ST[] = {
    {ROOT, {0}, {0}}, {ROOT, {"-a", "-sx", "-n-5", "-f1.5", "-lu,v,u", "-i3,1,3,2", "-mk=1,j=2,k=3", "-bk=yes,a=no", "-F1.5,2"}, {0}}, {ROOT, {"-lx", "-mj=x", "-i7"}, {0}}, {ROOT, {"-n0", "-s", ""}, {"LS", "e,f,g,h", "MS", "k=v,zz=w"}},
    {ROOT, {"-lu,v", "-mk=1", "sub", "-lk=5,j=4,a=5", "-m1-5", "-sno"}, {0}}, {ROOT, {"sub"}, {"LS", "e"}}, {ROOT, {"-lq", "sub", "-lk=0", "-m0", "-z", "deep", "-l9", "-sk=0.5,j=0", "1.5", "0"}, {0}}, {ROOT, {"-mk=a", "sub", "deep"}, {0}},
    {PROOT, {0}, {0}}, {PROOT, {"5", "a", "b", "a"}, {0}}, {PROOT, {"-lx,y", "-mk=,j=1", "0", "k"}, {0}}, {PROOT, {"-l", "a,b,c,d,e", "-m", "k=v,j=v,zz=v,a=v,b=v"}, {0}}};
#define NST (sizeof ST / sizeof *ST)
static const char *P[] = {"alpha", "str", "num", "flt", "ls", "li", "ms", "mb", "lf", "rest", ".ls", ".ms", ".str", "sub.ls", "sub.ms", "sub.str", "sub.deep.str", "sub.deep.rest", "sub.deep.ls", "nope", "", "grp", "deep.ls", ".sub.ls", "zz"};
#define NP (sizeof P / sizeof *P)
static const size_t I[] = {0, 1, 2, 3, 4, 5, 6, 1u << 20, SIZE_MAX / 8, SIZE_MAX};
static const char *K[] = {"k", "j", "a", "zz", "", "K", "kk", "b"};
static mres_t M; static drun_t R; static int cur = -1; static char base[1 << 14], again[1 << 14];
static void enter(int st)
{
    if (cur == st) return;
    if (cur >= 0) { d_free(&R); d_end(&R); }
    static dcase_t c; memset(&c, 0, sizeof c); c.tmpl = ST[st].t;
    for (int i = 0; i < 9 && ST[st].w[i]; i++) c.argv[c.argc++] = ST[st].w[i];
    for (int i = 0; i < 4 && ST[st].env[i]; i += 2) { c.ename[c.nenv] = ST[st].env[i]; c.evalue[c.nenv++] = ST[st].env[i + 1]; }
    m_parse(&c, &M); d_begin(&R, &c); d_parse(&R); d_env_clear(&c); m_compare(&R, &M); if (R.status) mc_fail("state %d does not parse", st);
    d_dump(&R, base, sizeof base); cur = st;
}
static bool arr(const mopt_t *o) { return o->t->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC); }
static bool map(const mopt_t *o) { return o->t->value_type & VALUE_TYPE_MAP; }
static int cnt(const mopt_t *o) { return o->c ? o->c->n : 0; }
static void err(const char *what, const char *path, int want) { if (R.argus.error_code != want) mc_fail("%s('%s') leaves error %d, expected %d", what, path, R.argus.error_code, want); }
static void op_get(const char *p)
{
    const mopt_t *o; int k = m_resolve(&M, p, &o); if (k == R_SKIP) return;
    argus_value_t v = argus_get(&R.argus, p);
    if (k == R_ABSENT) { err("get", p, ARGUS_ERROR_NO_VALUE); if (v.raw) mc_fail("get('%s') of an unknown path has a value", p); return; }
    err("get", p, 0);
    if (arr(o)) { for (int j = 0; j < cnt(o); j++) if (!m_same(o->t->value_type, v.as_array[j], o->c->el[j])) mc_fail("get('%s').as_array[%d] differs", p, j); }
    else if (map(o)) { for (int j = 0; j < cnt(o); j++) { bool f = false; for (int q = 0; q < cnt(o); q++) f |= !strncmp(v.as_map[q].key, o->c->key[j].s, (size_t)o->c->key[j].n) && !v.as_map[q].key[o->c->key[j].n] && m_same(o->t->value_type, v.as_map[q].value, o->c->el[j]); if (!f) mc_fail("get('%s').as_map lacks a pair", p); } }
    else if (o->set) { if (!m_same(o->t->value_type, v, o->v)) mc_fail("get('%s') is not the parsed value", p); }
    else if (o->t->have_default) { if (strcmp(v.as_string, o->t->default_value.as_string)) mc_fail("get('%s') is not the default", p); }
    else if (v.raw) mc_fail("get('%s') of an option not given has a value", p);
}
static void op_set(const char *p)
{
    const mopt_t *o; int k = m_resolve(&M, p, &o); if (k == R_SKIP) return;
    bool want = k == R_OPT && (o->set || o->t->have_default);
    if (argus_is_set(&R.argus, p) != want) mc_fail("is_set('%s') is %d", p, !want);
}
static void op_count(const char *p)
{
    const mopt_t *o; int k = m_resolve(&M, p, &o); if (k == R_SKIP) return; size_t n = argus_count(&R.argus, p);
    if (k == R_ABSENT ? n != 0 : (arr(o) || map(o)) && n != (size_t)cnt(o)) mc_fail("count('%s') is %zu", p, n);
}
static void op_aget(const char *p, size_t i)
{
    const mopt_t *o; int k = m_resolve(&M, p, &o); if (k == R_SKIP) return; argus_value_t v = argus_array_get(&R.argus, p, i);
    int want = k == R_ABSENT ? ARGUS_ERROR_NO_VALUE : !arr(o) ? ARGUS_ERROR_INVALID_TYPE : i >= (size_t)cnt(o) ? ARGUS_ERROR_INVALID_INDEX : 0;
    err("array_get", p, want); if (want && v.raw) mc_fail("array_get('%s',%zu) fails with a value", p, i);
    if (!want && !m_same(o->t->value_type, v, o->c->el[i])) mc_fail("array_get('%s',%zu) differs", p, i);
}
static void op_mget(const char *p, const char *key)
{
    const mopt_t *o; int k = m_resolve(&M, p, &o); if (k == R_SKIP) return; argus_value_t v = argus_map_get(&R.argus, p, key); int at = -1;
    if (k == R_OPT && map(o)) for (int j = 0; j < cnt(o); j++) if ((int)strlen(key) == o->c->key[j].n && !memcmp(key, o->c->key[j].s, strlen(key))) at = j;
    int want = k == R_ABSENT ? ARGUS_ERROR_NO_VALUE : !map(o) ? ARGUS_ERROR_INVALID_TYPE : at < 0 ? ARGUS_ERROR_INVALID_KEY : 0;
    err("map_get", p, want); if (want && v.raw) mc_fail("map_get('%s','%s') fails with a value", p, key);
    if (!want && !m_same(o->t->value_type, v, o->c->el[at])) mc_fail("map_get('%s','%s') differs", p, key);
}
/* iterators */
typedef struct { const mopt_t *o; int pos; } mit_t;
static argus_array_it_t A[2]; static argus_map_it_t B[2]; static mit_t ma[2], mb[2];
static void it_zero(void) { for (int i = 0; i < 2; i++) { A[i] = (argus_array_it_t){0}; B[i] = (argus_map_it_t){0}; ma[i].o = mb[i].o = NULL; ma[i].pos = mb[i].pos = 0; } }
static bool it_make(bool m, int s, const char *p)
{
    const mopt_t *o = NULL; int k = m_resolve(&M, p, &o); if (k == R_SKIP) return true; if (k == R_ABSENT) o = NULL;
    if (m) { B[s] = argus_map_it(&R.argus, p); mb[s] = (mit_t){o && map(o) ? o : NULL, 0}; } else { A[s] = argus_array_it(&R.argus, p); ma[s] = (mit_t){o && arr(o) ? o : NULL, 0}; }
    return true;
}
static void it_next(bool m, int s)
{
    mit_t *t = m ? &mb[s] : &ma[s]; int n = t->o ? cnt(t->o) : 0; bool r = m ? argus_map_next(&B[s]) : argus_array_next(&A[s]);
    if (r != (t->pos < n)) mc_fail("%s iterator %d %s at position %d of %d", m ? "map" : "array", s, r ? "continues" : "stops", t->pos, n);
    if (!r) return;
    if (!m) { if (!m_same(t->o->t->value_type, A[s].value, t->o->c->el[t->pos])) mc_fail("array iterator %d yields a wrong element at %d", s, t->pos); }
    else {
        const mcoll_t *c = t->o->c; int j = t->pos, q; for (q = 0; q < n; q++) if ((int)strlen(B[s].key) == c->key[q].n && !memcmp(B[s].key, c->key[q].s, (size_t)c->key[q].n)) break;
        bool tie = (t->o->t->flags & FLAG_SORTED_VALUE); if (q == n || (!tie && q != j)) mc_fail("map iterator %d yields key '%s' at %d", s, B[s].key, j);
        if (!m_same(t->o->t->value_type, B[s].value, c->el[q])) mc_fail("map iterator %d yields a wrong value for '%s'", s, B[s].key);
    }
    t->pos++;
}
static void it_reset(bool m, int s) { if (m) { argus_map_reset(&B[s]); mb[s].pos = 0; } else { argus_array_reset(&A[s]); ma[s].pos = 0; } }
static void final(void) { d_dump(&R, again, sizeof again); if (strcmp(base, again)) mc_fail("reading changed the values:\n  before %s\n  after  %s", base, again); }

/* every accessor with every argument */
static void probes(uint64_t idx, const void *arg)
{
    (void)arg; int st = (int)(idx % NST); const char *p = P[idx / NST]; NOTE("state %d path '%s'", st, p); cur = -1; enter(st);
    op_get(p); op_set(p); op_count(p);
    for (unsigned i = 0; i < sizeof I / sizeof *I; i++) { op_aget(p, I[i]); op_get("str"); if (R.argus.error_code) mc_fail("a successful access keeps the error"); }
    for (unsigned i = 0; i < sizeof K / sizeof *K; i++) { op_mget(p, K[i]); op_count(p); }
    for (int m = 0; m < 2; m++) for (int rep = 0; rep < 3; rep++) { it_zero(); it_make(m, 0, p); for (int i = 0; i < 8; i++) it_next(m, 0); it_reset(m, 0); for (int i = 0; i < rep * 2; i++) it_next(m, 0); it_reset(m, 0); for (int i = 0; i < 8; i++) it_next(m, 0); }
    if (argus_array_next(NULL) || argus_map_next(NULL)) mc_fail("NULL iterator continues"); argus_array_reset(NULL); argus_map_reset(NULL);
    final(); mc_exec(1); mc_trans(60); mc_state(mc_mix(idx, 3)); d_free(&R); d_end(&R); cur = -1;
}
/* sequences over all operations */
enum { O_GET, O_SET, O_CNT, O_AGET, O_MGET, O_AIT, O_MIT, O_ANX, O_MNX, O_ARS, O_MRS };
typedef struct { int k; const char *p; size_t i; const char *key; int s; } opd_t;
static opd_t OP[80]; static unsigned nop;
static void ops_init(void)
{
    if (nop) return;
    static const char *Q[] = {"str", "ls", "ms", ".ls", "sub.ls", "rest", "nope"};
    for (unsigned q = 0; q < 7; q++) { OP[nop++] = (opd_t){O_GET, Q[q]}; OP[nop++] = (opd_t){O_AGET, Q[q], 0}; OP[nop++] = (opd_t){O_AGET, Q[q], 3}; OP[nop++] = (opd_t){O_MGET, Q[q], 0, "k"}; OP[nop++] = (opd_t){O_MGET, Q[q], 0, "zz"}; }
    for (unsigned q = 1; q < 5; q++) { OP[nop++] = (opd_t){O_AIT, Q[q], 0, 0, 0}; OP[nop++] = (opd_t){O_MIT, Q[q], 0, 0, 0}; }
    OP[nop++] = (opd_t){O_ANX}; OP[nop++] = (opd_t){O_MNX}; OP[nop++] = (opd_t){O_ARS}; OP[nop++] = (opd_t){O_MRS}; OP[nop++] = (opd_t){O_SET, "ls"}; OP[nop++] = (opd_t){O_CNT, "ls"}; OP[nop++] = (opd_t){O_CNT, ".ms"}; OP[nop++] = (opd_t){O_SET, "nope"};
}
static void doop(const opd_t *o)
{
    NOTE(" %d:%s%s/%zu/%d", o->k, o->p ? o->p : "", o->key ? o->key : "", o->i, o->s);
    switch (o->k) {
        case O_GET: op_get(o->p); break; case O_SET: op_set(o->p); break; case O_CNT: op_count(o->p); break; case O_AGET: op_aget(o->p, o->i); break; case O_MGET: op_mget(o->p, o->key); break;
        case O_AIT: it_make(0, o->s, o->p); break; case O_MIT: it_make(1, o->s, o->p); break; case O_ANX: it_next(0, o->s); break; case O_MNX: it_next(1, o->s); break; case O_ARS: it_reset(0, o->s); break; case O_MRS: it_reset(1, o->s); break;
    }
}
static unsigned L, IL;
static void seqs(uint64_t idx, const void *arg)
{
    int st = (int)(intptr_t)arg; unsigned k[8], n = seq_decode(idx, nop, L, k); NOTE("state %d ops:", st); enter(st); it_zero(); R.argus.error_code = 0;
    for (unsigned i = 0; i < n; i++) doop(&OP[k[i]]);
    mc_exec(1); mc_trans(n); mc_state(mc_mix((uint64_t)R.argus.error_code * 1000 + (unsigned)ma[0].pos * 10 + (unsigned)mb[0].pos, (uint64_t)st));
    if (idx % 64 == 0) final();
}
/* all interleavings of two array and two map iterators */
static void iters(uint64_t idx, const void *arg)
{
    int st = (int)(intptr_t)arg; bool m = idx & 1; idx >>= 1; const char *p1 = m ? ".ms" : ".ls", *p2 = m ? (st == 4 || st == 5 || st == 6 ? "sub.ls" : "mb") : (st >= 8 ? "rest" : st == 4 || st == 6 ? "sub.ms" : "li");
    unsigned k[8], n = seq_decode(idx, 8, IL, k); NOTE("state %d %s iterators on %s and %s:", st, m ? "map" : "array", p1, p2); enter(st); it_zero();
    for (unsigned i = 0; i < n; i++) {
        int s = (int)(k[i] & 1); NOTE(" %s%d", (const char *[]){"next", "reset", "make1.", "make2."}[k[i] >> 1], s);
        switch (k[i] >> 1) { case 0: it_next(m, s); break; case 1: it_reset(m, s); break; case 2: it_make(m, s, p1); break; default: it_make(m, s, p2); }
    }
    mc_exec(1); mc_trans(n); mit_t *t = m ? mb : ma; mc_state(mc_mix((uint64_t)t[0].pos * 10 + (uint64_t)t[1].pos, (uint64_t)(st * 4 + (t[0].o != NULL) + 2 * (t[1].o != NULL))));
}
/* collections of n elements: every index, every key, near-miss keys, full iterations; in a chain of depth levels, by full and by short path */
static void large(uint64_t idx, const void *arg)
{
    (void)arg; unsigned n = (unsigned)(idx % 140); if (n >= 130) n = (unsigned[]){200, 255, 256, 257, 258, 300, 511, 512, 513, 700}[n - 130]; idx /= 140; unsigned fl = (unsigned)(idx % 3), depth = (unsigned)(idx / 3); static argus_option_t t[9][10]; static char cn[9][8], la[8000], lm[12000]; static dcase_t c; memset(&c, 0, sizeof c); c.tmpl = t[0]; NOTE("%u elements, flags %u, depth %u", n, fl, depth); char path[3][100] = {"", "", ""}; size_t a = 0, m = 0;
    for (int i = 8; i >= 0; i--) { int e = 0; t[i][e++] = (argus_option_t)OPTION_ARRAY_INT('i', "li", HELP("h"), FLAGS(fl == 1 ? FLAG_SORTED : 0)); t[i][e++] = (argus_option_t)OPTION_MAP_INT('m', "mi", HELP("h"), FLAGS(fl == 1 ? FLAG_SORTED_KEY : fl == 2 ? FLAG_SORTED_VALUE : 0)); t[i][e++] = (argus_option_t)OPTION_INT('n', "num", HELP("h")); if (i < 8) { sprintf(cn[i], "cmd%d", i); t[i][e++] = (argus_option_t)SUBCOMMAND(cn[i], t[i + 1], HELP("h"), ACTION(act)); } t[i][e] = (argus_option_t)OPTION_END(); }
    la[0] = lm[0] = 0; for (unsigned i = 0; i < n; i++) { a += (size_t)sprintf(la + a, "%s%u", i ? "," : "", i * 37 % 101); m += (size_t)sprintf(lm + m, i == 5 ? "%s=%.0u%u" : "%skey%u=%u", i ? "," : "", i == 5 ? 0 : i, i * 53 % 97); }
    c.argv[c.argc++] = "-i7"; for (unsigned i = 0; i < depth; i++) c.argv[c.argc++] = cn[i]; if (n) { c.argv[c.argc++] = "--li"; c.argv[c.argc++] = la; c.argv[c.argc++] = "--mi"; c.argv[c.argc++] = lm; } c.argv[c.argc++] = "-n3";
    for (unsigned i = 0; i < depth; i++) { strcat(path[1], cn[i]); strcat(path[1], "."); } if (!depth) strcpy(path[1], "."); m_parse(&c, &M); d_begin(&R, &c); d_parse(&R); d_env_clear(&c); m_compare(&R, &M); if (R.status) mc_fail("does not parse"); d_dump(&R, base, sizeof base);
    static const char *ON[] = {"li", "mi", "num"}; for (int q = 0; q < 3; q++) for (int f = 0; f < 3; f++) {
        char p[128]; sprintf(p, "%s%s", f == 1 ? path[1] : f == 2 ? "cmd0." : "", ON[q]); op_get(p); op_set(p); op_count(p); for (size_t i = 0; i <= n + 1; i++) op_aget(p, i); op_aget(p, (size_t)-1); op_aget(p, (size_t)1 << 32); op_aget(p, ((size_t)1 << 32) + 1);
        char key[40]; for (unsigned i = 0; i <= n; i++) { sprintf(key, "key%u", i); op_mget(p, key); if (i % 8 == 0) { sprintf(key, "key%u ", i); op_mget(p, key); sprintf(key, "key%ux", i); op_mget(p, key); sprintf(key, "Key%u", i); op_mget(p, key); sprintf(key, "key%u,key0", i); op_mget(p, key); sprintf(key, "key%u=%u", i, i); op_mget(p, key); } }
        for (int w = 0; w < 2; w++) { it_zero(); it_make(w, 0, p); it_make(w, 1, p); for (unsigned i = 0; i < n + 2; i++) { it_next(w, 0); if (i % 2) it_next(w, 1); } it_reset(w, 0); for (unsigned i = 0; i < n + 2; i++) it_next(w, 0); it_next(w, 1); } }
    final(); mc_exec(1); mc_trans(n); mc_state(mc_mix(n, fl * 10 + depth)); d_free(&R); d_end(&R); cur = -1;
}
/* collections beyond 16 bits: counts, some indices, whole iterations */
static void huge(uint64_t idx, const void *arg)
{
    (void)arg; static const int N[] = {4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073}; int n = N[idx % 14]; bool flt = idx / 14; char w[40]; dcase_t c = {.argc = 1}; static char *many; NOTE("%d elements, %s", n, flt ? "pairs" : "numbers");
    argus_option_t t[] = {OPTION_ARRAY_INT('i', "li", HELP("h")), OPTION_MAP_INT('m', "mi", HELP("h")), OPTION_END()}; c.tmpl = t;
    if (flt) { if (n > 4100) return; if (!many) many = malloc(1 << 17); size_t o = (size_t)sprintf(many, "-m"); for (int i = 1; i <= n; i++) o += (size_t)sprintf(many + o, "%sk%d=%d", i > 1 ? "," : "", i, i); c.argv[0] = many; } else { sprintf(w, "-i1-%d", n); c.argv[0] = w; }
    drun_t r; d_begin(&r, &c); d_parse(&r); if (r.exited || r.status) mc_fail("parse failed with %d", r.status); const char *p = flt ? "mi" : "li"; char key[16];
    if (argus_count(&r.argus, p) != (size_t)n) mc_fail("count is %zu", argus_count(&r.argus, p));
    for (int b = -1; b <= 17; b++) for (int d = -1; d <= 1; d++) { long long i = (b < 0 ? n : 1ll << b) + d; bool in = i >= 0 && i < n; sprintf(key, "k%lld", i + 1); argus_value_t v = flt ? argus_map_get(&r.argus, p, key) : argus_array_get(&r.argus, p, (size_t)i); if (i < 0) continue; if ((r.argus.error_code == 0) != in || (in ? v.as_int64 != i + 1 && v.as_int != i + 1 : v.raw != 0)) mc_fail("element %lld: error %d value %lld", i, r.argus.error_code, (long long)v.as_int64); }
    for (int rep = 0; rep < 2; rep++) { argus_array_it_t a; argus_map_it_t m; if (flt) m = argus_map_it(&r.argus, p); else a = argus_array_it(&r.argus, p);
        for (int again = 0; again < 2; again++) { for (int i = 0; i < n; i++) { if (!(flt ? argus_map_next(&m) : argus_array_next(&a))) mc_fail("iteration stops after %d of %d", i, n); int v = flt ? m.value.as_int : a.value.as_int; if (v != i + 1) mc_fail("iteration yields %d at %d", v, i); if (flt) { sprintf(key, "k%d", v); if (strcmp(m.key, key)) mc_fail("iteration yields key '%s' at %d", m.key, i); } } if (flt ? argus_map_next(&m) : argus_array_next(&a)) mc_fail("iteration goes on after %d", n); if (flt) argus_map_reset(&m); else argus_array_reset(&a); } }
    mc_exec(1); mc_trans((uint64_t)n * 4); mc_state(mc_mix((uint64_t)n, flt)); d_free(&r); d_end(&r);
}
void mc_register(int thorough)
{
    L = thorough ? 4 : 3; IL = thorough ? 7 : 6; ops_init();
    mc_space("accessors", NST * NP, probes, NULL); d_space_dressed("accessors", NST * NP, probes, NULL);
    static char nm[2][NST][24];
    for (unsigned s = 0; s < NST; s++) { sprintf(nm[0][s], "sequences/%u", s); sprintf(nm[1][s], "iterators/%u", s); if (!thorough || s == 1 || s == 3 || s == 4 || s == 6 || s == 9 || s == 10) mc_space(nm[0][s], seq_count(nop, L), seqs, (void *)(intptr_t)s); mc_space(nm[1][s], seq_count(8, IL) * 2, iters, (void *)(intptr_t)s); }
    mc_space_chunk("huge", 28, 1, huge, NULL);
    mc_space_chunk("large", 140 * 27, 2, large, NULL);
}
