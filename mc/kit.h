/* Option tables that together use every option type, ordering flag, positional kind and nested commands, with word
 * alphabets for them and a routine that uses every accessor.  Shared by several checks. */
#ifndef KIT_H
#define KIT_H
#include "model.h"
static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
#define SU FLAGS(FLAG_SORTED | FLAG_UNIQUE)
ARGUS_OPTIONS(T0, OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler), FLAGS(FLAG_EXIT)), OPTION_FLAG('a', "alpha", HELP("h")), OPTION_STRING('s', "str", HELP("h"), DEFAULT("dd")), OPTION_ARRAY_STRING('L', "ls", HELP("h"), ENV_VAR("LS")), OPTION_ARRAY_INT('i', "li", HELP("h"), ENV_VAR("LI"), SU),
    OPTION_MAP_STRING('m', "ms", HELP("h"), ENV_VAR("MS"), FLAGS(FLAG_UNIQUE_VALUE | FLAG_SORTED_KEY)), POSITIONAL_STRING("p", HELP("h"), OPTL), POSITIONAL_MANY_STRING("rest", HELP("h"), OPTL, FLAGS(FLAG_UNIQUE)), )
ARGUS_OPTIONS(T1, OPTION_FLAG('a', "alpha", HELP("h")), OPTION_ARRAY_FLOAT('f', "lf", HELP("h"), ENV_VAR("LF"), SU), OPTION_MAP_INT('i', "mi", HELP("h"), ENV_VAR("MI"), FLAGS(FLAG_SORTED_VALUE)), OPTION_MAP_FLOAT('m', "mf", HELP("h"), ENV_VAR("MF"), FLAGS(FLAG_UNIQUE_VALUE)),
    OPTION_MAP_BOOL('b', "mb", HELP("h"), ENV_VAR("MB"), FLAGS(FLAG_SORTED_KEY)), OPTION_BOOL('s', "str", HELP("h")), POSITIONAL_MANY_INT("rest", HELP("h"), OPTL, FLAGS(FLAG_SORTED)), )
ARGUS_OPTIONS(T2d, OPTION_ARRAY_STRING('L', "ls", HELP("h"), ENV_VAR("LS")), OPTION_STRING('s', "str", HELP("h")), POSITIONAL_MANY_FLOAT("rest", HELP("h"), OPTL), )
ARGUS_OPTIONS(T2s, OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler), FLAGS(FLAG_EXIT)), OPTION_MAP_STRING('m', "ms", HELP("h"), ENV_VAR("MS")), OPTION_ARRAY_INT('i', "li", HELP("h"), ENV_VAR("LI")), SUBCOMMAND("deep", T2d, HELP("h"), ACTION(act)), )
ARGUS_OPTIONS(T2, OPTION_FLAG('V', "version", HELP("h"), HANDLER(version_handler), FLAGS(FLAG_EXIT)), OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler), FLAGS(FLAG_EXIT)), OPTION_ARRAY_STRING('L', "ls", HELP("h"), ENV_VAR("LS"), FLAGS(FLAG_ENV_OVERRIDE)), OPTION_INT('n', "num", HELP("h"), VALIDATOR(V_RANGE(0, 9))), SUBCOMMAND("sub", T2s, HELP("h")), SUBCOMMAND("sux", T2d, HELP("h"), ACTION(act)), )
ARGUS_OPTIONS(T3, OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler), FLAGS(FLAG_EXIT)), GROUP_START("g", FLAGS(FLAG_EXCLUSIVE)), OPTION_ARRAY_INT('i', "li", HELP("h"), VALIDATOR(V_COUNT(1, 2))), OPTION_MAP_STRING('m', "ms", HELP("h")), GROUP_END(), OPTION_STRING('s', "str", HELP("h"), REQUIRE("li"), VALIDATOR(V_LENGTH(0, 2))), OPTION_ARRAY_STRING('L', "ls", HELP("h"), FLAGS(FLAG_REQUIRED)), POSITIONAL_FLOAT("p", HELP("h"), OPTL), )
static const argus_option_t *T[] = {T0, T1, T2, T3};
static const char *W0[] = {"-a", "-h", "--help", "-Lx,y", "--ls=", "-L", "-i3-5,1", "-i1,x", "-ix", "-mk=v,j=w", "-mk", "-mk=v,j", "--str=x", "-s", "x", "", "--", "-", "--nope", "-q", "-ah", "-aLx"};
static const char *W1[] = {"-a", "-f1,2,1", "-f1,x", "-f", "-ia=1,b=2", "-ia=1,b", "-ia=x", "-ma=1,b=1", "-ma=1,b=x", "-ba=yes,b=no", "-ba=1,b=x", "-syes", "-sx", "5", "-7", "x", "--", "-", "-q", "--mb", "--mi=,", "1,2"};
static const char *W2[] = {"-V", "-h", "-Lx,y", "-n5", "-n50", "-nx", "sub", "sux", "su", "deep", "d", "-mk=v", "-mk", "-i1-4", "-ix", "-sx", "-s", "x", "1.5", "--", "--help", "-q", "--version", "-Vn"};
static const char *W3[] = {"-h", "-i1", "-i1,2,3", "-ix", "-mk=v", "-m", "-sx", "-sxyz", "-Lx", "--ls=a,b,c", "1.5", "x", "--", "--help", "-q", "-i5:1", "-L", "--str", "-", "-i,", "-m,", "-hq"};
static const struct { const char **w; unsigned n; } WS[] = {{W0, 22}, {W1, 22}, {W2, 24}, {W3, 22}};
static char dump[1 << 16];
static void access_all(drun_t *r)
{
    d_dump(r, dump, sizeof dump);
    static const char *P[] = {"alpha", "str", "ls", "li", "ms", "mi", "mf", "mb", "rest", "p", ".ls", "sub.ms", "sub.deep.ls", "nope", "", ".", "g", "sub", "a.b.c.d.e"};
    argus_t *a = &r->argus;
    for (unsigned i = 0; i < sizeof P / sizeof *P; i++) {
        argus_value_t v = argus_get(a, P[i]); (void)v; (void)argus_is_set(a, P[i]); size_t n = argus_count(a, P[i]);
        for (size_t k = 0; k < 3; k++) { v = argus_array_get(a, P[i], k == 2 ? n : k); v = argus_array_get(a, P[i], (size_t)-1); }
        v = argus_map_get(a, P[i], "k"); v = argus_map_get(a, P[i], "");
        argus_array_it_t ai = argus_array_it(a, P[i]); while (argus_array_next(&ai)) {} argus_array_reset(&ai); argus_array_next(&ai); argus_array_next(NULL); argus_array_reset(NULL);
        argus_map_it_t mi = argus_map_it(a, P[i]); size_t l = 0; while (argus_map_next(&mi)) l += strlen(mi.key); argus_map_reset(&mi); argus_map_next(&mi); argus_map_next(NULL); argus_map_reset(NULL);
    }
    (void)argus_has_command(a);
}
#endif
