/* C19: definition validation rejects exactly the malformed tables. */
#define ARGUS_DEBUG
#include "model.h"
#include <fcntl.h>
const char *mc_property = "C19";
const char *mc_bounds =
    "every table of up to 3 (4) entries out of a catalogue of 66 well-formed and malformed entry shapes, with the help option first, last or missing, at the root, in a command and in a command of a command (pairs); every table of up to 6 (7) entries of the eight kinds that placement rules speak of; every combination of the fifteen flags on each of "
    "nine kinds of entry; every entry shape under any two flags, every pair of shapes with any flag on either or both, dependency lists of up to two names under each flag; every dependency list over existing, missing, prefix and repeated names; sixteen names around \"help\" on six kinds of entry as the only help option of a table at three levels; every pair of 36 names (equal, prefixes, one character or case apart) on seven kinds of entry; every default with every built-in validator around its bound; nesting of 1..10 commands with every single violation at every level, and every pair of violations at two levels; names of every character; tables of 2..33 options with one thing wrong or right that concerns any two of them (equal short, long and internal names, dependencies on one or on all others, one missing), at three levels; the same for places up to 500 apart; 1..60 commands, any one flawed in nine ways; defaults under 1..60 validators and choices with the offending one at any place; placement of entries with every legal mark, any two types sharing short, long or internal names; defaults of up to 1 MiB and validators that write 200 KiB.  "
    "Acceptance comes from an independent evaluation of the documented rules; a rejected table must end the program with a failure status and mention every offending entry on standard error; an accepted one must be silent and leave standard error working; either way no file descriptor stays open.";
static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
static const argus_option_t E_help = OPTION_FLAG('h', "help", HELP("h"), HANDLER(help_handler), FLAGS(FLAG_EXIT));
static char nm[3][12][8];
static argus_option_t okay[2]; /* a valid table for commands: help only */
enum { K_FLAG, K_STR, K_INT, K_ARR, K_MAP, K_PREQ, K_POPT, K_MREQ, K_MOPT, K_SUB, K_GROUP, K_GEND, K_XGROUP, K_SHORT, K_LONG, K_DEP0, K_CONF1, K_SUBF, K_ALLF, K_PDEF, K_LASTOK,
       B_NONAME = K_LASTOK, B_SSP, B_SHY, B_LHY, B_LSP, B_LDOT, B_LEMPTY, B_NOHELP, B_NOHANDLER, B_FLAGDEF, B_STRSORT, B_ARRKEY, B_MAPUNIQ, B_OEXCL, B_DRANGE, B_DCHOICE, B_DREGEX, B_DLENGTH, B_REQCONF, B_REQMISS, B_CONFMISS, B_PNOHELP, B_PNOHANDLER, B_PNULL, B_PEMPTY, B_PREQDEF, B_PHIDDEN, B_PDEP, B_MEXIT, B_SNULL,
       B_SNOHELP, B_SNOOPT, B_SHANDLER, B_SDEF, B_SDEP, B_SVALID, B_SREQ, B_GREQ, B_SUBNOHELP, C_SHORTZ, C_LONGZED, C_POSZED, C_SUBZED, C_GROUPZED, B_PDEFBAD, B_TYPE, B_SEMPTY, NCAT };
#define OPT(T, ...) *o = (argus_option_t)T(sn, ln, __VA_ARGS__)
static argus_option_t nohelp_tbl[2];
static void make(argus_option_t *o, int k, int lv, int i)
{
    char *ln = nm[lv][i]; char sn = (char)('A' + i); sprintf(ln, "o%d", i);
    static validator_entry_t rng, cho, rgx, len; static validator_entry_t *vr[] = {&rng, NULL}, *vc[] = {&cho, NULL}, *vx[] = {&rgx, NULL}, *vl[] = {&len, NULL}; static char *chs[] = {"aa", "bb"};
    rng = (validator_entry_t){.func = range_validator, .order = ORDER_POST, .formatter = format_range_validator}; rng.data.range.min = 1; rng.data.range.max = 5;
    len = (validator_entry_t){.func = length_validator, .order = ORDER_POST, .formatter = format_length_validator}; len.data.range.min = 2; len.data.range.max = 3;
    cho = (validator_entry_t){.func = choices_string_validator, .order = ORDER_POST, .formatter = format_choices_validator}; cho.data.choices.as_strings = chs; cho.data.choices.count = 2; cho.data.choices.type = VALUE_TYPE_STRING;
    rgx = (validator_entry_t){.func = regex_validator, .order = ORDER_PRE, .formatter = format_regex_validator}; rgx.data.regex.pattern = "^a+$";
    static const char *D0[] = {"o0", NULL}, *D1[] = {"o1", NULL}, *DM[] = {"missing", NULL};
    switch (k) {
        case K_FLAG: OPT(OPTION_FLAG, HELP("h")); break;
        case K_STR: OPT(OPTION_STRING, HELP("h"), DEFAULT("aa")); o->validators = vc; break;
        case K_INT: OPT(OPTION_INT, HELP("h"), DEFAULT(5)); o->validators = vr; break;
        case K_ARR: OPT(OPTION_ARRAY_INT, HELP("h"), FLAGS(FLAG_SORTED | FLAG_UNIQUE | FLAG_REQUIRED)); break;
        case K_MAP: OPT(OPTION_MAP_STRING, HELP("h"), FLAGS(FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE | FLAG_HIDDEN)); break;
        case K_PREQ: *o = (argus_option_t)POSITIONAL_STRING(ln, HELP("h")); break;
        case K_POPT: *o = (argus_option_t)POSITIONAL_INT(ln, HELP("h"), OPTL); break;
        case K_MREQ: *o = (argus_option_t)POSITIONAL_MANY_STRING(ln, HELP("h")); break;
        case K_MOPT: *o = (argus_option_t)POSITIONAL_MANY_INT(ln, HELP("h"), OPTL); break;
        case K_SUB: *o = (argus_option_t)SUBCOMMAND(ln, okay, HELP("h"), ACTION(act)); break;
        case K_GROUP: *o = (argus_option_t)GROUP_START(ln); break;
        case K_GEND: *o = (argus_option_t)GROUP_END(); break;
        case K_XGROUP: *o = (argus_option_t)GROUP_START(ln, FLAGS(FLAG_EXCLUSIVE)); break;
        case K_SHORT: *o = (argus_option_t)OPTION_STRING(sn, NULL, HELP("h")); { static char s1[3][12][2]; s1[lv][i][0] = sn; o->name = s1[lv][i]; } break;
        case K_LONG: *o = (argus_option_t)OPTION_BOOL(0, ln, HELP("h")); break;
        case K_DEP0: OPT(OPTION_FLAG, HELP("h")); if (i != 0) o->require = D0; break;
        case K_CONF1: OPT(OPTION_FLAG, HELP("h")); if (i != 1) o->conflict = D1; break;
        case K_SUBF: *o = (argus_option_t)SUBCOMMAND(ln, okay, HELP("h"), FLAGS(FLAG_HIDDEN | FLAG_ADVANCED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)); break;
        case K_ALLF: OPT(OPTION_FLOAT, HELP("h"), FLAGS(FLAG_REQUIRED | FLAG_HIDDEN | FLAG_ADVANCED | FLAG_EXIT | FLAG_ENV_OVERRIDE | FLAG_AUTO_ENV | FLAG_NO_ENV_PREFIX | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)); break;
        case K_PDEF: *o = (argus_option_t)POSITIONAL_STRING(ln, HELP("h"), DEFAULT("aaa"), OPTL); o->validators = vl; break;
        case B_NONAME: *o = (argus_option_t)OPTION_STRING(0, NULL, HELP("h")); o->name = ""; break;
        case B_SSP: *o = (argus_option_t)OPTION_FLAG(' ', ln, HELP("h")); break;
        case B_SHY: *o = (argus_option_t)OPTION_FLAG('-', ln, HELP("h")); break;
        case B_LHY: *o = (argus_option_t)OPTION_FLAG(sn, "-x", HELP("h")); break;
        case B_LSP: *o = (argus_option_t)OPTION_FLAG(sn, "a b", HELP("h")); break;
        case B_LDOT: *o = (argus_option_t)OPTION_FLAG(sn, "a.b", HELP("h")); break;
        case B_LEMPTY: *o = (argus_option_t)OPTION_FLAG(sn, "", HELP("h")); break;
        case B_NOHELP: *o = (argus_option_t)OPTION_INT(sn, ln, .hint = "x"); break;
        case B_NOHANDLER: OPT(OPTION_INT, HELP("h")); o->handler = NULL; break;
        case B_FLAGDEF: OPT(OPTION_FLAG, HELP("h"), DEFAULT(true)); break;
        case B_STRSORT: OPT(OPTION_STRING, HELP("h"), FLAGS(FLAG_SORTED)); break;
        case B_ARRKEY: OPT(OPTION_ARRAY_STRING, HELP("h"), FLAGS(FLAG_SORTED_KEY)); break;
        case B_MAPUNIQ: OPT(OPTION_MAP_INT, HELP("h"), FLAGS(FLAG_UNIQUE)); break;
        case B_OEXCL: OPT(OPTION_FLAG, HELP("h"), FLAGS(FLAG_EXCLUSIVE)); break;
        case B_DRANGE: OPT(OPTION_INT, HELP("h"), DEFAULT(6)); o->validators = vr; break;
        case B_DCHOICE: OPT(OPTION_STRING, HELP("h"), DEFAULT("cc")); o->validators = vc; break;
        case B_DREGEX: OPT(OPTION_STRING, HELP("h"), DEFAULT("b")); o->validators = vx; break;
        case B_DLENGTH: OPT(OPTION_STRING, HELP("h"), DEFAULT("abcd")); o->validators = vl; break;
        case B_REQCONF: OPT(OPTION_FLAG, HELP("h")); o->require = DM; o->conflict = DM; break;
        case B_REQMISS: OPT(OPTION_FLAG, HELP("h")); o->require = DM; break;
        case B_CONFMISS: OPT(OPTION_FLAG, HELP("h")); o->conflict = DM; break;
        case B_PNOHELP: *o = (argus_option_t)POSITIONAL_INT(ln, OPTL); break;
        case B_PNOHANDLER: *o = (argus_option_t)POSITIONAL_INT(ln, HELP("h"), OPTL); o->handler = NULL; break;
        case B_PNULL: *o = (argus_option_t)POSITIONAL_INT(NULL, HELP("h"), OPTL); break;
        case B_PEMPTY: *o = (argus_option_t)POSITIONAL_INT("", HELP("h"), OPTL); break;
        case B_PREQDEF: *o = (argus_option_t)POSITIONAL_INT(ln, HELP("h"), DEFAULT(3)); break;
        case B_PHIDDEN: *o = (argus_option_t)POSITIONAL_INT(ln, HELP("h"), FLAGS(FLAG_HIDDEN)); break;
        case B_PDEP: *o = (argus_option_t)POSITIONAL_INT(ln, HELP("h"), OPTL); o->require = D0; break;
        case B_MEXIT: *o = (argus_option_t)POSITIONAL_MANY_FLOAT(ln, HELP("h"), FLAGS(FLAG_EXIT)); break;
        case B_SNULL: *o = (argus_option_t)SUBCOMMAND(NULL, okay, HELP("h")); break;
        case B_SNOHELP: *o = (argus_option_t)SUBCOMMAND(ln, okay, ACTION(act)); break;
        case B_SNOOPT: *o = (argus_option_t)SUBCOMMAND(ln, NULL, HELP("h")); break;
        case B_SHANDLER: *o = (argus_option_t)SUBCOMMAND(ln, okay, HELP("h")); o->handler = flag_handler; break;
        case B_SDEF: *o = (argus_option_t)SUBCOMMAND(ln, okay, HELP("h"), DEFAULT(1)); break;
        case B_SDEP: *o = (argus_option_t)SUBCOMMAND(ln, okay, HELP("h")); o->conflict = DM; break;
        case B_SVALID: *o = (argus_option_t)SUBCOMMAND(ln, okay, HELP("h")); o->validators = vr; break;
        case B_SREQ: *o = (argus_option_t)SUBCOMMAND(ln, okay, HELP("h"), FLAGS(FLAG_REQUIRED)); break;
        case B_GREQ: *o = (argus_option_t)GROUP_START(ln, FLAGS(FLAG_REQUIRED)); break;
        case B_SUBNOHELP: *o = (argus_option_t)SUBCOMMAND(ln, nohelp_tbl, HELP("h")); break;
        case C_SHORTZ: *o = (argus_option_t)OPTION_FLAG('z', ln, HELP("h")); break;
        case C_LONGZED: *o = (argus_option_t)OPTION_FLAG(sn, "zed", HELP("h")); break;
        case C_POSZED: *o = (argus_option_t)POSITIONAL_INT("zed", HELP("h"), OPTL); break;
        case C_SUBZED: *o = (argus_option_t)SUBCOMMAND("zed", okay, HELP("h")); break;
        case C_GROUPZED: *o = (argus_option_t)GROUP_START("zed"); break;
        case B_PDEFBAD: *o = (argus_option_t)POSITIONAL_INT(ln, HELP("h"), DEFAULT(0), OPTL); o->validators = vr; break;
        case B_TYPE: OPT(OPTION_FLAG, HELP("h")); o->type = (argus_optype_t)77; break;
        case B_SEMPTY: *o = (argus_option_t)SUBCOMMAND("", okay, HELP("h")); break;
        default: mc_fail("harness: no shape %d", k);
    }
}
/* ---- independent rules: the entries that offend, by line, with how many different offences of their own */
static struct { int line; int n; } off[64]; static unsigned noff; static bool bad;
static void offend(const argus_option_t *o, int n) { bad = true; if (!n) return; for (unsigned i = 0; i < noff; i++) if (off[i].line == o->line) { off[i].n += n; return; } if (noff < 64) { off[noff].line = o->line; off[noff++].n = n; } }
static bool legal_flags(const argus_option_t *o)
{
    unsigned option = FLAG_REQUIRED | FLAG_HIDDEN | FLAG_ADVANCED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL | FLAG_EXIT | FLAG_ENV_OVERRIDE | FLAG_AUTO_ENV | FLAG_NO_ENV_PREFIX, ok = 0;
    switch (o->type) {
        case TYPE_OPTION: ok = option; if (o->value_type & VALUE_TYPE_ARRAY) ok |= FLAG_SORTED | FLAG_UNIQUE; if (o->value_type & VALUE_TYPE_MAP) ok |= FLAG_SORTED_KEY | FLAG_SORTED_VALUE | FLAG_UNIQUE_VALUE; break;
        case TYPE_POSITIONAL: ok = FLAG_REQUIRED; if (o->value_type & VALUE_TYPE_VARIADIC) ok |= FLAG_SORTED | FLAG_UNIQUE | FLAG_DEPRECATED | FLAG_EXPERIMENTAL; break;
        case TYPE_SUBCOMMAND: ok = FLAG_HIDDEN | FLAG_ADVANCED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL; break;
        case TYPE_GROUP: ok = FLAG_EXCLUSIVE; break;
        default: break;
    }
    return !((unsigned)o->flags & ~ok);
}
static bool default_ok(const argus_option_t *o)
{
    if (!o->have_default || !o->validators || o->value_type == VALUE_TYPE_FLAG) return true;
    for (int i = 0; o->validators[i]; i++) {
        const validator_entry_t *v = o->validators[i]; const char *s = o->default_value.as_string; int64_t n = o->default_value.as_int64;
        if (v->func == range_validator && (n < v->data.range.min || n > v->data.range.max)) return false;
        if (v->func == length_validator && ((int64_t)strlen(s) < v->data.range.min || (int64_t)strlen(s) > v->data.range.max)) return false;
        if (v->func == regex_validator && (!*s || strspn(s, "a") != strlen(s))) return false;
        if (v->func == choices_string_validator) { bool f = false; for (size_t j = 0; j < v->data.choices.count; j++) f |= o->value_type == VALUE_TYPE_STRING ? !strcmp(v->data.choices.as_strings[j], s) : v->data.choices.as_ints[j] == n; if (!f) return false; }
    }
    return true;
}
static bool unsure; /* a dependency on a command or heading: nothing is documented */
static bool exists(const argus_option_t *t, const char *n) { for (const argus_option_t *q = t; q->type != TYPE_NONE; q++) if (q->type != TYPE_OPTION && q->type != TYPE_POSITIONAL && q->name && !strcmp(q->name, n)) unsure = true; for (; t->type != TYPE_NONE; t++) if ((t->type == TYPE_OPTION || t->type == TYPE_POSITIONAL) && t->name && !strcmp(t->name, n)) return true; return false; }
static void rules(const argus_option_t *t, int depth)
{
    bool help = false, sub = false, preq = false, popt = false, many = false, manyreq = false;
    for (const argus_option_t *o = t; o->type != TYPE_NONE; o++) {
        bool option = o->type == TYPE_OPTION, pos = o->type == TYPE_POSITIONAL, sc = o->type == TYPE_SUBCOMMAND;
        if (!option && !pos && !sc && o->type != TYPE_GROUP) { offend(o, 1); continue; }
        if (option && o->name && !strcmp(o->name, "help")) help = true;
        /* own offences */
        if (o->type != TYPE_GROUP && (!o->name || !*o->name)) offend(o, 1);
        if (o->sname == ' ' || o->sname == '-') offend(o, 1);
        if (option && o->lname) { if (!*o->lname) offend(o, 1); if (*o->lname == '-') offend(o, 1); if (strchr(o->lname, ' ')) offend(o, 1); if (strchr(o->lname, '.')) offend(o, 1); }
        if (option && !o->sname && !o->lname) offend(o, 1);
        if (!legal_flags(o)) offend(o, 1);
        if ((option || pos || sc) && !o->help) offend(o, 1);
        if ((option || pos) && !o->handler) offend(o, 1);
        if ((option || pos) && o->have_default && o->value_type == VALUE_TYPE_FLAG) offend(o, 1);
        if ((option || pos) && !default_ok(o)) offend(o, 1);
        if (pos && (o->flags & FLAG_REQUIRED) && o->have_default) offend(o, 1);
        if (pos && (o->require || o->conflict)) offend(o, 1);
        if (sc) { if (!o->sub_options) offend(o, 1); if (o->handler) offend(o, 1); if (o->require || o->conflict) offend(o, 1); if (o->have_default) offend(o, 1); if (o->validators) offend(o, 1); }
        if (option) {
            for (int i = 0; o->require && o->require[i]; i++) { if (!exists(t, o->require[i])) offend(o, 1); for (int j = 0; o->conflict && o->conflict[j]; j++) if (!strcmp(o->require[i], o->conflict[j])) offend(o, 1); }
            for (int i = 0; o->conflict && o->conflict[i]; i++) if (!exists(t, o->conflict[i])) offend(o, 1);
        }
        /* uniqueness */
        for (const argus_option_t *q = o + 1; q->type != TYPE_NONE; q++) {
            if (o->type == TYPE_GROUP || q->type == TYPE_GROUP) continue;
            if (o->name && q->name && !strcmp(o->name, q->name)) offend(o, 0);
            if (o->lname && q->lname && !strcmp(o->lname, q->lname)) offend(o, 0);
            if (o->sname && o->sname == q->sname) offend(o, 0);
        }
        /* placement */
        if (option && sub) offend(o, 1);
        if (sc) sub = true;
        if (pos) {
            bool req = o->flags & FLAG_REQUIRED, v = o->value_type & VALUE_TYPE_VARIADIC;
            if (many) offend(o, 0);
            if (req && popt) offend(o, 0);
            if (req) preq = true; else popt = true;
            if (v) many = true;
            if (v && req) manyreq = true;
        }
        if (sub && preq) offend(o, 0);
        if (popt && manyreq) offend(o, 0);
    }
    if (!help) bad = true;
    for (const argus_option_t *o = t; o->type != TYPE_NONE; o++) if (o->type == TYPE_SUBCOMMAND && o->sub_options) { if (depth >= 8) offend(o, 1); rules(o->sub_options, depth + 1); }
}
typedef struct { argus_option_t *t; argus_t a; } init_t;
static void body(void *p) { init_t *i = p; i->a = argus_init(i->t, "prog", "1.2"); }
static char text[1 << 16];
static uint64_t open_fds(void) { uint64_t s = 0; for (int i = 0; i < 32; i++) if (fcntl(i, F_GETFD) != -1) s |= 1ull << i; return s; }
static void check(argus_option_t *t)
{
    noff = 0; bad = unsure = false; rules(t, 0); if (unsure) return;
    init_t in = {.t = t}; int code = 0; cap_use_real_stderr(true); cap_reset(); uint64_t fd0 = open_fds();
    track_start(); bool ex = guarded(body, &in, &code); track_pause();
    size_t en, on; char *err = cap_err(&en); snprintf(text, sizeof text, "%s", err); cap_out(&on);
    if (ex && !bad) mc_fail("well-formed table rejected: %.300s", text);
    if (!ex && bad) mc_fail("malformed table accepted (%u offending entries, first at line %d); stderr: %.200s", noff, noff ? off[0].line : 0, text);
    if (ex) {
        if (code == 0) mc_fail("rejection ends with status 0");
        if (!en) mc_fail("rejection without a report");
        for (unsigned i = 0; i < noff; i++) { char k[24]; int n = 0; sprintf(k, "T:%d ", off[i].line); for (char *p = text; (p = strstr(p, k)); p += strlen(k)) n++; if (n < off[i].n) mc_fail("entry %d has %d offences of its own, %d reported:\n%.600s", off[i].line, off[i].n, n, text); }
    } else {
        if (en) mc_fail("accepting a table writes to standard error: %.200s", text);
        if (on) mc_fail("accepting a table writes to standard output");
        if (in.a.options != t || strcmp(in.a.program_name, "prog") || strcmp(in.a.version, "1.2") || in.a.error_code) mc_fail("accepted context is not initialised");
        fputs("x", stderr); err = cap_err(&en); if (en != 1) mc_fail("standard error does not work after initialisation");
    }
    uint64_t fd1 = open_fds(); if (fd1 != fd0) mc_fail("validation left file descriptors open or closed: set 0x%llx before, 0x%llx after", (unsigned long long)fd0, (unsigned long long)fd1);
    if (track_live()) mc_fail("%zu allocations remain after validation", track_live());
    mc_exec(1); mc_trans((uint64_t)tbl_len(t)); mc_state(mc_mix(mc_mix(bad, noff), noff ? (uint64_t)off[0].line * 64 + (uint64_t)off[0].n : 0));
    cap_use_real_stderr(false);
}
static void number(argus_option_t *t, int lv) { int i = 0; for (;; i++) { t[i].file = "T"; t[i].line = 1000 * (lv + 1) + i; if (t[i].type == TYPE_NONE) break; } }
static void prepare(void) { okay[0] = E_help; okay[0].file = nohelp_tbl[0].file = "T"; okay[0].line = 9000; okay[1] = nohelp_tbl[1] = (argus_option_t)OPTION_END(); nohelp_tbl[0] = (argus_option_t)OPTION_FLAG('q', "quux", HELP("h")); nohelp_tbl[0].file = "T"; nohelp_tbl[0].line = 9100; }
/* place n entries of kinds k[] at level lv in a table with help mode hm: 0 first 1 last(before the first command) 2 missing */
static argus_option_t tb[3][16];
static void build(int lv, int n, const unsigned *k, int hm)
{
    int e = 0; if (hm == 0) tb[lv][e++] = E_help;
    for (int i = 0; i < n; i++) make(&tb[lv][e++], (int)k[i], lv, i);
    if (hm == 1) tb[lv][e++] = E_help;
    tb[lv][e] = (argus_option_t)OPTION_END(); number(tb[lv], lv);
}
static void wrap(int lv)
{
    for (int l = lv - 1; l >= 0; l--) {
        int e = 0; tb[l][e++] = E_help; tb[l][e++] = (argus_option_t)OPTION_STRING('s', "str", HELP("h")); tb[l][e++] = (argus_option_t)SUBCOMMAND("first", okay, HELP("h"));
        tb[l][e++] = (argus_option_t)SUBCOMMAND("nest", tb[l + 1], HELP("h")); if (l & 1) tb[l][e - 1].action = act; tb[l][e++] = (argus_option_t)SUBCOMMAND("last", okay, HELP("h")); tb[l][e] = (argus_option_t)OPTION_END(); number(tb[l], l);
    }
}
static unsigned L, PL;
static void tables(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); int hm = (int)(idx % 3); idx /= 3; unsigned k[8], n = seq_decode(idx, NCAT, L, k); NOTE("help=%d entries:", hm); for (unsigned i = 0; i < n; i++) NOTE(" %u", k[i]);
    if (n >= 3 && hm == 2 && L == 3) return;
    build(0, (int)n, k, hm); check(tb[0]);
}
static void nested(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); int hm = (int)(idx % 3); idx /= 3; int lv = 1 + (int)(idx % 2); idx /= 2; unsigned k[8], n = seq_decode(idx, NCAT, 2, k); NOTE("level=%d help=%d entries:", lv, hm); for (unsigned i = 0; i < n; i++) NOTE(" %u", k[i]);
    build(lv, (int)n, k, hm); wrap(lv); check(tb[0]);
}
static void placement(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); static const unsigned PK[] = {K_FLAG, K_PREQ, K_POPT, K_MREQ, K_MOPT, K_SUB, K_GROUP, K_GEND}; int lv = (int)(idx % 2); idx /= 2; unsigned k[8], n = seq_decode(idx, 8, PL, k);
    NOTE("placement level=%d:", lv); for (unsigned i = 0; i < n; i++) { k[i] = PK[k[i]]; NOTE(" %u", k[i]); }
    build(lv, (int)n, k, 0); if (lv) wrap(lv); check(tb[0]);
}
static void flags(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); static const unsigned FK[] = {K_FLAG, K_LONG, K_STR, K_ARR, K_MAP, K_POPT, K_MOPT, K_SUB, K_GROUP}; unsigned f = (unsigned)(idx & 0x7fff), k = FK[idx >> 15]; NOTE("flags 0x%x on kind %u", f, k);
    build(0, 1, &k, 0); tb[0][1].flags = (argus_optflags_t)f; check(tb[0]);
}
/* two violations at two levels of a deep chain; and every depth */
static void chain(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); int depth = (int)(idx % 10) + 1; idx /= 10; int l1 = (int)(idx % 10); idx /= 10; unsigned k1 = (unsigned)(idx % NCAT); idx /= NCAT; unsigned k2 = (unsigned)(idx % 10); int l2 = (int)(idx / 10);
    static const unsigned K2[] = {K_FLAG, B_NOHELP, B_SSP, B_REQMISS, B_DRANGE, B_PHIDDEN, B_SNOOPT, B_SUBNOHELP, B_ARRKEY, C_SHORTZ}; if (l1 > depth || l2 > depth || (l2 && k2 == 0)) return;
    static argus_option_t t[12][6]; static char names[12][8]; NOTE("depth=%d entry %u at level %d, entry %u at level %d", depth, k1, l1, K2[k2], l2);
    for (int l = depth; l >= 0; l--) {
        int e = 0; t[l][e++] = E_help; argus_option_t a, b; make(&a, (int)k1, 0, 0); make(&b, (int)K2[k2], 0, 1); bool asub = a.type == TYPE_SUBCOMMAND, bsub = b.type == TYPE_SUBCOMMAND;
        if (l == l1 && !asub) t[l][e++] = a;
        if (l == l2 && !bsub) t[l][e++] = b;
        if (l < depth) { sprintf(names[l], "cmd%d", l); t[l][e++] = (argus_option_t)SUBCOMMAND(names[l], t[l + 1], HELP("h")); if ((l ^ depth) & 1) t[l][e - 1].action = act; }
        if (l == l1 && asub) t[l][e++] = a;
        if (l == l2 && bsub) t[l][e++] = b;
        t[l][e] = (argus_option_t)OPTION_END(); number(t[l], l);
    }
    check(t[0]);
}
/* names: every character as short name and at each place of long names */
static void naming(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); unsigned ch = (unsigned)(idx % 256), where = (unsigned)(idx / 256 % 5); if (ch == 0 && where) return; if (ch == '=' ) return;
    unsigned k = K_FLAG; build(0, 1, &k, 0); static char ln[8]; NOTE("character 0x%02x at place %u", ch, where);
    if (where == 0) tb[0][1].sname = (char)ch; else { strcpy(ln, where == 4 ? "x" : "abc"); if (where == 4) ln[0] = (char)ch; else ln[where - 1] = (char)ch; tb[0][1].lname = tb[0][1].name = ln; }
    check(tb[0]);
}
/* duplicate names among four entries of every kind */
static void duplicates(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); static const unsigned DK[] = {K_FLAG, K_POPT, K_SUB, K_GROUP, K_SHORT, K_LONG}; static char two[3][4] = {"aa", "bb", "cc"}; unsigned k[3], nmz[3], sn[3]; 
    for (int i = 0; i < 3; i++) { k[i] = DK[idx % 6]; idx /= 6; nmz[i] = (unsigned)(idx % 3); idx /= 3; sn[i] = (unsigned)(idx % 3); idx /= 3; }
    build(0, 3, k, 0); NOTE("duplicates"); for (int i = 0; i < 3; i++) { argus_option_t *o = &tb[0][i + 1]; NOTE(" %u/%s/%u", k[i], two[nmz[i]], sn[i]); if (o->lname) { o->lname = o->name = two[nmz[i]]; } else if (!o->sname) o->name = two[nmz[i]]; if (o->sname) { static const char S[] = "xyh"; o->sname = S[sn[i]]; static char s1[3][2]; if (!o->lname) { s1[i][0] = o->sname; o->name = s1[i]; } } }
    check(tb[0]);
}
/* only an option called exactly "help" is the help option of a table */
static const char *HN[] = {"help", "hel", "helper", "help2", "Help", "HELP", "helP", "h", "xhelp", "-help", "he", "help-me", "helphelp", "H", "?", "halp"};
static void helpnames(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); const char *n = HN[idx % 16]; idx /= 16; static const unsigned HK[] = {K_FLAG, K_STR, K_POPT, K_SUB, K_GROUP, K_LONG}; unsigned k = HK[idx % 6]; idx /= 6; static const char SN[] = {0, 'h', 'H', 'x'}; char sn = SN[idx % 4]; idx /= 4; int lv = (int)(idx % 4); bool exitflag = idx / 4;
    NOTE("entry of kind %u named '%s' (short '%c')%s is the only candidate for the help option at level %d", k, n, sn ? sn : '0', exitflag ? " ends the program" : "", lv % 3); unsigned ks[2] = {k, K_STR}; 
    build(lv % 3, lv == 3 ? 2 : 1, ks, 2); argus_option_t *o = &tb[lv % 3][0]; o->name = n; if (k == K_FLAG || k == K_STR || k == K_LONG) { o->lname = n; o->sname = sn; if (exitflag) { o->flags |= FLAG_EXIT; if (k != K_STR) o->handler = help_handler; } } wrap(lv % 3); check(tb[0]);
}
/* names that are equal, prefixes of each other, or differ in one place or in case only */
static const char *PN[] = {"a", "b", "aa", "ab", "ba", "bb", "aaa", "aab", "aba", "abb", "baa", "bab", "bba", "bbb", "A", "Aa", "aA", "AB", "a-b", "a_b", "help", "hel", "helpx", "Help", "verbose-mode", "verbose-mod", "verbose_mode", "a-", "a1", "a2", "1a", "a12", "\xc3\xa9", "\xc3\xa8", "o9", "o99"};
static void pairs(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); static const unsigned DK[] = {K_FLAG, K_POPT, K_SUB, K_GROUP, K_LONG, K_MOPT, K_STR}; const char *n1 = PN[idx % 36]; idx /= 36; const char *n2 = PN[idx % 36]; idx /= 36; unsigned k[3] = {DK[idx % 7], K_GROUP, DK[idx / 7 % 7]}; int lv = (int)(idx / 49);
    NOTE("level %d: kinds %u '%s' and %u '%s'", lv, k[0], n1, k[2], n2); build(lv, 3, k, 0);
    for (int i = 0; i < 3; i += 2) { argus_option_t *o = &tb[lv][i + 1]; o->name = i ? n2 : n1; if (o->lname) o->lname = o->name; } wrap(lv); check(tb[0]);
}
/* dependency lists of the middle option over existing, missing and repeated names */
static void deps(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); static const char *N[] = {"o0", "o2", "o3", "missing", "O0", "o", "o20"}; unsigned kinds[4] = {K_FLAG, K_FLAG, K_STR, K_POPT}, a[4], b[4]; uint64_t c3 = seq_count(7, 3);
    unsigned na = seq_decode(idx % c3, 7, 3, a), nb = seq_decode(idx / c3, 7, 3, b); const char *R[4] = {0}, *C[4] = {0}; NOTE("require:"); for (unsigned i = 0; i < na; i++) { R[i] = N[a[i]]; NOTE(" %s", R[i]); } NOTE(" conflict:"); for (unsigned i = 0; i < nb; i++) { C[i] = N[b[i]]; NOTE(" %s", C[i]); }
    build(0, 4, kinds, 0); if (na) tb[0][2].require = R; if (nb) tb[0][2].conflict = C; check(tb[0]);
}
/* defaults against validators */
static void defaults(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); int d = (int)(idx % 9); idx /= 9; int lo = (int)(idx % 4), hi = lo + (int)(idx / 4 % 4); idx /= 16; bool pos = idx & 1; idx /= 2; unsigned which = (unsigned)(idx % 3), order = (unsigned)(idx / 3 % 2); NOTE("default %d range %d..%d kind %u %s order %u", d, lo, hi, which, pos ? "positional" : "option", order);
    validator_entry_t v = {.func = which == 0 ? range_validator : length_validator, .order = ORDER_POST}, w = {.func = regex_validator, .order = ORDER_PRE}; v.data.range.min = lo; v.data.range.max = hi; w.data.regex.pattern = "^a+$"; validator_entry_t *vs[] = {order ? &w : &v, order ? &v : &w, NULL}; if (which == 0) { vs[0] = &v; vs[1] = NULL; } if (which == 1) { vs[0] = &v; vs[1] = NULL; }
    static const char *S[] = {"", "a", "aa", "aaa", "aaaa", "aaaaa", "b", "ab", "ba"}; unsigned k = pos ? (which == 0 ? K_POPT : K_PDEF) : (which == 0 ? K_INT : K_STR); build(0, 1, &k, 0); argus_option_t *o = &tb[0][1];
    o->have_default = o->is_set = true; o->default_value = o->value = which == 0 ? (argus_value_t){.as_int64 = d - 1} : (argus_value_t){.as_string = (char *)S[d]}; o->validators = vs; check(tb[0]);
}
/* tables of n entries with one thing wrong (or nothing) that concerns places i and j */
static argus_option_t wt[112], wsub[102][3]; static char wn_[104][12]; static const char *wlist[104];
static void wide(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); static const int NS[] = {2, 3, 5, 8, 9, 16, 17, 31, 32, 33}; int n = NS[idx % 10]; idx /= 10; int i = (int)(idx % 33), j = (int)(idx / 33 % 33); idx /= 1089; unsigned mode = (unsigned)(idx % 11), lv = (unsigned)(idx / 11); if (i >= n || j >= n || i == j) return; int e = 0; wt[e++] = E_help; static const char *R[2]; R[1] = NULL;
    for (int k = 0; k < n; k++, e++) { sprintf(wn_[k], "opt-%02d", k); wt[e] = (argus_option_t)OPTION_INT((char)(k < 26 ? 'A' + k : 'a' + k - 26 + (k - 26 >= 7)), wn_[k], HELP("h")); }
    argus_option_t *a = &wt[1 + i], *b = &wt[1 + j]; int nb = 0; for (int k = 0; k < n; k++) if (k != i) wlist[nb++] = wn_[k]; wlist[nb] = NULL;
    switch (mode) {
        case 0: b->sname = a->sname; break; case 1: b->lname = a->lname; b->name = a->name; break; case 2: b->lname = NULL; b->name = a->name; break; case 3: R[0] = wn_[j]; a->require = R; break; case 4: R[0] = wn_[j]; a->conflict = R; break;
        case 5: a->require = wlist; R[0] = wn_[j]; a->conflict = R; break; case 6: a->require = wlist; wlist[j < nb ? j : 0] = "missing"; break; case 7: a->conflict = wlist; wlist[j < nb ? j : 0] = "opt-0"; break; case 8: a->require = wlist; break; case 9: if (j > 10) return; *a = (argus_option_t){0}; make(a, B_SSP + j, 0, 0); { static char own[8]; strcpy(own, "own"); if (a->lname && a->lname == a->name && a->lname[0] == 'o') a->lname = a->name = own; } break;
        default: a->help = NULL; b->handler = NULL; }
    wt[e] = (argus_option_t)OPTION_END(); number(wt, 0); NOTE("%d options, level %u, case %u about places %d and %d", n, lv, mode, i, j);
    if (!lv) { check(wt); return; } for (int l = 0; l < (int)lv; l++) { int q = 0; argus_option_t *d = tb[l]; d[q++] = E_help; d[q++] = (argus_option_t)SUBCOMMAND("first", okay, HELP("h")); d[q++] = (argus_option_t)SUBCOMMAND("nest", l + 1 < (int)lv ? tb[l + 1] : wt, HELP("h")); d[q] = (argus_option_t)OPTION_END(); number(d, 5 + l); } number(wt, 0); check(tb[0]);
}
/* n commands, the i-th with a flawed table or itself flawed */
static void commands(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); int n = (int)(idx % 60) + 1; idx /= 60; int i = (int)(idx % 60); unsigned mode = (unsigned)(idx / 60); if (i >= n) return; int e = 0; wt[e++] = E_help; NOTE("%d commands, the %d-th flawed in way %u", n, i, mode);
    for (int k = 0; k < n; k++, e++) { sprintf(wn_[k], "cmd-%02d", k); wsub[k][0] = E_help; wsub[k][1] = (argus_option_t)OPTION_FLAG('x', "xx", HELP("h")); wsub[k][2] = (argus_option_t)OPTION_END(); wt[e] = (argus_option_t)SUBCOMMAND(wn_[k], wsub[k], HELP("h"), ACTION(act)); }
    argus_option_t *a = &wt[1 + i], *s = &wsub[i][1]; switch (mode) { case 0: break; case 1: s->help = NULL; break; case 2: s->sname = 'h'; break; case 3: s->lname = s->name = "help"; break; case 4: wsub[i][0] = *s; wsub[i][1] = (argus_option_t)OPTION_END(); break; case 5: a->sub_options = NULL; break; case 6: a->name = wn_[(i + 1) % n]; break; case 7: a->help = NULL; break; case 8: s->lname = "x.x"; break; default: a->flags |= FLAG_REQUIRED; }
    wt[e] = (argus_option_t)OPTION_END(); number(wt, 0); for (int k = 0; k < n; k++) number(wsub[k], 1 + k); check(wt);
}
/* defaults under lists of 1..40 validators, choice sets of 1..60; the default offends number p or none */
static void longdefs(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); int n = (int)(idx % 60) + 1; idx /= 60; int p = (int)(idx % 61); unsigned mode = (unsigned)(idx / 61); if (p > n) return; static validator_entry_t good, evil, ch; static validator_entry_t *vs[62]; static char st[60][16]; static char *ss[60]; static int64_t is[60]; memset(vs, 0, sizeof vs);
    good = (validator_entry_t){.func = range_validator, .order = ORDER_POST, .formatter = format_range_validator}; evil = good; good.data.range.max = 9; evil.data.range.max = 4; ch = (validator_entry_t){.order = ORDER_POST, .formatter = format_choices_validator}; ch.data.choices.count = (size_t)n;
    unsigned k = mode == 1 ? K_STR : K_INT; build(0, 1, &k, 0); argus_option_t *o = &tb[0][1]; o->have_default = o->is_set = true; o->default_value = o->value = (argus_value_t){.as_int64 = 7}; NOTE("default, mode %u, %d, place %d", mode, n, p);
    if (mode == 0) for (int q = 0; q < n; q++) vs[q] = q == p ? &evil : &good; else { vs[0] = &ch; ch.func = mode == 1 ? choices_string_validator : choices_int_validator; for (int q = 0; q < n; q++) { sprintf(st[q], "choice-%02d", q); ss[q] = st[q]; is[q] = q * 4294967296ll + 3; } static char want[16]; sprintf(want, "choice-%02d", p); if (mode == 1) { ch.data.choices.as_strings = ss; ch.data.choices.type = VALUE_TYPE_STRING; o->default_value = o->value = (argus_value_t){.as_string = want}; } else { ch.data.choices.as_ints = is; ch.data.choices.type = VALUE_TYPE_INT; o->default_value = o->value = (argus_value_t){.as_int64 = p * 4294967296ll + (mode == 3 ? 4 : 3)}; } if (mode == 2 || mode == 3) { static validator_entry_t intch; intch = ch; vs[0] = &intch; bool in = mode == 2 && p < n; o->validators = vs; noff = 0; bad = !in; /* judged here: the rules know string sets only */
        init_t it = {.t = tb[0]}; int code = 0; cap_use_real_stderr(true); cap_reset(); bool ex = guarded(body, &it, &code); size_t en; cap_err(&en); cap_use_real_stderr(false); if (ex != bad) mc_fail("default %s of %d integers %s", in ? "out" : "not", n, ex ? "rejected" : "accepted"); if (ex && (!code || !en)) mc_fail("rejection with status %d and %zu bytes of report", code, en); mc_exec(1); mc_state(mc_mix(bad, 7)); mc_trans(1); return; } }
    o->validators = vs; check(tb[0]);
}
/* defaults of every size up to 1 MiB that are accepted or refused by each kind of validator, which quotes them */
static char *hugetext;
static int loud(argus_t *a, void *o, validator_data_t d) { (void)a; (void)o; for (int i = 0; i < 1000; i++) fprintf(stderr, "%0*d\n", 200, i); return d.custom ? ARGUS_ERROR_INVALID_VALUE : 0; }
static void hugedefs(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); unsigned mode = (unsigned)(idx % 5); idx /= 5; bool bad = idx % 2; idx /= 2; unsigned nv = 1 + (unsigned)(idx % 3); idx /= 3; size_t n = (size_t)1 << (idx / 3); n += idx % 3 - 1; if (!n) return;
    if (!hugetext) hugetext = malloc((1 << 20) + 8); memset(hugetext, 'a', n); hugetext[n] = 0; if (bad) hugetext[n / 2] = 'b'; static char one[2] = "x"; char *cs[] = {one, hugetext};
    validator_entry_t v = {.func = regex_validator, .order = ORDER_PRE, .formatter = format_regex_validator}; v.data.regex.pattern = "^a+$"; validator_entry_t *vs[] = {&v, nv > 1 ? &v : NULL, nv > 2 ? &v : NULL, NULL};
    if (mode == 1) { v = (validator_entry_t){.func = length_validator, .order = ORDER_POST, .formatter = format_length_validator}; v.data.range.min = bad ? (int64_t)n + 1 : 0; v.data.range.max = (int64_t)n + 2; }
    if (mode == 2) { v = (validator_entry_t){.func = choices_string_validator, .order = ORDER_POST, .formatter = format_choices_validator}; v.data.choices.as_strings = cs; v.data.choices.count = bad ? 1 : 2; v.data.choices.type = VALUE_TYPE_STRING; }
    if (mode == 3) { v = (validator_entry_t){.func = choices_string_validator, .order = ORDER_POST, .formatter = format_choices_validator}; cs[0] = hugetext; cs[1] = one; if (bad) n = 1; v.data.choices.as_strings = cs; v.data.choices.count = bad ? 2 : 1; v.data.choices.type = VALUE_TYPE_STRING; }
    if (mode == 4) { v = (validator_entry_t){.func = loud, .order = ORDER_POST}; v.data.custom = bad; }
    unsigned k = K_STR; build(0, 1, &k, 0); argus_option_t *o = &tb[0][1]; o->have_default = o->is_set = true; o->default_value = o->value = (argus_value_t){.as_string = mode == 3 && bad ? (char *)"none of them" : hugetext}; o->validators = vs; NOTE("default of %zu bytes, %u validators of kind %u, %s", n, nv, mode, bad ? "bad" : "good");
    init_t it = {.t = tb[0]}; int code = 0; cap_use_real_stderr(true); cap_reset(); bool ex = guarded(body, &it, &code); size_t en; cap_err(&en); cap_use_real_stderr(false);
    if (ex != bad) mc_fail("%s", ex ? "rejected" : "accepted"); if (ex && (!code || !en)) mc_fail("rejection with status %d and %zu bytes of report", code, en); if (!ex && en) mc_fail("acceptance with %zu bytes of output", en); mc_exec(1); mc_trans(1); mc_state(mc_mix(mc_mix(n, mode), bad));
}
/* placement rules for entries that carry every mark legal on them */
static void marked(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); static const struct { unsigned k, f; } MKD[] = {{K_FLAG, FLAG_EXPERIMENTAL | FLAG_DEPRECATED}, {K_PREQ, 0}, {K_POPT, 0}, {K_MREQ, FLAG_EXPERIMENTAL}, {K_MREQ, FLAG_DEPRECATED | FLAG_SORTED}, {K_MOPT, FLAG_EXPERIMENTAL | FLAG_UNIQUE}, {K_MOPT, FLAG_DEPRECATED}, {K_SUB, FLAG_HIDDEN}, {K_SUB, FLAG_EXPERIMENTAL}, {K_SUB, FLAG_DEPRECATED | FLAG_ADVANCED}, {K_STR, FLAG_REQUIRED}, {K_INT, FLAG_HIDDEN | FLAG_ADVANCED}};
    int lv = (int)(idx % 2); idx /= 2; unsigned k[8], kk[8], n = seq_decode(idx, 12, PL - 2, k); NOTE("marked placement level=%d:", lv); for (unsigned i = 0; i < n; i++) { NOTE(" %u", k[i]); kk[i] = MKD[k[i]].k; }
    build(lv, (int)n, kk, 0); for (unsigned i = 0; i < n; i++) tb[lv][i + 1].flags |= (argus_optflags_t)MKD[k[i]].f; if (lv) wrap(lv); check(tb[0]);
}
/* two options of any types sharing short, long and internal names in any combination, any distance apart */
static void shared(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); unsigned share = (unsigned)(idx % 8); idx /= 8; unsigned t1 = (unsigned)(idx % 14); idx /= 14; unsigned t2 = (unsigned)(idx % 14); idx /= 14; unsigned d = (unsigned)(idx % 4); idx /= 4; unsigned fl = (unsigned)(idx % 5); int lv = (int)(idx / 5);
    NOTE("types %u and %u share %s%s%s, %u between, marks %u, level %d", t1, t2, share & 1 ? "short " : "", share & 2 ? "long " : "", share & 4 ? "internal" : "", d, fl, lv); unsigned k[6]; for (unsigned i = 0; i < 6; i++) k[i] = K_FLAG; build(lv, (int)d + 2, k, 0);
    for (int i = 0; i < 2; i++) {
        argus_option_t *o = &tb[lv][1 + (i ? d + 1 : 0)]; unsigned t = i ? t2 : t1; static char own[2][8] = {"first", "secnd"}; char *ln = share & 2 ? "same" : own[i]; char sn = share & 1 ? fl == 4 ? (char)0xe9 : 'x' : (char)('p' + i);
        switch (t) { case 0: OPT(OPTION_FLAG, HELP("h")); break; case 1: OPT(OPTION_STRING, HELP("h")); break; case 2: OPT(OPTION_INT, HELP("h")); break; case 3: OPT(OPTION_FLOAT, HELP("h")); break; case 4: OPT(OPTION_BOOL, HELP("h")); break; case 5: OPT(OPTION_ARRAY_STRING, HELP("h")); break; case 6: OPT(OPTION_ARRAY_INT, HELP("h")); break; case 7: OPT(OPTION_ARRAY_FLOAT, HELP("h")); break; case 8: OPT(OPTION_MAP_STRING, HELP("h")); break; case 9: OPT(OPTION_MAP_INT, HELP("h")); break; case 10: OPT(OPTION_MAP_FLOAT, HELP("h")); break; case 11: OPT(OPTION_MAP_BOOL, HELP("h")); break;
            case 12: *o = (argus_option_t)POSITIONAL_INT(ln, HELP("h"), OPTL); o->sname = 0; break; default: *o = (argus_option_t)SUBCOMMAND(ln, okay, HELP("h")); }
        o->name = share & 4 ? "inner" : i ? "in-b" : "in-a"; if (t < 12) { if (fl == 1 && i) o->flags |= FLAG_HIDDEN | FLAG_EXPERIMENTAL; if (fl == 2 && !i) o->flags |= FLAG_REQUIRED | FLAG_DEPRECATED; if (fl == 3) o->flags |= FLAG_HIDDEN | FLAG_ADVANCED | FLAG_DEPRECATED | FLAG_ENV_OVERRIDE | FLAG_EXIT; }
    }
    number(tb[lv], lv); if (lv) wrap(lv); check(tb[0]);
}
/* large tables: two entries up to 500 places apart that share a name, or of which one depends on the other */
static void vast(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); static const int NV[] = {40, 65, 100, 128, 129, 200, 257, 500}; int n = NV[idx % 8]; idx /= 8; static const int IV[] = {0, 1, 7, 31, 32, 63, 64, 99, 127, 128, 199, 255, 256, 300, 498, 499}; int i = IV[idx % 16]; idx /= 16; int j = IV[idx % 16]; idx /= 16; unsigned mode = (unsigned)(idx % 9), lv = (unsigned)(idx / 9); if (i >= n || j >= n || i == j) return;
    static argus_option_t t[504]; static char nv[500][12]; int e = 0; t[e++] = E_help; static const char *R[2]; R[1] = NULL; bool cmds = mode >= 7; for (int k = 0; k < n; k++, e++) { sprintf(nv[k], "opt-%03d", k); t[e] = cmds ? (argus_option_t)SUBCOMMAND(nv[k], okay, HELP("h")) : (argus_option_t)OPTION_INT(0, nv[k], HELP("h")); }
    argus_option_t *a = &t[1 + i], *b = &t[1 + j]; NOTE("%d entries, level %u, case %u about places %d and %d", n, lv, mode, i, j); static char gone[] = "opt-999";
    switch (mode) { case 0: a->sname = b->sname = 'x'; break; case 1: b->lname = a->lname; break; case 2: b->name = a->name; break; case 3: R[0] = nv[j]; a->require = R; break; case 4: R[0] = nv[j]; a->conflict = R; break; case 5: R[0] = gone; a->require = R; b->help = NULL; break; case 6: a->help = NULL; b->handler = NULL; break; case 7: b->name = a->name; break; default: a->help = NULL; b->sub_options = nohelp_tbl; }
    t[e] = (argus_option_t)OPTION_END(); number(t, 0); if (lv) { int q = 0; argus_option_t *d = tb[0]; d[q++] = E_help; d[q++] = (argus_option_t)SUBCOMMAND("nest", t, HELP("h")); d[q] = (argus_option_t)OPTION_END(); number(d, 5); check(d); } else check(t);
}
/* every kind of entry, every pair of kinds and every small dependency list, under every flag on one of the entries */
static void kinds_flags(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); unsigned f = (unsigned)(idx % 15), g = (unsigned)(idx / 15 % 15); idx /= 225; unsigned k = (unsigned)(idx % NCAT); int lv = (int)(idx / NCAT); if (g > f) return;
    NOTE("kind %u under flags 0x%x at level %d", k, 1u << f | 1u << g, lv); build(lv, 1, &k, 0); tb[lv][1].flags |= (argus_optflags_t)(1u << f | 1u << g); if (lv) wrap(lv); check(tb[0]);
}
static void pairs_flags(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); unsigned f = (unsigned)(idx % 15); idx /= 15; unsigned on = (unsigned)(idx % 3) + 1; idx /= 3; unsigned k[2] = {(unsigned)(idx % NCAT), (unsigned)(idx / NCAT)};
    NOTE("kinds %u and %u, flag 0x%x on %u", k[0], k[1], 1u << f, on); build(0, 2, k, 0); for (int i = 0; i < 2; i++) if (on >> i & 1) tb[0][1 + i].flags |= (argus_optflags_t)(1u << f); check(tb[0]);
}
static void deps_flags(uint64_t idx, const void *arg)
{
    (void)arg; prepare(); static const char *N[] = {"o0", "o2", "o3", "missing", "O0", "o", "o20"}; unsigned f = (unsigned)(idx % 15); idx /= 15; unsigned mk = (unsigned)(idx % 4); idx /= 4; static const unsigned MK[] = {K_FLAG, K_STR, K_INT, K_ARR}; unsigned kinds[4] = {K_FLAG, MK[mk], K_STR, K_POPT}, a[4], b[4]; uint64_t c2 = seq_count(7, 2);
    unsigned na = seq_decode(idx % c2, 7, 2, a), nb = seq_decode(idx / c2, 7, 2, b); const char *R[4] = {0}, *C[4] = {0}; NOTE("flag 0x%x require:", 1u << f); for (unsigned i = 0; i < na; i++) { R[i] = N[a[i]]; NOTE(" %s", R[i]); } NOTE(" conflict:"); for (unsigned i = 0; i < nb; i++) { C[i] = N[b[i]]; NOTE(" %s", C[i]); }
    build(0, 4, kinds, 0); if (na) tb[0][2].require = R; if (nb) tb[0][2].conflict = C; tb[0][2].flags |= (argus_optflags_t)(1u << f); check(tb[0]);
}
void mc_register(int thorough)
{
    mc_space("vast", 8ull * 16 * 16 * 9 * 2, vast, NULL);
    L = thorough ? 4 : 3; PL = thorough ? 7 : 6;
    mc_space("tables", seq_count(NCAT, L) * 3, tables, NULL);
    mc_space("nested tables", seq_count(NCAT, 2) * 6, nested, NULL);
    mc_space("placement", seq_count(8, PL) * 2, placement, NULL);
    mc_space("flags", 9u << 15, flags, NULL);
    mc_space("chains", 10ull * 10 * NCAT * 10 * 10, chain, NULL);
    mc_space("names", 256 * 5, naming, NULL);
    mc_space("duplicates", 54 * 54 * 54, duplicates, NULL);
    mc_space("dependencies", seq_count(7, 3) * seq_count(7, 3), deps, NULL);
    mc_space("help names", sizeof HN / sizeof *HN * 6 * 4 * 4 * 2, helpnames, NULL); mc_space("name pairs", 36ull * 36 * 49 * 2, pairs, NULL);
    mc_space("kinds under flags", 225ull * NCAT * 3, kinds_flags, NULL); mc_space("pairs under flags", 45ull * NCAT * NCAT, pairs_flags, NULL); mc_space("dependencies under flags", 60ull * seq_count(7, 2) * seq_count(7, 2), deps_flags, NULL);
    mc_space("defaults", 9 * 16 * 2 * 6, defaults, NULL);
    mc_space("wide", 10ull * 1089 * 11 * 3, wide, NULL); mc_space("many commands", 60 * 60 * 10, commands, NULL); mc_space("long defaults", 60 * 61 * 4, longdefs, NULL); mc_space("marked placement", seq_count(12, PL - 2) * 2, marked, NULL); mc_space("shared names", 8ull * 14 * 14 * 4 * 5 * 2, shared, NULL); mc_space("huge defaults", 5 * 2 * 3 * 3 * 20, hugedefs, NULL);
}
