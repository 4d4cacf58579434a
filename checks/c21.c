/* C21: help layout never loses text, loops or overflows for any widths and texts. */
#include "model.h"
const char *mc_property = "C21";
const char *mc_bounds =
    "all help texts of up to 8 (11) characters over {letter, space, newline} x all line widths from 0 to beyond the text x description columns 0, 3, 6 (thorough 0, 1, 3, 6, 9); "
    "every combination of description column 0..12 (0..20), indent, name length 1..16 (1..24), line width 0..24 (0..40), entry kind and a set of texts; long texts of every length up to 200 (400) made of words of every length 1..40 under ordinary, narrow and degenerate widths; texts of up to 900 characters under every line width up to 700; texts around one and two full lines for thirty widths up to 100000.  "
    "The printed entry is read back: name, position of the description, and the text reassembled line by line.";
static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
static argus_helper_config_t CFG;
static void tweak(argus_t *a) { a->helper.config = CFG; }
static void show(void *p) { argus_print_help(p); }
static argus_option_t leaf[2];
static void run(argus_option_t *t, const char *head, const char *name, const char *text, const char *tail)
{
    dcase_t c = {.tmpl = t, .tweak = tweak}; drun_t r; d_begin(&r, &c); int code; size_t n; cap_reset(); track_start();
    if (guarded(show, &r.argus, &code)) mc_fail("help ended the program");
    track_pause(); if (track_live()) mc_fail("printing help leaks %zu allocations", track_live());
    char *out = cap_out(&n), *p = out; size_t col = CFG.description_column, width = CFG.max_line_width, ind = CFG.option_indent, tl = strlen(text), at = 0; bool room = width > col + 2;
#define BAD(...) do { mc_note("\n--- printed:\n%.800s\n---\n", out); mc_fail(__VA_ARGS__); } while (0)
    if (strlen(out) != n) BAD("zero byte in the output");
    if (strncmp(p, head, strlen(head))) BAD("the section does not start with its heading");
    p += strlen(head);
    if (strspn(p, " ") != ind || strncmp(p + ind, name, strlen(name))) BAD("entry does not start with its name at the indent");
    p += ind + strlen(name); size_t here = ind + strlen(name), sp = strspn(p, " ");
    /* where the description starts: at the column, on this line or the next */
    if (p[sp] == '\n') { p += sp + 1; here = 0; sp = strspn(p, " "); }
    if (strncmp(p + sp, "- ", 2)) BAD("no description marker after the name");
    if (room && here + sp != col) BAD("description starts at column %zu, configured %zu", here + sp, col);
    if (here && sp < 1) BAD("no gap between name and description");
    p += sp + 2;
    size_t lines = 0; static char line[1 << 17];
    for (;; lines++) {
        size_t len = strcspn(p, "\n"); if (!p[len]) BAD("the description does not end with a newline");
        if (lines) {
            size_t m = col + 2; if (strspn(p, " ") < m) BAD("continuation line %zu is indented %zu, expected %zu", lines, strspn(p, " "), m);
            p += m; len -= m;
        }
        if (len >= sizeof line) BAD("harness: line too long");
        memcpy(line, p, len); line[len] = 0; p += len + 1;
        if (len > tl - at || strncmp(text + at, line, len)) BAD("line %zu '%s' is not the next part of the text at offset %zu of '%s'", lines, line, at, text);
        if (room && col + 2 + len > width) BAD("line %zu is %zu columns wide, limit %zu", lines, col + 2 + len, width);
        at += len; if (at == tl) break;
        if (text[at] == '\n' || text[at] == ' ') { if (++at == tl) { if (*p == '\n' && !strcmp(p + 1, tail)) p++; break; } continue; }
        if (room && len > 1 && memchr(line + 1, ' ', len - 1)) BAD("line %zu '%s' is broken inside a word although it has a space", lines, line);
        if (room && col + 2 + len < width) BAD("line %zu is broken inside a word although the line is not full", lines);
        if (!room || !len) BAD("line %zu is broken at offset %zu inside a word", lines, at);
    }
    if (at != tl) BAD("text ends at offset %zu of %zu", at, tl);
    if (strcmp(p, tail)) BAD("unexpected output after the description: '%.60s'", p);
    mc_state(mc_mix(mc_mixs(3, out), width)); mc_exec(1); mc_trans(lines + 1); d_end(&r);
}
static char nm[64], full[128];
static void entry(unsigned kind, unsigned nl, const char *text)
{
    for (unsigned i = 0; i < nl; i++) nm[i] = (char)('a' + i % 26); nm[nl] = 0; leaf[0] = (argus_option_t)OPTION_FLAG('q', "quux"); leaf[1] = (argus_option_t)OPTION_END();
    static char sum[(1 << 17) + 64]; argus_option_t t[2]; t[1] = (argus_option_t)OPTION_END();
    switch (kind) {
        case 0: { sprintf(full, "--%s", nm); t[0] = (argus_option_t)OPTION_FLAG('\0', "x", HELP(text)); t[0].lname = t[0].name = nm; run(t, "\nOptions:\n", full, text, "\n"); return; }
        case 1: { sprintf(full, "[%s]", nm); t[0] = (argus_option_t)POSITIONAL_STRING(nm, HELP(text), OPTL); run(t, "\nArguments:\n", full, text, "\n"); return; }
        case 2: t[0] = (argus_option_t)SUBCOMMAND(nm, leaf, HELP(text), ACTION(act)); run(t, "\nCommands:\n", nm, text, "\nRun 'prog COMMAND --help' for more information on a command.\n\n"); return;
        case 3: { sprintf(full, "-v, --%s <HINT>", nm); t[0] = (argus_option_t)OPTION_STRING('v', "x", HELP(text), HINT("HINT"), FLAGS(FLAG_DEPRECATED)); t[0].lname = t[0].name = nm; snprintf(sum, sizeof sum, "%s (deprecated)", text); run(t, "\nOptions:\n", full, sum, "\n"); return; }
        case 4: { sprintf(full, "[%s...]", nm); t[0] = (argus_option_t)POSITIONAL_MANY_STRING(nm, HELP(text), OPTL); run(t, "\nArguments:\n", full, text, "\n"); return; }
        default: { sprintf(full, "-v <N,...>"); t[0] = (argus_option_t)OPTION_ARRAY_INT('v', "x", HINT("N"), HELP(text)); t[0].lname = NULL; run(t, "\nOptions:\n", full, text, "\n"); return; }
    }
}
static unsigned TL; static int T_;
static const size_t COLS[] = {0, 3, 6, 1, 9};
static void texts(uint64_t idx, const void *arg)
{
    (void)arg; unsigned nw = TL + 8; unsigned w = (unsigned)(idx % nw); idx /= nw; unsigned ci = (unsigned)(idx % (T_ ? 5 : 3)); idx /= (T_ ? 5 : 3);
    unsigned k[16], n = seq_decode(idx, 3, TL, k); char s[16]; for (unsigned i = 0; i < n; i++) s[i] = k[i] == 0 ? (char)('a' + i) : k[i] == 1 ? ' ' : '\n'; s[n] = 0;
    CFG = (argus_helper_config_t){.description_column = COLS[ci], .option_indent = 1, .smart_hint_max_length = 20}; size_t base = COLS[ci] + 2; CFG.max_line_width = w < 4 ? (w == 0 ? 0 : w == 1 ? base - 1 : w == 2 ? base : SIZE_MAX) : base + (w - 3);
    NOTE("column %zu width %zu text '", CFG.description_column, CFG.max_line_width); for (unsigned i = 0; i < n; i++) NOTE("%s", s[i] == '\n' ? "\\n" : (char[]){s[i], 0}); NOTE("'");
    entry(0, 1, s);
}
static const char *TX[] = {"one two three four five six", "", "abcdefghijklmnopqrstuvwxyz", "a\nbcd ef\n\nghijk", " x  yy   zzz "};
static void layout(uint64_t idx, const void *arg)
{
    (void)arg; unsigned NC = T_ ? 21 : 13, NI = T_ ? 9 : 3, NN = T_ ? 24 : 16, NW = T_ ? 41 : 25, NT = T_ ? 5 : 4;
    unsigned c = (unsigned)(idx % NC); idx /= NC; unsigned in = (unsigned)(idx % NI); idx /= NI; unsigned n = (unsigned)(idx % NN) + 1; idx /= NN; unsigned w = (unsigned)(idx % NW); idx /= NW; unsigned t = (unsigned)(idx % NT); unsigned kind = (unsigned)(idx / NT);
    CFG = (argus_helper_config_t){.description_column = c, .option_indent = T_ ? in : in == 2 ? 5 : in * 2, .max_line_width = w, .smart_hint_max_length = 20}; NOTE("column %u indent %zu width %u name length %u kind %u text %u", c, CFG.option_indent, w, n, kind, t); entry(kind, n, TX[t]);
}
static char longs[1 << 17];
static void longer(uint64_t idx, const void *arg)
{
    (void)arg; static const size_t W[] = {80, 79, 40, 27, 28, 26, 25, 0, 1, (size_t)INT32_MAX, (size_t)UINT32_MAX, SIZE_MAX, SIZE_MAX - 1, 120}; unsigned w = (unsigned)(idx % 14); idx /= 14; unsigned kind = (unsigned)(idx % 6); idx /= 6; unsigned word = (unsigned)(idx % 40) + 1, n = (unsigned)(idx / 40);
    for (unsigned i = 0; i < n; i++) longs[i] = i % (word + 1) == word ? (i / (word + 1) % 7 == 6 ? '\n' : ' ') : (char)('a' + (i * 5 + word) % 26); longs[n] = 0;
    CFG = (argus_helper_config_t){.description_column = 24, .option_indent = 2, .max_line_width = W[w], .smart_hint_max_length = 20}; NOTE("width %zu kind %u text of %u characters, words of %u", W[w], kind, n, word); entry(kind, 5, longs);
}
/* texts of up to 900 characters under every line width up to 700 */
static void widths(uint64_t idx, const void *arg)
{
    (void)arg; unsigned w = (unsigned)(idx % 700); idx /= 700; static const unsigned N[] = {150, 400, 900}, WD[] = {1, 7, 60, 1000}; unsigned n = N[idx % 3]; idx /= 3; unsigned word = WD[idx % 4]; idx /= 4; static const unsigned C[] = {24, 0, 120}; unsigned col = C[idx % 3], kind = (unsigned)(idx / 3);
    for (unsigned i = 0; i < n; i++) longs[i] = i % (word + 1) == word ? (i / (word + 1) % 37 == 36 ? '\n' : ' ') : (char)('a' + (i * 5 + word) % 26); longs[n] = 0;
    CFG = (argus_helper_config_t){.description_column = col, .option_indent = 2, .max_line_width = w, .smart_hint_max_length = 20}; NOTE("width %u column %u kind %u text of %u characters, words of %u", w, col, kind, n, word); entry(kind, 5, longs);
}
/* very wide lines, very long texts */
static void huge(uint64_t idx, const void *arg)
{
    (void)arg; static const unsigned W[] = {720, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2002, 2047, 2048, 2049, 2050, 3000, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 100000}; unsigned w = W[idx % 30]; idx /= 30; static const int D[] = {-30, -3, -2, -1, 0, 1, 2, 3, 26, 30, 500}; int d = D[idx % 11]; idx /= 11; static const unsigned WD[] = {1, 9, 200, 2000, 1u << 20}; unsigned word = WD[idx % 5]; idx /= 5; unsigned twice = (unsigned)(idx % 2), kind = (unsigned)(idx / 2); static const unsigned C[] = {24, 0}; unsigned col = C[kind & 1];
    unsigned n = (w - col - 2) * (1 + twice) + (unsigned)d; if (n >= sizeof longs) return; for (unsigned i = 0; i < n; i++) longs[i] = i % (word + 1) == word ? (i / (word + 1) % 977 == 976 ? '\n' : ' ') : (char)('a' + (i * 5 + word) % 26); longs[n] = 0;
    CFG = (argus_helper_config_t){.description_column = col, .option_indent = 2, .max_line_width = w, .smart_hint_max_length = 20}; NOTE("width %u column %u kind %u text of %u characters, words of %u", w, col, kind, n, word); entry(kind, 5, longs);
}
void mc_register(int thorough)
{
    mc_space("huge", 30 * 11 * 5 * 2 * 6, huge, NULL);
    T_ = thorough; TL = thorough ? 11 : 8;
    mc_space("texts", seq_count(3, TL) * (thorough ? 5 : 3) * (TL + 8), texts, NULL);
    mc_space("layout", thorough ? 21ull * 9 * 24 * 41 * 5 * 6 : 13ull * 3 * 16 * 25 * 4 * 6, layout, NULL);
    mc_space("widths", 700 * 3 * 4 * 3 * (thorough ? 6 : 2), widths, NULL);
    mc_space("long texts", 14ull * 6 * 40 * (thorough ? 401 : 81), longer, NULL);
}
