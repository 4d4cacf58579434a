/* Every text one byte away from a base text: each byte value 1..255 inserted at or put in place of every position, and
 * every one-byte deletion.  The whole one-edit neighbourhood is enumerated by index. */
#ifndef EDITS_H
#define EDITS_H
#include <ctype.h>
#include <string.h>
#include <stdint.h>
#define EDIT_MAX 24                                        /* longest base text */
#define EDIT_COUNT ((EDIT_MAX + 1) * 255 + EDIT_MAX * 256)
/* false if the base text has no such edit */
static bool edit_apply(const char *base, uint64_t k, char *out)
{
    size_t n = strlen(base);
    if (k < (EDIT_MAX + 1) * 255) {
        size_t p = k / 255; if (p > n) return false;
        memcpy(out, base, p); out[p] = (char)(k % 255 + 1); strcpy(out + p + 1, base + p); return true;
    }
    k -= (EDIT_MAX + 1) * 255; size_t p = k / 256; if (p >= n) return false;
    memcpy(out, base, p);
    if (k % 256 == 0) strcpy(out + p, base + p + 1); else { out[p] = (char)(k % 256); strcpy(out + p + 1, base + p + 1); }
    return true;
}
/* does a number in the text begin with a blank (also after one of the separators)?  not stated by the documentation */
static bool edit_blank(const char *t, const char *seps)
{
    for (const char *p = t; *p; p++) if (isspace((unsigned char)*p) && (p == t || strchr(seps, p[-1]) || isspace((unsigned char)p[-1]))) return true;
    return false;
}
#endif
