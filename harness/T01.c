/*VP
{
 "entries": [
  {"name": "value_of_key", "unwind": 20, "checks": "mem", "defines": ["LEN=10"], "thorough": {"defines": ["LEN=14"], "timeout": 1500}, "bounds": "every text of up to 10 bytes (thorough 14), a key of one letter"},
  {"name": "long_value", "flags": ["--max-field-sensitivity-array-size", "300"], "unwind": 270, "checks": "mem", "bounds": "values of each kind that are not closed within 255 bytes, and of 256 bytes (of which 255 are kept)"},
  {"name": "values_kept", "unwind": 20, "checks": "mem", "bounds": "up to 8 results in use at once"},
  {"name": "replace_all", "unwind": 16, "unwindset": ["RKReplaceAllValuesOfKey.2:5"], "checks": "mem", "defines": ["LEN=5"], "thorough": {"defines": ["LEN=7"], "timeout": 1500}, "bounds": "every text of up to 5 bytes (thorough 7), a key of one letter, values of 1 and 2 digits"},
  {"name": "replace_enum", "unwind": 18, "checks": "mem", "defines": ["LEN=10"], "thorough": {"defines": ["LEN=13"], "timeout": 1500}, "bounds": "every text of up to 10 bytes (thorough 13), a key of one letter, values of 1 and 2 digits"},
  {"name": "logical", "unwind": 14, "unwindset": ["RKReviseLogicalValues.0:3","RKReviseLogicalValues.1:3"], "checks": "mem", "defines": ["LEN=9"], "thorough": {"defines": ["LEN=12"], "timeout": 1500}, "bounds": "every text of up to 9 bytes (thorough 12)"},
  {"name": "logical_pair", "unwind": 24, "unwindset": ["RKReviseLogicalValues.0:4","RKReviseLogicalValues.1:4"], "checks": "mem", "defines": ["LEN=15"], "bounds": "two quoted values separated by a comma, colon, space or quote, in lower and upper case"},
  {"name": "quoted", "unwind": 20, "checks": "mem", "defines": ["LEN=9"], "bounds": "every text of up to 9 bytes, two strings wanted"}
 ],
 "sources": ["RKMisc.c", "RKFoundation.c"],
 "functions": ["RKGetValueOfKey", "RKReplaceAllValuesOfKey", "RKReplaceEnumOfKey", "RKReviseLogicalValues", "RKParseQuotedStrings"],
 "assumptions": ["the string functions of the C library are given as loops"],
 "outside": "longer texts and keys, texts that outgrow their buffer"
}
VP*/
#include "vp.h"

#ifndef LEN
#define LEN 8
#endif
#ifdef VP_SYMBOLIC
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
size_t strlen(const char *s) { size_t k = 0; while (s[k]) k++; return k; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (*s == 0) return NULL; } }
static char *find(const char *h, const char *n, bool any) {
    for (;; h++) {
        int k = 0;
        while (n[k] && (any ? lower(h[k]) == lower(n[k]) : h[k] == n[k])) k++;
        if (n[k] == 0) return (char *)h;
        if (*h == 0) return NULL;
    }
}
char *strcasestr(const char *h, const char *n) { return find(h, n, true); }
char *strstr(const char *h, const char *n) { return find(h, n, false); }
char *strncpy(char *restrict d, const char *restrict s, size_t n) {
    size_t k = 0;
    for (; k < n && s[k]; k++) d[k] = s[k];
    for (; k < n; k++) d[k] = 0;
    return d;
}
void *memcpy(void *restrict d, const void *restrict s, size_t n) { for (size_t k = 0; k < n; k++) ((char *)d)[k] = ((const char *)s)[k]; return d; }
void *memset(void *d, int c, size_t n) { for (size_t k = 0; k < n; k++) ((char *)d)[k] = c; return d; }
void *memmove(void *d, const void *s, size_t n) {
    if ((const char *)d < (const char *)s) for (size_t k = 0; k < n; k++) ((char *)d)[k] = ((const char *)s)[k];
    else for (size_t k = n; k > 0; k--) ((char *)d)[k - 1] = ((const char *)s)[k - 1];
    return d;
}
static int put(char *s, const char *f, va_list a) {
    int k = 0;
    if (f[0] == '%' && f[1] == 'd') {
        int v = va_arg(a, int);
        VP_ASSERT(v > -10 && v < 100, "numbers are small here");
        if (v < 0) { s[k++] = '-'; v = -v; }
        if (v > 9) s[k++] = '0' + v / 10;
        s[k++] = '0' + v % 10;
    } else if (f[0] == 't' || f[0] == 'f') {
        for (; f[k]; k++) s[k] = f[k];
    } else {
        const char *t = va_arg(a, const char *);
        s[k++] = f[0];
        for (int j = 0; t[j]; j++) s[k++] = t[j];
        s[k++] = f[0];
    }
    s[k] = 0;
    return k;
}
int sprintf(char *restrict s, const char *restrict f, ...) { va_list a; va_start(a, f); int k = put(s, f, a); va_end(a); return k; }
int snprintf(char *restrict s, size_t n, const char *restrict f, ...) { (void)n; va_list a; va_start(a, f); int k = put(s, f, a); va_end(a); return k; }
int fprintf(FILE *restrict f, const char *restrict s, ...) { (void)f; (void)s; return 0; }
#endif
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

static char t[LEN + 1];
static void text(char *d) {
    for (int k = 0; k < LEN; k++) d[k] = (char)vp_u8();
    d[LEN] = 0;
}
static int length(const char *s) { int k = 0; while (k < 2 * LEN + 4 && s[k]) k++; return k; }

void value_of_key(void) {
    text(t);
    const int n = length(t);
    int p = -1;
    for (int k = n - 3; k >= 0; k--) if (t[k] == '"' && low(t[k + 1]) == 'k' && t[k + 2] == '"') p = k;
    if (p < 0) for (int k = n - 3; k >= 0; k--) if (t[k] == '\'' && low(t[k + 1]) == 'k' && t[k + 2] == '\'') p = k;
    int q = -1;
    if (p >= 0) for (int k = n - 1; k >= 0; k--) if (k >= p + 3 && t[k] == ':') q = k;
    char *v = RKGetValueOfKey(t, "k");
    if (q < 0) {
        VP_ASSERT(v == NULL, "a key that is not there has no value");
        VP_REACH("absent");
        return;
    }
    VP_ASSERT(v != NULL, "a key that is there has a value");
    do { q++; } while (t[q] == ' ' || t[q] == '\r' || t[q] == '\n');
    const char o = t[q];
    const char c = o == '[' ? ']' : o == '{' ? '}' : o == '"' || o == '\'' ? o : 0;
    int r = c ? q + 1 : q;
    while (r < n && !(c ? t[r] == c : t[r] == ',' || t[r] == '}' || t[r] == ']')) r++;
    int len = r - q + (c && r < n);
    for (int k = 0; k < LEN; k++) if (k < len) VP_ASSERT(v[k] == t[q + k], "the value of a key is the text after the colon");
    VP_ASSERT(v[len] == 0, "the value of a key ends where its text ends, with its bracket or quote");
    if (c) VP_REACH("enclosed"); else VP_REACH("plain");
}

static char w[266];
static void long_at(char o, char c, int n, bool closed) {
    if (o) w[4] = o;
    int k = 4 + n;
    if (o) w[k - 1] = closed ? c : 'x';
    else if (closed) w[k++] = c;
    w[k] = 0;
    char *v = RKGetValueOfKey(w, "k");
    const int len = n < 255 ? n : 255;
    VP_ASSERT(v[0] == w[4] && v[1] == w[5] && v[127] == w[131] && v[253] == w[257] && v[254] == w[258], "a long value is the text after the colon, as much as fits");
    VP_ASSERT(v[len] == 0, "a long value ends where its text ends or where it is full");
    VP_REACH("long");
}
static void long_kind(int n) {
    const bool closed = n == 256;
    switch (vp_range(0, 4)) {
        case 0: if (closed) long_at(0, ',', n, true); else long_at(0, ',', n, false); break;
        case 1: if (closed) long_at('[', ']', n, true); else long_at('[', ']', n, false); break;
        case 2: if (closed) long_at('{', '}', n, true); else long_at('{', '}', n, false); break;
        case 3: if (closed) long_at('"', '"', n, true); else long_at('"', '"', n, false); break;
        default: if (closed) long_at('\'', '\'', n, true); else long_at('\'', '\'', n, false); break;
    }
}
void long_value(void) {
    for (int k = 0; k < 265; k++) w[k] = 'a' + (k & 7);
    w[0] = w[2] = '"'; w[1] = 'k'; w[3] = ':';
    if (vp_bool()) long_kind(255); else long_kind(256);
}

void values_kept(void) {
    char *v[8];
    char s[9] = "\"k\": \"?\"";
    for (int k = 0; k < 8; k++) {
        s[6] = '0' + k;
        v[k] = RKGetValueOfKey(s, "k");
    }
    for (int k = 0; k < 8; k++) VP_ASSERT(v[k][0] == '"' && v[k][1] == '0' + k && v[k][2] == '"' && v[k][3] == 0, "the eight latest values are all kept");
    VP_REACH("kept");
}

static char e[2 * LEN + 4], s[2 * LEN + 4], b[4];
static int vlen;
static int number(void) {
    static const int values[4] = {-3, 0, 3, 12};
    const int v = values[vp_bits(2)];
    vlen = 0;
    if (v < 0) { b[vlen++] = '-'; b[vlen++] = '0' - v; }
    else { if (v > 9) b[vlen++] = '0' + v / 10; b[vlen++] = '0' + v % 10; }
    return v;
}
static bool skip(char c) { return c == '"' || c == ' ' || c == ':'; }
static bool closes(char c) { return c == ',' || c == '}' || c == ']'; }
// What follows position q, with the value there replaced; returns the position after it, or -1 when there is none.  j is how much of e is written
static int put_value(int q, int n, int *j) {
    while (q < n && skip(t[q])) e[(*j)++] = t[q++];
    if (q == n) return -1;
    int r = q;
    while (r < n && !closes(t[r])) r++;
    if (r == n) { for (; q < n; q++) e[(*j)++] = t[q]; return -1; }
    int w = 0;
    for (; w < vlen; w++) e[(*j)++] = b[w];
    for (; w < r - q; w++) e[(*j)++] = ' ';
    return r;
}

void replace_all(void) {
    text(t);
    for (int k = 0; k <= LEN; k++) s[k] = t[k];
    const int n = length(t), v = number();
    int j = 0, q = 0;
    for (int k = 0; k < LEN; k++) {
        if (q < 0 || q >= n) break;
        if (t[q] == 'E') { e[j++] = t[q]; q = put_value(q + 1, n, &j); }
        else e[j++] = t[q++];
    }
    e[j] = 0;
    RKReplaceAllValuesOfKey(s, "E", v);
    for (int k = 0; k < 2 * LEN + 4; k++) if (k <= j) VP_ASSERT(s[k] == e[k], "every value of the key is replaced and nothing else changes");
    VP_REACH("replaced");
}

void replace_enum(void) {
    text(t);
    for (int k = 0; k <= LEN; k++) s[k] = t[k];
    const int n = length(t), v = number();
    int h = -1, p = -1, j = 0;
    for (int k = n - 1; k >= 0; k--) if (low(t[k]) == 'h') h = k;
    if (h >= 0) for (int k = n - 4; k >= 0; k--) if (k >= h && t[k] == 'E' && t[k + 1] == 'n' && t[k + 2] == 'u' && t[k + 3] == 'm') p = k;
    if (p >= 0) {
        for (; j < p + 4; j++) e[j] = t[j];
        const int q = put_value(p + 4, n, &j);
        if (q >= 0) { for (int k = q; k < n; k++) e[j++] = t[k]; VP_REACH("replaced"); }
    } else {
        for (; j < n; j++) e[j] = t[j];
        VP_REACH("absent");
    }
    e[j] = 0;
    RKReplaceEnumOfKey(s, "H", v);
    for (int k = 0; k < 2 * LEN + 4; k++) if (k <= j) VP_ASSERT(s[k] == e[k], "the first state after the key is replaced and nothing else changes");
}

// Unquotes every "word"
static int unquote(const char *from, int n, char *to, const char *word, int w) {
    int j = 0;
    for (int k = 0; k < n;) {
        bool is = k + w + 2 <= n && from[k] == '"' && from[k + w + 1] == '"';
        for (int m = 0; m < w; m++) if (is) is = low(from[k + 1 + m]) == word[m];
        if (is) { for (int m = 0; m < w; m++) to[j++] = word[m]; k += w + 2; }
        else to[j++] = from[k++];
    }
    to[j] = 0;
    return j;
}

static void revise(void) {
    for (int k = 0; k <= LEN; k++) s[k] = t[k];
    static char m[2 * LEN + 4];
    const int a = unquote(t, length(t), m, "true", 4);
    const int j = unquote(m, a, e, "false", 5);
    RKReviseLogicalValues(s);
    for (int k = 0; k < 2 * LEN + 4; k++) if (k <= j) VP_ASSERT(s[k] == e[k], "every quoted logical value loses its quotes and nothing else changes");
    if (j < length(t)) VP_REACH("revised");
}
void logical(void) { text(t); revise(); }
#if LEN == 15
static int word(int k, const char *w, bool upper) {
    t[k++] = '"';
    for (int j = 0; w[j]; j++) t[k++] = upper ? w[j] - 32 : w[j];
    t[k++] = '"';
    return k;
}
static void pair_by(const char *a, const char *b, char by) {
    int k = word(0, a, false);
    t[k++] = by;
    k = word(k, b, true);
    t[k] = 0;
    revise();
}
static void pair(const char *a, const char *b) {
    switch (vp_bits(2)) { case 0: pair_by(a, b, ','); break; case 1: pair_by(a, b, ':'); break; case 2: pair_by(a, b, ' '); break; default: pair_by(a, b, '"'); break; }
}
void logical_pair(void) {
    switch (vp_bits(2)) { case 0: pair("true", "true"); break; case 1: pair("true", "false"); break; case 2: pair("false", "true"); break; default: pair("true", "none"); break; }
}
#endif

void quoted(void) {
    text(t);
    const int n = length(t);
    static char a[LEN + 1], c[LEN + 1];
    a[0] = c[0] = '!';
    a[1] = c[1] = 0;
    RKParseQuotedStrings(t, a, c, NULL);
    int q = 0;
    for (int w = 0; w < 2; w++) {
        char *d = w ? c : a;
        while (q < n && t[q] != '"' && t[q] != '\'') q++;
        if (q == n) { VP_ASSERT(d[0] == '!' && d[1] == 0, "a string that is not there leaves the old one"); continue; }
        const char o = t[q++];
        int j = 0;
        while (q < n && t[q] != o) { VP_ASSERT(d[j] == t[q], "a quoted string is the text between its quotes"); j++; q++; }
        VP_ASSERT(d[j] == 0, "a quoted string ends at its closing quote");
        if (q < n) { q++; VP_REACH("quoted"); }
    }
}
