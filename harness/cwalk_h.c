/* Path operation server.  Line protocol: "OP STYLE HEX HEX..." -> one line.
   Every output operation is repeated with every buffer size 0..len+2 (exact
   heap blocks, so ASan guards both sides) and the results are compared here;
   a disagreement is answered with "BAD what". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "cwalk.h"

static char *arg[16]; static size_t argl[16]; static int na;
static char *unhex(const char *s, size_t *n)
{
    size_t l = strlen(s) / 2; char *r = malloc(l + 1);
    for (size_t i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); r[i] = v; }
    r[l] = 0; *n = l; return r;
}
static void hex(const char *s, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]); }
static int op; 
static size_t call(const char *a, const char *b, char *buf, size_t n)
{
    switch (op) {
    case 'n': return cwk_path_normalize(a, buf, n);
    case 'j': return cwk_path_join(a, b, buf, n);
    case 'a': return cwk_path_get_absolute(a, b, buf, n);
    case 'r': return cwk_path_get_relative(a, b, buf, n);
    case 'R': return cwk_path_change_root(a, b, buf, n);
    case 'B': return cwk_path_change_basename(a, b, buf, n);
    case 'E': return cwk_path_change_extension(a, b, buf, n);
    case 'm': { const char *p[16]; int i; for (i = 0; i < na; i++) p[i] = arg[i]; p[i] = 0; return cwk_path_join_multiple(p, buf, n); }
    case 'S': { struct cwk_segment s; int k = atoi(b);
        if (!cwk_path_get_first_segment(a, &s)) { if (n) *buf = 0; return 0; }
        while (k-- && cwk_path_get_next_segment(&s)) ;
        return cwk_path_change_segment(&s, arg[2], buf, n); }
    }
    return 0;
}
static void out_op(void)
{
    const char *a = arg[0], *b = na > 1 ? arg[1] : "";
    size_t cap = 64; for (int i = 0; i < na; i++) cap += argl[i] * 3 + 8;
    char *full = malloc(cap); memset(full, 0x7e, cap);
    size_t len = call(a, b, full, cap);
    if (len >= cap) { printf("BAD length %zu for inputs of %zu bytes\n", len, cap); free(full); return; }
    if (strlen(full) != len) { printf("BAD returned length %zu, string length %zu\n", len, strlen(full)); free(full); return; }
    for (size_t n = 0; n <= len + 2; n += len > 300 && n > 40 && n + 40 < len ? 37 : 1) {
        char *t = malloc(n ? n : 1); t[0] = 0x55; if (n) memset(t, 0x55, n);
        size_t r = call(a, b, n ? t : t + 1, n);
        if (r != len) { printf("BAD length %zu with buffer size %zu, %zu complete\n", r, n, len); free(t); free(full); return; }
        if (n) {
            size_t want = len < n - 1 ? len : n - 1;
            if (t[want] != 0) { printf("BAD not terminated with buffer size %zu\n", n); free(t); free(full); return; }
            if (memcmp(t, full, want)) { printf("BAD content with buffer size %zu\n", n); free(t); free(full); return; }
        }
        free(t);
    }
    if (strchr("nBE", op)) {   /* documented in-place use */
        for (int extra = 0; extra < 3; extra++) {
            size_t need = (len > argl[0] ? len : argl[0]) + 1 + extra * 3; 
            char *t = malloc(need); memcpy(t, a, argl[0] + 1);
            size_t r = call(t, b, t, need);
            if (r != len || memcmp(t, full, len + 1)) { printf("BAD in-place result "); hex(t, need - 1); printf(" ret %zu\n", r); free(t); free(full); return; }
            free(t);
        }
    }
    printf("OK "); hex(full, len); printf("\n");
    free(full);
}
int main(void)
{
    static char line[1 << 20];
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    while (fgets(line, sizeof line, stdin)) {
        char *t = strtok(line, " \n"); op = *t; t = strtok(0, " \n");
        cwk_path_set_style(*t == 'w' ? CWK_STYLE_WINDOWS : CWK_STYLE_UNIX);
        for (na = 0; (t = strtok(0, " \n")) && na < 16; na++) arg[na] = unhex(*t == '-' ? t + 1 : t, &argl[na]);
        if (strchr("njarRBEmS", op)) out_op();
        else if (op == 'q') {   /* queries */
            size_t root, dl = 99999, bl = 99999, el = 99999; const char *b = "x", *e = 0; const char *a = arg[0];
            cwk_path_get_root(a, &root); cwk_path_get_dirname(a, &dl); cwk_path_get_basename(a, &b, &bl);
            bool he = cwk_path_get_extension(a, &e, &el);
            printf("OK root=%zu abs=%d rel=%d dir=%zu base=%ld:%zu ext=%ld:%zu has=%d segs=", root, cwk_path_is_absolute(a), cwk_path_is_relative(a), dl,
                b ? (long)(b - a) : -1L, bl, he ? (long)(e - a) : -1L, he ? el : 0, cwk_path_has_extension(a));
            struct cwk_segment s; int cnt = 0; 
            if (cwk_path_get_first_segment(a, &s)) {
                do { printf("%ld:%zu:%d,", (long)(s.begin - a), s.size, cwk_path_get_segment_type(&s)); cnt++; if ((size_t)(s.end - s.begin) != s.size) printf("E"); } while (cwk_path_get_next_segment(&s));
                printf("|");
                do { printf("%ld:%zu,", (long)(s.begin - a), s.size); } while (cwk_path_get_previous_segment(&s));
            } else printf("|");
            struct cwk_segment l; bool hl = cwk_path_get_last_segment(a, &l);
            printf("|%ld:%zu\n", hl ? (long)(l.begin - a) : -1L, hl ? l.size : 0);
        } else if (op == 'i') printf("OK %zu\n", cwk_path_get_intersection(arg[0], arg[1]));
        else if (op == 'g') printf("OK %d\n", cwk_path_guess_style(arg[0]));
        else printf("BAD op\n");
        for (int i = 0; i < na; i++) free(arg[i]);
    }
    return 0;
}
