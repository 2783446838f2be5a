/* gzip decoding server: stdin records  u32 srclen, u32 cap, src bytes;
   stdout records  i32 ret, u32 len, len bytes (only when ret==0).
   Input and output live in exact-size heap blocks. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tinf.h"
int main(void)
{
    unsigned h[2];
    while (fread(h, 4, 2, stdin) == 2) {
        unsigned char *s = malloc(h[0] ? h[0] : 1), *d = malloc(h[1] ? h[1] : 1), *sc;
        if (fread(s, 1, h[0], stdin) != h[0]) return 9;
        sc = malloc(h[0] ? h[0] : 1); memcpy(sc, s, h[0]);
        if (!h[0]) { free(s); s = malloc(1); }
        unsigned len = h[1];
        int r = tinf_gzip_uncompress(d, &len, s, h[0]);
        if (memcmp(s, sc, h[0])) r = 77;              /* input modified */
        if (r == 0 && len > h[1]) r = 78;
        fwrite(&r, 4, 1, stdout); if (r) len = 0;
        fwrite(&len, 4, 1, stdout); fwrite(d, 1, len, stdout); fflush(stdout);
        free(s); free(sc); free(d);
    }
    return 0;
}
