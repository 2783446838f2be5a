/* a designator into a part of another member of a union: what the earlier
   member left must be gone */
#include <stdio.h>
#include <string.h>
union u { unsigned m; char c[4][1]; };
static void dirty(void) { volatile char b[4000]; for (int i = 0; i < 4000; i++) b[i] = 0x5a; }
static void show(union u x) { unsigned char b[4]; memcpy(b, &x, 4); printf("%02x%02x%02x%02x\n", b[0], b[1], b[2], b[3]); }
int main(void) { dirty(); union u x = { .m = 0x3f9b38a0, .c[1][0] = 5, 6 }; static union u y = { .m = 0x3f9b38a0, .c[1][0] = 5, 6 }; show(x); show(y); return 0; }
