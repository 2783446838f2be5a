#include <stdio.h>
#include <stdint.h>
static uintptr_t p = (uintptr_t)"abcdefgh"; static long q = (long)("xyz" + 1);
struct S { int a; char *s; double d; } s = (struct S){1, "k", 2.5};
static int i = (int){7};
static struct { long v; struct S t; } u = {(long)"hey", (struct S){3, "m", 4}}, v[2][2] = {[0][0 ... 1] = {(long)"in", {4, "out", 1}}};
int main(void)
{
    static unsigned long z = (unsigned long)"in";
    printf("%s %s %d %s %g %d %s %s %s %s %s\n", (char *)p, (char *)q, s.a, s.s, s.d, i, (char *)u.v, u.t.s, (char *)z, (char *)v[0][1].v, v[0][1].t.s);
    return 0;
}
