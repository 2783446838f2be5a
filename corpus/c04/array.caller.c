#include <stdio.h>
struct a { double m[2]; }; struct f { float m[2]; }; union u { float f[4]; float g; };
double take(struct a a, struct f f, union u u);
struct a give(double x); struct f givef(double x);
int main(void) {
    struct a a = { { 1, 2 } }; struct f f = { { 3, 4 } }; union u u = { { 5, 6, 7, 8 } };
    a.m[0] = give(1).m[0]; f.m[1] = givef(3).m[1];
    printf("%g %g %g\n", take(a, f, u), give(3).m[1], givef(4).m[1]);
    return 0;
}
