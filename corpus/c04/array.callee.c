struct a { double m[2]; }; struct f { float m[2]; }; union u { float f[4]; float g; };
double take(struct a a, struct f f, union u u) { return a.m[0] + 10 * a.m[1] + 100 * f.m[0] + 1000 * f.m[1] + 10000 * u.f[3]; }
struct a give(double x) { struct a a = { { x, x + 1 } }; return a; }
struct f givef(double x) { struct f a = { { x, x + 1 } }; return a; }
