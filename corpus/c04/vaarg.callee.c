#include <stdarg.h>
struct s { double a, b; };
double take(int n, ...) { va_list ap; double r = 0; va_start(ap, n); for (int i = 0; i < 7; i++) r = r * 2 + va_arg(ap, double); struct s s = va_arg(ap, struct s); r += s.a * 1000 + s.b * 10000; r += va_arg(ap, double) * 1e6; va_end(ap); return r; }
