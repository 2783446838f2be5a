#include <stdio.h>
struct m { double d; long n; };
long take(struct m v);
struct m give(long n);
int main(void) {
    struct m v = { 2.25, 100 }, w = give(12);
    printf("%ld %g %ld\n", take(v), w.d, w.n);
    return 0;
}
