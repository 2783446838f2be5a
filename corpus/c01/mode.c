#include "vf.h"
/* machine modes given after the declarator */
typedef unsigned u8t __attribute__ ((__mode__ (__QI__)));
typedef int s16t __attribute__ ((__mode__ (__HI__)));
typedef int i64t __attribute__ ((__mode__ (__DI__)));
typedef int __attribute__ ((__mode__ (__DI__))) j64t;
typedef int rt __attribute__ ((__mode__ (__word__)));
static int g __attribute__ ((__mode__ (__HI__)));
struct s { unsigned int a __attribute__ ((__mode__ (__DI__))); char b; };
int main(void)
{
    u8t a = 300; s16t b = 70000; i64t c = 0x123456789abLL; j64t d = -c; rt e = c * 3;
    struct s x = { 0xfedcba9876543210ULL, 3 };
    g = 70001;
    printf("%zu %zu %zu %zu %zu %zu %zu\n", sizeof(u8t), sizeof(s16t), sizeof(i64t),
        sizeof(j64t), sizeof(rt), sizeof g, sizeof x);
    printf("%d %d %lld %lld %lld %d %llx %d\n", a, b, (long long)c, (long long)d, (long long)e, g,
        (unsigned long long)x.a, x.b);
    return 0;
}
