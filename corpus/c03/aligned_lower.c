/* aligned() on a member cannot lower its alignment (gcc, clang) */
#include <stdio.h>
#include <stddef.h>
struct a { char c; int m __attribute__((aligned(1))); };
struct b { short s; unsigned long long m __attribute__((aligned(2))); };
int main(void) { printf("%d %d %d\n", (int)sizeof(struct a), (int)offsetof(struct a, m), (int)_Alignof(struct a)); printf("%d %d\n", (int)sizeof(struct b), (int)offsetof(struct b, m)); return 0; }
