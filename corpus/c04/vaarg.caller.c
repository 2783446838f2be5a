#include <stdio.h>
struct s { double a, b; };
double take(int n, ...);
int main(void) { struct s s = { 3, 4 }; printf("%.0f\n", take(1, 1., 2., 3., 4., 5., 6., 7., s, 9.)); return 0; }
