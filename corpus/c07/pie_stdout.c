#include <stdio.h>
int main(void) { fprintf(stdout, "hello %d\n", 7); return 3; }
