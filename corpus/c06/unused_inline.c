extern int printf(const char *, ...);
static inline int unused(int a)
{
    return a + undeclared;
}
int main(void)
{
    printf("ran\n");
    return 0;
}
