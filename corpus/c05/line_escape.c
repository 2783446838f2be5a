extern int puts(const char *);
int main(void) {
#line 100 "d\\e.c"
    puts(__FILE__);
    return 0;
}
