/* Extraction server.  Lines: "KIND FSIZE CWD DEST ARCHIVE" (KIND tar|gz, FSIZE
   file size limit or 0); archive bytes are handed over in an exact heap block.
   Answers "RC <n>". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <stdint.h>
extern int muntar_to_path(const char *path, const uint8_t *buf, const unsigned int len);
extern int muntargz_to_path(const char *path, const uint8_t *buf, const unsigned int len);
int main(void)
{
    char kind[8], cwd[4096], dest[4096], arc[4096]; long fs;
    signal(SIGXFSZ, SIG_IGN); umask(022);
    while (scanf("%7s %ld %4095s %4095s %4095s", kind, &fs, cwd, dest, arc) == 5) {
        FILE *f = fopen(arc, "rb"); if (!f) return 9;
        fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
        uint8_t *b = malloc(n ? n : 1), *c = malloc(n ? n : 1);
        if (fread(b, 1, n, f) != (size_t)n) return 9;
        fclose(f); memcpy(c, b, n);
        if (chdir(cwd)) return 9;
        struct rlimit old, rl; getrlimit(RLIMIT_FSIZE, &old); rl = old;
        if (fs) { rl.rlim_cur = fs; setrlimit(RLIMIT_FSIZE, &rl); }
        int r = kind[0] == 't' ? muntar_to_path(dest, b, n) : muntargz_to_path(dest, b, n);
        setrlimit(RLIMIT_FSIZE, &old);
        if (memcmp(b, c, n)) r = 7777;
        printf("RC %d\n", r); fflush(stdout);
        free(b); free(c);
    }
    return 0;
}
