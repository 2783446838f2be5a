/* launch SPEC... -- COMMAND...: sets up the process state, then execs */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/resource.h>
int main(int argc, char **argv)
{
    int i;
    sigset_t m;
    sigemptyset(&m);
    for (i = 1; i < argc && strcmp(argv[i], "--"); i++) {
        char *a = argv[i];
        int n = atoi(a + 1);
        switch (*a) {
        case 'c': close(n); break;
        case 'o': { /* oN:path */
            int f = open(strchr(a, ':') + 1, O_RDWR);
            if (f < 0) return 126;
            if (f != n) { dup2(f, n); close(f); }
            break; }
        case 'r': { int f = open(strchr(a, ':') + 1, O_RDONLY);
            if (f < 0) return 126;
            if (f != n) { dup2(f, n); close(f); }
            break; }
        case 'k': lseek(n, atoi(strchr(a, ':') + 1), SEEK_SET); break;
        case 'i': signal(n, SIG_IGN); break;
        case 'b': sigaddset(&m, n); break;
        case 'u': umask(strtol(a + 1, 0, 8)); break;
        case 'd': if (chdir(a + 1)) return 126; break;
        case 'n': if (nice(n) == -1) {} break;
        case 'l': { struct rlimit r = { n, n }; setrlimit(RLIMIT_NOFILE, &r); break; }
        case 'g': setpgid(0, 0); break;
        }
    }
    sigprocmask(SIG_SETMASK, &m, 0);
    execv(argv[i + 1], argv + i + 1);
    return 127;
}
