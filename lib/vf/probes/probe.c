/* Reports everything a program can see of the way it was started, into the file
   named by VF_REPORT (its streams stay free for the stream tests). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <locale.h>
#include <fenv.h>
#include <getopt.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
extern char **environ;
static int early_errno = -1;
static FILE *rep;
static void hex(const char *tag, int k, const char *s)
{
    fprintf(rep, "%s %d ", tag, k);
    for (; *s; s++) fprintf(rep, "%02x", (unsigned char)*s);
    fputc('\n', rep);
}
static void sigs(void)
{
    FILE *f = fopen("/proc/self/status", "r");
    char b[512];
    while (f && fgets(b, sizeof b, f))
        if (!strncmp(b, "SigBlk", 6) || !strncmp(b, "SigIgn", 6) || !strncmp(b, "SigCgt", 6) || !strncmp(b, "ShdPnd", 6)) fprintf(rep, "%s", b);
    if (f) fclose(f);
}
static void fds(void)
{
    int i;
    for (i = 0; i < 256; i++) {
        struct stat st;
        int fl = fcntl(i, F_GETFL), fd = fcntl(i, F_GETFD);
        if (fl < 0 || i == fileno(rep)) continue;
        fstat(i, &st);
        fprintf(rep, "fd %d flags %x %x mode %o ino %ld pos %ld\n", i, fl, fd, (unsigned)st.st_mode, S_ISREG(st.st_mode) ? (long)st.st_ino : 0L, S_ISREG(st.st_mode) ? (long)lseek(i, 0, SEEK_CUR) : 0L);
    }
}
static int prog(const char *which, int argc, char **argv, char **envp)
{
    int i, e = early_errno == -1 ? errno : early_errno, c;
    char buf[4096];
    char *path = getenv("VF_REPORT"), *act = getenv("VF_ACT");
    mode_t um;
    int f = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    f = fcntl(f, F_DUPFD, 200);
    for (i = 3; i < 200; i++) { /* the number open gave it */
        struct stat a, b;
        if (fstat(i, &a) == 0 && fstat(f, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev) close(i);
    }
    for (i = 0; i < 3; i++) {
        struct stat a, b;
        if (fstat(i, &a) == 0 && fstat(f, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev) close(i);
    }
    rep = fdopen(f, "w");
    fprintf(rep, "entry %s\n", which);
    fprintf(rep, "errno %d\n", e);
    fprintf(rep, "argc %d %s\n", argc, argv[argc] ? "no end" : "ends");
    for (i = 0; i < argc; i++) hex("arg", i, argv[i]);
    fprintf(rep, "envp %d\n", envp == environ);
    for (i = 0; environ[i]; i++) hex("env", i, environ[i]);
    if (getcwd(buf, sizeof buf)) hex("cwd", 0, buf);
    um = umask(0); umask(um);
    fprintf(rep, "umask %o\n", (unsigned)um);
    fprintf(rep, "nice %d\n", getpriority(PRIO_PROCESS, 0));
    fprintf(rep, "pgrp %d session %d\n", getpgrp() == getpid() || getpgrp() == getppid(), getsid(0) == getpid() || getsid(0) == getppid());
    sigs();
    fds();
    fprintf(rep, "locale %s\n", setlocale(LC_ALL, 0));
    fprintf(rep, "round %d except %d\n", fegetround(), fetestexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW));
    fprintf(rep, "optind %d %d\n", optind, opterr);
    fprintf(rep, "rand %d\n", rand());
    fprintf(rep, "alarm %u\n", alarm(0));
    fprintf(rep, "children %d\n", waitpid(-1, 0, WNOHANG) == -1 && errno == ECHILD);
    { struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); fprintf(rep, "nofile %ld\n", (long)r.rlim_cur); }
    { struct rlimit r; getrlimit(RLIMIT_CORE, &r); fprintf(rep, "core %ld\n", (long)r.rlim_cur); }
    fprintf(rep, "pid %d\n", getpid());
    if (getenv("VF_PIDFILE")) {
        FILE *p = fopen(getenv("VF_PIDFILE"), "r");
        int n = -1;
        if (p) { if (fscanf(p, "%d", &n) != 1) n = -2; fclose(p); }
        fprintf(rep, "pidfile %d\n", n == getpid());
    }
    fprintf(rep, "buffered %d %d\n", ferror(stdin) != 0, feof(stdin) != 0);
    fflush(rep);
    /* streams: copy standard input, byte for byte, to output and count on error */
    if (getenv("VF_COPY")) {
        long n = 0;
        unsigned h = 17;
        if (getenv("VF_COPY")[0] == 'r') {
            ssize_t k;
            while ((k = read(0, buf, sizeof buf)) > 0) { n += k; for (i = 0; i < k; i++) h = h * 31 + (unsigned char)buf[i]; if (write(1, buf, k) != k) break; }
        } else
            while ((c = getchar()) != EOF) { n++; h = h * 31 + c; putchar(c); }
        fprintf(stderr, "PROG copied %ld %08x\n", n, h);
    }
    fprintf(rep, "done\n");
    fclose(rep);
    c = atoi(act + 1);
    switch (*act) {
    case 'r': return c;
    case 'e': exit(c);
    case '_': printf("unflushed"); fflush(stdout); _exit(c);
    case 'q': quick_exit(c);
    case 'k': signal(c, SIG_DFL); { sigset_t m; sigemptyset(&m); sigaddset(&m, c); sigprocmask(SIG_UNBLOCK, &m, 0); } raise(c); return 99;
    case 'a': abort();
    case 'z': *(volatile int *)0 = 1; return 99;
    case 'x': sprintf(buf, "exit %d", c); execl("/bin/sh", "sh", "-c", buf, (char *)0); return 99;
    case 'f': fflush(stdout); if (fork() == 0) { usleep(30000); _exit(c + 1); } return c;
    case 's': /* stops, is continued by a child, goes on */
        fflush(stdout);
        if (fork() == 0) { usleep(60000); kill(getppid(), SIGCONT); _exit(0); }
        raise(SIGSTOP);
        wait(0);
        { char n[4096]; sprintf(n, "%s.cont", path); fclose(fopen(n, "w")); }
        return c;
    case 'b': printf("buffered output at exit"); return c;
    }
    return 98;
}
__attribute__((constructor)) static void early(void) { early_errno = errno; }
int main(int argc, char **argv, char **envp) { return prog("main", argc, argv, envp); }
int other(int argc, char **argv, char **envp) { return prog("other", argc, argv, envp); }
int mainly(int argc, char **argv, char **envp) { return prog("mainly", argc, argv, envp); }
int _start_here(int argc, char **argv, char **envp) { return prog("_start_here", argc, argv, envp); }
