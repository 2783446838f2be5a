/* preloaded monitor: when a file named vfprobe* is opened (compilation reads it), every
   expected asset is read back and compared; optional random delays at the calls that
   create the directory; every event goes to a shared log */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/file.h>

static int (*r_open)(const char *, int, ...);
static FILE *(*r_fopen)(const char *, const char *);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_flock)(int, int);
static int (*r_close)(int);
static int (*r_fclose)(FILE *);
static size_t (*r_fwrite)(const void *, size_t, size_t, FILE *);
static int (*r_stat)(const char *, struct stat *);
static const char *dir, *logp, *expect;
static unsigned seed, dly, window;
static int logfd = -1;

static void init(void)
{
    const char *s;
    if (r_open) return;
    r_fopen = dlsym(RTLD_NEXT, "fopen");
    r_mkdir = dlsym(RTLD_NEXT, "mkdir");
    r_flock = dlsym(RTLD_NEXT, "flock");
    r_close = dlsym(RTLD_NEXT, "close");
    r_fclose = dlsym(RTLD_NEXT, "fclose");
    r_fwrite = dlsym(RTLD_NEXT, "fwrite");
    r_stat = dlsym(RTLD_NEXT, "stat");
    dir = getenv("VF_DIR"), logp = getenv("VF_LOG"), expect = getenv("VF_EXPECT");
    seed = (s = getenv("VF_RSEED")) ? atoi(s) : 0;
    dly = (s = getenv("VF_DELAY")) ? atoi(s) : 0;
    window = (s = getenv("VF_WINDOW")) ? atoi(s) : 0;
    r_open = dlsym(RTLD_NEXT, "open");
    if (logp)
        logfd = r_open(logp, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
}

static void out(const char *what, const char *arg)
{
    char b[700];
    int n;
    if (logfd < 0) return;
    n = snprintf(b, sizeof b, "%d %s %s\n", (int)getpid(), what, arg);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (write(logfd, b, n) != n) _exit(97);
}

static unsigned rnd(void) { seed = seed * 1103515245u + 12345u; return seed >> 8; }
static void pause_(void)
{
    if (dly && rnd() % 3 == 0) usleep(rnd() % dly);
}

static int ours(const char *p) { return dir && p && !strncmp(p, dir, strlen(dir)); }

static void verify(const char *name)
{
    char line[512], rel[300], p[800], b[65536], bad[600] = "";
    long size, got;
    unsigned h, want;
    int fd, n, k = 0;
    FILE *f = r_fopen(expect, "r");
    if (!f) { out("check", "no expectation"); return; }
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "%ld %u %299s", &size, &want, rel) != 3) continue;
        snprintf(p, sizeof p, "%s/%s", dir, rel);
        fd = r_open(p, O_RDONLY | O_CLOEXEC);
        if (fd < 0) { snprintf(bad, sizeof bad, "%s missing", rel); break; }
        got = 0, h = 2166136261u;
        while ((n = read(fd, b, sizeof b)) > 0) {
            for (int i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 16777619u;
            got += n;
        }
        r_close(fd);
        k++;
        if (got != size || h != want) { snprintf(bad, sizeof bad, "%s has %ld of %ld bytes%s", rel, got, size, got == size ? ", other contents" : ""); break; }
    }
    r_fclose(f);
    snprintf(p, sizeof p, "%s %s", name, bad[0] ? bad : "ok");
    out(bad[0] ? "BAD" : "compile", p);
}

static void see(const char *p)
{
    const char *b = p ? strrchr(p, '/') : NULL;
    b = b ? b + 1 : p;
    if (b && !strncmp(b, "vfprobe", 7) && dir && expect) {
        verify(b);
        if (window) { usleep(rnd() % window); verify(b); }
    }
}

int open(const char *p, int fl, ...)
{
    va_list a; int m, r;
    va_start(a, fl); m = va_arg(a, int); va_end(a);
    init(); see(p);
    if (ours(p)) { pause_(); out("open", p); }
    r = r_open(p, fl, m);
    if (ours(p)) pause_();
    return r;
}
int open64(const char *p, int fl, ...)
{
    va_list a; int m;
    va_start(a, fl); m = va_arg(a, int); va_end(a);
    return open(p, fl, m);
}
FILE *fopen(const char *p, const char *m)
{
    FILE *f;
    init(); see(p);
    if (ours(p)) { pause_(); out("fopen", p); }
    f = r_fopen(p, m);
    if (ours(p)) pause_();
    return f;
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int mkdir(const char *p, mode_t m)
{
    int r;
    init();
    if (ours(p)) { pause_(); out("mkdir", p); }
    r = r_mkdir(p, m);
    if (ours(p)) pause_();
    return r;
}
int stat(const char *p, struct stat *s)
{
    int r;
    init();
    if (ours(p)) pause_();
    r = r_stat(p, s);
    if (ours(p)) { out("stat", p); pause_(); }
    return r;
}
int flock(int fd, int op)
{
    int r;
    init(); pause_();
    out("flock", op & LOCK_UN ? "un" : "ex");
    r = r_flock(fd, op);
    out("locked", "");
    pause_();
    return r;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    size_t r;
    init();
    if (f == stdout || f == stderr || s * n < 64) return r_fwrite(b, s, n, f);
    pause_();
    if (dly && rnd() % 4 == 0) {
        /* the first part reaches the file before the rest */
        size_t h = s * n / 2;
        if (r_fwrite(b, 1, h, f) != h) return 0;
        fflush(f);
        pause_();
        return r_fwrite((const char *)b + h, 1, s * n - h, f) == s * n - h ? n : 0;
    }
    r = r_fwrite(b, s, n, f);
    pause_();
    return r;
}
int fclose(FILE *f) { init(); if (dly) pause_(); return r_fclose(f); }
