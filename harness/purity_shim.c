/* preloaded by purity_check.py: watches the environment and clock calls made between the markers, and shifts the clock */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static int inside;
static char job[96];
static char seen[64][160];
static int nseen;
static void note(const char *what, const char *name)
{
    if (!inside) return;
    char l[160];
    snprintf(l, sizeof l, "%s %.60s\t%.60s", what, name, job);
    for (int i = 0; i < nseen; i++)
        if (!strncmp(seen[i], l, strcspn(l, "\t") + 1)) return;
    if (nseen < 64) strcpy(seen[nseen++], l);
}
#define REAL(f) static __typeof__(&f) real; if (!real) real = (__typeof__(&f))dlsym(RTLD_NEXT, #f)
int access(const char *p, int m)
{
    REAL(access);
    if (!strncmp(p, "/verif-marker/", 14)) {
        inside = strcmp(p + 14, "end") != 0;
        snprintf(job, sizeof job, "%s", p + 14);
    }
    return real(p, m);
}
char *getenv(const char *n)
{
    note("getenv", n);
    extern char **environ;
    size_t k = strlen(n);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
    return 0;
}
char *secure_getenv(const char *n) { return getenv(n); }
int setenv(const char *n, const char *v, int o) { REAL(setenv); note("setenv", n); return real(n, v, o); }
int unsetenv(const char *n) { REAL(unsetenv); note("unsetenv", n); return real(n); }
int putenv(char *s) { REAL(putenv); note("putenv", s); return real(s); }
static long shift(void)
{
    static long s;
    static int done;
    if (!done) { int was = inside; inside = 0; char *e = getenv("VERIF_SHIFT"); s = e ? atol(e) : 0; inside = was; done = 1; }
    return s;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    REAL(clock_gettime);
    note("clock", "read");
    int r = real(c, t);
    if (!r && c == CLOCK_REALTIME) t->tv_sec += shift();
    return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) { REAL(gettimeofday); note("clock", "read"); int r = real(t, z); if (!r && t) t->tv_sec += shift(); return r; }
time_t time(time_t *p) { REAL(time); note("clock", "read"); time_t t = real(0) + shift(); if (p) *p = t; return t; }
unsigned sleep(unsigned s) { note("sleep", "call"); return 0; }
__attribute__((destructor)) static void out(void)
{
    inside = 0;
    char *p = getenv("VERIF_SHIM_LOG");
    FILE *f = p ? fopen(p, "w") : 0;
    if (!f) return;
    fprintf(f, "shim\n");
    for (int i = 0; i < nseen; i++) fprintf(f, "%s\n", seen[i]);
    fclose(f);
}
