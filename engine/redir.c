/* Keeps the integrand files that hermite_cpp writes to /tmp inside the check's
 * scratch directory; in symbolic mode they are compiled with the instrumentation. */
#ifndef SYMRT
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <dlfcn.h>
static void *nxt(const char *n) { return dlsym(RTLD_NEXT, n); }
#endif
/* ---- integrand files: kept in the check's scratch directory, compiled with
 * the same instrumentation ------------------------------------------------ */
static int is_integrand(const char *p)
{
    if (!p || strncmp(p, "/tmp/", 5)) return 0;
    const char *q = strrchr(p, '.');
    return q && (!strcmp(q, ".cpp") || !strcmp(q, ".so") || !strcmp(q, ".cc") || !strcmp(q, ".c")) && getenv("SYMRT_SCRATCH");
}
static const char *redirect(const char *p, char *buf, size_t n)
{
    if (!is_integrand(p)) return p;
    const char *s = getenv("SYMRT_SCRATCH");
    if (!strncmp(p, s, strlen(s))) return p;
    char t[1024]; snprintf(t, sizeof t, "%s", p + 5);
    for (char *c = t; *c; c++) if (*c == '/') *c = '_';
    snprintf(buf, n, "%s/%s", s, t);
    return buf;
}
FILE *fopen64(const char *p, const char *m) { static FILE *(*o)(const char *, const char *); char b[2048]; if (!o) o = nxt("fopen64"); return o(redirect(p, b, sizeof b), m); }
FILE *fopen(const char *p, const char *m) { static FILE *(*o)(const char *, const char *); char b[2048]; if (!o) o = nxt("fopen"); return o(redirect(p, b, sizeof b), m); }
int access(const char *p, int m) { static int (*o)(const char *, int); char b[2048]; if (!o) o = nxt("access"); return o(redirect(p, b, sizeof b), m); }
void *dlopen(const char *p, int f) { static void *(*o)(const char *, int); char b[2048]; if (!o) o = nxt("dlopen"); return o(redirect(p, b, sizeof b), f); }
int rename(const char *p, const char *q) { static int (*o)(const char *, const char *); char b[2048], c[2048]; if (!o) o = nxt("rename"); return o(redirect(p, b, sizeof b), redirect(q, c, sizeof c)); }
int remove(const char *p) { static int (*o)(const char *); char b[2048]; if (!o) o = nxt("remove"); return o(redirect(p, b, sizeof b)); }
int unlink(const char *p) { static int (*o)(const char *); char b[2048]; if (!o) o = nxt("unlink"); return o(redirect(p, b, sizeof b)); }
int mkstemps(char *t, int k)
{
    static int (*o)(char *, int); char b[2048]; if (!o) o = nxt("mkstemps");
    const char *r = redirect(t, b, sizeof b);
    if (r == t) return o(t, k);
    int f = o(b, k); size_t n = strlen(t), m = strlen(b), l = strlen(strrchr(t, '/'));
    (void)n; memcpy(t + n - l + 1, b + m - l + 1, l - 1);
    return f;
}
int system(const char *cmd)
{
    static int (*o)(const char *); if (!o) o = nxt("system");
    const char *tool = getenv("SYMRT_INTEGRAND_CC");
    const char *src = cmd ? strstr(cmd, "/tmp/") : 0;
    if (!src || !getenv("SYMRT_SCRATCH")) return o(cmd);
    /* find the .cpp and the .so named in the command, compile them instrumented */
    char s[1024] = "", t[1024] = "", *save, *dup = strdup(cmd);
    for (char *w = strtok_r(dup, " \t\n;&|'\"", &save); w; w = strtok_r(0, " \t\n;&|'\"", &save)) {
        char *e = strrchr(w, '.');
        if (e && (!strcmp(e, ".cpp") || !strcmp(e, ".cc") || !strcmp(e, ".c"))) snprintf(s, sizeof s, "%s", w);
        if (e && !strcmp(e, ".so")) snprintf(t, sizeof t, "%s", w);
    }
    free(dup);
    if (!*s || !*t) return o(cmd);
    char b1[2048], b2[2048], c[8192];
    if (!tool) {        /* the project's own command on the redirected paths */
        const char *p = cmd; char *q = c;
        while (*p && q < c + sizeof c - 3000) {
            size_t ls = strlen(s), lt = strlen(t);
            const char *r = 0; size_t l = 0;
            if (!strncmp(p, s, ls)) { r = redirect(s, b1, sizeof b1); l = ls; }
            else if (!strncmp(p, t, lt)) { r = redirect(t, b2, sizeof b2); l = lt; }
            if (r) { strcpy(q, r); q += strlen(r); p += l; } else *q++ = *p++;
        }
        *q = 0;
        char d[8300]; snprintf(d, sizeof d, "unset LD_PRELOAD; %s", c);
        return o(d);
    }
    snprintf(c, sizeof c, "LD_PRELOAD= %s '%s' '%s'", tool, redirect(s, b1, sizeof b1), redirect(t, b2, sizeof b2));
    return o(c);
}
