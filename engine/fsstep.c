/* Preloaded into a process under the control of checks/c35.py: every operation of the process on a
 * file below /tmp is announced on FS_OUT and performed (below SYMRT_SCRATCH) when FS_IN says so. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/uio.h>
static int on, in = -1, out = -1;
static char fdname[1024][256];
#define NXT(ret, name, ...) static ret (*o)(__VA_ARGS__); if (!o) o = dlsym(RTLD_NEXT, #name)
void fsstep(int v) { on = v; in = atoi(getenv("FS_IN")); out = atoi(getenv("FS_OUT")); }
static ssize_t rawwrite(int fd, const void *b, size_t n) { NXT(ssize_t, write, int, const void *, size_t); return o(fd, b, n); }
static int mine(const char *p) { return on && p && !strncmp(p, "/tmp/", 5) && strncmp(p, getenv("SYMRT_SCRATCH"), strlen(getenv("SYMRT_SCRATCH"))); }
static const char *red(const char *p, char *b) { snprintf(b, 2048, "%s/%s", getenv("SYMRT_SCRATCH"), p + 5); return b; }
static char reply[65536];
static void ask(const char *op, const char *a, const char *b)
{
    int s = on; on = 0;
    char m[65536]; snprintf(m, sizeof m, "%s\t%s\t%s\n", op, a ? a : "", b ? b : "");
    for (char *c = m; *c; c++) if (*c == '\n' && c[1]) *c = ' ';
    rawwrite(out, m, strlen(m));
    size_t n = 0; char c;
    while (n < sizeof reply - 1 && read(in, &c, 1) == 1 && c != '\n') reply[n++] = c;
    reply[n] = 0;
    if (!n) _exit(77);
    on = s;
}
static void done(long v) { int e = errno; char m[64]; snprintf(m, sizeof m, "done\t%ld\t\n", v); rawwrite(out, m, strlen(m)); errno = e; }
static void track(int fd, const char *p) { if (fd >= 0 && fd < 1024) snprintf(fdname[fd], 256, "%s", p); }

static FILE *fo(const char *nm, const char *p, const char *m)
{
    FILE *(*o)(const char *, const char *) = dlsym(RTLD_NEXT, nm);
    if (!mine(p)) return o(p, m);
    char b[2048]; int w = strpbrk(m, "wa+") != 0;
    ask(w ? (strchr(m, 'x') ? "creat" : strchr(m, 'a') ? "append" : "openw") : "test", p, 0);
    FILE *f = o(red(p, b), m);
    if (f && w) track(fileno(f), p);
    done(f != 0);
    return f;
}
FILE *fopen(const char *p, const char *m) { return fo("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return fo("fopen64", p, m); }
int fclose(FILE *f)
{
    NXT(int, fclose, FILE *);
    int fd = fileno(f);
    if (on && fd >= 0 && fd < 1024 && *fdname[fd]) { ask("close", fdname[fd], 0); *fdname[fd] = 0; int r = o(f); done(0); return r; }
    return o(f);
}
int close(int fd)
{
    NXT(int, close, int);
    if (on && fd >= 0 && fd < 1024 && *fdname[fd]) { ask("close", fdname[fd], 0); *fdname[fd] = 0; int r = o(fd); done(0); return r; }
    return o(fd);
}
static int op(const char *nm, const char *p, int fl, int mode)
{
    int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, nm);
    if (!mine(p)) return o(p, fl, mode);
    char b[2048]; int w = (fl & O_ACCMODE) != O_RDONLY;
    ask(!w ? "test" : fl & O_EXCL ? "creat" : fl & O_TRUNC ? "openw" : "append", p, 0);
    int r = o(red(p, b), fl, mode);
    if (r >= 0 && w) track(r, p);
    done(r >= 0);
    return r;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return op("open", p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return op("open64", p, fl, m); }
int creat(const char *p, mode_t m) { return op("open", p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, const void *b, size_t n)
{
    NXT(ssize_t, write, int, const void *, size_t);
    if (!on || fd < 0 || fd >= 1024 || !*fdname[fd]) return o(fd, b, n);
    ask("write", fdname[fd], 0); ssize_t r = o(fd, b, n); done(1); return r;
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    NXT(ssize_t, writev, int, const struct iovec *, int);
    if (!on || fd < 0 || fd >= 1024 || !*fdname[fd]) return o(fd, v, n);
    ask("write", fdname[fd], 0); ssize_t r = o(fd, v, n); done(1); return r;
}
#define TEST(name, T) int name(const char *p, T *s) { NXT(int, name, const char *, T *); if (!mine(p)) return o(p, s); char b[2048]; ask("test", p, 0); int r = o(red(p, b), s); done(r == 0); return r; }
TEST(stat, struct stat) TEST(lstat, struct stat) TEST(stat64, struct stat64) TEST(lstat64, struct stat64)
int access(const char *p, int m) { NXT(int, access, const char *, int); if (!mine(p)) return o(p, m); char b[2048]; ask("test", p, 0); int r = o(red(p, b), m); done(r == 0); return r; }
#define ONE(name) int name(const char *p) { NXT(int, name, const char *); if (!mine(p)) return o(p); char b[2048]; ask("unlink", p, 0); int r = o(red(p, b)); done(r == 0); return r; }
ONE(unlink) ONE(remove) ONE(rmdir)
int mkdir(const char *p, mode_t m) { NXT(int, mkdir, const char *, mode_t); if (!mine(p)) return o(p, m); char b[2048]; ask("mkdir", p, 0); int r = o(red(p, b), m); done(r == 0); return r; }
int rename(const char *p, const char *q)
{
    NXT(int, rename, const char *, const char *);
    if (!mine(p) && !mine(q)) return o(p, q);
    char b[2048], c[2048]; ask("rename", p, q); int r = o(red(p, b), red(q, c)); done(r == 0); return r;
}
int link(const char *p, const char *q)
{
    NXT(int, link, const char *, const char *);
    if (!mine(p) && !mine(q)) return o(p, q);
    char b[2048], c[2048]; ask("link", p, q); int r = o(red(p, b), red(q, c)); done(r == 0); return r;
}
int mkstemps(char *t, int k)
{
    NXT(int, mkstemps, char *, int);
    if (!mine(t)) return o(t, k);
    char b[2048]; red(t, b); ask("mkstemp", t, 0);
    int r = o(b, k); if (r >= 0) { memcpy(t + 5, b + strlen(b) - strlen(t + 5), strlen(t + 5)); track(r, t); }
    done(r >= 0); return r;
}
int mkstemp(char *t) { return mkstemps(t, 0); }
int mkstemp64(char *t) { return mkstemps(t, 0); }
int mkstemps64(char *t, int k) { return mkstemps(t, k); }
char *mkdtemp(char *t)
{
    NXT(char *, mkdtemp, char *);
    if (!mine(t)) return o(t);
    char b[2048]; red(t, b); ask("mkdtemp", t, 0);
    char *r = o(b); if (r) memcpy(t + 5, b + strlen(b) - strlen(t + 5), strlen(t + 5));
    done(r != 0); return r ? t : 0;
}
/* the controller plays the compiler */
int system(const char *c)
{
    NXT(int, system, const char *);
    if (!on || !c) return o(c);
    ask("system", c, 0);
    return atoi(reply + 3) << 8;
}
FILE *popen(const char *c, const char *m)
{
    NXT(FILE *, popen, const char *, const char *);
    if (on) ask("other", "popen", c);
    return o(c, m);
}
int flock(int fd, int f) { NXT(int, flock, int, int); if (on && fd >= 0 && fd < 1024 && *fdname[fd]) ask("other", "flock", 0); return o(fd, f); }
int lockf(int fd, int f, off_t n) { NXT(int, lockf, int, int, off_t); if (on && fd >= 0 && fd < 1024 && *fdname[fd]) ask("other", "lockf", 0); return o(fd, f, n); }
void *dlopen(const char *p, int f)
{
    NXT(void *, dlopen, const char *, int);
    if (!mine(p)) return o(p, f);
    char b[2048]; ask("dlopen", p, 0);
    int s = on; on = 0; void *h = o(red(p, b), f); on = s;
    done(h != 0); return h;
}
