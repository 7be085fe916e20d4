/* Runtime of the symbolic-real engine ("symfp").
 *
 * A symbolic real travels through the real program as an ordinary IEEE double:
 * a quiet NaN with tag 0x7FFC in the upper 16 bits whose payload is the index
 * of an expression node.  Every floating-point instruction of the code under
 * test has been rewritten (rewrite.py) into a call of this file, which builds
 * an expression node when an operand is symbolic and computes natively
 * otherwise.  Every node carries a shadow value (concolic execution): branches
 * on symbolic values follow the shadow and are appended to the path log.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <stdbool.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ctype.h>
#include <stdarg.h>
#include <sys/wait.h>
#include <unistd.h>
#include "symrt.h"

#define TAG 0x7FFCu

static Node *nodes; static uint64_t n_nodes, cap_nodes;
static Cond *conds; static uint64_t n_conds, cap_conds;
static char unsupported[512]; static uint64_t n_unsupported;

static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
int symrt_is(double d) { return (bits(d) >> 48) == TAG; }
#define IS(d) ((bits(d) >> 48) == TAG)
#define IDX(d) (bits(d) & 0xFFFFFFFFFFFFull)

void symrt_note_unsupported(const char *what)
{
    if (!n_unsupported) snprintf(unsupported, sizeof unsupported, "%s", what);
    n_unsupported++;
    if (getenv("SYMRT_VERBOSE")) fprintf(stderr, "symrt: unsupported: %s\n", what);
}

double symrt_shadow(double d)
{
    if (!IS(d)) return d;
    uint64_t i = IDX(d);
    if (i >= n_nodes) { symrt_note_unsupported("dangling symbolic handle"); return 0; }
    return nodes[i].shadow;
}
#define SH(d) symrt_shadow(d)

/* hash-consing */
static uint64_t *htab; static uint64_t hcap;
static uint64_t hmix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static uint64_t hnode(uint32_t op, uint32_t aux, uint64_t a, uint64_t b) { return hmix(a * 31 + hmix(b + op * 977 + (uint64_t)aux * 65537)); }
static void hgrow(void)
{
    uint64_t nc = hcap ? hcap * 2 : 1 << 16;
    free(htab); htab = calloc(nc, 8); hcap = nc;
    for (uint64_t i = 0; i < n_nodes; i++) {
        uint64_t h = hnode(nodes[i].op, nodes[i].aux, nodes[i].a, nodes[i].b) & (hcap - 1);
        while (htab[h]) h = (h + 1) & (hcap - 1);
        htab[h] = i + 1;
    }
}

double symrt_mk(uint32_t op, uint32_t aux, double a, double b, double shadow)
{
    uint64_t ua = bits(a), ub = bits(b);
    if (2 * (n_nodes + 1) > hcap) hgrow();
    uint64_t h = hnode(op, aux, ua, ub) & (hcap - 1);
    while (htab[h]) {
        Node *n = &nodes[htab[h] - 1];
        if (n->op == op && n->aux == aux && n->a == ua && n->b == ub)
            return dbl(((uint64_t)TAG << 48) | (htab[h] - 1));
        h = (h + 1) & (hcap - 1);
    }
    if (n_nodes == cap_nodes) {
        cap_nodes = cap_nodes ? cap_nodes * 2 : 1 << 14;
        nodes = realloc(nodes, cap_nodes * sizeof(Node));
    }
    nodes[n_nodes].op = op; nodes[n_nodes].aux = aux;
    nodes[n_nodes].a = ua; nodes[n_nodes].b = ub; nodes[n_nodes].shadow = shadow;
    htab[h] = n_nodes + 1;
    return dbl(((uint64_t)TAG << 48) | n_nodes++);
}

/* access from Python */
void symrt_reset(void) { n_nodes = n_conds = n_unsupported = 0; if (htab) memset(htab, 0, hcap * 8); }
uint64_t symrt_n_nodes(void) { return n_nodes; }
Node *symrt_nodes(void) { return nodes; }
uint64_t symrt_n_conds(void) { return n_conds; }
Cond *symrt_conds(void) { return conds; }
uint64_t symrt_n_unsupported(void) { return n_unsupported; }
const char *symrt_unsupported(void) { return unsupported; }
void symrt_var(uint32_t id, double shadow, double *out) { *out = symrt_mk(OP_VAR, id, 0, 0, shadow); }

/* arithmetic */
double symfp_add(double a, double b)
{
    if (!IS(a) && !IS(b)) return a + b;
    if (!IS(a) && a == 0) return b;
    if (!IS(b) && b == 0) return a;
    return symrt_mk(OP_ADD, 0, a, b, SH(a) + SH(b));
}
double symfp_sub(double a, double b)
{
    if (!IS(a) && !IS(b)) return a - b;
    if (!IS(b) && b == 0) return a;
    if (bits(a) == bits(b)) return 0;
    return symrt_mk(OP_SUB, 0, a, b, SH(a) - SH(b));
}
double symfp_mul(double a, double b)
{
    if (!IS(a) && !IS(b)) return a * b;
    if (!IS(a)) { if (a == 0) return 0; if (a == 1) return b; }
    if (!IS(b)) { if (b == 0) return 0; if (b == 1) return a; }
    return symrt_mk(OP_MUL, 0, a, b, SH(a) * SH(b));
}
double symfp_div(double a, double b)
{
    if (!IS(a) && !IS(b)) return a / b;
    if (!IS(b) && b == 1) return a;
    if (!IS(a) && a == 0) return 0;
    if (bits(a) == bits(b)) return 1;
    return symrt_mk(OP_DIV, 0, a, b, SH(a) / SH(b));
}
double symfp_neg(double a) { return IS(a) ? symrt_mk(OP_NEG, 0, a, 0, -SH(a)) : -a; }
double symfp_fma(double a, double b, double c) { return symfp_add(symfp_mul(a, b), c); }
double symfp_rem(double a, double b)
{
    if (!IS(a) && !IS(b)) return fmod(a, b);
    symrt_note_unsupported("frem"); return fmod(SH(a), SH(b));
}

static void push_cond(int pred, double a, double b, int out)
{
    if (n_conds == cap_conds) {
        cap_conds = cap_conds ? cap_conds * 2 : 1 << 12;
        conds = realloc(conds, cap_conds * sizeof(Cond));
    }
    conds[n_conds].a = bits(a); conds[n_conds].b = bits(b);
    conds[n_conds].pred = pred; conds[n_conds].outcome = out;
    n_conds++;
}

/* predicates numbered as in symrt.h; LLVM's ordered/unordered variants coincide
 * on reals, a symbolic real is never NaN */
static bool cmp(int p, double x, double y)
{
    switch (p) {
    case P_EQ: return x == y; case P_NE: return x != y;
    case P_LT: return x < y; case P_LE: return x <= y;
    case P_GT: return x > y; case P_GE: return x >= y;
    }
    return false;
}
bool symrt_cmp(int p, double a, double b)
{
    if (bits(a) == bits(b)) return p == P_EQ || p == P_LE || p == P_GE;
    if (!IS(a) && (isinf(a) || isnan(a))) return isnan(a) ? p == P_NE : cmp(p, a, SH(b));
    if (!IS(b) && (isinf(b) || isnan(b))) return isnan(b) ? p == P_NE : cmp(p, SH(a), b);
    bool r = cmp(p, SH(a), SH(b));
    push_cond(p, a, b, r);
    return r;
}
#define FCMP(name, pred, native) \
    bool symfp_fcmp_##name(double a, double b) \
    { if (!IS(a) && !IS(b)) return native; return symrt_cmp(pred, a, b); }
FCMP(oeq, P_EQ, a == b)            FCMP(ueq, P_EQ, !(a < b) && !(a > b))
FCMP(one, P_NE, (a < b) || (a > b)) FCMP(une, P_NE, a != b)
FCMP(olt, P_LT, a < b)             FCMP(ult, P_LT, !(a >= b))
FCMP(ole, P_LE, a <= b)            FCMP(ule, P_LE, !(a > b))
FCMP(ogt, P_GT, a > b)             FCMP(ugt, P_GT, !(a <= b))
FCMP(oge, P_GE, a >= b)            FCMP(uge, P_GE, !(a < b))
bool symfp_fcmp_ord(double a, double b)
{ return (IS(a) || !isnan(a)) && (IS(b) || !isnan(b)); }
bool symfp_fcmp_uno(double a, double b) { return !symfp_fcmp_ord(a, b); }

/* conversions: a symbolic value is pinned to its shadow, as a path condition */
double symrt_pin(double a)
{
    if (!IS(a)) return a;
    double s = SH(a);
    push_cond(P_PIN, a, s, 1);
    return s;
}
int64_t symfp_fptosi(double a) { return (int64_t)symrt_pin(a); }
uint64_t symfp_fptoui(double a) { return (uint64_t)symrt_pin(a); }
float symfp_fptrunc(double a) { return (float)symrt_pin(a); }
long double symfp_fpext80(double a) { return (long double)symrt_pin(a); }

/* functions with exact treatment */
double symfp_sqrt(double a) { return IS(a) ? symrt_mk(OP_SQRT, 0, a, 0, sqrt(SH(a))) : sqrt(a); }
/* with symrt_absatom, an absolute value is one term instead of two paths */
int symrt_absatom;
double symfp_fabs(double a) { if (symrt_absatom && IS(a)) return symrt_mk(OP_ABS, 0, a, 0, fabs(SH(a)));
    return IS(a) ? (symrt_cmp(P_LT, a, 0) ? symfp_neg(a) : a) : fabs(a); }
double symfp_sin(double a) { return IS(a) ? symrt_mk(OP_SIN, 0, a, 0, sin(SH(a))) : sin(a); }
double symfp_cos(double a) { return IS(a) ? symrt_mk(OP_COS, 0, a, 0, cos(SH(a))) : cos(a); }
double symfp_exp(double a) { return IS(a) ? symrt_mk(OP_EXP, 0, a, 0, exp(SH(a))) : exp(a); }
double symfp_log(double a) { return IS(a) ? symrt_mk(OP_LOG, 0, a, 0, log(SH(a))) : log(a); }
double symfp_powi(double a, int n)
{
    if (!IS(a)) return pow(a, n);
    int m = n < 0 ? -n : n; double r = 1;
    if (m > 64) { symrt_note_unsupported("large power"); return pow(SH(a), n); }
    for (int i = 0; i < m; i++) r = symfp_mul(r, a);
    return n < 0 ? symfp_div(1, r) : r;
}
double symfp_pow(double a, double b)
{
    if (!IS(a) && !IS(b)) return pow(a, b);
    if (!IS(b) && b == floor(b) && fabs(b) <= 64) return symfp_powi(a, (int)b);
    if (!IS(b) && b == 0.5) return symfp_sqrt(a);
    return symrt_mk(OP_POW, 0, a, b, pow(SH(a), SH(b)));
}
double symfp_hypot(double a, double b) { return symfp_sqrt(symfp_add(symfp_mul(a, a), symfp_mul(b, b))); }
double symfp_fmax(double a, double b) { if (!IS(a) && !IS(b)) return fmax(a, b); return symrt_cmp(P_LT, a, b) ? b : a; }
double symfp_fmin(double a, double b) { if (!IS(a) && !IS(b)) return fmin(a, b); return symrt_cmp(P_LT, a, b) ? a : b; }
double symfp_ceil(double a) { return ceil(symrt_pin(a)); }
double symfp_floor(double a) { return floor(symrt_pin(a)); }
double symfp_rint(double a) { return rint(symrt_pin(a)); }
double symfp_round(double a) { return round(symrt_pin(a)); }
double symfp_trunc(double a) { return trunc(symrt_pin(a)); }
double symfp_copysign(double a, double b)
{
    if (!IS(a) && !IS(b)) return copysign(a, b);
    double m = symfp_fabs(a);
    bool neg = IS(b) ? symrt_cmp(P_LT, b, 0) : signbit(b);
    return neg ? symfp_neg(m) : m;
}

/* uninterpreted functions: stand for an arbitrary function of one variable.
 * They yield a fresh real even for a concrete argument. */
static const char *uf_names[] = { "erf", "tgamma", "atan", "asinh", "lgamma", "tanh", 0 };
static double uf_native(int k, double x)
{
    switch (k) { case 0: return erf(x); case 1: return tgamma(x); case 2: return atan(x);
    case 3: return asinh(x); case 4: return lgamma(x); case 5: return tanh(x); }
    return 0;
}
const char *symrt_uf_name(int k) { return uf_names[k]; }
static double uf(int k, double x)
{
    double s = uf_native(k, SH(x));
    /* concrete arguments are keyed by their value rounded to 10 digits */
    if (!IS(x)) { char b[64]; snprintf(b, sizeof b, "%.10e", x == 0 ? 0.0 : x); x = strtod(b, 0); if (fabs(x) < 1e-13) x = 0; }
    return symrt_mk(OP_UF, k, x, 0, s);
}
double symfp_erf(double x) { return uf(0, x); }
double symfp_tgamma(double x) { return uf(1, x); }
double symfp_atan(double x) { return uf(2, x); }
double symfp_asinh(double x) { return uf(3, x); }
double symfp_lgamma(double x) { return uf(4, x); }
double symfp_tanh(double x) { return uf(5, x); }

/* a node named in a generated integrand */
double symrt_node(long i) { return dbl(((uint64_t)TAG << 48) | (uint64_t)i); }

/* ---- BLAS / LAPACK as called by NumPy ---------------------------------- */
typedef void (*vfn)();
static void *nxt(const char *n)
{
    void *p = dlsym(RTLD_NEXT, n);
    static const char *libs[] = { "liblapack.so.3", "libblas.so.3", "libopenblas.so.0", "libm.so.6", 0 };
    for (int i = 0; !p && libs[i]; i++) {
        static void *(*o)(const char *, int); if (!o) o = dlsym(RTLD_NEXT, "dlopen");
        void *h = o(libs[i], RTLD_LAZY);
        if (h) { p = dlsym(h, n); void *self = dlsym(RTLD_DEFAULT, n); if (p == self && strstr(n, "_") && n[strlen(n) - 1] == '_') { /* found ourselves? */ Dl_info d; if (dladdr(p, &d) && d.dli_fname && strstr(d.dli_fname, "symrt")) p = 0; } }
    }
    return p;
}
static int any(const double *x, int n, int inc) { for (int i = 0; i < n; i++) if (IS(x[(long)i * inc])) return 1; return 0; }

double cblas_ddot(int n, const double *x, int ix, const double *y, int iy)
{
    if (ix < 0) x -= (long)(n - 1) * ix;
    if (iy < 0) y -= (long)(n - 1) * iy;
    double r = 0;
    for (int i = 0; i < n; i++) r = symfp_add(r, symfp_mul(x[(long)i * ix], y[(long)i * iy]));
    return r;
}
void cblas_dgemv(int order, int trans, int m, int n, double alpha, const double *A, int lda,
                 const double *x, int ix, double beta, double *y, int iy)
{
    int rows = trans == 111 ? m : n, cols = trans == 111 ? n : m;
    if (ix < 0) x -= (long)(cols - 1) * ix;
    if (iy < 0) y -= (long)(rows - 1) * iy;
    for (int i = 0; i < rows; i++) {
        double r = 0;
        for (int j = 0; j < cols; j++) {
            int p = trans == 111 ? i : j, q = trans == 111 ? j : i;
            double a = order == 101 ? A[(long)p * lda + q] : A[(long)q * lda + p];
            r = symfp_add(r, symfp_mul(a, x[(long)j * ix]));
        }
        r = symfp_mul(alpha, r);
        y[(long)i * iy] = beta == 0 ? r : symfp_add(r, symfp_mul(beta, y[(long)i * iy]));
    }
}
void cblas_dgemm(int order, int ta, int tb, int m, int n, int k, double alpha,
                 const double *A, int lda, const double *B, int ldb, double beta, double *C, int ldc)
{
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) {
            double r = 0;
            for (int l = 0; l < k; l++) {
                int p = ta == 111 ? i : l, q = ta == 111 ? l : i;
                double a = order == 101 ? A[(long)p * lda + q] : A[(long)q * lda + p];
                p = tb == 111 ? l : j; q = tb == 111 ? j : l;
                double b = order == 101 ? B[(long)p * ldb + q] : B[(long)q * ldb + p];
                r = symfp_add(r, symfp_mul(a, b));
            }
            double *c = order == 101 ? &C[(long)i * ldc + j] : &C[(long)j * ldc + i];
            r = symfp_mul(alpha, r);
            *c = beta == 0 ? r : symfp_add(r, symfp_mul(beta, *c));
        }
}
void cblas_dsyrk(int order, int uplo, int trans, int n, int k, double alpha, const double *A, int lda,
                 double beta, double *C, int ldc)
{
    (void)uplo;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            double r = 0;
            for (int l = 0; l < k; l++) {
                int p = trans == 111 ? i : l, q = trans == 111 ? l : i;
                double a = order == 101 ? A[(long)p * lda + q] : A[(long)q * lda + p];
                p = trans == 111 ? j : l; q = trans == 111 ? l : j;
                double b = order == 101 ? A[(long)p * lda + q] : A[(long)q * lda + p];
                r = symfp_add(r, symfp_mul(a, b));
            }
            C[(long)i * ldc + j] = symfp_add(symfp_mul(alpha, r), beta == 0 ? 0 : symfp_mul(beta, C[(long)i * ldc + j]));
        }
}
void cblas_daxpy(int n, double a, const double *x, int ix, double *y, int iy)
{ for (int i = 0; i < n; i++) y[(long)i * iy] = symfp_add(y[(long)i * iy], symfp_mul(a, x[(long)i * ix])); }
void cblas_dcopy(int n, const double *x, int ix, double *y, int iy)
{ for (int i = 0; i < n; i++) y[(long)i * iy] = x[(long)i * ix]; }
/* Fortran entry points used by numpy.linalg for copies */
void dcopy_(int *n, double *x, int *ix, double *y, int *iy)
{
    long px = *ix < 0 ? (long)(1 - *n) * *ix : 0, py = *iy < 0 ? (long)(1 - *n) * *iy : 0;
    for (int i = 0; i < *n; i++) y[py + (long)i * *iy] = x[px + (long)i * *ix];
}
double ddot_(int *n, double *x, int *ix, double *y, int *iy) { return cblas_ddot(*n, x, *ix, y, *iy); }

/* linear solve: contract stub.  Solution entries are fresh reals; the
 * equations A x = b are recorded as axioms.  A diagonal concrete-pattern
 * matrix is divided out exactly. */
static int solve_counter;
void symrt_axiom_eq(double a, double b) { push_cond(P_AXIOM, a, b, 1); }
void dgesv_(int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info)
{
    int N = *n, sym = 0;
    for (int j = 0; j < N; j++) sym |= any(a + (long)j * *lda, N, 1);
    for (int j = 0; j < *nrhs; j++) sym |= any(b + (long)j * *ldb, N, 1);
    if (!sym) { ((vfn)nxt("dgesv_"))(n, nrhs, a, lda, ipiv, b, ldb, info); return; }
    int diag = 1;
    for (int j = 0; j < N; j++) for (int i = 0; i < N; i++)
        if (i != j && (IS(a[i + (long)j * *lda]) || a[i + (long)j * *lda] != 0)) diag = 0;
    *info = 0;
    for (int i = 0; i < N; i++) ipiv[i] = i + 1;
    if (diag) {
        for (int r = 0; r < *nrhs; r++) for (int i = 0; i < N; i++)
            b[i + (long)r * *ldb] = symfp_div(b[i + (long)r * *ldb], a[i + (long)i * *lda]);
        return;
    }
    /* shadow solve by Gaussian elimination on shadows */
    double *A = malloc(sizeof(double) * N * N), *B = malloc(sizeof(double) * N);
    for (int r = 0; r < *nrhs; r++) {
        for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) A[i * N + j] = SH(a[i + (long)j * *lda]); B[i] = SH(b[i + (long)r * *ldb]); }
        for (int c = 0; c < N; c++) {
            int p = c; for (int i = c; i < N; i++) if (fabs(A[i * N + c]) > fabs(A[p * N + c])) p = i;
            if (A[p * N + c] == 0) { *info = c + 1; free(A); free(B); return; }
            if (p != c) { for (int j = 0; j < N; j++) { double t = A[p * N + j]; A[p * N + j] = A[c * N + j]; A[c * N + j] = t; } double t = B[p]; B[p] = B[c]; B[c] = t; }
            for (int i = 0; i < N; i++) if (i != c) { double f = A[i * N + c] / A[c * N + c]; for (int j = c; j < N; j++) A[i * N + j] -= f * A[c * N + j]; B[i] -= f * B[c]; }
        }
        double *x = malloc(sizeof(double) * N);
        for (int i = 0; i < N; i++) x[i] = symrt_mk(OP_SOLVE, solve_counter * 1000 + r * 100 + i, 0, 0, B[i] / A[i * N + i]);
        for (int i = 0; i < N; i++) {
            double s = 0;
            for (int j = 0; j < N; j++) s = symfp_add(s, symfp_mul(a[i + (long)j * *lda], x[j]));
            symrt_axiom_eq(s, b[i + (long)r * *ldb]);
        }
        memcpy(b + (long)r * *ldb, x, sizeof(double) * N); free(x);
    }
    solve_counter++;
    free(A); free(B);
}
/* eigen-decomposition of a diagonal symbolic matrix (as LAPACK returns it) */
void dgeev_(char *jl, char *jr, int *n, double *a, int *lda, double *wr, double *wi, double *vl, int *ldvl,
            double *vr, int *ldvr, double *work, int *lwork, int *info)
{
    int N = *n, sym = 0;
    if (*lwork != -1) for (int j = 0; j < N; j++) sym |= any(a + (long)j * *lda, N, 1);
    if (!sym) {
        ((void (*)(char *, char *, int *, double *, int *, double *, double *, double *, int *, double *, int *, double *, int *, int *))nxt("dgeev_"))(jl, jr, n, a, lda, wr, wi, vl, ldvl, vr, ldvr, work, lwork, info);
        return;
    }
    for (int j = 0; j < N; j++) for (int i = 0; i < N; i++)
        if (i != j && (IS(a[i + (long)j * *lda]) || a[i + (long)j * *lda] != 0)) symrt_note_unsupported("eig of non-diagonal symbolic matrix");
    for (int i = 0; i < N; i++) { wr[i] = a[i + (long)i * *lda]; wi[i] = 0; }
    if (*jr == 'V') for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) vr[i + (long)j * *ldvr] = i == j;
    if (*jl == 'V') for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) vl[i + (long)j * *ldvl] = i == j;
    *info = 0;
}
void dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info)
{
    int sym = 0;
    for (int j = 0; j < *n; j++) sym |= any(a + (long)j * *lda, *m, 1);
    if (!sym) { ((vfn)nxt("dgetrf_"))(m, n, a, lda, ipiv, info); return; }
    int diag = 1;
    for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++)
        if (i != j && (IS(a[i + (long)j * *lda]) || a[i + (long)j * *lda] != 0)) diag = 0;
    if (!diag) symrt_note_unsupported("LU of non-diagonal symbolic matrix");
    for (int i = 0; i < *n; i++) ipiv[i] = i + 1;
    *info = 0;
}
void dgesdd_(char *jz, int *m, int *n, double *a, int *lda, double *s, double *u, int *ldu, double *vt, int *ldvt,
             double *work, int *lwork, int *iwork, int *info)
{
    if (*lwork != -1) { int sym = 0; for (int j = 0; j < *n; j++) sym |= any(a + (long)j * *lda, *m, 1);
        if (sym) { int mn = *m < *n ? *m : *n, ok = *jz == 'N' && mn <= 64, rows[64] = {0}; double v[64];
            /* at most one nonzero entry in every row and column (diagonal matrices): its modulus */
            for (int j = 0; ok && j < mn; j++) { v[j] = 0; int c = 0;
                for (int i = 0; ok && i < mn; i++) { double x = a[i + (long)j * *lda];
                    if (IS(x) || x != 0) { v[j] = x; ok = !c++ && !rows[i]++; } } }
            if (*m != *n) for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) if ((i >= mn || j >= mn) && (IS(a[i + (long)j * *lda]) || a[i + (long)j * *lda] != 0)) ok = 0;
            if (ok) { for (int i = 0; i < mn; i++) s[i] = symfp_fabs(v[i]);
                for (int i = 0; i < mn; i++) for (int j = i + 1; j < mn; j++) if (symfp_fcmp_olt(s[i], s[j])) { double t = s[i]; s[i] = s[j]; s[j] = t; }
                *info = 0; return; }
            symrt_note_unsupported("svd of symbolic matrix"); *info = -1; return; } }
    ((void (*)(char *, int *, int *, double *, int *, double *, double *, int *, double *, int *, double *, int *, int *, int *))nxt("dgesdd_"))(jz, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, iwork, info);
}

#define SYMRT
#include "redir.c"
