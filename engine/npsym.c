/* Routes NumPy's float64 ufunc loops and float64 scalar arithmetic through the
 * symbolic runtime, so that hermipy's Python layer computes on symbolic reals
 * without any change to it. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
#include <numpy/ufuncobject.h>
#include <numpy/arrayscalars.h>
#include <math.h>
#include "symrt.h"

#define BIN(name, expr) \
static void L_##name(char **args, npy_intp const *n, npy_intp const *st, void *d) { \
    char *p = args[0], *q = args[1], *r = args[2]; (void)d; \
    for (npy_intp i = 0; i < n[0]; i++, p += st[0], q += st[1], r += st[2]) { \
        double a = *(double *)p, b = *(double *)q; *(double *)r = expr; } }
#define UN(name, expr) \
static void L_##name(char **args, npy_intp const *n, npy_intp const *st, void *d) { \
    char *p = args[0], *r = args[1]; (void)d; \
    for (npy_intp i = 0; i < n[0]; i++, p += st[0], r += st[1]) { \
        double a = *(double *)p; *(double *)r = expr; } }
#define CMP(name, expr) \
static void L_##name(char **args, npy_intp const *n, npy_intp const *st, void *d) { \
    char *p = args[0], *q = args[1], *r = args[2]; (void)d; \
    for (npy_intp i = 0; i < n[0]; i++, p += st[0], q += st[1], r += st[2]) { \
        double a = *(double *)p, b = *(double *)q; *(npy_bool *)r = expr; } }
#define PRED(name, expr) \
static void L_##name(char **args, npy_intp const *n, npy_intp const *st, void *d) { \
    char *p = args[0], *r = args[1]; (void)d; \
    for (npy_intp i = 0; i < n[0]; i++, p += st[0], r += st[1]) { \
        double a = *(double *)p; *(npy_bool *)r = expr; } }
#define S(x) symrt_is(x)
#define C2(p, native) ((S(a) || S(b)) ? symrt_cmp(p, a, b) : (native))

BIN(add, symfp_add(a, b)) BIN(subtract, symfp_sub(a, b)) BIN(multiply, symfp_mul(a, b))
BIN(divide, symfp_div(a, b)) BIN(power, symfp_pow(a, b)) BIN(maximum, symfp_fmax(a, b))
BIN(minimum, symfp_fmin(a, b)) BIN(hypot, symfp_hypot(a, b))
BIN(float_power, symfp_pow(a, b))
UN(negative, symfp_neg(a)) UN(absolute, symfp_fabs(a)) UN(sqrt, symfp_sqrt(a)) UN(square, symfp_mul(a, a))
UN(exp, symfp_exp(a)) UN(log, symfp_log(a)) UN(sin, symfp_sin(a)) UN(cos, symfp_cos(a)) UN(positive, a) UN(conjugate, a)
UN(reciprocal, symfp_div(1, a)) UN(rint, symfp_rint(a)) UN(floor, symfp_floor(a)) UN(ceil, symfp_ceil(a))
CMP(equal, C2(P_EQ, a == b)) CMP(not_equal, C2(P_NE, a != b)) CMP(less, C2(P_LT, a < b))
CMP(less_equal, C2(P_LE, a <= b)) CMP(greater, C2(P_GT, a > b)) CMP(greater_equal, C2(P_GE, a >= b))
PRED(isnan, S(a) ? 0 : isnan(a)) PRED(isinf, S(a) ? 0 : isinf(a) != 0) PRED(isfinite, S(a) ? 1 : isfinite(a) != 0)
PRED(logical_not, S(a) ? symrt_cmp(P_EQ, a, 0) : a == 0)

typedef void (*loop_t)(char **, npy_intp const *, npy_intp const *, void *);
static int replace(PyObject *mod, const char *name, loop_t f, int nin, int out)
{
    PyObject *u = PyObject_GetAttrString(mod, name);
    if (!u) { PyErr_Clear(); return -1; }
    int sig[3]; int k = 0;
    for (; k < nin; k++) sig[k] = NPY_DOUBLE;
    sig[k] = out;
    PyUFuncGenericFunction old;
    int r = PyUFunc_ReplaceLoopBySignature((PyUFuncObject *)u, (PyUFuncGenericFunction)f, sig, &old);
    Py_DECREF(u);
    return r;
}

/* matmul (generalised ufunc) */
static void L_matmul(char **args, npy_intp const *dim, npy_intp const *st, void *d)
{
    (void)d;
    npy_intp N = dim[0], m = dim[1], n = dim[2], p = dim[3];
    for (npy_intp o = 0; o < N; o++) {
        char *A = args[0] + o * st[0], *B = args[1] + o * st[1], *C = args[2] + o * st[2];
        for (npy_intp i = 0; i < m; i++) for (npy_intp k = 0; k < p; k++) {
            double r = 0;
            for (npy_intp j = 0; j < n; j++)
                r = symfp_add(r, symfp_mul(*(double *)(A + i * st[3] + j * st[4]), *(double *)(B + j * st[5] + k * st[6])));
            *(double *)(C + i * st[7] + k * st[8]) = r;
        }
    }
}

/* scalar slots */
static binaryfunc o_add[2], o_sub[2], o_mul[2], o_div[2];
static ternaryfunc o_pow[2];
static unaryfunc o_neg[2], o_abs[2];
static richcmpfunc o_cmp[2];
static inquiry o_bool[2];

static int scal(PyObject *o, double *d)
{
    if (PyFloat_Check(o)) { *d = PyFloat_AS_DOUBLE(o); return 1; }
    if (PyBool_Check(o) || PyLong_Check(o)) { *d = PyLong_AsDouble(o); if (PyErr_Occurred()) { PyErr_Clear(); return 0; } return 1; }
    if (PyArray_IsScalar(o, Integer)) { PyObject *f = PyNumber_Long(o); if (!f) { PyErr_Clear(); return 0; } *d = PyLong_AsDouble(f); Py_DECREF(f); return 1; }
    return 0;
}
static PyObject *mkf(double d)
{
    PyObject *r = PyArrayScalar_New(Double);
    PyArrayScalar_VAL(r, Double) = d;
    return r;
}
#define BSLOT(nm, fn) \
static PyObject *s_##nm(PyObject *x, PyObject *y, int k) { double a, b; \
    if (scal(x, &a) && scal(y, &b) && (S(a) || S(b))) return mkf(fn(a, b)); \
    return o_##nm[k](x, y); } \
static PyObject *s0_##nm(PyObject *x, PyObject *y) { return s_##nm(x, y, 0); } \
static PyObject *s1_##nm(PyObject *x, PyObject *y) { return s_##nm(x, y, 1); }
BSLOT(add, symfp_add) BSLOT(sub, symfp_sub) BSLOT(mul, symfp_mul) BSLOT(div, symfp_div)
static PyObject *s_pow(PyObject *x, PyObject *y, PyObject *z, int k) { double a, b;
    if (z == Py_None && scal(x, &a) && scal(y, &b) && (S(a) || S(b))) return mkf(symfp_pow(a, b));
    return o_pow[k](x, y, z); }
static PyObject *s0_pow(PyObject *x, PyObject *y, PyObject *z) { return s_pow(x, y, z, 0); }
static PyObject *s1_pow(PyObject *x, PyObject *y, PyObject *z) { return s_pow(x, y, z, 1); }
#define USLOT(nm, fn) \
static PyObject *s0_##nm(PyObject *x) { double a = PyFloat_AS_DOUBLE(x); return S(a) ? mkf(fn(a)) : o_##nm[0](x); } \
static PyObject *s1_##nm(PyObject *x) { double a = PyFloat_AS_DOUBLE(x); return S(a) ? mkf(fn(a)) : o_##nm[1](x); }
USLOT(neg, symfp_neg) USLOT(abs, symfp_fabs)
static int s0_bool(PyObject *x) { double a = PyFloat_AS_DOUBLE(x); return S(a) ? symrt_cmp(P_NE, a, 0) : o_bool[0](x); }
static int s1_bool(PyObject *x) { double a = PyFloat_AS_DOUBLE(x); return S(a) ? symrt_cmp(P_NE, a, 0) : o_bool[1](x); }
static PyObject *s_cmp(PyObject *x, PyObject *y, int op, int k)
{
    double a, b;
    if (scal(x, &a) && scal(y, &b) && (S(a) || S(b))) {
        int p = op == Py_EQ ? P_EQ : op == Py_NE ? P_NE : op == Py_LT ? P_LT : op == Py_LE ? P_LE : op == Py_GT ? P_GT : P_GE;
        return PyBool_FromLong(symrt_cmp(p, a, b));
    }
    return o_cmp[k](x, y, op);
}
static PyObject *s0_cmp(PyObject *x, PyObject *y, int op) { return s_cmp(x, y, op, 0); }
static PyObject *s1_cmp(PyObject *x, PyObject *y, int op) { return s_cmp(x, y, op, 1); }

static void patch(PyTypeObject *t, int k)
{
    PyNumberMethods *m = t->tp_as_number;
#define P(slot, nm) o_##nm[k] = m->slot; m->slot = k ? s1_##nm : s0_##nm;
    P(nb_add, add) P(nb_subtract, sub) P(nb_multiply, mul) P(nb_true_divide, div)
    P(nb_power, pow) P(nb_negative, neg) P(nb_absolute, abs) P(nb_bool, bool)
    o_cmp[k] = t->tp_richcompare; t->tp_richcompare = k ? s1_cmp : s0_cmp;
}

static PyObject *install(PyObject *self, PyObject *mod)
{
    int bad = 0;
#define B(nm, fn) bad += replace(mod, nm, L_##fn, 2, NPY_DOUBLE) != 0;
#define U(nm, fn) bad += replace(mod, nm, L_##fn, 1, NPY_DOUBLE) != 0;
#define C(nm, fn) bad += replace(mod, nm, L_##fn, 2, NPY_BOOL) != 0;
#define Q(nm, fn) bad += replace(mod, nm, L_##fn, 1, NPY_BOOL) != 0;
    B("add", add) B("subtract", subtract) B("multiply", multiply) B("divide", divide) B("power", power)
    B("maximum", maximum) B("minimum", minimum) B("fmax", maximum) B("fmin", minimum) B("hypot", hypot) B("float_power", float_power)
    U("negative", negative) U("absolute", absolute) U("fabs", absolute) U("sqrt", sqrt) U("square", square) U("exp", exp) U("log", log)
    U("sin", sin) U("cos", cos) U("positive", positive) U("conjugate", conjugate) U("reciprocal", reciprocal) U("rint", rint)
    U("floor", floor) U("ceil", ceil)
    C("equal", equal) C("not_equal", not_equal) C("less", less) C("less_equal", less_equal) C("greater", greater) C("greater_equal", greater_equal)
    Q("isnan", isnan) Q("isinf", isinf) Q("isfinite", isfinite) Q("logical_not", logical_not)
    B("matmul", matmul)
    patch(&PyDoubleArrType_Type, 0);
    patch(&PyFloat_Type, 1);
    return PyLong_FromLong(bad);
}
static PyObject *setmethod(PyObject *self, PyObject *args)
{
    const char *n; PyObject *f;
    if (!PyArg_ParseTuple(args, "sO", &n, &f)) return 0;
    PyObject *old = PyDict_GetItemString(PyArray_Type.tp_dict, n);
    Py_XINCREF(old);
    PyDict_SetItemString(PyArray_Type.tp_dict, n, f);
    PyType_Modified(&PyArray_Type);
    return old;
}
static PyMethodDef M[] = { { "setmethod", setmethod, METH_VARARGS, "" }, { "install", install, METH_O, "" }, { 0 } };
static struct PyModuleDef D = { PyModuleDef_HEAD_INIT, "_npsym", 0, -1, M };
PyMODINIT_FUNC PyInit__npsym(void) { import_array(); import_umath(); return PyModule_Create(&D); }
