#ifndef SYMRT_H
#define SYMRT_H
#include <stdint.h>
#include <stdbool.h>
enum { OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_NEG, OP_SQRT, OP_SIN, OP_COS, OP_EXP, OP_LOG, OP_POW, OP_UF, OP_SOLVE, OP_ABS };
enum { P_EQ, P_NE, P_LT, P_LE, P_GT, P_GE, P_PIN, P_AXIOM };
typedef struct { uint32_t op, aux; uint64_t a, b; double shadow; } Node;
typedef struct { uint64_t a, b; int32_t pred, outcome; } Cond;
int symrt_is(double);
double symrt_shadow(double);
double symrt_mk(uint32_t op, uint32_t aux, double a, double b, double shadow);
bool symrt_cmp(int p, double a, double b);
double symrt_pin(double a);
void symrt_note_unsupported(const char *);
double symfp_add(double, double); double symfp_sub(double, double); double symfp_mul(double, double);
double symfp_div(double, double); double symfp_neg(double); double symfp_pow(double, double);
double symfp_sqrt(double); double symfp_fabs(double); double symfp_sin(double); double symfp_cos(double);
double symfp_exp(double); double symfp_log(double); double symfp_fmax(double, double); double symfp_fmin(double, double);
double symfp_rem(double, double); double symfp_hypot(double, double);
double symfp_rint(double); double symfp_floor(double); double symfp_ceil(double);
#endif
