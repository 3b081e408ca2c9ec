/* User-supplied activations, compiled several times into different shared libraries (see checks.py). */
#include <math.h>
#include <stdlib.h>
#include <unistd.h>
static void note(char c){ const char *e = getenv("C05_LOG_FD"); if (e) { char b[2] = { c, LIB }; if (write(atoi(e), b, 2) != 2) {} } }
__attribute__((constructor)) static void in(void){ note('+'); }
__attribute__((destructor)) static void out(void){ note('-'); }
float helper(void){ return FACTOR; }          /* every library has its own */
void f(const int n, float *y){ for (int i = 0; i < n; i++) y[i] = helper() * y[i] + 1; }
void f_derivative(const int n, const float *a, float *d){ for (int i = 0; i < n; i++) d[i] *= helper(); }
void g(const int n, float *y){ for (int i = 0; i < n; i++) y[i] = -helper() * y[i]; }      /* not trainable */
void relu(const int n, float *y){ for (int i = 0; i < n; i++) y[i] = y[i] + 10 * helper(); } /* the name of a built-in one */
void relu_derivative(const int n, const float *a, float *d){ }
#ifdef UNDEF
void nowhere_defined(void); void u(const int n, float *y){ nowhere_defined(); }
#endif
#ifdef TWINS
#define T(name, ex, dex) void u_##name(const int n, float *y){ for (int i = 0; i < n; i++) { float x = y[i]; y[i] = ex; } } \
    void u_##name##_derivative(const int n, const float *a, float *d){ for (int i = 0; i < n; i++) { float v = a[i]; d[i] *= dex; } }
T(sigmoid, 1 / (1 + expf(-x)), v * (1 - v))
T(tanh, tanhf(x), 1 - v * v)
T(relu, x > 0 ? x : 0, (v > 0))
T(linear, x, 1)
T(softplus, log1pf(expf(x)), 1 - expf(-v))
T(softsign, x / (1 + fabsf(x)), (1 - fabsf(v)) * (1 - fabsf(v)))
T(exponential, expf(x), v)
#endif
#ifdef SYMS
#include SYMS
#endif
