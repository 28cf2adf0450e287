/* approx.c - conformance harness for random and floating-point helpers (spec: Approx.tla) */
#include "hx.h"
#include <math.h>
#include <time.h>
#include "vita/math/math.h"
static time_t seed = 1; static double *shared;
time_t __wrap_time(time_t *t) { if (t) *t = seed; return seed; }
static void area_begin(void) { seed = 1; shared = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void area_finish(void) {}
/* the exact value of v: sign, integer mantissa, power of two */
static void ev_f(const char *k, double v) {
    hx_key(k); if (!isfinite(v)) { hx_fmt("{\"k\":\"%s\"}", isnan(v) ? "nan" : "inf"); return; }
    int e = 0; double f = frexp(fabs(v), &e); uint64_t m = (uint64_t)ldexp(f, 53); e -= 53; while (m && !(m & 1)) { m >>= 1; e++; } if (!m) e = 0;
    hx_fmt("{\"k\":\"fin\",\"n\":%s,\"e\":%d,\"m\":[", v < 0 && m ? "true" : "false", e); for (int i = 0; m; i++, m /= 10000) hx_fmt(i ? ",%d" : "%d", (int)(m % 10000)); hx_raw("]}", 2);
}
static float tk_f(int i) { return strtof(tk_s(i), NULL); }
static double tk_d(int i) { return strtod(tk_s(i), NULL); }
static void counts(const unsigned *c, int n) { ev_arr("counts"); for (int i = 0; i < n; i++) { ev_arr_sep(); hx_fmt("%u", c[i]); } ev_arr_end(); }
static int quarter(double x) { int q = (int)floor(x * 4); return q < 0 ? 0 : q > 3 ? 3 : q; }
static void area_op(void) {
    const char *op = tk_s(0);
    if (!strcmp(op, "seed")) { seed = (time_t)tk_i(1); return; }
    if (!strcmp(op, "u64")) { ev_begin(op); ev_call(); uint64_t r = vt_math_random_u64(); ev_ret(); ev_bigu("ret", 0, r); ev_end(); return; }
    if (!strcmp(op, "f32")) { uint32_t b = (uint32_t)tk_u(1); ev_begin(op); ev_f("b", b); ev_call(); float r = vt_math_random_f32(b); ev_ret(); ev_f("ret", r); ev_end(); return; }
    if (!strcmp(op, "uni")) { float a = tk_f(1), b = tk_f(2); ev_begin(op); ev_f("lo", a); ev_f("hi", b); ev_call(); float r = vt_math_random_f32_uniform(a, b); ev_ret(); ev_f("ret", r); ev_end(); return; }
    if (!strcmp(op, "norm")) {
        float mu = tk_f(1), sd = tk_f(2); shared[0] = NAN;
        pid_t p = fork(); if (p < 0) _exit(98); if (!p) { shared[0] = vt_math_random_f32_normal(0, 1); _exit(0); } int st; waitpid(p, &st, 0); /* the standard value from the same state */
        ev_begin(op); ev_f("mu", mu); ev_f("sd", sd); ev_f("x", shared[0]); ev_call(); float r = vt_math_random_f32_normal(mu, sd); ev_ret(); ev_f("ret", r); ev_end(); return;
    }
    if (!strncmp(op, "many", 4)) { /* many draws: the extreme values and how often each part of the range was hit */
        unsigned n = (unsigned)tk_u(1), c[4] = {0}; double mn = INFINITY, mx = -INFINITY, v; float a = tk_f(2), b = tk_f(3); uint32_t ub = (uint32_t)tk_u(2); bool bad = false;
        ev_begin(op); ev_u("n", n); if (op[4] == 'f') ev_f("b", ub); if (op[4] == 'u') { ev_f("lo", a); ev_f("hi", b); } ev_call();
        for (unsigned i = 0; i < n; i++) {
            if (op[4] == 'x') { c[vt_math_random_u64() & 3]++; continue; }
            v = op[4] == 'f' ? vt_math_random_f32(ub) : op[4] == 'u' ? vt_math_random_f32_uniform(a, b) : vt_math_random_f32_normal(0, 1);
            if (isnan(v)) bad = true; if (v < mn) mn = v; if (v > mx) mx = v;
            if (op[4] == 'n') { c[v < 0]++; c[2 + (fabs(v) < 1)]++; } else if (op[4] == 'f') c[quarter(v / ub)]++; else c[quarter((v - a) / ((double)b - a))]++;
        }
        ev_ret(); if (op[4] != 'x') { ev_f("min", bad ? NAN : mn); ev_f("max", bad ? NAN : mx); } counts(c, 4); ev_end(); return;
    }
    if (!strcmp(op, "map")) { double x = tk_d(1), a = tk_d(2), b = tk_d(3), c = tk_d(4), d = tk_d(5); ev_begin(op); ev_f("x", x); ev_f("xmin", a); ev_f("xmax", b); ev_f("omin", c); ev_f("omax", d); ev_call(); double r = vt_math_map_to(x, a, b, c, d); ev_ret(); ev_f("ret", r); ev_end(); return; }
    if (!strcmp(op, "sqrt") || !strcmp(op, "isqrt")) { float v = tk_f(1); ev_begin(op); ev_f("v", v); ev_call(); float r = *op == 's' ? vt_math_sqrt_carmack(v) : vt_math_isqrt_carmack(v); ev_ret(); ev_f("ret", r); ev_end(); return; }
    if (!strcmp(op, "close")) { float x = tk_f(1), y = tk_f(2), t = tk_f(3); ev_begin(op); ev_f("x", x); ev_f("y", y); ev_f("t", t); ev_call(); bool r = vt_math_is_close(x, y, t); ev_ret(); ev_b("ret", r); ev_end(); return; }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
