/* conv.c - conformance harness for number-text conversion (spec: Conv.tla) */
#include "hx.h"
#include <math.h>
#include <float.h>
#include "vita/core/conv.h"
static void area_begin(void) {} static void area_finish(void) {}
/* v = m / 2^e with m of exactly p bits (0: m = 0) */
static void ev_flt(long double v, int p) {
    int ex; long double f = frexpl(fabsl(v), &ex); ev_bigu("m", v < 0, v == 0 || isinf(v) || isnan(v) ? 0 : (unsigned __int128)ldexpl(f, p)); ev_i("e", v == 0 || isinf(v) || isnan(v) ? 0 : p - ex);
}
static __int128 tk_128(int i) { const char *t = tk_s(i); bool n = *t == '-'; if (n) t++; unsigned __int128 v = 0; while (*t) v = v * 10 + (unsigned)(*t++ - '0'); return n ? -(__int128)v : (__int128)v; }
static void area_op(void) {
    const char *op = tk_s(0), *ty = tk_s(1); size_t n; ev_begin(op);
    if (!strcmp(op, "from")) { char *z = tk_hex(2, &n); long blk = (long)hx_nblk; ev_t("ty", ty); ev_bytes("t", z, n);
#define FI(T, t) if (!strcmp(ty, #t)) { ev_call(); T r = vt_conv_str_to_##t(z); ev_ret(); ev_big("r", (__int128)r); ev_i("blocks", (long)hx_nblk - blk); ev_end(); return; }
        FI(int8_t, i8) FI(uint8_t, u8) FI(int16_t, i16) FI(uint16_t, u16) FI(int32_t, i32) FI(uint32_t, u32) FI(int64_t, i64) FI(uint64_t, u64)
#define FF(T, t, p) if (!strcmp(ty, #t)) { ev_call(); T r = vt_conv_str_to_##t(z); ev_ret(); ev_flt((long double)r, p); ev_i("blocks", (long)hx_nblk - blk); ev_end(); return; }
        FF(float, f, 24) FF(double, d, 53) FF(real, r, 64) }
    if (!strcmp(op, "num")) { char *z = tk_hex(2, &n); ev_bytes("t", z, n); vt_str_t s = vt_str_create_static(z); bool viaz = tk_i(3); ev_call(); bool r = viaz && n ? vt_str_is_numeric_z(z, n) : vt_str_is_numeric(&s); ev_ret(); ev_b("ret", r); ev_end(); return; }
    if (!strcmp(op, "to")) { /* to ty value len   (float: to ty mantissa exp2 len) */
        ev_t("ty", ty);
#define TI(T, t) if (!strcmp(ty, #t)) { T v = (T)tk_128(2); size_t len = (size_t)tk_i(3); char *b = __real_malloc(len ? len : 1); memset(b, 0xEE, len ? len : 1); ev_big("v", (__int128)v); ev_i("len", (long long)len); \
            ev_call(); vt_conv_##t##_to_str(b, len, v); ev_ret(); ev_bytes("t", b, strnlen(b, len)); ev_end(); __real_free(b); return; }
        TI(int8_t, i8) TI(uint8_t, u8) TI(int16_t, i16) TI(uint16_t, u16) TI(int32_t, i32) TI(uint32_t, u32) TI(int64_t, i64) TI(uint64_t, u64)
#define TF(T, t, p, fmt) if (!strcmp(ty, #t)) { T v = (T)ldexpl((long double)tk_128(2), (int)tk_i(3)); char full[6000]; int need = snprintf(full, sizeof full, "%.6" fmt, v) + 1; long long q = tk_i(4); size_t len = q < 0 ? (size_t)(need + 1 + q) : (size_t)q; \
            char *b = __real_malloc(len ? len : 1); memset(b, 0xEE, len ? len : 1); ev_flt((long double)v, p); ev_i("len", (long long)len); ev_i("need", need); \
            ev_call(); vt_conv_##t##_to_str(b, len, v); ev_ret(); ev_bytes("t", b, strnlen(b, len)); ev_end(); __real_free(b); return; }
        TF(float, f, 24, "f") TF(double, d, 53, "f") TF(real, r, 64, "Lf") }
    if (!strcmp(op, "bad")) { int w = (int)tk_i(1); ev_i("w", w); ev_call();
        switch (w) { case 0: vt_conv_str_to_i8(NULL); break; case 1: vt_conv_str_to_u8(NULL); break; case 2: vt_conv_str_to_i16(NULL); break; case 3: vt_conv_str_to_u16(NULL); break; case 4: vt_conv_str_to_i32(NULL); break; case 5: vt_conv_str_to_u32(NULL); break;
        case 6: vt_conv_str_to_i64(NULL); break; case 7: vt_conv_str_to_u64(NULL); break; case 8: vt_conv_str_to_f(NULL); break; case 9: vt_conv_str_to_d(NULL); break; case 10: vt_conv_str_to_r(NULL); break;
        case 11: vt_conv_i8_to_str(NULL, 99, 1); break; case 12: vt_conv_u8_to_str(NULL, 99, 1); break; case 13: vt_conv_i16_to_str(NULL, 99, 1); break; case 14: vt_conv_u16_to_str(NULL, 99, 1); break; case 15: vt_conv_i32_to_str(NULL, 99, 1); break; case 16: vt_conv_u32_to_str(NULL, 99, 1); break;
        case 17: vt_conv_i64_to_str(NULL, 99, 1); break; case 18: vt_conv_u64_to_str(NULL, 99, 1); break; case 19: vt_conv_f_to_str(NULL, 99, 1); break; case 20: vt_conv_d_to_str(NULL, 99, 1); break; case 21: vt_conv_r_to_str(NULL, 99, 1); break; default: _exit(99); }
        ev_ret(); ev_end(); return; }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
