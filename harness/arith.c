/* arith.c - conformance harness for memory, comparison and integer helpers (spec: Arith.tla) */
#include "hx.h"
#include "vita/core/core.h"
#include "vita/algorithm/comparison.h"
#include "vita/math/math.h"
static unsigned char *m; static size_t n;
static bool rle;
static void area_begin(void) { m = NULL; n = 0; rle = false; }
static void area_finish(void) {}
static void emit_mem(void) {
    if (!rle) { ev_bytes("mem", m, n); return; }
    hx_key("mem"); hx_raw("[", 1); for (size_t i = 0, j, c = 0; i < n && c < 5000; i = j, c++) { for (j = i; j < n && m[j] == m[i]; j++) ; hx_fmt(c ? ",[%d,%zu]" : "[%d,%zu]", m[i], j - i); } hx_raw("]", 1);
}
static __int128 tk_big(int i) { const char *t = tk_s(i); bool ng = *t == '-'; if (ng) t++; unsigned __int128 v = 0; for (; *t >= '0' && *t <= '9'; t++) v = v * 10 + (unsigned)(*t - '0'); return ng ? -(__int128)v : (__int128)v; }
#define INTS(X) X(int8_t,i8) X(uint8_t,u8) X(int16_t,i16) X(uint16_t,u16) X(int32_t,i32) X(uint32_t,u32) X(int64_t,i64) X(uint64_t,u64)
#define FLTS(X) X(float,f) X(double,d) X(real,r)
static void area_op(void) {
    const char *op = tk_s(0);
    if (!strcmp(op, "mem")) { size_t k; char *h = tk_hex(1, &k); n = k; m = __real_malloc(n ? n : 1); memcpy(m, h, n); ev_begin(op); ev_call(); ev_ret(); emit_mem(); ev_end(); return; }
    if (!strcmp(op, "large")) { /* large byte:count... */
        rle = true; n = 0; for (int i = 1; i < hx_ntok; i++) n += (size_t)strtol(strchr(tk_s(i), ':') + 1, NULL, 10); m = __real_malloc(n ? n : 1);
        size_t at = 0; for (int i = 1; i < hx_ntok; i++) { char *c; int v = (int)strtol(tk_s(i), &c, 10); size_t k = (size_t)strtol(c + 1, NULL, 10); memset(m + at, v, k); at += k; }
        ev_begin(op); ev_call(); ev_ret(); emit_mem(); ev_end(); return; }
    const char *name = op; if (rle && *op == 'l') op++;
    if (!strcmp(op, "memmove") || !strcmp(op, "memcopy") || !strcmp(op, "memcmp") || !strcmp(op, "gswap") || !strcmp(op, "memset")) {
        size_t d = tk_u(1), k = tk_u(3); long long q = tk_i(2); if (d + k > n) return;
        ev_begin(name); ev_u("d", d); ev_u("n", k); size_t b0 = hx_nblk;
        if (!strcmp(op, "memset")) { ev_i("v", (unsigned char)q); ev_call(); unsigned char *r = vt_memset(m + d, (int32_t)q, k); ev_ret(); ev_i("ret", r - m); }
        else {
            if (q < 0 || (size_t)q + k > n) return; ev_i("q", q); ev_call();
            if (!strcmp(op, "memmove")) { unsigned char *r = vt_memmove(m + d, m + q, k); ev_ret(); ev_i("ret", r - m); }
            else if (!strcmp(op, "memcopy")) { unsigned char *r = vt_memcopy(m + d, m + q, k); ev_ret(); ev_i("ret", r - m); }
            else if (!strcmp(op, "memcmp")) { bool r = vt_memcmp(m + d, m + q, k); ev_ret(); ev_b("ret", r); }
            else { vt_gswap(m + d, m + q, k); ev_ret(); ev_u("blocks", hx_nblk - b0); }
        }
        emit_mem(); ev_end(); return;
    }
    if (!strcmp(op, "pswap")) { /* three pointers, two of them swapped */
        void *a = (void*)(uintptr_t)tk_u(1), *b = (void*)(uintptr_t)tk_u(2); ev_begin(op); ev_bigu("a0", 0, (uintptr_t)a); ev_bigu("b0", 0, (uintptr_t)b); ev_call(); vt_pswap(&a, &b); ev_ret();
        ev_bigu("a1", 0, (uintptr_t)a); ev_bigu("b1", 0, (uintptr_t)b); ev_end(); return;
    }
    if (!strcmp(op, "min") || !strcmp(op, "max") || !strcmp(op, "clamp")) { /* op type x y [h] : floats are given times 1024 */
        const char *t = tk_s(1); ev_begin(op); ev_t("t", t); bool cl = *op == 'c', mn = op[1] == 'i';
        if (0) {}
#define X(C, s) else if (!strcmp(t, #s)) { C x = (C)tk_big(2), y = (C)tk_big(3), h = (C)tk_big(4); ev_big("x", x); if (cl) { ev_big("lo", y); ev_big("hi", h); } else ev_big("y", y); ev_call(); C r = cl ? vt_cmp_clamp##s(x, y, h) : mn ? vt_cmp_min##s(x, y) : vt_cmp_max##s(x, y); ev_ret(); ev_big("ret", r); }
        INTS(X)
#undef X
#define X(C, s) else if (!strcmp(t, #s)) { C x = (C)tk_big(2) / 1024, y = (C)tk_big(3) / 1024, h = (C)tk_big(4) / 1024; ev_bigr("x", (long double)x * 1024); if (cl) { ev_bigr("lo", (long double)y * 1024); ev_bigr("hi", (long double)h * 1024); } else ev_bigr("y", (long double)y * 1024); \
        ev_call(); C r = cl ? vt_cmp_clamp##s(x, y, h) : mn ? vt_cmp_min##s(x, y) : vt_cmp_max##s(x, y); ev_ret(); ev_bigr("ret", (long double)r * 1024); }
        FLTS(X)
#undef X
        ev_end(); return;
    }
    if (!strcmp(op, "pal")) { uint64_t x = tk_u(1); ev_begin(op); ev_bigu("x", 0, x); ev_call(); bool r = vt_math_is_palindrome(x); ev_ret(); ev_b("ret", r); ev_end(); return; }
    if (!strcmp(op, "gcd") || !strcmp(op, "lcm")) { int64_t x = (int64_t)tk_big(1), y = (int64_t)tk_big(2); ev_begin(op); ev_big("x", x); ev_big("y", y); ev_call(); int64_t r = *op == 'g' ? vt_math_gcd(x, y) : vt_math_lcm(x, y); ev_ret(); ev_big("ret", r); ev_end(); return; }
    if (!strcmp(op, "status")) {
        ev_begin(op); ev_call(); ev_ret();
        static const char *id[] = {
#define X(a) #a,
            VT_i_GENERATE_VITA_STATUS(X)
#undef X
        };
        static const int code[] = {
#define X(a) a,
            VT_i_GENERATE_VITA_STATUS(X)
#undef X
        };
        ev_arr("id"); for (size_t i = 0; i < sizeof id / sizeof *id; i++) if (code[i] != VT_STATUS_COUNT) { ev_arr_sep(); hx_fmt("\"%s\"", id[i]); } ev_arr_end();
        ev_arr("name"); for (size_t i = 0; i < sizeof id / sizeof *id; i++) if (code[i] != VT_STATUS_COUNT) { const char *s = vt_status_to_str(code[i]); ev_arr_sep(); hx_fmt("\"%s\"", s ? s : "NULL"); } ev_arr_end();
        static const unsigned past[] = {0, 1, 2, 100, 70000, 0x7fffff00u};
        ev_arr("beyond"); for (size_t i = 0; i < 6; i++) { const char *s = vt_status_to_str((enum VitaStatus)(VT_STATUS_COUNT + past[i])); ev_arr_sep(); hx_fmt("\"%s\"", s ? "name" : "NULL"); } ev_arr_end();
        ev_end(); return;
    }
    if (!strcmp(op, "vmem")) { /* vt_malloc/vt_calloc/vt_realloc/vt_free round trip */
        size_t a = tk_u(1), b = tk_u(2); size_t b0 = hx_nblk; ev_begin(op); ev_u("a", a); ev_u("b", b); ev_call();
        unsigned char *c = VT_CALLOC(a); bool z = true, kept = true; for (size_t i = 0; i < a; i++) { if (c[i]) z = false; c[i] = (unsigned char)(i * 7 + 3); }
        unsigned char *d = VT_MALLOC(b); for (size_t i = 0; i < b; i++) d[i] = 9; bool held = hx_nblk == b0 + 2;
        c = VT_REALLOC(c, b); for (size_t i = 0; i < a && i < b; i++) if (c[i] != (unsigned char)(i * 7 + 3)) kept = false;
        for (size_t i = 0; i < b; i++) { c[i] = 1; if (d[i] != 9) kept = false; }
        VT_FREE(c); VT_FREE(d); VT_FREE(NULL); ev_ret(); ev_b("zeroed", z); ev_b("kept", kept); ev_b("held", held); ev_u("blocks", hx_nblk - b0); ev_end(); return;
    }
    if (!strcmp(op, "badcall")) {
        int w = (int)tk_i(1); char a[4] = "x", *p = a; void *v = a; ev_begin(op); ev_i("w", w); ev_call();
        switch (w) {
            case 0: vt_memmove(NULL, p, 1); break; case 1: vt_memmove(p, NULL, 1); break; case 2: vt_memcopy(NULL, p, 1); break; case 3: vt_memcopy(p, NULL, 1); break;
            case 4: vt_memset(NULL, 1, 1); break; case 5: vt_memcmp(NULL, p, 1); break; case 6: vt_memcmp(p, NULL, 1); break; case 7: vt_gswap(NULL, p, 1); break; case 8: vt_gswap(p, NULL, 1); break;
            case 9: vt_gswap(p, p + 1, 0); break; case 10: vt_pswap(NULL, &v); break; case 11: vt_pswap(&v, NULL); break; case 12: VT_MALLOC(0); break; case 13: VT_CALLOC(0); break; case 14: { void *q = VT_MALLOC(2); VT_REALLOC(q, 0); break; }
        }
        ev_ret(); ev_end(); return;
    }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
