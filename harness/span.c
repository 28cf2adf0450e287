/* span.c - conformance harness for vt_span_t and the index maps (spec: Span.tla) */
#include "hx.h"
#include "vita/container/span.h"
#include "vita/container/common.h"
#define NS 3
static unsigned char *base; static size_t n, esz; static char ty[4]; static vt_span_t sp[NS]; static bool on[NS]; static char vb[1 << 13];
static void area_begin(void) { base = NULL; memset(on, 0, sizeof on); }
static void area_finish(void) {}
static unsigned char pat(int k, size_t j) { return (unsigned char)(k * 31 + (int)(j * 7) + (int)(j >> 8) * 13 + 1); }
static void canon(const void *p, char *out) {
    const unsigned char *b = p; size_t m = ty[0] == 'r' ? 10 : esz;
    if (m <= 16) { for (size_t i = 0; i < m; i++) sprintf(out + 2 * i, "%02x", b[i]); return; }
    for (int k = 0; k < 64; k++) { size_t j = 0; while (j < m && b[j] == pat(k, j)) j++; if (j == m) { sprintf(out, "P%d", k); return; } }
    strcpy(out, "GARBAGE");
}
static void val(const char *t) {
    memset(vb, 0, esz < 16 ? 16 : esz);
    if (*t == 'P') { int k = atoi(t + 1); for (size_t j = 0; j < esz; j++) vb[j] = (char)pat(k, j); return; }
    size_t m = strlen(t) / 2; for (size_t i = 0; i < m; i++) { unsigned v; sscanf(t + 2 * i, "%2x", &v); vb[i] = (char)v; }
}
static void ev_el(const char *k, const void *p) { char t[64]; canon(p, t); ev_t(k, t); }
static long na0;
static void project(void) {
    ev_i("na", hx_nalloc - na0);
    ev_arr("arr"); for (size_t i = 0; i < n; i++) { char t[64]; canon(base + i * esz, t); ev_arr_sep(); hx_fmt("\"%s\"", t); } ev_arr_end();
    ev_arr("sp"); for (int s = 0; s < NS; s++) {
        ev_arr_sep(); hx_raw("[", 1);
        if (on[s]) for (size_t i = 0, m = vt_span_len(sp[s]); i < m && i < 200; i++) { char t[64]; canon(vt_span_get(sp[s], i), t); hx_fmt(i ? ",\"%s\"" : "\"%s\"", t); }
        hx_raw("]", 1); } ev_arr_end();
}
#define TYPES(X) X(int8_t,i8) X(uint8_t,u8) X(int16_t,i16) X(uint16_t,u16) X(int32_t,i32) X(uint32_t,u32) X(int64_t,i64) X(uint64_t,u64) X(float,f) X(double,d) X(real,r)
static void area_op(void) {
    const char *op = tk_s(0); na0 = hx_nalloc;
    if (!strcmp(op, "base")) { /* base n esz type vals... */
        n = tk_u(1); esz = tk_u(2); snprintf(ty, sizeof ty, "%s", strcmp(tk_s(3), "-") ? tk_s(3) : ""); base = __real_malloc(n * esz); memset(on, 0, sizeof on);
        for (size_t i = 0; i < n; i++) { val(tk_s(4 + (int)(i % (size_t)(hx_ntok - 4)))); memcpy(base + i * esz, vb, esz); }
        ev_begin(op); ev_call(); ev_ret(); project(); ev_end(); return;
    }
    if (!strcmp(op, "make")) { /* make s from to how */
        int s = (int)tk_i(1) % NS; size_t f = tk_u(2), t = tk_u(3); bool whole = tk_i(4) && f <= t;
        ev_begin(op); ev_i("o", s); ev_t("how", whole ? "len" : "range"); ev_u("from", f); ev_u("to", t);
        ev_call(); sp[s] = whole ? vt_span_from(base + f * esz, t - f, esz) : vt_span_from_to(base, f, t, esz); ev_ret();
        on[s] = true; ev_u("len", vt_span_len(sp[s])); project(); ev_end(); return;
    }
    if (!strcmp(op, "i2")) { size_t r = tk_u(1), c = tk_u(2), nc = tk_u(3); ev_begin(op); ev_bigu("r", 0, r); ev_bigu("c", 0, c); ev_bigu("nc", 0, nc); ev_call(); size_t x = vt_index_2d_to_1d(r, c, nc); ev_ret(); ev_bigu("ret", 0, x); ev_end(); return; }
    if (!strcmp(op, "u2")) { size_t i = tk_u(1), nc = tk_u(2), r = 77, c = 77; ev_begin(op); ev_bigu("idx", 0, i); ev_bigu("nc", 0, nc); ev_call(); vt_index_1d_to_2d(&r, &c, i, nc); ev_ret(); ev_bigu("r", 0, r); ev_bigu("c", 0, c); ev_end(); return; }
    if (!strcmp(op, "i3")) { size_t r = tk_u(1), c = tk_u(2), d = tk_u(3), nr = tk_u(4), nc = tk_u(5); ev_begin(op); ev_bigu("r", 0, r); ev_bigu("c", 0, c); ev_bigu("d", 0, d); ev_bigu("nr", 0, nr); ev_bigu("nc", 0, nc);
        ev_call(); size_t x = vt_index_3d_to_1d(r, c, d, nr, nc); ev_ret(); ev_bigu("ret", 0, x); ev_end(); return; }
    if (!strcmp(op, "u3")) { size_t i = tk_u(1), nr = tk_u(2), nc = tk_u(3), r = 77, c = 77, d = 77; ev_begin(op); ev_bigu("idx", 0, i); ev_bigu("nr", 0, nr); ev_bigu("nc", 0, nc);
        ev_call(); vt_index_1d_to_3d(&r, &c, &d, i, nr, nc); ev_ret(); ev_bigu("r", 0, r); ev_bigu("c", 0, c); ev_bigu("d", 0, d); ev_end(); return; }
    if (!strcmp(op, "far")) { /* far from to esz at : a range of more than 32 bits over memory that is mostly never touched */
        size_t f = tk_u(1), t = tk_u(2), es = tk_u(3), at = tk_u(4); unsigned char *m = mmap(NULL, t * es + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return;
        static unsigned char x[4096]; memset(x, 9, es); ev_begin(op); ev_bigu("from", 0, f); ev_bigu("to", 0, t); ev_bigu("esz", 0, es); ev_bigu("at", 0, at); ev_call();
        vt_span_t w = vt_span_from_to(m, f, t, es); size_t L = vt_span_len(w), O = (size_t)((unsigned char*)vt_span_get(w, at) - m); vt_span_set(w, x, at); vt_span_t v = vt_span_from(m + f * es, t - f, es); size_t L2 = vt_span_len(v); ev_ret();
        unsigned char *q = m + (f + at) * es; bool hit = !memcmp(q, x, es) && !memcmp(vt_span_get(w, at), x, es) && !memcmp(vt_span_get(v, at), x, es) && (q == m || q[-1] == 0) && q[es] == 0;
        ev_bigu("len", 0, L); ev_bigu("len2", 0, L2); ev_bigu("off", 0, O); ev_b("hit", hit); munmap(m, t * es + 4096); ev_end(); return;
    }
    if (!strcmp(op, "badcall")) {
        int w = (int)tk_i(1); size_t x = 0, y = 0; ev_begin(op); ev_i("w", w); ev_call();
        switch (w) {
            case 0: vt_span_from(NULL, 1, 1); break; case 1: vt_span_from(base, 0, 1); break; case 2: vt_span_from(base, 1, 0); break;
            case 3: vt_span_from_to(NULL, 0, 1, 1); break; case 4: vt_span_from_to(base, 0, 1, 0); break; case 5: vt_span_from_to(base, 1, 1, esz); break;
            case 6: { vt_span_t s = vt_span_from(base, 1, esz); vt_span_set(s, NULL, 0); break; }
            case 7: vt_index_1d_to_2d(NULL, &x, 1, 1); break; case 8: vt_index_1d_to_2d(&x, NULL, 1, 1); break;
            case 9: vt_index_1d_to_3d(NULL, &x, &y, 1, 1, 1); break; case 10: vt_index_1d_to_3d(&x, NULL, &y, 1, 1, 1); break; case 11: vt_index_1d_to_3d(&x, &y, NULL, 1, 1, 1); break;
            case 12: vt_array_get(NULL, 0); break; case 13: vt_array_set(NULL, "x", 0); break; case 14: vt_array_len(NULL); break; case 15: vt_array_slide_front(NULL); break; case 16: vt_array_slide_back(NULL); break;
            case 17: vt_array_slide_reset(NULL); break; case 18: vt_array_capacity(NULL); break; case 19: vt_array_elsize(NULL); break; case 20: vt_array_has_space(NULL); break; case 21: vt_array_head(NULL); break;
            case 22: vt_array_free(NULL); break; case 23: vt_array_has_alloctr(NULL); break;
            case 24: vt_span_from_to(base, 2, 1, esz); break;
        }
        ev_ret(); project(); ev_end(); return;
    }
    if (!strcmp(op, "poke")) { size_t i = tk_u(1); val(tk_s(2)); ev_begin(op); ev_u("i", i); ev_el("v", vb); ev_call(); memcpy(base + i * esz, vb, esz); ev_ret(); project(); ev_end(); return; }
    int s = (int)tk_i(1) % NS; if (!on[s]) return;
    char b[16]; snprintf(b, sizeof b, "%s", op); size_t bl = strlen(b); bool T = b[bl - 1] == 'T'; if (T) b[bl - 1] = 0; if (!ty[0]) T = false;
    size_t i = tk_u(2);
    ev_begin(b); ev_i("o", s); ev_u("i", i); ev_t("t", T ? ty : "");
    if (!strcmp(b, "get")) {
        ev_call();
        if (!T) { void *q = vt_span_get(sp[s], i); ev_ret(); ev_el("ret", q); }
#define X(C, t) else if (!strcmp(ty, #t)) { C x; memset(&x, 0, sizeof x); x = vt_span_get##t(sp[s], i); ev_ret(); ev_el("ret", &x); }
        TYPES(X)
#undef X
    } else if (!strcmp(b, "set")) {
        val(tk_s(3)); ev_el("v", vb); ev_call();
        if (!T) { void *x = __real_malloc(esz); memcpy(x, vb, esz); vt_span_set(sp[s], x, i); }
#define X(C, t) else if (!strcmp(ty, #t)) { C x; memcpy(&x, vb, sizeof x); vt_span_set##t(sp[s], x, i); }
        TYPES(X)
#undef X
        ev_ret();
    } else { fprintf(stderr, "unknown op %s\n", op); _exit(99); }
    project(); ev_end();
}
