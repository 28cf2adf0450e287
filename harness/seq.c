/* seq.c - conformance harness for vt_vec_t and vt_plist_t (spec: Vec.tla) */
#include "hx.h"
#include "vita/container/vec.h"
#include "vita/container/plist.h"
#include "vita/allocator/mallocator.h"

#define NSLOT 4
static struct { int live; bool ua; char kind; size_t esz; char ty[4]; struct VitaBaseArrayType *a; } ob[NSLOT];
static vt_mallocator_t *al;
static char valbuf[1 << 16];

static void area_begin(void) { memset(ob, 0, sizeof ob); al = NULL; }
static void area_finish(void) {}
/* index token: a number, or "L" / "L+k" relative to the current length */
static size_t tk_ix(int i, int o) {
    const char *t = tk_s(i); if (*t != 'L') return (size_t)tk_u(i);
    size_t n = ob[o].kind == 'v' ? vt_vec_len(ob[o].a) : vt_plist_len(ob[o].a); return n + (t[1] == '+' ? strtoull(t + 2, NULL, 10) : 0);
}

static unsigned char pat0(int k, size_t j) { return (unsigned char)(k * 31 + (int)(j * 7) + (int)(j >> 8) * 13 + 1); }
/* 32..47: as 0..15 but for the last byte, 48..63: but for the middle one */
static unsigned char pat(int k, size_t j, size_t n) { return (unsigned char)(pat0(k & (k < 32 ? 31 : 15), j) + ((k >= 32 && k < 48 && j == n - 1) || (k >= 48 && j == n / 2))); }
/* canonical text of one element */
static void canon(int o, const void *p, char *out) {
    const unsigned char *b = p; size_t n = ob[o].esz;
    if (ob[o].kind == 'p') { void *q; memcpy(&q, p, sizeof q); if (!q) { strcpy(out, "NULL"); return; } }
    if (ob[o].ty[0] == 'r') n = 10;
    if (n <= 16) { for (size_t i = 0; i < n; i++) sprintf(out + 2 * i, "%02x", b[i]); return; }
    for (int k = 0; k < 64; k++) { size_t j = 0; while (j < n && b[j] == pat(k, j, n)) j++; if (j == n) { sprintf(out, "P%d", k); return; } }
    uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    sprintf(out, "G%016llx", (unsigned long long)h);
}
static void parse_val(int o, const char *t) {
    memset(valbuf, 0, ob[o].esz < 16 ? 16 : ob[o].esz);
    if (*t == 'P') { int k = atoi(t + 1); for (size_t j = 0; j < ob[o].esz; j++) valbuf[j] = (char)pat(k, j, ob[o].esz); return; }
    size_t n = strlen(t) / 2; for (size_t i = 0; i < n; i++) { unsigned v; sscanf(t + 2 * i, "%2x", &v); valbuf[i] = (char)v; }
}
static void ev_el(const char *k, int o, const void *p) { char t[64]; if (!p) strcpy(t, "NULL"); else canon(o, p, t); ev_t(k, t); }
static void project(void) {
    ev_arr("st");
    for (int o = 0; o < NSLOT; o++) {
        ev_arr_sep(); hx_raw("{", 1); hx_first = 1;
        ev_b("live", ob[o].live);
        if (ob[o].live) {
            struct VitaBaseArrayType *a = ob[o].a; bool v = ob[o].kind == 'v';
            size_t n = v ? vt_vec_len(a) : vt_plist_len(a);
            ev_u("len", n); ev_u("cap", v ? vt_vec_capacity(a) : vt_plist_capacity(a));
            ev_u("space", v ? vt_vec_has_space(a) : vt_plist_has_space(a));
            ev_b("empty", v ? vt_vec_is_empty(a) : vt_plist_is_empty(a));
            ev_arr("seq");
            for (size_t i = 0; i < n && i < 80000; i++) {
                char t[64]; void *q;
                if (v) canon(o, vt_vec_get(a, i), t); else { q = vt_plist_get(a, i); canon(o, &q, t); }
                ev_arr_sep(); hx_fmt("\"%s\"", t);
            }
            ev_arr_end();
        }
        hx_raw("}", 1); hx_first = 0;
    }
    ev_arr_end();
}

/* ---- apply callback ---- */
static int cb_o, cb_nv; static char cb_vals[8][64]; static struct { char el[64]; size_t i; } cb_seen[80000]; static size_t cb_n;
static void cb(void *p, size_t i) {
    if (cb_n < 80000) { if (ob[cb_o].kind == 'p') canon(cb_o, &p, cb_seen[cb_n].el); else canon(cb_o, p, cb_seen[cb_n].el); cb_seen[cb_n].i = i; }
    if (cb_nv && ob[cb_o].kind == 'v') { parse_val(cb_o, cb_vals[cb_n % (size_t)cb_nv]); memcpy(p, valbuf, ob[cb_o].ty[0] == 'r' ? 10 : ob[cb_o].esz); }
    cb_n++;
}

#define TYPES(X) X(int8_t,i8) X(uint8_t,u8) X(int16_t,i16) X(uint16_t,u16) X(int32_t,i32) X(uint32_t,u32) X(int64_t,i64) X(uint64_t,u64) X(float,f) X(double,d) X(real,r)

static void area_op(void) {
    const char *op = tk_s(0); const int o = (int)tk_i(1) % NSLOT;
    struct VitaBaseArrayType *a = ob[o].a; const bool v = ob[o].kind == 'v'; const char *ty = ob[o].ty;
    void *q = NULL;
    if (!strcmp(op, "create")) { /* create o kind n elsize alloc type */
        ob[o].kind = tk_s(2)[0]; size_t n = tk_u(3); ob[o].esz = tk_u(4); bool ua = tk_i(5); snprintf(ob[o].ty, sizeof ob[o].ty, "%s", hx_ntok > 6 ? tk_s(6) : "");
        if (ua && !al) al = vt_mallocator_create();
        ev_begin("create"); ev_i("o", o); ev_u("n", n); ev_u("esz", ob[o].esz); ev_call();
        a = ob[o].kind == 'v' ? vt_vec_create(n, ob[o].esz, ua ? al : NULL) : vt_plist_create(n, ua ? al : NULL);
        ev_ret(); ob[o].a = a; ob[o].live = 1; ob[o].ua = ua; project(); ev_end(); return;
    }
    if (!strcmp(op, "fin")) {
        if (al) { vt_mallocator_destroy(al); al = NULL; }
        ev_begin("fin"); ev_call(); ev_ret(); ev_u("blocks", hx_nblk); project(); ev_end(); return;
    }
    if (!strcmp(op, "loop")) { /* loop _ kind from to step: the counting loops */
        const char *k = tk_s(2); size_t f = tk_u(3), t = tk_u(4), st = tk_u(5), n = 0; size_t at[64]; ev_begin(op); ev_t("k", k); ev_u("f", f); ev_u("t", t); ev_u("st", st); ev_call();
        if (*k == 'f') { VT_FOREACH(i, f, t) { if (n < 64) at[n++] = i; else break; } } else if (*k == 'r') { VT_FOREACH_R(i, f, t) { if (n < 64) at[n++] = i; else break; } } else { VT_FOREACH_STEP(i, f, t, st) { if (n < 64) at[n++] = i; else break; } }
        ev_ret(); hx_key("at"); hx_raw("[", 1); for (size_t i = 0; i < n; i++) hx_fmt(i ? ",%zu" : "%zu", at[i]); hx_raw("]", 1); ev_end(); return;
    }
    if (!strcmp(op, "far")) { /* far _ kind n elsize at : a container of more than 32 bits, mostly never touched */
        bool V = tk_s(2)[0] == 'v'; size_t n = tk_u(3), es = V ? tk_u(4) : sizeof(void*), at = tk_u(5); static unsigned char e1[4096], e2[4096], e3[4096]; memset(e1, 1, es); memset(e2, 2, es); memset(e3, 3, es);
        ev_begin(op); ev_bigu("n", 0, n); ev_bigu("esz", 0, es); ev_bigu("at", 0, at); ev_call();
        struct VitaBaseArrayType *c = V ? vt_vec_create(n, es, NULL) : vt_plist_create(n, NULL); size_t L[6], C0 = vt_array_capacity(c), O; int g[8];
        /* what is stored at an index: 1, 2 or 3 throughout, or -1 */
#define RAW(i) ({ unsigned char *q_ = (unsigned char*)c->ptr + (i) * es; size_t j_ = 1; while (j_ < es && q_[j_] == q_[0]) j_++; j_ == es ? q_[0] : -1; })
#define GET(i) (V ? ({ unsigned char *q_ = vt_vec_get(c, i); (size_t)(q_ - (unsigned char*)c->ptr) == (i) * es ? RAW(i) : -1; }) : ({ void *q_ = vt_plist_get(c, i); !memcmp(&q_, (char*)c->ptr + (i) * es, es) ? RAW(i) : -1; }))
#define ARG(x) (V ? (void*)x : *(void**)x)
        V ? vt_vec_resize(c, n) : vt_plist_resize(c, n); L[0] = vt_array_len(c);
        V ? vt_vec_set(c, ARG(e1), at) : vt_plist_set(c, ARG(e1), at); O = V ? (size_t)((char*)vt_vec_get(c, at) - (char*)c->ptr) : at * es; g[0] = GET(at);
        V ? vt_vec_push_back(c, ARG(e2)) : vt_plist_push_back(c, ARG(e2)); L[1] = vt_array_len(c); g[1] = GET(n); size_t C1 = vt_array_capacity(c);
        V ? vt_vec_insert(c, ARG(e3), n) : vt_plist_insert(c, ARG(e3), n); L[2] = vt_array_len(c); g[2] = GET(n); g[3] = GET(n + 1);
        void *sb = V ? vt_vec_slide_back(c) : vt_plist_slide_back(c); g[4] = V ? (sb == (char*)c->ptr + (n + 1) * es ? 2 : -1) : (sb == ARG(e2) ? 2 : -1);
        V ? vt_vec_remove(c, n, VT_REMOVE_STRATEGY_STABLE) : vt_plist_remove(c, n, VT_REMOVE_STRATEGY_STABLE); L[3] = vt_array_len(c); g[5] = GET(n);
        V ? vt_vec_remove(c, at, VT_REMOVE_STRATEGY_FAST) : vt_plist_remove(c, at, VT_REMOVE_STRATEGY_FAST); L[4] = vt_array_len(c); g[6] = GET(at);
        V ? vt_vec_set(c, ARG(e3), n - 1) : vt_plist_set(c, ARG(e3), n - 1); void *pg = V ? vt_vec_pop_get(c) : vt_plist_pop_get(c); L[5] = vt_array_len(c); g[7] = V ? (pg == (char*)c->ptr + (n - 1) * es ? RAW(n - 1) : -1) : (pg == ARG(e3) ? 3 : -1);
        V ? vt_vec_destroy(c) : vt_plist_destroy(c); ev_ret(); ev_bigu("cap", 0, C0); ev_bigu("cap1", 0, C1); ev_bigu("off", 0, O);
        ev_bigu("l0", 0, L[0]); ev_bigu("l1", 0, L[1]); ev_bigu("l2", 0, L[2]); ev_bigu("l3", 0, L[3]); ev_bigu("l4", 0, L[4]); ev_bigu("l5", 0, L[5]);
        ev_arr("got"); for (int i = 0; i < 8; i++) { ev_arr_sep(); hx_fmt("%d", g[i]); } ev_arr_end(); ev_u("blocks", hx_nblk); ev_end(); return;
    }
    if (!ob[o].live) return; /* scripts only address live containers */
    if (!strcmp(op, "destroy")) { ev_begin(op); ev_i("o", o); ev_call(); if (v) vt_vec_destroy(a); else vt_plist_destroy(a); ev_ret(); ob[o].live = 0; project(); ev_end(); return; }
    if (!strcmp(op, "dup")) {
        int d = (int)tk_i(2) % NSLOT; if (ob[d].live) return; bool ua = tk_i(3); if (ua && !al) al = vt_mallocator_create();
        ev_begin(op); ev_i("o", o); ev_i("d", d); ev_call();
        ob[d] = ob[o]; ob[d].live = 0; ob[d].a = v ? vt_vec_dup(a, ua ? al : NULL) : vt_plist_dup(a, ua ? al : NULL);
        ev_ret(); ob[d].live = 1; ob[d].ua = ua; project(); ev_end(); return;
    }
    if (!strcmp(op, "vast")) { /* vast o c|r|z n : a size no memory can hold */
        size_t n = tk_u(3), es = vt_array_elsize(a); ev_begin(op); ev_i("o", o); ev_t("how", tk_s(2)); ev_bigu("n", 0, n); ev_bigu("esz", 0, es); ev_bigu("cap", 0, vt_array_capacity(a)); ev_call();
        switch (tk_s(2)[0]) {
            case 'c': if (v) vt_vec_create(n, es, NULL); else vt_plist_create(n, NULL); break;
            case 'r': if (v) vt_vec_reserve(a, n); else vt_plist_reserve(a, n); break;
            case 'z': if (v) vt_vec_resize(a, n); else vt_plist_resize(a, n); break;
        }
        ev_ret(); ev_end(); return;
    }
    if (!strcmp(op, "nullarg")) { /* nullarg o which : NULL value/container */
        int w = (int)tk_i(2); ev_begin(op); ev_i("o", o); ev_i("w", w); ev_call();
        if (v) switch (w) {
            case 0: vt_vec_push_back(NULL, "x"); break; case 1: vt_vec_push_back(a, NULL); break; case 2: vt_vec_push_front(a, NULL); break;
            case 3: vt_vec_insert(a, NULL, 0); break; case 4: vt_vec_set(a, NULL, 0); break; case 5: vt_vec_can_find(a, NULL); break;
            case 6: vt_vec_apply(a, NULL); break; case 7: vt_vec_len(NULL); break; case 8: vt_vec_pop_get(NULL); break; case 9: vt_vec_get(NULL, 0); break;
            case 10: vt_vec_destroy(NULL); break; case 11: vt_vec_dup(NULL, NULL); break; case 12: vt_vec_resize(NULL, 1); break; case 13: vt_vec_reserve(NULL, 1); break;
            case 14: vt_vec_shrink(NULL); break; case 15: vt_vec_clear(NULL); break; case 16: vt_vec_pop(NULL); break; case 17: vt_vec_remove(NULL, 0, VT_REMOVE_STRATEGY_FAST); break;
            case 18: vt_vec_slide_front(NULL); break; case 19: vt_vec_slide_back(NULL); break; case 20: vt_vec_slide_reset(NULL); break; case 21: vt_vec_push_front(NULL, "x"); break;
            case 22: vt_vec_insert(NULL, "x", 0); break; case 23: vt_vec_set(NULL, "x", 0); break; case 24: vt_vec_capacity(NULL); break; case 25: vt_vec_has_space(NULL); break;
            case 26: vt_vec_is_empty(NULL); break; case 27: vt_vec_can_find(NULL, "x"); break; case 28: vt_vec_remove(a, 0, VT_REMOVE_STRATEGY_COUNT); break;
            case 29: vt_vec_apply(NULL, cb); break; case 30: vt_vec_create(1, 0, NULL); break;
        } else switch (w) {
            case 0: vt_plist_push_back(NULL, "x"); break; case 1: vt_plist_push_back(a, NULL); break; case 2: vt_plist_push_front(a, NULL); break;
            case 3: vt_plist_insert(a, NULL, 0); break; case 4: vt_plist_set(a, NULL, 0); break; case 5: vt_plist_can_find(a, NULL); break;
            case 6: vt_plist_apply(a, NULL); break; case 7: vt_plist_len(NULL); break; case 8: vt_plist_pop_get(NULL); break; case 9: vt_plist_get(NULL, 0); break;
            case 10: vt_plist_destroy(NULL); break; case 11: vt_plist_dup(NULL, NULL); break; case 12: vt_plist_resize(NULL, 1); break; case 13: vt_plist_reserve(NULL, 1); break;
            case 14: vt_plist_shrink(NULL); break; case 15: vt_plist_clear(NULL); break; case 16: vt_plist_pop(NULL); break; case 17: vt_plist_remove(NULL, 0, VT_REMOVE_STRATEGY_FAST); break;
            case 18: vt_plist_slide_front(NULL); break; case 19: vt_plist_slide_back(NULL); break; case 20: vt_plist_slide_reset(NULL); break; case 21: vt_plist_push_front(NULL, "x"); break;
            case 22: vt_plist_insert(NULL, "x", 0); break; case 23: vt_plist_set(NULL, "x", 0); break; case 24: vt_plist_capacity(NULL); break; case 25: vt_plist_has_space(NULL); break;
            case 26: vt_plist_is_empty(NULL); break; case 27: vt_plist_can_find(NULL, "x"); break; case 28: vt_plist_remove(a, 0, VT_REMOVE_STRATEGY_COUNT); break;
            case 29: vt_plist_apply(NULL, cb); break; case 30: vt_plist_remove_element(a, NULL, VT_REMOVE_STRATEGY_FAST); break;
        }
        ev_ret(); project(); ev_end(); return;
    }

    char base[32]; snprintf(base, sizeof base, "%s", op); size_t bl = strlen(base);
    const bool T = v && bl && base[bl - 1] == 'T'; if (bl && base[bl - 1] == 'T') base[bl - 1] = 0;   /* typed variant */
    ev_begin(strcmp(base, "pop_get") || !T ? (strcmp(base, "poke") ? base : "set") : "pop_getT"); ev_i("o", o); ev_t("t", T ? ty : "");

    if (!strcmp(base, "push_back") || !strcmp(base, "push_front")) {
        parse_val(o, tk_s(2)); ev_el("v", o, valbuf); ev_call(); bool back = base[5] == 'b';
        if (!v) { memcpy(&q, valbuf, sizeof q); if (back) vt_plist_push_back(a, q); else vt_plist_push_front(a, q); }
        else if (!T) { void *x = __real_malloc(ob[o].esz); memcpy(x, valbuf, ob[o].esz); if (back) vt_vec_push_back(a, x); else vt_vec_push_front(a, x); }
#define X(C, t) else if (!strcmp(ty, #t)) { C x; memcpy(&x, valbuf, sizeof x); if (back) vt_vec_push_back##t(a, x); else vt_vec_push_front##t(a, x); }
        TYPES(X)
#undef X
        ev_ret();
    } else if (!strcmp(base, "bulk")) { /* bulk o front|back n vals... : n pushes, values cyclically */
        bool back = tk_s(2)[0] == 'b'; size_t n = tk_u(3); int nv = hx_ntok - 4; ev_b("back", back);
        ev_arr("vs"); for (size_t i = 0; i < n; i++) { char t[64]; parse_val(o, tk_s(4 + (int)(i % (size_t)nv))); canon(o, valbuf, t); ev_arr_sep(); hx_fmt("\"%s\"", t); } ev_arr_end();
        ev_call();
        for (size_t i = 0; i < n; i++) {
            parse_val(o, tk_s(4 + (int)(i % (size_t)nv)));
            if (!v) { memcpy(&q, valbuf, sizeof q); if (back) vt_plist_push_back(a, q); else vt_plist_push_front(a, q); }
            else if (!T) { if (back) vt_vec_push_back(a, valbuf); else vt_vec_push_front(a, valbuf); }
#define X(C, t) else if (!strcmp(ty, #t)) { C x; memcpy(&x, valbuf, sizeof x); if (back) vt_vec_push_back##t(a, x); else vt_vec_push_front##t(a, x); }
            TYPES(X)
#undef X
        }
        ev_ret();
    } else if (!strcmp(base, "drain") || !strcmp(base, "walk_front") || !strcmp(base, "walk_back")) { /* n calls, all results */
        size_t n = tk_u(2); char (*r)[40] = __real_malloc(n * 40 + 1); int w = base[0] == 'd' ? 0 : base[5] == 'f' ? 1 : 2; char t[64]; ev_u("n", n);
        ev_call();
        for (size_t i = 0; i < n; i++) {
            if (v) { q = w == 0 ? vt_vec_pop_get(a) : w == 1 ? vt_vec_slide_front(a) : vt_vec_slide_back(a); if (q) canon(o, q, t); else strcpy(t, "NULL"); }
            else { q = w == 0 ? vt_plist_pop_get(a) : w == 1 ? vt_plist_slide_front(a) : vt_plist_slide_back(a); canon(o, &q, t); }
            t[0] ? snprintf(r[i], 40, "%.39s", t) : 0;
        }
        ev_ret(); ev_arr("rets"); for (size_t i = 0; i < n; i++) { ev_arr_sep(); hx_fmt("\"%s\"", r[i]); } ev_arr_end(); __real_free(r);
    } else if (!strcmp(base, "insert") || !strcmp(base, "set")) {
        size_t at = tk_ix(3, o); parse_val(o, tk_s(2)); ev_el("v", o, valbuf); ev_u("at", at); ev_call(); bool ins = base[0] == 'i';
        if (!v) { memcpy(&q, valbuf, sizeof q); if (ins) vt_plist_insert(a, q, at); else vt_plist_set(a, q, at); }
        else if (!T) { void *x = __real_malloc(ob[o].esz); memcpy(x, valbuf, ob[o].esz); if (ins) vt_vec_insert(a, x, at); else vt_vec_set(a, x, at); }
#define X(C, t) else if (!strcmp(ty, #t)) { C x; memcpy(&x, valbuf, sizeof x); if (ins) vt_vec_insert##t(a, x, at); else vt_vec_set##t(a, x, at); }
        TYPES(X)
#undef X
        ev_ret();
    } else if (!strcmp(base, "poke")) { /* write through the pointer returned by get */
        size_t at = tk_ix(3, o); parse_val(o, tk_s(2)); ev_el("v", o, valbuf); ev_u("at", at); ev_call();
        if (v) memcpy(vt_vec_get(a, at), valbuf, ob[o].esz); else { memcpy(&q, valbuf, sizeof q); vt_plist_set(a, q, at); }
        ev_ret();
    } else if (!strcmp(base, "get")) {
        size_t at = tk_ix(2, o); ev_u("at", at); ev_call();
        if (!v) { q = vt_plist_get(a, at); ev_ret(); ev_el("ret", o, &q); }
        else if (!T) { q = vt_vec_get(a, at); ev_ret(); ev_el("ret", o, q); }
#define X(C, t) else if (!strcmp(ty, #t)) { C x; memset(&x, 0, sizeof x); x = vt_vec_get##t(a, at); ev_ret(); ev_el("ret", o, &x); }
        TYPES(X)
#undef X
    } else if (!strcmp(base, "aget")) { /* generic accessor */
        size_t at = tk_ix(2, o); hx_len = 0; ev_begin("get"); ev_i("o", o); ev_u("at", at); ev_call(); q = vt_array_get(a, at); ev_ret(); ev_el("ret", o, q);
    } else if (!strcmp(base, "aset")) {
        size_t at = tk_ix(3, o); hx_len = 0; ev_begin("set"); ev_i("o", o); parse_val(o, tk_s(2)); ev_el("v", o, valbuf); ev_u("at", at); void *x = __real_malloc(ob[o].esz); memcpy(x, valbuf, ob[o].esz); ev_call(); vt_array_set(a, x, at); ev_ret();
    } else if (!strcmp(base, "info")) { /* generic observers agree with the specific ones */
        ev_call(); size_t ln = vt_array_len(a), cp = vt_array_capacity(a), sp = vt_array_has_space(a), es = vt_array_elsize(a); bool ha = vt_array_has_alloctr(a); ev_ret();
        ev_u("len", ln); ev_u("cap", cp); ev_u("space", sp); ev_b("esok", es == ob[o].esz); ev_b("alok", ha == ob[o].ua);
        ev_b("headok", ln == 0 || vt_array_head(a) == vt_array_get(a, 0));
    } else if (!strcmp(base, "pop")) { ev_call(); if (v) vt_vec_pop(a); else vt_plist_pop(a); ev_ret();
    } else if (!strcmp(base, "pop_get")) {
        ev_call();
        if (!v) { q = vt_plist_pop_get(a); ev_ret(); ev_el("ret", o, &q); }
        else if (!T) { q = vt_vec_pop_get(a); ev_ret(); ev_el("ret", o, q); }
#define X(C, t) else if (!strcmp(ty, #t)) { C x = vt_vec_pop_get##t(a); ev_ret(); ev_b("zero", x == 0); ev_el("ret", o, &x); }
        TYPES(X)
#undef X
    } else if (!strcmp(base, "remove_s") || !strcmp(base, "remove_f")) {
        size_t at = tk_ix(2, o); ev_u("at", at); ev_call(); enum VitaRemoveStrategy rs = base[7] == 's' ? VT_REMOVE_STRATEGY_STABLE : VT_REMOVE_STRATEGY_FAST;
        if (v) vt_vec_remove(a, at, rs); else vt_plist_remove(a, at, rs);
        ev_ret();
    } else if (!strcmp(base, "remove_elem")) {
        bool fast = tk_i(3); parse_val(o, tk_s(2)); ev_el("v", o, valbuf); ev_b("fast", fast); ev_call(); enum VitaRemoveStrategy rs = fast ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE;
        if (!v) { memcpy(&q, valbuf, sizeof q); vt_plist_remove_element(a, q, rs); }
        else { int64_t i = vt_vec_can_find(a, valbuf); if (i >= 0) vt_vec_remove(a, (size_t)i, rs); }
        ev_ret();
    } else if (!strcmp(base, "find")) {
        parse_val(o, tk_s(2)); ev_el("v", o, valbuf); ev_call(); int64_t r = -2;
        if (!v) { memcpy(&q, valbuf, sizeof q); r = vt_plist_can_find(a, q); }
        else if (!T) { r = vt_vec_can_find(a, valbuf); }
#define X(C, t) else if (!strcmp(ty, #t)) { C x; memcpy(&x, valbuf, sizeof x); r = vt_vec_can_find##t(a, x); }
        TYPES(X)
#undef X
        ev_ret(); ev_i("ret", r);
    } else if (!strcmp(base, "clear")) { ev_call(); if (v) vt_vec_clear(a); else vt_plist_clear(a); ev_ret();
    } else if (!strcmp(base, "reserve")) { size_t n = tk_u(2); ev_u("n", n); ev_call(); if (v) vt_vec_reserve(a, n); else vt_plist_reserve(a, n); ev_ret();
    } else if (!strcmp(base, "resize")) { size_t n = tk_u(2); ev_u("n", n); ev_call(); if (v) vt_vec_resize(a, n); else vt_plist_resize(a, n); ev_ret();
    } else if (!strcmp(base, "shrink")) { ev_call(); if (v) vt_vec_shrink(a); else vt_plist_shrink(a); ev_ret();
    } else if (!strcmp(base, "slide_front") || !strcmp(base, "slide_back")) {
        bool f = base[6] == 'f'; ev_call();
        if (v) { q = f ? vt_vec_slide_front(a) : vt_vec_slide_back(a); ev_ret(); ev_el("ret", o, q); }
        else { q = f ? vt_plist_slide_front(a) : vt_plist_slide_back(a); ev_ret(); ev_el("ret", o, &q); }
    } else if (!strcmp(base, "aslide_front") || !strcmp(base, "aslide_back")) { /* generic vt_array_ variant: pointer to the slot */
        bool f = base[7] == 'f'; hx_len = 0; ev_begin(f ? "slide_front" : "slide_back"); ev_i("o", o); ev_call();
        q = f ? vt_array_slide_front(a) : vt_array_slide_back(a); ev_ret(); ev_el("ret", o, q);
    } else if (!strcmp(base, "slide_reset")) { ev_call(); if (v) vt_vec_slide_reset(a); else vt_plist_slide_reset(a); ev_ret();
    } else if (!strcmp(base, "apply")) { /* apply o [vals...] */
        cb_o = o; cb_n = 0; cb_nv = 0; for (int i = 2; i < hx_ntok && cb_nv < 8 && v; i++) snprintf(cb_vals[cb_nv++], 64, "%s", tk_s(i));
        ev_arr("vals"); for (int i = 0; i < cb_nv; i++) { char t[64]; parse_val(o, cb_vals[i]); canon(o, valbuf, t); ev_arr_sep(); hx_fmt("\"%s\"", t); } ev_arr_end();
        ev_call(); if (v) vt_vec_apply(a, cb); else vt_plist_apply(a, cb); ev_ret();
        ev_arr("seen"); for (size_t i = 0; i < cb_n && i < 80000; i++) { ev_arr_sep(); hx_fmt("\"%s\"", cb_seen[i].el); } ev_arr_end();
        ev_arr("idx"); for (size_t i = 0; i < cb_n && i < 80000; i++) { ev_arr_sep(); hx_fmt("%ld", hx_clamp(cb_seen[i].i)); } ev_arr_end();
    } else { fprintf(stderr, "unknown op %s\n", op); _exit(99); }
    project(); ev_end();
}
