/* str.c - conformance harness for vt_str_t (spec: Str.tla) */
#include "hx.h"
#include "vita/container/str.h"
#include "vita/allocator/mallocator.h"

#define NSLOT 4
static struct { int live; bool view, ua; vt_str_t *s; vt_str_t st; char *z; size_t zn; } ob[NSLOT];
static vt_mallocator_t *al;
static vt_mallocator_t *get_al(int ua) { if (ua && !al) al = vt_mallocator_create(); return ua ? al : NULL; }
static void area_begin(void) { memset(ob, 0, sizeof ob); al = NULL; }
static void area_finish(void) {}

/* index/count token: number, "L", "L+k", "L-k" (length), "C", "C+k" (capacity) */
static size_t tk_ix(int i, int o) {
    const char *t = tk_s(i); if (*t != 'L' && *t != 'C') return (size_t)tk_u(i);
    size_t n = *t == 'L' ? vt_str_len(ob[o].s) : vt_str_capacity(ob[o].s);
    if (t[1] == '+') return n + strtoull(t + 2, NULL, 10);
    if (t[1] == '-') { size_t k = strtoull(t + 2, NULL, 10); return k > n ? 0 : n - k; }
    return n;
}
static void ev_txt(const char *k, const vt_str_t *s) { ev_bytes(k, vt_str_z(s), strlen(vt_str_z(s))); }
static void project(void) {
    ev_arr("st");
    for (int o = 0; o < NSLOT; o++) {
        ev_arr_sep(); hx_raw("{", 1); hx_first = 1;
        ev_b("live", ob[o].live);
        if (ob[o].live) {
            const vt_str_t *s = ob[o].s;
            ev_b("view", ob[o].view); ev_u("len", vt_str_len(s)); ev_u("cap", vt_str_capacity(s)); ev_u("space", vt_str_has_space(s)); ev_b("empty", vt_str_is_empty(s));
            /* the text as a C string and the text as (pointer, length) */
            size_t zl = strlen(vt_str_z(s)); ev_bytes("txt", vt_str_z(s), zl); ev_b("same", zl == vt_str_len(s));
            if (ob[o].view) ev_b("under", vt_str_z(s) == ob[o].z && strlen(ob[o].z) == zl);
        }
        hx_raw("}", 1); hx_first = 0;
    }
    ev_arr_end();
}
static void adopt(int o, vt_str_t *s, bool ua) { ob[o].s = s; ob[o].live = 1; ob[o].view = false; ob[o].ua = ua; }

static struct { unsigned char c; size_t i; } seen[8192]; static size_t nseen; static char *cbv; static size_t cbn;
static void cb(char *c, size_t i) { if (nseen < 8192) { seen[nseen].c = (unsigned char)*c; seen[nseen].i = i; } if (cbn) *c = cbv[nseen % cbn]; nseen++; }

static void area_op(void) {
    const char *op = tk_s(0); const int o = (int)tk_i(1) >= 0 ? (int)tk_i(1) % NSLOT : -1;
    size_t n1 = 0, n2 = 0; char *a = NULL, *b = NULL;
    if (!strcmp(op, "create") || !strcmp(op, "static") || !strcmp(op, "own")) { /* op o text alloc */
        if (ob[o].live) return;
        a = tk_hex(2, &n1); int ua = (int)tk_i(3); vt_mallocator_t *m = get_al(ua);
        if (*op == 'o') { char *q = m ? VT_ALLOCATOR_ALLOC(m, n1 + 1) : VT_CALLOC(n1 + 1); memcpy(q, a, n1 + 1); a = q; }
        ev_begin(op); ev_i("o", o); ev_bytes("z", a, n1); ev_call();
        if (*op == 'c') { vt_str_t *s = vt_str_create(a, m); ev_ret(); adopt(o, s, ua); memset(a, 'Z', n1); }
        else if (*op == 'o') { vt_str_t *s = vt_str_take_ownership(a, m); ev_ret(); adopt(o, s, ua); }
        else { ob[o].st = vt_str_create_static(a); ev_ret(); ob[o].s = &ob[o].st; ob[o].live = 1; ob[o].view = true; ob[o].ua = false; ob[o].z = a; ob[o].zn = n1; }
        project(); ev_end(); return;
    }
    if (!strcmp(op, "create_len") || !strcmp(op, "create_cap")) {
        if (ob[o].live) return;
        size_t n = (size_t)tk_u(2); int ua = (int)tk_i(3); vt_mallocator_t *m = get_al(ua);
        ev_begin(op); ev_i("o", o); ev_u("n", n); ev_call();
        vt_str_t *s = op[7] == 'l' ? vt_str_create_len(n, m) : vt_str_create_capacity(n, m); ev_ret(); adopt(o, s, ua); project(); ev_end(); return;
    }
    if (!strcmp(op, "fin")) {
        if (al) { vt_mallocator_destroy(al); al = NULL; }
        ev_begin("fin"); ev_call(); ev_ret(); ev_u("blocks", hx_nblk); project(); ev_end(); return;
    }
    /* free functions on C strings */
    if (!strcmp(op, "equals_z")) { a = tk_hex(1, &n1); b = tk_hex(2, &n2); ev_begin(op); ev_bytes("z", a, n1); ev_bytes("y", b, n2); ev_call(); bool r = vt_str_equals_z(a, b); ev_ret(); ev_b("ret", r); project(); ev_end(); return; }
    if (!strcmp(op, "equals_n")) { a = tk_hex(1, &n1); b = tk_hex(2, &n2); size_t n = tk_u(3); ev_begin(op); ev_bytes("z", a, n1); ev_bytes("y", b, n2); ev_u("n", n); ev_call(); bool r = vt_str_equals_n(a, b, n); ev_ret(); ev_b("ret", r); project(); ev_end(); return; }
    if (!strcmp(op, "numeric_z")) { a = tk_hex(1, &n1); size_t n = tk_u(2); ev_begin(op); ev_bytes("z", a, n1); ev_u("n", n); ev_call(); bool r = vt_str_is_numeric_z(a, n); ev_ret(); ev_b("ret", r); project(); ev_end(); return; }
    if (!strcmp(op, "between")) { /* between o d z zl zr : o = slot given (or -1), d = slot for a new result */
        int d = (int)tk_i(2); a = tk_hex(3, &n1); size_t n3; b = tk_hex(4, &n2); char *c = tk_hex(5, &n3);
        if (o >= 0 ? !ob[o].live : ob[d].live) return;
        ev_begin(op); ev_i("o", o); ev_i("d", d); ev_bytes("z", a, n1); ev_bytes("zl", b, n2); ev_bytes("zr", c, n3); ev_call();
        vt_str_t *r = vt_str_split_between(o >= 0 ? ob[o].s : NULL, a, b, c); ev_ret(); ev_b("null", r == NULL); ev_b("given", o >= 0 && r == ob[o].s);
        if (o < 0 && r) adopt(d, r, false);
        project(); ev_end(); return;
    }
    if (!strcmp(op, "join") || !strcmp(op, "join_n")) { /* join o d sep parts... */
        int d = (int)tk_i(2); a = tk_hex(3, &n1); if (o >= 0 ? !ob[o].live : ob[d].live) return;
        char *z[60] = {0}; size_t zn[60]; int n = 0; for (int i = 4; i < hx_ntok && n < 60; i++, n++) z[n] = tk_hex(i, &zn[n]);
        ev_begin(op); ev_i("o", o); ev_i("d", d); ev_bytes("sep", a, n1);
        ev_arr("parts"); for (int i = 0; i < n; i++) { ev_arr_sep(); hx_raw("[", 1); for (size_t k = 0; k < zn[i]; k++) hx_fmt(k ? ",%u" : "%u", (unsigned char)z[i][k]); hx_raw("]", 1); } ev_arr_end();
        vt_plist_t *pl = NULL; if (op[4] == 0) { pl = vt_plist_create((size_t)n + 1, NULL); for (int i = 0; i < n; i++) vt_plist_push_back(pl, z[i]); }
        ev_call(); vt_str_t *s = o >= 0 ? ob[o].s : NULL, *r = NULL;
        if (pl) r = vt_str_join(s, a, pl);
        else switch (n) {
            case 0: r = vt_str_join_n(s, a, 0); break; case 1: r = vt_str_join_n(s, a, 1, z[0]); break; case 2: r = vt_str_join_n(s, a, 2, z[0], z[1]); break;
            case 3: r = vt_str_join_n(s, a, 3, z[0], z[1], z[2]); break; case 4: r = vt_str_join_n(s, a, 4, z[0], z[1], z[2], z[3]); break;
            default: r = vt_str_join_n(s, a, (size_t)n, z[0], z[1], z[2], z[3], z[4], z[5], z[6], z[7], z[8], z[9], z[10], z[11], z[12], z[13], z[14], z[15], z[16], z[17], z[18], z[19], z[20], z[21], z[22], z[23], z[24], z[25], z[26], z[27], z[28], z[29], z[30], z[31], z[32], z[33], z[34], z[35], z[36], z[37], z[38], z[39], z[40], z[41], z[42], z[43], z[44], z[45], z[46], z[47], z[48], z[49], z[50], z[51], z[52], z[53], z[54], z[55], z[56], z[57], z[58], z[59]); break;
        }
        ev_ret(); ev_b("null", r == NULL); ev_b("given", o >= 0 && r == s);
        if (pl) vt_plist_destroy(pl);
        if (o < 0 && r) adopt(d, r, false);
        project(); ev_end(); return;
    }
    if (o < 0 || !ob[o].live) return;
    vt_str_t *s = ob[o].s; const char *r = NULL; long na = 0;
#define NA0 long na0 = hx_nalloc;
#define NA1 na = hx_nalloc - na0;
    if (!strcmp(op, "destroy")) {
        ev_begin(op); ev_i("o", o); ev_call(); vt_str_destroy(s); ev_ret(); ob[o].live = 0;
        if (ob[o].view) { ev_bytes("z", ob[o].z, strlen(ob[o].z)); __real_free(ob[o].z); }
        project(); ev_end(); return;
    }
    if (!strcmp(op, "dup")) { int d = (int)tk_i(2) % NSLOT; if (ob[d].live) return; ev_begin(op); ev_i("o", o); ev_i("d", d); ev_call(); vt_str_t *x = vt_str_dup(s); ev_ret(); adopt(d, x, ob[o].ua); project(); ev_end(); return; }
    if (!strcmp(op, "equals")) { int d = (int)tk_i(2) % NSLOT; if (!ob[d].live) return; ev_begin(op); ev_i("o", o); ev_i("d", d); ev_call(); NA0 bool x = vt_str_equals(s, ob[d].s); NA1 ev_ret(); ev_b("ret", x); ev_i("na", na); project(); ev_end(); return; }
    if (!strcmp(op, "split")) { /* split o sep list(-1 none|0 plain|1 allocator) cap stale */
        a = tk_hex(2, &n1); int lm = (int)tk_i(3); size_t lc = (size_t)tk_u(4), stale = (size_t)tk_u(5);
        vt_plist_t *pl = NULL; vt_str_t old = vt_str_create_static("STALE");
        if (lm >= 0) { pl = vt_plist_create(lc ? lc : 1, get_al(lm)); for (size_t i = 0; i < stale; i++) vt_plist_push_back(pl, &old); } else stale = 0;
        ev_begin(op); ev_i("o", o); ev_bytes("sep", a, n1); ev_u("stale", stale); ev_b("list", lm >= 0); ev_call();
        vt_plist_t *x = vt_str_split(pl, s, a); ev_ret(); ev_b("null", x == NULL); ev_b("given", pl != NULL && x == pl);
        vt_plist_t *w = x ? x : pl; bool wf = true; ev_u("n", w ? vt_plist_len(w) : 0);
        ev_arr("parts");
        for (size_t i = 0; w && i < vt_plist_len(w); i++) {
            vt_str_t *p = vt_plist_get(w, i); ev_arr_sep(); hx_raw("[", 1); const char *q = vt_str_z(p); size_t ql = strlen(q);
            for (size_t k = 0; k < ql; k++) hx_fmt(k ? ",%u" : "%u", (unsigned char)q[k]); hx_raw("]", 1);
            if (ql != vt_str_len(p) || vt_str_capacity(p) < ql) wf = false;
            if (x && vt_array_has_alloctr(p) != (lm == 1)) wf = false;
        }
        ev_arr_end(); ev_b("wf", wf);
        if (w) { for (size_t i = 0; i < vt_plist_len(w); i++) vt_str_destroy(vt_plist_get(w, i)); vt_plist_destroy(w); }
        project(); ev_end(); return;
    }
    if (!strcmp(op, "pop_first") || !strcmp(op, "pop_last")) { /* pop_x o sr d sep */
        int sr = (int)tk_i(2), d = (int)tk_i(3); a = tk_hex(4, &n1); if (sr >= 0 ? !ob[sr].live || sr == o : ob[d].live) return;
        ev_begin(op); ev_i("o", o); ev_i("sr", sr); ev_i("d", d); ev_bytes("sep", a, n1); ev_call(); vt_str_t *g = sr >= 0 ? ob[sr].s : NULL;
        vt_str_t *x = op[4] == 'f' ? vt_str_pop_get_first(g, s, a) : vt_str_pop_get_last(g, s, a); ev_ret(); ev_b("null", x == NULL); ev_b("given", sr >= 0 && x == g);
        if (sr < 0 && x) adopt(d, x, false);
        project(); ev_end(); return;
    }
    if (!strcmp(op, "vast")) { /* vast o l|c|r|z n : a size no memory can hold */
        size_t n = tk_u(3); ev_begin(op); ev_i("o", o); ev_t("how", tk_s(2)); ev_bigu("n", 0, n); ev_bigu("esz", 0, 1); ev_bigu("cap", 0, vt_str_capacity(s)); ev_call();
        switch (tk_s(2)[0]) {
            case 'l': vt_str_create_len(n, NULL); break; case 'c': vt_str_create_capacity(n, NULL); break;
            case 'r': vt_str_reserve(s, n); break; case 'z': vt_str_resize(s, n); break;
        }
        ev_ret(); ev_end(); return;
    }
    if (!strcmp(op, "nullarg")) {
        int w = (int)tk_i(2); ev_begin(op); ev_i("o", o); ev_i("w", w); ev_call();
        switch (w) {
            case 0: vt_str_create(NULL, NULL); break; case 1: vt_str_create_static(NULL); break; case 2: vt_str_take_ownership(NULL, NULL); break; case 3: vt_str_destroy(NULL); break;
            case 4: vt_str_dup(NULL); break; case 5: vt_str_z(NULL); break; case 6: vt_str_len(NULL); break; case 7: vt_str_capacity(NULL); break; case 8: vt_str_has_space(NULL); break;
            case 9: vt_str_is_empty(NULL); break; case 10: vt_str_validate_len(NULL); break; case 11: vt_str_shrink(NULL); break; case 12: vt_str_clear(NULL); break; case 13: vt_str_reserve(NULL, 1); break;
            case 14: vt_str_resize(NULL, 1); break; case 15: vt_str_set(s, NULL); break; case 16: vt_str_set(NULL, "a"); break; case 17: vt_str_set_at(s, NULL, 0); break; case 18: vt_str_set_at(NULL, "a", 0); break;
            case 19: vt_str_set_c(NULL, 'a', 0); break; case 20: vt_str_set_n(s, NULL, 1); break; case 21: vt_str_set_n(NULL, "a", 1); break; case 22: vt_str_append(s, NULL); break; case 23: vt_str_append(NULL, "a"); break;
            case 24: vt_str_appendf(s, NULL); break; case 25: vt_str_appendf(NULL, "a"); break; case 26: vt_str_append_n(s, NULL, 1); break; case 27: vt_str_append_n(NULL, "a", 1); break; case 28: vt_str_insert(s, NULL, 0); break;
            case 29: vt_str_insert(NULL, "a", 0); break; case 30: vt_str_insertf(s, 0, NULL); break; case 31: vt_str_insertf(NULL, 0, "a"); break; case 32: vt_str_insert_n(s, NULL, 0, 1); break; case 33: vt_str_insert_n(NULL, "a", 0, 1); break;
            case 34: vt_str_insert_before(s, "a", NULL); break; case 35: vt_str_insert_before(s, NULL, "a"); break; case 36: vt_str_insert_before(NULL, "a", "a"); break; case 37: vt_str_insert_after(s, "a", NULL); break; case 38: vt_str_insert_after(s, NULL, "a"); break;
            case 39: vt_str_remove(NULL, 0, 1); break; case 40: vt_str_remove_first(s, NULL); break; case 41: vt_str_remove_first(NULL, "a"); break; case 42: vt_str_remove_last(s, NULL); break; case 43: vt_str_remove_last(NULL, "a"); break;
            case 44: vt_str_remove_all(s, NULL); break; case 45: vt_str_remove_all(NULL, "a"); break; case 46: vt_str_remove_c(s, NULL); break; case 47: vt_str_remove_c(NULL, "a"); break; case 48: vt_str_replace(s, NULL, "a"); break;
            case 49: vt_str_replace(s, "a", NULL); break; case 50: vt_str_replace(NULL, "a", "b"); break; case 51: vt_str_replace_first(s, NULL, "a"); break; case 52: vt_str_replace_first(s, "a", NULL); break; case 53: vt_str_replace_last(s, NULL, "a"); break;
            case 54: vt_str_replace_last(s, "a", NULL); break; case 55: vt_str_replace_c(s, NULL, "a"); break; case 56: vt_str_replace_c(s, "a", NULL); break; case 57: vt_str_strip(NULL); break; case 58: vt_str_strip_punct(NULL); break;
            case 59: vt_str_strip_c(s, NULL); break; case 60: vt_str_strip_c(NULL, "a"); break; case 61: vt_str_find(s, NULL); break; case 62: vt_str_find(NULL, "a"); break; case 63: vt_str_can_find(s, NULL); break;
            case 64: vt_str_can_find(NULL, "a"); break; case 65: vt_str_split(NULL, s, NULL); break; case 66: vt_str_split(NULL, NULL, "a"); break; case 67: vt_str_split_between(NULL, NULL, "a", "b"); break; case 68: vt_str_split_between(NULL, "a", NULL, "b"); break;
            case 69: vt_str_split_between(NULL, "a", "b", NULL); break; case 70: vt_str_join(NULL, ",", NULL); break; case 71: vt_str_join_n(NULL, NULL, 1, "a"); break; case 72: vt_str_pop_get_first(NULL, NULL, "a"); break; case 73: vt_str_pop_get_first(NULL, s, NULL); break;
            case 74: vt_str_pop_get_last(NULL, NULL, "a"); break; case 75: vt_str_pop_get_last(NULL, s, NULL); break; case 76: vt_str_equals_z(NULL, "a"); break; case 77: vt_str_equals_z("a", NULL); break; case 78: vt_str_equals_n(NULL, "a", 1); break;
            case 79: vt_str_equals_n("a", NULL, 1); break; case 80: vt_str_equals(NULL, s); break; case 81: vt_str_equals(s, NULL); break; case 82: vt_str_starts_with(NULL, "a"); break; case 83: vt_str_starts_with(s, NULL); break;
            case 84: vt_str_ends_with(NULL, "a"); break; case 85: vt_str_ends_with(s, NULL); break; case 86: vt_str_apply(NULL, cb); break; case 87: vt_str_apply(s, NULL); break; case 88: vt_str_is_numeric(NULL); break;
            case 89: vt_str_is_numeric_z(NULL, 1); break; case 90: vt_str_is_numeric_z("1", 0); break; case 91: vt_str_to_uppercase(NULL); break; case 92: vt_str_to_lowercase(NULL); break; case 93: vt_str_index_of(NULL, 'a'); break;
            case 94: vt_str_index_find(NULL, "a"); break; case 95: vt_str_index_find(s, NULL); break; case 96: vt_str_slide_front(NULL); break; case 97: vt_str_slide_back(NULL); break; case 98: vt_str_slide_reset(NULL); break; case 99: vt_str_insert_after(NULL, "a", "a"); break;
            case 100: vt_str_replace_first(NULL, "a", "b"); break; case 101: vt_str_replace_last(NULL, "a", "b"); break; case 102: vt_str_replace_c(NULL, "a", "b"); break;
        }
        ev_ret(); project(); ev_end(); return;
    }
    ev_begin(op); ev_i("o", o); bool q = false; /* q: read-only query */
    if (!strcmp(op, "shrink")) { ev_call(); vt_str_shrink(s); ev_ret(); }
    else if (!strcmp(op, "clear")) { ev_call(); vt_str_clear(s); ev_ret(); }
    else if (!strcmp(op, "reserve")) { size_t n = tk_ix(2, o); ev_u("n", n); ev_call(); vt_str_reserve(s, n); ev_ret(); }
    else if (!strcmp(op, "resize")) { size_t n = tk_ix(2, o); ev_u("n", n); ev_call(); vt_str_resize(s, n); ev_ret(); }
    else if (!strcmp(op, "cut")) { /* zero byte in the middle, then validate */
        size_t at = tk_ix(2, o); ev_u("at", at); ev_call(); vt_str_set_c(s, '\0', at); size_t x = vt_str_validate_len(s); ev_ret(); ev_u("ret", x);
    } else if (!strcmp(op, "fill")) { /* fill o z: write into the buffer behind the string's back, then validate */
        a = tk_hex(2, &n1); size_t c = vt_str_capacity(s); if (n1 > c) n1 = c; ev_bytes("z", a, n1); char *w = (char*)vt_str_z(s); memcpy(w, a, n1); if (n1 < c) w[n1] = 0; else w[n1] = '!'; ev_call(); size_t x = vt_str_validate_len(s); ev_ret(); ev_u("ret", x);
    } else if (!strcmp(op, "validate")) { ev_call(); size_t x = vt_str_validate_len(s); ev_ret(); ev_u("ret", x); }
    else if (!strcmp(op, "set")) { a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); vt_str_set(s, a); ev_ret(); }
    else if (!strcmp(op, "set_at")) { a = tk_hex(2, &n1); size_t at = tk_ix(3, o); ev_bytes("z", a, n1); ev_u("at", at); ev_call(); enum VitaStatus x = vt_str_set_at(s, a, at); ev_ret(); ev_b("success", x == VT_STATUS_OPERATION_SUCCESS); }
    else if (!strcmp(op, "set_c")) { int c = (int)tk_i(2); size_t at = tk_ix(3, o); ev_i("c", c); ev_u("at", at); ev_call(); enum VitaStatus x = vt_str_set_c(s, (char)c, at); ev_ret(); ev_b("success", x == VT_STATUS_OPERATION_SUCCESS); }
    else if (!strcmp(op, "set_n")) { a = tk_hex(2, &n1); size_t n = tk_ix(3, o); ev_bytes("z", a, n1); ev_u("n", n); ev_call(); vt_str_set_n(s, a, n); ev_ret(); }
    else if (!strcmp(op, "append")) { a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); vt_str_append(s, a); ev_ret(); }
    else if (!strcmp(op, "append_n")) { a = tk_hex(2, &n1); size_t n = tk_ix(3, o); ev_bytes("z", a, n1); ev_u("n", n); ev_call(); vt_str_append_n(s, a, n); ev_ret(); }
    else if (!strcmp(op, "appendf") || !strcmp(op, "insertf")) { /* appendf o kind z num | insertf o kind z num at */
        int k = (int)tk_i(2); a = tk_hex(3, &n1); int num = (int)tk_i(4); size_t at = tk_ix(5, o); bool ap = *op == 'a'; ev_i("k", k); ev_bytes("z", a, n1); ev_i("num", num); if (!ap) ev_u("at", at);
        ev_call(); enum VitaStatus x = VT_STATUS_OPERATION_SUCCESS;
#define F(...) (ap ? vt_str_appendf(s, __VA_ARGS__) : vt_str_insertf(s, at, __VA_ARGS__))
        switch (k) {
            case 0: x = F("%s", a); break; case 1: x = F("%d", num); break; case 2: x = F("%s%d%s", a, num, a); break; case 3: x = F("%s%%", a); break;
            case 4: x = F("[%c]%i", 'k', num); break; default: x = F("plain"); break;
        }
        ev_ret(); ev_b("success", x == VT_STATUS_OPERATION_SUCCESS);
    }
    else if (!strcmp(op, "insert")) { a = tk_hex(2, &n1); size_t at = tk_ix(3, o); ev_bytes("z", a, n1); ev_u("at", at); ev_call(); vt_str_insert(s, a, at); ev_ret(); }
    else if (!strcmp(op, "insert_n")) { a = tk_hex(2, &n1); size_t at = tk_ix(3, o), n = tk_ix(4, o); ev_bytes("z", a, n1); ev_u("at", at); ev_u("n", n); ev_call(); vt_str_insert_n(s, a, at, n); ev_ret(); }
    else if (!strcmp(op, "insert_before") || !strcmp(op, "insert_after")) { a = tk_hex(2, &n1); b = tk_hex(3, &n2); ev_bytes("sub", a, n1); ev_bytes("z", b, n2); ev_call(); if (op[7] == 'b') vt_str_insert_before(s, a, b); else vt_str_insert_after(s, a, b); ev_ret(); }
    else if (!strcmp(op, "remove")) { size_t at = tk_ix(2, o), n = tk_ix(3, o); ev_u("at", at); ev_u("n", n); ev_call(); vt_str_remove(s, at, n); ev_ret(); }
    else if (!strcmp(op, "remove_first") || !strcmp(op, "remove_last") || !strcmp(op, "remove_all")) {
        a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); enum VitaStatus x = op[7] == 'f' ? vt_str_remove_first(s, a) : op[7] == 'l' ? vt_str_remove_last(s, a) : vt_str_remove_all(s, a); ev_ret();
        ev_t("ret", x == VT_STATUS_OPERATION_SUCCESS ? "ok" : x == VT_STATUS_ERROR_ELEMENT_NOT_FOUND ? "notfound" : "other");
    }
    else if (!strcmp(op, "remove_c")) { a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); vt_str_remove_c(s, a); ev_ret(); }
    else if (!strcmp(op, "replace") || !strcmp(op, "replace_first") || !strcmp(op, "replace_last") || !strcmp(op, "replace_c")) {
        a = tk_hex(2, &n1); b = tk_hex(3, &n2); ev_bytes("sub", a, n1); ev_bytes("r", b, n2); ev_call();
        if (!op[7]) vt_str_replace(s, a, b); else if (op[8] == 'f') vt_str_replace_first(s, a, b); else if (op[8] == 'l') vt_str_replace_last(s, a, b); else vt_str_replace_c(s, a, b);
        ev_ret();
    }
    else if (!strcmp(op, "strip")) { ev_call(); vt_str_strip(s); ev_ret(); }
    else if (!strcmp(op, "strip_punct")) { ev_call(); vt_str_strip_punct(s); ev_ret(); }
    else if (!strcmp(op, "strip_c")) { a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); vt_str_strip_c(s, a); ev_ret(); }
    else if (!strcmp(op, "upper")) { ev_call(); vt_str_to_uppercase(s); ev_ret(); }
    else if (!strcmp(op, "lower")) { ev_call(); vt_str_to_lowercase(s); ev_ret(); }
    else if (!strcmp(op, "find")) { q = true; a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); NA0 r = vt_str_find(s, a); NA1 ev_ret(); ev_i("ret", r ? r - vt_str_z(s) : -1); }
    else if (!strcmp(op, "index_find")) { q = true; a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); NA0 int64_t x = vt_str_index_find(s, a); NA1 ev_ret(); ev_i("ret", x); }
    else if (!strcmp(op, "can_find")) { q = true; a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); NA0 size_t x = vt_str_can_find(s, a); NA1 ev_ret(); ev_u("ret", x); }
    else if (!strcmp(op, "index_of")) { q = true; int c = (int)tk_i(2); ev_i("c", c); ev_call(); NA0 int64_t x = vt_str_index_of(s, (char)c); NA1 ev_ret(); ev_i("ret", x); }
    else if (!strcmp(op, "starts_with")) { q = true; a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); NA0 bool x = vt_str_starts_with(s, a); NA1 ev_ret(); ev_b("ret", x); }
    else if (!strcmp(op, "ends_with")) { q = true; a = tk_hex(2, &n1); ev_bytes("z", a, n1); ev_call(); NA0 bool x = vt_str_ends_with(s, a); NA1 ev_ret(); ev_b("ret", x); }
    else if (!strcmp(op, "is_numeric")) { q = true; ev_call(); NA0 bool x = vt_str_is_numeric(s); NA1 ev_ret(); ev_b("ret", x); }
    else if (!strcmp(op, "info")) { q = true; ev_call(); NA0 size_t x = vt_str_len(s); bool e = vt_str_is_empty(s); size_t es = vt_array_elsize(s); NA1 ev_ret(); ev_u("ret", x); ev_b("e", e); ev_b("okay", es == 1 && vt_array_has_alloctr(s) == ob[o].ua && vt_array_head(s) == (void*)vt_str_z(s)); }
    else if (!strcmp(op, "slide_front") || !strcmp(op, "slide_back")) {
        ev_call(); char *x = op[6] == 'f' ? vt_str_slide_front(s) : vt_str_slide_back(s); ev_ret(); ev_i("ret", x ? (unsigned char)*x : -1); }
    else if (!strcmp(op, "slide_reset")) { ev_call(); vt_str_slide_reset(s); ev_ret(); }
    else if (!strcmp(op, "apply")) { /* apply o z : callback overwrites cyclically with z ("x" = only look) */
        cbv = tk_hex(2, &cbn); nseen = 0; ev_bytes("z", cbv, cbn); ev_call(); vt_str_apply(s, cb); ev_ret();
        ev_arr("seen"); for (size_t i = 0; i < nseen && i < 8192; i++) { ev_arr_sep(); hx_fmt("%u", seen[i].c); } ev_arr_end();
        ev_arr("idx"); for (size_t i = 0; i < nseen && i < 8192; i++) { ev_arr_sep(); hx_fmt("%ld", hx_clamp(seen[i].i)); } ev_arr_end();
    }
    else { fprintf(stderr, "unknown op %s\n", op); _exit(99); }
    if (q) ev_i("na", na);
    project(); ev_end();
}
