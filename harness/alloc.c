/* alloc.c - conformance harness for the tracking allocator, direct and through containers (spec: Alloc.tla) */
#include "hx.h"
#include "vita/container/vec.h"
#include "vita/container/plist.h"
#include "vita/container/str.h"
#include "vita/allocator/mallocator.h"
#include "vita/system/path.h"
#include "vita/system/fileio.h"
#include "vita/util/argopt.h"

static vt_mallocator_t *al; static size_t base;
static void *(*o_alloc)(struct VitaBaseAllocatorType *const, const size_t, const char *const, const char *const, const size_t);
static void *(*o_realloc)(struct VitaBaseAllocatorType *const, void*, const size_t, const char *const, const char *const, const size_t);
static void (*o_free)(struct VitaBaseAllocatorType *const, void*, const char *const, const char *const, const size_t);

#define MAXB 4096
static struct { void *p; size_t n; int id; int direct; } bl[MAXB]; static int nb, nextid;
static struct { char k; int id; size_t n, z, keep; bool gone; } cl[20000]; static int nc;
static int find(void *p) { for (int i = 0; i < nb; i++) if (bl[i].p == p) return i; return -1; }
static int find_id(int id) { for (int i = 0; i < nb; i++) if (bl[i].id == id) return i; return -1; }
static unsigned char pat(int id, size_t j) { return (unsigned char)(id * 37 + (int)j * 11 + (int)(j >> 7) + 1); }
static void fill(int i) { for (size_t j = 0; j < bl[i].n; j++) ((unsigned char*)bl[i].p)[j] = pat(bl[i].id, j); }
static bool in_ledger(void *p) { size_t h = hx_hash(p); while (hx_blk[h].p && hx_blk[h].p != p) h = (h + 1) & (HX_LEDGER - 1); return hx_blk[h].p != NULL; }

static void note_alloc(void *p, size_t n) {
    size_t z = 0; while (z < n && !((unsigned char*)p)[z]) z++;
    if (nc < 20000) { cl[nc].k = 'a'; cl[nc].id = ++nextid; cl[nc].n = n; cl[nc].z = z; nc++; }
    if (nb < MAXB) { bl[nb].p = p; bl[nb].n = n; bl[nb].id = nextid; bl[nb].direct = 0; nb++; }
}
static void *my_alloc(struct VitaBaseAllocatorType *const a, const size_t n, const char *const f, const char *const fn, const size_t ln) {
    void *p = o_alloc(a, n, f, fn, ln); note_alloc(p, n); return p;
}
static void *my_realloc(struct VitaBaseAllocatorType *const a, void *q, const size_t n, const char *const f, const char *const fn, const size_t ln) {
    int i = find(q); size_t old = i >= 0 ? bl[i].n : 0; unsigned char *cp = __real_malloc(old + 1); if (old) memcpy(cp, q, old);
    void *p = o_realloc(a, q, n, f, fn, ln);
    size_t m = old < n ? old : n, k = 0; while (k < m && ((unsigned char*)p)[k] == cp[k]) k++;
    if (nc < 20000) { cl[nc].k = 'r'; cl[nc].id = i >= 0 ? bl[i].id : 0; cl[nc].n = n; cl[nc].keep = k; nc++; }
    if (i >= 0) { bl[i].p = p; bl[i].n = n; }
    __real_free(cp); return p;
}
static void my_free(struct VitaBaseAllocatorType *const a, void *q, const char *const f, const char *const fn, const size_t ln) {
    int i = find(q); int id = i >= 0 ? bl[i].id : 0;
    o_free(a, q, f, fn, ln);
    if (nc < 20000) { cl[nc].k = 'f'; cl[nc].id = id; cl[nc].gone = !in_ledger(q); nc++; }
    if (i >= 0) bl[i] = bl[--nb];
}
static void calls(void) {
    ev_arr("c");
    for (int i = 0; i < nc; i++) {
        ev_arr_sep(); hx_fmt("{\"k\":\"%c\",\"id\":%d", cl[i].k, cl[i].id);
        if (cl[i].k == 'a') hx_fmt(",\"n\":%ld,\"z\":%ld}", hx_clamp(cl[i].n), hx_clamp(cl[i].z));
        else if (cl[i].k == 'r') hx_fmt(",\"n\":%ld,\"keep\":%ld}", hx_clamp(cl[i].n), hx_clamp(cl[i].keep));
        else hx_fmt(",\"gone\":%s}", cl[i].gone ? "true" : "false");
    }
    ev_arr_end();
}
static size_t plain; /* blocks held by the harness' own library objects without an allocator */
static void project(void) {
    calls();
    ev_arr("st"); size_t v[5] = {al->stats.count_allocs, al->stats.count_reallocs, al->stats.count_frees, al->stats.count_bytes_allocated, al->stats.count_bytes_freed};
    for (int i = 0; i < 5; i++) { ev_arr_sep(); hx_fmt("%ld", hx_clamp(v[i])); } ev_arr_end();
    ev_u("raw", hx_nblk - base);
    bool intact = true, dis = true;
    for (int i = 0; i < nb; i++) {
        if (!in_ledger(bl[i].p)) { intact = false; continue; }
        if (bl[i].direct) for (size_t j = 0; j < bl[i].n; j++) if (((unsigned char*)bl[i].p)[j] != pat(bl[i].id, j)) { intact = false; break; }
        if (nb < 200) for (int k = 0; k < i; k++) if ((char*)bl[i].p < (char*)bl[k].p + bl[k].n && (char*)bl[k].p < (char*)bl[i].p + bl[i].n) dis = false;
    }
    ev_b("intact", intact); ev_b("disjoint", dis);
}
static void hook(void) { base = hx_nblk; o_alloc = al->alloc; o_realloc = al->realloc; o_free = al->free; al->alloc = my_alloc; al->realloc = my_realloc; al->free = my_free; nb = nc = nextid = 0; }
static struct { char kind; void *p; bool strs; } ob[8];
static void area_begin(void) { memset(ob, 0, sizeof ob); al = vt_mallocator_create(); hook(); }
static void area_finish(void) {}

static void cb_v(void *p, size_t i) { (void)p; (void)i; }

static void area_op(void) {
    const char *op = tk_s(0); nc = 0;
    if (!strcmp(op, "alloc")) {
        size_t n = tk_u(1); int direct = (int)tk_i(2); ev_begin(op); ev_u("n", n); ev_call();
        void *p; if (direct) { p = vt_mallocator_alloc(al, n, "f", "g", 1); note_alloc(p, n); } else p = VT_ALLOCATOR_ALLOC(al, n);
        ev_ret(); bl[nb - 1].direct = 1; fill(nb - 1); project(); ev_end(); return;
    }
    if (!strcmp(op, "realloc")) {
        int i = find_id((int)tk_i(1)); size_t n = tk_u(2); if (i < 0) return; int id = bl[i].id;
        ev_begin(op); ev_i("id", id); ev_u("n", n); ev_call(); VT_ALLOCATOR_REALLOC(al, bl[i].p, n); ev_ret(); fill(i); project(); ev_end(); return;
    }
    if (!strcmp(op, "free")) {
        int i = find_id((int)tk_i(1)); if (i < 0) return; int id = bl[i].id;
        ev_begin(op); ev_i("id", id); ev_call(); VT_ALLOCATOR_FREE(al, bl[i].p); ev_ret(); project(); ev_end(); return;
    }
    if (!strcmp(op, "bulk")) { /* bulk a n | bulk f n order : many calls recorded as one event */
        const char *w = tk_s(1); int n = (int)tk_i(2); const char *ord = tk_s(3); ev_begin(op); ev_call();
        for (int k = 0; k < n; k++) {
            if (*w == 'a') { if (nb >= MAXB) break; VT_ALLOCATOR_ALLOC(al, (size_t)(1 + (nextid * 7) % 40)); bl[nb - 1].direct = 1; fill(nb - 1); }
            else { if (!nb) break; int i = *ord == 'b' ? nb - 1 : *ord == 'f' ? 0 : (k * 7919) % nb; VT_ALLOCATOR_FREE(al, bl[i].p); }
        }
        ev_ret(); project(); ev_end(); return;
    }
    if (!strcmp(op, "huge")) { /* one block of more than 32 bits, there and back */
        unsigned __int128 v[3][2]; size_t a = tk_u(1), b = tk_u(2); ev_begin(op); ev_bigu("a", 0, a); ev_bigu("b", 0, b); ev_bigu("cur", 0, al->stats.count_bytes_allocated); ev_bigu("freed", 0, al->stats.count_bytes_freed);
        ev_call(); void *p = vt_mallocator_alloc(al, a, "f", "g", 1);
#define ST(i) v[i][0] = al->stats.count_bytes_allocated, v[i][1] = al->stats.count_bytes_freed
        ST(0); p = vt_mallocator_realloc(al, p, b, "f", "g", 1); ST(1); vt_mallocator_free(al, p, "f", "g", 1); ST(2); ev_ret();
        ev_bigu("cur1", 0, v[0][0]); ev_bigu("freed1", 0, v[0][1]); ev_bigu("cur2", 0, v[1][0]); ev_bigu("freed2", 0, v[1][1]); ev_bigu("cur3", 0, v[2][0]); ev_bigu("freed3", 0, v[2][1]);
        ev_u("raw", hx_nblk - base); ev_end(); return;
    }
    if (!strcmp(op, "badcall")) {
        ev_begin(op); int w = (int)tk_i(1); ev_i("w", w); ev_call();
        switch (w) {
            case 0: vt_mallocator_alloc(NULL, 1, "f", "g", 1); break; case 1: vt_mallocator_alloc(al, 0, "f", "g", 1); break;
            case 2: vt_mallocator_realloc(NULL, "x", 1, "f", "g", 1); break; case 3: vt_mallocator_realloc(al, NULL, 1, "f", "g", 1); break;
            case 4: vt_mallocator_free(NULL, "x", "f", "g", 1); break; case 5: vt_mallocator_free(al, NULL, "f", "g", 1); break;
            case 6: vt_mallocator_destroy(NULL); break;
            case 7: { void *p = VT_ALLOCATOR_ALLOC(al, 4); vt_mallocator_realloc(al, p, 0, "f", "g", 1); break; }
            case 8: vt_malloc(0, "f", "g", 1); break; case 9: vt_calloc(0, "f", "g", 1); break; case 10: { void *p = vt_malloc(3, "f", "g", 1); vt_realloc(p, 0, "f", "g", 1); break; }
        }
        ev_ret(); project(); ev_end(); return;
    }
    if (!strcmp(op, "print")) {
        int s1 = dup(1), t = memfd_create("o", 0); fflush(stdout); dup2(t, 1);
        ev_begin(op); ev_call(); vt_mallocator_print_stats(al->stats); ev_ret();
        fflush(stdout); dup2(s1, 1); close(s1); char b[4096]; ssize_t n = pread(t, b, sizeof b - 1, 0); b[n > 0 ? n : 0] = 0; close(t);
        ev_arr("txt"); for (char *q = b; *q; ) { if (*q >= '0' && *q <= '9') { unsigned long long v = strtoull(q, &q, 10); ev_arr_sep(); hx_fmt("%ld", hx_clamp(v)); } else q++; } ev_arr_end();
        project(); ev_end(); return;
    }
    if (!strcmp(op, "destroy")) { ev_begin(op); ev_call(); vt_mallocator_destroy(al); ev_ret(); al = NULL; ev_u("blocks", hx_nblk); ev_end(); nb = 0; return; }
    if (!strcmp(op, "new")) { ev_begin(op); ev_call(); al = vt_mallocator_create(); ev_ret(); memset(ob, 0, sizeof ob); hook(); project(); ev_end(); return; }

    const int o = (int)tk_i(1) & 7; void *p = ob[o].p; const char k = ob[o].kind;
    if (!strcmp(op, "cnew")) { /* cnew o kind n esz */
        if (p) return; char kd = tk_s(2)[0]; size_t n = tk_u(3), esz = tk_u(4); ob[o].kind = kd; ob[o].strs = false;
        ev_begin(op); ev_i("o", o); ev_call();
        p = kd == 'v' ? (void*)vt_vec_create(n, esz, al) : kd == 'p' ? (void*)vt_plist_create(n, al) : kd == 's' ? (void*)vt_str_create_len(n, al) : kd == 'c' ? (void*)vt_str_create_capacity(n, al) : (void*)vt_str_create("some text, more text", al);
        ev_ret(); ob[o].p = p; if (kd == 'c' || kd == 't') ob[o].kind = 's'; project(); ev_end(); return;
    }
    if (!strcmp(op, "clib")) { /* clib o which : a string made by another part of the library with this allocator */
        if (p) return; int w = (int)tk_i(2); char fn[64]; int fd = -1; if (w >= 3 && w <= 6) { fd = memfd_create("f", 0); if (w < 5 && write(fd, "0123456789 some text\n", 21) != 21) _exit(98); snprintf(fn, sizeof fn, "/proc/self/fd/%d", fd); }
        vt_vec_t *sv = NULL; vt_plist_t *sp = NULL; int x = 5; if (w == 8) { sv = vt_vec_create(2, sizeof x, NULL); vt_vec_push_back(sv, &x); } if (w == 9) { sp = vt_plist_create(2, NULL); vt_plist_push_back(sp, &x); }
        setenv("HOME", "/home/someone", 1); ev_begin(op); ev_i("o", o); ev_call();
        switch (w) { case 0: p = vt_path_expand_tilda("~/a/b", al); break; case 1: p = vt_path_get_cwd(al); break; case 2: p = vt_path_get_this_exe_location(al); break;
            case 3: case 5: p = vt_file_read(fn, al); break; case 4: case 6: p = vt_file_readb(fn, al); break; case 8: p = vt_vec_dup(sv, al); break; case 9: p = vt_plist_dup(sp, al); break;
            case 10: p = vt_path_expand_tilda("plain/a~", al); break;
            case 15: p = vt_plist_create(2, al); vt_path_dir_list(p, "/proc/self/task", false); break; case 16: p = vt_plist_create(2, al); vt_path_dir_list_recurse(p, "/proc/self/ns", false); break;
            case 11: case 12: case 13: case 14: { /* values parsed with this allocator: a string, a plain text taken over, each once or twice */
                vt_str_t *sv_ = NULL; char *zv = NULL; char *av[] = { "prog", "--str=short", "--txt", "a text", "-s=a good deal longer than the first one", "--txt=another, longer text" };
                vt_argopt_t ov[] = { { .optionLong = "--str", .optionShort = "-s", .optionDesc = "", .optionValue = (void**)&sv_, .optionType = VT_TYPE_STR }, { .optionLong = "--txt", .optionShort = "-t", .optionDesc = "", .optionValue = (void**)&zv, .optionType = VT_TYPE_CSTR } };
                char *one[] = { "prog", w & 1 ? av[1] : "--txt=abc", w & 1 ? av[4] : "-t=abcdefghijklmnopqrstuvwxyz" };
                if (vt_argopt_parse(w < 13 ? 2 : 3, one, 2, ov, al) != VT_ARGOPT_PARSE_SUCCESS) _exit(98);
                p = w & 1 ? sv_ : vt_str_take_ownership(zv, al); break; }
            default: { char *t = VT_ALLOCATOR_ALLOC(al, 12); memcpy(t, "owned text", 11); p = vt_str_take_ownership(t, al); break; } }
        ev_ret(); if (fd >= 0) close(fd); if (sv) vt_vec_destroy(sv); if (sp) vt_plist_destroy(sp); ob[o].p = p; ob[o].kind = w == 8 ? 'v' : w == 9 || w > 14 ? 'p' : 's'; ob[o].strs = w > 14; project(); ev_end(); return;
    }
    if (!p) return;
    if (!strcmp(op, "coff")) { /* a duplicate made without an allocator leaves this one alone */
        size_t ln = k == 'v' ? vt_vec_len(p) : k == 'p' ? vt_plist_len(p) : 0; if (!ln || ob[o].strs) return;
        ev_begin(op); ev_i("o", o); ev_call();
        if (k == 'v') { static char val[4096]; vt_vec_t *q = vt_vec_dup(p, NULL); for (int i = 0; i < 9; i++) vt_vec_push_back(q, val); vt_vec_shrink(q); vt_vec_destroy(q); }
        else { vt_plist_t *q = vt_plist_dup(p, NULL); for (int i = 0; i < 9; i++) vt_plist_push_back(q, q); vt_plist_shrink(q); vt_plist_destroy(q); }
        ev_ret(); project(); ev_end(); return;
    }
    if (!strcmp(op, "cdup")) {
        int d = (int)tk_i(2) & 7; if (ob[d].p || d == o || d == 0) return;
        size_t ln = k == 'v' ? vt_vec_len(p) : k == 'p' ? vt_plist_len(p) : vt_str_len(p); if (!ln || ob[o].strs) return;
        ev_begin("cnew"); ev_i("o", d); ev_call();
        void *q = k == 'v' ? (void*)vt_vec_dup(p, al) : k == 'p' ? (void*)vt_plist_dup(p, al) : (void*)vt_str_dup(p);
        ev_ret(); ob[d].p = q; ob[d].kind = k; ob[d].strs = false; project(); ev_end(); return;
    }
    if (!strcmp(op, "cdel")) {
        ev_begin(op); ev_i("o", o); ev_call();
        if (k == 'v') vt_vec_destroy(p);
        else if (k == 'p') { if (ob[o].strs) for (size_t i = 0, n = vt_plist_len(p); i < n; i++) vt_str_destroy(vt_plist_get(p, i)); vt_plist_destroy(p); }
        else vt_str_destroy(p);
        ev_ret(); ob[o].p = NULL; project(); ev_end(); return;
    }
    if (!strcmp(op, "cop")) { /* cop o which arg */
        int w = (int)tk_i(2); size_t n = tk_u(3); char val[4096]; memset(val, 7, sizeof val); char z[600]; memset(z, 'a' + (int)(n % 20), sizeof z); z[n % 500 + 1] = 0;
        if (k == 'p' && ob[o].strs) return;
        int d = (int)tk_i(4) & 7; if (d == o) d = (d + 1) & 7;
        /* skip calls outside the contract */
        size_t ln = k == 'v' ? vt_vec_len(p) : k == 'p' ? vt_plist_len(p) : vt_str_len(p);
        ev_begin("cop"); ev_i("o", o); ev_i("w", w);
        if (k == 'v') { ev_call(); switch (w % 12) {
            case 0: case 1: for (size_t i = 0; i < n % 20 + 1; i++) vt_vec_push_back(p, val); break; case 2: vt_vec_push_front(p, val); break;
            case 3: if (ln) vt_vec_insert(p, val, n % ln); break; case 4: vt_vec_pop_get(p); break; case 5: vt_vec_reserve(p, n % 50 + 1); break;
            case 6: vt_vec_resize(p, n % 50 + 1); break; case 7: if (ln) vt_vec_shrink(p); break; case 8: if (ln) vt_vec_remove(p, n % ln, VT_REMOVE_STRATEGY_FAST); break;
            case 9: if (ln) vt_vec_remove(p, n % ln, VT_REMOVE_STRATEGY_STABLE); break; case 10: vt_vec_clear(p); break; case 11: vt_vec_apply(p, cb_v); break;
        } } else if (k == 'p') {
            vt_str_t *src = w % 12 == 11 ? vt_str_create("alpha,beta,gamma,delta,,epsilon,", NULL) : NULL; ev_call();
            switch (w % 12) {
            case 0: case 1: for (size_t i = 0; i < n % 20 + 1; i++) vt_plist_push_back(p, z); break; case 2: vt_plist_push_front(p, z); break;
            case 3: if (ln) vt_plist_insert(p, z, n % ln); break; case 4: vt_plist_pop_get(p); break; case 5: vt_plist_reserve(p, n % 50 + 1); break;
            case 6: vt_plist_resize(p, n % 50 + 1); break; case 7: if (ln) vt_plist_shrink(p); break; case 8: if (ln) vt_plist_remove(p, n % ln, VT_REMOVE_STRATEGY_FAST); break;
            case 9: if (ln) vt_plist_remove(p, n % ln, VT_REMOVE_STRATEGY_STABLE); break; case 10: vt_plist_clear(p); break;
            case 11: vt_plist_clear(p); vt_str_split(p, src, ","); break; }
            if (w % 12 == 11) ob[o].strs = true;
            ev_ret(); if (src) vt_str_destroy(src); project(); ev_end(); return;
        } else { ev_call(); switch (w % 16) {
            case 0: vt_str_append(p, z); break; case 1: vt_str_appendf(p, "%s-%zu", z, n); break; case 2: if (ln) vt_str_insert(p, z, n % ln); break; case 3: if (ln) vt_str_insertf(p, n % ln, "%s", z); break;
            case 4: vt_str_reserve(p, n % 300 + 1); break; case 5: vt_str_resize(p, n % 300 + 1); break; case 6: if (ln) vt_str_shrink(p); break; case 7: if (ln) vt_str_remove(p, n % ln, n % 7 + 1); break;
            case 8: if (ln >= 1) vt_str_replace(p, "a", "bcd"); break; case 9: vt_str_clear(p); break; case 10: if (ln > 3) vt_str_remove_all(p, "cd"); break; case 11: vt_str_append_n(p, z, 1); break;
            case 12: vt_str_strip(p); break; case 13: vt_str_insert_n(p, z, ln, 1); break; case 14: vt_str_join_n(p, ",", 2, z, z); break; case 15: if (ln >= 2) vt_str_replace_first(p, "bc", z); break;
        } }
        ev_ret(); project(); ev_end(); return;
    }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
