/* argopt.c - conformance harness for command line parsing (spec: ArgOpt.tla) */
#include "hx.h"
#include <math.h>
#include "vita/util/argopt.h"
#include "vita/allocator/mallocator.h"
static void area_begin(void) {} static void area_finish(void) {}
#define MAXO 400
static struct opt { const char *ty; enum VitaTypeInfo ti; char *lg, *sh, *ds; size_t ln, sn, dn; bool nl, ns, nv; void *st; size_t sz; } O[MAXO]; static size_t no;
static const struct { const char *n; enum VitaTypeInfo t; size_t sz; } TY[] = {{"i8", VT_TYPE_INT8, 1}, {"u8", VT_TYPE_UINT8, 1}, {"i16", VT_TYPE_INT16, 2}, {"u16", VT_TYPE_UINT16, 2}, {"i32", VT_TYPE_INT32, 4}, {"u32", VT_TYPE_UINT32, 4}, {"i64", VT_TYPE_INT64, 8}, {"u64", VT_TYPE_UINT64, 8},
    {"f", VT_TYPE_FLOAT, 4}, {"d", VT_TYPE_DOUBLE, 8}, {"r", VT_TYPE_REAL, 16}, {"bool", VT_TYPE_BOOL, 1}, {"char", VT_TYPE_CHAR, 1}, {"cstr", VT_TYPE_CSTR, 8}, {"str", VT_TYPE_STR, 8},
    {"vec", VT_TYPE_VEC, 8}, {"plist", VT_TYPE_PLIST, 8}, {"span", VT_TYPE_SPAN, 8}, {"unk", VT_TYPE_UNKNOWN, 8}, {"bad", VT_TYPE_COUNT, 8}, {"bad2", (enum VitaTypeInfo)(VT_TYPE_COUNT + 5), 8}};
static bool other(const char *t) { return !strcmp(t, "vec") || !strcmp(t, "plist") || !strcmp(t, "span") || !strcmp(t, "unk") || !strncmp(t, "bad", 3); }
static void flt(long double v, int p) { int ex; long double f = frexpl(fabsl(v), &ex); bool z = v == 0 || isinf(v) || isnan(v); ev_bigu("m", v < 0, z ? 0 : (unsigned __int128)ldexpl(f, p)); ev_i("e", z ? 0 : p - ex); }
static void values(const char *k) {
    ev_arr(k);
    for (size_t i = 0; i < no; i++) { struct opt *o = &O[i]; ev_arr_sep(); hx_raw("{", 1); hx_first = 1; const char *t = o->ty;
        if (o->nv) ev_hex("x", "", 0);
        else if (*t == 'i' && o->sz <= 8 && strchr("1368", t[1])) { ev_big("i", o->sz == 1 ? *(int8_t*)o->st : o->sz == 2 ? *(int16_t*)o->st : o->sz == 4 ? *(int32_t*)o->st : *(int64_t*)o->st); }
        else if (*t == 'u' && t[1] != 'n') { ev_big("i", o->sz == 1 ? *(uint8_t*)o->st : o->sz == 2 ? *(uint16_t*)o->st : o->sz == 4 ? *(uint32_t*)o->st : (__int128)*(uint64_t*)o->st); }
        else if (!strcmp(t, "f")) flt(*(float*)o->st, 24); else if (!strcmp(t, "d")) flt(*(double*)o->st, 53); else if (!strcmp(t, "r")) flt(*(long double*)o->st, 64);
        else if (!strcmp(t, "bool")) ev_b("b", *(unsigned char*)o->st != 0); else if (!strcmp(t, "char")) ev_i("c", *(unsigned char*)o->st);
        else if (!strcmp(t, "cstr")) { char *z = *(char**)o->st; ev_b("null", !z); ev_bytes("t", z ? z : "", z ? strlen(z) : 0); }
        else if (!strcmp(t, "str")) { vt_str_t *s = *(vt_str_t**)o->st; ev_b("null", !s); ev_bytes("t", s ? vt_str_z(s) : "", s ? vt_str_len(s) : 0); if (s && strlen(vt_str_z(s)) != vt_str_len(s)) ev_b("broken", true); }
        else ev_hex("x", o->st, o->sz);
        hx_raw("}", 1); hx_first = 0; }
    ev_arr_end();
}
static void table(bool desc) {
    ev_arr("tab");
    for (size_t i = 0; i < no; i++) { struct opt *o = &O[i]; ev_arr_sep(); hx_raw("{", 1); hx_first = 1; ev_t("ty", other(o->ty) ? "other" : o->ty); ev_b("ok", !o->nl && !o->ns && !o->nv && strncmp(o->ty, "bad", 3)); ev_bytes("long", o->nl ? "" : o->lg, o->nl ? 0 : o->ln); ev_bytes("short", o->ns ? "" : o->sh, o->ns ? 0 : o->sn); if (desc) ev_bytes("desc", o->ds, o->dn); hx_raw("}", 1); hx_first = 0; }
    ev_arr_end();
}
static const char *args[4096]; static size_t na;
static vt_mallocator_t *al;
static void area_op(void) {
    const char *op = tk_s(0); size_t n;
    /* table entry: o <ty> <long> <short> <init> [desc];  init: number bytes in hex, or text for strings ("null" = NULL), "nv" = no value; "NUL" = NULL name */
    if (!strcmp(op, "new")) { no = na = 0; al = NULL; if (tk_i(1)) al = vt_mallocator_create(); return; }
    if (!strcmp(op, "o")) { if (no >= MAXO) _exit(99); struct opt *o = &O[no++]; memset(o, 0, sizeof *o);
        for (size_t i = 0; i < sizeof TY / sizeof *TY; i++) if (!strcmp(TY[i].n, tk_s(1))) { o->ty = TY[i].n; o->ti = TY[i].t; o->sz = TY[i].sz; } if (!o->ty) _exit(99);
        o->nl = !strcmp(tk_s(2), "NUL"); o->ns = !strcmp(tk_s(3), "NUL"); o->nv = !strcmp(tk_s(4), "nv"); if (!o->nl) o->lg = tk_hex(2, &o->ln); if (!o->ns) o->sh = tk_hex(3, &o->sn); o->ds = tk_hex(5, &o->dn);
        if (o->nv) return; o->st = __real_malloc(o->sz); memset(o->st, 0, o->sz);
        if (!strcmp(o->ty, "cstr")) { if (strcmp(tk_s(4), "null")) { char *t = tk_hex(4, &n); long fa = hx_fail_at, na0 = hx_nalloc; if (!al) hx_fail_at = -1; /* the caller's own block never fails */ char *z = al ? VT_ALLOCATOR_ALLOC(al, n + 1) : malloc(n + 1); if (!al) { hx_fail_at = fa; hx_nalloc = na0; } memcpy(z, t, n + 1); *(char**)o->st = z; } }
        else if (!strcmp(o->ty, "str")) { if (strcmp(tk_s(4), "null")) { char *t = tk_hex(4, &n); vt_str_t *s = vt_str_create_capacity(n + 1, al); if (n) vt_str_append(s, t); *(vt_str_t**)o->st = s; } }
        else if (!strcmp(o->ty, "f")) { float f = (float)strtod(tk_s(4), NULL); memcpy(o->st, &f, 4); } else if (!strcmp(o->ty, "d")) { double f = strtod(tk_s(4), NULL); memcpy(o->st, &f, 8); } else if (!strcmp(o->ty, "r")) { long double f = strtold(tk_s(4), NULL); memcpy(o->st, &f, sizeof f); }
        else if (!strcmp(o->ty, "bool")) *(bool*)o->st = tk_i(4) != 0;
        else { char *t = tk_hex(4, &n); memcpy(o->st, t, n < o->sz ? n : o->sz); }
        return; }
    if (!strcmp(op, "a")) { for (int i = 1; i < hx_ntok && na < 4096; i++) args[na++] = tk_hex(i, NULL); return; }
    if (!strcmp(op, "bad")) { int w = (int)tk_i(1); int v = 0; vt_argopt_t t[] = {{"--a", "-a", "d", VT_ARGOPT(v), VT_TYPE_INT32}}; const char *av[] = {"p", NULL}; ev_begin(op); ev_i("w", w); ev_call();
        switch (w) { case 0: vt_argopt_parse(1, av, 1, NULL, NULL); break; case 1: vt_argopt_parse(1, av, 0, t, NULL); break; case 2: vt_argopt_parse(1, NULL, 1, t, NULL); break; case 3: vt_argopt_parse(0, av, 1, t, NULL); break; case 4: vt_argopt_print_help("a", "b", 1, NULL); break; case 5: vt_argopt_print_help("a", "b", 0, t); break; default: _exit(99); }
        ev_ret(); ev_end(); return; }
    vt_argopt_t *T = __real_malloc((no ? no : 1) * sizeof *T); for (size_t i = 0; i < no; i++) { vt_argopt_t t = {O[i].nl ? NULL : O[i].lg, O[i].ns ? NULL : O[i].sh, O[i].ds, O[i].nv ? NULL : (void**)O[i].st, O[i].ti}; memcpy(&T[i], &t, sizeof t); }
    if (!strcmp(op, "help")) { char *h = strcmp(tk_s(1), "-") ? tk_hex(1, NULL) : NULL, *f = strcmp(tk_s(2), "-") ? tk_hex(2, NULL) : NULL; ev_begin(op); table(true);
        hx_key("head"); hx_first = 1; hx_raw("{", 1); ev_b("null", !h); ev_bytes("t", h ? h : "", h ? strlen(h) : 0); hx_raw("}", 1); hx_key("foot"); hx_first = 1; hx_raw("{", 1); ev_b("null", !f); ev_bytes("t", f ? f : "", f ? strlen(f) : 0); hx_raw("}", 1);
        fflush(stdout); off_t p0 = hx_msgfd >= 0 ? lseek(hx_msgfd, 0, SEEK_END) : 0; ev_call(); vt_argopt_print_help(h, f, no, T); ev_ret(); fflush(stdout); off_t p1 = hx_msgfd >= 0 ? lseek(hx_msgfd, 0, SEEK_END) : 0;
        static char b[1 << 20]; ssize_t k = hx_msgfd >= 0 ? pread(hx_msgfd, b, (size_t)(p1 - p0) < sizeof b ? (size_t)(p1 - p0) : sizeof b, p0) : 0; ev_bytes("said", b, k > 0 ? (size_t)k : 0); ev_end(); return; }
    if (!strcmp(op, "parse")) { const char **av = __real_malloc((na + 1) * sizeof *av); av[0] = "prog"; for (size_t i = 0; i < na; i++) av[i + 1] = args[i];
        ev_begin(op); ev_b("al", al != NULL); table(false); ev_arr("args"); for (size_t i = 0; i < na; i++) { ev_arr_sep(); hx_raw("[", 1); for (size_t k = 0; args[i][k]; k++) hx_fmt(k ? ",%u" : "%u", (unsigned char)args[i][k]); hx_raw("]", 1); } ev_arr_end(); values("before");
        long held = 0; for (size_t i = 0; i < no; i++) if (!O[i].nv && (!strcmp(O[i].ty, "cstr") || !strcmp(O[i].ty, "str")) && *(void**)O[i].st) held += O[i].ty[0] == 'c' ? 1 : 2;
        long b0 = (long)hx_nblk - held; long a0 = al ? (long)(al->stats.count_allocs - al->stats.count_frees) - held : 0;
        ev_call(); int r = vt_argopt_parse(na + 1, av, no, T, al); ev_ret(); ev_i("ret", r); values("after");
        for (size_t i = 0; i < no; i++) { if (O[i].nv) continue; if (!strcmp(O[i].ty, "cstr")) { char **z = O[i].st; if (*z) { if (al) VT_ALLOCATOR_FREE(al, *z); else free(*z); *z = NULL; } } if (!strcmp(O[i].ty, "str")) { vt_str_t **s = O[i].st; if (*s) vt_str_destroy(*s); *s = NULL; } }
        ev_i("leak", al ? (long)(al->stats.count_allocs - al->stats.count_frees) - a0 : (long)hx_nblk - b0); ev_end(); if (al) vt_mallocator_destroy(al); al = NULL; return; }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
