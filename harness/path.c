/* path.c - conformance harness for path text functions (spec: Path.tla) */
#include "hx.h"
#include "vita/system/path.h"
#include "vita/allocator/mallocator.h"
static char *cur; static size_t cap; static vt_str_t *res; static vt_mallocator_t *al;
static void setcur(const char *t, size_t n) { char *b = __real_malloc(n + 1); memcpy(b, t, n); b[n] = 0; cur = b; cap = n; }
static void area_begin(void) { setcur("", 0); res = NULL; al = NULL; }
static void area_finish(void) {}
static void emit(const vt_str_t *r) { /* what a caller can see */
    ev_bytes("cur", cur, strlen(cur)); bool same = true;
    if (res) { ev_bytes("res", vt_str_z(res), strlen(vt_str_z(res))); same = strlen(vt_str_z(res)) == vt_str_len(res) && vt_str_capacity(res) >= vt_str_len(res); } else ev_bytes("res", "", 0);
    if (r && r != res) { ev_bytes("txt", vt_str_z(r), strlen(vt_str_z(r))); same = same && strlen(vt_str_z(r)) == vt_str_len(r); }
    ev_b("same", same);
}
static void done(vt_str_t *r) { ev_ret(); ev_t("ret", !r ? "null" : r == res ? "given" : "new"); emit(r); ev_end(); if (r && r != res) vt_str_destroy(r); }
static vt_str_t *mkres(void) { if (!res) { res = vt_str_create_capacity(4, NULL); } return res; }
static struct VitaBaseAllocatorType *ua(int i) { if (!tk_i(i)) return NULL; if (!al) al = vt_mallocator_create(); return al; }
static void area_op(void) {
    const char *op = tk_s(0);
    if (!strcmp(op, "set")) { size_t n; char *t = tk_hex(1, &n); setcur(t, n); ev_begin(op); ev_bytes("t", t, n); ev_call(); ev_ret(); emit(NULL); ev_end(); return; }
    if (!strcmp(op, "setres")) { size_t n; char *t = tk_hex(1, &n); struct VitaBaseAllocatorType *a = ua(2); ev_begin(op); ev_bytes("t", t, n); ev_call(); if (res) vt_str_destroy(res); res = n ? vt_str_create(t, a) : vt_str_create_capacity(1, a); ev_ret(); emit(NULL); ev_end(); return; }
    if (!strcmp(op, "pop")) { ev_begin(op); ev_call(); vt_path_pop(cur); ev_ret(); emit(NULL); ev_end(); return; }
    if (!strcmp(op, "validate")) { ev_begin(op); ev_call(); vt_path_validate(cur); ev_ret(); emit(NULL); ev_end(); return; }
    if (!strcmp(op, "base")) { bool g = tk_i(1); if (g) mkres(); ev_begin(op); ev_b("given", g); ev_call(); done(vt_path_basename(g ? res : NULL, cur)); return; }
    if (!strcmp(op, "build")) { /* build given how parts... */
        bool g = tk_i(1), lst = !strcmp(tk_s(2), "list"); if (g) mkres(); int n = hx_ntok - 3; char *p[40] = {0}; if (n > 40) n = 40;
        ev_begin(op); ev_b("given", g); ev_t("how", tk_s(2)); ev_arr("parts"); for (int i = 0; i < n; i++) { size_t k; p[i] = tk_hex(3 + i, &k); ev_arr_sep(); hx_raw("[", 1); for (size_t j = 0; j < k; j++) hx_fmt(j ? ",%u" : "%u", (unsigned char)p[i][j]); hx_raw("]", 1); } ev_arr_end();
        ev_call(); vt_str_t *r; vt_plist_t *pl = NULL;
        if (lst) { pl = vt_plist_create(n ? n : 1, NULL); for (int i = 0; i < n; i++) vt_plist_push_back(pl, p[i]); r = vt_path_build(g ? res : NULL, pl); }
        else r = vt_path_build_n(g ? res : NULL, n, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19], p[20], p[21], p[22], p[23], p[24], p[25], p[26], p[27], p[28], p[29], p[30], p[31], p[32], p[33], p[34], p[35], p[36], p[37], p[38], p[39]);
        ev_ret(); ev_t("ret", !r ? "null" : r == res ? "given" : "new"); emit(r); ev_end(); if (r && r != res) vt_str_destroy(r); if (pl) vt_plist_destroy(pl); return;
    }
    if (!strcmp(op, "expand")) { bool set = tk_i(1); char *h = tk_hex(2, NULL); struct VitaBaseAllocatorType *a = ua(3); if (set) setenv("HOME", h, 1); else unsetenv("HOME");
        ev_begin(op); ev_b("set", set); ev_bytes("home", h, strlen(h)); ev_call(); done(vt_path_expand_tilda(cur, a)); return; }
    if (!strcmp(op, "cwd")) { struct VitaBaseAllocatorType *a = ua(1); char w[4096] = ""; if (tk_i(2) && (mkdir("sub", 0755) || 1) && chdir("sub")) _exit(98); if (!getcwd(w, sizeof w)) _exit(98); ev_begin("where"); ev_bytes("want", w, strlen(w)); ev_call(); done(vt_path_get_cwd(a)); return; }
    if (!strcmp(op, "nocwd")) { char d[64]; snprintf(d, sizeof d, "gone%d", (int)getpid()); if (mkdir(d, 0755) || chdir(d)) _exit(98); char up[80]; snprintf(up, sizeof up, "../%s", d); if (rmdir(up)) _exit(98); ev_begin("nowhere"); ev_call(); done(vt_path_get_cwd(NULL)); return; }
    if (!strcmp(op, "exe")) { struct VitaBaseAllocatorType *a = ua(1); char w[4096]; ssize_t n = readlink("/proc/self/exe", w, sizeof w); if (n < 0) _exit(98); ev_begin("where"); ev_bytes("want", w, (size_t)n); ev_call(); done(vt_path_get_this_exe_location(a)); return; }
    if (!strcmp(op, "badcall")) { int w = (int)tk_i(1); ev_begin(op); ev_i("w", w); ev_call();
        switch (w) { case 0: vt_path_pop(NULL); break; case 1: vt_path_validate(NULL); break; case 2: vt_path_basename(NULL, NULL); break; case 3: vt_path_expand_tilda(NULL, NULL); break; case 4: vt_path_build(NULL, NULL); break;
            case 5: vt_path_exists(NULL); break; case 6: vt_path_is_dir(NULL); break; case 7: vt_path_is_file(NULL); break; case 8: vt_path_get_file_size(NULL); break; case 9: vt_path_dir_list(NULL, NULL, false); break;
            case 10: vt_path_dir_list_recurse(NULL, NULL, false); break; case 11: vt_path_dir_free(NULL); break; case 12: vt_path_mkdir(NULL); break; case 13: vt_path_mkdir_parents(NULL); break; case 14: vt_path_rmdir(NULL); break;
            case 15: vt_path_rmdir_recurse(NULL); break; case 16: vt_path_remove(NULL); break; case 17: vt_path_rename(NULL, "zz"); break; case 18: vt_path_rename("zz", NULL); break; case 19: vt_path_build_n(NULL, 0); break; }
        ev_ret(); ev_end(); return; }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
