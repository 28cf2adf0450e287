/* fs.c - conformance harness for filesystem operations (spec: FsTree.tla).
 * Every script works in a scratch directory of its own, as an unprivileged
 * user; the calls that change the filesystem are wrapped and refused (and
 * recorded) when they name anything outside of that directory. */
#include "hx.h"
#include <sys/stat.h>
#include <dirent.h>
#include <grp.h>
#include "vita/system/path.h"
static char root[4096]; static size_t rootn; static bool absok; static bool esc, delivered; static char fcall[16]; static long fk, fcount; static bool in_lib; static int fd0;
int __real_mkdir(const char*, mode_t); int __real_rmdir(const char*); int __real_remove(const char*); int __real_unlink(const char*); int __real_rename(const char*, const char*); DIR *__real_opendir(const char*);
static const char *one(const char *p) { while (p[0] == '/' && p[1] == '/') p++; return p; }   /* //x is /x */
static bool inside(const char *p) {
    p = one(p);
    if (*p == '/') { if (strncmp(p, root, rootn) || (p[rootn] && p[rootn] != '/')) return false; p += rootn; }
    int d = 0; while (*p) { while (*p == '/') p++; size_t n = strcspn(p, "/"); if (n == 2 && p[0] == '.' && p[1] == '.') { if (--d < 0) return false; } else if (n && !(n == 1 && *p == '.')) d++; p += n; }
    return true;
}
static bool deny(const char *call, const char *a, const char *b, bool change) {
    if (!in_lib) return false;
    if (change && (!a || !inside(a) || (b && !inside(b)))) { esc = true; errno = EPERM; return true; }
    if (!strcmp(fcall, call) && fcount++ == fk) { delivered = true; errno = EACCES; return true; }
    return false;
}
int __wrap_mkdir(const char *p, mode_t m) { return deny("mkdir", p, NULL, true) ? -1 : __real_mkdir(p, m); }
int __wrap_rmdir(const char *p) { return deny("rmdir", p, NULL, true) ? -1 : __real_rmdir(p); }
int __wrap_remove(const char *p) { return deny("remove", p, NULL, true) ? -1 : __real_remove(p); }
int __wrap_unlink(const char *p) { return deny("remove", p, NULL, true) ? -1 : __real_unlink(p); }
int __wrap_rename(const char *p, const char *q) { return deny("rename", p, q, true) ? -1 : __real_rename(p, q); }
DIR *__wrap_opendir(const char *p) { return deny("opendir", p, NULL, false) ? NULL : __real_opendir(p); }
/* the *at and tree-walking forms are not used by the library; they stay inside through the unprivileged user */

static void area_begin(void) {
    char d[64]; snprintf(d, sizeof d, "t%ld-%d", hx_sid, (int)getpid());
    if (__real_mkdir(d, 0755) || chdir(d) || !getcwd(root, sizeof root)) _exit(98);
    rootn = strlen(root); umask(022);
    if (geteuid() == 0) { if (chown(".", 65534, 65534)) _exit(98); if (setgroups(0, NULL) || setgid(65534) || setuid(65534)) { /* the wrappers alone contain the calls */ } }
    struct stat st; absok = stat(root, &st) == 0; esc = delivered = in_lib = false; *fcall = 0; fd0 = dup(0); close(fd0);
}
static void area_finish(void) {}
static void comps(const char *t) { hx_raw("[", 1); for (bool first = true;; first = false) { size_t n = strcspn(t, "/"); if (!first) hx_raw(",", 1); hx_raw("\"", 1); for (size_t i = 0; i < n; i++) { char c = t[i]; if (c == '"' || c == '\\' || c < 32 || c > 126) c = '#'; hx_raw(&c, 1); } hx_raw("\"", 1); if (!t[n]) break; t += n + 1; } hx_raw("]", 1); }
/* what a file holds (its first bytes; 1 when it may not be read) */
static unsigned long content(const char *q) {
    int f = open(q, O_RDONLY); if (f < 0) return 1; unsigned char b[512]; ssize_t n = read(f, b, sizeof b); close(f);
    unsigned long h = 5381; for (ssize_t i = 0; i < n; i++) h = (h * 33 + b[i]) & 0xffffffffUL; return h;
}
static bool first_node; static int visited;
static void walk(const char *rel) {
    DIR *d = __real_opendir(*rel ? rel : "."); if (!d) return; struct dirent *e; if (++visited > 400) { closedir(d); return; }
    while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        char q[4096]; snprintf(q, sizeof q, "%s%s%s", rel, *rel ? "/" : "", e->d_name); struct stat st; if (lstat(q, &st)) continue;
        if (!first_node) hx_raw(",", 1); first_node = false; hx_raw("{\"p\":", 5); comps(q);
        hx_fmt(",\"k\":\"%s\",\"n\":\"%ld\",\"t\":", S_ISDIR(st.st_mode) ? "d" : S_ISLNK(st.st_mode) ? "l" : S_ISREG(st.st_mode) ? "f" : S_ISFIFO(st.st_mode) ? "p" : "?", S_ISREG(st.st_mode) ? (long)st.st_size : 0L);
        if (S_ISLNK(st.st_mode)) { char t[4096]; ssize_t n = readlink(q, t, sizeof t - 1); t[n < 0 ? 0 : n] = 0; comps(t); }
        else if (S_ISREG(st.st_mode)) hx_fmt("[\"%lx\"]", content(q)); else hx_raw("[]", 2);
        hx_raw("}", 1); if (S_ISDIR(st.st_mode)) walk(q); }
    closedir(d);
}
static long blk0;
static void tail(void) { hx_key("tree"); hx_raw("[", 1); first_node = true; visited = 0; walk(""); hx_raw("]", 1); ev_b("esc", esc); ev_i("leak", (long)hx_nblk - blk0); int f = dup(0); close(f); ev_b("fds", f != fd0); if (delivered) ev_t("flt", fcall); ev_end(); *fcall = 0; delivered = false; }
static void lib(void) { ev_call(); fcount = 0; in_lib = true; }
static void libend(void) { in_lib = false; ev_ret(); }
/* token -> path text in an exactly sized buffer; "@" prefix = absolute; "." alone means the empty path */
static char *zpath(int i) { const char *t = tk_s(i); char b[8192]; if (!strcmp(t, "EMPTY")) t = ""; if (*t == '@') { t++; int k = 0; while (*t == '@') t++, k++; if (absok) snprintf(b, sizeof b, "%.*s%s/%s", k, "////", root, t); else snprintf(b, sizeof b, "%s", t); } else snprintf(b, sizeof b, "%s", t); size_t n = strlen(b); char *r = __real_malloc(n + 1); memcpy(r, b, n + 1); return r; }
static const char *rel(const char *z) { z = one(z); return *z == '/' && !strncmp(z, root, rootn) && z[rootn] == '/' ? z + rootn + 1 : z; }
static void ev_path(const char *k, const char *z) { hx_key(k); comps(rel(z)); }
static void area_op(void) {
    const char *op = tk_s(0); blk0 = (long)hx_nblk;
    if (!strcmp(op, "sysfail")) { snprintf(fcall, sizeof fcall, "%s", tk_s(1)); fk = tk_i(2); return; }
    if (!strcmp(op, "mk")) { const char *k = tk_s(1), *p = tk_s(2); ev_begin(op); ev_call();
        if (*k == 'd') (void)!__real_mkdir(p, 0755); else if (*k == 'l') (void)!symlink(tk_s(3), p);
        else if (*k == 'p') (void)!mkfifo(p, 0644);
        else if (*k == 'm') { for (long i = 0; i < (long)tk_i(3); i++) { char b[4200]; snprintf(b, sizeof b, "%s/m%ld", p, i); if (i % 9 == 4) (void)!__real_mkdir(b, 0755); else { int f = open(b, O_CREAT | O_EXCL | O_WRONLY, 0644); if (f >= 0) close(f); } } }
        else { /* mk f path size [mode] */ long n = (long)tk_i(3); int f = open(p, O_CREAT | O_EXCL | O_WRONLY, 0644);
            if (f >= 0) { char b[512]; for (int i = 0; i < 512; i++) b[i] = (char)(n * 7 + i); (void)!write(f, b, n < 512 ? (size_t)n : 512); (void)!ftruncate(f, n); if (hx_ntok > 4) (void)!fchmod(f, (mode_t)strtol(tk_s(4), NULL, 8)); close(f); } }
        ev_ret(); tail(); return; }
    char *z = zpath(1); bool b; ev_begin(op); ev_path("z", z); ev_b("abs", *z == '/');
#define BOOL(name, call) if (!strcmp(op, name)) { lib(); b = call; libend(); ev_b("ret", b); tail(); return; }
    BOOL("exists", vt_path_exists(z)) BOOL("isdir", vt_path_is_dir(z)) BOOL("isfile", vt_path_is_file(z))
    BOOL("mkdir", vt_path_mkdir(z)) BOOL("mkdirp", vt_path_mkdir_parents(z)) BOOL("rmdir", vt_path_rmdir(z)) BOOL("rmr", vt_path_rmdir_recurse(z)) BOOL("remove", vt_path_remove(z))
    if (!strcmp(op, "size")) { lib(); int64_t n = vt_path_get_file_size(z); libend(); { char t[32]; snprintf(t, sizeof t, "%ld", (long)n); ev_t("ret", t); } tail(); return; }
    if (!strcmp(op, "rename")) { char *y = zpath(2); ev_path("y", y); lib(); b = vt_path_rename(z, y); libend(); ev_b("ret", b); tail(); return; }
    if (!strcmp(op, "list") || !strcmp(op, "listr")) { /* list z nodot given slides */
        bool nodot = tk_i(2), given = tk_i(3), rec = op[4] == 'r'; int sl = (int)tk_i(4); vt_plist_t *g = NULL; vt_str_t *old[2] = {0}; ev_b("nodot", nodot); ev_b("given", given);
        if (given) { g = vt_plist_create(1, NULL); for (int i = 0; i < 2; i++) { old[i] = vt_str_create("old", NULL); vt_plist_push_back(g, old[i]); } }
        lib(); vt_plist_t *r = rec ? vt_path_dir_list_recurse(g, z, nodot) : vt_path_dir_list(g, z, nodot); libend();
        ev_t("ret", !r ? "null" : r == g ? "given" : "new");
        size_t from = 0; bool kept = true; vt_plist_t *look = r ? r : g;
        if (given && (rec || !r)) { kept = vt_plist_len(look) >= 2 && vt_plist_get(look, 0) == old[0] && vt_plist_get(look, 1) == old[1] && (r || delivered || vt_plist_len(look) == 2); from = 2; }
        ev_b("kept", kept); ev_arr("items");
        if (r) for (size_t i = from; i < vt_plist_len(r); i++) { vt_str_t *s = vt_plist_get(r, i); ev_arr_sep(); comps(rel(vt_str_z(s))); if (strlen(vt_str_z(s)) != vt_str_len(s)) { hx_raw(",[\"BAD\"]", 8); } }
        ev_arr_end();
        if (given && !rec && r) for (int i = 0; i < 2; i++) vt_str_destroy(old[i]);   /* the cleared list no longer knows them */
        if (look) { for (int i = 0; i < sl; i++) vt_plist_slide_front(look); lib(); vt_path_dir_free(look); hx_state[0] = 2; in_lib = false; }
        tail(); return; }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
