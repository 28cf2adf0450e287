/* file.c - conformance harness for the file API (spec: FileIO.tla). Every
 * script works in a scratch directory of its own. */
#include "hx.h"
#include <sys/stat.h>
#include <errno.h>
#include "vita/system/fileio.h"
#include "vita/allocator/mallocator.h"
static const char *const NAMES[] = {"a", "b", "dir/c"}; static int fd0; static long blk0; static long long limit;
static vt_mallocator_t *own;
static void area_begin(void) {
    char d[64]; snprintf(d, sizeof d, "t%ld-%d", hx_sid, (int)getpid()); if (mkdir(d, 0755) || chdir(d) || mkdir("dir", 0755) || symlink("a", "la")) _exit(98);
    own = vt_mallocator_create(); hx_nalloc = 0; fd0 = dup(0); close(fd0); limit = -1; signal(SIGXFSZ, SIG_IGN);
}
static void area_finish(void) {}
static void rle(const unsigned char *p, size_t n) { hx_raw("[", 1); for (size_t i = 0; i < n;) { size_t k = i; while (k < n && p[k] == p[i]) k++; hx_fmt(i ? ",[%u,%zu]" : "[%u,%zu]", p[i], k - i); i = k; } hx_raw("]", 1); }
static void ev_rle(const char *k, const void *p, size_t n) { hx_key(k); rle(p, n); }
static void tail(void) {
    hx_key("files"); hx_raw("{", 1);
    for (size_t i = 0; i < sizeof NAMES / sizeof *NAMES; i++) {
        int f = open(NAMES[i], O_RDONLY); unsigned char *b = NULL; size_t n = 0;
        if (f >= 0) { struct stat st; fstat(f, &st); b = __real_malloc((size_t)st.st_size + 1); ssize_t r; while ((r = read(f, b + n, (size_t)st.st_size + 1 - n)) > 0) { n += (size_t)r; if (n > (size_t)st.st_size) break; } close(f); }
        hx_fmt("%s\"%s\":{\"there\":%s,\"data\":", i ? "," : "", NAMES[i], f >= 0 ? "true" : "false"); rle(b ? b : (unsigned char*)"", n); hx_raw("}", 1); if (b) __real_free(b);
    }
    hx_raw("}", 1); ev_i("leak", (long)hx_nblk - blk0); int f = dup(0); close(f); ev_b("fds", f != fd0); ev_end();
}
static void lib(void) { ev_call(); if (limit >= 0) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = (rlim_t)limit; setrlimit(RLIMIT_FSIZE, &r); } }
static void libend(void) { if (limit >= 0) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = r.rlim_max; setrlimit(RLIMIT_FSIZE, &r); } ev_ret(); }
/* text token: runs "61*4096+00*1" (hex byte * count), "-" = empty */
static unsigned char *runs(int i, size_t *len) {
    const char *t = tk_s(i); size_t n = 0; unsigned char *b = NULL;
    for (int pass = 0; pass < 2; pass++) { n = 0; const char *s = t; while (*s && *s != '-') { unsigned v; unsigned long c; int k = 0; if (sscanf(s, "%2x*%lu%n", &v, &c, &k) != 2) _exit(99); if (pass) memset(b + n, (int)v, c); n += c; s += k; if (*s == '+') s++; } if (!pass) b = __real_malloc(n + 1); }
    b[n] = 0; *len = n; return b;
}
/* short reads: "short k" cuts what the next reading call gets from the device (k = 0: nothing, 1: half, 2: all but one byte) */
static int cut = -1; static bool cut_hit;
size_t __real_fread(void *p, size_t s, size_t n, FILE *f);
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) {
    if (cut < 0) return __real_fread(p, s, n, f);
    if (cut_hit) { errno = EIO; return 0; }
    if (!s || !n) return 0;
    cut_hit = true; errno = EIO; size_t m = cut == 0 ? 0 : cut == 1 ? n / 2 : n - 1; return m ? __real_fread(p, s, m, f) : 0;
}
static const char *canonf(const char *f) { return !strcmp(f, "la") || !strcmp(f, "./a") || !strcmp(f, "dir/../a") ? "a" : !strcmp(f, ".//b") ? "b" : !strcmp(f, "dir//c") ? "dir/c" : f; }
static char *fname(int i) { const char *t = tk_s(i); if (!strcmp(t, "FULL")) t = "/dev/full"; if (!strcmp(t, "EMPTY")) t = ""; char *b = __real_malloc(strlen(t) + 1); strcpy(b, t); return b; }
static void area_op(void) {
    const char *op = tk_s(0); blk0 = (long)hx_nblk; size_t n;
    if (!strcmp(op, "short")) { cut = (int)tk_i(1); cut_hit = false; return; }
    if (!strcmp(op, "limit")) { limit = tk_i(1); return; }
    if (!strcmp(op, "bad")) { int w = (int)tk_i(1); char b[4] = {0}; ev_begin("bad"); ev_i("w", w); ev_call();
        switch (w) {
        case 0: vt_file_read(NULL, NULL); break; case 1: vt_file_readb(NULL, NULL); break; case 2: vt_file_read_to_buffer(NULL, b, 4); break; case 3: vt_file_read_to_buffer("a", NULL, 4); break;
        case 4: vt_file_read_to_buffer("a", b, 0); break; case 5: vt_file_write(NULL, "x"); break; case 6: vt_file_write("a", NULL); break; case 7: vt_file_writeln("a", NULL); break;
        case 8: vt_file_writeb("a", NULL); break; case 9: vt_file_writebln("a", NULL); break; case 10: vt_file_append("a", NULL); break; case 11: vt_file_appendln("a", NULL); break;
        case 12: vt_file_appendb("a", NULL); break; case 13: vt_file_appendbln("a", NULL); break; case 14: vt_file_writef(NULL, "x"); break; case 15: vt_file_writef("a", NULL); break;
        case 16: vt_file_writefln(NULL, "x"); break; case 17: vt_file_writefln("a", NULL); break; case 18: vt_file_writefc(NULL, 0, 0, 0, "x"); break; case 19: vt_file_writefc("a", 0, 0, 0, NULL); break;
        case 20: vt_file_append(NULL, "x"); break; default: _exit(99); }
        ev_ret(); tail(); return; }
    char *f = fname(1); ev_begin(strcmp(f, "/dev/full") ? op : "full"); ev_t("f", canonf(f));
    if (!strcmp(op, "put")) { unsigned char *d = runs(2, &n); ev_rle("d", d, n); ev_call(); int o = open(f, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (o < 0) _exit(99); hx_write(o, (char*)d, n); close(o); ev_ret(); tail(); return; }
    if (!strcmp(op, "drop")) { ev_call(); unlink(f); ev_ret(); tail(); return; }
    if (!strcmp(op, "read")) { bool bin = tk_i(2), al = tk_i(3); struct VitaBaseAllocatorType *a = al ? own : NULL; ev_b("bin", bin); ev_b("al", al);
        lib(); vt_str_t *s = bin ? vt_file_readb(f, a) : vt_file_read(f, a); libend(); ev_b("cut", cut >= 0 && cut_hit); cut = -1;
        ev_b("null", !s); ev_i("len", s ? (long long)vt_str_len(s) : 0); ev_rle("d", s ? vt_str_z(s) : "", s ? vt_str_len(s) : 0); ev_b("term", s ? vt_str_z(s)[vt_str_len(s)] == 0 : false);
        if (s) vt_str_destroy(s); tail(); return; }
    if (!strcmp(op, "rbuf")) { n = (size_t)tk_i(2); char *b = __real_malloc(n); memset(b, 0xEE, n); ev_i("n", (long long)n);
        lib(); const char *r = vt_file_read_to_buffer(f, b, n); libend(); ev_b("cut", cut >= 0 && cut_hit); cut = -1; ev_b("null", !r); ev_b("same", r == b); ev_rle("d", b, n); __real_free(b); tail(); return; }
    if (!strcmp(op, "write")) { /* write f form data app ln ; form: z b fc f(ormatted) k(ompound) p(ercent) */
        const char *fm = tk_s(2); unsigned char *d = runs(3, &n); char *s = (char*)d; bool app = tk_i(4), ln = tk_i(5), r = false;
        unsigned char *want = d; size_t wn = n; long v = tk_i(6); char *exp = NULL;
        if (*fm == 'k') { exp = __real_malloc(n + 128); int a = sprintf(exp, "%05ld|", v); memcpy(exp + a, d, n); int e = sprintf(exp + a + n, "|%x%%%.2f", (unsigned)v, 1.5); wn = (size_t)a + n + (size_t)e; want = (unsigned char*)exp; }
        if (*fm == 'c') { exp = __real_malloc(8); exp[0] = '<'; exp[1] = (char)v; exp[2] = 0; exp[3] = '>'; want = (unsigned char*)exp; wn = 4; }
        ev_rle("d", want, wn); ev_b("app", app); ev_b("ln", ln); ev_t("form", fm); ev_i("lim", limit); bool bin = fm[1] == 'b';
        lib();
        switch (*fm) {
        case 'z': r = bin ? (app ? (ln ? vt_file_appendbln(f, s) : vt_file_appendb(f, s)) : (ln ? vt_file_writebln(f, s) : vt_file_writeb(f, s)))
                          : (app ? (ln ? vt_file_appendln(f, s) : vt_file_append(f, s)) : (ln ? vt_file_writeln(f, s) : vt_file_write(f, s))); break;
        case 's': r = vt_file_writefc(f, bin, app, ln, "%s", s); break;
        case 'f': r = ln ? vt_file_writefln(f, "%s", s) : vt_file_writef(f, "%s", s); break;
        case 'k': r = fm[1] == 'f' ? (ln ? vt_file_writefln(f, "%05ld|%s|%x%%%.2f", v, s, (unsigned)v, 1.5) : vt_file_writef(f, "%05ld|%s|%x%%%.2f", v, s, (unsigned)v, 1.5)) : vt_file_writefc(f, bin, app, ln, "%05ld|%s|%x%%%.2f", v, s, (unsigned)v, 1.5); break;
        case 'c': r = fm[1] == 'f' ? (ln ? vt_file_writefln(f, "<%c%c>", (int)v, 0) : vt_file_writef(f, "<%c%c>", (int)v, 0)) : vt_file_writefc(f, bin, app, ln, "<%c%c>", (int)v, 0); break;
        default: _exit(99); }
        libend(); ev_b("ret", r); tail(); return; }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
