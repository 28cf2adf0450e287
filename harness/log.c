/* log.c - conformance harness for logging and debug output (spec: Log.tla) */
#define HX_AFTER
#include "hx.h"
#ifdef NDEBUG
#define RELEASE true
#else
#define RELEASE false
#endif
#include <sys/stat.h>
#include <time.h>
#include "vita/util/log.h"
#include "vita/util/debug.h"
/* what can be written to: standard error and output, files; "no/x" and "dir" cannot be opened, "full" takes nothing */
static const char *const NAMES[] = {"a", "bb", "dir/a-longer-name"}; enum { NF = 3 };
static struct sh { char dir[256]; time_t t0; long size[NF + 2]; unsigned char *unused; char loc[512]; char old[NF][1 << 20]; } *sh;
static int outfd, fd0;
__attribute__((constructor)) static void setup(void) { sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); outfd = memfd_create("out", 0); }
static void area_begin(void) {
    snprintf(sh->dir, sizeof sh->dir, "t%ld-%d", hx_sid, (int)getpid()); if (mkdir(sh->dir, 0755) || chdir(sh->dir) || mkdir("dir", 0755)) _exit(98);
    if (ftruncate(outfd, 0)) _exit(98); lseek(outfd, 0, SEEK_SET); dup2(outfd, 1); memset(sh->size, 0, sizeof sh->size); fd0 = dup(0); close(fd0);
    /* localtime reads the zone once */ tzset(); time_t t = 0; localtime(&t);
}
static void area_finish(void) {}
static void delta(const char *k, int fd, long *pos, char *old, bool *kept) {
    long n = fd < 0 ? 0 : (long)lseek(fd, 0, SEEK_END); unsigned char *b = __real_malloc((size_t)n + 1); for (long g = 0; g < n;) { ssize_t x = pread(fd, b + g, (size_t)(n - g), g); if (x <= 0) break; g += x; }
    if (n < *pos || (old && memcmp(b, old, (size_t)*pos))) { *kept = false; *pos = 0; }
    ev_bytes(k, b + *pos, (size_t)(n - *pos)); if (old && n <= 1 << 20) memcpy(old, b, (size_t)n); *pos = n; __real_free(b);
}
static void tail(const char *base) {
    bool kept = true; char p[600]; time_t now = time(NULL); ev_bytes("loc", sh->loc, strlen(sh->loc));
    ev_arr("stamps"); for (time_t t = sh->t0; t <= now && t < sh->t0 + 60; t++) { struct tm m; localtime_r(&t, &m); char b[64]; size_t n = strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &m); ev_arr_sep(); hx_raw("[", 1); for (size_t i = 0; i < n; i++) hx_fmt(i ? ",%d" : "%d", b[i]); hx_raw("]", 1); } ev_arr_end();
    hx_key("add"); hx_raw("{", 1); hx_first = 1;
    delta("err", hx_msgfd, &sh->size[NF], NULL, &kept); delta("out", outfd, &sh->size[NF + 1], NULL, &kept);
    for (int i = 0; i < NF; i++) { snprintf(p, sizeof p, "%s%s", base, NAMES[i]); int f = open(p, O_RDONLY); delta(NAMES[i], f, &sh->size[i], sh->old[i], &kept); if (f >= 0) close(f); }
    hx_raw("}", 1); hx_first = 0; ev_b("kept", kept);
}
static void area_after(void) { char b[300]; snprintf(b, sizeof b, "%s/", sh->dir); tail(b); }
static bool nofd; static rlim_t allfd;
static void fdlimit(bool on) { struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); if (!allfd) allfd = r.rlim_cur; r.rlim_cur = on ? 3 : allfd; setrlimit(RLIMIT_NOFILE, &r); }
static void done(void) { if (nofd) fdlimit(false); ev_ret(); fflush(stdout); int f = dup(0); close(f); ev_b("fds", f != fd0); tail(""); ev_end(); }
/* "K:name" is the same file written ././.../name, K steps long */
static const char *nm(int i) { const char *t = tk_s(i), *c = strchr(t, ':'); return c ? c + 1 : t; }
static const char *keep(int i) { const char *t = nm(i); size_t k = t == tk_s(i) ? 0 : strtoul(tk_s(i), NULL, 10); if (!strcmp(t, "-")) return NULL; if (!strcmp(t, "full")) t = "/dev/full", k = 0; char *b = __real_malloc(2 * k + strlen(t) + 1); for (size_t j = 0; j < k; j++) memcpy(b + 2 * j, "./", 2); strcpy(b + 2 * k, t); return b; }
static void start(void) { sh->t0 = time(NULL); snprintf(sh->loc, sizeof sh->loc, " "); ev_call(); if (nofd) fdlimit(true); }
#define AT(fn) snprintf(sh->loc, sizeof sh->loc, "%s:%s%s%d", "log.c", fn, *fn ? ":" : "", __LINE__)
static int yes = 1, no = 0;
/* body forms */
static char *want(int form, const char *t, size_t n) { char *b = __real_malloc(n + 256); switch (form) { case 0: strcpy(b, "plain text, 100%"); break; case 1: strcpy(b, t); break; case 2: sprintf(b, "%05d/%s|%c%% %zu", -42, t, 'q', n); break; case 3: b[0] = 0; break; default: sprintf(b, "two\nlines\n%s", t); } return b; }
#define F0 "plain text, 100%%"
#define F1 "%s", t
#define F2 "%05d/%s|%c%% %zu", -42, t, 'q', n
#define F3 "%s", ""
#define F4 "two\nlines\n%s", t
#define ALL(M) switch (form) { case 0: M(F0); break; case 1: M(F1); break; case 2: M(F2); break; case 3: M(F3); break; default: M(F4); }
static void noeval(void) {}
static void area_op(void) {
    const char *op = tk_s(0); size_t n = 0;
    if (!strcmp(op, "nofd")) { nofd = tk_i(1); ev_begin("nofd"); ev_b("on", tk_i(1)); ev_call(); ev_ret(); ev_end(); return; }
    if (!strcmp(op, "drop")) { unlink(tk_s(1)); for (int i = 0; i < NF; i++) if (!strcmp(NAMES[i], tk_s(1))) sh->size[i] = 0; return; } /* someone rotates the file away */
    if (!strcmp(op, "put")) { char *t = tk_hex(2, &n); for (int i = 0; i < NF; i++) if (!strcmp(NAMES[i], tk_s(1))) { int f = open(NAMES[i], O_WRONLY | O_CREAT | O_APPEND, 0644); hx_write(f, t, n); close(f); memcpy(sh->old[i] + sh->size[i], t, n); sh->size[i] += (long)n; } return; }
    ev_begin(op);
    if (!strcmp(op, "route")) { int l = (int)tk_i(1); const char *f = keep(2); ev_i("l", l); ev_t("f", nm(2)); start(); vt_log_redirect_level_output((enum VitaLogLevel)l, f); if (f) { memset((char*)f, '!', strlen(f)); __real_free((void*)f); } done(); return; }
    if (!strcmp(op, "routeall")) { const char *f = keep(1); ev_t("f", nm(1)); start(); vt_log_redirect_all_output(f); if (f) { memset((char*)f, '!', strlen(f)); __real_free((void*)f); } done(); return; }
    if (!strcmp(op, "dfile")) { const char *f = keep(1); ev_t("f", nm(1)); start(); vt_debug_redirect_output(f); if (f) { memset((char*)f, '!', strlen(f)); __real_free((void*)f); } done(); return; }
    if (!strcmp(op, "doff")) { ev_b("off", tk_i(1)); start(); vt_debug_disable_output(tk_i(1)); done(); return; }
    if (!strcmp(op, "lname")) { int l = (int)tk_i(1); ev_i("l", l); start(); const char *r = vt_log_get_level_str((enum VitaLogLevel)l); ev_bytes("name", r, strlen(r)); done(); return; }
    if (!strcmp(op, "log")) { /* log file level cond expr form text */
        const char *f = keep(1); int l = (int)tk_i(2); bool c = tk_i(3); const char *x = !strcmp(tk_s(4), "-") ? NULL : tk_s(4); int form = (int)tk_i(5); char *t = tk_hex(6, &n); char *w = want(form, t, n);
        ev_t("f", nm(1)); ev_i("l", l); ev_b("cond", c); ev_b("hasx", x != NULL); ev_bytes("x", x ? x : "", x ? strlen(x) : 0); ev_bytes("body", w, strlen(w)); start(); snprintf(sh->loc, sizeof sh->loc, "src.c:%d", 7 + l);
        #define M(...) vt_log(f, (enum VitaLogLevel)l, c, x, "src.c", (size_t)(7 + l), __VA_ARGS__)
        ALL(M)
        #undef M
        done(); return; }
    if (!strcmp(op, "mac")) { /* mac file level cond form text: the macros */
        const char *f = keep(1); int l = (int)tk_i(2); int c = tk_i(3) ? yes : no, form = (int)tk_i(4); char *t = tk_hex(5, &n); char *w = want(form, t, n); bool call = f != NULL;
        ev_t("f", nm(1)); ev_i("l", l); ev_b("rel", RELEASE); ev_b("cond", l == 5 ? c : false); ev_b("hasx", l == 5); ev_bytes("x", "c == 1", l == 5 ? 6 : 0); ev_bytes("body", w, strlen(w)); start();
        #define M0(...) AT(""); if (call) VT_LOGF_INFO(f, __VA_ARGS__); else VT_LOG_INFO(__VA_ARGS__)
        #define M1(...) AT(""); if (call) VT_LOGF_WARN(f, __VA_ARGS__); else VT_LOG_WARN(__VA_ARGS__)
        #define M2(...) AT(""); if (call) VT_LOGF_DEBUG(f, __VA_ARGS__); else VT_LOG_DEBUG(__VA_ARGS__)
        #define M3(...) AT(""); if (call) VT_LOGF_ERROR(f, __VA_ARGS__); else VT_LOG_ERROR(__VA_ARGS__)
        #define M4(...) AT(""); if (call) VT_LOGF_FATAL(f, __VA_ARGS__); else VT_LOG_FATAL(__VA_ARGS__)
        #define M5(...) AT(""); if (call) VT_LOGF_ASSERT(f, c == 1, __VA_ARGS__); else VT_LOG_ASSERT(c == 1, __VA_ARGS__)
        switch (l) { case 0: ALL(M0) break; case 1: ALL(M1) break; case 2: ALL(M2) break; case 3: ALL(M3) break; case 4: ALL(M4) break; default: ALL(M5) }
        done(); return; }
    if (!strcmp(op, "dbg")) { /* dbg kind cond form text */
        const char *k = tk_s(1); int c = tk_i(2) ? yes : no, form = (int)tk_i(3); char *t = tk_hex(4, &n); char *w = want(form, t, n); bool has = strchr("acek", *k) != NULL;
        const char *subj = *k == 'a' || *k == 'c' ? "DEBUG ASSERTION FAILURE" : *k == 'e' ? "ENFORCE FAILURE" : *k == 'k' ? "CHECK FAILURE" : *k == 'n' ? "NOTE" : *k == 'r' ? "REQUIRED" : *k == 't' ? "TODO" : *k == 'u' ? "UNIMPLEMENTED" : *k == 'p' ? "DEBUG INFO" : *k == 'P' ? "subject" : "sub ject";
        bool quit = strchr("acertuQ", *k) != NULL; bool line = *k != 'p' && *k != 'P';
        ev_t("k", k); ev_b("rel", RELEASE); ev_b("quit", quit); ev_b("line", line); ev_bytes("subj", subj, strlen(subj)); ev_b("cond", has || *k == 'Q' || *k == 'N' ? c : false); { const char *x = has ? "c == 1" : *k == 'Q' || *k == 'N' ? "x" : "!"; ev_bytes("x", x, strlen(x)); } ev_bytes("body", w, strlen(w)); start();
        #define Ma(...) AT(__func__); VT_DEBUG_ASSERT(c == 1, __VA_ARGS__)
        #define Mc(...) snprintf(sh->loc, sizeof sh->loc, "f:g:3"); VT_DEBUG_ASSERTC(c == 1, "f", "g", 3, __VA_ARGS__)
        #define Me(...) AT(__func__); VT_ENFORCE(c == 1, __VA_ARGS__)
        #define Mk(...) AT(__func__); VT_CHECK(c == 1, __VA_ARGS__)
        #define Mn(...) AT(__func__); VT_NOTE(__VA_ARGS__)
        #define Mr(...) AT(__func__); VT_REQUIRED(__VA_ARGS__)
        #define Mt(...) AT(__func__); VT_TODO(__VA_ARGS__)
        #define Mu(...) AT(__func__); VT_UNIMPLEMENTED(__VA_ARGS__)
        #define Mp(...) VT_DEBUG_PRINTF(__VA_ARGS__)
        #define MP(...) vt_debug_printf("subject", __VA_ARGS__)
        #define MQ(...) snprintf(sh->loc, sizeof sh->loc, "f:g:4"); vt_debug_assert(c, "x", "sub ject", *k == 'Q', "f", "g", 4, __VA_ARGS__)
        switch (*k) { case 'a': ALL(Ma) break; case 'c': ALL(Mc) break; case 'e': ALL(Me) break; case 'k': ALL(Mk) break; case 'n': ALL(Mn) break; case 'r': ALL(Mr) break; case 't': ALL(Mt) break; case 'u': ALL(Mu) break; case 'p': ALL(Mp) break; case 'P': ALL(MP) break; case 'Q': case 'N': ALL(MQ) break; default: _exit(99); }
        done(); return; }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
