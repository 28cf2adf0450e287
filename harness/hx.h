/* hx.h - common harness: runs operation scripts against the real library and
 * records one event per public call (JSON, one per line).
 *
 * usage: <harness> <scripts-file> <events-file>
 *
 * Scripts file:   "S <id>" starts a script, every other line is one operation
 *                 (space separated tokens).
 * Events file:    {"s":<id>,...} lines. Each script runs in its own forked
 *                 child; a call that does not return is recorded by the parent
 *                 with out = exit | abort | crash | hang | exit0.
 */
#ifndef HX_H
#define HX_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>

#define HX_EVMAX (4u << 20)
#define HX_MAXTOK 256
static char *hx_pend;           /* shared: event under construction, published by ev_call() */
static volatile int *hx_state;  /* shared: [0] = 1 while a call is in flight */
static char *hx_buf; static size_t hx_len;
static int hx_out = -1; static long hx_sid; static int hx_first;
#define HX_SAN_EXIT 77

/* -------- library heap ledger (linked with -Wl,--wrap=malloc,...) -------- */
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void*, size_t); extern void __real_free(void*);
#define HX_LEDGER (1u << 16)
static struct { void *p; size_t n; } hx_blk[HX_LEDGER];
static size_t hx_nblk, hx_bytes; static long hx_nalloc, hx_fail_at = -1; static int hx_failed; static int hx_poison = 1;
static size_t hx_hash(void *p) { uintptr_t x = (uintptr_t)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15ull; return (x >> 40) & (HX_LEDGER - 1); }
static void hx_led_add(void *p, size_t n) {
    if (!p || hx_nblk > HX_LEDGER / 2) return;
    size_t h = hx_hash(p); while (hx_blk[h].p) h = (h + 1) & (HX_LEDGER - 1);
    hx_blk[h].p = p; hx_blk[h].n = n; hx_nblk++; hx_bytes += n;
}
static bool hx_led_del(void *p) {
    if (!p) return false;
    size_t h = hx_hash(p), i;
    while (hx_blk[h].p && hx_blk[h].p != p) h = (h + 1) & (HX_LEDGER - 1);
    if (!hx_blk[h].p) return false;
    hx_bytes -= hx_blk[h].n; hx_nblk--; hx_blk[h].p = NULL;
    for (i = (h + 1) & (HX_LEDGER - 1); hx_blk[i].p; i = (i + 1) & (HX_LEDGER - 1)) {
        void *q = hx_blk[i].p; size_t n = hx_blk[i].n; hx_blk[i].p = NULL;
        size_t k = hx_hash(q); while (hx_blk[k].p) k = (k + 1) & (HX_LEDGER - 1);
        hx_blk[k].p = q; hx_blk[k].n = n;
    }
    return true;
}
static bool hx_should_fail(void) { hx_nalloc++; if (hx_fail_at >= 0 && hx_nalloc - 1 == hx_fail_at) { hx_failed = 1; if (hx_state) hx_state[1] = 1; return true; } return false; }
void *__wrap_malloc(size_t n) {
    if (hx_should_fail()) return NULL;
    void *p = __real_malloc(n); if (p && hx_poison && n < (1u << 20)) memset(p, 0xA5, n);
    hx_led_add(p, n); return p;
}
void *__wrap_calloc(size_t a, size_t b) { if (hx_should_fail()) return NULL; void *p = __real_calloc(a, b); hx_led_add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) {
    if (hx_should_fail()) return NULL;
    size_t old = 0; if (q) { size_t h = hx_hash(q); while (hx_blk[h].p && hx_blk[h].p != q) h = (h + 1) & (HX_LEDGER - 1); if (hx_blk[h].p) old = hx_blk[h].n; }
    void *p = __real_realloc(q, n);
    if (p) { hx_led_del(q); hx_led_add(p, n); if (hx_poison && q && old && n > old && n - old < (1u << 20)) memset((char*)p + old, 0xA5, n - old); }
    return p;
}
void __wrap_free(void *p) { hx_led_del(p); __real_free(p); }

/* ---------------------------- event building ---------------------------- */
static void hx_raw(const char *s, size_t n) {
    if (hx_len + n + 64 >= HX_EVMAX) { fprintf(stderr, "hx: event too large\n"); _exit(99); }
    memcpy(hx_buf + hx_len, s, n); hx_len += n; hx_buf[hx_len] = 0;
}
static void hx_fmt(const char *f, ...) {
    char t[512]; va_list a; va_start(a, f); int n = vsnprintf(t, sizeof t, f, a); va_end(a); hx_raw(t, (size_t)n);
}
static void hx_key(const char *k) { if (!hx_first) hx_raw(",", 1); hx_first = 0; hx_fmt("\"%s\":", k); }
static long hx_clamp(unsigned long long v) { return v > (1ull << 30) ? (1L << 30) : (long)v; }
static void ev_begin(const char *op) { hx_len = 0; hx_first = 1; hx_raw("{", 1); hx_key("s"); hx_fmt("%ld", hx_sid); hx_key("op"); hx_fmt("\"%s\"", op); }
static void ev_i(const char *k, long long v) { hx_key(k); if (v > (1LL << 30)) v = 1LL << 30; if (v < -(1LL << 30)) v = -(1LL << 30); hx_fmt("%lld", v); }
static void ev_u(const char *k, unsigned long long v) { hx_key(k); hx_fmt("%ld", hx_clamp(v)); }
static void ev_b(const char *k, bool v) { hx_key(k); hx_fmt(v ? "true" : "false"); }
static void ev_t(const char *k, const char *s) { /* plain text atom: [-+A-Za-z0-9_.:/?*] else '#' */
    hx_key(k); hx_raw("\"", 1);
    for (; *s; s++) { char c = *s; if (!(c == '_' || c == '.' || c == ':' || c == '-' || c == '+' || c == '/' || c == '?' || c == '*' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) c = '#'; hx_raw(&c, 1); }
    hx_raw("\"", 1);
}
static void ev_bytes(const char *k, const void *p, size_t n) { /* byte sequence as array of ints */
    hx_key(k); hx_raw("[", 1);
    for (size_t i = 0; i < n; i++) hx_fmt(i ? ",%u" : "%u", ((const unsigned char*)p)[i]);
    hx_raw("]", 1);
}
static void ev_hex(const char *k, const void *p, size_t n) {
    hx_key(k); hx_raw("\"", 1); for (size_t i = 0; i < n; i++) hx_fmt("%02x", ((const unsigned char*)p)[i]); hx_raw("\"", 1);
}
/* integers of any size: {"n":negative,"m":[base-10000 digits, least significant first]} (spec: Big.tla) */
static void ev_bigu(const char *k, bool neg, unsigned __int128 v) {
    hx_key(k); hx_fmt("{\"n\":%s,\"m\":[", neg && v ? "true" : "false");
    for (int i = 0; v; i++, v /= 10000) hx_fmt(i ? ",%d" : "%d", (int)(v % 10000));
    hx_raw("]}", 2);
}
static void ev_big(const char *k, __int128 v) { ev_bigu(k, v < 0, v < 0 ? -(unsigned __int128)v : (unsigned __int128)v); }
static void ev_bigr(const char *k, long double v) { /* integer-valued floating point number */
    hx_key(k); hx_fmt("{\"n\":%s,\"m\":[", v < 0 ? "true" : "false"); if (v < 0) v = -v; v = __builtin_truncl(v);
    for (int i = 0; v > 0 && i < 1300; i++) { long double d = __builtin_fmodl(v, 10000); hx_fmt(i ? ",%d" : "%d", (int)d); v = (v - d) / 10000; }
    hx_raw("]}", 2);
}
static void ev_arr(const char *k) { hx_key(k); hx_raw("[", 1); hx_first = 1; }
static void ev_arr_sep(void) { if (!hx_first) hx_raw(",", 1); hx_first = 0; }
static void ev_arr_end(void) { hx_raw("]", 1); hx_first = 0; }
static int hx_msgfd = -1; /* what the process printed (stdout and stderr), per script */
static void ev_call(void) { memcpy(hx_pend, hx_buf, hx_len + 1); if (hx_msgfd >= 0) hx_state[2] = (int)lseek(hx_msgfd, 0, SEEK_END); hx_state[0] = 1; }   /* call starts */
static void ev_ret(void) { hx_state[0] = 2; hx_key("out"); hx_raw("\"ok\"", 4); if (hx_failed) ev_b("inj", true); }       /* call returned */
static void hx_write(int fd, const char *b, size_t n) { while (n) { ssize_t w = write(fd, b, n); if (w <= 0) _exit(98); b += w; n -= (size_t)w; } }
static void ev_end(void) { hx_raw("}\n", 2); hx_write(hx_out, hx_buf, hx_len); hx_state[0] = 0; }

/* ------------------------------- tokens --------------------------------- */
static char *hx_tok[HX_MAXTOK]; static int hx_ntok;
static long long tk_i(int i) { return i < hx_ntok ? strtoll(hx_tok[i], NULL, 10) : 0; }
static unsigned long long tk_u(int i) { return i < hx_ntok ? strtoull(hx_tok[i], NULL, 0) : 0; }
static const char *tk_s(int i) { return i < hx_ntok ? hx_tok[i] : ""; }
/* hex token "x616263" -> malloc'd exact-size NUL terminated buffer (so ASan sees overreads) */
static char *tk_hex(int i, size_t *len) {
    const char *t = tk_s(i); if (*t == 'x') t++;
    size_t n = strlen(t) / 2; char *b = __real_malloc(n + 1);
    for (size_t k = 0; k < n; k++) { unsigned v; sscanf(t + 2 * k, "%2x", &v); b[k] = (char)v; }
    b[n] = 0; if (len) *len = n; return b;
}

/* --------------------------- provided by area ---------------------------- */
static void area_begin(void);  /* once per script, in the child */
static void area_op(void);     /* one operation: hx_tok/hx_ntok */
static void area_finish(void); /* end of script, in the child */
#ifdef HX_AFTER
static void area_after(void);  /* in the parent, when a call did not return: more fields for its event */
#endif

static void hx_child(char *txt, int fdout) {
    hx_out = fdout;
    struct itimerval it = {{0, 0}, {3, 0}}; setitimer(ITIMER_PROF, &it, NULL);
    alarm(40);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    hx_nalloc = 0; area_begin();
    char *save = NULL;
    for (char *ln = strtok_r(txt, "\n", &save); ln; ln = strtok_r(NULL, "\n", &save)) {
        char *s2 = NULL; hx_ntok = 0;
        for (char *t = strtok_r(ln, " ", &s2); t && hx_ntok < HX_MAXTOK; t = strtok_r(NULL, " ", &s2)) hx_tok[hx_ntok++] = t;
        if (hx_ntok && !strcmp(hx_tok[0], "failat")) { hx_fail_at = hx_nalloc + tk_i(1); continue; } /* the k-th allocation from here fails */
        if (hx_ntok) area_op();
        hx_state[3] = (int)hx_nalloc;
    }
    area_finish();

#ifdef HX_COV
    extern void __gcov_dump(void); __gcov_dump();
#endif
    _exit(0);
}

int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: %s scripts events\n", argv[0]); return 2; }
    int sf = open(argv[1], O_RDONLY); if (sf < 0) { perror(argv[1]); return 2; }
    off_t fsz = lseek(sf, 0, SEEK_END); lseek(sf, 0, SEEK_SET); char *all = __real_malloc((size_t)fsz + 1); size_t got = 0;
    while (got < (size_t)fsz) { ssize_t k = read(sf, all + got, (size_t)fsz - got); if (k <= 0) return 2; got += (size_t)k; }
    all[fsz] = 0; close(sf); char *cur = all; /* whole file in memory: a child's exit() must not move a shared offset */
    int out = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); if (out < 0) { perror(argv[2]); return 2; }
    hx_pend = mmap(NULL, HX_EVMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hx_state = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hx_buf = __real_malloc(HX_EVMAX);
    const bool verbose = getenv("HX_VERBOSE") != NULL;
    char npath[4096]; snprintf(npath, sizeof npath, "%s.n", argv[2]); FILE *nf = fopen(npath, "w");
    hx_msgfd = verbose ? -1 : memfd_create("msg", 0);
    char *line = NULL; ssize_t n; char *txt = NULL; size_t tl = 0, tc = 0; long sid = -1; bool eof = false; int hangs = 0;
    while (!eof) {
        if (*cur) { line = cur; char *nl = strchr(cur, '\n'); cur = nl ? nl + 1 : cur + strlen(cur); n = cur - line; } else { n = -1; line = cur; }
        eof = n < 0;
        if (eof || (line[0] == 'S' && line[1] == ' ')) {
            if (sid >= 0) {
                if (!txt) { txt = __real_calloc(1, 1); tc = 1; }
                hx_sid = sid; hx_state[0] = hx_state[1] = hx_state[2] = hx_state[3] = 0; fflush(NULL);
                if (hx_msgfd >= 0) { if (ftruncate(hx_msgfd, 0)) return 2; lseek(hx_msgfd, 0, SEEK_SET); }
                pid_t p = fork(); if (p < 0) { perror("fork"); return 2; }
                if (p == 0) {
                    if (!verbose) { int d = open("/dev/null", O_RDWR); dup2(hx_msgfd, 1); dup2(hx_msgfd, 2); dup2(d, 0); }
                    hx_child(txt, out);
                }
                int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
                fprintf(nf, "%ld %d\n", sid, hx_state[3]); fflush(nf);
                const char *how = NULL; char code[32] = "";
                if (WIFEXITED(st)) {
                    int c = WEXITSTATUS(st); snprintf(code, sizeof code, "%d", c);
                    if (c == 98 || c == 99) { fprintf(stderr, "hx: harness failure %d in script %ld\n", c, sid); return 2; }
                    if (hx_state[0] == 0 && c == 0) how = NULL;
                    else how = c == 0 ? "exit0" : c == HX_SAN_EXIT ? "crash" : "exit";
                } else {
                    int s = WTERMSIG(st); snprintf(code, sizeof code, "sig%d", s);
                    how = (s == SIGABRT) ? "abort" : (s == SIGPROF || s == SIGALRM || s == SIGVTALRM) ? "hang" : "crash";
                }
                if (how && !strcmp(how, "hang") && ++hangs >= 3) eof = true; /* a few hanging histories are evidence enough */
                if (how) {
                    if (hx_state[0] == 1) { hx_write(out, hx_pend, strlen(hx_pend)); char t[128]; int k = snprintf(t, sizeof t, ",\"out\":\"%s\",\"code\":\"%s\"%s,\"msg\":%s}\n", how, code, hx_state[1] ? ",\"inj\":true" : "", hx_msgfd >= 0 && lseek(hx_msgfd, 0, SEEK_END) > hx_state[2] ? "true" : "false");
                        #ifdef HX_AFTER
                        k -= 2; hx_write(out, t, (size_t)k); hx_len = 0; hx_first = 0; area_after(); hx_raw("}\n", 2); hx_write(out, hx_buf, hx_len);
                        #else
                        hx_write(out, t, (size_t)k);
                        #endif
                    }
                    else { /* died outside a recorded call (projection or teardown of a broken object) */
                        char t[160]; int k = snprintf(t, sizeof t, "{\"s\":%ld,\"op\":\"DIED\",\"out\":\"%s\",\"code\":\"%s\"%s,\"msg\":%s}\n", sid, how, code, hx_state[1] ? ",\"inj\":true" : "", hx_msgfd >= 0 && lseek(hx_msgfd, 0, SEEK_END) > hx_state[2] ? "true" : "false"); hx_write(out, t, (size_t)k);
                    }
                }
            }
            if (hangs >= 3) break;
            if (!eof) { sid = strtol(line + 2, NULL, 10); tl = 0; if (txt) txt[0] = 0; }
        } else if (n > 0) {
            if (tl + (size_t)n + 1 > tc) { tc = 2 * (tl + (size_t)n + 1); char *nt = __real_malloc(tc); memcpy(nt, txt ? txt : "", tl); txt = nt; }
            memcpy(txt + tl, line, (size_t)n); tl += (size_t)n; txt[tl] = 0;
        }
    }
    return 0;
}
#endif
