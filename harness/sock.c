/* sock.c - conformance harness for sockets on the loopback interface (spec: Sock.tla) */
#include "hx.h"
#include <pthread.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/ioctl.h>
#include <linux/sockios.h>
#include <sys/stat.h>
#include "vita/network/sockets.h"
extern int __real_socket(int, int, int), __real_setsockopt(int, int, int, const void*, socklen_t), __real_bind(int, const struct sockaddr*, socklen_t), __real_listen(int, int), __real_connect(int, const struct sockaddr*, socklen_t), __real_accept(int, struct sockaddr*, socklen_t*), __real_accept4(int, struct sockaddr*, socklen_t*, int), __real_poll(struct pollfd*, nfds_t, int), __real_close(int);
extern ssize_t __real_send(int, const void*, size_t, int), __real_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t), __real_recv(int, void*, size_t, int), __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
static char flt[16]; static size_t shortn; static bool hit;
static bool fails(const char *c, int e) { if (strcmp(flt, c)) return false; flt[0] = 0; hit = true; errno = e; return true; }
static size_t cut(size_t n) { if (strcmp(flt, "short") || n <= shortn) return n; flt[0] = 0; hit = true; return shortn; }
int __wrap_socket(int a, int b, int c) { return fails("socket", EMFILE) ? -1 : __real_socket(a, b, c); }
int __wrap_setsockopt(int a, int b, int c, const void *d, socklen_t e) { return fails("setsockopt", ENOPROTOOPT) ? -1 : __real_setsockopt(a, b, c, d, e); }
int __wrap_bind(int a, const struct sockaddr *b, socklen_t c) { return fails("bind", EACCES) ? -1 : __real_bind(a, b, c); }
int __wrap_listen(int a, int b) { return fails("listen", EADDRINUSE) ? -1 : __real_listen(a, b); }
int __wrap_connect(int a, const struct sockaddr *b, socklen_t c) { return fails("connect", ETIMEDOUT) ? -1 : __real_connect(a, b, c); }
int __wrap_accept(int a, struct sockaddr *b, socklen_t *c) { return fails("accept", ECONNABORTED) ? -1 : __real_accept(a, b, c); }
int __wrap_accept4(int a, struct sockaddr *b, socklen_t *c, int d) { return fails("accept", ECONNABORTED) ? -1 : __real_accept4(a, b, c, d); }
int __wrap_poll(struct pollfd *a, nfds_t b, int c) { return fails("poll", ENOMEM) ? -1 : __real_poll(a, b, c); }
int __wrap_close(int a) { return fails("close", EIO) ? -1 : __real_close(a); }
ssize_t __wrap_send(int a, const void *b, size_t n, int f) { return fails("send", ENOBUFS) ? -1 : __real_send(a, b, cut(n), f); }
ssize_t __wrap_sendto(int a, const void *b, size_t n, int f, const struct sockaddr *d, socklen_t e) { return fails("send", ENOBUFS) ? -1 : __real_sendto(a, b, cut(n), f, d, e); }
ssize_t __wrap_recv(int a, void *b, size_t n, int f) { return fails("recv", EIO) ? -1 : __real_recv(a, b, n, f); }
ssize_t __wrap_recvfrom(int a, void *b, size_t n, int f, struct sockaddr *d, socklen_t *e) { return fails("recv", EIO) ? -1 : __real_recvfrom(a, b, n, f, d, e); }
/* other ways to say the same */
extern ssize_t __real_read(int, void*, size_t), __real_write(int, const void*, size_t), __real_recvmsg(int, struct msghdr*, int), __real_sendmsg(int, const struct msghdr*, int); extern int __real_ppoll(struct pollfd*, nfds_t, const struct timespec*, const sigset_t*);
static bool issock(int f) { struct stat b; return flt[0] && fstat(f, &b) == 0 && S_ISSOCK(b.st_mode); }
ssize_t __wrap_read(int a, void *b, size_t n) { return issock(a) && fails("recv", EIO) ? -1 : __real_read(a, b, n); }
ssize_t __wrap_recvmsg(int a, struct msghdr *b, int f) { return issock(a) && fails("recv", EIO) ? -1 : __real_recvmsg(a, b, f); }
ssize_t __wrap_write(int a, const void *b, size_t n) { return issock(a) && fails("send", ENOBUFS) ? -1 : __real_write(a, b, issock(a) ? cut(n) : n); }
ssize_t __wrap_sendmsg(int a, const struct msghdr *b, int f) { return issock(a) && fails("send", ENOBUFS) ? -1 : __real_sendmsg(a, b, f); }
int __wrap_ppoll(struct pollfd *a, nfds_t b, const struct timespec *c, const sigset_t *d) { return fails("poll", ENOMEM) ? -1 : __real_ppoll(a, b, c, d); }

enum { NS = 8, BADFD = 900 };
static vt_socket_t fd[NS + 1]; static int port[3], nfd0;
static int opened(void) { int n = 0; for (int i = 3; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static bool usable(int p) { bool ok = true; int t[2] = {SOCK_STREAM, SOCK_DGRAM}; for (int i = 0; i < 2; i++) { int s = __real_socket(AF_INET, t[i], 0); struct sockaddr_in a = {0}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t)p); ok = ok && __real_bind(s, (void*)&a, sizeof a) == 0; __real_close(s); } return ok; }
static void area_begin(void) {
    alarm(10); unsigned h = (unsigned)getpid() * 37u + (unsigned)hx_sid * 11u; const char *e = getenv("HX_TMP"); int shard = e && *e ? e[strlen(e) - 1] - '0' : 0; if (shard < 0 || shard > 7) shard = 0; /* no two runners share a port */
    for (int k = 0, i = 1; i <= 2; k++) { if (k > 3000) _exit(98); int p = i == 1 ? 21000 + shard * 1250 + (int)((h + (unsigned)k * 7u) % 1250u) : 61001 + shard * 550 + (int)((h + (unsigned)k * 7u) % 550u); if (usable(p)) port[i++] = p; }
}
static void area_finish(void) {}
static int lport(int f) { struct sockaddr_in a = {0}; socklen_t n = sizeof a; return getsockname(f, (void*)&a, &n) ? -1 : ntohs(a.sin_port); }
static int sopt(int f, int o) { int v = 0; socklen_t n = sizeof v; return getsockopt(f, SOL_SOCKET, o, &v, &n) ? -1 : v; }
/* the network is quick: small segments leave at once, and all that was sent has left before the next call */
static void settle(void) { for (int k = 0; k < 2500; k++) { int busy = 0; for (int i = 1; i <= NS; i++) { int v = 0; if (fd[i] > 0 && sopt((int)fd[i], SO_TYPE) == SOCK_STREAM && !ioctl((int)fd[i], SIOCOUTQNSD, &v)) busy += v; } if (!busy) return; usleep(200); } }
/* a fault that did not happen (the code has another way of asking the system): the rest of the history, made for the fault, is not run */
static bool wanted, over;
static void start(void) { settle(); nfd0 = opened(); hit = false; wanted = flt[0] != 0; ev_call(); }
static void back(void) { over = wanted && !hit; char b[16]; memcpy(b, flt, 16); flt[0] = 0; ev_ret(); memcpy(flt, b, 16); ev_b("hit", hit); ev_i("nfd", opened() - nfd0); flt[0] = 0; }
static void newsock(vt_socket_t r, int slot) { ev_i("ret", r < 0 ? r : 0); if (r >= 0) { fd[slot] = r; int one = 1; if (sopt((int)r, SO_TYPE) == SOCK_STREAM) __real_setsockopt((int)r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); ev_i("lport", lport((int)r)); ev_t("type", sopt((int)r, SO_TYPE) == SOCK_STREAM ? "T" : "U"); ev_b("acc", sopt((int)r, SO_ACCEPTCONN) == 1); } ev_end(); }
static struct VitaSocketAddress local(int p) { return vt_socket_make_address((int16_t)p, "127.0.0.1"); }
static void ev_addr(const char *k, struct VitaSocketAddress a) { unsigned char *x = (void*)&a.addr; hx_key(k); hx_fmt("{\"port\":%d,\"addr\":[%d,%d,%d,%d]}", ntohs(a.port), x[0], x[1], x[2], x[3]); }
/* bulk transfer */
struct pump { vt_socket_t f; size_t n, chunk; long sent; bool fail; };
static unsigned char pat(size_t i) { return (unsigned char)(i * 131 + (i >> 8) * 7 + (i >> 16)); }
static long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (long)(t.tv_sec * 1000 + t.tv_nsec / 1000000); }
struct late { vt_socket_t f; long delay, t0, at; };
static void *sender(void *v) { struct late *p = v; usleep((useconds_t)p->delay * 1000); vt_socket_send(p->f, "late!", 5); p->at = now() - p->t0; return NULL; }
static void *pumper(void *v) { struct pump *p = v; char *b = __real_malloc(p->chunk); size_t g = 0; while (g < p->n) { size_t k = p->n - g < p->chunk ? p->n - g : p->chunk; for (size_t i = 0; i < k; i++) b[i] = (char)pat(g + i); int32_t r = vt_socket_send(p->f, b, k); if (r <= 0 || (size_t)r > k) { p->fail = true; break; } g += (size_t)r; } p->sent = (long)g; __real_free(b); return NULL; }
static void area_op(void) {
    if (over) return;
    const char *op = tk_s(0); size_t n = 0; int s = (int)tk_i(1);
    if (!strcmp(op, "inj")) { snprintf(flt, sizeof flt, "%s", tk_s(1)); shortn = (size_t)tk_i(2); return; }
    ev_begin(op);
    if (!strcmp(op, "mkaddr")) { int p = (int)tk_i(1); const char *a = tk_s(2); int q[4]; ev_i("port", p); start(); struct VitaSocketAddress r = vt_socket_make_address((int16_t)p, !strcmp(a, "NULL") ? NULL : a); back(); if (sscanf(a, "%d.%d.%d.%d", q, q + 1, q + 2, q + 3) != 4) _exit(99); hx_key("q"); hx_fmt("[%d,%d,%d,%d]", q[0], q[1], q[2], q[3]); ev_addr("r", r); ev_end(); return; }
    if (!strcmp(op, "init")) { start(); bool r = vt_socket_init(), q = vt_socket_quit(); back(); ev_b("r", r && q); ev_end(); return; }
    if (!strcmp(op, "badfd")) { const char *k = tk_s(1); char b[8]; struct VitaSocketAddress a = local(port[1]); long r = 0; ev_t("k", k); start();
        if (!strcmp(k, "close")) r = vt_socket_close(BADFD); else if (!strcmp(k, "send")) r = vt_socket_send(BADFD, "abc", 3); else if (!strcmp(k, "sendto")) r = vt_socket_send_to(BADFD, a, "abc", 3); else if (!strcmp(k, "recv")) r = vt_socket_receive(BADFD, b, 8); else if (!strcmp(k, "rfrom")) r = vt_socket_receive_from(BADFD, &a, b, 8);
        else if (!strcmp(k, "trecv")) r = vt_socket_receive_timed(BADFD, b, 8, 5); else if (!strcmp(k, "tfrom")) r = vt_socket_receive_timed_from(BADFD, &a, b, 8, 5); else if (!strcmp(k, "acc")) r = (long)vt_socket_accept_client(BADFD); else if (!strcmp(k, "poll")) r = vt_socket_poll(NULL, 3, 5); else _exit(99);
        back(); ev_i("r", r); ev_end(); return; }
    ev_i("slot", s);
    if (!strcmp(op, "srv")) { const char *t = tk_s(2); int p = port[tk_i(3)]; ev_t("t", t); ev_i("port", p); ev_t("flt", flt); start(); vt_socket_t r = vt_socket_startup_server(*t == 'T' ? VT_SOCKET_TYPE_TCP : VT_SOCKET_TYPE_UDP, p, 16); back(); newsock(r, s); return; }
    if (!strcmp(op, "cli")) { const char *t = tk_s(2); int p = port[tk_i(3)]; ev_t("t", t); ev_i("port", p); ev_t("flt", flt); struct VitaSocketAddress a = local(p); start(); vt_socket_t r = vt_socket_startup_client(*t == 'T' ? VT_SOCKET_TYPE_TCP : VT_SOCKET_TYPE_UDP, a); back(); newsock(r, s); return; }
    if (!strcmp(op, "acc")) { int h = (int)tk_i(2); ev_i("h", h); ev_t("flt", flt); start(); vt_socket_t r = vt_socket_accept_client(fd[h]); back(); newsock(r, s); return; }
    if (!strcmp(op, "close")) { ev_t("flt", flt); start(); bool r = vt_socket_close(fd[s]); back(); ev_b("r", r); ev_end(); return; }
    if (!strcmp(op, "send")) { char *d = tk_hex(2, &n); ev_t("flt", flt); ev_bytes("d", d, n); start(); int32_t r = vt_socket_send(fd[s], d, n); back(); ev_i("r", r); ev_end(); return; }
    if (!strcmp(op, "sendto")) { int t = (int)tk_i(2); char *d = tk_hex(3, &n); int p = t < 0 ? port[-t] : lport((int)fd[t]); ev_t("flt", flt); ev_i("port", p); ev_bytes("d", d, n); struct VitaSocketAddress a = local(p); start(); int32_t r = vt_socket_send_to(fd[s], a, d, n); back(); ev_i("r", r); ev_end(); return; }
    if (!strcmp(op, "recv") || !strcmp(op, "rfrom") || !strcmp(op, "trecv") || !strcmp(op, "tfrom")) {
        n = (size_t)tk_i(2); uint32_t ms = (uint32_t)tk_i(3); char *b = __real_malloc(n); memset(b, 0xEE, n); static struct VitaSocketAddress a; /* keeps the last sender, as a server loop does */ bool timed = *op == 't', from = op[timed] == 'f'; int32_t r;
        ev_t("flt", flt); ev_i("n", (long long)n); ev_b("timed", timed); ev_b("from", from); ev_i("ms", (long long)ms); start(); long t0 = now();
        r = timed ? (from ? vt_socket_receive_timed_from(fd[s], &a, b, n, ms) : vt_socket_receive_timed(fd[s], b, n, ms)) : (from ? vt_socket_receive_from(fd[s], &a, b, n) : vt_socket_receive(fd[s], b, n));
        t0 = now() - t0; back(); ev_i("took", t0); ev_i("r", r); size_t k = r > 0 && (size_t)r <= n ? (size_t)r : 0; ev_bytes("d", b, k); bool rest = true; for (size_t i = k; i < n; i++) rest = rest && (unsigned char)b[i] == 0xEE; ev_b("rest", rest); ev_addr("a", a); ev_end(); __real_free(b); return; }
    if (!strcmp(op, "poll")) { struct pollfd p[NS]; int k = hx_ntok - 2; for (int i = 0; i < k; i++) p[i] = (struct pollfd){.fd = (int)fd[tk_i(i + 2)], .events = POLLIN}; ev_t("flt", flt); hx_key("on"); hx_raw("[", 1); for (int i = 0; i < k; i++) hx_fmt(i ? ",%d" : "%d", (int)tk_i(i + 2)); hx_raw("]", 1);
        ev_i("ms", tk_i(1)); start(); long t0 = now(); int32_t r = vt_socket_poll(p, (size_t)k, (uint32_t)tk_i(1)); t0 = now() - t0; back(); ev_i("took", t0); ev_i("r", r); hx_key("ready"); hx_raw("[", 1); for (int i = 0; i < k; i++) hx_fmt(i ? ",%s" : "%s", p[i].revents ? "true" : "false"); hx_raw("]", 1); ev_end(); return; }
    if (!strcmp(op, "late")) { /* late slot how from ms delay: the bytes come while the receiver waits */
        const char *k = tk_s(2); uint32_t ms = (uint32_t)tk_i(4); struct late p = {fd[tk_i(3)], tk_i(5), 0, 0}; char b[8]; struct VitaSocketAddress a; struct pollfd q = {.fd = (int)fd[s], .events = POLLIN}; pthread_t th; int32_t r; ev_t("k", k); ev_i("ms", (long long)ms); start(); p.t0 = now(); pthread_create(&th, NULL, sender, &p);
        r = *k == 'p' ? vt_socket_poll(&q, 1, ms) : k[1] == 'r' ? vt_socket_receive_timed(fd[s], b, 8, ms) : vt_socket_receive_timed_from(fd[s], &a, b, 8, ms);
        pthread_join(th, NULL); back(); ev_i("r", r); ev_bytes("d", b, r == 5 && *k == 't' ? 5 : 0); ev_i("at", p.at); if (*k == 'p' || r == 0) recv((int)fd[s], b, 8, 0); ev_end(); return; }
    if (!strcmp(op, "pump")) { int t = (int)tk_i(2); struct pump p = {fd[s], (size_t)tk_i(3), (size_t)tk_i(4), 0, false}; size_t rc = (size_t)tk_i(5), g = 0; char *b = __real_malloc(rc); bool same = true; pthread_t th; ev_i("to", t); ev_i("n", (long long)p.n); start(); pthread_create(&th, NULL, pumper, &p);
        while (g < p.n) { int32_t r = vt_socket_receive(fd[t], b, rc); if (r <= 0 || (size_t)r > rc) { same = false; break; } for (int32_t i = 0; i < r; i++) same = same && (unsigned char)b[i] == pat(g + (size_t)i); g += (size_t)r; }
        if (same) pthread_join(th, NULL); back(); ev_b("same", same && !p.fail); ev_i("got", (long long)g); ev_i("sent", p.sent); ev_end(); return; }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
