/* date.c - conformance harness for dates (specs: Calendar.tla, DateText.tla) */
#include "hx.h"
#include <time.h>
#include "vita/time/datetime.h"
static char zone[16] = "utc";
static void area_begin(void) { strcpy(zone, "utc"); setenv("TZ", "UTC0", 1); tzset(); } static void area_finish(void) {}
typedef struct VitaDateTime dt;
static void ev_dt(const char *k, dt v) { hx_key(k); hx_fmt("{\"y\":%d,\"mo\":%d,\"d\":%d,\"h\":%d,\"mi\":%d,\"s\":%d,\"wd\":%d,\"yd\":%d}", v.year, v.month, v.month_day, v.hour, v.minute, v.second, v.week_day, v.year_day); }
static dt tk_dt(int i) { dt v = {(int16_t)tk_i(i), (int16_t)tk_i(i + 1), (int16_t)tk_i(i + 2), (int16_t)tk_i(i + 3), (int16_t)tk_i(i + 4), (int16_t)tk_i(i + 5), (int16_t)tk_i(i + 6), (int16_t)tk_i(i + 7)}; return v; }
static void ev_parts(const char *k, dt v) { hx_key(k); hx_first = 1; hx_raw("{", 1); ev_big("d", v.month_day); ev_big("h", v.hour); ev_big("mi", v.minute); ev_big("s", v.second); hx_raw("}", 1); }
/* the recorded defect of vt_datetime_diff: single precision (known_findings.txt) */
static dt known_flt(time_t x) { volatile float q = 86400; volatile float f = (float)x / q; time_t d = f; volatile float a = (f - d); volatile float b = a * 24; time_t h = b; volatile float c = (b - h) * 60; time_t m = c; volatile float g = (c - m) * 60; time_t s = g; dt r = {0}; r.month_day = d; r.hour = h; r.minute = m; r.second = s; return r; }
static void area_op(void) {
    const char *op = tk_s(0); size_t n;
    if (!strcmp(op, "tz")) { snprintf(zone, sizeof zone, "%s", tk_s(1)); setenv("TZ", !strcmp(zone, "est") ? "EST5EDT,M3.2.0,M11.1.0" : !strcmp(zone, "ist") ? "IST-5:30" : !strcmp(zone, "aest") ? "AEST-10AEDT,M10.1.0,M4.1.0/3" : "UTC0", 1); tzset(); return; }
    ev_begin(op); ev_t("z", zone);
    if (!strcmp(op, "create")) { dt a = tk_dt(1); ev_dt("a", a); ev_call(); dt r = vt_datetime_create(a.year, a.month, a.month_day, a.hour, a.minute, a.second, a.week_day, a.year_day); ev_ret(); ev_dt("r", r); ev_end(); return; }
    if (!strcmp(op, "facts")) { dt v = tk_dt(1); ev_dt("v", v); ev_call(); int a = vt_datetime_find_week_day(v), b = vt_datetime_find_year_day(v), c = vt_datetime_find_days_in_month(v), d = vt_datetime_find_days_in_year(v); bool e = vt_datetime_is_leap_year(v); ev_ret(); ev_i("wday", a); ev_i("yday", b); ev_i("dim", c); ev_i("diy", d); ev_b("leap", e); ev_end(); return; }
    if (!strcmp(op, "years")) { /* every year of a stretch */
        int lo = (int)tk_i(1), hi = (int)tk_i(2); static unsigned char lp[32768], dy[32768], dm[32768][13], wd[32768]; ev_i("lo", lo); ev_i("hi", hi); ev_call();
        for (int y = lo; y <= hi; y++) { dt v = {.year = (int16_t)y, .month = 3, .month_day = 1}; lp[y] = vt_datetime_is_leap_year(v); dy[y] = (unsigned char)(vt_datetime_find_days_in_year(v) - 300); wd[y] = (unsigned char)vt_datetime_find_week_day(v); for (int m = 1; m <= 12; m++) { v.month = (int16_t)m; dm[y][m] = (unsigned char)vt_datetime_find_days_in_month(v); } }
        ev_ret();
        ev_arr("leap"); for (int y = lo; y <= hi; y++) if (lp[y]) { ev_arr_sep(); hx_fmt("%d", y); } ev_arr_end();
        ev_arr("diy"); for (int y = lo; y <= hi; y++) { ev_arr_sep(); hx_fmt("%d", dy[y] + 300); } ev_arr_end();
        ev_arr("wd"); for (int y = lo; y <= hi; y++) { ev_arr_sep(); hx_fmt("%d", wd[y]); } ev_arr_end();
        ev_arr("dim"); for (int y = lo; y <= hi; y++) { ev_arr_sep(); hx_raw("[", 1); for (int m = 1; m <= 12; m++) hx_fmt("%s%d", m > 1 ? "," : "", dm[y][m]); hx_raw("]", 1); } ev_arr_end(); ev_end(); return; }
    if (!strcmp(op, "to")) { dt v = tk_dt(1); ev_dt("v", v); ev_call(); time_t r = vt_datetime_to_secs(v); ev_ret(); ev_big("r", r); ev_end(); return; }
    if (!strcmp(op, "from")) { time_t x = (time_t)tk_i(1); ev_big("x", x); ev_call(); dt r = vt_datetime_from_secs(x); ev_ret(); ev_dt("r", r); ev_end(); return; }
    if (!strcmp(op, "op")) { dt v = tk_dt(1), q = tk_dt(9); ev_dt("v", v); ev_dt("q", q); ev_call(); dt r = vt_datetime_op(v, q); ev_ret(); ev_dt("r", r); ev_end(); return; }
    if (!strcmp(op, "dif")) { dt v = tk_dt(1), w = tk_dt(9); ev_dt("v", v); ev_dt("w", w); ev_call(); time_t a = vt_datetime_diff_secs(v, w), b = vt_datetime_diff_minutes(v, w), c = vt_datetime_diff_hours(v, w), d = vt_datetime_diff_days(v, w); dt r = vt_datetime_diff(v, w); ev_ret();
        ev_big("secs", a); ev_big("mins", b); ev_big("hours", c); ev_big("days", d); ev_parts("r", r); ev_parts("flt", known_flt(a)); ev_b("off", r.year || r.month || r.week_day || r.year_day); ev_end(); return; }
    if (!strcmp(op, "now")) { time_t a = time(NULL); ev_call(); dt r = vt_datetime_get_now(); ev_ret(); time_t b = time(NULL); ev_big("t0", a); ev_big("t1", b); ev_dt("r", r); ev_end(); return; }
    /* ---- texts: form p(lain) i(so) e(xtended) y(pretty) ---- */
    const char *f = tk_s(1); ev_t("form", f);
    if (!strcmp(op, "fmt")) { dt v = tk_dt(3); n = (size_t)tk_i(2); char *b = __real_malloc(n ? n : 1); memset(b, 0xEE, n ? n : 1); ev_i("len", (long long)n); ev_dt("v", v); ev_call();
        switch (*f) { case 'p': vt_datetime_to_text(v, b, n); break; case 'i': vt_datetime_to_text_iso(v, b, n); break; case 'e': vt_datetime_to_text_iso_ext(v, b, n); break; default: vt_datetime_to_text_pretty(v, b, n); }
        ev_ret(); ev_bytes("t", b, strnlen(b, n)); ev_b("term", strnlen(b, n) < n); ev_end(); __real_free(b); return; }
    if (!strcmp(op, "nowtext")) { n = (size_t)tk_i(2); char *b = __real_malloc(n); memset(b, 0xEE, n); ev_i("len", (long long)n); time_t a = time(NULL); ev_call(); if (*f == 'y') vt_datetime_get_now_as_text_pretty(b, n); else vt_datetime_get_now_as_text(b, n); ev_ret(); time_t c = time(NULL); ev_bytes("t", b, strnlen(b, n)); ev_b("term", strnlen(b, n) < n);
        ev_arr("cand"); for (time_t t = a; t <= c && t < a + 5; t++) { struct tm *m = localtime(&t); ev_arr_sep(); hx_fmt("{\"y\":%d,\"mo\":%d,\"d\":%d,\"h\":%d,\"mi\":%d,\"s\":%d,\"wd\":%d,\"yd\":%d}", m->tm_year + 1900, m->tm_mon + 1, m->tm_mday, m->tm_hour, m->tm_min, m->tm_sec, m->tm_wday ? m->tm_wday : 7, m->tm_yday + 1); } ev_arr_end(); ev_end(); return; }
    char *t = tk_hex(2, &n); ev_bytes("t", t, n);
    if (!strcmp(op, "valid")) { ev_call(); bool r = *f == 'p' ? vt_datetime_is_valid_text(t) : *f == 'i' ? vt_datetime_is_valid_text_iso(t) : vt_datetime_is_valid_text_iso_ext(t); ev_ret(); ev_b("ret", r); ev_end(); return; }
    if (!strcmp(op, "parse")) { ev_call(); dt r = *f == 'p' ? vt_datetime_from_text(t) : *f == 'i' ? vt_datetime_from_text_iso(t) : vt_datetime_from_text_iso_ext(t); ev_ret(); ev_dt("r", r); ev_end(); return; }
    if (!strcmp(op, "bad")) { int w = (int)tk_i(1); char b[64]; dt v = {2020, 1, 1, 0, 0, 0, 3, 1}; ev_i("w", w); ev_call();
        switch (w) { case 0: vt_datetime_to_text(v, NULL, 64); break; case 1: vt_datetime_to_text_iso(v, NULL, 64); break; case 2: vt_datetime_to_text_iso_ext(v, NULL, 64); break; case 3: vt_datetime_to_text_pretty(v, NULL, 64); break; case 4: vt_datetime_from_text(NULL); break; case 5: vt_datetime_from_text_iso(NULL); break; case 6: vt_datetime_from_text_iso_ext(NULL); break;
        case 7: vt_datetime_is_valid_text(NULL); break; case 8: vt_datetime_is_valid_text_iso(NULL); break; case 9: vt_datetime_is_valid_text_iso_ext(NULL); break; case 10: vt_datetime_get_now_as_text(NULL, 64); break; case 11: vt_datetime_get_now_as_text(b, 25); break; case 12: vt_datetime_get_now_as_text_pretty(NULL, 64); break; case 13: vt_datetime_get_now_as_text_pretty(b, 25); break; default: _exit(99); }
        ev_ret(); ev_end(); return; }
    fprintf(stderr, "unknown op %s\n", op); _exit(99);
}
