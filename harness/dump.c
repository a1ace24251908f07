/* Reports what the daemon has loaded: every entry of every fcrontab, read through fcron's own headers. */
#ifdef NO_DUMP
void fc_dump(void (*out)(const char *)) { out("{\"ev\":\"baddump\"}"); }
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fcron.h"
#include "env_list.h"

static char *b; static size_t bn, bm;
static void put(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    char *t = NULL; int n = vasprintf(&t, fmt, ap); va_end(ap);
    if (bn + n + 1 > bm) { bm = (bn + n + 1) * 2; b = realloc(b, bm); }
    memcpy(b + bn, t, n + 1); bn += n; free(t);
}
static void str(const char *k, const char *s)
{
    put(",\"%s\":\"", k);
    for (; s && *s; s++) put("%02x", (unsigned char)*s);
    put("\"");
}
static void bits(const char *k, bitstr_t *a, int from, int to)
{
    int any = 0;
    put(",\"%s\":[", k);
    for (int i = from; i <= to; i++) if (bit_test(a, i)) put("%s%d", any++ ? "," : "", i);
    put("]");
}
static void num(const char *k, long v) { if (v > 2000000000L) v = -2; put(",\"%s\":%ld", k, v); }
void fc_dump(void (*out)(const char *))
{
    for (cf_t *f = file_base; f; f = f->cf_next) {
        bn = 0;
        put("{\"ev\":\"dfile\""); str("user", f->cf_user); num("tzdiff", f->cf_tzdiff);
        put(",\"env\":[");
        int n = 0;
        for (env_t *e = env_list_first(f->cf_env_list); e; e = env_list_next(f->cf_env_list)) {
            put("%s\"", n++ ? "," : "");
            for (char *s = e->e_envvar; *s; s++) put("%02x", (unsigned char)*s);
            put("\"");
        }
        put("]}"); out(b);
        for (cl_t *l = f->cf_line_base; l; l = l->cl_next) {
            unsigned char *o = l->cl_option;
            int td = is_td(o), per = is_freq_periodically(o);
            bn = 0;
            put("{\"ev\":\"dline\""); str("user", f->cf_user); str("cmd", l->cl_shell); str("runas", l->cl_runas);
            str("mailto", l->cl_mailto); str("mailfrom", l->cl_mailfrom); str("tz", l->cl_tz);
            num("td", !!td); num("until", l->cl_until); num("nice", l->cl_nice); num("jitter", l->cl_jitter);
            num("runfreq", l->cl_runfreq);
            for (int i = 0; i < 3; i++) { char k[8]; snprintf(k, 8, "lavg%d", i); num(k, is_lavg(o) ? l->cl_lavg[i] : 0); }
            if (td) {
                bits("mins", l->cl_mins, 0, 59); bits("hrs", l->cl_hrs, 0, 23); bits("days", l->cl_days, 1, 31);
                bits("mons", l->cl_mons, 0, 11); bits("dow", l->cl_dow, 0, 7);
            }
            else { num("freq", l->cl_timefreq); num("first", l->cl_first); }
#define O(n, e) num(n, !!(e))
            O("lavgor", is_lor(o)); O("dayor", is_dayor(o)); O("bootrun", is_bootrun(o)); O("serial", is_serial(o));
            O("mail", is_mail(o)); O("forcemail", is_mailzerolength(o)); O("exesev", is_exe_sev(o));
            O("serialonce", !is_serial_sev(o)); O("lavgonce", !is_lavg_sev(o)); O("strict", is_strict(o));
            O("noticenotrun", is_notice_notrun(o)); O("nolog", is_nolog(o)); O("random", is_random(o));
            O("volatile", is_volatile(o)); O("stdout", is_stdout(o)); O("erroronlymail", is_erroronlymail(o));
            O("rebootreset", is_rebootreset(o)); O("runatreboot", is_runatreboot(o)); O("runonce", is_runonce(o));
            O("runatresume", is_runatresume(o));
            O("per", per); O("mid", is_freq_mid(o));
            O("fmins", is_freq_mins(o)); O("fhrs", is_freq_hrs(o)); O("fdays", is_freq_days(o)); O("fmons", is_freq_mons(o)); O("fdow", is_freq_dow(o));
            put("}"); out(b);
        }
    }
}
#endif
