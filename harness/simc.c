/* Harness around fcron's command line programs (fcrontab, fcrondyn, convert-fcrontab): fake users,
 * PAM, clock and logs; exec of the helper fcronsighup is recorded, not done.
 * Credentials are the real ones: the driver starts the program with the uids a setuid program has. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <grp.h>
#include <pwd.h>
#include <time.h>
#include <syslog.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <signal.h>
#include <security/pam_appl.h>

extern int prog_main(int argc, char **argv);
static int logfd = -1;
ssize_t __real_write(int, const void *, size_t);
static void note(const char *fmt, ...)
{
    char t[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
    if (n > (int)sizeof t) n = sizeof t;
    if (logfd >= 0) { if (__real_write(logfd, t, n) < 0) {} }
}
/* Faults: FCSIM_CRASH=n: killed before its n-th operation on files; FCSIM_FAIL=n: that one fails, and with
 * FCSIM_STICKY=1 all from there on which need space; FCSIM_FSIZE=n: no file can grow beyond n bytes. */
static long fsop_count, crash_at, fail_at; static int fail_errno = ENOSPC, sticky;
static pid_t mainpid;
static char tracked[1100];
static long envl(const char *n, long d) { const char *e = getenv(n); return e ? atol(e) : d; }
static void faults(void)
{
    mainpid = getpid();
    crash_at = envl("FCSIM_CRASH", 0); fail_at = envl("FCSIM_FAIL", 0); sticky = envl("FCSIM_STICKY", 0);
    fail_errno = envl("FCSIM_ERRNO", ENOSPC);
    long k = envl("FCSIM_FSIZE", -1);
    if (k >= 0) { struct rlimit r = { k, k }; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &r); }
}
static int fsop(const char *op, const char *path, int space)
{
    if (getpid() != mainpid) return 0;
    fsop_count++;
    if (getenv("FCSIM_FSTRACE")) note("FS %ld %s\n", fsop_count, op);
    if (crash_at && fsop_count == crash_at) { note("CRASH %ld %s %s\n", fsop_count, op, path ? path : ""); return 2; }
    if (fail_at == fsop_count && !sticky && !space) fail_at++;
    if (fail_at && (fsop_count == fail_at || (sticky && fsop_count > fail_at)) && (space || !sticky)) { note("FSFAIL %ld %s\n", fsop_count, op); errno = fail_errno; return 1; }
    return 0;
}
#define FAULT(op, path, space) do { int r_ = fsop(op, path, space); if (r_ == 1) return -1; if (r_ == 2) _exit(77); } while (0)
int __real_open(const char *, int, ...); int __real_rename(const char *, const char *); int __real_unlink(const char *);
int __real_remove(const char *); ssize_t __real_write(int, const void *, size_t); int __real_close(int);
int __wrap_open(const char *p, int fl, ...)
{
    mode_t m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    int track = (fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && !strstr(p, "/dev/");
    if (track) FAULT("open", p, 1);
    int fd = __real_open(p, fl, m);
    if (fd >= 0 && fd < 1100) tracked[fd] = track;
    return fd;
}
int __wrap_close(int fd) { if (fd >= 0 && fd < 1100) tracked[fd] = 0; return __real_close(fd); }
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (fd >= 0 && fd < 1100 && tracked[fd]) FAULT("write", NULL, 1);
    return __real_write(fd, b, n);
}
int __wrap_rename(const char *a, const char *b) { FAULT("rename", a, 0); return __real_rename(a, b); }
int __wrap_unlink(const char *a) { FAULT("unlink", a, 0); return __real_unlink(a); }
int __wrap_remove(const char *a) { FAULT("remove", a, 0); return __real_remove(a); }
int __real_mkstemp(char *);
int __wrap_mkstemp(char *t)
{
    char p[PATH_MAX]; const char *d = getenv("FCSIM_TMP"), *b = strrchr(t, '/');
    FAULT("mkstemp", t, 1);
    if (!d || !b) return __real_mkstemp(t);
    snprintf(p, sizeof p, "%s%s", d, b);
    int fd = __real_mkstemp(p);
    if (fd >= 0) strcpy(t, p);
    return fd;
}
int __wrap_fdatasync(int fd) { (void)fd; FAULT("fdatasync", NULL, 1); return 0; }
int __wrap_fsync(int fd) { (void)fd; FAULT("fsync", NULL, 1); return 0; }
int main(int argc, char **argv)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const char *l = getenv("FCSIM_LOGFD");
    if (l) logfd = atoi(l);
    faults();
    return prog_main(argc, argv);
}
struct upw { char name[64]; long uid, gid; char home[256], shell[128], pass[128]; };
static char *pwdb;
static int load_user(int byname, const char *name, long uid, struct upw *u)
{
    if (!pwdb) { const char *e = getenv("FCSIM_PWDB"); pwdb = strdup(e ? e : ""); }
    char *all = strdup(pwdb), *line, *ap = all;
    while ((line = strsep(&ap, ";"))) {
        memset(u, 0, sizeof *u);
        char *p = line, *q[6]; int i;
        for (i = 0; i < 6; i++) { q[i] = strsep(&p, ":"); if (!q[i]) break; }
        if (i < 6) continue;
        snprintf(u->name, sizeof u->name, "%s", q[0]); u->uid = atol(q[1]); u->gid = atol(q[2]);
        snprintf(u->home, sizeof u->home, "%s", q[3]); snprintf(u->shell, sizeof u->shell, "%s", q[4]);
        snprintf(u->pass, sizeof u->pass, "%s", q[5]);
        if (byname ? !strcmp(u->name, name) : u->uid == uid) { free(all); return 1; }
    }
    free(all);
    return 0;
}
static struct passwd *mkpw(struct upw *u)
{
    static struct passwd pw; static struct upw keep;
    keep = *u;
    pw.pw_name = keep.name; pw.pw_passwd = keep.pass; pw.pw_uid = keep.uid; pw.pw_gid = keep.gid;
    pw.pw_gecos = ""; pw.pw_dir = keep.home; pw.pw_shell = keep.shell;
    return &pw;
}
struct passwd *__wrap_getpwnam(const char *n) { struct upw u; errno = 0; return load_user(1, n, 0, &u) ? mkpw(&u) : NULL; }
struct passwd *__wrap_getpwuid(uid_t i) { struct upw u; errno = 0; return load_user(0, NULL, i, &u) ? mkpw(&u) : NULL; }
struct group *__wrap_getgrnam(const char *n)
{
    static struct group g; static char *none[1] = { NULL }; struct upw u;
    errno = 0;
    if (!load_user(1, n, 0, &u)) return NULL;
    g.gr_name = (char *)n; g.gr_passwd = ""; g.gr_gid = u.gid; g.gr_mem = none;
    return &g;
}
void __wrap_openlog(const char *i, int o, int f) { (void)i; (void)o; (void)f; }
void __wrap_closelog(void) {}
void __wrap_vsyslog(int pri, const char *fmt, va_list ap)
{
    char t[3000]; vsnprintf(t, sizeof t, fmt, ap); note("LOG %d %s\n", pri & 7, t);
}
void __wrap_syslog(int pri, const char *fmt, ...) { va_list ap; va_start(ap, fmt); __wrap_vsyslog(pri, fmt, ap); va_end(ap); }
void __wrap___syslog_chk(int pri, int f, const char *fmt, ...) { (void)f; va_list ap; va_start(ap, fmt); __wrap_vsyslog(pri, fmt, ap); va_end(ap); }
int __wrap_is_selinux_enabled(void) { return 0; }
static int pamret(const char *f) { const char *e = getenv("FCSIM_PAMFAIL"); return e && !strcmp(e, f) ? PAM_PERM_DENIED : PAM_SUCCESS; }
int __wrap_pam_start(const char *s, const char *u, const struct pam_conv *c, pam_handle_t **h) { (void)c; *h = (pam_handle_t *)&logfd; note("PAM %s %s\n", s, u); return pamret("start"); }
int __wrap_pam_authenticate(pam_handle_t *h, int f) { (void)h; (void)f; return pamret("auth"); }
int __wrap_pam_acct_mgmt(pam_handle_t *h, int f) { (void)h; (void)f; return pamret("acct"); }
int __wrap_pam_setcred(pam_handle_t *h, int f) { (void)h; return (f & PAM_ESTABLISH_CRED) ? pamret("cred") : PAM_SUCCESS; }
int __wrap_pam_open_session(pam_handle_t *h, int f) { (void)h; (void)f; return pamret("session"); }
int __wrap_pam_close_session(pam_handle_t *h, int f) { (void)h; (void)f; return PAM_SUCCESS; }
int __wrap_pam_end(pam_handle_t *h, int s) { (void)h; (void)s; return PAM_SUCCESS; }
char **__wrap_pam_getenvlist(pam_handle_t *h) { (void)h; char **e = calloc(1, sizeof *e); return e; }
const char *__wrap_pam_strerror(pam_handle_t *h, int e) { (void)h; (void)e; return "pam error"; }
time_t __wrap_time(time_t *t) { const char *e = getenv("FCSIM_TIME"); time_t v = e ? atoll(e) : 1000000000; if (t) *t = v; return v; }
int __wrap_execl(const char *p, const char *a0, ...)
{
    (void)a0;
    note("EXECL %s ruid=%d euid=%d rgid=%d egid=%d\n", p, (int)getuid(), (int)geteuid(), (int)getgid(), (int)getegid());
    _exit(0);
}
int __wrap_execlp(const char *p, const char *a0, ...)
{
    va_list ap; char *s = NULL, *argv[8]; int n = 0;
    (void)a0;
    va_start(ap, a0); while (n < 7 && (argv[n] = va_arg(ap, char *))) n++; va_end(ap);
    note("EXECLP %s ruid=%d euid=%d rgid=%d egid=%d cmd=%s\n", p, (int)getuid(), (int)geteuid(), (int)getgid(), (int)getegid(), n > 1 ? argv[1] : "");
    /* the "editor": copy $FCSIM_EDIT over the file named last */
    s = getenv("FCSIM_EDIT");
    if (s && n > 2) {
        int fd = open(argv[2], O_WRONLY | O_TRUNC);
        if (fd >= 0) { if (write(fd, s, strlen(s)) < 0) {} 
            struct timespec ts[2] = {{4000000000L, 0}, {4000000000L, 0}}; futimens(fd, ts); close(fd); _exit(0); }
        note("EDITFAIL %s\n", strerror(errno));
        _exit(3);
    }
    _exit(0);
}
