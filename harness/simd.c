/* Harness around the unmodified fcron daemon.
 *
 * Every call the daemon makes to the outside world that matters here (clock, select, processes,
 * users, mail, logs, load average, random numbers, privileged operations) is diverted with
 * the linker's --wrap.  Nothing of fcron itself is named in this file except its main():
 * what is driven and observed is the program's behaviour at the libc boundary.
 *
 * Control protocol: a SOCK_SEQPACKET socket, fd CTL_FD.  The harness (and the children forked by
 * the daemon) send JSON events; the driver sends commands, read only while the daemon is blocked
 * (select(), a blocking waitpid(), sleep()).
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <grp.h>
#include <pwd.h>
#include <shadow.h>
#include <dirent.h>
#include <syslog.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/timerfd.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <security/pam_appl.h>

#define CTL_FD 1000
#define MAXSLOT 65536
#define MSGMAX 180000

#define R(ret, name, ...) extern ret __real_##name(__VA_ARGS__)

/* ------------------------------------------------------------------ shared state */
struct slot { volatile int pid; volatile int parked; volatile int used; };
struct shared {
    volatile long long vus;            /* virtual wall clock, us since the epoch */
    volatile long long mono;           /* virtual CLOCK_MONOTONIC, us */
    volatile long long boot;           /* virtual CLOCK_BOOTTIME, us */
    volatile int nslots;
    struct slot slots[MAXSLOT];
};
static struct shared *sh;
static int is_daemon = 1;              /* 0 in the children of the daemon */
static int my_slot = -1;
static pid_t root_pid;
static double la[3];
static int peer_q[256], peer_h, peer_t;
static int pw_auth_only;               /* SO_PEERCRED fails */
static int timer_fd = -1;
static char rand_mode[16] = "real";
static unsigned long rng = 88172645463325252UL;
static int fail_fork_at = 0, fork_count = 0;
static int fstrace = 0;
static long fsop_count = 0, crash_at = 0, fail_at = 0;
static int fail_errno = 28, crash_partial = 0, fail_sticky = 0;
static char pam_fail[64] = "";
static long sim_euid = 0, sim_egid = 0, sim_ruid = 0, sim_rgid = 0;
static char sim_groups[256] = "root";
static int sim_nice = 0;
static char sendmail_path[256] = "/vsendmail";
static char spool_dir[512] = "";
static volatile int sigchld_pending_window;

/* ------------------------------------------------------------------ events */
struct buf { char *p; size_t n, cap; };
static void bput(struct buf *b, const char *s, size_t n)
{
    if (b->n + n + 1 > b->cap) {
        b->cap = (b->n + n + 1) * 2;
        b->p = realloc(b->p, b->cap);
    }
    memcpy(b->p + b->n, s, n);
    b->n += n;
    b->p[b->n] = 0;
}
static void bputs(struct buf *b, const char *s) { bput(b, s, strlen(s)); }
static void bfmt(struct buf *b, const char *f, ...)
{
    char t[512];
    va_list ap;
    va_start(ap, f);
    vsnprintf(t, sizeof t, f, ap);
    va_end(ap);
    bputs(b, t);
}
static void bstrn(struct buf *b, const char *s, size_t n)
{
    bputs(b, "\"");
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') bfmt(b, "\\%c", c);
        else if (c < 32 || c >= 127) bfmt(b, "\\u%04x", c);
        else bput(b, (char *)&c, 1);
    }
    bputs(b, "\"");
}
static void bstr(struct buf *b, const char *s) { if (s) bstrn(b, s, strlen(s)); else bputs(b, "null"); }
static void emit(struct buf *b)
{
    size_t n = b->n > MSGMAX ? MSGMAX : b->n;
    while (send(CTL_FD, b->p, n, MSG_NOSIGNAL) < 0) {
        if (errno == EINTR) continue;
        if (errno == ENOBUFS || errno == EAGAIN) { struct timespec t = {0, 200000}; nanosleep(&t, 0); continue; }
        _exit(97);                     /* the driver is gone */
    }
    free(b->p);
}
static void emit_simple(const char *ev, const char *fmt, ...)
{
    struct buf b = {0};
    char t[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(t, sizeof t, fmt, ap);
    va_end(ap);
    bfmt(&b, "{\"ev\":\"%s\"%s%s}", ev, *t ? "," : "", t);
    emit(&b);
}

/* ------------------------------------------------------------------ init */
extern int fcron_main(int argc, char **argv);
static void parse_cmd(char *cmd);

int main(int argc, char **argv)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    root_pid = getpid();
    const char *t = getenv("FCSIM_START");
    sh->vus = t ? atoll(t) : 1000000000000000LL;
    t = getenv("FCSIM_BOOT");
    sh->mono = sh->boot = t ? atoll(t) : 100000000LL;
    t = getenv("FCSIM_INIT");          /* commands applied before main() */
    if (t) {
        char *c = strdup(t), *s, *save = NULL;
        for (s = strtok_r(c, ";", &save); s; s = strtok_r(NULL, ";", &save)) parse_cmd(s);
    }
    unsetenv("FCSIM_START"); unsetenv("FCSIM_BOOT"); unsetenv("FCSIM_INIT");
    sigset_t ss;
    sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
    sigprocmask(SIG_BLOCK, &ss, NULL);
    return fcron_main(argc, argv);
}

/* ------------------------------------------------------------------ users */
struct upw { char name[64]; long uid, gid; char home[256], shell[128], pass[128]; };
static int load_user(int byname, const char *name, long uid, struct upw *u)
{
    const char *fn = getenv("FCSIM_PASSWD");
    char line[1024];
    FILE *f = fn ? fopen(fn, "r") : NULL;
    if (!f) return 0;
    while (fgets(line, sizeof line, f)) {
        memset(u, 0, sizeof *u);
        line[strcspn(line, "\n")] = 0;
        char *p = line, *q[6]; int i;
        for (i = 0; i < 6; i++) { q[i] = strsep(&p, ":"); if (!q[i]) break; }
        if (i < 6) continue;
        snprintf(u->name, sizeof u->name, "%s", q[0]); u->uid = atol(q[1]); u->gid = atol(q[2]);
        snprintf(u->home, sizeof u->home, "%s", q[3]); snprintf(u->shell, sizeof u->shell, "%s", q[4]);
        snprintf(u->pass, sizeof u->pass, "%s", q[5]);
        if (byname ? !strcmp(u->name, name) : u->uid == uid) { fclose(f); return 1; }
    }
    fclose(f);
    return 0;
}
static struct passwd *mkpw(struct upw *u)
{
    static struct passwd pw; static struct upw keep;
    keep = *u;
    pw.pw_name = keep.name; pw.pw_passwd = keep.pass; pw.pw_uid = keep.uid; pw.pw_gid = keep.gid;
    pw.pw_gecos = ""; pw.pw_dir = keep.home; pw.pw_shell = keep.shell;
    return &pw;
}
struct passwd *__wrap_getpwnam(const char *n) { struct upw u; errno = 0; return load_user(1, n, 0, &u) ? mkpw(&u) : NULL; }
struct passwd *__wrap_getpwuid(uid_t i) { struct upw u; errno = 0; return load_user(0, NULL, i, &u) ? mkpw(&u) : NULL; }
struct spwd *__wrap_getspnam(const char *n)
{
    static struct spwd sp; static struct upw u; static char h[256];
    if (!load_user(1, n, 0, &u)) return NULL;
    snprintf(h, sizeof h, "$S$%s", u.pass);
    sp.sp_namp = u.name; sp.sp_pwdp = h;
    return &sp;
}
char *__wrap_crypt(const char *k, const char *salt)
{
    static char h[512];
    (void)salt;
    snprintf(h, sizeof h, "$S$%s", k);
    return h;
}
struct group *__wrap_getgrnam(const char *n)
{
    static struct group g; static char *none[1] = { NULL }; struct upw u;
    errno = 0;
    if (!load_user(1, n, 0, &u)) return NULL;
    g.gr_name = (char *)n; g.gr_passwd = ""; g.gr_gid = u.gid; g.gr_mem = none;
    return &g;
}

/* ------------------------------------------------------------------ clock */
R(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
R(pid_t, waitpid, pid_t, int *, int);
time_t __wrap_time(time_t *t) { time_t v = sh->vus / 1000000; if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz; tv->tv_sec = sh->vus / 1000000; tv->tv_usec = sh->vus % 1000000; return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    long long v = c == CLOCK_MONOTONIC ? sh->mono : c == CLOCK_BOOTTIME ? sh->boot : sh->vus;
    ts->tv_sec = v / 1000000; ts->tv_nsec = (v % 1000000) * 1000;
    return 0;
}
static void advance(long long us) { sh->vus += us; sh->mono += us; sh->boot += us; }

/* ------------------------------------------------------------------ random, load, host */
R(int, rand, void);
int __wrap_rand(void)
{
    if (!strcmp(rand_mode, "min")) return 0;
    if (!strcmp(rand_mode, "max")) return RAND_MAX;
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return (int)(rng & RAND_MAX);
}
void __wrap_srand(unsigned s) { (void)s; }
long __wrap_random(void) { return __wrap_rand(); }
int __wrap_getloadavg(double *l, int n) { for (int i = 0; i < n && i < 3; i++) l[i] = la[i]; return n > 3 ? 3 : n; }
int __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }

/* ------------------------------------------------------------------ logs */
void __wrap_openlog(const char *i, int o, int f) { (void)i; (void)o; (void)f; }
void __wrap_closelog(void) {}
void __wrap_vsyslog(int pri, const char *fmt, va_list ap)
{
    char t[4096];
    vsnprintf(t, sizeof t, fmt, ap);
    struct buf b = {0};
    bfmt(&b, "{\"ev\":\"log\",\"pri\":%d,\"d\":%d,\"t\":%lld,\"m\":", pri & 7, is_daemon, sh->vus / 1000000);
    bstr(&b, t); bputs(&b, "}");
    emit(&b);
}
void __wrap_syslog(int pri, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); __wrap_vsyslog(pri, fmt, ap); va_end(ap);
}
void __wrap___syslog_chk(int pri, int flag, const char *fmt, ...)
{
    (void)flag; va_list ap; va_start(ap, fmt); __wrap_vsyslog(pri, fmt, ap); va_end(ap);
}

/* ------------------------------------------------------------------ credentials: recorded, never changed */
uid_t __wrap_getuid(void) { return sim_ruid; }
uid_t __wrap_geteuid(void) { return sim_euid; }
gid_t __wrap_getgid(void) { return sim_rgid; }
gid_t __wrap_getegid(void) { return sim_egid; }
static int may(long want, long r, long e) { return sim_euid == 0 || want == r || want == e; }
int __wrap_setuid(uid_t u) { if (!may(u, sim_ruid, sim_euid)) { errno = EPERM; return -1; } sim_ruid = sim_euid = u; return 0; }
int __wrap_setgid(gid_t g) { if (!may(g, sim_rgid, sim_egid)) { errno = EPERM; return -1; } sim_rgid = sim_egid = g; return 0; }
int __wrap_seteuid(uid_t u) { if (!may(u, sim_ruid, sim_euid) && sim_ruid != 0) { errno = EPERM; return -1; } sim_euid = u; return 0; }
int __wrap_setegid(gid_t g) { if (!may(g, sim_rgid, sim_egid) && sim_ruid != 0) { errno = EPERM; return -1; } sim_egid = g; return 0; }
int __wrap_setreuid(uid_t r, uid_t e) { if (sim_euid) { errno = EPERM; return -1; } if (r != (uid_t)-1) sim_ruid = r; if (e != (uid_t)-1) sim_euid = e; return 0; }
int __wrap_setregid(gid_t r, gid_t e) { if (sim_euid) { errno = EPERM; return -1; } if (r != (gid_t)-1) sim_rgid = r; if (e != (gid_t)-1) sim_egid = e; return 0; }
int __wrap_setresuid(uid_t r, uid_t e, uid_t s) { (void)s; return __wrap_setreuid(r, e); }
int __wrap_setresgid(gid_t r, gid_t e, gid_t s) { (void)s; return __wrap_setregid(r, e); }
int __wrap_initgroups(const char *n, gid_t g)
{
    if (sim_euid) { errno = EPERM; return -1; }
    snprintf(sim_groups, sizeof sim_groups, "%s:%d", n, (int)g); return 0;
}
int __wrap_setgroups(size_t n, const gid_t *g) { (void)g; if (sim_euid) { errno = EPERM; return -1; } snprintf(sim_groups, sizeof sim_groups, "#%zu", n); return 0; }
int __wrap_nice(int n) { if (n < 0 && sim_euid != 0) { errno = EPERM; return -1; } sim_nice += n; errno = 0; return sim_nice; }
pid_t __wrap_setsid(void) { return getpid(); }
int __wrap_setpriority(__priority_which_t w, id_t who, int p)
{
    emit_simple("setpriority", "\"which\":%d,\"pid\":%d,\"prio\":%d", (int)w, (int)who, p);
    return 0;
}
int __wrap_kill(pid_t p, int s)
{
    emit_simple("kill", "\"pid\":%d,\"sig\":%d", (int)p, s);
    if (s < 0 || s > 64) { errno = EINVAL; return -1; }
    return 0;
}
int __wrap_is_selinux_enabled(void) { return 0; }

/* ------------------------------------------------------------------ PAM */
static int pamret(const char *f) { return strcmp(pam_fail, f) ? PAM_SUCCESS : PAM_PERM_DENIED; }
int __wrap_pam_start(const char *s, const char *u, const struct pam_conv *c, pam_handle_t **h)
{
    (void)c; *h = (pam_handle_t *)&sim_nice;
    struct buf b = {0};
    bputs(&b, "{\"ev\":\"pam\",\"svc\":"); bstr(&b, s); bputs(&b, ",\"user\":"); bstr(&b, u); bputs(&b, "}");
    emit(&b);
    return pamret("start");
}
int __wrap_pam_authenticate(pam_handle_t *h, int f) { (void)h; (void)f; return pamret("auth"); }
int __wrap_pam_acct_mgmt(pam_handle_t *h, int f) { (void)h; (void)f; return pamret("acct"); }
int __wrap_pam_setcred(pam_handle_t *h, int f) { (void)h; return (f & PAM_ESTABLISH_CRED) ? pamret("cred") : PAM_SUCCESS; }
int __wrap_pam_open_session(pam_handle_t *h, int f) { (void)h; (void)f; return pamret("session"); }
int __wrap_pam_close_session(pam_handle_t *h, int f) { (void)h; (void)f; return PAM_SUCCESS; }
int __wrap_pam_end(pam_handle_t *h, int s) { (void)h; (void)s; return PAM_SUCCESS; }
char **__wrap_pam_getenvlist(pam_handle_t *h)
{
    (void)h;
    char **e = calloc(2, sizeof *e);
    e[0] = strdup("PAMVAR=pamvalue");
    return e;
}
const char *__wrap_pam_strerror(pam_handle_t *h, int e) { (void)h; (void)e; return "pam error"; }

/* ------------------------------------------------------------------ processes */
R(pid_t, fork, void);
pid_t __wrap_fork(void)
{
    pid_t parent = getpid();
    if (is_daemon) {
        fork_count++;
        if (fail_fork_at && --fail_fork_at == 0) { emit_simple("forkfail", ""); errno = EAGAIN; return -1; }
        if (fork_count == 1 && getenv("FCSIM_BG")) return 0;   /* going to background: stay this process */
        int s = sh->nslots++;
        sh->slots[s].used = 1; sh->slots[s].parked = 0; sh->slots[s].pid = 0;
        pid_t p = __real_fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent) _exit(97);
            is_daemon = 0; my_slot = s; crash_at = fail_at = 0;
            return 0;
        }
        sh->slots[s].pid = p;
        emit_simple("fork", "\"slot\":%d,\"pid\":%d,\"t\":%lld", s, (int)p, sh->vus / 1000000);
        return p;
    }
    pid_t p = __real_fork();
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(97); }
    return p;
}
pid_t __wrap_vfork(void) { return __wrap_fork(); }

static void slurp_fd(int fd, struct buf *out)
{
    char t[4096]; ssize_t n;
    while ((n = read(fd, t, sizeof t)) > 0 && out->n < 150000) bput(out, t, n);
}
static int do_exec(const char *path, char *const argv[], char *const envp[])
{
    struct buf b = {0};
    char cwd[1024];
    mode_t um = umask(0); umask(um);
    if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
    int mail = !strcmp(path, sendmail_path);
    bfmt(&b, "{\"ev\":\"%s\",\"slot\":%d,\"pid\":%d,\"t\":%lld,\"ruid\":%ld,\"euid\":%ld,\"rgid\":%ld,\"egid\":%ld,\"umask\":%d,\"nice\":%d,\"groups\":",
         mail ? "mail" : "exec", my_slot, (int)getpid(), sh->vus / 1000000, sim_ruid, sim_euid, sim_rgid, sim_egid, (int)um, sim_nice);
    bstr(&b, sim_groups); bputs(&b, ",\"cwd\":"); bstr(&b, cwd); bputs(&b, ",\"path\":"); bstr(&b, path);
    bputs(&b, ",\"argv\":[");
    for (int i = 0; argv[i]; i++) { if (i) bputs(&b, ","); bstr(&b, argv[i]); }
    bputs(&b, "],\"env\":[");
    for (int i = 0; envp && envp[i]; i++) { if (i) bputs(&b, ","); bstr(&b, envp[i]); }
    bputs(&b, "],\"sig\":[");
    int first = 1;
    int sigs[] = { SIGTERM, SIGCHLD, SIGHUP, SIGUSR1, SIGUSR2, SIGPIPE };
    for (int i = 0; i < 6; i++) {
        struct sigaction sa;
        sigaction(sigs[i], NULL, &sa);
        if (sa.sa_handler == SIG_IGN) { bfmt(&b, "%s%d", first ? "" : ",", sigs[i]); first = 0; }
    }
    bputs(&b, "]");
    if (mail) {
        struct buf m = {0};
        slurp_fd(0, &m);
        bputs(&b, ",\"body\":"); bstrn(&b, m.p ? m.p : "", m.n);
        bputs(&b, "}"); emit(&b);
        _exit(0);
    }
    bputs(&b, "}");
    /* park: wait for the driver to say how the job ends */
    int s = socket(AF_UNIX, SOCK_DGRAM, 0);
    struct sockaddr_un a = { .sun_family = AF_UNIX };
    int l = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "fcsim-%d-%d", (int)root_pid, my_slot);
    bind(s, (struct sockaddr *)&a, offsetof(struct sockaddr_un, sun_path) + 1 + l);
    emit(&b);
    if (my_slot >= 0) { __sync_synchronize(); sh->slots[my_slot].parked = 1; }
    for (;;) {
        static char t[70000];
        ssize_t n = recv(s, t, sizeof t - 1, 0);
        if (n <= 0) { if (errno == EINTR) continue; _exit(98); }
        t[n] = 0;
        if (t[0] == 'o') { for (ssize_t o = 1; o < n;) { ssize_t w = write(1, t + o, n - o); if (w <= 0) break; o += w; } }
        else if (t[0] == 'e') { for (ssize_t o = 1; o < n;) { ssize_t w = write(2, t + o, n - o); if (w <= 0) break; o += w; } }
        else if (t[0] == 'x') _exit(atoi(t + 1));
        else if (t[0] == 'k') {
            int sg = atoi(t + 1);
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            signal(sg, SIG_DFL);
            sigset_t ss; sigfillset(&ss); sigprocmask(SIG_UNBLOCK, &ss, NULL);
            raise(sg); _exit(99);
        }
    }
}
int __wrap_execve(const char *p, char *const a[], char *const e[]) { return do_exec(p, a, e); }
int __wrap_execv(const char *p, char *const a[]) { extern char **environ; return do_exec(p, a, environ); }
int __wrap_execvp(const char *p, char *const a[]) { extern char **environ; return do_exec(p, a, environ); }
int __wrap_execle(const char *p, const char *a0, ...)
{
    char *argv[64]; int n = 0; va_list ap;
    argv[n++] = (char *)a0;
    va_start(ap, a0);
    while (n < 63 && (argv[n] = va_arg(ap, char *))) n++;
    argv[n] = NULL;
    char **envp = va_arg(ap, char **);
    va_end(ap);
    return do_exec(p, argv, envp);
}
int __wrap_execl(const char *p, const char *a0, ...)
{
    extern char **environ;
    char *argv[64]; int n = 0; va_list ap;
    argv[n++] = (char *)a0;
    va_start(ap, a0);
    while (n < 63 && (argv[n] = va_arg(ap, char *))) n++;
    argv[n] = NULL;
    va_end(ap);
    return do_exec(p, argv, environ);
}
int __wrap_execlp(const char *p, const char *a0, ...)
{
    extern char **environ;
    char *argv[64]; int n = 0; va_list ap;
    argv[n++] = (char *)a0;
    va_start(ap, a0);
    while (n < 63 && (argv[n] = va_arg(ap, char *))) n++;
    argv[n] = NULL;
    va_end(ap);
    return do_exec(p, argv, environ);
}

/* wait until every child of the daemon is either a zombie or a parked job */
static int settle(void)
{
    int any_zombie = 0;
    for (int i = 0; i < sh->nslots; i++) {
        struct slot *s = &sh->slots[i];
        if (!s->used || !s->pid) continue;
        for (long tries = 0;; tries++) {
            siginfo_t si;
            memset(&si, 0, sizeof si);
            if (waitid(P_PID, s->pid, &si, WEXITED | WNOHANG | WNOWAIT) != 0) { s->used = 0; break; }
            if (si.si_pid == s->pid) { any_zombie = 1; break; }
            if (s->parked) break;
            if (tries > 100000) { emit_simple("stuck", "\"slot\":%d,\"pid\":%d", i, s->pid); break; }
            struct timespec t = { 0, tries < 20 ? 30000 : 200000 };
            nanosleep(&t, NULL);
        }
    }
    return any_zombie;
}

static void unhex(const char *h, char *out, size_t *n)
{
    *n = 0;
    while (h[0] && h[1]) { char t[3] = { h[0], h[1], 0 }; out[(*n)++] = strtol(t, NULL, 16); h += 2; }
}
static void send_job(int slot, const char *p, size_t n)
{
    static int s = -1;
    if (s < 0) s = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    struct sockaddr_un a = { .sun_family = AF_UNIX };
    int l = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "fcsim-%d-%d", (int)root_pid, slot);
    if (sendto(s, p, n, 0, (struct sockaddr *)&a, offsetof(struct sockaddr_un, sun_path) + 1 + l) < 0)
        emit_simple("badjob", "\"slot\":%d", slot);
    close(s); s = -1;
}

extern void fc_dump(void (*out)(const char *));
static void emit_text(const char *t) { struct buf b = {0}; bputs(&b, t); emit(&b); }
static void parse_cmd(char *c)
{
    if (!strncmp(c, "finish ", 7)) {   /* finish SLOT xN|kN [hexout] */
        int slot; char how[32] = "", *hex = malloc(strlen(c) + 1); hex[0] = 0;
        sscanf(c + 7, "%d %31s %s", &slot, how, hex);
        if (slot >= 0 && slot < sh->nslots) {
            sh->slots[slot].parked = 0;
            if (hex[0]) {
                char *o = malloc(strlen(hex) + 2); size_t n;
                o[0] = 'o'; unhex(hex, o + 1, &n); send_job(slot, o, n + 1); free(o);
            }
            send_job(slot, how, strlen(how));
        }
        free(hex);
    }
    else if (!strncmp(c, "load ", 5)) sscanf(c + 5, "%lf %lf %lf", &la[0], &la[1], &la[2]);
    else if (!strncmp(c, "peer ", 5)) { peer_q[peer_t++ % 256] = atoi(c + 5); }
    else if (!strncmp(c, "pwauth ", 7)) pw_auth_only = atoi(c + 7);
    else if (!strncmp(c, "suspend ", 8)) { long long u = atoll(c + 8); sh->vus += u; sh->boot += u; }
    else if (!strncmp(c, "clock ", 6)) { long long u = atoll(c + 6); sh->vus += u; }
    else if (!strcmp(c, "timer")) { if (timer_fd >= 0) { unsigned long long one = 1; if (write(timer_fd, &one, 8) < 0) {} } }
    else if (!strncmp(c, "rand ", 5)) { snprintf(rand_mode, sizeof rand_mode, "%s", c + 5); }
    else if (!strncmp(c, "seed ", 5)) { rng = strtoul(c + 5, NULL, 10) * 2654435761UL + 88172645463325252UL; }
    else if (!strncmp(c, "forkfail ", 9)) fail_fork_at = atoi(c + 9);
    else if (!strncmp(c, "pamfail", 7)) snprintf(pam_fail, sizeof pam_fail, "%s", c[7] ? c + 8 : "");
    else if (!strncmp(c, "fstrace ", 8)) fstrace = atoi(c + 8);
    else if (!strncmp(c, "crash ", 6)) { crash_at = 0; crash_partial = 0; sscanf(c + 6, "%ld %d", &crash_at, &crash_partial); if (crash_at) crash_at += fsop_count; }
    else if (!strncmp(c, "fsfail ", 7)) { fail_at = 0; fail_sticky = 0; sscanf(c + 7, "%ld %d %d", &fail_at, &fail_errno, &fail_sticky); if (fail_at) fail_at += fsop_count; }
    else if (!strncmp(c, "sendmail ", 9)) snprintf(sendmail_path, sizeof sendmail_path, "%s", c + 9);
    else if (!strncmp(c, "spool ", 6)) snprintf(spool_dir, sizeof spool_dir, "%s", c + 6);
    else if (!strcmp(c, "dump")) fc_dump(emit_text);
    else { emit_simple("badcmd", ""); }
}

/* run the command loop until "go DELTA [SIG...]"; returns the signals asked for */
static long long go_delta;
static int cmd_loop(int *sigs, int max)
{
    static char c[400000];
    for (;;) {
        ssize_t n = recv(CTL_FD, c, sizeof c - 1, 0);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) _exit(96);
        c[n] = 0;
        if (!strncmp(c, "go ", 3)) {
            int k = 0; char *p = c + 3;
            go_delta = strtoll(p, &p, 10);
            while (*p && k < max) { int s = strtol(p, &p, 10); if (s) sigs[k++] = s; while (*p == ' ') p++; }
            advance(go_delta);
            return k;
        }
        if (!strcmp(c, "quit")) _exit(0);
        parse_cmd(c);
    }
}
static int deliver(int *sigs, int k)
{
    int any = 0;
    sigset_t ss, old;
    for (int i = 0; i < k; i++) { raise(sigs[i]); any = 1; }
    if (settle()) {
        sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
        sigprocmask(SIG_UNBLOCK, &ss, &old);   /* a pending SIGCHLD is handled here */
        raise(SIGCHLD);
        sigprocmask(SIG_BLOCK, &ss, NULL);
        any = 1;
    }
    return any;
}

int __wrap_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    (void)w; (void)e;
    settle();
    emit_simple("select", "\"now\":%lld,\"timeout\":%lld,\"nfds\":%d,\"fsops\":%ld", sh->vus,
                tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1LL, nfds, fsop_count);
    int sigs[16], k = cmd_loop(sigs, 16);
    int intr = deliver(sigs, k);
    struct pollfd pf[1024]; int n = 0;
    for (int i = 0; i < nfds && r; i++)
        if (FD_ISSET(i, r)) { pf[n].fd = i; pf[n].events = POLLIN; pf[n].revents = 0; n++; }
    int got = 0;
    if (n) poll(pf, n, 0);
    fd_set out; FD_ZERO(&out);
    for (int i = 0; i < n; i++)
        if (pf[i].revents & (POLLIN | POLLHUP | POLLERR)) { FD_SET(pf[i].fd, &out); got++; }
    if (!got && intr) { errno = EINTR; return -1; }      /* sets left as they were */
    if (r) *r = out;
    return got;
}
pid_t __wrap_waitpid(pid_t p, int *st, int opt)
{
    if (!is_daemon) return __real_waitpid(p, st, opt);
    if (opt & WNOHANG) {
        pid_t r = __real_waitpid(p, st, opt);
        if (r > 0) {
            for (int i = sh->nslots - 1; i >= 0; i--) if (sh->slots[i].pid == r && sh->slots[i].used) { sh->slots[i].used = 0; break; }
            emit_simple("reap", "\"pid\":%d", (int)r);
        }
        return r;
    }
    for (;;) {
        settle();
        pid_t r = __real_waitpid(p, st, opt | WNOHANG);
        if (r != 0) {
            if (r > 0) {
                for (int i = sh->nslots - 1; i >= 0; i--) if (sh->slots[i].pid == r && sh->slots[i].used) { sh->slots[i].used = 0; break; }
                emit_simple("reap", "\"pid\":%d,\"w\":1", (int)r);
            }
            return r;
        }
        emit_simple("waitblock", "\"now\":%lld", sh->vus);
        int sigs[16], k = cmd_loop(sigs, 16);
        for (int i = 0; i < k; i++) raise(sigs[i]);
    }
}
unsigned __wrap_sleep(unsigned s)
{
    if (is_daemon) { emit_simple("sleep", "\"s\":%u", s); advance(s * 1000000LL); }
    return 0;
}
int __wrap_usleep(useconds_t us) { if (is_daemon) advance(us); return 0; }
int __wrap_timerfd_create(int c, int f) { (void)c; (void)f; return timer_fd = eventfd(0, EFD_NONBLOCK); }
int __wrap_timerfd_settime(int fd, int f, const struct itimerspec *n, struct itimerspec *o) { (void)fd; (void)f; (void)n; (void)o; return 0; }

R(int, getsockopt, int, int, int, void *, socklen_t *);
R(int, accept, int, struct sockaddr *, socklen_t *);
static int fd_peer[1100];
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
    int c = __real_accept(fd, a, l);
    if (c >= 0 && c < 1100) fd_peer[c] = peer_h < peer_t ? peer_q[peer_h++ % 256] : 0;
    return c;
}
int __wrap_getsockopt(int fd, int lev, int opt, void *v, socklen_t *l)
{
    if (lev == SOL_SOCKET && opt == SO_PEERCRED && fd >= 0 && fd < 1100) {
        if (pw_auth_only || fd_peer[fd] < 0) { errno = ENOPROTOOPT; return -1; }
        struct { pid_t p; uid_t u; gid_t g; } *c = v;
        c->p = 4242; c->u = fd_peer[fd]; c->g = fd_peer[fd];
        return 0;
    }
    return __real_getsockopt(fd, lev, opt, v, l);
}
int __wrap_setsockopt(int fd, int lev, int opt, const void *v, socklen_t l) { (void)fd; (void)lev; (void)opt; (void)v; (void)l; return 0; }

/* ------------------------------------------------------------------ directory order: fixed */
struct dstream { DIR *d; struct dirent **v; int n, i; };
static struct dstream ds[16];
static int fwd_cmp(const void *a, const void *b) { return strcmp((*(struct dirent **)a)->d_name, (*(struct dirent **)b)->d_name); }
R(struct dirent *, readdir, DIR *);
R(int, closedir, DIR *);
struct dirent *__wrap_readdir(DIR *d)
{
    struct dstream *s = NULL;
    for (int i = 0; i < 16; i++) if (ds[i].d == d) s = &ds[i];
    if (!s) {
        for (int i = 0; i < 16 && !s; i++) if (!ds[i].d) s = &ds[i];
        s->d = d; s->v = NULL; s->n = s->i = 0;
        struct dirent *e;
        while ((e = __real_readdir(d))) {
            s->v = realloc(s->v, (s->n + 1) * sizeof *s->v);
            s->v[s->n] = malloc(sizeof *e); memcpy(s->v[s->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e); s->n++;
        }
        qsort(s->v, s->n, sizeof *s->v, fwd_cmp);
    }
    return s->i < s->n ? s->v[s->i++] : NULL;
}
int __wrap_closedir(DIR *d)
{
    for (int i = 0; i < 16; i++) if (ds[i].d == d) {
        for (int k = 0; k < ds[i].n; k++) free(ds[i].v[k]);
        free(ds[i].v); memset(&ds[i], 0, sizeof ds[i]);
    }
    return __real_closedir(d);
}

/* ------------------------------------------------------------------ file system: crash and fault points */
R(int, open, const char *, int, ...);
R(int, creat, const char *, mode_t);
R(ssize_t, write, int, const void *, size_t);
R(int, rename, const char *, const char *);
R(int, unlink, const char *);
R(int, remove, const char *);
R(int, fdatasync, int);
R(int, fsync, int);
R(int, fchown, int, uid_t, gid_t);
R(int, ftruncate, int, off_t);
R(int, close, int);
static char fdname[1100][256];

static int fsop(const char *op, const char *a, const char *b2, long n)
{
    if (!is_daemon) return 0;
    fsop_count++;
    if (fstrace) {
        struct buf b = {0};
        bfmt(&b, "{\"ev\":\"fs\",\"op\":\"%s\",\"n\":%ld,\"i\":%ld,\"a\":", op, n, fsop_count);
        bstr(&b, a); bputs(&b, ",\"b\":"); bstr(&b, b2); bputs(&b, "}");
        emit(&b);
    }
    if (crash_at && fsop_count == crash_at) return 2;
    /* a removal never fails alone */
    if (fail_at == fsop_count && !fail_sticky && (!strcmp(op, "remove") || !strcmp(op, "unlink"))) fail_at++;
    /* sticky 1: everything fails from here on; 2: everything which needs space on the disk does */
    if (fail_at && (fsop_count == fail_at || (fail_sticky && fsop_count > fail_at))
        && (fail_sticky != 2 || !strcmp(op, "open") || !strcmp(op, "creat") || !strcmp(op, "write") || strstr(op, "sync"))) { emit_simple("fsfailed", "\"op\":\"%s\"", op); errno = fail_errno; return 1; }
    return 0;
}
static void crash_now(void) { emit_simple("crash", "\"i\":%ld", fsop_count); _exit(77); }
int __wrap_open(const char *p, int fl, ...)
{
    mode_t m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    int track = is_daemon && (fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && !strstr(p, "/dev/");
    if (track) { int r = fsop("open", p, NULL, fl & O_TRUNC ? 1 : 0); if (r == 1) return -1; if (r == 2) crash_now(); }
    if (!strcmp(p, "/dev/tty")) { errno = ENXIO; return -1; }
    int fd = __real_open(p, fl, m);
    if (fd >= 0 && fd < 1100) { fdname[fd][0] = 0; if (track) snprintf(fdname[fd], 256, "%s", p); }
    return fd;
}
int __wrap_creat(const char *p, mode_t m)
{
    int r = fsop("creat", p, NULL, 0); if (r == 1) return -1; if (r == 2) crash_now();
    return __real_creat(p, m);
}
int __wrap_close(int fd) { if (fd >= 0 && fd < 1100) fdname[fd][0] = 0; return __real_close(fd); }
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (is_daemon && fd >= 0 && fd < 1100 && fdname[fd][0]) {
        int r = fsop("write", fdname[fd], NULL, n);
        if (r == 1) return -1;
        if (r == 2) { if (crash_partial && n > 1) { if (__real_write(fd, b, n / 2) < 0) {} } crash_now(); }
    }
    return __real_write(fd, b, n);
}
int __wrap_rename(const char *a, const char *b)
{
    int r = fsop("rename", a, b, 0); if (r == 1) return -1; if (r == 2) crash_now();
    return __real_rename(a, b);
}
int __wrap_unlink(const char *a)
{
    int r = fsop("unlink", a, NULL, 0); if (r == 1) return -1; if (r == 2) crash_now();
    return __real_unlink(a);
}
int __wrap_remove(const char *a)
{
    int r = fsop("remove", a, NULL, 0); if (r == 1) return -1; if (r == 2) crash_now();
    return __real_remove(a);
}
int __wrap_fdatasync(int fd)
{
    int r = fsop("fdatasync", fd >= 0 && fd < 1100 ? fdname[fd] : "", NULL, 0); if (r == 1) return -1; if (r == 2) crash_now();
    return 0;
}
int __wrap_fsync(int fd)
{
    int r = fsop("fsync", fd >= 0 && fd < 1100 ? fdname[fd] : "", NULL, 0); if (r == 1) return -1; if (r == 2) crash_now();
    return 0;
}
int __wrap_ftruncate(int fd, off_t l)
{
    int r = fsop("ftruncate", fd >= 0 && fd < 1100 ? fdname[fd] : "", NULL, l); if (r == 1) return -1; if (r == 2) crash_now();
    return __real_ftruncate(fd, l);
}
