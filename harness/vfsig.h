/* signals: dispositions, masks, delivery, waiting */
#include <setjmp.h>
static unsigned long kmask(void)
{ unsigned long m = 0; syscall(SYS_rt_sigprocmask, SIG_BLOCK, NULL, &m, 8); return m; }
/* a signal set as three integers: signals 1..30, 31..60, 61..64 */
static void lgset(const char *which, unsigned long m)
{ vlog("mk", (long)(m & 0x3fffffff), (long)((m >> 30) & 0x3fffffff), (long)(m >> 60), 0, which); }
static unsigned long set2m(const sigset_t *s)
{ unsigned long m = 0; for (int i = 1; i <= 64; i++) if (sigismember(s, i) == 1) m |= 1UL << (i - 1); return m; }
/* none | all | s1,s2,.. | ~s1,s2,..  (every signal except) */
static void parse_set(const char *w, sigset_t *s)
{
    int inv = 0;
    sigemptyset(s);
    if (!strcmp(w, "none")) return;
    if (!strcmp(w, "all")) { sigfillset(s); return; }
    if (*w == '!') { inv = 1; w++; sigfillset(s); }
    while (*w) {
        int g = atoi(w);
        if (g > 0) { if (inv) sigdelset(s, g); else sigaddset(s, g); }
        w = strchr(w, ','); if (!w) break; w++;
    }
}
static int parse_flags(const char *w)
{
    int f = 0;
    for (; *w; w++) switch (*w) {
        case 's': f |= SA_SIGINFO; break; case 'r': f |= SA_RESTART; break; case 'n': f |= SA_NODEFER; break;
        case 'c': f |= SA_NOCLDSTOP; break; case 'w': f |= SA_NOCLDWAIT; break; default: break; }
    return f;
}
static int pack_flags(int f)
{ return (f & SA_SIGINFO ? 1 : 0) + (f & SA_RESTART ? 2 : 0) + (f & SA_NODEFER ? 4 : 0) + (f & SA_NOCLDSTOP ? 8 : 0) + (f & SA_NOCLDWAIT ? 16 : 0)
       + (f & ~(SA_SIGINFO | SA_RESTART | SA_NODEFER | SA_NOCLDSTOP | SA_NOCLDWAIT | 0x04000000) ? 32 : 0); }

static __thread sigjmp_buf *my_jb IE;
static long infoval(siginfo_t *si) { return si->si_code == SI_QUEUE ? si->si_value.sival_int : 0; }
static int infobad(int sig, siginfo_t *si, void *ctx)
{   /* bit 0: no info, 1: wrong number, 2: no context, 3: wrong sender */
    int b = 0;
    if (!si) return 1;
    if (si->si_signo != sig) b |= 2;
    if (!ctx) b |= 4;
    if ((si->si_code == SI_USER || si->si_code == SI_QUEUE || si->si_code == SI_TKILL) && si->si_pid != rawpid() && si->si_pid != L->misc[5]) b |= 8;
    return b;
}
static void run_h(const char *p, int sig)
{
    char c[24]; struct rc rc = {0, 0};
    snprintf(c, sizeof c, "%s:%d", p, sig); run_block(c, &rc);
}
static void app_h(int h, int sig, siginfo_t *si, void *ctx, int isinfo)
{
    int se = errno;
    vlog("ah", sig, h + 2 + 10 * isinfo, isinfo && si ? si->si_code : 0, isinfo && si ? infoval(si) : 0, isinfo ? (infobad(sig, si, ctx) ? "bad" : "ok") : "");
    lgset("ah", kmask());
    run_h("h", sig);
    lg("ah.", sig, 0, 0, 0);
    __sync_fetch_and_add(&L->misc[1], 1);
    errno = se;
}
static void ah0(int s) { app_h(0, s, NULL, NULL, 0); }
static void ah1(int s) { app_h(1, s, NULL, NULL, 0); }
static void ai0(int s, siginfo_t *i, void *c) { app_h(0, s, i, c, 1); }
static void ai1(int s, siginfo_t *i, void *c) { app_h(1, s, i, c, 1); }
static int client_h(int h, int sig, siginfo_t *si, void *ctx)
{
    int se = errno;
    vlog("ch", sig, h, si ? si->si_code : -99, si ? infoval(si) : 0, infobad(sig, si, ctx) ? "bad" : "ok");
    lgset("ch", kmask());
    run_h("c", sig);
    lg("ch.", sig, h, 0, 0);
    __sync_fetch_and_add(&L->misc[2], 1);
    errno = se;
    return h;
}
static int ch0(int s, siginfo_t *i, void *c) { return client_h(0, s, i, c); }
static int ch1(int s, siginfo_t *i, void *c) { return client_h(1, s, i, c); }
static int sakind(struct sigaction *a)
{
    void *h = (a->sa_flags & SA_SIGINFO) ? (void *)a->sa_sigaction : (void *)a->sa_handler;
    if (h == (void *)SIG_DFL) return 0;
    if (h == (void *)SIG_IGN) return 1;
    if (h == (void *)ah0 || h == (void *)ai0) return 2;
    if (h == (void *)ah1 || h == (void *)ai1) return 3;
    return -9;
}
static int kindof(const char *k) { return !strcmp(k, "dfl") ? 0 : !strcmp(k, "ign") ? 1 : !strcmp(k, "h0") ? 2 : !strcmp(k, "h1") ? 3 : !strcmp(k, "err") ? -8 : -1; }
static void do_sa(struct op *o)
{   /* sa SIG KIND FLAGS SET [alias|noold] */
    int sig = num(o, 0, 0), k = kindof(o->arg[1]), v = 0;
    int fl = o->n > 2 ? parse_flags(o->arg[2]) : 0;
    const char *w = o->n > 4 ? o->arg[4] : "";
    struct sigaction a, old, *oldp = &old;
    memset(&a, 0, sizeof a); memset(&old, 0x5a, sizeof old);
    parse_set(o->n > 3 ? o->arg[3] : "none", &a.sa_mask);
    if (k < 2) a.sa_handler = k == 1 ? SIG_IGN : SIG_DFL;
    else if (fl & SA_SIGINFO) a.sa_sigaction = k == 2 ? ai0 : ai1;
    else a.sa_handler = k == 2 ? ah0 : ah1;
    a.sa_flags = fl;
    if (!strcmp(w, "alias")) { v = 1; oldp = &a; }
    if (!strcmp(w, "noold")) { v = 2; oldp = NULL; }
    lg("sa_b", sig, k, pack_flags(fl), v);
    lgset("req", set2m(&a.sa_mask));
    errno = 0;
    int r = sigaction(sig, k == -1 ? NULL : &a, oldp);
    int e = errno;
    if (r == 0 && oldp) { lg("sa_e", r, e, sakind(oldp), pack_flags(oldp->sa_flags)); lgset("old", set2m(&oldp->sa_mask)); }
    else lg("sa_e", r, e, -7, 0);
}
static void do_signal(struct op *o)
{
    int sig = num(o, 0, 0), k = kindof(o->arg[1]);
    void *h = k == 0 ? (void *)SIG_DFL : k == 1 ? (void *)SIG_IGN : k == 2 ? (void *)ah0 : k == 3 ? (void *)ah1 : (void *)SIG_ERR;
    lg("sg_b", sig, k, 0, 0);
    errno = 0;
    void *r = (void *)signal(sig, h);
    lg("sg_e", r == (void *)SIG_ERR ? -8 : r == (void *)SIG_DFL ? 0 : r == (void *)SIG_IGN ? 1 : r == (void *)ah0 || r == (void *)ai0 ? 2 : r == (void *)ah1 || r == (void *)ai1 ? 3 : -9,
       errno, 0, 0);
}
static void do_mask(struct op *o)
{   /* mask API HOW SET [noold] */
    sigset_t s, old; int api = !strcmp(o->arg[0], "proc") ? 0 : !strcmp(o->arg[0], "pthr") ? 1 : !strcmp(o->arg[0], "realproc") ? 3 : 2;
    int how = !strcmp(o->arg[1], "block") ? SIG_BLOCK : !strcmp(o->arg[1], "unblock") ? SIG_UNBLOCK : !strcmp(o->arg[1], "set") ? SIG_SETMASK : atoi(o->arg[1]);
    int nul = !strcmp(o->arg[2], "null"), noold = o->n > 3;
    if (!nul) parse_set(o->arg[2], &s); else sigemptyset(&s);
    sigemptyset(&old);
    lg("mask_b", how, api, nul, 0);
    lgset("req", nul ? 0 : set2m(&s));
    errno = 0;
    int r = api == 0 ? sigprocmask(how, nul ? NULL : &s, noold ? NULL : &old)
          : api == 1 ? pthread_sigmask(how, nul ? NULL : &s, noold ? NULL : &old)
          : api == 3 ? monitor_real_sigprocmask(how, nul ? NULL : &s, noold ? NULL : &old)
          : monitor_real_pthread_sigmask(how, nul ? NULL : &s, noold ? NULL : &old);
    lg("mask_e", r, errno, noold, 0);
    lgset("old", set2m(&old));
    lgset("cur", kmask());
}
static int own_kill(pthread_t t, int sig) { my_ownkill++; int r = pthread_kill(t, sig); my_ownkill--; return r; }
static int send_sig(const char *how, int sig, int val)
{
    union sigval v; v.sival_int = val;
    if (!strcmp(how, "raise")) return raise(sig);
    if (!strcmp(how, "kill")) return kill(rawpid(), sig);
    if (!strcmp(how, "tkill")) return syscall(SYS_tgkill, rawpid(), syscall(SYS_gettid), sig);
    if (!strcmp(how, "queue")) return sigqueue(rawpid(), sig, v);
    if (!strncmp(how, "thr:", 4)) return own_kill(T[atoi(how + 4)].h, sig);
    if (!strncmp(how, "main", 4)) return own_kill(T[4095].h, sig);
    if (!strcmp(how, "child")) {                 /* another process sends it */
        L->misc[6] = 0;
        int me = rawpid(), p = syscall(SYS_fork);
        if (p == 0) { L->misc[5] = rawpid(); syscall(SYS_kill, me, sig); syscall(SYS_exit_group, 0); }
        int st; while (syscall(SYS_wait4, p, &st, 0, NULL) < 0 && errno == EINTR) ;
        return 0;
    }
    if (!strcmp(how, "alarm")) { struct itimerval it = {{0, 0}, {0, 3000}};
        setitimer(sig == SIGALRM ? ITIMER_REAL : sig == SIGVTALRM ? ITIMER_VIRTUAL : ITIMER_PROF, &it, NULL);
        long t0 = nowms(); int c = L->misc[1] + L->misc[2]; while (L->misc[1] + L->misc[2] == c && nowms() - t0 < 3000) if (sig == SIGALRM) raw_ms(500);
        return 0; }
    if (!strcmp(how, "abort")) abort();
    lg("err", 20, 0, 0, 0);
    return -1;
}
static int send_how(const char *how)
{ return !strcmp(how, "raise") ? 0 : !strcmp(how, "kill") ? 1 : !strcmp(how, "tkill") ? 2 : !strcmp(how, "queue") ? 3 : !strncmp(how, "thr:", 4) ? 4
       : !strcmp(how, "child") ? 5 : !strcmp(how, "alarm") ? 6 : !strcmp(how, "abort") ? 7 : !strcmp(how, "main") ? 8 : 9; }
static void fault(const char *k)
{
    if (!strcmp(k, "segv")) *(volatile int *)8 = 1;
    else if (!strcmp(k, "bus")) { int fd = memfd_create("z", 0); if (ftruncate(fd, 4096)) return; volatile char *p = mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); p[5000] = 1; }
    else if (!strcmp(k, "ill")) __asm__ volatile("ud2");
    else if (!strcmp(k, "fpe")) { volatile int z = 0; volatile int y = 5 / z; (void)y; }
    else if (!strcmp(k, "trap")) __asm__ volatile("int3");
    else if (!strcmp(k, "pipe")) { int p[2]; if (pipe(p)) return; close(p[0]); if (write(p[1], "x", 1)) {} close(p[1]); }
}
static int faultsig(const char *k)
{ return !strcmp(k, "segv") ? SIGSEGV : !strcmp(k, "bus") ? SIGBUS : !strcmp(k, "ill") ? SIGILL : !strcmp(k, "fpe") ? SIGFPE : !strcmp(k, "trap") ? SIGTRAP : SIGPIPE; }
static __attribute__((noinline)) void do_fault(const char *k, int fatal)
{
    sigjmp_buf jb, *prev = my_jb;
    lg("snd", faultsig(k), 10 + !strcmp(k, "pipe"), 0, fatal);
    if (fatal) lg("sig_b", 6, faultsig(k), 0, 0);
    if (sigsetjmp(jb, 1) == 0) { my_jb = &jb; fault(k); }
    else lg("jumped", 0, 0, 0, 0);
    my_jb = prev;
    lg("snt", faultsig(k), 0, 0, 0);
}
static void do_sw(struct op *o)
{   /* sw API SET TMO */
    sigset_t s; const char *api = o->arg[0]; int a = !strcmp(api, "wait") ? 0 : !strcmp(api, "info") ? 1 : !strcmp(api, "timed") ? 2 : !strcmp(api, "infonull") ? 3 : !strcmp(api, "timednull") ? 4 : !strcmp(api, "timedbad") ? 5 : 6;
    parse_set(o->arg[1], &s);
    long ms = num(o, 2, 0);
    struct timespec ts = {ms / 1000, (ms % 1000) * 1000000};
    if (a == 5) ts.tv_nsec = 2000000000;
    siginfo_t si; memset(&si, 0, sizeof si); int sig = -5, r;
    lg("sw_b", a, ms, 0, 0);
    lgset("req", set2m(&s));
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    errno = 0;
    if (a == 0) r = sigwait(&s, &sig);
    else if (a == 1) r = sigwaitinfo(&s, &si);
    else if (a == 2 || a == 5) r = sigtimedwait(&s, &si, &ts);
    else if (a == 3) r = sigwaitinfo(&s, NULL);
    else if (a == 4) r = sigtimedwait(&s, &si, NULL);
    else r = sigtimedwait(&s, NULL, &ts);
    int e = errno;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    long el = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
    int when = r < 0 && (a == 2 || a == 6) && e == EAGAIN ? (el < ms - 1 ? 1 : el > ms + 1500 ? 2 : 0) : 0;
    long inf = 0;
    if ((a == 1 || a == 2 || a == 4) && r > 0) inf = (si.si_signo == r ? 0 : 1000) + (infobad(r, &si, &si) ? 2000 : 0) + (si.si_code == SI_QUEUE ? si.si_value.sival_int : 0);
    if (a == 0) lg("sw_e", r == 0 ? sig : -1, r, 0, 0);
    else lg("sw_e", r, r < 0 ? e : 0, inf, when);
}
static int op_signals(struct op *o, struct rc *rc)
{
    const char *n = o->name;
    if (!strcmp(n, "sa")) do_sa(o);
    else if (!strcmp(n, "signal")) do_signal(o);
    else if (!strcmp(n, "csa")) {       /* csa SIG c0|c1|null [flags set] : the client's registration */
        int sig = num(o, 0, 0), h = !strcmp(o->arg[1], "c0") ? 0 : !strcmp(o->arg[1], "c1") ? 1 : 2;
        struct sigaction a; memset(&a, 0, sizeof a);
        if (o->n > 2) { a.sa_flags = parse_flags(o->arg[2]); parse_set(o->n > 3 ? o->arg[3] : "none", &a.sa_mask); }
        lg("csa_b", sig, h, o->n > 2, 0);
        lgset("req", set2m(&a.sa_mask));
        int r = monitor_sigaction(sig, h == 0 ? ch0 : h == 1 ? ch1 : NULL, 0, o->n > 2 ? &a : NULL);
        lg("csa_e", r, 0, 0, 0);
    }
    else if (!strcmp(n, "mask")) do_mask(o);
    else if (!strcmp(n, "snd") || !strcmp(n, "fatal")) {
        int sig = num(o, 0, 0), v = num(o, 2, 0), f = n[0] == 'f';
        lg("snd", sig, send_how(o->arg[1]), v, !strncmp(o->arg[1], "thr:", 4) ? atoi(o->arg[1] + 4) : 0);
        if (f) lg("sig_b", 6, sig, 0, 0);
        int r = send_sig(o->arg[1], sig, v);
        lg("snt", sig, r, 0, 0);
    }
    else if (!strcmp(n, "sndu")) {      /* sndu FLAG SIG HOW: again and again until the flag is set */
        int f = num(o, 0, 0), sig = num(o, 1, 0), k;
        for (k = 0; k < 80 && !L->flag[f]; k++) {
            lg("snd", sig, send_how(o->arg[2]), 0, !strncmp(o->arg[2], "thr:", 4) ? atoi(o->arg[2] + 4) : 0);
            int r = send_sig(o->arg[2], sig, 0);
            lg("snt", sig, r, 0, 0);
            for (int j = 0; j < 50 && !L->flag[f]; j++) raw_ms(1000);
        }
        if (k == 80) lg("timeout", 97, 0, 0, 0);
    }
    else if (!strcmp(n, "fault") || !strcmp(n, "faultf")) do_fault(o->arg[0], n[5] == 'f');
    else if (!strcmp(n, "jump")) { lg("jump", 0, 0, 0, 0); if (my_jb) siglongjmp(*my_jb, 1); }
    else if (!strcmp(n, "cur")) lgset("cur", kmask());
    else if (!strcmp(n, "sw")) do_sw(o);
    else if (!strcmp(n, "awaith")) { long t0 = nowms(); while (L->misc[1] < num(o, 0, 1)) { raw_ms(200); if (nowms() - t0 > 8000) { lg("timeout", 99, 0, 0, 0); break; } } }
    else if (!strcmp(n, "awaitc")) { long t0 = nowms(); while (L->misc[2] < num(o, 0, 1)) { raw_ms(200); if (nowms() - t0 > 8000) { lg("timeout", 98, 0, 0, 0); break; } } }
    else if (!strcmp(n, "mainh")) T[4095].h = pthread_self();
    else if (!strcmp(n, "shootsig")) {  /* which signals a thread cannot block */
        unsigned long was = kmask();
        sigset_t all; sigfillset(&all);
        pthread_sigmask(SIG_BLOCK, &all, NULL);
        unsigned long now = kmask();
        lgset("rsv", ~now & 0xffffffff7ffbfeffUL & ~(1UL<<31) & ~(1UL<<32));
        syscall(SYS_rt_sigprocmask, SIG_SETMASK, &was, NULL, 8);
    }
    else return 0;
    return 1;
}
