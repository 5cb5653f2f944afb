/*
 * vf.c: monitoring client (all callbacks, logging every one) and script
 * interpreter (the application).  Built as libvf.so (preload mode) and as
 * vf.o linked by monitor-link (static mode).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "monitor.h"
#include "vflog.h"

extern char **environ;
#define IE __attribute__((tls_model("initial-exec")))

static struct vf_log *L;
static int inited, is_app, early_phase = 1;
static int cached_pid;
static __thread int my_u IE, my_n IE, my_main IE, my_ended IE;
static __thread void *my_ra IE, *my_sp IE;
static __thread long last_child IE, my_fk IE;      /* my_fk: the fork or system call being made */

/* ------------------------------------------------------------ utilities */
static int rawpid(void) { return (int)syscall(SYS_getpid); }
static void raw_ms(long us)
{
    struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
    syscall(SYS_nanosleep, &ts, NULL);
}
static long nowms(void)
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000L + t.tv_nsec / 1000000;
}
/* ------------------------------------------------------------------ log */
struct op { char *ctx, *name, *arg[10]; int n; };
static struct op ops[6000];
static int nops;
static char script[262144];
static void vf_init(void);
extern int __register_atfork(void (*)(void), void (*)(void), void (*)(void), void *);
static int vf_early_started;

static struct { pthread_t h; int u; } utab[8192]; static volatile int nutab;
static void vlog(const char *e, long a, long b, long c, long d, const char *s)
{
    int se = errno;
    if (!inited) vf_init();
    if (L) {
        if (my_u == 0) {          /* a signal handler may get here in the middle of this */
            int nu = __sync_add_and_fetch(&L->nextu, 1);
            if (__sync_bool_compare_and_swap(&my_u, 0, nu)) {
                int k = __sync_fetch_and_add(&nutab, 1);
                if (k < 8192) { utab[k].h = pthread_self(); utab[k].u = my_u; }
            }
        }
        uint32_t i = __sync_fetch_and_add(&L->next, 1);
        if (i < VF_NREC) {
            struct vf_rec *r = &L->rec[i];
            r->pid = rawpid(); r->u = my_u;
            strncpy(r->e, e, sizeof r->e - 1);
            r->a = a; r->b = b; r->c = c; r->d = d;
            if (s) strncpy(r->s, s, sizeof r->s - 1);
            __sync_synchronize();
            r->ready = 1;
        }
    }
    errno = se;
}
static __thread int my_ownkill IE;
#define lg(e, a, b, c, d) vlog(e, (long)(a), (long)(b), (long)(c), (long)(d), NULL)
static __thread int my_bc;
void vf_pk(pthread_t t, int sig)
{   /* libshim: somebody calls pthread_kill */
    int u = 0;
    if (my_ownkill || !L) return;
    for (int k = nutab > 8192 ? 8191 : nutab - 1; k >= 0 && !u; k--) if (pthread_equal(utab[k].h, t)) u = utab[k].u;
    lg("pk", u, sig, my_bc, 0);
}
static long newtok(void) { return L ? __sync_add_and_fetch(&L->nexttok, 1) : 0; }

static __thread volatile int step_on IE;

static void atfork_child(void)
{
    long parent = cached_pid;
    cached_pid = rawpid();
    step_on = 0;
    my_main = 1; my_n = 0;
    lg("born", parent, my_fk, 0, 0);
    my_fk = 0;
}
static void vf_init(void)
{
    inited = 1;
    cached_pid = rawpid();
    void *p = mmap(NULL, VF_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, VF_FD, 0);
    if (p == MAP_FAILED) return;
    L = p;
    const char *nm = program_invocation_short_name ? program_invocation_short_name : "?";
    is_app = (strncmp(nm, "vfapp", 5) == 0);
    if (is_app) {
        long n = pread(VF_SFD, script, sizeof script - 1, 0);
        if (n < 0) n = 0;
        script[n] = 0;
        char *q = script;
        while (*q && nops < 6000) {
            char *eol = strchr(q, '\n');
            if (eol) *eol = 0;
            char *save, *w = strtok_r(q, " ", &save);
            if (w && *w != '#') {
                struct op *o = &ops[nops];
                o->ctx = w;
                o->name = strtok_r(NULL, " ", &save);
                while (o->n < 9 && (w = strtok_r(NULL, " ", &save))) o->arg[o->n++] = w;
                if (o->name) nops++;
            }
            if (!eol) break;
            q = eol + 1;
        }
    }
    __register_atfork(NULL, NULL, atfork_child, NULL);      /* stays when the libraries are torn down */
    my_main = 1;
    vlog("image", is_app, 0, 0, 0, nm);
}
static const char *opt(const char *name)
{
    for (int i = 0; i < nops; i++)
        if (!strcmp(ops[i].ctx, "opt") && !strcmp(ops[i].name, name))
            return ops[i].n ? ops[i].arg[0] : "1";
    return NULL;
}
static long optn(const char *name, long dfl) { const char *s = opt(name); return s ? atol(s) : dfl; }

/* shorten the library's polling intervals (not its delays) */
int usleep(useconds_t us) { raw_ms(us > 2000 ? 2000 : us); return 0; }

/* ------------------------------------------------------------ interpreter */
struct rc { int done; long ret; };
static void run_block(const char *ctx, struct rc *rc);
static int has_block(const char *ctx)
{
    for (int i = 0; i < nops; i++) if (!strcmp(ops[i].ctx, ctx)) return 1;
    return 0;
}
static void cbops(const char *name, int cnt)
{
    char c[40]; struct rc rc = {0, 0};
    if (!is_app) return;
    snprintf(c, sizeof c, "cb:%s", name); run_block(c, &rc);
    snprintf(c, sizeof c, "cb:%s#%d", name, cnt); run_block(c, &rc);
    if (my_n) { snprintf(c, sizeof c, "cb:%s@%d", name, my_n); run_block(c, &rc); }
}
#define CNT(v) static volatile int v; int cnt = __sync_add_and_fetch(&v, 1); (void)cnt

/* ------------------------------------------------------------- callbacks */
void monitor_init_library(void)
{ CNT(c); lg("init_library", 0, 0, 0, 0); cbops("init_library", cnt); lg("init_library.", 0, 0, 0, 0); }
void monitor_fini_library(void)
{ CNT(c); lg("fini_library", 0, 0, 0, 0); cbops("fini_library", cnt); lg("fini_library.", 0, 0, 0, 0); }
void *monitor_init_process(int *argc, char **argv, void *data)
{
    CNT(c); if (!inited) vf_init();
    long t = opt("nulldata") ? 0 : newtok();
    vlog("init_process", argc ? *argc : -1, (long)data, argv ? vf_hash(argv, -1) : 0, t, NULL);
    cbops("init_process", cnt);
    lg("init_process.", 0, 0, 0, t);
    return (void *)t;
}
void monitor_fini_process(int how, void *data)
{ CNT(c); lg("fini_process", how, data, 0, 0); cbops("fini_process", cnt); lg("fini_process.", how, data, 0, 0); }
void monitor_start_main_init(void)
{ CNT(c); lg("start_main_init", 0, 0, 0, 0); cbops("start_main_init", cnt); }
void monitor_at_main(void)
{ CNT(c); lg("at_main", 0, 0, 0, 0); cbops("at_main", cnt); lg("at_main.", 0, 0, 0, 0); }
void monitor_begin_process_exit(int how)
{ CNT(c); lg("begin_exit", how, 0, 0, 0); cbops("begin_exit", cnt); lg("begin_exit.", how, 0, 0, 0); }
void *monitor_pre_fork(void)
{
    CNT(c); if (!inited) vf_init();
    long t = opt("nulldata") ? 0 : newtok();
    lg("pre_fork", 0, 0, 0, t); cbops("pre_fork", cnt); lg("pre_fork.", 0, 0, 0, t);
    return (void *)t;
}
void monitor_post_fork(pid_t child, void *data)
{ CNT(c); lg("post_fork", child, data, 0, 0); cbops("post_fork", cnt); lg("post_fork.", child, data, 0, 0); }
static void log_tinfo(const char *where);
void *monitor_thread_pre_create(void)
{
    CNT(c); if (!inited) vf_init();
    const char *ig = opt("ignore");
    long t = opt("nulldata") ? 0 : newtok();
    if (ig && (atoi(ig) == 0 || atoi(ig) == cnt)) t = -1;
    lg("pre_create", 0, 0, 0, t);
    if (opt("tinfo")) log_tinfo("pre");
    cbops("pre_create", cnt);
    lg("pre_create.", 0, 0, 0, t);
    return (void *)t;
}
void monitor_thread_post_create(void *data)
{
    CNT(c);
    lg("post_create", 0, data, 0, 0);
    if (opt("tinfo")) log_tinfo("post");
    cbops("post_create", cnt);
    lg("post_create.", 0, data, 0, 0);
}
void monitor_init_thread_support(void)
{ CNT(c); lg("thr_support", 0, 0, 0, 0); cbops("thr_support", cnt); lg("thr_support.", 0, 0, 0, 0); }
void *monitor_init_thread(int tid, void *data)
{
    CNT(c);
    long t = opt("nulldata") ? 0 : newtok();
    vlog("init_thread", tid, (long)data, monitor_get_thread_num(), t, NULL);
    cbops("init_thread", cnt);
    lg("init_thread.", tid, 0, 0, t);
    return (void *)t;
}
void monitor_fini_thread(void *data)
{
    CNT(c);
    lg("fini_thread", monitor_get_thread_num(), data, 0, 0);
    cbops("fini_thread", cnt);
    lg("fini_thread.", 0, data, 0, 0);
}
size_t monitor_reset_stacksize(size_t old)
{
    const char *s = is_app ? opt("stack") : NULL;
    size_t n = s ? (size_t)((long)old + atol(s)) : old;
    if (is_app && opt("stackset")) n = optn("stackset", 0);
    if (s) lg("reset_stack", old / 1024, n / 1024, 0, 0);
    return n;
}

/* --------------------------------------------------------------- threads */
struct thr { pthread_t h; pthread_attr_t at; int hasat; int n; };
static struct thr T[4096];
static void *thr_body(void *arg, int idx, void *ra, void *sp);
#define START(i) static __attribute__((noinline)) void *thr_start##i(void *arg) \
    { char sp; void *r = thr_body(arg, i, __builtin_return_address(0), &sp); __asm__ volatile("" ::: "memory"); return r; }
START(0) START(1) START(2) START(3)
static void *(*starts[4])(void *) = {thr_start0, thr_start1, thr_start2, thr_start3};
static void log_tinfo(const char *where)
{
    struct monitor_thread_info mti; memset(&mti, 0x55, sizeof mti);
    int r = monitor_get_new_thread_info(&mti), si = -1;
    Dl_info di; int ra = 0;
    if (r == 0) {
        si = -2;
        for (int i = 0; i < 4; i++) if (mti.mti_start_routine == (void *)starts[i]) si = i;
        /* the return address must lie in this interpreter */
        if (dladdr(mti.mti_create_return_addr, &di)) {
            Dl_info me; dladdr((void *)log_tinfo, &me); ra = (di.dli_fbase == me.dli_fbase);
        }
    }
    vlog("tinfo", r, si, ra, 0, where);
}
static void thr_cleanup(void *x)
{
    if (my_ended) return;
    my_ended = 1;
    if (my_main) lg("exit_b", 5, 0, 0, 0); else lg("tend", my_n, 3, 0, 0);
}
static void *thr_body(void *arg, int idx, void *ra, void *sp)
{
    int n = (int)((long)arg - 0x51000);
    char c[16]; struct rc rc = {0, 0};
    my_n = n; my_ra = ra; my_sp = sp;
    size_t ss = 0;
    if (opt("stack") || opt("showstack")) {
        pthread_attr_t a;
        if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstacksize(&a, &ss); pthread_attr_destroy(&a); }
    }
    vlog("start", n, idx, ss / 1024, 0, NULL);
    rc.ret = n * 100;
    pthread_cleanup_push(thr_cleanup, NULL);
    snprintf(c, sizeof c, "T%d", n);
    if (has_block(c)) run_block(c, &rc); else run_block(n >= 100 && has_block("TX") ? "TX" : "T*", &rc);
    my_ended = 1;
    if (my_main) lg("exit_b", 5, 0, 0, 0);      /* main of a forked child */
    else lg("tend", n, 1, rc.ret, 0);
    pthread_cleanup_pop(0);
    return (void *)rc.ret;
}
static void do_create(int n, const char *kind)
{
    struct thr *t = &T[n];
    pthread_attr_t *ap = NULL; size_t before = 0, after = 0; int share = 0;
    t->n = n;
    if (kind && strcmp(kind, "null")) {
        ap = &t->at;
        if (!strncmp(kind, "share", 5)) { share = 1; ap = &T[4000].at; if (!T[4000].hasat) { T[4000].hasat = 1; pthread_attr_init(ap); pthread_attr_setstacksize(ap, 256 * 1024); } }
        else pthread_attr_init(ap);
        if (!strcmp(kind, "det")) pthread_attr_setdetachstate(ap, PTHREAD_CREATE_DETACHED);
        else if (!strcmp(kind, "small")) pthread_attr_setstacksize(ap, 128 * 1024);
        else if (!strcmp(kind, "big")) pthread_attr_setstacksize(ap, 3 * 1024 * 1024);
        else if (!strcmp(kind, "huge")) pthread_attr_setstacksize(ap, (size_t)1 << 47);
        else if (!strcmp(kind, "fifo")) { struct sched_param sp = {.sched_priority = 99}; (void)sp;
            pthread_attr_setinheritsched(ap, PTHREAD_EXPLICIT_SCHED); pthread_attr_setschedpolicy(ap, SCHED_FIFO); pthread_attr_setschedparam(ap, &sp); }
        pthread_attr_getstacksize(ap, &before);
    }
    lg("create_b", n, n % 4, before / 1024, kind && !strcmp(kind, "huge") ? EAGAIN : 0);
    int r = pthread_create(&t->h, ap, starts[n % 4], (void *)(0x51000L + n));
    if (ap) pthread_attr_getstacksize(ap, &after);
    lg("create_e", n, r, before == after, before / 1024);
    (void)share;
}

/* -------------------------------------------------------------- stepping */
static uintptr_t mon_lo, mon_hi, mon_base;
static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *d)
{
    const char *b = strrchr(i->dlpi_name, '/'); b = b ? b + 1 : i->dlpi_name;
    if (strncmp(b, "libmonitor.so", 13)) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            mon_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; mon_hi = mon_lo + i->dlpi_phdr[k].p_memsz; mon_base = i->dlpi_addr;
        }
    return 1;
}
struct stepact { int kind, a, b, ms; };
static __thread struct stepact sact IE;
static __thread long step_k IE;
static volatile int step_pid;
struct ksa { void *h; unsigned long fl; void *rest; unsigned long mask; };
__asm__(".text\n.globl vf_restore\n.hidden vf_restore\nvf_restore: mov $15,%eax\n syscall\n");
extern void vf_restore(void);
static void step_act(void)
{
    lg("stepped", step_k, 0, 0, 0);
    if (sact.kind == 1) {                 /* hand over to a peer, bounded */
        L->flag[sact.a] = 1;
        long t0 = nowms();
        while (!L->flag[sact.b] && nowms() - t0 < sact.ms) raw_ms(100);
    } else if (sact.kind == 2) {          /* signal to ourselves */
        lg("snd", sact.a, 2, 0, 0);
        syscall(SYS_tgkill, rawpid(), syscall(SYS_gettid), sact.a);
    } else if (sact.kind == 3) {          /* signal to the process */
        syscall(SYS_kill, rawpid(), sact.a);
    } else if (sact.kind == 4) {          /* fatal signal to ourselves */
        lg("snd", sact.a, 2, 0, 0); lg("sig_b", 6, sact.a, 0, 0);
        syscall(SYS_tgkill, rawpid(), syscall(SYS_gettid), sact.a);
    }
}
static void on_trap(int sig, siginfo_t *si, void *ctx)
{
    ucontext_t *uc = ctx;
    greg_t *g = uc->uc_mcontext.gregs;
    uintptr_t ip = g[REG_RIP];
    if (!step_on || step_pid != rawpid()) { g[REG_EFL] &= ~0x100L; return; }
    if (ip >= mon_lo && ip < mon_hi) {
        long c = ++L->misc[0];
        if (step_k == 1000000000 && c <= VF_NIP) L->ip[c - 1] = ip - mon_base;
        if (c == step_k) { int e = errno; step_act(); errno = e; g[REG_EFL] &= ~0x100L; step_on = 0; return; }
    }
    const unsigned char *p = (const unsigned char *)ip;
    if (p[0] == 0x0f && p[1] == 0x05 && g[REG_RAX] == SYS_rt_sigprocmask) {
        unsigned long *set = (unsigned long *)g[REG_RSI], *old = (unsigned long *)g[REG_RDX], cur, nw;
        memcpy(&cur, &uc->uc_sigmask, 8);
        nw = cur;
        int bad = 0;
        if (set) {
            if (g[REG_RDI] == SIG_BLOCK) nw = cur | *set;
            else if (g[REG_RDI] == SIG_UNBLOCK) nw = cur & ~*set;
            else if (g[REG_RDI] == SIG_SETMASK) nw = *set;
            else bad = 1;
        }
        if (!bad) {
            nw &= ~((1UL << (SIGTRAP - 1)) | (1UL << (SIGKILL - 1)) | (1UL << (SIGSTOP - 1)));
            if (old) *old = cur;
            memcpy(&uc->uc_sigmask, &nw, 8);
        }
        g[REG_RIP] += 2; g[REG_RAX] = bad ? -EINVAL : 0; g[REG_RCX] = g[REG_RIP]; g[REG_R11] = g[REG_EFL];
    }
}
static void step_start(long k, struct stepact *a)
{
    if (!mon_lo) dl_iterate_phdr(phdr_cb, NULL);
    struct ksa ka = {(void *)on_trap, SA_SIGINFO | 0x04000000UL, (void *)vf_restore, ~0UL};
    if (syscall(SYS_rt_sigaction, SIGTRAP, &ka, NULL, 8)) { lg("err", 1, 0, 0, 0); return; }
    unsigned long m = 1UL << (SIGTRAP - 1);
    syscall(SYS_rt_sigprocmask, SIG_UNBLOCK, &m, NULL, 8);
    sact = *a; step_k = k; step_pid = rawpid(); step_on = 1;
    __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
}
static void step_stop(void)
{
    __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
    step_on = 0;
}

/* step the next thread from the first instruction of its life (the shim calls back) */
volatile int vf_arm;
static struct stepact arm_act; static long arm_k;
void vf_thread_begins(void) { step_start(arm_k, &arm_act); }

/* --------------------------------------------------------------- queries */
static void do_query(const char *tag)
{
    void *sr = monitor_get_addr_thread_start();
    int si = -2;
    if (!sr) si = -1;
    for (int i = 0; i < 4; i++) if (sr == (void *)starts[i]) si = i;
    long bits = 0;
    char *sb = monitor_stack_bottom();
    if (monitor_is_threaded()) bits |= 1;
    if (sb && my_sp && sb > (char *)my_sp && sb < (char *)my_sp + 65536 && !memcmp(sb, "stakbot", 8)) bits |= 2;
    else if (sb) bits |= 512;
    if (my_ra) {
        if (monitor_in_start_func_wide(my_ra)) bits |= 4;
        if (monitor_in_start_func_narrow(my_ra)) bits |= 8;
        if (monitor_unwind_thread_bottom_frame(my_ra)) bits |= 16;
        if (monitor_unwind_process_bottom_frame(my_ra)) bits |= 32;
    }
    void *foreign[] = {NULL, (void *)do_query, (void *)run_block, (void *)strlen, (void *)monitor_initialize,
                       (void *)monitor_get_user_data, (void *)monitor_real_exit, &bits, (void *)-1L};
    for (unsigned i = 0; i < sizeof foreign / sizeof *foreign; i++)
        if (monitor_in_start_func_wide(foreign[i]) || monitor_in_start_func_narrow(foreign[i])
            || monitor_unwind_thread_bottom_frame(foreign[i]) || monitor_unwind_process_bottom_frame(foreign[i])) bits |= 64;
    if (my_ra && (bits & 4) && !step_on) {
        /* the narrow range lies inside the wide one, which has more at both ends */
        char *lo = my_ra, *hi = my_ra;
        for (int i = 0; i < 65536 && monitor_in_start_func_wide(lo - 1); i++) lo--;
        for (int i = 0; i < 65536 && monitor_in_start_func_wide(hi + 1); i++) hi++;
        if (monitor_in_start_func_narrow(lo) || monitor_in_start_func_narrow(hi)) bits |= 128;
    }
    vlog("q", monitor_get_thread_num(), (long)monitor_get_user_data(), si, bits, tag);
}
static pthread_key_t qkey[2];
static void qdestr(void *v)
{   /* D<n>: what the thread does in its thread-specific data destructor */
    char c[12]; struct rc rc = {0, 0};
    snprintf(c, sizeof c, "D%d", my_n);
    if (has_block(c)) run_block(c, &rc);
    do_query("tsd");
}

/* ------------------------------------------------------------- main parts */
static char *sub(const char *s, char *buf, int len)
{   /* '~' stands for a blank in script words */
    int i; for (i = 0; s[i] && i < len - 1; i++) buf[i] = s[i] == '~' ? ' ' : s[i];
    buf[i] = 0; return buf;
}
/* a number; %k stands for k plus 100 times the thread's own number */
static long num(struct op *o, int i, long dfl)
{ return i >= o->n ? dfl : o->arg[i][0] == '%' ? atol(o->arg[i] + 1) + 100L * my_n : atol(o->arg[i]); }
static void wait_flag(int f, int v)
{
    long t0 = nowms();
    while (L->flag[f] < v) { raw_ms(150); if (nowms() - t0 > 20000) { lg("timeout", f, v, 0, 0); return; } }
}
static void log_end(long pid, int st)
{
    uint32_t i = __sync_fetch_and_add(&L->next, 1);
    if (i >= VF_NREC) return;
    struct vf_rec *r = &L->rec[i];
    r->pid = (int)pid; r->u = 0; strcpy(r->e, "end");
    if (WIFEXITED(st)) { r->a = 0; r->b = WEXITSTATUS(st); } else { r->a = 1; r->b = WTERMSIG(st); }
    __sync_synchronize(); r->ready = 1;
}
static void reap(long pid)
{
    int st, r;
    do r = waitpid(pid, &st, 0); while (r < 0 && errno == EINTR);
    if (r < 0) lg("reap_err", pid, errno, 0, 0); else log_end(r, st);
}
static void at0(void) { struct rc rc = {0, 0}; lg("atexit", 0, 0, 0, 0); run_block("A0", &rc); }
static void at1(void) { struct rc rc = {0, 0}; lg("atexit", 1, 0, 0, 0); run_block("A1", &rc); }
static int mret_kind;

static int gen_arg(int i, char *b)
{   /* deterministic argument strings, some empty, some odd */
    if (i % 7 == 3) b[0] = 0;
    else if (i % 11 == 5) sprintf(b, "a b\tc*%d\"'", i);
    else sprintf(b, "arg%d", i);
    return strlen(b);
}
static int va_exec(const char *kind, const char *file, char **av, int n, char **ev)
{
    /* the varargs forms need real argument lists of many lengths */
#define A(i) ((i) < n ? av[i] : NULL)
#define A8(b) A(b), A(b+1), A(b+2), A(b+3), A(b+4), A(b+5), A(b+6), A(b+7)
#define A64(b) A8(b), A8(b+8), A8(b+16), A8(b+24), A8(b+32), A8(b+40), A8(b+48), A8(b+56)
    if (!strcmp(kind, "l")) return execl(file, A64(0), A64(64), A64(128), A64(192), (char *)NULL);
    if (!strcmp(kind, "lp")) return execlp(file, A64(0), A64(64), A64(128), A64(192), (char *)NULL);
    /* execle: the environment must directly follow the terminating NULL */
#define LE(k) if (n == k) return execle
    if (!strcmp(kind, "le")) {
        LE(1)(file, A(0), (char *)NULL, ev);
        LE(2)(file, A(0), A(1), (char *)NULL, ev);
        LE(3)(file, A(0), A(1), A(2), (char *)NULL, ev);
        LE(8)(file, A8(0), (char *)NULL, ev);
        LE(16)(file, A8(0), A8(8), (char *)NULL, ev);
        LE(62)(file, A8(0), A8(8), A8(16), A8(24), A8(32), A8(40), A8(48), A(56), A(57), A(58), A(59), A(60), A(61), (char *)NULL, ev);
        LE(63)(file, A8(0), A8(8), A8(16), A8(24), A8(32), A8(40), A8(48), A(56), A(57), A(58), A(59), A(60), A(61), A(62), (char *)NULL, ev);
        LE(64)(file, A64(0), (char *)NULL, ev);
        LE(65)(file, A64(0), A(64), (char *)NULL, ev);
        LE(127)(file, A64(0), A8(64), A8(72), A8(80), A8(88), A8(96), A8(104), A8(112), A(120), A(121), A(122), A(123), A(124), A(125), A(126), (char *)NULL, ev);
        LE(128)(file, A64(0), A64(64), (char *)NULL, ev);
        LE(129)(file, A64(0), A64(64), A(128), (char *)NULL, ev);
        LE(200)(file, A64(0), A64(64), A64(128), A8(192), (char *)NULL, ev);
    }
    lg("err", 2, n, 0, 0);
    return -2;
}
/* exec <kind> <file> <nargs> <env>  : env = keep | g<N>[p] (N generated, p: keep LD_PRELOAD) | odd */
static void do_exec(struct op *o)
{
    static struct xbuf { char abuf[300][24], ebuf[1500][64], *av[301], *ev[1520], fbuf[200], big[9000], plb[4096], *ex[2000]; } pool[6];
    static int npool;                                       /* calls may overlap: threads and signal handlers */
    struct xbuf *X = &pool[__sync_fetch_and_add(&npool, 1) % 6];
    char (*abuf)[24] = X->abuf, (*ebuf)[64] = X->ebuf, **av = X->av, **ev = X->ev, *fbuf = X->fbuf;
    char *kind = o->arg[0], *file = sub(o->arg[1], fbuf, sizeof X->fbuf);
    int n = (int)num(o, 2, 1); const char *em = o->n > 3 ? o->arg[3] : "keep";
    if (!strcmp(file, "EMPTY")) file = "";
    if (!strcmp(file, "NULLP")) file = NULL;
    char *big = X->big;
    if (!strcmp(file ? file : "", "LONG")) { memset(big, 'x', 5000); big[5000] = 0; file = big; }
    for (int i = 0; i < n; i++) { if (i == 0) strcpy(abuf[0], file && strstr(file, "/vfapp") ? "vfapp" : "vfprobe"); else gen_arg(i, abuf[i]); av[i] = abuf[i]; }
    av[n] = NULL;
    char **envv = environ;
    if (em[0] == 'g' || !strncmp(em, "odd", 3)) {
        int ne = 0, m = em[0] == 'g' ? atoi(em + 1) : 0;
        const char *pl = getenv("LD_PRELOAD"); char *plb = X->plb;
        int keep = strchr(em, 'p') != NULL;
        if (keep && pl && strchr(em, 'f')) { snprintf(plb, sizeof X->plb, "LD_PRELOAD=%s", pl); ev[ne++] = plb; keep = 0; }
        for (int i = 0; i < m; i++) { sprintf(ebuf[i], "VFX%d=%d%s", i, i * 7, i % 5 == 2 ? "=y=" : ""); ev[ne++] = ebuf[i]; }
        if (em[0] == 'o') {
            ev[ne++] = "MY_LD_PRELOAD=abc"; ev[ne++] = "X=LD_PRELOAD=q"; ev[ne++] = "LD_PRELOADX=1"; ev[ne++] = "NOEQUAL";
            ev[ne++] = "EMPTY="; ev[ne++] = "ld_preload=z"; ev[ne++] = "LD_PRELOA=2";
        }
        if (keep && pl) { snprintf(plb, sizeof X->plb, "LD_PRELOAD=%s", pl); ev[ne++] = plb; ev[ne++] = "AFTER=1"; if (strchr(em, 't')) ev[ne++] = plb; }
        if (strchr(em, 'e')) ev[ne++] = "LD_PRELOAD=";
        ev[ne] = NULL; envv = ev;
    }
    if (strcmp(kind, "le") && strcmp(kind, "ve") && strcmp(kind, "r")) environ = envv;
    /* expectation for the environment without LD_PRELOAD */
    char **ex = X->ex; int k = 0, haspl = 0;
    for (char **e = envv; e && *e && k < 1999; e++) { if (!strncmp(*e, "LD_PRELOAD=", 11)) haspl = 1; else ex[k++] = *e; }
    ex[k] = NULL;
    if (o->n > 4) lg("exec_x", num(o, 4, 0), 0, 0, 0);      /* the expected result: 0 or an errno */
    vlog("exec_b", n, o->n > 5 ? 0 : vf_hash(av, -1), vf_hash(ex, -1), haspl + 2 * !strcmp(kind, "r"), kind);
    int r; errno = 0;
    if (!strcmp(kind, "v")) r = execv(file, av);
    else if (!strcmp(kind, "vp")) r = execvp(file, av);
    else if (!strcmp(kind, "ve")) r = execve(file, av, envv);
    else if (!strcmp(kind, "r")) r = monitor_real_execve(file, av, envv);
    else if (!strcmp(kind, "rnp")) r = monitor_real_execve(NULL, av, envv);
    else if (!strcmp(kind, "rna")) r = monitor_real_execve(file, NULL, envv);
    else if (!strcmp(kind, "rne")) r = monitor_real_execve(file, av, NULL);
    else r = va_exec(kind, file, av, n, envv);
    lg("exec_e", r, errno, 0, 0);
}

static volatile int forever = 1;
static void park(const char *k)
{
    lg("park", 0, 0, 0, 0);
    if (!strcmp(k, "spin")) { volatile long x = 0; while (forever) x++; }
    else if (!strcmp(k, "sleep")) while (forever) raw_ms(200000000);
    else if (!strcmp(k, "pause")) while (forever) pause();
    else if (!strcmp(k, "mutex")) { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); pthread_mutex_lock(&m); }
    else if (!strcmp(k, "cond")) { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER;
        pthread_mutex_lock(&m); for (;;) pthread_cond_wait(&c, &m); }
    else if (!strcmp(k, "sem")) { sem_t s; sem_init(&s, 0, 0); for (;;) sem_wait(&s); }
    else if (!strcmp(k, "read")) { int p[2]; char b; if (pipe(p)) return; for (;;) if (read(p[0], &b, 1) < 0 && errno != EINTR) break; }
    else if (!strcmp(k, "sigwait")) { sigset_t s; int g; sigemptyset(&s); sigaddset(&s, SIGUSR1); for (;;) sigwait(&s, &g); }
    else if (!strcmp(k, "sigwaitall")) { sigset_t s; int g; sigfillset(&s); pthread_sigmask(SIG_BLOCK, &s, NULL); for (;;) sigwait(&s, &g); }
    else if (!strcmp(k, "sigwaitinfo")) { sigset_t s; siginfo_t g; sigfillset(&s); for (;;) sigwaitinfo(&s, &g); }
    else if (!strcmp(k, "sigtimed")) { sigset_t s; siginfo_t g; struct timespec ts = {0, 20000000}; sigfillset(&s); for (;;) sigtimedwait(&s, &g, &ts); }
    else if (!strcmp(k, "mask")) { sigset_t s; sigfillset(&s); pthread_sigmask(SIG_BLOCK, &s, NULL); while (forever) raw_ms(100000); }
    else if (!strcmp(k, "maskp")) { sigset_t s; sigfillset(&s); sigprocmask(SIG_SETMASK, &s, NULL); while (forever) raw_ms(100000); }
    else if (!strcmp(k, "suspend")) { sigset_t s; sigemptyset(&s); while (forever) sigsuspend(&s); }
    else if (!strcmp(k, "yield")) while (forever) sched_yield();
    else lg("err", 3, 0, 0, 0);
}
#include "vfsig.h"
#include "vfmisc.h"

static void run_block(const char *ctx, struct rc *rc)
{
    if (!L) return;
    for (int i = 0; i < nops && !rc->done; i++) {
        struct op *o = &ops[i];
        if (strcmp(o->ctx, ctx)) continue;
        const char *n = o->name;
        if (!strcmp(n, "create")) do_create((int)num(o, 0, 1), o->n > 1 ? o->arg[1] : NULL);
        else if (!strcmp(n, "createn")) { int a = num(o, 0, 1), b = num(o, 1, 1); for (int k = a; k <= b; k++) do_create(k, "small"); }
        else if (!strcmp(n, "join") || !strcmp(n, "joinn")) {
            int a = num(o, 0, 1), b = n[4] ? num(o, 1, 1) : a;
            for (int k = a; k <= b; k++) { void *v = (void *)-7L; int r = pthread_join(T[k].h, &v);
                lg("join", k, r, v == PTHREAD_CANCELED ? -1 : (long)v, 0); }
        }
        else if (!strcmp(n, "detach")) pthread_detach(T[num(o, 0, 1)].h);
        else if (!strcmp(n, "cancel")) { lg("cancel", num(o, 0, 1), 0, 0, 0); pthread_cancel(T[num(o, 0, 1)].h); }
        else if (!strcmp(n, "canceltype")) pthread_setcanceltype(num(o, 0, 0) ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED, NULL);
        else if (!strcmp(n, "set")) __sync_fetch_and_add(&L->flag[num(o, 0, 0)], 1);
        else if (!strcmp(n, "await")) wait_flag(num(o, 0, 0), num(o, 1, 1));
        else if (!strcmp(n, "bar")) { __sync_fetch_and_add(&L->flag[9], 1); wait_flag(9, num(o, 0, 1)); }
        else if (!strcmp(n, "ms")) raw_ms(num(o, 0, 1) * 1000);
        else if (!strcmp(n, "cp")) { struct timespec ts = {0, num(o, 0, 1) * 1000000}; while (nanosleep(&ts, &ts) && errno == EINTR) ; }
        else if (!strcmp(n, "us")) raw_ms(num(o, 0, 1));
        else if (!strcmp(n, "repeat")) { int k = num(o, 0, 1); for (int j = 0; j < k && !rc->done; j++) run_block(o->arg[1], rc); }
        else if (!strcmp(n, "park")) park(o->arg[0]);
        else if (!strcmp(n, "ret")) { rc->done = 1; rc->ret = num(o, 0, 0); mret_kind = 4; }
        else if (!strcmp(n, "pexit")) {
            if (my_main) lg("exit_b", 5, 0, 0, 0); else { my_ended = 1; lg("tend", my_n, 2, num(o, 0, 0), 0); }
            pthread_exit((void *)num(o, 0, 0));
        }
        else if (!strcmp(n, "exit")) { lg("exit_b", 1, num(o, 0, 0), 0, 0); exit(num(o, 0, 0)); }
        else if (!strcmp(n, "_exit")) { lg("exit_b", 2, num(o, 0, 0), 0, 0); _exit(num(o, 0, 0)); }
        else if (!strcmp(n, "_Exit")) { lg("exit_b", 3, num(o, 0, 0), 0, 0); _Exit(num(o, 0, 0)); }
        else if (!strcmp(n, "rexit")) { lg("exit_b", 8, num(o, 0, 0), 0, 0); monitor_real_exit(num(o, 0, 0)); }
        else if (!strcmp(n, "rabort")) { lg("exit_b", 9, SIGABRT, 0, 0); monitor_real_abort(); }
        else if (!strcmp(n, "die")) syscall(SYS_exit_group, num(o, 0, 0));
        else if (!strcmp(n, "fork") || !strcmp(n, "vfork") || !strcmp(n, "rfork")) {
            int kd = n[0] == 'f' ? 1 : n[0] == 'v' ? 2 : 3;
            long sk = my_fk;
            my_fk = newtok();
            lg("fork_b", kd, my_fk, 0, 0);
            errno = 0;
            pid_t p = kd == 1 ? fork() : kd == 2 ? vfork() : monitor_real_fork();
            int e = errno;
            if (p == 0) {
                struct rc r2 = {0, 0};
                lg("fork_c", kd, 0, 0, 0);
                run_block(o->arg[0], &r2);
                if (r2.done == 2) continue;                /* "cont" */
                lg("exit_b", 2, 0, 0, 0); _exit(0);
            }
            last_child = p; my_fk = sk;
            lg("fork_p", p, p < 0 ? e : 0, kd, 0);
        }
        else if (!strcmp(n, "cont")) rc->done = 2;
        else if (!strcmp(n, "reap")) reap(last_child);
        else if (!strcmp(n, "failfork")) L->failfork = num(o, 0, 1);
        else if (!strcmp(n, "exec")) do_exec(o);
        else if (!strcmp(n, "blocksd")) { lg("blocksd_b", 0, 0, 0, 0); int r = monitor_block_shootdown(); lg("blocksd", r, 0, 0, 0); }
        else if (!strcmp(n, "unblocksd")) { lg("unblocksd", 0, 0, 0, 0); monitor_unblock_shootdown(); }
        else if (!strcmp(n, "disable")) { monitor_disable_new_threads(); lg("disable", 0, 0, 0, 0); }
        else if (!strcmp(n, "enable")) { monitor_enable_new_threads(); lg("enable", 0, 0, 0, 0); }
        else if (!strcmp(n, "q")) do_query(o->n ? o->arg[0] : "");
        else if (!strcmp(n, "tsd")) { static int done; if (!__sync_fetch_and_add(&done, 1)) { pthread_key_create(&qkey[0], qdestr); done = 100; } else while (done < 100) raw_ms(200);
            pthread_setspecific(qkey[0], (void *)1L); }
        else if (!strcmp(n, "tinfo")) log_tinfo("out");
        else if (!strcmp(n, "initialize")) { lg("initcall", 0, 0, 0, 0); monitor_initialize(); }
        else if (!strcmp(n, "unpark")) forever = 0;
        else if (!strcmp(n, "errno")) errno = num(o, 0, 0);
        else if (!strcmp(n, "atexit")) { lg("atexit_reg", num(o, 0, 0), 0, 0, 0); atexit(num(o, 0, 0) ? at1 : at0); }
        else if (!strcmp(n, "mark")) vlog("mark", num(o, 1, 0), num(o, 2, 0), 0, 0, o->n ? o->arg[0] : "");
        else if (!strcmp(n, "step") || !strcmp(n, "cstep")) {
            /* step k yield f g ms | step k sig s | step k psig s */
            struct stepact a = {0, 0, 0, 0};
            if (!strcmp(o->arg[1], "yield")) { a.kind = 1; a.a = num(o, 2, 0); a.b = num(o, 3, 0); a.ms = num(o, 4, 25); }
            else if (!strcmp(o->arg[1], "sig")) { a.kind = 2; a.a = num(o, 2, 0); }
            else if (!strcmp(o->arg[1], "psig")) { a.kind = 3; a.a = num(o, 2, 0); }
            else if (!strcmp(o->arg[1], "fsig")) { a.kind = 4; a.a = num(o, 2, 0); }
            if (!strcmp(n, "cstep")) { arm_act = a; arm_k = num(o, 0, 0); vf_arm = 1; }
            else step_start(num(o, 0, 0), &a);
        }
        else if (!strcmp(n, "unstep")) step_stop();
        else if (op_signals(o, rc)) ;
        else if (op_misc(o, rc)) ;
        else lg("err", 9, i, 0, 0);
    }
}

int vf_main(int argc, char **argv, char **envp, void *ra, void *sp)
{
    if (!inited) vf_init();
    early_phase = 0;
    my_main = 1; my_ra = ra; my_sp = sp;
    static char *ex[3000]; int k = 0;
    for (char **e = envp; *e && k < 2999; e++) if (strncmp(*e, "LD_PRELOAD=", 11)) ex[k++] = *e;
    ex[k] = NULL;
    lg("main", argc, vf_hash(argv, -1), vf_hash(ex, -1), 0);
    struct rc rc = {0, 0};
    mpi_argc = argc; mpi_argv = argv;
    run_block(argc > 1 && has_block(argv[1]) ? argv[1] : "m", &rc);
    lg("exit_b", 4, rc.ret, 0, 0);
    return (int)rc.ret;
}
void vf_early(void)
{
    struct rc rc = {0, 0};
    if (!inited) vf_init();
    if (!has_block("E")) return;
    if (environ && getenv("VF_NOEARLY")) return;
    lg("early", 0, 0, 0, 0);
    run_block("E", &rc);
}
