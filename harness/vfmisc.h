/* exec expectations, system, dlopen, MPI, broadcast */
static unsigned envset(char *const *e)
{   /* order-independent hash of the variables a shell passes on */
    unsigned h = 0;
    for (; e && *e; e++) {
        const char *q = strchr(*e, '='), *p; char *one[2] = {*e, NULL}; int ok = q && q > *e;
        for (p = *e; ok && p < q; p++) if (!(*p == '_' || (*p >= 'A' && *p <= 'Z') || (*p >= 'a' && *p <= 'z') || (p > *e && *p >= '0' && *p <= '9'))) ok = 0;
        if (!ok) continue;
        if (!strncmp(*e, "PWD=", 4) || !strncmp(*e, "OLDPWD=", 7) || !strncmp(*e, "_=", 2) || !strncmp(*e, "LD_PRELOAD=", 11) || !strncmp(*e, "SHLVL=", 6)) continue;
        h += vf_hash(one, 1) * 2654435761u;
    }
    return h & 0x3fffffff;
}
/* everything about signals the application and the kernel know */
struct sigall { struct { void *h; unsigned long f; void *r; unsigned long m; } k[65]; struct sigaction a[65]; unsigned long mask; };
static void sig_all(struct sigall *s)
{
    memset(s, 0, sizeof *s);
    for (int i = 1; i <= 64; i++) {
        if (syscall(SYS_rt_sigaction, i, NULL, &s->k[i], 8)) s->k[i].h = (void *)-1L;
        if (i != 32 && i != 33 && sigaction(i, NULL, &s->a[i])) s->a[i].sa_flags = -1;
    }
    s->mask = kmask();
}
static int sig_same(struct sigall *x, struct sigall *y, int masks)
{
    for (int i = 1; i <= 64; i++) {
        if (i == SIGTRAP || i == 32 || i == 33) continue;
        if (x->k[i].h != y->k[i].h || x->k[i].f != y->k[i].f || x->k[i].m != y->k[i].m) return 0;
        if (x->a[i].sa_flags != y->a[i].sa_flags || x->a[i].sa_handler != y->a[i].sa_handler || set2m(&x->a[i].sa_mask) != set2m(&y->a[i].sa_mask)) return 0;
    }
    return !masks || x->mask == y->mask;
}
static long app_ignored(void)
{
    long m = 0; struct sigaction a;
    for (int i = 1; i < 31; i++) if (i != 9 && i != 19 && sigaction(i, NULL, &a) == 0 && a.sa_handler == SIG_IGN) m |= 1L << (i - 1);
    return m;
}
static char *subst(const char *s, char *b, int len)
{   /* ~ blank, @TID@ and @PID@ */
    int j = 0;
    for (; *s && j < len - 24; s++) {
        if (!strncmp(s, "@TID@", 5)) { j += sprintf(b + j, "%d", (int)syscall(SYS_gettid)); s += 4; }
        else if (!strncmp(s, "@PID@", 5)) { j += sprintf(b + j, "%d", rawpid()); s += 4; }
        else b[j++] = *s == '~' ? ' ' : *s;
    }
    b[j] = 0; return b;
}
/* system CMD WANT [over]: WANT is the expected result or x; over: other calls overlap */
static void do_system(struct op *o)
{
    int kd = o->name[0] == 's' ? 4 : 5;
    static int noover = -1; if (noover < 0) noover = getenv("MONITOR_NO_SYSTEM_OVERRIDE") != NULL;
    if (kd == 4 && noover) kd = 6;
    char cmd[6000]; const char *c = o->arg[0];
    long want = o->n > 1 && o->arg[1][0] != 'x' ? atol(o->arg[1]) : -999;
    int over = o->n > 2, nul = !strcmp(c, "NULL");
    struct sigall *b = calloc(2, sizeof *b);
    if (!strcmp(c, "EMPTY")) cmd[0] = 0;
    else if (!strcmp(c, "LONG")) { memset(cmd, ' ', 5000); strcpy(cmd + 5000, "exit 6"); }
    else subst(c, cmd, sizeof cmd);
    long tok = newtok(), sk = my_fk;
    if (!over) sig_all(&b[0]);
    vlog("sys_sx", app_ignored(), kmask() & 0x3fffffff, envset(environ), kd == 5 ? 0 : getenv("LD_PRELOAD") != NULL, NULL);
    lg("sys_b", kd, tok, want, nul);
    my_fk = tok;
    errno = 0;
    int r = kd == 5 ? monitor_real_system(nul ? NULL : cmd) : system(nul ? NULL : cmd);
    int e = errno;
    my_fk = sk;
    int ok = 1;
    if (!over) { sig_all(&b[1]); ok = sig_same(&b[0], &b[1], 1); }
    free(b);
    lg("sys_e", r, ok, r == -1 ? e : 0, nul);
}
static struct sigall snap0;

/* ---------------------------------------------------------------- dlopen */
static long hd(void *p) { unsigned long x = (unsigned long)p; return p ? (long)(((x >> 4) ^ (x >> 33)) & 0x3fffffff) | 1 : 0; }
static long hs(const char *s) { char *v[2] = {(char *)s, NULL}; return s ? (long)vf_hash(v, 1) : -1; }
void monitor_pre_dlopen(const char *path, int flags)
{ CNT(c); lg("pre_dlopen", hs(path), flags, 0, 0); cbops("pre_dlopen", cnt); }
void monitor_dlopen(const char *path, int flags, void *h)
{ CNT(c); lg("dlopen", hs(path), flags, hd(h), 0); cbops("dlopen", cnt); }
void monitor_dlclose(void *h)
{ CNT(c); lg("dlclose", hd(h), 0, 0, 0); cbops("dlclose", cnt); }
void monitor_post_dlclose(void *h, int ret)
{ CNT(c); lg("post_dlclose", hd(h), ret, 0, 0); cbops("post_dlclose", cnt); }
static void *dlhs[16]; static __thread void *dlht[4];
#define DLH(k) (*((k) >= 100 ? &dlht[(k) - 100] : &dlhs[k]))      /* slots from 100 belong to the thread */
void vf_plugin(const char *name, int fini)
{   /* constructor or destructor of a plug-in */
    struct rc rc = {0, 0}; char c[24];
    if (!L || !is_app) return;
    vlog("plugin", fini, 0, 0, 0, name);
    snprintf(c, sizeof c, "%s:%s", fini ? "Q" : "P", name); run_block(c, &rc);
}
static int parse_dl(const char *w)
{
    int f = 0;
    for (; *w; w++) f |= *w == 'n' ? RTLD_NOW : *w == 'l' ? RTLD_LAZY : *w == 'g' ? RTLD_GLOBAL : *w == 'o' ? RTLD_NOLOAD : *w == 'd' ? RTLD_NODELETE : 0;
    return f;
}
/* dlopen SLOT PATH FLAGS [0|1: expected to succeed] ; rdlopen */
static void do_dlopen(struct op *o)
{
    int real = o->name[0] == 'r', slot = num(o, 0, 0), f = parse_dl(o->arg[2]), want = o->n > 3 ? atoi(o->arg[3]) : -1;
    char b[400]; const char *p = subst(o->arg[1], b, sizeof b);
    if (!strcmp(p, "NULL")) p = NULL;
    dlerror();
    vlog("dl_b", 1 + real, hs(p), f, want, NULL);
    void *h = real ? monitor_real_dlopen(p, f) : dlopen(p, f);
    char *er = dlerror();
    int bad = h ? (er ? 1 : 0) : (!er || (!(f & RTLD_NOLOAD) && p && *p && !strstr(er, p)) ? 2 : 0);
    if (!h && (f & RTLD_NOLOAD)) bad = 0;
    lg("dl_e", 1 + real, hd(h), bad, DLH(slot) && h ? DLH(slot) == h : -1);
    if (h) DLH(slot) = h;
}
static void do_dlclose(struct op *o)
{
    int real = o->name[0] == 'r', slot = num(o, 0, 0);
    void *h = slot < 0 ? (void *)dlhs : DLH(slot);
    dlerror();
    lg("dl_b", 3 + real, hd(h), 0, slot < 0 ? 0 : 1);
    int r = real ? monitor_real_dlclose(h) : dlclose(h);
    char *er = dlerror();
    if (slot >= 100) DLH(slot) = NULL;
    lg("dl_e", 3 + real, r, r ? !er : !!er, -1);
}

/* ------------------------------------------------------------------- MPI */
#define MPIL(X) X(MPI_, Init, 0) X(PMPI_, Init, 4)
extern int MPI_Init(int *, char ***), PMPI_Init(int *, char ***), MPI_Init_thread(int *, char ***, int, int *), PMPI_Init_thread(int *, char ***, int, int *);
extern int MPI_Finalize(void), PMPI_Finalize(void), MPI_Comm_rank(void *, int *), PMPI_Comm_rank(void *, int *);
#define FD(p, s) extern void p##mpi_init##s(int *), p##mpi_init_thread##s(int *, int *, int *), p##mpi_finalize##s(int *), p##mpi_comm_rank##s(int *, int *, int *);
FD(,) FD(, _) FD(, __) FD(p,) FD(p, _) FD(p, __)
struct mf { const char *n; void *f; int cls, bind; };
static struct mf mfs[] = {
#define F4(p, s, b) {#p "mpi_init" #s, p##mpi_init##s, 1, b}, {#p "mpi_init_thread" #s, p##mpi_init_thread##s, 2, b}, \
                    {#p "mpi_finalize" #s, p##mpi_finalize##s, 3, b}, {#p "mpi_comm_rank" #s, p##mpi_comm_rank##s, 4, b},
    {"MPI_Init", MPI_Init, 1, 0}, {"MPI_Init_thread", MPI_Init_thread, 2, 0}, {"MPI_Finalize", MPI_Finalize, 3, 0}, {"MPI_Comm_rank", MPI_Comm_rank, 4, 0},
    {"PMPI_Init", PMPI_Init, 1, 4}, {"PMPI_Init_thread", PMPI_Init_thread, 2, 4}, {"PMPI_Finalize", PMPI_Finalize, 3, 4}, {"PMPI_Comm_rank", PMPI_Comm_rank, 4, 4},
    F4(,, 1) F4(, _, 2) F4(, __, 3) F4(p,, 5) F4(p, _, 6) F4(p, __, 7)
};
static int mpi_argc; static char **mpi_argv;     /* what the application passes */
static struct { int *argc; char ***argv; long arg; } mst[32]; static int mdep, mret;
static struct mf *mf_of(const char *n)
{ for (unsigned i = 0; i < sizeof mfs / sizeof *mfs; i++) if (!strcmp(mfs[i].n, n)) return &mfs[i]; return NULL; }
void monitor_mpi_pre_init(void)
{ CNT(c); lg("mpi_pre_init", 0, 0, 0, 0); cbops("mpi_pre_init", cnt); lg("mpi_pre_init.", 0, 0, 0, 0); }
void monitor_init_mpi(int *argc, char ***argv)
{
    CNT(c);
    int same = mdep > 0 && argc == mst[mdep - 1].argc && argv == mst[mdep - 1].argv;
    lg("init_mpi", argc ? *argc : -1, argv && *argv ? vf_hash(*argv, -1) : -1, same, 0);
    cbops("init_mpi", cnt); lg("init_mpi.", 0, 0, 0, 0);
}
void monitor_fini_mpi(void)
{ CNT(c); lg("fini_mpi", monitor_mpi_comm_size(), monitor_mpi_comm_rank(), 0, 0); cbops("fini_mpi", cnt); lg("fini_mpi.", 0, 0, 0, 0); }
void monitor_mpi_post_fini(void)
{ CNT(c); lg("mpi_post_fini", 0, 0, 0, 0); cbops("mpi_post_fini", cnt); lg("mpi_post_fini.", 0, 0, 0, 0); }
/* the real functions (fakempi.c) come here */
int vf_mpi_real(const char *name, int *argc, char ***argv, long arg)
{
    struct mf *m = mf_of(name); struct rc rc = {0, 0}; char c[32];
    int ok = mdep > 0 && argc == mst[mdep - 1].argc && argv == mst[mdep - 1].argv && arg == mst[mdep - 1].arg;
    int sret = mret; mret = 0;
    lg("mp_r", m ? m->cls : 0, m ? m->bind : -1, ok, 0);
    snprintf(c, sizeof c, "R:%s", name); run_block(c, &rc);
    int r = mret; mret = sret;
    lg("mp_r.", m ? m->cls : 0, r, 0, 0);
    return r;
}
/* mpi NAME [arg]: arg is the communicator, the wanted thread level, or null */
static void do_mpi(struct op *o)
{
    struct mf *m = mf_of(o->arg[0]);
    if (!m || mdep > 30) { lg("err", 30, 0, 0, 0); return; }
    int C = m->bind == 0 || m->bind == 4, nul = o->n > 1 && !strcmp(o->arg[1], "null");
    long arg = m->cls == 2 || m->cls == 4 ? num(o, 1, 1) : 0;
    int ac = mpi_argc; char **avv = mpi_argv; int *acp = nul ? NULL : &ac; char ***avp = nul ? NULL : &avv;
    int r = -77, out = -78, req = (int)arg;
    if (!C || m->cls > 2) { acp = NULL; avp = NULL; }
    mst[mdep].argc = acp; mst[mdep].argv = avp; mst[mdep].arg = arg; mdep++;
    vlog("mp_b", m->cls, m->bind, arg, 0, m->n);
    if (C) switch (m->cls) {
        case 1: r = ((int (*)(int *, char ***))m->f)(acp, avp); break;
        case 2: r = ((int (*)(int *, char ***, int, int *))m->f)(acp, avp, req, &out); break;
        case 3: r = ((int (*)(void))m->f)(); break;
        case 4: r = ((int (*)(void *, int *))m->f)((void *)arg, &out); break;
    } else switch (m->cls) {
        case 1: ((void (*)(int *))m->f)(&r); break;
        case 2: ((void (*)(int *, int *, int *))m->f)(&req, &out, &r); break;
        case 3: ((void (*)(int *))m->f)(&r); break;
        case 4: ((void (*)(int *, int *, int *))m->f)(&req, &out, &r); break;
    }
    mdep--;
    lg("mp_e", r, out, m->cls, ac == mpi_argc && avv == mpi_argv);
}

/* ------------------------------------------------------------- broadcast */
static int op_misc(struct op *o, struct rc *rc)
{
    const char *n = o->name;
    if (!strcmp(n, "system") || !strcmp(n, "rsystem")) do_system(o);
    else if (!strcmp(n, "execs")) {     /* execs KIND: exec a program that reports the signal state it starts with */
        char f[500]; snprintf(f, sizeof f, "%s/vfprobe", getenv("VFH")); char *av[3] = {"vfprobe", "S:", NULL};
        vlog("sys_sx", app_ignored(), kmask() & 0x3fffffff, 0, 0, NULL);
        vlog("exec_b", 2, 0, 0, 2 * !strcmp(o->arg[0], "r"), o->arg[0]);
        int r = !strcmp(o->arg[0], "v") ? execv(f, av) : !strcmp(o->arg[0], "vp") ? execvp(f, av) : !strcmp(o->arg[0], "ve") ? execve(f, av, environ)
              : !strcmp(o->arg[0], "l") ? execl(f, "vfprobe", "S:", NULL) : !strcmp(o->arg[0], "lp") ? execlp(f, "vfprobe", "S:", NULL)
              : !strcmp(o->arg[0], "le") ? execle(f, "vfprobe", "S:", NULL, environ) : monitor_real_execve(f, av, environ);
        lg("exec_e", r, errno, 0, 0);
    }
    else if (!strcmp(n, "sigsnap")) sig_all(&snap0);
    else if (!strcmp(n, "sigcmp")) { struct sigall *s = malloc(sizeof *s); sig_all(s); lg("sigcmp", sig_same(&snap0, s, o->n == 0), 0, 0, 0); free(s); }
    else if (!strcmp(n, "dlopen") || !strcmp(n, "rdlopen")) do_dlopen(o);
    else if (!strcmp(n, "dlclose") || !strcmp(n, "rdlclose")) do_dlclose(o);
    else if (!strcmp(n, "dlsym")) { void *p = dlsym(num(o, 0, 0) < 0 ? RTLD_DEFAULT : DLH(num(o, 0, 0)), o->arg[1]); lg("dlsym", p != NULL, num(o, 2, 0), 0, 0); }
    else if (!strcmp(n, "mpi")) do_mpi(o);
    else if (!strcmp(n, "mpiret")) mret = num(o, 0, 0);
    else if (!strcmp(n, "mpiq")) lg("mpiq", monitor_mpi_comm_size(), monitor_mpi_comm_rank(), 0, 0);
    else if (!strcmp(n, "srank")) { lg("srank", num(o, 0, 0), num(o, 1, 0), 0, 0); monitor_set_size_rank(num(o, 0, 0), num(o, 1, 0)); }
    else if (!strcmp(n, "bcast")) {
        int r; lg("bc_b", num(o, 0, SIGUSR1), 0, 0, 0);
        int b0 = my_bc; my_bc = 1;
        r = monitor_broadcast_signal(num(o, 0, SIGUSR1));
        my_bc = b0;
        lg("bc_e", r, 0, 0, 0);
    }
    else if (!strcmp(n, "setenv")) setenv(o->arg[0], o->n > 1 ? o->arg[1] : "", 1);
    else if (!strcmp(n, "unsetenv")) unsetenv(o->arg[0]);
    else if (!strcmp(n, "noenv")) environ = NULL;
    else if (!strcmp(n, "manyenv")) { for (int i = 0; i < num(o, 0, 1); i++) { char k[24]; sprintf(k, "VFM%d", i); setenv(k, i % 3 ? "v" : "", 1); } }
    else if (!strcmp(n, "chdir")) { if (chdir(o->arg[0])) lg("err", 31, 0, 0, 0); }
    else if (!strcmp(n, "longpath")) { char *b = malloc(70000); long k = num(o, 0, 5000); memset(b, 'q', k); b[0] = '/'; snprintf(b + k, 1000, ":%s", getenv("PATH")); setenv("PATH", b, 1); free(b); }
    else return 0;
    return 1;
}
