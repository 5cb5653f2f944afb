/* vrun: run one scenario, print its event log as one JSON line.
 * usage: vrun <id> <timeout_ms> <scriptfile> <outfile-for-stdio> -- prog args...
 * Environment of the program: this process's environment, with every VFE_x=y
 * turned into x=y (so LD_PRELOAD does not affect vrun itself). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "vflog.h"
static struct vf_log *L;
static void ev(const char *e, int pid, long a, long b)
{
    uint32_t i = __sync_fetch_and_add(&L->next, 1);
    if (i >= VF_NREC) return;
    struct vf_rec *r = &L->rec[i];
    r->pid = pid; r->u = 0; strncpy(r->e, e, 19); r->a = a; r->b = b;
    __sync_synchronize(); r->ready = 1;
}
static long now_ms(void)
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static void killall(void)
{
    char p[64], buf[4096]; int fd, n;
    snprintf(p, sizeof p, "/proc/self/task/%d/children", getpid());
    fd = open(p, O_RDONLY);
    if (fd < 0) return;
    n = read(fd, buf, sizeof buf - 1); close(fd);
    if (n <= 0) return;
    buf[n] = 0;
    for (char *q = strtok(buf, " \n"); q; q = strtok(NULL, " \n")) kill(atoi(q), SIGKILL);
}
static void jstr(FILE *f, const char *s, int max)
{
    fputc('"', f);
    for (int i = 0; i < max && s[i]; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
int main(int argc, char **argv)
{
    if (argc < 7) return 2;
    char *id = argv[1]; int tmo = atoi(argv[2]);
    int fd = memfd_create("vf", 0);
    if (fd < 0 || ftruncate(fd, VF_SIZE)) return 2;
    L = mmap(NULL, VF_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (L == MAP_FAILED) return 2;
    int sfd = open(argv[3], O_RDONLY);
    int ofd = open(argv[4], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (sfd < 0 || ofd < 0) return 2;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    sigset_t s; sigemptyset(&s); sigaddset(&s, SIGCHLD);
    sigprocmask(SIG_BLOCK, &s, NULL);
    long start = now_ms(), deadline = start + tmo;
    int pid = fork();
    if (pid == 0) {
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        sigprocmask(SIG_UNBLOCK, &s, NULL);
        for (int i = 1; i < NSIG; i++) signal(i, SIG_DFL);
        const char *ig = getenv("VFE_VFIGN");
        while (ig && *ig) { signal(atoi(ig), SIG_IGN); ig = strchr(ig, ','); if (ig) ig++; }
        setsid();
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int n = open("/dev/null", O_RDWR);
        dup2(n, 0); dup2(ofd, 1); dup2(ofd, 2);
        dup2(fd, VF_FD); dup2(sfd, VF_SFD);
        for (int i = 3; i < 40; i++) close(i);
        /* environment */
        extern char **environ;
        static char *ne[1024]; int k = 0;
        for (char **e = environ; *e && k < 1000; e++)
            if (!strncmp(*e, "VFE_", 4)) ne[k++] = *e + 4;
        ne[k] = NULL;
        static char *ex[1024]; int m = 0;
        for (int i = 0; i < k; i++) if (strncmp(ne[i], "LD_PRELOAD=", 11)) ex[m++] = ne[i];
        { uint32_t i = __sync_fetch_and_add(&L->next, 1); struct vf_rec *r = &L->rec[i];
          r->pid = getpid(); strcpy(r->e, "spawn"); r->a = argc - 6; r->b = vf_hash(&argv[6], -1); r->c = vf_hash(ex, -1);
          __sync_synchronize(); r->ready = 1; }
        execve(argv[6], &argv[6], ne);
        _exit(126);
    }
    int hang = 0, left = 1, stops = 0;
    while (left) {
        int st, r;
        while ((r = waitpid(-1, &st, WNOHANG | WUNTRACED | WCONTINUED)) > 0) {
            if (WIFEXITED(st)) ev("end", r, 0, WEXITSTATUS(st));
            else if (WIFSIGNALED(st)) ev("end", r, 1, WTERMSIG(st));
            else if (WIFSTOPPED(st)) { ev("stopped", r, WSTOPSIG(st), 0);
                if (stops++ < 20) { ev("contsent", r, 0, 0); kill(r, SIGCONT); } else kill(r, SIGKILL); }
        }
        if (r < 0 && errno == ECHILD) { left = 0; break; }
        long t = now_ms();
        if (t >= deadline) {
            if (!hang) { ev("hang", 0, 0, 0); hang = 1; L->stop = 1; }
            killall();
            struct timespec ts = {0, 5000000};
            sigtimedwait(&s, NULL, &ts);
        } else {
            struct timespec ts = {(deadline - t) / 1000, ((deadline - t) % 1000) * 1000000};
            if (ts.tv_sec > 0) { ts.tv_sec = 1; ts.tv_nsec = 0; }
            sigtimedwait(&s, NULL, &ts);
        }
    }
    FILE *f = stdout;
    uint32_t n = L->next; int over = 0;
    if (n > VF_NREC) { n = VF_NREC; over = 1; }
    fprintf(f, "{\"id\":"); jstr(f, id, 200);
    fprintf(f, ",\"ms\":%ld,\"over\":%d,\"main\":%d,\"hang\":%d,\"steps\":%d,\"t\":[", now_ms() - start, over, pid, hang, L->misc[0]);
    int first = 1;
    for (uint32_t i = 0; i < n; i++) {
        struct vf_rec *r = &L->rec[i];
        if (!r->ready) continue;
        fprintf(f, "%s{\"e\":", first ? "" : ","); first = 0;
        jstr(f, r->e, sizeof r->e);
        fprintf(f, ",\"p\":%d,\"u\":%d,\"a\":%ld,\"b\":%ld,\"c\":%ld,\"d\":%ld,\"s\":",
                r->pid, r->u, (long)r->a, (long)r->b, (long)r->c, (long)r->d);
        jstr(f, r->s, sizeof r->s);
        fputc('}', f);
    }
    fprintf(f, "],\"ips\":[");
    for (int i = 0; i < VF_NIP && L->ip[i]; i++) fprintf(f, "%s%u", i ? "," : "", L->ip[i]);
    fprintf(f, "]}\n");
    return 0;
}
