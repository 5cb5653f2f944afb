/* exec target: reports what it was given */
#define _GNU_SOURCE
#include <stdio.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#include "vflog.h"
static struct vf_log *L;
static void plog(const char *e, long a, long b, long c, long d)
{
    if (!L) {
        void *p = mmap(NULL, VF_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, VF_FD, 0);
        if (p == MAP_FAILED) return;
        L = p;
    }
    uint32_t i = __sync_fetch_and_add(&L->next, 1);
    if (i >= VF_NREC) return;
    struct vf_rec *r = &L->rec[i];
    r->pid = (int)syscall(SYS_getpid); r->u = 0; strcpy(r->e, e);
    r->a = a; r->b = b; r->c = c; r->d = d;
    __sync_synchronize(); r->ready = 1;
}
int main(int argc, char **argv, char **envp)
{
    static char *ex[4000]; int k = 0, pl = 0;
    for (char **e = envp; *e && k < 3999; e++) { if (!strncmp(*e, "LD_PRELOAD=", 11)) pl = 1; else ex[k++] = *e; }
    ex[k] = NULL;
    if (argc == 2 && !strncmp(argv[1], "S:", 2)) {         /* signal state of a command */
        long ign = 0; struct sigaction sa; unsigned long mask = 0;
        for (int s = 1; s < 31; s++) if (s != 9 && s != 19 && sigaction(s, NULL, &sa) == 0 && sa.sa_handler == SIG_IGN) ign |= 1L << (s - 1);
        syscall(SYS_rt_sigprocmask, 0, NULL, &mask, 8);
        plog("sigprobe", ign, mask & 0x3fffffff, 0, 0);
        return 0;
    }
    if (argc == 2 && !strncmp(argv[1], "E:", 2)) {         /* environment of a command */
        unsigned h = 0;
        for (char **e = envp; *e; e++) {
            const char *q = strchr(*e, '='), *p; char *one[2] = {*e, NULL}; int ok = q && q > *e;
            for (p = *e; ok && p < q; p++) if (!(*p == '_' || (*p >= 'A' && *p <= 'Z') || (*p >= 'a' && *p <= 'z') || (p > *e && *p >= '0' && *p <= '9'))) ok = 0;
            if (!ok) continue;
            if (!strncmp(*e, "PWD=", 4) || !strncmp(*e, "OLDPWD=", 7) || !strncmp(*e, "_=", 2) || !strncmp(*e, "LD_PRELOAD=", 11) || !strncmp(*e, "SHLVL=", 6)) continue;
            h += vf_hash(one, 1) * 2654435761u;
        }
        plog("envprobe", h & 0x3fffffff, pl, 0, 0);
        return 0;
    }
    if (argc == 2 && !strncmp(argv[1], "P:", 2)) {         /* signal state of the caller of system: P:pid:tid */
        int pid, tid; char f[80], l[200]; unsigned long blk = 0, ign = 0;
        if (sscanf(argv[1], "P:%d:%d", &pid, &tid) == 2) {
            snprintf(f, sizeof f, "/proc/%d/task/%d/status", pid, tid);
            /* the C library blocks every signal around a spawn, for a moment longer than until we run */
            for (int k = 0; k < 400; k++) {
                FILE *fp = fopen(f, "r");
                while (fp && fgets(l, sizeof l, fp)) { sscanf(l, "SigBlk: %lx", &blk); sscanf(l, "SigIgn: %lx", &ign); }
                if (fp) fclose(fp);
                if (__builtin_popcountl(blk) < 40) break;
                usleep(1000);
            }
        }
        plog("sysprobe", (blk >> (SIGCHLD - 1)) & 1, (ign >> (SIGINT - 1)) & 1, (ign >> (SIGQUIT - 1)) & 1, blk & 0x3fffffff);
        return 0;
    }
    plog("probe", argc, vf_hash(argv, -1), vf_hash(ex, -1), pl);
    int code = 0;
    if (argc == 2 && sscanf(argv[1], "X:%d", &code) == 1) return code;
    return 0;
}
