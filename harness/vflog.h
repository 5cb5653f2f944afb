/* Shared event log: a file descriptor (VF_FD) mapped by every process of a
 * scenario, inherited over fork and exec. */
#ifndef VFLOG_H
#define VFLOG_H
#include <stdint.h>
#define VF_FD 900
#define VF_SFD 901
#define VF_NREC 24000
#define VF_NFLAG 64
#define VF_NIP 16384
struct vf_rec {
    volatile uint32_t ready;
    int32_t pid;
    int32_t u;                 /* thread uid, unique over the scenario */
    char e[20];
    int64_t a, b, c, d;
    char s[64];
};
struct vf_log {
    volatile uint32_t next, nextu, nexttok, stop;
    volatile int32_t flag[VF_NFLAG];
    volatile int32_t failfork, failcreate;
    volatile int32_t misc[64];
    struct vf_rec rec[VF_NREC];
    volatile uint32_t ip[VF_NIP];   /* a probe run: where the stepped thread was, inside libmonitor */
};
static inline unsigned vf_hash(char *const *v, int n)
{
    unsigned h = 2166136261u;
    for (int i = 0; v && v[i] && (n < 0 || i < n); i++)
        for (const char *p = v[i]; ; p++) {
            h = (h ^ (unsigned char)*p) * 16777619u;
            if (!*p) break;
        }
    return h & 0x3fffffff;
}
#define VF_SIZE (sizeof(struct vf_log))
#endif
