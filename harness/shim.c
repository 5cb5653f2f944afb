/* libshim.so: sits below libmonitor; injects failures into the "real" calls. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include "vflog.h"
static struct vf_log *L;
static struct vf_log *lg(void)
{
    if (!L) {
        void *p = mmap(NULL, VF_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, VF_FD, 0);
        if (p != MAP_FAILED) L = p;
    }
    return L;
}
extern void vf_pk(pthread_t t, int sig) __attribute__((weak));
int pthread_kill(pthread_t t, int sig)
{
    static int (*real)(pthread_t, int);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_kill");
    if (vf_pk) vf_pk(t, sig);
    return real(t, sig);
}
extern void vf_thread_begins(void) __attribute__((weak));
struct tramp { void *(*f)(void *); void *a; };
static void *tramp(void *p)
{
    struct tramp t = *(struct tramp *)p;
    ((struct tramp *)p)->f = 0;
    vf_thread_begins();
    return t.f(t.a);
}
extern volatile int vf_arm __attribute__((weak));
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    static struct tramp tr[8]; static int n;
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    if (&vf_arm && vf_thread_begins && vf_arm && __sync_bool_compare_and_swap(&vf_arm, 1, 0)) {
        struct tramp *x = &tr[__sync_fetch_and_add(&n, 1) % 8];
        x->f = f; x->a = a;
        return real(t, at, tramp, x);
    }
    return real(t, at, f, a);
}
pid_t fork(void)
{
    static pid_t (*real)(void);
    if (!real) real = dlsym(RTLD_NEXT, "fork");
    if (lg() && L->failfork > 0 && __sync_fetch_and_sub(&L->failfork, 1) == 1) {
        errno = EAGAIN;
        return -1;
    }
    return real();
}
