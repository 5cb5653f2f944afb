/* a message passing library as libmonitor sees it: every binding is a real function of its own */
extern int vf_mpi_real(const char *name, int *argc, char ***argv, long arg) __attribute__((weak));
#define SZ(c) ((int)(c) * 10 + 5)
#define RK(c) ((int)(c) * 3 + 1)
#define C4(P) \
 int P##MPI_Init(int *c, char ***v) { return vf_mpi_real(#P "MPI_Init", c, v, 0); } \
 int P##MPI_Init_thread(int *c, char ***v, int r, int *p) { int x = vf_mpi_real(#P "MPI_Init_thread", c, v, r); *p = r + 1; return x; } \
 int P##MPI_Finalize(void) { return vf_mpi_real(#P "MPI_Finalize", 0, 0, 0); } \
 int P##MPI_Comm_size(void *c, int *s) { *s = SZ((long)c); return 0; } \
 int P##MPI_Comm_rank(void *c, int *k) { int x = vf_mpi_real(#P "MPI_Comm_rank", 0, 0, (long)c); *k = RK((long)c); return x; }
C4() C4(P)
#define F4(q, s) \
 void q##mpi_init##s(int *e) { *e = vf_mpi_real(#q "mpi_init" #s, 0, 0, 0); } \
 void q##mpi_init_thread##s(int *r, int *p, int *e) { *e = vf_mpi_real(#q "mpi_init_thread" #s, 0, 0, *r); *p = *r + 1; } \
 void q##mpi_finalize##s(int *e) { *e = vf_mpi_real(#q "mpi_finalize" #s, 0, 0, 0); } \
 void q##mpi_comm_size##s(int *c, int *v, int *e) { *v = SZ(*c); *e = 0; } \
 void q##mpi_comm_rank##s(int *c, int *k, int *e) { *e = vf_mpi_real(#q "mpi_comm_rank" #s, 0, 0, *c); *k = RK(*c); }
F4(,) F4(, _) F4(, __) F4(p,) F4(p, _) F4(p, __)
