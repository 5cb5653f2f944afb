int vf_main(int, char **, char **, void *, void *);
void vf_early(void);
__attribute__((constructor)) static void early(void) { vf_early(); }
int main(int argc, char **argv, char **envp)
{ return vf_main(argc, argv, envp, __builtin_return_address(0), __builtin_frame_address(0)); }
