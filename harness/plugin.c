extern void vf_plugin(const char *name, int fini) __attribute__((weak));
__attribute__((constructor)) static void up(void) { if (vf_plugin) vf_plugin(NAME, 0); }
__attribute__((destructor)) static void down(void) { if (vf_plugin) vf_plugin(NAME, 1); }
int SYM(void) { return 42; }
