/* Linked into programs that have no work meter of their own (the victor program). */
__attribute__((weak)) void __sanitizer_cov_trace_pc_guard_init(unsigned *a, unsigned *b) { (void)a; (void)b; }
__attribute__((weak)) void __sanitizer_cov_trace_pc_guard(unsigned *g) { (void)g; }
