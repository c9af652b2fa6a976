/* Counts the models and iterators the Python binding holds (linked with --wrap). */
#include <stddef.h>
#define MAXH 4096
static void* live[2][MAXH]; static int n[2]; static int bad;
static void add(int k, void* p) { if (p && n[k] < MAXH) live[k][n[k]++] = p; }
static void del(int k, void* p) { int i; for (i = 0; i < n[k]; ++i) if (live[k][i] == p) { live[k][i] = live[k][--n[k]]; return; } ++bad; }
static void use(int k, void* p) { int i; for (i = 0; i < n[k]; ++i) if (live[k][i] == p) return; ++bad; }
void* __real_sol_CreateModel(const char*, int); void* __real_sol_RestoreModel(const char*); void __real_sol_ReleaseModel(void**);
void* __real_sol_CreateDataIter(int, int); void __real_sol_ReleaseDataIter(void**);
float __real_sol_Train(void*, void*); float __real_sol_Test(void*, void*, const char*); int __real_sol_SaveModel(void*, const char*);
void* __wrap_sol_CreateModel(const char* a, int c) { void* p = __real_sol_CreateModel(a, c); add(0, p); return p; }
void* __wrap_sol_RestoreModel(const char* a) { void* p = __real_sol_RestoreModel(a); add(0, p); return p; }
void __wrap_sol_ReleaseModel(void** m) { del(0, *m); __real_sol_ReleaseModel(m); }
void* __wrap_sol_CreateDataIter(int a, int b) { void* p = __real_sol_CreateDataIter(a, b); add(1, p); return p; }
void __wrap_sol_ReleaseDataIter(void** m) { del(1, *m); __real_sol_ReleaseDataIter(m); }
float __wrap_sol_Train(void* m, void* d) { use(0, m); use(1, d); return __real_sol_Train(m, d); }
float __wrap_sol_Test(void* m, void* d, const char* o) { use(0, m); use(1, d); return __real_sol_Test(m, d, o); }
int __wrap_sol_SaveModel(void* m, const char* p) { use(0, m); return __real_sol_SaveModel(m, p); }
int vp_live_models(void) { return n[0]; }
int vp_live_iters(void) { return n[1]; }
int vp_bad(void) { return bad; }
