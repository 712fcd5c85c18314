// The few library functions a translation unit needs in WebAssembly; the mathematical ones are in platform.js.
typedef __SIZE_TYPE__ size_t;
typedef __UINTPTR_TYPE__ uintptr_t;
#define WEAK __attribute__((weak))
extern unsigned char __heap_base;
static uintptr_t heap = 0;
WEAK void* malloc(size_t n) {
    if (!heap) heap = (uintptr_t)&__heap_base;
    heap = (heap + 15) & ~(uintptr_t)15;
    uintptr_t p = heap;
    heap += n;
    while (heap > __builtin_wasm_memory_size(0) * 65536) if (__builtin_wasm_memory_grow(0, 16) == (size_t)-1) __builtin_trap();
    return (void*)p;
}
WEAK void free(void* p) { (void)p; }
WEAK void* memcpy(void* d, const void* s, size_t n) { char* a = d; const char* b = s; while (n--) *a++ = *b++; return d; }
WEAK void* memmove(void* d, const void* s, size_t n) {
    char* a = d; const char* b = s;
    if ((uintptr_t)d < (uintptr_t)s) while (n--) *a++ = *b++; else while (n--) a[n] = b[n];
    return d;
}
WEAK void* memset(void* d, int c, size_t n) { char* a = d; while (n--) *a++ = (char)c; return d; }
WEAK int memcmp(const void* x, const void* y, size_t n) {
    const unsigned char *a = x, *b = y;
    for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1;
    return 0;
}
WEAK size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
WEAK void* calloc(size_t a, size_t b) { return memset(malloc(a * b), 0, a * b); }
WEAK int __cxa_atexit(void (*f)(void*), void* a, void* b) { (void)f; (void)a; (void)b; return 0; }
WEAK int __cxa_guard_acquire(char* g) { return !*g; }
WEAK void __cxa_guard_release(char* g) { *g = 1; }
WEAK void __cxa_guard_abort(char* g) { (void)g; }
WEAK void* __dso_handle = 0;
static int no;
WEAK int* __errno_location(void) { return &no; }
WEAK int fprintf(void* f, const char* s, ...) { (void)f; (void)s; return 0; }
WEAK int printf(const char* s, ...) { (void)s; return 0; }
WEAK int fputs(const char* s, void* f) { (void)s; (void)f; return 0; }
WEAK int fputc(int c, void* f) { (void)f; return c; }
WEAK int putchar(int c) { return c; }
WEAK int puts(const char* s) { (void)s; return 0; }
WEAK size_t fwrite(const void* p, size_t k, size_t n, void* f) { (void)p; (void)k; (void)f; return n; }
WEAK int fflush(void* f) { (void)f; return 0; }
WEAK void* stderr = 0;
WEAK void* stdout = 0;
WEAK void* _Znwm(size_t n) { return malloc(n); }
WEAK void* _Znam(size_t n) { return malloc(n); }
WEAK void* _Znwj(size_t n) { return malloc(n); }
WEAK void* _Znaj(size_t n) { return malloc(n); }
WEAK void _ZdlPv(void* p) { (void)p; }
WEAK void _ZdaPv(void* p) { (void)p; }
WEAK void _ZdlPvj(void* p, size_t n) { (void)p; (void)n; }
WEAK void _ZdlPvm(void* p, size_t n) { (void)p; (void)n; }
