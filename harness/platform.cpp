// Makes recorded calls on another platform: a 32-bit process (i386) or a WebAssembly module run by platform.js.
// Record: u16 operation, s32 immediate, u16 pointer offset, u16 arena size, data operands, arena.
// Outcome: result, arena.
#include "driver.hpp"
#include "ops_gen.inc"

extern "C" {
alignas(64) uint8_t plat_in[4096];
alignas(64) uint8_t plat_out[4096];
alignas(64) static uint8_t arena[4096];

int plat_count() { return g_nops; }
const char* plat_name(int i) { return g_ops[i].name; }
int plat_ok(int i) { return g_ops[i].fn != nullptr && g_ops[i].shape; }

__attribute__((noinline)) void plat_junk(uint8_t b) { volatile uint8_t buf[2048]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = b; }

int plat_call(int junk) {
    uint16_t id, p, mlen; int32_t k;
    memcpy(&id, plat_in, 2); memcpy(&k, plat_in + 2, 4); memcpy(&p, plat_in + 6, 2); memcpy(&mlen, plat_in + 8, 2);
    const Op& op = g_ops[id];
    alignas(64) uint8_t buf[4][80];
    const uint8_t* a[4];
    const uint8_t* q = plat_in + 10;
    for (int i = 0; i < op.nargs; i++) {
        memset(buf[i], junk, sizeof buf[i]);
        switch (op.args[i].k) {
        case 'p': { uint8_t* x = arena + 64 + p; memcpy(buf[i], &x, sizeof x); break; }
        case 'i': memcpy(buf[i], &k, 4); break;
        default: memcpy(buf[i], q, op.args[i].n); q += op.args[i].n;
        }
        a[i] = buf[i];
    }
    memset(arena, 0xC3, sizeof arena);
    memcpy(arena + 64, q, mlen);
    uint8_t res[128];
    memset(res, 0x5A, sizeof res);
    plat_junk((uint8_t)junk);
    op.thunk(op.fn, a, res);
    memcpy(plat_out, res, op.resn);
    return op.resn;
}
// the arena afterwards; 0 if something around it was changed
int plat_arena(int mlen, int at) {
    memcpy(plat_out + at, arena + 64, mlen);
    for (int i = 0; i < (int)sizeof arena; i++) if ((i < 64 || i >= 64 + mlen) && arena[i] != 0xC3) return 0;
    return 1;
}
}

#ifndef __wasm__
// i386: no 32-bit development files are installed, only the run-time libraries
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#ifdef __i386__
__asm__(".globl _start\n_start:\n xor %ebp,%ebp\n pop %esi\n mov %esp,%ecx\n and $-16,%esp\n push %eax\n push %esp\n push %edx\n push $0\n push $0\n push %ecx\n push %esi\n push $main\n call __libc_start_main\n hlt\n");
extern "C" void* __dso_handle __attribute__((visibility("hidden"))) = nullptr;
extern "C" void __stack_chk_fail(void);
extern "C" __attribute__((visibility("hidden"))) void __stack_chk_fail_local(void) { __stack_chk_fail(); }
#endif
static sigjmp_buf jb;
static void onSignal(int s) { siglongjmp(jb, s); }
int main(int argc, char** argv) {
    if (argc < 3) {                                               // the operations, in order
        for (int i = 0; i < g_nops; i++) printf("%s %d\n", g_ops[i].name, plat_ok(i));
        return 0;
    }
    FILE* f = fopen(argv[1], "rb");
    FILE* o = fopen(argv[2], "wb");
    if (!f || !o) return 3;
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2);
    static const int sigs[] = {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGALRM};
    for (int s : sigs) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onSignal; a.sa_flags = SA_NODEFER; sigaction(s, &a, nullptr); }
    uint16_t len; static volatile unsigned c = 0; static volatile int hangs = 0;
    while (fread(&len, 2, 1, f) == 1) {
        if (len > sizeof plat_in || fread(plat_in, 1, len, f) != len) return 3;
        c++;
        static uint8_t head[3]; static volatile int r;
        uint16_t mlen; memcpy(&mlen, plat_in + 8, 2);
        r = 0;
        int s = hangs > 2 ? -1 : sigsetjmp(jb, 1);
        if (s == 0) { alarm(5); r = plat_call(c & 1 ? 0xAA : 0x55); }
        alarm(0);
        if (s == SIGALRM) hangs++;
        head[0] = (uint8_t)s;                                     // 0: returned, 255: not made
        if (!plat_arena(mlen, r)) head[0] = 254;
        uint16_t k = (uint16_t)(r + mlen); memcpy(head + 1, &k, 2);
        fwrite(head, 1, 3, o); fwrite(plat_out, 1, k, o);
    }
    fclose(o);
    return 0;
}
#endif
