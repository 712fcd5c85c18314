// See driver.hpp.  Modes:
//   list                              which intrinsics are linked and have the catalogued shape
//   calls PLAN OUT SEED DICT          run the plan, write one ndjson event per call
//   guided, recall: see guided.inc
//   one OP k p ARENAHEX ARGHEX...     one call, event on stdout
#include "driver.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#include <atomic>
#include <array>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <clocale>
#include <cfenv>
#include <cwchar>
#include <stdio_ext.h>
#include <sched.h>
#include <ctime>
#include <fcntl.h>
#include <malloc.h>
#include <unistd.h>
#include <ucontext.h>
#include <xmmintrin.h>
#include <condition_variable>
#include <mutex>
#include "ops_gen.inc"

typedef std::vector<uint8_t> Bytes;

// The same calls made by name from a C and a C++ client (gen.py gen_client), for C18.
extern "C" {
struct client_entry { const char* name; void* fn; int same; void (*th)(const unsigned char* const*, unsigned char*); const char* sig; };
int client_evals;                                                 // an operand expression was not evaluated exactly once
extern const client_entry client_c[] __attribute__((weak));
extern const client_entry client_cc[] __attribute__((weak));
void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));     // present in the AddressSanitizer builds
void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
}
static std::unordered_map<std::string, void (*)(const uint8_t* const*, uint8_t*)> g_via;
static bool g_useVia = false;

// ------------------------------------------------------------------ random numbers
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) { next(); next(); }
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint32_t u(uint32_t n) { return (uint32_t)((next() >> 16) % n); }
    bool chance(int num, int den) { return (int)u(den) < num; }
};
static uint64_t hashStr(const char* p) {
    uint64_t h = 1469598103934665603ull;
    for (; *p; p++) h = (h ^ (uint8_t)*p) * 1099511628211ull;
    return h;
}

// ------------------------------------------------------------------ operand values
static std::vector<uint64_t> g_dict;
static int ebOf(const char* t) { return atoi(t + 1) / 8; }
static bool isF(const char* t) { return t[0] == 'f'; }

static const std::vector<uint64_t>& grid(const char* t) {
    static std::map<std::string, std::vector<uint64_t>> m;
    auto it = m.find(t);
    if (it != m.end()) return it->second;
    std::vector<uint64_t> g;
    int bits = atoi(t + 1);
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    if (!isF(t)) {
        uint64_t h = 1ull << (bits - 1);
        for (uint64_t v : {0ull, 1ull, 2ull, 3ull, 5ull, 7ull, 100ull}) { g.push_back(v); g.push_back(0 - v); }
        for (uint64_t v : {h, h - 1, h + 1, h - 2, h + 2}) g.push_back(v);
        uint64_t q = 1ull << (bits / 2);
        for (uint64_t v : {q, q - 1, q + 1, q / 2, q / 2 - 1, 0 - q, 0 - q / 2, 0 - q - 1, q / 2 + h, h - q / 2}) g.push_back(v);
        g.push_back(0x5555555555555555ull); g.push_back(0xaaaaaaaaaaaaaaaaull);
        g.push_back(0x0123456789abcdefull); g.push_back(0xfedcba9876543210ull);
        for (auto& v : g) v &= mask;
    } else if (bits == 32) {
        for (uint32_t v : {0u, 1u, 2u, 0x7fffffu, 0x400000u, 0x1fffffu, 0x200000u, 0x200001u, 0x3fffffu, 0x800000u, 0x800001u, 0xffffffu, 0x1000000u,
                           0x3f800000u, 0x3f800001u, 0x3f7fffffu, 0x3fc00000u, 0x40000000u, 0x40400000u, 0x3f000000u, 0x3effffffu,
                           0x3eaaaaabu, 0x41200000u, 0x4b000000u, 0x4b000001u, 0x4b7fffffu, 0x4b800000u, 0x4effffffu, 0x4f000000u,
                           0x4f000001u, 0x4f7fffffu, 0x4f800000u, 0x5f000000u, 0x5f800000u, 0x7e7fffffu, 0x7e800000u, 0x7effffffu, 0x7f000000u,
                           0x7f7fffffu, 0x7f7ffffeu, 0x7f800000u, 0x7fc00000u, 0x7f800001u, 0x7fc12345u, 0x3fe00000u, 0x40200000u, 0x40600000u,
                           0x1f800000u, 0x20000000u, 0x5f3504f3u, 0x0c800000u, 0x34000000u, 0x33800000u, 0x33800001u}) {
            g.push_back(v); g.push_back(v ^ 0x80000000u);
        }
    } else {
        for (uint64_t v : {0ull, 1ull, 2ull, 0xfffffffffffffull, 0x8000000000000ull, 0x10000000000000ull, 0x10000000000001ull,
                           0x1fffffffffffffull, 0x3ff0000000000000ull, 0x3ff0000000000001ull, 0x3fefffffffffffffull, 0x3ff8000000000000ull,
                           0x4000000000000000ull, 0x4008000000000000ull, 0x3fe0000000000000ull, 0x3fd5555555555555ull,
                           0x4024000000000000ull, 0x4330000000000000ull, 0x433fffffffffffffull, 0x4340000000000000ull,
                           0x47efffffe0000000ull, 0x47efffffefffffffull, 0x47f0000000000000ull, 0x36a0000000000000ull, 0x3690000000000000ull,
                           0x7fefffffffffffffull, 0x7fe0000000000000ull, 0x7ff0000000000000ull, 0x7ff8000000000000ull, 0x7ff0000000000001ull,
                           0x5fe0000000000000ull, 0x1ff0000000000000ull, 0x3ca0000000000000ull, 0x3ca0000000000001ull, 0x3cb0000000000000ull}) {
            g.push_back(v); g.push_back(v ^ 0x8000000000000000ull);
        }
    }
    std::vector<uint64_t> d;
    for (auto v : g) if (std::find(d.begin(), d.end(), v) == d.end()) d.push_back(v);
    return m[t] = d;
}

static uint64_t intVal(int bits, Rng& r) {
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
    switch (r.u(14)) {
    case 0: v = (1ull << r.u(bits)) + (uint64_t)r.u(3) - 1; break;
    case 1: v = 0 - ((1ull << r.u(bits)) + (uint64_t)r.u(3) - 1); break;
    case 2: v = g_dict.empty() ? r.next() : g_dict[r.u(g_dict.size())] + (uint64_t)r.u(3) - 1; break;
    case 3: v = r.u(256); break;
    case 4: v = 0 - (uint64_t)r.u(256); break;
    case 5: { int k = 1 + r.u(bits); v = r.next() & (k == 64 ? ~0ull : (1ull << k) - 1); break; }      // log-uniform
    case 6: { int k = 1 + r.u(bits); v = ~(r.next() & (k == 64 ? ~0ull : (1ull << k) - 1)); break; }
    case 7: { static const uint8_t b[] = {0, 1, 0x7f, 0x80, 0xff, 0xfe}; v = 0; for (int i = 0; i < 8; i++) v = v << 8 | b[r.u(6)]; break; }
    case 8: { int s = r.u(bits); v = ((r.next() & 0xffffff) << 1 | 1) << s; v >>= r.u(2); break; }       // ties
    case 9: v = (mask >> 1) + (uint64_t)r.u(5) - 2; break;
    default: v = r.next();
    }
    return v & mask;
}
static uint64_t floatVal(int bits, Rng& r) {
    int mb = bits == 32 ? 23 : 52, ebias = bits == 32 ? 127 : 1023, emax = 2 * ebias + 1;
    uint64_t mm = (1ull << mb) - 1;
    auto pack = [&](uint64_t s, int64_t e, uint64_t m) { return s << (bits - 1) | (uint64_t)e << mb | (m & mm); };
    uint64_t s = r.u(2), m;
    switch (r.u(5)) {                                             // significand
    case 0: m = r.next(); break;
    case 1: m = (r.next() & 0xff) << (mb - 8); break;            // short
    case 2: m = r.chance(1, 2) ? mm - r.u(3) : r.u(3); break;
    case 3: m = 1ull << r.u(mb); if (r.u(2)) m |= 1ull << r.u(mb); break;
    default: m = r.next() & (mm >> r.u(mb)); break;
    }
    switch (r.u(12)) {
    case 0: { auto& g = grid(bits == 32 ? "f32" : "f64"); return g[r.u(g.size())]; }
    case 1: return pack(s, 0, m);                                 // subnormal
    case 2: return pack(s, r.u(emax), m);                         // anything finite
    case 3: return pack(s, emax - 1 - (int)r.u(3), m);            // huge
    case 4: return pack(s, 1 + r.u(3), m);                        // tiny
    case 5: case 6: return pack(s, ebias + (int)r.u(7) - 3, m);   // around one
    case 7: return pack(s, ebias + (int)r.u(2 * mb + 8) - mb - 4, m);
    case 8: { double d = (double)(int64_t)(r.next() >> (r.u(2) ? 32 : 1 + r.u(62))) * (s ? -1 : 1) + (r.u(2) ? 0.5 : 0);
              if (bits == 32) { float f = (float)d; uint32_t v; memcpy(&v, &f, 4); return v; }
              uint64_t v; memcpy(&v, &d, 8); return v; }
    case 9: { if (g_dict.empty()) return pack(s, ebias, m);
              uint64_t k = g_dict[r.u(g_dict.size())];
              if (r.u(2)) return bits == 32 ? (k & 0xffffffff) : k;
              double d = (double)(int64_t)k; if (s) d = -d;
              if (bits == 32) { float f = (float)d; uint32_t v; memcpy(&v, &f, 4); return v; }
              uint64_t v; memcpy(&v, &d, 8); return v; }
    case 10: return pack(s, bits == 32 ? 127 + 28 + (int)r.u(6) : 1023 + 60 + (int)r.u(6), m);  // around the integer bounds
    default: return bits == 32 ? (r.next() & 0xffffffff) : r.next();
    }
}
static uint64_t laneVal(const char* t, Rng& r) {
    int bits = atoi(t + 1);
    if (r.chance(1, 4)) { auto& g = grid(t); return g[r.u(g.size())]; }
    return isF(t) ? floatVal(bits, r) : intVal(bits, r);
}
static void put(uint8_t* p, int eb, uint64_t v) { memcpy(p, &v, eb); }
static uint64_t get(const uint8_t* p, int eb) { uint64_t v = 0; memcpy(&v, p, eb); return v; }

static uint64_t related(const char* t, uint64_t x, int how, Rng& r) {
    int bits = atoi(t + 1);
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
    switch (how) {
    case 0: v = x; break;
    case 1: v = ~x; break;
    case 2: v = isF(t) ? x ^ (1ull << (bits - 1)) : 0 - x; break;
    case 3: v = (mask >> 1) - x; break;
    case 4: v = x + 1; break;
    case 5: v = x - 1; break;
    case 6: v = (mask >> 1) + 1 - x; break;
    case 7: v = mask - x + r.u(2); break;
    case 8: v = x ^ (1ull << r.u(bits)); break;
    case 9: v = x ^ (mask >> 1) ^ mask; break;
    case 10: v = x << 1; break;
    default: v = x >> 1; break;
    }
    return v & mask;
}

// Floating point operands whose exact result lies on, or very near to, the middle between two representable values.
static uint64_t inv64(uint64_t a) { uint64_t x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
static uint64_t fpack(int bits, bool s, int e, uint64_t m) {      // (-1)^s * m * 2^e, m exact in the format if it fits
    double d = std::ldexp((double)m, e);
    if (s) d = -d;
    if (bits == 32) { float f = (float)d; uint32_t v; memcpy(&v, &f, 4); return v; }
    uint64_t v; memcpy(&v, &d, 8); return v;
}
static void hardFloats(const char* fam, int bits, uint64_t* v, int nops, Rng& r) {
    int p = bits == 32 ? 24 : 53, emin = bits == 32 ? -149 : -1074;
    uint64_t top = 1ull << (p - 1), mm = (1ull << p) - 1;
    bool s1 = r.u(2), s2 = r.u(2);
    bool mla = strstr(fam, "mla") != nullptr, div = !strcmp(fam, "div"), recps = !strcmp(fam, "recps"), addsub = !strcmp(fam, "add") || !strcmp(fam, "sub");
    int a = mla ? 1 : 0, b = a + 1;
    if (nops <= b) return;
    if (addsub) {                                                 // the second operand straddles the last place of the first
        uint64_t m1 = top | (r.next() & mm), k = r.u(6);
        int e1 = (int)r.u(60) - 30 - p;
        uint64_t m2 = r.u(2) ? 2 * k + 1 : ((2 * k + 1) << (p - 8)) + (uint64_t)r.u(3) - 1;
        int e2 = r.u(2) ? e1 - 1 : e1 - (p - 8) - 1;
        if (r.u(4) == 0) { m2 = top | (r.next() & mm); e2 = e1 - (int)r.u(p + 2); }
        v[0] = fpack(bits, s1, e1, m1); v[1] = fpack(bits, s2, e2, m2);
        if (r.u(2)) std::swap(v[0], v[1]);
        return;
    }
    if (div || (!recps && r.u(3) == 0)) {                         // exact ties among subnormal results
        uint64_t k = (r.next() & ((1ull << (1 + r.u(p / 2))) - 1)) | 1, q = (r.next() & ((1ull << (1 + r.u(p / 2 - 1))) - 1)) | 1;
        int sh = (int)r.u(40) - 20;
        int g = r.u(3) ? 0 : r.u(2) ? 1 : -1;                     // tie, or exact neighbours
        if (div) { v[0] = fpack(bits, s1, emin - 1 + g + sh, k * q); v[1] = fpack(bits, s2, sh, q); }
        else { v[a] = fpack(bits, s1, emin / 2 + sh, k); v[b] = fpack(bits, s2, emin - 1 + g - emin / 2 - sh, q); }
        if (mla) v[0] = r.u(2) ? (uint64_t)s1 << (bits - 1) : fpack(bits, r.u(2), emin, r.u(8));
        return;
    }
    if (recps && r.u(2)) {                                        // 2 - a*b next to a tie: products c * 2^s * (1 - d*d*2^-2n)
        uint64_t c = 2 * r.u(8) + 1; int cb = 0; while ((1ull << cb) <= c) cb++;
        int n = p - cb - (int)r.u(2); uint64_t d = r.u(8) * (r.u(3) ? 1 : 2);
        int e = -(p - (int)r.u(3)), e1 = (int)r.u(40) - 20;
        v[0] = fpack(bits, s1, e1 - n, c * ((1ull << n) + d)); v[1] = fpack(bits, s2, e - e1 - n, (1ull << n) - d);
        if (r.u(2)) std::swap(v[0], v[1]);
        return;
    }
    uint64_t m1 = top, m2 = top;                                  // products near a tie
    for (int t = 0; t < 40; t++) {
        m1 = (top | (r.next() & mm)) | 1;
        uint64_t half = 1ull << (p - 1 - (int)r.u(2));
        m2 = ((half + (uint64_t)r.u(5) - 2) * inv64(m1)) & mm;
        if (m2 & top) break;
        m2 |= top;
    }
    int e1 = (int)r.u(30) - 15 - (p - 1), e2 = (int)r.u(30) - 15 - (p - 1);
    v[a] = fpack(bits, s1, e1, m1); v[b] = fpack(bits, s2, e2, m2);
    if (mla) {
        if (bits != 32) return;
        double pr = std::ldexp((double)m1, e1) * std::ldexp((double)m2, e2) * (s1 != s2 ? -1 : 1);
        float f = (float)pr;
        switch (r.u(5)) {
        case 0: f = -f; break;                                    // cancellation shows whether the product was rounded
        case 1: f = -f * (1 + (float)r.u(5) * 1.1920929e-7f); break;
        case 2: f = std::ldexp(f, -(int)r.u(30)); break;
        case 3: f = std::ldexp(f, (int)r.u(30)); break;
        default: f = std::ldexp((float)(1 + 2 * r.u(8)), (int)r.u(60) - 30); break;
        }
        uint32_t w; memcpy(&w, &f, 4); v[0] = w;
    }
}

struct Case { Bytes a[4]; int k = 0; int p = 0; Bytes m; int z = 0; };   // z: the window of memory lies at the start (0) or the end (1) of the pages, or byte z-2 of the footprint starts the second page

// How many cases enumerate the operand space of an intrinsic completely (0: too large): all pairs of 8-bit
// lanes, all 16-bit (8-bit) lanes of a single operand; times all legal immediates.
static uint32_t exhaustiveCases(const Op& op) {
    std::vector<int> d;
    for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'v' || op.args[i].k == 's') d.push_back(i);
    if (op.mem || d.empty() || !strcmp(op.fam, "tbl") || !strcmp(op.fam, "qtbl") || !strcmp(op.fam, "getlane")) return 0;
    uint32_t imms = op.imm ? op.hi - op.lo + 1 : 1;
    int eb = ebOf(op.args[d[0]].t), n = op.args[d[0]].n / eb;
    if (!strcmp(op.fam, "ext")) return 0;
    if (d.size() == 1 && !strcmp(op.args[d[0]].t, "f32") && op.resn && strcmp(op.fam, "reinterpret")) return 131072u / n * imms;   // all top halves (17 bits)
    if (d.size() == 1 && eb <= 2) return (eb == 1 ? 256u : 65536u) / n * imms;
    if (d.size() == 2 && eb == 1 && ebOf(op.args[d[1]].t) == 1 && op.args[d[1]].n == op.args[d[0]].n) return 65536u / n * imms;
    return 0;
}
static Case exhaustiveCase(const Op& op, uint32_t c) {
    Case x;
    std::vector<int> d;
    for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'v' || op.args[i].k == 's') { d.push_back(i); x.a[i].assign(op.args[i].n, 0); }
    uint32_t imms = op.imm ? op.hi - op.lo + 1 : 1;
    x.k = op.imm ? op.lo + (int)(c % imms) : 0;
    c /= imms;
    int eb = ebOf(op.args[d[0]].t), n = op.args[d[0]].n / eb;
    for (int l = 0; l < n; l++) {
        uint32_t v = c * n + (l + c) % n;                         // rotate, so that values meet every lane
        if (eb == 4) {
            Rng r(c * 64 + l);
            uint32_t low = r.u(4) == 0 ? 0 : r.u(4) == 0 ? 0x7fff : (uint32_t)r.next() & 0x7fff;
            v = (v & 0x1ffff) << 15 | low;
        }
        put(&x.a[d[0]][l * eb], eb, v);
        if (d.size() == 2) put(&x.a[d[1]][l], 1, v >> 8);
    }
    return x;
}

// Case number c of an intrinsic: a function of (seed, intrinsic, c) only.
// immMode 0: legal immediates; 1: illegal; 2: both; 3: the exhaustive enumeration.
static Case makeCase(const Op& op, uint64_t seed, uint32_t c, int immMode) {
    if (immMode == 3) return exhaustiveCase(op, c);
    Rng r(seed * 1000003 + hashStr(op.name) + (uint64_t)c * 0x51ed270b7full);
    Case x;
    std::vector<int> data;                                        // positions of data operands
    for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'v' || op.args[i].k == 's') data.push_back(i);
    for (int i : data) x.a[i].assign(op.args[i].n, 0);
    // immediates
    if (immMode == 1 && !op.imm) immMode = 0;
    if (op.imm) {
        int span = op.hi - op.lo + 1;
        if (immMode == 0 || (immMode == 2 && r.u(2))) x.k = op.lo + (int)((c + r.u(2) * r.u(span)) % span);
        else {
            static const int ks[] = {-1, 0, -2147483647 - 1, 2147483647, 255, 256, -128, 1 << 16, -3, 1 << 30, 1 << 8, -(1 << 16), 127, 128, -256, 1000};
            switch (r.u(4)) {
            case 0: x.k = ks[r.u(sizeof ks / sizeof *ks)]; break;
            case 1: x.k = op.hi + 1 + (int)r.u(4); break;
            case 2: x.k = op.lo - 1 - (int)r.u(3); break;
            default: x.k = (int)(r.next() >> (32 + r.u(28))) * (r.u(2) ? 1 : -1); break;
            }
        }
    }
    // operands
    const char* t0 = data.empty() ? op.t : op.args[data[0]].t;
    auto& g = grid(t0);
    uint32_t lanes0 = data.empty() ? 1 : std::max(1, op.args[data[0]].n / ebOf(t0));
    bool same = true;
    for (int i : data) if (strcmp(op.args[i].t, t0)) same = false;
    uint32_t gridCases = 0;
    if (data.size() == 1) gridCases = (g.size() + lanes0 - 1) / lanes0 * 2;
    else if (data.size() >= 2 && same) gridCases = (g.size() * g.size() + lanes0 - 1) / lanes0;
    int mode;
    uint32_t gc = 0;                                              // every other case walks over the grid, in scattered order
    if (gridCases && (c & 1) == 0 && c / 2 < gridCases) {
        mode = 100;
        uint32_t stride = gridCases / 2 + gridCases / 9 + 1;
        auto gcd = [](uint32_t x, uint32_t y) { while (y) { uint32_t t = x % y; x = y; y = t; } return x; };
        while (gcd(stride, gridCases) != 1) stride++;
        gc = (uint32_t)((uint64_t)(c / 2) * stride % gridCases);
    }
    else {
        static const int dist[] = {0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 6, 7};
        mode = dist[r.u(sizeof dist / sizeof *dist)];
    }
    if (mode == 7) {                                              // byte-level patterns over whole operands
        static const uint8_t pat[] = {0x00, 0xff, 0x01, 0x80, 0x7f, 0x55, 0xaa, 0xfe, 0x10, 0x0f, 0xf0};
        for (int i : data) { uint8_t b = pat[r.u(11)]; for (auto& y : x.a[i]) y = b; }
    } else if (mode == 5) {                                       // one bit
        int i = data.empty() ? 0 : data[r.u(data.size())];
        if (!data.empty()) { uint8_t inv = r.u(2) ? 0xff : 0; for (int j : data) for (auto& y : x.a[j]) y = inv;
            x.a[i][r.u(x.a[i].size())] ^= 1 << r.u(8); }
    } else if (mode == 4) {                                       // all bytes of all operands distinct
        uint8_t b = r.u(256), st = r.u(128) * 2 + 1;
        for (int i : data) for (auto& y : x.a[i]) { y = b; b += st; }
    } else if (mode == 6) {
        for (int i : data) for (auto& y : x.a[i]) y = (uint8_t)r.next();
    } else {
        uint32_t rot = r.u(lanes0);
        int how = r.u(12);
        int spec = r.u(16);
        uint64_t ea[4], eo[4];
        for (int i : data) { ea[i] = laneVal(op.args[i].t, r); eo[i] = laneVal(op.args[i].t, r); if (r.u(3) == 0) ea[i] = 0; }
        for (size_t d = 0; d < data.size(); d++) {
            int i = data[d], eb = ebOf(op.args[i].t), n = op.args[i].n / eb;
            auto& gi = grid(op.args[i].t);
            for (int l = 0; l < n; l++) {
                uint64_t v;
                if (mode == 100) {
                    uint32_t idx = gc * lanes0 + (l + rot) % lanes0;
                    if (data.size() == 1) v = gi[idx % gi.size()];
                    else if (d == 0) v = gi[idx % gi.size()];
                    else if (d == 1) v = gi[(idx / gi.size()) % gi.size()];
                    else v = laneVal(op.args[i].t, r);
                    if (op.args[i].k == 's') { uint32_t j = gc * lanes0; v = gi[(j / gi.size()) % gi.size()]; }
                } else if (mode == 0) v = laneVal(op.args[i].t, r);
                else if (mode == 1) v = ea[i];
                else if (mode == 3) v = l == spec % n ? eo[i] : ea[i];
                else {                                            // related operands
                    int j = data[0], ej = ebOf(op.args[j].t), nj = op.args[j].n / ej;
                    if (d == 0) v = laneVal(op.args[i].t, r);
                    else {
                        uint64_t y = get(&x.a[j][(l % nj) * ej], ej);
                        if (ej < eb && op.args[j].t[0] == 's') y = (uint64_t)((int64_t)(y << (64 - 8 * ej)) >> (64 - 8 * ej));
                        v = related(op.args[i].t, y, how, r);
                        if (r.u(8) == 0) v = laneVal(op.args[i].t, r);
                    }
                }
                put(&x.a[i][l * eb], eb, v);
            }
        }
    }
    if (mode != 100 && data.size() >= 2 && same && isF(t0) && !op.mem && r.u(2)) {
        int eb = ebOf(t0), n = 0;
        for (int i : data) n = std::max(n, op.args[i].n / eb);
        for (int l = 0; l < n; l++) {
            uint64_t v[4] = {0, 0, 0, 0};
            for (size_t d = 0; d < data.size(); d++) v[d] = get(&x.a[data[d]][op.args[data[d]].n == eb ? 0 : l * eb], eb);
            hardFloats(op.fam, 8 * eb, v, (int)data.size(), r);
            for (size_t d = 0; d < data.size(); d++) put(&x.a[data[d]][op.args[data[d]].n == eb ? 0 : l * eb], eb, v[d]);
        }
    }
    if (!strcmp(op.fam, "tbl") || !strcmp(op.fam, "qtbl")) {      // index operand
        auto& ix = x.a[data[1]];
        uint32_t len = op.args[data[0]].n;
        if (c < 32) for (size_t l = 0; l < ix.size(); l++) ix[l] = (uint8_t)(c * 8 + (l + c / 8) % 8);
        else if (r.u(3)) for (auto& y : ix) y = r.u(4) ? r.u(len) : r.u(3) ? len + r.u(8) : (uint8_t)r.next();
        if (c < 64 || r.u(2)) { uint8_t b = r.u(256); for (auto& y : x.a[data[0]]) y = b += 7; }
    }
    // memory
    if (op.mem) {
        int fp = std::max(op.rd, op.wr);
        int step = op.eb;
        x.z = r.u(2);
        int before = 0, after = 0;
        switch (r.u(4)) {
        case 0: if (x.z) before = 16 + step * (int)r.u(8); else after = 16 + step * (int)r.u(8); break;
        case 1: before = step * (int)r.u(16 / step + 1); after = step * (int)r.u(16 / step + 1); break;
        default: if (x.z) before = 32; else after = 32; break;
        }
        x.p = before;
        x.m.resize(before + fp + after);
        int mm = r.u(4);
        uint8_t b = (uint8_t)r.next();
        for (size_t i = 0; i < x.m.size(); i++) x.m[i] = mm == 0 ? (uint8_t)r.next() : mm == 1 ? (uint8_t)(b += 1) : mm == 2 ? 0xA5 : 0;
        if (mm >= 2 || r.u(2)) {
            for (int i = 0; i + step <= op.rd; i += step) { uint64_t v = laneVal(op.t, r); memcpy(&x.m[x.p + i], &v, step); }
        }
        if (r.u(4) == 0 && op.wr) for (auto& y : x.m) y = (uint8_t)r.next();
        if (r.u(6) == 0) x.z = 2 + step * (int)r.u(fp / step + 1);
    }
    return x;
}

// ------------------------------------------------------------------ arena with guard pages
static const size_t PG = 4096;
static thread_local uint8_t* g_page;                              // two accessible pages between inaccessible ones
static void makeArena() {
    uint8_t* p = (uint8_t*)mmap(0, 4 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + PG, 2 * PG, PROT_READ | PROT_WRITE);
    g_page = p + PG;
}

// ------------------------------------------------------------------ one call
static thread_local sigjmp_buf g_jb;
static thread_local volatile sig_atomic_t g_inCall;
static void onAbort(int) { if (g_inCall) siglongjmp(g_jb, 1); }

__attribute__((noinline)) static void dirtyStack(uint8_t b) {
    volatile uint8_t buf[3072];
    for (size_t i = 0; i < sizeof buf; i++) buf[i] = b;
}

// Observable effects besides the result: bytes written to stdout or stderr, a changed rounding mode.
static bool g_effects = false;                                    // looked for (C19)
static int g_outFd = -1;
static void captureOutput() {
    fflush(stdout); fflush(stderr);
    g_outFd = memfd_create("out", 0);
    int fl = fcntl(g_outFd, F_GETFL); fcntl(g_outFd, F_SETFL, fl | O_APPEND);
    dup2(g_outFd, 1); dup2(g_outFd, 2);
    setvbuf(stdout, nullptr, _IONBF, 0); setvbuf(stderr, nullptr, _IONBF, 0);
    g_effects = true;
}
static long outLen() { return lseek(g_outFd, 0, SEEK_END); }

struct Outcome { const char* s = "ret"; Bytes r; Bytes w; };
enum { RESMAX = 64 };

// a: raw images of all operands (pointer and immediate included)
static bool rawCall(const Op& op, const uint8_t* const* a, uint8_t* res) {
    g_inCall = 1;
    if (sigsetjmp(g_jb, 1) == 0) {
        if (g_useVia) g_via[op.name](a, res); else op.thunk(op.fn, a, res);
        g_inCall = 0;
        return true;
    }
    g_inCall = 0;
    return false;
}

static Outcome doCall(const Op& op, const Case& x, uint8_t junk) {
    Outcome o;
    uint8_t buf[4][80];
    const uint8_t* a[4];
    uint8_t* win = nullptr;
    if (op.mem) {
        win = x.z == 0 ? g_page : x.z == 1 ? g_page + 2 * PG - x.m.size() : g_page + PG - x.p - (x.z - 2);
        memset(g_page, 0xC3, 2 * PG);
        memcpy(win, x.m.data(), x.m.size());
    }
    for (int i = 0; i < op.nargs; i++) {
        memset(buf[i], junk, sizeof buf[i]);
        switch (op.args[i].k) {
        case 'p': { uint8_t* q = win + x.p; memcpy(buf[i], &q, sizeof q); break; }
        case 'i': memcpy(buf[i], &x.k, 4); break;
        default: memcpy(buf[i], x.a[i].data(), x.a[i].size());
        }
        a[i] = buf[i];
    }
    uint8_t res[RESMAX];
    memset(res, 0x5A, sizeof res);
    dirtyStack(junk);
    long len0 = g_effects ? outLen() : 0;
    unsigned csr0 = _mm_getcsr() & 0xffc0;
    client_evals = 0;
    if (op.mem && __asan_poison_memory_region) {                  // only the bytes the intrinsic may touch are addressable during the call
        uint8_t* q = win + x.p; uint8_t* e = q + std::max(op.rd, op.wr);
        __asan_poison_memory_region(e, g_page + 2 * PG - e);
        if (uint8_t* f = (uint8_t*)((uintptr_t)q & ~(uintptr_t)7)) __asan_poison_memory_region(g_page, f - g_page);
    }
    bool returned = rawCall(op, a, res);
    if (op.mem && __asan_unpoison_memory_region) __asan_unpoison_memory_region(g_page, 2 * PG);
    if (returned) {
        o.r.assign(res, res + op.resn);
        if (client_evals) o.s = "operand-not-evaluated-once";
        if (g_effects && outLen() != len0) o.s = "effect-output";
        if (g_effects && (_mm_getcsr() & 0xffc0) != csr0) { o.s = "effect-rounding-mode"; _mm_setcsr(csr0 | 0x3f); }
    } else o.s = "abort";
    if (op.mem) {
        o.w.assign(win, win + x.m.size());
        static const std::vector<uint8_t>& pattern = *new std::vector<uint8_t>(2 * PG, 0xC3);
        size_t before = win - g_page, after = 2 * PG - before - x.m.size();
        if (memcmp(g_page, pattern.data(), before) || memcmp(win + x.m.size(), pattern.data(), after)) o.s = "wild-write";
    }
    return o;
}

// ------------------------------------------------------------------ events
static void jb(std::string& s, const uint8_t* p, size_t n) {
    s += '[';
    for (size_t i = 0; i < n; i++) {
        if (i) s += ',';
        unsigned v = p[i];
        if (v >= 100) s += '0' + v / 100;
        if (v >= 10) s += '0' + v / 10 % 10;
        s += '0' + v % 10;
    }
    s += ']';
}
static void jb(std::string& s, const Bytes& b) { jb(s, b.data(), b.size()); }
static std::string event(const Op& op, const Case& x, const Outcome& o) {
    std::string s = "{\"e\":\"call\",\"o\":\"";
    s += op.name;
    s += "\",\"a\":[";
    bool first = true;
    for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'v' || op.args[i].k == 's') { if (!first) s += ','; first = false; jb(s, x.a[i]); }
    s += "]";
    if (op.imm) s += ",\"k\":" + std::to_string(x.k);
    if (op.mem) { s += ",\"z\":" + std::to_string(x.z) + ",\"p\":" + std::to_string(x.p) + ",\"m\":"; jb(s, x.m); if (!o.w.empty()) { s += ",\"w\":"; jb(s, o.w); } }
    s += ",\"s\":\""; s += o.s; s += "\"";
    if (!strcmp(o.s, "ret")) { s += ",\"r\":"; jb(s, o.r); }
    s += "}\n";
    return s;
}

// ------------------------------------------------------------------ plan execution
static const Op* findOp(const std::string& n) {
    for (int i = 0; i < g_nops; i++) if (n == g_ops[i].name) return &g_ops[i];
    return nullptr;
}
struct Shared { volatile uint32_t cur; volatile uint64_t len; volatile uint32_t done; };
static const size_t BUFSZ = 1ull << 30;
static void handlers() {
    stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAbort; sigaction(SIGABRT, &sa, 0);
}
// A call that has not returned after about ten seconds never will: the process ends, by SIGALRM.
static volatile uint32_t* g_cur;
static void onTick(int) {
    static uint32_t last; static int still;
    if (*g_cur != last) { last = *g_cur; still = 0; } else if (++still == 5) {
        signal(SIGALRM, SIG_DFL);
        raise(SIGALRM);
        sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); sigprocmask(SIG_UNBLOCK, &s, 0);
    }
}
static void watchdog(volatile uint32_t* cur) {
    g_cur = cur;
    signal(SIGALRM, onTick);
    struct itimerval every = {{2, 0}, {2, 0}}; setitimer(ITIMER_REAL, &every, 0);
}
static void quiet() { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }

static void runCases(const Op& op, uint64_t seed, uint32_t from, uint32_t to, int immMode, Shared* sh, char* buf) {
    std::unordered_set<uint64_t> seen;
    std::hash<std::string> H;
    static const uint8_t junks[] = {0x00, 0xff, 0xA5, 0x7f};
    for (uint32_t c = from; c < to; c++) {
        Case x = makeCase(op, seed, c, immMode);
        sh->cur = c;
        Outcome o = doCall(op, x, junks[c & 3]);
        std::string e = event(op, x, o);
        if (!seen.insert(H(e)).second) continue;
        if (sh->len + e.size() > BUFSZ) break;
        memcpy(buf + sh->len, e.data(), e.size());
        sh->len = sh->len + e.size();
    }
    sh->done = 1;
}

static int cmdCalls(int argc, char** argv) {
    std::ifstream plan(argv[2]);
    FILE* out = fopen(argv[3], "w");
    uint64_t seed = strtoull(argv[4], 0, 10);
    { std::ifstream d(argv[5]); std::string l; while (d >> l) g_dict.push_back(strtoull(l.c_str(), 0, 0)); }
    Shared* sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char* buf = (char*)mmap(0, BUFSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    makeArena();
    std::string name; uint32_t n; int immMode;
    uint64_t executed = 0;
    while (plan >> name >> n >> immMode) {
        const Op* op = findOp(name);
        if (!op || !op->fn || !op->shape) continue;
        if (g_useVia && !g_via.count(name)) continue;
        uint32_t from = 0; int crashes = 0;
        if (immMode == 3) { uint32_t m = exhaustiveCases(*op); if (m == 0) continue; if (n == 0 || m < n) n = m; }
        sh->len = 0;
        for (;;) {
            sh->done = 0; sh->cur = from;
            fflush(out);
            pid_t pid = fork();
            if (pid == 0) { quiet(); handlers(); watchdog(&sh->cur); runCases(*op, seed, from, n, immMode, sh, buf); _exit(0); }
            int st; waitpid(pid, &st, 0);
            if (sh->done) { executed += n - from; break; }
            Case x = makeCase(*op, seed, sh->cur, immMode);
            Outcome o;
            std::string s = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "sig" + std::to_string(WTERMSIG(st))) : "exit" + std::to_string(WEXITSTATUS(st));
            o.s = s.c_str();
            std::string e = event(*op, x, o);
            memcpy(buf + sh->len, e.data(), e.size()); sh->len = sh->len + e.size();
            executed += sh->cur + 1 - from;
            from = sh->cur + 1;
            if ((crashes += s == "hang" ? 5 : 1) >= 10 || from >= n) break;
        }
        fwrite(buf, 1, sh->len, out);
        madvise(buf, sh->len, MADV_REMOVE);
    }
    fclose(out);
    printf("executed %llu\n", (unsigned long long)executed);
    return 0;
}

static Bytes unhex(const char* s) {
    Bytes b;
    if (*s == '-') return b;
    for (; s[0] && s[1]; s += 2) { char t[3] = {s[0], s[1], 0}; b.push_back((uint8_t)strtoul(t, 0, 16)); }
    return b;
}
static int cmdOne(int argc, char** argv) {
    const Op* op = findOp(argv[2]);
    if (!op || !op->fn || !op->shape) { printf("{\"e\":\"absent\"}\n"); return 0; }
    Case x; x.k = atoi(argv[3]); x.p = atoi(argv[4]); x.m = unhex(argv[5]); x.z = atoi(argv[6]);
    int j = 7;
    for (int i = 0; i < op->nargs; i++) if (op->args[i].k == 'v' || op->args[i].k == 's') { x.a[i] = unhex(argv[j++]); x.a[i].resize(op->args[i].n); }
    makeArena();
    int out = dup(1);
    pid_t pid = fork();
    if (pid == 0) {
        quiet(); handlers(); alarm(15);
        int times = getenv("NEON_TIMES") ? atoi(getenv("NEON_TIMES")) : 1;
        for (int n = 0; n < times; n++) {
            Outcome o = doCall(*op, x, 0);
            std::string e = event(*op, x, o);
            if (write(out, e.data(), e.size()) < 0) _exit(9);
        }
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) {
        Outcome o; std::string s = WTERMSIG(st) == SIGALRM ? "hang" : "sig" + std::to_string(WTERMSIG(st)); o.s = s.c_str();
        std::string e = event(*op, x, o);
        if (write(out, e.data(), e.size()) < 0) return 9;
    }
    return 0;
}

#include "history.inc"
#include "guided.inc"
#include "screen.inc"

int main(int argc, char** argv) {
    std::string m = argc > 1 ? argv[1] : "";
    if (const char* v = getenv("NEON_VIA")) {
        if (const client_entry* t = !strcmp(v, "c") ? client_c : client_cc) for (const client_entry* e = t; e->name; e++) if (e->fn) g_via[e->name] = e->th;
        g_useVia = true;
    }
    if (m == "decls") {
        if (client_c) for (const client_entry* e = client_c; e->name; e++)
            printf("{\"e\":\"decl\",\"lang\":\"c\",\"o\":\"%s\",\"linked\":%s,\"same\":%s}\n", e->name, e->fn ? "true" : "false", e->same ? "true" : "false");
        if (client_cc) for (const client_entry* e = client_cc; e->name; e++)
            printf("{\"e\":\"decl\",\"lang\":\"cc\",\"o\":\"%s\",\"linked\":%s,\"same\":%s,%s}\n", e->name, e->fn ? "true" : "false", e->same ? "true" : "false", e->sig);
        return 0;
    }
    if (m == "hist") return cmdHist(argc, argv);
    if (m == "repeat") return cmdRepeat(argc, argv);
    if (m == "crowd") return cmdCrowd(argc, argv);
    if (m == "life") return 0;
    if (m == "threads") return cmdThreads(argc, argv);
    if (m == "preempt") return cmdPreempt(argc, argv);
    if (m == "prog") return cmdProg(argc, argv);
    if (m == "list") {
        for (int i = 0; i < g_nops; i++) printf("%s %d %d %u\n", g_ops[i].name, g_ops[i].fn != nullptr, g_ops[i].shape, exhaustiveCases(g_ops[i]));
        return 0;
    }
    if (m == "calls") return cmdCalls(argc, argv);
    if (m == "guided") return cmdGuided(argc, argv);
    if (m == "cold") return cmdCold(argc, argv);
    if (m == "screen") return cmdScreen(argc, argv);
    if (m == "trails") return cmdTrails(argc, argv);
    if (m == "walk") return cmdWalk(argc, argv);
    if (m == "recall") return cmdRecall(argc, argv);
    if (m == "one") return cmdOne(argc, argv);
    fprintf(stderr, "usage\n");
    return 2;
}
