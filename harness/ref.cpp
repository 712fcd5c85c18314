// What Intrinsics.tla's Value and Stored say, in native code: the expectations of the screen (screen.inc), which decides nothing.
#include "driver.hpp"
#include <cmath>
#include <limits>


template <class T> struct Ty;
#define TY(T, W_, N_, U_) template <> struct Ty<T> { typedef W_ W; typedef N_ N; typedef U_ U; };
TY(int8_t, int16_t, int8_t, uint8_t) TY(int16_t, int32_t, int8_t, uint16_t) TY(int32_t, int64_t, int16_t, uint32_t) TY(int64_t, __int128, int32_t, uint64_t)
TY(uint8_t, uint16_t, uint8_t, uint8_t) TY(uint16_t, uint32_t, uint8_t, uint16_t) TY(uint32_t, uint64_t, uint16_t, uint32_t) TY(uint64_t, unsigned __int128, uint32_t, uint64_t)
TY(float, float, float, uint32_t) TY(double, double, double, uint64_t)
#undef TY


template <class T> inline T lane(const uint8_t* p, int i) { T v; memcpy(&v, p + i * sizeof(T), sizeof(T)); return v; }
template <class T> inline void setLane(uint8_t* p, int i, T v) { memcpy(p + i * sizeof(T), &v, sizeof(T)); }
template <class T> struct Exact { typedef typename std::conditional<sizeof(T) == 8, __int128, int64_t>::type X; };
template <class D, class X> inline D sat(X v) {
    const X hi = (X)std::numeric_limits<D>::max(), lo = (X)std::numeric_limits<D>::min();
    return v > hi ? (D)hi : v < lo ? (D)lo : (D)v;
}
template <class X> inline X shrX(X v, int k, bool rnd) { return k == 0 ? v : (v + (rnd ? (X)1 << (k - 1) : 0)) >> k; }
template <class T> inline T shrT(T v, int k) { return k >= (int)(8 * sizeof(T)) ? (v < 0 ? (T)-1 : (T)0) : (T)(v >> k); }
template <class T> inline bool nan(T v) { return v != v; }
template <class T> inline bool below(T x, T y) { return x < y; }              // the total order of min and max
template <> inline bool below(float x, float y) { return x < y || (x == y && std::signbit(x) && !std::signbit(y)); }
template <> inline bool below(double x, double y) { return x < y || (x == y && std::signbit(x) && !std::signbit(y)); }
template <class T> inline T maxT(T x, T y) { return nan(x) ? x : nan(y) ? y : below(x, y) ? y : x; }
template <class T> inline T minT(T x, T y) { return nan(x) ? x : nan(y) ? y : below(x, y) ? x : y; }
// modular arithmetic
template <class T> inline typename std::enable_if<std::is_integral<T>::value, T>::type addT(T x, T y) { return (T)((typename Ty<T>::U)x + (typename Ty<T>::U)y); }
template <class T> inline typename std::enable_if<std::is_integral<T>::value, T>::type subT(T x, T y) { return (T)((typename Ty<T>::U)x - (typename Ty<T>::U)y); }
template <class T> inline typename std::enable_if<std::is_integral<T>::value, T>::type mulT(T x, T y) { return (T)((uint64_t)x * (uint64_t)y); }
template <class T> inline typename std::enable_if<!std::is_integral<T>::value, T>::type addT(T x, T y) { return x + y; }
template <class T> inline typename std::enable_if<!std::is_integral<T>::value, T>::type subT(T x, T y) { return x - y; }
template <class T> inline typename std::enable_if<!std::is_integral<T>::value, T>::type mulT(T x, T y) { volatile T p = x * y; return p; }

static float recpeRef(float f) {
    uint32_t x; memcpy(&x, &f, 4);
    uint32_t s = x & 0x80000000u, ex = x >> 23 & 255, fr = x & 0x7fffff, r;
    if (ex == 255) { if (fr) return f; r = s; }
    else if (ex == 0 && fr < 1u << 21) r = s | 0x7f800000u;
    else {
        uint32_t nf = ex ? fr : fr >= 1u << 22 ? (fr << 1) & 0x7fffff : (fr << 2) & 0x7fffff;
        int ne = ex ? (int)ex : fr >= 1u << 22 ? 0 : -1;
        uint32_t b = (1u << 19) / (2 * (256 + (nf >> 15)) + 1), est = (b + 1) / 2;
        int re = 253 - ne;
        uint32_t rf = (est & 255) << 15;
        r = s | (re == 0 ? (1u << 22) + rf / 2 : re == -1 ? (1u << 21) + rf / 4 : (uint32_t)re << 23 | rf);
    }
    float o; memcpy(&o, &r, 4); return o;
}
static float recpsRef(float x, float y) {
    if (nan(x) || nan(y)) return x + y;
    if ((std::isinf(x) && y == 0) || (x == 0 && std::isinf(y))) return 2;
    double p = -(double)x * y, s = p + 2.0, t = s - p, e = (p - (s - t)) + (2.0 - t);   // p and s + e are exact
    if (e != 0 && !std::isinf(s)) {                                // round s + e to odd, then to float
        int64_t b; memcpy(&b, &s, 8);
        if (!(b & 1)) { b += (e > 0) == (s > 0) ? 1 : -1; memcpy(&s, &b, 8); }
    }
    return (float)s;
}

#define REF [](const Op & op, Data d, int k, const uint8_t* m, uint8_t* r, uint8_t* w)
#define UNUSED (void)op, (void)d, (void)k, (void)m, (void)r, (void)w; const uint8_t* __restrict d0 = d[0]; const uint8_t* __restrict d1 = d[1]; const uint8_t* __restrict d2 = d[2]; (void)d0, (void)d1, (void)d2
#define EACH(N, D, EXPR) { UNUSED; constexpr int n_ = (N); uint8_t* __restrict r_ = r; for (int i = 0; i < n_; i++) setLane<D>(r_, i, (D)(EXPR)); }
#define A(T, j) lane<T>(d##j, i)

template <class T> static int nl(const Op& op) { return (op.q ? 16 : 8) / (int)sizeof(T); }

template <class T, int B> static Ref pickFixed(const std::string& f) {           // B: bytes of a vector
    constexpr int n = B / (int)sizeof(T), E = 8 / (int)sizeof(T), h = sizeof(T) == 1 ? 8 : n / 2;
    typedef typename Ty<T>::W W; typedef typename Ty<T>::U U; typedef typename Exact<T>::X X; typedef typename Ty<T>::N NT;
    constexpr bool F = !std::is_integral<T>::value;
    (void)E; (void)h;
    if (f == "add") return REF EACH(n, T, addT(A(T, 0), A(T, 1)));
    if (f == "sub") return REF EACH(n, T, subT(A(T, 0), A(T, 1)));
    if (f == "mul") return REF EACH(n, T, mulT(A(T, 0), A(T, 1)));
    if (f == "mul_n") return REF EACH(n, T, mulT(A(T, 0), lane<T>(d1, 0)));
    if (f == "mla") return REF EACH(n, T, addT(A(T, 0), mulT(A(T, 1), A(T, 2))));
    if (f == "mla_n") return REF EACH(n, T, addT(A(T, 0), mulT(A(T, 1), lane<T>(d2, 0))));
    if (f == "max") return REF EACH(n, T, maxT(A(T, 0), A(T, 1)));
    if (f == "min") return REF EACH(n, T, minT(A(T, 0), A(T, 1)));
    if (f == "pmax") return REF EACH(n, T, maxT(lane<T>(d[2 * i >= n], 2 * i % n), lane<T>(d[2 * i >= n], 2 * i % n + 1)));
    if (f == "pmin") return REF EACH(n, T, minT(lane<T>(d[2 * i >= n], 2 * i % n), lane<T>(d[2 * i >= n], 2 * i % n + 1)));
    if (f == "cgt") return REF EACH(n, U, A(T, 0) > A(T, 1) ? (U)-1 : (U)0);
    if (f == "clt") return REF EACH(n, U, A(T, 0) < A(T, 1) ? (U)-1 : (U)0);
    if (f == "dup_n") return REF EACH(n, U, lane<U>(d0, 0));
    if (f == "lddup") return REF EACH(n, U, lane<U>(m, 0));
    if (f == "getlane") return REF EACH(1, U, lane<U>(d0, k));
    if (f == "ext") return REF EACH(n, U, i + k < n ? lane<U>(d0, i + k) : lane<U>(d1, i + k - n));
    if (f == "rev16") return REF EACH(n, U, lane<U>(d0, i ^ (2 / (int)sizeof(T) - 1)));
    if (f == "rev32") return REF EACH(n, U, lane<U>(d0, i ^ (4 / (int)sizeof(T) - 1)));
    if (f == "rev64") return REF EACH(n, U, lane<U>(d0, i ^ (8 / (int)sizeof(T) - 1)));
    if (f == "trn") return REF EACH(2 * n, U, lane<U>(d[i & 1], (i % n & ~1) + (i >= n)));
    if (f == "zip") return REF EACH(2 * n, U, lane<U>(d[i & 1], i / 2));
    if (f == "uzp") return REF EACH(2 * n, U, lane<U>(d[(2 * (i % n) + i / n) >= n], (2 * (i % n) + i / n) % n));
    if (f == "ld") return REF { UNUSED; const int g = op.nv; for (int v = 0; v < g; v++) for (int i = 0; i < n; i++) setLane<U>(r, v * n + i, lane<U>(m, g * i + v)); };
    if (f == "st") return REF { UNUSED; const int g = op.nv; for (int v = 0; v < g; v++) for (int i = 0; i < n; i++) setLane<U>(w, g * i + v, lane<U>(d0, v * n + i)); };
    if (f == "ldlane") return REF { UNUSED; const int g = op.nv; memcpy(r, d[0], g * B); for (int v = 0; v < g; v++) setLane<U>(r, v * n + k, lane<U>(m, v)); };
    if (f == "stlane") return REF { UNUSED; const int g = op.nv; for (int v = 0; v < g; v++) setLane<U>(w, v, lane<U>(d0, v * n + k)); };
    if (f == "reinterpret") return REF { UNUSED; memcpy(r, d[0], B); };
    if (f == "and") return REF EACH(B, uint8_t, A(uint8_t, 0) & A(uint8_t, 1));
    if (f == "orr") return REF EACH(B, uint8_t, A(uint8_t, 0) | A(uint8_t, 1));
    if (f == "eor") return REF EACH(B, uint8_t, A(uint8_t, 0) ^ A(uint8_t, 1));
    if (f == "mvn") return REF EACH(B, uint8_t, ~A(uint8_t, 0));
    if (f == "bsl") return REF EACH(B, uint8_t, (A(uint8_t, 0) & A(uint8_t, 1)) | (~A(uint8_t, 0) & A(uint8_t, 2)));
    if (f == "combine") return REF { UNUSED; memcpy(r, d[0], 8); memcpy(r + 8, d[1], 8); };
    if (f == "get_low") return REF { UNUSED; memcpy(r, d[0], 8); };
    if (f == "get_high") return REF { UNUSED; memcpy(r, d[0] + 8, 8); };
    if (f == "tbl" || f == "qtbl") return REF { UNUSED; int len = op.args[0].n; for (int i = 0; i < op.resn; i++) r[i] = d[1][i] < len ? d[0][d[1][i]] : 0; };
    if constexpr (F) {
        if (f == "div") return REF EACH(n, T, A(T, 0) / A(T, 1));
        if constexpr (sizeof(T) == 4) {
            if (f == "recpe") return REF EACH(n, T, recpeRef(A(T, 0)));
            if (f == "recps") return REF EACH(n, T, recpsRef(A(T, 0), A(T, 1)));
            if (f == "cvt") return REF { UNUSED; const bool sg = op.u[0] == 's'; for (int i = 0; i < n; i++) setLane<float>(r, i, sg ? (float)lane<int32_t>(d0, i) : (float)lane<uint32_t>(d0, i)); };
        }
    } else {
        if (f == "qadd") return REF EACH(n, T, (sat<T, X>((X)A(T, 0) + (X)A(T, 1))));
        if (f == "qsub") return REF EACH(n, T, (sat<T, X>((X)A(T, 0) - (X)A(T, 1))));
        if (f == "hsub") return REF EACH(n, T, ((X)A(T, 0) - (X)A(T, 1)) >> 1);
        if (f == "shr_n") return REF EACH(n, T, shrT<T>(A(T, 0), k));
        if (f == "shl_n") return REF EACH(n, T, (U)A(T, 0) << k);
        if (f == "sra_n") return REF EACH(n, T, addT<T>(A(T, 0), shrT<T>(A(T, 1), k)));
        if (f == "cvt" && sizeof(T) == 4) return REF EACH(n, T, nan(lane<float>(d0, i)) ? (T)0 : (sat<T, double>(std::trunc((double)lane<float>(d0, i)))));
        if (f == "cvtn" && sizeof(T) == 4) return REF EACH(n, T, nan(lane<float>(d0, i)) ? (T)0 : (sat<T, double>(std::nearbyint((double)lane<float>(d0, i)))));
        if constexpr (sizeof(T) < 8) {
            if (f == "addl") return REF EACH(E, W, (W)A(T, 0) + (W)A(T, 1));
            if (f == "subl") return REF EACH(E, W, (W)((W)A(T, 0) - (W)A(T, 1)));
            if (f == "mull") return REF EACH(E, W, (W)A(T, 0) * (W)A(T, 1));
            if (f == "mull_n") return REF EACH(E, W, (W)A(T, 0) * (W)lane<T>(d1, 0));
            if (f == "addl_high") return REF EACH(E, W, (W)lane<T>(d0, i + E) + (W)lane<T>(d1, i + E));
            if (f == "addw") return REF EACH(E, W, addT<W>(A(W, 0), (W)A(T, 1)));
            if (f == "subw") return REF EACH(E, W, subT<W>(A(W, 0), (W)A(T, 1)));
            if (f == "addw_high") return REF EACH(E, W, addT<W>(A(W, 0), (W)lane<T>(d1, i + E)));
            if (f == "mlal") return REF EACH(E, W, addT<W>(A(W, 0), mulT<W>((W)A(T, 1), (W)A(T, 2))));
            if (f == "mlsl") return REF EACH(E, W, subT<W>(A(W, 0), mulT<W>((W)A(T, 1), (W)A(T, 2))));
            if (f == "movl") return REF EACH(E, W, (W)A(T, 0));
            if (f == "shll_n") return REF EACH(E, W, (uint64_t)(W)A(T, 0) << k);
            if (f == "paddl") return REF EACH(n / 2, W, (W)lane<T>(d0, 2 * i) + (W)lane<T>(d0, 2 * i + 1));
            if (f == "qdmull") return REF EACH(E, W, (sat<W, __int128>((__int128)A(T, 0) * A(T, 1) * 2)));
        }
        if constexpr (sizeof(T) > 1) {
            constexpr int c = 16 / (int)sizeof(T), hb = 4 * (int)sizeof(T);
            typedef typename Ty<NT>::U UN;
            if (f == "addhn_high") return REF { UNUSED; memcpy(r, d[0], 8); for (int i = 0; i < c; i++) setLane<NT>(r, c + i, (NT)((U)addT<T>(A(T, 1), A(T, 2)) >> hb)); };
            if (f == "subhn") return REF EACH(c, NT, (U)subT<T>(A(T, 0), A(T, 1)) >> hb);
            if (f == "rsubhn") return REF EACH(c, NT, (U)((U)subT<T>(A(T, 0), A(T, 1)) + ((U)1 << (hb - 1))) >> hb);
            if (f == "movn") return REF EACH(c, NT, A(T, 0));
            if (f == "shrn_n") return REF EACH(c, NT, shrX<X>(A(T, 0), k, false));
            if (f == "rshrn_n") return REF EACH(c, NT, shrX<X>(A(T, 0), k, true));
            if (f == "qmovn") return REF EACH(c, NT, (sat<NT, X>(A(T, 0))));
            if (f == "qmovun") return REF EACH(c, UN, (sat<UN, X>(A(T, 0))));
            if (f == "qshrn_n") return REF EACH(c, NT, (sat<NT, X>(shrX<X>(A(T, 0), k, false))));
            if (f == "qshrun_n") return REF EACH(c, UN, (sat<UN, X>(shrX<X>(A(T, 0), k, false))));
            if (f == "qrshrun_n") return REF EACH(c, UN, (sat<UN, X>(shrX<X>(A(T, 0), k, true))));
        }
    }
    return nullptr;
}
template <class T> static Ref pickT(const Op& op) { return op.q ? pickFixed<T, 16>(op.fam) : pickFixed<T, 8>(op.fam); }
Ref pickRef(const Op& op) {
    std::string t = op.t;
    return t == "s8" ? pickT<int8_t>(op) : t == "u8" ? pickT<uint8_t>(op) : t == "s16" ? pickT<int16_t>(op) : t == "u16" ? pickT<uint16_t>(op)
         : t == "s32" ? pickT<int32_t>(op) : t == "u32" ? pickT<uint32_t>(op) : t == "s64" ? pickT<int64_t>(op) : t == "u64" ? pickT<uint64_t>(op)
         : t == "f32" ? pickT<float>(op) : pickT<double>(op);
}
#undef A
#undef EACH
#undef REF
#undef UNUSED

