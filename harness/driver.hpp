// Calls intrinsics of /repo/neon_sim.h on raw operand images and records what happened.
// The table of intrinsics (ops_gen.inc) is generated from the catalogue exported by the specification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <utility>
#include <type_traits>
#include <vector>
#include <string>

struct ArgInfo { char k; int n; const char* t; };      // k: v vector(s), s scalar, p pointer, i immediate
struct Op {
    const char* name; const char* prop; const char* fam;
    void (*thunk)(void*, const uint8_t* const*, uint8_t*);
    void* fn;                                           // null: not linked
    bool shape;                                         // operand and result sizes are as catalogued
    int nargs; ArgInfo args[4];
    int resn; const char* rest;
    bool imm; int lo, hi; int rd, wr; bool mem; const char* t; const char* u; int eb; bool fa; int nv; bool q;
};
extern Op g_ops[];
extern const int g_nops;
// (operation, data operands, immediate, memory read, result, memory written)
typedef const uint8_t* const* Data;
typedef void (*Ref)(const Op&, Data, int, const uint8_t*, uint8_t*, uint8_t*);
Ref pickRef(const Op&) __attribute__((weak));

template <class T> inline T loadArg(const uint8_t* p) {
    typename std::remove_cv<T>::type v;
    std::memcpy((void*)&v, p, sizeof v);
    return v;
}
template <class F> struct Th;
template <class R, class... A> struct Th<R (*)(A...)> {
    static constexpr size_t nargs = sizeof...(A);
    template <size_t... I>
    static void go(R (*f)(A...), const uint8_t* const* a, uint8_t* res, std::index_sequence<I...>, std::false_type) {
        R r = f(loadArg<A>(a[I])...);
        std::memcpy(res, (const void*)&r, sizeof r);
    }
    template <size_t... I>
    static void go(R (*f)(A...), const uint8_t* const* a, uint8_t*, std::index_sequence<I...>, std::true_type) {
        f(loadArg<A>(a[I])...);
    }
    static void call(void* fn, const uint8_t* const* a, uint8_t* res) {
        go((R(*)(A...))fn, a, res, std::index_sequence_for<A...>{}, std::is_void<R>{});
    }
    template <class T> static int sz(std::false_type) { return (int)sizeof(T); }
    template <class T> static int sz(std::true_type) { return 0; }
    static bool shape(int resn, std::initializer_list<int> an) {
        int s[] = {sz<A>(std::false_type{})..., 0};
        if (an.size() != nargs) return false;
        size_t i = 0;
        for (int x : an) if (s[i++] != x) return false;
        return sz<typename std::conditional<std::is_void<R>::value, char, R>::type>(std::is_void<R>{}) == resn;
    }
};
