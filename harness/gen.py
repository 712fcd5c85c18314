#!/usr/bin/env python3
"""Generates C and C++ sources from the catalogue exported by the specification."""
import json, sys

def load(path):
    return [json.loads(l) for l in open(path) if l.strip()]

K = {"vec": "v", "scalar": "s", "cptr": "p", "ptr": "p", "imm": "i"}
SZ = {"cptr": 8, "ptr": 8, "imm": 4}

def gen(cat, out, exclude=(), inline=(), ptr=8):
    """ops_gen.inc: table of intrinsics for driver.cpp.  inline: those whose body the header itself holds."""
    lines = ['#include "neon_sim.h"']
    cat = [c for c in cat if c["name"] not in exclude]
    for c in cat:
        if c["name"] not in inline:
            lines.append("#pragma weak %s" % c["name"])
    where = {}
    lines.append("__attribute__((init_priority(101))) Op g_ops[] = {")
    for c in cat:
        n = c["name"]
        args = ",".join('{\'%s\',%d,"%s"}' % (K[a["k"]], a["n"], a["t"]) for a in c["args"])
        sizes = ",".join(str(ptr if a["k"] in ("cptr", "ptr") else SZ.get(a["k"], a["n"])) for a in c["args"])
        b = lambda x: "true" if x else "false"
        lines.append('{"%s","%s","%s",&Th<decltype(&%s)>::call,(void*)&%s,Th<decltype(&%s)>::shape(%d,{%s}),%d,{%s},%d,"%s",%s,%d,%d,%d,%d,%s,"%s","%s",%d,%s,%d,%s},' % (
            n, c["p"], c["f"], n, n, n, c["res"]["n"], sizes, len(c["args"]), args, c["res"]["n"], c["res"]["t"],
            b(c["imm"]), c["lo"], c["hi"], c["rd"], c["wr"], b(c["mem"]), c["t"], c["u"], c["eb"], b(c["fa"]), c["n"], b(c["q"])))
        where[len(lines)] = n
    lines.append("};")
    lines.append("const int g_nops = sizeof g_ops / sizeof *g_ops;")
    open(out, "w").write("\n".join(lines) + "\n")
    return where

def gen_client(cat, lang, out, exclude=(), inline=()):
    """A client program's view: calls every intrinsic by name with its published operand types (lang c or cc)."""
    cat = [c for c in cat if c["name"] not in exclude]
    L = ['#include "neon_sim.h"', "#include <string.h>"]
    where = {}
    if lang == "cc":
        L.append('#include "typenames.hpp"')
    L.append(('extern "C" ' if lang == "cc" else "extern ") + "int client_evals;")
    for c in cat:
        if c["name"] not in inline:
            L.append("#pragma weak %s" % c["name"])
            where[len(L)] = c["name"]
    for c in cat:
        n = c["name"]
        decl = "".join("%s x%d; memcpy((void*)&x%d, a[%d], sizeof x%d); " % (a["c"], i, i, i, i) for i, a in enumerate(c["args"]))
        call = "%s(%s)" % (n, ", ".join("(ev[%d]++, x%d)" % (i, i) for i in range(len(c["args"]))))
        decl = "int ev[8] = {0}; " + decl
        if c["res"]["k"] == "void":
            body = decl + call + "; (void)res;"
        else:
            body = decl + "%s r = %s; memcpy(res, (void*)&r, sizeof r);" % (c["res"]["c"], call)
        body += " if (%s) client_evals = 1;" % (" || ".join("ev[%d] != 1" % i for i in range(len(c["args"]))) or "0")
        L.append("static void th_%s(const unsigned char* const* a, unsigned char* res) { %s }" % (n, body))
        where[len(L)] = n
    L.append("struct client_entry { const char* name; void* fn; int same; void (*th)(const unsigned char* const*, unsigned char*); const char* sig; };")
    if lang == "cc":
        L.append('extern "C" const struct client_entry client_cc[];')
    L.append("const struct client_entry client_%s[] = {" % lang)
    for c in cat:
        n = c["name"]
        fty = "%s (%s)" % (c["res"]["c"], ", ".join(a["c"] for a in c["args"]))
        if lang == "c":
            L.append('{"%s", (void*)&%s, __builtin_types_compatible_p(__typeof__(%s), %s), th_%s, ""},' % (n, n, n, fty, n))
        else:
            L.append('{"%s", (void*)&%s, std::is_same<decltype(&%s), %s (*)(%s)>::value, th_%s, sigOf(&%s)},' % (
                n, n, n, c["res"]["c"], ", ".join(a["c"] for a in c["args"]), n, n))
        where[len(L)] = n
    L.append("{0, 0, 0, 0, 0}};")
    open(out, "w").write("\n".join(L) + "\n")
    return where

def gen_typenames(cat, types, out):
    names = sorted(set(types) | {"int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "float", "double"})
    L = ["#pragma once", '#include "neon_sim.h"', "#include <string>", "#include <type_traits>", "#include <set>"]
    L.append("template <class T> struct TN { static std::string s() { return std::is_same<T, void>::value ? \"void\" : \"?\"; } };")
    m = {"float": "float32_t", "double": "float64_t"}
    for t in names:
        L.append('template <> struct TN<%s> { static std::string s() { return "%s"; } };' % (t, m.get(t, t)))
    L.append("template <class T> struct TN<T*> { static std::string s() { return TN<T>::s() + \"*\"; } };")
    L.append("template <class T> struct TN<T const*> { static std::string s() { return TN<T>::s() + \" const*\"; } };")
    L.append("inline std::string join() { return \"\"; }")
    L.append("template <class A, class... B> std::string joinT() { std::string r = '\"' + TN<A>::s() + '\"'; std::string t[] = {\"\", ('\"' + TN<B>::s() + '\"')...}; for (size_t i = 1; i <= sizeof...(B); i++) r += \",\" + t[i]; return r; }")
    L.append("template <class R, class... A> const char* sigOf(R (*)(A...)) { static std::set<std::string> keep; return keep.insert(\"\\\"args\\\":[\" + joinT<A...>() + \"],\\\"res\\\":\\\"\" + TN<R>::s() + \"\\\"\").first->c_str(); }")
    open(out, "w").write("\n".join(L) + "\n")

CE = {"s8": "int8_t", "s16": "int16_t", "s32": "int32_t", "s64": "int64_t", "u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t",
      "u64": "uint64_t", "f32": "float32_t", "f64": "float64_t"}
EB = {k: int(k[1:]) // 8 for k in CE}

def gen_layout(types, lang, out, exclude=()):
    """Layout probe: types is the list of [c |-> C name, t |-> element, q, n] exported by the specification."""
    L = ['#include "neon_sim.h"', "#include <stdio.h>", "#include <string.h>",
         "static void bytes(const char* k, const void* p, size_t n) { size_t i; printf(\",\\\"%s\\\":[\", k); for (i = 0; i < n; i++) printf(i ? \",%d\" : \"%d\", ((const unsigned char*)p)[i]); printf(\"]\"); }"]
    where = {}
    fs = []
    for y in types:
        if y["c"] in exclude:
            continue
        eb = EB[y["t"]]
        lanes = (16 if y["q"] else 8) // eb
        tot = lanes * y["n"]
        sc = CE[y["t"]]
        vals = ", ".join(("%d.%d" % (3 * i + 1, i % 10)) + ("f" if eb == 4 else "") if y["t"][0] == "f" else
                         "(%s)0x%xULL" % (sc, int.from_bytes(bytes((17 * i + 31 * j + 7) & 255 for j in range(eb)), "little")) for i in range(tot))
        nm = y["c"]
        if y["n"] == 1:
            flat = nested = "{{" + ", ".join("s[%d]" % i for i in range(tot)) + "}}"
            acc = lambda i: "val[%d]" % i
        else:
            nested = "{{" + ", ".join("{{" + ", ".join("s[%d]" % (v * lanes + i) for i in range(lanes)) + "}}" for v in range(y["n"])) + "}}"
            acc = lambda i: "val[%d].val[%d]" % (i // lanes, i % lanes)
        flat = "{" + ", ".join("s[%d]" % i for i in range(tot)) + "}"
        body = "const %s s[] = {%s}; %s x = %s; %s y = %s; %s z; %s t[%d]; " % (sc, vals, nm, nested, nm, flat, nm, sc, tot)
        body += " ".join("z.%s = s[%d];" % (acc(i), i) for i in range(tot))
        body += " ".join("t[%d] = x.%s;" % (i, acc(i)) for i in range(tot))
        body += ' printf("{\\"e\\":\\"layout\\",\\"lang\\":\\"%s\\",\\"ty\\":\\"%s\\",\\"size\\":%%d", (int)sizeof x);' % (lang, nm)
        body += ' bytes("lanes", s, sizeof s); bytes("nested", &x, sizeof x); bytes("flat", &y, sizeof y); bytes("assigned", &z, sizeof z); bytes("read", t, sizeof t); printf("}\\n");'
        L.append("static void f_%s(void) { %s }" % (nm, body))
        where[len(L)] = nm
        fs.append("f_%s();" % nm)
    L.append("int main(void) { %s return 0; }" % " ".join(fs))
    open(out, "w").write("\n".join(L) + "\n")
    return where

def gen_accept(cat, types, lang, out, part=0, parts=1, exclude=()):
    """Compile-time probe: which types a compiler takes for every vector and pointer operand, and for every vector type."""
    sc = ["int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "float32_t", "float64_t"]
    vec = [t["c"] for t in types if t["c"] not in exclude]
    if lang == "c":
        L = ['#include "neon_sim.h"', "#include <stdio.h>", "int main(void) {", 'const char* sep;']
        for a in vec:
            L.append('printf("{\\"e\\":\\"convert\\",\\"lang\\":\\"c\\",\\"ty\\":\\"%s\\",\\"to\\":["); sep = "";' % a)
            for b in vec:
                L.append('if (__builtin_types_compatible_p(%s, %s)) { printf("%%s\\"%s\\"", sep); sep = ","; }' % (a, b, b))
            L.append('printf("]}\\n");')
        L.append("return 0; }")
        open(out, "w").write("\n".join(L) + "\n")
        return
    offered = vec + [x for t in sc for x in (t + " const*", t + "*")]
    L = ['#include "neon_sim.h"', "#include <stdio.h>", "#include <type_traits>", "#include <utility>",
         "template <class... T> struct List {};",
         "typedef List<%s> Offered; typedef List<%s> Vectors;" % (", ".join(offered), ", ".join(vec)),
         "static const char* const names[] = {%s};" % ", ".join('"%s"' % t for t in offered),
         "static void show(const bool* ok, int n) { const char* sep = \"\"; for (int i = 0; i < n; i++) if (ok[i]) { printf(\"%s\\\"%s\\\"\", sep, names[i]); sep = \",\"; } printf(\"]}\\n\"); }",
         "template <class C, class... A, class... Z, class... T> void row(const char* o, int j, List<A...>, List<Z...>, List<T...>) {",
         "    static const bool ok[] = {decltype(C::template t<A..., T, Z...>(0))::value...};",
         "    printf(\"{\\\"e\\\":\\\"accept\\\",\\\"o\\\":\\\"%s\\\",\\\"j\\\":%d,\\\"ty\\\":[\", o, j); show(ok, sizeof...(T)); }",
         "template <class S, class... T> void conv(const char* s, List<T...>) {",
         "    static const bool ok[] = {(std::is_convertible<S, T>::value || std::is_convertible<S&, T>::value || std::is_assignable<T&, S>::value || std::is_constructible<T, S>::value)...};",
         "    printf(\"{\\\"e\\\":\\\"convert\\\",\\\"lang\\\":\\\"cc\\\",\\\"ty\\\":\\\"%s\\\",\\\"to\\\":[\", s); show(ok, sizeof...(T)); }"]
    M, where = [], {}
    for c in [c for c in cat[part::parts] if c["name"] not in exclude]:
        n = c["name"]
        strict = [j for j, a in enumerate(c["args"]) if a["k"] in ("vec", "cptr", "ptr")]
        L.append("struct C_%s { template <class... X> static auto t(int) -> decltype((void)%s(std::declval<X&>()...), std::true_type()); template <class...> static std::false_type t(long); };" % (n, n))
        where[len(L)] = n
        ty = [a["c"] for a in c["args"]]
        if any(t in exclude for t in ty):
            continue
        for j in strict:
            M.append('row<C_%s>("%s", %d, List<%s>(), List<%s>(), Offered());' % (n, n, j + 1, ", ".join(ty[:j]), ", ".join(ty[j + 1:])))
    if part == 0:
        M += ['conv<%s>("%s", Vectors());' % (t, t) for t in vec]
    L.append("int main() {\n" + "\n".join(M) + "\nreturn 0; }")
    open(out, "w").write("\n".join(L) + "\n")
    return where



def gen_accept_c(cat, types, out, part=0, parts=1):
    """One line for every vector and address operand and every type offered for it, in C; returns line -> (name, operand, type)."""
    sc = ["int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "float32_t", "float64_t"]
    var = {}
    L = ['#include "neon_sim.h"']
    for t in [t["c"] for t in types] + [x for t in sc for x in (t + " const*", t + "*")] + sc + ["int"]:
        var[t] = "x%d" % len(var)
        L.append("extern %s %s;" % (t, var[t]))
    where = {}
    offered = [t["c"] for t in types] + [x for t in sc for x in (t + " const*", t + "*")]
    for c in cat[part::parts]:
        for j, a in enumerate(c["args"]):
            if a["k"] not in ("vec", "cptr", "ptr"):
                continue
            for t in offered:
                ops = [b["c"] if i != j else t for i, b in enumerate(c["args"])]
                L.append("void f%d(void) { (void)%s(%s); }" % (len(L), c["name"], ", ".join(var[o] if b["k"] != "imm" else "1" for o, b in zip(ops, c["args"]))))
                where[len(L)] = (c["name"], j + 1, t)
    open(out, "w").write("\n".join(L) + "\n")
    return where


if __name__ == "__main__":
    gen(load(sys.argv[1]), sys.argv[2])
