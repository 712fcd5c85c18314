// The screen.  Included by driver.cpp.
//   screen PLAN OUT SEED DICT PART PARTS SECONDS
//
// Billions of calls can be made in the time the specification takes to judge a hundred thousand.  The screen chooses
// which calls to ask the specification about: it makes a call, computes the outcome a native transcription of
// Intrinsics.tla's Value and Stored expects, and writes the calls where the two differ to OUT (the format of guided.inc).
// It decides nothing.  Whatever it objects to is called again and judged by TLC; where it objects wrongly TLC overrules it,
// where it should have objected and does not, only search power is lost.
template <class T> static inline T lane(const uint8_t* p, int i) { T v; memcpy(&v, p + i * sizeof(T), sizeof(T)); return v; }
template <class T> static inline bool nan(T v) { return v != v; }
static bool sameResult(const Op& op, const uint8_t* x, const uint8_t* y) {
    if (memcmp(x, y, op.resn) == 0) return true;
    if (!op.fa) return false;
    if (op.eb == 4) { for (int i = 0; i < op.resn / 4; i++) if (memcmp(x + 4 * i, y + 4 * i, 4) && !(nan(lane<float>(x, i)) && nan(lane<float>(y, i)))) return false; }
    else for (int i = 0; i < op.resn / 8; i++) if (memcmp(x + 8 * i, y + 8 * i, 8) && !(nan(lane<double>(x, i)) && nan(lane<double>(y, i)))) return false;
    return true;
}

// The call under way, in memory shared with the parent.
// The last calls made, for objections that may be owed to what came before (trails).
enum { LAST = 24 };
struct Past { volatile uint32_t on; uint32_t op[LAST]; uint8_t buf[LAST][4][80], mem[LAST][256]; int k[LAST], p[LAST], n[LAST], z[LAST]; volatile uint64_t made; };
static Past* g_past;
struct Now { uint8_t buf[4][80]; uint8_t *page, *mem; int k, p, n, z; volatile uint32_t op, objections; volatile uint64_t calls; volatile int done; };

#pragma GCC push_options
#pragma GCC optimize("O2")
// Every two seconds: a call that does not return is given up, and past the deadline so is the search.
struct Screen {
    const Op& op; Ref ref; Now* now; char*& out; char* end;
    const uint8_t* a[4]; const uint8_t* d[4] = {nullptr, nullptr, nullptr, nullptr}; int nd = 0, di[4];
    uint8_t before[512];
    std::unordered_set<std::string> seen;
    uint64_t made = 0;
    struct Late {};
    static inline volatile uint64_t* watched = nullptr;
    static inline volatile bool late = false;
    inline void counted() { made++; if (late) throw Late(); }
    ~Screen() { watched = nullptr; now->calls = now->calls + made; }
    Screen(const Screen&) = delete;
    static inline bool same16(const uint8_t* x, const uint8_t* y) { uint64_t a[2], b[2]; memcpy(a, x, 16); memcpy(b, y, 16); return ((a[0] ^ b[0]) | (a[1] ^ b[1])) == 0; }
    Screen(const Op& o, Now* n, char*& b, char* e) : op(o), ref(pickRef(o)), now(n), out(b), end(e) {
        for (int i = 0; i < op.nargs; i++) { a[i] = now->buf[i]; memset(now->buf[i], 0, sizeof now->buf[i]); if (op.args[i].k == 'v' || op.args[i].k == 's') { d[nd] = a[i]; di[nd++] = i; } }
        now->k = now->p = now->n = 0; now->z = 1; now->mem = now->page;
        watched = &made;
    }
    void setImm(int k) { now->k = k; for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'i') memcpy(now->buf[i], &k, 4); }
    // the window where doCall puts it: between pages that cannot be touched
    void setMem(int p, int n, int z) {
        now->p = p; now->n = n; now->z = z;
        now->mem = z == 0 ? now->page : z == 1 ? now->page + 2 * PG - n : now->page + PG - p - (z - 2);
        for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'p') { uint8_t* q = now->mem + p; memcpy(now->buf[i], &q, 8); }
    }
    void poison(bool on) {                                        // under AddressSanitizer only the footprint can be touched
        if (!__asan_poison_memory_region) return;
        uint8_t *q = now->mem + now->p, *e = q + std::max(op.rd, op.wr), *f = (uint8_t*)((uintptr_t)q & ~(uintptr_t)7);
        uint8_t *from = std::max(now->page, f - 128), *to = std::min(now->page + 2 * PG, e + 128);
        if (!on) { __asan_unpoison_memory_region(from, to - from); return; }
        __asan_poison_memory_region(e, to - e);
        __asan_poison_memory_region(from, f - from);
    }
    void keep() {
        uint32_t i = g_past->made % LAST;
        g_past->op[i] = (uint32_t)(&op - g_ops); memcpy(g_past->buf[i], now->buf, sizeof now->buf);
        g_past->k[i] = now->k; g_past->p[i] = now->p; g_past->n[i] = now->n; g_past->z[i] = now->z;
        if (op.mem) memcpy(g_past->mem[i], now->mem, std::min(now->n, 256));
        g_past->made = g_past->made + 1;
    }
    static std::string trail() {
        std::string s = "@\n";
        for (uint64_t m = g_past->made < LAST ? 0 : g_past->made - LAST; m < g_past->made; m++) {
            int i = m % LAST; const Op& o = g_ops[g_past->op[i]];
            Case x; x.k = g_past->k[i]; x.p = g_past->p[i]; x.z = g_past->z[i];
            for (int j = 0; j < o.nargs; j++) if (o.args[j].k == 'v' || o.args[j].k == 's') x.a[j].assign(g_past->buf[i][j], g_past->buf[i][j] + o.args[j].n);
            if (o.mem) x.m.assign(g_past->mem[i], g_past->mem[i] + g_past->n[i]);
            s += caseLine(o, x);
        }
        return s;
    }
    void object() {
        if (g_past->on) {
            if (now->objections >= 6) return;
            std::string l = trail();
            if (out + l.size() > end) return;
            memcpy(out, l.data(), l.size()); out += l.size();
            now->objections = now->objections + 1;
            return;
        }
        Case x; x.k = now->k; x.p = now->p; x.z = now->z;
        for (int j = 0; j < nd; j++) x.a[di[j]].assign(d[j], d[j] + op.args[di[j]].n);
        if (op.mem) x.m.assign(before, before + now->n);
        std::string l = caseLine(op, x);
        if (now->objections >= 24 || !seen.insert(l).second || out + l.size() > end) return;
        memcpy(out, l.data(), l.size()); out += l.size();
        now->objections = now->objections + 1;
    }
    inline void call() {
        alignas(16) uint8_t res[RESMAX], exp[RESMAX];
        counted();
        if (g_past->on) keep();
        if (op.mem) {
            uint8_t after[512];
            memcpy(before, now->mem, now->n); memcpy(after, now->mem, now->n);
            ref(op, d, now->k, after + now->p, exp, after + now->p);
            poison(true);
            op.thunk(op.fn, a, res);
            poison(false);
            bool ok = memcmp(after, now->mem, now->n) == 0 && (op.resn == 0 || memcmp(res, exp, op.resn) == 0);
            if (!ok) object();
            if (op.wr) memcpy(now->mem, before, now->n);
            return;
        }
        ref(op, d, now->k, nullptr, exp, nullptr);
        op.thunk(op.fn, a, res);
        if (op.resn == 16 ? !same16(res, exp) : op.resn == 8 ? memcmp(res, exp, 8) : memcmp(res, exp, op.resn)) if (!sameResult(op, res, exp)) object();
    }
    void reject() {                                               // an immediate that must be refused
        uint8_t res[RESMAX];
        counted();
        if (op.mem) memcpy(before, now->mem, now->n);
        bool back = rawCall(op, a, res);
        if (back || (op.mem && memcmp(before, now->mem, now->n))) object();
        if (op.mem) memcpy(now->mem, before, now->n);
    }
    void load(const Case& x) {
        for (int j = 0; j < nd; j++) memcpy(now->buf[di[j]], x.a[di[j]].data(), op.args[di[j]].n);
        setImm(x.k);
        if (op.mem) { setMem(x.p, (int)x.m.size(), x.z); memcpy(now->mem, x.m.data(), x.m.size()); }
    }
    int placeCount() { int n = 0; for (int j = 0; j < nd; j++) n += op.args[di[j]].n / ebOf(op.args[di[j]].t); return n; }

    struct Pl { uint8_t* b; int eb, bits; const char* t; bool f; } pl[160]; int np = 0, fixed = 0;
    Rng r{0}; uint64_t seed, c = 0; uint32_t salt; int v = 60; bool hard = false;
    void begin(uint64_t s, uint32_t sa) {
        seed = s; salt = sa;
        r = Rng(seed * 7919 + salt * 104729 + hashStr(op.name));
        for (int j = 0; j < nd; j++) for (int l = 0, eb = ebOf(op.args[di[j]].t); l + eb <= op.args[di[j]].n && np < 96; l += eb)
            pl[np++] = {now->buf[di[j]] + l, eb, 8 * eb, op.args[di[j]].t, isF(op.args[di[j]].t)};
        fixed = np;
        hard = op.fa && nd >= 2;
    }
    void fresh() {
        auto f = g_found.find(&op);
        if (f != g_found.end() && r.u(2)) load(f->second[r.u(f->second.size())]);
        else load(makeCase(op, seed + 77, (uint32_t)(c * 8 + salt) * 2 + 1, 0));
        np = fixed;                                               // elements read from memory vary like lanes
        for (int l = 0, eb = ebOf(op.t); l + eb <= op.rd && np < 160; l += eb) pl[np++] = {now->mem + now->p + l, eb, 8 * eb, op.t, isF(op.t)};
    }
    void mutate() {
        if (hard && r.u(2)) {                                     // all lanes: operands whose exact result is near a tie
            int eb = ebOf(op.args[di[0]].t), L = op.args[di[0]].n / eb;
            uint64_t y[4] = {0, 0, 0, 0};
            for (int l = 0; l < L; l++) {
                for (int j = 0; j < nd; j++) y[j] = get(now->buf[di[j]] + (op.args[di[j]].n == eb ? 0 : l * eb), eb);
                hardFloats(op.fam, 8 * eb, y, nd, r);
                for (int j = 0; j < nd; j++) put(now->buf[di[j]] + (op.args[di[j]].n == eb ? 0 : l * eb), eb, y[j]);
            }
        } else if (np) {
            int many = r.u(4) ? 1 + r.u(3) : np;
            int how = r.u(9);
            if (how == 8) {                                       // the same value everywhere, or a run of neighbours
                Pl& o = pl[r.u(np)];
                uint64_t y = r.u(2) ? get(o.b, o.eb) : o.f ? floatVal(o.bits, r) : intVal(o.bits, r), by = r.u(3) ? 0 : r.u(2) ? 1 : r.u(256);
                int from = r.u(3) ? 0 : (int)r.u(np), to = r.u(3) ? np : from + (int)r.u(np - from) + 1;
                for (int q = from; q < to; q++, y += by) put(pl[q].b, pl[q].eb, y);
                many = 0;
            }
            for (int q = 0; q < many; q++) {
                Pl& p = pl[many == np ? q : (int)r.u(np)];
                uint64_t y;
                switch (how) {
                case 0: case 1: case 2: y = r.next(); break;
                case 3: y = p.f ? floatVal(p.bits, r) : intVal(p.bits, r); break;
                case 4: { Pl& o = pl[r.u(np)]; y = get(o.b, o.eb); break; }
                case 5: { Pl& o = pl[r.u(np)]; y = related(p.t, get(o.b, o.eb), r.u(12), r); break; }
                case 6: { auto& g = grid(p.t); y = g[r.u(g.size())]; break; }
                default: y = get(p.b, p.eb) + (uint64_t)r.u(5) - 2;
                }
                put(p.b, p.eb, y);
            }
        }
    }
    // One more call: a fresh one now and then, variations of it in between
    void step() {
        if (v >= 60) {
            fresh(); call(); c++; v = 0;
            return;
        }
        v++; c++;
        if (g_past->on && r.u(4) == 0) { call(); return; }        // the same again
        if (op.imm && r.u(3) == 0) setImm(op.lo + (int)r.u(op.hi - op.lo + 1));
        mutate();
        call();
    }
    void random(uint64_t seed, uint64_t n, uint32_t salt) { begin(seed, salt); while (c < n) step(); }

    // Operand bits one lane depends on, when every result lane depends on one lane of each operand: those spaces
    // of at most 32 bits are enumerated completely.
    int laneBits() {
        static const char* const lanewise[] = {"add", "sub", "mul", "mul_n", "mla", "mla_n", "max", "min", "cgt", "clt", "qadd", "qsub", "hsub", "shr_n", "shl_n", "sra_n", "cvt", "cvtn",
            "addl", "subl", "mull", "mull_n", "addw", "subw", "mlal", "mlsl", "movl", "shll_n", "qdmull", "subhn", "rsubhn", "movn", "shrn_n", "rshrn_n", "qmovn", "qmovun", "qshrn_n",
            "qshrun_n", "qrshrun_n", "div", "recpe", "recps", "and", "orr", "eor", "mvn", "bsl", "addl_high", "addw_high", "addhn_high"};
        bool ok = false;
        for (auto f : lanewise) if (!strcmp(f, op.fam)) ok = true;
        if (!ok) return 0;
        int b = 0;
        for (int j = !strcmp(op.fam, "addhn_high"); j < nd; j++) b += 8 * ebOf(op.args[di[j]].t);
        return b;
    }
    template <class T> void sweep(uint8_t* b, int L, uint64_t from, uint64_t to) {   // lanes take from*L .. to*L-1, rotated
        for (uint64_t c = from; c < to; c++) {
            T v = (T)(c * L), rot = (T)c, mask = (T)(L - 1);
            T t[16];
            for (int l = 0; l < L; l++) t[l] = (T)(v + ((T)(l + rot) & mask));
            memcpy(b, t, L * sizeof(T));
            call();
        }
    }
    // Slice part of parts of the enumeration; with a stride only every stride-th block, from off on.  The first vector
    // operand runs through all its values in each block, the others hold one value each.
    void exhaust(uint64_t part, uint64_t parts, uint64_t stride, uint64_t off, uint64_t seed) {
        int bits = laneBits();
        if (!bits || bits > 32) return;
        bool high = strstr(op.fam, "_high") != nullptr;
        int first = !strcmp(op.fam, "addhn_high");
        int L = 64;                                               // result lanes at once
        for (int j = first; j < nd; j++) if (op.args[di[j]].k == 'v') L = std::min(L, op.args[di[j]].n / ebOf(op.args[di[j]].t));
        Rng r(seed + hashStr(op.name));
        for (int j = 0; j < nd; j++) for (int i = 0; i < 80; i++) now->buf[di[j]][i] = (uint8_t)r.next();
        const ArgInfo& g0 = op.args[di[first]];
        int eb0 = ebOf(g0.t);
        uint8_t* b0 = now->buf[di[first]] + (high && g0.n / eb0 == 2 * L ? L * eb0 : 0);
        if (g0.n / eb0 > L) b0 = now->buf[di[first]] + (high ? g0.n - L * eb0 : 0);
        uint64_t calls0 = (1ull << 8 * eb0) / L;                  // calls for all values of the first operand
        uint64_t blocks = 1ull << (bits - 8 * eb0), pieces = 1;
        while (blocks * pieces < 4096 && calls0 / pieces >= 2) pieces *= 2;
        uint64_t imms = op.imm ? op.hi - op.lo + 1 : 1;
        for (uint64_t im = 0; im < imms; im++) {
            if (op.imm) setImm(op.lo + (int)im);
            for (uint64_t q = 0; q < blocks * pieces; q++) {
                if ((q + im) % parts != part || (q / parts + off + im) % stride) continue;
                uint64_t v = q / pieces, piece = q % pieces;
                for (int j = first + 1; j < nd; j++) {
                    const ArgInfo& g = op.args[di[j]];
                    int eb = ebOf(g.t);
                    for (int i = 0; i < g.n; i += eb) memcpy(now->buf[di[j]] + i, &v, eb);
                    v >>= 8 * eb;
                }
                uint64_t from = piece * (calls0 / pieces), to = from + calls0 / pieces;
                if (eb0 == 1) sweep<uint8_t>(b0, L, from, to); else if (eb0 == 2) sweep<uint16_t>(b0, L, from, to); else sweep<uint32_t>(b0, L, from, to);
            }
        }
    }
    void rejects(uint64_t seed, uint64_t n, uint32_t part, uint32_t parts) {
        if (!op.imm) return;
        Case x = makeCase(op, seed, part, 0);
        load(x);
        Rng r(seed * 31 + part + hashStr(op.name));
        uint64_t sweep = n / 2;
        for (uint64_t c = part; c < n; c += parts) {
            int k;
            if (c < sweep) k = (int)(c / 2 + 1) * (c & 1 ? -1 : 1) + (c & 1 ? op.lo : op.hi);
            else switch (r.u(6)) {
            case 0: k = (int)r.next(); break;
            case 1: k = 1 << r.u(32); k += (int)r.u(2 * (op.hi + 2)) - op.hi; break;
            case 2: k = (int)(1u << r.u(32) | 1u << r.u(32)) + (int)r.u(op.hi + 1); break;
            case 3: k = (int)(r.next() >> (32 + r.u(31))) * (r.u(2) ? 1 : -1); break;
            case 4: { k = g_dict.empty() ? 0 : (int)g_dict[r.u(g_dict.size())]; k += (int)r.u(3) - 1; break; }
            default: { static const uint64_t t[] = {256, 65536, 128, 32768, 1u << 31, 1u << 30, 1000, 10, 64, 100, 512, 1024, 4096}; k = (int)(t[r.u(13)] * (1 + r.u(255)) + r.u(op.hi + 1)) * (r.u(2) ? 1 : -1); }
            }
            if (k >= op.lo && k <= op.hi) continue;
            setImm(k);
            if (r.u(8) == 0) { x = makeCase(op, seed, (uint32_t)c, 0); load(x); setImm(k); }
            reject();
        }
        // the immediates a slip would let through, with operands of every kind
        std::vector<int> ks;
        for (int64_t b : {0ll, 1ll, 8ll, 16ll, 32ll, 64ll, 127ll, 128ll, 255ll, 256ll, 32767ll, 32768ll, 65535ll, 65536ll, 2147483647ll, -2147483648ll})
            for (int64_t s : {1, -1}) for (int d = -2; d <= 2; d++) ks.push_back((int)(s * b + d));
        for (int d = 1; d <= 8; d++) { ks.push_back(op.lo - d); ks.push_back(op.hi + d); ks.push_back(-op.hi - d); ks.push_back(2 * op.hi + d); }
        ks.erase(std::remove_if(ks.begin(), ks.end(), [&](int k) { return k >= op.lo && k <= op.hi; }), ks.end());
        begin(seed + 5, part);
        for (c = part; c < n && !late; c += parts) {
            if (c / parts % 16 == 0) fresh(); else mutate();
            setImm(ks[r.u(4) ? r.u(ks.size()) : ks.size() - 1 - r.u(std::min<size_t>(ks.size(), 24))]);
            reject();
        }
    }
};

#pragma GCC pop_options
static time_t g_deadline;
static void tick(int) {
    static uint64_t last; static int still;
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    if (t.tv_sec > g_deadline) Screen::late = true;
    if (Screen::watched && *Screen::watched == last) { if (++still == 5) _exit(9); } else still = 0;
    last = Screen::watched ? *Screen::watched : 0;
}

static Past* newPast() { Past* p = (Past*)mmap(0, sizeof(Past) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p; }
static Now* newNow() {
    Now* now = (Now*)mmap(0, sizeof(Now) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    now->page = (uint8_t*)mmap(0, 4 * PG, PROT_NONE, MAP_SHARED | MAP_ANONYMOUS, -1, 0) + PG;
    mprotect(now->page, 2 * PG, PROT_READ | PROT_WRITE);
    now->op = 0;
    return now;
}

// PLAN lines: name, random calls, stride of the enumeration (0: none), immediates to be rejected
static int cmdScreen(int argc, char** argv) {
    std::ifstream plan(argv[2]);
    uint64_t seed = strtoull(argv[4], 0, 10);
    { std::ifstream d(argv[5]); std::string l; while (d >> l) g_dict.push_back(strtoull(l.c_str(), 0, 0)); }
    uint32_t part = atoi(argv[6]), parts = atoi(argv[7]);
    struct Job { const Op* op; uint64_t n, stride, bad; };
    std::vector<Job> jobs;
    std::string name; uint64_t n, stride, bad;
    while (plan >> name >> n >> stride >> bad) { const Op* op = findOp(name); if (op && op->fn && op->shape && pickRef(*op)) jobs.push_back({op, n, stride, bad}); }
    const size_t SZ = 64 << 20;
    Now* now = newNow();
    g_past = newPast();
    if (argc > 9) readFound(argv[9]);
    char* buf = (char*)mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    volatile uint64_t* used = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); g_deadline = t.tv_sec + atoi(argv[8]); }
    std::string crashed;
    while (now->op < jobs.size()) {
        now->done = 0;
        pid_t pid = fork();
        if (pid == 0) {
            quiet(); handlers();
            signal(SIGALRM, tick);
            struct itimerval every = {{2, 0}, {2, 0}}; setitimer(ITIMER_REAL, &every, 0);
            char* out = buf + *used;
            for (uint32_t i = now->op; i < jobs.size(); i++) {
                auto& j = jobs[i];
                now->op = i; now->objections = 0;
                try {
                    { Screen s(*j.op, now, out, buf + SZ); if (j.stride) s.exhaust(part, parts, j.stride, seed, seed); }
                    { Screen s(*j.op, now, out, buf + SZ); s.random(seed, j.n / parts, part); }
                    { Screen s(*j.op, now, out, buf + SZ); if (j.bad) s.rejects(seed, j.bad, part, parts); }
                } catch (Screen::Late&) {}
                *used = out - buf;
            }
            now->op = (uint32_t)jobs.size();
            now->done = 1;
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        if (now->done) break;
        const Op& op = *jobs[now->op].op;                         // the call that brought the process down
        Case x; x.k = now->k; x.p = now->p; x.z = now->z;
        for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'v' || op.args[i].k == 's') x.a[i].assign(now->buf[i], now->buf[i] + op.args[i].n);
        if (op.mem) x.m.assign(now->mem, now->mem + now->n);
        crashed += caseLine(op, x);
        now->op = now->op + 1;
    }
    FILE* f = fopen(argv[3], "w");
    fwrite(buf, 1, *used, f);
    fwrite(crashed.data(), 1, crashed.size(), f);
    fclose(f);
    printf("executed %llu\n", (unsigned long long)now->calls);
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    if (t.tv_sec > g_deadline) printf("late\n");
    return 0;
}

// trails OUT SEED DICT PART PARTS SECONDS FOUND CALLS: groups of intrinsics called in turn, in bursts; where an outcome is
// not the expected one, the last calls are written to OUT after a line "@".
static int cmdTrails(int argc, char** argv) {
    uint64_t seed = strtoull(argv[3], 0, 10);
    { std::ifstream d(argv[4]); std::string l; while (d >> l) g_dict.push_back(strtoull(l.c_str(), 0, 0)); }
    uint32_t part = atoi(argv[5]), parts = atoi(argv[6]);
    uint64_t n = strtoull(argv[9], 0, 10);
    readFound(argv[8]);
    std::vector<const Op*> ops;
    for (auto o : usable()) if (pickRef(*o)) ops.push_back(o);
    std::map<std::string, std::vector<const Op*>> fam;
    for (auto o : ops) fam[o->fam].push_back(o);
    std::vector<std::vector<const Op*>> groups;
    for (auto o : ops) groups.push_back({o});
    Rng g(seed);
    for (auto& f : fam) for (size_t i = 0; i < f.second.size(); i += 4) {
        std::vector<const Op*> v(f.second.begin() + i, f.second.begin() + std::min(i + 4, f.second.size()));
        for (int q = 0; q < 2; q++) v.push_back(ops[g.u(ops.size())]);
        groups.push_back(v);
    }
    const size_t SZ = 16 << 20;
    char* buf = (char*)mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    volatile uint64_t* used = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_past = newPast();
    std::vector<Now*> nows; for (int i = 0; i < 8; i++) nows.push_back(newNow());
    { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); g_deadline = t.tv_sec + atoi(argv[7]); }
    std::string crashed;
    for (size_t i = part; i < groups.size(); i += parts) {
        auto& v = groups[i];
        for (auto w : nows) w->done = 0, w->objections = 0;
        g_past->made = 0; g_past->on = 1;
        pid_t pid = fork();
        if (pid == 0) {
            quiet(); handlers();
            signal(SIGALRM, tick);
            struct itimerval every = {{2, 0}, {2, 0}}; setitimer(ITIMER_REAL, &every, 0);
            char* out = buf + *used;
            std::vector<Screen*> s;
            for (size_t j = 0; j < v.size(); j++) { s.push_back(new Screen(*v[j], nows[j], out, buf + SZ)); s.back()->begin(seed + i, part); }
            Screen::watched = (volatile uint64_t*)&g_past->made;
            Rng r(seed * 13 + i);
            uint64_t share = n / groups.size() * (v.size() > 1 ? 2 : 1);
            try {
                for (uint64_t c = 0; c < share;) {
                    Screen& x = *s[r.u(s.size())];
                    for (int b = v.size() == 1 ? 1 : 1 + (int)r.u(4); b > 0; b--, c++) x.step();
                    *used = out - buf;
                }
            } catch (Screen::Late&) {}
            for (auto x : s) delete x;
            *used = out - buf;
            nows[0]->done = 1;
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        if (!nows[0]->done) { crashed += Screen::trail(); nows[0]->calls = nows[0]->calls + g_past->made; }
        struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        if (t.tv_sec > g_deadline) { printf("late\n"); break; }
    }
    FILE* f = fopen(argv[2], "w");
    fwrite(buf, 1, *used, f);
    fwrite(crashed.data(), 1, crashed.size(), f);
    fclose(f);
    uint64_t calls = 0; for (auto w : nows) calls += w->calls;
    printf("executed %llu\n", (unsigned long long)calls);
    return 0;
}

// walk TRAILS OUT: every trail in a process of its own, recorded
static int cmdWalk(int, char** argv) {
    makeArena();
    std::ifstream in(argv[2]);
    std::string l, all;
    std::vector<std::vector<std::pair<const Op*, Case>>> t;
    while (std::getline(in, l)) {
        if (l == "@") { t.emplace_back(); continue; }
        const Op* op; Case x;
        if (!t.empty() && parseCase(l, op, x)) t.back().push_back({op, x});
    }
    Sink k;
    for (auto& v : t) {
        k.run([&] {
            for (auto& c : v) {
                std::string e = event(*c.first, c.second, Outcome());
                k.pend(e.substr(0, e.find(",\"s\":")));
                Outcome o = doCall(*c.first, c.second, 0x31);
                k.unpend();
                k.put(event(*c.first, c.second, o));
            }
        }, 10);
        all.append(k.buf, k.sh->len);
    }
    FILE* f = fopen(argv[3], "w"); fwrite(all.data(), 1, all.size(), f); fclose(f);
    printf("executed %zu\n", t.size() * LAST);
    return 0;
}
