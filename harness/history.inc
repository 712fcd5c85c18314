// Histories, repetition, threads and preemption (C19).  Included by driver.cpp.

// ------------------------------------------------------------------ what calls leave behind
// Every environment variable a library asks for is set when NEON_ENV_ALL is: results must not care.
static const char* envOf(const char* n) {
    size_t l = strlen(n);
    for (char** e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return nullptr;
}
extern "C" char* getenv(const char* n) noexcept {
    const char* v = envOf(n);
    static char one[] = "1";
    if (!v && envOf("NEON_ENV_ALL") && strncmp(n, "NEON_VIA", 8) && strncmp(n, "NEON_TIMES", 10)) return one;
    return const_cast<char*>(v);
}
extern "C" char* secure_getenv(const char* n) noexcept { return getenv(n); }
// The time of day, the process and the like change from one look to the next when NEON_ENV_ALL is: results must not care either.
static uint64_t odd(uint64_t real) {
    static int on = -1;
    static std::atomic<uint64_t> n{1};
    if (on < 0) on = envOf("NEON_ENV_ALL") != nullptr;
    if (!on) return real;
    Rng r(n++);
    switch (r.u(4)) { case 0: return real; case 1: return r.u(100); case 2: return real + r.u(1u << 30); default: return r.next() >> (1 + r.u(62)); }
}
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) noexcept { long x = syscall(SYS_clock_gettime, c, t); t->tv_sec = (time_t)odd(t->tv_sec); return (int)x; }
int gettimeofday(struct timeval* t, void*) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* p) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
clock_t clock() noexcept { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * 1000000 + s.tv_nsec / 1000; }
pid_t getpid() noexcept { return (pid_t)odd((uint64_t)syscall(SYS_getpid)) & 0x3fffffff; }
static std::atomic<uint64_t> g_chance{0};                         // every draw changes what the next one gives
void srand(unsigned) noexcept { g_chance++; }
void srandom(unsigned) noexcept { g_chance++; }
int rand() noexcept { g_chance++; static std::atomic<uint64_t> n{1}; return (int)odd((++n * 0x9e3779b97f4a7c15ull) >> 33) & 0x7fffffff; }
long random() noexcept { return rand(); }
int sched_getcpu() noexcept { unsigned c = 0; syscall(SYS_getcpu, &c, nullptr, nullptr); return (int)(odd(c) & 1023); }
}
static long heapUse() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
// What a process is besides its memory: dispositions and mask of signals, locale, limits, floating-point control and the like.
struct ProcessState {
    std::vector<std::pair<const char*, uint64_t>> v;
    void put(const char* what, uint64_t x) { v.push_back({what, x}); }
    ProcessState() {
        v.reserve(256);
        for (int i = 1; i < 65; i++) { struct sigaction s; memset(&s, 0, sizeof s); if (sigaction(i, nullptr, &s)) continue; uint64_t m; memcpy(&m, &s.sa_mask, 8); put("effect-signal-state", (uint64_t)s.sa_handler ^ hashStr(std::to_string(m * 31 + s.sa_flags).c_str())); }
        sigset_t m; memset(&m, 0, sizeof m); pthread_sigmask(SIG_SETMASK, nullptr, &m); uint64_t u; memcpy(&u, &m, 8); put("effect-signal-mask", u);
        const char* l = setlocale(LC_ALL, nullptr); put("effect-locale", l ? hashStr(l) : 0);
        char cwd[4096]; put("effect-directory", getcwd(cwd, sizeof cwd) ? hashStr(cwd) : 0);
        mode_t um = umask(0); umask(um); put("effect-umask", um);
        put("effect-chance", g_chance);
        uint16_t cw = 0; __asm__ volatile("fnstcw %0" : "=m"(cw)); put("effect-x87-control", cw);
        put("effect-rounding-mode", _mm_getcsr() & 0xffc0);
        for (int i = 0; i < 16; i++) { struct rlimit r; if (getrlimit((__rlimit_resource)i, &r) == 0) put("effect-limits", r.rlim_cur * 31 + r.rlim_max); }
        put("effect-priority", (uint64_t)getpriority(PRIO_PROCESS, 0));
        uint64_t e = 0; for (char** q = environ; q && *q; q++) e = e * 31 + hashStr(*q);
        put("effect-environment", e);
        put("effect-time-zone", (uint64_t)timezone * 2 + daylight);
        for (int f = 0; f < 3; f++) put("effect-files", fcntl(f, F_GETFL));
        put("effect-files", (uint64_t)(fwide(stdout, 0) + 4) * 8 + (__flbf(stdout) != 0) * 4 + (__flbf(stderr) != 0));
        int t = 0; if (DIR* d = opendir("/proc/self/task")) { while (readdir(d)) t++; closedir(d); }
        put("effect-threads", t);
    }
    const char* changed(const ProcessState& n) const {
        for (size_t i = 0; i < v.size() && i < n.v.size(); i++) if (v[i] != n.v[i]) return v[i].first;
        return nullptr;
    }
};
static int openFiles() { int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }

// ------------------------------------------------------------------ crash-safe sink
struct Pending { volatile int active; char text[4096]; };
struct Sink {
    Shared* sh; char* buf; Pending* pe;
    Sink() {
        sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        buf = (char*)mmap(0, BUFSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pe = (Pending*)mmap(0, sizeof(Pending), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    void put(const std::string& e) {
        if (sh->len + e.size() > BUFSZ) return;
        memcpy(buf + sh->len, e.data(), e.size());
        sh->len = sh->len + e.size();
    }
    void pend(const std::string& e) { size_t n = std::min(e.size(), sizeof pe->text - 1); memcpy(pe->text, e.data(), n); pe->text[n] = 0; pe->active = 1; }
    void unpend() { pe->active = 0; }
    // Runs f in a child; a crash becomes the outcome of the pending call.
    template <class F> void run(F f, int limit) {
        sh->len = 0; sh->done = 0; pe->active = 0;
        pid_t pid = fork();
        if (pid == 0) { captureOutput(); handlers(); alarm(limit); f(); sh->done = 1; _exit(0); }
        int st = 0; clockid_t cpu = 0; uint64_t last = 0; int still = 0;
        clock_getcpuclockid(pid, &cpu);
        if (limit < 60) waitpid(pid, &st, 0);
        else while (waitpid(pid, &st, WNOHANG) == 0) {                 // twenty seconds without any computation: it waits for ever
            usleep(5000);
            struct timespec t = {0, 0}; syscall(SYS_clock_gettime, cpu, &t);
            uint64_t now = (uint64_t)t.tv_sec * 1000000000u + t.tv_nsec + sh->len;
            if (now != last) { last = now; still = 0; } else if (++still > 4000) kill(pid, SIGALRM), still = 0;
        }
        if (!sh->done) {
            std::string s = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "sig" + std::to_string(WTERMSIG(st))) : "exit" + std::to_string(WEXITSTATUS(st));
            if (pe->active) put(std::string(pe->text) + ",\"s\":\"" + s + "\"}\n");
            else put("{\"e\":\"end\",\"s\":\"" + s + "\"}\n");          // something a call did brought the process down later
        }
    }
    void write(const char* path) { FILE* f = fopen(path, "w"); fwrite(buf, 1, sh->len, f); fclose(f); }
};
// Calls the guided search found (the format of guided.inc); NEON_FOUND names the file.
static std::map<const Op*, std::vector<Case>> g_found;
static bool parseCase(const std::string& l, const Op*& op, Case& x);
static void readFound(const char* path) {
    if (!path) return;
    std::ifstream in(path);
    std::string l;
    while (std::getline(in, l)) {
        const Op* op; Case x;
        if (parseCase(l, op, x) && (!op->imm || (x.k >= op->lo && x.k <= op->hi))) g_found[op].push_back(x);
    }
}
static void readDict(const char* p) { std::ifstream d(p); std::string l; while (d >> l) g_dict.push_back(strtoull(l.c_str(), 0, 0)); }
static std::vector<const Op*> usable() {
    std::vector<const Op*> v;
    for (int i = 0; i < g_nops; i++) if (g_ops[i].fn && g_ops[i].shape) v.push_back(&g_ops[i]);
    return v;
}

// ------------------------------------------------------------------ register programs
static const int NREG = 24;
static const int regSize[NREG + 1] = {0, 8, 8, 8, 8, 8, 8, 16, 16, 16, 16, 16, 16, 24, 32, 32, 32, 48, 48, 64, 64, 1, 2, 4, 24};
static Bytes g_reg[NREG + 1];
static Bytes g_mem;

static std::string evReg(int d) { std::string s = "{\"e\":\"reg\",\"d\":" + std::to_string(d) + ",\"v\":"; jb(s, g_reg[d]); return s + "}\n"; }
static std::string evMem() { std::string s = "{\"e\":\"mem\",\"m\":"; jb(s, g_mem); return s + "}\n"; }

static void execR(Sink& k, const Op& op, int imm, int p, const std::vector<int>& x, int d) {
    std::string pre = std::string("{\"e\":\"rcall\",\"o\":\"") + op.name + "\",\"x\":[";
    for (size_t i = 0; i < x.size(); i++) pre += (i ? "," : "") + std::to_string(x[i]);
    pre += "],\"k\":" + std::to_string(imm) + ",\"p\":" + std::to_string(p) + ",\"d\":" + std::to_string(d);
    k.pend(pre);
    Case c; c.k = imm; c.p = p; c.z = 1;
    if (op.mem) c.m = g_mem;
    size_t j = 0;
    for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'v' || op.args[i].k == 's') c.a[i] = g_reg[x[j++]];
    Outcome o = doCall(op, c, (uint8_t)(imm * 31 + p));
    k.unpend();
    std::string e = pre + ",\"s\":\"" + o.s + "\"";
    bool ret = !o.r.empty() || op.resn == 0;
    if (!strcmp(o.s, "ret")) { e += ",\"r\":"; jb(e, o.r); }
    if (op.mem) { e += ",\"w\":"; jb(e, o.w); g_mem = o.w; }
    k.put(e + "}\n");
    if (!strcmp(o.s, "ret") && ret && d > 0) g_reg[d] = o.r;
}
static int pickReg(int size, Rng& r) {
    int c[NREG], n = 0;
    for (int i = 1; i <= NREG; i++) if (regSize[i] == size) c[n++] = i;
    return n ? c[r.u(n)] : 0;
}
static void fresh(Sink& k, int d, const char* t, Rng& r) {
    int eb = ebOf(t);
    if (regSize[d] % eb) return;
    g_reg[d].assign(regSize[d], 0);
    for (int i = 0; i < regSize[d]; i += eb) put(&g_reg[d][i], eb, laneVal(t, r));
    k.put(evReg(d));
}

// hist SEED STEPS OUT DICT: one random history
static int cmdHist(int argc, char** argv) {
    uint64_t seed = strtoull(argv[2], 0, 10); int steps = atoi(argv[3]);
    readDict(argv[5]);
    makeArena();
    auto ops = usable();
    std::map<std::string, std::vector<const Op*>> fam;
    for (auto o : ops) fam[o->fam].push_back(o);
    Sink k;
    k.run([&] {
        Rng r(seed * 77777 + 5);
        for (int d = 1; d <= NREG; d++) { g_reg[d].resize(regSize[d]); for (auto& b : g_reg[d]) b = (uint8_t)r.next(); k.put(evReg(d)); }
        g_mem.resize(96); for (auto& b : g_mem) b = (uint8_t)r.next();
        k.put(evMem());
        const Op* last[4] = {ops[0], ops[0], ops[0], ops[0]};
        for (int s = 0; s < steps; s++) {
            const Op* o;
            switch (r.u(8)) {
            case 0: o = last[0]; break;
            case 1: o = last[1 + r.u(3)]; break;
            case 2: { auto& f = fam[last[0]->fam]; o = f[r.u(f.size())]; break; }
            default: o = ops[r.u(ops.size())];
            }
            last[3] = last[2]; last[2] = last[1]; last[1] = last[0]; last[0] = o;
            std::vector<int> x;
            for (int i = 0; i < o->nargs; i++) if (o->args[i].k == 'v' || o->args[i].k == 's') {
                int d = pickReg(o->args[i].n, r);
                if (r.u(4) == 0) fresh(k, d, o->args[i].t, r);
                x.push_back(d);
            }
            int p = 0;
            if (o->mem) {
                int fp = std::max(o->rd, o->wr);
                p = (int)r.u((96 - fp) / o->eb + 1) * o->eb;
                if (r.u(6) == 0) { for (auto& b : g_mem) b = (uint8_t)r.next(); k.put(evMem()); }
            }
            int imm = 0;
            if (o->imm) {
                imm = o->lo + (int)r.u(o->hi - o->lo + 1);
                if (r.u(6) == 0) { static const int bad[] = {-1, 1 << 20, 255, -2147483647 - 1, 2147483647}; imm = r.u(2) ? o->hi + 1 + (int)r.u(8) : bad[r.u(5)]; }
            }
            execR(k, *o, imm, p, x, o->resn ? pickReg(o->resn, r) : 0);
        }
    }, 120);
    k.write(argv[4]);
    return 0;
}

// prog FILE OUT: a program generated from the specification; lines "reg d hex", "mem hex", "rcall op k p d x..."
static int cmdProg(int argc, char** argv) {
    makeArena();
    Sink k;
    k.run([&] {
        for (int d = 1; d <= NREG; d++) g_reg[d].clear();
        std::ifstream f(argv[2]);
        std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l);
            std::string w, a;
            is >> w;
            if (w == "reg") { int d; is >> d >> a; g_reg[d] = unhex(a.c_str()); k.put(evReg(d)); }
            else if (w == "mem") { is >> a; g_mem = unhex(a.c_str()); k.put(evMem()); }
            else if (w == "rcall") {
                int imm, p, d, y; is >> a >> imm >> p >> d;
                std::vector<int> x; while (is >> y) x.push_back(y);
                const Op* o = findOp(a);
                if (!o || !o->fn || !o->shape) continue;
                execR(k, *o, imm, p, x, d);
            }
        }
    }, 120);
    k.write(argv[3]);
    return 0;
}

// ------------------------------------------------------------------ prepared calls
struct Prep {
    const Op* op; Case x; uint8_t buf[4][80]; const uint8_t* a[4];
    Bytes ref, refw; bool refOk = true;
    uint8_t* win; Bytes store;
    // shared: the window lies in that buffer, so that different contents meet the same address
    Prep(const Op* o, const Case& c, uint8_t* shared = nullptr) : op(o), x(c) {
        if (!shared) { store.resize(x.m.size() + 16); shared = store.data(); }
        win = shared + (16 - (uintptr_t)shared % 16) % 16;
        for (int i = 0; i < o->nargs; i++) {
            memset(buf[i], 0x5b, sizeof buf[i]);
            switch (o->args[i].k) {
            case 'p': { uint8_t* q = win + x.p; memcpy(buf[i], &q, sizeof q); break; }
            case 'i': memcpy(buf[i], &x.k, 4); break;
            default: memcpy(buf[i], x.a[i].data(), x.a[i].size());
            }
            a[i] = buf[i];
        }
    }
    Prep(const Prep&) = delete;
    // true when the outcome is the reference outcome
    bool call(uint8_t* res, bool& ok, bool guarded) {
        if (op->mem) memcpy(win, x.m.data(), x.m.size());
        if (guarded) ok = rawCall(*op, a, res); else { op->thunk(op->fn, a, res); ok = true; }
        return ok == refOk && (!ok || memcmp(res, ref.data(), op->resn) == 0) && (!op->mem || memcmp(win, refw.data(), refw.size()) == 0);
    }
    std::string ev(const uint8_t* res, bool ok, const char* s = nullptr) {
        Outcome o;
        if (ok) o.r.assign(res, res + op->resn); else o.s = "abort";
        if (s) o.s = s;
        if (op->mem) o.w.assign(win, win + x.m.size());
        return event(*op, x, o);
    }
    std::string open() { std::string e = event(*op, x, Outcome()); return e.substr(0, e.find(",\"s\":")); }
    std::string first() {
        uint8_t res[RESMAX]; memset(res, 0x5A, sizeof res);
        bool ok; ref.assign(op->resn, 0);
        refw = x.m;
        call(res, ok, true);
        refOk = ok; ref.assign(res, res + op->resn); refw.assign(win, win + x.m.size());
        return ev(res, ok);
    }
};
static bool legal(const Op& o, int k) { return !o.imm || (k >= o.lo && k <= o.hi); }
// Cases of every intrinsic, each with neighbours that differ in one operand, one bit or the immediate only.
static std::vector<Prep*> prepare(const std::vector<const Op*>& ops, uint64_t seed, int cases, int bad) {
    std::vector<Prep*> v;
    uint8_t* w = (uint8_t*)aligned_alloc(64, 4096);
    Rng r(seed);
    for (auto o : ops) {
        auto f = g_found.find(o);
        for (int c = 0; c < cases + 1; c++) {
            if (c == cases && f == g_found.end()) break;
            Case x = c < cases ? makeCase(*o, seed, 100000 + c, 0) : f->second[r.u(f->second.size())], y = makeCase(*o, seed, 150000 + c, 0);
            v.push_back(new Prep(o, x, w));
            std::vector<int> d;
            for (int i = 0; i < o->nargs; i++) if (!x.a[i].empty()) d.push_back(i);
            for (int i : d) { Case z = x; z.a[i] = y.a[i]; if (d.size() > 1) v.push_back(new Prep(o, z, w)); }
            if (!d.empty()) { Case z = x; auto& b = z.a[d[r.u(d.size())]]; b[r.u(b.size())] ^= 1 << r.u(8); v.push_back(new Prep(o, z, w)); }
            if (o->imm && y.k != x.k) { Case z = x; z.k = y.k; v.push_back(new Prep(o, z, w)); }
            if (o->rd) { Case z = x; for (auto& b : z.m) b = (uint8_t)r.next(); v.push_back(new Prep(o, z, w)); }
        }
        if (o->imm) for (int c = 0; c < bad; c++) { Case x = makeCase(*o, seed, 200000 + c, 1); if (!legal(*o, x.k)) v.push_back(new Prep(o, x, w)); }
    }
    return v;
}

// repeat SEED ROUNDS BURST PART PARTS OUT DICT: every distinct outcome of every repeated call
static int cmdRepeat(int argc, char** argv) {
    uint64_t seed = strtoull(argv[2], 0, 10);
    int rounds = atoi(argv[3]), burst = atoi(argv[4]), part = atoi(argv[5]), parts = atoi(argv[6]);
    readDict(argv[8]);
    makeArena();
    auto ops = usable();
    uint64_t total = 0;
    volatile uint64_t* cnt = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Sink k;
    k.run([&] {
        readFound(envOf("NEON_FOUND"));
        auto v = prepare(ops, seed * 8 + part, 2, 1);
        uint8_t res[RESMAX];
        std::unordered_set<std::string> seen;
        for (auto p : v) { k.pend(p->open()); std::string e = p->first(); k.unpend(); if (seen.insert(e).second) k.put(e); }
        Rng r(seed * 31 + part);
        auto one = [&](Prep* p) {
            k.pe->active = 0;
            long l0 = 0; bool ok;
            bool same = p->call(res, ok, !legal(*p->op, p->x.k));
            (*cnt)++;
            if (!same) { std::string e = p->ev(res, ok); if (seen.size() < 20000 && seen.insert(e).second) k.put(e); }
            (void)l0;
        };
        // what the process is before and after each call
        auto watched = [&](Prep* p) {
            bool bad = !legal(*p->op, p->x.k);
            ProcessState s0; one(p); ProcessState s1;
            if (const char* e = s0.changed(s1)) { bool ok; p->call(res, ok, bad); k.put(p->ev(res, ok, e)); }
            // the same where the caller chose another rounding mode (results are not judged then, the mode must stay)
            // (the handler of SIGABRT starts with the default mode: legal calls only)
            if (bad) return;
            fesetround(FE_UPWARD);
            ProcessState t0; bool ok; p->call(res, ok, bad); ProcessState t1;
            fesetenv(FE_DFL_ENV);
            if (const char* e = t0.changed(t1)) { p->call(res, ok, bad); k.put(p->ev(res, ok, e)); }
        };
        for (auto p : v) watched(p);
        bool all = false;
        ProcessState begun;
        for (int n = 0; n < rounds; n++) {
            if (n % 64 == 63 || n == rounds - 1) { ProcessState now; if (begun.changed(now)) all = true; }
            if (all) { all = false; for (auto p : v) watched(p); begun = ProcessState(); }
            for (size_t i = v.size() - 1; i > 0; i--) std::swap(v[i], v[r.u(i + 1)]);
            long l0 = outLen();
            for (auto p : v) { if (!legal(*p->op, p->x.k)) { if (r.u(16)) continue; one(p); l0 = outLen(); continue; }
                one(p);
                if ((n & 15) == 0) { long l = outLen(); if (l != l0) { l0 = l; std::string e = p->ev(res, true, "effect-output"); if (seen.insert(e).second) k.put(e); } } }
        }
        for (size_t i = 0; i < ops.size(); i++) if ((int)(i % parts) == part) {
            Prep p(ops[i], makeCase(*ops[i], seed, 300000, 0));
            std::string e = p.first(); if (seen.insert(e).second) k.put(e);
            one(&p);
            long h0 = heapUse(); int f0 = openFiles(); ProcessState s0;
            for (int n = 0; n < burst; n++) one(&p);
            const char* left = heapUse() - h0 > burst ? "effect-memory-kept" : openFiles() > f0 + 8 ? "effect-files-kept" : nullptr;
            ProcessState s1;
            if (const char* e = s0.changed(s1)) left = e;
            if (left) { uint8_t res[RESMAX]; memset(res, 0, sizeof res); k.put(p.ev(res, true, left)); }
        }
        // repeated rejection, then legal calls
        for (size_t i = 0; i < ops.size(); i++) if ((int)(i % parts) == part && ops[i]->imm) {
            Case bad = makeCase(*ops[i], seed, 400000, 1);
            if (legal(*ops[i], bad.k)) continue;
            Prep b(ops[i], bad), g(ops[i], makeCase(*ops[i], seed, 400001, 0));
            std::string e = g.first(); if (seen.insert(e).second) k.put(e);
            e = b.first(); if (seen.insert(e).second) k.put(e);
            ProcessState s0;
            for (int n = 0; n < 300; n++) { one(&b); one(&g); }
            ProcessState s1;
            if (const char* e = s0.changed(s1)) { bool ok; b.call(res, ok, true); k.put(b.ev(res, ok, e)); }
        }
    }, 300);
    k.write(argv[7]);
    total = *cnt;
    printf("executed %llu\n", (unsigned long long)total);
    return 0;
}

// threads SEED ITER NTHREADS OUT DICT: the same intrinsics hammered by several threads at once
struct Barrier {
    std::mutex m; std::condition_variable cv; int n, c = 0, gen = 0;
    explicit Barrier(int k) : n(k) {}
    void wait() { std::unique_lock<std::mutex> l(m); int g = gen; if (++c == n) { c = 0; gen++; cv.notify_all(); } else cv.wait(l, [&] { return g != gen; }); }
};
static int cmdThreads(int argc, char** argv) {
    uint64_t seed = strtoull(argv[2], 0, 10);
    int iter = atoi(argv[3]), T = atoi(argv[4]);
    readDict(argv[6]);
    makeArena();
    auto ops = usable();
    volatile uint64_t* cnt = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Sink k;
    k.run([&] {
        const int C = 5;
        readFound(envOf("NEON_FOUND"));
        // own operands for every thread
        std::vector<std::vector<Prep*>> v(T);
        std::vector<std::string> dev[64];
        std::unordered_set<std::string> seen;
        for (int t = 0; t < T; t++) for (auto o : ops) for (int c = 0; c < C; c++) {
            int mode = o->imm && c == 0 && t == 0 ? 1 : 0;
            auto f = g_found.find(o);
            auto p = new Prep(o, c > 2 && f != g_found.end() ? f->second[(t * 2 + c) * 7919 % f->second.size()] : makeCase(*o, seed, 500000 + t * C + c, mode));
            k.pend(p->open()); std::string e = p->first(); k.unpend();
            if (seen.insert(e).second) { e.insert(e.size() - 2, ",\"t\":" + std::to_string(t)); k.put(e); }
            v[t].push_back(p);
        }
        Barrier b(T);
        std::atomic<uint64_t> calls{0};
        auto body = [&](int t) {
            uint8_t res[RESMAX];
            std::unordered_set<std::string> mine;
            Rng r(seed + t * 991);
            uint64_t n = 0;
            auto one = [&](Prep* p) {
                bool ok;
                if (!p->call(res, ok, !legal(*p->op, p->x.k))) {
                    if (mine.size() < 500) { std::string e = p->ev(res, ok); if (mine.insert(e).second) { e.insert(e.size() - 2, ",\"t\":" + std::to_string(t)); dev[t].push_back(e); } }
                }
                n++;
            };
            for (size_t i = 0; i < ops.size(); i++) {
                b.wait();
                for (int q = 0; q < iter; q++) { Prep* p = v[t][i * C + q % C]; if (!legal(*p->op, p->x.k) && q % 64 > C) continue; one(p); }
            }
            b.wait();
            for (int q = 0; q < iter * 20; q++) { Prep* p = v[t][r.u(v[t].size())]; if (legal(*p->op, p->x.k) || r.u(64) == 0) one(p); }
            calls += n;
        };
        std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back(body, t);
        for (auto& x : th) x.join();
        for (int t = 0; t < T; t++) for (auto& e : dev[t]) k.put(e);
        *cnt = calls;
    }, 300);
    k.write(argv[5]);
    printf("executed %llu\n", (unsigned long long)*cnt);
    return 0;
}

// crowd SEED THREADS WAVES OUT DICT: more threads than anybody would keep a table for, new ones in every wave
static int cmdCrowd(int argc, char** argv) {
    uint64_t seed = strtoull(argv[2], 0, 10);
    int T = atoi(argv[3]), waves = atoi(argv[4]);
    readDict(argv[6]);
    makeArena();
    auto ops = usable();
    volatile uint64_t* cnt = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Sink k;
    k.run([&] {
        std::vector<std::vector<Prep*>> v(T);
        for (int t = 0; t < T; t++) for (auto o : ops) {
            auto p = new Prep(o, makeCase(*o, seed, 900000 + t, 0));
            k.pend(p->open()); std::string e = p->first(); k.unpend();
            if (t == 0) k.put(e);
            v[t].push_back(p);
        }
        std::mutex mu;
        std::unordered_set<std::string> dev;
        std::atomic<uint64_t> calls{0};
        for (int w = 0; w < waves; w++) {
            Barrier b(T);
            auto body = [&](int t) {
                uint8_t res[RESMAX];
                for (size_t i = 0; i < ops.size(); i++) {
                    if (i % 16 == 0) b.wait();
                    for (int q = 0; q < 200; q++) {
                        bool ok;
                        Prep* p = v[t][q & 1 ? i & ~(size_t)15 : i];
                        if (!p->call(res, ok, false)) { std::string e = p->ev(res, ok); std::lock_guard<std::mutex> l(mu); if (dev.size() < 2000) dev.insert(e); }
                    }
                    calls += 200;
                }
            };
            std::vector<std::thread> th;
            for (int t = 0; t < T; t++) th.emplace_back(body, (t * 7 + w) % T);
            for (auto& x : th) x.join();
        }
        for (auto& e : dev) k.put(e);
        *cnt = calls;
    }, 300);
    k.write(argv[5]);
    printf("executed %llu\n", (unsigned long long)*cnt);
    return 0;
}

// Calls made before the other objects of the program are initialised, and again when they have been destroyed:
// NEON_LIFE names the recording.
struct Life { const Op* op; Case x; };
static std::vector<Life>* g_life;                                 // never destroyed
static void lifeCalls(const char* path) {
    int f = ::open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
    std::string all;
    for (auto& l : *g_life) {
        Outcome o = doCall(*l.op, l.x, 0xA5);
        all += event(*l.op, l.x, o);
    }
    if (::write(f, all.data(), all.size()) != (ssize_t)all.size()) _exit(9);
    close(f);
}
__attribute__((constructor(102))) static void earlyCalls() {
    const char* path = envOf("NEON_LIFE");
    if (!path) return;
    makeArena(); handlers();
    g_life = new std::vector<Life>;
    uint64_t seed = strtoull(envOf("VERIF_SEED") ? envOf("VERIF_SEED") : "1", 0, 10);
    for (int i = 0; i < g_nops; i++) if (g_ops[i].fn && g_ops[i].shape)
        for (int c = 0; c < 6; c++) { Life l; l.op = &g_ops[i]; l.x = makeCase(g_ops[i], seed, 950000 + c, c == 5 && g_ops[i].imm ? 1 : 0); g_life->push_back(l); }
    lifeCalls(path);
}
__attribute__((destructor(102))) static void lateCalls() { if (g_life) lifeCalls(envOf("NEON_LIFE")); }

// ------------------------------------------------------------------ preemption
// The outer call is single-stepped; before every instruction the trap handler, a second flow of control, makes a
// complete call of its own.
static Prep* volatile g_nest[4];
static volatile int g_nNest, g_traps;
static std::vector<std::string>* g_nestDev;
static volatile int g_nestSeen[4];
static void onTrap(int, siginfo_t*, void*) {
    uint8_t res[RESMAX];
    int w = g_traps % (g_nNest + 1) % g_nNest;                    // the first nested call twice as often
    g_traps = g_traps + 1;
    Prep* p = g_nest[w];
    bool ok;
    bool same = p->call(res, ok, false);
    if (!same && g_nestSeen[w] < 2) { g_nestSeen[w] = g_nestSeen[w] + 1; g_nestDev->push_back(p->ev(res, ok)); }
}
static inline __attribute__((always_inline)) void trapOn() { asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n orq $0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
static inline __attribute__((always_inline)) void trapOff() { asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n andq $~0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }

// preempt SEED CASES PART PARTS OUT DICT
static int cmdPreempt(int argc, char** argv) {
    uint64_t seed = strtoull(argv[2], 0, 10);
    int cases = atoi(argv[3]), part = atoi(argv[4]), parts = atoi(argv[5]);
    readDict(argv[7]);
    makeArena();
    auto ops = usable();
    volatile uint64_t* cnt = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Sink k;
    k.run([&] {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
        std::vector<std::string> dev; g_nestDev = &dev;
        readFound(envOf("NEON_FOUND"));
        Rng r(seed * 17 + part);
        for (size_t i = 0; i < ops.size(); i++) if ((int)(i % parts) == part) for (int c = 0; c < cases + (int)std::min<size_t>(g_found[ops[i]].size(), 40); c++) {
            const Op* o = ops[i];
            auto& found = g_found[o];
            bool of = c >= cases;                                  // found calls: recorded only when something is amiss
            Prep outer(o, of ? found[found.size() - 1 - (c - cases)] : makeCase(*o, seed, 600000 + c, 0));
            const Op* o2 = ops[r.u(ops.size())];
            // a neighbour: the next usable intrinsic of the same family, or any
            for (int tries = 0; tries < 40 && strcmp(o2->fam, o->fam); tries++) o2 = ops[r.u(ops.size())];
            Prep n1(o, of ? found[r.u(found.size())] : makeCase(*o, seed, 700000 + c, 0)), n2(o2, makeCase(*o2, seed, 800000 + c, 0));
            alarm(30);                                             // a call that waits for ever, busily or not
            k.pend(outer.open()); std::string e0 = outer.first(); if (!of) k.put(e0);
            std::string e1 = n1.first(), e2 = n2.first();
            g_nest[0] = &n1; g_nest[1] = &n2; g_nNest = 2; g_traps = 0; g_nestSeen[0] = g_nestSeen[1] = 0;
            dev.clear();
            uint8_t res[RESMAX]; memset(res, 0x5A, sizeof res);
            if (o->mem) memcpy(outer.win, outer.x.m.data(), outer.x.m.size());
            auto th = o->thunk; auto fn = o->fn; const uint8_t* const* a = outer.a;
            trapOn();
            th(fn, a, res);
            trapOff();
            k.unpend();
            *cnt += g_traps;
            auto asT1 = [](std::string e) { e.insert(e.size() - 2, ",\"t\":1"); return e; };
            if (of && dev.empty() && outer.ev(res, true) == e0) continue;
            // inv = everything up to the outcome; the arena is set first
            std::string open = outer.open();
            if (o->mem) { std::string m = "{\"e\":\"mem\",\"m\":"; jb(m, outer.x.m); k.put(m + "}\n"); }
            size_t wpos = open.find(",\"m\":");
            std::string inv = wpos == std::string::npos ? open : open.substr(0, wpos);
            inv.replace(inv.find("\"e\":\"call\""), 10, "\"e\":\"inv\"");
            k.put(inv + "}\n");
            if (c == 0) { k.put(asT1(e1)); k.put(asT1(e2)); }
            for (auto& e : dev) k.put(asT1(e));
            std::string ret = "{\"e\":\"ret\",\"s\":\"ret\",\"r\":"; jb(ret, res, o->resn);
            if (o->mem) { ret += ",\"w\":"; jb(ret, outer.win, outer.x.m.size()); }
            k.put(ret + "}\n");
        }
    }, 300);
    k.write(argv[6]);
    printf("executed %llu\n", (unsigned long long)*cnt);
    return 0;
}

// ------------------------------------------------------------------ first calls
// cold SEED PART PARTS OUT DICT: every intrinsic in a process of its own, where the first call ever made to it is made in
// a new thread and interrupted before every instruction by a complete call of the trap handler; then, in another process,
// several new threads make it at once.
struct ColdSeen { uint8_t res[RESMAX], w[512]; };
static ColdSeen g_cold[2][4];
static volatile int g_nCold[2];
static Prep* volatile g_coldNest[2];
static void onColdTrap(int, siginfo_t*, void*) {
    uint8_t res[RESMAX];
    int w = g_traps % 3 == 2;
    g_traps = g_traps + 1;
    Prep* p = g_coldNest[w];
    bool ok;
    p->call(res, ok, false);
    int n = g_nCold[w];
    for (int i = 0; i < n; i++) if (!memcmp(g_cold[w][i].res, res, p->op->resn) && (!p->op->mem || !memcmp(g_cold[w][i].w, p->win, p->x.m.size()))) return;
    if (n == 4) return;
    memcpy(g_cold[w][n].res, res, sizeof res);
    if (p->op->mem) memcpy(g_cold[w][n].w, p->win, p->x.m.size());
    g_nCold[w] = n + 1;
}
// One nested call, at the given trap: a call complete in itself may also find the first one anywhere inside its work.
static volatile int g_coldWhen; static uint8_t g_coldRes[RESMAX]; static volatile bool g_coldDone;
static void onColdOnce(int, siginfo_t*, void*) {
    if (g_traps++ != g_coldWhen) return;
    bool ok;
    g_coldNest[0]->call(g_coldRes, ok, false);
    g_coldDone = true;
}
static int cmdCold(int argc, char** argv) {
    uint64_t seed = strtoull(argv[2], 0, 10);
    int part = atoi(argv[3]), parts = atoi(argv[4]);
    readDict(argv[6]);
    makeArena();
    auto ops = usable();
    volatile uint64_t* cnt = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string all;
    Sink k;
    Rng r(seed * 23 + part);
    auto asT1 = [](std::string e) { e.insert(e.size() - 2, ",\"t\":1"); return e; };
    for (size_t i = 0; i < ops.size(); i++) if ((int)(i % parts) == part) {
        const Op* o = ops[i];
        for (int c = 0; c < 3; c++) {
            const Op* o2 = ops[r.u(ops.size())];
            for (int tries = 0; tries < 40 && c < 2 && strcmp(o2->fam, o->fam); tries++) o2 = ops[r.u(ops.size())];
            k.run([&] {
                struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onColdTrap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
                Prep outer(o, makeCase(*o, seed, 610000 + c, 0)), n1(o, makeCase(*o, seed, 710000 + c, 0)), n2(o2, makeCase(*o2, seed, 810000 + c, 0));
                for (Prep* p : {&outer, &n1, &n2}) p->ref.assign(p->op->resn, 0), p->refw = p->x.m;
                g_nCold[0] = g_nCold[1] = 0; g_traps = 0;
                g_coldNest[0] = &n1; g_coldNest[1] = &n2;
                uint8_t res[RESMAX]; memset(res, 0x5A, sizeof res);
                if (o->mem) memcpy(outer.win, outer.x.m.data(), outer.x.m.size());
                k.pend(outer.open());
                std::thread([&] {
                    auto th = o->thunk; auto fn = o->fn; const uint8_t* const* a = outer.a;
                    trapOn();
                    th(fn, a, res);
                    trapOff();
                }).join();
                k.unpend();
                *cnt += g_traps + 1;
                k.put(outer.ev(res, true));
                for (int w = 0; w < 2; w++) for (int j = 0; j < g_nCold[w]; j++) {
                    Prep* p = g_coldNest[w];
                    if (p->op->mem) memcpy(p->win, g_cold[w][j].w, p->x.m.size());
                    k.put(asT1(p->ev(g_cold[w][j].res, true)));
                }
            }, 10);
            all.append(k.buf, k.sh->len);
        }
        // again, with a single nested call: one process for every instruction of the first call (every few, when it is long)
        int n = 1, step = 1;
        std::unordered_set<std::string> seen;
        for (int when = -1; when < n; when += when < 0 ? 1 : step) {
            const Op* o2 = o;
            if (when % 4 == 3) for (int tries = 0; tries < 40 && (o2 == o || strcmp(o2->fam, o->fam)); tries++) o2 = ops[r.u(ops.size())];
            k.run([&] {
                struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onColdOnce; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
                Prep outer(o, makeCase(*o, seed, 630000, 0)), n1(o2, makeCase(*o2, seed, 730000, 0));
                for (Prep* p : {&outer, &n1}) p->ref.assign(p->op->resn, 0), p->refw = p->x.m;
                g_traps = 0; g_coldNest[0] = &n1; g_coldWhen = when; g_coldDone = false;
                uint8_t res[RESMAX]; memset(res, 0x5A, sizeof res);
                if (o->mem) memcpy(outer.win, outer.x.m.data(), outer.x.m.size());
                k.pend(outer.open());
                auto th = o->thunk; auto fn = o->fn; const uint8_t* const* a = outer.a;
                trapOn();
                th(fn, a, res);
                trapOff();
                k.unpend();
                if (when < 0) cnt[1] = g_traps;
                ++*cnt;
                k.put(outer.ev(res, true));
                if (g_coldDone) { ++*cnt; k.put(asT1(n1.ev(g_coldRes, true))); }
            }, 10);
            std::string got(k.buf, k.sh->len);
            if (seen.insert(got).second) all += got;
            if (when < 0) { n = (int)cnt[1]; step = n / 120 + 1; }
        }
        for (int again = 0; again < 6; again++) {
            k.run([&] {
                const int T = 4;
                std::vector<Prep*> p(T); std::vector<std::array<uint8_t, RESMAX>> res(T);
                for (int t = 0; t < T; t++) { p[t] = new Prep(o, makeCase(*o, seed, 620000 + t + 10 * again, 0)); p[t]->ref.assign(o->resn, 0); p[t]->refw = p[t]->x.m; }
                k.pend(p[0]->open());
                std::atomic<int> ready{0};
                std::vector<std::thread> th;
                for (int t = 0; t < T; t++) th.emplace_back([&, t] {
                    bool ok;
                    for (ready++; ready < T;) {}
                    p[t]->call(res[t].data(), ok, false);
                });
                for (auto& x : th) x.join();
                k.unpend();
                *cnt += T;
                for (int t = 0; t < T; t++) k.put(p[t]->ev(res[t].data(), true));
            }, 10);
            all.append(k.buf, k.sh->len);
        }
    }
    FILE* f = fopen(argv[5], "w"); fwrite(all.data(), 1, all.size(), f); fclose(f);
    printf("executed %llu\n", (unsigned long long)*cnt);
    return 0;
}
