// Inputs found by coverage guidance.  Included by driver.cpp.
//   guided PLAN OUT SEED DICT     search for calls that take new edges or bring comparisons closer; writes the calls
//   recall FILE OUT               makes the calls of such a file and records the events
extern "C" {
void cov_reset() __attribute__((weak));
void cov_begin() __attribute__((weak));
unsigned cov_end() __attribute__((weak));
void cov_feature(uint64_t) __attribute__((weak));
unsigned cov_fresh() __attribute__((weak));
unsigned cov_cmps() __attribute__((weak));
void cov_cmp(unsigned, uint64_t*, uint64_t*, int*) __attribute__((weak));
}

static std::string caseLine(const Op& op, const Case& x) {
    static const char* H = "0123456789abcdef";
    auto hex = [&](const Bytes& b) { std::string s; for (auto y : b) { s += H[y >> 4]; s += H[y & 15]; } return s.empty() ? std::string("-") : s; };
    std::string s = std::string(op.name) + " " + std::to_string(x.k) + " " + std::to_string(x.p) + " " + std::to_string(x.z) + " " + hex(x.m);
    for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'v' || op.args[i].k == 's') s += " " + hex(x.a[i]);
    return s + "\n";
}

static bool parseCase(const std::string& l, const Op*& op, Case& x) {
    std::istringstream is(l);
    std::string o, m, z, a;
    is >> o >> x.k >> x.p >> z >> m;
    op = findOp(o);
    if (!op || !op->fn || !op->shape) return false;
    x.z = atoi(z.c_str()); x.m = unhex(m.c_str());
    for (int i = 0; i < op->nargs; i++) if (op->args[i].k == 'v' || op->args[i].k == 's') { is >> a; x.a[i] = unhex(a.c_str()); x.a[i].resize(op->args[i].n); }
    return true;
}

// A place in the operands: lane of a vector, scalar or memory element.
struct Place { Bytes* b; int at, eb; const char* t; };
static std::vector<Place> places(const Op& op, Case& x) {
    std::vector<Place> v;
    for (int i = 0; i < op.nargs; i++) if (op.args[i].k == 'v' || op.args[i].k == 's')
        for (int l = 0, eb = ebOf(op.args[i].t); l + eb <= op.args[i].n; l += eb) v.push_back({&x.a[i], l, eb, op.args[i].t});
    if (op.mem) for (int l = 0; l + op.eb <= std::max(op.rd, op.wr); l += op.eb) v.push_back({&x.m, x.p + l, op.eb, op.t});
    return v;
}

static void mutate(const Op& op, Case& x, const std::vector<std::array<uint64_t, 3>>& cmps, bool anyImm, Rng& r) {
    auto pl = places(op, x);
    int n = 1 + (r.u(3) == 0) * r.u(4);
    for (int k = 0; k < n; k++) {
        if (op.imm && (pl.empty() || r.u(12) == 0)) {
            if (anyImm && r.u(3) == 0) { static const int ks[] = {0, -1, 255, 256, 128, -128, 64, 32, 65536, 2147483647, -2147483647 - 1}; x.k = r.u(2) ? ks[r.u(11)] : x.k ^ (1 << r.u(32)); }
            else x.k = op.lo + (int)r.u(op.hi - op.lo + 1);
            continue;
        }
        if (pl.empty()) return;
        Place p = pl[r.u(pl.size())];
        uint64_t v = get(p.b->data() + p.at, p.eb);
        switch (r.u(11)) {
        case 0: v = laneVal(p.t, r); break;
        case 1: v ^= 1ull << r.u(8 * p.eb); break;
        case 2: v += (uint64_t)r.u(9) - 4; break;
        case 3: { Place q = pl[r.u(pl.size())]; v = get(q.b->data() + q.at, q.eb); break; }             // copy another lane
        case 4: { Place q = pl[r.u(pl.size())]; v = related(p.t, get(q.b->data() + q.at, q.eb), r.u(12), r); break; }
        case 5: { auto& g = grid(p.t); v = g[r.u(g.size())]; break; }
        case 6: if (!g_dict.empty()) { v = g_dict[r.u(g_dict.size())]; break; } /* fall through */
        case 7: { Bytes t = *p.b; *p.b = t; for (size_t y = 0; y < t.size(); y++) (*p.b)[y] = t[(y + p.eb) % t.size()]; continue; }      // rotate
        default:
            if (cmps.empty()) { v = laneVal(p.t, r); break; }
            {   // something was compared with something: make an operand that looks like the one the other
                bool done = false;
                for (int tries = 0; tries < 6 && !done; tries++) {
                    auto& c = cmps[r.u(cmps.size())];
                    uint64_t mask = p.eb == 8 ? ~0ull : (1ull << (8 * p.eb)) - 1;
                    int side = r.u(2);
                    for (auto& q : pl) {
                        uint64_t w = get(q.b->data() + q.at, q.eb), m = q.eb == 8 ? ~0ull : (1ull << (8 * q.eb)) - 1;
                        if (w == (c[side] & m)) { put(q.b->data() + q.at, q.eb, c[1 - side] + (r.u(4) == 0 ? (uint64_t)r.u(3) - 1 : 0)); done = true; if (r.u(2)) break; }
                    }
                    if (!done && r.u(3) == 0) { put(p.b->data() + p.at, p.eb, (c[side] + (uint64_t)r.u(3) - 1) & mask); done = true; }
                }
                continue;
            }
        }
        put(p.b->data() + p.at, p.eb, v);
    }
}

static void resultFeatures(const Op& op, const Outcome& o) {
    cov_feature(0x100 + hashStr(o.s) % 97);
    if (op.resn == 0 || o.r.empty()) return;
    int eb = ebOf(op.rest), bits = 8 * eb;
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1, h = 1ull << (bits - 1);
    for (int l = 0; l * eb < op.resn; l++) {
        uint64_t v = get(&o.r[l * eb], eb);
        uint64_t c = v == 0 ? 0 : v == mask ? 1 : v == h ? 2 : v == h - 1 ? 3 : v == 1 ? 4 : v & h ? 5 : 6;
        cov_feature(0x1000 + l * 16 + c);
        if (op.imm) cov_feature(0x100000 + op.nargs + ((uint64_t)l * 16 + c) * 131);
    }
}

static void guidedOp(const Op& op, uint64_t seed, uint32_t n, int immMode, Shared* sh, char* buf) {
    Rng r(seed * 7919 + hashStr(op.name) + 17);
    cov_reset();
    std::vector<Case> corpus;
    std::vector<std::array<uint64_t, 3>> cmps;
    const size_t CAP = 800;
    for (uint32_t i = 0; i < n; i++) {
        Case x;
        if (corpus.empty() || i < 60 || r.u(40) == 0) x = makeCase(op, seed + 99991, i < 60 ? i + 5000 : i, immMode);
        else {
            size_t j = r.u(3) ? corpus.size() - 1 - r.u(std::min<size_t>(corpus.size(), 24)) : r.u(corpus.size());
            x = corpus[j];
            mutate(op, x, cmps, immMode != 0, r);
        }
        std::string l = caseLine(op, x);
        memcpy(buf + sh->len, l.data(), l.size());                // the call that brings the process down is kept
        sh->cur = (uint32_t)l.size();
        cov_begin();
        Outcome o = doCall(op, x, 0x5c);
        cov_end();
        resultFeatures(op, o);
        unsigned m = cov_cmps();
        bool fresh = cov_fresh() != 0;
        if (fresh || r.u(16) == 0) {
            for (unsigned k = 0; k < m; k++) {
                uint64_t a, b; int s; cov_cmp(k, &a, &b, &s);
                if ((a < 33 && b < 33 && a != 0 && b != 0)) continue;      // loop counters
                std::array<uint64_t, 3> c = {a, b, (uint64_t)s};
                if (cmps.size() < 256) cmps.push_back(c); else cmps[r.u(256)] = c;
            }
        }
        if (fresh && corpus.size() < CAP) { corpus.push_back(x); sh->len = sh->len + l.size(); }
        sh->cur = 0;
    }
    sh->done = 1;
}

static int cmdGuided(int argc, char** argv) {
    if (!cov_reset) return 3;
    std::ifstream plan(argv[2]);
    FILE* out = fopen(argv[3], "w");
    uint64_t seed = strtoull(argv[4], 0, 10);
    { std::ifstream d(argv[5]); std::string l; while (d >> l) g_dict.push_back(strtoull(l.c_str(), 0, 0)); }
    Shared* sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char* buf = (char*)mmap(0, 64 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    makeArena();
    std::string name; uint32_t n; int immMode; uint64_t executed = 0;
    while (plan >> name >> n >> immMode) {
        const Op* op = findOp(name);
        if (!op || !op->fn || !op->shape) continue;
        sh->len = 0;
        for (int attempt = 0; attempt < 4; attempt++) {
            sh->done = 0; sh->cur = 0;
            pid_t pid = fork();
            if (pid == 0) { quiet(); handlers(); alarm(20); guidedOp(*op, seed + 1000 * attempt, n, immMode, sh, buf); _exit(0); }
            int st; waitpid(pid, &st, 0);
            if (sh->done) break;
            sh->len = sh->len + sh->cur;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) break;
        }
        executed += n;
        fwrite(buf, 1, sh->len, out);
    }
    fclose(out);
    printf("executed %llu\n", (unsigned long long)executed);
    return 0;
}

static int cmdRecall(int argc, char** argv) {
    std::ifstream in(argv[2]);
    FILE* out = fopen(argv[3], "w");
    Shared* sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char* buf = (char*)mmap(0, BUFSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    makeArena();
    std::vector<std::pair<const Op*, Case>> cs;
    std::string l;
    while (std::getline(in, l)) {
        const Op* op; Case x;
        if (parseCase(l, op, x)) cs.push_back({op, x});
    }
    size_t from = 0, executed = 0;
    std::map<const Op*, int> crashes;
    while (from < cs.size()) {
        sh->len = 0; sh->done = 0; sh->cur = (uint32_t)from;
        pid_t pid = fork();
        if (pid == 0) {
            quiet(); handlers(); watchdog(&sh->cur);
            for (size_t i = from; i < cs.size(); i++) {
                if (crashes[cs[i].first] >= 10) continue;
                sh->cur = (uint32_t)i;
                Outcome o = doCall(*cs[i].first, cs[i].second, (uint8_t)(i * 37));
                std::string e = event(*cs[i].first, cs[i].second, o);
                if (sh->len + e.size() > BUFSZ) break;
                memcpy(buf + sh->len, e.data(), e.size()); sh->len = sh->len + e.size();
            }
            sh->done = 1;
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        if (!sh->done) {
            auto& c = cs[sh->cur];
            Outcome o;
            std::string s = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "sig" + std::to_string(WTERMSIG(st))) : "exit" + std::to_string(WEXITSTATUS(st));
            o.s = s.c_str();
            std::string e = event(*c.first, c.second, o);
            memcpy(buf + sh->len, e.data(), e.size()); sh->len = sh->len + e.size();
            crashes[c.first] += s == "hang" ? 5 : 1;
            executed += sh->cur + 1 - from;
            from = sh->cur + 1;
        } else { executed += cs.size() - from; from = cs.size(); }
        fwrite(buf, 1, sh->len, out);
        madvise(buf, sh->len, MADV_REMOVE);
    }
    fclose(out);
    printf("executed %llu\n", (unsigned long long)executed);
    return 0;
}
