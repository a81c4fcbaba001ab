// Drives one infix store of the real code directly: load, insert, delete,
// resize, shrink and lookups, against an ordered list of infixes.
#include "diva.hpp"
#include "common.hpp"
#include "model.hpp"
#include <map>
#include <memory>
Shared *g_sh;
using model::List;

struct Op { char t; uint64_t v = 0; };      // i insert, d delete, u resize up, w resize down, h shrink, l load
struct SHist {
    int I = 6, lf = 0, io = 0, T = 1024, grade = 55; List load; std::vector<Op> ops; uint32_t seed = 1; int every = 1, lay = 1, pts = 30;
};
constexpr float LFS[3] = {0.95f, 0.97f, 0.9f};
enum { LIST = 1, LOOK = 2, LIFEK = 4 };

static uint64_t pick(Rng &R, int fam, int I, int T, uint64_t &centre) {
    uint64_t c;
    switch (fam) {
        case 1: c = T - 1 - std::min<uint64_t>(R() % (1 + R() % 60), T - 1); break;             // right end
        case 2: c = R() % (1 + R() % 60); break;                                                // left end
        case 3: c = std::min<uint64_t>(T - 1, T / 2 - 20 + R() % 40); if (R() % 3 == 0) c = std::min<uint64_t>(T - 1, 480 + R() % 64); break;    // around the half-way counters
        case 4: if (R() % 40 == 0) centre = R() % T; c = std::min<uint64_t>(T - 1, centre + R() % 3); break;         // few cells
        default: c = R() % T;
    }
    uint64_t e = (R() & ((1ull << I) - 1)) | 1;
    if (fam == 4 || R() % 4 == 0) e = ((R() % 8) << (I - 3)) | 1;
    if (fam == 6 || R() % 10 == 0) { int s = R() % I; e = e >> s << s; e |= 1ull << s; }       // shortened
    return c << I | e;
}
static SHist make(int fam, uint64_t seed) {
    Rng R(seed * 7919 + fam * 104729 + 3); SHist h; h.seed = R() % 1000000;
    h.I = 3 + R() % 8; if (R() % 4 == 0) h.I = 3 + R() % 18;
    h.lf = R() % 4 == 0 ? 1 + R() % 2 : 0; h.io = R() % 2; h.T = 512 + R() % 513; if (R() % 5 == 0) h.T = R() % 2 ? 512 : 1024;
    model::Tab tab = model::Tab::make(LFS[h.lf]); uint64_t centre = R() % h.T;
    size_t n0 = R() % 4 == 0 ? 0 : R() % 3 == 0 ? R() % 60 : R() % 1400;
    if (fam == 5) n0 = R() % 90; if (fam == 7) n0 = R() % 3000;
    for (size_t i = 0; i < n0; i++) h.load.push_back(pick(R, R() % 6 == 0 ? 0 : fam, h.I, h.T, centre));
    std::sort(h.load.begin(), h.load.end(), model::before);
    h.grade = R() % 2 ? tab.alloc(n0) : tab.first(n0);
    if (n0 <= 1023 && R() % 3 == 0) h.grade = 55;
    size_t n = n0, nops = 100 + R() % 300; if (R() % 3 == 0) nops = 1500;
    int phase = R() % 3, I = h.I; List cur = h.load;
    int g = h.grade;
    for (size_t o = 0; o < nops; o++) {
        if (R() % 200 == 0) phase = R() % 3;
        Op op; int c = R() % 100;
        if (fam == 7 && c < 6) op.t = c < 3 ? 'u' : 'w';
        else if (c == 7 && R() % 10 == 0 && I > 3 && (fam == 7 || R() % 3 == 0)) op.t = 'h';
        else if (cur.empty() || c % 10 < (phase == 0 ? 8 : phase == 1 ? 2 : 5)) op.t = 'i'; else op.t = 'd';
        if (op.t == 'i') { if (n >= 6000) continue; op.v = pick(R, R() % 6 == 0 ? 0 : fam, I, h.T, centre);
            if (!cur.empty() && R() % 8 == 0) { op.v = cur[R() % cur.size()]; if (R() % 2) { int s = R() % I; uint64_t m = (1ull << (s + 1)) - 1; op.v = (op.v | m) & ~(m >> 1); if ((op.v & ((1ull << I) - 1)) == 0) op.v |= 1; } }
            op.v |= 1; cur.push_back(op.v); n++; g = tab.grow(g, n - 1); }
        else if (op.t == 'd') { size_t j = R() % cur.size(); if (R() % 3 == 0) j = cur.size() - 1 - R() % std::min<size_t>(cur.size(), 6); op.v = cur[j] | 1; cur[j] = cur.back(); cur.pop_back(); g = tab.shrink(g, n); n--; }
        else if (op.t == 'u') { if (g >= 120) continue; g++; }
        else if (op.t == 'w') { if (g == 0 || tab.sizes[g - 1] < n) continue; g--; }
        else {      // shrinking cuts the infixes; later deletions name the cut ones
            int d = 1 + (I > 4 && R() % 3 == 0); I -= d; op.v = I;
            for (auto &x : cur) x = x >> d | (__builtin_ctzll(x) < d);
        }
        h.ops.push_back(op);
    }
    h.every = nops > 400 ? 5 : 1; h.lay = n0 > 300 || nops > 400 ? 20 : 3;
    return h;
}

class InfixStoreTests {
public:
    template <bool IO> struct Run {
        using D = Diva<IO>; using S = typename D::InfixStore;
        const SHist &h; int mask; Json &J; D d; S s; List m; int g, I; model::Tab tab;
        Run(const SHist &h, int mask, Json &J) : h(h), mask(mask), J(J), d(h.I, 1, LFS[h.lf]), s((uint32_t) d.scaled_sizes_[h.grade], d.infix_size_, h.grade), tab(model::Tab::make(LFS[h.lf])) { I = h.I; g = h.grade; }
        struct Lay { std::vector<int> occ, re; std::vector<int> pos; List val; uint32_t pc0, pc1; };
        Lay layout() {
            Lay L; const uint64_t *oc = s.ptr + 1, *re = s.ptr + 1 + 1024 / 64; const uint32_t *pc = (const uint32_t *) s.ptr; L.pc0 = pc[0]; L.pc1 = pc[1];
            uint32_t n = d.scaled_sizes_[s.GetSizeGrade()];
            for (int i = 0; i < 1024; i++) if (oc[i / 64] >> (i % 64) & 1) L.occ.push_back(i);
            for (uint32_t i = 0; i < n; i++) { if (re[i / 64] >> (i % 64) & 1) L.re.push_back(i); uint64_t v = d.GetSlot(s, i); if (v) { L.pos.push_back(i); L.val.push_back(v); } }
            return L;
        }
        // run k consists of the used slots after the previous run end that reach run end k without a gap
        bool decode(const Lay &L, List &out) {
            if (L.occ.size() != L.re.size()) return false;
            size_t p = 0;
            for (size_t k = 0; k < L.re.size(); k++) {
                int expect = -1;
                while (p < L.pos.size() && L.pos[p] <= L.re[k]) { if (expect != -1 && L.pos[p] != expect) return false; expect = L.pos[p] + 1; out.push_back((uint64_t) L.occ[k] << I | L.val[p]); p++; }
                if (expect != L.re[k] + 1) return false;
            }
            return p == L.pos.size();
        }
        int observe(int step, bool lay, uint64_t focus) {
            int bad = 0; Rng R(h.seed * 31ull + step);
            if (mask & (LIST | LIFEK)) {
                if (s.GetElemCount() != m.size()) bad |= LIST;
                if (J.on()) { J.num("n", s.GetElemCount()); J.num("g", s.GetSizeGrade()); }
                std::vector<uint64_t> out(s.GetElemCount() + (PAD ? 2 : 0)); 
                Lay L = layout(); List got; bool ok = decode(L, got) && got == m;
                uint32_t a = 0, b = 0; for (int x : L.occ) a += x < 512; for (int x : L.re) b += x < 512;
                ok = ok && a == L.pc0 && b == L.pc1;
                if (!ok) bad |= LIST;
                if (J.on() && (lay || !ok)) { J.arr("occ", L.occ); J.arr("re", L.re); J.arr("pos", L.pos); J.arr("val", L.val); J.num("pc0", L.pc0); J.num("pc1", L.pc1); J.num("slots", d.scaled_sizes_[s.GetSizeGrade()]); }
                if (ok) { uint32_t k = d.GetInfixList(s, out.data()); out.resize(k); bool same = out == m; if (!same) bad |= LIST; if (J.on() && (lay || !same)) J.arr("il", out); }
            }
            if ((mask & (LOOK | LIFEK)) && !(bad & LIST)) {
                List px, rl, rr, lx; std::vector<int> pa, ra, la;
                auto around = [&]() -> uint64_t {
                    uint64_t top = ((uint64_t) h.T << I) - 1, v;
                    switch (R() % 6) { case 0: v = R() % (top + 1); break; case 1: v = focus; break; case 2: v = focus + R() % (2ull << I) - (1ull << I); break;
                        default: v = m.empty() ? R() % (top + 1) : m[R() % m.size()]; if (R() % 2) v ^= 1ull << (R() % (I + 2)); if (R() % 3 == 0) v += R() % 5 - 2; }
                    return std::min(v, top); };
                for (int i = 0; i < h.pts; i++) {
                    uint64_t x = around(); bool a = d.PointQueryInfixStore(s, x, h.T), e = false; 
                    auto lo = std::lower_bound(m.begin(), m.end(), x >> I << I), hi = std::lower_bound(m.begin(), m.end(), ((x >> I) + 1) << I);
                    for (auto p = lo; p != hi; ++p) e |= model::covers(*p, x);
                    if (a != e) bad |= LOOK; if (J.on()) { px.push_back(x); pa.push_back(a); }
                    uint64_t l = around() | 1, r = R() % 3 ? around() | 1 : std::min<uint64_t>(((uint64_t) h.T << I) - 1, l + R() % (3ull << I)) | 1; if (l > r) std::swap(l, r);
                    a = d.RangeQueryInfixStore(s, l, r, h.T); e = false;
                    for (auto p = std::lower_bound(m.begin(), m.end(), l >> I << I); p != m.end() && *p >> I <= r >> I; ++p) e |= model::Lo(*p) <= r && l <= model::Hi(*p);
                    if (a != e) bad |= LOOK; if (J.on()) { rl.push_back(l); rr.push_back(r); ra.push_back(a); }
                    if (i % 4 == 0) { uint64_t z = x | 1; int len = d.GetLongestMatchingInfixSize(s, z, h.T), want = 0; for (auto p = lo; p != hi; ++p) if (model::covers(*p, z)) want = I - __builtin_ctzll(*p);
                        if (len != want) bad |= LOOK; if (J.on()) { lx.push_back(z); la.push_back(len); } }
                }
                if (J.on()) { J.arr("px", px); J.arr("pa", pa); J.arr("rl", rl); J.arr("rr", rr); J.arr("ra", ra); J.arr("lx", lx); J.arr("la", la); }
            }
            return bad & mask;
        }
        int run() {
            g_sh->op = -1;
            if (J.on()) { J.begin("load"); J.num("I", I); J.num("T", h.T); J.num("grade", g); J.arr("list", h.load); J.num("io", IO);
                std::vector<uint64_t> sz(tab.sizes.begin(), tab.sizes.begin() + 256); for (auto &x : sz) x = std::min<uint64_t>(x, 2000000000);
                J.raw("tab", "{\"sizes\":" + Json::list(sz) + ",\"exc\":" + std::to_string(tab.exc) + ",\"num\":" + std::to_string(tab.num) + ",\"shift\":15,\"sep\":55}"); }
            { std::vector<uint64_t> in_list(h.load); in_list.shrink_to_fit(); life::Call in; d.LoadListToInfixStore(s, in_list.data(), in_list.size(), h.T); } m = h.load;
            int bad = observe(0, true, 0); if (J.on()) J.end(); if (bad) return bad;
            int step = 0;
            for (size_t o = 0; o < h.ops.size(); o++) {
                const Op &op = h.ops[o]; g_sh->op = o;
                size_t at = 0;
                if (op.t == 'i' || op.t == 'd') { if (!(op.v & 1) || op.v >> I >= (uint64_t) h.T || (op.v & ((1ull << I) - 1)) == 0) continue; }
                if (op.t == 'd') { size_t b = m.size(); for (size_t j = 0; j < m.size() && m[j] >> I <= op.v >> I; j++) if (model::covers(m[j], op.v)) b = j; if (b == m.size()) continue; at = b; }
                if (op.t == 'w' && (g == 0 || tab.sizes[g - 1] < m.size())) continue;
                if (op.t == 'u' && g >= 120) continue;
                if (op.t == 'h' && (int) op.v >= I) continue;
                if (op.t == 'i' && g >= 200) continue;
                step++;
                const char *nm = op.t == 'i' ? "ins" : op.t == 'd' ? "del" : op.t == 'u' ? "up" : op.t == 'w' ? "down" : "shr";
                if (J.on()) { J.begin(nm); J.num("v", op.v); }
                { life::Call in; switch (op.t) {
                    case 'i': d.InsertRawIntoInfixStore(s, op.v, h.T); g = tab.grow(g, m.size()); m.insert(m.begin() + model::ins_pos(m, op.v), op.v); break;
                    case 'd': d.DeleteRawFromInfixStore(s, op.v, h.T); g = tab.shrink(g, m.size()); m.erase(m.begin() + at); break;
                    case 'u': d.ResizeInfixStore(s, true, h.T); g++; break;
                    case 'w': d.ResizeInfixStore(s, false, h.T); g--; break;
                    case 'h': { d.ShrinkInfixStoreInfixSize(s, op.v); d.infix_size_ = op.v; int k = I - (int) op.v; I = op.v;
                        for (auto &x : m) { uint64_t y = x >> k; if (__builtin_ctzll(x) < k) y |= 1; x = y; } break; }
                } }
                bool look = step % h.every == 0 || o + 1 == h.ops.size();
                int bad = 0; if (look) bad = observe(step, step % h.lay == 0 || o + 1 == h.ops.size(), op.t == 'h' ? 0 : op.v);
                if (J.on()) J.end();
                if (bad) return bad;
            }
            g_sh->op = h.ops.size();
            delete[] s.ptr;
            return 0;
        }
    };
    template <bool IO> static int one(const SHist &h, int mask, Json &J) {
        if (mask & LIFEK) life::arm(); life::reset();
        std::unique_ptr<Run<IO>> r; { life::Call in; r.reset(new Run<IO>(h, mask, J)); }
        int bad = r->run(); if (bad) return bad;
        { life::Call in; r.reset(); }
        if (mask & LIFEK) {
            if (J.on()) { J.begin("end"); J.num("blocks", life::blocks); J.num("pages", life::pages); J.end(); }
            if (life::blocks || life::pages) return LIFEK;
        }
        return 0;
    }
    static int run(const SHist &h, int mask, Json &J) { return h.io ? one<true>(h, mask, J) : one<false>(h, mask, J); }
};

static Outcome isolated(const SHist &h, int mask, int cpu, const char *out) {
    Outcome res;
    run_isolated(1, 1, cpu, [&](int) { Json J; if (out) J.f = fopen(out, "a"); int k = InfixStoreTests::run(h, mask, J); if (J.f) fclose(J.f); return k; }, [&](int, Outcome o) { res = o; });
    return res;
}
int main(int argc, char **argv) {
    std::map<std::string, std::string> A; std::string cmd = argv[1];
    for (int i = 2; i + 1 < argc; i += 2) A[argv[i]] = argv[i + 1];
    auto num = [&](const char *k, long long d) { return A.count(k) ? atoll(A[k].c_str()) : d; };
    int mask = 0; if (A["--kinds"].find("list") != std::string::npos) mask |= LIST; if (A["--kinds"].find("look") != std::string::npos) mask |= LOOK; if (A["--kinds"].find("life") != std::string::npos) mask |= LIFEK;
    int cpu = num("--cpu", 20), fam = num("--fam", 0); uint64_t seed = num("--seed", 1), count = num("--count", 100);
    if (cmd == "scan") {
        double budget = num("--ms", 1 << 30) / 1000.0; timeval t0; gettimeofday(&t0, nullptr); long long done = 0, ops = 0; int flagged = 0, batch = 8;
        for (uint64_t s = seed; s < seed + count; s += batch) {
            timeval t; gettimeofday(&t, nullptr); if (t.tv_sec - t0.tv_sec + (t.tv_usec - t0.tv_usec) / 1e6 > budget) break;
            run_isolated(batch, batch, cpu, [&](int i) { if (flagged >= 4) return 0; SHist h = make(fam, s + i); Json J; int k = InfixStoreTests::run(h, mask, J); g_sh->counter[0] += h.ops.size(); return k; },
                         [&](int i, Outcome o) { flagged++; if (o.hung) flagged += 4; printf("FLAG fam=%d seed=%llu kind=%d op=%d sig=%d\n", fam, (unsigned long long) (s + i), o.kind, o.op, o.sig); });
            done += batch; ops += g_sh->counter[0]; munmap(g_sh, 4096); if (flagged >= 4) break;
        }
        printf("DONE fam=%d histories=%lld ops=%lld flagged=%d\n", fam, done, ops, flagged); return 0;
    }
    if (cmd == "trace") {
        SHist h = make(fam, seed); std::string out = A["--out"]; remove(out.c_str());
        if (A.count("--trunc")) h.ops.resize(std::min<size_t>(h.ops.size(), num("--trunc", 0)));
        if (A.count("--pts")) h.pts = num("--pts", 0);
        Outcome first = isolated(h, mask, cpu, nullptr);
        if (first.kind) {
            if (first.op >= 0 && (size_t) first.op + 1 < h.ops.size()) h.ops.resize(first.op + 1);
            int tries = first.hung ? 12 : 400;
            timeval t0; gettimeofday(&t0, nullptr);        // enough is enough
            auto late = [&] { timeval t; gettimeofday(&t, nullptr); if (t.tv_sec - t0.tv_sec > 60) tries = 0; return tries <= 0; };
            auto bad = [&](const SHist &g) { if (late()) return false; tries--; Outcome o = isolated(g, mask, first.hung ? cpu : 5, nullptr); return o.kind && o.hung == first.hung; };
            for (size_t st = std::max<size_t>(1, h.ops.size() / 2); tries > 0; st = std::max<size_t>(1, st / 2)) {
                bool any = false;
                for (size_t p = 0; p < h.ops.size() && tries > 0;) { SHist g = h; g.ops.erase(g.ops.begin() + p, g.ops.begin() + std::min(h.ops.size(), p + st)); if (bad(g)) { h = g; any = true; } else p += st; }
                if (st == 1 && !any) break;
            }
            for (size_t st = std::max<size_t>(1, h.load.size() / 2); tries > 0 && !h.load.empty(); st = std::max<size_t>(1, st / 2)) {
                bool any = false;
                for (size_t p = 0; p < h.load.size() && tries > 0;) { SHist g = h; g.load.erase(g.load.begin() + p, g.load.begin() + std::min(h.load.size(), p + st)); if (bad(g)) { h = g; any = true; } else p += st; }
                if (st == 1 && !any) break;
            }
        }
        Outcome o = isolated(h, mask, cpu, out.c_str());
        if (o.kind & (K_CRASH | K_HANG | K_ASAN)) { FILE *f = fopen(out.c_str(), "a"); fprintf(f, "{\"e\":\"%s\",\"sig\":%d,\"op\":%d}\n", o.hung ? "hang" : "crash", o.sig, o.op); fclose(f); }
        printf("TRACE kind=%d op=%d ops=%zu sig=%d\n", o.kind, o.op, h.ops.size(), o.sig); return 0;
    }
    return 2;
}
