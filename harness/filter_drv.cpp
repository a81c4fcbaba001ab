// Drives the real filter through histories, compares it with the native
// transcription of the specification, and records traces for TLC.
#include "filter.hpp"
Shared *g_sh;

enum Kind {
    FNP = 1, FNR = 2, ENTRY = 4, PTX = 8, RGX = 16, CONTENT = 32, SIZE = 64, SHRINK = 128,
    SER = 256, DIFF = 512, RO = 1024, GRADE = 2048, STRUCT = 4096, ROUTE = 8192, LIFEK = 16384
};

// ------------------------------------------------------------------ key material
static int g_long = 0;      // length of the stem of long keys; 0: some hundred to some thousand
static Key any_key(Rng &R, int style, const std::vector<Key> &pool) {
    auto some = [&]() -> Key { return pool[R() % pool.size()]; };
    if (style == 0 || style == 3) {                  // 8-byte keys; 3: small integers
        uint64_t v, x = pool.empty() ? R() : unbe(some());
        if (style == 3) { v = R() % (1ull << (8 + R() % 24)); return be(v); }
        switch (R() % 8) {
            case 0: v = R(); break;
            case 1: v = R() >> (R() % 40); break;
            case 2: case 3: v = x ^ (R() >> (R() % 64)); break;
            case 4: v = x + R() % 17 - 8; break;
            case 5: { int b = R() % 64; uint64_t m = b ? (1ull << b) - 1 : 0; v = (x & ~m) | (R() % 2 ? m : 0); break; }
            case 6: v = x ^ (1ull << (R() % 64)); break;
            default: v = 0x1234567800000000ull | (R() % (1u << (1 + R() % 31)));
        }
        if (R() % 64 == 0) v = R() % 2 ? 0 : ~0ull;
        return be(v);
    }
    Key s; size_t maxlen = 16;
    if (style == 2) maxlen = 60;
    if (style == 4) {                                // long keys around a common stem, the first of the pool
        if (pool.empty()) {
            int L = g_long ? g_long - 500 + R() % 1000 : 100 + R() % 2900, how = R() % 4;
            for (int i = 0; i < L; i++) s.push_back((char) (how == 0 ? 0 : how == 1 ? 255 : how == 2 ? 'a' + R() % 4 : R()));
            s[0] = 'k'; s.push_back(1 + R() % 200); return s;
        }
        s = R() % 3 ? some() : pool[0];
        switch (R() % 6) {
            case 0: s.resize(1 + R() % s.size()); break;
            case 1: { int n = 1 + R() % 12; while (n--) s.push_back((char) R()); break; }
            case 2: { size_t i = R() % s.size(); s.resize(i + 1); s[i] ^= 1 << (R() % 8); int n = R() % 30; while (n--) s.push_back((char) R()); break; }
            case 3: { size_t i = s.size() - 1 - R() % std::min<size_t>(9, s.size()); s[i] = R(); break; }
            default: { size_t i = R() % s.size(); s[i] ^= 1 << (R() % 8); }
        }
        maxlen = 30000;
    }
    else
    if (!pool.empty() && R() % 3) {
        s = some();
        switch (R() % 5) {
            case 0: s.resize(1 + R() % s.size()); break;
            case 1: { int n = 1 + R() % 4; while (n--) s.push_back((char) (R() % 256)); break; }
            case 2: if (R() % 3 == 0) s.push_back(0); else s.push_back((char) (R() % 3)); break;
            default: { size_t i = R() % s.size(); if (R() % 2) i = s.size() - 1 - R() % std::min<size_t>(3, s.size()); s[i] ^= 1 << (R() % 8); }
        }
    }
    else {
        if (style == 2) { static const char *pre[3] = {"user/profile/", "user/profile/accounts/000001/settings/", "v"}; s = pre[R() % 3]; }
        int L = 1 + R() % 12; for (int i = 0; i < L; i++) s.push_back((char) (R() % 4 ? R() : R() % 3));
    }
    if (s.size() > maxlen) s.resize(maxlen);
    if (R() % 3 && s.back() == 0) s.back() = 1;
    if ((uint8_t) s[0] == 0xff) s[0] = (char) 0xfe;
    if (s[0] == 0) s[0] = 1;
    return s;
}
static Key near_key(Rng &R, int style, const std::vector<Key> &pool) {      // for queries
    return any_key(R, style, pool);
}

// ------------------------------------------------------------------ history families
// 0 small8  1 var  2 longprefix  3 dense  4 growshrink  5 sequential  6 natural  7 delete-heavy  8 shrink-heavy  9 bulk  10 cluster
// 14 streaming cut short  15 long keys
// 11 many boundaries  12 many boundaries, variable length  13 large bulk
static bool g_force8 = false;
static Hist make_hist(int fam, uint64_t seed, int max_I) {
    Rng R(seed * 1000003 + fam * 7919 + 17);
    Hist h; h.seed = (uint32_t) (R() % 1000000) + 1;
    int style = fam == 1 ? 1 : fam == 2 ? 2 : fam == 5 ? 3 : 0;
    if (fam == 7 || fam == 8) style = R() % 3 == 0 ? 1 : R() % 4 == 0 ? 2 : 0;
    if (fam == 14) { style = R() % 3; h.unfinished = true; }
    if (fam == 15) { style = 4; g_long = R() % 10 ? 0 : 19500 + R() % 6000; }
    if (fam == 9) style = R() % 3 == 0 ? 1 : R() % 5 == 0 ? 2 : R() % 4 == 0 ? 3 : 0;
    if (fam == 12) style = 1 + R() % 2;
    if (g_force8 && (style == 1 || style == 2 || style == 4)) style = 0;
    h.int_opt = (style == 0 || style == 3) ? R() % 2 : 0;
    h.I = 3 + R() % 10; if (R() % 5 == 0) h.I = 3 + R() % (max_I - 2); if (fam == 8) h.I = std::min<int>(max_I, h.I + 5);
    h.lf = R() % 4 == 0 ? 1 + R() % 2 : 0;
    h.overload = R() % 2;
    std::vector<Key> pool;
    // bulk part
    size_t nb = 1 + R() % 3; h.route = R() % 3;
    if (fam == 15) { nb = 1 + R() % 5; h.route = 1 + R() % 2; }
    if (fam == 3) nb = 300 + R() % 2500;
    if (fam == 10) { nb = 1 + R() % 3; }
    if (fam == 4) nb = 1 + R() % 40;
    if (fam == 6) nb = 100 + R() % 1500;
    if (fam == 13) nb = 5000 + R() % 60000;
    if (fam == 14) { h.route = 2; nb = R() % 2 ? 1 + R() % 10 : 1 + R() % 4000; }
    if (fam == 9) {
        static const int ns[] = {1, 2, 3, 4, 64, 65, 66, 67, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 1027, 2047, 2048, 2049, 2050, 3072, 3073, 3074};
        nb = R() % 3 ? ns[R() % 24] : 1 + R() % 2200;
    }
    int klen = 8;
    if (style == 1 || style == 2) {
        if (h.route == 0) { klen = FIXED[R() % FIXEDS]; if (nb > 200) klen = std::max(klen, 4); }
    }
    std::set<Key> ks; int spread = R() % 3; uint64_t baseval = R();
    int guard = 0;
    while (ks.size() < nb) {
        Key k;
        if (style == 0 && nb > 50) {
            uint64_t v = R();
            if (spread == 1) v = (baseval & ~((1ull << 40) - 1)) | (R() & ((1ull << 40) - 1));
            if (spread == 2) v >>= R() % 30;
            k = be(v);
        }
        else k = any_key(R, style, pool);
        if ((style == 1 || style == 2) && h.route == 0) {
            k.resize(klen, (char) (1 + R() % 200));
            if (nb > 50) for (int j = std::max(0, klen - 4); j < klen; j++) k[j] = (char) R();
            if ((uint8_t) k[0] == 0xff) k[0] = 1; if (k[0] == 0) k[0] = 1;
        }
        bool dup = false;
        if (style == 1 || style == 2 || style == 4) {     // boundary keys must differ as infinite strings
            Key t = k; while (!t.empty() && t.back() == 0) t.pop_back();
            auto it = ks.lower_bound(t); if (it != ks.end() && model::same_bits(*it, k)) dup = true;
        }
        if (!dup) { ks.insert(k); if (pool.size() < 400) pool.push_back(k); else pool[R() % 400] = k; }
        if (++guard > 400000) break;
    }
    h.bulk.assign(ks.begin(), ks.end());
    if (style == 1 || style == 2) {         // room below all later keys for the upper sentinel is given by the first byte
        size_t mx = 0; for (auto &k : h.bulk) mx = std::max(mx, k.size());
        (void) mx;
    }
    // operations
    int nops = 20 + R() % 160;
    int wi = 4, ws = 3, wd = 2, wh = 0, wr = 0, wI = 0;
    h.pts = 70; h.rgs = 30; h.every = 1; h.st_every = 1;
    switch (fam) {
        case 0: case 1: case 2: if (R() % 3 == 0) wd = 0; break;
        case 3: nops = 150 + R() % 250; wI = 2; h.every = 25; h.st_every = 75; h.pts = 400; h.rgs = 300; break;
        case 4: nops = 2500; h.every = 120; h.st_every = 480; h.pts = 300; h.rgs = 200; break;
        case 5: nops = 200 + R() % 400; h.every = 10; h.st_every = 30; break;
        case 6: nops = 6000; wI = 10; wi = ws = 0; wd = 3; h.every = 400; h.st_every = 1600; h.pts = 600; h.rgs = 400; break;
        case 7: wd = 7; nops = 60 + R() % 200; break;
        case 8: wh = 3; nops = 60 + R() % 140; break;
        case 15: nops = 20 + R() % 60; h.pts = 40; if (g_long) nops = 15; break;
        case 9: nops = R() % 3 == 0 ? 30 : 3; h.pts = 2500; h.rgs = 400; break;
        case 11: case 12: nops = 400 + R() % 900; ws = 12; wi = 3; wd = R() % 2 ? 3 : 7; h.every = 90; h.st_every = 180; h.pts = 300; h.rgs = 200; break;
        case 13: nops = 200; wI = 3; h.every = 50; h.st_every = 100; h.pts = 2000; h.rgs = 400; break;
        case 10: nops = 200 + R() % 900; ws = 1; wd = 3; h.every = 12; h.st_every = 48; break;
    }
    bool reloads = R() % 3 == 0; if (fam == 13) reloads = false; bool shrinks = fam == 8 || R() % 3 == 0;
    if (reloads) wr = 1;
    int I = h.I; std::multiset<Key> live(h.bulk.begin(), h.bulk.end()); std::vector<Key> lv;
    for (auto &k : live) lv.push_back(k);
    uint64_t cl = R(); int clbits = 34 + R() % 12;
    for (int o = 0; o < nops; o++) {
        Hist::Op op; int c;
        if (fam == 4) { // long growth phase, long deletion phase
            bool grow = (o / 900) % 2 == 0; c = R() % 20;
            if (c == 0) op.t = 's'; else if (grow ? c < 17 : c < 4) op.t = 'i'; else op.t = 'd';
        }
        else {
            int tot = wi + ws + wd + wI; c = R() % tot;
            op.t = c < wi ? 'i' : c < wi + ws ? 's' : c < wi + ws + wd ? 'd' : 'I';
            if (shrinks && I > 3 && R() % 60 < (unsigned) std::max(1, 4 * wh)) { op.t = 'h'; I -= 1 + (I > 6 && R() % 3 == 0 ? R() % 3 : 0); op.n = I; }
            else if (wr && R() % 25 == 0) op.t = 'r';
        }
        if (op.t == 'i' || op.t == 's' || op.t == 'I') {
            if (fam == 10 && R() % 8) { uint64_t low = R() & ((1ull << (64 - clbits)) - 1); op.k = be((cl >> (64 - clbits) << (64 - clbits)) | low); if (R() % 30 == 0) cl += 1ull << (64 - clbits + R() % 10); }
            else if (fam == 11 && R() % 4) op.k = be(R() >> (spread == 2 ? R() % 30 : 0));
            else if ((fam == 3 || fam == 6 || fam == 13) && R() % 3) op.k = be(spread == 1 ? (baseval & ~((1ull << 40) - 1)) | (R() & ((1ull << 40) - 1)) : R() >> (spread == 2 ? R() % 30 : 0));
            else if (fam == 4 && R() % 4) op.k = be(baseval ^ (R() >> 12));
            else if (!lv.empty() && R() % 12 == 0) op.k = lv[R() % lv.size()];      // one more copy
            else op.k = any_key(R, style, pool);
            lv.push_back(op.k); if (pool.size() < 400) pool.push_back(op.k); else pool[R() % 400] = op.k;
        }
        else if (op.t == 'd') {
            if (lv.empty()) continue;
            size_t j = R() % 3 ? R() % lv.size() : lv.size() - 1 - R() % std::min<size_t>(8, lv.size());
            op.k = lv[j]; lv[j] = lv.back(); lv.pop_back();
        }
        h.ops.push_back(op);
    }
    int extra = fam == 9 ? 60 : fam == 15 ? (g_long ? 5 : 20) : 40;
    std::set<Key> pr(pool.begin(), pool.end());
    if (fam == 9) pr.insert(h.bulk.begin(), h.bulk.end());
    for (int i = 0; i < extra; i++) pr.insert(near_key(R, style, pool));
    h.probes.assign(pr.begin(), pr.end());
    return h;
}
// Keys a filter over variable-length keys accepts lie between its sentinels.
static bool in_domain(const Key &k, const Key &lo, const Key &hi) { return lo <= k && k <= hi; }

// ------------------------------------------------------------------ execution
static long long g_live_bytes();
static std::string tab_json(const model::Tab &t) {
    std::vector<uint64_t> sz(t.sizes.begin(), t.sizes.begin() + 256); for (auto &x : sz) x = std::min<uint64_t>(x, 2000000000);
    return "{\"sizes\":" + Json::list(sz) + ",\"exc\":" + std::to_string(t.exc) + ",\"num\":" + std::to_string(t.num) + ",\"shift\":15,\"sep\":55}";
}
struct Exec {
    const Hist &h; int mask; Json &J; bool exact;
    std::vector<Key> tbl; std::map<Key, int> idx;
    std::unique_ptr<Any> a, b;          // b: the other variant, another route or a twin
    model::Filter m; std::multiset<Key> live;
    int cur = -1; bool twin_on = false; int twin_mode = 0; // 1 other variant, 2 twin without queries, 3 other route
    std::vector<Key> lo_hi;
    std::vector<Key> livev;
    uint64_t entries_before = 0;
    Exec(const Hist &h, int mask, Json &J, int twin) : h(h), mask(mask), J(J), twin_mode(twin) {
        exact = mask & (PTX | RGX | CONTENT | SIZE | GRADE);
    }
    int id(const Key &k) { return idx.at(k); }
    static bool zeros(const Key &k) { for (char c : k) if (c) return false; return true; }
    void build_table() {
        std::set<Key> s(h.probes.begin(), h.probes.end()); s.insert(h.bulk.begin(), h.bulk.end());
        for (auto &o : h.ops) if (!o.k.empty()) s.insert(o.k);
        size_t mx = 0; for (auto &k : h.bulk) mx = std::max(mx, k.size());
        Key lo(h.route == 1 ? 8 : mx, 0), hi(mx, (char) 0xff); if (h.bulk.front() < lo) lo = h.bulk.front();
        lo_hi = {lo, hi};
        s.insert(lo); s.insert(hi);
        for (auto &k : s) if (in_domain(k, lo, hi)) { idx[k] = tbl.size(); tbl.push_back(k); }
    }
    int fail(int kind) { if (!open) kind &= ~(FNP | FNR); return kind & mask; }
    std::string state_json(const std::vector<Seen> &st) {
        std::string s = "[";
        for (size_t i = 0; i < st.size(); i++) {
            if (i) s += ',';
            s += "{\"key\":" + Json::bytes(st[i].key) + ",\"part\":" + (st[i].part ? "1" : "0") + ",\"inv\":" + std::to_string(st[i].inv)
               + ",\"grade\":" + std::to_string(st[i].grade) + ",\"ok\":" + (st[i].ok ? "1" : "0") + ",\"list\":" + Json::list(st[i].list) + "}";
        }
        return s + "]";
    }
    std::vector<char> last_bytes;
    // everything that is looked at after a step; returns a kind mask
    int observe(int step, bool full) {
        Rng R(h.seed * 77777ull + step);
        int bad = 0;
        bool need_bytes = (mask & (LIFEK | ENTRY | CONTENT | GRADE | STRUCT | SER | RO | SHRINK)) || (mask & DIFF);
        std::vector<Seen> st; uint32_t n = 0; int I2 = 0; bool dec = true; uint64_t ent = 0;
        std::vector<char> bytes;
        if (need_bytes && (full || (mask & (ENTRY | RO | SHRINK)))) {
            bytes = a->serialize(n);
            if (n == UINT32_MAX) { bad |= SER | STRUCT | CONTENT; dec = false; }
            else { dec = decode(bytes, I2, st, m.tab); if (!dec) bad |= SER | STRUCT | CONTENT; }
            for (auto &s : st) { ent += 1 + s.count; if (!s.ok) bad |= STRUCT | CONTENT; }
            if (J.on()) {
                if (mask & (ENTRY | SHRINK)) J.num("n", ent);
                if (mask & RO) J.num("dg", digest(bytes.data(), bytes.size()));
            }
            if (mask & SER) {
                uint32_t sz = a->size();
                if (sz != n) bad |= SER;
                if (J.on()) { J.num("ser", n == UINT32_MAX ? -1 : n); J.num("szr", sz); }
            }
            if ((mask & (CONTENT | GRADE)) && full && dec) {
                if (J.on()) J.raw("st", state_json(st));
                bool same = st.size() == m.bd.size();
                for (size_t i = 0; same && i < st.size(); i++)
                    same = st[i].key == m.bd[i].key && st[i].part == m.bd[i].part && (!st[i].part || st[i].inv == m.bd[i].inv) && st[i].list == m.bd[i].list;
                if (!same) bad |= CONTENT;
                same = st.size() == m.bd.size();
                for (size_t i = 0; same && i < st.size(); i++) same = st[i].grade == m.bd[i].grade;
                if (!same) bad |= GRADE;
            }
            if ((mask & STRUCT) && full && dec && J.on()) J.num("wf", !(bad & STRUCT));
        }
        if (mask & SIZE) {
            uint32_t sz = a->size(); if (sz != m.size()) bad |= SIZE;
            if (J.on()) J.num("sz", sz);
        }
        // point queries
        std::vector<int> pk, pa, pa2; std::vector<int> rl, rr, ra, ra2;
        if (mask & (FNP | PTX | DIFF | SHRINK | ROUTE | SER | LIFEK)) {
            auto one = [&](const Key &k, bool lv) {
                if (twin_mode == 3 && zeros(k)) return;      // the reserved key differs between routes
                int ov = h.overload ? R() % 3 : 0; bool ans = a->point(k, ov);
                if (lv && !ans) bad |= FNP;
                if ((mask & PTX) && ans != m.point(k)) bad |= PTX;
                if (J.on()) { pk.push_back(id(k)); pa.push_back(ans); }
                if (b) { bool z = b->point(k, h.overload ? R() % 3 : 0); if (z != ans) bad |= DIFF | ROUTE | SER; if (J.on()) pa2.push_back(z); }
            };
            if (livev.size() <= (size_t) h.pts) for (auto &k : livev) one(k, true);
            else for (int i = 0; i < h.pts; i++) one(livev[R() % livev.size()], true);
            if (mask & (PTX | DIFF | SHRINK | ROUTE | SER | LIFEK)) for (int i = 0; i < h.pts; i++) { auto &k = tbl[R() % tbl.size()]; one(k, false); }
        }
        if (mask & (FNR | RGX | DIFF | SHRINK | ROUTE | SER | LIFEK)) {
            for (int i = 0; i < h.rgs; i++) {
                Key l, r; bool must = false;
                size_t li = R() % tbl.size(), ri = R() % 3 ? std::min(tbl.size() - 1, li + R() % 4) : R() % tbl.size();
                if (R() % 2 && !livev.empty()) {
                    size_t x = id(livev[R() % livev.size()]);
                    li = x - std::min<size_t>(x, R() % 3 ? R() % 2 : R() % 20); ri = std::min(tbl.size() - 1, x + (R() % 3 ? R() % 2 : R() % 20));
                }
                if (li > ri) std::swap(li, ri);
                l = tbl[li]; r = tbl[ri];
                if (twin_mode == 3 && zeros(l)) continue;
                auto it = live.lower_bound(l); must = it != live.end() && *it <= r;
                int ov = h.overload ? R() % 3 : 0; bool ans = a->range(l, r, ov);
                if (must && !ans) bad |= FNR;
                if ((mask & RGX) && ans != m.range(l, r)) bad |= RGX;
                if (J.on()) { rl.push_back(li); rr.push_back(ri); ra.push_back(ans); }
                if (b) { bool z = b->range(l, r, h.overload ? R() % 3 : 0); if (z != ans) bad |= DIFF | ROUTE | SER; if (J.on()) ra2.push_back(z); }
            }
        }
        if ((mask & DIFF) && b && twin_mode == 1 && full) {
            uint32_t n2; auto b2 = b->serialize(n2); std::vector<Seen> s2; int I3;
            bool d2 = n2 != UINT32_MAX && decode(b2, I3, s2, m.tab);
            bool same = dec && d2 && st.size() == s2.size();
            for (size_t i = 0; same && i < st.size(); i++) same = st[i].key == s2[i].key && st[i].part == s2[i].part && st[i].inv == s2[i].inv && st[i].grade == s2[i].grade && st[i].list == s2[i].list;
            if (!same) bad |= DIFF;
            if (J.on()) { auto D = [&](std::vector<Seen> &v) { std::string z; for (auto &s : v) { z += s.key + '|' + std::to_string(s.part) + std::to_string(s.inv) + ':' + std::to_string(s.grade) + ' '; for (auto x : s.list) z += std::to_string(x) + ','; } return digest(z.data(), z.size()); };
                J.num("ct", dec ? D(st) : -1); J.num("ct2", d2 ? D(s2) : -2); }
        }
        if ((mask & RO)) {
            // read-only calls, then the bytes again, and those of the twin that was never queried
            for (int i = 0; i < 12; i++) { auto &k = tbl[R() % tbl.size()]; a->point(k, 0); size_t x = R() % tbl.size(), y = R() % tbl.size(); a->range(tbl[std::min(x, y)], tbl[std::max(x, y)], 0); }
            (void) a->size(); uint32_t n1; auto again = a->serialize(n1);
            if (again != bytes) bad |= RO;
            if (J.on()) J.num("dq", digest(again.data(), again.size()));
            if (b && full) { uint32_t n2; auto o = b->serialize(n2); if (o != bytes) bad |= RO; if (J.on()) J.num("d2", digest(o.data(), o.size())); }
        }
        if ((mask & SER) && full && dec && (step % 9 == 0 || step == (int) h.ops.size())) {
            // a second filter from the bytes
            std::vector<char> *buf = new std::vector<char>(bytes); std::unique_ptr<Any> c;
            if (h.int_opt) c.reset(new Real<true>(*buf)); else c.reset(new Real<false>(*buf));
            memset(buf->data(), 0xa5, buf->size()); delete buf;
            uint32_t n3; auto o = c->serialize(n3); bool same = o == bytes && c->size() == n;
            std::vector<int> p2, r2, pk2, pa_, rl2, rr2, ra_;
            for (int i = 0; i < 40; i++) { auto &k = tbl[R() % tbl.size()]; bool x = a->point(k, 0), y = c->point(k, 0); if (x != y) same = false; if (J.on()) { pk2.push_back(id(k)); pa_.push_back(x); p2.push_back(y); } }
            for (int i = 0; i < 40; i++) { size_t x = R() % tbl.size(), y = R() % 2 ? std::min(tbl.size() - 1, x + R() % 3) : R() % tbl.size(); if (x > y) std::swap(x, y); bool u = a->range(tbl[x], tbl[y], 0), v = c->range(tbl[x], tbl[y], 0); if (u != v) same = false; if (J.on()) { ra_.push_back(u); r2.push_back(v); } }
            if (!same) bad |= SER;
            if (J.on()) { J.num("d0", digest(bytes.data(), bytes.size())); J.num("d1", digest(o.data(), o.size())); J.num("sz2", c->size()); J.arr("qa", pa_); J.arr("qb", p2); J.arr("ua", ra_); J.arr("ub", r2); }
        }
        if (J.on()) {
            if (!pk.empty()) { J.arr("pk", pk); J.arr("pa", pa); if (b) J.arr("pb", pa2); }
            if (!rl.empty()) { J.arr("rl", rl); J.arr("rr", rr); J.arr("ra", ra); if (b) J.arr("rb", ra2); }
        }
        if (mask & ENTRY) { cur_entries = ent; }
        if (mask & SHRINK) { cur_entries = ent; }
        return bad;
    }
    uint64_t cur_entries = 0;
    char gate = 0; bool open = true;
    int run() {
        open = !gate;
        if (mask & LIFEK) life::arm(); life::reset();
        build_table();
        m.I = h.I; m.tab = model::Tab::make(LFS[h.lf]);
        if (J.on()) {
            J.begin("init"); J.num("I", h.I); J.num("int", h.int_opt); J.num("route", h.route); J.num("lf", h.lf);
            std::string t = "["; for (size_t i = 0; i < tbl.size(); i++) { if (i) t += ','; t += Json::bytes(tbl[i]); } J.raw("tbl", t + "]");
            std::vector<int> bi; for (auto &k : h.bulk) bi.push_back(id(k)); J.arr("bulk", bi);
            J.raw("tab", tab_json(m.tab));
            fputs("", J.f);
        }
        g_sh->op = -1;
        mark("init");
        a = make(h, h.int_opt);
        if (h.unfinished) { if (J.on()) J.end(); return finish(); }
        if (twin_mode == 1) b = make(h, !h.int_opt);
        if (twin_mode == 2) b = make(h, h.int_opt);
        if (twin_mode == 3) { Hist g = h; g.route = (h.route + 1 + h.seed % 2) % 3; size_t L = h.bulk[0].size(); bool same = true; for (auto &k : h.bulk) same &= k.size() == L;
            if (!same && g.route == 0) g.route = (3 - h.route) ; if (g.route == 0 && !fixed_length(L)) g.route = h.route == 1 ? 2 : 1;
            b = make(g, h.int_opt); }
        m.bulk(h.bulk, h.route);
        live.insert(h.bulk.begin(), h.bulk.end()); livev.assign(h.bulk.begin(), h.bulk.end());
        int bad = observe(0, true);
        if (J.on()) { J.end(); }
        unmark();
        if (fail(bad)) return fail(bad);
        int I = h.I; int step = 0;
        std::vector<int> prev_p, prev_r;
        for (size_t o = 0; o < h.ops.size(); o++) {
            const auto &op = h.ops[o]; g_sh->op = o; cur = o;
            if (!op.k.empty() && !idx.count(op.k)) continue;
            if (op.t == 'd' && !live.count(op.k)) continue;
            if (op.t == 'h' && op.n >= I) continue;
            int ov = h.overload ? (o * 7 + 3) % 3 : 0; bool full = (step + 1) % h.every == 0 || o + 1 == h.ops.size();
            bool dost = (step + 1) % h.st_every == 0 || o + 1 == h.ops.size();
            bool look = full; bool shr = op.t == 'h';
            if (shr && (mask & SHRINK)) look = true;
            step++;
            // answers before a shrink
            std::vector<std::pair<size_t, size_t>> sq; std::vector<int> sa; uint32_t szb = 0; uint64_t eb = 0;
            if (shr && (mask & SHRINK)) {
                Rng R(h.seed + o);
                for (int i = 0; i < 60; i++) { size_t x = R() % tbl.size(), y = R() % 2 ? x : std::min(tbl.size() - 1, x + R() % 3); sq.push_back({x, y}); sa.push_back(x == y && i % 2 ? a->point(tbl[x], 0) : a->range(tbl[x], tbl[y], 0)); }
                szb = a->size(); uint32_t n; auto by = a->serialize(n); std::vector<Seen> st; int I2; if (decode(by, I2, st, m.tab)) for (auto &s : st) eb += 1 + s.count;
            }
            uint64_t e0 = cur_entries;
            const char *nm = op.t == 'd' ? "del" : shr ? "shr" : op.t == 'r' ? "rel" : op.t == 'q' ? "qry" : "ins";
            if (J.on()) { J.begin(nm); if (!op.k.empty()) J.num("k", id(op.k)); if (shr) J.num("J", op.n); }
            mark(nm);
            switch (op.t) {
                case 'i': case 's': case 'I': {
                    int how = op.t == 'i' ? 1 : op.t == 's' ? 2 : 0;
                    if (exact && !how) how = o % 97 == 0 ? 2 : 1;           // the model has to know
                    if (J.on() && op.t == 'I' && exact) {}
                    a->insert(op.k, how, ov); if (b) b->insert(op.k, how, twin_mode == 2 ? ov : h.overload ? (o * 5 + 1) % 3 : 0);
                    m.note(op.k);
                    if (exact && !a->steerable()) {       // find out which way it went
                        model::Filter t = m; t.split(op.k); how = 1;
                        if (t.was_split) { uint32_t n; auto by = a->serialize(n); std::vector<Seen> st; int I2; if (decode(by, I2, st, m.tab) && st.size() == t.bd.size()) how = 2; }
                    }
                    if (exact) { if (how == 2) m.split(op.k); else m.simple(op.k); }
                    if (J.on()) J.str("m", how == 2 ? "p" : how == 1 ? "s" : "n");
                    live.insert(op.k); livev.push_back(op.k); break; }
                case 'd': {
                    a->del(op.k, ov); if (b) b->del(op.k, twin_mode == 2 ? ov : h.overload ? (o * 5 + 1) % 3 : 0);
                    if (exact) m.del(op.k); live.erase(live.find(op.k));
                    auto it = std::find(livev.begin(), livev.end(), op.k); *it = livev.back(); livev.pop_back(); break; }
                case 'h': a->shrink(op.n); if (b) b->shrink(op.n); I = op.n; if (exact) m.shrink(op.n); break;
                case 'r': a->reload(); if (b) b->reload(); m.minlen = 0; break;
                default: break;
            }
            if (op.t == gate) open = true;
            int bad = 0;
            bool sentinel = op.t == 'd' && (op.k == lo_hi[0] || op.k == lo_hi[1]);
            if (look) bad = observe(step, dost);
            else if (mask & (ENTRY | SHRINK | RO)) { uint32_t n; auto by = a->serialize(n); if (mask & RO) { if (J.on()) J.num("dg", digest(by.data(), by.size())); } std::vector<Seen> st; int I2; uint64_t e = 0; if (decode(by, I2, st, m.tab)) for (auto &s : st) e += 1 + s.count; cur_entries = e; if (J.on() && (mask & (ENTRY | SHRINK))) J.num("n", e); }
            if ((mask & ENTRY) && op.t == 'd' && !sentinel && cur_entries + 1 != e0) bad |= ENTRY;
            if ((mask & ENTRY) && sentinel && cur_entries != e0 && cur_entries + 1 != e0) bad |= ENTRY;
            if (shr && (mask & SHRINK)) {
                std::vector<int> xs, ys, zs, as, bs; 
                for (size_t i = 0; i < sq.size(); i++) { bool pt = sq[i].first == sq[i].second && i % 2; bool z = pt ? a->point(tbl[sq[i].first], 0) : a->range(tbl[sq[i].first], tbl[sq[i].second], 0); if (sa[i] && !z) bad |= SHRINK; as.push_back(sa[i]); bs.push_back(z); }
                if (a->size() > szb || cur_entries != eb) bad |= SHRINK;
                if (J.on()) { J.arr("s0", as); J.arr("s1", bs); J.num("z0", szb); J.num("z1", a->size()); }
            }
            if (J.on()) J.end();
            unmark();
            if (fail(bad)) return fail(bad);
        }
        g_sh->op = h.ops.size();
        return finish();
    }
    int finish() {
        a.reset(); b.reset();
        if (mask & LIFEK) {
            if (J.on()) { J.begin("end"); J.num("blocks", life::blocks); J.num("pages", life::pages); J.end(); }
            if (life::blocks || life::pages) return LIFEK;
        }
        return 0;
    }
    std::string pending;
    void mark(const char *) {}
    void unmark() {}
};

// ------------------------------------------------------------------ histories written by the specification
// File of numbers: I lf int_opt route, bulk keys, keys; then per history its operations and what the
// filter has to hold (per boundary: key, part, inv, grade, list) and answer (points, ranges), and its size.
struct Replay {
    struct Case { std::vector<Hist::Op> ops; std::vector<Seen> st; std::vector<int> p, r; uint32_t sz; };
    Hist base; std::vector<Key> keys; std::vector<Case> cases;
    explicit Replay(const char *path) {
        FILE *f = fopen(path, "r"); long long x;
        auto n = [&] { if (fscanf(f, "%lld", &x) != 1) x = -1; return x; };
        auto key = [&] { Key k(n(), 0); for (auto &c : k) c = (char) n(); return k; };
        base.I = n(); base.lf = n(); base.int_opt = n(); base.route = n();
        base.bulk.resize(n()); for (auto &k : base.bulk) k = key();
        keys.resize(n()); for (auto &k : keys) k = key();
        for (long long t; (t = n()) >= 0;) {
            Case c;
            for (; t > 0; t--) { static const char L[] = "?isdhr"; int o = n(), v = n(); Hist::Op op{L[o], o <= 3 ? keys[v - 1] : Key()}; op.n = o == 4 ? v : 0; c.ops.push_back(op); }
            c.st.resize(n());
            for (auto &s : c.st) { s.key = key(); s.part = n(); s.inv = n(); s.grade = n(); s.list.resize(n()); for (auto &v : s.list) v = n(); }
            c.p.resize(keys.size()); for (auto &v : c.p) v = n();
            c.r.resize(keys.size() * keys.size()); for (auto &v : c.r) v = n();
            c.sz = n(); cases.push_back(c);
        }
        fclose(f);
        base.probes = keys;
    }
    Hist hist(int i) const { Hist h = base; h.ops = cases[i].ops; h.seed = 1 + i; return h; }
    // what differs, as a kind mask
    int run(int i) const {
        const Case &c = cases[i]; Hist h = hist(i); auto a = make(h, h.int_opt); int bad = 0;
        for (size_t o = 0; o < h.ops.size(); o++) {
            const auto &op = h.ops[o]; g_sh->op = o;
            switch (op.t) {
                case 'i': a->insert(op.k, 1, 0); break; case 's': a->insert(op.k, 2, 0); break; case 'd': a->del(op.k, 0); break;
                case 'h': a->shrink(op.n); break; case 'r': a->reload(); break;
            }
        }
        for (size_t x = 0; x < keys.size(); x++) {
            if (a->point(keys[x], 0) != (c.p[x] != 0)) bad |= PTX;
            for (size_t y = 0; y < keys.size(); y++) if (c.r[x * keys.size() + y] < 2 && a->range(keys[x], keys[y], 0) != (c.r[x * keys.size() + y] != 0)) bad |= RGX;
        }
        if (a->size() != c.sz) bad |= SIZE;
        uint32_t n; auto by = a->serialize(n); std::vector<Seen> st; int I2; model::Tab t = model::Tab::make(LFS[h.lf]);
        if (n == UINT32_MAX || !decode(by, I2, st, t) || st.size() != c.st.size()) return bad | CONTENT | GRADE;
        for (size_t j = 0; j < st.size(); j++) {
            const Seen &s = st[j], &w = c.st[j];
            if (!s.ok || s.key != w.key || s.part != w.part || (w.part && s.inv != w.inv) || s.list != w.list) bad |= CONTENT;
            if (s.grade != w.grade) bad |= GRADE;
        }
        return bad;
    }
};

// ------------------------------------------------------------------ commands
static int parse_kinds(const std::string &s) {
    std::map<std::string, int> K{{"fnp", FNP}, {"fnr", FNR}, {"entry", ENTRY}, {"ptx", PTX}, {"rgx", RGX}, {"content", CONTENT}, {"size", SIZE}, {"shrink", SHRINK}, {"ser", SER}, {"diff", DIFF}, {"ro", RO}, {"grade", GRADE}, {"struct", STRUCT}, {"route", ROUTE}, {"life", LIFEK}};
    int m = 0; size_t p = 0; while (p < s.size()) { size_t q = s.find(',', p); if (q == std::string::npos) q = s.size(); m |= K.at(s.substr(p, q - p)); p = q + 1; } return m;
}
static char g_gate = 0;
static Outcome isolated(const Hist &h, int mask, int twin, int cpu, const char *out) {
    Outcome res;
    run_isolated(1, 1, cpu, [&](int) { Json J; if (out) J.f = fopen(out, "a"); Exec x(h, mask, J, twin); x.gate = g_gate; int k = x.run(); if (J.f) fclose(J.f); return k; },
                 [&](int, Outcome o) { res = o; });
    return res;
}
int main(int argc, char **argv) {
    std::map<std::string, std::string> A; std::string cmd = argv[1];
    for (int i = 2; i + 1 < argc; i += 2) A[argv[i]] = argv[i + 1];
    auto num = [&](const char *k, long long d) { return A.count(k) ? atoll(A[k].c_str()) : d; };
    int mask = parse_kinds(A["--kinds"]), twin = num("--twin", 0), cpu = num("--cpu", 20), maxI = num("--maxI", 19);
    uint64_t seed = num("--seed", 1), count = num("--count", 100); int fam = num("--fam", 0);
    g_gate = A["--gate"].empty() ? 0 : A["--gate"] == "del" ? 'd' : A["--gate"] == "shr" ? 'h' : 'r'; g_force8 = twin == 1;
    if (cmd == "scan") {        // prints one line per flagged history
        double budget = num("--ms", 1 << 30) / 1000.0; timeval t0; gettimeofday(&t0, nullptr);
        long long done = 0, ops = 0; int flagged = 0; int batch = num("--batch", 8);
        for (uint64_t s = seed; s < seed + count; s += batch) {
            timeval t; gettimeofday(&t, nullptr); if (t.tv_sec - t0.tv_sec + (t.tv_usec - t0.tv_usec) / 1e6 > budget) break;
            int n = std::min<uint64_t>(batch, seed + count - s);
            run_isolated(n, n, cpu, [&](int i) { if (flagged >= 4) return 0; Hist h = make_hist(fam, s + i, maxI); Json J; Exec x(h, mask, J, twin); x.gate = g_gate; int k = x.run(); g_sh->counter[0] += h.ops.size(); return k; },
                         [&](int i, Outcome o) { flagged++; if (o.hung) flagged += 4; printf("FLAG fam=%d seed=%llu kind=%d op=%d sig=%d\n", fam, (unsigned long long) (s + i), o.kind, o.op, o.sig); });
            done += n; ops += g_sh->counter[0]; munmap(g_sh, 4096); if (flagged >= 4) break;
        }
        printf("DONE fam=%d histories=%lld ops=%lld flagged=%d\n", fam, done, ops, flagged);
        return 0;
    }
    if (cmd == "tab") { puts(tab_json(model::Tab::make(LFS[num("--lf", 0)])).c_str()); return 0; }
    if (cmd == "replay") {
        Replay R(A["--in"].c_str()); long long ops = 0; int flagged = 0, n = R.cases.size();
        for (auto &c : R.cases) ops += c.ops.size();
        if (!DivaTests::steerable<Diva<true>>(0)) { printf("DONE fam=0 histories=0 ops=0 flagged=0\n"); return 0; }
        for (int i = 0; i < n && flagged < 4; i += 16)
            run_isolated(std::min(16, n - i), 16, std::min(cpu, 5), [&](int j) { return flagged < 4 ? R.run(i + j) & mask : 0; },
                         [&](int j, Outcome o) { if (flagged++ < 4) printf("FLAG fam=0 seed=%d kind=%d op=%d sig=%d\n", i + j, o.kind, o.op, o.sig); });
        printf("DONE fam=0 histories=%d ops=%lld flagged=%d\n", n, ops, flagged);
        return 0;
    }
    if (cmd == "trace") {       // one trace of the whole history, or minimised if it fails
        Hist h = A.count("--in") ? Replay(A["--in"].c_str()).hist(seed) : make_hist(fam, seed, maxI); std::string out = A["--out"];
        if (A.count("--trunc")) h.ops.resize(std::min<size_t>(h.ops.size(), num("--trunc", 0)));
        if (A.count("--pts")) h.pts = num("--pts", 0);
        if (A.count("--rgs")) h.rgs = num("--rgs", 0);
        remove(out.c_str());
        Outcome first = isolated(h, mask, twin, cpu, nullptr);
        if (first.kind) {
            if (first.op >= 0 && (size_t) first.op + 1 < h.ops.size()) h.ops.resize(first.op + 1);
            int tries = num("--tries", 250); int mcpu = std::min(cpu, 5);
            timeval t0; gettimeofday(&t0, nullptr);        // enough is enough
            auto late = [&] { timeval t; gettimeofday(&t, nullptr); if (t.tv_sec - t0.tv_sec > 60) tries = 0; return tries <= 0; };
            auto bad = [&](const Hist &g) { if (late()) return false; tries--; Outcome o = isolated(g, mask, twin, first.hung ? cpu : mcpu, nullptr); return o.kind && (o.hung == first.hung); };
            if (first.hung) tries = std::min(tries, 12);
            for (size_t step = std::max<size_t>(1, h.ops.size() / 2); tries > 0; step = std::max<size_t>(1, step / 2)) {
                bool any = false;
                for (size_t p = 0; p < h.ops.size() && tries > 0;) {
                    Hist g = h; g.ops.erase(g.ops.begin() + p, g.ops.begin() + std::min(h.ops.size(), p + step));
                    if (bad(g)) { h = g; any = true; } else p += step;
                }
                if (step == 1 && !any) break;
                if (step == 1) continue;
            }
        }
        Outcome o = isolated(h, mask, twin, cpu, out.c_str());
        if (o.kind & (K_CRASH | K_HANG | K_ASAN)) {
            FILE *f = fopen(out.c_str(), "a"); fprintf(f, "{\"e\":\"%s\",\"sig\":%d,\"op\":%d}\n", o.hung ? "hang" : "crash", o.sig, o.op); fclose(f);
        }
        printf("TRACE kind=%d op=%d ops=%zu sig=%d\n", o.kind, o.op, h.ops.size(), o.sig);
        return 0;
    }
    return 2;
}
