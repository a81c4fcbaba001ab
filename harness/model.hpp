// A native transcription of spec/Diva.tla, used only to pick out executions
// that are worth handing to TLC.  The verdict is always TLC's.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>

namespace model {
using Key = std::string;
inline int byte_at(const Key &k, size_t i) { return i < k.size() ? (uint8_t) k[i] : 0; }
inline int bit(const Key &k, size_t p) { return byte_at(k, p / 8) >> (7 - p % 8) & 1; }
inline uint64_t bits(const Key &k, size_t p, int w) { uint64_t r = 0; for (int i = 0; i < w; i++) r = r << 1 | bit(k, p + i); return r; }
inline bool same_bits(const Key &a, const Key &b) {
    for (size_t i = 0; i < std::max(a.size(), b.size()); i++) if (byte_at(a, i) != byte_at(b, i)) return false;
    return true;
}
inline bool lt(const Key &a, const Key &b) { return a < b; }   // char_traits<char> compares as unsigned

struct Tab {
    std::vector<uint64_t> sizes; uint64_t exc, num; int shift = 15; int sep = 55;
    static Tab make(float lf) {            // written from the description of the size table
        Tab t; t.sizes.resize(500);
        double pw = 1.0;
        for (int i = 54; i >= 0; i--) { t.sizes[i] = (1024 * (uint64_t) (pw * 32768.0)) >> 15; pw *= (float) 0.95f; }
        t.exc = (uint64_t) ((float) t.sizes[0] * 0.95f);
        pw = 1.0 / lf;
        for (int i = 55; i < 500; i++) {
            double s = pw * 32768.0; if (s > 9e18) s = 9e18;
            t.sizes[i] = (1024 * (uint64_t) s) >> 15;
            if (i == 55) t.num = (uint64_t) s;
            pw /= lf;
        }
        return t;
    }
    int first(uint64_t n) const { size_t g = 0; while (g + 1 < sizes.size() && sizes[g] < n) g++; return g; }
    int alloc(uint64_t n) const { return first((num * n) >> shift); }
    int grow(int g, uint64_t n) const { return n >= (g > 0 ? sizes[g - 1] : exc) ? g + 1 : g; }
    int shrink(int g, uint64_t n) const { return g > 0 && n <= (g > 1 ? sizes[g - 2] : exc) ? g - 1 : g; }
};

constexpr int BASE = 10;
constexpr uint64_t TARGET = 1024, MAXEXP = 16 * 1024;
constexpr int WORD = 64;

struct Geo { int sh, ig, im, B; uint64_t a0, b0; };
inline Geo geo(const Key &a, const Key &b) {
    Geo g; size_t i = 0; while (byte_at(a, i) == byte_at(b, i)) i++;
    size_t p = 8 * i; while (bit(a, p) == bit(b, p)) p++;
    g.sh = p; g.ig = 0; while (bit(a, p + 1 + g.ig) == 1 && bit(b, p + 1 + g.ig) == 0) g.ig++;
    uint64_t i1 = bits(a, g.sh + g.ig + 1, BASE - 1), i2 = (1u << (BASE - 1)) + bits(b, g.sh + g.ig + 1, BASE - 1);
    g.im = BASE + (2 * (i2 - i1 + 1) < (1u << BASE));
    g.B = g.sh + g.ig + g.im;
    g.a0 = bits(a, g.sh + g.ig + 1, g.im - 1);
    g.b0 = (1ull << (g.im - 1)) + bits(b, g.sh + g.ig + 1, g.im - 1);
    return g;
}
inline uint64_t cell(const Geo &g, const Key &k) { return ((uint64_t) bit(k, g.sh) << (g.im - 1)) + bits(k, g.sh + g.ig + 1, g.im - 1); }
inline uint64_t val(const Geo &g, int I, const Key &k) { return ((cell(g, k) - g.a0) << I) + bits(k, g.B, I); }
inline uint64_t infix(const Geo &g, int I, const Key &k) { return val(g, I, k) | 1; }
inline uint64_t lb(uint64_t v) { return v & -v; }
inline uint64_t Lo(uint64_t v) { return v - lb(v); }
inline uint64_t Hi(uint64_t v) { return v + lb(v) - 1; }
inline bool before(uint64_t u, uint64_t v) { return Lo(u) < Lo(v) || (Lo(u) == Lo(v) && lb(u) > lb(v)); }
inline bool covers(uint64_t v, uint64_t x) { return Lo(v) <= x && x <= Hi(v); }
using List = std::vector<uint64_t>;

struct Prefix { int from; std::string bits; };           // bits: chars 0/1
inline Prefix abs_prefix(const Geo &g, int I, uint64_t v) {
    Prefix p; p.from = g.sh;
    uint64_t c = (v >> I) + g.a0; int msb = c >> (g.im - 1) & 1;
    p.bits.push_back(msb); p.bits.append(g.ig, (char) (1 - msb));
    for (int i = g.im - 2; i >= 0; i--) p.bits.push_back(c >> i & 1);
    int low = __builtin_ctzll(v);
    for (int i = I - 1; i > low; i--) p.bits.push_back(v >> i & 1);
    return p;
}
inline int plen(const Prefix &p) { return p.from + (int) p.bits.size(); }
inline int pbit(const Prefix &p, const Key &ref, int q, int z) { return q < p.from ? bit(ref, q) : q < plen(p) ? p.bits[q - p.from] : z; }
inline uint64_t pcell(const Geo &g, const Prefix &p, const Key &ref, int z) {
    uint64_t r = pbit(p, ref, g.sh, z);
    for (int i = 1; i < g.im; i++) r = r << 1 | pbit(p, ref, g.sh + g.ig + i, z);
    return r;
}
inline int pcmp(const Prefix &p, const Key &ref, int z, const Key &k, int n) {
    for (int q = p.from; q < n; q++) { int x = pbit(p, ref, q, z), y = bit(k, q); if (x != y) return x < y ? -1 : 1; }
    return 0;
}
inline uint64_t to_infix(const Geo &g, int I, const Prefix &p, const Key &ref) {
    int e = std::min(plen(p) - g.B, I - 1); uint64_t x = 0;
    for (int i = 0; i < e; i++) x = x << 1 | pbit(p, ref, g.B + i, 0);
    return ((pcell(g, p, ref, 0) - g.a0) << I) + ((2 * x + 1) << (I - 1 - e));
}
inline void refit_range(const Geo &g, const Key &a, const Key &b, const Prefix &p, uint64_t &lo, uint64_t &hi) {
    lo = pcmp(p, a, 0, a, g.B) <= 0 ? g.a0 : pcell(g, p, a, 0);
    hi = pcmp(p, a, 1, b, g.B) >= 0 ? g.b0 : pcell(g, p, a, 1);
}
inline uint64_t refit_count(const Geo &g, const Key &a, const Key &b, const Prefix &p) {
    if (plen(p) >= g.B) return 1;
    uint64_t lo, hi; refit_range(g, a, b, p, lo, hi); return hi - lo + 1;
}
inline List refit_all(const Geo &g, int I, const Key &a, const Key &b, const std::vector<Prefix> &ps) {
    List r; bool exp = false;
    for (auto &p : ps) {
        if (plen(p) >= g.B) { r.push_back(to_infix(g, I, p, a)); continue; }
        exp = true; uint64_t lo, hi; refit_range(g, a, b, p, lo, hi);
        for (uint64_t c = lo; c <= hi && c + 1 != 0; c++) r.push_back(((c - g.a0) << I) + (1ull << (I - 1)));
    }
    if (exp) std::sort(r.begin(), r.end(), before);
    return r;
}

struct Store { Key key; bool part = false; int inv = 0; int grade = 55; List list; };
inline size_t ins_pos(const List &s, uint64_t v) { return std::upper_bound(s.begin(), s.end(), v, before) - s.begin(); }

struct Filter {
    int I; uint32_t minlen = UINT32_MAX; Tab tab; std::vector<Store> bd;
    bool was_split = false;     // last Split really split
    size_t seek(const Key &k) const { return std::lower_bound(bd.begin(), bd.end(), k, [](const Store &s, const Key &x) { return s.key < x; }) - bd.begin(); }
    size_t home(const Key &k) const { size_t i = seek(k); return i < bd.size() && bd[i].key == k ? i : i - 1; }
    static bool prefix_hit(const Store &b, const Key &k) {
        if (!b.part || b.key.size() > k.size()) return false;
        size_t n = b.key.size();
        return b.key.compare(0, n - 1, k, 0, n - 1) == 0 && (uint8_t) b.key[n - 1] >> b.inv == (uint8_t) k[n - 1] >> b.inv;
    }
    void add_boundary(const Key &k) {
        size_t i = seek(k); if (i < bd.size() && bd[i].key == k) return;
        Store s; s.key = k; s.grade = tab.sep; bd.insert(bd.begin() + i, s);
    }
    void note(const Key &k) { minlen = std::min<uint32_t>(minlen, k.size()); }
    void store_add(Store &b, uint64_t v) { b.grade = tab.grow(b.grade, b.list.size()); b.list.insert(b.list.begin() + ins_pos(b.list, v), v); }
    Geo g(size_t i) const { return geo(bd[i].key, bd[i + 1].key); }
    void simple(const Key &k) {
        size_t i = home(k); if (i + 1 == bd.size()) return;
        store_add(bd[i], infix(g(i), I, k));
    }
    void split(const Key &k) {
        was_split = false;
        size_t i = home(k);
        if (i + 1 == bd.size()) return;
        Store &b = bd[i];
        if (prefix_hit(b, k)) return simple(k);
        const Key a = b.key, nx = bd[i + 1].key;
        Geo go = g(i); uint64_t x = infix(go, I, k);
        size_t n = b.list.size(), pos = ins_pos(b.list, x); bool cut = false; int L = 0, u = 0; Key m = k;
        for (size_t j = 0; j < n; j++) if (covers(b.list[j], x)) { cut = true; pos = j; break; }
        if (cut) {
            L = go.B + I - 1 - __builtin_ctzll(b.list[pos]); u = 7 - (L - 1) % 8;
            if ((int) k.size() > (L - 1) / 8) { m.resize((L - 1) / 8 + 1); m.back() = (char) ((uint8_t) m.back() >> u << u); }
        }
        if ((cut && m.back() == 0 && minlen < m.size()) || same_bits(m, a) || same_bits(m, nx)) return simple(k);
        Geo gl = geo(a, m), gr = geo(m, nx);
        std::vector<Prefix> pl, pr; uint64_t cnt = 0;
        for (size_t j = 0; j < n; j++) (j < pos ? pl : pr).push_back(abs_prefix(go, I, b.list[j]));
        if ((cut && L <= std::max(gl.sh, gr.sh)) || (pos > 0 && I + go.im + gl.B - go.B > WORD) || (pos < n && I + go.im + gr.B - go.B > WORD)) return simple(k);
        for (auto &p : pl) cnt += refit_count(gl, a, m, p);
        for (auto &p : pr) cnt += refit_count(gr, m, nx, p);
        if (cnt > n + MAXEXP) return simple(k);
        List ll = refit_all(gl, I, a, m, pl), rl = refit_all(gr, I, m, nx, pr);
        if (cut) rl.erase(rl.begin());
        b.list = ll; b.grade = tab.alloc(ll.size());
        Store r; r.key = m; r.part = cut; r.inv = cut ? u : 0; r.list = rl; r.grade = tab.alloc(rl.size());
        if (cut) store_add(r, bits(k, gr.B, I) | 1);
        bd.insert(bd.begin() + i + 1, r);
        was_split = true;
    }
    void merge(size_t i) {
        if (i == 0 || i + 1 == bd.size()) return;
        Store &l = bd[i - 1], &c = bd[i]; const Key r = bd[i + 1].key;
        Geo gn = geo(l.key, r), gl = geo(l.key, c.key), gr = geo(c.key, r); List s;
        for (auto v : l.list) s.push_back(to_infix(gn, I, abs_prefix(gl, I, v), l.key));
        for (auto v : c.list) s.push_back(to_infix(gn, I, abs_prefix(gr, I, v), c.key));
        std::sort(s.begin(), s.end(), before);
        l.list = s; l.grade = tab.alloc(s.size());
        bd.erase(bd.begin() + i);
    }
    void del(const Key &k) {
        size_t i = home(k); Store &b = bd[i];
        if (b.key == k && !b.part) return merge(i);
        Geo go = g(i); uint64_t x = infix(go, I, k); int mx = -1;
        for (size_t j = 0; j < b.list.size(); j++) if (covers(b.list[j], x)) mx = j;
        if (prefix_hit(b, k) && (mx < 0 || (int) (8 * b.key.size()) - b.inv > go.B + I - 1 - (int) __builtin_ctzll(b.list[mx]))) return merge(i);
        if (mx < 0) return;     // outside the domain
        b.grade = tab.shrink(b.grade, b.list.size());
        b.list.erase(b.list.begin() + mx);
    }
    void shrink(int J) {
        int d = I - J;
        for (auto &b : bd) for (auto &v : b.list) v = (v >> d) | (__builtin_ctzll(v) < d ? 1 : 0);
        I = J;
    }
    bool point(const Key &k) const {
        size_t i = home(k);
        if (bd[i].key == k || prefix_hit(bd[i], k)) return true;
        uint64_t x = val(g(i), I, k);
        for (auto v : bd[i].list) if (covers(v, x)) return true;
        return false;
    }
    bool range(const Key &l, const Key &r) const {
        size_t i = seek(l);
        if (bd[i].key <= r || prefix_hit(bd[i - 1], l)) return true;
        Geo go = g(i - 1); uint64_t x = infix(go, I, l), y = infix(go, I, r);
        for (auto v : bd[i - 1].list) if (Lo(v) <= y && x <= Hi(v)) return true;
        return false;
    }
    uint64_t entries() const { uint64_t n = 0; for (auto &b : bd) n += 1 + b.list.size(); return n; }
    uint64_t size() const {
        uint64_t r = 49 + 4;
        for (auto &b : bd) r += 8 + (b.key.size() + 7) / 8 * 8 + 8 * (1 + (TARGET + tab.sizes[b.grade] * (I + 1) + 63) / 64);
        return r;
    }
    // route: 0 fixed, 1 variable, 2 streaming
    void bulk(const std::vector<Key> &ks, int route) {
        size_t from = 0, n = ks.size(), mx = 0;
        for (auto &k : ks) { note(k); mx = std::max(mx, k.size()); }
        for (;;) {
            Store s; s.key = ks[from]; s.grade = tab.sep;
            if (from + 1 == n) { bd.push_back(s); break; }
            size_t to = std::min(from + TARGET, n - 1);
            Geo go = geo(ks[from], ks[to]);
            for (size_t j = from + 1; j < to; j++) s.list.push_back(infix(go, I, ks[j]));
            if (from + TARGET > n - 1) s.grade = tab.first(s.list.size());
            bd.push_back(s); from = to;
        }
        add_boundary(Key(route == 1 ? 8 : mx, 0)); add_boundary(Key(mx, (char) 0xff));
    }
};
}
